"""The set-up of a run: its galaxies, radii, models, mask galaxies and depth."""
import math
import numpy
from .common import Obj, silent_logger


def near(c, a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and c.all([c.eq(x, y) for x, y in zip(a, b)])


def setup(c):
    """what a run reads, and which galaxies it keeps"""
    M = c.mod('cluster_runner')
    G = c.mod('galaxy').GalaxyCatalog
    p = c.params.get
    n = 3
    rm = [c.real('rm', 10, 30), 15.5, 19.0]
    ch = [c.real('ch', 0, 40), 3.0, c.real('ch2', 0, 40)]
    for e in (12.5, 19.5, 15.0):
        c.assume((rm[0] < e - 1e-5) | (rm[0] > e + 1e-5))
    for q in (0, 2):
        c.assume((ch[q] < 20 - 1e-5) | (ch[q] > 20 + 1e-5))
    if p('none'):
        rm[1], rm[2] = 11.0, 22.0
    cat = G(c.rec(n, [('id', 'i4'), ('refmag', 'f8'), ('refmag_err', 'f8'), ('chisq', 'f8')], dict(id=[1, 2, 3], refmag=rm, refmag_err=[0.125, 0.25, 0.5], chisq=ch)))
    asked, depth = [], []

    def from_galfile(f, **k):
        asked.append((f, k))
        if not k.get('use_tempfile'):
            return cat
        lo, hi = k['refmag_range']
        ix = [i for i in range(n) if bool(rm[i] > lo) and bool(rm[i] < hi) and (k.get('zredfile') is None or bool(ch[i] < k['chisq_max']))]
        return cat[numpy.array(ix, dtype=int)]
    c.patch(G, 'from_galfile', from_galfile)
    for nm in ('Background', 'ZredBackground', 'ColorBackground'):
        c.patch(M, nm, (lambda nm: lambda f, **k: Obj(kind=nm, f=f, k=k, refmagbins=numpy.array([12.5, 15.0, 17.0])))(nm))
    c.patch(M, 'RedSequenceColorPar', lambda f, **k: Obj(f=f, k=k))

    def zl(parfile=None, zlambda_pivot=None):
        if parfile is None:
            raise ValueError('no file')
        return Obj(f=parfile, p=zlambda_pivot)
    c.patch(M, 'ZlambdaCorrectionPar', zl)
    c.patch(M, 'get_mask', lambda cfg: Obj(cfg=cfg))
    has = p('depth', True)

    def dm(cfg):
        if not has:
            raise RuntimeError('no depth')
        return Obj(cfg=cfg)
    c.patch(M, 'DepthMap', dm)
    failing = p('faildepth', False)

    def dl(m, e):
        depth.append((list(m), list(e)))
        if failing:
            raise RuntimeError('no fit')
        return Obj()
    c.patch(M, 'DepthLim', dl)
    pr0, fr0 = c.real('pr0', 0.25, 2), c.real('fr0', 0.25, 2)
    rm0 = c.real('rmask0', 0.25, 3)
    beta = [0.0, 0.25][c.index('beta', 0, 1)]
    rbeta = [0.0, 0.25, 0.5][c.index('rbeta', 0, 2)] if beta else 0.0
    local = bool(c.flag('local')) if p('local') else False
    lm = c.real('lmask', -1, 1)
    cfg = Obj(d=Obj(hpix=p('hpix', [9]), nside=4), percolation_r0=pr0, percolation_beta=beta, firstpass_r0=fr0, firstpass_beta=0.0, percolation_rmask_0=rm0, percolation_rmask_beta=rbeta, percolation_rmask_gamma=0.75, percolation_rmask_zpivot=0.375, percolation_lmask=lm, lval_reference=0.25, bkg_local_compute=local, bkg_local_use=False,
              bkg_local_annuli=[1.0, 2.5], bkgfile='B', bkgfile_color='BC', parfile='P', zlambdafile=p('zl', 'ZL'), zlambda_pivot=30.0, zredfile=p('zred', 'Z'), galfile='G', border=0.5, use_tempfiles_to_conserve_memory=p('temp', False), chisq_max=20.0, centering_use_zspec=p('zspec', False), cosmo=Obj(), logger=silent_logger())
    r = M.ClusterRunner.__new__(M.ClusterRunner)
    r.config, r.runmode, r._filename = cfg, p('mode', 'percolation'), None
    r.read_gals, r.read_zreds, r.zreds_required, r.did_read_zreds, r.zredbkg_required = p('gals', True), p('rz', True), p('need', False), False, p('zb', False)
    r.use_colorbkg, r.use_parfile, r.use_maxmag_in_matching, r.use_rmask_settings, r.cutgals_chisqmax, r.cutgals_bkgrange = p('cb', False), p('par', True), True, p('rmask', True), p('chi', True), p('cut', True)
    zf = cfg.zredfile if r.read_zreds else None
    if (r.zreds_required and zf is None) or (not has and not r.read_gals):
        c.prove('nothing is guessed', c.raises(r._setup, RuntimeError) is not None)
        c.cover('refused')
        return
    ok = r._setup()
    r0, b = (pr0, beta) if r.runmode == 'percolation' else (fr0, 0.0)
    c.prove('radius of this pass', c.eq(r.r0, r0) and r.beta == b)
    m0, mb = (rm0, rbeta) if r.use_rmask_settings else (r0, b)
    c.prove('mask radius', c.eq(r.rmask_0, m0) and r.rmask_beta == mb and r.rmask_gamma == 0.75 and r.rmask_zpivot == 0.375)
    c.prove('luminosity limit of the mask', c.eq(r.percolation_lmask, lm if bool(lm >= 0) else 0.25))
    if b > 0 or mb == 0:
        for lam in (5.0, 100.0, 300.0):
            c.prove('search radius holds every cluster', c.le(r0 * (lam / 100.0) ** b, r.maxrad) & c.le(m0 * (lam / 100.0) ** mb, r.maxrad) & c.le(m0 * (lam / 100.0) ** mb, r.maxrad2))
    c.prove('search radius holds the annulus', (not local) or c.le(2.5, r.maxrad))
    c.prove('backgrounds', (r.cbkg.kind == 'ColorBackground' and r.cbkg.f == 'BC' and r.bkg is None) if r.use_colorbkg else (r.bkg.kind == 'Background' and r.bkg.f == 'B' and r.cbkg is None))
    c.prove('zred background', (r.zredbkg.kind == 'ZredBackground' and r.zredbkg.f == 'B') if r.zredbkg_required else r.zredbkg is None)
    c.prove('model', r.zredstr.f == ('P' if r.use_parfile else None) and (r.use_parfile or r.zredstr.k.get('config') is cfg))
    c.prove('redshift correction', (r.zlambda_corr is None) if cfg.zlambdafile is None else (r.zlambda_corr.f == cfg.zlambdafile and r.zlambda_corr.p == 30.0))
    c.prove('mask', r.mask.cfg is cfg and ((r.depthstr is not None and r.depthstr.cfg is cfg) if has else r.depthstr is None))
    if not r.read_gals:
        c.prove('no galaxies', ok and r.gals is None and not asked)
        c.cover('none read')
        return
    k = asked[0][1]
    c.prove('galaxies of this region', len(asked) == 1 and asked[0][0] == 'G' and k.get('nside') == 4 and k.get('hpix') == cfg.d.hpix and k.get('border') == 0.5 and k.get('zredfile') == zf and bool(k.get('zspec')) == bool(cfg.centering_use_zspec))
    want = [i for i in range(n) if (not r.cutgals_bkgrange or (bool(rm[i] > 12.5) and bool(rm[i] < 19.5))) and (not (zf is not None and r.cutgals_chisqmax) or bool(ch[i] < 20.0))]
    got = [int(x) for x in r.gals.id] if r.gals is not None else []
    c.prove('galaxies kept', sorted(got) == [i + 1 for i in want])
    c.prove('zreds are there', bool(r.did_read_zreds) == (zf is not None))
    if not want:
        c.prove('nothing to do', ok is False)
        c.cover('empty')
        return
    if not has:
        c.prove('depth from the galaxies', len(depth) == 1 and near(c, depth[0][0], [rm[i - 1] for i in got]) and near(c, depth[0][1], [[0.125, 0.25, 0.5][i - 1] for i in got]))
        if failing:
            c.prove('no depth, no run', ok is False)
            c.cover('no depth')
            return
    c.prove('ready', ok is True and c.eq(r.limlum, 0.15))
    c.cover('ready')


def maskgals(c):
    """the Monte-Carlo galaxies of the mask correction"""
    M = c.mod('mask')
    C = c.mod('catalog')
    ns, ng = c.ns, 2
    n = ns * ng
    rsig = c.params.get('rsig', 0.0)
    R = [0.0625 + 0.21875 * i for i in range(n)]
    m = [0.5 + 0.25 * i for i in range(n)]
    for i in c.params.get('free', [0]):
        R[i] = c.real('r%d' % i, 0, 1.5) if rsig <= 0 else [0.125, 0.6875, 1.25][c.index('r%d' % i, 0, 2)]
        m[i] = c.real('m%d' % i, -2, 3)
    lim = -2.5 * math.log10(0.25)
    beta = c.params.get('beta', 0.0)
    minr, maxr = min(math.floor(10 * 0.75 * 0.03 ** beta) / 10.0, 0.5), math.ceil(10 * 0.75 * 3.0 ** beta - 1e-9) / 10.0
    nb = int(math.ceil((maxr - minr) / 0.125 - 1e-9)) + 1
    rad = [minr + 0.125 * k for k in range(nb)]
    for i in range(n):
        for e in rad:
            if i in c.params.get('free', [0]):
                c.assume((R[i] < e - 1e-5) | (R[i] > e + 1e-5))
        c.assume((m[i] < lim - 1e-5) | (m[i] > lim + 1e-5))
    pdf = []
    names = {}

    def sample(f, ran, step, nsamp, **k):
        kind = names[f]
        pdf.append((kind, list(ran), nsamp, k))
        return c.np.array({'chisq': [1.0 + i for i in range(n)], 'schechter': m, 'nfw': R}[kind])
    fs = {}
    for kind in ('chisq', 'schechter', 'nfw'):
        fs[kind] = (lambda kind: lambda x, *a, **k: (seen.append((kind, a, k)), 2.0 + c.np.asarray(x) * {'chisq': 0.5, 'schechter': 0.25, 'nfw': 0.125}[kind])[1])(kind)
        names[fs[kind]] = kind
        c.patch(M, kind + '_pdf', fs[kind])
    seen = []
    c.patch(M, 'sample_from_pdf', sample)
    integ = []
    c.patch(M, 'scipy', Obj(integrate=Obj(simpson=lambda y=None, x=None: (integ.append((float(x[0]), float(x[-1]))), 4.0)[1])))
    np0 = M.np
    ph = [0.0, math.pi / 2, 0.25, 1.0, 2.0, 3.0][:n]
    dz = [0.015625 * i for i in range(n)]
    un = [[0.25, 0.5, 0.75, 1.0, 0.125, 0.375][:n], [0.0, 0.25, 0.5, 0.75, 0.125, 0.375][:n]]
    cnt = [0]

    def uniform(size=None):
        cnt[0] += 1
        return numpy.array(un[(cnt[0] - 1) % 2])

    class NP(object):
        random = Obj(random=lambda size=None: numpy.array([x / (2 * math.pi) for x in ph]), uniform=uniform, normal=lambda loc=0.0, scale=1.0, size=None: numpy.array([loc + scale * x for x in dz]))

        def __getattr__(self, k):
            return getattr(np0, k)
    c.patch(M, 'np', NP())
    out = []
    c.patch(C.DataObject, 'to_fits_file', lambda self, f, clobber=False, header=None, **k: out.append((f, self, clobber, header)))
    c.patch(M, 'fitsio', Obj(FITSHDR=dict))
    k = M.Mask.__new__(M.Mask)
    k.config = Obj(percolation_r0=0.75, percolation_beta=beta, maskgal_rad_stepsize=0.125, nmag=4, maskgal_ngals=ng, maskgal_nsamples=ns, chisq_max=20.0, lval_reference=0.25, maskgal_dmag_extra=0.5, calib_lumfunc_alpha=-1.0, bkg_local_annuli=[1.0, 2.0], maskgal_zred_err=0.25, rsig=rsig)
    k.gen_maskgals('OUT')
    f, g, clob, h = out[0]
    c.prove('written', len(out) == 1 and f == 'OUT' and clob and h['version'] == M.CURRENT_MASKGAL_VERSION and h['ngals'] == ng and h['nmag'] == 4 and h['lvalref'] == 0.25 and h['rsig'] == rsig and h['chisqmax'] == 20.0)
    c.prove('size', g.size == n)
    d = {x[0]: x for x in pdf}
    c.prove('drawn from', near(c, d['chisq'][1], [0.0, 20.0]) & near(c, d['schechter'][1], [-2.5, lim + 0.5]) & c.eq(d['nfw'][1][1], maxr) and d['chisq'][3].get('k') == 3 and d['nfw'][3].get('radfactor') is True and d['schechter'][3].get('alpha') == -1.0 and all(x[2] == n for x in pdf))
    for i in range(n):
        c.prove('radius bins', near(c, g.radbins[i], rad))
        c.prove('position', c.eq(g.r[i], R[i]) & c.eq(g.phi[i], ph[i]) & c.eq(g.x[i], R[i] * math.cos(ph[i])) & c.eq(g.y[i], R[i] * math.sin(ph[i])))
        ru, tu = 2.0 * math.sqrt(un[0][i]), 2 * math.pi * un[1][i]
        c.prove('uniform position', c.eq(g.r_uniform[i], ru) & c.eq(g.x_uniform[i], ru * math.cos(tu)) & c.eq(g.y_uniform[i], ru * math.sin(tu)))
        c.prove('magnitude', c.eq(g.m[i], m[i]) & c.eq(g.chisq[i], 1.0 + i))
        c.prove('weights', c.eq(g.cwt[i], 2.0 + 0.5 * (1.0 + i)) & c.eq(g.chisq_pdf[i], 2.0 + 0.5 * (1.0 + i)) & c.eq(g.nfw[i], 2.0 + 0.125 * R[i]) & c.eq(g.lum_pdf[i], 2.0 + 0.25 * (m[i] + 19.0)) & c.eq(g.lumwt[i], (2.0 + 0.25 * (m[i] + 19.0)) / 4.0))
        z = 0.25 * dz[i]
        c.prove('redshift weight', c.eq(g.dzred[i], z) & c.eq(g.zwt[i], math.exp(-z * z / (2 * 0.0625)) / (math.sqrt(2 * math.pi) * 0.25)))
    th = lambda i, e: 1.0 if rsig <= 0 else 0.5 + 0.5 * math.erf((e - float(R[i])) / (math.sqrt(2.0) * rsig))
    for j in range(ns):
        ix = range(j * ng, (j + 1) * ng)
        bright = [i for i in ix if bool(m[i] < lim)]
        for q, e in enumerate(rad):
            ins = len([i for i in bright if bool(R[i] <= e)])
            tot = sum(th(i, e) for i in bright)
            for i in ix:
                c.prove('number inside', c.eq(g.nin_orig[i, q], float(ins)))
                c.prove('weighted number', c.eq(g.nin[i, q], tot))
                c.prove('radial weight', c.eq(g.theta_r[i, q], th(i, e)))
    c.cover('end')


def maskfile(c):
    """which mask is read, and which is refused"""
    M = c.mod('mask')
    C = c.mod('catalog')
    there, ver = bool(c.flag('there')), bool(c.flag('version'))
    sparse = c.index('sparse', 0, 2)
    mode = [0, 3][c.index('mode', 0, 1)]
    inc = bool(c.flag('maskgals'))
    hpix = [[], [9]][c.index('sub', 0, 1)]
    log = []

    def header(f, ext=1):
        if f == 'MG':
            return {'version': M.CURRENT_MASKGAL_VERSION - (0 if ver else 1)}
        if ext == 'COV':
            return {'NSIDE': 32}
        return [{'PIXTYPE': 'HEALSPARSE'}, {'PIXTYPE': 'HEALPIX'}, {}][sparse]
    c.patch(M, 'fitsio', Obj(read_header=header))
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: f == 'MG' and there)))
    c.patch(C.Catalog, 'from_fits_file', lambda f, **k: Obj(f=f))
    c.patch(M, 'get_healsparse_subpix_indices', lambda ns, hp, bo, cov: ('pix', ns, list(hp), bo, cov))
    c.patch(M, 'healsparse', Obj(HealSparseMap=Obj(read=lambda f, pixels=None: (log.append((f, pixels)), Obj(nside_sparse=4096))[1])))
    cfg = Obj(mask_mode=mode, maskfile='MF', maskgalfile='MG', d=Obj(nside=4, hpix=hpix), border=0.5)
    call = lambda: M.get_mask(cfg, include_maskgals=inc)
    if (inc and not (there and ver)) or (mode == 3 and sparse > 0):
        c.prove('refused', c.raises(call, RuntimeError) is not None)
        c.cover('refused')
        return
    m = call()
    c.prove('kind', type(m).__name__ == ('HPMask' if mode == 3 else 'Mask') and m.config is cfg)
    c.prove('mask galaxies', (m.maskgals_all.f == 'MG') if inc else not hasattr(m, 'maskgals_all'))
    c.prove('region', log == ([] if mode == 0 else [('MF', ('pix', 4, [9], 0.5, 32) if hpix else None)]))
    c.prove('pixels', mode == 0 or m.nside == 4096)
    if mode == 0:
        c.prove('everything is inside', [bool(x) for x in m.compute_radmask([1.0, 2.0], [3.0, -90.0])] == [True, True] and c.raises(lambda: m.compute_radmask([1.0, 2.0], [3.0]), ValueError) is not None)
    c.cover('read')


def depth(c):
    """the depth around a cluster, or of the whole region when there are too few galaxies"""
    M = c.mod('depth_fitting')
    n = c.n
    kinds = [c.index('k%d' % i, 0, 2) for i in range(n)]
    mag = [[18.0 + 0.25 * i, 20.0 - 0.25 * i, 22.0 + 0.125 * i][c.index('m%d' % i, 0, 2)] for i in range(n)]
    err = [[0.0625, 0.0, -1.0][k] if not c.params.get('noisy') else [0.0625, 0.5, float('nan')][k] for k in kinds]
    conv = bool(c.flag('converged'))
    got = []

    def fmin(f, p0, **k):
        got.append((list(f.mag), list(f.magErr)))
        return (numpy.array([21.5, 100.0]), 0.5, 1, 1, 0 if conv or len(got) == 1 else 1)
    c.patch(M, 'scipy', Obj(optimize=Obj(fmin=fmin)))
    if c.params.get('whole'):
        if all(k for k in kinds) or len([k for k in kinds if k == 0]) < 2:
            # only the faintest is left, and it is cut
            c.prove('no depth', c.raises(lambda: M.DepthLim(c.np.array(mag), c.np.array(err)), RuntimeError) is not None)
            c.cover('no depth')
        else:
            d = M.DepthLim(c.np.array(mag), c.np.array(err))
            c.prove('whole region', c.eq(d.initpars['LIMMAG'][0], 21.5) & c.eq(d.initpars['EXPTIME'][0], 100.0))
            fl = 10.0 ** ((21.5 - 22.5) / -2.5)
            near1 = lambda k, v: abs(float(d.initpars[k][0]) - v) < 1e-4 * abs(v)
            c.prove('noise of the fit', near1('ZP', 22.5) and near1('NSIG', 10.0) and near1('FLUX1_LIM', fl) and near1('FSKY1', fl * fl * 100.0 / 100.0 - fl))
            c.cover('depth')
        return
    d = M.DepthLim(numpy.array([18.0, 18.5, 19.0]), numpy.array([0.03125, 0.0625, 0.09375]))
    d.initpars['LIMMAG'], d.initpars['EXPTIME'], d.initpars['ZP'], d.initpars['NSIG'] = 20.25, 50.0, 23.5, 5.0
    g = Obj(limmag=c.np.zeros(3), exptime=c.np.zeros(3), zp=c.np.zeros(3), nsig=c.np.zeros(3))
    d.calc_maskdepth(g, c.np.array(mag), c.np.array(err))
    ok = [i for i in range(n) if kinds[i] == 0]
    fin = [i for i in range(n) if kinds[i] == 0 or (c.params.get('noisy') and kinds[i] == 1)]
    faint = max(mag[i] for i in fin) if len(fin) else None
    use = [i for i in ok if bool(mag[i] < faint)]
    if use:
        c.prove('galaxies with errors', near(c, got[1][0], [mag[i] for i in use]) and near(c, got[1][1], [err[i] for i in use]))
    if use and conv:
        c.prove('local depth', near(c, g.limmag, [21.5] * 3) & near(c, g.exptime, [100.0] * 3) & c.eq(g.zp[0], 22.5) & c.eq(g.nsig[0], 10.0))
        c.cover('local')
    else:
        c.prove('depth of the region', near(c, g.limmag, [20.25] * 3) & near(c, g.exptime, [50.0] * 3) & c.eq(g.zp[0], 23.5) & c.eq(g.nsig[0], 5.0))
        c.cover('region')


def cost(c):
    """the depth fit compares the errors of the galaxies with the noise model"""
    M = c.mod('depth_fitting')
    grid = lambda k, *v: v[c.index(k, 0, len(v) - 1)]
    lim, t, zp, ns = grid('lim', 20.0, 21.25, 23.0), grid('t', -1.0, 0.5, 16.0, 300.0, 900.0), grid('zp', 22.5, 25.0), grid('nsig', 5.0, 10.0)
    mag = [grid('m', 17.0, 20.5), 21.0]
    err = c.reals('e', 2, 0.001, 1)
    f = M.DepthFunction(numpy.array(mag), err, zp, ns)
    f.max_p1 = 500.0
    got = f([lim, t])
    f1 = 10.0 ** ((lim - zp) / -2.5)
    sky = f1 * f1 * t / ns ** 2 - f1
    if t < 0 or t > 500.0 or sky < 0:
        c.prove('not allowed', c.eq(got, 1e10))
        c.cover('bad')
        return
    want = 0.0
    for i in range(2):
        q = t * 10.0 ** ((mag[i] - zp) / -2.5)
        d = 2.5 / math.log(10.0) * math.sqrt(sky * t + q) / q - err[i]
        want = want + (d if bool(d > 0) else -d)
    c.prove('cost', c.eq(got, want))
    c.cover('good')


def errors(c):
    """photometric errors of the mask galaxies"""
    n = 2
    grid = lambda k, *v: v[c.index(k, 0, len(v) - 1)]
    lm, et, zp, ns = grid('lim', 20.0, 22.0), grid('exp', 1.0, 64.0), 22.5, grid('nsig', 5.0, 10.0)
    mi = [grid('m0', 16.0, 19.5, 23.0), 20.0]
    dr = [grid('d', -40.0, -1.5, 0.0, 2.0), -0.5]
    f1 = 10.0 ** ((lm - zp) / -2.5)
    sky = f1 * f1 * et / (ns * ns) - f1
    C = 2.5 / math.log(10.0)
    if c.which == 'fit':
        c.assume(sky > 0)
        M = c.mod('depth_fitting')
        np0 = M.np

        class NP(object):
            random = Obj(normal=lambda loc=0.0, scale=1.0, size=None: loc if size is None else numpy.array([loc + scale * x for x in dr[:int(size)]]))

            def __getattr__(self, k):
                return getattr(np0, k)
        c.patch(M, 'np', NP())
        pars = dict(EXPTIME=[et], ZP=[zp], FSKY1=[sky])
        quiet = bool(c.flag('quiet'))
        t = [et * 10.0 ** ((x - zp) / -2.5) for x in mi]
        no = [math.sqrt(sky * et + x) for x in t]
        fl = [x + (0.0 if quiet else y * d) for x, y, d in zip(t, no, dr)]
        c.assume(min(fl) > 0)
        m, e = M.applyErrorModel(pars, numpy.array(mi), noNoise=quiet)
        c.prove('size', len(m) == n and len(e) == n)
        for i in range(n):
            c.prove('magnitude', c.eq(m[i], zp - 2.5 * math.log10(fl[i] / et)))
            c.prove('error', c.eq(e[i], C * no[i] / fl[i]))
        c.cover('end')
        return
    M = c.mod('utilities')
    sky = max(sky, 0.001)
    c.patch(M, 'random', Obj(standard_normal=lambda k: numpy.array(dr[:int(k)])))
    s0, ra = grid('s0', 0.0, 0.125), grid('ratio', 1.0, 1.5)
    mode = c.mode
    g = Obj(limmag=numpy.array([lm, lm + 0.5]), zp=numpy.array([zp, 0.0]), exptime=numpy.array([et, 2 * et]), nsig=numpy.array([ns, 0.0]))
    k = dict(sigma0=s0, err_ratio=ra)
    b = 2.0 ** -30
    if mode == 'quiet':
        k['nonoise'] = True
    if mode == 'flux':
        k['fluxmode'] = True
    if mode == 'lup':
        k['b'] = b
    m, e = M.apply_errormodels(g, numpy.array(mi), **k)
    for i in range(n):
        fl = 10.0 ** ((g.limmag[i] - zp) / -2.5)
        sk = max(fl * fl * g.exptime[i] / (ns * ns) - fl, 0.001)
        t = g.exptime[i] * 10.0 ** ((mi[i] - zp) / -2.5)
        no = ra * math.sqrt(sk * g.exptime[i] + t)
        if s0 > 0:
            no = math.sqrt(no * no + (math.log(10.0) / 2.5 * s0 * t) ** 2)
        x = t + (0.0 if mode == 'quiet' else no * dr[i])
        if mode == 'flux':
            c.prove('flux', c.eq(m[i], x / g.exptime[i]) & c.eq(e[i], no / g.exptime[i]))
        elif mode == 'lup':
            y, z = x / g.exptime[i], no / g.exptime[i]
            bn = b * 1e9
            c.prove('luptitude', c.eq(m[i], 2.5 * math.log10(1 / b) - math.asinh(0.5 * y / bn) / (0.4 * math.log(10.0))) & c.eq(e[i], 2.5 * z / (2 * bn * math.log(10.0) * math.sqrt(1 + (0.5 * y / bn) ** 2))))
        elif x > 0:
            c.prove('magnitude', c.eq(m[i], zp - 2.5 * math.log10(x / g.exptime[i])) & c.eq(e[i], C * no / x))
        else:
            c.prove('lost in the noise', float(m[i]) == 99.0 and float(e[i]) == 99.0)
            c.cover('lost')
    c.cover('end')


PROPS = {
    'P31': dict(level='model_checking',
                functions=['cluster_runner.ClusterRunner._setup', 'mask.get_mask', 'mask.Mask.__init__', 'mask.Mask.read_maskgals', 'mask.Mask.gen_maskgals', 'mask.Mask.compute_radmask', 'mask.HPMask.__init__', 'depth_fitting.DepthLim.__init__', 'depth_fitting.DepthLim.calc_maskdepth', 'depth_fitting.calcErrorModel', 'depth_fitting.DepthFunction.__call__', 'depth_fitting.applyErrorModel', 'utilities.apply_errormodels'],
                bounds='3 galaxies with arbitrary magnitude and chi-squared, 2-3 samples of 2 mask galaxies, <= 3 galaxies in a depth fit, every combination of the run settings listed',
                assumptions=['the readers of the products (properties P10, P13, P15, P17) and the minimiser are stand-ins', 'magnitudes, draws and depths of the error model come from a grid'],
                instances=[('setup', dict(covers=['ready'])), ('setup', dict(depth=False, rmask=False, mode='firstpass', covers=['ready'])), ('setup', dict(temp=True, zspec=True, hpix=[], covers=['ready'])), ('setup', dict(temp=True, chi=False, zb=True, local=True)),
                           ('setup', dict(none=True, covers=['empty', 'ready'])), ('setup', dict(none=True, temp=True, rz=False)), ('setup', dict(cut=False, chi=False, cb=True, par=False, zl=None)), ('setup', dict(depth=False, faildepth=True, covers=['no depth'])), ('setup', dict(depth=False, gals=False, covers=['refused'])),
                           ('setup', dict(gals=False, rz=False, covers=['none read'])), ('setup', dict(need=True, zred=None, covers=['refused'])), ('setup', dict(need=True, rz=False, covers=['refused'])), ('setup', dict(zred=None, covers=['ready'])),
                           ('maskgals', dict(ns=2, covers=['end'])), ('maskgals', dict(ns=2, rsig=0.05, free=[0, 3])), ('maskgals', dict(ns=3, beta=0.2, free=[1, 4])), ('maskfile', dict(covers=['read', 'refused'])),
                           ('cost', dict(covers=['good', 'bad'])), ('depth', dict(n=3, noisy=True)), ('depth', dict(n=2, covers=['local', 'region'])), ('depth', dict(n=2, whole=True, covers=['depth', 'no depth'])), ('depth', dict(n=3), 'thorough'), ('depth', dict(n=3, whole=True), 'thorough'),
                           ('errors', dict(which='fit', covers=['end'])), ('errors', dict(which='mask', mode='mag', covers=['end', 'lost'])), ('errors', dict(which='mask', mode='lup', covers=['end'])), ('errors', dict(which='mask', mode='flux')), ('errors', dict(which='mask', mode='quiet'))]),
}
