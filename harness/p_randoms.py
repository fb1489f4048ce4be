"""Random points, their weights, and the redMaGiC sample."""
import math
import numpy
from .common import Obj, refuse, silent_logger
from .p_vlim import SparseMap, maps


class Rng(object):
    """random generator stand-in; draws are the harness's choices"""

    def __init__(self, c, us, picks):
        self.c, self.us, self.picks = c, us, picks
        self.round = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        self.round += 1
        return self.c.np.array(self.us[min(self.round - 1, len(self.us) - 1)])

    def choice(self, a, size=None, replace=True, p=None):
        assert replace and p is None
        k = self.picks[min(self.round - 1, len(self.picks) - 1)]
        size = int(size)
        assert size <= len(k)
        ix = numpy.array(k[:size], dtype=int)
        return self.c.np.arange(int(a))[ix] if not hasattr(a, '__len__') else a[ix]


def points(c):
    """random points: as many as asked for, inside the footprint, and each inside the volume limit of its own position"""
    R = c.mod('randoms') if c.kind == 'cluster' else c.mod('redmagic.redmagic_randoms')
    V = c.mod('volumelimit')
    n, K = c.n, 3
    zm = c.reals('zm', K, 0.125, 1)
    fg = c.reals('fg', K, 0, 1)
    u = c.reals('u', K, 0, 1)
    for x in u:
        c.assume(x < 1)
    zc = c.reals('z', 2, 0.0625, 1)
    c.assume(zc[0] > 0, zc[1] > 0)
    f1 = __file__
    # the last pixel takes any redshift, so that generation ends
    maps(c, V, {f1: SparseMap(c, [0, 1, 2, 3], [('fracgood', 'f8'), ('zmax', 'f8')], dict(fracgood=list(fg) + [1.0], zmax=list(zm) + [2.0]))})
    cfg = Obj(d=Obj(hpix=[], nside=0), border=0.0, zrange=[0.1, 0.5], area_finebin=0.1, randfile='/nonexistent/r_master_table.fit', galfile_nside=8, logger=silent_logger(), vlim_lstar=0.2)
    vm = V.VolumeLimitMask(cfg, 0.2, vlimfile=f1)
    rounds = []

    def uniform(m, ngen, rng=None):
        rounds.append(1)
        ra = [0.25, 1.25, 2.25] if len(rounds) == 1 else [3.25 + 0.125 * min(len(rounds), 5), 3.125, 3.9375]
        return numpy.array(ra), numpy.array([10.0 + r for r in ra])
    c.patch(R.healsparse, 'make_uniform_randoms', uniform)
    out = []
    pick = c.pick
    rng = Rng(c, [list(u), [0.0] * 3], [pick, [0, 1, 0]])
    if c.kind == 'cluster':
        CC = c.mod('cluster').ClusterCatalog
        cat = CC(c.rec(2, [('z_lambda', 'f8'), ('lambda', 'f8'), ('mem_match_id', 'i4')], dict([('z_lambda', zc), ('lambda', [20.0, 30.0]), ('mem_match_id', [7, 9])])))
        fin = []
        c.patch(R, 'RandomCatalogMaker', lambda *a, **k: Obj(append_randoms=lambda r: out.append(r), finalize_catalog=lambda: fin.append(1)))
        R.GenerateRandoms(cfg, vlim_mask=vm, redmapper_cat=cat).generate_randoms(n, rng=rng)
        c.prove('finished', len(fin) == 1)
    else:
        G = c.mod('galaxy').GalaxyCatalog
        cat = G(c.rec(2, [('zredmagic', 'f8')], dict(zredmagic=zc)))
        c.patch(c.mod('catalog').Catalog, 'to_fits_file', lambda self, *a, **k: out.append(self._ndarray))
        R.RedmagicGenerateRandoms(cfg, vm, cat).generate_randoms(n, '/nonexistent/out.fit', rng=rng)
    rows = [(o, i) for o in out for i in range(len(o))]
    c.prove('as many as requested', len(rows) == n)
    for k, (o, i) in enumerate(rows):
        ra, dec = float(o['ra'][i]), float(o['dec'][i])
        p = math.floor(ra)
        c.prove('own position', abs(dec - 10.0 - ra) < 1e-9)
        z = o['z'][i]
        c.prove('inside the volume limit here', c.lt(z, zm[p] if p < 3 else 2.0))
        if p < 3:
            c.prove('inside the footprint', c.lt(u[p], fg[p]))
        if c.kind == 'cluster':
            c.prove('numbered', int(o['id'][i]) == k + 1)
            c.prove('properties of one cluster', c.any([c.all([c.eq(z, zc[j], 1e-6), c.eq(o['lambda'][i], [20.0, 30.0][j]), c.eq(o['id_input'][i], [7, 9][j])]) for j in range(2)]))
        else:
            c.prove('redshift of the sample', c.any([c.eq(z, zc[j], 1e-6) for j in range(2)]))
    # no position is used twice
    c.prove('distinct positions', len(set(float(o['ra'][i]) for o, i in rows if float(o['ra'][i]) < 3)) == sum(1 for o, i in rows if float(o['ra'][i]) < 3))
    c.cover('rounds%d' % min(len(rounds), 2))


def weights(c):
    """random weights make up for the randoms that would not be detected"""
    M = c.mod('randoms')
    C = c.mod('catalog')
    n = c.n
    ids = c.ids
    scale = c.scaleval
    z = [0.25 + 0.0625 * i for i in range(n)] if not c.params.get('symz') else list(c.reals('z', n, 0.125, 0.75))
    lam = c.reals('l', n, 10, 40)
    mf = c.reals('m', n, 0, 0.5)
    sc = c.reals('s', n, 1, 2) if scale else [1.5] * n
    Lc = c.reals('L', 2, 10, 40)
    sC = [1.0, 1.25]
    dt = [('ra', 'f8'), ('dec', 'f8'), ('z', 'f8'), ('lambda_in', 'f8'), ('scaleval', 'f8'), ('maskfrac', 'f8'), ('id_input', 'i4')]
    rc = c.rec(n, dt, dict(ra=[10.0 + i for i in range(n)], dec=[20.0 + i for i in range(n)], z=c.np.array(z), lambda_in=lam, scaleval=c.np.array(sc), maskfrac=mf, id_input=ids))
    cc = c.rec(2, [('lambda', 'f8'), ('scaleval', 'f8'), ('mem_match_id', 'i4')], dict([('lambda', Lc), ('scaleval', sC), ('mem_match_id', [5, 3])]))
    CC = c.mod('cluster').ClusterCatalog
    c.patch(C.Catalog, 'from_fits_file', classmethod(lambda cls, f, **k: cls(rc)))
    out = []
    c.patch(C.Catalog, 'to_fits_file', lambda self, f, indices=None, **k: out.append((f, self._ndarray if indices is None else self._ndarray[indices])))
    corr = c.real('corr', -0.5, 1.5)
    fits = []

    def fitter(nodes, x, y):
        fits.append((x, y))
        return Obj(fit=lambda p: p)
    c.patch(M, 'MedZFitter', fitter)
    c.patch(M, 'CubicSpline', lambda nodes, pars: (lambda x: c.np.array([corr] * len(x))))
    cfg = Obj(zrange=[0.2, 0.7], vlim_lstar=0.2, select_scaleval=scale, max_maskfrac=0.25, area_nodesize=0.1, area_coarsebin=0.1, logger=silent_logger(),
              redmapper_filename=lambda b, **k: '/nonexistent/' + b, catfile='cat', cosmo=None)
    A = C.Catalog(c.rec(2, [('z', 'f8'), ('area', 'f8')], dict(z=[0.25, 0.5], area=[4.0, 3.0])))
    w = M.RandomWeigher(cfg, 'rand', vlim_mask=Obj(get_areas=lambda: A), redmapper_cat=CC(cc))
    lb = c.params.get('bin')
    mn = 20.0
    lo, hi = lb if lb else (0.0, 1000.0)
    zr = c.params.get('zr')
    z0, z1 = zr if zr else (0.2, 0.7)
    if c.params.get('symz'):
        for x in z:
            for e in (0.2, 0.3, 0.4, 0.5, 0.6, 0.7):
                c.assume((x - e > 1e-6) | (x - e < -1e-6))
    zin = [i for i in range(n) if bool(z[i] > z0) and bool(z[i] < z1)]

    def keep(i):
        k = [5, 3].index(ids[i])
        eff = Lc[k] / sC[k] if scale else Lc[k]
        return bool(eff > mn) and bool(Lc[k] > lo) and bool(Lc[k] <= hi)
    use = [i for i in zin if keep(i)]
    e = c.raises(lambda: w.weight_randoms(mn, lambdabin=numpy.array(lb) if lb else None, **(dict(zrange=numpy.array(zr)) if zr else {})), RuntimeError)
    c.prove('refused without randoms', (e is not None) == (not use))
    if e is not None:
        c.cover('refused')
        return
    det = [i for i in use if bool((lam[i] / sc[i] if scale else lam[i]) > mn) and bool(mf[i] < 0.25) and bool(lam[i] > lo) and bool(lam[i] <= hi)]
    c.prove('two files', len(out) == 2)
    rows = out[0][1]
    got = [int(round(float(rows['ra'][k]) - 10.0)) for k in range(len(rows))]
    c.prove('the detected randoms', sorted(got) == det)
    for k, i in enumerate(got):
        tot = sum(1 for j in use if ids[j] == ids[i])
        nd = sum(1 for j in det if ids[j] == ids[i])
        if nd:
            c.prove('weight', c.eq(rows['weight'][k], tot / nd, 1e-6))
        c.prove('own values', c.all([c.eq(rows['dec'][k], 20.0 + i), c.eq(rows['ztrue'][k], z[i], 1e-6), c.eq(rows['lambda_in'][k], lam[i], 1e-6)]))
    c.prove('area correction is fitted', len(fits) == 1)
    for x, y in zip(*fits[0]):
        # fraction of the randoms below the upper edge of the bin which are detected
        ze = float(x) + 0.05
        tot, nd = [sum(1 for i in s if bool(z[i] < ze)) for s in (use, det)]
        c.prove('detected fraction', c.eq(y, nd / tot if tot else 0.0))
    a = out[1][1]
    f = 0.0 if bool(corr < 0) else 1.0 if bool(corr > 1) else corr
    c.prove('area scaled by a fraction', c.all([c.eq(a['area'][0], 4.0 * f, 1e-6), c.eq(a['area'][1], 3.0 * f, 1e-6)]))
    c.cover('end')


GALM = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f8'), ('refmag_err', 'f8'), ('mag', 'f8', (2,)), ('mag_err', 'f8', (2,)), ('zred_uncorr', 'f8'), ('zred_uncorr_e', 'f8'),
        ('zred_samp', 'f8', (2,)), ('chisq', 'f8'), ('ztrue', 'f8')]


def selection(c):
    """redMaGiC galaxies pass every cut at their corrected redshift and keep their own values"""
    M = c.mod('redmagic.redmagic_selector')
    C = c.mod('catalog')
    n = c.n
    z = c.reals('z', n, 0.125, 0.75)
    chi = c.reals('x', n, 0, 12)
    mag = c.reals('m', n, 15, 22)
    burn, app = c.burn, c.apply
    how = c.params.get('how', 'true')
    zmx = c.reals('zm', n, 0.125, 0.75)
    S = c.mod('redmagic.redmagic_selector')
    cm = c.real('cm', -1, 12)
    bias = c.real('b', -0.0625, 0.0625)
    er = c.real('e', 0.5, 2)
    nodes = numpy.array([0.25, 0.5, 0.625])
    bn = numpy.array([0.25, 0.5])

    def spline(x, y, fixextrap=False, **k):
        c.prove('constant outside the calibrated range', bool(fixextrap))
        return lambda zz: c.np.array([y[0]] * len(zz))
    c.patch(M, 'CubicSpline', spline)
    cal = Obj(lstar_cushion=0.05, z_cushion=0.03125, buffer=0.0625, cost_zrange=numpy.array([0.25, 0.625]), etamin=0.5, maxchi=8.0, nodes=nodes, cmax=c.np.array([cm] * 3),
              run_afterburner=burn, apply_afterburner=app, corrnodes=bn, bias=c.np.array([bias] * 2), eratio=c.np.array([er] * 2))
    sel = object.__new__(M.RedmagicSelector)
    sel.config = Obj(nmag=2, zred_nsamp=2, specfile='spec.fit', logger=silent_logger())
    sel.calib_data = {'hi': cal}
    sel.modes = sel.calib_data.keys()
    ms = lambda zz: 17.0 + 4.0 * zz
    sel.zredstr = Obj(mstar=ms)
    sel.vlim_masks = {'hi': Obj(calc_zmax=lambda ra, dec: c.np.array([zmx[int(round(float(r)))] for r in ra]))}
    sel.spec = None
    G = c.mod('galaxy').GalaxyCatalog
    g = G(c.rec(n, GALM if how != 'match' else [('other', 'f8') if x[0] == 'ztrue' else x for x in GALM], dict(id=[50 + i for i in range(n)], ra=[float(i) for i in range(n)], dec=[30.0 + i for i in range(n)], refmag=mag, refmag_err=[0.25 + i for i in range(n)],
                              mag=[[20.0 + i, 21.0 + i] for i in range(n)], mag_err=[[0.25, 0.5 + i] for i in range(n)], zred_uncorr=z, zred_uncorr_e=[0.03125 + 0.125 * i for i in range(n)],
                              zred_samp=[[0.25 + i, 0.5 + i] for i in range(n)], chisq=chi, **{'ztrue' if how != 'match' else 'other': [0.125 + i for i in range(n)]})))
    if how == 'zspec':
        g._ndarray.dtype.names = tuple('zspec' if x == 'ztrue' else x for x in g._ndarray.dtype.names)
    reads = []
    ze = [c.real('ze%d' % i, 0, 0.0078125) for i in range(2)] if how == 'match' else [0.0, 0.0]
    GR = [('ra', 'f8'), ('z', 'f8'), ('z_err', 'f8')]

    def rd(fn, **k):
        reads.append(fn)
        return G(c.rec(2, GR, dict(ra=[1.0, 0.0], z=[0.3125, 0.4375], z_err=ze)))
    c.patch(G, 'from_fits_file', staticmethod(rd))

    def match(self, ra, dec, rad, maxmatch=0):
        c.prove('one match within three arcseconds', maxmatch == 1 and abs(float(rad) * 1200. - 1.0) < 1e-9)
        pr = [(a, b) for a in range(len(ra)) for b in range(len(self)) if float(ra[a]) == float(self.ra[b])]
        return numpy.array([a for a, b in pr], dtype=int), numpy.array([b for a, b in pr], dtype=int), numpy.zeros(len(pr))
    c.patch(G, 'match_many', match)
    res = sel.select_redmagic_galaxies(g, 'hi' if how == 'true' else b'hi', return_indices=True)
    if not (isinstance(res, tuple) and len(res) == 2):
        c.prove('catalogue and selection returned', False)
        return
    out, ix = res
    alone = sel.select_redmagic_galaxies(g, 'hi')
    c.prove('catalogue alone when that is asked for', not isinstance(alone, tuple) and len(alone) == len(out))
    c.prove('spectroscopy read only when needed, once', reads == (['spec.fit'] if how == 'match' and len(out) else []))

    def truth(i):
        if how != 'match':
            return 0.125 + i
        return -1.0 if not bool(ze[1 - i] < 0.001) else [0.4375, 0.3125][i]
    off = bias if burn else 0.0
    mx = c.np.minimum(c.np.maximum(cm, 0.1), 8.0)

    def ok(i):
        zz = z[i] - off
        return c.all([z[i] > 0.25 - 0.09375, z[i] < 0.625 + 0.09375, chi[i] < mx, chi[i] < 8.0, mag[i] < ms(z[i]) - 2.5 * math.log10(0.45), mag[i] < ms(zz) - 2.5 * math.log10(0.5), zz < zmx[i]])
    got = [int(i) for i in ix]
    c.prove('in order', got == sorted(set(got)) and len(out) == len(got))
    for i in range(n):
        c.prove('selected exactly when it passes', ok(i) if i in got else c.not_(ok(i)))
    for k, i in enumerate(got):
        zz = z[i] - off
        c.prove('own values', c.all([c.eq(out.id[k], 50 + i), c.eq(out.ra[k], float(i)), c.eq(out.dec[k], 30.0 + i), c.eq(out.refmag[k], mag[i], 1e-6), c.eq(out.refmag_err[k], 0.25 + i), c.eq(out.chisq[k], chi[i], 1e-6),
                                     c.eq(out.zspec[k], truth(i))] + [c.eq(out.mag[k, j], 20.0 + j + i) for j in range(2)] + [c.eq(out.mag_err[k, 1], 0.5 + i)]))
        c.prove('corrected redshift', c.all([c.eq(out.zredmagic[k], zz, 1e-6), c.eq(out.zredmagic_e[k], (0.03125 + 0.125 * i) * (er if burn else 1.0), 1e-6)]))
        d = off if app else 0.0
        c.prove('samples', c.all([c.eq(out.zredmagic_samp[k, j], 0.25 + 0.25 * j + i - d, 1e-6) for j in range(2)]))
        c.prove('luminosity', c.eq(out.lum[k], 10.**((ms(zz) - mag[i]) / 2.5), 1e-6))
    c.prove('galaxies unchanged', c.all([c.eq(g.zred_uncorr[i], z[i]) for i in range(n)] + [c.eq(g.zred_samp[i, j], 0.25 + 0.25 * j + i) for i in range(n) for j in range(2)] +
                                        [c.eq(g.zred_uncorr_e[i], 0.03125 + 0.125 * i) for i in range(n)]))
    c.prove('unknown mode', c.raises(lambda: sel.select_redmagic_galaxies(g, 'none'), RuntimeError) is not None)
    c.cover('n%d' % len(got))


def zmask(c):
    """random clusters: scale factor and masked fraction at their own position, redshift and radius, one row per random"""
    from .p_runner import runner, MG
    from .common import Cosmo
    M = c.mod('run_randoms_zmask')
    n = c.n
    lam = c.reals('lam', n, 1, 200)
    z = [0.25, 0.5, 0.375][:n]
    cp = c.reals('cp', 2, 0, 0.375)
    mk = [[1 if c.flag('m%d%d' % (i, j)) else 0 for j in range(2)] if i == 0 else [0, 1] for i in range(n)]
    mg = c.mod('catalog').Catalog(c.rec(2, MG, dict(r=[0.25, 0.75], mark=[1, 1], limmag=[22.0] * 2, exptime=[1.0] * 2)))
    rands = c.mod('catalog').Catalog(c.rec(n, [('ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f8'), ('LAMBDA', 'f8'), ('ID_INPUT', 'i4')],
                                           dict(ID=[7, 4, 9][:n], RA=[float(i) for i in range(n)], DEC=[5.0 + i for i in range(n)], Z=z, LAMBDA=lam, ID_INPUT=[31, 32, 33][:n])))
    asked, corr = [], []

    def read(filename, nside=0, hpix=[], border=0.0):
        asked.append((filename, nside, hpix, border))
        return rands
    c.patch(M.RandomCatalog, 'from_randfile', read)
    base = runner(c, 0, 1, [17.0], [], None, mg=mg)
    cfg = base.config
    cfg.randfile, cfg.border, cfg.d.nside, cfg.d.hpix = 'r.fit', 0.5, 4, [11]
    cfg.depthfile, cfg.lval_reference = 'd.fit', 0.25
    seen = []

    def radmask(cl):
        i = int(round(float(cl.ra)))
        seen.append(i)
        for j in range(2):
            mg.mark[j] = mk[i][j]

    def calc(mstar, maxmag, limmag):
        corr.append((mstar, maxmag, limmag))
        return c.np.array([cp[0], cp[1]])

    def setup(self):
        for k in ('hpix_logstr', 'gals', 'mask', 'depthstr', 'cosmo', 'bkg', 'cbkg', 'zredbkg', 'zredstr', 'zlambda_corr', 'limlum', 'maxrad', 'use_memradius', 'use_memlum', 'min_lambda', 'doublerun',
                  'do_correct_zlambda', 'do_pz'):
            setattr(self, k, getattr(base, k))
        self.r0, self.beta = 1.0, 0.25
        self.mask.set_radmask, self.mask.calc_maskcorr = radmask, calc
        return True
    base._setup()
    c.patch(M.RunRandomsZmask, '_setup', setup)
    r = M.RunRandomsZmask.__new__(M.RunRandomsZmask)
    r.config = cfg
    r.use_maxmag_in_matching, r.did_read_zreds = True, False
    r._additional_initialization()
    c.prove('no galaxies needed with a depth map', r.read_gals is False)
    r.run()
    c.prove('randoms of the region', len(asked) == 1 and asked[0][0] == 'r.fit' and asked[0][1] == 4 and list(asked[0][2]) == [11] and asked[0][3] == 0.5)
    c.prove('every random once', [int(x) for x in r.cat.mem_match_id] == [7, 4, 9][:n] and seen == list(range(n)))
    q = 0
    for i in range(n):
        bad = [j for j in range(2) if mk[i][j] == 0]
        c.prove('where it came from', c.all([c.eq(r.cat.ra[i], float(i)), c.eq(r.cat.dec[i], 5.0 + i), c.eq(r.cat.z[i], z[i]), c.eq(r.cat.z_in[i], z[i]), c.eq(r.cat.lambda_in[i], lam[i])]) & (int(r.cat.id_input[i]) == 31 + i))
        if len(bad) == 2:
            c.prove('fully masked random is not detected', c.eq(r.cat.Lambda[i], -1.0) & c.eq(r.cat.scaleval[i], -1.0))
            c.cover('masked')
            continue
        rl = (lam[i] / 100.) ** 0.25
        ms = 16 + 4 * z[i]
        c.prove('radius', c.eq(r.cat.r_lambda[i], rl) & c.eq(r.cat.r_mask[i], rl) & c.eq(r.cat.Lambda[i], lam[i]))
        c.prove('mask correction at its redshift', q < len(corr) and c.eqs(list(corr[q]), [ms, ms - 2.5 * math.log10(0.25), 20.0]))
        q += 1
        c.prove('scale factor', c.eq(r.cat.scaleval[i], 1.0 / (1.0 - (cp[0] * r.cat.r_lambda[i] + cp[1]))))
        ins = [j for j in range(2) if bool([0.25, 0.75][j] < rl)]
        c.prove('masked fraction', c.eq(r.cat.maskfrac[i], sum(1 for j in ins if j in bad) / float(len(ins)) if ins else 1.0))
        c.cover('end')


def samples(c):
    """every sample of a redMaGiC calibration is read under its own name, with its own calibration and volume limit"""
    M = c.mod('redmagic.redmagic_selector')
    k = c.k
    names = [b'hi  ', b'lo', b'mid '][:k] if c.bytes else ['hi  ', 'lo', 'mid '][:k]
    files = [c.files[i] for i in range(k)]
    eta = c.reals('eta', k, 0.125, 2)
    there = [c.flag('there%d' % i) for i in range(k)]
    enc = (lambda x: x.encode()) if c.bytes else (lambda x: x)
    data = [Obj(name=names[i], vmaskfile=enc(files[i]), etamin=eta[i]) for i in range(k)]

    class Fits(object):
        def __init__(self, f):
            c.prove('calibration file', f == '/cal/red.fit')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __len__(self):
            return k + 1

        def __getitem__(self, e):
            if not (0 < e <= k):
                refuse(OSError('no such extension'))
            return Obj(read=lambda: data[e - 1])
    c.patch(M, 'fitsio', Obj(FITS=Fits))
    c.patch(M, 'Entry', lambda x: x)
    par = []
    c.patch(M, 'RedSequenceColorPar', lambda f, fine=False, **q: par.append((f, fine)) or 'ZSTR')
    here = ['/cal/' + f.split('/')[-1].rstrip() for i, f in enumerate(files) if there[i] and f.rstrip()]
    c.patch(M, 'os', Obj(path=Obj(dirname=lambda f: f.rsplit('/', 1)[0], join=lambda *a: '/'.join(a), basename=lambda f: f.rsplit('/', 1)[-1], isfile=lambda f: f in here, abspath=lambda f: f)))
    made = []

    def vlim(cfg, lstar, vlimfile=None, **q):
        made.append((lstar, vlimfile))
        return ('map', len(made) - 1)
    c.patch(M, 'VolumeLimitMask', vlim)
    c.patch(M, 'VolumeLimitMaskFixed', lambda cfg, **q: ('fixed', cfg))
    Cf = c.mod('configuration').Configuration
    cfg = Cf.__new__(Cf)
    c.patch(Cf, 'redmagicfile', '/cal/red.fit')
    c.patch(Cf, 'parfile', '/cal/par.fit')
    given = {'hi': 1}
    out = []
    e = c.raises(lambda: out.append(M.RedmagicSelector(cfg, vlim_masks=given if c.given else None)), RuntimeError)
    missing = not c.given and any(files[i].rstrip() and not there[i] for i in range(k))
    c.prove('missing volume limit refused', (e is not None) == missing)
    if missing:
        c.cover('refused')
        return
    s = out[0]
    nm = ['hi', 'lo', 'mid'][:k]
    c.prove('samples', s.n_modes == k and [x for x in s.modes] == nm and all(s.calib_data[nm[i]] is data[i] for i in range(k)))
    c.prove('model', par == [('/cal/par.fit', True)] and s.zredstr == 'ZSTR' and s.config is cfg and s.spec is None)
    if c.given:
        c.prove('given volume limits used', s.vlim_masks is given and not made)
    else:
        c.prove('one volume limit per sample', sorted(s.vlim_masks.keys()) == sorted(nm))
        for i in range(k):
            v = s.vlim_masks[nm[i]]
            if not files[i].rstrip():
                c.prove('fixed area without a map', v == ('fixed', cfg))
            else:
                c.prove('its own map beside the calibration', v[0] == 'map' and made[v[1]][1] == '/cal/' + files[i].split('/')[-1].rstrip() and c.eq(made[v[1]][0], eta[i]))
    c.cover('end')


PROPS = {
    'P18': dict(level='model_checking',
                functions=['randoms.GenerateRandoms.generate_randoms', 'run_randoms_zmask.RunRandomsZmask._more_setup', 'run_randoms_zmask.RunRandomsZmask._process_cluster', 'redmagic.redmagic_randoms.RedmagicGenerateRandoms.generate_randoms', 'randoms.RandomWeigher.weight_randoms', 'volumelimit.VolumeLimitMask.calc_zmax'],
                bounds='<= 3 random points, 3 positions per round, 2 clusters', assumptions=['random draws are arbitrary values', 'the sparse healpix map and the area spline fit are stand-ins'],
                instances=[('points', dict(kind='cluster', n=2, pick=[0, 1, 1], covers=['rounds1', 'rounds2'])), ('points', dict(kind='redmagic', n=2, pick=[0, 1, 1], covers=['rounds1', 'rounds2'])),
                           ('points', dict(kind='cluster', n=3, pick=[1, 0, 0])), ('points', dict(kind='redmagic', n=3, pick=[1, 1, 0])),
                           ('zmask', dict(n=1, covers=['end', 'masked'])), ('zmask', dict(n=2)),
                           ('weights', dict(n=2, ids=[5, 3], scaleval=False, covers=['end', 'refused'])), ('weights', dict(n=3, ids=[5, 3, 5], scaleval=False)), ('weights', dict(n=3, ids=[5, 3, 5], scaleval=False, zr=[0.28125, 0.34375])), ('weights', dict(n=1, ids=[3], scaleval=False, symz=True)),
                           ('weights', dict(n=3, ids=[3, 3, 5], scaleval=True, bin=[22.0, 30.0])), ('weights', dict(n=2, ids=[3, 3], scaleval=True, symz=True), 'thorough')]),
    'P19': dict(level='model_checking',
                functions=['redmagic.redmagic_selector.RedmagicSelector.select_redmagic_galaxies', 'redmagic.redmagic_selector.RedmagicSelector.__init__'],
                bounds='<= 2 galaxies, constant calibration curves of any value', assumptions=['the volume limit, characteristic magnitude and calibration splines are stand-ins'],
                instances=[('selection', dict(n=1, burn=True, apply=True, covers=['n0', 'n1'])), ('selection', dict(n=2, burn=True, apply=False)), ('selection', dict(n=1, burn=False, apply=False)),
                           ('selection', dict(n=1, burn=False, apply=False, how='zspec')), ('selection', dict(n=1, burn=False, apply=False, how='match')),
                           ('samples', dict(k=2, files=['/old/a.hs  ', 'b.hs'], bytes=True, given=False, covers=['end', 'refused'])), ('samples', dict(k=3, files=['', 'b.hs', '/x/c.hs'], bytes=False, given=False)),
                           ('samples', dict(k=2, files=['/old/a.hs', ''], bytes=False, given=True)),
                           ('selection', dict(n=2, burn=False, apply=True))]),
}
