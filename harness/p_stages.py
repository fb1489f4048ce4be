"""The other passes of the finder: first pass, likelihoods, redshift scan, measured catalogues, colour runs."""
import math
import numpy
from harness.common import Obj, Cosmo, ZStr, silent_logger
from harness.p_runner import GAL, XTRA, CEN, dbl

SEEDS = [('RA', 'f8'), ('DEC', 'f8'), ('REFMAG', 'f8'), ('REFMAG_ERR', 'f8'), ('ZRED', 'f8'), ('ZRED_E', 'f8'), ('ZRED_CHISQ', 'f8'), ('EBV', 'f8'), ('ZSPEC', 'f8'), ('MAG', 'f8', (2,)), ('MAG_ERR', 'f8', (2,))]
SEEDCAT = [('RA', 'f8'), ('DEC', 'f8'), ('REFMAG', 'f8'), ('LAMBDA', 'f8'), ('Z', 'f8')]


def dtype(C, extra=()):
    names = [d[0] for d in C.cluster_dtype_base]
    return dbl(list(C.cluster_dtype_base) + [d for d in list(XTRA) + list(CEN) + list(extra) if d[0] not in names])


def config(C, extra=(), **k):
    a = dict(cosmo=Cosmo(), cluster_dtype=dtype(C, extra), logger=silent_logger(), zrange=[0.25, 0.75], lval_reference=0.25, chisq_max=20.0, calib_zrange_cushion=0.0625)
    a.update(k)
    return Obj(**a)


def cluster(c, C, cfg, N=4, z=0.5, r=None, **cols):
    """a cluster with N neighbours at increasing distance"""
    G = c.mod('galaxy').GalaxyCatalog
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=20.0)
    pos = [0.01 * i for i in range(N)] if r is None else r
    gv = dict(REFMAG=[17.0 + 0.25 * i for i in range(N)], REFMAG_ERR=[0.125 + i for i in range(N)], ID=[100 + i for i in range(N)], EBV=[0.5 + i for i in range(N)], RA=[10.0 + x for x in pos], DEC=[0.0] * N,
              ZRED=[0.25 + 0.125 * i for i in range(N)], ZRED_E=[0.0625 * (i + 1) for i in range(N)], ZRED_CHISQ=[3.0 + i for i in range(N)], CHISQ=[7.0 + i for i in range(N)],
              MAG=[[20.0 + i, 21.0 + i] for i in range(N)], MAG_ERR=[[0.25 + i, 0.5 + i] for i in range(N)])
    gv.update(cols)
    cl = C.Cluster(config=cfg, zredstr=zs, neighbors=G(c.rec(N, GAL, gv)), r0=1.0, beta=0.25)
    cl.ra, cl.dec, cl.Lambda = 10.0, 0.0, 20.0
    cl.redshift = z
    cl.update_neighbors_dist()
    return cl


def bad_values(c, cl, what='rejected is reset'):
    c.prove(what, c.all([c.eq(getattr(cl, f), -1.0) for f in ('Lambda', 'Lambda_e', 'scaleval', 'z_lambda', 'z_lambda_e')]))


def firstseeds(c):
    """the first pass starts from every eligible galaxy (or seed), once, with its own values"""
    R, C, G = c.mod('run_firstpass'), c.mod('cluster'), c.mod('galaxy').GalaxyCatalog
    n, mode = c.n, c.mode
    z = c.reals('z', n, 0, 1)
    zs = c.reals('zs', n, 0, 1) if mode == 'spec' else c.np.array([0.5] * n)
    chi = c.reals('chi', n, 0, 40)
    mag = c.reals('mag', n, 14, 24) if mode == 'gals' else c.np.array([17.0 + i for i in range(n)])
    inm = [c.flag('in%d' % i) for i in range(n)] if c.params.get('clean') else [True] * n
    own = dict(RA=[10.0 + i for i in range(n)], DEC=[1.0 + i for i in range(n)], REFMAG=mag, REFMAG_ERR=[0.125 + i for i in range(n)], ZRED=z, ZRED_E=[0.0625 * (i + 1) for i in range(n)], EBV=[0.5 + i for i in range(n)],
               MAG=[[20.0 + i, 21.0 + i] for i in range(n)], MAG_ERR=[[0.25 + i, 0.5 + i] for i in range(n)])
    r = R.RunFirstPass.__new__(R.RunFirstPass)
    r._additional_initialization(specmode=(mode == 'spec'))
    r.config = config(C, seedfile='/nonexistent/seeds.fit' if mode in ('seeds', 'spec') else c.params.get('absent'), firstpass_niter=2, firstpass_minlambda=3.0)
    r.hpix_logstr, r.bkg, r.cosmo, r.r0, r.beta = 'x', None, Cosmo(), 0.5, 0.125
    r.zredstr = ZStr(c, m0=16)
    r.did_read_zreds = not c.params.get('nozred')
    r.mask = Obj(compute_radmask=lambda ra, dec: c.np.array([inm[int(round(float(x))) - 10] for x in ra], dtype=bool))
    c.patch(R, 'os', Obj(path=Obj(isfile=lambda f: mode in ('seeds', 'spec') and f == '/nonexistent/seeds.fit')))
    if mode in ('seeds', 'spec'):
        cat = c.mod('catalog').Catalog(c.rec(n, SEEDS, dict(own, ZRED_CHISQ=chi, ZSPEC=zs)))
        c.patch(R, 'Catalog', Obj(from_fits_file=lambda f, **k: cat))
    else:
        r.gals = G(c.rec(n, GAL, dict(own, ID=list(range(n)), CHISQ=chi, ZRED_CHISQ=[99.0] * n)))
    call = lambda: r._more_setup(keepz=c.params.get('keepz', False), cleaninput=c.params.get('clean', False))
    if c.params.get('nozred'):
        c.prove('needs seeds', c.raises(call, RuntimeError) is not None)
        c.cover('end')
        return
    ok = call()
    sel = []
    for i in range(n):
        if bool(z[i] >= 0.25) and bool(z[i] <= 0.75) and bool(chi[i] < 20.0):
            if mode == 'gals':
                if not bool(mag[i] < 16 + 4 * z[i] - 2.5 * math.log10(0.25)):
                    continue
            if inm[i]:
                sel.append(i)
    if not sel:
        c.prove('nothing to do', (not ok) and r.cat is None)
        c.cover('none')
        return
    c.prove('accepted', bool(ok) and r.cat is not None)
    who = [int(round(float(x))) - 10 for x in r.cat.ra]
    c.prove('seeds', sorted(who) == sel)
    t = r.cat
    for q, i in enumerate(who):
        c.prove('own values', c.all([c.eq(t.dec[q], 1.0 + i), c.eq(t.refmag[q], mag[i]), c.eq(t.refmag_err[q], 0.125 + i), c.eq(t.zred[q], z[i]), c.eq(t.zred_e[q], 0.0625 * (i + 1)), c.eq(t.zred_chisq[q], chi[i]),
                                     c.eq(t.chisq[q], chi[i]), c.eq(t.mag[q, 1], 21.0 + i), c.eq(t.mag_err[q, 0], 0.25 + i)]))
        zz = zs[i] if mode == 'spec' else z[i]
        c.prove('initial redshift', c.eq(t.z[q], zz) & c.eq(t.z_init[q], zz))
    cl = t[0]
    c.prove('radius scaling of this pass', c.eq(cl.r0, 0.5) & c.eq(cl.beta, 0.125))
    c.prove('settings', r.maxiter == (1 if mode == 'spec' else 2) and r.min_lambda == 3.0 and not r.do_percolation_masking and not r.do_correct_zlambda and not r.do_pz and not r.do_lam_plusminus)
    c.cover('end')


def richness(c, C, lams, scls, extra=None):
    """patch the richness measurement by harness-chosen values"""
    log = []

    def calc(self, mask, calc_err=True, index=None):
        i = len(log)
        log.append(Obj(z=self.redshift, ra=self.ra, index=index, err=calc_err))
        self.Lambda, self.scaleval, self.r_lambda = lams[i], scls[i], 1.0
        self.Lambda_e = 0.5 + i
        if extra is not None:
            extra(self, i)
        return lams[i]
    c.patch(C.Cluster, 'calc_richness', calc)
    return log


def zlam(c, M, zl, ze=0.03125):
    """patch the redshift measurement"""
    log = []

    class ZL(object):
        def __init__(self, cl):
            self.cl = cl

        def calc_zlambda(self, zin, mask, calc_err=True, calcpz=True, **k):
            i = len(log)
            log.append(Obj(z=zin, cl=self.cl, pz=calcpz))
            self.niter = 3 + i
            self.pzbins, self.pz = c.np.array([0.25 + i, 0.5 + i]), c.np.array([1.0 + i, 3.0 + i])
            return zl[i], ze + i
    c.patch(M, 'Zlambda', ZL)
    return log


def first(c):
    """one seed through the first pass"""
    R, C = c.mod('run_firstpass'), c.mod('cluster')
    n = c.niter
    cfg = config(C, firstpass_minlambda=3.0)
    near = c.index('near', 0, 3)
    cl = cluster(c, C, cfg, r=[0.0078125 if j == near else 0.015625 * (2 + j) for j in range(4)])
    cl.z_init = numpy.float64(0.5)
    cl.z_spec_init = 0.4375
    lams, scls, zl = c.reals('lam', n, 1, 50), [1.0, 1.5, 1.0][:n], c.reals('zl', n, 0, 1)
    llog = richness(c, C, lams, scls)
    zlog = zlam(c, R, zl)
    r = R.RunFirstPass.__new__(R.RunFirstPass)
    r.config, r.mask, r.maxiter, r.keepz, r.specmode = cfg, Obj(), n, c.keepz, c.spec
    bad = r._process_cluster(cl)
    last = None
    fate = None
    zc = 0.5
    for i in range(n):
        if bool(lams[i] * scls[i] < 3.0):
            fate = 'poor'
            break
        if not (bool(zl[i] >= 0.25) and bool(zl[i] <= 0.75)):
            fate = 'outside'
            break
        last = i
        if not c.keepz:
            c.prove('measured at its redshift', c.eq(llog[i].z, zc) & c.eq(zlog[i].z, zc))
            zc = zl[i]
        else:
            c.prove('measured at its redshift', c.eq(llog[i].z, 0.5) & c.eq(zlog[i].z, 0.5))
    c.prove('rejected', bool(bad) == (fate is not None))
    c.prove('nearest galaxy', c.eq(cl.chisq, 7.0 + near))
    if fate is not None:
        bad_values(c, cl)
        c.prove('no further work', len(llog) == (0 if last is None else last + 1) + 1)
        c.cover(fate)
        return
    c.prove('recorded', c.all([c.eq(cl.Lambda, lams[n - 1]), c.eq(cl.z_lambda, zl[n - 1]), c.eq(cl.z_lambda_e, 0.03125 + n - 1), c.eq(cl.z_lambda_niter, 3 + n - 1)]))
    c.prove('next redshift', c.eq(cl.z, 0.4375 if c.spec else zl[n - 1]) & c.eq(cl.redshift, 0.5 if c.keepz else zl[n - 1]))
    c.cover('good')


def likeseeds(c):
    """which clusters get a likelihood"""
    R, C = c.mod('run_likelihoods'), c.mod('cluster')
    n = c.n
    z, lam, mag = c.reals('z', n, 0, 1), c.reals('lam', n, -1, 50), c.reals('mag', n, 14, 24)
    inm = [c.flag('in%d' % i) for i in range(n)] if c.clean else [True] * n
    cat = C.ClusterCatalog(c.rec(n, SEEDCAT, dict(RA=[10.0 + i for i in range(n)], DEC=[1.0 + i for i in range(n)], REFMAG=mag, LAMBDA=lam, Z=z)), dtype=[])
    got = []

    class CC(object):
        @staticmethod
        def from_catfile(f, **k):
            got.append((f, k))
            return cat
    c.patch(R, 'ClusterCatalog', CC)
    r = R.RunLikelihoods.__new__(R.RunLikelihoods)
    r.config = config(C, catfile='/nonexistent/c.fit', likelihoods_use_zred=True)
    r._additional_initialization()
    r.hpix_logstr, r.bkg, r.cosmo, r.r0, r.beta = 'x', None, Cosmo(), 0.5, 0.125
    r.zredstr, r.limlum = ZStr(c, m0=16), 0.125
    r.mask = Obj(compute_radmask=lambda ra, dec: c.np.array([inm[int(round(float(x))) - 10] for x in ra], dtype=bool))
    ok = r._more_setup(keepz=c.keepz, cleaninput=c.clean)
    lo, hi = (0.1875, 0.8125) if c.keepz else (0.25, 0.75)
    sel = [i for i in range(n) if bool(z[i] > lo) and bool(z[i] < hi) and bool(lam[i] > 0) and bool(mag[i] < 16 + 4 * z[i] - 2.5 * math.log10(0.125)) and inm[i]]
    c.prove('range kept', list(r.config.zrange) == [0.25, 0.75])
    if not sel:
        c.prove('nothing to do', (not ok) and r.cat is None)
        c.cover('none')
        return
    c.prove('accepted', bool(ok) and got[0][0] == '/nonexistent/c.fit' and got[0][1]['r0'] == 0.5 and got[0][1]['beta'] == 0.125)
    who = [int(round(float(x))) - 10 for x in r.cat.ra]
    c.prove('seeds', sorted(who) == sel)
    c.prove('own values', c.all([c.eq(r.cat.z[q], z[i]) & c.eq(r.cat.Lambda[q], lam[i]) & c.eq(r.cat.refmag[q], mag[i]) for q, i in enumerate(who)]))
    c.prove('settings', not r.record_members and not r.do_correct_zlambda and not r.do_pz and not r.match_centers_to_galaxies and r.read_zreds and r.zreds_required)
    c.cover('end')


def like(c):
    """the likelihood of one cluster"""
    R, C = c.mod('run_likelihoods'), c.mod('cluster')
    N = 5
    cal = c.cal
    cfg = config(C, likelihoods_minlambda=3.0, lnw_cen_sigma=0.25 if cal else -1.0, lnw_cen_mean=0.5, wcen_Delta0=-1.0, wcen_Delta1=-0.25, wcen_pivot=30.0, wcen_sigma_m=0.5, wcen_rsoft=0.0625, wcen_maxlambda=100.0,
                 likelihoods_use_zred=c.params.get('zred', False))
    cl = cluster(c, C, cfg, N)
    cl.z_lambda = 0.5
    near = c.index('near', 0, 1)
    rr = [0.0 if j == near else 0.25 * (1 + j) for j in range(N)]
    for j in range(N):
        cl.neighbors.r[j] = rr[j]
    if cal:
        # the central term is a product of exponentials of logarithms: richness and memberships from a grid
        k = c.index('case', 0, 3)
        lam, scl = [2.5, 8.0, 30.0, 240.0][k], [1.0, 1.25, 1.0, 1.5][k]
        pm = [0.75, 0.5, [0.5, 0.0, 0.875, 0.25][k], 0.25, 0.5]
    else:
        lam, scl = c.real('lam', 1, 50), c.real('scl', 1, 2)
        p = c.reals('p', 2, 0, 1)
        c.assume(*[x < 1 for x in p])
        pm = [0.75, p[0], p[1], 0.25, 0.5]

    def extra(self, i):
        for j in range(N):
            self.neighbors.pmem[j] = pm[j]
    richness(c, C, [lam], [scl], extra)
    r = R.RunLikelihoods.__new__(R.RunLikelihoods)
    r.config, r.mask, r.limlum = cfg, Obj(), 0.125
    r.zredstr = ZStr(c, m0=16, dof=2)
    r.zlambda_corr = None
    if c.params.get('corr'):
        r.zlambda_corr = Obj(z=numpy.array([0.25, 0.75]), zred_uncorr=numpy.array([0.3125, 0.9375]))
    pdf = c.real('pdf', 0.125, 1)
    if not cfg.likelihoods_use_zred:
        c.patch(R, 'chisq_pdf', lambda x, k: pdf if (abs(float(x) - (7.0 + near)) < 1e-6 and k == 2) else 1e9)
    else:
        zr = c.real('zr', 0.375, 0.625)
        cl.neighbors.zred[near] = zr
    cl.lnlike, cl.lnlamlike, cl.lnbcglike = 1234.0, 1234.0, 1234.0
    bad = r._process_cluster(cl)
    use = [j for j in range(N) if j != near and bool(pm[j] > 0)]
    if bool(lam < 3.0) or len(use) < 3:
        c.prove('rejected', bool(bad))
        bad_values(c, cl)
        c.prove('rejected is reset', c.all([c.eq(getattr(cl, f), -1e11) for f in ('lnlike', 'lnlamlike', 'lnbcglike')]))
        c.cover('bad')
        return
    c.prove('rejected', not bad)
    want = -lam / scl
    for j in use:
        want = want - c.np.log(1.0 - pm[j])
    c.prove('members', c.eq(cl.lnlamlike, want))
    c.prove('total', c.eq(cl.lnlike, cl.lnlamlike + cl.lnbcglike))
    if not cal:
        c.prove('no centre term', c.eq(cl.lnbcglike, 0.0))
    else:
        ms = 16 + 4 * 0.5
        mbar = ms - 1.0 - 0.25 * c.np.log(lam / 30.0)
        phi = c.np.exp(-0.5 * (17.0 + 0.25 * near - mbar)**2. / 0.25) / (math.sqrt(2 * math.pi) * 0.5)
        if cfg.likelihoods_use_zred:
            zm = 0.625 if c.params.get('corr') else 0.5
            e = 0.0625 * (near + 1)
            g = c.np.exp(-0.5 * (zr - zm)**2 / e**2) / (math.sqrt(2 * math.pi) * e)
        else:
            g = pdf
        lum = [10.**((ms - (17.0 + 0.25 * j)) / 2.5) for j in range(N)]
        num = den = 0
        for j in use:
            num = num + pm[j] * lum[j] / math.sqrt(rr[j]**2 + 0.0625**2)
            den = den + pm[j] * lum[j]
        w = c.np.log(num / den)
        sig = 0.25 / math.sqrt(min(lam, 100.0) / scl / 30.0)
        fw = c.np.exp(-0.5 * (c.np.log(w) - 0.5)**2. / (sig * sig)) / (math.sqrt(2 * math.pi) * sig)
        c.prove('centre', c.eq(c.np.exp(cl.lnbcglike), phi * g * fw))
    c.cover('good')


def likepost(c):
    """only clusters with a likelihood are kept"""
    R, C = c.mod('run_likelihoods'), c.mod('cluster')
    n = c.n
    v = [c.real('v%d' % i, -50, 50) if c.flag('ok%d' % i) else -1e11 for i in range(n)]
    good = [i for i in range(n) if not isinstance(v[i], float) or v[i] > -1e11]
    r = R.RunLikelihoods.__new__(R.RunLikelihoods)
    r.cat = C.ClusterCatalog(c.rec(n, SEEDCAT + [('LNLAMLIKE', 'f8')], dict(RA=[10.0 + i for i in range(n)], LNLAMLIKE=v)), dtype=[])
    r._postprocess()
    c.prove('kept', [int(round(float(x))) - 10 for x in r.cat.ra] == good)
    c.cover('end')


def runcat(c):
    """one cluster of an input catalogue"""
    R, C = c.mod('runcat'), c.mod('cluster')
    n = c.maxiter
    cfg = config(C)
    cl = cluster(c, C, cfg)
    lams, zl = c.reals('lam', n, 1, 50), c.reals('zl', n, -0.25, 1)
    c.assume(*[c.any([x < 0, x > 0.0625]) for x in zl])
    llog = richness(c, C, list(lams) + [40.0], [1.0] * (n + 1))
    zlog = zlam(c, R, list(zl) + [0.5])
    cl.maskfrac = c.real('mf', 0, 1)
    mf = cl.maskfrac
    r = R.RunCatalog.__new__(R.RunCatalog)
    r.config, r.mask, r.limlum, r.maxiter, r.tol, r.converge_zlambda = cfg, Obj(), 0.125, n, 0.0625, c.converge
    bad = r._process_cluster(cl)
    fate, last, zc = None, -1, 0.5
    if bool(mf > 0.7):
        fate = 'masked'
    else:
        for i in range(n):
            last = i
            c.prove('measured at its redshift', c.eq(llog[i].z, zc))
            if bool(lams[i] < 3.0):
                fate = 'poor'
                break
            c.prove('measured at its redshift', c.eq(zlog[i].z, zc))
            if bool(zl[i] < 0):
                fate = 'no redshift'
                break
            if not c.converge:
                break
            stop = bool(abs(zc - zl[i]) < 0.0625)
            zc = zl[i]
            if stop:
                break
    c.prove('rejected', bool(bad) == (fate is not None))
    c.prove('no further work', len(llog) == last + 1)
    if fate is not None:
        if fate != 'masked':
            bad_values(c, cl)
        c.cover(fate)
        return
    c.prove('recorded', c.all([c.eq(cl.Lambda, lams[last]), c.eq(cl.z_lambda, zl[last]), c.eq(cl.z_lambda_e, 0.03125 + last), c.eq(cl.z_lambda_niter, 3 + last), c.eq(cl.pz[1], 3.0 + last), c.eq(cl.pzbins[0], 0.25 + last),
                               c.eq(cl.redshift, zc)]))
    c.cover('good%d' % last)


def scansetup(c):
    """the grid of redshifts scanned, and the settings of the scan"""
    R, C = c.mod('run_zscan'), c.mod('cluster')
    n = c.n
    cat = C.ClusterCatalog(c.rec(n, [('RA', 'f8'), ('DEC', 'f8'), ('RA_ORIG', 'f8'), ('DEC_ORIG', 'f8'), ('Z', 'f8'), ('Z_INIT', 'f8'), ('MEM_MATCH_ID', 'i4'), ('LAMBDA', 'f8')],
                                 dict(RA=c.reals('ra', n, 0, 100), DEC=c.reals('dec', n, -50, 50))), dtype=[])
    ra0, dec0 = [cat.ra[i] for i in range(n)], [cat.dec[i] for i in range(n)]
    c.patch(R, 'ClusterCatalog', Obj(from_catfile=lambda f, **k: cat))
    r = R.RunZScan.__new__(R.RunZScan)
    r._additional_initialization()
    lo, nz = c.real('lo', 0.0625, 0.25), c.index('nz', 2, 5)
    frac = c.real('frac', 0.0625, 0.9375)
    step = 0.125
    r.config = config(C, zrange=[lo, lo + step * (nz - 1 + frac)], zscan_zstep=step, catfile='/nonexistent/c.fit', zscan_minlambda=4.0, percolation_r0=0.5, percolation_beta=c.beta)
    r.zredstr, r.bkg, r.zredbkg, r.cosmo, r.r0, r.beta, r.hpix_logstr = None, None, None, Cosmo(), 1.0, 0.25, 'x'
    r._generate_mem_match_ids = lambda: None
    ok = r._more_setup()
    c.prove('grid', r.nzstep == nz and len(r.z_array) == nz and c.all([c.eq(r.z_array[k], lo + step * k) for k in range(nz)]))
    c.prove('fields', tuple(r.cat.z_steps.shape) == (n, nz) and tuple(r.cat.likelihood_steps.shape) == (n, nz))
    c.prove('positions kept', c.all([c.eq(r.cat.ra_orig[i], ra0[i]) & c.eq(r.cat.dec_orig[i], dec0[i]) & c.eq(r.cat.ra[i], ra0[i]) for i in range(n)]))
    c.prove('start', c.all([c.eq(r.cat.z[i], lo) for i in range(n)]))
    c.prove('settings', bool(ok) and r.record_members and r.do_correct_zlambda and r.do_pz and not r.do_percolation_masking and r.min_lambda == 4.0 and r.refine_r0 == 0.5 and r.refine_beta == c.beta)
    c.prove('refined radius', c.eq(r.refine_maxrad, 0.6 if c.beta == 0 else 0.5 * 3.0**c.beta))
    c.cover('end')


SCAN = [('Z_STEPS', 'f8', (3,)), ('LAMBDA_STEPS', 'f8', (3,)), ('LIKELIHOOD_STEPS', 'f8', (3,)), ('LMAX', 'f8'), ('MAX_IND', 'i4'), ('ZMAX', 'f8'), ('RA_OPT', 'f8'), ('DEC_OPT', 'f8'), ('LAMBDA_OPT', 'f8'),
        ('LAMBDA_OPT_E', 'f8'), ('Z_LAMBDA_OPT', 'f8'), ('Z_LAMBDA_OPT_E', 'f8')]


def zscan(c):
    """one position scanned over redshift"""
    R, C = c.mod('run_zscan'), c.mod('cluster')
    part, N, Z = c.part, 4, 3
    cfg = config(C, SCAN, centerclass='HarnessCenter')
    cl = cluster(c, C, cfg, N)
    if part == 'scan':
        ls = c.reals('ls', Z, 1, 50)
        ps = c.reals('ps', Z, 0, 1)
        few = [c.flag('few%d' % k) for k in range(Z)]
        lf, zl = [20.0, 24.0], [0.5, 0.5625]
        nocen, good = False, 3
    else:
        ls, ps, few = [20.0, 20.0, 20.0], [0.25, 0.5, 0.375], [False] * Z
        lf, zl = c.reals('lf', 2, 1, 50), c.reals('zl', 2, -0.25, 1)
        c.assume(*[c.any([x < 0, x > 0.0625]) for x in zl])
        nocen, good = c.flag('nocen'), c.index('good', 1, 3)
    scl = [1.25, 2.0, 1.5]
    zarr = numpy.array([0.3125, 0.5, 0.6875])
    st = Obj(i=0, log=[], found=0, fr0=None)
    wide = 2.0 if not c.params.get('tight') else 0.7

    def calc(self, mask, calc_err=True, index=None):
        z = self.redshift
        if not st.found:
            k = min(range(Z), key=lambda q: abs(float(zarr[q]) - float(z)))
            st.log.append(('scan', k, None if index is None else [int(q) for q in index], bool(c.eq(z, zarr[k]))))
            self.neighbors.pmem[:] = c.np.array([0.0, ps[k], 0.5, 1.0])
            self.Lambda, self.scaleval = ls[k], scl[k]
            return ls[k]
        i = st.i
        st.i += 1
        st.log.append(('fin', i, z, self.ra, self.r0, self.beta))
        lam = lf[i] if i < 2 else 33.0
        self.Lambda, self.scaleval, self.r_lambda, self.Lambda_e = lam, 1.5, 1.0, 0.5 + i
        return lam
    c.patch(C.Cluster, 'calc_richness', calc)
    zlog = zlam(c, R, zl)

    def find(self, radius, gals, megaparsec=False, maxmag=None):
        st.found += 1
        st.log.append(('find', radius, megaparsec, maxmag, self.redshift, self.r0))
    c.patch(C.Cluster, 'find_neighbors', find)

    class Cent(object):
        def __init__(self, cluster):
            self.cluster = cluster

        def find_center(self):
            st.log.append(('cent', self.cluster.redshift))
            if nocen:
                return False
            self.ngood = good
            self.index = numpy.array([1, 0, 2][:good] + [-1] * (3 - good))
            self.maxind = 1
            self.ra, self.dec = c.np.array([10.01, 10.0, 0.0]), c.np.array([0.0] * 3)
            self.p_cen, self.q_cen = c.np.array([0.75, 0.25, 0.0]), c.np.array([0.5, 0.25, 0.125])
            self.p_fg, self.p_sat, self.p_c = c.np.array([0.1, 0.2, 0.3]), c.np.array([0.4, 0.5, 0.6]), c.np.array([0.7, 0.8, 0.9])
            self.q_miss = 0.375
            return True
    c.patch(R, 'HarnessCenter', Cent)
    r = R.RunZScan.__new__(R.RunZScan)
    r.config, r.z_array, r.limlum, r.min_lambda, r.gals, r.did_read_zreds = cfg, zarr, 0.125, 4.0, Obj(), True
    r.refine_r0, r.refine_beta, r.refine_maxrad = 0.5, 0.125, 0.625
    r.maxrad = 2.0
    r.depthlim = Obj(calc_maskdepth=lambda *a: None)
    r.depthstr = Obj(calc_maskdepth=lambda mg, ra, dec, s: None)
    r.mask = Obj(set_radmask=lambda x: None, maskgals=None)
    # galaxies too faint at one redshift but not at another: at least two bright ones unless 'few'
    for j in range(N):
        cl.neighbors.refmag[j] = 17.0 + 0.25 * j
    ups = cl.__class__.update_neighbors_dist

    def upd(self):
        ups(self)
        if not st.found:
            k = min(range(Z), key=lambda q: abs(float(zarr[q]) - float(self.redshift)))
            if few[k]:
                self.neighbors.r[1:] = 3.0
    c.patch(C.Cluster, 'update_neighbors_dist', upd)
    bad = r._process_cluster(cl)
    likes, lams = [], []
    for k in range(Z):
        if few[k] or bool(ls[k] < 4.0):
            lams.append(-1.0)
            likes.append(-1.0)
            continue
        v = -ls[k] / scl[k] - math.log(0.5)
        if bool(ps[k] > 0) and bool(ps[k] < 1):
            v = v - c.np.log(1.0 - ps[k])
        # the sentinel of an unmeasured step is a likelihood of -1
        lams.append(ls[k])
        likes.append(v)
    scans = [q for q in st.log if q[0] == 'scan']
    c.prove('steps measured', [q[1] for q in scans] == [k for k in range(Z) if not few[k]] and all(q[3] for q in scans))
    c.prove('steps recorded', c.all([c.eq(cl.lambda_steps[k], lams[k]) & c.eq(cl.likelihood_steps[k], likes[k]) & c.eq(cl.z_steps[k], zarr[k]) for k in range(Z)]))
    mi = int(cl.max_ind)
    c.prove('best step', c.all([c.le(likes[k], likes[mi]) for k in range(Z)] + [c.eq(cl.lmax, likes[mi]), c.eq(cl.zmax, zarr[mi])]))
    if few[mi] or bool(ls[mi] < 4.0):
        c.prove('rejected', bool(bad) and not st.found)
        c.cover('unmeasured')
        return
    fd = [q for q in st.log if q[0] == 'find']
    zb = float(zarr[mi])
    c.prove('refined neighbours', len(fd) == 1 and fd[0][2] and c.all([c.eq(fd[0][1], 1.25), c.eq(fd[0][4], zb), c.eq(fd[0][5], 0.5), c.eq(fd[0][3], 16 + 4 * zb - 2.5 * math.log10(0.125))]))
    fin = [q for q in st.log if q[0] == 'fin']
    c.prove('refined measurement', c.eq(fin[0][2], zb) & c.eq(fin[0][4], 0.5) & c.eq(fin[0][5], 0.125))
    fate = None
    if bool(lf[0] / 1.5 < 4.0):
        fate = 'poor'
    elif bool(zl[0] < 0):
        fate = 'no redshift'
    elif bool(lf[1] / 1.5 < 4.0):
        fate = 'poor2'
    c.prove('rejected', bool(bad) == (fate is not None))
    if fate is not None:
        bad_values(c, cl)
        c.cover(fate)
        return
    c.prove('second at z_lambda', c.eq(fin[1][2], zl[0]) & c.eq(zlog[0].z, zb))
    c.prove('recorded', c.all([c.eq(cl.Lambda, lf[1]), c.eq(cl.Lambda_e, 1.5), c.eq(cl.z_lambda, zl[0]), c.eq(cl.z_lambda_e, 0.03125), c.eq(cl.redshift, zl[0]), c.eq(cl.pz[1], 3.0), c.eq(cl.pzbins[0], 0.25), c.eq(cl.ra, 10.0)]))
    if nocen:
        c.prove('no centre', len(fin) == 2)
        c.cover('nocentre')
        return
    ids = [101, 100, 102]
    c.prove('centre galaxy', c.all([c.eq(cl.ra_opt, 10.01), c.eq(cl.dec_opt, 0.0), c.eq(cl.mag[0], 21.0), c.eq(cl.mag_err[1], 1.5), c.eq(cl.refmag, 17.25), c.eq(cl.refmag_err, 1.125), c.eq(cl.ebv_mean, 1.5),
                                    c.eq(cl.zred, 0.375), c.eq(cl.zred_e, 0.125), c.eq(cl.zred_chisq, 4.0)]))
    c.prove('centre ids', c.all([c.eq(cl.id_cent[q], ids[q]) for q in range(good)]))
    c.prove('no id without a centre', c.all([c.not_(c.eq(cl.id_cent[q], 100 + j)) for q in range(good, 3) for j in range(N)]))
    c.prove('centre tables', int(cl.ncent_good) == good and c.all([c.eq(cl.ra_cent[0], 10.01), c.eq(cl.p_cen[1], 0.25), c.eq(cl.q_cen[0], 0.5), c.eq(cl.p_fg[1], 0.2), c.eq(cl.p_sat[2], 0.6), c.eq(cl.p_c[0], 0.7), c.eq(cl.q_miss, 0.375)]))
    c.prove('optical centre measured', len(fin) == 3 and c.all([c.eq(fin[2][3], 10.01), c.eq(fin[2][2], zl[0]), c.eq(cl.lambda_opt, 33.0), c.eq(cl.lambda_opt_e, 2.5), c.eq(cl.z_lambda_opt, zl[1]), c.eq(cl.z_lambda_opt_e, 1.03125)]))
    c.cover('good')


def colormem(c):
    """one cluster measured in the colour of its redshift range"""
    R, C = c.mod('run_colormem'), c.mod('cluster')
    near = c.index('near', 0, 3)
    cfg = config(C, [('REDCOLOR', 'f8', (3,)), ('P_BCG', 'f8')], calib_colormem_colormodes=[2, 0, 1], calib_colormem_minlambda=5.0, calib_pcut=0.25)
    cl = cluster(c, C, cfg, r=[0.0078125 if j == near else 0.015625 * (2 + j) for j in range(4)])
    cl.redcolor[:] = c.np.array([1.0, 2.0, 3.0])
    z = c.real('z', 0, 1)
    cl.z = z
    lam, scl, pb = c.real('lam', 1, 50), c.real('scl', 1, 2), c.real('pb', 0, 1)
    got = []

    def fit(self, mask, mode, calc_err=True, centcolor_in=None, **k):
        got.append((mode, centcolor_in))
        self.Lambda, self.scaleval = lam, scl
        self.neighbors.pmem[:] = c.np.array([pb if j == near else 0.125 for j in range(4)])
        return lam
    c.patch(C.Cluster, 'calc_richness_fit', fit)
    r = R.RunColormem.__new__(R.RunColormem)
    r.config, r.mask, r.zbounds = cfg, Obj(), numpy.array([0.125, 0.375, 0.625, 0.875])
    if bool(z <= 0.125) or bool(z > 0.875):
        c.prove('outside every range', c.raises(lambda: r._process_cluster(cl), RuntimeError) is not None)
        c.cover('outside')
        return
    bad = r._process_cluster(cl)
    m = 0 if bool(z <= 0.375) else (1 if bool(z <= 0.625) else 2)
    mode = [2, 0, 1][m]
    c.prove('colour of its redshift', len(got) == 1 and int(got[0][0]) == mode and bool(c.eq(got[0][1], 1.0 + mode)))
    c.prove('central probability', c.eq(cl.p_bcg, pb))
    reject = bool(lam / scl < 5.0) or bool(pb < 0.25)
    c.prove('rejected', bool(bad) == reject)
    if reject:
        bad_values(c, cl)
    else:
        c.prove('recorded', c.eq(cl.Lambda, lam) & c.eq(cl.scaleval, scl))
    c.cover('bad' if reject else 'good')


def colorpost(c):
    """clusters kept by the colour run, and their members"""
    R, C = c.mod('run_colormem'), c.mod('cluster')
    n = c.n
    lam, mf = c.reals('lam', n, -1, 50), c.reals('mf', n, 0, 1)
    ok = [c.flag('s%d' % i) for i in range(n)]
    scl = [c.real('scl%d' % i, 1, 2) if ok[i] else -1.0 for i in range(n)]
    own = [c.index('own%d' % j, 0, n - 1) for j in range(c.m)]
    r = R.RunColormem.__new__(R.RunColormem)
    r.config = config(C, calib_colormem_minlambda=5.0, max_maskfrac=0.25, calib_colormem_smooth=0.0)
    ids = [7, 3, 5][:n]
    r.cat = C.ClusterCatalog(c.rec(n, SEEDCAT + [('SCALEVAL', 'f8'), ('MASKFRAC', 'f8'), ('MEM_MATCH_ID', 'i4')], dict(RA=[10.0 + i for i in range(n)], LAMBDA=lam, SCALEVAL=scl, MASKFRAC=mf, MEM_MATCH_ID=ids)), dtype=[])
    Cat = c.mod('catalog').Catalog
    r.members = Cat(c.rec(c.m, [('MEM_MATCH_ID', 'i4'), ('ID', 'i8'), ('Z', 'f8')], dict(MEM_MATCH_ID=[ids[o] for o in own], ID=[50 + j for j in range(c.m)], Z=[0.25 + 0.125 * j for j in range(c.m)])))
    keep = []
    for i in range(n):
        if ok[i] and bool(lam[i] / scl[i] >= 5.0) and bool(mf[i] < 0.25):
            keep.append(i)
    if not keep:
        # nothing to train on
        c.cover('none')
        return
    r._postprocess()
    c.prove('kept', [int(round(float(x))) - 10 for x in r.cat.ra] == keep)
    want = [j for j in range(c.m) if own[j] in keep]
    got = sorted(int(x) - 50 for x in r.members.id)
    c.prove('members', got == want)
    if want:
        c.prove('member values', c.all([c.eq(r.members.z[q], 0.25 + 0.125 * (int(x) - 50)) for q, x in enumerate(r.members.id)]))
    c.cover('end')


def catsetup(c):
    """the settings of a run on an input catalogue: which clusters, and how faint a galaxy has to be looked at"""
    R, C = c.mod('runcat'), c.mod('cluster')
    n = c.n
    dt = [('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f8'), ('MEM_MATCH_ID', 'i4'), ('LAMBDA', 'f8')]
    z = c.reals('z', n, 0, 1)
    got = []

    def read(f, **k):
        got.append((f, k))
        return C.ClusterCatalog(c.rec(n, dt, dict(RA=[1.0 + i for i in range(n)], DEC=[5.0 - i for i in range(n)], Z=z)), dtype=[])
    c.patch(R, 'ClusterCatalog', Obj(from_catfile=read))
    r = R.RunCatalog.__new__(R.RunCatalog)
    r._additional_initialization()
    ml = c.real('ml', -1, 1) if c.memlum else None
    lm = c.real('lm', -1, 1) if c.lmask else None
    ll, ref = c.real('ll', 0.0625, 1), c.real('ref', 0.0625, 1)
    r.config = config(C, catfile='/nonexistent/c.fit', percolation_memlum=ml, percolation_lmask=lm, lval_reference=ref)
    r.zredstr, r.bkg, r.zredbkg, r.cosmo, r.r0, r.beta, r.limlum = 'Z', 'B', None, 'C', 1.5, 0.25, ll
    kw = dict(do_percolation_masking=True, maxiter=7, converge_zlambda=True, tol=0.25) if c.opts else {}
    ok = r._more_setup(**kw)
    k = got[0][1]
    c.prove('catalogue with the models of the run', len(got) == 1 and got[0][0] == '/nonexistent/c.fit' and (k.get('zredstr'), k.get('bkg'), k.get('cosmo'), k.get('r0'), k.get('beta')) == ('Z', 'B', 'C', 1.5, 0.25) and k.get('config') is r.config)
    c.prove('every cluster, with an identifier of its own', [int(x) for x in r.cat.mem_match_id] == list(range(1, n + 1)) and c.all([c.eq(r.cat.z[i], z[i]) & c.eq(r.cat.ra[i], 1.0 + i) for i in range(n)]))
    c.prove('settings', bool(ok) and r.do_lam_plusminus and r.match_centers_to_galaxies and r.record_members and r.do_correct_zlambda and r.do_pz)
    if c.opts:
        c.prove('options', r.do_percolation_masking is True and r.maxiter == 7 and r.converge_zlambda is True and r.tol == 0.25)
    else:
        c.prove('defaults', r.do_percolation_masking is False and r.maxiter == 5 and r.converge_zlambda is False)
    want = ll
    if ml is not None and bool(ml > 0) and bool(ml < ref) and bool(ml < want):
        want = ml
    if lm is not None and bool(lm > 0) and bool(lm < want):
        want = lm
    c.prove('deep enough for members and masking', c.eq(r.limlum, want))
    c.cover('end')


def colorsetup(c):
    """the training seeds of the single-colour pass, with the model colour at their redshift"""
    R, C = c.mod('run_colormem'), c.mod('cluster')
    n = c.n
    dt = [('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f8'), ('Z_INIT', 'f8'), ('MEM_MATCH_ID', 'i4'), ('LAMBDA', 'f8')]
    z = c.reals('z', n, 0, 1)
    # a training sample with no seed in range stops the calibration
    c.assume(c.any([(x > 0.25) & (x < 0.75) for x in z]))
    got = []

    def read(f, **k):
        got.append((f, k))
        return C.ClusterCatalog(c.rec(n, dt, dict(RA=[1.0 + i for i in range(n)], Z=z)), dtype=[])
    c.patch(R, 'ClusterCatalog', Obj(from_catfile=read))
    models = []
    mc = numpy.array([[1.0, 2.0], [3.0, 8.0]])

    def entry(f):
        models.append(f)
        return Obj(nodes=numpy.array([0.25, 0.75]), meancol=mc)
    c.patch(R, 'Entry', Obj(from_fits_file=entry))

    def spline(x, y, **k):
        c.prove('model nodes', [float(v) for v in x] == [0.25, 0.75])
        return lambda q: float(y[0]) + (float(y[1]) - float(y[0])) * q
    c.patch(R, 'CubicSpline', spline)
    r = R.RunColormem.__new__(R.RunColormem)
    r._additional_initialization()
    r.config = config(C, redgalfile='/nonexistent/g.fit', redgalmodelfile='/nonexistent/m.fit', calib_colormem_r0=0.5, calib_colormem_beta=0.125, nmag=3, zrange=[0.25, 0.75], calib_colormem_zbounds=numpy.array([0.5]))
    r.zredstr, r.cbkg, r.cosmo, r.r0, r.beta = 'Z', 'CB', 'C', 1.5, 0.25
    ok = r._more_setup()
    k = got[0][1]
    c.prove('seeds with the models of the run', len(got) == 1 and got[0][0] == '/nonexistent/g.fit' and (k.get('cbkg'), k.get('cosmo'), k.get('r0'), k.get('beta')) == ('CB', 'C', 1.5, 0.25) and k.get('config') is r.config and
            models == ['/nonexistent/m.fit'])
    keep = [i for i in range(n) if bool(z[i] > 0.25) and bool(z[i] < 0.75)]
    c.prove('seeds in the redshift range', len(r.cat) == len(keep) and c.eqs(list(r.cat.ra), [1.0 + i for i in keep]))
    for q, i in enumerate(keep):
        c.prove('redshift', c.eq(r.cat.z[q], z[i]) & c.eq(r.cat.z_init[q], z[i]))
        c.prove('model colour at its redshift', c.eqs(list(r.cat.redcolor[q, :]), [1.0 + 2.0 * z[i], 2.0 + 6.0 * z[i]]))
    if len(keep) > 1:
        c.prove('identifiers', [int(x) for x in r.cat.mem_match_id] == list(range(1, len(keep) + 1)))
        c.cover('some')
    c.prove('colour ranges cover the seeds', len(r.zbounds) == 3 and c.eq(r.zbounds[1], 0.5) & (r.zbounds[0] < 0.25) & (r.zbounds[2] > 0.75))
    c.prove('two passes without members at first', bool(ok) and r.doublerun is True and r.record_members is False and r.do_lam_plusminus is False and r.rmask_0 == 0.5 and r.rmask_beta == 0.125)
    c.prove('colours, not models', r.use_colorbkg is True and r.use_parfile is False)


PROPS = {
    'P23': dict(level='model_checking',
                functions=['run_firstpass.RunFirstPass._more_setup', 'run_firstpass.RunFirstPass._process_cluster', 'run_likelihoods.RunLikelihoods._more_setup', 'run_likelihoods.RunLikelihoods._process_cluster',
                           'run_likelihoods.RunLikelihoods._postprocess', 'runcat.RunCatalog._process_cluster', 'runcat.RunCatalog._more_setup', 'run_colormem.RunColormem._more_setup', 'run_zscan.RunZScan._more_setup', 'run_zscan.RunZScan._process_cluster', 'run_colormem.RunColormem._process_cluster',
                           'run_colormem.RunColormem._postprocess', 'cluster_runner.ClusterRunner._reset_bad_values'],
                bounds='<= 3 seeds, 4-5 neighbours, <= 3 redshift iterations, 3 scan steps',
                assumptions=['richness and redshift measurements are arbitrary values (their own properties are P01-P03, P10)', 'central likelihood term: richness and memberships on a grid of 4, redshift and density factor arbitrary',
                             'seed positions distinct; files are stand-ins'],
                instances=[('firstseeds', dict(n=2, mode='gals', covers=['end', 'none'])), ('firstseeds', dict(n=2, mode='seeds', clean=True)), ('firstseeds', dict(n=2, mode='spec', keepz=True)), ('firstseeds', dict(n=1, mode='gals', nozred=True)),
                           ('firstseeds', dict(n=3, mode='seeds', clean=True), 'thorough'), ('firstseeds', dict(n=3, mode='gals', clean=True), 'thorough'),
                           ('first', dict(niter=2, keepz=False, spec=False, covers=['good', 'poor', 'outside'])), ('first', dict(niter=1, keepz=True, spec=True)), ('first', dict(niter=3, keepz=False, spec=True), 'thorough'),
                           ('likeseeds', dict(n=2, keepz=False, clean=True, covers=['end', 'none'])), ('likeseeds', dict(n=2, keepz=True, clean=False)),
                           ('likeseeds', dict(n=3, keepz=False, clean=False), 'thorough'),
                           ('like', dict(cal=False, covers=['good', 'bad'])), ('like', dict(cal=True, covers=['good', 'bad'])), ('like', dict(cal=True, zred=True)), ('like', dict(cal=True, zred=True, corr=True)),
                           ('likepost', dict(n=3)),
                           ('runcat', dict(maxiter=1, converge=False, covers=['good0', 'masked', 'poor', 'no redshift'])), ('runcat', dict(maxiter=2, converge=True, covers=['good1'])), ('runcat', dict(maxiter=4, converge=True), 'thorough'),
                           ('catsetup', dict(n=2, memlum=True, lmask=True, opts=False, covers=['end'])), ('catsetup', dict(n=3, memlum=True, lmask=False, opts=True)), ('catsetup', dict(n=2, memlum=False, lmask=True, opts=True)),
                           ('colorsetup', dict(n=2, covers=['some'])), ('colorsetup', dict(n=3), 'thorough'),
                           ('scansetup', dict(n=2, beta=0.25)), ('scansetup', dict(n=1, beta=0.0)),
                           ('zscan', dict(part='scan', covers=['good', 'unmeasured'])), ('zscan', dict(part='final', covers=['good', 'poor', 'poor2', 'no redshift', 'nocentre'])),
                           ('colormem', dict(covers=['good', 'bad', 'outside'])), ('colorpost', dict(n=2, m=3, covers=['end'])), ('colorpost', dict(n=3, m=4), 'thorough')]),
}
