"""Richness of the first training pass and the local background (P32)."""
import math
import numpy
from harness.common import Obj, Cosmo, ZStr
from harness.p_cluster import f8_dtype, SolverStub, gals, make_cluster

SC = math.radians(1.) * Cosmo().Da(0, 0.5)


def near(c, a, b):
    return a is not None and len(a) == len(b) and c.all([c.eq(x, y) for x, y in zip(a, b)])


def fitline(x, y, w):
    """weighted straight line by the normal equations"""
    s = [sum(w[i] ** 2 * f(i) for i in range(len(x))) for f in (lambda i: 1.0, lambda i: x[i], lambda i: x[i] ** 2, lambda i: y[i], lambda i: x[i] * y[i])]
    d = s[0] * s[2] - s[1] ** 2
    return (s[0] * s[4] - s[1] * s[3]) / d, (s[2] * s[3] - s[1] * s[4]) / d


def med(v):
    v = sorted(v)
    m = len(v) // 2
    return v[m] if len(v) % 2 else (v[m - 1] + v[m]) / 2


def colour(c):
    """the single-colour richness: which galaxies are fit, what the solver is asked, and what is recorded"""
    C, U = c.mod('cluster'), c.mod('utilities')
    n, ci = c.n, c.params.get('ci', 1)
    lim = c.params.get('limmag', 20.0)
    mags = [17.0, 17.5, 18.25, 18.5, 19.0][:n]
    dist = [0.0625, 0.125, 0.25, 0.1875, 0.5][:n]
    cols = [1.0, 1.0625, 0.9375, 1.03125, 1.125][:n]
    what = c.what
    if what == 'mag':
        mags = [[14.5, 17.0, 18.25, 19.375, 20.5][c.index('m%d' % i, 0, 4)] if i in (0, 2) else mags[i] for i in range(n)]
    if what == 'col':
        cols = [[0.25, 0.875, 1.0, 1.25, 1.875][c.index('c%d' % i, 0, 4)] if i in (0, 1, 2) else cols[i] for i in range(n)]
    if what == 'dist':
        dist = [[0.0625, 0.25, 0.75, 1.5][c.index('d%d' % i, 0, 3)] + 0.001 * i if i in (0, 1, 2) else dist[i] for i in range(n)]
    cerr = [0.03125 * (1 + i % 3) for i in range(n)]
    pfree = c.reals('pf', n, 0, 1)
    g = gals(c, n, refmag=mags, refmag_err=[0.125] * n, zred=[0.5] * n, galcol=[[5.0, 5.0] if ci else [0.0, 7.0] for i in range(n)], galcol_err=[[9.0, 9.0]] * n)
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=23.0)
    zs.lumnorm = c.np.array([[1.0, 1.0], [1.0, 1.0], [1.0, 2.0]])
    zs.chisq_of = lambda gg, zz: c.np.array([1.0] * len(gg))
    cl = make_cluster(c, n, None, g, zs, limmag_catalog=lim, rsig=0.0625)
    nb = cl.neighbors
    gc = c.np.zeros((n, 2))
    ge = c.np.zeros((n, 2))
    for i in range(n):
        for j in range(2):
            gc[i, j] = cols[i] if j == ci else 5.0
            ge[i, j] = cerr[i] if j == ci else 9.0
    # the stand-in catalogue stores the colours
    nb.galcol, nb.galcol_err = gc, ge
    nb.pfree = pfree
    nb.dist = c.np.array([d / SC for d in dist])
    cl.redshift = 0.5
    for f in ('p', 'pmem', 'pcol', 'theta_i', 'theta_r'):
        setattr(nb, f, c.np.array([0.625] * n))
    cl.scaleval, cl.Lambda, cl.r_lambda = 3.0, 50.0, 0.25
    sg = lambda k, x, m: (1 + k) * (2.0 + x + 0.125 * (m - 16.0))
    asked = []

    def diag(k, x, m, **kw):
        asked.append(k)
        return c.np.array([sg(k, a, b) for a, b in zip(x, m)])
    cl.cbkg = Obj(get_colrange=lambda k: [0.5, 1.75] if k == ci else [-9.0, 9.0], sigma_g_diagonal=diag)
    found = c.flag('found')
    lam = c.real('lam', 1, 300) if found else -1.0
    rlam = [0.15625, 0.375][c.index('rl', 0, 1)]
    p, tr, fac = c.reals('p', n, 0.0625, 1), c.reals('tr', n, 0, 1), c.reals('fac', n, 0.0625, 1)
    pmem = c.np.array([p[i] * 0.5 + fac[i] * 0.25 for i in range(n)])
    cp = c.np.array([0.125, 0.25, -0.125, 0.0625])
    log, mcalls = [], []
    c.patch(C, 'Solver', SolverStub((lam, p, pmem, rlam, tr), log))

    class M(object):
        maskgals = None

        def calc_maskcorr(self, a, b, d):
            mcalls.append((a, b, d))
            return cp
    cc = c.params.get('centre')
    rcut, mingal, sigint = 0.375, c.params.get('mingal', 3), 0.0625
    maxmag = 18.0 - 2.5 * math.log10(0.25)
    minmag = 18.0 - 2.5 * math.log10(20.0)
    guse = [i for i in range(n) if minmag < mags[i] < maxmag and dist[i] < rcut and 0.5 < cols[i] < 1.75]
    near0 = min(range(n), key=lambda i: dist[i])
    cent = cc if cc is not None else cols[near0]
    sel = [i for i in guse if abs(cols[i] - cent) < 2 * math.hypot(cerr[i], sigint)]
    gap = min([abs(abs(cols[i] - cent) - 2 * math.hypot(cerr[i], sigint)) for i in guse] or [1.0])
    c.assume(gap > 1e-6)
    ret = cl.calc_richness_fit(M(), ci, centcolor_in=cc, rcut=rcut, mingal=mingal, sigint=sigint)
    if len(guse) < mingal or (cc is None and near0 not in guse) or len(sel) < mingal:
        c.prove('not a cluster', bool(ret < 0) and len(log) == 0)
        c.cover('rejected')
        return
    c.prove('solved once', len(log) == 1 and len(mcalls) == 1)
    a = log[0]
    pivot = med([mags[i] for i in guse])
    m, b = fitline([mags[i] - pivot for i in sel], [cols[i] for i in sel], [1.0 / cerr[i] for i in sel])
    wt = []
    for i in range(n):
        e2 = cerr[i] ** 2 + sigint ** 2
        d = cols[i] - (m * (mags[i] - pivot) + b)
        wt.append(math.exp(-0.5 * d * d / e2) / math.sqrt(2 * math.pi * e2))
    ma = c.np.array(mags)
    th = U.calc_theta_i(ma, c.np.array([0.125] * n), maxmag, lim)
    phi = U.schechter_pdf(ma, alpha=-1.0, mstar=18.0) / 2.0
    nfw = U.nfw_pdf(c.np.array(dist), rscale=0.15)
    c.prove('mask correction', near(c, mcalls[0], (18.0, maxmag, lim)) & near(c, a['cpars'], cp))
    c.prove('colour of the background', asked == [ci])
    c.prove('radius', near(c, a['r'], dist) & c.eq(a['r0'], 1.0) & c.eq(a['beta'], 0.25))
    c.prove('weight', near(c, a['w'], [th[i] * pfree[i] for i in range(n)]))
    c.prove('signal', near(c, a['ucounts'], [2 * math.pi * dist[i] * wt[i] * nfw[i] * phi[i] for i in range(n)]))
    bk = [sg(ci, cols[i], mags[i]) / SC ** 2 for i in range(n)]
    c.prove('background', near(c, a['bcounts'], [2 * math.pi * dist[i] * bk[i] for i in range(n)]))
    c.prove('richness', c.eq(ret, lam) & c.eq(cl.Lambda, lam) & c.eq(cl.r_lambda, rlam) & c.eq(cl.Lambda_e, 0.0))
    if not found:
        c.prove('nobody is a member', c.all([c.eq(x, 0.0) for f in ('p', 'pmem', 'pcol', 'theta_i', 'theta_r') for x in getattr(nb, f)]))
        c.prove('no scale', c.eq(cl.scaleval, -1.0))
        c.cover('none')
        return
    c.prove('scale', c.eq(cl.scaleval * sum(pmem[i] for i in range(n)), lam))
    c.prove('members', near(c, nb.p, p) & near(c, nb.pmem, pmem) & near(c, nb.theta_i, th) & near(c, nb.theta_r, tr))
    for i in range(n):
        if dist[i] > rlam or mags[i] > maxmag or mags[i] > lim:
            c.prove('colour probability is zero outside', c.eq(nb.pcol[i], 0.0))
        else:
            u = wt[i] * phi[i] * lam
            c.prove('colour probability', c.eq(nb.pcol[i] * (u + bk[i] * math.pi * rlam ** 2), u))
    c.cover('end')


def densities(c):
    """background filters in colour and in redshift"""
    n = c.n
    g = gals(c, n, refmag=[18.0] * n, refmag_err=[0.125] * n, zred=[0.5] * n)
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=23.0)
    zs.chisq_of = lambda gg, zz: c.np.array([1.0] * len(gg))
    cl = make_cluster(c, n, None, g, zs)
    zg = c.index('z', 0, 3)
    z = [0.25, 0.375, 0.5, 0.75][zg]
    cl.redshift = z
    sc = math.radians(1.) * Cosmo().Da(0, z)
    r, x, m = c.reals('r', n, 0.0625, 2), c.reals('x', n, 0, 2), c.reals('m', n, 14, 22)
    c.prove('refused without the background', c.raises(lambda: cl.calc_zred_bkg_density(r, x, m), AttributeError) is not None)
    f = lambda k, a, b: k + 2.0 * a + 0.125 * b
    cl.cbkg = Obj(sigma_g_diagonal=lambda k, a, b: f(k, a, b))
    cl.zredbkg = Obj(sigma_g_lookup=lambda a, b: f(7.0, a, b))
    for k in (0, 1):
        got = cl.calc_cbkg_density(r, k, x, m)
        c.prove('colour', near(c, [got[i] * sc ** 2 for i in range(n)], [2 * math.pi * r[i] * f(k, x[i], m[i]) for i in range(n)]))
    got = cl.calc_zred_bkg_density(r, x, m)
    c.prove('redshift', near(c, [got[i] * sc ** 2 for i in range(n)], [2 * math.pi * r[i] * f(7.0, x[i], m[i]) for i in range(n)]))
    c.cover('end')


def local(c):
    """the local background: galaxies in the annulus per unmasked area, relative to the expected density"""
    C = c.mod('cluster')
    n, N = c.n, c.N
    maxmag = 18.0 - 2.5 * math.log10(0.25)
    lo, hi = 0.5, 1.25
    z = 0.5
    rg = [c.real('r%d' % i, 0.125, 2.0) if i in c.free else 0.75 for i in range(n)]
    mg = [c.real('m%d' % i, 15.0, 21.0) if i in c.free else 17.0 for i in range(n)]
    xg = [c.real('x%d' % i, 0.0, 30.0) if i in c.free else 1.0 for i in range(n)]
    for v, edges in ((rg, (lo, hi)), (mg, (maxmag, 18.5, 17.75, 18.25)), (xg, (12.0,))):
        for x in v:
            c.assume(*[abs(x - e) > 1e-5 for e in edges])
    g = gals(c, n, refmag=mg, refmag_err=[0.125] * n, zred=[0.5] * n, ra=[40.0 + 0.125 * i for i in range(n)], dec=[10.0 - 0.125 * i for i in range(n)])
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=23.0)
    zs.chisq_of = lambda gg, zz: c.np.array(xg)
    F = [(x, 'f8') for x in ('x_uniform', 'y_uniform', 'r_uniform', 'm', 'refmag', 'chisq', 'chisq_pdf', 'lum_pdf')]
    ru = [c.real('ru%d' % i, 0.125, 1.25 - 1e-4) if i in c.params.get('mfree', []) else [0.75, 0.25, 1.0, 1.125][i] for i in range(N)]
    for x in ru:
        c.assume(abs(x - lo) > 1e-5)
    mm = [[-1.0, 0.25, 0.625, 2.0][c.index('mm%d' % i, 0, 3)] if i in c.params.get('mmag', []) else [-0.5, 0.375, 0.0, 0.125][i] for i in range(N)]
    mx = [4.0, 12.0, 2.0, 6.0][:N]
    cpdf = [0.25, 0.5, 0.125, 0.5][:N]
    lpdf = [0.5, 0.25, 1.0, 0.5][:N]
    if c.params.get('zero'):
        cpdf[0] = [0.25, 0.0][c.index('cz', 0, 1)]
        lpdf[2] = [1.0, 0.0][c.index('lz', 0, 1)]
    xy = [(0.5, -0.25), (-0.125, 0.25), (0.75, 0.5), (-1.0, 0.25)][:N]
    mk = [c.flag('mark%d' % i) for i in range(N)]
    Cat = c.mod('catalog').Catalog
    mag = Cat(c.rec(N, F, dict(x_uniform=[a for a, _ in xy], y_uniform=[b for _, b in xy], r_uniform=ru, m=mm, refmag=[18.0 + q for q in mm], chisq=mx, chisq_pdf=cpdf, lum_pdf=lpdf)))
    inf = c.params.get('inf', False)
    s = [float('inf') if inf and i == N - 1 else 0.5 + 0.25 * i for i in range(N)]
    looked = []

    def sig(zz, xx, m0):
        looked.append((zz, list(xx), list(m0)))
        return numpy.array(s)
    cl = make_cluster(c, n, None, g, zs, bkg=Obj(sigma_g_lookup=sig), bkg_local_annuli=[lo, hi])
    cl.ra, cl.dec = 40.0, 60.0
    cl.neighbors.dist = c.np.array([x / SC for x in rg])
    cl.redshift = z
    cl.neighbors.chisq = c.np.array(xg)
    pos = [(40.0 + a / SC / math.cos(math.radians(60.0)), 60.0 + b / SC) for a, b in xy]
    seen, dep = [], []

    def radmask(ra, dec):
        seen.append([(float(a), float(b)) for a, b in zip(ra, dec)])
        return numpy.array(mk)
    dm, dn = [18.25 if i % 2 else 21.0 for i in range(N)], [17.75 if i == 1 else 21.0 for i in range(n)]
    flat = 18.5

    class Map(object):
        def get_depth_values(self, ra, dec):
            dep.append([(float(a), float(b)) for a, b in zip(ra, dec)])
            d = dm if len(ra) == N and abs(float(ra[0]) - pos[0][0]) < 1e-9 else dn
            return numpy.array(d), numpy.array([1.0] * len(d))
    if c.depth == 'map':
        depth = Map()
    else:
        fail = c.depth == 'fail'
        depth = Obj(initpars={'LIMMAG': flat if fail else 14.0})
        calls = []

        def model(m0, e0, calcErr=True, **k):
            calls.append((list(m0), list(e0)))
            return {'LIMMAG': 14.0 if fail else flat}, fail
        c.patch(C, 'calcErrorModel', model)
        dm, dn = [flat] * N, [flat] * n
    use = [i for i in range(N) if 18.0 + mm[i] < maxmag and s[i] < 1e9 and cpdf[i] > 0 and lpdf[i] > 0 and 18.0 + mm[i] < dm[i]]
    ann = [i for i in range(N) if bool(ru[i] > lo)]
    good = [i for i in ann if mk[i]]
    c.assume(len(use) > 0)
    c.assume(len(good) > 0)
    got = cl.compute_bkg_local(Obj(maskgals=mag, compute_radmask=radmask), depth)
    if not use or not good:
        return
    cnt = len([i for i in range(n) if bool(rg[i] > lo) and bool(rg[i] < hi) and bool(mg[i] < maxmag) and bool(xg[i] < max(mx)) and bool(mg[i] < dn[i])])
    pred = sum(s[i] / (cpdf[i] * lpdf[i]) for i in use) / len(use)
    area = math.pi * (hi ** 2 - lo ** 2) / SC ** 2 * len(good) / len(ann)
    c.prove('relative density', c.eq(got * (pred * area), cnt))
    same = lambda a, b: len(a) == len(b) and all(abs(x[0] - y[0]) < 1e-9 and abs(x[1] - y[1]) < 1e-9 for x, y in zip(a, b))
    c.prove('mask at the positions of the mask galaxies', all(same(x, pos) for x in seen) and len(seen) > 0)
    c.prove('expected at the redshift of the cluster', len(looked) == 1 and c.eq(looked[0][0], z) & near(c, looked[0][1], mx) & near(c, looked[0][2], [18.0 + q for q in mm]))
    if c.depth == 'map':
        here = [(40.0 + 0.125 * i, 10.0 - 0.125 * i) for i in range(n)]
        c.prove('depth at the positions', all(same(x, pos) or same(x, here) for x in dep) and any(same(x, pos) for x in dep) and any(same(x, here) for x in dep))
    else:
        c.prove('depth of these galaxies', near(c, calls[0][0], mg) & near(c, calls[0][1], [0.125] * n))
    c.cover('end')


PROPS = {
    'P32': dict(level='bounded',
                functions=['cluster.Cluster.calc_richness_fit', 'cluster.Cluster.calc_cbkg_density', 'cluster.Cluster.calc_zred_bkg_density', 'cluster.Cluster.compute_bkg_local'],
                bounds='<= 5 neighbours, <= 4 mask galaxies; colours, magnitudes and radii of the single-colour fit on a grid (the Gaussian filter is evaluated), everything else unrestricted',
                assumptions=['the solver (property P01), the filters (property P05), the depth and background lookups (properties P10, P17) are stand-ins with distinct results', 'at least one mask galaxy is usable and one lies in the unmasked annulus', 'richness errors of the single-colour fit are not computed (calc_err=False, as in the code)'],
                instances=[('colour', dict(n=5, what='mag', covers=['end', 'none'])), ('colour', dict(n=5, what='col', covers=['end', 'rejected'])), ('colour', dict(n=5, what='dist', covers=['end', 'rejected'])), ('colour', dict(n=5, what='col', centre=1.0, ci=0)), ('colour', dict(n=5, what='mag', limmag=18.375, mingal=2)), ('colour', dict(n=4, what='dist', centre=1.125, mingal=2), 'thorough'),
                           ('densities', dict(n=2, covers=['end'])), ('local', dict(n=2, N=3, free=[0, 1], depth='map', covers=['end'])), ('local', dict(n=2, N=3, free=[0], depth='lim', mfree=[0, 1])), ('local', dict(n=2, N=3, free=[0], depth='fail', mmag=[0, 1])), ('local', dict(n=2, N=4, free=[1], depth='map', inf=True, zero=True, mmag=[2])), ('local', dict(n=2, N=4, free=[0, 1], depth='map', mfree=[0, 1]), 'thorough')]),
}
