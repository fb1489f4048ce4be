"""Cluster richness bookkeeping (P03) and cluster geometry (P04)."""
from harness.common import Obj, Cosmo, ZStr
import math

GAL = [('RA', 'f8'), ('DEC', 'f8'), ('REFMAG', 'f8'), ('REFMAG_ERR', 'f8'), ('ZRED', 'f8'), ('ZRED_E', 'f8'),
       ('ID', 'i8'), ('GALCOL', 'f8', (2,)), ('GALCOL_ERR', 'f8', (2,))]


def f8_dtype(C):
    # the catalogue stores single precision; use double so that replay tolerances stay tight
    return [(n, 'f8' if t == 'f4' else t) for n, t in C.cluster_dtype_base]


def gals(c, n, **vals):
    G = c.mod('galaxy').GalaxyCatalog
    return G(c.rec(n, GAL, {k.upper(): v for k, v in vals.items()}))


def make_cluster(c, n, z, neighbors, zs, bkg=None, **cfg):
    C = c.mod('cluster')
    config = Obj(cosmo=Cosmo(), cluster_dtype=f8_dtype(C), lval_reference=cfg.pop('lval', 0.25), **cfg)
    cl = C.Cluster(config=config, zredstr=zs, bkg=bkg, neighbors=neighbors, r0=cfg.get('r0', 1.0),
                   beta=cfg.get('beta', 0.25))
    if z is not None:
        cl.redshift = z
    return cl


class SolverStub(object):
    def __init__(self, out, log):
        self.out, self.log = out, log

    def __call__(self, r0, beta, ucounts, bcounts, r, w, cpars=None, rsig=None):
        self.log.append(dict(r0=r0, beta=beta, ucounts=ucounts, bcounts=bcounts, r=r, w=w, cpars=cpars, rsig=rsig))
        return self

    def solve_nfw(self):
        return self.out


def lamcerr(c, N, mg, mstar, lam, rlam, pmem, cval, gamma, beta, sigma_g, limmag, scale):
    """richness error due to masking, from its definition"""
    np = c.np
    use = [i for i in range(N) if bool(mg['r'][i] < rlam)]
    l = np.log(rlam)
    norm = np.exp(1.65169 - 0.547850 * l + 0.138202 * l**2 - 0.0719021 * l**3 - 0.0158241 * l**4 - 0.000854985 * l**5)
    tot = 0
    nout = 0
    for i in use:
        mag = mstar + mg['m'][i]
        if bool(mag > limmag) or bool(mg['mark'][i] == 0):
            nout += 1
            u = mg['cwt'][i] * norm * mg['nfw'][i] * mg['lumwt'][i]
            m = limmag - 0.01 if bool(mag >= limmag) else mag
            b = 2 * math.pi * mg['r'][i] * sigma_g(mg['chisq'][i], m) / scale**2
            tot = tot + lam * u / (lam * u + b)
    if nout == 0 or bool(cval < 0.01):
        return 0.0, use
    varc = tot / (lam * len(use))
    k = lam**2 / sum(p**2 for p in pmem)
    return k * np.sqrt(varc - varc**2) / (1 - beta * gamma), use


MG = [('r', 'f8'), ('mark', 'i4'), ('m', 'f8'), ('cwt', 'f8'), ('nfw', 'f8'), ('lumwt', 'f8'), ('chisq', 'f8')]


def maskgals(c, N):
    v = dict(r=c.reals('mr', N, 0.125, 2), m=c.reals('mm', N, -4, 8), cwt=c.reals('mc', N, 0.0625, 1),
             nfw=c.reals('mn', N, 0.0625, 4), lumwt=c.reals('ml', N, 0.0625, 1), chisq=c.reals('mx', N, 0, 20))
    v['mark'] = c.np.array([1 if c.flag('mark%d' % i) else 0 for i in range(N)])
    cat = c.mod('catalog').Catalog(c.rec(N, MG, v))
    return cat, v


def bkg_fn(c, m):
    # arbitrary positive background density depending on both arguments
    return lambda x, mag: m * (1 + x * 0.25) * (1 + (mag - 16) * (mag - 16) * 0.125)


class Bkg(object):
    def __init__(self, c, f):
        self.c, self.f, self.z = c, f, []

    def sigma_g_lookup(self, z, x, m):
        self.z.append(z)
        return self.f(x, m)


def setup(c, n, chisq, refmag, err, pfree, dist, z, bk, **cfg):
    g = gals(c, n, refmag=refmag, refmag_err=err, zred=[0.5] * n)
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=c.params.get('limmag', 20.0))
    zs.lumnorm = c.np.array([[1.0, 1.0], [1.0, 1.0], [1.0, 2.0]])
    zs.chisq_of = lambda gg, zz: c.np.array([chisq[int(i)] for i in gg.id])
    g.id = list(range(n))
    cl = make_cluster(c, n, None, g, zs, bkg=Bkg(c, bk), **cfg)
    cl.neighbors.pfree = pfree
    cl.neighbors.dist = dist
    cl.redshift = z
    return cl, zs


def richness(c):
    C, U = c.mod('cluster'), c.mod('utilities')
    np = c.np
    n = c.n
    chisq = c.reals('chisq', n, 0.25, 16)
    refmag = c.reals('mag', n, 14, 24)
    err = c.np.array([0.125] * n)
    pfree = c.reals('pf', n, 0, 1)
    dist = c.np.array([0.25 * (i + 1) for i in range(n)])
    z = 0.5
    bk = bkg_fn(c, c.real('b0', 0.125, 4))
    cl, zs = setup(c, n, chisq, refmag, err, pfree, dist, z, bk, rsig=c.params.get('rsig', 0.0625), dldr_gamma=0.5)
    scale = math.radians(1.) * Cosmo().Da(0, z)
    r = [scale * float(d) for d in dist]
    mstar = 18.0
    maxmag = mstar - 2.5 * math.log10(0.25)
    # stale values from an earlier estimate
    st = c.reals('stale', n, 0, 1)
    for f in ('p', 'pmem', 'pcol', 'theta_i', 'theta_r'):
        setattr(cl.neighbors, f, st)
    idx = c.params.get('idx')
    index = None if idx is None else c.np.array(idx)
    sel = list(range(n)) if idx is None else list(idx)
    k = len(sel)
    found = c.flag('found')
    lam = c.real('lam', 1, 300) if found else -1.0
    rlam = c.real('rlam', 0.125, 2)
    p = c.reals('p', k, 0, 1)
    tr = c.reals('tr', k, 0, 1)
    fac = c.reals('fac', k, 0, 1)
    pmem = p * fac
    if not found:
        c.assume(*[x == 0 for x in list(p) + list(fac)])
    cp = c.np.array([c.real('cp%d' % i, -1, 1) if i in c.params.get('cps', [0, 3]) else 0.125 for i in range(4)])
    log = []
    stub = SolverStub((lam, p, pmem, rlam, tr), log)
    c.patch(C, 'Solver', stub)
    mg, mv = maskgals(c, c.N) if c.calc_err else (None, None)
    mcalls = []

    class M(object):
        maskgals = mg

        def calc_maskcorr(self, mstar, maxmag, limmag):
            mcalls.append((mstar, maxmag, limmag))
            return cp
    ret = cl.calc_richness(M(), calc_err=c.calc_err, index=index)
    nb = cl.neighbors
    # what the solver was asked
    c.prove('solver called once', len(log) == 1 and len(mcalls) == 1)
    a = log[0]
    c.prove('mask correction arguments', c.all([c.eq(x, y) for x, y in zip(mcalls[0], (mstar, maxmag, zs.limmag))]))
    th = U.calc_theta_i(refmag, err, maxmag, zs.limmag)
    ra = c.np.array(r)
    rho = U.chisq_pdf(chisq, 2)
    phi = U.schechter_pdf(refmag, alpha=-1.0, mstar=mstar) / 2.0
    nfw = U.nfw_pdf(ra, rscale=0.15)
    for j, i in enumerate(sel):
        c.prove('radius', c.eq(a['r'][j], max(r[i], 1e-6)))
        c.prove('weight', c.eq(a['w'][j], th[i] * pfree[i]))
        c.prove('signal', c.eq(a['ucounts'][j], 2 * math.pi * r[i] * nfw[i] * phi[i] * rho[i]))
        c.prove('background', c.eq(a['bcounts'][j], 2 * math.pi * r[i] * bk(chisq[i], refmag[i]) / scale**2))
        c.prove('chisq stored', c.eq(nb.chisq[i], chisq[i]))
    c.prove('lengths', all(len(a[x]) == k for x in ('r', 'w', 'ucounts', 'bcounts')))
    c.prove('mask polynomial', c.eqs(a['cpars'], cp))
    c.prove('scalars', c.all([c.eq(a['r0'], 1.0), c.eq(a['beta'], 0.25), c.eq(a['rsig'], c.params.get('rsig', 0.0625))]))
    c.prove('normalised at the faint cut', c.eq(zs.normmag, maxmag))
    c.prove('background redshift', all(bool(c.eq(x, z)) if not c.sym else x == z for x in cl.bkg.z))
    F = ('theta_i', 'theta_r', 'p', 'pcol', 'pmem')
    s1 = sum(pmem[j] for j in range(k))
    some = c.any([pmem[j] > 0 for j in range(k)])
    if not found or not bool(some):
        c.cover('none')
        c.prove('no detection', c.all([c.eq(ret, -1.0), c.eq(cl.Lambda, -1.0), c.eq(cl.scaleval, -1.0)] +
                ([c.eq(cl.Lambda_e, -1.0)] if c.calc_err else [])))
        c.prove('no members without detection', c.all([c.eq(getattr(nb, f)[i], 0.0) for f in F for i in range(n)]))
        return
    c.cover('found')
    c.prove('richness', c.all([c.eq(ret, lam), c.eq(cl.Lambda, lam), c.eq(cl.r_lambda, rlam)]))
    c.prove('scale value', c.eq(cl.scaleval * s1, lam))
    for j, i in enumerate(sel):
        c.prove('members', c.all([c.eq(nb.p[i], p[j]), c.eq(nb.pmem[i], pmem[j]), c.eq(nb.theta_r[i], tr[j]),
                                  c.eq(nb.theta_i[i], th[i])]))
        u = rho[i] * phi[i] * lam
        b = 2 * math.pi * r[i] * bk(chisq[i], refmag[i]) / scale**2
        out = bool(rlam < r[i]) or bool(refmag[i] > maxmag) or bool(refmag[i] > zs.limmag)
        if out:
            c.prove('colour probability outside', c.eq(nb.pcol[i], 0.0))
        else:
            c.prove('colour probability', c.eq(nb.pcol[i] * (u + b), u))
    for i in range(n):
        if i not in sel:
            c.prove('others', c.all([c.eq(getattr(nb, f)[i], 0.0) for f in F]))
    if c.calc_err:
        cval = cp[3] + cp[2] * rlam + cp[1] * rlam**2 + cp[0] * rlam**3
        if bool(cval < 0):
            cval = 0.0
        ce, use = lamcerr(c, c.N, mv, mstar, lam, rlam, pmem, cval, 0.5, 0.25, bk, zs.limmag, scale)
        bar = sum(x**2 for x in pmem) / s1
        c.prove('richness error', c.eq(cl.Lambda_e * cl.Lambda_e, (1 - bar) * s1 * cl.scaleval**2 + ce * ce))
    else:
        c.prove('no error asked', c.eq(cl.Lambda_e, 0.0))


def cerr(c):
    """error from masked area: formula, and never imaginary"""
    np = c.np
    n, N = 1, c.N
    bk = bkg_fn(c, 0.5)
    cl, zs = setup(c, n, c.np.array([1.0]), c.np.array([17.0]), c.np.array([0.125]), c.np.array([1.0]),
                   c.np.array([0.25]), 0.5, bk, rsig=0.0, dldr_gamma=0.5)
    mg, mv = maskgals(c, N)
    lam = c.real('lam', 1, 300)
    rlam = c.real('rlam', 0.125, 2)
    pm = c.reals('pm', 2, 0, 1)
    c.assume(pm[0] + pm[1] > 0.125)
    cval = c.real('cval', 0, 1)
    beta, gamma = 0.25, 0.5
    got = cl.calc_lambdacerr(mg, 18.0, lam, rlam, pm, cval, gamma)
    scale = math.radians(1.) * Cosmo().Da(0, 0.5)
    exp, use = lamcerr(c, N, mv, 18.0, lam, rlam, pm, cval, gamma, beta, bk, zs.limmag, scale)
    c.prove('error', c.eq(got, exp))
    c.prove('not negative', got >= 0)
    c.cover('end')


SCALE = lambda z: math.radians(1.) * (64 + 16 * z)


def geometry(c):
    """neighbour selection and the angular scale follow the redshift"""
    np = c.np
    C = c.mod('cluster')
    G = c.mod('galaxy').GalaxyCatalog
    n = c.n
    mag = c.reals('mag', n, 14, 24)
    cat = gals(c, n, refmag=mag, refmag_err=[0.125] * n)
    cat.id = list(range(n))
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=20.0)
    cl = make_cluster(c, 0, None, None, zs)
    cl.ra, cl.dec = 12.0, -3.0
    z = c.real('z', 0, 2)
    if c.params.get('neg'):
        bad = c.real('zn', -2, 2)
        e = c.raises(lambda: setattr(cl, 'redshift', bad), ValueError)
        c.prove('negative redshift refused', c.iff(bad < 0, e is not None))
        c.cover('refused' if e is not None else 'taken')
        return
    cl.redshift = z
    ze = c.np.maximum(z, 0.01)
    mpc = c.flag('mpc')
    radius = c.real('radius', 0.125, 4)
    useful = c.flag('cut')
    maxmag = c.real('maxmag', 14, 24) if useful else None
    m = c.m
    perm = c.params.get('perm', list(range(m)))
    d = c.reals('dist', m, 0, 4)
    asked = []

    def match_one(ra, dec, rad):
        asked.append((ra, dec, rad))
        return c.np.array(perm[:m], dtype='i8'), d
    object.__setattr__(cat, 'match_one', match_one)
    cl.find_neighbors(radius, cat, megaparsec=mpc, maxmag=maxmag)
    c.prove('query', len(asked) == 1)
    c.prove('query centre', c.all([c.eq(asked[0][0], 12.0), c.eq(asked[0][1], -3.0)]))
    sc = math.radians(1.) * (64 + 16 * ze)
    c.prove('scale', c.eq(cl.mpc_scale, sc))
    c.prove('characteristic magnitude', c.eq(cl.mstar, 16 + 4 * ze))
    c.prove('query radius', c.eq(asked[0][2] * (sc if mpc else 1.0), radius))
    want = [(perm[j], d[j]) for j in range(m) if not useful or bool(mag[perm[j]] <= maxmag)]
    nb = cl.neighbors
    c.prove('which neighbours', len(nb) == len(want))
    for k, (i, dd) in enumerate(want):
        c.prove('row', c.all([c.eq(nb.index[k], i), c.eq(nb.id[k], i), c.eq(nb.refmag[k], mag[i]), c.eq(nb.dist[k], dd),
                              c.eq(nb.pfree[k], 1.0)]))
        c.prove('radius in Mpc', c.eq(nb.r[k], c.np.maximum(sc * dd, 1e-6)))
    z2 = c.real('z2', 0, 2)
    cl.redshift = z2
    z2e = c.np.maximum(z2, 0.01)
    sc2 = math.radians(1.) * (64 + 16 * z2e)
    c.prove('scale after change', c.all([c.eq(cl.redshift, z2e), c.eq(cl.mpc_scale, sc2), c.eq(cl.mstar, 16 + 4 * z2e)]))
    for k, (i, dd) in enumerate(want):
        c.prove('radius after change', c.all([c.eq(nb2, c.np.maximum(sc2 * dd, 1e-6)) for nb2 in [cl.neighbors.r[k]]]))
        c.prove('distance unchanged', c.eq(cl.neighbors.dist[k], dd))
    # the stored neighbours are independent of the catalogue
    if want:
        cl.neighbors.refmag[0] = 3.0
        c.prove('catalogue untouched', c.eqs(cat.refmag, mag))
        c.cover('some')
    else:
        c.cover('none')


def copies(c):
    """a copy is equal and independent"""
    n = c.n
    cat = gals(c, n, refmag=c.reals('mag', n, 14, 24), refmag_err=[0.125] * n)
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=20.0)
    cl = make_cluster(c, n, None, cat, zs)
    d = c.reals('dist', n, 0, 4)
    pf = c.reals('pf', n, 0, 1)
    cl.neighbors.dist, cl.neighbors.pfree = d, pf
    cl.neighbors.pmem = c.reals('pm', n, 0, 1)
    z = c.real('z', 0.0625, 2)
    cl.redshift = z
    ra0, lam0 = c.real('ra', 0, 359), c.real('lam', 1, 100)
    cl.ra, cl.dec = ra0, c.real('dec', -80, 80)
    cl.Lambda = lam0
    zb = Obj()
    cl.zredbkg = zb
    cp = cl.copy()
    c.prove('values', c.all([c.eq(cp.ra, cl.ra), c.eq(cp.dec, cl.dec), c.eq(cp.Lambda, cl.Lambda), c.eq(cp.redshift, z),
                             c.eq(cp.mpc_scale, cl.mpc_scale), c.eq(cp.mstar, cl.mstar)]))
    c.prove('same inputs', cp.zredstr is cl.zredstr and cp.config is cl.config and cp.bkg is cl.bkg and cp.cbkg is cl.cbkg and
            cp.zredbkg is zb and cp.r0 == cl.r0 and cp.beta == cl.beta)
    for f in ('refmag', 'dist', 'pfree', 'pmem', 'r'):
        c.prove('neighbours', c.eqs(getattr(cp.neighbors, f), getattr(cl.neighbors, f)))
    z2 = c.real('z2', 0.0625, 2)
    cp.redshift = z2
    cp.neighbors.pmem[:] = 0.0
    cp.neighbors.dist[:] = 7.0
    cp.ra = 5.0
    cp.Lambda = -1.0
    c.prove('original kept', c.all([c.eq(cl.redshift, z), c.eq(cl.mpc_scale, math.radians(1.) * (64 + 16 * z)),
            c.eqs(cl.neighbors.dist, d), c.eq(cl.ra, ra0), c.eq(cl.Lambda, lam0)]))
    c.cover('end')


PROPS = {
    'P03': dict(level='model_checking', functions=['cluster.Cluster.calc_richness', 'cluster.Cluster.calc_lambdacerr',
                'cluster.Cluster._calc_radial_profile', 'cluster.Cluster._calc_luminosity', 'cluster.Cluster.calc_bkg_density'],
                bounds='<= 2 galaxies, <= 2 mask points', assumptions=['the solver, red sequence, background and cosmology are replaced by stand-ins returning arbitrary values in their ranges'],
                instances=[('richness', dict(n=2, calc_err=False, covers=['none', 'found'])),
                           ('richness', dict(n=2, calc_err=False, idx=[1])),
                           ('richness', dict(n=1, calc_err=True, N=1, covers=['none', 'found'])),
                           ('cerr', dict(N=1, covers=['end'])), ('cerr', dict(N=2))]),
    'P04': dict(level='model_checking', functions=['cluster.Cluster.find_neighbors', 'cluster.Cluster.set_neighbors',
                'cluster.Cluster.redshift', 'cluster.Cluster._compute_neighbor_r', 'cluster.Cluster.copy'],
                bounds='<= 3 catalogue galaxies, <= 3 matches, two redshift changes',
                assumptions=['the spatial matcher and the cosmology are stand-ins returning arbitrary values'],
                instances=[('geometry', dict(n=2, m=2, perm=[1, 0], covers=['some', 'none'])),
                           ('geometry', dict(n=3, m=2, perm=[2, 0])), ('geometry', dict(n=2, m=0, covers=['none'])),
                           ('geometry', dict(n=1, m=1, neg=True, covers=['refused', 'taken'])),
                           ('copies', dict(n=2, covers=['end'])), ('geometry', dict(n=3, m=3, perm=[2, 0, 1]), 'thorough')]),
}
