"""Central galaxy selection (P09)."""
from harness.common import Obj, Cosmo, ZStr, silent_logger
import math
import numpy

GAL = [('RA', 'f8'), ('DEC', 'f8'), ('REFMAG', 'f8'), ('REFMAG_ERR', 'f8'), ('ZRED', 'f8'), ('ZRED_E', 'f8'), ('ZRED_CHISQ', 'f8'),
       ('CHISQ', 'f8'), ('ZSPEC', 'f8'), ('ZSPEC_ERR', 'f8'), ('ID', 'i8')]
Z = 0.5
SC = math.radians(1.) * Cosmo().Da(0, Z)
CFG = dict(wcen_zred_chisq_max=20.0, wcen_Delta0=-1.0, wcen_Delta1=-0.25, wcen_pivot=30.0, wcen_sigma_m=0.5, wcen_rsoft=0.05, wcen_maxlambda=100.0,
           lnw_cen_sigma=0.25, lnw_cen_mean=0.25, lnw_sat_sigma=0.5, lnw_sat_mean=0.0, lnw_fg_sigma=0.5, lnw_fg_mean=-0.25, lval_reference=0.25,
           percolation_pbcg_cut=0.25)


def gauss(x, mu, s):
    return math.exp(-(x - mu)**2 / (2 * s * s)) / (math.sqrt(2 * math.pi) * s)


class Matcher(object):
    """all pairs within the radius, small separations, plane geometry"""
    def __init__(self, depth, ra, dec):
        self.ra, self.dec = [float(x) for x in ra], [float(x) for x in dec]

    def match(self, ra, dec, radius, maxmatch=1):
        import numpy
        a, b, d = [], [], []
        for i in range(len(ra)):
            for j in range(len(self.ra)):
                s = math.hypot((float(ra[i]) - self.ra[j]) * math.cos(math.radians(float(dec[i]))), float(dec[i]) - self.dec[j])
                if s < float(radius):
                    a.append(i)
                    b.append(j)
                    d.append(s)
        return numpy.array(a, dtype=int), numpy.array(b, dtype=int), numpy.array(d)


def cluster(c, n, pos, mag, maxcen, zred=None, bk=None, zerr=None, **cfg):
    C = c.mod('cluster')
    G = c.mod('galaxy').GalaxyCatalog
    config = Obj(cosmo=Cosmo(), cluster_dtype=[(a, 'f8' if t == 'f4' else t) for a, t in C.cluster_dtype_base], percolation_maxcen=maxcen,
                 centering_use_zspec=cfg.pop('zspec', False), wcen_uselum=cfg.pop('lum', False), **CFG)
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=20.0)
    zs.lumnorm = c.np.array([[1.0, 1.0], [1.0, 1.0], [1.0, 2.0]])
    g = G(c.rec(n, GAL, dict(REFMAG=mag, REFMAG_ERR=[0.125] * n, ID=[100 + i for i in range(n)], RA=[10.0 + x for x in pos], DEC=[0.0] * n,
                             ZRED=[Z] * n if zred is None else zred, ZRED_E=[0.03125] * n if zerr is None else zerr)))
    cl = C.Cluster(config=config, zredstr=zs, neighbors=g, r0=1.0, beta=0.25)
    if bk is not None:
        cl.zredbkg = Obj(sigma_g_lookup=lambda z, m: bk(z, m))
    cl.ra, cl.dec = 10.0, 0.0
    cl.redshift = Z
    cl.neighbors.dist = c.np.array([abs(x) for x in pos])
    cl._compute_neighbor_r()
    return cl


def wcen(c):
    """candidate selection, centre probabilities and their normalisation"""
    M = c.mod('centering')
    import esutil
    n, maxcen = c.n, c.maxcen
    pos = [0.0, 0.2, 0.35, 0.5][:n]
    mag = ([14.25, 14.375, 14.3125] if c.params.get('pure') else [16.5, 17.0, 16.75, 17.25])[:n]
    rl = 0.3 * SC if c.cut else SC
    far = [c.flag('far%d' % i) if c.cut else False for i in range(n)]
    zerr = [0.03125, 0.0625, 0.046875][:n]
    zred = [Z + (6 * e if f else e) for f, e in zip(far, zerr)]
    b = [0.0] * n if c.params.get('pure') else c.reals('b', n, 0.0625, 16) if not c.params.get('fixed') else [0.5, 2.0, 1.0][:n]

    def bk(z, m):
        k = [[k for k in range(n) if mag[k] == float(x)][0] for x in m]
        c.prove('background at the redshift of the galaxy', all(abs(float(z[a]) - zred[i]) < 1e-9 for a, i in enumerate(k)))
        return c.np.array([b[i] for i in k])
    cl = cluster(c, n, pos, mag, maxcen, zred=zred, zerr=zerr, lum=c.lum, bk=bk)
    nb = cl.neighbors
    pf = c.reals('pf', n, 0, 1)
    chi = c.reals('chi', n, 0, 40) if c.cut else [1.0] * n
    pm = [(1.0 if c.flag('m%d' % i) else 0.0) if c.cut else 0.5 for i in range(n)]
    p = [0.75, 0.5, 0.875, 0.25][:n]
    for i in range(n):
        nb.pfree[i], nb.zred_chisq[i], nb.pmem[i], nb.p[i] = pf[i], chi[i], pm[i], p[i]
    lam, sv = 20.0, 1.25
    cl.Lambda, cl.scaleval, cl.r_lambda = lam, sv, rl
    c.patch(esutil.htm, 'Matcher', Matcher)
    elig = [i for i in range(n) if pos[i] * SC < rl and bool(pf[i] >= 0.25) and bool(chi[i] < 20.0) and (pm[i] > 0 or not far[i])]
    zc = Z
    kw = {}
    if c.params.get('corr'):
        # red galaxies at this redshift have biased zred
        zc = Z + 0.015625
        kw = dict(zlambda_corr=Obj(z=numpy.array([Z - 0.25, Z + 0.25]), zred_uncorr=numpy.array([zc - 0.125, zc + 0.125])))
    cen = M.CenteringWcenZred(cl, **kw)
    ok = cen.find_center()
    if not elig:
        c.prove('no candidate, no centre', (not ok) or cen.ngood == 0)
        c.cover('none')
        return
    mstar = 16 + 4 * Z
    ssc = math.sqrt(lam / sv / 30.0)
    U, S, B = {}, {}, {}
    for i in elig:
        near = [j for j in range(n) if j != i and abs(pos[i] - pos[j]) * SC < 1.1 * rl]
        pd = {j: math.hypot(abs(pos[i] - pos[j]) * SC, 0.05) for j in near}
        near = [j for j in near if pd[j] < rl]
        L = {j: 10.**((mstar - mag[j]) / 2.5) if c.lum else 1.0 for j in near}
        w = math.log(sum(p[j] * L[j] / pd[j] for j in near) / (sum(p[j] * L[j] for j in near) / rl)) if near else 1e-3
        lw = math.log(w) if w > 0 else float('nan')
        gz = gauss(zred[i], zc, zerr[i])
        U[i] = gauss(mag[i], mstar - 1.0 - 0.25 * math.log(lam / 30.0), 0.5) * gz * gauss(lw, 0.25, 0.25 / ssc)
        dm = 0.4 * (mstar - mag[i])
        S[i] = 10.**(dm * 0.0) * math.exp(-10.**dm) / 2.0 * gz * gauss(lw, 0.0, 0.5 / ssc)
        U[i] = 0.0 if U[i] < 1e-10 else U[i]
        S[i] = 0.0 if S[i] < 1e-10 else S[i]
        B[i] = gauss(lw, -0.25, 0.5 / ssc) * b[i] / SC**2 * math.pi * rl**2
    pc = {i: c.np.minimum(pf[i] * U[i] / (U[i] + (lam / sv - 1) * S[i] + B[i]), 0.99999) for i in elig}
    pos_ok = [i for i in elig if U[i] > 0]
    if not pos_ok:
        c.prove('no likely centre: nearest, no probability', bool(ok) and int(cen.maxind) == min(elig, key=lambda i: pos[i]) and cen.ngood == 0 and
                all(float(x) == 0 for x in cen.p_cen))
        c.cover('unlikely')
        return
    ng = min(len(pos_ok), maxcen)
    c.prove('candidates counted', bool(ok) and cen.ngood == ng)
    idx = [int(x) for x in cen.index]
    c.prove('candidates distinct and eligible', len(set(idx[:ng])) == ng and all(i in pos_ok for i in idx[:ng]) and all(i == -1 for i in idx[ng:]))
    c.prove('best is first', int(cen.maxind) == idx[0])
    g = idx[:ng]
    for a, i in enumerate(g):
        c.prove('centre likelihood', c.eq(cen.p_c[a], pc[i], 1e-5))
        c.prove('position', c.all([c.eq(cen.ra[a], 10.0 + pos[i]), c.eq(cen.dec[a], 0.0)]))
    for a in range(ng - 1):
        c.prove('decreasing', c.le(cen.p_c[a + 1], cen.p_c[a]))
    for i in pos_ok:
        if i not in g:
            c.prove('left out are less likely', c.le(pc[i], cen.p_c[ng - 1], 1e-5))
    un = []
    for a in range(ng):
        t = cen.p_c[a]
        for q in range(ng):
            if q != a:
                t = t * (1 - cen.p_c[q])
        un.append(t)
    miss = 1
    for q in range(ng):
        miss = miss * (1 - cen.p_c[q])
    tot = sum(un)
    for a in range(ng):
        c.prove('probability', c.eq(cen.p_cen[a] * tot, un[a], 1e-5))
        c.prove('probability with a miss', c.eq(cen.q_cen[a] * (tot + miss), un[a], 1e-5))
        c.prove('range', c.all([c.le(0.0, cen.p_cen[a]), c.le(cen.p_cen[a], 1.0)]))
    c.prove('probabilities add up to one', c.eq(sum(cen.p_cen[a] for a in range(ng)), 1.0))
    for a, i in enumerate(g):
        den = (lam - 1) * S[i] + B[i]
        if c.params.get('pure'):
            continue
        c.prove('satellite or foreground', c.eq(cen.p_sat[a] + cen.p_fg[a], 1 - cen.p_cen[a], 1e-5))
        c.prove('foreground', c.eq(cen.p_fg[a] * den, (1 - cen.p_cen[a]) * B[i], 1e-5))
    for a in range(ng, maxcen):
        c.prove('empty slots', c.all([c.eq(x[a], 0.0) for x in (cen.p_cen, cen.q_cen, cen.p_fg, cen.p_sat, cen.p_c)]))
    c.cover('end')


def zspec(c):
    """spectroscopic redshifts replace photometric ones for the centring only"""
    M = c.mod('centering')
    import esutil
    n = 2
    pos, mag = [0.0, 0.2], [16.5, 17.0]
    zs = c.reals('zs', n, -1, 1)
    cl = cluster(c, n, pos, mag, 2, zred=[0.75, 0.5], zspec=True, bk=lambda z, m: c.np.zeros(len(m)) + 1.0)
    nb = cl.neighbors
    for i in range(n):
        nb.pfree[i], nb.pmem[i], nb.p[i], nb.zspec[i], nb.zspec_err[i] = 1.0, 0.0, 0.5, zs[i], 0.0625
        nb.zred_chisq[i] = [50.0, 1.0][i]
    cl.Lambda, cl.scaleval, cl.r_lambda = 20.0, 1.0, SC
    c.patch(esutil.htm, 'Matcher', Matcher)
    if c.which == 'bcg':
        cen = M.CenteringBCG(cl)
        ok = cen.find_center()

        def near(i):
            z, e = (zs[i], 0.0625) if bool(zs[i] > 0) else ([0.75, 0.5][i], 0.03125)
            d = 0.5 - z
            return bool(d < 2 * e) and bool(d > -2 * e)
    else:
        cen = M.CenteringWcenZred(cl)

        def near(i):
            sp = bool(zs[i] > 0)
            z, e = (zs[i], 0.0625) if sp else ([0.75, 0.5][i], 0.03125)
            d = 0.5 - z
            return bool(d < 5 * e) and bool(d > -5 * e) and (sp or i == 1)
        # the likelihood values are not the subject here
        c.assume(*[c.any([x <= 0, c.all([x > 0.25, x < 0.75])]) for x in zs])
        ok = cen.find_center()
    el = [i for i in range(n) if near(i)]
    if not el:
        c.prove('no candidate, no centre', (not ok) or cen.ngood == 0)
    else:
        c.prove('eligible centre', bool(ok) and int(cen.maxind) in el)
        if c.which == 'bcg':
            c.prove('brightest', int(cen.maxind) == el[0] and c.eq(cen.ra[0], 10.0 + pos[el[0]]))
    c.prove('galaxies unchanged', c.all([c.eq(nb.zred[0], 0.75), c.eq(nb.zred[1], 0.5), c.eq(nb.zred_e[0], 0.03125), c.eq(nb.zred_e[1], 0.03125),
                                         c.eq(nb.zred_chisq[0], 50.0), c.eq(nb.zred_chisq[1], 1.0)]))
    c.cover('end')


def bcg(c):
    """brightest eligible galaxy"""
    M = c.mod('centering')
    n = c.n
    pos = [0.0, 0.2, 0.35][:n]
    mag = c.reals('mag', n, 14, 20)
    z = c.reals('z', n, 0.25, 0.75)
    pm = c.reals('pm', n, 0, 1)
    cl = cluster(c, n, pos, mag, 2, zred=z)
    for i in range(n):
        cl.neighbors.pmem[i] = pm[i]
    cl.r_lambda = rl = 0.3 * SC
    cen = M.CenteringBCG(cl)
    ok = cen.find_center()
    el = [i for i in range(n) if pos[i] * SC < rl and (bool(pm[i] > 0.8) or (bool(z[i] - Z < 0.0625) and bool(Z - z[i] < 0.0625)))]
    c.prove('found when there is a candidate', bool(ok) == bool(el))
    if not el:
        c.cover('none')
        return
    k = int(cen.maxind)
    c.prove('eligible', k in el)
    c.prove('brightest', c.all([mag[k] <= mag[i] for i in el]))
    c.prove('stored', c.all([c.eq(cen.ra[0], 10.0 + pos[k]), c.eq(cen.dec[0], 0.0), c.eq(cen.p_cen[0], 1.0), c.eq(cen.q_cen[0], 1.0), c.eq(cen.p_sat[0], 0.0)]) and
            cen.ngood == 1 and int(cen.index[0]) == k)
    c.cover('end')


def certain(c, cen):
    c.prove('a certain centre', c.all([c.eq(x[0], 1.0) for x in (cen.p_cen, cen.q_cen, cen.p_c)] + [c.eq(x[0], 0.0) for x in (cen.p_sat, cen.p_fg)] +
                                      [c.eq(x[a], 0.0) for x in (cen.p_cen, cen.q_cen, cen.p_c, cen.p_sat, cen.p_fg) for a in range(1, len(x))]))


def satellite(c):
    """random satellite: always a galaxy with membership"""
    M = c.mod('centering')
    n = c.n
    cl = cluster(c, n, [0.0, 0.2, 0.35][:n], [16.5, 17.0, 17.5][:n], 2)
    pm = c.reals('pm', n, 0, 1)
    c.assume(sum(pm) > 0.125)
    for i in range(n):
        cl.neighbors.pmem[i] = pm[i]
    cl.r_lambda = SC
    c.randomize(u=[c.real('u', 0, 0.9990234375)])
    cen = M.CenteringRandomSatellite(cl)
    ok = cen.find_center()
    k = int(cen.maxind)
    c.prove('member', bool(ok) and cen.ngood == 1 and int(cen.index[0]) == k)
    c.prove('has membership', pm[k] > 0)
    c.prove('position', c.eq(cen.ra[0], 10.0 + [0.0, 0.2, 0.35][k]))
    certain(c, cen)
    c.prove('galaxies unchanged', c.eqs(list(cl.neighbors.pmem), list(pm)))
    c.cover('end')


def random(c):
    """random position: within the cluster radius"""
    M = c.mod('centering')
    cl = cluster(c, 1, [0.0], [16.5], 2)
    cl.r_lambda = rl = c.real('rl', 0.25, 2)
    cl.dec = 60.0
    u = c.reals('u', 2, 0, 0.9990234375)
    c.randomize(u=u)
    cen = M.CenteringRandom(cl)
    ok = cen.find_center()
    x = (cen.ra[0] - 10.0) * math.cos(math.radians(60.0)) * SC
    y = (cen.dec[0] - 60.0) * SC
    r2 = x * x + y * y
    c.prove('within the radius', c.le(r2, rl * rl))
    c.prove('uniform in area', c.any([c.eq(r2, rl * rl * u[0], 1e-5), c.eq(r2, rl * rl * u[1], 1e-5)]))
    certain(c, cen)
    c.prove('not a galaxy', bool(ok) and int(cen.index[0]) == -1 and cen.ngood == 1 and int(cen.maxind) == -1)
    c.cover('end')


PROPS = {
    'P09': dict(level='model_checking',
                functions=['centering.CenteringWcenZred.find_center', 'centering.CenteringBCG.find_center', 'centering.CenteringRandom.find_center',
                           'centering.CenteringRandomSatellite.find_center'],
                bounds='<= 3 candidate galaxies at fixed positions and magnitudes (free probabilities, backgrounds, goodness of fit, memberships symbolic)',
                assumptions=['position matching is a stand-in (all pairs within the radius)'],
                instances=[('wcen', dict(n=2, maxcen=2, cut=False, lum=False, covers=['end'])), ('wcen', dict(n=3, maxcen=2, cut=False, lum=False, fixed=True)), ('wcen', dict(n=3, maxcen=2, cut=False, lum=False), 'thorough'),
                           ('wcen', dict(n=2, maxcen=3, cut=False, lum=True)), ('wcen', dict(n=2, maxcen=2, cut=False, lum=False, corr=True, covers=['end'])), ('wcen', dict(n=2, maxcen=2, cut=False, lum=False, pure=True, covers=['end'])),
                           ('wcen', dict(n=2, maxcen=3, cut=True, lum=False, covers=['end', 'none'])),
                           ('zspec', dict(which='bcg')), ('zspec', dict(which='wcen')),
                           ('bcg', dict(n=2, covers=['end', 'none'])), ('bcg', dict(n=3)), ('satellite', dict(n=2, covers=['end'])), ('satellite', dict(n=3)),
                           ('random', dict(covers=['end']))]),
}
