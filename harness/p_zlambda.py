"""Cluster photometric redshifts (zlambda)."""
import math
from .common import Obj, Cosmo, ZStr, silent_logger
from .p_runner import GAL, dbl, XTRA

STEP = 1.0 / 64


def setup(c, n, pcol, r, refmag=None, maxiter=3, npz=5, z0=0.5, vol=None, lk=None, zlim=(0.0625, 1.0), **cfg):
    """a cluster of n galaxies whose richness measurement is a stand-in"""
    C, M = c.mod('cluster'), c.mod('zlambda')
    G = c.mod('galaxy').GalaxyCatalog
    names = [d[0] for d in C.cluster_dtype_base]
    dt = dbl(list(C.cluster_dtype_base) + [d for d in XTRA if d[0] not in names])
    conf = Obj(cosmo=Cosmo(), cluster_dtype=dt, lval_reference=0.25, zlambda_maxiter=maxiter, zlambda_tol=0.001, zlambda_topfrac=cfg.pop('topfrac', 0.7),
               zlambda_parab_step=STEP, percolation_minlambda=4.0, npzbins=npz, logger=silent_logger())
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=20.0)
    import numpy
    zs.refmagbins = numpy.arange(14.0, 20.0, 0.5)
    zs.z = numpy.array([zlim[0], 0.5, zlim[1], zlim[1] + 0.25])
    zs.volume_factor = c.np.array(vol if vol is not None else [1.0] * 4)
    zs.zindex = lambda z: (numpy.searchsorted(numpy.array([0.3, 0.5, 0.7]), numpy.array([float(x) for x in z])) if hasattr(z, '__len__')
                           else int(numpy.searchsorted(numpy.array([0.3, 0.5, 0.7]), float(z))))
    gv = dict(REFMAG=[17.0 + 0.25 * i for i in range(n)] if refmag is None else refmag, REFMAG_ERR=[0.125] * n, ID=[100 + i for i in range(n)],
              RA=[10.0] * n, DEC=[0.0] * n, MAG=[[20.0 + i, 21.0 + i] for i in range(n)], MAG_ERR=[[0.25, 0.5]] * n)
    cl = C.Cluster(config=conf, zredstr=zs, neighbors=G(c.rec(n, GAL, gv)), r0=1.0, beta=0.25)
    cl.ra, cl.dec, cl.Lambda = 10.0, 0.0, 33.0
    cl.redshift = z0
    cl.neighbors.dist = c.np.array([x / cl.mpc_scale for x in r])
    cl.redshift = z0
    st = Obj(k=0, log=[])

    def calc(self, mask, calc_err=True, index=None):
        k = st.k
        st.k += 1
        st.log.append((self.redshift, [int(i) for i in index] if index is not None else None))
        self.neighbors.pcol[:] = c.np.array(pcol(k))
        self.r_lambda = 1.0
        self.Lambda = st.lam(k)
        return st.lam(k)
    c.patch(C.Cluster, 'calc_richness', calc)

    def chisq(gals, z, calc_lkhd=False, **kw):
        assert calc_lkhd
        return c.np.array([lk(int(gals.id[i]) - 100, z, st.k - 1) for i in range(len(gals))])
    zs.calculate_chisq = chisq
    return cl, zs, st, M


def parabola(c):
    """one step of the fit: the vertex of the likelihood parabola, never further than the window"""
    n = 3
    l = c.reals('l', 10, -4, 4) if c.free else None
    t = c.real('t', 0.25, 0.75)
    a = c.real('a', 0.25, 4)
    zs = [0.5 + STEP * (i - 4.5) for i in range(10)]

    def lk(i, z, k):
        if c.free:
            j = min(range(10), key=lambda j: abs(zs[j] - float(z)))
            return l[j] if i == 0 else 0.0
        return -a * (z - t) * (z - t)
    cl, zst, st, M = setup(c, n, lambda k: [0.5, 0.5, 0.5], [0.1, 0.2, 0.3], maxiter=1, lk=lk)
    st.lam = lambda k: 20.0
    zl = M.Zlambda(cl)
    z, e = zl.calc_zlambda(0.5, None, calc_err=False)
    lo, hi = zs[0] - STEP, zs[-1] + STEP
    if c.free:
        c.prove('bounded step', c.all([c.le(lo, z), c.le(z, hi)]))
    else:
        want = c.np.minimum(c.np.maximum(t, lo), hi)
        c.prove('vertex', c.eq(z, want))
    c.cover('end')


def select(c):
    """which galaxies enter the fit and with which weight"""
    n = c.n
    w = c.reals('w', n, 0, 1)
    # no rounding ambiguity of the effective count
    r = ([0.1, 0.2, 0.3, 0.4, 0.5] if c.params.get('near') else [0.1, 0.2, 1.5, 2.0])[:n] if not c.cut else c.reals('r', n, 0.125, 2)
    mag = c.reals('mag', n, 16, 22) if c.cut else [17.0] * n
    s = [c.real('s%d' % i, -2, 2) for i in range(n)]
    # galaxy i alone contributes s_i * z: the fitted slope reveals the weights

    def lk(i, z, k):
        return s[i] * z if not isinstance(z, str) else 0
    cl, zst, st, M = setup(c, n, lambda k: list(w), r, refmag=mag, maxiter=1, lk=lk, topfrac=0.75)
    st.lam = lambda k: 20.0
    zl = M.Zlambda(cl)
    zl.cluster.neighbors.pcol[:] = c.np.array(list(w))
    maxrad, maxmag = 1.2 * 3.**0.25, 18.0 - 2.5 * math.log10(0.25)
    zl._zlambda_select_neighbors(zl.cluster.neighbors.pcol, maxrad, maxmag)
    ok = [i for i in range(n) if bool(r[i] < maxrad) and bool(mag[i] < maxmag) and bool(w[i] > 0)]
    c.prove('too few galaxies', bool(zl.zlambda_fail) == (len(ok) < 3))
    if len(ok) < 3:
        c.cover('few')
        return
    tot = sum(w)
    x = 0.75 * tot
    c.assume(*[c.any([x < q + 0.4, x > q + 0.6]) for q in range(n)])
    cnt = 3
    for q in range(3, n):
        if bool(x >= q + 0.5):
            cnt = q + 1
    cnt = min(cnt, len(ok))
    srt = sorted(ok, key=_Key(w))
    th = w[srt[-cnt]]
    used = [int(i) for i in zl._zlambda_in_rad]
    c.prove('subset', set(used) <= set(ok) and len(set(used)) == len(used))
    for i in ok:
        e = c.np.exp((th - w[i]) / 0.04)
        if i in used:
            q = used.index(i)
            c.prove('weight', c.eq(zl._zlambda_pw[q] * (1 + e), 1.0))
        else:
            c.prove('left out have no weight', c.le(1.0 - 1e-3, 1e-3 * e))
    z = 0.25
    c.prove('likelihood', c.eq(zl._bracket_fn(z), -sum(zl._zlambda_pw[q] * s[i] * z for q, i in enumerate(used))))
    c.cover('end')


class _Key(object):
    def __init__(self, w):
        self.w = w

    def __call__(self, i):
        return _Cmp(self.w[i])


class _Cmp(object):
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def flow(c):
    """iteration to consistency; failures; nothing of the input cluster changes unless recorded"""
    n = 3
    K = c.K
    lams = c.reals('lam', K, 1, 60)
    jump = [c.index('j%d' % k, 0, 2) for k in range(K)]
    few = c.index('few', 0, K)
    st0 = Obj(t=None)
    tgt = []

    def lk(i, z, k):
        return -4.0 * (float(z) - tgt[k])**2

    def pcol(k):
        return [0.5, 0.5, 0.0 if k == few else 0.5]
    z0 = 0.25 if c.far else 0.5
    cl, zst, st, M = setup(c, n, pcol, [0.1, 0.2, 4.0 if c.far else 0.3], maxiter=K, lk=lk, z0=0.5)
    st.lam = lambda k: lams[k]
    inner = st.lam
    zin = 0.5

    def lam(k):
        if len(tgt) == k:
            tgt.append(float(st.log[k][0]) + [0.0, 0.0625, -0.03125][jump[k]])
        return inner(k)
    st.lam = lam
    mz = {}

    def minimize(fn, bracket=None, method=None, bounds=None, options=None):
        lo, hi = float(bounds[0]), float(bounds[1])
        u = c.real('min%d' % len(mz), 0, 1)
        x = lo + (hi - lo) * u
        mz[len(mz)] = x
        return Obj(x=x)
    c.patch(M.scipy.optimize, 'minimize_scalar', minimize)
    before = [cl.ra, cl.redshift, cl.Lambda, cl.mpc_scale] + list(cl.neighbors.pcol) + list(cl.neighbors.r)
    zl = M.Zlambda(cl)
    z, e = zl.calc_zlambda(zin, None, calc_err=c.err, record_values=c.record)
    # expected history
    cur, fail, used = zin, False, 0
    for k in range(K):
        used = k + 1
        if bool(lams[k] < 4.0) or k == few or c.far:
            fail = True
            break
        new = cur + [0.0, 0.0625, -0.03125][jump[k]]
        if k > 0 and abs(new - cur) < 0.001:
            break
        cur = new
    c.prove('measured at the current redshift', st.k == used and len(st.log) == used)
    c.prove('galaxies within the maximum radius', all(x[1] == ([0, 1] if c.far else [0, 1, 2]) for x in st.log))
    if fail:
        c.prove('no valid redshift', c.all([c.eq(z, -1.0), c.eq(e, -1.0)]))
        c.cover('fail')
    else:
        c.prove('self-consistent redshift', c.eq(z, cur, 1e-5))
        if c.err:
            c.prove('error', c.eq(e, (mz[1] - mz[0]) / 2.0 if len(mz) == 2 else -5.0, 1e-5) & c.lt(0.0, e))
        c.cover('end')
    c.prove('own values', all(hasattr(zl, k) for k in ('z_lambda', 'z_lambda_err')) and c.all([c.eq(zl.z_lambda, z), c.eq(zl.z_lambda_err, e)]))
    c.prove('recorded', c.eq(cl.z_lambda, z if c.record else 0.0))
    after = [cl.ra, cl.redshift, cl.Lambda, cl.mpc_scale] + list(cl.neighbors.pcol) + list(cl.neighbors.r)
    c.prove('input cluster untouched', c.eqs(before, after))


def limit(c):
    """the magnitude limit a caller gives is the one used"""
    import numpy
    n = 4
    mag = c.reals('mag', n, 16, 22)
    mx = c.index('mx', 16, 21)
    given = c.given
    c.assume(*[c.any([m < x - 0.01, m > x + 0.01]) for m in mag for x in ([float(mx)] if given else [18.0 - 2.5 * math.log10(0.25)])])
    cl, zst, st, M = setup(c, n, lambda k: [0.5] * n, [0.1, 0.2, 0.3, 0.4], refmag=mag, maxiter=1, lk=lambda i, z, k: -(float(z) - 0.5)**2)
    st.lam = lambda k: 20.0
    zl = M.Zlambda(cl)
    z, e = zl.calc_zlambda(0.5, None, maxmag_in=numpy.array(float(mx)) if given else None, calc_err=False)
    lim = float(mx) if given else 18.0 - 2.5 * math.log10(0.25)
    nn = sum(1 for m in mag if bool(m < lim))
    c.prove('enough galaxies inside the limit', c.eq(z, 0.5 if nn >= 3 else -1.0, 1e-5))
    c.cover('ok' if nn >= 3 else 'few')


def pz(c):
    """p(z): bins through z_lambda, proportional to likelihood times volume, unit integral, wide enough, peak is the redshift"""
    n = 3
    npz = c.npz
    sig = [0.01, 0.04, 0.1][c.index('sig', 0, 2)] if c.wide else 0.02
    off = [0.0, 0.02, -0.02][c.index('off', 0, 2)] if not c.wide else 0.0
    vol = [1.0] * 4 if c.wide else c.reals('vol', 4, 0.5, 2)
    zin = [0.1, 0.5, 0.95][c.index('zin', 0, 2)] if c.wide else 0.5
    lop = c.flag('lop') if c.wide else False
    s2 = sig * 8 if lop else sig

    def val(z):
        z = float(z)
        s = s2 if z > zin else sig
        return -(z - zin)**2 / (2 * s * s)

    def lk(i, z, k):
        return val(z) / (3 * 0.5)
    cl, zst, st, M = setup(c, n, lambda k: [0.5, 0.5, 0.5], [0.1, 0.2, 0.3], maxiter=1, npz=npz, vol=vol, lk=lk)
    cl.redshift = zin
    st.lam = lambda k: 20.0
    fits = []
    import scipy.optimize
    real = scipy.optimize.minimize_scalar

    def minimize(fn, bracket=None, method=None, bounds=None, options=None):
        return Obj(x=float(real(lambda z: float(fn(z)), bounds=(float(bounds[0]), float(bounds[1])), method='bounded').x))

    def curve(fn, x, y, p0=None):
        fits.append(1)
        f = c.flag('fit%d' % len(fits))
        if f:
            raise RuntimeError('no fit')
        return [p0[0], p0[1], c.real('w%d' % len(fits), -0.125, 0.25)], None
    c.patch(M.scipy.optimize, 'minimize_scalar', minimize)
    c.patch(M.scipy.optimize, 'curve_fit', curve)
    zl = M.Zlambda(cl)
    zl._zlambda_calcz = lambda z: z + off if st.k == 1 else z
    z, e = zl.calc_zlambda(zin, None, calc_err=True, calcpz=True)
    b = [float(x) for x in zl.pzbins]
    p = list(zl.pz)
    c.prove('shape', len(b) == npz and len(p) == npz)
    h = (b[-1] - b[0]) / (npz - 1)
    c.prove('even bins', h > 0 and all(abs(b[i + 1] - b[i] - h) < 1e-9 for i in range(npz - 1)))
    c.prove('peak bin is the redshift', c.any([c.all([c.eq(z, b[i], 0.0011)] + [c.le(p[j], p[i]) for j in range(npz)]) for i in range(npz)]))
    c.prove('positive error', c.lt(0.0, e))
    import numpy
    ix = numpy.searchsorted(numpy.array([0.3, 0.5, 0.7]), numpy.array(b))
    un = [vol[ix[i]] * math.exp(val(b[i])) for i in range(npz)]
    k0 = max(range(npz), key=lambda i: val(b[i]))
    for i in range(npz):
        c.prove('likelihood times volume', c.eq(p[i] * un[k0], p[k0] * un[i], 1e-5))
        c.prove('non-negative', p[i] >= 0)
    tot = sum(h / 3.0 * (p[i] + 4 * p[i + 1] + p[i + 2]) for i in range(0, npz - 2, 2))
    c.prove('unit integral', c.eq(tot, 1.0, 1e-5))
    if c.wide:
        lim = 0.0101
        c.prove('wide enough below', math.exp(val(b[0] - h)) < lim or b[0] < 0.0625 + 0.01 + h)
        c.prove('wide enough above', math.exp(val(b[-1] + h)) < lim or b[-1] > 1.0 - 0.01 - h)
    c.cover('end')


def corr(c):
    """the correction shifts by the interpolated offset, widens the error in quadrature and stretches p(z) accordingly"""
    import numpy
    M = c.mod('zlambda')
    nb, K = 3, c.niter
    npz = c.npz
    zc = M.ZlambdaCorrectionPar.__new__(M.ZlambdaCorrectionPar)
    zc.niter, zc.zlambda_pivot = K, 30.0
    zc.z = numpy.array([0.25, 0.5, 0.75])
    zc.offset, zc.slope, zc.scatter = c.reals('of', (K, nb), -0.125, 0.125), c.reals('sl', (K, nb), -0.125, 0.125), c.reals('sc', (K, nb), 0.001, 0.25)
    lam = c.real('lam', 5, 200)
    z0, e0 = c.real('z', 0.125, 0.875), c.real('e', 0.005, 0.25)
    args = {}
    zc0 = [zc.offset.copy(), zc.slope.copy(), zc.scatter.copy()]
    if npz:
        h = c.real('h', 0.01, 0.125)
        d = c.real('d', -0.01, 0.01)
        pv = c.reals('p', npz, 0.0625, 4)
        args = dict(pzbins=c.np.array([z0 + d + h * (i - (npz - 1) / 2.0) for i in range(npz)]), pzvals=c.np.array(list(pv)))
    out = zc.apply_correction(lam, z0, e0, **args)
    z, e = z0, e0
    ll = c.np.log(lam / 30.0)
    wid = 1.0
    for k in range(K):
        y = [zc0[0][k, i] + zc0[1][k, i] * ll for i in range(nb)]
        dz, sc = lin(zc.z, y, z), lin(zc.z, [zc0[2][k, i] for i in range(nb)], z)
        z = z + dz
        ne = c.np.sqrt(e * e + sc * sc)
        wid = wid * ne / e
        e = ne
    c.prove('redshift', c.eq(out[0], z))
    c.prove('error', c.eq(out[1] * out[1], e * e) & c.le(e0, out[1]))
    c.prove('returned', len(out) == (4 if npz else 2))
    if npz:
        b, p = list(out[2]), list(out[3])
        m = (npz - 1) // 2
        c.prove('centred', c.eq(b[m], z + d))
        c.prove('stretched', c.all([c.eq(b[i + 1] - b[i], h * wid) for i in range(npz - 1)]))
        c.prove('shape kept', c.all([c.eq(p[i] * pv[0], p[0] * pv[i]) for i in range(npz)]))
        H = h * wid
        c.prove('unit integral', c.eq(sum(H / 3.0 * (p[i] + 4 * p[i + 1] + p[i + 2]) for i in range(0, npz - 2, 2)), 1.0))
    c.cover('end')


def lin(xs, ys, x):
    if bool(x <= xs[0]):
        return ys[0]
    for i in range(len(xs) - 1):
        if bool(x <= xs[i + 1]):
            return ys[i] + (ys[i + 1] - ys[i]) * ((x - float(xs[i])) / float(xs[i + 1] - xs[i]))
    return ys[-1]


def corrpar(c):
    """the correction tables pass through the fitted nodes; the scatter has a floor"""
    import numpy
    M, E = c.mod('zlambda'), c.mod('catalog').Entry
    K = c.niter
    oz, sz = numpy.array([0.25, 0.5, 0.75]), numpy.array([0.25, 0.75])
    sh = (lambda n: (n,) if K == 1 else (n, K))
    ot, st, sc, zr = c.reals('ot', sh(3) if K > 1 else 3, -0.125, 0.125), c.reals('st', sh(2) if K > 1 else 2, -1, 1), \
        c.reals('sc', sh(2) if K > 1 else 2, -0.125, 0.125), c.reals('zr', 3, 0, 1)
    par = Obj(offset_z=oz, slope_z=sz, offset_true=ot, slope_true=st, scatter_true=sc, zred_uncorr=zr, niter_true=K)
    for miss in ('zrange', 'zbinsize', 'zlambda_pivot'):
        kw = dict(zrange=[0.125, 0.875], zbinsize=0.125, zlambda_pivot=30.0)
        del kw[miss]
        c.prove('refused', c.raises(lambda: M.ZlambdaCorrectionPar(pars=par, **kw), ValueError) is not None)
    full = dict(zrange=[0.125, 0.875], zbinsize=0.125, zlambda_pivot=30.0)
    if c.params.get('file'):
        # each setting comes from the call or else from the file
        given = {k: v for k, v in full.items() if c.flag('given_' + k)}
        hdr = dict(ZRANGE0=0.125, ZRANGE1=0.875, ZBINSIZE=0.125, ZLAMPIV=30.0)
        for k, h in (('zrange', ('ZRANGE0', 'ZRANGE1')), ('zbinsize', ('ZBINSIZE',)), ('zlambda_pivot', ('ZLAMPIV',))):
            if k in given:
                for q in h:
                    hdr[q] = 0.0625
        there = c.flag('there')
        c.patch(M.os.path, 'isfile', lambda f: f == '/nonexistent/zl.fit' and there)
        c.patch(M.fitsio, 'read_header', lambda f, ext=1: hdr)
        c.patch(M.Entry, 'from_fits_file', classmethod(lambda cls, f, **k: par))
        c.prove('something must be given', c.raises(lambda: M.ZlambdaCorrectionPar(**full), RuntimeError) is not None)
        if not there:
            c.prove('missing file', c.raises(lambda: M.ZlambdaCorrectionPar('/nonexistent/zl.fit', **given), IOError) is not None)
            c.cover('missing')
            return
        z = M.ZlambdaCorrectionPar('/nonexistent/zl.fit', **given)
    else:
        z = M.ZlambdaCorrectionPar(pars=par, **full)
    c.prove('settings', c.all([c.eq(z.zlambda_pivot, 30.0), c.eq(z.zbinsize, 0.125), c.eq(z.zrange[0], 0.125), c.eq(z.zrange[1], 0.875)]))
    c.prove('grid', len(z.z) == 6 and all(abs(float(z.z[i]) - 0.125 * (i + 1)) < 1e-9 for i in range(6)))
    c.prove('extrapolated', [bool(x) for x in z.extrapolated] == [True] + [False] * 5)
    g = (lambda a, i, k: a[i] if K == 1 else a[i, k])
    for k in range(K):
        c.prove('offset nodes', c.all([c.eq(z.offset[k, 1 + 2 * i], g(ot, i, k)) for i in range(3) if 1 + 2 * i < 6]))
        c.prove('slope nodes', c.all([c.eq(z.slope[k, 1 + 4 * i], g(st, i, k)) for i in range(2)]))
        c.prove('scatter nodes', c.all([c.eq(z.scatter[k, 1 + 4 * i], c.np.maximum(g(sc, i, k), 0.001)) for i in range(2)] + [c.le(0.001, z.scatter[k, i]) for i in range(6)]))
    c.prove('uncorrected zred', c.all([c.eq(z.zred_uncorr[1 + 2 * i], zr[i]) for i in range(3)]))
    c.cover('end')


PROPS = {
    'P12': dict(level='model_checking',
                functions=['zlambda.Zlambda.calc_zlambda', 'zlambda.Zlambda._zlambda_select_neighbors', 'zlambda.Zlambda._zlambda_calc_gaussian_err', 'zlambda.Zlambda._zlambda_calc_pz_and_check',
                           'zlambda.Zlambda._zlambda_calc_pz', 'zlambda.ZlambdaCorrectionPar.apply_correction', 'zlambda.ZlambdaCorrectionPar.__init__'],
                bounds='<= 4 galaxies, <= 3 iterations, <= 5 p(z) bins, straight correction curves',
                assumptions=['chi-squared, richness and the one-dimensional minimiser are stand-ins returning arbitrary values'],
                instances=[('parabola', dict(free=False)), ('parabola', dict(free=True)), ('select', dict(n=4, cut=False)), ('select', dict(n=3, cut=True)), ('select', dict(n=4, cut=False, near=True)),
                           ('flow', dict(K=2, far=False, err=True, record=True)), ('flow', dict(K=3, far=False, err=False, record=False)), ('flow', dict(K=2, far=True, err=False, record=True)),
                           ('limit', dict(given=False)), ('limit', dict(given=True, covers=['few', 'ok'])), ('pz', dict(npz=5, wide=False)), ('pz', dict(npz=5, wide=True, covers=['end'])),
                           ('corr', dict(niter=1, npz=0)), ('corr', dict(niter=2, npz=0)), ('corr', dict(niter=1, npz=3)), ('corrpar', dict(niter=1, file=True, covers=['missing', 'end'])), ('corrpar', dict(niter=1)), ('corrpar', dict(niter=2))]),
}
