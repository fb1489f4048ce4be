"""Membership filters and the mask correction (P05)."""
from harness.common import Obj, Cosmo
import math


def theta(c):
    """smooth faint cut: what theta_i is for every magnitude, error and limit"""
    U = c.mod('utilities')
    n = c.n
    mag = c.reals('mag', n, 12, 26)
    err = c.reals('err', n, 0.0078125, 1)
    maxmag = c.real('maxmag', 14, 24)
    per = c.params.get('per')
    lim = c.reals('lim', n, 14, 24) if per else c.real('lim', 14, 24)
    out = U.calc_theta_i(mag, err, maxmag, lim)
    c.prove('shape', len(out) == n)
    for i in range(n):
        L = lim[i] if per else lim
        e = c.np.minimum(maxmag, L)
        d = e - mag[i]
        t = out[i]
        c.prove('range', (t >= 0) & (t <= 1))
        c.prove('zero beyond the limit', c.implies(mag[i] > L, c.eq(t, 0.0)))
        if not bool(mag[i] > L):
            if bool(d >= 5 * err[i]):
                c.prove('one far inside', c.eq(t, 1.0))
            else:
                from_spec = 0.5 + 0.5 * c.fn('erf', d / (math.sqrt(2) * err[i]))
                c.prove('smooth', c.eq(t, from_spec))
            c.prove('half at the cut', c.implies(d > 0, t >= 0.5))
            c.prove('below half past the cut', c.implies(d < 0, t <= 0.5))
    c.cover('end')


def nfw(c):
    """projected profile: flat core, positive, zero beyond 10 Mpc, the closed form in between"""
    U = c.mod('utilities')
    lo, hi = c.cell
    x = c.reals('x', 1, lo, hi)
    out = U.nfw_pdf(x)
    rad = U.nfw_pdf(x, radfactor=True)
    t = x[0] / 0.15
    S, A = 0.1 / 0.15, None
    np = c.np
    c.prove('radial factor', c.eq(rad[0], out[0] * 2 * math.pi * x[0]))

    def f(y):
        if y < 1:
            return (1 / (y * y - 1)) * (1 - 2 / math.sqrt(1 - y * y) * 0.5 * math.log((1 + math.sqrt((1 - y) / (1 + y))) / (1 - math.sqrt((1 - y) / (1 + y)))))
        return (1 / (y * y - 1)) * (1 - 2 / math.sqrt(y * y - 1) * math.atan(math.sqrt((y - 1) / (y + 1))))
    if c.which == 'core':
        c.prove('flat core', c.eq(out[0], f(S)))
    elif c.which == 'zero':
        c.prove('zero far out', c.implies(t >= 10.0 / 0.15, c.eq(out[0], 0.0)))
    elif c.which == 'one':
        c.prove('interpolated', c.eq(out[0], 0.5 * (f(0.999) + f(1.001))))
    elif c.which == 'mid':
        a = np.sqrt((1 - t) / (1 + t))
        c.prove('inner form', c.eq(out[0] * (t * t - 1), 1 - np.log((1 + a) / (1 - a)) / np.sqrt(1 - t * t)))
    else:
        a = np.sqrt((t - 1) / (t + 1))
        c.prove('outer form', c.eq(out[0] * (t * t - 1), 1 - 2 * np.arctan(a) / np.sqrt(t * t - 1)))
    c.cover('end')


def lumcol(c):
    """luminosity and colour filters"""
    U = c.mod('utilities')
    n = 2
    x = c.reals('x', n, 14, 24)
    ms = c.real('ms', 16, 20)
    np = c.np
    out = U.schechter_pdf(x, alpha=c.alpha, mstar=ms)
    for i in range(n):
        d = 0.4 * (ms - x[i])
        c.prove('positive', out[i] > 0)
        c.prove('schechter', c.eq(out[i], 10.**(d * (c.alpha + 1)) * np.exp(-(10.**d))))
    y = c.reals('y', n, 0.0625, 30)
    k = c.k
    o2 = U.chisq_pdf(y, k)
    for i in range(n):
        c.prove('chisq positive', o2[i] > 0)
        c.prove('chi-squared density', c.eq(o2[i], y[i]**(k / 2. - 1) * np.exp(-y[i] / 2.) / (2**(k / 2.) * math.gamma(k / 2.))))
    c.cover('end')


NR = 4


def maskcorr(c):
    """mask correction: cubic fit of 1 - detected/expected in each radius bin"""
    M, U = c.mod('mask'), c.mod('utilities')
    np = c.np
    n, nb = c.n, NR
    m = c.reals('m', n, -4, 4)
    mark = [1 if c.flag('mark%d' % i) else 0 for i in range(n)]
    th = c.reals('th', (n, nb), 0, 1)
    nin = c.reals('nin', nb, 0.5, 4)
    mode = c.mode
    fields = [('m', 'f8'), ('refmag', 'f8'), ('refmag_obs', 'f8'), ('refmag_obs_err', 'f8'), ('limmag', 'f8'), ('w', 'f8'),
              ('m50', 'f8'), ('mark', 'i4'), ('theta_r', 'f8', (nb,)), ('nin', 'f8', (nb,)), ('radbins', 'f8', (nb,)),
              ('zp', 'f8'), ('nsig', 'f8'), ('exptime', 'f8')]
    rb = [0.25, 0.5, 0.75, 1.0]
    m50 = c.reals('m50', n, 18, 22) if mode == 'm50' else [0.0] * n
    vals = dict(m=m, mark=mark, theta_r=th, nin=[list(nin)] * n if not c.sym else np.array([list(nin)] * n), radbins=[rb] * n,
                limmag=[21.0] * n, w=[{'none': -1.0, 'zero': 0.0, 'm50': 0.0, 'bad': 1.0}[mode]] * n, m50=m50,
                zp=[22.5] * n, nsig=[10.0] * n, exptime=[100.0] * n)
    if mode == 'nolim':
        pass
    mk = M.Mask(Obj(), include_maskgals=False)
    mk.maskgals = c.mod('catalog').Catalog(c.rec(n, fields, vals))
    om = c.reals('om', n, 14, 24)
    oe = c.reals('oe', n, 0.125, 1)
    seen = []

    def errm(mg, mags, **k):
        seen.append(mags)
        return om, oe
    c.patch(M, 'apply_errormodels', errm)
    ms, maxmag, lim = 18.0, c.real('maxmag', 18, 21), c.real('lim', 18, 22)
    if mode == 'bad':
        c.prove('unsupported weights refused', c.raises(lambda: mk.calc_maskcorr(ms, maxmag, lim)) is not None)
        c.cover('end')
        return
    got = mk.calc_maskcorr(ms, maxmag, lim)
    for i in range(n):
        c.prove('input magnitudes', c.all([c.eq(seen[0][i], m[i] + ms), c.eq(mk.maskgals.refmag[i], m[i] + ms),
                                           c.eq(mk.maskgals.refmag_obs[i], om[i]), c.eq(mk.maskgals.refmag_obs_err[i], oe[i])]))
    ti = U.calc_theta_i(om, oe, maxmag, c.np.array(m50) if mode == 'm50' else lim)
    c.prove('cubic', len(got) == 4)
    for b in range(nb):
        # four bins determine the cubic exactly
        y = got[0] * rb[b]**3 + got[1] * rb[b]**2 + got[2] * rb[b] + got[3]
        want = 1 - sum(ti[i] * mark[i] * th[i, b] for i in range(n)) / nin[b]
        c.prove('correction', c.eq(y, want, 1e-5))
    c.cover('end')


def radmask(c):
    """sky positions of the mask points around a cluster, and which count as inside"""
    M = c.mod('mask')
    n = c.n
    x, y = c.reals('x', n, -2, 2), c.reals('y', n, -2, 2)
    fields = [('x', 'f8'), ('y', 'f8'), ('mark', 'i4')]
    mk = M.Mask(Obj(), include_maskgals=False)
    mk.maskgals = c.mod('catalog').Catalog(c.rec(n, fields, dict(x=x, y=y)))
    seen = []
    vals = [c.flag('in%d' % i) for i in range(n)]
    object.__setattr__(mk, 'compute_radmask', lambda r, d: (seen.append((r, d)), c.np.array(vals))[1])
    sc = c.real('sc', 0.25, 8)
    ra, dec = c.real('ra', 0, 360), 60.0
    mk.set_radmask(Obj(ra=ra, dec=dec, mpc_scale=sc))
    for i in range(n):
        c.prove('position', c.all([c.eq((seen[0][0][i] - ra) * sc * math.cos(math.radians(dec)), x[i]),
                                   c.eq((seen[0][1][i] - dec) * sc, y[i])]))
        c.prove('mark', c.eq(mk.maskgals.mark[i], 1 if vals[i] else 0))
    c.cover('end')


def hpmask(c):
    """healpix mask: a point is inside exactly when its coverage fraction beats its random number"""
    M = c.mod('mask')
    n = c.n
    ra, dec = c.reals('ra', n, 0, 359), c.reals('dec', n, -100, 100)
    fr = c.reals('fr', n, -1, 1)
    rnd = c.reals('rnd', n, 0, 0.96875)
    mk = M.HPMask.__new__(M.HPMask)
    asked = []

    class Map(object):
        def get_values_pos(self, r, d, lonlat=True):
            out = []
            for a, b in zip(r, d):
                k = next((i for i in range(n) if (a is ra[i]) or (not c.sym and float(a) == float(ra[i]) and float(b) == float(dec[i]))), None)
                if k is None:
                    k = next(i for i in range(n) if c.sym and str(a) == str(ra[i]))
                asked.append(k)
                out.append(fr[k])
            return c.np.array(out)
    mk.sparse_fracgood = Map()
    if not c.sym:
        c.assume(*[ra[i] != ra[j] for i in range(n) for j in range(i)])
    c.randomize(u=rnd)
    out = mk.compute_radmask(ra, dec)
    for i in range(n):
        inside = bool(dec[i] < 90) and bool(dec[i] > -90)
        c.prove('inside', c.iff(out[i], (fr[i] > rnd[i]) if inside else False))
    c.prove('shape checked', c.raises(lambda: mk.compute_radmask(ra, dec[:-1]), ValueError) is not None)
    c.cover('end')


def sample(c):
    """a numbered Monte Carlo sample is exactly its block of rows"""
    M = c.mod('mask')
    ns, ng = c.ns, c.ng
    mk = M.Mask(Obj(maskgal_nsamples=ns, maskgal_ngals=ng), include_maskgals=False)
    v = c.reals('v', ns * ng)
    mk.maskgals_all = c.mod('catalog').Catalog(c.rec(ns * ng, [('m', 'f8')], dict(m=v)))
    i = c.index('i', 0, ns - 1)
    if c.flag('given'):
        r = mk.select_maskgals_sample(maskgal_index=i)
    else:
        c.randomize(pick=[i])
        r = mk.select_maskgals_sample()
    c.prove('index returned', r == i)
    c.prove('block', c.eqs(mk.maskgals.m, [v[k] for k in range(i * ng, (i + 1) * ng)]))
    c.cover('end')


PROPS = {
    'P05': dict(level='model_checking',
                functions=['utilities.calc_theta_i', 'utilities.nfw_pdf', 'utilities.schechter_pdf', 'utilities.chisq_pdf',
                           'mask.Mask.calc_maskcorr', 'mask.Mask.set_radmask', 'mask.Mask.select_maskgals_sample', 'mask.HPMask.compute_radmask'],
                bounds='<= 2 galaxies per call, <= 2 mask points, 4 radius bins (which determine the cubic)',
                assumptions=['the photometric error model and the healpix map are stand-ins returning arbitrary values'],
                instances=[('theta', dict(n=2, covers=['end'])), ('theta', dict(n=2, per=True)),
                           ('nfw', dict(which='core', cell=[0.0009765625, 0.0999])), ('nfw', dict(which='mid', cell=[0.1001, 0.1498])),
                           ('nfw', dict(which='one', cell=[0.14986, 0.15014])), ('nfw', dict(which='out', cell=[0.1502, 9.99])),
                           ('nfw', dict(which='zero', cell=[9, 20])),
                           ('lumcol', dict(alpha=-1.0, k=2)), ('lumcol', dict(alpha=-0.5, k=4)), ('lumcol', dict(alpha=-1.0, k=3)),
                           ('maskcorr', dict(n=2, mode='none', covers=['end'])), ('maskcorr', dict(n=1, mode='m50')),
                           ('maskcorr', dict(n=1, mode='zero')), ('maskcorr', dict(n=1, mode='bad')),
                           ('radmask', dict(n=2)), ('hpmask', dict(n=2)), ('sample', dict(ns=3, ng=2, covers=['end']))]),
}
