"""Galaxy photometric redshifts from the red sequence (zred)."""
import math
from .common import Obj

GZ = [('REFMAG', 'f8'), ('REFMAG_ERR', 'f8'), ('MAG', 'f8', (3,)), ('MAG_ERR', 'f8', (3,)), ('ZRED', 'f8'), ('ZRED_E', 'f8'), ('ZRED2', 'f8'), ('ZRED2_E', 'f8'),
      ('ZRED_UNCORR', 'f8'), ('ZRED_UNCORR_E', 'f8'), ('ZRED_SAMP', 'f8', (2,)), ('CHISQ', 'f8'), ('LKHD', 'f8')]
NAMES = ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e')


def galaxies(c, refmag):
    G = c.mod('galaxy').GalaxyCatalog
    n = len(refmag)
    return G(c.rec(n, GZ, dict(REFMAG=refmag, ZRED_SAMP=[[0.0, 0.0]] * n)))


def model(c, nz, chisq, z0=0.25, dz=0.0625, ext=(), over=True, **k):
    """red-sequence stand-in: chi-squared per redshift bin chosen by the harness"""
    import numpy
    z = numpy.append(z0 + dz * numpy.arange(nz), 1000.0)
    e = numpy.zeros(nz + 1, dtype=bool)
    for i in ext:
        e[i] = True
    e[nz] = over
    m = Obj(z=z, extrapolated=e, alpha=-1.0, _mstar=numpy.full(nz + 1, 10.0), volume_factor=numpy.ones(nz + 1),
            maxrefmag=numpy.full(nz + 1, 20.0), minrefmag=numpy.full(nz + 1, 14.0), calls=[])
    for a, b in dict(pivotmag=16.0, corr=0.0, corr_slope=0.0, corr_r=1.0, corr2=0.0, corr2_slope=0.0, corr2_r=1.0).items():
        setattr(m, a, k.get(a) if k.get(a) is not None else numpy.full(nz + 1, b))
    for a in ('maxrefmag', 'minrefmag', '_mstar', 'volume_factor'):
        if a in k:
            setattr(m, a, k[a])

    def calc(galaxy, zs, calc_lkhd=False, z_is_index=False):
        assert z_is_index and not calc_lkhd
        m.calls.append([int(i) for i in zs])
        return c.np.array([chisq(i) for i in m.calls[-1]])
    m.calculate_chisq_redshifts = calc
    m.calculate_chisq = lambda g, zs, **kk: calc(g, zs, **kk)
    return m


def sampler(c, M, log):
    c.patch(M.scipy.interpolate, 'interp1d', lambda x, y, **k: ('pdf', x, y))

    def samp(f, ran, step, nsamp, **k):
        log.append((f, ran, nsamp))
        return c.np.array([float(ran[0])] * nsamp)
    c.patch(M, 'sample_from_pdf', samp)


def range_(c):
    """galaxies too bright or too faint for the model get no redshift"""
    M = c.mod('zred_color')
    nz = 6
    mag = c.real('mag', 12, 24)
    import numpy
    mx = numpy.array([15.0, 16.0, 17.0, 18.0, 19.0, 20.0, 30.0])
    m = model(c, nz, lambda i: 2.0 * (i - 3)**2, maxrefmag=mx, minrefmag=mx - 2.0, over=c.over)
    sampler(c, M, [])
    g = galaxies(c, [mag])
    zc = M.ZredColor(m, do_correction=False)
    zc.compute_zreds(g) if c.bulk else zc.compute_zred(g[0])
    n = sum(1 for i in range(nz) if bool(mag < mx[i]) and bool(mag > mx[i] - 2.0))
    if n < 2:
        c.prove('no redshift', c.all([c.eq(getattr(g, f)[0], -1.0) for f in NAMES + ('chisq',)] + [c.eq(g.lkhd[0], -1000.0)]))
        c.cover('bad')
    else:
        c.prove('redshift', c.all([c.le(0.0, g.zred[0]), c.le(0.005, g.zred_e[0]), c.eq(g.zred2[0], g.zred[0]), c.eq(g.zred_uncorr[0], g.zred[0])]))
        c.prove('peak of the likelihood', c.all([c.eq(g.zred[0], 0.4375, 1e-6), c.eq(g.chisq[0], 0.0, 1e-9)]))
        c.prove('likelihood', c.le(g.lkhd[0], 0.0))
        c.cover('good')


def moments(c):
    """error from the width of the likelihood; redshift at its peak; likelihood averaged around the peak"""
    import numpy
    M = c.mod('zred_color')
    nz = 6
    amp = [30.0, 200.0, 1500.0, 12000.0][c.index('amp', 0, 3)]
    cen = [0.34375, 0.375, 0.40625, 0.4375, 0.42][c.index('cen', 0, 4)]
    mag = [15.0, 16.5][c.index('mag', 0, 1)]
    flat = c.flat
    zz = 0.25 + 0.0625 * numpy.arange(nz)
    chi = [amp * (x - cen)**2 for x in zz]
    ms = numpy.append(numpy.full(nz, 10.0) if flat else 15.0 + 0.25 * numpy.arange(nz), 30.0)
    vf = numpy.append(numpy.ones(nz) if flat else 1.0 + 0.5 * numpy.arange(nz), 1.0)
    m = model(c, nz, lambda i: chi[i], _mstar=ms, volume_factor=vf)
    m.alpha = -0.5
    log = []
    sampler(c, M, log)
    g = galaxies(c, [mag])
    zc = M.ZredColor(m, do_correction=False)
    zc.compute_zreds(g) if c.bulk else zc.compute_zred(g[0])
    ln = [-0.5 * chi[i] + math.log(vf[i]) + 0.4 * 0.5 * (ms[i] - mag) * math.log(10.0) - 10.**(0.4 * (ms[i] - mag)) for i in range(nz)]
    mx = max(ln)
    w = [math.exp(x - mx) for x in ln]
    ix = [i for i in range(nz) if w[i] > 1e-5]

    def mean(f, v):
        if len(ix) >= 3:
            t = lambda h: sum(0.5 * (h(a) + h(b)) * (zz[b] - zz[a]) for a, b in zip(ix[:-1], ix[1:]))
            return t(lambda i: f(i) * v[i]) / t(lambda i: v[i])
        return sum(f(i) * v[i] for i in ix) / sum(v[i] for i in ix)
    mu = mean(lambda i: zz[i], w)
    var = mean(lambda i: zz[i]**2, w) - mu * mu
    e = 1.0 if var < 0 else max(math.sqrt(var), 0.005)
    c.prove('error', c.eq(g.zred_e[0], e, 1e-5))
    z = g.zred[0]
    c.prove('near the mean', c.all([c.le(z - mu, 2 * e, 1e-5), c.le(mu - z, 2 * e, 1e-5)]))
    if flat:
        c.prove('peak', c.eq(z, cen if abs(cen - mu) < 2 * e else mu, 1e-5))
    zf = float(z)
    gz = [math.exp(-0.5 * ((x - zf) / e)**2) for x in zz]
    c.prove('likelihood', c.eq(g.lkhd[0], mean(lambda i: ln[i], gz), 1e-5))
    k = min(range(nz), key=lambda i: abs(zz[i] - zf))
    c.prove('chi-squared at the redshift', c.eq(g.chisq[0], chi[k], 1e-5) if sorted(abs(x - zf) for x in zz)[1] - abs(zz[k] - zf) > 1e-6 else True)
    gd = [i for i in range(nz) if w[i] > 1e-10]
    if len(gd) >= 3:
        c.prove('sampled from the likelihood', len(log) == 1 and len(log[0][0][1]) == len(gd) and c.all([c.eq(log[0][0][1][q], zz[i]) for q, i in enumerate(gd)]
                + [c.eq(log[0][0][2][q] * w[gd[0]], log[0][0][2][0] * w[i], 1e-5) for q, i in enumerate(gd)] + [c.eq(log[0][1][0], zz[gd[0]]), c.eq(log[0][1][1], zz[gd[-1]])]))
        c.prove('samples', c.all([c.eq(x, zz[gd[0]]) for x in g.zred_samp[0]]))
    else:
        c.prove('samples', c.all([c.eq(x, z) for x in g.zred_samp[0]]))
    c.cover('n%d' % min(len(ix), 3))


def corrections(c):
    """single and bulk corrections agree; bad galaxies stay bad; errors scaled at the corrected redshift"""
    import numpy
    M = c.mod('zred_color')
    nz = 6
    mag = c.real('mag', 15, 18) if c.bend != 'first' else 17.0
    z0, z1 = 0.25, 0.25 + 0.0625 * (nz - 1)
    zz = numpy.append(z0 + 0.0625 * numpy.arange(nz), 1000.0)

    def line(nm, lo, hi, bend=True):
        a, b = c.real(nm + 'a', lo, hi), c.real(nm + 'b', -c.slope, c.slope) if bend else 0.0
        return (lambda z: a + b * (z - 0.375)), c.np.array([a + b * (float(v) - 0.375) for v in zz])
    bend = c.bend
    fc, corr = line('co', -0.03125, 0.03125, bend == 'first')
    fs, cs = line('cs', -0.03125, 0.03125, False)
    fr, cr = line('cr', 0.75, 1.5, bend == 'error')
    f2, c2 = line('c2', -0.03125, 0.03125, bend == 'second')
    fs2, cs2 = line('cs2', -0.03125, 0.03125, False)
    fr2, cr2 = line('cr2', 0.75, 1.5, bend == 'second')
    m = model(c, nz, lambda i: 100.0 * (0.25 + 0.0625 * i - 0.375)**2, corr=corr, corr_slope=cs, corr_r=cr, corr2=c2, corr2_slope=cs2, corr2_r=cr2)
    sampler(c, M, [])
    g = galaxies(c, [mag, 25.0])
    zc = M.ZredColor(m)
    if c.bulk:
        zc.compute_zreds(g)
    else:
        zc.compute_zred(g[0])
        zc.compute_zred(g[1])
    zu = 0.375
    c.prove('uncorrected', c.eq(g.zred_uncorr[0], zu, 1e-6))
    eu = g.zred_uncorr_e[0]
    z = g.zred[0]
    # the correction is evaluated at the corrected redshift (fixed point)
    want = fc(z) + (mag - 16.0) * fs(z)
    c.prove('corrected at the true redshift', c.all([c.le(z - zu - want, 0.0011), c.le(want - (z - zu), 0.0011)]))
    c.prove('error scaled', c.eq(g.zred_e[0], eu * fr(z), 1e-6))
    c.prove('second redshift', c.eq(g.zred2[0], zu + f2(zu) + (mag - 16.0) * fs2(zu), 1e-6))
    c.prove('second error', c.eq(g.zred2_e[0], eu * fr2(zu), 1e-6))
    c.prove('bad stays bad', c.all([c.eq(getattr(g, f)[1], -1.0) for f in NAMES]))
    c.cover('end')


def sample(c):
    """samples fall inside the range and follow the cumulative distribution"""
    U = c.mod('utilities')
    n = 4
    p = c.reals('p', n, 0, 4)
    c.assume(sum(p) > 0.25)
    u = c.reals('u', 2, 0, 1)
    c.assume(u[0] < 1, u[1] < 1)
    c.randomize(u=list(u))
    out = U.sample_from_pdf(lambda x: c.np.array(list(p)), [0.5, 2.5], 0.5, 2)
    c.prove('count', len(out) == 2)
    tot = sum(p)
    for k in range(2):
        ix = [i for i in range(n) if bool(c.eq(out[k], 0.5 + 0.5 * i))]
        c.prove('on the grid', len(ix) == 1)
        if ix:
            i = ix[0]
            # cumulative probability, to the resolution of the grid
            c.prove('cumulative', c.all([c.lt(u[k] * n - 1, n * sum(p[:i + 1]) / tot, 1e-6)] + ([c.le(n * sum(p[:i]) / tot - 1, u[k] * n, 1e-6)] if i else [])))
            c.prove('possible', True)
    c.cover('end')


PROPS = {
    'P14': dict(level='model_checking',
                functions=['zred_color.ZredColor.compute_zred', 'zred_color.ZredColor.compute_zreds', 'zred_color.ZredColor._calculate_lndist', 'zred_color.ZredColor._reset_bad_values',
                           'utilities.sample_from_pdf', 'utilities.interpol'],
                bounds='6 redshift bins, straight correction curves of any offset and slope, 2 galaxies, <= 4 sampling bins; moments of the likelihood on a grid of 40 likelihood curves',
                assumptions=['the chi-squared of the colour model is a stand-in (it is P01 and P13)', 'spline interpolation of the sampled p(z) is a stand-in'],
                instances=[('range_', dict(bulk=False, over=True, covers=['bad', 'good'])), ('range_', dict(bulk=True, over=False, covers=['bad', 'good'])),
                           ('sample', dict(covers=['end'])), ('moments', dict(flat=True, bulk=False, covers=['n1', 'n2', 'n3'])), ('moments', dict(flat=False, bulk=True, covers=['n1', 'n2', 'n3']))] +
                          [('corrections', dict(bulk=b, slope=0.25, bend=k, covers=['end'])) for b in (False, True) for k in ('first', 'error', 'second')]),
}
