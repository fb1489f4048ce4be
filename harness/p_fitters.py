"""The fits of the calibration: what is minimised, from where, within which limits, and what is returned."""
import math
import numpy
from .common import Obj

S2P = math.sqrt(2. * math.pi)
NODES = [0.125, 0.375, 0.625]


def optimiser(c, M, n, names, kinds, fresh=None):
    """replace the minimiser: it evaluates the objective at an arbitrary point (twice) and returns another"""
    rec = Obj(calls=0)

    def point(tag, p0):
        k = len(p0)
        out = []
        for i in range(k):
            v = kinds(i)
            if isinstance(v, tuple):
                v = c.real('%s%d_%d' % (tag, rec.calls, i), *v)
            elif isinstance(v, list):                # one of these
                v = v[c.index('%s%d_%d' % (tag, rec.calls, i), 0, len(v) - 1)]
            out.append(v)
        return c.np.array(out)

    def minimize(fun, p0, method=None, bounds=None, **k):
        rec.calls += 1
        rec.p0, rec.bounds = [p0[i] for i in range(len(p0))], bounds
        x = point('x', p0)
        rec.x = x
        rec.t = fun(x)
        rec.t2 = fun(x) if not rec.__dict__.get('once') else rec.t
        rec.best = c.np.array([100.0 + i for i in range(len(p0))])
        return Obj(x=rec.best)

    def fmin(fun, p0, **k):
        return minimize(fun, p0).x
    c.patch(M, 'scipy', Obj(optimize=Obj(minimize=minimize, fmin=fmin)))
    return rec


GRID = {2: [0.0, 1.0], 3: NODES, 4: [0.125, 0.25, 0.4375, 0.625]}


def spline(c, vals, z):
    """value at z of the cubic spline through (nodes, vals): the property of the spline itself is P16"""
    return c.mod('utilities').CubicSpline(numpy.array(GRID[len(vals)]), c.np.array(vals))(c.np.array(z))


def loglik(c, label, t, factors):
    """t = - sum of log factors.  Proved through exp(-t) so that only products are compared"""
    tot = 0
    for f in factors:
        tot = tot + c.np.log(f)
    c.prove(label, c.eq(t, -tot))


def redseq(c):
    """colour against redshift and magnitude"""
    M = c.mod('fitters')
    part = c.part                      # which relation has arbitrary values
    fit = c.fit                        # which relations are fitted
    n = 2
    z = [0.25, 0.5][:n]
    base = dict(mean=[1.0, 1.25, 1.75], slope=[-0.125, -0.0625, 0.0], scat=[0.0625, 0.03125, 0.125])
    lo = dict(mean=(0, 3), slope=(-1, 1), scat=[0.0, 0.0625, 0.375])
    order = [k for k in ('mean', 'slope', 'scat') if k in fit]
    if c.params.get('grid'):
        lo[part] = c.grid
    nn = dict(zip(('mean', 'slope', 'scat'), c.params.get('nn', [3, 3, 3])))
    base = dict((k, (base[k] + [base[k][0]])[:nn[k]]) for k in base)
    flat = [(k, i) for k in order for i in range(nn[k])]

    def kinds(i):
        if i >= len(flat):
            return [1.25, 0.125][i - len(flat)]
        k, i = flat[i]
        return lo[k] if k == part else base[k][i] + 0.0625
    rec = optimiser(c, M, 3, order, kinds)
    ratio = c.params.get('ratio')      # error ratios of these bands
    # finding of P25: without an error ratio in the first band each evaluation changes the stored errors
    rec.once = not (ratio and 0 in ratio) and 'scat' in fit
    col = [1.5, 1.25]
    if part == 'scat':
        col[0] = c.real('col', 1, 2)
    me = numpy.array([[0.125, 0.25], [0.0625, 0.125]])
    dm, lup, pr, bk = [0.5, -0.25], [0.03125, 0.0625], [0.75, 0.5], [0.25, 0.5]
    dr = [0.5, 1.0]
    kw = {}
    if c.params.get('dmags', True):
        kw['dmags'] = numpy.array(dm)
    if c.params.get('lup'):
        kw['lupcorrs'] = numpy.array(lup)
    if c.params.get('probs'):
        kw.update(probs=numpy.array(pr), bkgs=numpy.array(bk))
    if ratio:
        kw['dmags_err_ratio'] = numpy.array(dr)
    if c.params.get('smax'):
        kw['scatter_max'] = numpy.array([0.25, 0.5, 0.375, 0.4375][:nn['scat']])
    if c.params.get('nn'):
        kw.update(slope_nodes=numpy.array(GRID[nn['slope']]), scatter_nodes=numpy.array(GRID[nn['scat']]))
    trunc = [0.75, 0.5]
    if c.params.get('trunc'):
        kw['trunc'] = numpy.array(trunc)
    f = M.RedSequenceFitter(numpy.array(GRID[nn['mean']]), numpy.array(z), c.np.array(col), me.copy(), use_scatter_prior=c.params.get('prior', False), **kw)
    if 'slope' in fit and 'dmags' not in kw:
        c.prove('slope needs magnitudes', c.raises(lambda: f.fit(*[numpy.array(base[k]) for k in ('mean', 'slope', 'scat')], fit_mean=True, fit_slope=True), ValueError) is not None)
        return
    kf = dict(fit_mean='mean' in fit, fit_slope='slope' in fit, fit_scatter='scat' in fit, min_scatter=0.03125)
    if ratio:
        kf.update(err_ratio_pars=[1.5, 0.25], fit_err_ratio_ind=ratio)
    out = f.fit(*[numpy.array(base[k]) for k in ('mean', 'slope', 'scat')], **kf)
    if rec.once:
        # what a first evaluation sees: errors as given unless 'fit' itself was the first to use them
        pass
    x = [rec.x[i] for i in range(len(rec.x))]
    cur = {}
    for i, k in enumerate(order):
        cur[k] = [x[q] for q in range(len(flat)) if flat[q][0] == k]
    val = dict((k, cur.get(k, base[k])) for k in base)
    rp = [1.0, 0.0]
    if ratio:
        rp = [1.25, 0.125] if 'scat' in fit else [1.5, 0.25]
    p0 = [v for k in order for v in base[k]] + ([1.5, 0.25] if ratio and 'scat' in fit else [])
    c.prove('start', len(rec.p0) == len(p0) and c.all([c.eq(a, b) for a, b in zip(rec.p0, p0)]))
    bd = []
    for k in order:
        for i in range(nn[k]):
            bd.append((0.03125, [0.25, 0.5, 0.375, 0.4375][i] if c.params.get('smax') else math.inf) if k == 'scat' else (-math.inf, math.inf))
    if ratio and 'scat' in fit:
        bd += [(0.5, 10.0), (-5.0, 5.0)]
    c.prove('limits', [tuple(float(v) for v in b) for b in rec.bounds] == bd)
    gm, gs, gc = spline(c, val['mean'], z), spline(c, val['slope'], z), spline(c, val['scat'], z)
    fac = []
    for i in range(n):
        r = rp[0] + rp[1] * dr[i]
        e2 = sum((r * r if ratio and b in ratio else 1.0) * me[i, b]**2 for b in (0, 1))
        s = gc[i]
        if not bool(s > 0.03125):
            s = 0.03125
        sig = c.np.sqrt(s * s + e2)
        model = gm[i] + (gs[i] * dm[i] + (lup[i] if c.params.get('lup') else 0.0) if 'dmags' in kw else 0.0)
        xi = (col[i] - model) / sig
        g = (1. / sig) * (1. / S2P) * c.np.exp(-0.5 * xi * xi)
        if c.params.get('trunc'):
            g = g / math.erf((trunc[i] / float(sig)) / math.sqrt(2.))
        fac.append(pr[i] * g + (1.0 - pr[i]) * bk[i] if c.params.get('probs') else g)
    want = 0
    for g in fac:
        want = want + c.np.log(g)
    if c.params.get('prior') and 'scat' in fit:
        for v in cur['scat']:
            want = want - c.np.log(v if bool(v > 0.03125) else 0.03125)
    c.prove('objective', c.eq(rec.t, -want))
    c.prove('the objective is the same each time', c.eq(rec.t, rec.t2))
    k = 0
    for i, name in enumerate(order):
        m = nn[name] + (2 if name == 'scat' and ratio else 0)
        c.prove('returned', len(out[i]) == m and c.all([c.eq(out[i][q], 100.0 + k + q) for q in range(m)]))
        k += nn[name]
    c.prove('returned', len(out) == len(order))
    c.cover('end')


def medz(c):
    """median against redshift"""
    M = c.mod('fitters')
    rec = optimiser(c, M, 3, None, lambda i: (-2, 2))
    v = c.reals('v', 3, -2, 2)
    z = [0.25, 0.5, 0.5625]
    f = M.MedZFitter(numpy.array(NODES), numpy.array(z), v)
    out = f.fit(numpy.array([1.0, 1.25, 1.5]), min_val=-3.0, max_val=4.0)
    s = spline(c, [rec.x[i] for i in range(3)], z)
    tot = 0
    for i in range(3):
        d = v[i] - s[i]
        tot = tot + (d if bool(d >= 0) else -d)
    c.prove('objective', c.eq(rec.t, tot) & c.eq(rec.t, rec.t2))
    c.prove('start', [float(x) for x in rec.p0] == [1.0, 1.25, 1.5] and [tuple(b) for b in rec.bounds] == [(-3.0, 4.0)] * 3)
    c.prove('returned', c.all([c.eq(out[i], 100.0 + i) for i in range(3)]))
    c.cover('end')


def offdiag(c):
    """correlation of two colours"""
    M = c.mod('fitters')
    j, k = c.j, c.k
    n = 2
    rec = optimiser(c, M, 3, None, lambda i: [-1.0, -0.375, 0.0, 0.5, 1.0] if i == c.which else [0.25, -0.125, 0.375][i])
    z = [0.25, 0.5]
    d1, d2, s1, s2 = [[-1.0, 0.0, 0.25][c.index('d1', 0, 2)], -0.125], [0.125, 0.375], [0.5, 0.25], [0.375, 0.5]
    me = numpy.array([[0.125, 0.25, 0.1875, 0.0625], [0.0625, 0.125, 0.25, 0.125]])
    pr, bk = [0.75, 0.5], [0.25, 0.5]
    full = None
    if c.params.get('full'):
        full = numpy.zeros((3, 3, 3))
        for q in range(3):
            for i in range(3):
                full[q, q, i] = [0.25, 0.0625, 0.5625][q]
        full = c.np.array(full)
        c.patch(M, 'np', EigNP(c, M.np, c.params.get('bad', False)))
    f = M.RedSequenceOffDiagonalFitter(numpy.array(NODES), numpy.array(z), c.np.array(d1), numpy.array(d2), numpy.array(s1), numpy.array(s2), me, j, k, numpy.array(pr), numpy.array(bk), 0.5, min_eigenvalue=0.015625)
    out = f.fit(numpy.array([0.0, 0.125, 0.25]), full_covmats=full)
    x = [rec.x[i] for i in range(3)]
    r = spline(c, x, z)
    tot = 0
    for i in range(n):
        rr = r[i]
        if bool(rr > 0.9):
            rr = 0.9
        elif bool(rr < -0.9):
            rr = -0.9
        a = s1[i]**2 + me[i, j]**2 + me[i, j + 1]**2
        b = s2[i]**2 + me[i, k]**2 + me[i, k + 1]**2
        o = rr * s1[i] * s2[i] - (me[i, k]**2 if k == j + 1 else 0.0)
        det = a * b - o * o
        ex = -0.5 * (b / det * d1[i] * d1[i] + (-o / det - o / det) * d1[i] * d2[i] + a / det * d2[i] * d2[i])
        g = (det**(-0.5) / (2. * math.pi)) * c.np.exp(ex)
        tot = tot + c.np.log(pr[i] * g + (1. - pr[i]) * bk[i])
    for v in x:
        tot = tot - 0.5 * (v / 0.5)**2.
    t = -tot
    if c.params.get('bad'):
        t = t + 100000
    c.prove('objective', c.eq(rec.t, t) & c.eq(rec.t, rec.t2))
    c.prove('limits', [tuple(b) for b in rec.bounds] == [(-0.9, 0.9)] * 3 and [float(v) for v in rec.p0] == [0.0, 0.125, 0.25])
    if full is not None:
        w = [0.5, 0.25, 0.75]
        c.prove('trial matrix', c.all([c.eq(full[j, k, i], x[i] * w[j] * w[k]) & c.eq(full[k, j, i], x[i] * w[j] * w[k]) for i in range(3)]))
    c.prove('returned', c.all([c.eq(out[i], 100.0 + i) for i in range(3)]))
    c.cover('end')


class EigNP(object):
    """numpy with eigenvalues chosen by the harness"""
    def __init__(self, c, np_, bad):
        self._np, self._c, self._bad = np_, c, bad
        self.linalg = Obj(eigvalsh=lambda a: numpy.array([0.0078125 if bad else 0.03125, 1.0, 2.0]))

    def __getattr__(self, k):
        return getattr(self._np, k)


def correction(c):
    """redshift corrections"""
    M = c.mod('fitters')
    part, fit = c.part, c.fit
    names = ('mean', 'slope', 'r', 'bkg')
    order = [k for k in names if k in fit]
    base = dict(mean=[0.0, 0.03125, -0.0625], slope=[0.125, 0.0, -0.125], r=[1.0, 1.25, 0.75], bkg=[0.25, 0.5, 0.125])
    lo = dict(mean=(-1, 1), slope=(-1, 1), r=(0.5, 2), bkg=[0.0, 0.25, 1.0])
    if c.params.get('grid'):
        lo[part] = c.grid
    nn = dict(zip(names, c.params.get('nn', [3, 3, 3, 3])))
    base = dict((k, (base[k] + [base[k][0]])[:nn[k]]) for k in base)
    flat = [(k, i) for k in order for i in range(nn[k])]
    rec = optimiser(c, M, 3, order, lambda i: lo[flat[i][0]] if flat[i][0] == part else base[flat[i][0]][flat[i][1]] + 0.03125)
    kn = {}
    if c.params.get('nn'):
        kn = dict((k + '_nodes', numpy.array(GRID[nn[k]])) for k in names if k != 'mean')
    z, dz, de = [0.25, 0.5], [0.125, -0.0625], [0.125, 0.25]
    pr, dm, ws = [0.75, 0.5], [0.5, -0.25], [1.0, 0.5]
    if c.params.get('plain'):
        f = M.CorrectionFitter(numpy.array(GRID[nn['mean']]), numpy.array(z), numpy.array(dz), numpy.array(de), **kn)
        pr, dm, ws = [1.0, 1.0], [0.0, 0.0], [1.0, 1.0]
    else:
        f = M.CorrectionFitter(numpy.array(GRID[nn['mean']]), numpy.array(z), numpy.array(dz), numpy.array(de), probs=numpy.array(pr), dmags=numpy.array(dm), ws=numpy.array(ws), **kn)
    out = f.fit(*[numpy.array(base[k]) for k in names], **dict(('fit_' + k, k in fit) for k in names))
    x = [rec.x[i] for i in range(len(rec.x))]
    val = dict(base)
    for i, k in enumerate(order):
        val[k] = [x[q] for q in range(len(flat)) if flat[q][0] == k]
    g = dict((k, spline(c, val[k], z)) for k in names)
    tot = 0
    for i in range(2):
        b = g['bkg'][i]
        if not bool(b > 1e-10):
            b = 1e-10
        g1 = (1. / c.np.sqrt(2. * math.pi * b)) * c.np.exp(-dz[i]**2 / (2. * b))
        var = (g['r'][i] * de[i])**2.
        g0 = (1. / c.np.sqrt(2. * math.pi * var)) * c.np.exp(-(dz[i] - (g['mean'][i] + g['slope'][i] * dm[i]))**2. / (2. * var))
        tot = tot + c.np.log(ws[i] * (pr[i] * g0 + (1. - pr[i]) * g1))
    c.prove('objective', c.eq(rec.t, -tot) & c.eq(rec.t, rec.t2))
    c.prove('start', c.all([c.eq(a, b) for a, b in zip(rec.p0, [v for k in order for v in base[k]])]) and len(rec.p0) == len(flat))
    lim = dict(mean=(-math.inf, math.inf), slope=(-math.inf, math.inf), r=(0.1, 2.0), bkg=(0.0, math.inf))
    c.prove('limits', [tuple(float(v) for v in b) for b in rec.bounds] == [lim[k] for k in order for _ in range(nn[k])])
    got = [float(v) for o in out for v in o]
    c.prove('returned', [len(o) for o in out] == [nn[k] for k in order] and got == [100.0 + i for i in range(len(flat))])
    c.cover('end')


def ecgmm(c):
    """two components with errors"""
    M = c.mod('fitters')
    n = 2
    off = c.off
    which = c.which
    kin = [0.25, 0.125, 0.5, 0.125, 0.25]
    rec = optimiser(c, M, 5, None, lambda i: ([(0.0625, 0.9375), (-1, 1), (-1, 1), (0.0625, 0.5), (0.0625, 0.5)][i]) if i == which else kin[i] + (off if i in (1, 2) else 0.0))
    if c.params.get('swap'):
        b = c.reals('b', 5, 0, 1)
        c.assume(*[b[1] - b[2] > 0.001]) if c.swap > 0 else c.assume(b[2] - b[1] > 0.001)
        om = M.scipy.optimize.minimize

        def mini(*a, **k):
            om(*a, **k)
            return Obj(x=b)
        c.patch(M, 'scipy', Obj(optimize=Obj(minimize=mini)))
    y, ye = [0.25, 0.625], [0.125, 0.0625]
    f = M.EcgmmFitter(numpy.array(y), numpy.array(ye))
    wt, mu, sg = f.fit([0.25], [-0.5, 0.0], [0.25, 0.0625], offset=off)
    p = [rec.x[i] for i in range(5)]
    tot = 0
    for i in range(n):
        v0, v1 = p[3] * p[3] + ye[i]**2, p[4] * p[4] + ye[i]**2
        g = p[0] / c.np.sqrt(2. * math.pi * v0) * c.np.exp(-(y[i] + off - p[1])**2. / (2. * v0)) + (1.0 - p[0]) / c.np.sqrt(2. * math.pi * v1) * c.np.exp(-(y[i] + off - p[2])**2. / (2. * v1))
        tot = tot + c.np.log(g)
    c.prove('objective', c.eq(rec.t, -tot) & c.eq(rec.t, rec.t2))
    c.prove('start', c.all([c.eq(a, b) for a, b in zip(rec.p0, [0.25, -0.5 + off, off, 0.25, 0.0625])]))
    c.prove('limits', [tuple(float(v) for v in b) for b in rec.bounds] == [(1e-5, 1.0), (-1.0 + off, 1.0 + off), (-1.0 + off, 1.0 + off), (1e-2, 0.5), (1e-2, 0.5)])
    if c.params.get('swap'):
        a, z = (1, 0) if c.swap > 0 else (0, 1)
        w = [b[0], 1.0 - b[0]]
        c.prove('components ordered by mean', c.all([c.eq(wt[0], w[a]), c.eq(wt[1], w[z]), c.eq(mu[0], b[1 + a] - off), c.eq(mu[1], b[1 + z] - off), c.eq(sg[0], b[3 + a]), c.eq(sg[1], b[3 + z])]))
    c.prove('data kept', c.all([c.eq(f._y[i], y[i]) for i in range(n)]))
    c.cover('end')


def errbin(c):
    """scaling of the photometric errors"""
    M = c.mod('fitters')
    rec = optimiser(c, M, 2, None, lambda i: [(0.5, 4), (-1, 1)][i] if i == c.which else [1.25, 0.25][i])
    f = M.ErrorBinFitter.__new__(M.ErrorBinFitter)
    dcol, dmag, e0, e1 = [0.25, -0.5, 0.375, 0.125, -0.25, 0.5], [0.0, 0.25, 0.125, 0.5, 0.75, 0.625], [0.125, 0.25, 0.125, 0.25, 0.125, 0.25], [0.25, 0.125, 0.25, 0.125, 0.25, 0.125]
    f.delta_col, f.delta_mag, f.err_0, f.err_1, f.sigint2 = [numpy.array(v) for v in (dcol, dmag, e0, e1, [0.0625] * 6)]
    f.nbin, f.mad_err = 2, numpy.array([0.5, 0.25])
    f.rev = numpy.array([3, 6, 9, 0, 1, 2, 3, 4, 5])
    f.use_bins = (numpy.array([0, 1]),)
    out = f.fit([1.0, 0.0], scale_indices=c.idx)
    tot = 0
    for bn in range(2):
        pulls = []
        for i in range(3 * bn, 3 * bn + 3):
            r = rec.x[0] + rec.x[1] * dmag[i]
            a, b = (r * e0[i] if 0 in c.idx else e0[i]), (r * e1[i] if 1 in c.idx else e1[i])
            pulls.append(dcol[i] / c.np.sqrt(0.0625 + a * a + b * b))
        med = middle(c, pulls)
        dev = [p - med if bool(p >= med) else med - p for p in pulls]
        mad = 1.4826 * middle(c, dev)
        tot = tot + (mad - 1.0)**2. / [0.25, 0.0625][bn]
    c.prove('objective', c.eq(rec.t, tot) & c.eq(rec.t, rec.t2))
    c.prove('limits', [tuple(b) for b in rec.bounds] == [(0.5, 10.0), (-5.0, 5.0)] and [float(v) for v in rec.p0] == [1.0, 0.0])
    c.prove('returned', c.eq(out[0], 100.0) & c.eq(out[1], 101.0))
    c.cover('end')


def middle(c, v):
    a, b, d = v
    if bool(a <= b):
        lo, hi = a, b
    else:
        lo, hi = b, a
    if bool(d <= lo):
        return lo
    return hi if bool(d >= hi) else d


def zlam(c):
    """afterburner of z_lambda"""
    M = c.mod('calibration.zlambdacal')
    part, fit = c.part, c.fit
    names = ('delta', 'slope', 'scatter')
    order = [k for k in names if k in fit]
    base = dict(delta=[0.0, 0.03125, -0.0625], slope=[0.125, -0.125], scatter=[0.125, 0.25])
    flat = [(k, i) for k in order for i in range(len(base[k]))]
    lo = dict(delta=(-1, 1), slope=(-1, 1), scatter=[0.0, 0.0625, 0.5])
    rec = optimiser(c, M, 3, order, lambda i: lo[flat[i][0]] if flat[i][0] == part else base[flat[i][0]][flat[i][1]] + 0.03125)
    z, dz, de, ll = [0.25, 0.3125], [c.real('dz', -1, 1) if part == 'scatter' else 0.125, -0.0625], [0.125, 0.25], [0.5, -0.25]
    f = M.ZLambdaFitter(numpy.array(NODES), numpy.array(GRID[2]), numpy.array(z), c.np.array(dz), numpy.array(de), numpy.array(ll))
    out = f.fit(*[numpy.array(base[k]) for k in names], min_scatter=0.0625, **dict(('fit_' + k, k in fit) for k in names))
    x = [rec.x[i] for i in range(len(rec.x))]
    val = dict(base)
    i = 0
    for k in order:
        val[k] = x[i:i + len(base[k])]
        i += len(base[k])
    g = dict((k, spline(c, val[k], z)) for k in names)
    tot = 0
    for i in range(2):
        s = g['scatter'][i]
        if not bool(s > 0.0625):
            s = 0.0625
        var = s * s + de[i]**2
        q = (1. / c.np.sqrt(2. * math.pi * var)) * c.np.exp(-(dz[i] - (g['delta'][i] + g['slope'][i] * ll[i]))**2. / (2. * var))
        tot = tot + c.np.log(q)
    t = -tot
    if 'scatter' in fit and not (bool(val['scatter'][0] >= 0.0625) and bool(val['scatter'][1] >= 0.0625)):
        t = t + 10000
    c.prove('objective', c.eq(rec.t, t) & c.eq(rec.t, rec.t2))
    c.prove('start', len(rec.p0) == len(flat) and c.all([c.eq(a, base[k][i]) for a, (k, i) in zip(rec.p0, flat)]))
    k, ok = 0, len(out) == len(order)
    for i, name in enumerate(order):
        m = len(base[name])
        ok = ok and len(out[i]) == m and all(abs(float(out[i][q]) - 100.0 - k - q) < 1e-6 for q in range(m))
        k += m
    c.prove('returned', ok)
    c.cover('end')


def centre(c):
    """centring model"""
    M = c.mod('calibration.centeringcal')
    kind = c.kind
    n = 2
    w, ls = [1.5, 2.0], [1.0, 1.25]
    pc, ps = [0.5, 0.25], [0.25, 0.5]
    A = numpy.array
    if kind == 'fg':
        rec = optimiser(c, M, 2, None, lambda i: [(-1, 1), [-0.5, -0.125, 0.125, 0.25, 1.0]][i] if i == c.which else [0.25, 0.5][i])
        f = M.WcenFgFitter(A(w), A(ls))
    elif kind == 'c':
        ms, la, rm, cw, p1, bc = [18.0, 18.5], [0.25, -0.5], [17.0, 18.0], [0.5, 0.75], [0.125, 0.25], [0.375, 0.0625]
        rec = optimiser(c, M, 3, None, lambda i: [(-2, 2), (-1, 1), [-0.5, -0.125, 0.125, 0.25, 1.0]][i] if i == c.which else [-1.0, 0.25, 0.5][i])
        f = M.WcenCFitter(A(pc), A(ps), A(ms), A(la), A(rm), A(cw), A(p1), A(bc))
    else:
        ffg, fsat = [0.125, 0.25], [0.375, 0.0625]
        rec = optimiser(c, M, 2, None, lambda i: [(-1, 1), [-0.5, -0.125, 0.125, 0.25, 1.0]][i] if i == c.which else [0.25, 0.5][i])
        f = M.WcenCwFitter(A(pc), A(ps), A(w), A(ffg), A(fsat), A(ls))
    p0 = [0.25, 0.5] if kind != 'c' else [-1.0, 0.25, 0.5]
    sgn = len(p0) - 1
    om = M.scipy.optimize.fmin
    out = f.fit(A(p0))
    x = rec.x
    tot = 0
    for i in range(n):
        if kind == 'c':
            sig = x[2]
            mb = ms[i] + x[0] + x[1] * la[i]
            phi = (1. / (S2P * sig)) * c.np.exp(-0.5 * (rm[i] - mb)**2. / (sig**2.))
            rho = pc[i] * phi * cw[i] + ps[i] * p1[i] * cw[i] + (1. - pc[i] - ps[i]) * bc[i]
            if bool(rho < 1e-5):
                rho = 1e-5
        else:
            sig = x[1] * ls[i]
            fc = (1. / (S2P * sig)) * c.np.exp(-0.5 * (math.log(w[i]) - x[0])**2. / (sig**2.))
            rho = fc if kind == 'fg' else pc[i] * fc + ps[i] * fsat[i] + (1. - pc[i] - ps[i]) * ffg[i]
        tot = tot + c.np.log(rho)
    t = -tot
    if bool(x[sgn] < 0):
        t = t + 1000
    c.prove('objective', c.eq(rec.t, t) & c.eq(rec.t, rec.t2))
    c.prove('start', [float(v) for v in rec.p0] == p0)
    c.prove('returned', c.all([c.eq(out[i], 100.0 + i) for i in range(len(p0))]))
    c.cover('end')


_A = ['mean', 'slope', 'scat']
_C = ['mean', 'slope', 'r', 'bkg']
_Z = ['delta', 'slope', 'scatter']
PROPS = {
    'P25': dict(level='model_checking', functions=['fitters.MedZFitter', 'fitters.RedSequenceFitter', 'fitters.RedSequenceOffDiagonalFitter', 'fitters.CorrectionFitter', 'fitters.EcgmmFitter', 'fitters.ErrorBinFitter',
                                                   'calibration.zlambdacal.ZLambdaFitter', 'calibration.centeringcal.WcenFgFitter', 'calibration.centeringcal.WcenCFitter', 'calibration.centeringcal.WcenCwFitter'],
                bounds='2-3 galaxies (6 in the error fit), 3 nodes; one block of parameters arbitrary in its range (or on a grid of 3-5 values where it enters a variance) while the others are fixed',
                assumptions=['scipy minimisers are stand-ins: they evaluate the objective at an arbitrary point, twice, and return a marked result', 'the cubic spline itself is P16', 'exp and log are functions of their argument', 'eigenvalues of the trial matrix are given'],
                instances=[('medz', dict(covers=['end'])),
                           ('redseq', dict(part='mean', fit=_A, ratio=[0, 1], probs=True, covers=['end'])), ('redseq', dict(part='slope', fit=['mean', 'slope'], lup=True, covers=['end'])),
                           ('redseq', dict(part='slope', fit=['slope', 'scat'], ratio=[1])), ('redseq', dict(part='scat', fit=_A, ratio=[0], probs=True, covers=['end'])),
                           ('redseq', dict(part='scat', fit=_A, ratio=[0, 1], prior=True, smax=True)), ('redseq', dict(part='scat', fit=['scat'], lup=True)),
                           ('redseq', dict(part='mean', fit=['mean'], dmags=False, probs=True)), ('redseq', dict(part='slope', fit=_A, ratio=[0, 1], grid=[-0.5, 0.0, 0.25], nn=[3, 2, 4])), ('redseq', dict(part='scat', fit=_A, ratio=[0], nn=[4, 3, 2], smax=True, prior=True, trunc=True)), ('redseq', dict(part='mean', fit=['mean', 'slope'], trunc=True, nn=[4, 2, 3])), ('redseq', dict(part='mean', fit=['mean', 'slope'], dmags=False)),
                           ('offdiag', dict(j=0, k=1, which=0, covers=['end'])), ('offdiag', dict(j=0, k=2, which=1, full=True)), ('offdiag', dict(j=1, k=2, which=2, full=True, bad=True)),
                           ('correction', dict(part='mean', fit=_C, covers=['end'])), ('correction', dict(part='slope', fit=_C)), ('correction', dict(part='r', fit=_C)), ('correction', dict(part='bkg', fit=_C)),
                           ('correction', dict(part='bkg', fit=['r', 'bkg'])), ('correction', dict(part='mean', fit=['mean'], plain=True)), ('correction', dict(part='slope', fit=['slope', 'bkg'], grid=[-0.5, 0.0, 0.25], nn=[3, 2, 4, 3])), ('correction', dict(part='mean', fit=_C, nn=[3, 2, 4, 2])), ('correction', dict(part='bkg', fit=_C, nn=[4, 3, 3, 2])),
                           ('ecgmm', dict(which=9, off=0.5, swap=1)), ('ecgmm', dict(which=9, off=-0.25, swap=-1))] + [('ecgmm', dict(which=w, off=0.5)) for w in range(5)] +
                          [('errbin', dict(which=0, idx=[0])), ('errbin', dict(which=1, idx=[1])), ('errbin', dict(which=0, idx=[0, 1]), 'thorough'), ('errbin', dict(which=1, idx=[0]), 'thorough'),
                           ('zlam', dict(part='scatter', fit=_Z, covers=['end'])), ('zlam', dict(part='delta', fit=['delta', 'slope'])), ('zlam', dict(part='slope', fit=_Z)),
                           ('zlam', dict(part='scatter', fit=['scatter']))] +
                          [('centre', dict(kind=k, which=w)) for k, m in (('fg', 2), ('c', 3), ('cw', 2)) for w in range(m)]),
}
