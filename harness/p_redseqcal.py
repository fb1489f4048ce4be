"""The red-sequence calibration: each parameter from the right galaxies, colours and fits."""
import math
import numpy
from .common import Obj, silent_logger
from .p_training import Line

ZN = [0.25, 0.5, 0.75]


class Pars(object):
    """the parameter table: attributes are columns"""
    def __init__(self, **k):
        self.__dict__['_ndarray'] = dict(k)

    def __getattr__(self, a):
        if a.startswith('__') or a not in self._ndarray:
            raise AttributeError(a)
        return self._ndarray[a]

    def __setattr__(self, a, v):
        if a not in self._ndarray:
            raise AttributeError(a)
        self._ndarray[a] = v


def arr(c, v):
    return c.np.array(list(v))


def calib(c, nmag=3, **k):
    M = c.mod('calibration.redsequencecal')
    c.patch(M, 'CubicSpline', Line)
    s = M.RedSequenceCalibrator.__new__(M.RedSequenceCalibrator)
    ncol = nmag - 1
    nz = numpy.array(ZN)
    cols = {}
    s.ztag, s.ctag, s.zstag, s.stag = ['z%02d' % j for j in range(ncol)], ['c%02d' % j for j in range(ncol)], ['zs%02d' % j for j in range(ncol)], ['slope%02d' % j for j in range(ncol)]
    for j in range(ncol):
        cols['z%02d' % j] = numpy.array([0.25, 0.5 + 0.0625 * j, 0.75])
        cols['zs%02d' % j] = numpy.array([0.25, 0.75])
        cols['c%02d' % j] = c.np.zeros(3)
        cols['slope%02d' % j] = c.np.zeros(2)
    med = c.np.zeros((3, ncol))
    wid = c.np.zeros((3, ncol))
    for j in range(ncol):
        for i in range(3):
            med[i, j] = 0.5 + 0.25 * j + 0.125 * i
            wid[i, j] = 0.125 + 0.0625 * j + 0.03125 * i
    s.pars = Pars(pivotmag_z=nz, pivotmag=numpy.array([17.0, 17.5, 18.0]), minrefmag=None, maxrefmag=None, medcol=med, medcol_width=wid, medcol_err_ratio=c.np.zeros(ncol), covmat_z=numpy.array([0.25, 0.625, 0.75]), sigma=c.np.zeros((ncol, ncol, 3)), covmat_amp=c.np.zeros((ncol, ncol, 3)),
                  mag_err_ratio_int=c.np.zeros(nmag), mag_err_ratio_slope=c.np.zeros(nmag), mag_err_ratio_pivot=0.5, corr_z=nz, corr=None, corr_slope_z=numpy.array([0.25, 0.75]), corr_slope=None, corr_r=None, corr2=None, corr2_slope=None, corr2_r=None,
                  volume_factor_z=numpy.array([0.25, 0.5, 0.75]), volume_factor=None, **cols)
    d = dict(nmag=nmag, ref_ind=c.params.get('ref', 1), lval_reference=0.25, calib_use_pcol=c.params.get('pcol', False), calib_color_nsig=1.5, calib_fit_err_ratio=c.params.get('ratio', False), calib_err_ratio_pivot=16.0, calib_covmat_constant=0.75, calib_corr_nocorrslope=c.params.get('noslope', True), b=numpy.array([0.0] * nmag), logger=silent_logger())
    d.update(k)
    s.config = Obj(**d)
    s.do_lupcorr = False
    return M, s


def galaxies(c, n, z, col, rm, nmag=3, **k):
    mag = [[20.0 + i - sum(col[i][:j]) for j in range(nmag)] for i in range(n)]
    err = [[0.0625 * (1 + j) + 0.25 * i for j in range(nmag)] for i in range(n)]
    f = [('id', 'i8'), ('z', 'f8'), ('refmag', 'f8'), ('mag', 'f8', (nmag,)), ('mag_err', 'f8', (nmag,)), ('p', 'f8'), ('pcol', 'f8')] + [(x, 'f8') for x in sorted(k)]
    v = dict(id=list(range(n)), z=z, refmag=rm, mag=mag, mag_err=err, p=[0.5 + 0.125 * i for i in range(n)], pcol=[0.3125 + 0.125 * i for i in range(n)])
    v.update(k)
    return c.mod('galaxy').GalaxyCatalog(c.rec(n, f, v)), err, v


def lin(n, v, x):
    return v[0] + (v[-1] - v[0]) * (x - n[0]) / (n[-1] - n[0])


def median(c, v):
    """by sorting"""
    v = list(v)
    for i in range(len(v)):
        for k in range(i + 1, len(v)):
            if bool(v[k] < v[i]):
                v[i], v[k] = v[k], v[i]
    m = len(v) // 2
    return v[m] if len(v) % 2 else (v[m - 1] + v[m]) / 2


def starts(c):
    """the starting values of the fits: medians around each node, or those of the node before"""
    M, s = calib(c)
    n = c.n
    z = [[0.3, 0.45, 0.55, 0.7][c.index('z%d' % i, 0, 3)] for i in range(n)]
    v = c.reals('v', n, 0, 4)
    m, sc = s._compute_startvals(numpy.array(ZN), numpy.array(z), v, median=True, mincomp=c.params.get('mincomp', 2))
    edges = [(0.25, 0.375), (0.375, 0.625), (0.625, 0.75)]
    pm = ps = 0.0
    for i, (lo, hi) in enumerate(edges):
        u = [k for k in range(n) if lo < z[k] < hi]
        if len(u) >= c.params.get('mincomp', 2):
            pm = median(c, [v[k] for k in u])
            ps = median(c, [abs(v[k] - pm) for k in u])
        c.prove('median', c.eq(m[i], pm))
        c.prove('width', c.eq(sc[i], ps))
    c.prove('one kind of fit', c.raises(lambda: s._compute_startvals(numpy.array(ZN), numpy.array(z), v), RuntimeError) is not None and c.raises(lambda: s._compute_startvals(numpy.array(ZN), numpy.array(z), v, median=True, fit=True), RuntimeError) is not None)
    c.cover('end')


def lines(c):
    """the starting colours and slopes: a robust straight line through the galaxies around each node"""
    M, s = calib(c)
    n = c.n
    z = [[0.3, 0.45, 0.55, 0.7][c.index('z%d' % i, 0, 3)] for i in range(n)]
    x = [0.25 * i - 0.5 for i in range(n)]
    v, err = list(c.reals('v', n, 0, 4)), list(c.reals('e', n, 0, 1))
    log = []
    sl = c.reals('slope', 3, -2, 2)
    q = [0.5, -1.25]

    def least_squares(f, start, loss=None, args=()):
        log.append((list(f(q, *args)), loss, list(start)))
        return Obj(x=[sl[len(log) - 1], 10.0 + len(log)])
    c.patch(M, 'least_squares', least_squares)
    mc = c.params.get('mincomp', 2)
    cv, sv, ev = s._compute_startvals(numpy.array(ZN), numpy.array(z), arr(c, v), xval=numpy.array(x), err=arr(c, err), fit=True, mincomp=mc)
    edges = [(0.25, 0.375), (0.375, 0.625), (0.625, 0.75)]
    k = 0
    pc = ps = 0.0
    pe = 0.1
    for i, (lo, hi) in enumerate(edges):
        u = [j for j in range(n) if lo < z[j] < hi]
        if len(u) >= mc:
            r = log[k][0] if k < len(log) else []
            c.prove('residuals of the galaxies of the node', len(r) == len(u) and c.all([c.eq(a, q[1] + q[0] * x[j] - v[j]) for a, j in zip(r, u)]))
            pc, ps = 11.0 + k, sl[k] if bool(sl[k] < 0) else 0.0
            pe = median(c, [err[j] for j in u])
            k += 1
        c.prove('node', c.eq(cv[i], pc) & c.eq(sv[i], ps) & c.eq(ev[i], pe))
    c.prove('one fit per node', k == len(log))
    c.prove('lengths', c.raises(lambda: s._compute_startvals(numpy.array(ZN), numpy.array(z), arr(c, v), xval=numpy.array(x), err=arr(c, err[1:]), fit=True), ValueError) is not None)
    c.prove('no errors', s._compute_startvals(numpy.array(ZN), numpy.array(z), arr(c, v), xval=numpy.array(x), fit=True, mincomp=9)[2] is None)
    c.cover('end')


class Med(object):
    """stand-in for the median fit"""
    log = None

    def __init__(self, nodes, z, v):
        self.nodes, self.z, self.v = nodes, z, v

    def fit(self, start, min_val=None):
        q = len(self.log)
        self.log.append((self.nodes, self.z, self.v, start, min_val))
        return numpy.array([0.25 + 0.125 * q + 0.0625 * i for i in range(len(self.nodes))])


def medians(c):
    """pivot magnitudes, median colours and widths"""
    n = c.n
    M, s = calib(c)
    z = [0.3125, 0.5, 0.6875, 0.5625][:n]
    rat = c.params.get('ratio')
    col = [[c.real('c%d%d' % (i, j), -1, 2) if (i, j) in ((0, 0), (1, 1)) and not rat else [-0.25, 0.25, 1.0, 2.5][c.index('q%d%d' % (i, j), 0, 3)] if rat and i == j else 0.5 + 0.125 * i + 0.25 * j for j in range(2)] for i in range(n)]
    rm = list(c.reals('rm', n, 16, 20))
    g, err, _ = galaxies(c, n, z, col, rm)
    Med.log = []
    c.patch(M, 'MedZFitter', Med)
    s.zredstr = Obj(mstar=lambda q: 18.0 + c.np.asarray(q) * 2.0)
    near = lambda a, b: a is not None and len(a) == len(b) and c.all([c.eq(x, y) for x, y in zip(a, b)])
    if c.part == 'pivot':
        s.config.lval_reference = c.real('lval', 0.0625, 1.0) if not c.params.get('grid') else [0.0625, 0.125, 0.25, 0.5][c.index('lv', 0, 3)]
        s._calc_pivotmags(g)
        c.prove('median magnitude', len(Med.log) == 1 and near(Med.log[0][0], ZN) and near(Med.log[0][1], z) and near(Med.log[0][2], rm))
        c.prove('pivot', near(s.pars.pivotmag, [0.25, 0.3125, 0.375]))
        lv = s.config.lval_reference - 0.1
        lv = lv if bool(lv > 0.001) else 0.001
        for i, q in enumerate(ZN):
            c.prove('bright limit', c.eq(s.pars.minrefmag[i], 18.0 + 2 * q - 2.5 * math.log10(30.0)))
            c.prove('faint limit', c.eq(s.pars.maxrefmag[i], 18.0 + 2 * q - 2.5 * c.np.log10(lv)))
        c.cover('pivot')
        return
    s._calc_medcols(g)
    L = Med.log
    c.prove('two fits per colour', len(L) == 4)
    for j in range(2):
        c.prove('colour', near(L[2 * j][2], [col[i][j] for i in range(n)]) & near(L[2 * j][1], z) & near(L[2 * j][0], ZN))
        mv = [0.25 + 0.25 * j + 0.0625 * i for i in range(3)]
        sv = [0.25 + 0.25 * j + 0.125 + 0.0625 * i for i in range(3)]
        dev = [col[i][j] - lin(ZN, mv, z[i]) for i in range(n)]
        c.prove('width about the median', near(L[2 * j + 1][2], [d if bool(d >= 0) else -d for d in dev]) & near(L[2 * j + 1][1], z) and L[2 * j + 1][4] == 0.01)
        c.prove('recorded', near(s.pars.medcol[:, j], mv) & near(s.pars.medcol_width[:, j], [1.4826 * x for x in sv]))
        if not s.config.calib_fit_err_ratio:
            c.prove('errors unchanged', c.eq(s.pars.medcol_err_ratio[j], 1.0))
        else:
            # the factor on the colour errors for which the scatter of the pulls is nearest to one
            ce = [math.hypot(err[i][j], err[i][j + 1]) for i in range(n)]
            def off(f):
                pulls = [dev[i] / math.hypot(f * ce[i], 1.4826 * sv[0]) for i in range(n)]
                m0 = median(c, pulls)
                return abs(1.4826 * median(c, [abs(x - m0) for x in pulls]) - 1.0)
            offs = [off(0.5 + 0.1 * k) for k in range(95)]
            got = s.pars.medcol_err_ratio[j]
            c.prove('error ratio', 0.5 <= got <= 10.0 and off(got) <= min(offs) + 1e-6)
    c.cover('colours')


def diagonal(c):
    """one colour at a time, outwards from the reference band"""
    n, nmag = c.n, c.params.get('nmag', 3)
    M, s = calib(c, nmag)
    ncol = nmag - 1
    ref = s.config.ref_ind
    ratio = s.config.calib_fit_err_ratio
    z = [0.3125, 0.5, 0.6875][:n]
    free = c.params.get('free', [[0, 0]])
    lup = c.params.get('lup', False)
    grid = lambda name, *v: v[c.index(name, 0, len(v) - 1)]
    col = [[(grid('c%d%d' % (i, j), -0.5, 0.625, 0.75, 2.0) if lup else c.real('c%d%d' % (i, j), -1, 2)) if [i, j] in free else 0.625 + 0.25 * j + 0.03125 * i for j in range(ncol)] for i in range(n)]
    rm = [grid('rm', 16.0, 17.25, 19.5) if lup else c.real('rm', 16, 20)] + [17.5, 18.25][:n - 1]
    g, err, v = galaxies(c, n, z, col, rm, nmag)
    p = v['pcol'] if s.config.calib_use_pcol else v['p']
    piv = [lin(ZN, [17.0, 17.5, 18.0], q) for q in z]
    calls, ebin, look = [], [], []
    nodes = lambda j: [0.25, 0.5 + 0.0625 * j, 0.75]
    near = lambda a, b: a is not None and len(a) == len(b) and c.all([c.eq(x, y) for x, y in zip(a, b)])

    class Rs(object):
        def __init__(self, nd, zz, cc, me, dmags=None, trunc=None, slope_nodes=None, scatter_nodes=None, lupcorrs=None, probs=None, bkgs=None, scatter_max=None, use_scatter_prior=False, dmags_err_ratio=None):
            self.a = dict(nd=nd, z=zz, c=cc, me=me, dm=dmags, trunc=trunc, sn=slope_nodes, cn=scatter_nodes, probs=probs, bkgs=bkgs, smax=scatter_max, prior=use_scatter_prior, der=dmags_err_ratio)
            self._lupcorrs = lupcorrs
            self.fits = []
            calls.append(self)

        def fit(self, cv, sv, xv, fit_mean=False, fit_slope=False, fit_scatter=False, err_ratio_pars=None, fit_err_ratio_ind=None, **k):
            q = len(self.fits)
            self.fits.append((list(cv), list(sv), list(xv), fit_mean, fit_slope, fit_scatter, err_ratio_pars, fit_err_ratio_ind, list(self._lupcorrs)))
            out = []
            if fit_mean:
                out.append(numpy.array([0.5 + 0.03125 * q + 0.0625 * len(calls) + 0.125 * i for i in range(len(cv))]))
            if fit_slope:
                out.append(numpy.array([-0.125 - 0.03125 * q - 0.0625 * len(calls) - 0.125 * i for i in range(len(sv))]))
            if fit_scatter:
                x = [0.0625 + 0.03125 * q + 0.0625 * len(calls) + 0.125 * i for i in range(len(xv))]
                out.append(numpy.array(x + ([7.0, 8.0] if ratio else [])))
            return tuple(out)
    c.patch(M, 'RedSequenceFitter', Rs)

    class Eb(object):
        def __init__(self, dc, dm, e0, e1, sig2):
            self.a = (dc, dm, e0, e1, sig2)
            ebin.append(self)

        def fit(self, start, scale_indices=None):
            self.ind = list(scale_indices)
            k = len(ebin)
            return [1.0 + 0.125 * k, 0.0625 * k]
    c.patch(M, 'ErrorBinFitter', Eb)
    c.patch(M, 'least_squares', lambda f, x0, loss=None, args=(): Obj(x=numpy.array([-0.25, 0.75])))

    def lookup(j, cc, mm, doRaise=True):
        look.append((j, list(cc), list(mm)))
        return c.np.array([0.5 + 0.25 * j + 0.125 * k for k in range(len(cc))])
    s.bkg = Obj(lookup_diagonal=lookup)
    if lup:
        s.do_lupcorr = True
        s.config.b = numpy.array([2.0 ** -32, 2.0 ** -31, 2.0 ** -30, 2.0 ** -33][:nmag])
        s.bnmgy, s.lupzp = numpy.array([0.5 + 0.25 * q for q in range(nmag)]), 22.5
        lupt = lambda m, q: 2.5 * math.log10(1.0 / s.config.b[q]) - math.asinh(0.5 * 10.0 ** ((m - 22.5) / -2.5) / s.bnmgy[q]) / (0.4 * math.log(10.0))
        model = [{ref: v['mag'][i][ref]} for i in range(n)]
    s._calc_diagonal_pars(g)
    order = [(j - 1, -1, j) for j in range(ref + 1, nmag)] + [(j - 1, 1, j - 1) for j in range(ref, 0, -1)]
    c.prove('every colour once', len(calls) == ncol)
    rint, rslope = [None] * nmag, [None] * nmag
    for k, (j, sign, mind) in enumerate(order):
        a, f = calls[k].a, calls[k].fits
        med = [lin(ZN, [0.5 + 0.25 * j + 0.125 * i for i in range(3)], q) for q in z]
        wid = [lin(ZN, [0.125 + 0.0625 * j + 0.03125 * i for i in range(3)], q) for q in z]
        u = [i for i in range(n) if bool(col[i][j] > med[i] - 1.5 * wid[i]) and bool(col[i][j] < med[i] + 1.5 * wid[i])]
        c.prove('nodes', near(a['nd'], nodes(j)) & near(a['sn'], [0.25, 0.75]) & near(a['cn'], [0.25, 0.625, 0.75]))
        c.prove('galaxies near the red sequence', len(a['z']) == len(u) and near(a['z'], [z[i] for i in u]) & near(a['c'], [col[i][j] for i in u]))
        c.prove('weights', near(a['probs'], [p[i] for i in u]) & near(a['trunc'], [1.5 * wid[i] for i in u]) & near(a['dm'], [rm[i] - piv[i] for i in u]))
        c.prove('background of the same galaxies', look[k][0] == j and near(look[k][1], [col[i][j] for i in u]) & near(look[k][2], [rm[i] for i in u]) & near(a['bkgs'], [0.5 + 0.25 * j + 0.125 * q for q in range(len(u))]))
        wn = [lin(ZN, [0.125 + 0.0625 * j + 0.03125 * i for i in range(3)], q) for q in (0.25, 0.625, 0.75)]
        c.prove('scatter limit', near(a['smax'], wn) and bool(a['prior']))
        e = [[err[i][j], err[i][j + 1]] for i in range(n)]
        if ratio and k > 0:
            q = 1 if sign == 1 else 0
            # the band shared with a colour that is done carries that colour's error ratio
            for i in range(n):
                e[i][q] = e[i][q] * (rint[mind + sign] + rslope[mind + sign] * (rm[i] - 16.0))
        c.prove('errors', c.all([c.eq(a['me'][q][0], e[i][0]) & c.eq(a['me'][q][1], e[i][1]) for q, i in enumerate(u)]) if u else True)
        # the fits are chained
        val = lambda q, kind: {'c': [0.5 + 0.03125 * q + 0.0625 * (k + 1) + 0.125 * i for i in range(3)], 's': [-0.125 - 0.03125 * q - 0.0625 * (k + 1) - 0.125 * i for i in range(2)], 'x': [0.0625 + 0.03125 * q + 0.0625 * (k + 1) + 0.125 * i for i in range(3)]}[kind]
        c.prove('fits', len(f) == 4 and [x[3:6] for x in f] == [(True, False, False), (False, True, False), (False, False, True), (True, True, True)])
        c.prove('each fit starts from the one before', near(f[1][0], val(0, 'c')) & near(f[2][0], val(0, 'c')) & near(f[2][1], val(1, 's')) & near(f[3][0], val(0, 'c')) & near(f[3][1], val(1, 's')) & near(f[3][2], val(2, 'x')))
        c.prove('mean', near(s.pars._ndarray['c%02d' % j], val(3, 'c')))
        c.prove('slope', near(s.pars._ndarray['slope%02d' % j], val(3, 's')))
        c.prove('scatter', near(s.pars.sigma[j, j, :], val(3, 'x')) & near(s.pars.covmat_amp[j, j, :], [x * x for x in val(3, 'x')]))
        if lup:
            def corr(cv, sv):
                out = []
                for i in range(n):
                    mm = model[i]
                    mm[mind] = mm[mind + sign] + sign * (lin(nodes(j), cv, z[i]) + lin([0.25, 0.75], sv, z[i]) * (rm[i] - piv[i]))
                    out.append(lupt(mm[j], j) - lupt(mm[j + 1], j + 1) - (mm[j] - mm[j + 1]))
                return out
            L = corr(f[0][0], f[0][1])
            c.prove('flux correction at the start', near(f[0][8], [L[i] for i in u]))
            L = corr(val(0, 'c'), f[0][1])
            c.prove('updated after the first fit', near(f[1][8], [L[i] for i in u]))
        else:
            c.prove('no flux corrections', near(f[0][8], [0.0] * len(u)))
        if ratio:
            want = [0, 1] if k == 0 else ([0] if sign == 1 else [1])
            b = ebin[k]
            c.prove('error ratio of the new band', b.ind == want and all(list(x[7]) == want for x in f))
            gm = [lin(nodes(j), val(3, 'c'), q) for q in z]
            gs = [lin([0.25, 0.75], val(3, 's'), q) for q in z]
            gx = [lin([0.25, 0.625, 0.75], val(3, 'x'), q) for q in z]
            c.prove('residuals', near(b.a[0], [col[i][j] - gm[i] - gs[i] * (rm[i] - piv[i]) for i in range(n)]) & near(b.a[1], [rm[i] - 16.0 for i in range(n)]) & near(b.a[4], [x * x for x in gx]) &
                    near(b.a[2], [x[0] for x in e]) & near(b.a[3], [x[1] for x in e]))
            r = (1.0 + 0.125 * (k + 1), 0.0625 * (k + 1))
            for q in ([j, j + 1] if k == 0 else [mind]):
                rint[q], rslope[q] = r
    for q in range(nmag):
        c.prove('error ratios', c.eq(s.pars.mag_err_ratio_int[q], rint[q] if ratio else 1.0) & c.eq(s.pars.mag_err_ratio_slope[q], rslope[q] if ratio else 0.0))
    c.cover('end')


def matrix(c):
    """the rest of the covariance, and the volume factor"""
    nmag = c.nmag
    M, s = calib(c, nmag)
    ncol = nmag - 1
    sg = c.reals('s', (ncol, 3), 0.0625, 2)
    for j in range(ncol):
        for i in range(3):
            s.pars.sigma[j, j, i] = sg[j, i]
            s.pars.covmat_amp[j, j, i] = sg[j, i] * sg[j, i]
    r = s.config.calib_covmat_constant = c.real('r', -1, 1)
    s._calc_offdiagonal_pars(None)
    for j in range(ncol):
        for k in range(ncol):
            for i in range(3):
                want = sg[j, i] * sg[k, i] * (1.0 if j == k else r)
                c.prove('covariance', c.eq(s.pars.covmat_amp[j, k, i], want))
                c.prove('correlation', c.eq(s.pars.sigma[j, k, i], sg[j, i] if j == k else r))
    d = {}

    def dl(a, q):
        assert a == 0.0

        def one(x):
            x = round(float(x), 6)
            if x not in d:
                d[x] = c.real('D%d' % len(d), 100, 5000)
            return d[x]
        return one(q) if numpy.ndim(q) == 0 else c.np.array([one(x) for x in q])
    s.config.cosmo = Obj(Dl=dl)
    com = lambda x: dl(0.0, x) / (1.0 + x)
    for x in ZN:
        c.assume(com(x + 0.01) - com(x) > 1)
    s._calc_volume_factor(0.75)
    for i, x in enumerate(ZN):
        c.prove('volume factor', c.eq(s.pars.volume_factor[i] * (com(x + 0.01) - com(x)), com(0.76) - com(0.75)))
    c.cover('end')


def corrections(c):
    """the afterburner: which galaxies, and what is recorded"""
    n = c.n
    M, s = calib(c)
    two = c.two
    grid = [1.0, 1.25, 1.5, 2.0]
    lk = [grid[c.index('l%d' % i, 0, 3)] for i in range(n if not c.params.get('start') else 1)]
    z = [0.3125, 0.5, 0.6875][:n] if not c.params.get('start') else [0.3125, 0.34375, 0.40625, 0.4375, 0.5625, 0.6875, 0.65625, 0.671875][:n]
    if c.params.get('start'):
        lk = lk[:1] + [2.0] * (n - 1)
    zred = [z[i] + ([0.0625, -0.03125, 0.1875][c.index('o%d' % i, 0, 2)] if c.params.get('start') and 0 < i < 4 else 0.03125 * (1 + i % 3) if c.params.get('start') else c.real('d%d' % i, -0.25, 0.25) if i in c.params.get('free', [0]) else 0.03125) for i in range(n)]
    ze = [0.0625] * n
    g, err, v = galaxies(c, n, z, [[0.75, 1.0]] * n, [17.0 + 0.5 * i for i in range(n)], zred=zred, zred_e=ze, lkhd=lk)
    v['pcol'][-1] = v['p'][-1] = 0.995
    g.pcol[-1] = g.p[-1] = 0.995
    p = v['pcol'] if s.config.calib_use_pcol else v['p']
    th = min(lk)
    near = lambda a, b: a is not None and len(a) == len(b) and c.all([c.eq(x, y) for x, y in zip(a, b)])
    use = [i for i in range(n) if lk[i] > th and bool(zred[i] - z[i] < 0.125) and bool(z[i] - zred[i] < 0.125)]
    log = []

    class Fit(object):
        def __init__(self, nodes, zz, dz, e, slope_nodes=None, probs=None, dmags=None, ws=None):
            self.a = (nodes, zz, dz, e, slope_nodes, probs, dmags, ws)
            self.f = []
            log.append(self)

        def fit(self, cv, sv, rv, bv, fit_mean=False, fit_slope=False, fit_r=False, fit_bkg=False):
            q = len(self.f)
            self.f.append(([list(x) for x in (cv, sv, rv, bv)], [fit_mean, fit_slope, fit_r, fit_bkg]))
            out = []
            for k, (on, nn) in enumerate(((fit_mean, 3), (fit_slope, 2), (fit_r, 2), (fit_bkg, 2))):
                if on:
                    out.append(numpy.array([0.5 + 0.25 * k + 0.03125 * q + 0.125 * i for i in range(nn)]))
            return tuple(out)
    c.patch(M, 'CorrectionFitter', Fit)
    s._calc_corrections(g, mode2=two)
    a, f = log[0].a, log[0].f
    c.prove('one fitter', len(log) == 1 and near(a[0], ZN) & near(a[4], [0.25, 0.75]))
    c.prove('galaxies', near(a[1], [(zred if two else z)[i] for i in use]) & near(a[2], [z[i] - zred[i] for i in use]) & near(a[3], [ze[i] for i in use]))
    c.prove('weights', near(a[5], [min(p[i], 0.99) for i in use]) & near(a[6], [17.0 + 0.5 * i - lin(ZN, [17.0, 17.5, 18.0], z[i]) for i in use]) & near(a[7], [1.0 / (math.exp((th - lk[i]) / 0.2) + 1.0) for i in use]))
    slope = not s.config.calib_corr_nocorrslope
    seq = [[True, False, False, False]] + ([[False, True, False, False]] if slope else []) + [[False, False, True, False], [False, False, False, True], [True, slope, True, True]]
    c.prove('fits', [x[1] for x in f] == seq)
    if c.params.get('start'):
        dz = [z[i] - zred[i] for i in range(n)]
        b = []
        for lo, hi in ((0.25, 0.5), (0.5, 0.75)):
            u = sorted([i for i in use if lo < (zred if two else z)[i] < hi], key=lambda i: p[i])
            h = [dz[i] for i in u[:len(u) // 2]]
            b.append((b[-1] if b else 0.0) if len(u) < 3 else sum((x - sum(h) / len(h)) ** 2 for x in h) / len(h))
        m = []
        for lo, hi in ((0.25, 0.375), (0.375, 0.625), (0.625, 0.75)):
            u = [dz[i] for i in range(n) if lo < z[i] < hi]
            m.append(median(c, u) if len(u) >= 3 else m[-1] if m else 0.0)
        c.prove('start of the fits', near(f[0][0][0], m) & near(f[0][0][3], b) & near(f[0][0][2], [1.0, 1.0]))
    val = lambda q, k, nn: [0.5 + 0.25 * k + 0.03125 * q + 0.125 * i for i in range(nn)]
    last = len(f) - 1
    st = f[last][0]
    c.prove('each fit starts from the ones before', near(st[0], val(0, 0, 3)) & near(st[1], val(1, 1, 2) if slope else [0.0, 0.0]) & near(st[2], val(last - 2, 2, 2)) & near(st[3], val(last - 1, 3, 2)))
    got = (s.pars.corr2, s.pars.corr2_slope, s.pars.corr2_r) if two else (s.pars.corr, s.pars.corr_slope, s.pars.corr_r)
    other = (s.pars.corr, s.pars.corr_slope, s.pars.corr_r) if two else (s.pars.corr2, s.pars.corr2_slope, s.pars.corr2_r)
    c.prove('recorded', near(got[0], val(last, 0, 3)) & near(got[1], val(last, 1, 2) if slope else [0.0, 0.0]) & near(got[2], val(last, 2, 2)))
    c.prove('the other correction is untouched', all(x is None for x in other))
    c.cover('end')


def saved(c):
    """what is written is what the red-sequence model reads back"""
    M, s = calib(c)
    zr = [c.real('z0', 0.03125, 0.5), c.real('z1', 0.5, 1.0)]
    lim = c.real('lim', 18, 25)
    al = c.real('al', -1.5, -0.5)
    tmpl = c.params.get('template')
    b = [[0.0, 0.0, 0.0], [0.25, 0.5, 0.75]][c.index('b', 0, 1)]
    s.config.__dict__.update(calib_redgal_template=tmpl, mstar_survey='sdss', mstar_band='i03', limmag_catalog=lim, zrange=zr, calib_lumfunc_alpha=al, zredc_binsize_fine=0.0001, zredc_binsize_coarse=0.005, bands=['g', 'r', 'i'], b=b)
    c.patch(M, 'RedGalInitialColors', lambda t: Obj(zmax=1.125))
    c.patch(M, 'fitsio', Obj(FITSHDR=dict))
    out = []
    s.pars.__class__.to_fits_file = lambda self, f, header=None, clobber=False: out.append((f, header, clobber))
    s.save_pars('/x/p.fit', clobber=True)
    f, h, cl = out[0]
    c.prove('written', len(out) == 1 and f == '/x/p.fit' and cl is True)
    z0 = zr[0] - 0.1
    z1 = zr[1] + 0.25
    c.prove('range', c.eq(h['ZRANGE0'], z0 if bool(z0 > 0.01) else 0.01) & c.eq(h['ZRANGE1'], 1.125 if tmpl and bool(z1 > 1.125) else z1))
    c.prove('header', h['NCOL'] == 2 and h['MSTARSUR'] == 'sdss' and h['MSTARBAN'] == 'i03' and h['REF_IND'] == 1 and h['BANDS'] == 'g,r,i' and h['LOWZMODE'] == 0 and c.eq(h['LIMMAG'], lim) & c.eq(h['ALPHA'], al) & c.eq(h['ZBINFINE'], 0.0001) & c.eq(h['ZBINCOAR'], 0.005))
    c.prove('template', h.get('TEMPLATE') == tmpl)
    c.prove('softening', [h.get('BVALUE%d' % (i + 1)) for i in range(3)] == (b if b[0] > 0 else [None] * 3))
    c.cover('end')


PROPS = {
    'P29': dict(level='model_checking',
                functions=['calibration.redsequencecal.RedSequenceCalibrator.%s' % f for f in ('_compute_startvals', '_calc_pivotmags', '_calc_medcols', '_calc_diagonal_pars', '_calc_offdiagonal_pars', '_calc_volume_factor', '_calc_corrections', 'save_pars')],
                bounds='<= 4 galaxies, 2-4 bands, 3 redshift nodes, every position of the reference band',
                assumptions=['the fitters (property P25) and the spline are stand-ins with distinct results', 'the luptitude correction is evaluated on a grid of colours and magnitudes'],
                instances=[('starts', dict(n=3, covers=['end'])), ('starts', dict(n=4, mincomp=3), 'thorough'), ('lines', dict(n=3, covers=['end'])), ('lines', dict(n=4, mincomp=3), 'thorough'), ('medians', dict(n=3, part='colours', ratio=True)), ('medians', dict(n=3, part='pivot', grid=True, covers=['pivot'])), ('medians', dict(n=3, part='colours', covers=['colours'])),
                           ('diagonal', dict(n=2, covers=['end'])), ('diagonal', dict(n=2, ref=0, ratio=True)), ('diagonal', dict(n=2, ref=2, ratio=True, pcol=True)), ('diagonal', dict(n=2, ref=1, ratio=True)), ('diagonal', dict(n=2, ref=1, lup=True)), ('diagonal', dict(n=2, ref=0, lup=True)),
                           ('diagonal', dict(n=2, nmag=4, ref=2, ratio=True)), ('diagonal', dict(n=3, nmag=4, ref=1, ratio=True, lup=True, free=[[0, 0], [1, 2]]), 'thorough'),
                           ('matrix', dict(nmag=3, covers=['end'])), ('matrix', dict(nmag=4)),
                           ('corrections', dict(n=3, two=False, covers=['end'])), ('corrections', dict(n=3, two=True, pcol=True)), ('corrections', dict(n=3, two=False, noslope=False)), ('corrections', dict(n=2, two=True, free=[0, 1])), ('corrections', dict(n=3, two=True, noslope=False), 'thorough'),
                           ('corrections', dict(n=8, two=False, start=True)), ('corrections', dict(n=8, two=True, start=True, noslope=False)), ('saved', dict(covers=['end'])), ('saved', dict(template='t.fit'))]),
}
