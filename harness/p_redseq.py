"""Red-sequence model: table construction and lookups."""
import math
from .common import Obj


class MS(object):
    """characteristic magnitude stand-in"""
    def __init__(self, survey, band):
        pass

    def __call__(self, z):
        return 11.5 + 2.0 * z


def config(**k):
    d = dict(limmag_catalog=12.055, zrange=[0.25, 0.3125], calib_lumfunc_alpha=-1.0, mstar_survey='x', mstar_band='y', nmag=3,
             calib_redgal_template=None, bands=['g', 'r', 'i'])
    d.update(k)
    return Obj(**d)


def nearest(c, bins, size, x, i):
    """i is the bin nearest to x, the first below the range and the overflow bin above"""
    n = len(bins) - 1
    h = size / 2.0
    if i == n:
        return x >= float(bins[n - 1]) + h - 1e-9
    conds = [x <= float(bins[i]) + h + 1e-9]
    if i > 0:
        conds.append(x >= float(bins[i]) - h - 1e-9)
    return c.all(conds)


def lookup(c):
    """nearest-bin lookups for redshift, magnitude and the luminosity table; scalars and arrays agree"""
    M = c.mod('redsequence')
    c.patch(M, 'MStar', MS)
    r = M.RedSequenceColorPar(None, config=config(zrange=[0.25, 0.256]))
    c.prove('grids', len(r.z) == 7 and abs(r.z[0] - 0.25) < 1e-9 and r.z[-1] > 100 and r.refmagbins[-1] > 100 and r.lumrefmagbins[-1] > 100)
    z = c.real('z', 0.2, 0.3)
    z2 = c.real('z2', 0.25, 0.251)
    i = r.zindex(z)
    c.prove('redshift bin', nearest(c, r.z, 0.001, z, int(i)))
    c.prove('characteristic magnitude', c.eq(r.mstar(z), 11.5 + 2.0 * (float(r.z[int(i)]) if int(i) < 6 else float(r.z[5]))))
    ii = r.zindex(c.np.array([z, z2]))
    c.prove('arrays agree', int(ii[0]) == int(i) and len(ii) == 2)
    c.prove('second', nearest(c, r.z, 0.001, z2, int(ii[1])))
    m = c.real('m', 11.9, 12.2)
    if c.which == 'mag':
        k = r.refmagindex(m)
        c.prove('magnitude bin', nearest(c, r.refmagbins, 0.01, m, int(k)))
        kk = r.refmagindex(c.np.array([m, 12.0]))
        c.prove('magnitude arrays agree', int(kk[0]) == int(k) and int(kk[1]) == 0)
    c.cover('end')


def lumnorm(c):
    """the luminosity normalisation is the running integral of the luminosity function of each redshift bin"""
    M = c.mod('redsequence')
    c.patch(M, 'MStar', MS)
    al = c.real('alpha', -1.5, 0)

    class MS2(object):
        def __init__(self, *a):
            pass

        def __call__(self, z):
            return 9.55 + 0 * z if hasattr(z, '__len__') else 9.55
    c.patch(M, 'MStar', MS2)
    r = M.RedSequenceColorPar(None, config=config(zrange=[0.25, 0.252], calib_lumfunc_alpha=al))
    n = len(r.lumrefmagbins)
    prev = 0
    for i in range(n - 1):
        dm = 0.4 * (9.55 - float(r.lumrefmagbins[i]))
        f = 10.**(0.4 * (al + 1.0) * (9.55 - float(r.lumrefmagbins[i]))) * math.exp(-10.**dm)
        c.prove('increment', c.eq(r.lumnorm[i, 0] - prev, 0.01 * f, 1e-5))
        c.prove('increasing', c.le(prev, r.lumnorm[i, 0]))
        prev = r.lumnorm[i, 0]
    c.prove('per redshift', c.all([c.eq(r.lumnorm[i, 0], r.lumnorm[i, 1]) for i in range(n)]))
    c.cover('end')


def build(c):
    """reading a model: through the nodes, valid covariances, flags, floors"""
    import numpy
    M = c.mod('redsequence')
    c.patch(M, 'MStar', MS)
    nc = c.ncol
    zn = [0.26, 0.28]
    hi = c.params.get('wide', False)
    v = {}
    fields = []

    def add(name, vals, shape=()):
        fields.append((name, 'f8', shape) if shape else (name, 'f8'))
        v[name] = vals
    piv, mx, mn = c.reals('piv', 2, 15, 18) if c.part != 'lup' else numpy.array([15.5, 16.0]), c.reals('mx', 2, 19, 22), c.reals('mn', 2, 12, 15)
    add('PIVOTMAG_Z', zn, (2,))
    add('PIVOTMAG', list(piv), (2,))
    add('MAXREFMAG', list(mx), (2,))
    add('MINREFMAG', list(mn), (2,))
    if c.part == 'lup':
        k = c.index('k', 0, 2)
        C, S = numpy.array([[0.5 + 0.25 * k + 0.125 * j, 1.0 - 0.25 * k] for j in range(nc)]), numpy.array([[0.0625 * k, -0.125] for j in range(nc)])
    else:
        C, S = c.reals('c', (nc, 2), 0, 2), c.reals('s', (nc, 2), -0.25, 0.25)
    for j in range(nc):
        add('Z%02d' % j, zn, (2,))
        add('C%02d' % j, [C[j, 0], C[j, 1]], (2,))
        add('ZS%02d' % j, zn, (2,))
        add('SLOPE%02d' % j, [S[j, 0], S[j, 1]], (2,))
    sg = [[None] * nc for _ in range(nc)]
    for j in range(nc):
        sg[j][j] = c.reals('sd%d' % j, 2, -0.125, 0.25) if c.part == 'cov' and j == 0 else [0.0625, 0.125]
        for k in range(j + 1, nc):
            sg[j][k] = sg[k][j] = c.reals('sr%d%d' % (j, k), 2, -1.5, 1.5) if c.part == 'cov' else [0.5, 0.25]
    add('COVMAT_Z', zn, (2,))
    add('SIGMA', [[[sg[j][k][0], sg[j][k][1]] for k in range(nc)] for j in range(nc)], (nc, nc, 2))
    vf, co, cs, c2, cr, cr2 = [c.reals(nm, 2, lo, up) if c.part == 'corr' or nm[:2] != 'cr' else [0.75, 1.0] for nm, lo, up in (('vf', 0.5, 2), ('co', -0.1, 0.1), ('cs', -0.1, 0.1), ('c2', -0.1, 0.1), ('cr', -1, 2), ('cr2', -1, 2))]
    for nm, x in (('VOLUME_FACTOR', vf), ('CORR', co), ('CORR_SLOPE', cs)):
        add(nm + '_Z', zn, (2,))
        add(nm, list(x), (2,))
    add('CORR2', list(c2), (2,))
    add('CORR2_SLOPE', list(cs), (2,))
    add('CORR_R', list(cr), (2,))
    add('CORR2_R', list(cr2), (2,))
    pars = c.rec(1, fields, {k: [x] for k, x in v.items()})
    hdr = {'LIMMAG': 12.035, 'ZRANGE0': 0.25, 'ZRANGE1': 0.30, 'ALPHA': -1.0, 'MSTARSUR': 'x', 'MSTARBAN': 'y', 'NCOL': nc, 'ZBINFINE': 0.01, 'ZBINCOAR': 0.02,
           'REF_IND': 1}
    tmpl = c.params.get('template')
    if tmpl is not None:
        bands = ['g', 'r', 'i'][:nc + 1]
        hdr.update(TEMPLATE='t.fit', BANDS=tmpl.join(bands))
        T = c.reals('t', (nc, 2), -1, 1)

        def rg(a, b, z):
            j = bands.index(a)
            c.prove('adjacent bands', bands.index(b) == j + 1)
            if c.params.get('lacks') == j:
                raise ValueError('no such colour')
            return c.np.asarray(z) * T[j, 1] + T[j, 0]
        c.patch(M, 'RedGalInitialColors', lambda f: rg)
    bv = [1e-10, 1.5e-10, 3e-10]
    if c.part == 'lup':
        for j in range(nc + 1):
            hdr['BVALUE%d' % (j + 1)] = bv[j]
    c.patch(M.fitsio, 'read', lambda *a, **k: (pars, hdr))
    r = M.RedSequenceColorPar('harness.fit', fine=True)
    if tmpl is not None:
        for i, q in ((0, 1), (4, 3), (5, 3)):
            c.prove('pinned outside the nodes', c.all([c.eq(r.pivotmag[i], r.pivotmag[q])] + [c.eq(r.slope[i, j], r.slope[q, j]) for j in range(nc)]))
            zi, zq = 0.25 + 0.01 * min(i, 4), 0.25 + 0.01 * q
            for j in range(nc):
                if c.params.get('lacks') != j:
                    c.prove('template outside the nodes', c.eq(r.c[i, j], r.c[q, j] + T[j, 1] * (zi - zq), 1e-6))
    if c.part == 'lup':
        for i in range(6):
            for b in range(4):
                rm = 12.0 + 0.01 * min(b, 3)
                col = [float(r.c[i, j]) + float(r.slope[i, j]) * (rm - float(r.pivotmag[i])) for j in range(nc)]
                m = [rm + sum(col[j:1]) - sum(col[1:j]) for j in range(nc + 1)]
                lu = [-2.5 * math.log10(bv[j]) - math.asinh(10.**(-0.4 * (m[j] - 22.5)) / (2 * bv[j] * 1e9)) * 2.5 / math.log(10.0) for j in range(nc + 1)]
                c.prove('luptitude correction', c.all([c.eq(r.lupcorr[b, i, j], lu[j] - lu[j + 1] - col[j], 1e-6) for j in range(nc)]))
    else:
        c.prove('no luptitude correction', c.all([c.eq(x, 0.0) for x in numpy.asarray(r.lupcorr).flat]))
    c.prove('grid', len(r.z) == 6 and all(abs(r.z[i] - 0.25 - 0.01 * i) < 1e-9 for i in range(5)) and r.z[5] > 100 and r.ncol == nc)
    c.prove('extrapolated', [bool(x) for x in r.extrapolated] == [True, False, False, False, True, True])
    at = (1, 3)
    for q, i in enumerate(at):
        c.prove('through the nodes', c.all([c.eq(r.pivotmag[i], piv[q]), c.eq(r.maxrefmag[i], mx[q]), c.eq(r.minrefmag[i], mn[q]), c.eq(r.volume_factor[i], vf[q]),
                                            c.eq(r.corr[i], co[q]), c.eq(r.corr_slope[i], cs[q]), c.eq(r.corr2[i], c2[q])] +
                [c.eq(r.c[i, j], C[j, q]) for j in range(nc)] + [c.eq(r.slope[i, j], S[j, q]) for j in range(nc)]))
        for j in range(nc):
            s = c.np.maximum(sg[j][j][q], 0.01)
            c.prove('intrinsic scatter', c.eq(r.covmat[j, j, i], s * s))
            for k in range(j + 1, nc):
                t = c.np.maximum(sg[k][k][q], 0.01)
                w = c.np.minimum(c.np.maximum(sg[j][k][q], -0.99), 0.99)
                c.prove('covariance', c.eq(r.covmat[j, k, i], w * s * t))
    for i in range(6):
        for j in range(nc):
            c.prove('positive variance', c.le(1e-4, r.covmat[j, j, i]))
            for k in range(j + 1, nc):
                c.prove('symmetric', c.eq(r.covmat[j, k, i], r.covmat[k, j, i]))
                c.prove('invertible', c.lt(r.covmat[j, k, i] * r.covmat[j, k, i], r.covmat[j, j, i] * r.covmat[k, k, i]))
        c.prove('error correction floor', c.all([c.le(0.5, r.corr_r[i]), c.le(0.5, r.corr2_r[i])]))
    c.prove('last bin twice', c.all([c.eq(r.c[5, j], r.c[4, j]) for j in range(nc)] + [c.eq(r.pivotmag[5], r.pivotmag[4])]))
    for q, i in enumerate(at):
        c.prove('error correction', c.eq(r.corr_r[i], c.np.maximum(cr[q], 0.5) if bool(cr[0] > 0) else 1.0) &
                c.eq(r.corr2_r[i], c.np.maximum(cr2[q], 0.5) if bool(cr2[0] > 0) else 1.0))
    c.cover('end')


def rows(c):
    """each chi-squared evaluation uses the model rows of the galaxy's own redshift and magnitude bins, whatever the calling mode"""
    import numpy
    M = c.mod('redsequence')
    G = c.mod('galaxy').GalaxyCatalog
    n, nc, nz, nm = c.n, 2, 3, 3
    r = M.RedSequenceColorPar.__new__(M.RedSequenceColorPar)
    r.nmag, r.ncol = nc + 1, nc
    r.z = numpy.array([0.25, 0.5, 1000.0])
    r.zbinscale = 4
    r.zinteger = numpy.array([1, 2, 4000])
    r.refmagbinscale = 2
    r.refmaginteger = numpy.array([30, 31, 2000])
    r.covmat = c.reals('cov', (nc, nc, nz), -1, 1)
    r.c, r.slope, r.pivotmag = c.reals('c', (nz, nc), 0, 2), c.reals('s', (nz, nc), -1, 1), c.reals('pv', nz, 15, 16)
    r.lupcorr = c.reals('lup', (nm, nz, nc), -1, 1)
    r.mag_err_ratio_intercept, r.mag_err_ratio_slope, r.mag_err_ratio_pivot = c.reals('mi', nc + 1, 0.5, 2), c.reals('ms', nc + 1, -0.25, 0.25), 15.0
    mag = [15.0 + 0.5 * c.index('m%d' % i, 0, 2) for i in range(n)]
    me = c.reals('me', (n, nc + 1), 0.0625, 1)
    me0 = me.copy()
    mg = c.reals('mag', (n, nc + 1), 14, 18)
    g = G(c.rec(n, [('REFMAG', 'f8'), ('REFMAG_ERR', 'f8'), ('MAG', 'f8', (3,)), ('MAG_ERR', 'f8', (3,))],
                dict(REFMAG=mag, REFMAG_ERR=[0.25 + i for i in range(n)], MAG=[[mg[i, j] for j in range(3)] for i in range(n)], MAG_ERR=[[me[i, j] for j in range(3)] for i in range(n)])))
    got = []

    def chisq(covmat, cc, slope, pivotmag, refmag, magerr, color, **k):
        got.append((covmat, cc, slope, pivotmag, refmag, magerr, color, k))
        return 'out'
    c.patch(M, 'compute_chisq', chisq)
    mode = c.mode
    lk = c.flag('lkhd')
    kz = [c.index('z%d' % i, 0, 2) for i in range(n if mode == 'paired' else 1 if mode == 'one' else 2)]
    zv = [0.25 * (1 + k) for k in kz]
    asix = c.flag('asindex')
    if mode == 'one':
        z = (kz[0] if asix else zv[0])
    else:
        z = numpy.array(kz) if asix else numpy.array(zv)
    if mode == 'redshifts':
        out = r.calculate_chisq_redshifts(g[0], z, calc_lkhd=lk, z_is_index=asix)
    else:
        out = r.calculate_chisq(g, z, calc_lkhd=lk, z_is_index=asix)
    c.prove('one evaluation', out == 'out' and len(got) == 1)
    cov, cc, sl, pv, rm, er, col, kw = got[0]
    c.prove('kind', bool(kw.get('calc_lkhd')) == lk and bool(kw.get('calc_chisq')) == (not lk))
    A = c.np.atleast_1d
    nzv = len(kz)
    for q, k in enumerate(kz):
        scalar = len(cov.shape) == 2
        f = (lambda a, *ix: a[ix] if scalar else a[ix + (q,)])
        g2 = (lambda a, j: a[j] if scalar else a[q, j])
        c.prove('covariance row', c.all([c.eq(f(cov, i, j), r.covmat[i, j, k]) for i in range(nc) for j in range(nc)]))
        c.prove('colour row', c.all([c.eq(g2(cc, j), r.c[k, j]) for j in range(nc)] + [c.eq(g2(sl, j), r.slope[k, j]) for j in range(nc)] + [c.eq(A(pv)[q], r.pivotmag[k])]))
    lup = kw['lupcorr']
    for i in range(1 if mode == 'redshifts' else n):
        mi = int(round((mag[i] - 15.0) * 2))
        ks = [kz[i]] if mode == 'paired' else kz
        for q, k in enumerate(ks):
            row = i if mode in ('paired', 'one') else q
            L = (lambda j: lup[j] if len(lup.shape) == 1 else lup[row, j])
            c.prove('luptitude row', c.all([c.eq(L(j), r.lupcorr[mi, k, j]) for j in range(nc)]))
        w = [me0[i, j] * (r.mag_err_ratio_intercept[j] + r.mag_err_ratio_slope[j] * (mag[i] - 15.0)) for j in range(3)]
        one = len(er.shape) == 1
        c.prove('galaxy row', c.all([c.eq(er[j] if one else er[i, j], w[j]) for j in range(3)] + [c.eq(col[j] if one else col[i, j], mg[i, j] - mg[i, j + 1]) for j in range(2)] +
                                    [c.eq(A(rm)[i], mag[i]), c.eq(A(kw['refmagerr'])[i], 0.25 + i)]))
    c.prove('galaxies unchanged', c.all([c.eq(g.mag_err[i, j], me0[i, j]) for i in range(n) for j in range(3)]))
    c.cover('end')


PROPS = {
    'P13': dict(level='model_checking',
                functions=['redsequence.RedSequenceColorPar.__init__', 'redsequence.RedSequenceColorPar.zindex', 'redsequence.RedSequenceColorPar.refmagindex', 'redsequence.RedSequenceColorPar.lumrefmagindex',
                           'redsequence.RedSequenceColorPar.calculate_chisq', 'redsequence.RedSequenceColorPar.calculate_chisq_redshifts', 'redsequence.RedSequenceColorPar.mstar'],
                bounds='<= 2 colours, <= 3 nodes, short redshift grids, <= 2 galaxies',
                assumptions=['the chi-squared kernel is a stand-in where rows are checked (it is P01)'],
                instances=[('lookup', dict(which='z')), ('lookup', dict(which='mag')), ('lumnorm', dict()), ('build', dict(ncol=1, part='corr')), ('build', dict(ncol=2, part='cov')), ('build', dict(ncol=2, part='', template=',')), ('build', dict(ncol=1, part='', template='')), ('build', dict(ncol=2, part='', template=',', lacks=0)), ('build', dict(ncol=2, part='lup')), ('build', dict(ncol=1, part='lup')),
                           ('rows', dict(n=2, mode='one')), ('rows', dict(n=2, mode='paired')), ('rows', dict(n=1, mode='redshifts')), ('rows', dict(n=1, mode='one'))]),
}
