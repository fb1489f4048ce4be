"""Background densities: table construction and lookup (P10)."""
from harness.common import Obj
import math

INF = float('inf')


def is_inf(x):
    return isinstance(x, float) and math.isinf(x) or (hasattr(x, 'dtype') and not hasattr(x, 'expr') and _npinf(x))


def _npinf(x):
    try:
        return bool(math.isinf(float(x)))
    except Exception:
        return False


def cell(c, bins, size, x):
    """indices of the bins [b, b+size] holding x (two when it sits on an edge), by forking"""
    out = []
    for i in range(len(bins)):
        hi = bins[i + 1] if i + 1 < len(bins) else bins[i] + size
        if bool(x >= bins[i]) and bool(x <= hi):
            out.append(i)
    return out


def entry(c, **k):
    return Obj(**{a: (c.np.array(b) if isinstance(b, list) else b) for a, b in k.items()})


def lin(xs, ys, x):
    """piecewise linear, constant outside"""
    if x <= xs[0]:
        return ys[0]
    for a in range(len(xs) - 1):
        if x <= xs[a + 1]:
            t = (x - xs[a]) / (xs[a + 1] - xs[a])
            return ys[a] * (1 - t) + ys[a + 1] * t
    return ys[-1]


def clip0(c, v):
    return c.np.maximum(v, 0.0)


def chisq_obkg(c, tab):
    zero = c.np.zeros((2, 2, 2))
    return entry(c, refmagrange=[15.0, 15.025], refmagbins=[15.0, 15.02], chisqrange=[0.0, 1.25], chisqbins=[0.0, 1.0],
                 lnchisqbins=[0.0, 1.0], zrange=[0.1, 0.1025], zbins=[0.1, 0.102], sigma_g=tab, sigma_lng=zero)


def chisq_build(c):
    """the fine table is the product-linear interpolation of the coarse one, floored at zero"""
    B = c.mod('background')
    tab = c.reals('t', (2, 2, 2), -4, 8)
    c.patch(B, 'Entry', Obj(from_fits_file=lambda f, ext=None: chisq_obkg(c, tab)))
    b = B.Background('x')
    nr, nx, nz = len(b.refmagbins), len(b.chisqbins), len(b.zbins)
    c.prove('shape', tuple(b.sigma_g.shape) == (nr, nx, nz))
    c.prove('covers the range', abs(b.refmagbins[0] - 15.0) < 1e-9 and b.refmagbins[-1] + b.refmagbinsize > 15.025 - 1e-9 and
            b.chisqbins[0] == 0.0 and b.chisqbins[-1] + b.chisqbinsize > 1.25 - 1e-9 and b.zbins[-1] + b.zbinsize > 0.1025 - 1e-9)
    for i in range(nr):
        g = [[clip0(c, lin([15.0, 15.02], [tab[0, j, k], tab[1, j, k]], float(b.refmagbins[i]))) for k in range(2)] for j in range(2)]
        for j in range(nx):
            h = [lin([0.0, 1.0], [g[0][k], g[1][k]], float(b.chisqbins[j])) for k in range(2)]
            for k in range(nz):
                want = lin([0.1, 0.102], h, float(b.zbins[k]))
                c.prove('interpolated', c.eq(b.sigma_g[i, j, k], want))
                c.prove('non-negative', b.sigma_g[i, j, k] >= 0)
    for i in range(nr):
        for k in range(nz):
            c.prove('number', c.eq(b.n[i, k], sum(b.sigma_g[i, j, k] for j in range(nx)) * b.chisqbinsize))
    c.cover('end')


def chisq_lookup(c):
    """density of the bin holding each galaxy; infinite outside, and where there is no data"""
    B = c.mod('background')
    n = c.n
    b = B.Background.__new__(B.Background)
    np = c.np
    b.refmagbins, b.chisqbins, b.zbins = np.array([15.0, 15.25, 15.5]), np.array([0.0, 0.5, 1.0]), np.array([0.25, 0.5, 0.75])
    b.refmagbinsize, b.chisqbinsize, b.zbinsize = 0.25, 0.5, 0.25
    if c.zero:
        t = np.zeros((3, 3, 3)) + 1.0
        t[1, 1, :] = 0.0
        t[2, 0, 1] = 0.0
    else:
        t = c.reals('t', (3, 3, 3), 0.0625, 4)
    b.sigma_g = t
    z = c.real('z', 0, 1.25)
    # the checked galaxy sits between one without a valid bin and one with
    x = np.array([5.0] + list(c.reals('x', n, -0.5, 2)) + [0.75])
    m = np.array([15.125] + list(c.reals('m', n, 14.75, 16)) + [15.125])
    n += 2
    out = b.sigma_g_lookup(z, x, m, allow0=True) if c.allow0 else b.sigma_g_lookup(z, x, m)
    c.prove('length', len(out) == n)
    zi = [k for k in range(3) if bool(z >= b.zbins[k] - 0.125 if k else True) and bool(z <= b.zbins[k] + 0.125 if k < 2 else True)]
    for i in range(n):
        ci, mi = cell(c, b.chisqbins, 0.5, x[i]), cell(c, b.refmagbins, 0.25, m[i])
        if not ci or not mi:
            c.prove('infinite outside', is_inf(out[i]))
            continue
        want = [t[p, q, k] for p in mi for q in ci for k in zi]
        if bool(m[i] == 15.0):
            c.prove('at the bright edge', is_inf(out[i]) or c.any([c.eq(out[i], w) for w in want]))
            continue
        if c.zero and not c.allow0:
            c.prove('no data is infinite', c.any([is_inf(out[i]) if w == 0 else c.eq(out[i], w) for w in want]))
        else:
            c.prove('bin value', False if is_inf(out[i]) else c.any([c.eq(out[i], w) for w in want]))
    c.cover('end')


def zred_build(c):
    B = c.mod('background')
    tab = c.reals('t', (2, 2), 0.0625, 8)
    o = entry(c, refmagrange=[15.0, 15.035], refmagbins=[15.0, 15.02], zredrange=[0.1, 0.1035], zredbins=[0.1, 0.102], sigma_g=tab)
    c.patch(B, 'Entry', Obj(from_fits_file=lambda f, ext=None: o))
    b = B.ZredBackground('x')
    nr, nz = len(b.refmagbins), len(b.zredbins)
    fl = c.np.minimum(c.np.minimum(tab[0, 0], tab[0, 1]), c.np.minimum(tab[1, 0], tab[1, 1]))
    c.prove('shape', tuple(b.sigma_g.shape) == (nr, nz) and b.refmagbins[-1] + b.refmagbinsize > 15.035 - 1e-9 and b.zredbins[-1] + b.zredbinsize > 0.1035 - 1e-9)

    def ex(x0, x1, y0, y1, x):
        t = (x - x0) / (x1 - x0)
        return c.np.maximum(y0 * (1 - t) + y1 * t, fl)
    for i in range(nr):
        h = [ex(15.0, 15.02, tab[0, k], tab[1, k], float(b.refmagbins[i])) for k in range(2)]
        for k in range(nz):
            c.prove('interpolated', c.eq(b.sigma_g[i, k], ex(0.1, 0.102, h[0], h[1], float(b.zredbins[k]))))
            c.prove('floored', c.le(fl, b.sigma_g[i, k]))
    c.cover('end')


def zred_lookup(c):
    B = c.mod('background')
    n = c.n
    np = c.np
    b = B.ZredBackground.__new__(B.ZredBackground)
    b.refmagbins, b.zredbins = np.array([15.0, 15.25, 15.5]), np.array([0.25, 0.5, 0.75])
    b.refmagbinsize, b.zredbinsize = 0.25, 0.25
    b.zredrange, b.refmagrange = np.array([0.25, 1.0]), np.array([15.0, 15.75])
    b.zred_index, b.refmag_index = 0, 1
    t = b.sigma_g = c.reals('t', (3, 3), 0.0625, 4)
    z = np.array([0.0] + list(c.reals('z', n, 0, 1)) + [0.625])
    m = np.array([15.125] + list(c.reals('m', n, 14.75, 15.75)) + [15.375])
    n += 2
    out = b.sigma_g_lookup(z, m)
    for i in range(n):
        zi, mi = cell(c, b.zredbins, 0.25, z[i]), cell(c, b.refmagbins, 0.25, m[i])
        if not zi or not mi:
            c.prove('infinite below', is_inf(out[i]))
        elif bool(z[i] == 0.25) or bool(m[i] == 15.0):
            c.prove('at the edge', is_inf(out[i]) or c.any([c.eq(out[i], t[p, q]) for p in mi for q in zi]))
        else:
            c.prove('bin value', False if is_inf(out[i]) else c.any([c.eq(out[i], t[p, q]) for p in mi for q in zi]))
    c.cover('end')


def color_lookup(c):
    """colour background: density and normalised background of the bin holding each galaxy"""
    M = c.mod('color_background')
    n = c.n
    np = c.np
    b = M.ColorBackground.__new__(M.ColorBackground)
    cb, c2, rb = np.array([0.0, 0.25, 0.5]), np.array([1.0, 1.25]), np.array([15.0, 15.25])
    if c.zero:
        t = np.zeros((2, 3)) + 1.0
        t[1, 1] = 0.0
    else:
        t = c.reals('t', (2, 3), 0.0625, 4)
    s = c.reals('s', (2, 3), 0.0625, 4) if not c.zero else t
    nn = c.reals('nn', 2, 0.5, 4)
    od = c.reals('o', (2, 2, 3), 0, 4)
    b.bkgs = {101: dict(colbins=cb, colbinsize=0.25, refmagbins=rb, refmagbinsize=0.25, bc=t, n=nn, sigma_g=s, col1=1, col2=1),
              102: dict(col1bins=cb, col2bins=c2, col1binsize=0.25, col2binsize=0.25, refmagbins=rb, refmagbinsize=0.25, bc=od, n=nn, col1=1, col2=2)}
    x = np.array([5.0] + list(c.reals('x', n, 0.03125, 1.0)) + [0.375])
    y = np.array([1.125] + list(c.reals('y', n, 1.03125, 1.75)) + [1.375])
    m = np.array([15.125] + list(c.reals('m', n, 15.03125, 15.75)) + [15.375])
    n += 2
    if c.off:
        out = b.lookup_offdiag(1, 2, x, y, m) if not c.swap else b.lookup_offdiag(2, 1, y, x, m)
    elif c.norm:
        out = b.lookup_diagonal(1, x, m)
    else:
        out = b.sigma_g_diagonal(1, x, m)
    for i in range(n):
        ci, yi, mi = cell(c, cb, 0.25, x[i]), cell(c, c2, 0.25, y[i]) if c.off else None, cell(c, rb, 0.25, m[i])
        if c.off:
            ci, yi, mi = ci or [2], yi or [1], mi or [1]
            c.prove('two-colour value', c.any([c.eq(out[i] * nn[p], od[p, q, r]) for p in mi for q in yi for r in ci]))
        elif c.norm:
            ci, mi = ci or [2], mi or [1]
            c.prove('normalised value', c.any([c.eq(out[i] * nn[p], t[p, r]) for p in mi for r in ci]))
        elif not ci or not mi:
            c.prove('infinite beyond', is_inf(out[i]))
        else:
            want = [s[p, r] for p in mi for r in ci]
            if c.zero:
                c.prove('no data is infinite', c.any([is_inf(out[i]) if w == 0 else c.eq(out[i], w) for w in want]))
            else:
                c.prove('bin value', False if is_inf(out[i]) else c.any([c.eq(out[i], w) for w in want]))
    c.prove('unknown colours', c.raises(lambda: b.lookup_diagonal(3, x, m), KeyError) is not None and
            c.raises(lambda: b.lookup_offdiag(1, 3, x, y, m), KeyError) is not None)
    z1, z2 = b.lookup_diagonal(3, x, m, doRaise=False), b.lookup_offdiag(1, 3, x, y, m, doRaise=False)
    c.prove('unknown colours are zero', c.all([c.eq(v, 0.0) for v in list(z1) + list(z2)]) and len(z1) == n and len(z2) == n)
    c.cover('end')


def line(xs, ys, x):
    """two nodes, extended beyond them"""
    t = (x - xs[0]) / (xs[1] - xs[0])
    return ys[0] * (1 - t) + ys[1] * t


def color_build(c):
    """the fine colour tables interpolate the coarse ones, floored at zero; their normalisation makes the background a density in colour"""
    M = c.mod('color_background')
    np = c.np
    size = c.params.get('size', 0.02)
    lo = -4 if c.params.get('neg') else 0.0625
    R = [15.0, 15.02]
    diag = entry(c, refmagrange=[15.0, 15.025], refmagbins=R, areas=[2.0, 4.0], dtype=Obj(names=('areas',)) if c.params.get('areas') else Obj(names=()), colbins=[1.0, 1.0 + size], colrange=[1.0, 1.0 + 2 * size - 0.005], colbinsize=size, bc=c.reals('d', (2, 2), lo, 8))
    cross = entry(c, refmagrange=[15.0, 15.025], refmagbins=R, areas=[2.0, 4.0], dtype=diag.dtype, col1bins=[1.0, 1.02], col1range=[1.0, 1.025], col1binsize=0.02, col2bins=[2.0, 2.02], col2range=[2.0, 2.025], col2binsize=0.02, bc=c.reals('x', (2, 2, 2), lo, 8) if c.params.get('cross') else np.ones((2, 2, 2)))
    d2 = entry(c, refmagrange=[15.0, 15.025], refmagbins=R, areas=[2.0, 4.0], dtype=diag.dtype, colbins=[2.0, 2.02], colrange=[2.0, 2.025], colbinsize=0.02, bc=np.ones((2, 2)) * 3.0)
    exts = [Obj(get_extname=lambda n=n: n, e=e, read_header=lambda: dict(AREA=5.0)) for n, e in (('00_00_REF', diag), ('00_01_REF', cross), ('01_01_REF', d2))]
    c.patch(M, 'fitsio', Obj(FITS=lambda f: [None] + exts))
    c.patch(M, 'Entry', Obj(from_fits_ext=lambda e: e.e))
    use = c.params.get('use', False)
    b = M.ColorBackground('x', usehdrarea=use)
    c.prove('every pair', sorted(b.bkgs) == [0, 1, 101])
    area = lambda r: (line(R, [2.0, 4.0], r) if c.params.get('areas') else 5.0) if use else 1.0
    k = b.bkgs[0]
    rb, cb = [float(x) for x in k['refmagbins']], [float(x) for x in k['colbins']]
    c.prove('covers the range', abs(rb[0] - 15.0) < 1e-9 and rb[-1] + 0.01 > 15.025 and abs(cb[0] - 1.0) < 1e-9 and cb[-1] + 0.01 > 1.0 + 2 * size - 0.005 and k['colbinsize'] == 0.01 and k['refmagbinsize'] == 0.01 and
            all(abs(rb[i + 1] - rb[i] - 0.01) < 1e-9 for i in range(len(rb) - 1)) and all(abs(cb[i + 1] - cb[i] - 0.01) < 1e-9 for i in range(len(cb) - 1)))
    t = diag.bc
    for i, r in enumerate(rb):
        g = [clip0(c, line(R, [t[0, j], t[1, j]], r)) for j in range(2)]
        c.prove('normalisation', c.eq(k['n'][i], (g[0] + g[1]) * size))
        for j, x in enumerate(cb):
            want = clip0(c, line([1.0, 1.0 + size], g, x))
            c.prove('interpolated', c.eq(k['bc'][i, j], want))
            c.prove('density', c.eq(k['sigma_g'][i, j] * area(r), want))
    k = b.bkgs[1]
    t = cross.bc
    for i, r in enumerate(rb):
        g = [[clip0(c, line(R, [t[0, q, p], t[1, q, p]], r)) for p in range(2)] for q in range(2)]
        tot = 0.0
        for p, x in enumerate(k['col1bins']):
            h = [clip0(c, line([1.0, 1.02], g[q], float(x))) for q in range(2)]
            for q, y in enumerate(k['col2bins']):
                want = clip0(c, line([2.0, 2.02], h, float(y)))
                tot = tot + want
                c.prove('interpolated', c.eq(k['bc'][i, q, p], want))
                c.prove('density', c.eq(k['sigma_g'][i, q, p] * area(r), want))
        c.prove('normalisation', c.eq(k['n'][i], tot * 0.0001))
    k = b.bkgs[101]
    c.prove('second colour', c.all([c.eq(k['bc'][i, j], 3.0) for i in range(len(rb)) for j in range(len(k['colbins']))] + [c.eq(k['n'][i], 0.12) for i in range(len(rb))]))
    c.prove('ranges', c.all([c.eq(b.get_colrange(1)[0], 2.0), c.eq(b.get_colrange(1)[1], 2.025), c.eq(b.get_colrange(0)[0], 1.0)]))
    c.cover('end')


PROPS = {
    'P10': dict(level='model_checking',
                functions=['background.Background.__init__', 'background.Background.sigma_g_lookup', 'background.ZredBackground.__init__',
                           'background.ZredBackground.sigma_g_lookup', 'color_background.ColorBackground.sigma_g_diagonal',
                           'color_background.ColorBackground.lookup_diagonal', 'color_background.ColorBackground.__init__', 'color_background.ColorBackground.get_colrange', 'color_background.ColorBackground.lookup_offdiag'],
                bounds='coarse tables of 2 nodes per axis, fine tables of <= 4 bins per axis, <= 2 galaxies per lookup',
                assumptions=['the FITS reader is a stand-in returning arbitrary tables'],
                instances=[('chisq_build', dict(covers=['end'])), ('zred_build', dict(covers=['end'])),
                           ('chisq_lookup', dict(n=1, zero=False, allow0=False, covers=['end'])),
                           ('chisq_lookup', dict(n=1, zero=True, allow0=False)), ('chisq_lookup', dict(n=1, zero=True, allow0=True)),
                           ('chisq_lookup', dict(n=2, zero=False, allow0=False, budget=60), 'thorough'),
                           ('zred_lookup', dict(n=1, covers=['end'])), ('zred_lookup', dict(n=2), 'thorough'),
                           ('color_lookup', dict(n=1, zero=False, off=False, norm=False)), ('color_lookup', dict(n=1, zero=True, off=False, norm=False)),
                           ('color_lookup', dict(n=1, zero=False, off=False, norm=True)),
                           ('color_lookup', dict(n=1, zero=False, off=True, swap=False, norm=False)),
                           ('color_lookup', dict(n=1, zero=False, off=True, swap=True, norm=False)),
                           ('color_build', dict(covers=['end'])), ('color_build', dict(size=0.05, use=True, areas=True)), ('color_build', dict(cross=True, use=True)), ('color_build', dict(size=0.1)), ('color_build', dict(neg=True), 'thorough')]),
}
