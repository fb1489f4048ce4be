"""Depth maps, volume limits and survey areas (the sparse healpix maps are stand-ins)."""
import math
import numpy
from .common import refuse, Obj, silent_logger


class SparseMap(object):
    """healpix map stand-in: pixel p covers right ascensions [p, p+1)"""
    files = {}
    written = {}

    def __init__(self, c, pixels, fields, values, nside=64):
        self.c, self.pix, self.fields, self.vals = c, list(pixels), list(fields), values
        self.nside_sparse, self.nside_coverage = nside, 32

    @property
    def valid_pixels(self):
        return numpy.array(self.pix, dtype=numpy.int64)

    @property
    def dtype(self):
        return numpy.dtype(self.fields)

    def get_values_pix(self, pixels, **k):
        c = self.c
        rows = [int(p) for p in pixels]
        out = {}
        for f in self.fields:
            out[f[0]] = [self.vals[f[0]][self.pix.index(p)] if p in self.pix else (-1.6375e+30 if numpy.dtype(f[1]).kind == 'f' else 0) for p in rows]
        return c.rec(len(rows), self.fields, {k_: c.np.array(v) for k_, v in out.items()} if rows else {})

    def get_values_pos(self, ra, dec, lonlat=False, valid_mask=False):
        assert lonlat
        for d in dec:
            if bool(d > 90.0) or bool(d < -90.0):
                refuse(ValueError('lat out of range'))
        return self.get_values_pix([math.floor(float(r)) for r in ra])

    def update_values_pix(self, pixels, values, **k):
        for i, p in enumerate(pixels):
            assert int(p) not in self.pix
            self.pix.append(int(p))
            for f in self.fields:
                self.vals.setdefault(f[0], []).append(values[f[0]][i])

    def write(self, name, **k):
        SparseMap.written[name] = self


def maps(c, M, files, hdr=None):
    """healsparse and header access of a module, on stand-in files"""
    SparseMap.written = {}

    class Reader(object):
        @staticmethod
        def read(name, pixels=None, header=False, **k):
            if name not in SparseMap.written and name not in files:
                raise OSError('no such file: %s' % name)
            m = SparseMap.written[name] if name in SparseMap.written else files[name]
            return (m, hdr) if header else m

        @staticmethod
        def make_empty(nside_coverage, nside_sparse, dtype, primary=None, **k):
            return SparseMap(c, [], dtype, {}, nside_sparse)
    c.patch(M.healsparse, 'HealSparseMap', Reader)

    def header(name, ext=None):
        return dict(PIXTYPE='HEALSPARSE') if ext == 1 else dict(NSIDE=32, NSIG=10.0, ZP=22.5, NBAND=1, W=hdr['W'] if hdr and 'W' in hdr else 0.0, EFF=1.0)
    c.patch(M.fitsio, 'read_header', header)


DEPTH = [('exptime', 'f8'), ('limmag', 'f8'), ('m50', 'f8'), ('fracgood', 'f8')]


def zmax(c):
    """a pixel reaches the first redshift at which the luminosity limit is fainter than its depth, in every band"""
    M = c.mod('volumelimit')
    n = c.n
    nb = c.nband
    lim0 = [c.real('m%d' % i, 18, 24) for i in range(n)]
    frac = [0.25 * (i + 1) for i in range(n)]
    f1, f2 = __file__, __file__.replace('p_vlim', 'common')
    files = {f1: SparseMap(c, [5, 7, 9][:n], DEPTH, dict(exptime=[100.0] * n, limmag=lim0, m50=lim0, fracgood=frac))}
    pix2 = [9, 3, 5][:3]
    exq, lq = [100.0, 200.0, 400.0], [x + c.params.get('deep', 0.0) for x in (20.0, 21.0, 20.5)]
    files[f2] = SparseMap(c, pix2, DEPTH, dict(exptime=exq, limmag=lq, m50=lq, fracgood=[1.0] * 3))
    maps(c, M, files, dict(NSIG=10.0, ZP=22.5))
    zb = [0.25 + 0.001 * (i + 1) for i in range(4)]
    grid = [0.2495 + 0.001 * i for i in range(7)]
    # m* grows with redshift
    ms = [c.real('s%d' % i, 18, 22) for i in range(4)] if c.params.get('freems') else [19.0, 19.5, 20.25, 21.0]
    for i in range(3):
        c.assume(ms[i] < ms[i + 1])
    col = c.reals('c', 7, -0.25, 0.25) if nb else [0.0] * 7
    slope = 0.125
    zs = Obj(z=numpy.array(grid), mstar=lambda z: c.np.array([ms[int(round((float(x) - 0.251) / 0.001))] for x in z]),
             c=c.np.array([[0.5 * k + x for k in range(2)] for x in col]), slope=numpy.full((7, 2), slope), pivotmag=numpy.full(7, 20.0))
    c.patch(M, 'RedSequenceColorPar', lambda *a, **k: zs)
    bands = ['g', 'r', 'i']
    cfg = Obj(depthfile=f1, vlim_depthfiles=[f2] if nb else [], parfile='x', zrange=[0.25, 0.2535], bands=bands, refmag='r' if c.params.get('mid', True) else 'i', refmag_ind=1,
              vlim_bands=[c.params.get('band', 'g')], vlim_nsigs=[5.0], logger=silent_logger(), d=Obj(hpix=[], nside=0), border=0.0, area_finebin=0.001, maskfile=f1)
    lstar = 0.25
    v = M.VolumeLimitMask(cfg, lstar, vlimfile='/nonexistent/vlim.hs')
    got = v.calc_zmax(numpy.array([5.5, 7.5, 9.5][:n]), numpy.zeros(n))
    gz, gf = v.calc_zmax(numpy.array([5.5, 7.5, 9.5][:n]), numpy.zeros(n), get_fracgood=True)
    L = [m - 2.5 * math.log10(lstar) for m in ms]
    ri, bi = bands.index(cfg.refmag), bands.index(cfg.vlim_bands[0])
    zi = [next(k for k in range(7) if grid[k] > z) for z in zb]
    L2 = []
    for q in range(4):
        k = zi[q]
        x = L[q]
        for j in range(bi, ri):
            x = x + zs.c[k, j] + slope * (L[q] - 20.0)
        for j in range(ri, bi):
            x = x - (zs.c[k, j] + slope * (L[q] - 20.0))
        L2.append(x)
    if nb and ri != bi:
        for i in range(3):
            c.assume(L2[i] < L2[i + 1])

    def reach(d, Ls):
        for q in range(4):
            if bool(Ls[q] > d):
                return q
        return 3
    for i in range(n):
        q = reach(lim0[i], L) if bool(lim0[i] > L[0]) else 0
        if nb and ri != bi:
            p = [5, 7, 9][i]
            if p not in pix2:
                q = 0
            else:
                # depth of the other band at the requested significance
                e, l = exq[pix2.index(p)], lq[pix2.index(p)]
                f = 10.**((l - 22.5) / -2.5)
                n2 = 25.0
                fn = max(f * f * e / 100.0 - f, 0.001)
                d2 = 22.5 - 2.5 * math.log10((n2 + math.sqrt(n2 * n2 + 4 * e * n2 * fn)) / (2 * e))
                q = min(q, reach(d2, L2) if bool(L2[0] < d2) else 0)
        want = zb[q] if q > 0 else 0.0
        c.prove('maximum redshift', c.eq(got[i], want, 1e-5))
        c.prove('with coverage', c.eq(gz[i], want, 1e-5) & (c.eq(gf[i], frac[i]) if q > 0 else c.le(gf[i], 0.0)))
        c.cover('in' if q > 0 else 'out')


def poles(c):
    """positions outside the mask or beyond the poles have no volume"""
    M = c.mod('volumelimit')
    d = c.real('dec', -180, 180)
    r = c.params['ra']
    z, fg = c.real('z', 0, 1), c.real('f', 0, 1)
    f1 = __file__
    maps(c, M, {f1: SparseMap(c, [5], [('fracgood', 'f8'), ('zmax', 'f8')], dict(fracgood=[fg], zmax=[z]))})
    cfg = Obj(d=Obj(hpix=[], nside=0), border=0.0, zrange=[0.1, 0.5], area_finebin=0.1)
    v = M.VolumeLimitMask(cfg, 0.2, vlimfile=f1)
    gz, gf = v.calc_zmax(numpy.array([r]), c.np.array([d]), get_fracgood=True)
    inside = r == 5.5 and bool(d <= 90.0) and bool(d >= -90.0)
    c.prove('zmax', c.eq(gz[0], z if inside else 0.0))
    c.prove('coverage', c.eq(gf[0], fg) if inside else c.le(gf[0], 0.0))
    g2 = v.calc_zmax(numpy.array([r]), c.np.array([d]))
    c.prove('same', c.eq(g2[0], gz[0]))
    c.prove('lengths must agree', c.raises(lambda: v.calc_zmax(numpy.array([r, r]), c.np.array([d])), ValueError) is not None)
    c.cover('end')


def areas(c):
    """the area at a redshift is the covered area of the pixels that reach beyond it"""
    M = c.mod('volumelimit')
    n = c.n
    z = c.reals('z', n, 0.125, 1)
    fg = c.reals('f', n, 0, 1)
    f1 = __file__
    maps(c, M, {f1: SparseMap(c, [5, 7, 9][:n], [('fracgood', 'f8'), ('zmax', 'f8')], dict(fracgood=fg, zmax=z))})
    cfg = Obj(d=Obj(hpix=[], nside=0), border=0.0, zrange=[0.25, 0.8], area_finebin=0.25)
    v = M.VolumeLimitMask(cfg, 0.2, vlimfile=f1)
    a = v.get_areas()
    px = 4 * math.pi * (180.0 / math.pi)**2 / (12 * 64.0**2)
    c.prove('grid', len(a) == 3 and all(abs(float(a.z[i]) - 0.25 - 0.25 * i) < 1e-6 for i in range(3)))
    for i in range(3):
        zz = 0.25 + 0.25 * i
        want = 0.0
        for k in range(n):
            want = want + (fg[k] * px if bool(z[k] > zz) else 0.0)
        c.prove('area', c.eq(a.area[i], want, 1e-4))
    f = M.VolumeLimitMaskFixed(Obj(zrange=[0.25, 0.8], area_finebin=0.25, area=fg[0]))
    b = f.get_areas()
    c.prove('fixed', len(b) == 3 and c.all([c.eq(b.area[i], fg[0], 1e-5) for i in range(3)]))
    c.prove('fixed maximum', c.eq(f.calc_zmax(numpy.array([1.0]), numpy.array([1.0])), 0.8))
    c.cover('end')


def dmap(c, files, f1, w=0.0, **k):
    M = c.mod('depthmap')
    maps(c, M, files, dict(NSIG=10.0, ZP=22.5, W=w))
    cfg = Obj(depthfile=f1, d=Obj(hpix=k.get('hpix', []), nside=k.get('nside', 0)), border=k.get('border', 0.0), galfile_nside=8, logger=silent_logger(), area=3.5)
    return M, M.DepthMap(cfg)


def depth(c):
    """depth and coverage at a position; unseen beyond the map and the poles"""
    d = c.real('dec', -180, 180)
    x = c.reals('x', 3, 1, 30)
    fg = c.real('f', 0, 1)
    f1 = __file__
    M, dm = dmap(c, {f1: SparseMap(c, [5], DEPTH, dict(exptime=[x[0]], limmag=[x[1]], m50=[x[2]], fracgood=[fg]))}, f1)
    ra = numpy.array([c.params['ra']])
    lm, ex, m5 = dm.get_depth_values(ra, c.np.array([d]))
    g = dm.get_fracgoods(ra, c.np.array([d]))
    if c.params['ra'] == 5.5 and bool(d <= 90.0) and bool(d >= -90.0):
        c.prove('depth inside', c.all([c.eq(lm[0], x[1]), c.eq(ex[0], x[0]), c.eq(m5[0], x[2]), c.eq(g[0], fg)]))
    else:
        c.prove('unseen outside', c.all([c.lt(lm[0], -1.0), c.lt(ex[0], -1.0), c.lt(m5[0], -1.0), c.le(g[0], 0.0)]))
    for f in (dm.get_depth_values, dm.get_fracgoods):
        c.prove('lengths must agree', c.raises(lambda: f(numpy.array([1.0, 2.0]), c.np.array([d])), ValueError) is not None)
    c.cover('end')


def maskdepth(c):
    """mask galaxies get the depth at their own position, or a typical one where the map has none"""
    n = c.n
    dec = c.dec
    lim = c.reals('l', n, 18, 24)
    ex = c.reals('e', n, 10, 100)
    m5 = c.reals('m', n, 18, 24)
    seen = [c.bool('seen%d' % i) for i in range(n)] if not c.params.get('seen') else [bool(x) for x in c.params['seen']]
    f1 = __file__
    pix = [i for i in range(n) if bool(seen[i])]
    M, dm = dmap(c, {f1: SparseMap(c, [10 + i for i in pix], DEPTH, dict(exptime=[ex[i] for i in pix], limmag=[lim[i] for i in pix], m50=[m5[i] for i in pix], fracgood=[1.0] * len(pix)))}, f1, w=0.25)
    C = c.mod('catalog')
    scale = 0.5
    y = c.real('y', -8, 8)
    # offsets in Mpc chosen to land in consecutive pixels
    xs = [(0.5 + i) * scale * math.cos(math.radians(dec)) for i in range(n)]
    mg = C.Catalog(c.rec(n, [(k, 'f8') for k in ('X', 'Y', 'W', 'LIMMAG', 'EXPTIME', 'M50', 'ZP', 'NSIG', 'EFF')], dict(X=xs, Y=c.np.array([y] + [0.0] * (n - 1)), LIMMAG=[7.0] * n)))
    dm.calc_maskdepth(mg, 10.0, dec, scale)
    d0 = dec + y / scale
    ok = [i for i in pix if i > 0 or (bool(d0 < 90.0) and bool(d0 > -90.0))]
    c.prove('survey constants', c.all([c.eq(mg.w[i], 0.25) for i in range(n)] + [c.eq(mg.zp[0], 22.5), c.eq(mg.nsig[0], 10.0)]))

    def typical(v):
        if not ok:
            return None
        if len(ok) < 3:
            return sum(v[i] for i in ok) / len(ok)
        return 'median'
    for nm, v, none in (('limmag', lim, 1.0), ('exptime', ex, 1000.0), ('m50', m5, 0.0)):
        a = getattr(mg, nm)
        for i in range(n):
            if i in ok:
                c.prove('own depth', c.eq(a[i], v[i]))
            else:
                t = typical(v)
                if t is None:
                    c.prove('bad region', c.eq(a[i], none))
                elif isinstance(t, str):
                    # half of the good ones on either side
                    srt = c.np.sort(c.np.array([v[j] for j in ok]))
                    h = len(ok) // 2
                    c.prove('typical depth', c.eq(a[i], srt[h] if len(ok) % 2 else (srt[h - 1] + srt[h]) / 2.0))
                else:
                    c.prove('typical depth', c.eq(a[i], t))
    c.cover('n%d' % len(ok))


def deptharea(c):
    """area by depth: everything for a bright limit, shrinking as the limit gets fainter, never more than there is"""
    n = c.n
    m5 = c.reals('m', n, 18, 24)
    fg = c.reals('f', n, 0, 1) if c.frac else [1.0] * n
    f1 = __file__
    M, dm = dmap(c, {f1: SparseMap(c, [4 + i for i in range(n)], DEPTH, dict(exptime=[1.0] * n, limmag=m5, m50=m5, fracgood=fg))}, f1, w=c.params.get('w', 0.25))
    q = c.reals('q', 2, 17, 25)
    c.assume(q[0] <= q[1])
    a = dm.calc_areas(c.np.array([17.0] + list(q)))
    px = 4 * math.pi * (180.0 / math.pi)**2 / (12 * 64.0**2)
    if c.params.get('w', 0.25) < 0:
        c.prove('no depth information', c.all([c.eq(x, 3.5) for x in a]))
        return
    tot = sum(fg) * px
    c.prove('whole area', c.eq(a[0], tot, 1e-6))
    c.prove('bounded', c.all([c.le(a[i], tot, 1e-6) & c.le(0.0, a[i]) for i in (1, 2)]))
    c.prove('shrinks with depth', c.le(a[2], a[1], 1e-6))
    if not c.frac:
        for i in (0, 1):
            k = sum(1 for x in m5 if bool(x >= q[i]))
            # the tabulated area may include up to two pixels at the depth boundary
            c.prove('area deeper than the limit', c.le(min(k, n) * px * (1 - 1e-9), a[i + 1]) & c.le(a[i + 1], min(k + 2, n) * px * (1 + 1e-9)))
    c.cover('end')


PROPS = {
    'P17': dict(level='model_checking',
                functions=['volumelimit.VolumeLimitMask._build_mask', 'volumelimit.VolumeLimitMask.calc_zmax', 'volumelimit.VolumeLimitMask.get_areas', 'volumelimit.VolumeLimitMaskFixed.get_areas',
                           'depthmap.DepthMap.get_depth_values', 'depthmap.DepthMap.get_fracgoods', 'depthmap.DepthMap.calc_maskdepth', 'depthmap.DepthMap.calc_areas'],
                bounds='<= 4 map pixels, 4 fine redshift bins, <= 2 bands, <= 4 mask points',
                assumptions=['the sparse healpix map and its file headers are stand-ins holding arbitrary values', 'the characteristic magnitude grows with redshift'],
                instances=[('zmax', dict(n=2, nband=0, freems=True, covers=['in', 'out'])), ('zmax', dict(n=2, nband=1, covers=['in', 'out'])), ('zmax', dict(n=2, nband=1, band='i')),
                           ('zmax', dict(n=1, nband=1, mid=False)), ('zmax', dict(n=1, nband=1, deep=3.0, covers=['in', 'out'])), ('zmax', dict(n=3, nband=1), 'thorough'), ('poles', dict(ra=5.5, covers=['end'])), ('poles', dict(ra=7.5)), ('areas', dict(n=2, covers=['end'])), ('areas', dict(n=3)),
                           ('depth', dict(ra=5.5)), ('depth', dict(ra=7.5)), ('maskdepth', dict(n=3, dec=85.0, covers=['n0', 'n3'])), ('maskdepth', dict(n=4, dec=60.0, seen=[1, 0, 1, 1])), ('maskdepth', dict(n=4, dec=60.0), 'thorough'),
                           ('deptharea', dict(n=3, frac=False)), ('deptharea', dict(n=4, frac=False)), ('deptharea', dict(n=3, frac=True)), ('deptharea', dict(n=2, frac=True, w=-1.0))]),
}
