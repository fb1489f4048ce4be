"""Maps restricted to a region; tabulated models."""
import math
import numpy
from .common import Obj, refuse, silent_logger
from .p_vlim import SparseMap

SKY = 64.0


class Strip(object):
    """the sky is a strip 0 <= x < 64 (degrees); each pixel of nside n splits into four of nside 2n, numbered in order when nested and backwards in the ring scheme"""

    def __init__(self, c, *mods):
        self.c = c
        hpg = Obj(angle_to_pixel=self.a2p, pixel_to_angle=self.p2a, ring_to_nest=lambda n, p: self.flip(n, p), nest_to_ring=lambda n, p: self.flip(n, p), UNSEEN=-1.6375e+30,
                  nside_to_npixel=lambda n: int(n)**2)
        for m in mods:
            if hasattr(m, 'hpg'):
                c.patch(m, 'hpg', hpg)
            if hasattr(m, 'hpc'):
                c.patch(m, 'hpc', Obj(boundaries=self.boundaries, query_disc=self.disc))

    @staticmethod
    def w(n):
        return SKY / int(n)**2

    @staticmethod
    def flip(n, p):
        return int(n)**2 - 1 - numpy.asarray(p)

    def a2p(self, nside, a, b, lonlat=True, nest=True, **k):
        x = numpy.atleast_1d(numpy.asarray(a if lonlat else b, dtype=float))
        x = x if lonlat else numpy.degrees(x)
        p = numpy.floor(x / self.w(nside) + 1e-9).astype(numpy.int64)
        return p if nest else self.flip(nside, p)

    def p2a(self, nside, pix, lonlat=True, nest=True, **k):
        p = numpy.atleast_1d(numpy.asarray(pix))
        p = p if nest else self.flip(nside, p)
        x = (p + 0.5) * self.w(nside)
        return (x, numpy.zeros(len(x))) if lonlat else (numpy.zeros(len(x)), numpy.radians(x))

    def boundaries(self, nside, pix, step=1, nest=False, **k):
        p = int(pix) if nest else int(self.flip(nside, pix))
        # both ends, and points along the two sides
        f = [i / float(step) for i in range(step)] + [1.0] * step + [1 - i / float(step) for i in range(step)] + [0.0] * step
        return numpy.array([[(p + q) * self.w(nside) for q in f], [0.0] * len(f), [0.0] * len(f)])

    def disc(self, nside, vec, radius, inclusive=False, fact=4, nest=False, **k):
        w, r, x = self.w(nside), math.degrees(float(radius)), float(vec[0])
        out = [p for p in range(int(nside)**2) if (p * w <= x + r and (p + 1) * w >= x - r if inclusive else abs((p + 0.5) * w - x) <= r)]
        out = numpy.array(out, dtype=numpy.int64)
        return out if nest else numpy.sort(self.flip(nside, out))


def inside(c, x, sub, pix, border):
    """whether x lies in the region or within its border"""
    w = Strip.w(sub)
    if not border:
        return any(bool(x >= p * w) and bool(x < (p + 1) * w) for p in pix)
    return any(bool(x > p * w - border + 1e-6) and bool(x < (p + 1) * w + border - 1e-6) for p in pix)


def cell(x, n):
    w = Strip.w(n)
    for p in range(n * n - 1):
        if bool(x < (p + 1) * w):
            return p
    return n * n - 1


def region(c):
    """coverage pixels of a region: every one that holds a position of the region or its border"""
    U = c.mod('utilities')
    s = Strip(c, U)
    sub, cov, border = c.sub, c.cov, c.params.get('border', 0.0)
    pix = c.params.get('pix') or [c.index('pix', 0, sub * sub - 1)]
    x = c.real('x', 0, SKY)
    c.assume(x < SKY)
    f = U.get_healsparse_subpix_indices
    ring = [int(s.flip(sub, p)) for p in pix]
    c.prove('no region', c.raises(lambda: f(sub, [], border, cov), RuntimeError) is not None)
    if len(pix) == 1:
        c.prove('several pixels with a border', c.raises(lambda: f(sub, [0, 1], 0.5, cov), NotImplementedError) is not None)
    got = f(sub, numpy.array(ring) if c.params.get('arr', True) else ring, border, cov)
    c.prove('whole sky', f(0, [0], 0.0, cov) is None and f(0, [0], border, cov) is None)
    c.prove('pixels are found', got is not None)
    got = set(int(p) for p in got)
    if not border:
        ww, wc = Strip.w(sub), Strip.w(cov)
        want = set(q for q in range(cov * cov) for p in pix if q * wc < (p + 1) * ww - 1e-9 and (q + 1) * wc > p * ww + 1e-9)
        c.prove('exactly the pixels of the region', got == want)
    if inside(c, x, sub, pix, border):
        c.prove('position of the region is covered', cell(x, cov) in got)
        c.cover('in')
    c.cover('end')


def load(c):
    """a map read for a region has every position of the region and its border; without a region it is read in full"""
    kind = c.kind
    M = c.mod(dict(depth='depthmap', mask='mask', vlim='volumelimit')[kind])
    U = c.mod('utilities')
    s = Strip(c, U, M)
    sub, cov, border = c.sub, c.cov, c.border
    x = c.real('x', 0, SKY)
    c.assume(x < SKY)
    sel = c.index('pix', -1, sub * sub - 1)
    ring = [] if sel < 0 else [int(s.flip(sub, sel))]
    log = []

    class Reader(object):
        @staticmethod
        def read(name, pixels=None, **k):
            log.append((name, pixels))
            return Obj(nside_sparse=512, valid_pixels=numpy.zeros(0))
    c.patch(M.healsparse, 'HealSparseMap', Reader)
    fmt = [dict(PIXTYPE='HEALSPARSE', NSIDE=512), dict(PIXTYPE='HEALPIX', NSIDE=512), dict(NSIDE=512)]
    use = [0]
    c.patch(M.fitsio, 'read_header', lambda name, ext=None: fmt[use[0]] if ext == 1 else dict(NSIDE=cov, NSIG=10.0, ZP=22.5, NBAND=1, W=0.25, EFF=0.5))
    f = __file__
    cfg = Obj(depthfile=f, maskfile=f, d=Obj(hpix=ring, nside=sub if ring else 0), border=border, galfile_nside=8, area=1.0, logger=silent_logger(), zrange=[0.1, 0.5], vlimfile=f, vlim_lstar=0.2)
    if kind == 'mask':
        c.patch(M.Mask, '__init__', lambda self, config, **k: None)
    make = dict(depth=lambda: M.DepthMap(cfg), mask=lambda: M.HPMask(cfg), vlim=lambda: M.VolumeLimitMask(cfg, 0.2, vlimfile=f))[kind]
    for k in (1, 2):
        use[0] = k
        c.prove('other formats are refused', c.raises(make, RuntimeError) is not None and not log)
    use[0] = 0
    m = make()
    if kind == 'depth':
        c.prove('survey constants', c.all([c.eq(getattr(m, 'nsig', -1), 10.0), c.eq(getattr(m, 'zp', -1), 22.5), c.eq(getattr(m, 'w', -1), 0.25), getattr(m, 'nside', -1) == 512]))
    c.prove('one map is read', len(log) == 1 and log[0][0] == f)
    px = log[0][1]
    if sel < 0:
        c.prove('everything is read', px is None)
        c.cover('all')
        return
    if inside(c, x, sub, [sel], border):
        c.prove('position of the region is covered', px is None or cell(x, cov) in set(int(p) for p in px))
        c.cover('in')


def geometry(c):
    """without depths, the volume-limited mask has the coverage of the footprint and the full redshift range"""
    M = c.mod('volumelimit')
    n = c.n
    fg = c.reals('f', n, 0, 1)
    zhi = c.real('zhi', 0.25, 1)
    f = __file__
    files = {}
    pix = numpy.array([5, 7, 9][:n])

    class Reader(object):
        @staticmethod
        def read(name, **k):
            if name == f:
                return Obj(valid_pixels=pix, nside_coverage=8, nside_sparse=64, get_values_pix=lambda p: c.np.array([fg[[5, 7, 9].index(int(q))] for q in p]))
            if name not in SparseMap.written:
                raise OSError('no such file: %s' % name)
            return SparseMap.written[name]

        @staticmethod
        def make_empty(nside_coverage, nside_sparse, dtype, primary=None, **k):
            return SparseMap(c, [], dtype, {}, nside_sparse)
    SparseMap.written = files
    c.patch(M.healsparse, 'HealSparseMap', Reader)
    c.patch(M.fitsio, 'read_header', lambda name, ext=None: dict(PIXTYPE='HEALSPARSE', NSIDE=8))
    cfg = Obj(maskfile=f, d=Obj(hpix=[], nside=0), border=0.0, zrange=[0.125, zhi], depthfile=None, logger=silent_logger())
    bad = Obj(maskfile=None, d=cfg.d, border=0.0, zrange=cfg.zrange, depthfile=None, logger=silent_logger())
    c.prove('needs a mask', c.raises(lambda: M.VolumeLimitMask(bad, 0.2, vlimfile='/nonexistent/v.hs', use_geometry=True), RuntimeError) is not None)
    v = M.VolumeLimitMask(cfg, 0.2, vlimfile='/nonexistent/v.hs', use_geometry=True)
    c.prove('written', list(files) == ['/nonexistent/v.hs'])
    z, g = v.calc_zmax(numpy.array([5.5, 7.5, 9.5][:n] + [20.5]), numpy.zeros(n + 1), get_fracgood=True)
    c.prove('full range in the footprint', c.all([c.eq(z[i], zhi, 1e-5) for i in range(n)] + [c.eq(z[n], 0.0)]))
    c.prove('coverage of the footprint', c.all([c.eq(g[i], fg[i], 1e-5) for i in range(n)] + [c.le(g[n], 0.0)]))
    c.cover('end')


def mstar(c):
    """M* passes through its table"""
    U = c.mod('utilities')
    n = c.n
    zs = numpy.array([0.25 + 0.125 * i for i in range(n)])
    ms = c.reals('m', n, 15, 25)
    log = []
    there = c.flag('there')

    def read(f, **k):
        log.append(f)
        if not there:
            raise OSError('no such file')
        return c.rec(n, [('Z', 'f8'), ('MSTAR', 'f8')], dict(Z=zs, MSTAR=ms))
    c.patch(U.fitsio, 'read', read)
    if not there:
        c.prove('unknown survey', c.raises(lambda: U.MStar('abc ', ' i'), IOError) is not None)
        c.cover('none')
        return
    m = U.MStar('abc ', ' i')
    c.prove('table of the survey and band', len(log) == 1 and str(log[0]).endswith('mstar_abc_i.fit'))
    got = m(zs)
    c.prove('through the table', c.all([c.eq(got[i], ms[i]) for i in range(n)]))
    c.prove('one redshift', c.eq(c.np.atleast_1d(m(numpy.array([zs[1]])))[0], ms[1]))
    c.cover('end')


def template(c):
    """template colours are those of the requested pair of bands, interpolated in redshift"""
    import pkg_resources
    U, C = c.mod('utilities'), c.mod('catalog')
    zs = numpy.array([0.25, 0.5, 0.75])
    bands = ['f1a', 'f1b', 'f2b'] if c.comma else ['g', 'r', 'z']
    col = c.reals('c', (3, 2), -1, 3)
    res = c.flag('resource')
    path = c.flag('path')
    c.patch(pkg_resources, 'resource_exists', lambda m, f: bool(res) and f == 'data/initcolors/t.fit')
    c.patch(pkg_resources, 'resource_filename', lambda m, f: '/nonexistent/pkg/' + f)
    c.patch(U.os.path, 'isfile', lambda f: bool(path) and f == 't.fit')
    log = []

    def table(cls, f, **k):
        log.append(f)
        return cls(c.rec(3, [('z', 'f8'), ('color', 'f8', (2,))], dict(z=zs, color=col)))
    c.patch(C.DataObject, 'from_fits_file', classmethod(table))
    c.patch(U.fitsio, 'read_header', lambda f, ext=1: dict(BANDS=','.join(bands) + ' ' if c.comma else ''.join(bands) + ' '))
    if not res and not path:
        c.prove('unknown template', c.raises(lambda: U.RedGalInitialColors('t.fit'), IOError) is not None)
        c.cover('none')
        return
    t = U.RedGalInitialColors('t.fit')
    c.prove('the file of the template', len(log) == 1 and (str(log[0]) == '/nonexistent/pkg/data/initcolors/t.fit' if res else str(log[0]).endswith('/t.fit')))
    z = c.real('z', 0.125, 0.875)
    for j, (a, b) in enumerate(((bands[0], bands[1].upper()), (bands[1], bands[2]))):
        got = c.np.atleast_1d(t(a, b, c.np.array([z])))[0]
        k = 0 if bool(z < 0.5) else 1
        c.prove('colour', c.eq(got, col[k, j] + (col[k + 1, j] - col[k, j]) * (z - zs[k]) * 4.0))
    for a, b in ((bands[0], bands[2]), (bands[1], bands[0]), (bands[1], 'i'), ('', bands[1])):
        c.prove('unknown colour', c.raises(lambda: t(a, b, c.np.array([z])), ValueError) is not None)
    c.prove('largest redshift', c.eq(t.zmax, 0.75))
    c.cover('end')


def memory(c):
    """the memory predicted for a tiling is that of the galaxies of its fullest tile"""
    import hpgeom
    M = c.mod('pipeline.mempredict')
    hpix = numpy.array(c.hpix)
    n = len(hpix)
    ng = c.reals('ng', n, 0, 4e6)
    enc = (lambda x: x.encode()) if c.bytes else (lambda x: x)
    files = {'/data/gal.fit': Obj(nside=c.nside, filenames=[enc('a.fit'), enc('b.fit')], hpix=hpix, ngals=c.np.array(list(ng))), '/zr/zred.fit': Obj(nside=c.nside, filenames=[enc('za.fit')], hpix=hpix)}
    rows = {'/data/a.fit': numpy.zeros(1, dtype=[('id', 'i8'), ('mag', 'f8', (5,)), ('ztrue', 'f8'), ('m200', 'f8'), ('central', 'i8'), ('halo_id', 'i8')]),
            '/zr/za.fit': numpy.zeros(1, dtype=[('zred', 'f8'), ('zred_e', 'f8')])}
    look = lambda t: (lambda f, *a, **k: t[f] if f in t else refuse(OSError('no such file')))
    c.patch(M, 'Entry', Obj(from_fits_file=look(files)))
    c.patch(M, 'fitsio', Obj(read=look(rows)))
    p = M.MemPredict.__new__(M.MemPredict)
    p.config = Obj(galfile='/data/gal.fit', zredfile='/zr/zred.fit')
    kw = {} if c.zreds is None else dict(include_zreds=c.zreds, border_factor=1.5)
    r = p.predict_memory(**kw)
    each = (48 + (16 if c.zreds in (None, True) else 0)) * (1.5 if kw else 2.0) / 1e6
    ns = [2]
    while ns[-1] < c.nside:
        ns.append(ns[-1] * 2)
    c.prove('every tiling', [int(x) for x in r['nside']] == ns)
    lon, lat = hpgeom.pixel_to_angle(c.nside, hpix, nest=False)
    for i, k in enumerate(ns):
        up = [int(x) for x in hpgeom.angle_to_pixel(k, lon, lat, nest=False)]
        tiles = sorted(set(up))
        c.prove('number of tiles', int(r['npix'][i]) == len(tiles))
        mem = [sum([ng[q] * each for q in range(n) if up[q] == t], 0.0) for t in tiles]
        got = r['max_memory_mb'][i]
        top = mem[0]
        for m in mem[1:]:
            top = c.np.maximum(top, m)
        c.prove('that of the fullest tile', c.eq(got, top))
    c.cover('end')


def convert(c):
    """a converted map holds the values of the old map in the same pixels"""
    M = c.mod('depthmap' if c.kind == 'depth' else 'mask')
    n = c.n
    fg = c.reals('fg', n, 0, 1)
    lm = c.reals('lm', n, 0, 25)
    pix = [c.index('pix%d' % i, 0, 3) for i in range(n)]
    c.assume(*[c.not_(pix[i] == pix[j]) for i in range(n) for j in range(i)])
    pix = [int(x) for x in pix]
    dt = [('hpix', 'i8'), ('fracgood', 'f8')] + ([('limmag', 'f8')] if c.kind == 'depth' else [])
    old = c.rec(n, dt, dict([('hpix', pix), ('fracgood', fg), ('limmag', lm)][:len(dt)]))
    hdr = dict(nside=16, nest=c.nest, NSIG=10.0, ZP=22.5, NBAND=1, W=0.25, EFF=0.5)
    made = []

    class New(object):
        def __init__(self, cov, nside, dtype, primary=None, **k):
            self.cov, self.nside, self.primary, self.vals = cov, nside, primary, {}
            made.append(self)

        def update_values_pix(self, p, v, nest=True, **k):
            for q in range(len(p)):
                self.vals[int(p[q])] = (v['fracgood'][q], v['limmag'][q]) if c.kind == 'depth' else (v[q],)
            self.nest = nest

        def write(self, f, clobber=False):
            self.file, self.clobber = f, clobber
    c.patch(M, 'healsparse', Obj(HealSparseMap=Obj(make_empty=New)))
    fio = dict(read=lambda f, ext=None, header=False, lower=False, **k: (old, hdr) if f == 'IN' else refuse(OSError('no such file')), FITSHDR=dict)
    c.patch(M, 'fitsio', Obj(**fio))
    fn = M.convert_depthfile_to_healsparse if c.kind == 'depth' else M.convert_maskfile_to_healsparse
    kw = dict(clobber=True) if c.clobber else {}
    fn('IN', 'OUT', 8, **kw)
    m = made[0]
    c.prove('resolution', len(made) == 1 and m.cov == 8 and m.nside == 16)
    c.prove('pixels', sorted(m.vals) == sorted(pix) and bool(m.nest) == bool(c.nest))
    c.prove('values', c.all([c.eqs(list(m.vals[pix[i]]), [fg[i], lm[i]][:len(dt) - 1]) for i in range(n)]))
    c.prove('file, kept unless asked to', m.file == 'OUT' and bool(m.clobber) == bool(c.clobber))
    if c.kind == 'depth':
        h = m.metadata
        c.prove('depth settings', m.primary == 'fracgood' and (h['NSIG'], h['ZP'], h['NBAND'], h['W'], h['EFF']) == (10.0, 22.5, 1, 0.25, 0.5))
    c.cover('end')


PROPS = {
    'P33': dict(level='model_checking',
                functions=['utilities.get_healsparse_subpix_indices', 'depthmap.DepthMap.__init__', 'mask.HPMask.__init__', 'volumelimit.VolumeLimitMask.__init__', 'volumelimit.VolumeLimitMask._read_mask',
                           'volumelimit.VolumeLimitMask._build_geometry_mask', 'depthmap.convert_depthfile_to_healsparse', 'mask.convert_maskfile_to_healsparse'],
                bounds='pixels of nside <= 4 on coverage maps of nside <= 8, every pixel and position, three border sizes; <= 3 mask pixels',
                assumptions=['the sky is a strip whose pixels split into four, with opposite ring and nested orders; disc queries and pixel boundaries are stand-ins on it', 'map files are stand-ins'],
                instances=[('region', dict(sub=2, cov=2, covers=['in', 'end'])), ('region', dict(sub=4, cov=2, covers=['in', 'end'])), ('region', dict(sub=2, cov=4, covers=['in', 'end'])), ('region', dict(sub=2, cov=8, pix=[1, 2])),
                           ('region', dict(sub=4, cov=4, pix=[0, 9, 15], arr=False)), ('region', dict(sub=2, cov=4, border=1.5, covers=['in', 'end'])), ('region', dict(sub=4, cov=2, border=0.5)), ('region', dict(sub=2, cov=4, border=0.0625)), ('region', dict(sub=2, cov=2, border=3.0)),
                           ('region', dict(sub=2, cov=8, border=1.25), 'thorough'), ('region', dict(sub=4, cov=8, border=0.75), 'thorough')] +
                          [('load', dict(kind=k, sub=2, cov=4, border=b, covers=['all', 'in'])) for k in ('depth', 'mask', 'vlim') for b in (0.0, 1.5)] +
                          [('geometry', dict(n=2, covers=['end'])), ('geometry', dict(n=3)), ('convert', dict(kind='depth', n=2, nest=False, clobber=False, covers=['end'])), ('convert', dict(kind='depth', n=2, nest=True, clobber=True)),
                           ('convert', dict(kind='mask', n=2, nest=True, clobber=False, covers=['end'])), ('convert', dict(kind='mask', n=3, nest=False, clobber=True))]),
    'P35': dict(level='model_checking',
                functions=['pipeline.mempredict.MemPredict.predict_memory'],
                bounds='tables of <= 4 pixels of nside <= 8, any number of galaxies in each',
                assumptions=['files are stand-ins; the pixel arithmetic is the real one'],
                instances=[('memory', dict(nside=4, hpix=[0, 1, 100, 191], bytes=True, zreds=None, covers=['end'])), ('memory', dict(nside=8, hpix=[0, 1, 5], bytes=False, zreds=True)), ('memory', dict(nside=2, hpix=[7, 3], bytes=False, zreds=False)),
                           ('memory', dict(nside=8, hpix=[20, 21, 44, 45], bytes=False, zreds=False), 'thorough')]),
    'P34': dict(level='model_checking',
                functions=['utilities.MStar.__init__', 'utilities.MStar.__call__', 'utilities.RedGalInitialColors.__init__', 'utilities.RedGalInitialColors.__call__', 'utilities.RedGalInitialColors._color_name', 'utilities.CubicSpline.__call__', 'utilities.interpol'],
                bounds='tables of <= 4 rows and two colours, any values and redshift',
                assumptions=['package resources and files are stand-ins'],
                instances=[('mstar', dict(n=3, covers=['none', 'end'])), ('mstar', dict(n=4)), ('template', dict(comma=False, covers=['none', 'end'])), ('template', dict(comma=True, covers=['none', 'end']))]),
}
