"""Generation of the background tables: counting galaxies in cells."""
import numpy
from .common import Obj, silent_logger


def clouds(c, dims, pos, k, isolated):
    """weight of a sample at pos in cell k (cells centred on k + 1/2, unit width; periodic unless isolated)"""
    w = 1.0
    for d, n in enumerate(dims):
        x = pos[d]
        best = c.np.clip(1.0 - abs(x - (k[d] + 0.5)), 0.0, None)
        if not isolated:
            for s in (-n, n):
                best = best + c.np.clip(1.0 - abs(x + s - (k[d] + 0.5)), 0.0, None)
        w = w * best
    return w


def cic(c):
    U = c.mod('utilities')
    dims, m, iso, avg = c.dims, c.m, c.isolated, c.params.get('average', False)
    deep = len(dims) == 3
    val = numpy.array([1.5, -3.0])[:m] if deep else c.reals('v', m, -4, 4)
    pos = [c.reals('p%d' % d, m, 0, n) for d, n in enumerate(dims)]
    if deep:        # one coordinate from a grid: the product of four unknowns is out of the solver's reach
        d = c.params.get('fixed', 2)
        pos[d] = c.np.array([[0.25, 0.5, 1.0, 1.75][c.index('g%d' % i, 0, 3)] for i in range(m)])
    for d, n in enumerate(dims):
        c.assume(*[pos[d][i] < n for i in range(m)])
    kw = dict(zip(('posx', 'nx', 'posy', 'ny', 'posz', 'nz'), [y for d, n in enumerate(dims) for y in (pos[d], n)]))
    f = U.cic(val, average=avg, isolated=iso, **kw)
    c.prove('shape', tuple(f.shape) == tuple(dims[::-1]))
    for k in numpy.ndindex(*dims):
        got = f[tuple(k[::-1])]
        ws = [clouds(c, dims, [pos[d][i] for d in range(len(dims))], k, iso) for i in range(m)]
        tot = sum(ws[i] * val[i] for i in range(m))
        if avg:
            # the average of the samples, weighted by their clouds
            s = sum(ws)
            c.prove('cell', c.eq(got * s, tot))
        else:
            c.prove('cell', c.eq(got, tot))
    c.cover('end')


class Cat(object):
    """a galaxy catalogue as the generator sees it"""

    def __init__(self, c, gals):
        self.g = gals
        self.size = len(gals)
        self.refmag = c.np.array([x.m for x in gals])
        self.chisq = c.np.array([x.x for x in gals])
        self.zred = c.np.array([x.z for x in gals])
        self.c = c

    def __getitem__(self, k):
        return Cat(self.c, [self.g[int(i)] for i in k])

    def __len__(self):
        return self.size


def config(c, area, **k):
    return Obj(limmag_catalog=13.0, bkg_refmagbinsize=0.5, chisq_max=2.0, bkg_chisqbinsize=1.0, bkg_zbinsize=0.02, bkg_zredbinsize=0.25, zrange=[0.1, 0.16], calib_nproc=1,
               depthfile=None, area=area, galfile='/nonexistent/g.fit', zredfile='/nonexistent/z.fit', bkgfile='/nonexistent/b.fit', parfile='/nonexistent/p.fit', nmag=3, wcen_zred_chisq_max=8.0,
               d=Obj(hpix=[], nside=0), logger=silent_logger(), **k)


def setup(c, M, gals, npix, cfg):
    """galaxies spread over pixels (some empty), or in one flat file"""
    hpix = [10 + i for i in range(npix)]
    c.patch(M, 'Entry', Obj(from_fits_file=lambda f, **k: Obj(nside=8, hpix=numpy.array(hpix), ngals=numpy.array([sum(1 for g in gals if g.p == i) for i in range(npix)]))))
    c.patch(M, 'hpg', Obj(pixel_to_angle=lambda ns, p, lonlat=True, nest=True: (numpy.zeros(len(p)), numpy.asarray(p)),
                          angle_to_pixel=lambda ns, th, ph, lonlat=True, nest=True: numpy.asarray(ph) % 2))

    def galfile(f, nside=0, hpix=[], border=0.0, zredfile=None, **k):
        p = int(hpix) - 10
        return Cat(c, [g for g in gals if g.p == p])
    c.patch(M, 'GalaxyCatalog', Obj(from_galfile=galfile, from_fits_file=lambda f, rows=None, **k: Cat(c, [gals[int(i)] for i in rows])))
    c.patch(M, 'fitsio', Obj(read_header=lambda f, ext=1: dict(NAXIS2=len(gals)), FITS=None))


def generate(c):
    """each galaxy of the region is counted once in the cells of its chi-squared and magnitude, at every redshift bin it is bright enough for"""
    M = c.mod('background')
    n, npix = c.n, c.params.get('npix', 2)
    area = 7.0
    nz = 3
    gals = [Obj(p=c.pix[i], m=c.real('m%d' % i, 11.75, 13.5) if i + 1 == n else 12.1875, x=None, z=None, chi=c.real('x%d' % i, 0.25, 1.5)) for i in range(n)]
    for i, g in enumerate(gals):
        if c.params.get('one') and i + 1 < n:
            g.chi, g.m = 0.625 + 0.25 * i, 12.1875 + 0.125 * i
        x0 = g.chi
        g.chi = [x0, 1.875 - x0, x0 + 0.75]
    cfg = config(c, area, galfile_pixelized=c.pixelized)
    cfg.calib_nproc = c.nproc
    if c.params.get('hpix'):
        cfg.d = Obj(hpix=c.hpix, nside=4)
    setup(c, M, gals, npix, cfg)
    zb = [0.1 + 0.02 * j for j in range(nz)]
    ms = [9.5, 9.85, 11.0][c.params.get('ms', 1)]
    slope = 5.0

    class Zs(object):
        def __init__(self, f, zrange=None, **k):
            self.z = numpy.arange(zrange[0], zrange[1] + 0.001, 0.02)

        def mstar(self, z):
            return c.np.array([ms + slope * (float(x) - 0.1) for x in numpy.atleast_1d(z)])

        def calculate_chisq(self, cat, z):
            j = int(round((float(z) - 0.1) / 0.02))
            return c.np.array([g.chi[j] for g in cat.g])
    c.patch(M, 'RedSequenceColorPar', Zs)
    calls = []
    real = M.cic

    def cic(value, px, nx, py, ny, isolated=True):
        calls.append(nx)
        if nx > 2:
            return numpy.zeros((ny, nx))
        return real(value, px, nx, py, ny, isolated=isolated)
    c.patch(M, 'cic', cic)

    class Pool(object):
        def map(self, f, l, chunksize=1):
            return [f(x) for x in l][::-1]

        def close(self):
            pass
        join = close
    c.patch(M, 'multiprocessing', Obj(get_context=lambda k: Obj(Pool=lambda processes=1: Pool())))
    out = []

    class E(object):
        pass
    G = object.__new__(M.BackgroundGenerator)
    G.config = cfg
    kept = {}
    C = c.mod('catalog')
    tab = M.Entry

    class Tab(C.Entry):
        from_fits_file = staticmethod(tab.from_fits_file)

        def to_fits_file(self, f, extname=None, clobber=False, **k):
            out.append((f, extname, self))
    c.patch(M, 'Entry', Tab)
    G.run(clobber=True, natatime=c.params.get('natatime', 100000))
    c.prove('written', len(out) == 1 and out[0][0] == cfg.bkgfile and out[0][1] == 'CHISQBKG')
    T = out[0][2]
    sg = T.sigma_g
    c.prove('shape', tuple(sg.shape) == (2, 2, nz))
    c.prove('bins', c.all([c.eq(T.zbins[j], zb[j]) for j in range(nz)] + [c.eq(T.refmagbins[j], 12 + 0.5 * j) for j in range(2)] + [c.eq(T.chisqbins[j], 1.0 * j) for j in range(2)]))
    region = [g for g in gals if not c.params.get('hpix') or (10 + g.p) % 2 in c.hpix]
    for j in range(nz):
        # the magnitude limit at this redshift: a tenth of L*, rounded up to whole magnitude bins, within the catalogue
        lim = ms + slope * (zb[j] + 0.02 - 0.1) + 2.5
        if bool(lim >= 12.5):
            lim = 13.0
        else:
            lim = 12.5
        use = [g for g in region if bool((g.m > 12) & (g.m < lim)) and bool(g.chi[j] < 2)]
        c.prove('density', c.all([c.eq(sg[a, b, j] * area * 0.5, sum([clouds(c, (2, 2), (g.chi[j], (g.m - 12) * 2), (b, a), True) for g in use]), tol=1e-5) for a in range(2) for b in range(2)]))
    c.cover('end')


def zredbkg(c):
    """the zred background counts the red galaxies of the region in cells of zred and magnitude, with a floor"""
    M = c.mod('background')
    n, npix = c.n, c.params.get('npix', 2)
    area = 7.0
    gals = [Obj(p=c.pix[i], m=c.real('m%d' % i, 11.75, 13.5) if i == 0 else 12.6875, x=c.real('x%d' % i, 0, 16), z=c.real('z%d' % i, -0.5, 1.0)) for i in range(n)]
    if c.params.get('one'):
        for i, g in enumerate(gals[1:]):
            g.x, g.z = 1.0, 0.25 + 0.125 * i
    cfg = config(c, area, galfile_pixelized=True)
    if c.params.get('hpix'):
        cfg.d = Obj(hpix=c.hpix, nside=4)
    setup(c, M, gals, npix, cfg)
    c.patch(M, 'RedSequenceColorPar', lambda f, **k: Obj(z=numpy.array([0.125, 0.25, 0.375, 0.5, 1000.0])))
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: True)))
    C = c.mod('catalog')
    tab = M.Entry
    out = []

    class Tab(C.Entry):
        from_fits_file = staticmethod(tab.from_fits_file)

        def to_fits_file(self, f, extname=None, clobber=False, **k):
            out.append((f, extname, self))
    c.patch(M, 'Entry', Tab)
    G = object.__new__(M.ZredBackgroundGenerator)
    G.config = cfg
    G.run(clobber=True)
    c.prove('written', len(out) == 1 and out[0][0] == cfg.bkgfile and out[0][1] == 'ZREDBKG')
    T = out[0][2]
    sg = T.sigma_g
    c.prove('shape', tuple(sg.shape) == (2, 2))
    c.prove('bins', c.all([c.eq(T.zredbins[j], 0.125 + 0.25 * j) for j in range(2)] + [c.eq(T.refmagbins[j], 12 + 0.5 * j) for j in range(2)]))
    use = [g for g in gals if (not c.params.get('hpix') or (10 + g.p) % 2 in c.hpix) and bool(g.x < 8) and bool((g.z >= 0.125) & (g.z < 0.625)) and bool((g.m > 12) & (g.m < 13))]
    for a in range(2):
        for b in range(2):
            want = sum([clouds(c, (2, 2), ((g.z - 0.125) * 4, (g.m - 12) * 2), (b, a), True) for g in use])
            c.prove('density', c.eq(sg[a, b] * area * 0.125, c.np.clip(want, 0.1, None) if use else 0.1, tol=1e-5))
    c.cover('n%d' % len(use))


class Fs(object):
    """files as lists of (extension, table, header); an interruption comes before one of the changes"""
    def __init__(self, left=None):
        self.f, self.left, self.n = {}, left, 0

    def tick(self):
        if self.left is not None and self.n == self.left:
            raise Interrupt()
        self.n += 1

    def write(self, f, a, extname=None, header=None, clobber=False, **k):
        self.tick()
        if clobber or f not in self.f:
            self.f[f] = []
        self.f[f] = self.f[f] + [(extname, a.copy(), dict(header or {}))]

    def replace(self, a, b):
        self.tick()
        self.f[b] = self.f.pop(a)

    def remove(self, a):
        self.tick()
        del self.f[a]

    def os(self):
        import os
        return Obj(path=Obj(isfile=lambda f: f in self.f, exists=lambda f: f in self.f, join=os.path.join, dirname=os.path.dirname, basename=os.path.basename, splitext=os.path.splitext), replace=self.replace, rename=self.replace, remove=self.remove, unlink=self.remove,
                   getpid=lambda: 1)


class Interrupt(Exception):
    pass


def colour(c):
    """the colour background counts the galaxies of the region in cells of one or two colours and magnitude; no partial file is taken for a complete one"""
    M = c.mod('color_background')
    ncol, crash = c.params.get('ncol', 2), c.params.get('crash', False)
    lo = [150, 125, 90][:ncol]
    m = c.params.get('m', 1)
    free = c.params.get('free', [])
    gals = []
    for i in range(m):
        col = [c.real('c%d_%d' % (i, j), -2.0 + 0.02 * lo[j] - 0.02, -2.0 + 0.02 * lo[j] + 0.06) if j in free else -2.0 + 0.02 * lo[j] + (0.0075, 0.02, 0.0275)[(i + j) % 3] for j in range(ncol)]
        for j in range(ncol):
            if j in free:       # a galaxy within rounding of the upper edge may fall on either side
                c.assume((col[j] < -1.96 + 0.02 * lo[j] - 1e-6) | (col[j] > -1.96 + 0.02 * lo[j] + 1e-6))
        gals.append((col, c.real('m%d' % i, 11.96875, 12.125) if 'm' in free else 12.0375 + 0.0125 * i))
        if 'm' in free:
            c.assume((gals[i][1] < 12.1 - 1e-6) | (gals[i][1] > 12.1 + 1e-6))
    # bright galaxies (outside the magnitude range) fill the two bins of each colour's range
    wide = [([-2.0 + 0.02 * lo[j] + 0.01 + 0.02 * k for j in range(ncol)], 11.0) for k in range(2)]
    # too few of those in the next bin to extend the range, and one that is too faint for that
    far = [([-2.0 + 0.02 * lo[j] + 0.05 for j in range(ncol)], 12.5)]
    allg = [wide[0], wide[0]] + gals + [wide[1], wide[1]] + far + far + [([-2.0 + 0.02 * lo[j] - 0.01 for j in range(ncol)], 11.0)]
    st = {}

    class Gals(object):
        def __init__(self, g):
            self.g = g
            self.galcol = c.np.array([x[0] for x in g])
            self.refmag = c.np.array([x[1] for x in g])
            self.size = len(g)

        def __getitem__(self, k):
            k = numpy.asarray(k)
            return Gals([x for x, u in zip(self.g, k) if bool(u)] if k.dtype != numpy.int64 and len(k) == len(self.g) else [self.g[int(i)] for i in k])

    def galfile(f, **k):
        st['gal'] = (f, k)
        return Gals(allg)
    c.patch(M, 'GalaxyCatalog', Obj(from_galfile=galfile))
    c.patch(M, 'esutil', Obj(stat=Obj(histogram=lambda x, min=0.0, max=1.0, binsize=1.0, **k: numpy.bincount([int(numpy.floor((float(v) - min) / binsize)) for v in x], minlength=int((max - min) / binsize)))))
    fs = Fs()
    c.patch(M, 'fitsio', Obj(FITSHDR=dict, write=fs.write))
    c.patch(M, 'os', fs.os())
    depth = c.params.get('depth', False)
    area = 7.0
    c.patch(M, 'DepthMap', lambda cfg: Obj(calc_areas=lambda mags: 8.0 - (c.np.asarray(mags) - 12.0) * 20.0))
    cfg = Obj(bkgfile_color='/x/bkg.fit', galfile='G', d=Obj(nside=8, hpix=[3]), border=0.5, limmag_ref=12.1, nmag=ncol + 1, depthfile='D' if depth else None, area=area, logger=silent_logger())
    if crash:
        c.patch(M, 'cic', lambda v, *a, **k: numpy.ones(tuple(int(n) for n in a[1::2])[::-1]))

        def run(left):
            fs.left, fs.n = left, 0
            g = M.ColorBackgroundGenerator(cfg, minrangecheck=1)
            g.run()
        run(None)
        ref = [x[0] for x in fs.f['/x/bkg.fit']]
        total = fs.n
        c.prove('every pair of colours', sorted(ref) == sorted('%02d_%02d_REF' % (i, j) for i in range(ncol) for j in range(i, ncol)))
        fs.f = {}
        k = c.index('interrupted', 0, total - 1)
        c.prove('interrupted', c.raises(lambda: run(k), Interrupt) is not None)
        c.prove('nothing partial under the final name', '/x/bkg.fit' not in fs.f or [x[0] for x in fs.f['/x/bkg.fit']] == ref)
        run(None)
        c.prove('complete after the second start', [x[0] for x in fs.f['/x/bkg.fit']] == ref)
        c.cover('resumed')
        return
    g = M.ColorBackgroundGenerator(cfg, minrangecheck=1)
    g.run()
    c.prove('region', st['gal'][0] == 'G' and st['gal'][1].get('nside') == 8 and st['gal'][1].get('hpix') == [3] and st['gal'][1].get('border') == 0.5)
    out = dict((x[0], x) for x in fs.f['/x/bkg.fit'])
    c.prove('every pair of colours', sorted(out) == sorted('%02d_%02d_REF' % (i, j) for i in range(ncol) for j in range(i, ncol)))
    l0 = [-2.0 + 0.02 * x for x in lo]
    ok = lambda g, js: bool((g[1] >= 12.0) & (g[1] < 12.1)) and all(bool((g[0][j] >= l0[j]) & (g[0][j] < l0[j] + 0.04)) for j in js)
    for i in range(ncol):
        for j in range(i, ncol):
            t = out['%02d_%02d_REF' % (i, j)][1]
            js = [i] if i == j else [i, j]
            use = [g for g in gals if ok(g, js)]
            names = [''] if i == j else ['1', '2']
            c.prove('bins', int(t['COL1'][0]) == i and int(t['COL2'][0]) == j and c.all([c.eq(t['REFMAGBINS'][0][k], 12 + 0.05 * k) for k in range(2)] + [c.eq(t['COL%sBINS' % n][0][k], l0[js[q]] + 0.02 * k) for q, n in enumerate(names) for k in range(2)] +
                                                                                [c.eq(t['COL%sRANGE' % n][0][k], l0[js[q]] + 0.04 * k) for q, n in enumerate(names) for k in range(2)] + [c.eq(t['COL%sBINSIZE' % n][0], 0.02) for n in names] +
                                                                                [c.eq(t['REFMAGRANGE'][0][0], 12), c.eq(t['REFMAGRANGE'][0][1], 12.1), c.eq(t['REFMAGBINSIZE'][0], 0.05)]))
            bc = t['BC'][0]
            dims = (2,) * len(js) + (2,)
            c.prove('shape', tuple(bc.shape) == dims)
            size = 0.05 * 0.02 ** len(js)
            for k in numpy.ndindex(*dims):
                want = sum([clouds(c, dims, tuple((g[0][q] - l0[q]) * 50 for q in js) + ((g[1] - 12) * 20,), k, True) for g in use])
                c.prove('density', c.eq(bc[tuple(k[::-1])] * size, want, tol=1e-5))
            for r in range(2):
                cells = [bc[(r,) + k] for k in numpy.ndindex(*dims[:-1])]
                c.prove('counts in all colours', c.eq(t['N'][0][r] * 50 ** len(js), sum(cells), tol=1e-5))
            c.prove('area', c.all([c.eq(t['AREAS'][0][k], (8.0 - k) if depth else area) for k in range(2)]))
    c.prove('area', all(float(x[2]['AREA']) == area for x in fs.f['/x/bkg.fit']))
    c.cover('end')

PROPS = {
    'P11': dict(level='model_checking', functions=['utilities.cic', 'background.BackgroundGenerator.run', 'background.BackgroundGenerator._worker', 'background.ZredBackgroundGenerator.run', 'color_background.ColorBackgroundGenerator.run'],
                bounds='<= 2 galaxies over <= 3 pixels, 2x2 cells, 3 redshift bins, 1-3 processes; cloud-in-cell with <= 2 samples in 1-3 dimensions',
                assumptions=['galaxy files, the red-sequence model and the process pool are stand-ins', 'the logarithmic chi-squared table is not followed', 'no depth map in the chi-squared and zred tables: the area is the configured area'],
                instances=[('cic', dict(dims=[3], m=2, isolated=True, covers=['end'])), ('cic', dict(dims=[2], m=2, isolated=False)), ('cic', dict(dims=[2, 3], m=1, isolated=True)), ('cic', dict(dims=[2, 2], m=1, isolated=False)),
                           ('cic', dict(dims=[2, 2, 2], m=1, isolated=True)), ('cic', dict(dims=[2, 2, 2], m=1, isolated=True, fixed=0)), ('cic', dict(dims=[2], m=2, isolated=True, average=True)),
                           ('generate', dict(n=1, pix=[1], nproc=2, pixelized=True, ms=0, covers=['end'])), ('generate', dict(n=1, pix=[0], nproc=3, pixelized=True, ms=2)),
                           ('generate', dict(n=2, pix=[0, 2], npix=3, nproc=1, pixelized=True), 'thorough'), ('generate', dict(n=1, pix=[0], nproc=3, pixelized=True, ms=1)),
                           ('generate', dict(n=1, pix=[0], nproc=3, pixelized=False, ms=1)), ('generate', dict(n=2, pix=[0, 1], nproc=1, pixelized=True, hpix=[1], ms=1)),
                           ('generate', dict(n=2, pix=[0, 1], nproc=2, pixelized=True, hpix=[1], ms=2), 'thorough'),
                           ('generate', dict(n=3, pix=[0, 3, 2], npix=5, nproc=1, pixelized=True, hpix=[0], ms=0, one=True)), ('generate', dict(n=4, pix=[1, 3, 2, 3], npix=4, nproc=2, pixelized=True, hpix=[1], ms=0, one=True)),
                           ('generate', dict(n=3, pix=[0, 1, 1], npix=4, nproc=1, pixelized=True, ms=0, one=True)),
                           ('colour', dict(free=[0], m=2, depth=True, covers=['end'])), ('colour', dict(free=[0, 1])), ('colour', dict(free=['m'], m=2)), ('colour', dict(free=[1, 'm'], m=1)), ('colour', dict(free=[0, 'm'], m=1, ncol=1)),
                           ('zredbkg', dict(n=4, pix=[1, 3, 2, 3], npix=4, hpix=[1], one=True)),
                           ('zredbkg', dict(n=1, pix=[1], covers=['n0', 'n1'])), ('zredbkg', dict(n=2, pix=[0, 2], npix=3)), ('zredbkg', dict(n=2, pix=[0, 1], hpix=[0]))]),
}
