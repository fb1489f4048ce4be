"""Galaxy tables: ingestion into pixel files and reading them back."""
import os as _os
import numpy
from .common import Obj, silent_logger, same

BASE = '/nonexistent/run_1234567/g'     # the directory name looks like a pixel file on purpose


class Busy(Exception):
    pass


class Disk(object):
    """files in memory: name -> record array"""

    def __init__(self, c):
        self.c, self.f, self.hdr, self.log = c, {}, {}, []
        self.locks = set()
        self.hook = lambda: None        # called before each file operation: another process may run here
        d = self

        class Hdu(object):
            def __init__(self, name):
                self.n = name

            def append(self, a):
                d.hook()
                old = d.f[self.n]
                new = d.c.np.zeros(len(old) + len(a), dtype=old.dtype)
                for k in old.dtype.names:
                    new[k][:len(old)] = old[k]
                    new[k][len(old):] = a[k]
                d.f[self.n] = new

            def get_nrows(self):
                d.hook()
                return len(d.f[self.n])

            def read_column(self, k):
                d.hook()
                return d.f[self.n][k].copy()

            def write_column(self, k, v):
                d.hook()
                d.f[self.n][k] = v

        class F(object):
            def __init__(self, name, mode='r', clobber=False, **k):
                d.hook()
                self.n = name = same(d.f, name)
                if mode == 'r' and name not in d.f:
                    raise IOError(name)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __getitem__(self, i):
                assert i == 1
                return Hdu(self.n)

            def create_table_hdu(self, data=None, dtype=None, **k):
                d.f[self.n] = d.c.np.zeros(0, dtype=dtype)

            def close(self):
                pass

        class Fits(object):
            READWRITE = 'rw'
            FITS = F
            FITSHDR = dict

            def write(self, name, a, clobber=False, header=None, **k):
                d.hook()
                if name in d.f and not clobber:
                    # like fitsio: a further extension, the first table stays
                    return
                d.f[name] = a.copy()
                d.hdr[name] = dict(header or {})

            def read_header(self, name, ext=1):
                name = same(d.f, name)
                if name not in d.f:
                    raise IOError(name)
                return d.hdr.get(name, {})

            def read(self, name, ext=1, rows=None, lower=False, upper=False, columns=None, **k):
                name = same(d.f, name)
                if name not in d.f:
                    raise IOError(name)
                a = d.f[name]
                if columns is not None:
                    keep = [n for n in a.dtype.names if n in columns]
                    b = d.c.np.zeros(len(a), dtype=[(n,) + ((a.dtype[n].subdtype[0], a.dtype[n].subdtype[1]) if a.dtype[n].subdtype else (a.dtype[n],)) for n in keep])
                    for n in keep:
                        b[n] = a[n]
                    a = b
                if rows is not None:
                    a = a[numpy.asarray(rows, dtype=int)] if numpy.ndim(rows) else a[rows:rows + 1]
                if type(a) is numpy.ndarray and any(a.dtype[n].shape == (1,) for n in a.dtype.names):
                    # like fitsio: vectors of length 1 come back as scalars
                    a = a.view([(x[0], x[1]) if len(x) > 2 and x[2] == (1,) else x for x in a.dtype.descr])
                return a.copy()
        self.fitsio = Fits()

    def install(self, G, C):
        d, c = self, self.c
        c.patch(G, 'fitsio', self.fitsio)
        c.patch(C, 'fitsio', self.fitsio)
        path = Obj(**{k: getattr(_os.path, k) for k in ('join', 'basename', 'dirname', 'abspath', 'splitext')})
        def isfile(f):
            d.hook()
            return same(d.f, f) in d.f
        path.isfile = isfile
        path.exists = lambda f: True

        def remove(f):
            d.hook()
            if f in d.locks:
                d.locks.discard(f)
            elif f in d.f:
                del d.f[f]
            else:
                raise OSError(f)
        c.patch(G, 'os', Obj(path=path, makedirs=lambda *a, **k: None, remove=remove, close=lambda fd: None, unlink=remove))
        import fnmatch
        c.patch(G, 'glob', Obj(glob=lambda p: [f for f in reversed(sorted(d.f)) if fnmatch.fnmatchcase(f, p)]))

        def lock(f, block=False, **k):
            d.hook()
            if f in d.locks:
                if block:
                    raise Busy(f)
                return False
            d.locks.add(f)
            return True
        c.patch(G, 'make_lockfile', lock)
        c.patch(G, 'tempfile', Obj(mkstemp=lambda **k: (0, '/nonexistent/temp.fits')))


def sky(c, G):
    """pixel p of nside 4 (8) holds 2p <= ra < 2p + 2 (p <= ra < p + 1)"""
    def a2p(nside, a, b, lonlat=True, nest=True, **k):
        ra = a if lonlat else b
        w = 8.0 / int(nside)
        # the nested numbering is another one
        p = c.np.floor(c.np.asarray(ra) / w).astype(numpy.int64)
        if type(c.np).__name__ == 'SymNP':
            # may be indexed by symbolic selections
            from symx.arr import SA
            p = p.view(SA)
        return p + 1000 if nest else p

    def p2a(nside, pix, lonlat=True, nest=True, **k):
        w = 8.0 / int(nside)
        ra = (numpy.asarray(pix) - (1000 if nest else 0) + 0.5) * w
        return (ra, numpy.zeros(len(ra))) if lonlat else (numpy.zeros(len(ra)), ra)
    c.patch(G, 'hpg', Obj(angle_to_pixel=a2p, pixel_to_angle=p2a, nside_to_npixel=lambda n: int(n), ring_to_nest=lambda n, p: p, nest_to_ring=lambda n, p: p))


def galaxies(c, G, ids, ra, tag='', truth=False, zspec=False, order=None, bad=None):
    n = len(ids)
    dt = G.GalaxyCatalogMaker.get_galaxy_dtype(2, truth=truth, zspec=zspec)
    if order:
        dt = dt[::-1]
    v = dict(id=ids, ra=ra, dec=[0.5] * n, refmag=c.reals('refmag' + tag, n, 15, 20), refmag_err=[0.1] * n, mag=c.reals('mag' + tag, 2 * n, 15, 20).reshape(n, 2),
             mag_err=[[0.1, 0.2]] * n, ebv=[0.0] * n)
    if truth:
        v['ztrue'] = c.reals('zt' + tag, n, 0, 1)
    if zspec:
        v['zspec'] = c.reals('zs' + tag, n, 0, 1)
    return v, c.rec(n, dt, {k: (c.np.array(x) if not hasattr(x, 'dtype') else x) for k, x in v.items()})


INFO = dict(LIM_REF=21.0, REF_IND=1, AREA=100.0, NMAG=2, MODE='SDSS', ZP=22.5)


def ingest(c):
    """every ingested galaxy ends up in the file of its pixel, once, and the table says so"""
    G, C = c.mod('galaxy'), c.mod('catalog')
    d = Disk(c)
    d.install(G, C)
    sky(c, G)
    sizes = c.sizes
    kw = dict(nside=4, generate_unique_ids=c.gen)
    makers = [G.GalaxyCatalogMaker(BASE, dict(INFO), parallel=c.parallel, **kw)]
    if c.parallel:
        makers.append(G.GalaxyCatalogMaker(BASE, dict(INFO), parallel=True, **kw))
    allg = []
    for k, n in enumerate(sizes):
        if c.params.get('dup'):
            ids = [c.index('id%d_%d' % (k, i), 0, 2) for i in range(n)]
        else:
            ids = [100 * (k + 1) - i for i in range(n)]
        ra = c.reals('ra%d' % k, n, 0, 7.5)
        v, g = galaxies(c, G, ids, ra, str(k), order=(k % 2 == 1))
        m = makers[k % len(makers)]
        keep = [True] * n
        if c.params.get('mask'):
            m.mask = Obj(compute_radmask=lambda r, dd: c.np.array([x for x in keep]))
            keep[:] = [c.flag('k%d_%d' % (k, i)) for i in range(n)]
        if len(set(ids)) < n and not c.gen:
            c.prove('duplicates', c.raises(lambda: m.append_galaxies(g), RuntimeError) and not d.f)
            c.cover('dup')
            return
        m.append_galaxies(g)
        for i in range(n):
            if keep[i]:
                allg.append((ids[i], ra[i], v['refmag'][i], v['mag'][i]))
        for x in makers:
            x.mask = None
    if not allg:
        c.prove('nothing', not d.f)
        return
    unique = len(set(x[0] for x in allg)) == len(allg)
    if not unique and not c.gen:
        c.prove('duplicates', c.raises(lambda: makers[-1].finalize_catalog(), RuntimeError))
        c.cover('dup')
        return
    makers[-1].finalize_catalog()
    if c.parallel:
        makers[0].finalize_catalog()
        c.prove('locks', not d.locks)
    else:
        c.prove('finalized', c.raises(lambda: makers[0].append_galaxies(g), RuntimeError))
    pix = [int(c.np.floor(x[1] / 2.0)) for x in allg]
    occ = sorted(set(pix))
    tab = C.Entry.from_fits_file(BASE + '_master_table.fit')
    nm = lambda f: f.decode() if hasattr(f, 'decode') else f
    c.prove('table', [int(x) for x in tab.hpix] == occ and int(tab.nside) == 4)
    c.prove('table', [int(x) for x in tab.ngals] == [pix.count(p) for p in occ])
    c.prove('table', [nm(x) for x in tab.filenames] == ['g_%07d.fit' % p for p in occ])
    c.prove('table', c.all([c.eq(tab.ra_pix[i], 2.0 * p + 1.0) for i, p in enumerate(occ)]) & c.eq(tab.lim_ref, 21.0) & c.eq(tab.area, 100.0) & (int(tab.nmag) == 2) & (int(tab.ref_ind) == 1))
    hdr = d.hdr[BASE + '_master_table.fit']
    c.prove('table', hdr.get('PIXELS') == 1 and hdr.get('FITS') == 1)
    seen = []
    for p in occ:
        a = d.f['%s_%07d.fit' % (BASE, p)]
        want = [x for x, q in zip(allg, pix) if q == p]
        c.prove('pixel file', len(a) == len(want))
        for i, w in enumerate(want):
            c.prove('pixel file', c.all([c.eq(a['ra'][i], w[1], tol=0), c.eq(a['refmag'][i], w[2]), c.eqs(a['mag'][i], w[3])]))
            if not c.gen:
                c.prove('identifier', int(a['id'][i]) == w[0])
            seen.append(int(a['id'][i]))
    c.prove('identifier', len(set(seen)) == len(allg) and (not c.gen or min(seen) > 0))
    others = [f for f in d.f if f != BASE + '_master_table.fit' and f not in ['%s_%07d.fit' % (BASE, p) for p in occ]]
    c.prove('pixel file', not others)
    c.cover('pixels%d' % len(occ))


def race(c):
    """two processes writing at once: wherever the second one is scheduled, nothing is lost or doubled"""
    G, C = c.mod('galaxy'), c.mod('catalog')
    d = Disk(c)
    d.install(G, C)
    sky(c, G)
    kw = dict(nside=4, generate_unique_ids=c.gen, parallel=True)
    A, B = (G.GalaxyCatalogMaker(BASE, dict(INFO), **kw) for _ in range(2))
    n = c.n
    ra = [c.reals('ra%d' % k, m, 0, 4) for k, m in enumerate((n, 1))]
    c.assume(*[x < 4 for r in ra for x in r])
    g = [galaxies(c, G, [10 * k + i + 1 for i in range(len(ra[k]))], ra[k], str(k))[1] for k in range(2)]
    pixb = int(c.np.floor(ra[1][0] / 2.0))
    state = dict(done=False, k=0, inside=False)
    held = '%s_%07d.fit.lock' % (BASE, pixb)

    def other(what):
        def hook():
            if state['done'] or state['inside']:
                return
            if what == 'append' and held in d.locks:
                return      # the other process is waiting for the lock
            state['k'] += 1
            if not bool(c.flag('%s%d' % (what, state['k']))):
                return
            state['inside'] = True
            if what == 'append':
                B.append_galaxies(g[1])
            else:
                B.finalize_catalog()
            state.update(inside=False, done=True)
        return hook
    d.hook = other('append')
    A.append_galaxies(g[0])
    d.hook = lambda: None
    if not state['done']:
        B.append_galaxies(g[1])
    c.prove('locks', not d.locks)
    state.update(done=not c.final, k=0)
    d.hook = other('finalize')
    A.finalize_catalog()
    d.hook = lambda: None
    B.finalize_catalog()
    c.prove('locks', not d.locks)
    allg = [(10 * k + i + 1, ra[k][i]) for k in range(2) for i in range(len(ra[k]))]
    pix = [int(c.np.floor(x[1] / 2.0)) for x in allg]
    occ = sorted(set(pix))
    tab = C.Entry.from_fits_file(BASE + '_master_table.fit')
    c.prove('table', [int(x) for x in tab.hpix] == occ and [int(x) for x in tab.ngals] == [pix.count(p) for p in occ])
    seen = []
    for p in occ:
        a = d.f['%s_%07d.fit' % (BASE, p)]
        want = [x for x, q in zip(allg, pix) if q == p]
        c.prove('pixel file', len(a) == len(want))
        if not c.gen:
            c.prove('pixel file', sorted(int(x) for x in a['id']) == sorted(w[0] for w in want))
            for i in range(len(a)):
                w = [w for w in want if w[0] == int(a['id'][i])][0]
                c.prove('pixel file', c.eq(a['ra'][i], w[1], tol=0))
        seen += [int(x) for x in a['id']]
    c.prove('identifier', len(set(seen)) == len(allg))
    c.cover('end')


def lockfile(c):
    """the lock is taken when, and only when, nobody else holds it; no temporary file is left"""
    U = c.mod('utilities')
    import os, tempfile, time
    files, log = set(), []
    tries, block = c.tries, c.block
    lock = '/nonexistent/a.lock'
    free = []

    def link(a, b):
        assert a in files and b == lock
        f = bool(c.flag('free%d' % len(free)))
        free.append(f)
        if not f:
            raise FileExistsError(b)
        files.add(b)

    def mkstemp(prefix='', dir=None, **k):
        assert dir == '/nonexistent'
        files.add('/nonexistent/tmp%d' % len(log))
        log.append('t')
        return 77, '/nonexistent/tmp%d' % (len(log) - 1)

    def unlink(f):
        files.remove(f)
    c.patch(os, 'link', link)
    c.patch(os, 'unlink', unlink)
    c.patch(os, 'remove', unlink)
    c.patch(os, 'close', lambda fd: None)
    c.patch(tempfile, 'mkstemp', mkstemp)
    c.patch(time, 'sleep', lambda s: log.append('s'))
    got = U.make_lockfile(lock, block=block, maxtry=tries)
    c.prove('held', (got is True or got is False) and got == (lock in files))
    c.prove('tidy', files <= {lock})
    c.prove('tries', got == any(free) and len(free) == ((free.index(True) + 1) if any(free) else (tries if block else 1)))
    c.cover('got' if got else 'not')


def checked(c):
    """values no galaxy may have are refused, all others accepted"""
    G, C = c.mod('galaxy'), c.mod('catalog')
    d = Disk(c)
    d.install(G, C)
    sky(c, G)
    info = dict(INFO)
    lup = c.params.get('lup')
    if lup:
        info['B'] = c.np.array([1e-10, 1e-10])
    m = G.GalaxyCatalogMaker(BASE, info, nside=4)
    ra = c.reals('ra', 2, -1, 400)
    dec = c.reals('dec', 2, -100, 100)
    mag = c.reals('mag', 2, -1, 120)
    err = c.reals('err', 2, -1, 120)
    v, g = galaxies(c, G, [1, 2], [1.0, 3.0], '0')
    w = c.which
    g['ra'][w], g['dec'][w] = ra[w], dec[w]
    g['mag'][w, 1], g['mag_err'][1 - w, 0] = mag[0], err[0]
    if c.params.get('nan'):
        k = c.nan
        if k in ('mag', 'mag_err'):
            g[k][w, 0] = float('nan')
        else:
            g[k][w] = float('nan') if not c.params.get('inf') else float('inf')
        c.prove('not finite', c.raises(lambda: m._check_galaxies(g), RuntimeError))
        c.cover('end')
        return
    c.assume((mag[0] <= 89.5) | (mag[0] >= 90), (err[0] <= 89.5) | (err[0] >= 90))
    ok = bool((ra[w] >= 0) & (ra[w] <= 360)) and bool((dec[w] >= -90) & (dec[w] <= 90)) and bool((mag[0] > 0) & (mag[0] < 90)) and bool(err[0] > 0) and (bool(lup) or bool(err[0] < 90))
    refused = c.raises(lambda: m._check_galaxies(g), RuntimeError) is not None
    c.prove('refused', refused == (not ok))
    c.cover('ok' if ok else 'bad')


def nomag(c):
    """a missing required column or the wrong number of bands is refused"""
    G, C = c.mod('galaxy'), c.mod('catalog')
    d = Disk(c)
    d.install(G, C)
    sky(c, G)
    m = G.GalaxyCatalogMaker(BASE, dict(INFO, NMAG=3), nside=4)
    v, g = galaxies(c, G, [1, 2], [1.0, 3.0], '0')
    c.prove('bands', c.raises(lambda: m.append_galaxies(g), RuntimeError) and not d.f)
    m = G.GalaxyCatalogMaker(BASE, dict(INFO), nside=4, ingest_truth=True)
    c.prove('truth', c.raises(lambda: m.append_galaxies(g), RuntimeError) and not d.f)
    m = G.GalaxyCatalogMaker(BASE, dict(INFO), nside=4, ingest_zspec=True)
    c.prove('zspec', c.raises(lambda: m.append_galaxies(g), RuntimeError) and not d.f)
    c.cover('end')


ZDT = [('zred', 'f4'), ('zred_e', 'f4'), ('chisq', 'f4')]


def table(c, G, C, d, counts, truth, zreds, skip=(), reorder=False):
    """a galaxy table of nside 8 with counts[p] galaxies in pixel p (and zred files)"""
    gals = []
    occ = [p for p in range(len(counts)) if counts[p]]
    z = {}
    for p in occ:
        n = counts[p]
        ids = [10 * p + i for i in range(n)]
        ra = c.np.array([p + 0.25 * (i + 1) for i in range(n)])
        v, g = galaxies(c, G, ids, ra, str(p), truth=truth, order=reorder and p == occ[-1])
        d.f['%s_%07d.fit' % (BASE, p)] = g
        chi, zr = c.reals('chi%d' % p, n, 0, 40), c.reals('zr%d' % p, n, 0, 1)
        if zreds and p not in skip:
            d.f['/nonexistent/z/zz_%07d.fit' % p] = c.rec(n, ZDT, dict(zred=zr, chisq=chi))
        for i in range(n):
            gals.append(Obj(id=ids[i], ra=ra[i], p=p, refmag=v['refmag'][i], mag=v['mag'][i], zred=zr[i], chisq=chi[i], zt=v['ztrue'][i] if truth else None))
    k = len(occ)
    dt = [('nside', 'i2'), ('hpix', 'i4', (k,)), ('ngals', 'i4', (k,)), ('filenames', 'S40', (k,)), ('has_truth', 'i2'), ('has_zspec', 'i2')]
    for f, pre in ((BASE + '_master_table.fit', 'g_'), ('/nonexistent/z/zz_master_table.fit', 'zz_')):
        t = numpy.zeros(1, dtype=dt)
        t['nside'] = 8
        t['hpix'][0] = occ
        t['ngals'][0] = [counts[p] for p in occ]
        t['filenames'][0] = ['%s%07d.fit' % (pre, p) for p in occ]
        t['has_truth'] = int(truth)
        d.f[f] = t
        d.hdr[f] = dict(PIXELS=1, FITS=1)
    return gals


def read(c):
    """a region is read as exactly its galaxies, each with its own zred"""
    G, C = c.mod('galaxy'), c.mod('catalog')
    d = Disk(c)
    d.install(G, C)
    sky(c, G)
    has_truth = c.params.get('truth', False)
    want_truth = c.params.get('want', False)
    zf = c.params.get('zred', True)
    skip = c.params.get('skip', [])
    border = c.params.get('border', 0.0)
    gals = table(c, G, C, d, c.counts, has_truth, zf, skip, c.params.get('reorder', False))
    near = set()
    if border:
        # stand-in: the border of a pixel of nside 4 reaches half a pixel of nside 8 to either side
        c.patch(G, 'hpc', Obj(boundaries=lambda nside, p, step=1, **k: numpy.array([[p], [0], [0]]),
                              query_disc=lambda nside, vec, rad, **k: numpy.array([x for x in range(int(nside)) if 2 * vec[0] - 0.5 <= (x + 0.5) * 8.0 / nside <= 2 * vec[0] + 2.5], dtype=int)))
    kw = {}
    if zf:
        kw['zredfile'] = '/nonexistent/z/zz_master_table.fit'
    lo, hi, cmax = -1000.0, 1000.0, 1e100
    if c.temp:
        lo, hi, cmax = c.real('lo', 14, 18), c.real('hi', 17, 21), c.real('cmax', 0, 30)
        kw.update(use_tempfile=True, refmag_range=[lo, hi], chisq_max=cmax)
    call = lambda: G.GalaxyCatalog.from_galfile(BASE + '_master_table.fit', nside=c.nside, hpix=c.hpix, border=border, truth=want_truth, **kw)
    if want_truth and not has_truth:
        c.prove('no truth', c.raises(call, RuntimeError))
        c.cover('end')
        return
    cat = call()
    want = []
    for g in gals:
        inside = not c.hpix or c.nside == 0 or (g.p * c.nside) // 8 in c.hpix
        if border:
            x = float(g.ra)
            q = c.hpix[0]
            inside = 2 * q - 0.5 <= x <= 2 * q + 2.5
        if inside and g.p not in skip and bool(g.refmag > lo) and bool(g.refmag < hi) and (not zf or bool(g.chisq < cmax)):
            want.append(g)
    by = {int(cat.id[i]): i for i in range(cat.size)}
    c.prove('region', cat.size == len(want) and sorted(by) == sorted(g.id for g in want))
    for g in want:
        i = by[g.id]
        c.prove('own values', c.all([c.eq(cat.ra[i], g.ra), c.eq(cat.refmag[i], g.refmag), c.eqs(cat.mag[i], g.mag)]))
        if zf:
            c.prove('own zred', c.all([c.eq(cat.zred[i], g.zred), c.eq(cat.chisq[i], g.chisq)]))
        if want_truth:
            c.prove('own truth', c.eq(cat.ztrue[i], g.zt))
    if not want_truth:
        c.prove('no truth', not set(cat.dtype.names) & {'ztrue', 'm200', 'central', 'halo_id'})
    if cat.size:
        col = cat.galcol
        c.prove('colours', c.all([c.eq(col[i, 0], cat.mag[i, 0] - cat.mag[i, 1]) for i in range(cat.size)]))
    c.prove('tidy', '/nonexistent/temp.fits' not in d.f)
    c.cover('n%d' % len(want))


def refuse(c):
    """requests that make no sense are refused"""
    G, C = c.mod('galaxy'), c.mod('catalog')
    d = Disk(c)
    d.install(G, C)
    sky(c, G)
    table(c, G, C, d, [1, 0, 1], False, True)
    f = BASE + '_master_table.fit'
    F = G.GalaxyCatalog.from_galfile
    c.prove('border', c.raises(lambda: F(f, nside=4, hpix=[0], border=-1.0), ValueError))
    c.prove('range', c.raises(lambda: F(f, nside=4, hpix=[4]), ValueError) and c.raises(lambda: F(f, nside=4, hpix=[-1]), ValueError))
    c.prove('nside', c.raises(lambda: F(f, nside=16, hpix=[0]), ValueError))
    c.prove('list', c.raises(lambda: F(f, nside=4, hpix=[0, 1], border=0.5), NotImplementedError))
    d.f = {k: v for k, v in d.f.items() if not k.startswith('/nonexistent/z/zz_0')}
    c.prove('no zreds', c.raises(lambda: F(f, zredfile='/nonexistent/z/zz_master_table.fit'), ValueError))
    c.cover('end')


PROPS = {
    'P15': dict(level='model_checking',
                functions=['galaxy.GalaxyCatalogMaker.append_galaxies', 'galaxy.GalaxyCatalogMaker.finalize_catalog', 'galaxy.GalaxyCatalogMaker._check_galaxies', 'galaxy.GalaxyCatalog.from_galfile',
                           'galaxy.get_subpixel_indices', 'utilities.make_lockfile'],
                bounds='<= 3 chunks of <= 3 galaxies over 4 pixels, serially or by two alternating parallel writers, or a second writer scheduled as a whole at any file operation of the first; locks with <= 3 attempts; tables of <= 4 pixels read whole, by pixel list or with a border',
                assumptions=['files, locks and directory listings are held in memory by a stand-in', 'pixelisation is a stand-in (intervals of right ascension)'],
                instances=[('ingest', dict(sizes=[2, 1], gen=False, parallel=False, covers=['pixels1', 'pixels3'])), ('ingest', dict(sizes=[2, 1], gen=True, parallel=False)),
                           ('ingest', dict(sizes=[1, 2], gen=False, parallel=True, covers=['pixels2'])), ('ingest', dict(sizes=[1, 1], gen=True, parallel=True)),
                           ('ingest', dict(sizes=[2, 1], gen=False, parallel=False, dup=True, covers=['dup'])), ('ingest', dict(sizes=[1, 1], gen=False, parallel=True, dup=True)),
                           ('ingest', dict(sizes=[1, 2], gen=False, parallel=False, mask=True)), ('ingest', dict(sizes=[2, 2, 1], gen=False, parallel=True), 'thorough'),
                           ('ingest', dict(sizes=[2, 2, 1], gen=True, parallel=False, mask=True), 'thorough'),
                           ('race', dict(n=1, gen=False, final=False, covers=['end'])), ('race', dict(n=2, gen=False, final=False)), ('race', dict(n=1, gen=True, final=True)), ('race', dict(n=1, gen=False, final=True)),
                           ('lockfile', dict(block=True, tries=3, covers=['got', 'not'])), ('lockfile', dict(block=False, tries=3, covers=['got', 'not'])),
                           ('checked', dict(which=0, covers=['ok', 'bad'])), ('checked', dict(which=1, lup=True))] +
                          [('checked', dict(which=i % 2, nan=k, inf=(i > 3))) for i, k in enumerate(('ra', 'refmag', 'mag', 'mag_err', 'ebv', 'dec'))] +
                          [('nomag', dict(covers=['end'])), ('refuse', dict(covers=['end'])),
                           ('read', dict(counts=[1, 2, 0, 1], nside=0, hpix=[], temp=False, covers=['n4'])), ('read', dict(counts=[1, 2, 0, 1], nside=4, hpix=[0], temp=False)),
                           ('read', dict(counts=[1, 1, 1, 1], nside=8, hpix=[3, 1], temp=False, truth=True)), ('read', dict(counts=[1, 1, 1, 1], nside=4, hpix=[1], temp=False, truth=True, want=True)),
                           ('read', dict(counts=[0, 2], nside=0, hpix=[], temp=False)), ('read', dict(counts=[2], nside=4, hpix=[0], temp=True)), ('read', dict(counts=[0, 1], nside=8, hpix=[1], temp=False, truth=True, want=True)),
                           ('read', dict(counts=[1, 0, 1], nside=0, hpix=[], temp=False, want=True)),
                           ('read', dict(counts=[1, 2, 1], nside=0, hpix=[], temp=False, skip=[1], covers=['n2'])), ('read', dict(counts=[2, 1], nside=0, hpix=[], temp=False, zred=False)),
                           ('read', dict(counts=[2, 1], nside=0, hpix=[], temp=False, truth=True, want=True, reorder=True)), ('read', dict(counts=[1, 1], nside=0, hpix=[], temp=True, reorder=True)),
                           ('read', dict(counts=[2, 1, 0, 1], nside=4, hpix=[0], temp=True, covers=['n3', 'n1'])), ('read', dict(counts=[2, 1], nside=0, hpix=[], temp=True, zred=False)),
                           ('read', dict(counts=[1, 2, 2, 2, 1], nside=4, hpix=[1], border=0.25, temp=False)), ('read', dict(counts=[1, 1, 1, 1, 1], nside=4, hpix=[1], border=0.25, temp=True))]),
}
