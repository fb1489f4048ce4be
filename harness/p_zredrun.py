"""Runs that compute zreds: one file, a pixel table, or one distributed task per pixel."""
import fnmatch
import os as _os
import numpy
from .common import Obj, silent_logger
from .p_galaxy import Disk, sky, galaxies, table, BASE

ZF = '/nonexistent/zr/out_zreds_master_table.fit'
FIELDS = ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq')


def values(c, x):
    """what the (stand-in) redshift computation gives a galaxy of magnitude x"""
    return dict((k, x * (0.5 + 0.125 * i) - i) for i, k in enumerate(FIELDS)), [x - 1.0, x * 0.25]


def setup(c, d):
    """the zred runner with its files in memory, processes in turn (finishing in another order)"""
    R, G, C = c.mod('zred_runner'), c.mod('galaxy'), c.mod('catalog')
    d.install(G, C)
    sky(c, G)
    c.patch(R, 'fitsio', d.fitsio)
    c.patch(R, 'os', Obj(path=G.os.path, makedirs=lambda *a, **k: None))
    seen = []

    class Zc(object):
        def __init__(self, zredstr, **k):
            pass

        def compute_zreds(self, g):
            seen.append(g.size)
            for i in range(g.size):
                v, s = values(c, g.refmag[i])
                for k in FIELDS:
                    g._ndarray[k][i] = v[k]
                g._ndarray['zred_samp'][i, :] = s
    c.patch(R, 'ZredColor', Zc)
    c.patch(R, 'RedSequenceColorPar', lambda f, **k: Obj())

    class Pool(object):
        def __init__(self, processes=1):
            assert processes >= 1

        def map(self, f, l, chunksize=1):
            l = list(l)
            out = {}
            for i in reversed(range(len(l))):
                out[i] = f(l[i])
            return [out[i] for i in range(len(l))]

        def close(self):
            pass

        def join(self):
            pass
    c.patch(R, 'multiprocessing', Obj(get_context=lambda k: Obj(Pool=Pool)))
    return R, G, C


class Cfg(object):
    def __init__(self, **k):
        self.__dict__.update(k)

    def copy(self):
        return Cfg(**self.__dict__)


def config(**k):
    a = dict(parfile='/nonexistent/p.fit', galfile=BASE + '_master_table.fit', galfile_pixelized=True, zredfile=ZF, zred_nsamp=2, calib_nproc=2, border=0.0, d=Obj(hpix=[], nside=0, outbase='x'),
             logger=silent_logger(), cosmo=1, outbase='x')
    a.update(k)
    return Cfg(**a)


def own(c, a, i, x, what):
    v, s = values(c, x)
    low = {k.lower(): k for k in a.dtype.names}
    c.prove(what, c.all([c.eq(a[low[k]][i], v[k]) for k in FIELDS] + [c.eqs(a[low['zred_samp']][i], c.np.array(s))]))


def catalogue(c):
    """one file: every galaxy gets its own redshift, however the file is divided"""
    d = Disk(c)
    R, G, C = setup(c, d)
    n = c.index('n', 1, c.n)
    nproc = c.index('nproc', 1, 3)
    kw = {}
    if c.divide == 'given':
        kw['nperproc'] = c.index('nperproc', 1, 3)
    elif c.divide == 'max':
        kw['maxperproc'] = c.index('maxperproc', 1, 2)
    v, g = galaxies(c, G, list(range(1, n + 1)), c.np.array([0.5] * n))
    f = '/nonexistent/one.fit'
    d.f[f] = g
    d.hdr[f] = dict(NAXIS2=n)
    r = R.ZredRunCatalog(config(calib_nproc=nproc))
    r.run(f, '/nonexistent/o.fit', **kw)
    a = d.f['/nonexistent/o.fit']
    c.prove('rows', len(a) == n)
    for i in range(n):
        own(c, a, i, v['refmag'][i], 'own redshift')
    c.cover('n%d' % n)


def pixels(c):
    """a pixel table: one zred file per galaxy file, row by row, and a table listing them"""
    d = Disk(c)
    R, G, C = setup(c, d)
    gals = table(c, G, C, d, c.counts, False, False)
    nside, hpix = c.params.get('nside', 0), c.params.get('hpix', [])
    cfg = config(d=Obj(hpix=hpix, nside=nside))
    real = d.fitsio.read_header
    d.fitsio.read_header = lambda f, ext=1: dict(real(f, ext), NAXIS2=len(d.f[f]))
    r = R.ZredRunPixels(cfg)
    ret = r.run(single_process=c.single, no_zred_table=c.params.get('notable', False), verbose=True)
    occ = [p for p in range(len(c.counts)) if c.counts[p]]
    use = [p for p in occ if not hpix or nside == 0 or (p * nside) // 8 in hpix]
    for p in use:
        f = '/nonexistent/zr/out_zreds_%07d.fit' % p
        c.prove('files', f in d.f)
        mine = [g for g in gals if g.p == p]
        c.prove('rows', len(d.f[f]) == len(mine))
        for i, g in enumerate(mine):
            own(c, d.f[f], i, g.refmag, 'own redshift')
    if c.params.get('notable'):
        c.prove('returned', sorted((int(i), f) for i, f in ret) == sorted((occ.index(p), '/nonexistent/zr/out_zreds_%07d.fit' % p) for p in use) and ZF not in d.f)
        c.cover('end')
        return
    tab = C.Entry.from_fits_file(ZF)
    nm = lambda f: f.decode() if hasattr(f, 'decode') else f
    c.prove('table', [nm(f) for f in tab.filenames] == ['out_zreds_%07d.fit' % p if p in use else '' for p in occ] and [int(x) for x in tab.ngals] == [c.counts[p] if p in use else 0 for p in occ])
    c.prove('table', [int(x) for x in tab.hpix] == occ and int(tab.nside) == 8 and d.hdr[ZF].get('PIXELS') == 1)
    # and the galaxies are read back with their own redshifts
    if not hpix:
        cat = G.GalaxyCatalog.from_galfile(BASE + '_master_table.fit', zredfile=ZF)
        c.prove('read back', cat.size == len(gals))
        for i in range(cat.size):
            g = [x for x in gals if x.id == int(cat.id[i])][0]
            own(c, cat._ndarray, i, g.refmag, 'read back')
    # missing or short files are refused
    f = '/nonexistent/zr/out_zreds_%07d.fit' % use[-1]
    pairs = [(occ.index(p), '/nonexistent/zr/out_zreds_%07d.fit' % p) for p in use]
    keep = d.f.pop(f)
    c.prove('refused', c.raises(lambda: r.make_zred_table(pairs), ValueError) is not None)
    d.f[f] = keep[:len(keep) - 1]
    c.prove('refused', c.raises(lambda: r.make_zred_table(pairs), ValueError) is not None)
    c.cover('end')


def tasks(c):
    """distributed tasks, one per pixel: wherever the second one runs, the table is made once all files are complete, and not before"""
    T = c.mod('pipeline.zredtask')
    C = c.mod('catalog')
    locks, files, made = set(), {}, []
    n = c.n
    # the pixels of the first task and of the second one
    pix = [[0, 1][:n], [n]]
    npix = n + 1
    st = dict(inside=None, k=0, phase=0)
    lock = ['/nonexistent/zr/out_zreds_%07d.lock' % (5 + k) for k in range(2)]
    main = ZF + '.lock'

    def name(p):
        return '/nonexistent/zr/out_zreds_%07d.fit' % p

    class Run(object):
        def __init__(self, cfg):
            self.k = int(cfg.d.hpix[0]) - 5
            c.prove('runs on its pixel', int(cfg.d.nside) == 4)
            self.galtable = Obj(filenames=numpy.array(['x'] * npix), hpix=numpy.arange(npix))

        def run(self, single_process=False, no_zred_table=False, verbose=False):
            c.prove('the table is made once all pixels are done', bool(no_zred_table))
            for p in pix[self.k]:
                point()
                files[name(p)] = 'partial'
                point()
                files[name(p)] = 'complete'

        def make_zred_table(self, pairs):
            made.append(sorted((int(i), f) for i, f in pairs))
            state = [files.get(f) for i, f in pairs]
            c.prove('complete', state == ['complete'] * npix and made[-1] == [(i, name(i)) for i in range(npix)])
            files[ZF] = 'complete'

    import threading
    sem = [threading.Semaphore(0), threading.Semaphore(0)]

    class Other(object):
        """the second task in its own thread, run only when the schedule says so"""
        def __init__(self):
            self.alive, self.started, self.err = True, False, None
            self.th = threading.Thread(target=self.body, daemon=True)

        def body(self):
            sem[1].acquire()
            try:
                task(1).run()
            except BaseException as e:
                self.err = e
            self.alive = False
            sem[0].release()

        def step(self):
            if not self.started:
                self.started = True
                self.th.start()
            st['inside'] = 1
            sem[1].release()
            sem[0].acquire()
            st['inside'] = None
            if self.err is not None:
                raise self.err

    other = Other()

    def point():
        """a file operation: the other task may make some progress here"""
        if st['inside'] == 1:
            sem[0].release()
            sem[1].acquire()
            return
        while other.alive and st['k'] < c.switches and bool(c.flag('go%d' % st['p'])):
            st['k'] += 1
            st['p'] += 1
            other.step()
        st['p'] += 1
    st['p'] = 0

    def glob(pat):
        point()
        return [f for f in sorted(files) + sorted(locks) if fnmatch.fnmatchcase(f, pat)]

    def make_lock(f, block=False, maxtry=0, waittime=0):
        point()
        tries = 0
        while f in locks:
            if not block:
                return False
            tries += 1
            if tries > 40:
                raise RuntimeError('stuck')
            if st['inside'] == 1:
                sem[0].release()
                sem[1].acquire()
            else:
                other.step()
        locks.add(f)
        return True

    def unlink(f):
        point()
        if f not in locks:
            raise OSError(f)
        locks.remove(f)
    path = Obj(**{k: getattr(_os.path, k) for k in ('join', 'basename', 'dirname', 'abspath')})
    path.exists = lambda f: True
    path.isfile = lambda f: files.get(f) is not None
    c.patch(T, 'os', Obj(path=path, unlink=unlink, remove=unlink, makedirs=lambda *a: None))
    c.patch(T, 'glob', Obj(glob=glob))
    c.patch(T, 'make_lockfile', make_lock)
    c.patch(T, 'ZredRunPixels', Run)

    def task(k):
        t = object.__new__(T.RunZredPixelTask)
        t.config = config(galfile=BASE + '_master_table.fit')
        t.pixel, t.nside = 5 + k, 4
        return t
    task(0).run()
    while other.alive:
        other.step()
    c.prove('made', len(made) >= 1 and files.get(ZF) == 'complete')
    c.prove('locks', not locks)
    c.cover('end')


PROPS = {
    'P22': dict(level='model_checking', functions=['zred_runner.ZredRunCatalog.run', 'zred_runner.ZredRunPixels.run', 'zred_runner.ZredRunPixels.make_zred_table', 'pipeline.zredtask.RunZredPixelTask.run'],
                bounds='<= 4 galaxies in one file over <= 3 processes; tables of <= 4 pixels; two distributed tasks of <= 2 pixels each with every schedule of <= 4 switches at file operations',
                assumptions=['the redshift computation is a stand-in giving distinct values (its own property is P14)', 'files, locks and the process pool are stand-ins', 'a lock is obtained within the allowed time'],
                instances=[('catalogue', dict(n=4, divide='auto', covers=['n1', 'n4'])), ('catalogue', dict(n=4, divide='given')), ('catalogue', dict(n=3, divide='max')),
                           ('pixels', dict(counts=[1, 2, 0, 1], single=False, covers=['end'])), ('pixels', dict(counts=[0, 2], single=True)), ('pixels', dict(counts=[1, 1, 1, 2], single=True, nside=4, hpix=[1])),
                           ('pixels', dict(counts=[1, 1, 1, 2], single=False, nside=4, hpix=[0], notable=True)), ('pixels', dict(counts=[2, 1], single=True, notable=True)),
                           ('tasks', dict(n=1, switches=3, covers=['end'])), ('tasks', dict(n=2, switches=4)), ('tasks', dict(n=2, switches=6), 'thorough')]),
}
