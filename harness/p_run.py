"""The drivers: splitting the sky over processes, the chain of passes of one pixel, and restarts after an interruption."""
import copy
import numpy
from .common import Obj, silent_logger, same


class Crash(Exception):
    """the process dies"""


class Store(object):
    """files in memory; the process may die just before any write"""
    def __init__(self):
        self.f = {}
        self.log = []
        self.left = None

    def write(self, name, what, clobber):
        if self.left is not None:
            if self.left == 0:
                raise Crash()
            self.left -= 1
        name = same(self.f, name)
        # without 'clobber' a file that exists is extended, and its first table is the one that is read
        if name not in self.f or clobber:
            self.f[name] = what
        else:
            self.log.append(('again', name))
        self.log.append(('write', name))

    def isfile(self, name):
        return same(self.f, name) in self.f


class Out(object):
    """a catalogue that can be written"""
    def __init__(self, store, tag, size):
        self.store, self.tag, self.size = store, tag, size

    def to_fits_file(self, name, clobber=False):
        self.store.write(name, self.tag, clobber)


class Cfg(object):
    """configuration: values shared by every copy (as the real one does), except 'd'"""
    def __init__(self, shared=None, d=None):
        self.__dict__['s'] = shared if shared is not None else dict(catfile='in.fit', seedfile='seeds.fit', outbase='cl', border=0.0)
        self.__dict__['d'] = d or Obj(hpix=[], nside=0, outbase='cl')
        self.__dict__['cosmo'] = None
        self.__dict__['logger'] = silent_logger()

    def __getattr__(self, k):
        if k.startswith('__') or 's' not in self.__dict__:
            raise AttributeError(k)
        try:
            return self.__dict__['s'][k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in ('d', 'cosmo', 'logger'):
            self.__dict__[k] = v
        else:
            self.__dict__['s'][k] = v

    def copy(self):
        return Cfg(self.__dict__['s'], self.__dict__['d'])

    def unpickled(self):
        return Cfg(self.__dict__['s'], Obj(**dict(self.d.__dict__, hpix=list(self.d.hpix))))

    def redmapper_filename(self, name, withversion=False, outbase=None, **k):
        return '/nonexistent/%s%s_%s.fit' % (self.d.outbase if outbase is None else outbase, '_v1' if withversion else '', name)

    def start_file_logging(self, *a, **k):
        pass

    def stop_file_logging(self, *a, **k):
        pass

    def check_files(self, **k):
        pass

    def compute_border(self):
        return 2.5


def stages(c, M, store, size, runs, names):
    """stand-ins of the passes: each reads the catalogue of the one before and gives one of 'size' rows (None: no catalogue)"""
    CR = c.mod('cluster_runner').ClusterRunner
    output = CR.__dict__['output']
    fname = CR.__dict__['filename']

    def make(kind, ftype):
        class Stage(object):
            filename = fname

            def __init__(self, config, **k):
                self.config, self._filename, self.filetype, self.members, self.cat, self.kw = config, None, ftype, None, None, k
                self.hpix = list(config.d.hpix)

            def run(self, **k):
                src = self.config.catfile
                if kind in ('like', 'perc') and 'first' in names and not store.isfile(src):
                    raise IOError('no such file %s' % (src,))
                runs.append(Obj(kind=kind, kw=dict(self.kw, **k), catfile=src, seedfile=self.config.seedfile, hpix=self.hpix, border=self.config.border, nside=self.config.d.nside))
                n = size[kind]
                if n is None:
                    return
                tag = (kind, src if kind != 'first' else self.config.seedfile)
                run = len(runs)
                self.cat = Out(store, (run,) + tag, n)
                self.members = Out(store, (run,) + tag + ('members',), 3 * n) if n > 0 else None

            def output(self, savemembers=True, withversion=True, clobber=False, outbase=None):
                return output(self, savemembers=savemembers, withversion=withversion, clobber=clobber, outbase=outbase)
        return Stage
    for kind, (attr, ftype) in names.items():
        c.patch(M, attr, make(kind, ftype))


PASSES = dict(first=('RunFirstPass', 'firstpass'), like=('RunLikelihoods', 'like'), perc=('RunPercolation', 'perc'))


def outcome(c, name):
    """no catalogue, an empty one, or a good one"""
    return [None, 0, 2][c.index(name, 0, 2)]


def fate(size, only):
    out = []
    for k in (['perc'] if only else ['first', 'like', 'perc']):
        if size[k] is None or size[k] == 0:
            return out
        out.append(k)
    return out


def chain(c):
    """one pixel through the passes, interrupted anywhere and started again"""
    M = c.mod('redmapper_run')
    only, check = c.params.get('only', False), c.params.get('check', True)
    store, runs = Store(), []
    size = dict((k, outcome(c, k)) for k in PASSES)
    stages(c, M, store, size, runs, PASSES)
    c.patch(M, 'os', Obj(path=Obj(isfile=store.isfile, exists=store.isfile)))
    c.patch(M, 'Cosmo', lambda **k: Obj(**k))
    r = M.RedmapperRun.__new__(M.RedmapperRun)
    cfg = Cfg(d=Obj(hpix=[1], nside=4, outbase='cl'))
    r.config, r._H0, r._omega_l, r._omega_m = cfg, 70.0, 0.7, 0.3
    r.specmode, r.check, r.keepz, r.cleaninput = c.flag('spec'), check, c.flag('keepz'), c.flag('clean')

    def attempt(pix):
        # every task of a pool works on its own (unpickled) copy of the driver
        w = copy.copy(r)
        w.config = cfg.unpickled()
        return (w._percolation_only_worker if only else w._worker)(pix)
    store.left = c.index('crash', 0, 4)
    if only:
        store.f['in.fit'] = 'in'
    dead = False
    try:
        res = attempt(7)
    except Crash:
        dead = True
    n1 = len(runs)
    if dead:
        store.left = None
        done1 = [q for q in store.log if q[0] == 'write']
        cfg.catfile = 'in.fit'
        res = attempt(7)
        c.cover('restarted')
    store.left = None
    made = fate(size, only)
    base = 'cl_00007' if only else 'cl_4_00007'
    nm = dict((k, '/nonexistent/%s_%s_catalog.fit' % (base, PASSES[k][1])) for k in PASSES)
    full = only or r.check
    want = (7,) + tuple(nm[k] if k in made else None for k in ('first', 'like', 'perc'))
    c.prove('reports its pixel and files', tuple(res) == want)
    tags = {}
    prev = cfg.seedfile
    for k in ('first', 'like', 'perc'):
        if only and k != 'perc':
            continue
        if k in made:
            tags[nm[k]] = (k, prev if not only else 'in.fit')
            prev = nm[k]
    if 'perc' in made:
        tags[nm['perc'].replace('_catalog', '_catalog_members')] = tags[nm['perc']] + ('members',)
    left = dict((k, v) for k, v in store.f.items() if k != 'in.fit')
    c.prove('files as from an undisturbed run', dict((k, v[1:]) for k, v in left.items()) == tags)
    if 'perc' in made:
        c.prove('members of the same run', left[nm['perc']][0] == left[nm['perc'].replace('_catalog', '_catalog_members')][0])
    for q in runs:
        c.prove('own pixel', q.hpix == [7] and q.nside == 4)
        c.prove('options', q.kw.get('keepz') == r.keepz and (q.kw.get('cleaninput') == r.cleaninput if q.kind == ('perc' if only else 'first') else True) and
                (q.kw.get('specmode') == r.specmode if q.kind == 'first' else True))
    if dead and check:
        second = [q.kind for q in runs[n1:]]
        fin = [k for k in PASSES if ('write', nm[k]) in done1]
        c.prove('completed passes are not repeated', not any(k in second for k in fin))
    c.prove('pixel settings stay local', cfg.d.outbase == 'cl' and cfg.d.hpix == [1])
    c.cover('full' if 'perc' in made else 'part')


def task(c):
    """the same for a distributed task of one pixel"""
    M = c.mod('pipeline.redmappertask')
    kind = c.kind
    names = dict(redmapper=PASSES, runcat=dict(cat=('RunCatalog', 'runcat')), zmask=dict(cat=('RunRandomsZmask', 'randoms_zmask')), zscan=dict(cat=('RunZScan', 'zscan')))[kind]
    cls = dict(redmapper='RunRedmapperPixelTask', runcat='RuncatPixelTask', zmask='RunZmaskPixelTask', zscan='RunZScanPixelTask')[kind]
    store, runs = Store(), []
    if kind == 'redmapper':
        size = dict((k, [None, 2][c.index(k, 0, 1)]) for k in PASSES)
    else:
        size = dict(cat=2)
    stages(c, M, store, size, runs, names)
    c.patch(M, 'os', Obj(path=Obj(isfile=store.isfile, exists=store.isfile)))

    def attempt():
        t = getattr(M, cls).__new__(getattr(M, cls))
        cfg = Cfg(dict(catfile='in.fit', seedfile='seeds.fit', outbase='cl', border=0.0, galfile_pixelized=True, runcat_percolation_masking=c.params.get('mask', False)))
        t.config, t.pixel, t.nside = cfg, 7, 4
        t.run()
        return t
    store.left = c.index('crash', 0, 5)
    dead = False
    try:
        t = attempt()
    except Crash:
        dead = True
    first = dict(store.f)
    done1 = [q for q in store.log if q[0] == 'write']
    n1 = len(runs)
    store.left = None
    t = attempt()
    second = [q.kind for q in runs[n1:]]
    made = fate(size, False) if kind == 'redmapper' else ['cat']
    v = '_v1' if kind in ('runcat', 'zscan') else ''
    nm = dict((k, '/nonexistent/cl_4_00007%s_%s_catalog.fit' % (v, names[k][1])) for k in names)
    want = set(nm[k] for k in made)
    if kind != 'zmask' and made and made[-1] in ('perc', 'cat'):
        want.add(nm[made[-1]].replace('_catalog', '_catalog_members'))
    c.prove('files as from an undisturbed run', set(store.f) == want)
    fin = [k for k in names if ('write', nm[k]) in done1]
    c.prove('completed passes are not repeated', not any(k in second for k in fin))
    c.prove('nothing appended', not [q for q in store.log if q[0] == 'again'])
    if kind != 'zmask' and made and made[-1] in ('perc', 'cat'):
        c.prove('members of the same run', store.f[nm[made[-1]]][0] == store.f[nm[made[-1]].replace('_catalog', '_catalog_members')][0])
    c.prove('own pixel', all(q.hpix == [7] and q.nside == 4 and q.border == 2.5 for q in runs))
    if kind == 'redmapper':
        src = {nm[k]: p for k, p in (('first', 'seeds.fit'), ('like', nm['first']), ('perc', nm['like']))}
        c.prove('chained', all(store.f[nm[k]][1:] == (k, src[nm[k]]) for k in made))
    if kind == 'runcat':
        c.prove('masking option', all(q.kw.get('do_percolation_masking') == c.params.get('mask', False) for q in runs))
    c.cover('restarted' if dead else 'straight')


def driver(c):
    """all pixels, and what is consolidated"""
    M = c.mod('redmapper_run')
    n = c.n
    calls = []
    cfg = Cfg(dict(seedfile='orig.fit', catfile='in.fit', calib_run_nproc=3, outbase='cl'), d=Obj(hpix=[3], nside=2, outbase='cl'))
    r = M.RedmapperRun.__new__(M.RedmapperRun)
    r.config = cfg
    pix = numpy.array([11, 5, 9, 2][:n])
    r._get_pixel_splits = lambda: (8, pix)
    got = [outcome(c, 'o%d' % i) for i in range(n)]
    only = c.flag('only')
    spec, keepz = c.flag('spec'), c.flag('keepz')
    seed = 'mine.fit' if c.flag('seed') else None
    like, cons = c.flag('like'), c.flag('cons')

    def work(self, h):
        i = list(pix).index(h)
        calls.append((only, h, self.config.seedfile, self.config.d.nside, self.specmode, self.keepz, self.check, self.cleaninput))
        if only:
            return (h, None, None, None if got[i] is None else 'perc%d' % h)
        return (h, 'fp%d' % h, None if got[i] is None else 'like%d' % h, None if not got[i] else 'perc%d' % h)

    def wrong(self, h):
        raise AssertionError('wrong worker')
    c.patch(M.RedmapperRun, '_worker', wrong if only else work)
    c.patch(M.RedmapperRun, '_percolation_only_worker', work if only else wrong)
    con = []

    def consolidate(self, hp, fn, ftype, members=False, check=True):
        con.append((list(hp), list(fn), ftype, members, check, self.config.d.nside))
        return 'out_' + ftype
    c.patch(M.RedmapperRun, '_consolidate', consolidate)

    class Pool(object):
        def __init__(self, processes=1):
            calls.append(('pool', processes))

        def map(self, f, l, chunksize=1):
            l = list(l)
            out = {}
            for i in reversed(range(len(l))):
                out[i] = f(l[i])
            return [out[i] for i in range(len(l))]

        def close(self):
            pass

        def join(self):
            pass
    c.patch(M, 'multiprocessing', Obj(get_context=lambda k: Obj(Pool=Pool)))
    go = lambda: r.run(specmode=spec, seedfile=seed, check=False, percolation_only=only, consolidate_like=like, keepz=keepz, cleaninput=True, consolidate=cons)
    if spec and (only or not keepz):
        c.prove('refused', c.raises(go, RuntimeError) is not None and not calls)
        c.cover('refused')
        return
    res = go()
    work_calls = [q for q in calls if q[0] != 'pool']
    c.prove('every pixel once', sorted(q[1] for q in work_calls) == sorted(int(x) for x in pix))
    c.prove('options', all(q[2] == (seed or 'orig.fit') and q[3] == 8 and q[4] == spec and q[5] == keepz and q[6] is False and q[7] is True for q in work_calls))
    okl = [] if only else [int(pix[i]) for i in range(n) if got[i] is not None]
    okp = [int(pix[i]) for i in range(n) if (got[i] is not None if only else bool(got[i]))]
    want = []
    if cons:
        want.append((okp, ['perc%d' % h for h in okp], 'final', True, False, 8))
    if like:
        want.append((okl, ['like%d' % h for h in okl], 'like', False, False, 8))
    c.prove('consolidated', sorted(con) == sorted(want))
    c.prove('the catalogue comes last', not cons or con[-1][2] == 'final')
    fin = 'out_final' if cons else None
    c.prove('returns', res == ((fin, 'out_like') if like else fin))
    c.prove('settings restored', cfg.seedfile == 'orig.fit' and cfg.d.nside == 2 and cfg.d.hpix == [3])
    c.cover('end')


def splits(c):
    """pixels of the run cover every galaxy pixel of the region exactly once"""
    M = c.mod('redmapper_run')
    T = c.table          # nside of the galaxy table; the sky is a strip of T pixels of nside T
    n = c.n

    def a2p(nside, a, b, lonlat=True, nest=True, **k):
        # the nested numbering is another one
        p = c.np.floor(c.np.asarray(a if lonlat else b) * (int(nside) / 64.0)).astype(numpy.int64)
        return p + 1000 if nest else p

    def p2a(nside, pix, lonlat=True, nest=True, **k):
        ra = (c.np.asarray(pix) - (1000 if nest else 0) + 0.5) * (64.0 / int(nside))
        return (ra, c.np.zeros(len(ra))) if lonlat else (c.np.zeros(len(ra)), ra)
    c.patch(M, 'hpg', Obj(angle_to_pixel=a2p, pixel_to_angle=p2a, nside_to_npixel=lambda k: int(k)))
    # the table: n distinct pixels in increasing order
    pix = []
    for i in range(n):
        pix.append(c.index('p%d' % i, 0 if not pix else pix[-1] + 1, T - n + i))
    c.patch(M, 'Entry', Obj(from_fits_file=lambda f, ext=1: Obj(nside=T, hpix=numpy.array(pix))))
    base = c.base
    hp = []
    if base:
        hp = [c.index('h', 0, base - 1)]
    nproc = c.int('nproc', 1, 1000)
    minn = c.minn
    r = M.RedmapperRun.__new__(M.RedmapperRun)
    r.config = Obj(galfile='g.fit', calib_run_nproc=nproc, calib_run_min_nside=minn, d=Obj(nside=base, hpix=hp))
    inside = [p for p in pix if not base or p * base // T == hp[0]]
    if not inside:
        c.cover('empty')
        return
    ns, out = r._get_pixel_splits()
    out = [int(x) for x in out]
    ns = int(ns)
    c.prove('covers each galaxy pixel once', sorted(set(out)) == sorted(out) and all(sum(1 for o in out if p * ns // T == o) == 1 for p in inside))
    c.prove('no empty or outside pixel', all(any(p * ns // T == o for p in inside) for o in out))
    c.prove('resolution', ns <= T and ns >= max(base, 1))
    if bool(nproc > 1):
        first = max(base, minn)
        k = lambda s: len(set(p * s // T for p in inside))
        fits = [s for s in (1, 2, 4, 8, 16) if first <= s <= T and bool(k(s) <= 2 * nproc)]
        c.prove('as fine as the processes allow', ns == (max(fits) if fits else first))
    c.cover('end')


PROPS = {
    'P24': dict(level='model_checking', functions=['redmapper_run.RedmapperRun.run', 'redmapper_run.RedmapperRun._get_pixel_splits', 'redmapper_run.RedmapperRun._get_subpixels', 'redmapper_run.RedmapperRun._worker',
                                                   'redmapper_run.RedmapperRun._percolation_only_worker', 'pipeline.redmappertask.RunRedmapperPixelTask.run', 'pipeline.redmappertask.RuncatPixelTask.run',
                                                   'pipeline.redmappertask.RunZmaskPixelTask.run', 'pipeline.redmappertask.RunZScanPixelTask.run', 'cluster_runner.ClusterRunner.output'],
                bounds='one interruption before any of the files a pixel writes, then one restart; each pass gives no catalogue, an empty one or a good one; <= 4 table pixels of 8 (16) split for 1..1000 processes; <= 3 pixels per run',
                assumptions=['the passes are stand-ins (P23, P08); a file is written whole or not at all', 'pixels are a one-dimensional nested sky', 'each pool task has its own copy of the driver'],
                instances=[('chain', dict(only=False, check=True, covers=['full', 'part', 'restarted'])), ('chain', dict(only=False, check=False)), ('chain', dict(only=True, covers=['full', 'restarted'])),
                           ('task', dict(kind='redmapper', covers=['restarted', 'straight'])), ('task', dict(kind='runcat')), ('task', dict(kind='runcat', mask=True)), ('task', dict(kind='zmask')), ('task', dict(kind='zscan')),
                           ('driver', dict(n=2, covers=['end', 'refused'])), ('driver', dict(n=4), 'thorough'),
                           ('splits', dict(table=8, n=3, base=0, minn=1, covers=['end'])), ('splits', dict(table=8, n=3, base=2, minn=1)), ('splits', dict(table=8, n=2, base=2, minn=4)), ('splits', dict(table=8, n=2, base=0, minn=2)),
                           ('splits', dict(table=16, n=4, base=2, minn=1), 'thorough'), ('splits', dict(table=16, n=3, base=0, minn=1), 'thorough')]),
}
