"""Consolidation of per-pixel cluster catalogues."""
import numpy
from .common import Obj, silent_logger

CAT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f8'), ('scaleval', 'f8'), ('maskfrac', 'f8'), ('z_lambda', 'f8'), ('lnlike', 'f8'), ('lnlamlike', 'f8'), ('cg_spec_z', 'f8')]
MEM = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('zspec', 'f8'), ('id', 'i8')]


class Store(object):
    """files in memory"""

    def __init__(self, c):
        self.c, self.f = c, {}

    def write(self, name, a, clobber=True):
        if name in self.f and not clobber:
            raise OSError('file exists: %s' % name)
        self.f[name] = a.copy()

    def get(self, name):
        if name not in self.f:
            raise OSError('no such file: %s' % name)
        return self.f[name]

    def fits(self, name, mode='r'):
        st = self

        class Hdu(object):
            def append(self, a):
                st.f[name] = st.c.np.append(st.get(name), a)

            def read_column(self, k):
                return st.get(name)[k].copy()

            def write_column(self, k, v):
                st.get(name)[k] = v

        class F(object):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __getitem__(self, i):
                assert i == 1
                return Hdu()

            def close(self):
                pass
        return F()


def inputs(c, K, pick, prefix, scaled):
    """per-pixel catalogues; position (2*p + i/8) lies in pixel int(ra/2)"""
    st = Store(c)
    names, cl = [], []
    up = bool(c.flag('ascending'))
    for p, row in enumerate(pick):
        f = prefix % p
        names.append(f)
        n = len(row)
        # the numbers of each pixel start at 1, in either order: they clash between pixels and with the renumbered ones
        ids = [i + 1 if up else n - i for i in range(n)]
        v = dict(mem_match_id=ids, ra=[2.0 * q + 0.125 * (i + 1) + 0.5 * p for i, q in enumerate(row)], dec=[float(p)] * n,
                 lnlike=[c.real('k%d%d' % (p, i), -4, 4) for i in range(n)], maskfrac=[c.real('m%d%d' % (p, i), 0, 0.5) for i in range(n)],
                 z_lambda=[c.real('z%d%d' % (p, i), 0.25, 0.75) for i in range(n)] if c.params.get('zs') else [0.25] * n,
                 scaleval=[c.real('s%d%d' % (p, i), 1, 2) for i in range(n)] if scaled else [1.0 + 0.25 * i for i in range(n)])
        v['lambda'] = [c.real('l%d%d' % (p, i), 5, 60) for i in range(n)]
        v['lnlamlike'] = v['lnlike']
        v['cg_spec_z'] = [7.0] * n
        st.f[f] = c.rec(n, CAT, {k: c.np.array(x) for k, x in v.items()})
        mids = [ids[i] for i in range(n) for _ in range(2 if i == 0 else 1)][::-1]
        st.f[f.replace('.fit', '_members.fit')] = c.rec(len(mids), MEM, dict(mem_match_id=mids, ra=[2.0 * p + 1.5 + 0.015625 * j for j in range(len(mids))], dec=[float(p)] * len(mids), zspec=[7.0] * len(mids), id=[100 * p + j for j in range(len(mids))]))
        for i, q in enumerate(row):
            cl.append(Obj(p=p, q=q, i=i, ra=2.0 * q + 0.125 * (i + 1) + 0.5 * p, lam=v['lambda'][i], mf=v['maskfrac'][i], sc=v['scaleval'][i], z=v['z_lambda'][i], like=v['lnlike'][i],
                          mem=[100 * p + j for j in range(len(mids)) if mids[j] == ids[i]]))
    for a in range(len(cl)):
        for b in range(a):
            c.assume(cl[a].like - cl[b].like != 0)
    return st, names, cl


def io(c, st, M):
    C = c.mod('catalog')

    def read(cls, f, ext=1, rows=None):
        a = st.get(f)
        return cls(a.copy() if rows is None else a[rows:rows + 1].copy())
    c.patch(C.DataObject, 'from_fits_file', classmethod(read))
    c.patch(C.DataObject, 'to_fits_file', lambda self, f, clobber=False, indices=None, **k: st.write(f, self._ndarray if indices is None else self._ndarray[indices], clobber=clobber))

    def pix(nside, a, b, lonlat=True, nest=True, **k):
        c.prove('pixels at the resolution of the run', int(nside) == 4)
        ra = a if lonlat else b
        # the nested numbering is another one
        return numpy.array([int(float(x) // 2) + (100 if nest else 0) for x in ra])
    c.patch(M.hpg, 'angle_to_pixel', pix)
    if hasattr(M, 'astro_to_sphere'):
        c.patch(M, 'astro_to_sphere', lambda ra, dec: (dec, ra))


# separations in arcsec of the reference galaxies around successive objects
OFF = [[2.0, 0.5], [2.5], [0.75, 0.25], [4.0]]


class Near(object):
    """matching on the sky; objects and their neighbours share the right ascension"""

    def __init__(self, depth, ra, dec):
        self.ra, self.dec = [float(x) for x in ra], [float(x) for x in dec]

    def match(self, ra, dec, radius, maxmatch=1, **k):
        out = []
        n = len(ra)
        r = [float(radius)] * n if numpy.ndim(radius) == 0 else [float(x) for x in radius]
        for i in range(n):
            d = sorted((abs(self.dec[j] - float(dec[i])), j) for j in range(len(self.ra)) if abs(self.ra[j] - float(ra[i])) < 1e-9 and abs(self.dec[j] - float(dec[i])) < r[i])
            out += [(i, j, x) for x, j in (d if maxmatch < 1 else d[:maxmatch])]
        return numpy.array([o[0] for o in out], dtype=int), numpy.array([o[1] for o in out], dtype=int), numpy.array([o[2] for o in out])


def reference(c, st, names, kind):
    """spectra (or true galaxies) around the centres and members; returns the expected redshift of an object"""
    G, M = c.mod('galaxy'), c.mod('pipeline.redmapperconsolidatetask')
    rows = []
    n = 0
    for f in names:
        for g in (f, f.replace('.fit', '_members.fit')):
            a = st.f[g]
            for k in range(len(a)):
                for o in OFF[n % len(OFF)]:
                    rows.append(Obj(ra=float(a['ra'][k]), dec=float(a['dec'][k]) + o / 3600., off=o, z=c.real('rz%d' % len(rows), 0, 2), e=None))
                n += 1
    for j, r in enumerate(rows):
        # a bounded number of free uncertainties
        r.e = c.real('re%d' % j, 0, 0.002) if kind == 'spec' and j < 3 else (0.0005 if j % 3 else 0.0015)
        r.ok = kind != 'spec' or bool(r.e < 0.001)
    v = dict(ra=[r.ra for r in rows], dec=[r.dec for r in rows])
    v.update(dict(z=[r.z for r in rows], z_err=[r.e for r in rows]) if kind == 'spec' else dict(ztrue=[r.z for r in rows]))
    fields = [(k, 'f8') for k in v]
    st.f['/nonexistent/spec.fit'] = c.rec(len(rows), fields, {k: c.np.array(x) for k, x in v.items()})
    c.patch(G, 'Matcher', Near)

    def galfile(cls, f, zredfile=None, nside=0, hpix=[], border=0.0, truth=False, **k):
        c.prove('true galaxies of the galaxy file are read', f == '/nonexistent/gals.fit' and bool(truth))
        hp = [int(x) for x in numpy.atleast_1d(hpix)]
        if hp:
            c.prove('galaxies are looked for at the resolution of the run', int(nside) == 4)
        u = [i for i, r in enumerate(rows) if not hp or int(r.ra // 2) in hp]
        return cls(st.f['/nonexistent/spec.fit'][u].copy())
    c.patch(G.GalaxyCatalog, 'from_galfile', classmethod(galfile))

    def want(ra, dec):
        m = sorted((r.off, j) for j, r in enumerate(rows) if abs(r.ra - float(ra)) < 1e-9 and abs(r.dec - r.off / 3600. - float(dec)) < 1e-9 and r.ok and r.off < (3.0 if kind == 'spec' else 1.0))
        c.cover('matched' if m else 'unmatched')
        return rows[m[0][1]].z if m else -1.0
    return want


def redshifts(c, want, cat, mem):
    for a, k in ((cat, 'cg_spec_z'), (mem, 'zspec')):
        if a is not None:
            c.prove('redshift of the nearest spectrum or true galaxy, or -1' if want else 'redshifts untouched',
                    c.all([c.eq(a[k][i], want(a['ra'][i], a['dec'][i]) if want else 7.0) for i in range(len(a))]))


def audit(c, cl, cat, mem, good, what, base, ranked):
    """cat/mem hold exactly the good clusters and their members, uniquely and consistently numbered"""
    n = len(cat)
    rows = []
    for k in range(n):
        h = [x for x in cl if abs(x.ra - float(cat['ra'][k])) < 1e-9]
        rows.append(h[0])
    c.prove(what + ': exactly the selected clusters', sorted(id(x) for x in rows) == sorted(id(x) for x in good))
    ids = [int(cat['mem_match_id'][k]) for k in range(n)]
    if base is not None:
        c.prove(what + ': unique identifiers', len(set(ids)) == n and all(i >= base for i in ids))
    c.prove(what + ': own values', c.all([c.all([c.eq(cat['lambda'][k], rows[k].lam), c.eq(cat['maskfrac'][k], rows[k].mf), c.eq(cat['lnlike'][k], rows[k].like), c.eq(cat['z_lambda'][k], rows[k].z)]) for k in range(n)]))
    if mem is not None:
        got = {}
        for k in range(len(mem)):
            got.setdefault(int(mem['mem_match_id'][k]), []).append(int(mem['id'][k]))
        c.prove(what + ': members of their cluster', got.keys() <= set(ids) and all(sorted(got.get(i, [])) == sorted(rows[k].mem) for k, i in enumerate(ids)))
    if ranked:
        for a in range(n):
            for b in range(n):
                if ids[a] < ids[b]:
                    c.prove(what + ': numbered by likelihood', c.lt(rows[b].like, rows[a].like))
    return rows


def run(c):
    """consolidation at the end of a run"""
    M = c.mod('redmapper_run')
    st, names, cl = inputs(c, None, c.pick, '/nonexistent/x_4_%05d_final.fit', True)
    io(c, st, M)
    c.patch(M.fitsio, 'read_header', lambda f, ext=1: dict(NAXIS2=len(st.get(f))))
    c.patch(M.os.path, 'isfile', lambda f: f in st.f)
    nside = c.params.get('nside', 4)
    r = object.__new__(M.RedmapperRun)
    r.config = Obj(d=Obj(nside=nside), max_maskfrac=0.25, percolation_minlambda=10.0, redmapper_filename=lambda t, **k: '/nonexistent/out_' + t + '.fit', logger=silent_logger())
    good = [x for x in cl if (x.p == x.q or nside == 0) and bool(x.mf < 0.25) and bool(x.lam / x.sc > 10.0)]
    if not good:
        # an empty survey has nothing to consolidate
        return
    kw = {}
    keep = False
    if c.params.get('old'):
        # files of an earlier run
        o, m = '/nonexistent/out_final.fit', '/nonexistent/out_final_members.fit'
        if c.flag('oldcat'):
            st.f[o] = st.f[names[0]][:1].copy()
        if c.flag('oldmem'):
            st.f[m] = st.f[names[0].replace('.fit', '_members.fit')][:1].copy()
        chk = bool(c.flag('check'))
        kw = dict(check=chk)
        keep = chk and o in st.f and (m in st.f or not c.members)
        before = {k: st.f[k] for k in (o, m) if k in st.f}
    out = r._consolidate(list(range(len(names))), names, 'final', members=c.members, **kw)
    c.prove('output file', out == '/nonexistent/out_final.fit')
    if keep:
        c.prove('a completed consolidation is kept', all(st.f[k] is before[k] for k in before))
        c.cover('kept')
        return
    c.prove('written', out in st.f and (not c.members or '/nonexistent/out_final_members.fit' in st.f))
    rows = audit(c, cl, st.f[out], st.f['/nonexistent/out_final_members.fit'] if c.members else None, good, 'run', None if not c.members else 1, c.members)
    c.cover('n%d' % len(good))


def task(c):
    """the consolidation task: richness and volume limits"""
    M = c.mod('pipeline.redmapperconsolidatetask')
    scaled = c.scaled
    path = c.params.get('path', '/nonexistent')
    st, names, cl = inputs(c, None, c.pick, path + '/x_4_%05d_final_catalog.fit', scaled)
    match = c.params.get('match')
    want = reference(c, st, names, match) if match else None
    io(c, st, M)
    c.patch(M.glob, 'glob', lambda *a, **k: list(names)[::-1])
    c.patch(M, 'read_members', lambda f: c.mod('galaxy').GalaxyCatalog(st.get(f.replace('.fit', '_members.fit')).copy()))
    c.patch(M.fitsio, 'FITS', st.fits)
    zlim = 0.5
    vl = c.params.get('vlim', [])
    c.patch(M, 'VolumeLimitMaskFixed', lambda cfg: Obj(calc_zmax=lambda ra, dec: zlim, get_areas=lambda: None))
    c.patch(M, 'VolumeLimitMask', lambda cfg, l, **k: Obj(calc_zmax=lambda ra, dec: c.np.array([zlim if l < 0.5 else 0.375 for _ in ra]), get_areas=lambda: None))
    t = object.__new__(M.RedmapperConsolidateTask)
    t.config = Obj(outpath=path, outbase='x', logger=silent_logger(), has_truth=match == 'truth', specfile='/nonexistent/spec.fit', galfile='/nonexistent/gals.fit', calib_spec_max_zerr=0.001, select_scaleval=scaled, max_maskfrac=0.25, percolation_minlambda=10.0, d=Obj(outbase='x'),
                   redmapper_filename=lambda b, withversion=True: '/nonexistent/o_' + b + '.fit')
    cuts = c.cuts
    t.lambda_cuts, t.vlim_lstars = cuts, vl
    base = [x for x in cl if x.p == x.q and bool(x.mf < 0.25) and bool(x.lam > 10.0)]
    t.run(do_plots=False, match_spec=bool(match))
    for l in cuts:
        for j, v in enumerate(vl or [None]):
            zm = zlim if v is None or v < 0.5 else 0.375
            good = [x for x in base if bool((x.lam / x.sc if scaled else x.lam) > l) and bool(x.z < zm)]
            f = '/nonexistent/o_lgt%02d%s_catalog.fit' % (l, '' if v is None else '_vl%02d' % int(v * 10))
            if not good:
                c.prove('nothing written', f not in st.f)
                c.cover('none')
                continue
            c.prove('written', f in st.f and f.replace('.fit', '_members.fit') in st.f)
            redshifts(c, want, st.f[f], st.f[f.replace('.fit', '_members.fit')])
            rows = audit(c, cl, st.f[f], st.f[f.replace('.fit', '_members.fit')], good, 'task', 1, True)
            # identifiers are the likelihood rank in the whole sample, so agree between selections
            for k, x in enumerate(rows):
                better = sum(1 for y in base if bool(y.like > x.like))
                c.prove('rank in the whole sample', int(st.f[f]['mem_match_id'][k]) == better + 1)
            c.cover('n%d' % len(good))


def runcat(c):
    """consolidation of measured catalogues: every cluster of its own pixel, with its members"""
    M = c.mod('pipeline.redmapperconsolidatetask')
    path, typ = c.params.get('path', '/nonexistent'), c.params.get('cattype', 'runcat')
    st, names, cl = inputs(c, None, c.pick, path + '/x_4_%05d_' + typ + '_catalog.fit', False)
    match = c.params.get('match')
    want = reference(c, st, names, match) if match else None
    # identifiers are those of the input catalogue
    off = 0
    for f in names:
        g = f.replace('.fit', '_members.fit')
        for nm in (f, g):
            for k in range(len(st.f[nm])):
                st.f[nm]['mem_match_id'][k] = int(st.f[nm]['mem_match_id'][k]) + off
        off += 1000
    io(c, st, M)
    c.patch(M.glob, 'glob', lambda *a, **k: list(names)[::-1])
    c.patch(M, 'read_members', lambda f: c.mod('galaxy').GalaxyCatalog(st.get(f.replace('.fit', '_members.fit')).copy()))
    c.patch(M.fitsio, 'FITS', st.fits)
    t = object.__new__(M.RuncatConsolidateTask)
    t.config = Obj(outpath=path, outbase='x', logger=silent_logger(), has_truth=match == 'truth', specfile='/nonexistent/spec.fit', galfile='/nonexistent/gals.fit', calib_spec_max_zerr=0.001, d=Obj(outbase='x'), redmapper_filename=lambda b, withversion=True: '/nonexistent/o_' + b + '.fit')
    t.run(do_plots=False, match_spec=bool(match), consolidate_members=c.members, **({} if typ == 'runcat' else dict(cattype=typ)))
    good = [x for x in cl if x.p == x.q]
    f = '/nonexistent/o_%s_catalog.fit' % typ
    g = f.replace('.fit', '_members.fit')
    c.prove('written', f in st.f and (g in st.f) == bool(c.members))
    redshifts(c, want, st.f[f], st.f[g] if c.members else None)
    rows = audit(c, cl, st.f[f], st.f[g] if c.members else None, good, 'runcat', 1, False)
    c.cover('end')


PROPS = {
    'P20': dict(level='model_checking',
                functions=['redmapper_run.RedmapperRun._consolidate', 'pipeline.redmapperconsolidatetask.RedmapperConsolidateTask.run', 'pipeline.redmapperconsolidatetask.RuncatConsolidateTask.run'],
                bounds='<= 3 pixels, <= 4 clusters with <= 2 members each, <= 2 richness cuts x 2 volume limits, likelihoods distinct',
                assumptions=['catalogue files are held in memory by a stand-in', 'pixelisation, sky matching and volume limits are stand-ins', 'at least one cluster survives (the run-level consolidation of nothing is not covered)'],
                instances=[('run', dict(pick=[[0, 1], [1]], members=True, covers=['n1', 'n2'])), ('run', dict(pick=[[0, 0], [1, 0]], members=True)), ('run', dict(pick=[[0], [1]], members=False)),
                           ('run', dict(pick=[[1], [1], [2, 0]], members=True)),
                           ('task', dict(pick=[[0, 1], [1]], scaled=True, cuts=[20], covers=['n1', 'n2', 'none'])), ('task', dict(pick=[[0], [1]], scaled=False, cuts=[5, 20], vlim=[0.2, 0.5], zs=True)),
                           ('task', dict(pick=[[0, 0], [1]], scaled=False, cuts=[20])), ('task', dict(pick=[[0], [1, 1]], scaled=False, cuts=[20])), ('task', dict(pick=[[0, 0], [1, 1]], scaled=True, cuts=[20], zs=True), 'thorough'),
                           ('run', dict(pick=[[0], [1]], members=True, old=True, covers=['kept', 'n1'])), ('run', dict(pick=[[0], [1]], members=False, old=True, covers=['kept', 'n1'])), ('run', dict(pick=[[0, 1, 2]], members=True, nside=0, covers=['n3'])),
                           ('task', dict(pick=[[0], [1]], scaled=False, cuts=[20], match='spec', path='/nonexistent/a_8_00077_b', covers=['matched', 'unmatched'])), ('task', dict(pick=[[0], [1]], scaled=False, cuts=[20], match='truth', covers=['matched', 'unmatched'])),
                           ('runcat', dict(pick=[[0], [1]], members=True, match='spec', path='/nonexistent/a_8_00077_b', covers=['matched', 'unmatched'])), ('runcat', dict(pick=[[0], [1]], members=True, match='truth', cattype='zscan', covers=['matched', 'unmatched'])),
                           ('runcat', dict(pick=[[0], [1]], members=False, match='spec')), ('runcat', dict(pick=[[0], [1]], members=False, match='truth')),
                           ('runcat', dict(pick=[[0, 1], [1, 1]], members=True, covers=['end'])), ('runcat', dict(pick=[[0], [0, 1]], members=False))]),
}
