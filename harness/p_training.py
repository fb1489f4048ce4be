"""Training samples: which objects enter each step of the calibration, and with whose values."""
import math
import numpy
from .common import Obj, Cosmo, refuse, silent_logger

GAL = [('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f8'), ('refmag_err', 'f8'), ('zred', 'f8'), ('zred_e', 'f8'), ('chisq', 'f8'), ('ebv', 'f8'), ('mag', 'f8', (3,)), ('mag_err', 'f8', (3,))]


class Stop(Exception):
    pass


def gals(c, n, **cols):
    v = dict(ra=[10.0 + i for i in range(n)], dec=[1.0 + i for i in range(n)], refmag=[17.0 + i for i in range(n)], refmag_err=[0.125 * (i + 1) for i in range(n)], zred=[0.25 + 0.0625 * i for i in range(n)],
             zred_e=[0.03125 * (i + 1) for i in range(n)], chisq=[3.0 + i for i in range(n)], ebv=[0.5 + i for i in range(n)], mag=[[20.0 + i, 21.0 + 2 * i, 22.0 + 4 * i] for i in range(n)],
             mag_err=[[0.25 + i, 0.5 + i, 0.75 + i] for i in range(n)])
    v.update(cols)
    return v, c.mod('galaxy').GalaxyCatalog(c.rec(n, GAL, v))


def inputs(c, M, cat, ncat, spec, match, store):
    """the galaxies, the spectra and the matching of one to the other: spectrum s belongs to galaxy match[s] (or to none)"""
    G, C = c.mod('galaxy').GalaxyCatalog, c.mod('catalog')

    def from_galfile(f, **k):
        store['galargs'] = (f, k)
        return cat

    def many(self, ra, dec, radius, maxmatch=0):
        c.prove('match', float(radius) == 3. / 3600. and maxmatch == 1)
        ids = [int(round(float(x))) - 10 for x in self.ra]
        i0, i1 = [], []
        for q in range(len(ra)):
            s = int(round(float(ra[q]))) - 50
            c.prove('match', abs(float(dec[q]) - 70.0 - s) < 1e-6)
            if match[s] is not None and match[s] in ids:
                i0.append(q)
                i1.append(ids.index(match[s]))
        return numpy.array(i0, dtype='i8'), numpy.array(i1, dtype='i8'), numpy.zeros(len(i0))

    def read(f, **k):
        store['spec'] = f
        return C.Catalog(spec)
    c.patch(G, 'from_galfile', from_galfile)
    c.patch(G, 'match_many', many)
    c.patch(C.Catalog, 'from_fits_file', read)
    c.patch(C.DataObject, 'to_fits_file', lambda self, f, indices=None, **k: store.__setitem__(f, self._ndarray if indices is None else self._ndarray[indices]))


def matching(c, ns, ng):
    """an arbitrary matching: each spectrum has one galaxy or none"""
    out = []
    for s in range(ns):
        k = c.index('m%d' % s, 0, ng)
        out.append(None if k == ng else k)
    return out


def seeds(c):
    """seeds of the spectroscopic first pass"""
    M = c.mod('calibration.selectspecseeds')
    ns, ng = c.ns, 2
    zr = c.reals('zred', ng, -1, 1) if c.has else None
    v, cat = gals(c, ng, **(dict(zred=zr) if c.has else dict(refmag=c.reals('rm', ng, -1, 1))))
    z, ze = c.reals('z', ns, 0, 1), c.reals('ze', ns, 0, 0.01)
    spec = c.rec(ns, [('ra', 'f8'), ('dec', 'f8'), ('z', 'f8'), ('z_err', 'f8')], dict(ra=[50.0 + i for i in range(ns)], dec=[70.0 + i for i in range(ns)], z=z, z_err=ze))
    match = matching(c, ns, ng)
    st = {}
    inputs(c, M, cat, ng, spec, match, st)
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: refuse(TypeError('a path is needed')) if f is None else bool(c.has))))
    s = M.SelectSpecSeeds.__new__(M.SelectSpecSeeds)
    s.config = Obj(zredfile='Z' if c.has or c.params.get('named') else None, galfile='G', d=Obj(nside=8, hpix=[3]), border=0.5, specfile_train='T', specfile='S', zrange_cushioned=[0.25, 0.75], calib_spec_max_zerr=0.0078125, nmag=3, seedfile='OUT',
                   logger=silent_logger())
    s.run(usetrain=c.train)
    c.prove('inputs', st['spec'] == ('T' if c.train else 'S') and st['galargs'][0] == 'G' and st['galargs'][1].get('zredfile') == ('Z' if c.has else None) and st['galargs'][1].get('nside') == 8 and list(st['galargs'][1].get('hpix')) == [3] and st['galargs'][1].get('border') == 0.5)
    out = st['OUT']
    want = []
    for q in range(ns):
        if not (bool(z[q] >= 0.25) and bool(z[q] <= 0.75) and bool(ze[q] < 0.0078125)) or match[q] is None:
            continue
        g = match[q]
        if bool((v['zred'] if c.has else v['refmag'])[g] > 0.0):
            want.append((q, g))
    c.prove('each good spectrum with a galaxy once', len(out) == len(want))
    for k, (q, g) in enumerate(want):
        o = out[k]
        c.prove('redshift of its own spectrum', c.eq(o['zspec'], z[q]))
        c.prove('galaxy values', c.all([c.eq(o[f], v[f][g]) for f in ('ra', 'dec', 'refmag', 'refmag_err', 'ebv')] + [c.eq(o[f][b], v[f][g][b]) for f in ('mag', 'mag_err') for b in range(3)]))
        c.prove('zred', c.all([c.eq(o[f], v[d][g] if c.has else -1.0) for f, d in (('zred', 'zred'), ('zred_e', 'zred_e'), ('zred_chisq', 'chisq'))]))
    c.cover('some' if want else 'none')


MEM = [('mem_match_id', 'i4'), ('p', 'f8'), ('pcol', 'f8'), ('theta_i', 'f8'), ('theta_r', 'f8'), ('r', 'f8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f8'), ('refmag_err', 'f8'), ('ebv', 'f8'), ('mag', 'f8', (3,)), ('mag_err', 'f8', (3,))]
CAT = [('mem_match_id', 'i4'), ('lambda', 'f8'), ('scaleval', 'f8'), ('z_lambda', 'f8'), ('z_lambda_e', 'f8'), ('z_init', 'f8'), ('cg_spec_z', 'f8')]


def members(c):
    """members of good clusters, for the red sequence"""
    M = c.mod('calibration.prepmembers')
    U, C, G = c.mod('utilities'), c.mod('catalog'), c.mod('galaxy').GalaxyCatalog
    nc, nm = 2, c.nm
    ids = [[7, 3], [4, 9]][c.index('ids', 0, 1)]
    own = [c.index('own%d' % i, 0, nc) for i in range(nm)]
    sel = c.sel                       # what is arbitrary
    lam = c.reals('lam', nc, 0, 40) if sel == 'clusters' else [20.0, 30.0]
    sv = [[0.0, 1.0, 2.0, -1.0][c.index('sv%d' % i, 0, 3)] for i in range(nc)] if sel == 'clusters' else [1.0, 2.0]
    zl = c.reals('zl', nc, 0, 1) if sel == 'redshift' else [0.5, 0.25]
    zle = c.reals('zle', nc, 0, 0.5) if sel == 'redshift' else [0.125, 0.125]
    zi, zc = [0.5, 0.25], [0.46875, 0.28125]
    p = c.reals('p', nm, 0, 1) if sel == 'members' else [0.75 - 0.0625 * i for i in range(nm)]
    pc = c.reals('pcol', nm, 0, 1) if sel == 'members' else [0.5 + 0.0625 * i for i in range(nm)]
    th, tr = [1.0, 0.5, 0.75][:nm], [0.75, 1.0, 0.5][:nm]
    r = c.reals('r', nm, 0, 1) if sel == 'members' else [0.0, 0.5, 0.00005][:nm]
    cat = c.rec(nc, CAT, dict(mem_match_id=ids, scaleval=sv, z_lambda=zl, z_lambda_e=zle, z_init=zi, cg_spec_z=zc, **{'lambda': lam}))
    mv = dict(mem_match_id=[(ids + [99])[o] for o in own], p=p, pcol=pc, theta_i=th, theta_r=tr, r=r, ra=[10.0 + i for i in range(nm)], dec=[1.0 + i for i in range(nm)], refmag=[17.0 + i for i in range(nm)],
              refmag_err=[0.125 + i for i in range(nm)], ebv=[0.5 + i for i in range(nm)], mag=[[20.0 + i, 21.0 + i, 22.0 + i] for i in range(nm)], mag_err=[[0.25 + i, 0.5 + i, 0.75 + i] for i in range(nm)])
    st = {}

    def read(cls, f, **k):
        c.prove('files', f in ('run_cat.fit', 'run_cat_members.fit'))
        return C.Catalog(cat) if f == 'run_cat.fit' else G(c.rec(nm, MEM, mv))
    c.patch(C.DataObject, 'from_fits_file', classmethod(read))
    c.patch(C.DataObject, 'to_fits_file', lambda self, f, **k: st.__setitem__(f, self._ndarray))
    import os
    isf = os.path.isfile
    c.patch(os.path, 'isfile', lambda f: True if f == 'run_cat_members.fit' else isf(f))
    rn = [0.5, -0.25, 0.125]
    smooth = c.params.get('smooth', 0.0)
    if smooth:
        c.patch(M, 'np', RandNP(M.np, rn))
    s = M.PrepMembers.__new__(M.PrepMembers)
    s.config = Obj(catfile='run_cat.fit', calib_minlambda=5.0, calib_zlambda_clean_nsig=2.0, calib_pcut=0.25, nmag=3, calib_smooth=smooth, zmemfile='OUT', logger=silent_logger())
    if c.params.get('mode') is None:
        c.prove('other modes refused', c.raises(lambda: s.run('other'), RuntimeError) is not None and not st)
        return
    zz = zi if c.mode == 'z_init' else zc
    good = []
    for k in range(nc):
        d = zz[k] - zl[k]
        d = d if bool(d >= 0) else -d
        good.append(sv[k] > 0 and bool(lam[k] > 5.0 * sv[k]) and bool(d < 2.0 * zle[k]))
    keep = [bool(p[i] * th[i] * tr[i] > 0.25) or bool(pc[i] > 0.25) for i in range(nm)]
    if not any(good) or not any(keep):
        return                         # nothing to train on: the step stops with an error
    s.run(c.mode)
    want = [i for i in range(nm) if own[i] < nc and good[own[i]] and keep[i]]
    out = st['OUT']
    c.prove('members of good clusters, once', len(out) == len(want))
    pos = [int(round(float(out[k]['ra']))) - 10 for k in range(len(out))]
    c.prove('members of good clusters, once', sorted(pos) == want)
    for k, i in enumerate(pos):
        o = out[k]
        c.prove('redshift of its own cluster', c.eq(o['z'], zz[own[i]] + smooth * rn[k]) & c.eq(o['z_lambda'], zl[own[i]]))
        c.prove('own values', c.all([c.eq(o[f], mv[f][i]) for f in ('p', 'pcol', 'dec', 'refmag', 'refmag_err', 'ebv')] + [c.eq(o[f][b], mv[f][i][b]) for f in ('mag', 'mag_err') for b in range(3)]))
        c.prove('central', int(o['central']) == (1 if bool(r[i] < 0.0001) else 0))
    c.cover('some' if want else 'none')


class RandNP(object):
    def __init__(self, np_, values):
        self._np = np_
        self.random = Obj(normal=lambda size=None: numpy.array(values[:int(size)]))

    def __getattr__(self, k):
        return getattr(self._np, k)


class Line(object):
    """stand-in for the spline: some function of its values and of redshift"""
    def __init__(self, nodes, v):
        self.n, self.v = nodes, v

    def __call__(self, z):
        return self.v[0] + (self.v[-1] - self.v[0]) * (z - self.n[0]) / (self.n[-1] - self.n[0])


def specred(c):
    """red galaxies with spectra"""
    M = c.mod('calibration.selectspecred')
    n, ng = 2, 3
    modes = c.modes
    zs = [0.3125, 0.6875]
    col = [[0.75, 0.5], [1.25, 0.75]]
    for i in c.free:                  # galaxies with an arbitrary colour
        for j in set(modes):
            col[i][j] = c.real('col%d%d' % (i, j), 0, 2)
    z = [zs[0], zs[1]]
    if c.params.get('zfree'):
        z[0] = [0.125, 0.25, 0.3125, 0.53125, 0.71875, 0.75, 0.875][c.index('z', 0, 6)]
    ze = [c.real('ze', 0, 0.01) if c.params.get('efree') else 0.001, 0.001]
    rm = [c.real('rm', 16, 24) if c.params.get('mfree') else 17.0, 18.0, 19.0]
    me = [[0.25, 0.5, 0.125], [0.125, 0.25, 0.0625], [0.5, 0.5, 0.5]]
    mag = [[20.0, 20.0 - col[i][0], 20.0 - col[i][0] - col[i][1]] for i in range(n)] + [[20.0, 19.0, 18.0]]
    v, cat = gals(c, ng, refmag=rm, mag=mag, mag_err=me)
    st = {}
    spec = c.rec(n, [('ra', 'f8'), ('dec', 'f8'), ('z', 'f8'), ('z_err', 'f8')], dict(ra=[50.0, 51.0], dec=[70.0, 71.0], z=z, z_err=ze))
    inputs(c, M, cat, ng, spec, [1, 0] if c.params.get('cross') else [0, 1], st)
    if c.params.get('cross'):          # spectrum 0 belongs to galaxy 1
        z = [z[1], z[0]]
        ze = [ze[1], ze[0]]
    used = [i for i in range(n) if 0.25 < z[i] < 0.75 and bool(ze[i] < 0.0078125) and bool(rm[i] < 22.0)]
    if not used:
        return
    calls = []

    def who(zz):
        """galaxies are told apart by redshift"""
        out = []
        for k in range(len(zz)):
            out.append([i for i in used if abs(z[i] - float(zz[k])) < 1e-5])
        return [o[0] if len(o) == 1 else -1 for o in out]
    init = dict((j, [0.5 + 0.25 * j, 1.0 + 0.25 * j]) for j in (0, 1))
    bands = ['g', 'r', 'i']

    def colour(b0, b1, zz):
        j = bands.index(b0)
        c.prove('bands', b1 == bands[j + 1])
        return init[j][0] + (init[j][1] - init[j][0]) * zz

    class Ec(object):
        def __init__(self, d, e):
            self.d, self.e = d, e

        def fit(self, *a, **k):
            j = modes[len([x for x in calls if x[0] == 'rs'])]
            for q in range(len(self.d)):
                i = [i for i in used if bool(abs(self.e[q] - math.sqrt(me[i][j]**2 + me[i][j + 1]**2)) < 1e-6)]
                c.prove('mixture of colour offsets', len(i) == 1 and c.eq(self.d[q], col[i[0]][j] - colour(bands[j], bands[j + 1], z[i[0]])))
            calls.append(('ec', j))
            return [0.25, 0.75], [-0.5, 0.0625], [0.25, 0.125]

    class Med(object):
        def __init__(self, nodes, zz, vals):
            self.n, self.z, self.v = nodes, who(zz), vals

        def fit(self, p0):
            j = modes[len([x for x in calls if x[0] == 'rs'])]
            second = calls[-1][0] == 'med1'
            # centre and width now in use
            med = (lambda q: init[j][0] + 0.0625 + (init[j][1] - init[j][0]) * q) if not second else (lambda q: 0.75 + 0.25 * j + 0.25 * q)
            inside = [i for i in used if bool(col[i][j] > med(z[i]) - 0.25) and bool(col[i][j] < med(z[i]) + 0.25)]
            c.prove('sample of the median', sorted(self.z) == inside)
            for q, i in enumerate(self.z):
                d = col[i][j] - (med(z[i]) if second else 0.0)
                if second:
                    d = d if bool(d >= 0) else -d
                c.prove('values of the median', c.eq(self.v[q], d))
            calls.append(('med2' if second else 'med1', j))
            lo, hi = (0.125, 0.25) if second else (0.75 + 0.25 * j, 1.0 + 0.25 * j)
            return numpy.array([lo + (hi - lo) * float(x) for x in self.n])

    class Rs(object):
        def __init__(self, nodes, zz, cc, mm, trunc=None, use_scatter_prior=None):
            j = modes[len([x for x in calls if x[0] == 'rs'])]
            w = who(zz)
            width = lambda q: 1.4826 * (0.125 + 0.125 * q)
            med = lambda q: 0.75 + 0.25 * j + 0.25 * q
            inside = []
            for i in used:
                d = col[i][j] - med(z[i])
                d = d if bool(d >= 0) else -d
                if bool(d < 1.5 * width(z[i])):
                    inside.append(i)
            c.prove('sample of the mean', sorted(w) == inside)
            for q, i in enumerate(w):
                c.prove('values of the mean', c.eq(cc[q], col[i][j]) & c.eq(mm[q][0], me[i][j]) & c.eq(mm[q][1], me[i][j + 1]))
            calls.append(('rs', j))
            self.j, self.n = j, nodes

        def fit(self, m, s, sc, fit_mean=False, fit_slope=False, fit_scatter=False):
            mm = numpy.array([0.75 + 0.5 * self.j + 0.25 * float(x) for x in self.n])
            ss = numpy.array([0.125 + 0.0625 * self.j + 0.125 * float(x) for x in self.n])
            return tuple(([mm] if fit_mean else []) + ([ss] if fit_scatter else []))
    for name, o in (('EcgmmFitter', Ec), ('MedZFitter', Med), ('RedSequenceFitter', Rs), ('CubicSpline', Line)):
        c.patch(M, name, o)

    def out(self, f, indices=None, **k):
        st[f] = self._ndarray if indices is None else self._ndarray[indices]
        if f == 'OUT':
            # the file that marks the selection as complete
            c.prove('complete when the galaxies are there', 'MODEL' in st)
        if 'MODEL' in st and 'OUT' in st:
            raise Stop()
    c.patch(c.mod('catalog').DataObject, 'to_fits_file', out)
    s = M.SelectSpecRedGalaxies.__new__(M.SelectSpecRedGalaxies)
    s.redGalInitialColors = colour
    zb = c.params.get('zbounds', [0.5])
    s.config = Obj(galfile='G', d=Obj(nside=8, hpix=[3]), border=0.5, specfile_train='T', zrange_cushioned=[0.25, 0.75], calib_spec_max_zerr=0.0078125, nmag=3, redgalfile='OUT', redgalmodelfile='MODEL', limmag_ref=22.0,
                   calib_pivotmag_nodesize=0.25, calib_colormem_colormodes=numpy.array(modes), calib_colormem_zbounds=numpy.array(zb), calib_redspec_nsig=2.0, bands=bands, logger=silent_logger())
    c.prove('inputs', c.raises(s.run, Stop) is not None and st['spec'] == 'T' and st['galargs'][0] == 'G' and st['galargs'][1].get('nside') == 8 and st['galargs'][1].get('border') == 0.5)
    got = [int(round(float(x['ra']))) - 10 for x in st['OUT']]
    want = []
    for i in used:
        k = sum(1 for b in zb if z[i] > b)
        if any(z[i] == b for b in zb):
            continue                   # on a boundary: either
        j = modes[k]
        mn, sc = 0.75 + 0.5 * j + 0.25 * z[i], 0.125 + 0.0625 * j + 0.125 * z[i]
        d = col[i][j] - mn
        d = d if bool(d >= 0) else -d
        if bool(d < 2.0 * math.sqrt(me[i][j]**2 + me[i][j + 1]**2 + sc**2)):
            want.append(i)
    c.prove('red galaxies of the colour of their redshift', sorted(got) == want)
    for k, i in enumerate(got):
        c.prove('redshift of its own spectrum', c.eq(st['OUT'][k]['z'], z[i]) & c.eq(st['OUT'][k]['refmag'], rm[i]))
    m = st['MODEL']
    if len(numpy.shape(m['nodes'])) == 2:
        m = m[0]
    last = len(m['nodes']) - 1
    for j in set(modes):
        c.prove('model', c.all([c.eq(m[f][x][j], lo + (hi - lo) * m['nodes'][x]) for x in (0, last) for f, lo, hi in (('meancol', 0.75 + 0.5 * j, 1.0 + 0.5 * j), ('meancol_scatter', 0.125 + 0.0625 * j, 0.25 + 0.0625 * j), ('medcol', 0.75 + 0.25 * j, 1.0 + 0.25 * j),
                                                                                                                          ('medcol_width', 1.4826 * 0.125, 1.4826 * 0.25))]))
    c.cover('end')


CL = [('z', 'f8'), ('z_spec_init', 'f8'), ('z_lambda', 'f8'), ('z_lambda_e', 'f8'), ('lambda', 'f8'), ('scaleval', 'f8'), ('maskfrac', 'f8'), ('zred', 'f8'), ('w', 'f8'), ('refmag', 'f8'), ('r_lambda', 'f8'), ('p_cen', 'f8', (2,)), ('p_sat', 'f8', (2,)),
      ('mem_match_id', 'i4'), ('redshift', 'f8'), ('ra', 'f8'), ('dec', 'f8')]


def catalogue(c, n, **cols):
    v = dict(z=[-1.0] * n, z_spec_init=[0.375, 0.5, 0.625][:n], z_lambda=[0.40625, 0.46875, 0.625][:n], z_lambda_e=[0.03125] * n, scaleval=[1.0, 2.0, 1.0][:n], maskfrac=[0.0] * n, zred=[0.4375, 0.5625, 0.6875][:n], w=[1.5, 2.5, 3.5][:n],
             refmag=[17.0, 17.5, 18.0][:n], r_lambda=[0.75, 1.0, 1.25][:n], p_cen=[[0.5, 0.25], [0.75, 0.125], [0.625, 0.25]][:n], p_sat=[[0.25, 0.5], [0.125, 0.75], [0.1875, 0.5]][:n], mem_match_id=list(range(1, n + 1)))
    v['lambda'] = [20.0, 50.0, 30.0][:n]
    v.update(cols)
    return v


def ab(x):
    return x if bool(x >= 0) else -x


def zlamrun(c):
    """clusters of the cluster redshift correction"""
    M = c.mod('calibration.zlambdacal')
    C = c.mod('cluster').ClusterCatalog
    n, niter = c.n, c.niter
    sel = c.sel
    cols = {}
    if sel == 'clusters':
        cols = dict(scaleval=[[0.0, 1.0, -1.0][c.index('sv%d' % i, 0, 2)] for i in range(n)], maskfrac=c.reals('mf', n, 0, 1))
        cols['lambda'] = c.reals('lam', n, 0, 40)
    elif sel == 'outliers':
        cols = dict(z_lambda=c.reals('zl', n, 0, 1))
    v = catalogue(c, n, **cols)
    good = [i for i in range(n) if v['scaleval'][i] > 0 and bool(v['lambda'][i] > 10.0 * v['scaleval'][i]) and bool(v['maskfrac'][i] < 0.25)]
    zt = v['z_spec_init']
    ap = []

    class Corr(object):
        """each application moves the redshift by a known amount"""
        def __init__(self, pars=None, zrange=None, zbinsize=None, zlambda_pivot=None):
            c.prove('correction', [float(x) for x in zrange] == [0.25 - 0.02, 0.75 + 0.07] and zbinsize == 0.002 and zlambda_pivot == 25.0 and int(pars.niter_true) == niter)
            self.k = len(ap) + 1
            c.prove('uses the iterations fitted so far', c.all([c.eq(pars.offset_true[0, q], float(4 * (q + 1) * 2 + 1) * 0.0009765625) for q in range(self.k)]))
            ap.append(self.k)

        def apply_correction(self, lam, z, ze, **k):
            return z + 0.0078125 * self.k, ze * (1.0 + 0.125 * self.k)
    runs = []

    class Fit(object):
        def __init__(self, nodes, snodes, z, dz, ze, ll):
            self.args = ([float(x) for x in nodes], [float(x) for x in snodes])
            runs.append([])
            ft, it, oi = (0, 0, len(runs) - 1) if len(runs) <= 2 else (1, (len(runs) - 3) // 2, (len(runs) - 3) % 2)
            self.key = (ft, it, oi)
            k = len(ap)                              # corrections applied so far
            use = []
            for i in good:
                zl = v['z_lambda'][i] + 0.0078125 * k
                e = v['z_lambda_e'][i] * (1.0 + 0.125 * k)
                sc = 0.0 if oi == 0 else 0.03125
                if bool(ab(zt[i] - zl) < 3.0 * math.sqrt(e * e + sc * sc)):
                    use.append((i, zl, e))
            c.prove('clusters without outliers', len(dz) == len(use))
            for q, (i, zl, e) in enumerate(use):
                c.prove('each with its own values', c.eq(dz[q], zt[i] - zl) & c.eq(ze[q], e) & c.eq(z[q], zt[i] if ft == 0 else zl) & c.eq(ll[q], c.np.log((v['lambda'][i] / v['scaleval'][i]) / 25.0)))
            c.cover('all' if len(use) == n else 'fewer')

        def fit(self, d, s, sc, fit_delta=False, fit_slope=False, fit_scatter=False, **k):
            which = [x for x, y in (('d', fit_delta), ('s', fit_slope), ('c', fit_scatter)) if y]
            runs[-1].append(which)
            b = (1 + self.key[1]) * 4 * (1 + self.key[0]) + self.key[2]
            out = dict(d=numpy.zeros(len(d)) + 0.0009765625 * b, s=numpy.zeros(len(s)) + 0.001953125 * b, c=numpy.zeros(len(sc)) + 0.03125)
            return tuple(out[x] for x in which)

    class Med(object):
        def __init__(self, nodes, z, val):
            c.prove('zred against cluster redshift', len(z) == len(good) and c.all([c.eq(z[q], v['z_lambda'][i]) & c.eq(val[q], v['zred'][i]) for q, i in enumerate(good)]))
            self.n = nodes

        def fit(self, p0):
            return numpy.array([float(x) + 0.125 for x in p0])
    st = {}
    for name, o in (('ZlambdaCorrectionPar', Corr), ('ZLambdaFitter', Fit), ('MedZFitter', Med)):
        c.patch(M, name, o)
    import copy as cp

    def read(f, **k):
        c.prove('file', f == 'CAT')
        return C(c.rec(n, CL, v), cosmo=Cosmo())
    c.patch(C, 'from_catfile', read)
    c.patch(M, 'fitsio', Obj(FITSHDR=dict))
    c.patch(c.mod('catalog').DataObject, 'to_fits_file', lambda self, f, header=None, **k: st.update(out=self, f=f, hdr=header))
    r = M.ZLambdaCalibrator(Obj(catfile='CAT', cosmo=Cosmo(), calib_zlambda_minlambda=10.0, max_maskfrac=0.25, zrange=numpy.array([0.25, 0.75]), calib_zlambda_nodesize=c.params.get('node', 0.5), calib_zlambda_slope_nodesize=0.5, calib_zlambda_correct_niter=niter, zlambda_pivot=25.0,
                                zlambda_binsize=0.002, zlambdafile='OUT', logger=silent_logger()), corrslope=c.slope)
    if not good or (c.params.get('node') and not (0 in good and len(good) > 1)):
        c.prove('refused when a redshift range has no cluster', c.raises(r.run, RuntimeError) is not None and not st)
        c.cover('refused')
        return
    r.run()
    if c.params.get('node'):
        c.cover('enough')
        return
    c.prove('runs', len(runs) == 2 + 2 * niter and len(ap) == niter)
    seq = [['d'], ['s'], ['c'], ['d', 's', 'c']] if c.slope else [['d'], ['c'], ['d', 'c']]
    c.prove('fits in order', all(x == seq for x in runs))
    o = st['out']
    u = 0.0009765625
    b0 = 4 + 1
    s = 2 * u if c.slope else 0.0
    c.prove('recorded', st['f'] == 'OUT' and c.all([c.eq(o.offset[0], u * b0), c.eq(o.slope[0], s * b0), c.eq(o.scatter[0], 0.03125), c.eq(o.zred_uncorr[0], 0.375), c.eq(o.zred_uncorr[1], 0.875), c.eq(o.offset_z[1], 0.75), c.eq(o.slope_z[0], 0.25)]))
    for q in range(niter):
        b = (1 + q) * 8 + 1
        c.prove('recorded', c.all([c.eq(o.offset_true[0, q], u * b), c.eq(o.slope_true[1, q], s * b), c.eq(o.scatter_true[1, q], 0.03125)]))
    h = st['hdr']
    c.prove('header', c.all([c.eq(h['ZRANGE0'], 0.23), c.eq(h['ZRANGE1'], 0.82), c.eq(h['ZBINSIZE'], 0.002), c.eq(h['ZLAMPIV'], 25.0)]))
    c.cover('end')


def wcenrun(c):
    """clusters of the centring calibration"""
    M = c.mod('calibration.centeringcal')
    C = c.mod('cluster').ClusterCatalog
    n = 3
    cut = c.cut
    v = catalogue(c, n)
    if cut:                            # an arbitrary first cluster
        q = c.which
        v['lambda'][0] = c.real('lam', 0, 200) if q == 'lambda' else 20.0
        v['scaleval'][0] = [0.5, 2.0][c.index('sv', 0, 1)] if q == 'lambda' else 1.0
        v['w'][0] = c.real('w', -1, 1) if q == 'w' else 1.5
        v['z_spec_init'][0] = c.real('z', 0, 1) if q == 'z' else 0.375
        v['maskfrac'][0] = c.real('mf', 0, 1) if q == 'mask' else 0.0
    zt = v['z_spec_init']

    def selected(v):
        return [i for i in range(n) if bool(v['lambda'][i] > 10.0 * v['scaleval'][i]) and bool(v['lambda'][i] < 100.0 * v['scaleval'][i]) and bool(v['w'][i] > 0.0) and bool(v['z_spec_init'][i] > 0.25) and bool(v['z_spec_init'][i] < 0.75) and bool(v['maskfrac'][i] < 0.25)]
    rv = [dict(catalogue(c, n), w=[1.25, 1.75, -1.0]), dict(catalogue(c, n), w=[2.25, 2.75, 3.25], maskfrac=[0.0, 0.5, 0.0])]
    files = dict(CAT=v, RAND=rv[0], SAT=rv[1])
    c.patch(C, 'from_catfile', lambda f, **k: C(c.rec(n, CL, files[f]), cosmo=Cosmo()))
    zs = Obj(ncol=2, mstar=lambda z: 16.0 + 4.0 * z, calculate_chisq=lambda g, z: c.np.array([2.0 + g.refmag[i] - 17.0 + z[i] for i in range(len(z))]))
    c.patch(M, 'RedSequenceColorPar', lambda f, **k: zs if f == 'PAR' else None)
    c.patch(M, 'Background', lambda f: Obj(sigma_g_lookup=lambda z, x, m: 0.5 + z + 0.25 * x + 0.125 * m) if f == 'BKG' else None)
    c.patch(M, 'chisq_pdf', lambda x, k: x * 0.0625 * k)
    st, rec = {}, []
    c.patch(M, 'fitsio', Obj(write=lambda f, a, **k: st.update(f=f, a=a)))

    def lsq(fun, p0, loss=None, args=()):
        x, y = args
        use = selected(v)
        c.prove('start from a line through magnitude and richness', len(x) == len(use) and c.all([c.eq(x[q], c.np.log(v['lambda'][i] / 30.0)) & c.eq(y[q], v['refmag'][i] - 16.0 - 4.0 * zt[i]) for q, i in enumerate(use)]))
        r = fun([2.0, 5.0], x, y)
        c.prove('start from a line through magnitude and richness', c.all([c.eq(r[q], 5.0 + 2.0 * x[q] - y[q]) for q in range(len(use))]))
        return Obj(x=numpy.array([-0.25, -1.5]))
    c.patch(M, 'scipy', Obj(optimize=Obj(least_squares=lsq)))
    s2 = math.sqrt(2. * math.pi)
    ls = lambda d, i: 1. / math.sqrt((d['lambda'][i] / d['scaleval'][i]) / 30.0)
    mean = lambda x: sum(x) / float(len(x))
    std = lambda x: math.sqrt(mean([(a - mean(x))**2 for a in x]))

    class Fg(object):
        def __init__(self, w, l):
            self.k = len(rec)
            d = rv[self.k] if c.rand == 2 or c.rand == 0 else rv[1] if c.rand == 1 else None
            use = selected(d)
            c.prove('random points', len(w) == len(use) and c.all([c.eq(w[q], d['w'][i]) & c.eq(l[q], ls(d, i)) for q, i in enumerate(use)]))
            rec.append('fg')

        def fit(self, p0):
            return [0.25 + self.k, 0.5 + self.k]
    p1 = (-1.25, -0.25, 0.5, 0.125)

    class Cf(object):
        def __init__(self, pc, ps, ms, l, rm, cw, ph, bc):
            use = selected(v)
            c.prove('clusters of the centring fit', len(pc) == len(use))
            for q, i in enumerate(use):
                c.prove('each with its own values', c.eq(pc[q], v['p_cen'][i][0]) & c.eq(ps[q], v['p_sat'][i][0]) & c.eq(ms[q], 16.0 + 4.0 * zt[i]) & c.eq(rm[q], v['refmag'][i]))
            if cut:
                c.cover('in' if 0 in use else 'out')
                raise Stop()
            for q, i in enumerate(use):
                L = v['lambda'][i]
                x = 2.0 + v['refmag'][i] - 17.0 + zt[i]
                mm = 16.0 + 4.0 * zt[i] + p1[0] + p1[1] * math.log(L / 30.0)
                sg = p1[2] + p1[3] * math.log(L / 30.0)
                mpc = math.radians(1.) * Cosmo().Da(0, zt[i])
                c.prove('terms of the centring fit', c.all([c.eq(l[q], math.log(L / v['scaleval'][i] / 30.0)), c.eq(cw[q], x * 0.125), c.eq(ph[q], math.exp(-0.5 * (v['refmag'][i] - mm)**2 / sg**2) / (s2 * sg)),
                                                           c.eq(bc[q], (0.5 + zt[i] + 0.25 * x + 0.125 * v['refmag'][i]) / mpc**2 * math.pi * v['r_lambda'][i]**2)]))
            rec.append('c')

        def fit(self, p0):
            use = selected(v)
            res = [v['refmag'][i] - 16.0 - 4.0 * zt[i] - (-1.5 - 0.25 * math.log(v['lambda'][i] / 30.0)) for i in use]
            c.prove('start', c.eq(p0[0], -1.5) & c.eq(p0[1], -0.25) & c.eq(p0[2], std(res)))
            return [-1.0, 0.25, 0.375]
    cfg = Obj(phi1_mmstar_m=p1[0], phi1_mmstar_slope=p1[1], phi1_msig_m=p1[2], phi1_msig_slope=p1[3], parfile='PAR', bkgfile='BKG', catfile='CAT', cosmo=Cosmo(), wcen_minlambda=10.0, wcen_maxlambda=100.0, wcen_cal_zrange=[0.25, 0.75], max_maskfrac=0.25,
              wcen_pivot=30.0, wcenfile='OUT', lnw_fg_mean=0.125, lnw_fg_sigma=0.375, lnw_sat_mean=0.0625, lnw_sat_sigma=0.4375, logger=silent_logger())

    class Cw(object):
        def __init__(self, pc, ps, w, ffg, fsat, l):
            use = selected(v)
            c.prove('clusters of the centring fit', len(pc) == len(use))
            for q, i in enumerate(use):
                out = []
                for m, s in ((cfg.lnw_fg_mean, cfg.lnw_fg_sigma), (cfg.lnw_sat_mean, cfg.lnw_sat_sigma)):
                    sg = s * ls(v, i)
                    out.append(math.exp(-0.5 * (math.log(v['w'][i]) - m)**2 / sg**2) / (s2 * sg))
                c.prove('terms of the weight fit', c.all([c.eq(pc[q], v['p_cen'][i][0]), c.eq(ps[q], v['p_sat'][i][0]), c.eq(w[q], v['w'][i]), c.eq(l[q], ls(v, i)), c.eq(ffg[q], out[0]), c.eq(fsat[q], out[1])]))
            rec.append('cw')

        def fit(self, p0):
            lw = [math.log(v['w'][i]) for i in selected(v)]
            c.prove('start', c.eq(p0[0], mean(lw)) & c.eq(p0[1], std(lw)))
            return [0.75, 0.625]
    for name, o in (('WcenFgFitter', Fg), ('WcenCFitter', Cf), ('WcenCwFitter', Cw)):
        c.patch(M, name, o)
    kw = {}
    if c.rand == 2:
        kw = dict(randcatfile='RAND', randsatcatfile='SAT')
    elif c.rand == 1:
        kw = dict(randsatcatfile='SAT')
    if c.params.get('unset'):
        setattr(cfg, c.unset, -1.0)
        c.prove('first iteration needs its random points', c.raises(lambda: M.WcenCalibrator(cfg, 1, **kw), RuntimeError) is not None)
        return
    r = M.WcenCalibrator(cfg, c.params.get('iteration', 2), **kw)
    if cut:
        c.prove('selection', c.raises(r.run, Stop) is not None)
        return
    r.run()
    fg, sat = (0.125, 0.375), (0.0625, 0.4375)
    if c.rand == 2:
        fg, sat = (0.25, 0.5), (1.25, 1.5)
    elif c.rand == 1:
        sat = (0.25, 0.5)
    c.prove('order', rec == ['fg'] * c.rand + ['c', 'cw'])
    a = st['a'][0]
    want = dict(delta0=-1.0, delta1=0.25, sigma_m=0.375, pivot=30.0, lnw_fg_mean=fg[0], lnw_fg_sigma=fg[1], lnw_sat_mean=sat[0], lnw_sat_sigma=sat[1], lnw_cen_mean=0.75, lnw_cen_sigma=0.625, phi1_mmstar_m=p1[0], phi1_mmstar_slope=p1[1], phi1_msig_m=p1[2],
                phi1_msig_slope=p1[3])
    c.prove('recorded', st['f'] == 'OUT' and sorted(a.dtype.names) == sorted(want) and c.all([c.eq(a[k], want[k]) for k in want]))
    # and what a configuration takes from that file
    F = c.mod('configuration')
    cf = F.Configuration.__new__(F.Configuration)
    got = {}
    c.patch(F, 'fitsio', Obj(read=lambda f, **k: st['a'] if f == 'OUT' else None))
    c.patch(F.Configuration, 'wcenfile', 'OUT')
    c.patch(F, 'os', Obj(path=Obj(isfile=lambda f: f == 'OUT')))
    c.patch(F.Configuration, '_set_vars_from_dict', lambda self, d, **k: got.update(d))
    cf.set_wcen_vals()
    name = dict(delta0='wcen_Delta0', delta1='wcen_Delta1', sigma_m='wcen_sigma_m', pivot='wcen_pivot')
    c.prove('taken over by the configuration', sorted(got) == sorted(name.get(k, k) for k in want) and c.all([c.eq(got[name.get(k, k)], want[k]) for k in want]))
    c.cover('end')


PROPS = {
    'P26': dict(level='model_checking', functions=['calibration.selectspecseeds.SelectSpecSeeds.run', 'calibration.prepmembers.PrepMembers.run', 'calibration.selectspecred.SelectSpecRedGalaxies.run', 'calibration.zlambdacal.ZLambdaCalibrator.run',
                                                   'calibration.centeringcal.WcenCalibrator.__init__', 'calibration.centeringcal.WcenCalibrator.run', 'utilities.read_members', 'configuration.Configuration.set_wcen_vals', 'configuration.Configuration._wcen_vals'],
                bounds='2-3 galaxies, spectra, members or clusters; values entering cuts arbitrary (a few at a time), others fixed and distinct; 1-2 redshift iterations',
                assumptions=['matching on the sky is any assignment of spectra to galaxies (P20 decides the matching)', 'fitters are stand-ins that check what they are given (P25 decides them)', 'plots are not drawn',
                             'a sample in which no cluster or no member is left is outside (the code stops with an error)', 'Monte Carlo calibration of the brightest galaxy is outside'],
                instances=[('seeds', dict(ns=2, has=True, train=True, covers=['none', 'some'])), ('seeds', dict(ns=2, has=False, train=False, named=True, covers=['none', 'some'])), ('seeds', dict(ns=2, has=True, train=False), 'thorough'),
                           ('members', dict(nm=2, sel='clusters', mode='cg', covers=['none', 'some'])), ('members', dict(nm=2, sel='redshift', mode='z_init', covers=['none', 'some'])), ('members', dict(nm=2, sel='members', mode='z_init', smooth=0.25, covers=['some'])),
                           ('members', dict(nm=1, sel='x')), ('members', dict(nm=3, sel='redshift', mode='cg'), 'thorough'), ('members', dict(nm=3, sel='members', mode='cg'), 'thorough'),
                           ('specred', dict(modes=[0, 1], free=[0], covers=['end'])), ('specred', dict(modes=[1], free=[0, 1], zbounds=[], covers=['end'])), ('specred', dict(modes=[0, 1], free=[], zfree=True, efree=True, mfree=True, cross=True, covers=['end'])),
                           ('specred', dict(modes=[0, 1], free=[0, 1]), 'thorough'),
                           ('zlamrun', dict(n=2, niter=2, sel='clusters', slope=True, covers=['all', 'end', 'fewer', 'refused'])), ('zlamrun', dict(n=2, niter=2, sel='outliers', slope=False, covers=['all', 'end', 'fewer'])),
                           ('zlamrun', dict(n=3, niter=1, sel='clusters', slope=False, node=0.25, covers=['enough', 'refused'])), ('zlamrun', dict(n=3, niter=2, sel='outliers', slope=True), 'thorough'),
                           ('wcenrun', dict(cut=True, which='lambda', rand=0, covers=['in', 'out'])), ('wcenrun', dict(cut=True, which='w', rand=0, covers=['in', 'out'])), ('wcenrun', dict(cut=True, which='z', rand=0, covers=['in', 'out'])),
                           ('wcenrun', dict(cut=True, which='mask', rand=0, covers=['in', 'out'])), ('wcenrun', dict(cut=False, rand=2, covers=['end'])), ('wcenrun', dict(cut=False, rand=0)), ('wcenrun', dict(cut=False, rand=1, iteration=1)),
                           ('wcenrun', dict(cut=False, rand=1, unset='lnw_fg_sigma')), ('wcenrun', dict(cut=False, rand=0, unset='lnw_sat_sigma'))]),
}
