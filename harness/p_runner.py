"""Percolation masking, member lists and cluster post-processing (P06, P07)."""
from harness.common import Obj, Cosmo, ZStr, silent_logger
import math

GAL = [('RA', 'f8'), ('DEC', 'f8'), ('REFMAG', 'f8'), ('REFMAG_ERR', 'f8'), ('ZRED', 'f8'), ('ZRED_E', 'f8'), ('ZRED_CHISQ', 'f8'),
       ('CHISQ', 'f8'), ('EBV', 'f8'), ('ID', 'i8'), ('MAG', 'f8', (2,)), ('MAG_ERR', 'f8', (2,))]
XTRA = [('MAG', 'f8', (2,)), ('MAG_ERR', 'f8', (2,)), ('PZ', 'f8', (2,)), ('PZBINS', 'f8', (2,))]
MG = [('r', 'f8'), ('mark', 'i4'), ('limmag', 'f8'), ('exptime', 'f8')]


def dbl(dt):
    return [tuple(['f8' if (i == 1 and t == 'f4') else t for i, t in enumerate(d)]) for d in dt]


class MaskStub(object):
    def __init__(self, mg):
        self.maskgals, self.n = mg, 0

    def select_maskgals_sample(self, maskgal_index=None):
        self.n += 1
        return self.n

    def set_radmask(self, cluster):
        pass


class DepthStub(object):
    def calc_maskdepth(self, mg, ra, dec, scale):
        pass


def runner(c, K, N, refmag, matches, process, dists=None, mg=None, zcl=None, ids=None, **kw):
    """a cluster runner over a catalogue of K clusters and N galaxies with a harness-chosen estimator"""
    R, C = c.mod('cluster_runner'), c.mod('cluster')
    G = c.mod('galaxy').GalaxyCatalog
    gv = dict(REFMAG=refmag, REFMAG_ERR=[0.125] * N, ID=[100 + i for i in range(N)], EBV=[0.5 + i for i in range(N)],
              RA=[10.0 + i for i in range(N)], DEC=[-5.0 - i for i in range(N)], ZRED=[0.25 + 0.125 * i for i in range(N)],
              ZRED_E=[0.0625 * (i + 1) for i in range(N)], ZRED_CHISQ=[3.0 + i for i in range(N)], CHISQ=[7.0 + i for i in range(N)],
              MAG=[[20.0 + i, 21.0 + i] for i in range(N)], MAG_ERR=[[0.25 + i, 0.5 + i] for i in range(N)])
    gals = G(c.rec(N, GAL, gv))

    names = [d[0] for d in C.cluster_dtype_base]
    dt = dbl(list(C.cluster_dtype_base) + [d for d in XTRA if d[0] not in names])
    mnames = [d[0] for d in C.member_dtype_base]
    mdt = dbl(list(C.member_dtype_base) + [d for d in XTRA[:2] if d[0] not in mnames])
    cfg = Obj(cosmo=Cosmo(), cluster_dtype=dt, member_dtype=mdt, limmag_catalog=22.0, bkg_local_compute=False, bkg_local_use=False,
              zlambda_epsilon=0.125, percolation_memradius=kw.pop('memradius', None), percolation_memlum=kw.pop('memlum', None),
              logger=silent_logger(), start_file_logging=lambda: None, d=Obj(hpix=[], nside=0))
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=20.0)
    zcl = [0.5] * K if zcl is None else zcl
    if mg is None:
        mg = c.mod('catalog').Catalog(c.rec(2, MG, dict(r=[0.25, 0.5], mark=[1, 1], limmag=[22.0, 22.0], exptime=[1.0, 1.0])))
    order = []

    def match_one(ra, dec, radius):
        k = int(round(float(ra)))
        m = matches[k]
        d = [0.0625 * (1 + j) for j in range(len(m))] if dists is None else [dists[k][j] for j in range(len(m))]
        order.append((k, radius))
        import numpy
        return numpy.array(m, dtype=int), c.np.array(d)

    class Runner(R.ClusterRunner):
        def _additional_initialization(self, **k):
            self.runmode, self.filetype = 'percolation', 'final'

        def _setup(self):
            self.hpix_logstr = 'All'
            self.gals, self.mask, self.depthstr, self.cosmo = gals, MaskStub(mg), DepthStub(), cfg.cosmo
            self.bkg = self.cbkg = self.zredbkg = None
            self.zredstr, self.zlambda_corr = zs, kw.get('corr')
            self.limlum = 0.25
            self.rmask_0, self.rmask_beta, self.rmask_gamma, self.rmask_zpivot = 1.5, kw.get('rbeta', 1.0), kw.get('rgamma', 1.0), 0.25
            self.percolation_lmask = kw.get('lmask', 0.25)
            self.maxrad = 4.0
            self.do_percolation_masking = kw.get('masking', True)
            self.do_lam_plusminus = kw.get('plusminus', False)
            self.use_memradius, self.use_memlum = kw.get('use_memradius', False), kw.get('use_memlum', False)
            self.match_centers_to_galaxies = kw.get('match_centers', False)
            self.min_lambda = kw.get('min_lambda', -2.0)
            self.record_members = kw.get('members', True)
            self.doublerun = kw.get('doublerun', False)
            self.do_correct_zlambda = kw.get('docorr', 'corr' in kw)
            self.do_pz = kw.get('do_pz', False)
            self.did_read_zreds = kw.get('zreds', True)
            return True

        def _more_setup(self, *a, **k):
            z = c.np.zeros(K, dtype=dt)
            self.cat = C.ClusterCatalog(z, r0=1.0, beta=0.25, config=cfg, zredstr=zs)
            self.cat.ra = [float(k) for k in range(K)] if K > 1 else 0.0
            self.cat.z = zcl
            self.cat.mem_match_id = ids or [k + 1 for k in range(K)]
            if 'catinit' in kw:
                kw['catinit'](self.cat)
            return True

        def _process_cluster(self, cluster):
            k = int(round(float(cluster.ra)))
            return process(self, k, cluster)
    gals.__dict__['match_one'] = match_one
    if 'match_many' in kw:
        gals.__dict__['match_many'] = kw['match_many']
    r = Runner.__new__(Runner)
    R.ClusterRunner.__init__(r, cfg) if False else None
    r.config = cfg
    r.read_gals, r.read_zreds, r.zreds_required, r.did_read_zreds = True, False, False, False
    r.zredbkg_required, r.use_colorbkg, r.use_parfile, r.use_maxmag_in_matching = False, False, True, kw.get('usemax', False)
    r.use_rmask_settings, r.cutgals_chisqmax, r._filename = True, False, None
    r._additional_initialization()
    r._gals, r._zs, r._order = gals, zs, order
    return r


def fill(c, cluster, lam, rlam, p, pmem=None, cand=()):
    cluster.Lambda, cluster.r_lambda, cluster.scaleval, cluster.Lambda_e = lam, rlam, 1.0, 1.0
    cluster.z_lambda, cluster.z_lambda_e = cluster.redshift, 0.0625
    nb = cluster.neighbors
    for j in range(len(nb)):
        nb.p[j] = p[j]
        nb.pmem[j] = pmem[j] if pmem is not None else p[j] * nb.pfree[j]
    for j in cand:
        nb.centering_cand[j] = 1


def history(c):
    """every cluster sees one minus what earlier accepted clusters took from each galaxy"""
    K = c.K
    N = 2
    matches = [m for m in c.matches]
    bad = [c.flag('bad%d' % k) for k in range(K)]
    p = [c.reals('p%d' % k, len(matches[k]), 0.03125, 1) for k in range(K)]
    seen = {}

    def process(r, k, cl):
        seen[k] = [cl.neighbors.pfree[j] for j in range(len(matches[k]))]
        fill(c, cl, 20.0, 2.0, p[k])
        return bad[k]
    r = runner(c, K, N, [17.0, 17.5], matches, process)
    r.run()
    for k in range(K):
        c.prove('processed in order', k in seen)
        for j, g in enumerate(matches[k]):
            used = sum([p[q][matches[q].index(g)] for q in range(k) if not bad[q] and g in matches[q]], 0.0)
            c.prove('free probability', c.eq(seen[k][j], c.np.maximum(1.0 - used, 0.0)))
            c.prove('free probability range', (seen[k][j] >= 0) & (seen[k][j] <= 1))
    for k in range(K):
        if bad[k]:
            c.prove('rejected cluster reset', c.all([c.eq(getattr(r.cat, f)[k], -1.0) for f in ('Lambda', 'Lambda_e', 'scaleval', 'z_lambda', 'z_lambda_e')]))
        else:
            c.prove('accepted cluster kept', c.eq(r.cat.Lambda[k], 20.0))
        n = sum(1 for x in (r.members.mem_match_id if r.members is not None else []) if int(x) == k + 1)
        if bad[k]:
            c.prove('rejected cluster has no members', n == 0)
    c.cover('end')


def masksel(c):
    """which galaxies an accepted cluster takes out, and its mask radius"""
    N = c.N
    mag = c.reals('mag', N, 16, 22)
    d = c.reals('d', N, 0, 4)
    p = c.reals('p', N, 0, 1)
    lam = c.real('lam', 5, 200)
    rlam = c.real('rlam', 0.25, 2)
    z = 0.5
    scale = math.radians(1.) * Cosmo().Da(0, z)

    def process(r, k, cl):
        fill(c, cl, lam, rlam, p)
        return False
    perm = c.perm
    r = runner(c, 1, N, mag, [perm], process, dists=[d], zcl=[z], members=False)
    r.run()
    rm = 1.5 * (lam / 100.) * (1.5 / 1.25)
    rm = c.np.maximum(rm, rlam)
    c.prove('mask radius', c.eq(r.cat.r_mask[0], rm))
    lim = 18.0 - 2.5 * math.log10(0.25)
    for j, g in enumerate(perm):
        rr = c.np.maximum(d[j] * scale, 1e-6)
        take = bool(mag[g] < lim) and bool(rr < rm) and bool(p[j] > 0)
        c.prove('taken', c.eq(r.pgal[g], p[j] if take else 0.0))
    for g in range(N):
        if g not in perm:
            c.prove('untouched', c.eq(r.pgal[g], 0.0))
    c.cover('end')


def members(c):
    """the member list: who is in it and with which values"""
    N = c.params.get('N', 2)
    IDS = [7, 3, 5, 9]
    K = c.K
    mode = c.mode
    perm = [1, 0][-N:]
    p = [c.reals('p%d' % k, N, 0, 1) for k in range(K)]
    pm = [c.reals('pm%d' % k, N, 0, 1) for k in range(K)]
    mag = [17.0, 18.5][:N] if K > 1 else c.reals('mag', N, 16, 22)
    rlam = c.real('rlam', 0.25, 2)
    cand = [[j for j in range(N) if (c.flag('c%d%d' % (k, j)) if k == 0 and N > 1 else False)] for k in range(K)]
    lam = c.reals('lam', K, 1, 100)
    snap = {}

    def process(r, k, cl):
        fill(c, cl, lam[k], rlam, p[k], pm[k], cand[k])
        nb = cl.neighbors
        for j in range(N):
            nb.theta_i[j], nb.theta_r[j], nb.pcol[j], nb.chisq[j] = 0.25 + j, 0.5 + j, 0.125 + j, 2.0 + j + k
        snap[k] = [nb.r[j] for j in range(N)]
        return False
    minlam = 10.0
    r = runner(c, K, N, mag, [perm] * K, process, ids=IDS[:K], min_lambda=minlam, masking=False, use_memradius=mode != 'pmem',
               use_memlum=mode == 'lum', memradius=1.25, memlum=0.5)
    r.run()
    keep = [k for k in range(K) if bool(lam[k] >= minlam)]
    ids = [IDS[k] for k in keep]
    c.prove('catalogue cut', [int(x) for x in r.cat.mem_match_id] == ids)
    rows = {}
    nrow = 0 if r.members is None else len(r.members)
    for q in range(nrow):
        key = (int(r.members.mem_match_id[q]), int(r.members.id[q]))
        c.prove('no duplicates', key not in rows)
        rows[key] = q
    exp = set()
    for k in keep:
        for j, g in enumerate(perm):
            if mode == 'pmem':
                ok = bool(pm[k][j] > 0.01)
            else:
                ok = bool(p[k][j] > 0.01) and bool(snap[k][j] < 1.25 * rlam)
                if mode == 'lum':
                    ok = ok and bool(mag[g] < 18.0 - 2.5 * math.log10(0.5))
            if ok or j in cand[k]:
                exp.add((IDS[k], 100 + g))
                if (IDS[k], 100 + g) in rows:
                    q = rows[(IDS[k], 100 + g)]
                    m = r.members
                    c.prove('member values', c.all([c.eq(m.p[q], p[k][j]), c.eq(m.pfree[q], 1.0 if ok else 0.0), c.eq(m.r[q], snap[k][j]),
                                                    c.eq(m.theta_i[q], 0.25 + j), c.eq(m.theta_r[q], 0.5 + j), c.eq(m.pcol[q], 0.125 + j),
                                                    c.eq(m.refmag[q], mag[g]), c.eq(m.z[q], 0.5), c.eq(m.ra[q], 10.0 + g), c.eq(m.dec[q], -5.0 - g),
                                                    c.eq(m.zred[q], 0.25 + 0.125 * g), c.eq(m.ebv[q], 0.5 + g), c.eq(m.mag[q, 0], 20.0 + g),
                                                    c.eq(m.mag[q, 1], 21.0 + g), c.eq(m.mag_err[q, 1], 0.5 + g), c.eq(m.chisq[q], 2.0 + j + k),
                                                    c.eq(m.refmag_err[q], 0.125), c.eq(m.zred_e[q], 0.0625 * (g + 1))]))
    c.prove('member list', set(rows) == exp)
    c.cover('end')


def double(c):
    """two passes: the second goes by decreasing first-pass richness with masking"""
    K = c.K
    M = c.mod('run_colormem')
    lam = c.reals('lam', K, 1, 100)
    c.assume(*[c.not_(lam[i] == lam[j]) for i in range(K) for j in range(i)])
    bad = [c.flag('bad%d' % k) for k in range(K)]
    p = c.reals('p', K, 0.03125, 1)
    seen, order = [], []

    def process(r, k, cl):
        second = len(order) >= K
        order.append(k)
        seen.append(cl.neighbors.pfree[0])
        fill(c, cl, lam[k] if not second else 20.0, 2.0, [p[k]])
        return bad[k] if not second else False
    r = runner(c, K, 1, [17.0], [[0]] * K, process, doublerun=True, members=False, masking=False)
    type(r)._doublerun_sort = M.RunColormem._doublerun_sort
    r.run()
    c.prove('two full passes', len(order) == 2 * K and sorted(order[:K]) == list(range(K)) and sorted(order[K:]) == list(range(K)))
    for q in range(K):
        c.prove('no masking at first', c.eq(seen[q], 1.0))
    for q in range(K - 1):
        a, b = order[K + q], order[K + q + 1]
        c.prove('decreasing richness', c.lt(lam[b], lam[a]) if not bad[a] and not bad[b] else (bad[b] or not bad[a]))
    for q in range(K):
        c.prove('masking then', c.eq(seen[K + q], c.np.maximum(1.0 - sum([p[j] for j in order[K:K + q]], 0.0), 0.0)))
    c.prove('members only of the second pass', r.members is None or len(r.members) <= K)
    c.cover('end')


def maskfrac(c):
    """masked fraction, limits, and clusters that cannot be measured"""
    n = c.n
    rr = c.reals('r', n, 0.0625, 2)
    mk = [1 if c.flag('m%d' % i) else 0 for i in range(n)]
    lim = c.real('lim', 0, 24)
    c.assume(c.any([x < 1.0 for x in rr]))
    mg = c.mod('catalog').Catalog(c.rec(n, MG, dict(r=rr, mark=mk, limmag=[lim] * n, exptime=[4.0] * n)))
    rlam = c.real('rlam', 0.25, 2)
    called, first = [], []

    def process(r, k, cl):
        called.append(1)
        first.append(cl.maskfrac)
        fill(c, cl, 20.0, rlam, [0.5])
        return False
    r = runner(c, 1, 1, [17.0], [[0]], process, mg=mg)
    r.run()
    in1 = [i for i in range(n) if bool(rr[i] < 1.0)]
    f1 = sum(1 for i in in1 if mk[i] == 0) / float(len(in1))
    usable = f1 < 1.0 and not bool(lim <= 1.0)
    c.prove('fully masked or without depth is skipped', bool(called) == usable)
    c.prove('limits', c.all([c.eq(r.cat.lim_limmag[0], lim), c.eq(r.cat.lim_exptime[0], 4.0), c.eq(r.cat.lim_limmag_hard[0], 22.0)]))
    if not called:
        c.prove('skipped is reset', c.all([c.eq(r.cat.Lambda[0], -1.0), c.eq(r.cat.z_lambda[0], -1.0)]))
        c.cover('skipped')
        return
    c.prove('first fraction', c.eq(first[0], f1))
    inl = [i for i in range(n) if bool(rr[i] < rlam)]
    c.prove('fraction in the cluster radius', c.eq(r.cat.maskfrac[0], 1.0 if not inl else sum(1 for i in inl if mk[i] == 0) / float(len(inl))))
    c.cover('end')


def deriv(c):
    """richness derivatives with redshift and the redshift correction"""
    C = c.mod('cluster')
    lam = c.real('lam', 1, 100)
    a, b = c.real('lm', -1, 100), c.real('lp', -1, 100)
    ea, eb = c.real('em', 0.125, 9), c.real('ep', 0.125, 9)
    dz, de = c.real('dz', -0.0625, 0.0625), c.real('de', 0.0078125, 0.25)
    pz = c.reals('pz', 2, 0, 4)
    zs = []
    cmain = []

    def calc(self, mask, **k):
        lo = len(zs) % 2 == 0
        zs.append(self.redshift)
        cmain.append(self)
        self.Lambda = a if lo else b
        self.Lambda_e = ea if lo else eb
        for j in range(len(self.neighbors)):
            self.neighbors.p[j] = 0.875
            self.neighbors.pmem[j] = 0.875
        return a if lo else b
    c.patch(C.Cluster, 'calc_richness', calc)
    args = []

    def corr(l, z, ze, pzbins=None, pzvals=None):
        args.append((l, z, ze, pzbins, pzvals))
        if pzbins is None:
            return z + dz, de
        return z + dz, de, c.np.array([0.375, 0.625]), pz

    p0 = c.real('p0', 0.03125, 1)

    def process(r, k, cl):
        fill(c, cl, lam, 1.0, [p0])
        cl.Lambda_e = 3.0
        cl.pz[:] = [1.0, 2.0]
        cl.pzbins[:] = [0.25, 0.75]
        return False
    kw = dict(corr=Obj(apply_correction=corr), do_pz=c.do_pz) if c.corr else dict(corr=Obj(apply_correction=corr), docorr=False)
    r = runner(c, 1, 1, [17.0], [[0]], process, plusminus=True, **kw)
    r.run()
    cat = r.cat
    zl = 0.5 + (dz if c.corr else 0.0)
    c.prove('redshift', c.eq(cat.z_lambda[0], zl))
    if not c.corr:
        c.prove('no correction unless asked for', not args)
    if c.corr:
        c.prove('correction input', c.all([c.eq(args[0][0], lam), c.eq(args[0][1], 0.5), c.eq(args[0][2], 0.0625)]) and len(args) == 1)
        c.prove('error', c.eq(cat.z_lambda_e[0], de))
        if c.do_pz:
            c.prove('corrected p(z) stored', c.all([c.eq(cat.pz[0, i], pz[i]) for i in range(2)] +
                                                   [c.eq(cat.pzbins[0, i], [0.375, 0.625][i]) for i in range(2)]))
    c.prove('evaluated at both sides', c.all([c.eq(zs[0], zl - 0.125), c.eq(zs[1], zl + 0.125)]))
    c.prove('cluster itself untouched', c.all([c.eq(cat.Lambda[0], lam), c.eq(cat.Lambda_e[0], 3.0), c.eq(r.pgal[0], p0)]))
    ln = c.np.log
    if bool(a > 0) and bool(b > 0):
        c.prove('derivatives', c.all([c.eq(cat.dlambda_dz[0], (ln(b) - ln(a)) / 0.25), c.eq(cat.dlambda_dz2[0], (ln(b) + ln(a) - 2 * ln(lam)) / 0.015625),
                                      c.eq(cat.dlambdavar_dz[0], (eb**2 - ea**2) / 0.25), c.eq(cat.dlambdavar_dz2[0], (eb**2 + ea**2 - 18.0) / 0.015625)]))
        c.cover('end')
    else:
        c.prove('no derivative of a non-detection', c.all([c.eq(cat.dlambda_dz[0], 0.0), c.eq(cat.dlambda_dz2[0], 0.0)]))


def centers(c):
    """seed positions take the photometry of the galaxy they match, and only those"""
    K, N = 3, 3
    i0, i1 = c.i0, c.i1
    import numpy
    old = c.reals('old', K, 0, 1)

    def process(r, k, cl):
        fill(c, cl, 20.0, 2.0, [0.5])
        return False

    def init(cat):
        cat.zred = old
        cat.refmag = old
        cat.zred_e = old
        cat.zred_chisq = old
    r = runner(c, K, N, [17.0, 17.25, 17.5], [[0]] * K, process, match_centers=True, catinit=init, zreds=c.zreds,
               match_many=lambda ra, dec, rad, **k: (numpy.array(i0, dtype=int), numpy.array(i1, dtype=int), c.np.zeros(len(i0))))
    r.run()
    for k in range(K):
        hit = [b for a, b in zip(i0, i1) if a == k]
        g = hit[-1] if hit else None
        c.prove('magnitudes', c.all([c.eq(r.cat.refmag[k], old[k] if g is None else 17.0 + 0.25 * g),
                                     c.eq(r.cat.refmag_err[k], 0.0 if g is None else 0.125),
                                     c.eq(r.cat.mag[k, 1], 0.0 if g is None else 21.0 + g), c.eq(r.cat.mag_err[k, 0], 0.0 if g is None else 0.25 + g)]))
        if not c.zreds:
            g = None
        c.prove('photometric redshift', c.all([c.eq(r.cat.zred[k], old[k] if g is None else 0.25 + 0.125 * g),
                                               c.eq(r.cat.zred_e[k], old[k] if g is None else 0.0625 * (g + 1)),
                                               c.eq(r.cat.zred_chisq[k], old[k] if g is None else 3.0 + g)]))
    c.cover('end')


def ids(c):
    """cluster ids: kept when unique, generated when unset, refused when ambiguous"""
    R = c.mod('cluster_runner')
    n = c.n
    v = c.ints('id', n, 0, 4)
    r = R.ClusterRunner.__new__(R.ClusterRunner)
    cat = c.mod('catalog').Catalog(c.rec(n, [('MEM_MATCH_ID', 'i4')], dict(MEM_MATCH_ID=v)))
    r.cat = cat
    e = c.raises(lambda: r._generate_mem_match_ids(), RuntimeError)
    vals = [int(x) for x in v]
    if len(set(vals)) == 1 and n > 1:
        c.prove('generated', e is None and [int(x) for x in cat.mem_match_id] == list(range(1, n + 1)))
        c.cover('gen')
    elif len(set(vals)) == n and n > 1:
        c.prove('kept', e is None and [int(x) for x in cat.mem_match_id] == vals)
        c.cover('kept')
    elif n > 1:
        c.prove('refused', e is not None)
        c.cover('refused')
    else:
        c.prove('single', e is None and len(cat) == 1)


SEED = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f8'), ('LNLIKE', 'f8'), ('LAMBDA', 'f8'), ('REFMAG', 'f8'),
        ('RA_ORIG', 'f8'), ('DEC_ORIG', 'f8')]


def seeds(c):
    """which seeds are percolated, and in which order"""
    RP = c.mod('run_percolation')
    C = c.mod('cluster')
    n = c.n
    z = c.reals('z', n, 0.0625, 1)
    like = c.reals('like', n, -50, 50)
    lam = c.reals('lam', n, 0, 50)
    mag = c.reals('mag', n, 14, 24)
    if c.nan:
        like = c.np.array([like[0], float('-inf'), float('nan')])
    else:
        c.assume(*[c.not_(like[i] == like[j]) for i in range(n) for j in range(i)])
    inm = [c.flag('in%d' % i) for i in range(n)] if c.clean else None
    oid = [3, 1, 2]
    cat = C.ClusterCatalog(c.rec(n, SEED, dict(MEM_MATCH_ID=oid[:n], RA=[10.0 + i for i in range(n)], DEC=[1.0 + i for i in range(n)],
                                               Z=z, LNLIKE=like, LAMBDA=lam, REFMAG=mag)), dtype=[])
    got = []

    class CC(object):
        @staticmethod
        def from_catfile(f, **k):
            got.append(k)
            return cat
    c.patch(RP, 'ClusterCatalog', CC)
    r = RP.RunPercolation.__new__(RP.RunPercolation)
    r.config = Obj(logger=silent_logger(), catfile='x', zrange=c.np.array([0.25, 0.75]), calib_zrange_cushion=0.0625, percolation_minlambda=5.0,
                   percolation_memradius=1.5, lval_reference=0.25, percolation_memlum=0.125, percolation_lmask=-1.0, percolation_niter=2)
    r.hpix_logstr = 'x'
    r.zredstr, r.bkg, r.zredbkg, r.cosmo, r.r0, r.beta = ZStr(c, m0=16), None, None, Cosmo(), 1.0, 0.25
    r.limlum = 0.25
    r.mask = Obj(compute_radmask=lambda ra, dec: c.np.array([inm[int(round(float(x))) - 10] for x in ra], dtype=bool))
    ok = r._more_setup(keepz=c.keepz, keepid=c.keepid, cleaninput=c.clean)
    lo, hi = (0.1875, 0.8125) if c.keepz else (0.25, 0.75)
    sel = []
    for i in range(n):
        if c.nan and i > 0:
            continue
        if bool(z[i] > lo) and bool(z[i] < hi) and bool(lam[i] > 5.0) and bool(mag[i] < 16 + 4 * z[i] - 2.5 * math.log10(0.25)):
            if not c.clean or inm[i]:
                sel.append(i)
    c.prove('catalogue range restored', c.all([c.eq(r.config.zrange[0], 0.25), c.eq(r.config.zrange[1], 0.75)]))
    if not sel:
        c.prove('nothing to do', (not ok) and r.cat is None)
        c.cover('none')
        return
    c.prove('accepted', bool(ok))
    who = [int(round(float(x))) - 10 for x in r.cat.ra]
    c.prove('selected', sorted(who) == sorted(sel))
    for a, b in zip(who[:-1], who[1:]):
        c.prove('order', oid[a] < oid[b] if c.keepid else like[a] > like[b])
    ids = [int(x) for x in r.cat.mem_match_id]
    c.prove('ids unique', len(set(ids)) == len(ids))
    if c.keepid and len(who) > 1:
        c.prove('ids kept', ids == [oid[i] for i in who])
    elif not c.keepid:
        c.prove('ids generated', ids == list(range(1, len(who) + 1)))
    c.prove('original positions', c.all([c.eq(r.cat.ra_orig[q], 10.0 + i) for q, i in enumerate(who)] + [c.eq(r.cat.dec_orig[q], 1.0 + i) for q, i in enumerate(who)]))
    c.prove('searched deep enough', r.limlum <= 0.125 and r.do_percolation_masking and r.record_members and r.min_lambda == 5.0)
    c.cover('end')


CEN = [('RA_CENT', 'f8', (3,)), ('DEC_CENT', 'f8', (3,)), ('P_CEN', 'f8', (3,)), ('Q_CEN', 'f8', (3,)), ('P_FG', 'f8', (3,)), ('P_SAT', 'f8', (3,)),
       ('P_C', 'f8', (3,)), ('ID_CENT', 'i8', (3,)), ('LAMBDA_CENT', 'f8', (3,)), ('ZLAMBDA_CENT', 'f8', (3,))]


def process(c):
    """one cluster through percolation: rejections and what is stored"""
    RP, C = c.mod('run_percolation'), c.mod('cluster')
    G = c.mod('galaxy').GalaxyCatalog
    N = 5
    names = [d[0] for d in C.cluster_dtype_base]
    dt = dbl(list(C.cluster_dtype_base) + [d for d in XTRA if d[0] not in names] + [d for d in CEN if d[0] not in names])
    cfg = Obj(cosmo=Cosmo(), cluster_dtype=dt, percolation_pbcg_cut=0.5, percolation_minlambda=4.0, percolation_niter=c.niter, wcen_uselum=c.lum,
              wcen_rsoft=0.0625, centerclass='HarnessCenter', logger=silent_logger())
    zs = ZStr(c, ncol=2, alpha=-1.0, m0=16, limmag=20.0)
    pos = [0.0, 0.01, 0.02, 0.03, 0.05]
    gv = dict(REFMAG=[17.0 + 0.25 * i for i in range(N)], REFMAG_ERR=[0.125 + i for i in range(N)], ID=[100 + i for i in range(N)],
              EBV=[0.5 + i for i in range(N)], RA=[10.0 + x for x in pos], DEC=[0.0] * N, ZRED=[0.25 + 0.125 * i for i in range(N)],
              ZRED_E=[0.0625 * (i + 1) for i in range(N)], ZRED_CHISQ=[3.0 + i for i in range(N)],
              MAG=[[20.0 + i, 21.0 + i] for i in range(N)], MAG_ERR=[[0.25 + i, 0.5 + i] for i in range(N)])
    cl = C.Cluster(config=cfg, zredstr=zs, neighbors=G(c.rec(N, GAL, gv)), r0=1.0, beta=0.25)
    cl.ra, cl.dec, cl.Lambda = 10.0, 0.0, 20.0
    cl.redshift = 0.5
    cl.update_neighbors_dist()
    nb = cl.neighbors
    pf = c.reals('pf', 2, 0, 1)
    nb.pfree[0], nb.pfree[1] = pf[0], pf[1]
    lams = c.reals('lam', c.niter + 2, 1, 60)
    scl = c.reals('scl', c.niter + 1, 1, 2)
    zl = c.reals('zl', 2, -0.25, 0.75)
    c.assume(*[c.any([x < 0, x > 0.0625]) for x in zl])
    cz = c.real('cz', 0.25, 0.75)
    mem = [c.flag('mem%d' % i) for i in range(2)]
    p = c.reals('p', 2, 0.125, 1)
    rl = 1.25
    st = Obj(k=0, cent=0)
    log = []

    def calc(self, mask, calc_err=True, index=None):
        i = st.k
        st.k += 1
        if i > c.niter:
            # alternative centres
            log.append(('alt', self.ra, self.redshift, index))
            self.Lambda, self.scaleval = lams[c.niter + 1], 1.0
            return lams[c.niter + 1]
        log.append(('lam', self.ra, self.redshift, index))
        self.Lambda, self.scaleval, self.r_lambda, self.Lambda_e = lams[i], scl[i], rl, 2.5 if calc_err else -1.0
        nn = self.neighbors
        for j in range(N):
            nn.p[j] = nn.pmem[j] = 0.0
        for j in (3, 4):
            nn.p[j] = nn.pmem[j] = 0.5
        for q in range(2):
            if mem[q]:
                nn.p[1 + q] = nn.pmem[1 + q] = p[q]
        if i > 0 and c.empty:
            for j in range(N):
                nn.p[j] = nn.pmem[j] = 0.0
        return lams[i]
    c.patch(C.Cluster, 'calc_richness', calc)

    class ZL(object):
        n = 0

        def __init__(self, cluster):
            self.cl = cluster

        def calc_zlambda(self, zin, mask, calc_err=True, calcpz=True):
            i = ZL.n
            ZL.n += 1
            log.append(('z', zin, calc_err, calcpz))
            self.pzbins, self.pz = (c.np.array([0.25, 0.5]), c.np.array([1.0, 3.0])) if calcpz else (c.np.array([0.0, 0.0]), c.np.array([0.0, 0.0]))
            if i > 1:
                return cz, -1.0
            return zl[i], 0.03125 if calc_err else -1.0
    c.patch(RP, 'Zlambda', ZL)
    off = c.params.get('off', False)
    good = c.ngood
    noc = c.flag('nocenter')
    pc = c.real('pc', 0.5, 1)

    class Cent(object):
        def __init__(self, cluster):
            self.cluster = cluster

        def find_center(self):
            st.cent += 1
            log.append(('cent', self.cluster.redshift))
            if noc:
                return False
            import numpy
            self.ngood = good
            self.index = numpy.array([1, 0, 2][:good] + [-1] * (3 - good)) if not off else numpy.array([-1] * 3)
            self.maxind = 1
            self.ra, self.dec = c.np.array([10.01, 10.0, 0.0]), c.np.array([0.0] * 3)
            self.p_cen, self.q_cen = c.np.array([pc, 1 - pc, 0.0]), c.np.array([0.5, 0.25, 0.125])
            self.p_fg, self.p_sat, self.p_c = c.np.array([0.1, 0.2, 0.3]), c.np.array([0.4, 0.5, 0.6]), c.np.array([0.7, 0.8, 0.9])
            self.q_miss = 0.75
            return True
    c.patch(RP, 'HarnessCenter', Cent)
    r = RP.RunPercolation.__new__(RP.RunPercolation)
    r.config, r.mask, r.depthstr = cfg, Obj(set_radmask=lambda x: log.append(('mask', x.ra)), maskgals=None), Obj(
        calc_maskdepth=lambda mg, ra, dec, s: log.append(('depth', ra)))
    if c.params.get('fit', False):
        r.depthstr, r.depthlim = None, Obj(calc_maskdepth=lambda mg, m, e: log.append(('depth', cl.ra if len(m) == N and len(e) == N and float(m[1]) == 17.25 and float(e[1]) == 1.125 else -1.0)))
    r.specseed, r.keepz, r.r0, r.beta, r.did_read_zreds, r.maxiter = False, c.keepz, 1.0, 0.25, True, c.niter
    r.rmask_0, r.rmask_beta, r.rmask_zpivot, r.rmask_gamma = 1.5, 1.0, 0.25, 1.0
    r.hpix_logstr = 'x'
    cl.maskgal_index = 0
    bad = r._process_cluster(cl)

    def expect():
        if bool(pf[0] < 0.5):
            return 'seed already taken'
        if bool(lams[0] / scl[0] < 4.0) or (2 + sum(mem) < 3):
            return 'too poor'
        if not c.keepz and bool(zl[0] < 0):
            return 'no redshift'
        if noc or good == 0:
            return 'no centre'
        for i in range(c.niter):
            if bool(lams[1 + i] / scl[1 + i] < 4.0) or bool(pf[1] < 0.5):
                return 'too poor at the new centre'
            if bool(zl[0 if c.keepz else 1] < 0):
                return 'no final redshift'
        if c.empty:
            return 'no members'
        return None
    why = expect()
    c.prove('rejected exactly when it should be', bool(bad) == (why is not None))
    if why is not None:
        c.prove('rejected is reset', c.all([c.eq(getattr(cl, f), -1.0) for f in ('Lambda', 'Lambda_e', 'scaleval', 'z_lambda', 'z_lambda_e')]))
        c.cover(why)
        return
    zf = zl[0 if c.keepz else 1]
    if off:
        c.prove('position adopted', c.all([c.eq(cl.ra, 10.01), c.eq(cl.dec, 0.0), c.eq(nb.r[1], 1e-6, 1e-4)]))
        c.prove('no galaxy values where there is no galaxy', c.all([c.eq(cl.refmag, 0.0), c.eq(cl.mag[0], 0.0), c.eq(cl.zred, 0.0)]) & (not any(int(x) for x in nb.centering_cand)))
        c.cover('off')
        return
    c.prove('centre adopted', c.all([c.eq(cl.ra, 10.01), c.eq(cl.dec, 0.0), c.eq(cl.refmag, 17.25), c.eq(cl.mag[0], 21.0), c.eq(cl.mag_err[1], 1.5), c.eq(cl.refmag_err, 1.125),
                                     c.eq(cl.ebv_mean, 1.5), c.eq(cl.zred, 0.375), c.eq(cl.zred_e, 0.125), c.eq(cl.zred_chisq, 4.0), c.eq(nb.r[1], 1e-6, 1e-4)]))
    c.prove('candidates', [int(x) for x in cl.id_cent][:good] == [101, 100, 102][:good] and [int(x) for x in nb.centering_cand] == [1 if j in (1, 0, 2)[:good] else 0 for j in range(N)])
    c.prove('no identifier without a candidate', all(int(x) not in (100, 101, 102, 103, 104) for x in list(cl.id_cent)[good:]))
    c.prove('centre probabilities', c.eqs(list(cl.p_cen), [pc, 1 - pc, 0.0]) & c.eqs(list(cl.q_cen), [0.5, 0.25, 0.125]) & c.eqs(list(cl.p_fg), [0.1, 0.2, 0.3]) &
            c.eqs(list(cl.p_sat), [0.4, 0.5, 0.6]) & c.eqs(list(cl.p_c), [0.7, 0.8, 0.9]) & c.eq(cl.q_miss, 0.75) & c.eqs(list(cl.ra_cent)[:2], [10.01, 10.0]))
    c.prove('redshift', c.all([c.eq(cl.z_lambda, zf), c.eq(cl.z_lambda_e, 0.03125), c.eq(cl.redshift, 0.5 if c.keepz else zf), c.eq(cl.pz[1], 3.0), c.eq(cl.pzbins[0], 0.25)]))
    lam = lams[c.niter]
    c.prove('richness', c.eq(cl.Lambda, lam) & c.eq(cl.Lambda_e, 2.5) & c.eq(cl.r_lambda, rl))
    first = [x for x in log if x[0] == 'mask']
    c.prove('mask moved to the centre', len(first) >= 1 and all(abs(float(x[1]) - 10.01) < 1e-6 for x in first) and any(x[0] == 'depth' and abs(float(x[1]) - 10.01) < 1e-6 for x in log))
    l1 = [x for x in log if x[0] == 'lam']
    c.prove('centring at the new redshift', c.eq([x for x in log if x[0] == 'cent'][0][1], 0.5 if c.keepz else zl[0]))
    c.prove('measured at the new centre', all(abs(float(x[1]) - 10.01) < 1e-6 for x in l1[1:]))
    if good > 1:
        alt = [x for x in log if x[0] == 'alt']
        c.prove('alternative centre measured there', len(alt) == good - 1 and abs(float(alt[0][1]) - 10.0) < 1e-6)
        lc = [lam] + [lams[c.niter + 1]] * (good - 1) + [0.0] * (3 - good)
        c.prove('alternative richness', c.eqs(list(cl.lambda_cent), lc) & c.eq(cl.zlambda_cent[0], zf) & c.eq(cl.zlambda_cent[1], cz if not c.keepz else zl[1]))
        m = pc * lc[0] + (1 - pc) * lc[1]
        c.prove('mean richness', c.eq(cl.lambda_c, m))
        v = pc * lc[0]**2 + (1 - pc) * lc[1]**2 - m**2
        c.prove('richness scatter', c.eq(cl.lambda_ce * cl.lambda_ce, c.np.maximum(v, 0.0), 1e-4))
    else:
        c.prove('one centre', c.all([c.eq(cl.lambda_c, lam), c.eq(cl.lambda_ce, 0.0)]))
    use = [j for j in (3, 4)] + [1 + q for q in range(2) if mem[q] and q != 0]
    num = den = 0
    for j in use:
        rr = nb.r[j]
        l = 10.**((cl.mstar - (17.0 + 0.25 * j)) / 2.5) if c.lum else 1.0
        pj = p[1] if j == 2 else 0.5
        num = num + pj * l / c.np.sqrt(rr * rr + 0.0625**2)
        den = den + pj * l / rl
    c.prove('connectivity', c.eq(c.np.exp(cl.w) * den, num))
    c.cover('end')


def surroundings(c):
    """what a cluster is measured with: its galaxies down to the luminosity limit, the depth around it, and the mask it is given"""
    N = 2
    mag = c.reals('mag', N, 16, 22)
    lml = c.index('lml', 1, 2)
    lim = c.reals('lim', 3, 2, 24)
    et = c.reals('et', 3, 0, 8)
    c.assume(lim[1] <= lim[0], lim[0] <= lim[2], et[2] <= et[1], et[1] <= et[0])
    mg = c.mod('catalog').Catalog(c.rec(3, MG, dict(r=[0.25, 0.5, 1.25], mark=[1] * 3, limmag=[5.0] * 3, exptime=[3.0] * 3)))
    log = []
    bl = c.real('bl', -1, 4)

    def process(r, k, cl):
        log.append(('process', cl.neighbors.size if r.read_gals else None))
        if r.read_gals:
            fill(c, cl, 20.0, 1.0, [0.5] * len(cl.neighbors))
        else:
            cl.Lambda, cl.r_lambda = 20.0, 1.0
        return False

    def local(self, mask, depth):
        log.append(('local', depth))
        return bl
    c.patch(c.mod('cluster').Cluster, 'compute_bkg_local', local)
    r = runner(c, 1, N, mag, [[1, 0]], process, mg=mg, zcl=[0.5], usemax=c.usemax, plusminus=not c.gals, use_memlum=not c.gals, memlum=0.5,
               corr=Obj(apply_correction=None) if not c.gals else None, match_centers=False)
    r.config.bkg_local_compute, r.config.bkg_local_use = c.local[0], c.local[1]
    setup = r._setup

    def maskdepth(g, *a):
        log.append(('depth', a))
        g.limmag[:] = lim
        g.exptime[:] = et
    src = Obj(calc_maskdepth=maskdepth)

    def more():
        setup()
        r.limlum = 0.25 / float(lml)
        r.do_correct_zlambda = not c.gals
        r.depthlim = src
        r.depthstr = None if c.depth == 'fit' else src
        r.mask.set_radmask = lambda cl: log.append(('mask', cl.redshift))
        return True
    r._setup = more
    r.read_gals = c.gals
    r.run()
    cut = 18.0 - 2.5 * math.log10(0.25 / float(lml))
    keep = [g for g in (1, 0) if not c.usemax or bool(mag[g] <= cut)]
    if c.gals:
        scale = math.radians(1.) * Cosmo().Da(0, 0.5)
        c.prove('searched to the largest radius', len(r._order) == 1 and r._order[0][0] == 0 and abs(float(r._order[0][1]) * scale - 4.0) < 1e-6)
        if not keep:
            c.prove('nothing measured without galaxies', not log and c.eq(r.cat.Lambda[0], -1.0) & c.eq(r.cat.z_lambda[0], -1.0))
            c.cover('none')
            return
    kinds = [x[0] for x in log]
    c.prove('depth, mask, then the measurement', kinds[:3] in (['depth', 'mask', 'process'], ['mask', 'depth', 'process']))
    rest = dict(log)
    if c.gals:
        c.prove('galaxies', rest['process'] == len(keep))
    a = rest['depth']
    if c.depth == 'fit':
        c.prove('depth of its galaxies', len(a) == 2 and c.eqs(list(a[0]), [mag[g] for g in keep]) & c.eqs(list(a[1]), [0.125] * len(keep)))
    else:
        c.prove('depth of its position', len(a) == 3 and c.eqs([a[0], a[1], a[2]], [0.0, 0.0, math.radians(1.) * Cosmo().Da(0, 0.5)]))
    srt = lambda v: c.np.sort(c.np.array(v))[1]
    c.prove('limits recorded', c.eq(r.cat.lim_limmag[0], srt(lim)) & c.eq(r.cat.lim_exptime[0], srt(et)) & c.eq(r.cat.lim_limmag_hard[0], 22.0))
    want = c.gals and c.local[0] and not c.local[1]
    c.prove('local background when asked for', ('local' in rest) == want and (not want or rest['local'] is src))
    if want:
        c.prove('local background recorded', c.eq(r.cat.bkg_local[0], bl))
    if not c.gals:
        c.prove('nothing done with galaxies', r.members is None and not r._order and c.eq(r.cat.Lambda[0], 20.0) & c.eq(r.cat.dlambda_dz[0], 0.0))
    c.cover('end')


PROPS = {
    'P06': dict(level='model_checking',
                functions=['cluster_runner.ClusterRunner.run', 'run_colormem.RunColormem._doublerun_sort'],
                bounds='<= 3 clusters over <= 2 galaxies per history, any accept/reject pattern',
                assumptions=['the per-cluster estimator, the position matcher, the footprint mask and the depth map are stand-ins returning arbitrary values'],
                instances=[('history', dict(K=2, matches=[[0, 1], [1, 0]], covers=['end'])), ('history', dict(K=3, matches=[[0], [0], [0]])),
                           ('history', dict(K=3, matches=[[1, 0], [1], [0, 1]])),
                           ('double', dict(K=2, covers=['end'])), ('double', dict(K=3), 'thorough'),
                           ('seeds', dict(n=2, keepz=False, keepid=False, clean=False, nan=False, covers=['end', 'none'])),
                           ('seeds', dict(n=2, keepz=True, keepid=True, clean=False, nan=False)),
                           ('seeds', dict(n=2, keepz=False, keepid=False, clean=True, nan=False)),
                           ('seeds', dict(n=3, keepz=False, keepid=False, clean=False, nan=True)),
                           ('masksel', dict(N=1, perm=[0], covers=['end'])), ('masksel', dict(N=2, perm=[1])), ('masksel', dict(N=2, perm=[1, 0]))]),
    'P07': dict(level='model_checking',
                functions=['cluster_runner.ClusterRunner.run', 'cluster_runner.ClusterRunner._postprocess', 'cluster_runner.ClusterRunner._generate_mem_match_ids'],
                bounds='<= 2 clusters x 2 member galaxies, <= 2 mask points, <= 3 seeds',
                assumptions=['the per-cluster estimator, the position matcher, the footprint mask and the depth map are stand-ins returning arbitrary values'],
                instances=[('members', dict(K=1, mode='pmem', covers=['end'])), ('members', dict(K=1, mode='rad')), ('members', dict(K=1, mode='lum')),
                           ('members', dict(K=2, mode='pmem')), ('members', dict(K=3, N=1, mode='pmem')),
                           ('maskfrac', dict(n=2, covers=['end', 'skipped'])),
                           ('deriv', dict(corr=False, do_pz=False, covers=['end'])), ('deriv', dict(corr=True, do_pz=False)), ('deriv', dict(corr=True, do_pz=True)),
                           ('centers', dict(i0=[0, 1, 2], i1=[2, 0, 1], zreds=True)), ('centers', dict(i0=[2, 0], i1=[0, 1], zreds=True)),
                           ('centers', dict(i0=[1], i1=[2], zreds=True)), ('centers', dict(i0=[1, 2], i1=[0, 0], zreds=False)),
                           ('surroundings', dict(usemax=True, gals=True, depth='map', local=[True, False], covers=['end', 'none'])),
                           ('surroundings', dict(usemax=True, gals=True, depth='fit', local=[False, False])),
                           ('surroundings', dict(usemax=False, gals=True, depth='fit', local=[True, False])),
                           ('surroundings', dict(usemax=True, gals=True, depth='map', local=[True, True])),
                           ('surroundings', dict(usemax=True, gals=False, depth='map', local=[True, False])),
                           ('ids', dict(n=1)), ('ids', dict(n=3, covers=['gen', 'kept', 'refused']))]),
    'P08': dict(level='model_checking',
                functions=['run_percolation.RunPercolation._process_cluster', 'cluster.Cluster.update_neighbors_dist', 'cluster.Cluster.copy'],
                bounds='5 neighbours at fixed positions, <= 2 iterations, <= 3 centre candidates',
                assumptions=['richness, redshift and centre estimators are stand-ins returning arbitrary values (they are P03, P12 and P09)'],
                instances=[('process', dict(niter=1, lum=False, keepz=False, ngood=1, empty=False, covers=['end', 'no centre', 'no final redshift', 'no redshift',
                                                                                                         'seed already taken', 'too poor', 'too poor at the new centre'])),
                           ('process', dict(niter=1, lum=False, keepz=True, ngood=3, empty=False)), ('process', dict(niter=1, lum=True, keepz=True, ngood=1, empty=False)),
                           ('process', dict(niter=1, lum=False, keepz=True, ngood=2, empty=True, covers=['no members'])),
                           ('process', dict(niter=1, lum=False, keepz=True, ngood=1, empty=False, off=True, covers=['off'])), ('process', dict(niter=1, lum=False, keepz=True, ngood=2, empty=False, fit=True)),
                           ('process', dict(niter=2, lum=False, keepz=False, ngood=2, empty=False))]),
}
