"""The calibration driver: which step uses what, and what an interruption leaves behind."""
import os as _os
import numpy
from .common import Obj, silent_logger, same


class Crash(Exception):
    pass


class Files(object):
    """files as numbers standing for what went into them; an interruption comes before one of the writes"""
    def __init__(self, ids):
        self.ids, self.f, self.left, self.writes, self.log = ids, {}, None, 0, []

    def number(self, what):
        return self.ids.setdefault(what, len(self.ids))

    def write(self, name, what, ext=None):
        if self.left is not None:
            if self.left == 0:
                raise Crash()
            self.left -= 1
        name = same(self.f, name)
        self.writes += 1
        self.log.append(name if ext is None else name + ':' + ext)
        if ext is None:
            self.f[name] = self.number(what)
        else:
            d = dict(self.f.get(name, {}))
            d[ext] = self.number(what)
            self.f[name] = d

    def read(self, name):
        if name is None:
            return None
        name = same(self.f, name)
        if name not in self.f:
            raise IOError('missing %s' % name)
        v = self.f[name]
        return tuple(sorted(v.items())) if isinstance(v, dict) else v


class D(object):
    pass


def config(c, F, fs, **k):
    """a configuration as the user wrote it"""
    d = dict(galfile='/data/gal_master_table.fit', specfile='/data/spec.fit', specfile_train='/data/train.fit', outbase='tst_cal', outpath='/work/cal', plotpath='plots', version='1', galfile_pixelized=True, calib_pcut=0.3, calib_colormem_minlambda=10,
             calib_minlambda=5.0, calib_niter=2, percolation_minlambda=3.0, calib_zlambda_minlambda=20.0, calib_make_full_bkg=True, firstpass_centerclass='First', centerclass='Usual', zlambda_pivot=30.0, area=None, galfile_area=100.0, nside=0, hpix=[], border=0.0,
             redgalfile=None, redgalmodelfile=None, bkgfile_color=None, maskgalfile='maskgals.fit', zmemfile=None, seedfile=None, catfile=None, parfile=None, zredfile=None, bkgfile=None, zlambdafile=None, wcenfile=None, wcen=None, logger=silent_logger())
    d.update(k)
    cfg = Obj(**d)
    cfg.d = D()
    cfg.d.outbase, cfg.d.hpix, cfg.d.nside = cfg.outbase, cfg.hpix, cfg.nside
    cfg.redmapper_filename = lambda *a, **q: F.Configuration.redmapper_filename(cfg, *a, **q)

    def wcen():
        if cfg.wcenfile is not None and cfg.wcenfile in fs.f:
            cfg.wcen = fs.read(cfg.wcenfile)
    cfg.set_wcen_vals = wcen
    skip = ('logger', 'd')

    def yml(f):
        fs.write(f, tuple(sorted((a, repr(b)) for a, b in cfg.__dict__.items() if a not in skip and not callable(b))))
        fs.yaml = dict((a, b) for a, b in cfg.__dict__.items() if a not in skip and not callable(b))
    cfg.output_yaml = yml
    return cfg


def stages(c, M, fs, trace):
    """every step as: what it reads -> what it writes"""
    N = fs.number
    R = fs.read

    def step(name, *what):
        trace.append((name,) + what)
        return (name,) + what

    def cls(run):
        class Step(object):
            def __init__(self, config, *a, **k):
                self.config, self.a, self.k = config, a, k

            def run(self, *a, **k):
                return run(self, *a, **k)
        return Step

    def selred(s):
        g = s.config
        what = step('red', R(g.galfile), R(g.specfile_train))
        fs.write(g.redgalmodelfile, what + ('model',))
        fs.write(g.redgalfile, what)

    def colbkg(s):
        fs.write(s.config.bkgfile_color, step('colbkg', R(s.config.galfile), tuple(s.config.d.hpix), s.config.d.nside))

    def seeds(s, usetrain=True):
        g = s.config
        fs.write(g.seedfile, step('seeds', R(g.specfile_train if usetrain else g.specfile), fs.f.get(g.zredfile)))

    def redseq(s):
        fs.write(s.config.parfile, step('redseq', s.config.parfile, R(s.a[0]), R(s.config.bkgfile_color)))

    def zpix(s):
        g = s.config
        fs.write(g.zredfile, step('zreds', g.zredfile, R(g.parfile), tuple(g.d.hpix), g.d.nside))

    def zcat(s, src, dst):
        fs.write(dst, step('zredcat', dst, R(src), R(s.config.parfile)))

    def bkg(s, deepmode=False):
        g = s.config
        fs.write(g.bkgfile, step('bkg', g.bkgfile, R(g.galfile), R(g.parfile), tuple(g.d.hpix), g.d.nside, deepmode, repr(g.area) if deepmode else None), ext='CHISQBKG')

    def zbkg(s):
        g = s.config
        fs.write(g.bkgfile, step('zbkg', R(g.zredfile), R(g.parfile), tuple(g.d.hpix), g.d.nside), ext='ZREDBKG')

    def prep(s, mode):
        fs.write(s.config.zmemfile, step('members', s.config.zmemfile, mode, R(s.config.catfile), R(s.config.catfile[:-4] + '_members.fit')))

    def finder(s, specmode=False, seedfile=None, check=True, percolation_only=False, consolidate_like=False, keepz=False, cleaninput=False, consolidate=True):
        g = s.config
        src = R(g.catfile) if percolation_only else R(seedfile)
        if not isinstance(src, int):
            raise IOError('no input catalogue')
        what = step('finder', g.d.outbase, src, R(g.parfile), R(g.bkgfile), R(g.zredfile), R(g.zlambdafile), g.wcen, g.centerclass, R(g.maskgalfile), specmode, percolation_only, keepz, cleaninput, tuple(g.d.hpix), g.d.nside)
        if consolidate_like:
            fs.write(g.redmapper_filename('like'), what + ('like',))
        fs.write(g.redmapper_filename('final_members'), what + ('members',))
        fs.write(g.redmapper_filename('final'), what)
        return (g.redmapper_filename('final'), g.redmapper_filename('like')) if consolidate_like else g.redmapper_filename('final')

    def wcen(s):
        g = s.config
        what = step('wcen', s.a[0], R(s.k.get('randcatfile')), R(s.k.get('randsatcatfile')), R(g.catfile), R(g.parfile), R(g.bkgfile), g.wcen)
        fs.write(g.wcenfile, what)
        g.wcen = 'interim'

    def zlam(s):
        fs.write(s.config.zlambdafile, step('zlambda', R(s.config.catfile), s.k.get('corrslope')))

    class Plot(object):
        def __init__(self, config):
            self.config = config
            self.filename = config.redmapper_filename('zspec', paths=(config.plotpath,), filetype='png')

        def plot_values(self, z, zl, zle, title=''):
            fs.write(self.filename, ('plot', title, zl[0] if len(zl) else None))

    class Colormem(object):
        def __init__(self, config):
            self.config = config

        def run(self):
            g = self.config
            self.what = step('colormem', R(g.redgalfile), R(g.redgalmodelfile), R(g.bkgfile_color), R(g.maskgalfile), tuple(g.d.hpix), g.d.nside)

        def output_training(self):
            fs.write(self.config.zmemfile, self.what)

    class Cat(object):
        """one catalogue: its rows are not followed"""
        def __init__(self, n, rows=None):
            self.__dict__['n'] = n
            self.__dict__['add'] = []

        def __getattr__(self, a):
            if a.startswith('_'):
                raise AttributeError(a)
            return numpy.array([10.0, 20.0, 30.0])

        def __setattr__(self, a, v):
            self.add.append(a)

        def __getitem__(self, k):
            if isinstance(k, (int, numpy.integer)):
                if k > 2:
                    raise IndexError(k)
                return Obj(Lambda=30.0, z_lambda=0.5, z_lambda_e=0.01)
            return self

        def match_many(self, ra, dec, r, maxmatch=0):
            return numpy.array([0]), numpy.array([0]), numpy.array([0.0])

        def to_fits_file(self, f, indices=None, **k):
            fs.write(f, ('cat', self.n, tuple(sorted(self.add)), tuple(last)))
    last = []

    def from_file(f, ext=1, **k):
        last.append(R(f))
        del last[:-2]
        return Cat(R(f))
    c.patch(M, 'Catalog', Obj(from_fits_file=from_file))
    c.patch(M, 'GalaxyCatalog', Obj(from_fits_file=from_file))
    c.patch(M, 'ZlambdaCorrectionPar', lambda parfile=None, **k: (R(parfile), Obj(apply_correction=lambda l, z, e: (z, e)))[1])
    c.patch(M, 'get_mask', lambda g, **k: Obj(gen_maskgals=lambda f: fs.write(f, step('maskgals'))))

    class Fits(object):
        def __init__(self, f):
            self.f = f

        def __enter__(self):
            e = [Obj(get_extname=lambda x=x: x) for x in sorted(fs.f[self.f])]
            return [None] + e

        def __exit__(self, *a):
            return False
    c.patch(M, 'fitsio', Obj(FITS=Fits))
    P = _os.path
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: f in fs.f, isdir=lambda d: False, join=P.join, abspath=lambda p: P.normpath(P.join('/work', p)), normpath=P.normpath, basename=P.basename, dirname=P.dirname), makedirs=lambda *a, **k: None, pardir='..'))
    for name, run in (('SelectSpecRedGalaxies', selred), ('ColorBackgroundGenerator', colbkg), ('SelectSpecSeeds', seeds), ('RedSequenceCalibrator', redseq), ('ZredRunPixels', zpix), ('ZredRunCatalog', zcat), ('BackgroundGenerator', bkg), ('ZredBackgroundGenerator', zbkg),
                      ('PrepMembers', prep), ('RedmapperRun', finder), ('WcenCalibrator', wcen), ('ZLambdaCalibrator', zlam)):
        c.patch(M, name, cls(run))
    c.patch(M, 'SpecPlot', Plot)
    c.patch(M, 'RunColormem', Colormem)


def driver(c):
    """a whole calibration, with an interruption anywhere and a second start"""
    M, F = c.mod('calibration.calibrate'), c.mod('configuration')
    niter, pix, sub, full = c.niter, c.pix, c.sub, c.params.get('full', True)
    opts = dict(calib_niter=niter, galfile_pixelized=pix, calib_make_full_bkg=full, centerclass=c.params.get('centre', 'Usual'), outpath=c.params.get('outpath', '/work/cal'), outbase=c.params.get('outbase', 'tst_cal'))
    if sub:
        opts.update(nside=4, hpix=[17], border=0.5, area=c.params.get('area'))
    ids = {}

    def start(fs, trace):
        stages(c, M, fs, trace)
        cal = M.RedmapperCalibrator.__new__(M.RedmapperCalibrator)
        cal.config = config(c, F, fs, **opts)
        cal.run()
        return cal

    def fresh():
        fs = Files(ids)
        for f in ('/data/gal_master_table.fit', '/data/spec.fit', '/data/train.fit'):
            fs.f[f] = fs.number(('given', f))
        return fs
    ref, t0 = fresh(), []
    cal = start(ref, t0)
    W = ref.writes
    if c.params.get('part') != 'crash':
        check_flow(c, cal, ref, t0, opts, niter, pix, sub, full)
        return
    k = c.index('interrupted', 0, W - 1)
    fs, t1 = fresh(), []
    fs.left = k
    try:
        start(fs, t1)
        c.prove('interrupted', False)
    except Crash:
        pass
    fs.left = None
    before = dict(fs.f)
    fs.log = []
    start(fs, [])
    c.prove('same files as an undisturbed calibration', fs.f == ref.f)
    # completed work is kept: nothing that was there is written again, except what the interrupted step itself writes and the configuration
    again = [f for f in fs.log if f in before and not f.endswith('_members.fit') and not f.endswith('_like.fit') and not f.endswith('_model.fit') and not f.endswith('_specseeds_zreds.fit') and not f.endswith('.yml')]
    c.prove('no completed step is repeated', not again)
    c.cover('resumed')


def check_flow(c, cal, fs, tr, opts, niter, pix, sub, full):
    o, b = opts['outpath'], opts['outbase']
    fn = lambda s, i='', **k: '%s/%s%s_%s.fit' % (o, b, i, s)
    steps = lambda n: [t for t in tr if t[0] == n]
    hp, ns = ((17,), 4) if sub else ((), 0)
    one = lambda f: fs.f[f]
    # the order and the inputs of the preparation
    c.prove('preparation', [t[0] for t in tr[:5]] == ['red', 'colbkg', 'maskgals', 'colormem', 'seeds'] and steps('seeds')[0][1:] == (one('/data/train.fit'), None) and
            steps('colormem')[0][1:] == (one(fn('zspec_redgals')), one(fn('zspec_redgals_model')), one(fn('bkg_color')), one(fn('maskgals')), hp, ns))
    mem0 = fn('iter0_colormem_pgt0.30_lamgt10')
    runs = steps('finder')
    for i in range(1, niter + 1):
        it = '_iter%d' % i
        zred = '%s/%s%s/%s%s_zreds_master_table.fit' % (o, b, it, b, it) if pix else fn('zreds', it)
        c.prove('red sequence from the latest members', (('redseq', fn('pars', it)) + (one(mem0 if i == 1 else fn('zmem_pgt0.30_lamgt05', '_iter%d' % (i - 1))), one(fn('bkg_color')))) in tr)
        c.prove('redshifts of all galaxies with this red sequence', ((('zreds', zred, one(fn('pars', it)), hp, ns)) if pix else ('zredcat', zred, one('/data/gal_master_table.fit'), one(fn('pars', it)))) in tr)
        c.prove('backgrounds with this red sequence', ('bkg', fn('bkg', it), one('/data/gal_master_table.fit'), one(fn('pars', it)), hp, ns, False, None) in tr and ('zbkg', one(zred), one(fn('pars', it)), hp, ns) in tr)
        seed = fn('specseeds_train') if i == 1 else fn('cut_specseeds')
        c.prove('seeds with redshifts of this red sequence', ('zredcat', fn('specseeds_zreds', it), one(seed), one(fn('pars', it))) in tr and
                one(fn('specseeds', it)) == fs.ids[('cat', one(seed), ('zred', 'zred_chisq', 'zred_e'), (one(seed), one(fn('specseeds_zreds', it))))])
        wc = None if i == 1 else one(fn('wcen', '_iter%d' % (i - 1)))
        bk = fs.read(fn('bkg', it))
        rest = (one(fn('pars', it)), bk, one(zred), None)
        spec = ('finder', b + it, one(fn('specseeds', it))) + rest + (wc, 'First' if i == 1 else 'CenteringWcenZred', one(fn('maskgals')), True, False, True, True, hp, ns)
        c.prove('finder on spectroscopic seeds', runs.count(spec) == 1)
        ra = rs = None
        if i == 1:
            like, fin = one(fn('like', it)), one(fn('final', it))
            sub_ = one(fn('sub_like', it))
            c.prove('likelihoods of the found clusters', sub_ == fs.ids.get(('cat', like, (), (like, fin))))
            for tag, cen in (('_rand', 'CenteringRandom'), ('_randsat', 'CenteringRandomSatellite')):
                c.prove('random centres', runs.count(('finder', b + it + tag, sub_) + rest + (wc, cen, one(fn('maskgals')), False, True, True, True, hp, ns)) == 1)
            ra, rs = one(fn('final', it + '_rand')), one(fn('final', it + '_randsat'))
            c.prove('seeds of found clusters', one(fn('cut_specseeds')) == fs.ids.get(('cat', one(fn('specseeds_train')), (), (one(fn('specseeds_train')), one(fn('final', it))))))
        c.prove('centring from this run', ('wcen', i, ra, rs, one(fn('final', it)), one(fn('pars', it)), bk, wc) in tr)
        c.prove('cluster redshifts from this run', ('zlambda', one(fn('final', it)), False) in tr)
        c.prove('members of this run', ('members', fn('zmem_pgt0.30_lamgt05', it), 'z_init', one(fn('final', it)), one(fn('final_members', it))) in tr)
    it = '_iter%d' % niter
    c.prove('full seeds', steps('seeds')[1][1:] == (one('/data/spec.fit'), one(zred)) and len(steps('seeds')) == 2)
    fin = ('finder', b + it + 'b', one(fn('specseeds', it + 'b')), one(fn('pars', it)), bk, one(zred), one(fn('zlambda', it)), one(fn('wcen', it)), opts['centerclass'], one(fn('maskgals')), False, False, False, True, hp, ns)
    c.prove('final run with everything calibrated', runs.count(fin) == 1 and runs[-1] == fin and len(runs) == niter + 3)
    # the configuration for the finder
    y = fs.yaml
    base = _os.path.basename(o)
    rp = _os.path.dirname(o) + '/' + {'cal': 'run', 'cal_x': 'run_x', 'x_cal': 'x_run', 'other': 'other_run'}[base]
    rb = b.replace('_cal', '_run') if '_cal' in b else b + '_run'
    c.prove('run configuration', rp + '/run_default.yml' in fs.f and y['outbase'] == rb and y['parfile'] == fn('pars', it) and y['zlambdafile'] == fn('zlambda', it) and y['wcenfile'] == fn('wcen', it) and y['bkgfile_color'] == fn('bkg_color') and
            y['maskgalfile'] == fn('maskgals') and y['redgalfile'] == fn('zspec_redgals') and y['redgalmodelfile'] == fn('zspec_redgals_model') and y['catfile'] is None and y['seedfile'] is None and y['zmemfile'] is None)
    c.prove('run configuration covers the whole survey', y['nside'] == 0 and list(y['hpix']) == [] and y['border'] == 0.0 and y['area'] is None and y['centerclass'] == opts['centerclass'])
    c.prove('calibration products exist', all(y[k] in fs.f for k in ('parfile', 'zlambdafile', 'wcenfile', 'bkgfile_color', 'maskgalfile', 'redgalfile', 'redgalmodelfile', 'galfile', 'specfile', 'bkgfile')))
    deep = [t for t in tr if t[0] == 'bkg' and t[6]]
    if not sub:
        c.prove('background and redshifts of the calibration', y['bkgfile'] == fn('bkg', it) and (not pix or y['zredfile'] == zred) and (not pix or y['zredfile'] in fs.f) and not deep)
    elif full:
        c.prove('background of the whole survey', y['bkgfile'] == '%s/%s_bkg.fit' % (rp, rb) and y['zredfile'] == rp + '/zreds/gal_zreds_master_table.fit' and
                deep == [('bkg', '%s/%s_bkg.fit' % (rp, rb), one('/data/gal_master_table.fit'), one(fn('pars', it)), (), 0, True, '100.0')])
    else:
        c.prove('background of the calibration', y['bkgfile'] == fn('bkg', it) and not deep and y['zredfile'] == rp + '/zreds/gal_zreds_master_table.fit')
    c.cover('flow')


def catalogue(c):
    """the cluster catalogue of a run, whose presence marks the run as complete, is the last of its files"""
    from .p_consolidate import inputs, io
    M = c.mod('redmapper_run')
    st, names, cl = inputs(c, None, c.pick, '/nonexistent/x_4_%05d_final.fit', True)
    io(c, st, M)
    left = []
    log = []
    put = c.mod('catalog').DataObject.to_fits_file

    def write(self, f, *a, **k):
        if left and left[0] == len(log):
            raise Crash()
        log.append(f)
        return put(self, f, *a, **k)
    c.patch(c.mod('catalog').DataObject, 'to_fits_file', write)
    c.patch(M.fitsio, 'read_header', lambda f, ext=1: dict(NAXIS2=len(st.f[f])))
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: f in st.f)))
    r = object.__new__(M.RedmapperRun)
    r.config = Obj(d=Obj(nside=4), max_maskfrac=0.25, percolation_minlambda=10.0, redmapper_filename=lambda t, **k: '/nonexistent/out_' + t + '.fit', logger=silent_logger())
    good = [x for x in cl if x.p == x.q and bool(x.mf < 0.25) and bool(x.lam / x.sc > 10.0)]
    if not good:
        return
    out, mem = '/nonexistent/out_final.fit', '/nonexistent/out_final_members.fit'
    go = lambda: r._consolidate(list(range(len(names))), names, 'final', members=True, check=True)
    left.append(c.index('interrupted', 0, 1))
    c.prove('interrupted', c.raises(go, Crash) is not None)
    c.prove('no catalogue without its members', out not in st.f or mem in st.f)
    left[:] = []
    c.prove('second start', go() == out and out in st.f and mem in st.f)
    n = len(log)
    c.prove('complete runs are left alone', go() == out and len(log) == n)
    c.cover('resumed')


def redsequence(c):
    """the parameter file appears with the corrections in it; redshifts are those of the parameters they are to be corrected for, or are corrected with"""
    M = c.mod('calibration.redsequencecal')
    G = c.mod('galaxy')
    pcol = c.params.get('pcol', False)
    n = c.n
    z = c.reals('z', n, 0.125, 0.875)
    p = c.reals('p', n, 0.0, 1.0)
    zr = [0.25, 0.75]
    files, log, left = {}, [], []

    def tick():
        if left and left[0] == len(log):
            raise Crash()
        log.append(1)
    cat = c.rec(n, [('id', 'i8'), ('z', 'f8'), ('p', 'f8'), ('pcol', 'f8')], dict(id=list(range(n)), z=list(z), p=[0.99] * n if pcol else list(p), pcol=list(p) if pcol else [0.99] * n))
    c.patch(M, 'GalaxyCatalog', Obj(from_galfile=lambda f, **k: G.GalaxyCatalog(cat.copy())))
    used = [i for i in range(n) if bool((z[i] > 0.25) & (z[i] < 0.75) & (p[i] > 0.5))]
    tight = [i for i in used if bool(p[i] > 0.75)]
    seen = []
    ids = lambda g: [int(x) for x in g.id]

    def put(name, state):
        tick()
        files[name] = state

    class Par(object):
        def __init__(self, f, config=None, **k):
            self.state = None if f is None else files[f]
    c.patch(M, 'RedSequenceColorPar', Par)
    c.patch(M, 'ColorBackground', lambda f: ('bkg', f))

    class Zred(object):
        def __init__(self, par, do_correction=True, **k):
            self.par, self.do = par, do_correction

        def compute_zreds(self, g):
            seen.append(('zreds', self.par.state, self.do, ids(g)))
    c.patch(M, 'ZredColor', Zred)
    R = M.RedSequenceCalibrator
    done = []

    def step(name):
        def f(self, *a, **k):
            seen.append((name, tuple(k.items()), ids(a[0]) if a and hasattr(a[0], 'id') else None))
            done.append(name + ('2' if k.get('mode2') else ''))
        return f
    for s in ('_calc_pivotmags', '_calc_medcols', '_calc_diagonal_pars', '_calc_offdiagonal_pars', '_calc_volume_factor', '_calc_corrections', '_make_diagnostic_plots'):
        c.patch(R, s, step(s))
    c.patch(R, 'save_pars', lambda self, f, clobber=False: put(f, tuple(done)))
    c.patch(G.GalaxyCatalog, 'add_zred_fields', lambda self, *a, **k: None)
    c.patch(c.mod('catalog').DataObject, 'to_fits_file', lambda self, f, **k: put(f, ('gals', ids(self))))
    P = _os.path

    def rm(f):
        tick()
        del files[f]

    def mv(a, b):
        tick()
        files[b] = files.pop(a)
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: f in files, join=P.join, basename=P.basename, dirname=P.dirname, splitext=P.splitext), remove=rm, unlink=rm, rename=mv, replace=mv, getpid=lambda: 1))
    cfg = Obj(calib_use_pcol=pcol, zrange=zr, calib_pcut=0.5, calib_color_pcut=0.75, nmag=3, calib_pivotmag_nodesize=0.25, calib_covmat_nodesize=0.25, calib_corr_nodesize=0.125, calib_corr_slope_nodesize=0.25, calib_color_nodesizes=[0.125, 0.25], calib_slope_nodesizes=[0.25, 0.25],
              calib_color_maxnodes=[-1.0, 0.5], calib_err_ratio_pivot=0.5, bkgfile_color='B', b=numpy.array([0.0, 0.0, 0.0]), parfile='/w/pars.fit', outpath='/w', zred_nsamp=4, centering_use_zspec=False, logger=silent_logger())

    def start():
        done[:], seen[:] = [], []
        s = R.__new__(R)
        s.config, s._galfile = cfg, '/w/x_mem.fit'
        s.run()
        return s
    if not used:
        c.prove('no galaxies', c.raises(start, RuntimeError) is not None and not files)
        c.cover('none')
        return
    if c.params.get('crash'):
        start()
        ref, total = dict(files), len(log)
        files.clear()
        log[:] = []
        left.append(c.index('interrupted', 0, total - 1))
        c.prove('interrupted', c.raises(start, Crash) is not None)
        c.prove('complete parameters only', files.get('/w/pars.fit', ref['/w/pars.fit']) == ref['/w/pars.fit'])
        left[:] = []
        if '/w/pars.fit' not in files:
            start()
        c.prove('same parameters', files['/w/pars.fit'] == ref['/w/pars.fit'])
        c.cover('resumed')
        return
    s = start()
    fin = files['/w/pars.fit']
    c.prove('complete', set(fin) == set(['_calc_pivotmags', '_calc_medcols', '_calc_diagonal_pars', '_calc_offdiagonal_pars', '_calc_volume_factor', '_calc_corrections', '_calc_corrections2']))
    zs = [x for x in seen if x[0] == 'zreds']
    c.prove('redshifts before and after the corrections', len(zs) == 2 and zs[0][2] is False and zs[1][2] is True and zs[1][1] == fin and not any('corr' in x for x in zs[0][1]) and '_calc_offdiagonal_pars' in zs[0][1] and '_calc_volume_factor' in zs[0][1])
    order = [x[0] for x in seen]
    c.prove('corrections from uncorrected redshifts', order.index('_calc_corrections') > order.index('zreds'))
    for x in seen:
        if x[0] in ('_calc_pivotmags', '_calc_medcols'):
            c.prove('colours from the likely members', x[2] == tight)
        elif x[0] in ('_calc_diagonal_pars', '_calc_offdiagonal_pars', '_calc_corrections'):
            c.prove('fits use all members', x[2] == used)
        elif x[0] == 'zreds':
            c.prove('redshifts of all members', x[3] == used)
    nod = [0.25, 0.5, 0.75]
    near = lambda a, b: len(a) == len(b) and all(abs(float(u) - v) < 1e-6 for u, v in zip(a, b))
    q = s.pars
    c.prove('nodes', near(q.pivotmag_z, nod) and near(q.covmat_z, nod) and near(q.corr_z, [0.25, 0.375, 0.5, 0.625, 0.75]) and near(q.corr_slope_z, nod) and near(q.z00, [0.25, 0.375, 0.5, 0.625, 0.75]) and near(q.zs00, nod) and near(q.z01, nod) and near(q.zs01, nod) and
            abs(float(numpy.asarray(q.mag_err_ratio_pivot).reshape(-1)[0]) - 0.5) < 1e-9)
    c.prove('members with redshifts recorded', files.get('/w/x_mem_zreds.fit') == ('gals', used))
    c.cover('end')

def corrected(c):
    """the redshift correction of an iteration is applied to every cluster, and refused when it makes any redshift negative"""
    M, F = c.mod('calibration.calibrate'), c.mod('configuration')
    n = c.n
    fs = Files({})
    for f in ('/data/gal_master_table.fit', '/data/spec.fit', '/data/train.fit'):
        fs.f[f] = fs.number(('given', f))

    def start():
        cal = M.RedmapperCalibrator.__new__(M.RedmapperCalibrator)
        cal.config = config(c, F, fs, calib_niter=1, galfile_pixelized=True, calib_minlambda=5.0, calib_zlambda_minlambda=20.0)
        cal.run()
    stages(c, M, fs, [])
    start()
    plots = [f for f in fs.f if 'iter1_zspec' in f]
    c.prove('one diagnostic', len(plots) == 1)
    del fs.f[plots[0]]
    lam, z, e = c.reals('lam', n, 2.0, 40.0), c.reals('z', n, 0.125, 0.875), c.reals('e', n, 0.0078125, 0.03125)
    rec = c.rec(n, [('Lambda', 'f8'), ('z_lambda', 'f8'), ('z_lambda_e', 'f8'), ('z_spec_init', 'f8')], dict(Lambda=list(lam), z_lambda=list(z), z_lambda_e=list(e), z_spec_init=[0.1 + 0.1 * i for i in range(n)]))
    C = c.mod('catalog')

    class Cat(C.Catalog):
        from_fits_file = staticmethod(lambda f, **k: C.Catalog(rec.copy()))
    c.patch(M, 'Catalog', Cat)
    c.patch(M, 'ZlambdaCorrectionPar', lambda parfile=None, **k: Obj(apply_correction=lambda l, zz, ee: (zz - 0.25 - l / 256.0, ee * 2)))
    out = []
    P = M.SpecPlot

    class Plot(P):
        def plot_values(self, a, b, d, **k):
            out.append((list(a), list(b), list(d)))
    c.patch(M, 'SpecPlot', Plot)
    keep = [i for i in range(n) if bool(lam[i] > 5.0)]
    new = [z[i] - 0.25 - lam[i] / 256.0 for i in range(n)]
    if any(bool(new[i] < 0) for i in keep):
        c.prove('negative redshifts are refused', c.raises(start, RuntimeError) is not None and not out)
        c.cover('refused')
        return
    start()
    want = [i for i in keep if bool(lam[i] > 20.0)]
    c.prove('clusters above the threshold', len(out) == 1 and len(out[0][0]) == len(want))
    c.prove('corrected redshifts', c.all([c.eq(out[0][0][k], 0.1 + 0.1 * i) & c.eq(out[0][1][k], new[i]) & c.eq(out[0][2][k], e[i] * 2) for k, i in enumerate(want)]))
    c.cover('shown')



def colours(c):
    from .p_bkggen import colour
    colour(c)


PROPS = {
    'P27': dict(level='model_checking',
                functions=['calibration.calibrate.RedmapperCalibrator.run', 'calibration.calibrate.RedmapperCalibrator.output_configuration', 'calibration.calibrate.RedmapperCalibrationIteration.run', 'calibration.calibrate.RedmapperCalibrationIterationFinal.run',
                           'calibration.redsequencecal.RedSequenceCalibrator.run', 'redmapper_run.RedmapperRun._consolidate', 'color_background.ColorBackgroundGenerator.run', 'configuration.Configuration.redmapper_filename'],
                bounds='1-3 iterations; one interruption before any file is written, in the whole calibration (<= 64 places) or inside one step; <= 3 galaxies or clusters',
                assumptions=['in the whole-calibration runs each step is a stand-in that records which file contents it used', 'a single file (or the replacement of one) is written completely or not at all'],
                instances=[('driver', dict(niter=2, pix=True, sub=True, covers=['flow'])), ('driver', dict(niter=1, pix=True, sub=False, centre='Other')), ('driver', dict(niter=1, pix=False, sub=False, outpath='/work/x_cal')), ('driver', dict(niter=2, pix=True, sub=True, full=False, outpath='/work/other', outbase='b')),
                           ('driver', dict(niter=3, pix=True, sub=False, outpath='/work/cal_x')), ('driver', dict(niter=2, pix=True, sub=True, area=3.5)),
                           ('driver', dict(niter=2, pix=True, sub=True, part='crash', covers=['resumed'])), ('driver', dict(niter=1, pix=True, sub=False, part='crash')), ('driver', dict(niter=1, pix=False, sub=False, part='crash')), ('driver', dict(niter=3, pix=True, sub=True, part='crash'), 'thorough'),
                           ('catalogue', dict(pick=[[0, 1], [1]], covers=['resumed'])), ('catalogue', dict(pick=[[0]])),
                           ('redsequence', dict(n=2, covers=['end', 'none'])), ('redsequence', dict(n=2, pcol=True)), ('redsequence', dict(n=3), 'thorough'), ('redsequence', dict(n=1, crash=True, covers=['resumed'])),
                           ('corrected', dict(n=1, covers=['refused', 'shown'])), ('corrected', dict(n=2)),
                           ('colours', dict(crash=True, covers=['resumed'])), ('colours', dict(crash=True, ncol=3))]),
}
