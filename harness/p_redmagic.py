"""redMaGiC: the calibration of the selection, and the run over the survey."""
import math
import os as _os
import numpy
from .common import Obj, silent_logger
from .p_training import Line

FULL = 41252.961


def near(c, a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and c.all([c.eq(x, y) for x, y in zip(a, b)])


def lin(n, v, x):
    return v[0] + (v[-1] - v[0]) * (x - n[0]) / (n[-1] - n[0])


def clip(x, lo, hi):
    return lo if bool(x < lo) else (hi if bool(x > hi) else x)


Z = [0.375, 0.625, 0.5]


def sample(c, n):
    """what the fit gets: the first galaxy is arbitrary"""
    v = Obj(z=Z[:n], ze=[0.03125 * (i + 1) for i in range(n)], zcal=[0.34375 + 0.25 * i for i in range(n)], mstar=[18.0 + z for z in Z[:n]])
    v.chisq = [c.real('chisq', 0, 30)] + [3.0, 6.0][:n - 1]
    v.refmag = [c.real('refmag', 16, 21)] + [17.0, 18.5][:n - 1]
    v.samp = [c.real('samp', 0, 1)] + [0.53125, 0.40625][:n - 1]
    return v


def fitter(c, v, zmax, **k):
    M = c.mod('redmagic.redmagic_calibrate')
    c.patch(M, 'CubicSpline', Line)
    A = lambda x: c.np.array(list(x))
    cfg = dict(maxchi=20.0, ab_use=None)
    cfg.update(k)
    f = M.RedmagicParameterFitter(numpy.array([0.25, 0.75]), numpy.array([0.25, 0.5, 0.75]), A(v.z), A(v.ze), A(v.chisq), A(v.mstar), A(v.zcal), A(v.ze), A(v.refmag), A(v.samp), zmax, 0.5, 5.0, numpy.array([4096.0, 8192.0]), [0.25, 0.75], 0.25,
                                  Obj(mstar=lambda q: 18.0 + q), **cfg)
    return M, f


def limits(c, n):
    if c.params.get('single'):
        x = c.real('zmax', 0, 1)
        return x, [x] * n
    x = [c.real('zmax', 0, 1)] + [0.75, 0.5625][:n - 1]
    return c.np.array(x), x


def cost(c):
    """the density of the selected galaxies against the target"""
    n = c.n
    v = sample(c, n)
    zm, lim = limits(c, n)
    M, f = fitter(c, v, zm)
    p = c.reals('p', 2, -1, 25)
    s = v.samp[0]
    for e in (0.25, 0.5, 0.75 - 0.0001, 0.75):
        c.assume((s < e - 1e-5) | (s > e + 1e-5))
    c.assume((s < 0.75 - 0.00015) | (s > 0.75))
    cut = -2.5 * math.log10(0.5)
    for a, b in [(v.chisq[i], lin([0.25, 0.75], p, v.z[i])) for i in range(n)] + [(v.chisq[0], 20.0), (v.chisq[0], 0.1), (p[0], 0.1), (p[1], 0.1), (v.refmag[0], v.mstar[0] + cut)] + [(v.z[i], lim[i]) for i in range(n)]:
        c.assume((a < b - 1e-6) | (a > b + 1e-6))
    t = f(p)
    h, any_ = [0, 0], False
    for i in range(n):
        ok = bool(v.chisq[i] < clip(lin([0.25, 0.75], p, v.z[i]), 0.1, 20.0)) and bool(v.refmag[i] < v.mstar[i] + cut) and bool(v.z[i] < lim[i])
        if ok:
            any_ = True
            x = v.samp[i]
            if bool(x >= 0.25) and bool(x < 0.75):
                h[0 if bool(x < 0.5) else 1] += 1
    if not any_:
        c.prove('nothing selected is the worst', bool(t > 1e9))
        c.cover('empty')
        return
    want = sum((q - 5e-4 * V) ** 2 / (5e-4 * V) for q, V in zip(h, (4096.0, 8192.0)))
    if bool(p[0] < 0.1) or bool(p[1] < 0.1):
        c.prove('a negative cut is penalised', bool(t > want + 100.0))
        c.cover('negative')
    else:
        c.prove('cost', c.eq(t, want))
        c.cover('cost')


def fits(c):
    """with and without the afterburner"""
    n = c.n
    v = sample(c, n)
    M, f = fitter(c, v, numpy.array([0.75]), ab_use=numpy.arange(n))
    bias, er = c.reals('bias', 3, -0.25, 0.25), c.reals('er', 3, 0.5, 1.5)
    seen = []

    def fmin(fn, p0, **k):
        c.prove('minimises its own cost', fn is f)
        seen.append((list(p0), list(f._zredmagic), list(f._zredmagic_e), list(f._zredmagic_samp), list(f._mstar)))
        return numpy.array([7.0 + len(seen), 8.0])
    c.patch(M, 'scipy', Obj(optimize=Obj(fmin=fmin)))
    nn = [0.25, 0.5, 0.75]
    order = [True, False, True] if c.params.get('first', True) else [False, True, False]
    for q, ab in enumerate(order):
        r = f.fit(numpy.array([3.0 + q, 4.0]), biaspars=bias, eratiopars=er, afterburner=True) if ab else f.fit(numpy.array([3.0 + q, 4.0]))
        c.prove('result', list(r) == [8.0 + q, 8.0] and seen[q][0] == [3.0 + q, 4.0])
        b = [lin(nn, bias, z) if ab else 0.0 for z in v.z]
        e = [lin(nn, er, z) if ab else 1.0 for z in v.z]
        c.prove('redshifts', near(c, seen[q][1], [v.z[i] - b[i] for i in range(n)]))
        c.prove('errors', near(c, seen[q][2], [v.ze[i] * e[i] for i in range(n)]))
        c.prove('samples', near(c, seen[q][3], [v.samp[i] - b[i] for i in range(n)]))
        c.prove('mstar at the redshift', near(c, seen[q][4], [18.0 + v.z[i] - b[i] for i in range(n)]))
    c.prove('parameters are needed', c.raises(lambda: f.fit(numpy.array([3.0, 4.0]), afterburner=True), RuntimeError) is not None and c.raises(lambda: f.fit(numpy.array([3.0, 4.0]), biaspars=bias, afterburner=True), RuntimeError) is not None)
    M, g = fitter(c, v, numpy.array([0.75]))
    c.prove('galaxies are needed', c.raises(lambda: g.fit(numpy.array([3.0, 4.0]), biaspars=bias, eratiopars=er, afterburner=True), RuntimeError) is not None)
    for bad in ('ze', 'chisq', 'mstar', 'zcal', 'refmag', 'samp'):
        w = Obj(**v.__dict__)
        setattr(w, bad, list(getattr(v, bad)) + [0.25])
        c.prove('lengths', c.raises(lambda: fitter(c, w, numpy.array([0.75])), ValueError) is not None)
    c.cover('end')


def bias(c):
    """the afterburner: which galaxies, which quantity"""
    n = c.n
    v = sample(c, n)
    zm, lim = limits(c, n)
    use = c.params.get('use', list(range(n)))
    v.zcal[0] = c.real('zcal', 0, 1)
    M, f = fitter(c, v, zm, ab_use=numpy.array(use))
    seen = []

    class Med(object):
        def __init__(self, nodes, z, y):
            self.a = (list(nodes), list(z), list(y))

        def fit(self, p0, min_val=None, max_val=None):
            seen.append(self.a + (list(p0), min_val, max_val))
            return numpy.array([0.03125 * len(seen), 0.0625, 0.125 * len(seen)])
    c.patch(M, 'MedZFitter', Med)
    p = c.reals('p', 2, -1, 25)
    cut = -2.5 * math.log10(0.5)
    gd = []
    for i in use:
        top = lin([0.25, 0.75], p, v.z[i])
        for a, b in ((v.chisq[i], top), (v.chisq[i], 20.0), (v.chisq[i], 0.1), (v.refmag[i], v.mstar[i] + cut), (v.z[i], lim[i])):
            c.assume((a < b - 1e-6) | (a > b + 1e-6))
        if bool(v.chisq[i] < clip(top, 0.1, 20.0)) and bool(v.refmag[i] < v.mstar[i] + cut) and bool(v.z[i] < lim[i]):
            gd.append(i)
    pb, pe = f.fit_bias_eratio(p, numpy.array([0.5, 0.25, 0.125]), numpy.array([1.5, 1.25, 1.0]))
    nn = [0.25, 0.5, 0.75]
    d = [v.z[i] - v.zcal[i] for i in gd]
    c.prove('two fits', len(seen) == 2)
    c.prove('offset of the selected galaxies', seen[0][0] == nn and near(c, seen[0][1], [v.z[i] for i in gd]) and near(c, seen[0][2], d))
    c.prove('start', seen[0][3] == [0.5, 0.25, 0.125] and seen[1][3] == [1.5, 1.25, 1.0])
    m = [lin(nn, [0.03125, 0.0625, 0.125], v.z[i]) for i in gd]
    y = []
    for k, i in enumerate(gd):
        x = d[k] - m[k]
        y.append(1.4826 * (x if bool(x >= 0) else -x) / v.ze[i])
    c.prove('scatter about the offset, per error', seen[1][0] == nn and near(c, seen[1][1], [v.z[i] for i in gd]) and near(c, seen[1][2], y))
    c.prove('returned', list(pb) == [0.03125, 0.0625, 0.125] and list(pe) == [0.0625, 0.0625, 0.25])
    c.cover('selected %d' % len(gd))


GAL = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f8'), ('chisq', 'f8'), ('zred_uncorr', 'f8'), ('zred_uncorr_e', 'f8'), ('zred_samp', 'f8', (2,)), ('ztrue', 'f8')]


def calibrate(c):
    """the whole calibration: the sample, its redshifts, its volume, what is recorded and run"""
    M = c.mod('redmagic.redmagic_calibrate')
    G, C = c.mod('galaxy').GalaxyCatalog, c.mod('catalog')
    n = 4
    what = c.what
    const, burn, truth = c.params.get('const', False), c.params.get('burn', True), c.params.get('truth', False)
    conf, outpath = c.params.get('conf', 'redmagic_cal.yaml'), c.params.get('outpath', './')
    etas, names, n0s, zmaxes = [0.5, 1.0], ['high', 'lum'], [8.0, 2.0], [0.75, 0.875]
    zu = [0.3125, 0.71875, 0.5, 0.59375]
    chi = [2.0, 4.0, 6.0, 1.0]
    rm = [16.0, 16.5, 17.0, 16.25]
    cut = lambda eta: -2.5 * math.log10(max(eta - 0.05, 0.1))
    if what == 'cuts':
        zu[2], chi[2], rm[2] = c.real('zu', 0, 1.25), c.real('chi', 0, 40), c.real('rm', 15, 22)
        for e in (0.25 - 0.175, 0.875 + 0.175, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 0.5625, 0.6875, 0.8125):
            c.assume((zu[2] < e - 1e-4) | (zu[2] > e + 1e-4))
        for e in (2.0, 4.0, 20.0):
            c.assume((chi[2] < e - 1e-4) | (chi[2] > e + 1e-4))
        for e in etas:
            c.assume((rm[2] < 18.0 + zu[2] + cut(e) - 1e-4) | (rm[2] > 18.0 + zu[2] + cut(e) + 1e-4))
    v = dict(id=[101, 202, 303, 404], ra=[10.0 + i for i in range(n)], dec=[1.0 + i for i in range(n)], refmag=rm, chisq=chi, zred_uncorr=zu, zred_uncorr_e=[0.03125 * (i + 1) for i in range(n)], zred_samp=[[zu[i] if i != 2 else 0.53125, 0.25 + 0.0625 * i] for i in range(n)], ztrue=[0.28125 + 0.125 * i for i in range(n)])
    g = G(c.rec(n, GAL, v))
    # the clusters, their members and the spectra
    cl = c.rec(2, [('mem_match_id', 'i4'), ('z_lambda_e', 'f8')], dict(mem_match_id=[7, 3], z_lambda_e=[0.0625, 0.125]))
    mp, mi = [0.875, 0.75, 0.9375], [404, 101, 303]
    mc = [3, 7, 7]
    if what == 'members':
        mp[0] = c.real('p', 0, 1)
        c.assume((mp[0] < 0.5 - 1e-5) | (mp[0] > 0.5 + 1e-5))
        mc = [[3, 7][c.index('c%d' % k, 0, 1)] for k in range(3)]
        k = c.index('mi', 0, 2)
        mi = [[404, 101, 303], [303, 999, 202], [999, 404, 101]][k]
    mem = c.rec(3, [('id', 'i8'), ('mem_match_id', 'i4'), ('p', 'f8'), ('z', 'f8')], dict(id=mi, mem_match_id=mc, p=mp, z=[0.40625, 0.65625, 0.5625]))
    sze = c.real('sze', 0, 0.01) if what == 'members' else 0.001
    if what == 'members':
        c.assume((sze < 0.005 - 1e-6) | (sze > 0.005 + 1e-6))
    spec = c.rec(2, [('ra', 'f8'), ('dec', 'f8'), ('z', 'f8'), ('z_err', 'f8')], dict(ra=[50.0, 51.0], dec=[70.0, 71.0], z=[0.34375, 0.71875], z_err=[sze, 0.001]))
    tables = {'SPEC': spec, 'CAT': cl}
    c.patch(C.Catalog, 'from_fits_file', lambda f, **k: C.Catalog(tables[f]))
    c.patch(M, 'read_members', lambda f: C.Catalog(mem) if f == 'CAT' else None)

    def many(self, ra, dec, radius, maxmatch=0):
        ids = [int(x) for x in self.id]
        out = [(q, ids.index(w)) for q in range(len(ra)) for w in [{50: 202, 51: 101}[int(round(float(ra[q])))]] if w in ids]
        return numpy.array([x[0] for x in out], dtype='i8'), numpy.array([x[1] for x in out], dtype='i8'), numpy.zeros(len(out))
    c.patch(G, 'match_many', many)
    areas = dict(z=numpy.arange(0.0, 1.5, 0.0625), area=None)
    made, zq = [], []

    class Mask(object):
        def __init__(self, cfg, eta=None, use_geometry=False, **k):
            self.eta, self.geo, self.vlimfile = eta, use_geometry, 'v%s.fit' % eta
            made.append(self)

        def get_areas(self):
            return Obj(z=areas['z'], area=numpy.array([(1000.0 if self.eta == 0.5 else 512.0) - 256.0 * z for z in areas['z']]))

        def calc_zmax(self, ra, dec):
            zq.append((self, list(ra), list(dec)))
            return c.np.array([0.75 + 0.015625 * (x - 10.0) for x in ra])

    class Fixed(Mask):
        pass
    geo = c.params.get('geo', 'depth')
    if geo == 'fixed':
        class Mask2(object):
            pass
        c.patch(M, 'VolumeLimitMask', Mask2)
        c.patch(M, 'VolumeLimitMaskFixed', Mask)
    else:
        c.patch(M, 'VolumeLimitMask', Mask)
    c.patch(M, 'RedSequenceColorPar', lambda f, fine=False: Obj(mstar=lambda q: 18.0 + q))
    draws = numpy.array([0.5, 0.125, 0.75, 0.25])
    fitted, wrote, sel, ran, yaml = [], [], [], [], []

    class NP(object):
        random = Obj(random=lambda k: draws[:int(k)])

        def __getattr__(self, k):
            return getattr(np0, k)
    np0 = M.np
    c.patch(M, 'np', NP())

    class Fit(object):
        def __init__(self, *a, **k):
            self.a, self.k, self.log = a, k, []
            fitted.append(self)

        def fit(self, p0, biaspars=None, eratiopars=None, afterburner=False):
            self.log.append(('fit', list(p0), None if biaspars is None else list(biaspars), None if eratiopars is None else list(eratiopars), afterburner))
            return numpy.array([1.0 + len(self.log) + 0.125 * k for k in range(len(p0))])

        def fit_bias_eratio(self, cv, b, e):
            self.log.append(('bias', list(cv), list(b), list(e)))
            return numpy.array([0.0625 * len(self.log) + 0.03125 * k for k in range(len(b))]), numpy.array([1.0 + 0.0625 * len(self.log) + 0.03125 * k for k in range(len(b))])
    c.patch(M, 'RedmagicParameterFitter', Fit)

    class Sel(object):
        def __init__(self, cfg, vlim_masks=None):
            c.prove('calibration is there before it is used', len(wrote) == len(fitted) and cfg.redmagicfile == wrote[-1][0])
            self.m = vlim_masks

        def select_redmagic_galaxies(self, gg, mode, return_indices=False):
            sel.append((mode, [int(x) for x in gg.id], list(self.m.keys()), list(gg.zspec)))
            ix = numpy.array([0], dtype=int)
            return Obj(zredmagic=c.np.array([0.25]), zredmagic_e=c.np.array([0.125]), zredmagic_samp=c.np.array([[0.25, 0.5]])), ix
    c.patch(M, 'RedmagicSelector', Sel)
    c.patch(M, 'NzPlot', lambda *a, **k: Obj(plot_redmagic_catalog=lambda *a, **k: None))
    c.patch(M, 'SpecPlot', lambda *a, **k: Obj())
    c.patch(C.DataObject, 'to_fits_file', lambda self, f, clobber=False, header=None, extname=None, **k: wrote.append((f, self, extname, clobber)))
    c.patch(M, 'RunRedmagicTask', lambda f, **k: Obj(run=lambda **k: ran.append(f)))
    there = {'depth': ('D', 'M'), 'mask': ('M',), 'fixed': ()}[geo] + ('Z', 'CAT')
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: f in there, join=_os.path.join, basename=_os.path.basename, dirname=_os.path.dirname, split=_os.path.split, splitext=_os.path.splitext, abspath=_os.path.abspath, isabs=_os.path.isabs, normpath=_os.path.normpath)))
    cfg = Obj(redmagic_etas=etas, redmagic_names=names, redmagic_n0s=n0s, redmagic_zmaxes=zmaxes, redmagic_zrange=[0.125, c.params.get('zhi', 1.0)], redmagic_calib_redshift_buffer=0.125, redmagic_calib_zbinsize=0.125, redmagic_calib_chisqcut=20.0, redmagic_mock_truthspec=truth, redmagic_use_constchi=const, redmagic_constchis=[5.0, 9.0], redmagic_run_afterburner=burn,
              redmagic_apply_afterburner_zsamp=True, redmagic_calib_fractrain=c.params.get('frac', 0.5), redmagic_calib_nodesize=0.5, redmagic_calib_corr_nodesize=0.25, calib_spec_max_zerr=0.005, calib_corr_pcut=0.5, specfile='SPEC', catfile='CAT', zredfile='Z', galfile='G', galfile_pixelized=True, depthfile='D', maskfile='M',
              parfile='P', zred_nsamp=2, border=0.5, d=Obj(nside=4, hpix=[9]), hpix=[9], nside=4, area=77.0, outpath=outpath, configfile=conf, plotpath='plots', logger=silent_logger(), cosmo=Obj(V=lambda a, b: 64.0 * (b ** 3 - a ** 3) * FULL), redmapper_filename=lambda *a, **k: 'F_' + a[0], redmagicfile=None)
    cfg.output_yaml = lambda f: yaml.append((f, list(cfg.hpix), cfg.nside, cfg.area, cfg.redmagicfile))
    r = M.RedmagicCalibrator.__new__(M.RedmagicCalibrator)
    r.config = cfg
    asked = []

    def from_galfile(f, **k):
        asked.append((f, k))
        return g
    c.patch(G, 'from_galfile', from_galfile)
    # galaxies that could be in any of the samples
    keep = [i for i in range(n) if bool(zu[i] > 0.25 - 0.05 - 0.125) and bool(zu[i] < 0.875 + 0.05 + 0.125) and bool(chi[i] < 20.0) and bool(rm[i] < 18.0 + zu[i] + cut(0.5))]
    r.run(do_run=c.params.get('run', True))
    c.prove('galaxies', len(asked) == 1 and asked[0][0] == 'G' and asked[0][1].get('zredfile') == 'Z' and asked[0][1].get('hpix') == [9] and asked[0][1].get('nside') == 4 and asked[0][1].get('border') == 0.5 and bool(asked[0][1].get('truth')) == truth)
    c.prove('one fit per sample', len(fitted) == 2 and len(wrote) == 2 and len(sel) == 2)
    cal, cale = {}, {}
    for k in range(3):
        if bool(mp[k] > 0.5):
            cal[mi[k]] = [0.40625, 0.65625, 0.5625][k]
            cale[mi[k]] = {7: 0.0625, 3: 0.125}[mc[k]]
    okspec = {101: 0.71875}
    if bool(sze < 0.005):
        okspec[202] = 0.34375
    for q in range(2):
        a, k, m = fitted[q].a, fitted[q].k, made[q]
        hi = 0.25 + 0.125 * math.ceil((zmaxes[q] - 0.375) / 0.125 - 1e-9)
        poss = [i for i in keep if bool(rm[i] < 18.0 + zu[i] + cut(etas[q]))]
        ids = [v['id'][i] for i in poss]
        c.prove('which galaxies', near(c, a[2], [zu[i] for i in poss]) & near(c, a[3], [v['zred_uncorr_e'][i] for i in poss]))
        c.prove('their own data', near(c, a[4], [chi[i] for i in poss]) & near(c, a[5], [18.0 + zu[i] for i in poss]) & near(c, a[8], [rm[i] for i in poss]) & near(c, a[9], [v['zred_samp'][i][0] for i in poss]))
        c.prove('calibration redshift of the cluster', near(c, a[6], [cal.get(x, -1.0) for x in ids]) & near(c, a[7], [cale.get(x, -1.0) for x in ids]))
        c.prove('limits at their positions', zq[q][0] is m and near(c, zq[q][1], [v['ra'][i] for i in poss]) & near(c, zq[q][2], [v['dec'][i] for i in poss]) & near(c, a[10], [0.75 + 0.015625 * i for i in poss]))
        c.prove('target', a[11] == etas[q] and a[12] == n0s[q] and k.get('maxchi') == 20.0)
        nb = int(round((hi - 0.25) / 0.125))
        c.prove('range', near(c, a[14], [0.25, hi]) and a[15] == 0.125)
        mid = [0.25 + 0.125 * j + 0.0625 for j in range(nb)]
        if geo != 'fixed':
            ar = [(1000.0 if q == 0 else 512.0) - 256.0 * z for z in mid]
        else:
            ar = [512.0 - 256.0 * z for z in mid]
        c.prove('volume', near(c, a[13], [64.0 * ((z + 0.0625) ** 3 - (z - 0.0625) ** 3) * x for z, x in zip(mid, ar)]))
        tr = [j for j, x in enumerate(ids) if cal.get(x, -1.0) > 0]
        use = [int(x) for x in k.get('ab_use')]
        c.prove('training galaxies', len(use) == int(cfg.redmagic_calib_fractrain * len(tr)) and len(set(use)) == len(use) and all(x in tr for x in use))
        # the sequence of fits
        L = fitted[q].log
        cv, b, e = None, [0.0] * len(a[1]), [1.0] * len(a[1])
        if const:
            cv = [cfg.redmagic_constchis[q]] * len(a[0])
        want = []
        nf = 0

        def nextfit(x):
            return [1.0 + x + 0.125 * j for j in range(len(a[0]))]

        def nextbias(x):
            return [0.0625 * x + 0.03125 * j for j in range(len(a[1]))], [1.0 + 0.0625 * x + 0.03125 * j for j in range(len(a[1]))]
        ok = True
        for x, l in enumerate(L):
            if l[0] == 'fit':
                ok = ok and (cv is None or l[1] == cv) and (not l[4] or (l[2] == b and l[3] == e)) and not const and (l[4] == (x > 0))
                cv = nextfit(x + 1)
            else:
                ok = ok and l[1] == cv and l[2] == b and l[3] == e and burn
                b, e = nextbias(x + 1)
        c.prove('each fit starts from the one before', ok)
        c.prove('last fits', ((const or any(l[0] == 'fit' for l in L)) and (not burn or (len(L) > 0 and L[-1][0] == 'bias'))))
        s = wrote[q][1]
        c.prove('recorded fits', near(c, s.cmax, cv) & near(c, s.bias, b) & near(c, s.eratio, e))
        c.prove('recorded nodes', near(c, s.nodes, a[0]) & near(c, s.corrnodes, a[1]) and c.eq(s.nodes[0], 0.25) & c.eq(s.nodes[-1], hi) & c.eq(s.corrnodes[0], 0.25) & c.eq(s.corrnodes[-1], hi))
        c.prove('recorded target', c.eq(s.etamin, etas[q]) & c.eq(s.n0, n0s[q]) & near(c, s.zrange, [0.125, zmaxes[q]]) & near(c, s.cost_zrange, [0.25, hi]) & c.eq(s.maxchi, 20.0) & c.eq(s.buffer, 0.125) & c.eq(s.lstar_cushion, 0.05) & c.eq(s.z_cushion, 0.05) and int(s.run_afterburner) == int(burn) and int(s.apply_afterburner) == 1)
        nm = lambda x: x.decode() if isinstance(x, bytes) else str(x)
        c.prove('recorded under its name', nm(s.name) == names[q] and wrote[q][0] == 'F_redmagic_calib' and wrote[q][2] == names[q] and not wrote[q][3] and nm(s.vmaskfile) == ('' if geo == 'fixed' else m.vlimfile))
        c.prove('mask of this sample', geo == 'fixed' or (m.eta == etas[q] and m.geo == (geo == 'mask')))
        c.prove('selected from the sample', sel[q][0] == names[q] and sel[q][1] == [v['id'][i] for i in keep])
        c.prove('spectroscopic redshifts', near(c, sel[q][3], [v['ztrue'][i] if truth else okspec.get(v['id'][i], 0.0) for i in keep]))
    # the configuration of the run over the survey
    d, f = _os.path.split(conf)
    c.prove('run configuration', len(yaml) == 1 and yaml[0][1:] == ([], 0, None, 'F_redmagic_calib') and yaml[0][0] != conf and _os.path.dirname(_os.path.normpath(yaml[0][0])) == _os.path.dirname(_os.path.normpath(_os.path.join(outpath, conf))))
    c.prove('the run uses it', [_os.path.normpath(x) for x in ran] == ([_os.path.normpath(yaml[0][0])] if c.params.get('run', True) else []))
    c.cover('end')


def task(c):
    """the selection over the whole survey"""
    M = c.mod('redmagic.redmagictask')
    G, C = c.mod('galaxy').GalaxyCatalog, c.mod('catalog')
    npix, ng = c.npix, 2
    modes = ['high', 'lum', 'all'][:c.params.get('nmode', 2)]
    pick = [[[bool(c.flag('s%d%d%d' % (p, k, j))) if (p, k, j) in FREE or c.params.get('allfree') else (p + k + j) % 2 == 0 for j in range(len(modes))] for k in range(ng)] for p in range(npix)]
    zz = c.reals('zr', npix, 0.125, 1)
    disk, reads, rand, seen = {}, [], [], []
    F = [('id', 'i8'), ('zredmagic', 'f8'), ('zspec', 'f8')]
    which = c.params.get('modes')
    run = modes if which is None else which
    name = lambda m: 'red_%s.fit' % m
    old = c.index('old', 0, len(modes)) if c.params.get('exists') else len(modes)
    if old < len(modes):
        disk[name(modes[old])] = 'old'
    clob = bool(c.flag('clobber')) if c.params.get('exists') else False

    class Sel(object):
        def __init__(self, cfg):
            self.modes = modes if c.params.get('list', True) else {m: 0 for m in modes}.keys()
            self.calib_data = {m: Obj(etamin=0.5, n0=5.0, zrange=[0.25, 0.75]) for m in modes}
            self.vlim_masks = {m: (Fix() if m == c.params.get('fixed') else Obj(mode=m, get_areas=lambda: None)) for m in modes}

        def select_redmagic_galaxies(self, g, mode):
            j = modes.index(mode)
            ids = [int(x) for x in g.id]
            seen.append((mode, ids))
            k = [i for i, x in enumerate(ids) if pick[x // 10][x % 10][j]]
            return G(c.rec(len(k), F, dict(id=[1000 * (j + 1) + ids[i] for i in k], zredmagic=[zz[ids[0] // 10] + 0.25 * i for i in k], zspec=[0.0] * len(k))))

    class Fix(object):
        def get_areas(self):
            return None
    c.patch(M, 'VolumeLimitMaskFixed', Fix)
    c.patch(M, 'RedmagicSelector', Sel)

    def from_galfile(f, **k):
        reads.append((f, k))
        h = k['hpix']
        p = [17, 5, 40].index(int(h if numpy.ndim(h) == 0 else h[0]))
        return G(c.rec(ng, [('id', 'i8')], dict(id=[10 * p + i for i in range(ng)])))
    c.patch(G, 'from_galfile', from_galfile)
    c.patch(C.DataObject, 'to_fits_file', lambda self, f, clobber=False, **k: disk.__setitem__(f, [row for row in self._ndarray]))

    class Fits(object):
        def __init__(self, f, mode='r'):
            self.f = f

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __getitem__(self, k):
            return Obj(append=lambda x: disk[self.f].extend([row for row in x]))
    c.patch(M, 'fitsio', Obj(FITS=Fits))
    c.patch(M, 'os', Obj(path=Obj(isfile=lambda f: f in disk, dirname=_os.path.dirname, abspath=_os.path.abspath)))
    c.patch(M.Entry, 'from_fits_file', lambda f, **k: Obj(hpix=numpy.array([17, 5, 40][:npix]), nside=8))
    c.patch(G, 'from_fits_file', lambda f, **k: G(c.rec(len(disk[f]), F, dict(id=[int(r['id']) for r in disk[f]], zredmagic=[r['zredmagic'] for r in disk[f]], zspec=[0.0] * len(disk[f])))))

    class Gen(object):
        def __init__(self, cfg, mask, g):
            self.m, self.g = mask, g

        def generate_randoms(self, n, f, clobber=False, rng=None):
            rand.append((self.m.mode, [int(x) for x in self.g.id], int(n), f, clobber))
    c.patch(M, 'RedmagicGenerateRandoms', Gen)
    c.patch(M, 'NzPlot', lambda *a, **k: Obj(plot_redmagic_catalog=lambda *a, **k: None))
    t = M.RunRedmagicTask.__new__(M.RunRedmagicTask)
    t.config = Obj(galfile='G', zredfile='Z', has_truth=c.params.get('truth', False), galfile_pixelized=True, logger=silent_logger(), start_file_logging=lambda: None, stop_file_logging=lambda: None, redmapper_filename=lambda x, **k: 'red_%s.fit' % x.replace('redmagic_', ''), redmagic_calib_zbinsize=0.125, plotpath='p')
    nr = c.params.get('nr')
    call = lambda: t.run(modes=which, clobber=clob, do_plots=c.params.get('plots', False), n_randoms=nr, rng=Obj())
    if old < len(modes) and modes[old] in run and not clob:
        before = dict(disk)
        c.prove('an existing catalogue is kept', c.raises(call, RuntimeError) is not None)
        c.prove('and nothing is written', disk == before)
        c.cover('refused')
        return
    call()
    c.prove('each pixel, by itself', [(f, k.get('zredfile'), int(k.get('nside')), k.get('border', 0.0), bool(k.get('truth'))) for f, k in reads] == [('G', 'Z', 8, 0.0, bool(t.config.has_truth))] * npix and sorted(int(numpy.atleast_1d(k['hpix'])[0]) for f, k in reads) == sorted([17, 5, 40][:npix]))
    for m in modes:
        j = modes.index(m)
        if m not in run:
            c.prove('only what was asked for', disk.get(name(m), 'old') == 'old')
            continue
        want = [(p, k) for p in range(npix) for k in range(ng) if pick[p][k][j]]
        got = disk.get(name(m))
        c.prove('file', isinstance(got, list))
        c.prove('every selected galaxy once', sorted(int(r['id']) for r in got) == sorted(1000 * (j + 1) + 10 * p + k for p, k in want))
        pos = {}
        for p, k in want:
            pos[1000 * (j + 1) + 10 * p + k] = zz[p] + 0.25 * k
        c.prove('own redshift', c.all([c.eq(r['zredmagic'], pos[int(r['id'])]) for r in got]) if got else True)
    L = [m for m in run if m != c.params.get('fixed')] if nr != 0 else []
    c.prove('randoms', [x[0] for x in rand] == L)
    for x in rand:
        ids = [int(r['id']) for r in disk[name(x[0])]]
        c.prove('of this catalogue', x[1] == ids and x[2] == (10 * len(ids) if nr is None else nr) and x[3] not in [name(m) for m in modes] and x[4] == clob)
    c.prove('own files', len(set(x[3] for x in rand)) == len(rand))
    c.cover('end')


FREE = [(0, 0, 0), (1, 0, 1), (1, 1, 1)]

PROPS = {
    'P30': dict(level='model_checking',
                functions=['redmagic.redmagic_calibrate.RedmagicParameterFitter.%s' % f for f in ('__init__', 'fit', 'fit_bias_eratio', '__call__')] + ['redmagic.redmagic_calibrate.RedmagicCalibrator.run', 'redmagic.redmagictask.RunRedmagicTask.run', 'utilities.make_nodes'],
                bounds='<= 4 galaxies, 2 samples, 3 members, 2 spectra, <= 3 survey pixels of 2 galaxies and <= 3 samples to select',
                assumptions=['the spline, the minimiser, the plots and (in the calibration as a whole) the fitter and the selector (property P19) are stand-ins with distinct results', 'values keep a distance of 1e-6 from the cuts'],
                instances=[('cost', dict(n=2, covers=['cost', 'empty', 'negative'])), ('cost', dict(n=2, single=True)), ('cost', dict(n=3, single=True), 'thorough'), ('cost', dict(n=3), 'thorough'), ('fits', dict(n=2, covers=['end'])), ('fits', dict(n=3, first=False)),
                           ('bias', dict(n=2, covers=['selected 0', 'selected 1', 'selected 2'])), ('bias', dict(n=3, single=True, use=[2, 0])), ('bias', dict(n=3, use=[1]), 'thorough'),
                           ('calibrate', dict(what='cuts', covers=['end'])), ('calibrate', dict(what='cuts', zhi=0.96875)), ('calibrate', dict(what='members', covers=['end'])), ('calibrate', dict(what='members', truth=True, run=False, frac=1.0)), ('calibrate', dict(what='plain', geo='mask', const=True)), ('calibrate', dict(what='plain', geo='fixed', burn=False)),
                           ('calibrate', dict(what='plain', const=True, burn=False, conf='run.yml')), ('calibrate', dict(what='plain', outpath='/w/out', conf='cal.yaml')), ('calibrate', dict(what='cuts', const=True, truth=True), 'thorough'),
                           ('task', dict(npix=2, covers=['end'])), ('task', dict(npix=2, exists=True, covers=['end', 'refused'])), ('task', dict(npix=3, nmode=3, modes=['lum'], nr=5)), ('task', dict(npix=3, fixed='lum', plots=True, list=False)), ('task', dict(npix=1, nr=0, truth=True)), ('task', dict(npix=3, exists=True, modes=['lum', 'high'])),
                           ('task', dict(npix=2, allfree=True), 'thorough')]),
}
