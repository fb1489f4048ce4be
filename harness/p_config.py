"""Configurations: what the file and the galaxy table say, and what is refused."""
import os as _os
import numpy
from .common import Obj, silent_logger, Cosmo

MODES = ['SDSS', 'DES', 'LSST']


class Hdr(dict):
    pass


def table(c, pix, o):
    """the header or master table of a galaxy file"""
    d = dict(mode=o['mode'], area=o['area'], lim_ref=o['lim'], nmag=o['nmag'], nside=8, zeropoint=o['zp'], filenames=['p0.fit', 'p1.fit'])
    if not pix:
        h = Hdr(PIXELS=0, FITS=o['fits'], MODE=o['mode'] + ' ', AREA=o['area'], LIM_REF=o['lim'], NMAG=o['nmag'], ZP=o['zp'], REF_IND=o['ref'])
        for b, i in o['bands'].items():
            h[b.upper() + '_IND'] = i
        return h, None
    names = [('mode', 'O'), ('area', 'O'), ('lim_ref', 'O'), ('nmag', 'i4'), ('nside', 'i4'), ('zeropoint', 'f8'), ('ref_ind', 'i4'), ('filenames', 'O', 2)] + [(b + '_ind', 'i4') for b in o['bands']] + ([('b', 'f8', o['nmag'])] if o['b'] else []) + ([('has_truth', 'i4'), ('has_zspec', 'i4')] if o['flags'] else [])

    class Main(object):
        dtype = Obj(names=tuple(x[0] for x in names))

        def __getitem__(self, k):
            if k not in self.dtype.names:
                raise ValueError('no field of name ' + k)
            if k == 'ref_ind':
                return [o['ref']]
            if k.endswith('_ind'):
                return [o['bands'][k[:-4]]]
            if k == 'b':
                return [numpy.array([0.25 * (i + 1) for i in range(o['nmag'])])]
            if k in ('has_truth', 'has_zspec'):
                return [o[k]]
            return [d[k]]
    return Hdr(PIXELS=1, FITS=o['fits']), Main()


def install(c, F, world):
    st = Obj(dirs=[], yaml=None)

    def header(f, ext=1):
        c.prove('the galaxy file is read', f == 'gal.fit')
        return world['hdr']

    def read(f, ext=1, rows=None, lower=False):
        if world['pix'] and f == 'gal.fit' and rows is None and ext == 1 and lower:
            return world['main']
        c.prove('the galaxy file is read', f == ('gal.fit' if not world['pix'] else '/w/p0.fit'))
        if ext != 1:
            raise IOError('extension number out of bounds')
        names = ('ra',) + (('ztrue',) if world['o']['has_truth'] else ()) + (('zspec',) if world['o']['has_zspec'] else ())
        return Obj(dtype=Obj(names=names if lower else tuple(n.upper() for n in names)))
    c.patch(F, 'fitsio', Obj(read_header=header, read=read))
    c.patch(F, 'read_yaml', lambda f: dict(world['y']))
    P = _os.path
    there = set()
    c.patch(F, 'os', Obj(path=Obj(isfile=lambda f: f in world.get('files', ()), exists=lambda f: f in there, join=P.join, abspath=lambda p: P.normpath(P.join('/w', p)), dirname=P.dirname, basename=P.basename), makedirs=lambda d, **k: (st.dirs.append(d), there.add(d))[0]))
    log = silent_logger()
    c.patch(F, 'logging', Obj(basicConfig=lambda **k: None, getLogger=lambda n: log, INFO=20, FileHandler=None))
    return st


BASE = dict(galfile='gal.fit', refmag='i', outbase='ob', zrange=[0.1, 0.4], calib_color_nodesizes=[0.05, 0.1], calib_slope_nodesizes=[0.1, 0.1], calib_color_maxnodes=[-1.0, -1.0], calib_covmat_maxnodes=[-1.0, -1.0])


def opts(c, **k):
    o = dict(mode='DES', fits=1, area=c.real('tarea', 1.0, 100.0), lim=c.real('lim', 18.0, 24.0), nmag=3, zp=22.5, ref=2, bands=dict(g=0, r=1, i=2), b=True, flags=True, has_truth=0, has_zspec=0)
    o.update(k)
    return o


def world(c, pix, o, y):
    h, m = table(c, pix, o)
    return dict(pix=pix, o=o, y=y, hdr=h, main=m)


def build(c):
    """a configuration file and a galaxy table, and the configuration made of them"""
    F = c.mod('configuration')
    pix = c.pix
    y = dict(BASE)
    perm = [dict(g=0, r=1, i=2), dict(g=2, r=0, i=1), dict(g=1, r=2, i=0)][c.index('perm', 0, 2)]
    mode = c.index('mode', 0, 3)
    hole = c.flag('hole')
    o = opts(c, mode=(MODES + ['HST'])[mode], bands=perm, ref=perm['i'], has_truth=int(c.flag('gtruth')), has_zspec=int(c.flag('gzspec')), flags=c.params.get('flags', True), b=c.params.get('b', True))
    bands = [None] * 3
    for b, i in perm.items():
        bands[i] = b
    if hole:
        o['bands'] = dict((b, i) for b, i in perm.items() if b != 'g')
        y['bands'] = ['u', 'v', 'w']
    truth, zspec = (c.flag('truth'), c.flag('zspec')) if c.params.get('what') == 'truth' else (False, False)
    if truth:
        y['has_truth'] = True
    if zspec:
        y['centering_use_zspec'] = True
    depth = given = sub = False
    if c.params.get('what') == 'area':
        depth, given, sub = c.flag('depth'), c.flag('given'), c.flag('sub')
    if depth:
        y['depthfile'] = 'depth.hs'
    if given:
        y['area'] = c.real('carea', 1.0, 100.0)
    if sub:
        y['nside'], y['hpix'] = 4, [17]
    if c.params.get('catlim'):
        y['limmag_catalog'] = 21.5
    st = install(c, F, world(c, pix, o, y))
    go = lambda: F.Configuration('sub/conf.yml', outpath=c.params.get('outpath'))
    if mode == 3:
        c.prove('unknown survey', c.raises(go, ValueError) is not None)
        return
    if not given and not depth and sub:
        c.prove('area needed', c.raises(go, RuntimeError) is not None)
        c.cover('area needed')
        return
    if (truth and not o['has_truth']) or (zspec and not o['has_zspec']):
        c.prove('not in the galaxy file', c.raises(go, RuntimeError) is not None)
        c.cover('no truth')
        return
    g = go()
    c.prove('survey', g.survey_mode == mode and g.galfile_pixelized == pix and g.galfile_nside == (8 if pix else 0) and g.nmag == 3 and g.zeropoint == 22.5 and g.ref_ind == perm['i'])
    c.prove('limits', c.all([c.eq(g.limmag_ref, o['lim']), c.eq(g.limmag_catalog, 21.5 if c.params.get('catlim') else o['lim'])]))
    c.prove('bands', list(g.bands) == (['u', 'v', 'w'] if hole else bands))
    c.prove('survey area', c.eq(g.galfile_area, o['area']))
    if given:
        c.prove('configured area', abs(g.area - y['area']) <= 1.001e-3)
    else:
        c.prove('area', c.eq(g.area, o['area']))
    if pix and c.params.get('b', True):
        c.prove('softening', [float(x) for x in g.b] == [0.25, 0.5, 0.75])
    else:
        c.prove('softening', g.b is None)
    c.prove('flags', bool(g.galfile_has_truth) == bool(o['has_truth']) and bool(g.galfile_has_zspec) == bool(o['has_zspec']))
    c.prove('paths', g.outpath == (c.params.get('outpath') or './') and g.configpath == '/w/sub' and g.configfile == 'conf.yml' and g.outpath in st.dirs)
    c.prove('own region', list(g.d.hpix) == ([17] if sub else []) and g.d.nside == (4 if sub else 0) and g.d.outbase == 'ob')
    dt = dict((x[0], x[2] if len(x) > 2 else None) for x in g.cluster_dtype)
    c.prove('tables', dt['MAG'] == 3 and dt['MAG_ERR'] == 3 and dt['PZ'] == 21 and dt['PZBINS'] == 21 and all(dt[k] == 5 for k in ('RA_CENT', 'DEC_CENT', 'ID_CENT', 'LAMBDA_CENT', 'ZLAMBDA_CENT', 'P_CEN', 'Q_CEN', 'P_FG', 'P_SAT', 'P_C')) and
            dict((x[0], x[2] if len(x) > 2 else None) for x in g.member_dtype)['MAG'] == 3)
    c.cover('built')


def refuse(c):
    """settings that do not fit together are refused, all others are kept"""
    F = c.mod('configuration')
    y = dict(BASE)
    bad = []
    k = c.what
    n = lambda name, hi: c.index(name, 0, hi)
    if k == 'missing':
        m = ['galfile', 'refmag', 'outbase', 'zrange'][n('which', 3)]
        if c.flag('gone'):
            del y[m]
            bad.append(m)
    elif k == 'unknown':
        if c.flag('typo'):
            y['zrnage'] = 1
            bad.append('typo')
    elif k == 'colours':
        for m in ('calib_color_nodesizes', 'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes'):
            j = 1 + n(m, 2)
            y[m] = [0.125] * j
            if j != 2:
                bad.append(m)
    elif k == 'modes':
        nb, nm, ns = n('nb', 2), n('nm', 3), n('ns', 3)
        y['calib_colormem_zbounds'], y['calib_colormem_colormodes'], y['calib_colormem_sigint'] = [0.35, 0.45][:nb], [0, 1, 2][:nm], [0.1] * ns
        if nm != nb + 1 or ns != nb + 1:
            bad.append('modes')
    elif k == 'redmagic':
        q = [n('r%d' % i, 2) for i in range(4)]
        y['redmagic_names'], y['redmagic_n0s'], y['redmagic_etas'], y['redmagic_zmaxes'] = ['a', 'b'][:q[0]], [1.0] * q[1], [0.5] * q[2], [0.4] * q[3]
        if len(set(q)) > 1:
            bad.append('redmagic')
        y['redmagic_zrange'] = [[], [-1.0, -1.0], [0.2, 0.3], [0.2, 0.3, 0.4], [0.2, -1.0]][n('zr', 4)]
        if len(y['redmagic_zrange']) == 3:
            bad.append('redmagic_zrange')
    elif k == 'vlim':
        q = [n('r%d' % i, 2) for i in range(3)]
        names = [['g', 'i'], ['r', 'z']][n('names', 1)]
        y['vlim_depthfiles'], y['vlim_bands'], y['vlim_nsigs'] = ['d0', 'd1'][:q[0]], names[:q[1]], [10.0, 5.0][:q[2]]
        if len(set(q)) > 1 or 'z' in y['vlim_bands']:
            bad.append('vlim')
    elif k == 'zrange':
        j = n('len', 3)
        y['zrange'] = [0.1, 0.4, 0.5][:j]
        if j != 2:
            bad.append('zrange')
    elif k == 'mask':
        y['mask_mode'] = n('mode', 1) * 3
        if c.flag('file'):
            y['maskfile'] = 'mask.hs'
            if y['mask_mode'] == 0:
                bad.append('mask')
    elif k == 'annuli':
        a = c.reals('a', 2, 0.5, 4.0)
        y['bkg_local_annuli'] = [a[0], a[1]]
        if bool(a[1] <= a[0]):
            bad.append('annuli')
    st = install(c, F, world(c, True, opts(c), y))
    go = lambda: F.Configuration('conf.yml')
    if bad:
        c.prove('refused', c.raises(go, (ValueError, AttributeError, TypeError)) is not None and not st.dirs)
        c.cover('refused')
        return
    g = go()
    for a, b in y.items():
        if a == 'redmagic_zrange' and not (len(b) == 2 and min(b) > 0):
            b = y['zrange']
        v = getattr(g, a)
        if isinstance(b, list):
            c.prove('kept', len(v) == len(b) and c.all([(v[i] == b[i] if isinstance(b[i], str) else c.eq(v[i], b[i])) for i in range(len(b))]))
        else:
            c.prove('kept', v == b)
    if k == 'mask' and 'maskfile' not in y:
        c.prove('no mask', g.maskfile is None)
    c.cover('accepted')


def fields(F):
    return [k for k, v in vars(F.Configuration).items() if isinstance(v, F.ConfigField)]


def same(c, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (type(a) is type(b) and a == b)
    if hasattr(a, '__len__') or hasattr(b, '__len__'):
        return len(a) == len(b) and c.all([same(c, x, y) for x, y in zip(a, b)])
    return c.eq(a, b)


def plain(x):
    if isinstance(x, list):
        return all(plain(y) for y in x)
    return x is None or type(x) in (str, int, float, bool) or 'symx' in type(x).__module__


def later(c):
    """a configuration does not depend on the ones made before it; one written out and read back is the same"""
    F = c.mod('configuration')
    y = dict(BASE)
    y.update(area=c.real('carea', 1.0, 100.0), depthfile='depth.hs', percolation_r0=c.real('r0', 0.5, 2.0), hpix=[17], nside=4, border=0.5, zrange=[c.real('z0', 0.05, 0.2), 0.4], vlim_depthfiles=['a', 'b'], vlim_bands=['i', 'r'], vlim_nsigs=[10.0, c.real('ns', 1.0, 9.0)], wcenfile='w.fit',
             consolidate_lambda_cuts=[c.real('cut', 4.0, 6.0)], consolidate_vlim_lstars=[], redmagic_names=['hd'], redmagic_n0s=[5.0], redmagic_etas=[0.5], redmagic_zmaxes=[0.8], bkg_local_annuli=[1.0, 2.0], specfile='s.fit', calib_smooth=0.0)
    nob = c.params.get('nob', False)
    w = world(c, True, opts(c, b=not nob), y)
    install(c, F, w)
    c.patch(F.Configuration, '_wcen_vals', lambda self: dict(wcen_Delta0=0.5, lnw_cen_mean=1.5))
    w['files'] = ('w.fit',)
    names = fields(F)
    get = lambda g: dict((k, getattr(g, k)) for k in names)
    if c.params.get('part') == 'yaml':
        a = F.Configuration('conf.yml')
        if c.params.get('set'):
            # settings taken from arrays
            a.limmag_ref, a.calib_nproc, a.zrange = numpy.float32(20.5), numpy.array([3, 4])[0], numpy.array([0.125, 0.375], dtype='f4')
        va = get(a)
        out = []
        c.patch(F, 'yaml', Obj(dump=lambda d, stream=None, **k: out.append(d)))
        import io

        class Open(io.StringIO):
            def __exit__(self, *a):
                return False
        c.patch(F, 'open', lambda f, m='r': Open())
        a.output_yaml('/x/out.yml')
        c.prove('plain values', len(out) == 1 and all(plain(v) for v in out[0].values()))
        c.prove('every setting', set(out[0]) <= set(names))
        w['y'] = out[0]
        b = F.Configuration('/x/out.yml')
        vb = get(b)
        for k in names:
            if k == 'area' or (c.params.get('set') and k == 'limmag_ref'):
                # the galaxy table has the last word within its own tolerance
                continue
            c.prove('same after reading back', same(c, va[k], vb[k]))
        c.cover('yaml')
        return
    w['y'] = dict(BASE)
    ref = get(F.Configuration('conf.yml'))
    w['y'] = y
    g = F.Configuration('conf.yml')
    c.prove('set', same(c, g.percolation_r0, y['percolation_r0']) and g.wcen_Delta0 == 0.5 and g.wcenfile == 'w.fit')
    g.hpix, g.catfile, g.centerclass, g.zlambdafile = [3, 4], 'c.fit', 'Other', 'z.fit'
    w['y'] = dict(BASE)
    h = F.Configuration('conf.yml')
    vh = get(h)
    for k in names:
        c.prove('defaults again', same(c, ref[k], vh[k]))
    c.prove('own region', list(h.d.hpix) == [] and h.d.nside == 0)
    # a copy has its own region
    q = h.copy()
    import copy
    q.d = copy.copy(h.d)
    q.d.hpix, q.d.nside = [9], 16
    c.prove('original untouched', list(h.d.hpix) == [] and h.d.nside == 0)
    c.cover('later')


def derived(c):
    """file names, redshift margins, border and the presence of inputs"""
    F = c.mod('configuration')
    y = dict(BASE)
    z0, z1, m = c.real('z0', 0.05, 0.3), c.real('z1', 0.35, 0.9), c.real('m', 0.0, 0.2)
    r0 = c.real('r0', 0.5, 3.0)
    y.update(zrange=[z0, z1], calib_zrange_cushion=m, percolation_rmask_0=r0, percolation_rmask_beta=c.params.get('beta', 0.2), outpath='/o', version='7', zredfile='z.fit', bkgfile='b.fit', parfile='p.fit', zlambdafile='l.fit', randfile='r.fit')
    w = world(c, True, opts(c), y)
    install(c, F, w)
    g = F.Configuration('conf.yml')
    zc = g.zrange_cushioned
    c.prove('margins', c.all([c.eq(zc[0], c.np.clip(z0 - m, 0.05, None)), c.eq(zc[1], z1 + m)]))
    c.prove('range itself untouched', c.all([c.eq(g.zrange[0], z0), c.eq(g.zrange[1], z1)]))
    g.d.outbase = 'cl_5'
    c.prove('names', g.redmapper_filename('final') == '/o/cl_5_final.fit' and g.redmapper_filename('like', filetype='png') == '/o/cl_5_like.png' and g.redmapper_filename('x', paths=('a', 'b')) == '/o/a/b/cl_5_x.fit' and g.redmapper_filename('x', paths=['a']) == '/o/a/cl_5_x.fit' and
            g.redmapper_filename('x', withversion=True) == '/o/cl_5_redmapper_v7_x.fit' and g.redmapper_filename('x', outbase='q') == '/o/q_x.fit' and g.redmapper_filename('x', outbase='q', withversion=True, paths=('a',)) == '/o/a/q_redmapper_v7_x.fit')
    c.prove('paths are a list', c.raises(lambda: g.redmapper_filename('x', paths='ab'), ValueError) is not None)
    seen = []

    class Cos(object):
        def Da(self, a, b):
            seen.append((a, b))
            return 400.0
    g.cosmo = Cos()
    bd = g.compute_border()
    c.prove('border', len(seen) == 1 and seen[0][0] == 0 and c.eq(seen[0][1], z0) & c.eq(bd, 3.0 * 1.05 * r0 * 3.0 ** c.params.get('beta', 0.2) / (0.017453292519943295 * 400.0)))
    if c.params.get('names'):
        c.cover('end')
        return
    there = dict((k, c.flag('f' + k)) for k in ('zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'randfile'))
    w['files'] = tuple(y[k] for k in there if there[k])
    ext = dict((e, c.flag('e' + e)) for e in ('CHISQBKG', 'ZREDBKG'))

    class Fits(object):
        def __init__(self, f):
            c.prove('the background file is looked at', f == 'b.fit')

        def __enter__(self):
            return [None] + [Obj(get_extname=lambda e=e: e) for e in ext if ext[e]]

        def __exit__(self, *a):
            return False
    F.fitsio.FITS = Fits
    for k in there:
        ok = c.raises(lambda: g.check_files(**{'check_' + k: True}), ValueError) is None
        c.prove('file check', ok == there[k])
    c.prove('component check', (c.raises(lambda: g.check_files(check_bkgfile_components=True), ValueError) is None) == all(ext.values()))
    c.prove('everything at once', (c.raises(lambda: g.check_files(check_zredfile=True, check_bkgfile=True, check_parfile=True, check_zlambdafile=True, check_randfile=True, check_bkgfile_components=True), ValueError) is None) == (all(there.values()) and all(ext.values())))
    c.prove('nothing asked', c.raises(g.check_files, ValueError) is None)
    c.cover('end')


PROPS = {
    'P28': dict(level='model_checking',
                functions=['configuration.Configuration.%s' % f for f in ('__init__', '_galfile_stats', '_set_vars_from_dict', '_set_lengths', '_reset_vars', 'validate', 'copy', 'zrange_cushioned', 'redmapper_filename', 'check_files', 'output_yaml', 'compute_border')] + ['configuration.ConfigField.__set__', 'configuration.ConfigField.validate'],
                bounds='one configuration at a time; arbitrary areas, limits and redshift ranges, every order of the bands, every combination of the settings that a check involves',
                assumptions=['the yaml and FITS readers are stand-ins that return the generated contents'],
                instances=[('build', dict(pix=True, flags=True, what='area', covers=['built', 'area needed'])), ('build', dict(pix=True, flags=True, what='truth', covers=['built', 'no truth'])), ('build', dict(pix=False, flags=False, what='area')), ('build', dict(pix=False, flags=False, what='truth')),
                           ('build', dict(pix=True, flags=False, what='truth', b=False)), ('build', dict(pix=True, flags=True, catlim=True, outpath='/q/out'))] +
                          [('refuse', dict(what=w, **({'covers': ['refused', 'accepted']} if w in ('colours', 'modes', 'redmagic', 'vlim') else {}))) for w in ('missing', 'unknown', 'colours', 'modes', 'redmagic', 'vlim', 'zrange', 'mask', 'annuli')] +
                          [('later', dict(covers=['later'])), ('later', dict(part='yaml', covers=['yaml'])), ('later', dict(part='yaml', set=True)), ('later', dict(part='yaml', nob=True)), ('derived', dict(covers=['end'])), ('derived', dict(beta=0.0, names=True))]),
}
