"""Import of the code under test from the current /repo working tree.

`sym`  mode: the modules' source is executed with a private builtins dict, so
             that `import numpy` (and scipy, math, esutil, ...) gives the
             symbolic stand-ins.  Nothing in /repo is edited.
`conc` mode: the untouched modules with the real numpy, and the two C
             extensions compiled from the current tree into a scratch folder.
"""
import sys
import os
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import types
import math
import subprocess
import sysconfig
import numpy as np
from . import core, arr
from .core import Sym, SymB, is_sym, EngineLimit

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'redmapper'


class ModProxy(object):
    def __init__(self, real, over):
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        self.__dict__['__name__'] = real.__name__

    def __getattr__(self, name):
        o = self._over.get(name)
        if o is not None:
            return o
        v = getattr(self._real, name)
        if isinstance(v, types.ModuleType) and v.__name__ in PROXIES:
            return PROXIES[v.__name__]
        if callable(v) and not isinstance(v, type) and self.__dict__.get('_guard', True):
            def g(*a, **k):
                return v(*[_plain(x) for x in a], **{kk: _plain(x) for kk, x in k.items()})
            g.__name__ = name
            return g
        return v

    def __setattr__(self, name, v):
        self._over[name] = v


def _plain(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.dtype.names is None:
        return arr._to_plain(x)
    if type(x) is arr.SA:
        return np.array(x, subok=False)
    if isinstance(x, Sym):
        return float(x)
    if isinstance(x, (list, tuple)) and any(isinstance(i, np.ndarray) or is_sym(i) for i in x):
        return type(x)(_plain(i) for i in x)
    return x


PROXIES = {}


def _elem(name, real):
    def f(x, *a, **k):
        if arr.is_symish(x):
            return arr.elementwise(arr.UF[name], x)
        return real(x, *a, **k)
    return f


def esutil_match(a, b, presorted=False):
    """esutil.numpy_util.match: index pairs of equal elements (first array unique)"""
    import esutil
    if not (arr.has_sym(a) or arr.has_sym(b)):
        return esutil.numpy_util.match(_plain(np.atleast_1d(a)), _plain(np.atleast_1d(b)))
    a, b = list(arr.sa(a).flat), list(arr.sa(b).flat)
    i1, i2 = [], []
    for j, y in enumerate(b):
        for i, x in enumerate(a):
            if bool(x == y):
                i1.append(i)
                i2.append(j)
                break
    return np.array(i1, dtype=np.int64), np.array(i2, dtype=np.int64)


def esutil_histogram(data, min=None, max=None, binsize=1.0, nbin=None, rev=False, **k):
    """esutil.stat.histogram with reverse indices"""
    import esutil
    if not (arr.has_sym(data) or is_sym(min) or is_sym(max) or is_sym(binsize)):
        kw = dict(k)
        if min is not None:
            kw['min'] = min
        if max is not None:
            kw['max'] = max
        return esutil.stat.histogram(_plain(data), binsize=binsize, nbin=nbin, rev=rev, **kw)
    if nbin is not None or k:
        raise EngineLimit('histogram options')
    d = list(arr.sa(data).flat)
    dmin = arr.SNP.min(arr.sa(d)) if min is None else min
    dmax = arr.SNP.max(arr.sa(d)) if max is None else max
    nb = core.floor_sym((dmax - dmin) / binsize) + 1
    nb = core.concretize_int(nb) if is_sym(nb) else int(nb)
    bins = [[] for _ in range(nb)]
    order = [i for i in arr._sort_idx(d)]
    for i in order:
        x = d[i]
        if bool(x < dmin) or bool(x > dmax):
            continue
        b = core.floor_sym((x - dmin) / binsize)
        b = core.concretize_int(b) if is_sym(b) else int(b)
        if 0 <= b < nb:
            bins[b].append(i)
    h = np.array([len(b) for b in bins], dtype=np.int64)
    if not rev:
        return h
    off = [nb + 1]
    body = []
    for b in bins:
        body.extend(b)
        off.append(off[-1] + len(b))
    return h, np.array(off + body, dtype=np.int64)


_SB = [0]


def solve_banded(lu, ab, b, **k):
    """scipy.linalg.solve_banded: fresh unknowns constrained by the (non-singular) system"""
    import scipy.linalg
    if not (arr.has_sym(ab) or arr.has_sym(b)):
        return arr.sa(scipy.linalg.solve_banded(lu, _plain(ab), _plain(b), **k))
    l, u = lu
    ab, b = arr.sa(ab), arr.sa(b)
    n = b.shape[0]
    e = core.eng()
    _SB[0] = len(e.fresh)
    import z3
    x = [Sym(e.newvar('band!%d!%d' % (_SB[0], i))) for i in range(n)]
    for i in range(n):
        s = 0.0
        for j in range(max(0, i - l), min(n, i + u + 1)):
            s = s + ab[u + i - j, j] * x[j]
        e.lemma(core.z3real(s) == core.z3real(b[i]))
    return arr.sa(x)


def setup_proxies():
    if PROXIES:
        return
    import scipy, scipy.special, scipy.optimize, scipy.interpolate, scipy.integrate, scipy.ndimage
    import esutil
    PROXIES['numpy'] = arr.SNP
    PROXIES['numpy.random'] = arr.SNP.random
    PROXIES['numpy.linalg'] = arr.SNP.linalg

    def gen_gamma(x):
        return core.fapp('gamma', x) if is_sym(x) else scipy.special.gamma(x)
    sp = {'erf': _elem('erf', scipy.special.erf), 'gamma': gen_gamma,
          'erfc': lambda x: 1.0 - _elem('erf', scipy.special.erf)(x)}
    PROXIES['scipy.special'] = ModProxy(scipy.special, sp)
    PROXIES['scipy.optimize'] = ModProxy(scipy.optimize, {})
    PROXIES['scipy.interpolate'] = ModProxy(scipy.interpolate, {})
    def trapezoid(y, x=None, dx=1.0, axis=-1):
        if not (arr.has_sym(y) or (x is not None and arr.has_sym(x))):
            return scipy.integrate.trapezoid(_plain(y), x=_plain(x) if x is not None else None, dx=dx, axis=axis)
        y = list(arr.sa(y).flat)
        xs = [dx * i for i in range(len(y))] if x is None else list(arr.sa(x).flat)
        t = 0
        for i in range(len(y) - 1):
            t = t + (xs[i + 1] - xs[i]) * (y[i] + y[i + 1]) / 2.0
        return t

    def simpson(y, x=None, dx=1.0, axis=-1, **k):
        if not (arr.has_sym(y) or (x is not None and arr.has_sym(x))):
            return scipy.integrate.simpson(_plain(y), x=_plain(x) if x is not None else None, dx=dx, axis=axis, **k)
        y = list(arr.sa(y).flat)
        n = len(y)
        xs = [dx * i for i in range(n)] if x is None else list(arr.sa(x).flat)
        if n < 3:
            raise core.EngineLimit('simpson with too few points')
        t = 0
        if n % 2 == 0:
            # the last interval: the parabola through the last three points (Cartwright), as scipy does
            h0, h1 = xs[-2] - xs[-3], xs[-1] - xs[-2]
            t = (y[-1] * (2 * h1 * h1 + 3 * h0 * h1) / (6 * (h1 + h0)) + y[-2] * (h1 * h1 + 3.0 * h0 * h1) / (6 * h0) -
                 y[-3] * h1 * h1 * h1 / (6 * h0 * (h0 + h1)))
            n -= 1
        for i in range(0, n - 2, 2):
            h0, h1 = xs[i + 1] - xs[i], xs[i + 2] - xs[i + 1]
            t = t + (h0 + h1) / 6.0 * (y[i] * (2.0 - h1 / h0) + y[i + 1] * ((h0 + h1) * (h0 + h1) / (h0 * h1)) + y[i + 2] * (2.0 - h0 / h1))
        return t
    PROXIES['scipy.integrate'] = ModProxy(scipy.integrate, {'simpson': simpson, 'trapezoid': trapezoid, 'trapz': trapezoid})
    PROXIES['scipy.ndimage'] = ModProxy(scipy.ndimage, {})
    import scipy.linalg
    PROXIES['scipy.linalg'] = ModProxy(scipy.linalg, {'solve_banded': solve_banded})
    PROXIES['scipy'] = ModProxy(scipy, {})
    m = {}
    for n in ('exp', 'log', 'log10', 'sqrt', 'sin', 'cos', 'tan', 'erf', 'fabs'):
        m[n] = _elem(n, getattr(math, n))
    m['pow'] = lambda a, b: core.power(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b)
    m['isfinite'] = lambda x: True if is_sym(x) else math.isfinite(x)
    m['isnan'] = lambda x: False if is_sym(x) else math.isnan(x)
    m['floor'] = lambda x: core.floor_sym(x)
    m['ceil'] = lambda x: -core.floor_sym(-x) if is_sym(x) else math.ceil(x)
    PROXIES['math'] = ModProxy(math, m)
    PROXIES['esutil.numpy_util'] = ModProxy(esutil.numpy_util, {'match': esutil_match})
    PROXIES['esutil.stat'] = ModProxy(esutil.stat, {'histogram': esutil_histogram})
    PROXIES['esutil'] = ModProxy(esutil, {})
    PROXIES['esutil'].__dict__['_guard'] = False


class _FltMeta(type):
    def __call__(cls, x=0.0):
        if is_sym(x):
            return core.cast(x, 'f8')
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            return cls(x.item())
        return float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __subclasscheck__(cls, o):
        return issubclass(o, float)


class SymFloat(metaclass=_FltMeta):
    dtype = np.dtype('f8')
    fromhex = float.fromhex


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if is_sym(x):
            return core.trunc_sym(x)
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            return cls(x.item())
        return int(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, Sym) and o.e.is_int())

    def __subclasscheck__(cls, o):
        return issubclass(o, int)


class SymInt(metaclass=_IntMeta):
    dtype = np.dtype('i8')


def _range(*a):
    return range(*[core.concretize_int(x) if is_sym(x) else x for x in a])


def _len(x):
    return len(x)


def _min(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if not k and any(is_sym(x) for x in a):
        return arr._red_l(list(a), core.min2)
    return min(a, **k)


def _max(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if not k and any(is_sym(x) for x in a):
        return arr._red_l(list(a), core.max2)
    return max(a, **k)


def _round(x, n=None):
    if is_sym(x):
        return core.rint_sym(x)
    return round(x, n) if n is not None else round(x)


FAKE = {}       # fake modules (full name -> module), sym mode
_real_import = builtins.__import__


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = _real_import(name, globals, locals, fromlist, level)
    if level == 0 and isinstance(m, types.ModuleType) and m.__name__ in PROXIES:
        return PROXIES[m.__name__]
    return m


def sym_builtins():
    d = dict(vars(builtins))
    d.update({'__import__': _sym_import, 'float': SymFloat, 'int': SymInt, 'range': _range,
              'min': _min, 'max': _max, 'round': _round, 'print': lambda *a, **k: None, '__symfmt__': _symfmt})
    return d


def _symfmt(fmt, arg):
    """'...%.2f' % value of a message; symbolic reals have no decimal expansion and print as a placeholder"""
    try:
        return fmt % arg
    except core.EngineLimit:
        import re
        items = arg if isinstance(arg, tuple) else (arg,)
        specs = re.findall(r'%[-+ #0-9.]*[a-zA-Z%]', fmt)
        specs = [x for x in specs if x[-1] != '%']
        if len(specs) != len(items):
            raise
        out = []
        for sp, it in zip(specs, items):
            try:
                out.append(sp % (it,))
            except core.EngineLimit:
                if sp[-1] not in 'fFeEgG':
                    raise
                out.append('<symbolic>')
        return re.sub(r'%[-+ #0-9.]*[a-zA-Z]', '%s', fmt) % tuple(out)


class _Fmt(ast.NodeTransformer):
    """printf-style formatting of a literal goes through _symfmt"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id='__symfmt__', ctx=ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, mode):
        self.name, self.path, self.mode = name, path, mode

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        if self.mode == 'sym':
            src = ast.fix_missing_locations(_Fmt().visit(ast.parse(src, self.path)))
        code = compile(src, self.path, 'exec', dont_inherit=True)
        if self.mode == 'sym':
            module.__dict__['__builtins__'] = sym_builtins()
        exec(code, module.__dict__)


class _FakeLoader(importlib.abc.Loader):
    def __init__(self, mod):
        self.mod = mod

    def create_module(self, spec):
        return self.mod

    def exec_module(self, module):
        pass


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mode, root):
        self.mode = mode
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        if name in FAKE:
            return importlib.util.spec_from_loader(name, _FakeLoader(FAKE[name]))
        rel = name.split('.')
        base = os.path.join(self.root, *rel)
        if name.endswith('_pywrap'):
            if self.mode == 'sym':
                m = types.ModuleType(name)
                m.Solver = _lazy_ext('solver_nfw', 'Solver')
                m.ChisqDist = _lazy_ext('chisq_dist', 'ChisqDist')
                FAKE[name] = m
                return importlib.util.spec_from_loader(name, _FakeLoader(m))
            so = build_ext(rel[-1])
            return importlib.util.spec_from_file_location(name, so)
        if name == PKG + '._version' and not os.path.isfile(base + '.py'):
            m = types.ModuleType(name)
            m.__version__ = m.version = '1.0.0'
            return importlib.util.spec_from_loader(name, _FakeLoader(m))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=_Loader(name, p, self.mode), submodule_search_locations=[base])
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p, self.mode))
        return None


_CEXT = {}


def cext(which):
    """(interpreted program, extension type) built from the C sources of the current tree"""
    if which not in _CEXT:
        from . import cinterp
        _CEXT[which] = cinterp.extension(which, None, REPO)
    p, t = _CEXT[which]
    p.steps = 0
    return p, t


def _lazy_ext(which, cls):
    def make(*a):
        p, t = cext(which)
        p.lu = {}
        p.neig = len(core.eng().fresh)
        return t(*a)
    make.__name__ = cls
    return make


def install(mode):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if mode == 'sym':
        setup_proxies()
    sys.meta_path.insert(0, Finder(mode, REPO))


_EXT = {}


def build_ext(name):
    """compile one extension from the current tree into a scratch folder"""
    if name in _EXT:
        return _EXT[name]
    import tempfile
    import atexit
    import shutil
    d = os.environ.get('VERIF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='verif_ext_')
        atexit.register(shutil.rmtree, d, True)
    which = {'_solver_nfw_pywrap': 'solver_nfw', '_chisq_dist_pywrap': 'chisq_dist'}[name]
    src = os.path.join(REPO, PKG, which)
    out = os.path.join(d, name + sysconfig.get_config_var('EXT_SUFFIX'))
    if not os.path.isfile(out):
        cs = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.c'))
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = ['gcc', '-shared', '-fPIC', '-O2', '-w', '-I', np.get_include(),
               '-I', sysconfig.get_paths()['include'], '-I', src, '-o', tmp] + cs + ['-lgsl', '-lgslcblas', '-lm']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('C build failed: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    _EXT[name] = out
    return out
