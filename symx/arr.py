"""numpy surface for symbolic values.

`SA` is an ndarray subclass of dtype object whose elements are plain numbers
or `Sym`/`SymB`.  `SymNP` is the stand-in for the numpy module seen by the
code under test: floating allocations become object arrays, every function
with symbolic arguments is evaluated elementwise, and everything else falls
through to the real numpy.
"""
import math
import builtins
import functools
import itertools
import numpy as np
from . import core
from .core import (Sym, SymB, is_sym, ite, mk, EngineLimit, cast, concretize_int,
                   min2, max2, clip1, z3bool)
import z3


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(is_sym(i) for i in x.flat)
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def is_symish(x):
    """argument that must be handled by the symbolic layer"""
    if is_sym(x) or isinstance(x, SA):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_symish(i) for i in x)
    return False


class SA(np.ndarray):
    """object array with symbolic-aware indexing"""
    __array_priority__ = 900

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return sym_function(func, args, kwargs)

    # ----- indexing
    def __getitem__(self, key):
        k, merged = norm_key(key)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, key, val):
        if self.dtype == object and isinstance(key, np.ndarray) and key.dtype == object \
                and key.shape == self.shape[:key.ndim] and _is_boolish(key) and has_sym(key):
            # masked assignment without forking when the value does not depend on the mask's size
            if is_sym(val) or np.ndim(val) == 0:
                for idx in np.ndindex(*key.shape):
                    c = np.ndarray.__getitem__(key, idx)
                    if key.ndim == self.ndim:
                        old = np.ndarray.__getitem__(self, idx)
                        np.ndarray.__setitem__(self, idx, ite(c, _scalar(val), old))
                    else:
                        sub = np.ndarray.__getitem__(self, idx)
                        for j in np.ndindex(*sub.shape):
                            sub[j] = ite(c, _scalar(val), sub[j])
                return
        k, _ = norm_key(key)
        np.ndarray.__setitem__(self, k, val)

    def __contains__(self, x):
        return any(bool(i == x) for i in self.flat)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __index__(self):
        return self.item().__index__()

    # ----- methods
    def astype(self, dt, *a, **k):
        if self.dtype.names is not None:
            return np.ndarray.astype(self, SNP._fix_dtype(dt), *a, **k)
        kind = core._kind(dt)
        out = np.empty_like(np.asarray(self), dtype=object, order=k.get('order', 'K')).view(SA)
        allc = True
        for idx in np.ndindex(*self.shape):
            v = np.ndarray.__getitem__(self, idx)
            if is_sym(v):
                v = cast(v, dt)
                allc = allc and not is_sym(v)
            elif v is not None and kind in 'iub':
                v = np.dtype(dt).type(v)
            elif kind == 'f':
                v = float(v)
            out[idx] = v
        if allc and kind in 'iub':
            return np.array(out.tolist(), dtype=dt).reshape(self.shape)
        return out

    def sum(self, axis=None, dtype=None, out=None, **k): return _sum(self, axis)
    def mean(self, axis=None, **k): return _mean(self, axis)
    def min(self, axis=None, **k): return _reduce(min2, self, axis)
    def max(self, axis=None, **k): return _reduce(max2, self, axis)
    def prod(self, axis=None, **k): return _reduce(lambda a, b: a * b, self, axis)
    def cumsum(self, axis=None, **k): return _cumsum(self, axis)
    def argmin(self, axis=None, **k): return _argmin(self, axis)
    def argmax(self, axis=None, **k): return _argmax(self, axis)
    def argsort(self, *a, **k): return _argsort(self)
    def sort(self, *a, **k): self[...] = _sort(self)
    def any(self, axis=None, **k): return _any(self, axis)
    def all(self, axis=None, **k): return _all(self, axis)
    def clip(self, min=None, max=None, **k): return SNP.clip(self, min, max)
    def std(self, axis=None, **k): return _std(self, axis)
    def var(self, axis=None, **k): return _std(self, axis, var=True)
    def dot(self, o): return _dot(self, o)
    def searchsorted(self, v, side='left', sorter=None): return _searchsorted(self, v, side, sorter)
    def nonzero(self): return SNP.where(self)
    def tolist(self):
        return np.asarray(self).tolist()
    def item(self, *a):
        return np.ndarray.item(self.view(np.ndarray), *a)
    def round(self, *a, **k): return SNP.round(self)
    def repeat(self, n, axis=None): return sa_from(np.repeat(self.view(np.ndarray), n, axis))
    def take(self, i, **k): return self[i]

    def __matmul__(self, o): return _dot(self, o)
    def __rmatmul__(self, o): return _dot(o, self)

    def __reduce__(self):
        raise EngineLimit('pickle of symbolic array')


def _scalar(v):
    if isinstance(v, np.ndarray):
        return v.reshape(-1)[0]
    return v


def _is_boolish(a):
    return all(isinstance(i, (SymB, bool, np.bool_)) for i in a.flat)


def norm_key(key):
    """turn symbolic index arrays into concrete ones by forking"""
    if isinstance(key, tuple):
        return tuple(norm_key(k)[0] for k in key), False
    if isinstance(key, SymB):
        return bool(key), False
    if isinstance(key, Sym):
        return concretize_int(key), False
    if isinstance(key, slice):
        f = lambda v: concretize_int(v) if is_sym(v) else v
        return slice(f(key.start), f(key.stop), f(key.step)), False
    if isinstance(key, list):
        if has_sym(key):
            key = sa(key)
        else:
            return key, False
    if isinstance(key, np.ndarray) and key.dtype == object and key.dtype.names is None:
        flat = [i for i in key.flat]
        if len(flat) == 0:
            return np.zeros(key.shape, dtype=np.int64), False
        if all(isinstance(i, (SymB, bool, np.bool_)) for i in flat):
            return np.array([bool(i) for i in flat], dtype=bool).reshape(key.shape), False
        out = [concretize_int(i) if is_sym(i) else int(i) for i in flat]
        if any(isinstance(i, float) for i in flat):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return np.array(out, dtype=np.int64).reshape(key.shape), False
    return key, False


def sa(x):
    """make an SA from a (nested) list / array / scalar"""
    if isinstance(x, SA):
        return x
    if isinstance(x, np.ndarray):
        return x.astype(object).view(SA) if x.dtype.names is None else x.view(SA)
    if isinstance(x, (list, tuple)):
        shp = _shape(x)
        out = np.empty(shp, dtype=object)
        for idx in np.ndindex(*shp):
            v = x
            for i in idx:
                v = v[i]
            out[idx] = _scalar(v)
        return out.view(SA)
    out = np.empty((), dtype=object)
    out[()] = x
    return out.view(SA)


def sa_from(a):
    return np.asarray(a).view(SA)


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        return (len(x),) + _shape(x[0])
    return ()


def unwrap0(x):
    if isinstance(x, np.ndarray) and x.shape == () and x.dtype.names is None:
        return x.item() if x.dtype == object else x[()]
    return x


# --------------------------------------------------------------------------
# elementwise functions

def _u(name):
    def f(x):
        if is_sym(x):
            if isinstance(x, SymB):
                x = x._num()
            return getattr(x, name)()
        with np.errstate(all='ignore'):
            return getattr(np, name)(float(x) if not isinstance(x, (bool, np.bool_)) else x)
    return f


def _isfinite(x):
    return True if is_sym(x) else bool(np.isfinite(x))


def _isnan(x):
    return False if is_sym(x) else bool(np.isnan(x))


def _isinf(x):
    return False if is_sym(x) else bool(np.isinf(x))


def _logical(op):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return bool(a) and bool(b) if op == 'and' else (bool(a) or bool(b) if op == 'or' else bool(a) != bool(b))
        x, y = z3bool(a), z3bool(b)
        return mk({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
    return f


def _not(a):
    return mk(z3.Not(z3bool(a))) if is_sym(a) else (not bool(a))


def _invert(a):
    if isinstance(a, (SymB, Sym)):
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def _sign(a):
    if is_sym(a):
        return ite(a > 0, 1.0, ite(a < 0, -1.0, 0.0))
    return np.sign(a)


def _hyp(a, b):
    return core.fsqrt(a * a + b * b) if (is_sym(a) or is_sym(b)) else math.hypot(a, b)


def _exp_c(x):
    return x


def _arctan2(a, b):
    raise EngineLimit('arctan2')


def _float_power(a, b):
    if is_sym(a) or is_sym(b):
        return core.power(a, b)
    with np.errstate(all='ignore'):
        return np.power(np.float64(a), b) if not isinstance(b, int) or b < 0 else a ** b


UF = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: _mul(a, b),
    'divide': _div, 'true_divide': _div, 'negative': lambda a: -a, 'positive': lambda a: a,
    'floor_divide': lambda a, b: a // b, 'remainder': lambda a, b: a % b, 'fmod': lambda a, b: _fmod(a, b),
    'mod': lambda a, b: a % b,
    'power': _float_power, 'float_power': _float_power, 'square': lambda a: a * a,
    'exp': lambda a: core.fexp(a) if is_sym(a) else _u('exp')(a),
    'exp2': lambda a: core.power(2.0, a), 'expm1': lambda a: (core.fexp(a) - 1.0) if is_sym(a) else np.expm1(a),
    'log': _u('log'), 'log10': _u('log10'), 'log2': lambda a: core.flog(a) / core._frac(math.log(2.)) if is_sym(a) else np.log2(a),
    'log1p': lambda a: core.flog(1.0 + a) if is_sym(a) else np.log1p(a),
    'sqrt': _u('sqrt'), 'sin': _u('sin'), 'cos': _u('cos'), 'tan': _u('tan'), 'arctan': _u('arctan'),
    'arcsin': _u('arcsin'), 'arccos': _u('arccos'), 'arctan2': _arctan2,
    'floor': _u('floor'), 'ceil': _u('ceil'), 'rint': _u('rint'), 'trunc': _u('trunc'),
    'absolute': abs, 'fabs': abs, 'abs': abs, 'sign': _sign, 'hypot': _hyp,
    'reciprocal': lambda a: _div(1.0, a),
    'minimum': min2, 'maximum': max2, 'fmin': min2, 'fmax': max2,
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_and': _logical('and'), 'logical_or': _logical('or'), 'logical_xor': _logical('xor'),
    'logical_not': _not, 'invert': _invert,
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'bitwise_xor': lambda a, b: a ^ b,
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
    'isfinite': _isfinite, 'isnan': _isnan, 'isinf': _isinf,
    'deg2rad': lambda a: a * core._frac(math.pi / 180.), 'radians': lambda a: a * core._frac(math.pi / 180.),
    'rad2deg': lambda a: a * core._frac(180. / math.pi), 'degrees': lambda a: a * core._frac(180. / math.pi),
    'conjugate': lambda a: a, 'copysign': None, 'erf': lambda a: a.erf() if is_sym(a) else math.erf(a),
}


def _mul(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return a * b
    return a * b


def _fmod(a, b):
    if is_sym(a) or is_sym(b):
        q = core.trunc_sym(a / b)
        return a - q * b
    return math.fmod(a, b)


def elementwise(f, *args):
    arrs = [a if isinstance(a, np.ndarray) else None for a in args]
    if all(a is None and not isinstance(x, (list, tuple)) for a, x in zip(arrs, args)):
        return f(*_pyvals(args))
    objs = [a if isinstance(a, np.ndarray) else sa(a) for a in args]
    b = np.broadcast(*[np.empty(o.shape, dtype=bool) for o in objs]) if len(objs) > 1 else None
    shape = b.shape if b is not None else objs[0].shape
    bo = [np.broadcast_to(o.view(np.ndarray), shape) for o in objs]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = f(*_pyvals([o[idx] for o in bo]))
    return _tidy(out)


def _pyvals(vs):
    # NumPy scalars must not meet symbolic values: their operators would come back here
    if any(is_sym(v) for v in vs):
        return [v.item() if isinstance(v, np.generic) else v for v in vs]
    return [_pyval(v) for v in vs]


def _pyval(v):
    if isinstance(v, np.bool_):
        return bool(v)
    return v


def _tidy(out):
    """object array -> SA; all-concrete booleans become a real bool array"""
    if out.shape == ():
        return out.item()
    if out.size and all(isinstance(i, (bool, np.bool_)) for i in out.flat):
        return out.astype(bool)
    return out.view(SA)


def sym_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    if method == '__call__':
        if any(isinstance(i, np.ndarray) and i.dtype.names is not None for i in inputs):
            raise EngineLimit('ufunc on structured array')
        f = UF.get(name)
        if f is None:
            if not any(has_sym(i) for i in inputs):
                conv = [_to_plain(i) for i in inputs]
                return ufunc(*conv, **kw)
            raise EngineLimit('ufunc %s' % name)
        if where is not True:
            raise EngineLimit('ufunc where=')
        r = elementwise(f, *inputs)
        if out is not None:
            o = out[0]
            if o.dtype != object:
                if has_sym(r):
                    raise EngineLimit('in-place symbolic result into %s array' % o.dtype)
                o[...] = r
            else:
                o[...] = r
            return o
        return r
    if method == 'reduce':
        f = UF.get(name)
        axis = kw.get('axis', 0)
        if name == 'logical_and':
            return _all(inputs[0], axis)
        if name == 'logical_or':
            return _any(inputs[0], axis)
        if name == 'add':
            return _sum(inputs[0], axis)
        return _reduce(f, inputs[0], axis)
    if method == 'accumulate' and name == 'add':
        return _cumsum(inputs[0], kw.get('axis', 0))
    if method == 'outer':
        a, b = sa(inputs[0]), sa(inputs[1])
        return elementwise(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        k, _ = norm_key(idx)
        vals = inputs[2] if len(inputs) > 2 else None
        k = np.atleast_1d(k) if not isinstance(k, tuple) else k
        if isinstance(k, tuple):
            bk = np.broadcast_arrays(*k)
            keys = list(zip(*[b.ravel() for b in bk]))
        else:
            keys = [i for i in k.ravel()]
        vb = np.broadcast_to(sa(vals).view(np.ndarray), (len(keys),))
        for kk, v in zip(keys, vb):
            a[kk] = UF[name](a[kk], v)
        return None
    raise EngineLimit('ufunc method %s' % method)


def _to_plain(x):
    """object array without symbolic entries -> ordinary array"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        l = [i for i in x.flat]
        if any(is_sym(i) for i in l):
            raise EngineLimit('symbolic value reaches a concrete-only function')
        return np.array(l).reshape(x.shape) if l else np.zeros(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(_to_plain(i) for i in x)
    if isinstance(x, Sym):
        return float(x)
    return x


# --------------------------------------------------------------------------
# reductions

def _axis(fn):
    @functools.wraps(fn)
    def g(a, axis=None, *r, **k):
        a = sa(a)
        if axis is None:
            return fn(list(a.flat), *r, **k)
        if isinstance(axis, tuple):
            for ax in sorted([x % a.ndim for x in axis], reverse=True):
                a = g(a, ax)
            return a
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for idx in np.ndindex(*m.shape[:-1]):
            out[idx] = fn([i for i in m[idx]], *r, **k)
        return _tidy(out)
    return g


def _sum_l(l):
    s = 0.0
    first = True
    for i in l:
        if isinstance(i, SymB):
            i = i._num()
        elif isinstance(i, (bool, np.bool_)):
            i = int(i)
        s = i if first else s + i
        first = False
    return s


_sum = _axis(_sum_l)


def _red_l(l, f):
    if not l:
        raise ValueError("zero-size array to reduction operation which has no identity")
    r = l[0]
    for i in l[1:]:
        r = f(r, i)
    return r


def _reduce(f, a, axis=None):
    return _axis(lambda l: _red_l(l, f))(a, axis)


_mean = _axis(lambda l: _sum_l(l) / float(len(l)) if l else float('nan'))


def _std_l(l, var=False):
    m = _sum_l(l) / float(len(l))
    v = _sum_l([(i - m) * (i - m) for i in l]) / float(len(l))
    return v if var else UF['sqrt'](v)


def _std(a, axis=None, var=False):
    return _axis(lambda l: _std_l(l, var))(a, axis)


def _median_l(l):
    s = _sorted(l)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def _any(a, axis=None):
    return _axis(lambda l: _red_l([False] + l, _logical('or')))(a, axis)


def _all(a, axis=None):
    return _axis(lambda l: _red_l([True] + l, _logical('and')))(a, axis)


def _cumsum(a, axis=None):
    a = sa(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        s = None
        for j in range(m.shape[-1]):
            v = m[idx + (j,)]
            v = v._num() if isinstance(v, SymB) else v
            s = v if s is None else s + v
            out[idx + (j,)] = s
    return np.moveaxis(out, -1, axis).view(SA)


def _argbest(l, better):
    if not l:
        raise ValueError("attempt to get argmax of an empty sequence")
    b = 0
    if _isnan(l[0]):
        return 0
    for i in range(1, len(l)):
        if _isnan(l[i]):
            return i
        if bool(better(l[i], l[b])):
            b = i
    return b


def _argmin(a, axis=None):
    r = _axis(lambda l: _argbest(l, lambda x, y: x < y))(a, axis)
    return r if not isinstance(r, np.ndarray) else r.astype(np.int64)


def _argmax(a, axis=None):
    r = _axis(lambda l: _argbest(l, lambda x, y: x > y))(a, axis)
    return r if not isinstance(r, np.ndarray) else r.astype(np.int64)


def _lt(a, b):
    """numpy sort order: nan last"""
    if _isnan(a):
        return False
    if _isnan(b):
        return True
    return bool(a < b)


def _sort_idx(l):
    """stable insertion sort (what numpy does below 17 elements)"""
    idx = []
    for i in range(len(l)):
        j = len(idx)
        while j > 0 and _lt(l[i], l[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def _sorted(l):
    return [l[i] for i in _sort_idx(l)]


def _argsort(a, axis=-1, **k):
    a = sa(a)
    if a.ndim == 1:
        return np.array(_sort_idx(list(a.flat)), dtype=np.int64)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(m.shape, dtype=np.int64)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = _sort_idx(list(m[idx]))
    return np.moveaxis(out, -1, axis)


def _sort(a, axis=-1, **k):
    a = sa(a)
    if a.ndim == 1:
        return sa(_sorted(list(a.flat)))
    raise EngineLimit('sort of nd array')


def _searchsorted(a, v, side='left', sorter=None):
    al = list(sa(a).flat)
    if sorter is not None:
        al = [al[int(i)] for i in np.asarray(sorter).flat]

    def one(x):
        n = 0
        lo, hi = 0, len(al)
        while lo < hi:
            mid = (lo + hi) // 2
            c = bool(al[mid] < x) if side == 'left' else bool(al[mid] <= x)
            if c:
                lo = mid + 1
            else:
                hi = mid
        return lo
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        v = sa(v)
        out = np.array([one(x) for x in v.flat], dtype=np.int64)
        return out.reshape(v.shape)
    return one(v)


def _dot(a, b):
    a, b = sa(a), sa(b)
    if a.ndim == 1 and b.ndim == 1:
        return _sum_l([x * y for x, y in zip(a.flat, b.flat)])
    if a.ndim == 2 and b.ndim == 1:
        return sa([_dot(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return sa([_dot(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        return sa([[_dot(a[i], b[:, j]) for j in range(b.shape[1])] for i in range(a.shape[0])])
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    raise EngineLimit('dot of %d,%d dims' % (a.ndim, b.ndim))


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    s = 0
    for j in range(n):
        minor = sa([[m[i, k] for k in range(n) if k != j] for i in range(1, n)])
        t = m[0, j] * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def _inv(m):
    m = sa(m)
    n = m.shape[0]
    d = _det(m)
    if n == 1:
        return sa([[1.0 / m[0, 0]]])
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = sa([[m[a, b] for b in range(n) if b != i] for a in range(n) if a != j])
            c = _det(minor)
            out[i][j] = (c if (i + j) % 2 == 0 else -c) / d
    return sa(out)


def _where1(c):
    c = sa(c)
    k = np.array([bool(i) for i in c.flat], dtype=bool).reshape(c.shape)
    return np.where(k)


def sym_function(func, args, kwargs):
    name = func.__name__
    f = getattr(SymNP, name, None)
    if f is not None and name not in ('__class__',):
        return getattr(SNP, name)(*args, **kwargs)
    # structural functions: run on the plain object array and re-wrap
    r = func(*[_strip(a) for a in args], **{k: _strip(v) for k, v in kwargs.items()})
    return _rewrap(r)


def _strip(a):
    if isinstance(a, SA):
        return a.view(np.ndarray)
    if isinstance(a, (list, tuple)):
        return type(a)(_strip(i) for i in a)
    return a


def _rewrap(r):
    if isinstance(r, np.ndarray) and (r.dtype == object or r.dtype.names is not None):
        return r.view(SA)
    if isinstance(r, tuple):
        return tuple(_rewrap(i) for i in r)
    if isinstance(r, list):
        return [_rewrap(i) for i in r]
    return r


STRUCTURAL = {'concatenate', 'append', 'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'squeeze',
              'expand_dims', 'vstack', 'hstack', 'dstack', 'column_stack', 'tile', 'repeat', 'delete', 'insert',
              'roll', 'flip', 'flipud', 'fliplr', 'broadcast_to', 'diag', 'diagonal', 'atleast_2d', 'split', 'resize',
              'copyto', 'take', 'meshgrid', 'broadcast_arrays', 'rollaxis', 'array_split', 'rot90', 'triu', 'tril'}


class SymRandom(object):
    """numpy.random: every draw is an unconstrained symbolic value of its documented range"""

    def __init__(self, real):
        self._real = real
        self._n = 0

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        h = RANDOM_HANDLER[0]
        if h is None:
            raise EngineLimit('numpy.random.%s without a random model' % name)
        return getattr(h, name)


RANDOM_HANDLER = [None]


class SymNP(object):
    """stand-in for the numpy module"""

    def __init__(self):
        self.random = SymRandom(np.random)
        self.linalg = SymLinalg()
        self.ma = np.ma

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            def uf(*a, **k):
                if any(is_symish(x) for x in a):
                    return sym_ufunc(v, '__call__', tuple(sa(x) if isinstance(x, (list, tuple)) else x for x in a), dict(k))
                return v(*a, **k)
            uf.__name__ = name
            uf.reduce = lambda a, axis=0, **k: sym_ufunc(v, 'reduce', (a,), dict(axis=axis)) if is_symish(a) else v.reduce(a, axis=axis, **k)
            uf.accumulate = lambda a, axis=0, **k: sym_ufunc(v, 'accumulate', (a,), dict(axis=axis)) if is_symish(a) else v.accumulate(a, axis=axis, **k)
            uf.at = lambda a, i, *b: sym_ufunc(v, 'at', (a, i) + b, {}) if (is_symish(a) or is_symish(i) or any(is_symish(x) for x in b)) else v.at(a, i, *b)
            uf.outer = lambda a, b: sym_ufunc(v, 'outer', (a, b), {}) if (is_symish(a) or is_symish(b)) else v.outer(a, b)
            return uf
        if name in STRUCTURAL:
            def st(*a, **k):
                if any(is_symish(x) for x in a) or any(is_symish(x) for x in k.values()):
                    return _rewrap(v(*[_strip(_obj(x)) for x in a], **{kk: _strip(x) for kk, x in k.items()}))
                return v(*a, **k)
            return st
        if callable(v) and not isinstance(v, type):
            def g(*a, **k):
                if any(is_symish(x) for x in a) or any(is_symish(x) for x in k.values()):
                    return v(*[_to_plain(x) for x in a], **{kk: _to_plain(x) for kk, x in k.items()})
                return v(*a, **k)
            g.__name__ = name
            return g
        return v

    # -- dtype handling
    @staticmethod
    def _fix_dtype(dt):
        """floats become objects"""
        if dt is None or dt is float:
            return object
        if isinstance(dt, np.dtype) and dt.names is not None:
            return np.dtype([SymNP._fix_field(d) for d in _descr(dt)])
        if isinstance(dt, list):
            return np.dtype([SymNP._fix_field(d) for d in dt])
        try:
            d = np.dtype(dt)
        except TypeError:
            return dt
        if d.names is not None:
            return np.dtype([SymNP._fix_field(x) for x in _descr(d)])
        return object if d.kind == 'f' else d

    @staticmethod
    def _fix_field(d):
        d = tuple(d)
        base = d[1]
        shape = tuple(concretize_int(x) if is_sym(x) else x for x in d[2:])
        if isinstance(base, (list,)):
            return (d[0], SymNP._fix_dtype(base)) + tuple(shape)
        b = np.dtype(base) if not isinstance(base, tuple) else np.dtype(base)
        if b.kind == 'f':
            base = 'O'
        elif b.subdtype is not None and b.subdtype[0].kind == 'f':
            return (d[0], 'O', b.subdtype[1])
        elif d[0].lower() in SYM_INT_FIELDS:
            base = 'O'
        return (d[0], base) + tuple(shape)

    def _alloc(self, shape, dtype, fill):
        if isinstance(shape, (Sym, SymB)):
            shape = concretize_int(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(concretize_int(s) if is_sym(s) else int(s) for s in shape)
        elif isinstance(shape, np.ndarray):
            shape = tuple(int(i) for i in np.atleast_1d(shape))
        d = self._fix_dtype(dtype)
        if d == object or (isinstance(d, np.dtype) and d.kind == 'O'):
            a = np.empty(shape, dtype=object)
            a[...] = fill
            return a.view(SA)
        if isinstance(d, np.dtype) and d.names is not None:
            a = np.zeros(shape, dtype=d)
            for n in d.names:
                if d[n] == object or (d[n].subdtype is not None and d[n].subdtype[0] == object):
                    a[n] = float(fill)
            return a.view(SA)
        a = np.empty(shape, dtype=d)
        a[...] = fill if d.kind != 'U' and d.kind != 'S' else b'' if d.kind == 'S' else ''
        return a

    def zeros(self, shape, dtype=None, **k): return self._alloc(shape, dtype, 0.0)
    def ones(self, shape, dtype=None, **k): return self._alloc(shape, dtype, 1.0)
    def empty(self, shape, dtype=None, **k): return self._alloc(shape, dtype, 0.0)

    def full(self, shape, fill, dtype=None, **k):
        if dtype is None and not is_sym(fill):
            dtype = np.array(fill).dtype
        a = self._alloc(shape, dtype, 0.0)
        a[...] = fill
        return a

    def zeros_like(self, a, dtype=None, **k):
        a = sa(a) if not isinstance(a, np.ndarray) else a
        return self._alloc(a.shape, _like_dtype(a, dtype), 0.0)

    def ones_like(self, a, dtype=None, **k):
        a = sa(a) if not isinstance(a, np.ndarray) else a
        return self._alloc(a.shape, _like_dtype(a, dtype), 1.0)

    empty_like = zeros_like

    def full_like(self, a, fill, dtype=None, **k):
        r = self.zeros_like(a, dtype)
        if is_sym(fill) and r.dtype != object:
            r = r.astype(object).view(SA)
        r[...] = fill
        return r

    def eye(self, n, *a, **k):
        return sa(np.eye(n, *a))

    identity = eye

    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, np.ndarray) and x.dtype.names is not None:
            return np.array(x, subok=True) if dtype is None else x.astype(self._fix_dtype(dtype))
        if is_symish(x) or _deep_sym(x):
            a = sa(x)
            if isinstance(x, np.ndarray):
                a = a.copy()
            if dtype is not None:
                a = a.astype(dtype)
            while a.ndim < ndmin:
                a = a.reshape((1,) + a.shape)
            return a
        d = self._fix_dtype(dtype) if dtype is not None else None
        if isinstance(d, np.dtype) and d.names is not None:
            return np.array(x, dtype=d).view(SA)
        r = np.array(x, dtype=dtype, ndmin=ndmin)
        return sa(r) if r.dtype.kind == 'f' and FLOAT_AS_OBJECT[0] else r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and dtype is None:
            return x
        if isinstance(x, SA):
            return x if core._kind(dtype) in 'fO' else x.astype(dtype)
        return self.array(x, dtype=dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    def atleast_1d(self, *xs):
        r = []
        for x in xs:
            if is_sym(x):
                r.append(sa([x]))
            elif is_symish(x):
                a = sa(x)
                r.append(a.reshape(1) if a.ndim == 0 else a)
            else:
                r.append(np.atleast_1d(x))
        return r[0] if len(r) == 1 else r

    def atleast_2d(self, x):
        if is_symish(x):
            a = self.atleast_1d(x)
            return a.reshape((1,) + a.shape) if a.ndim == 1 else a
        return np.atleast_2d(x)

    def copy(self, x, **k):
        if is_sym(x):
            return x
        if is_symish(x):
            return sa(x).copy()
        return np.copy(x)

    def arange(self, *a, **k):
        if any(is_sym(x) for x in a):
            if len(a) == 1:
                return np.arange(concretize_int(core.trunc_sym(-core.floor_sym(-a[0]))), **k)
            start, stop = a[0], a[1]
            step = a[2] if len(a) > 2 else 1
            n = -core.floor_sym(-((stop - start) / step))
            n = builtins.max(0, concretize_int(n) if is_sym(n) else int(n))
            return sa([start + i * step for i in range(n)])
        r = np.arange(*a, **k)
        return sa(r) if r.dtype.kind == 'f' and FLOAT_AS_OBJECT[0] else r

    def linspace(self, a, b, n=50, endpoint=True, **k):
        if is_sym(a) or is_sym(b):
            d = (n - 1) if endpoint else n
            return sa([a + (b - a) * i / float(d) for i in range(n)])
        return np.linspace(a, b, n, endpoint=endpoint, **k)

    def clip(self, x, lo=None, hi=None, a_min=None, a_max=None, out=None, **k):
        lo = a_min if lo is None else lo
        hi = a_max if hi is None else hi
        if 'min' in k:
            lo = k['min']
        if 'max' in k:
            hi = k['max']
        if is_symish(x) or is_symish(lo) or is_symish(hi):
            r = x
            if lo is not None:
                r = elementwise(max2, r, lo)
            if hi is not None:
                r = elementwise(min2, r, hi)
            if out is not None:
                out[...] = r
                return out
            if isinstance(r, np.ndarray) and r is x:
                r = r.copy()
            return r
        return np.clip(x, lo, hi, out=out)

    def where(self, c, *ab):
        if not ab:
            if is_symish(c):
                return _where1(self.atleast_1d(c))
            return np.where(c)
        if is_symish(c) or is_symish(ab[0]) or is_symish(ab[1]):
            return elementwise(ite, c if isinstance(c, np.ndarray) else c, ab[0], ab[1])
        return np.where(c, *ab)

    def nonzero(self, c): return self.where(c)
    def flatnonzero(self, c): return self.where(sa(c).reshape(-1) if is_symish(c) else np.ravel(c))[0]
    def argwhere(self, c): return np.transpose(self.where(c))

    def select(self, conds, vals, default=0.0):
        r = default
        for c, v in reversed(list(zip(conds, vals))):
            r = self.where(c, v, r)
        return r

    def sum(self, a, axis=None, **k): return _sum(a, axis) if is_symish(a) else np.sum(a, axis=axis, **k)
    def mean(self, a, axis=None, **k): return _mean(a, axis) if is_symish(a) else np.mean(a, axis=axis, **k)
    def std(self, a, axis=None, **k): return _std(a, axis) if is_symish(a) else np.std(a, axis=axis, **k)
    def var(self, a, axis=None, **k): return _std(a, axis, True) if is_symish(a) else np.var(a, axis=axis, **k)
    def median(self, a, axis=None, **k): return _axis(_median_l)(a, axis) if is_symish(a) else np.median(a, axis=axis, **k)
    def min(self, a, axis=None, **k): return _reduce(min2, a, axis) if is_symish(a) else np.min(a, axis=axis, **k)
    def max(self, a, axis=None, **k): return _reduce(max2, a, axis) if is_symish(a) else np.max(a, axis=axis, **k)
    amin = min
    amax = max
    nanmin = min
    nanmax = max
    def prod(self, a, axis=None, **k): return _reduce(lambda x, y: x * y, a, axis) if is_symish(a) else np.prod(a, axis=axis, **k)
    def average(self, a, axis=None, weights=None, **k):
        if not is_symish(a) and not is_symish(weights):
            return np.average(a, axis=axis, weights=weights)
        if weights is None:
            return _mean(a, axis)
        return _sum(sa(a) * weights, axis) / _sum(weights, axis)
    def cumsum(self, a, axis=None, **k): return _cumsum(a, axis) if is_symish(a) else np.cumsum(a, axis=axis, **k)
    def argmin(self, a, axis=None, **k): return _argmin(a, axis) if is_symish(a) else np.argmin(a, axis=axis)
    def argmax(self, a, axis=None, **k): return _argmax(a, axis) if is_symish(a) else np.argmax(a, axis=axis)
    def argsort(self, a, axis=-1, **k): return _argsort(a, axis) if is_symish(a) else np.argsort(a, axis=axis, **k)
    def sort(self, a, **k): return _sort(a) if is_symish(a) else np.sort(a, **k)
    def any(self, a, axis=None, **k): return _any(a, axis) if is_symish(a) else np.any(a, axis=axis)
    def all(self, a, axis=None, **k): return _all(a, axis) if is_symish(a) else np.all(a, axis=axis)
    def ptp(self, a, **k): return self.max(a) - self.min(a)
    def count_nonzero(self, a, **k):
        return concretize_int(_sum([_c for _c in sa(a).flat])) if is_symish(a) else np.count_nonzero(a)
    def dot(self, a, b): return _dot(a, b) if is_symish(a) or is_symish(b) else np.dot(a, b)
    matmul = dot
    def outer(self, a, b):
        return sym_ufunc(np.multiply, 'outer', (sa(a).reshape(-1), sa(b).reshape(-1)), {}) if is_symish(a) or is_symish(b) else np.outer(a, b)
    def trace(self, a): return _sum_l([a[i, i] for i in range(a.shape[0])])
    def searchsorted(self, a, v, side='left', **k):
        if is_symish(a) or is_symish(v):
            return _searchsorted(a, v, side, **k)
        return np.searchsorted(a, v, side=side, **k)
    def digitize(self, x, bins, right=False):
        if is_symish(x) or is_symish(bins):
            return _searchsorted(bins, x, 'left' if right else 'right')
        return np.digitize(x, bins, right=right)
    def interp(self, x, xp, fp, left=None, right=None, **k):
        if not (is_symish(x) or is_symish(xp) or is_symish(fp)):
            return np.interp(x, xp, fp, left=left, right=right)
        xs, fs = list(sa(xp).flat), list(sa(fp).flat)

        def one(v):
            if bool(v < xs[0]):
                return fs[0] if left is None else left
            if bool(v > xs[-1]):
                return fs[-1] if right is None else right
            for i in range(len(xs) - 1):
                if bool(v <= xs[i + 1]):
                    return fs[i] + (fs[i + 1] - fs[i]) * ((v - xs[i]) / (xs[i + 1] - xs[i]))
            return fs[-1]
        return elementwise(one, x)
    def diff(self, a, n=1, axis=-1, **k):
        if not is_symish(a):
            return np.diff(a, n=n, axis=axis)
        a = sa(a)
        for _ in range(n):
            a = a[1:] - a[:-1]
        return a
    def gradient(self, *a, **k): raise EngineLimit('gradient')
    def round(self, a, decimals=0, **k):
        if not is_symish(a):
            return np.round(a, decimals)
        s = 10 ** decimals
        return elementwise(lambda x: core.rint_sym(x * s) * 1.0 / s, a)
    round_ = around = round
    def fix(self, a): return elementwise(lambda x: core.trunc_sym(x) * 1.0, a) if is_symish(a) else np.fix(a)
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if is_symish(a) or is_symish(b):
            return elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)
        return np.isclose(a, b, rtol, atol)
    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k): return self.all(self.isclose(a, b, rtol, atol))
    def array_equal(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        return a.shape == b.shape and self.all(a == b)
    def unique(self, a, return_index=False, return_inverse=False, **k):
        if not is_symish(a):
            return np.unique(a, return_index=return_index, return_inverse=return_inverse, **k)
        if k or return_inverse:
            raise EngineLimit('unique options')
        l = list(sa(a).flat)
        idx = _sort_idx(l)
        keep = []
        for i in idx:
            if not keep or bool(l[keep[-1]] != l[i]):
                keep.append(i)
        u = sa([l[i] for i in keep])
        return (u, np.array(keep)) if return_index else u
    def in1d(self, a, b, invert=False, **k):
        if not (is_symish(a) or is_symish(b)):
            return np.in1d(a, b, invert=invert)
        bl = list(sa(b).flat)
        r = elementwise(lambda x: _red_l([False] + [x == y for y in bl], _logical('or')), sa(a).reshape(-1))
        return ~r if invert else r
    def isin(self, a, b, invert=False, **k):
        return self.in1d(a, b, invert) if (is_symish(a) or is_symish(b)) else np.isin(a, b, invert=invert)
    def polyval(self, p, x):
        r = 0.0 * x
        for c in (p.flat if isinstance(p, np.ndarray) else p):
            r = r * x + c
        return r
    def polyfit(self, x, y, deg, **k):
        if not (is_symish(x) or is_symish(y)):
            return np.polyfit(x, y, deg, **k)
        if not any(is_sym(v) for a in (x, y, k.get('w', [])) for v in sa(a).flat):
            fl = lambda a: np.array([float(v) for v in sa(a).flat])
            return np.polyfit(fl(x), fl(y), deg, **{q: fl(v) if q == 'w' else v for q, v in k.items()})
        if k:
            raise EngineLimit('np.polyfit options on symbolic values')
        h = POLYFIT_HANDLER[0]
        if h is None:
            return _polyfit(x, y, deg)
        return h(x, y, deg)
    def histogram(self, a, bins=10, range=None, density=None, weights=None):
        if not (is_symish(a) or is_symish(bins) or is_symish(weights)):
            return np.histogram(a, bins=bins, range=range, density=density, weights=weights)
        vals = list(sa(a).flat)
        if all(not is_sym(v) for v in vals) and not is_symish(bins) and weights is None:
            return np.histogram(np.array([float(v) for v in vals]), bins=bins, range=range, density=density)
        if density or isinstance(bins, (int, str)):
            raise EngineLimit('np.histogram without edges on symbolic')
        e = list(sa(bins).flat)
        w = [1] * len(vals) if weights is None else list(sa(weights).flat)
        h = [0] * (len(e) - 1)
        for v, x in zip(vals, w):
            for i in builtins.range(len(h)):
                if bool(v >= e[i]) and (bool(v < e[i + 1]) or (i == len(h) - 1 and bool(v <= e[i + 1]))):
                    h[i] = h[i] + x
                    break
        return sa(h), bins
    def trapz(self, y, x=None, dx=1.0, axis=-1):
        if not (is_symish(y) or is_symish(x)):
            return np.trapz(y, x=x, dx=dx, axis=axis)
        l = list(sa(y).flat)
        if x is None:
            return _sum_l([(l[i] + l[i + 1]) / 2.0 * dx for i in range(len(l) - 1)])
        xl = list(sa(x).flat)
        return _sum_l([(l[i] + l[i + 1]) / 2.0 * (xl[i + 1] - xl[i]) for i in range(len(l) - 1)])
    def vectorize(self, f, **k):
        return lambda *a: elementwise(f, *a)
    def apply_along_axis(self, *a, **k): raise EngineLimit('apply_along_axis')
    def errstate(self, **k): return np.errstate(**k)
    def isscalar(self, x): return True if is_sym(x) else np.isscalar(x)
    def ndim(self, x): return 0 if is_sym(x) else x.ndim if isinstance(x, np.ndarray) else np.ndim(x)
    def size(self, x, *a): return 1 if is_sym(x) else np.size(x, *a)
    def shape(self, x): return () if is_sym(x) else np.shape(x)
    def frombuffer(self, *a, **k): raise EngineLimit('frombuffer')
    def percentile(self, *a, **k): raise EngineLimit('percentile')
    def einsum(self, *a, **k): raise EngineLimit('einsum') if any(is_symish(x) for x in a) else np.einsum(*a, **k)
    def ceil(self, x): return elementwise(UF['ceil'], x) if is_symish(x) else np.ceil(x)
    def floor(self, x): return elementwise(UF['floor'], x) if is_symish(x) else np.floor(x)


def _polyfit(x, y, deg):
    """least squares through the normal equations (exact real arithmetic)"""
    xs, ys = list(sa(x).flat), list(sa(y).flat)
    n = deg + 1
    if len(xs) < n:
        raise EngineLimit('underdetermined polyfit')
    if not any(is_sym(v) for v in xs):
        from fractions import Fraction
        F = [[Fraction(float(v)) ** (deg - j) for j in range(n)] for v in xs]
        A = [[sum(r[i] * r[j] for r in F) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for i in range(n):
            p = next(r for r in range(i, n) if A[r][i] != 0)
            A[i], A[p] = A[p], A[i]
            A[i] = [v / A[i][i] for v in A[i]]
            for r in range(n):
                if r != i:
                    A[r] = [a - A[r][i] * b for a, b in zip(A[r], A[i])]
        out = []
        for i in range(n):
            out.append(sum((sum(A[i][n + j] * F[q][j] for j in range(n)) * ys[q] if not is_sym(ys[q]) else
                            core.Sym(core.z3.RealVal(sum(A[i][n + j] * F[q][j] for j in range(n)))) * ys[q] for q in range(len(xs))), 0))
        return sa([float(o) if not is_sym(o) else o for o in out])
    V = sa([[core.power(v, deg - j) if is_sym(v) else float(v) ** (deg - j) for j in range(n)] for v in xs])
    A = _dot(V.T.view(SA), V)
    b = _dot(V.T.view(SA), sa(ys))
    return _dot(_inv(A), b)


def _fl(x):
    if is_sym(x):
        return cast(x, 'f8')
    if is_symish(x):
        return sa(x)
    return np.float64(x)


class SymLinalg(object):
    def __getattr__(self, n):
        return getattr(np.linalg, n)

    def inv(self, m): return _inv(m) if is_symish(m) else np.linalg.inv(m)
    def det(self, m): return _det(sa(m)) if is_symish(m) else np.linalg.det(m)

    def solve(self, a, b):
        return _dot(_inv(a), b) if is_symish(a) or is_symish(b) else np.linalg.solve(a, b)


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(i) for i in x)
    return is_symish(x)


def _descr(dt):
    out = []
    for n in dt.names:
        f = dt[n]
        if f.subdtype is not None:
            out.append((n, f.subdtype[0].str if f.subdtype[0].names is None else f.subdtype[0], f.subdtype[1]))
        else:
            out.append((n, f.str if f.names is None else f))
    return out


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    return a.dtype


def _obj(x):
    if is_sym(x):
        return sa(x)
    if isinstance(x, (list, tuple)) and is_symish(x) and all(is_sym(i) or not isinstance(i, np.ndarray) for i in x):
        return sa(x) if not any(isinstance(i, np.ndarray) for i in x) else x
    return x


class _FMeta(type):
    def __call__(cls, x=0.0):
        return _fl(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (cls._real, Sym))


class F64(metaclass=_FMeta):
    dtype = np.dtype('f8')
    _real = np.float64


class F32(metaclass=_FMeta):
    dtype = np.dtype('f4')
    _real = np.float32


SymNP.float64 = F64
SymNP.float32 = F32
SymNP.float_ = F64
SymNP.double = F64
FLOAT_AS_OBJECT = [True]
POLYFIT_HANDLER = [None]
SYM_INT_FIELDS = set()
SNP = SymNP()

for _n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool_', 'ndarray', 'dtype',
           'inf', 'nan', 'pi', 'e', 'newaxis', 'integer', 'floating', 'void', 'str_', 'bytes_', 'ufunc', 'generic',
           'number', 'float16', 'float128', 'complex128', 'object_'):
    if hasattr(np, _n) and not hasattr(SymNP, _n):
        setattr(SymNP, _n, getattr(np, _n))
