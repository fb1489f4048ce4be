"""Symbolic values and exhaustive path exploration over z3.

The real source under /repo is executed by CPython; inputs are `Sym` values
(z3 reals / integers) and `SymB` values (z3 booleans).  A branch on a symbolic
condition forks: the harness is re-executed for every feasible decision
sequence.  Floating point numbers are treated as exact reals; the assertion
that is discharged is a z3 query  path-condition AND NOT property.
"""
import sys
import time
import math
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402


class PathAbort(BaseException):
    """The current path is infeasible or finished."""


class MergedModel(object):
    """models of independent slices"""
    def __init__(self, parts):
        self.parts = parts

    def eval(self, x, model_completion=True):
        for S, s, m, b in self.parts:
            x = m.eval(x, model_completion=False)
        return self.parts[0][2].eval(x, model_completion=model_completion)

    def solver_for(self, name):
        for S, s, m, b in self.parts:
            if S is None or name in S:
                return s, b
        return None, []


class EngineLimit(Exception):
    """Something the engine cannot encode (never a verdict)."""


# --------------------------------------------------------------------------
# engine state

class Engine(object):
    slicing = True

    def __init__(self, timeout_ms=4000, max_paths=20000, slicing=True):
        self.slicing = slicing
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.feas_ms = min(timeout_ms, 5000)
        self.stats = dict(paths=0, forks=0, queries=0, unsat=0, sat=0, unknown=0,
                          solver_s=0.0, infeasible=0, feas_unknown=0)
        self.prefix = []
        self.reset_path()

    def reset_path(self):
        self._names, self._deps, self.appvars = {}, {}, {}
        self.last = None
        self.inc = z3.Solver()
        self.pc = []            # path condition
        self.lemmas = []        # valid facts about uninterpreted functions
        self.trace = []         # decisions taken: [ [choices], idx ]
        self.pos = 0
        self.apps = {}          # canonical key -> app record
        self.applist = []
        self.fresh = {}
        self.inputs = []        # (name, z3 var, kind)
        self.depth = 0

    # -- solver plumbing
    # Queries are sliced: only the constraints connected to the query (through shared variables,
    # looking through function applications) are handed to the solver.  Axioms of an application
    # are included only when its variable occurs: the dropped ones are satisfied by the true function.
    def names(self, x):
        k = x.get_id()
        r = self._names.get(k)
        if r is not None and r[0].eq(x):
            return r[1]
        out = set()
        seen = set()
        stack = [x]
        while stack:
            y = stack.pop()
            i = y.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(y):
                if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(y.decl().name())
            else:
                stack.extend(y.children())
        self._names[k] = (x, out)
        return out

    def deps(self, x):
        """variables of x, looking through applications"""
        k = x.get_id()
        r = self._deps.get(k)
        if r is not None and r[0].eq(x):
            return r[1]
        out = set()
        todo = list(self.names(x))
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.add(n)
            rec = self.appvars.get(n)
            if rec is not None:
                todo.extend(self.names(rec['arg']))
        self._deps[k] = (x, out)
        return out

    def slice(self, conds, seeds=()):
        """(variables, constraints) connected to conds and seeds"""
        S = set()
        for x in list(conds) + list(seeds):
            S |= self.deps(x)
        pool = []
        for x in self.pc:
            pool.append((x, self.deps(x)))
        lem = []
        for x in self.lemmas:
            nm = self.names(x)
            if nm and all(n in self.fresh for n in nm) or not any(n in self.appvars for n in nm):
                pool.append((x, self.deps(x)))
            else:
                lem.append((x, nm))
        used = [False] * len(pool)
        inc = []
        grow = True
        while grow:
            grow = False
            for i, (x, d) in enumerate(pool):
                if not used[i] and not S.isdisjoint(d):
                    used[i] = True
                    inc.append(x)
                    n0 = len(S)
                    S |= d
                    grow = grow or len(S) > n0
        # applications that actually occur
        A = set()
        todo = [n for x in inc + list(conds) + list(seeds) for n in self.names(x) if n in self.appvars]
        while todo:
            n = todo.pop()
            if n in A:
                continue
            A.add(n)
            todo.extend(m for m in self.names(self.appvars[n]['arg']) if m in self.appvars)
        for x, nm in lem:
            if all(n in A for n in nm if n in self.appvars):
                inc.append(x)
        return S, inc

    def _check(self, *extra, timeout=None, seeds=(), more=(), feas=False):
        """check the path condition together with extra; without extra or seeds all of it"""
        t = time.time()
        tm = self.timeout_ms if timeout is None else timeout
        whole = not (extra or seeds)
        order = ['slice'] if self.slicing else ['whole', 'slice']
        if self.slicing and whole:
            order = ['whole']
        elif self.slicing and not feas:
            order = ['slice', 'whole']
        for k, how in enumerate(order):
            part = max(tm // 4, min(tm, 500)) if k + 1 < len(order) else tm
            if how == 'whole':
                s = self.inc
                s.set('timeout', part)
                base = list(extra) + list(more)
                r = s.check(*base)
                self.last = (None, self.pc + self.lemmas + base, s, base)
            else:
                S, inc = self.slice(extra, seeds) if not whole else (None, self.pc + self.lemmas)
                inc = inc + list(more) + list(extra)
                s = z3.Solver()
                s.set('timeout', part)
                s.add(*inc)
                r = s.check()
                self.last = (S, inc, s, [])
            self.stats['queries'] += 1
            if r != z3.unknown:
                break
        self.stats['solver_s'] += time.time() - t
        return r

    def last_model(self):
        """model of the last (sat) query, completed over the independent rest of the path"""
        S, inc, s, base = self.last
        m = MergedModel([(S, s, s.model(), base)])
        if S is None:
            return m
        left = [x for x in self.pc if S.isdisjoint(self.deps(x))]
        while left:
            S2, inc2 = self.slice([], [left[0]])
            s2 = z3.Solver()
            s2.set('timeout', self.timeout_ms)
            s2.add(*inc2)
            t = time.time()
            r = s2.check()
            self.stats['solver_s'] += time.time() - t
            self.stats['queries'] += 1
            if r != z3.sat:
                return None
            m.parts.append((S2, s2, s2.model(), []))
            left = [x for x in left if S2.isdisjoint(self.deps(x))]
        return m

    def add(self, c):
        self.pc.append(c)
        self.inc.add(c)

    def lemma(self, c):
        self.lemmas.append(c)
        self.inc.add(c)

    # -- forking
    def choose(self, options):
        """options: list of (label, z3 condition).  Conditions are exhaustive.
        Returns the label picked on this path."""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            self.trace.append(k)
            self.pos += 1
            lab, c = options[k[0]]
            self.add(c)
            return lab
        feas = []
        n = len(options)
        for i, (lab, c) in enumerate(options):
            if i == n - 1 and not feas:
                feas.append(i)   # conditions are exhaustive and the path is feasible
                break
            r = self._check(c, timeout=self.feas_ms, feas=True)
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                self.stats['feas_unknown'] += 1
            feas.append(i)
        k = (feas[0], tuple(feas[1:]))
        if len(feas) > 1:
            self.stats['forks'] += 1
        self.trace.append(k)
        self.pos += 1
        lab, c = options[k[0]]
        self.add(c)
        return lab

    def next_prefix(self):
        t = list(self.trace)
        while t:
            cur, rest = t.pop()
            if rest:
                t.append((rest[0], rest[1:]))
                return t
        return None

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([(True, c), (False, z3.Not(c))])

    def entails(self, cond, timeout=None):
        """True only if the solver shows pc => cond."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(z3.Not(c), timeout=timeout) == z3.unsat

    # -- variables
    def newvar(self, name, sort='real'):
        if name in self.fresh:
            raise EngineLimit("duplicate variable %s" % name)
        v = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](name)
        self.fresh[name] = v
        return v

    # -- uninterpreted (transcendental) functions as Ackermann variables
    def app(self, fn, arg):
        arg = z3.simplify(arg, som=True)
        key = (fn, arg.get_id())
        rec = self.apps.get(key)
        if rec is not None and rec['arg'].eq(arg):
            return rec['var']
        # syntactic equality modulo polynomial normal form
        for r in self.applist:
            if r['fn'] == fn:
                d = z3.simplify(r['arg'] - arg, som=True)
                if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                    self.apps[key] = dict(r, arg=arg)
                    return r['var']
        n = sum(1 for r in self.applist if r['fn'] == fn)
        v = z3.Real('%s!%d' % (fn, n))
        rec = dict(fn=fn, arg=arg, var=v, n=n)
        self.appvars[v.decl().name()] = rec
        FN_AXIOMS[fn](self, rec)
        self.apps[key] = rec
        self.applist.append(rec)
        return v


ENG = None


def eng():
    if ENG is None:
        raise EngineLimit('no engine')
    return ENG


def set_engine(e):
    global ENG
    ENG = e


# --------------------------------------------------------------------------
# transcendental functions: bounds and monotonicity lemmas (all valid facts)

def _pairs(e, rec, strict=True):
    v, t = rec['var'], rec['arg']
    for r in e.applist:
        if r['fn'] == rec['fn']:
            e.lemma(z3.Implies(t < r['arg'], v < r['var']))
            e.lemma(z3.Implies(t > r['arg'], v > r['var']))
            e.lemma(z3.Implies(t == r['arg'], v == r['var']))


def _ax_exp(e, rec):
    v, t = rec['var'], rec['arg']
    e.lemma(v > 0)
    e.lemma(v >= 1 + t)
    e.lemma(z3.Implies(t <= 0, v <= 1))
    e.lemma(z3.Implies(t < 0, v < 1))
    e.lemma(z3.Implies(t == 0, v == 1))
    _pairs(e, rec)


def _ax_log(e, rec):
    v, t = rec['var'], rec['arg']
    # only called with t > 0 on the path
    e.lemma(v <= t - 1)
    e.lemma(z3.Implies(t > 1, v > 0))
    e.lemma(z3.Implies(t < 1, v < 0))
    e.lemma(z3.Implies(t == 1, v == 0))
    _pairs(e, rec)


def _ax_sqrt(e, rec):
    v, t = rec['var'], rec['arg']
    e.lemma(v >= 0)
    e.lemma(v * v == t)
    _pairs(e, rec)


def _ax_erf(e, rec):
    v, t = rec['var'], rec['arg']
    e.lemma(v > -1)
    e.lemma(v < 1)
    e.lemma(z3.Implies(t == 0, v == 0))
    e.lemma(z3.Implies(t > 0, v > 0))
    e.lemma(z3.Implies(t < 0, v < 0))
    for r in e.applist:
        if r['fn'] == 'erf':
            e.lemma(z3.Implies(t == -r['arg'], v == -r['var']))
    _pairs(e, rec)


def _ax_trig(e, rec):
    v, t = rec['var'], rec['arg']
    e.lemma(v >= -1)
    e.lemma(v <= 1)
    for r in e.applist:
        if r['fn'] == rec['fn']:
            e.lemma(z3.Implies(t == r['arg'], v == r['var']))
        elif r['fn'] in ('sin', 'cos'):
            e.lemma(z3.Implies(t == r['arg'], v * v + r['var'] * r['var'] == 1))


def _ax_none(e, rec):
    v, t = rec['var'], rec['arg']
    for r in e.applist:
        if r['fn'] == rec['fn']:
            e.lemma(z3.Implies(t == r['arg'], v == r['var']))


def _ax_recip(e, rec):
    v, t = rec['var'], rec['arg']
    e.lemma(v * t == 1)
    e.lemma(z3.Implies(t > 0, v > 0))
    e.lemma(z3.Implies(t < 0, v < 0))
    for r in e.applist:
        if r['fn'] == 'recip':
            e.lemma(z3.Implies(t == r['arg'], v == r['var']))


def _ax_mono(e, rec):
    _pairs(e, rec)


FN_AXIOMS = {'recip': _ax_recip, 'exp': _ax_exp, 'log': _ax_log, 'sqrt': _ax_sqrt, 'erf': _ax_erf,
             'sin': _ax_trig, 'cos': _ax_trig, 'arctan': _ax_mono, 'arcsin': _ax_mono,
             'arccos': _ax_none, 'gamma': _ax_none, 'lgamma': _ax_none}


def _special(name):
    import scipy.special as sp
    return getattr(sp, name)


TRUE_FN = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'erf': math.erf,
           'sin': math.sin, 'cos': math.cos, 'arctan': math.atan, 'arcsin': math.asin,
           'arccos': math.acos, 'gamma': math.gamma, 'lgamma': math.lgamma}


def refine_lemmas(e, model, solver):
    """Lemmas (valid up to 1e-9 relative enclosure) that rule out the values the
    model gave to transcendental applications.  Returns list of z3 facts."""
    out = []
    for r in e.applist:
        if r['fn'] in ('sqrt', 'recip'):
            continue
        t0 = model.eval(r['arg'], model_completion=True)
        try:
            f0 = z3_to_fraction(t0)
        except EngineLimit:
            continue
        f0 = Fraction(float(f0)).limit_denominator(10**6)
        try:
            tv = TRUE_FN[r['fn']](float(f0))
        except (OverflowError, ValueError):
            continue
        eps = abs(tv) * 1e-9 + 1e-300
        lo, hi = _q(tv - eps), _q(tv + eps)
        for s in e.applist:
            if s['fn'] != r['fn']:
                continue
            v, t, q = s['var'], s['arg'], _q(f0)
            if s['fn'] in ('exp', 'log', 'erf', 'arctan', 'arcsin'):
                out.append(z3.Implies(t <= q, v <= hi))
                out.append(z3.Implies(t >= q, v >= lo))
            else:
                out.append(z3.Implies(t == q, z3.And(v >= lo, v <= hi)))
            if s['fn'] == 'exp' and tv < 1e30:
                out.append(v >= _q(tv * (1 - 1e-9)) * (1 + t - q))
            if s['fn'] == 'log':
                out.append(v <= _q(tv + abs(tv) * 1e-9) + (t - q) / q)
    return out


# --------------------------------------------------------------------------
# conversions

def _frac(x):
    """float -> exact rational of its shortest decimal representation"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(repr(float(x)))


def _q(x):
    f = _frac(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def z3_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineLimit('no numeric value for %s' % v)


NUM = (int, float, np.integer, np.floating, Fraction, bool, np.bool_)


def is_sym(x):
    return isinstance(x, (Sym, SymB))


def z3num(x):
    """z3 arithmetic term of a number or symbolic number."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymB):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating, Fraction)):
        return _q(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return z3num(x.item())
    raise EngineLimit('cannot use %r as a number' % (type(x),))


def z3real(x):
    t = z3num(x)
    return z3.ToReal(t) if t.is_int() else t


def z3bool(x):
    if isinstance(x, SymB):
        return x.e
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return x.e != 0
    if isinstance(x, (float, np.floating)):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return z3bool(x.item())
    raise EngineLimit('cannot use %r as a condition' % (type(x),))


def _special_float(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def mk(e):
    """wrap a z3 term; fold numerals to plain numbers only for booleans"""
    if z3.is_bool(e):
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return SymB(s)
    return Sym(e)


class SymB(object):
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def _b(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return None
        return z3bool(o)

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk(z3.And(self.e, b))
    __rand__ = __and__
    __mul_b__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __invert__(self):
        return mk(z3.Not(self.e))

    def logical_not(self):
        return mk(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymB, bool, np.bool_)):
            return mk(self.e == z3bool(o))
        return self._num() == o

    def __ne__(self, o):
        if isinstance(o, (SymB, bool, np.bool_)):
            return mk(self.e != z3bool(o))
        return self._num() != o

    __hash__ = object.__hash__

    def _num(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o

    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__

    def any(self): return self
    def all(self): return self
    def astype(self, dt, **k): return cast(self, dt)
    size = 1
    ndim = 0
    shape = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.sym_ufunc(ufunc, method, inputs, kw)

    def __repr__(self):
        return 'SymB(%s)' % (self.e,)


def _cmp(op):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if _special_float(o):
            if math.isnan(o):
                return op == '!='
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
        if o is None or isinstance(o, (str, bytes)):
            return op == '!='
        try:
            b = z3num(o)
        except EngineLimit:
            return NotImplemented
        a = self.e
        r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
             '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
        return mk(r)
    return f


def _sgn(x):
    """sign of a Sym by forking: -1, 0, 1"""
    t = x.e
    s = z3.simplify(t)
    if z3.is_rational_value(s) or z3.is_int_value(s):
        f = z3_to_fraction(s)
        return (f > 0) - (f < 0)
    return eng().choose([(1, t > 0), (-1, t < 0), (0, t == 0)])


class Sym(object):
    """symbolic real or integer"""
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # -- arithmetic
    def _bin(self, o, f, inf):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if _special_float(o):
            return inf(float(o))
        try:
            b = z3num(o)
        except EngineLimit:
            return NotImplemented
        a = self.e
        if a.is_int() and not b.is_int():
            a = z3.ToReal(a)
        elif b.is_int() and not a.is_int():
            b = z3.ToReal(b) if not z3.is_int_value(b) else z3.RealVal(b.as_long())
        return Sym(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda v: v)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, lambda v: v)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda v: -v)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda v: v)

    def _mulinf(self, v):
        if math.isnan(v):
            return v
        s = _sgn(self)
        return float('nan') if s == 0 else v * s

    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, self._mulinf)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a, self._mulinf)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if _special_float(o):
            return float('nan') if math.isnan(o) else 0.0
        try:
            b = z3real(o)
        except EngineLimit:
            return NotImplemented
        return _div(z3real(self), b)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if _special_float(o):
            if math.isnan(o):
                return o
            s = _sgn(self)
            return o if s >= 0 else -o
        return _div(z3real(o), z3real(self))

    def __floordiv__(self, o):
        return floor_sym(self / o)

    def __rfloordiv__(self, o):
        return floor_sym(o / self)

    def __mod__(self, o):
        return self - floor_sym(self / o) * o

    def __rmod__(self, o):
        return o - floor_sym(o / self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self): return Sym(-self.e)
    def __pos__(self): return self

    def __abs__(self):
        return Sym(z3.If(self.e >= 0, self.e, -self.e))
    fabs = __abs__
    absolute = __abs__

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        return power(o, self)

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')
    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')
    __hash__ = object.__hash__

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        if not self.e.is_int():
            raise TypeError("'Sym' real cannot be interpreted as an integer")
        return concretize_int(self)

    def __int__(self):
        return concretize_int(trunc_sym(self))

    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            return float(z3_to_fraction(s))
        raise EngineLimit('float() of a symbolic value')

    def __round__(self, n=None):
        if n:
            raise EngineLimit('round digits')
        return rint_sym(self)

    def __floor__(self): return floor_sym(self)
    def __ceil__(self): return -floor_sym(-self)
    def __trunc__(self): return trunc_sym(self)

    # -- numpy-scalar-like surface
    size = 1
    ndim = 0
    shape = ()
    nbytes = 8
    T = property(lambda s: s)
    real = property(lambda s: s)
    dtype = np.dtype('f8')

    def exp(self): return fexp(self)
    def log(self): return flog(self)
    def log10(self): return flog(self) / LN10
    def sqrt(self): return fsqrt(self)
    def sin(self): return fapp('sin', self)
    def cos(self): return fapp('cos', self)
    def tan(self): return fapp('sin', self) / fapp('cos', self)
    def arctan(self): return fapp('arctan', self)
    def arcsin(self): return fapp('arcsin', self)
    def arccos(self): return fapp('arccos', self)
    def erf(self): return fapp('erf', self)
    def floor(self): return floor_sym(self) * 1.0
    def ceil(self): return -floor_sym(-self) * 1.0
    def rint(self): return rint_sym(self) * 1.0
    def trunc(self): return trunc_sym(self) * 1.0
    def square(self): return self * self
    def conjugate(self): return self
    def astype(self, dt, **k): return cast(self, dt)
    def copy(self): return self
    def item(self): return self
    def sum(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def all(self): return self != 0
    def any(self): return self != 0
    def flatten(self): return _arr1(self)
    def ravel(self): return _arr1(self)
    def reshape(self, *a): return _arr1(self).reshape(*a)
    def clip(self, lo=None, hi=None, **k): return clip1(self, lo, hi)
    def is_integer(self): return mk(z3.IsInt(z3real(self)))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.sym_ufunc(ufunc, method, inputs, kw)

    def __repr__(self):
        s = str(self.e)
        return 'Sym(%s)' % (s if len(s) < 80 else s[:77] + '...')

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def decode(self):
        raise AttributeError('decode')


def _arr1(x):
    from . import arr
    return arr.sa([x])


def _div(a, b):
    bs = z3.simplify(b)
    if z3.is_rational_value(bs):
        if bs.numerator_as_long() != 0:
            return Sym(a / bs)
        z = True
    else:
        z = eng().branch(b == 0)
    if not z:
        return Sym(a * eng().app('recip', b))
    s = _sgn(Sym(a))
    return float('nan') if s == 0 else (float('inf') if s > 0 else float('-inf'))


LN10 = Fraction(math.log(10.0))


def as_num(t):
    """fold a z3 numeral to a Fraction, else None"""
    s = z3.simplify(t)
    if z3.is_int_value(s) or z3.is_rational_value(s):
        return z3_to_fraction(s)
    return None


def fexp(x):
    if not is_sym(x):
        return np.exp(x)
    t = z3real(x)
    c = as_num(t)
    if c is not None:
        return 1.0 if c == 0 else Sym(_qfull(math.exp(float(c))))
    # exp(log(u)) = u
    e = eng()
    ts = z3.simplify(t, som=True)
    for r in e.applist:
        if r['fn'] == 'log' and r['var'].eq(ts):
            return Sym(r['arg'])
    return Sym(e.app('exp', t))


def _qfull(x):
    return _q(x)


def flog(x):
    if not is_sym(x):
        return np.log(x)
    t = z3real(x)
    e = eng()
    c = as_num(t)
    if c is not None:
        if c > 0:
            return 0.0 if c == 1 else Sym(_q(math.log(float(c))))
        return float('-inf') if c == 0 else float('nan')
    s = _sgn(Sym(t))
    if s == 0:
        return float('-inf')
    if s < 0:
        return float('nan')
    ts = z3.simplify(t, som=True)
    for r in e.applist:
        if r['fn'] == 'exp' and r['var'].eq(ts):
            return Sym(r['arg'])
    return Sym(e.app('log', t))


def fsqrt(x):
    if not is_sym(x):
        return np.sqrt(x)
    t = z3real(x)
    c = as_num(t)
    if c is not None:
        return Sym(_q(math.sqrt(float(c)))) if c >= 0 else float('nan')
    e = eng()
    if e.branch(t < 0):
        return float('nan')
    return Sym(e.app('sqrt', t))


def fapp(fn, x):
    t = z3real(x)
    c = as_num(t)
    if c is not None:
        return Sym(_q(TRUE_FN[fn](float(c))))
    return Sym(eng().app(fn, t))


def power(b, p):
    if not is_sym(b) and not is_sym(p):
        return b ** p
    pc = as_num(z3num(p)) if is_sym(p) else (None if _special_float(p) else _frac(p))
    if pc is not None:
        if pc.denominator == 1 and abs(pc) <= 8:
            n = int(pc)
            if n == 0:
                return 1.0
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            return r if n > 0 else 1.0 / r
        if pc == Fraction(1, 2):
            return fsqrt(b)
        if pc == Fraction(-1, 2):
            return 1.0 / fsqrt(b)
        if pc == Fraction(3, 2):
            return b * fsqrt(b)
        if pc == Fraction(-3, 2):
            return 1.0 / (b * fsqrt(b))
    if not is_sym(b):
        if b <= 0:
            raise EngineLimit('power with non-positive constant base')
        if b == 10:
            return fexp(p * LN10)
        return fexp(p * _frac(math.log(b)))
    s = _sgn(b)
    if s > 0:
        return fexp(flog(b) * p)
    if s == 0:
        if is_sym(p):
            sp = _sgn(p)
        else:
            sp = (p > 0) - (p < 0)
        return 0.0 if sp > 0 else (1.0 if sp == 0 else float('inf'))
    return float('nan')


def floor_sym(x):
    if not is_sym(x):
        return math.floor(x) if math.isfinite(x) else x
    if isinstance(x, SymB):
        return x._num()
    if x.e.is_int():
        return x
    c = as_num(x.e)
    if c is not None:
        return math.floor(c)
    return Sym(z3.ToInt(x.e))


def trunc_sym(x):
    if not is_sym(x):
        return int(x)
    if isinstance(x, SymB):
        return x._num()
    if x.e.is_int():
        return x
    c = as_num(x.e)
    if c is not None:
        return int(c)
    return Sym(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def rint_sym(x):
    if not is_sym(x):
        return int(np.rint(x))
    if x.e.is_int():
        return x
    # round half to even
    f = z3.ToInt(x.e + _q(0.5))
    half = (x.e + _q(0.5)) == z3.ToReal(f)
    return Sym(z3.If(z3.And(half, f % 2 == 1), f - 1, f))


def concretize_int(x, limit=64):
    if not is_sym(x):
        return int(x)
    if isinstance(x, SymB):
        return int(x)
    c = as_num(x.e)
    if c is not None:
        return int(c)
    e = eng()
    for _ in range(limit):
        if e.pos < len(e.prefix):
            # replayed decision: the value was recorded as the label index
            k = e.prefix[e.pos]
            val = e.intvals[e.pos]
        else:
            r = e._check(seeds=[x.e])
            if r != z3.sat:
                raise PathAbort('infeasible' if r == z3.unsat else 'unknown')
            val = e.last[2].model().eval(x.e, model_completion=True).as_long()
        e.intvals[e.pos] = val
        if e.choose([(True, x.e == val), (False, x.e != val)]):
            return val
    raise EngineLimit('too many values for a symbolic index')


def cast(x, dt):
    if dt in (int, 'int') or (dt is not bool and dt is not object and _kind(dt) in 'iu'):
        return trunc_sym(x)
    if dt is bool or _kind(dt) == 'b':
        return x if isinstance(x, SymB) else mk(z3bool(x))
    if isinstance(x, SymB):
        return Sym(z3.ToReal(x._num().e)) if _kind(dt) == 'f' else x
    if _kind(dt) == 'f' and isinstance(x, Sym) and x.e.is_int():
        return Sym(z3.ToReal(x.e))
    return x


def _kind(dt):
    try:
        return np.dtype(dt).kind
    except TypeError:
        return 'O'


def ite(c, a, b):
    """merge two values under a (symbolic) condition"""
    if not isinstance(c, SymB):
        return a if c else b
    if a is b:
        return a
    if _special_float(a) or _special_float(b) or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)):
            return a
        return a if bool(c) else b
    if isinstance(a, (SymB, bool, np.bool_)) and isinstance(b, (SymB, bool, np.bool_)):
        return mk(z3.If(c.e, z3bool(a), z3bool(b)))
    x, y = z3num(a), z3num(b)
    if x.eq(y):
        return a
    if x.is_int() != y.is_int():
        x, y = z3real(a), z3real(b)
    return Sym(z3.If(c.e, x, y))


def min2(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    if _special_float(a) or _special_float(b):
        s, o = (a, b) if _special_float(a) else (b, a)
        return s if (math.isnan(s) or s < 0) else o
    return ite(a <= b, a, b)


def max2(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    if _special_float(a) or _special_float(b):
        s, o = (a, b) if _special_float(a) else (b, a)
        return s if (math.isnan(s) or s > 0) else o
    return ite(a >= b, a, b)


def clip1(x, lo, hi):
    r = x
    if lo is not None:
        r = max2(r, lo)
    if hi is not None:
        r = min2(r, hi)
    return r


def explore(eng_, fn, on_path=None):
    """run fn() over every feasible path"""
    e = eng_
    e.prefix = []
    e.intvals = {}
    set_engine(e)
    while True:
        e.reset_path()
        e.stats['paths'] += 1
        if e.stats['paths'] > e.max_paths:
            raise EngineLimit('path limit %d exceeded' % e.max_paths)
        try:
            fn()
        except PathAbort:
            e.stats['infeasible'] += 1
        nxt = e.next_prefix()
        if nxt is None:
            break
        e.prefix = nxt
        e.intvals = {k: v for k, v in e.intvals.items() if k < len(nxt)}
    set_engine(None)
