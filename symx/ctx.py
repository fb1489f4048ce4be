"""Harness context: the same harness runs symbolically (deciding) and
concretely (replay on the untouched code)."""
import sys
import os
import json
import time
import math
import traceback
import importlib
import subprocess
import numpy as np
from fractions import Fraction
from . import core, arr, loader
from .core import Sym, SymB, is_sym, EngineLimit, PathAbort, mk, z3bool
import z3

PY = '/opt/venv/bin/python'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violated(BaseException):
    pass


class Cond(object):
    """condition with a tolerance-weakened variant (for real equalities)"""
    def __init__(self, strong, weak):
        self.strong, self.weak = strong, weak

    def __and__(self, o):
        o = o if isinstance(o, Cond) else Cond(o, o)
        return Cond(_and(self.strong, o.strong), _and(self.weak, o.weak))

    def __or__(self, o):
        o = o if isinstance(o, Cond) else Cond(o, o)
        return Cond(_or(self.strong, o.strong), _or(self.weak, o.weak))
    __rand__ = __and__
    __ror__ = __or__


def _and(a, b):
    if is_sym(a) or is_sym(b):
        return mk(z3.And(z3bool(a), z3bool(b)))
    return bool(a) and bool(b)


def _or(a, b):
    if is_sym(a) or is_sym(b):
        return mk(z3.Or(z3bool(a), z3bool(b)))
    return bool(a) or bool(b)


class NotApplicableInput(BaseException):
    """concrete inputs do not satisfy the harness assumptions"""


class BaseCtx(object):
    sym = False

    def __init__(self, params):
        self.params = dict(params)
        self._patched = []
        self.covers = set()

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        p = self.__dict__.get('params')
        if p is not None and n in p:
            return p[n]
        raise AttributeError(n)

    # -- code under test
    def mod(self, name):
        return importlib.import_module('redmapper' + ('.' + name if name else ''))

    def patch(self, obj, attr, val):
        """environment stand-in (restored after the run)"""
        old = getattr(obj, attr, None)
        had = attr in vars(obj) if hasattr(obj, '__dict__') else True
        self._patched.append((obj, attr, old, had))
        setattr(obj, attr, val)

    def unpatch(self):
        for obj, attr, old, had in reversed(self._patched):
            try:
                if had:
                    setattr(obj, attr, old)
                else:
                    delattr(obj, attr)
            except AttributeError:
                pass
        self._patched = []

    def reals(self, name, n, lo=None, hi=None, **k):
        if isinstance(n, tuple):
            out = np.empty(n, dtype=object)
            for idx in np.ndindex(*n):
                out[idx] = self.real(name + '_' + '_'.join(map(str, idx)), lo, hi, **k)
        else:
            out = np.empty(n, dtype=object)
            for i in range(n):
                out[i] = self.real('%s_%d' % (name, i), lo, hi, **k)
        return self._pack(out)

    def ints(self, name, n, lo, hi):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.int('%s_%d' % (name, i), lo, hi)
        return self._pack(out, 'i8')

    def catalog(self, cls, n, fields, extra=()):
        """structured catalogue object of the code under test.
        fields: list of (name, format[, shape]) and values dict"""
        raise NotImplementedError

    def all(self, conds):
        r = True
        for c in conds:
            r = c & r if isinstance(c, Cond) else (r & c if isinstance(r, Cond) else _and(r, c))
        return r

    def any(self, conds):
        r = False
        for c in conds:
            r = c | r if isinstance(c, Cond) else (r | c if isinstance(r, Cond) else _or(r, c))
        return r

    def implies(self, a, b):
        n = self.not_(a)
        if isinstance(b, Cond):
            return Cond(_or(n, b.strong), _or(n, b.weak))
        return _or(n, b)

    def not_(self, a):
        if isinstance(a, SymB):
            return ~a
        return not bool(a)

    def iff(self, a, b):
        if is_sym(a) or is_sym(b):
            return mk(z3bool(a) == z3bool(b))
        return bool(a) == bool(b)

    def eqs(self, a, b, tol=1e-6):
        a = [i for i in np.asarray(a, dtype=object).flat] if not isinstance(a, list) else a
        b = [i for i in np.asarray(b, dtype=object).flat] if not isinstance(b, list) else b
        if len(a) != len(b):
            return False
        return self.all([self.eq(x, y, tol) for x, y in zip(a, b)])

    def randomize(self, u=(), nrm=(), pick=()):
        """the random generator returns these values (streams shared by all entry points)"""
        r = Rand(self, u, nrm, pick)
        if self.sym:
            arr.RANDOM_HANDLER[0] = r
        else:
            for n in Rand.NAMES:
                self.patch(np.random, n, getattr(r, n))
        return r

    def fn(self, name, x):
        if is_sym(x):
            return arr.UF[name](x)
        return getattr(math, name)(float(x))

    def cover(self, label):
        """reachability witness: this program point was reached on a feasible path"""
        self.covers.add(label)

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except EngineLimit:
            raise
        except exc as e:
            return e
        return None


class Rand(object):
    NAMES = ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'standard_normal', 'normal', 'randn', 'choice', 'randint')

    def __init__(self, c, u, nrm, pick):
        self.c = c
        self.s = dict(u=list(u), n=list(nrm), p=list(pick))
        self.used = dict(u=0, n=0, p=0)

    def take(self, k):
        i = self.used[k]
        if i >= len(self.s[k]):
            raise EngineLimit('random stream exhausted')
        self.used[k] += 1
        return self.s[k][i]

    def draw(self, k, size):
        if size is None:
            return self.take(k)
        shape = (int(size),) if not isinstance(size, (tuple, list)) else tuple(size)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.take(k)
        return self.c._pack(out)

    def rand(self, *shape):
        return self.draw('u', shape if shape else None)

    def random(self, size=None):
        return self.draw('u', size)
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        v = self.draw('u', size)
        if isinstance(low, float) and low == 0.0 and isinstance(high, float) and high == 1.0:
            return v
        return low + (high - low) * v

    def standard_normal(self, size=None):
        return self.draw('n', size)

    def randn(self, *shape):
        return self.draw('n', shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.draw('n', size)

    def choice(self, a, size=None, replace=True, p=None):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        if size is None:
            i = self.take('p')
            return i if isinstance(a, (int, np.integer)) else a[i]
        k = int(size)
        idx = np.array([int(self.take('p')) for _ in range(k)], dtype='i8')
        return idx if isinstance(a, (int, np.integer)) else a[idx]

    def randint(self, low, high=None, size=None, dtype=int):
        if size is None:
            return self.take('p')
        return np.array([int(self.take('p')) for _ in range(int(size))], dtype='i8')


class SymCtx(BaseCtx):
    sym = True
    np = arr.SNP

    def __init__(self, params, run):
        BaseCtx.__init__(self, params)
        self.run = run
        self.e = run.engine
        self.inputs = {}
        self.bounds = {}

    def _pack(self, o, dt=None):
        return o.view(arr.SA)

    def real(self, name, lo=None, hi=None, nz=False):
        v = self.e.newvar(name)
        self.inputs[name] = (v, 'real')
        self.bounds[name] = (lo, hi)
        if lo is not None:
            self.e.add(v >= core._q(lo))
        if hi is not None:
            self.e.add(v <= core._q(hi))
        if nz:
            self.e.add(v != 0)
        return Sym(v)

    def int(self, name, lo, hi):
        v = self.e.newvar(name, 'int')
        self.inputs[name] = (v, 'int')
        self.bounds[name] = (lo, hi)
        self.e.add(v >= lo)
        self.e.add(v <= hi)
        return Sym(v)

    def index(self, name, lo, hi):
        """integer input, enumerated (concrete on each path)"""
        return core.concretize_int(self.int(name, lo, hi))

    def bool(self, name):
        v = self.e.newvar(name, 'bool')
        self.inputs[name] = (v, 'bool')
        return SymB(v)

    def flag(self, name):
        return bool(self.bool(name))

    def assume(self, *conds):
        for c in conds:
            c = c.strong if isinstance(c, Cond) else c
            if not is_sym(c):
                if not c:
                    raise PathAbort()
                continue
            zc = z3bool(c)
            self.e.add(zc)
            if self.e._check(timeout=self.e.feas_ms, seeds=[zc]) == z3.unsat:
                raise PathAbort()

    def eq(self, a, b, tol=1e-6):
        if not is_sym(a) and not is_sym(b):
            return ceq(a, b, tol)
        if core._special_float(a) or core._special_float(b):
            return False
        x, y = core.z3real(a), core.z3real(b)
        if x.eq(y):
            return True
        d = z3.simplify(x - y, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return True
        t = core._q(tol)
        ay = z3.If(y >= 0, y, -y)
        weak = z3.And(x - y <= t * (1 + ay), y - x <= t * (1 + ay))
        return Cond(mk(x == y), mk(weak))

    def le(self, a, b, tol=1e-6):
        strong = a <= b
        if not is_sym(strong) or core._special_float(a) or core._special_float(b):
            return strong
        x, y = core.z3real(a), core.z3real(b)
        return Cond(strong, mk(x - y <= core._q(tol) * (1 + z3.If(y >= 0, y, -y))))

    def lt(self, a, b, tol=1e-6):
        return a < b

    def prove(self, label, cond):
        self.run.prove(self, label, cond)

    def rec(self, n, fields, values=None):
        """structured array with the given (name, fmt[, shape]) fields"""
        a = arr.SNP.zeros(n, dtype=list(fields))
        for k, v in (values or {}).items():
            a[k] = v
        return a


def ceq(a, b, tol):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(tol, 1e-9) * (1 + abs(b))


def pick(rng, kind, lo, hi):
    if kind == 'bool':
        return rng.random() < 0.5
    lo = -4 if lo is None else lo
    hi = max(lo + 4, 4) if hi is None else hi
    if kind == 'int':
        return str(rng.randint(lo, hi))
    f = Fraction(rng.randint(0, 64), 64)
    return str(core._frac(lo) + f * (core._frac(hi) - core._frac(lo)))


class ConcCtx(BaseCtx):
    np = np

    def __init__(self, params, values):
        BaseCtx.__init__(self, params)
        self.values = dict(values)
        import random
        seed = self.values.pop('__fill__', None)
        self.fill = None if seed is None else random.Random(seed)
        self.failed = []
        self.proved = []
        self.ftol = float(params.get('ctol', 2e-5))

    def _pack(self, o, dt='f8'):
        return o.astype(dt)

    def _value(self, name, kind='real', lo=None, hi=None):
        # inputs declared after the assertion under replay have no value: the run ends there,
        # unless the run is a search for a counterexample (guess)
        if name not in self.values:
            if self.fill is None:
                raise NotApplicableInput()
            self.values[name] = pick(self.fill, kind, lo, hi)
        return self.values[name]

    def real(self, name, lo=None, hi=None, nz=False):
        v = float(Fraction(self._value(name, 'real', lo, hi)))
        if (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)):
            # a partial model can leave the declared range: not an input of this property
            raise NotApplicableInput()
        return np.float64(v)

    def int(self, name, lo, hi):
        v = int(self._value(name, 'int', lo, hi))
        if not lo <= v <= hi:
            raise NotApplicableInput()
        return v

    index = int

    def bool(self, name):
        return bool(self._value(name, 'bool'))

    flag = bool

    def assume(self, *conds):
        for c in conds:
            c = c.weak if isinstance(c, Cond) else c
            if not bool(c):
                raise NotApplicableInput()

    def eq(self, a, b, tol=1e-6):
        return ceq(a, b, max(tol, self.ftol))

    def le(self, a, b, tol=1e-6):
        return bool(a <= b + max(tol, self.ftol) * (1 + abs(b)))

    def lt(self, a, b, tol=1e-6):
        return bool(a < b + max(tol, self.ftol) * (1 + abs(b)))

    def prove(self, label, cond):
        c = cond.weak if isinstance(cond, Cond) else cond
        (self.proved if bool(c) else self.failed).append(label)

    def rec(self, n, fields, values=None):
        a = np.zeros(n, dtype=list(fields))
        for k, v in (values or {}).items():
            a[k] = v
        return a


def load_harness(spec):
    modname, fn = spec.split(':')
    m = importlib.import_module('harness.' + modname)
    return getattr(m, fn)


def harness_limit(e):
    t = e.__traceback__
    last, inside = None, False
    while t is not None:
        last = t.tb_frame.f_code.co_filename
        inside = inside or not last.startswith(ROOT + os.sep)
        t = t.tb_next
    if last is not None and last.startswith(ROOT + os.sep):
        if isinstance(e, OSError) or getattr(e, 'deliberate', False):
            # the stand-in for the file system has no such file, or the library refuses the call
            return False
        # in a stand-in called by the code: no verdict; in the examination of what the code produced: something is missing there
        return inside or not isinstance(e, (IndexError, KeyError))
    o = getattr(e, 'obj', None)
    if isinstance(e, AttributeError) and type(o).__module__.startswith('harness'):
        return True
    return isinstance(e, TypeError) and ('<locals>' in str(e) or 'Stub' in str(e))


def conc_run(spec, params, values):
    """one concrete run of a harness on the real code"""
    fn = load_harness(spec)
    c = ConcCtx(params, values)
    try:
        try:
            with np.errstate(all='ignore'):
                fn(c)
        finally:
            c.unpatch()
    except NotApplicableInput:
        return dict(na=True, failed=c.failed, proved=c.proved, values=c.values)
    except Exception as e:
        if harness_limit(e):
            # a stand-in is missing something the code now uses: no verdict from this run
            return dict(na=True, failed=c.failed, proved=c.proved, values=c.values, harness=str(e)[:300],
                        tb=traceback.format_exc()[-1500:])
        return dict(na=False, failed=c.failed, proved=c.proved, values=c.values,
                    exc=type(e).__name__, msg=str(e)[:300], tb=traceback.format_exc()[-1500:])
    return dict(na=False, failed=c.failed, proved=c.proved, values=c.values, exc=None)


class ConcServer(object):
    """persistent worker process executing the untouched code"""
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONPATH'] = ROOT
        env.setdefault('MPLBACKEND', 'Agg')
        env['OMP_NUM_THREADS'] = '1'
        env['OPENBLAS_NUM_THREADS'] = '1'
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'symx.concserver'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=ROOT, text=True)

    def call(self, spec, params, values, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps([spec, params, values]) + '\n')
        self.p.stdin.flush()
        import select
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        line = self.p.stdout.readline() if r else ''
        if not line:
            self.close()
            return dict(na=False, failed=[], proved=[], exc='Crash', msg='process died or hung')
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


class Run(object):
    """exhaustive symbolic run of one harness instance"""

    def __init__(self, spec, params, timeout_ms=None, validate=2, budget=600):
        self.spec = spec
        self.params = dict(params)
        self.fn = load_harness(spec)
        self.engine = core.Engine(timeout_ms=timeout_ms or params.get('timeout_ms', 5000),
                                  max_paths=params.get('max_paths', 20000), slicing=params.get('slice', True))
        self.engine.feas_ms = params.get('feas_ms', self.engine.feas_ms)
        self.server = ConcServer()
        self.res = dict(spec=spec, params=params, obligations=0, discharged=0, within_tol=0, violation=None,
                        inconclusive=[], validated=0, validation_na=0, covers=[], labels={})
        self.validate = params.get('validate', validate)
        self.covers = set()
        self.deadline = time.time() + params.get('budget', budget)
        self.seen_validate = 0
        self.guessed = 0

    # ---- proving
    def query(self, neg, timeout=None, more=()):
        e = self.engine
        self._model = None
        r = e._check(neg, timeout=timeout, more=more)
        if r == z3.unknown:
            # second strategy: one-shot nlsat on the conjunction
            t = time.time()
            try:
                S, inc = e.last[:2]
                s = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver() if not _has_int(inc) else z3.SolverFor('QF_NIRA')
                s.set('timeout', int(e.timeout_ms * 4))
                s.add(*inc)
                r2 = s.check()
                e.stats['queries'] += 1
                if r2 != z3.unknown:
                    r = r2
                    if r2 == z3.sat:
                        e.last = (S, inc, s, [])
                        self._model = e.last_model()
            except z3.Z3Exception:
                pass
            e.stats['solver_s'] += time.time() - t
        elif r == z3.sat:
            self._model = e.last_model()
        if r == z3.sat and self._model is None:
            r = z3.unknown
        e.stats[str(r)] = e.stats.get(str(r), 0) + 1
        return r

    def prove(self, ctx, label, cond):
        e = self.engine
        self.res['obligations'] += 1
        self.res['labels'][label] = self.res['labels'].get(label, 0) + 1
        if time.time() > self.deadline:
            raise EngineLimit('time budget of this harness instance exhausted')
        strong = cond.strong if isinstance(cond, Cond) else cond
        weak = cond.weak if isinstance(cond, Cond) else cond
        if not is_sym(strong) and bool(strong):
            self.res['discharged'] += 1
            return
        neg = z3.Not(z3bool(strong))
        r = self.query(neg)
        if r == z3.unsat:
            self.res['discharged'] += 1
            return
        if isinstance(cond, Cond) and strong is not weak:
            if not is_sym(weak) and bool(weak):
                self.res['discharged'] += 1
                self.res['within_tol'] += 1
                return
            neg = z3.Not(z3bool(weak))
            r = self.query(neg)
            if r == z3.unsat:
                self.res['discharged'] += 1
                self.res['within_tol'] += 1
                return
        if r == z3.unknown:
            self.guess(ctx, label)
            self.inconclusive(label, 'solver returned unknown')
            return
        self.candidate(ctx, label, neg)

    def guess(self, ctx, label):
        """the solver gave up: look for a concrete counterexample around a model of the path
        (only ever turns 'inconclusive' into a replayed violation)"""
        if self.guessed > 2:
            return
        self.guessed += 1
        import random
        rng = random.Random(1000 + self.guessed)
        base = self.path_model(ctx)
        for t in range(60):
            vals = {'__fill__': rng.randint(0, 10**9)}
            for name, (v, kind) in ctx.inputs.items():
                lo, hi = ctx.bounds.get(name, (None, None))
                if base is not None and (t == 0 or (t % 3 == 0 and rng.random() < 0.7)):
                    vals[name] = base[name]
                else:
                    vals[name] = pick(rng, kind, lo, hi)
            out = self.server.call(self.spec, self.params, vals)
            if out.get('failed') or (out.get('exc') and not out.get('na')):
                self.violation(label, out.get('values', vals), out)

    def candidate(self, ctx, label, neg):
        """a satisfying assignment: replay it; refine transcendental values if it does not reproduce"""
        e = self.engine
        extra = []
        tried = 0
        why = ''
        for rnd in range(self.params.get('refine', 10)):
            model = self._model
            for vals in self.concretizations(ctx, neg, model, extra):
                tried += 1
                out = self.server.call(self.spec, self.params, vals)
                if out.get('failed') or (out.get('exc') and not out.get('na')):
                    self.violation(label, vals, out)
                why = 'n/a input' if out.get('na') else 'holds concretely'
            lem = core.refine_lemmas(e, model, None)
            if not lem:
                break
            extra.extend(lem)
            r = self.query(neg, more=extra)
            if r == z3.unsat:
                for l in extra:
                    e.lemma(l)
                self.res['discharged'] += 1
                self.res['refined'] = self.res.get('refined', 0) + 1
                return
            if r == z3.unknown:
                why += '; refinement unknown'
                break
        self.inconclusive(label, 'counterexample did not reproduce on the real code (%d tries, %s)' % (tried, why))

    def concretizations(self, ctx, neg, model, extra):
        """concrete input vectors from the model: first with simple dyadic values, then raw"""
        e = self.engine
        vals = {}
        t0 = time.time()
        pin = {}                       # solver id -> values fixed so far
        for name, (v, kind) in ctx.inputs.items():
            sv, base = model.solver_for(name)
            fixed = pin.setdefault(id(sv), list(base))
            mv = model.eval(v, model_completion=True)
            if kind == 'bool':
                vals[name] = bool(z3.is_true(mv))
                fixed.append(v == mv)
                continue
            if kind == 'int':
                vals[name] = str(mv.as_long())
                fixed.append(v == mv)
                continue
            f = core.z3_to_fraction(mv)
            cur = None
            for den in (1, 4, 64, 4096, 2**20):
                q = Fraction(round(f * den), den)
                if q == f:
                    cur = q
                    break
                if sv is None or time.time() - t0 > 20:
                    continue
                sv.set('timeout', 800)
                t = time.time()
                r = sv.check(*(fixed + [v == core._q(q)]))
                e.stats['solver_s'] += time.time() - t
                e.stats['queries'] += 1
                if r == z3.sat:
                    model.parts = [(S, s_, s_.model() if s_ is sv else m, b) for S, s_, m, b in model.parts]
                    cur = q
                    break
            if cur is None:
                cur = Fraction(float(f))
            else:
                fixed.append(v == core._q(cur))
            vals[name] = str(cur)
        yield vals
        raw = {}
        for name, (v, kind) in ctx.inputs.items():
            mv = model.eval(v, model_completion=True)
            raw[name] = bool(z3.is_true(mv)) if kind == 'bool' else str(core.z3_to_fraction(mv))
        if raw != vals:
            yield raw

    def path_model(self, ctx):
        e = self.engine
        m = core.MergedModel([])
        left = list(e.pc)
        if not left:
            left = [z3.BoolVal(True)]
        while left:
            r = e._check(timeout=2000, seeds=[left[0]])
            if r != z3.sat:
                return None
            S, inc, s, base = e.last
            m.parts.append((S, s, s.model(), base))
            left = [x for x in left[1:] if S is not None and S.isdisjoint(e.deps(x))]
        self._model = m
        for v in self.concretizations(ctx, z3.BoolVal(True), self._model, []):
            return v

    def violation(self, label, vals, out):
        self.res['violation'] = dict(label=label, values=vals, outcome={k: out.get(k) for k in ('failed', 'exc', 'msg', 'tb')})
        raise Violated()

    def inconclusive(self, label, why):
        self.res['inconclusive'].append('%s: %s' % (label, why))
        if len(self.res['inconclusive']) > 5:
            raise EngineLimit('too many inconclusive obligations')

    def one_path(self):
        ctx = SymCtx(self.params, self)
        e = self.engine
        try:
            try:
                self.fn(ctx)
            finally:
                ctx.unpatch()
                arr.RANDOM_HANDLER[0] = None
                arr.POLYFIT_HANDLER[0] = None
            self.covers |= ctx.covers
            if self.seen_validate < self.validate:
                self.seen_validate += 1
                vals = self.path_model(ctx)
                if vals is not None:
                    out = self.server.call(self.spec, self.params, vals)
                    if out.get('na'):
                        self.res['validation_na'] += 1
                        self.seen_validate -= 0.5
                    elif out.get('failed') or out.get('exc'):
                        if any(r['fn'] not in ('sqrt', 'recip') for r in e.applist) and out.get('exc') is None:
                            # path models with transcendental values may leave the path: still real code
                            pass
                        self.violation('validation run on a path model', vals, out)
                    else:
                        self.res['validated'] += 1
                        if 'sample' not in self.res:
                            self.res['sample'] = vals
        except (Violated, PathAbort):
            raise
        except EngineLimit as ex:
            tb = traceback.format_exc()
            self.res['limit'] = tb[-2500:]
            # the real code may fail here as well
            vals = self.path_model(ctx)
            if vals is not None:
                out = self.server.call(self.spec, self.params, vals)
                if out.get('failed') or (out.get('exc') and not out.get('na')):
                    self.violation('engine limit path', vals, out)
            self.guess(ctx, 'engine limit path')
            self.inconclusive('engine', str(ex))
            raise
        except Exception as ex:
            tb = traceback.format_exc()
            vals = self.path_model(ctx)
            if vals is not None:
                for _ in range(3):
                    out = self.server.call(self.spec, self.params, vals)
                    if out.get('failed') or (out.get('exc') and not out.get('na')):
                        self.violation('unexpected exception %s' % type(ex).__name__, vals, out)
                    break
            self.guess(ctx, 'unexpected exception %s' % type(ex).__name__)
            self.res['limit'] = tb[-2500:]
            self.inconclusive('exception', '%s: %s (not reproduced on the real code)' % (type(ex).__name__, ex))

    def go(self):
        t = time.time()
        try:
            core.explore(self.engine, self.one_path)
        except Violated:
            pass
        except EngineLimit as ex:
            if not self.res['inconclusive']:
                self.res['inconclusive'].append(str(ex))
        finally:
            core.set_engine(None)
            self.server.close()
        want = set(self.params.get('covers', ()))
        miss = want - self.covers
        if miss and not self.res['violation'] and not self.res['inconclusive']:
            self.res['inconclusive'].append('vacuous: never reached %s' % sorted(miss))
        if self.res['obligations'] == 0 and not self.res['violation']:
            self.res['inconclusive'].append('vacuous: no obligation generated')
        self.res['covers'] = sorted(self.covers)
        self.res['stats'] = self.engine.stats
        self.res['wall'] = time.time() - t
        return self.res


def _has_int(exprs):
    seen = set()

    def rec(x):
        if x.get_id() in seen:
            return False
        seen.add(x.get_id())
        if z3.is_int(x) and not z3.is_int_value(x):
            return True
        return any(rec(c) for c in x.children())
    return any(rec(x) for x in exprs)
