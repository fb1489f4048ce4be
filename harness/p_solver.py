"""P01: the richness solver (C code through its Python API)."""
import math

H = 1999.5 / 2 ** 18      # half width of the final bracket at the default tolerance


def rl(lam, r0, beta):
    return r0 * (lam / 100.) ** beta


def norm(rlam):
    q = math.log(rlam)
    return math.exp(1.65169 - 0.547850 * q + 0.138202 * q**2 - 0.0719021 * q**3 - 0.0158241 * q**4 - 0.000854985 * q**5)


def pmem(c, lam, r0, beta, u, b):
    n = norm(rl(lam, r0, beta))
    den = lam * u * n + b
    # 0/0 counts as zero probability
    if c.sym:
        from symx import core
        if not core.is_sym(den):
            return 0.0 if den == 0 else (lam * u * n) / den
        return core.ite(den == 0, 0.0, core.Sym((core.z3real(lam * u * n) / core.z3real(den))))
    return 0.0 if den == 0 else (lam * u * n) / den


def erf(c, x):
    if c.sym:
        from symx import arr, core
        return arr.UF['erf'](x) if core.is_sym(x) else math.erf(x)
    return math.erf(x)


def theta(c, lam, r0, beta, r, rsig):
    R = rl(lam, r0, beta)
    if rsig <= 0:
        return ite(c, r < R, 1.0, 0.0)
    if c.sym:
        inner = 0.5 + 0.5 * erf(c, (R - r) * (1. / (math.sqrt(2.) * rsig)))
        return ite(c, r < R - 5.0 * rsig, 1.0, ite(c, r > R + 5.0 * rsig, 0.0, inner))
    return 1.0 if r < R - 5.0 * rsig else (0.0 if r > R + 5.0 * rsig else
                                          0.5 + 0.5 * math.erf((R - r) / (math.sqrt(2.) * rsig)))


def ite(c, k, a, b):
    if c.sym:
        from symx import core
        return core.ite(k, a, b)
    return a if k else b


def cmask(c, R, cp):
    v = cp[3] + cp[2] * R + cp[1] * R * R + cp[0] * R * R * R
    return ite(c, v < 0.0, 0.0, v)


def G(c, lam, r0, beta, rsig, u, b, r, w, cp):
    s = lam * cmask(c, rl(lam, r0, beta), cp)
    for i in range(len(u)):
        s = s + pmem(c, lam, r0, beta, u[i], b[i]) * w[i] * theta(c, lam, r0, beta, r[i], rsig)
    return s - lam


def solve(c):
    S = c.mod('solver_nfw').Solver
    n = c.n
    r0, beta, rsig = c.r0, c.beta, c.rsig
    if c.params.get('u') is not None:
        u, b = c.np.array(c.u), c.np.array(c.b)
    else:
        u = c.reals('u', n, 0, 64)
        b = c.reals('b', n, 0, 64)
    r = c.reals('r', n, 0, 2) if c.params.get('r') is None else c.np.array(c.r)
    w = c.np.array(c.w) if c.params.get('w') is not None else c.reals('w', n, 0, c.wmax)
    cp = c.reals('c', 4, -1, 1) if c.mask else c.np.zeros(4)
    if c.params.get('fixr'):
        for i in range(n):
            c.assume(r[i] <= c.fixr)
    # restrict the solution to the bracket [A, B] of the bisection grid after c.depth halvings
    lo, hi = 0.5, 2000.0
    for bit in c.path:
        mid = (lo + hi) / 2
        g = G(c, mid, r0, beta, rsig, u, b, r, w, cp)
        if bit:
            c.assume(g > 0)
            lo = mid
        else:
            c.assume(g <= 0)
            hi = mid
    u0, b0, r1, w0 = [list(x) for x in (u, b, r, w)]
    s = S(r0, beta, u, b, r, w, cpars=cp, rsig=rsig)
    lam, p, wt, rlam, th = s.solve_nfw()
    g = lambda x: G(c, x, r0, beta, rsig, u0, b0, r1, w0, list(cp))
    lam = float(lam)
    if lam > 0:
        c.cover('found')
        c.prove('lambda >= 1', lam >= 1.0)
        c.prove('r_lambda', c.eq(rlam, rl(lam, r0, beta)))
        last = lam
        if lam < 1999.98:
            c.prove('upper side', g(lam + H) <= 0 if c.sym else g(lam + H) <= 1e-6)
        else:
            c.cover('top')
        if lam > 0.52:
            c.prove('lower side', g(lam - H) > 0 if c.sym else g(lam - H) > -1e-6)
        ends = (lam - H, lam, lam + H)
    else:
        c.cover('nosolution')
        c.prove('sentinel', c.all([c.eq(lam, -1.0), c.eq(rlam, -1.0)]))
        # nothing above 1 on the bracket: g is not positive at the right end of the last bracket
        ok = False
        x = 1.0 + 2 * H
        cand = []
        lo, hi = 0.5, 2000.0
        while hi > x:
            hi = (lo + hi) / 2
            if hi > x:
                cand.append(g(hi) <= 0 if c.sym else g(hi) <= 1e-6)
        c.prove('every bracket above 1 was excluded', c.all(cand))
        ends = None
    for i in range(n):
        pi, wi, ti = p[i], wt[i], th[i]
        c.prove('0 <= p <= 1', c.all([pi >= 0, c.le(pi, 1.0), wi >= 0]))
        c.prove('weight <= p * w', c.le(wi, pi * w0[i]))
        c.prove('theta in [0, 1]', c.all([ti >= 0, c.le(ti, 1.0)]))
        if ends is not None:
            c.prove('p at the solution', c.any([
                c.all([c.eq(pi, pmem(c, e, r0, beta, u0[i], b0[i])),
                       c.eq(wi, pmem(c, e, r0, beta, u0[i], b0[i]) * w0[i] * theta(c, e, r0, beta, r1[i], rsig))
                       if rsig > 0 else True]) for e in ends]))
            c.prove('theta_r at the solution', c.eq(ti, theta(c, lam, r0, beta, r1[i], rsig)))
            if rsig <= 0:
                c.prove('hard radius cut', c.implies(r1[i] >= rl(lam, r0, beta), c.eq(wi, 0.0)))
    c.prove('inputs untouched', c.all([c.eqs(list(u), u0), c.eqs(list(b), b0), c.eqs(list(r), r1), c.eqs(list(w), w0)]))


def shapes(c):
    """lengths that do not agree are refused, never read out of bounds"""
    S = c.mod('solver_nfw').Solver
    n = [c.index('n%d' % i, 1, 2) for i in range(4)]
    m = c.index('m', 3, 5)
    a = [c.np.array([0.5] * k) for k in n]
    cp = c.np.zeros(m)
    ok = n[0] == n[1] == n[2] == n[3] and m == 4
    e = c.raises(lambda: S(1.0, 0.0, a[0], a[1], a[2], a[3], cpars=cp, rsig=0.0), ValueError)
    c.prove('accepted iff lengths agree', (e is None) == ok)
    c.cover('ok' if ok else 'refused')


MID = [0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 0, 1, 1]
BIG = [0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1, 0]
_B = dict(r0=1.0, beta=0.0, rsig=0.0, wmax=64, mask=False, covers=['found'])
_2 = dict(u=[0.5, 1.0], b=[0.25, 2.0], n=2)
_1 = dict(u=[0.5], b=[0.25], n=1)


def I(*d, **k):
    out = dict(_B)
    for x in d:
        out.update(x)
    out.update(k)
    return out


PROPS = {
    'P01': dict(
        params=dict(slice=False),
        level='model_checking',
        functions=['solver_nfw/solver_nfw.c:solver_nfw', 'solver_nfw/nfw_weights.c:nfw_weights',
                   'solver_nfw/solver_nfw_pywrap.c:SolverObject_init', 'solver_nfw/solver_nfw_pywrap.c:SolverObject_solver_nfw',
                   'solver_nfw/solver_nfw_lib.py:Solver'],
        bounds='1-2 galaxies; the full bisection at the shipped tolerance (17-18 halvings); solution region restricted '
               'per instance to a cell of the bisection grid (around richness 0.5-2, 40, 830, 2000, and unrestricted with fixed weights); '
               'radius slope 0 or 0.25, radial softening 0, 1/16, 1/8; symbolic: u, b, r, w, mask polynomial as listed per instance',
        assumptions=['doubles are exact reals; erf/exp/log are functions known through monotonicity, range and point refinement',
                     'CPython/NumPy C API calls (argument parsing, array data pointers) are modelled'],
        outside=['more than two galaxies per solve', 'rounding error', 'solution cells not listed'],
        instances=[
            ('solve', I(path=MID, n=1, w=[52.], slice=True)),
            ('solve', I(path=MID, n=1, w=[52.], r=[0.5], beta=0.25, slice=True)),
            ('solve', I(_2, path=MID, mask=True)),
            ('solve', I(_1, path=MID, beta=0.25)),
            ('solve', I(_1, path=MID, beta=0.25, rsig=0.0625, w=[40.5], ctol=1e-4)),
            ('solve', I(_1, path=MID, beta=0.25, mask=True, w=[45.])),
            ('solve', I(_2, path=[0] * 11, covers=['found', 'nosolution'])),
            ('solve', I(_1, path=[0] * 11, rsig=0.125, beta=0.25, w=[1.25], covers=['found', 'nosolution'])),
            ('solve', I(_2, path=[1] * 15, wmax=4000, covers=['found', 'top'])),
            ('solve', I(_2, path=BIG, wmax=2000)),
            ('solve', I(path=[], n=1, u=[0.], b=[0.], covers=['nosolution'])),
            ('solve', I(_1, path=[], w=[1.25], covers=['found', 'nosolution'])),
            ('shapes', dict(covers=['ok', 'refused'])),
            ('solve', I(_2, path=MID, beta=0.25, rsig=0.0625, w=[30.5, 30.25]), 'thorough'),
            ('solve', I(_2, path=MID, beta=0.25), 'thorough'),
            ('solve', I(_1, path=MID, beta=0.25, mask=True), 'thorough'),
            ('solve', I(path=MID[:13], n=1), 'thorough'),
            ('solve', I(_1, path=MID, beta=0.25, rsig=0.0625), 'thorough'),
        ]),
}
