"""P02: the chi-squared kernel (C code through compute_chisq)."""


def ascm(c, a, order):
    """same values, different memory layout"""
    import numpy as np
    b = np.asarray(a)
    o = np.empty_like(b, order=order)
    o[...] = b
    if order == 'N':
        pass
    return o.view(type(a)) if c.sym else o


def zfirst(c, a):
    import numpy as np
    b = np.asarray(a)
    o = np.ascontiguousarray(np.moveaxis(b, 2, 0))
    o = np.moveaxis(o, 0, 2)
    return o.view(type(a)) if c.sym else o


def strided(c, a):
    """every second element along the first axis of a larger buffer"""
    import numpy as np
    b = np.asarray(a)
    big = np.empty((2 * b.shape[0],) + b.shape[1:], dtype=b.dtype)
    big[...] = 0.75
    big[::2] = b
    o = big[::2]
    return o.view(type(a)) if c.sym else o


def det(M):
    if len(M) == 1:
        return M[0][0]
    s = 0.0
    for j in range(len(M)):
        t = M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
        s = s + t if j % 2 == 0 else s - t
    return s


def quad(M, d):
    n = len(M)
    if n == 1:
        return d[0] * d[0]
    s = 0.0
    for i in range(n):
        for j in range(n):
            m = det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j])
            s = s + d[i] * d[j] * (m if (i + j) % 2 == 0 else -m)
    return s


def posdef(c, M, E):
    n = len(M)
    S = [[M[i][j] - (E if i == j else 0.0) for j in range(n)] for i in range(n)]
    mi = [det([r[:k] for r in S[:k]]) for k in range(1, n + 1)]
    if not c.sym:
        return all(x > 0 for x in mi)
    from symx import cinterp
    # the determinant of M itself is then positive too (a consequence, stated to help the solver)
    return c.all([cinterp.som(x) > 0 for x in mi] + [cinterp.som(det(M)) > 0])


def chisq(c):
    f = c.mod('chisq_dist').compute_chisq
    nc, n, mode = c.ncol, c.n, c.mode
    nm = nc + 1
    ng = 1 if mode == 1 else n
    nz = 1 if mode == 0 else n
    np = c.np
    cov = c.reals('V', (nc, nc, nz), -4, 4)
    for z in range(nz):
        for i in range(nc):
            for j in range(i):
                cov[i, j, z] = cov[j, i, z]
    col = c.reals('col', (nz, nc), -2, 2)
    sl = c.reals('s', (nz, nc), -2, 2) if c.ref else c.reals('s', (nz, nc), -2, 2)
    pv = c.reals('pv', nz, -8, 8)
    rm = c.reals('rm', ng, -8, 8)
    me = c.reals('me', (ng, nm), 0, 2)
    gc = c.reals('gc', (ng, nc), -4, 4)
    re = c.reals('re', ng, 0, 2) if c.ref else None
    lc = c.reals('lc', (max(ng, nz), nc), -2, 2) if c.lup else None
    # spec
    SIG = 0.001
    exp = []
    for i in range(n):
        z = 0 if mode == 0 else i
        g = 0 if mode == 1 else i
        M = [[cov[a, b, z] for b in range(nc)] for a in range(nc)]
        low = c.any([M[a][a] < SIG * SIG for a in range(nc)])
        for a in range(nc):
            for b in range(nc):
                if not c.nophot:
                    if a == b:
                        M[a][b] = M[a][b] + me[g, a] * me[g, a] + me[g, a + 1] * me[g, a + 1]
                    elif abs(a - b) == 1:
                        k = max(a, b)
                        M[a][b] = M[a][b] - me[g, k] * me[g, k]
                if re is not None:
                    M[a][b] = M[a][b] + sl[z, a] * sl[z, b] * re[g] * re[g]
        d = [col[z, a] + sl[z, a] * (rm[g] - pv[z]) + (lc[i, a] if lc is not None else 0.0) - gc[g, a] for a in range(nc)]
        # positive definite, smallest eigenvalue above the repair threshold
        E = 1.0 / 1024 if nc > 1 else 2.0**-24
        if c.params.get('nolow'):
            c.assume(c.not_(low), posdef(c, M, E))
        else:
            c.assume(c.any([low, posdef(c, M, E)]))
        exp.append((low, M, d))
    args = dict(covmat=cov if mode else cov[:, :, 0], c=col if mode else col[0, :], slope=sl if mode else sl[0, :],
                pivotmag=pv, refmag=rm, magerr=me[0, :] if mode == 1 else me, color=gc[0, :] if mode == 1 else gc)
    if re is not None:
        args['refmagerr'] = re
    if lc is not None:
        args['lupcorr'] = lc
    for k in list(args):
        a = args[k]
        if c.lay == 'F':
            args[k] = ascm(c, a, 'F')
        elif c.lay == 'Z' and k == 'covmat' and mode:
            args[k] = zfirst(c, a)
        elif c.lay == 'S':
            args[k] = strided(c, a)
    keep = {k: list(c.np.array(v).flat) for k, v in args.items()}
    which = c.which
    out = f(calc_chisq=which in ('chisq', 'both'), calc_lkhd=which in ('lkhd', 'both'), nophotoerr=c.nophot, **args)
    ch, lk = out if which == 'both' else ((out, None) if which == 'chisq' else (None, out))
    for o in (ch, lk):
        if o is not None:
            c.prove('one value per galaxy or redshift', len(o) == n)
    for i in range(n):
        low, M, d = exp[i]
        if low if not c.sym else bool(low):
            c.cover('sentinel')
            if ch is not None:
                c.prove('sentinel', c.eq(ch[i], 1e11))
            if lk is not None:
                c.prove('sentinel lkhd', c.eq(lk[i], -1e11))
            continue
        c.cover('value')
        D = det(M)
        A = quad(M, d)
        if ch is not None:
            c.prove('chisq = d M^-1 d', c.eq(ch[i], A / D))
            if nc == 1:
                c.prove('chisq >= 0', c.le(0.0, ch[i]))
        if lk is not None:
            if c.sym:
                from symx import arr
                ln = arr.UF['log'](D)
                c.prove('lkhd', c.eq(lk[i], -0.5 * A / D - 0.5 * ln))
            else:
                import math
                c.prove('lkhd', c.eq(lk[i], -0.5 * A / D - 0.5 * math.log(D)))
    c.prove('inputs untouched', c.all([c.eqs(list(c.np.array(args[k]).flat), keep[k]) for k in keep]))


def repair1(c):
    """one colour: a total variance below the floor is lifted to the floor, so the result stays finite"""
    f = c.mod('chisq_dist').compute_chisq
    np = c.np
    v = c.reals('v', (1, 1), 0.000001, 4)
    d = c.reals('d', (1, 1), -4, 4)
    o = f(v, np.zeros(1), np.zeros(1), np.zeros(1), np.zeros(1), np.zeros((1, 2)), d)
    c.assume(c.any([v[0, 0] >= 0.000002, v[0, 0] <= 0.0000015]))
    c.prove('value', c.eq(o[0] * v[0, 0], d[0, 0] * d[0, 0]))
    c.cover('end')


def shapes(c):
    """arrays whose shapes do not agree are refused"""
    f = c.mod('chisq_dist').compute_chisq
    np = c.np
    mode = c.mode
    g = lambda *s: np.ones(s) * 0.5
    D = lambda k: c.index(k, 0, 1)
    nc, n = 2, 2
    nz = n
    bad = dict((k, D(k)) for k in c.vary)
    b = lambda k: bad.get(k, 0)
    if mode == 0:
        args = dict(covmat=g(nc + b('cov0'), nc + b('cov1')), c=g(nc), slope=g(nc + b('slope')), pivotmag=g(1 + b('piv')),
                    refmag=g(n), magerr=g(n + b('me0'), nc + 1 + b('me1')), color=g(n + b('col0'), nc + b('col1')),
                    lupcorr=g(n + b('lup0'), nc + b('lup1')), refmagerr=g(n + b('rme')))
    elif mode == 1:
        args = dict(covmat=g(nc + b('cov0'), nc + b('cov1'), nz + b('cov2')), c=g(nz, nc), slope=g(nz + b('sl0'), nc + b('slope')),
                    pivotmag=g(nz + b('piv')), refmag=g(1), magerr=g(nc + 1 + b('me1')), color=g(nc + b('col1')),
                    lupcorr=g(nz + b('lup0'), nc + b('lup1')), refmagerr=g(1 + b('rme')))
    else:
        args = dict(covmat=g(nc + b('cov0'), nc + b('cov1'), nz + b('cov2')), c=g(nz, nc), slope=g(nz + b('sl0'), nc + b('slope')),
                    pivotmag=g(nz + b('piv')), refmag=g(n + b('rm')), magerr=g(n + b('me0'), nc + 1 + b('me1')),
                    color=g(n + b('col0'), nc + b('col1')),
                    lupcorr=g(n + b('lup0'), nc + b('lup1')), refmagerr=g(n + b('rme')))
    args['covmat'] = args['covmat'] * 0.0 + 0.25
    for i in range(nc):
        args['covmat'][i, i] = 1.0
    ok = not any(bad.values())
    e = c.raises(lambda: f(**args), ValueError)
    c.prove('accepted iff shapes agree', (e is None) == ok)
    c.cover('ok' if ok else 'refused')


def I(mode, ncol, n, **k):
    d = dict(mode=mode, ncol=ncol, n=n, ref=True, lup=True, nophot=False, which='chisq', lay='C', timeout_ms=20000,
             covers=['value', 'sentinel'])
    d.update(k)
    return d


V0 = [['cov0', 'cov1', 'slope', 'piv'], ['me0', 'me1', 'col0', 'col1'], ['lup0', 'lup1', 'rme']]
V1 = [['cov0', 'cov1', 'cov2', 'sl0'], ['slope', 'piv', 'me1', 'col1'], ['lup0', 'lup1', 'rme']]
V2 = [['cov0', 'cov1', 'cov2', 'sl0'], ['slope', 'piv', 'me1', 'col1', 'me0', 'col0'], ['lup0', 'lup1', 'rme', 'rm']]
SH = [('shapes', dict(mode=m, vary=v, covers=['ok', 'refused'])) for m, V in enumerate((V0, V1, V2)) for v in V]

N = dict(nolow=True, covers=['value'], feas_ms=1500)
PROPS = {
    'P02': dict(
        params=dict(slice=False),
        level='model_checking',
        functions=['chisq_dist/chisq_dist.c:chisq_dist', 'chisq_dist/chisq_dist.c:check_and_fix_covmat',
                   'chisq_dist/chisq_dist_pywrap.c:ChisqDistObject_init', 'chisq_dist/chisq_dist_pywrap.c:ChisqDistObject_compute',
                   'chisq_dist/chisq_dist_lib.py:compute_chisq'],
        bounds='1-3 colours, 1-2 galaxies/redshifts, all three calling modes, row-major / column-major / redshift-major / strided '
               'input memory, with and without reference-magnitude errors, luptitude corrections and photometric errors; '
               'all matrix entries, magnitudes, errors and colours symbolic',
        assumptions=['doubles are exact reals', 'GSL matrix, BLAS, LU and symmetric-eigenvalue routines are modelled by their '
                     'mathematical definition', 'the total covariance is symmetric with smallest eigenvalue above 1/1024 (one colour: 2^-24)'],
        outside=['eigenvalue repair of a non-positive-definite covariance (more than one colour)', 'rounding error',
                 'GSL internals'],
        instances=[
            ('chisq', I(0, 1, 2, which='both')), ('chisq', I(1, 1, 2, which='both')), ('chisq', I(2, 1, 2, which='both')),
            ('chisq', I(0, 2, 1, feas_ms=1500)),
            ('chisq', I(1, 2, 2, lay='Z', **N)), ('chisq', I(1, 2, 2, lay='C', nophot=True, lup=False, **N)),
            ('chisq', I(2, 2, 2, lay='F', **N)), ('chisq', I(2, 2, 2, lay='C', ref=False, which='lkhd', **N)),
            ('chisq', I(2, 2, 2, nophot=True, ref=False, lup=False, **N)),
            ('chisq', I(0, 2, 2, lay='F', which='lkhd', **N)), ('chisq', I(0, 2, 2, lay='S', ref=False, **N)),
            ('chisq', I(1, 2, 2, lay='S', which='both', **N)),
            ('chisq', I(0, 3, 1, which='chisq', ref=False, **N)),
            ('repair1', dict(covers=['end'])),
            ('chisq', I(0, 3, 1, which='both', **N), 'thorough'),
            ('chisq', I(1, 3, 1, which='both', **N), 'thorough'),
            ('chisq', I(2, 3, 1, which='both', **N), 'thorough'),
            ('chisq', I(0, 2, 2, feas_ms=1500), 'thorough'),
            ('chisq', I(1, 2, 2, lay='S', feas_ms=1500, which='both'), 'thorough'),
            ('chisq', I(2, 2, 2, feas_ms=1500), 'thorough'),
        ] + SH),
}
