def interpol(c):
    U = c.mod('utilities')
    n = c.n
    x = c.reals('x', n)
    c.assume(*[x[i] < x[i + 1] for i in range(n - 1)])
    v = c.reals('v', n)
    xo = c.reals('xo', 1)
    out = U.interpol(v, x, xo)
    t = xo[0]
    c.prove('nodes', c.all([c.implies(t == x[i], c.eq(out[0], v[i])) for i in range(n)]))
    for i in range(n - 1):
        lo, hi = x[i], x[i + 1]
        inside = (t >= lo) & (t <= hi)
        if i == 0:
            inside = inside | (t < lo)
        if i == n - 2:
            inside = inside | (t > hi)
        c.prove('segment', c.implies(inside, c.eq((out[0] - v[i]) * (hi - lo), (v[i + 1] - v[i]) * (t - lo))))
    c.cover('end')


def spline(c):
    U = c.mod('utilities')
    n = c.n
    x = c.np.array([0.25 * i * i + 0.5 * i for i in range(n)])
    y = c.reals('y', n)
    t = c.reals('t', 1)
    s = U.CubicSpline(x, y, fixextrap=c.fix)
    o = s(t)
    for i in range(n):
        c.prove('nodes', c.implies(t[0] == x[i], c.eq(o[0], y[i])))
    if c.fix:
        c.prove('lo', c.implies(t[0] < x[0], c.eq(o[0], y[0])))
        c.prove('hi', c.implies(t[0] > x[-1], c.eq(o[0], y[-1])))
    c.cover('end')


PROPS = {
    'P16': dict(level='model_checking', functions=['utilities.interpol', 'utilities.CubicSpline'],
                bounds='n nodes <= 5', assumptions=[],
                instances=[('interpol', dict(n=2, covers=['end'])), ('interpol', dict(n=4)),
                           ('spline', dict(n=3, fix=False)), ('spline', dict(n=4, fix=True))]),
}
