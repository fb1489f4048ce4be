"""The catalogue container every other part stores its results in."""

FA = [('ID', 'i8'), ('X', 'f8'), ('Mag', 'f8', 2)]
FB = [('Y', 'f8'), ('w', 'f8', 2)]


def make(c, n, tag='', fields=FA, zero=0):
    v = {}
    for f in fields:
        if f[0] == 'ID':
            v['ID'] = [zero + i for i in range(n)]
        elif len(f) == 3:
            v[f[0]] = c.reals(tag + f[0], n * f[2]).reshape(n, f[2])
        else:
            v[f[0]] = c.reals(tag + f[0], n)
    return v, c.rec(n, fields, v)


def rows(c, label, cat, v, want, fields):
    """the rows of cat are exactly the rows `want` (indices into v)"""
    c.prove(label, cat.size == len(want))
    for f in fields:
        a = getattr(cat, f[0])
        for r, i in enumerate(want):
            c.prove(label, c.eqs(a[r], v[f[0]][i]) if len(f) == 3 else c.eq(a[r], v[f[0]][i], tol=0))


def merge(c):
    C = c.mod('catalog')
    n = c.n
    v, a = make(c, n)
    w, b = make(c, n, fields=FB)
    cat = C.Catalog(a, b)
    rows(c, 'merge', cat, v, range(n), FA)
    rows(c, 'merge', cat, w, range(n), FB)
    # new fields are zero and nothing else changes
    cat.add_fields([('NEW', 'f8'), ('k', 'i4', 2)])
    rows(c, 'add', cat, v, range(n), FA)
    rows(c, 'add', cat, w, range(n), FB)
    c.prove('add', c.all([c.eq(cat.new[i], 0.0) for i in range(n)] + [c.eq(cat.k[i, j], 0) for i in range(n) for j in range(2)]))
    # a name that is there already, or other rows, are refused and nothing is lost
    c.prove('duplicate', c.raises(lambda: cat.add_fields([('new2', 'f8'), ('x', 'f8')]), ValueError))
    rows(c, 'duplicate', cat, v, range(n), FA)
    x, d = make(c, n, 'q', [('X', 'f8'), ('T', 'f8')])
    c.prove('duplicate', c.raises(lambda: C.Catalog(c.rec(n, FA, v), d), ValueError))
    _, short = make(c, n - 1, 's', FB)
    c.prove('lengths', c.raises(lambda: C.Catalog(c.rec(n, FA, v), short), ValueError))
    # a single entry
    e = cat[c.i]
    e.add_fields([('Z', 'f8')])
    c.prove('entry', c.all([c.eq(e.x, v['X'][c.i]), c.eq(e.y, w['Y'][c.i]), c.eq(e.z, 0.0), c.eqs(e.mag, v['Mag'][c.i])]))
    c.prove('entry', c.raises(lambda: C.Entry(c.rec(2, FA, None)), ValueError))
    c.cover('end')


def select(c):
    C = c.mod('catalog')
    n = c.n
    v, a = make(c, n)
    cat = C.Catalog(a)
    # by mask: exactly the rows that pass, in order
    t = c.real('cut')
    keep = cat.x < t
    got = cat[keep]
    want = [i for i in range(n) if bool(v['X'][i] < t)]
    c.prove('mask', got.size == len(want))
    rows(c, 'mask', got, v, want, FA)
    # by index list, with repeats and in any order
    i, j = c.index('i', 0, n - 1), c.index('j', 0, n - 1)
    rows(c, 'index', cat[c.np.array([j, i, j])], v, [j, i, j], FA)
    rows(c, 'slice', cat[1:], v, range(1, n), FA)
    rows(c, 'slice', cat[:-1], v, range(n - 1), FA)
    rows(c, 'iterate', C.Catalog(c.rec(n, FA, v)), v, [int(e.id) for e in cat], FA)
    # the rows written are the rows asked for
    out = []
    c.patch(C.fitsio, 'write', lambda f, arr, **k: out.append((f, arr)))
    cat.to_fits_file('a')
    cat.to_fits_file('b', indices=c.np.array([j, i]))
    one = cat[c.np.array([i])]
    one.to_fits_file('c')
    cat[j].to_fits_file('d')
    cat[c.np.array([i])].to_fits_file('e', indices=c.np.array([], dtype='i8'))
    c.prove('written', [x[0] for x in out] == ['a', 'b', 'c', 'd', 'e'])
    for (f, arr), want in zip(out, (range(n), [j, i], [i], [j], [])):
        want = list(want)
        c.prove('written', arr.shape == (len(want),))
        rows(c, 'written', C.Catalog(arr.copy()), v, want, FA)
    c.cover('end')


def write(c):
    C = c.mod('catalog')
    n = c.n
    v, a = make(c, n)
    cat = C.Catalog(a)
    i = c.index('i', 0, n - 1)
    t, u = c.real('t'), c.real('u')
    # an entry is a view: what is set on it is set in its row and nowhere else
    e = cat[i]
    e.X = t
    e.mag[1] = u
    c.prove('entry', c.all([c.eq(cat.x[k], t if k == i else v['X'][k], tol=0) for k in range(n)] +
                           [c.eqs(cat.mag[k], [v['Mag'][k, 0], u] if k == i else v['Mag'][k]) for k in range(n)] + [cat.id[k] == k for k in range(n)]))
    # a column: scalar, one-element and full assignments
    cat.x = t
    c.prove('scalar', c.all([c.eq(cat.X[k], t, tol=0) for k in range(n)]))
    cat.X = c.np.array([u])
    c.prove('one', c.all([c.eq(cat.x[k], u, tol=0) for k in range(n)]))
    w = c.reals('w', n)
    cat.X = w
    c.prove('column', c.all([c.eq(cat.x[k], w[k], tol=0) for k in range(n)]))
    s = cat[c.np.array([i])]
    s.x = c.np.array([t])
    c.prove('copy', c.all([c.eq(cat.x[k], w[k], tol=0) for k in range(n)]) & c.eq(s.x[0], t, tol=0))
    # other attributes are not columns
    cat.note = 7
    c.prove('attribute', cat.note == 7 and 'note' not in cat.dtype.names and 'x' in dir(cat))
    c.prove('attribute', c.raises(lambda: cat.nothing, AttributeError))
    c.cover('end')


def grow(c):
    C = c.mod('catalog')
    n, m = c.n, c.m
    v, a = make(c, n)
    w, b = make(c, m, 'b', zero=50)
    cat = C.Catalog(a)
    cat.append(C.Catalog(b) if c.wrapped else C.Catalog(b)._ndarray)
    c.prove('append', cat.size == n + m and len(cat) == n + m)
    both = {k: [v[k][r] for r in range(n)] + [w[k][r] for r in range(m)] for k in v}
    rows(c, 'append', cat, both, range(n + m), FA)
    cat.extend(2)
    c.prove('extend', cat.size == n + m + 2)
    rows(c, 'extend', cat[:n + m], both, range(n + m), FA)
    c.prove('extend', c.all([c.eq(cat.x[k], 0.0) for k in range(n + m, n + m + 2)] + [c.eq(cat.mag[k, 0], 0.0) for k in range(n + m, n + m + 2)]))
    z = C.Catalog.zeros(n, dtype=FA)
    c.prove('zeros', z.size == n and c.all([c.eq(z.X[k], 0.0) for k in range(n)]))
    c.cover('end')


PROPS = {
    'P21': dict(level='model_checking',
                functions=['catalog.DataObject.__init__', 'catalog.DataObject._merge_arrays', 'catalog.DataObject.add_fields', 'catalog.DataObject.to_fits_file', 'catalog.DataObject.__getattr__',
                           'catalog.DataObject.__setattr__', 'catalog.Catalog.__getitem__', 'catalog.Catalog.append', 'catalog.Catalog.extend', 'catalog.Entry.add_fields'],
                bounds='catalogues of up to 3 (thorough: 4) rows with a scalar, an identifier and a vector column; all column values symbolic reals',
                assumptions=['fitsio.write is replaced by a recorder of the rows given to it'],
                instances=[('merge', dict(n=2, i=1, covers=['end'])), ('select', dict(n=3, covers=['end'])), ('write', dict(n=3, covers=['end'])),
                           ('grow', dict(n=2, m=1, wrapped=True, covers=['end'])), ('grow', dict(n=1, m=2, wrapped=False)),
                           ('merge', dict(n=4, i=2), 'thorough'), ('select', dict(n=4), 'thorough'), ('write', dict(n=4), 'thorough'), ('grow', dict(n=3, m=3, wrapped=True), 'thorough')]),
}
