"""P11 - tensor grids and integration rules combine their factors."""
import itertools
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('1-3 factors with 1-3 points in 1-2 variables each, all points, '
          'weights, knots and integrands (polynomials with free '
          'coefficients) free, up to 3 intervals with 1-3 nodes')
OUTSIDE = 'larger grids, rounding, plots'


def pts(c, name, n, m=1):
    return c.real(name, (n, m), -4, 4)


def grids(c, shape, m=1):
    return [pts(c, 'g%d' % k, n, m) for k, n in enumerate(shape)]


def rows(x):
    return [tuple(r) for r in x]


def c_grid(c, shape, m=1, flat=False):
    g = grids(c, shape, m)
    arg = [np.array(x[:, 0] if flat else x) for x in g]
    keep = list(arg)
    G = ts.FullTensorGrid(arg)
    d = len(shape)
    c.ok('arguments kept', all(a is b and a.shape == b.shape
                               for a, b in zip(arg, keep)))
    c.ok('dimension', G.ndim() == d and list(G.shape) == list(shape))
    c.ok('size', G.size == np.prod(shape))
    ind = np.asarray(G.multi_indices().array)
    c.ok('all indices once', sorted(rows(ind)) == sorted(
        itertools.product(*[range(n) for n in shape])))
    want = np.array([np.concatenate([g[k][i[k]] for k in range(d)])
                     for i in ind])
    c.eq('array', G.array(), want)
    sel = c.int('i', (2, d), 0, None)
    for p in range(2):
        for k in range(d):
            c.assume(sel[p, k] < shape[k])
    sel = np.array([[int(x) for x in r] for r in sel])
    c.eq('at indices', G.eval_at_indices(sel), np.array(
        [np.concatenate([g[k][i[k]] for k in range(d)]) for i in sel]))
    c.eq('array at indices', G.array(sel), G.eval_at_indices(sel))


def c_copies(c, n, d):
    x = pts(c, 'x', n)[:, 0]
    G = ts.FullTensorGrid(np.array(x), d)
    c.ok('dimension', G.ndim() == d and list(G.shape) == [n] * d)
    ind = np.asarray(G.multi_indices().array)
    c.eq('array', G.array(), np.array([[x[k] for k in i] for i in ind]))


def c_sparse(c, shape, idx, copies=False):
    idx = np.array(idx)
    d = idx.shape[1]
    if copies:
        x = pts(c, 'x', shape[0])[:, 0]
        g = [np.reshape(x, (-1, 1))] * d
        G = ts.SparseTensorGrid(np.array(x), ts.MultiIndices(idx), d)
    else:
        g = grids(c, shape)
        G = ts.SparseTensorGrid([np.array(x) for x in g],
                                ts.MultiIndices(idx))
    c.ok('size', G.size == idx.shape[0] and G.ndim() == d)
    c.eq('array', G.array(), np.array(
        [[g[k][i[k], 0] for k in range(d)] for i in idx]))


def c_random(c, shape, same=False):
    d = len(shape)
    lo = c.real('lo', (d,), -2, 0)
    X = ts.RandomVector([ts.UniformRandomVariable(lo[k], lo[k] + 1 + k)
                         for k in range(d)])
    G = ts.FullTensorGrid.random(X, shape[0] if same else list(shape))
    c.ok('shape', list(G.shape) == list(shape))
    x = G.array()
    for k in range(d):
        for t in np.ravel(x[:, k]):
            c.ok('support %d' % k, c.conj(t >= lo[k], t <= lo[k] + 1 + k))


def poly(c, name, d, deg):
    a = c.real(name, (deg + 1,) * d, -1, 1)

    def f(x):
        x = np.asarray(x)
        if x.ndim == 1:
            x = x.reshape(-1, 1)
        r = 0
        for i in np.ndindex(*a.shape):
            t = a[i]
            for k in range(d):
                t = t * x[:, k] ** i[k]
            r = r + t
        return r
    return a, f


def c_rule(c, n, flat):
    x, w = pts(c, 'x', n), c.real('w', (n,), -2, 2)
    R = ts.IntegrationRule(np.array(x[:, 0] if flat else x), np.array(w))
    a, f = poly(c, 'a', 1, 2)
    c.ok('dimension', R.ndim() == 1)
    c.eq('integral', R.integrate(f), sum(w * f(x)))


def c_tensorize(c, n, d):
    x, w = pts(c, 'x', n)[:, 0], c.real('w', (n,), -2, 2)
    R = ts.IntegrationRule(np.array(x), np.array(w)).tensorize(d)
    a, f = poly(c, 'a', d, 1)
    c.ok('dimension', R.ndim() == d)
    want = 0
    for i in itertools.product(range(n), repeat=d):
        t = f(np.array([[x[k] for k in i]]))[0]
        for k in i:
            t = t * w[k]
        want = want + t
    c.eq('integral', R.integrate(f), want)


def c_product(c, shape, flat=False, asgrid=False):
    d = len(shape)
    x = grids(c, shape)
    w = [c.real('w%d' % k, (n,), -2, 2) for k, n in enumerate(shape)]
    p = [np.array(t[:, 0] if flat else t) for t in x]
    R = ts.FullTensorProductIntegrationRule(
        ts.FullTensorGrid(p) if asgrid else p,
        [np.array(t) if k % 2 else np.array(t).reshape(-1, 1)
         for k, t in enumerate(w)])
    c.ok('dimension', R.ndim() == d)
    a, f = poly(c, 'a', d, 1)
    want = 0
    for i in itertools.product(*[range(n) for n in shape]):
        t = f(np.array([[x[k][i[k], 0] for k in range(d)]]))[0]
        for k in range(d):
            t = t * w[k][i[k]]
        want = want + t
    c.eq('integral', R.integrate(f), want)
    Q = R.integration_rule()
    n = int(np.prod(shape))
    c.ok('shapes', Q.points.shape == (n, d) and Q.weights.shape == (n,))
    c.eq('integral of the rule', Q.integrate(f), want)
    c.eq('weights', R.weights_on_grid(), Q.weights)


def knots(c, name, n):
    t = c.real(name, (n,), -2, 2)
    for i in range(n):
        for j in range(i):
            c.assume(abs(t[i] - t[j]) > 0.0625)
    return t


def sorted_(t):
    t = list(t)
    for i in range(len(t)):
        for j in range(len(t) - 1 - i):
            if bool(t[j] > t[j + 1]):
                t[j], t[j + 1] = t[j + 1], t[j]
    return t


def c_composite(c, nk, n, degrees=None):
    t = knots(c, 't', nk)
    R = ts.IntegrationRule.gauss_legendre_composite(np.array(t), n)
    ns = [n] * (nk - 1) if np.ndim(n) == 0 else n
    c.ok('number of nodes', np.size(R.points) == sum(ns))
    s = sorted_(t)
    deg = 2 * min(ns) - 1
    a, f = poly(c, 'a', 1, deg)
    lo, hi = s[0], s[-1]
    c.eq('integral', R.integrate(f), sum(
        a[k] * (hi ** (k + 1) - lo ** (k + 1)) / (k + 1)
        for k in range(deg + 1)), tol=1e-6)
    pos = 0
    for i, m in enumerate(ns):           # each interval on its own
        x, w = R.points[pos:pos + m], R.weights[pos:pos + m]
        pos += m
        for k in range(2 * m):
            c.eq('interval %d degree %d' % (i, k), sum(w * x ** k),
                 (s[i + 1] ** (k + 1) - s[i] ** (k + 1)) / (k + 1), tol=1e-6)


def c_composite_product(c, nks, n):
    t = [knots(c, 't%d' % k, m) for k, m in enumerate(nks)]
    for x in t:
        for i in range(len(x) - 1):
            c.assume(x[i] < x[i + 1])
    R = ts.FullTensorProductIntegrationRule.gauss_legendre_composite(
        [np.array(x) for x in t], n)
    d = len(nks)
    a, f = poly(c, 'a', d, 1)
    want = 0
    for i in np.ndindex(*a.shape):
        r = a[i]
        for k in range(d):
            r = r * (t[k][-1] ** (i[k] + 1) - t[k][0] ** (i[k] + 1)) / (
                i[k] + 1)
        want = want + r
    c.eq('integral', R.integrate(f), want, tol=1e-6)


def c_chebyshev(c, n):
    s = c.real('s', (2,), -3, 3)
    c.assume(s[1] > s[0] + 0.125)
    x = ts.chebyshev_points(n, s)
    y = ts.chebyshev_points(n)
    c.ok('shape', x.shape == (n, 1) and y.shape == (n, 1))
    mid, half = (s[0] + s[1]) / 2, (s[1] - s[0]) / 2
    for k in range(n):
        c.ok('inside %d' % k, c.conj(x[k, 0] > s[0], x[k, 0] < s[1]))
        c.eq('node %d' % k, x[k, 0] - mid, half * float(
            np.cos(np.pi * (2 * k + 1) / (2 * n))), tol=1e-9)
        c.eq('reference node %d' % k, y[k, 0], float(
            np.cos(np.pi * (2 * k + 1) / (2 * n))), tol=1e-12)


def c_is_in(c, d, n):
    B = c.real('B', (2, d), -2, 2)
    x = c.real('x', (n, d), -3, 3)
    got = ts.is_in(np.array(B[:, 0] if d == 1 else B), np.array(x))
    for i in range(n):
        inside = all(bool(x[i, k] >= B[0, k]) and bool(x[i, k] <= B[1, k])
                     for k in range(d))
        c.ok('point %d' % i, bool(got[i]) == inside)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    add = adder(out, time=150)
    shapes = [(1,), (3,), (2, 3), (3, 1), (2, 1, 3), (2, 2, 2)]
    if deep:
        shapes += [(4, 3), (3, 3, 2), (2, 2, 2, 2)]
    for s in shapes:
        add(c_grid, '%s' % (s,), shape=s, opts={'max_conc': 300})
        add(c_product, '%s' % (s,), shape=s)
    for s in ((2,), (2, 3)):
        add(c_grid, '%s-vectors' % (s,), shape=s, flat=True)
        add(c_grid, '%s-two' % (s,), shape=s, m=2)
        add(c_product, '%s-vectors' % (s,), shape=s, flat=True)
        add(c_product, '%s-grid' % (s,), shape=s, asgrid=True)
        add(c_random, '%s' % (s,), shape=s)
    add(c_random, '(2, 2)-same', shape=(2, 2), same=True)
    for n, d in ((1, 2), (2, 1), (3, 2), (2, 3)):
        add(c_copies, '%d-%d' % (n, d), n=n, d=d)
        add(c_tensorize, '%d-%d' % (n, d), n=n, d=d)
    for s, idx in (((3,), [[0], [2]]), ((2, 3), [[0, 0], [1, 0], [0, 2]]),
                   ((2, 2, 3), [[1, 0, 2], [0, 1, 1]])):
        add(c_sparse, '%s' % (s,), shape=s, idx=idx)
    add(c_sparse, 'copies', shape=(3,), idx=[[0, 2], [1, 0]], copies=True)
    for n in (1, 3):
        for fl in (False, True):
            add(c_rule, '%d-%s' % (n, fl), n=n, flat=fl)
    for nk, n in ((2, 1), (2, 2), (3, 1), (3, 2), (3, [1, 2]), (4, 1),
                  (3, [2, 1])) + (((3, 3), (4, [2, 1, 3])) if deep else ()):
        add(c_composite, '%d-%s' % (nk, n), nk=nk, n=n)
    for nks, n in (((2,), 2), ((2, 2), 1), ((2, 3), 1), ((3, 2), 2)):
        add(c_composite_product, '%s-%s' % (nks, n), nks=nks, n=n)
    for n in (1, 2, 3, 5):
        add(c_chebyshev, '%d' % n, n=n)
    for d, n in ((1, 2), (2, 1), (3, 1)):
        add(c_is_in, '%d-%d' % (d, n), d=d, n=n)
    return out
