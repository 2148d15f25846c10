"""P10 - tensorization identifies a function with its tensorized version."""
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('bases 2-4, resolutions 1-4, dimensions 1-3, both orderings; '
          'integers, points, tensorized points and the bounds of the '
          'supports free; uniform and normal marginals')
OUTSIDE = ('rounding in the tails and of points next to a cell boundary, other marginals, '
           'copulas')


def c_integers(c, b, d, n, default=False, aslist=False):
    if default:
        i = c.int('i', (n,), 0, b ** d - 1)
        z = ts.integer2baseb(list(i) if aslist else np.array(i), b)
        m = z.shape[1]
        big = c.int('m', None, 0, b ** d - 1)
        c.assume(big == max(list(i)))
        c.ok('enough digits', big < b ** m)
        c.ok('no superfluous digit', m == 1 or big >= b ** (m - 1))
    else:
        i = c.int('i', (n,), 0, b ** d - 1)
        z = ts.integer2baseb(list(i) if aslist else np.array(i), b, d)
        m = d
    c.ok('shape', z.shape == (n, m))
    for p in range(n):
        for k in range(m):
            c.ok('digit %d,%d' % (p, k), c.conj(z[p, k] >= 0, z[p, k] < b))
    c.eq('value', sum(z[:, k] * b ** (m - 1 - k) for k in range(m)), i)
    c.eq('back', np.ravel(ts.baseb2integer(z, b)), i)


def c_digits(c, b, d, n):
    z = c.int('z', (n, d), 0, b - 1)
    i = ts.baseb2integer(np.array(z), b)
    c.eq('integer', np.ravel(i),
         sum(z[:, k] * b ** (d - 1 - k) for k in range(d)))
    c.eq('digits', ts.integer2baseb(i, b, d), z)


def rv(c, name, kind):
    """random variable, lower and upper bound"""
    if kind == 'unit':
        return ts.UniformRandomVariable(0, 1), 0, 1
    if kind == 'std':
        return ts.UniformRandomVariable(), -1, 1
    lo = c.real(name + 'lo', None, -3, 3)
    hi = c.real(name + 'hi', None, -3, 3)
    c.assume(hi - lo > 0.25)
    return ts.UniformRandomVariable(lo, hi), lo, hi


def setup(c, b, d, dim, ordering, kx, ky, single=False):
    X = [rv(c, 'X%d' % k, kx) for k in range(1 if single else dim)]
    Y = [rv(c, 'Y%d' % k, ky) for k in range(1 if single else dim)]
    if single:
        t = ts.Tensorizer(b, d, dim, X[0][0], Y[0][0])
        X, Y = X * dim, Y * dim
    elif kx == 'unit' and ky == 'unit':
        t = ts.Tensorizer(b, d, dim)
    else:
        t = ts.Tensorizer(b, d, dim, ts.RandomVector([x[0] for x in X]),
                          ts.RandomVector([y[0] for y in Y]))
    t.ordering_type = ordering
    return t, X, Y


def points(c, name, n, bounds):
    x = c.real(name, (n, len(bounds)))
    for i in range(n):
        for k, (_, lo, hi) in enumerate(bounds):
            c.assume(x[i, k] >= lo)
            c.assume(x[i, k] <= hi)
    return x


def position(k, p, d, dim, ordering):
    """Column of the p-th digit of variable k."""
    return k * d + p if ordering == 1 else p * dim + k


def value(z, k, b, d, dim, ordering, X, Y):
    """Variable k at the tensorized points, from the definition."""
    i = sum(z[:, position(k, p, d, dim, ordering)] * b ** (d - 1 - p)
            for p in range(d))
    y = (z[:, dim * d + k] - Y[1]) / (Y[2] - Y[1])
    return X[1] + (X[2] - X[1]) * (i + y) / b ** d


def c_map(c, b, d, dim, ordering=1, kx='unit', ky='unit', n=1, single=False,
          form='array'):
    t, X, Y = setup(c, b, d, dim, ordering, kx, ky, single)
    x = points(c, 'x', n, X)
    arg = np.array(x)
    if form == 'vector':
        arg = arg[:, 0]
    elif form == 'list':
        arg = [list(r) for r in arg]
    z = t.map(arg)
    c.ok('shape', z.shape == (n, dim * (d + 1)))
    for p in range(n):
        for k in range(dim * d):
            c.ok('digit %d,%d' % (p, k), c.conj(z[p, k] >= 0, z[p, k] < b))
        for k in range(dim):
            y = z[p, dim * d + k]
            c.ok('rest %d,%d' % (p, k), c.conj(y >= Y[k][1], y <= Y[k][2]))
    for k in range(dim):
        c.eq('variable %d' % k, value(z, k, b, d, dim, ordering, X[k], Y[k]),
             x[:, k])
    y, i = t.map(arg, nargout=2)
    c.eq('digits alone', i, z[:, :dim * d])
    c.eq('rest alone', y, z[:, dim * d:])
    c.eq('inverse', t.inverse_map(z), x)
    c.eq('operand', np.array(arg, dtype=object if c.symbolic else float)
         .reshape(n, dim), x)


def c_inverse(c, b, d, dim, ordering=1, kx='unit', ky='unit', n=1,
              single=False):
    t, X, Y = setup(c, b, d, dim, ordering, kx, ky, single)
    z = np.hstack((c.int('i', (n, dim * d), 0, b - 1),
                   points(c, 'y', n, Y)))
    x = t.inverse_map(np.array(z))
    for k in range(dim):
        c.eq('variable %d' % k, x[:, k],
             value(z, k, b, d, dim, ordering, X[k], Y[k]))
    for p in range(n):
        for k in range(dim):
            w = (Y[k][2] - Y[k][1]) / 64     # away from the cell boundaries
            c.assume(z[p, dim * d + k] >= Y[k][1] + w)
            c.assume(z[p, dim * d + k] <= Y[k][2] - w)
    c.eq('map', t.map(x), z)


def c_normal(c, b, d, dim=1, ordering=1):
    """Any continuous cdf: map is inverted where the quantile exists."""
    mu = c.real('mu', (dim,), -2, 2)
    sg = c.real('sg', (dim,), 0.5, 2)
    t = ts.Tensorizer(b, d, dim, ts.RandomVector(
        [ts.NormalRandomVariable(mu[k], sg[k]) for k in range(dim)]))
    t.ordering_type = ordering
    x = c.real('x', (1, dim), -3, 3)
    for k in range(dim):
        c.assume(abs(x[0, k] - mu[k]) <= 2 * sg[k])
    z = t.map(np.array(x))
    for k in range(dim * d):
        c.ok('digit %d' % k, c.conj(z[0, k] >= 0, z[0, k] < b))
    c.eq('inverse', t.inverse_map(z), x)


def c_function(c, b, d, dim, ordering=1, kind='multi', kx='unit', n=1,
               where='x'):
    t, X, Y = setup(c, b, d, dim, ordering, kx, 'unit')
    a = c.real('a', (dim + 2,), -4, 4)

    def ref(x):
        r = a[0] + a[1] * x[:, 0] * x[:, -1]
        for k in range(dim):
            r = r + a[2 + k] * x[:, k]
        return r

    def fun(x):
        x = np.atleast_2d(x)
        return ref(x)
    if kind == 'callable':
        f = t.tensorize(fun)
    else:
        g = ts.UserDefinedFunction(fun, dim)
        g.evaluation_at_multiple_points = kind == 'multi'
        f = t.tensorize(g)
    c.ok('dimension', f.dim == dim)
    if where == 'x':
        x = points(c, 'x', n, X)
        y = f.eval(np.array(x))
    else:
        z = np.hstack((c.int('i', (n, dim * d), 0, b - 1),
                       points(c, 'y', n, Y)))
        x = np.stack([value(z, k, b, d, dim, ordering, X[k], Y[k])
                      for k in range(dim)], axis=1)
        y = f.fun(np.array(z)) if where == 'fun' else f.eval(np.array(z))
    c.eq('value', np.ravel(y), ref(x))
    dom = f.domain()
    for k in range(dim):
        c.eq('domain %d' % k, dom[k], np.array([X[k][1], X[k][2]]))


def cases(tier):
    deep = tier == 'thorough'
    out = []

    add = adder(out, time=150, snap=20000)
    for b, d, n in ((2, 1, 2), (2, 3, 2), (3, 2, 2), (4, 2, 1), (10, 3, 1),
                    (2, 4, 1)) + (((3, 3, 2), (5, 3, 2), (10, 4, 1),
                                   (2, 6, 2)) if deep else ()):
        add(c_integers, '%d-%d-%d' % (b, d, n), b=b, d=d, n=n)
        add(c_integers, '%d-%d-%d-list' % (b, d, n), b=b, d=d, n=n,
            aslist=True)
        add(c_integers, '%d-%d-%d-default' % (b, d, n), b=b, d=d, n=n,
            default=True)
        add(c_digits, '%d-%d-%d' % (b, d, n), b=b, d=d, n=n)
    sizes = [(2, 1, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2), (3, 1, 2), (2, 1, 3)]
    if deep:
        sizes += [(2, 4, 1), (3, 3, 1), (5, 2, 1), (3, 2, 2), (2, 3, 2),
                  (2, 2, 3)]
    for b, d, dim in sizes:
        for o in (1, 2):
            if o == 2 and dim == 1 and not deep:
                continue
            for kx, ky in (('unit', 'unit'), ('std', 'unit'),
                           ('unit', 'std'), ('free', 'free')):
                nm = '%d-%d-%d-o%d-%s-%s' % (b, d, dim, o, kx, ky)
                kw = dict(b=b, d=d, dim=dim, ordering=o, kx=kx, ky=ky)
                if deep or dim < 3 or (kx, ky) != ('free', 'free'):
                    add(c_map, nm, **kw)
                add(c_inverse, nm, **kw)
            add(c_normal, '%d-%d-%d-o%d' % (b, d, dim, o), b=b, d=d, dim=dim,
                ordering=o)
            for kind in ('multi', 'single', 'callable'):
                for wh in ('x', 'z', 'fun'):
                    add(c_function, '%d-%d-%d-o%d-%s-%s' % (b, d, dim, o, kind,
                                                            wh),
                        b=b, d=d, dim=dim, ordering=o, kind=kind, where=wh,
                        kx='std' if o == 1 else 'unit')
    for dim in (1, 2):
        add(c_map, 'two-%d' % dim, b=2, d=2, dim=dim, n=2, kx='std')
        add(c_inverse, 'two-%d' % dim, b=2, d=2, dim=dim, n=2, kx='std')
        add(c_map, 'list-%d' % dim, b=2, d=2, dim=dim, n=2, form='list')
        add(c_map, 'single-%d' % dim, b=2, d=2, dim=dim, single=True,
            kx='free', ky='free')
    add(c_map, 'vector', b=2, d=2, dim=1, n=2, form='vector')
    add(c_function, 'two', b=2, d=1, dim=2, n=2)
    return out
