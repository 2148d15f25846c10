"""P20 - functions: storage of evaluations, restriction, grids, composition."""
import itertools
import numpy as np
import tensap as ts
from .common import adder, tree, data
from .p23 import other

BOUNDS = ('polynomial functions with free coefficients in 1-3 variables and '
          'values in R, R^2 and R^(2x2); all points free (points that may '
          'coincide: free integers in 0..1); histories of up to four '
          'evaluations of 1-2 points; every list of frozen variables; '
          'compositions along trees of order 2-4')
OUTSIDE = 'rounding, plots, functions given by strings of other libraries'

SHAPES = {1: 1, 2: 2, 4: [2, 2], 3: [3, 1]}


class Fun:
    """a polynomial function with free coefficients, and the rows given"""

    def __init__(self, c, d, m, shape=None):
        self.d, self.m = d, m
        self.a = c.real('a', (d, m), -3, 3)
        self.b = c.real('b', (d, m), -3, 3)
        self.e = c.real('e', (m,), -3, 3)
        self.shape = SHAPES[m] if shape is None else shape
        self.rows = 0

    def ref(self, x):
        """(number of points) + output shape"""
        x = np.asarray(x)
        out = np.array([[self.one(r, k) for k in range(self.m)] for r in x])
        return out.reshape([len(x)] + list(np.atleast_1d(self.shape)))

    def one(self, r, k):
        y = self.e[k]
        for i in range(self.d):
            y = y + self.a[i, k] * r[i] + self.b[i, k] * r[i] * r[i - 1]
        return y

    def __call__(self, x):
        self.rows += len(x)
        y = self.ref(x)
        return y[:, 0] if self.m == 1 else y

    def function(self, multi=True):
        f = ts.UserDefinedFunction(self, self.d, self.shape)
        f.evaluation_at_multiple_points = multi
        return f


def flat(y):
    y = data(y)
    return y[:, 0] if y.ndim == 2 and y.shape[1] == 1 else y


def c_eval(c, d, m, multi):
    F = Fun(c, d, m)
    f = F.function(multi)
    x = c.real('x', (2, d), -3, 3)
    c.eq('values', data(f.eval(np.array(x))), F.ref(x))
    c.eq('call', data(f(np.array(x))), flat(F.ref(x)))
    c.eq('one point', data(f(np.array(x[1:]))), flat(F.ref(x[1:])))
    if d == 1:
        c.eq('vector of points', data(f(np.array(x[:, 0]))), flat(F.ref(x)))


def c_store(c, d, m, sizes, multi=True):
    """any history of evaluations gives the values of the function"""
    F = Fun(c, d, m)
    f = F.function(multi)
    f.store = True
    seen = []
    for k, n in enumerate(sizes):
        x = c.int('x%d' % k, (n, d), 0, 1)
        F.rows = 0
        y = f(np.array(x))
        if multi:
            new = 0
            for i, r in enumerate(x):
                if not any(all(bool(u == v) for u, v in zip(r, s))
                           for s in seen):
                    new += 1
            c.ok('evaluations %d' % k, F.rows == new)
        seen += [list(r) for r in x]
        c.eq('values %d' % k, data(y), flat(F.ref(x)))
    y, g = f.store_eval(np.array(x))
    c.eq('stored', np.ravel(data(y)), np.ravel(F.ref(x)))
    c.ok('function', g is f)


def c_partial(c, d, m, multi):
    F = Fun(c, d, m)
    f = F.function(multi)
    X = ts.RandomVector(other(4)[:d])
    f.measure = X
    x = c.real('x', (2, d), -3, 3)
    for k in range(1, d):
        for na in itertools.permutations(range(d), k):
            al = [i for i in range(d) if i not in na]
            g = f.partial_evaluation(list(na), np.array(x[:1][:, list(na)]))
            z = np.array(x)
            z[:, list(na)] = x[0, list(na)]
            c.eq('values %s' % (na,), data(g(np.array(x[:, al]))),
                 flat(F.ref(z)))
            c.ok('dimension %s' % (na,), g.dim == len(al))
            c.ok('measure %s' % (na,), g.measure == X.marginal(al))


def c_partial_nomeasure(c):
    F = Fun(c, 2, 1)
    f = F.function()
    x = c.real('x', (2, 2), -3, 3)
    g = f.partial_evaluation([0], np.array(x[:1, :1]))
    z = np.array(x)
    z[:, 0] = x[0, 0]
    c.eq('values', data(g(np.array(x[:, 1:]))), flat(F.ref(z)))


def c_grid(c, d, m, multi=True):
    F = Fun(c, d, m)
    f = F.function(multi)
    n = [2, 1, 3][:d]
    x = [c.real('x%d' % i, (k, 1), -3, 3) for i, k in enumerate(n)]
    g = ts.FullTensorGrid([np.array(v) for v in x])
    y = f.eval_on_tensor_grid(g)
    out = list(np.atleast_1d(SHAPES[m])) if m > 1 else []
    want = np.empty(n + out, dtype=object)
    for i in np.ndindex(*n):
        p = np.array([x[k][i[k], 0] for k in range(d)]).reshape(1, -1)
        want[i] = F.ref(p)[0] if m > 1 else F.ref(p)[0, 0]
    c.ok('order', y.order == want.ndim)
    c.eq('values', data(y), want)


def c_sparse_grid(c):
    F = Fun(c, 2, 1)
    f = F.function()
    x = [c.real('x%d' % i, (2, 1), -3, 3) for i in range(2)]
    ind = [[0, 0], [1, 0], [1, 1]]
    g = ts.SparseTensorGrid([np.array(v) for v in x],
                            ts.MultiIndices(np.array(ind)))
    y = f.eval_on_tensor_grid(g)
    c.eq('values', np.ravel(data(y.data)), [
        F.ref(np.array([[x[0][i, 0], x[1][j, 0]]]))[0, 0]
        for i, j in y.indices.array.tolist()])
    c.ok('indices', sorted(y.indices.array.tolist()) == ind)


def c_random(c, m, given):
    F = Fun(c, 2, m)
    f = F.function()
    V = other(4)[:2]
    W = ts.RandomVector(V)
    if given:
        y, x = f.random(2, W)
    else:
        f.measure = W
        y, x = f.random(2)
    c.ok('points', np.shape(x) == (2, 2))
    c.eq('values', data(y), F.ref(x), tol=1e-6)


def c_test_error(c, m, how):
    """relative errors at given or drawn points"""
    n = 2
    x = np.array([[1, 2.], [3, 4]])
    u0 = c.real('u', [n] + list(np.atleast_1d(SHAPES[m])), 1, 3)
    g = c.real('g', [n] + list(np.atleast_1d(SHAPES[m])), 1, 3)
    u, v = np.reshape(u0, (n, -1)), np.reshape(g, (n, -1))

    def val(z):
        assert np.array_equal(z, x)
        return np.array(u0)
    f = ts.UserDefinedFunction(val, 2, SHAPES[m])
    f.evaluation_at_multiple_points = True
    if how == 'values':
        e2, ei = f.test_error(np.array(g), np.array(x))
    elif how == 'function':
        h = ts.UserDefinedFunction(lambda z: np.array(g), 2, SHAPES[m])
        h.evaluation_at_multiple_points = True
        e2, ei = f.test_error(h, np.array(x))
    else:
        class Meas(ts.ProbabilityMeasure):
            def __init__(self):
                pass

            def random(self, k):
                assert k == n
                return np.array(x)

            def mean(self):
                pass

            def marginal(self, ind):
                pass

            def ndim(self):
                return 2

            def support(self):
                pass

            def truncated_support(self):
                pass

            def __eq__(self, o):
                return self is o
        Meas.__abstractmethods__ = frozenset()
        h = ts.UserDefinedFunction(lambda z: np.array(g), 2, SHAPES[m])
        h.evaluation_at_multiple_points = True
        if how == 'measure':
            e2, ei = f.test_error(h, n, Meas())
        elif how == 'own':
            f.measure = Meas()
            e2, ei = f.test_error(h, n)
        else:
            h.measure = Meas()
            e2, ei = f.test_error(h, n)
    c.eq('L2', e2 ** 2 * np.sum(v * v), np.sum((u - v) ** 2), tol=1e-6)
    c.ok('sign', c.conj(e2 >= 0, ei >= 0))
    rn, rd = np.sum((u - v) ** 2, 1), np.sum(v * v, 1)
    top = rn[0]
    bot = rd[0]
    for i in range(1, n):
        if rn[i] > top:
            top = rn[i]
        if rd[i] > bot:
            bot = rd[i]
    c.eq('Linf', ei ** 2 * bot, top, tol=1e-6)


def c_string(c):
    x = c.real('x', (2, 2), -3, 3)
    f = ts.UserDefinedFunction('x0**2 - 3*x1 + x0*x1', 2)
    f.evaluation_at_multiple_points = True
    c.eq('values', data(f(np.array(x))),
         x[:, 0] ** 2 - 3 * x[:, 1] + x[:, 0] * x[:, 1])
    f = ts.UserDefinedFunction('x0**2 - 3*x1 + x0*x1', 2)
    c.eq('values one by one', data(f(np.array(x))),
         x[:, 0] ** 2 - 3 * x[:, 1] + x[:, 0] * x[:, 1])
    z = c.real('z', (1, 12), -3, 3)
    f = ts.UserDefinedFunction('x1 - 2*x10 + x11*x0', 12)
    f.evaluation_at_multiple_points = True
    c.eq('ten variables', data(f(np.array(z))),
         z[:, 1] - 2 * z[:, 10] + z[:, 11] * z[:, 0])
    f = ts.UserDefinedFunction('[x0, x1**2]', 2, 2)
    f.evaluation_at_multiple_points = True
    c.eq('two outputs', data(f(np.array(x))),
         np.stack([x[:, 0], x[:, 1] ** 2], 1))


def c_list(c):
    """several outputs given as a list"""
    x = c.real('x', (2, 2), -3, 3)
    f = ts.UserDefinedFunction(
        lambda z: [z[:, 0], z[:, 1] ** 2, z[:, 0] * z[:, 1]], 2, 3)
    f.evaluation_at_multiple_points = True
    c.eq('values', data(f(np.array(x))), np.stack(
        [x[:, 0], x[:, 1] ** 2, x[:, 0] * x[:, 1]], 1))


def c_wrapped(c):
    """a function object as the function"""
    F = Fun(c, 2, 1)
    f = ts.UserDefinedFunction(F.function(), 2)
    x = c.real('x', (2, 2), -3, 3)
    c.eq('one by one', data(f(np.array(x))), flat(F.ref(x)))
    f.evaluation_at_multiple_points = True
    c.eq('values', data(f(np.array(x))), flat(F.ref(x)))


def c_composition(c, kind, one):
    t = tree(kind)
    d = len(t.dim2ind)
    inner = [n for n in range(1, t.nb_nodes + 1)
             if n not in [int(i) for i in t.dim2ind]]
    adj = np.array(t.adjacency_matrix)
    co = {n: c.real('w%d' % n, (4, 2), -2, 2) for n in inner}
    if one:
        co = {n: co[inner[0]] for n in inner}

    def node(n):
        def f(*u):
            y = 0
            for k, v in enumerate(u):
                y = y + co[n][k, 0] * v + co[n][k, 1] * v * u[k - 1]
            return y
        return f
    if one:
        fun = node(inner[0])
    else:
        fun = np.empty(t.nb_nodes, dtype=object)
        for n in inner:
            fun[n - 1] = node(n)
        fun = list(fun)
    X = ts.RandomVector(other(4)[:d])
    f = ts.CompositionalModelFunction(t, fun, X)
    x = c.real('x', (2, d), -2, 2)
    dim = {int(n): i for i, n in enumerate(t.dim2ind)}

    def rec(n, r):
        if n in dim:
            return r[dim[n]]
        return node(n)(*[rec(k + 1, r) for k in np.nonzero(adj[n - 1])[0]])
    root = [n for n in inner if not adj[:, n - 1].any()][0]
    c.eq('values', data(f(np.array(x))), [rec(root, r) for r in x])
    c.eq('one point', data(f(np.array(x[:1]))), [rec(root, x[0])])
    c.ok('attributes', f.dim == d and f.measure is X)


def c_tensorized(c, b, res, dim):
    """the tensorized version of a function"""
    t = ts.Tensorizer(b, res, dim)
    F = Fun(c, dim, 1)
    g = t.tensorize(F.function())
    y = [c.real('y%d' % i, None, 0, 1) for i in range(dim)]
    i = c.int('i', (dim * res,), 0, b - 1)
    z = np.array(list(i) + y).reshape(1, -1)
    x = np.array([[(sum(i[v * res + k] * b ** (res - 1 - k)
                        for k in range(res)) + y[v]) / b ** res
                   for v in range(dim)]])
    c.eq('values', np.ravel(data(g.eval(np.array(z)))), np.ravel(F.ref(x)),
         tol=1e-6)
    c.eq('values at points', np.ravel(data(g.eval(np.array(x)))),
         np.ravel(F.ref(x)), tol=1e-6)
    c.ok('dimensions', g.fun.dim == dim * (res + 1) and g.dim == dim)


def cases(tier):
    quick = tier == 'quick'
    out = []
    add = adder(out, time=60 if quick else 400, snap=100)
    for d in (1, 2, 3):
        for m in (1, 2, 3, 4):
            for multi in (True, False):
                add(c_eval, '%d-%d-%s' % (d, m, multi), d=d, m=m,
                    multi=multi)
                if d > 1:
                    add(c_partial, '%d-%d-%s' % (d, m, multi), d=d, m=m,
                        multi=multi)
            add(c_grid, '%d-%d' % (d, m), d=d, m=m)
    for m in (1, 2, 4):
        for d, sizes in [(1, (2, 1, 2)), (2, (1, 1)), (1, (1, 2, 2, 1)),
                         (2, (2, 1))] + (
                [] if quick else [(2, (2, 1, 1)), (1, (3, 2, 2))]):
            add(c_store, '%d-%d-%s' % (d, m, '-'.join(map(str, sizes))),
                d=d, m=m, sizes=sizes)
        add(c_store, '1-%d-one by one' % m, d=1, m=m, sizes=(1, 2, 1),
            multi=False)
        for given in (True, False):
            add(c_random, '%d-%s' % (m, given), m=m, given=given)
        for how in ('values', 'function', 'measure', 'own', 'other'):
            add(c_test_error, '%d-%s' % (m, how), m=m, how=how)
    add(c_partial_nomeasure, '')
    add(c_sparse_grid, '')
    add(c_string, '')
    add(c_list, '')
    add(c_wrapped, '')
    for k in ('bin2', 'ter3', 'lin3', 'bal3', 'mix4', 'perm4', 'bal4',
              'lin4', 'deep4'):
        for one in (True, False):
            add(c_composition, '%s-%s' % (k, one), kind=k, one=one)
    for b, res, dim in [(2, 2, 1), (2, 1, 2), (3, 2, 1)] + (
            [] if quick else [(2, 2, 2)]):
        add(c_tensorized, '%d-%d-%d' % (b, res, dim), b=b, res=res, dim=dim)
    return out
