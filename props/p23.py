"""P23 - functions given by a tensor on product bases."""
import itertools
import math
import numpy as np
import tensap as ts
from .common import adder, tree, sym_tree_tensor, ref_full, data
from .p14 import Fac, bases

BOUNDS = ('all points in [-3, 3] and all tensor entries in [-4, 4]; orders '
          '1-4, 1-3 functions per variable, ranks 1-2, dense, canonical and '
          'tree based tensors (all listed patterns of inactive leaves, '
          'several outputs), every list of variables')
OUTSIDE = 'rounding (tolerance 1e-3 to 1e-6)'
TOL = 1e-4

SIZES = {1: [2], 2: [3, 2], 3: [2, 3, 2], 4: [2, 2, 2, 2]}


class Any(ts.FunctionalBasis):
    """any basis: its values, derivatives and integrals are variables"""

    def __init__(self, c, i, n, npts=2, law=None, tables=None):
        super().__init__()
        self.i, self.n, self.law = i, n, law
        self.measure = other(4)[i]
        self.is_orthonormal = False
        if tables is None:
            tables = {k: c.real('v%d_%d' % (i, k), (npts, n), -3, 3)
                      for k in range(3)}
            tables['mean'] = c.real('m%d' % i, (n,), -3, 3)
            tables['law'] = c.real('l%d' % i, (n,), -3, 3)
            g = c.real('g%d' % i, (n, n), -2, 2)
            tables['gram'] = np.matmul(g, g.T)
        self.t = tables

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, g):
        return self is g

    def cardinal(self):
        return self.n

    def ndim(self):
        return 1

    def domain(self):
        return self.measure.support()

    def rows(self, x):
        r = [int(v) - 10 * self.i for v in np.ravel(x)]
        assert all(0 <= v < 9 for v in r), 'point of another variable'
        return r

    def eval(self, x):
        return np.array(self.t[0][self.rows(x)])

    def eval_derivative(self, n, x):
        return np.array(self.t[int(n)][self.rows(x)])

    def derivative(self, n):
        t = {k - n: v for k, v in self.t.items()
             if not isinstance(k, str) and k >= n}
        return Any(None, self.i, self.n, tables=t)

    def mean(self, measure=None):
        if measure is None:
            return np.array(self.t['mean'])
        assert measure == laws()[self.i], 'law of another variable'
        return np.array(self.t['law'])

    def gram_matrix(self):
        return np.array(self.t['gram'])

    def kron(self, g):
        return Any(None, self.i, self.n * g.n, tables={
            0: (self.t[0][:, :, None] * g.t[0][:, None]).reshape(
                len(self.t[0]), -1)})


class AnyFac:
    def __init__(self, c, i, n):
        self.obj, self.i, self.n = Any(c, i, n), i, n

    def val(self, x, k=0):
        return self.obj.t[k][self.obj.rows(x)]

    def mean(self, X=None):
        return self.obj.t['law' if X is not None else 'mean']

    def gram(self):
        return self.obj.t['gram']


def other(d):
    return [ts.UniformRandomVariable(0, 1), ts.NormalRandomVariable(-1, 1.5),
            ts.UniformRandomVariable(-2, 1),
            ts.NormalRandomVariable(0, 1)][:d]


def laws():
    return [ts.UniformRandomVariable(0, 2), ts.NormalRandomVariable(1, 1.5),
            ts.UniformRandomVariable(-2, 3), ts.NormalRandomVariable(2, 1)]


def points(d, n):
    return np.array([[10. * i + r for i in range(d)] for r in range(n)])


SPEC = {2: [('uni', [0, 1, 2]), ('can', [0, 1])],
        3: [('uni', [0, 1]), ('nor', [1, 0, 2]), ('can', [0, 1])]}


# trees, inactive dimensions
TREES = [('bin2', ()), ('bin2', (1,)), ('bin2', (0, 1)),
         ('ter3', ()), ('ter3', (1,)), ('ter3', (0, 1, 2)),
         ('lin3', ()), ('lin3', (0,)), ('lin3', (1,)), ('lin3', (1, 2)),
         ('bal3', (2,)), ('bal3', (0, 1, 2)),
         ('perm4', ()), ('perm4', (1, 3)), ('mix4', (1,)), ('mix4', (0, 3))]
DIM = {'bin2': 2, 'ter3': 3, 'lin3': 3, 'bal3': 3, 'perm4': 4, 'mix4': 4}


def factors(c, d, real=False):
    if real:
        return [Fac(c, s) for s in SPEC[d]]
    return [AnyFac(c, i, n) for i, n in enumerate(SIZES[d])]


def tensor(c, name, kind, F, rank=2):
    """the tensor and the array of its entries"""
    n = [f.n for f in F]
    if kind == 'full':
        a = c.real(name, tuple(n), -4, 4)
        return ts.FullTensor(np.array(a), len(n), n), a
    if kind == 'more':
        a = c.real(name, tuple(n) + (2,), -4, 4)
        return ts.FullTensor(np.array(a), len(n) + 1, n + [2]), a
    if kind == 'canonical':
        u = [c.real('%s%d' % (name, i), (k, rank), -2, 2)
             for i, k in enumerate(n)]
        w = c.real(name + 'c', (rank,), -2, 2)
        a = 0
        for r in range(rank):
            t = w[r]
            for v in u:
                t = np.multiply.outer(t, v[:, r])
            a = a + t
        return ts.CanonicalTensor([np.array(v) for v in u], np.array(w)), a
    k, inact, root = kind
    t = sym_tree_tensor(c, name, tree(k), rank, n, inact, root)
    return t, ref_full(t)


def order(kind):
    return DIM[kind[0]]


def contract(a, M, dims=None):
    """sum over the modes of the products of the entries and of M"""
    for d, m in enumerate(M):
        if m is None:
            continue
        a = np.moveaxis(np.tensordot(m, a, ([m.ndim - 1], [d])), 0, d)
    return a


def values(F, a, x, n=None):
    """values at the points x, one per row, then the remaining axes"""
    d = len(F)
    V = [f.val(x[:, i], (n or [0] * d)[i]) for i, f in enumerate(F)]
    out = []
    for r in range(len(x)):
        t = a
        for i in range(d):
            t = np.tensordot(V[i][r], t, ([0], [0]))
        out.append(t)
    return np.array([np.asarray(t)[()] for t in out])


def func(t, F, fdims=None):
    return ts.FunctionalTensor(t, bases(F), fdims)


def start(c, kind, d, real=False):
    F = factors(c, d, real)
    t, a = tensor(c, 'a', kind, F)
    return F, t, a, func(t, F, range(d) if kind == 'more' else None)


# ---------------------------------------------------------------------------
def c_eval(c, kind, d):
    F, t, a, f = start(c, kind, d)
    x = points(d, 2)
    want = values(F, a, x)
    c.eq('values', data(f.eval(np.array(x))), want)
    if kind != 'more':
        c.eq('call', np.reshape(data(f(np.array(x))), want.shape), want)
        y = [g.val(x[:, i]) for i, g in enumerate(F)]
        g = ts.FunctionalTensor(t, [np.array(v) for v in y])
        c.eq('values with evaluated bases', data(g.eval(np.array(x))), want)
        c.eq('values given evaluations', data(f.eval_with_bases_evals(
            [np.array(v) for v in y])), want)
    y = f.eval(np.array(x[:1]))
    c.eq('one point', np.ravel(data(y)), np.ravel(want[:1]))
    c.eq('operand', data(f.tensor), a)
    c.ok('storage', f.storage() == t.storage())


def c_derivatives(c, kind, d):
    F, t, a, f = start(c, kind, d)
    x = points(d, 2)
    g = []
    for k in range(d):
        n = [int(i == k) for i in range(d)]
        w = values(F, a, x, n)
        g.append(w)
        c.eq('derivative %d' % k, data(f.eval_derivative(n, np.array(x))), w)
        if True:
            c.eq('derived %d' % k, data(f.derivative(n).eval(np.array(x))),
                 w)
    c.eq('second', data(f.eval_derivative([2] * d, np.array(x))),
         values(F, a, x, [2] * d))
    if kind != 'more':
        c.eq('gradient', data(f.eval_gradient(np.array(x))),
             np.stack(g, 1))
    c.eq('operand', data(f.eval(np.array(x))), values(F, a, x))


def c_partial(c, kind, d):
    """evaluation along some of the variables only"""
    F, t, a, f = start(c, kind, d)
    x = points(d, 2)[1:]
    for k in range(1, d):
        for dims in itertools.combinations(range(d), k):
            dims = list(dims)
            rest = [i for i in range(d) if i not in dims]
            g = f.eval(np.array(x[:, dims]), dims)
            c.ok('functions of the others %s' % dims,
                 isinstance(g, ts.FunctionalTensor))
            c.eq('values %s' % dims, np.ravel(data(g.eval(
                np.array(x[:, rest])))), np.ravel(values(F, a, x)))
    c.eq('operand', data(f.tensor), a)


def c_grid(c, kind, d):
    F, t, a, f = start(c, kind, d)
    x = [10. * i + np.arange(2 - i % 2).reshape(-1, 1) for i in range(d)]
    V = [g.val(np.ravel(x[i])) for i, g in enumerate(F)]
    c.eq('values', data(f.eval_on_grid([np.array(v) for v in x])),
         contract(a, V))
    for k in range(1, d):
        for dims in itertools.combinations(range(d), k):
            dims = list(dims)
            g = f.eval_on_grid([np.array(x[i]) for i in dims], dims)
            c.eq('tensor %s' % dims, data(g.tensor), contract(
                a, [V[i] if i in dims else None for i in range(d)]))
            rest = [i for i in range(d) if i not in dims]
            c.ok('variables %s' % dims, [int(i) for i in g.fdims] == rest)
            c.eq('cardinals %s' % dims, g.bases.cardinals(),
                 [F[i].n for i in rest])


def c_moments(c, kind, d):
    F, t, a, f = start(c, kind, d)
    V = laws()[:d]
    m = [g.mean() for g in F]
    c.eq('mean', f.mean(), contract_all(a, m))
    c.eq('expectation', f.expectation(), contract_all(a, m))
    m2 = [g.mean(X) for g, X in zip(F, V)]
    for W in (ts.RandomVector(V), ts.ProductMeasure(V)):
        c.eq('mean for ' + type(W).__name__, f.mean(W), contract_all(a, m2))
    c.eq('operand', data(f.tensor), a)
    if a.ndim > d:
        return
    G = [g.gram() for g in F]
    n2 = np.sum(contract(a, G) * a)
    c.eq('second moment', f.dot_product_expectation(f), n2)
    if d == 1:
        n = f.norm()
        c.ok('norm', n >= 0)
        c.eq('squared norm', n * n, n2)
    var = n2 - contract_all(a, m) ** 2
    c.eq('variance', f.variance(), var, tol=1e-2)
    t2, b = tensor(c, 'b', kind, F)
    g = func(t2, F)
    c.eq('inner product', f.dot_product_expectation(g),
         np.sum(contract(a, G) * b))


def contract_all(a, m):
    for v in m:
        a = np.tensordot(v, a, ([0], [0]))
    return a


def c_conditional(c, kind, d):
    tr = not isinstance(kind, str)
    F, t, a, f = start(c, kind, d)
    x = points(d, 2)[1:]
    m = [g.mean() for g in F]
    c.eq('on nothing', f.conditional_expectation([]), contract_all(a, m))
    mean = contract_all(a, m)
    for k in range(1, d + 1):
        for dims in itertools.permutations(range(d), k):
            if list(dims) != sorted(dims) and k == d and d > 2:
                continue
            s = sorted(dims)
            w = a
            for i in range(d):
                w = np.tensordot(F[i].val(x[:, i])[0] if i in dims else m[i],
                                 w, ([0], [0]))
            g = f.conditional_expectation(list(dims))
            c.eq('on %s' % (dims,), np.ravel(data(g.eval(np.array(
                x[:, s])))), np.ravel(w))
            if list(dims) != s or tr and d == 4:
                continue
            mask = [i in dims for i in range(d)]
            g = f.conditional_expectation(mask)
            c.eq('on mask %s' % (dims,), np.ravel(data(g.eval(np.array(
                x[:, s])))), np.ravel(w))
            if a.ndim > d or tr and k > 1 and dims[0] == 0:
                continue
            b = a
            for i in range(d)[::-1]:
                if i not in dims:
                    b = np.tensordot(m[i], b, ([0], [i]))
            w = np.sum(contract(b, [F[i].gram() for i in s]) * b) - mean ** 2
            v = f.variance_conditional_expectation([list(dims)])
            c.eq('variance on %s' % (dims,), v, [w], tol=1e-2)
            if tr and d > 2:
                continue
            v = f.variance_conditional_expectation([mask, mask])
            c.eq('variance on mask %s' % (dims,), v, [w] * 2, tol=1e-2)
    c.eq('operand', data(f.tensor), a)


def c_algebra(c, kind, d):
    F, t, a, f = start(c, kind, d)
    t2, b = tensor(c, 'b', kind, F)
    g = func(t2, F)
    s = c.real('s', None, -2, 2)
    x = points(d, 2)[1:]
    u, v = values(F, a, x), values(F, b, x)
    c.eq('sum', data((f + g).eval(np.array(x))), u + v)
    c.eq('multiple', data((f * s).eval(np.array(x))), u * s)
    if d < 4:
        c.eq('product', data((f * g).eval(np.array(x))), u * v, tol=1e-2)
    c.eq('operand', data(f.tensor), a)
    c.eq('second operand', data(g.tensor), b)


def c_gradient(c, kind, d):
    """the gradient with respect to a core gives the values back"""
    F, t, a, f = start(c, kind, d)
    x = points(d, 2)
    want = values(F, a, x)
    y = [g.val(x[:, i]) for i, g in enumerate(F)]
    h = ts.FunctionalTensor(t, [np.array(v) for v in y])
    for v in range(1, t.tree.nb_nodes + 1):
        if not t.is_active_node[v - 1]:
            continue
        core = np.asarray(t.tensors[v - 1].data)
        for nm, g in (('', f.parameter_gradient_eval(v, np.array(x))),
                      (' evaluated', h.parameter_gradient_eval(v))):
            g = np.asarray(g.data)
            if v == t.tree.root and a.ndim > d:
                # several outputs: one gradient for all
                k = core.ndim - 1
                got = np.tensordot(g, core, (list(range(1, k + 1)),
                                             list(range(k))))
            else:
                k = core.ndim
                got = np.tensordot(g, core, (list(range(1, k + 1)),
                                             list(range(k))))
            c.eq('gradient at node %d%s' % (v, nm), got, want)
    c.eq('operand', data(f.tensor), a)


def c_gradient_can(c, d):
    F, t, a, f = start(c, 'canonical', d)
    x = points(d, 2)
    want = values(F, a, x)
    for k in range(1, d + 1):
        g = np.asarray(f.parameter_gradient_eval(k, np.array(x)).data)
        # the weights belong to the factor
        u = np.asarray(t.space[k - 1]) * np.asarray(t.core.data)
        c.eq('gradient %d' % k, np.tensordot(g, u.T, ([1, 2], [0, 1])), want)
    g = np.asarray(f.parameter_gradient_eval(d + 1, np.array(x)).data)
    c.eq('gradient of the core', np.matmul(g, t.core.data), want)


def c_dmrg(c, kind, d):
    """two adjacent cores"""
    F, t, a, f = start(c, kind, d)
    x = points(d, 2)[1:]
    want = values(F, a, x)
    for v in range(1, t.tree.nb_nodes + 1):
        if v == t.tree.root:
            continue
        p = int(t.tree.parent(v))
        pos = [int(w) for w in t.tree.children(p)].index(v)
        cv = np.asarray(t.tensors[v - 1].data)
        cp = np.moveaxis(np.asarray(t.tensors[p - 1].data), pos, 0)
        both = np.tensordot(cv, cp, ([cv.ndim - 1], [0]))
        k = both.ndim - (1 if p == t.tree.root and a.ndim > d else 0)
        g = np.asarray(f.parameter_gradient_eval_dmrg(
            v, np.array(x)).data)
        c.eq('merged cores at node %d' % v, np.tensordot(
            g, both, (list(range(1, k + 1)), list(range(k)))), want)
        if a.ndim > d:
            continue
        ga, gg = f.parameter_gradient_eval_dmrg(v, np.array(x),
                                                'dmrg_low_rank')
        ga, gg = np.asarray(ga.data), np.asarray(gg.data)
        m = cv.ndim - 1
        u = np.tensordot(ga, cv, (list(range(1, 1 + m)), list(range(m))))
        q = np.tensordot(gg, cp, (list(range(1, cp.ndim)),
                                  list(range(1, cp.ndim))))
        c.eq('factors at node %d' % v, np.sum(u * q, 1), want)


def c_real(c, kind, d):
    F, t, a, f = start(c, kind, d, True)
    x = c.real('x', (1, d), -3, 3)
    want = values(F, a, x)
    c.eq('values', np.ravel(data(f.eval(np.array(x)))), np.ravel(want),
         tol=1e-3)
    y, z = f.random(2, nargout=2)
    z = np.stack([np.ravel(v) for v in z], 1)
    c.eq('drawn', data(y), values(F, a, z), tol=1e-2)


def cases(tier):
    quick = tier == 'quick'
    out = []
    add = adder(out, time=60 if quick else 300, snap=100)
    kinds = []
    for d in (1, 2, 3):
        kinds += [('full', d), ('more', d)] + (
            [('canonical', d)] if d > 1 else [])
    for k, inact in TREES:
        for root in (1, 2):
            kinds.append(((k, inact, root), DIM[k]))
    for kind, d in kinds:
        tr = not isinstance(kind, str)
        nm = '%s %d' % (kind, d) if not tr else '%s-%s-%d' % (
            kind[0], ''.join(map(str, kind[1])) or 'active', kind[2])
        add(c_eval, nm, kind=kind, d=d)
        add(c_derivatives, nm, kind=kind, d=d)
        if d < 4 or kind[1] == (0, 3):
            add(c_moments, nm, kind=kind, d=d)
        if d > 1 and not tr:
            add(c_partial, nm, kind=kind, d=d)
        add(c_grid, nm, kind=kind, d=d)
        if kind != 'more':
            add(c_conditional, nm, kind=kind, d=d)
        if kind not in ('more', 'canonical'):
            add(c_algebra, nm, kind=kind, d=d)
        if d in SPEC and (not tr or kind[2] == 1):
            add(c_real, nm, kind=kind, d=d)
        if tr:
            if len(kind[1]) < d:
                add(c_gradient, nm, kind=kind, d=d)
            if not kind[1]:
                add(c_dmrg, nm, kind=kind, d=d)
    for d in (2, 3):
        add(c_gradient_can, str(d), d=d)
    return out
