"""P19 - magic points, principal components and sampling-based tensors."""
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('all 3 x 2 and 2 x 3 matrices with non-zero entries and minors (2 x 2 '
          'for the choice of rows and columns together, 3 x 2 in the thorough '
          'tier), 3 points and 2 functions; all rank-one tensors of orders 2 '
          'and 3 with factors of dimension up to 3, non-zero and (where the '
          'draws are free) increasing in modulus, all outcomes of the draws '
          'of samples (every other draw for trees in the quick tier, fixed '
          'for functions), Tucker, tensor train and three trees; products of '
          'functions of degree 1, 2 variables')
OUTSIDE = ('ranks above one (the SVD of a random sample has no closed form), '
           'sampled unfoldings that miss directions of the tensor, adaptive '
           'sampling and tolerances below one, interpolation_points_feature_'
           'map (needs greedy_algorithml2, not in the package), rounding')


# --- magic indices -------------------------------------------------------------
def residual(F, rows, cols):
    """F minus its interpolation on a cross of at most two rows and columns"""
    n, m = F.shape
    if not rows:
        return np.array(F)
    if len(rows) == 1:
        i, j = rows[0], cols[0]
        return np.array([[F[a, b] - F[a, j] * F[i, b] / F[i, j]
                          for b in range(m)] for a in range(n)])
    (i, k), (j, q) = rows, cols
    d = F[i, j] * F[k, q] - F[i, q] * F[k, j]
    return np.array([[
        F[a, b] - (F[a, j] * (F[k, q] * F[i, b] - F[i, q] * F[k, b]) +
                   F[a, q] * (F[i, j] * F[k, b] - F[k, j] * F[i, b])) / d
        for b in range(m)] for a in range(n)])


def greedy(c, F, I, J, n, option):
    c.ok('number of indices', len(I) == n and len(J) == n)
    c.ok('distinct', len(set(map(int, I))) == n and
         len(set(map(int, J))) == n)
    for k in range(n):
        R = residual(F, [int(i) for i in I[:k]], [int(j) for j in J[:k]])
        i, j = int(I[k]), int(J[k])
        if option == 'left_right':
            c.ok('largest residual', c.all(
                [R[i, j] ** 2 >= R[a, b] ** 2 for a in range(F.shape[0])
                 for b in range(F.shape[1])]))
        elif option == 'left':
            c.ok('order of the columns', j == k)
            c.ok('largest residual of the column', c.all(
                [R[i, k] ** 2 >= R[a, k] ** 2 for a in range(F.shape[0])]))
        else:
            c.ok('order of the rows', i == k)
            c.ok('largest residual of the row', c.all(
                [R[k, j] ** 2 >= R[k, b] ** 2 for b in range(F.shape[1])]))


def regular(c, F):
    """every pivot the greedy algorithm can meet is non-zero"""
    n, m = F.shape
    for i in range(n):
        for j in range(m):
            c.assume(F[i, j] != 0)
            for k in range(i):
                for q in range(j):
                    c.assume(F[i, j] * F[k, q] - F[i, q] * F[k, j] != 0)


def c_magic(c, n, m, option, k=None):
    F = c.real('F', (n, m), -4, 4)
    regular(c, F)
    I, J = ts.magic_indices(np.array(F), k, option)
    greedy(c, F, I, J, min(n, m) if k is None else k, option)


def c_default(c):
    F = c.real('F', (3, 2), -4, 4)
    regular(c, F)
    I, J = ts.magic_indices(np.array(F), 1)
    greedy(c, F, I, J, 1, 'left_right')
    try:
        ts.magic_indices(np.array(F), 1, 'up')
        c.ok('rejected', False)
    except ValueError:
        pass


def basis():
    return ts.UserDefinedFunctionalBasis(
        [lambda x: 1 + 0 * x, lambda x: x],
        ts.UniformRandomVariable(-4, 4), 1)


def c_points(c, col, J=None):
    """points selected in a list, and the Lebesgue constant"""
    x = c.real('x', (3,), -4, 4)
    for i in range(3):
        c.assume(x[i] != 0)
        for j in range(i):
            c.assume(x[i] > x[j])
    H = basis()
    p, ind, out = H.magic_points(np.array(x)[:, None] if col else
                                 np.array(x), J)
    ind = [int(i) for i in ind]
    F = np.array([[1, v] for v in x])
    F = F if J is None else F[:, J]
    c.ok('distinct points', len(set(ind)) == 2)
    c.eq('points', p, np.array([[x[i]] for i in ind]))
    a, b = x[ind[0]], x[ind[1]]
    leb = [abs((v - b) / (a - b)) + abs((v - a) / (b - a)) for v in x]
    c.ok('Lebesgue constant', c.all(
        [out['lebesgue_constant'] >= v - (0 if c.symbolic else 1e-9)
         for v in leb]))
    tol = 0 if c.symbolic else 1e-9
    c.ok('Lebesgue constant attained', any(
        bool(out['lebesgue_constant'] <= v + tol) for v in leb))
    q = H.interpolation_points(np.array(x))
    c.eq('interpolation points', q, p) if J is None else None


def c_several(c, how):
    """bases of several variables"""
    x, y = c.real('x', (2,), -4, 4), c.real('y', (2,), -4, 4)
    for v in (x, y):
        c.assume(v[0] < v[1])
        if v is y:
            c.assume(v[0] > 1)
        c.assume(v[0] != 0)
        c.assume(v[1] != 0)
    H = ts.FunctionalBases([basis(), basis()])
    X = {'list': [np.array(x), np.array(y)],
         'grid': ts.FullTensorGrid([np.array(x)[:, None],
                                    np.array(y)[:, None]]),
         'array': np.array([[x[0], y[0]], [x[1], y[1]]])}[how]
    p, ind = H.magic_points(X)
    for a, k, v in zip(p, ind, (x, y)):
        c.ok('all points', sorted(int(i) for i in k) == [0, 1])
        c.eq('points', a, np.array([[v[int(i)]] for i in k]))
    q = H.interpolation_points(X)
    for a, b in zip(p, q):
        c.eq('interpolation points', b, a)


# --- tensors from samples --------------------------------------------------------
def rank_one(c, shape, bound=4):
    """entries u0[i0] u1[i1] ..., all factors non-zero; increasing when all
    outcomes of the draws are explored"""
    us = [c.real('u%d' % k, (n,), .1, bound) for k, n in enumerate(shape)]
    if c.opts.get('fix_draws') is not True:
        for u in us:
            for i in range(1, len(u)):
                c.assume(u[i - 1] < u[i])
    us[0] = us[0] * np.array([(-1) ** i for i in range(shape[0])])

    def entry(i):
        out = 1
        for k, u in enumerate(us):
            out = out * u[int(i[k])]
        return out
    return entry


def sampled(entry, seen, d):
    def fun(I):
        I = np.asarray(I)
        assert I.ndim == 2 and I.shape[1] == d
        seen.append(len(I))
        return np.array([entry(i) for i in I])
    return fun


def pca(**opts):
    s = ts.TensorPrincipalComponentAnalysis()
    s.display, s.tol = False, np.inf
    for k, v in opts.items():
        setattr(s, k, v)
    return s


TREES = {'balanced': lambda d: ts.DimensionTree.balanced(d),
         'linear': lambda d: ts.DimensionTree.linear(d),
         'trivial': lambda d: ts.DimensionTree.trivial(d),
         'swap': lambda d: ts.DimensionTree.linear([2, 0, 1][:d])}


def approximate(c, s, fun, shape, fmt, listed=False):
    d = len(shape)
    if fmt == 'tucker':
        if listed:
            s.max_rank = [s.max_rank] * d
            s.tol = [s.tol] * d
        return s.tucker_approximation(fun, list(shape))
    if fmt == 'tt':
        if listed:
            s.max_rank = [s.max_rank] * (d - 1)
            s.tol = [s.tol] * (d - 1)
        return s.tt_approximation(fun, list(shape))
    tree = TREES[fmt](d)
    if listed:
        s.max_rank = [s.max_rank] * tree.nb_nodes
        s.tol = [s.tol] * tree.nb_nodes
    return s.tree_based_approximation(fun, list(shape), tree)


def c_rank_one(c, shape, fmt, listed=False, sub='eim'):
    entry, seen = rank_one(c, shape), []
    s = pca(max_rank=1, subsampling=sub)
    t, out = approximate(c, s, sampled(entry, seen, len(shape)), shape, fmt,
                         listed)
    c.ok('evaluations counted', out['number_of_evaluations'] == sum(seen))
    ranks = [int(r) for r in np.ravel(t.ranks)]
    c.ok('ranks', max(ranks) <= 1)
    F = t.full().data
    c.eq('tensor', F, np.reshape(np.array(
        [entry(i) for i in np.ndindex(*shape)]), shape))
    c.ok('settings unchanged', s.subsampling == sub and
         (listed or s.tol == np.inf and s.max_rank == 1))


def c_hopca(c, shape, r=1):
    entry, seen = rank_one(c, shape), []
    s = pca(max_rank=r)
    pcs, out = s.hopca(sampled(entry, seen, len(shape)), list(shape))
    c.ok('one for each dimension', len(pcs) == len(shape) == len(out))
    c.ok('evaluations counted', sum(
        o['number_of_evaluations'] for o in out) == sum(seen))
    for k, U in enumerate(pcs):
        c.ok('shape', U.shape == (shape[k], r))
        c.eq('orthonormal', np.matmul(U.T, U), np.eye(r, dtype=int))
        i = [0] * len(shape)
        v = []
        for a in range(shape[k]):
            i[k] = a
            v.append(entry(i))
        # the unfolding is spanned by the first component
        for a in range(shape[k]):
            for b in range(a):
                c.eq('spans the unfolding', np.asarray(U[a, 0] * v[b]),
                     np.asarray(U[b, 0] * v[a]))


# --- functions from samples ------------------------------------------------------
def functional(**opts):
    s = ts.FunctionalTensorPrincipalComponentAnalysis()
    s.display, s.tol = False, np.inf
    for k, v in opts.items():
        setattr(s, k, v)
    return s


def c_functional(c, d, fmt, given):
    """a product of univariate functions of the bases is reproduced"""
    us = [c.real('u%d' % k, (2,), .1, 2) for k in range(d)]
    H = ts.FunctionalBases([ts.UserDefinedFunctionalBasis(
        [lambda x: 1 + 0 * x, lambda x: x],
        ts.DiscreteRandomVariable(np.array([0., 1., 2.])), 1)
        for _ in range(d)])

    def entry(x):
        out = 1
        for k in range(d):
            out = out * (us[k][0] + us[k][1] * x[k])
        return out

    def fun(x):
        return np.array([entry(v) for v in np.asarray(x)])
    s = functional(max_rank=1, bases=H)
    if given:
        s.grid = [np.array([[.5], [1.], [2.]])] * d
    if fmt == 'tucker':
        f, out = s.tucker_approximation(fun)
    elif fmt == 'tt':
        f, out = s.tt_approximation(fun)
    elif fmt == 'hopca':
        f, out = s.hopca(fun)
        c.ok('one for each dimension', len(f) == d)
        for k in range(d):
            v = f[k].eval(np.array([0., 1., 2.]))
            w = [us[k][0] + us[k][1] * z for z in (0, 1, 2)]
            for a in range(3):
                c.eq('spans the function', np.asarray(v[a, 0] * w[0]),
                     np.asarray(v[0, 0] * w[a]))
        return
    else:
        f, out = s.tree_based_approximation(fun, TREES[fmt](d))
    x = c.real('x', (2, d), -2, 2)
    c.eq('function', np.ravel(f.eval(np.array(x))),
         np.array([entry(x[0]), entry(x[1])]))
    c.ok('settings unchanged', s.max_rank == 1 and s.bases is H)


def cases(tier):
    out = []
    add = adder(out, elim=True, exact_sqrt=True, feas_ms=500, generic=True,
                linear=True, exact_svd=True)
    th = tier != 'quick'
    for n, m, k in ((2, 2, None), (3, 2, 1), (3, 2, None), (2, 3, None)):
        for o in ('left_right', 'left', 'right'):
            if th or k or n == m or o == 'right' and n > m or \
                    o == 'left' and n < m:
                add(c_magic, '%dx%d_%s_%s' % (n, m, k, o), n=n, m=m,
                    option=o, k=k)
    add(c_default, '3x2')
    add(c_points, 'column', col=True)
    add(c_points, 'vector', col=False)
    for how in ('list', 'grid', 'array') if th else ('grid', 'array'):
        add(c_several, how, how=how)
    for fmt in ('tucker', 'tt', 'balanced', 'linear', 'swap'):
        for fix in (False, True):
            for shape in ((2, 2, 2), (2, 1, 2), (2, 1, 3)):
                if th or shape == (2, 1, 3 if fix else 2) or \
                        fmt == 'tt' and not fix and shape[1] == 2:
                    add(c_rank_one, '%s_%s_%s' % (
                        fmt, '-'.join(map(str, shape)), fix),
                        opts=dict(fix_draws=fix or (
                            not th and fmt not in ('tt', 'tucker') and
                            'even')), shape=shape, fmt=fmt,
                        listed=not fix)
    add(c_rank_one, 'tucker_2', shape=(2, 3), fmt='tucker')
    add(c_rank_one, 'tucker_random', opts=dict(fix_draws=True), shape=(2, 2),
        fmt='tucker', sub='random')
    for shape in ((2, 2), (3, 2), (2, 2, 2)):
        add(c_hopca, '-'.join(map(str, shape)), shape=shape)
    for fmt in ('tucker', 'tt', 'balanced', 'hopca'):
        for g in (False, True):
            add(c_functional, '%s_%s' % (fmt, g),
                opts=dict(fix_draws=fmt != 'hopca', snap=20),
                d=3 if th and fmt == 'tt' and not g else 2, fmt=fmt,
                given=g)
    return out
