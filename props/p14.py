"""P14 - bases of multivariate functions and expansions on them."""
import itertools
import math
import numpy as np
import tensap as ts
from .common import adder
from .p12 import reference, moment_of, horner, deriv, normal_moment

BOUNDS = ('all points in [-3, 3], all coefficients and values; products of '
          '1-3 univariate bases of 1-3 functions, up to 12 functions, '
          'functions with values in R, R^2 and R^(2x2), every list of '
          'variables')
OUTSIDE = ('rounding (tolerance 1e-6), variance for a measure other than '
           'that of the basis, grids with several points per variable chosen '
           'by magic points (P19)')
TOL = 1e-6


# --- univariate factors and their reference --------------------------------
def compose(p, s, t):
    """coefficients of p((x - s) / t)"""
    out = np.zeros(len(p))
    for k, a in enumerate(p):
        q = np.array([1.])
        for _ in range(k):
            q = np.convolve(q, [-s / t, 1 / t])
        out[:len(q)] += a * q
    return out


class Fac:
    """a univariate basis and the coefficients of its functions"""

    def __init__(self, c, spec):
        kind, ind = spec
        self.kind, self.ind = kind, list(ind)
        n = max(ind) + 1
        if kind == 'uni':
            X = ts.UniformRandomVariable(-1, 2)
            P = X.orthonormal_polynomials()
            R = [compose(p, .5, 1.5)
                 for p in reference(moment_of('legendre', None), n)]
        elif kind == 'nor':
            X = ts.NormalRandomVariable(1, 2)
            P = X.orthonormal_polynomials()
            R = [compose(p, 1, 2)
                 for p in reference(moment_of('hermite', None), n)]
        else:
            X = ts.UniformRandomVariable(-1, 2)
            P = ts.CanonicalPolynomials(X)
            R = np.eye(n)
        self.obj = ts.PolynomialFunctionalBasis(P, self.ind)
        self.C = np.array(R)[self.ind].astype(object)
        self.X = X
        self.orthonormal = kind in ('uni', 'nor')
        if kind == 'sub':
            B = c.real('B', (len(ind), 2), -2, 2)
            self.obj = ts.SubFunctionalBasis(self.obj, np.array(B))
            self.C = np.matmul(B.T, self.C)
            self.orthonormal = False
        self.n = len(self.C)

    def val(self, x, k=0):
        """(len(x), n)"""
        return np.array([[poly(deriv(list(p), k), t) for p in self.C]
                         for t in x], dtype=object).reshape(len(x), self.n)

    def mean(self, X=None, k=0):
        m = moments(X or self.X, 9)
        return np.array([sum(a * m[i] for i, a in enumerate(p))
                         for p in self.C], dtype=object)

    def gram(self, k=0):
        m = moments(self.X, 12)
        C = [deriv(list(p), k) for p in self.C]
        return np.array([[sum(a * b * m[i + j] for i, a in enumerate(p)
                              for j, b in enumerate(q)) for q in C]
                         for p in C], dtype=object)


def poly(p, x):
    y = 0
    for a in p[::-1]:
        y = y * x + a
    return y


def moments(X, n):
    if isinstance(X, ts.NormalRandomVariable):
        m, s = float(X.mu), float(X.sigma)
        return [float(sum(math.comb(k, j) * m ** (k - j) * s ** j *
                          float(normal_moment(j)) for j in range(k + 1)))
                for k in range(n)]
    a, b = [float(v) for v in np.ravel(X.support())]
    return [(b ** (k + 1) - a ** (k + 1)) / (k + 1) / (b - a)
            for k in range(n)]


SPEC = {
    'uu': [('uni', [0, 1, 2]), ('uni', [1, 0])],
    'un': [('uni', [0, 1]), ('nor', [2, 0, 1])],
    'nuc': [('nor', [0, 1]), ('uni', [0, 2]), ('can', [0, 1, 2])],
    'unu': [('uni', [0, 1]), ('nor', [0, 2]), ('uni', [0, 1, 2])],
    'cs': [('can', [1, 0, 2]), ('sub', [0, 1])],
    's': [('sub', [0, 2])],
    'u': [('uni', [0, 1, 3])],
    'scu': [('sub', [0, 1]), ('can', [1, 0]), ('uni', [0, 1])],
    'uuu': [('uni', [0, 1]), ('uni', [1, 0]), ('uni', [0, 1])],
}
SPARSE = {
    'uu': [(0, 0), (1, 0), (2, 1), (0, 1)],
    'un': [(1, 2), (0, 0), (0, 1)],
    'nuc': [(0, 0, 0), (1, 0, 2), (0, 1, 1), (1, 1, 0), (0, 0, 1)],
    'unu': [(0, 0, 0), (1, 0, 2), (0, 1, 1), (1, 1, 0), (0, 0, 1)],
    'cs': [(0, 0), (2, 1), (1, 1), (0, 1)],
    's': [(1,), (0,)],
    'u': [(0,), (2,)],
    'scu': [(0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1)],
    'uuu': [(0, 1, 0), (1, 1, 1), (1, 0, 1), (0, 0, 1)],
}


def plain(F):
    """bases of functions of univariate bases are only equal to themselves"""
    return not any(f.kind == 'sub' for f in F)


def closed(key):
    """the derivatives of the functions are in the span of the bases"""
    return all(sorted(i) == list(range(len(i))) for _, i in SPEC[key])


def factors(c, key):
    return [Fac(c, s) for s in SPEC[key]]


def bases(F):
    return ts.FunctionalBases([f.obj for f in F])


def index(key, F, kind):
    """multi-indices of the functions of the basis, in order"""
    if kind == 'sparse':
        return SPARSE[key]
    I = ts.MultiIndices.bounded_by([f.n - 1 for f in F])
    I = [tuple(int(v) for v in r) for r in I.array]
    assert sorted(I) == sorted(itertools.product(*[range(f.n) for f in F]))
    return I


def basis(F, I, kind):
    if kind == 'sparse':
        return ts.SparseTensorProductFunctionalBasis(
            bases(F), ts.MultiIndices(np.array(I)))
    return ts.FullTensorProductFunctionalBasis(
        bases(F) if kind == 'full' else [f.obj for f in F])


def products(F, I, x, n=None):
    n = n or [0] * len(F)
    v = [f.val(x[:, i], n[i]) for i, f in enumerate(F)]
    return np.array([[math.prod(v[k][r, i[k]] for k in range(len(F)))
                      for i in I] for r in range(len(x))], dtype=object)


def dense(a):
    if hasattr(a, 'offsets') and list(a.offsets) == [0]:
        out = np.zeros(a.shape, dtype=object)
        np.fill_diagonal(out, np.ravel(a.data))
        return out
    return np.asarray(a.toarray() if hasattr(a, 'toarray') else a)


# --- FunctionalBases -------------------------------------------------------
def c_bases(c, key):
    F = factors(c, key)
    B = bases(F)
    d = len(F)
    x = c.real('x', (2, d), -3, 3)
    for i, y in enumerate(B.eval(np.array(x))):
        c.eq('values %d' % i, y, F[i].val(x[:, i]), tol=TOL)
    for i, y in enumerate(B.eval([np.array(x[:, [i]]) for i in range(d)])):
        c.eq('values of list %d' % i, y, F[i].val(x[:, i]), tol=TOL)
    for k in range(1, d + 1):
        for dims in itertools.permutations(range(d), k):
            if k == d and d == 3 and dims[0] != 1:
                continue
            dims = list(dims)
            got, z = B.eval(np.array(x[:, dims]), dims, 2)
            for j, i in enumerate(dims):
                c.eq('values %s %d' % (dims, i), got[j],
                     F[i].val(x[:, i]), tol=TOL)
                c.eq('points', np.ravel(z[j]), x[:, i])
            n = [j + 1 for j in range(k)]
            got = B.eval_derivative(n, np.array(x[:, dims]), dims)
            for j, i in enumerate(dims):
                c.eq('derivative %s %d' % (dims, i), got[j],
                     F[i].val(x[:, i], n[j]), tol=1e-5)
            K = B.keep_bases(dims)
            c.ok('kept %s' % dims, len(K) == k and not plain(F) or
                 K == ts.FunctionalBases([F[i].obj for i in dims]))
            c.eq('cardinals %s' % dims, B.cardinals(dims),
                 [F[i].n for i in dims])
            if k < d:
                K = B.remove_bases(dims)
                c.ok('removed %s' % dims, not plain(F) or K == ts.FunctionalBases(
                    [f.obj for i, f in enumerate(F) if i not in dims]))
            else:
                K = B.transpose(dims)
                c.ok('permuted %s' % dims, not plain(F) or K == ts.FunctionalBases(
                    [F[i].obj for i in dims]))
            for j, m in enumerate(B.mean(dims)):
                c.eq('mean %s %d' % (dims, j), m, F[dims[j]].mean(), tol=TOL)
            V = other(d)
            for what in (ts.RandomVector(V), ts.ProductMeasure(V)):
                for j, m in enumerate(B.mean(dims, what)):
                    c.eq('mean for %s %s %d' % (type(what).__name__, dims,
                                                j), m,
                         F[dims[j]].mean(V[dims[j]]), tol=1e-5)
            for j, m in enumerate(B.mean(dims, V[0])):
                c.eq('mean for one %s %d' % (dims, j), m,
                     F[dims[j]].mean(V[0]), tol=1e-5)
            if not plain(F):
                continue
            for j, G in enumerate(B.gram_matrices(dims)):
                c.eq('gram %s %d' % (dims, j), G, F[dims[j]].gram(), tol=TOL)
    c.ok('cardinal', list(B.cardinals()) == [f.n for f in F])
    c.ok('dimensions', list(B.ndim()) == [1] * d and len(B) == d)
    c.ok('equal', not plain(F) or B == bases(F))
    c.ok('not equal', d == 1 or not B == ts.FunctionalBases(
        [f.obj for f in F[1:]]))
    for i, u in enumerate(B.domain()):
        c.eq('domain %d' % i, np.ravel(u), np.ravel(F[i].obj.domain()))
    c.ok('operand', (not plain(F) or B == bases(F)) and len(B) == d)


def other(d):
    return [ts.UniformRandomVariable(0, 1), ts.NormalRandomVariable(-1, 1.5),
            ts.UniformRandomVariable(-2, 1)][:d]


def c_bases_derivative(c, key):
    F = factors(c, key)
    B = bases(F)
    x = c.real('x', (1, len(F)), -3, 3)
    for n in itertools.product((0, 1, 2), repeat=len(F)):
        D = B.derivative(n)
        for i, y in enumerate(D.eval(np.array(x))):
            c.eq('derivative %s %d' % (n, i), y, F[i].val(x[:, i], n[i]),
                 tol=1e-5)


def c_bases_kron(c, k1, k2):
    F, G = factors(c, k1), factors(c, k2)
    B, H = bases(F), bases(G)
    x = c.real('x', (1, len(F)), -3, 3)
    K = B.kron(H)
    y = K.eval(np.array(x))
    c.eq('cardinals', K.cardinals(), [f.n * g.n for f, g in zip(F, G)])
    for i in range(len(F)):
        u, v = F[i].val(x[:, i])[0], G[i].val(x[:, i])[0]
        c.eq('products %d' % i, y[i][0], np.array(
            [a * b for a in u for b in v], dtype=object), tol=1e-3)
    c.ok('operand', B == bases(F))


def c_bases_random(c, key, how):
    F = factors(c, key)
    B = bases(F)
    d = len(F)
    dims = list(range(d))
    V = None
    if how == 'own':
        y, z = B.random(2, nargout=2)
    elif how == 'other':
        V = ts.RandomVector(other(d))
        y, z = B.random(2, V, nargout=2)
    elif how == 'one':
        dims = [d - 1]
        y, z = B.random_dims(dims, 2, nargout=2)
        y = [y]
    else:
        dims = [d - 1, 0]
        V = ts.RandomVector(other(d))
        y, z = B.random_dims(dims, 2, V, nargout=2)
    for j, i in enumerate(dims):
        c.eq('values %d' % i, y[j], F[i].val(np.ravel(z[j])), tol=1e-3)
    # the points follow the laws of the right variables
    laws = [(other(d) if V else [f.X for f in F])[i] for i in dims]
    for j, X in enumerate(laws):
        if isinstance(X, ts.UniformRandomVariable):
            a, b = [float(v) for v in np.ravel(X.support())]
            for t in np.ravel(z[j]):
                c.ok('support %d' % j, a <= t and t <= b)


def c_one(c, key):
    F = factors(c, key)
    B = bases(F)
    x = c.real('x', (1, len(F)), -3, 3)
    for i, (y, u) in enumerate(zip(B.eval(np.array(x)), B.one())):
        c.eq('one %d' % i, np.matmul(y, np.ravel(u)), [1], tol=TOL)
    if len(F) > 1:
        c.eq('one of the last', np.ravel(B.one([1])[0]),
             np.ravel(B.one()[1]))


def c_duplicate(c):
    F = Fac(c, ('uni', [0, 1, 2]))
    B = ts.FunctionalBases.duplicate(F.obj, 3)
    x = c.real('x', (2, 3), -3, 3)
    for i, y in enumerate(B.eval(np.array(x))):
        c.eq('values %d' % i, y, F.val(x[:, i]), tol=TOL)
    c.ok('cardinals', list(B.cardinals()) == [3, 3, 3])


# --- tensor product bases --------------------------------------------------
def c_product(c, key, kind):
    F = factors(c, key)
    I = index(key, F, kind)
    H = basis(F, I, kind)
    d = len(F)
    x = c.real('x', (2, d), -3, 3)
    want = products(F, I, x)
    c.eq('values', H.eval(np.array(x)), want, tol=1e-5)
    c.ok('cardinal', int(H.cardinal()) == len(I) and int(H.ndim()) == d and
         len(H) == d)
    c.ok('orthonormal', bool(H.is_orthonormal) == all(
        f.orthonormal for f in F))
    c.ok('equal', not plain(F) or bool(
        H == basis(factors(c, key), I, kind)))
    if d > 1 and SPEC[key][0] != SPEC[key][-1]:
        G = list(reversed(F))
        c.ok('other', not bool(H == basis(G, [i[::-1] for i in I], kind)))
    if kind == 'sparse':
        for n in itertools.product((0, 1), repeat=d):
            w = products(F, I, x, n)
            c.eq('derivative %s' % (n,), H.eval_derivative(
                list(n), np.array(x)), w, tol=1e-4)
            if not closed(key) and any(n):
                continue
            c.eq('derived %s' % (n,), H.derivative(list(n)).eval(
                np.array(x)), w, tol=1e-4)
        J = np.stack([products(F, I, x, [int(i == k) for i in range(d)])
                      for k in range(d)], 2)
        c.eq('jacobian', H.eval_jacobian(np.array(x)), J, tol=1e-4)
        c.ok('fewer', not bool(H == basis(F, I[:-1], kind)))
        c.ok('other order', not bool(H == basis(F, I[::-1], kind)))
    c.eq('values again', H.eval(np.array(x)), want, tol=1e-5)


def c_product_mean(c, key, kind):
    F = factors(c, key)
    I = index(key, F, kind)
    H = basis(F, I, kind)
    d = len(F)
    m = [f.mean() for f in F]
    c.eq('mean', np.ravel(H.mean()), np.array(
        [math.prod(m[k][i[k]] for k in range(d)) for i in I], dtype=object),
        tol=1e-5)
    V = other(d)
    m = [f.mean(X) for f, X in zip(F, V)]
    for W in (ts.RandomVector(V), ts.ProductMeasure(V)):
        c.eq('mean for another ' + type(W).__name__, np.ravel(H.mean(W)),
             np.array([math.prod(m[k][i[k]] for k in range(d)) for i in I],
                      dtype=object), tol=1e-4)
    if any(f.kind == 'sub' for f in F):
        return
    if kind == 'sparse':
        for h1 in (False, True) if closed(key) else (False,):
            got = dense(H.gram_matrix_h1_0() if h1 else H.gram_matrix())
            want = 0
            for ders in (range(d) if h1 else [None]):
                g = [f.gram(int(k == ders)) for k, f in enumerate(F)]
                want = want + np.array(
                    [[math.prod(g[k][i[k], j[k]] for k in range(d))
                      for j in I] for i in I], dtype=object)
            c.eq('gram %s' % h1, got, want, tol=1e-5)
    else:
        for k, G in enumerate(H.gram_matrices()):
            c.eq('gram %d' % k, G, F[k].gram(), tol=1e-5)


def c_product_dims(c, key, kind):
    """keep, remove and permute the variables"""
    F = factors(c, key)
    I = index(key, F, kind)
    H = basis(F, I, kind)
    d = len(F)
    x = c.real('x', (1, d), -3, 3)
    for k in range(1, d + 1):
        for dims in itertools.permutations(range(d), k):
            dims = list(dims)
            J, G = [], [F[i] for i in dims]
            for i in I:
                t = tuple(i[j] for j in dims)
                if t not in J:
                    J.append(t)
            if kind == 'full':
                J = index(key, G, kind)
            want = products(G, J, x[:, dims])
            z = np.array(x[:, dims])
            K = H.keep_bases(dims)
            c.eq('kept %s' % dims, K.eval(z), want, tol=1e-5)
            c.ok('measure %s' % dims, K.measure == ts.ProductMeasure(
                [g.X for g in G]))
            if k == d:
                c.eq('permuted %s' % dims, H.transpose(dims).eval(z), want,
                     tol=1e-5)
            elif sorted(dims) == dims:
                gone = [i for i in range(d) if i not in dims]
                c.eq('removed %s' % gone, H.remove_bases(gone).eval(z), want,
                     tol=1e-5)
    c.ok('operand', not plain(F) or bool(H == basis(F, I, kind)))


def c_random(c, key, kind, own):
    F = factors(c, key)
    I = index(key, F, kind)
    H = basis(F, I, kind)
    y, z = H.random(2) if own else H.random(2, ts.RandomVector(
        other(len(F))))
    c.eq('values', y, products(F, I, z), tol=1e-2)


# --- expansions ------------------------------------------------------------
def expansion(c, key, kind, shape):
    F = factors(c, key)
    I = index(key, F, kind)
    a = c.real('a', (len(I),) + shape, -2, 2)
    f = ts.FunctionalBasisArray(np.array(a), basis(F, I, kind),
                                list(shape) or None)
    return F, I, a.reshape((len(I),) + (shape or (1,))), f


def lin(P, a):
    return np.tensordot(P, a, 1)


def c_expansion(c, key, kind, shape):
    F, I, a, f = expansion(c, key, kind, shape)
    d = len(F)
    x = c.real('x', (2, d), -3, 3)
    P = products(F, I, x)
    want = lin(P, a)
    c.eq('values', f.eval(np.array(x)), want, tol=1e-4)
    y = f(np.array(x))
    c.eq('call', np.reshape(y, want.shape), want, tol=1e-4)
    c.eq('coefficients', f.get_coefficients(), a)
    c.ok('storage', f.storage() == a.size)
    if kind == 'sparse':
        for k in range(d):
            n = [int(i == k) for i in range(d)]
            w = lin(products(F, I, x, n), a)
            c.eq('derivative %d' % k, f.eval_derivative(n, np.array(x)), w,
                 tol=1e-3)
            if not closed(key):
                continue
            c.eq('derived %d' % k, f.derivative(n).eval(np.array(x)), w,
                 tol=1e-3)
        J = np.stack([lin(products(F, I, x, [int(i == k) for i in range(d)]),
                          a) for k in range(d)], 1)
        c.eq('gradient', np.reshape(f.eval_gradient(np.array(x)), J.shape),
             J, tol=1e-3)
    m = [g.mean() for g in F]
    m = np.array([math.prod(m[k][i[k]] for k in range(d)) for i in I],
                 dtype=object)
    c.eq('mean', f.mean(), lin(m[None], a), tol=1e-4)
    c.eq('expectation', f.expectation(), lin(m[None], a), tol=1e-4)
    V = other(d)
    m = [g.mean(X) for g, X in zip(F, V)]
    m = np.array([math.prod(m[k][i[k]] for k in range(d)) for i in I],
                 dtype=object)
    c.eq('mean for another law', f.mean(ts.RandomVector(V)),
         lin(m[None], a), tol=1e-3)


def c_algebra(c, key, shape):
    F, I, a, f = expansion(c, key, 'sparse', shape)
    b = c.real('b', a.shape, -2, 2)
    g = ts.FunctionalBasisArray(np.array(b), f.basis, list(shape) or None)
    s = c.real('s', None, -2, 2)
    x = c.real('x', (1, len(F)), -3, 3)
    P = products(F, I, x)
    for nm, h, w in (('sum', f + g, a + b), ('difference', f - g, a - b),
                     ('opposite', -f, -a), ('multiple', f * s, a * s),
                     ('coefficientwise product', f * g, a * b)):
        c.eq(nm, h.get_coefficients(), w)
        c.eq(nm + ' values', h.eval(np.array(x)), lin(P, w), tol=1e-3)
    c.eq('dot', np.ravel(f.dot(g)), [np.sum(a * b)])
    c.eq('dot by entry', f.dot(g, 0), np.sum(a * b, 0)[None])
    n = f.norm()
    c.ok('norm', n >= 0)
    c.eq('squared norm', n * n, np.sum(a * a))
    if shape:
        m = c.real('m', (shape[-1], 2), -2, 2)
        h = f.matmul(np.array(m))
        c.eq('matmul', h.eval(np.array(x)), lin(P, np.matmul(a, m)),
             tol=1e-3)
    if len(shape) == 1 and shape[0] == 2:
        m = np.array([[2., 1.], [0.5, -1.]])
        h = f.matdiv(m)
        c.eq('matdiv', np.matmul(h.get_coefficients(), m), a, tol=1e-6)
    c.eq('operand', f.get_coefficients(), a)
    if len(shape) < 2:
        S = f.sub_functional_basis()
        c.eq('as a basis', S.eval(np.array(x)), lin(P, a), tol=1e-3)


def c_statistics(c, key, kind, shape):
    """variances and conditional expectations of expansions"""
    F, I, a, f = expansion(c, key, kind, shape)
    d = len(F)
    m = [g.mean() for g in F]
    zero = [i for i in range(len(I)) if all(
        F[k].ind[I[i][k]] == 0 for k in range(d))]
    orth = all(g.orthonormal for g in F)
    if orth:
        var = sum(a[i] ** 2 for i in range(len(I)) if i not in zero) + \
            0 * a[0]
        c.eq('variance', f.variance(), var[None], tol=1e-4)
        c.eq('second moment', f.dot_product_expectation(f),
             np.sum(a * a, 0)[None])
        s = f.std()
        c.eq('std', s * s, var[None], tol=1e-4)
        n = f.norm_expectation()
        c.eq('norm', n * n, np.sum(a * a, 0)[None])
    x = c.real('x', (1, d), -3, 3)
    for k in range(0, d + 1):
        for dims in itertools.permutations(range(d), k):
            dims = list(dims)
            rest = [i for i in range(d) if i not in dims]
            if k == 0:
                c.eq('conditional on nothing', np.ravel(
                    f.conditional_expectation([])), np.ravel(f.mean()))
                continue
            P = products([F[i] for i in dims], [tuple(i[j] for j in dims)
                                                for i in I], x[:, dims])
            w = np.array([math.prod([m[j][i[j]] for j in rest] + [1])
                          for i in I], dtype=object)
            want = lin(P * w, a)
            g = f.conditional_expectation(dims)
            order = sorted(dims) if k == d else dims
            if k == d:
                want = lin(products(F, I, x), a)
            c.eq('conditional on %s' % dims, g.eval(np.array(x[:, order])),
                 want, tol=1e-3)
            if dims == sorted(dims):
                mask = [i in dims for i in range(d)]
                h = f.conditional_expectation(mask)
                c.eq('conditional on mask %s' % dims,
                     h.eval(np.array(x[:, dims])), want, tol=1e-3)
                if orth:
                    v = f.variance_conditional_expectation([dims])
                    ref = vce(F, I, a, dims)
                    c.eq('variance conditional on %s' % dims, v, ref[None],
                         tol=1e-3)
                    v = f.variance_conditional_expectation([mask, mask])
                    c.eq('variance conditional on mask %s' % dims, v,
                         np.stack([ref, ref]), tol=1e-3)
    c.eq('operand', f.get_coefficients(), a)


def vce(F, I, a, dims):
    d = len(F)
    out, acc = 0 * a[0], {}
    for r, i in enumerate(I):
        deg = [F[k].ind[i[k]] for k in range(d)]
        if any(deg[k] for k in range(d) if k not in dims):
            continue
        key = tuple(deg[k] for k in dims)
        acc[key] = acc.get(key, 0) + a[r]
    for key, v in acc.items():
        if any(key):
            out = out + v ** 2
    return out


def c_projection(c, key, shape, kind):
    """expansions written on a larger basis"""
    F, I, a, f = expansion(c, key, 'sparse', shape)
    x = c.real('x', (1, len(F)), -3, 3)
    full = index(key, F, 'full')
    want = lin(products(F, I, x), a)
    if kind == 'sparse':
        J = [i for i in full if i not in I][:2] + I[::-1]
        g = f.projection(basis(F, J, 'sparse'))
        c.ok('indices', [tuple(map(int, r)) for r in g.basis.indices.array]
             == J)
    else:
        g = f.projection(basis(F, full, 'full'),
                         ts.MultiIndices(np.array(full)))
    c.eq('values', g.eval(np.array(x)), want, tol=1e-3)


def c_array_random(c, key, shape):
    F, I, a, f = expansion(c, key, 'sparse', shape)
    y, z = f.random(2)
    c.eq('values', y, lin(products(F, I, z), a), tol=1e-2)


# --- approximation on product bases ----------------------------------------
def c_interpolation(c, key, how, more=0):
    F = factors(c, key)
    I = index(key, F, 'full')
    H = basis(F, I, 'full')
    d = len(F)
    pts = [np.array([-1., 0.75, 2., 1.25])[:f.n + more] for f in F]
    v = c.real('v', tuple(len(p) for p in pts), -3, 3)
    x = c.real('x', (1, d), -3, 3)

    def near(r):
        k = tuple(int(np.argmin(np.abs(pts[i] - float(r[i]))))
                  for i in range(d))
        c.ok('chosen among the points', all(
            abs(pts[i][k[i]] - float(r[i])) < 1e-9 for i in range(d)))
        return v[k]

    def fun(z):
        return np.array([near(r) for r in z], dtype=v.dtype)
    if how == 'tensor':
        arg = ts.FullTensor(np.array(v))
    else:
        arg = fun
    if how == 'bases':
        u, out = H.bases.tensor_product_interpolation(arg, pts)
    else:
        u, out = H.tensor_product_interpolation(arg, pts)
    at = out['grid'].array()
    c.ok('points', len(set(map(tuple, np.round(at, 8)))) == len(I))
    c.eq('interpolates', np.ravel(u(at)), fun(at), tol=1e-5)
    if how == 'function':
        c.ok('evaluations', int(out['number_of_evaluations']) == len(I))
        # a function of the space is reproduced
        b = c.real('b', (len(I),), -2, 2)
        w, _ = H.tensor_product_interpolation(
            lambda z: np.matmul(products(F, I, z), b), pts)
        c.eq('reproduces', np.ravel(w(np.array(x))),
             np.matmul(products(F, I, x), b), tol=1e-3)


def c_tensor_projection(c, key):
    F = factors(c, key)
    I = index(key, F, 'full')
    H = basis(F, I, 'full')
    b = c.real('b', (len(I),), -2, 2)
    x = c.real('x', (1, len(F)), -3, 3)
    G = H.measure.gauss_integration_rule(4)
    fun = ts.UserDefinedFunction(
        lambda z: np.matmul(products(F, I, z), b), len(F))
    fun.evaluation_at_multiple_points = True
    u, out = H.tensor_product_projection(fun, G)
    c.eq('reproduces', np.ravel(u(np.array(x))),
         np.matmul(products(F, I, x), b), tol=1e-3)
    c.ok('evaluations', int(out['number_of_evaluations']) == 4 ** len(F))


def c_sparse_interpolation(c, key):
    F = factors(c, key)
    I = [i for i in index(key, F, 'full') if sum(i) < 2]
    H = basis(F, I, 'sparse')
    pts = [np.array([-1., 0.75, 2.])[:f.n] for f in F]
    allv = c.real('v', tuple(len(p) for p in pts), -3, 3)

    def fun(z):
        return np.array([allv[tuple(int(np.argmin(np.abs(
            pts[i] - float(r[i])))) for i in range(len(F)))] for r in z],
            dtype=allv.dtype)
    u, out = H.tensor_product_interpolation(fun, pts)
    at = out['grid'].array()
    c.eq('interpolates', np.ravel(u(at)), fun(at), tol=1e-5)
    c.ok('evaluations', int(out['number_of_evaluations']) == len(I))


def c_adaptation(c, key, p):
    F = factors(c, key)
    I = index(key, F, 'sparse')
    P = basis(F, I, 'sparse').adaptation_path(p)
    n = [max(i) if p == np.inf else sum(k ** p for k in i) ** (1 / p)
         for i in I]
    lev = sorted(set(n))
    c.ok('shape', P.shape == (len(I), len(lev)))
    for k, u in enumerate(lev):
        c.eq('level %d' % k, P[:, k], [t <= u for t in n])


def cases(tier):
    quick = tier == 'quick'
    out = []
    add = adder(out, time=60 if quick else 300, snap=100)
    for k in SPEC:
        add(c_bases, k, key=k)
        if closed(k) and (len(SPEC[k]) < 3 or not quick):
            add(c_bases_derivative, k, key=k)
        for kind in ('sparse', 'full', 'list'):
            add(c_product, '%s %s' % (k, kind), key=k, kind=kind)
            add(c_product_mean, '%s %s' % (k, kind), key=k, kind=kind)
            if kind != 'list':
                add(c_product_dims, '%s %s' % (k, kind), key=k, kind=kind)
                for s in ((), (2,), (2, 2)) + (() if quick else ((3, 1),)):
                    add(c_expansion, '%s %s %s' % (k, kind, s), key=k,
                        kind=kind, shape=s)
                    if k != 's':
                        add(c_statistics, '%s %s %s' % (k, kind, s), key=k,
                            kind=kind, shape=s)
        for s in ((), (2,), (2, 2)):
            add(c_algebra, '%s %s' % (k, s), key=k, shape=s)
            for kind in ('sparse', 'full'):
                add(c_projection, '%s %s %s' % (k, s, kind), key=k, shape=s,
                    kind=kind)
        for how in ('function', 'tensor', 'bases'):
            if not any(f[0] == 'sub' for f in SPEC[k]):
                for m in (0, 1) if len(SPEC[k]) < 3 else (0,):
                    add(c_interpolation, '%s %s %d' % (k, how, m), key=k,
                        how=how, more=m)
        if not any(f[0] == 'sub' for f in SPEC[k]):
            add(c_tensor_projection, k, key=k)
            if all(sorted(i) == list(i) for _, i in SPEC[k]):
                add(c_sparse_interpolation, k, key=k)
        for p in (1, 2, np.inf):
            add(c_adaptation, '%s %s' % (k, p), key=k, p=p)
    for k in ('uu', 'un', 'nuc'):
        for how in ('own', 'other', 'one', 'two'):
            add(c_bases_random, '%s %s' % (k, how), key=k, how=how)
        for kind in ('sparse', 'full'):
            for own in (True, False):
                add(c_random, '%s %s %s' % (k, kind, own), key=k, kind=kind,
                    own=own)
        for s in ((), (2,)):
            add(c_array_random, '%s %s' % (k, s), key=k, shape=s)
    for k in ('uu', 'un', 'nuc', 'unu', 'u'):
        add(c_one, k, key=k)
    add(c_bases_kron, 'uu uu', k1='uu', k2='uu')
    add(c_bases_kron, 'un uu', k1='un', k2='un')
    add(c_bases_kron, 'nuc nuc', k1='nuc', k2='nuc')
    add(c_duplicate, '3')
    return out
