"""P13 - bases of functions of one variable."""
import math
from fractions import Fraction as Fr
import numpy as np
import tensap as ts
from .common import adder
from .p12 import reference, moment_of, horner, deriv, table, measure, \
    sym_moments

BOUNDS = ('all points, coefficients, values and weights; 1-5 functions, '
          '1-4 points, knots and breakpoints free or on uneven lists, '
          'derivatives of order 1-3')
OUTSIDE = ('rounding (tolerance 1e-6), repeated knots, magic points (P19), '
           'plots')
TOL = 1e-6


def poly(c, kind, ind):
    """(basis, coefficients of the reference, change of variable)"""
    if kind == 'canonical':
        X = ts.UniformRandomVariable(-1, 2)
        R = np.eye(9)
        return (ts.PolynomialFunctionalBasis(ts.CanonicalPolynomials(X), ind),
                R, 0, 1)
    if kind == 'hermite':
        return (ts.PolynomialFunctionalBasis(ts.HermitePolynomials(), ind),
                reference(moment_of('hermite', None), 7), 0, 1)
    if kind == 'uniform':
        X = ts.UniformRandomVariable(-1, 2)
        return (ts.PolynomialFunctionalBasis(X.orthonormal_polynomials(),
                                             ind),
                reference(moment_of('legendre', None), 7), 0.5, 1.5)
    if kind == 'lebesgue':
        return (ts.PolynomialFunctionalBasis(
            ts.LegendrePolynomialsLebesgue(), ind),
            reference(moment_of('lebesgue', None), 7), 0, 1)
    lo, hi = c.real('lo', None, -3, 3), c.real('hi', None, -3, 3)
    c.assume(hi - lo > 0.5)
    c.assume(lo < -1.25)
    X = ts.UniformRandomVariable(lo, hi)
    return (ts.PolynomialFunctionalBasis(X.orthonormal_polynomials(), ind),
            reference(moment_of('legendre', None), 7), (lo + hi) / 2,
            (hi - lo) / 2)


def values(b, x, n=0):
    H, R, s, t = b
    return table(R, [int(i) for i in H.indices], (x - s) / t, n) / t ** n


def c_poly(c, kind, ind):
    b = poly(c, kind, ind)
    H = b[0]
    x = c.real('x', (2,), -4, 4)
    c.eq('values', H.eval(np.array(x)), values(b, x), tol=TOL)
    for k in (1, 2, 3):
        c.eq('derivative %d' % k, H.eval_derivative(k, np.array(x)),
             values(b, x, k), tol=1e-5 * 10 ** k)
    J = H.eval_jacobian(np.array(x))
    c.eq('jacobian', J, values(b, x, 1)[:, :, None], tol=1e-4)
    c.ok('cardinal', H.cardinal() == len(ind) and H.ndim() == 1)
    c.ok('orthonormal', H.is_orthonormal == (kind != 'canonical'))
    if 0 in ind:
        c.eq('one', np.matmul(H.eval(np.array(x)), H.one()), np.ones(2),
             tol=TOL)
    else:
        try:
            H.one()
            c.ok('one rejected', False)
        except ValueError:
            pass
    G = poly(c, kind, ind)[0]
    c.ok('equal', bool(H == G))
    c.ok('other indices',
         not bool(H == poly(c, kind, [i + 1 for i in ind])[0]))
    c.ok('other type', not bool(H == ts.FunctionalBasis()))
    c.ok('other family', not bool(H == ts.PolynomialFunctionalBasis(
        ts.HermitePolynomials() if kind != 'hermite' else
        ts.LegendrePolynomials(), ind)))
    P = H.adaptation_path()
    n = len(ind)
    c.ok('nested path', np.array_equal(P, [[j >= i for j in range(n)]
                                           for i in range(n)]))
    c.ok('storage', H.storage() == 0)


def c_derived(c, kind, m, k, other):
    """the derivatives as combinations of the functions of the basis"""
    b = poly(c, kind, range(m + 1))
    x = c.real('x', (2,), -3, 3)
    if other:
        D = b[0].derivative(k, ts.UniformRandomVariable(0, 1))
    else:
        D = b[0].derivative(k)
    c.eq('values', D.eval(np.array(x)), values(b, x, k), tol=1e-4)
    if k == 1:
        c.eq('gradient', b[0].gradient().eval(np.array(x)), values(b, x, 1),
             tol=1e-4)
    if k == 2:
        c.eq('hessian', b[0].hessian(b[0].measure).eval(np.array(x)),
             values(b, x, 2), tol=1e-4)


def c_kron(c, kind, ind, jnd):
    b, d = poly(c, kind, ind), poly(c, kind, jnd)
    x = c.real('x', (2,), -3, 3)
    K = b[0].kron(d[0])
    u, v = values(b, x), values(d, x)
    want = [[u[k, i] * v[k, j] for i in range(len(ind))
             for j in range(len(jnd))] for k in range(2)]
    c.ok('cardinal', K.cardinal() == len(ind) * len(jnd))
    c.eq('products', K.eval(np.array(x)), np.array(want, dtype=object),
         tol=1e-3)


def c_gram(c, kind, ind, other):
    b = poly(c, kind, ind)
    H, R = b[0], b[1]
    n = len(ind)
    if other is None:
        got = H.gram_matrix()
        if kind == 'canonical':
            mom = [float(sum(Fr(-1) ** i * Fr(2) ** (k - i)
                             for i in range(k + 1)) / (k + 1))
                   for k in range(2 * max(ind) + 1)]
            want = np.array([[mom[i + j] for j in ind] for i in ind])
        else:
            want = np.array([[float(i == j) for j in ind] for i in ind])
        c.eq('own', got, want, tol=TOL)
        return
    Y, mom, tot = measure(c, other)
    want = sym_moments(mom, R, [[i, j] for i in ind for j in ind])
    c.eq('other', H.gram_matrix(Y), want.reshape(n, n), tol=1e-4)
    c.eq('means', H.mean(Y), sym_moments(mom, R, [[i] for i in ind]) *
         (1 / tot), tol=1e-4)


def c_mean(c, kind, ind):
    H, R, s, t = poly(c, kind, ind)
    if kind == 'canonical':
        want = [float(sum(Fr(-1) ** i * Fr(2) ** (k - i)
                          for i in range(k + 1)) / (k + 1)) for k in ind]
    else:
        want = [float(i == 0) / (math.sqrt(2) if kind == 'lebesgue' else 1)
                for i in ind]
    c.eq('mean', H.mean(), np.array(want), tol=TOL)
    c.eq('expectation', H.expectation(), np.array(want), tol=TOL)


def c_random(c, kind, n, other):
    b = poly(c, kind, [2, 0, 1])
    if other:
        lo, hi = c.real('olo', None, -3, 3), c.real('ohi', None, -3, 3)
        c.assume(hi - lo > 0.5)
        y, x = b[0].random(n, ts.UniformRandomVariable(lo, hi))
        c.eq('draws', x, c.real('rand1', (n,)) * (hi - lo) + lo)
    else:
        y, x = b[0].random(n)
        if kind == 'uniform':
            c.eq('draws', x, c.real('rand1', (n,)) * 3 - 1)
        elif kind == 'hermite':
            c.eq('draws', x, c.real('randn1', (n,)))
    c.eq('values', y, values(b, x), tol=1e-4)


# --- approximation ---------------------------------------------------------
def basis(c, kind):
    if kind == 'user':
        return ts.UserDefinedFunctionalBasis(
            [lambda x: 1 + 0 * x, lambda x: x, lambda x: x ** 2 - 0.5],
            ts.UniformRandomVariable(-1, 1))
    if kind == 'sub':
        B = np.array([[1., 0.5], [0.25, -1.], [2., 1.]])
        return ts.SubFunctionalBasis(poly(c, 'uniform', [0, 1, 2])[0], B)
    if kind == 'splines':
        return ts.BSplinesFunctionalBasis.with_extra_knots(
            np.array([0., 1., 1.5, 2.5]), 1)
    if kind == 'piecewise':
        return ts.PiecewisePolynomialFunctionalBasis(
            np.array([0., 1., 1.5]), [1, 0])
    return poly(c, kind, [0, 1, 2])[0]


POINTS = np.array([0.25, 0.75, 1.125, 1.25, 2.25])
WEIGHTS = np.array([0.5, 0.25, 1., 0.125, 0.75])


def c_interpolate(c, kind, out, how):
    H = basis(c, kind)
    n = H.cardinal()
    x = {'splines': np.array([0.25, 0.75, 1.25, 2.]),
         'piecewise': np.array([0.25, 0.75, 1.25])}.get(kind, POINTS)[:n]
    y = c.real('y', (n, out) if out else (n,), -3, 3)
    arg = np.array(y) if how == 'values' else lambda t: np.array(y)
    f = H.interpolate(arg, np.array(x))
    y2 = y.reshape(n, -1)
    c.eq('interpolates', f.eval(np.array(x)).reshape(n, -1), y2, tol=TOL)
    c.eq('coefficients', np.matmul(H.eval(x), f.data.reshape(n, -1)), y2,
         tol=TOL)
    c.ok('shape', f.data.shape == (n, max(out, 1)))


def c_interpolate_free(c, kind, n):
    """at free points"""
    if kind == 'canonical':
        H = ts.PolynomialFunctionalBasis(
            ts.CanonicalPolynomials(ts.UniformRandomVariable(-1, 1)),
            range(n))
    else:
        H = poly(c, kind, range(n))[0]
    x = c.real('x', (n,), -3, 3)
    for i in range(n):
        for j in range(i):
            c.assume(abs(x[i] - x[j]) > 0.25)
    y = c.real('y', (n,), -3, 3)
    f = H.interpolate(np.array(y), np.array(x))
    if kind == 'canonical':
        c.eq('interpolates', f.eval(np.array(x))[:, 0], y)
    else:
        c.eq('interpolates', f.eval(np.array(x))[:, 0], y, tol=1e-2)


def c_project(c, kind, out, method):
    """projection with a given rule"""
    H = basis(c, kind)
    n = len(POINTS)
    G = ts.IntegrationRule(np.array(POINTS), np.array(WEIGHTS))
    if kind == 'splines':
        G = ts.IntegrationRule(np.array(POINTS[:5]), np.array(WEIGHTS))
    y = c.real('y', (n, out) if out else (n,), -3, 3)
    fun = lambda t: np.array(y)
    A = H.eval(G.points)
    f = getattr(H, method)(fun, G)
    u = f.data.reshape(H.cardinal(), -1)
    y2 = y.reshape(n, -1)
    if method == 'quasi_projection' or (method == 'projection' and
                                        H.is_orthonormal):
        c.eq('inner products', u,
             np.matmul(A.T, WEIGHTS[:, None] * y2), tol=TOL)
    else:
        # normal equations of the weighted least squares problem
        r = np.matmul(A, u) - y2
        c.eq('orthogonal residual', np.matmul(A.T, WEIGHTS[:, None] * r),
             np.zeros(u.shape), tol=TOL)
    c.ok('shape', f.data.shape == (H.cardinal(), max(out, 1)))


def c_project_weights(c, kind):
    """quasi-projection with free weights"""
    H = basis(c, kind)
    w = c.real('w', (3,), 0.0625, 1)
    y = c.real('y', (3,), -3, 3)
    x = POINTS[:3]
    G = ts.IntegrationRule(np.array(x), np.array(w))
    A = H.eval(x)
    f = H.quasi_projection(lambda t: np.array(y), G)
    c.eq('inner products', f.data[:, 0], np.matmul(A.T, w * y), tol=TOL)
    c.eq('gram matrix', ts.FunctionalBasis.gram_matrix(H, G),
         np.matmul(A.T, w[:, None] * A), tol=TOL)


def c_reproduce(c, kind):
    """projections and interpolation reproduce the functions of the space"""
    H = basis(c, kind)
    n = H.cardinal()
    a = c.real('a', (n,), -3, 3)
    f = lambda t: np.matmul(H.eval(t), a)
    if kind in ('uniform', 'canonical', 'hermite', 'lebesgue'):
        G = H.measure.gauss_integration_rule(3)
    else:
        G = ts.IntegrationRule(np.array(POINTS), np.array(WEIGHTS))
    if kind != 'piecewise':
        c.eq('projection', H.projection(f, G).data[:, 0], a, tol=TOL)
        c.eq('least squares', H.least_squares_projection(f, G).data[:, 0], a,
             tol=TOL)
    if kind != 'splines':
        x = {'piecewise': np.array([0.25, 0.75, 1.25])}.get(
            kind, POINTS)[:n]
        c.eq('interpolation', H.interpolate(f, x).data[:, 0], a, tol=TOL)


def c_orthonormalize(c, kind):
    if kind == 'canonical':
        H = poly(c, 'canonical', [0, 1, 2])[0]
        Q = H.orthonormalize()
        G = H.measure.gauss_integration_rule(4)
        A = Q.eval(G.points)
        c.eq('orthonormal', np.matmul(A.T, G.weights[:, None] * A),
             np.eye(3), tol=TOL)
        x = c.real('x', (1,), -2, 2)
        # same span, degree by degree: the orthonormal polynomials
        w = values(poly(c, 'uniform', [0, 1, 2]), x)
        c.eq('polynomials', Q.eval(np.array(x)), w, tol=1e-5)
        c.ok('flag', Q.is_orthonormal is True)
        return
    H = poly(c, 'uniform', [0, 1, 2])[0]
    if kind == 'same':
        Q = H.orthonormalize()
        x = c.real('x', (1,), -2, 2)
        c.eq('unchanged', Q.eval(np.array(x)), H.eval(np.array(x)))
        return
    # sub basis with free coefficients
    t = c.real('t', (2,), 0.25, 2)
    u = c.real('u', (), -2, 2)
    # columns t0 (3, 4) and t1 (-4, 3) + u (3, 4)
    B = np.array([[3 * t[0], 3 * u - 4 * t[1]],
                  [4 * t[0], 4 * u + 3 * t[1]]])
    U = poly(c, 'uniform', [0, 1])[0]
    S = ts.SubFunctionalBasis(U, np.array(B))
    Q = S.orthonormalize()
    N = Q.basis
    c.eq('first', 4 * N[0, 0], 3 * N[1, 0])
    c.eq('second', 3 * N[0, 1], -4 * N[1, 1])
    c.eq('orthonormal', np.matmul(N.T, N), np.eye(2))
    c.ok('signs', N[0, 0] >= 0 and N[1, 1] >= 0)
    c.eq('operand', S.basis, B)


# --- sub bases -------------------------------------------------------------
def c_sub(c, kind, m):
    b = poly(c, kind, [0, 2, 1])
    B = c.real('B', (3, m), -3, 3)
    S = ts.SubFunctionalBasis(b[0], np.array(B))
    x = c.real('x', (2,), -3, 3)
    for k in (0, 1, 2):
        want = np.matmul(values(b, x, k), B)
        got = S.eval(np.array(x)) if k == 0 else \
            S.eval_derivative(k, np.array(x))
        c.eq('derivative %d' % k, got, want, tol=1e-4)
    if m > 1:
        c.eq('selected', S.eval(np.array(x), [m - 1]),
             np.matmul(values(b, x), B[:, [m - 1]]), tol=1e-4)
    D = ts.SubFunctionalBasis(poly(c, kind, [0, 1, 2])[0],
                              np.array(B)).derivative(1)
    b2 = poly(c, kind, [0, 1, 2])
    c.eq('derived', D.eval(np.array(x)), np.matmul(values(b2, x, 1), B),
         tol=1e-4)
    c.eq('jacobian', S.eval_jacobian(np.array(x))[:, :, 0],
         np.matmul(values(b, x, 1), B), tol=1e-4)
    c.eq('mean', S.mean(), np.matmul(b[0].mean(), B), tol=1e-5)
    Y = ts.UniformRandomVariable(0, 1)
    c.eq('mean for a measure', S.mean(Y), np.matmul(b[0].mean(Y), B),
         tol=1e-5)
    G = b[0].gram_matrix()
    c.eq('gram', S.gram_matrix(), np.matmul(B.T, np.matmul(G, B)), tol=1e-5)
    c.ok('sizes', S.cardinal() == m and S.ndim() == 1 and
         S.storage() == 3 * m)
    c.ok('domain', np.array_equal(np.ravel(S.domain()),
                                  np.ravel(b[0].domain())))
    y, x = S.random(2)
    c.eq('random', y, np.matmul(values(b, x), B), tol=1e-3)


def c_sub_nested(c):
    """sub basis of a sub basis"""
    b = poly(c, 'uniform', [0, 1, 2])
    B, C = c.real('B', (3, 2), -2, 2), c.real('C', (2, 2), -2, 2)
    S = ts.SubFunctionalBasis(ts.SubFunctionalBasis(b[0], np.array(B)),
                              np.array(C))
    x = c.real('x', (1,), -3, 3)
    c.eq('values', S.eval(np.array(x)),
         np.matmul(values(b, x), np.matmul(B, C)), tol=1e-4)
    c.eq('mean', S.mean(), np.matmul(B, C)[0], tol=1e-5)


# --- delta -----------------------------------------------------------------
def c_delta(c, n, d, given):
    v = c.real('v', (n, d), -3, 3)
    for i in range(n):
        for j in range(i):
            c.assume(abs(v[i, 0] - v[j, 0]) > 0.25)
    if given:
        m = ts.DiscreteMeasure(np.array(v))
        H = ts.DeltaFunctionalBasis(np.array(v), m)
    elif d == 1:
        H = ts.DeltaFunctionalBasis(np.array(v[:, 0]))
    else:
        H = ts.DeltaFunctionalBasis(np.array(v))
    c.ok('sizes', H.cardinal() == n and H.ndim() == d)
    c.eq('at the values', H.eval(np.array(v)), np.eye(n))
    x = c.real('x', (1, d), -3, 3)
    got = H.eval(np.array(x))
    for i in range(n):
        eq = all(bool(x[0, k] == v[i, k]) for k in range(d))
        c.eq('indicator %d' % i, got[0, i], float(eq))
    y = c.real('y', (n,), -3, 3)
    f = H.interpolate(np.array(y), np.array(v))
    c.eq('interpolation', f.data[:, 0], y)


# --- splines ---------------------------------------------------------------
def spline_ref(t, i, m, x, nu=0):
    """divided difference of the truncated power (knots t)"""
    z = t[i:i + m + 2]

    def g(k):
        # (z_k - x)_+^m and its derivatives in x
        if not z[k] > x if not isinstance(z[k] > x, bool) else not z[k] > x:
            return 0
        f = math.factorial(m) // math.factorial(m - nu)
        return (-1) ** nu * f * (z[k] - x) ** (m - nu)
    s = 0
    for k in range(m + 2):
        p = 1
        for j in range(m + 2):
            if j != k:
                p = p * (z[k] - z[j])
        s = s + g(k) * (1 / p)
    return (z[m + 1] - z[0]) * s


KNOTS = {'even': [0., 1., 2., 3., 4., 5., 6.],
         'uneven': [-1., -0.5, 0.5, 2., 2.5, 4., 5.]}


def c_splines(c, knots, m):
    t = np.array(KNOTS[knots])
    H = ts.BSplinesFunctionalBasis(np.array(t), m)
    n = len(t) - 1 - m
    x = c.real('x', (1,), -2, 7)
    for u in t:
        c.assume(x[0] != u)
    c.ok('cardinal', H.cardinal() == n and H.ndim() == 1)
    z = [Fr(float(u)) for u in t]
    got = H.eval(np.array(x))
    want = np.array([[spline_ref(z, i, m, x[0]) for i in range(n)]],
                    dtype=object)
    c.eq('values', got, want, tol=1e-6)
    for k in range(1, m + 1):
        w = np.array([[spline_ref(z, i, m, x[0], k) for i in range(n)]],
                     dtype=object)
        c.eq('derivative %d' % k, H.eval_derivative(k, np.array(x)), w,
             tol=1e-5)
    c.eq('domain', np.ravel(H.measure.support()), t[[0, -1]])


def c_splines_free(c, m, n):
    """free knots"""
    t = c.real('t', (n,), -4, 4)
    for i in range(n - 1):
        c.assume(t[i + 1] - t[i] > 0.25)
    H = ts.BSplinesFunctionalBasis(np.array(t), m)
    x = c.real('x', (1,), -4, 4)
    for u in t:
        c.assume(x[0] != u)
    got = H.eval(np.array(x))
    want = np.array([[spline_ref(t, i, m, x[0])
                      for i in range(n - 1 - m)]], dtype=object)
    c.eq('values', got, want)
    c.ok('cardinal', H.cardinal() == n - 1 - m)
    c.eq('domain', np.ravel(H.measure.support()), t[[0, -1]])


def c_splines_at_knots(c, m):
    """continuous on the right of the first knot and partition of unity"""
    t = np.array(KNOTS['uneven'])
    H = ts.BSplinesFunctionalBasis(np.array(t), m)
    z = [Fr(float(u)) for u in t]
    if m > 0:
        want = [[float(spline_ref(z, i, m, u)) for i in
                 range(len(t) - 1 - m)] for u in z]
        c.eq('values at knots', H.eval(t), np.array(want))
    # left continuous piecewise constants
    if m == 0:
        c.eq('values at knots', H.eval(t[1:]), np.eye(len(t) - 1))
        c.eq('left end', H.eval(t[:1]), np.zeros((1, len(t) - 1)))


def c_splines_extra(c, m, n):
    t = c.real('t', (n,), -2, 2)
    for i in range(n - 1):
        c.assume(t[i + 1] - t[i] > 0.25)
    H = ts.BSplinesFunctionalBasis.with_extra_knots(np.array(t), m)
    c.ok('cardinal', H.cardinal() == n - 1 + m)
    c.eq('measure', np.ravel(H.measure.support()), t[[0, -1]])
    k = H.knots
    c.eq('knots', k[m:m + n], t)
    for i in range(m):
        c.eq('left %d' % i, k[m - 1 - i] - k[m - i], t[0] - t[1])
        c.eq('right %d' % i, k[m + n + i] - k[m + n + i - 1],
             t[-1] - t[-2])


def c_splines_unity(c, m):
    t = np.array([0., 1., 1.5, 2.5])
    H = ts.BSplinesFunctionalBasis.with_extra_knots(t, m)
    x = c.real('x', (1,), 0, 2.5)
    c.assume(x[0] > 0)
    for u in t:
        c.assume(x[0] != u)
    y = H.eval(np.array(x))
    c.eq('partition of unity', sum(y[0]), 1, tol=1e-6)
    for i in range(y.shape[1]):
        c.ok('nonnegative %d' % i, y[0, i] >= -1e-9)
    C = ts.BSplinesFunctionalBasis.cardinal_bspline(m)
    c.ok('cardinal spline', C.cardinal() == 1 and
         np.array_equal(C.knots, np.arange(m + 2)))


def c_dilated(c, m, b, level):
    H = ts.DilatedBSplinesFunctionalBasis.with_level_bounded_by(m, b, level)
    ind = [(l, j) for l in range(level + 1) for j in range(-m, b ** l)]
    c.ok('indices', H.cardinal() == len(ind) and H.ndim() == 1 and
         list(zip(*[list(map(int, u)) for u in H.indices])) == ind)
    x = c.real('x', (1,), -0.5, 1.5)
    for l, j in ind:
        for u in range(m + 2):
            c.assume(x[0] * b ** l != j + u)
    got = H.eval(np.array(x))
    z = [Fr(i) for i in range(m + 2)]
    for i, (l, j) in enumerate(ind):
        s = math.sqrt(b ** l)
        c.eq('value %d %d' % (l, j), got[0, i],
             spline_ref(z, 0, m, x[0] * b ** l - j) * s, tol=1e-6)
    for k in range(1, m + 1):
        got = H.eval_derivative(k, np.array(x))
        for i, (l, j) in enumerate(ind):
            s = math.sqrt(b ** l) * b ** (l * k)
            c.eq('derivative %d, %d %d' % (k, l, j), got[0, i],
                 spline_ref(z, 0, m, x[0] * b ** l - j, k) * s, tol=1e-4)
    B = ts.DilatedBSplines(m, b)
    L = B.indices_with_level(level)
    c.ok('one level', list(zip(map(int, L[0]), map(int, L[1]))) ==
         [u for u in ind if u[0] == level])


# --- piecewise polynomials -------------------------------------------------
def c_piecewise(c, p, free):
    n = len(p)
    if free:
        t = c.real('t', (n + 1,), -3, 3)
        for i in range(n):
            c.assume(t[i + 1] - t[i] > 0.25)
    else:
        t = np.array([0, 1, 3, 4][:n + 1])
    H = ts.PiecewisePolynomialFunctionalBasis(
        np.array(t), p[0] if len(set(p)) == 1 else p)
    x = c.real('x', (1,), -3, 4)
    c.assume(x[0] >= t[0])
    c.assume(x[0] <= t[n])
    e = n - 1
    for i in range(n - 1):
        if bool(x[0] < t[i + 1]):
            e = i
            break
    R = reference(moment_of('legendre', None), max(p) + 1)
    N = sum(q + 1 for q in p)
    c.ok('sizes', H.cardinal() == N and H.ndim() == 1 and
         bool(H.is_orthonormal))
    h = t[e + 1] - t[e]
    z = 2 * ((x[0] - t[e]) / h) - 1
    pos = sum(q + 1 for q in p[:e])
    for k in (0, 1, 2):
        w = [0] * N
        for j in range(p[e] + 1):
            w[pos + j] = horner(deriv(list(R[j]), k), z) * 2 ** k / h ** k \
                / np.sqrt(h)
        got = H.eval(np.array(x)) if k == 0 else \
            H.eval_derivative(k, np.array(x))
        c.eq('derivative %d' % k, got, np.array([w], dtype=object),
             tol=1e-4)
    if N > 1:
        c.eq('selected', H.eval(np.array(x), [N - 1, 0]),
             H.eval(np.array(x))[:, [N - 1, 0]])
    m = H.mean()
    w = np.zeros(N).astype(object)
    for i in range(n):
        w[sum(q + 1 for q in p[:i])] = np.sqrt(t[i + 1] - t[i])
    c.eq('integrals', m, w)
    c.eq('measure', np.ravel(H.measure.support()), np.array([t[0], t[n]]))


def c_piecewise_points(c, p):
    n = len(p)
    t = c.real('t', (n + 1,), -3, 3)
    for i in range(n):
        c.assume(t[i + 1] - t[i] > 0.25)
    H = ts.PiecewisePolynomialFunctionalBasis(np.array(t), p)
    x = H.interpolation_points()
    pos = 0
    for i, q in enumerate(p):
        for j in range(q + 1):
            c.ok('inside %d %d' % (i, j), x[pos + j] > t[i])
            c.ok('inside %d %d ' % (i, j), x[pos + j] < t[i + 1])
            z = 2 * (x[pos + j] - t[i]) - (t[i + 1] - t[i])
            # zeros of the Chebyshev polynomial of the element
            want = math.cos(math.pi * (2 * j + 1) / (2 * q + 2))
            c.eq('point %d %d' % (i, j), z, (t[i + 1] - t[i]) * want,
                 tol=1e-8)
        pos += q + 1
    c.ok('number', x.shape == (pos,))


def c_piecewise_make(c, kind):
    a = c.real('a', None, -2, 2)
    b = c.real('b', None, -2, 2)
    c.assume(b - a > 0.5)
    P = ts.PiecewisePolynomialFunctionalBasis
    if kind == 'np':
        H = P.np(a, b, 3, 2)
        c.eq('points', H.points, np.array([a + (b - a) * k / 3
                                           for k in range(4)]), tol=1e-8)
        c.ok('degrees', np.array_equal(H.p, [2, 2, 2]))
    elif kind == 'hp':
        for h, n in ((0.25, 4), (0.3, 4), (1, 1), (2, 1)):
            H = P.hp(1, 2, h, 3)
            c.eq('points', H.points, 1 + np.arange(n + 1) / n)
            c.ok('degrees', np.array_equal(H.p, [3] * n))
    else:
        for s in ([0], [1], [0, 1], [0.5], [0, 0.5], [0.25, 0.75]):
            h = 0.1
            H = P.singularityhp_adapted(0, 1, s, h)
            t = H.points
            c.ok('increasing', bool(np.all(np.diff(t) > 0)) and
                 t[0] == 0 and t[-1] == 1 and len(H.p) == len(t) - 1)
            for v in s:
                c.ok('singularity %s is a node' % v, v in t)
            for i in range(len(t) - 1):
                if t[i] in s or t[i + 1] in s:
                    c.ok('small element at the singularity',
                         t[i + 1] - t[i] <= h)
                    c.ok('degree 0 at the singularity', H.p[i] == 0)


# --- user defined ----------------------------------------------------------
def c_user(c, n):
    x = c.real('x', (n,), -3, 3)
    fs = [lambda t: 2 * t + 1, lambda t: t ** 3, lambda t: abs(t)]
    X = ts.UniformRandomVariable(-1, 1)
    H = ts.UserDefinedFunctionalBasis(fs, X)
    want = np.array([[f(t) for f in fs] for t in x], dtype=object)
    c.eq('values', H.eval(np.array(x)), want)
    c.ok('sizes', H.cardinal() == 3 and H.ndim() == 1)
    c.ok('dimension', ts.UserDefinedFunctionalBasis(
        fs, input_dim=4).ndim() == 4)
    c.eq('domain', np.ravel(H.domain()), np.array([-1, 1]))
    y, z = H.random(2)
    c.eq('random', y, np.array([[f(t) for f in fs] for t in z],
                               dtype=object))
    z = c.real('z', (n, 2), -3, 3)
    H = ts.UserDefinedFunctionalBasis(
        [lambda t: t[:, 0] * t[:, 1], lambda t: t[:, 0] - t[:, 1]],
        input_dim=2)
    c.eq('several variables', H.eval(np.array(z)), np.stack(
        [z[:, 0] * z[:, 1], z[:, 0] - z[:, 1]], 1))


def cases(tier):
    quick = tier == 'quick'
    out = []
    add = adder(out, time=60 if quick else 300, snap=100)
    kinds = ['canonical', 'hermite', 'uniform', 'lebesgue']
    for k in kinds + ['free']:
        for nm, ind in (('full', [0, 1, 2, 3]), ('perm', [2, 0, 3]),
                        ('no constant', [1, 4]), ('single', [0])):
            add(c_poly, '%s %s' % (k, nm), kind=k, ind=ind)
    for k in kinds:
        for m in (1, 2, 3):
            for d in (1, 2, 3):
                for o in (False, True):
                    add(c_derived, '%s %d %d%s' % (k, m, d, ' other'
                                                   if o else ''),
                        kind=k, m=m, k=d, other=o)
        add(c_derived, k + ' constant', kind=k, m=0, k=1, other=False)
        for ind, jnd in (([0, 1], [0, 1, 2]), ([2, 0], [1, 0]), ([0], [0]),
                         ([1], [2])):
            add(c_kron, '%s %s %s' % (k, ind, jnd), kind=k, ind=ind,
                jnd=jnd)
        for ind in ([0, 1, 2], [3, 0, 1]):
            add(c_gram, '%s %s' % (k, ind), kind=k, ind=ind, other=None)
            add(c_mean, '%s %s' % (k, ind), kind=k, ind=ind)
            if k != 'uniform':
                for o in ('uniform', 'normal', 'lebesgue', 'finite'):
                    add(c_gram, '%s %s %s' % (k, ind, o), kind=k, ind=ind,
                        other=o)
        if k != 'lebesgue':
            add(c_random, k, kind=k, n=2, other=False)
        add(c_random, k + ' other', kind=k, n=2, other=True)
        for m in (1, 2):
            if k not in ('lebesgue',):
                add(c_sub, '%s %d' % (k, m), kind=k, m=m)
    add(c_sub_nested, 'uniform')
    for k in kinds + ['user', 'sub', 'splines', 'piecewise']:
        for o in (0, 1, 2):
            add(c_interpolate, '%s %d values' % (k, o), kind=k, out=o,
                how='values')
        add(c_interpolate, k + ' function', kind=k, out=0, how='function')
        for method in ('projection', 'quasi_projection',
                       'least_squares_projection'):
            if method != 'quasi_projection' and k == 'piecewise':
                continue
            for o in (0, 2):
                add(c_project, '%s %d %s' % (k, o, method), kind=k, out=o,
                    method=method)
        add(c_project_weights, k, kind=k)
        add(c_reproduce, k, kind=k)
    for k in ('canonical', 'same', 'sub'):
        adder(out, time=60, snap=100, sqrt_def=True)(
            c_orthonormalize, k, kind=k)
    for n in (1, 2) if quick else (1, 2, 3):
        for k in ('canonical', 'uniform'):
            if n < 3 or k == 'canonical':
                add(c_interpolate_free, '%s %d' % (k, n), kind=k, n=n)
    for n, d, g in ((2, 1, False), (3, 1, True), (2, 2, False),
                    (2, 2, True)):
        add(c_delta, '%d %d%s' % (n, d, ' given' if g else ''), n=n, d=d,
            given=g)
    for m in range(4):
        for k in KNOTS:
            add(c_splines, '%s %d' % (k, m), knots=k, m=m)
        add(c_splines_at_knots, '%d' % m, m=m)
        add(c_splines_extra, '%d' % m, m=m, n=3)
        add(c_splines_unity, '%d' % m, m=m)
    for m, n in ((0, 4), (1, 4), (2, 5)) if quick else (
            (0, 5), (1, 5), (2, 6), (3, 6)):
        add(c_splines_free, '%d %d' % (m, n), m=m, n=n)
    for m, b, l in ((0, 2, 1), (1, 2, 1), (2, 2, 1), (1, 3, 1)) + (
            () if quick else ((3, 2, 2), (2, 3, 2))):
        add(c_dilated, '%d %d %d' % (m, b, l), m=m, b=b, level=l)
    for p in ([1, 2], [0, 3, 1], [2, 2]):
        for f in (False, True):
            add(c_piecewise, '%s%s' % (p, ' free' if f else ''), p=p, free=f)
        add(c_piecewise_points, str(p), p=p)
    for k in ('np', 'hp', 'singularity'):
        add(c_piecewise_make, k, kind=k)
    add(c_user, '2', n=2)
    return out
