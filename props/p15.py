"""P15 - measures, random variables and vectors agree with their laws."""
import math
from fractions import Fraction
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('all parameters, points, probabilities and masses free (finite '
          'laws with 1-4 values), vectors and products of 1-3 components, '
          'moments up to order 5')
OUTSIDE = ('rounding, extreme quantiles, the value of the normal cdf '
           '(uninterpreted, increasing), the root finder (contract), Latin hypercube sampling, plots')


def uni(c, name='u'):
    lo = c.real(name + 'lo', None, -3, 3)
    hi = c.real(name + 'hi', None, -3, 3)
    c.assume(hi - lo > 0.25)
    return ts.UniformRandomVariable(lo, hi), lo, hi


def nor(c, name='n'):
    mu = c.real(name + 'mu', None, -3, 3)
    sg = c.real(name + 'sg', None, 0.25, 2)
    return ts.NormalRandomVariable(mu, sg), mu, sg


def values(c, name, n, m, sort=True):
    """n distinct values in m variables"""
    v = c.real(name, (n, m), -4, 4)
    for i in range(n - 1):
        if sort:
            c.assume(v[i + 1, 0] - v[i, 0] > 0.125)
    if not sort:
        for i in range(n):
            for j in range(i):
                c.assume(abs(v[i, 0] - v[j, 0]) > 0.125)
    return v


def probs(c, name, n, zero=False):
    p = c.real(name, (n,), 0 if zero else 0.0625, 1)
    c.assume(sum(p) == 1) if c.symbolic else None
    if not c.symbolic:
        p = p / sum(p)
    return p


def fin(c, name='d', n=3, sort=True, zero=False, m=1):
    v = values(c, name + 'v', n, m, sort)
    p = probs(c, name + 'p', n, zero)
    return ts.DiscreteRandomVariable(np.array(v), np.array(p)), v, p


def ite(cond, a, b):
    return a if bool(cond) else b


# --- univariate laws -------------------------------------------------------
def c_uniform(c):
    X, lo, hi = uni(c)
    x = c.real('x', (2,), -5, 5)
    F = X.cdf(np.array(x))
    for k in range(2):
        want = ite(x[k] <= lo, 0, ite(x[k] >= hi, 1,
                                      (x[k] - lo) / (hi - lo)))
        c.eq('cdf %d' % k, F[k], want)
        inside = bool(x[k] > lo) and bool(x[k] < hi)
        c.eq('pdf %d' % k, X.pdf(np.array(x))[k] * (hi - lo),
             1 if inside else 0 if bool(x[k] < lo) or bool(x[k] > hi)
             else X.pdf(np.array(x))[k] * (hi - lo))
        if inside:
            c.eq('quantile of the cdf %d' % k, X.icdf(F[k]), x[k])
    u = c.real('u', None, 0, 1)
    c.eq('cdf of the quantile', X.cdf(X.icdf(u)), u)
    c.eq('support', X.support(), np.array([lo, hi]))
    c.eq('truncated support', X.truncated_support(), np.array([lo, hi]))
    c.eq('min', X.min(), lo)
    c.eq('max', X.max(), hi)
    c.eq('mean', X.mean() * 2, lo + hi)
    c.eq('variance', X.variance() * 12, (hi - lo) ** 2)
    c.eq('std', X.std() ** 2 * 12, (hi - lo) ** 2)
    c.eq('statistics', np.array(X.random_variable_statistics()),
         np.array([X.mean(), X.variance()]))
    c.ok('mass', X.mass() == 1 and X.ndim() == 1 and not X.is_discrete())
    c.eq('standard', X.get_standard_random_variable().support(),
         np.array([-1, 1]))


def c_normal(c):
    X, mu, sg = nor(c)
    x = c.real('x', (2,), -5, 5)
    for k in range(2):
        c.assume(abs(x[k] - mu) <= 3 * sg)
    F = X.cdf(np.array(x))
    Z = ts.NormalRandomVariable()
    z = (x - mu) / sg
    c.eq('cdf', F, Z.cdf(z))
    c.eq('pdf', X.pdf(np.array(x)) * sg, Z.pdf(z))
    c.eq('quantile of the cdf', X.icdf(F), x)
    u = c.real('u', None, 0.0625, 0.9375)
    c.eq('cdf of the quantile', X.cdf(X.icdf(u)), u)
    c.eq('mean', X.mean(), mu)
    c.eq('variance', X.variance(), sg ** 2)
    c.eq('std', X.std(), sg)
    s = X.support()
    c.ok('support', s[0] == -math.inf and s[1] == math.inf)
    s = Z.get_standard_random_variable()
    c.ok('standard', s.mu == 0 and s.sigma == 1)


def c_shift(c, law):
    """The law of scaling * X + bias."""
    b = c.real('b', None, -2, 2)
    s = c.real('s', None, 0.25, 2)
    if law == 'uniform':
        X, lo, hi = uni(c)
        x = c.real('x', None, -4, 4)
        Y = X.shift(b, s)
        c.eq('cdf', Y.cdf(s * x + b), X.cdf(x))
        c.eq('operand', np.array([X.inf, X.sup]), np.array([lo, hi]))
    elif law == 'normal':
        X, mu, sg = nor(c)
        x = c.real('x', None, -4, 4)
        Y = X.shift(b, s)
        c.eq('cdf', Y.cdf(s * x + b), X.cdf(x))
        c.eq('mean', Y.mean(), s * mu + b)
        c.eq('variance', Y.variance(), s ** 2 * sg ** 2)
        c.eq('operand', np.array([X.mu, X.sigma]), np.array([mu, sg]))
        return
    elif law == 'empirical':
        v = values(c, 'v', 3, 1)[:, 0]
        X = ts.EmpiricalRandomVariable(np.array(v))
        Y = X.shift(b, s)
        c.eq('sample', Y.sample, s * v + b)
        c.eq('operand', X.sample, v)
        return
    else:
        lo = c.real('lo', None, -3, 3)
        hi = c.real('hi', None, -3, 3)
        c.assume(hi - lo > 0.25)
        X = ts.LebesgueMeasure(lo, hi)
        Y = X.shift(b, s)
        c.eq('support', Y.support(), np.array([s * lo + b, s * hi + b]))
        c.eq('mass', Y.mass(), s * X.mass())
        c.eq('operand', X.support(), np.array([lo, hi]))
        return
    c.eq('mean', Y.mean(), s * X.mean() + b)
    c.eq('variance', Y.variance(), s ** 2 * X.variance())


def c_transfer(c, a, b):
    mk = {'uniform': lambda n: uni(c, n)[0], 'normal': lambda n: nor(c, n)[0],
          'finite': lambda n: fin(c, n, 3)[0]}
    X, Y = mk[a]('X'), mk[b]('Y')
    u = c.real('u', (2,), 0.0625, 0.9375)
    x = X.icdf(np.array(u))
    y = X.transfer(Y, x)
    c.eq('quantile', y, Y.icdf(X.cdf(x)))
    if b != 'finite':
        c.eq('level', Y.cdf(y), X.cdf(x))
    if a == b and a != 'finite':
        c.eq('same law', X.transfer(X, x), x)


def c_grid(c, law, n, frac=False):
    X = {'uniform': uni, 'normal': nor}[law](c)[0]
    g = X.iso_probabilistic_grid(1 / n if frac else n)
    c.ok('number of points', len(g) == n + 1)
    s = X.support()
    if law == 'uniform':
        c.eq('ends', np.array([g[0], g[-1]]), s)
    else:
        c.ok('ends', g[0] == -math.inf and g[-1] == math.inf)
    if n > 1:
        F = X.cdf(np.array(g[1:-1], dtype=object if c.symbolic else float))
        c.eq('equal probability', F * n, np.arange(1, n))


def c_discretize(c, law, n):
    X = {'uniform': uni, 'normal': nor}[law](c)[0]
    D = X.discretize(n)
    c.eq('quantiles', X.cdf(np.ravel(D.values)) * 2 * n,
         2 * np.arange(n) + 1)
    c.eq('probabilities', D.probabilities, np.full(n, 1 / n))


def c_discretize_support(c, law, n, given):
    X = {'uniform': uni, 'normal': nor}[law](c)[0]
    s = None
    if given == 'points':
        x = values(c, 'x', n, 1)[:, 0]
        D = X.discretize_support(np.array(x))
        c.eq('values', np.ravel(D.values), x)
    else:
        if given == 'support':
            s = c.real('s', (2,), -3, 3)
            c.assume(s[1] > s[0])
            D = X.discretize_support(n, s)
        else:
            D = X.discretize_support(n)
            s = X.support()
        x = np.ravel(D.values)
        w = s[1] - s[0]
        c.eq('values', (x - s[0]) * (2 * n), w * (2 * np.arange(n) + 1),
             tol=1e-8)
    mid = [(x[i] + x[i + 1]) / 2 for i in range(n - 1)]
    F = [0] + [X.cdf(t) for t in mid] + [1]
    c.eq('probabilities', D.probabilities,
         np.array([F[i + 1] - F[i] for i in range(n)]), tol=1e-9)


def c_random(c, law, n):
    if law == 'uniform':
        X, lo, hi = uni(c)
        x = X.random(n)
    elif law == 'lebesgue':
        lo, hi = c.real('lo', None, -3, 3), c.real('hi', None, -3, 3)
        c.assume(hi > lo)
        x = ts.LebesgueMeasure(lo, hi).random(n)
    elif law == 'normal':
        X, mu, sg = nor(c)
        x = X.random(n)
        c.ok('shape', x.shape == (n,))
        # an affine image of independent standard draws
        c.eq('law', x, mu + sg * c.real('randn1', (n,)))
        return
    elif law == 'finite':
        X, v, p = fin(c, 'd', 3, zero=True)
        x = X.random(n)
        c.ok('shape', x.shape == (n,))
        for i in range(n):
            c.ok('draw %d has positive probability' % i, any(
                bool(x[i] == v[k, 0]) and bool(p[k] > 0) for k in range(3)))
        return
    elif law == 'measure':
        v = values(c, 'v', 3, 1, sort=False)
        w = c.real('w', (3,), 0, 2)
        c.assume(sum(w) > 0.25)
        x = ts.DiscreteMeasure(np.array(v), np.array(w)).random(n)
        c.ok('shape', x.shape == (n,))
        for i in range(n):
            c.ok('draw %d has positive weight' % i, any(
                bool(x[i] == v[k, 0]) and bool(w[k] > 0) for k in range(3)))
        return
    c.ok('shape', x.shape == (n,))
    for i in range(n):
        c.ok('draw %d in the support' % i, c.conj(x[i] >= lo, x[i] <= hi))
    c.eq('law', (x - lo), c.real('rand1', (n,)) * (hi - lo))


def c_equal(c, law):
    """Equality of laws holds exactly for equal parameters."""
    if law in ('uniform', 'normal', 'lebesgue'):
        a, b = c.real('a', (2,), -2, 2), c.real('b', (2,), -2, 2)
        c.assume(a[1] > 0.5)
        c.assume(b[1] > 0.5)
        mk = {'uniform': ts.UniformRandomVariable,
              'normal': ts.NormalRandomVariable,
              'lebesgue': ts.LebesgueMeasure}[law]
        if law != 'normal':
            a[0], b[0] = -abs(a[0]), -abs(b[0])
        X, Y = mk(*a), mk(*b)
        same = bool(a[0] == b[0]) and bool(a[1] == b[1])
        other = ts.NormalRandomVariable(a[0], a[1]) if law == 'uniform' \
            else ts.UniformRandomVariable(-abs(a[0]), a[1])
    else:
        n = 2
        v, w = values(c, 'v', n, 1), values(c, 'w', n, 1)
        if law == 'finite':
            p, q = probs(c, 'p', n), probs(c, 'q', n)
            mk = ts.DiscreteRandomVariable
        else:
            p, q = c.real('p', (n,), 0.25, 2), c.real('q', (n,), 0.25, 2)
            mk = ts.DiscreteMeasure
        X, Y = mk(np.array(v), np.array(p)), mk(np.array(w), np.array(q))
        same = all(bool(s == t) for s, t in zip(list(v[:, 0]) + list(p),
                                                list(w[:, 0]) + list(q)))
        other = ts.UniformRandomVariable(0, 1)
        Z = mk(np.array([[0.], [1.], [2.]]))
        c.ok('different numbers of values', not bool(X == Z) and
             not bool(Z == X))
    c.ok('equal', bool(X == Y) == same)
    c.ok('different', bool(X != Y) != same)
    c.ok('reflexive', bool(X == X))
    c.ok('other kind', not bool(X == other))


# --- moments and Gauss quadrature ------------------------------------------
def moments(c, law):
    """law, function giving (moment k) * scale, scale"""
    if law == 'uniform':
        X, lo, hi = uni(c)
        return X, lambda k: sum(lo ** i * hi ** (k - i)
                                for i in range(k + 1)) / (k + 1)
    if law == 'normal':
        X, mu, sg = nor(c)
        dd = [1, 0, 1, 0, 3, 0, 15, 0, 105]
        return X, lambda k: sum(math.comb(k, i) * mu ** (k - i) * sg ** i *
                                dd[i] for i in range(k + 1))
    v = np.array([[-1.], [0.5], [2.]])
    p = np.array([0.25, 0.5, 0.25])
    return ts.DiscreteRandomVariable(v, p), lambda k: float(
        np.sum(p * v[:, 0] ** k))


def c_moment(c, law, orders):
    X, m = moments(c, law)
    c.eq('moments', X.moment(orders), np.array([m(k) for k in orders]),
         tol=1e-6)
    out, Y = X.moment(orders, 2)
    c.eq('moments again', out, np.array([m(k) for k in orders]), tol=1e-6)
    for k in range(max(orders) + 1):
        c.eq('stored moment %d' % k, Y.moment([k]), np.array([m(k)]),
             tol=1e-6)
    c.eq('stored moments', Y.moment(orders), np.array([m(k) for k in orders]),
         tol=1e-6)
    c.ok('operand', np.size(X.moments) == 0)


def c_gauss(c, law, n):
    """All polynomials of degree 2n-1 are integrated exactly."""
    a = c.real('a', (2 * n,), -1, 1)

    def p(x):
        return sum(a[k] * x ** k for k in range(2 * n))
    if law == 'lebesgue':
        X, m = moments(c, 'uniform')
        lo, hi = X.inf, X.sup
        G = ts.LebesgueMeasure(lo, hi).gauss_integration_rule(n)
        mass = hi - lo
    else:
        X, m = moments(c, law)
        G = X.gauss_integration_rule(n)
        mass = 1
    c.ok('number of points', np.size(G.points) == n)
    c.eq('mass', sum(G.weights), mass, tol=1e-9)
    c.eq('integral', G.integrate(p),
         mass * sum(a[k] * m(k) for k in range(2 * n)), tol=1e-5)
    x = np.ravel(G.points)
    for i in range(n - 1):
        c.ok('increasing %d' % i, x[i] < x[i + 1])


# --- finite laws -----------------------------------------------------------
def c_finite(c, n, sort=True, zero=False):
    X, v, p = fin(c, 'd', n, sort, zero)
    x = c.real('x', (2,), -5, 5)
    F = X.cdf(np.array(x))
    for k in range(2):
        c.eq('cdf %d' % k, F[k], sum(p[i] for i in range(n)
                                     if bool(v[i, 0] <= x[k])))
    u = c.real('u', (2,), 0.03125, 1)
    # away from the levels, where rounding decides
    q = X.icdf(np.array(u))
    order = sorted(range(n), key=lambda i: Key(v[i, 0]))
    for k in range(2):
        cum, want = 0, None
        for i in order:
            cum = cum + p[i]
            if want is None and bool(cum >= u[k]):
                want = v[i, 0]
        if want is None:                 # concrete rounding of the total
            continue
        c.eq('quantile %d' % k, q[k], want)
    c.eq('mean', np.ravel(X.mean()), np.array([sum(p * v[:, 0])]))
    var = sum(p * v[:, 0] ** 2) - sum(p * v[:, 0]) ** 2
    c.eq('variance', np.ravel(X.variance()), np.array([var]))
    c.eq('var', np.ravel(X.var()), np.array([var]))
    s = X.support()
    c.eq('support', np.ravel(s), np.array([min(list(v[:, 0])),
                                           max(list(v[:, 0]))]))
    a = c.real('a', (3,), -2, 2)
    G = X.integration_rule()
    c.eq('integral', G.integrate(lambda t: a[0] + a[1] * t + a[2] * t ** 2),
         sum(p[i] * (a[0] + a[1] * v[i, 0] + a[2] * v[i, 0] ** 2)
             for i in range(n)))
    c.ok('discrete', X.is_discrete())


class Key:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return bool(self.x < o.x)


def c_finite_build(c, n, how):
    v = values(c, 'v', n, 1)
    if how == 'default':
        X = ts.DiscreteRandomVariable(np.array(v))
        c.eq('uniform', X.probabilities * n, np.ones(n), tol=1e-9)
    elif how == 'vector':
        X = ts.DiscreteRandomVariable(np.array(v[:, 0]),
                                      [1 / n] * n)
        c.eq('values', X.values, v)
    elif how == 'scaled':
        w = c.real('w', (n,), 0, 3)
        c.assume(sum(w) > 0.5)
        c.assume(abs(sum(w) - 1) > 1e-6)    # else taken as they are
        X = ts.DiscreteRandomVariable(np.array(v), np.array(w))
        t = sum(w)
        c.eq('normalised', X.probabilities * t, w)
        c.eq('operand', np.sum(w), t)
    else:
        w = c.real('w', (n,), -1, 1)
        c.assume(sum(w) > 0.5)
        neg = any(bool(x < 0) for x in w)
        try:
            ts.DiscreteRandomVariable(np.array(v), np.array(w))
            bad = False
        except ValueError:
            bad = True
        c.ok('negative probabilities are rejected', bad == neg)
        try:
            ts.DiscreteRandomVariable(np.array(v), np.ones(n + 1))
            bad = False
        except ValueError:
            bad = True
        c.ok('wrong number is rejected', bad)


def c_finite_standard(c, n):
    X, v, p = fin(c, 'd', n)
    Y = X.get_standard_random_variable()
    y = Y.values[:, 0]
    c.eq('centred', sum(p * y), 0)
    c.eq('reduced', sum(p * y ** 2), 1)
    c.eq('probabilities', Y.probabilities, p)
    c.ok('increasing', c.all(y[i] < y[i + 1] for i in range(n - 1)))
    c.eq('operand', X.values, v)


def c_measure(c, n, m):
    v = c.real('v', (n, m), -4, 4)
    w = c.real('w', (n,), 0, 2)
    M = ts.DiscreteMeasure(np.array(v), np.array(w))
    c.ok('dimension', M.ndim() == m)
    c.eq('mass', M.mass(), sum(w))
    s = M.support()
    c.eq('support', s, np.array([[min(list(v[:, k])) for k in range(m)],
                                 [max(list(v[:, k])) for k in range(m)]]))
    a = c.real('a', (m,), -2, 2)
    c.eq('integral', M.integration_rule().integrate(
        lambda t: np.matmul(t, a)), sum(w[i] * sum(v[i] * a)
                                        for i in range(n)))
    c.eq('counting', ts.DiscreteMeasure(np.array(v)).weights, np.ones(n))
    c.ok('discrete', M.is_discrete())


def c_lebesgue(c):
    lo = c.real('lo', None, -3, 3)
    hi = c.real('hi', None, -3, 3)
    c.assume(hi > lo)
    M = ts.LebesgueMeasure(lo, hi)
    c.eq('mass', M.mass(), hi - lo)
    c.eq('support', M.support(), np.array([lo, hi]))
    c.eq('truncated support', M.truncated_support(), np.array([lo, hi]))
    c.ok('kind', M.ndim() == 1 and not M.is_discrete())


# --- vectors and products --------------------------------------------------
def vec(c, kinds):
    X = []
    for k, s in enumerate(kinds):
        X.append({'u': uni, 'n': nor}[s](c, 'X%d' % k)[0])
    return X


def c_vector(c, kinds, aslist=False, n=1):
    X = vec(c, kinds)
    d = len(X)
    V = ts.RandomVector(X)
    c.ok('size', V.size == d and V.ndim() == d)
    x = c.real('x', (n, d), -2, 2)
    arg = [x[:, k] for k in range(d)] if aslist else np.array(x)
    want = [1] * n
    dens = [1] * n
    for i in range(n):
        for k in range(d):
            want[i] = want[i] * X[k].cdf(x[i, k])
            dens[i] = dens[i] * X[k].pdf(x[i, k])
    c.eq('cdf', V.cdf(arg), np.array(want))
    c.eq('pdf', V.pdf(arg), np.array(dens))
    c.eq('mean', V.mean(), np.array([y.mean() for y in X]))
    c.eq('variance', V.variance(), np.array([y.variance() for y in X]))
    c.eq('std', V.std(), np.array([y.std() for y in X]))
    for k, s in enumerate(V.support()):
        if kinds[k] == 'u':
            c.eq('support %d' % k, s, X[k].support())
    c.ok('equal', bool(V == ts.RandomVector(X)))
    c.ok('mass', V.mass() == 1)
    std = V.get_standard_random_vector()
    c.ok('standard', all(
        bool(a == b.get_standard_random_variable())
        for a, b in zip(std.random_variables, X)))


def c_vector_sub(c, kinds, ind):
    X = vec(c, kinds)
    V = ts.RandomVector(X)
    M = V.marginal(np.array(ind) if not isinstance(ind, int) else ind)
    sel = [ind] if isinstance(ind, int) else ind
    c.ok('size', M.size == len(sel))
    for a, k in zip(M.random_variables, sel):
        c.ok('component %d' % k, type(a) is type(X[k]))
        c.eq('parameters %d' % k, np.array(a.get_parameters()),
             np.array(X[k].get_parameters()))
    if not isinstance(ind, int) and len(sel) == len(X):
        T = V.transpose(np.array(ind))
        for a, k in zip(T.random_variables, sel):
            c.eq('transposed %d' % k, np.array(a.get_parameters()),
                 np.array(X[k].get_parameters()))
    c.ok('operand', V.size == len(X))


def c_vector_copies(c, d):
    X = uni(c)[0]
    V = ts.RandomVector(X, d)
    c.ok('size', V.size == d)
    for a in V.random_variables:
        c.eq('parameters', np.array(a.get_parameters()),
             np.array(X.get_parameters()))
    W = ts.RandomVector(V)
    c.ok('of a vector', W.size == d and bool(W == V))
    X2 = ts.RandomVector(vec(c, 'u' * (d + 1)))
    c.ok('different sizes', not bool(V == X2))


def c_vector_transfer(c, a, b, rvs=False):
    X, Y = vec(c, a), [{'u': uni, 'n': nor}[s](c, 'Y%d' % k)[0]
                       for k, s in enumerate(b)]
    d = len(a)
    u = c.real('u', (2, d), 0.0625, 0.9375)
    x = np.stack([X[k].icdf(u[:, k]) for k in range(d)], axis=1)
    y = ts.RandomVector(X).transfer(Y[0] if rvs else ts.RandomVector(Y),
                                    np.array(x))
    for k in range(d):
        c.eq('level %d' % k, Y[0 if rvs else k].cdf(y[:, k]), u[:, k])


def c_vector_grid(c, kinds, n):
    X = vec(c, kinds)
    g = ts.RandomVector(X).iso_probabilistic_grid(n)
    ns = [n] * len(X) if np.ndim(n) == 0 else n
    for k, y in enumerate(X):
        c.eq('grid %d' % k, np.ravel(g.grids[k]),
             np.ravel(y.iso_probabilistic_grid(ns[k])))


def c_vector_random(c, kinds, n):
    X = vec(c, kinds)
    x = ts.RandomVector(X).random(n)
    c.ok('shape', x.shape == (n, len(X)))
    for k, y in enumerate(X):
        if kinds[k] == 'u':
            for i in range(n):
                c.ok('support %d %d' % (i, k),
                     c.conj(x[i, k] >= y.inf, x[i, k] <= y.sup))


def product(c, kinds):
    out = []
    for k, s in enumerate(kinds):
        if s == 'l':
            lo = c.real('L%dlo' % k, None, -3, 3)
            hi = c.real('L%dhi' % k, None, -3, 3)
            c.assume(hi - lo > 0.25)
            out.append(ts.LebesgueMeasure(lo, hi))
        elif s == 'd':
            v = values(c, 'D%dv' % k, 2, 1)
            w = c.real('D%dw' % k, (2,), 0.25, 2)
            out.append(ts.DiscreteMeasure(np.array(v), np.array(w)))
        else:
            out.append({'u': uni, 'n': nor}[s](c, 'X%d' % k)[0])
    return out


def c_product(c, kinds):
    M = product(c, kinds)
    P = ts.ProductMeasure(M)
    mass = 1
    for m in M:
        mass = mass * m.mass()
    c.eq('mass', P.mass(), mass)
    c.ok('dimension', P.ndim() == len(M))
    c.ok('discrete', bool(P.is_discrete()) == all(s == 'd' for s in kinds))
    for k, s in enumerate(P.support()):
        if kinds[k] != 'n':
            c.eq('support %d' % k, np.ravel(s), np.ravel(M[k].support()))
    c.ok('equal', bool(P == ts.ProductMeasure(list(M))))
    if len(M) > 1:
        c.ok('different numbers of factors',
             not bool(P == ts.ProductMeasure(M[:-1])) and
             not bool(ts.ProductMeasure(M[:-1]) == P))
        Q = P.marginal([len(M) - 1, 0])
        c.ok('marginal', Q.measures[0] is M[-1] and Q.measures[1] is M[0] and
             len(Q.measures) == 2)
    D = ts.ProductMeasure.duplicate(M[0], 3)
    c.ok('duplicate', len(D.measures) == 3 and
         all(bool(m == M[0]) for m in D.measures))
    if all(s in 'un' for s in kinds):
        V = P.random_vector()
        c.ok('random vector', V.size == len(M) and
             all(bool(a == b) for a, b in zip(V.random_variables, M)))
        P2 = ts.ProductMeasure(V)
        c.ok('of a random vector', bool(P2 == P))


def c_product_equal(c):
    a, b = c.real('a', (2,), 0.5, 2), c.real('b', (2,), 0.5, 2)
    P = ts.ProductMeasure([ts.LebesgueMeasure(0, t) for t in a])
    Q = ts.ProductMeasure([ts.LebesgueMeasure(0, t) for t in b])
    c.ok('equal', bool(P == Q) == (bool(a[0] == b[0]) and
                                   bool(a[1] == b[1])))


def c_product_gauss(c, kinds, n):
    M = product(c, kinds)
    d = len(M)
    ns = [n] * d if np.ndim(n) == 0 else n
    G = ts.ProductMeasure(M).gauss_integration_rule(n)
    c.ok('points', list(G.points.shape) == ns)
    a = c.real('a', (2 * min(ns),) * d, -1, 1)

    def f(x):
        r = 0
        for i in np.ndindex(*a.shape):
            t = a[i]
            for k in range(d):
                t = t * x[:, k] ** i[k]
            r = r + t
        return r
    want = 0
    for i in np.ndindex(*a.shape):
        t = a[i]
        for k in range(d):
            lo, hi = M[k].support()
            t = t * (M[k].mass() * sum(lo ** j * hi ** (i[k] - j)
                                       for j in range(i[k] + 1)) / (i[k] + 1))
        want = want + t
    c.eq('integral', G.integrate(f), want, tol=1e-5)


def c_product_random(c, kinds, n):
    M = product(c, kinds)
    x = ts.ProductMeasure(M).random(n)
    c.ok('shape', x.shape == (n, len(M)))
    for k, s in enumerate(kinds):
        lo, hi = np.ravel(M[k].support())
        for i in range(n):
            c.ok('support %d %d' % (i, k),
                 c.conj(x[i, k] >= lo, x[i, k] <= hi))


# --- empirical laws --------------------------------------------------------
def c_empirical(c, n):
    v = values(c, 'v', n, 1)[:, 0]
    X = ts.EmpiricalRandomVariable(np.array(v))
    m = sum(v) / n
    var = sum((v - m) ** 2) / n
    c.eq('mean', X.mean(), m)
    c.eq('variance', X.variance(), var)
    c.eq('bandwidth', X.bandwidth ** 2,
         (Fraction(3.5) * Fraction(n ** (-1 / 3))) ** 2 * var)
    h = X.bandwidth
    x = c.real('x', (2,), -5, 5)
    Z = ts.NormalRandomVariable()
    F = np.array([sum(Z.cdf((t - s) / h) for s in v) / n for t in x])
    c.eq('cdf', X.cdf(np.array(x)), F)


def c_empirical_icdf(c, n):
    v = values(c, 'v', n, 1)[:, 0]
    X = ts.EmpiricalRandomVariable(np.array(v))
    u = c.real('u', (2,), 0.0625, 0.9375)
    c.eq('level', X.cdf(X.icdf(np.array(u))), u)
    c.eq('draws', X.cdf(X.random(2)), c.real('rand1', (2,)))


def c_empirical_pdf(c, n):
    """The density is the mean of the Gaussian kernels."""
    v = values(c, 'v', n, 1)[:, 0]
    X = ts.EmpiricalRandomVariable(np.array(v))
    h = X.bandwidth
    x = c.real('x', None, -5, 5)
    want = sum(np.exp(-0.5 * (x - s) ** 2 / h ** 2) for s in v)
    c.eq('pdf', X.pdf(x)[0] * (n * h * np.sqrt(2 * np.pi)), want)


def c_empirical_standard(c, n):
    v = values(c, 'v', n, 1)[:, 0]
    X = ts.EmpiricalRandomVariable(np.array(v))
    Y = X.get_standard_random_variable()
    c.eq('centred', sum(Y.sample), 0)
    c.eq('reduced', sum(Y.sample ** 2), n)
    c.eq('operand', X.sample, v)


def c_empirical_quadrature(c, n, q):
    v = values(c, 'v', n, 1)[:, 0]
    X = ts.EmpiricalRandomVariable(np.array(v))
    G = X.integration_rule(q)
    a = c.real('a', (min(2 * q, 4),), -1, 1)
    h2 = X.bandwidth ** 2
    m = [lambda s: 1, lambda s: s, lambda s: s ** 2 + h2,
         lambda s: s ** 3 + 3 * s * h2]
    c.eq('integral', G.integrate(lambda x: sum(a[k] * x ** k
                                               for k in range(len(a)))),
         sum(a[k] * sum(m[k](s) for s in v) / n for k in range(len(a))),
         tol=1e-4)


def c_multi_indices(c, shape, given):
    if given:
        vals = [np.ravel(values(c, 'v%d' % k, n, 1))
                for k, n in enumerate(shape)]
        V = ts.random_multi_indices([np.array(v) for v in vals])
    else:
        vals = [np.arange(n) for n in shape]
        V = ts.random_multi_indices(list(shape))
    c.ok('size', V.size == len(shape))
    for k, X in enumerate(V.random_variables):
        c.eq('values %d' % k, np.ravel(X.values), vals[k])
        c.eq('uniform %d' % k, X.probabilities * shape[k],
             np.ones(shape[k]), tol=1e-9)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    add = adder(out, time=120, snap=10000, box=4)
    add(c_uniform, 'x')
    add(c_normal, 'x')
    add(c_lebesgue, 'x')
    for law in ('uniform', 'normal', 'lebesgue', 'empirical'):
        add(c_shift, law, law=law)
    for a in ('uniform', 'normal', 'finite'):
        for b in ('uniform', 'normal', 'finite'):
            add(c_transfer, a + '-' + b, a=a, b=b)
    for law in ('uniform', 'normal'):
        for n in (1, 2, 3, 4, 5) + ((7, 10) if deep else ()):
            add(c_grid, '%s-%d' % (law, n), law=law, n=n)
            if n in (2, 4):
                add(c_grid, '%s-1/%d' % (law, n), law=law, n=n, frac=True)
        for n in (1, 2, 3) + ((4, 5) if deep else ()):
            add(c_discretize, '%s-%d' % (law, n), law=law, n=n)
            for g in ('points', 'support', 'default'):
                if (law, g) != ('normal', 'default'):
                    add(c_discretize_support, '%s-%d-%s' % (law, n, g),
                        law=law, n=n, given=g)
        for o in ((0,), (1, 2), (3,), (0, 4), (2, 3, 1), (5, 0)):
            add(c_moment, '%s-%s' % (law, o), law=law, orders=list(o),
                opts={'snap': 0})
    add(c_moment, 'finite', law='finite', orders=[1, 3])
    for law in ('uniform', 'normal', 'lebesgue', 'finite'):
        for n in (1, 2, 3) + ((4, 5) if deep and law != 'finite' else ()):
            add(c_gauss, '%s-%d' % (law, n), law=law, n=n, opts={'snap': 0})
    for law in ('uniform', 'normal', 'lebesgue', 'finite', 'measure'):
        for n in (1, 2) + ((3,) if deep else ()):
            add(c_random, '%s-%d' % (law, n), law=law, n=n)
    for law in ('uniform', 'normal', 'lebesgue', 'finite', 'measure'):
        add(c_equal, law, law=law)
    for n in (1, 2, 3) + ((4,) if deep else ()):
        add(c_finite, '%d' % n, n=n)
        if n > 1:
            add(c_finite_standard, '%d' % n, n=n)
        for how in ('default', 'vector', 'scaled', 'reject'):
            add(c_finite_build, '%d-%s' % (n, how), n=n, how=how)
    add(c_finite, '2-any order', n=2, sort=False)
    add(c_finite, '3-any order', n=3, sort=False)
    add(c_finite, '2-zero', n=2, zero=True)
    for n, m in ((1, 1), (2, 1), (3, 1), (2, 2)):
        add(c_measure, '%d-%d' % (n, m), n=n, m=m)
    for k in ('u', 'n', 'un', 'nu', 'uu', 'unn') + (
            ('uuu', 'nnn') if deep else ()):
        add(c_vector, k, kinds=k)
        add(c_vector_random, k, kinds=k, n=2)
    add(c_vector, 'un-list', kinds='un', aslist=True, n=2)
    add(c_vector, 'un-2', kinds='un', n=2)
    for k, ind in (('un', 0), ('un', [1]), ('unu', [2, 0]), ('unu', [1, 2, 0]),
                   ('un', [1, 0]), ('uuu', [0, 2, 1])):
        add(c_vector_sub, '%s-%s' % (k, ind), kinds=k, ind=ind)
    for d in (1, 2, 3):
        add(c_vector_copies, '%d' % d, d=d)
    for a, b in (('u', 'u'), ('un', 'nu'), ('uu', 'nn'), ('nnu', 'unu')):
        add(c_vector_transfer, a + b, a=a, b=b)
    add(c_vector_transfer, 'one', a='un', b='un', rvs=True)
    for k, n in (('u', 3), ('uu', 2), ('uu', [2, 3]), ('uuu', [1, 3, 2])):
        add(c_vector_grid, '%s-%s' % (k, n), kinds=k, n=n)
    for k in ('l', 'd', 'u', 'll', 'ld', 'dd', 'un', 'ldn'):
        add(c_product, k, kinds=k)
    add(c_product_equal, 'x')
    for k, n in (('l', 2), ('ul', 1), ('lu', [1, 2])) + (
            (('uul', [1, 2, 1]), ('ll', [3, 2]), ('lu', 2)) if deep else ()):
        add(c_product_gauss, '%s-%s' % (k, n), kinds=k, n=n,
            opts={'snap': 0})
    for k in ('l', 'ul', 'ld', 'ldu'):
        add(c_product_random, k, kinds=k, n=2)
    for n in (2, 3):
        add(c_empirical, '%d' % n, n=n)
        add(c_empirical_icdf, '%d' % n, n=n, opts={'feas_ms': 100})
        add(c_empirical_pdf, '%d' % n, n=n)
        add(c_empirical_standard, '%d' % n, n=n)
        add(c_empirical_quadrature, '%d-2' % n, n=n, q=2, opts={'snap': 0})
    for s in ((2,), (3, 2), (1, 2, 2)):
        for g in (False, True):
            add(c_multi_indices, '%s-%s' % (s, g), shape=s, given=g)
    return out
