"""P12 - univariate polynomials."""
import math
from fractions import Fraction as Fr
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('all points in [-4, 4], all shifts, scalings and parameters of the '
          'measures, degrees up to 5 (quick) or 8, derivatives of order 1-4, '
          'products of up to 4 polynomials')
OUTSIDE = ('rounding (tolerance 1e-7), Gauss nodes and roots computed '
           'numerically on concrete data')
TOL = 1e-7

SAMPLE = [0., 1., 3., 4.5, -1.]
ATOMS = [-1., 0.5, 1., 2.5, 3.]
WEIGHTS = [0.25, 0.5, 0.125, 0.0625, 0.0625]


# --- reference: Gram-Schmidt on exact moments ------------------------------
def normal_moment(k):
    return Fr(math.factorial(k), 2 ** (k // 2) * math.factorial(k // 2)) \
        if k % 2 == 0 else Fr(0)


def moment_of(law, X):
    if law == 'hermite':
        return normal_moment
    if law == 'legendre':
        return lambda k: Fr(1, k + 1) if k % 2 == 0 else Fr(0)
    if law == 'lebesgue':
        return lambda k: Fr(2, k + 1) if k % 2 == 0 else Fr(0)
    if law == 'kde':
        s = [Fr(float(v)) for v in np.ravel(X.sample)]
        h = Fr(float(X.bandwidth))
        return lambda k: sum(
            sum(math.comb(k, j) * x ** (k - j) * h ** j * normal_moment(j)
                for j in range(k + 1)) for x in s) / len(s)
    v = [Fr(float(t)) for t in np.ravel(X.values)]
    w = [Fr(float(t)) for t in
         np.ravel(X.weights if law == 'weighted' else X.probabilities)]
    return lambda k: sum(a * x ** k for a, x in zip(w, v))


def reference(moment, n):
    """coefficients of the orthonormal polynomials of degree < n"""
    mom = [moment(k) for k in range(2 * n)]
    dot = lambda p, q: sum(a * b * mom[i + j] for i, a in enumerate(p)
                           for j, b in enumerate(q))
    monic = []
    for k in range(n):
        p = [Fr(0)] * k + [Fr(1)]
        for q in monic:
            f = dot(p, q) / dot(q, q)
            p = [a - f * (q[i] if i < len(q) else 0) for i, a in enumerate(p)]
        monic.append(p)
    out = np.zeros((n, n))
    for k, p in enumerate(monic):
        out[k, :k + 1] = [float(a) for a in p]
        out[k] /= math.sqrt(dot(p, p))
    return out


def horner(coef, x):
    y = 0
    for a in coef[::-1]:
        y = y * x + float(a)
    return y


def deriv(coef, n=1):
    for _ in range(n):
        coef = [i * a for i, a in enumerate(coef)][1:] or [0.]
    return coef


def table(coefs, ind, x, n=0):
    return np.array([[horner(deriv(list(coefs[i]), n), t) for i in ind]
                     for t in x], dtype=object).reshape(len(x), len(ind))


def base(law):
    if law == 'hermite':
        P = ts.HermitePolynomials()
    elif law == 'legendre':
        P = ts.LegendrePolynomials()
    elif law == 'lebesgue':
        P = ts.LegendrePolynomialsLebesgue()
    elif law == 'kde':
        P = ts.EmpiricalPolynomials(np.array(SAMPLE))
    elif law == 'discrete':
        P = ts.DiscretePolynomials(ts.DiscreteRandomVariable(
            np.array(ATOMS), np.array(WEIGHTS)))
    else:
        P = ts.DiscretePolynomials(ts.DiscreteMeasure(
            np.array(ATOMS)[:, None], 3 * np.array(WEIGHTS)))
    return P, P.measure


def c_values(c, law, ind, n):
    P, X = base(law)
    R = reference(moment_of(law, X), max(ind) + 1)
    x = c.real('x', (2,), -4, 4)
    for k in range(n + 1):
        want = table(R, ind, x, k)
        c.eq('derivative %d' % k, P.dn_polyval(k, ind, np.array(x)), want,
             tol=TOL * 10 ** k)
        if k == 0:
            c.eq('values', P.polyval(ind, np.array(x)), want, tol=TOL)
        if k == 1:
            c.eq('d', P.d_polyval(ind, np.array(x)), want, tol=TOL * 10)
    c.eq('coefficients', P.poly_coeff(ind), R[ind], tol=TOL)
    for k in range(1, n + 1):
        D = np.zeros((len(ind), max(max(ind) - k + 1, 1)))
        for i, d in enumerate(ind):
            q = deriv(list(R[d]), k)[:D.shape[1]]
            D[i, :len(q)] = q
        c.eq('coefficients of derivative %d' % k, P.dn_poly_coeff(k, ind), D,
             tol=TOL)
        if k == 1:
            if max(ind):
                c.eq('coefficients d', P.d_poly_coef(ind), D, tol=TOL)
    rec, norms = P.recurrence_monic(max(ind))
    lead = np.array([R[i, i] for i in range(max(ind) + 1)])
    f = math.sqrt(X.mass()) if law == 'lebesgue' else 1
    c.eq('norms', norms * lead, np.ones(len(lead)), tol=TOL)
    c.ok('orthonormal', P.is_orthonormal() is True and P.ndim() == 1)


def c_scalar(c, law):
    """one degree, one point"""
    P, X = base(law)
    R = reference(moment_of(law, X), 4)
    x = c.real('x', None, -4, 4)
    c.eq('values', P.polyval(3, x), np.array([horner(R[3], x)],
                                            dtype=object), tol=TOL)
    c.eq('derivative', P.d_polyval(3, x),
         np.array([horner(deriv(list(R[3])), x)], dtype=object), tol=TOL)


def c_one(c, law):
    P, X = base(law)
    v, i = P.one()
    x = c.real('x', None, -4, 4)
    c.eq('one', v * np.ravel(P.polyval([i], x))[0], 1, tol=TOL)


def moments(mom, R, ind):
    out = []
    for row in ind:
        q = [Fr(1)]
        for d in row:
            p = [Fr(float(t)) for t in R[d]]
            q = [sum(q[j] * p[i - j] for j in range(len(q))
                     if 0 <= i - j < len(p)) for i in range(len(q) + len(p))]
        out.append(float(sum(a * mom(k) for k, a in enumerate(q))))
    return np.array(out)


def c_moment(c, law, ind):
    P, X = base(law)
    mom = moment_of(law, X)
    m = max(max(r) for r in ind)
    R = reference(mom, m + 1)
    c.eq('moments', P.moment(np.array(ind)), moments(mom, R, ind), tol=TOL)
    if len(ind) == 1 and len(ind[0]) > 1:
        c.eq('one moment', P.moment(ind[0]), moments(mom, R, ind), tol=TOL)
    if len(ind[0]) == 1:
        i = [r[0] for r in ind]
        c.eq('mean', P.mean(i), moments(mom, R, ind) / float(mom(0)), tol=TOL)
        c.eq('mean for the measure', P.mean(i, base(law)[1]),
             moments(mom, R, ind) / float(mom(0)), tol=TOL)


# symbolic measures ---------------------------------------------------------
def measure(c, law, name='m'):
    if law in ('uniform', 'lebesgue'):
        lo, hi = c.real(name + 'lo', None, -3, 3), c.real(name + 'hi', None,
                                                          -3, 3)
        c.assume(hi - lo > 0.25)
        X = (ts.UniformRandomVariable if law == 'uniform' else
             ts.LebesgueMeasure)(lo, hi)
        L = hi - lo
        tot = 1 if law == 'uniform' else L

        def mom(k):
            # complete homogeneous symmetric polynomial
            return tot * sum(lo ** i * hi ** (k - i)
                             for i in range(k + 1)) / (k + 1)
        return X, mom, tot
    if law == 'normal':
        mu = c.real(name + 'mu', None, -3, 3)
        sg = c.real(name + 'sg', None, 0.25, 2)
        return (ts.NormalRandomVariable(mu, sg),
                lambda k: sum(math.comb(k, j) * mu ** (k - j) * sg ** j *
                              normal_moment(j) for j in range(0, k + 1, 2)),
                1)
    v = c.real(name + 'v', (3,), -3, 3)
    w = c.real(name + 'w', (3,), 0.0625, 1)
    if law == 'finite':
        if c.symbolic:
            c.assume(sum(w) == 1)
        else:
            w = w / sum(w)
        X = ts.DiscreteRandomVariable(np.array(v), np.array(w))
        tot = 1
    else:
        X = ts.DiscreteMeasure(np.array(v)[:, None], np.array(w))
        tot = sum(w)
    return X, lambda k: sum(w[i] * v[i] ** k for i in range(3)), tot


def sym_moments(mom, R, ind):
    out = []
    for row in ind:
        q = np.array([1.])
        for d in row:
            q = np.convolve(q, R[d, :d + 1])
        out.append(sum(float(a) * mom(k) for k, a in enumerate(q)))
    return np.array(out, dtype=object)


def c_moment_other(c, law, other, ind):
    """moments for another measure"""
    if law == 'canonical':
        P = ts.CanonicalPolynomials()
        R = np.eye(9)
    else:
        P, X = base(law)
        R = reference(moment_of(law, X), max(max(r) for r in ind) + 1)
    Y, mom, tot = measure(c, other)
    want = sym_moments(mom, R, ind)
    c.eq('moments', P.moment(np.array(ind), Y), want, tol=1e-6)
    if len(ind[0]) == 1:
        c.eq('mean', P.mean([r[0] for r in ind], Y), want * (1 / tot), tol=1e-6)


def c_random(c, law, ind, n):
    P, X = base(law)
    Q = P
    y, x = P.random(ind, n)
    R = reference(moment_of(law, X), max(ind) + 1)
    c.ok('shapes', x.shape == (n,) and y.shape == (n, len(ind)))
    if law in ('hermite',):
        c.eq('draws', x, c.real('randn1', (n,)), tol=TOL)
    if law == 'legendre':
        c.eq('draws', x, c.real('rand1', (n,)) * 2 - 1, tol=TOL)
    c.eq('values', y, table(R, ind, x), tol=TOL)


def c_random_other(c, law, ind, n):
    P, X = base(law)
    R = reference(moment_of(law, X), max(ind) + 1)
    lo, hi = c.real('lo', None, -3, 3), c.real('hi', None, -3, 3)
    c.assume(hi - lo > 0.25)
    y, x = P.random(ind, n, ts.UniformRandomVariable(lo, hi))
    c.eq('draws', x, c.real('rand1', (n,)) * (hi - lo) + lo)
    c.eq('values', y, table(R, ind, x), tol=TOL)


def c_roots(c, law, deg):
    """the polynomial vanishes exactly at its roots: P = lead * prod"""
    P, X = base(law)
    R = reference(moment_of(law, X), deg + 1)
    x = c.real('x', None, -4, 4)
    r = P.roots(deg)
    c.ok('number', np.shape(r) == (deg,))
    p = float(R[deg, deg])
    for t in r:
        p = p * (x - t)
    c.eq('factorised', p, horner(R[deg], x), tol=1e-5)


def c_equality(c):
    fam = ['hermite', 'legendre', 'lebesgue', 'kde', 'discrete', 'weighted']
    for a in fam:
        for b in fam:
            c.ok('%s == %s' % (a, b),
                 bool(base(a)[0] == base(b)[0]) == (a == b))
    s, t = c.real('s', None, -2, 2), c.real('t', None, 0.25, 2)
    u, v = c.real('u', None, -2, 2), c.real('v', None, 0.25, 2)
    S = ts.ShiftedOrthonormalPolynomials
    H, L = ts.HermitePolynomials(), ts.LegendrePolynomials()
    A, B = S(H, s, t), S(H, u, v)
    c.ok('same', bool(A == S(H, s, t)))
    c.ok('other family', not bool(A == S(L, s, t)))
    c.ok('not shifted', not bool(A == H) and not bool(H == A))
    c.ok('other parameters',
         bool(A == B) == (bool(s == u) and bool(t == v)))
    C = ts.CanonicalPolynomials()
    c.ok('canonical', C == ts.CanonicalPolynomials() and not C == L
         and not L == C)


# shifted polynomials -------------------------------------------------------
def shifted(c, law):
    """(polynomials, base measure, shift, scaling, normalization)"""
    if law in ('uniform', 'lebesgue_ab'):
        lo, hi = c.real('lo', None, -3, 3), c.real('hi', None, -3, 3)
        c.assume(hi - lo > 0.5)
        X = (ts.UniformRandomVariable if law == 'uniform' else
             ts.LebesgueMeasure)(lo, hi)
        R = reference(moment_of('legendre', None), 6)
        if bool(lo == -1) and bool(hi == 1):
            lo, hi = -1, 1
        f = 1
        if law != 'uniform':
            R = reference(moment_of('lebesgue', None), 6)
            f = np.sqrt(2 / (hi - lo)) if c.symbolic is False or not isinstance(hi, int) else 1
        return X.orthonormal_polynomials(), R, (lo + hi) / 2, (hi - lo) / 2, f
    if law == 'normal':
        mu = c.real('mu', None, -3, 3)
        sg = c.real('sg', None, 0.25, 2)
        X = ts.NormalRandomVariable(mu, sg)
        if bool(mu == 0) and bool(sg == 1):
            mu, sg = 0, 1
        return (X.orthonormal_polynomials(),
                reference(normal_moment, 6), mu, sg, 1)
    if law == 'empirical':
        X = ts.EmpiricalRandomVariable(np.array(SAMPLE))
        return (X.orthonormal_polynomials(),
                reference(moment_of('kde', X), 5), 0, 1, 1)
    s = c.real('s', None, -3, 3)
    t = c.real('t', None, 0.25, 3)
    P, X = base(law)
    S = ts.ShiftedOrthonormalPolynomials(P, s, t)
    R = reference(moment_of(law, X), 5)
    f = np.sqrt(2 / (2 * t)) if law == 'lebesgue' else 1
    return S, R, s, t, f


def c_shifted(c, law, ind, n):
    P, R, s, t, f = shifted(c, law)
    x = c.real('x', (2,), -4, 4)
    z = (x - s) / t
    for k in range(n + 1):
        want = table(R, ind, z, k) / t ** k * f
        got = P.dn_polyval(k, ind, np.array(x))
        lab = 'derivative %d' % k
        c.eq(lab, got, want, tol=1e-5 * 10 ** k)
        if k == 0:
            c.eq('values', P.polyval(ind, np.array(x)), 
                 P.dn_polyval(0, ind, np.array(x)), tol=TOL)
        if k == 1:
            c.eq('d', P.d_polyval(ind, np.array(x)),
                 P.dn_polyval(1, ind, np.array(x)), tol=TOL)


def c_shifted_one(c, law):
    P, R, s, t, f = shifted(c, law)
    v, i = P.one()
    x = c.real('x', None, -4, 4)
    y = np.ravel(P.polyval([i], x))[0]
    c.eq('one', v ** 2 * y ** 2, 1, tol=1e-6)
    c.ok('positive', v > 0)
    c.ok('positive value', y > 0)
    c.ok('orthonormal', P.is_orthonormal() is True and P.ndim() == 1)


def mass_of(law, t):
    return {'lebesgue': 2 * t, 'lebesgue_ab': 2 * t,
            'weighted': 3 * sum(WEIGHTS)}.get(law, 1)


def c_shifted_moment(c, law):
    P, R, s, t, f = shifted(c, law)
    pairs = [[i, j] for i in range(4) for j in range(4)]
    c.eq('orthonormality', P.moment(np.array(pairs)),
         np.array([float(i == j) for i, j in pairs]), tol=1e-6)
    m = mass_of(law, t)
    got = P.moment(np.array([[0], [1], [3]]))
    c.eq('squared integrals', got ** 2, np.array([m, 0, 0], dtype=object),
         tol=1e-6)
    c.ok('sign', got[0] > 0)
    got = P.mean([0, 2]) ** 2 * m
    c.eq('means', got, np.array([1, 0]), tol=1e-6)
    # triple products, by the reference coefficients
    ind = [[1, 1, 0], [1, 1, 2], [2, 2, 2]]
    X = base(law)[1] if law in ('kde', 'discrete', 'weighted') else None
    mom = moment_of({'uniform': 'legendre', 'lebesgue_ab': 'lebesgue',
                     'normal': 'hermite',
                     'empirical': 'kde'}.get(law, law),
                    P.measure if law == 'empirical' else X)
    want = moments(mom, R, ind) * f
    got = P.moment(np.array(ind))
    c.eq('triple products', got, want, tol=1e-6)


def c_shifted_other(c, law, other, ind):
    P, R, s, t, f = shifted(c, law)
    Y, mom, tot = measure(c, other)

    def shifted_mom(k):
        # int ((y - s) / t)^k dY
        return sum(math.comb(k, j) * mom(j) * (-s) ** (k - j)
                   for j in range(k + 1)) * (1 / t) ** k
    want = sym_moments(shifted_mom, R, ind) * f ** len(ind[0])
    got = P.moment(np.array(ind), Y)
    c.eq('moments', got, want, tol=1e-3)


def c_shifted_random(c, law, ind, n, other):
    P, R, s, t, f = shifted(c, law)
    if other:
        lo, hi = c.real('olo', None, -3, 3), c.real('ohi', None, -3, 3)
        c.assume(hi - lo > 0.25)
        y, x = P.random(ind, n, ts.UniformRandomVariable(lo, hi))
        c.eq('draws', x, c.real('rand1', (n,)) * (hi - lo) + lo, tol=1e-6)
    else:
        y, x = P.random(ind, n)
        if law == 'uniform':
            c.eq('draws', x, s + t * (2 * c.real('rand1', (n,)) - 1),
                 tol=1e-6)
        elif law == 'normal':
            c.eq('draws', x, s + t * c.real('randn1', (n,)), tol=1e-6)
    c.ok('shapes', x.shape == (n,) and y.shape == (n, len(ind)))
    c.eq('values', y, P.polyval(ind, np.array(x)), tol=1e-4)


def c_shifted_roots(c, law, deg):
    P, R, s, t, f = shifted(c, law)
    r = P.roots(deg)
    z = (r - s) / t
    x = c.real('x', None, -2, 2)
    p = float(R[deg, deg])
    for a in z:
        p = p * (x - a)
    c.eq('factorised', p, horner(R[deg], x), tol=1e-4)


def c_shifted_domain(c, law):
    P, R, s, t, f = shifted(c, law)
    d = P.domain()
    e = P.truncated_domain() if law[0] in 'ul' else None
    if law in ('uniform', 'lebesgue', 'lebesgue_ab', 'legendre'):
        w = np.array([s - t, s + t], dtype=object)
        c.eq('domain', d, w)
        c.eq('truncated', e, w)
    elif law in ('discrete', 'weighted'):
        w = np.array([s + t * min(ATOMS), s + t * max(ATOMS)], dtype=object)
        c.eq('domain', d, w)
    else:
        c.ok('domain', d[0] == -math.inf and d[1] == math.inf)


# canonical polynomials -----------------------------------------------------
def c_canonical(c, ind, n):
    P = ts.CanonicalPolynomials()
    x = c.real('x', (2,), -4, 4)
    R = np.eye(max(ind) + 1)
    for k in range(n + 1):
        want = table(R, ind, x, k)
        if k:
            c.eq('derivative %d' % k, P.dn_polyval(k, ind, np.array(x)), want)
            D = np.zeros((len(ind), max(max(ind) - k + 1, 1)))
            for i, d in enumerate(ind):
                q = deriv(list(R[d]), k)[:D.shape[1]]
                D[i, :len(q)] = q
            c.eq('coefficients of derivative %d' % k,
                 P.dn_poly_coeff(k, ind), D)
        if k == 1:
            c.eq('d', P.d_polyval(ind, np.array(x)), want)
            if max(ind):
                c.eq('coefficients d', P.d_poly_coef(ind), D)
        if k == 0:
            c.eq('values', P.polyval(ind, np.array(x)), want)
    c.eq('coefficients', P.poly_coeff(ind), R[ind])
    v, i = P.one()
    c.eq('one', v * P.polyval([i], np.array(x)), np.ones((2, 1)))
    c.ok('flags', P.is_orthonormal() is False and
         list(P.domain()) == [-math.inf, math.inf])


def c_canonical_own(c, other, ind):
    """the measure given to the constructor is the default one"""
    Y, mom, tot = measure(c, other)
    P = ts.CanonicalPolynomials(Y)
    want = sym_moments(mom, np.eye(9), ind)
    c.eq('moments', P.moment(np.array(ind)), want, tol=1e-6)
    if len(ind[0]) == 1:
        c.eq('mean', P.mean([r[0] for r in ind]), want * (1 / tot), tol=1e-6)
    try:
        ts.CanonicalPolynomials('uniform')
        c.ok('rejected', False)
    except ValueError:
        c.ok('rejected', True)


def c_discrete_free(c, kind, n):
    """orthonormal polynomials of a finite law with free values and weights:
    orthonormality, degree and positive leading coefficient define them"""
    v = c.real('v', (n,), -2, 2)
    for i in range(n - 1):
        c.assume(v[i + 1] - v[i] > 0.5)
    w = c.real('w', (n,), 0.0625, 1)
    if kind == 'variable':
        if c.symbolic:
            c.assume(sum(w) == 1)
        else:
            w = w / sum(w)
        P = ts.DiscretePolynomials(
            ts.DiscreteRandomVariable(np.array(v), np.array(w)))
    else:
        P = ts.DiscretePolynomials(
            ts.DiscreteMeasure(np.array(v)[:, None], np.array(w)))
    y = P.polyval(range(n), np.array(v))
    for i in range(n):
        for j in range(i + 1):
            c.eq('product %d %d' % (i, j), sum(w * y[:, i] * y[:, j]),
                 float(i == j))
    c.ok('leading coefficient', y[0, 0] > 0)
    if n > 1:
        c.ok('increasing', y[1, 1] - y[0, 1] > 0)


def cases(tier):
    quick = tier == 'quick'
    out = []
    add = adder(out, time=60 if quick else 300, snap=100)
    fam = ['hermite', 'legendre', 'lebesgue', 'kde', 'discrete', 'weighted']
    D = 5 if quick else 8
    for law in fam:
        d = min(D, 4) if law in ('kde', 'discrete', 'weighted') else D
        add(c_values, law + ' ordered', law=law, ind=list(range(d + 1)),
            n=3 if quick else 4)
        add(c_values, law + ' repeated', law=law, ind=[2, 0, 3, 3], n=2)
        add(c_values, law + ' 0', law=law, ind=[0], n=2)
        add(c_values, law + ' 1', law=law, ind=[1, 0], n=3)
        add(c_scalar, law, law=law)
        add(c_one, law, law=law)
        add(c_moment, law + ' 1', law=law, ind=[[0], [1], [0], [3]])
        add(c_moment, law + ' 2', law=law,
            ind=[[i, j] for i in range(4) for j in range(4)])
        add(c_moment, law + ' pair', law=law, ind=[[2, 2]])
        add(c_moment, law + ' 3', law=law, ind=[[0, 1, 2], [1, 1, 2],
                                               [2, 2, 0], [3, 2, 1]])
        add(c_moment, law + ' 4', law=law, ind=[[0, 1, 1, 2], [1, 1, 1, 1]])
        add(c_random, law, law=law, ind=[2, 0, 1], n=3) if law in (
            'hermite', 'legendre') else None
        add(c_random_other, law, law=law, ind=[1, 3], n=2)
        for deg in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
            if deg < 5 or law not in ('kde', 'discrete', 'weighted'):
                add(c_roots, '%s %d' % (law, deg), law=law, deg=deg)
        for other in ('uniform', 'normal', 'lebesgue', 'finite', 'measure'):
            add(c_moment_other, '%s %s 1' % (law, other), law=law,
                other=other, ind=[[0], [1], [2], [4]])
            add(c_moment_other, '%s %s 2' % (law, other), law=law,
                other=other, ind=[[0, 1], [1, 1], [2, 2]])
            add(c_moment_other, '%s %s 3' % (law, other), law=law,
                other=other, ind=[[0, 1, 1], [1, 1, 2]])
    add(c_equality, 'all', opts=dict(max_paths=32))
    for law in ('uniform', 'lebesgue_ab', 'normal', 'empirical') + tuple(
            f for f in fam if f not in ('discrete', 'weighted')):
        add(c_shifted, law, law=law, ind=[2, 0, 1, 3, 3], n=2 if quick else 3)
        add(c_shifted_one, law, law=law)
        add(c_shifted_moment, law, law=law)
        add(c_shifted_domain, law, law=law)
        for deg in (2, 3):
            add(c_shifted_roots, '%s %d' % (law, deg), law=law, deg=deg)
        if law in ('uniform', 'normal', 'hermite', 'legendre'):
            add(c_shifted_random, law, law=law, ind=[1, 0, 2], n=2,
                other=False)
        if law != 'empirical':
            add(c_shifted_random, law + ' other', law=law, ind=[2, 0], n=2,
                other=True)
        if law in ('uniform', 'normal', 'lebesgue', 'lebesgue_ab'):
            for other in ('uniform', 'normal', 'lebesgue'):
                add(c_shifted_other, '%s %s' % (law, other), law=law,
                    other=other, ind=[[0, 1], [1, 1]])
                add(c_shifted_other, '%s %s 1' % (law, other), law=law,
                    other=other, ind=[[0], [1], [2]])
    add(c_canonical, 'ordered', ind=list(range(D + 1)), n=3)
    add(c_canonical, 'mixed', ind=[3, 0, 1, 1], n=4)
    add(c_canonical, 'constant', ind=[0], n=2)
    for other in ('uniform', 'normal', 'lebesgue', 'finite', 'measure'):
        for nm, ind in (('1', [[0], [1], [3]]), ('2', [[0, 1], [2, 2]]),
                        ('3', [[1, 1, 2], [0, 0, 1]])):
            add(c_moment_other, 'canonical %s %s' % (other, nm),
                law='canonical', other=other, ind=ind)
            add(c_canonical_own, '%s %s' % (other, nm), other=other, ind=ind)
    for kind in ('variable', 'measure'):
        for n in (1,) if quick else (1, 2):
            add(c_discrete_free, '%s %d' % (kind, n), kind=kind, n=n)
    return out
