"""P17 - L2 density learning: solution, leave-one-out risk, selection."""
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('all basis evaluations in [-4, 4] and reference coefficients in '
          '[-4, 4]: 2-4 samples, 1-3 functions, every adaptation path of up to '
          '4 patterns, every order of the coefficients for regularization')
OUTSIDE = 'bases that are not orthonormal (refused), rounding'


def model(A, b, cube=False, **opts):
    m = ts.LinearModelLearningDensityL2()
    m.basis_eval = np.array(A)[:, :, None] if cube else np.array(A)
    m.training_data = [None] if b is None else [None, np.array(b)]
    m.error_estimation = True
    for k, v in opts.items():
        setattr(m, k, v)
    return m


def draw(c, N, P, ref):
    A = c.real('A', (N, P), -4, 4)
    return A, (c.real('b', (P,), -4, 4) if ref else None)


def density(A, b, J):
    """minimizer of the empirical risk on the functions J"""
    N, P = A.shape
    return [sum(A[i, p] for i in range(N)) / N - (0 if b is None else b[p])
            if p in J else 0 for p in range(P)]


def risk_loo(A, b, J):
    """mean over the samples of the loss of the refitted densities"""
    N, P = A.shape
    tot = 0
    for i in range(N):
        B = np.array([A[k] for k in range(N) if k != i])
        x = density(B, b, J)
        for p in J:
            tot = tot + x[p] * x[p] - 2 * A[i, p] * x[p] + (
                0 if b is None else 2 * b[p] * x[p])
    return tot / N


def intact(c, m, A, b, cube=False):
    c.eq('basis evaluations unchanged', m.basis_eval,
         A[:, :, None] if cube else A)
    if b is not None:
        c.eq('reference unchanged', m.training_data[1], b)


def c_standard(c, N, P, ref, cube=False):
    A, b = draw(c, N, P, ref)
    m = model(A, b, cube)
    for k in range(2):
        x, out = m.solve()
        c.eq('solution', x, np.array(density(A, b, range(P))))
        c.eq('error', np.asarray(out['error']),
             np.asarray(risk_loo(A, b, range(P))))
    intact(c, m, A, b, cube)


def c_minimum(c, N, P):
    """no density has a smaller empirical risk"""
    A, _ = draw(c, N, P, False)
    x, _ = model(A, None).solve()
    y = c.real('y', (P,), -4, 4)
    L = ts.DensityL2LossFunction()

    class F:
        def __init__(self, u):
            self.u = u

        def eval(self, z):
            return A.dot(self.u)

        def norm(self):
            return np.linalg.norm(self.u)
    a = L.risk_estimation(F(x), [None])
    r = L.risk_estimation(F(y), [None])
    # the difference is the squared distance
    c.eq('risk', np.asarray(r - a), np.asarray(sum((y - x) ** 2)))


def chosen(c, A, b, x, out, pats):
    k = int(out['ind'])
    for j, J in enumerate(pats):
        J = list(J)
        c.eq('error of a pattern', np.asarray(out['error_path'][j]),
             np.asarray(risk_loo(A, b, J)))
        c.eq('solution on a pattern', out['solution_path'][:, j],
             np.array(density(A, b, J)))
        c.ok('smallest error', out['error_path'][k] <= out['error_path'][j])
    c.ok('number of patterns', len(out['error_path']) == len(pats))
    c.eq('solution', x, np.array(density(A, b, list(pats[k]))))
    c.eq('optimal solution', out['optimal_solution'], x)
    c.eq('error', np.asarray(out['error']), np.asarray(out['error_path'][k]))
    for p in range(A.shape[1]):
        c.ok('pattern', bool(out['pattern'][p]) == bool(
            out['pattern_path'][p, k]))
        c.ok('pattern zero', p in pats[k] or not out['pattern'][p])


def c_adaptation(c, N, P, path, uniq, ref, cube=False, data='bool'):
    """path: patterns given (None: default); uniq: those explored"""
    A, b = draw(c, N, P, ref)
    m = model(A, b, cube, basis_adaptation=True)
    if path is not None:
        M = np.array([[p in J for J in path] for p in range(P)])
        m.basis_adaptation_path = M if data == 'bool' else M * 2.5
    x, out = m.solve()
    chosen(c, A, b, x, out, uniq)
    intact(c, m, A, b, cube)


def c_stop(c):
    """stop_if_error_increase: among the patterns before the increase"""
    A, b = draw(c, 2, 3, False)
    uniq = [[0], [1], [2], [0, 1]]
    m = model(A, b, basis_adaptation=True)
    m.basis_adaptation_path = np.array(
        [[p in J for J in uniq] for p in range(3)])
    m.model_selection_options = {'stop_if_error_increase': True}
    x, out = m.solve()
    e, k = out['error_path'], int(out['ind'])
    for j in range(3):
        c.eq('error of a pattern', np.asarray(e[j]),
             np.asarray(risk_loo(A, b, uniq[j])))
    seen = 3 if bool(e[2] > 2 * e[1]) else 4
    if seen == 4:
        c.eq('last error', np.asarray(e[3]),
             np.asarray(risk_loo(A, b, uniq[3])))
    c.ok('before the increase', k < seen)
    for j in range(seen):
        c.ok('smallest', e[k] <= e[j])
    c.eq('solution', x, np.array(density(A, b, uniq[k])))


def c_regularized(c, N, P, ref, incl=None):
    A, b = draw(c, N, P, ref)
    s = density(A, b, range(P))
    for v in s:
        c.assume(v != 0)
    m = model(A, b, regularization=True)
    if incl:
        m.regularization_options = {'included_coefficients': list(incl)}
    x, out = m.solve()
    n = len(out['error_path'])
    inc = list(incl or [])
    c.ok('number of patterns', n == P - len(inc) + bool(inc))
    pats, prev = [], None
    for j in range(n):
        J = [p for p in range(P) if bool(out['pattern_path'][p, j])]
        pats.append(J)
        c.eq('solution of the path', out['solution_path'][:, j],
             np.array(density(A, b, J)))
        for p in inc:
            c.ok('included', p in J)
        # the coefficients kept are the largest
        for p in J:
            for q in range(P):
                if q not in J and p not in inc and q not in inc:
                    c.ok('largest kept', s[p] * s[p] >= s[q] * s[q])
        c.ok('nested', prev is None or set(prev) <= set(J))
        prev = J
    chosen_reg(c, A, b, x, out, pats, s)
    intact(c, m, A, b)


def chosen_reg(c, A, b, x, out, pats, s):
    k = int(out['ind'])
    for j, J in enumerate(pats):
        c.ok('smallest error', out['error_path'][k] <= out['error_path'][j])
        c.eq('error of a pattern', np.asarray(out['error_path'][j]),
             np.asarray(risk_loo(A, b, J)))
    c.eq('solution', x, np.array(density(A, b, pats[k])))
    c.eq('error', np.asarray(out['error']), np.asarray(out['error_path'][k]))


def c_all_included(c, P):
    A, b = draw(c, 2, P, True)
    m = model(A, b, regularization=True)
    m.regularization_options = {'included_coefficients': list(range(P))}
    x, out = m.solve()
    c.eq('solution', x, np.array(density(A, b, range(P))))


def c_function(c):
    """with a basis: function returned, test error"""
    H = ts.UserDefinedFunctionalBasis(
        [lambda x: x, lambda x: x * x], ts.UniformRandomVariable(-4, 4), 1)
    x, t = c.real('x', (3,), -4, 4), c.real('t', (2,), -4, 4)
    m = ts.LinearModelLearningDensityL2()
    m.basis = H
    m.training_data = [np.array(x)]
    m.test_data = [np.array(t)]
    m.test_error = True
    f, out = m.solve()
    A = np.array([[v, v * v] for v in x])
    X = density(A, None, (0, 1))
    s = c.real('s', (2,), -4, 4)
    c.eq('values', np.ravel(f.eval(np.array(s))),
         np.array([v * X[0] + v * v * X[1] for v in s]))
    want = X[0] * X[0] + X[1] * X[1] - sum(
        v * X[0] + v * v * X[1] for v in t)
    c.eq('test error', np.asarray(out['test_error']), np.asarray(want))
    c.eq('samples unchanged', m.training_data[0], x)


def c_refuse(c):
    A, b = draw(c, 2, 2, False)
    m = model(A, b, is_basis_orthonormal=False)
    try:
        m.solve()
        c.ok('refused', False)
    except AssertionError:
        pass


def cases(tier):
    out = []
    add = adder(out, linear=True, exact_sqrt=True, snap=1000, feas_ms=300)
    th = tier != 'quick'
    for ref in (False, True):
        r = 'ref' if ref else 'plain'
        for N, P in ((2, 1), (2, 2), (3, 2), (4, 3)):
            add(c_standard, '%s_%dx%d' % (r, N, P), N=N, P=P, ref=ref)
        add(c_standard, r + '_cube', N=3, P=2, ref=ref, cube=True)
        add(c_adaptation, r + '_nested', N=3, P=2, path=None,
            uniq=[[0], [0, 1]], ref=ref)
        add(c_adaptation, r + '_nested3', N=3, P=3, path=None,
            uniq=[[0], [0, 1], [0, 1, 2]], ref=ref)
        add(c_adaptation, r + '_path', N=2, P=3,
            path=[[], [2], [0, 2], [2], [0, 1, 2], [1]],
            uniq=[[2], [0, 2], [1]], ref=ref)
        add(c_adaptation, r + '_values', N=2, P=2, path=[[1], [0], [0]],
            uniq=[[1], [0]], ref=ref, data='real', cube=True)
        add(c_regularized, r + '_2', N=2, P=2, ref=ref)
        add(c_regularized, r + '_incl', N=2, P=3, ref=ref, incl=[1])
        add(c_regularized, r + '_incl2', N=2, P=3, ref=ref, incl=[2, 0])
        if th:
            add(c_regularized, r + '_3', N=3, P=3, ref=ref,
                opts={'time': 800})
            add(c_adaptation, r + '_4', N=4, P=4,
                path=[[3], [3, 1], [0, 1, 3], [0, 1, 2, 3], [0]],
                uniq=[[3], [3, 1], [0, 1, 3], [0, 1, 2, 3], [0]], ref=ref,
                opts={'time': 400})
    add(c_minimum, '2', N=3, P=2)
    add(c_stop, '4')
    add(c_all_included, '2', P=2)
    add(c_function, '2')
    add(c_refuse, 'basis')
    return out
