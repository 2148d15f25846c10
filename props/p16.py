"""P16 - least-squares learning: solutions, cross-validation, selection."""
import contextlib
import sys
import types
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('all basis evaluations and outputs in [-4, 4] with a full-rank '
          'basis matrix: 2-4 samples, 1-3 functions, 1-2 outputs, shared or '
          'separate coefficients, all positive weights, every path of up to '
          '3 patterns, every pair of folds; scikit-learn is replaced by a '
          'solver returning any path')
OUTSIDE = ('rank-deficient problems, condition numbers above 1e12, what '
           'scikit-learn computes, rounding')


# --- reference linear algebra ------------------------------------------------
def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] *
               det([[r[k] for k in range(n) if k != j] for r in M[1:]])
               for j in range(n))


def gram(A, rows):
    P = A.shape[1]
    return [[sum(A[i, p] * A[i, q] for i in rows) for q in range(P)]
            for p in range(P)]


def ols(A, y, rows=None):
    """Cramer's rule on the normal equations of the given rows."""
    rows = range(A.shape[0]) if rows is None else rows
    P = A.shape[1]
    G = gram(A, rows)
    b = [sum(A[i, p] * y[i] for i in rows) for p in range(P)]
    d = det(G)
    return [det([[b[p] if q == k else G[p][q] for q in range(P)]
                 for p in range(P)]) / d for k in range(P)]


def inverse(G):
    n, d = len(G), det(G)
    return [[(-1) ** (i + j) * det([[G[r][s] for s in range(n) if s != i]
                                    for r in range(n) if r != j]) / d
             for j in range(n)] for i in range(n)]


def full_rank(c, A, rows=None):
    rows = range(A.shape[0]) if rows is None else rows
    c.generic(det(gram(A, rows)) != 0)


def predict(A, x, i):
    return sum(A[i, p] * x[p] for p in range(A.shape[1]))


def error2(A, y, delta, G=None, corrected=True):
    """square of the documented relative error"""
    N, P = A.shape
    e = sum(d * d for d in delta) / sum(v * v for v in y)
    if corrected and N != P:
        C = inverse(gram(A, range(N)))
        t = sum(C[i][j] * (int(i == j) if G is None else G[j, i])
                for i in range(P) for j in range(P))
        e = e * N * (1 + t) / (N - P)
    return e


def loo(c, A, y):
    N = A.shape[0]
    out = []
    for i in range(N):
        rows = [k for k in range(N) if k != i]
        out.append(y[i] - predict(A, ols(A, y, rows), i))
    return out


def model(c, A, y, solver='qr', **opts):
    m = ts.LinearModelLearningSquareLoss()
    m.basis_eval = np.array(A)
    m.training_data = [None, np.array(y)]
    m.linear_solver = solver
    for k, v in opts.items():
        setattr(m, k, v)
    return m


def intact(c, m, A, y):
    c.eq('basis evaluations unchanged', m.basis_eval, A)
    c.eq('outputs unchanged', m.training_data[1], y)


def data(c, N, P, n=None):
    A = c.real('A', (N, P), -4, 4)
    y = c.real('y', (N,) if n is None else (N, n), -4, 4)
    return A, y


# --- ordinary least squares --------------------------------------------------
def c_ols(c, N, P, solver, n=None, weighted=False, col=False):
    A, y = data(c, N, P, n)
    full_rank(c, A)
    w = c.real('w', (N,), .1, 4) if weighted else np.ones(N, dtype=int)
    m = model(c, A, y, solver)
    if weighted:
        m.weights = [v * v for v in w]
    for k in range(2):             # a second call gives the same solution
        x, out = m.solve()
        c.ok('shape', x.shape == (P,) + y.shape[1:])
        R = y - np.matmul(A, x)
        W = np.reshape(w * w, (-1,) + (1,) * (y.ndim - 1))
        c.eq('normal equations', np.matmul(A.T, W * R),
             np.zeros(x.shape, dtype=int))
    intact(c, m, A, y)


def c_shared(c, N, P, n, solver, weighted=False):
    """one set of coefficients for the n outputs"""
    A = c.real('A', (N, P, n), -4, 4)
    y = c.real('y', (N, n), -4, 4)
    B = np.array([A[i, :, k] for k in range(n) for i in range(N)])
    z = np.array([y[i, k] for k in range(n) for i in range(N)])
    full_rank(c, B)
    w = c.real('w', (N,), .1, 4) if weighted else np.ones(N, dtype=int)
    m = model(c, A, y, solver)
    if weighted:
        m.weights = [v * v for v in w]
    x, _ = m.solve()
    x = np.ravel(x)
    c.ok('size', x.size == P)
    r = [(z[k] - predict(B, x, k)) * w[k % N] ** 2 for k in range(N * n)]
    c.eq('normal equations', np.array([
        sum(B[k, p] * r[k] for k in range(N * n)) for p in range(P)]),
        np.zeros(P, dtype=int))
    intact(c, m, A, y)


def c_function(c, n):
    """with a basis: evaluation, function returned, test error"""
    H = ts.UserDefinedFunctionalBasis([lambda x: x, lambda x: x * x],
                                      ts.UniformRandomVariable(-4, 4), 1)
    x = c.real('x', (3,), -4, 4)
    t = c.real('t', (2,), -4, 4)
    A = np.array([[v, v * v] for v in x])
    y = c.real('y', (3,) if n is None else (3, n), -4, 4)
    z = c.real('z', (2,) if n is None else (2, n), -4, 4)
    full_rank(c, A)
    for k in range(n or 1):
        c.generic(sum((z if n is None else z[:, k]) ** 2) != 0)
    m = ts.LinearModelLearningSquareLoss()
    m.basis = H
    m.training_data = [np.array(x), np.array(y)]
    m.test_data = [np.array(t), np.array(z)]
    m.test_error = True
    f, out = m.solve()
    s = c.real('s', (2,), -4, 4)
    X = np.asarray(f.data).reshape((2,) + y.shape[1:])
    c.eq('normal equations', np.matmul(A.T, y - A.dot(X)),
         np.zeros(X.shape, dtype=int))
    want = np.array([[v, v * v] for v in s]).dot(X)
    got = np.asarray(f.eval(np.array(s)))
    c.eq('values', got.reshape(want.shape), want, opaque=[X])
    T = np.array([[v, v * v] for v in t]).dot(X)
    num, den = sum((T - z) ** 2), sum(z ** 2)
    c.eq('test error', np.asarray(out['test_error']) ** 2 * den,
         np.asarray(num), opaque=[X])
    c.eq('inputs unchanged', m.training_data[0], x)
    c.eq('test data unchanged', m.test_data[1], z)


# --- error estimation --------------------------------------------------------
def c_residuals(c, N, P, solver, n=None):
    A, y = data(c, N, P, n)
    full_rank(c, A)
    m = model(c, A, y, solver, error_estimation=True,
              error_estimation_type='residuals')
    Y = y[:, None] if n is None else y
    for k in range(Y.shape[1]):
        c.generic(sum(Y[:, k] ** 2) != 0)
    x, out = m.solve()
    d = y - np.matmul(A, x)
    c.eq('residuals', out['delta'], d)
    c.eq('error', np.asarray(out['error']) * sum(y ** 2),
         np.asarray(sum(d * d)))
    intact(c, m, A, y)


def c_loo(c, N, P, solver, n=None, G=False, correction=True):
    """leave-one-out errors are those of refitted models"""
    A, y = data(c, N, P, n)
    full_rank(c, A)
    for i in range(N):
        full_rank(c, A, [k for k in range(N) if k != i])
    M = c.real('G', (P, P), -1, 1) if G else None
    opt = {'correction': correction}
    if G:
        M = np.matmul(M.T, M) + np.eye(P, dtype=int)
        opt['gram_matrix'] = np.array(M)
    Y = y[:, None] if n is None else y
    for k in range(Y.shape[1]):
        c.generic(sum(Y[:, k] ** 2) != 0)
    m = model(c, A, y, solver, error_estimation=True,
              error_estimation_options=opt)
    x, out = m.solve()
    D = np.reshape(out['delta'], Y.shape)
    E = np.reshape(out['error'], -1)
    c.ok('sizes', E.size == Y.shape[1])
    for k in range(Y.shape[1]):
        want = loo(c, A, Y[:, k])
        c.eq('errors of the refitted models', D[:, k], np.array(want))
        c.eq('error', np.asarray(E[k] ** 2), np.asarray(
            error2(A, Y[:, k], D[:, k], M, correction)), opaque=[D[:, k]])
    intact(c, m, A, y)


class Folds:
    """stand-in for sklearn.model_selection.KFold"""
    folds = None

    def __init__(self, n_splits, shuffle=False, **kw):
        assert n_splits == len(Folds.folds)

    def split(self, A):
        for f in Folds.folds:
            yield (np.array([i for i in range(len(A)) if i not in f]),
                   np.array(f))


@contextlib.contextmanager
def sklearn(**attrs):
    """replace scikit-learn by the given stand-ins"""
    names = ('sklearn', 'sklearn.linear_model', 'sklearn.model_selection')
    old = {k: sys.modules.get(k) for k in names}
    mods = {k: types.ModuleType(k) for k in names}
    for k, v in attrs.items():
        setattr(mods[names[1]], k, v)
    mods[names[2]].KFold = Folds
    mods['sklearn'].linear_model = mods[names[1]]
    mods['sklearn'].model_selection = mods[names[2]]
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k in names:
            if old[k] is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = old[k]


def c_kfold(c, N, P, folds, solver, n=None):
    A, y = data(c, N, P, n)
    full_rank(c, A)
    for f in folds:
        full_rank(c, A, [k for k in range(N) if k not in f])
    Y = y[:, None] if n is None else y
    for k in range(Y.shape[1]):
        c.generic(sum(Y[:, k] ** 2) != 0)
    Folds.folds = folds
    m = model(c, A, y, solver, error_estimation=True,
              error_estimation_type='k_fold',
              error_estimation_options={'correction': False,
                                        'number_of_folds': len(folds)})
    with sklearn():
        x, out = m.solve()
    D = np.reshape(out['delta'], Y.shape)
    E = np.reshape(out['error'], -1)
    for k in range(Y.shape[1]):
        want, tot = [None] * N, 0
        for f in folds:
            r = ols(A, Y[:, k], [i for i in range(N) if i not in f])
            for i in f:
                want[i] = Y[i, k] - predict(A, r, i)
            tot = tot + sum(D[i, k] * D[i, k] for i in f) / len(f)
        c.eq('errors of the refitted models', D[:, k], np.array(want))
        c.eq('error', np.asarray(E[k] ** 2 * sum(Y[:, k] ** 2)),
             np.asarray(tot / len(folds) * N), opaque=[D[:, k]])


# --- selection of patterns ---------------------------------------------------
def select(c, A, y, pats, x, out, G=None, corrected=True):
    """x is the best of the least-squares solutions on the patterns"""
    N, P = A.shape
    k = int(out['ind'])
    c.ok('patterns', np.array_equal(np.array(out['pattern_path'], dtype=bool),
                                    np.array(pats, dtype=bool).T))
    for j, p in enumerate(pats):
        J = np.nonzero(p)[0]
        sol = out['solution_path_OLS'][:, j]
        for q in range(P):
            if q not in J:
                c.eq('zero outside the pattern', np.asarray(sol[q]),
                     np.asarray(0))
        R = [y[i] - predict(A, sol, i) for i in range(N)]
        c.eq('normal equations on the pattern', np.array(
            [sum(A[i, q] * R[i] for i in range(N)) for q in J]),
            np.zeros(len(J), dtype=int))
        d = out['delta_path'][:, j]
        B = A[:, J]
        if len(J) < N:
            c.eq('leave-one-out errors', d, np.array(loo(c, B, y)))
            c.eq('error', np.asarray(out['error_path'][j] ** 2), np.asarray(
                error2(B, y, d, None if G is None else G[np.ix_(J, J)],
                       corrected)), opaque=[d])
        else:
            c.ok('no error estimate', out['error_path'][j] == np.inf)
        c.ok('smallest error', out['error_path'][k] <= out['error_path'][j])
    c.eq('solution', x, out['solution_path_OLS'][:, k])
    c.eq('error of the solution', np.asarray(out['error']),
         np.asarray(out['error_path'][k]))
    c.eq('delta of the solution', out['delta'], out['delta_path'][:, k])
    c.ok('pattern of the solution', np.array_equal(
        np.array(out['pattern'], dtype=bool), np.array(pats[k], dtype=bool)))


def pattern_ranks(c, A, pats):
    N = A.shape[0]
    for p in pats:
        B = A[:, np.nonzero(p)[0]]
        full_rank(c, B)
        if B.shape[1] < N:
            for i in range(N):
                full_rank(c, B, [k for k in range(N) if k != i])


def c_adaptation(c, N, P, path, uniq, solver, G=False, correction=True):
    """path: matrix of columns; uniq: the distinct non-zero columns"""
    A, y = data(c, N, P)
    pattern_ranks(c, A, uniq)
    c.generic(sum(y ** 2) != 0)
    opt = {'correction': correction}
    M = None
    if G:
        M = c.real('G', (P, P), -1, 1)
        M = np.matmul(M.T, M) + np.eye(P, dtype=int)
        opt['gram_matrix'] = np.array(M)
    m = model(c, A, y, solver, basis_adaptation=True,
              error_estimation_options=opt)
    if path is not None:
        m.basis_adaptation_path = np.array(path).T
    x, out = m.solve()
    select(c, A, y, uniq, x, out, M, correction)
    intact(c, m, A, y)
    if G:
        c.eq('Gram matrix unchanged',
             m.error_estimation_options['gram_matrix'], M)


def c_outputs(c, N, P, solver):
    """several outputs with adaptation: one selection per output"""
    A, y = data(c, N, P, 2)
    uniq = [[1, 0], [1, 1]][:P]
    pattern_ranks(c, A, uniq)
    for k in range(2):
        c.generic(sum(y[:, k] ** 2) != 0)
    m = model(c, A, y, solver, basis_adaptation=True,
              error_estimation_options={'correction': False})
    x, out = m.solve()
    for k in range(2):
        select(c, A, y[:, k], uniq, x[:, k], out['outputs'][k], None, False)
        c.eq('error', np.asarray(out['error'][k]),
             np.asarray(out['outputs'][k]['error']))
    intact(c, m, A, y)


def c_regularized(c, N, P, kind, path, uniq, blocks=None):
    """any regularization path: the best pattern is refitted"""
    A, y = data(c, N, P)
    pattern_ranks(c, A, uniq)
    c.generic(sum(y ** 2) != 0)
    v = c.real('v', (P, len(path)), -4, 4, nonzero=True)
    S = np.array(path).T * v
    seen = []

    def omp(B, z, **kw):
        seen.append((np.array(B), np.array(z)))
        return np.array(S)

    class Lars:
        def __init__(self, **kw):
            self.kw = kw

        def fit(self, B, z):
            seen.append((np.array(B), np.array(z)))
            self.coef_path_ = np.array(S)
            self.coef_ = np.array(S[:, -1])

    m = model(c, A, y, 'solve', regularization=True,
              regularization_type=kind,
              error_estimation_options={'correction': False})
    if blocks:
        m.options['non_zero_blocks'] = blocks
    with sklearn(orthogonal_mp=omp, LassoLars=Lars, Ridge=Lars):
        x, out = m.solve()
    c.eq('outputs given to the solver', seen[0][1], y)
    if kind == 'l0':
        for p in range(P):
            c.eq('normalized basis given to the solver',
                 np.asarray(sum(seen[0][0][:, p] ** 2)), np.asarray(1))
            for i in range(N):
                for k in range(N):
                    c.eq('direction of the basis functions', np.asarray(
                        seen[0][0][i, p] * A[k, p]),
                        np.asarray(seen[0][0][k, p] * A[i, p]))
    else:
        c.eq('basis given to the solver', seen[0][0], A)
    select(c, A, y, uniq, x, out, None, False)
    intact(c, m, A, y)


def c_plain(c, N, P, kind):
    """without model selection: the solution of the solver"""
    A, y = data(c, N, P)
    for p in range(P):
        c.generic(sum(A[:, p] ** 2) != 0)
    S = c.real('S', (P, 2), -4, 4)

    class Reg:
        def __init__(self, **kw):
            pass

        def fit(self, B, z):
            self.coef_path_, self.coef_ = np.array(S), np.array(S[:, -1])

    m = model(c, A, y, 'solve', regularization=True, model_selection=False,
              regularization_type=kind)
    with sklearn(orthogonal_mp=lambda *a, **k: np.array(S), LassoLars=Reg,
                 Ridge=Reg):
        x, out = m.solve()
    if kind == 'l0':
        c.eq('solution', np.array([x[p] ** 2 * sum(A[:, p] ** 2)
                                   for p in range(P)]), S[:, -1] ** 2)
    else:
        c.eq('solution', x, S[:, -1])
    intact(c, m, A, y)


# --- loss functions ----------------------------------------------------------
class Fun:
    def __init__(self, v, norm=None):
        self.v, self.n = v, norm

    def eval(self, x):
        return self.v

    def norm(self):
        return self.n


def c_square(c, N, n, how):
    sh = (N,) if n is None else (N, n)
    p, y = c.real('p', sh, -4, 4), c.real('y', sh, -4, 4)
    c.generic(sum(np.ravel(y) ** 2) != 0)
    L = ts.SquareLossFunction()
    f = {'object': Fun(np.array(p)), 'callable': lambda x: np.array(p),
         'values': np.array(p)}[how]
    s = [None, np.array(y)]
    P, Y = np.reshape(p, (N, -1)), np.reshape(y, (N, -1))
    loss = [sum((P[i] - Y[i]) ** 2) for i in range(N)]
    ref = [sum(Y[i] ** 2) for i in range(N)]
    c.eq('loss', np.ravel(L.eval(f, s)), np.array(loss))
    a, b = L.eval(f, s, nargout=2)
    c.eq('loss and reference', np.array([np.ravel(a), np.ravel(b)]),
         np.array([loss, ref]))
    c.eq('risk', np.asarray(L.risk_estimation(f, s)),
         np.asarray(sum(loss) / N))
    r = L.test_error(f, s)
    c.eq('relative', np.asarray(r ** 2 * sum(ref)), np.asarray(sum(loss)))
    L.error_type = 'absolute'
    r = L.test_error(f, s)
    c.eq('absolute', np.asarray(r ** 2), np.asarray(sum(loss) / N))
    L.error_type = 'other'
    try:
        L.test_error(f, s)
        c.ok('unknown error types rejected', False)
    except ValueError:
        pass


def c_mixed(c, N):
    """predictions as a column, outputs as a vector (and conversely)"""
    p, y = c.real('p', (N,), -4, 4), c.real('y', (N,), -4, 4)
    L = ts.SquareLossFunction()
    want = [(p[i] - y[i]) ** 2 for i in range(N)]
    c.eq('column', np.ravel(L.eval(np.array(p)[:, None],
                                   [None, np.array(y)])), np.array(want))
    c.eq('row', np.ravel(L.eval(np.array(p), [None, np.array(y)[:, None]])),
         np.array(want))


def c_density(c, N):
    p, r = c.real('p', (N,), -4, 4), c.real('r', None, 0, 4)
    L = ts.DensityL2LossFunction()
    want = [r * r - 2 * v for v in p]
    c.eq('loss', L.eval(Fun(np.array(p), r), [None]), np.array(want))
    c.eq('loss of values', L.eval(np.array(p), [None], r), np.array(want))
    c.eq('risk', np.asarray(L.risk_estimation(Fun(np.array(p), r), [None])),
         np.asarray(sum(want) / N))
    c.eq('error', np.asarray(L.test_error(np.array(p), [None], r)),
         np.asarray(sum(want) / N))
    try:
        L.relative_test_error(Fun(np.array(p), r), [None])
        c.ok('relative error rejected', False)
    except NotImplementedError:
        pass


def c_custom(c, N):
    p, y = c.real('p', (N,), -4, 4), c.real('y', (N,), -4, 4)
    L = ts.CustomLossFunction(lambda a, b: (a - b) ** 2 + a)
    f, s = Fun(np.array(p)), [None, np.array(y)]
    want = (y - p) ** 2 + y
    c.eq('loss', L.eval(f, s), want)
    a, b = L.eval(f, s, nargout=2)
    c.eq('reference', b, y * y + y)
    c.eq('risk', np.asarray(L.risk_estimation(f, s)),
         np.asarray(sum(want) / N))
    c.eq('error', np.asarray(L.test_error(f, s)), np.asarray(sum(want) / N))
    L.error_function = lambda f, s: sum(s[1])
    L.relative_error_function = lambda f, s: sum(s[1]) / 2
    c.eq('given error', np.asarray(L.test_error(f, s)), np.asarray(sum(y)))
    c.eq('given relative error', np.asarray(L.relative_test_error(f, s)),
         np.asarray(sum(y) / 2))


def c_models(c):
    """the model matching each loss"""
    for L, M in ((ts.SquareLossFunction(), ts.LinearModelLearningSquareLoss),
                 (ts.DensityL2LossFunction(),
                  ts.LinearModelLearningDensityL2)):
        m = ts.Learning.linear_model(L)
        c.ok('model', isinstance(m, M))
        c.ok('loss', type(m.loss_function) is type(L))
    try:
        ts.LinearModelLearning('square')
        c.ok('losses only', False)
    except AssertionError:
        pass


def cases(tier):
    out = []
    add = adder(out, elim=True, exact_qr=True, exact_sqrt=True, generic=True)
    th = tier != 'quick'
    for s in ('qr', 'solve'):
        for N, P in ((2, 1), (3, 2), (2, 2)) + (((4, 2),) if th else ()):
            add(c_ols, '%s_%dx%d' % (s, N, P), N=N, P=P, solver=s)
        add(c_ols, '%s_out1' % s, N=3, P=2, solver=s, n=1)
        add(c_ols, '%s_out2' % s, N=3, P=2, solver=s, n=2)
        add(c_ols, '%s_weights' % s, N=3, P=2, solver=s, weighted=True)
        add(c_ols, '%s_weights2' % s, N=3, P=1, solver=s, n=2, weighted=True)
        add(c_shared, '%s_1' % s, N=3, P=2, n=1, solver=s)
        add(c_shared, '%s_2' % s, N=2, P=2, n=2, solver=s)
        add(c_shared, '%s_w' % s, N=2, P=1, n=2, solver=s, weighted=True)
        for N, P in ((2, 1), (3, 1), (3, 2)):
            add(c_residuals, '%s_%dx%d' % (s, N, P), N=N, P=P, solver=s)
            add(c_loo, '%s_%dx%d' % (s, N, P), N=N, P=P, solver=s,
                correction=s == 'qr' or P == 1)
        add(c_residuals, '%s_out2' % s, N=3, P=2, solver=s, n=2)
        add(c_loo, '%s_out1' % s, N=3, P=1, solver=s, n=1)
        add(c_loo, '%s_out2' % s, N=3, P=1, solver=s, n=2)
        add(c_loo, '%s_gram' % s, N=3, P=1, solver=s, G=True)
        if th:
            add(c_loo, '%s_out2_3x2' % s, N=3, P=2, solver=s, n=2,
                correction=s == 'qr')
            add(c_loo, '%s_gram_3x2' % s, N=3, P=2, solver=s, G=True,
                opts={'time': 400})
        add(c_loo, '%s_nocorr' % s, N=3, P=2, solver=s, correction=False)
        add(c_kfold, '%s_a' % s, N=4, P=1, folds=[[0, 2], [1, 3]], solver=s)
        add(c_kfold, '%s_b' % s, N=3, P=1, folds=[[2, 0], [1]], solver=s)
        add(c_kfold, '%s_out2' % s, N=3, P=1, folds=[[1, 0], [2]], solver=s,
            n=2)
        add(c_adaptation, '%s_nested' % s, N=3, P=2, path=None,
            uniq=[[1, 0], [1, 1]], solver=s, correction=s == 'qr')
        if s == 'solve' or th:
            add(c_adaptation, '%s_path' % s, N=3, P=2,
                path=[[0, 0], [0, 1], [1, 1], [0, 1], [1, 0]],
                uniq=[[0, 1], [1, 1], [1, 0]], solver=s, correction=False,
                opts={'time': 400})
        add(c_adaptation, '%s_gram' % s, N=2, P=2, path=[[1, 0], [0, 1]],
            uniq=[[1, 0], [0, 1]], solver=s, G=True)
        add(c_adaptation, '%s_interp' % s, N=2, P=2, path=None,
            uniq=[[1, 0], [1, 1]], solver=s)
        if s == 'solve' or th:
            add(c_outputs, s, N=3, P=2, solver=s)
    add(c_adaptation, 'wide', N=1, P=2, path=[[1, 0], [0, 1], [1, 1]],
        uniq=[[1, 0], [0, 1]], solver='qr')
    for n in (None, 1, 2):
        add(c_function, 'out%s' % n, n=n)
    for kind in ('l0', 'l1'):
        add(c_regularized, kind, N=3, P=2, kind=kind,
            path=[[0, 0], [0, 1], [1, 1]], uniq=[[0, 1], [1, 1]])
        add(c_plain, kind, N=2, P=2, kind=kind)
    add(c_regularized, 'blocks', N=3, P=2, kind='l1', blocks=[[0], [1]],
        path=[[0, 1], [1, 0], [1, 1]], uniq=[[1, 1]])
    add(c_plain, 'l2', N=2, P=2, kind='l2')
    for n in (None, 1, 2):
        for how in ('object', 'callable', 'values'):
            add(c_square, '%s_%s' % (how, n), N=2, n=n, how=how)
    add(c_mixed, '3', N=3)
    add(c_density, '2', N=2)
    add(c_custom, '2', N=2)
    add(c_models, 'all')
    return out
