"""P18 - model selection: penalized risk, path of models, slope heuristic."""
import numpy as np
import tensap as ts
from .common import adder

BOUNDS = ('all risks and penalizations of 1-3 models (thorough: 4) for every '
          'given order and multiplicity of the complexities, every '
          'penalization shape (any values at the complexities), all gap '
          'factors; tree tensors of order 2-4 with ranks 1-3')
OUTSIDE = 'negative complexities, rounding'


def setup(c, comp, increasing=True):
    """risks, and the penalization of each complexity"""
    n = len(comp)
    r = c.real('r', (n,), 0, 4)
    levels = sorted(set(comp))
    p = c.real('p', (len(levels),), 0, 4)
    for a, b in zip(p[:-1], p[1:]):
        c.assume(a < b if increasing else a != b)
    table = dict(zip(levels, p))
    m = ts.ModelSelection()
    m.data = {'complexity': list(comp), 'empirical_risk': list(r)}

    def shape(x):
        if np.ndim(x) == 0:
            return table[int(x)]
        return np.array([table[int(v)] for v in x])
    m.pen_shape = shape
    return m, r, np.array([table[k] for k in comp])


def optimal(c, label, k, r, p, lam):
    for j in range(len(r)):
        gap = r[j] + lam * p[j] - (r[k] + lam * p[k])
        c.ok(label, gap >= (0 if c.symbolic else -1e-9))  # replays round


def c_minimum(c, comp):
    m, r, p = setup(c, comp)
    lam = c.real('l', (2,), 0, 4)
    k = m.m_lambda(lam)
    c.ok('one model for each value', k.shape == (2,))
    for i in range(2):
        optimal(c, 'smallest penalized risk', int(k[i]), r, p, lam[i])
    k = m.m_lambda(lam[0])
    optimal(c, 'smallest penalized risk', int(k[0]), r, p, lam[0])
    k = m.m_lambda(0)
    optimal(c, 'smallest risk', int(k[0]), r, p, 0)


def c_path(c, comp, increasing=True):
    m, r, p = setup(c, comp, increasing)
    path, mp = m.lambda_path()
    n = len(path)
    c.ok('one model for each value', np.shape(path) == np.shape(mp) and n > 0)
    ks = [int(k) for k in mp]
    # the model with no penalization
    optimal(c, 'smallest risk', ks[0], r, p, 0)
    if n == 1:
        c.ok('no penalization', path[0] == 0)
        for j in range(len(r)):
            c.ok('best for every penalization', p[ks[0]] <= p[j])
        return
    for i in range(n):
        c.ok('positive', path[i] > 0)
        if i:
            c.ok('increasing', path[i - 1] < path[i])
        # optimal on both ends of the interval, hence inside
        optimal(c, 'optimal from its value', ks[i], r, p, path[i])
        if i + 1 < n:
            optimal(c, 'optimal until the next value', ks[i], r, p,
                    path[i + 1])
    for j in range(len(r)):
        c.ok('optimal for ever', p[ks[-1]] <= p[j])
    for i in range(1, n - 1):
        c.ok('models change', p[ks[i]] < p[ks[i - 1]])


def c_slope(c, comp):
    m, r, p = setup(c, comp)
    g = c.real('g', None, 1, 4)
    m.gap_factor = g
    lam, k, path, mp = m.slope_heuristic()
    k = int(np.ravel(k)[0])
    optimal(c, 'model of the selected value', k, r, p, lam)
    n = np.size(path)
    if n == 1:
        c.ok('no penalization', lam == 0)
        for j in range(len(r)):
            c.ok('best for every penalization', p[k] <= p[j])
        return
    ks = [int(v) for v in mp]
    # selected value: gap factor times that of the largest jump
    jumps = [comp[ks[i]] - comp[ks[i + 1]] for i in range(n - 2)]
    c.eq('value of the largest jump', np.asarray(lam), np.asarray(
        g * path[int(np.argmax(jumps)) + 1]))


def c_given(c, comp):
    """path given by the caller"""
    m, r, p = setup(c, comp)
    path, mp = m.lambda_path()
    lam, k, a, b = m.slope_heuristic(path, mp)
    lam2, k2, _, _ = m.slope_heuristic()
    c.eq('value', np.asarray(lam), np.asarray(lam2))
    c.ok('model', int(np.ravel(k)[0]) == int(np.ravel(k2)[0]))


def c_equal(c, n):
    m = ts.ModelSelection()
    r = c.real('r', (n,), 0, 4)
    m.data = {'complexity': [7] * n, 'empirical_risk': list(r)}
    lam, k, path, mp = m.slope_heuristic()
    c.ok('first model', lam == 0 and k == 0)


def c_default(c, n):
    """identity penalization, integer complexities"""
    m = ts.ModelSelection()
    comp = c.int('c', (n,), 1, 9)
    r = c.real('r', (n,), 0, 4)
    m.data = {'complexity': list(comp), 'empirical_risk': list(r)}
    lam = c.real('l', None, 0, 4)
    k = m.m_lambda(lam)
    optimal(c, 'smallest penalized risk', int(k[0]), r, comp, lam)


# --- complexities --------------------------------------------------------------
TREES = {'balanced3': (lambda: ts.DimensionTree.balanced(3), 3),
         'balanced4': (lambda: ts.DimensionTree.balanced(4), 4),
         'linear3': (lambda: ts.DimensionTree.linear(3), 3),
         'trivial2': (lambda: ts.DimensionTree.trivial(2), 2)}


def tree_tensor(c, kind, sizes, ranks, inactive=()):
    T, d = TREES[kind][0](), TREES[kind][1]
    inactive = [int(T.dim2ind[i]) for i in inactive]
    act = np.full(T.nb_nodes, True)
    leaf = {int(T.dim2ind[i]): i for i in range(d)}
    for nod in inactive:
        act[nod - 1] = False
    R = {}
    for nod in range(1, T.nb_nodes + 1):
        if nod == T.root:
            R[nod] = 1
        elif not act[nod - 1]:
            R[nod] = sizes[leaf[nod]]
        else:
            R[nod] = ranks[nod % len(ranks)]
    tens = []
    for nod in range(1, T.nb_nodes + 1):
        if not act[nod - 1]:
            tens.append([])
            continue
        if nod in leaf:
            s = (sizes[leaf[nod]], R[nod])
        else:
            s = tuple(R[int(k)] for k in T.children(nod))
            if nod != T.root:
                s += (R[nod],)
        tens.append(c.real('t%d' % nod, s, -4, 4))
    return ts.TreeBasedTensor(
        [ts.FullTensor(np.array(t)) if len(t) else t for t in tens], T), \
        tens, R, T


def c_complexity(c, kind, sizes, ranks, inactive=()):
    x, tens, R, T = tree_tensor(c, kind, sizes, ranks, inactive)
    sto = sum(t.size for t in tens if len(t))
    C = ts.ModelSelection.complexity
    c.ok('number of parameters', C(x) == sto)
    c.ok('several', C([x, x]) == [sto, sto])
    # entries that are not zero
    nz = sum(int(bool(v != 0)) for t in tens if len(t) for v in t.flat) \
        if len(tens) <= 3 and sto <= 6 else None
    if nz is not None:
        c.ok('number of non-zero parameters', C(x, 'sparse_storage') == nz)
    act = [n for n in R if len(tens[n - 1])]
    rk = [R[n] for n in R]
    q = ts.ModelSelection.complexity_tree_based_tensor
    if not inactive:
        c.ok('orbits', q(x, c_type='grassman') == sto - sum(k * k for k in rk))
        c.ok('frames', q(x, c_type='stiefel') == sto - sum(
            k * (k + 1) / 2 for k in rk))
    H = ts.FunctionalBases([ts.PolynomialFunctionalBasis(
        ts.LegendrePolynomials(), range(n)) for n in sizes])
    f = ts.FunctionalTensor(x, H)
    c.ok('functional tensor', C(f) == sto and C([f]) == [sto])
    for bad in (lambda: q(x, c_type='other'), lambda: C('x')):
        try:
            bad()
            c.ok('rejected', False)
        except ValueError:
            pass


def c_array(c, n, m):
    H = ts.PolynomialFunctionalBasis(ts.LegendrePolynomials(), range(n))
    a = c.real('a', (n, m), -4, 4)
    f = ts.FunctionalBasisArray(np.array(a), H, m)
    c.ok('parameters', ts.ModelSelection.complexity(f) == n * m)
    c.ok('storage', ts.ModelSelection.complexity_functional_basis_array(
        f) == n * m)


def cases(tier):
    out = []
    add = adder(out, elim=True, feas_ms=500)
    th = tier != 'quick'
    comps = [(4,), (2, 1), (1, 3), (2, 2), (3, 2, 1), (1, 3, 2), (2, 1, 2),
             (1, 1, 3), (5, 1, 1)]
    if th:
        comps += [(1, 2, 3), (2, 3, 1), (4, 3, 2, 1), (2, 4, 1, 3),
                  (2, 1, 2, 1)]
    for k in comps:
        s = '-'.join(map(str, k))
        add(c_minimum, s, comp=k)
        add(c_path, s, comp=k)
        add(c_slope, s, comp=k) if len(set(k)) > 1 else None
    add(c_path, 'shape_2', comp=(1, 2), increasing=False)
    add(c_path, 'shape_3', comp=(2, 1, 3), increasing=False)
    add(c_given, '3', comp=(3, 1, 2))
    add(c_equal, '3', n=3)
    add(c_default, '3', n=3)
    for kind, sizes, ranks, ina in (
            ('trivial2', (2, 1), (1,), ()), ('trivial2', (2, 3), (2, 1), (1,)),
            ('balanced3', (2, 3, 2), (2, 1), ()), ('linear3', (2, 2, 3),
                                                   (2,), (2,)),
            ('balanced4', (2, 1, 2, 3), (2, 1, 3), ())):
        add(c_complexity, '%s_%s_%s' % (kind, '-'.join(map(str, sizes)),
                                        len(ina)), kind=kind, sizes=sizes,
            ranks=ranks, inactive=ina)
    for n, m in ((3, 1), (2, 3)):
        add(c_array, '%d-%d' % (n, m), n=n, m=m)
    return out
