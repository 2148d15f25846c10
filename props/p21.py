"""P21 - tensor learning: local problems, solver loops, ranks."""
import random
import numpy as np
import tensap as ts
from tensap.approximation.tensor_approximation.tensor_learning import \
    tree_based_tensor_learning as tbl
from .common import adder, tree, sym_tree_tensor, ref_full

BOUNDS = ('trees and canonical tensors of orders 2 and 3 with ranks and '
          'dimensions up to 2, 2 samples, every active set listed; up to 4 '
          'iterations with free errors and stagnations; trees of up to 7 nodes '
          'for ranks; all outcomes of the random choices')
OUTSIDE = ('convergence, inner rank adaptation (dmrg), tree adaptation, density '
           'losses, basis adaptation at internal nodes, larger ranks, rounding')


def contract(F, H):
    """sum_i F[i1, i2, ...] H1[n, i1] H2[n, i2] ... for each sample n"""
    d, N = len(H), H[0].shape[0]
    out = []
    for n in range(N):
        t = np.asarray(F)
        for k in range(d):
            t = np.tensordot(H[k][n], t, ([0], [0]))
        out.append(np.asarray(t))
    return np.array(out) if out[0].ndim else np.array(
        [o[()] for o in out], dtype=object)


def ref_canonical(core, space, H):
    N, r = H[0].shape[0], len(core)
    out = []
    for n in range(N):
        s = 0
        for k in range(r):
            p = core[k]
            for h, u in zip(H, space):
                p = p * sum(h[n, i] * u[i, k] for i in range(u.shape[0]))
            s = s + p
        out.append(s)
    return np.array(out, dtype=object)


def evals(c, shape, N=2):
    return [c.real('H%d' % k, (N, n), -2, 2) for k, n in enumerate(shape)]


def num(c, a):
    return a if c.symbolic else np.asarray(a, dtype=float)


# --- local problems --------------------------------------------------------------
def learner(c, tr, inactive, ranks, shape, outs, H, cls=None):
    active = np.full(tr.nb_nodes, True)
    for k in inactive:
        active[tr.dim2ind[k] - 1] = False
    s = (cls or ts.TreeBasedTensorLearning)(tr, active, ts.SquareLossFunction())
    s.display = False
    s.bases_eval = H
    s.rank = np.where(active, ranks, 0)
    s.rank[tr.root - 1] = outs
    s.output_dimension = outs
    s._warnings = {k: False for k in s._warnings}
    return s, active


def c_tree(c, kind, mu, ranks, shape, inactive=(), outs=1):
    """the local problem at a node is the function of the node's parameter"""
    tr = tree(kind, len(shape))
    H = evals(c, shape)
    s, active = learner(c, tr, inactive, ranks, shape, outs, H)
    N = H[0].shape[0]
    y = c.real('y', (N,) if outs == 1 else (N, outs), -2, 2)
    s.training_data = [None, y]
    s.linear_model_learning = [
        ts.LinearModelLearningSquareLoss() for _ in range(tr.nb_nodes)]
    t = sym_tree_tensor(c, 't', tr, ranks, shape, inactive, outs)
    f = ts.FunctionalTensor(t, [np.array(h) for h in H])
    s, A, b, f = s.prepare_alternating_minimization_system(f, mu)
    c.eq('right-hand side', b, y)
    c.ok('shared coefficients', bool(
        s.linear_model_learning[mu - 1].shared_coefficients) ==
        (mu != tr.root))
    core = np.asarray(f.tensor.tensors[mu - 1].data)
    want = contract(ref_full(f.tensor), H)

    def model(coef):
        """predictions of the linear model with these coefficients"""
        if mu == tr.root or A.ndim == 2:
            return np.matmul(A, coef)
        p = np.stack([np.matmul(A[:, :, k], coef)
                      for k in range(A.shape[2])], 1)
        return p if outs > 1 else p[:, 0]
    x = core.reshape((-1,), order='F') if mu != tr.root or outs == 1 else \
        core.reshape((-1, outs), order='F')
    c.eq('evaluations from the current parameter', model(x), want)
    g = s.linear_model_learning[mu - 1].initial_guess
    c.eq('initial guess', np.ravel(g, order='F'), np.ravel(x, order='F'))
    z = c.real('z', x.shape, -2, 2)
    f = s.set_parameter(f, mu, np.array(z))
    c.eq('evaluations from a new parameter', contract(
        ref_full(f.tensor), H), model(z))


def c_canonical(c, shape, r, mu, one=False, fresh=True):
    d, H = len(shape), evals(c, shape)
    s = ts.CanonicalTensorLearning(d, ts.SquareLossFunction())
    s.display, s.bases_eval, s.rank = False, H, r
    y = c.real('y', (2,), -2, 2)
    s.training_data = [None, y]
    loops = 2
    if one:
        s.alternating_minimization_parameters['one_by_one_factor'] = True
        s.alternating_minimization_parameters['inner_loops'] = loops
    s.initialization_type = 'initial_guess'
    s.truncate_initialization = False
    t = ts.CanonicalTensor([c.real('u%d' % k, (n, r), -2, 2)
                            for k, n in enumerate(shape)],
                           c.real('core', (r,), -2, 2))
    s.initial_guess = t
    s, t = s.initialize()
    last = d * r * loops + 1 if one else d + 1
    c.ok('parameters', list(s._exploration_strategy) ==
         list(range(1, last + 1)))
    s.linear_model_learning = [
        ts.LinearModelLearningSquareLoss() for _ in range(last)]
    f = ts.FunctionalTensor(t, [np.array(h) for h in H])
    mu = last if mu is None else mu
    s, A, b, f = s.prepare_alternating_minimization_system(f, mu)
    z = c.real('z', (A.shape[1],), -2, 2)
    for v in z:
        c.assume(v != 0)
    core, space = np.array(f.tensor.core.data), [
        np.array(u) for u in f.tensor.space]
    z0 = np.array(z)
    f = s.set_parameter(f, mu, np.array(z))
    got = ref_canonical(f.tensor.core.data, f.tensor.space, H)
    c.eq('evaluations from a new parameter', got - (y - b),
         np.matmul(A, z0))
    k = (mu - 1) // (loops * r) if one else mu - 1
    for q in range(d):
        if q != k:
            c.eq('other factors unchanged', f.tensor.space[q], space[q])
    if mu == last:
        c.eq('core', np.ravel(f.tensor.core.data), z0)
    else:
        w = f.tensor.space[k]
        i = (mu - 1) % r
        for j in range(r):
            if one and j != i:
                c.eq('other terms unchanged', w[:, j], space[k][:, j])
                c.eq('other coefficients unchanged',
                     np.asarray(f.tensor.core.data[j]), np.asarray(core[j]))
            else:
                c.eq('unit norm', np.asarray(sum(w[:, j] ** 2)),
                     np.asarray(1))


def c_mask(c, kind, node, ranks, inactive=()):
    """patterns of the bases are those of the columns of the local problem"""
    n, m, d = 2, 2, len(tree(kind).dim2ind)
    tr = tree(kind)
    s, active = learner(c, tr, inactive, 1, None, 1, None)
    pat = [c.int('p%d' % k, (n, m), 0, 1) if k in inactive or
           int(tr.dim2ind[k]) == node else np.ones((n, m), dtype=int)
           for k in range(d)]
    pat = [np.array([[int(v) for v in r] for r in p]) for p in pat]
    s.bases_adaptation_path = pat
    s.is_active_node = active
    rk = np.where(active, ranks, 0)
    p = np.asarray(s.create_basis_adaptation_path(rk, node))
    dim = {int(x): k for k, x in enumerate(tr.dim2ind)}
    sizes, own = [], []
    if node in dim:
        sizes, own = [n], [pat[dim[node]]]
    else:
        for q in tr.children(node):
            q = int(q)
            if q in dim and dim[q] in inactive:
                sizes.append(n)
                own.append(pat[dim[q]])
            else:
                sizes.append(int(rk[q - 1]))
                own.append(None)
    sizes.append(1 if node == tr.root else int(rk[node - 1]))
    own.append(None)
    if all(o is None for o in own):
        c.ok('all', p.all() and p.shape[0] == np.prod(sizes))
        return
    c.ok('rows', p.shape[0] == int(np.prod(sizes)))
    seen = [k for k, o in enumerate(own) if o is not None]
    want = set()
    for J in np.ndindex(*[m] * len(seen)):
        want.add(tuple(bool(all(own[k][I[::-1][k], J[a]]
                                for a, k in enumerate(seen)))
                       for I in np.ndindex(*sizes[::-1])))
    c.ok('patterns', set(tuple(bool(v) for v in q) for q in p.T) == want)


# --- initialization ----------------------------------------------------------------
def c_mean(c, fmt, kind, inactive, shape, bases):
    d = len(shape)
    y = c.real('y', (2,), -2, 2)
    if bases:
        H = None
        b = ts.FunctionalBases([ts.PolynomialFunctionalBasis(
            ts.LegendrePolynomials(), range(n)) for n in shape])
        x = np.array([[.5] * d, [1.] * d])
        E = b.eval(x)
        means = b.mean()
    else:
        E = evals(c, shape)
        b = None
        means = [np.array([(h[0, i] + h[1, i]) / 2
                           for i in range(h.shape[1])]) for h in E]
    if fmt == 'canonical':
        s = ts.CanonicalTensorLearning(d, ts.SquareLossFunction())
        s.truncate_initialization = False
    else:
        s, _ = learner(c, tree(kind, d), inactive, 1, shape, 1, E)
    s.initialization_type, s.bases, s.bases_eval = 'mean', b, E
    s.training_data = [None, y]
    s.display = False
    s, t = s.initialize()
    F = ref_full(t) if fmt != 'canonical' else None
    if F is None:
        F = np.zeros(shape, dtype=object)
        for i in np.ndindex(*shape):
            F[i] = t.core.data[0]
            for k in range(d):
                F[i] = F[i] * t.space[k][i[k], 0]
    want = np.zeros(shape, dtype=object)
    for i in np.ndindex(*shape):
        want[i] = (y[0] + y[1]) / 2
        for k in range(d):
            want[i] = want[i] * means[k][i[k]]
    c.eq('mean of the outputs times means of the bases', F, num(c, want))


def c_random_enrichment(c, kind, ranks, shape, inactive=()):
    """enrichment of any set of edges"""
    tr = tree(kind, len(shape))
    t = sym_tree_tensor(c, 't', tr, ranks, shape, inactive)
    old = [np.array(x.data) for x in t.tensors]
    rk = np.array([int(r) for r in t.ranks])
    new = np.array(rk)
    for nod in range(1, tr.nb_nodes + 1):
        if nod != tr.root and rk[nod - 1] > 0:
            new[nod - 1] += int(c.int('e%d' % nod, None, 0, 1))
    t = ts.TreeBasedTensorLearning.enriched_edges_to_ranks_random(t, new)
    c.ok('ranks', [int(r) for r in t.ranks] == [int(r) for r in new])
    dim = {int(x): k for k, x in enumerate(tr.dim2ind)}
    for nod in range(1, tr.nb_nodes + 1):
        if rk[nod - 1] == 0:
            continue
        sh = [shape[dim[nod]]] if nod in dim else [
            int(new[q - 1]) or shape[dim[int(q)]] for q in tr.children(nod)]
        if nod != tr.root:
            sh.append(int(new[nod - 1]))
        data = np.asarray(t.tensors[nod - 1].data)
        c.ok('shape of the core', data.shape == tuple(sh))
        if all(int(new[q - 1]) == int(rk[q - 1]) for q in [nod] + list(
                tr.children(nod))):
            c.eq('other cores unchanged', data, old[nod - 1])


def admissible(tr, rk, shape, inactive, leaf_ok=True):
    """no rank exceeds the product of the ranks of the other edges"""
    rk = list(rk)
    rk[tr.root - 1] = 1
    dim = {int(x): k for k, x in enumerate(tr.dim2ind)}

    def size(q):
        return shape[dim[q]] if q in dim and dim[q] in inactive else rk[q - 1]
    for nod in range(1, tr.nb_nodes + 1):
        if nod in dim:
            if dim[nod] not in inactive and rk[nod - 1] > shape[dim[nod]]:
                return False
            continue
        ch = [int(q) for q in tr.children(nod)]
        edges = [rk[nod - 1]] + [size(q) for q in ch]
        for k, e in enumerate(edges):
            if k and ch[k - 1] in dim and dim[ch[k - 1]] in inactive:
                continue
            if e > np.prod([x for j, x in enumerate(edges) if j != k]):
                return False
    return True


class Shuffler:
    """outcomes of random.shuffle as draws of the scenario"""

    def __init__(self, c):
        self.c = c

    def shuffle(self, a):
        left, out = list(a), []
        Shuffler.n += 1
        while left:
            k = int(self.c.int('sh%d_%d' % (Shuffler.n, len(left)), None, 0,
                               len(left) - 1)) if len(left) > 1 and \
                Shuffler.n <= 2 else 0
            out.append(left.pop(k))
        a[:] = out

    def __enter__(self):
        Shuffler.n = 0
        self.old = random.shuffle, getattr(tbl, 'shuffle', None)
        random.shuffle = self.shuffle
        if self.old[1] is not None:
            tbl.shuffle = self.shuffle

    def __exit__(self, *a):
        random.shuffle = self.old[0]
        if self.old[1] is not None:
            tbl.shuffle = self.old[1]


def small_tensor(tr, ranks, shape, inactive):
    active = np.full(tr.nb_nodes, True)
    for k in inactive:
        active[tr.dim2ind[k] - 1] = False
    rk = np.where(active, ranks, 0)
    rk[tr.root - 1] = 1
    t = ts.TreeBasedTensor.ones(tr, rk, shape, active)
    return t, rk, active


def c_admissible(c, kind, shape, inactive=(), ranks=1, up=1):
    tr = tree(kind, len(shape))
    t, rk, active = small_tensor(tr, ranks, shape, inactive)
    nodes = [n for n in range(1, tr.nb_nodes + 1)
             if active[n - 1] and n != tr.root]
    req = np.array(rk)
    for n in nodes:
        req[n - 1] += int(c.int('e%d' % n, None, 0, up))
    dim = {int(x): k for k, x in enumerate(tr.dim2ind)}
    lim = [min(int(r), shape[dim[n]]) if n in dim and active[n - 1] else int(r)
           for n, r in zip(range(1, tr.nb_nodes + 1), req)]
    c.ok('is_admissible_rank', bool(t.is_admissible_rank(np.array(req))) ==
         admissible(tr, req, shape, inactive))
    with Shuffler(c):
        out, d = ts.TreeBasedTensorLearning.make_ranks_admissible(
            t, np.array(req))
    out = [int(r) for r in out]
    c.ok('admissible', admissible(tr, out, shape, inactive))
    moved = [i for i in range(len(out)) if lim[i] != rk[i]]
    kept = [i for i in moved if out[i] == lim[i]]
    c.ok('each rank is the old or the requested one', all(
        out[i] in (lim[i], int(rk[i])) for i in range(len(out))))
    c.ok('nodes', sorted(int(x) - 1 for x in d) == kept)
    best = 0
    for bits in np.ndindex(*[2] * len(moved)):
        v = [int(r) for r in rk]
        for b, i in zip(bits, moved):
            if b:
                v[i] = lim[i]
        if sum(bits) > best and admissible(tr, v, shape, inactive):
            best = sum(bits)
    c.ok('as many requests as possible', len(kept) == best)


class FreeValues:
    """a tensor with given smallest singular values"""

    def __init__(self, t, values):
        self.t, self.values = t, values

    def __getattr__(self, k):
        return getattr(self.t, k)

    def singular_values(self):
        out = np.empty(self.t.tree.nb_nodes, dtype=object)
        out[:] = [None if v is None else np.array([v]) for v in self.values]
        return out

    def norm(self):
        return 1


def c_selection(c, kind, shape, inactive=(), ranks=1):
    """nodes with the largest singular values are enriched"""
    tr = tree(kind, len(shape))
    t, rk, active = small_tensor(tr, ranks, shape, inactive)
    s, _ = learner(c, tr, inactive, ranks, shape, 1, None)
    s.rank_adaptation_options['rank_one_correction'] = False
    theta = s.rank_adaptation_options['theta']
    nodes = [n for n in range(1, tr.nb_nodes + 1)
             if active[n - 1] and n != tr.root]
    v = [None] * tr.nb_nodes
    v[tr.root - 1] = 1.
    for n in nodes:
        v[n - 1] = c.real('v%d' % n, None, .1, 2)
    f = ts.FunctionalTensor(t, [np.ones((2, n)) for n in shape])
    f.tensor = FreeValues(t, v)
    new, enriched, _ = s.new_rank_selection(f)
    new = [int(r) for r in new]
    c.ok('admissible', admissible(tr, new, shape, inactive))
    up = [n for n in range(1, tr.nb_nodes + 1) if new[n - 1] > rk[n - 1]]
    c.ok('at most one more', all(new[n - 1] == rk[n - 1] + (n in up)
                                 for n in range(1, tr.nb_nodes + 1)))
    c.ok('enriched nodes', sorted(int(n) for n in enriched) == up)
    c.ok('candidates', set(up) <= set(nodes))
    for a in up:
        for b in nodes:
            if b not in up:
                full = int(rk[b - 1]) == dict(
                    (int(x), shape[k]) for k, x in enumerate(
                        tr.dim2ind)).get(b, 99)
                if not full:
                    c.ok('largest singular values first',
                         v[a - 1] * 1.011 >= v[b - 1])


# --- order of the updates ------------------------------------------------------------
def c_order_tree(c, kind, inactive=()):
    tr = tree(kind)
    d = len(tr.dim2ind)
    H = [np.ones((2, 2))] * d
    s, active = learner(c, tr, inactive, 1, [2] * d, 1, H)
    s.initialization_type = 'ones'
    s, t = s.initialize()
    e = [int(x) for x in s._exploration_strategy]
    nodes = [n for n in range(1, tr.nb_nodes + 1) if active[n - 1]]
    level = [int(x) for x in tr.level]
    c.ok('every parameter once', sorted(e) == nodes)
    c.ok('from the root', [level[n - 1] for n in e] == sorted(
        level[n - 1] for n in nodes))
    r = s.randomize_exploration_strategy()
    c.ok('integers', np.issubdtype(np.asarray(r).dtype, np.integer))
    r = [int(x) for x in r]
    c.ok('every parameter once', sorted(r) == nodes)
    c.ok('from the root', [level[n - 1] for n in r] ==
         [level[n - 1] for n in e])


def c_order_canonical(c, d, rank, loops=None):
    s = ts.CanonicalTensorLearning(d, ts.SquareLossFunction())
    s.rank, s.display, s.truncate_initialization = rank, False, False
    s.bases_eval = [np.ones((2, 2))] * d
    s.initialization_type = 'ones'
    if loops:
        s.alternating_minimization_parameters['one_by_one_factor'] = True
        s.alternating_minimization_parameters['inner_loops'] = loops
    s, _ = s.initialize()
    n = s._number_of_parameters
    r = [int(x) for x in s.randomize_exploration_strategy()]
    c.ok('every parameter once', sorted(r) == list(range(1, n + 1)))
    c.ok('coefficients last', r[-1] == n)


# --- loops of the solvers -------------------------------------------------------------
class Model:
    """linear model returning given coefficients and errors"""
    basis_adaptation = False
    error_estimation = False

    def __init__(self, log, answers):
        self.log, self.answers = log, answers
        self.options = {}

    def __deepcopy__(self, memo):
        return Model(self.log, self.answers)

    def solve(self):
        A, b = self.basis_eval, self.training_data[1]
        k = len(self.log)
        coef, err = self.answers(k, A)
        self.log.append((self, A, b, np.array(coef), err))
        return coef, {} if err is None else {'error': err}


def c_loop(c, d, iters, errors, select, rank=1):
    """alternating minimization stops and reports as documented"""
    H = evals(c, [2] * d, 1)
    y = np.array([1.])
    log, stag = [], [c.real('g%d' % k, None, 0, 1) for k in range(iters)]
    n = d + 1

    def answers(k, A):
        return c.real('z%d' % k, (A.shape[1],), .5, 2), \
            c.real('e%d' % k, None, 0, 1) if errors else None

    class L(ts.CanonicalTensorLearning):
        count = [0]

        def stagnation_criterion(self, f, f0):
            L.count[0] += 1
            return stag[L.count[0] - 1]
    s = L(d, ts.SquareLossFunction())
    s._warnings = {k: False for k in s._warnings}
    s.display, s.rank, s.bases_eval = False, rank, H
    s.initialization_type, s.truncate_initialization = 'ones', False
    s.training_data = [None, y]
    s.linear_model_learning = Model(log, answers)
    s.error_estimation = errors
    s.alternating_minimization_parameters['max_iterations'] = iters
    s.alternating_minimization_parameters['stagnation'] = .25
    s.model_selection = select
    s.model_selection_options['type'] = 'cv_error'
    f, out = s.solve()
    k = 0
    while k < iters - 1 and not (k > 0 and bool(stag[k] < .25)):
        k += 1
    stopped = k > 0 and bool(stag[k] < .25)
    c.ok('iterations', len(log) == n * (k + 1) and out['iter'] == k)
    c.ok('flag', out['flag'] == (1 if stopped else 0))
    c.eq('stagnation', np.array(out['stagnation_criterion']),
         np.array(stag[:k + 1]))
    c.ok('iterates', len(out['iterates']) == k + 1)
    its = list(range(k + 1))
    if errors:
        e = [log[n * (i + 1) - 1][4] for i in its]
        c.eq('errors', np.array(out['error_iterations']), np.array(e))
        if select:
            j = int(out['selected_model_number'])
            for i in its:
                c.ok('smallest error', e[j] <= e[i])
            its = [j]
        c.eq('error', np.asarray(out['error']), np.asarray(e[its[-1]]))
    for i in its if select else its[-1:]:
        _, A, b, z, _ = log[n * (i + 1) - 1]
        g = f
        c.eq('evaluations after the last local problem',
             ref_canonical(g.tensor.core.data, g.tensor.space, H),
             np.matmul(A, z))
    for i in range(k + 1):
        _, A, b, z, _ = log[n * (i + 1) - 1]
        g = out['iterates'][i]
        c.eq('iterate', ref_canonical(g.tensor.core.data, g.tensor.space, H),
             np.matmul(A, z))


def c_twice(c, fmt, rank, ina=(), start='initial_guess'):
    """a solver runs twice and leaves its initial guess alone"""
    d = 2 if fmt == 'bin2' else 3
    shape = [2] * d
    H = evals(c, shape, 1) if rank == 1 else [
        np.array([[1., .5]]), np.array([[.25, 1.]]), np.array([[1., 2.]])][:d]
    log = []

    def answers(k, A):
        if rank > 1:
            return np.array([1. + (k + j) % 3 for j in range(A.shape[1])]), None
        return c.real('z%d' % k, (A.shape[1],), .5, 2), None

    def measure(f, f0):
        return .1
    if fmt == 'canonical':
        s = ts.CanonicalTensorLearning(d, ts.SquareLossFunction())
        s.bases_eval, s.rank = H, rank
        guess = ts.CanonicalTensor([c.real('g%d' % k, (2, rank), .5, 2)
                                    for k in range(d)],
                                   c.real('core', (rank,), .5, 2))
        n, s.truncate_initialization = d + 1, False
    else:
        tr = tree(fmt)
        s, active = learner(c, tr, ina, rank, shape, 1, H)
        guess = sym_tree_tensor(c, 't', tr, rank, shape, ina)
        n = int(np.count_nonzero(active))

    def full():
        if fmt != 'canonical':
            return ref_full(guess)
        F = np.zeros(shape, dtype=object)
        for i in np.ndindex(*shape):
            for k in range(rank):
                p = guess.core.data[k]
                for q in range(d):
                    p = p * guess.space[q][i[q], k]
                F[i] = F[i] + p
        return F
    s.stagnation_criterion = measure
    s._warnings = {k: False for k in s._warnings}
    s.display, s.initialization_type = False, start
    if start == 'initial_guess':
        s.initial_guess = guess
    y = np.array([1.])
    s.training_data = [None, np.array(y)]
    s.linear_model_learning = Model(log, answers)
    s.alternating_minimization_parameters['max_iterations'] = 1
    s.alternating_minimization_parameters['display'] = False
    F, base = np.array(full()), len(log)
    for run in range(2):
        before = len(log)
        f, out = s.solve()
        if start == 'initial_guess':
            c.ok('local problems', len(log) - before == n)
        c.eq('initial guess unchanged', full(), F)
        c.eq('data unchanged', s.training_data[1], y)
        c.ok('rank', len(f.tensor.core.data) == rank if fmt == 'canonical'
             else True)


def c_adaptation(c, iters, test, early, select, errors=True, quiet=False):
    """rank adaptation: stopping, early stopping and selection"""
    d, H = 2, [np.ones((1, 2))] * 2
    e = [c.real('e%d' % k, None, 0, 1) for k in range(iters)]
    t = [c.real('t%d' % k, None, 0, 1) for k in range(iters)]
    g = [c.real('g%d' % k, None, 0, 1) for k in range(iters)]
    fs, seen = [], []
    count = dict(t=0, g=0)

    class Loss(ts.SquareLossFunction):
        def test_error(self, f, data):
            count['t'] += 1
            return t[count['t'] - 1]

    class L(ts.CanonicalTensorLearning):
        def _solve_standard(self):
            k = len(fs)
            x = ts.CanonicalTensor([np.ones((2, k + 1))] * 2,
                                   np.arange(1., k + 2))
            fs.append(ts.FunctionalTensor(x, H))
            seen.append((self.rank, self.initialization_type,
                         self.initial_guess))
            return fs[-1], {'error': e[k]} if errors else {}

        def stagnation_criterion(self, f, f0):
            count['g'] += 1
            return g[count['g'] - 1]
    s = L(d, Loss())
    s._warnings = {k: False for k in s._warnings}
    s.display, s.rank, s.bases_eval = False, 1, H
    s.bases_eval_test = H
    s.training_data = [None, np.array([1.])]
    s.test_data = [None, np.array([1.])]
    s.test_error = test
    s.rank_adaptation = True
    s.rank_adaptation_options = dict(max_iterations=iters, early_stopping=early,
                                     early_stopping_factor=2)
    s.tolerance = dict(on_error=.125, on_stagnation=.25)
    s.model_selection = select is not None
    s.error_estimation = errors
    if select:
        s.model_selection_options['type'] = select
    f, out = s.solve()

    def low(v):
        return bool(v < .125)
    k, flag = 0, 0
    while True:
        last = k
        if k == iters - 1:
            break
        if test and low(t[k]) or errors and low(e[k]):
            flag = 1
            break
        if early and k and (
                test and any(bool(2 * m < t[k]) for m in t[:k]) or
                errors and any(bool(2 * m < e[k]) for m in e[:k])):
            flag, last = -1, k - 1
            break
        if k and bool(g[k - 1] < .25):
            break
        k += 1
    c.ok('solves', len(fs) == k + 1)
    c.ok('flag', out['flag'] == flag)
    c.ok('ranks', [int(x[0]) for x in seen] == list(range(1, k + 2)))
    c.ok('started from the previous one', all(
        a[1] == 'initial_guess' and
        len(getattr(a[2], 'tensor', a[2]).core.data) == i + 1
        for i, a in enumerate(seen[1:])))
    c.ok('iterates', len(out['iterates']) == last + 1)
    if errors:
        c.eq('errors', np.array(out['error_iterations']),
             np.array(e[:last + 1]))
    if test:
        c.eq('test errors', np.array(out['test_error_iterations']),
             np.array(t[:last + 1]))
    j = len(f.tensor.core.data) - 1
    if select is None:
        c.ok('last iterate returned', j == last)
    else:
        w = t if select == 'test_error' else e
        c.ok('selected number', int(out['selected_model_number']) == j)
        for i in range(last + 1):
            c.ok('smallest error', w[j] <= w[i])
    if errors:
        c.eq('error', np.asarray(out['error']), np.asarray(e[j]))
    if test:
        c.eq('test error', np.asarray(out['test_error']), np.asarray(t[j]))


def c_greedy(c, rank, d=2, N=3):
    """corrections are fitted to the residual, coefficients recomputed"""
    H = [np.array([[1., 0.], [0., 1.], [1., 2.]])[:N],
         np.array([[1., 1.], [2., 1.], [0., 1.]])[:N],
         np.array([[1., 0.], [1., 1.], [2., 1.]])[:N]][:d]
    y = c.real('y', (N,), -2, 2)
    log, got = [], []

    class M(Model):
        def __deepcopy__(self, memo):
            return M(self.log, self.answers)

    def answers(k, A):
        return c.real('z%d' % k, (A.shape[1],), .5, 2), None

    class L(ts.CanonicalTensorLearning):
        def _solve_standard(self):
            got.append((self.rank, np.array(self.training_data[1])))
            k = float(len(got))
            return ts.FunctionalTensor(ts.CanonicalTensor(
                [np.array([[1.], [k + j]]) for j in range(d)],
                np.array([1.])), H), {}
    s = L(d, ts.SquareLossFunction())
    s._warnings = {k: False for k in s._warnings}
    s.display, s.rank, s.bases_eval = False, rank, H
    s.training_data = [None, np.array(y)]
    s.algorithm = 'greedy'
    s.tolerance = dict(on_error=0, on_stagnation=0)
    s.linear_model_learning = M(log, answers)
    f, out = s.solve()
    if isinstance(f, ts.FunctionalTensor):
        f = f.tensor
    c.ok('terms', len(f.core.data) == rank == len(got) == len(log))
    c.eq('data unchanged', s.training_data[1], y)
    E = []
    for k in range(rank):
        prev = sum(log[k - 1][3][j] * E[j] for j in range(k)) if k else 0 * y
        c.ok('rank-one correction', got[k][0] == 1)
        c.eq('residual', got[k][1], y - prev)
        E.append(np.array([np.prod([H[j][n, 0] + (k + 1. + j) * H[j][n, 1]
                                    for j in range(d)]) for n in range(N)]))
        c.eq('terms of the regression', log[k][1], np.array(E).T)
        c.eq('data of the regression', log[k][2], y)
    c.eq('coefficients', np.ravel(f.core.data), log[-1][3])


def c_correction(c, kind, shape, ones, inactive=()):
    """corrections are fitted to the residual and added"""
    tr = tree(kind, len(shape))
    H = evals(c, shape)
    got = []

    class L(ts.TreeBasedTensorLearning):
        def solve(self):
            got.append((self.rank, np.array(self.training_data[1])))
            return ts.FunctionalTensor(g, H), {}

        def canonical_initialization(self, rank):
            got.append((rank, np.array(self.training_data[1])))
            return g
    s, active = learner(c, tr, inactive, 1, shape, 1, H, L)
    y = c.real('y', (2,), -2, 2)
    s.training_data = [None, np.array(y)]
    t = sym_tree_tensor(c, 't', tr, 1, shape, inactive)
    g = sym_tree_tensor(c, 'g', tr, 1, shape, inactive)
    F, G = ref_full(t), ref_full(g)
    f = ts.FunctionalTensor(t, H)
    out = s.rank_one_correction(f) if ones else s.canonical_correction(f, 2)
    c.eq('residual', got[0][1], y - contract(F, H))
    c.ok('rank', got[0][0] == (1 if ones else 2))
    c.eq('sum', ref_full(out), F + G)
    c.eq('data unchanged', s.training_data[1], y)
    c.eq('function unchanged', ref_full(t), F)


def cases(tier):
    out = []
    add = adder(out, elim=True, exact_sqrt=True, feas_ms=500)
    th = tier != 'quick'
    for kind, shape in (('bin2', (2, 2)), ('bal3', (2, 2, 2)),
                        ('lin3', (2, 2, 2)), ('ter3', (2, 2, 2))):
        tr = tree(kind)
        leaf = {int(x): k for k, x in enumerate(tr.dim2ind)}
        for ina in ((), (0,), (len(shape) - 1,)) + (
                ((1, 2),) if len(shape) > 2 else ()):
            for mu in range(1, tr.nb_nodes + 1):
                if leaf.get(mu) in ina and mu in leaf:
                    continue
                for outs in (1, 2):
                    for r in (1, 2):
                        add(c_tree, '%s_%d_%s_%d_%d' % (
                            kind, mu, ''.join(map(str, ina)), outs, r),
                            kind=kind, mu=mu, ranks=r, shape=shape,
                            inactive=ina, outs=outs)
    for mu in (1, 2, 3, None):
        for r in (1, 2):
            add(c_canonical, '3_%s_%d' % (mu, r), shape=(2, 2, 2), r=r, mu=mu)
    for mu in (1, 2, 4, 7, 12, None):
        add(c_canonical, '3_%s_one' % mu, shape=(2, 2, 2), r=2, mu=mu, one=True)
    for kind, node, ina in (
            ('bin2', 2, ()), ('bin2', 1, (0,)), ('bin2', 1, (1,)),
            ('bin2', 1, (0, 1)), ('bin2', 1, ()), ('lin3', 3, (2,)),
            ('lin3', 3, (1, 2)), ('lin3', 1, (0,)), ('ter3', 1, (1,)),
            ('ter3', 1, (0, 2)), ('bal3', 4, ())):
        add(c_mask, '%s_%d_%s' % (kind, node, ''.join(map(str, ina))),
            kind=kind, node=node, ranks=2, inactive=ina)
    for bases in (False, True):
        add(c_mean, 'canonical_%s' % bases, fmt='canonical', kind=None,
            inactive=(), shape=(2, 2, 2), bases=bases)
        for kind, ina in (('bal3', ()), ('lin3', (1, 2)), ('ter3', (0,))):
            add(c_mean, '%s_%s' % (kind, bases), fmt='tree', kind=kind,
                inactive=ina, shape=(2, 2, 2), bases=bases)
    for kind, r, shape, ina in (
            ('bin2', 1, (2, 2), ()), ('bal3', 1, (2, 2, 2), ()),
            ('lin3', 1, (2, 2, 2), (1, 2)), ('ter3', 1, (2, 2, 2), (1,)),
            ('bin2', 2, (3, 3), ())):
        add(c_random_enrichment, '%s_%d_%s' % (kind, r, ''.join(
            map(str, ina))), opts=dict(generic=True), kind=kind, ranks=r,
            shape=shape, inactive=ina)
    for kind, shape, ina, r, up in (
            ('bin2', (2, 3), (), 1, 2), ('bal3', (2, 2, 2), (), 1, 1),
            ('lin3', (2, 2, 2), (1, 2), 1, 2), ('ter3', (2, 3, 2), (1,), 1, 2),
            ('bal4', (2, 2, 2, 2), (0, 3), 1, 1),
            ('bal3', (3, 2, 2), (), 2, 1)):
        add(c_admissible, '%s_%s_%d' % (kind, ''.join(map(str, ina)), r),
            kind=kind, shape=shape, inactive=ina, ranks=r, up=up)
    for kind, shape, ina, r in (
            ('bin2', (2, 3), (), 1), ('bal3', (2, 2, 2), (), 1),
            ('lin3', (2, 2, 2), (1, 2), 1), ('ter3', (2, 3, 2), (1,), 1),
            ('ter3', (3, 3, 3), (), 2)):
        add(c_selection, '%s_%s_%d' % (kind, ''.join(map(str, ina)), r),
            opts=dict(eager=True), kind=kind, shape=shape, inactive=ina, ranks=r)
    for kind, ina in (('bin2', ()), ('bal3', ()), ('lin3', (1, 2)),
                      ('bal4', (0,)), ('ter3', (1,))):
        add(c_order_tree, '%s_%s' % (kind, ''.join(map(str, ina))),
            opts=dict(sym_perm=True), kind=kind, inactive=ina)
    for d, r, l in ((2, 1, None), (3, 2, None), (2, 2, 1), (2, 2, 2),
                    (3, 2, 1), (2, 3, 1)):
        add(c_order_canonical, '%d_%d_%s' % (d, r, l),
            opts=dict(sym_perm=True), d=d, rank=r, loops=l)
    for err, sel in ((False, False), (True, False), (True, True)):
        add(c_loop, '%s_%s' % (err, sel), d=3, iters=5 if th else 4, errors=err, select=sel)
    for fmt, rank, ina, st in (
            ('canonical', 1, (), 'initial_guess'),
            ('canonical', 2, (), 'initial_guess'), ('canonical', 2, (), 'ones'),
            ('canonical', 2, (), 'mean'), ('canonical', 3, (), 'greedy'),
            ('bin2', 1, (), 'initial_guess'), ('lin3', 1, (1,), 'initial_guess'),
            ('ter3', 1, (0, 2), 'initial_guess'), ('lin3', 1, (1,), 'mean')):
        add(c_twice, '%s_%d_%s_%s' % (fmt, rank, ''.join(map(str, ina)), st),
            fmt=fmt, rank=rank, ina=ina, start=st)
    for test, early, sel, err in (
            (True, False, None, True), (True, True, None, False),
            (False, True, None, True), (True, True, 'test_error', True),
            (False, False, 'cv_error', True), (True, False, 'cv_error', True)):
        add(c_adaptation, '%s_%s_%s_%s' % (test, early, sel, err), iters=5 if th else 4,
            test=test, early=early, select=sel, errors=err)
    for r in (1, 2, 3):
        add(c_greedy, '2_%d' % r, rank=r)
    add(c_greedy, '3_3', rank=3, d=3)
    for ones in (True, False):
        for kind, ina in (('bal3', ()), ('lin3', (1, 2))):
            add(c_correction, '%s_%s' % (kind, ones), kind=kind,
                shape=(2, 2, 2), ones=ones, inactive=ina)
    return out
