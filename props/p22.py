"""P22 - moving nodes of the tree of a tensor keeps the tensor."""
import itertools
import numpy as np
import tensap as ts
from .common import Case, tree, ref_full, snapshot, unchanged, sym_tree_tensor
from .p08 import consistent, lst, up, kids_of, dims_of

BOUNDS = ('trees of order 3-5, every pair of nodes that can be exchanged, '
          'every permutation of the leaves of the listed trees; tensors with '
          'symbolic entries on a fixed support for which every '
          'decomposition used is known exactly; random searches for every '
          'outcome of the draws of one or two steps')
OUTSIDE = ('tensors with general supports, tolerances that truncate, more '
           'search steps, larger trees and mode sizes')

SUPPORT = {
    'diag': lambda d: [(i,) * d for i in range(2)],
    'one': lambda d: [(1,) + (0,) * (d - 1)],
    'shift': lambda d: [tuple((i + k) % 2 for k in range(d))
                        for i in range(2)],
}


def full_rank(c, kind, d, sup, n=2, inact=()):
    """The tensor in the tree format with the largest ranks."""
    t = tree(kind, d)
    f = np.zeros((n,) * d).astype(object if c.symbolic else float)
    for k, p in enumerate(SUPPORT[sup](d)):
        f[p] = c.real('x%d' % k, None, 0.5, 2)
    dim_of = {int(v): i for i, v in enumerate(t.dim2ind)}
    cores = []
    for v in range(1, t.nb_nodes + 1):
        if v in dim_of:
            cores.append([] if dim_of[v] in inact else np.eye(n))
            continue
        ch = lst(t.children(v))
        sh = tuple(n ** len(dims_below(t, q)) for q in ch)
        if v == int(t.root):
            # axes of f in the order of the leaves below the root
            dims = [k for q in ch for k in dims_below(t, q)]
            cores.append(np.transpose(f, dims).reshape(sh))
        else:
            cores.append(np.eye(int(np.prod(sh))).reshape(sh + (-1,)))
    return ts.TreeBasedTensor(cores, t), f


def dims_below(t, v):
    a = np.asarray(t.adjacency_matrix)
    ch = [j + 1 for j in range(a.shape[0]) if a[v - 1, j]]
    if not ch:
        return [lst(t.dim2ind).index(v)]
    return [k for q in ch for k in dims_below(t, q)]


def parents(t):
    a = np.asarray(t.adjacency_matrix)
    par = [0] * a.shape[0]
    for i, j in zip(*np.nonzero(a)):
        par[j] = int(i) + 1
    return par


def exchangeable(t):
    par = parents(t)
    n = len(par)
    for a, b in itertools.combinations(range(1, n + 1), 2):
        if a in up(par, b) or b in up(par, a) or par[a - 1] == par[b - 1]:
            continue
        yield a, b


def c_nodes(c, kind, d, sup, nodes, inact=()):
    x, f = full_rank(c, kind, d, sup, inact=inact)
    s = snapshot(x)
    c.eq('built', ref_full(x), f)
    y = x.permute_nodes(list(nodes))
    c.eq('same tensor', ref_full(y), f)
    c.eq('full', np.asarray(y.full().data), f)
    a, b = nodes
    p = parents(x.tree)
    p[a - 1], p[b - 1] = p[b - 1], p[a - 1]
    consistent(c, y.tree, p, lst(x.tree.dim2ind))
    c.ok('admissible ranks', bool(y.is_admissible_rank()))
    unchanged(c, 'operand', x, s)


def c_siblings(c, kind, shape):
    t = tree(kind, len(shape))
    x = sym_tree_tensor(c, 'x', t, 2, shape)
    s = snapshot(x)
    par = parents(t)
    n = len(par)
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            if a == b:
                continue
            if a in up(par, b) or b in up(par, a):
                try:
                    x.permute_nodes([a, b])
                    c.ok('ascendants rejected', False)
                except ValueError:
                    c.ok('ascendants rejected', True)
            elif par[a - 1] == par[b - 1]:
                y = x.permute_nodes([a, b])
                unchanged(c, 'result', y, s)
    unchanged(c, 'operand', x, s)


def c_leaves(c, kind, d, sup, perm):
    x, f = full_rank(c, kind, d, sup)
    s = snapshot(x)
    p = np.array(perm)
    y = x.permute_leaves(p)
    c.eq('same tensor', ref_full(y), f)
    c.ok('permutation unchanged', lst(p) == list(perm))
    # the leaf at the place of dimension i in x is that of dimension perm[i]
    q = parents(x.tree)
    d2i = lst(x.tree.dim2ind)
    m = {d2i[i]: d2i[perm[i]] for i in range(d)}
    new = list(q)
    for i in range(d):
        new[m[d2i[i]] - 1] = q[d2i[i] - 1]
    consistent(c, y.tree, new, d2i)
    unchanged(c, 'operand', x, s)


def c_optimize(c, kind, d, sup, which, steps):
    x, f = full_rank(c, kind, d, sup)
    s = snapshot(x)
    y = getattr(x, which)(1e-10, steps)
    c.eq('same tensor', ref_full(y), f)
    c.ok('no larger', y.storage() <= x.storage())
    c.ok('admissible', y is x or bool(y.is_admissible_rank()))
    if which == 'optimize_leaves_permutations':
        par, new = parents(x.tree), parents(y.tree)
        c.ok('only leaves moved', all(
            par[v - 1] == new[v - 1] for v in range(1, len(par) + 1)
            if v not in lst(x.tree.dim2ind)))
    unchanged(c, 'operand', x, s)


def c_cost(c, kind, shape, inact):
    """Cost of exchanging two nodes: size of the merged core."""
    t = tree(kind, len(shape))
    x = sym_tree_tensor(c, 'x', t, 2, shape, inact)
    s = snapshot(x)
    par = parents(t)
    n = len(par)
    d2i = lst(t.dim2ind)

    def size(v):
        if v in d2i and d2i.index(v) in inact:
            return shape[d2i.index(v)]
        return int(s[3][v - 1])
    for a in range(1, n + 1):
        if a == int(t.root):
            continue
        cost = x.nodes_permutation_cost(a)
        for b in range(1, n + 1):
            ua, ub = up(par, a), up(par, b)
            if b == a or a in ub or b in ua or par[a - 1] == par[b - 1]:
                c.ok('no exchange', cost[b - 1] == 0)
                continue
            g = [v for v in ua if v in ub][0]
            inner = set(ua[:ua.index(g) + 1]) | set(ub[:ub.index(g) + 1])
            ext = [v for u in inner for v in kids_of(par, u)
                   if v not in inner]
            c.ok('cost %d %d' % (a, b), cost[b - 1] == size(g) * int(
                np.prod([size(v) for v in ext])))
    unchanged(c, 'operand', x, s)


def c_admissible(c, kind, shape, inact):
    """Ranks for which no core can be compressed, whatever its entries."""
    t = tree(kind, len(shape))
    x = sym_tree_tensor(c, 'x', t, 2, shape, inact)
    par, d2i = parents(t), lst(t.dim2ind)
    n = len(par)
    r = c.int('r', (n,), 0, 9)
    off = [d2i[i] for i in inact]
    for v in range(1, n + 1):
        if v not in off:
            c.assume(r[v - 1] >= 1)
    q = np.array(r, copy=True)
    got = bool(x.is_admissible_rank(r))
    c.eq('argument unchanged', r, q)
    if any(bool(q[v - 1] != 0) for v in off):
        c.ok('rank of an inactive leaf', not got)
        return
    size = [shape[d2i.index(v)] if v in off else
            (1 if v == int(t.root) else q[v - 1]) for v in range(1, n + 1)]
    want = True
    for v in range(1, n + 1):
        ch = kids_of(par, v)
        if v in off:
            continue
        if not ch:
            want = want and bool(size[v - 1] <= shape[d2i.index(v)])
            continue
        edges = [v] + ch
        for e in edges:
            if e in off:
                continue
            p = 1
            for o in edges:
                if o != e:
                    p = p * size[o - 1]
            want = want and bool(size[e - 1] <= p)
    c.ok('admissible', got == want)


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(f, name, **k):
        out.append(Case(f.__name__[2:] + ':' + name, f, k, max_paths=20000,
                        time=300 if not deep else 850, exact_svd=True,
                        exact_sqrt=False, max_conc=200, max_draws=6,
                        weight=5 if f is c_optimize else 1))
    for kind, d in (('bal3', 3), ('lin3', 3), ('bal4', 4), ('lin4', 4),
                    ('perm4', 4), ('mix4', 4), ('deep4', 4)) + \
            ((('mix5', 5),) if deep else ()):
        for nodes in exchangeable(tree(kind, d)):
            for sup in (('diag', 'shift', 'one') if d < 4 or deep
                        else ('diag',)):
                for rev in (False, True):
                    v = nodes[::-1] if rev else nodes
                    add(c_nodes, '%s-%s-%s' % (kind, sup, v), kind=kind, d=d,
                        sup=sup, nodes=v)
            for inact in ((0,), tuple(range(d))):
                add(c_nodes, '%s-inactive %s-%s' % (kind, inact, nodes),
                    kind=kind, d=d, sup='diag', nodes=nodes, inact=inact)
    for kind, shape in (('bal3', (2, 2, 2)), ('mix4', (2, 1, 2, 2)),
                        ('lin4', (2, 2, 1, 2))):
        add(c_siblings, kind, kind=kind, shape=shape)
    for kind, d in (('bal3', 3), ('lin3', 3), ('bal4', 4), ('lin4', 4),
                    ('perm4', 4)):
        for perm in itertools.permutations(range(d)):
            if d == 4 and not deep and sum(perm[i] == i for i in range(4)):
                continue
            add(c_leaves, '%s-%s' % (kind, perm), kind=kind, d=d, sup='diag',
                perm=perm)
    for kind, shape, ins in (('bal3', (2, 3, 1), ((), (0,), (0, 1, 2))),
                             ('lin3', (3, 1, 2), ((), (1, 2), (0, 2))),
                             ('trivial', (2, 3), ((), (0,))),
                             ('perm4', (2, 3, 1, 2), ((0, 1, 2, 3),
                                                      (0, 1, 2), (0, 3)))):
        for i in ins:
            add(c_admissible, '%s-%s' % (kind, i), kind=kind, shape=shape,
                inact=i)
    for kind, d in (('bal3', 3), ('lin3', 3), ('bal4', 4)):
        for which in ('optimize_dimension_tree',
                      'optimize_leaves_permutations'):
            if d == 4 and not deep and which == 'optimize_dimension_tree':
                continue
            add(c_optimize, '%s-%s' % (kind, which), kind=kind, d=d,
                sup='diag', which=which, steps=1 if d == 4 and not deep
                else 2)
    for kind, shape, ins in (('bal3', (2, 3, 1), ((), (0,), (0, 1, 2))),
                             ('lin4', (3, 2, 1, 3), ((), (1, 3))),
                             ('bal4', (3, 1, 3, 2), ((), (2,),
                                                     (0, 1, 2, 3))),
                             ('mix5', (2, 3, 1, 3, 2), ((), (1,)))):
        for i in ins:
            add(c_cost, '%s-%s' % (kind, i), kind=kind, shape=shape, inact=i)
    return out
