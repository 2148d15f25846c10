"""P03 - evaluating a tree based tensor agrees with indexing its full tensor."""
import itertools
import numpy as np
import tensap as ts
from .common import (Case, tree, sym_tree_tensor, ref_full, snapshot,
                     unchanged, data)
from .p02 import mk

BOUNDS = ('trees of order 2-5, all listed patterns of inactive leaves, ranks '
          '1-3, mode sizes 1-3, root rank 1-2; index lists fixed to include '
          'repeated, unsorted and single entries (or solver variables for '
          'dense evaluation); every core entry a free real')
OUTSIDE = 'larger orders/ranks/sizes; rounding (entries are reals)'


def points(shape, n):
    """n index tuples, deterministic, irregular, with repetitions."""
    P = [[(3 * k * k + 2 * k + d * (k + 1)) % s for d, s in enumerate(shape)]
         for k in range(n)]
    return np.array(P)


def at_indices(c, kind, shape, inact):
    x = mk(c, 'x', kind, shape, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    n = len(shape)
    for m in (1, 4):
        P = points(shape, m)
        c.eq('all %d' % m, data(x.eval_at_indices(P)),
             np.array([f[tuple(p)] for p in P]))
    for d in range(n):
        for I in ([0], list(range(shape[d]))[::-1], [shape[d] - 1] * 2):
            c.eq('dim %d %s' % (d, I), data(x.eval_at_indices(
                np.array(I).reshape(-1, 1), [d])), np.take(f, I, axis=d))
            ind = [':'] * n
            ind[d] = I
            c.eq('sub %d %s' % (d, I), data(x.sub_tensor(*ind)),
                 np.take(f, I, axis=d))
    g = f
    ind = [[(k + d) % s for k in range(2)] for d, s in enumerate(shape)]
    for d in range(n):
        g = np.take(g, ind[d], axis=d)
    c.eq('sub', data(x.sub_tensor(*ind)), g)
    c.eq('sub list', data(x.sub_tensor(ind)), g)
    unchanged(c, 'x', x, sx)


def nodes_below(tr):
    """node -> set of dims, computed from the adjacency matrix."""
    adj = np.array(tr.adjacency_matrix)
    dim_of = {int(v): i for i, v in enumerate(np.array(tr.dim2ind))}

    def rec(v):
        if v in dim_of:
            return {dim_of[v]}
        s = set()
        for j in range(adj.shape[0]):
            if adj[v - 1, j]:
                s |= rec(j + 1)
        return s
    return {v: sorted(rec(v)) for v in range(1, adj.shape[0] + 1)}


def partial_many(c, kind, shape, inact):
    """Partial evaluation along the dimensions of a node."""
    x = mk(c, 'x', kind, shape, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    n = len(shape)
    for v, dims in sorted(nodes_below(x.tree).items()):
        if len(dims) < 2 or len(dims) == n:
            continue
        rest = [d for d in range(n) if d not in dims]
        g = np.transpose(f, dims + rest)
        for m in (2, 3):
            P = points([shape[d] for d in dims], m)
            want = np.array([g[tuple(p)] for p in P])
            c.eq('dims %s x%d' % (dims, m), data(
                x.eval_at_indices(P, dims)), want)
            q = dims[::-1]
            c.eq('dims %s x%d' % (q, m), data(
                x.eval_at_indices(P[:, ::-1], q)), want)
    unchanged(c, 'x', x, sx)


def partial_one(c, kind, shape, inact, dims):
    """One point along several dimensions, other modes of size > 1."""
    x = mk(c, 'x', kind, shape, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    p = [shape[d] - 1 for d in dims]
    rest = [d for d in range(len(shape)) if d not in dims]
    want = np.transpose(f, list(dims) + rest)[tuple(p)]
    c.eq('one point %s' % (dims,), data(
        x.eval_at_indices(np.array([p]), list(dims))), want)
    unchanged(c, 'x', x, sx)


def diagonal(c, kind, n, s, inact):
    x = mk(c, 'x', kind, (s,) * n, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    c.eq('eval_diag', data(x.eval_diag()),
         np.array([f[(k,) * n] for k in range(s)]))
    below = nodes_below(x.tree)
    leaf = set(int(v) for v in x.tree.dim2ind)
    D = x.eval_diag_below()
    for v, dims in below.items():
        if v in leaf or v == x.tree.root:
            continue
        g = sub_full(x, v)
        c.eq('eval_diag_below %d' % v, data(D[v - 1]),
             np.array([g[(k,) * len(dims)] for k in range(s)]))
    A = x.eval_diag_above()
    for v, dims in below.items():
        if v == x.tree.root or not x.is_active_node[v - 1]:
            continue
        g = above_full(x, v)
        c.eq('eval_diag_above %d' % v, data(A[v - 1]),
             np.array([g[(k,) * (n - len(dims))] for k in range(s)]))
        c.eq('eval_diag_above %d alone' % v, data(x.eval_diag_above(alpha=v)),
             np.array([g[(k,) * (n - len(dims))] for k in range(s)]))
    unchanged(c, 'x', x, sx)


def partial_diagonal(c, kind, n, s, inact):
    x = mk(c, 'x', kind, (s,) * n, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    for v, dims in sorted(nodes_below(x.tree).items()):
        if len(dims) < 2 or len(dims) == n:
            continue
        rest = [d for d in range(n) if d not in dims]
        g = np.transpose(f, dims + rest)
        c.eq('eval_diag %s' % dims, data(x.eval_diag(dims)),
             np.array([g[(k,) * len(dims)] for k in range(s)]))
        unchanged(c, 'after eval_diag %s' % dims, x, sx)


def sub_full(x, v):
    """Tensor of the functions carried by node v: dims below, then rank."""
    below = nodes_below(x.tree)
    keep = sorted(w for w in below if set(below[w]) <= set(below[v]))
    sub = {w: i + 1 for i, w in enumerate(keep)}
    adj = np.array(x.tree.adjacency_matrix)[np.ix_([w - 1 for w in keep],
                                                   [w - 1 for w in keep])]
    tr = ts.DimensionTree(np.array([sub[int(x.tree.dim2ind[d])]
                                    for d in below[v]]), adj)
    y = ts.TreeBasedTensor([np.array(x.tensors[w - 1].data) for w in keep],
                           tr)
    return ref_full(y)


def above_full(x, v):
    """Complement of node v: remaining dims in order, then rank of v."""
    below = nodes_below(x.tree)
    n = int(x.order)
    dims = below[v]
    adj = np.array(x.tree.adjacency_matrix).copy()
    drop = [w for w in below if w != v and set(below[w]) < set(below[v])]
    keep = sorted(w for w in below if w not in drop)
    new = {w: i + 1 for i, w in enumerate(keep)}
    rest = [d for d in range(n) if d not in dims]
    adj = adj[np.ix_([w - 1 for w in keep], [w - 1 for w in keep])]
    dim2ind = np.array([new[int(x.tree.dim2ind[d])] for d in rest] + [new[v]])
    cores = []
    for w in keep:
        if w == v:
            cores.append([])
        else:
            cores.append(np.array(x.tensors[w - 1].data))
    y = ts.TreeBasedTensor(cores, ts.DimensionTree(dim2ind, adj))
    return ref_full(y)


def gradient(c, kind, n, s, inact, root_rank=1):
    """Contracting the gradient with the core gives the value back."""
    x = mk(c, 'x', kind, (s,) * n, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    leaf = {int(v): d for d, v in enumerate(x.tree.dim2ind)}
    for v in range(1, x.tree.nb_nodes + 1):
        if not x.is_active_node[v - 1]:
            continue
        core = np.asarray(x.tensors[v - 1].data)
        g = np.asarray(x.parameter_gradient_eval_diag(v).data)
        if v in leaf:
            got = np.tensordot(g, core, ([2, 3], [0, 1]))
            free = [leaf[v]]
        else:
            ch = [int(w) for w in x.tree.children(v)]
            act = [i for i, w in enumerate(ch) if x.is_active_node[w - 1]]
            ina = [i for i, w in enumerate(ch) if i not in act]
            ax = list(range(1, 1 + len(act)))
            ax += [1 + len(act) + 2 * j + 1 for j in range(len(ina))]
            cax = act + ina
            if v != x.tree.root:
                ax.append(g.ndim - 1)
                cax.append(core.ndim - 1)
            got = np.tensordot(g, core, (ax, cax))
            free = [leaf[ch[i]] for i in ina]
        want = np.empty((s,) * (1 + len(free)), dtype=f.dtype)
        for i in np.ndindex(*want.shape):
            j = [i[0]] * n
            for q, d in enumerate(free):
                j[d] = i[1 + q]
            want[i] = f[tuple(j)]
        c.eq('gradient at node %d' % v, got, want)
    unchanged(c, 'x', x, sx)


def gradient_dmrg(c, kind, n, s):
    """Two adjacent cores contracted with the two-site gradient."""
    x = mk(c, 'x', kind, (s,) * n, (), 2)
    sx = snapshot(x)
    f = ref_full(x)
    leaf = {int(v): d for d, v in enumerate(x.tree.dim2ind)}
    for v in range(1, x.tree.nb_nodes + 1):
        if v == x.tree.root:
            continue
        p = int(x.tree.parent(v))
        cv = np.asarray(x.tensors[v - 1].data)
        cp = np.asarray(x.tensors[p - 1].data)
        _, ga, gg = x.parameter_gradient_eval_diag_dmrg(v)
        ga, gg = np.asarray(ga.data), np.asarray(gg.data)
        pos = [int(w) for w in x.tree.children(p)].index(v)
        cp = np.moveaxis(cp, pos, 0)        # v first, siblings, rank
        if v in leaf:
            a = np.tensordot(ga, cv, ([2], [0]))      # k, i, r
        else:
            m = cv.ndim - 1
            a = np.tensordot(ga, cv, (list(range(1, 1 + m)),
                                      list(range(m))))  # k, r
        b = np.tensordot(gg, cp, (list(range(1, gg.ndim)),
                                  list(range(1, cp.ndim))))   # k, r
        want = np.empty((s,) * (2 if v in leaf else 1), dtype=f.dtype)
        got = np.empty(want.shape, dtype=f.dtype)
        for i in np.ndindex(*want.shape):
            j = [i[0]] * n
            if v in leaf:
                j[leaf[v]] = i[1]
            want[i] = f[tuple(j)]
            got[i] = np.sum(a[i] * b[i[0]])
        c.eq('two-site gradient at node %d' % v, got, want)
    unchanged(c, 'x', x, sx)


def matrices_diag(c, kind, shape, inact, N):
    """sum over modes of M_d[k, i_d] x[i]."""
    x = mk(c, 'x', kind, shape, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    M = [c.real('M%d' % d, (N, s)) for d, s in enumerate(shape)]
    want = []
    for k in range(N):
        t = f
        for d in reversed(range(len(shape))):
            t = np.tensordot(M[d][k], t, ([0], [d]))
        want.append(t)
    want = np.array([w[()] if isinstance(w, np.ndarray) else w for w in want])
    c.eq('tensor_matrix_product_eval_diag', data(
        x.tensor_matrix_product_eval_diag(M)), want)
    unchanged(c, 'x', x, sx)


def squeezes(c, kind, shape, inact):
    x = mk(c, 'x', kind, shape, inact, 2)
    sx = snapshot(x)
    f = ref_full(x)
    ones = [d for d, s in enumerate(shape) if s == 1]
    c.eq('squeeze', data(x.squeeze()), np.squeeze(f))
    for k in range(1, len(ones) + 1):
        for p in itertools.permutations(ones, k):
            c.eq('squeeze %s' % (p,), data(x.squeeze(list(p))),
                 np.squeeze(f, p))
    unchanged(c, 'x', x, sx)


def rerooted(c, kind, shape, inact, root_rank=1):
    x = mk(c, 'x', kind, shape, inact, 2, root_rank)
    sx = snapshot(x)
    f = ref_full(x)
    for v in range(1, x.tree.nb_nodes + 1):
        if not x.is_active_node[v - 1]:
            continue
        y = x.change_root(v)
        c.ok('root %d' % v, int(y.tree.root) == v)
        c.eq('change_root(%d)' % v, ref_full(y), f)
        c.eq('change_root(%d) order' % v, y.order, f.ndim if v != x.tree.root
             else len(shape))
        unchanged(c, 'x', x, sx)


def unique_children(c):
    """Chain 1 -> 2 -> (3, 4), 1 -> 5, and a root with one child."""
    adj = np.zeros((6, 6), dtype=int)
    for a, b in ((1, 2), (1, 5), (2, 3), (3, 4), (3, 6)):
        adj[a - 1, b - 1] = 1
    tr = ts.DimensionTree(np.array([4, 6, 5]), adj)
    x = sym_tree_tensor(c, 'x', tr, [1, 2, 2, 3, 2, 2], (2, 3, 2))
    sx = snapshot(x)
    f = ref_full(x)
    y = x.remove_unique_children()
    c.eq('value', ref_full(y), f)
    c.ok('no unique children', all(
        np.sum(np.array(y.tree.adjacency_matrix), 1) != 1))
    c.eq('full', x.full().data, f)
    unchanged(c, 'x', x, sx)


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(fn, kind, inact, **p):
        out.append(Case('%s-%s-%s%s' % (fn.__name__, kind, ''.join(
            map(str, inact)) or 'active', p.pop('nm', '')), fn,
            dict(kind=kind, inact=inact, **p)))
    grid = [('bin2', (2, 3), ((), (0,), (1,), (0, 1))),
            ('trivial', (2, 3, 2), ((), (1,), (0, 2), (0, 1, 2))),
            ('bal3', (2, 3, 2), ((), (0,), (2,), (0, 1), (1, 2),
                                 (0, 1, 2))),
            ('lin3', (2, 2, 3), ((), (0,), (1,), (2,), (1, 2))),
            ('perm4', (2, 1, 3, 2), ((), (1,), (0, 3), (0, 1, 2, 3))),
            ('lin4', (2, 2, 3, 2), ((), (1, 2, 3),)),
            ('mix4', (2, 3, 2, 2), ((), (2,), (3,), (0, 1), (0, 1, 3)))]
    if deep:
        grid += [('mix5', (2, 2, 1, 2, 3), ((), (2,), (0, 3))),
                 ('deep4', (2, 3, 2, 2), ((), (1,), (0, 2))),
                 ('bal4', (2, 3, 2, 2), ((), (0, 2)))]
    for kind, shape, ins in grid:
        n = len(shape)
        for i in ins:
            add(at_indices, kind, i, shape=shape)
            add(matrices_diag, kind, i, shape=shape, N=2)
            add(diagonal, kind, i, n=n, s=2)
            add(gradient, kind, i, n=n, s=2)
            add(rerooted, kind, i, shape=shape)
            if kind not in ('bin2', 'trivial'):
                add(partial_many, kind, i, shape=shape)
                add(partial_diagonal, kind, i, n=n, s=2)
        add(gradient_dmrg_, kind, (), n=n, s=2)
    for kind, shape, i, dims in (
            ('bal3', (2, 3, 2), (), (0, 1)), ('bal3', (2, 3, 2), (0,), (2, 0)),
            ('lin4', (2, 2, 3, 2), (), (1, 3)),
            ('mix4', (2, 3, 2, 2), (0, 1), (0, 1, 3)),
            ('perm4', (2, 2, 3, 2), (1,), (3, 1))):
        add(partial_one, kind, i, shape=shape, dims=dims,
            nm='-' + ''.join(map(str, dims)))
    for kind, shape, i in (
            ('bin2', (1, 3), ()), ('bin2', (1, 3), (0,)), ('bin2', (1, 1), ()),
            ('bal3', (1, 1, 2), ()), ('bal3', (1, 2, 1), (0,)),
            ('bal3', (1, 1, 2), (0, 1)), ('lin3', (2, 1, 1), ()),
            ('lin3', (1, 1, 1), ()), ('perm4', (2, 1, 3, 1), ()),
            ('perm4', (1, 2, 2, 1), (0, 3)), ('mix4', (1, 1, 2, 1), ()),
            ('mix4', (2, 1, 2, 1), (1,)), ('lin4', (1, 1, 1, 2), ())):
        add(squeezes, kind, i, shape=shape, nm='-' + 'x'.join(map(str, shape)))
    add(rerooted, 'bal3', (), shape=(2, 3, 2), root_rank=2, nm='-root2')
    add(rerooted, 'lin3', (1,), shape=(2, 2, 2), root_rank=3, nm='-root3')
    add(rerooted, 'trivial', (), shape=(2, 2), root_rank=2, nm='-root2')
    out.append(Case('unique_children', unique_children))
    return out


def gradient_dmrg_(c, kind, n, s, inact):
    gradient_dmrg(c, kind, n, s)
