"""Shared scenario helpers: trees, symbolic tensors, reference evaluation."""
import itertools
import numpy as np
import tensap as ts
from vt.runner import Case  # noqa: F401


def tree(kind, d=None):
    """Named dimension trees (never built with tensap's own constructors)."""
    if kind == 'trivial':
        adj = np.zeros((d + 1, d + 1), dtype=int)
        adj[0, 1:] = 1
        return ts.DimensionTree(np.arange(2, d + 2), adj)
    spec = {
        # nested tuples of dimensions
        'bal3': ((0, 1), 2),
        'lin3': (0, (1, 2)),
        'bal4': ((0, 1), (2, 3)),
        'lin4': (((0, 1), 2), 3),
        'mix4': (2, (0, 3, 1)),
        'perm4': ((3, 0), (2, 1)),
        'mix5': ((0, 4), 2, (1, 3)),
        'ter3': (0, 1, 2),
        'bin2': (0, 1),
        'deep4': (1, (3, (0, 2))),
    }[kind]
    return tree_from_nested(spec)


def tree_from_nested(spec):
    edges, leaf = [], {}
    cnt = [1]
    queue = [(spec, 1)]
    while queue:
        s, n = queue.pop(0)
        if isinstance(s, int):
            leaf[s] = n
            continue
        for c in s:
            cnt[0] += 1
            edges.append((n, cnt[0]))
            queue.append((c, cnt[0]))
    adj = np.zeros((cnt[0], cnt[0]), dtype=int)
    for a, b in edges:
        adj[a - 1, b - 1] = 1
    return ts.DimensionTree(np.array([leaf[i] for i in sorted(leaf)]), adj)


def sym_tree_tensor(c, name, tr, ranks, shape, inactive=(), root_rank=1):
    """TreeBasedTensor with symbolic cores.  inactive: dims."""
    n = tr.nb_nodes
    rk = np.full(n, ranks) if np.ndim(ranks) == 0 else np.array(ranks)
    rk[tr.root - 1] = root_rank
    dim_of = {int(nod): i for i, nod in enumerate(tr.dim2ind)}
    cores = []
    for nod in range(1, n + 1):
        if nod in dim_of:
            d = dim_of[nod]
            if d in inactive:
                cores.append([])
                continue
            sh = (shape[d], rk[nod - 1])
        else:
            sh = []
            for ch in tr.children(nod):
                ch = int(ch)
                sh.append(shape[dim_of[ch]] if ch in dim_of and
                          dim_of[ch] in inactive else rk[ch - 1])
            if nod != tr.root or root_rank > 1:
                sh.append(rk[nod - 1])
            sh = tuple(int(s) for s in sh)
        cores.append(c.real('%s%d' % (name, nod), tuple(int(s) for s in sh)))
    return ts.TreeBasedTensor(cores, tr)


def snapshot(x):
    """Independent copy of the data of a tree based tensor."""
    return ([np.array(t.data, copy=True) for t in x.tensors],
            np.array(x.tree.dim2ind), np.array(x.tree.adjacency_matrix),
            np.array(x.ranks), np.array(x.shape))


def ref_full(x):
    """Entrywise contraction of a tree based tensor, from the definition.

    Axes: one per dimension in increasing order, then the root rank if any.
    """
    tr = x.tree
    adj = np.array(tr.adjacency_matrix)
    dim_of = {int(nod): i for i, nod in enumerate(np.array(tr.dim2ind))}
    root = [j + 1 for j in range(adj.shape[0]) if not adj[:, j].any()][0]

    def rec(nod):
        """-> (dims, array with axes dims..., [rank])"""
        core = np.asarray(x.tensors[nod - 1].data)
        if nod in dim_of:
            return [dim_of[nod]], core
        ch = [j + 1 for j in range(adj.shape[0]) if adj[nod - 1, j]]
        out, dims = core, []
        for k, q in enumerate(ch):
            pos = len(dims)
            if q in dim_of and np.size(x.tensors[q - 1].data) == 0:
                dims.append(dim_of[q])
                continue
            dq, a = rec(q)
            # contract last axis of a with axis `pos` of out
            out = np.tensordot(a, out, ([a.ndim - 1], [pos]))
            # axes now: a's dims first, then the remaining of out
            m = len(dq)
            perm = list(range(m, m + pos)) + list(range(m)) + \
                list(range(m + pos, out.ndim))
            out = np.transpose(out, perm)
            dims += dq
        return dims, out
    if root in dim_of:
        return np.asarray(x.tensors[root - 1].data)
    dims, a = rec(root)
    perm = list(np.argsort(dims)) + list(range(len(dims), a.ndim))
    return np.transpose(a, perm)


def data(x):
    """Plain array of whatever tensap returned."""
    if isinstance(x, ts.TreeBasedTensor):
        return ref_full(x)
    if hasattr(x, 'full') and not isinstance(x, ts.FullTensor):
        x = x.full()
    if isinstance(x, ts.FullTensor):
        return np.asarray(x.data)
    return np.asarray(x)


def unchanged(c, label, x, snap):
    for i, (t, s) in enumerate(zip(x.tensors, snap[0])):
        c.eq('%s: core %d unchanged' % (label, i + 1), t.data, s)
    c.eq(label + ': dim2ind unchanged', x.tree.dim2ind, snap[1])
    c.eq(label + ': adjacency unchanged', x.tree.adjacency_matrix, snap[2])
    c.eq(label + ': ranks unchanged', x.ranks, snap[3])
    c.eq(label + ': shape unchanged', x.shape, snap[4])


def adder(out, **base):
    """add(function, name, opts={...}, **params) appending cases."""
    def add(f, name, opts=None, **kw):
        o = dict(base)
        o.update(opts or {})
        out.append(Case('%s/%s' % (f.__name__[2:], name), f, kw, **o))
    return add
