"""P05 - truncation: tolerance reached, ranks bounded, no larger than needed."""
import numpy as np
import tensap as ts
from .common import (Case, tree, sym_tree_tensor, ref_full, snapshot,
                     unchanged, data)

BOUNDS = ('matrices up to 3x3, tensors of order 2-4 with mode sizes 1-3; '
          'tolerance symbolic or listed, maximum ranks 1-3; generic entries '
          'with the SVD replaced by its contract for values, frames and rank '
          'selection; symbolic all-orthogonal tensors, whose SVDs are '
          'computed exactly, for the global error of the tensor truncations')
OUTSIDE = ('global error of hosvd/hsvd/ttsvd on tensors that are not '
           'all-orthogonal; zero matrices; thresholds above every singular '
           'value; rounding (errors compared with 1e-9 relative slack)')
SL = 1 + 1e-9


def sq(x):
    x = np.asarray(x).ravel()
    return np.sum(x * x)


def mat_of(out):
    """Dense matrix of a truncated SVD, from its definition."""
    s = np.asarray(out.core.data)
    return np.dot(np.asarray(out.space[0]) * s,
                  np.transpose(np.asarray(out.space[1])))


def diagonal(c, n, m, k, pos=None):
    """k nonnegative symbolic values placed one per row and column."""
    s = c.real('s', (k,), lo=0)
    c.assume(np.sum(s) > 0)
    a = np.zeros((n, m)).astype(object if c.symbolic else float)
    for i in range(k):
        a[i, (pos or range(k))[i]] = s[i]
    return a, s


def tail(s, k, p):
    """Schatten-p distance to the best rank-k matrix, to the power p."""
    r = 0
    for i, x in enumerate(s):
        n_larger = 0
        for j, y in enumerate(s):
            if j != i and (bool(y > x) or (j < i and bool(y == x))):
                n_larger += 1
        if n_larger >= k:
            r = r + x ** p if p != np.inf else (x if bool(x >= r) else r)
    return r


def rank_rule(c, n, m, k, pos, power, mr, tol, via):
    """Smallest rank reaching the tolerance, capped by the maximum rank."""
    a, s = diagonal(c, n, m, k, pos)
    a0 = np.array(a, copy=True)
    t = c.real('tol', lo=0.01, hi=0.9) if tol is None else tol
    tr = ts.Truncator(0.123 if via == 'arg' else t, mr)
    if via == 'arg':
        out = tr.trunc_svd(a, t, power)
    elif via == 'svd':
        out = tr.svd(ts.FullTensor(a))
    elif via == 'truncate':
        out = tr.truncate(a)
    else:
        out = tr.trunc_svd(a, power=power)
    K = np.asarray(out.core.data).size
    c.ok('order', out.order == 2 and list(out.shape) == [n, m])
    c.ok('rank cap', K <= mr and K >= 1)
    P = 1 if power == np.inf else power
    total = tail(s, 0, power)
    c.eq('singular values', np.sum(np.asarray(out.core.data)),
         tail(s, 0, 1) - tail(s, K, 1))
    c.eq('distance', sq(a0 - mat_of(out)), tail(s, K, 2), tol=None)
    if K < mr:
        c.ok('tolerance', tail(s, K, power) <= t ** P * total * SL)
    if K > 1:
        c.ok('smallest', tail(s, K - 1, power) * SL >= t ** P * total)
    c.eq('operand', a, a0)
    c.ok('truncator unchanged', np.all(np.asarray(tr.max_rank) == mr))


def threshold(c, kind, k, mr):
    a, s = diagonal(c, k, k, k)
    th = c.real('th', lo=0.1, hi=5)
    c.assume(np.max(s) > th)
    tr = ts.Truncator(0, mr, kind, th)
    out = tr.trunc_svd(a)
    got = np.asarray(out.core.data)
    keep = [x for x in s if bool(x >= th)]
    K = got.size
    if mr == np.inf:
        c.eq('number kept', K, len(keep))
    else:
        c.eq('number kept', K, min(len(keep), mr))
    drop = th if kind == 'soft' else 0
    c.eq('values', np.sum(got), tail(s, 0, 1) - tail(s, K, 1) - K * drop)
    c.eq('distance', sq(a - mat_of(out)), tail(s, K, 2) + K * drop * drop)


def generic(c, n, m, mr, tol, how):
    """Any matrix: frames, kept singular values, distance, tolerance."""
    a = c.real('a', (n, m))
    c.assume(a[0, 0] != 0)
    if how == 'dense':
        tr = ts.Truncator(tol, mr)
        out = tr.truncate(ts.FullTensor(a))
    elif how == 'np':
        out = ts.Truncator(tol, mr).svd(a)
    else:
        out = ts.Truncator(tol, mr).trunc_svd(a)
    s = np.asarray(out.core.data)
    K = s.size
    c.ok('rank cap', K <= mr)
    U, V = np.asarray(out.space[0]), np.asarray(out.space[1])
    c.eq('left frame', np.dot(U.T, U), np.eye(K))
    c.eq('right frame', np.dot(V.T, V), np.eye(K))
    c.eq('shapes', out.shape, (n, m))
    c.eq('projection', np.dot(U.T, a), (V * s).T)
    for i in range(K):
        c.ok('nonnegative', s[i] >= 0)
        if i:
            c.ok('sorted', s[i] <= s[i - 1])
    if K < mr:
        c.ok('tolerance', (sq(a) - sq(s)) * 1 <= tol ** 2 * sq(a) * SL)
    if K == min(n, m):
        c.eq('exact', mat_of(out), a)


# positions of all-orthogonal tensors: every matricization used below has
# rows with disjoint supports, so its SVD is known exactly
ALLORTH = {
    'diag3': ((2, 2, 2), [(0, 0, 0), (1, 1, 1)]),
    'diag3s': ((3, 2, 2), [(2, 0, 1), (0, 1, 0)]),
    'xor3': ((2, 2, 2), [(0, 0, 0), (1, 1, 0), (1, 0, 1)]),
    'spread3': ((3, 3, 3), [(0, 0, 0), (1, 1, 1), (2, 0, 1), (1, 2, 0),
                            (0, 1, 2)]),
    # what each mode loses adds up
    'tails3': ((3, 3, 3), [(0, 1, 1), (1, 0, 1), (1, 1, 0), (2, 0, 0),
                           (0, 2, 0), (0, 0, 2)]),
    'one3': ((3, 1, 2), [(1, 0, 0), (2, 0, 1)]),
    'diag4': ((2, 2, 2, 2), [(0, 0, 0, 0), (1, 1, 1, 1)]),
    'blk4': ((2, 2, 2, 2), [(0, 0, 1, 1), (1, 1, 0, 0), (0, 1, 0, 1)]),
    'mat': ((3, 2), [(2, 0), (1, 1)]),
    'pairs4': ((2, 2, 2, 2), [(0, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 1)]),
}


def allorth(c, key, big=0):
    """`big` first entries are fixed large numbers, the others symbolic."""
    shape, pos = ALLORTH[key]
    f = np.zeros(shape).astype(object if c.symbolic else float)
    for i, p in enumerate(pos):
        f[p] = (16 - 4 * i) if i < big else \
            c.real('x%d' % i, lo=0.25, hi=max(2, 8 - 2 * i))
    if key == 'tails3':
        f[0, 2, 0] = f[2, 0, 0] * 0.75
        f[0, 0, 2] = f[2, 0, 0]
    return f


def dense_trunc(c, key, tol, mr, how, big, kind=None, inact=()):
    f = allorth(c, key, big)
    shape = f.shape
    f0 = np.array(f, copy=True)
    x = ts.FullTensor(f)
    tr = ts.Truncator(tol, mr)
    if how == 'hosvd':
        y = tr.hosvd(x)
        y.tensors
    elif how == 'hosvd-np':
        y = tr.hosvd(f)
    elif how == 'truncate':
        y = tr.truncate(f)
    elif how == 'ttsvd':
        y = tr.ttsvd(x)
    else:
        t = tree(kind, len(shape))
        act = np.full(t.nb_nodes, True)
        for d in inact:
            act[t.dim2ind[d] - 1] = False
        y = tr.hsvd(x, t, act) if inact else tr.hsvd(x, t)
        c.eq('tree', y.tree.adjacency_matrix, t.adjacency_matrix)
        c.eq('dims', y.tree.dim2ind, t.dim2ind)
        c.ok('activity', list(np.asarray(y.is_active_node)) == list(act))
    trunc_checks(c, f0, y, tol, mr)
    c.eq('operand', x.data, f0)


def trunc_checks(c, f0, y, tol, mr):
    g = ref_full(y)
    c.eq('shape', y.shape, f0.shape)
    mrs = np.asarray(mr, dtype=float)
    rk = np.array([int(r) for r in y.ranks])
    for v in range(1, y.tree.nb_nodes + 1):
        if v != int(y.tree.root) and y.is_active_node[v - 1]:
            cap = mrs if mrs.ndim == 0 else mrs[v - 1]
            c.ok('rank cap %d' % v, 1 <= rk[v - 1] <= cap)
            A = np.asarray(y.tensors[v - 1].data)
            A = A.reshape(-1, A.shape[-1])
            c.eq('frame %d' % v, np.dot(A.T, A), np.eye(A.shape[-1]))
    if np.all(mrs == np.inf):
        c.ok('tolerance', sq(f0 - g) <= tol ** 2 * sq(f0) * SL)
    # a projection: the error is what was lost
    c.eq('orthogonal projection', sq(f0 - g), sq(f0) - sq(g))


def tt_form(c, key, tol, mr):
    """Tensor-train truncation: linear tree, first leaf only is active."""
    f = allorth(c, key)
    y = ts.Truncator(tol, mr).ttsvd(ts.FullTensor(f))
    d = f.ndim
    act = [bool(y.is_active_node[n - 1]) for n in y.tree.dim2ind]
    c.ok('leaves', act == [True] + [False] * (d - 1))
    c.ok('order', y.order == d)
    trunc_checks(c, f, y, tol, mr)


def exact_generic(c, shape, how, kind=None, inact=(), root=1):
    """Zero tolerance and no rank limit: the tensor itself, any entries."""
    f = c.real('f', shape + ((root,) if root > 1 else ()))
    x = ts.FullTensor(f)
    tr = ts.Truncator(0)
    if how == 'hosvd':
        y = tr.hosvd(x)
        # value: the core is the tensor projected on the frames, and every
        # frame spans the columns of its matricization
        want = f
        for d in range(f.ndim):
            U = np.asarray(y.tensors[y.tree.dim2ind[d] - 1].data)
            A = np.moveaxis(f, d, 0).reshape(f.shape[d], -1)
            c.eq('span %d' % d, np.dot(U, np.dot(U.T, A)), A)
            want = np.moveaxis(np.tensordot(U.T, want, ([1], [d])), 0, d)
        c.eq('core', y.tensors[y.tree.root - 1].data, want)
        c.eq('shape', y.shape, shape)
        c.eq('operand', x.data, f)
        return
    elif how == 'ttsvd':
        y = tr.ttsvd(x)
    else:
        t = tree(kind, len(shape))
        act = np.full(t.nb_nodes, True)
        for d in inact:
            act[t.dim2ind[d] - 1] = False
        y = tr.hsvd(x, t, act)
    c.eq('value', ref_full(y), f)
    c.eq('operand', x.data, f)


def tree_of(c, kind, shape, root_core, tt):
    """Tree tensor with unit frames below and the given root core."""
    t = tree(kind, len(shape))
    cores = []
    dim_of = {int(n): i for i, n in enumerate(t.dim2ind)}
    for v in range(1, t.nb_nodes + 1):
        if v == int(t.root):
            cores.append(root_core)
        elif v in dim_of:
            cores.append(np.eye(shape[dim_of[v]]))
        else:
            cores.append(tt)
    return ts.TreeBasedTensor(cores, t)


def tree_trunc(c, key, tol, mr, kind, typ):
    """Truncation of a tree tensor, both sweeps."""
    if kind in ('trivial', 'bin2'):
        f = allorth(c, key)
        x = tree_of(c, kind, f.shape, f, None)
    elif kind == 'bal4':
        # transfer cores: node (i,j) -> 2 functions with disjoint supports
        t = np.zeros((2, 2, 2))
        t[0, 0, 0] = 1
        t[1, 1, 1] = 1
        a = c.real('a', (2,), lo=0.25, hi=8)
        r = np.zeros((2, 2)).astype(object if c.symbolic else float)
        r[0, 0], r[1, 1] = a[0], a[1]
        x = tree_of(c, kind, (2, 2, 2, 2), r, t)
    else:                                # bal3: ((0,1),2)
        t = np.zeros((2, 2, 2))
        t[0, 1, 0] = 1
        t[1, 0, 1] = 1
        a = c.real('a', (2,), lo=0.25, hi=8)
        r = np.zeros((2, 2)).astype(object if c.symbolic else float)
        for i, ch in enumerate(((0, 1), (1, 0))):
            r[ch] = a[i]
        ch = [int(q) for q in tree(kind).children(int(tree(kind).root))]
        x = tree_of(c, kind, (2, 2, 2), r, t)
    f0 = ref_full(x)
    sx = snapshot(x)
    tr = ts.Truncator(tol, mr)
    tr._hsvd_type = typ
    y = tr.truncate(x) if typ == 2 else tr.hsvd(x)
    g = ref_full(y)
    c.eq('shape', y.shape, x.shape)
    for v in range(1, y.tree.nb_nodes + 1):
        if v != int(y.tree.root):
            cap = mr if np.ndim(mr) == 0 else mr[v - 1]
            c.ok('rank cap', 1 <= int(y.ranks[v - 1]) <= cap)
            if y.is_orth:
                A = np.asarray(y.tensors[v - 1].data)
                A = A.reshape(-1, A.shape[-1])
                c.eq('frame %d' % v, np.dot(A.T, A), np.eye(A.shape[-1]))
    if np.all(np.asarray(mr) == np.inf):
        c.ok('tolerance', sq(f0 - g) <= tol ** 2 * sq(f0) * SL)
    c.eq('orthogonal projection', sq(f0 - g), sq(f0) - sq(g))
    nrm = y.norm()
    c.eq('norm', nrm * nrm, sq(g))
    unchanged(c, 'x', x, sx)


def tree_generic(c, kind, shape, ranks, inact, typ):
    """Generic tree tensor, no truncation possible: value kept."""
    x = sym_tree_tensor(c, 'x', tree(kind, len(shape)), ranks, shape, inact)
    sx = snapshot(x)
    f = ref_full(x)
    tr = ts.Truncator(0)
    tr._hsvd_type = typ
    y = tr.hsvd(x)
    c.eq('value', ref_full(y), f)
    unchanged(c, 'x', x, sx)


def history(c, how, mr):
    """A truncator gives the same result when used again."""
    key = 'diag3'
    f = allorth(c, key)
    tr = ts.Truncator(1e-6, np.array(mr) if np.ndim(mr) else mr)
    t = tree('trivial', 3)

    def run():
        x = ts.FullTensor(np.array(f, copy=True))
        if how == 'hosvd':
            return tr.hosvd(x)
        if how == 'hsvd':
            return tr.hsvd(x, t)
        z = tr.hsvd(tree_of(c, 'trivial', f.shape, f, None))
        return z
    a, b = run(), run()
    c.eq('same ranks', np.array(a.ranks).astype(int),
         np.array(b.ranks).astype(int))
    c.eq('same tensor', ref_full(a), ref_full(b))
    c.eq('max_rank kept', np.asarray(tr.max_rank, dtype=float),
         np.asarray(mr, dtype=float))
    want = list(mr) if np.ndim(mr) else [mr] * 3
    if how == 'hosvd':
        c.ok('caps', all(int(a.ranks[n - 1]) <= w
                         for n, w in zip(a.tree.dim2ind, want)))


INF = np.inf


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(fn, nm, o={}, **p):
        o = dict(dict(exact_svd=True, exact_sqrt=False, sqrt_def=True), **o)
        out.append(Case('%s-%s' % (fn.__name__, nm), fn, p, **o))
    for n, m, k, pos in ((2, 2, 2, None), (2, 3, 2, (2, 0)), (3, 2, 2, None),
                         (3, 3, 3, None)):
        for power in (2, 1, INF):
            for mr in (INF, 2, 1):
                for tol in (None, 0.3):
                    if (k == 3 and tol is None and power != 1 or
                            k == 3 and mr == 1 or
                            k == 3 and power == 2 and tol) and not deep:
                        continue
                    add(rank_rule, '%dx%d-p%s-r%s-%s' % (n, m, power, mr, tol),
                        n=n, m=m, k=k, pos=pos, power=power, mr=mr, tol=tol,
                        via='attr' if tol is None else 'arg')
    for via in ('svd', 'truncate'):
        for mr in (INF, 1):
            add(rank_rule, '%s-%s' % (via, mr), n=2, m=3, k=2, pos=(1, 2),
                power=2, mr=mr, tol=None, via=via)
    for kind in ('hard', 'soft'):
        for k in (2, 3):
            for mr in (INF, 1, 2):
                add(threshold, '%s-%d-%s' % (kind, k, mr), kind=kind, k=k,
                    mr=mr)
    for n, m in ((2, 2), (2, 3), (3, 2), (1, 3)):
        for mr, tol in ((INF, 0), (INF, 0.5), (1, 0.001)):
            for how in ('dense', 'np', 'direct')[:1 if n * m > 4 else 3]:
                add(generic, '%dx%d-%s-%s-%s' % (n, m, mr, tol, how),
                    o=dict(exact_svd=False), n=n, m=m, mr=mr, tol=tol,
                    how=how)
    for kind in ('trivial', 'bal3', 'lin3') if deep else ('trivial',):
        add(dense_trunc, 'hsvd-tails3-%s' % kind, key='tails3', tol=0.1,
            mr=INF, how='tree', kind=kind, big=3,
            o=dict(sqrt_def=True))
    for key in ('diag3', 'diag3s', 'xor3', 'one3', 'mat', 'spread3', 'diag4',
                'tails3'):
        if key in ('spread3', 'tails3'):
            combos = [('hosvd', 0.1, INF)]
        else:
            combos = [('hosvd', 0.1, INF), ('hosvd', 0.5, INF),
                      ('hosvd', 1e-9, 1), ('truncate', 0.3, INF),
                      ('hosvd-np', 0.3, 2)]
        for how, tol, mr in combos:
            if key == 'mat':
                continue
            add(dense_trunc, '%s-%s-%s-%s' % (key, how, tol, mr), key=key,
                tol=tol, mr=mr, how=how,
                big={'spread3': 2, 'tails3': 3}.get(key, 0),
                o={})
    for key, kind, ins in (('diag3', 'trivial', ()), ('diag3', 'bal3', ()),
                           ('diag3s', 'lin3', ()), ('diag3', 'bal3', (1,)),
                           ('diag3s', 'trivial', (0,)), ('mat', 'bin2', ()),
                           ('diag4', 'bal4', ()), ('diag4', 'perm4', (0, 1)),
                           ('diag4', 'lin4', (1,)),
                           ('diag4', 'mix4', ())):
        for tol, mr in ((0.1, INF), (0.5, INF), (1e-9, 1)):
            add(dense_trunc, 'hsvd-%s-%s-%s-%s-%s' % (
                key, kind, ''.join(map(str, ins)), tol, mr), key=key, tol=tol,
                mr=mr, how='hsvd', big=0, kind=kind, inact=ins)
    for key in ('diag3', 'diag3s', 'one3', 'diag4'):
        for tol, mr in ((0.1, INF), (0.5, INF), (1e-9, 1)):
            add(tt_form, '%s-%s-%s' % (key, tol, mr), key=key, tol=tol, mr=mr)
    g = dict(exact_svd=False, qtimeout=10)
    for shape in ((2, 2, 2), (2, 1, 3), (3, 2, 1)):
        add(exact_generic, 'hosvd-%s' % (shape,), o=g, shape=shape,
            how='hosvd')
        add(exact_generic, 'ttsvd-%s' % (shape,), o=g, shape=shape,
            how='ttsvd')
        for kind, ins in (('trivial', (0,)), ('bal3', ()), ('lin3', (1, 2))):
            add(exact_generic, 'hsvd-%s-%s-%s' % (shape, kind, ins), o=g,
                shape=shape, how='hsvd', kind=kind, inact=ins)
    add(exact_generic, 'hsvd-root', o=g, shape=(2, 2), how='hsvd',
        kind='bin2', root=2)
    add(exact_generic, 'hsvd-root3', o=g, shape=(2, 1, 2), how='hsvd',
        kind='bal3', root=2)
    for key, kind in (('diag3', 'trivial'), ('diag3s', 'trivial'),
                      ('xor3', 'trivial'), ('mat', 'bin2'), ('', 'bal4'),
                      ('', 'bal3')):
        for typ in (1, 2):
            for tol, mr in ((0.1, INF), (0.5, INF), (1e-9, 1)):
                add(tree_trunc, '%s-%s-%d-%s-%s' % (key, kind, typ, tol, mr),
                    key=key, tol=tol, mr=mr, kind=kind, typ=typ)
    for kind, shape, r, i in (('bin2', (2, 2), 2, ()), ('bin2', (2, 2), 2,
                                                        (1,)),
                              ('trivial', (2, 2, 2), 1, ())):
        for typ in (1, 2):
            add(tree_generic, '%s-%s-%d' % (kind, i, typ),
                o=dict(exact_svd=False, psd_svd=True, qtimeout=10), kind=kind,
                shape=shape, ranks=r, inact=i, typ=typ)
    for how in ('hosvd', 'hsvd', 'tree'):
        for mr in (2, (1, 2, 2) if how == 'hosvd' else (1, 1, 2, 2)):
            add(history, '%s-%s' % (how, mr), how=how, mr=mr)
    return out
