"""P02 - tree based tensor arithmetic commutes with densification."""
import itertools
import numpy as np
import tensap as ts
from .common import (Case, tree, tree_from_nested, sym_tree_tensor, ref_full,
                     snapshot, unchanged, data)

BOUNDS = ('trees of order 2-5 (trivial, balanced, linear, unbalanced and '
          'permuted leaves), every pattern of 0-2 inactive leaves listed in '
          'case names, ranks 1-3, mode sizes 1-3, root rank 1-2; every core '
          'entry a free real')
OUTSIDE = 'larger orders/ranks/sizes; rounding (entries are reals)'


def mk(c, name, kind, shape, inact, rank, root_rank=1):
    tr = tree(kind, len(shape))
    n = tr.nb_nodes
    rk = np.array([rank if i % 2 else max(1, rank - 1) for i in range(n)])
    return sym_tree_tensor(c, name, tr, rk, shape, inact, root_rank)


def same_tree(c, label, z, x):
    c.eq(label + ': order', z.order, x.order)
    c.eq(label + ': shape', np.array(z.shape), np.array(ref_full(z).shape)
         [:int(z.order)])


def linear_ops(c, kind, shape, inact, root_rank=1):
    x = mk(c, 'x', kind, shape, inact, 2, root_rank)
    y = mk(c, 'y', kind, shape, inact, 3, root_rank)
    sx, sy = snapshot(x), snapshot(y)
    fx, fy = ref_full(x), ref_full(y)
    k = c.real('k', nonzero=True)
    c.eq('full', data(x.full().data), fx)
    c.eq('numpy', x.numpy(), fx)
    for nm, z, f in (('x+y', x + y, fx + fy), ('x-y', x - y, fx - fy),
                     ('-x', -x, -fx), ('x*k', x * k, fx * k),
                     ('k*x', k * x, fx * k)):
        c.eq(nm, ref_full(z), f)
        same_tree(c, nm, z, x)
    c.eq('x/k', ref_full(x / k) * k, fx)
    if root_rank > 1:
        m = c.real('m', (root_rank, root_rank))
        c.eq('matrix * x', ref_full(m * x), np.tensordot(fx, m, ([-1], [1])))
    unchanged(c, 'x', x, sx)
    unchanged(c, 'y', y, sy)


def products(c, kind, shape, inact, root_rank=1):
    x = mk(c, 'x', kind, shape, inact, 2, root_rank)
    y = mk(c, 'y', kind, shape, inact, 2, root_rank)
    sx, sy = snapshot(x), snapshot(y)
    fx, fy = ref_full(x), ref_full(y)
    h = x * y
    c.eq('x*y', ref_full(h), fx * fy)
    c.eq('hadamard_product', ref_full(x.hadamard_product(y)), fx * fy)
    unchanged(c, 'x', x, sx)
    unchanged(c, 'y', y, sy)


def inner(c, kind, shape, inact):
    x = mk(c, 'x', kind, shape, inact, 2)
    y = mk(c, 'y', kind, shape, inact, 3)
    sx, sy = snapshot(x), snapshot(y)
    fx, fy = ref_full(x), ref_full(y)
    c.eq('dot', x.dot(y), np.sum(fx * fy))
    M = [c.real('M%d' % d, (s, s)) for d, s in enumerate(shape)]
    t = fy
    for d in range(len(shape)):
        t = np.moveaxis(np.tensordot(M[d], t, ([1], [d])), 0, d)
    c.eq('dot_with_rank_one_metric', x.dot_with_rank_one_metric(y, M),
         np.sum(fx * t))
    unchanged(c, 'x', x, sx)
    unchanged(c, 'y', y, sy)


def krons(c, kind, shape, shape2, inact):
    x = mk(c, 'x', kind, shape, inact, 2)
    y = mk(c, 'y', kind, shape2, inact, 2)
    sx, sy = snapshot(x), snapshot(y)
    fx, fy = ref_full(x), ref_full(y)
    ref = np.empty([p * q for p, q in zip(shape, shape2)], dtype=fx.dtype)
    for i in np.ndindex(*shape):
        for j in np.ndindex(*shape2):
            ref[tuple(p * s + q for p, q, s in zip(i, j, shape2))] = \
                fx[i] * fy[j]
    c.eq('kron', ref_full(x.kron(y)), ref)
    ref = np.zeros([p + q for p, q in zip(shape, shape2)]).astype(fx.dtype)
    ref[tuple(slice(0, p) for p in shape)] = fx
    ref[tuple(slice(p, None) for p in shape)] = fy
    c.eq('cat', ref_full(x.cat(y)), ref)
    unchanged(c, 'x', x, sx)
    unchanged(c, 'y', y, sy)


def mixed_activity(c, kind, shape, i1, i2):
    x = mk(c, 'x', kind, shape, i1, 2)
    y = mk(c, 'y', kind, shape, i2, 2)
    sx, sy = snapshot(x), snapshot(y)
    fx, fy = ref_full(x), ref_full(y)
    c.eq('x+y', ref_full(x + y), fx + fy)
    c.eq('x-y', ref_full(x - y), fx - fy)
    unchanged(c, 'x', x, sx)
    unchanged(c, 'y', y, sy)


def mode_products(c, kind, shape, inact, root_rank=1):
    x = mk(c, 'x', kind, shape, inact, 2, root_rank)
    sx = snapshot(x)
    fx = ref_full(x)
    n = len(shape)
    M = [c.real('M%d' % d, (1 + (s + d) % 3, s)) for d, s in enumerate(shape)]
    V = [c.real('V%d' % d, (s,)) for d, s in enumerate(shape)]

    def tmp(a, m, d):
        return np.moveaxis(np.tensordot(m, a, ([1], [d])), 0, d)

    def dg(a, v, d):
        sh = [1] * a.ndim
        sh[d] = v.size
        return a * v.reshape(sh)
    f = fx
    for d in range(n):
        f = tmp(f, M[d], d)
    z = x.tensor_matrix_product(M)
    c.eq('tensor_matrix_product', ref_full(z), f)
    c.eq('shape', z.shape, [m.shape[0] for m in M])
    f = fx
    for d in range(n):
        f = dg(f, V[d], d)
    c.eq('tensor_diagonal_matrix_product', ref_full(
        x.tensor_diagonal_matrix_product(V)), f)
    for d in range(n):
        c.eq('tmp %d' % d, ref_full(x.tensor_matrix_product(M[d], d)),
             tmp(fx, M[d], d))
        if root_rank == 1:
            c.eq('diag product [%d]' % d, ref_full(
                x.tensor_diagonal_matrix_product([V[d]], [d])),
                dg(fx, V[d], d))
    for p in list(itertools.permutations(range(n), 2))[:8]:
        c.eq('tmp %s' % (p,), ref_full(x.tensor_matrix_product(
            [M[p[0]], M[p[1]]], list(p))), tmp(tmp(fx, M[p[0]], p[0]),
                                               M[p[1]], p[1]))
    unchanged(c, 'x', x, sx)


def reductions(c, kind, shape, inact):
    x = mk(c, 'x', kind, shape, inact, 2)
    sx = snapshot(x)
    fx = ref_full(x)
    n = len(shape)
    V = [c.real('V%d' % d, (s,)) for d, s in enumerate(shape)]
    f = fx
    for d in reversed(range(n)):
        f = np.tensordot(V[d], f, ([0], [d]))
    c.eq('tvp all', data(x.tensor_vector_product(V)), f)
    c.eq('reduce_sum all', data(x.reduce_sum()), np.sum(fx))
    for k in range(1, n):
        for p in itertools.combinations(range(n), k):
            for q in ([p, p[::-1]] if k > 1 else [p]):
                f = fx
                for d in sorted(q, reverse=True):
                    f = np.tensordot(V[d], f, ([0], [d]))
                c.eq('tvp %s' % (q,), data(x.tensor_vector_product(
                    [V[d] for d in q], list(q))), f)
            c.eq('reduce_sum %s' % (p,), data(x.reduce_sum(list(p))),
                 np.sum(fx, axis=p))
    c.eq('tvp int', data(x.tensor_vector_product(V[0], 0)),
         np.tensordot(V[0], fx, ([0], [0])))
    unchanged(c, 'x', x, sx)


def activity(c, kind, shape, inact):
    x = mk(c, 'x', kind, shape, inact, 2)
    sx = snapshot(x)
    fx = ref_full(x)
    leaves = np.array(x.tree.dim2ind)
    a = x.activate_nodes(leaves)
    c.eq('activate all', ref_full(a), fx)
    c.ok('all active', np.all(a.is_active_node))
    for k in range(1, len(shape) + 1):
        for p in itertools.combinations(range(len(shape)), k):
            z = x.inactivate_nodes(leaves[list(p)])
            c.eq('inactivate %s' % (p,), ref_full(z), fx)
            c.ok('inactive %s' % (p,), not np.any(
                z.is_active_node[leaves[list(p)] - 1]))
            c.eq('shape', z.shape, shape)
            c.eq('reactivate %s' % (p,), ref_full(
                z.activate_nodes(leaves[list(p)])), fx)
    c.eq('active_dims', x.active_dims, [d for d in range(len(shape))
                                        if d not in inact])
    c.eq('non_active_dims', x.non_active_dims, list(sorted(inact)))
    unchanged(c, 'x', x, sx)


def constructors(c):
    cores = [c.real('c0', (2, 2)), c.real('c1', (2, 3, 2)),
             c.real('c2', (2, 2, 3)), c.real('c3', (3, 2))]
    x = ts.TreeBasedTensor.tensor_train(list(cores))
    f = np.einsum('ia,ajb,bkc,cl->ijkl', *cores)
    c.eq('tensor_train', ref_full(x), f)
    c.eq('tensor_train full', x.full().data, f)
    y = mk(c, 'y', 'bal4', (2, 3, 2, 2), (), 2)
    f = ref_full(y)
    z = ts.TreeBasedTensor(y)
    c.eq('copy', ref_full(z), f)
    z.tensors[0] = z.tensors[0] * 2
    c.eq('copy independent', ref_full(y), f)
    c.eq('storage', y.storage(), sum(np.size(t.data) for t in y.tensors))


def other_numbering(c, swap):
    """Same dimension partition tree, nodes numbered differently."""
    t1 = tree_from_nested(((0, 1), (2, 3)))
    t2 = tree_from_nested(swap)
    shape = (2, 2, 2, 2)
    x = sym_tree_tensor(c, 'x', t1, 2, shape)
    y = sym_tree_tensor(c, 'y', t2, 2, shape)
    fx, fy = ref_full(x), ref_full(y)
    try:
        z = x + y
    except ValueError:
        return            # rejecting the pair is fine
    c.eq('x+y', ref_full(z), fx + fy)


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(fn, kind, shape, inact, nm='', **p):
        out.append(Case('%s-%s-%s%s' % (fn.__name__, kind, ''.join(
            map(str, inact)) or 'active', nm), fn,
            dict(kind=kind, shape=shape, inact=inact, **p)))
    grid = [('bin2', (2, 3), ((), (0,), (1,), (0, 1))),
            ('trivial', (2, 3, 2), ((), (1,), (0, 2), (0, 1, 2))),
            ('bal3', (2, 3, 2), ((), (0,), (2,), (0, 1), (1, 2),
                                 (0, 1, 2))),
            ('lin3', (2, 2, 3), ((), (0,), (1, 2))),
            ('perm4', (2, 1, 3, 2), ((), (1,), (0, 3), (0, 1, 2, 3))),
            ('lin4', (2, 2, 3, 2), ((), (1, 2, 3),)),
            ('mix4', (2, 3, 2, 1), ((), (2,), (0, 1)))]
    if deep:
        grid += [('mix5', (2, 2, 1, 2, 3), ((), (2,), (0, 3))),
                 ('deep4', (2, 3, 2, 2), ((), (1,), (0, 2))),
                 ('bal4', (2, 3, 2, 2), ((), (0, 2)))]
    for kind, shape, ins in grid:
        for i in ins:
            add(linear_ops, kind, shape, i)
            add(mode_products, kind, shape, i)
            if deep or i in ins[:3]:
                add(reductions, kind, shape, i)
                add(activity, kind, shape, i)
            if deep or len(i) < 3:
                add(inner, kind, shape, i)
            if len(shape) < 4 or (i and len(shape) < 5) or deep:
                add(products, kind, tuple(min(2, s) for s in shape), i)
        if len(shape) < 4 or deep:
            s2 = tuple(1 + (d + 1) % 2 for d in range(len(shape)))
            for i in ins[:3]:
                add(krons, kind, tuple(min(2, s) for s in shape), i,
                    shape2=s2)
    for i in ((), (0,), (1, 2)):
        add(linear_ops, 'bal3', (2, 2, 2), i, '-root2', root_rank=2)
        add(mode_products, 'bal3', (2, 2, 2), i, '-root2', root_rank=2)
    add(linear_ops, 'trivial', (2, 2), (), '-root3', root_rank=3)
    add(products, 'bin2', (2, 2), (), '-root2', root_rank=2)
    add(products, 'bin2', (2, 2), (0,), '-root2', root_rank=2)
    for k, s, i1, i2 in (('bal3', (2, 3, 2), (), (0,)),
                         ('bal3', (2, 2, 2), (1,), ()),
                         ('bal3', (2, 2, 2), (0, 1), (2,)),
                         ('trivial', (2, 2, 2), (0,), (1,)),
                         ('perm4', (2, 1, 2, 2), (1,), (0, 3))):
        out.append(Case('mixed_activity-%s-%s-%s' % (k, i1, i2),
                        mixed_activity, dict(kind=k, shape=s, i1=i1, i2=i2)))
    out.append(Case('constructors', constructors))
    out.append(Case('other_numbering-swapped', other_numbering,
                    dict(swap=((2, 3), (0, 1)))))
    out.append(Case('other_numbering-children', other_numbering,
                    dict(swap=((1, 0), (3, 2)))))
    return out
