"""P04 - orthogonalised representations: same tensor, orthonormal frames."""
import numpy as np
import tensap as ts
from .common import (Case, tree, sym_tree_tensor, ref_full, snapshot,
                     unchanged, data)
from .p03 import nodes_below, sub_full, above_full

BOUNDS = ('trees of order 2-4 (balanced, linear, trivial, permuted), ranks '
          '1-2, mode sizes 1-3, listed patterns of inactive leaves; every '
          'core entry a free real; QR and SVD replaced by their contracts '
          '(Q orthonormal, QR = A; U S V = A)')
OUTSIDE = ('larger ranks; rank-deficient Gram matrices in orth_at_node, whose '
           'orthonormality is decided next to the root only (and at any '
           'depth for rank one); '
           'rounding; correctness of LAPACK itself')


def ranked(c, kind, shape, ranks, inact=()):
    return sym_tree_tensor(c, 'x', tree(kind, len(shape)), ranks, shape,
                           inact)


def gram(A):
    """columns of the matricization along the last axis"""
    A = np.asarray(A)
    M = A.reshape(-1, A.shape[-1])
    return np.dot(M.T, M)


def orth_value(c, kind, shape, ranks, inact):
    x = ranked(c, kind, shape, ranks, inact)
    sx = snapshot(x)
    f = ref_full(x)
    o = x.orth()
    c.eq('value', ref_full(o), f)
    c.ok('flag', bool(o.is_orth) and int(o.orth_node) == int(o.tree.root))
    c.eq('order', o.order, x.order)
    c.eq('shape', o.shape, shape)
    unchanged(c, 'x', x, sx)


def orth_frames(c, kind, shape, ranks, inact):
    x = ranked(c, kind, shape, ranks, inact)
    o = x.orth()
    for v in range(1, o.tree.nb_nodes + 1):
        if v != int(o.tree.root) and o.is_active_node[v - 1]:
            A = np.asarray(o.tensors[v - 1].data)
            c.eq('core %d orthonormal' % v, gram(A), np.eye(A.shape[-1]))


def norm_value(c, kind, shape, ranks, inact):
    x = ranked(c, kind, shape, ranks, inact)
    sx = snapshot(x)
    o = x.orth()
    t = ref_full(o)
    n = o.norm()
    c.eq('norm^2 of the orthogonalised', n * n, np.sum(t * t))
    c.ok('norm >= 0', n >= 0)
    n = x.norm()
    c.eq('orth keeps the value', t, ref_full(x))
    c.ok('norm >= 0', n >= 0)
    unchanged(c, 'x', x, sx)


def norm_trivial(c, shape, inact):
    """One level: the contract of QR alone gives the norm of x itself."""
    x = ranked(c, 'trivial', shape, 2, inact)
    f = ref_full(x)
    n = x.norm()
    c.eq('norm^2', n * n, np.sum(f * f))


def given_orth(c, kind, shape, ranks, inact):
    """A tensor whose non-root frames are orthonormal (assumed)."""
    x = ranked(c, kind, shape, ranks, inact)
    for v in range(1, x.tree.nb_nodes + 1):
        if v == int(x.tree.root) or not x.is_active_node[v - 1]:
            continue
        A = np.asarray(x.tensors[v - 1].data)
        if c.symbolic:
            G = gram(A)
            r = G.shape[0]
            c.path.contract('frame-orth', [(G[i, j], int(i == j))
                                           for i in range(r)
                                           for j in range(i, r)])
        else:
            q, _ = np.linalg.qr(A.reshape(-1, A.shape[-1]))
            assert q.size == A.size, 'scenario: frame too wide'
            x.tensors[v - 1] = ts.FullTensor(q.reshape(A.shape))
    x.is_orth = True
    x.orth_node = int(x.tree.root)
    return x


def gramian_value(c, kind, shape, ranks, inact):
    """Gramian of a node: inner products of the complementary functions."""
    x = given_orth(c, kind, shape, ranks, inact)
    sx = snapshot(x)
    g, y = x.gramians()
    c.eq('value', ref_full(y), ref_full(x))
    for v in range(1, x.tree.nb_nodes + 1):
        if v == int(x.tree.root):
            continue
        if not x.is_active_node[v - 1]:
            c.ok('no gramian %d' % v, g[v - 1] is None)
            continue
        c.eq('gramian %d' % v, g[v - 1], gram(above_full(y, v)))
        g1, _ = x.gramians(v)
        c.eq('gramian %d alone' % v, g1, g[v - 1])
    unchanged(c, 'x', x, sx)


def gramian_raw(c, kind, shape, ranks, inact):
    """Gramians of any tensor refer to the tensor returned with them."""
    x = ranked(c, kind, shape, ranks, inact)
    sx = snapshot(x)
    f = ref_full(x)
    g, y = x.gramians()
    c.eq('value', ref_full(y), f)
    for v in range(1, x.tree.nb_nodes + 1):
        if v != int(x.tree.root) and x.is_active_node[v - 1]:
            c.eq('gramian %d' % v, g[v - 1], gram(above_full(y, v)))
            c.eq('symmetric %d' % v, g[v - 1], np.transpose(g[v - 1]))
    unchanged(c, 'x', x, sx)


def at_node(c, kind, shape, ranks, inact, v):
    x = given_orth(c, kind, shape, ranks, inact)
    sx = snapshot(x)
    f = ref_full(x)
    y = x.orth_at_node(v)
    c.eq('value', ref_full(y), f)
    c.eq('shape', y.shape, shape)
    unchanged(c, 'x', x, sx)


def at_node_orth(c, kind, shape, ranks, inact, v):
    """The complementary functions of the node become orthonormal."""
    x = given_orth(c, kind, shape, ranks, inact)
    g, _ = x.gramians(v)
    if np.size(g) == 1:
        c.assume(g[0, 0] != 0)       # documented: zero rank is left alone
    y = x.orth_at_node(v)
    W = above_full(y, v)
    c.eq('complement orthonormal', gram(W), np.eye(W.shape[-1]))


def singular(c, kind, shape, ranks, inact):
    """Squared singular values of every node sum to the squared norm."""
    x = ranked(c, kind, shape, ranks, inact)
    sx = snapshot(x)
    o = x.orth()
    f = ref_full(o)
    sv = x.singular_values()
    for v in range(1, x.tree.nb_nodes + 1):
        if v == int(x.tree.root):
            continue
        if not x.is_active_node[v - 1]:
            c.ok('none', sv[v - 1] is None)
            continue
        s = sv[v - 1]
        c.eq('size', np.size(s), int(o.ranks[v - 1]))
        c.eq('sum of squares %d' % v, np.sum(s * s), np.sum(f * f))
        c.ok('sorted, nonnegative', c.all(
            [t >= 0 for t in s] + [a >= b for a, b in zip(s, s[1:])]))
    unchanged(c, 'x', x, sx)


def full_orth(c, shape, dim):
    a = c.real('a', shape)
    x = ts.FullTensor(a)
    q, r = x.orth(dim)
    d = dim % len(shape)
    c.eq('value', data(q.tensor_matrix_product(np.transpose(r), d)), a)
    A = np.moveaxis(np.asarray(q.data), d, -1)
    c.eq('orthonormal', gram(A), np.eye(A.shape[-1]))
    c.eq('operand', x.data, a)


LIN3 = (1, 2, 2, 1, 2)


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(fn, kind, shape, ranks, inact, nm='', o={}, **p):
        out.append(Case('%s-%s-%s-%s%s' % (
            fn.__name__, kind, 'x'.join(map(str, shape)),
            ''.join(map(str, inact)) or 'active', nm), fn,
            dict(kind=kind, shape=shape, ranks=ranks, inact=inact, **p), **o))
    grid = [('bin2', (2, 3), 2, ((), (0,), (1,), (0, 1))),
            ('trivial', (2, 2, 2), 2, ((), (1,), (0, 2))),
            ('bal3', (2, 2, 2), 2, ((), (2,), (0, 1), (0, 1, 2))),
            ('lin3', (2, 1, 2), LIN3, ((), (1,), (1, 2))),
            ('perm4', (2, 1, 2, 2), 1, ((), (0, 3))),
            ('lin4', (2, 1, 2, 1), 2, ((1, 2, 3),))]
    if deep:
        grid += [('bal4', (2, 2, 2, 2), 2, ((), (0, 2))),
                 ('mix4', (2, 2, 2, 2), 2, ((), (3,)))]
    slow = dict(qtimeout=10)
    for kind, shape, r, ins in grid:
        for i in ins:
            add(orth_value, kind, shape, r, i, o=slow)
            add(orth_frames, kind, shape, r, i, o=slow)
            add(norm_value, kind, shape, r, i, o=slow)
            add(gramian_value, kind, shape, r, i, o=slow)
            add(singular, kind, shape, r, i, o=dict(psd_svd=True, **slow))
            t = tree(kind, len(shape))
            for v in range(2, t.nb_nodes + 1):
                if v not in [int(t.dim2ind[d]) for d in i]:
                    add(at_node, kind, shape, r, i, '-%d' % v, o=slow, v=v)
                    if np.max(r) > 1 and t.level[v - 1] > 1:
                        continue
                    add(at_node_orth, kind, shape, r, i, '-%d' % v,
                        o=dict(psd_svd=True, **slow), v=v)
    for kind, shape, r, i in (('bin2', (2, 2), 2, ()), ('bin2', (2, 3), 2,
                                                        (0,)),
                              ('trivial', (2, 2, 2), 1, ())):
        add(gramian_raw, kind, shape, r, i, o=slow)
    for shape, i in (((2, 2), ()), ((3, 2), (0,)), ((2, 2), (0, 1))):
        out.append(Case('norm_trivial-%s-%s' % (shape, i), norm_trivial,
                        dict(shape=shape, inact=i)))
    for shape in ((2, 3), (3, 2), (2, 2, 2), (2, 1, 3), (3, 1, 1, 2)):
        for d in list(range(len(shape))) + [-1]:
            out.append(Case('full_orth-%s-%d' % (shape, d), full_orth,
                            dict(shape=shape, dim=d)))
    return out
