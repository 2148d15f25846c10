"""P06 - canonical and diagonal tensors agree with their full tensors."""
import itertools
import numpy as np
import tensap as ts
from .common import Case, tree, ref_full, data

BOUNDS = ('orders 1-4, mode sizes 1-3, ranks 1-3, every factor and core entry '
          'a free real; all single modes, all pairs, listed mode lists; '
          'conversion to the listed dimension trees')
OUTSIDE = ('larger sizes and ranks, floating-point rounding, methods the code '
           'declares not implemented')


def canon(c, name, shape, r):
    sp = [c.real('%s%d' % (name, d), (n, r)) for d, n in enumerate(shape)]
    co = c.real(name + 'c', (r,))
    return ts.CanonicalTensor(list(sp), co), sp, co


def cfull(sp, co):
    """sum_k co_k outer(sp[0][:,k], ...), entry by entry."""
    shape = tuple(s.shape[0] for s in sp)
    out = np.zeros(shape).astype(object)
    for i in np.ndindex(*shape):
        v = 0
        for k in range(len(co)):
            t = co[k]
            for d, s in enumerate(sp):
                t = t * s[i[d], k]
            v = v + t
        out[i] = v
    return out


def dfull(d, order):
    n = len(d)
    out = np.zeros((n,) * order).astype(object)
    for i in range(n):
        out[(i,) * order] = d[i]
    return out


def kept(c, x, sp, co):
    for d, s in enumerate(sp):
        c.eq('factor %d unchanged' % d, x.space[d], s)
    c.eq('core unchanged', x.core.data, co)
    c.eq('shape unchanged', x.shape, [s.shape[0] for s in sp])
    c.ok('order unchanged', x.order == len(sp))


def can(c, name, shape, r):
    x, sp, co = canon(c, name, shape, r)
    return x, [np.array(s, copy=True) for s in sp], np.array(co, copy=True)


def c_arith(c, shape, r, q):
    x, sx, cx = can(c, 'x', shape, r)
    y, sy, cy = can(c, 'y', shape, q)
    f, g = cfull(sx, cx), cfull(sy, cy)
    c.eq('full', data(x.full()), f)
    c.eq('numpy', x.numpy(), f)
    c.eq('x+y', data(x + y), f + g)
    c.eq('x-y', data(x - y), f - g)
    c.eq('-x', data(-x), -f)
    c.eq('x-x', data(x - x), 0 * f)
    c.eq('dot', x.dot(y), np.sum(f * g))
    c.ok('storage', x.storage() == r + r * sum(shape))
    c.ok('rank', x.representation_rank() == r and
         (x + y).representation_rank() == r + q)
    c.ok('ndim', x.ndim == len(shape))
    kept(c, x, sx, cx)
    kept(c, y, sy, cy)


def c_norm(c, shape, r):
    x, sx, cx = can(c, 'x', shape, r)
    f = cfull(sx, cx)
    n = x.norm()
    c.eq('norm^2', n * n, abs(x.dot(x)))
    c.eq('dot', x.dot(x), np.sum(f * f))
    c.ok('nonnegative', n >= 0)
    kept(c, x, sx, cx)


def modes(f, mats, dims):
    for m, d in zip(mats, dims):
        f = np.moveaxis(np.tensordot(m, f, ([1], [d])), 0, d)
    return f


def dimsets(n):
    out = [(d,) for d in range(n)]
    out += list(itertools.permutations(range(n), 2))
    return out + ([tuple(range(n)), tuple(reversed(range(n)))]
                  if n > 2 else [])


def c_products(c, shape, r, dims):
    x, sx, cx = can(c, 'x', shape, r)
    f = cfull(sx, cx)
    M = [c.real('m%d' % d, (2, shape[d])) for d in dims]
    v = [c.real('v%d' % d, (shape[d],)) for d in dims]
    one = len(dims) == 1
    c.eq('matrix', data(x.tensor_matrix_product(
        M[0] if one else list(M), dims[0] if one else list(dims))),
        modes(f, M, dims))
    got = x.tensor_vector_product(v[0] if one else list(v),
                                  dims[0] if one else list(dims))
    want = np.sum(modes(f, [t.reshape(1, -1) for t in v], dims),
                  axis=tuple(dims))
    c.eq('vector', np.asarray(data(got)).reshape(np.shape(want)), want)
    s = x.reduce_sum(list(dims))
    c.eq('reduce_sum', np.asarray(data(s)).reshape(
        np.shape(np.sum(f, axis=tuple(dims)))), np.sum(f, axis=tuple(dims)))
    kept(c, x, sx, cx)


def c_all(c, shape, r):
    x, sx, cx = can(c, 'x', shape, r)
    f = cfull(sx, cx)
    M = [c.real('m%d' % d, (2, n)) for d, n in enumerate(shape)]
    v = [c.real('v%d' % d, (n,)) for d, n in enumerate(shape)]
    c.eq('matrices', data(x.tensor_matrix_product(list(M))),
         modes(f, M, range(len(shape))))
    c.eq('vectors', np.asarray(x.tensor_vector_product(list(v))).reshape(()),
         np.asarray(np.sum(modes(f, [t.reshape(1, -1) for t in v],
                                 range(len(shape))))).reshape(()))
    c.eq('sum', np.asarray(x.reduce_sum()).reshape(()),
         np.asarray(np.sum(f)).reshape(()))
    c.eq('diagonal of the products', data(
        x.tensor_matrix_product_eval_diag(list(M))),
        diag_of(modes(f, M, range(len(shape)))))
    kept(c, x, sx, cx)


def diag_of(f):
    return np.array([f[(i,) * f.ndim] for i in range(f.shape[0])])


def diag_modes(f, dims):
    """Diagonal along `dims`, placed at the smallest of them."""
    dims = sorted(dims)
    rest = [d for d in range(f.ndim) if d not in dims[1:]]
    shape = tuple(f.shape[d] for d in rest)
    out = np.zeros(shape).astype(object)
    for i in np.ndindex(*shape):
        full = [0] * f.ndim
        for k, d in enumerate(rest):
            full[d] = i[k]
        for d in dims:
            full[d] = full[dims[0]]
        out[i] = f[tuple(full)]
    return out


def c_diag(c, shape, r, dims):
    x, sx, cx = can(c, 'x', shape, r)
    f = cfull(sx, cx)
    if dims is None:
        c.eq('diagonal', data(x.eval_diag()), diag_of(f))
    else:
        c.eq('diagonal', data(x.eval_diag(
            dims[0] if len(dims) == 1 else list(dims))), diag_modes(f, dims))
    kept(c, x, sx, cx)


def c_squeeze(c, shape, r, dims):
    x, sx, cx = can(c, 'x', shape, r)
    f = cfull(sx, cx)
    got = x.squeeze() if dims is None else x.squeeze(list(dims))
    ax = tuple(d for d, n in enumerate(shape) if n == 1) if dims is None \
        else tuple(dims)
    want = np.squeeze(f, axis=ax)
    c.eq('squeeze', np.asarray(data(got)).reshape(want.shape), want)
    kept(c, x, sx, cx)


def c_gradient(c, n, d, r, ms):
    """Gradient of the diagonal w.r.t. a factor (or the core), contracted
    with that factor, gives the diagonal."""
    N = 2
    if ms is None:
        shape = (N,) * d
        x, sx, cx = can(c, 'x', shape, r)
        y, H = x, None
    else:
        shape = (n,) * d
        x, sx, cx = can(c, 'x', shape, r)
        H = [c.real('h%d' % k, (N, n)) for k in range(d)]
        y = x.tensor_matrix_product(list(H))
    f = cfull(y.space, cx)
    for mu in range(1, d + 2):
        if mu == d + 1:
            g = data(y.parameter_gradient_eval_diag(mu))
            c.eq('core', np.dot(g, cx), diag_of(f))
            continue
        # for a factor the other factors are evaluated at the samples
        z = ts.CanonicalTensor([np.array(s, copy=True) for s in y.space],
                               np.array(cx, copy=True))
        if H is None:
            g = data(z.parameter_gradient_eval_diag(mu))
        else:
            z.space[mu - 1] = np.array(sx[mu - 1], copy=True)
            z.shape[mu - 1] = n
            g = data(z.parameter_gradient_eval_diag(mu, list(H)))
        g = np.asarray(g)
        # g[sample, k, i] : derivative w.r.t. space[mu][i, k] (core excluded)
        got = []
        for s in range(N):
            t = 0
            for k in range(r):
                for i in range(g.shape[2]):
                    t = t + cx[k] * g[s, k, i] * z.space[mu - 1][i, k]
            got.append(t)
        c.eq('factor %d' % mu, np.array(got), diag_of(f))
        for k, s in enumerate(z.space):
            c.eq('factor kept', s, sx[k] if k == mu - 1 else y.space[k])


def c_orth(c, shape, r):
    x, sx, cx = can(c, 'x', shape, r)
    f = cfull(sx, cx)
    o = x.orth()
    for d in range(len(shape)):
        Q = np.asarray(o.space[d])
        c.eq('frame %d' % d, np.dot(Q.T, Q), np.eye(Q.shape[1]))
    g = np.asarray(data(o.core))
    for d in range(len(shape)):
        g = np.moveaxis(np.tensordot(o.space[d], g, ([1], [d])), 0, d)
    c.eq('value', g, f)
    kept(c, x, sx, cx)


def c_tree(c, kind, shape, r, inact):
    x, sx, cx = can(c, 'x', shape, r)
    f = cfull(sx, cx)
    t = tree(kind, len(shape))
    if inact is None:
        y = x.tree_based_tensor(t)
    else:
        act = np.full(t.nb_nodes, True)
        for d in inact:
            act[t.dim2ind[d] - 1] = False
        y = x.tree_based_tensor(t, act)
        c.ok('activity', list(np.asarray(y.is_active_node)) == list(act))
    c.eq('value', ref_full(y), f)
    c.eq('shape', y.shape, shape)
    kept(c, x, sx, cx)


def c_svd(c, r):
    """Truncation of an order-two canonical tensor with orthonormal factors
    (assumed) and zero tolerance keeps it."""
    n = 2
    x, sx, cx = can(c, 'x', (n, n), r)
    f = cfull(sx, cx)
    out = ts.Truncator(0).svd(x)
    c.eq('value', data(out), f)
    c.eq('shape', out.shape, (n, n))
    kept(c, x, sx, cx)


def c_make(c):
    for nm, v in (('zeros', 0), ('ones', 1)):
        t = getattr(ts.CanonicalTensor, nm)(2, [2, 3])
        c.eq(nm, data(t.full()), np.full((2, 3), 2 * v))
        c.ok(nm + ' rank', t.representation_rank() == 2)
    t = ts.CanonicalTensor.rand(2, [2, 1, 3])
    c.eq('rand', data(t.full()), cfull(t.space, t.core.data))
    c.eq('shape', t.shape, (2, 1, 3))
    for k, s in enumerate(t.space):
        for v in np.asarray(s).ravel():
            c.ok('in [0,1]', c.conj(v >= 0, v <= 1))
    t = ts.CanonicalTensor.randn(3, [2, 1])
    c.eq('randn', data(t.full()), cfull(t.space, t.core.data))


# --- diagonal -----------------------------------------------------------------
def dg(c, name, n, order):
    a = c.real(name, (n,))
    return ts.DiagonalTensor(a, order), np.array(a, copy=True)


def dkept(c, x, a, order):
    c.eq('data unchanged', x.data, a)
    c.ok('order unchanged', x.order == order)
    c.eq('shape unchanged', x.shape, [len(a)] * order)


def d_arith(c, n, order, m):
    x, a = dg(c, 'x', n, order)
    y, b = dg(c, 'y', n, order)
    z, e = dg(c, 'z', m, order)
    f, g = dfull(a, order), dfull(b, order)
    c.eq('full', data(x.full()), f)
    c.eq('numpy', x.numpy(), f)
    c.eq('x+y', data(x + y), f + g)
    c.eq('x-y', data(x - y), f - g)
    c.eq('-x', data(-x), -f)
    c.eq('x*y', data(x * y), f * g)
    c.eq('dot', x.dot(y), np.sum(f * g))
    nn = x.norm()
    c.eq('norm^2', nn * nn, np.sum(f * f))
    k = np.zeros((n + m,) * order).astype(object)
    for i in range(n):
        k[(i,) * order] = a[i]
    for i in range(m):
        k[(n + i,) * order] = e[i]
    c.eq('cat', data(x.cat(z)), k)
    k = np.zeros((n * m,) * order).astype(object)
    for i in range(n):
        for j in range(m):
            k[(i * m + j,) * order] = a[i] * e[j]
    c.eq('kron', data(x.kron(z)), k)
    c.eq('copy', data(ts.DiagonalTensor(x)), f)
    o = x.orth()
    c.eq('orth', data(o), f)
    c.ok('storage', x.storage() == n and x.ndim == order)
    dkept(c, x, a, order)
    dkept(c, y, b, order)
    dkept(c, z, e, order)


def d_products(c, n, order):
    x, a = dg(c, 'x', n, order)
    f = dfull(a, order)
    M = [c.real('m%d' % d, (2, n)) for d in range(order)]
    D = [c.real('d%d' % d, (n,)) for d in range(order)]
    c.eq('matrices', data(x.tensor_matrix_product(list(M))),
         modes(f, M, range(order)))
    c.eq('matrix', data(x.tensor_matrix_product(M[0], 0)),
         modes(f, M[:1], [0]))
    c.eq('diagonals', data(x.tensor_diagonal_matrix_product(list(D))),
         modes(f, [np.diag(t) if not c.symbolic else dmat(t) for t in D],
               range(order)))
    c.eq('diagonal of products', data(
        x.tensor_matrix_product_eval_diag(list(M))),
        diag_of(modes(f, M, range(order))))
    for k in range(1, order + 1):
        got = x.tensor_vector_product([np.array(t) for t in D[:k]])
        want = np.sum(modes(f, [t.reshape(1, -1) for t in D[:k]], range(k)),
                      axis=tuple(range(k)))
        c.eq('vectors %d' % k, np.asarray(data(got)).reshape(
            np.shape(want)), want)
    dkept(c, x, a, order)


def dmat(t):
    out = np.zeros((len(t), len(t))).astype(object)
    for i in range(len(t)):
        out[i, i] = t[i]
    return out


def d_metric(c, n, m, order):
    x, a = dg(c, 'x', n, order)
    y, b = dg(c, 'y', m, order)
    M = [c.real('m%d' % d, (n, m)) for d in range(order)]
    f, g = dfull(a, order), dfull(b, order)
    h = modes(g, M, range(order))
    c.eq('metric', x.dot_with_rank_one_metric(y, [np.array(t) for t in M]),
         np.sum(f * h))
    for d in range(order):
        got = x.tensordot_matrix_product_except_dim(
            y, [np.array(t) for t in M], d)
        o = [k for k in range(order) if k != d]
        h = modes(g, [M[k] for k in o], o)
        c.eq('except %d' % d, got, np.tensordot(f, h, (o, o)))
    u = x.tensordot(ts.DiagonalTensor(a, order), 0, 0)
    c.eq('tensordot', data(u), np.tensordot(f, f, ([0], [0])))
    dkept(c, x, a, order)
    dkept(c, y, b, order)


def d_eval(c, n, order):
    x, a = dg(c, 'x', n, order)
    f = dfull(a, order)
    pts = list(itertools.islice(itertools.product(range(n), repeat=order), 30))
    c.eq('indices', np.asarray(x.eval_at_indices(np.array(pts))).ravel(),
         [f[p] for p in pts])
    c.eq('diagonal', data(x.eval_diag()), diag_of(f))
    for k in range(2, order + 1):
        for dims in itertools.combinations(range(order), k):
            c.eq('diagonal %s' % (dims,), data(x.eval_diag(list(dims))),
                 diag_modes(f, dims))
    for p in itertools.permutations(range(order)):
        c.eq('transpose', data(x.transpose(list(p))), f)
        c.eq('itranspose', data(x.itranspose(list(p))), f)
    dkept(c, x, a, order)


def d_convert(c, kind, order, n, inact):
    x, a = dg(c, 'x', n, order)
    f = dfull(a, order)
    if kind is None:
        y = x.tree_based_tensor()
        c.eq('value', ref_full(y), f)
    else:
        t = tree(kind, order)
        act = np.full(t.nb_nodes, True)
        for d in inact:
            act[t.dim2ind[d] - 1] = False
        y = x.tree_based_tensor(t, act)
        c.ok('activity', list(np.asarray(y.is_active_node)) == list(act))
        c.eq('value', ref_full(y), f)
    dkept(c, x, a, order)


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(fn, nm, o={}, **p):
        out.append(Case('%s-%s' % (fn.__name__, nm), fn, p, **o))
    shapes = [(2, 3), (2, 1, 3), (2, 2), (1, 1), (3,), (2, 1, 2, 1)]
    if deep:
        shapes += [(3, 3, 2), (2, 3, 2, 2)]
    for s in shapes:
        for r, q in ((1, 2), (2, 2), (2, 1), (2, 3)):
            add(c_arith, '%s-%d-%d' % (s, r, q), shape=s, r=r, q=q)
        for r in (1, 2):
            add(c_norm, '%s-%d' % (s, r), shape=s, r=r)
        for r in (1, 2, 3):
            add(c_all, '%s-%d' % (s, r), shape=(s if len(s) == 1 else s), r=r)
            for dims in dimsets(len(s)):
                add(c_products, '%s-%d-%s' % (s, r, dims), shape=s, r=r,
                    dims=dims)
    for d in (1, 2, 3, 4):
        for r in (1, 2):
            add(c_diag, '%d-%d-all' % (d, r), shape=(2,) * d, r=r, dims=None)
            for k in range(1, d + 1):
                for dims in itertools.combinations(range(d), k):
                    add(c_diag, '%d-%d-%s' % (d, r, dims), shape=(2,) * d,
                        r=r, dims=dims)
    add(c_diag, 'mixed', shape=(3, 2, 3), r=2, dims=(2, 0))
    for s, ds in (((2, 1, 3), ((1,), None)), ((1, 2, 1), ((0,), (2, 0), (0, 2),
                                                          None)),
                  ((1, 1), (None, (0,), (0, 1))), ((1, 2, 1, 1), ((2,), (0, 3),
                                                                  None))):
        for dims in ds:
            for r in (1, 2):
                add(c_squeeze, '%s-%s-%d' % (s, dims, r), shape=s, r=r,
                    dims=dims)
    for d in (2, 3, 4):
        for r in (1, 2, 3):
            add(c_gradient, 'plain-%d-%d' % (d, r), n=2, d=d, r=r, ms=None)
            for n in (1, 2, 3):
                add(c_gradient, 'mats-%d-%d-%d' % (d, n, r), n=n, d=d, r=r,
                    ms=True)
    for s, r in (((2, 2), 2), ((3, 2), 2), ((2, 2, 2), 2), ((2, 3), 1)):
        add(c_orth, '%s-%d' % (s, r), shape=s, r=r)
    for kind, s, ins in (('trivial', (2, 1, 3), (None, (), (0,), (0, 1, 2))),
                         ('bal3', (2, 2, 1), (None, (2,), (0, 1))),
                         ('perm4', (2, 1, 2, 2), (None, (1, 2))),
                         ('lin4', (2, 1, 2, 2), ((1, 2, 3),)),
                         ('mix4', (2, 1, 2, 3), (None, (0, 1, 3)))):
        for i in ins:
            for r in (1, 2):
                add(c_tree, '%s-%s-%d' % (kind, i, r), kind=kind, shape=s,
                    r=r, inact=i)
    add(c_svd, '1', r=1)
    add(c_svd, '2', r=2)
    add(c_make, 'make')
    for n in (1, 2, 3):
        for order in (1, 2, 3, 4):
            if n == 3 and order == 4 and not deep:
                continue
            add(d_arith, '%d-%d' % (n, order), n=n, order=order, m=2)
            add(d_products, '%d-%d' % (n, order), n=n, order=order)
            if order > 1:
                for m in (1, 2, 3):
                    add(d_metric, '%d-%d-%d' % (n, m, order), n=n, m=m,
                        order=order)
                add(d_eval, '%d-%d' % (n, order), n=n, order=order)
    for kind, order, ins in ((None, 2, ()), (None, 3, ()), (None, 4, ()),
                             ('bal3', 3, ((), (0, 1, 2), (1,))),
                             ('perm4', 4, ((), (0, 1, 2, 3), (3, 1))),
                             ('trivial', 3, ((), (0,)))):
        for i in (ins if kind else (None,)):
            add(d_convert, '%s-%s-%s' % (kind, order, i), kind=kind,
                order=order, n=2, inact=i)
    return out
