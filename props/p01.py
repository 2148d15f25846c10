"""P01 - FullTensor operations agree with their entrywise definition."""
import itertools
import numpy as np
import tensap as ts
from .common import Case, data

BOUNDS = ('orders 1-4, mode sizes 1-3 (quick) / up to 4 (thorough), every '
          'entry of every operand a free real; mode lists: all single modes, '
          'all ordered pairs and the full list')
OUTSIDE = ('larger sizes, floating-point rounding (entries are reals), '
           'tensorflow data')


def ft(c, name, shape):
    a = c.real(name, shape)
    return ts.FullTensor(a), np.array(a, copy=True)


def frozen(c, x, a):
    c.eq('operand unchanged', x.data, a)


def arithmetic(c, shape):
    x, a = ft(c, 'x', shape)
    y, b = ft(c, 'y', shape)
    k = c.real('k', nonzero=True)
    c.eq('x+y', data(x + y), a + b)
    c.eq('x-y', data(x - y), a - b)
    c.eq('-x', data(-x), -a)
    c.eq('x*y', data(x * y), a * b)
    c.eq('hadamard', data(x.hadamard_product(y)), a * b)
    c.eq('k*x', data(k * x), k * a)
    c.eq('x*k', data(x * k), k * a)
    c.eq('(x/k)*k', data(x / k) * k, a)
    c.eq('x+k', data(x + k), a + k)
    c.eq('k+x', data(k + x), a + k)
    c.eq('k-x', data(k - x), k - a)
    c.eq('x**2', data(x ** 2), a * a)
    c.eq('dot', x.dot(y), np.sum(a * b))
    n = x.norm()
    c.eq('norm^2', n * n, np.sum(a * a))
    c.ok('norm>=0', n >= 0)
    c.eq('reduce_sum all', data(x.reduce_sum()),
         np.sum(a).reshape([1] * a.ndim) if hasattr(np.sum(a), 'reshape')
         else np.array([np.sum(a)]).reshape([1] * a.ndim))
    for d in range(a.ndim):
        c.eq('reduce_sum %d' % d, data(x.reduce_sum(d)),
             np.sum(a, axis=d, keepdims=True))
        c.eq('reduce_mean %d' % d, data(x.reduce_mean(d)) * a.shape[d],
             np.sum(a, axis=d, keepdims=True))
    frozen(c, x, a)
    frozen(c, y, b)


def shaping(c, shape):
    x, a = ft(c, 'x', shape)
    n = a.ndim
    for p in itertools.permutations(range(n)):
        t = np.transpose(a, p)
        c.eq('transpose %s' % (p,), data(x.transpose(p)), t)
        c.eq('itranspose %s' % (p,), data(ts.FullTensor(t).itranspose(p)), a)
    c.eq('reshape', data(x.reshape([int(np.prod(shape))])),
         np.array([a[tuple(reversed(i))] for i in itertools.product(
             *[range(s) for s in reversed(shape)])], dtype=a.dtype))
    c.eq('shape', x.shape, np.array(shape))
    c.eq('order', x.order, n)
    c.eq('storage', x.storage(), int(np.prod(shape)))
    for k in range(1, n):
        for dims in itertools.permutations(range(n), k):
            rest = [d for d in range(n) if d not in dims]
            m = data(x.matricize(list(dims)))
            ref = np.empty((int(np.prod([shape[d] for d in dims])),
                            int(np.prod([shape[d] for d in rest]))),
                           dtype=a.dtype)
            for i in itertools.product(*[range(s) for s in shape]):
                r = s = 0
                w = 1
                for d in dims:
                    r += i[d] * w
                    w *= shape[d]
                w = 1
                for d in rest:
                    s += i[d] * w
                    w *= shape[d]
                ref[r, s] = a[i]
            c.eq('matricize %s' % (dims,), m, ref)
    c.eq('matricize -1', data(x.matricize(-1)),
         data(x.matricize([n - 1])))
    if n > 1:
        dims = list(range(n))
        c.eq('matricize dims1 dims2',
             data(x.matricize([dims[-1]], dims[:-1][::-1])),
             np.array([[a[tuple(reversed(i))[:0] + tuple(
                 _inv(dims[-1], dims[:-1][::-1], r, s, shape))]
                 for s in range(int(np.prod(shape[:-1])))]
                 for r in range(shape[-1])], dtype=a.dtype))
    frozen(c, x, a)


def _inv(d0, rest, r, s, shape):
    """Index of entry (r, s) of the matricization with rows d0, cols rest."""
    idx = [0] * len(shape)
    idx[d0] = r
    for d in rest:
        idx[d] = s % shape[d]
        s //= shape[d]
    return idx


def squeeze(c):
    x, a = ft(c, 'x', (1, 2, 1, 3))
    c.eq('squeeze all', data(x.squeeze()), a[0, :, 0, :])
    c.eq('squeeze 0', data(x.squeeze(0)), a[0])
    c.eq('squeeze 2', data(x.squeeze([2])), a[:, :, 0])
    c.eq('squeeze 0,2', data(x.squeeze([0, 2])), a[0, :, 0])
    y, b = ft(c, 'y', (1, 1))
    c.eq('squeeze scalar', y.squeeze(), b[0, 0])
    frozen(c, x, a)


def products(c, shape, rows):
    x, a = ft(c, 'x', shape)
    n = a.ndim
    M = [c.real('M%d' % d, (rows[d], shape[d])) for d in range(n)]
    V = [c.real('V%d' % d, (shape[d],)) for d in range(n)]

    def tmp(arr, m, d):
        return np.moveaxis(np.tensordot(m, arr, ([1], [d])), 0, d)
    full = a
    for d in range(n):
        full = tmp(full, M[d], d)
    c.eq('tensor_matrix_product', data(x.tensor_matrix_product(M)), full)
    c.eq('tmp FullTensor matrices', data(x.tensor_matrix_product(
        [ts.FullTensor(m) for m in M])), full)
    for d in range(n):
        c.eq('tmp dim %d' % d, data(x.tensor_matrix_product(M[d], d)),
             tmp(a, M[d], d))
        c.eq('tvp dim %d' % d, data(x.tensor_vector_product(V[d], d)),
             np.tensordot(V[d], a, ([0], [d])))
        D = np.zeros((shape[d], shape[d])).astype(a.dtype)
        for i in range(shape[d]):
            D[i, i] = V[d][i]
        c.eq('diag product dim %d' % d,
             data(x.tensor_diagonal_matrix_product(V[d], d)), tmp(a, D, d))
    for p in itertools.permutations(range(n), 2):
        c.eq('tmp dims %s' % (p,),
             data(x.tensor_matrix_product([M[p[0]], M[p[1]]], p)),
             tmp(tmp(a, M[p[0]], p[0]), M[p[1]], p[1]))
        q = sorted(p, reverse=True)
        r = a
        for d in q:
            r = np.tensordot(V[d], r, ([0], [d]))
        c.eq('tvp dims %s' % (p,), data(x.tensor_vector_product(
            [V[p[0]], V[p[1]]], p)), r)
    r = a
    for d in reversed(range(n)):
        r = np.tensordot(V[d], r, ([0], [d]))
    c.eq('tvp all', data(x.tensor_vector_product(V)), r)
    c.eq('diag product all', data(x.tensor_diagonal_matrix_product(V)),
         _rank1(V, a))
    frozen(c, x, a)


def _rank1(V, a):
    out = np.array(a, copy=True)
    for i in np.ndindex(*a.shape):
        v = a[i]
        for d, k in enumerate(i):
            v = v * V[d][k]
        out[i] = v
    return out


def eval_diag_products(c, shape, n):
    """Products with matrices of n rows, keeping the common row index."""
    x, a = ft(c, 'x', shape)
    d = a.ndim
    M = [c.real('M%d' % k, (n, shape[k])) for k in range(d)]
    for k in range(2, d + 1):
        for dims in itertools.combinations(range(d), k):
            got = x.tensor_matrix_product_eval_diag(
                [M[i] for i in dims], list(dims))
            rest = [i for i in range(d) if i not in dims]
            ref = np.empty([n] + [shape[i] for i in rest], dtype=a.dtype)
            for i in np.ndindex(*ref.shape):
                s = 0
                for l in itertools.product(*[range(shape[q]) for q in dims]):
                    idx = [0] * d
                    for q, v in zip(dims, l):
                        idx[q] = v
                    for q, v in zip(rest, i[1:]):
                        idx[q] = v
                    t = a[tuple(idx)]
                    for q, v in zip(dims, l):
                        t = t * M[q][i[0], v]
                    s = s + t
                ref[i] = s
            c.eq('tmp_eval_diag %s' % (dims,), data(got), ref)
    c.eq('tmp_eval_diag all', data(x.tensor_matrix_product_eval_diag(M)),
         ref)
    frozen(c, x, a)


def contraction(c, s1, s2, pairs):
    x, a = ft(c, 'x', s1)
    y, b = ft(c, 'y', s2)
    for d1, d2 in pairs:
        c.eq('tensordot %s %s' % (d1, d2), data(x.tensordot(y, d1, d2)),
             np.tensordot(a, b, (list(d1), list(d2))))
        if len(d1) == 1:
            c.eq('tensordot int %s %s' % (d1, d2),
                 data(x.tensordot(y, d1[0], d2[0])),
                 np.tensordot(a, b, (list(d1), list(d2))))
    c.eq('outer', data(x.tensordot(y, 0)), np.multiply.outer(a, b))
    frozen(c, x, a)
    frozen(c, y, b)


def diag_contraction(c):
    x, a = ft(c, 'x', (2, 3, 2, 2))
    y, b = ft(c, 'y', (2, 2, 3, 2))
    # documented example 1: z(i1,k,j2) = sum x(i1,l1,k,l2) y(k,j2,l1,l2)
    c.eq('tensordot_eval_diag', data(x.tensordot_eval_diag(
        y, [1, 3], [2, 3], 2, 0)), np.einsum('apkq,kbpq->akb', a, b))
    u, p = ft(c, 'u', (2, 2, 3, 2, 2))
    v, q = ft(c, 'v', (2, 2, 2, 2, 3))
    c.eq('tensordot_eval_diag diag', data(u.tensordot_eval_diag(
        v, [1, 3], [2, 3], [0, 2], [1, 4], True)),
        np.einsum('kalbi,jkabl->klij', p, q))
    m, A = ft(c, 'm', (3, 2))
    n, B = ft(c, 'n', (3, 4))
    c.eq('outer_product_eval_diag', data(m.outer_product_eval_diag(n, 0, 0)),
         np.einsum('ki,kj->kij', A, B))
    w, C = ft(c, 'w', (2, 3, 2))
    c.eq('outer_product_eval_diag 1 0', data(
        w.outer_product_eval_diag(m, 1, 0)), np.einsum('akb,kj->akbj', C, A))
    c.eq('outer_product_eval_diag empty diag', data(
        m.outer_product_eval_diag(n, [], [], True)),
        np.multiply.outer(A, B))
    g, G = ft(c, 'g', (2, 3, 2))
    c.eq('contract + diag 0 0', data(w.tensordot_eval_diag(g, 2, 2, 0, 0)),
         np.einsum('kap,kbp->kab', C, G))
    h, H = ft(c, 'h', (2, 2, 3))
    c.eq('several inactive diag', data(m.tensordot_eval_diag(
        ts.FullTensor(h.data), 1, 0, 0, 2)), np.einsum('kp,pbk->kb', A, H))
    r, R = ft(c, 'r', (3, 3, 2, 4))
    c.eq('diag of several dims', data(m.tensordot_eval_diag(
        r, 1, 2, 0, [0, 1])), np.einsum('kp,kkpb->kb', A, R))
    frozen(c, x, a)
    frozen(c, y, b)


def indexing(c, shape):
    x, a = ft(c, 'x', shape)
    n = a.ndim
    allidx = list(itertools.product(*[range(s) for s in shape]))
    sel = allidx[::-1] + allidx[:2]
    c.eq('eval_at_indices', x.eval_at_indices(np.array(sel)),
         np.array([a[i] for i in sel], dtype=a.dtype))
    c.eq('eval_at_indices one', x.eval_at_indices(np.array(sel[0])),
         np.array([a[sel[0]]], dtype=a.dtype))
    sub = [list(range(s))[::-1] + [0] for s in shape]
    c.eq('sub_tensor', data(x.sub_tensor(*sub)), a[np.ix_(*sub)])
    mixed = [':' if d % 2 else [shape[d] - 1] for d in range(n)]
    c.eq('sub_tensor mixed', data(x.sub_tensor(*mixed)),
         a[np.ix_(*[range(shape[d]) if d % 2 else [shape[d] - 1]
                    for d in range(n)])])
    c.eq('getitem', x[sel[0]], a[sel[0]])
    for k in range(1, n + 1):
        for dims in itertools.permutations(range(n), k):
            idx = list(itertools.product(*[range(shape[d]) for d in dims]))
            idx = idx[::-1] + idx[:1]
            rest = [d for d in range(n) if d not in dims]
            pos = min(dims)
            out = np.empty([len(idx)] + [shape[d] for d in rest],
                           dtype=a.dtype)
            for r, t in enumerate(idx):
                s = [slice(None)] * n
                for d, v in zip(dims, t):
                    s[d] = v
                out[r] = a[tuple(s)]
            out = np.moveaxis(out, 0, pos)
            c.eq('partial eval_at_indices %s' % (dims,),
                 data(x.eval_at_indices(np.array(idx), list(dims))), out)
    frozen(c, x, a)


def diagonal(c, shape):
    x, a = ft(c, 'x', shape)
    n = a.ndim
    if len(set(shape)) == 1:
        c.eq('eval_diag', data(x.eval_diag()),
             np.array([a[(i,) * n] for i in range(shape[0])], dtype=a.dtype))
    for k in range(2, n):
        for dims in itertools.permutations(range(n), k):
            if len({shape[d] for d in dims}) > 1:
                continue
            rest = [d for d in range(n) if d not in dims]
            out = np.empty([shape[dims[0]]] + [shape[d] for d in rest],
                           dtype=a.dtype)
            for r in range(shape[dims[0]]):
                s = [slice(None)] * n
                for d in dims:
                    s[d] = r
                out[r] = a[tuple(s)]
            c.eq('eval_diag %s' % (dims,), data(x.eval_diag(list(dims))),
                 np.moveaxis(out, 0, min(dims)))
    frozen(c, x, a)


def assembling(c, shape, shape2):
    x, a = ft(c, 'x', shape)
    y, b = ft(c, 'y', shape2)
    n = a.ndim
    ref = np.zeros([p + q for p, q in zip(shape, shape2)]).astype(a.dtype)
    ref[tuple(slice(0, p) for p in shape)] = a
    ref[tuple(slice(p, None) for p in shape)] = b
    c.eq('cat all', data(x.cat(y)), ref)
    for k in range(1, n):
        for dims in itertools.combinations(range(n), k):
            sh = tuple(shape2[d] if d in dims else shape[d]
                       for d in range(n))
            z, e = ft(c, 'z' + ''.join(map(str, dims)), sh)
            r = np.zeros([shape[d] + sh[d] if d in dims else shape[d]
                          for d in range(n)]).astype(a.dtype)
            r[tuple(slice(0, s) for s in shape)] = a
            r[tuple(slice(shape[d], None) if d in dims else slice(None)
                    for d in range(n))] = e
            c.eq('cat %s' % (dims,), data(x.cat(
                z, dims[0] if k == 1 else list(dims))), r)
    ref = np.empty([p * q for p, q in zip(shape, shape2)], dtype=a.dtype)
    for i in np.ndindex(*shape):
        for j in np.ndindex(*shape2):
            ref[tuple(p * s + q for p, q, s in zip(i, j, shape2))] = \
                a[i] * b[j]
    c.eq('kron', data(x.kron(y)), ref)
    frozen(c, x, a)
    frozen(c, y, b)


def kron_orders(c):
    x, a = ft(c, 'x', (2, 3))
    y, b = ft(c, 'y', (2,))
    c.eq('kron order 2 x 1', data(x.kron(y)),
         np.kron(a, b.reshape(-1, 1)))
    c.eq('kron order 1 x 2', data(y.kron(x)),
         np.kron(b.reshape(-1, 1), a))


def metrics(c, shape):
    x, a = ft(c, 'x', shape)
    y, b = ft(c, 'y', shape)
    n = a.ndim
    M = [c.real('M%d' % d, (shape[d], shape[d])) for d in range(n)]
    t = b
    for d in range(n):
        t = np.moveaxis(np.tensordot(M[d], t, ([1], [d])), 0, d)
    c.eq('dot_with_rank_one_metric', x.dot_with_rank_one_metric(y, M),
         np.sum(a * t))
    for d in range(n):
        t = b
        for e in range(n):
            if e != d:
                t = np.moveaxis(np.tensordot(M[e], t, ([1], [e])), 0, e)
        rest = [e for e in range(n) if e != d]
        c.eq('tensordot_matrix_product_except_dim %d' % d, data(
            x.tensordot_matrix_product_except_dim(y, M, d)),
            np.tensordot(a, t, (rest, rest)))


def constructors(c):
    a = c.real('a', (6,))
    c.eq('F-order shape', data(ts.FullTensor(a, shape=[2, 3])),
         np.array([[a[0], a[2], a[4]], [a[1], a[3], a[5]]], dtype=a.dtype))
    c.eq('order padding', data(ts.FullTensor(a, 3)), a.reshape(6, 1, 1))
    d = data(ts.FullTensor.diag(a[:3], 3))
    ref = np.zeros((3, 3, 3)).astype(a.dtype)
    for i in range(3):
        ref[i, i, i] = a[i]
    c.eq('diag', d, ref)
    c.eq('zeros', data(ts.FullTensor.zeros([2, 3])), np.zeros((2, 3)))
    c.eq('ones', data(ts.FullTensor.ones([2, 3])), np.ones((2, 3)))
    b = c.real('b', (2, 3, 2))
    x = ts.FullTensor(b)
    y = ts.FullTensor(x)
    y.data[0, 0, 0] = 7
    c.eq('copy is independent', x.data, b)
    c.eq('to TreeBasedTensor and back', data(x.tree_based_tensor()), b)


def conversions_sparse(c):
    b = c.real('b', (2, 2), nonzero=True)
    z = np.zeros((2, 3)).astype(b.dtype)
    z[0, 0], z[1, 0], z[0, 2], z[1, 2] = b.ravel()
    x = ts.FullTensor(z)
    s = x.sparse()
    c.eq('to SparseTensor and back', data(s.full()), z)
    c.eq('sparse storage', x.sparse_storage(), 4)


def equality(c):
    a = c.real('a', (2, 2))
    b = c.real('b', (2, 2))
    x, y = ts.FullTensor(a), ts.FullTensor(b)
    same = c.all([a[i] == b[i] for i in np.ndindex(2, 2)])
    r = bool(x == y)
    c.ok('equality', same if r else ~same if not isinstance(same, bool)
         else not same)


def cases(tier):
    deep = True
    shapes = [(3,), (2, 3), (2, 3, 2), (2, 1, 3, 2), (4, 3, 2)] + (
        [(2, 3, 1, 2, 2), (5, 4, 3)] if tier == 'thorough' else [])
    out = []

    def add(fn, nm='', **p):
        out.append(Case(fn.__name__ + nm, fn, p))
    for s in shapes:
        add(arithmetic, '-%s' % (s,), shape=s)
        add(indexing, '-%s' % (s,), shape=s)
    for s in shapes[1:]:
        add(shaping, '-%s' % (s,), shape=s)
        add(metrics, '-%s' % (s,), shape=s)
    add(squeeze)
    add(products, '-23', shape=(2, 3), rows=(3, 2))
    add(products, '-232', shape=(2, 3, 2), rows=(1, 2, 3))
    add(eval_diag_products, '-23', shape=(2, 3), n=3)
    add(eval_diag_products, '-232', shape=(2, 3, 2), n=2)
    if deep:
        add(products, '-2132', shape=(2, 1, 3, 2), rows=(2, 2, 1, 3))
        add(eval_diag_products, '-2232', shape=(2, 2, 3, 2), n=3)
    add(contraction, '-a', s1=(2, 3), s2=(3, 2),
        pairs=[((1,), (0,)), ((0,), (1,)), ((0, 1), (1, 0))])
    add(contraction, '-b', s1=(2, 3, 2), s2=(2, 3),
        pairs=[((0,), (0,)), ((1,), (1,)), ((2,), (0,)), ((0, 1), (0, 1)),
               ((2, 1), (0, 1))])
    add(diag_contraction)
    add(diagonal, '-22', shape=(2, 2))
    add(diagonal, '-333', shape=(3, 3, 3))
    add(diagonal, '-2323', shape=(2, 3, 2, 3))
    add(assembling, '-21', shape=(2, 1), shape2=(1, 3))
    add(assembling, '-212', shape=(2, 1, 2), shape2=(1, 2, 3))
    if deep:
        add(diagonal, '-2222', shape=(2, 2, 2, 2))
        add(assembling, '-222', shape=(2, 3, 2), shape2=(2, 2, 3))
    add(kron_orders)
    add(constructors)
    add(conversions_sparse)
    add(equality)
    return out
