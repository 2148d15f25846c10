"""P09 - multi-index sets agree with their set-theoretic definitions."""
import itertools
import math
import numpy as np
import tensap as ts
from .common import Case

BOUNDS = ('sets of 1-3 multi-indices in 1-3 variables, entries free integers '
          'in 0..2 (up to 0..4 for pairs), weights free reals, norm bounds '
          'free integers up to 4, shapes up to 3 modes')
OUTSIDE = ('larger sets and entries, non-integer exponents other than 1/2, '
           'is_downward_closed with a lower bound above some index')


def mi(c, name, n, d, hi=2, distinct=True, lo=0):
    a = c.int(name, (n, d), lo, hi)
    if distinct:
        for i, j in itertools.combinations(range(n), 2):
            c.assume(neg(same(a[i], a[j])))
    return ts.MultiIndices(np.array(a, copy=True)), a


def neg(x):
    return (not x) if isinstance(x, (bool, np.bool_)) else ~x


def disj(x, y):
    return neg(conj(neg(x), neg(y)))


def conj(x, y):
    if isinstance(x, (bool, np.bool_)):
        return y if x else False
    if isinstance(y, (bool, np.bool_)):
        return x if y else False
    return x & y


def all_(xs):
    r = True
    for x in xs:
        r = conj(r, x)
    return r


def any_(xs):
    return neg(all_(neg(x) for x in xs))


def eqv(x, y):
    r = x == y
    return bool(r) if isinstance(r, (bool, np.bool_)) else r


def lev(x, y):
    r = x <= y
    return bool(r) if isinstance(r, (bool, np.bool_)) else r


def same(r, s):
    return all_(eqv(x, y) for x, y in zip(r, s))


def below(r, s):
    return all_(lev(x, y) for x, y in zip(r, s))


def mem(r, rows):
    return any_(same(r, s) for s in rows)


def iff(x, y):
    return conj(disj(neg(x), y), disj(neg(y), x))


def distinct(c, rows):
    c.ok('distinct rows', all_(neg(same(rows[i], rows[j])) for i, j in
                               itertools.combinations(range(len(rows)), 2)))


def box(d, lo, hi):
    return itertools.product(range(lo, hi + 1), repeat=d)


def is_set(c, label, got, member, d, lo, hi):
    """got is the set {i in [lo,hi]^d : member(i)}, without repetition."""
    rows = np.asarray(got.array)
    c.ok(label + ': shape', rows.ndim == 2 and rows.shape[1] == d)
    distinct(c, rows)
    c.ok(label + ': in range', all_(conj(lev(lo, x), lev(x, hi))
                                    for x in rows.ravel()))
    c.ok(label, all_(iff(mem(i, rows), member(i)) for i in box(d, lo, hi)))


def kept(c, x, a):
    c.eq('operand unchanged', x.array, a)


def c_union(c, n, m, d, hi):
    I, a = mi(c, 'a', n, d, hi)
    J, b = mi(c, 'b', m, d, hi)
    is_set(c, 'union', I.add_indices(J),
           lambda i: disj(mem(i, a), mem(i, b)), d, 0, hi)
    kept(c, I, a)
    kept(c, J, b)


def c_diff(c, n, m, d, hi):
    I, a = mi(c, 'a', n, d, hi)
    J, b = mi(c, 'b', m, d, hi)
    R = I.remove_indices(J)
    is_set(c, 'difference', R,
           lambda i: conj(mem(i, a), neg(mem(i, b))), d, 0, hi)
    kept(c, I, a)
    kept(c, J, b)


def c_inter(c, n, m, d, hi):
    I, a = mi(c, 'a', n, d, hi)
    J, b = mi(c, 'b', m, d, hi)
    K, p, q = I.intersect_indices(J)
    is_set(c, 'intersection', K,
           lambda i: conj(mem(i, a), mem(i, b)), d, 0, hi)
    c.eq('places in I', a[p, :], K.array)
    c.eq('places in J', b[q, :], K.array)
    kept(c, I, a)
    kept(c, J, b)


def c_compare(c, n, m, d):
    I, a = mi(c, 'a', n, d, 2, distinct=False)
    J, b = mi(c, 'b', m, d, 2, distinct=False)
    e, l = I == J, I <= J
    for i in range(n):
        s = b[i if m > 1 else 0]
        c.ok('equal %d' % i, iff(bool(e[i]), same(a[i], s)))
        c.ok('below %d' % i, iff(bool(l[i]), below(a[i], s)))
    k = c.int('k', None, 0, 3)
    c.eq('I+k', (I + k).array, a + k)
    c.eq('I-k', (I - k).array, a - k)
    c.eq('I+J', (I + b[:1]).array, a + b[:1])
    c.eq('k+I', (3 + I).array, a + 3)
    c.eq('k-I', (3 - I).array, 3 - a)
    kept(c, I, a)
    kept(c, J, b)


def c_select(c, n, d):
    I, a = mi(c, 'a', n, d, 1, distinct=False)
    for k in range(1, d + 1):
        for dims in itertools.combinations(range(d), k):
            sub = a[:, list(dims)]
            rest = [x for x in range(d) if x not in dims]
            is_set(c, 'keep dims %s' % (dims,), I.keep_dims(list(dims)),
                   lambda i: mem(i, sub), k, 0, 1)
            if rest:
                is_set(c, 'remove dims', I.remove_dims(rest),
                       lambda i: mem(i, sub), k, 0, 1)
    for k in range(n):
        c.eq('keep', I.keep_indices([k]).array, a[[k], :])
        c.eq('keep one', I.keep_indices(k).array, a[[k], :])
        c.eq('get', I.get_indices(k), a[k])
        oth = [j for j in range(n) if j != k]
        if oth:
            c.eq('remove number', I.remove_indices(k).array, a[oth, :])
            c.eq('remove list', I.remove_indices([k]).array, a[oth, :])
    c.ok('cardinal', I.cardinal() == n and I.ndim() == d)
    for k in range(d):
        c.eq('list', I.to_list()[k], a[:, k])
    kept(c, I, a)


def c_margin(c, n, d, hi, which):
    I, a = mi(c, 'a', n, d, hi)

    def down(i, k):
        return tuple(x - (j == k) for j, x in enumerate(i))
    if which == 'margin':
        is_set(c, 'margin', I.get_margin(), lambda i: conj(
            neg(mem(i, a)), any_(mem(down(i, k), a) for k in range(d)
                                 if i[k])), d, 0, hi + 1)
    else:
        is_set(c, 'reduced margin', I.get_reduced_margin(), lambda i: conj(
            conj(neg(mem(i, a)), any_(mem(down(i, k), a)
                                      for k in range(d) if i[k])),
            all_(mem(down(i, k), a) for k in range(d) if i[k])),
            d, 0, hi + 1)
    kept(c, I, a)


def closed(a, d, hi):
    return all_(disj(neg(mem(i, a)), all_(
        mem(tuple(x - (j == k) for j, x in enumerate(i)), a)
        for k in range(d) if i[k])) for i in box(d, 0, hi))


def c_maximal(c, n, d, hi):
    I, a = mi(c, 'a', n, d, hi)
    c.assume(closed(a, d, hi))
    is_set(c, 'maximal', I.get_maximal_indices(), lambda i: conj(
        mem(i, a), all_(disj(neg(below(i, s)), same(i, s)) for s in a)),
        d, 0, hi)
    kept(c, I, a)


def c_closed(c, n, d, hi, m=0):
    I, a = mi(c, 'a', n, d, hi, lo=m)
    got = I.is_downward_closed(m)
    c.ok('downward closed', iff(bool(got), closed(a - m, d, hi - m)))
    kept(c, I, a)


def c_envelope(c, n, d, hi, aslist):
    I, a = mi(c, 'a', n, d, hi)
    u = c.real('u', (n,), -4, 4)
    v = np.array(u, copy=True)
    e = I.envelope(list(v) if aslist else v)
    c.ok('size', np.size(e) == n)
    for i in range(n):
        up = [(below(a[i], a[j]), abs(u[j])) for j in range(n)]
        c.ok('bound %d' % i, all_(disj(neg(p), lev(x, e[i]))
                                  for p, x in up))
        c.ok('reached %d' % i, any_(conj(p, eqv(x, e[i])) for p, x in up))
    c.eq('sequence unchanged', v, u)
    kept(c, I, a)


def c_sort(c, n, d, hi, columns, mode):
    I, a = mi(c, 'a', n, d, hi, distinct=False)
    R = I.sort(columns, mode) if columns is not None else I.sort(mode=mode)
    r = R.array
    c.ok('shape', r.shape == a.shape)
    cols = columns if columns is not None else list(range(d - 1, -1, -1))
    count(c, r, a)
    for i in range(n - 1):
        p, q = (r[i], r[i + 1]) if mode == 'ascend' else (r[i + 1], r[i])
        c.ok('ordered %d' % i, lexle(p, q, list(cols)))
    kept(c, I, a)


def lexle(p, q, cols):
    if not cols:
        return True
    k = cols[0]
    lt = conj(lev(p[k], q[k]), neg(eqv(p[k], q[k])))
    return disj(lt, conj(eqv(p[k], q[k]), lexle(p, q, cols[1:])))


def count(c, r, a):
    """r is a rearrangement of the rows of a."""
    n = len(a)
    c.ok('rearrangement', any_(all_(same(r[i], a[s[i]]) for i in range(n))
                               for s in itertools.permutations(range(n))))


def ith(x):
    return 1 if x else 0


def pnorm(row, p, w=None):
    """p-norm to the power p (p finite), or the largest entry."""
    t = [x * (w[k] if w is not None else 1) for k, x in enumerate(row)]
    if p == np.inf:
        m = t[0]
        for x in t[1:]:
            m = x if m <= x else m
        return m
    if p == 0.5:
        raise ValueError
    return sum(x ** p for x in t)


def c_norm(c, n, d, p, weighted, mode):
    I, a = mi(c, 'a', n, d, 2, distinct=False)
    w = c.real('w', (d,), 0, 3) if weighted else None
    f = (lambda k=None: I.weighted_norm(p, w, k)) if weighted else \
        (lambda k=None: I.norm(p, k))
    got = f()
    want = [pnorm(a[i], p, w) for i in range(n)]
    c.ok('shape', np.shape(got) == (n,))
    for i in range(n):
        c.ok('nonnegative', lev(0, got[i]))
        if p == np.inf or p == 1:
            c.eq('norm %d' % i, got[i], want[i])
        else:
            c.eq('norm %d' % i, got[i] ** p, want[i])
    c.eq('one norm', f([n - 1]), got[[n - 1]])
    R = (I.sort_by_weighted_norm(p, w, mode) if weighted
         else I.sort_by_norm(p, mode)).array
    count(c, R, a)
    for i in range(n - 1):
        s, t = (R[i], R[i + 1]) if mode == 'ascend' else (R[i + 1], R[i])
        c.ok('sorted %d' % i, lev(pnorm(s, p, w), pnorm(t, p, w) + 1e-9))
    kept(c, I, a)


def c_index(c, shape, n):
    d = len(shape)
    a = np.array([[c.int('i%d_%d' % (k, j), None, 0, shape[j] - 1)
                   for j in range(d)] for k in range(n)],
                 dtype=object if c.symbolic else int)
    I = ts.MultiIndices(np.array(a, copy=True))
    f = I.sub2ind(list(shape))
    st = [1]
    for s in shape[:-1]:
        st.append(st[-1] * s)
    c.eq('first index fastest', f,
         np.array([sum(a[k, j] * st[j] for j in range(d)) for k in range(n)]))
    c.eq('round trip', ts.MultiIndices.ind2sub(list(shape), f).array, a)
    kept(c, I, a)


def c_ind2sub(c, shape):
    d = len(shape)
    size = math.prod(shape)
    k = c.int('k', (2,), 0, size - 1)
    I = ts.MultiIndices.ind2sub(list(shape), k)
    c.ok('shape', I.array.shape == (2, d))
    for r in range(2):
        for j in range(d):
            c.ok('in range', conj(lev(0, I.array[r, j]),
                                  lev(I.array[r, j], shape[j] - 1)))
    c.eq('round trip', I.sub2ind(list(shape)), k)


def c_product(c, sizes, d=None):
    g = [c.int('g%d' % k, (s,), 0, 2 if sum(sizes) < 5 else 1) for k, s in enumerate(sizes)]
    L = [np.array(x, copy=True) for x in g]
    I = ts.MultiIndices.product_set(list(L), d) if d else \
        ts.MultiIndices.product_set(list(L))
    full = g * d if d and len(g) == 1 else g
    want = [r[::-1] for r in itertools.product(*reversed(full))]
    c.eq('product, first factor fastest', I.array, np.array(want))
    for x, y in zip(L, g):
        c.eq('factors unchanged', x, y)


def c_product_sets(c, n, m, d, e):
    I, a = mi(c, 'a', n, d, 1, distinct=False)
    J, b = mi(c, 'b', m, e, 1, distinct=False)
    want = np.array([list(a[i]) + list(b[j]) for j in range(m)
                     for i in range(n)])
    c.eq('product of sets', I.product(J).array, want)
    c.eq('product_set of sets', ts.MultiIndices.product_set([I, J]).array,
         want)
    c.eq('product with None', I.product(None).array, a)
    kept(c, I, a)
    kept(c, J, b)


def c_bounded(c, d, p, M):
    m = c.int('m', None, 0, M)
    I = ts.MultiIndices.with_bounded_norm(d, p, m)
    is_set(c, 'bounded norm', I, lambda i: lev(
        max(i) if p == np.inf else sum(x ** p for x in i),
        m if p == np.inf else m ** p), d, 0, M)


def c_weighted(c, d, p, M):
    m = c.int('m', None, 1, M)
    w = c.real('w', (d,), 0.5, 3)
    I = ts.MultiIndices.with_bounded_weighted_norm(d, p, m, list(w))
    if p == np.inf:
        def member(i):
            return all_(lev(x * y, m) for x, y in zip(i, w))
    else:
        def member(i):
            return lev(sum((x * y) ** p for x, y in zip(i, w)), m ** p)
    is_set(c, 'bounded weighted norm', I, member, d, 0, 2 * M)
    r = I.array
    if p != np.inf:
        for i in range(len(r) - 1):
            c.ok('increasing norm', lev(
                sum((x * y) ** p for x, y in zip(r[i], w)),
                sum((x * y) ** p for x, y in zip(r[i + 1], w))))


def c_by(c, d, hi):
    lo = c.int('lo', None, 0, 1)
    b = c.int('b', (d,), 0, hi)
    c.assume(all_(lev(lo, x) for x in b))
    I = ts.MultiIndices.bounded_by(b, lo)
    is_set(c, 'bounded by', I, lambda i: all_(
        conj(lev(lo, x), lev(x, y)) for x, y in zip(i, b)), d, 0, hi)


def c_hyperbolic(c, d, P):
    p = c.int('p', None, 0, P)
    I = ts.MultiIndices.hyperbolic_cross_set(d, p)
    is_set(c, 'hyperbolic cross', I, lambda i: lev(
        math.prod(x + 1 for x in i), p + 1), d, 0, P)


def c_whyperbolic(c, w, P):
    d = len(w)
    p = c.int('p', None, 0, P)
    I = ts.MultiIndices.weighted_hyperbolic_cross_set(d, p, list(w))
    is_set(c, 'weighted hyperbolic cross', I, lambda i: lev(
        math.prod((x + 1) ** y for x, y in zip(i, w)), p + 1), d, 0, P)


def c_low(c, d, P):
    p = c.int('p', None, 0, P)
    m = c.int('m', None, 0, d)
    I = ts.MultiIndices.low_order_interactions(d, p, m)
    is_set(c, 'low order interactions', I, lambda i: conj(
        all_(lev(x, p) for x in i), lev(sum(1 for x in i if x), m)), d, 0, P)


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(f, name, **k):
        out.append(Case(f.__name__[2:] + ':' + name, f, k, max_paths=6000,
                        time=200 if not deep else 600, exact_sqrt=False,
                        max_conc=200))
    for n, m, d, hi in ((1, 1, 2, 2), (2, 1, 2, 2), (1, 2, 1, 3), (2, 2, 2, 1),
                        (2, 2, 1, 2), (1, 1, 3, 1)) + \
            (((3, 2, 2, 1), (2, 2, 2, 2), (1, 3, 3, 1)) if deep else ()):
        for f in (c_union, c_diff, c_inter):
            add(f, '%d-%d-%d-%d' % (n, m, d, hi), n=n, m=m, d=d, hi=hi)
    for n, m, d in ((1, 1, 1), (2, 1, 2), (2, 2, 2), (1, 1, 3)):
        add(c_compare, '%d-%d-%d' % (n, m, d), n=n, m=m, d=d)
    for n, d in ((1, 2), (2, 2), (3, 2), (2, 3)):
        add(c_select, '%d-%d' % (n, d), n=n, d=d)
    for n, d, hi in ((1, 1, 3), (2, 1, 3), (1, 2, 2), (2, 2, 2), (3, 2, 1),
                     (1, 3, 1)) + (((3, 2, 2), (2, 3, 1), (3, 3, 1),
                                    (4, 2, 2)) if deep else ()):
        for w in ('margin', 'reduced'):
            add(c_margin, '%s-%d-%d-%d' % (w, n, d, hi), n=n, d=d, hi=hi,
                which=w)
    for n, d, hi in ((1, 2, 2), (2, 2, 1), (3, 2, 2), (4, 2, 1), (2, 1, 3),
                     (2, 3, 1)) + (((4, 2, 2), (4, 3, 1)) if deep else ()):
        add(c_maximal, '%d-%d-%d' % (n, d, hi), n=n, d=d, hi=hi)
        if n < 4:
            add(c_closed, '%d-%d-%d' % (n, d, hi), n=n, d=d, hi=hi)
            add(c_closed, '%d-%d-%d-from 1' % (n, d, hi), n=n, d=d,
                hi=hi + 1, m=1)
    for n, d, hi in ((1, 2, 2), (2, 2, 2), (3, 1, 3), (3, 2, 1)):
        add(c_envelope, '%d-%d-%d' % (n, d, hi), n=n, d=d, hi=hi,
            aslist=False)
        add(c_envelope, '%d-%d-%d-list' % (n, d, hi), n=n, d=d, hi=hi,
            aslist=True)
    for n, d, hi, col in ((3, 1, 2, None), (3, 2, 1, None), (3, 2, 1, [0, 1]),
                          (3, 2, 1, [1]), (2, 2, 3, [1, 0]),
                          (2, 3, 1, [2, 0, 1])) + \
            (((3, 2, 2, [0, 1]), (3, 3, 1, [1, 2, 0])) if deep else ()):
        for mode in ('ascend', 'descend'):
            add(c_sort, '%d-%d-%s-%s' % (n, d, col, mode), n=n, d=d, hi=hi,
                columns=col, mode=mode)
    for n, d in ((1, 2), (2, 2), (3, 1)):
        for p in (1, 2, np.inf):
            for w in (False, True):
                for mode in ('ascend', 'descend'):
                    add(c_norm, '%d-%d-%s-%s-%s' % (n, d, p, w, mode), n=n,
                        d=d, p=p, weighted=w, mode=mode)
    for s in ((3,), (2, 3), (3, 1, 2), (2, 2, 2), (4, 3, 2)):
        add(c_index, '%s' % (s,), shape=s, n=2)
        add(c_ind2sub, '%s' % (s,), shape=s)
    for s, d in (((2,), None), ((2, 3), None), ((1, 2, 2), None), ((3,), 2),
                 ((2,), 3), ((2, 1), 2)):
        add(c_product, '%s-%s' % (s, d), sizes=s, d=d)
    for n, m, d, e in ((1, 2, 1, 2), (2, 2, 2, 1), (2, 3, 1, 1)):
        add(c_product_sets, '%d-%d-%d-%d' % (n, m, d, e), n=n, m=m, d=d, e=e)
    for d in (1, 2, 3):
        for p in (1, 2, np.inf):
            add(c_bounded, '%d-%s' % (d, p), d=d, p=p,
                M=(5 if d < 3 else 3) + deep)
    for d, p, M in ((1, 1, 3), (2, 1, 2), (2, 2, 1), (2, np.inf, 2),
                    (1, 2, 3)):
        add(c_weighted, '%d-%s-%d' % (d, p, M), d=d, p=p, M=M)
    for d, hi in ((1, 3), (2, 2), (3, 1)):
        add(c_by, '%d' % d, d=d, hi=hi)
    for d, P in ((1, 4), (2, 5), (3, 3)):
        add(c_hyperbolic, '%d' % d, d=d, P=P + deep)
        add(c_low, '%d' % d, d=d, P=min(P, 3))
    for w, P in (((1,), 4), ((1, 2), 5), ((2, 1), 5), ((1, 1, 2), 3),
                 ((2, 1, 3), 4)):
        add(c_whyperbolic, '%s' % (w,), w=w, P=P + deep)
    return out
