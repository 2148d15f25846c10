"""numpy entry points that cannot carry symbolic entries.

`install()` replaces a fixed list of functions in the numpy namespaces before
tensap is imported.  The replacements are inactive (call straight through)
unless a symbolic path is running.  Allocation functions then return object
arrays, order statistics fork on comparisons, and the LAPACK-backed routines
become exact rules (solve/inv of small matrices) or nondeterministic stubs
constrained by their documented contract (qr, svd, ...).
"""
import functools
import math
from fractions import Fraction
import numpy as np
from . import sym
from .sym import S, SB, Unsupported, to_z3, z3

ORIG = {}


def active():
    return sym.PATH is not None


def has_sym(x):
    if isinstance(x, (S, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(
            isinstance(y, (S, SB)) for y in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def is_obj(x):
    return isinstance(x, (S, SB, Fraction)) or (
        isinstance(x, np.ndarray) and x.dtype == object)


def tofloat(x):
    """object array of plain numbers -> float array."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        try:
            return x.astype(float)
        except (TypeError, Unsupported):
            return x
    if isinstance(x, (list, tuple)):
        return type(x)(tofloat(y) for y in x)
    if isinstance(x, Fraction):
        return float(x)
    return x


def concrete_numbers(x):
    if isinstance(x, np.ndarray):
        return x.dtype != object or all(
            isinstance(y, sym.NUM) for y in x.flat)
    if isinstance(x, (list, tuple)):
        return all(concrete_numbers(y) for y in x)
    return not isinstance(x, (S, SB))


def isfloat_dtype(dt):
    if dt is None:
        return True
    try:
        return np.issubdtype(np.dtype(dt), np.floating)
    except TypeError:
        return False


def elementwise(f, x):
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = f(x[i])
        return out
    return f(x)


def boolwise(f, x):
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=bool)
        for i in np.ndindex(*x.shape):
            out[i] = bool(f(x[i]))
        return out
    return bool(f(x))


# --- replacements (called in symbolic mode only) ---------------------------
def _alloc(name):
    o = ORIG[name]

    def f(*a, **k):
        dt = k.get('dtype', a[1] if len(a) > 1 and name in
                   ('zeros', 'ones', 'empty') else None)
        if isfloat_dtype(dt):
            r = o(*a, **k)
            if name == 'empty':
                r = ORIG['zeros'](r.shape)
            return r.astype(object)
        return o(*a, **k)
    return f


def _full(shape, fill_value, dtype=None, **k):
    if dtype is None and has_sym(fill_value):
        dtype = object
    elif isfloat_dtype(dtype) and dtype is not None:
        dtype = object
    elif dtype is None and np.asarray(fill_value).dtype.kind == 'f':
        dtype = object
    return ORIG['full'](shape, fill_value, dtype=dtype, **k)


def _eye(*a, **k):
    if isfloat_dtype(k.get('dtype')):
        return ORIG['eye'](*a, **k).astype(object)
    return ORIG['eye'](*a, **k)


def _like(name):
    def f(a, *args, **k):
        r = ORIG[name](a, *args, **k)
        if r.dtype.kind == 'f' or (r.dtype == object and name == 'empty_like'):
            if name == 'empty_like':
                r = ORIG['zeros'](r.shape)
            r = r.astype(object)
        return r
    return f


def _array(name):
    def f(x, dtype=None, *a, **k):
        if dtype is not None and np.dtype(dtype) != object:
            if isfloat_dtype(dtype) and (has_sym(x) or _deep_sym(x)):
                dtype = object
            elif _deep_sym(x):
                r = ORIG[name](x, object, *a, **k)
                return cast_obj(r, dtype)
        return ORIG[name](x, dtype, *a, **k)
    return f


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return has_sym(x)


def cast_obj(r, dtype):
    k = np.dtype(dtype).kind
    if k in 'iu':
        return elementwise(lambda v: v if isinstance(v, S) and v.k == 'I'
                           else int(v), r)
    if k == 'b':
        return boolwise(bool, r)
    if k == 'f':
        return r.astype(object)
    raise Unsupported('cast to %s' % dtype)


def astype(x, *a, **k):
    t = a[0] if a else k.get('dtype')
    if sym.PATH is not None and isinstance(x, np.ndarray) and has_sym(x) \
            and np.dtype(t) != object:
        return cast_obj(x, t)
    return x.astype(*a, **k)


def s_sqrt(x):
    if isinstance(x, SB):
        x = x._i()
    if isinstance(x, S):
        return x.sqrt()
    x = sym.num(x)
    if isinstance(x, float):
        return math.sqrt(x) if x >= 0 else math.nan
    if sym.PATH.run.exact_sqrt:
        return sym.PATH.sqrt(x) if not isinstance(x, float) else x
    return sym.const_sqrt(x)


def _unary(name, sfun, cfun):
    def f(x, *a, **k):
        if is_obj(x) or (isinstance(x, (list, tuple)) and _deep_sym(x)):
            if isinstance(x, (list, tuple)):
                x = np.array(x, dtype=object)
            r = elementwise(
                lambda v: sfun(v if isinstance(v, S) else v._i())
                if isinstance(v, (S, SB)) else cfun(v), x)
            if k.get('out') is not None:
                k['out'][...] = r
                return k['out']
            return r
        return ORIG[name](x, *a, **k)
    return f


def _bunary(name, cfun):
    def f(x, *a, **k):
        if is_obj(x):
            return boolwise(lambda v: False if isinstance(v, (S, SB)) and
                            name != 'isfinite' else
                            True if isinstance(v, (S, SB)) else
                            cfun(float(v)), x)
        return ORIG[name](x, *a, **k)
    return f


def _close(a, b, rtol, atol):
    return abs(a - b) <= atol + rtol * abs(b)


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if has_sym(a) or has_sym(b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object),
                                   np.asarray(b, dtype=object))
        out = ORIG['empty'](a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            out[i] = bool(_close(a[i], b[i], rtol, atol))
        return out if out.shape else bool(out)
    return ORIG['isclose'](tofloat(a), tofloat(b), rtol, atol, equal_nan)


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol, equal_nan)))


def _norm(x, ord=None, axis=None, keepdims=False):
    if not is_obj(x) and not has_sym(x):
        return ORIG['linalg.norm'](x, ord, axis, keepdims)
    x = np.asarray(x, dtype=object)
    if axis is None:
        if ord not in (None, 'fro') and not (ord == 2 and x.ndim == 1) \
                and x.ndim != 1:
            if not has_sym(x):
                return ORIG['linalg.norm'](tofloat(x), ord, axis, keepdims)
            raise Unsupported('norm ord %r' % (ord,))
        v = x.ravel()
        if ord in (None, 'fro', 2):
            r = sqrt_nonneg(sumsq(v))
        elif ord == 1:
            r = np.sum(np.abs(v))
        elif ord in (np.inf, 'inf'):
            r = np.max(np.abs(v))
        elif ord == 0:
            r = sum(1 for t in v if t != 0)
        else:
            raise Unsupported('norm ord %r' % (ord,))
        if keepdims:
            r = np.array(r, dtype=object).reshape((1,) * x.ndim)
        return r
    if isinstance(axis, tuple):
        if ord in (None, 'fro'):
            r = np.sum(x * x, axis=axis, keepdims=keepdims)
            return elementwise(sqrt_nonneg, r)
        raise Unsupported('matrix norm')
    if ord in (None, 2):
        return elementwise(sqrt_nonneg, np.sum(x * x, axis=axis,
                                          keepdims=keepdims))
    if ord == 1:
        return np.sum(np.abs(x), axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return np.max(np.abs(x), axis=axis, keepdims=keepdims)
    raise Unsupported('norm ord %r' % (ord,))


def sqrt_nonneg(x):
    """sqrt of a sum of squares (no sign case split needed)."""
    if isinstance(x, S):
        return sym.PATH.sqrt(x, nonneg=True)
    return s_sqrt(x)


def sumsq(v):
    r = 0
    for t in v:
        r = r + t * t
    return r


def _unique(ar, return_index=False, return_inverse=False,
            return_counts=False, axis=None, **kw):
    if not (is_obj(ar) or has_sym(ar)):
        return ORIG['unique'](ar, return_index, return_inverse,
                              return_counts, axis=axis, **kw)
    a = np.asarray(ar, dtype=object)
    if axis is None:
        rows = [(x,) for x in a.ravel()]
    else:
        b = np.moveaxis(a, axis, 0)
        rows = [tuple(b[i].ravel()) for i in range(b.shape[0])]
    groups = []          # sorted list of [row, [indices]]

    def cmp(r, s):
        for x, y in zip(r, s):
            if x == y:
                continue
            return -1 if x < y else 1
        return 0
    for i, r in enumerate(rows):
        pos, hit = 0, False
        for pos, (s, idx) in enumerate(groups):
            c = cmp(r, s)
            if c == 0:
                idx.append(i)
                hit = True
                break
            if c < 0:
                groups.insert(pos, [r, [i]])
                hit = True
                break
        if not hit:
            groups.append([r, [i]])
    first = np.array([g[1][0] for g in groups], dtype=int)
    if axis is None:
        out = a.ravel()[first]
    else:
        out = np.take(a, first, axis=axis)
    res = [out]
    if return_index:
        res.append(first)
    if return_inverse:
        inv = ORIG['zeros'](len(rows), dtype=int)
        for k, g in enumerate(groups):
            inv[g[1]] = k
        res.append(inv)
    if return_counts:
        res.append(np.array([len(g[1]) for g in groups], dtype=int))
    return res[0] if len(res) == 1 else tuple(res)


# --- linear algebra --------------------------------------------------------
def frac_matrix(a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = Fraction(sym.num(a[i]))
    return out


def exact_inv_num(a):
    n = a.shape[0]
    m = [[Fraction(sym.num(a[i, j])) for j in range(n)] +
         [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if m[p][c] == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            v = m[i][n + j]
            out[i, j] = v.numerator if v.denominator == 1 else v
    return out


def det(a):
    n = a.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return a[0, 0]
    r = 0
    for j in range(n):
        if isinstance(a[0, j], sym.NUM) and a[0, j] == 0:
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + (-1) ** j * a[0, j] * det(minor)
    return r


def _inv(a):
    a = np.asarray(a)
    if not has_sym(a):
        if sym.PATH.run.exact_linalg and a.ndim == 2:
            return exact_inv_num(a)
        return ORIG['linalg.inv'](tofloat(a)).astype(object)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError('not square')
    if n > 3:
        X = disjoint_pinv(a)
        if X is not None and all(supports(X)):
            return X
    if n <= 3 and not sym.PATH.run.fresh_inv:
        d = det(a)
        if (sym.PATH.zero(d) if isinstance(d, S) else d == 0):
            raise np.linalg.LinAlgError('Singular matrix')
        di = 1 / d
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(a, j, 0), i, 1)
                out[i, j] = (-1) ** (i + j) * det(minor) * di
        return out
    X = fresh_array('inv', (n, n))
    P = matmul(a, X)
    Q = matmul(X, a)
    sym.PATH.contract('inv', [(P[i, j], int(i == j)) for i in range(n)
                              for j in range(n)] +
                      [(Q[i, j], int(i == j)) for i in range(n)
                       for j in range(n)])
    sym.PATH.run.stubs.add('inv')
    return X


def _det(a):
    a = np.asarray(a)
    if has_sym(a):
        return det(a)
    return ORIG['linalg.det'](tofloat(a))


def _solve(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if not has_sym(a) and not has_sym(b) and \
            not sym.PATH.run.exact_linalg:
        return ORIG['linalg.solve'](tofloat(a), tofloat(b)).astype(object)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or b.shape[0] != a.shape[0]:
        raise np.linalg.LinAlgError('bad shapes')
    n = a.shape[0]
    if has_sym(a) and (n > 3 or sym.PATH.run.fresh_inv):
        X = fresh_array('solve', b.shape)
        P = matmul(a, X)
        sym.PATH.contract('solve', list(zip(P.ravel(), b.ravel())))
        sym.PATH.run.stubs.add('solve')
        return X
    return matmul(_inv(a), b)


def matmul(a, b):
    return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def fresh_array(tag, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = sym.PATH.fresh(tag)
    return out


def orthonormal_cols(Q):
    G = matmul(Q.T, Q)
    r = Q.shape[1]
    return [(G[i, j], int(i == j)) for i in range(r) for j in range(i, r)]


def supports(a):
    return [{j for j in range(a.shape[1]) if not
             (isinstance(a[i, j], sym.NUM) and a[i, j] == 0)}
            for i in range(a.shape[0])]


def disjoint(sup):
    seen = set()
    for x in sup:
        if x & seen:
            return False
        seen |= x
    return True


def unit_row(row, sup):
    """-> (norm, unit vector as a dict) of a row with the given support.

    Several entries: the direction is any unit vector r with r_j norm = a_j
    (products r_j * norm are rewritten to a_j)."""
    P = sym.PATH
    if len(sup) == 1:
        j = next(iter(sup))
        return (row[j], {j: 1}) if row[j] >= 0 else (-row[j], {j: -1})
    n = sqrt_nonneg(sumsq([row[j] for j in sorted(sup)]))
    if not isinstance(n, S):
        return n, {j: row[j] / n for j in sup}
    r = {j: P.fresh('dir') for j in sup}
    P.contract('dir', [(r[j] * n, row[j]) for j in sup] +
               [(sumsq(r.values()), 1)])
    for j in sup:
        P.prod[frozenset((r[j].e.get_id(), n.e.get_id()))] = row[j]
    return n, r


def svd_disjoint(a):
    """Exact SVD when the rows (or columns) have disjoint supports."""
    sup = supports(a)
    if not disjoint(sup):
        b = supports(a.T)
        if not disjoint(b):
            return None
        u, s, v = svd_disjoint(a.T)
        return v.T, s, u.T
    m, n = a.shape
    k = min(m, n)
    rows = []
    for i in range(m):
        if sup[i]:
            s, r = unit_row(a[i], sup[i])
            pos = 0
            while pos < len(rows) and rows[pos][0] >= s:
                pos += 1
            rows.insert(pos, (s, r, i))
    used = set().union(*sup)
    free = [{j: 1} for j in range(n) if j not in used]
    for s, r, i in rows:
        if len(r) == 2:
            p, q = sorted(r)
            free.append({p: -r[q], q: r[p]})
    for i in range(m):
        if not sup[i] and len(rows) < k:
            if not free:
                raise Unsupported('completion of a right singular basis')
            rows.append((0, free.pop(0), i))
    U = ORIG['zeros']((m, k)).astype(object)
    V = ORIG['zeros']((k, n)).astype(object)
    S_ = np.empty(k, dtype=object)
    for p, (s, r, i) in enumerate(rows[:k]):
        U[i, p], S_[p] = 1, s
        for j in r:
            V[p, j] = r[j]
    return U, S_, V


def gram_schmidt(a):
    """The QR factors with positive diagonal of a full-rank matrix."""
    m, n = a.shape
    Q = ORIG['zeros']((m, n)).astype(object)
    R = ORIG['zeros']((n, n)).astype(object)
    for j in range(n):
        v = a[:, j]
        for i in range(j):
            R[i, j] = sum(Q[k, i] * a[k, j] for k in range(m))
            v = v - R[i, j] * Q[:, i]
        e = sumsq(v)
        if isinstance(e, S) and not sym.PATH.run.generic:
            sym.PATH.assume((e != 0).e)
        elif not isinstance(e, S) and e == 0:
            raise Unsupported('rank-deficient exact qr')
        R[j, j] = sqrt_nonneg(e)
        Q[:, j] = [x / R[j, j] for x in v]
    sym.PATH.run.scope.add('exact qr: full column rank, positive diagonal')
    return Q, R


def _cond(a, *args, **kw):
    a = np.asarray(a)
    if not has_sym(a):
        return ORIG['linalg.cond'](tofloat(a), *args, **kw)
    c = sym.PATH.fresh('cond')
    sym.PATH.assume((c >= 1).e, check=False)
    sym.PATH.assume((c <= 10 ** 12).e, check=False)
    r = 1 / c
    sym.PATH.assume((r <= 1).e, check=False)
    sym.PATH.assume((r >= Fraction(1, 10 ** 12)).e, check=False)
    sym.PATH.run.scope.add('condition numbers between 1 and 1e12')
    sym.PATH.run.stubs.add('cond')
    return c


def _qr(a, mode='reduced'):
    a = np.asarray(a)
    if has_sym(a) and sym.PATH.run.exact_svd and mode == 'reduced' and \
            a.shape[0] >= a.shape[1]:
        sup = supports(a.T)
        if disjoint(sup) and all(sup):
            n = a.shape[1]
            Q = ORIG['zeros'](a.shape).astype(object)
            R = ORIG['zeros']((n, n)).astype(object)
            for j in range(n):
                R[j, j], r = unit_row(a[:, j], sup[j])
                for i in r:
                    Q[i, j] = r[i]
            return Q, R
    if not has_sym(a):
        q = ORIG['linalg.qr'](tofloat(a), mode)
        return tuple(x.astype(object) for x in q) if isinstance(q, tuple) \
            else q.astype(object)
    if mode not in ('reduced', 'r', 'complete'):
        raise Unsupported('qr mode')
    if sym.PATH.run.exact_qr and mode == 'reduced' and \
            a.shape[0] >= a.shape[1]:
        return gram_schmidt(a)
    memo = sym.PATH.__dict__.setdefault('qr_memo', {})
    key = mkey(a, mode)
    if key in memo:
        return memo[key][0]
    m, n = a.shape
    k = min(m, n) if mode != 'complete' else m
    Q = fresh_array('q', (m, k))
    R = fresh_array('r', (k, n))
    for i in range(k):
        for j in range(min(i, n)):
            R[i, j] = 0
    P = matmul(Q, R)
    sym.PATH.contract('qr=', list(zip(P.ravel(), a.ravel())))
    sym.PATH.contract('qr-orth', orthonormal_cols(Q))
    sym.PATH.run.stubs.add('qr')
    memo[key] = (R if mode == 'r' else (Q, R), a)
    return memo[key][0]


def mkey(a, *rest):
    return tuple(x.e.get_id() if isinstance(x, S) else ('c', x)
                 for x in a.ravel()) + (a.shape,) + rest


def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    a = np.asarray(a)
    if not has_sym(a):
        q = ORIG['linalg.svd'](tofloat(a), full_matrices, compute_uv)
        return tuple(x.astype(object) for x in q) if compute_uv \
            else q.astype(object)
    if sym.PATH.run.exact_svd:
        r = svd_disjoint(a)
        if r is not None:
            return r if compute_uv else r[1]
    m, n = a.shape
    k = min(m, n)
    s = fresh_array('s', (k,))
    for i in range(k):
        sym.PATH.assume((s[i] >= 0).e, check=False)
        sym.PATH.nonneg[s[i].e.get_id()] = s[i]
        if i:
            sym.PATH.assume((s[i - 1] >= s[i]).e, check=False)
    fro = (sumsq(s), sumsq(a.ravel()))
    if full_matrices and m != n:
        raise Unsupported('full svd of a non-square matrix')
    U = fresh_array('u', (m, k))
    V = fresh_array('v', (k, n))
    psd = sym.PATH.run.psd_svd and m == n
    if compute_uv and not psd:
        P = matmul(U * s, V)
        sym.PATH.contract('svd=', list(zip(P.ravel(), a.ravel())))
        sym.PATH.contract('svd-orth', orthonormal_cols(U) +
                          orthonormal_cols(V.T))
        if k == m > 1:
            sym.PATH.contract('svd-orth', orthonormal_cols(U.T))
        if k == n > 1:
            sym.PATH.contract('svd-orth', orthonormal_cols(V))
    if psd:
        # the scenario declares this argument symmetric PSD (a Gram matrix
        # it checks separately): then a = U S U' and sum(s) = trace(a)
        if compute_uv:
            P = matmul(U * s, U.T)
            sym.PATH.contract('svd-psd=', list(zip(P.ravel(), a.ravel())))
            sym.PATH.contract('svd-orth', orthonormal_cols(U) +
                              orthonormal_cols(U.T))
        sym.PATH.contract('svd-trace', [(sum(s), sum(a[i, i]
                                                     for i in range(n)))])
        sym.PATH.run.scope.add('svd arguments are Gram matrices')
    sym.PATH.contract('svd-fro', [fro])
    sym.PATH.run.stubs.add('svd')
    return (U, s, V) if compute_uv else s


def disjoint_pinv(a):
    """Pseudo-inverse of a matrix whose columns have disjoint supports."""
    sup = supports(a.T)
    if not (sym.PATH.run.exact_svd and disjoint(sup)):
        return None
    X = ORIG['zeros'](a.shape[::-1]).astype(object)
    for j, rows in enumerate(sup):
        q = sumsq([a[i, j] for i in sorted(rows)])
        if q == 0:
            continue
        for i in rows:
            X[j, i] = 1 / a[i, j] if len(rows) == 1 else a[i, j] / q
    return X


def _pinv(a, *args, **kw):
    a = np.asarray(a)
    if has_sym(a):
        X = disjoint_pinv(a)
        if X is not None:
            return X
    if not has_sym(a):
        if sym.PATH.run.exact_linalg and a.shape[0] == a.shape[1]:
            try:
                return exact_inv_num(a)
            except np.linalg.LinAlgError:
                pass
        return ORIG['linalg.pinv'](tofloat(a)).astype(object)
    m, n = a.shape
    G = matmul(a.T, a) if m >= n else matmul(a, a.T)
    # full-rank case exactly; rank-deficient symbolic case is out of scope
    if m == n:
        return _inv_or_unsupported(a)
    Gi = _inv_or_unsupported(G)
    return matmul(Gi, a.T) if m >= n else matmul(a.T, Gi)


def _inv_or_unsupported(a):
    d = det(a) if a.shape[0] <= 3 else None
    if d is not None and not isinstance(d, sym.NUM):
        sym.PATH.assume((d != 0).e)       # scope: full rank
        sym.PATH.run.scope.add('pinv/lstsq restricted to full rank')
    return _inv(a)


def _lstsq(a, b, rcond=None):
    a, b = np.asarray(a), np.asarray(b)
    if not has_sym(a) and not has_sym(b):
        return ORIG['linalg.lstsq'](tofloat(a), tofloat(b), rcond)
    if not has_sym(a):
        p = frac_matrix(a)
        G = matmul(p.T, p)
        x = matmul(matmul(exact_inv_num(G), p.T), b)
    else:
        x = matmul(_pinv(a), b)
    return x, None, min(a.shape), None


def _matrix_rank(a, *args, **kw):
    a = np.asarray(a)
    if not has_sym(a):
        return ORIG['linalg.matrix_rank'](tofloat(a), *args, **kw)
    m, n = a.shape
    if m == n == 1:
        return int(bool(a[0, 0] != 0))
    if sym.PATH.run.exact_svd:
        for b in (a, a.T):
            if disjoint(supports(b)):
                return sum(any(bool(b[i, j] != 0) for j in sorted(x))
                           for i, x in enumerate(supports(b)))
    if m == n <= 3:
        d = det(a)
        if not isinstance(d, sym.NUM):
            sym.PATH.assume((d != 0).e)
            sym.PATH.run.scope.add('matrix_rank restricted to full rank')
            return n
    raise Unsupported('matrix_rank')


def _cholesky(a):
    a = np.asarray(a)
    if not has_sym(a):
        return ORIG['linalg.cholesky'](tofloat(a)).astype(object)
    n = a.shape[0]
    L = ORIG['zeros']((n, n)).astype(object)
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                if isinstance(s, S):
                    sym.PATH.assume((s > 0).e)
                    sym.PATH.run.scope.add('cholesky: positive definite')
                L[i, i] = s_sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


def _unsup(name):
    def f(*a, **k):
        if any(has_sym(x) for x in a):
            raise Unsupported(name)
        return ORIG[name](*[tofloat(x) for x in a], **k)
    return f


CONCRETE = None       # concrete context replaying random draws


def _rand_dispatch(name):
    o = getattr(np.random, name)

    @functools.wraps(o)
    def f(*shape, **k):
        c = sym.PATH.ctx if sym.PATH is not None else CONCRETE
        if c is None or not c.control_random:
            return o(*shape, **k)
        return c.random(name, shape, k)
    return f


def _notnan(a):
    return [i for i, v in enumerate(a)
            if isinstance(v, (S, SB)) or not v != v]


def _nanmin(a, *args, **kw):
    if args or kw or np.ndim(a) != 1 or not has_sym(a):
        return ORIG['nanmin'](a, *args, **kw)
    return np.min(a[_notnan(a)])


def _nanargmin(a, *args, **kw):
    if args or kw or np.ndim(a) != 1 or not has_sym(a):
        return ORIG['nanargmin'](a, *args, **kw)
    k = _notnan(a)
    return k[np.argmin(a[k])]


def _any(a, *args, **kw):
    r = ORIG['any'](a, *args, **kw)
    if isinstance(r, np.ndarray) and r.dtype == object:
        r = boolwise(bool, r)
    return r


def _where(cond, *xy):
    if xy and isinstance(cond, np.ndarray) and cond.dtype == object:
        cond = boolwise(bool, cond)
    return ORIG['where'](cond, *xy)


def _searchsorted(a, v, side='left', sorter=None):
    if has_sym(a) or has_sym(v):
        a = np.asarray(a, dtype=object)

        def one(x):
            k = 0
            for t in a:
                if (t < x) if side == 'left' else (t <= x):
                    k += 1
                else:
                    break
            return k
        if isinstance(v, (S, SB)) or np.ndim(v) == 0:
            return one(v)
        v = np.asarray(v, dtype=object)
        out = ORIG['zeros'](v.shape, dtype=int)
        for i in np.ndindex(*v.shape):
            out[i] = one(v[i])
        return out
    return ORIG['searchsorted'](tofloat(a), tofloat(v), side, sorter)


def _ravel_mi(ind, dims, mode='raise', order='C'):
    if not _deep_sym(ind) or mode != 'raise':
        return ORIG['ravel_multi_index'](ind, dims, mode, order)
    ind = [np.asarray(x, dtype=object) for x in ind]
    dims = [int(n) for n in np.atleast_1d(dims)]
    ind = list(np.broadcast_arrays(*ind))
    if len(ind) != len(dims):
        raise ValueError('parameter multi_index must be a sequence of length '
                         '%d' % len(dims))
    out = np.empty(ind[0].shape, dtype=object)
    for p in np.ndindex(*out.shape):
        r, st = 0, 1
        order_ = range(len(dims)) if order == 'F' else \
            range(len(dims) - 1, -1, -1)
        for k in order_:
            x = ind[k][p]
            if isinstance(x, S) and x.k != 'I':
                raise TypeError('only int indices permitted')
            if x < 0 or x >= dims[k]:
                raise ValueError('invalid entry in coordinates array')
            r = r + x * st
            st *= dims[k]
        out[p] = r
    return out if out.shape else out[()]


def _unravel_i(ind, shape, order='C'):
    if not _deep_sym(ind):
        return ORIG['unravel_index'](
            tofloat(ind).astype(int) if is_obj(ind) and not
            isinstance(ind, (S, SB)) else ind, shape, order)
    a = np.asarray(ind, dtype=object)
    dims = [int(n) for n in np.atleast_1d(shape)]
    out = [np.empty(a.shape, dtype=object) for _ in dims]
    size = int(np.prod(dims))
    for p in np.ndindex(*a.shape):
        x = a[p]
        if isinstance(x, S) and x.k != 'I':
            raise TypeError('only int indices permitted')
        if x < 0 or x >= size:
            raise ValueError('index is out of bounds')
        order_ = list(range(len(dims)) if order == 'F' else
                      range(len(dims) - 1, -1, -1))
        for k in order_:
            last = k == order_[-1]
            out[k][p] = x if last else x % dims[k]
            x = x if last else x // dims[k]
    return tuple(o if o.shape else o[()] for o in out)


def _digitize(x, bins, right=False):
    if has_sym(x) or has_sym(bins):
        side = 'left' if right else 'right'
        return _searchsorted(bins, x, side=side)
    return ORIG['digitize'](tofloat(x), tofloat(bins), right)


def _arange(*a, **k):
    a = [int(x) if isinstance(x, S) and x.k == 'I' else x for x in a]
    k = {n: int(x) if isinstance(x, S) and x.k == 'I' else x
         for n, x in k.items()}
    if any(isinstance(x, S) for x in a):
        raise sym.Unsupported('arange of reals')
    return ORIG['arange'](*a, **k)


def _isscalar(x):
    return isinstance(x, (S, SB)) or ORIG['isscalar'](x)


def _polyval(p, x):
    if has_sym(p) or has_sym(x):
        y = 0 * x if not isinstance(x, np.ndarray) else \
            ORIG['zeros'](x.shape).astype(object)
        for pv in np.asarray(p, dtype=object):
            y = y * x + pv
        return y
    return ORIG['polyval'](p, x)


def _in_float(name):
    """Call with plain-number object arrays turned into floats."""
    def f(*a, **k):
        if any(has_sym(x) for x in a):
            return ORIG[name](*a, **k)
        return ORIG[name](*[tofloat(x) for x in a], **k)
    return f


def _get(name):
    o = np
    parts = name.split('.')
    for p in parts[:-1]:
        o = getattr(o, p)
    return o, parts[-1]


def _install_one(name, repl):
    o, attr = _get(name)
    orig = ORIG[name]

    def g(*a, **k):
        if sym.PATH is None:
            return orig(*a, **k)
        return repl(*a, **k)
    try:
        functools.update_wrapper(g, orig)
    except AttributeError:
        pass
    g.__vt_orig__ = orig
    setattr(o, attr, g)


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    names = ['zeros', 'ones', 'empty', 'full', 'eye', 'identity',
             'zeros_like', 'ones_like', 'empty_like', 'full_like', 'array',
             'asarray', 'sqrt', 'exp', 'log', 'log2', 'log10', 'sin', 'cos',
             'arccos',
             'isnan', 'isfinite', 'isinf', 'isclose', 'allclose', 'unique',
             'where', 'any', 'nanmin', 'nanargmin', 'searchsorted', 'unravel_index', 'ravel_multi_index',
             'digitize', 'isscalar', 'arange', 'polyval', 'histogram',
             'linalg.norm', 'linalg.inv', 'linalg.solve', 'linalg.qr',
             'linalg.svd', 'linalg.pinv', 'linalg.lstsq', 'linalg.cholesky',
             'linalg.det', 'linalg.eig', 'linalg.eigh', 'linalg.matrix_rank',
             'linalg.cond', 'linalg.eigvals']
    for n in names:
        o, a = _get(n)
        ORIG[n] = getattr(o, a)
    R = {}
    for n in ('zeros', 'ones', 'empty'):
        R[n] = _alloc(n)
    R['full'] = _full
    R['eye'] = _eye
    R['identity'] = lambda n, dtype=None: _eye(n) if dtype is None else \
        ORIG['identity'](n, dtype=dtype)
    for n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        R[n] = _like(n)
    for n in ('array', 'asarray'):
        R[n] = _array(n)
    R['sqrt'] = lambda x, *a, **k: (
        elementwise(s_sqrt, x) if is_obj(x) or (
            sym.PATH.run.exact_sqrt and not a and not k)
        else ORIG['sqrt'](x, *a, **k))
    for n in ('exp', 'log', 'log2', 'log10', 'sin', 'cos', 'arccos'):
        R[n] = _unary(n, lambda v, n=n: getattr(v, n)(),
                      lambda v, n=n: float(ORIG[n](float(v))))
    R['isnan'] = _bunary('isnan', math.isnan)
    R['isinf'] = _bunary('isinf', math.isinf)
    R['isfinite'] = _bunary('isfinite', math.isfinite)
    R['isclose'] = _isclose
    R['allclose'] = _allclose
    R['unique'] = _unique
    R['where'] = _where
    R['any'] = _any
    R['nanmin'] = _nanmin
    R['nanargmin'] = _nanargmin
    R['searchsorted'] = _searchsorted
    R['digitize'] = _digitize
    R['unravel_index'] = _unravel_i
    R['ravel_multi_index'] = _ravel_mi
    R['isscalar'] = _isscalar
    R['arange'] = _arange
    R['polyval'] = _polyval
    R['histogram'] = _unsup('histogram')
    R['linalg.norm'] = _norm
    R['linalg.inv'] = _inv
    R['linalg.solve'] = _solve
    R['linalg.qr'] = _qr
    R['linalg.svd'] = _svd
    R['linalg.pinv'] = _pinv
    R['linalg.lstsq'] = _lstsq
    R['linalg.cholesky'] = _cholesky
    R['linalg.det'] = _det
    R['linalg.matrix_rank'] = _matrix_rank
    R['linalg.cond'] = _cond
    for n in ('linalg.eig', 'linalg.eigh', 'linalg.eigvals'):
        R[n] = _unsup(n)
    for n in names:
        _install_one(n, R[n])
    for n in ('rand', 'randn', 'random', 'randint', 'permutation', 'choice',
              'random_sample', 'normal', 'uniform', 'standard_normal'):
        ORIG['random.' + n] = getattr(np.random, n)
        setattr(np.random, n, _rand_dispatch(n))
    from . import scipystub
    scipystub.install()
