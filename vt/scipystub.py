"""Exact stand-ins for the scipy.stats distributions tensap calls.

uniform: its piecewise-linear definition.  norm: an uninterpreted Phi with
values in (0, 1), its inverse, and the density as an uninterpreted positive
function.  Only used when an argument is symbolic."""
import math
from fractions import Fraction
import numpy as np
from . import sym
from .sym import S, z3, to_z3
from .nppatch import has_sym


def _broadcast(f, x, *par):
    if isinstance(x, (list, tuple)):
        x = np.asarray(x, dtype=object)
    if isinstance(x, np.ndarray):
        ar = np.broadcast_arrays(x, *[np.asarray(p, dtype=object)
                                      for p in par])
        out = np.empty(ar[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[a[i] for a in ar])
        return out
    return f(x, *par)


def u_cdf(x, loc=0, scale=1):
    if not scale > 0:
        return math.nan
    if isinstance(x, float) and math.isinf(x):
        return 0.0 if x < 0 else 1.0
    if x <= loc:
        return 0.0
    if x >= loc + scale:
        return 1.0
    return (x - loc) / scale


def u_ppf(q, loc=0, scale=1):
    if not scale > 0 or not q >= 0 or not q <= 1:
        return math.nan
    return loc + q * scale


def u_pdf(x, loc=0, scale=1):
    if not scale > 0:
        return math.nan
    if x >= loc and x <= loc + scale:
        return 1 / scale if isinstance(scale, S) else Fraction(1) / sym.num(
            scale)
    return 0.0


def n_cdf(x, loc=0, scale=1):
    if not scale > 0:
        return math.nan
    if isinstance(x, float) and math.isinf(x):
        return 0.0 if x < 0 else 1.0
    t = to_z3((x - loc) / scale)
    y = sym.ufun('Phi')(t)
    sym.PATH.axiom(y > 0, ('Phi0', t))
    sym.PATH.axiom(y < 1, ('Phi1', t))
    sym.PATH.axiom(sym.ufun('PhiInv')(y) == t, ('PhiI', t))
    increasing(t, y)
    return S(y)


def increasing(t, y):
    seen = sym.PATH.__dict__.setdefault('phis', [])
    if any(t.eq(s) for s, _ in seen):
        return
    for s, z in seen[:12]:
        sym.PATH.axiom((t <= s) == (y <= z), ('PhiM', t, s))
    seen.append((t, y))


def n_ppf(q, loc=0, scale=1):
    if not scale > 0 or not q >= 0 or not q <= 1:
        return math.nan
    if q == 0:
        return -math.inf
    if q == 1:
        return math.inf
    e = to_z3(q)
    y = sym.ufun('PhiInv')(e)
    sym.PATH.axiom(sym.ufun('Phi')(y) == e, ('PhiJ', e))
    increasing(y, e)
    return loc + scale * S(y)


def n_pdf(x, loc=0, scale=1):
    if not scale > 0:
        return math.nan
    t = to_z3((x - loc) / scale)
    y = sym.ufun('phi')(t)
    sym.PATH.axiom(y > 0, ('phi0', t))
    return S(y) / scale


def _brentq(orig):
    def brentq(f, a, b, *args, **kw):
        if sym.PATH is None:
            return orig(f, a, b, *args, **kw)
        y = sym.PATH.fresh('root')
        for e in (y >= a, y <= b):
            sym.PATH.assume(e.e, check=False)
        v = f(y)
        v = v if isinstance(v, S) else np.ravel(v)[0]
        sym.PATH.assume(to_z3(v) == 0, check=False)
        return y
    return brentq


class Diag:
    """Diagonal matrix (scipy.sparse.diags of one vector)."""

    def __init__(self, w):
        self.w = np.ravel(np.asarray(w, dtype=object))
        self.shape = (self.w.size, self.w.size)

    def dot(self, a):
        if isinstance(a, Diag):
            return Diag(self.w * a.w)
        a = np.asarray(a)
        if a.shape[0] != self.w.size:
            raise ValueError('dimension mismatch')
        return a * self.w.reshape((-1,) + (1,) * (a.ndim - 1))

    __matmul__ = dot
    __mul__ = dot

    def toarray(self):
        return np.diag(self.w)

    todense = toarray


def _diags(orig):
    def diags(d, *args, **kw):
        if sym.PATH is None or args or kw or np.ndim(d) != 1:
            return orig(d, *args, **kw)
        return Diag(d)
    return diags


def install():
    import scipy.optimize
    import scipy.sparse
    scipy.sparse.diags = _diags(scipy.sparse.diags)
    from scipy import stats
    scipy.optimize.brentq = _brentq(scipy.optimize.brentq)
    for dist, fs in ((stats.uniform, {'cdf': u_cdf, 'ppf': u_ppf,
                                      'pdf': u_pdf}),
                     (stats.norm, {'cdf': n_cdf, 'ppf': n_ppf,
                                   'pdf': n_pdf})):
        for name, f in fs.items():
            def g(x, *par, _f=f, _orig=getattr(dist, name), **kw):
                if sym.PATH is None or not (has_sym(x) or has_sym(par) or
                                            has_sym(list(kw.values()))):
                    return _orig(x, *par, **kw)
                if kw:
                    par = par + tuple(kw[k] for k in ('loc', 'scale')
                                      if k in kw)
                return _broadcast(_f, x, *par)
            setattr(dist, name, g)
