"""Polynomial view of z3 terms and hint (cofactor) generation.

Only used to *suggest* lemma instances (cofactor * contract-equation = 0) and
monomial bounds to the solver; the verdict is always z3's.
"""
import time
from fractions import Fraction
from .sym import z3


class TooBig(Exception):
    pass


class Atoms:
    def __init__(self):
        self.ids = {}
        self.terms = []

    def get(self, e):
        i = e.get_id()
        if i not in self.ids:
            self.ids[i] = len(self.terms)
            self.terms.append(e)
        return self.ids[i]


def pmul(a, b, limit=200000):
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mmul(ma, mb)
            v = r.get(m, 0) + ca * cb
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > limit:
            raise TooBig
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mdiv(a, b):
    """a / b or None."""
    d = dict(a)
    for v, e in b:
        k = d.get(v, 0) - e
        if k < 0:
            return None
        if k:
            d[v] = k
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def topoly(e, atoms, memo=None):
    memo = {} if memo is None else memo
    stack = [(e, False)]
    while stack:
        t, done = stack.pop()
        i = t.get_id()
        if i in memo:
            continue
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t):
            f = t.as_fraction()
            if f.denominator == 1:
                f = f.numerator
            memo[i] = ({(): f} if f else {}, t)
            continue
        if z3.is_int_value(t):
            f = t.as_long()
            memo[i] = ({(): f} if f else {}, t)
            continue
        poly_ops = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS,
                    z3.Z3_OP_POWER)
        if k in poly_ops:
            if k == z3.Z3_OP_POWER and not (
                    z3.is_rational_value(t.arg(1))
                    and t.arg(1).as_fraction().denominator == 1
                    and 0 <= t.arg(1).as_fraction() <= 20):
                memo[i] = ({((atoms.get(t), 1),): 1}, t)
                continue
            if not done:
                stack.append((t, True))
                for c in t.children():
                    stack.append((c, False))
                continue
            ch = [memo[c.get_id()][0] for c in t.children()]
            if k == z3.Z3_OP_ADD:
                r = {}
                for c in ch:
                    for m, v in c.items():
                        w = r.get(m, 0) + v
                        if w == 0:
                            r.pop(m, None)
                        else:
                            r[m] = w
            elif k == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = padd(r, c, -1)
            elif k == z3.Z3_OP_UMINUS:
                r = {m: -v for m, v in ch[0].items()}
            elif k == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]:
                    r = pmul(r, c)
            else:
                n = int(t.arg(1).as_fraction())
                r = {(): 1}
                for _ in range(n):
                    r = pmul(r, ch[0])
            memo[i] = (r, t)
            continue
        memo[i] = ({((atoms.get(t), 1),): 1}, t)
    return memo[e.get_id()][0]


def toz3(p, atoms):
    """The polynomial as a term (built with the raw API, for speed)."""
    if not p:
        return z3.RealVal(0)
    ctx = z3.main_ctx()
    r = ctx.ref()
    reals = []
    for t in atoms.terms:
        reals.append(z3.ToReal(t) if z3.is_int(t) else t)
    keep, asts = [], (z3.Ast * len(p))()
    for n, (m, c) in enumerate(p.items()):
        q = z3.Q(c.numerator, c.denominator)
        f = [q.as_ast()]
        keep.append(q)
        for v, e in m:
            f.extend([reals[v].as_ast()] * e)
        if len(f) == 1:
            asts[n] = f[0]
            continue
        t = z3.ArithRef(z3.Z3_mk_mul(r, len(f), (z3.Ast * len(f))(*f)), ctx)
        keep.append(t)
        asts[n] = t.as_ast()
    if len(p) == 1:
        return z3.ArithRef(asts[0], ctx)
    return z3.ArithRef(z3.Z3_mk_add(r, len(p), asts), ctx)


def order_key(atoms, flip=False):
    """Lex order: fresh stub symbols above inputs, newest first.

    flip: inputs first, then stub symbols oldest first (contracts then
    eliminate the factored matrix instead of the factors)."""
    rank = {}

    def var_rank(v):
        if v not in rank:
            n = str(atoms.terms[v])
            rank[v] = (int(n.rsplit('!', 1)[1]) if '!' in n and
                       n.rsplit('!', 1)[1].isdigit() else 0, -v)
            if flip:
                rank[v] = (-rank[v][0], -v)
        return rank[v]

    def key(m):
        return sorted(((var_rank(v), e) for v, e in m), reverse=True)
    return key


def reduce(goal, rules, max_steps=400000, deadline=None):
    """rules: list of (poly, leading monomial).  -> (cofactors, remainder)"""
    p = dict(goal)
    rem = {}
    cof = [dict() for _ in rules]
    byvar = {}
    for i, (_, lm) in enumerate(rules):
        if lm:
            byvar.setdefault(lm[-1][0], []).append(i)
    steps = 0
    while p:
        m, c = p.popitem()
        hit = False
        for v, _ in m:
            for i in byvar.get(v, ()):
                rp, lm = rules[i]
                q = mdiv(m, lm)
                if q is None:
                    continue
                k = rp[lm]
                k = c if k == 1 else -c if k == -1 else \
                    Fraction(c) / k
                w = cof[i].get(q, 0) + k
                if w == 0:
                    cof[i].pop(q, None)
                else:
                    cof[i][q] = w
                for mm, cc in rp.items():
                    if mm == lm:
                        continue
                    t = mmul(mm, q)
                    w = p.get(t, 0) - k * cc
                    if w == 0:
                        p.pop(t, None)
                    else:
                        p[t] = w
                hit = True
                break
            if hit:
                break
        if not hit:
            w = rem.get(m, 0) + c
            if w == 0:
                rem.pop(m, None)
            else:
                rem[m] = w
        steps += 1
        if steps > max_steps or len(p) > 300000 or (
                steps % 500 == 0 and deadline and time.time() > deadline):
            raise TooBig
    return cof, rem
