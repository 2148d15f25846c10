"""Scenario contexts: symbolic (prove) and concrete (replay)."""
import math
import random
import time
from fractions import Fraction
import numpy as np
from . import sym, nppatch
from .sym import S, SB, z3, to_z3, Unsupported, PathEnd
from .poly import (Atoms, topoly, toz3, reduce, order_key, TooBig, padd, mmul, pmul,
                   mdiv)


class Violation(Exception):
    def __init__(self, label, model=None, detail=''):
        Exception.__init__(self, '%s %s' % (label, detail))
        self.label = label
        self.model = model
        self.detail = detail


class Inconclusive(Exception):
    pass


class Base:
    control_random = True

    def draw(self, kind, shape, k):
        """Integer-valued random draws: any admissible outcome."""
        def pick(lo, hi):
            self.nrand += 1
            if self.nrand > self.opts.get('max_draws', 1000):
                raise PathEnd      # bound on the number of draws
            fix = self.opts.get('fix_draws')    # True, or 'even'
            if fix and not (fix == 'even' and self.nrand % 2):
                return lo + self.nrand % (hi - lo + 1)
            return int(self.int('%s%d' % (kind, self.nrand), None, lo, hi))
        if kind == 'randint':
            a = [int(x) for x in shape]
            lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
            size = a[2] if len(a) > 2 else k.get('size')
            if size is None:
                return pick(lo, hi - 1)
            out = np.zeros(size, dtype=int)
            for i in np.ndindex(*out.shape):
                out[i] = pick(lo, hi - 1)
            return out
        if kind == 'permutation':
            n = shape[0]
            a = list(range(n)) if isinstance(n, (int, np.integer)) \
                else list(n)
            out = []
            while a:
                out.append(a.pop(pick(0, len(a) - 1)))
            return np.array(out, dtype=int)
        a = shape[0]
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        p = k.get('p')
        if p is not None:
            if any(x is None or not x >= 0 for x in p):
                raise ValueError('probabilities are not non-negative')
            p = np.ravel(p)
            a = a[np.array([bool(x != 0) for x in p])]
        size = k.get('size', shape[1] if len(shape) > 1 else None)
        if size is None:
            return a[pick(0, len(a) - 1)]
        if k.get('replace', shape[2] if len(shape) > 2 else True) is False:
            if k.get('p') is not None or np.ndim(size) != 0:
                raise Unsupported('choice without replacement')
            a, out = list(a), []
            for _ in range(size):
                out.append(a.pop(pick(0, len(a) - 1)))
            return np.array(out)
        out = np.zeros(size, dtype=int)
        for i in np.ndindex(*out.shape):
            out[i] = pick(0, len(a) - 1)
        return a[out]

    # small helpers shared by both modes ----------------------------------
    def all(self, xs):
        r = True
        for x in xs:
            r = self.conj(r, x)
        return r

    def conj(self, a, b):
        if isinstance(a, SB) or isinstance(b, SB):
            if a is True:
                return b
            if b is True:
                return a
            if a is False or b is False:
                return False
            return a & b
        return bool(a) and bool(b)


def as_obj(x):
    if isinstance(x, (S, SB, Fraction)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        return x
    try:
        return np.asarray(x)
    except (TypeError, Unsupported):
        return np.asarray(x, dtype=object)


class Sym(Base):
    symbolic = True

    def __init__(self, run, path, opts):
        self.run = run
        self.path = path
        self.opts = opts
        self.obs = []
        self.nrand = 0

    # inputs ----------------------------------------------------------------
    def _var(self, name, k):
        if name in self.path.inputs:
            return S(*self.path.inputs[name])
        v = z3.Real(name) if k == 'R' else z3.Int(name)
        self.path.inputs[name] = (v, k)
        return S(v, k)

    def _arr(self, name, shape, k):
        if shape is None:
            return self._var(name, k)
        if isinstance(shape, int):
            shape = (shape,)
        out = nppatch.ORIG['zeros'](shape).astype(object)
        for i in np.ndindex(*shape):
            out[i] = self._var(name + '[' + ','.join(map(str, i)) + ']', k)
        return out

    def real(self, name, shape=None, lo=None, hi=None, nonzero=False):
        a = self._arr(name, shape, 'R')
        self._bounds(a, lo, hi, nonzero)
        return a

    def int(self, name, shape=None, lo=None, hi=None, nonzero=False):
        a = self._arr(name, shape, 'I')
        self._bounds(a, lo, hi, nonzero)
        return a

    def _bounds(self, a, lo, hi, nonzero):
        eager, self.run.eager = self.run.eager, False
        for x in (a.flat if isinstance(a, np.ndarray) else [a]):
            if lo is not None:
                self.path.assume((x >= lo).e, check=False)
            if hi is not None:
                self.path.assume((x <= hi).e, check=False)
            if nonzero:
                self.path.assume((x != 0).e, check=False)
        self.run.eager = eager

    def random(self, kind, shape, k):
        if kind in ('randint', 'choice') or (
                kind == 'permutation' and self.opts.get('sym_perm')):
            return self.draw(kind, shape, k)
        self.nrand += 1
        name = '%s%d' % (kind, self.nrand)
        if kind == 'permutation':
            n = shape[0]
            return np.arange(n) if isinstance(n, (int, np.integer)) \
                else np.array(n)
        if kind not in ('rand', 'randn'):
            raise Unsupported('np.random.' + kind)
        lo, hi = (0, 1) if kind == 'rand' else (None, None)
        x = self.real(name, tuple(int(s) for s in shape) or None, lo, hi)
        if kind == 'rand':       # the end points have probability zero
            for v in (x.flat if isinstance(x, np.ndarray) else [x]):
                self.path.assume((v > 0).e, check=False)
                self.path.assume((v < 1).e, check=False)
        return x

    def assume(self, cond):
        if isinstance(cond, SB):
            self.path.assume(cond.e)
        elif not cond:
            raise PathEnd

    def generic(self, cond):
        """assume a condition excluding a set of measure zero"""
        if isinstance(cond, SB) and self.run.generic:
            self.path.generic(cond.e)
        else:
            self.assume(cond)

    # obligations -------------------------------------------------------------
    def eq(self, label, got, want, tol=None, opaque=()):
        """opaque: values whose definition the proof need not look at"""
        self.opaque = [x.e for a in opaque for x in as_obj(a).flat
                       if isinstance(x, S) and not z3.is_const(x.e)]
        got, want = as_obj(got), as_obj(want)
        if got.shape != want.shape:
            raise Violation(label, detail='shape %s instead of %s' % (
                got.shape, want.shape))
        self.obs.append((label, got))
        pairs = []
        for i in np.ndindex(*got.shape):
            a, b = got[i], want[i]
            if isinstance(a, (S, SB)) or isinstance(b, (S, SB)):
                a = a._i() if isinstance(a, SB) else a
                b = b._i() if isinstance(b, SB) else b
                if any(isinstance(t, float) and not math.isfinite(t)
                       for t in (a, b)) or a is None or b is None:
                    raise Violation(label, detail='entry %s: %r vs %r' %
                                    (i, a, b))
                pairs.append((a, b))
            else:
                if not const_close(a, b, tol):
                    raise Violation(label, detail='entry %s: %r vs %r' %
                                    (i, a, b))
        self.run.nobl += 1
        if pairs:
            self._prove_eq(label, pairs, tol)
        else:
            self.run.ntriv += 1

    def ok(self, label, cond, detail=''):
        self.run.nobl += 1
        if isinstance(cond, SB):
            self.obs.append((label, as_obj(cond)))
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                self.run.ntriv += 1
                return
            r, m = self.solve(z3.Not(e))
            if r == z3.sat:
                raise Violation(label, self.path_values(m, z3.Not(e)), detail)
            if r != z3.unsat:
                self.run.unknown.append(label)
        else:
            self.obs.append((label, np.asarray(bool(cond))))
            if not cond:
                raise Violation(label, detail=detail)
            self.run.ntriv += 1

    def observe(self, label, x):
        self.obs.append((label, as_obj(x)))

    # solver ---------------------------------------------------------------
    def _query(self, hyps, goal_neg, timeout, som=False):
        self.run.nq += 1
        t = time.time()
        if som:
            s = z3.Then(z3.With('simplify', som=True, som_blowup=10000000,
                                hoist_mul=False),
                        'smt').solver()
        else:
            s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        for h in hyps:
            s.add(h)
        s.add(goal_neg)
        r = s.check()
        m = s.model() if r == z3.sat else None
        dt = time.time() - t
        self.run.tq += dt
        self.run.maxq = max(self.run.maxq, dt)
        return r, m

    def solve(self, neg):
        """Is there a state of this path satisfying `neg`?"""
        T = self.opts.get('qtimeout', 20)
        if self.path.cons and (self.opts.get('elim') or
                               self.opts.get('linear')):
            try:
                s = (Atoms(), {}, {})
                r, m = self._query([opaque(h, s) for h in self.path.cons],
                                   opaque(neg, s), min(T, 5))
                if r == z3.unsat:
                    return r, m
            except TooBig:
                pass
        if self.path.stub:
            for h in self._cone(neg):
                r, m = self._query(h, neg, min(T, 5))
                if r == z3.unsat:
                    return r, m
            r, m = self._query(self.path.cons, neg, T)
            if r == z3.unsat:
                return r, m
        hyps = self.path.cons + self.path.stub
        r, m = self._query(hyps, neg, T)
        if r != z3.unknown:
            return r, m
        # try with inputs pinned to small values (can only find sat)
        rnd = random.Random(1)
        for _ in range(4):
            pins = [v == (z3.IntVal if k == 'I' else z3.RealVal)(
                rnd.randint(-3, 3)) for v, k in self.path.inputs.values()]
            r2, m2 = self._query(hyps + pins, neg, 2)
            if r2 == z3.sat:
                return r2, m2
        return self._query(hyps, neg, 2 * T, som=True)

    def _cone(self, goal):
        """Hypotheses within 1, 2 hops of the goal (enough for unsat)."""
        hyps = [(h, sym.vars_of(h)) for h in self.path.cons +
                self.path.stub]
        g = set(sym.vars_of(goal))
        if len(g) <= 12:
            small, near = [(h, v) for h, v in hyps if len(v) <= 2], set(g)
            for _ in range(2):
                pick = [h for h, v in small if v & near]
                near |= set().union(*[v for h, v in small if v & near])
            if pick:
                yield pick
        seen = set(sym.vars_of(goal))
        last = -1
        for _ in range(2):
            pick = [h for h, v in hyps if v & seen]
            if len(pick) == last:
                return
            last = len(pick)
            yield pick
            for h, v in hyps:
                if v & seen and len(v) <= 6:
                    seen |= v

    def _prove_eq(self, label, pairs, tol):
        T = self.opts.get('qtimeout', 20)
        diffs = [(to_z3(a), to_z3(b)) for a, b in pairs]
        if tol is not None:
            return self._prove_close(label, diffs, tol)
        neg = z3.Or([a != b for a, b in diffs])
        # 1. polynomial identity, no hypotheses
        free = not self.path.cons and not self.path.stub
        if free or self._looks_identical(diffs):
            r, m = self._query([], neg, T, som=True)
            if r == z3.unsat:
                return
            if free and r == z3.sat:
                raise Violation(label, self.path_values(m, neg))
        # 2. counterexample under pinned inputs
        if not self.path.stub:
            m = self._pinned(neg)
            if m is not None:
                raise Violation(label, self.path_values(m, neg))
        # 3. lemma instances of the stub contracts / path equalities
        rest = diffs
        if self.opts.get('elim'):
            rest = self._eliminate(rest, T)
        if rest:
            rest = self._hinted(rest, T)
        if rest and not self.opts.get('elim'):
            rest = self._eliminate(rest, T)
        if not rest:
            return
        neg = z3.Or([a != b for a, b in rest])
        r, m = self._query(self.path.cons, neg, T)
        if r == z3.unsat:
            return
        if self.path.stub:
            r, m = self._query(self.path.cons + self.path.stub, neg, T)
        if r == z3.sat:
            raise Violation(label, self.path_values(m, neg))
        if r == z3.unsat:
            return
        self.run.unknown.append(label)
        raise Violation(label, self.path_values(None, None),
                        'solver unknown', ) if self.path.stub else \
            Inconclusive(label)

    def _looks_identical(self, diffs):
        at, memo = Atoms(), {}
        try:
            return all(not topoly(a - b, at, memo) for a, b in diffs)
        except TooBig:
            return True

    def _prove_close(self, label, diffs, tol):
        """|a-b| <= tol given bounded inputs; monomials bounded first."""
        B = self.opts.get('box', 4)
        left = []
        for a, b in diffs:
            at = Atoms()
            try:
                p = topoly(a - b, at)
            except TooBig:
                left.append((a, b))
                continue
            if any(at.terms[v].decl().arity() for m in p for v, _ in m):
                left.append((a, b))
                continue
            if self._bounded(p, B, tol):
                continue
            q = self._close_rest(a, b, p, at)
            if q is None or not self._bounded(q, B, tol):
                left.append((a, b))
        if not left:
            return
        neg = z3.Or([z3.Or(a - b > zt(tol), b - a > zt(tol))
                     for a, b in left])
        m = self._pinned(neg)
        if m is not None:
            raise Violation(label, self.path_values(m, neg))
        r, m = self.solve(neg)
        if r == z3.sat:
            raise Violation(label, self.path_values(m, neg))
        if r != z3.unsat:
            self.run.unknown.append(label)
            raise Inconclusive(label)

    def _bounded(self, p, B, tol):
        cons, terms = [], []
        for n, (m, c) in enumerate(p.items()):
            c = Fraction(c)
            deg = sum(e for _, e in m)
            x = z3.Real('mono%d' % n)
            bd = z3.RealVal(B ** deg)
            cons += [x <= bd, x >= -bd]
            terms.append(z3.Q(c.numerator, c.denominator) * x)
        t = z3.Sum(terms) if terms else z3.RealVal(0)
        r, _ = self._query(cons, z3.Or(t > zt(tol), t < -zt(tol)), 10)
        return r == z3.unsat

    def _close_rest(self, a, b, p, at):
        """Certified rewriting of a - b with inverses and path equalities."""
        T = self.opts.get('qtimeout', 20)
        groups = [g for g in self.path.groups if g[0] in ('inv', 'sqrt')]
        peq = [(c.arg(0), c.arg(1)) for c in self.path.cons
               if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort()]
        if peq:
            groups.append(('path', peq))
        groups = self._linked([(a, b)], groups)
        try:
            raw = [(tag, topoly(u - v, at)) for tag, es in groups
                   for u, v in es]
            for flip, comp in ((False, False), (True, False), (False, True)):
                key = order_key(at, flip)
                pr = [(q, max(q, key=key)) for tag, q in raw
                      if tag == 'path' and q]
                eqs = [q for q, _ in pr]
                pr = [r for r in pr if r[1]]
                eqs += [self._interreduce(q, pr, at, T) if pr else q
                        for tag, q in raw if tag != 'path']
                rules = [(q, max(q, key=key)) for q in eqs if q]
                rules = [(q, lm) for q, lm in rules if lm]
                if not rules:
                    return None
                if comp:
                    rules = self._complete(rules, key, at, 5,
                                           len(rules) + 15)
                cof, rem = reduce(p, rules, deadline=time.time() + T)
                if len(rem) >= len(p) and any(
                        abs(c) > Fraction(1, 10 ** 9) for c in rem.values()):
                    continue
                comb = [toz3(c, at) * toz3(q, at)
                        for c, (q, _) in zip(cof, rules) if c]
                r, _ = self._query([], a - b != toz3(rem, at) + z3.Sum(comb)
                                   if comb else a - b != toz3(rem, at), T,
                                   som=True)
                if r == z3.unsat and self._bounded(
                        rem, self.opts.get('box', 4), 1):
                    self.run.nhint += 1
                    return rem
        except TooBig:
            pass
        return None

    def _pinned(self, neg, tries=3):
        """Model of path & neg with inputs pinned where possible."""
        rnd = random.Random(7)
        for _ in range(tries):
            s = z3.Solver()
            s.set('timeout', 4000)
            for h in self.path.cons:
                s.add(h)
            s.add(neg)
            pins = []
            for v, k in self.path.inputs.values():
                val = rnd.choice([-3, -2, -1, 1, 2, 3, 4, 5])
                pins.append(v == (z3.IntVal(abs(val)) if k == 'I' else
                                  z3.Q(val, rnd.choice([1, 2]))))
            self.run.nq += 1
            t = time.time()
            s.push()
            s.add(pins)
            r = s.check()
            if r == z3.sat:
                self.run.tq += time.time() - t
                return s.model()
            s.pop()
            self.run.tq += time.time() - t
            if not self.path.cons:
                continue
            # greedy pinning
            for h in pins:
                if time.time() - t > 10:
                    break
                s.push()
                s.add(h)
                r = s.check()
                if r != z3.sat:
                    s.pop()
            r = s.check()
            if r == z3.sat:
                return s.model()
            if r == z3.unsat:
                return None
        return None

    def _hinted(self, diffs, T):
        """Discharge with cofactor lemmas; returns the pairs left over."""
        groups = list(self.path.groups)
        peq = []
        for c in self.path.cons:
            if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort():
                peq.append((c.arg(0), c.arg(1)))
        if peq:
            groups.append(('path', peq))
        if not groups:
            return diffs
        sel = [[g for g in groups if not g[0].endswith('orth')],
               [g for g in groups if g[0].endswith('orth')
                or g[0] in ('sqrt', 'inv', 'path', 'svd-trace',
                                'svd-psd=')],
               [g for g in groups if g[0] not in ('svd-orth', 'svd-fro',
                                                  'svd-trace')],
               groups]
        done = []
        near = self._linked(diffs, groups)
        if len(near) < len(groups):
            sel = [[g for g in gs if any(g is o for o in near)]
                   for gs in sel] + sel
        for flip in (False, True):
            for gs in sel:
                if not diffs:
                    return diffs
                k = [id(g) for g in gs] + [flip]
                if not gs or k in done:
                    continue
                done.append(k)
                diffs = self._hint_try(diffs, gs, T, flip)
        gs = [g for g in near if g[0] not in ('svd-fro', 'svd-trace')]
        if diffs and any(g[0].endswith('orth') for g in gs):
            diffs = self._hint_try(diffs, gs, T, True, comp=True)
        return diffs

    def _eliminate(self, diffs, T):
        """Discharge identities of rational functions and square roots.

        Inverses and roots are eliminated, last one first; every step is an
        identity checked by the solver."""
        groups = self._linked(diffs, [g for g in self.path.groups
                                      if g[0] in ('inv', 'sqrt')])
        groups = [g for g in self.path.groups
                  if any(g is o for o in groups)]
        if not groups:
            return diffs
        rest = []
        for a, b in diffs:
            at, memo = Atoms(), {}
            end = time.time() + T
            for t in self.opaque:
                memo[t.get_id()] = ({((at.get(z3.FreshReal('opaque')), 1),):
                                     1}, t)
            try:
                gs = []
                for tag, es in groups:
                    y = es[0][0].arg(0)
                    e = es[0][0].arg(1) if tag == 'inv' else es[0][1]
                    gs.append((tag, at.get(y), topoly(e, at, memo)))
                done = self._elim(topoly(a - b, at, memo), gs, at, T, end)
            except TooBig:
                done = False
            if done:
                self.run.nhint += 1
            else:
                rest.append((a, b))
        return rest

    def _elim(self, p, gs, at, T, end):
        for k in range(len(gs) - 1, -1, -1):
            tag, v, e = gs[k]
            parts = {}
            for m, c in p.items():
                d = dict(m)
                j = d.pop(v, 0)
                parts.setdefault(j, {})[tuple(sorted(d.items()))] = c
            deg = max(parts, default=0)
            if not deg:
                continue
            if time.time() > end:
                return False
            y = {((v, 1),): 1}
            if tag == 'inv':
                # y e = 1:  p e^deg = sum_j c_j e^(deg-j)  and  e != 0
                pw = [{(): 1}]
                for _ in range(deg):
                    pw.append(pmul(pw[-1], e))
                ye, new, cof = pmul(y, e), {}, {}
                yp = [{(): 1}]
                for _ in range(deg):
                    yp.append(pmul(yp[-1], ye))
                for j, c in parts.items():
                    t = pmul(c, pw[deg - j])
                    new = padd(new, t)
                    for i in range(j):
                        cof = padd(cof, pmul(t, yp[i]))
                eq = (toz3(p, at) * toz3(pw[deg], at) - toz3(new, at),
                      (toz3(y, at) * toz3(e, at) - 1) * toz3(cof, at))
                new = [new]
            else:
                # y y = e:  p = even + odd y
                ev, od, cof = {}, {}, {}
                pw = [{(): 1}]
                for _ in range(deg // 2):
                    pw.append(pmul(pw[-1], e))
                for j, c in parts.items():
                    t = pmul(c, pw[j // 2])
                    if j % 2:
                        od = padd(od, t)
                    else:
                        ev = padd(ev, t)
                    for i in range(j // 2):
                        z = ((v, 2 * (j // 2 - 1 - i) + j % 2),)
                        z = {z: 1} if z[0][1] else {(): 1}
                        cof = padd(cof, pmul(pmul(c, pw[i]), z))
                eq = (toz3(p, at) - toz3(ev, at) -
                      toz3(od, at) * toz3(y, at),
                      (toz3(y, at) * toz3(y, at) - toz3(e, at)) *
                      toz3(cof, at))
                new = [ev, od]
            r, _ = self._query([], eq[0] != eq[1], T, som=True)
            if r != z3.unsat:
                return False
            return all(self._elim(q, gs[:k], at, T, end)
                       for q in new if q)
        return not p

    def _linked(self, diffs, groups):
        """Groups reachable from the goal through stub symbols."""
        inp = {v.get_id() for v, _ in self.path.inputs.values()}
        gv = [(g, set().union(*[sym.vars_of(a) | sym.vars_of(b)
                                for a, b in g[1]]) - inp) for g in groups]
        seen = set().union(*[sym.vars_of(a) | sym.vars_of(b)
                             for a, b in diffs]) - inp
        out = []
        more = True
        while more:
            more = False
            for g, v in gv:
                if not any(g is o for o in out) and (v & seen or not v):
                    out.append(g)
                    seen |= v
                    more = True
        return out

    def _complete(self, rules, key, at, T, limit=60):
        """Add S-polynomials (each certified) to frame equations."""
        rules = list(rules)
        todo = [(i, j) for i in range(len(rules)) for j in range(i)]
        end = time.time() + T
        while todo and len(rules) < limit and time.time() < end:
            i, j = todo.pop(0)
            (p, a), (q, b) = rules[i], rules[j]
            lcm = dict(a)
            for v, e in b:
                lcm[v] = max(lcm.get(v, 0), e)
            lcm = tuple(sorted(lcm.items()))
            if len(lcm) == len(a) + len(b):
                continue              # coprime
            u = {mmul(m, mdiv(lcm, a)): Fraction(c) / p[a]
                 for m, c in p.items()}
            w = {mmul(m, mdiv(lcm, b)): Fraction(c) / q[b]
                 for m, c in q.items()}
            sp = padd(u, w, -1)
            try:
                cof, rem = reduce(sp, rules, deadline=end)
            except TooBig:
                continue
            if not rem:
                continue
            cof[i] = padd(cof[i], {mdiv(lcm, a): -Fraction(1) / p[a]})
            cof[j] = padd(cof[j], {mdiv(lcm, b): Fraction(1) / q[b]})
            comb = [toz3(c, at) * toz3(r, at)
                    for c, (r, _) in zip(cof, rules) if c]
            r, _ = self._query([], toz3(rem, at) + z3.Sum(comb) != 0, T,
                               som=True)
            if r != z3.unsat:
                continue
            todo += [(len(rules), k) for k in range(len(rules))]
            rules.append((rem, max(rem, key=key)))
        return rules

    def _hint_try(self, diffs, groups, T, flip=False, comp=False):
        at = Atoms()
        memo = {}
        key = None
        rules, eqs = [], []
        try:
            for tag, es in groups:
                for a, b in es:
                    p = topoly(a - b, at, memo)
                    if p:
                        eqs.append((tag, p))
        except TooBig:
            return diffs
        key = order_key(at, flip)
        orth = [(p, max(p, key=key)) for tag, p in eqs
                if tag.endswith('orth')] if flip else []
        for tag, p in eqs:
            if orth and tag == 'svd-psd=':
                p = self._interreduce(p, orth, at, T)
                if not p:
                    continue
            lm = max(p, key=key)
            if lm:
                rules.append((p, lm))
        if comp:
            rules = self._complete(orth, key, at, T) + [
                (p, lm) for p, lm in rules
                if not any(p is q for q, _ in orth)]
        rest = []
        for a, b in diffs:
            try:
                g = topoly(a - b, at, memo)
                cof, rem = reduce(g, rules, deadline=time.time() + T)
            except TooBig:
                rest.append((a, b))
                continue
            if rem:
                rest.append((a, b))
                continue
            # certificate: a - b == sum cofactor_i * (contract equation i);
            # every contract equation is 0, so unsat here gives a == b
            comb = [toz3(c, at) * toz3(p, at)
                    for c, (p, _) in zip(cof, rules) if c]
            r, _ = self._query([], a - b != (z3.Sum(comb) if comb else
                                             z3.RealVal(0)), T, som=True)
            if r != z3.unsat:
                rest.append((a, b))
            else:
                self.run.nhint += 1
        return rest

    def _interreduce(self, p, orth, at, T):
        """Rewrite contract equation p = 0 with the frame equations."""
        try:
            cof, rem = reduce(p, orth, deadline=time.time() + T)
        except TooBig:
            return p
        comb = [toz3(c, at) * toz3(q, at)
                for c, (q, _) in zip(cof, orth) if c]
        if not comb:
            return p
        r, _ = self._query([], toz3(p, at) - toz3(rem, at) != z3.Sum(comb),
                           T, som=True)
        return rem if r == z3.unsat else p

    # models ----------------------------------------------------------------
    def path_values(self, m, neg):
        """Input assignment (name -> number), as friendly as possible."""
        if m is None or neg is not None and not self.path.stub:
            m2 = self._pinned(neg if neg is not None else z3.BoolVal(True))
            m = m2 if m2 is not None else m
        out = {}
        for n, (v, k) in self.path.inputs.items():
            x = m.eval(v, model_completion=True) if m is not None else None
            out[n] = model_number(x, k)
        return out


def opaque(e, state):
    """e with every comparison to a polynomial turned into the comparison
    of a free symbol to zero (the same symbol for the same polynomial)"""
    at, memo, names = state
    k = e.decl().kind()
    if z3.is_bool(e) and k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT,
                               z3.Z3_OP_GT, z3.Z3_OP_EQ) and \
            z3.is_arith(e.arg(0)):
        p = topoly(e.arg(0) - e.arg(1), at, memo)
        ms = sorted(p)
        if len(ms) <= 400:       # a linear form in the monomials
            x = z3.RealVal(0)
            for m in ms:
                if m and m not in names:
                    names[m] = z3.FreshReal('mono')
                x = x + zt(p[m]) * (names[m] if m else 1)
            return {z3.Z3_OP_LE: x <= 0, z3.Z3_OP_GE: x >= 0,
                    z3.Z3_OP_LT: x < 0, z3.Z3_OP_GT: x > 0,
                    z3.Z3_OP_EQ: x == 0}[k]
        f = Fraction(p[ms[-1]]) if ms else Fraction(1)
        key = tuple((m, Fraction(p[m]) / f) for m in ms)
        if key not in names:
            names[key] = z3.FreshReal('poly') if ms and ms[-1] else \
                z3.RealVal(1 if ms else 0)
        x = names[key] * (1 if f > 0 else -1)
        return {z3.Z3_OP_LE: x <= 0, z3.Z3_OP_GE: x >= 0,
                z3.Z3_OP_LT: x < 0, z3.Z3_OP_GT: x > 0,
                z3.Z3_OP_EQ: x == 0}[k]
    if z3.is_bool(e) and e.num_args() and all(z3.is_bool(a)
                                              for a in e.children()):
        return e.decl()(*[opaque(a, state) for a in e.children()])
    return e


def zt(t):
    f = Fraction(t)
    return z3.Q(f.numerator, f.denominator)


def model_number(x, k):
    if x is None:
        return 0
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        f = x.as_fraction()
        return float(f)
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    return 0


def const_close(a, b, tol=None):
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a == b
    if isinstance(a, Fraction):
        a = float(a)
    if isinstance(b, Fraction):
        b = float(b)
    try:
        if a == b:
            return True
        return abs(a - b) <= (tol or 1e-8) * max(1.0, abs(a), abs(b))
    except (TypeError, OverflowError):
        return False


class Conc(Base):
    """Concrete replay: same scenario, floats, unmodified numpy."""
    symbolic = False

    def __init__(self, values, opts=None, rng=None):
        self.values = values
        self.opts = opts or {}
        self.obs = []
        self.failed = []
        self.rng = rng or random.Random(0)
        self.nrand = 0

    def _val(self, name, k, lo, hi, nonzero):
        if name in self.values:
            v = self.values[name]
            if k == 'I' and lo is not None and hi is not None and \
                    not lo <= v <= hi:      # a draw after another history
                self.values[name] = v = lo + (v - lo) % (hi - lo + 1)
            return v
        a = lo if lo is not None else (hi - 3 if hi is not None else -3)
        b = hi if hi is not None else a + 6
        while True:
            v = self.rng.randint(math.ceil(a), math.floor(b)) if k == 'I' \
                else self.rng.uniform(a, b)
            if not (nonzero and v == 0):
                break
        self.values[name] = v
        return v

    def _arr(self, name, shape, k, lo, hi, nz):
        if shape is None:
            v = self._val(name, k, lo, hi, nz)
            return v if k == 'I' else float(v)
        if isinstance(shape, int):
            shape = (shape,)
        out = np.zeros(shape, dtype=int if k == 'I' else float)
        for i in np.ndindex(*shape):
            out[i] = self._val(name + '[' + ','.join(map(str, i)) + ']', k,
                               lo, hi, nz)
        return out

    def real(self, name, shape=None, lo=None, hi=None, nonzero=False):
        return self._arr(name, shape, 'R', lo, hi, nonzero)

    def int(self, name, shape=None, lo=None, hi=None, nonzero=False):
        return self._arr(name, shape, 'I', lo, hi, nonzero)

    def random(self, kind, shape, k):
        if kind in ('randint', 'choice') or (
                kind == 'permutation' and self.opts.get('sym_perm')):
            return self.draw(kind, shape, k)
        self.nrand += 1
        name = '%s%d' % (kind, self.nrand)
        if kind == 'permutation':
            n = shape[0]
            return np.arange(n) if isinstance(n, (int, np.integer)) \
                else np.array(n)
        if kind not in ('rand', 'randn'):
            return nppatch.ORIG['random.' + kind](*shape)
        lo, hi = (0, 1) if kind == 'rand' else (None, None)
        return self.real(name, tuple(int(s) for s in shape) or None, lo, hi)

    def assume(self, cond):
        if not cond:
            raise PathEnd

    generic = assume

    def eq(self, label, got, want, tol=None, opaque=()):
        got, want = np.asarray(got), np.asarray(want)
        self.obs.append((label, got))
        if got.shape != want.shape:
            self.failed.append((label, 'shape %s instead of %s' % (
                got.shape, want.shape)))
            return
        for i in np.ndindex(*got.shape):
            if not const_close(got[i], want[i], max(tol or 0, 1e-8)):
                self.failed.append((label, 'entry %s: got %r, expected %r' %
                                    (i, got[i], want[i])))
                return

    def ok(self, label, cond, detail=''):
        self.obs.append((label, np.asarray(bool(cond))))
        if not cond:
            self.failed.append((label, detail or 'condition is false'))

    def observe(self, label, x):
        self.obs.append((label, np.asarray(x)))
