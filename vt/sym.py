"""Symbolic scalars and the path explorer.

The code under test is the unmodified Python of /repo.  It is executed on
numpy object arrays whose entries are `S` (z3 terms) or plain numbers.  Every
Python-level branch on a symbolic truth value goes through `Path.branch`,
which asks z3 which outcomes are feasible and explores all of them.
"""
import sys
import functools
import math
import numbers
import opcode
import random
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402

NUM = (int, float, Fraction, np.integer, np.floating, bool, np.bool_)


class Unsupported(Exception):
    """The engine cannot follow the code here (never a verdict)."""


class PathEnd(BaseException):
    """The current path is infeasible / was abandoned by an assumption."""


class Budget(BaseException):
    """Path/time budget of the case exhausted."""


PATH = None          # current Path in symbolic mode, None in concrete mode


def num(x):
    """Python number -> int/Fraction (exact), or float for inf/nan."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return x
        if x == int(x):
            return int(x)
        if PATH is not None and PATH.run.snap:
            return snap(x, PATH.run.snap)
        return Fraction(x)
    raise TypeError


@functools.lru_cache(maxsize=100000)
def snap(x, bound):
    """The simple fraction a float constant stands for, if there is one."""
    f = Fraction(x).limit_denominator(bound)
    return f if abs(f - Fraction(x)) <= 2 * Fraction(math.ulp(x)) \
        else Fraction(x)


_VARS = {}


def vars_of(e):
    """ids of the free constants of a term (memoised on the whole term)"""
    k = e.get_id()
    if k in _VARS and _VARS[k][0].eq(e):
        return _VARS[k][1]
    out, todo, seen = set(), [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.get_id())
        else:
            todo.extend(t.children())
    _VARS[k] = (e, out)
    return out


def is_const(x):
    return isinstance(x, NUM)


def zval(c, want_int=False):
    if isinstance(c, int):
        return z3.IntVal(c) if want_int else z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)


def to_z3(x, real=True):
    if isinstance(x, S):
        if real and x.k == 'I':
            return z3.ToReal(x.e)
        return x.e
    if isinstance(x, SB):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    return zval(num(x), not real)


class Zero(int):
    """x - x: dividing by it behaves as in floating point"""
    def __truediv__(self, o):
        if isinstance(o, (int, float, np.number)) and o == 0:
            return math.nan
        return int(self) / o if not isinstance(o, S) else NotImplemented

    def __rtruediv__(self, o):
        if not isinstance(o, (int, float, Fraction, np.number)):
            return NotImplemented
        return math.nan if o == 0 or o != o else math.copysign(math.inf, o)


MOD = [k for k, v in enumerate(opcode._nb_ops) if v[1] == '%'][0]


def formatting(frame):
    """the running instruction is 'text' % values (reals have __rmod__)"""
    code, k = frame.f_code.co_code, frame.f_lasti
    return opcode.opname[code[k]] == 'BINARY_OP' and code[k + 1] == MOD


def now(b):
    """decide a comparison at once if the case asks for it"""
    return bool(b) if PATH is not None and PATH.run.eager else b


class SB:
    """Symbolic truth value."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return PATH.branch(self.e)

    def _o(self, o):
        if isinstance(o, SB):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        e = self._o(o)
        return NotImplemented if e is None else SB(z3.And(self.e, e))
    __rand__ = __and__

    def __or__(self, o):
        e = self._o(o)
        return NotImplemented if e is None else SB(z3.Or(self.e, e))
    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def logical_not(self):
        return SB(z3.Not(self.e))

    def _i(self):
        return S(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 'I')

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __eq__(self, o):
        if isinstance(o, SB):
            return SB(self.e == o.e)
        return self._i() == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return self.e.hash()

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))


_uf = {}


def ufun(name, arity=1):
    f = _uf.get(name)
    if f is None:
        f = z3.Function('uf_' + name, *([z3.RealSort()] * (arity + 1)))
        _uf[name] = f
    return f


class S:
    """Symbolic real ('R') or integer ('I') scalar."""
    __slots__ = ('e', 'k')
    dtype = np.dtype(object)
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e, k='R'):
        self.e = e
        self.k = k

    def __repr__(self):
        s = str(self.e)
        return 'S(%s)' % (s if len(s) < 60 else s[:57] + '...')

    def __hash__(self):
        return self.e.hash()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- coercion ---------------------------------------------------------
    def _c(self, o):
        """-> (kind, payload): 'n' exact number, 'x' inf/nan, 's' S, None."""
        if isinstance(o, S):
            return 's', o
        if isinstance(o, SB):
            return 's', o._i()
        if isinstance(o, NUM):
            o = num(o)
            if isinstance(o, float):
                return 'x', o
            return 'n', o
        return None, None

    def _pair(self, p):
        """z3 operands of a common sort, and that sort."""
        if isinstance(p, S):
            if self.k == 'I' and p.k == 'I':
                return self.e, p.e, 'I'
            return to_z3(self), to_z3(p), 'R'
        if self.k == 'I' and isinstance(p, int):
            return self.e, z3.IntVal(p), 'I'
        return to_z3(self), zval(p), 'R'

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        t, p = self._c(o)
        if t is None:
            return NotImplemented
        if t == 'x':
            return p
        if t == 'n' and p == 0:
            return self
        a, b, k = self._pair(p)
        return S(a + b, k)
    __radd__ = __add__

    def __sub__(self, o):
        t, p = self._c(o)
        if t is None:
            return NotImplemented
        if t == 'x':
            return -p
        if t == 'n' and p == 0:
            return self
        a, b, k = self._pair(p)
        if t == 's' and a.eq(b):
            return Zero(0)
        return S(a - b, k)

    def __rsub__(self, o):
        t, p = self._c(o)
        if t is None:
            return NotImplemented
        if t == 'x':
            return p
        if t == 'n' and p == 0:
            return -self
        a, b, k = self._pair(p)
        return S(b - a, k)

    def __mul__(self, o):
        t, p = self._c(o)
        if t is None:
            return NotImplemented
        if t == 'x':
            if math.isnan(p):
                return p
            if self > 0:
                return p
            if self < 0:
                return -p
            return math.nan
        if t == 'n':
            if p == 0:
                return 0
            if p == 1:
                return self
        a, b, k = self._pair(p)
        if t == 's' and PATH is not None and PATH.prod:
            r = PATH.prod.get(frozenset((a.get_id(), b.get_id())))
            if r is not None:
                return r
        return S(a * b, k)
    __rmul__ = __mul__

    def __neg__(self):
        return S(-self.e, self.k)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        t, p = self._c(o)
        if t is None:
            return NotImplemented
        if t == 'x':
            return math.nan if math.isnan(p) else 0
        if t == 'n':
            if p == 0:
                return self._div0()
            if p == 1:
                return S(to_z3(self), 'R')
            return S(to_z3(self) * zval(Fraction(1) / Fraction(p)), 'R')
        if PATH.zero(p):
            return self._div0()
        if self.e.eq(p.e):
            return 1
        return self * PATH.inverse(p)

    def _div0(self):
        if self > 0:
            return math.inf
        if self < 0:
            return -math.inf
        return math.nan

    def __rtruediv__(self, o):
        t, p = self._c(o)
        if t is None:
            return NotImplemented
        if PATH.zero(self):
            if t == 'x':
                return p
            return math.nan if p == 0 else math.copysign(math.inf, p)
        if t == 'x':
            return p if self > 0 else -p
        if p == 0:
            return 0
        return PATH.inverse(self) * p

    def _divisor(self, o):
        t, p = self._c(o)
        if t in (None, 'x'):
            raise Unsupported('floor division by %r' % (o,))
        return t, p

    def __floordiv__(self, o):
        t, p = self._divisor(o)
        if t == 'n':
            if p == 0:
                raise ZeroDivisionError
            if self.k == 'I' and isinstance(p, int):
                if p > 0:
                    return S(self.e / z3.IntVal(p), 'I')
                return S((-self.e) / z3.IntVal(-p), 'I')
            return S(z3.ToInt(to_z3(self) / zval(p)), 'I')
        return fdiv(self, p)

    def __rfloordiv__(self, o):
        t, p = self._divisor(o)
        return fdiv(p, self)

    def __mod__(self, o):
        t, p = self._divisor(o)
        if t == 'n' and self.k == 'I' and isinstance(p, int) and p > 0:
            return S(self.e % z3.IntVal(p), 'I')
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        t, p = self._c(o)
        if t == 'n':
            if isinstance(p, int):
                if p < 0:
                    return 1 / (self ** (-p))
                r = 1
                for _ in range(p):
                    r = self * r
                return r
            if p == Fraction(1, 2):
                return self.sqrt()
            if p == Fraction(3, 2):
                return self * self.sqrt()
            if p == Fraction(-1, 2):
                return 1 / self.sqrt()
            return S(ufun('pow', 2)(to_z3(self), zval(p)))
        if t == 's':
            if p.k == 'I':
                return self ** int(p)
            return S(ufun('pow', 2)(to_z3(self), to_z3(p)))
        raise Unsupported('pow')

    def __rpow__(self, o):
        t, p = self._c(o)
        if self.k == 'I':
            return o ** int(self)
        if t == 'n':
            return S(ufun('pow', 2)(zval(p), to_z3(self)))
        raise Unsupported('rpow')

    def __abs__(self):
        e = self.e
        if PATH is not None and e.get_id() in PATH.nonneg:
            return self
        return S(z3.If(e >= 0, e, -e), self.k)

    # -- comparisons ------------------------------------------------------
    def _cmp(self, o, op):
        t, p = self._c(o)
        if t is None:
            return NotImplemented
        if t == 'x':
            return bool(op(0.0, p))
        a, b, _ = self._pair(p)
        if PATH is not None and PATH.run.generic:
            r = PATH.by_sign(a, b, op)
            if r is not None:
                return SB(z3.BoolVal(r))
        return now(SB(radicands(op, a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        t, p = self._c(o)
        if t is None:
            return False
        if t == 'x':
            return False
        a, b, _ = self._pair(p)
        if t == 's' and a.eq(b):
            return True
        return now(SB(radicands(lambda u, v: u == v, a, b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SB):
            return SB(z3.Not(r.e))
        return not r

    def __bool__(self):
        return PATH.branch(self.e != 0)

    # -- conversion -------------------------------------------------------
    def __int__(self):
        if self.k == 'I':
            return PATH.concretize(self.e)
        e = self.e
        return PATH.concretize(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    __trunc__ = __int__

    def __index__(self):
        if self.k != 'I':
            raise TypeError('real used as an index')
        return PATH.concretize(self.e)

    def __float__(self):
        if self.k == 'I':
            return float(PATH.concretize(self.e))
        v = PATH.forced_value(self.e)
        if v is None and formatting(sys._getframe(1)):
            return math.nan
        if v is None:
            raise Unsupported('float() of a symbolic real')
        return float(v)

    def __floor__(self):
        return self if self.k == 'I' else S(z3.ToInt(self.e), 'I')

    def __ceil__(self):
        return self if self.k == 'I' else S(-z3.ToInt(-self.e), 'I')

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported('round(n)')
        return self if self.k == 'I' else S(rint(self.e), 'I')

    def rint(self):
        return self.__round__()

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def astype(self, t, **kw):
        if t in (int, np.int64, np.int32, 'int', 'int64'):
            return self if self.k == 'I' else int(self)
        return self

    def copy(self):
        return self

    def sqrt(self):
        return PATH.sqrt(self)

    def square(self):
        return self * self

    def is_integer(self):
        if self.k == 'I':
            return True
        return bool(SB(z3.IsInt(self.e)))

    def exp(self):
        e = to_z3(self)
        y = ufun('exp')(e)
        PATH.axiom(y > 0, ('exp', e))
        return S(y)

    def log(self):
        return S(ufun('log')(to_z3(self)))

    def log2(self):
        return S(ufun('log2')(to_z3(self)))

    def log10(self):
        return S(ufun('log10')(to_z3(self)))

    def sin(self):
        return S(ufun('sin')(to_z3(self)))

    def cos(self):
        return S(ufun('cos')(to_z3(self)))

    def arccos(self):
        return S(ufun('arccos')(to_z3(self)))


numbers.Number.register(S)


ZERO = z3.RealVal(0)


def radicands(op, a, b):
    """op(a, b), decided on what is under the roots when a, b are roots"""
    goal = op(a, b)
    sq = PATH.sqid if PATH is not None else {}
    i, j = a.get_id() in sq, b.get_id() in sq
    if not i and not j:
        return goal

    def under(x, root):
        if root:
            return sq[x.get_id()]
        if not z3.is_rational_value(x):
            return None
        f = x.as_fraction()
        return None if f < 0 else z3.Q(f.numerator ** 2, f.denominator ** 2)
    u, v = under(a, i), under(b, j)
    if u is None or v is None:
        return goal
    cond = op(u, v)
    if not z3.is_true(z3.simplify(cond == goal)):
        PATH.axiom(goal == cond, ('root', goal))
    return cond


def rint(e):
    f = z3.ToInt(e + z3.Q(1, 2))
    # round-half-to-even
    return z3.If(z3.And(z3.ToReal(f) == e + z3.Q(1, 2), f % 2 == 1), f - 1, f)


def fdiv(a, b):
    """floor(a / b) for symbolic b (forks on sign)."""
    if b == 0:
        raise ZeroDivisionError
    a = a if isinstance(a, S) else num(a)
    ints = ((isinstance(a, int) or (isinstance(a, S) and a.k == 'I'))
            and b.k == 'I')
    if ints:
        ea = a.e if isinstance(a, S) else z3.IntVal(a)
        if b > 0:
            return S(ea / b.e, 'I')
        return S((-ea) / (-b.e), 'I')
    return S(z3.ToInt(to_z3(a) / to_z3(b)), 'I')


# ---------------------------------------------------------------------------
class Path:
    """One symbolic execution path (a prefix of branch outcomes)."""

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.i = 0
        self.trace = []
        self.cons = []         # branch/assumption constraints
        self.stub = []         # contracts of nondeterministic stubs
        self.nonneg = {}
        self.positive = set()
        self.sqid = {}
        self.groups = []       # [(tag, [poly equations])] for hinting
        self.keys = set()
        self.sq = {}
        self.inv = {}
        self.prod = {}         # rewrites of products of two symbols
        self.nfresh = 0
        self.lin = None
        self.inputs = {}       # name -> (z3 var, kind)
        self.solver = z3.Solver()
        self.solver.set('timeout', run.feas_ms)

    # constraints ---------------------------------------------------------
    def assume(self, e, check=True):
        e = z3.simplify(e) if not isinstance(e, bool) else z3.BoolVal(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd
        self.cons.append(e)
        self.solver.add(e)
        if check and self.i >= len(self.prefix):
            self.run.nq += 1
            t = time.time()
            r = self.solver.check()
            self.run.tq += time.time() - t
            if r == z3.unsat:
                raise PathEnd

    def axiom(self, e, key):
        k = (key[0],) + tuple(x.get_id() if hasattr(x, 'get_id') else x
                              for x in key[1:])
        if k in self.keys:
            return
        self.keys.add(k)
        self.keys.add(e)     # keep alive
        self.cons.append(e)
        self.solver.add(e)

    def contract(self, tag, eqs, ineqs=()):
        """Equations (z3 terms == 0 given as pairs) promised by a stub.

        Kept out of the branch-feasibility solver unless linear: dropping
        them only adds paths (sound for "holds")."""
        eqs = [(to_z3(a), to_z3(b)) for a, b in eqs]
        self.groups.append((tag, eqs))
        for a, b in eqs:
            self.stub.append(a == b)
        for e in ineqs:
            self.cons.append(e)
            self.solver.add(e)

    def _linear(self, e):
        """Is e refuted when monomials are taken as unknowns?"""
        from . import ctx
        if self.lin is None:
            self.lin = z3.Solver(), (ctx.Atoms(), {}, {}), [0]
            self.lin[0].set('timeout', 2000)
        s, state, n = self.lin
        try:
            while n[0] < len(self.cons):
                n[0] += 1
                s.add(ctx.opaque(self.cons[n[0] - 1], state))
            s.push()
            s.add(ctx.opaque(e, state))
        except ctx.TooBig:
            return False
        r = s.check()
        s.pop()
        self.run.nq += 1
        return r == z3.unsat

    def _feas(self, e):
        self.run.nq += 1
        t = time.time()
        if self.run.linear and self._linear(e):
            self.run.tq += time.time() - t
            return False
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        self.run.tq += time.time() - t
        if r == z3.unknown:
            self.run.feas_unknown += 1
        return r != z3.unsat

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.i < len(self.prefix):
            out = self.prefix[self.i]
            self.i += 1
            self.trace.append(out)
            c = e if out else z3.Not(e)
            self.cons.append(c)
            self.solver.add(c)
            return out
        self.run.tick()
        self.i += 1
        t = self._feas(e)
        f = self._feas(z3.Not(e)) if t else True
        if t and f:
            self.run.push(self.trace + [False])
            self.run.nforks += 1
        out = t
        self.trace.append(out)
        self.prefix = self.trace[:]
        c = e if out else z3.Not(e)
        self.cons.append(c)
        self.solver.add(c)
        return out

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.i < len(self.prefix):
            v = self.prefix[self.i]
            self.i += 1
            self.trace.append(v)
        else:
            self.run.tick()
            vals = []
            self.solver.push()
            while True:
                self.run.nq += 1
                r = self.solver.check()
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    self.solver.pop()
                    raise Unsupported('cannot enumerate an integer')
                v = self.solver.model().eval(e, model_completion=True)
                v = v.as_long()
                vals.append(v)
                self.solver.add(e != v)
                if len(vals) > self.run.max_conc:
                    self.solver.pop()
                    raise Unsupported('integer with too many values: %s' % e)
            self.solver.pop()
            if not vals:
                raise PathEnd
            vals.sort()
            for w in vals[1:]:
                self.run.push(self.trace + [w])
            self.run.nforks += len(vals) - 1
            v = vals[0]
            self.i += 1
            self.trace.append(v)
            self.prefix = self.trace[:]
        self.cons.append(e == v)
        self.solver.add(e == v)
        return v

    def forced_value(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return e.as_fraction()
        if self.solver.check() != z3.sat:
            return None
        v = self.solver.model().eval(e, model_completion=True)
        if not z3.is_rational_value(v):
            return None
        if self._feas(e != v):
            return None
        return v.as_fraction()

    # fresh symbols ---------------------------------------------------------
    def fresh(self, name, k='R'):
        self.nfresh += 1
        n = '%s!%d' % (name, self.nfresh)
        v = z3.Real(n) if k == 'R' else z3.Int(n)
        return S(v, k)

    def inverse(self, x):
        """1/x for x known nonzero on this path (x * inv == 1)."""
        e = z3.simplify(to_z3(x))
        if z3.is_rational_value(e):
            return num(1 / e.as_fraction())
        key = e.get_id()
        if key not in self.inv:
            y = self.fresh('inv')
            self.inv[key] = (e, y)
            if not self.run.generic:
                self.solver.add(y.e * e == 1)
            elif self.sign(to_z3(x), {}):
                self.nonneg[y.e.get_id()] = y
                self.positive.add(y.e.get_id())
                self.cons.append(y.e > 0)
                self.solver.add(y.e > 0)
            self.groups.append(('inv', [(y.e * to_z3(x), z3.RealVal(1))]))
            self.stub.append(y.e * e == 1)
        return self.inv[key][1]

    def zero(self, p):
        """Is the denominator p zero on this path?"""
        e = radicands(lambda u, v: u == v, to_z3(p), ZERO)
        if not self.run.generic:
            return self.branch(e)
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        self.generic(z3.Not(e))
        return False

    def sign(self, e, memo):
        """2: positive, 1: non-negative as written, 0: unknown"""
        i = e.get_id()
        if i in memo:
            return memo[i]
        k = e.decl().kind()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            r = 2 if f > 0 else 1 if f == 0 else 0
        elif i in self.nonneg:
            r = 2 if i in self.positive else 1
        elif k == z3.Z3_OP_ADD:
            q = [self.sign(t, memo) for t in e.children()]
            r = 0 if 0 in q else max(q)
        elif k == z3.Z3_OP_MUL:
            fs, todo = {}, list(e.children())
            while todo:
                t = todo.pop()
                if t.decl().kind() == z3.Z3_OP_MUL and \
                        t.get_id() not in fs and \
                        not any(t.eq(u) for u in todo):
                    todo += t.children()
                elif t.get_id() in fs:
                    fs.pop(t.get_id())
                    fs[-1 - len(fs)] = None
                else:
                    fs[t.get_id()] = t
            q = [1 if t is None else self.sign(t, memo)
                 for t in fs.values()]
            r = min(q)
        else:
            r = 0
        memo[i] = r
        return r

    def by_sign(self, a, b, op):
        """op(a, b) when the other one is zero and the sign is apparent"""
        for x, y, flip in ((a, b, False), (b, a, True)):
            if z3.is_rational_value(y) and y.as_fraction() == 0:
                s = self.sign(x, {})
                if not s:
                    return None
                r = {bool(z3.is_true(z3.simplify(
                    op(z3.RealVal(0), z3.RealVal(v)) if flip else
                    op(z3.RealVal(v), z3.RealVal(0)))))
                    for v in ((1,) if s == 2 else (0, 1))}
                return r.pop() if len(r) == 1 else None
        return None

    def generic(self, e):
        """Scope: inputs outside an algebraic set (recorded, not solved)."""
        if not any(e.eq(h) for h in self.cons):
            self.cons.append(e)
            self.run.scope.add('denominators and determinants are non-zero')

    def sqrt(self, x, nonneg=False):
        e = z3.simplify(to_z3(x))
        if z3.is_rational_value(e):
            return const_sqrt(e.as_fraction())
        key = e.get_id()
        if key in self.sq:
            return self.sq[key][1]
        if not nonneg and self.run.generic:
            self.cons.append(e >= 0)
            self.run.scope.add('square roots of non-negative numbers')
        elif not nonneg and self.branch(e < 0):
            return math.nan
        y = self.fresh('sqrt')
        self.nonneg[y.e.get_id()] = y
        self.sqid[y.e.get_id()] = e
        self.sq[key] = (e, y)
        self.cons.append(y.e >= 0)
        self.solver.add(y.e >= 0)
        # the defining equation helps feasibility when it is simple
        if not nonneg or self.run.sqrt_def:
            self.solver.add(y.e * y.e == e)
        self.groups.append(('sqrt', [(y.e * y.e, to_z3(x))]))
        self.stub.append(y.e * y.e == e)
        return y


def const_sqrt(f):
    f = Fraction(f)
    if f < 0:
        return math.nan
    p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if p * p == f.numerator and q * q == f.denominator:
        return Fraction(p, q) if q != 1 else p
    return math.sqrt(f)


class Run:
    """All paths of one case."""

    def __init__(self, max_paths=4000, deadline=None, feas_ms=3000,
                 max_conc=64):
        self.stack = [[]]
        self.max_paths = max_paths
        self.deadline = deadline
        self.feas_ms = feas_ms
        self.max_conc = max_conc
        self.sqrt_def = False
        self.generic = False
        self.nq = 0
        self.tq = 0.0
        self.nforks = 0
        self.npaths = 0
        self.feas_unknown = 0
        self.snap = 0
        self.linear = False
        self.eager = False

    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
