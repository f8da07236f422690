"""Path exploration engine and exact symbolic integers / booleans.

Python ints are unbounded, so every symbolic integer carries an interval [lo, hi]
and a z3 bit-vector that is exactly wide enough for the interval (unsigned when
lo >= 0, two's complement otherwise).  Every operation computes the result interval
first and works at that width, so nothing ever wraps: the encoding of Python
integer arithmetic is exact, not an approximation.
"""

import operator
import os
import time

import z3


class Control(BaseException):
    """Engine control flow; derives from BaseException so that code under test cannot swallow it."""


class Infeasible(Control):
    pass


class PathAbort(Control):
    """Stop the current path; the reason is recorded on the engine."""


class Unsupported(Control):
    def __init__(self, what):
        super().__init__(what)
        self.what = what


class BudgetExceeded(Control):
    pass


class SpecFail(Control):
    """Raised inside speculative (merged) evaluation when it cannot be merged."""


class Violation(Control):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
NOVARS = frozenset()
_ctx = z3.main_ctx()


class Entry:
    __slots__ = ("cond", "taken", "other", "val")

    def __init__(self, cond, taken, other, val=None):
        self.cond = cond
        self.taken = taken
        self.other = other  # True: the negated branch is still to be explored
        self.val = val  # recorded result of a solver-dependent choice


PROFILE = os.environ.get("SX_PROF")
PROF = {}


def _profile(t):
    """Attribute solver time to source lines of the code under test (SX_PROF=1)."""
    import sys

    f = sys._getframe(2)
    while f is not None and "/symx/" in f.f_code.co_filename:
        f = f.f_back
    k = f"{f.f_code.co_filename}:{f.f_lineno}" if f else "backtrack"
    n, tot = PROF.get(k, (0, 0.0))
    PROF[k] = (n + 1, tot + t)


class Engine:
    def __init__(self, query_timeout_ms=60000, deadline=None, uf=False):
        # QF_AUFBV-less default: z3's incremental bit-vector solver; with uninterpreted
        # functions (hash models) the general solver is needed.
        self.solver = z3.Solver() if uf else z3.SolverFor("QF_BV")
        self.solver.set("timeout", query_timeout_ms)
        self.trail = []
        self.pos = 0
        self.model = None
        self.spec = 0
        self.deadline = deadline
        self.solver_time = 0.0
        self.queries = 0
        self.asserts_discharged = 0
        self.asserts_trivial = 0
        self.decisions = 0
        self.unknowns = []
        self.flags = set()
        self.functions = set()
        self.inputs = {}
        self.input_order = []
        self.fresh_count = 0
        self.caches = {}
        self.concretise_limit = 70
        self.bounds_notes = set()
        self.vfs = {}
        self.forms = {}
        self.atoms = {}
        self.modkeys = {}
        self.defnames = {}
        self.defs = {}
        self.dv_memo = {}
        self.facts = {}
        self.tables = {}
        self.quots = {}
        self.condfacts = {}
        self.active = set()
        self.decided = {}

    # ------------------------------------------------------------------ solver
    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        t = time.perf_counter() - t
        self.solver_time += t
        self.queries += 1
        if PROFILE:
            _profile(t)
        return r

    def start_path(self):
        self.pos = 0
        self.spec = 0
        self.inputs = {}
        self.input_order = []
        self.fresh_count = 0
        self.caches = {}
        self.active = set()
        self.facts = {}
        self.decided = {}
        self.vfs = {}
        if self.model is None and not self.trail:
            r = self._check()
            self.model = self.solver.model()

    def next_path(self):
        """Backtrack to the deepest decision with an unexplored side. False when done."""
        while self.trail:
            ent = self.trail.pop()
            self.solver.pop()
            if ent.other:
                c = z3.Not(ent.cond) if ent.taken else ent.cond
                self.solver.push()
                self.solver.add(c)
                r = self._check()
                if r == z3.sat:
                    self.trail.append(Entry(ent.cond, not ent.taken, False))
                    self.model = self.solver.model()
                    return True
                if r == z3.unknown:
                    self.unknowns.append("branch")
                self.solver.pop()
        return False

    def _push(self, cond, taken, other):
        self.solver.push()
        self.solver.add(cond if taken else z3.Not(cond))
        self.trail.append(Entry(cond, taken, other))
        self.pos += 1

    def decide(self, cond):
        """Fork on a z3 Bool. Returns a Python bool."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.spec:
            raise SpecFail()
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[1]
        self.activate(cond)
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if not ent.cond.eq(cond):
                raise Unsupported("nondeterministic re-execution")
            self.pos += 1
            self.decided[cond.get_id()] = (cond, ent.taken)
            self.learn(cond, ent.taken)
            return ent.taken
        self.decisions += 1
        v = z3.is_true(self.model.eval(cond, model_completion=True))
        # the current model witnesses side v; is the other one feasible too?
        other = z3.Not(cond) if v else cond
        self.solver.push()
        self.solver.add(other)
        r = self._check()
        self.solver.pop()
        if r == z3.unknown:
            self.unknowns.append("branch")
            r = z3.unsat
        # The other side is re-checked (to obtain its model) when backtracking reaches it.
        self._push(cond, v, r == z3.sat)
        self.decided[cond.get_id()] = (cond, v)
        self.learn(cond, v)
        return v

    def record(self, fn):
        """Value of fn(), which may depend on the solver state, fixed for every re-execution of this prefix."""
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent.cond is not TRUE:
                raise Unsupported("nondeterministic re-execution (record)")
            self.pos += 1
            return ent.val
        v = fn()
        self.solver.push()
        self.trail.append(Entry(TRUE, True, False, v))
        self.pos += 1
        return v

    def possible(self, cond):
        """Is cond satisfiable on the current path (no fork)?"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.activate(cond)
        return self.record(lambda: self._possible(cond))

    def _possible(self, cond):
        if z3.is_true(self.model.eval(cond, model_completion=True)):
            return True
        r = self._check(cond)
        if r == z3.unknown:
            self.unknowns.append("possible")
            return True
        return r == z3.sat

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.activate(cond)
        if self.pos < len(self.trail):
            self.pos += 1
            return
        ok = z3.is_true(self.model.eval(cond, model_completion=True))
        self._push(cond, True, False)
        if not ok:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            else:
                if r == z3.unknown:
                    self.unknowns.append("assume")
                raise Infeasible()

    def define(self, sig, width, build):
        """Variable standing for a sum.  Its defining equation is asserted on a path as soon as a
        condition mentions the variable (a definition nothing depends on is always satisfiable)."""
        v = self.defnames.get(sig)
        if v is None:
            v = z3.BitVec(f"!t{len(self.defnames)}", width)
            self.defnames[sig] = v
            self.defs[v.get_id()] = (v, build(), None)
        return v

    def divide(self, a, d):
        """a // d, a % d for a >= 0 and constant d: the quotient is a defined variable and the
        remainder is the linear term a - d*q, so that d*q + r gives a back."""
        a1, d1 = a, d
        inner = self.quots.get(a.e.get_id())
        if inner is not None:  # (x // m) // d == x // (m * d)
            a, d = inner[0], inner[1] * d
        w = max(a.w, d.bit_length())
        x = ext(a, w)
        lo, hi = a1.lo // d1, a1.hi // d1
        sig = ("div", x.get_id(), d)
        q = self.defnames.get(sig)
        n = need(0, hi)
        if q is None:
            q = z3.BitVec(f"!q{len(self.defnames)}", n)
            self.defnames[sig] = q
            qx = z3.ZeroExt(w - n, q) if w > n else q
            rest = x - qx * z3.BitVecVal(d, w)
            con = z3.And(z3.ULE(q, z3.BitVecVal(hi, n)), z3.ULE(qx * z3.BitVecVal(d, w), x), z3.ULT(rest, z3.BitVecVal(d, w)))
            self.defs[q.get_id()] = (q, z3.Extract(n - 1, 0, z3.UDiv(x, z3.BitVecVal(d, w))), con)
        self.quots[q.get_id()] = (a, d, q)
        q = SInt(q, 0, hi)
        r = lin_add(a1, q * d1, -1, 0, d1 - 1)
        d = d1
        if r.__class__ is SInt:
            lo2, hi2 = max(r.lo, 0), min(r.hi, d - 1)
            if lo2 == hi2:
                r = lo2
            elif (lo2, hi2) != (r.lo, r.hi):
                if r._e is None and r.nib is None:  # a form of its own, not built yet
                    r = SInt(None, lo2, hi2, r.tz, None, r.lin)
                else:
                    r = mkint(low(r, need(lo2, hi2)), lo2, hi2)
        return (q if lo != hi else lo), r

    def quot_is(self, v, n):
        """Condition for a quotient variable to equal n, stated over the dividend (None: not a quotient)."""
        q = self.quots.get(v.e.get_id())
        if q is None:
            return None
        a, d, e = q
        r = b_and(a >= n * d, a < (n + 1) * d) if n else a < d
        if r.__class__ is SBool:
            r = SBool(z3.simplify(r.e))
            self.condfacts[r.e.get_id()] = (r.e, e.get_id() * 2, n)
        return r

    def learn(self, cond, taken):
        """Remember a variable that equals a constant on this path."""
        if taken:
            f = self.condfacts.get(cond.get_id())
            if f is not None:
                self.facts[f[1]] = f[2]
                return
        if not taken:
            if z3.is_not(cond):
                self.learn(cond.arg(0), True)
            return
        if z3.is_not(cond):
            return
        if z3.is_eq(cond):
            a, b = cond.arg(0), cond.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b) and z3.is_const(a) and a.get_id() in self.defs:
                self.facts[a.get_id() * 2] = b.as_long()

    def def_vars(self, e):
        """Ids of the defined variables occurring in e."""
        memo = self.dv_memo
        k = e.get_id()
        r = memo.get(k)
        if r is not None:
            return r[1]
        stack = [e]
        while stack:
            x = stack[-1]
            k = x.get_id()
            if k in memo:
                stack.pop()
                continue
            n = x.num_args()
            if n == 0:
                memo[k] = (x, frozenset((k,)) if k in self.defs else NOVARS)
                stack.pop()
                continue
            kids = [x.arg(i) for i in range(n)]
            todo = [y for y in kids if y.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            s = NOVARS
            for y in kids:
                t = memo[y.get_id()][1]
                if t:
                    s = s | t if s else t
            memo[k] = (x, s)
            stack.pop()
        return memo[e.get_id()][1]

    def activate(self, cond):
        """Assert the definitions cond depends on."""
        need = [k for k in self.def_vars(cond) if k not in self.active]
        if not need:
            return
        order = []

        def visit(k):
            if k in self.active:
                return
            self.active.add(k)
            for j in self.def_vars(self.defs[k][1]):
                visit(j)
            order.append(k)

        for k in sorted(need):
            visit(k)
        for k in order:
            if self.pos < len(self.trail):
                self.pos += 1
                continue
            v, e, con = self.defs[k]
            self.model.update_value(v, self.model.eval(e, model_completion=True))
            self._push(v == e if con is None else con, True, False)

    def complete(self, m):
        """Give the defined variables that were never asserted their values in m."""
        for k, (v, e, _) in self.defs.items():
            if k not in self.active:
                m.update_value(v, m.eval(e, model_completion=True))
        return m

    def refute(self, cond):
        """Query pc /\\ not cond. Returns ('unsat'|'sat'|'unknown', model)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.asserts_trivial += 1
            return "unsat", None
        self.activate(cond)
        if self.pos < len(self.trail):
            # assertion already discharged on the path that created this prefix
            return "unsat", None
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self._check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            self.asserts_discharged += 1
        elif r == z3.unknown:
            self.unknowns.append("assert")
        return str(r), m

    def fresh(self, prefix, width):
        self.fresh_count += 1
        return z3.BitVec(f"!{prefix}{self.fresh_count}", width)

    def flag(self, what):
        self.flags.add(what)


ENG = None


def set_engine(e):
    global ENG
    ENG = e


def eng():
    return ENG


# ---------------------------------------------------------------------------- booleans
class SBool:
    __slots__ = ("e",)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __repr__(self):
        return f"<SBool {self.e}>"

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return b_and(self, o)
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return b_or(self, o)
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.e, zb(o)))
        return self._int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == zb(o))
        return self._int() == o

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())


def _fwd(name):
    def f(self, o):
        return getattr(self._int(), name)(o)

    return f


for _n in (
    "add radd sub rsub mul rmul lshift rlshift rshift rrshift floordiv rfloordiv mod rmod truediv rtruediv lt le gt ge pow rpow"
).split():
    setattr(SBool, f"__{_n}__", _fwd(f"__{_n}__"))
for _n in ("neg", "pos", "invert", "abs"):
    setattr(SBool, f"__{_n}__", (lambda n: lambda self: getattr(self._int(), n)())(f"__{_n}__"))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def zb(x):
    """z3 Bool of a bool/SBool."""
    if isinstance(x, SBool):
        return x.e
    return TRUE if x else FALSE


def b_not(x):
    if isinstance(x, SBool):
        return mkbool(z3.simplify(z3.Not(x.e)))
    return not x


def b_and(*xs):
    es = []
    for x in xs:
        if isinstance(x, SBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SBool(es[0]) if len(es) == 1 else SBool(z3.And(*es))


def b_or(*xs):
    es = []
    for x in xs:
        if isinstance(x, SBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SBool(es[0]) if len(es) == 1 else SBool(z3.Or(*es))


# ---------------------------------------------------------------------------- integers
def need(lo, hi):
    if lo >= 0:
        return hi.bit_length() or 1
    return max(hi.bit_length() if hi > 0 else 0, (-lo - 1).bit_length()) + 1


MAXW = 8192


class SInt:
    """Exact symbolic integer."""

    __slots__ = ("_e", "lo", "hi", "tz", "nib", "lin", "xr")

    def __init__(self, e, lo, hi, tz=0, nib=None, lin=None):
        self._e = e
        self.xr = None  # operands of an exclusive or
        self.lin = lin
        self.lo = lo
        self.hi = hi
        self.tz = tz
        self.nib = nib

    @property
    def e(self):
        if self._e is None and self.nib is None:
            self._e = build_form(self)
        elif self._e is None:  # hex digit character: built on demand
            n, upper = self.nib
            n7 = z3.ZeroExt(3, n)
            self._e = z3.If(z3.ULE(n, 9), n7 + 48, n7 + (55 if upper else 87))
        return self._e

    @property
    def w(self):
        return need(self.lo, self.hi)

    def __repr__(self):
        return f"<SInt [{self.lo},{self.hi}] {self.e}>"

    # conversions -----------------------------------------------------------
    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        if self.xr is not None:
            return bool(self.xr[0] != self.xr[1])
        if ENG.quots:
            r = ENG.quot_is(self, 0)
            if r is not None:
                return not r
        return ENG.decide(self.e != 0)

    def __index__(self):
        return concretise(self)

    def __int__(self):
        return concretise(self)

    def __float__(self):
        return float(concretise(self))

    def __hash__(self):
        return hash(concretise(self))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SInt):
            return a.bit_length()
        w = a.w
        r = z3.BitVecVal(0, 16)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a.e) == 1, z3.BitVecVal(i + 1, 16), r)
        return mkint(r, a.lo.bit_length(), a.hi.bit_length())

    def bit_count(self):
        a = abs(self)
        r = 0
        for i in range(a.w):
            r = r + ((a >> i) & 1)
        return r

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from symx import seq

        return seq.int_to_bytes(self, length, byteorder, signed)

    # arithmetic ------------------------------------------------------------
    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return ite(self < 0, -self, self)

    def __add__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is int:
            if o == 0:
                return self
            lo, hi = self.lo + o, self.hi + o
            w = max(need(lo, hi), self.w, need(o, o))
            if lo < 0 or self.lo < 0 or o < 0:
                w = max(w, need(min(lo, self.lo, o), max(hi, self.hi, o)))
            if 0 < o < (1 << self.tz) and self.lo >= 0:
                return self | o
            return lin_add(self, o, 1, lo, hi)
        if o.__class__ is SInt:
            lo, hi = self.lo + o.lo, self.hi + o.hi
            if self.lo >= 0 and o.lo >= 0 and (o.hi < (1 << self.tz) or self.hi < (1 << o.tz)):
                return self | o
            w = max(need(lo, hi), need(min(self.lo, o.lo), max(self.hi, o.hi)))
            return lin_add(self, o, 1, lo, hi, min(self.tz, o.tz))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is int:
            return self + (-o)
        if o.__class__ is SInt:
            if o is self:
                return 0
            return lin_add(self, o, -1, self.lo - o.hi, self.hi - o.lo)
        return NotImplemented

    def __rsub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is int:
            if o > 0 and o & (o + 1) == 0 and self.lo >= 0 and self.hi <= o and form_of(self).k == o.bit_length():
                return lin_not(self, o.bit_length())  # 0xFF - sum % 256
            return lin_add(o, self, -1, o - self.hi, o - self.lo)
        return o.__sub__(self)

    def __mul__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is int:
            if o == 0:
                return 0
            if o == 1:
                return self
            if o > 0 and o & (o - 1) == 0:
                return self << (o.bit_length() - 1)
            c = sorted((self.lo * o, self.hi * o))
            f = exact_form(self)
            return from_terms(f.c * o, {k: (n * o, at) for k, (n, at) in f.t.items()}, c[0], c[1])
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        lo, hi = min(c), max(c)
        w = need(min(lo, self.lo, o.lo), max(hi, self.hi, o.hi))
        if w > MAXW:
            raise Unsupported("multiplication width")
        return mkint(ext(self, w) * ext(o, w), lo, hi)

    __rmul__ = __mul__

    def __lshift__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is SInt:
            if o.hi > 64:
                o = concretise(o)
            else:
                if o.lo < 0 and ENG.decide(o.e < 0):
                    raise ValueError("negative shift count")
                lo = min(self.lo, self.lo << o.hi)
                hi = max(self.hi, self.hi << o.hi)
                w = max(need(lo, hi), o.w + 1)
                return mkint(ext(self, w) << ext(o, w), lo, hi)
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        if self.w + o > MAXW:
            raise Unsupported("shift width")
        return SInt(z3.Concat(self.e, z3.BitVecVal(0, o)), self.lo << o, self.hi << o, self.tz + o)

    def __rlshift__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        # constant << symbolic
        if self.lo < 0 and ENG.decide(self.e < 0):
            raise ValueError("negative shift count")
        if self.hi > 600:
            return o << concretise(self)
        hi_s = self.hi
        lo, hi = min(o, o << hi_s, 0), max(o, o << hi_s, 0)
        w = max(need(lo, hi), self.w + 1)
        return mkint(z3.BitVecVal(o, w) << ext(self, w), lo, hi)

    def __rshift__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is SInt:
            if o.lo < 0 and ENG.decide(o.e < 0):
                raise ValueError("negative shift count")
            w = max(self.w, o.w + 1) + 1
            a, b = ext(self, w), ext(o, w)
            # shift amounts >= w give 0 / -1 in bit-vectors as in Python
            lo = min(self.lo, 0) if self.lo < 0 else 0
            hi = max(self.hi, 0) if self.hi >= 0 else -1
            return mkint(a >> b, lo, hi)
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        w = self.w
        o = min(o, w - 1)  # the bounds may be wider than the bit-vector
        return mkint(z3.Extract(w - 1, o, self.e), lo, hi, max(0, self.tz - o))

    def __rrshift__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return const(o).__rshift__(self)

    def __and__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is int:
            if o == 0:
                return 0
            if o > 0:
                if o & (o + 1) == 0:  # low-bit mask
                    k = o.bit_length()
                    if self.lo >= 0 and self.hi <= o:
                        return self
                    w = self.w
                    if k < w or self.lo < 0:
                        r = lin_mod(self, k)
                        if r is not None:
                            return r
                    if k < w:
                        return mkint(z3.Extract(k - 1, 0, self.e), 0, o, min(self.tz, k))
                    if self.lo >= 0:
                        return self
                    return mkint(ext(self, k), 0, o)
                k = o.bit_length()
                w = self.w
                if k < w:
                    a = z3.Extract(k - 1, 0, self.e)
                else:
                    a = ext(self, k)
                if self.lo >= 0 and self.hi.bit_length() < k:
                    o2 = o & ((1 << self.hi.bit_length()) - 1)
                    if o2 != o:
                        return self & o2
                t = (o & -o).bit_length() - 1
                # contiguous mask: keep as concat(extract, zeros)
                m = o >> t
                if m & (m + 1) == 0 and t:
                    return mkint(z3.Concat(z3.Extract(k - 1, t, a), z3.BitVecVal(0, t)), 0, o, t)
                return mkint(a & o, 0, o, max(t, self.tz))
            if self.lo >= 0:
                return self & (o & ((1 << self.w) - 1))
            w = max(self.w, need(o, o))
            lo = -(1 << (w - 1))
            return mkint(ext(self, w) & z3.BitVecVal(o, w), lo, max(self.hi, 0))
        if self.lo >= 0 and o.lo >= 0:
            w = min(self.w, o.w)
            return mkint(low(self, w) & low(o, w), 0, min(self.hi, o.hi), max(self.tz, o.tz))
        if self.lo >= 0 or o.lo >= 0:
            p, q = (self, o) if self.lo >= 0 else (o, self)
            w = p.w
            return mkint(p.e & low(ext_to(q, w), w), 0, p.hi)
        w = max(self.w, o.w)
        return mkint(ext(self, w) & ext(o, w), -(1 << (w - 1)), max(self.hi, o.hi))

    __rand__ = __and__

    def _orx(self, o, kind):
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is int:
            if o == 0:
                return self
            o = const(o)
        if self.lo >= 0 and o.lo >= 0:
            a, b = (self, o)
            if b.w > a.w:
                a, b = b, a
            # disjoint: (x << k) | y with y < 2**k
            for p, q in ((a, b), (b, a)):
                if p.tz and q.hi < (1 << p.tz):
                    w = p.w
                    k = p.tz
                    if k >= w:
                        continue
                    top = z3.Extract(w - 1, k, p.e)
                    return mkint(
                        z3.Concat(top, ext(q, k)),
                        p.lo + q.lo,
                        p.hi + q.hi,
                        min(q.tz, k),
                    )
            w = max(a.w, b.w)
            x, y = ext(a, w), ext(b, w)
            return mkint(x | y if kind else x ^ y, max(a.lo, b.lo) if kind else 0, (1 << w) - 1, min(a.tz, b.tz))
        w = max(self.w, o.w)
        w = need(min(self.lo, o.lo), max(self.hi, o.hi))
        x, y = ext(self, w), ext(o, w)
        return mkint(x | y if kind else x ^ y, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __or__(self, o):
        return self._orx(o, True)

    __ror__ = __or__

    def __xor__(self, o):
        if o.__class__ is int and o > 0 and o & (o + 1) == 0 and self.lo >= 0 and self.hi <= o:
            return lin_not(self, o.bit_length())
        r = self._orx(o, False)
        if o.__class__ is SInt and r.__class__ is SInt:
            r.xr = (self, o)
        return r

    __rxor__ = __xor__

    def __floordiv__(self, o):
        q = self.__divmod__(o)
        return q if q is NotImplemented else q[0]

    def __mod__(self, o):
        q = self.__divmod__(o)
        return q if q is NotImplemented else q[1]

    def __divmod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return divmod_(self, o)

    def __rdivmod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return divmod_(const(o), self)

    def __rfloordiv__(self, o):
        q = self.__rdivmod__(o)
        return q if q is NotImplemented else q[0]

    def __rmod__(self, o):
        q = self.__rdivmod__(o)
        return q if q is NotImplemented else q[1]

    def __truediv__(self, o):
        from symx import flt

        return flt.truediv(self, o)

    def __rtruediv__(self, o):
        from symx import flt

        return flt.truediv(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, (SInt, SBool)):
            if m is None:
                o = concretise(num(o))
            else:
                raise Unsupported("pow")
        if not isinstance(o, int) or o < 0:
            return float(concretise(self)) ** o
        r = 1
        for _ in range(o):
            r = r * self
            if m is not None:
                r = r % m
        return r

    def __rpow__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0 and self.lo >= 0:
            return 1 << (self * (o.bit_length() - 1))
        return o ** concretise(self)

    # comparisons -------------------------------------------------------------
    def __eq__(self, o):
        if o.__class__ is SBool:
            o = o._int()
        if o.__class__ is SInt:
            if o is self:
                return True
            if self.hi < o.lo or o.hi < self.lo:
                return False
            if self.nib is not None and o.nib is not None and self.nib[1] == o.nib[1]:
                return mkbool(self.nib[0] == o.nib[0])
            r = lin_eq(self, o)
            if r is not None:
                return r
            w = need(min(self.lo, o.lo), max(self.hi, o.hi))
            return mkbool(ext(self, w) == ext(o, w))
        if isinstance(o, int):
            o = int(o)
            if o < self.lo or o > self.hi:
                return False
            if self.nib is not None:
                d = hexdigit(o, self.nib[1])
                if d is None:
                    return False
                return mkbool(self.nib[0] == d)
            if o == 0 and self.xr is not None:
                return self.xr[0] == self.xr[1]
            if ENG.quots:
                r = ENG.quot_is(self, o)
                if r is not None:
                    return r
            return mkbool(self.e == o)
        if isinstance(o, float):
            return self == int(o) if o.is_integer() else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def _cmp(self, o, op):
        if isinstance(o, float):
            import math

            if math.isinf(o) or math.isnan(o):
                return op(0, o)
            f = math.floor(o)
            if f == o:
                o = f
            elif op is operator.lt or op is operator.le:
                return self <= f
            else:
                return self > f
        o = num(o)
        if o is None:
            return NotImplemented
        if o.__class__ is int:
            olo = ohi = o
        else:
            olo, ohi = o.lo, o.hi
        # interval decisions
        if op is operator.lt:
            if self.hi < olo:
                return True
            if self.lo >= ohi:
                return False
        elif op is operator.le:
            if self.hi <= olo:
                return True
            if self.lo > ohi:
                return False
        elif op is operator.gt:
            return self._cmp2(o, operator.le)
        else:
            return self._cmp2(o, operator.lt)
        if o.__class__ is SInt:
            r = lin_cmp(self, o, op is operator.lt)
            if r is not None:
                return r
            d = lin_diff(self, o)
            if d is not None:
                if d.__class__ is int:
                    return op(d, 0)
                return d._cmp(0, op)
        lo, hi = min(self.lo, olo), max(self.hi, ohi)
        w = need(lo, hi)
        a = ext(self, w)
        b = z3.BitVecVal(o, w) if o.__class__ is int else ext(o, w)
        if lo >= 0:
            return mkbool(z3.ULT(a, b) if op is operator.lt else z3.ULE(a, b))
        return mkbool(a < b if op is operator.lt else a <= b)

    def _cmp2(self, o, op):
        return b_not(self._cmp(o, op))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __format__(self, spec):
        # reached only from uninstrumented code (e.g. str.format in libraries)
        return format(concretise(self), spec)

    def __str__(self):
        return str(concretise(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---- linear normal forms ------------------------------------------------------------
class Form:
    """k is None: value = c + sum(coef * atom) exactly; else that sum modulo 2**k.

    Sums (checksums above all) are kept in this form, so that two sums over the same bytes
    are recognised as equal, or reduced to their difference, without a solver query.
    """

    __slots__ = ("k", "c", "t")

    def __init__(self, k, c, t):
        self.k, self.c, self.t = k, c, t


def form_of(x):
    """Form of an SInt (a plain one is its own atom)."""
    f = x.lin
    if f is not None:
        if ENG.facts and not ENG.facts.keys().isdisjoint(f.t):
            c, t = f.c, {}
            for key, (n, at) in f.t.items():
                v = ENG.facts.get(key)
                if v is None:
                    t[key] = (n, at)
                else:
                    c += n * v
            return Form(f.k, c, t)
        return f
    e = x.e
    key = e.get_id() * 2 + (x.lo < 0)
    r = ENG.forms.get(key)
    if r is not None:
        x.lin = r[1]
        return r[1]
    ENG.atoms[key] = e
    x.lin = Form(None, 0, {key: (1, x)})
    return x.lin


def exact_form(x):
    if x.__class__ is int:
        return Form(None, x, {})
    f = form_of(x)
    if f.k is None:
        return f
    sig = (f.k, f.c, tuple(sorted((a, b[0]) for a, b in f.t.items())))
    n = ENG.modkeys.setdefault(sig, -1 - len(ENG.modkeys))
    return Form(None, 0, {n: (1, x)})


def combine(fa, fb, sign):
    """-> (constant, terms, cancelled)"""
    t = dict(fa.t)
    shared = False
    for key, (c, at) in fb.t.items():
        o = t.get(key)
        if o is None:
            t[key] = (sign * c, at)
        else:
            shared = True
            n = o[0] + sign * c
            if n:
                t[key] = (n, at)
            else:
                del t[key]
    return fa.c + sign * fb.c, t, shared


def bounds_of(c, t):
    lo = hi = c
    for k, at in t.values():
        if k > 0:
            lo += k * at.lo
            hi += k * at.hi
        else:
            lo += k * at.hi
            hi += k * at.lo
    return lo, hi


def from_terms(c, t, lo, hi, tz=0):
    if not t:
        return c
    if len(t) == 1 and c == 0:
        ((k, at),) = t.values()
        if k == 1:
            return at
    if lo == hi:
        return lo
    return SInt(None, lo, hi, tz, None, Form(None, c, t))


def lin_add(a, b, sign, lo, hi, tz=0):
    fa, fb = exact_form(a), exact_form(b)
    c, t, shared = combine(fa, fb, sign)
    if shared:
        l2, h2 = bounds_of(c, t)
        lo, hi = max(lo, l2), min(hi, h2)
    return from_terms(c, t, lo, hi, tz)


def lin_mod(x, k):
    """x mod 2**k in normal form; None when x is a plain term."""
    f = form_of(x)
    if f.k is not None and f.k < k:
        return None
    if f.k is None and len(f.t) == 1 and f.c == 0:
        ((co, at),) = f.t.values()
        if co == 1 and form_of(at).k is None:
            return None
    m = (1 << k) - 1
    c = f.c
    t = {}

    def add(co, key, at):
        nonlocal c
        g = at.lin
        if g is not None and g.k is not None and g.k >= k:
            c += co * g.c
            for key2, (co2, at2) in g.t.items():
                add(co * co2, key2, at2)
            return
        n = (t[key][0] if key in t else 0) + co
        t[key] = (n, at)

    for key, (co, at) in f.t.items():
        add(co, key, at)
    return mod_terms(k, c, t)


def mod_terms(k, c, t):
    m = (1 << k) - 1
    half = 1 << (k - 1)
    c &= m
    t2 = {}
    for key, (n, at) in t.items():
        n &= m
        if n:
            t2[key] = (n - (1 << k) if n > half else n, at)
    if not t2:
        return c
    if len(t2) == 1 and c == 0:
        ((n, at),) = t2.values()
        if n == 1:
            if 0 <= at.lo and at.hi <= m:
                return at
            if at.w > k:
                return mkint(z3.Extract(k - 1, 0, at.e), 0, m)
    return SInt(None, 0, m, 0, None, Form(k, c, t2))


def lin_not(x, k):
    """(2**k - 1) - x for 0 <= x < 2**k."""
    f = form_of(x)
    if f.k == k:
        return mod_terms(k, -1 - f.c, {key: (-n, at) for key, (n, at) in f.t.items()})
    return mkint(~ext(x, k), ((1 << k) - 1) - x.hi, ((1 << k) - 1) - x.lo)


def term_sum(c, t, w):
    e = None
    for key in sorted(t):
        n, at = t[key]
        a = low(at, w)
        if n != 1:
            if n == -1:
                a = -a
            else:
                a = a * z3.BitVecVal(n, w)
        e = a if e is None else e + a
    if c or e is None:
        v = z3.BitVecVal(c, w)
        e = v if e is None else e + v
    return e


def build_form(x):
    """Bit-vector of a linear form: a variable defined as that sum, so that slicing it into bytes
    or digits and putting them together again gives back the very same term."""
    f = x.lin
    w = x.w
    k = w if f.k is None else f.k
    if len(f.t) == 1 and f.c == 0:
        ((n, at),) = f.t.values()
        if n == 1:
            return z3.simplify(low(at, w))
    v = ENG.define((k, f.c & ((1 << k) - 1), tuple(sorted((key, n) for key, (n, _) in f.t.items()))), k, lambda: term_sum(f.c, f.t, k))
    key = v.get_id() * 2 + (x.lo < 0)
    if key not in ENG.forms and k == w:
        ENG.forms[key] = (v, f)
    return v if k == w else z3.simplify(z3.Extract(w - 1, 0, v))


def lin_eq(a, b):
    """Equality through the difference of the normal forms; None: no common terms."""
    fa, fb = form_of(a), form_of(b)
    if fa.k is None and fb.k is None:
        if len(fa.t) == 1 and len(fb.t) == 1 and fa.t.keys() != fb.t.keys():
            return None
        d = lin_diff(a, b)
        if d is None:
            return None
        return d == 0
    k = fa.k if fa.k is not None else fb.k
    if fa.k is not None and fb.k is not None and fa.k != fb.k:
        return None
    for x, f in ((a, fa), (b, fb)):
        if f.k is None and not (x.lo >= 0 and x.hi < (1 << k)):
            return None
    c, t, shared = combine(fa, fb, -1)
    if not shared:
        return None
    d = mod_terms(k, c, t)
    if d.__class__ is int:
        return d == 0
    return d == 0


def lin_diff(a, b):
    """a - b when the two share terms, else None."""
    fa, fb = exact_form(a), exact_form(b)
    small, big = (fa.t, fb.t) if len(fa.t) < len(fb.t) else (fb.t, fa.t)
    if not any(k in big for k in small):
        return None
    c, t, _ = combine(fa, fb, -1)
    lo, hi = bounds_of(c, t)
    return from_terms(c, t, lo, hi)


def lin_cmp(a, b, strict):
    """a < b or a <= b of sums: the same term however the summands are arranged on the two sides."""
    fa, fb = exact_form(a), exact_form(b)
    if len(fa.t) + len(fb.t) < 3:
        return None
    c, t, _ = combine(fa, fb, -1)
    if len(t) < 3:
        return None
    if strict:
        c += 1
    lo, hi = bounds_of(c, t)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    flip = t[min(t)][0] < 0
    sign = 1
    if flip:  # d <= 0 is not (1 - d <= 0)
        sign, c = -1, 1 - c
    left = {k: (sign * n, at) for k, (n, at) in t.items() if sign * n > 0}
    right = {k: (-sign * n, at) for k, (n, at) in t.items() if sign * n < 0}
    cl, cr = max(c, 0), max(-c, 0)
    x = from_terms(cl, left, *bounds_of(cl, left))
    y = from_terms(cr, right, *bounds_of(cr, right))
    xl, xh = (x, x) if x.__class__ is int else (x.lo, x.hi)
    yl, yh = (y, y) if y.__class__ is int else (y.lo, y.hi)
    if xh <= yl:
        r = True
    elif xl > yh:
        r = False
    else:
        lo, hi = min(xl, yl), max(xh, yh)
        w = need(lo, hi)
        p, q = ext(x, w), ext(y, w)
        r = mkbool(z3.ULE(p, q) if lo >= 0 else p <= q)
    return b_not(r) if flip else r


def hexdigit(code, upper):
    if 48 <= code <= 57:
        return code - 48
    if upper and 65 <= code <= 70:
        return code - 55
    if not upper and 97 <= code <= 102:
        return code - 87
    return None


def nibchar(n4, upper=True):
    """Character (code point) of a 4-bit expression rendered as a hex digit."""
    n4 = z3.simplify(n4)
    if z3.is_bv_value(n4):
        v = n4.as_long()
        return ord(("%X" if upper else "%x") % v)
    return SInt(None, 48, 70 if upper else 102, 0, (n4, upper))


def num(o):
    """Normalise to int / SInt; None if not an integer."""
    c = o.__class__
    if c is int or c is SInt:
        return o
    if c is SBool:
        return o._int()
    if isinstance(o, int):
        return int(o)
    return None


def const(v):
    return SInt(z3.BitVecVal(v, need(v, v)), v, v)


def ext(x, w):
    """x extended to w bits (w >= x.w)."""
    if x.__class__ is int:
        return z3.BitVecVal(x, w)
    d = w - x.w
    if d == 0:
        return x.e
    return z3.ZeroExt(d, x.e) if x.lo >= 0 else z3.SignExt(d, x.e)


def ext_to(x, w):
    return x if x.w >= w else SInt(ext(x, w), -(1 << (w - 1)), (1 << (w - 1)) - 1) if x.lo < 0 else x


def low(x, w):
    if x.w == w:
        return x.e
    if x.w < w:
        return ext(x, w)
    return z3.Extract(w - 1, 0, x.e)


def mkint(e, lo, hi, tz=0):
    """SInt from an expression whose value is known to lie in [lo, hi] (interpreted at e's width)."""
    if lo == hi:
        return lo
    n = need(lo, hi)
    s = e.size()
    if s > n:
        e = z3.Extract(n - 1, 0, e)
    elif s < n:
        e = z3.ZeroExt(n - s, e) if lo >= 0 else z3.SignExt(n - s, e)
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        v = e.as_long()
        if lo < 0 and v >= 1 << (n - 1):
            v -= 1 << n
        return v
    if lo >= 0 and z3.is_app_of(e, z3.Z3_OP_CONCAT):
        z = e.arg(0)
        if z3.is_bv_value(z) and z.as_long() == 0:  # leading zero bits: narrow the interval
            hi = min(hi, (1 << (n - z.size())) - 1)
            if lo == hi:
                return lo
            m = need(lo, hi)
            if m < n:
                e = z3.simplify(z3.Extract(m - 1, 0, e))
    return SInt(e, lo, hi, tz)


def divmod_(a, b):
    """Floor division with Python semantics."""
    if b.__class__ is int:
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b < 0:
            q, r = divmod_(-a, -b)
            return q, -r
        if a.__class__ is int:
            return divmod(a, b)
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return a >> k, a & (b - 1)
        if a.lo >= 0:
            if a.hi < b:
                return 0, a
            return ENG.divide(a, b)
        # negative possible: shift by a multiple of b so that it is non-negative
        k = (-a.lo + b - 1) // b
        q, r = divmod_(a + k * b, b)
        return q - k, r
    if b.lo <= 0 <= b.hi and ENG.decide(b.e == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if a.__class__ is int:
        a = const(a)
    if a.lo >= 0 and b.lo >= 0:
        w = max(a.w, b.w)
        x, y = ext(a, w), ext(b, w)
        q = mkint(z3.UDiv(x, y), 0, a.hi)
        r = mkint(z3.URem(x, y), 0, min(a.hi, b.hi))
        return q, r
    return divmod_(a, concretise(b))


def ite(c, a, b):
    """Merge two integers/booleans under a (possibly symbolic) condition."""
    if not isinstance(c, SBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.simplify(z3.If(c.e, zb(a), zb(b))))
    a, b = num(a), num(b)
    if a.__class__ is int and b.__class__ is int and a == b:
        return a
    la, ha = (a, a) if a.__class__ is int else (a.lo, a.hi)
    lb, hb = (b, b) if b.__class__ is int else (b.lo, b.hi)
    lo, hi = min(la, lb), max(ha, hb)
    w = need(lo, hi)
    ta = a.tz if a.__class__ is SInt else ((a & -a).bit_length() - 1 if a else 4096)
    tb = b.tz if b.__class__ is SInt else ((b & -b).bit_length() - 1 if b else 4096)
    return mkint(z3.If(c.e, ext(a, w), ext(b, w)), lo, hi, min(ta, tb))


def concretise(x, limit=None):
    """Fork over the feasible concrete values of x."""
    if x.__class__ is SBool:
        return 1 if bool(x) else 0
    if x.__class__ is not SInt:
        return x
    if ENG.spec:
        raise SpecFail()
    limit = limit or ENG.concretise_limit
    n = 0
    e = x.e
    size = e.size()
    while True:
        # the model's own value is tried first, so a forced value costs one query
        ENG.activate(e)
        v = ENG.record(lambda: ENG.model.eval(e, model_completion=True).as_long())
        if ENG.decide(e == z3.BitVecVal(v, size)):
            if x.lo < 0 and v >= 1 << (size - 1):
                v -= 1 << size
            return v
        n += 1
        if n > limit:
            ENG.flag("concretisation limit")
            raise Unsupported("concretisation of a wide symbolic value")


def is_sym(x):
    return x.__class__ in (SInt, SBool)
