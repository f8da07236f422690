"""Harness contexts, case registry, path loop and native replay."""

import contextlib
import importlib
import importlib.util
import io
import os
import random
import signal
import sys
import tempfile
import time
import traceback

import z3

from symx import core, fmt, models, seq
from symx.core import (
    BudgetExceeded,
    Control,
    Engine,
    Infeasible,
    PathAbort,
    SBool,
    SInt,
    Unsupported,
    b_and,
    b_not,
    b_or,
    ite,
    mkint,
)
from symx.flt import SDy, SFBits
from symx.seq import SByteArray, SBytes, Seq, SStr


class CheckFailed(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class Timeout(BaseException):
    pass


class Case:
    def __init__(self, prop, fn, name, tier, grid, opts):
        self.prop, self.fn, self.name, self.tier, self.grid, self.opts = prop, fn, name, tier, grid, opts


CASES = []


def case(prop, tier="quick", grid=None, thorough_grid=None, bounds="", **opts):
    """Register a harness. grid: list of keyword dicts, one run (with its own exploration) each."""

    def deco(fn):
        fn._sx_case = dict(prop=prop, tier=tier, grid=grid or [{}], thorough_grid=thorough_grid, bounds=bounds, opts=opts)
        return fn

    return deco


# ------------------------------------------------------------------ contexts
class StdOut:
    """Stands for sys.stdout while code under test runs: keeps the text of a captured run, else passes it on."""

    encoding = "utf-8"

    def __init__(self):
        self.parts = None
        self.target = None

    def write(self, text):
        if self.parts is not None:
            self.parts.append(text)
        elif isinstance(text, str):
            (self.target or sys.__stdout__).write(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    @contextlib.contextmanager
    def using(self, target):
        old = self.parts, self.target
        self.parts, self.target = None, target
        try:
            with contextlib.redirect_stdout(self):
                yield
        finally:
            self.parts, self.target = old


STDOUT = models.STDOUT = StdOut()


class Base:
    symbolic = False

    def main(self, module, *argv, text=True):
        """Runs the command line tool of a module -> (exit code, lines printed; without text: anything printed?)."""
        m = self.imp(module)
        old = sys.argv, STDOUT.parts
        sys.argv, STDOUT.parts = [module, *argv], []
        code = 0
        try:
            m.main()
        except SystemExit as e:
            code = e.code or 0
        finally:
            parts = STDOUT.parts
            sys.argv, STDOUT.parts = old
        return code, self.lines(parts) if text else bool(parts)

    def all(self, conds):
        raise NotImplementedError

    def raises(self, fn, *exc):
        """Run fn; return the exception instance if it raised one of exc (default any Exception), else None."""
        exc = exc or (Exception,)
        try:
            fn()
        except exc as e:
            return e
        return None


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, runner):
        self.eng = engine
        self.runner = runner
        self.observed = []
        self.nchecks = 0
        self.tmp = None

    def lines(self, parts):
        return fmt.concat(parts).split("\n") if parts else []

    # inputs
    def _new(self, name):
        if name in self.eng.inputs:
            raise Unsupported(f"duplicate input name {name}")

    def int(self, name, lo, hi):
        self._new(name)
        if lo == hi:
            self.eng.inputs[name] = ("const", lo)
            return lo
        w = core.need(lo, hi)
        e = z3.BitVec(name, w)
        v = SInt(e, lo, hi)
        self.eng.inputs[name] = ("int", v)
        full_lo, full_hi = (0, (1 << w) - 1) if lo >= 0 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if lo > full_lo:
            self.eng.assume((z3.UGE(e, lo) if lo >= 0 else e >= lo))
        if hi < full_hi:
            self.eng.assume((z3.ULE(e, hi) if lo >= 0 else e <= hi))
        return v

    def byte(self, name):
        return self.int(name, 0, 255)

    def bytes(self, name, n):
        return seq.mkbytes([self.byte(f"{name}.{i}") for i in range(n)])

    def bytearray(self, name, n):
        return SByteArray([self.byte(f"{name}.{i}") for i in range(n)])

    def bool(self, name):
        self._new(name)
        e = z3.Bool(name)
        self.eng.inputs[name] = ("bool", SBool(e))
        return SBool(e)

    def text(self, name, n, alphabet=None):
        """n symbolic characters, each from alphabet (default: 7-bit ASCII)."""
        els = []
        for i in range(n):
            c = self.int(f"{name}.{i}", 0, 127)
            if alphabet is not None:
                c2 = seq.el_in(c, frozenset(map(ord, alphabet)))
                if isinstance(c2, SBool):
                    self.eng.assume(c2.e)
            els.append(c)
        return seq.mkstr(els)

    def choice(self, name, options):
        """Fork over a list of concrete alternatives."""
        i = self.int(name, 0, len(options) - 1)
        return options[core.concretise(i, 10000)]

    def pick(self, name, lo, hi):
        """Fork over every value of a small integer range."""
        return core.concretise(self.int(name, lo, hi), 10000)

    def float_bits(self, name, size):
        v = SFBits(self.int(name, 0, (1 << (8 * size)) - 1), size)
        self.eng.assume(core.zb(b_not(v._nan())))
        return v

    # logic
    def all(self, conds):
        return b_and(*[self._b(c) for c in conds])

    def any(self, conds):
        return b_or(*[self._b(c) for c in conds])

    def not_(self, c):
        return b_not(self._b(c))

    def _b(self, c):
        if isinstance(c, (SBool, bool)):
            return c
        if isinstance(c, SInt):
            return c != 0
        return bool(c)

    def eq(self, a, b):
        """Deep equality without forking; sequences of different length or type kind are unequal."""
        a, b = self._norm(a), self._norm(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return b_and(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return b_and(*[self.eq(a[k], b[k]) for k in a])
        r = a == b
        return r if isinstance(r, (SBool, bool)) else bool(r)

    @staticmethod
    def _norm(a):
        if isinstance(a, (bytes, bytearray, SBytes, models.MemView, memoryview)):
            return list(seq.els_of(a))
        return a

    def iff(self, a, b):
        a, b = self._b(a), self._b(b)
        return a == b

    def implies(self, a, b):
        return b_or(b_not(self._b(a)), self._b(b))

    def ite(self, c, a, b):
        return ite(self._b(c), a, b)

    def assume(self, c):
        c = self._b(c)
        if c is False:
            raise Infeasible()
        if c is not True:
            self.eng.assume(c.e)

    def split(self, c):
        """Fork on c."""
        return True if c else False

    def check(self, c, msg):
        self.nchecks += 1
        c = self._b(c)
        if c is True:
            self.eng.asserts_trivial += 1
            return
        if c is False:
            self.runner.counterexample(self, self.eng.model, msg)
            raise PathAbort("unconfirmed")
        r, m = self.eng.refute(c.e)
        if r == "sat":
            self.runner.counterexample(self, m, msg)
            self.eng.assume(c.e)

    def obs(self, label, v):
        self.observed.append((label, v))

    def path(self, name, content=None):
        """A file name; content None means it does not exist yet."""
        p = f"/sx/{name}"
        self.eng.vfs[p] = None if content is None else list(seq.els_of(content))
        return p

    def file_content(self, p):
        v = self.eng.vfs[p]
        return None if v is None else seq.mkbytes(list(v))

    def imp(self, name):
        return self.runner.loader.models.get(name) or self.runner.loader.load(name)


class NatCtx(Base):
    """Concrete replay against the unmodified sources."""

    def __init__(self, inputs, runner):
        self.inputs = inputs
        self.runner = runner
        self.observed = []
        self.nchecks = 0
        self._dir = None

    def lines(self, parts):
        return "".join(parts).split("\n") if parts else []

    def _get(self, name):
        if name not in self.inputs:
            raise AssumeFailed(f"no input {name}")
        return self.inputs[name]

    def int(self, name, lo, hi):
        v = self._get(name) if lo != hi else lo
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def byte(self, name):
        return self.int(name, 0, 255)

    def bytes(self, name, n):
        return bytes(self.byte(f"{name}.{i}") for i in range(n))

    def bytearray(self, name, n):
        return bytearray(self.bytes(name, n))

    def bool(self, name):
        return bool(self._get(name))

    def text(self, name, n, alphabet=None):
        s = "".join(chr(self.int(f"{name}.{i}", 0, 127)) for i in range(n))
        if alphabet is not None and any(c not in alphabet for c in s):
            raise AssumeFailed(name)
        return s

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def float_bits(self, name, size):
        import struct

        b = self.int(name, 0, (1 << (8 * size)) - 1)
        f, g = ("<f", "<I") if size == 4 else ("<d", "<Q")
        return struct.unpack(f, struct.pack(g, b))[0]

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def not_(self, c):
        return not c

    def eq(self, a, b):
        if isinstance(a, (bytes, bytearray, memoryview)):
            a = list(a)
        if isinstance(b, (bytes, bytearray, memoryview)):
            b = list(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.eq(a[k], b[k]) for k in a)
        return bool(a == b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not c:
            raise AssumeFailed("assume")

    def split(self, c):
        return bool(c)

    def check(self, c, msg):
        self.nchecks += 1
        if not c:
            raise CheckFailed(msg)

    def obs(self, label, v):
        self.observed.append((label, v))

    def path(self, name, content=None):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="sxreplay")
        p = os.path.join(self._dir, name)
        if content is not None:
            if os.path.exists(p):  # a new file: the old one may be mapped into memory
                os.unlink(p)
            with open(p, "wb") as f:
                f.write(bytes(content))
        return p

    def file_content(self, p):
        if not os.path.exists(p):
            return None
        with open(p, "rb") as f:
            return f.read()

    def imp(self, name):
        return importlib.import_module(name)

    def cleanup(self):
        if self._dir is not None:
            for f in os.listdir(self._dir):
                os.unlink(os.path.join(self._dir, f))
            os.rmdir(self._dir)


# ------------------------------------------------------------------ evaluation under a model
def ev(v, m):
    """Concrete value of an observed (possibly symbolic) value under model m."""
    if isinstance(v, SBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SInt):
        x = m.eval(v.e, model_completion=True).as_long()
        w = v.e.size()
        if v.lo < 0 and x >= 1 << (w - 1):
            x -= 1 << w
        return x
    if isinstance(v, SStr):
        return "".join(chr(ev(e, m)) for e in v.els)
    if isinstance(v, SBytes):
        return bytes(ev(e, m) for e in v.els)
    if isinstance(v, models.MemView):
        return bytes(ev(e, m) for e in v._sx_bytes())
    if isinstance(v, SFBits):
        import struct

        f, g = ("<f", "<I") if v.size == 4 else ("<d", "<Q")
        return struct.unpack(f, struct.pack(g, ev(v.bits, m)))[0]
    if isinstance(v, SDy):
        return ev(v.n, m) / (1 << v.k)
    if isinstance(v, (list, tuple)):
        return [ev(x, m) for x in v]
    if isinstance(v, dict):
        return {str(ev(k, m)): ev(x, m) for k, x in v.items()}
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, BaseException):
        return type(v).__name__
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, float)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, type):
        return v.__name__
    return f"<{type(v).__name__}>"


class _NoModel:
    def eval(self, e, model_completion=True):
        return e


def norm_native(v):
    return ev(v, _NoModel())


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return a == b
    return a == b


# ------------------------------------------------------------------ runner
@contextlib.contextmanager
def time_limit(sec):
    def on(sig, frm):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class StopCase(BaseException):
    pass


class Runner:
    """Explores one (harness, parameters) pair."""

    def __init__(self, loader, sym_fn, nat_fn, params, opts, budget):
        self.loader = loader
        self.sym_fn = sym_fn
        self.nat_fn = nat_fn
        self.params = params
        self.opts = opts
        self.budget = budget
        self.violations = []
        self.mismatches = []
        self.incomplete = []
        self.samples = []
        self.validated = 0
        self.paths = 0
        self.completed = 0
        self.checks = 0

    def inputs_of(self, m):
        out = {}
        for name, (kind, v) in self.eng.inputs.items():
            out[name] = v if kind == "const" else ev(v, m)
            if kind == "bool":
                out[name] = bool(out[name])
        return out

    def native(self, inputs):
        """-> (outcome, detail, ctx); outcome in ok|check|exception|assume|timeout"""
        ctx = NatCtx(inputs, self)
        out = io.StringIO()
        try:
            with time_limit(self.opts.get("native_limit", 15)), STDOUT.using(out):
                self.nat_fn(ctx, **self.params)
            return "ok", "", ctx
        except CheckFailed as e:
            return "check", str(e), ctx
        except AssumeFailed as e:
            return "assume", str(e), ctx
        except Timeout:
            return "timeout", "does not terminate", ctx
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for f in reversed(tb):
                if "/repo/" in f.filename or "objutils" in f.filename:
                    where = f" at {os.path.basename(f.filename)}:{f.lineno}"
                    break
            return "exception", f"{type(e).__name__}: {e}{where}", ctx
        finally:
            ctx.cleanup()

    def counterexample(self, ctx, m, msg):
        inputs = self.inputs_of(m)
        outcome, detail, _ = self.native(inputs)
        if outcome in ("check", "exception", "timeout"):
            self.violations.append(dict(msg=detail if outcome != "check" else detail, claimed=msg, inputs=inputs, outcome=outcome))
            raise StopCase()
        self.mismatches.append(dict(kind="unconfirmed counterexample", msg=msg, inputs=inputs, native=outcome + " " + detail))

    def run(self):
        t0 = time.time()
        eng = self.eng = Engine(
            query_timeout_ms=self.opts.get("query_ms", 60000), deadline=t0 + self.budget, uf=self.opts.get("uf", False)
        )
        if "concretise_limit" in self.opts:
            eng.concretise_limit = self.opts["concretise_limit"]
        core.set_engine(eng)
        max_paths = self.opts.get("max_paths", 200000)
        try:
            while True:
                self.paths += 1
                eng.start_path()
                ctx = SymCtx(eng, self)
                outcome, detail = self.one(ctx)
                self.checks += ctx.nchecks
                if outcome == "ok":
                    self.completed += 1
                    self.validate(ctx, outcome, detail)
                elif outcome in ("exception", "timeout"):
                    self.validate(ctx, outcome, detail)
                elif outcome == "unsupported":
                    # no verdict for this path; still let its witness run on the real code
                    self.incomplete.append(detail)
                    o, d, _ = self.native(self.inputs_of(eng.model))
                    if o in ("check", "exception", "timeout"):
                        self.violations.append(dict(msg=d, claimed=d, inputs=self.inputs_of(eng.model), outcome=o))
                        raise StopCase()
                if self.paths >= max_paths:
                    self.incomplete.append("path limit")
                    break
                if time.time() > eng.deadline:
                    raise BudgetExceeded()
                if len(self.mismatches) > 20:
                    self.incomplete.append("too many mismatches")
                    break
                if not eng.next_path():
                    break
        except BudgetExceeded:
            self.incomplete.append(f"time budget {self.budget:.0f}s")
        except StopCase:
            pass
        finally:
            core.set_engine(None)
        if core.PROFILE:
            for k, (n, t) in sorted(core.PROF.items(), key=lambda i: -i[1][1])[:12]:
                print(f"    {t:8.2f}s {n:6d} {k}", file=sys.stderr)
        if eng.unknowns:
            self.incomplete.append(f"solver unknown x{len(eng.unknowns)}")
        return dict(
            paths=self.paths,
            completed=self.completed,
            decisions=eng.decisions,
            queries=eng.queries,
            solver_s=eng.solver_time,
            discharged=eng.asserts_discharged,
            trivial=eng.asserts_trivial,
            checks=self.checks,
            functions=sorted(eng.functions),
            violations=self.violations,
            mismatches=self.mismatches,
            incomplete=sorted(set(self.incomplete)),
            flags=sorted(eng.flags),
            validated=self.validated,
            samples=self.samples,
            wall=time.time() - t0,
        )

    def one(self, ctx):
        try:
            with time_limit(self.opts.get("path_limit", 120)), STDOUT.using(sys.stdout):
                self.sym_fn(ctx, **self.params)
            return "ok", ""
        except Infeasible:
            return "infeasible", ""
        except PathAbort as e:
            return "abort", str(e)
        except Unsupported as e:
            if os.environ.get("SX_DEBUG"):
                traceback.print_exc()
            return "unsupported", str(e.what)
        except core.SpecFail:
            return "unsupported", "speculation escaped"
        except z3.Z3Exception as e:
            if os.environ.get("SX_DEBUG"):
                traceback.print_exc()
            return "unsupported", f"z3: {e}"
        except Timeout:
            return "timeout", "path time limit"
        except (BudgetExceeded, StopCase):
            raise
        except Exception as e:
            self.last_tb = traceback.format_exc()
            return "exception", f"{type(e).__name__}"

    def validate(self, ctx, outcome, detail):
        """Replay the path's witness on the real code and compare every observation."""
        m = self.eng.complete(self.eng.model)
        inputs = self.inputs_of(m)
        o, d, nctx = self.native(inputs)
        if o in ("check", "exception", "timeout"):
            self.violations.append(dict(msg=d, claimed=detail or "trace validation", inputs=inputs, outcome=o))
            raise StopCase()
        if outcome == "exception":
            if os.environ.get("SX_DEBUG"):
                print(self.last_tb)
            self.mismatches.append(dict(kind="model raised", msg=detail, tb=self.last_tb[-1500:], inputs=inputs, native=o))
            return
        if outcome == "timeout":
            self.incomplete.append("path time limit")
            return
        if o != "ok":
            self.mismatches.append(dict(kind="replay diverged", msg=o + d, inputs=inputs))
            return
        n = len(self.eng.defs)
        a = [(k, ev(v, m)) for k, v in ctx.observed]
        if len(self.eng.defs) != n:  # looking at the values introduced further definitions
            m = self.eng.complete(m)
            a = [(k, ev(v, m)) for k, v in ctx.observed]
        b = [(k, norm_native(v)) for k, v in nctx.observed]
        if len(a) != len(b) or any(x[0] != y[0] or not same(x[1], y[1]) for x, y in zip(a, b)):
            diff = next(((x, y) for x, y in zip(a, b) if x[0] != y[0] or not same(x[1], y[1])), (len(a), len(b)))
            self.mismatches.append(dict(kind="observation differs", msg=repr(diff)[:600], inputs=inputs))
            return
        self.validated += 1
        if len(self.samples) < 2:
            self.samples.append(dict(params=repr(self.params)[:200], inputs=jsonable(inputs), observed=jsonable(b)))


def jsonable(v):
    if isinstance(v, dict):
        items = list(v.items())
        d = {str(k): jsonable(x) for k, x in items[:60]}
        return d
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v[:40]]
    if isinstance(v, (bytes, bytearray)):
        return v.hex()
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v if not isinstance(v, str) or len(v) < 400 else v[:400]
    return str(v)[:200]
