"""Instrumenting loader: reads the code under test from its source files, rewrites the few
operations CPython would hand to C code, and executes it against the proxy values."""

import ast
import builtins
import os
import sys
import types

import z3

from symx import core, fmt, models, nd, orm, regex, seq
from symx.core import SBool, SInt, SpecFail, b_and, b_not, b_or, ite, mkbool, num, zb
from symx.models import SYMT, Shim, unshim
from symx.seq import SByteArray, SBytes, Seq, SStr, els_of

METHODS = {
    "join", "format", "startswith", "endswith", "find", "rfind", "index", "rindex", "count", "replace", "get", "pop",
    "setdefault", "partition", "rpartition", "split", "rsplit", "strip", "lstrip", "rstrip", "removeprefix",
    "removesuffix", "extend", "ljust", "rjust", "center", "zfill", "fromkeys", "union", "translate",
}
PURE_CALLS = {"int", "bool", "len", "min", "max", "abs", "ord"}


def is_pure(n):
    """Expression with no side effect (it may raise)."""
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.Attribute):
        return is_pure(n.value)
    if isinstance(n, ast.BinOp):
        return is_pure(n.left) and is_pure(n.right)
    if isinstance(n, ast.UnaryOp):
        return is_pure(n.operand)
    if isinstance(n, ast.BoolOp):
        return all(is_pure(v) for v in n.values)
    if isinstance(n, ast.Compare):
        return is_pure(n.left) and all(is_pure(c) for c in n.comparators)
    if isinstance(n, ast.IfExp):
        return is_pure(n.test) and is_pure(n.body) and is_pure(n.orelse)
    if isinstance(n, ast.Subscript):
        return is_pure(n.value) and is_pure(n.slice)
    if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load):
        return all(is_pure(e) for e in n.elts)
    if isinstance(n, ast.Call):
        return (
            isinstance(n.func, ast.Name)
            and n.func.id in PURE_CALLS
            and not n.keywords
            and all(is_pure(a) for a in n.args)
        )
    return False


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def lam(body):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body
    )


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []  # 'f' function, 'c' class
        self.names = []
        self.tmp = 0

    def in_func(self):
        return bool(self.stack) and self.stack[-1] == "f"

    # scopes -----------------------------------------------------------------
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit_args(node.args)
        node.returns = None
        self.stack.append("f")
        self.names.append(node.name)
        body = []
        doc = []
        src = node.body
        if src and isinstance(src[0], ast.Expr) and isinstance(src[0].value, ast.Constant) and isinstance(src[0].value.value, str):
            doc = [src[0]]
            src = src[1:]
        for s in src:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        qual = self.modname + ":" + ".".join(self.names)
        self.names.pop()
        self.stack.pop()
        mark = ast.Expr(call("_sx_fn", ast.Constant(qual)))
        node.body = doc + [mark] + body
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_args(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_Lambda(self, node):
        node.args = self.visit_args(node.args)
        self.stack.append("f")
        node.body = self.visit(node.body)
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.stack.append("c")
        self.names.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.names.pop()
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if self.in_func():
            if node.value is None:
                return ast.copy_location(ast.Pass(), node)
            return ast.copy_location(ast.Assign(targets=[node.target], value=self.visit(node.value)), node)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # expressions ------------------------------------------------------------
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call("_sx_mod", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            tgt = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.copy_location(
                ast.Assign(targets=[node.target], value=call("_sx_mod", tgt, self.visit(node.value))), node
            )
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        pure = all(is_pure(c) for c in node.comparators)
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(call("_sx_in", l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(call("_sx_not", call("_sx_in", l, r)), node)
            if isinstance(op, ast.Is):
                return ast.copy_location(call("_sx_is", l, r), node)
            if isinstance(op, ast.IsNot):
                return ast.copy_location(call("_sx_not", call("_sx_is", l, r)), node)
            return node
        if pure and self.in_func():
            names = ast.Tuple(elts=[ast.Constant(type(o).__name__) for o in node.ops], ctx=ast.Load())
            return ast.copy_location(
                call("_sx_chain", names, node.left, *[lam(c) for c in node.comparators]), node
            )
        return node

    def visit_BoolOp(self, node):
        pure = all(is_pure(v) for v in node.values[1:])
        self.generic_visit(node)
        if pure and self.in_func():
            f = "_sx_and" if isinstance(node.op, ast.And) else "_sx_or"
            return ast.copy_location(call(f, node.values[0], *[lam(v) for v in node.values[1:]]), node)
        return node

    def visit_IfExp(self, node):
        pure = is_pure(node.body) and is_pure(node.orelse)
        self.generic_visit(node)
        if pure and self.in_func():
            return ast.copy_location(call("_sx_ifexp", node.test, lam(node.body), lam(node.orelse)), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(call("_sx_not", node.operand), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(call("_sx_fval", self.visit(v.value), ast.Constant(v.conversion), spec))
        return ast.copy_location(call("_sx_fstr", *parts), node)

    def visit_MatchValue(self, node):
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in METHODS:  # a method that is not called here
            return ast.copy_location(call("_sx_bound", node.value, ast.Constant(node.attr)), node)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
        else:
            self.generic_visit(node)
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            return ast.copy_location(
                ast.Call(
                    func=ast.Name(id="_sx_callm", ctx=ast.Load()),
                    args=[f.value, ast.Constant(f.attr)] + node.args,
                    keywords=node.keywords,
                ),
                node,
            )
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return ast.copy_location(call("_sx_getitem", node.value, node.slice), node)
        return node

    # statements ---------------------------------------------------------------
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node

    def _single(self, stmts):
        """(name, value expression) if the block is one pure assignment to a plain local name"""
        if len(stmts) != 1:
            return None
        s = stmts[0]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and is_pure(s.value):
            return s.targets[0].id, s.value
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and is_pure(s.value):
            return s.target.id, ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value)
        if isinstance(s, ast.If):
            a = self._single(s.body)
            if a is None or not is_pure(s.test):
                return None
            if s.orelse:
                b = self._single(s.orelse)
                if b is None or b[0] != a[0]:
                    return None
                e = b[1]
            else:
                e = ast.Name(id=a[0], ctx=ast.Load())
            return a[0], ast.IfExp(test=s.test, body=a[1], orelse=e)
        return None

    def visit_If(self, node):
        import copy

        cand = None
        if self.in_func():
            a = self._single(node.body)
            if a is not None:
                if node.orelse:
                    b = self._single(node.orelse)
                    if b is not None and b[0] == a[0]:
                        cand = (a[0], copy.deepcopy(a[1]), copy.deepcopy(b[1]))
                else:
                    cand = (a[0], copy.deepcopy(a[1]), ast.Name(id=a[0], ctx=ast.Load()))
        self.generic_visit(node)
        if cand is None:
            return node
        name, x, y = cand
        self.tmp += 1
        c, r = f"_sx_c{self.tmp}", f"_sx_r{self.tmp}"
        x, y = self.visit(x), self.visit(y)
        L = lambda n: ast.Name(id=n, ctx=ast.Load())  # noqa: E731
        S = lambda n: ast.Name(id=n, ctx=ast.Store())  # noqa: E731
        native = ast.If(test=L(c), body=node.body, orelse=node.orelse)
        out = [
            ast.Assign(targets=[S(c)], value=node.test),
            ast.Assign(targets=[S(r)], value=call("_sx_merge", L(c), lam(x), lam(y))),
            ast.If(
                test=ast.Compare(left=L(r), ops=[ast.IsNot()], comparators=[L("_sx_FAIL")]),
                body=[ast.Assign(targets=[S(name)], value=L(r))],
                orelse=[native],
            ),
        ]
        return [ast.copy_location(s, node) for s in out]


# ------------------------------------------------------------------ runtime
class _Fail:
    pass


FAIL = _Fail()


def spec_eval(f):
    """Evaluate f without forking; returns (ok, value)."""
    e = core.ENG
    e.spec += 1
    try:
        return True, f()
    except SpecFail:
        return False, None
    except Exception:
        return False, None
    finally:
        e.spec -= 1


def mergeable(a, b):
    if a is b:
        return True
    ka, kb = num(a), num(b)
    if ka is not None and kb is not None:
        # bool vs int keeps its Python type only when both agree
        return isinstance(a, (bool, SBool)) == isinstance(b, (bool, SBool)) and not (
            isinstance(a, int) and type(a) not in (int, bool) or isinstance(b, int) and type(b) not in (int, bool)
        )
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return len(a) == len(b)
    return False


def merge2(c, a, b):
    if a is b:
        return a
    if isinstance(a, (str, SStr)):
        ea, eb = els_of(a), els_of(b)
        return seq.mkstr([x if x is y else ite(c, strip_nib(x), strip_nib(y)) for x, y in zip(ea, eb)])
    return ite(c, a, b)


def strip_nib(x):
    return SInt(x.e, x.lo, x.hi) if isinstance(x, SInt) and x.nib is not None else x


class RTClass:
    pass


RT = RTClass()


def rt_merge(c, f, g):
    if c.__class__ is SInt:
        c = c != 0
    if c.__class__ is not SBool:
        return FAIL
    cond = z3.simplify(c.e)
    if z3.is_true(cond) or z3.is_false(cond):
        return FAIL
    ok, a = spec_eval(f)
    if not ok:
        return FAIL
    ok, b = spec_eval(g)
    if not ok or not mergeable(a, b):
        return FAIL
    return merge2(c, a, b)


def rt_ifexp(c, f, g):
    r = rt_merge(c, f, g)
    if r is not FAIL:
        return r
    return f() if c else g()


def as_bool(v):
    """SBool/bool truth value of v without forking, or None."""
    if v.__class__ is SBool or v is True or v is False:
        return v
    if v.__class__ is SInt:
        return v != 0
    return None


def rt_and(a, *fs):
    for f in fs:
        if a.__class__ is SBool:
            ok, b = spec_eval(f)
            if ok and (b.__class__ is SBool or b is True or b is False):
                a = b_and(a, b)
                continue
        if not a:
            return a
        a = f()
    return a


def rt_or(a, *fs):
    for f in fs:
        if a.__class__ is SBool:
            ok, b = spec_eval(f)
            if ok and (b.__class__ is SBool or b is True or b is False):
                a = b_or(a, b)
                continue
        if a:
            return a
        a = f()
    return a


def rt_not(a):
    if a.__class__ is SBool:
        return b_not(a)
    if a.__class__ is SInt:
        return a == 0
    return not a


_OPS = {
    "Lt": lambda a, b: a < b,
    "LtE": lambda a, b: a <= b,
    "Gt": lambda a, b: a > b,
    "GtE": lambda a, b: a >= b,
    "Eq": lambda a, b: a == b,
    "NotEq": lambda a, b: a != b,
}


def rt_chain(ops, left, *rest):
    acc = True
    for o, f in zip(ops, rest):
        if acc.__class__ is SBool:
            ok, r = spec_eval(f)
            if not ok:
                if not acc:
                    return acc
                acc = True
                r = f()
        else:
            r = f()
        if o == "In":
            v = rt_in(left, r)
        elif o == "NotIn":
            v = rt_not(rt_in(left, r))
        elif o == "Is":
            v = rt_is(left, r)
        elif o == "IsNot":
            v = rt_not(rt_is(left, r))
        else:
            v = _OPS[o](left, r)
        if acc is True:
            acc = v
        elif v.__class__ in (SBool, bool):
            acc = b_and(acc, v)
        else:
            if not acc:
                return acc
            acc = v
        if acc.__class__ is not SBool and not acc:
            return acc
        left = r
    return acc


def rt_is(a, b):
    if a.__class__ is SBool and b.__class__ in (bool, SBool):
        return a == b
    if b.__class__ is SBool and a.__class__ is bool:
        return b == a
    if a.__class__ is Shim or b.__class__ is Shim:
        return unshim(a) is unshim(b)
    return a is b


def rt_in(a, b):
    cb = b.__class__
    if isinstance(b, (Seq, models.SRange)):
        return b.contains(a)
    sym = isinstance(a, SYMT) or (a.__class__ is tuple and fmt.has_sym(a))
    if cb in (str, bytes) and sym:
        if isinstance(a, SStr) and cb is str:
            return SStr([ord(c) for c in b]).contains(a)
        if cb is bytes:
            return SBytes(list(b)).contains(a)
    if sym and cb is range:
        return models.SRange(b.start, b.stop, b.step).contains(a)
    if cb in (dict, set, frozenset) or isinstance(b, (dict, set, frozenset)):
        if sym:
            return b_or(*[_eqb(a, k) for k in b])
        return a in b
    if isinstance(b, type({}.keys())) and sym:
        return b_or(*[_eqb(a, k) for k in b])
    if cb in (list, tuple) and (sym or any(isinstance(y, SYMT) for y in b)):
        return b_or(*[y is a or _eqb(a, y) for y in b])
    m = getattr(type(b), "__contains__", None)
    if m is not None and isinstance(m, types.FunctionType):
        r = m(b, a)
        return r if r.__class__ is SBool else bool(r)
    return a in b


def _eqb(a, b):
    r = a == b
    if r.__class__ is SBool or r is True or r is False:
        return r
    return bool(r)


def _code(v):
    if v.__class__ is int:
        return v
    if v.__class__ is str and len(v) == 1:
        return ord(v)
    return None


def table_lookup(d, k):
    """d[k] for a total, concrete table of integers or characters over k's range (None: not one).

    Lookups compose: a table applied to another table's result becomes one table over the
    original key, and the identity table gives the key itself back."""
    eng = core.ENG
    k0, tbl = eng.tables.get(k.e.get_id(), (k, None, None))[:2]
    if k0 is k or k0.hi - k0.lo > 1024:
        k0, tbl = k, None
    if k0.hi - k0.lo > 1024:
        return None
    out, chars = {}, None
    for i in range(k0.lo, k0.hi + 1):
        j = i if tbl is None else tbl[i]
        if j not in d:
            return None
        v = d[j]
        c = _code(v)
        if c is None or (chars is not None and chars != (v.__class__ is str)):
            return None
        chars = v.__class__ is str
        out[i] = c
    pieces = []
    for i in range(k0.lo, k0.hi + 1):
        if not pieces or pieces[-1][1] != out[i] - i:
            pieces.append((i, out[i] - i))
    if len(pieces) > 8:
        return None
    r = k0 + pieces[0][1]
    for start, off in pieces[1:]:
        r = core.ite(k0 >= start, k0 + off, r)
    lo, hi = min(out.values()), max(out.values())
    if r.__class__ is SInt and r is not k0:
        r = core.SInt(core.ext(r, r.w), r.lo, r.hi) if r.lin is None else r
        e = r.e
        if lo > r.lo or hi < r.hi:
            r = seq.narrow(r, lo, hi)
            if r.__class__ is SInt:
                e = r.e
        eng.tables[e.get_id()] = (k0, out, e)
    return SStr([r]) if chars else r


def dict_lookup(d, k, default=FAIL):
    """d[k] for symbolic k: (found, value)."""
    if k.__class__ is SInt:
        r = table_lookup(d, k)
        if r is not None:
            return True, r
    keys = list(d.keys())
    conds = []
    for q in keys:
        c = _eqb(k, q)
        if c is True:
            return True, d[q]
        if c is not False:
            conds.append((c, q))
    if not conds:
        return False, None
    vals = [d[q] for _, q in conds]
    # mux when all values merge
    if len(conds) > 2 or default is FAIL:
        okm = all(mergeable(vals[0], v) for v in vals[1:])
    else:
        okm = False
    if okm:
        present = b_or(*[c for c, _ in conds])
        if not bool(present):
            return False, None
        if isinstance(k, SInt) and all(isinstance(q, int) for _, q in conds) and isinstance(vals[0], (int, SInt)) and not isinstance(vals[0], bool):
            lo, hi = min(q for _, q in conds), max(q for _, q in conds)
            if hi - lo < 4096:
                tbl = [vals[0]] * (hi - lo + 1)
                for (_, q), v in zip(conds, vals):
                    tbl[q - lo] = v
                kk = seq.narrow(k, max(lo, k.lo), min(hi, k.hi)) - lo
                if isinstance(kk, int):
                    return True, tbl[kk]
                return True, seq.tree(tbl, kk, kk.lo, min(kk.hi, hi - lo))
        r = vals[-1]
        for (c, _), v in reversed(list(zip(conds[:-1], vals[:-1]))):
            r = merge2(c, v, r)
        return True, r
    for c, q in conds:
        if bool(c):
            return True, d[q]
    return False, None


def rt_getitem(o, i):
    if i.__class__ in (SInt, SBool) or isinstance(i, (SStr, SBytes)) or (i.__class__ is tuple and fmt.has_sym(i)):
        if isinstance(o, dict):
            if i.__class__ is SBool:
                i = i._int()
            found, v = dict_lookup(o, i)
            if found:
                return v
            m = getattr(type(o), "__missing__", None)
            if m is not None:
                return o[i.concrete() if isinstance(i, Seq) else core.concretise(i)]
            raise KeyError(i)
        if i.__class__ in (SInt, SBool):
            if o.__class__ in (list, tuple, str, bytes, range) or isinstance(o, (list, tuple)) and type(o).__getitem__ in (list.__getitem__, tuple.__getitem__):
                j = num(i)
                if isinstance(j, int):
                    return o[j]
                if o.__class__ is str:
                    return SStr([ord(c) for c in o])[j]
                if len(o) and all(v.__class__ in (int, SInt) for v in o):
                    r = seq.mux(list(o), j)
                    if r is not None:
                        return r
                n = len(o)
                if not bool(b_and(j >= -n, j < n)):
                    raise IndexError("list index out of range")
                return o[core.concretise(j)]
            if isinstance(o, (type, Shim)):
                return o[i]
    return o[i]


_ABSENT = object()


def rt_bound(o, name):
    if o.__class__ in (str, bytes, dict):
        return lambda *a, **k: rt_callm(o, name, *a, **k)
    return getattr(o, name)


def rt_callm(o, name, *a, **k):
    c = o.__class__
    if c is str:
        if name == "join":
            items = list(a[0])
            if any(isinstance(x, SStr) for x in items):
                for n, x in enumerate(items):
                    if not isinstance(x, (str, SStr)):
                        raise TypeError(f"sequence item {n}: expected str instance, {type(x).__name__} found")
                parts = []
                for n, x in enumerate(items):
                    if n and o:
                        parts.append(o)
                    parts.append(x)
                return fmt.concat(parts)
            return o.join(items)
        if name == "format":
            if any(fmt.has_sym(x) or not isinstance(x, (int, str, float, bytes)) for x in a) or k:
                return fmt.sx_str_format(o, a, k)
            return o.format(*a)
        if any(isinstance(x, SYMT) or x.__class__ is tuple and fmt.has_sym(x) for x in a):
            if name in ("ljust", "rjust", "center", "zfill"):
                a = tuple(core.concretise(x) if isinstance(x, (SInt, SBool)) else x for x in a)
                if not any(isinstance(x, Seq) for x in a):
                    return getattr(o, name)(*a, **k)
            return getattr(SStr([ord(ch) for ch in o]), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if c is bytes:
        if name == "join":
            items = list(a[0])
            if any(isinstance(x, (Seq, models.MemView)) for x in items):
                return SBytes(list(o)).join(items)
            return o.join(items)
        if any(isinstance(x, SYMT) for x in a):
            return getattr(SBytes(list(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, dict) and name in ("get", "pop", "setdefault") and a and (
        isinstance(a[0], SYMT) or a[0].__class__ is tuple and fmt.has_sym(a[0])
    ):
        if type(o).__dict__.get(name) is None or c is dict:
            key = a[0]
            if name == "get":
                found, v = dict_lookup(o, key, a[1] if len(a) > 1 else None)
                return v if found else (a[1] if len(a) > 1 else k.get("default"))
    return getattr(o, name)(*a, **k)


# ------------------------------------------------------------------ loader
class Loader:
    """Loads instrumented copies of selected packages, independent of sys.modules."""

    def __init__(self, roots, stubs=None, extra_sources=None):
        # roots: {package name: directory containing the package}
        self.roots = roots
        self.mods = {}
        self.stubs = stubs or {}
        self.sources = []
        self.models = {
            "re": regex.make_re_module(),
            "struct": models.make_struct(),
            "array": models.make_array(),
            "io": models.make_io(),
            "zlib": models.make_zlib(),
            "binascii": models.make_binascii(),
            "hashlib": models.make_hashlib(),
            "json": models.make_json(),
            "math": models.make_math(),
            "operator": models.make_operator(),
            "xml.etree.ElementTree": models.make_etree(),
            "numpy": nd.make_numpy(),
            "codecs": models.make_codecs(),
        }
        self.models.update(orm.modules())
        b = dict(vars(builtins))
        b.update(models.table())
        b["__import__"] = self._import
        b.update(
            _sx_fn=self._fn,
            _sx_mod=fmt.sx_mod,
            _sx_in=rt_in,
            _sx_bound=rt_bound,
            _sx_is=rt_is,
            _sx_not=rt_not,
            _sx_and=rt_and,
            _sx_or=rt_or,
            _sx_chain=rt_chain,
            _sx_ifexp=rt_ifexp,
            _sx_merge=rt_merge,
            _sx_FAIL=FAIL,
            _sx_fstr=fmt.sx_fstr,
            _sx_fval=fmt.sx_fval,
            _sx_callm=rt_callm,
            _sx_getitem=rt_getitem,
        )
        self.builtins = b
        RT.contains, RT.not_, RT.getitem, RT.callm = rt_in, rt_not, rt_getitem, rt_callm

    @staticmethod
    def _fn(q):
        e = core.ENG
        if e is not None:
            e.functions.add(q)

    def handles(self, name):
        return name.split(".")[0] in self.roots

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"] if globals.get("__package__") is not None else globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: len(parts) - level + 1]
            name = ".".join(parts + ([name] if name else []))
        if name in self.models and not level:
            m = self.models[name]
            if "." in name and not fromlist:  # "import a.b.c" binds (or walks down from) the top package
                for part in reversed(name.split(".")[1:]):
                    pkg = types.ModuleType("sx")
                    setattr(pkg, part, m)
                    m = pkg
            return m
        if name == "xml.etree" and fromlist and "ElementTree" in fromlist and not level:
            pkg = types.ModuleType("xml.etree")
            pkg.ElementTree = self.models["xml.etree.ElementTree"]
            return pkg
        if not self.handles(name):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        top = self.load(name.split(".")[0])
        mod = self.load(name)
        if not fromlist:
            return top
        for f in fromlist:
            if f != "*" and not hasattr(mod, f):
                try:
                    self.load(f"{name}.{f}")
                except ModuleNotFoundError:
                    pass
        return mod

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            m = self.stubs[name]
            m = m(self) if callable(m) and not isinstance(m, types.ModuleType) else m
            self.mods[name] = m
            self._attach(name, m)
            return m
        parts = name.split(".")
        if len(parts) > 1:
            self.load(".".join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        base = os.path.join(self.roots[parts[0]], *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            path, ispkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            path, ispkg = base + ".py", False
        elif os.path.isdir(base):  # a package without __init__
            m = self.mods[name] = types.ModuleType(name)
            m.__path__, m.__package__ = [base], name
            self._attach(name, m)
            return m
        else:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self.sources.append(path)
        return self.load_source(name, src, path, ispkg)

    def _attach(self, name, m):
        parts = name.split(".")
        if len(parts) > 1 and ".".join(parts[:-1]) in self.mods:
            setattr(self.mods[".".join(parts[:-1])], parts[-1], m)

    def load_source(self, name, src, path, ispkg=False):
        tree = ast.parse(src, path)
        tree = Rewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if name == "construct.lib.binary":
            models.construct_bits(m)
        self._attach(name, m)
        return m
