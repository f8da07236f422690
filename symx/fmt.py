"""Printf-style, format() and f-string rendering with symbolic arguments."""

import re as _re
import string
from types import FunctionType

import z3

from symx import core
from symx.core import SBool, SInt, Unsupported, b_and, ite, mkint, num
from symx.flt import SDy, SFBits
from symx.seq import SByteArray, SBytes, SStr, Seq, els_of, mkbytes, mkstr, nibchar

SPEC = _re.compile(r"^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<z>z)?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<grp>[_,])?(?:\.(?P<prec>\d+))?(?P<type>.)?$", _re.S)
PCT = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<type>.)", _re.S)


def has_sym(x, depth=4):
    c = x.__class__
    if c in (SInt, SBool, SStr, SBytes, SByteArray, SDy, SFBits):
        return True
    if depth and c in (list, tuple, set):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and c is dict:
        return any(has_sym(y, depth - 1) for y in x.values())
    return False


def digits_of(v, kind, minw=1):
    """Digit elements of a non-negative integer; forks on the number of digits beyond minw."""
    if v.__class__ is int:
        return [ord(c) for c in format(v, kind)]
    bits = {"x": 4, "X": 4, "o": 3, "b": 1}.get(kind)
    if bits:
        n = max(1, -(-v.w // bits))
        k = 1
        m = max(1, minw)
        if n > m:
            k = m
            while k < n and not bool(v < (1 << (bits * k))):
                k += 1
            n = k
        # exactly the first n digits matter; below minw leading digits are zero padding
        e = core.ext(v, max(v.w, bits * n))
        out = []
        for i in reversed(range(n)):
            d = z3.Extract(bits * i + bits - 1, bits * i, e)
            if bits == 4:
                out.append(nibchar(d, kind == "X"))
            else:
                out.append(mkint(z3.ZeroExt(8 - bits, d) + 48, 48, 48 + (1 << bits) - 1))
        if n == m and minw < 1:
            pass
        return out
    # decimal
    n = len(str(v.hi))
    k = max(1, minw)
    if n > k:
        while k < n and not bool(v < 10**k):
            k += 1
        n = k
    out = []
    for i in range(n):
        q, r = divmod(v, 10) if v.__class__ is SInt else divmod(v, 10)
        out.append(r + 48)
        v = q
    out.reverse()
    return out


def min_digits(v, kind):
    return digits_of(v, kind, 1)


def fmt_int_parts(v, spec):
    """Elements of format(v, spec) for a symbolic integer."""
    m = SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    t = m["type"] or "d"
    if m["prec"] is not None or m["z"]:
        raise ValueError("Precision not allowed in integer format specifier")
    if t not in "dxXobcn":
        if t in "eEfFgG%":
            raise Unsupported("float formatting of symbolic integer")
        raise ValueError(f"Unknown format code {t!r} for object of type 'int'")
    if t == "c":
        body, sign = [v], []
        from symx.models import sx_chr

        body = els_of(sx_chr(v))
    else:
        if t == "n":
            t = "d"
        width = int(m["width"] or 0)
        fill = m["fill"] if m["fill"] is not None else ("0" if m["zero"] and not m["align"] else " ")
        align = m["align"] or ("=" if m["zero"] else ">")
        if m["zero"] and m["align"] and m["fill"] is None:
            fill = "0"
        sign = []
        if v.lo < 0 and bool(v < 0):
            sign = [45]
            v = -v
        elif m["sign"] in ("+", " "):
            sign = [ord(m["sign"])]
        if v.__class__ is SInt and v.lo < 0:
            from symx.seq import narrow

            v = narrow(v, 0, v.hi)
        pre = []
        if m["alt"] and t in "xXob":
            pre = [48, ord(t)]
        zpad = fill == "0" and align == "=" and not m["grp"]
        minw = max(1, width - len(sign) - len(pre)) if zpad else 1
        body = digits_of(v, t, minw)
        if m["grp"]:
            g = 3 if t == "d" else 4
            out = []
            for i, c in enumerate(body):
                if i and (len(body) - i) % g == 0:
                    out.append(ord(m["grp"]))
                out.append(c)
            body = out
        if align == "=":
            n = width - len(body) - len(sign) - len(pre)
            return sign + pre + [ord(fill)] * max(0, n) + body
        body = sign + pre + body
        return pad(body, width, fill, align)
    return pad(body, int(m["width"] or 0), m["fill"] or " ", m["align"] or "<")


def pad(els, width, fill, align):
    n = width - len(els)
    if n <= 0:
        return els
    f = [ord(fill)]
    if align == "<":
        return els + f * n
    if align == "^":
        return f * (n // 2) + els + f * (n - n // 2)
    return f * n + els


def check_int_spec(spec):
    m = SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    t = m["type"] or "d"
    if t not in "dxXobcneEfFgG%":
        raise ValueError(f"Unknown format code {t!r} for object of type 'int'")


def sx_format(v, spec=""):
    """format(v, spec), lazily when v is symbolic."""
    if isinstance(spec, SStr):
        spec = spec.concrete()
    c = v.__class__
    if c is SBool:
        if not spec:
            return "True" if bool(v) else "False"
        v = v._int()
        c = SInt
    if c is SInt:
        check_int_spec(spec)
        return SStr(None, thunk=lambda: fmt_int_parts(v, spec))
    if isinstance(v, SStr):
        m = SPEC.match(spec)
        if not m or (m["type"] or "s") != "s":
            raise ValueError(f"Unknown format code for object of type 'str'")
        if not spec:
            return v

        def th():
            els = list(v.els)
            if m["prec"]:
                els = els[: int(m["prec"])]
            return pad(els, int(m["width"] or 0), m["fill"] or ("0" if m["zero"] else " "), m["align"] or "<")

        return SStr(None, thunk=th)
    if isinstance(v, (SBytes, SDy, SFBits)):
        if spec:
            if isinstance(v, SBytes):
                raise TypeError("unsupported format string passed to bytes.__format__")
            return format(float(v), spec)
        return sx_str(v)
    if has_sym(v):
        if spec:
            raise TypeError("unsupported format string")
        return sx_str(v)
    t = type(v)
    if t.__flags__ & (1 << 9):
        f = t.__format__
        if f is object.__format__:
            if spec:
                raise TypeError(f"unsupported format string passed to {t.__name__}.__format__")
            return _user_str(v)
        if f.__class__ is FunctionType:
            return f(v, spec)
    return format(v, spec)


def sx_repr(v):
    c = v.__class__
    if c is SBool:
        return "True" if bool(v) else "False"
    if c is SInt:
        return sx_format(v)
    if isinstance(v, SStr):
        return repr(v.concrete())
    if isinstance(v, SBytes):
        return SStr(None, thunk=lambda: els_of(repr(v.concrete())))
    if isinstance(v, (SDy, SFBits)):
        return repr(float(v))
    if has_sym(v):
        return SStr(None, thunk=lambda: els_of(_repr_cont(v)))
    f = type(v).__repr__
    if f.__class__ is FunctionType:
        return f(v)
    if v.__class__ in CONTS and any(type(y).__flags__ & (1 << 9) for y in (v if v.__class__ is not dict else [*v, *v.values()])):
        return _repr_cont(v)
    return repr(v)


CONTS = {list: "[]", tuple: "()", set: "{}", dict: "{}"}


def _repr_cont(v):
    if not v:
        return repr(v)
    op, cl = CONTS[v.__class__]
    out = op
    if v.__class__ is dict:
        items = [sx_repr(k) + ": " + sx_repr(x) for k, x in v.items()]
    else:
        items = [sx_repr(x) for x in v]
    for i, s in enumerate(items):
        out = out + (", " if i else "") + s
    if v.__class__ is tuple and len(v) == 1:
        out = out + ","
    return out + cl


def sx_str(v="", encoding=None, errors="strict"):
    if encoding is not None:
        from symx.seq import decode

        if isinstance(v, SBytes):
            return decode(v, encoding, errors)
        return str(v, encoding, errors)
    if isinstance(v, SStr):
        return v
    if has_sym(v):
        return sx_repr(v)
    return _user_str(v)


def _user_str(v):
    """str() of an object whose own __str__ / __repr__ may return a symbolic string."""
    t = type(v)
    if t.__flags__ & (1 << 9):  # heap type: Python class
        f = t.__str__
        if f is object.__str__:
            f = t.__repr__
        r = f(v)
        if isinstance(r, SStr):
            return r
        if not isinstance(r, str):
            raise TypeError(f"__str__ returned non-string (type {type(r).__name__})")
        return r
    return str(v)


def concat(parts):
    """Concatenate str / SStr parts, lazily if anything is symbolic."""
    if all(p.__class__ is str for p in parts):
        return "".join(parts)

    def th():
        out = []
        for p in parts:
            out.extend(els_of(p))
        return out

    return SStr(None, thunk=th)


def sx_fstr(*parts):
    return concat([p if isinstance(p, (str, SStr)) else sx_str(p) for p in parts])


def sx_fval(v, conv, spec):
    if conv == 115:
        v = sx_str(v)
    elif conv == 114:
        v = sx_repr(v)
    elif conv == 97:
        v = ascii(v)
    return sx_format(v, spec)


def pct_one(t, flags, width, prec, v, isbytes):
    w = int(width or 0)
    if t in "diu":
        if isinstance(v, (SDy,)):
            v = v.trunc()
        if isinstance(v, SStr) or isinstance(v, SBytes):
            raise TypeError(f"%{t} format: a real number is required, not str")
        kind = "d"
    elif t in "xXo":
        if num(v) is None:
            raise TypeError(f"%{t} format: an integer is required")
        kind = t
    elif t == "c":
        if num(v) is not None:
            from symx.models import sx_chr

            body = els_of(sx_chr(num(v))) if not isbytes else [num(v)]
        else:
            body = els_of(v)
            if len(body) != 1:
                raise TypeError("%c requires int or char")
        return pad(body, w, " ", "<" if "-" in flags else ">")
    elif t in "sra" or isbytes and t == "b":
        if isbytes and t in "sb":
            body = els_of(v)
        else:
            s = sx_str(v) if t == "s" else sx_repr(v)
            body = els_of(s)
        if prec is not None:
            body = body[: int(prec)]
        return pad(list(body), w, " ", "<" if "-" in flags else ">")
    else:
        raise ValueError(f"unsupported format character {t!r}")
    v = num(v)
    spec = ""
    if prec is not None:
        body = fmt_int_parts(v if v.__class__ is SInt else v, f"0{int(prec)}{kind}") if v.__class__ is SInt else els_of(format(v, f"0{int(prec)}{kind}"))
        return pad(body, w, " ", "<" if "-" in flags else ">")
    if "-" in flags:
        spec += "<"
    if "+" in flags:
        spec += "+"
    elif " " in flags:
        spec += " "
    if "#" in flags:
        spec += "#"
    if "0" in flags and "-" not in flags:
        spec += "0"
    if w:
        spec += str(w)
    spec += kind
    if v.__class__ is SInt:
        return fmt_int_parts(v, spec)
    return els_of(format(v, spec))


def sx_mod(a, b):
    """a % b with str/bytes formatting of symbolic operands."""
    if isinstance(a, SStr):
        a = a.concrete()
    if a.__class__ in (str, bytes) or (isinstance(a, (str, bytes)) and not isinstance(a, int)):
        if not has_sym(b):
            return a % b
        isb = isinstance(a, bytes)
        txt = a.decode("latin1") if isb else a
        args = b if isinstance(b, tuple) else (b,)
        segs = []
        ai = 0
        pos = 0
        for m in PCT.finditer(txt):
            if m.start() > pos:
                segs.append([ord(c) for c in txt[pos : m.start()]])
            pos = m.end()
            t = m["type"]
            if t == "%":
                segs.append([37])
                continue
            width, prec = m["width"], m["prec"]
            if m["key"] is not None:
                v = b[m["key"]]
                ai = len(args)
            else:
                if width == "*":
                    width = core.concretise(num(args[ai]))
                    ai += 1
                if prec == "*":
                    prec = core.concretise(num(args[ai]))
                    ai += 1
                if ai >= len(args):
                    raise TypeError("not enough arguments for format string")
                v = args[ai]
                ai += 1
            if t not in "diuxXocsra" and not (isb and t == "b"):
                if has_sym(v):
                    raise Unsupported("float formatting")
                segs.append([ord(c) for c in (m.group(0) % v)])
                continue
            segs.append((t, m["flags"], width, prec, v, isb))
        if pos < len(txt):
            segs.append([ord(c) for c in txt[pos:]])
        if ai < len(args) and not isinstance(b, dict):
            raise TypeError("not all arguments converted during string formatting")

        def th():
            out = []
            for s in segs:
                out.extend(s if s.__class__ is list else pct_one(*s))
            return out

        if isb:
            return mkbytes(th())
        return SStr(None, thunk=th)
    return a % b


class _F(string.Formatter):
    pass


def sx_str_format(s, args, kws):
    """s.format(*args, **kws)"""
    out = []
    auto = 0
    f = string.Formatter()
    for lit, field, spec, conv in f.parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        head = _re.match(r"[^.\[]*", field).group(0)
        if head == "":
            field = str(auto) + field
            auto += 1
        v, _ = f.get_field(field, args, kws)
        if spec and "{" in spec:
            sub = []
            for l2, f2, s2, c2 in f.parse(spec):
                if l2:
                    sub.append(l2)
                if f2 is not None:
                    if f2 == "":
                        f2 = str(auto)
                        auto += 1
                    v2, _ = f.get_field(f2, args, kws)
                    sub.append(str(core.concretise(v2) if isinstance(v2, SInt) else v2))
            spec = "".join(sub)
        out.append(sx_fval(v, ord(conv) if conv else -1, spec))
    return concat(out)
