"""Symbolic strings and byte sequences: concrete length, possibly symbolic elements.

An element is a Python int (code point / byte) or an SInt.  Hex-digit characters keep a
tag (`nib`) naming the 4-bit term they render, so that parsing printed digits gives the
term back without case splits.  Sequences whose elements are all concrete collapse to
real str / bytes objects, so concrete parts of a run execute natively.
"""

import z3

from symx import core
from symx.core import SBool, SInt, Unsupported, b_and, b_not, b_or, concretise, ite, mkbool, mkint, nibchar, num

WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0)
ASCII_WS = (9, 10, 11, 12, 13, 32)
UPPER = frozenset(range(65, 91))
LOWER = frozenset(range(97, 123))


def eng():
    return core.ENG


def el_in(c, cls):
    """bool/SBool: element c in the set of code points cls."""
    if c.__class__ is int:
        return c in cls
    if c.nib is not None:
        n, upper = c.nib
        digits = "0123456789ABCDEF" if upper else "0123456789abcdef"
        ok = [i for i, d in enumerate(digits) if ord(d) in cls]
        if len(ok) == 16:
            return True
        if not ok:
            return False
        return b_or(*[mkbool(z3.simplify(n == i)) for i in ok])
    vals = sorted(v for v in cls if c.lo <= v <= c.hi)
    if not vals:
        return False
    if len(vals) == c.hi - c.lo + 1:
        return True
    parts = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        a, b = vals[i], vals[j]
        parts.append((c == a) if a == b else b_and(c >= a, c <= b))
        i = j + 1
    return b_or(*parts)


def els_of(x):
    """Element list of a str/bytes-like object, or None."""
    if isinstance(x, Seq):
        return x.els
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, memoryview):
        return list(x.tobytes())
    b = getattr(x, "_sx_bytes", None)
    if b is not None:
        return b()
    return None


def all_concrete(els):
    for e in els:
        if e.__class__ is not int:
            return False
    return True


def mkstr(els):
    if all_concrete(els):
        return "".join(map(chr, els))
    return SStr(els)


def mkbytes(els):
    if all_concrete(els):
        return bytes(els)
    return SBytes(els)


def chk_byte(v, what="byte must be in range(0, 256)"):
    if isinstance(v, (SBool, bool)):
        v = num(v)
    if v.__class__ is int:
        if not 0 <= v <= 255:
            raise ValueError(what)
        return v
    if v.__class__ is SInt:
        if v.lo >= 0 and v.hi <= 255:
            return v
        if bool(b_and(v >= 0, v <= 255)):
            return narrow(v, 0, 255)
        raise ValueError(what)
    if hasattr(v, "__index__"):
        return chk_byte(int(v.__index__()), what)
    raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")


def narrow(v, lo, hi):
    """v is known (by path condition) to lie in [lo, hi]."""
    if v.lo >= lo and v.hi <= hi:
        return v
    lo2, hi2 = max(lo, v.lo), min(hi, v.hi)
    n = core.need(lo2, hi2)
    return mkint(core.low(v, n) if v.w > n else core.ext(v, n), lo2, hi2)


def eq_els(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        r = x == y
        if r is False:
            return False
        if r is not True:
            cs.append(r)
    return b_and(*cs)


def lt_els(a, b, or_equal):
    """Lexicographic a < b (or <=)."""
    n = min(len(a), len(b))
    r = (len(a) <= len(b)) if or_equal else (len(a) < len(b))
    for i in reversed(range(n)):
        x, y = a[i], b[i]
        r = b_or(x < y, b_and(x == y, r))
    return r


def find_els(hay, needle, start=0, end=None, rev=False):
    """First position (concrete int via forking)."""
    end = len(hay) if end is None else end
    rng = range(start, end - len(needle) + 1)
    if len(needle) == 1 and needle[0].__class__ is not int and len(rng) > 1 and all_concrete(hay[start:end]):
        r = -1  # a symbolic element in a fixed table: its position as an expression
        for i in rng if rev else reversed(rng):
            r = ite(needle[0] == hay[i], i, r)
        return r
    for i in reversed(rng) if rev else rng:
        if bool(eq_els(hay[i : i + len(needle)], needle)):
            return i
    return -1


def norm_slice(n, s, e):
    s, e, _ = slice(clamp(s, n), clamp(e, n)).indices(n)
    return s, e


def conc(x):
    return concretise(x) if isinstance(x, (SInt, SBool)) else x


def clamp(x, n):
    """A slice bound on a sequence of length n: all values beyond it are alike."""
    if x.__class__ is SInt:
        if x.hi > n and bool(x >= n):
            return n
        if x.lo < -n and bool(x < -n):
            return -n
    return conc(x)


def cslice(i, n):
    if i.step is None or i.step.__class__ is int and i.step == 1:
        return slice(clamp(i.start, n), clamp(i.stop, n))
    return slice(conc(i.start), conc(i.stop), conc(i.step))


class Seq:
    """Common behaviour."""

    __slots__ = ("_els", "_thunk")
    kind = None

    def __init__(self, els=None, thunk=None):
        self._els = els
        self._thunk = thunk

    @property
    def els(self):
        if self._els is None:
            self._els = self._thunk()
            self._thunk = None
        return self._els

    # construct the same kind
    @classmethod
    def mk(cls, els):
        raise NotImplementedError

    def _coerce(self, o):
        raise NotImplementedError

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __getitem__(self, i):
        els = self.els
        if isinstance(i, slice):
            return self.mk(els[cslice(i, len(els))])
        if isinstance(i, (SInt, SBool)):
            i = num(i)
            if isinstance(i, SInt):
                r = mux(els, i)
                if r is not None:
                    return self._one(r)
                i = concretise(i)
        return self._one(els[i])

    def _one(self, e):
        return e

    def __iter__(self):
        i = 0
        while i < len(self.els):
            yield self._one(self.els[i])
            i += 1

    def __reversed__(self):
        for e in reversed(list(self.els)):
            yield self._one(e)

    def __add__(self, o):
        if self._pending(o):
            return self.__class__(None, thunk=lambda: list(self.els) + list(els_of(o)))
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return self.mk(self.els + b)

    def _pending(self, o):
        """Is the text of one of two strings not made yet? Then neither is their concatenation."""
        if self._els is None:
            return self.kind == "str" and (o.__class__ is str or isinstance(o, Seq) and o.kind == "str")
        return isinstance(o, Seq) and o._els is None and self.kind == "str" == o.kind

    def __radd__(self, o):
        if self._els is None and self._pending(o):
            return self.__class__(None, thunk=lambda: list(els_of(o)) + list(self.els))
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return self.mk(b + self.els)

    def __mul__(self, n):
        n = num(n)
        if n is None:
            return NotImplemented
        return self.mk(self.els * conc(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        b = self._eqc(o)
        if b is None:
            return NotImplemented
        return eq_els(self.els, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __lt__(self, o):
        b = self._eqc(o)
        return NotImplemented if b is None else lt_els(self.els, b, False)

    def __le__(self, o):
        b = self._eqc(o)
        return NotImplemented if b is None else lt_els(self.els, b, True)

    def __gt__(self, o):
        b = self._eqc(o)
        return NotImplemented if b is None else lt_els(b, self.els, False)

    def __ge__(self, o):
        b = self._eqc(o)
        return NotImplemented if b is None else lt_els(b, self.els, True)

    def concrete(self):
        """Fork until every element is concrete."""
        return self._native([conc(e) for e in self.els])

    def __hash__(self):
        return hash(self.concrete())

    def _need(self, o):
        b = self._coerce(o)
        if b is None:
            raise TypeError(f"expected {self.kind}, got {type(o).__name__}")
        return b

    def startswith(self, p, start=0, end=None):
        s, e = norm_slice(len(self.els), start, end)
        if isinstance(p, tuple):
            return b_or(*[self.startswith(q, start, end) for q in p])
        b = self._need(p)
        if len(b) > e - s:
            return False
        return eq_els(self.els[s : s + len(b)], b)

    def endswith(self, p, start=0, end=None):
        s, e = norm_slice(len(self.els), start, end)
        if isinstance(p, tuple):
            return b_or(*[self.endswith(q, start, end) for q in p])
        b = self._need(p)
        if len(b) > e - s:
            return False
        return eq_els(self.els[e - len(b) : e], b)

    def _needle(self, p):
        if isinstance(p, (int, SInt)) and not isinstance(self, SStr):
            return [p]
        return self._need(p)

    def find(self, p, start=0, end=None):
        s, e = norm_slice(len(self.els), start, end)
        return find_els(self.els, self._needle(p), s, e)

    def rfind(self, p, start=0, end=None):
        s, e = norm_slice(len(self.els), start, end)
        return find_els(self.els, self._needle(p), s, e, True)

    def index(self, p, start=0, end=None):
        r = self.find(p, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rindex(self, p, start=0, end=None):
        r = self.rfind(p, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, p, start=0, end=None):
        s, e = norm_slice(len(self.els), start, end)
        b = self._needle(p)
        n = 0
        i = s
        if len(b) == 1:
            for c in self.els[s:e]:
                n = n + num(c == b[0])
            return n
        while i + len(b) <= e:
            if bool(eq_els(self.els[i : i + len(b)], b)):
                n += 1
                i += max(1, len(b))
            else:
                i += 1
        return n

    def __contains__(self, p):
        if isinstance(p, (int, SInt)) and not isinstance(self, SStr):
            return bool(b_or(*[e == p for e in self.els]))
        b = self._need(p)
        if len(b) == 1:
            return bool(b_or(*[e == b[0] for e in self.els]))
        return find_els(self.els, b) >= 0

    def contains(self, p):
        if isinstance(p, (int, SInt)) and not isinstance(self, SStr):
            return b_or(*[e == p for e in self.els])
        b = self._need(p)
        return b_or(*[eq_els(self.els[i : i + len(b)], b) for i in range(len(self.els) - len(b) + 1)])

    def _stripset(self, chars):
        if chars is None:
            return self._ws
        b = self._need(chars)
        if not all_concrete(b):
            raise Unsupported("strip with symbolic set")
        return tuple(b)

    def _strip(self, chars, left, right):
        st = frozenset(self._stripset(chars))
        els = self.els
        i, j = 0, len(els)
        if left:
            while i < j and bool(as_b(el_in(els[i], st))):
                i += 1
        if right:
            while j > i and bool(as_b(el_in(els[j - 1], st))):
                j -= 1
        return self.mk(els[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        els = self.els
        out = []
        if sep is None:
            st = frozenset(self._ws)
            i = 0
            n = len(els)
            while i < n:
                while i < n and bool(as_b(el_in(els[i], st))):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self.mk(els[i:]).rstrip())
                    return out
                j = i
                while j < n and not bool(as_b(el_in(els[j], st))):
                    j += 1
                out.append(self.mk(els[i:j]))
                i = j
            return out
        b = self._need(sep)
        if not b:
            raise ValueError("empty separator")
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            k = find_els(els, b, i)
            if k < 0:
                break
            out.append(self.mk(els[i:k]))
            i = k + len(b)
        out.append(self.mk(els[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            out, rest = [], self.rstrip()
            while len(out) < maxsplit and len(rest.els):
                k = len(rest.els)
                while k and not bool(as_b(el_in(rest.els[k - 1], frozenset(self._ws)))):
                    k -= 1
                out.append(self.mk(rest.els[k:]))
                rest = type(rest)(rest.els[:k]).rstrip()
                rest = rest if isinstance(rest, Seq) else type(self)(list(els_of(rest)))
            return ([rest] if len(rest.els) else []) + out[::-1]
        out, rest = [], self
        while len(out) < maxsplit:
            a, b, c = rest.rpartition(sep)
            if not len(b):
                break
            out.append(c)
            rest = a
            if not isinstance(rest, Seq):
                return rest.rsplit(sep if not isinstance(sep, Seq) else sep.concrete(), maxsplit - len(out)) + out[::-1]
        return [rest] + out[::-1]

    def partition(self, sep):
        b = self._need(sep)
        k = find_els(self.els, b)
        if k < 0:
            return self.mk(self.els), self.mk([]), self.mk([])
        return self.mk(self.els[:k]), self.mk(list(b)), self.mk(self.els[k + len(b) :])

    def rpartition(self, sep):
        b = self._need(sep)
        k = find_els(self.els, b, rev=True)
        if k < 0:
            return self.mk([]), self.mk([]), self.mk(self.els)
        return self.mk(self.els[:k]), self.mk(list(b)), self.mk(self.els[k + len(b) :])

    def replace(self, a, b, count=-1):
        a, b = self._need(a), self._need(b)
        els = self.els
        out = []
        i = 0
        n = 0
        if not a:
            raise Unsupported("replace of empty string")
        while i < len(els):
            if (count < 0 or n < count) and i + len(a) <= len(els) and bool(eq_els(els[i : i + len(a)], a)):
                out.extend(b)
                i += len(a)
                n += 1
            else:
                out.append(els[i])
                i += 1
        return self.mk(out)

    def removeprefix(self, p):
        b = self._need(p)
        return self.mk(self.els[len(b) :]) if bool(as_b(self.startswith(p))) else self.mk(self.els)

    def removesuffix(self, p):
        b = self._need(p)
        return self.mk(self.els[: len(self.els) - len(b)]) if b and bool(as_b(self.endswith(p))) else self.mk(self.els)

    def splitlines(self, keepends=False):
        els = self.els
        out = []
        i = 0
        n = len(els)
        brk = frozenset(self._linebreaks)
        while i < n:
            j = i
            while j < n and not bool(as_b(el_in(els[j], brk))):
                j += 1
            eol = j
            if j < n:
                if j + 1 < n and bool(as_b(b_and(els[j] == 13, els[j + 1] == 10))):
                    j += 2
                else:
                    j += 1
            out.append(self.mk(els[i:j] if keepends else els[i:eol]))
            i = j
        return out

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out.extend(self.els)
            b = self._coerce(x)
            if b is None:
                raise TypeError(f"sequence item {k}: expected {self.kind} instance, {type(x).__name__} found")
            out.extend(b)
        return self.mk(out)

    def _case(self, lo, hi, delta, upper):
        out = []
        for c in self.els:
            if c.__class__ is int:
                out.append(c + delta if lo <= c <= hi else c)
            elif c.nib is not None:
                out.append(nibchar(c.nib[0], upper))
            elif c.hi < 128 or not isinstance(self, SStr):
                r = ite(as_b(b_and(c >= lo, c <= hi)), c + delta, c)
                out.append(narrow(r, 0, c.hi if c.hi > 127 else 127) if r.__class__ is core.SInt else r)
            else:
                raise Unsupported("case mapping of non-ASCII")
        return self.mk(out)

    def upper(self):
        return self._case(97, 122, -32, True)

    def lower(self):
        return self._case(65, 90, 32, False)

    def _pred(self, cls):
        if not self.els:
            return False
        return b_and(*[el_in(c, cls) for c in self.els])

    def isdigit(self):
        return self._pred(frozenset(range(48, 58)))

    def isalnum(self):
        return self._pred(frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123))))

    def isalpha(self):
        return self._pred(frozenset(list(range(65, 91)) + list(range(97, 123))))

    def isspace(self):
        return self._pred(frozenset(self._ws))

    def _pad(self, n, fill, where):
        n = conc(n)
        f = self._need(fill)[0] if fill is not None else 32
        k = max(0, n - len(self.els))
        if where == "l":
            return self.mk(self.els + [f] * k)
        if where == "r":
            return self.mk([f] * k + self.els)
        left = k // 2 + (k & n & 1)
        return self.mk([f] * left + self.els + [f] * (k - left))

    def ljust(self, n, fill=None):
        return self._pad(n, fill, "l")

    def rjust(self, n, fill=None):
        return self._pad(n, fill, "r")

    def center(self, n, fill=None):
        return self._pad(n, fill, "c")

    def zfill(self, n):
        n = conc(n)
        els = self.els
        if els and bool(as_b(el_in(els[0], frozenset((43, 45))))):
            return self.mk(els[:1] + [48] * max(0, n - len(els)) + els[1:])
        return self.mk([48] * max(0, n - len(els)) + els)

    def translate(self, table, delete=b""):
        if isinstance(self, SStr):
            out = []
            for c in self.els:
                if c.__class__ is not int:
                    if isinstance(table, dict) and all(isinstance(v, int) or isinstance(v, str) and len(v) == 1 for v in table.values()):
                        r = c
                        for k, v in table.items():
                            r = ite(c == k, v if isinstance(v, int) else ord(v), r)
                        out.append(r)
                        continue
                    for k in table if isinstance(table, dict) else ():
                        if bool(as_b(c == k)):
                            c = k
                            break
                    else:
                        if not isinstance(table, dict):
                            raise Unsupported("translate")
                        out.append(c)
                        continue
                r = table.get(c, c) if isinstance(table, dict) else ord(chr(c).translate(table))
                if r is not None:
                    out.extend([r] if r.__class__ is int else [ord(t) for t in r])
            return mkstr(out)
        drop = self._need(delete) if len(delete) else []
        els = [c for c in self.els if not any(bool(as_b(c == d)) for d in drop)]
        if table is None:
            return self.mk(els)
        t = list(bytes(table)) if not isinstance(table, Seq) else table.els
        return self.mk([t[c] if c.__class__ is int else mux(t, c) for c in els])

    def swapcase(self):
        out = []
        for c in self.els:
            one = self.mk([c])
            if bool(as_b(el_in(c, LOWER))):
                out += list(self._need(one.upper()))
            else:
                out += list(self._need(one.lower()))
        return self.mk(out)

    def isupper(self):
        if not self.els:
            return False
        return b_and(b_or(*[el_in(c, UPPER) for c in self.els]), *[b_not(el_in(c, LOWER)) for c in self.els])

    def islower(self):
        if not self.els:
            return False
        return b_and(b_or(*[el_in(c, LOWER) for c in self.els]), *[b_not(el_in(c, UPPER)) for c in self.els])

    def title(self):
        out, cased = [], False
        for c in self.els:
            one = self.mk([c])
            out += list(self._need(one.lower() if cased else one.upper()))
            cased = bool(as_b(el_in(c, UPPER | LOWER)))
        return self.mk(out)

    def capitalize(self):
        if not self.els:
            return self
        return self.mk(list(self._need(self.mk(self.els[:1]).upper())) + list(self._need(self.mk(self.els[1:]).lower())))

    def expandtabs(self, n=8):
        out, col = [], 0
        for c in self.els:
            if bool(as_b(c == 9)):
                k = n - col % n if n > 0 else 0
                out += [32] * k
                col += k
            else:
                out.append(c)
                col = 0 if bool(as_b(b_or(c == 10, c == 13))) else col + 1
        return self.mk(out)

    def __getattr__(self, name):
        """Methods of the real type that have no model: on the concrete value, if the path fixes it."""
        if name[:1] == "_" or not hasattr({"str": str, "bytes": bytes}.get(self.kind, bytearray), name):
            raise AttributeError(name)
        return lambda *a, **k: getattr(self.concrete(), name)(*a, **k)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def as_b(x):
    return x


class SStr(Seq):
    __slots__ = ()
    kind = "str"
    _ws = WS
    _linebreaks = (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)

    @classmethod
    def mk(cls, els):
        return mkstr(els)

    @staticmethod
    def _native(els):
        return "".join(map(chr, els))

    def _coerce(self, o):
        if isinstance(o, SStr):
            return o.els
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    _eqc = _coerce

    def _one(self, e):
        return mkstr([e])

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self, encoding, errors)

    def __mod__(self, args):
        raise Unsupported("symbolic format string")

    def format(self, *a, **k):
        raise Unsupported("symbolic format string")

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        if self._els is None:
            return "<SStr lazy>"
        return "<SStr " + "".join(chr(e) if e.__class__ is int else "?" for e in self._els) + ">"

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def isidentifier(self):
        return self.concrete().isidentifier()

    def isprintable(self):
        return self._pred(frozenset(range(32, 127)))

    def isdecimal(self):
        return self.isdigit()

    def isascii(self):
        return b_and(*[c < 128 for c in self.els])

    def casefold(self):
        return self.lower()



class SBytes(Seq):
    __slots__ = ()
    kind = "bytes-like object"
    _ws = ASCII_WS
    _linebreaks = (10, 13)

    @classmethod
    def mk(cls, els):
        return mkbytes(els)

    @staticmethod
    def _native(els):
        return bytes(els)

    def _coerce(self, o):
        if isinstance(o, SStr) or isinstance(o, str):
            return None
        if isinstance(o, (SBytes, bytes, bytearray, memoryview)):
            return els_of(o)
        b = getattr(o, "_sx_bytes", None)
        return b() if b is not None else None

    _eqc = _coerce

    def __repr__(self):
        return f"<{type(self).__name__} len={len(self.els)}>"

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def hex(self, sep=None, bytes_per_sep=1):
        return hexlify(self.els, sep, bytes_per_sep)

    def __bytes__(self):
        return bytes(self.concrete())

    def tobytes(self):
        return mkbytes(list(self.els))

    def __index__(self):
        raise TypeError("bytes is not an integer")

    def isascii(self):
        return b_and(*[c < 128 for c in self.els])


class SByteArray(SBytes):
    """Mutable; every bytearray made by instrumented code is one of these."""

    __slots__ = ()

    def __init__(self, els):
        super().__init__(els)

    @classmethod
    def mk(cls, els):
        return SByteArray(list(els))

    @staticmethod
    def _native(els):
        return bytearray(els)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def append(self, v):
        self.els.append(chk_byte(v))

    def extend(self, it):
        b = els_of(it) if not isinstance(it, (str, SStr)) else None
        if b is None:
            if isinstance(it, (str, SStr)):
                raise TypeError("expected iterable of integers; got: 'str'")
            if not hasattr(it, "__iter__") and not hasattr(it, "__getitem__"):
                raise TypeError(f"can't extend bytearray with {type(it).__name__}")
            b = [chk_byte(v) for v in it]
        self.els.extend(list(b))

    def __iadd__(self, o):
        b = self._coerce(o)
        if b is None:
            raise TypeError(f"can't concat {type(o).__name__} to bytearray")
        self.els.extend(list(b))
        return self

    def __imul__(self, n):
        self._els = self.els * conc(n)
        return self

    def insert(self, i, v):
        self.els.insert(conc(i), chk_byte(v))

    def pop(self, i=-1):
        if not self.els:
            raise IndexError("pop from empty bytearray")
        return self.els.pop(conc(i))

    def remove(self, v):
        for i, e in enumerate(self.els):
            if bool(e == v):
                del self.els[i]
                return
        raise ValueError("value not found in bytearray")

    def clear(self):
        self.els.clear()

    def reverse(self):
        self.els.reverse()

    def copy(self):
        return SByteArray(list(self.els))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            i = cslice(i, len(self.els))
            if v is self:
                b = list(self.els)
            else:
                b = els_of(v) if not isinstance(v, (str, SStr)) else None
                if b is None:
                    if isinstance(v, (int, SInt, str, SStr)):
                        raise TypeError("can assign only bytes, buffers, or iterables of ints in range(0, 256)")
                    b = [chk_byte(x) for x in v]
            try:
                self.els[i] = list(b)
            except ValueError:
                raise ValueError("attempt to assign bytes of wrong size to extended slice") from None
        else:
            if isinstance(i, (SInt, SBool)):
                i = conc(i)
            v = chk_byte(v)
            n = len(self.els)
            if not -n <= i < n:
                raise IndexError("bytearray index out of range")
            self.els[i] = v

    def __delitem__(self, i):
        if isinstance(i, slice):
            i = cslice(i, len(self.els))
        else:
            i = conc(i)
        del self.els[i]


def mux(els, i):
    """els[i] for symbolic i as an ite chain; None when not applicable."""
    n = len(els)
    if not n:
        raise IndexError("index out of range")
    for e in els:
        if e.__class__ is not int and e.__class__ is not SInt:
            return None
    if not (i.lo >= 0 and i.hi < n):
        if not bool(b_and(i >= -n, i < n)):
            raise IndexError("index out of range")
        if i.lo < 0:
            i = ite(i < 0, i + n, i)
        i = narrow(i, 0, n - 1)
        if i.__class__ is int:
            return els[i]
    r = tree(els, i, i.lo, i.hi)
    return r


def tree(els, i, lo, hi):
    """Balanced select over the bits of i: compact for large tables."""
    los = [e if e.__class__ is int else e.lo for e in els[lo : hi + 1]]
    his = [e if e.__class__ is int else e.hi for e in els[lo : hi + 1]]
    L, H = min(los), max(his)
    if L == H:
        return L
    w = core.need(L, H)
    iw = i.w
    bits = [z3.Extract(k, k, i.e) == 1 for k in range(iw)]

    def rec(k, base):
        if k < 0:
            return core.ext(els[min(max(base, lo), hi)], w)
        b0 = base
        b1 = base | (1 << k)
        if b1 > hi:
            return rec(k - 1, b0)
        if b1 - 1 < lo:
            return rec(k - 1, b1)
        x, y = rec(k - 1, b0), rec(k - 1, b1)
        if x.eq(y):
            return x
        return z3.If(bits[k], y, x)

    return mkint(rec(iw - 1, 0), L, H)


# ------------------------------------------------------------------ conversions
def hexlify(els, sep=None, per=1, upper=False):
    out = []
    n = len(els)
    sepc = None if sep is None else (els_of(sep))[0]
    for k, b in enumerate(els):
        if k and sepc is not None and (n - k if per > 0 else k) % abs(per) == 0:
            out.append(sepc)
        out.extend(hex2(b, upper))
    return mkstr(out)


def hex2(b, upper):
    if b.__class__ is int:
        s = f"{b:02X}" if upper else f"{b:02x}"
        return [ord(s[0]), ord(s[1])]
    e = core.ext(b, 8)
    return [nibchar(z3.Extract(7, 4, e), upper), nibchar(z3.Extract(3, 0, e), upper)]


HEX = frozenset(map(ord, "0123456789abcdefABCDEF"))


def digit_val(c):
    """4-bit z3 term / int of an element known to be a hex digit."""
    if c.__class__ is int:
        return int(chr(c), 16)
    if c.nib is not None:
        return c.nib[0]
    e = core.ext(c, max(8, c.w))
    lo4 = z3.Extract(3, 0, e)
    r = z3.simplify(z3.If(z3.ULE(e, 57), lo4, lo4 + 9))
    return r.as_long() if z3.is_bv_value(r) else r


def from_nibbles(ns):
    """Integer from a list of 4-bit terms / ints, most significant first."""
    es = [z3.BitVecVal(n, 4) if isinstance(n, int) else n for n in ns]
    e = es[0] if len(es) == 1 else z3.Concat(*es)
    return mkint(e, 0, (1 << (4 * len(es))) - 1)


def bytes_fromhex(s):
    els = els_of(s)
    out = []
    i = 0
    n = len(els)
    ws = frozenset(ASCII_WS)
    while i < n:
        c = els[i]
        if bool(as_b(el_in(c, ws))):
            i += 1
            continue
        if i + 1 >= n:
            if bool(as_b(el_in(c, HEX))):
                raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % (i + 1))
            raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % i)
        d = els[i + 1]
        if not bool(b_and(el_in(c, HEX), el_in(d, HEX))):
            raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % i)
        out.append(from_nibbles([digit_val(c), digit_val(d)]))
        i += 2
    return out


DEC = frozenset(range(48, 58))


def parse_int(s, base=10):
    """int(str/bytes, base)"""
    els = els_of(s)
    base = conc(base)
    if base == 16:
        good = HEX
    elif base == 10:
        good = DEC
    elif base in (2, 8):
        good = frozenset(range(48, 48 + base))
    else:
        return int(s.concrete(), base)
    if els and bool(b_and(*[el_in(c, good) for c in els])):
        return _digits(els, base)
    # strip whitespace
    st = frozenset(WS if isinstance(s, (str, SStr)) else ASCII_WS)
    i, j = 0, len(els)
    while i < j and bool(as_b(el_in(els[i], st))):
        i += 1
    while j > i and bool(as_b(el_in(els[j - 1], st))):
        j -= 1
    els = els[i:j]
    bad = ValueError(f"invalid literal for int() with base {base}")
    if not els:
        raise bad
    neg = False
    if bool(as_b(el_in(els[0], frozenset((43, 45))))):
        neg = bool(as_b(els[0] == 45))
        els = els[1:]
    if base in (16, 2, 8) and len(els) >= 2:
        pre = {16: (120, 88), 2: (98, 66), 8: (111, 79)}[base]
        if bool(b_and(els[0] == 48, el_in(els[1], frozenset(pre)))):
            els = els[2:]
            if els and bool(as_b(els[0] == 95)):
                els = els[1:]
    # underscores between digits
    digs = []
    last = False
    for c in els:
        if bool(as_b(el_in(c, good))):
            digs.append(c)
            last = True
        elif last and bool(as_b(c == 95)):
            last = False
        else:
            raise bad
    if not digs or not last:
        raise bad
    v = _digits(digs, base)
    return -v if neg else v


def _digits(els, base):
    if base == 16:
        return from_nibbles([digit_val(c) for c in els])
    v = 0
    for c in els:
        v = v * base + (c - 48)
    return v


def encode(s, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("-", "").replace("_", "")
    els = els_of(s)
    lim = {"ascii": 128, "usascii": 128, "utf8": 128, "latin1": 256, "iso88591": 256, "l1": 256}.get(enc)
    if lim is None or all_concrete(els):
        return mkbytes(list((s.concrete() if isinstance(s, SStr) else s).encode(encoding, errors)))
    for c in els:
        if c.__class__ is int:
            ok = c < lim
        else:
            ok = c < lim
        if not bool(ok):
            if enc == "utf8" or errors != "strict":
                return s.concrete().encode(encoding, errors)
            raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
    return mkbytes([c if c.__class__ is int else narrow(c, 0, lim - 1) for c in els])


def decode(b, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("-", "").replace("_", "")
    els = els_of(b)
    if enc in ("latin1", "iso88591", "l1"):
        return mkstr(list(els))
    if enc not in ("ascii", "usascii", "utf8") or all_concrete(els):
        return b.concrete().decode(encoding, errors)
    hi = b_and(*[c < 128 for c in els])
    if bool(hi):
        return mkstr([c if c.__class__ is int else narrow(c, 0, 127) for c in els])
    if enc != "utf8" and errors == "strict":
        raise UnicodeDecodeError(enc, b"?", 0, 1, "ordinal not in range(128)")
    core.ENG.flag("utf-8 multi-byte text")
    return b.concrete().decode(encoding, errors)


def int_to_bytes(v, length, byteorder, signed=False):
    length = conc(length)
    v = num(v)
    if byteorder not in ("little", "big"):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if v.__class__ is int:
        return v.to_bytes(length, byteorder, signed=signed)
    bits = 8 * length
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed and bits else (0, (1 << bits) - 1)
    if v.lo < lo or v.hi > hi:
        if not signed and v.lo < 0 and bool(v < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not bool(b_and(v >= lo, v <= hi)):
            raise OverflowError("int too big to convert")
        v = narrow(v, lo, hi)
        if v.__class__ is int:
            return v.to_bytes(length, byteorder, signed=signed)
    e = core.ext(v, bits)
    els = [mkint(z3.Extract(8 * i + 7, 8 * i, e), 0, 255) for i in range(length)]
    if byteorder == "big":
        els.reverse()
    return mkbytes(els)


def int_from_bytes(b, byteorder="big", signed=False):
    els = els_of(b)
    if els is None:
        els = [chk_byte(x) for x in b]
    if byteorder not in ("little", "big"):
        raise ValueError("byteorder must be either 'little' or 'big'")
    els = list(els)
    if not els:
        return 0
    if byteorder == "little":
        els.reverse()
    es = [core.ext(e, 8) for e in els]
    e = es[0] if len(es) == 1 else z3.Concat(*es)
    n = 8 * len(es)
    if signed:
        return mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(e, 0, (1 << n) - 1)
