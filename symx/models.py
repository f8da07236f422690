"""Models of the builtins and C-implemented library calls that the code under test uses.

Each model defers to the real implementation when every argument is concrete.
"""

import array as _array
import binascii as _binascii
import builtins as _b
import copy as _copy
import hashlib as _hashlib
import json as _json
import io as _io
import math as _math
import os as _os
import struct as _struct
import sys
import types
import zlib as _zlib

import z3

from symx import core, fmt, seq
from symx.core import SBool, SInt, Unsupported, b_and, b_not, b_or, concretise, ite, mkint, num
from symx.flt import SDy, SFBits
from symx.fmt import has_sym, sx_format, sx_repr, sx_str
from symx.seq import SByteArray, SBytes, Seq, SStr, chk_byte, els_of, mkbytes, mkstr

SYMT = (SInt, SBool, Seq, SDy, SFBits)


# ------------------------------------------------------------------ type shims
class Shim:
    """Stands for a builtin type inside instrumented code."""

    def __init__(self, real, proxies, call):
        self.__dict__["_real"] = real
        self.__dict__["_proxies"] = proxies
        self.__dict__["_call"] = call
        self.__dict__["__name__"] = real.__name__
        self.__dict__["__qualname__"] = real.__qualname__
        self.__dict__["__module__"] = "builtins"
        self.__dict__["__doc__"] = real.__doc__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __instancecheck__(self, o):
        return _b.isinstance(o, (self._real,) + self._proxies)

    def __subclasscheck__(self, c):
        return _b.issubclass(unshim(c), self._real)

    def __getattr__(self, n):
        v = getattr(self._real, n)
        if isinstance(v, (types.MethodDescriptorType, types.WrapperDescriptorType)) and self._real in (int, str, bytes, bytearray):
            return self._unbound(n, v)
        return v

    def _unbound(self, n, v):
        """A method used as a function: str.upper, bytes.hex, int.__add__."""
        real = self._real

        def method(o, *a, **k):
            if isinstance(o, SYMT):
                r = getattr(o, n)
                return r(*a, **k)
            if real in (str, bytes) and any(isinstance(e, SYMT) for e in a):
                return _rt().callm(o, n, *a, **k)
            return v(o, *a, **k)

        method.__name__ = n
        return method

    def __getitem__(self, k):
        return self._real[k]

    def __or__(self, o):
        return self._real | unshim(o)

    def __ror__(self, o):
        return unshim(o) | self._real

    def __eq__(self, o):
        return unshim(o) is self._real

    def __ne__(self, o):
        return unshim(o) is not self._real

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)


def unshim(t):
    return t._real if _b.isinstance(t, Shim) else t


def to_native(x):
    """Concrete native equivalent when no symbolic content, else x."""
    if isinstance(x, Seq):
        if seq.all_concrete(x.els):
            return x._native(x.els)
    return x


def conc_all(x):
    if isinstance(x, (SInt, SBool)):
        return concretise(x)
    if isinstance(x, Seq):
        return x.concrete()
    if isinstance(x, (SDy, SFBits)):
        return float(x)
    return x


_MISSING = object()


def c_int(x=0, base=_MISSING):
    if base is not _MISSING:
        if isinstance(x, Seq):
            n = to_native(x)
            if n is x:
                return seq.parse_int(x, base)
            return _b.int(n, concretise(base))
        return _b.int(x, concretise(base))
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x._int()
    if isinstance(x, SDy):
        return x.trunc()
    if isinstance(x, Seq):
        n = to_native(x)
        return seq.parse_int(x, 10) if n is x else _b.int(n)
    f = getattr(type(x), "__int__", None) if not isinstance(x, (int, float, str, bytes)) else None
    if f is not None and type(x).__module__.startswith("symx"):
        return f(x)
    return _b.int(x)


INT = Shim(int, (SInt, SBool), c_int)
INT.__dict__["from_bytes"] = lambda b, byteorder="big", *, signed=False: (
    seq.int_from_bytes(b, byteorder, signed)
    if not isinstance(to_native(b), (bytes, bytearray)) and (isinstance(b, Seq) or has_sym(list(b)))
    else int.from_bytes(to_native(b), byteorder, signed=signed)
)
INT.__dict__["to_bytes"] = lambda v, *a, **k: c_int(v).to_bytes(*a, **k)
INT.__dict__["bit_length"] = lambda v: v.bit_length()


def c_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        r = x != 0
        return r
    return True if x else False


BOOL = Shim(bool, (SBool,), c_bool)


def c_float(x=0.0):
    if isinstance(x, (SDy, SFBits)):
        return x
    if isinstance(x, (SInt, SBool)):
        x = num(x)
        if isinstance(x, SInt) and max(abs(x.lo), abs(x.hi)) < 1 << 53:
            return SDy(x, 0)
        return float(concretise(x))
    if isinstance(x, Seq):
        return float(x.concrete())
    return _b.float(x)


FLOAT = Shim(float, (SDy, SFBits), c_float)


def c_str(*a, **k):
    return sx_str(*a, **k)


STR = Shim(str, (SStr,), c_str)
STR.__dict__["join"] = lambda s, it: seq.SStr(seq.els_of(s)).join(it) if True else None
STR.__dict__["lower"] = lambda s: s.lower()
STR.__dict__["upper"] = lambda s: s.upper()
STR.__dict__["strip"] = lambda s, *a: s.strip(*a)
STR.__dict__["format"] = lambda s, *a, **k: fmt.sx_str_format(s, a, k)


def bytes_els(x, *a, **k):
    """Elements of bytes(x, ...) / bytearray(x, ...)."""
    if isinstance(x, (str, SStr)):
        if not a and not k:
            raise TypeError("string argument without an encoding")
        return list(els_of(seq.encode(x, *a, **k)))
    if a or k:
        raise TypeError("encoding without a string argument")
    if isinstance(x, (SInt, SBool)):
        x = concretise(num(x))
    if isinstance(x, int):
        return [0] * len(bytes(x)) if x < 100000 else list(bytes(x))
    els = els_of(x)
    if els is not None:
        return list(els)
    if isinstance(x, _array.array):
        return list(x.tobytes())
    nb = getattr(type(x), "__bytes__", None)
    if nb is not None:
        return list(els_of(nb(x)))
    try:
        it = iter(x)
    except TypeError:
        raise TypeError(f"cannot convert '{type(x).__name__}' object to bytes") from None
    return [chk_byte(v, "bytes must be in range(0, 256)") for v in it]


def c_bytes(x=b"", *a, **k):
    if "source" in k:
        x = k.pop("source")
    if isinstance(x, bytes):
        return x
    return mkbytes(bytes_els(x, *a, **k))


def c_bytearray(x=b"", *a, **k):
    if "source" in k:
        x = k.pop("source")
    try:
        return SByteArray(bytes_els(x, *a, **k))
    except ValueError as e:
        if "bytes must be" in str(e):
            raise ValueError("byte must be in range(0, 256)") from None
        raise


BYTES = Shim(bytes, (), c_bytes)
BYTES.__dict__["__instancecheck__"] = None


def is_bytes(o):
    return isinstance(o, bytes) or (isinstance(o, SBytes) and not isinstance(o, SByteArray))


BYTEARRAY = Shim(bytearray, (SByteArray,), c_bytearray)


def _fromhex_ba(s):
    return SByteArray(seq.bytes_fromhex(s)) if isinstance(s, SStr) else SByteArray(list(bytes.fromhex(s)))


def _fromhex_b(s):
    return mkbytes(seq.bytes_fromhex(s)) if isinstance(s, SStr) else bytes.fromhex(s)


BYTEARRAY.__dict__["fromhex"] = _fromhex_ba
BYTES.__dict__["fromhex"] = _fromhex_b
BYTES.__dict__["join"] = lambda s, it: SBytes(els_of(s)).join(it)


class MemView:
    """memoryview over a symbolic buffer (shares the element list of the underlying object)."""

    def __init__(self, obj, lo=0, hi=None):
        self.obj = obj
        self.lo = lo
        self.hi = len(els_of(obj)) if hi is None else hi
        self.readonly = not isinstance(obj, SByteArray)
        self.itemsize = 1
        self.format = "B"

    @property
    def nbytes(self):
        return self.hi - self.lo

    def _sx_bytes(self):
        return list(els_of(self.obj)[self.lo : self.hi])

    def __len__(self):
        return self.hi - self.lo

    def tobytes(self):
        return mkbytes(self._sx_bytes())

    def tolist(self):
        return self._sx_bytes()

    def hex(self, *a):
        return seq.hexlify(self._sx_bytes(), *a)

    def __iter__(self):
        return iter(self._sx_bytes())

    def __getitem__(self, i):
        if isinstance(i, slice):
            s, e, st = seq.cslice(i, len(self)).indices(len(self))
            if st != 1:
                raise Unsupported("memoryview step")
            return MemView(self.obj, self.lo + s, self.lo + max(s, e))
        return SBytes(self._sx_bytes())[i]

    def __setitem__(self, i, v):
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        if isinstance(i, slice):
            s, e, st = seq.cslice(i, len(self)).indices(len(self))
            b = els_of(v)
            if len(b) != e - s:
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            self.obj.els[self.lo + s : self.lo + e] = list(b)
        else:
            self.obj[self.lo + seq.conc(i)] = v

    def __eq__(self, o):
        b = els_of(o)
        return NotImplemented if b is None else seq.eq_els(self._sx_bytes(), b)

    __hash__ = None

    def release(self):
        pass

    def cast(self, f):
        raise Unsupported("memoryview.cast")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def c_memoryview(x):
    if isinstance(x, (Seq, MemView)):
        return MemView(x) if isinstance(x, Seq) else x
    return memoryview(x)


MEMORYVIEW = Shim(memoryview, (MemView,), c_memoryview)


class SliceShim:
    pass


def _expand(t):
    if isinstance(t, tuple):
        for u in t:
            yield from _expand(u)
    elif isinstance(t, types.UnionType):
        for u in t.__args__:
            yield u
    else:
        yield t


def sx_isinstance(o, t):
    c = type(o)
    if c in (SInt, SBool, SStr, SBytes, SByteArray, SDy, SFBits, MemView):
        for u in _expand(t):
            u = unshim(u)
            if u is object:
                return True
            if u is int:
                if c in (SInt, SBool):
                    return True
            elif u is bool:
                if c is SBool:
                    return True
            elif u is str:
                if c is SStr:
                    return True
            elif u is bytes:
                if c is SBytes:
                    return True
            elif u is bytearray:
                if c is SByteArray:
                    return True
            elif u is float:
                if c in (SDy, SFBits):
                    return True
            elif u is memoryview:
                if c is MemView:
                    return True
            elif u in (c,):
                return True
            else:
                rep = {SInt: 0, SBool: True, SStr: "", SBytes: b"", SByteArray: bytearray(), SDy: 0.0, SFBits: 0.0}.get(c)
                if rep is not None and isinstance(rep, u):
                    return True
        return False
    return isinstance(o, tuple(unshim(u) for u in _expand(t)))


def sx_issubclass(c, t):
    return issubclass(unshim(c), tuple(unshim(u) for u in _expand(t)))


SHIMS = {}


class TypeShim(Shim):
    pass


def c_type(*a, **k):
    if len(a) == 1 and not k:
        o = a[0]
        c = type(o)
        real = {SInt: int, SBool: bool, SStr: str, SBytes: bytes, SByteArray: bytearray, SDy: float, SFBits: float}.get(c, c)
        return SHIMS.get(real, real)
    return type(a[0], tuple(unshim(x) for x in a[1]), *a[2:], **k)


TYPE = Shim(type, (), c_type)


def c_range(*a):
    if not any(isinstance(x, (SInt, SBool)) for x in a):
        return range(*a)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        (start, stop), step = a, 1
    else:
        start, stop, step = a
    return SRange(num(start), num(stop), concretise(step))


class SRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while bool(i < self.stop):
                yield i
                i = i + self.step
        else:
            while bool(i > self.stop):
                yield i
                i = i + self.step

    def _r(self):
        return range(concretise(self.start), concretise(self.stop), self.step)

    def __len__(self):
        return len(self._r())

    def __getitem__(self, i):
        return self._r()[i]

    def __reversed__(self):
        return reversed(self._r())

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if num(x) is None:
            return False
        d = x - self.start
        if self.step > 0:
            r = b_and(x >= self.start, x < self.stop)
        else:
            r = b_and(x <= self.start, x > self.stop)
        return r if abs(self.step) == 1 else b_and(r, (d % self.step) == 0)


RANGE = Shim(range, (SRange,), c_range)


def sx_len(x):
    return len(x)


def sx_ord(c):
    e = els_of(c) if isinstance(c, Seq) else None
    if e is None:
        return ord(c)
    if len(e) != 1:
        raise TypeError(f"ord() expected a character, but string of length {len(e)} found")
    x = e[0]
    if isinstance(x, SInt) and x.nib is not None:
        return SInt(x.e, x.lo, x.hi)
    return x


def sx_chr(i):
    i = num(i) if num(i) is not None else i
    if isinstance(i, SInt):
        if not (i.lo >= 0 and i.hi <= 0x10FFFF):
            if not bool(b_and(i >= 0, i <= 0x10FFFF)):
                raise ValueError("chr() arg not in range(0x110000)")
            i = seq.narrow(i, 0, 0x10FFFF)
        return mkstr([i])
    return chr(i)


def sx_hex(i):
    i = num(i) if num(i) is not None else i
    return sx_format(i, "#x") if isinstance(i, SInt) else hex(i)


def sx_bin(i):
    i = num(i) if num(i) is not None else i
    return sx_format(i, "#b") if isinstance(i, SInt) else bin(i)


def sx_oct(i):
    i = num(i) if num(i) is not None else i
    return sx_format(i, "#o") if isinstance(i, SInt) else oct(i)


def sx_divmod(a, b):
    return divmod(a, b)


def _minmax(items, kw, better):
    key = kw.get("key")
    if not items:
        if "default" in kw:
            return kw["default"]
        raise ValueError("arg is an empty sequence")
    if key is None and all(num(x) is not None for x in items) and any(isinstance(x, (SInt, SBool)) for x in items):
        r = items[0]
        for x in items[1:]:
            r = ite(better(x, r), x, r)
        return r
    r = items[0]
    for x in items[1:]:
        if better(key(x), key(r)) if key else better(x, r):
            r = x
    return r


def sx_min(*a, **k):
    return _minmax(list(a[0]) if len(a) == 1 else list(a), k, lambda x, y: x < y)


def sx_max(*a, **k):
    return _minmax(list(a[0]) if len(a) == 1 else list(a), k, lambda x, y: x > y)


def sx_any(it):
    acc = False
    for x in it:
        if isinstance(x, (SBool, bool)):
            acc = b_or(acc, x)
            if acc is True:
                return True
        elif x:
            return True
    return acc


def sx_all(it):
    acc = True
    for x in it:
        if isinstance(x, (SBool, bool)):
            acc = b_and(acc, x)
            if acc is False:
                return False
        elif not x:
            return False
    return acc


def sx_any_lazy(it):
    # any()/all() must not evaluate later items when an earlier one decides the result and later ones may raise:
    # with symbolic verdicts fork exactly as the interpreter would
    for x in it:
        if x:
            return True
    return False


def sx_round(x, n=None):
    if isinstance(x, (SInt, SBool)):
        return num(x)
    if isinstance(x, SDy):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def sx_abs(x):
    return abs(x)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


STDOUT = None  # set by the harness


def sx_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is None or file is sys.stdout or file is sys.__stdout__:
        file = STDOUT
        if file.parts is None:
            return
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(" " if sep is None else sep)
        parts.append(sx_str(x))
    parts.append("\n" if end is None else end)
    file.write(fmt.concat(parts))


def sx_hash(x):
    return hash(x)


def sx_iter(*a):
    return iter(*a)


def sx_open(path, mode="r", *a, **k):
    vfs = core.ENG.vfs
    p = path.concrete() if isinstance(path, SStr) else path
    if hasattr(p, "__fspath__"):
        p = p.__fspath__()
    if p in vfs:
        if "w" in mode:
            vfs[p] = []
            return SFile(p, [], mode)
        if vfs[p] is None:
            raise FileNotFoundError(p)
        return SFile(p, vfs[p], mode)
    raise FileNotFoundError(p)


# ------------------------------------------------------------------ io
class SBytesIO:
    """io.BytesIO over symbolic bytes."""

    def __init__(self, initial=b""):
        self.buf = list(bytes_els(initial)) if initial is not None else []
        self._pos = 0
        self.closed = False
        self.mode = "rb+"

    def _ck(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _mk(self, els):
        return mkbytes(els)

    def read(self, n=-1):
        self._ck()
        n = seq.clamp(n, max(0, len(self.buf) - self._pos))
        if n is None or n < 0:
            r = self.buf[self._pos :]
        else:
            r = self.buf[self._pos : self._pos + n]
        self._pos += len(r)
        return self._mk(list(r))

    read1 = read

    def readinto(self, b):
        r = self.read(len(b))
        b[: len(r)] = r
        return len(r)

    def readline(self, size=-1):
        self._ck()
        i = self._pos
        n = len(self.buf)
        while i < n:
            c = self.buf[i]
            i += 1
            if bool(c == 10):
                break
        r = self.buf[self._pos : i]
        self._pos = i
        return self._mk(list(r))

    def readlines(self, hint=-1):
        out = []
        while True:
            ln = self.readline()
            if not len(ln):
                return out
            out.append(ln)

    def __iter__(self):
        return self

    def __next__(self):
        ln = self.readline()
        if not len(ln):
            raise StopIteration
        return ln

    def seek(self, off, whence=0):
        self._ck()
        off = seq.conc(off)
        if whence == 0:
            if off < 0:
                raise ValueError(f"negative seek value {off}")
            self._pos = off
        elif whence == 1:
            self._pos = max(0, self._pos + off)
        else:
            self._pos = max(0, len(self.buf) + off)
        return self._pos

    def tell(self):
        self._ck()
        return self._pos

    def write(self, b):
        self._ck()
        els = els_of(b)
        if els is None or isinstance(b, (str, SStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        self._put(els)
        return len(els)

    def _put(self, els):
        if self._pos > len(self.buf):
            self.buf.extend([0] * (self._pos - len(self.buf)))
        self.buf[self._pos : self._pos + len(els)] = list(els)
        self._pos += len(els)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        self._ck()
        return self._mk(list(self.buf))

    def getbuffer(self):
        return MemView(SByteArray(self.buf))

    def truncate(self, n=None):
        n = self._pos if n is None else seq.conc(n)
        del self.buf[n:]
        return n

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True

    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class SStringIO(SBytesIO):
    def __init__(self, initial="", newline="\n"):
        self.buf = list(els_of(initial)) if initial else []
        self._pos = 0
        self.closed = False
        self.mode = "r+"

    def _mk(self, els):
        return mkstr(els)

    def write(self, s):
        self._ck()
        if not isinstance(s, (str, SStr)):
            raise TypeError("string argument expected")
        els = els_of(s)
        self._put(els)
        return len(els)


class SFile(SBytesIO):
    def __init__(self, name, els, mode):
        self.name = name
        self.buf = list(els)
        self._pos = 0
        self.closed = False
        self.mode = mode
        self.text = "b" not in mode

    def _mk(self, els):
        if self.text:
            return seq.decode(SBytes(els)) if not seq.all_concrete(els) else bytes(els).decode()
        return mkbytes(els)

    def write(self, b):
        if "w" not in self.mode and "a" not in self.mode and "+" not in self.mode:
            raise _io.UnsupportedOperation("not writable")
        if self.text != isinstance(b, (str, SStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        els = els_of(seq.encode(b)) if self.text else els_of(b)
        if els is None:
            raise TypeError("a bytes-like object is required")
        self._put(els)
        core.ENG.vfs[self.name] = list(self.buf)
        return len(els)


def make_io():
    m = types.ModuleType("io")
    for k in dir(_io):
        if not k.startswith("__"):
            setattr(m, k, getattr(_io, k))
    m.BytesIO = SBytesIO
    m.StringIO = SStringIO
    m.open = sx_open
    return m


# ------------------------------------------------------------------ struct
NATIVE = {"b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 8, "L": 8, "q": 8, "Q": 8, "n": 8, "N": 8, "f": 4, "d": 8, "P": 8, "e": 2}
STD = {"b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "e": 2}


def parse_fmt(f):
    """-> (little, [(code, size, count, offset)], total)"""
    _struct.calcsize(f)  # raises struct.error for bad formats
    f = f.decode() if isinstance(f, bytes) else f
    pre = "@"
    if f and f[0] in "@=<>!":
        pre, f = f[0], f[1:]
    sizes = NATIVE if pre == "@" else STD
    little = pre in "@=<"
    items = []
    off = 0
    n = ""
    for c in f:
        if c.isspace():
            continue
        if c.isdigit():
            n += c
            continue
        cnt = int(n) if n else 1
        had = bool(n)
        n = ""
        if c == "x":
            items.append(("x", 1, cnt, off))
            off += cnt
        elif c in "sp":
            items.append((c, cnt, 1, off))
            off += cnt
        elif c == "c":
            for _ in range(cnt):
                items.append(("c", 1, 1, off))
                off += 1
        else:
            sz = sizes[c]
            if pre == "@":
                off = -(-off // sz) * sz
            for _ in range(cnt):
                items.append((c, sz, 1, off))
                off += sz
    return little, items, off


def st_unpack_from(f, buf, offset=0):
    f = conc_all(f)
    little, items, total = parse_fmt(f)
    els = els_of(buf)
    if els is None:
        raise TypeError("a bytes-like object is required")
    offset = seq.conc(offset)
    if offset < 0:
        offset += len(els)
    if len(els) - offset < total or offset < 0:
        raise _struct.error(f"unpack_from requires a buffer of at least {total + offset} bytes")
    return st_un(f, els[offset : offset + total], little, items, total)


def st_unpack(f, buf):
    f = conc_all(f)
    little, items, total = parse_fmt(f)
    els = els_of(buf)
    if els is None:
        raise TypeError(f"a bytes-like object is required, not '{type(buf).__name__}'")
    if len(els) != total:
        raise _struct.error(f"unpack requires a buffer of {total} bytes")
    return st_un(f, els, little, items, total)


def st_un(f, els, little, items, total):
    if seq.all_concrete(els):
        return _struct.unpack(f, bytes(els))
    out = []
    for c, sz, _cnt, off in items:
        if c == "x":
            continue
        b = els[off : off + sz]
        if c in ("s", "c"):
            out.append(mkbytes(list(b)))
        elif c == "p":
            raise Unsupported("struct p")
        elif c == "?":
            out.append(b_not(b[0] == 0))
        elif c in "fd":
            if seq.all_concrete(b):
                out.append(_struct.unpack(("<" if little else ">") + c, bytes(b))[0])
            else:
                out.append(SFBits(seq.int_from_bytes(SBytes(list(b)), "little" if little else "big"), sz))
        elif c == "e":
            raise Unsupported("struct e")
        else:
            out.append(seq.int_from_bytes(SBytes(list(b)), "little" if little else "big", c.islower()))
    return tuple(out)


def st_pack(f, *args):
    f = conc_all(f)
    little, items, total = parse_fmt(f)
    args = [to_native(a) for a in args]
    if not any(has_sym(a) for a in args):
        return _struct.pack(f, *args)
    want = sum(1 for it in items if it[0] != "x")
    if want != len(args):
        raise _struct.error(f"pack expected {want} items for packing (got {len(args)})")
    out = [0] * total
    ai = 0
    for c, sz, cnt, off in items:
        if c == "x":
            continue
        v = args[ai]
        ai += 1
        if c in "sc":
            b = els_of(v)
            if b is None or isinstance(v, (str, SStr)):
                raise _struct.error(f"argument for '{c}' must be a bytes object")
            if c == "c" and len(b) != 1:
                raise _struct.error("char format requires a bytes object of length 1")
            b = (list(b) + [0] * sz)[:sz]
        elif c in "fd":
            if isinstance(v, SFBits):
                if v.size == sz:
                    b = list(els_of(seq.int_to_bytes(v.bits, sz, "little" if little else "big")))
                elif v.size == 4:
                    b = list(els_of(_struct.pack(("<" if little else ">") + c, float(v))))
                else:
                    raise Unsupported("float narrowing")
            else:
                if isinstance(v, (SInt, SBool, SDy)):
                    v = float(v)
                b = list(_struct.pack(("<" if little else ">") + c, v))
        elif c == "?":
            b = [ite(c_bool(v), 1, 0)]
        elif c in "ep":
            raise Unsupported("struct " + c)
        else:
            if num(v) is None:
                if hasattr(v, "__index__") and not isinstance(v, (Seq, SDy, SFBits)):
                    v = v.__index__()
                else:
                    raise _struct.error("required argument is not an integer")
            v = num(v)
            bits = 8 * sz
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if c.islower() else (0, (1 << bits) - 1)
            ok = b_and(v >= lo, v <= hi)
            if not bool(ok):
                raise _struct.error(f"'{c}' format requires {lo} <= number <= {hi}")
            if isinstance(v, SInt):
                v = seq.narrow(v, lo, hi)
            b = list(els_of(seq.int_to_bytes(v, sz, "little" if little else "big", c.islower())))
        out[off : off + sz] = b
    return mkbytes(out)


def st_pack_into(f, buf, offset, *args):
    b = els_of(st_pack(f, *args))
    offset = seq.conc(offset)
    n = len(els_of(buf))
    if offset < 0:
        offset += n
    if offset < 0 or offset + len(b) > n:
        raise _struct.error("pack_into requires a buffer of at least ... bytes")
    buf[offset : offset + len(b)] = mkbytes(list(b))


def st_iter_unpack(f, buf):
    sz = _struct.calcsize(conc_all(f))
    els = els_of(buf)
    if sz == 0 or len(els) % sz:
        raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % sz)
    for i in range(0, len(els), sz):
        yield st_unpack(f, mkbytes(list(els[i : i + sz])))


class SStruct:
    def __init__(self, f):
        self.format = conc_all(f)
        self.size = _struct.calcsize(self.format)

    def pack(self, *a):
        return st_pack(self.format, *a)

    def unpack(self, b):
        return st_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return st_unpack_from(self.format, b, offset)

    def pack_into(self, b, o, *a):
        return st_pack_into(self.format, b, o, *a)

    def iter_unpack(self, b):
        return st_iter_unpack(self.format, b)


def make_struct():
    m = types.ModuleType("struct")
    m.error = _struct.error
    m.calcsize = lambda f: _struct.calcsize(conc_all(f))
    m.pack, m.unpack, m.unpack_from, m.pack_into, m.iter_unpack = st_pack, st_unpack, st_unpack_from, st_pack_into, st_iter_unpack
    m.Struct = SStruct
    return m


# ------------------------------------------------------------------ array
class SArray:
    """array.array with typecode 'B'."""

    def __init__(self, typecode, init=()):
        self.typecode = typecode
        self.itemsize = 1
        if isinstance(init, (str, SStr)):
            raise TypeError("cannot use a str to initialize an array with typecode 'B'")
        b = els_of(init)
        if b is None:
            b = []
            for v in init:
                n = num(v)
                if n is None:
                    raise TypeError("an integer is required")
                if not bool(b_and(n >= 0, n <= 255)):
                    raise OverflowError("unsigned byte integer is out of range")
                b.append(chk_byte(n))
        self.els = list(b)

    def _sx_bytes(self):
        return list(self.els)

    def tobytes(self):
        return mkbytes(list(self.els))

    def tolist(self):
        return list(self.els)

    def __len__(self):
        return len(self.els)

    def __iter__(self):
        return iter(self.els)

    def __getitem__(self, i):
        r = SByteArray(self.els)[i]
        return SArray("B", r) if isinstance(i, slice) else r

    def __eq__(self, o):
        if isinstance(o, SArray):
            return seq.eq_els(self.els, o.els)
        return NotImplemented

    __hash__ = None

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("array slice assignment")
        self.els[i] = chk_byte(v)

    def append(self, v):
        self.els.append(chk_byte(v))

    def extend(self, it):
        self.els.extend([chk_byte(v) for v in it])

    def frombytes(self, b):
        self.els.extend(els_of(b))


def make_array():
    m = types.ModuleType("array")

    def arr(typecode, init=()):
        if typecode == "B":
            return SArray(typecode, init)
        if isinstance(init, Seq):
            init = init.concrete()
        elif has_sym(init):
            # lists of symbolic numbers: only the byte image is ever used
            return SArrayN(typecode, init)
        return _array.array(typecode, init)

    m.array = Shim(_array.array, (SArray, SArrayN), arr)
    m.ArrayType = m.array
    m.typecodes = _array.typecodes
    return m


class SArrayN:
    def __init__(self, typecode, init):
        self.typecode = typecode
        self.itemsize = NATIVE[typecode]
        self.vals = list(init)
        try:
            self._b = list(els_of(st_pack("=" + "bBhHiIqQ"["bBhHiIlL".index(typecode)] * len(self.vals) if typecode in "lL" else f"@{len(self.vals)}{typecode}", *self.vals)))
        except _struct.error as e:
            raise OverflowError(str(e)) from None

    def _sx_bytes(self):
        return list(self._b)

    def tobytes(self):
        return mkbytes(list(self._b))

    def tolist(self):
        return list(self.vals)

    def __iter__(self):
        return iter(self.vals)

    def __len__(self):
        return len(self.vals)

    def __getitem__(self, i):
        return self.vals[i]


# ------------------------------------------------------------------ small modules
def crc32(data, value=0):
    els = els_of(data)
    if seq.all_concrete(els) and isinstance(value, int):
        return _zlib.crc32(bytes(els), value)
    crc = value ^ 0xFFFFFFFF
    e = core.ext(crc if isinstance(crc, SInt) else core.const(crc), 32)
    for b in els:
        e = e ^ core.ext(b, 32)
        for _ in range(8):
            e = z3.If(z3.Extract(0, 0, e) == 1, z3.LShR(e, 1) ^ 0xEDB88320, z3.LShR(e, 1))
        e = z3.simplify(e)
    return mkint(~e, 0, 0xFFFFFFFF)


def adler32(data, value=1):
    els = els_of(data)
    if seq.all_concrete(els) and isinstance(value, int):
        return _zlib.adler32(bytes(els), value)
    a, b = value & 0xFFFF, (value >> 16) & 0xFFFF
    for x in els:
        a = (a + x) % 65521
        b = (b + a) % 65521
    return (b << 16) | a


def make_zlib():
    m = types.ModuleType("zlib")
    for k in dir(_zlib):
        if not k.startswith("__"):
            setattr(m, k, getattr(_zlib, k))
    m.crc32 = crc32
    m.adler32 = adler32
    return m


def make_binascii():
    m = types.ModuleType("binascii")
    for k in dir(_binascii):
        if not k.startswith("__"):
            setattr(m, k, getattr(_binascii, k))

    def hexlify(data, *a):
        r = seq.hexlify(els_of(data), *a)
        return seq.encode(r) if isinstance(r, SStr) else r.encode()

    def unhexlify(s):
        if isinstance(s, Seq):
            els = s.els
            if len(els) % 2:
                raise _binascii.Error("Odd-length string")
            if not bool(b_and(*[seq.el_in(c, seq.HEX) for c in els])):
                raise _binascii.Error("Non-hexadecimal digit found")
            return mkbytes(seq.bytes_fromhex(SStr(els)))
        return _binascii.unhexlify(s)

    m.hexlify = m.b2a_hex = hexlify
    m.unhexlify = m.a2b_hex = unhexlify
    m.crc32 = crc32

    def crc_hqx(data, crc):
        for b in els_of(data):
            crc = crc ^ (b << 8)
            for _ in range(8):
                crc = ite(c_bool(crc & 0x8000), ((crc << 1) ^ 0x1021) & 0xFFFF, (crc << 1) & 0xFFFF)
        return crc

    m.crc_hqx = lambda d, c: crc_hqx(d, c) if isinstance(d, Seq) or isinstance(c, SInt) else _binascii.crc_hqx(d, c)
    return m


class SHash:
    """Uninterpreted hash without collisions: digests are equal exactly if the inputs are."""

    SIZES = {"sha1": 20, "md5": 16, "sha256": 32, "sha224": 28, "sha384": 48, "sha512": 64}

    def __init__(self, name, data=b""):
        self.name = name
        self.digest_size = self.SIZES[name]
        self.els = []
        self.update(data)

    def update(self, data):
        els = els_of(data)
        if els is None or isinstance(data, (str, SStr)):
            raise TypeError("Strings must be encoded before hashing")
        self.els.extend(els)

    def copy(self):
        h = SHash(self.name)
        h.els = list(self.els)
        return h

    def digest(self):
        n = 8 * self.digest_size
        if seq.all_concrete(self.els):
            r = _hashlib.new(self.name, bytes(self.els), usedforsecurity=False).digest()
            if self.els and core.ENG is not None:
                self._distinct(z3.BitVecVal(int.from_bytes(bytes(self.els), "big"), 8 * len(self.els)), z3.BitVecVal(int.from_bytes(r, "big"), n))
            return r
        arg = z3.simplify(z3.Concat(*[core.ext(e, 8) for e in self.els]) if len(self.els) > 1 else core.ext(self.els[0], 8))
        # one unconstrained value per distinct input term
        memo = core.ENG.tables
        key = (self.name, arg.get_id())
        if key not in memo:
            memo[key] = (z3.BitVec(f"!{self.name}.{len(memo)}", n), arg)
        d = memo[key][0]
        self._distinct(arg, d)
        core.ENG.flag("uninterpreted hash")
        return mkbytes([mkint(z3.Extract(8 * i + 7, 8 * i, d), 0, 255) for i in reversed(range(self.digest_size))])

    def _distinct(self, arg, d):
        seen = core.ENG.caches.setdefault("!hash", [])
        if any(n == self.name and z3.eq(a, arg) for n, a, _ in seen):
            return
        for n, a, e in seen:
            if n != self.name or z3.is_bv_value(d) and z3.is_bv_value(e):
                continue
            if a.size() == arg.size():
                core.ENG.assume((a == arg) == (d == e))
            else:
                core.ENG.assume(d != e)
        seen.append((self.name, arg, d))

    def hexdigest(self):
        d = self.digest()
        return d.hex()


def make_hashlib():
    m = types.ModuleType("hashlib")
    for k in dir(_hashlib):
        if not k.startswith("__"):
            setattr(m, k, getattr(_hashlib, k))
    for n in SHash.SIZES:
        setattr(m, n, (lambda n: lambda data=b"", **k: SHash(n, data))(n))
    m.new = lambda n, data=b"", **k: SHash(n, data)
    return m


class JsonText:
    """Text made by json.dumps from a structure with symbolic values; only reading it back is supported."""

    __slots__ = ("tree",)

    def __init__(self, tree):
        self.tree = tree


def json_tree(o, default, busy=(), depth=0):
    """The structure that json.loads returns for the text of o, and whether it has symbolic values."""
    if o is None or isinstance(o, (bool, int, float, str)):
        return (int(o) if isinstance(o, int) and not isinstance(o, bool) else str(o) if isinstance(o, str) else o), False
    if isinstance(o, (SInt, SBool, SStr)):
        return o, True
    if isinstance(o, (SDy, SFBits)):
        raise Unsupported("json of symbolic floats")
    if depth > 200:
        raise RecursionError("maximum recursion depth exceeded")
    if id(o) in busy:
        raise ValueError("Circular reference detected")
    busy = busy + (id(o),)
    if isinstance(o, dict):
        out, sym = {}, False
        for k, v in o.items():
            if isinstance(k, (SInt, SBool, SStr)):
                raise Unsupported("json of symbolic keys")
            if not (k is None or isinstance(k, (str, int, float))):
                raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
            v, s = json_tree(v, default, busy, depth + 1)
            out[next(iter(_json.loads(_json.dumps({k: 0}))))] = v
            sym = sym or s
        return out, sym
    if isinstance(o, (list, tuple)):
        r = [json_tree(v, default, busy, depth + 1) for v in o]
        return [v for v, _ in r], any(s for _, s in r)
    if default is None:
        raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")
    return json_tree(default(o), default, busy, depth + 1)


def make_json():
    m = types.ModuleType("json")
    for k in dir(_json):
        if not k.startswith("__"):
            setattr(m, k, getattr(_json, k))

    def dumps(o, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None, default=None, sort_keys=False):
        if cls is not None:
            e = cls(default=default)
            default = e.default
        if skipkeys:
            raise Unsupported("json.dumps(skipkeys)")
        tree, sym = json_tree(o, default)
        if sort_keys:
            keys_comparable(o)
        if sym:
            return JsonText(tree)
        return _json.dumps(tree, ensure_ascii=ensure_ascii, allow_nan=allow_nan, indent=indent, separators=separators, sort_keys=sort_keys)

    def keys_comparable(o):
        if isinstance(o, dict):
            sorted(o)
            for v in o.values():
                keys_comparable(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                keys_comparable(v)

    def loads(s, **k):
        if isinstance(s, JsonText):
            return s.tree
        if isinstance(s, (SStr, SBytes)):
            raise Unsupported("json.loads of symbolic text")
        return _json.loads(s, **k)

    m.dumps, m.loads = dumps, loads
    return m


def make_math():
    m = types.ModuleType("math")
    for k in dir(_math):
        if not k.startswith("__"):
            setattr(m, k, getattr(_math, k))

    def ceil(x):
        return x.__ceil__() if isinstance(x, (SInt, SDy)) else _math.ceil(x)

    def floor(x):
        return x.__floor__() if isinstance(x, (SInt, SDy)) else _math.floor(x)

    def trunc(x):
        return x.__trunc__() if isinstance(x, (SInt, SDy)) else _math.trunc(x)

    m.ceil, m.floor, m.trunc = ceil, floor, trunc

    def wrap(f):
        def g(*a):
            if any(isinstance(x, SYMT) for x in a):
                return LogTerm.make(f, a)
            return f(*a)

        return g

    for n in ("log", "log2", "log10", "sqrt", "pow", "exp", "log1p"):
        setattr(m, n, wrap(getattr(_math, n)))
    m.isqrt = lambda x: _math.isqrt(concretise(x))
    m.gcd = lambda *a: _math.gcd(*[concretise(x) for x in a])
    return m


class LogTerm:
    """A strictly monotone real function of one symbolic integer, seen only through rounding/comparison."""

    def __init__(self, fn, x):
        self.fn = fn
        self.x = x

    @staticmethod
    def make(f, a):
        if len(a) >= 1 and isinstance(a[0], SInt) and all(not isinstance(b, SYMT) for b in a[1:]) and f in (_math.log, _math.log2, _math.log10, _math.sqrt):
            x = a[0]
            if not bool(x > 0):
                return f(concretise(x), *a[1:])
            return LogTerm(lambda v: f(v, *a[1:]), x)
        raise Unsupported(f"math.{f.__name__}")

    def _map(self, g):
        return LogTerm(lambda v, h=self.fn: g(h(v)), self.x)

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o > 0:
            return self._map(lambda r: r / o)
        raise Unsupported("log")

    def __add__(self, o):
        if isinstance(o, (int, float)):
            return self._map(lambda r: r + o)
        raise Unsupported("log")

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, (int, float)) and o > 0:
            return self._map(lambda r: r * o)
        raise Unsupported("log")

    __rmul__ = __mul__

    def _steps(self, g):
        """The integer step function g(fn(x)) as an ite chain over thresholds found by bisection."""
        lo, hi = max(1, self.x.lo), self.x.hi
        f = lambda v: g(self.fn(v))  # noqa: E731
        r = f(lo)
        pieces = []
        cur = lo
        while f(hi) != f(cur):
            a, b = cur, hi
            base = f(cur)
            while b - a > 1:
                m = (a + b) // 2
                if f(m) == base:
                    a = m
                else:
                    b = m
            pieces.append((b, f(b)))
            cur = b
            if len(pieces) > 300:
                raise Unsupported("log steps")
        res = r
        for b, v in pieces:
            res = ite(self.x >= b, v, res)
        return res

    def __ceil__(self):
        return self._steps(_math.ceil)

    def __floor__(self):
        return self._steps(_math.floor)

    def __trunc__(self):
        return self._steps(_math.trunc)

    def __int__(self):
        return self._steps(_math.trunc)

    def __lt__(self, o):
        return c_bool(self._steps(lambda r: int(r < o)) == 1)

    def __le__(self, o):
        return c_bool(self._steps(lambda r: int(r <= o)) == 1)

    def __gt__(self, o):
        return c_bool(self._steps(lambda r: int(r > o)) == 1)

    def __ge__(self, o):
        return c_bool(self._steps(lambda r: int(r >= o)) == 1)


def _ceil_log():
    pass


_ci = c_int


def c_int2(x=0, base=_MISSING):
    if isinstance(x, LogTerm):
        return x.__trunc__()
    return _ci(x, base)


INT.__dict__["_call"] = c_int2


def make_operator():
    import operator as op

    m = types.ModuleType("operator")
    for k in dir(op):
        if not k.startswith("__"):
            setattr(m, k, getattr(op, k))
    m.mod = fmt.sx_mod
    m.contains = lambda a, b: _rt().contains(b, a)
    m.not_ = lambda a: _rt().not_(a)
    m.truth = c_bool
    m.getitem = lambda a, i: _rt().getitem(a, i)
    m.index = lambda a: num(a) if num(a) is not None else op.index(a)
    return m


def _rt():
    from symx import instrument

    return instrument.RT


def make_math_ceil():
    pass


def make_codecs():
    import codecs

    m = types.ModuleType("codecs")
    for k in dir(codecs):
        if not k.startswith("__"):
            setattr(m, k, getattr(codecs, k))

    def decode(obj, encoding="utf-8", errors="strict"):
        if not isinstance(obj, SYMT):
            return codecs.decode(obj, encoding, errors)
        if encoding in ("hex", "hex_codec"):
            return mkbytes(seq.bytes_fromhex(obj))
        return obj.decode(encoding, errors)

    def encode(obj, encoding="utf-8", errors="strict"):
        if not isinstance(obj, SYMT):
            return codecs.encode(obj, encoding, errors)
        if encoding in ("hex", "hex_codec"):
            return seq.encode(seq.hexlify(list(els_of(obj))), "ascii")
        return seq.encode(obj, encoding, errors)

    m.decode, m.encode = decode, encode
    return m


def make_copy():
    return _copy


class NullLogger:
    def __init__(self, *a, **k):
        self.messages = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


def make_logger_module():
    m = types.ModuleType("objutils.logger")
    m.Logger = NullLogger
    return m


# ------------------------------------------------------------------ xml.etree.ElementTree
class SElement:
    def __init__(self, tag, attrib):
        self.tag, self.attrib = tag, attrib
        self.text = self.tail = None
        self.kids = []

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)

    def __getitem__(self, i):
        return self.kids[i]

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def find(self, tag):
        return next((k for k in self.kids if k.tag == tag), None)

    def findall(self, tag):
        return [k for k in self.kids if k.tag == tag]

    def iter(self, tag=None):
        if tag is None or tag == "*" or self.tag == tag:
            yield self
        for k in self.kids:
            yield from k.iter(tag)


class XmlParser:
    """Elements, attributes, character data, comments and processing instructions; markup itself is concrete.

    Raises the real parser's ParseError for malformed documents."""

    WS = (32, 9, 10, 13)

    def __init__(self, els):
        self.e = els
        self.p = 0

    def at(self, s):
        if self.p + len(s) > len(self.e):
            return False
        return all(bool(self.e[self.p + i] == ord(c)) for i, c in enumerate(s))

    def bad(self, what):
        import xml.etree.ElementTree as ET

        raise ET.ParseError(what)

    def ws(self):
        n = self.p
        while self.p < len(self.e) and bool(seq.el_in(self.e[self.p], frozenset(self.WS))):
            self.p += 1
        return self.p > n

    def skip_to(self, s):
        while self.p < len(self.e):
            if self.at(s):
                self.p += len(s)
                return
            self.p += 1
        self.bad("unclosed token")

    def name(self):
        out = []
        while self.p < len(self.e):
            c = self.e[self.p]
            if c.__class__ is not int:
                raise Unsupported("symbolic XML markup")
            if not (chr(c).isalnum() or chr(c) in "_-.:"):
                break
            out.append(chr(c))
            self.p += 1
        if not out or not (out[0].isalpha() or out[0] in "_:"):
            self.bad("not well-formed (invalid token)")
        return "".join(out)

    def ck(self, c):
        """A character of text or of an attribute value."""
        if bool(c == 38):
            raise Unsupported("XML entity")
        if bool(c < 32) and not bool(seq.el_in(c, frozenset((9, 10, 13)))):
            self.bad("not well-formed (invalid token)")
        if bool(c > 126):
            raise Unsupported("non-ASCII XML text")

    def misc(self):
        while True:
            self.ws()
            if self.at("<!--"):
                self.skip_to("-->")
            elif self.at("<?"):
                self.skip_to("?>")
            elif self.at("<!"):
                raise Unsupported("DTD")
            else:
                return

    def document(self):
        if self.at("<?xml"):
            self.skip_to("?>")
        self.misc()
        if not self.at("<"):
            self.bad("syntax error" if self.p < len(self.e) else "no element found")
        root = self.element()
        self.misc()
        if self.p != len(self.e):
            self.bad("junk after document element")
        return root

    def element(self):
        self.p += 1
        el = SElement(self.name(), {})
        while True:
            sp = self.ws()
            if self.p >= len(self.e):
                self.bad("unclosed token")
            if self.at("/>"):
                self.p += 2
                return el
            if self.at(">"):
                self.p += 1
                break
            if not sp:
                self.bad("not well-formed (invalid token)")
            k = self.name()
            self.ws()
            if not self.at("="):
                self.bad("not well-formed (invalid token)")
            self.p += 1
            self.ws()
            q = 34 if self.at('"') else 39 if self.at("'") else self.bad("not well-formed (invalid token)")
            self.p += 1
            val = []
            while True:
                if self.p >= len(self.e):
                    self.bad("unclosed token")
                c = self.e[self.p]
                self.p += 1
                if bool(c == q):
                    break
                if bool(c == 60):
                    self.bad("not well-formed (invalid token)")
                self.ck(c)
                val.append(ite(seq.el_in(c, frozenset((9, 10, 13))), 32, c) if c.__class__ is not int or c in (9, 10, 13) else c)
            if k in el.attrib:
                self.bad("duplicate attribute")
            el.attrib[k] = mkstr(val)
        buf, last = [], None

        def flush():
            if buf:
                if last is None:
                    el.text = mkstr(list(buf))
                else:
                    last.tail = mkstr(list(buf))
                buf.clear()

        while True:
            if self.p >= len(self.e):
                self.bad("no element found")
            if self.at("<"):
                if self.at("<!--"):
                    self.skip_to("-->")
                    continue
                if self.at("<?"):
                    self.skip_to("?>")
                    continue
                if self.at("<!"):
                    raise Unsupported("CDATA")
                flush()
                if self.at("</"):
                    self.p += 2
                    if self.name() != el.tag:
                        self.bad("mismatched tag")
                    self.ws()
                    if not self.at(">"):
                        self.bad("not well-formed (invalid token)")
                    self.p += 1
                    return el
                last = self.element()
                el.kids.append(last)
                continue
            c = self.e[self.p]
            self.ck(c)
            self.p += 1
            if bool(c == 13):  # line end normalisation
                if self.p < len(self.e) and bool(self.e[self.p] == 10):
                    self.p += 1
                c = 10
            buf.append(c)


def make_etree():
    import xml.etree.ElementTree as ET

    m = types.ModuleType("xml.etree.ElementTree")
    m.ParseError = ET.ParseError

    def fromstring(text, parser=None):
        els = els_of(text)
        if not len(els):
            raise ET.ParseError("no element found")
        return XmlParser(list(els)).document()

    m.fromstring = m.XML = fromstring
    return m


_orig_ceil = None
for _t, _s in ((int, INT), (bool, BOOL), (float, FLOAT), (str, STR), (bytes, BYTES), (bytearray, BYTEARRAY), (memoryview, MEMORYVIEW), (range, RANGE), (type, TYPE)):
    SHIMS[_t] = _s


def table():
    """Overrides for the __builtins__ of instrumented modules."""
    return dict(
        int=INT, bool=BOOL, float=FLOAT, str=STR, bytes=BYTES, bytearray=BYTEARRAY, memoryview=MEMORYVIEW, range=RANGE,
        type=TYPE, isinstance=sx_isinstance, issubclass=sx_issubclass, ord=sx_ord, chr=sx_chr, hex=sx_hex, bin=sx_bin,
        oct=sx_oct, min=sx_min, max=sx_max, any=sx_any_lazy, all=lambda it: _all_lazy(it), round=sx_round, sum=sx_sum,
        print=sx_print, open=sx_open, format=sx_format, repr=sx_repr,
    )


def _all_lazy(it):
    """all(): merge verdicts as long as they are symbolic; items after a concrete False are not evaluated."""
    for x in it:
        if not x:
            return False
    return True


# ---------------------------------------------------------------------------------------------------- construct
def construct_bits(m):
    """construct's table lookups between bytes and bit strings, as bit arithmetic for symbolic bytes."""
    to_bits, to_bytes = m.bytes2bits, m.bits2bytes

    def bytes2bits(data):
        els = els_of(data)
        if els is None or seq.all_concrete(els):
            return to_bits(data)
        return mkbytes([(b >> (7 - i)) & 1 for b in els for i in range(8)])

    def bits2bytes(data):
        els = els_of(data)
        if els is None or seq.all_concrete(els):
            return to_bytes(data)
        if len(els) % 8:
            raise ValueError(f"data length {len(els)} must be a multiple of 8")
        out = []
        for k in range(0, len(els), 8):
            v = 0
            for b in els[k : k + 8]:
                if not bool(b_or(b == 0, b == 1)):
                    raise KeyError(bytes(8))
                v = v * 2 + b
            out.append(v)
        return mkbytes(out)

    m.bytes2bits = bytes2bits
    m.bits2bytes = bits2bytes


# ---------------------------------------------------------------------------------------------------- enumerations
def _enum_call():
    """Enum(value) with a symbolic number: fork over the members, or run the class's _missing_ hook."""
    import enum

    orig = enum.EnumType.__call__
    if getattr(orig, "_symx", False):
        return

    def call(cls, *args, **kw):
        value = args[0] if len(args) == 1 and not kw else None
        if value.__class__ is SInt:
            members = sorted(v for v in cls._value2member_map_ if isinstance(v, int))
            if members and not issubclass(cls, enum.Flag):
                if bool(b_or(*[value == m for m in members])):
                    return orig(cls, core.concretise(value, len(members)))
                r = cls._missing_(value)
                if isinstance(r, cls):
                    return r
                if r is None:
                    raise ValueError(f"not a valid {cls.__qualname__}")
                raise TypeError(f"error in {cls.__name__}._missing_: returned {type(r).__name__} instead of None or a valid member")
        return orig(cls, *args, **kw)

    call._symx = True
    enum.EnumType.__call__ = call


_enum_call()
