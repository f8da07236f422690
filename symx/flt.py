"""The few floating point shapes the code under test uses.

SDy    -- n / 2**k, exact as an IEEE double while |n| < 2**53
SFBits -- a float32/float64 known only by its bit pattern (struct 'f'/'d')
"""

import math

import z3

from symx import core
from symx.core import SInt, Unsupported, b_and, b_not, b_or, ite, num


class SDy:
    __slots__ = ("n", "k")

    def __init__(self, n, k):
        self.n = n
        self.k = k

    def __bool__(self):
        return bool(self.n != 0)

    def _pair(self, o):
        if isinstance(o, SDy):
            k = max(self.k, o.k)
            return self.n << (k - self.k), o.n << (k - o.k), k
        if isinstance(o, float):
            if not math.isfinite(o):
                return None
            a, b = o.as_integer_ratio()
            return self._pair(SDy(a, b.bit_length() - 1))
        o = num(o)
        if o is None:
            return None
        return self.n, o << self.k, self.k

    def _mk(self, n, k):
        if isinstance(n, SInt) and max(abs(n.lo), abs(n.hi)) >= 1 << 53:
            raise Unsupported("float precision")
        if isinstance(n, int):
            return n / (1 << k)
        return SDy(n, k)

    def __add__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else self._mk(p[0] + p[1], p[2])

    __radd__ = __add__

    def __sub__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else self._mk(p[0] - p[1], p[2])

    def __rsub__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else self._mk(p[1] - p[0], p[2])

    def __mul__(self, o):
        if isinstance(o, SDy):
            return self._mk(self.n * o.n, self.k + o.k)
        if isinstance(o, float):
            a, b = o.as_integer_ratio()
            return self._mk(self.n * a, self.k + b.bit_length() - 1)
        return self._mk(self.n * o, self.k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self._mk(self.n, self.k + o.bit_length() - 1)
        raise Unsupported("float division")

    def __neg__(self):
        return SDy(-self.n, self.k)

    def __abs__(self):
        return SDy(abs(self.n), self.k)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return SDy(self.n >> (self.k + o.bit_length() - 1), 0)
        raise Unsupported("float floordiv")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return self._mk(self.n % (o << self.k), self.k)
        raise Unsupported("float mod")

    def __eq__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] == p[1]

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __lt__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] < p[1]

    def __le__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] <= p[1]

    def __gt__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] > p[1]

    def __ge__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] >= p[1]

    def __hash__(self):
        return hash(float(self))

    def __float__(self):
        return core.concretise(self.n) / (1 << self.k)

    def trunc(self):
        n = self.n
        if isinstance(n, int):
            return int(n / (1 << self.k))
        if n.lo >= 0:
            return n >> self.k
        return ite(n >= 0, n >> self.k, -((-n) >> self.k))

    __trunc__ = trunc
    __int__ = lambda self: core.concretise(self.trunc())  # noqa: E731

    def __floor__(self):
        return self.n >> self.k

    def __ceil__(self):
        return -((-self.n) >> self.k)

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round")
        two = self.n * 2 + (1 << self.k)
        q = two >> (self.k + 1)
        tie = (two & ((1 << (self.k + 1)) - 1)) == 0
        return ite(b_and(tie, (q & 1) == 1), q - 1, q)

    def is_integer(self):
        return (self.n & ((1 << self.k) - 1)) == 0


def truediv(a, b):
    if isinstance(a, (SDy, float)) or isinstance(b, (SDy, float)):
        if isinstance(a, SDy):
            return a / b
        raise Unsupported("float division")
    a, b = num(a), num(b)
    if a is None or b is None:
        return NotImplemented
    if isinstance(b, SInt):
        b = core.concretise(b)
    if b == 0:
        raise ZeroDivisionError("division by zero")
    if isinstance(a, int):
        return a / b
    if b > 0 and b & (b - 1) == 0:
        if max(abs(a.lo), abs(a.hi)) >= 1 << 53:
            # doubles round; split off the exact range
            if bool(b_and(a < (1 << 53), a > -(1 << 53))):
                a = SInt(core.low(a, 54), -(1 << 53), (1 << 53) - 1)
            else:
                return core.concretise(a) / b
        return SDy(a, b.bit_length() - 1)
    return core.concretise(a) / b


class SFBits:
    """float with symbolic bit pattern (size 4 or 8), excluding NaN canonicalisation issues (assumed away by harnesses)."""

    __slots__ = ("bits", "size")

    def __init__(self, bits, size):
        self.bits = bits
        self.size = size

    def _zero(self):
        m = (1 << (self.size * 8 - 1)) - 1
        return (self.bits & m) == 0

    def _nan(self):
        if self.size == 4:
            return (self.bits & 0x7FFFFFFF) > 0x7F800000
        return (self.bits & 0x7FFFFFFFFFFFFFFF) > 0x7FF0000000000000

    def __eq__(self, o):
        if isinstance(o, SFBits):
            if o.size != self.size:
                raise Unsupported("float size mix")
            return b_and(
                b_not(self._nan()),
                b_not(o._nan()),
                b_or(self.bits == o.bits, b_and(self._zero(), o._zero())),
            )
        if isinstance(o, (float, int)):
            import struct

            f, g = ("<f", "<I") if self.size == 4 else ("<d", "<Q")
            try:
                p = struct.pack(f, o)
            except OverflowError:
                return False
            if struct.unpack(f, p)[0] != o:
                return False
            return self == SFBits(struct.unpack(g, p)[0], self.size)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __bool__(self):
        return not bool(self._zero())

    def __hash__(self):
        return hash(self.__float__())

    def __float__(self):
        import struct

        b = core.concretise(self.bits)
        f, g = ("<f", "<I") if self.size == 4 else ("<d", "<Q")
        return struct.unpack(f, struct.pack(g, b))[0]


def log_thresholds(x, base):
    raise Unsupported("math.log of a symbolic integer")
