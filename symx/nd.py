"""Stand-in for numpy: strided views on byte buffers, as far as reading and writing arrays needs them."""

import types

from symx import core, seq
from symx.core import Unsupported
from symx.models import MemView, make_struct
from symx.seq import SByteArray, els_of, mkbytes

KINDS = {"int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "q", "uint64": "Q", "float32": "f", "float64": "d"}
SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "q": 8, "Q": 8, "f": 4, "d": 8}
SHORT = {"i1": "int8", "u1": "uint8", "i2": "int16", "u2": "uint16", "i4": "int32", "u4": "uint32", "i8": "int64", "u8": "uint64", "f4": "float32", "f8": "float64", "byte": "int8", "ubyte": "uint8", "int": "int64", "float": "float64", "b": "int8", "B": "uint8", "h": "int16", "H": "uint16", "i": "int32", "I": "uint32", "q": "int64", "Q": "uint64", "f": "float32", "d": "float64", "short": "int16", "ushort": "uint16", "intc": "int32", "uintc": "uint32", "single": "float32", "double": "float64"}
ORDERS = {"<": "<", ">": ">", "=": "<", "|": "|", "little": "<", "big": ">", "native": "<", "l": "<", "L": "<", "b": ">", "B": ">", "n": "<", "N": "<", "i": "|", "I": "|", "ignore": "|"}
STRUCT = make_struct()


class dtype:
    def __init__(self, spec="float64"):
        order = "<"
        if isinstance(spec, dtype):
            self.name, self.order = spec.name, spec.order
        elif isinstance(spec, str):
            if spec[:1] in "<>=|":
                order, spec = ORDERS[spec[0]], spec[1:]
            name = spec if spec in KINDS else SHORT.get(spec)
            if name is None:
                raise TypeError(f"data type {spec!r} not understood")
            self.name, self.order = name, order
        elif spec in (int, float):
            self.name, self.order = ("int64" if spec is int else "float64"), "<"
        else:
            raise Unsupported("dtype")
        self.char = KINDS[self.name]
        self.kind = {"f": "f", "d": "f"}.get(self.char, "u" if self.char.isupper() else "i")
        self.itemsize = SIZES[self.char]
        if self.itemsize == 1:
            self.order = "|"
        elif self.order == "|":
            self.order = "<"

    def newbyteorder(self, o="S"):
        if not isinstance(o, str):
            raise TypeError(f"byteorder must be str, not {type(o).__name__}")
        d = dtype(self)
        if self.itemsize > 1:
            if o in ("S", "s", "swap"):
                d.order = "<" if self.order == ">" else ">"
            elif o in ORDERS:
                d.order = self.order if ORDERS[o] == "|" else ORDERS[o]
            else:
                raise ValueError(f"{o} is an unrecognized byteorder")
        return d

    @property
    def byteorder(self):
        return "=" if self.order == "<" else self.order

    @property
    def str(self):
        return self.order + self.kind + repr(self.itemsize)

    @property
    def isnative(self):
        return self.order != ">"

    def __eq__(self, o):
        o = o if isinstance(o, dtype) else dtype(o)
        return self.str == o.str

    def __hash__(self):
        return hash(self.str)

    def __repr__(self):
        return f"dtype({self.str!r})"

    def __call__(self, v):
        return array([v], self)[0]


def count(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def contiguous(shape, size, order="C"):
    st, n = [], size
    for s in shape[::-1] if order == "C" else shape:
        st.append(n)
        n *= s
    return tuple(st[::-1] if order == "C" else st)


def as_shape(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(seq.conc(s) for s in shape)
    return (seq.conc(shape),)


def order_of(o):
    if o is None:
        return None
    if not isinstance(o, str):
        raise TypeError("order must be str")
    if o[:1].upper() not in ("C", "F", "A", "K"):
        raise ValueError("order must be one of 'C', 'F', 'A', or 'K'")
    return o[0].upper()


class Flags(types.SimpleNamespace):
    def __getitem__(self, n):
        return getattr(self, {"C": "c_contiguous", "F": "f_contiguous", "W": "writeable"}.get(n, n.lower()))


class ndarray:
    def __init__(self, buf, off, dt, shape, strides, writeable=True):
        self.buf, self.off, self.dtype, self._shape, self.strides, self.writeable = buf, off, dt, tuple(shape), tuple(strides), writeable

    # attributes
    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        if r.buf is not self.buf:
            raise AttributeError("incompatible shape for in-place modification")
        self._shape, self.strides = r._shape, r.strides

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return count(self._shape)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def T(self):
        return ndarray(self.buf, self.off, self.dtype, self._shape[::-1], self.strides[::-1], self.writeable)

    @property
    def flags(self):
        c, f = self.is_contiguous("C"), self.is_contiguous("F")
        return Flags(c_contiguous=c, f_contiguous=f, contiguous=c, forc=c or f, fnc=f and not c, writeable=self.writeable)

    @property
    def data(self):
        if not self.is_contiguous("C"):
            raise Unsupported("data of a strided array")
        return MemView(self.buf, self.off, self.off + self.nbytes) if not isinstance(self.buf, (bytes, bytearray)) else memoryview(self.buf)[self.off : self.off + self.nbytes]

    def is_contiguous(self, order):
        want = contiguous(self._shape, self.itemsize, order)
        return self.size == 0 or all(s == 1 or a == b for s, a, b in zip(self._shape, self.strides, want))

    # elements
    def axes(self, order):
        """Axes from the slowest to the fastest one."""
        r = list(range(self.ndim))
        if order == "K" or order == "A" and self.is_contiguous("F") and not self.is_contiguous("C"):
            return sorted(r, key=lambda k: -abs(self.strides[k])) if order == "K" else r[::-1]
        return r[::-1] if order == "F" else r

    def offsets(self, order="C"):
        idx = [self.off]
        for k in self.axes(order):
            idx = [i + self.strides[k] * j for i in idx for j in range(self._shape[k])]
        return idx

    def raw(self, o):
        return list(els_of(self.buf)[o : o + self.itemsize])

    def item_at(self, o):
        fmt = ("<" if self.dtype.order == "|" else self.dtype.order) + self.dtype.char
        return STRUCT.unpack(fmt, mkbytes(self.raw(o)))[0]

    def store(self, o, v):
        if not self.writeable:
            raise ValueError("assignment destination is read-only")
        els = els_of(encode(v, self.dtype))
        if isinstance(self.buf, SByteArray):
            self.buf.els[o : o + self.itemsize] = list(els)
        elif isinstance(self.buf, MemView):
            self.buf[o : o + self.itemsize] = mkbytes(list(els))
        else:
            raise Unsupported("store")

    def tobytes(self, order="C"):
        order = order_of(order)
        out = []
        for o in self.offsets("C" if order in (None, "K") else order):
            out += self.raw(o)
        return mkbytes(out)

    def tolist(self):
        def level(k, off):
            if k == self.ndim:
                return self.item_at(off)
            return [level(k + 1, off + self.strides[k] * j) for j in range(self._shape[k])]

        return level(0, self.off)

    def item(self, *i):
        if not i and self.size == 1:
            return self.item_at(self.offsets()[0])
        raise Unsupported("item")

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return self._shape[0]

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def locate(self, i):
        i = i if isinstance(i, tuple) else (i,)
        off, shape, strides = self.off, [], []
        if len(i) > self.ndim:
            raise IndexError("too many indices for array")
        for k, j in enumerate(i):
            n = self._shape[k]
            if isinstance(j, slice):
                s, e, st = seq.cslice(j, n).indices(n)
                off += s * self.strides[k]
                shape.append(len(range(s, e, st)))
                strides.append(st * self.strides[k])
                continue
            if j is None or j is Ellipsis:
                raise Unsupported("index")
            j = seq.conc(j)
            if not -n <= j < n:
                raise IndexError(f"index {j} is out of bounds for axis {k} with size {n}")
            off += (j % n) * self.strides[k]
        return ndarray(self.buf, off, self.dtype, shape + list(self._shape[len(i) :]), strides + list(self.strides[len(i) :]), self.writeable)

    def __getitem__(self, i):
        r = self.locate(i)
        return r if r._shape else r.item_at(r.off)

    def __setitem__(self, i, v):
        r = self.locate(i)
        vals = v.flatten().tolist() if isinstance(v, ndarray) else list(v) if isinstance(v, (list, tuple)) else [v] * r.size
        if len(vals) != r.size:
            raise Unsupported("broadcast")
        for o, e in zip(r.offsets(), vals):
            r.store(o, e)

    # conversions
    def reshape(self, *shape, order="C", copy=None):
        if len(shape) == 1:
            shape = shape[0]
        if shape is None:
            return ndarray(self.buf, self.off, self.dtype, self._shape, self.strides, self.writeable)
        shape = list(as_shape(shape))
        order = order_of(order) or "C"
        if order == "K":
            raise ValueError("order 'K' is not permitted for reshaping")
        if order == "A":
            order = "F" if self.is_contiguous("F") and not self.is_contiguous("C") else "C"
        if shape.count(-1) > 1:
            raise ValueError("can only specify one unknown dimension")
        if -1 in shape:
            rest = count(s for s in shape if s != -1)
            if rest == 0 or self.size % rest:
                raise ValueError(f"cannot reshape array of size {self.size} into shape {tuple(shape)}")
            shape[shape.index(-1)] = self.size // rest
        if count(shape) != self.size or any(s < 0 for s in shape):
            raise ValueError(f"cannot reshape array of size {self.size} into shape {tuple(shape)}")
        if self.is_contiguous(order):
            return ndarray(self.buf, self.off, self.dtype, shape, contiguous(shape, self.itemsize, order), self.writeable)
        return build([self.raw(o) for o in self.offsets(order)], self.dtype, shape, order)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            return self.T
        return ndarray(self.buf, self.off, self.dtype, [self._shape[a] for a in axes], [self.strides[a] for a in axes], self.writeable)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def copy(self, order="C"):
        return self.rebuilt(order_of(order) or "K", self.dtype, self.raw)

    def rebuilt(self, order, dt, f):
        """A new array with the elements f(offset), laid out in the given order."""
        perm = self.axes(order)
        out = build([f(o) for o in self.offsets(order)], dt, [self._shape[k] for k in perm])
        return out.transpose([perm.index(k) for k in range(self.ndim)])

    def flatten(self, order="C"):
        return build([self.raw(o) for o in self.offsets(order_of(order) or "C")], self.dtype, (self.size,))

    def ravel(self, order="C"):
        order = order_of(order) or "C"
        return self.reshape(self.size) if order == "C" else self.flatten(order)

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = dtype(dt)
        order = order_of(order) or "K"
        if dt == self.dtype and not copy:
            return self

        def conv(o):
            raw = self.raw(o)
            if dt.name == self.dtype.name:
                return raw if dt == self.dtype else raw[::-1]
            if dt.kind == "f" or self.dtype.kind == "f":
                raise Unsupported("astype between floats and integers")
            v = self.item_at(o) & ((1 << (8 * dt.itemsize)) - 1)
            return list(els_of(STRUCT.pack(("<" if dt.order == "|" else dt.order) + dt.char.upper(), v)))

        return self.rebuilt(order, dt, conv)

    def byteswap(self, inplace=False):
        if inplace:
            raise Unsupported("byteswap in place")
        return self.rebuilt("K", self.dtype, lambda o: self.raw(o)[::-1])

    def view(self, dt=None):
        if dt is None:
            return self.reshape(None)
        dt = dtype(dt)
        if dt.itemsize == self.itemsize:
            return ndarray(self.buf, self.off, dt, self._shape, self.strides, self.writeable)
        if not self.is_contiguous("C") or self.ndim != 1 or self.nbytes % dt.itemsize:
            raise Unsupported("view")
        return ndarray(self.buf, self.off, dt, (self.nbytes // dt.itemsize,), (dt.itemsize,), self.writeable)

    def setflags(self, write=None, **kw):
        if write is not None:
            self.writeable = bool(write)

    def _sx_bytes(self):
        return list(els_of(self.tobytes()))

    def __bytes__(self):
        return bytes(self.tobytes())

    def __eq__(self, o):
        raise Unsupported("comparison of arrays")

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_sx"):
            raise AttributeError(n)
        raise Unsupported("numpy.ndarray." + n)


def encode(v, dt):
    if dt.kind != "f":
        n = 8 * dt.itemsize
        lo, hi = (0, (1 << n) - 1) if dt.kind == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        if not lo <= v <= hi:
            raise OverflowError(f"Python integer out of bounds for {dt.name}")
    return STRUCT.pack(("<" if dt.order == "|" else dt.order) + dt.char, v)


def build(raws, dt, shape, order="C"):
    els = []
    for r in raws:
        els += r
    return ndarray(SByteArray(els), 0, dt, shape, contiguous(tuple(shape), dt.itemsize, order))


def array(obj, dtype_=None, copy=True, order="K", **kw):
    dt = kw.pop("dtype", dtype_)
    if kw:
        raise Unsupported("numpy.array")
    if isinstance(obj, ndarray):
        return obj.astype(obj.dtype if dt is None else dt, order=order)
    if dt is None:
        raise Unsupported("numpy.array without a type")
    dt = dtype(dt)
    shape, flat = [], obj
    level = obj
    while isinstance(level, (list, tuple)):
        shape.append(len(level))
        if not level:
            break
        level = level[0]

    def walk(o, k):
        if k == len(shape):
            return [o]
        if len(o) != shape[k]:
            raise ValueError("setting an array element with a sequence.")
        out = []
        for e in o:
            out += walk(e, k + 1)
        return out

    flat = walk(obj, 0)
    r = build([list(els_of(encode(v, dt))) for v in flat], dt, shape)
    return r.copy("F") if order_of(order) == "F" else r


def frombuffer(buffer, dtype_=float, count=-1, offset=0, **kw):
    dt = dtype(kw.pop("dtype", dtype_))
    if isinstance(buffer, ndarray):
        buffer = buffer.data
    els = els_of(buffer)
    if els is None or isinstance(buffer, str):
        raise TypeError("a bytes-like object is required")
    count, offset = seq.conc(count), seq.conc(offset)
    n = len(els)
    if offset < 0 or offset > n:
        raise ValueError(f"offset must be non-negative and no greater than buffer length ({n})")
    if count < 0:
        if (n - offset) % dt.itemsize:
            raise ValueError("buffer size must be a multiple of element size")
        count = (n - offset) // dt.itemsize
    elif offset + count * dt.itemsize > n:
        raise ValueError("buffer is smaller than requested size")
    writeable = isinstance(buffer, (bytearray, SByteArray)) or isinstance(buffer, MemView) and not buffer.readonly
    return ndarray(buffer, offset, dt, (count,), (dt.itemsize,), writeable)


def ascontiguousarray(a, dtype=None):
    return a if a.is_contiguous("C") and dtype is None else array(a, dtype, order="C")


def asfortranarray(a, dtype=None):
    return a if a.is_contiguous("F") and dtype is None else array(a, dtype, order="F")


def asarray(a, dtype=None, order=None):
    if isinstance(a, ndarray) and dtype is None and order is None:
        return a
    return array(a, dtype, order=order or "K")


def make_numpy():
    m = types.ModuleType("numpy")
    m.ndarray, m.dtype, m.array, m.frombuffer = ndarray, dtype, array, frombuffer
    m.ascontiguousarray, m.asfortranarray, m.asarray = ascontiguousarray, asfortranarray, asarray
    m.reshape = lambda a, shape, order="C": a.reshape(shape, order=order)
    m.transpose = lambda a, axes=None: a.transpose(axes)
    m.ravel = lambda a, order="C": a.ravel(order)
    m.prod = lambda s: count(as_shape(s))
    m.zeros = lambda shape, dtype_=float, **kw: build([[0] * dtype(kw.get("dtype", dtype_)).itemsize] * count(as_shape(shape)), dtype(kw.get("dtype", dtype_)), as_shape(shape))
    for n in KINDS:
        setattr(m, n, dtype(n))

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy." + name)

    m.__getattr__ = missing
    return m
