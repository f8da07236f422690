"""Arrays of numpy (the stand-in is symx/nd.py; every path is replayed with the real package)."""

from symx.harness import case

TOP = 1 << 32
TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]
SIZE = {t: int(t.lstrip("uintfloa")) // 8 for t in TYPES}


def setup(x, n):
    """A section of n symbolic bytes between two others (not joined), as an image or on its own."""
    ou = x.imp("objutils")
    a = x.int("a", 16, TOP - n - 16)
    d = x.bytes("d", n)
    sec = ou.Section(a, d)
    if x.choice("via", ("section", "image")) == "section":
        return a, d, sec, sec, []
    other = [ou.Section(0, b"\x01\x02\x03"), ou.Section(a + n + 8, b"\x04\x05")]
    img = ou.Image([sec] + other, join=False)
    return a, d, img[1], img, [(img[0], b"\x01\x02\x03"), (img[2], b"\x04\x05")]


def fits(x, a, n, addr, size, section):
    ok = x.all([a <= addr, addr + size <= a + n])
    return ok if section else x.all([ok, addr < a + n])


def frame(x, d, sec, others, want=None):
    x.check(len(sec) == len(d), "length of the section is unchanged")
    x.check(x.eq(list(sec.data), list(d) if want is None else want), "content of the section")
    for s, c in others:
        x.check(bytes(s.data) == c, "other sections are unchanged")


def invalid(x):
    return x.imp("objutils.exceptions").InvalidAddressError


def off_of(x, a, addr, n):
    for o in range(n):
        if x.split(addr == a + o):
            return o
    return None


def value(b, name, order):
    b = list(b) if order == "le" else list(b)[::-1]
    v = 0
    for i, c in enumerate(b):
        v = v + (c << (8 * i))
    return v


def number(x, b, name, order):
    """The number the bytes b stand for."""
    v, bits = value(b, name, order), 8 * len(b)
    return x.ite(v >= 1 << (bits - 1), v - (1 << bits), v) if name[0] == "i" else v


def nested(flat, shape):
    if not shape:
        return flat[0]
    k = len(flat) // shape[0] if shape[0] else 0
    return [nested(flat[i * k : (i + 1) * k], shape[1:]) for i in range(shape[0])]


def flat(v, depth):
    return [v] if depth == 0 else [e for s in v for e in flat(s, depth - 1)]


def count(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def cat(parts):
    r = b""
    for p in parts:
        r = r + p
    return r


def make(x, raw, name, order, shape, layout):
    """An array with the given elements (their bytes in raw, row by row), laid out in memory as asked for."""
    np = x.imp("numpy")
    k = SIZE[name]
    dt = np.dtype(name).newbyteorder("<" if order == "le" else ">")
    els = [raw[i : i + k] for i in range(0, len(raw), k)]
    if layout == "spaced":  # every other element of a larger array
        els = [e for p in els for e in (p, b"\x55" * k)]
        return np.frombuffer(cat(els), dtype=dt).reshape(shape[:-1] + (2 * shape[-1],))[(slice(None),) * (len(shape) - 1) + (slice(None, None, 2),)]
    if layout == "reversed":
        n = count(shape[1:])
        rows = [els[i : i + n] for i in range(0, len(els), n)][::-1]
        return np.frombuffer(cat([e for r in rows for e in r]), dtype=dt).reshape(shape)[::-1]
    a = np.frombuffer(cat(els), dtype=dt).reshape(shape)
    if layout == "columns":
        return np.asfortranarray(a)
    return a


@case("C36", grid=[dict(name=t, order=o) for t in TYPES for o in (("le", "be") if SIZE[t] > 1 else ("le",))], bounds="every element type in both byte orders; shapes 3, 2x3, 3x2, 2x1x2; arrays laid out by rows, by columns, with gaps, or backwards in memory; arbitrary element bytes; a section larger than the array by two bytes at a symbolic address, accesses from 3 below to 3 beyond it, through Section and Image")
def roundtrip(x, name, order):
    shape = x.choice("shape", ((3,), (2, 3), (3, 2), (2, 1, 2)) if SIZE[name] < 8 else ((3,), (2, 2)))
    k, m = SIZE[name], count(shape)
    n = k * m + 2
    a, d, sec, obj, others = setup(x, n)
    raw = x.bytes("r", k * m)
    arr = make(x, raw, name, order, shape, x.choice("layout", ("rows", "columns", "spaced", "reversed")))
    addr = a + x.int("off", -3, n + 3)
    e = x.raises(lambda: obj.write_ndarray(addr, arr), invalid(x))
    x.check(x.iff(e is None, fits(x, a, n, addr, k * m, obj is sec)), "refused exactly if a byte is missing")
    want = list(d)
    if e is None:
        o = off_of(x, a, addr, n)
        want[o : o + k * m] = list(raw)
    frame(x, d, sec, others, want)
    got = []
    e2 = x.raises(lambda: got.append(obj.read_ndarray(addr, k * m, f"{name}_{order}", shape)), invalid(x))
    x.check((e is None) == (e2 is None), "what can be written can be read")
    if e2 is None:
        x.check(tuple(got[0].shape) == shape, "shape")
        x.check(got[0].dtype.name == name, "element type")
        x.check(x.eq(list(got[0].tobytes()), list(raw)), "elements, row by row, in the byte order asked for")
        if name[0] != "f":
            x.check(x.eq(flat(got[0].tolist(), len(shape)), [number(x, raw[i : i + k], name, order) for i in range(0, len(raw), k)]), "values")
        x.obs("raw", list(got[0].tobytes()))


@case("C36", grid=[dict(name=t, order=o) for t in TYPES if t[0] != "f" for o in ("le", "be")], bounds="every integer type in both byte orders, arrays made from arbitrary numbers, shapes 2, 1x2, 2x2 (8 bit)")
def from_numbers(x, name, order):
    np = x.imp("numpy")
    shape = x.choice("shape", ((2,), (1, 2), (2, 2)) if SIZE[name] == 1 else ((2,), (1, 2)))
    k, m = SIZE[name], count(shape)
    bits = 8 * k
    lo, hi = (0, (1 << bits) - 1) if name[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    vs = [x.int(f"v{i}", lo, hi) for i in range(m)]
    a, d, sec, obj, others = setup(x, k * m)
    dt = np.dtype(name).newbyteorder("<" if order == "le" else ">")
    obj.write_ndarray(a, np.array(nested(vs, shape), dtype=dt))
    want = []
    for v in vs:
        b = [(v >> (8 * i)) & 0xFF for i in range(k)]
        want += b if order == "le" else b[::-1]
    frame(x, d, sec, others, want)
    x.check(x.eq(flat(obj.read_ndarray(a, k * m, f"{name}_{order}", shape=shape).tolist(), len(shape)), vs), "values read back")
    x.check(x.eq(list(obj.read_numeric_array(a, m, f"{name}_{order}")), vs), "the same values as a plain array")


@case("C36", grid=[dict(name=t, order=o) for t in TYPES for o in (("le", "be") if SIZE[t] > 1 else ("le",))], bounds="every element type in both byte orders, no more than 6 elements; with and without a shape, the result by rows or by columns")
def read_shapes(x, name, order):
    shape = x.choice("shape", (None, (2, 3), (6,), (1, 6), (3, -1), 6, (1, 2, 3)) if SIZE[name] < 4 else (None, (2, 1), (1, -1)))
    m = 6 if SIZE[name] < 4 else 2
    k = SIZE[name]
    n = k * m + 1
    a, d, sec, obj, others = setup(x, n)
    o = x.choice("o", (0, 1))
    by = x.choice("by", (None, "C", "F"))
    got = obj.read_ndarray(a + o, k * m, f"{name}_{order}", shape, by)
    full = {None: (m,), 6: (6,), (3, -1): (3, 2), (1, -1): (1, 2)}.get(shape, shape)
    els = [list(d[o + i : o + i + k]) for i in range(0, k * m, k)]
    if by == "F":
        # the axes are exchanged: element (i, j) of the result is element (j, i) of the rows in memory
        rev = full[::-1]
        pos = []
        for p in range(m):
            q, idx = p, []
            for s in rev[::-1]:
                idx.append(q % s)
                q //= s
            lin = 0
            for s, i in zip(full, idx):
                lin = lin * s + i
            pos.append(lin)
        els = [els[p] for p in pos]
        full = rev
    x.check(tuple(got.shape) == full, "shape")
    x.check(x.eq(list(got.tobytes()), [b for e in els for b in e]), "elements")
    if name[0] != "f":
        x.check(x.eq(flat(got.tolist(), len(full)), [number(x, e, name, order) for e in els]), "values")
    frame(x, d, sec, others)
    # what was read does not change any more
    before = list(got.tobytes())
    obj.write(a, bytes(n))
    x.check(x.eq(list(got.tobytes()), before), "the array is a copy")


@case("C36", grid=[dict(name=t) for t in TYPES], bounds="every element type, lengths of 0 to 17 bytes")
def read_lengths(x, name):
    k = SIZE[name]
    n = 2 * k + 1
    a, d, sec, obj, others = setup(x, n)
    length = x.pick("len", 0, n)
    got = []
    e = x.raises(lambda: got.append(obj.read_ndarray(a, length, f"{name}_le")), ValueError)
    x.check((e is None) == (length % k == 0), "only whole elements are read")
    if e is None:
        x.check(tuple(got[0].shape) == (length // k,) and x.eq(list(got[0].tobytes()), list(d[:length])), "elements read")
    bad = x.raises(lambda: obj.read_ndarray(a, 2 * k, f"{name}_le", (3, 1)), ValueError)
    x.check(bad is not None, "a shape of another size is refused")
    frame(x, d, sec, others)


@case("C36", bounds="data type names: every one with either suffix, in any case and with blanks around it, and bad ones; objects that are no arrays")
def names(x):
    np = x.imp("numpy")
    a, d, sec, obj, others = setup(x, 9)
    kind = x.choice("kind", ("good", "bad", "byte", "value"))
    if kind == "good":
        t = x.choice("t", tuple(TYPES))
        o = x.choice("o", ("le", "be"))
        t2 = x.choice("spell", (str.upper, str.title, lambda s: f" {s} "))(f"{t}_{o}")
        r = obj.read_ndarray(a, SIZE[t], t2)
        x.check(r.dtype.name == t, "type")
        x.check(x.eq(list(r.tobytes()), list(d[: SIZE[t]])), "elements")
        x.check(SIZE[t] == 1 or (r.dtype.str[0] == ">") == (o == "be"), "byte order")
    elif kind == "bad":
        t = x.choice("t", ("int32", "uint8", "int24_le", "int32_me", "int32le", "", "_le", "string_be", "int3_le"))
        e = x.raises(lambda: obj.read_ndarray(a, 4, t), TypeError)
        x.check(e is not None, "a bad type is refused")
    elif kind == "byte":
        r = obj.read_ndarray(a, 9, "byte")
        x.check(r.dtype.name == "uint8" and x.eq(list(r.tobytes()), list(d)), "a byte is an unsigned number of 8 bits")
    else:
        v = x.choice("v", (b"\x01\x02", [1, 2], (1,), 5, None, "ab", bytearray(2)))
        e = x.raises(lambda: obj.write_ndarray(a, v), TypeError)
        x.check(e is not None, "only arrays are written")
    frame(x, d, sec, others)


@case("C36", grid=[dict(join=j) for j in (True, False)], bounds="an image of three sections of arbitrary bytes, two of them adjacent; two arrays of 16 bit numbers written one after the other at any address around them")
def two_arrays(x, join):
    ou = x.imp("objutils")
    np = x.imp("numpy")
    a = x.int("a", 0, TOP - 64)
    ds = [x.bytes(f"d{i}", 5) for i in range(3)]
    starts = [a, a + 5, a + 13]
    img = ou.Image([ou.Section(s, d) for s, d in zip(starts, ds)], join=join)
    spans = [(a, a + 10), (a + 13, a + 18)] if join else [(s, s + 5) for s in starts]
    mem = dict()
    for i in range(3):
        for j in range(5):
            mem[(0, 5, 13)[i] + j] = ds[i][j]
    for w in range(2):
        raw = x.bytes(f"r{w}", 4)
        o = x.pick(f"o{w}", -4, 19)
        arr = make(x, raw, "uint16", "be", (2,), "rows")
        err = x.raises(lambda: img.write_ndarray(a + o, arr), invalid(x))
        ok = any(b <= o and o + 4 <= e for b, e in (((0, 10), (13, 18)) if join else ((0, 5), (5, 10), (13, 18))))
        x.check((err is None) == ok, "written exactly if one section has all of the bytes")
        if ok:
            for j in range(4):
                mem[o + j] = raw[j]
            x.check(x.eq(list(img.read_ndarray(a + o, 4, "uint16_be").tobytes()), list(raw)), "read back")
    got = []
    for s in img:
        got += list(s.data)
    x.check(x.eq(got, [mem[k] for k in sorted(mem)]), "content of the image")
    x.check(len(img.sections) == len(spans), "sections of the image")
