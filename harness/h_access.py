"""Typed access: numbers, arrays of numbers and strings."""

import struct

from symx.harness import case

TOP = 1 << 32
INTS = [(s, n, o) for s in ("u", "") for n in (8, 16, 32, 64) for o in ("le", "be")]


def setup(x, n):
    """A section of n symbolic bytes between two others (not joined), as an image or on its own."""
    ou = x.imp("objutils")
    a = x.int("a", 16, TOP - n - 16)
    d = x.bytes("d", n)
    sec = ou.Section(a, d)
    if x.choice("via", ("section", "image")) == "section":
        return a, d, sec, sec, []
    other = [ou.Section(0, b"\x01\x02\x03"), ou.Section(a + n + 8, b"\x04\x05")]
    img = ou.Image([sec] + other, join=False)
    return a, d, img[1], img, [(img[0], b"\x01\x02\x03"), (img[2], b"\x04\x05")]


def fits(x, a, n, addr, size, section):
    """All bytes exist; through an image the address itself must, too."""
    ok = x.all([a <= addr, addr + size <= a + n])
    return ok if section else x.all([ok, addr < a + n])


def frame(x, d, sec, others, want=None):
    x.check(len(sec) == len(d), "length of the section is unchanged")
    x.check(x.eq(list(sec.data), list(d) if want is None else want), "content of the section")
    for s, c in others:
        x.check(bytes(s.data) == c, "other sections are unchanged")


def invalid(x):
    return x.imp("objutils.exceptions").InvalidAddressError


def off_of(x, a, addr, n):
    """Offset of addr in [0, n) as a concrete number (forks)."""
    for o in range(n):
        if x.split(addr == a + o):
            return o
    return None


def value(b, signed, order):
    b = list(b)
    if order == "be":
        b = b[::-1]
    v = 0
    for i, c in enumerate(b):
        v = v + (c << (8 * i))
    return v


def signed_value(x, v, bits):
    return x.ite(v >= 1 << (bits - 1), v - (1 << bits), v)


def spell(x, name):
    return x.choice("case", (name, name.upper(), " " + name + " "))


@case("C16", grid=[dict(sign=s, bits=b, order=o) for s, b, o in INTS], bounds="every integer type and byte order, section of size+2 symbolic bytes at a symbolic address, access from 3 below to 3 beyond it, through Section and Image")
def read_int(x, sign, bits, order):
    k = bits // 8
    n = k + 2
    a, d, sec, obj, others = setup(x, n)
    addr = a + x.int("off", -3, n + 3)
    got = []
    e = x.raises(lambda: got.append(obj.read_numeric(addr, spell(x, f"{sign}int{bits}_{order}"))), invalid(x))
    x.check(x.iff(e is None, fits(x, a, n, addr, k, obj is sec)), "access is refused exactly if a byte is missing")
    if e is None:
        o = off_of(x, a, addr, n)
        v = value(d[o : o + k], sign, order)
        if not sign:
            v = signed_value(x, v, bits)
        x.check(got[0] == v, "value read")
        x.obs("value", got[0])
    frame(x, d, sec, others)


@case("C16", grid=[dict(bits=b, order=o, sign=s) for s, b, o in INTS] , bounds="every integer type, any bit mask up to 8 bits wider than the type")
def read_masked(x, sign, bits, order):
    k = bits // 8
    a, d, sec, obj, others = setup(x, k + 1)
    m = x.int("mask", 0, (1 << bits + 8) - 1)
    o = x.choice("o", (0, 1))
    got = obj.read_numeric(a + o, f"{sign}int{bits}_{order}", bit_mask=m)
    v = value(d[o : o + k], sign, order) & m
    if not sign:
        v = signed_value(x, v, bits)
    x.check(got == v, "masked value")
    x.check(obj.read_numeric(a + o, f"{sign}int{bits}_{order}", bit_mask=(1 << bits) - 1) == obj.read_numeric(a + o, f"{sign}int{bits}_{order}"), "a full mask changes nothing")
    frame(x, d, sec, others)


@case("C16", grid=[dict(sign=s, bits=b, order=o) for s, b, o in INTS], bounds="every integer type and byte order, symbolic value from 2 below to 2 above the type's range, access around a section of size+2 symbolic bytes")
def write_int(x, sign, bits, order):
    k = bits // 8
    n = k + 2
    a, d, sec, obj, others = setup(x, n)
    lo, hi = (0, (1 << bits) - 1) if sign else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    addr = a + x.int("off", -3, n + 3)
    v = x.int("v", lo - 2, hi + 2)
    t = spell(x, f"{sign}int{bits}_{order}")
    ok_addr = x.split(fits(x, a, n, addr, k, obj is sec))
    ok_value = x.split(x.all([lo <= v, v <= hi]))
    e = x.raises(lambda: obj.write_numeric(addr, v, t), invalid(x), struct.error)
    x.check((e is None) == (ok_addr and ok_value), "refused exactly if a byte is missing or the value does not fit")
    if not ok_addr:
        x.check(isinstance(e, invalid(x)), "missing bytes are an InvalidAddressError")
    want = list(d)
    if e is None:
        o = off_of(x, a, addr, n)
        u = v & ((1 << bits) - 1)
        b = [(u >> (8 * i)) & 0xFF for i in range(k)]
        want[o : o + k] = b if order == "le" else b[::-1]
    frame(x, d, sec, others, want)
    if e is None:
        x.check(obj.read_numeric(addr, t) == v, "value written can be read back")


@case("C16", grid=[dict(size=s, order=o) for s in (4, 8) for o in ("le", "be")], bounds="float32/float64 of any non-NaN bit pattern in both byte orders")
def floats(x, size, order):
    v = x.float_bits("v", size)
    n = size + 1
    a, d, sec, obj, others = setup(x, n)
    t = f"float{8 * size}_{order}"
    addr = a + x.int("off", -2, 3)
    e = x.raises(lambda: obj.write_numeric(addr, v, t), invalid(x))
    x.check(x.iff(e is None, fits(x, a, n, addr, size, obj is sec)), "refused exactly if a byte is missing")
    want = list(d)
    if e is None:
        o = off_of(x, a, addr, n)
        want[o : o + size] = list(struct.pack(("<" if order == "le" else ">") + ("f" if size == 4 else "d"), v))
    frame(x, d, sec, others, want)
    if e is None:
        r = obj.read_numeric(addr, t)
        x.check(struct.pack("<d", r) == struct.pack("<d", v) if size == 8 else struct.pack("<f", r) == struct.pack("<f", v), "value written can be read back")


@case("C16", bounds="names that are no data types, the type 'byte', one symbolic byte")
def type_names(x):
    ou = x.imp("objutils")
    d = x.bytes("d", 9)
    s = ou.Section(0, d)
    for bad in ("uint16", "uint16be", "int_be", "uint12_be", "uint16_xe", "", "_le", "float16_le", "string_le"):
        for f in (lambda: s.read_numeric(0, bad), lambda: s.write_numeric(0, 1, bad), lambda: s.read_numeric_array(0, 2, bad), lambda: s.write_numeric_array(0, [1], bad)):
            x.check(x.raises(f, TypeError) is not None, f"'{bad}' is refused")
    x.check(x.eq(list(s.data), list(d)), "nothing was written")
    x.check(s.read_numeric(3, "byte") == d[3], "byte")
    s.write_numeric(3, x.byte("v"), "Byte")
    x.check(s.data[3] == x_byte(s), "byte written")


def x_byte(s):
    return s.read_numeric(3, "uint8_be")


ARR = [(s, n, o) for s, n, o in INTS if o == "be" or n in (16, 32)]


@case("C17", grid=[dict(sign=s, bits=b, order=o, cnt=c) for s, b, o in ARR for c in ((0, 1, 3) if b < 64 else (1, 2))], bounds="every integer type, arrays of 0-3 elements in a section one byte larger, access from 2 below to 3 beyond")
def read_array(x, sign, bits, order, cnt):
    k = bits // 8
    n = k * cnt + 1
    a, d, sec, obj, others = setup(x, n)
    addr = a + x.int("off", -2, n + 3 if cnt < 3 else 3)
    got = []
    e = x.raises(lambda: got.append(obj.read_numeric_array(addr, cnt, f"{sign}int{bits}_{order}")), invalid(x))
    x.check(x.iff(e is None, fits(x, a, n, addr, k * cnt, obj is sec)), "access is refused exactly if a byte is missing")
    if e is None:
        x.check(len(got[0]) == cnt, "number of elements")
        o = off_of(x, a, addr, n + 1)
        for i in range(cnt):
            v = value(d[o + k * i : o + k * (i + 1)], sign, order)
            if not sign:
                v = signed_value(x, v, bits)
            x.check(got[0][i] == v, "element read")
        x.obs("got", list(got[0]))
    frame(x, d, sec, others)


@case("C17", grid=[dict(sign=s, bits=b, order=o, cnt=c) for s, b, o in ARR for c in ((0, 1, 3) if b < 64 else (1, 2))], bounds="every integer type, 0-3 symbolic elements, one of them possibly out of range by one, written as list or tuple")
def write_array(x, sign, bits, order, cnt):
    k = bits // 8
    n = k * cnt + 1
    a, d, sec, obj, others = setup(x, n)
    lo, hi = (0, (1 << bits) - 1) if sign else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    vs = [x.int(f"v{i}", lo - (i == 0), hi + (i == 1)) for i in range(cnt)]
    addr = a + x.int("off", -2, 3)
    t = f"{sign}int{bits}_{order}"
    ok_addr = x.split(fits(x, a, n, addr, k * cnt, obj is sec))
    ok_value = x.split(x.all([x.all([lo <= v, v <= hi]) for v in vs]))
    arg = tuple(vs) if cnt == 1 else vs
    e = x.raises(lambda: obj.write_numeric_array(addr, arg, t), invalid(x), struct.error)
    x.check((e is None) == (ok_addr and ok_value), "refused exactly if a byte is missing or a value does not fit")
    if not ok_addr:
        x.check(isinstance(e, invalid(x)), "missing bytes are an InvalidAddressError")
    want = list(d)
    if e is None:
        o = off_of(x, a, addr, n + 1)
        for i, v in enumerate(vs):
            u = v & ((1 << bits) - 1)
            b = [(u >> (8 * j)) & 0xFF for j in range(k)]
            want[o + k * i : o + k * (i + 1)] = b if order == "le" else b[::-1]
    frame(x, d, sec, others, want)
    if e is None:
        x.check(x.eq(list(obj.read_numeric_array(addr, cnt, t)), vs), "elements written can be read back")
    x.check(x.raises(lambda: sec.write_numeric_array(a, 5, t), TypeError) is not None, "a single number is no array")


@case("C17", grid=[dict(size=s, order=o, cnt=c) for s in (4, 8) for o in ("le", "be") for c in (1, 2)], bounds="arrays of 1-2 floats of any non-NaN bit pattern")
def float_array(x, size, order, cnt):
    vs = [x.float_bits(f"v{i}", size) for i in range(cnt)]
    n = size * cnt + 2
    a, d, sec, obj, others = setup(x, n)
    o = x.choice("o", (0, 1, 2))
    t = f"float{8 * size}_{order}"
    obj.write_numeric_array(a + o, vs, t)
    f = ("<" if order == "le" else ">") + ("f" if size == 4 else "d")
    want = list(d)
    want[o : o + size * cnt] = [b for v in vs for b in struct.pack(f, v)]
    frame(x, d, sec, others, want)
    got = obj.read_numeric_array(a + o, cnt, t)
    x.check(len(got) == cnt, "number of elements")
    for i in range(cnt):
        x.check(struct.pack(f, got[i]) == struct.pack(f, vs[i]), "element written can be read back")


@case("C18", grid=[dict(n=n) for n in (1, 4, 6)], bounds="NUL terminated read from 1-6 symbolic bytes, symbolic address from 2 below to 2 beyond the section")
def read_terminated(x, n):
    a, d, sec, obj, others = setup(x, n)
    addr = a + x.int("off", -2, n + 2)
    got = []
    e = x.raises(lambda: got.append(obj.read_string(addr)), invalid(x), TypeError)
    if x.split(addr < a):
        x.check(isinstance(e, invalid(x)), "address below the section")
    elif x.split(addr > a + n if obj is sec else addr >= a + n):
        x.check(e is not None, "address beyond the section")
    else:
        o = off_of(x, a, addr, n + 1)
        end = next((i for i in range(o, n) if x.split(d[i] == 0)), None)
        if end is None:
            x.check(isinstance(e, TypeError), "string without terminator is refused")
        else:
            x.check(e is None, "terminated string is read")
            x.check(len(got[0]) == end - o, "length up to the terminator")
            x.check(x.eq([ord(c) for c in got[0]], list(d[o:end])), "characters")
    frame(x, d, sec, others)


@case("C18", grid=[dict(n=n) for n in (1, 5)], bounds="read of 0-7 characters in a section of 1-5 symbolic bytes, latin1 / ascii / utf-16-be")
def read_fixed(x, n):
    a, d, sec, obj, others = setup(x, n)
    addr = a + x.int("off", -2, n + 2)
    k = x.pick("k", 0, 7)
    enc = x.choice("enc", ("latin1", "ascii"))
    got = []
    e = x.raises(lambda: got.append(obj.read_string(addr, enc, k)), invalid(x), UnicodeDecodeError)
    ok = x.split(fits(x, a, n, addr, k, obj is sec))
    if not ok:
        x.check(isinstance(e, invalid(x)), "refused if a byte is missing")
    else:
        o = off_of(x, a, addr, n + 1)
        clean = enc == "latin1" or x.split(x.all([c < 128 for c in d[o : o + k]]))
        x.check((e is None) == clean, "bytes outside the encoding are refused")
        if e is None:
            x.check(x.eq([ord(c) for c in got[0]], list(d[o : o + k])), "characters")
    frame(x, d, sec, others)


@case("C18", grid=[dict(n=n, k=k) for n, k in ((1, 0), (1, 1), (4, 0), (4, 1), (4, 3), (4, 4), (5, 2))], bounds="strings of 0-4 symbolic latin1/ascii characters written around a section of 1-5 symbolic bytes")
def write_string(x, n, k):
    a, d, sec, obj, others = setup(x, n)
    addr = a + x.int("off", -2, n + 2)
    enc = x.choice("enc", ("latin1", "ascii"))
    cs = [x.int(f"c{i}", 0, 255 if enc == "latin1" else 127) for i in range(k)]
    text = "".join(chr(c) for c in cs)
    e = x.raises(lambda: obj.write_string(addr, text, enc), invalid(x))
    ok = x.split(fits(x, a, n, addr, k + 1, obj is sec))
    x.check((e is None) == ok, "refused exactly if text and terminator do not fit")
    want = list(d)
    if e is None:
        o = off_of(x, a, addr, n)
        want[o : o + k + 1] = cs + [0]
    frame(x, d, sec, others, want)
    if e is None:
        back = obj.read_string(addr, enc)
        end = next((i for i in range(k) if x.split(cs[i] == 0)), k)
        x.check(x.eq([ord(c) for c in back], cs[:end]), "text up to its first NUL can be read back")
        x.check(x.eq([ord(c) for c in obj.read_string(addr, enc, k)], cs), "text can be read back by length")


@case("C18", grid=[dict(enc=e) for e in ("utf-8", "utf-16-le", "cp1252")], bounds="fixed texts with multi-byte characters at a symbolic address: the encoded length decides whether it fits")
def encodings(x, enc):
    text = x.choice("text", ("", "ä€", "aöb"))
    raw = text.encode(enc)
    n = 5
    a, d, sec, obj, others = setup(x, n)
    addr = a + x.int("off", -1, n)
    e = x.raises(lambda: obj.write_string(addr, text, enc), invalid(x))
    ok = x.split(fits(x, a, n, addr, len(raw) + 1, obj is sec))
    x.check((e is None) == ok, "refused exactly if encoded text and terminator do not fit")
    want = list(d)
    if e is None:
        o = off_of(x, a, addr, n)
        want[o : o + len(raw) + 1] = list(raw) + [0]
    frame(x, d, sec, others, want)
    if e is None:
        x.check(obj.read_string(addr, enc, len(raw)) == text, "text can be read back")
