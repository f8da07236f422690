"""Binary reader, LEB128 numbers and DWARF encodings."""

import io

from symx.harness import case

ORDERS = ("<", ">")


def u_value(bs, order):
    """Unsigned number stored in bs."""
    v = 0
    for b in bs if order == ">" else list(bs)[::-1]:
        v = v * 256 + b
    return v


def s_value(x, bs, order):
    v = u_value(bs, order)
    top = 1 << (8 * len(bs) - 1)
    return x.ite(v >= top, v - 2 * top, v)


def leb_value(x, bs, signed):
    """Value of a LEB128 number whose bytes are bs."""
    v = 0
    for i, b in enumerate(bs):
        v = v + (b % 128) * (1 << (7 * i))
    if signed:
        n = 7 * len(bs)
        v = x.ite(bs[-1] % 128 >= 64, v - (1 << n), v)
    return v


def leb_bytes(x, name, n):
    """n symbolic bytes that form one LEB128 number."""
    return [x.int(f"{name}{i}", 128 if i < n - 1 else 0, 255 if i < n - 1 else 127) for i in range(n)]


# ---------------------------------------------------------------------------------------------------- LEB128
@case("C24", grid=[dict(n=n, signed=s, impl=i) for n in (1, 2, 3, 5, 9, 10, 11, 19) for s in (False, True) for i in ("reader", "construct")], bounds="every encoding of 1, 2, 3, 5, 9, 10, 11 or 19 bytes (padded ones included), both implementations: value and position")
def leb_decode(x, n, signed, impl):
    bs = leb_bytes(x, "b", n)
    more = x.byte("m")
    blob = bytes(bs + [more])
    want = leb_value(x, bs, signed)
    if impl == "reader":
        rd = x.imp("objutils.readers").PlainBinaryReader(io.BytesIO(blob), "<")
        v = rd.sleb() if signed else rd.uleb()
        x.check(rd.pos == n, "position")
        x.check(rd.u8() == more, "next byte")
    else:
        enc = x.imp("objutils.dwarf.encoding")
        st = io.BytesIO(blob)
        v = (enc.SLEB if signed else enc.ULEB).parse_stream(st)
        x.check(st.tell() == n, "position")
        x.check(x.eq(st.read(), bytes([more])), "next byte")
    x.check(v == want, "value")
    x.obs("v", v)


@case("C24", grid=[dict(bits=b, signed=s) for b in (8, 16, 32, 64, 128) for s in (False, True)], bounds="all values of 8, 16, 32, 64 and 128 bits (signed and unsigned): encoded, shortest form, decoded again by both implementations")
def leb_encode(x, bits, signed):
    enc = x.imp("objutils.dwarf.encoding")
    rdm = x.imp("objutils.readers")
    v = x.int("v", -(1 << (bits - 1)) if signed else 0, (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1)
    con = enc.SLEB if signed else enc.ULEB
    blob = con.build(v)
    n = len(blob)
    for i in range(n - 1):
        x.check(blob[i] >= 128, "continuation bit")
    x.check(blob[n - 1] < 128, "last byte")
    x.check(leb_value(x, list(blob), signed) == v, "encoded value")
    if signed:
        x.check(x.all([v >= -(1 << (7 * n - 1)), v < 1 << (7 * n - 1)]), "fits")
        if n > 1:
            x.check(x.any([v < -(1 << (7 * n - 8)), v >= 1 << (7 * n - 8)]), "shortest form")
    elif n > 1:
        x.check(v >= 1 << (7 * n - 7), "shortest form")
    x.check(con.parse(blob) == v, "parsed again")
    rd = rdm.PlainBinaryReader(io.BytesIO(blob), ">")
    x.check((rd.sleb() if signed else rd.uleb()) == v, "read again")
    x.obs("blob", blob)


@case("C24", grid=[dict(signed=s, n=n) for s in (False, True) for n in (0, 1, 2)], bounds="numbers cut off after 0-2 bytes, negative values for the unsigned encoder")
def leb_bad(x, signed, n):
    enc = x.imp("objutils.dwarf.encoding")
    rdm = x.imp("objutils.readers")
    bs = bytes([x.int(f"b{i}", 128, 255) for i in range(n)])
    con = enc.SLEB if signed else enc.ULEB
    x.check(x.raises(lambda: con.parse(bs), Exception) is not None, "cut off number is refused")
    rd = rdm.PlainBinaryReader(io.BytesIO(bs))
    x.check(x.raises(lambda: rd.sleb() if signed else rd.uleb(), Exception) is not None, "cut off number is refused")
    if not signed:
        v = x.int("v", -1000, -1)
        x.check(x.raises(lambda: con.build(v), enc.ULEBError) is not None, "negative value")


# ---------------------------------------------------------------------------------------------------- plain reader
FIXED = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "s8": 1, "s16": 2, "s32": 4, "s64": 8}


def read_one(x, rd, kind, data, pos, order):
    """Reads one item and checks its value; returns the new position."""
    if kind in FIXED:
        n = FIXED[kind]
        v = getattr(rd, kind)()
        bs = data[pos : pos + n]
        x.check(v == (u_value(bs, order) if kind[0] == "u" else s_value(x, bs, order)), kind)
        x.obs(kind, v)
        return pos + n
    if kind == "asciiz":
        s = rd.asciiz()
        n = len(s)
        for i in range(n):
            x.check(x.all([ord(s[i]) == data[pos + i], data[pos + i] != 0]), "characters")
        x.check(data[pos + n] == 0, "terminator")
        return pos + n + 1
    v = getattr(rd, kind)()
    n = rd.pos - pos
    for i in range(n - 1):
        x.check(data[pos + i] >= 128, "continuation")
    x.check(data[pos + n - 1] < 128, "last byte")
    x.check(v == leb_value(x, data[pos : pos + n], kind == "sleb"), kind)
    return pos + n


@case("C25", grid=[dict(kind=k, order=o) for k in FIXED for o in ORDERS], bounds="every fixed-size type and byte order at every position of 12 arbitrary bytes, reading beyond the end is refused")
def reader_fixed(x, kind, order):
    rdm = x.imp("objutils.readers")
    d = x.bytes("d", 12)
    rd = rdm.PlainBinaryReader(io.BytesIO(d), order)
    x.check(rd.size == 12 and rd.pos == 0, "size and start")
    p = x.pick("p", 0, 12)
    rd.pos = p
    n = FIXED[kind]
    if p + n <= 12:
        q = read_one(x, rd, kind, list(d), p, order)
        x.check(rd.pos == q, "position")
        rd.reset()
        x.check(rd.pos == 0, "reset")
        x.check(rd.next_byte() == d[0], "first byte")
    else:
        x.check(x.raises(lambda: getattr(rd, kind)(), Exception) is not None, "reading beyond the end")
    x.check(rd.size == 12, "size")


@case("C25", grid=[dict(a=a, b=b, c=c, order=o) for o in ORDERS for a, b, c in (("u8", "s16", "u32"), ("asciiz", "u16", "uleb"), ("uleb", "sleb", "u8"), ("s32", "asciiz", "s8"), ("sleb", "u16", "asciiz"), ("u16", "uleb", "s32"), ("asciiz", "asciiz", "u8"))], bounds="sequences of three reads of different kinds on 12 arbitrary bytes, both byte orders, second pass after reset")
def reader_sequence(x, a, b, c, order):
    rdm = x.imp("objutils.readers")
    d = x.bytes("d", 12)
    # the variable-size items end inside the data
    x.assume(x.all([x.any([v < 128 for v in d[i : i + 3]]) for i in range(8)]))
    if "asciiz" in (a, b, c):
        x.assume(d[2] == 0)
        x.assume(d[5] == 0)
        x.assume(d[9] == 0)
    rd = rdm.PlainBinaryReader(io.BytesIO(d), order)
    pos = 0
    for k in (a, b, c):
        pos = read_one(x, rd, k, list(d), pos, order)
        x.check(rd.pos == pos, "position")
    rd.reset()
    read_one(x, rd, a, list(d), 0, order)


@case("C25", grid=[dict(kind=k, n=n, lead=l) for k in ("uleb", "sleb") for n, l in ((9, 1), (10, 3), (11, 0), (13, 2))], bounds="LEB128 numbers of 9-13 arbitrary bytes (also beyond 64 bits) between other items")
def reader_long_leb(x, kind, n, lead):
    rdm = x.imp("objutils.readers")
    d = list(x.bytes("h", lead)) + leb_bytes(x, "b", n) + list(x.bytes("t", 2))
    rd = rdm.PlainBinaryReader(io.BytesIO(bytes(d)), "<")
    for _ in range(lead):
        rd.u8()
    pos = read_one(x, rd, kind, d, lead, "<")
    x.check(pos == lead + n, "length")
    x.check(rd.pos == pos, "position")
    read_one(x, rd, "s16", d, pos, "<")
    rd.pos = lead
    read_one(x, rd, kind, d, lead, "<")


@case("C25", grid=[dict(kind=k) for k in FIXED], bounds="the default byte order is the machine's")
def reader_native(x, kind):
    import sys

    rdm = x.imp("objutils.readers")
    d = x.bytes("d", 8)
    rd = rdm.PlainBinaryReader(io.BytesIO(d))
    read_one(x, rd, kind, list(d), 0, "<" if sys.byteorder == "little" else ">")


@case("C25", grid=[dict(n=n) for n in (0, 1, 3)], bounds="unterminated strings of 0-3 arbitrary characters are refused")
def reader_unterminated(x, n):
    rdm = x.imp("objutils.readers")
    d = bytes([x.int(f"c{i}", 1, 255) for i in range(n)])
    rd = rdm.PlainBinaryReader(io.BytesIO(d))
    x.check(x.raises(lambda: rd.asciiz(), Exception) is not None, "no terminator")


# ---------------------------------------------------------------------------------------------------- constructs
BLOCKS = {"Block1": (1, "<"), "Block2l": (2, "<"), "Block2b": (2, ">"), "Block4l": (4, "<"), "Block4b": (4, ">"), "BlockUleb": (0, "")}


@case("C28", grid=[dict(kind=k, n=n) for k in BLOCKS for n in (0, 1, 3)] + [dict(kind=k, n=n) for k in BLOCKS for n in (200, 300) if k != "Block1" or n < 256], bounds="blocks of 0-3, 200 and 300 arbitrary bytes with every length prefix: parsed, the rest left alone, built again; cut off blocks are refused")
def blocks(x, kind, n):
    enc = x.imp("objutils.dwarf.encoding")
    con = getattr(enc, kind)
    size, order = BLOCKS[kind]
    d = x.bytes("d", n) if n < 10 else bytes([x.byte("d0")]) + bytes((i * 7) & 0xFF for i in range(n - 1))
    if size:
        prefix = n.to_bytes(size, "little" if order == "<" else "big")
    else:
        prefix = bytes([n]) if n < 128 else bytes([n % 128 + 128, n // 128])
    m = x.bytes("m", 2)
    st = io.BytesIO(prefix + d + m)
    v = con.parse_stream(st)
    x.check(x.eq(v, d), "content")
    x.check(st.tell() == len(prefix) + n, "position")
    x.check(x.eq(st.read(), m), "rest")
    x.check(x.eq(con.build(v), prefix + d), "built again")
    if n:
        x.check(x.raises(lambda: con.parse(prefix + d[:-1]), Exception) is not None, "cut off block")


@case("C28", grid=[dict(kind=k) for k in BLOCKS], bounds="blocks with an arbitrary length byte in front of 4 arbitrary bytes")
def block_length(x, kind):
    enc = x.imp("objutils.dwarf.encoding")
    con = getattr(enc, kind)
    size, order = BLOCKS[kind]
    n = x.int("n", 0, 127)
    d = x.bytes("d", 4)
    zeros = bytes(max(0, size - 1))
    prefix = bytes([n]) + zeros if order == "<" or not size else zeros + bytes([n])
    got = []
    e = x.raises(lambda: got.append(con.parse(prefix + d)), Exception)
    x.check(x.iff(e is None, n <= 4), "accepted exactly if complete")
    if e is None:
        x.check(x.eq(got[0], d[: len(got[0])]), "content")
        x.check(len(got[0]) == n, "length")


@case("C28", grid=[dict(size=s, order=o) for s in (1, 2, 4, 8) for o in ORDERS], bounds="addresses of 1, 2, 4 and 8 arbitrary bytes in both byte orders; other sizes are refused")
def addresses(x, size, order):
    enc = x.imp("objutils.dwarf.encoding")
    e = enc.Endianess.Little if order == "<" else enc.Endianess.Big
    con = enc.Address(size, e)
    d = x.bytes("d", size + 1)
    st = io.BytesIO(d)
    v = con.parse_stream(st)
    x.check(v == u_value(d[:size], order), "value")
    x.check(st.tell() == size, "position")
    x.check(x.eq(con.build(v), d[:size]), "built again")
    x.check(x.raises(lambda: con.parse(d[: size - 1]), Exception) is not None, "cut off")
    for bad in (0, 3, 5, 16):
        x.check(x.raises(lambda: enc.Address(bad, e), ValueError) is not None, "unsupported size")


@case("C28", grid=[dict(n=n, order=o) for n in (1, 4, 6) for o in ORDERS], bounds="string table of 1-6 arbitrary ASCII bytes plus a final NUL, every offset into it")
def strp(x, n, order):
    enc = x.imp("objutils.dwarf.encoding")
    tab = bytes([x.int(f"t{i}", 0, 127) for i in range(n)]) + b"\x00"
    con = enc.StrP(tab, enc.Endianess.Little if order == "<" else enc.Endianess.Big)
    off = x.pick("off", 0, n)
    ref = off.to_bytes(4, "little" if order == "<" else "big")
    st = io.BytesIO(ref + b"\x55")
    s = con.parse_stream(st)
    x.check(st.tell() == 4, "position")
    k = len(s)
    x.check(off + k <= n, "inside the table")
    for i in range(k):
        x.check(x.all([ord(s[i]) == tab[off + i], tab[off + i] != 0]), "characters")
    x.check(tab[off + k] == 0, "ends at the first NUL")


@case("C28", grid=[dict(lens=l) for l in ((), (1,), (2, 1), (1, 3, 1))], bounds="lists of 0-3 strings of 1-3 arbitrary ASCII characters, terminated by an empty one")
def string_list(x, lens):
    enc = x.imp("objutils.dwarf.encoding")
    ws = [[x.int(f"s{k}.{i}", 1, 127) for i in range(n)] for k, n in enumerate(lens)]
    blob = b"".join(bytes(w) + b"\x00" for w in ws) + b"\x00"
    m = x.bytes("m", 1)
    st = io.BytesIO(blob + m)
    r = enc.ArrayOfCStrings().parse_stream(st)
    x.check(len(r) == len(ws), "number of strings")
    for s, w in zip(r, ws):
        x.check(len(s) == len(w), "length")
        for i in range(len(w)):
            x.check(ord(s[i]) == w[i], "characters")
    x.check(st.tell() == len(blob), "position")


@case("C28", grid=[dict(n=n) for n in (0, 1, 2)], bounds="file tables of 0-2 entries with names of 1-2 arbitrary characters and arbitrary 1-2 byte numbers")
def file_list(x, n):
    enc = x.imp("objutils.dwarf.encoding")
    blob, want = b"", []
    for k in range(n):
        w = [x.int(f"s{k}.{i}", 1, 127) for i in range(k + 1)]
        di = leb_bytes(x, f"d{k}", 1)
        ln = leb_bytes(x, f"l{k}", 2)
        blob += bytes(w) + b"\x00" + bytes(di) + b"\x00" + bytes(ln)
        want.append((w, di[0], leb_value(x, ln, False)))
    blob += b"\x00"
    st = io.BytesIO(blob + b"\x77")
    r = enc.FilenameSequence().parse_stream(st)
    x.check(sorted(r) == list(range(1, n + 1)), "numbered from one")
    for k, (w, di, ln) in enumerate(want):
        f = r[k + 1]
        x.check(len(f.name) == len(w), "name length")
        for i in range(len(w)):
            x.check(ord(f.name[i]) == w[i], "name")
        x.check(x.all([f.dir_index == di, f.length == ln]), "numbers")
    x.check(st.tell() == len(blob), "position")


# ---------------------------------------------------------------------------------------------------- expressions
OPS = {0x06: "deref", 0x12: "dup", 0x13: "drop", 0x14: "over", 0x16: "swap", 0x17: "rot", 0x18: "xderef", 0x19: "abs", 0x1A: "and_", 0x1B: "div", 0x1C: "minus", 0x1D: "mod", 0x1E: "mul", 0x1F: "neg", 0x20: "not_", 0x21: "or_", 0x22: "plus", 0x24: "shl", 0x25: "shr", 0x26: "shra", 0x27: "xor", 0x29: "eq", 0x2A: "ge", 0x2B: "gt", 0x2C: "le", 0x2D: "lt", 0x2E: "ne", 0x96: "nop", 0x97: "push_object_address", 0x9B: "form_tls_address", 0x9C: "call_frame_cfa", 0x9F: "stack_value", 0xF0: "GNU_uninit"}
for _i in range(32):
    OPS[0x30 + _i] = f"lit{_i}"
    OPS[0x50 + _i] = f"reg{_i}"
OPERANDS = {
    0x03: ("addr", ("a",)), 0x08: ("const1u", ("u1",)), 0x09: ("const1s", ("s1",)), 0x0A: ("const2u", ("u2",)), 0x0B: ("const2s", ("s2",)),
    0x0C: ("const4u", ("u4",)), 0x0D: ("const4s", ("s4",)), 0x0E: ("const8u", ("u8",)), 0x0F: ("const8s", ("s8",)), 0x10: ("constu", ("u",)), 0x11: ("consts", ("s",)),
    0x15: ("pick", ("u1",)), 0x23: ("plus_uconst", ("u",)), 0x28: ("bra", ("s2",)), 0x2F: ("skip", ("s2",)), 0x90: ("regx", ("u",)), 0x91: ("fbreg", ("s",)), 0x92: ("bregx", ("u", "s")),
    0x93: ("piece", ("u",)), 0x94: ("deref_size", ("u1",)), 0x95: ("xderef_size", ("u1",)), 0x98: ("call2", ("u2",)), 0x99: ("call4", ("u4",)), 0x9A: ("call_ref", ("u4",)),
    0x9D: ("bit_piece", ("u", "u")), 0xA0: ("implicit_pointer", ("u4", "s")), 0xA1: ("addrx", ("u",)), 0xA2: ("constx", ("u",)), 0xA5: ("regval_type", ("u", "u")), 0xA6: ("deref_type", ("u1", "u")),
    0xA7: ("xderef_type", ("u1", "u")), 0xA8: ("convert", ("u",)), 0xA9: ("reinterpret", ("u",)), 0xF2: ("GNU_implicit_pointer", ("u4", "s")), 0xF5: ("GNU_regval_type", ("u", "u")), 0xF6: ("GNU_deref_type", ("u1", "u")),
    0xF7: ("GNU_convert", ("u",)), 0xF9: ("GNU_reinterpret", ("u",)), 0xFA: ("GNU_parameter_ref", ("u4",)), 0xFB: ("GNU_addr_index", ("u",)), 0xFC: ("GNU_const_index", ("u",)),
}
for _i in range(32):
    OPERANDS[0x70 + _i] = (f"breg{_i}", ("s",))
PUSHES = ("addr", "const1u", "const1s", "const2u", "const2s", "const4u", "const4s", "const8u", "const8s", "constu", "consts")


class _Readers:
    pass


def machine(x, asize, order):
    """A stack machine with the readers a DWARF processor for such a file has."""
    dw = x.imp("objutils.dwarf")

    class Section:
        image = b""

    class Elf:
        b64 = asize == 8
        endianess = order
        session = None

        def debug_sections(self):
            return {".debug_info": Section()}

    p = dw.DwarfProcessor(Elf())
    return p.stack_machine, p


def operand(x, name, kind, asize, order, wide=False):
    """(encoding, value) of an arbitrary operand."""
    if kind in ("u", "s"):
        bs = leb_bytes(x, name, 2 if wide else 1)
        return bs, leb_value(x, bs, kind == "s")
    n = asize if kind == "a" else int(kind[1])
    bs = list(x.bytes(name, n))
    return bs, (s_value(x, bs, order) if kind[0] == "s" else u_value(bs, order))


def check_operand(x, text, value, what):
    """text is the number value: hexadecimal if positive, else decimal."""
    if text[:2] == "0x":
        x.check(x.all([int(text[2:], 16) == value, value > 0]), what)
        x.check(len(text) >= 10, what + ": eight digits")
    else:
        x.check(x.all([int(text) == value, value <= 0]), what)


@case("C26", grid=[dict(asize=a, order=o) for a in (4, 8) for o in ORDERS], bounds="every pair of operations without operands")
def plain_ops(x, asize, order):
    m, p = machine(x, asize, order)
    codes = sorted(OPS)
    for c in codes:
        x.check(m.evaluate(bytes([c])) == OPS[c] + "()", "name of the operation")
        if 0x30 <= c < 0x50:
            x.check(m.stack.tos == c - 0x30, "literal on the stack")
    a = x.choice("a", codes)
    b = x.choice("b", (0x06, 0x13, 0x22, 0x4F, 0x6F, 0x9F))
    x.check(m.evaluate(bytes([a, b])) == OPS[a] + "(); " + OPS[b] + "()", "two operations")
    x.check(p.dwarf_expression(bytes([b, a])) == OPS[b] + "(); " + OPS[a] + "()", "two operations")
    x.check(m.evaluate(b"") == "", "empty expression")


@case("C26", grid=[dict(op=c, asize=a, order=o) for c in OPERANDS if not 0x71 <= c < 0x8F for a, o in ((4, "<"), (8, ">"))] + [dict(op=c, asize=4, order="<") for c in range(0x71, 0x8F)], bounds="every operation with operands followed by another one: all operand values (LEB128 of 1-2 bytes), 4 byte little endian and 8 byte big endian addresses")
def operand_ops(x, op, asize, order):
    m, p = machine(x, asize, order)
    name, kinds = OPERANDS[op]
    enc, vals = [op], []
    for i, k in enumerate(kinds):
        bs, v = operand(x, f"p{i}.", k, asize, order, wide=i == 0)
        enc += bs
        vals.append(v)
    out = m.evaluate(bytes(enc + [0x96]))
    x.check(out[: len(name) + 1] == name + "(", "name of the operation")
    x.check(out[-8:] == "); nop()", "the operation after it")
    parts = out[len(name) + 1 : -8].split(", ")
    x.check(len(parts) == len(vals), "number of operands")
    for t, v in zip(parts, vals):
        check_operand(x, t, v, "operand")
    if name in PUSHES:
        x.check(m.stack.tos == vals[0], "constant on the stack")


@case("C26", grid=[dict(op=o, n=n) for o in (0x9E, 0xA4, 0xF4) for n in (0, 1, 3)], bounds="operations with an embedded block of 0-3 arbitrary bytes")
def block_ops(x, op, n):
    m, p = machine(x, 4, "<")
    d = x.bytes("d", n)
    head = [op] + ([] if op == 0x9E else [0x21]) + [n]
    out = m.evaluate(bytes(head) + d + b"\x9f")
    name = {0x9E: "implicit_value(", 0xA4: "const_type(0x00000021, ", 0xF4: "GNU_const_type(0x00000021, "}[op]
    x.check(out == name + "[" + d.hex(" ") + "]); stack_value()", "value and the operation after it")


@case("C26", grid=[dict(first=a, second=b) for a, b in (((4, "<"), (8, ">")), ((8, "<"), (4, "<")), ((4, ">"), (4, "<")))], bounds="two processors for files of different class or byte order used in turn: arbitrary addresses")
def two_machines(x, first, second):
    ms = [(machine(x, *first), first), (machine(x, *second), second)]
    for i, k in enumerate((0, 1, 0)):
        (m, p), (asize, order) = ms[k]
        for c, kind in ((0x03, "a"), (0x0A, "u2"), (0x0D, "s4")):
            bs, v = operand(x, f"p{i}{kind}", kind, asize, order) if kind == "a" else ([1, 2], (0x201 if order == "<" else 0x102)) if kind == "u2" else ([1, 0, 0, 0xFF], (-0xFFFFFF if order == "<" else 0x10000FF))
            out = m.evaluate(bytes([c] + bs + [0x96]))
            name = OPERANDS[c][0]
            x.check(out[: len(name) + 1] == name + "(" and out[-8:] == "); nop()", "operation")
            check_operand(x, out[len(name) + 1 : -8], v, "operand")
            x.check(m.stack.tos == v, "constant on its own stack")


@case("C26", grid=[dict(op=o) for o in (0xA3, 0xF3)], bounds="entry value: length and the nested expression, shown one after the other")
def entry_value(x, op):
    m, p = machine(x, 4, "<")
    r = x.int("r", 0, 31)
    out = m.evaluate(bytes([op, 1, 0x50 + r, 0x9F]))
    x.check(out == ("entry_value" if op == 0xA3 else "GNU_entry_value") + "(0x00000001); reg" + str(r) + "(); stack_value()", "all parts are shown")


@case("C26", grid=[dict(op=c) for c in (0x03, 0x08, 0x0B, 0x0C, 0x10, 0x11, 0x92, 0x9D, 0x9E)], bounds="expressions cut off inside an operand are refused")
def cut_off(x, op):
    m, p = machine(x, 4, "<")
    kinds = OPERANDS[op][1] if op in OPERANDS else ("u4",)
    enc = [op]
    for i, k in enumerate(kinds):
        enc += operand(x, f"p{i}.", k, 4, "<", True)[0]
    if op == 0x9E:
        enc = [op, 2, x.byte("b")] + [0]
    x.check(x.raises(lambda: m.evaluate(bytes(enc[:-1])), Exception) is not None, "cut off")


# ---------------------------------------------------------------------------------------------------- abbreviations
TAGS = {0x11: "compile_unit", 0x24: "base_type", 0x34: "variable", 0x2E: "subprogram", 0x0D: "member", 0x13: "structure_type"}
ATTRS = {0x03: "name", 0x0B: "byte_size", 0x3E: "encoding", 0x49: "type", 0x11: "low_pc", 0x1C: "const_value", 0x3A: "decl_file"}
FORMS = {0x01: "DW_FORM_addr", 0x05: "DW_FORM_data2", 0x08: "DW_FORM_string", 0x0B: "DW_FORM_data1", 0x0E: "DW_FORM_strp", 0x13: "DW_FORM_ref4", 0x17: "DW_FORM_sec_offset", 0x18: "DW_FORM_exprloc", 0x19: "DW_FORM_flag_present"}


def section(blob):
    class Section:
        image = blob

    return Section()


def declare(x, tag, code, codes, shape):
    """Encoding of one declaration and its expected decoding."""
    t = x.choice(tag + "tag", sorted(TAGS))
    ch = x.int(tag + "ch", 0, 1)
    enc = codes + [t, ch]
    attrs = []
    for i, kind in enumerate(shape):
        if kind == "c":
            a = x.choice(f"{tag}a{i}", sorted(ATTRS)[:2])
            bs = leb_bytes(x, f"{tag}v{i}.", 2)
            enc += [a, 0x21] + bs
            attrs.append((ATTRS[a], "DW_FORM_implicit_const", leb_value(x, bs, True)))
        else:
            a = x.choice(f"{tag}a{i}", sorted(ATTRS) if i == 0 else sorted(ATTRS)[:2])
            f = x.choice(f"{tag}f{i}", sorted(FORMS) if i == 0 else sorted(FORMS)[:2])
            enc += [a, f]
            attrs.append((ATTRS[a], FORMS[f], None))
    return enc + [0, 0], (TAGS[t], ch, attrs)


def check_abbrev(x, got, want):
    tag, ch, attrs = want
    x.check(got.tag == tag, "tag")
    x.check(x.iff(got.children, ch == 1), "children flag")
    x.check(len(got.attrs) == len(attrs), "number of attributes")
    for g, (a, f, v) in zip(got.attrs, attrs):
        enc, form, special = list(g)
        x.check(enc.name == a, "attribute")
        x.check(form.name == f, "form")
        x.check((special is None) if v is None else (special == v), "implicit constant")


@case("C27", grid=[dict(shape=s) for s in ("", "n", "nn", "c", "nc", "cn")], bounds="one declaration with code 1, 2, 5 (padded), 127, 128 or 300, 6 tags, up to 2 of 7 attributes in 9 forms, signed implicit constants of 2 bytes")
def abbrev_one(x, shape):
    dw = x.imp("objutils.dwarf")
    if len(shape) < 2:
        code, codes = x.pick("code", 0, 5), None
        code, codes = ((1, [1]), (2, [2]), (127, [127]), (128, [128, 1]), (300, [0xAC, 2]), (5, [0x85, 0]))[code]
    else:
        codes, code = [1], 1
    enc, want = declare(x, "", code, codes, shape)
    ab = dw.Abbrevations(section(bytes(enc + [0])))
    check_abbrev(x, ab.get(0, code), want)
    check_abbrev(x, ab.get(0, code), want)
    x.check(ab.get(0, 0) is None, "code 0 is no declaration")


@case("C27", grid=[dict(order=o) for o in ((1, 2), (2, 1), (2, 2))], bounds="two tables of two and one declarations with the same codes, looked up in any order")
def abbrev_tables(x, order):
    dw = x.imp("objutils.dwarf")
    e1, w1 = declare(x, "p", 1, [1], "n")
    e2 = [2, 0x34, 0, 0x49, 0x13, 0, 0]
    w2 = ("variable", 0, [("type", "DW_FORM_ref4", None)])
    v = leb_bytes(x, "q", 1)
    e3 = [1, 0x24, 0, 0x3E, 0x0B, 0x1C, 0x21] + v + [0, 0]
    w3 = ("base_type", 0, [("encoding", "DW_FORM_data1", None), ("const_value", "DW_FORM_implicit_const", leb_value(x, v, True))])
    first = e1 + e2 + [0]
    blob = bytes(first + e3 + [0])
    ab = dw.Abbrevations(section(blob))
    look = {1: (0, 1, w1), 2: (0, 2, w2), 3: (len(first), 1, w3)}
    for k in order + (3,) + order:
        off, code, want = look[k]
        check_abbrev(x, ab.get(off, code), want)


@case("C27", bounds="vendor tags and attributes keep their numbers: any two byte value of the user range")
def abbrev_user(x):
    dw = x.imp("objutils.dwarf")
    t = x.int("t", 0x5000, 0x5FFF)
    a = x.int("a", 0x3D00, 0x3DFF)
    c = leb_bytes(x, "c", 1)

    def two(v):
        return [v % 128 + 128, v // 128 % 128 + 128, v // 16384]

    ab = dw.Abbrevations(section(bytes([1] + two(t) + [0] + two(a) + [0x0B] + two(a) + [0x21] + c + [0, 0, 0])))
    r = ab.get(0, 1)
    x.check(r.tag == "User TAG value: 0x" + "%04x" % t, "vendor tag")
    x.check(len(r.attrs) == 2, "attributes")
    e1, f1, s1 = list(r.attrs[0])
    e2, f2, s2 = list(r.attrs[1])
    x.check(x.all([e1.value == a, e2.value == a]), "vendor attribute")
    x.check(s2 == leb_value(x, c, True), "implicit constant")
