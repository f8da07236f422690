"""Sizes and counts beyond the reach of fully symbolic inputs: mostly fixed content with arbitrary values in it."""

import io

from harness import common
from harness import h_die as dies
from harness.h_arm import section as arm_section
from harness.h_arm import text as arm_text
from harness.h_dwarf import ORDERS, TAGS, check_abbrev, check_operand, leb_bytes, leb_value, machine, section, u_value
from harness.h_elf import CLASSES, Fields, check_fetch, elf, parser, sym, symtab
from harness.h_misc import CRCS, check_diff, ref_crc16
from symx.harness import case


def pattern(n, k=7):
    return bytes((i * k + (i >> 8)) & 0xFF for i in range(n))


def spiked(x, n, at, fill=None):
    """n bytes, arbitrary at the given positions."""
    out = list(bytes([fill]) * n if fill is not None else pattern(n))
    for p in at:
        out[p] = x.byte(f"s{p}")
    return bytes(out)


# ---------------------------------------------------------------------------------------------------- hex files
LONG = dict(ihex=(255, 1 << 32), srec=(250, 1 << 32), mostec=(255, 1 << 16), tek=(255, 1 << 16), sig=(255, 1 << 16), emon52=(255, 1 << 16), etek=(122, 1 << 20), titxt=(255, 1 << 16), ash=(255, 1 << 16), rca=(255, 1 << 16), cosmac=(255, 1 << 16), fpc=(251, 1 << 16))
PROP = dict(ihex="C01", srec="C02", mostec="C03", tek="C03", sig="C03", emon52="C03", etek="C03", titxt="C04", ash="C04", rca="C04", cosmac="C04", fpc="C05")


def long_rows(x, codec, fill):
    n, top = LONG[codec]
    ou = x.imp("objutils")
    a = x.int("a", 0, top - n) if codec not in ("fpc",) else 0x4321
    d = spiked(x, n, (0, n // 2, n - 1) if codec != "fpc" else (), fill)
    img = ou.Image([ou.Section(a, d)])
    blob = bytes(ou.dumps(codec, img, row_length=n))
    x.obs("blob", blob)
    common.check_content(x, ou.loads(codec, blob), [(a, list(d))], codec + " long record")


def many_rows(x, codec, n, row):
    """More than 256 records, and the second section starts behind 64 KiB where that is possible."""
    top = LONG[codec][1]
    ou = x.imp("objutils")
    d = spiked(x, n, (0, row - 1, n - 1) if codec != "fpc" else ())
    e = x.bytes("e", 2) if codec != "fpc" else b"ab"
    a = 0x100
    b = 0x1FFFF if top > 1 << 16 else 0xFFFE
    blob = bytes(ou.dumps(codec, ou.Image([ou.Section(a, d), ou.Section(b, e)]), row_length=row))
    common.check_content(x, ou.loads(codec, blob), [(a, list(d)), (b, list(e))], codec + " many records")


for _p in ("C01", "C02", "C03", "C04", "C05"):
    _cs = [c for c in PROP if PROP[c] == _p]
    globals()["long_rows_" + _p] = case(_p, grid=[dict(codec=c, fill=f) for c in _cs for f in (None, 0xFF)], bounds="one record of the greatest length (fixed content, three arbitrary bytes) at any address")(lambda x, codec, fill: long_rows(x, codec, fill))
    globals()["many_rows_" + _p] = case(_p, grid=[dict(codec=c, n=700, row=2) for c in _cs], bounds="350 records of two bytes and a section far behind them (fixed content, five arbitrary bytes)")(lambda x, codec, n, row: many_rows(x, codec, n, row))


@case("C02", grid=[dict(rows=r) for r in (255, 256, 257, 700)], bounds="255-700 records of one byte: the record count of the S5 record is their number")
def srec_many(x, rows):
    ou = x.imp("objutils")
    d = spiked(x, rows, (0, rows - 1))
    blob = bytes(ou.dumps("srec", ou.Image([ou.Section(0x10, d)]), row_length=1, record_type=1, s5record=True))
    lines = blob.decode("ascii").split("\n")
    x.check(len(lines) == rows + 2, "number of lines")
    r = [3, rows >> 8, rows & 0xFF]
    x.check(lines[-2] == "S5" + "".join(f"{v:02X}" for v in r + [~sum(r) & 0xFF]), "record count")
    common.check_content(x, ou.loads("srec", blob), [(0x10, list(d))], "many records")


@case("C06", grid=[dict(n=n) for n in (4096, 65537)] + [dict(n=2, blocks=300)], bounds="blocks of 4096 and 65537 bytes and a file of 300 blocks, fixed content with an arbitrary byte at the end")
def shf_large(x, n, blocks=1):
    ou = x.imp("objutils")
    secs = [(0x1000 * k, (pattern(n - 1, k + 1) + bytes([k & 0xFF]))) for k in range(blocks)]
    blob = bytes(ou.dumps("shf", ou.Image([ou.Section(a, d) for a, d in secs])))
    x.obs("tail", blob[-100:])
    common.check_content(x, ou.loads("shf", blob), [(a, list(d)) for a, d in secs], "large file")


@case("C07", grid=[dict(gap=g) for g in (255, 256, 65535, 65536, 70000)], bounds="gaps of 255-70000 bytes between two sections of arbitrary bytes, arbitrary filler")
def bin_large(x, gap):
    ou = x.imp("objutils")
    d, e, f = x.bytes("d", 2), x.bytes("e", 1), x.byte("f")
    a = x.int("a", 0, 1 << 40)
    blob = ou.dumps("bin", ou.Image([ou.Section(a, d), ou.Section(a + 2 + gap, e)]), filler=f)
    x.check(len(blob) == 3 + gap, "length")
    x.check(x.all([x.eq(blob[:2], d), blob[-1] == e[0]]), "bytes")
    x.check(x.all([v == f for v in list(blob[2:40]) + list(blob[-41:-1])]), "filler")


# ---------------------------------------------------------------------------------------------------- images
@case("C13", grid=[dict(n=n, step=s) for n, s in ((40, 2), (40, 1), (300, 3))], bounds="40-300 sections of two bytes, touching, overlapping or apart, in mixed order; first and last byte arbitrary")
def many_sections(x, n, step):
    ou = x.imp("objutils")
    first, last = x.byte("first"), x.byte("last")
    secs = [(0x100 + step * k, [first if k == 0 else k & 0xFF, last if k == n - 1 else (k * 3) & 0xFF]) for k in range(n)]
    mixed = secs[::2] + secs[1::2][::-1]
    img = ou.Image([ou.Section(a, d) for a, d in mixed])
    x.check(len(img) == 2 * n, "number of bytes")
    if step == 2:
        common.check_content(x, img, [(0x100, [b for _, d in secs for b in d])], "joined")
    else:
        common.check_content(x, img, secs, "kept apart")


@case("C14", grid=[dict(n=n) for n in (20, 60)], bounds="20-60 insertions of fixed content, the last ones with arbitrary bytes")
def many_inserts(x, n):
    ou = x.imp("objutils")
    img = ou.Image()
    want = bytearray()
    for k in range(n):
        d = bytes([k, x.byte(f"b{k}") if k >= n - 2 else 0x55])
        img.insert_section(d, 0x1000 + 2 * k if k % 3 else None if k else 0x1000)
        want += d
        x.check(img.address == 0x1000 + 2 * k + 2, "next address")
    common.check_content(x, img, [(0x1000, list(want))], "inserted")
    x.check(x.raises(lambda: img.insert_section(b"z", 0x1000 + n), x.imp("objutils.exceptions").InvalidAddressError) is not None, "overlap")


@case("C15", grid=[dict(n=n, at=p) for n, p in ((300, 255), (300, 256), (5000, 4096))], bounds="sections of 300-5000 bytes: reads and writes around an arbitrary byte at a fixed place")
def large_access(x, n, at):
    ou = x.imp("objutils")
    d = spiked(x, n, (at, n - 1))
    base = x.int("base", 0, 1 << 33)
    s = ou.Section(base, bytearray(d))
    x.check(x.eq(s.read(base + at - 1, 3 if at + 2 <= n else 2), d[at - 1 : at + 2]), "read")
    x.check(x.eq(s.read(base, n), d), "read all")
    w = x.bytes("w", 2)
    s.write(base + at, w)
    x.check(x.eq(bytes(s.data), d[:at] + w + d[at + 2 :]), "write")
    hits = list(ou.Section(7, d[:at] + b"needle" + bytes(n)).find(b"needle"))
    x.check(hits == [(7 + at, 6)], "search")


@case("C17", grid=[dict(n=n, dtype=t) for n, t in ((130, "uint8_le"), (129, "uint16_be"), (260, "int32_le"))], bounds="arrays of 129-260 elements, fixed with three arbitrary ones")
def large_array(x, n, dtype):
    ou = x.imp("objutils")
    size = {"uint8_le": 1, "uint16_be": 2, "int32_le": 4}[dtype]
    lo, hi = (-(1 << 31), (1 << 31) - 1) if dtype[0] == "i" else (0, (1 << 8 * size) - 1)
    vals = [k % 100 for k in range(n)]
    for p in (0, 127, n - 1):
        vals[p] = x.int(f"v{p}", lo, hi)
    s = ou.Section(0x10, bytearray(n * size + 2))
    s.write_numeric_array(0x11, vals, dtype)
    x.check(x.all([g == v for g, v in zip(s.read_numeric_array(0x11, n, dtype), vals)]), "read back")
    x.check(s.data[0] == 0 and s.data[-1] == 0, "nothing else written")
    x.check(s.read_numeric(0x11 + size * (n - 1), dtype) == vals[-1], "last element")


@case("C18", grid=[dict(n=n) for n in (255, 256, 300, 1000)], bounds="strings of 255-1000 characters, fixed with arbitrary first and last ones")
def large_string(x, n):
    ou = x.imp("objutils")
    a, b = x.int("a", 1, 255), x.int("b", 1, 255)
    text = chr(a) + "q" * (n - 2) + chr(b)
    s = ou.Section(0, bytearray(n + 2))
    s.data[n + 1] = 0x99
    s.write_string(0, text)
    x.check(x.eq(s.read_string(0), text), "read back")
    x.check(x.eq(s.read_string(1, length=n - 1), text[1:]), "read with a length")
    x.check(s.data[n] == 0 and s.data[n + 1] == 0x99, "terminated")
    x.check(x.raises(lambda: s.write_string(2, text), x.imp("objutils.exceptions").InvalidAddressError) is not None, "does not fit")


@case("C19", grid=[dict(n=n) for n in (20, 64)], bounds="20-64 sections of three bytes ten apart: every address is found in its section")
def many_lookup(x, n):
    ou = x.imp("objutils")
    img = ou.Image([ou.Section(10 * k + 5, bytes([k, k, k])) for k in range(n)], join=False)
    k, o = x.pick("k", 0, n - 1), x.int("o", 0, 2)
    a = 10 * k + 5 + o
    x.check(a in img, "contained")
    x.check(img.get_section(a).start_address == 10 * k + 5, "section")
    x.check(x.eq(img.read(a, 1), bytes([k])), "byte")
    g = x.int("g", 3, 9)
    x.check((10 * k + 5 + g) not in img, "gap")


@case("C20", grid=[dict(n=n, at=p) for n in (300, 5000) for p in (0, 255, 256, -1)], bounds="sections of 300 and 5000 bytes that differ in at most one arbitrary byte at selected places")
def large_compare(x, n, at):
    ou = x.imp("objutils")
    d = pattern(n)
    e = bytearray(d)
    b = x.byte("b")
    e[at] = b
    same = b == d[at]
    p, q = ou.Image([ou.Section(9, d)]), ou.Image([ou.Section(9, e)])
    x.check(x.iff(p == q, same), "images")
    x.check(x.iff(p != q, x.not_(same)), "images differ")
    x.check(x.iff(p[0] == q[0], same), "sections")


@case("C21", grid=[dict(n=n, at=p) for n, p in ((260, 250), (600, 256), (4100, 4096))], bounds="dumps of 260-4100 bytes: rows of an arbitrary byte at a fixed place, total, unequal rows are all there")
def large_dump(x, n, at):
    ou = x.imp("objutils")
    b = x.byte("b")
    d = bytearray(pattern(n, 3))
    d[at] = b
    base = x.choice("base", (0, 0x12345, 0xFFFFFF00))
    out = io.StringIO()
    ou.Section(base, d).hexdump(out)
    lines = out.getvalue().split("\n")
    rows = [r for r in lines if "|" in r]
    x.check(len(rows) == (n + 15) // 16, "one line per row")
    k = at // 16
    row = bytes(d[16 * k : 16 * k + 16])
    want = "%08x " % ((base + 16 * k) & 0xFFFFFFFF) + " " + "".join("%02x " % v for v in row)
    x.check(rows[k][: len(want)] == want, "row of the arbitrary byte")
    x.check(int(lines[-3].split()[0]) == n, "number of bytes")


@case("C22", grid=[dict(n=n, at=p) for n in (300, 1000) for p in (0, 255, 256, 297)], bounds="strings of 300 and 1000 bytes that differ in at most three arbitrary consecutive bytes, and a surplus")
def large_diff(x, n, at):
    diff = x.imp("objutils.utils.diff")
    a = pattern(n)
    b = a[:at] + x.bytes("e", 3) + a[at + 3 :]
    check_diff(x, diff.diff_bin(a, b), a, b)
    check_diff(x, diff.diff_bin(a, b[: n - 1]), a, b[: n - 1])
    check_diff(x, diff.diff_bin(a, b + b"zz"), a, b + b"zz")


@case("C23", grid=[dict(n=n, fill=f) for n in (256, 1000, 70000) for f in (0xFF, None)], bounds="checksums over 256-70000 bytes (two arbitrary ones): the sums pass 2^16 and 2^24")
def large_sums(x, n, fill):
    cs = x.imp("objutils.checksums")
    d = list(bytes([fill]) * n if fill is not None else pattern(n))
    if n <= 1000:
        d[0] = x.byte("a")
    d[-1] = x.byte("b")
    blob = bytes(d)
    t = sum(d)
    w = sum([d[i] + 256 * d[i + 1] for i in range(0, n, 2)])
    l = sum([d[i] + 256 * d[i + 1] + 65536 * d[i + 2] + 16777216 * d[i + 3] for i in range(0, n, 4)])
    for name, want in (("11", t % 256), ("12", t % 65536), ("14", t % (1 << 32)), ("22", w % 65536), ("24", w % (1 << 32)), ("44", l % (1 << 32))):
        x.check(cs.check(blob, "CHK_ADD_" + name) == want, "CHK_ADD_" + name)
    x.check(cs.lrc(blob, 8) == t % 256, "lrc")
    x.check(cs.lrc(blob, 16, cs.COMPLEMENT_TWOS) == -t % 65536, "lrc")
    x.check(cs.nibble_sum(blob) == sum([v // 16 + v % 16 for v in d]) % 256, "nibble sum")
    v = 0
    for b in d:
        v = v ^ b
    x.check(cs.xor(blob, False) == v, "xor")


@case("C23", grid=[dict(algo=a, n=n) for a in CRCS for n in (255, 256, 300)], bounds="CRC-16 variants over 255-300 bytes, the last one arbitrary")
def large_crc(x, algo, n):
    cs = x.imp("objutils.checksums")
    d = pattern(n - 1) + x.bytes("d", 1)
    init, out, refin, refout, poly = CRCS[algo]
    x.check(cs.check(d, algo) == ref_crc16(x, d, init, out, refin, refout, poly), algo)


@case("C25", grid=[dict(n=n, order=o) for n in (127, 255, 256, 300, 1000) for o in ORDERS], bounds="strings of 127-1000 characters (first and last arbitrary) between numbers, positions beyond 255")
def long_text(x, n, order):
    a, b = x.int("a", 1, 127), x.int("b", 1, 127)
    w, t = x.bytes("w", 2), x.bytes("t", 4)
    rd = x.imp("objutils.readers").PlainBinaryReader(io.BytesIO(w + bytes([a]) + b"q" * (n - 2) + bytes([b, 0]) + t), order)
    rd.u16()
    x.check(x.eq(rd.asciiz(), chr(a) + "q" * (n - 2) + chr(b)), "text")
    x.check(rd.pos == n + 3, "position")
    x.check(rd.u32() == u_value(t, order), "the number behind it")
    x.check(rd.pos == n + 7 and rd.size == n + 7, "end")
    rd.pos = 1
    x.check(rd.u8() == w[1], "back at the start")


@case("C26", grid=[dict(n=n) for n in (127, 128, 255, 300)], bounds="operations with an embedded block of 127-300 bytes, expressions of 100 operations with arbitrary operands in the last ones")
def long_blocks(x, n):
    m, p = machine(x, 4, "<")
    d = spiked(x, n, (0, n - 1))
    length = [n] if n < 128 else [n % 128 + 128, n // 128]
    x.check(m.evaluate(bytes([0x9E] + length) + d + b"\x9f") == "implicit_value([" + d.hex(" ") + "]); stack_value()", "block")
    v = x.bytes("v", 2)
    out = m.evaluate(bytes([0x30 + k % 32 for k in range(100)]) + b"\x0a" + v + b"\x22")
    parts = out.split("; ")
    x.check(len(parts) == 102, "number of operations")
    x.check(parts[:100] == [f"lit{k % 32}()" for k in range(100)] and parts[101] == "plus()", "operations")
    check_operand(x, parts[100][8:-1], u_value(v, "<"), "operand")


@case("C27", grid=[dict(n=n) for n in (1, 3, 5, 8, 9, 10, 12, 19)], bounds="implicit constants of 1-19 arbitrary LEB128 bytes between other attributes")
def abbrev_const(x, n):
    bs = leb_bytes(x, "c", n)
    ab = x.imp("objutils.dwarf").Abbrevations(section(bytes([1, 0x34, 0, 0x03, 0x08, 0x1C, 0x21] + bs + [0x3A, 0x0B, 0, 0, 2, 0x24, 1, 0, 0, 0])))
    check_abbrev(x, ab.get(0, 1), ("variable", 0, [("name", "DW_FORM_string", None), ("const_value", "DW_FORM_implicit_const", leb_value(x, bs, True)), ("decl_file", "DW_FORM_data1", None)]))
    check_abbrev(x, ab.get(0, 2), ("base_type", 1, []))


@case("C27", grid=[dict(far=f) for f in (0x20, 0x80, 0xFF, 0x100, 0x3FFF, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x20000)], bounds="two tables with the same codes 32 bytes to 128 KiB apart, either looked up first")
def abbrev_far(x, far):
    c = leb_bytes(x, "c", 2)
    first = bytes([1, 0x24, 0, 0x1C, 0x21] + c + [0, 0, 2, 0x24, 1, 0x03, 0x08, 0, 0, 0])
    second = bytes([1, 0x34, 1, 0x49, 0x13, 0, 0, 2, 0x0D, 0, 0x0B, 0x21] + c + [0, 0, 0])
    want = {(0, 1): ("base_type", 0, [("const_value", "DW_FORM_implicit_const", leb_value(x, c, True))]), (0, 2): ("base_type", 1, [("name", "DW_FORM_string", None)])}
    want[far, 1] = ("variable", 1, [("type", "DW_FORM_ref4", None)])
    want[far, 2] = ("member", 0, [("byte_size", "DW_FORM_implicit_const", leb_value(x, c, True))])
    ab = x.imp("objutils.dwarf").Abbrevations(section(first + bytes(far - len(first)) + second))
    keys = sorted(want, reverse=bool(x.bool("r")))
    for k in keys + keys[::-1]:
        check_abbrev(x, ab.get(*k), want[k])


@case("C27", grid=[dict(n=n) for n in (40, 130, 300)], bounds="a table of 40-300 declarations with 1-3 attributes; a declaration with 60 attributes")
def abbrev_many(x, n):
    c = leb_bytes(x, "c", 2)
    blob = []
    for k in range(1, n + 1):
        blob += ([k] if k < 128 else [k % 128 + 128, k // 128]) + [sorted(TAGS)[k % 6], k % 2, 0x03, 0x08] + ([0x1C, 0x21] + c if k % 3 == 0 else []) + [0, 0]
    blob += [n % 128 + 129, (n + 1) // 128] if n % 128 != 127 else [0x80, (n + 1) // 128]
    blob += [0x34, 0] + [0x0B, 0x0B] * 59 + [0x1C, 0x21] + c + [0, 0, 0]
    ab = x.imp("objutils.dwarf").Abbrevations(section(bytes(blob)))
    v = leb_value(x, c, True)
    for k in (n + 1, 1, n, n // 2, 3):
        if k == n + 1:
            check_abbrev(x, ab.get(0, k), ("variable", 0, [("byte_size", "DW_FORM_data1", None)] * 59 + [("const_value", "DW_FORM_implicit_const", v)]))
        else:
            check_abbrev(x, ab.get(0, k), (TAGS[sorted(TAGS)[k % 6]], k % 2, [("name", "DW_FORM_string", None)] + ([("const_value", "DW_FORM_implicit_const", v)] if k % 3 == 0 else [])))


@case("C28", grid=[dict(kind=k, n=n) for k in ("Block2l", "Block2b", "Block4l", "Block4b", "BlockUleb") for n in (127, 128, 255, 256, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xFFFF, 0x10000) if n < 0x10000 or k[5] != "2"] + [dict(kind="Block1", n=n) for n in (127, 128, 255)], bounds="blocks of 127 to 65536 bytes (fixed content, arbitrary first and last byte)")
def large_blocks(x, kind, n):
    con = getattr(x.imp("objutils.dwarf.encoding"), kind)
    size = {"1": 1, "2": 2, "4": 4}.get(kind[5], 0)
    if size:
        prefix = n.to_bytes(size, "big" if kind[-1] == "b" else "little")
    else:
        prefix, r = b"", n
        while r > 127:
            prefix, r = prefix + bytes([r % 128 + 128]), r // 128
        prefix += bytes([r])
    a, b, m = x.bytes("a", 1), x.bytes("b", 1), x.bytes("m", 2)
    d = a + pattern(n - 2) + b
    st = io.BytesIO(prefix + d + m)
    v = con.parse_stream(st)
    x.check(x.eq(v, d), "content")
    x.check(st.tell() == len(prefix) + n, "position")
    x.check(x.eq(con.build(v), prefix + d), "built again")
    x.check(x.raises(lambda: con.parse(prefix + d[:-1]), Exception) is not None, "cut off block")


@case("C28", grid=[dict(n=n, lead=l, order=o) for n in (1, 127, 255, 256, 257, 1000) for l, o in ((0, "<"), (255, ">"), (256, "<"), (65535, ">"), (65536, "<"), (70000, ">"))], bounds="strings of 1-1000 characters behind 0-70000 others in the table (first and last character arbitrary)")
def large_table(x, n, lead, order):
    enc = x.imp("objutils.dwarf.encoding")
    a, b = x.int("a", 1, 127), x.int("b", 1, 127)
    text = bytes([a]) + b"q" * (n - 2) + (bytes([b]) if n > 1 else b"")
    con = enc.StrP((b"abcdefghi\0" * 7000)[:lead] + text + b"\0uvw\0", enc.Endianess.Little if order == "<" else enc.Endianess.Big)
    x.check(x.eq(con.parse(lead.to_bytes(4, "little" if order == "<" else "big")), text.decode("ascii")), "string")
    x.check(con.parse((lead + n + 1).to_bytes(4, "little" if order == "<" else "big")) == "uvw", "the string behind it")


@case("C28", grid=[dict(n=n, k=k) for n, k in ((300, 2), (5, 40), (127, 5))], bounds="lists of 2-40 strings of 5-300 characters (one arbitrary in each), file tables with the same names")
def large_lists(x, n, k):
    enc = x.imp("objutils.dwarf.encoding")
    ws = [bytes([x.int(f"w{i}", 1, 127) if i in (0, k - 1) else 65 + i]) + b"n" * (n - 1 - i % 2) for i in range(k)]
    m = x.bytes("m", 1)
    st = io.BytesIO(b"".join(w + b"\0" for w in ws) + b"\0" + m)
    r = enc.ArrayOfCStrings().parse_stream(st)
    x.check(len(r) == k, "number of strings")
    for g, w in zip(r, ws):
        x.check(x.eq(g, w.decode("ascii")), "string")
    x.check(x.eq(st.read(), m), "the rest")
    st = io.BytesIO(b"".join(w + bytes([0, i, 0x80 + i, 0, 0xFF, i]) for i, w in enumerate(ws)) + b"\0" + m)
    r = enc.FilenameSequence().parse_stream(st)
    x.check(sorted(r) == list(range(1, k + 1)), "numbered from one")
    for i, w in enumerate(ws):
        x.check(x.eq(r[i + 1].name, w.decode("ascii")), "name")
        x.check(r[i + 1].dir_index == i and r[i + 1].length == 127 + 128 * i, "numbers")
    x.check(x.eq(st.read(), m), "the rest")


# ---------------------------------------------------------------------------------------------------- ELF
@case("C29", grid=[dict(seq=s, **c) for s in ((1, 2, 1), (1, 2, 1, 2, 3, 1), (3, 0xFFF1, 3, 1, 0, 1), (2, 2, 1, 0xFFF2, 2)) for c in (CLASSES[0], CLASSES[3])], bounds="3-6 symbols whose sections alternate, arbitrary values and section flags")
def mixed_symbols(x, seq, b64, order):
    f = Fields(b64, order)
    names = [f"s{k}" for k in range(len(seq))]
    syms = [sym(x, k, f, st_shndx=n, st_size=k, st_other=0, st_bind=1, st_type=k % 3) for k, n in enumerate(seq)]
    data, tab = symtab(f, names, syms)
    fl = [x.int(f"fl{k}", 0, 7) for k in range(3)]
    secs = [dict(name=n, sh_type=1, sh_flags=fl[k], data=[k]) for k, n in enumerate((".text", ".data", ".rodata"))]
    p = parser(x, elf(f, secs + [dict(name=".symtab", sh_type=2, sh_link=5, data=data), dict(name=".strtab", sh_type=3, data=tab)])[0])
    known = {0: "SHN_UNDEF", 1: ".text", 2: ".data", 3: ".rodata", 0xFFF1: "SHN_ABS", 0xFFF2: "SHN_COMMON"}
    for n, s in zip(names, syms):
        r = p.symbols.get(n)
        x.check(x.all([r.st_value == s["st_value"], r.st_size == s["st_size"], r.st_type == s["st_type"]]), "symbol")
        x.check(r.section_name == known[s["st_shndx"]], "section")
        x.check(r.access == (fl[s["st_shndx"] - 1] if 0 < s["st_shndx"] < 4 else 0), "access")
    got = p.symbols.fetch()
    x.check({n: len(v) for n, v in got.items()} == {known[n]: seq.count(n) for n in seq}, "grouped by section")


@case("C29", grid=CLASSES, bounds="80 symbols in 20 sections, names of 1-300 characters, the values of three of them arbitrary")
def many_symbols(x, b64, order):
    f = Fields(b64, order)
    names = [f"sym{k}" if k % 7 else "n" * (300 - k) for k in range(80)]
    syms = [sym(x, k, f, st_value=x.int(f"v{k}", 0, 0xFFFFFFFF) if k in (0, 41, 79) else 1000 + k, st_size=k, st_other=0, st_shndx=1 + k * 7 % 20, st_bind=k % 3, st_type=k % 5) for k in range(80)]
    data, tab = symtab(f, names, syms)
    secs = [dict(name=f".s{k}", sh_type=1, sh_flags=k % 8, data=[k]) for k in range(1, 21)]
    p = parser(x, elf(f, secs + [dict(name=".symtab", sh_type=2, sh_link=22, data=data), dict(name=".strtab", sh_type=3, data=tab)])[0])
    for n, s in zip(names, syms):
        r = p.symbols.get(n)
        x.check(r is not None, "symbol is found")
        x.check(x.all([r.st_value == s["st_value"], r.st_size == s["st_size"]]), "symbol")
        x.check(r.st_bind == s["st_bind"] and r.st_type == s["st_type"] and r.st_shndx == s["st_shndx"], "numbers")
        x.check(r.section_name == f".s{s['st_shndx']}" and r.access == s["st_shndx"] % 8, "section")


@case("C29", grid=[dict(n=300, **c) for c in (CLASSES[0], CLASSES[3])], bounds="300 sections (the contents of three arbitrary), 40 program headers, symbols in sections behind the 255th")
def many_elf_sections(x, n, b64, order):
    f = Fields(b64, order)
    names = ["a", "b", "c"]
    syms = [sym(x, k, f, st_value=k, st_size=k, st_other=0, st_bind=1, st_type=1, st_shndx=s) for k, s in enumerate((1, 255, 256))]
    data, tab = symtab(f, names, syms)
    secs = [dict(name=f".s{k}", sh_type=1, sh_flags=k, sh_addr=16 * k, data=list(x.bytes(f"d{k}", 2)) if k in (1, 255, 300) else [k & 0xFF]) for k in range(1, n + 1)]
    segs = [dict(p_type=1, p_flags=k, p_offset=k, p_vaddr=x.int(f"v{k}", 0, 0xFFFFFFFF) if k in (0, 39) else k, p_paddr=k, p_filesz=1, p_memsz=2, p_align=4) for k in range(40)]
    p = parser(x, elf(f, secs + [dict(name=".symtab", sh_type=2, sh_link=n + 2, data=data), dict(name=".strtab", sh_type=3, data=tab)], segs)[0])
    x.check(len(p.segments) == 40, "segments")
    for g, s in zip(p.segments, segs):
        x.check(x.all([g.p_vaddr == s["p_vaddr"], g.p_flags == s["p_flags"]]), "segment")
    x.check(len(p.sections.fetch()) == n + 4, "sections")
    for k in (1, 2, 128, 254, 255, 256, 257, 299, 300):
        r = p.sections.get(f".s{k}")
        x.check(r is not None and r.index == k and r.sh_addr == 16 * k, "section")
        x.check(x.eq(r.section_image, bytes(secs[k - 1]["data"])), "contents")
    for k, s in zip(names, (1, 255, 256)):
        x.check(p.symbols.get(k).section_name == f".s{s}", "section of the symbol")


@case("C29", grid=[dict(n=n, **c) for n in (255, 256, 5000, 70000) for c in (CLASSES[0], CLASSES[3])], bounds="sections of 255-70000 bytes (first and last byte arbitrary) and what lies behind them")
def large_elf_section(x, n, b64, order):
    f = Fields(b64, order)
    d = list(pattern(n))
    d[0], d[-1] = x.byte("a"), x.byte("b")
    e = x.bytes("e", 2)
    s = sym(x, 0, f, st_shndx=1, st_type=1)
    data, tab = symtab(f, ["main"], [s])
    p = parser(x, elf(f, [dict(name=".text", sh_type=1, sh_flags=6, sh_addr=0x1000, data=d), dict(name=".data", sh_type=1, sh_flags=3, sh_addr=0x90000, data=list(e)), dict(name=".symtab", sh_type=2, sh_link=4, data=data), dict(name=".strtab", sh_type=3, data=tab)])[0])
    x.check(x.eq(p.sections.get(".text").section_image, bytes(d)), "contents")
    x.check(x.eq(p.sections.get(".data").section_image, e), "contents behind it")
    x.check(p.symbols.get("main").st_value == s["st_value"], "symbol")
    img = p.create_image()
    common.check_content(x, img, [(0x1000, d), (0x90000, list(e))], "image")


@case("C30", grid=[dict(n=n, k=k, order=o) for n, k in ((300, 1), (126, 40), (70000, 1), (2, 120)) for o in ORDERS], bounds="40-120 attributes, texts of up to 70000 characters, two vendors; some values arbitrary")
def many_attributes(x, n, k, order):
    mod = x.imp("objutils.elf.arm.attributes")
    c, v = x.int("c", 1, 127), x.int("v", 0, 127)
    attrs, want = [], []
    for i in range(k):
        attrs += [5] + [c] + [0x42] * (n - 1) + [0, 64, i]
        want += [chr(c) + "B" * (n - 1), i]
    attrs += [64, v]
    want.append(v)
    r = mod.parse(bytes(arm_text("A") + arm_section(order, "aeabi", attrs) + arm_section(order, "gnu", [64, v])), order)
    x.check(list(r) == ["aeabi", "gnu"], "vendors")
    x.check(len(r["aeabi"]) == len(want), "number of attributes")
    for g, w in zip(r["aeabi"], want):
        x.check(x.eq(g.value, w) if isinstance(w, str) else g.value == w, "value")
    x.check(len(r["gnu"]) == 1 and r["gnu"][0].value == v, "second vendor")


@case("C32", grid=[dict(kind=k, n=n) for k in range(6) for n in range(6)], bounds="Intel HEX records of every type with 0-5 arbitrary bytes and the right check sum, between data records: read, or refused with a value or record error")
def ihex_types(x, kind, n):
    ou = x.imp("objutils")
    d = list(x.bytes("d", n))
    off = x.choice("off", (0, 0x1234))
    rec = [n, off >> 8, off & 0xFF, kind] + d
    text = ":01004000AA15\n:" + "".join(f"{b:02X}" for b in rec + [-sum(rec) % 256]) + "\n:01005000BBF4\n:00000001FF\n"
    got = []
    e = x.raises(lambda: got.append(ou.loads("ihex", text)))
    if e is None:
        img = got[0]
        if kind in (1, 3, 5):
            common.check_content(x, img, [(0x40, [0xAA]), (0x50, [0xBB])], "records")
        elif kind == 0:
            common.check_content(x, img, sorted([(0x40, [0xAA]), (0x50, [0xBB])] + ([(off, d)] if n else []), key=lambda s: s[0]), "records")
        elif n == 2:
            base = (d[0] * 256 + d[1]) * (16 if kind == 2 else 65536)
            common.check_content(x, img, [(0x40, [0xAA]), (base + 0x50, [0xBB])], "records")
        else:
            x.check(x.all([img.sections[0].start_address == 0x40, img.sections[0].data[0] == 0xAA]), "the record before it")
    else:
        x.check(isinstance(e, ValueError) or type(e).__name__.startswith("Invalid"), "refused with a value or record error")
        x.check(kind in (2, 4) and n != 2 or kind in (3, 5) and n != 4 or kind == 1 and n != 0, "a valid record is accepted")


@case("C34", grid=[dict(codec=c) for c in LONG], bounds="one reader and one writer used for four files of different sizes in a row, an empty one among them; arbitrary content")
def reuse_many(x, codec):
    ou = x.imp("objutils")
    reg = x.imp("objutils.registry").registry.get(codec)
    rd, wr = reg.Reader(), reg.Writer()
    cases = [(0x1000, x.bytes("p", 2)), (0x20, pattern(40)), None, (0xFF0, x.bytes("q", 1)), (0x1000, pattern(3))]
    for c in cases:
        img = ou.Image([ou.Section(c[0], c[1])] if c else [])
        blob = bytes(wr.dumps(img))
        x.check(x.eq(blob, bytes(ou.dumps(codec, img))), "as a new writer")
        common.check_content(x, rd.loads(blob), [(c[0], list(c[1]))] if c else [], "as a new reader")


@case("C35", grid=[dict(n=n, k=k) for n, k in ((100, 7), (256, 255), (257, 256), (1000, 16), (300, 299), (65537, 65536))], bounds="sequences of 100-65537 elements cut into pieces of 7-65536")
def long_slices(x, n, k):
    ou = x.imp("objutils.utils")
    b = x.byte("b")
    d = pattern(n - 1) + bytes([b])
    r = list(ou.slicer(d, k))
    x.check([len(c) for c in r] == [k] * (n // k) + ([n % k] if n % k else []), "lengths")
    x.check(x.eq(b"".join(bytes(c) for c in r), d), "content")


@case("C39", grid=[dict(by=b) for b in (True, False)], bounds="60 symbols in 3 sections, the value of one arbitrary: order, sections, bindings and types")
def fetch_many(x, by):
    f = Fields(False, "<")
    names = [f"{'_' if k % 4 == 0 else 'x'}{k * 37 % 60:02}" for k in range(60)]
    syms = [sym(x, k, f, st_value=x.int(f"v{k}", 0, 0xFFFFFFFF) if k == 30 else (k * 53) % 64, st_size=0, st_other=0, st_shndx=(1, 2, 0xFFF1)[k % 3], st_bind=k % 4 % 3, st_type=k % 5) for k in range(60)]
    data, tab = symtab(f, names, syms)
    secs = [dict(name=".text", sh_type=1, sh_flags=6, data=[1]), dict(name=".data", sh_type=1, sh_flags=3, data=[3]), dict(name=".symtab", sh_type=2, sh_link=4, data=data), dict(name=".strtab", sh_type=3, data=tab)]
    p = parser(x, elf(f, secs)[0])
    for s, n in zip(syms, names):
        s["name"], s["section"] = n, {1: ".text", 2: ".data", 0xFFF1: "SHN_ABS"}[s["st_shndx"]]
    check_fetch(x, p.symbols.fetch(order_by_value=by), syms, by)
    check_fetch(x, p.symbols.fetch(bindings="g", types_str="func,object", order_by_value=by), [s for s in syms if s["st_bind"] == 1 and s["st_type"] in (1, 2)], by)
    check_fetch(x, p.symbols.fetch(sections=".data", name_pattern="_", order_by_value=by), [s for s in syms if s["section"] == ".data" and s["name"][0] == "_"], by)


# ---------------------------------------------------------------------------------------------------- DWARF entries
@case("C40", grid=[dict(sizes=s, versions=v, order=o) for s, v, o in (((4, 8), (4, 4), "<"), ((8, 4), (4, 4), ">"), ((4, 8, 4), (5, 3, 2), "<"), ((8, 2, 4), (5, 5, 5), ">"), ((4, 4, 8), (2, 4, 5), ">"))], bounds="two or three units with different address sizes, arbitrary addresses and location operands")
def address_sizes(x, sizes, versions, order):
    tab = dies.abbrev(1, "compile_unit", 1, [("low_pc", "addr")]) + dies.abbrev(2, "variable", 0, [("location", "exprloc"), ("decl_line", "data1")])
    info, want = [], []
    for k, (n, v) in enumerate(zip(sizes, versions)):
        a, l = x.bytes(f"a{k}", n), x.byte(f"l{k}")
        o = x.bytes(f"o{k}", n) if k == 0 else dies.num(0x41 + k, n, order)
        info += dies.unit([1] + list(a) + [2, n + 1, 0x03] + list(o) + [l, 0], order, v, n, 0)
        want.append((a, o, l))
    res, p = dies.run(x, info, tab, order)
    x.check(len(res.die_entries) == len(sizes), "units")
    for d, (a, o, l) in zip(res.die_entries, want):
        x.check(d.attributes[0][1].raw_value == u_value(a, order), "address")
        x.check(len(d.children) == 1, "children")
        c = d.children[0].attributes
        x.check(x.eq(c[0][1].raw_value, bytes([3] + list(o))), "location")
        t = c[0][1].display_value
        x.check(t[:5] == "addr(" and t[-1] == ")", "operation")
        ov = u_value(o, order)
        if t[5:7] == "0x":
            x.check(int(t[7:-1], 16) == ov, "operand")
        else:
            x.check(x.all([int(t[5:-1]) == ov, ov == 0]), "operand")
        x.check(c[1][1].raw_value == l, "line")


@case("C40", grid=[dict(n=n, deep=d, order=o) for n, d, o in ((60, 0, "<"), (30, 1, ">"), (100, 0, ">"))], bounds="a unit of 60-100 entries side by side or 30 entries inside each other, behind a unit with a text of 300 characters; arbitrary values in some")
def many_entries(x, n, deep, order):
    tab = dies.abbrev(1, "compile_unit", 1, [("name", "string")]) + dies.abbrev(2, "structure_type", 1, [("byte_size", "data1")]) + dies.abbrev(3, "member", 0, [("byte_size", "data1"), ("type", "ref4")])
    c, b, e = x.int("c", 1, 127), x.byte("b"), x.byte("e")
    one = dies.unit([1, c] + [0x41] * 299 + [0, 0], order, 4, 4, 0)
    body = [1, 0x75, 0]
    for k in range(n):
        v = b if k == 0 else e if k == n - 1 else k
        body += [2, v] if deep else [3, v] + dies.num(11, 4, order)
    body += [0] * (n + 1 if deep else 1)
    res, p = dies.run(x, one + dies.unit(body, order, 4, 4, 0), tab, order)
    x.check(x.eq(res.die_entries[0].attributes[0][1].raw_value, chr(c) + "A" * 299), "long text")
    d, o = res.die_entries[1], len(one) + 11
    x.check(res.die_map[o] is d, "second unit")
    o += 3
    if not deep:
        x.check(len(d.children) == n, "children")
    for k in range(n):
        y = d.children[0] if deep else d.children[k]
        if deep:
            x.check(len(d.children) == 1, "one child")
            d = y
        x.check(y.attributes[0][1].raw_value == (b if k == 0 else e if k == n - 1 else k), "value")
        x.check(res.die_map[o] is y, "found at its offset")
        if not deep:
            x.check(y.attributes[1][1].raw_value == len(one) + 11 and res.die_map[len(one) + 11] is d, "reference")
        o += 2 if deep else 6
    x.check(len(res.die_map) == n + 2, "number of entries")
