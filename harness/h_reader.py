"""Readers on files this library did not write: layout freedom, corruption and arbitrary text."""

import itertools

from harness import common
from harness.h_conform import be, nibsum, rotxor
from symx.harness import case


def hx(vals, up=True, sep=""):
    return sep.join((f"{v:02X}" if up else f"{v:02x}") for v in vals)


def w(v, n, up=True):
    return f"{v:0{n}X}" if up else f"{v:0{n}x}"


def two(v):
    return [(v >> 8) & 0xFF, v & 0xFF]


def four(v):
    return [(v >> 24) & 0xFF, (v >> 16) & 0xFF, (v >> 8) & 0xFF, v & 0xFF]


# Records according to the format definitions, written independently of the library's writers.
def ihex_rec(t, offs, data, up=True):
    r = [len(data)] + two(offs) + [t] + list(data)
    return ":" + hx(r + [-sum(r) & 0xFF], up)


def srec_rec(t, addr, data, up=True):
    ab = four(addr)[{0: 2, 1: 2, 2: 1, 3: 0, 5: 2, 7: 0, 8: 1, 9: 2}[t] :]
    r = [len(ab) + len(data) + 1] + ab + list(data)
    return f"S{t}" + hx(r + [~sum(r) & 0xFF], up)


def rec(x, codec, a, d, up=True):
    d = list(d)
    if codec == "srec":
        return srec_rec(3, a, d, up)
    if codec == "ihex":
        return ihex_rec(0, a, d, up)
    if codec == "mostec":
        r = [len(d)] + two(a) + d
        return ";" + hx(r + two(sum(r)), up)
    if codec == "tek":
        h = two(a) + [len(d)]
        return "/" + hx(h + [nibsum(h)] + d + [nibsum(d)], up)
    if codec == "sig":
        h = two(a) + [len(d)]
        return ":" + hx(h + [rotxor(h)] + d + [rotxor(d)], up)
    if codec == "emon52":
        return w(len(d), 2, up) + " " + w(a, 4, up) + ":" + hx(d, up, " ") + " " + w(sum(d), 4, up)
    if codec == "etek":
        n = 2 * len(d) + 10
        return "%" + w(n, 2, up) + "6" + w(nibsum([a >> 16, (a >> 8) & 255, a & 255, 6, n] + d), 2, up) + w(a, 5, up) + hx(d, up)
    if codec == "rca":
        return w(a, 4, up) + " " + hx(d, up) + ";"
    if codec == "cosmac":
        return "!M" + w(a, 4, up) + " " + hx(d, up)
    if codec == "titxt":
        return "@" + w(a, 4, up) + "\n" + hx(d, up, " ")
    if codec == "ash":
        return "$A" + w(a, 4, up) + ",\n" + hx(d, up, " ")
    raise ValueError(codec)


HEAD = dict(ash="\x02 \n", rca="\0" * 8 + "\r\n!M\n")
TAIL = dict(mostec=";00", tek="/000000", sig=":000000", titxt="q", ash="\x03$$0000,", rca="\0" * 8, ihex=":00000001FF", srec="S70500000000FA")
BITS = dict(ihex=16, srec=32, etek=20)
CODECS = ("ihex", "srec", "mostec", "tek", "sig", "emon52", "etek", "titxt", "ash", "rca", "cosmac")
STYLES = ("plain", "lower", "crlf", "blank", "nofinal", "garbage")


def load(x, codec, text, how="bytes"):
    ou = x.imp("objutils")
    raw = text.encode("ascii")
    return ou.loads(codec, raw)


@case(
    "C09",
    grid=[dict(codec=c, lens=l, perm=p) for c in CODECS for l in ((2, 1), (1, 1, 2)) for p in itertools.permutations(range(len(l))) if len(l) < 3 or p[0] != 0],
    bounds="files of 2-3 records of 1-2 symbolic bytes at symbolic disjoint addresses in every file order (touching records are joined), six styles: upper/lower case digits, LF/CRLF, blank lines, no final newline, unrelated text lines",
)
def foreign_file(x, codec, lens, perm):
    top = 1 << BITS.get(codec, 16)
    style = x.choice("style", STYLES if len(lens) < 3 else STYLES[:2])
    blocks, merged = common.layout(x, lens, top)
    up = style != "lower"
    lines = [rec(x, codec, *blocks[i], up) for i in perm]
    sep = {"crlf": "\r\n", "blank": "\n\n"}.get(style, "\n")
    if style == "garbage":
        note = {"titxt": "# comment", "ash": "(comment)", "cosmac": "(note)"}.get(codec, "# comment")
        lines = lines[:1] + [note] + lines[1:]
    text = HEAD.get(codec, "") + sep.join(lines)
    if style == "blank" and codec != "ash":
        text = "\n" + text
    if style in ("plain", "crlf") and codec in TAIL:
        text += sep + TAIL[codec]
    if style != "nofinal":
        text += sep
    if style == "crlf":
        text = text.replace("\r\n", "\n").replace("\n", "\r\n")
    x.obs("text", text)
    common.check_content(x, load(x, codec, text), merged, codec + " foreign file")


@case("C09", grid=[dict(order=o) for o in ("LSL", "SLS", "L0S", "LL0", "S0L")], bounds="three data records of 1-2 symbolic bytes, each below a symbolic extended segment (S) or linear (L) address record, or none yet (0 = none, continuing the previous one), plus start address records in between")
def ihex_bases(x, order):
    lines, blocks = [], []
    base = 0
    for i, o in enumerate(order):
        if o == "L":
            v = x.int(f"ext{i}", 0, 0xFFFF)
            lines.append(ihex_rec(4, 0, two(v)))
            base = v << 16
        elif o == "S":
            v = x.int(f"ext{i}", 0, 0xFFFF)
            lines.append(ihex_rec(2, 0, two(v)))
            base = v << 4
        n = 1 + i % 2
        offs = x.int(f"offs{i}", 0, 0x10000 - n)
        d = x.bytes(f"d{i}", n)
        lines.append(ihex_rec(0, offs, d))
        if i == 0:
            lines.append(ihex_rec(3, 0, x.bytes("start", 4)))
        if i == 1:
            lines.append(ihex_rec(5, 0, x.bytes("entry", 4)))
        blocks.append((base + offs, d))
    lines.append(":00000001FF")
    for i, j in ((0, 1), (0, 2), (1, 2)):
        (a, d), (b, e) = blocks[i], blocks[j]
        x.assume(x.any([a + len(d) < b, b + len(e) < a]))
    text = "\n".join(lines) + "\n"
    x.obs("text", text)
    img = load(x, "ihex", text)
    x.check(len(img.sections) == 3, "three sections")
    for a, d in blocks:
        hit = [x.all([s.start_address == a, x.eq(list(s.data), list(d))]) for s in img.sections if len(s.data) == len(d)]
        x.check(x.any(hit), "every record is found at its absolute address")


@case("C09", grid=[dict(first=f) for f in (1, 2, 3)], bounds="S0 header, data records of all three widths with symbolic addresses in one file, S5 count, start record; upper or lower case")
def srec_mixed(x, first):
    kinds = [first, first % 3 + 1, (first + 1) % 3 + 1]
    up = x.choice("up", (True, False))
    hdr = x.bytes("h", 3)
    lines = [srec_rec(0, 0, hdr, up)]
    blocks = []
    for i, k in enumerate(kinds):
        n = 1 + i
        a = x.int(f"a{i}", 0, (1 << (8 * (k + 1))) - n)
        d = x.bytes(f"d{i}", n)
        for b, e in blocks:
            x.assume(x.any([a + n < b, b + len(e) < a]))
        blocks.append((a, d))
        lines.append(srec_rec(k, a, d, up))
    lines.append(srec_rec(5, 3, [], up))
    t = x.choice("t", (7, 8, 9))
    lines.append(srec_rec(t, x.int("start", 0, 0xFFFF), [], up))
    img = load(x, "srec", "\n".join(lines) + "\n")
    x.check(len(img.sections) == 3, "three sections")
    for a, d in blocks:
        hit = [x.all([s.start_address == a, x.eq(list(s.data), list(d))]) for s in img.sections if len(s.data) == len(d)]
        x.check(x.any(hit), "every record is found at its address")
    sr = x.imp("objutils.srec")
    x.check(len(img.meta[sr.S0]) == 1, "header record is kept")
    x.check(x.eq(list(img.meta[sr.S0][0].chunk), list(hdr)), "header text")


@case("C09", grid=[dict(lead=l) for l in ("!M", "?M", "")], bounds="COSMAC: a record with address followed by 1-2 rows without one, then another address; symbolic addresses and bytes")
def cosmac_rows(x, lead):
    a = x.int("a", 0, 0x7FF0)
    b = x.int("b", 0x8000, 0xFFF0)
    d = x.bytes("d", 9)
    k = x.pick("k", 1, 2)
    lines = [f"{lead}{a:04X} {hx(d[:2])}", hx(d[2:5])]
    n = 5
    if k == 2:
        lines.append(hx(d[5:6]))
        n = 6
    lines += [f"{lead}{b:04X} {hx(d[6:7])}", hx(d[7:9])]
    img = load(x, "cosmac", "\n".join(lines) + "\n")
    common.check_content(x, img, [(a, list(d[:n])), (b, list(d[6:9]))], "cosmac")


@case("C09", grid=[dict(codec=c, sep=s) for c, s in (("titxt", " "), ("titxt", ","), ("ash", " "), ("ash", ","), ("ash", "%"), ("ash", "'"))], bounds="ASCII hex: rows of 3, 2 and 1 symbolic bytes below one address, then another address, every separator, trailing separators, addresses of 4 or 6 digits")
def ascii_rows(x, codec, sep):
    a = x.int("a", 0, 0x7FF0)
    b = x.int("b", 0x8000, 0xFFFF00)
    d = x.bytes("d", 8)
    trail = sep if x.choice("trail", (False, True)) else ""
    ad = "@%s" if codec == "titxt" else x.choice("term", ("$A%s,", "$A%s."))
    rows = [ad % f"{a:04X}", hx(d[:3], True, sep) + trail, hx(d[3:5], True, sep) + trail, hx(d[5:6]), ad % f"{b:06X}", hx(d[6:8], True, sep) + trail]
    text = ("" if codec == "titxt" else "\x02 ") + "\n".join(rows) + "\n" + ("q\n@0000\n12 34\n" if codec == "titxt" else "\x03$$0000,\n")
    img = load(x, codec, text)
    common.check_content(x, img, [(a, list(d[:6])), (b, list(d[6:8]))], codec)


# ---------------------------------------------------------------------------------------------------- corruption
CORRUPT = ("ihex", "srec1", "srec2", "srec3", "mostec", "tek", "sig", "etek")


def victim(x, codec, n):
    a = x.int("a", 0, 0xFFFF - n)
    d = x.bytes("d", n)
    if codec.startswith("srec"):
        t = int(codec[4])
        if t > 1:
            a = a + (x.int("hi", 0, 255) << 16)
        return "srec", a, d, srec_rec(t, a, d)
    return codec, a, d, rec(x, codec, a, d)


WIDTH = dict(ihex=11, srec1=10, srec2=12, srec3=14, mostec=11, tek=11, sig=11, etek=11)


@case(
    "C10",
    grid=[dict(codec=c, n=n, pos=p) for c in CORRUPT for n in (1, 2) for p in range(1 + c.startswith("srec"), WIDTH[c] + 2 * n) if (n == 2 or p < WIDTH[c] + 2) and not (c == "etek" and p == 3)],
    thorough_grid=[dict(codec=c, n=n, pos=p) for c in CORRUPT for n in (1, 2, 4) for p in range(1 + c.startswith("srec"), WIDTH[c] + 2 * n) if not (c == "etek" and p == 3)],
    bounds="one valid record of 1-2 (thorough 4) symbolic bytes at a symbolic address with one digit at any given position replaced by any other hexadecimal digit (S-record and etek type digits excepted)",
)
def one_digit(x, codec, n, pos):
    codec, a, d, line = victim(x, codec, n)
    bad = x.text("bad", 1, "0123456789ABCDEF")
    x.assume(bad != line[pos])
    text = line[:pos] + bad + line[pos + 1 :]
    x.obs("text", text)
    got = []
    e = x.raises(lambda: got.append(load(x, codec, text + "\n")))
    if e is None:
        for s in got[0].sections:
            x.check(False, "a record with a wrong digit is accepted")
    x.check(e is not None or len(got[0].sections) == 0, "corruption is detected")


@case("C10", grid=[dict(codec=c, pos=p) for c, m in (("ihex", 15), ("srec3", 18)) for p in range(1 + c.startswith("srec"), m)], bounds="one wrong digit in the first of two records (ihex: an extended linear address record): nothing is read at a wrong address")
def one_digit_context(x, codec, pos):
    d = x.bytes("d", 2)
    if codec == "ihex":
        ext = x.int("ext", 0, 0xFFFF)
        offs = x.int("offs", 0, 0xFFF0)
        first = ihex_rec(4, 0, two(ext))
        second = ihex_rec(0, offs, d)
        a = (ext << 16) + offs
    else:
        a = x.int("a", 0, (1 << 32) - 16)
        first = srec_rec(3, a + 8, [1, 2])
        second = srec_rec(3, a, d)
    bad = x.text("bad", 1, "0123456789ABCDEF")
    x.assume(bad != first[pos])
    text = first[:pos] + bad + first[pos + 1 :] + "\n" + second + "\n"
    got = []
    e = x.raises(lambda: got.append(load(x, codec[:4], text)))
    x.check(e is not None or len(got[0].sections) == 1, "one section is left after the damaged record")
    if e is None:
        common.check_content(x, got[0], [(a, list(d))], "what is left after the damaged record")


@case("C10", grid=[dict(codec="emon52", n=n, pos=p) for n in (1, 2) for p in [0, 1] + list(range(8, 12 + 3 * n))  if not (p >= 10 and (p - 8) % 3 == 2 and p < 8 + 3 * n)], bounds="EMON52 (its checksum covers the data only): one wrong digit in length, data or checksum")
def one_digit_emon(x, codec, n, pos):
    one_digit(x, codec, n, pos)


# ---------------------------------------------------------------------------------------------------- arbitrary text
HEXD = "0123456789ABCDEF"


def hexfields(x, name, n):
    return x.text(name, n, HEXD)


SHAPES = dict(
    ihex=(":", [11, 12, 13, 15]), srec1=("S1", [8, 9, 10, 12]), srec2=("S2", [10, 12, 14]), srec3=("S3", [12, 14, 16]),
    mostec=(";", [10, 12, 14]), tek=("/", [10, 12, 14]), sig=(":", [10, 12, 14]), etek=("%", [10, 12, 14]),
)


def spec(x, codec, s):
    """(condition for validity, address, data) of a line of hex digits after the mark."""
    n = len(s)
    if codec == "etek":
        v = [int(c, 16) for c in s]
        if (n - 10) % 2 or n < 12:
            return False, None, None
        b = [v[i] * 16 + v[i + 1] for i in range(10, n, 2)]
        length, cs = v[0] * 16 + v[1], v[3] * 16 + v[4]
        addr = (v[5] << 16) | (v[6] << 12) | (v[7] << 8) | (v[8] << 4) | v[9]
        return x.all([v[2] == 6, length == 2 * len(b) + 10, cs == nibsum([addr >> 16, (addr >> 8) & 255, addr & 255, 6, 2 * len(b) + 10] + b)]), addr, b
    if n % 2:
        return False, None, None
    b = list(bytes.fromhex(s))
    if codec == "ihex":
        return x.all([b[0] == len(b) - 5, sum(b) & 0xFF == 0, b[3] == 0]), be(b[1:3]), b[4:-1]
    if codec.startswith("srec"):
        k = int(codec[4]) + 1
        return x.all([b[0] == len(b) - 1, b[-1] == ~sum(b[:-1]) & 0xFF]), be(b[1 : 1 + k]), b[1 + k : -1]
    if codec == "mostec":
        return x.all([b[0] == len(b) - 5, be(b[-2:]) == sum(b[:-2])]), be(b[1:3]), b[3:-2]
    cs = nibsum if codec == "tek" else rotxor
    return x.all([b[2] == len(b) - 5, b[3] == cs(b[:3]), b[-1] == cs(b[4:-1])]), be(b[:2]), b[4:-1]


@case("C32", grid=[dict(codec=c, n=n) for c, (_, ns) in SHAPES.items() for n in ns], bounds="one line: record mark plus 8-16 arbitrary hex digits; it yields data exactly if it is a valid record of the format, and then the bytes and the address it encodes")
def arbitrary_line(x, codec, n):
    s = x.text("s", n, HEXD)
    mark = SHAPES[codec][0]
    got = []
    e = x.raises(lambda: got.append(load(x, "srec" if codec.startswith("srec") else codec, mark + s + "\n")))
    ok, addr, data = spec(x, codec, s)
    if e is not None:
        x.check(isinstance(e, ValueError) or type(e).__name__.startswith("Invalid"), "refused with a value or record error")
    if e is not None or len(got[0].sections) == 0:
        x.check(x.not_(x.all([ok, bool(data)]) if data else False), "a valid record is accepted")
        return
    x.check(ok, "only valid records are accepted")
    if data is not None:
        common.check_content(x, got[0], [(addr, data)], "accepted record")


@case("C32", grid=[dict(codec=c, n=n) for c in ("srec", "ihex", "mostec", "tek", "sig", "etek", "emon52", "rca", "cosmac", "titxt", "ash") for n in (1, 2, 3, 5)], bounds="files of 1-5 arbitrary 7-bit characters: never a hang, never an internal error other than a refusal, never more bytes than the digits in the text")
def arbitrary_text(x, codec, n):
    s = x.text("s", n)
    got = []
    e = x.raises(lambda: got.append(load(x, codec, s)))
    if e is None:
        x.check(sum(len(sec) for sec in got[0].sections) <= n // 2, "no more data than the text can hold")
    else:
        x.check(isinstance(e, ValueError) or type(e).__name__.startswith("Invalid"), "refused with a value or record error")
