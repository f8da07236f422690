"""Hex dumps, binary differences, checksum functions and small helpers."""

import io

from symx.harness import case


# ---------------------------------------------------------------------------------------------------- checksums
def ref_reflect(v, n):
    r = 0
    for i in range(n):
        r |= ((v >> i) & 1) << (n - 1 - i)
    return r


def ref_crc16(x, data, init, out, refin, refout, poly):
    """Bit by bit polynomial division, most significant bit first."""
    crc = init
    for b in data:
        if refin:
            b = ref_reflect(b, 8)
        crc = crc ^ (b << 8)
        for _ in range(8):
            top = (crc >> 15) & 1
            crc = ((crc << 1) & 0xFFFF) ^ (top * poly)
    return (ref_reflect(crc, 16) if refout else crc) ^ out


def ref_crc32(data):
    crc = 0xFFFFFFFF
    for b in data:
        crc = crc ^ b
        for _ in range(8):
            crc = (crc >> 1) ^ ((crc & 1) * 0xEDB88320)
    return crc ^ 0xFFFFFFFF


CRCS = {"CHK_CRC_16": (0, 0, True, True, 0x8005), "CHK_CRC_16_CCITT": (0xFFFF, 0, False, False, 0x1021)}


@case("C23", grid=[dict(width=w, n=n) for w in (8, 16) for n in (0, 1, 2, 4)] + [dict(width=8, n=20)], bounds="lrc over 0-20 arbitrary bytes, widths 8 and 16, three complements")
def lrc(x, width, n):
    cs = x.imp("objutils.checksums")
    d = x.bytes("d", n)
    s = 0
    for b in d:
        s = s + b
    m = 1 << width
    x.check(cs.lrc(d, width) == s % m, "sum")
    x.check(cs.lrc(d, width, cs.COMPLEMENT_ONES) == m - 1 - s % m, "ones' complement")
    t = cs.lrc(d, width, cs.COMPLEMENT_TWOS)
    x.check(x.all([t >= 0, t < m, (t + s) % m == 0]), "two's complement: sum plus checksum is zero")
    x.check(cs.lrc(list(d), width) == s % m, "list of numbers")


@case("C23", grid=[dict(n=n) for n in (0, 1, 2, 3)], bounds="xor, rotated xor (both directions, widths 4 and 8), nibble sum over 0-3 arbitrary bytes")
def bytewise(x, n):
    cs = x.imp("objutils.checksums")
    d = x.bytes("d", n)
    v = 0
    for b in d:
        v = v ^ b
    x.check(cs.xor(d) == v ^ 0xFF, "inverted xor")
    x.check(cs.xor(d, False) == v, "xor")
    x.check(cs.xor(d, invert=True) == v ^ 0xFF, "inverted xor")
    left = right = 0
    for b in d:
        left = left ^ b
        left = ((left * 2) % 256) | (left // 128)
        right = right ^ b
        right = (right // 2) | ((right % 2) * 128)
    x.check(cs.rotatedXOR(d, 8, cs.ROTATE_LEFT) == left, "rotated left")
    x.check(cs.rotatedXOR(d, 8, cs.ROTATE_RIGHT) == right, "rotated right")
    x.check(cs.rotatedXOR(d, 4, cs.ROTATE_LEFT) == left % 16, "rotated left, 4 bits")
    s = 0
    for b in d:
        s = s + b // 16 + b % 16
    x.check(cs.nibble_sum(d) == s % 256, "nibble sum")


@case("C23", grid=[dict(n=n) for n in (20, 40)], bounds="nibble sum and additive sums of 20 or 40 arbitrary bytes (beyond one byte)")
def long_sums(x, n):
    cs = x.imp("objutils.checksums")
    d = x.bytes("d", n)
    s = 0
    for b in d:
        s = s + b // 16 + b % 16
    x.check(cs.nibble_sum(d) == s % 256, "nibble sum")
    t = 0
    for b in d:
        t = t + b
    x.check(cs.check(d, "CHK_ADD_11") == t % 256, "sum modulo 2^8")
    x.check(cs.check(d, "CHK_ADD_12") == t, "sum modulo 2^16")


@case("C23", grid=[dict(n=n) for n in (0, 4, 8, 12)], bounds="modular byte, word and double word sums over 0, 4, 8 or 12 arbitrary bytes")
def sums(x, n):
    cs = x.imp("objutils.checksums")
    d = x.bytes("d", n)
    b = sum([0] + list(d))
    w = sum([0] + [d[i] + 256 * d[i + 1] for i in range(0, n, 2)])
    l = sum([0] + [d[i] + 256 * d[i + 1] + 65536 * d[i + 2] + 16777216 * d[i + 3] for i in range(0, n, 4)])
    for name, want in (("11", b % 256), ("12", b % 65536), ("14", b), ("22", w % 65536), ("24", w), ("44", l % (1 << 32))):
        x.check(cs.check(d, "CHK_ADD_" + name) == want, "CHK_ADD_" + name)
        x.check(getattr(cs, "ADD" + name)(d) == want, "ADD" + name)


@case("C23", grid=[dict(algo=a, n=n) for a in CRCS for n in (0, 1, 2)] + [dict(algo=a, n=3) for a in CRCS], bounds="CRC-16 variants over 0-3 arbitrary bytes against bitwise polynomial division")
def crc16(x, algo, n):
    cs = x.imp("objutils.checksums")
    d = x.bytes("d", n)
    init, out, refin, refout, poly = CRCS[algo]
    x.check(cs.check(d, algo) == ref_crc16(x, d, init, out, refin, refout, poly), algo)


@case("C23", grid=[dict(algo=a, refin=i, refout=o) for a in CRCS for i in (False, True) for o in (False, True)], bounds="one step of the CRC from any 16 bit register value, any byte, any final xor value, all reflection settings: by induction any length")
def crc16_step(x, algo, refin, refout):
    cs = x.imp("objutils.checksums")
    table = {"CHK_CRC_16": cs.CRC16, "CHK_CRC_16_CCITT": cs.CRC16_CCITT}[algo].table
    init = x.int("init", 0, 0xFFFF)
    out = x.int("out", 0, 0xFFFF)
    d = x.bytes("d", 1)
    poly = CRCS[algo][4]
    x.check(cs.Crc16(table, init, out, refin, refout)(d) == ref_crc16(x, d, init, out, refin, refout, poly), "one byte")
    r1 = cs.Crc16(table, init, 0, refin, False)(d)
    e = x.bytes("e", 1)
    x.check(cs.Crc16(table, init, out, refin, refout)([d[0], e[0]]) == cs.Crc16(table, r1, out, refin, refout)(e), "two bytes are two steps")


@case("C23", grid=[dict(n=n) for n in (0, 1, 2)], thorough_grid=[dict(n=n) for n in (0, 1, 2, 3)], bounds="CRC-32 over 0-2 (thorough 3) arbitrary bytes (zlib is modelled), unknown algorithms")
def crc32(x, n):
    cs = x.imp("objutils.checksums")
    d = x.bytes("d", n)
    x.check(cs.check(d, "CHK_CRC_32") == ref_crc32(d), "CRC-32")
    x.check(cs.check(list(d), "CHK_CRC_32") == ref_crc32(d), "CRC-32 of a list")
    x.check(x.raises(lambda: cs.check(d, "CHK_USER_DEFINED"), NotImplementedError) is not None, "user defined")
    x.check(x.raises(lambda: cs.check(d, "CHK_FOO"), NotImplementedError) is not None, "unknown")


@case("C23", grid=[dict(n=n) for n in (8, 16, 5)], bounds="reflect: all values of 5, 8, 16 bits")
def reflect(x, n):
    cs = x.imp("objutils.checksums")
    v = x.int("v", 0, (1 << n) - 1)
    x.check(cs.reflect(v, n) == ref_reflect(v, n), "bit order reversed")
    x.check(cs.reflect(cs.reflect(v, n), n) == v, "twice gives the value")


# ---------------------------------------------------------------------------------------------------- differences
@case("C22", grid=[dict(na=a, nb=b) for a in range(5) for b in range(5)] + [dict(na=5, nb=6), dict(na=6, nb=5)], thorough_grid=[dict(na=a, nb=b) for a in range(8) for b in range(8)], bounds="all pairs of 0-4 (and 5/6; thorough 0-7) arbitrary bytes, as bytes or bytearray")
def diff(x, na, nb):
    df = x.imp("objutils.utils.diff")
    a = x.bytes("a", na)
    b = x.bytes("b", nb)
    if (na + nb) % 2:
        a = bytearray(a)
    check_diff(x, df.diff_bin(a, b), a, b)


def check_diff(x, res, a, b):
    na, nb = len(a), len(b)
    n = min(na, nb)
    covered = []
    last = -1
    tail = None
    for k, r in enumerate(res):
        if r.type == "M":
            x.check(tail is None, "surplus is listed last")
            x.check(r.offset > last, "ascending, with an equal byte in between")
            x.check(len(r.a) == len(r.b) and len(r.a) > 0, "both sides of a modification")
            x.check(r.offset + len(r.a) <= n, "inside both inputs")
            x.check(x.eq(list(r.a), list(a[r.offset : r.offset + len(r.a)])), "original bytes")
            x.check(x.eq(list(r.b), list(b[r.offset : r.offset + len(r.a)])), "modified bytes")
            covered.extend(range(r.offset, r.offset + len(r.a)))
            last = r.offset + len(r.a)
        else:
            tail = r
    for i in range(n):
        x.check(x.iff(a[i] != b[i], i in covered), "exactly the bytes that differ are listed")
    if na == nb:
        x.check(tail is None, "no surplus")
    elif na < nb:
        x.check(tail.type == "A" and tail.offset == na and tail.a is None, "appended")
        x.check(x.eq(list(tail.b), list(b[na:])), "appended bytes")
    else:
        x.check(tail.type == "D" and tail.offset == nb and tail.b is None, "deleted")
        x.check(x.eq(list(tail.a), list(a[nb:])), "deleted bytes")
    x.obs("diff", [(r.type, r.offset) for r in res])


@case("C22", bounds="arguments of other types are refused")
def diff_types(x):
    df = x.imp("objutils.utils.diff")
    a = x.bytes("a", 2)
    for bad in ("ab", [1, 2], (1, 2), memoryview(b"ab"), None, 7):
        for args in ((bad, a), (a, bad), (bytearray(a), bad), (bad, bad)):
            x.check(x.raises(lambda: df.diff_bin(*args), TypeError) is not None, f"refused: {args.index(bad)} {type(bad).__name__}")


# ---------------------------------------------------------------------------------------------------- hexdump
def parse_dump(x, text):
    """[(address, [bytes], characters) or '*'], count"""
    lines = text.split("\n")
    x.check(lines[-1] == "", "ends with a newline")
    lines = lines[:-1]
    x.check(lines[-1] == "-" * 15 and lines[-3] == "-" * 15, "separators")
    foot = lines[-2]
    x.check(foot[-6:] == " bytes", "footer")
    out = []
    for ln in lines[:-3]:
        if ln == "          *":
            out.append("*")
            continue
        x.check(len(ln) == 8 + 2 + 48 + 1 + 18, "line format")
        x.check(ln[8:10] == "  " and ln[58] == " " and ln[59] == "|" and ln[76] == "|", "columns")
        hexa = []
        for i in range(16):
            f = ln[10 + 3 * i : 13 + 3 * i]
            if f == "   ":
                continue
            x.check(len(hexa) == i, "bytes are contiguous")
            x.check(f[2] == " ", "column")
            hexa.append(int(f[:2], 16))
        out.append((int(ln[:8], 16), hexa, ln[60:76]))
    return out, int(foot[:-6])


def check_dump(x, text, start, data):
    rows, count = parse_dump(x, text)
    n = len(data)
    x.check(count == n, "number of bytes")
    pos = 0
    prev = None
    star = False
    x.check(rows[0] != "*" and rows[-1] != "*", "first and last line are shown")
    for k, r in enumerate(rows):
        if r == "*":
            x.check(not star, "one star line")
            star = True
            continue
        addr, hexa, chars = r
        if star:
            # the elided lines repeat the previous one
            nxt = None
            while pos + 16 < n and not x.split(addr == (start + pos) % (1 << 32)):
                x.check(x.eq(data[pos : pos + 16], prev), "elided lines equal the line before them")
                pos += 16
            star = False
        x.check(addr == (start + pos) % (1 << 32), "address of the line")
        want = data[pos : pos + 16]
        x.check(len(hexa) == len(want), "bytes in the line")
        x.check(x.eq(hexa, want), "bytes of the line")
        for i in range(16):
            if i < len(want):
                c = want[i]
                x.check(x.implies(x.all([c >= 32, c <= 126]), ord(chars[i]) == c), "printable character")
                x.check(x.implies(x.any([c < 32, c > 126]), chars[i] == "."), "dot")
            else:
                x.check(chars[i] == " ", "padding")
        prev = want
        pos += len(want)
    x.check(pos == n, "the dump is complete")


@case("C21", grid=[dict(n=n) for n in (0, 1, 2, 3)], bounds="one section of 0-3 arbitrary bytes at any 32 bit address")
def dump_small(x, n):
    ou = x.imp("objutils")
    a = x.int("a", 0, (1 << 32) - 1)
    d = x.bytes("d", n)
    fp = io.StringIO()
    ou.Section(a, d).hexdump(fp)
    check_dump(x, fp.getvalue(), a, list(d))


@case("C21", grid=[dict(n=n) for n in (15, 16, 17, 31, 32, 33, 48)], bounds="sections of 15-48 bytes (two of them arbitrary) at any 32 bit address, directly and through the image")
def dump_lines(x, n):
    ou = x.imp("objutils")
    a = x.int("a", 0, (1 << 32) - n)
    d = [(i * 7 + 1) & 0xFF for i in range(n)]
    d[0] = x.int("d0", 0, 255)
    d[n - 1] = x.int("d1", 0, 255)
    fp = io.StringIO()
    ou.Section(a, d).hexdump(fp)
    check_dump(x, fp.getvalue(), a, d)
    fp2 = io.StringIO()
    ou.Image([ou.Section(a, d)]).hexdump(fp2)
    x.check(x.eq(fp2.getvalue(), "\nSection #0000\n-------------\n" + fp.getvalue()), "image dump")


@case("C21", grid=[dict(n=n) for n in (32, 48, 64, 70)], thorough_grid=[dict(n=n) for n in (32, 48, 64, 70, 80, 96)], bounds="sections of 32-70 (thorough 96) bytes at any address, every line one of three kinds that differ in one byte: repeated lines are abbreviated without loss")
def dump_repeats(x, n):
    ou = x.imp("objutils")
    a = x.int("a", 0, (1 << 32) - n)
    d = []
    for i in range((n + 15) // 16):
        k = x.int(f"k{i}", 0, 2)
        d += [0] * 15 + [k]
    d = d[:n]
    fp = io.StringIO()
    ou.Section(a, d).hexdump(fp)
    check_dump(x, fp.getvalue(), a, d)


@case("C21", bounds="image of two sections of identical lines: the second section's lines are all shown")
def dump_two(x):
    ou = x.imp("objutils")
    a = x.int("a", 0, 0xFFFF)
    v = x.byte("v")
    d = [v] * 17
    img = ou.Image([ou.Section(a, d), ou.Section(a + 100, d)])
    fp = io.StringIO()
    img.hexdump(fp)
    t = fp.getvalue()
    parts = t.split("\nSection #")
    x.check(len(parts) == 3 and parts[0] == "", "two sections")
    for i, p in enumerate(parts[1:]):
        x.check(p[:4] == "%04d" % i and p[4:19] == "\n-------------\n", "section header")
        check_dump(x, p[19:], a + 100 * i, d)


# ---------------------------------------------------------------------------------------------------- helpers
@case("C35", grid=[dict(n=n, m=m) for n in range(7) for m in (1, 2, 3, 8)], bounds="slicer on 0-6 arbitrary bytes as bytes, list or tuple, slice lengths 1, 2, 3, 8")
def slicer(x, n, m):
    u = x.imp("objutils.utils")
    d = x.bytes("d", n)
    for conv in (bytes, list, tuple):
        s = conv(d)
        r = u.slicer(s, m)
        x.check(isinstance(r, list) and len(r) == (n + m - 1) // m, "number of slices")
        for i, p in enumerate(r):
            x.check(x.eq(list(p), list(d[i * m : i * m + m])), "content of a slice")
            x.check(isinstance(p, conv), "type of a slice")
    r = u.slicer(d, m, list)
    x.check(x.eq([b for p in r for b in p], list(d)), "converted slices")


@case("C35", grid=[dict(bits=b) for b in (8, 16, 24, 32, 64)], bounds="int_to_array: all values up to 64 bits")
def int_to_array(x, bits):
    u = x.imp("objutils.utils")
    v = x.int("v", 0, (1 << bits) - 1)
    r = u.int_to_array(v)
    x.check(len(r) >= 1, "at least one byte")
    acc = 0
    for b in r:
        x.check(x.all([b >= 0, b <= 255]), "byte")
        acc = acc * 256 + b
    x.check(acc == v, "big endian value")
    if len(r) > 1:
        x.check(r[0] != 0, "shortest form")
    x.obs("r", r)


@case("C35", bounds="ffs: all 64 bit values")
def ffs(x):
    u = x.imp("objutils.utils")
    v = x.int("v", 0, (1 << 64) - 1)
    r = u.ffs(v)
    if v == 0:
        x.check(r == 0, "no bit set")
    else:
        x.check((v >> r) & 1 == 1, "the bit is set")
        x.check(v & ((1 << r) - 1) == 0, "no lower bit is set")
    x.obs("r", r)


@case("C35", bounds="make_list: numbers and lists in four arrangements")
def make_list(x):
    u = x.imp("objutils.utils")
    a, b, c = (x.int(n, 0, 1000) for n in "abc")
    want = [a, b, c]
    for args in ((a, b, c), ([a, b], c), (a, [b, c]), ([a], (b,), [c]), ([], a, [], [b, c])):
        x.check(x.eq(u.make_list(*args), want), "flattened in order")
    x.check(u.make_list() == [], "nothing")


@case("C35", grid=[dict(n=n) for n in (0, 1, 2, 3, 5)], bounds="cygpath_to_win: /cygdrive/<letter>/ followed by 0-5 arbitrary printable characters; any path of 1-5 characters that is no Cygwin path")
def cygpath(x, n):
    u = x.imp("objutils.utils")
    dr = x.text("dr", 1)
    x.assume(x.all([dr >= "a", dr <= "z"]))
    p = x.text("p", n)
    r = u.cygpath_to_win("/cygdrive/" + dr + "/" + p)
    x.check(len(r) == n + 3, "length")
    x.check(r[:3] == dr + ":\\", "drive")
    for i in range(n):
        x.check(r[3 + i] == ("\\" if p[i] == "/" else p[i]), "path")
    if n:
        x.check(x.eq(u.cygpath_to_win(p), p), "other paths stay")


@case("C35", bounds="filler: any byte and count -2..5, any count and byte -300..300")
def fillers(x):
    s = x.imp("objutils.section")
    n = x.pick("n", -2, 5)
    ch = x.int("ch", -300, 300)
    got = []
    e = x.raises(lambda: got.append(s.filler(ch, n)), ValueError)
    x.check(x.iff(e is None, x.all([n >= 1, ch >= 0, ch <= 255])), "bytes and counts that make no sense are refused")
    if e is None:
        x.check(len(got[0]) == n and x.eq(list(got[0]), [ch] * n), "content")
    for args in (("a", 3), (1, "3"), (1.0, 3), (1, None)):
        x.check(x.raises(lambda: s.filler(*args), TypeError) is not None, "numbers only")


@case("C35", bounds="ranges of the eight integer types against every value of 66 bits except 2**63")
def ranges(x):
    s = x.imp("objutils.section")
    v = x.int("v", -(1 << 65), 1 << 65)
    x.assume(v != 1 << 63)
    bits = x.choice("bits", (8, 16, 32, 64))
    for sign in ("", "u"):
        lo, hi = s.RANGES[f"{sign}int{bits}"]
        u = v % (1 << bits)
        fits = v == (u if sign else x.ite(u >= 1 << bits - 1, u - (1 << bits), u))
        x.check(x.iff(x.all([lo <= v, v <= hi]), fits), "values a type can hold")
    x.check(tuple(s.RANGES["byte"]) == (0, 255), "bytes are unsigned")


@case("C35", bounds="2**63 is no signed number of 64 bits (known finding)")
def range_int64(x):
    s = x.imp("objutils.section")
    v = x.int("v", 1 << 63, (1 << 63) + 1)
    x.check(x.any([v == 1 << 63, v > s.RANGES["int64"].upper]), "limit of int64")
    x.check(v > s.RANGES["int64"].upper, "2**63 counts as a signed number of 64 bits")
    x.check(v <= s.RANGES["uint64"].upper, "limit of uint64")


@case("C35", bounds="partial application with 0-2 pending and 0-2 further arguments, keywords given before, later and both")
def curry(x):
    u = x.imp("objutils.utils")
    a, b, c, d, k, m = (x.int(n, 0, 9) for n in "abcdkm")
    n, j = x.pick("n", 0, 2), x.pick("j", 0, 2)

    def show(*args, **kws):
        return list(args), sorted(kws.items())

    first, then = [a, b][:n], [c, d][:j]
    for kw, more in (({}, {}), ({"k": k}, {}), ({}, {"m": m}), ({"k": k}, {"m": m}), ({"k": k, "m": 1}, {"m": m})):
        f = u.Curry(show, *first, **kw)
        for late in (more, {"z": 3}, more, {}):
            args, kws = f(*then, **late)
            x.check(x.eq(args, first + then), "arguments in order")
            want = sorted({**kw, **late}.items())
            x.check([w for w, _ in kws] == [w for w, _ in want] and x.eq([v for _, v in kws], [v for _, v in want]), "keywords, the later ones win")


@case("C35", grid=[dict(n=n) for n in (0, 1, 5)], bounds="files of 0, 1 and 5 arbitrary bytes, any offset and length up to 7")
def extract(x, n):
    u = x.imp("objutils.utils")
    d = x.bytes("d", n)
    at, k = x.pick("at", 0, 7), x.pick("k", 0, 7)
    p = x.path("a.bin", d)
    got = u.bin_extractor(p, at, k)
    x.check(x.eq(list(got), list(d[at : at + k])), "bytes of the file")
    x.check(x.eq(list(x.file_content(p)), list(d)), "the file stays")
