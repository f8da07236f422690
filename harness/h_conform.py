"""Written files against independently coded definitions of the formats, and foreign files against the readers."""

from harness import common
from symx.harness import case


class Bad(Exception):
    pass


def need(x, cond, what):
    x.check(cond, what)


def unhex(s):
    return list(bytes.fromhex(s))


def rol(v):
    return ((v << 1) | (v >> 7)) & 0xFF


def rotxor(vals):
    cs = 0
    for v in vals:
        cs = rol(cs ^ v)
    return cs


def nibsum(vals):
    return sum((v >> 4) + (v & 15) for v in vals) & 0xFF


def be(vals):
    r = 0
    for v in vals:
        r = (r << 8) | v
    return r


# Each decoder returns [(address, [bytes])] of the data records in file order and checks everything else.
def dec_ihex(x, lines):
    recs, base, done = [], 0, False
    for ln in lines:
        need(x, not done, "nothing follows the end record")
        need(x, ln[0] == ":", "record mark")
        r = unhex(ln[1:])
        need(x, len(r) >= 5, "record is complete")
        need(x, r[0] == len(r) - 5, "length field")
        need(x, sum(r) & 0xFF == 0, "bytes of a record sum to zero")
        t = r[3]
        if t == 0:
            need(x, len(r) > 5, "data record is not empty")
            recs.append((base + ((r[1] << 8) | r[2]), r[4:-1]))
        elif t == 1:
            need(x, len(r) == 5, "end record has no data")
            done = True
        elif t == 2 or t == 4:
            need(x, len(r) == 7, "extended address record has two data bytes")
            need(x, x.all([r[1] == 0, r[2] == 0]), "load offset of an extended address record is zero")
            base = ((r[4] << 8) | r[5]) << (4 if t == 2 else 16)
        else:
            need(x, False, "record type")
    need(x, done, "file ends with an end record")
    return recs


def dec_srec(x, lines):
    recs, kinds = [], []
    for ln in lines:
        need(x, ln[0] == "S", "record mark")
        t = int(ln[1])
        r = unhex(ln[2:])
        need(x, r[0] == len(r) - 1, "count field")
        need(x, sum(r) & 0xFF == 0xFF, "ones complement checksum")
        aw = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 7: 4, 8: 3, 9: 2}[t]
        a, d = be(r[1 : 1 + aw]), r[1 + aw : -1]
        kinds.append(t)
        if t in (1, 2, 3):
            recs.append((a, d))
        elif t == 5:
            need(x, a == len(recs), "S5 holds the number of data records")
        elif t in (7, 8, 9):
            need(x, len(d) == 0, "no data in the start record")
    need(x, len({k for k in kinds if k in (1, 2, 3)}) <= 1, "one kind of data record")
    for i, k in enumerate(kinds):
        if k in (7, 8, 9):
            need(x, i == len(kinds) - 1, "start record comes last")
            need(x, x.all([10 - k == j for j in kinds if j in (1, 2, 3)]), "start record matches the data records")
    return recs


def dec_mostec(x, lines):
    recs = []
    need(x, lines[-1] == ";00", "terminator")
    for ln in lines[:-1]:
        need(x, ln[0] == ";", "record mark")
        r = unhex(ln[1:])
        need(x, r[0] == len(r) - 5, "length field")
        need(x, sum(r[:-2]) == be(r[-2:]), "16 bit sum of length, address and data")
        recs.append((be(r[1:3]), r[3:-2]))
    return recs


def dec_tek(x, lines):
    recs = []
    for i, ln in enumerate(lines):
        need(x, ln[0] == "/", "record mark")
        r = unhex(ln[1:])
        need(x, nibsum(r[:3]) == r[3], "nibble sum of address and length")
        if i == len(lines) - 1:
            need(x, x.all([len(r) == 4, r[2] == 0]), "terminator has length zero")
            continue
        need(x, r[2] == len(r) - 5, "length field")
        need(x, nibsum(r[4:-1]) == r[-1], "nibble sum of the data")
        recs.append((be(r[:2]), r[4:-1]))
    return recs


def dec_sig(x, lines):
    recs = []
    for i, ln in enumerate(lines):
        need(x, ln[0] == ":", "record mark")
        r = unhex(ln[1:])
        if i == len(lines) - 1:
            need(x, x.all([len(r) == 3, r[2] == 0]), "terminator has length zero")
            continue
        need(x, r[2] == len(r) - 5, "length field")
        a = r[:2] if x.split(r[0] != 0) else r[1:2]
        need(x, rotxor(a + [r[2]]) == r[3], "rotated xor of address and length")
        need(x, rotxor(r[4:-1]) == r[-1], "rotated xor of the data")
        recs.append((be(r[:2]), r[4:-1]))
    return recs


def dec_emon52(x, lines):
    recs = []
    for ln in lines:
        need(x, x.all([ln[2] == " ", ln[7] == ":", ln[-5] == " "]), "field separators")
        d = [int(f, 16) for f in ln[8:-5].split(" ")]
        need(x, len(ln[8:-5]) == 3 * len(d) - 1, "two digits per byte")
        need(x, int(ln[:2], 16) == len(d), "length field")
        need(x, int(ln[-4:], 16) == sum(d), "16 bit sum of the data")
        recs.append((int(ln[3:7], 16), d))
    return recs


def dec_etek(x, lines):
    recs = []
    for ln in lines:
        need(x, x.all([ln[0] == "%", ln[3] == "6"]), "record mark and type")
        a, d = int(ln[6:11], 16), unhex(ln[11:])
        # This library counts 10 + 2 * n digits, whatever the specification counts.
        length = int(ln[1:3], 16)
        need(x, length == 2 * len(d) + 10, "length field")
        need(x, int(ln[4:6], 16) == nibsum([a >> 16, (a >> 8) & 255, a & 255, 6, length] + d), "sum of the digits")
        recs.append((a, d))
    return recs


def dec_titxt(x, lines):
    recs, a = [], None
    need(x, lines[-1] == "q", "terminator")
    for ln in lines[:-1]:
        if ln[0] == "@":
            a = int(ln[1:], 16)
            continue
        d = [int(f, 16) for f in ln.split(" ")]
        need(x, len(ln) == 3 * len(d) - 1, "two digits per byte")
        need(x, a is not None, "data is preceded by an address")
        recs.append((a, d))
        a = a + len(d)
    return recs


def dec_ash(x, lines):
    recs, a, total = [], None, 0
    need(x, lines[0][:2] == "\x02 ", "starts with STX")
    last = lines[-1]
    need(x, x.all([last[0] == "\x03", last[1:3] == "$$", last[-1] == ",", len(last) == 8]), "ends with ETX and checksum")
    for ln in lines[1:-1] if len(lines[0]) == 2 else [lines[0][2:]] + lines[1:-1]:
        if ln[0] == "$":
            need(x, x.all([ln[1] == "A", ln[-1] == ","]), "address field")
            a = int(ln[2:-1], 16)
            continue
        d = [int(f, 16) for f in ln.split(" ")]
        need(x, a is not None, "data is preceded by an address")
        recs.append((a, d))
        a = a + len(d)
        total = total + sum(d)
    need(x, int(last[3:7], 16) == total & 0xFFFF, "16 bit sum of all data")
    return recs


def dec_rca(x, lines):
    nul = "\0" * 48
    need(x, x.all([lines[0] == nul + "\r", lines[1] == "!M", lines[-1] == nul + "\r"]), "leader and trailer")
    recs = []
    for ln in lines[2:-1]:
        need(x, x.all([ln[4] == " ", ln[-1] == ";"]), "separators")
        recs.append((int(ln[:4], 16), unhex(ln[5:-1])))
    return recs


def dec_cosmac(x, lines):
    recs = []
    for ln in lines:
        need(x, x.all([ln[:2] == "!M", ln[6] == " "]), "separators")
        recs.append((int(ln[2:6], 16), unhex(ln[7:])))
    return recs


DEC = dict(ihex=dec_ihex, srec=dec_srec, mostec=dec_mostec, tek=dec_tek, sig=dec_sig, emon52=dec_emon52, etek=dec_etek, titxt=dec_titxt, ash=dec_ash, rca=dec_rca, cosmac=dec_cosmac)
BITS = dict(ihex=32, srec=32, etek=20)


def conform(x, codec, lens, row, top=None, base=0, **kws):
    ou = x.imp("objutils")
    blocks, merged = common.layout(x, lens, top or 1 << BITS.get(codec, 16), base)
    blob = bytes(ou.dumps(codec, common.make_image(x, blocks), row_length=row, **kws))
    x.obs("blob", blob)
    text = blob.decode("ascii")
    x.check(text[-1] == "\n", "file ends with a newline")
    lines = text.split("\n")[:-1]
    recs = DEC[codec](x, lines)
    i = off = 0
    for a, d in recs:
        x.check(i < len(merged), "no records beyond the image")
        ea, ed = merged[i]
        x.check(len(d) <= row, "records are not longer than row_length")
        x.check(a == ea + off, "record address")
        x.check(x.eq(list(d), ed[off : off + len(d)]), "record data")
        off += len(d)
        if off >= len(ed):
            i, off = i + 1, 0
    x.check(i == len(merged) and off == 0, "all data is written")
    return lines


G = [((1,), 16), ((5,), 2), ((3, 2), 16)]
ALL = list(DEC)


@case(
    "C08",
    grid=[dict(codec=c, lens=l, row=r) for c in ALL for l, r in G + [((1, 1), 1)]],
    thorough_grid=[dict(codec=c, lens=l, row=r) for c in ALL for l, r in G + [((1, 1), 1), ((7, 4), 3), ((1, 1, 2), 16)]],
    bounds="1-2 sections of 1-5 symbolic bytes (thorough: 3 sections / 7+4 bytes), full address range, row length 1/2/16",
)
def writer_conformance(x, codec, lens, row):
    conform(x, codec, lens, row)


@case("C08", grid=[dict(codec=c, lens=l, row=r) for c in ALL for l, r in (((300,), 122 if c != "sig" else 16), ((40,), 16))], bounds="300 / 40 symbolic bytes in rows of 122 (sig: 16) / 16, 128 byte address window", weight=2)
def writer_conformance_long(x, codec, lens, row):
    b = dict(srec=0xFFFE00, ihex=0xFEC0).get(codec, (1 << BITS.get(codec, 16)) - 128 - lens[0])
    conform(x, codec, lens, row, b + 128 + lens[0], b)


@case("C08", grid=[dict(rt=1, s5=True, start=False), dict(rt=1, s5=True, start=True), dict(rt=2, s5=False, start=True), dict(rt=3, s5=False, start=True)], bounds="S-record options: record type, S5, symbolic start address; sections of 3 and 2 bytes in a 64K window")
def srec_conformance_options(x, rt, s5, start):
    kws = dict(record_type=rt, s5record=s5)
    top = 1 << (8 * (rt + 1))
    if start:
        sa = kws["start_address"] = x.int("start", 0, top - 1)
    lines = conform(x, "srec", (3, 2), 2, top, top - 0x10000, **kws)
    if start:
        ln = lines[-1]
        x.check(ln[1] == str(10 - rt), "file ends with the start record")
        x.check(be(unhex(ln[4:-2])) == sa, "start record holds the start address")
    else:
        x.check(ln_kind(lines[-1]) == ("5" if s5 else str(rt)), "kind of the last record")


def ln_kind(ln):
    return ln[1]
