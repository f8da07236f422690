"""Write-then-read identity of every codec."""

from harness import common
from symx.harness import case

G = [((1,), 16), ((2,), 1), ((5,), 3), ((5,), 2), ((3, 2), 16), ((3, 2), 2), ((1, 1), 1)]
GRID = [dict(lens=l, row=r) for l, r in G]
DEEP = GRID + [dict(lens=l, row=r) for l, r in (((1, 1, 2), 16), ((7, 4), 3), ((2, 2, 1), 1))]
B = "1-3 sections of 1-5 symbolic bytes, symbolic ordered start addresses (touching ones included)"


THREE = dict(lens=(1, 1, 2), row=16)


@case("C01", grid=[dict(THREE, lo=0xFFF0, hi=0x10010), dict(THREE, lo=0xFFFF0, hi=0x100010), dict(THREE, lo=0x1FFFF0, hi=0x210010)], bounds="3 sections of 1/1/2 symbolic bytes anywhere in three windows around page boundaries", weight=2)
def ihex_three(x, lens, row, lo, hi):
    common.roundtrip(x, "ihex", lens, hi, row, base=lo)


@case("C02", grid=[dict(THREE, lo=0xFFF0, hi=0x10010), dict(THREE, lo=0xFFFFF0, hi=0x1000010), dict(THREE, lo=0, hi=0x100)], bounds="3 sections of 1/1/2 symbolic bytes anywhere in three windows", weight=2)
def srec_three(x, lens, row, lo, hi):
    common.roundtrip(x, "srec", lens, hi, row, base=lo)


@case("C01", grid=GRID, thorough_grid=DEEP, bounds=B + ", full 32-bit range, row length 1/2/3/16")
def ihex_roundtrip(x, lens, row):
    common.roundtrip(x, "ihex", lens, 1 << 32, row)


@case("C01", grid=[dict(n=256, row=255), dict(n=300, row=250), dict(n=520, row=200)], bounds="one section of 256-520 symbolic bytes at any 32-bit address, row length 200-255", weight=3)
def ihex_long(x, n, row):
    common.roundtrip(x, "ihex", (n,), 1 << 32, row)


@case(
    "C01",
    grid=[dict(n=100, row=16, lo=a, hi=a + 300) for a in (0xFF00, 0xFFF00, 0x12FF00, 0xFFFFFE50)],
    bounds="one section of 100 symbolic bytes in rows of 16, at any address in a 300 byte window around a 64K page or segment-mode boundary",
    weight=3,
)
def ihex_boundary(x, n, row, lo, hi):
    common.roundtrip(x, "ihex", (n,), min(hi + n, 1 << 32), row, base=lo)


@case("C02", grid=GRID, thorough_grid=DEEP, bounds=B + ", full 32-bit range, record type chosen by the writer")
def srec_roundtrip(x, lens, row):
    common.roundtrip(x, "srec", lens, 1 << 32, row)


@case("C02", grid=[dict(n=251, row=250), dict(n=300, row=250), dict(n=520, row=128)], bounds="one section of 251-520 symbolic bytes at any 32-bit address", weight=3)
def srec_long(x, n, row):
    common.roundtrip(x, "srec", (n,), 1 << 32, row)


@case(
    "C02",
    grid=[dict(n=100, row=16, lo=a, hi=a + 200) for a in (0xFF60, 0xFFFF60, 0xFFFFFF00)],
    bounds="100 symbolic bytes in rows of 16 in a 200 byte window around the 16/24/32 bit limits",
    weight=3,
)
def srec_boundary(x, n, row, lo, hi):
    common.roundtrip(x, "srec", (n,), min(hi + n, 1 << 32), row, base=lo)


@case(
    "C02",
    grid=[
        dict(rt=r, s5=s, start=st, top=1 << t)
        for r, s, st, t in (
            (1, True, False, 16), (1, False, True, 16), (1, True, True, 16), (2, False, True, 24), (3, False, True, 32),
            (2, False, False, 16), (3, False, False, 16), (3, False, True, 24), (None, False, True, 32),
        )
    ],
    bounds="2 sections of 3 and 2 symbolic bytes, symbolic start address, every record type; S5 with 16-bit records only",
)
def srec_options(x, rt, s5, start, top):
    kws = {}
    if rt is not None:
        kws["record_type"] = rt
    if s5:
        kws["s5record"] = True
    if start:
        kws["start_address"] = x.int("start", 0, (1 << (8 * (rt + 1))) - 1) if rt else x.int("start", 0, 0xFFFF)
    img, blob, back = common.roundtrip(x, "srec", (3, 2), top, 2, dump_kws=kws)


@case("C02", grid=[dict(n=n, m=m, row=r) for n, m, r in ((1, 3, 16), (4, 40, 16), (2, 1, 1))], bounds="S0 record of 1-40 symbolic bytes, symbolic 16-bit header address, one section anywhere")
def srec_header(x, n, m, row):
    ou = x.imp("objutils")
    hf = x.imp("objutils.hexfile")
    sr = x.imp("objutils.srec")
    a0 = x.int("a0", 0, (1 << 32) - n)
    ha = x.int("ha", 0, 0xFFFF)
    data, hdr = x.bytes("d", n), x.bytes("h", m)
    img = ou.Image([ou.Section(a0, data)], meta={sr.S0: [hf.MetaRecord(sr.S0, ha, hdr)]})
    blob = bytes(ou.dumps("srec", img, row_length=row))
    x.obs("blob", blob)
    back = ou.loads("srec", blob)
    common.check_content(x, back, [(a0, list(data))], "srec with header")
    x.check(len(back.meta[sr.S0]) == 1, "one header record")
    rec = back.meta[sr.S0][0]
    x.check(x.eq(rec.chunk, hdr), "header text survives")
    x.check(rec.address == ha, "header address survives")
    again = bytes(ou.dumps("srec", back, row_length=row))
    x.check(x.eq(again, blob), "writing the image read back reproduces the file")


@case("C02", grid=[dict(headers=h, n=n, row=r, start=s) for h in (0, 1, 2) for n, r in ((1, 16), (5, 2)) for s in (False, True)], bounds="0-2 S0 records together with an S5 record (and a start address): the count in the S5 record is the number of S1 records; 1-5 symbolic bytes at any address")
def srec_header_count(x, headers, n, row, start):
    ou = x.imp("objutils")
    hf = x.imp("objutils.hexfile")
    sr = x.imp("objutils.srec")
    a0 = x.int("a0", 0, (1 << 16) - n)
    data = x.bytes("d", n)
    hdrs = [(x.int(f"ha{i}", 0, 0xFFFF), x.bytes(f"h{i}", 2)) for i in range(headers)]
    meta = {sr.S0: [hf.MetaRecord(sr.S0, a, h) for a, h in hdrs]} if headers else {}
    kws = dict(start_address=x.int("sa", 0, 0xFFFF)) if start else {}
    blob = bytes(ou.dumps("srec", ou.Image([ou.Section(a0, data)], meta=meta), row_length=row, record_type=1, s5record=True, **kws))
    x.obs("blob", blob)
    lines = blob.decode("ascii").split("\n")[:-1]
    kinds = [ln[1] for ln in lines]
    rows = (n + row - 1) // row
    x.check(kinds == ["0"] * headers + ["1"] * rows + ["5"] + (["9"] if start else []), "kinds of records")
    x.check(lines[headers + rows][2:8] == f"03{rows:04X}", "record count")
    back = ou.loads("srec", blob)
    common.check_content(x, back, [(a0, list(data))], "srec with header and count")
    x.check(len(back.meta.get(sr.S0, [])) == headers, "number of header records")
    for (a, h), rec in zip(hdrs, back.meta.get(sr.S0, [])):
        x.check(x.eq(rec.chunk, h), "header text survives")
        x.check(rec.address == a, "header address survives")


@case("C02", grid=[dict(rt=r) for r in (2, 3)], bounds="S5 record count with 24/32-bit records; 2 rows")
def srec_s5_wide(x, rt):
    common.roundtrip(x, "srec", (3,), 1 << 16, 2, dump_kws=dict(record_type=rt, s5record=True))


CHK = [("mostec", 16), ("tek", 16), ("sig", 16), ("emon52", 16), ("etek", 20)]
PLAIN = [("rca", 16), ("cosmac", 16), ("ash", 16), ("titxt", 16)]


def _grid(formats, layouts=G, maxrow=None):
    return [dict(codec=c, bits=b, lens=l, row=r) for c, b in formats for l, r in layouts]


def _long(formats):
    return [dict(codec=c, bits=b, lens=l, row=min(r, 122 if c == "etek" else 255)) for c, b in formats for l, r in (((300,), 255), ((130, 20), 64), ((257,), 16))]


@case("C03", grid=_grid(CHK), thorough_grid=_grid(CHK, G + [((1, 1, 2), 16), ((7, 4), 3), ((2, 2, 1), 1)]), bounds=B + ", full address range of the format, row length 1/2/3/16")
def checksummed_roundtrip(x, codec, bits, lens, row):
    common.roundtrip(x, codec, lens, 1 << bits, row)


@case("C03", grid=_long(CHK), bounds="300 / 130+20 / 257 symbolic bytes, row length 255 (122 etek) / 64 / 16, addresses in a 600 byte window at the top of the range", weight=3)
def checksummed_long(x, codec, bits, lens, row):
    common.roundtrip(x, codec, lens, 1 << bits, row, base=(1 << bits) - 600)


@case("C04", grid=_grid(PLAIN), thorough_grid=_grid(PLAIN, G + [((1, 1, 2), 16), ((7, 4), 3), ((2, 2, 1), 1)]), bounds=B + ", full 16-bit range, row length 1/2/3/16")
def plain_roundtrip(x, codec, bits, lens, row):
    common.roundtrip(x, codec, lens, 1 << bits, row)


@case("C04", grid=_long(PLAIN), bounds="300 / 130+20 / 257 symbolic bytes, row length 255 / 64 / 16, addresses in a 600 byte window at the top of the range", weight=3)
def plain_long(x, codec, bits, lens, row):
    common.roundtrip(x, codec, lens, 1 << bits, row, base=(1 << bits) - 600)


def _section(x, codec, bits, n=5):
    ou = x.imp("objutils")
    a0 = x.int("a0", 0, (1 << bits) - n)
    data = x.bytes("d", n)
    blob = bytes(ou.dumps(codec, ou.Section(a0, data), row_length=2))
    x.obs("blob", blob)
    common.check_content(x, ou.loads(codec, blob), [(a0, list(data))], codec + " section")


SB = "a bare Section of 5 symbolic bytes instead of an Image, rows of 2, any address"


@case("C01", grid=[dict(codec="ihex", bits=32)], bounds=SB)
def ihex_section(x, codec, bits):
    _section(x, codec, bits)


@case("C02", grid=[dict(codec="srec", bits=32)], bounds=SB)
def srec_section(x, codec, bits):
    _section(x, codec, bits)


@case("C03", grid=[dict(codec=c, bits=b) for c, b in CHK], bounds=SB)
def checksummed_section(x, codec, bits):
    _section(x, codec, bits)


@case("C04", grid=[dict(codec=c, bits=b) for c, b in PLAIN], bounds=SB)
def plain_section(x, codec, bits):
    _section(x, codec, bits)


@case("C05", grid=[dict(lens=l, row=r) for l, r in (((1,), 16), ((2,), 4), ((3,), 2), ((4,), 4))], thorough_grid=[dict(lens=l, row=r) for l, r in (((1,), 16), ((2,), 4), ((4,), 4), ((3,), 2), ((5,), 3), ((6,), 4), ((3, 2), 16), ((1, 1), 4), ((9,), 4))], bounds="one section of 1-4 (thorough: 1-2 sections of up to 9) arbitrary bytes, any 16-bit address")
def fpc_roundtrip(x, lens, row):
    common.roundtrip(x, "fpc", lens, 1 << 16, row)


@case(
    "C05",
    grid=[dict(lens=l, row=r, lo=a, hi=a + 256) for l, r in (((9,), 16), ((5,), 3), ((3, 2), 16), ((7, 1), 4), ((1, 1, 1), 8), ((21,), 10)) for a in (0x0, 0x1200, 0xFF00)],
    bounds="1-3 sections of up to 21 symbolic bytes 0x10-0xFF (no leading zero words) in three 256 byte address windows",
)
def fpc_rows(x, lens, row, lo, hi):
    common.roundtrip(x, "fpc", lens, hi, row, base=lo, dlo=16)


@case("C05", grid=[dict(n=251, row=251), dict(n=300, row=200), dict(n=260, row=64)], bounds="one section of 251-300 bytes, 6 of them symbolic, 16 possible start addresses", weight=3)
def fpc_long(x, n, row):
    ou = x.imp("objutils")
    a0 = x.int("a0", 0x1230, 0x123F)
    fixed = [(i * 37 + 16) & 0xFF for i in range(n)]
    for k, i in enumerate((0, 63, 64, 199, 200, n - 1)):
        if i < n:
            fixed[i] = x.int(f"d{k}", 16, 255)
    blob = bytes(ou.dumps("fpc", ou.Image([ou.Section(a0, fixed)]), row_length=row))
    x.obs("blob", blob)
    common.check_content(x, ou.loads("fpc", blob), [(a0, fixed)], "fpc round trip")


@case("C05", grid=[dict(codec="fpc", bits=16, n=2)], bounds="a bare Section of 2 symbolic bytes, any address")
def fpc_section(x, codec, bits, n):
    _section(x, codec, bits, n)
