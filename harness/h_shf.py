"""S Hexdump Format: XML with a digest per block."""

from harness import common
from symx.harness import case

GRID = [dict(lens=l, top=1 << t) for l, t in (((1,), 32), ((5,), 32), ((3, 2), 32), ((1, 1), 16), ((16,), 32), ((17, 1), 32), ((33,), 20), ((300,), 32))]


@case("C06", grid=GRID, thorough_grid=GRID + [dict(lens=(1, 1, 2), top=1 << 32), dict(lens=(520,), top=1 << 32)], bounds="1-2 sections of 1-300 symbolic bytes anywhere in the 32-bit range; SHA-1 is an unconstrained function")
def shf_roundtrip(x, lens, top):
    ou = x.imp("objutils")
    blocks, merged = common.layout(x, lens, top)
    img = common.make_image(x, blocks)
    blob = bytes(ou.dumps("shf", img))
    x.obs("length", len(blob))
    back = ou.loads("shf", blob)
    common.check_content(x, back, merged, "shf round trip")


def doc(blocks):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<dump name="t" blocks="1">\n']
    for attrs, text in blocks:
        out.append("<block " + " ".join(f'{k}="{v}"' for k, v in attrs) + ">" + text + "</block>\n")
    return "".join(out + ["</dump>\n"])


GOOD = bytes(range(10, 15))


def sha(x, data):
    return x.imp("hashlib").sha1(data).hexdigest()


@case("C06", grid=[dict(pos=p) for p in (0, 1, 19, 20, 38, 39)], bounds="one digest digit of a two block file replaced by an arbitrary other hex digit, concrete data")
def shf_wrong_digest(x, pos):
    ou = x.imp("objutils")
    d0, d1 = GOOD, b"\x55\xaa"
    c0, c1 = sha(x, d0), sha(x, d1)
    bad = x.text("bad", 1, "0123456789abcdef")
    x.assume(bad != c0[pos])
    a0 = (("name", "a"), ("address", "0400"), ("word_size", "01"), ("length", "5"), ("checksum", c0[:pos] + bad + c0[pos + 1 :]))
    a1 = (("name", "b"), ("address", "1000"), ("word_size", "01"), ("length", "02"), ("checksum", c1))
    img = ou.loads("shf", doc([(a0, d0.hex()), (a1, d1.hex())]))
    common.check_content(x, img, [(0x1000, list(d1))], "block with a wrong digest is dropped")


@case("C06", grid=[dict(i=i) for i in range(10)], bounds="one data digit of a block replaced by an arbitrary other hex digit, digest of the original data")
def shf_wrong_data(x, i):
    ou = x.imp("objutils")
    text = GOOD.hex()
    bad = x.text("bad", 1, "0123456789abcdefABCDEF")
    x.assume(x.all([bad != text[i], bad != text[i].upper()]))
    a0 = (("name", "a"), ("address", "0400"), ("word_size", "01"), ("length", "5"), ("checksum", sha(x, GOOD)))
    body = text[:i] + bad + text[i + 1 :]
    if x.choice("form", (False, True)):
        body = "  " + body[:4] + "\n\t" + body[4:] + " \n"
    got = ou.loads("shf", doc([(a0, body)]))
    if x.symbolic and len(got.sections):
        # SHA-1 is an unconstrained function here: a kept block must have had its digest compared
        x.check(sha(x, got.sections[0].data) == a0[4][1], "block with modified data is dropped")
        x.assume(False)
    x.check(len(got.sections) == 0, "block with modified data is dropped")


@case("C06", bounds="symbolic length (1-2 digits) and word size (1 digit) attributes against 6 bytes of data with the right digest")
def shf_length(x):
    ou = x.imp("objutils")
    data = bytes(range(0x41, 0x47))
    n = x.int("n", 0, 255)
    w = x.int("w", 0, 15)
    a0 = (("name", "a"), ("address", "00c0"), ("word_size", f"{w:x}"), ("length", f"{n:02x}"), ("checksum", sha(x, data)))
    img = ou.loads("shf", doc([(a0, data.hex(" ", 2))]))
    kept = len(img.sections) == 1
    x.obs("kept", kept)
    x.check(x.iff(kept, n * w == 6), "a block is accepted iff length * word size is its size")
    if kept:
        common.check_content(x, img, [(0xC0, list(data))], "accepted block")


@case("C06", grid=[dict(miss=m) for m in ("name", "address", "word_size", "length", "checksum")], bounds="a block lacking one required attribute next to a good block with a symbolic address")
def shf_missing(x, miss):
    ou = x.imp("objutils")
    addr = x.int("addr", 0x10, 0xFFFFFF)
    full = [("name", "a"), ("address", "0400"), ("word_size", "01"), ("length", "05"), ("checksum", sha(x, GOOD))]
    a0 = [p for p in full if p[0] != miss]
    a1 = [("name", "b"), ("address", f"{addr:06x}"), ("word_size", "01"), ("length", "2"), ("checksum", sha(x, b"\x01\x02"))]
    order = x.choice("order", (0, 1))
    bl = [(a0, GOOD.hex()), (a1, "0102")]
    img = ou.loads("shf", doc(bl if order == 0 else bl[::-1]))
    common.check_content(x, img, [(addr, [1, 2])], "incomplete block is dropped")
