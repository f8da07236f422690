"""Histories of operations on one image, compared with a list of (address, bytes) after every step."""

from harness import common
from harness.h_image import TOP, invalid
from symx.harness import case

INSERTS = dict(I=True, i=False, a=True, b=False)  # a and b: no address given
WRITES = "wnsAmS"


def place(x, blocks, addr, data):
    pos = 0
    while pos < len(blocks) and x.split(blocks[pos][0] < addr):
        pos += 1
    return blocks[:pos] + [(addr, data)] + blocks[pos:]


def holder(x, blocks, addr):
    """Index of the block that contains addr, or None."""
    for i, (a, d) in enumerate(blocks):
        if x.split(x.all([a <= addr, addr < a + len(d)])):
            return i
    return None


def write(x, img, op, addr, i):
    """Calls one of the writing methods and returns the bytes it has to put at addr."""
    if op == "n":
        v = x.int(f"v{i}", 0, 0xFFFF)
        return lambda: img.write_numeric(addr, v, "uint16_be"), [v >> 8, v & 0xFF]
    if op == "m":
        v = x.int(f"v{i}", -0x8000, 0x7FFF)
        return lambda: img.write_numeric(addr, v, "int16_le"), [v & 0xFF, (v >> 8) & 0xFF]
    if op == "A":
        v, w = x.int(f"v{i}", 0, 255), x.int(f"w{i}", 0, 255)
        return lambda: img.write_numeric_array(addr, [v, w], "uint8_le"), [v, w]
    if op == "s":
        t = x.text(f"t{i}", 1)
        return lambda: img.write_string(addr, t), [ord(t[0]), 0]
    d = x.bytes(f"d{i}", 2 if op == "w" else 1)
    return lambda: img.write(addr, d), list(d)


SHORT = "Iw iw In Is IA II ii aI bi ia Ij ij IIw iiw Iiw IwI inI iwi iij ija IaI aaw bbw IsI iSj IwS Ims III iii iIi iiI IIa iib ijw ijiw Ibw IaIw".split()
DEEP = sorted({p + q + r + s for p in "Ii" for q in "Iiab" for r in "Ijw" for s in "iwb"})


@case("C44", grid=[dict(ops=o) for o in SHORT], thorough_grid=[dict(ops=o) for o in SHORT + DEEP], bounds="histories of 2-4 operations on an image: insertions (I joined, i not joined, a and b without address) of 1-2 arbitrary bytes, writes (w/S raw, n/m numbers, s strings, A arrays) and joining (j), all at arbitrary addresses of 32 bits; refused operations are part of the history")
def history(x, ops):
    ou = x.imp("objutils")
    img = ou.Image(join="i" not in ops[:1])
    blocks, last = [], 0
    for i, op in enumerate(ops):
        if op in INSERTS:
            n = 2 - (i % 2 if "b" not in ops else 0)
            d = x.bytes(f"d{i}", n)
            given = op in "Ii"
            addr = x.int(f"a{i}", 0, TOP - 16) if given else last
            e = x.raises(lambda: img.insert_section(d, addr if given else None, join=INSERTS[op]), invalid(x))
            occupied = x.split(x.any([x.all([addr < a + len(v), a < addr + n]) for a, v in blocks]))
            x.check((e is not None) == occupied, "an insertion is refused exactly if it overlaps")
            if e is None:
                blocks = place(x, blocks, addr, list(d))
                last = addr + n
                if INSERTS[op]:
                    blocks = common.merge(x, blocks)
        elif op == "j":
            img.join_sections()
            blocks = common.merge(x, blocks)
        else:
            addr = x.int(f"a{i}", 0, TOP)
            call, new = write(x, img, op, addr, i)
            e = x.raises(call, invalid(x))
            k = holder(x, blocks, addr)
            fits = k is not None and x.split(addr + len(new) <= blocks[k][0] + len(blocks[k][1]))
            x.check((e is None) == fits, "a write is refused exactly if a byte is missing in the section")
            if e is None:
                a, d = blocks[k]
                o = x.pick(f"o{i}", 0, len(d) - len(new))
                x.assume(addr == a + o)
                blocks[k] = (a, d[:o] + new + d[o + len(new) :])
        common.check_content(x, img, blocks, f"after operation {i}")
    at = x.int("at", 0, TOP)
    k = holder(x, blocks, at)
    x.check((at in img) == (k is not None), "addresses in the image")
    e = x.raises(lambda: img.get_section(at), invalid(x))
    got = []
    r = x.raises(lambda: got.append(img.read(at, 1)), invalid(x))
    x.check((e is None) == (k is not None) and (r is None) == (k is not None), "addresses that can be read")
    if k is not None:
        a, d = blocks[k]
        x.check(img.get_section(at).start_address == a, "section of an address")
        x.check(x.all([x.implies(at == a + o, got[0][0] == v) for o, v in enumerate(d)]), "byte at an address")
    x.check(len(img) == sum(len(d) for _, d in blocks), "number of bytes")


@case("C44", grid=[dict(how=h) for h in ("empty", "sections", "same")], bounds="two images used in turn: insertions without address, a write and a join at arbitrary addresses; meta data; images made from the same sections")
def two_images(x, how):
    ou = x.imp("objutils")
    if how == "empty":
        one, two = ou.Image(), ou.Image()
        m1, m2 = [], []
    elif how == "sections":
        d, e = x.bytes("d", 2), x.bytes("e", 2)
        one, two = ou.Image(ou.Section(0x100, d)), ou.Image([ou.Section(0x101, e)])
        m1, m2 = [(0x100, list(d))], [(0x101, list(e))]
    else:
        d = x.bytes("d", 2)
        secs = [ou.Section(0x100, d)]
        one, two = ou.Image(secs), ou.Image(secs)
        m1, m2 = [(0x100, list(d))], [(0x100, list(d))]
    x.check(x.eq(one.meta, {}) and x.eq(two.meta, {}) and one.meta is not two.meta, "meta data of their own")
    sec = ou.Section()
    sec.data.extend(b"zz")
    x.check(len(ou.Section()) == 0, "a new section is empty")
    one.meta["k"] = 1
    x.check(two.meta == {} and ou.Image().meta == {}, "meta data of other images")
    a, b = x.bytes("a", 1), x.bytes("b", 1)
    at = x.int("at", 0x200, TOP - 16)
    one.insert_section(a, at)
    m1.append((at, list(a)))
    check_two(x, one, two, m1, m2, "insertion")
    if how == "empty":
        two.insert_section(b)
        m2.append((0, list(b)))
    else:
        two.insert_section(b, 0x180)
        m2.append((0x180, list(b)))
    check_two(x, one, two, m1, m2, "insertion into the other one")
    one.insert_section(b)
    m1[-1] = (at, list(a) + list(b))
    check_two(x, one, two, m1, m2, "insertion behind the last one")
    v = x.byte("v")
    t = m2[-1][0]
    two.write(t, bytes([v]))
    m2[-1] = (t, [v])
    check_two(x, one, two, m1, m2, "write")
    if how != "empty":
        two.write(m2[0][0] + 1, bytes([v]))
        m2[0] = (m2[0][0], [m2[0][1][0], v])
        check_two(x, one, two, m1, m2, "write into a section from outside")
    two.join_sections()
    check_two(x, one, two, m1, m2, "join")


def check_two(x, one, two, m1, m2, what):
    for img, m, name in ((one, m1, "first"), (two, m2, "second")):
        common.check_content(x, img, m, f"{name} image after {what}")
