"""Image and Section: construction, insertion, lookup, comparison and raw access."""

import itertools

from harness import common
from symx.harness import case

TOP = 1 << 32


def snapshot(secs):
    return [(s.start_address, list(s.data)) for s in secs]


def same(x, secs, snap, what):
    x.check(len(secs) == len(snap), what + ": number of sections")
    for s, (a, d) in zip(secs, snap):
        x.check(s.start_address == a, what + ": address")
        x.check(x.eq(list(s.data), d), what + ": data")


def inside(x, addr, blocks, n=1):
    """addr..addr+n-1 lies in one block."""
    return x.any([x.all([a <= addr, addr + n <= a + len(d)]) for a, d in blocks])


def invalid(x):
    return x.imp("objutils.exceptions").InvalidAddressError


PERMS = [dict(lens=l, perm=p) for l in ((2,), (2, 3), (1, 2, 1)) for p in itertools.permutations(range(len(l)))]
LONG = [dict(lens=(1, 1, 1, 1), perm=p) for p in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2))]
KINDS = ("list", "tuple", "generator", "image")


@case("C13", grid=PERMS + LONG[2:], thorough_grid=PERMS + [dict(lens=(1, 1, 1, 1), perm=p) for p in itertools.permutations(range(4))], bounds="1-4 non-overlapping sections of 1-3 symbolic bytes at symbolic 32-bit addresses (touching or not), every order of up to 3 sections, four kinds of containers")
def image_join(x, lens, perm):
    ou = x.imp("objutils")
    blocks, merged = common.layout(x, lens, TOP)
    secs = [ou.Section(a, d) for a, d in blocks]
    given = [secs[i] for i in perm]
    snap = snapshot(given)
    kind = x.choice("kind", KINDS)
    if kind == "list":
        img = ou.Image(given)
    elif kind == "tuple":
        img = ou.Image(tuple(given))
    elif kind == "generator":
        img = ou.Image(s for s in given)
    else:
        first = ou.Image(given, join=False)
        common.check_content(x, first, [(a, list(d)) for a, d in blocks], "join=False keeps every section, sorted")
        img = ou.Image(first)
        common.check_content(x, first, [(a, list(d)) for a, d in blocks], "the other image is left alone")
    common.check_content(x, img, merged, "joined image")
    x.check(len(given) == len(perm), "the list passed in is not consumed")
    same(x, given, snap, "sections passed in are unchanged")
    x.check(len(img) == sum(lens), "len() counts the bytes")
    same(x, list(img), [(a, d) for a, d in merged], "iteration")
    img.join_sections()
    common.check_content(x, img, merged, "joining again changes nothing")
    img[0].data[0] = (merged[0][1][0] + 1) & 0xFF
    same(x, given, snap, "changing the joined image leaves the sections passed in alone")


@case("C13", grid=PERMS, bounds="join_sections() on a list of 1-3 sections of 1-3 symbolic bytes in every order: only a section following its immediate predecessor in the list is merged")
def join_list(x, lens, perm):
    ou = x.imp("objutils")
    sec = x.imp("objutils.section")
    blocks, _ = common.layout(x, lens, TOP)
    want = []
    for i in perm:
        a, d = blocks[i]
        if want and x.split(want[-1][0] + len(want[-1][1]) == a):
            want[-1] = (want[-1][0], want[-1][1] + list(d))
        else:
            want.append((a, list(d)))
    secs = [ou.Section(*blocks[i]) for i in perm]
    snap = snapshot(secs)
    got = sec.join_sections(list(secs))
    same(x, got, want, "join_sections")
    same(x, secs, snap, "arguments of join_sections")


@case("C13", bounds="empty image, single section given directly, wrong argument types")
def image_args(x):
    ou = x.imp("objutils")
    x.check(len(ou.Image()) == 0, "empty image")
    x.check(len(list(ou.Image([]))) == 0, "image of an empty list")
    d = x.bytes("d", 3)
    a = x.int("a", 0, TOP - 3)
    common.check_content(x, ou.Image(ou.Section(a, d)), [(a, list(d))], "image of a section")
    for bad in (4711, 3.5):
        x.check(x.raises(lambda: ou.Image(bad), TypeError) is not None, "numbers are refused")
    for bad in ([1], ["abc"], [ou.Section(a, d), None]):
        x.check(x.raises(lambda: ou.Image(bad), TypeError, AttributeError) is not None, "lists of other things are refused")
    meta = {"k": [1]}
    x.check(ou.Image([ou.Section(a, d)], meta=meta).meta == meta, "meta data is kept")
    x.check(ou.Image([ou.Section(a, d)]).meta == {}, "meta data defaults to an empty mapping")


INS = [dict(lens=l, n=n, join=j) for l in ((), (2,), (2, 1)) for n in (1, 3) for j in (True, False)]


@case("C14", grid=INS, thorough_grid=INS + [dict(lens=(1, 2, 1), n=n, join=j) for n in (1, 2) for j in (True, False)], bounds="0-2 (thorough 3) existing sections, insertion of 1-3 symbolic bytes at a symbolic 32-bit address, joined or not")
def insert(x, lens, n, join):
    ou = x.imp("objutils")
    blocks, _ = common.layout(x, lens, TOP) if lens else ([], [])
    img = ou.Image([ou.Section(a, d) for a, d in blocks], join=join)
    before = common.merge(x, blocks) if join else [(a, list(d)) for a, d in blocks]
    addr = x.int("addr", 0, TOP - n)
    data = x.bytes("new", n)
    overlap = x.any([x.all([addr < a + len(d), a < addr + n]) for a, d in blocks])
    e = x.raises(lambda: img.insert_section(data, addr, join=join), invalid(x))
    x.obs("refused", e is not None)
    x.check(x.iff(e is not None, overlap), "refused exactly if the new bytes overlap an existing section")
    if e is not None:
        common.check_content(x, img, before, "image after a refused insertion")
        return
    pos = 0
    while pos < len(blocks) and x.split(blocks[pos][0] < addr):
        pos += 1
    now = blocks[:pos] + [(addr, data)] + blocks[pos:]
    want = common.merge(x, now) if join else [(a, list(d)) for a, d in now]
    common.check_content(x, img, want, "image after insertion")
    x.check(inside(x, addr, want), "sanity")
    x.check(x.eq(list(img.read(addr, n)), list(data)), "inserted bytes can be read back")


@case("C14", grid=[dict(lens=l) for l in ((1, 2), (2, 1, 3))], bounds="2-3 insertions without address after an optional one at a symbolic address")
def insert_append(x, lens):
    ou = x.imp("objutils")
    img = ou.Image()
    addr = 0
    want = []
    for i, n in enumerate(lens):
        d = x.bytes(f"d{i}", n)
        if i == 0 and x.choice("first", ("given", "default")) == "given":
            addr = x.int("a", 0, TOP - 100)
            img.insert_section(d, addr)
            want = [(addr, list(d))]
        else:
            img.insert_section(d)
            want = [(addr, want[0][1] + list(d))] if want else [(addr, list(d))]
        common.check_content(x, img, want, f"after insertion {i}")


@case("C14", grid=[dict(lens=l, join=j) for l in ((1, 2), (2, 1)) for j in (True, False)] + [dict(lens=(1, 1, 2), join=True)], bounds="2-3 insertions at symbolic 32-bit addresses in any order that touch or leave gaps (or are refused), then one without address: it follows the last insertion that was accepted")
def insert_mixed(x, lens, join):
    ou = x.imp("objutils")
    img = ou.Image()
    blocks, last = [], 0
    for i, n in enumerate(lens):
        a, d = x.int(f"a{i}", 0, TOP - 100), x.bytes(f"d{i}", n)
        e = x.raises(lambda: img.insert_section(d, a, join=join), invalid(x))
        if e is None:
            pos = 0
            while pos < len(blocks) and x.split(blocks[pos][0] < a):
                pos += 1
            blocks.insert(pos, (a, d))
            last = a + n
    d = x.bytes("z", 2)
    overlap = x.any([x.all([last < a + len(v), a < last + 2]) for a, v in blocks])
    e = x.raises(lambda: img.insert_section(d, join=join), invalid(x))
    x.check(x.iff(e is not None, overlap), "refused exactly if occupied")
    if e is None:
        pos = 0
        while pos < len(blocks) and x.split(blocks[pos][0] < last):
            pos += 1
        blocks.insert(pos, (last, d))
    common.check_content(x, img, common.merge(x, blocks) if join else [(a, list(v)) for a, v in blocks], "new data follows the last insertion")


def items(x, kind):
    """(data in one of the accepted kinds, its bytes)."""
    from array import array

    d = [x.int(f"b{i}", 0, 127) for i in range(4)]
    if kind == "bytes":
        return bytes(d), d
    if kind == "bytearray":
        return bytearray(d), d
    if kind == "list":
        return list(d), d
    if kind == "tuple":
        return tuple(d), d
    if kind == "str":
        return "".join(chr(c) for c in d), d
    if kind == "array":
        return array("B", d), d
    if kind == "section":
        return x.imp("objutils").Section(0x4711, bytes(d)), d
    if kind == "array16":
        return array("H", [256 * d[1] + d[0], 256 * d[3] + d[2]]), d
    if kind == "array32":
        return array("I", [d[0] + 256 * d[1] + 65536 * d[2] + 16777216 * d[3]]), d


KINDS = ("bytes", "bytearray", "list", "tuple", "str", "array", "section", "array16", "array32")


@case("C14", grid=[dict(kind=k) for k in KINDS], bounds="data given as bytes, bytearray, list, tuple, str, section or array of items of 1, 2 or 4 bytes, 4 symbolic values, any address, then more data without address; the image keeps its own copy")
def insert_kinds(x, kind):
    ou = x.imp("objutils")
    img = ou.Image([ou.Section(0x100, b"abc")])
    v, d = items(x, kind)
    a = x.int("a", 0xF8, 0x108)
    e = x.raises(lambda: img.insert_section(v, a), invalid(x))
    free = x.split(x.any([a + 4 <= 0x100, a >= 0x103]))
    x.check((e is None) == free, "refused exactly if it overlaps")
    blocks = [(0x100, [97, 98, 99])]
    if free:
        blocks.append((a, d))
        below = x.split(a < 0x100)
        e = x.raises(lambda: img.insert_section(b"z"), invalid(x))
        if below and x.split(a + 4 == 0x100):
            x.check(e is not None, "no room behind the last insertion")
        else:
            x.check(e is None, "room behind the last insertion")
            blocks.append((a + 4, [122]))
        if below:
            blocks = blocks[1:] + blocks[:1]
    common.check_content(x, img, common.merge(x, blocks), "image after insertion")


RW = [dict(lens=l, join=j, top=t) for l, t in (((1,), TOP), ((4,), TOP), ((3, 2), TOP), ((1, 2, 2), 4096)) for j in (True, False) if j or len(l) > 1]
RWDEEP = RW + [dict(lens=(1, 2, 2), join=j, top=TOP) for j in (True, False)]


@case("C15", grid=RW, thorough_grid=RWDEEP, bounds="1-3 sections of 1-4 symbolic bytes anywhere in 32 bits (three sections: 12 bits), symbolic access address from -8 to 8 beyond the range, length 0-6")
def raw_read(x, lens, join, top):
    ou = x.imp("objutils")
    blocks, merged = common.layout(x, lens, top)
    if not join:
        merged = [(a, list(d)) for a, d in blocks]
    img = ou.Image([ou.Section(a, d) for a, d in blocks], join=join)
    addr = x.int("addr", -8, top + 8)
    n = x.pick("n", 0, 6)
    got = []
    e = x.raises(lambda: got.append(img.read(addr, n)), invalid(x))
    ok = x.any([x.all([a <= addr, addr < a + len(d), addr + n <= a + len(d)]) for a, d in merged])
    x.obs("refused", e is not None)
    x.check(x.iff(e is None, ok), "read succeeds exactly if all bytes are in one section")
    if e is None:
        x.check(len(got[0]) == n, "length read")
        x.obs("got", bytes(got[0]))
        for a, d in merged:
            for o in range(len(d) - n + 1):
                x.check(x.implies(addr == a + o, x.eq(list(got[0]), d[o : o + n])), "bytes read")
        if n:
            got[0][0] = (got[0][0] + 1) & 0xFF
    common.check_content(x, img, merged, "image after reading")


@case("C15", grid=RW, thorough_grid=RWDEEP, bounds="1-3 sections of 1-4 symbolic bytes anywhere in 32 bits (three sections: 12 bits), symbolic access address, 0-5 symbolic bytes written")
def raw_write(x, lens, join, top):
    ou = x.imp("objutils")
    blocks, merged = common.layout(x, lens, top)
    if not join:
        merged = [(a, list(d)) for a, d in blocks]
    img = ou.Image([ou.Section(a, d) for a, d in blocks], join=join)
    addr = x.int("addr", -8, top + 8)
    n = x.pick("n", 0, 5)
    new = x.bytes("new", n)
    kind = x.choice("kind", ("bytes", "bytearray"))
    e = x.raises(lambda: img.write(addr, new if kind == "bytes" else bytearray(new)), invalid(x))
    ok = x.any([x.all([a <= addr, addr < a + len(d), addr + n <= a + len(d)]) for a, d in merged])
    x.check(x.iff(e is None, ok), "write succeeds exactly if all bytes are in one section")
    want = []
    for a, d in merged:
        row = list(d)
        if e is None:
            hit = x.all([a <= addr, addr < a + len(d)])
            for o in range(len(d)):
                for k in range(n):
                    row[o] = x.ite(x.all([hit, addr + k == a + o]), new[k], row[o])
        want.append((a, row))
    common.check_content(x, img, want, "image after writing: only the addressed bytes changed")
    if e is None:
        x.check(x.eq(list(img.read(addr, n)), list(new)), "bytes written can be read back")


@case("C15", grid=[dict(n=n) for n in (1, 5)], bounds="Section.read and Section.write on a section of 1 or 5 symbolic bytes, symbolic address, length 0-7")
def section_access(x, n):
    ou = x.imp("objutils")
    a = x.int("a", 0, TOP - n)
    d = x.bytes("d", n)
    s = ou.Section(a, d)
    addr = x.int("addr", -8, TOP + 8)
    k = x.pick("k", 0, 7)
    got = []
    e = x.raises(lambda: got.append(s.read(addr, k)), invalid(x))
    ok = x.all([a <= addr, addr + k <= a + n])
    x.check(x.iff(e is None, ok), "read bounds")
    new = x.bytes("new", k)
    if e is None:
        off = [x.split(addr == a + o) for o in range(n - k + 1)].index(True)
        x.check(x.eq(list(got[0]), list(d[off : off + k])), "bytes read")
    e2 = x.raises(lambda: s.write(addr, new), invalid(x))
    x.check(x.iff(e2 is None, ok), "write bounds")
    want = list(d)
    if e2 is None:
        want[off : off + k] = list(new)
    x.check(len(s) == n, "length is unchanged")
    x.check(x.eq(list(s.data), want), "content after writing")
    x.check(s.start_address == a, "address is unchanged")


@case("C15", grid=[dict(kind=k) for k in KINDS if k not in ("str", "section")], bounds="data written as bytes, bytearray, list, tuple or array of items of 1, 2 or 4 bytes, 4 symbolic values, any address in or near the section")
def write_kinds(x, kind):
    ou = x.imp("objutils")
    old = x.bytes("old", 6)
    img = ou.Image([ou.Section(0x100, old)])
    v, d = items(x, kind)
    a = x.int("a", 0xFE, 0x108)
    e = x.raises(lambda: img.write(a, v), invalid(x))
    want = list(old)
    if e is None:
        x.check(x.all([a >= 0x100, a <= 0x102]), "the data fit")
        o = [x.split(a == 0x100 + i) for i in range(3)].index(True)
        want[o : o + 4] = d
    else:
        x.check(x.any([a < 0x100, a > 0x102]), "the data do not fit")
    common.check_content(x, img, [(0x100, want)], "exactly the addressed bytes change")


@case("C15", grid=[dict(n=n, m=m) for n, m in ((1, 1), (4, 1), (4, 2), (5, 2), (6, 3))], bounds="Section.find: 1-6 symbolic bytes, needle of 1-3 concrete letters, all occurrences from left to right without overlaps")
def find(x, n, m):
    ou = x.imp("objutils")
    a = x.int("a", 0, TOP - n)
    d = x.bytes("d", n)
    needle = {1: b"a", 2: b"ab", 3: b"aab"}[m]
    if m == 2 and x.choice("same", (False, True)):
        needle = b"aa"
    got = list(ou.Section(a, d).find(needle))
    want, i = [], 0
    while i + m <= n:
        if x.split(x.all([d[i + k] == needle[k] for k in range(m)])):
            want.append((a + i, m))
            i += m
        else:
            i += 1
    x.check(len(got) == len(want), "number of occurrences")
    for g, w in zip(got, want):
        x.check(x.all([g[0] == w[0], g[1] == w[1]]), "occurrence")


LK = [dict(lens=l, join=j) for l in ((2,), (1, 3), (2, 1, 1)) for j in (True, False)]


@case("C19", grid=LK, thorough_grid=LK + [dict(lens=(1, 2, 1, 1), join=j) for j in (True, False)], bounds="1-3 (thorough 4) sections of 1-3 symbolic bytes at symbolic 32-bit addresses, symbolic query address from -8 to 2^32+8")
def lookup(x, lens, join):
    ou = x.imp("objutils")
    blocks, merged = common.layout(x, lens, TOP)
    if not join:
        merged = [(a, list(d)) for a, d in blocks]
    img = ou.Image([ou.Section(a, d) for a, d in blocks], join=join)
    addr = x.int("addr", -8, TOP + 8)
    hits = [x.all([a <= addr, addr < a + len(d)]) for a, d in merged]
    x.check(x.iff(addr in img, x.any(hits)), "address in image")
    got = []
    e = x.raises(lambda: got.append(img.get_section(addr)), invalid(x))
    x.check(x.iff(e is None, x.any(hits)), "get_section refuses exactly addresses outside the image")
    for i, s in enumerate(img):
        x.check(x.iff(addr in s, hits[i]), "address in section")
        x.check(s.address == s.start_address, "address alias")
        x.check(s.length == len(merged[i][1]), "length")
        if e is None:
            x.check(x.implies(hits[i], got[0] is s), "get_section returns the containing section")
        x.check(img[i] is s, "index access")


@case("C19", grid=[dict(lens=l, first=f, join=j) for l in ((2,), (1, 2)) for f in (True, False) for j in (True, False)], bounds="1-2 sections and an empty one outside of them (at their ends included), handed in first or last; any query address")
def lookup_empty(x, lens, first, join):
    ou = x.imp("objutils")
    blocks, _ = common.layout(x, lens, TOP)
    at = x.int("at", 0, TOP)
    x.assume(x.all([x.any([at <= a, at >= a + len(d)]) for a, d in blocks]))
    secs = [ou.Section(a, d) for a, d in blocks]
    empty = [ou.Section(at, b"")]
    img = ou.Image(empty + secs if first else secs + empty, join=join)
    addr = x.int("addr", -8, TOP + 8)
    hits = x.any([x.all([a <= addr, addr < a + len(d)]) for a, d in blocks])
    x.check(x.iff(addr in img, hits), "address in image")
    got = []
    e = x.raises(lambda: got.append(img.get_section(addr)), invalid(x))
    x.check(x.iff(e is None, hits), "get_section refuses exactly addresses outside the image")
    if e is None:
        x.check(addr in got[0], "get_section returns the containing section")
        x.check(got[0].read(addr, 1) == img.read(addr, 1), "the byte at the address")


OPS = ("read", "write", "read_numeric", "write_numeric", "read_numeric_array", "write_numeric_array", "read_string", "write_string")


@case("C19", grid=[dict(op=o) for o in OPS], bounds="every access method of Image, two sections of 4 and 3 symbolic bytes, symbolic address: InvalidAddressError outside, else the containing section is used")
def dispatch(x, op):
    ou = x.imp("objutils")
    blocks, _ = common.layout(x, (4, 3), TOP)
    img = ou.Image([ou.Section(a, d) for a, d in blocks], join=False)
    secs = [ou.Section(a, d) for a, d in blocks]
    addr = x.int("addr", -8, TOP + 8)
    v = x.int("v", 0, 255)
    args = {
        "read": (2,), "write": (bytes([v, 7]),), "read_numeric": ("uint16_be",), "write_numeric": (v, "uint16_le"), "read_numeric_array": (2, "uint8_le"),
        "write_numeric_array": ([v, 1], "uint8_be"), "read_string": ("latin1", 2), "write_string": ("a",),
    }[op]
    res, ref = [], []
    e = x.raises(lambda: res.append(getattr(img, op)(addr, *args)), invalid(x))
    hit = [x.split(x.all([a <= addr, addr < a + len(d)])) for a, d in blocks]
    if True not in hit:
        x.check(e is not None, "address outside the image is refused")
        e2 = e
    else:
        s = secs[hit.index(True)]
        e2 = x.raises(lambda: ref.append(getattr(s, op)(addr, *args)), invalid(x))
    x.check((e is None) == (e2 is None), "same outcome as the containing section")
    if ref:
        x.check(x.eq(res[0], ref[0]), "same result as the containing section")
    for s, t in zip(img, secs):
        x.check(x.eq(list(s.data), list(t.data)), "same effect as on the containing section")


@case("C20", grid=[dict(l1=a, l2=b) for a, b in (((2,), (2,)), ((1,), (2,)), ((1, 1), (1, 1)), ((2, 1), (1, 2)), ((1, 1), (2,)), ((), (1,)))], bounds="two images of 0-2 sections of 1-2 symbolic bytes each at symbolic 16-bit addresses")
def image_equality(x, l1, l2):
    ou = x.imp("objutils")

    def mk(tag, lens):
        out, cur = [], 0
        for i, n in enumerate(lens):
            a = x.int(f"{tag}a{i}", 0, 0xFFFF)
            if i:
                x.assume(a >= cur)
            out.append((a, x.bytes(f"{tag}d{i}", n)))
            cur = a + n
        return out

    b1, b2 = mk("p", l1), mk("q", l2)
    i1 = ou.Image([ou.Section(a, d) for a, d in b1])
    i2 = ou.Image([ou.Section(a, d) for a, d in b2])
    m1, m2 = common.merge(x, b1), common.merge(x, b2)
    same_ = len(m1) == len(m2) and x.all([x.all([a == b, x.eq(c, d)]) if len(c) == len(d) else False for (a, c), (b, d) in zip(m1, m2)])
    x.check(x.iff(i1 == i2, same_), "images are equal exactly if they hold the same bytes at the same addresses")
    x.check(x.iff(i1 != i2, x.not_(same_)), "inequality is the negation")
    x.check(x.iff(i2 == i1, same_), "equality is symmetric")
    x.check(i1 == i1, "equality is reflexive")


@case("C20", grid=[dict(n=n, m=m) for n, m in ((0, 1), (1, 1), (2, 2), (2, 3))], bounds="two sections of 0-3 symbolic bytes at symbolic addresses")
def section_order(x, n, m):
    ou = x.imp("objutils")
    a, b = x.int("a", 0, TOP), x.int("b", 0, TOP)
    d, e = list(x.bytes("d", n)), list(x.bytes("e", m))
    s, t = ou.Section(a, bytes(d)), ou.Section(b, bytes(e))
    eq = x.all([a == b, x.eq(d, e)])
    # lexicographic order of (address, bytes)
    lt_data = n < m
    for i in reversed(range(min(n, m))):
        lt_data = x.any([d[i] < e[i], x.all([d[i] == e[i], lt_data])])
    lt = x.any([a < b, x.all([a == b, lt_data])])
    x.check(x.iff(s == t, eq), "==")
    x.check(x.iff(s != t, x.not_(eq)), "!=")
    x.check(x.iff(s < t, lt), "<")
    x.check(x.iff(s <= t, x.any([lt, eq])), "<=")
    x.check(x.iff(s > t, x.not_(x.any([lt, eq]))), ">")
    x.check(x.iff(s >= t, x.not_(lt)), ">=")


@case("C20", bounds="section made from bytes, list, array, str or another section, 3 symbolic values; exports as bytes and list")
def section_copies(x):
    from array import array

    ou = x.imp("objutils")
    a = x.int("a", 0, TOP)
    d = [x.int(f"d{i}", 0, 127) for i in range(3)]
    kind = x.choice("kind", ("bytes", "list", "array", "str", "section", "array16"))
    src = None
    if kind == "bytes":
        s = ou.Section(a, bytes(d))
    elif kind == "list":
        src = list(d)
        s = ou.Section(a, src)
    elif kind == "array":
        src = array("B", d)
        s = ou.Section(a, src)
    elif kind == "array16":
        s = ou.Section(a, array("H", [256 * d[1] + d[0], d[2]]))
        d = d + [0]
    elif kind == "str":
        s = ou.Section(a, "".join(chr(c) for c in d))
    else:
        src = ou.Section(4711, bytes(d))
        s = ou.Section(a, src)
    x.check(s.start_address == a, "address")
    x.check(x.eq(list(s.data), d), "data")
    x.check(x.eq(s.tolist(), d), "tolist")
    x.check(x.eq(list(s.tobytes()), d), "tobytes")
    x.check(len(s) == len(d), "len")
    if src is not None:
        new = (d[0] + 1) & 0xFF
        s.data[0] = new
        got = list(src.data) if kind == "section" else list(src)
        x.check(x.eq(got, d), "changing the section leaves its source alone")
        if kind == "section":
            src.data[1] = (d[1] + 1) & 0xFF
        else:
            src[1] = (d[1] + 1) & 0xFF
        x.check(x.eq(list(s.data), [new, d[1], d[2]]), "changing the source leaves the section alone")
    x.check(x.raises(lambda: ou.Section(a, 5), ValueError) is not None, "an integer is no data")
    x.check(x.raises(lambda: ou.Section(a, [256]), ValueError) is not None, "values above 255 are no bytes")
    x.check(x.raises(lambda: ou.Section(a, [-1]), ValueError) is not None, "negative values are no bytes")
