"""Limits of the formats, conversion between formats, file access, probing and reuse of codec objects."""

import io

from harness import common
from symx.harness import case

BITS = dict(ihex=32, srec=32, etek=20, mostec=16, tek=16, sig=16, emon52=16, titxt=16, ash=16, rca=16, cosmac=16, fpc=16)
ROW = dict(ihex=255, srec=252, etek=122, mostec=255, tek=255, sig=255, emon52=255, titxt=255, ash=255, rca=255, cosmac=255, fpc=251)


@case("C11", grid=[dict(codec=c, shape=s) for c in BITS for s in ("one", "two", "section")], bounds="image of one or two sections or a bare section of 1-3 symbolic bytes anywhere up to twice the address range of the format")
def address_range(x, codec, shape):
    ou = x.imp("objutils")
    hf = x.imp("objutils.hexfile")
    top = 1 << BITS[codec]
    lo = 0
    if codec == "fpc":
        lo = top - 16
    a = x.int("a", lo, 2 * top)
    n = x.pick("n", 1, 3) if codec != "fpc" else 2
    d = x.bytes("d", n) if codec != "fpc" else common.bytes_from(x, "d", n, 16)
    if shape == "two":
        src = ou.Image([ou.Section(a, d), ou.Section(8, b"\x11\x22")] if x.choice("order", (0, 1)) else [ou.Section(8, b"\x11\x22"), ou.Section(a, d)])
        x.assume(x.any([a > 10, a + n < 8]))
        if lo == 0:
            x.assume(a > 10)
        want = [(8, [0x11, 0x22]), (a, list(d))]
    else:
        src = ou.Section(a, d)
        want = [(a, list(d))]
        if shape == "one":
            src = ou.Image([src])
    got = []
    e = x.raises(lambda: got.append(bytes(ou.dumps(codec, src))), hf.AddressRangeToLargeError)
    x.check(x.iff(e is None, a + n <= top), "refused exactly if the last byte is beyond the address range")
    if e is None:
        common.check_content(x, ou.loads(codec, got[0]), want, "what was accepted is not truncated")


@case("C11", grid=[dict(codec=c, rows=r) for c in BITS for r in ("small", "edge", "big")], bounds="row lengths -2..1, limit-1..limit+3 and 400 on a section of 300 bytes (two of them symbolic): refused, or everything is written")
def row_limit(x, codec, rows):
    ou = x.imp("objutils")
    hf = x.imp("objutils.hexfile")
    lim = ROW[codec]
    if rows == "edge":
        r = lim + x.pick("r", -1, 3)
    else:
        r = x.pick("r", -2, 1) if rows == "small" else 400
    n = 300 if r > 1 else 5
    d = [(i * 37 + 16) & 0xFF for i in range(n)]
    d[0] = x.int("d0", 16, 255)
    d[-1] = x.int("d1", 16, 255)
    img = ou.Image([ou.Section(0x100, d)])
    got = []
    e = x.raises(lambda: got.append(bytes(ou.dumps(codec, img, row_length=r))), hf.InvalidRecordLengthError)
    if e is None:
        common.check_content(x, ou.loads(codec, got[0]), [(0x100, d)], f"row length {r} is accepted, the file is complete")
    x.check((e is None) == (1 <= r <= lim), "row length limit")


@case("C11", grid=[dict(rt=r, start=s) for r in (1, 2, 3) for s in (False, True)], bounds="record type 1-3 requested for 2 bytes at a symbolic 33 bit address and a symbolic 33 bit start address: refused exactly if an address does not fit the type")
def srec_type_limit(x, rt, start):
    ou = x.imp("objutils")
    hf = x.imp("objutils.hexfile")
    top = 1 << (8 * (rt + 1))
    a = x.int("a", 0, 1 << 33)
    d = x.bytes("d", 2)
    kws = dict(record_type=rt)
    ok = a + 2 <= top
    if start:
        s = kws["start_address"] = x.int("s", 0, 1 << 33)
        ok = x.all([ok, s < top])
    got = []
    e = x.raises(lambda: got.append(bytes(ou.dumps("srec", ou.Image([ou.Section(a, d)]), **kws))), hf.AddressRangeToLargeError)
    x.check(x.iff(e is None, ok), "refused exactly if an address does not fit")
    if e is None:
        common.check_content(x, ou.loads("srec", got[0]), [(a, list(d))], "what was accepted is not truncated")


@case("C11", grid=[dict(codec=c, why=w) for c in BITS for w in ("address", "row", "option")] + [dict(codec="bin", why="filler")], bounds="an existing file as the target of an image that may be refused (address up to twice the range, row length 0 or too long, unknown option, invalid filler): it is replaced, or left alone")
def refused_file(x, codec, why):
    ou = x.imp("objutils")
    top = 1 << BITS.get(codec, 32)
    a, d, kws = 0x100, [0x41, 0x42], {}
    if why == "address":
        a = x.int("a", top - 8, top + 8)
    elif why == "row":
        kws["row_length"] = x.choice("row", (0, -1, ROW[codec] + 1, 16))
    elif why == "option":
        kws["no_such_option"] = 1
    else:
        kws["filler"] = x.choice("filler", (b"", b"ab", 256, -1, "x", b"x"))
    path = x.path("target.dat", b"precious")
    img = ou.Image([ou.Section(a, d)])
    e = x.raises(lambda: ou.dump(codec, path, img, **kws), Exception)
    if e is None:
        x.check(x.eq(x.file_content(path), bytes(ou.dumps(codec, img, **kws))), "the file is replaced")
    else:
        x.check(x.eq(x.file_content(path), b"precious"), "the file is left alone")


@case("C11", grid=[dict(codec=c) for c in list(BITS) + ["shf", "bin"]], bounds="image without sections, every codec; unknown options")
def empty_image(x, codec):
    ou = x.imp("objutils")
    x.check(bytes(ou.dumps(codec, ou.Image())) == b"", "an empty image gives an empty file")
    d = x.byte("d")
    if codec not in ("shf", "bin"):
        x.check(x.raises(lambda: ou.dumps(codec, ou.Image([ou.Section(16, [d])]), no_such_option=1), AttributeError) is not None, "unknown options are refused")


# ---------------------------------------------------------------------------------------------------- conversion
ALL = ("ihex", "srec", "mostec", "tek", "sig", "emon52", "etek", "titxt", "ash", "rca", "cosmac", "shf", "fpc")


def small(x, dst=None):
    """Two sections in 16 bits; FPC gets bytes >= 16 (its digit count depends on leading zeros)."""
    if dst == "fpc":
        return (lambda b: (b, [(a, list(d)) for a, d in b]))([(0x1234, [x.int("d", 0x40, 0x47), 0x55, 0x7F]), (0x2000, [0xA5])])
    return common.layout(x, (3, 2), 1 << 16)


@case("C12", grid=[dict(src=s, dst=d) for s in ALL for d in ALL if s != d and (d != "fpc" or s in ("ihex", "titxt")) and (s != "fpc" or d in ("ihex", "srec"))], bounds="every pair of formats: sections of 3 and 2 symbolic bytes at symbolic 16 bit addresses written, read, written in the other format and read again")
def convert(x, src, dst):
    ou = x.imp("objutils")
    blocks, merged = small(x, "fpc" if "fpc" in (src, dst) else None)
    img = common.make_image(x, blocks)
    one = ou.loads(src, bytes(ou.dumps(src, img, row_length=2)))
    two = ou.loads(dst, bytes(ou.dumps(dst, one, row_length=4)))
    common.check_content(x, two, merged, f"{src} converted to {dst}")
    common.check_content(x, one, merged, "intermediate image")
    x.check(two == img, "images compare equal")


@case("C12", grid=[dict(src=s) for s in ("ihex", "srec", "titxt", "shf")], bounds="flat binary (symbolic base, 5 symbolic bytes) to another format and back")
def convert_bin(x, src):
    ou = x.imp("objutils")
    d = x.bytes("d", 5)
    a = x.int("a", 0, 0xFF00)
    img = ou.loads("bin", d, address=a)
    back = ou.loads(src, bytes(ou.dumps(src, img, row_length=2)))
    common.check_content(x, back, [(a, list(d))], src)
    x.check(x.eq(list(ou.dumps("bin", back)), list(d)), "flat file")


class Sink:
    """File object that keeps its content when closed."""

    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, data):
        self.parts.append(data)

    def close(self):
        self.closed = True


@case("C12", grid=[dict(codec=c) for c in ALL + ("bin",)], bounds="dump/load through a path and through file objects against dumps/loads, sections of 3 and 2 symbolic bytes, row length 2 or 16")
def files(x, codec):
    ou = x.imp("objutils")
    blocks, merged = small(x, codec) if codec != "bin" else (lambda b: (b, [(a, list(d)) for a, d in b]))([(0, x.bytes("d", 4))])
    img = common.make_image(x, blocks)
    kws = {} if codec in ("shf", "bin") else dict(row_length=x.choice("row", (2, 16)))
    want = bytes(ou.dumps(codec, img, **kws))
    x.check(x.eq(bytes(ou.dumps(codec, img, **kws)), want), "writing twice gives the same file")
    path = x.path("out.dat")
    ou.dump(codec, path, img, **kws)
    x.check(x.eq(x.file_content(path), want), "dump() to a path writes what dumps() returns")
    sink = Sink()
    ou.dump(codec, sink, img, **kws)
    x.check(x.eq(b"".join(sink.parts), want), "dump() to a file object writes what dumps() returns")
    common.check_content(x, ou.load(codec, path), merged, "load() from a path")
    x.check(x.eq(x.file_content(path), want), "loading leaves the file alone")
    common.check_content(x, ou.load(codec, io.BytesIO(want)), merged, "load() from a file object")
    common.check_content(x, ou.loads(codec, want), merged, "loads()")
    common.check_content(x, ou.loads(codec, want.decode("latin1")) if codec != "bin" else img, merged, "loads() of a str")
    # an existing longer file is replaced
    path2 = x.path("old.dat", b"#" * 1000)
    ou.dump(codec, path2, img, **kws)
    x.check(x.eq(x.file_content(path2), want), "an existing file is replaced")


# ---------------------------------------------------------------------------------------------------- reuse
@case("C34", grid=[dict(codec=c) for c in ALL], bounds="one Reader object reads file A, then file B: same result as a fresh Reader on B; one Writer object likewise; two images of 2+1 symbolic bytes at symbolic addresses (32 bit for ihex/srec/shf; three concrete images for fpc)")
def reuse(x, codec):
    ou = x.imp("objutils")
    reg = x.imp("objutils.registry").registry.get(codec)
    bits = {"ihex": 32, "srec": 32, "shf": 32, "etek": 20}.get(codec, 16)
    imgs, wants = [], []
    for t in "pq":
        if codec == "fpc":
            a = 0x1230 if t == "p" else 0x1340
            b = [(a, [x.choice("d", (0x40, 0xFF, 16)) if t == "p" else 0x91, 0x77]), (0x2000, [0x33])]
        else:
            a = x.int(t + "a", 0, (1 << bits) - 0x300)
            b = [(a, x.bytes(t + "d", 2)), (a + 0x200, x.bytes(t + "e", 1))]
        imgs.append(ou.Image([ou.Section(*s) for s in b]))
        wants.append([(u, list(v)) for u, v in b])
    fresh = [bytes(reg.Writer().dumps(i)) for i in imgs]
    wr = reg.Writer()
    for i in (0, 1, 0):
        x.check(x.eq(bytes(wr.dumps(imgs[i])), fresh[i]), "a used Writer writes the same file as a new one")
    rd = reg.Reader()
    for i in (0, 1, 0):
        common.check_content(x, rd.loads(fresh[i]), wants[i], "a used Reader reads the same image as a new one")
    x.check(x.eq(bytes(ou.dumps(codec, imgs[0])), fresh[0]), "module function after using objects")


@case("C34", grid=[dict(codec=c) for c in ("titxt", "ash", "cosmac", "ihex", "srec", "mostec")], bounds="a Reader that met a damaged file (cut after any of the first 24 characters) reads the next file correctly")
def reuse_after_damage(x, codec):
    ou = x.imp("objutils")
    reg = x.imp("objutils.registry").registry.get(codec)
    a = x.int("a", 0, 0xFF00)
    d = x.bytes("d", 3)
    good = bytes(reg.Writer().dumps(ou.Image([ou.Section(a, d)])))
    bad = bytes(reg.Writer().dumps(ou.Image([ou.Section(0x23456 if codec in ("ihex", "srec") else 0x2345, b"\x10\x20\x30")])))
    rd = reg.Reader()
    k = x.pick("k", 0, 24)
    x.raises(lambda: rd.loads(bad[:k]))
    common.check_content(x, rd.loads(good), [(a, list(d))], "reading after a damaged file")


HEADLESS = {"ash": "\x02 \n{} {} \n\x03$S0046,\n", "titxt": "{} {}\nq\n", "cosmac": "{}{}\n", "ihex": ":020000002345{}\n:00000001FF\n", "rca": "!M\n{}{};\n", "emon52": "02 0000:12 34 0046\n"}


@case("C34", grid=[dict(codec=c, n=n, lead=l) for c in HEADLESS for n in (0, 1, 2) for l in (False, True)], bounds="a Reader that read a whole file reads a text without any address field next, with 0-2 arbitrary characters and a line end in front (or only the characters), like a new Reader: same image or same kind of refusal")
def reuse_headless(x, codec, n, lead):
    ou = x.imp("objutils")
    reg = x.imp("objutils.registry").registry.get(codec)
    addr = 0x23450 if codec == "ihex" else 0x2345
    first = bytes(reg.Writer().dumps(ou.Image([ou.Section(addr, [x.byte("f"), 0x20, 0x30])])))
    junk = x.text("j", n)
    body = HEADLESS[codec].format("12", "34") if codec != "ihex" else HEADLESS[codec].format("96")
    text = junk + ("\n" if lead else "") + body

    def run(rd):
        got = []
        e = x.raises(lambda: got.append(rd.loads(text.encode("latin1"))))
        return (e, got[0] if got else None)

    used = reg.Reader()
    used.loads(first)
    e0, img0 = run(reg.Reader())
    e1, img1 = run(used)
    x.obs("refused", e0 is not None)
    x.check(type(e0) is type(e1), "refused the same way")
    if e0 is None:
        x.check(len(img1) == len(img0), "same number of sections")
        common.check_content(x, img1, [(s.start_address, list(s.data)) for s in img0], "same image as read by a new Reader")


# ---------------------------------------------------------------------------------------------------- probing
@case("C33", grid=[dict(codec=c, n=n, row=r) for c in ("ash", "emon52", "etek", "mostec", "sig", "srec", "tek", "fpc") for n, r in ((1, 16), (5, 2))], bounds="files of one section of 1-5 symbolic bytes at any address: identified by the bytes and by a file, which is left readable")
def identify(x, codec, n, row):
    ou = x.imp("objutils")
    bits = dict(srec=32, etek=20).get(codec, 16)
    if codec == "fpc":
        a, d = 0x1234, [x.int("d", 0x40, 0x47)] + [0x55, 0xAA, 0x12, 0x7F][: n - 1]
    else:
        a, d = x.int("a", 0, (1 << bits) - n), x.bytes("d", n)
    blob = bytes(ou.dumps(codec, ou.Image([ou.Section(a, d)]), row_length=row))
    x.check(ou.probes(blob) == codec, "format of the bytes")
    x.check(ou.probe(io.BytesIO(blob)) == codec, "format of the file")
    common.check_content(x, ou.loads(ou.probes(blob), blob), [(a, list(d))], "reading with the format found")


@case("C33", grid=[dict(n=n) for n in (0, 1, 2, 3)], thorough_grid=[dict(n=n) for n in (0, 1, 2, 3, 4)], bounds="0-3 (thorough: 4) arbitrary bytes, and arbitrary bytes with the top bit set after a valid record: no exception, never a format for binary data")
def identify_junk(x, n):
    ou = x.imp("objutils")
    d = x.bytes("d", n)
    r = ou.probes(d)
    x.check(r is None or r in ALL, "a registered text format or none")
    if r is not None:
        x.check(x.all([c < 128 for c in d]), "never for bytes with the top bit set")
    if n:
        hi = x.int("hi", 128, 255)
        x.check(ou.probes(b"S1051000616226\n"[: 3 * n] + bytes([hi])) is None, "binary data")


@case("C33", grid=[dict(codec=c, lead=k) for c in ("mostec", "sig", "srec", "tek") for k in (1, 2, 3)], bounds="1-3 lines of other text in front of the first record")
def identify_lead(x, codec, lead):
    ou = x.imp("objutils")
    a, d = x.int("a", 0, 0xFFF0), x.bytes("d", 2)
    blob = b"/ /\n" * lead + bytes(ou.dumps(codec, ou.Image([ou.Section(a, d)])))
    x.check(ou.probes(blob) == codec, "format of the bytes")
    x.check(ou.probe(io.BytesIO(blob)) == codec, "format of the file")
    common.check_content(x, ou.loads(codec, blob), [(a, list(d))], "content")


@case("C33", grid=[dict(at=k, n=n) for k, n in ((0, 200), (15, 40), (79, 100), (80, 200), (100, 101), (127, 128), (127, 300))], bounds="a byte with the top bit set at selected places in the first 128 bytes of otherwise readable records")
def identify_late(x, at, n):
    ou = x.imp("objutils")
    text = bytes(ou.dumps("srec", ou.Image([ou.Section(0x1000, bytes(range(1, 201)))])))[:n]
    hi = x.int("hi", 128, 255)
    x.check(ou.probes(text) == "srec", "readable records")
    x.check(ou.probes(text[:at] + bytes([hi]) + text[at + 1 :]) is None, "binary data")
    x.check(ou.probe(io.BytesIO(text[:at] + bytes([hi]) + text[at + 1 :])) is None, "binary data in a file")


@case("C31", bounds="names of all registered codecs in any mixture of upper and lower case (symbolic bits), unknown names, duplicate registration")
def registry_names(x):
    reg = x.imp("objutils.registry")
    ou = x.imp("objutils")
    names = list(reg.registry.codecs)
    x.obs("n", sorted(names))
    x.check(sorted(names) == sorted(list(ALL) + ["bin", "binzip"]), "registered codecs")
    x.check(reg.registry.formats == sorted(names), "formats are sorted")
    x.check([n for n, _ in reg.registry] == names, "iteration")
    name = x.choice("name", names)
    s = x.text("s", len(name))
    x.assume(x.all([x.any([s[i] == c, s[i] == c.upper()]) for i, c in enumerate(name)]))
    x.check(reg.registry.get(s) is reg.registry.codecs[name], "lookup ignores case")
    c = reg.registry.get(name)
    if name != "binzip":
        x.check(c.Reader.codecName == name, "codecName of the reader")
    x.check(c.Writer.codecName == name, "codecName of the writer")
    e = x.raises(lambda: reg.registry.register(name, object, object), reg.CodecAlreadyExistError)
    x.check(e is not None, "names are registered once")
    x.check(reg.registry.codecs[name] is c, "a refused registration changes nothing")
    x.check(list(reg.registry.codecs) == names, "the list of codecs is unchanged")
    x.check(reg.Registry() is reg.registry, "one registry")
    x.check(list(reg.registry.codecs) == names, "asking for the registry again keeps the codecs")
    x.check(ou.registry is reg.registry, "one registry")


@case("C31", grid=[dict(n=n) for n in (0, 1, 3, 4)], bounds="every name of 0, 1, 3 or 4 printable characters: an existing codec or CodecDoesNotExistError")
def registry_unknown(x, n):
    reg = x.imp("objutils.registry")
    names = [k for k in reg.registry.codecs if len(k) == n]
    s = x.text("s", n)
    known = x.any([x.all([x.any([s[i] == c, s[i] == c.upper()]) for i, c in enumerate(k)]) for k in names])
    e = x.raises(lambda: reg.registry.get(s), reg.CodecDoesNotExistError)
    x.check(x.iff(e is None, known), "unknown names are refused, known ones found")
    ou = x.imp("objutils")
    if e is not None:
        x.check(x.raises(lambda: ou.loads(s, b""), reg.CodecDoesNotExistError) is not None, "loads refuses unknown names")
        x.check(x.raises(lambda: ou.dumps(s, ou.Image()), reg.CodecDoesNotExistError) is not None, "dumps refuses unknown names")


NEAR = ("ihex", "srec", "mostec", "tek", "sig", "emon52", "etek", "titxt", "ash", "rca", "cosmac", "shf", "fpc", "bin", "binzip")


@case("C31", grid=[dict(name=n, how=h) for n in NEAR for h in ("longer", "shorter", "changed")], bounds="every codec name with one arbitrary character before, behind or in place of a character, or with a character left out: a codec exactly if the result is a registered name apart from case")
def registry_near(x, name, how):
    reg = x.imp("objutils.registry")
    i = x.pick("i", 0, len(name) - (how != "longer"))
    c = x.text("c", 1)
    s = {"longer": lambda: name[:i] + c + name[i:], "shorter": lambda: name[:i] + name[i + 1 :], "changed": lambda: name[:i] + c + name[i + 1 :]}[how]()
    if x.choice("case", (0, 1)):
        s = s.upper()
    known = [k for k in reg.registry.codecs if len(k) == len(s) and x.split(x.all([x.any([s[j] == d, s[j] == d.upper()]) for j, d in enumerate(k)]))]
    got = []
    e = x.raises(lambda: got.append(reg.registry.get(s)), reg.CodecDoesNotExistError)
    x.check((e is None) == bool(known), "only registered names are found")
    if e is None:
        x.check(got[0] is reg.registry.codecs[known[0]], "the codec of that name")


@case("C31", grid=[dict(n=1), dict(n=4)], bounds="a codec registered under any new name of 1 letter, or xcp2 in any mixture of cases, is found under that name, whatever the case, and used by loads/dumps; it is refused a second time")
def registry_register(x, n):
    reg = x.imp("objutils.registry").registry
    mod = x.imp("objutils.registry")
    ou = x.imp("objutils")
    s = x.text("s", n)
    if n == 1:
        x.assume(x.any([x.all([s >= "a", s <= "z"]), x.all([s >= "A", s <= "Z"])]))
    else:
        x.assume(x.all([x.any([s[i] == c, s[i] == c.upper()]) for i, c in enumerate("xcp2")]))
    names = list(reg.codecs)
    low = s.lower()
    x.assume(x.not_(x.any([low == k for k in names if len(k) == n])))
    t = "".join([c.upper() if x.bool(f"u{i}") else c for i, c in enumerate(low)])

    class R:
        def loads(self, data, **kws):
            return ("read", data, kws)

    class W:
        def dumps(self, img, **kws):
            return ("written", img, kws)

    try:
        reg.register(s, R, W, "text")
        c = reg.get(t)
        x.check(c.Reader is R and c.Writer is W and c.description == "text", "the codec registered")
        x.check(ou.loads(t, b"abc", opt=1) == ("read", b"abc", dict(opt=1)), "loads() uses it")
        x.check(ou.dumps(t, 5, opt=1) == ("written", 5, dict(opt=1)), "dumps() uses it")
        x.check(x.raises(lambda: reg.register(t, R, W), mod.CodecAlreadyExistError) is not None, "refused a second time")
        x.check([k for k in reg.codecs][:-1] == names, "the others stay")
        x.check(R.codecName == s, "codecName")
    finally:
        for k in [k for k in reg.codecs if k not in names]:
            del reg.codecs[k]
