"""ELF files: headers, sections, symbols, images and the database behind them."""

from symx.harness import case

CLASSES = [dict(b64=b, order=o) for b in (False, True) for o in "<>"]


def enc(v, n, order):
    """v as n bytes."""
    bs = [v % 256 if n == 1 else (v // (1 << (8 * i))) % 256 for i in range(n)]
    return bs if order == "<" else bs[::-1]


class Fields:
    """Packs fields of an ELF file of one class and byte order."""

    def __init__(self, b64, order):
        self.b64, self.order = b64, order
        self.word = 8 if b64 else 4

    def pack(self, *items):
        """items: (value, size) with size in bytes or "w" for the size of an address."""
        out = []
        for v, n in items:
            out += enc(v, self.word if n == "w" else n, self.order)
        return out

    def ident(self, version=1, osabi=0, abiversion=0):
        return [0x7F, 0x45, 0x4C, 0x46, 2 if self.b64 else 1, 1 if self.order == "<" else 2, version, osabi, abiversion] + [0] * 7

    def header(self, h):
        return self.pack((h["e_type"], 2), (h["e_machine"], 2), (h["e_version"], 4), (h["e_entry"], "w"), (h["e_phoff"], "w"), (h["e_shoff"], "w"), (h["e_flags"], 4), (h["e_ehsize"], 2), (h["e_phentsize"], 2), (h["e_phnum"], 2), (h["e_shentsize"], 2), (h["e_shnum"], 2), (h["e_shstrndx"], 2))

    def section(self, s):
        return self.pack((s["sh_name"], 4), (s["sh_type"], 4), (s["sh_flags"], "w"), (s["sh_addr"], "w"), (s["sh_offset"], "w"), (s["sh_size"], "w"), (s["sh_link"], 4), (s["sh_info"], 4), (s["sh_addralign"], "w"), (s["sh_entsize"], "w"))

    def segment(self, p):
        if self.b64:
            return self.pack((p["p_type"], 4), (p["p_flags"], 4), (p["p_offset"], 8), (p["p_vaddr"], 8), (p["p_paddr"], 8), (p["p_filesz"], 8), (p["p_memsz"], 8), (p["p_align"], 8))
        return self.pack((p["p_type"], 4), (p["p_offset"], 4), (p["p_vaddr"], 4), (p["p_paddr"], 4), (p["p_filesz"], 4), (p["p_memsz"], 4), (p["p_flags"], 4), (p["p_align"], 4))

    def symbol(self, s):
        if self.b64:
            return self.pack((s["st_name"], 4), (s["st_bind"] * 16 + s["st_type"], 1), (s["st_other"], 1), (s["st_shndx"], 2), (s["st_value"], 8), (s["st_size"], 8))
        return self.pack((s["st_name"], 4), (s["st_value"], 4), (s["st_size"], 4), (s["st_bind"] * 16 + s["st_type"], 1), (s["st_other"], 1), (s["st_shndx"], 2))


def strtab(names):
    """(contents, offsets) of a string table."""
    out, at = [0], {"": 0}
    for n in names:
        if n not in at:
            at[n] = len(out)
            out += [ord(c) for c in n] + [0]
    return out, at


def elf(f, sections=(), segments=(), header=None, order=None):
    """An ELF file: header, segments, contents of the sections, section headers.
    sections: dicts with name, sh_* (defaults 0) and data; index 0 and .shstrtab are added."""
    secs = [dict(name="", data=[])] + [dict(s) for s in sections]
    if sections:
        tab, at = strtab([s["name"] for s in secs] + [".shstrtab"])
        secs.append(dict(name=".shstrtab", sh_type=3, data=tab))
    phoff = 16 + (48 if f.b64 else 36)
    pos = phoff + len(segments) * (56 if f.b64 else 32)
    body = []
    shs = []
    for s in secs if sections else []:
        data = s.get("data", [])
        shs.append(dict(sh_name=at[s["name"]], sh_type=s.get("sh_type", 0), sh_flags=s.get("sh_flags", 0), sh_addr=s.get("sh_addr", 0), sh_offset=pos + len(body), sh_size=s.get("sh_size", len(data)), sh_link=s.get("sh_link", 0), sh_info=s.get("sh_info", 0), sh_addralign=s.get("sh_addralign", 0), sh_entsize=s.get("sh_entsize", 0)))
        body += list(data)
    h = dict(e_type=2, e_machine=0, e_version=1, e_entry=0, e_phoff=phoff if segments else 0, e_shoff=pos + len(body) if sections else 0, e_flags=0, e_ehsize=phoff, e_phentsize=(56 if f.b64 else 32) if segments else 0, e_phnum=len(segments), e_shentsize=(64 if f.b64 else 40) if sections else 0, e_shnum=len(shs), e_shstrndx=max(0, len(shs) - 1))
    h.update(header or {})
    out = f.ident(h.get("ei_version", 1), h.get("ei_osabi", 0), h.get("ei_abiversion", 0)) + f.header(h)
    for p in segments:
        out += f.segment(p)
    out += body
    for s in shs:
        out += f.section(s)
    return bytes(out), h, shs


def parser(x, blob, name="t.elf"):
    return x.imp("objutils.elf").ElfParser(x.path(name, blob))


@case("C29", grid=CLASSES, bounds="all fields of the file header arbitrary (addresses and offsets below 2^63; no sections, no segments), both classes and byte orders")
def elf_header(x, b64, order):
    f = Fields(b64, order)
    w = (1 << 63) - 1 if b64 else (1 << 32) - 1
    h = {"ei_version": x.byte("ver"), "ei_osabi": x.byte("osabi"), "ei_abiversion": x.byte("abiver")}
    for n, hi in (("e_type", 65535), ("e_version", 0xFFFFFFFF), ("e_entry", w), ("e_phoff", w), ("e_flags", 0xFFFFFFFF), ("e_ehsize", 65535), ("e_phentsize", 65535), ("e_shentsize", 65535), ("e_shstrndx", 65535)):
        h[n] = x.int(n, 0, hi)
    h["e_machine"] = x.choice("machine", (3, 62, 65535))
    blob, h, _ = elf(f, header=h)
    p = parser(x, blob)
    for n, v in h.items():
        x.check(getattr(p, n) == v, n)
    x.check(p.ei_class == (2 if b64 else 1), "class")
    x.check(p.ei_data == (1 if order == "<" else 2), "data encoding")
    x.check(p.b64 == b64 and p.endianess == order, "attributes used for the rest of the file")
    x.check(len(p.segments) == 0 and len(p.sections.fetch()) == 0, "no segments and sections")


FLAGS = dict(merge=4, strings=5, info_link=6, link_order=7, os_nonconforming=8, group=9, tls=10, ordered=30, exclude=31)


@case("C29", grid=CLASSES, bounds="two sections with arbitrary type, flags, address, link, info, alignment, entry size and 1-3 arbitrary bytes, both classes and byte orders")
def elf_sections(x, b64, order):
    f = Fields(b64, order)
    w = (1 << 63) - 1 if b64 else (1 << 32) - 1
    secs = []
    for k, (name, n) in enumerate(((".text", 3), ("xt", 1))):
        s = dict(name=name, data=list(x.bytes(f"d{k}", n)))
        s["sh_type"] = x.choice(f"type{k}", (0, 1, 3, 4, 8, 14, 0x70000001) if k == 0 else (1, 8))
        for m, hi in (("sh_flags", w), ("sh_addr", w), ("sh_link", 0xFFFFFFFF), ("sh_info", 0xFFFFFFFF), ("sh_addralign", w), ("sh_entsize", w)):
            s[m] = x.int(f"{m}{k}", 0, hi)
        secs.append(s)
    blob, h, shs = elf(f, secs)
    p = parser(x, blob)
    for s, raw in zip(secs, shs[1:]):
        r = p.sections.get(s["name"])
        x.check(r is not None, "section is found")
        x.check(r.section_name == s["name"], "name")
        for m in raw:
            x.check(getattr(r, m) == raw[m], m)
        if s["sh_type"] in (0, 8):
            x.check(r.section_image is None, "no contents")
            x.check(not r.has_content, "has_content")
        else:
            x.check(x.eq(r.section_image, bytes(s["data"])), "contents")
            x.check(bool(r.has_content), "has_content")
        x.check(x.iff(r.flag_alloc, s["sh_flags"] // 2 % 2 == 1), "flag_alloc")
        x.check(x.iff(r.flag_writeable, s["sh_flags"] % 2 == 1), "flag_writeable")
        x.check(x.iff(r.flag_executable, s["sh_flags"] // 4 % 2 == 1), "flag_executable")
        for name, bit in FLAGS.items():
            x.check(x.iff(getattr(r, "flag_" + name), (s["sh_flags"] >> bit) % 2 == 1), f"flag_{name}")
        x.check(not r.is_debug and not r.is_dwo, "no debug section")
    x.check(p.sections.get(".nothing") is None, "unknown section")
    x.check(len(p.sections.fetch()) == 4, "all sections")


@case("C29", grid=CLASSES, bounds="no section name table; a section that has debug information; a section without contents")
def elf_unnamed(x, b64, order):
    f = Fields(b64, order)
    a = x.int("a", 0, 0xFFFFFFFF)
    d = x.bytes("d", 2)
    blob, h, shs = elf(f, [dict(name=".a", sh_type=1, sh_addr=a, data=d)], header={"e_shstrndx": 0})
    p = parser(x, blob)
    r = p.sections.fetch()
    x.check(len(r) == 3, "all sections")
    for s in r:
        x.check(s.section_name == "", "no names")
    e = [s for s in r if s.index == 1][0]
    x.check(x.all([e.sh_addr == a, x.eq(e.section_image, d)]), "section")
    blob, h, shs = elf(f, [dict(name=".debug_info", sh_type=1, sh_addr=a, data=d), dict(name=".e", sh_type=1, data=[]), dict(name=".dwo", sh_type=1, data=d)])
    p = parser(x, blob, "u.elf")
    r = p.sections.get(".debug_info")
    x.check(r.is_debug and not r.is_dwo, "debug section")
    x.check(p.sections.get(".dwo").is_dwo, "dwo section")
    ds = p.debug_sections()
    x.check(list(ds) == [".debug_info"], "debug sections")
    x.check(x.eq(ds[".debug_info"].image, d), "debug contents")
    x.check(p.sections.get(".e").section_image is None and not p.sections.get(".e").has_content, "empty section")


@case("C29", grid=[dict(n=n, **c) for n in (1, 2) for c in CLASSES], bounds="1-2 program headers with arbitrary fields, both classes and byte orders")
def elf_segments(x, n, b64, order):
    f = Fields(b64, order)
    w = (1 << 63) - 1 if b64 else (1 << 32) - 1
    segs = [{m: x.int(f"{m}{k}", 0, w if m not in ("p_type", "p_flags") else 0xFFFFFFFF) for m in ("p_type", "p_flags", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_align")} for k in range(n)]
    blob, h, _ = elf(f, segments=segs)
    p = parser(x, blob)
    x.check(len(p.segments) == n, "number of segments")
    for g, s in zip(p.segments, segs):
        for m, v in s.items():
            x.check(getattr(g, m) == v, m)


def sym(x, k, f, **kw):
    w = (1 << 63) - 1 if f.b64 else (1 << 32) - 1
    s = dict(st_name=0, st_bind=0, st_type=0, st_other=0, st_shndx=0, st_value=0, st_size=0)
    for m, hi in (("st_value", w), ("st_size", w), ("st_bind", 15), ("st_type", 15), ("st_other", 255)):
        s[m] = kw[m] if m in kw else x.int(f"{m}{k}", 0, hi)
    s.update(kw)
    return s


def symtab(f, names, syms, type=2, table=".strtab", utf8=False):
    """Sections of a symbol table: link to the string table has to be set by the caller."""
    tab, at = strtab(names)
    data = []
    for n, s in zip(names, syms):
        s["st_name"] = at[n]
        data += f.symbol(s)
    return data, tab


@case("C29", grid=[dict(dyn=d, **c) for d in (False, True) for c in CLASSES], bounds="two symbols with arbitrary value, size, binding, type, visibility and section index out of 7, both kinds of symbol tables, both classes and byte orders")
def elf_symbols(x, dyn, b64, order):
    f = Fields(b64, order)
    shndx = (0, 1, 3, 9, 0xFF00, 0xFFF1, 0xFFF2)
    names = ["", "main", "ain"]
    syms = [sym(x, "n", f, st_value=0, st_size=0, st_bind=0, st_type=0, st_other=0), sym(x, 0, f), sym(x, 1, f)]
    syms[1]["st_shndx"] = x.choice("shndx0", shndx)
    syms[2]["st_shndx"] = x.choice("shndx1", (1, 0xFFF1))
    flags = x.int("flags", 0, 7)
    data, tab = symtab(f, names, syms)
    secs = [dict(name=".text", sh_type=1, sh_flags=flags, data=[1, 2]), dict(name=".symtab", sh_type=11 if dyn else 2, sh_link=3, data=data), dict(name=".strtab", sh_type=3, data=tab)]
    blob, h, _ = elf(f, secs)
    p = parser(x, blob)
    known = {0: "SHN_UNDEF", 1: ".text", 3: ".strtab", 9: "9", 0xFF00: "SHN_LORESERVE", 0xFFF1: "SHN_ABS", 0xFFF2: "SHN_COMMON"}
    for n, s in list(zip(names, syms))[1:]:
        r = p.symbols.get(n)
        x.check(r is not None, "symbol is found")
        for m in ("st_value", "st_size", "st_bind", "st_type", "st_other", "st_shndx"):
            x.check(getattr(r, m) == s[m], m)
        x.check(r.symbol_name == n, "name")
        x.check(r.section_name == known[s["st_shndx"]], "section")
        x.check(r.access == (flags if s["st_shndx"] == 1 else 0), "access")
        x.check(x.iff(r.weak, s["st_bind"] == 2), "weak")
        x.check(x.iff(r.local, s["st_bind"] == 0), "local")
        x.check(x.iff(r.global_, s["st_bind"] == 1), "global")
        x.check(x.iff(r.absolute, s["st_shndx"] == 0xFFF1), "absolute")
        x.check(x.iff(r.undefined, s["st_shndx"] == 0), "undefined")
        x.check(x.iff(r.hidden, x.any([s["st_other"] == 1, s["st_other"] == 2])), "hidden")
        x.check(x.iff(r.allocate, r.access // 2 % 2 == 1), "allocate")
        x.check(x.iff(r.writeable, r.access % 2 == 1), "writeable")
        x.check(x.iff(r.executeable, r.access // 4 == 1), "executable")
    x.check(p.symbols.get("nothing") is None, "unknown symbol")


@case("C29", grid=CLASSES, bounds="two symbol tables with their own string tables, an empty one, names in UTF-8, symbols without names; values arbitrary")
def elf_symbol_tables(x, b64, order):
    f = Fields(b64, order)
    uni = "gr\u00fc\u00df"
    a, b, c = sym(x, 0, f, st_shndx=1), sym(x, 1, f, st_shndx=1), sym(x, 2, f, st_shndx=1)
    a["st_name"], b["st_name"], c["st_name"] = 1, 1, 0
    secs = [
        dict(name=".text", sh_type=1, data=[1]),
        dict(name=".symtab", sh_type=2, sh_link=3, data=f.symbol(a) + f.symbol(c)),
        dict(name=".strtab", sh_type=3, data=[0] + list(uni.encode("utf-8")) + [0]),
        dict(name=".dynsym", sh_type=11, sh_link=5, data=f.symbol(b)),
        dict(name=".dynstr", sh_type=3, data=[0] + list(b"puts") + [0]),
        dict(name=".empty", sh_type=2, sh_link=5, data=[]),
    ]
    blob, h, _ = elf(f, secs)
    p = parser(x, blob)
    for n, s in ((uni, a), ("puts", b), ("", c)):
        r = p.symbols.get(n)
        x.check(r is not None, "symbol is found")
        x.check(x.all([r.st_value == s["st_value"], r.st_size == s["st_size"]]), "value")
        x.check(r.section_name == ".text", "section")


@case("C29", grid=[dict(n=n, m=m, **c) for n, m in ((4, 2), (0, 1), (5, 3), (7, 4), (1, 0)) for c in CLASSES], bounds="a note whose name has 0, 1, 4, 5 or 7 characters, 0-4 arbitrary bytes of description and an arbitrary type")
def elf_notes(x, n, m, b64, order):
    f = Fields(b64, order)
    name = [x.int(f"c{i}", 1, 127) for i in range(n - 1)] + [0] * min(n, 1)
    desc = x.bytes("d", m)
    t = x.int("t", 0, 0xFFFFFFFF)
    data = f.pack((n, 4), (m, 4), (t, 4)) + name + [0] * (-n % 4) + list(desc) + [0] * (-m % 4)
    blob, h, _ = elf(f, [dict(name=".note.x", sh_type=7, data=data)])
    p = parser(x, blob)
    x.check(len(p.notes) == 1, "one note")
    r = p.notes[0]
    x.check(r.section_name == ".note.x", "section")
    x.check(r.type == t, "type")
    x.check(len(r.name) == max(0, n - 1), "name length")
    for i in range(n - 1):
        x.check(ord(r.name[i]) == name[i], "name")
    x.check(r.desc == desc.hex(), "description")
    x.check(x.eq(p.sections.get(".note.x").section_image, bytes(data)), "contents")


@case("C29", grid=[dict(lens=l) for l in ((), (2,), (1, 2), (2, 0, 1))], bounds="comment sections of up to three strings of 0-2 arbitrary characters, terminated or (a single one) not")
def elf_comment(x, lens):
    f = Fields(False, "<")
    words = [[x.int(f"c{k}.{i}", 1, 127) for i in range(n)] for k, n in enumerate(lens)]
    data = []
    for w in words:
        data += w + [0]
    last = len(lens) == 1 and bool(x.bool("unterminated"))
    if last:
        data = data[:-1]
    blob, h, _ = elf(f, [dict(name=".comment", sh_type=1, data=data)])
    p = parser(x, blob)
    want = []
    for w in words:
        if w:
            want += ([10] if want else []) + w
    if not lens:
        x.check(p.comment is None, "no comment")
    else:
        x.check(len(p.comment) == len(want), "length")
        for g, w in zip(p.comment, want):
            x.check(ord(g) == w, "text")


@case("C29", grid=[dict(kind=k) for k in ("magic", "data", "short", "table", "tiny")], concretise_limit=300, bounds="files that are no ELF file (one arbitrary wrong byte of the first four, three arbitrary bytes), have an invalid data encoding or are cut off are refused")
def elf_bad(x, kind):
    f = Fields(False, "<")
    blob, h, _ = elf(f, [dict(name=".a", sh_type=1, data=[1, 2])])
    bs = list(blob)
    if kind == "magic":
        k = x.pick("k", 0, 3)
        m = x.byte("m")
        x.assume(m != bs[k])
        bs[k] = m
    elif kind == "data":
        bs[5] = x.byte("data")
        x.assume(x.all([bs[5] != 1, bs[5] != 2]))
    elif kind == "short":
        bs = bs[: x.pick("n", 1, 51)]
    elif kind == "table":
        bs = bs[: len(bs) - x.pick("n", 1, 119)]
    else:
        bs = [x.byte(f"b{i}") for i in range(3)]
    x.check(x.raises(lambda: parser(x, bytes(bs)), Exception) is not None, "refused")


# ---------------------------------------------------------------------------------------------------- images
@case("C38", grid=[dict(join=j, **c) for j in (True, False) for c in (CLASSES[0], CLASSES[3])], bounds="three sections of 1-2 arbitrary bytes (one without contents in the file) at arbitrary disjoint addresses (32 bit: all, 64 bit: 64K at a high one) in any order, arbitrary flags (31 bits)")
def elf_image(x, join, b64, order):
    f = Fields(b64, order)
    secs = []
    base = 0x7FFF12345678 << 16 if b64 else 0
    for k, (name, n, t) in enumerate(((".data", 2, 1), (".text", 2, 1), (".bss", 1, 8), (".rodata", 1, 1))):
        secs.append(dict(name=name, sh_type=t, sh_flags=x.int(f"fl{k}", 0, 0x7FFFFFFF), sh_addr=base + x.int(f"a{k}", 0, 0xFFF0 if b64 else 0xFFFFFFF0), data=list(x.bytes(f"d{k}", n))))
    for i, s in enumerate(secs):
        for r in secs[:i]:
            x.assume(x.any([s["sh_addr"] + len(s["data"]) <= r["sh_addr"], r["sh_addr"] + len(r["data"]) <= s["sh_addr"]]))
    blob, h, _ = elf(f, secs)
    p = parser(x, blob)
    calls = []
    img = p.create_image(join=join, callback=lambda state, s: calls.append((state, s.section_name if s is not None else None)))
    kept = [s for s in secs if s["sh_type"] == 1 and bool(s["sh_flags"] // 2 % 2 == 1)]
    check_image(x, img, kept, join)
    x.check(calls[0] == ("start", None) and calls[-1] == ("stop", None), "callback")
    x.check(sorted(n for _, n in calls[1:-1]) == sorted(s["name"] for s in kept) and all(st == "section" for st, _ in calls[1:-1]), "callback for every section")


def check_image(x, img, kept, join):
    total = 0
    for s in img.sections:
        total += len(s.data)
    x.check(total == sum(len(s["data"]) for s in kept), "number of bytes")
    for s in kept:
        for i, b in enumerate(s["data"]):
            hit = False
            for t in img.sections:
                off = s["sh_addr"] + i - t.start_address
                for j in range(len(t.data)):
                    hit = x.any([hit, x.all([off == j, t.data[j] == b])])
            x.check(hit, "byte at its address")
    for a, b in zip(img.sections, img.sections[1:]):
        x.check(a.start_address + len(a.data) <= b.start_address, "sections ascend")
        if join:
            x.check(a.start_address + len(a.data) != b.start_address, "joined")
    if not join:
        x.check(len(img.sections) == len(kept), "one section each")


@case("C38", grid=[dict(inc=i, exc=e) for i, e in ((r"\.text", ""), ("", r"\.text"), (r"\.(text|data)$", ""), ("text", ""), ("", r".*a"), (r"\..*", r"\.text"))], bounds="four sections with arbitrary contents selected by name patterns")
def elf_image_patterns(x, inc, exc):
    import re

    f = Fields(False, "<")
    secs = [dict(name=n, sh_type=1, sh_flags=2, sh_addr=0x100 * k + x.int(f"a{k}", 0, 9), data=list(x.bytes(f"d{k}", 2))) for k, n in enumerate((".text", ".text.hot", ".data", ".rodata"))]
    blob, h, _ = elf(f, secs)
    img = parser(x, blob).create_image(include_pattern=inc, exclude_pattern=exc)
    check_image(x, img, [s for s in secs if (not inc or re.match(inc, s["name"])) and not (exc and re.match(exc, s["name"]))], True)


# ---------------------------------------------------------------------------------------------------- queries
NAMES = ["main", "_start", "buf", "abs_1", "_end"]


def symbol_file(x, values, binds=None, types=None, flags=None):
    """A file with five symbols in four sections."""
    f = Fields(False, "<")
    syms = []
    for k, (n, ndx) in enumerate(zip(NAMES, (1, 1, 2, 0xFFF1, 0xFFF1))):
        syms.append(sym(x, k, f, st_value=values[k], st_size=4, st_other=0, st_shndx=ndx, st_bind=binds[k] if binds else 1, st_type=types[k] if types else 2))
    data, tab = symtab(f, NAMES, syms)
    fl = flags or [6, 3]
    secs = [dict(name=".text", sh_type=1, sh_flags=fl[0], data=[1, 2]), dict(name=".data", sh_type=1, sh_flags=fl[1], data=[3]), dict(name=".symtab", sh_type=2, sh_link=4, data=data), dict(name=".strtab", sh_type=3, data=tab)]
    blob, h, _ = elf(f, secs)
    for s, n in zip(syms, NAMES):
        s["name"] = n
        s["section"] = {1: ".text", 2: ".data", 0xFFF1: "SHN_ABS"}[s["st_shndx"]]
        s["access"] = {1: fl[0], 2: fl[1], 0xFFF1: 0}[s["st_shndx"]]
    return parser(x, blob), syms


def check_fetch(x, got, want, by_value=True):
    """got: result of fetch(), want: symbols that have to be in it."""
    x.check(sorted(got) == sorted({s["section"] for s in want}), "sections")
    x.check(list(got) == sorted(got), "order of the sections")
    for sec in got:
        names = [r.symbol_name for r in got[sec]]
        x.check(sorted(names) == sorted(s["name"] for s in want if s["section"] == sec), "symbols")
        for r in got[sec]:
            s = [s for s in want if s["name"] == r.symbol_name][0]
            x.check(r.st_value == s["st_value"], "value")
        for a, b in zip(got[sec], got[sec][1:]):
            x.check(a.st_value <= b.st_value if by_value else a.symbol_name <= b.symbol_name, "order")


FIXED = [5, 3, 9, 7, 1]


@case("C39", bounds="five symbols in three sections with arbitrary values: ordered by value and by name")
def fetch_order(x):
    p, syms = symbol_file(x, [x.int(f"v{k}", 0, 0xFFFFFFFF) for k in range(5)])
    check_fetch(x, p.symbols.fetch(), syms)
    check_fetch(x, p.symbols.fetch(order_by_value=False), syms, False)


@case("C39", grid=[dict(q=q) for q in (".text", ".data", ".text,.data", ".data .text", ".none", "SHN_ABS")], bounds="symbols of listed sections")
def fetch_sections(x, q):
    p, syms = symbol_file(x, [x.int("v0", 0, 9)] + FIXED[1:])
    want = q.replace(",", " ").split()
    check_fetch(x, p.symbols.fetch(sections=q), [s for s in syms if s["section"] in want])
    r = p.sections.fetch(sections=q)
    x.check(sorted(s.section_name for s in r) == sorted(n for n in want if n in (".text", ".data")), "sections")


@case("C39", grid=[dict(q=q) for q in ("g", "l", "w", "g,l", "W l", "G,L,W")], bounds="arbitrary bindings of three symbols")
def fetch_bindings(x, q):
    bs = [x.int(f"b{k}", 0, 15) for k in range(3)] + [0, 2]
    p, syms = symbol_file(x, FIXED, binds=bs)
    codes = [{"g": 1, "l": 0, "w": 2}[c] for c in q.lower().replace(",", " ").split()]
    check_fetch(x, p.symbols.fetch(bindings=q), [s for s in syms if bool(x.any([s["st_bind"] == c for c in codes]))])


TYPES = {"notype": 0, "object": 1, "func": 2, "section": 3, "file": 4, "common": 5, "tls": 6}


@case("C39", grid=[dict(q=q) for q in ("func", "object", "func,object", "OBJECT notype func", "tls,common", "file section")], bounds="arbitrary types of three symbols")
def fetch_types(x, q):
    ts = [x.int(f"t{k}", 0, 15) for k in range(3)] + [2, 1]
    p, syms = symbol_file(x, FIXED, types=ts)
    codes = [TYPES[c] for c in q.lower().replace(",", " ").split()]
    check_fetch(x, p.symbols.fetch(types_str=q), [s for s in syms if bool(x.any([s["st_type"] == c for c in codes]))])


@case("C39", grid=[dict(q=q) for q in ("a", "w", "x", "a,w", "X W", "a w x")], bounds="arbitrary flags of the two sections: symbols in sections with any of the listed access kinds")
def fetch_access(x, q):
    fl = [x.int(f"f{k}", 0, 0xFFF) for k in range(2)]
    p, syms = symbol_file(x, FIXED, flags=fl)
    bits = [{"w": 1, "a": 2, "x": 4}[c] for c in q.lower().replace(",", " ").split()]
    check_fetch(x, p.symbols.fetch(access=q), [s for s in syms if bool(x.any([s["access"] // b % 2 == 1 for b in bits]))])


@case("C39", grid=[dict(q=q) for q in ("_", "main", ".*a", "b.*|_end$", "x")], bounds="names that match a pattern from their start; several conditions at once")
def fetch_pattern(x, q):
    import re

    b, t = x.int("b", 0, 15), x.int("t", 0, 15)
    p, syms = symbol_file(x, FIXED, binds=[b, 1, 1, 1, 0], types=[1, t, 1, 0, 0])
    check_fetch(x, p.symbols.fetch(name_pattern=q), [s for s in syms if re.match(q, s["name"])])
    both = [s for s in syms if re.match(q, s["name"]) and bool(x.all([s["st_bind"] == 1, x.any([s["st_type"] == 1, s["st_type"] == 2])])) and s["section"] == ".text"]
    check_fetch(x, p.symbols.fetch(name_pattern=q, bindings="g", types_str="object func", sections=".text", access="x"), both)


@case("C39", bounds="arbitrary types and values of absolute symbols")
def gcc_symbols(x):
    ts = [0, 0, 0] + [x.int(f"t{k}", 0, 15) for k in range(2)]
    p, syms = symbol_file(x, FIXED[:3] + [x.int(f"v{k}", 0, 0xFFFFFFFF) for k in range(2)], types=ts)
    r = p.symbols.fetch_gcc_special_symbols()
    x.check([s.symbol_name for s in r] == [s["name"] for s in syms if s["name"] == "_end" and bool(s["st_type"] == 0)], "absolute symbols that start with an underscore")


@case("C39", grid=[dict(by=b) for b in (True, False)], bounds="sections at arbitrary addresses, ordered by address or name, selected by pattern")
def fetch_section_order(x, by):
    f = Fields(False, "<")
    secs = [dict(name=n, sh_type=1, sh_addr=x.int(f"a{k}", 0, 0xFFFFFFFF), data=[k]) for k, n in enumerate((".text", ".data", ".bss"))]
    blob, h, _ = elf(f, secs)
    p = parser(x, blob)
    r = p.sections.fetch(order_by_address=by)
    x.check(sorted(s.section_name for s in r) == ["", ".bss", ".data", ".shstrtab", ".text"], "all sections")
    for a, b in zip(r, r[1:]):
        x.check(a.sh_addr <= b.sh_addr if by else a.section_name <= b.section_name, "order")
    r = p.sections.fetch(name_pattern=r"\.[bt]", order_by_address=by)
    x.check(sorted(s.section_name for s in r) == [".bss", ".text"], "pattern")


# ---------------------------------------------------------------------------------------------------- database
def close(p):
    p.db.close()


def small(x, f, tag, name=".text"):
    """A file with arbitrary values: one section, one symbol, one note, one segment."""
    s = sym(x, tag, f, st_other=0, st_shndx=1)
    data, tab = symtab(f, ["main"], [s])
    d = x.bytes(tag + "d", 2)
    a = x.int(tag + "a", 0, 0xFFFFFFFF)
    note = x.byte(tag + "n")
    v = x.int(tag + "v", 0, 0xFFFFFFFF)
    seg = dict(p_type=1, p_offset=0, p_vaddr=v, p_paddr=0, p_filesz=0, p_memsz=0, p_flags=5, p_align=0)
    secs = [dict(name=name, sh_type=1, sh_flags=6, sh_addr=a, data=d), dict(name=".symtab", sh_type=2, sh_link=3, data=data), dict(name=".strtab", sh_type=3, data=tab), dict(name=".note", sh_type=7, data=f.pack((4, 4), (1, 4), (0, 4)) + [71, 78, 85, 0, note, 0, 0, 0])]
    e = x.int(tag + "e", 0, 0xFFFFFFFF)
    blob, h, _ = elf(f, secs, [seg], {"e_entry": e})

    def check(p):
        x.check(p.e_entry == e, "entry point")
        x.check(p.e_shnum == 6 and p.e_phnum == 1 and p.b64 == f.b64 and p.endianess == f.order, "header")
        x.check(len(p.segments) == 1 and p.segments[0].p_vaddr == v, "segments")
        r = p.sections.get(name)
        x.check(x.all([r.sh_addr == a, x.eq(r.section_image, d)]), "section")
        x.check(len(p.sections.fetch()) == 6, "number of sections")
        m = p.symbols.fetch()
        x.check(list(m) == [name] and len(m[name]) == 1, "symbols")
        x.check(x.all([m[name][0].st_value == s["st_value"], m[name][0].st_size == s["st_size"]]), "symbol")
        x.check(len(p.notes) == 1 and p.notes[0].desc == bytes([note]).hex(), "note")
        img = p.create_image()
        x.check(len(img.sections) == 1 and img.sections[0].start_address == a, "image")
        x.check(x.eq(bytes(img.sections[0].data), d), "image")

    return blob, check


@case("C37", grid=CLASSES, bounds="a file with arbitrary values opened twice: the second time from its database")
def reopen(x, b64, order):
    blob, check = small(x, Fields(b64, order), "p")
    path = x.path("t.elf", blob)
    mod = x.imp("objutils.elf")
    p = mod.ElfParser(path)
    check(p)
    close(p)
    del p
    for _ in range(2):
        p = mod.ElfParser(path)
        check(p)
        close(p)
        del p


@case("C37", grid=[dict(first=a, second=b) for a, b in ((0, 3), (3, 0), (1, 0), (2, 2))], bounds="two files (same or other class and byte order) with arbitrary values open at the same time, and opened again")
def side_by_side(x, first, second):
    b1, check1 = small(x, Fields(**CLASSES[first]), "p")
    b2, check2 = small(x, Fields(**CLASSES[second]), "q", ".text" if first == second else ".code")
    mod = x.imp("objutils.elf")
    p1, p2 = x.path("t.elf", b1), x.path("u.elf", b2)
    for _ in range(2):
        e1 = mod.ElfParser(p1)
        e2 = mod.ElfParser(p2)
        check1(e1)
        check2(e2)
        check1(e1)
        close(e2)
        close(e1)
        del e1, e2


@case("C37", grid=[dict(first=a, second=b) for a, b in ((0, 0), (0, 3), (3, 1), (1, 2))], bounds="a file replaced by another one (same or other class and byte order) with arbitrary values between two uses; and changed back")
def replaced(x, first, second):
    b1, check1 = small(x, Fields(**CLASSES[first]), "p")
    b2, check2 = small(x, Fields(**CLASSES[second]), "q", ".text" if first == second else ".code")
    mod = x.imp("objutils.elf")
    for blob, check in ((b1, check1), (b2, check2), (b2, check2), (b1, check1)):
        p = mod.ElfParser(x.path("t.elf", blob))
        check(p)
        close(p)
        del p


@case("C37", grid=[dict(bad=b) for b in ("magic", "name", "cut")], bounds="a file that cannot be read (wrong magic number, name that is no text, cut off) is refused again the next time; after it was replaced by a good one, that is read")
def failed(x, bad):
    import gc

    f = Fields(False, "<")
    s = sym(x, "s", f, st_shndx=1)
    s["st_name"] = 1
    s2 = sym(x, "u", f, st_shndx=1, st_bind=0, st_type=0, st_other=0)
    s2["st_name"] = 1
    c = x.choice("c", (128, 191, 255))
    secs = [dict(name=".text", sh_type=1, data=[1]), dict(name=".symtab", sh_type=2, sh_link=3, data=f.symbol(s)), dict(name=".strtab", sh_type=3, data=b"\0main\0"), dict(name=".dynsym", sh_type=11, sh_link=5, data=f.symbol(s2)), dict(name=".dynstr", sh_type=3, data=[0, c if bad == "name" else 66, 65, 0])]
    blob, h, _ = elf(f, secs)
    bs = list(blob)
    if bad == "magic":
        bs[3] = x.choice("m", (0, 0x47, 255))
    elif bad == "cut":
        bs = bs[:-30]
    path = x.path("t.elf", bytes(bs))
    mod = x.imp("objutils.elf")
    for _ in range(2):
        x.check(x.raises(lambda: mod.ElfParser(path), Exception) is not None, "refused")
        gc.collect()
    good, check = small(x, f, "p")
    path = x.path("t.elf", good)
    p = mod.ElfParser(path)
    check(p)
    close(p)
