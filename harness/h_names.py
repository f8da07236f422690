"""Sections in segments, names of the constants of ELF files."""

import types

from harness.dwarfnames import NAMES as DWARF
from harness.elfnames import NAMES
from harness.h_dwarf import section
from harness.h_elf import CLASSES, Fields, elf, parser
from symx.harness import case

W32 = (1 << 32) - 1
LOAD, DYNAMIC, PHDR, TLS, RELRO = 1, 2, 6, 7, 0x6474E552
NOBITS = 8
SHF_ALLOC, SHF_TLS = 2, 0x400


def bit(v, b):
    return (v // b) % 2 == 1


def lies_in(x, sec, seg, strict):
    """Is the section part of the segment? Written from the rules of the ELF specification."""
    tls, alloc, nobits = bit(sec.sh_flags, SHF_TLS), bit(sec.sh_flags, SHF_ALLOC), sec.sh_type == NOBITS
    t = seg.p_type
    size = 0 if x.split(x.all([tls, nobits, t != TLS])) else sec.sh_size

    def within(at, start, length):
        r = [at >= start, at + size <= start + length]
        return x.all(r + [at < start + length] if strict else r)

    def inside(at, start, length):
        return x.all([at > start, at < start + length])

    kind = x.ite(tls, x.any([t == TLS, t == RELRO, t == LOAD]), x.all([t != TLS, t != PHDR]))
    in_file = x.any([nobits, within(sec.sh_offset, seg.p_offset, seg.p_filesz)])
    in_memory = x.any([x.not_(alloc), within(sec.sh_addr, seg.p_vaddr, seg.p_memsz)])
    edge = x.all([t == DYNAMIC, sec.sh_size == 0, seg.p_memsz != 0, x.not_(x.all([x.any([nobits, inside(sec.sh_offset, seg.p_offset, seg.p_filesz)]), x.any([x.not_(alloc), inside(sec.sh_addr, seg.p_vaddr, seg.p_memsz)])]))])
    return x.all([kind, in_file, in_memory, x.not_(edge)])


@case("C41", grid=[dict(strict=s, hi=h) for s in (False, True) for h in (31, 32, 63)], bounds="one section and one segment whose type, flags, addresses, offsets and sizes are all arbitrary (31, 32 and 63 bits)")
def section_in_segment(x, strict, hi):
    p = parser(x, elf(Fields(False, "<"))[0])
    w = (1 << hi) - 1
    sec = types.SimpleNamespace(sh_type=x.int("type", 0, W32), sh_flags=x.int("flags", 0, w), sh_addr=x.int("addr", 0, w), sh_offset=x.int("offset", 0, w), sh_size=x.int("size", 0, w))
    seg = types.SimpleNamespace(p_type=x.int("ptype", 0, W32), p_offset=x.int("poffset", 0, w), p_vaddr=x.int("vaddr", 0, w), p_paddr=x.int("paddr", 0, w), p_filesz=x.int("filesz", 0, w), p_memsz=x.int("memsz", 0, w))
    got = p.section_in_segment_strict(sec, seg) if strict else p.section_in_segment(sec, seg)
    x.obs("in", bool(got))
    x.check(x.iff(got, lies_in(x, sec, seg, strict)), "section in segment")


# ---------------------------------------------------------------------------------------------------- names
KINDS = sorted(NAMES)


@case("C42", grid=[dict(kind=k) for k in KINDS], bounds="every number of 32 bits: those the ELF headers define have (one of) their standard names, and no other number gets one of these names")
def constant_names(x, kind):
    cls = getattr(x.imp("objutils.elf.defs"), kind)
    v = x.int("v", 0, W32)
    known = x.split(x.any([v == k for k in NAMES[kind]]))
    got = []
    e = x.raises(lambda: got.append(cls(v).name))
    if known:
        x.check(e is None, "a defined number has a name")
        name = got[0]
        x.obs("name", name)
        x.check(x.any([v == k for k, ns in NAMES[kind].items() if name in ns]), "name")
    elif e is None:
        x.check(not any(got[0] in ns for ns in NAMES[kind].values()), "name of another number")
    else:
        x.check(isinstance(e, ValueError), "unknown number")


@case("C42", bounds="every segment type of 32 bits")
def segment_type(x):
    defs = x.imp("objutils.elf.defs")
    v = x.int("v", 0, W32)
    known = x.split(x.any([v == k for k in NAMES["ProgramHeader"]]))
    got = []
    e = x.raises(lambda: got.append(defs.program_header_name(v)))
    if known:
        x.check(e is None, "a defined number has a name")
        x.check(x.any([v == k for k, ns in NAMES["ProgramHeader"].items() if "PT_" + got[0] in ns]), "name")
    elif e is None:
        x.check(not any("PT_" + got[0] in ns for ns in NAMES["ProgramHeader"].values()), "name of another number")


@case("C42", bounds="all segment flags of 32 bits")
def segment_flags(x):
    v = x.int("v", 0, W32)
    got = x.imp("objutils.elf.defs").program_header_flags_name(v)
    x.check(len(got) == 3, "three flags")
    for i, (c, b) in enumerate((("R", 4), ("W", 2), ("X", 1))):
        x.check(got[i] == (c if x.split(bit(v, b)) else "-"), "flag")


@case("C42", bounds="all section indices of 16 bits: reserved ones by name, others as decimal numbers")
def section_index(x):
    v = x.int("v", 0, 65535)
    got = x.imp("objutils.elf.defs").special_section_name(v)
    hit = x.split(x.any([v == k for k in NAMES["SectionName"]]))
    if hit:
        x.check(x.any([v == k for k, ns in NAMES["SectionName"].items() if got in ns]), "name")
    elif x.split(x.any([v == k for k in (0xFF1F, 0xFF3F)])):
        pass  # ends of reserved ranges
    else:
        x.check(x.eq(got, f"{v}"), "number")


@case("C42", grid=CLASSES, bounds="every machine of 16 bits, arbitrary flags of 32 bits, both classes and byte orders")
def machine(x, b64, order):
    """ElfParser.machine_data"""
    v = x.int("v", 0, 65535) if b64 == (order == "<") else x.choice("m", (0, 3, 8, 40, 62, 83, 243, 0x1057, 65535))
    fl = x.int("fl", 0, W32)
    AVR = 83
    if not x.split(v == AVR):
        fl = 0x05000200
    p = parser(x, elf(Fields(b64, order), header={"e_machine": v, "e_flags": fl})[0])
    got = p.machine_data
    head = got.split(" ")[0]
    names = NAMES["ELFMachineType"]
    if x.split(x.any([v == k for k in names])):
        x.check(x.any([v == k for k, ns in names.items() if "EM_" + head in ns]), "name of the machine")
        x.check(got[len(head) :][:2] == " [" and got[-1] == "]" and "unknown" not in got.split("]")[0], "description")
    else:
        x.check(not any("EM_" + head in ns for ns in names.values()), "name of another machine")
    if x.split(v == AVR):
        want = [AVRS.get(k) for k in AVRS if bool(fl % 128 == k)] or ["avr:<unknown>"]
        if bool(bit(fl, 128)):
            want.append("link-relax")
        x.check(got.endswith(f" [{', '.join(want)}]"), "kind of AVR")


AVRS = {k: f"avr:{k}" for k in (1, 2, 3, 4, 5, 6, 25, 31, 35, 51, 100, 101, 102, 103, 104, 105, 106, 107)}


@case("C29", grid=CLASSES, bounds="the first 16 bytes of the file as they are: version, OS ABI and its version arbitrary")
def header_bytes(x, b64, order):
    f = Fields(b64, order)
    h = {"ei_version": x.byte("ver"), "ei_osabi": x.byte("osabi"), "ei_abiversion": x.byte("abiver")}
    p = parser(x, elf(f, header=h)[0])
    x.check(x.eq(list(p.header_bytes), f.ident(h["ei_version"], h["ei_osabi"], h["ei_abiversion"])), "identification")


@case("C41", grid=[dict(strict=s, third=t, **c) for s, c in ((False, CLASSES[3]), (True, CLASSES[0])) for t in range(3)], thorough_grid=[dict(strict=s, third=t, **c) for s in (False, True) for t in range(3) for c in CLASSES], bounds="section headers and segments of a file: one section of three bytes and one without contents, at arbitrary addresses, with arbitrary flags and an arbitrary segment of any of six types")
def sections_of_file(x, strict, third, b64, order):
    f = Fields(b64, order)
    w = (1 << 40) - 1 if b64 else W32
    secs = [dict(name=".a", sh_type=1, sh_flags=x.int("fl0", 0, 0xFFF), sh_addr=x.int("a0", 0, w), data=[1, 2, 3]), dict(name=".b", sh_type=8, sh_flags=x.int("fl1", 0, 0xFFF), sh_addr=x.int("a1", 0, w), sh_size=x.int("n1", 0, w), data=[])]
    g = {n: x.int(n, 0, w) for n in ("p_offset", "p_vaddr", "p_filesz", "p_memsz")}
    g.update(p_type=x.choice("type", ((0, LOAD), (DYNAMIC, PHDR), (TLS, RELRO))[third]), p_paddr=0, p_flags=4, p_align=1)
    p = parser(x, elf(f, secs, [g])[0])
    seg = p.segments[0]
    for s in secs:
        sec = p.sections.get(s["name"])
        got = p.section_in_segment_strict(sec, seg) if strict else p.section_in_segment(sec, seg)
        x.check(x.iff(got, lies_in(x, sec, seg, strict)), "section in segment")


# ---------------------------------------------------------------------------------------------------- DWARF
DKINDS = sorted(DWARF)
ENCODED = {
    "encoding": "BaseTypeEncoding", "decimal_sign": "DecimalSign", "endianity": "Endianity", "accessibility": "Accessibility", "visibility": "Visibility", "virtuality": "Virtuality", "language": "Languages",
    "identifier_case": "IdentifierCase", "calling_convention": "CallingConvention", "inline": "Inline", "ordering": "Ordering", "defaulted": "Defaulted",
}


def plain(name):
    """Names are shown with or without their prefix, and with an underscore behind those that are words of Python."""
    name = name.rstrip("_")
    if name.startswith("DW_"):
        name = name[3:]
        return name[6:] if name.startswith("EH_PE_") else name.split("_", 1)[1]
    return name


@case("C45", grid=[dict(kind=k) for k in DKINDS], bounds="every number of 16 bits: those with a standard name have it, and no other number gets one of these names")
def dwarf_constants(x, kind):
    cls = getattr(x.imp("objutils.dwarf.constants"), kind)
    names = DWARF[kind]
    v = x.int("v", 0, 65535)
    known = x.split(x.any([v == k for k in names]))
    got = []
    e = x.raises(lambda: got.append(cls(v).name))
    if known:
        x.check(e is None, "a defined number has a name")
        name = plain(got[0])
        x.obs("name", name)
        x.check(x.any([v == k for k, ns in names.items() if name in ns]), "name")
    elif e is None:
        x.check(not any(plain(got[0]) in ns for ns in names.values()), "name of another number")


@case("C45", grid=[dict(attr=a) for a in ENCODED], bounds="every value of 64 bits of the attributes whose values have names")
def dwarf_values(x, attr):
    dw = x.imp("objutils.dwarf")
    enc = getattr(x.imp("objutils.dwarf.constants").AttributeEncoding, attr)
    names = DWARF[ENCODED[attr]]
    v = x.int("v", 0, (1 << 64) - 1)
    got = dw.encoding_repr(enc, v)
    if x.split(x.any([v == k for k in names])):
        name = plain(got)
        x.check(x.any([v == k for k, ns in names.items() if name in ns]), "name")
    elif got[:8] == "Unknown ":
        x.check(x.eq(got, f"Unknown encoding value ({v})"), "number")
    else:
        x.check(not any(plain(got) in ns for ns in names.values()), "name of another number")


def uleb3(v):
    return [v % 128 + 128, v // 128 % 128 + 128, v // 16384]


@case("C45", bounds="declarations of an abbreviation with an arbitrary tag of 16 bits")
def dwarf_tag(x):
    dw = x.imp("objutils.dwarf")
    v = x.int("v", 1, 65535)
    tag = dw.Abbrevations(section(bytes([1] + uleb3(v) + [0, 0, 0, 0]))).get(0, 1).tag
    names = DWARF["Tag"]
    if x.split(x.any([v == k for k in names])):
        name = plain(tag)
        x.obs("name", name)
        x.check(x.any([v == k for k, ns in names.items() if name in ns]), "name")
    elif tag[:5] == "User ":
        x.check(x.eq(tag, "User TAG value: 0x" + "%04x" % v), "number")
    else:
        x.check(not any(plain(tag) in ns for ns in names.values()), "name of another number")


@case("C45", grid=[dict(const=c) for c in (False, True)], bounds="declarations of an abbreviation with an arbitrary attribute of 16 bits, with and without an implicit constant")
def dwarf_attribute(x, const):
    dw = x.imp("objutils.dwarf")
    v = x.int("v", 1, 65535)
    a = dw.Abbrevations(section(bytes([1, 0x34, 0] + uleb3(v) + ([0x21, 5] if const else [0x0B]) + [0, 0, 0]))).get(0, 1).attrs[0]
    enc, form, special = list(a)
    x.check(form.name == ("DW_FORM_implicit_const" if const else "DW_FORM_data1"), "form")
    names = DWARF["AttributeEncoding"]
    if x.split(x.any([v == k for k in names])):
        name = plain(enc.name)
        x.obs("name", name)
        x.check(x.any([v == k for k, ns in names.items() if name in ns]), "name")
    elif enc.name[:8] == "Unknown ":
        x.check(x.eq(enc.name, "Unknown AT value (0x" + "%04x" % v + ")"), "number")
    else:
        x.check(not any(plain(enc.name) in ns for ns in names.values()), "name of another number")
