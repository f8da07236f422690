"""Command line tools: what they print and write is what the files contain."""

import io
import re

from harness.common import check_content, merge
from harness.h_elf import CLASSES, Fields, check_image, elf, strtab, sym, symtab
from symx.harness import case

TOOL = "objutils.scripts."
LITTLE, BIG = CLASSES[0], CLASSES[3]
CODECS = dict(ash=16, cosmac=16, emon52=16, etek=32, fpc=32, ihex=32, mostec=16, rca=16, shf=32, sig=16, srec=32, tek=16, titxt=16)


def rows(x, lines, n, after):
    """The n lines behind the one that equals after."""
    at = lines.index(after)
    return lines[at + 1 : at + 1 + n], lines[at + 1 + n :]


def same(x, got, want, what):
    x.check(len(got) == len(want), f"{what}: number of lines")
    for g, w in zip(got, want):
        x.check(len(g) == len(w) and x.eq(g, w), f"{what}: text")


@case("C43", grid=[dict(codec=c, dump=d) for c in sorted(CODECS) for d in (False, True)], bounds="files of every format with two sections of 3 and 18 bytes (three of them arbitrary, one for FPC) at arbitrary addresses of 15 bits, with and without hex dump; missing files")
def hex_info(x, codec, dump):
    ou = x.imp("objutils")
    a = x.int("a", 0, 0x3FFF)
    b = x.int("b", 0x4000, 0x7FFF)
    few = codec == "fpc"
    d, e = [x.byte("d0"), 0, 7 if few else x.byte("d1")], list(range(17)) + [255 if few else x.byte("e0")]
    img = ou.Image([ou.Section(a, d), ou.Section(b, e)])
    p = x.path("t.hex")
    ou.dump(codec, p, img)
    img = ou.load(codec, p)
    code, lines = x.main(TOOL + "oj_hex_info", codec, p, *(["-d"] if dump else []))
    x.check(code == 0, "exit code")
    ruler = "-" * 79
    got, rest = rows(x, lines, len(img.sections) + 2, ruler)
    want = [f"{i:03d}   0x{s.start_address:08x} {len(s.data)}" for i, s in enumerate(img.sections)] + [ruler, f"                 {sum(len(s.data) for s in img.sections)} total bytes"]
    same(x, got, want, "sections")
    text = io.StringIO()
    if dump:
        img.hexdump(text)
    same(x, rest, text.getvalue().split("\n") if dump else [""], "dump")
    code, lines = x.main(TOOL + "oj_hex_info", codec, x.path("none.hex"))
    x.check(code == 1 and lines != [], "a missing file is reported")


EXTRACT = [
    dict(args=(), inc="", exc=""),
    dict(args=("-j",), inc="", exc=""),
    dict(args=("-t", "srec", "--join"), inc="", exc=""),
    dict(args=("-t", "shf"), inc="", exc=""),
    dict(args=("-t", "titxt"), inc="", exc=""),
    dict(args=("-t", "ihex", "-i", r"\.t"), inc=r"\.t", exc=""),
    dict(args=("-e", r"\.t"), inc="", exc=r"\.t"),
    dict(args=("-j", "-i", r"\.[dt]", "-e", ".*a"), inc=r"\.[dt]", exc=".*a"),
    dict(args=("-j", "-t", "shf", "-e", r"\.d"), inc="", exc=r"\.d"),
    dict(args=("-i", r"\.d", "-t", "titxt"), inc=r"\.d", exc=""),
    dict(args=("-t", "srec", "-e", ".*t"), inc="", exc=".*t"),
    dict(args=("-i", "nothing"), inc="nothing", exc=""),
]


@case("C43", grid=[dict(k=k, **c) for k in range(len(EXTRACT)) for c in (LITTLE, BIG)], bounds="ELF files with three loadable sections of 1-2 arbitrary bytes, two at arbitrary disjoint addresses (15 bits), and one without contents at any address; twelve combinations of options")
def elf_extract(x, k, b64, order):
    ou = x.imp("objutils")
    o = EXTRACT[k]
    secs = []
    for i, (name, n, t) in enumerate(((".data", 2, 1), (".text", 2, 1), (".bss", 1, 8), (".rodata", 1, 1))):
        secs.append(dict(name=name, sh_type=t, sh_flags=2, sh_addr=x.int(f"a{i}", 0, 0x7FF0) if i < 3 else 0x7FF2, data=list(x.bytes(f"d{i}", n))))
    s, r = secs[:2]
    x.assume(x.any([s["sh_addr"] + 2 <= r["sh_addr"], r["sh_addr"] + 2 <= s["sh_addr"]]))
    src, out = x.path("t.elf", elf(Fields(b64, order), secs)[0]), x.path("t.out")
    code, lines = x.main(TOOL + "oj_elf_extract", src, out, *o["args"])
    x.check(code == 0, "exit code")
    kept = [s for s in secs if s["sh_type"] == 1 and (not o["inc"] or re.match(o["inc"], s["name"])) and not (o["exc"] and re.match(o["exc"], s["name"]))]
    ruler = "-" * 45
    got, rest = rows(x, lines, len(kept), ruler)
    for s in kept:
        x.check(x.any([x.eq(g, f"{s['name']:25s} 0x{s['sh_addr']:08x} {len(s['data'])}") for g in got]), "line for every section")
    x.check(rest[0] == ruler, "nothing else is listed")
    if not kept:
        x.check(x.file_content(out) is None, "no file")
        return
    x.check(rest[1].endswith(f"[{sum(len(s['data']) for s in kept)} total bytes]"), "number of bytes")
    fmt = o["args"][o["args"].index("-t") + 1] if "-t" in o["args"] else "ihex"
    img = ou.load(fmt, out)
    check_image(x, img, kept, True)


NAMES = ["main", "_start", "buf", "abs_1"]
BINDS = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK", 10: "GNU_UNIQUE"}
TYPES = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE", 5: "COMMON", 6: "TLS", 10: "GNU_IFUNC"}
SYMS = [
    (),
    ("-o", "N"),
    ("--order-by", "V", "-b", "g"),
    ("-t", "func,object", "-s", ".text"),
    ("-s", ".data SHN_ABS"),
    ("-a", "w"),
    ("-p", "[_m]"),
    ("-o", "N", "-p", ".", "-s", ".text .data"),
    ("-a", "a", "-o", "N", "-t", "notype func", "-b", "g,l"),
    ("-p", ".*s", "-b", "g w", "-a", "x", "-t", "func"),
]


def option(args, *names):
    for n in names:
        if n in args:
            return args[args.index(n) + 1]
    return ""


def words(text):
    return text.lower().replace(",", " ").split()


@case("C43", grid=[dict(k=k, **c) for k in range(len(SYMS)) for c in (LITTLE, BIG)], bounds="four symbols in three sections with arbitrary values (32 and 63 bits), bindings, types and section flags (of the named ones), ten combinations of options")
def elf_syms(x, k, b64, order):
    args = SYMS[k]
    f = Fields(b64, order)
    fl = [x.int(f"f{i}", 0, 7) if k in (5, 8, 9) or k == i else 6 - i for i in range(2)]
    syms = []
    bs = [x.choice("b0", list(BINDS)) if k == 2 else 1, 1, x.choice("b1", (0, 2)) if k == 9 else 0, 1]
    ts = [2, x.choice("t1", list(TYPES)) if k == 3 or k == 0 and not b64 else 2, 1, 0]
    for i, (n, ndx) in enumerate(zip(NAMES, (1, 1, 2, 0xFFF1))):
        v = x.int(f"v{i}", 0, (1 << 63) - 1 if b64 else 0xFFFFFFFF) if i == 0 or i == 1 and not b64 else 7
        syms.append(sym(x, i, f, st_value=v, st_size=x.int(f"n{i}", 0, 99999) if i == 0 and k == 1 else 4 + i, st_other=0, st_shndx=ndx, st_bind=bs[i], st_type=ts[i]))
    data, tab = symtab(f, NAMES, syms)
    secs = [dict(name=".text", sh_type=1, sh_flags=fl[0], data=[1, 2]), dict(name=".data", sh_type=1, sh_flags=fl[1], data=[3]), dict(name=".symtab", sh_type=2, sh_link=4, data=data), dict(name=".strtab", sh_type=3, data=tab)]
    for n, s in zip(NAMES, syms):
        s["name"] = n
        s["section"] = {1: ".text", 2: ".data", 0xFFF1: "SHN_ABS"}[s["st_shndx"]]
        s["access"] = {1: fl[0], 2: fl[1], 0xFFF1: 0}[s["st_shndx"]]
    want = syms
    for o in ("-s", "-b", "-t", "-a", "-p"):
        q = option(args, o)
        if q and o == "-s":
            want = [s for s in want if s["section"] in q.replace(",", " ").split()]
        elif q and o == "-b":
            want = [s for s in want if s["st_bind"] in [{"g": 1, "l": 0, "w": 2}[w] for w in words(q)]]
        elif q and o == "-t":
            want = [s for s in want if TYPES[s["st_type"]].lower() in words(q)]
        elif q and o == "-a":
            want = [s for s in want if bool(x.any([s["access"] // {"w": 1, "a": 2, "x": 4}[w] % 2 == 1 for w in words(q)]))]
        elif q:
            want = [s for s in want if re.match(q, s["name"])]
    code, lines = x.main(TOOL + "oj_elf_syms", x.path("t.elf", elf(f, secs)[0]), *args)
    x.check(code == 0, "exit code")
    groups = []
    for n in sorted({s["section"] for s in want}):
        g = [s for s in want if s["section"] == n]
        if option(args, "-o") == "N":
            g.sort(key=lambda s: s["name"])
        elif len(g) == 2 and bool(g[0]["st_value"] > g[1]["st_value"]):
            g.reverse()
        groups.append((n, g))
    at = 0
    for n, g in groups:
        at = lines.index(n, at)
        got, _ = rows(x, lines[at:], 3 * len(g), "-" * 79)
        tie = len(g) == 2 and option(args, "-o") != "N" and bool(g[0]["st_value"] == g[1]["st_value"])
        if tie and got[0].strip() != g[0]["name"]:
            g.reverse()
        ws = []
        for s in g:
            acc = ("A" if s["access"] // 2 % 2 == 1 else " ") + ("W" if s["access"] % 2 == 1 else " ") + ("X" if s["access"] // 4 == 1 else " ")
            ws += [f"{s['name']:30}", f"{s['st_value']:08x} {s['st_size']:5d} {BINDS[s['st_bind']]:10} {TYPES[s['st_type']]:9} {acc}", ""]
        same(x, got, ws, "symbols of " + n)
    x.check(len([s for s in lines if s == "-" * 79]) == len(groups), "sections")


@case("C43", grid=[dict(machine=m, **c) for m in (40, 183, 3) for c in (LITTLE, BIG)], bounds="ELF files of three machines with and without build attributes, two attributes of arbitrary value; files that are no ELF files")
def arm_attrs(x, machine, b64, order):
    am = x.imp("objutils.elf.arm.attributes")
    f = Fields(b64, order)
    v, w = x.int("v", 0, 9), x.int("w", 0, 127)
    attrs = [8, v, 64, w, 5] + [ord(c) for c in "ARM7"] + [0]
    body = [ord(c) for c in "aeabi"] + [0, 1] + f.pack((len(attrs) + 5, 4)) + attrs
    data = [0x41] + f.pack((len(body) + 4, 4)) + body
    secs = [dict(name=".ARM.attributes" if x.choice("with", (True, False)) else ".other", sh_type=0x70000003, data=data)]
    code, lines = x.main(TOOL + "oj_elf_arm_attrs", x.path("t.elf", elf(f, secs, header={"e_machine": machine})[0]))
    if machine == 3:
        x.check(code == 2 and len(lines) > 1, "other machines are refused")
        return
    x.check(code == 0, "exit code")
    if secs[0]["name"] == ".other":
        x.check("-" * 79 not in lines and "*** No .ARM.attributes section ***" in lines, "no attributes")
        return
    x.check("aeabi" in lines, "vendor")
    got, rest = rows(x, lines, 9, "-" * 79)
    names = (("Tag_ARM_ISA_use", v), ("Tag_nodefaults", w), ("Tag_CPU_name", "ARM7"))
    for k, ((n, val), a) in enumerate(zip(names, am.parse(bytes(data), order)["aeabi"])):
        same(x, got[3 * k : 3 * k + 3], [f"{n:30} {val}", f"{a.description}", ""], "attribute")
    x.check(all(r == "" for r in rest), "no other attributes")


@case("C43", grid=[dict(tool=t) for t in ("oj_elf_extract", "oj_elf_syms", "oj_elf_arm_attrs")], bounds="files of 0-6 arbitrary bytes that are no ELF files")
def no_elf(x, tool):
    n = x.pick("n", 0, 6)
    p = x.path("t.elf", x.bytes("d", n))
    out = x.path("t.out")
    code, lines = x.main(TOOL + tool, p, *([out] if tool == "oj_elf_extract" else []), text=False)
    x.check(code == 1 and lines, "refused")
    x.check(x.file_content(out) is None, "no file")


PT = {0: "NULL", 1: "LOAD", 2: "DYNAMIC", 3: "INTERP", 4: "NOTE", 5: "SHLIB", 6: "PHDR", 7: "TLS", 0x6474E550: "GNU_EH_FRAME", 0x6474E551: "GNU_STACK", 0x6474E552: "GNU_RELRO", 0x6474E553: "GNU_PROPERTY", 0x70000001: "ARM_EXIDX"}
SHT = {0: "NULL", 1: "PROGBITS", 8: "NOBITS", 14: "INIT_ARRAY", 0x70000003: "ARM_ATTRIBUTES"}
ET = {0: "NONE", 1: "REL", 2: "EXEC", 3: "DYN", 4: "CORE"}
OSABI = {0: "NONE", 2: "NETBSD", 6: "SOLARIS", 9: "FREEBSD", 97: "ARM", 255: "STANDALONE"}


@case("C43", grid=[dict(k=k, **c) for k in range(3) for c in CLASSES], bounds="headers, one section and one segment with arbitrary fields (of the named types), a comment and a note; both classes and byte orders")
def elf_info(x, k, b64, order):
    f = Fields(b64, order)
    w = (1 << 63) - 1 if b64 else 0xFFFFFFFF
    et = x.choice("et", list(ET)) if k == 0 else 2
    abi = x.choice("abi", list(OSABI)) if k == 0 else 0
    av = x.byte("av") if k == 0 else 0
    s = dict(name=".abc", sh_type=x.choice("st", list(SHT)) if k == 1 else 1, sh_addr=x.int("sa", 0, w) if k == 1 else 16, sh_addralign=x.int("al", 0, 99) if k == 1 else 4, data=[1, 2])
    g = dict(p_type=x.choice("pt", list(PT) if order == "<" else [2]) if k == 2 else 1, p_offset=0, p_vaddr=x.int("pv", 0, w) if k == 2 else 0, p_paddr=x.int("pp", 0, 0xFFFFFFFF) if k == 2 else 0, p_filesz=x.int("pf", 0, 0xFFFFF) if k == 2 else 9, p_memsz=x.int("pm", 0, 0xFFFFF) if k == 2 else 9, p_flags=x.int("fl", 0, 0xFFFFFFFF) if k == 2 and order == ">" else 5, p_align=4096)
    note = x.byte("note")
    secs = [s, dict(name=".comment", sh_type=1, data=[71, 67, 67, 0]), dict(name=".note", sh_type=7, data=f.pack((4, 4), (1, 4), (7, 4)) + [71, 78, 85, 0, note, 0, 0, 0])]
    blob, h, shs = elf(f, secs, [g], dict(e_type=et, ei_osabi=abi, ei_abiversion=av, e_machine=3))
    code, lines = x.main(TOOL + "oj_elf_info", x.path("t.elf", blob))
    x.check(code == 0, "exit code")
    heads = {}
    for n in ("Class", "Type", "Machine", "Data", "OS/ABI"):
        heads[n] = [t[13:] for t in lines if t[:13].rstrip(": ") == n][0]
    x.check("64" in heads["Class"] if b64 else "32" in heads["Class"], "class")
    x.check(heads["Type"].split(" ")[0] == ET[et], "type")
    x.check(heads["Machine"].split(" ")[0] == "386", "machine")
    x.check(("ittle" in heads["Data"]) == (order == "<") and ("ig" in heads["Data"]) == (order == ">"), "byte order")
    same(x, [heads["OS/ABI"]], [f"{OSABI[abi]} / v{av}"], "ABI")
    names = ["", ".abc", ".comment", ".note", ".shstrtab"]
    kinds = ["NULL", SHT[s["sh_type"]], "PROGBITS", "NOTE", "STRTAB"]
    got, rest = rows(x, lines, 5, "-" * 79)
    same(x, got, [f"{n:25} {t:14} {q['sh_addr']:08x} {q['sh_offset']:08x} {q['sh_size']:06x} {q['sh_addralign']:2}" for n, t, q in zip(names, kinds, shs)], "sections")
    got, rest = rows(x, rest, 1, "-" * 71)
    fl = ("R" if g["p_flags"] // 4 % 2 == 1 else "-") + ("W" if g["p_flags"] // 2 % 2 == 1 else "-") + ("X" if g["p_flags"] % 2 == 1 else "-")
    same(x, got, [f"{PT[g['p_type']]:12} 0x{0:08x} 0x{g['p_vaddr']:08x} 0x{g['p_paddr']:08x} 0x{g['p_filesz']:05x} 0x{g['p_memsz']:05x} {fl:3} {4096:>5}"], "segments")
    at = rest.index(".comment")
    x.check(rest[at + 3] == "GCC", "comment")
    got, rest = rows(x, rest[at:], 1, "-" * 79)
    same(x, got, [f"{7:4} {'GNU':15} {note:02x}"], "note")
