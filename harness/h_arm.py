"""ARM build attributes."""

from harness.h_dwarf import leb_bytes, leb_value
from harness.h_elf import Fields, elf, parser
from symx.harness import case

NUMBERS = {
    6: "Tag_CPU_arch", 7: "Tag_CPU_arch_profile", 8: "Tag_ARM_ISA_use", 9: "Tag_THUMB_ISA_use", 10: "Tag_FP_arch", 11: "Tag_WMMX_arch", 12: "Tag_Advanced_SIMD_arch", 13: "Tag_PCS_config",
    14: "Tag_ABI_PCS_R9_use", 15: "Tag_ABI_PCS_RW_data", 16: "Tag_ABI_PCS_RO_data", 17: "Tag_ABI_PCS_GOT_use", 18: "Tag_ABI_PCS_wchar_t", 19: "Tag_ABI_FP_rounding", 20: "Tag_ABI_FP_denormal",
    21: "Tag_ABI_FP_exceptions", 22: "Tag_ABI_FP_user_exceptions", 23: "Tag_ABI_FP_number_model", 24: "Tag_ABI_align_needed", 25: "Tag_ABI_align8_preserved", 26: "Tag_ABI_enum_size", 27: "Tag_ABI_HardFP_use",
    28: "Tag_ABI_VFP_args", 29: "Tag_ABI_WMMX_args", 30: "Tag_ABI_optimization_goals", 31: "Tag_ABI_FP_optimization_goals", 34: "Tag_CPU_unaligned_access", 36: "Tag_FP_HP_extension (was Tag_VFP_HP_extension)",
    38: "Tag_ABI_FP_16bit_format", 42: "Tag_MPextension_use", 44: "Tag_DIV_use", 64: "Tag_nodefaults", 66: "Tag_T2EE_use", 68: "Tag_Virtualization_use", 70: "Tag_MPextension_use",
}
PLAIN = (64,)  # numbers without a description of their own
TABLES = {25: "Tag_ABI_align_preserved", 36: "Tag_FP_HP_extension"}
STRINGS = {4: "Tag_CPU_raw_name", 5: "Tag_CPU_name", 65: "Tag_also_compatible_with", 67: "Tag_conformance"}
# some entries of the tables as the ABI has them: (tag, value, beginning of the description)
SAMPLES = ((6, 0, "Pre-v4"), (6, 2, "ARM v4T"), (6, 5, "ARM v5TEJ"), (6, 10, "ARM v7"), (6, 13, "ARM v7E-M"), (6, 14, "ARM v8"), (7, 0x41, "The application"), (7, 0x52, "The real-time"), (7, 0x4D, "The microcontroller"), (18, 2, "The user intended the size of wchar_t to be 2"), (18, 4, "The user intended the size of wchar_t to be 4"), (26, 1, "Enum values occupy the smallest"), (28, 1, "The user intended FP parameter/result passing to conform to AAPCS, VFP"))


def text(s):
    return [ord(c) for c in s]


def number(v, order):
    return list(v.to_bytes(4, "little" if order == "<" else "big"))


def section(order, vendor, attrs):
    sub = [1] + number(len(attrs) + 5, order) + attrs
    return number(4 + len(vendor) + 1 + len(sub), order) + text(vendor) + [0] + sub


def describe(x, mod, tag, value):
    """Description the tables of the ABI give for a number."""
    table = getattr(mod, TABLES.get(tag, NUMBERS[tag]))
    for k, t in table.items():
        if bool(value == k):
            return t
    return None


@case("C30", grid=[dict(tag=t, order=o) for t in NUMBERS if t != 20 for o in "<>"], bounds="every numeric attribute with every one byte (and padded two byte) value, followed by another attribute, both byte orders")
def number_attribute(x, tag, order):
    check_number(x, tag, order)


@case("C30", grid=[dict(order=o) for o in "<>"], bounds="the attribute for denormal numbers (described by the wrong table: known finding)")
def denormal_attribute(x, order):
    check_number(x, 20, order)


def check_number(x, tag, order):
    mod = x.imp("objutils.elf.arm.attributes")
    n = 2 if order == "<" else 1
    bs = leb_bytes(x, "v", n)
    if n == 2:
        x.assume(bs[1] == 0)
    v = leb_value(x, bs, False)
    w = x.int("w", 0, 127)
    r = mod.parse(bytes(text("A") + section(order, "aeabi", [tag] + bs + [64, w])), order)
    x.check(list(r) == ["aeabi"], "vendor")
    x.check(len(r["aeabi"]) == 2, "number of attributes")
    a, b = r["aeabi"]
    x.check(a.tag == tag and a.tag_name == NUMBERS[tag], "name")
    x.check(a.value == v, "value")
    want = None if tag in PLAIN else describe(x, mod, tag, v)
    wrong = describe(x, mod, 19, v) if tag == 20 else None
    x.check(b.tag == 64 and b.tag_name == "Tag_nodefaults", "next name")
    x.check(x.all([b.value == w, b.description == w]), "next value")
    if tag == 20 and wrong != want:
        x.check(a.description != (v if wrong is None else wrong), "denormal numbers are described as rounding mode")
    if want is None:
        x.check(a.description == v, "description of unknown values")
    else:
        x.check(a.description == want, "description")


@case("C30", bounds="entries of the tables as the ABI defines them")
def samples(x):
    mod = x.imp("objutils.elf.arm.attributes")
    tag, v, t = x.choice("k", SAMPLES)
    a = mod.parse(bytes(text("A") + section("<", "aeabi", [tag, v])))["aeabi"][0]
    x.check(a.description.startswith(t), "description")


@case("C30", grid=[dict(tag=t, n=n) for t in STRINGS for n in (0, 1, 3)], bounds="every text attribute with 0, 1 or 3 arbitrary ASCII characters, followed by another attribute")
def text_attribute(x, tag, n):
    mod = x.imp("objutils.elf.arm.attributes")
    s = [x.int(f"c{i}", 1, 127) for i in range(n)]
    r = mod.parse(bytes(text("A") + section("<", "aeabi", [tag] + s + [0, 8, 1])))["aeabi"]
    x.check(len(r) == 2, "number of attributes")
    x.check(r[0].tag == tag and r[0].tag_name == STRINGS[tag], "name")
    for got in (r[0].value, r[0].description):
        x.check(len(got) == n, "length")
        for i in range(n):
            x.check(ord(got[i]) == s[i], "text")
    x.check(r[1].tag == 8 and r[1].value == 1, "next attribute")


@case("C30", grid=[dict(tag=t) for t in (46, 48, 50, 52, 72, 74, 76, 69, 71, 200, 201)], bounds="attributes that are not in the tables: a number if even, a text if odd")
def unknown_attribute(x, tag):
    mod = x.imp("objutils.elf.arm.attributes")
    code = [tag] if tag < 128 else [tag % 128 + 128, tag // 128]
    if tag % 2:
        s = [x.int(f"c{i}", 1, 127) for i in range(2)]
        r = mod.parse(bytes(text("A") + section("<", "aeabi", code + s + [0, 8, 1])))["aeabi"]
        x.check(len(r[0].value) == 2 and all(bool(ord(g) == w) for g, w in zip(r[0].value, s)), "text")
    else:
        bs = leb_bytes(x, "v", 2)
        r = mod.parse(bytes(text("A") + section("<", "aeabi", code + bs + [8, 1])))["aeabi"]
        x.check(r[0].value == leb_value(x, bs, False), "number")
    x.check(r[0].tag == tag, "tag")
    x.check(len(r) == 2 and r[1].tag == 8 and r[1].value == 1, "next attribute")


@case("C30", grid=[dict(n=n) for n in (0, 2)], bounds="compatibility: an arbitrary flag and 0 or 2 arbitrary characters")
def compatibility(x, n):
    mod = x.imp("objutils.elf.arm.attributes")
    f = x.int("f", 0, 127)
    s = [x.int(f"c{i}", 1, 127) for i in range(n)]
    r = mod.parse(bytes(text("A") + section("<", "aeabi", [32, f] + s + [0, 9, 2])))["aeabi"]
    x.check(len(r) == 2 and r[1].tag == 9 and r[1].value == 2, "next attribute")
    x.check(r[0].tag_name == "Tag_compatibility", "name")
    flag, vendor = r[0].value
    x.check(flag == f, "flag")
    x.check(len(vendor) == n and all(bool(ord(g) == w) for g, w in zip(vendor, s)), "vendor")


@case("C30", grid=[dict(names=v, order=o) for v in (("aeabi", "gnu"), ("aeabi", "aeabi"), ("a",), ("gnu", "aeabi", "gnu")) for o in "<>"], bounds="one to three vendor sections with up to two attributes of arbitrary values, both byte orders")
def vendors(x, names, order):
    mod = x.imp("objutils.elf.arm.attributes")
    blob, want = text("A"), {}
    for k, v in enumerate(names):
        a, b = x.int(f"a{k}", 0, 127), x.int(f"b{k}", 0, 127)
        attrs = [64, a] + ([64, b] if k != 1 else [])
        blob += section(order, v, attrs)
        want.setdefault(v, []).extend([a, b] if k != 1 else [a])
    r = mod.parse(bytes(blob), order)
    x.check(list(r) == list(want), "vendors")
    for v, vs in want.items():
        x.check(len(r[v]) == len(vs), "number of attributes")
        x.check(x.all([g.value == w for g, w in zip(r[v], vs)]), "values")


@case("C30", grid=[dict(b64=b, order=o) for b, o in ((False, "<"), (False, ">"), (True, "<"))], bounds="read from an ELF file")
def from_file(x, b64, order):
    f = Fields(b64, order)
    v = x.int("v", 0, 127)
    data = text("A") + section(order, "aeabi", [5] + text("ARM7") + [0, 64, v])
    blob, h, _ = elf(f, [dict(name=".ARM.attributes", sh_type=0x70000003, data=data)], header={"e_machine": 40})
    r = parser(x, blob).arm_attributes
    x.check(list(r) == ["aeabi"] and len(r["aeabi"]) == 2, "attributes")
    x.check(r["aeabi"][0].value == "ARM7", "text")
    x.check(r["aeabi"][1].value == v, "number")
    blob, h, _ = elf(f, [dict(name=".text", sh_type=1, data=data)], header={"e_machine": 40})
    x.check(parser(x, blob, "n.elf").arm_attributes == {}, "no attributes")


@case("C30", grid=[dict(first=a, second=b) for a in "<>" for b in "<>"], bounds="two sections read one after the other (same or other byte order) with the same vendor; the first one again")
def in_turn(x, first, second):
    mod = x.imp("objutils.elf.arm.attributes")
    v, w = x.int("v", 0, 127), x.int("w", 0, 127)
    one = bytes(text("A") + section(first, "aeabi", [64, v, 72, w]))
    two = bytes(text("A") + section(second, "aeabi", [72, w, 5, 0x41, 0]) + section(second, "gnu", [64, w]))

    def check_one(what):
        r = mod.parse(one, first)
        x.check(list(r) == ["aeabi"] and len(r["aeabi"]) == 2, what + ": number of attributes")
        a, b = r["aeabi"]
        x.check((a.tag, b.tag) == (64, 72), what + ": tags")
        x.check(x.all([a.value == v, b.value == w]), what + ": values")

    check_one("first")
    r = mod.parse(two, second)
    x.check(sorted(r) == ["aeabi", "gnu"] and len(r["aeabi"]) == 2 and len(r["gnu"]) == 1, "second: number of attributes")
    x.check([a.tag for a in r["aeabi"]] == [72, 5] and r["gnu"][0].tag == 64, "second: tags")
    x.check(x.all([r["aeabi"][0].value == w, r["gnu"][0].value == w]) and r["aeabi"][1].value == "A", "second: values")
    check_one("again")
