"""DWARF debugging information entries: tree, attributes, references and the database rows."""

from harness.h_dwarf import leb_bytes, leb_value, s_value, u_value
from harness.h_elf import Fields, elf, parser
from symx.harness import case

ORDERS = ("<", ">")
INT = {"data1": 1, "data2": 2, "data4": 4, "data8": 8, "flag": 1, "sec_offset": 4, "ref_addr": 4, "ref_sig8": 8, "ref1": 1, "ref2": 2, "ref4": 4, "ref8": 8}
FORM = dict(addr=0x01, block2=0x03, block4=0x04, data2=0x05, data4=0x06, data8=0x07, string=0x08, block=0x09, block1=0x0A, data1=0x0B, flag=0x0C, sdata=0x0D, strp=0x0E, udata=0x0F, ref_addr=0x10, ref1=0x11, ref2=0x12, ref4=0x13, ref8=0x14, ref_udata=0x15, sec_offset=0x17, exprloc=0x18, flag_present=0x19, line_strp=0x1F, ref_sig8=0x20, implicit_const=0x21)
ATTR = dict(name=0x03, location=0x02, byte_size=0x0B, stmt_list=0x10, low_pc=0x11, language=0x13, const_value=0x1C, inline=0x20, prototyped=0x27, accessibility=0x32, data_member_location=0x38, decl_line=0x3B, discr_list=0x3D, encoding=0x3E, external=0x3F, frame_base=0x40, type=0x49, signature=0x69, linkage_name=0x6E)
TAG = dict(compile_unit=0x11, structure_type=0x13, member=0x0D, base_type=0x24, subprogram=0x2E, variable=0x34)
STRINGS = [0x61, 0, 0x62, 0x63, 0]


def num(v, n, order):
    return list(v.to_bytes(n, "little" if order == "<" else "big"))


def abbrev(code, tag, children, attrs):
    """attrs: (attribute, form) or (attribute, "implicit_const", SLEB bytes)."""
    out = [code, TAG[tag], int(children)]
    for a in attrs:
        out += [ATTR[a[0]], FORM[a[1]]] + list(a[2] if len(a) > 2 else ())
    return out + [0, 0]


def unit(body, order, version, asize, abbrev_offset):
    """One compilation unit; the entries start at 11 (DWARF 2-4) or 12 (DWARF 5)."""
    if version < 5:
        rest = num(version, 2, order) + num(abbrev_offset, 4, order) + [asize] + list(body)
    else:
        rest = num(version, 2, order) + [1, asize] + num(abbrev_offset, 4, order) + list(body)
    return num(len(rest), 4, order) + rest


def start(version):
    return 11 if version < 5 else 12


class Section:
    def __init__(self, image):
        self.image = image


def run(x, info, abbrevs, order, b64=False, line_str=None, file="t.elf"):
    """Reads the sections through an ElfParser; returns (result, parser)."""
    f = Fields(b64, order)
    secs = [dict(name=".debug_info", sh_type=1, data=list(info)), dict(name=".debug_abbrev", sh_type=1, data=list(abbrevs) + [0]), dict(name=".debug_str", sh_type=1, data=STRINGS)]
    if line_str is not None:
        secs.append(dict(name=".debug_line_str", sh_type=1, data=list(line_str)))
    p = parser(x, elf(f, secs)[0], file)
    return x.imp("objutils.dwarf").DwarfProcessor(p).do_dbg_info(), p


def check_attr(x, got, name, raw, display, what):
    x.check(got[0] == name, what + ": attribute")
    x.check(x.eq(got[1].raw_value, raw), what + ": value")
    x.check(x.eq(got[1].display_value, display), what + ": shown")


TREE = [dict(codes=c, version=v, order=o) for c, v, o in ((1, 4, "<"), (2, 5, ">"), (3, 2, "<"), (4, 4, "<"))]


@case("C40", grid=TREE, thorough_grid=TREE + [dict(codes=5, version=3, order="<")], bounds="every tree described by 1-4 (thorough: 5) entries and terminators below a unit entry (parents with and without children, leaves of 2 bytes, a leaf without attribute data); arbitrary attribute values")
def tree(x, codes, version, order):
    tab = abbrev(1, "compile_unit", 1, [("name", "string")]) + abbrev(2, "structure_type", 1, [("byte_size", "data1")]) + abbrev(3, "member", 0, [("byte_size", "data1")]) + abbrev(4, "variable", 0, [("external", "flag_present")])
    body = [1, 0x75, 0]
    base = start(version)
    root = ("compile_unit", "u", [], base)
    stack, order_of = [root], [root]
    for i in range(codes):
        if not stack:
            break
        at = base + len(body)
        c = x.choice(f"c{i}", (0, 2, 3, 4))
        if c == 0:
            body.append(0)
            stack.pop()
            continue
        v = x.byte(f"v{i}") if c != 4 else 1
        body += [c, v] if c != 4 else [c]
        node = ({2: "structure_type", 3: "member", 4: "variable"}[c], v, [], at)
        stack[-1][2].append(node)
        order_of.append(node)
        if c == 2:
            stack.append(node)
    body += [0] * len(stack)
    res, p = run(x, unit(body, order, version, 4, 0), tab, order)

    def same(die, node):
        x.check(die.name == node[0], "tag")
        x.check(len(die.attributes) == 1, "number of attributes")
        x.check(x.eq(die.attributes[0][1].raw_value, node[1]), "value")
        x.check(len(die.children) == len(node[2]), "number of children")
        for a, b in zip(die.children, node[2]):
            same(a, b)
        x.check(res.die_map.get(node[3]) is die, "found at its offset")

    x.check(len(res.die_entries) == 1, "one unit")
    same(res.die_entries[0], root)
    x.check(list(res.die_map) == [n[3] for n in order_of], "offsets of all entries in file order")


UNITS = [dict(a=a, b=b, order=o, b64=w) for a, b, o, w in ((4, 4, "<", False), (2, 5, ">", False), (5, 3, "<", True), (5, 5, ">", True))]


@case("C40", grid=UNITS, bounds="two units with own abbreviation tables (same codes, different meaning), versions 2-5, both classes and byte orders; arbitrary values; references are relative to their unit and lead to the entry meant")
def units(x, a, b, order, b64):
    t1 = abbrev(1, "compile_unit", 1, [("language", "data1")]) + abbrev(2, "base_type", 0, [("byte_size", "data2")]) + abbrev(3, "variable", 0, [("type", "ref4")]) + [0]
    t2 = abbrev(1, "compile_unit", 1, [("byte_size", "udata")]) + abbrev(2, "variable", 0, [("type", "ref1"), ("decl_line", "data1")]) + abbrev(3, "base_type", 0, [("name", "string")]) + [0]
    s1, s2 = start(a), start(b)
    lang, size = x.byte("lang"), x.bytes("size", 2)
    one = unit([1, lang, 2] + list(size) + [3] + num(s1 + 2, 4, order) + [0], order, a, 8 if b64 else 4, 0)
    u, line = leb_bytes(x, "u", 2), x.byte("line")
    back = x.choice("back", (False, True))
    ref = s2 + 3 + 3 if not back else s2
    two = unit([1] + u + [2, ref, line] + [3, 0x69, 0] + [0], order, b, 8 if b64 else 4, len(t1))
    res, p = run(x, one + two, t1 + t2, order, b64)
    o = len(one)
    x.check(list(res.die_map) == [s1, s1 + 2, s1 + 5, o + s2, o + s2 + 3, o + s2 + 6], "offsets of all entries")
    x.check(len(res.die_entries) == 2, "two units")
    r1, r2 = res.die_entries
    x.check([d.name for d in r1.children] == ["base_type", "variable"], "entries of the first unit")
    x.check([d.name for d in r2.children] == ["variable", "base_type"], "entries of the second unit")
    x.check(r1.attributes[0][1].raw_value == lang, "language")
    x.check(r1.children[0].attributes[0][1].raw_value == u_value(list(size), order), "size")
    x.check(r2.attributes[0][1].raw_value == leb_value(x, u, False), "number")
    v1, v2 = r1.children[1], r2.children[0]
    check_attr(x, v1.attributes[0], "type", s1 + 2, "0x%08x" % (s1 + 2), "first reference")
    x.check(res.die_map[v1.attributes[0][1].raw_value] is r1.children[0], "first reference leads to the base type")
    check_attr(x, v2.attributes[0], "type", o + ref, "0x%08x" % (o + ref), "second reference")
    x.check(res.die_map[v2.attributes[0][1].raw_value] is (r2 if back else r2.children[1]), "second reference leads to the entry")
    check_attr(x, v2.attributes[1], "decl_line", line, line, "line")


def value_of(x, form, order, asize):
    """(encoding, value) for an arbitrary value in a form."""
    if form in INT or form == "addr":
        n = INT.get(form, asize)
        bs = list(x.bytes("v", n))
        return bs, u_value(bs, order)
    if form in ("udata", "sdata", "ref_udata"):
        bs = leb_bytes(x, "v", 2)
        return bs, leb_value(x, bs, form == "sdata")
    if form in ("block", "block1", "block2", "block4", "exprloc"):
        d = x.bytes("v", 3)
        n = {"block2": 2, "block4": 4}.get(form, 1)
        return num(3, n, order) + list(d), d
    if form == "string":
        d = [x.int(f"v{i}", 1, 127) for i in range(2)]
        return d + [0], bytes(d).decode("ascii")
    if form == "strp":
        return num(2, 4, order), "bc"
    if form == "line_strp":
        return num(1, 4, order), "yz"
    return [], 1


FORMS = [dict(form=f, order=o, asize=a) for f in FORM if f != "implicit_const" for o, a in ((("<", 4), (">", 8)) if f in INT or f in ("addr", "block2", "block4", "strp", "line_strp") else (("<", 4),))]


@case("C40", grid=FORMS + [dict(form="addr", order="<", asize=8), dict(form="addr", order=">", asize=4)], bounds="one attribute in every supported form with an arbitrary value, followed by another entry; the same value in the database")
def forms(x, form, order, asize):
    name = {"addr": "low_pc", "string": "linkage_name", "ref_sig8": "signature"}.get(form, "type" if form.startswith("ref") else "const_value")
    tab = abbrev(1, "compile_unit", 1, []) + abbrev(2, "variable", 0, [(name, form), ("decl_line", "data1")])
    enc, v = value_of(x, form, order, asize)
    last = x.byte("last")
    res, p = run(x, unit([1, 2] + enc + [last, 0], order, 4, asize, 0), tab, order, asize == 8, line_str=[0x78, 0x79, 0x7A, 0])
    if form == "line_strp":
        pass
    (die,) = res.die_entries[0].children
    shown = v
    if form.startswith("ref") and form != "ref_sig8":
        shown = "0x%08x" % v
    x.check(len(die.attributes) == 2, "attributes")
    check_attr(x, die.attributes[0], name, v, shown, form)
    check_attr(x, die.attributes[1], "decl_line", last, last, "the attribute behind it")
    model = x.imp("objutils.elf.model")
    rows = p.session.query(model.DebugInformationEntry).all()
    x.check([r.tag for r in rows] == ["compile_unit", "variable"], "entries in the database")
    x.check(len(rows[0].attributes) == 0, "no attributes")
    db = rows[1].attributes
    x.check([d.name for d in db] == [name, "decl_line"], "attributes in the database")
    x.check(x.eq(db[0].raw_value, v if isinstance(v, (bytes, str)) else str(v)), "value in the database")
    x.check(x.eq(db[0].display_value, shown if not isinstance(shown, int) else str(shown)), "text in the database")
    x.check(x.eq(db[1].raw_value, str(last)), "the attribute behind it in the database")


@case("C40", grid=[dict(shape=s, kids=k, n=n) for s in ("c", "cc", "cf", "fc", "dc", "cd", "dcf", "ff") for k in (0, 1) for n in (1, 2)], bounds="attributes without data (implicit constants of 1-2 arbitrary bytes, flags) in every position, in the last entry of the unit")
def dataless(x, shape, kids, n):
    names = ["const_value", "byte_size", "external"]
    attrs, data, want = [], [], []
    for i, c in enumerate(shape):
        if c == "c":
            bs = leb_bytes(x, f"c{i}.", n)
            attrs.append((names[i], "implicit_const", bs))
            want.append((names[i], leb_value(x, bs, True)))
        elif c == "f":
            attrs.append((names[i], "flag_present"))
            want.append((names[i], 1))
        else:
            b = x.byte(f"d{i}")
            attrs.append((names[i], "data1"))
            data.append(b)
            want.append((names[i], b))
    tab = abbrev(1, "compile_unit", kids, attrs if not kids else []) + abbrev(2, "variable", 0, attrs)
    if kids:
        first, second = unit([1, 2] + data, "<", 4, 4, 0), unit([1, 2] + data + [0], "<", 4, 4, 0)
    else:
        first = second = unit([1] + data, "<", 4, 4, 0)
    res, p = run(x, first + second, tab, "<")
    for k, base in enumerate((11, len(first) + 11)):
        die = res.die_entries[k].children[0] if kids else res.die_entries[k]
        x.check(res.die_map.get(base + kids) is die, "found at its offset")
        x.check(len(die.attributes) == len(want), "number of attributes")
        for g, (a, v) in zip(die.attributes, want):
            check_attr(x, g, a, v, v, "attribute without data")


ENC = {
    "encoding": ("data1", {1: "address", 2: "boolean", 4: "float", 5: "signed", 7: "unsigned", 8: "unsigned_char", 0: "void"}, (0x7F,)),
    "language": ("data2", {1: "C89", 2: "C", 4: "C_plus_plus", 12: "C99"}, (0, 0x7FFF)),
    "inline": ("data1", {0: "not_inlined", 1: "inlined", 2: "declared_not_inlined", 3: "declared_inlined"}, (4, 255)),
    "accessibility": ("data1", {1: "public", 2: "protected", 3: "private"}, (0, 4, 255)),
}


@case("C40", grid=[dict(attr=a) for a in ENC], bounds="attributes with named values: known and unknown values are shown with the number")
def named_values(x, attr):
    form, known, other = ENC[attr]
    tab = abbrev(1, "compile_unit", 1, []) + abbrev(2, "variable", 0, [(attr, form)])
    v = x.choice("v", sorted(known) + list(other))
    res, p = run(x, unit([1, 2] + num(v, INT[form], "<") + [0], "<", 4, 4, 0), tab, "<")
    text = known[v] if v in known else f"Unknown encoding value ({v})"
    check_attr(x, res.die_entries[0].children[0].attributes[0], attr, v, f"{text} (0x{v:08x})", attr)


@case("C40", grid=[dict(attr=a, form=f) for a in ("discr_list", "const_value") for f in ("block1", "block2", "block4", "block", "exprloc")], bounds="attributes that are lists or constants in blocks of 3 arbitrary bytes")
def block_values(x, attr, form):
    tab = abbrev(1, "compile_unit", 1, []) + abbrev(2, "variable", 0, [(attr, form), ("decl_line", "data1")])
    enc, v = value_of(x, form, "<", 4)
    last = x.byte("last")
    res, p = run(x, unit([1, 2] + enc + [last, 0], "<", 4, 4, 0), tab, "<")
    (die,) = res.die_entries[0].children
    x.check(len(die.attributes) == 2, "attributes")
    name, a = die.attributes[0]
    x.check(name == attr, "attribute")
    x.check(x.eq(a.raw_value, v), "value")
    check_attr(x, die.attributes[1], "decl_line", last, last, "the attribute behind it")


@case("C40", grid=[dict(attr=a, form=f) for a in ("location", "frame_base", "data_member_location") for f in ("exprloc", "block1", "block", "data1", "data4", "sec_offset", "udata") if not (f == "sec_offset" and a == "data_member_location")], bounds="locations: expressions of one operation with an arbitrary operand, and plain offsets")
def locations(x, attr, form):
    tab = abbrev(1, "compile_unit", 1, []) + abbrev(2, "variable", 0, [(attr, form)])
    if form in ("exprloc", "block1", "block"):
        d = list(x.bytes("a", 4))
        enc, raw = [5, 0x03] + d, bytes([3] + d)
        v = u_value(d, "<")
    else:
        enc, v = value_of(x, form, "<", 4)
        raw = v
    res, p = run(x, unit([1, 2] + enc + [0], "<", 4, 4, 0), tab, "<")
    name, a = res.die_entries[0].children[0].attributes[0]
    x.check(name == attr, "attribute")
    x.check(x.eq(a.raw_value, raw), "value")
    if form in ("exprloc", "block1", "block"):
        x.check(a.display_value[:5] == "addr(", "operation")
        text = a.display_value[5:-1]
        x.check(a.display_value[-1] == ")", "operation")
        if text[:2] == "0x":
            x.check(int(text[2:], 16) == v, "operand")
        else:
            x.check(x.all([int(text) == v, v == 0]), "operand")
    else:
        x.check(a.display_value == "0x%08x" % v, "offset")


@case("C40", grid=[dict(what=w) for w in ("info", "abbrev", "none")], bounds="files without debugging information are refused")
def missing(x, what):
    secs = {"info": [dict(name=".debug_abbrev", sh_type=1, data=[0])], "abbrev": [dict(name=".debug_info", sh_type=1, data=[x.byte("b")] * 12)], "none": [dict(name=".text", sh_type=1, data=[0])]}[what]
    p = parser(x, elf(Fields(False, "<"), secs)[0])
    x.check(x.raises(lambda: x.imp("objutils.dwarf").DwarfProcessor(p).do_dbg_info(), TypeError) is not None, "refused")


# ---------------------------------------------------------------------------------------------------- JSON
def as_json(x, v):
    """How a value of an attribute appears in JSON: bytes as hex digits."""
    return v.hex() if isinstance(v, (bytes, bytearray)) or type(v).__name__ == "SBytes" else v


def same_json(x, got, die, what):
    x.check(sorted(got) == ["attributes", "children", "name"], what + ": keys")
    x.check(x.eq(got["name"], die.name), what + ": tag")
    x.check(len(got["attributes"]) == len(die.attributes), what + ": number of attributes")
    for g, (name, a) in zip(got["attributes"], die.attributes):
        x.check(isinstance(g, list) and len(g) == 2 and g[0] == name, what + ": attribute")
        x.check(sorted(g[1]) == ["display_value", "raw_value"], what + ": keys of " + name)
        x.check(x.eq(g[1]["raw_value"], as_json(x, a.raw_value)), what + ": value of " + name)
        x.check(x.eq(g[1]["display_value"], as_json(x, a.display_value)), what + ": text of " + name)
    x.check(len(got["children"]) == len(die.children), what + ": number of children")
    for i, (g, c) in enumerate(zip(got["children"], die.children)):
        same_json(x, g, c, f"{what}.{i}")


def check_json(x, res):
    js = x.imp("json")
    doc = js.loads(res.toJSON())
    x.check(sorted(doc) == ["die_entries", "die_map"], "keys")
    x.check(len(doc["die_entries"]) == len(res.die_entries), "number of units")
    for i, (g, d) in enumerate(zip(doc["die_entries"], res.die_entries)):
        same_json(x, g, d, f"unit {i}")
        same_json(x, js.loads(d.toJSON()), d, f"unit {i} alone")
    x.check(sorted(doc["die_map"]) == sorted(str(k) for k in res.die_map), "offsets")
    for k, d in res.die_map.items():
        same_json(x, doc["die_map"][str(k)], d, f"entry at {k}")


@case("C46", grid=FORMS, bounds="an entry with an attribute in every supported form with an arbitrary value, and one behind it")
def json_forms(x, form, order, asize):
    name = {"addr": "low_pc", "string": "linkage_name", "ref_sig8": "signature"}.get(form, "type" if form.startswith("ref") else "const_value")
    tab = abbrev(1, "compile_unit", 1, []) + abbrev(2, "variable", 0, [(name, form), ("decl_line", "data1")])
    enc, v = value_of(x, form, order, asize)
    last = x.byte("last")
    res, p = run(x, unit([1, 2] + enc + [last, 0], order, 4, asize, 0), tab, order, asize == 8, line_str=[0x78, 0x79, 0x7A, 0])
    check_json(x, res)
    x.check(x.eq(x.imp("json").loads(res.toJSON())["die_entries"][0]["children"][0]["attributes"][0][1]["raw_value"], as_json(x, v)), "value stored in the file")


@case("C46", grid=[dict(attr=a, form=f) for a in ("discr_list", "location", "const_value", "language") for f in ("block1", "block", "exprloc", "data1", "implicit_const")], bounds="attributes that are lists, expressions, constants or named values, in blocks, numbers and implicit constants")
def json_values(x, attr, form):
    if form == "implicit_const":
        tab = abbrev(1, "compile_unit", 1, []) + abbrev(2, "variable", 0, [(attr, form, leb_bytes(x, "c", 1))])
        enc = []
    else:
        tab = abbrev(1, "compile_unit", 1, []) + abbrev(2, "variable", 0, [(attr, form)])
        if attr == "location" and form != "data1":
            enc = [5, 0x03] + list(x.bytes("a", 4))
        else:
            enc = value_of(x, form, "<", 4)[0]
    res, p = run(x, unit([1, 2] + enc + [0], "<", 4, 4, 0), tab, "<")
    check_json(x, res)


@case("C46", grid=[dict(codes=c, version=v) for c, v in ((2, 4), (3, 5))], thorough_grid=[dict(codes=4, version=4)], bounds="every tree described by 2-3 (thorough: 4) entries and terminators below a unit entry; arbitrary values; two units")
def json_tree(x, codes, version):
    tab = abbrev(1, "compile_unit", 1, [("name", "string")]) + abbrev(2, "structure_type", 1, [("byte_size", "data1")]) + abbrev(3, "member", 0, [("byte_size", "data2"), ("const_value", "block1")])
    body, depth = [1, 0x75, 0], 1
    for i in range(codes):
        c = x.choice(f"c{i}", (0, 2, 3))
        if c == 0:
            if depth == 1:
                break
            depth -= 1
            body.append(0)
        elif c == 2:
            body += [2, x.byte(f"v{i}")]
            depth += 1
        else:
            body += [3] + list(x.bytes(f"w{i}.", 2)) + [1, x.byte(f"b{i}")]
    body += [0] * depth
    res, p = run(x, unit(body, "<", version, 4, 0) + unit([1, 0x76, 0, 0], "<", version, 4, 0), tab, "<")
    check_json(x, res)


@case("C46", grid=[dict(pad=n) for n in (100, 232, 300)], thorough_grid=[dict(pad=n) for n in (1000, 65600)], bounds="entries 100 to 300 (thorough: 65600) bytes into the debugging information: each is listed under its offset")
def json_far(x, pad):
    tab = abbrev(1, "compile_unit", 1, [("const_value", "block4")]) + abbrev(2, "variable", 0, [("decl_line", "data1")])
    body = [1] + num(pad, 4, "<") + [0x5A] * pad + [2, x.byte("a"), 2, x.byte("b"), 0]
    first = unit(body, "<", 4, 4, 0)
    second = unit([1, 1, 0, 0, 0, x.byte("s"), 2, x.byte("c"), 0], "<", 4, 4, 0)
    head = len(unit([], "<", 4, 4, 0))
    res, p = run(x, first + second, tab, "<")
    check_json(x, res)
    u0, u1 = res.die_entries
    at = {head: u0, head + 5 + pad: u0.children[0], head + 7 + pad: u0.children[1], len(first) + head: u1, len(first) + head + 6: u1.children[0]}
    doc = x.imp("json").loads(res.toJSON())["die_map"]
    for k, d in at.items():
        x.check(k in res.die_map and res.die_map[k] is d, f"entry at offset {k}")
        x.check(str(k) in doc, f"offset {k} in the text")
        same_json(x, doc[str(k)], d, f"entry listed at {k}")


@case("C40", grid=[dict(first=a, second=b) for a, b in ((("<", 4), (">", 8)), ((">", 8), ("<", 4)), (("<", 8), ("<", 8)))], bounds="two files read one after the other (byte orders and address sizes equal or not): same codes with other declarations, other strings; the first one again")
def two_files(x, first, second):
    def contents(k, order, asize):
        if k == 0:
            tab = abbrev(1, "compile_unit", 1, [("language", "data1")]) + abbrev(2, "variable", 0, [("const_value", "data2"), ("low_pc", "addr")])
        else:
            tab = abbrev(1, "compile_unit", 1, [("byte_size", "data1")]) + abbrev(2, "base_type", 0, [("const_value", "data4"), ("name", "line_strp")])
        lang = x.byte(f"l{k}")
        d = list(x.bytes(f"d{k}.", 4 if k else 2))
        a = num(1, 4, order) if k else list(x.bytes("a", asize))
        return tab, [1, lang, 2] + d + a + [0], lang, u_value(d, order), "yz" if k else u_value(a, order)

    def read(k, file):
        order, asize = (first, second)[k]
        tab, body, lang, num_, last = made[k]
        res, p = run(x, unit(body, order, 4, asize, 0), tab, order, asize == 8, line_str=[0x78, 0x79, 0x7A, 0], file=file)
        root = res.die_entries[0]
        what = f"file {k}"
        x.check(list(res.die_map) == [11, 13], what + ": offsets")
        x.check([n for n, _ in root.attributes] == ["byte_size" if k else "language"], what + ": attributes of the unit")
        x.check(root.attributes[0][1].raw_value == lang, what + ": value of the unit")
        x.check([c.name for c in root.children] == ["base_type" if k else "variable"], what + ": entry")
        at = root.children[0].attributes
        x.check([n for n, _ in at] == ["const_value", "name" if k else "low_pc"], what + ": attributes")
        x.check(at[0][1].raw_value == num_, what + ": value")
        x.check(x.eq(at[1][1].raw_value, last), what + ": second value")

    made = [contents(0, *first), contents(1, *second)]
    read(0, "a.elf")
    read(1, "b.elf")
    read(0, "c.elf")
