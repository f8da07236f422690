"""Flat binary files."""

from harness import common
from symx.harness import case

LENS = [(1,), (5,), (3, 2), (1, 1), (2, 1, 3)]


def flat(blocks, filler):
    """Reference: bytes from the first to the last address, filler in the gaps (addresses must be concrete apart by gap)."""
    out = []
    end = None
    for a, d in blocks:
        if end is not None:
            out += [filler] * (a - end)
        out += list(d)
        end = a + len(d)
    return out


@case("C07", grid=[dict(lens=l, mode=m) for l in LENS for m in ("default", "int", "bytes")], bounds="1-3 sections of 1-5 symbolic bytes, symbolic 32-bit base address, gaps 0-12 bytes, symbolic filler (default, int or bytes)")
def bin_layout(x, lens, mode):
    ou = x.imp("objutils")
    base = x.int("base", 0, (1 << 32) - 64)
    blocks, off, rel = [], 0, []
    for i, n in enumerate(lens):
        if i:
            off += x.pick(f"gap{i}", 0, 12 if len(lens) < 3 else 4)
        d = x.bytes(f"d{i}", n)
        blocks.append((base + off, d))
        rel.append((off, d))
        off += n
    fill = 255
    kws = {}
    if mode != "default":
        fill = x.byte("fill")
        kws["filler"] = fill if mode == "int" else bytes([fill])
    img = common.make_image(x, blocks, join=x.bool("join"))
    got = ou.dumps("bin", img, **kws)
    want = flat(rel, fill)
    x.check(len(got) == len(want), "length of the flat file is last - first + 1")
    x.check(x.eq(list(got), want), "every byte sits at its address minus the base, gaps hold the filler")
    x.obs("out", bytes(got))


@case("C07", grid=[dict(n=n) for n in (0, 1, 2, 16, 300)], bounds="0-300 symbolic bytes loaded at a symbolic address (default 0)")
def bin_load(x, n):
    ou = x.imp("objutils")
    data = x.bytes("d", n)
    addr = x.int("addr", 0, (1 << 64) - 1)
    img = ou.loads("bin", data, address=addr) if n % 2 == 0 else ou.loads("bin", data, addr)
    x.check(len(img.sections) == 1, "one section")
    x.check(img.sections[0].start_address == addr, "load address")
    x.check(x.eq(list(img.sections[0].data), list(data)), "content")
    img0 = ou.loads("bin", data)
    x.check(img0.sections[0].start_address == 0, "default load address")
    x.check(x.eq(list(img0.sections[0].data), list(data)), "content at the default address")
    if n:
        x.check(x.eq(list(ou.dumps("bin", img)), list(data)), "writing it again gives the same bytes")


@case("C07", bounds="filler integers in [-300, 600], byte strings of 0-3 bytes, other types")
def bin_filler(x):
    ou = x.imp("objutils")
    img = ou.Image([ou.Section(4, x.bytes("d", 2)), ou.Section(8, b"z")])
    kind = x.choice("kind", ("int", "bytes", "other"))
    if kind == "int":
        f = x.int("f", -300, 600)
        e = x.raises(lambda: ou.dumps("bin", img, filler=f), ValueError)
        x.check(x.iff(e is not None, x.any([f < 0, f > 255])), "integers outside 0..255 are refused, others accepted")
    elif kind == "bytes":
        n = x.pick("n", 0, 3)
        e = x.raises(lambda: ou.dumps("bin", img, filler=x.bytes("f", n)), TypeError)
        x.check((e is None) == (n == 1), "byte strings must be a single byte")
    else:
        v = x.choice("v", (None, "x", 1.5, [1]))
        x.check(x.raises(lambda: ou.dumps("bin", img, filler=v), TypeError) is not None, "other types are refused")
