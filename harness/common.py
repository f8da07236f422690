"""Helpers shared by the harnesses: symbolic image layouts and comparisons."""


def layout(x, lens, top, base=0, dlo=0):
    """Addresses of len(lens) blocks in ascending order inside [base, top); gaps may be zero.

    Returns [(address, bytes), ...] as the caller wrote them and the expected, merged content.
    """
    total = sum(lens)
    cur = x.int("a0", base, top - total)
    blocks, merged = [], []
    for i, n in enumerate(lens):
        touch = False
        if i:
            a = x.int(f"a{i}", base, top - n)
            touch = x.split(a == cur)
            if not touch:
                x.assume(a > cur)
                cur = a
        data = x.bytes(f"d{i}", n) if not dlo else bytes_from(x, f"d{i}", n, dlo)
        blocks.append((cur, data))
        if touch:
            a, d = merged[-1]
            merged[-1] = (a, d + list(data))
        else:
            merged.append((cur, list(data)))
        cur = cur + n
    x.assume(cur <= top)
    return blocks, merged


def bytes_from(x, name, n, lo):
    return [x.int(f"{name}.{i}", lo, 255) for i in range(n)]


def make_image(x, blocks, **kws):
    ou = x.imp("objutils")
    return ou.Image([ou.Section(a, d) for a, d in blocks], **kws)


def content(img):
    return [(s.start_address, list(s.data)) for s in img.sections]


def check_content(x, img, expected, what):
    """img consists of exactly the expected (address, bytes) sections."""
    got = content(img)
    x.check(len(got) == len(expected), f"{what}: number of sections")
    for i, ((ga, gd), (ea, ed)) in enumerate(zip(got, expected)):
        x.check(len(gd) == len(ed), f"{what}: length of section {i}")
        x.check(ga == ea, f"{what}: address of section {i}")
        x.check(x.eq(gd, ed), f"{what}: bytes of section {i}")
    x.obs(what, got)


def merge(x, blocks):
    """Reference join of address-sorted blocks (forks on adjacency)."""
    merged = []
    for a, d in blocks:
        if merged and x.split(merged[-1][0] + len(merged[-1][1]) == a):
            merged[-1] = (merged[-1][0], merged[-1][1] + list(d))
        else:
            merged.append((a, list(d)))
    return merged


def roundtrip(x, codec, lens, top, row_length=16, base=0, dump_kws=None, dlo=0):
    ou = x.imp("objutils")
    blocks, merged = layout(x, lens, top, base, dlo)
    img = make_image(x, blocks)
    blob = ou.dumps(codec, img, row_length=row_length, **(dump_kws or {}))
    x.obs("blob", bytes(blob))
    back = ou.loads(codec, bytes(blob))
    check_content(x, back, merged, codec + " round trip")
    check_content(x, img, merged, codec + " source image after writing")
    return img, blob, back
