"""Idioms of Python on symbolic values (T01, a development aid): each is executed symbolically and compared with the interpreter."""

import array
import binascii
import bisect
import codecs
import collections
import functools
import io
import itertools
import math
import operator
import re
import string
import struct

from symx.harness import case

# a, b bytes; w a 16 bit number; d four bytes; s four printable characters; h four hexadecimal digits
EXPRESSIONS = [
    lambda a, b, w, d, s, h: list(map("{:02X}".format, d)),
    lambda a, b, w, d, s, h: "".join(map("{:02x}".format, d)),
    lambda a, b, w, d, s, h: "".join("%02X" % x for x in d),
    lambda a, b, w, d, s, h: " ".join([format(x, "02X") for x in d]),
    lambda a, b, w, d, s, h: "{0:02X}{1:04x}".format(a, w),
    lambda a, b, w, d, s, h: "{x:{n}X}".format(x=w, n="04"),
    lambda a, b, w, d, s, h: "{0:0{w}X}".format(w, w=6),
    lambda a, b, w, d, s, h: "{:>6X}|{:<6x}|{:^8d}".format(w, w, w),
    lambda a, b, w, d, s, h: f"{w:#06x} {w!r} {w!s} {w:05d}",
    lambda a, b, w, d, s, h: "%04X %-6X| %6d %#x %i" % (w, w, w, w, w),
    lambda a, b, w, d, s, h: "%(x)04X" % {"x": w},
    lambda a, b, w, d, s, h: "%s" % w,
    lambda a, b, w, d, s, h: "%c%c" % (a & 127, 65),
    lambda a, b, w, d, s, h: d.hex(),
    lambda a, b, w, d, s, h: d.hex(" "),
    lambda a, b, w, d, s, h: d.hex().upper(),
    lambda a, b, w, d, s, h: bytes(d).hex("-", 2),
    lambda a, b, w, d, s, h: binascii.hexlify(d),
    lambda a, b, w, d, s, h: binascii.hexlify(d).decode(),
    lambda a, b, w, d, s, h: binascii.hexlify(d).upper().decode("ascii"),
    lambda a, b, w, d, s, h: binascii.unhexlify(h),
    lambda a, b, w, d, s, h: binascii.a2b_hex(h),
    lambda a, b, w, d, s, h: binascii.b2a_hex(d),
    lambda a, b, w, d, s, h: bytes.fromhex(h),
    lambda a, b, w, d, s, h: bytearray.fromhex(h),
    lambda a, b, w, d, s, h: [int(h[i : i + 2], 16) for i in range(0, len(h), 2)],
    lambda a, b, w, d, s, h: [int("".join(p), 16) for p in zip(h[::2], h[1::2])],
    lambda a, b, w, d, s, h: [int(x + y, base=16) for x, y in zip(*[iter(h)] * 2)],
    lambda a, b, w, d, s, h: [int(m, 16) for m in re.findall("..", h)],
    lambda a, b, w, d, s, h: [int(m.group(), 16) for m in re.finditer("[0-9A-F]{2}", h)],
    lambda a, b, w, d, s, h: list(map(functools.partial(int, base=16), (h[:2], h[2:]))),
    lambda a, b, w, d, s, h: [int(x, 16) for x in map("".join, itertools.batched(h, 2))],
    lambda a, b, w, d, s, h: codecs.decode(h, "hex"),
    lambda a, b, w, d, s, h: codecs.encode(d, "hex"),
    lambda a, b, w, d, s, h: int(h, 16),
    lambda a, b, w, d, s, h: int(h, 16).to_bytes(2, "big"),
    lambda a, b, w, d, s, h: int.from_bytes(d, "big"),
    lambda a, b, w, d, s, h: int.from_bytes(d, byteorder="little", signed=True),
    lambda a, b, w, d, s, h: int.from_bytes(d[:2]),
    lambda a, b, w, d, s, h: int.from_bytes(reversed(d), "big"),
    lambda a, b, w, d, s, h: int.from_bytes([a, b], "little"),
    lambda a, b, w, d, s, h: w.to_bytes(2, "big") + w.to_bytes(length=4, byteorder="little"),
    lambda a, b, w, d, s, h: tuple(w.to_bytes(2)),
    lambda a, b, w, d, s, h: list(w.to_bytes(2, "little", signed=False)),
    lambda a, b, w, d, s, h: w.bit_length(),
    lambda a, b, w, d, s, h: w.bit_count(),
    lambda a, b, w, d, s, h: (~w) & 0xFFFF,
    lambda a, b, w, d, s, h: -sum(d) & 0xFF,
    lambda a, b, w, d, s, h: sum(d) % 256,
    lambda a, b, w, d, s, h: (256 - sum(d) % 256) % 256,
    lambda a, b, w, d, s, h: sum(d, 7),
    lambda a, b, w, d, s, h: sum(x << (8 * i) for i, x in enumerate(d)),
    lambda a, b, w, d, s, h: sum(map(operator.mul, d, (1, 2, 3, 4))),
    lambda a, b, w, d, s, h: functools.reduce(operator.xor, d),
    lambda a, b, w, d, s, h: functools.reduce(lambda s, x: (s << 1 ^ x) & 0xFFFF, d, 0xFFFF),
    lambda a, b, w, d, s, h: functools.reduce(operator.add, d, 0),
    lambda a, b, w, d, s, h: list(itertools.accumulate(d)),
    lambda a, b, w, d, s, h: list(itertools.accumulate(d, operator.xor)),
    lambda a, b, w, d, s, h: list(itertools.accumulate(d, initial=3)),
    lambda a, b, w, d, s, h: math.prod((a, b)),
    lambda a, b, w, d, s, h: divmod(w, 256),
    lambda a, b, w, d, s, h: divmod(w, -256),
    lambda a, b, w, d, s, h: w // 3,
    lambda a, b, w, d, s, h: w % 7,
    lambda a, b, w, d, s, h: pow(a, 2),
    lambda a, b, w, d, s, h: pow(a, 3, 256),
    lambda a, b, w, d, s, h: abs(a - b),
    lambda a, b, w, d, s, h: max(a, b),
    lambda a, b, w, d, s, h: min(d),
    lambda a, b, w, d, s, h: max(d, key=lambda x: x ^ 255),
    lambda a, b, w, d, s, h: sorted(d[:3]),
    lambda a, b, w, d, s, h: sorted([a, b], reverse=True),
    lambda a, b, w, d, s, h: sorted([(a, 1), (b, 0)], key=operator.itemgetter(0)),
    lambda a, b, w, d, s, h: sorted([(a, 1), (b, 0)]),
    lambda a, b, w, d, s, h: list(reversed(d)),
    lambda a, b, w, d, s, h: d[::-1],
    lambda a, b, w, d, s, h: list(d[::2]),
    lambda a, b, w, d, s, h: d[a % 4],
    lambda a, b, w, d, s, h: d[-1 - a % 4],
    lambda a, b, w, d, s, h: d[: a % 4],
    lambda a, b, w, d, s, h: d[a % 3 : a % 3 + 2],
    lambda a, b, w, d, s, h: [x for x in d if x & 1],
    lambda a, b, w, d, s, h: {x & 3 for x in d[:2]},
    lambda a, b, w, d, s, h: {i: x for i, x in enumerate(d)},
    lambda a, b, w, d, s, h: dict(zip("abcd", d)),
    lambda a, b, w, d, s, h: dict(enumerate(d)),
    lambda a, b, w, d, s, h: len([x for x in d if x > 128]),
    lambda a, b, w, d, s, h: sum(1 for x in d if x > 128),
    lambda a, b, w, d, s, h: sum(x > 128 for x in d),
    lambda a, b, w, d, s, h: any(x == 5 for x in d),
    lambda a, b, w, d, s, h: all(x < 200 for x in d),
    lambda a, b, w, d, s, h: next((i for i, x in enumerate(d) if x == 0), None),
    lambda a, b, w, d, s, h: list(filter(None, d[:2])),
    lambda a, b, w, d, s, h: list(filter(lambda x: x > 100, d[:2])),
    lambda a, b, w, d, s, h: list(itertools.takewhile(lambda x: x < 128, d)),
    lambda a, b, w, d, s, h: list(itertools.dropwhile(lambda x: x >= 128, d)),
    lambda a, b, w, d, s, h: list(itertools.chain(d, (a, b))),
    lambda a, b, w, d, s, h: list(itertools.chain.from_iterable((d, [a]))),
    lambda a, b, w, d, s, h: list(itertools.islice(d, 1, 3)),
    lambda a, b, w, d, s, h: list(itertools.zip_longest(d, (a,), fillvalue=0)),
    lambda a, b, w, d, s, h: list(itertools.starmap(operator.add, zip(d, d))),
    lambda a, b, w, d, s, h: list(itertools.compress(d, (1, 0, 1))),
    lambda a, b, w, d, s, h: [list(g) for _, g in itertools.groupby(d[:3], key=lambda x: x & 1)],
    lambda a, b, w, d, s, h: list(itertools.pairwise(d)),
    lambda a, b, w, d, s, h: [(y - x) for x, y in itertools.pairwise(d)],
    lambda a, b, w, d, s, h: list(zip(d, d[1:])),
    lambda a, b, w, d, s, h: list(itertools.product((a, b), (0, 1))),
    lambda a, b, w, d, s, h: d.count(b"\x00"),
    lambda a, b, w, d, s, h: d.find(b"\x01"),
    lambda a, b, w, d, s, h: d.index(d[3]),
    lambda a, b, w, d, s, h: d.startswith(b"\x7fE"),
    lambda a, b, w, d, s, h: d.endswith((b"\x00", b"\n")),
    lambda a, b, w, d, s, h: d.rstrip(b"\x00"),
    lambda a, b, w, d, s, h: d.lstrip(b"\x00"),
    lambda a, b, w, d, s, h: d.strip(b"\x00"),
    lambda a, b, w, d, s, h: d.split(b"\x00"),
    lambda a, b, w, d, s, h: d.partition(b"\x00"),
    lambda a, b, w, d, s, h: d.rpartition(b"\x00")[0],
    lambda a, b, w, d, s, h: d.replace(b"\x00", b"\x01\x02"),
    lambda a, b, w, d, s, h: d.translate(bytes(range(255, -1, -1))),
    lambda a, b, w, d, s, h: d.ljust(6, b"\xff"),
    lambda a, b, w, d, s, h: d.rjust(6, b"\x00"),
    lambda a, b, w, d, s, h: d + b"\x00" * 3,
    lambda a, b, w, d, s, h: d * 2,
    lambda a, b, w, d, s, h: b"".join([d, bytes([a])]),
    lambda a, b, w, d, s, h: b"".join(bytes((x,)) for x in d),
    lambda a, b, w, d, s, h: bytes(x ^ 0xFF for x in d),
    lambda a, b, w, d, s, h: bytes(map(lambda x: x ^ 0x55, d)),
    lambda a, b, w, d, s, h: bytearray(d) + bytearray([a]),
    lambda a, b, w, d, s, h: bytes(reversed(d)),
    lambda a, b, w, d, s, h: bytes(d[::-1]),
    lambda a, b, w, d, s, h: b"%02X" % a,
    lambda a, b, w, d, s, h: b"%b-%s" % (d, b"x"),
    lambda a, b, w, d, s, h: bytes(memoryview(d)[1:3]),
    lambda a, b, w, d, s, h: memoryview(d).tobytes(),
    lambda a, b, w, d, s, h: memoryview(d)[1],
    lambda a, b, w, d, s, h: list(memoryview(d)),
    lambda a, b, w, d, s, h: memoryview(d).hex(),
    lambda a, b, w, d, s, h: d == b"abcd",
    lambda a, b, w, d, s, h: d < b"abcd",
    lambda a, b, w, d, s, h: d != bytes([a, b, 1, 2]),
    lambda a, b, w, d, s, h: a in d,
    lambda a, b, w, d, s, h: b"\x00\x01" in d,
    lambda a, b, w, d, s, h: a in (1, 2, 3),
    lambda a, b, w, d, s, h: a in range(10, 20),
    lambda a, b, w, d, s, h: a in {1, 2, 3},
    lambda a, b, w, d, s, h: a in b"abc",
    lambda a, b, w, d, s, h: a not in [7, 9],
    lambda a, b, w, d, s, h: 3 <= a <= 9,
    lambda a, b, w, d, s, h: a == b == 4,
    lambda a, b, w, d, s, h: struct.pack(">HB", w, a),
    lambda a, b, w, d, s, h: struct.pack("<4B", *d),
    lambda a, b, w, d, s, h: struct.unpack("<HH", d),
    lambda a, b, w, d, s, h: struct.unpack(">I", d)[0],
    lambda a, b, w, d, s, h: struct.unpack_from("<H", d, 1),
    lambda a, b, w, d, s, h: struct.Struct("<hB").unpack(d[:3]),
    lambda a, b, w, d, s, h: struct.Struct(">H").pack(w),
    lambda a, b, w, d, s, h: list(struct.iter_unpack("<H", d)),
    lambda a, b, w, d, s, h: struct.unpack("4s", d),
    lambda a, b, w, d, s, h: struct.unpack("<bBxB", d),
    lambda a, b, w, d, s, h: struct.pack("6s", d),
    lambda a, b, w, d, s, h: array.array("B", d).tolist(),
    lambda a, b, w, d, s, h: array.array("B", d).tobytes(),
    lambda a, b, w, d, s, h: array.array("H", [w, 1]).tobytes(),
    lambda a, b, w, d, s, h: io.BytesIO(d).read(2),
    lambda a, b, w, d, s, h: list(iter(functools.partial(io.BytesIO(d).read, 5), b"")),
    lambda a, b, w, d, s, h: io.BytesIO(d).getvalue(),
    lambda a, b, w, d, s, h: s.encode(),
    lambda a, b, w, d, s, h: s.encode("ascii"),
    lambda a, b, w, d, s, h: s.encode("latin-1"),
    lambda a, b, w, d, s, h: bytes(s, "utf-8"),
    lambda a, b, w, d, s, h: d.decode("latin1"),
    lambda a, b, w, d, s, h: str(d, "latin-1"),
    lambda a, b, w, d, s, h: [ord(c) for c in s],
    lambda a, b, w, d, s, h: list(map(ord, s)),
    lambda a, b, w, d, s, h: "".join(map(chr, d)),
    lambda a, b, w, d, s, h: "".join(chr(x) for x in d),
    lambda a, b, w, d, s, h: "".join(reversed(s)),
    lambda a, b, w, d, s, h: s[::-1],
    lambda a, b, w, d, s, h: s.upper() + s.lower(),
    lambda a, b, w, d, s, h: s.swapcase(),
    lambda a, b, w, d, s, h: (s.isdigit(), s.isalpha(), s.isalnum(), s.isspace(), s.isupper(), s.islower()),
    lambda a, b, w, d, s, h: s.strip(),
    lambda a, b, w, d, s, h: s.lstrip("0"),
    lambda a, b, w, d, s, h: s.split(),
    lambda a, b, w, d, s, h: s.split(","),
    lambda a, b, w, d, s, h: s.split(",", 1),
    lambda a, b, w, d, s, h: s.rsplit(",", 1),
    lambda a, b, w, d, s, h: s.partition(":"),
    lambda a, b, w, d, s, h: s.replace(" ", ""),
    lambda a, b, w, d, s, h: s.startswith(("a", "b")),
    lambda a, b, w, d, s, h: s.endswith("z"),
    lambda a, b, w, d, s, h: s.removeprefix("a"),
    lambda a, b, w, d, s, h: s.removesuffix("z"),
    lambda a, b, w, d, s, h: s.find("x"),
    lambda a, b, w, d, s, h: s.count("x"),
    lambda a, b, w, d, s, h: s.zfill(6),
    lambda a, b, w, d, s, h: s.ljust(6) + s.rjust(6, ".") + s.center(8, "*"),
    lambda a, b, w, d, s, h: s.translate(str.maketrans("abc", "xyz")),
    lambda a, b, w, d, s, h: s.translate({97: None}),
    lambda a, b, w, d, s, h: s.splitlines(),
    lambda a, b, w, d, s, h: s.casefold(),
    lambda a, b, w, d, s, h: s.title(),
    lambda a, b, w, d, s, h: s.expandtabs(),
    lambda a, b, w, d, s, h: s in ("abcd", "efgh"),
    lambda a, b, w, d, s, h: s == "abcd",
    lambda a, b, w, d, s, h: s < "abcd",
    lambda a, b, w, d, s, h: "x" in s,
    lambda a, b, w, d, s, h: s[0] in "abc",
    lambda a, b, w, d, s, h: s[0] in string.hexdigits,
    lambda a, b, w, d, s, h: set(s) <= set(string.hexdigits),
    lambda a, b, w, d, s, h: all(c in string.hexdigits for c in s),
    lambda a, b, w, d, s, h: re.match(r"[0-9A-F]+$", h) is not None,
    lambda a, b, w, d, s, h: re.fullmatch(r"(\w)(\W)?.*", s) is not None,
    lambda a, b, w, d, s, h: re.sub(r"\s", "", s),
    lambda a, b, w, d, s, h: re.sub("[a-c]", lambda m: m.group().upper(), s),
    lambda a, b, w, d, s, h: re.split("[ ,]", s),
    lambda a, b, w, d, s, h: re.search("x", s) is None,
    lambda a, b, w, d, s, h: {"A": 1, "B": 2}.get(h[0], 0),
    lambda a, b, w, d, s, h: {0: "x", 1: "y"}[a & 1],
    lambda a, b, w, d, s, h: {0: "x", 1: "y"}.get(a),
    lambda a, b, w, d, s, h: ("x", "y", "z")[a % 3],
    lambda a, b, w, d, s, h: "0123456789ABCDEF"[a >> 4] + "0123456789ABCDEF"[a & 15],
    lambda a, b, w, d, s, h: "0123456789ABCDEF".index(h[0]),
    lambda a, b, w, d, s, h: "0123456789ABCDEF".find(h[0]),
    lambda a, b, w, d, s, h: str(a),
    lambda a, b, w, d, s, h: str(w),
    lambda a, b, w, d, s, h: repr(a),
    lambda a, b, w, d, s, h: hex(w),
    lambda a, b, w, d, s, h: bin(a),
    lambda a, b, w, d, s, h: oct(a),
    lambda a, b, w, d, s, h: hex(w)[2:].upper().zfill(4),
    lambda a, b, w, d, s, h: "{:b}".format(a),
    lambda a, b, w, d, s, h: "{:08b}".format(a),
    lambda a, b, w, d, s, h: bool(a),
    lambda a, b, w, d, s, h: not a,
    lambda a, b, w, d, s, h: a or 5,
    lambda a, b, w, d, s, h: a and b,
    lambda a, b, w, d, s, h: a if a > b else b,
    lambda a, b, w, d, s, h: (a > b) - (a < b),
    lambda a, b, w, d, s, h: int(a > b),
    lambda a, b, w, d, s, h: float(a),
    lambda a, b, w, d, s, h: a / 2,
    lambda a, b, w, d, s, h: w / 256 == w >> 8,
    lambda a, b, w, d, s, h: round(w / 256),
    lambda a, b, w, d, s, h: math.floor(w / 256),
    lambda a, b, w, d, s, h: math.ceil(w / 256),
    lambda a, b, w, d, s, h: math.trunc(w / 256),
    lambda a, b, w, d, s, h: int(w / 256),
    lambda a, b, w, d, s, h: -(-w // 16),
    lambda a, b, w, d, s, h: (w + 15) // 16 * 16,
    lambda a, b, w, d, s, h: math.log2(1 << (a & 7)),
    lambda a, b, w, d, s, h: math.gcd(a, 4),
    lambda a, b, w, d, s, h: isinstance(a, int),
    lambda a, b, w, d, s, h: type(a) is int,
    lambda a, b, w, d, s, h: hash(a) == hash(a),
    lambda a, b, w, d, s, h: bisect.bisect_left([10, 20, 30], a),
    lambda a, b, w, d, s, h: bisect.bisect_right([10, 20, 30], a),
    lambda a, b, w, d, s, h: bisect.bisect([10, 20, 30], a),
    lambda a, b, w, d, s, h: collections.Counter(x & 1 for x in d)[1],
    lambda a, b, w, d, s, h: list(collections.deque(d, maxlen=2)),
    lambda a, b, w, d, s, h: [*d, a],
    lambda a, b, w, d, s, h: (lambda *x: x)(*d),
    lambda a, b, w, d, s, h: (lambda **k: k)(x=a),
    lambda a, b, w, d, s, h: [a, b] == [1, 2],
    lambda a, b, w, d, s, h: (a, b) < (3, 4),
    lambda a, b, w, d, s, h: (a, b) == (b, a),
    lambda a, b, w, d, s, h: [a, b].index(b),
    lambda a, b, w, d, s, h: [a, b].count(5),
    lambda a, b, w, d, s, h: operator.itemgetter(1, 2)(d),
    lambda a, b, w, d, s, h: operator.attrgetter("real")(a),
    lambda a, b, w, d, s, h: operator.and_(a, b) | operator.rshift(w, 3),
    lambda a, b, w, d, s, h: operator.methodcaller("upper")(s),
    lambda a, b, w, d, s, h: operator.truth(a),
    lambda a, b, w, d, s, h: operator.index(a),
    lambda a, b, w, d, s, h: list(range(a & 3)),
    lambda a, b, w, d, s, h: list(range(0, w & 7, 2)),
    lambda a, b, w, d, s, h: len(range(0, w, 16)),
    lambda a, b, w, d, s, h: range(0, w, 16)[-1] if w else None,
    lambda a, b, w, d, s, h: [0] * (a & 3),
    lambda a, b, w, d, s, h: b"\x00" * (a & 3),
    lambda a, b, w, d, s, h: "-" * (a & 3),
    lambda a, b, w, d, s, h: list(d).pop(),
    lambda a, b, w, d, s, h: slice(1, 3).indices(a & 7),
    lambda a, b, w, d, s, h: str.upper(s),
    lambda a, b, w, d, s, h: str.join(",", s),
    lambda a, b, w, d, s, h: str.format("{}", a),
    lambda a, b, w, d, s, h: bytes.hex(d),
    lambda a, b, w, d, s, h: int.to_bytes(w, 2, "big"),
    lambda a, b, w, d, s, h: int.bit_length(w),
    lambda a, b, w, d, s, h: int.__add__(a, b),
    lambda a, b, w, d, s, h: list(map(str.upper, s)),
    lambda a, b, w, d, s, h: list(map(str, d[:1])),
    lambda a, b, w, d, s, h: list(map(hex, d[:1])),
    lambda a, b, w, d, s, h: list(map(int, (True, False))),
    lambda a, b, w, d, s, h: list(map(int.bit_length, d[:2])),
    lambda a, b, w, d, s, h: format(w, "x").rjust(4, "0"),
    lambda a, b, w, d, s, h: format(w, ",d"),
    lambda a, b, w, d, s, h: format(w, "_x"),
    lambda a, b, w, d, s, h: format(a, "+d"),
    lambda a, b, w, d, s, h: format(a - 128, "d"),
    lambda a, b, w, d, s, h: format(a - 128, "04d"),
    lambda a, b, w, d, s, h: "%d" % (a - 128),
    lambda a, b, w, d, s, h: "%03d" % (a - 128),
    lambda a, b, w, d, s, h: "%x" % (a - 128),
    lambda a, b, w, d, s, h: int("%d" % a),
    lambda a, b, w, d, s, h: int(str(w)) == w,
    lambda a, b, w, d, s, h: int(hex(w), 16),
    lambda a, b, w, d, s, h: int(hex(w), 0),
    lambda a, b, w, d, s, h: (a - 128).to_bytes(1, "big", signed=True),
    lambda a, b, w, d, s, h: ctypes_like(a),
    lambda a, b, w, d, s, h: bytes([a]) + bytes([b]),
    lambda a, b, w, d, s, h: bytes((a, b)).ljust(4, b"\xff"),
    lambda a, b, w, d, s, h: bytes(3) + bytes([a]),
    lambda a, b, w, d, s, h: d[0:1] + d[1:],
    lambda a, b, w, d, s, h: d[1:2] == b"x",
    lambda a, b, w, d, s, h: d[0] == ord("x"),
    lambda a, b, w, d, s, h: (w >> 8, w & 255),
    lambda a, b, w, d, s, h: (w >> (a & 15)) & 1,
    lambda a, b, w, d, s, h: 1 << (a & 15),
    lambda a, b, w, d, s, h: w ^ (w >> 1),
    lambda a, b, w, d, s, h: bin(a).count("1"),
    lambda a, b, w, d, s, h: [int(c) for c in f"{a:08b}"],
    lambda a, b, w, d, s, h: int(f"{a:08b}"[::-1], 2),
    lambda a, b, w, d, s, h: sum(int(c, 16) for c in h),
    lambda a, b, w, d, s, h: sum(map(lambda c: int(c, 16), h)),
    lambda a, b, w, d, s, h: sum("0123456789ABCDEF".index(c) for c in h),
    lambda a, b, w, d, s, h: sum((x >> 4) + (x & 15) for x in d),
    lambda a, b, w, d, s, h: sum(int(n, 16) for n in d.hex()),
    lambda a, b, w, d, s, h: sum(sum(divmod(x, 16)) for x in d),
]
NAMES = ['list(map("{:02X}".format, d))', '"".join(map("{:02x}".format, d))', '"".join("%02X" % x for x in d)', '" ".join([format(x, "02X") for x in d])', '"{0:02X}{1:04x}".format(a, w)', '"{x:{n}X}".format(x=w, n="04")', '"{0:0{w}X}".format(w, w=6)', '"{:>6X}|{:<6x}|{:^8d}".format(w, w, w)', 'f"{w:#06x} {w!r} {w!s} {w:05d}"', '"%04X %-6X| %6d %#x %i" % (w, w, w, w, w)', '"%(x)04X" % {"x": w}', '"%s" % w', '"%c%c" % (a & 127, 65)', 'd.hex()', 'd.hex(" ")', 'd.hex().upper()', 'bytes(d).hex("-", 2)', 'binascii.hexlify(d)', 'binascii.hexlify(d).decode()', 'binascii.hexlify(d).upper().decode("ascii")', 'binascii.unhexlify(h)', 'binascii.a2b_hex(h)', 'binascii.b2a_hex(d)', 'bytes.fromhex(h)', 'bytearray.fromhex(h)', '[int(h[i : i + 2], 16) for i in range(0, len(h), 2)]', '[int("".join(p), 16) for p in zip(h[::2], h[1::2])]', '[int(x + y, base=16) for x, y in zip(*[iter(h)] * 2)]', '[int(m, 16) for m in re.findall("..", h)]', '[int(m.group(), 16) for m in re.finditer("[0-9A-F]{2}", h)]', 'list(map(functools.partial(int, base=16), (h[:2], h[2:])))', '[int(x, 16) for x in map("".join, itertools.batched(h, 2))]', 'codecs.decode(h, "hex")', 'codecs.encode(d, "hex")', 'int(h, 16)', 'int(h, 16).to_bytes(2, "big")', 'int.from_bytes(d, "big")', 'int.from_bytes(d, byteorder="little", signed=True)', 'int.from_bytes(d[:2])', 'int.from_bytes(reversed(d), "big")', 'int.from_bytes([a, b], "little")', 'w.to_bytes(2, "big") + w.to_bytes(length=4, byteorder="little")', 'tuple(w.to_bytes(2))', 'list(w.to_bytes(2, "little", signed=False))', 'w.bit_length()', 'w.bit_count()', '(~w) & 0xFFFF', '-sum(d) & 0xFF', 'sum(d) % 256', '(256 - sum(d) % 256) % 256', 'sum(d, 7)', 'sum(x << (8 * i) for i, x in enumerate(d))', 'sum(map(operator.mul, d, (1, 2, 3, 4)))', 'functools.reduce(operator.xor, d)', 'functools.reduce(lambda s, x: (s << 1 ^ x) & 0xFFFF, d, 0xFFFF)', 'functools.reduce(operator.add, d, 0)', 'list(itertools.accumulate(d))', 'list(itertools.accumulate(d, operator.xor))', 'list(itertools.accumulate(d, initial=3))', 'math.prod((a, b))', 'divmod(w, 256)', 'divmod(w, -256)', 'w // 3', 'w % 7', 'pow(a, 2)', 'pow(a, 3, 256)', 'abs(a - b)', 'max(a, b)', 'min(d)', 'max(d, key=lambda x: x ^ 255)', 'sorted(d[:3])', 'sorted([a, b], reverse=True)', 'sorted([(a, 1), (b, 0)], key=operator.itemgetter(0))', 'sorted([(a, 1), (b, 0)])', 'list(reversed(d))', 'd[::-1]', 'list(d[::2])', 'd[a % 4]', 'd[-1 - a % 4]', 'd[: a % 4]', 'd[a % 3 : a % 3 + 2]', '[x for x in d if x & 1]', '{x & 3 for x in d[:2]}', '{i: x for i, x in enumerate(d)}', 'dict(zip("abcd", d))', 'dict(enumerate(d))', 'len([x for x in d if x > 128])', 'sum(1 for x in d if x > 128)', 'sum(x > 128 for x in d)', 'any(x == 5 for x in d)', 'all(x < 200 for x in d)', 'next((i for i, x in enumerate(d) if x == 0), None)', 'list(filter(None, d[:2]))', 'list(filter(lambda x: x > 100, d[:2]))', 'list(itertools.takewhile(lambda x: x < 128, d))', 'list(itertools.dropwhile(lambda x: x >= 128, d))', 'list(itertools.chain(d, (a, b)))', 'list(itertools.chain.from_iterable((d, [a])))', 'list(itertools.islice(d, 1, 3))', 'list(itertools.zip_longest(d, (a,), fillvalue=0))', 'list(itertools.starmap(operator.add, zip(d, d)))', 'list(itertools.compress(d, (1, 0, 1)))', '[list(g) for _, g in itertools.groupby(d[:3], key=lambda x: x & 1)]', 'list(itertools.pairwise(d))', '[(y - x) for x, y in itertools.pairwise(d)]', 'list(zip(d, d[1:]))', 'list(itertools.product((a, b), (0, 1)))', 'd.count(b"\\x00")', 'd.find(b"\\x01")', 'd.index(d[3])', 'd.startswith(b"\\x7fE")', 'd.endswith((b"\\x00", b"\\n"))', 'd.rstrip(b"\\x00")', 'd.lstrip(b"\\x00")', 'd.strip(b"\\x00")', 'd.split(b"\\x00")', 'd.partition(b"\\x00")', 'd.rpartition(b"\\x00")[0]', 'd.replace(b"\\x00", b"\\x01\\x02")', 'd.translate(bytes(range(255, -1, -1)))', 'd.ljust(6, b"\\xff")', 'd.rjust(6, b"\\x00")', 'd + b"\\x00" * 3', 'd * 2', 'b"".join([d, bytes([a])])', 'b"".join(bytes((x,)) for x in d)', 'bytes(x ^ 0xFF for x in d)', 'bytes(map(lambda x: x ^ 0x55, d))', 'bytearray(d) + bytearray([a])', 'bytes(reversed(d))', 'bytes(d[::-1])', 'b"%02X" % a', 'b"%b-%s" % (d, b"x")', 'bytes(memoryview(d)[1:3])', 'memoryview(d).tobytes()', 'memoryview(d)[1]', 'list(memoryview(d))', 'memoryview(d).hex()', 'd == b"abcd"', 'd < b"abcd"', 'd != bytes([a, b, 1, 2])', 'a in d', 'b"\\x00\\x01" in d', 'a in (1, 2, 3)', 'a in range(10, 20)', 'a in {1, 2, 3}', 'a in b"abc"', 'a not in [7, 9]', '3 <= a <= 9', 'a == b == 4', 'struct.pack(">HB", w, a)', 'struct.pack("<4B", *d)', 'struct.unpack("<HH", d)', 'struct.unpack(">I", d)[0]', 'struct.unpack_from("<H", d, 1)', 'struct.Struct("<hB").unpack(d[:3])', 'struct.Struct(">H").pack(w)', 'list(struct.iter_unpack("<H", d))', 'struct.unpack("4s", d)', 'struct.unpack("<bBxB", d)', 'struct.pack("6s", d)', 'array.array("B", d).tolist()', 'array.array("B", d).tobytes()', 'array.array("H", [w, 1]).tobytes()', 'io.BytesIO(d).read(2)', 'list(iter(functools.partial(io.BytesIO(d).read, 5), b""))', 'io.BytesIO(d).getvalue()', 's.encode()', 's.encode("ascii")', 's.encode("latin-1")', 'bytes(s, "utf-8")', 'd.decode("latin1")', 'str(d, "latin-1")', '[ord(c) for c in s]', 'list(map(ord, s))', '"".join(map(chr, d))', '"".join(chr(x) for x in d)', '"".join(reversed(s))', 's[::-1]', 's.upper() + s.lower()', 's.swapcase()', 's.isdigit(), s.isalpha(), s.isalnum(), s.isspace(), s.isupper(), s.islower()', 's.strip()', 's.lstrip("0")', 's.split()', 's.split(",")', 's.split(",", 1)', 's.rsplit(",", 1)', 's.partition(":")', 's.replace(" ", "")', 's.startswith(("a", "b"))', 's.endswith("z")', 's.removeprefix("a")', 's.removesuffix("z")', 's.find("x")', 's.count("x")', 's.zfill(6)', 's.ljust(6) + s.rjust(6, ".") + s.center(8, "*")', 's.translate(str.maketrans("abc", "xyz"))', 's.translate({97: None})', 's.splitlines()', 's.casefold()', 's.title()', 's.expandtabs()', 's in ("abcd", "efgh")', 's == "abcd"', 's < "abcd"', '"x" in s', 's[0] in "abc"', 's[0] in string.hexdigits', 'set(s) <= set(string.hexdigits)', 'all(c in string.hexdigits for c in s)', 're.match(r"[0-9A-F]+$", h) is not None', 're.fullmatch(r"(\\w)(\\W)?.*", s) is not None', 're.sub(r"\\s", "", s)', 're.sub("[a-c]", lambda m: m.group().upper(), s)', 're.split("[ ,]", s)', 're.search("x", s) is None', '{"A": 1, "B": 2}.get(h[0], 0)', '{0: "x", 1: "y"}[a & 1]', '{0: "x", 1: "y"}.get(a)', '("x", "y", "z")[a % 3]', '"0123456789ABCDEF"[a >> 4] + "0123456789ABCDEF"[a & 15]', '"0123456789ABCDEF".index(h[0])', '"0123456789ABCDEF".find(h[0])', 'str(a)', 'str(w)', 'repr(a)', 'hex(w)', 'bin(a)', 'oct(a)', 'hex(w)[2:].upper().zfill(4)', '"{:b}".format(a)', '"{:08b}".format(a)', 'bool(a)', 'not a', 'a or 5', 'a and b', 'a if a > b else b', '(a > b) - (a < b)', 'int(a > b)', 'float(a)', 'a / 2', 'w / 256 == w >> 8', 'round(w / 256)', 'math.floor(w / 256)', 'math.ceil(w / 256)', 'math.trunc(w / 256)', 'int(w / 256)', '-(-w // 16)', '(w + 15) // 16 * 16', 'math.log2(1 << (a & 7))', 'math.gcd(a, 4)', 'isinstance(a, int)', 'type(a) is int', 'hash(a) == hash(a)', 'bisect.bisect_left([10, 20, 30], a)', 'bisect.bisect_right([10, 20, 30], a)', 'bisect.bisect([10, 20, 30], a)', 'collections.Counter(x & 1 for x in d)[1]', 'list(collections.deque(d, maxlen=2))', '[*d, a]', '(lambda *x: x)(*d)', '(lambda **k: k)(x=a)', '[a, b] == [1, 2]', '(a, b) < (3, 4)', '(a, b) == (b, a)', '[a, b].index(b)', '[a, b].count(5)', 'operator.itemgetter(1, 2)(d)', 'operator.attrgetter("real")(a)', 'operator.and_(a, b) | operator.rshift(w, 3)', 'operator.methodcaller("upper")(s)', 'operator.truth(a)', 'operator.index(a)', 'list(range(a & 3))', 'list(range(0, w & 7, 2))', 'len(range(0, w, 16))', 'range(0, w, 16)[-1] if w else None', '[0] * (a & 3)', 'b"\\x00" * (a & 3)', '"-" * (a & 3)', 'list(d).pop()', 'slice(1, 3).indices(a & 7)', 'str.upper(s)', 'str.join(",", s)', 'str.format("{}", a)', 'bytes.hex(d)', 'int.to_bytes(w, 2, "big")', 'int.bit_length(w)', 'int.__add__(a, b)', 'list(map(str.upper, s))', 'list(map(str, d[:1]))', 'list(map(hex, d[:1]))', 'list(map(int, (True, False)))', 'list(map(int.bit_length, d[:2]))', 'format(w, "x").rjust(4, "0")', 'format(w, ",d")', 'format(w, "_x")', 'format(a, "+d")', 'format(a - 128, "d")', 'format(a - 128, "04d")', '"%d" % (a - 128)', '"%03d" % (a - 128)', '"%x" % (a - 128)', 'int("%d" % a)', 'int(str(w)) == w', 'int(hex(w), 16)', 'int(hex(w), 0)', '(a - 128).to_bytes(1, "big", signed=True)', 'ctypes_like(a)', 'bytes([a]) + bytes([b])', 'bytes((a, b)).ljust(4, b"\\xff")', 'bytes(3) + bytes([a])', 'd[0:1] + d[1:]', 'd[1:2] == b"x"', 'd[0] == ord("x")', 'w >> 8, w & 255', '(w >> (a & 15)) & 1', '1 << (a & 15)', 'w ^ (w >> 1)', 'bin(a).count("1")', '[int(c) for c in f"{a:08b}"]', 'int(f"{a:08b}"[::-1], 2)', 'sum(int(c, 16) for c in h)', 'sum(map(lambda c: int(c, 16), h))', 'sum("0123456789ABCDEF".index(c) for c in h)', 'sum((x >> 4) + (x & 15) for x in d)', 'sum(int(n, 16) for n in d.hex())', 'sum(sum(divmod(x, 16)) for x in d)']


def ctypes_like(a):
    return a - 256 if a & 128 else a




def plain(v, depth=0):
    """A comparable form of v (concretising lazy objects only)."""
    if isinstance(v, dict):
        return [[plain(k), plain(e)] for k, e in v.items()]
    if isinstance(v, set):
        return sorted(plain(e) for e in v)
    if isinstance(v, (list, tuple)):
        return [plain(e) for e in v]
    return v


@case("T01", grid=[dict(n=k, e=NAMES[k]) for k in range(len(EXPRESSIONS))], bounds="feature corpus")
def feature(x, n, e):
    a, b = x.byte("a"), x.byte("b")
    w = x.int("w", 0, 0xFFFF)
    d = x.bytes("d", 4)
    s = x.text("s", 4, [chr(c) for c in range(32, 127)]) if "s" in e else "abcd"
    h = x.text("h", 4, "0123456789ABCDEF") if "h" in e else "12AB"
    x.obs("r", plain(EXPRESSIONS[n](a, b, w, d, s, h)))
    x.check(True, "done")
