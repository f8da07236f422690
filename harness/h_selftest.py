"""Two harnesses for selftest.py: one assertion that holds for every value, one that does not."""

from symx.harness import case


@case("T00", bounds="engine self test")
def good(x):
    a = x.int("a", 0, 255)
    b = x.byte("b")
    x.check((a << 8 | b) // 256 == a, "true for all values")
    x.check(bytes([a, b]).hex().upper()[2:] == "%02X" % b, "true for all values")


@case("T00", bounds="engine self test")
def bad(x):
    a = x.int("a", 0, 1 << 32)
    x.check((a * 3) & 0xFFFF != 0x1234, "false for some values")
