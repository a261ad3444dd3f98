"""Code point construction, classes, digits, case and escapes."""
from checks._text import *


def run(c):
    exe = c.build("rune")
    c.model("RuneMC", "RuneMC.cfg")
    r = c.rng
    s = ["default"]
    ints = set(CPS + SURR + [0x110000, 0x110001, 0x1fffff, 0x7fffffff, 0x80000000, 0x80000041, 0xd800ffff,
                             0xffff0000, 0xfffffffe, 0xffffffff, 0x10041, 0x20041, 0x1000041, 0x11ffff])
    ints |= {r.getrandbits(32) for _ in range(2000)} | {r.randrange(0x120000) for _ in range(2000)}
    ints |= {x + d for x in (0xd800, 0xe000, 0x110000, 0) for d in range(-300, 300) if x + d >= 0}
    for x in sorted(ints):
        for op in ("from_int", "from_int_sur"):
            s.append("%s %d %d" % (op, x >> 16, x & 0xffff))
    n = 256
    for b in range(0, 0x110000, n):
        if c.thorough or b < 0x3000 or 0xd600 <= b <= 0xe200 or b >= 0x10fe00 or b & 0xffff in (0, 0xff00) or r.random() < .05:
            s.append("class %d %d" % (b, n))
            s.append("case %d %d" % (b, n))
    cps = list(range(0, 400)) + CPS + [0x660, 0x966, 0xff10, 0xff21, 0x1d7ce, 0x212a, 0x130, 0x131]
    for cp in cps:
        for radix in (0, 1, 2, 8, 9, 10, 11, 16, 35, 36) if cp < 200 else (10, 36):
            s.append("to_digit %d %d" % (cp, radix))
        s += ["escaped %d" % cp, "display %d" % cp, "quoted %d" % cp]
    for cp in (48, 57, 65, 122, 300):
        for radix in range(0, 40):
            s.append("to_digit %d %d" % (cp, radix))
    for radix in list(range(0, 40)) + [1000, 2 ** 31 - 1]:
        for d in list(range(0, 40)) + [100, 2 ** 31 - 1] if radix < 37 else (0, 1, 36):
            s.append("from_digit %d %d" % (d, radix))
    for _ in range(300):
        cp = rnd_cp(r, UTF8)
        s += ["escaped %d" % cp, "quoted %d" % cp, "display %d" % cp]
    ev = c.drive_par(exe, s, tag="rune")
    c.validate("RuneTrace", ev, "rune", exe)
