"""Text compares by code point, whatever the encodings."""
import itertools
from checks._text import *

EDGE = [0x41, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]


def run(c):
    exes = c.build_many([dict(name="textcmp%d" % e, src="textcmp.cc", defs=["HAY=%d" % e]) for e in range(6)])
    c.model("TextMC", "TextMC3.cfg" if c.thorough else "TextMC.cfg")
    c.model("TextMC", "TextMCneg.cfg", expect_error="UnitOrder is violated")
    r = c.rng
    big = c.thorough
    for e in range(6):
        s = []

        def cmd(a, f, b):
            if all(admits(e, x) for x in a) and all(admits(f, x) for x in b):
                s.append("text %d %s %d %s" % (e, lst(encs(e, a)), f, lst(encs(f, b))))
        for f in range(6):
            for x, y in itertools.product(EDGE, repeat=2):
                if big or r.random() < .5 or f == e:
                    cmd([x], f, [y])
            for _ in range(4000 if big else 300):
                a = [r.choice(EDGE) if r.random() < .7 else rnd_cp(r, e) for _ in range(r.randrange(0, 5))]
                m = r.randrange(5)
                b = list(a)
                if m == 0:
                    b = [r.choice(EDGE) for _ in range(r.randrange(0, 5))]
                elif m == 1 and b:
                    b[r.randrange(len(b))] = r.choice(EDGE)
                elif m == 2:
                    b = b[:r.randrange(len(b) + 1)]
                elif m == 3:
                    b = b + [r.choice(EDGE + [0])]
                cmd(a, f, b)
        for _ in range(4000 if big else 500):
            a = [r.choice(EDGE + [0]) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
            x = a[0] if a and r.random() < .5 else r.choice(EDGE + SURR + [0])
            if all(admits(e, y) for y in a):
                s.append("cmprune %d %s %d" % (e, lst(encs(e, a)), x))
        ev = c.drive_par(exes[e], s, tag="cmp%d" % e)
        c.validate("TextTrace", ev, "cmp%d" % e, exes[e])
