"""Search, stripping, splitting and slicing of text, by code point."""
import itertools
from checks._text import *

# Few characters, chosen so that encodings and partial matches collide: the
# UTF-8 of e9 ends like the UTF-8 of a9 begins, U+103ff shares surrogates, ...
ALPHA = [0x41, 0x42, 0xa9, 0xe9, 0xc3, 0x2042, 0x4141, 0x1f600, 0x1f601, 0x1f200]


def run(c):
    exes = c.build_many([dict(name="textfind%d" % e, src="textfind.cc", defs=["HAY=%d" % e]) for e in range(6)])
    r = c.rng
    big = c.thorough
    for e in range(6):
        s = []
        al = [x for x in ALPHA if admits(e, x)] + ([0xd83d] if e == WTF8 else [])

        def hay():
            m = r.random()
            if m < .5:
                return [r.choice(al[:3]) for _ in range(r.randrange(0, 8))]
            if m < .8:
                return [r.choice(al) for _ in range(r.randrange(0, 8))]
            return [rnd_cp(r, e) for _ in range(r.randrange(0, 10))]

        def cmd(op, h, rest):
            s.append("%s %d %s %s" % (op, e, lst(encs(e, h)), rest))

        ds = lambda n: lst([r.randrange(2) for _ in range(n)])
        # Exhaustive over a small alphabet: every short pattern in every short text.
        two = al[:2]
        for n in range(0, 6):
            for h in itertools.product(two, repeat=n):
                if n > 3 and not big and r.random() < .6:
                    continue
                for k in range(0, 4):
                    for p in itertools.product(two, repeat=k):
                        if not big and r.random() < .6:
                            continue
                        f = r.randrange(6)
                        if all(admits(f, x) for x in p):
                            cmd("string", h, "%d %s" % (f, lst(encs(f, p))))
        for _ in range(20000 if big else 1600):
            h = hay()
            f = r.randrange(6)
            m = r.random()
            if m < .6 and h:
                lo = r.randrange(len(h))
                p = h[lo:lo + r.randrange(0, 4)]
                if r.random() < .2 and p:
                    p = p[:-1] + [r.choice(al)]
            else:
                p = [r.choice(al) for _ in range(r.randrange(0, 4))]
            if all(admits(f, x) for x in p):
                cmd("string", h, "%d %s" % (f, lst(encs(f, p))))
            x = r.choice(h) if h and r.random() < .7 else r.choice(CPS + SURR + ALPHA)
            cmd("rune", h, "%d %s" % (x, ds(r.randrange(0, 8))))
            if r.random() < .5:
                cmd("pred", h, "%d %s" % (r.randrange(6), ds(r.randrange(0, 8))))
        for _ in range(3000 if big else 250):
            h = [rnd_cp(r, e) for _ in range(r.randrange(0, 5))]
            n = len(encs(e, h))
            cmd("bounds", h, "")
            for _ in range(8):
                a, b = r.randrange(0, n + 3), r.randrange(0, n + 3)
                if r.random() < .5 and a > b:
                    a, b = b, a
                f = r.randrange(4)
                q = "%d %d %d" % (a, f, max(b - a, 0) if f == 3 else b)
                cmd("at", h, q)
                if r.random() < .25:
                    cmd("index", h, q)
            cmd("splitat", h, "%d" % r.randrange(0, n + 3))
        ev = c.drive_par(exes[e], s, tag="find%d" % e)
        c.validate("TextTrace", ev, "find%d" % e, exes[e])
