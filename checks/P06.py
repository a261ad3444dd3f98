"""Searching, splitting, stripping and comparing spans of many element types."""
import itertools

# Per element type: values whose bytes collide (partial and misaligned matches).
ALPHA = {
    0: [0, 1, 2, 255, 128], 1: [0, 1, -1, -128, 127], 2: [0, 1, 0x0101, 0x0100, 0xff00, 0xffff],
    3: [0, 1, -1, 0x0101, 0x0100, -256, -32768], 4: [0, 1, -1, 0x01010101, 0x00010101, 0x01010100, 0x01000001, -2147483647],
    5: [0, 1, 0x01010101, 0x00010101, 0x01010100, 0x01000001, 0x7fffffff],
    6: [0, 1, -1, 256, 0x01010101, 0x00010101, -2147483647], 7: [0, 1, 256, 0x01010101, 0x00010101, 0x01000000],
    8: list(range(0, 9)), 9: [-3, 0, 1, 2], 10: [0, 1, 2, 65, 127], 11: [0, 1, 0x0101, 0x0100, 0xffff],
    12: [-4, -1, 0, 1, 2, 400], 13: [0, 1, 2, 255, 256, 257],
}
MIXED = {0: (1, 2), 1: (1, 2), 2: (1, 2), 4: (1, 2)}
# Values the other element type can hold, for mixed comparisons.
OTHER = {(0, 1): [0, 1, 2, -1, -128, 127], (0, 2): [0, 1, 2, 255, 256, -1], (1, 1): [0, 1, 127, 128, 255],
         (1, 2): [0, 1, -1, -128, 127, 255, -256], (2, 1): [0, 1, -1, 0x0101, 0x0100, -256], (2, 2): [0, 1, 0x0101, 0xffff, 65536],
         (4, 1): [0, 1, -1], (4, 2): [0, 1, 0x0101, 0xffff]}
NARROW = {(0, 1): [0, 1, 2, 127, 128, 255], (0, 2): [0, 1, 2, 255], (1, 1): [0, 1, 127, -1, -128], (1, 2): [0, 1, -1, -128, 127],
          (2, 1): [0, 1, 0x0101, 0x0100, 0xff00, 0xffff], (2, 2): [0, 1, 0x0101, 0xffff], (4, 1): [0, 1, -1, 255, 256], (4, 2): [0, 1, 0x0101, 0xffff, -1]}


def lst(xs):
    return " ".join(map(str, [len(xs)] + list(xs)))


def run(c):
    r = c.rng
    big = c.thorough
    elems = range(14)
    exes = c.build_many([dict(name="spanfind%d" % e, src="spanfind.cc", defs=["ELEM=%d" % e]) for e in elems])
    c.model("SpanMC", "SpanMC3.cfg" if big else "SpanMC.cfg")
    c.model("SpanMC", "SpanMCneg.cfg", expect_error="AnyLength is violated")
    every = []
    for e in elems:
        al = ALPHA[e]
        s = []
        ds = lambda: lst([r.randrange(2) for _ in range(r.randrange(0, 7))])
        rand = lambda lo, hi, k=99: [r.choice(al[:k]) for _ in range(r.randrange(lo, hi))]

        def seq(kind, h, n):
            s.append("seq %d %s %s %s" % (kind, lst(h), lst(n), ds()))
        # Every short needle in every short haystack over two values.
        two = r.sample(al, 2)
        for n in range(0, 6):
            for h in itertools.product(two, repeat=n):
                for k in range(0, 4):
                    for p in itertools.product(two, repeat=k):
                        if big or r.random() < .12:
                            seq(0, h, p)
        for _ in range(6000 if big else 450):
            h = rand(0, 12, r.choice([2, 3, 99]))
            if h and r.random() < .7:
                lo = r.randrange(len(h))
                p = h[lo:lo + r.randrange(0, 5)]
                if p and r.random() < .35:
                    p[r.randrange(len(p))] = r.choice(al)
            else:
                p = rand(0, 5)
            seq(0, h, p)
            if r.random() < .4:
                x = r.choice(h) if h and r.random() < .7 else r.choice(al)
                s.append("val %s %d %s" % (lst(h), x, ds()))
            if r.random() < .3:
                s.append("pred %s %s %s" % (lst(h), lst(r.sample(al, r.randrange(0, len(al)))), ds()))
            if r.random() < .5:
                g = list(h)
                m = r.randrange(5)
                if m == 0:
                    g = rand(0, 6)
                elif m == 1 and g:
                    g[r.randrange(len(g))] = r.choice(al)
                elif m == 2:
                    g = g[:r.randrange(len(g) + 1)]
                elif m == 3:
                    g = g + rand(0, 3)
                s.append("cmp 0 %s %s" % (lst(h), lst(g)))
            if r.random() < .25:
                h = rand(0, 5)
                h = h if len(h) in (0, 2, 4) else h[1:]
                s.append("scmp %s %s" % (lst(h), lst(rand(0, 5) if r.random() < .5 else h)))
                s.append("sseq %s %s %s" % (lst(h), lst(h[1:3] if r.random() < .6 else rand(0, 3)), ds()))
        for x, y in itertools.product(al, repeat=2):
            s.append("cmp 0 %s %s" % (lst([x]), lst([y])))
        for k in MIXED.get(e, ()):
            a, b = NARROW[e, k], OTHER[e, k]
            for x, y in itertools.product(a, b):
                s.append("cmp %d %s %s" % (k, lst([x]), lst([y])))
                seq(k, [x], [y])
            both = [x for x in a if x in b]
            for _ in range(2000 if big else 120):
                h = [r.choice(a) if r.random() < .3 else r.choice(both) for _ in range(r.randrange(0, 8))]
                p = [r.choice(b) if r.random() < .2 else r.choice(both) for _ in range(r.randrange(0, 3))]
                seq(k, h, p)
                s.append("cmp %d %s %s" % (k, lst(h), lst([x if x in b else r.choice(b) for x in h[:r.randrange(len(h) + 1)]])))
        ev = c.drive_par(exes[e], s, tag="find%d" % e)
        every += [(e, ev)]
    for e, ev in every:
        c.validate("SpanTrace", ev, "find%d" % e, exes[e])
