"""Slicing and indexing of spans and ranges without an enclosing span."""
import itertools
from vp.core import l16

M = (1 << 64) - 1
EXT = [0, 1, 3, 4, 5]


def rng(start, e=None, i=None, k=None):
    o = l16(start)
    for x in (e, i, k):
        o += [0] if x is None else [1] + l16(x)
    return " ".join(map(str, o))


def run(c):
    r = c.rng
    big = c.thorough
    c.model("BoundsMC", "BoundsMC3.cfg" if big else "BoundsMC.cfg")
    c.model("BoundsMC", "BoundsMCneg.cfg", expect_error="Exact is violated")
    exe = c.build("slice", "slice.cc")
    s = []
    HUGE = [M, M - 1, M - 2, 1 << 63, (1 << 63) - 1, 1 << 32, 1 << 62, (1 << 62) + 1, 65536]
    sizes = [(-1, n) for n in range(0, 7)] + [(n, n) for n in EXT]

    def vals(n):
        return [None] + list(range(0, n + 3)) + r.sample(HUGE, 3)
    for st, n in sizes:
        one = [v for v in vals(n)[1:]]
        for a in one + HUGE:
            s += ["elem %d %d %s" % (st, n, " ".join(map(str, l16(a)))),
                  "eindex %d %d %s" % (st, n, " ".join(map(str, l16(a)))),
                  "splitat %d %d %s" % (st, n, " ".join(map(str, l16(a))))]
            for op in ("slice", "index", "count"):
                s.append("%s %d %d %s" % (op, st, n, rng(a)))
                for b in vals(n)[1:]:
                    if op == "slice" or big or r.random() < .3:
                        s.append("%s %d %d %s" % (op, st, n, rng(a, b)))
                        s.append("%s %d %d %s" % (op, st, n, rng(a, None, b)))
                        s.append("%s %d %d %s" % (op, st, n, rng(a, None, None, b)))
            b = r.choice(one)
            s.append("swap %d %d %s %s" % (st, n, " ".join(map(str, l16(a))), " ".join(map(str, l16(b)))))
        for a, b in itertools.product(range(n + 1), repeat=2):
            s.append("swap %d %d %s %s" % (st, n, " ".join(map(str, l16(a))), " ".join(map(str, l16(b)))))
        for a in one:  # Several ends given: the first one counts.
            for _ in range(60 if big else 12):
                x, y, z = (r.choice(vals(n)) for _ in range(3))
                s.append("%s %d %d %s" % (r.choice(["slice", "slice", "index", "count"]), st, n, rng(a, x, y, z)))
        s += ["ends %d %d" % (st, n), "reverse %d %d" % (st, n)]
        s += ["fixed %d %d %d" % (st, n, i) for i in range(7)]
        for _ in range(200 if big else 30):
            t = []
            for _ in range(r.randrange(1, 6)):
                t += [r.randrange(2)] + l16(r.choice([0, 1, 1, 2, 3, n, n + 1, r.choice(HUGE)]))
            s.append("takes %d %d %s" % (st, n, " ".join(map(str, t))))
        for o in range(0, n + 1):
            for m in range(0, n + 2):
                s.append("sub %d %d %d %d" % (st, n, o, m))
    # A statically sized span made from another size.
    for st in EXT:
        for n in range(0, 7):
            if n != st:
                s += ["ends %d %d" % (st, n), "index %d %d %s" % (st, n, rng(0, 0))]
    # Larger spans, and no span at all.
    for _ in range(20000 if big else 2500):
        n = r.choice([7, 8, 100, 255, 256, 257, 1000])
        a = r.choice([0, 1, n - 1, n, n + 1, r.randrange(n), r.choice(HUGE)])
        b = r.choice([0, 1, n - 1, n, n + 1, r.randrange(n), a, (a - 1) & M, (a + 1) & M, (n - a) & M, (n - a + 1) & M,
                      (n - a - 1) & M, (M - a) & M, (M - a + 1) & M, (n - a) & M, r.choice(HUGE)])
        w = [None] * 3
        w[r.randrange(3)] = b
        s.append("%s -1 %d %s" % (r.choice(["slice", "slice", "index", "count"]), n, rng(a, *w)))
    pool = [0, 1, 2, 3, 5, 100, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, M - 2, M - 1, M]
    for m in [None] + pool:
        for a in pool:
            for b in pool:
                for f in range(4):
                    w = [None] * 3
                    if f < 3:
                        w[f] = b
                    elif b:
                        continue
                    if f == 1 and m is None and a == 0 and b == M:
                        continue  # The count is 2^64: not a size.
                    s.append("free %s %s" % ("0" if m is None else "1 " + " ".join(map(str, l16(m))), rng(a, *w)))
    for _ in range(3000 if big else 200):
        s.append("nul " + (lambda t: "%d %s" % (len(t), " ".join(map(str, t))))(
            [r.choice([0, 1, 2, 3, 127] if r.random() < .3 else [1, 2, 3, 127]) for _ in range(r.randrange(0, 12))]))
    ev = c.drive_par(exe, s, tag="slice")
    c.validate("SliceTrace", ev, "slice", exe)
