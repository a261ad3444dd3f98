"""Iterators: sources, stacks of adaptors and interleaved calls."""
import itertools
MAP, INSPECT, WATCH, ENUM, TAKE, REV = range(1, 7)


def run(c):
    r = c.rng
    exes = c.build_many([dict(name="iter%d" % s, src="iter.cc", defs=["SRC=%d" % s], opt="-O0") for s in range(5)])
    c.model("IterMC", "IterMC3.cfg" if c.thorough else "IterMC.cfg")
    c.model("IterMC", "IterMCneg.cfg", expect_error="is violated")
    every = []
    for src in range(5):
        s = []

        def source():
            if src == 0:
                a = r.choice([0, 0, 3, 1000])
                n = r.choice([0, 1, 2, 3, 5, 8])
                has = r.choice([1, 2, 4, 4, 3, 5, 6, 7])
                return [a, has, max(0, a + n + r.choice([0, 0, -1, 2])), max(0, a + n - 1), n]
            if src in (1, 2):
                lo, hi = ((-128, 127), (0, 255))[src - 1]
                a = r.choice([lo, lo, hi, hi - 2, lo + 1, r.randrange(lo, hi + 1)])
                has = r.choice([0, 1, 2, 4, 1, 2, 4, 3, 5, 6, 7])
                z = r.choice([hi, hi, lo, r.randrange(lo, hi + 1), min(hi, a + 3)])
                return [a, has, r.choice([z, hi, min(hi, a + 2), r.randrange(lo, hi + 1)]), z,
                        r.choice([0, 1, 2, min(127, hi - a), min(127, hi - a + 1), 3])]
            n = r.choice([0, 1, 2, 3, 4, 7])
            if src == 3:
                return [n] + [r.randrange(-50, 50) for _ in range(n)]
            return [n] + [r.choice([65, 97, 233, 8364, 0x7ff, 0x800]) for _ in range(n)]
        stacks = []
        for k in range(4):
            for st in itertools.product(range(1, 7), repeat=k):
                both = src != 4
                ok = True
                for x in st:
                    ok &= x != REV or both
                    both &= x not in (ENUM, TAKE)
                if ok:
                    stacks.append((st, both))
        reps = 14 if c.thorough else 3
        for st, both in stacks:
            for _ in range(reps if len(st) > 1 else 4 * reps):
                layers = []
                for x in st:
                    layers += [x, r.choice([0, 1, 2, 3, 5, 1000]) if x == TAKE else 0]
                s.append("#")
                s.append("make " + " ".join(map(str, source() + [len(layers)] + layers)))
                for _ in range(r.choice([0, 1, 3, 6, 12])):
                    s.append(r.choice(["next", "next", "hint", "few %d" % r.randrange(0, 4)] + (["back"] * 3 if both else [])))
                s.append(r.choice(["for", "vec", "count", "last", "hint"]))
        every.append((src, c.drive_par(exes[src], s, single=False, tag="iter%d" % src)))
    for src, ev in every:
        c.validate("IterTrace", ev, "iter%d" % src, exes[src], single=False, env={"SRC": str(src)},
                   loose=lambda e: (0, 1) if e["op"] == "hint" else ())
