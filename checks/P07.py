"""Sorting and bisecting spans under every kind of order."""
import itertools


def lst(xs):
    return " ".join(map(str, [len(xs)] + list(xs)))


def run(c):
    r = c.rng
    big = c.thorough
    exes = c.build_many([dict(name="spansort%d" % e, src="spansort.cc", defs=["ELEM=%d" % e]) for e in (0, 1)])
    c.model("SpanMC", "SpanMC3.cfg" if big else "SpanMC.cfg")
    for e in (0, 1):
        s = []

        def both(ranks, x):
            s.append("%s %s %s %d" % (r.choice(["sort", "stable"]), lst(ranks), lst(x), r.randrange(3)))

        def bis(ranks, x):
            x = sorted(x, key=lambda v: ranks[v // 16])
            for q in range(min(ranks) - 1, max(ranks) + 2):
                if len(x) < 8 or r.random() < .3:
                    s.append("bisect %s %s %d" % (lst(ranks), lst(x), q))
        # Every weak order of every sequence of up to five elements.
        for n in range(0, 6):
            for ks in itertools.product(range(3), repeat=n):
                if n < 5 or big or r.random() < .3:
                    x = [k * 16 + j for j, k in enumerate(ks)]
                    for op in ("sort", "stable"):
                        s.append("%s %s %s %d" % (op, lst([1, 0, 2]), lst(x), r.randrange(3)))
        for n in range(0, 9):
            for ks in itertools.combinations_with_replacement(range(4), n):
                if n < 4 or big or r.random() < 120 / (n ** 4):
                    bis([0, 2, 4, 6], [k * 16 + j for j, k in enumerate(ks)])
        for _ in range(3000 if big else 250):
            n = r.choice([2, 3, 6, 7, 8, 15, 16, 17, 24, 30, 31, 32, 33, 40, 64, 100, 129])
            if not big and n > 40 and r.random() < .6:
                n = 23
            k = r.choice([1, 2, 3, 10, 60])
            ranks = [r.randrange(-k, k) for _ in range(k)]
            m = r.randrange(5)
            ks = [r.randrange(k) for _ in range(n)]
            if m == 1:
                ks.sort(key=lambda v: ranks[v])
            elif m == 2:
                ks.sort(key=lambda v: -ranks[v])
            elif m == 3:
                h = n // 2
                ks = sorted(ks[:h], key=lambda v: ranks[v]) + sorted(ks[h:], key=lambda v: -ranks[v])
            x = [v * 16 + r.randrange(16) for v in ks]
            both(ranks, x)
            if r.random() < .3:
                bis(ranks, x)
        ev = c.drive_par(exes[e], s, tag="sort%d" % e)
        # Any sort may order equals as it likes, bisection may find any of them.
        c.validate("SpanTrace", ev, "sort%d" % e, exes[e],
                   loose=lambda v: {1, 3, 5} if v["op"] == "bisect" and v["v"][:1] == [1] else set())
