"""Histories of the default allocator, with and without its cookies."""
from vp import core


def history(r, n):
    live, out = {}, []
    big = r.random() < .2

    def layout():
        a = r.choice([0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 12])
        m = r.choice([1, 1, 2, 3, 4, 7, 16, 33] + [1000, 4096] * big)
        if r.random() < .4:
            return 1 << a, a
        return (m << a) % (1 << 20) or 1 << a, a
    for k in range(n):
        h = r.randrange(6)
        if h not in live:
            s, a = layout()
            out.append("%s %d %d %d %d" % (r.choice(["alloc", "zalloc"]), h, s, a, k))
            live[h] = s, a
        elif r.random() < .65:
            s, a = layout()
            if r.random() < .3:
                a = live[h][1]
                s = max(1, s >> a) << a
            out.append("realloc %d %d %d %d" % (h, s, a, k))
            live[h] = s, a
        else:
            out.append("dealloc %d" % h)
            del live[h]
    hs = list(live)
    r.shuffle(hs)
    return ["#"] + out + ["dealloc %d" % h for h in hs]


def run(c):
    c.model("MallocMC", "MallocMC3.cfg" if c.thorough else "MallocMC.cfg")
    c.model("MallocMC", "MallocMC0.cfg")
    c.model("MallocMC", "MallocMCneg.cfg", expect_error="Laws is violated")
    r = c.rng
    kinds = [(san, nd) for san in (True, False) for nd in (False, True)]
    # The allocator is built into each driver: with and without assertions.
    exes = c.build_many([dict(name="malloc%d%d" % k, src="malloc.cc", san=k[0], defs=["NDEBUG"] * k[1],
                              libs=[l for l in core.LIBS if "allocator" not in l]) for k in kinds])
    for (san, nd), exe in zip(kinds, exes):
        name = "malloc%d%d" % (san, nd)
        s = []
        for _ in range(3000 if c.thorough else 250):
            s += history(r, r.choice([6, 20, 60]))
        if not san:
            # Sizes that cannot be had; a sanitizer has its own opinion of these.
            for top in list(range(1, 66)) + [4096, 1 << 40]:
                for a in (0, 3, 4, 5, 8, 12):
                    for zero in (0, 1):
                        n = (2 ** 64 - top) & ~((1 << a) - 1)
                        s += ["#", "huge %d %s %d" % (zero, " ".join(str(n >> k & 65535) for k in (0, 16, 32, 48)), a)]
        c.validate("MallocTrace", c.drive_par(exe, s, single=False, tag=name), name, exe, single=False)
