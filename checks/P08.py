"""Bulk copies, moves and relocations, for every overlap and kind of element."""


def run(c):
    r = c.rng
    big = c.thorough
    kinds = range(7)
    exes = c.build_many([dict(name="bulk%d" % e, src="bulk.cc", defs=["ELEM=%d" % e]) for e in kinds])
    c.model("BulkMC", "BulkMC3.cfg" if big else "BulkMC.cfg")
    c.model("BulkMC", "BulkMCneg.cfg", expect_error="Right is violated")
    every = []
    N = 9 if big else 7
    for e in kinds:
        copies, assigns = e != 6, e != 4
        s = []

        def cmd(op, slots, *a):
            s.append("%s %d %s %s" % (op, len(slots), " ".join(map(str, slots)), " ".join(map(str, a))))

        def slots(n, live, raw):
            """Live and raw where it matters, either elsewhere."""
            return [j + 10 if j in live else -1 if j in raw else (-1 if r.random() < .5 else j + 10) for j in range(n)]
        for n in ([N] if not big else [N, 5]):
            for d in range(n):
                for f in range(n):
                    for k in range(0, n - max(d, f) + 1):
                        D, F = set(range(d, d + k)), set(range(f, f + k))
                        if not D & F:
                            if copies:
                                cmd("copy", slots(n, F, D), d, f, k)
                                cmd("copy_assign", slots(n, F | D, set()), d, f, k)
                                for m in range(0, n - f + 1):
                                    G = set(range(f, f + m))
                                    if not D & G and (m in (0, k - 1, k, k + 1) or r.random() < .2):
                                        cmd("emplace_from", slots(n, G, D), d, f, k, m)
                            cmd("move", slots(n, F, D), d, f, k)
                            cmd("move_assign", slots(n, F | D, set()), d, f, k)
                            cmd("relo", slots(n, F, D), d, f, k)
                            cmd("relo_assign", slots(n, F | D, set()), d, f, k)
                        if copies:
                            cmd("copy_overlapping", slots(n, F, D - F), d, f, k)
                            cmd("copy_assign_overlapping", slots(n, F | D, set()), d, f, k)
                            m = r.randrange(0, n - f + 1)
                            G = set(range(f, f + m))
                            cmd("copy_from", slots(n, D | G, set()), d, f, k, m)
                        cmd("move_overlapping", slots(n, F, D - F), d, f, k)
                        cmd("move_assign_overlapping", slots(n, F | D, set()), d, f, k)
                        cmd("relo_overlapping", slots(n, F, D - F), d, f, k)
                        cmd("shift", slots(n, F, D - F), d, f, k)
                    if assigns:
                        cmd("swap", slots(n, {d, f}, set()), d, f, 0)
                for k in range(0, n - d + 1):
                    D = set(range(d, d + k))
                    cmd("destroy", slots(n, D, set()), d, 0, k)
                    if assigns:
                        cmd("reverse", slots(n, D, set()), d, 0, k)
        for _ in range(400 if big else 40):  # Longer moves.
            n = 60
            d, f = r.randrange(n), r.randrange(n)
            k = r.randrange(0, n - max(d, f) + 1)
            D, F = set(range(d, d + k)), set(range(f, f + k))
            cmd("relo_overlapping", slots(n, F, D - F), d, f, k)
            cmd("move_assign_overlapping", slots(n, F | D, set()), d, f, k)
        every.append((e, c.drive_par(exes[e], s, tag="bulk%d" % e)))
    for e, ev in every:
        # A raw slot's bytes mean nothing, and a moved-from value is its own affair.
        c.validate("BulkTrace", ev, "bulk%d" % e, exes[e], loose=lambda v: set(range(2 * v["a"][0])))
