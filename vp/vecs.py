"""Histories of vectors, shared by the checks of their values, lives and memory."""
from vp import core

# element kind -> (size, log2 of the alignment, inline capacity, copyable, tracked, largest value)
KINDS = {
    0: (4, 2, 7, True, False, 10 ** 6),
    1: (32, 3, 2, True, True, 10 ** 6),
    2: (32, 3, 3, True, True, 10 ** 6),
    3: (64, 6, 1, True, True, 10 ** 6),
    4: (32, 3, 2, False, True, 10 ** 6),
    6: (1, 0, 23, True, False, 255),
    7: (1, 0, 200, True, False, 255),
    8: (32, 3, 0, True, True, 10 ** 6),
    9: (32, 3, 0, True, True, 10 ** 6),
    10: (16, 4, 1, True, False, 30000),
    11: (64, 6, 2, True, True, 10 ** 6),
}
COPIES = {"from", "il", "append", "splice", "splicein", "appendv", "assign", "assignv", "copya", "copyn",
          "fromw", "assignw", "appendw"}


def build(c, kinds):
    return dict(zip(kinds, c.build_many(
        [dict(name="vec%d" % e, src="vec.cc", defs=["ELEM=%d" % e]) for e in kinds])))


def rand(r, e, n, length):
    """Random histories over three registers, with sizes around the points
    where the storage changes."""
    size, al, inl, copies, tracked, top = KINDS[e]
    cap = max(inl, 3)
    hs = []
    for _ in range(n):
        h = []
        lens = [None] * 3
        limit = r.choice([cap + 1, 2 * cap + 2, 40 if tracked else 300])

        def vals(k):
            t = [r.randrange(1, min(top, 1000)) for _ in range(k)]
            return [k] + t

        def some():
            return r.choice([0, 1, 1, 2, 3, r.randrange(0, cap + 2)])
        for _ in range(length):
            j = r.randrange(3)
            k = lens[j]
            live = [q for q in range(3) if lens[q] is not None]
            if k is None:
                o = r.choice(["new", "from", "iter", "il", "copyn", "moven", "fromw"])
                if o in ("copyn", "moven") and not live:
                    o = "new"
                if not copies and o in COPIES:
                    o = "iter"
                a = r.choice([1, 1, 2])
                if o == "new":
                    h.append("new %d %d" % (j, a))
                    lens[j] = 0
                elif o in ("from", "iter"):
                    m = some()
                    h.append(" ".join(map(str, [o, j, a] + vals(m))))
                    lens[j] = m
                elif o == "fromw":
                    m = some()
                    h.append(" ".join(map(str, [o, j, a, r.randrange(5)] + vals(m))))
                    lens[j] = m
                elif o == "il":
                    h.append("il %d %d 7 8 9" % (j, a))
                    lens[j] = 3
                else:
                    q = r.choice(live)
                    h.append("%s %d %d" % (o, j, q))
                    lens[j] = lens[q]
                    if o == "moven":
                        lens[q] = 0
                continue
            ops = ["push"] * 4 + ["insert"] * 3 + ["gap", "pop", "pop", "remove", "remove", "erase", "erase",
                   "trunc", "resize", "clear", "reserve", "shrink", "spill", "box", "get", "at", "first",
                   "last", "movea", "moven", "drop", "cmp"]
            if copies:
                ops += ["append", "splice", "splice", "splicein", "splicein", "appendv", "assign", "assignv",
                        "copya", "copyn", "assignw", "assignw", "appendw"]
            o = r.choice(ops)
            q = r.choice(live)
            others = [x for x in live if x != j]
            if o in ("moven", "copyn"):
                if not others:
                    continue
                q = r.choice(others)
                h.append("%s %d %d" % (o, j, q))
                lens[j] = lens[q]
                if o == "moven":
                    lens[q] = 0
            elif o in ("movea", "copya", "assignv", "appendv", "cmp"):
                if o == "appendv" and k + lens[q] > limit:
                    continue
                h.append("%s %d %d" % (o, j, q))
                if o in ("copya", "assignv"):
                    lens[j] = lens[q]
                if o == "appendv":
                    lens[j] += lens[q]
                if o == "movea" and q != j:
                    lens[j], lens[q] = lens[q], 0
            elif o == "push":
                if k < limit:
                    h.append("push %d %d" % (j, vals(1)[1]))
                    lens[j] += 1
            elif o == "insert":
                if k < limit:
                    h.append("insert %d %d %d" % (j, r.randrange(0, k + 1), vals(1)[1]))
                    lens[j] += 1
            elif o in ("gap", "splice"):
                m = some()
                if k + m <= limit:
                    h.append(" ".join(map(str, [o, j, r.choice([0, k, r.randrange(0, k + 1)])] + vals(m))))
                    lens[j] += m
            elif o == "append":
                m = some()
                if k + m <= limit:
                    h.append(" ".join(map(str, [o, j] + vals(m))))
                    lens[j] += m
            elif o in ("assignw", "appendw"):
                m = r.choice([some(), some(), k, k + 1, max(0, k - 1)])
                if o == "assignw" or k + m <= limit:
                    h.append(" ".join(map(str, [o, j, r.randrange(5)] + vals(m))))
                    lens[j] = m + (k if o == "appendw" else 0)
            elif o == "assign":
                m = r.choice([some(), k, k + 1, max(0, k - 1)])
                h.append(" ".join(map(str, [o, j] + vals(m))))
                lens[j] = m
            elif o == "splicein":
                f = r.randrange(0, k + 1)
                m = r.randrange(0, k - f + 1)
                if k + m <= limit:
                    h.append("splicein %d %d %d %d" % (j, r.randrange(0, k + 1), f, m))
                    lens[j] += m
            elif o == "pop":
                h.append("pop %d" % j)
                lens[j] = max(0, k - 1)
            elif o == "remove":
                if k:
                    h.append("remove %d %d" % (j, r.choice([0, k - 1, r.randrange(k)])))
                    lens[j] -= 1
            elif o == "erase":
                f = r.randrange(0, k + 1)
                m = r.randrange(0, k - f + 1)
                how = r.randrange(4)
                if how == 2 and (m == 0):
                    how = 0
                if how == 3:
                    m = k - f
                h.append("erase %d %d %d %d" % (j, f, m, how))
                lens[j] -= m
            elif o in ("trunc", "resize"):
                m = r.choice([0, k, k + 1, max(0, k - 1), r.randrange(0, k + 1), k + cap])
                h.append("%s %d %d" % (o, j, m))
                lens[j] = min(k, m)
            elif o == "reserve":
                h.append("reserve %d %d" % (j, r.choice([0, 1, some(), cap, 50])))
            elif o == "spill":
                hint = r.choice([-1, -1, 0, k, k + 1, cap, 33])
                # (Not exactly nothing: an allocator need not give zero bytes.)
                h.append("spill %d %d %d" % (j, hint, r.randrange(2) if hint > 0 else 0))
            elif o in ("get",):
                if k:
                    h.append("get %d %d" % (j, r.randrange(k)))
            elif o == "at":
                h.append("at %d %d" % (j, r.randrange(0, k + 3)))
            elif o == "drop":
                h.append("drop %d" % j)
                lens[j] = None
            elif o == "clear":
                h.append("clear %d" % j)
                lens[j] = 0
            else:
                h.append("%s %d" % (o, j))
        # Sometimes end in a refused access.
        live = [q for q in range(3) if lens[q] is not None]
        if live and r.random() < .15:
            j = r.choice(live)
            k = lens[j]
            bad = ["insert %d %d 1" % (j, k + r.choice([1, 2, 1000])), "remove %d %d" % (j, k + r.choice([0, 1, 9])),
                   "get %d %d" % (j, k + r.choice([0, 1, 9])), "erase %d %d %d 0" % (j, k, 1),
                   "erase %d %d 0 3" % (j, k + 1), "erase %d 0 %d 1" % (j, k + 1), "gap %d %d 1 5" % (j, k + 1)]
            if copies:
                bad += ["splice %d %d 2 1 2" % (j, k + 1), "splicein %d %d 0 %d" % (j, k + 1, k),
                        "splicein %d 0 0 %d" % (j, k + 1)]
            h.append(r.choice(bad))
        else:
            h += ["drop %d" % j for j in r.sample(range(3), 3)]
        hs.append(h)
    return hs


def histories(c, kinds):
    """{kind: recorded events} of the model's transitions and of random runs."""
    exes = build(c, kinds)
    found = []
    for cfg, regs in (("VecMC.cfg", 1), ("VecMC2.cfg", 2)):
        edges = []
        c.model("VecMC", cfg, edges=edges)
        found.append((edges, [[{"s": [], "on": 0, "al": 0}] * regs, [0] * regs]))
    walks = {}
    for copies in (True, False):
        walks[copies] = []
        for edges, start in found:
            walks[copies] += core.walks([x for x in edges if copies or x[1] not in COPIES], start, 60,
                                        ["drop 1", "drop 0"])
    c.log("%d histories take every transition of the models" % len(walks[True]))
    out = {}
    for e in kinds:
        hs = walks[KINDS[e][3]] + rand(c.rng, e, 3000 if c.thorough else 250, 60)
        out[e] = (exes[e], c.drive_par(exes[e], [l for h in hs for l in ["#"] + h], single=False, tag="vec%d" % e))
    return out
