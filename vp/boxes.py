"""Histories of boxes, shared by the checks of their values, lives and memory."""
from vp import core

# kind -> (shape, model, types, statically copyable, extra ops, element size, log2 of the alignment)
KINDS = {
    0: ("one", "BoxMC1", [0], True, ["take", "wrap", "try"], 32, 3),
    1: ("arr", "BoxMCArr", [0], True, ["wrap", "try"], 32, 3),
    2: ("one", "BoxMCDyn", [0, 1, 2, 3], False, ["wrap", "try"], 0, 0),
    3: ("one", "BoxMC1", [0], False, ["take", "wrap"], 32, 3),
    4: ("arr", "BoxMCArr", [0], True, ["wrap", "try"], 64, 6),
    5: ("one", "BoxMCDyn", [0, 1, 2, 3], False, ["wrap", "try"], 0, 0),
    6: ("one", "BoxMC1", [0], True, ["take", "wrap", "try"], 64, 6),
    7: ("two", "BoxMCTwo", [0], True, ["wrap", "try"], 32, 3),
}
# Kind 5 is of the default allocator, whose calls are seen by the linker.
WRAP = ["-Wl,--wrap=_ZN4best6malloc" + s for s in
        ("5allocENS_6layoutE", "6zallocENS_6layoutE", "7deallocENS_3ptrIvEENS_6layoutE")]


def build(c, kinds):
    return dict(zip(kinds, c.build_many(
        [dict(name="box%d" % e, src="box.cc", defs=["KIND=%d" % e], ld=WRAP if e == 5 else ())
         for e in kinds])))


def fits(e, edge):
    """Whether a transition of the model can be taken by boxes of this kind."""
    shape, _, types, copies, extra, _, _ = KINDS[e]
    op = edge[1]
    if op in ("copyn", "copya"):
        return copies
    if op in ("take", "wrap", "try"):
        return op in extra
    return True


def own(e, line):
    """Kind 5 has but one allocator."""
    w = line.split()
    if e == 5 and w[0] in ("new", "wrap"):
        w[2] = "0"
    return " ".join(w)


def rand(r, e, n, length):
    shape, _, types, copies, extra, _, _ = KINDS[e]
    hs = []
    for _ in range(n):
        h = []
        st = [None] * 3  # (len, type), "moved" or None

        def vals():
            k = {"one": 1, "two": 2, "arr": r.choice([0, 0, 1, 2, 2, 3, 7])}[shape]
            return [k] + [r.randrange(1, 1000) for _ in range(k)]
        for _ in range(length):
            j = r.randrange(3)
            have = [q for q in range(3) if isinstance(st[q], tuple)]
            on = [q for q in range(3) if st[q] is not None]
            ops = ["new", "new"] + [x for x in extra if x != "take"]
            ops += ["moven", "raw"] * 2
            if copies:
                ops += ["copyn"] * 2
            if st[j] is not None:
                ops += ["drop", "movea", "movea", "swap"]
                ops += ["copya"] * 3 if copies else []
            if isinstance(st[j], tuple):
                ops += ["set"] * 3 + [x for x in extra if x == "take"]
            o = r.choice(ops)
            if o in ("new", "wrap"):
                v = vals()
                ty = r.choice(types)
                h.append(" ".join(map(str, [o, j, r.choice([1, 2]), ty] + v)))
                st[j] = (v[0], ty)
            elif o in ("copyn", "try", "raw", "copya"):
                c = [q for q in have if q != j or o not in ("copyn",)]
                if not c:
                    continue
                q = r.choice(c)
                h.append("%s %d %d" % (o, j, q))
                if o == "raw":
                    if q != j:
                        st[j], st[q] = st[q], "moved"
                elif o == "try" and st[q][1] == 2:
                    pass
                else:
                    st[j] = st[q]
            elif o in ("moven", "movea", "swap"):
                c = [q for q in on if q != j or o != "moven"]
                if not c:
                    continue
                q = r.choice(c)
                h.append("%s %d %d" % (o, j, q))
                if o == "swap":
                    st[j], st[q] = st[q], st[j]
                elif q != j:
                    st[j], st[q] = st[q], "moved"
            elif o == "set":
                if st[j][0]:
                    h.append("set %d %d %d" % (j, r.randrange(st[j][0]), r.randrange(1, 1000)))
            elif o == "drop":
                h.append("drop %d 0" % j)
                st[j] = None
            else:
                h.append("%s %d 0" % (o, j))
        h += ["drop %d 0" % j for j in r.sample(range(3), 3)]
        hs.append(h)
    return hs


def histories(c, kinds):
    """{kind: (driver, recorded events)} of the model's transitions and of random runs."""
    exes = build(c, kinds)
    found = {}
    for m in sorted({KINDS[e][1] for e in kinds}):
        found[m] = []
        c.model("BoxMC", m + ".cfg", edges=found[m])
    out = {}
    for e in kinds:
        start = [[{"on": 0, "ty": 0, "s": []}] * 2, 0]
        hs = core.walks([x for x in found[KINDS[e][1]] if fits(e, x)], start, 60, ["drop 1 0", "drop 0 0"])
        hs = [[own(e, l) for l in h] for h in hs + rand(c.rng, e, 2000 if c.thorough else 80, 60)]
        out[e] = (exes[e], c.drive_par(exes[e], [l for h in hs for l in ["#"] + h], single=False, tag="box%d" % e))
    return out
