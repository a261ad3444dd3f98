"""Histories of optionals, results and choices, shared by the checks of their values and lives."""
from vp import core

DIGIT = {"V": 0, "O": 1, "L": 1, "X": 2, "M": 3, "I": 4, "C": 4, "R": 5, "B": 6}
# Facade: 0 choice, 1 option, 2 result; alternatives; for results, what they may be converted from.
KINDS = {
    "cOIV": (0, "OIV", None), "cOO": (0, "OO", None), "cRV": (0, "RV", None), "cXM": (0, "XM", None),
    "cBV": (0, "BV", None), "cIRLVB": (0, "IRLVB", None), "cO": (0, "O", None), "cXI": (0, "XI", None),
    "cIC": (0, "IC", None), "cVLB": (0, "VLB", None),
    "oO": (1, "VO", None), "oL": (1, "VL", None), "oM": (1, "VM", None), "oX": (1, "VX", None),
    "oI": (1, "VI", None), "oR": (1, "VR", None), "oB": (1, "VB", None), "oV": (1, "VV", None),
    "rOI": (2, "OI", None), "rIO": (2, "IO", None), "rVO": (2, "VO", "V,I"), "rRV": (2, "RV", None),
    "rBX": (2, "BX", None), "rMM": (2, "MM", "I,I"), "rVV": (2, "VV", None), "rLB": (2, "LB", None),
}
TRACKED = set("OLXMB")  # Payloads whose lives are logged.
VALS = [1, 2, 3, 4]
STEPS = {"new", "put", "drop", "moven", "movea", "swap", "copyn", "copya", "set", "cell"}


def distinct(alts):
    """Whether a handler for each type is unambiguous."""
    return len(set(alts)) == len(alts) and not {"I", "R"} <= set(alts) and not {"I", "C"} <= set(alts)


def copies(alts):
    return "M" not in alts


def build(c, names):
    specs = []
    for n in names:
        fac, alts, frm = KINDS[n]
        defs = ["FAC=%d" % fac, "ALTS=" + ",".join(alts)]
        if distinct(alts):
            defs.append("DISTINCT")
        if "R" in alts:
            defs.append("REFS")
        if alts[1:] == "V" and fac == 1:
            defs.append("OFVOID")
        if frm:
            defs += ["FROM=" + frm] + ["FROMVOID"] * (frm[0] == "V")
        specs.append(dict(name="sum-" + n, src="sum.cc", defs=defs))
    return dict(zip(names, c.build_many(specs)))


class Sim:
    """Which alternative each register holds: enough to know what may be asked."""

    def __init__(self):
        self.r = [None] * 3  # None: off; -1: moved from

    def step(self, op, a):
        r = self.r
        if op in ("new", "put"):
            r[a[0]] = a[1]
        elif op == "drop":
            r[a[0]] = None
        elif op in ("moven", "movea"):
            v = r[a[1]]
            r[a[1]] = -1
            if a[0] != a[1]:
                r[a[0]] = v
        elif op == "swap":
            r[a[0]], r[a[1]] = r[a[1]], r[a[0]]
        elif op in ("copyn", "copya"):
            r[a[0]] = r[a[1]]

    def live(self):
        return [j for j in range(3) if r_live(self.r[j])]


def r_live(x):
    return x is not None and x >= 0


def val(r, alt):
    return r.randrange(2) if alt == "R" else r.choice(VALS)


def ask(r, name, sim, j, extra=()):
    """A question to register j, and how it changes the simulation."""
    fac, alts, frm = KINDS[name]
    w = sim.r[j]
    cp = copies(alts)
    quals = [0, 1, 2, 3, 3] if cp else [3]
    live = sim.live()
    if fac == 0:
        ops = ["at"] * 3 + ["idx"] * 2 + ["match"] * 3
        if distinct(alts):
            ops.append("cases")
        if len(alts) > 1:
            ops.append("perm")
        o = r.choice(ops)
        if o == "at":
            return [o, j, r.randrange(len(alts))]
        if o == "idx":
            return [o, j, w, r.randrange(4)]
        if o == "match":
            return [o, j, r.randrange(4)]
        if o == "cases":
            return [o, j]
        q = r.choice(quals)
        if q == 3:
            sim.r[j] = -1
        return [o, j, q]
    if fac == 1:
        t = alts[1]
        ops = ["get", "refs", "map", "map_or", "then", "has", "inspect", "filter", "and", "or", "xor",
               "and", "or", "xor", "ok_or", "err_or"]
        if t not in "VR":
            ops += ["or_value"]
        if t != "V":
            ops += ["copy", "or_emplace"]
        if t == "R":
            ops += ["ptr", "ptr"]
        if t in "OLMXB" and t != "B":
            ops += ["conv", "conv"]
        o = r.choice(ops)
        if o == "get":
            if w != 1:
                return None
            return [o, j, r.randrange(8 if t == "V" else 10)]
        if o in ("refs", "has"):
            return [o, j]
        if o in ("map", "then", "inspect"):
            return [o, j, r.randrange(4)]
        if o == "map_or":
            return [o, j, r.randrange(4), r.choice(VALS), r.randrange(2)]
        if o == "filter":
            mv = 1 if not cp else r.randrange(2)
            if mv:
                sim.r[j] = -1
            return [o, j, mv]
        if o in ("and", "or", "xor"):
            mv = 1 if not cp else r.randrange(2)
            qs = [q for q in live if q != j or not mv]
            if not qs:
                return None
            q = r.choice(qs)
            if mv:
                if o == "and" and not cp:
                    pass
                sim.r[j] = sim.r[q] = -1
            return [o, j, q, mv]
        if o in ("ok_or", "err_or", "or_value", "copy"):
            q = r.choice(quals)
            if q == 3:
                sim.r[j] = -1
            if o in ("ok_or", "err_or"):
                return [o, j, q, r.randrange(3), r.choice(VALS)]
            return [o, j, q, r.choice(VALS), r.randrange(2)] if o == "or_value" else [o, j, q]
        if o == "or_emplace":
            sim.r[j] = 1
            return [o, j, val(r, t)]
        if o == "ptr":
            c = r.choice([-1, 0, 1])
            sim.r[j] = int(c >= 0)
            return [o, j, c, r.randrange(2)]
        has = r.randrange(2)
        sim.r[j] = has
        how = r.choice([0, 1, 2, 3, 4])
        if t == "X" and how == 4:
            how = 2
        return [o, j, has, r.choice(VALS), how]
    ops = ["sides"] * 3 + ["get", "map", "map_err", "then"]
    if frm:
        ops += ["conv"] * 2
    o = r.choice(ops)
    if o == "get":
        return [o, j, r.randrange(4 if alts[0] == "V" else 6)] if w == 0 else None
    if o == "sides":
        return [o, j]
    if o == "conv":
        e = r.randrange(2)
        sim.r[j] = e
        return [o, j, e, r.choice(VALS), r.randrange(4)]
    q = r.choice(quals)
    if q == 3:
        sim.r[j] = -1
    return [o, j, q]


def stop(r, name, sim):
    """A question that stops the program, if there is one."""
    fac, alts, _ = KINDS[name]
    live = sim.live()
    r.shuffle(live)
    for j in live:
        if fac == 0 and len(alts) > 1:
            w = r.choice([x for x in range(len(alts)) if x != sim.r[j]])
            return ["idx", j, w, r.randrange(4)]
        if fac == 1 and sim.r[j] == 0:
            return ["get", j, r.randrange(8 if alts[1] == "V" else 10)]
        if fac == 2 and sim.r[j] == 1:
            return ["get", j, r.randrange(4 if alts[0] == "V" else 6)]
    return None


def rand(r, name, n, length):
    fac, alts, frm = KINDS[name]
    cp = copies(alts)
    hs = []
    for _ in range(n):
        sim, h = Sim(), []

        def emit(op, *a):
            h.append(" ".join(map(str, (op,) + a)))
            sim.step(op, a)
        for _ in range(length):
            j = r.randrange(3)
            live = sim.live()
            on = [q for q in range(3) if sim.r[q] is not None]
            if live and r.random() < 0.5:
                j = r.choice(live)
                a = ask(r, name, sim, j)
                if a:
                    h.append(" ".join(map(str, a)))
                continue
            o = r.choice(["new", "put", "put", "put", "movea", "movea", "moven", "swap", "set", "set", "cell", "drop"]
                         + ["copyn", "copya", "copya"] * cp)
            if o in ("new", "put"):
                if o == "put" and sim.r[j] is None:
                    o = "new"
                w = r.randrange(len(alts))
                emit(o, j, w, val(r, alts[w]))
            elif o in ("moven", "movea", "swap"):
                qs = on if o != "moven" else [q for q in on if q != j]
                if sim.r[j] is None and o != "moven" or not qs:
                    continue
                emit(o, j, r.choice(qs))
            elif o in ("copyn", "copya"):
                qs = live if o == "copya" else [q for q in live if q != j]
                if not qs or o == "copya" and sim.r[j] is None:
                    continue
                emit(o, j, r.choice(qs))
            elif o == "set":
                if j in live:
                    emit(o, j, r.choice(VALS))
            elif o == "cell":
                emit(o, j, r.randrange(2), r.choice(VALS))
            elif sim.r[j] is not None:
                emit("drop", j, 0)
        if r.random() < 0.2:
            a = stop(r, name, sim)
            if a:
                h.append(" ".join(map(str, a)))
        else:
            for j in r.sample(range(3), 3):
                emit("drop", j, 0)
        hs.append(h)
    return hs


def model_shape(name):
    """The model's shapes have kinds only; the code has types of those kinds."""
    return "".join(str(DIGIT[x]) for x in KINDS[name][1])


def interleave(r, name, hs):
    """Puts questions between the steps of a history."""
    out = []
    for h in hs:
        sim, g = Sim(), []
        for l in h:
            w = l.split()
            op, a = w[0], tuple(map(int, w[1:]))
            g.append(l)
            sim.step(op, a)
            live = sim.live()
            if live and r.random() < 0.6:
                keep = list(sim.r)
                q = ask(r, name, sim, r.choice(live))
                if q and sim.r == keep:
                    g.append(" ".join(map(str, q)))
                sim.r = keep
        out.append(g)
    return out


def histories(c, names, edges_of):
    """{name: (driver, recorded events)} of the model's transitions and of random runs."""
    exes = build(c, names)
    out = {}
    for name in names:
        start = [[{"on": 0, "w": -1, "x": -1}] * 2, [0, 0]]
        hs = []
        sh = model_shape(name)
        if sh in edges_of:
            hs = interleave(c.rng, name, core.walks(edges_of[sh], start, 60, ["drop 1 0", "drop 0 0"]))
        hs += rand(c.rng, name, 2500 if c.thorough else 60, 60)
        out[name] = (exes[name], c.drive_par(exes[name], [l for h in hs for l in ["#"] + h], single=False,
                                             tag="sum-" + name))
    return out


def run(c, names):
    c.model("SumMC", "SumMC3.cfg")
    c.model("SumMC", "SumMCneg.cfg", expect_error="Exact is violated")
    edges = {}
    for sh in sorted({model_shape(n) for n in names}):
        if len(sh) <= 3:
            edges[sh] = []
            c.model("SumMC", "SumMC.cfg", edges=edges[sh], name="SumMC" + sh, env={"SHAPE": "1" + sh})
    for n, (exe, ev) in histories(c, names, edges).items():
        fac = KINDS[n][0]
        c.validate("SumTrace", ev, "sum-" + n, exe, single=False, leaves=("on", "w", "x", "cells"),
                   env={"FAC": str(fac), "SHAPE": "1" + model_shape(n)})
        if set(KINDS[n][1]) & TRACKED:
            c.validate("VecLifeTrace", ev, "sum-%s-life" % n, exe, single=False, leaves=("id",),
                       loose=True)
