"""References to functions, deferred actions, interfaces, taps and calls."""
from vp import core
WHICH = {"tap": 18, "call": 14, "sig": 13, "bind_vt": 8, "arrow": 5}


def start():
    return [{"cell": [0, 0], "own": [0, 0], "slot": [[0, 0]] * 4, "d": [[0, 0, 0]] * 3, "n": [0, 0, 0],
             "obj": [1, 2, 3], "at": 0, "box": [[0, 0], [0, 0]]}, 0]


def history(r, n):
    """A history of everything at once, no two steps of which need the same thing."""
    h = []
    slot = [None] * 4
    d = [None] * 3
    at, box = 0, [0, 0]

    def bound(s):
        return slot[s] is not None and (slot[s][0] != 6 or bound(slot[s][1]))
    for _ in range(n):
        what = r.randrange(3)
        x = r.choice([0, 1, 2, -1, -7, 13, 100])
        if what == 0:
            s = r.randrange(4)
            o = r.choice(["bind", "bind", "same", "null", "isnull"] + ["ask"] * 7)
            if o == "bind":
                kinds = [1, 3, 4, 5, 7, 8, 9, 10, 11] + ([2, 6] if s < 2 else [6] if s == 3 else [])
                k = r.choice(kinds)
                t = (0 if k not in (1, 2, 5, 11) else r.randrange(2)) if k != 6 else \
                    r.choice([[2, 3], [0, 2, 3], [], [2]][s])
                slot[s] = (k, t)
                h.append("bind %d %d %d" % (s, k, t))
            elif o == "same":
                q = s ^ 1
                if slot[q] is None or slot[q][0] != 6:
                    slot[s] = slot[q]
                    h.append("same %d %d" % (s, q))
            elif o == "null":
                slot[s] = None
                h.append("null %d" % s)
            elif o == "isnull":
                h.append("isnull %d" % s)
            elif bound(s):
                h.append("ask %d %d" % (s, x))
        elif what == 1:
            j = r.randrange(3)
            if d[j] is None:
                k = r.choice([1, 2, 3, 4, 5, 6, 6, 7, 7, 9])
                others = [t for t in range(3) if d[t] is not None]
                if k in (6, 7) and not others:
                    k = 1
                d[j] = (k, r.choice(others) if k in (6, 7) else 0)
                h.append("dopen %d %d %d" % ((j,) + d[j]))
            else:
                o = r.choice(["drun", "dcancel", "dclose", "dclose"])
                if o == "dclose" and any(t != j and d[t] and d[t][0] in (6, 7) and d[t][1] == j for t in range(3)):
                    continue
                h.append("%s %d" % (o, j))
                if o == "dclose":
                    d[j] = None
        else:
            o = r.choice(["point", "box", "copybox"] + ["do"] * 7)
            b = r.randrange(2)
            if o == "point":
                at = r.randrange(1, 4)
                h.append("point %d" % at)
            elif o == "box":
                box[b] = r.randrange(1, 4)
                h.append("box %d %d %d" % (b, box[b], x))
            elif o == "copybox":
                if box[1 - b]:
                    if box[1 - b] != 3:
                        box[b] = box[1 - b]
                    h.append("copybox %d %d" % (b, 1 - b))
            else:
                w = r.randrange(12)
                m = r.randrange(8)
                t = 0
                if w in (1, 2):
                    t = r.randrange(1, 4)
                elif w in (7, 8, 9):
                    t = b
                    if not box[b]:
                        continue
                elif not at:
                    continue
                if w == 6:
                    m = r.choice([0, 3, 7])
                if w in (10, 11):
                    m = r.randrange(2)
                h.append("do %d %d %d %d" % (w, t, m, x))
    return h


def run(c):
    r = c.rng
    exe = c.build("func")
    hs = []
    for m in ("refs", "acts", "dyn1", "dyn2", "dyn3"):
        edges = []
        c.model("FuncMC", "FuncMC%s.cfg" % m, edges=edges)
        hs += core.walks(edges, start(), 120)
    if c.thorough:
        for m in ("refs3", "acts3", "dyns3"):
            c.model("FuncMC", "FuncMC%s.cfg" % m)
    c.model("FuncMC", "FuncMCneg.cfg", expect_error="Once is violated")
    hs += [history(r, 80) for _ in range(3000 if c.thorough else 400)]
    ev = c.drive_par(exe, [l for h in hs for l in ["#"] + h], single=False, tag="func")
    c.validate("FuncTrace", ev, "func", exe, single=False, leaves=("cell", "own", "obj"))
    s = ["static 0 0 0"]
    for op, n in WHICH.items():
        for w in range(n):
            for _ in range(40 if c.thorough else 8):
                s.append("%s %d %d %d" % (op, w, r.randrange(0, 100), r.randrange(0, 10)))
    c.validate("FuncTrace", c.drive(exe, s, tag="free"), "free", exe)
