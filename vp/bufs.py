"""Histories of text buffers, shared by the checks of their contents and memory."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "checks"))
from _text import admits, enc, encs, lst, rnd_cp, units, mutate, SURR, UTF16, UTF32, UTF8, WTF8  # noqa: E402
from vp import core  # noqa: E402

SIZE = {0: 1, 1: 1, 2: 1, 3: 1, 4: 2, 5: 4}


def build(c, kinds):
    return dict(zip(kinds, c.build_many(
        [dict(name="strbuf%d" % e, src="strbuf.cc", defs=["ENC=%d" % e]) for e in kinds])))


def cps(r, e, n, narrow):
    """Code points that e admits; narrow ones have a chance in any encoding."""
    return [r.choice([97, 98, 65]) if r.random() < narrow else rnd_cp(r, e) for _ in range(n)]


def string(r, E):
    """(arguments, code points as read)."""
    e = r.choice([0, 1, 2, 2, 3, 4, 4, 5, E, E])
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 30])
    s = cps(r, e, n, r.choice([0, .5, .9, 1]))
    if r.random() < .4:  # Such that the buffer's encoding admits it.
        s = [x for x in s if admits(E, x)]
    if e == WTF8 and r.random() < .3:
        s.insert(r.randrange(len(s) + 1), r.choice(SURR))
    form = r.randrange(4 if e in (UTF8, UTF16, UTF32) else 3)
    u = encs(e, s)
    if r.random() < .25:
        form, u, s = 0, mutate(r, e, u), None
    return "%d %d %s" % (e, form, lst(u)), s


def rand(r, E, n, length):
    hs = []
    for _ in range(n):
        h = []
        st = [None] * 3  # Code points; "?" if only the specification knows.
        for _ in range(length):
            j = r.randrange(3)
            on = [q for q in range(3) if st[q] is not None]
            ops = ["new", "from", "from", "frombuf", "fromtext", "fromnul", "wrap", "wrappre", "lit", "trans", "trans"]
            if on != [j] and on:
                ops += ["copyn", "moven"]
            if st[j] is not None:
                ops = ops[:r.randrange(len(ops))][-2:]
                ops += ["push"] * 6 + ["pushr"] * 3 + ["lossy"] * 3 + ["lossyr"] * 2 + ["trunc"] * 4
                ops += ["pushb", "lossyb", "copya", "copya", "movea", "movea", "clear", "reserve", "reserve", "drop",
                        "buf", "idx", "at", "at", "runes", "cmp", "cmp", "cmps", "cmpr", "cmpu"]
            o = r.choice(ops)
            al = r.choice([0, 1, 1, 2])
            if o in ("from", "frombuf", "fromtext", "wrap", "wrappre", "fromnul"):
                s = cps(r, E, r.choice([0, 1, 2, 3, 6, 12, 40]), r.choice([0, .5]))
                u = encs(E, s)
                if o in ("from", "frombuf", "fromnul") and r.random() < .5:
                    u = mutate(r, E, u)
                    s = "?"
                if o == "fromnul":
                    u = u + [0] if u or r.random() < .5 else []
                    s = "?"
                if o == "wrappre":
                    al = 0
                h.append("%s %d %d %s" % (o, j, al, lst(u)))
                if s == "?" and st[j] is None:
                    st[j] = None if o != "fromnul" else None
                    # Whether it was made is not known here: make sure of it.
                    h.append("new %d %d" % (j, al)) if r.random() < .5 else h.append("lit %d 0 1" % j)
                    st[j] = "?"
                else:
                    st[j] = s
            elif o == "trans":
                a, s = string(r, E)
                h.append("trans %d %d %s" % (j, al, a))
                if st[j] is None:
                    h.append("lit %d 0 3" % j)
                st[j] = "?"
            elif o == "new":
                h.append("new %d %d" % (j, al))
                st[j] = []
            elif o == "lit":
                h.append("lit %d 0 %d" % (j, r.randrange(4)))
                st[j] = "?"
            elif o in ("push", "lossy", "cmps"):
                if o == "cmps":
                    a, s = string(r, E)
                    if s is None:
                        continue
                    h.append("cmps %d %s" % (j, a))
                    continue
                a, s = string(r, E)
                h.append("%s %d %s" % (o, j, a))
                if s is None or st[j] == "?":
                    st[j] = "?"
                elif all(admits(E, x) for x in s):
                    st[j] = st[j] + s
                elif o == "lossy":
                    f = 0xfffd if admits(E, 0xfffd) else 63
                    st[j] = st[j] + [x if admits(E, x) else f for x in s]
            elif o in ("pushr", "lossyr", "cmpr"):
                x = r.choice(SURR) if r.random() < .2 else rnd_cp(r, r.choice([E, E, 2]))
                if o == "cmpr" and st[j] not in ("?", []) and r.random() < .5:
                    x = st[j][0]
                h.append("%s %d %d" % (o, j, x))
                if o != "cmpr" and st[j] != "?":
                    f = 0xfffd if admits(E, 0xfffd) else 63
                    if admits(E, x):
                        st[j] = st[j] + [x]
                    elif o == "lossyr":
                        st[j] = st[j] + [f]
            elif o == "cmpu":
                s = cps(r, E, r.choice([0, 1, 3]), .5) if st[j] == "?" or r.random() < .5 else st[j]
                h.append("cmpu %d %s" % (j, lst(encs(E, s))))
            elif o in ("pushb", "lossyb", "copya", "movea", "cmp", "copyn", "moven"):
                q = r.choice([x for x in on if x != j or o not in ("copyn", "moven")])
                if o in ("pushb", "lossyb") and st[q] != "?" and len(st[q]) > 200:
                    continue
                h.append("%s %d %d" % (o, j, q))
                if o in ("pushb", "lossyb"):
                    st[j] = "?" if "?" in (st[j], st[q]) else st[j] + st[q]
                elif o in ("copya", "copyn"):
                    st[j] = st[q]
                elif o in ("movea", "moven") and j != q:
                    st[j], st[q] = st[q], []
            elif o in ("trunc", "at", "idx"):
                if st[j] == "?":
                    h.append("trunc %d %d" % (j, r.choice([0, 4000])))
                    st[j] = [] if h[-1].endswith(" 0") else "?"
                    continue
                # Boundaries, mostly.
                off = [0]
                for x in st[j]:
                    off.append(off[-1] + len(enc(E, x)))
                x, y = sorted([r.choice(off + off[-3:]), r.choice(off)])
                if r.random() < .1:
                    y = r.randrange(x, off[-1] + 3)
                if o == "trunc":
                    h.append("trunc %d %d" % (j, y))
                    if y in off:
                        st[j] = st[j][:off.index(y)]
                    elif y < off[-1]:
                        break
                else:
                    if r.random() < .1:
                        x = r.randrange(0, off[-1] + 3)
                        y = max(x, y)
                    h.append("%s %d %d %d" % (o, j, x, y - x))
                    if o == "idx" and not (x in off and y in off):
                        break
            elif o in ("clear", "drop", "buf", "runes", "reserve"):
                k = r.choice([0, 1, 5, 23, 60]) if o == "reserve" else r.randrange(2) if o == "buf" else 0
                h.append("%s %d %d" % (o, j, k))
                if o in ("clear", "buf"):
                    st[j] = []
                elif o == "drop":
                    st[j] = None
        else:
            h += ["drop %d 0" % j for j in r.sample(range(3), 3)]
        hs.append(h)
    return hs


def histories(c, kinds, deep):
    exes = build(c, kinds)
    out = {}
    for e in kinds:
        edges = []
        c.model("BufMC", "BufMC%d.cfg" % e, edges=edges)
        hs = core.walks(edges, [[{"on": 0, "r": []}] * 2, 0], 60, ["drop 1 0", "drop 0 0"])
        hs += rand(c.rng, e, 3000 if c.thorough else deep, 50)
        out[e] = (exes[e], c.drive_par(exes[e], [l for h in hs for l in ["#"] + h], single=False, tag="strbuf%d" % e))
    return out
