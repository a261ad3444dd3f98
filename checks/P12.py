"""Comparisons of composite values against the lexicographic order of their terms."""
import os
from vp import cmps


def run(c):
    for k in range(1, 6):
        c.model("CmpMC", "CmpMC%d.cfg" % k)
    c.model("CmpMC", "CmpMCneg.cfg", expect_error="Laws is violated")
    specs, parts = [], 8
    for n in range(parts):
        inc = os.path.join(c.dir, "pairs%d.inc" % n)
        with open(inc, "w") as f:
            f.write(cmps.header(set(range(n, len(cmps.PAIRS), parts))))
        specs.append(dict(name="cmp%d" % n, src="cmp.cc", defs=['CMP_PAIRS="%s"' % inc]))
    exes = c.build_many(specs)
    r = c.rng
    for n, exe in enumerate(exes):
        s = set()
        for k in range(n, len(cmps.PAIRS), parts):
            a, b, order = cmps.PAIRS[k]
            for _ in range(6000 if c.thorough else 200):
                x, y = cmps.term(r, a), cmps.term(r, b)
                m = r.random()
                if m < .2 and a == b:
                    y = x
                elif m < .5 and a == b:
                    x, y = cmps.near(r, a)
                s.add(" ".join(map(str, ["cmp" if order else "eq", k] + x + y)))
        c.validate("CmpTrace", c.drive_par(exe, sorted(s), tag="cmp%d" % n), "cmp%d" % n, exe)
