"""Layouts against the layout algorithm, over generated types."""
import os
from vp import layouts


def run(c):
    c.model("LayoutMC", "LayoutMC3.cfg" if c.thorough else "LayoutMC.cfg")
    c.model("LayoutMC", "LayoutMCneg.cfg", expect_error="Laws is violated")
    r = c.rng
    parts = [layouts.program(r, 400 if c.thorough else 120) for _ in range(32 if c.thorough else 6)]
    specs = []
    for n, (text, _) in enumerate(parts):
        src = os.path.join(c.dir, "layout%d.cc" % n)
        with open(src, "w") as f:
            f.write(text)
        specs.append(dict(name="layout%d" % n, src=src, opt="-O0"))
    for (_, s), exe, n in zip(parts, c.build_many(specs), range(99)):
        ev = c.drive_par(exe, s, tag="layout%d" % n)
        for e in ev:
            # Between half of all addresses and all, arrays may be refused.
            a = e["a"]
            if e["op"] == "array" and a[1] * sum(x << 16 * j for j, x in enumerate(a[3:7])) >> 63 == 1:
                e["loose"] = True
        c.validate("LayoutTrace", ev, "layout%d" % n, exe)
