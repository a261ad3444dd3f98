"""Chains of comparisons and generic comparisons, over generated programs."""
import os
from vp import ords


def run(c):
    c.model("OrdMC", "OrdMC3.cfg" if c.thorough else "OrdMC.cfg")
    c.model("OrdMC", "OrdMCneg.cfg", expect_error="Laws is violated")
    parts = [ords.program(c.rng, 300 if c.thorough else 60) for _ in range(24 if c.thorough else 5)]
    specs = []
    for n, (text, _) in enumerate(parts):
        src = os.path.join(c.dir, "ord%d.cc" % n)
        with open(src, "w") as f:
            f.write(text)
        specs.append(dict(name="ord%d" % n, src=src, opt="-O0"))
    for (_, s), exe, n in zip(parts, c.build_many(specs), range(99)):
        c.validate("OrdTrace", c.drive_par(exe, s, tag="ord%d" % n), "ord%d" % n, exe)
