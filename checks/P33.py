"""Reflection against what was declared, over generated types and reflections."""
import json, os
from vp import refls


def run(c):
    c.model("ReflMC", "ReflMC3.cfg" if c.thorough else "ReflMC.cfg")
    c.model("ReflMC", "ReflMCneg.cfg", expect_error="Laws is violated")
    parts = [refls.program(c.rng, 14, n) for n in range(64 if c.thorough else 8)]
    specs = []
    for n, (text, _, decls) in enumerate(parts):
        src = os.path.join(c.dir, "refl%d.cc" % n)
        with open(src, "w") as f:
            f.write(text)
        with open(os.path.join(c.dir, "decls%d.ndjson" % n), "w") as f:
            f.write("".join(json.dumps(d) + "\n" for d in decls))
        specs.append(dict(name="refl%d" % n, src=src, opt="-O0"))
    for (_, s, _), exe, n in zip(parts, c.build_many(specs), range(999)):
        ev = c.drive_par(exe, s, tag="refl%d" % n)
        c.validate("ReflTrace", ev, "refl%d" % n, exe, env={"DECLS": os.path.join(c.dir, "decls%d.ndjson" % n)})
