"""Command lines under generated declarations."""
import itertools
import os
from vp import clis
from vp.core import LIBS


def cli(c, deep):
    r = c.rng
    c.model("CliMC", "CliMC3.cfg" if c.thorough else "CliMC.cfg")
    c.model("CliMC", "CliMCneg.cfg", expect_error="Laws is violated")
    progs = 6 if not c.thorough else 16
    specs, parts = [], []
    for n in range(progs):
        ds = [clis.Decl(r, k, deep) for k in range(6 if deep else 8)]
        src = os.path.join(c.dir, "cli%d.cc" % n)
        with open(src, "w") as f:
            f.write(clis.program(ds))
        specs.append(dict(name="cli%d" % n, src=src, opt="-O0",
                          libs=LIBS + ["best/cli/parser.cc", "best/cli/cli.cc"]))
        parts.append(ds)
    exes = c.build_many(specs)
    for n, (exe, ds) in enumerate(zip(exes, parts)):
        decls = os.path.join(c.dir, "cli%d.decls" % n)
        with open(decls, "w") as f:
            f.write("".join(d.data() + "\n" for d in ds))
        s = []
        for k, d in enumerate(ds):
            al = d.alphabet(12 if not c.thorough else 20)
            for m in range(3):
                for w in itertools.product(al, repeat=m):
                    s.append(clis.line(k, w))
            for _ in range(250 if not c.thorough else 3000):
                s.append(clis.line(k, d.argv()))
            for _ in range(60 if not c.thorough else 1000):
                s.append(clis.line(k, [r.choice(al) for _ in range(r.choice([3, 3, 4, 5, 7]))]))
        ev = c.drive_par(exe, s, tag="cli%d" % n)
        # A vector that asks for nothing settled may be read either way.
        for e in ev:
            e["loose"] = not clis.settled(e["a"])
        c.validate("CliTrace", ev, "cli%d" % n, exe, env={"DECLS": decls})
