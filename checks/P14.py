"""Rearrangements of rows and type lists, over generated programs."""
import os
from vp import rows


def run(c):
    c.model("RowMC", "RowMC3.cfg" if c.thorough else "RowMC.cfg")
    c.model("RowMC", "RowMCneg.cfg", expect_error="Laws is violated")
    r = c.rng
    parts, rounds = (32, 40) if c.thorough else (8, 10)
    cases = [[] for _ in range(parts)]
    k = 0
    for n in range(rounds):
        for op in rows.ROWOPS + rows.LISTOPS:
            for q in range(1 if op in rows.LISTOPS else 4):
                x = rows.list_case(r, op) if op in rows.LISTOPS else rows.row_case(r, op, q)
                cases[k % parts].append(x + (op,))
                k += 1
    specs = []
    for n, cs in enumerate(cases):
        src = os.path.join(c.dir, "rows%d.cc" % n)
        with open(src, "w") as f:
            f.write(rows.program(cs))
        specs.append(dict(name="rows%d" % n, src=src, opt="-O0",
                          extra=["-I" + os.path.join(os.path.dirname(rows.__file__), "..", "drivers")]))
    for n, exe in enumerate(c.build_many(specs)):
        s = [" ".join(map(str, [op, j] + a)) for j, (_, a, op) in enumerate(cases[n])]
        c.validate("RowTrace", c.drive_par(exe, s, tag="rows%d" % n), "rows%d" % n, exe)
