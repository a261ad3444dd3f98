"""Vectors against the sequences their histories describe."""
from vp import vecs


def run(c):
    c.model("VecMC", "VecMC3.cfg") if c.thorough else None
    c.model("VecMC", "VecMCneg.cfg", expect_error="Refines is violated")
    for e, (exe, ev) in vecs.histories(c, list(vecs.KINDS)).items():
        c.validate("VecTrace", ev, "vec%d" % e, exe, single=False, leaves=("n", "empty", "val"))
