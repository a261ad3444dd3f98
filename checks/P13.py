"""Boxes against the objects their histories say they own."""
from vp import boxes


def run(c):
    c.model("BoxMC", "BoxMC3.cfg")
    c.model("BoxMC", "BoxMCneg.cfg", expect_error="Owned is violated")
    for e, (exe, ev) in boxes.histories(c, list(boxes.KINDS)).items():
        c.validate("BoxTrace", ev, "box%d" % e, exe, single=False, leaves=("n", "ty", "tw", "val"),
                   env={"DYN": str(int(e in (2, 5)))})
        c.validate("VecLifeTrace", ev, "box%d-life" % e, exe, single=False, leaves=("id", "life"))
        c.validate("BoxMemTrace", ev, "box%d-mem" % e, exe, single=False, leaves=("blk", "mem"),
                   env={"ESIZE": str(boxes.KINDS[e][5]), "EALIGN": str(boxes.KINDS[e][6])})
