"""Text buffers through histories of operations, in every encoding."""
from vp import bufs


def run(c):
    c.model("BufMC", "BufMCneg.cfg", expect_error="Holds is violated")
    if c.thorough:
        for e in range(6):
            c.model("BufMC", "BufMCt%d.cfg" % e)
        c.model("BufMC", "BufMCdeep2.cfg")
        c.model("BufMC", "BufMCdeep4.cfg")
    for e, (exe, ev) in bufs.histories(c, range(6), 120).items():
        c.validate("BufTrace", ev, "strbuf%d" % e, exe, single=False, env={"ENC": str(e)},
                   leaves=("on", "n", "empty", "nn", "val", "rv", "inst"))
