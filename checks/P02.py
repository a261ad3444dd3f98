"""The lives of elements in vectors and boxes."""
from vp import boxes, vecs


def run(c):
    for e, (exe, ev) in vecs.histories(c, [k for k in vecs.KINDS if vecs.KINDS[k][4]]).items():
        c.validate("VecLifeTrace", ev, "vec%d" % e, exe, single=False, leaves=("id", "life"))
    for e, (exe, ev) in boxes.histories(c, list(boxes.KINDS) if c.thorough else [0, 1, 2, 4]).items():
        c.validate("VecLifeTrace", ev, "box%d" % e, exe, single=False, leaves=("id", "life"))
