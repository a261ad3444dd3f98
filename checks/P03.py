"""The memory vectors, boxes and text buffers ask for."""
from vp import boxes, bufs, vecs


def run(c):
    for e, (exe, ev) in vecs.histories(c, [0, 1, 2, 3, 4, 7, 8, 9, 10, 11]).items():
        size, al = vecs.KINDS[e][:2]
        c.validate("VecMemTrace", ev, "vec%d" % e, exe, single=False, leaves=("blk", "mem"),
                   env={"ESIZE": str(size), "EALIGN": str(al)})
    for e, (exe, ev) in boxes.histories(c, list(boxes.KINDS) if c.thorough else [1, 2, 5, 6]).items():
        c.validate("BoxMemTrace", ev, "box%d" % e, exe, single=False, leaves=("blk", "mem"),
                   env={"ESIZE": str(boxes.KINDS[e][5]), "EALIGN": str(boxes.KINDS[e][6])})
    for e, (exe, ev) in bufs.histories(c, range(6) if c.thorough else [2, 4], 60).items():
        c.validate("VecMemTrace", ev, "strbuf%d" % e, exe, single=False, leaves=("blk", "mem"),
                   env={"ESIZE": str(bufs.SIZE[e]), "EALIGN": str({1: 0, 2: 1, 4: 2}[bufs.SIZE[e]])})
