"""Decoding inverts encoding and rejects everything else."""
import itertools
from checks._text import *


def run(c):
    exe = c.build("codec")
    c.model("UtfMC", "UtfMC.cfg")
    r = c.rng
    s = []
    for e in range(6):
        # Encoding into buffers of every relevant size.
        for cp in CPS + SURR + [0x110000 - 1]:
            s.append("size %d %d" % (e, cp))
            for room in range(6):
                s.append("encode %d %d %d" % (e, cp, room))
        # All code points (a sample of blocks in the quick tier).
        n = 512
        blocks = range(0, 0x110000, n)
        if not c.thorough:
            keep = {0, 0x200, 0x600, 0x800, 0xd600, 0xd800, 0xde00, 0xe000, 0xfe00, 0x10000, 0x1f600,
                    0xffe00, 0x100000, 0x10fe00}
            blocks = [b for b in blocks if b in keep or r.random() < .03]
        for b in blocks:
            s.append("block %d %d %d" % (e, b, n))
        # Unit sequences: exhaustive and short, then nearly valid and longer.
        us = units(e)
        for k in range(0, 4 if e in (UTF8, WTF8, UTF16, UTF32) else 3):
            for t in itertools.product(us, repeat=k):
                s.append("scan %d %s" % (e, lst(t)))
        if e in (UTF8, WTF8):
            for a in range(256):
                s.append("scan %d 1 %d" % (e, a))
                for b in range(256) if c.thorough else r.sample(range(256), 40):
                    s.append("scan %d 2 %d %d" % (e, a, b))
            four = list(itertools.product([0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8], BYTES,
                                          [0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xff], [0x41, 0x80, 0xbf, 0xc2, 0xf0]))
            for t in four if c.thorough else r.sample(four, 3000):
                s.append("scan %d %s" % (e, lst(t)))
        else:
            for a in range(256) if e < 2 else []:
                s.append("scan %d 1 %d" % (e, a))
        for _ in range(2500 if not c.thorough else 40000):
            u = encs(e, [rnd_cp(r, e) for _ in range(r.randrange(1, 7))])
            if r.random() < .15:
                u = encs(WTF8 if e in (UTF8, WTF8) else e, [r.choice(CPS + SURR) for _ in range(3)])
                u = [x for x in u if x < 256] if e < 2 else u
            if r.random() < .75:
                u = mutate(r, e, u)
            s.append("scan %d %s" % (e, lst(u)))
        # Boundaries of valid text.
        for _ in range(250 if not c.thorough else 3000):
            s.append("boundary %d %s" % (e, lst(encs(e, [rnd_cp(r, e) for _ in range(r.randrange(0, 6))]))))
    ev = c.drive_par(exe, s, tag="codec")
    c.validate("CodecTrace", ev, "codec", exe)
