"""Text is accepted exactly when valid, and iteration covers it exactly."""
import itertools
from checks._text import *


def run(c):
    exe = c.build("textiter")
    r = c.rng
    s = []
    big = c.thorough

    def dirs(n):
        m = r.randrange(4)
        return [0] * n if m == 0 else [1] * n if m == 1 else [r.randrange(2) for _ in range(n)]

    def one(e, u):
        s.append("from %d %s" % (e, lst(u)))
        for w in range(5):
            if w < 3 or r.random() < .5:
                k = r.choice([len(u) + 2, len(u) + 2, r.randrange(len(u) + 1)])
                s.append("iter %d %d %s %s" % (e, w, lst(u), lst(dirs(k))))

    for e in range(6):
        us = units(e)
        for k in range(0, 3):
            for t in itertools.product(us, repeat=k):
                if k < 2 or big or r.random() < .3:
                    one(e, t)
        three = list(itertools.product(us, repeat=3))
        for t in r.sample(three, min(len(three), 12000 if big else 900)):
            one(e, t)
        for n in range(6000 if big else 700):
            u = encs(e, [rnd_cp(r, e) for _ in range(r.randrange(1, 9))])
            if n % 3:
                u = mutate(r, e, u)
            one(e, u)
        if e in (UTF8, WTF8):
            for u in SHAPES:
                one(e, u)
                v, w = ([r.choice([65, 66])] * r.randrange(0, 20) for _ in range(2))
                one(e, v + u + w)
                one(e, v + u + r.choice(SHAPES) + w)
        # Long inputs, valid but for one place: the validator works in blocks.
        for n in range(2000 if big else 150):
            u = []
            while len(u) < r.choice([7, 8, 15, 16, 17, 31, 33, 64, 65]):
                u += enc(e, rnd_cp(r, e) if r.random() < .3 else r.randrange(32, 127))
            if n % 4:
                u = mutate(r, e, u)
            s.append("from %d %s" % (e, lst(u)))
        for n in range(600 if big else 80):
            u = encs(e, [rnd_cp(r, e) for _ in range(r.randrange(0, 6))])
            if n % 3 == 0:
                u = mutate(r, e, u)
            s.append("nul %d %s" % (e, lst(u)))
    ev = c.drive_par(exe, s, tag="textiter")
    c.validate("TextTrace", ev, "textiter", exe,
               loose=lambda e: {j for j in range(len(e["v"]) - 1) if e["op"] == "iter" and j % 6 < 2})
