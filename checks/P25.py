"""Overflow-tracking, saturating and dividing arithmetic is exact."""
from checks._math import *


def run(c):
    exe = c.build("math")
    r = c.rng
    c.model("BigMC", "BigMC.cfg")
    s = []
    n = 6 if not c.thorough else 60
    small = ["add", "sub", "mul", "sadd", "ssub", "smul", "convert"]
    for ta in TYPES:
        for op in ("pos", "strict", "checked", "wrap") + (("neg", "not") if ta[0] >= 32 else ()):
            for x in edges(ta):
                for f in (0, 1):
                    s.append(one(op, ta, x, f))
        s.append("limits %d %d" % ta)
        for tb in TYPES:
            core = lambda t: sorted({x for b in rng_of(t) for x in (b, b + 1, b - 1)
                                     if rng_of(t)[0] <= x <= rng_of(t)[1]} | {0, 1, rng_of(t)[1] // 2 + 1} |
                                    ({-1} if t[1] else set()))
            for op in small:
                ea, eb = edges(ta), edges(tb)
                for a in core(ta):
                    for b in core(tb) if op != "convert" else (0,):
                        s.append(two(op, ta, a, tb, b))
                for _ in range(n * 6):
                    s.append(two(op, ta, r.choice(ea), tb, r.choice(eb)))
                for _ in range(n * 3):
                    s.append(two(op, ta, rnd(r, ta), tb, rnd(r, tb)))
                    if op in ("add", "sub", "mul", "convert"):
                        s.append(two(op, ta, rnd(r, ta), tb, rnd(r, tb), r.randrange(2), r.randrange(2)))
            if op == "convert":
                for x in edges(ta):
                    s.append(two("convert", ta, x, tb, 0))
            if ta[0] >= 32 and tb[0] >= 32:
                ops = ["and", "or", "xor", "div", "shl", "shr"]
                for op in ops:
                    for _ in range(n * 12):
                        s.append(two(op, ta, rnd(r, ta), tb, rnd(r, tb), r.random() < .1, r.random() < .1))
                for op in ("shl", "shr"):
                    for amt in list(range(0, 70)) + ([-1, -31, -64] if tb[1] else []):
                        s.append(two(op, ta, rnd(r, ta), tb, amt))
                lo, hi = rng_of(ta)
                for d in ("div", "ceildiv") if ta == tb else ("div",):
                    s.append(two(d, ta, lo, tb, -1 if tb[1] else 1))
                    for x in edges(ta):
                        for y in (0, 1, 2, 3, 7) + ((-1, -2, -3, -7) if tb[1] else ()):
                            s.append(two(d, ta, x, tb, y))
                    for _ in range(n * 12):
                        s.append(two(d, ta, rnd(r, ta), tb, rnd(r, tb)))
    ev = c.drive_par(exe, s, tag="arith")
    c.validate("MathTrace", ev, "arith", exe)
