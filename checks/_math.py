"""Script generators for integer arithmetic."""
from vp.core import l16
TYPES = [(8, 0), (8, 1), (16, 0), (16, 1), (32, 0), (32, 1), (64, 0), (64, 1)]


def rng_of(t):
    w, s = t
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def edges(t):
    lo, hi = rng_of(t)
    c = set()
    for b in (lo, hi, 0, (hi + 1) // 2):
        for d in (-3, -2, -1, 0, 1, 2, 3, 7):
            c.add(b + d)
    for w in (7, 8, 15, 16, 31, 32, 63):
        for d in (-1, 0, 1):
            c.add((1 << w) + d)
            c.add(-(1 << w) + d)
    return sorted(x for x in c if lo <= x <= hi)


def rnd(r, t):
    lo, hi = rng_of(t)
    m = r.random()
    if m < .35:
        return r.choice(edges(t))
    if m < .6:
        n = r.randrange(t[0] + 1)
        v = r.getrandbits(n) if n else 0
        if t[1] and r.random() < .5:
            v = -v
        return max(lo, min(hi, v))
    return r.randint(lo, hi)


def word(t, x):
    return "%d %d " % t + " ".join(map(str, l16(x)))


def two(op, ta, a, tb, b, fa=0, fb=0):
    return "%s %s %d %s %d" % (op, word(ta, a), fa, word(tb, b), fb)


def one(op, t, a, *rest):
    return " ".join(["%s %s" % (op, word(t, a))] + [str(x) for x in rest])
