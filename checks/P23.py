"""Structured output: trees of writes, blocks and values."""
import itertools
from checks._text import *
from checks.P22 import spec, halves

# What there is in place of a tree's parts, by composite kind.
ARITY = {0: (0, 1), 1: (1,), 2: (1,), 3: (1,), 4: (1,), 5: (1,), 6: (0, 1, 2, 3), 7: (0, 1, 2, 3), 8: (0, 1, 2, 3), 9: (1,),
         10: (0, 1, 2), 11: (0, 1, 2), 12: (2,), 13: (1,), 14: (0, 1), 15: (1,), 16: (0, 1)}


class Gen:
    def __init__(self, r):
        self.r = r

    def spec(self):
        r = self.r
        if r.random() < .15:
            return spec(debug=1)[:3] + [1] + spec()[4:]
        if r.random() < .5:
            return spec(alt=r.randrange(2), debug=r.randrange(2))
        return spec(alt=int(r.random() < .6), debug=int(r.random() < .3), zero=int(r.random() < .2), align=r.randrange(4),
                    fill=r.choice([32, 42, 0xe9]), width=0, method=r.choice([0, 0, ord("x"), ord("b"), ord("X")]),
                    prec=None)

    def text(self, words=("", "a", "Foo", "x y", "\u00e9t\u00e9", "n\nm", "\n", "q\n")):
        return list(map(ord, self.r.choice(words)))

    def leaf(self):
        r = self.r
        x = r.random()
        if x < .3:
            n = r.choice([0, 1, -1, 7, 42, 255, -2 ** 31, 2 ** 31 - 1, r.randrange(-1000, 1000)]) & 0xffffffff
            return [0] + halves(n)
        if x < .45:
            t = self.text(("", "a", "hi\nthere", "tab\t", "\"q\"", "\u732b", "\n"))
            return [1, len(t)] + t
        if x < .65:
            e = r.choice([ASCII, LATIN1, UTF8, UTF8, WTF8, UTF16, UTF32])
            t = [c for c in self.text(("a", "b\nc", "\n", "\n\nd", "e\n", "", "\u00e9\n\u00fc", "\n\n", "\U0001f431\nz", "{}")) if admits(e, c)]
            u = encs(e, t)
            if r.random() < .2:
                u = mutate(r, e, u)
            return [2, e] + [len(u)] + u
        if x < .72:
            return [3, r.choice([10, 10, 65, 0xe9, 0x1f600, 0xd800])]
        c = r.randrange(18)
        a, b = {5: (r.randrange(4), 0), 6: (r.choice([0, 8, 24, 640]), r.choice([1, 2, 8, 64])), 12: (r.randrange(256), r.randrange(256)),
                4: (r.randrange(2), 0), 13: (r.choice([0, 1, 2, 77]), 0), 16: (r.randrange(2), 0), 17: (r.choice([10, 65, 0xe9]), 0)}.get(
                    c, (r.choice([0, 3, 12]), r.choice([0, 5, 100])))
        return [9, c, a, b]

    def tree(self, d):
        r = self.r
        if d == 0 or r.random() < .1:
            return self.leaf()
        x = r.random()
        if x < .12:
            return [4] + self.spec() + self.tree(d - 1)
        if x < .22:
            k = r.randrange(4)
            return [5, k] + [t for _ in range(k) for t in self.tree(d - 1)]
        if x < .6:
            return self.block(d)
        if x < .68:
            return [7, r.randrange(4)] + self.tree(d - 1)
        c = r.choice(list(ARITY))
        n = r.choice(ARITY[c])
        return [8, c, n] + [t for _ in range(n) for t in self.tree(d - 1)]

    def block(self, d):
        r = self.r
        k = r.choice([0, 1, 1, 2, 2, 3])
        t = self.text(("", "", "Foo", "a b", "\u00e9"))
        # An advice is only given when it is true.
        adv = k if r.random() < .4 else -1
        out = [6, r.randrange(3), len(t)] + t + [adv, k]
        for _ in range(k):
            e = r.randrange(6)
            name = self.text()
            named = [len(name)] + name if e in (2, 3) else []
            out += [e] + named
            if e in (1, 3, 5):
                out += self.spec()
            out += self.tree(d - 1)
            if e == 4:
                out += self.tree(d - 1)
            elif e == 5:
                out += self.spec() + self.tree(d - 1)
        return out + [r.randrange(4)]


def small(d):
    """All trees of a few kinds up to a depth."""
    leaves = [[3, 97], [2, 2, 3, 98, 10, 99], [2, 2, 1, 10]]
    if d == 0:
        return leaves
    below = small(d - 1)
    out = list(leaves)
    for k in (0, 1, 2):
        for ch in itertools.product(below if k < 2 else leaves + below[-4:], repeat=k):
            out.append([6, 0, 0, -1, k] + [t for x in ch for t in [0] + x] + [0])
            if k < 2:
                out.append([6, 2, 1, 84, k if k == 1 else -1, k] + [t for x in ch for t in [2, 1, 107] + x] + [1])
    return out


def run(c):
    exe = c.build("tree")
    c.model("FmtTreeMC", "FmtTreeMC3.cfg" if c.thorough else "FmtTreeMC.cfg")
    c.model("FmtTreeMC", "FmtTreeMCneg.cfg", expect_error="Laws is violated")
    g = Gen(c.rng)
    s = []
    for t in small(3 if c.thorough else 2):
        for alt in (0, 1):
            s.append([4] + spec(alt=alt, debug=alt) + t)
    n = 40000 if c.thorough else 6000
    for k in range(n):
        t = g.tree(g.r.choice([1, 2, 2, 3, 3, 4]))
        if k % 3:
            t = [4] + spec(alt=1, debug=g.r.randrange(2)) + t
        if len(t) < 400:
            s.append(t)
    ev = c.drive_par(exe, ["tree " + " ".join(map(str, t)) for t in s], tag="tree")
    c.validate("FmtTreeTrace", ev, "tree", exe)
