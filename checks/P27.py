"""Parsing integers from text."""
import itertools
from checks._math import *

DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def fmt(x, radix):
    if x == 0:
        return "0"
    n, o = abs(x), ""
    while n:
        o = DIG[n % radix] + o
        n //= radix
    return o


def cmd(op, t, text, neg=0, radix=10):
    return " ".join(map(str, [op, t[0], t[1], int(neg), radix, len(text)] + [ord(x) for x in text]))


def run(c):
    exe = c.build("atoi", "math.cc", defs=["ATOI"])
    r = c.rng
    c.model("BigMC", "BigMC.cfg")
    s = []
    # Every short string over a small alphabet, for the 8-bit types.
    alpha = "-+01279aFgx "
    for n in range(0, 4 if not c.thorough else 5):
        for tup in itertools.product(alpha, repeat=n):
            text = "".join(tup)
            for t in TYPES[:2]:
                for radix in (10, 16) if n < 3 else (r.choice([2, 8, 10, 16, 36]),):
                    s.append(cmd("atoi", t, text, 0, radix))
    for n in range(0, 5):
        for tup in itertools.product("-+0xbo17", repeat=n) if n < 4 else \
                (r.choices("-+0xbo17", k=4) for _ in range(800)):
            for t in (TYPES[1],) if n > 2 else TYPES[:2]:
                s.append(cmd("atoi_prefix", t, "".join(tup)))
    # Boundaries of every type in every radix.
    for t in TYPES:
        lo, hi = rng_of(t)
        for radix in range(2, 37):
            for x in (lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, hi * radix, hi * 2 + 1,
                      hi * 2 + 2, lo * 2, 2 ** t[0] * radix, r.randint(lo, hi)):
                text = fmt(x, radix)
                if r.random() < .3:
                    text = text.upper()
                if r.random() < .15:
                    text = "0" * r.randrange(1, 20) + text
                if r.random() < .1:
                    k = r.randrange(len(text) + 1)
                    text = text[:k] + r.choice(["_", ".", " ", "/", ":", "@", "[", "`", "{", "é", "٣", "𝟘", "\0"]) + text[k:]
                s.append(cmd("atoi_sign", t, text, x < 0, radix))
                s.append(cmd("atoi", t, ("-" if x < 0 else r.choice(["", "", "+"])) + text, 0, radix))
                if radix in (2, 8, 10, 16):
                    p = {2: ["0b"], 8: ["0o", "0"], 10: [""], 16: ["0x"]}[radix]
                    s.append(cmd("atoi_prefix", t, ("-" if x < 0 else "") + r.choice(p) + text))
        for radix in (0, 1, 37, 40, 1000):
            for text in ("", "0", "1", "z", "-1"):
                s.append(cmd("atoi", t, text, 0, radix))
                s.append(cmd("atoi_sign", t, text, 0, radix))
        for _ in range(300 if not c.thorough else 5000):
            radix = r.choice([2, 3, 8, 10, 10, 16, 16, 36])
            k = r.randrange(1, 12)
            text = "".join(r.choice(DIG[:radix]) for _ in range(k))
            if r.random() < .1:
                text += r.choice(DIG)
            s.append(cmd("atoi", t, r.choice(["", "-", "+"]) + text, 0, radix))
    ev = c.drive_par(exe, s, tag="atoi")
    c.validate("MathTrace", ev, "atoi", exe)
