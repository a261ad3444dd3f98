"""Bit operations, comparisons and checked casts."""
from checks._math import *

BITS = ["count_ones", "leading_zeros", "leading_ones", "trailing_zeros", "trailing_ones"]
UBITS = ["is_pow2", "next_pow2_minus1", "wrapping_next_pow2", "checked_next_pow2",
         "next_pow2", "bits_for"]


def run(c):
    exe = c.build("math")
    r = c.rng
    c.model("BigMC", "BigMC.cfg")
    s = []
    for t in TYPES:
        vals = edges(t) + [rnd(r, t) for _ in range(15)]
        lo, hi = rng_of(t)
        if t[0] == 8:
            vals = range(lo, hi + 1)
        vals = list(vals) + [x for k in range(t[0]) for x in ((1 << k), (1 << k) - 1, (1 << k) + 1)
                             if x <= hi]
        ops = BITS + (["count_zeros"] if t[0] >= 32 else []) + (UBITS if t[1] == 0 else [])
        for op in ops:
            for x in vals:
                s.append(one(op, t, x))
        for op in ["shift_left", "shift_right", "shift_sign"] + \
                (["rotate_left", "rotate_right"] if t[1] == 0 else []):
            for n in list(range(0, t[0] + 3)) + [2 * t[0] - 1, 2 * t[0], 2 * t[0] + 1, 200]:
                # What an oversized arithmetic shift of an unsigned value saturates
                # to is not documented.
                if op == "shift_sign" and not t[1] and n >= t[0]:
                    continue
                for x in [rnd(r, t), rnd(r, t), r.choice(edges(t)), hi, lo]:
                    s.append(one(op, t, x, n))
            for x in [lo, hi, -1 if lo else 1]:
                for n in (127, 128, 255, 256, 65536, 2 ** 31 - 1):
                    if op[0] == "s" and (t[1] or op != "shift_sign"):
                        s.append(one(op, t, x, n))
        for u in TYPES:
            ops = ["int_cmp", "signed_cmp", "unsigned_cmp", "int_fits", "checked_cast"]
            if t[1] == u[1]:
                ops += ["min", "max"]
            for op in ops:
                for _ in range(40 if not c.thorough else 400):
                    a, b = rnd(r, t), rnd(r, u)
                    m = r.random()
                    ulo, uhi = rng_of(u)
                    if m < .2:
                        b = max(ulo, min(uhi, a))
                    elif m < .4:
                        a = max(lo, min(hi, r.choice([ulo, uhi]) + r.choice([-1, 0, 1])))
                    s.append(two(op, t, a, u, b))
    ev = c.drive_par(exe, s, tag="bits")
    c.validate("MathTrace", ev, "bits", exe)
