"""Formatted integers, characters and strings."""
from checks._text import *
from vp.core import l16

BASES = [0, ord("b"), ord("o"), ord("x"), ord("X")]
FILLS = [32, 32, 48, 42, 0xe9, 0x20ac, 0x1f600, 10]


def halves(n):
    return [n >> 16, n & 65535]


def spec(alt=0, debug=0, zero=0, align=0, fill=32, width=0, prec=None, method=0):
    return [alt, debug, zero, 0, align, fill] + halves(width) + ([0, 0, 0] if prec is None else [1] + halves(prec)) + [method]


def cmd(op, *parts):
    return op + " " + " ".join(str(x) for p in parts for x in (p if isinstance(p, list) else [p]))


def run(c):
    exe = c.build("fmtval")
    c.model("FmtTextMC", "FmtTextMC3.cfg" if c.thorough else "FmtTextMC.cfg")
    c.model("FmtTextMC", "FmtTextMCneg.cfg", expect_error="Laws is violated")
    r = c.rng
    s = []

    def shape(n):
        """Width near the length of what is to be padded."""
        return dict(align=r.randrange(4), fill=r.choice(FILLS),
                    width=r.choice([0, 0, 1, n - 2, n - 1, n, n + 1, n + 2, n + 3, n + 5, n + 8, 40]) if r.random() < .97 else 300)

    def ispec(x, m):
        n = len({0: str(abs(x)), 98: bin(abs(x))[2:], 111: oct(abs(x))[2:]}.get(m, "%x" % abs(x)))
        k = shape(n + r.randrange(4))
        k["width"] = max(0, k["width"])
        return spec(alt=r.randrange(2), debug=int(r.random() < .2), zero=int(r.random() < .3), method=m,
                    prec=r.choice([None, None, None, 0, 1, 3]), **k)
    for w in (8, 16, 32, 64):
        for sg in (0, 1):
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
            vals = {lo, lo + 1, hi, hi - 1, 0, 1, 9, 10, 99, 100, 7, 8, 15, 16, 42, hi // 2, hi // 2 + 1, hi // 10, hi // 10 + 1} | \
                   {10 ** k + d for k in range(20) for d in (-1, 0)} | {2 ** k + d for k in range(64) for d in (-1, 0, 1)}
            vals |= {-v for v in vals} | {r.randrange(lo, hi + 1) for _ in range(150)}
            for x in sorted(v for v in vals if lo <= v <= hi):
                for m in BASES:
                    for k in range(12 if c.thorough else 2):
                        for which in ((0, 1) if w in (8, 64) else (0,)):
                            if k == 0 or r.random() < .6:
                                sp = ispec(x, m) if k else spec(method=m, alt=r.randrange(2))
                                s.append(cmd("int", w, sg, which, l16(x), sp))
            for m in BASES:
                for x in (lo, -1 if sg else 5, 0, hi, 77):
                    for zero in (0, 1):
                        for align in range(4):
                            for width in (0, 1, 2, 3, 4, 5, 6, 7, 12, 70):
                                for alt in (0, 1):
                                    if r.random() < (1 if c.thorough else .15):
                                        s.append(cmd("int", w, sg, 0, l16(x), spec(alt, 0, zero, align, r.choice(FILLS), width, None, m)))
    for b in (0, 1):
        for _ in range(60):
            s.append(cmd("bool", b, spec(alt=r.randrange(2), debug=r.randrange(2), align=r.randrange(4), fill=r.choice(FILLS),
                                         width=r.randrange(12))))
    for how, cps in ((0, CPS + SURR), (1, range(256)), (2, [x for x in CPS + SURR if x < 65536]),
                     (3, CPS + SURR + [0x110000, 0x110001, 0x7fffffff, 0x80000000, 0xffffffff, 0xdeadbeef])):
        for x in list(cps) * (8 if c.thorough else 2):
            for q in (0, 1, 2):
                s.append(cmd("rune", how, halves(x), spec(debug=int(q == 1), method=113 if q == 2 and how == 0 else 0, alt=r.randrange(2))))
            if x <= 0x10ffff:
                s.append(cmd("rune", how, halves(x), spec(align=r.randrange(4), fill=r.choice(FILLS), width=r.choice([0, 1, 2, 3, 4, 9]))))

    def string(e):
        k = r.choice([0, 1, 2, 3, 4, 6, 9, 20])
        if r.random() < .3:
            # What needs escapes, and digits behind them.
            return [x for x in [r.choice([34, 39, 92, 0, 7, 27, 10, 127, 128, 0x200d, 48, 49, 65, 102, 120]) for _ in range(k)] if admits(e, x)]
        return [rnd_cp(r, e) for _ in range(k)]
    for e in range(6):
        for _ in range(8000 if c.thorough else 900):
            cps = string(e)
            form = r.choice([0, 0, 1, 1, 2, 3])
            u = encs(e, cps)
            if form == 3:
                if e not in (UTF8, UTF16, UTF32):
                    form = 1
                elif 0 in cps:
                    continue
            if form == 0 and r.random() < .4:
                u = mutate(r, e, u)
            q = r.random()
            if q < .3:
                sp = spec(alt=r.randrange(2), debug=1, method=r.choice([0, 113]))
            elif q < .4:
                sp = spec(method=113)
            else:
                n = len(cps)
                k = shape(n)
                k["width"] = max(0, k["width"])
                p = r.choice([None, None, 0, 1, n - 1, n, n + 1, n // 2, 65536, 2 ** 32 - 1])
                if p is not None and r.random() < .5:
                    k["width"] = max(0, min(p, n) + r.randrange(-1, 4))
                sp = spec(alt=r.randrange(2), prec=max(0, p) if p is not None else None, **k)
            s.append(cmd("str", e, form, lst(u), sp))
    for how in range(5):
        for x in (0, 1, 16, 0xff, 0xdeadbeef, 2 ** 47 - 1, 2 ** 63, 2 ** 64 - 1):
            for m in (0, 112):
                if how in (2, 4) and m == 0 and x:
                    continue
                s.append(cmd("ptr", how, l16(x), spec(method=m, debug=r.randrange(2))))
    ev = c.drive_par(exe, s, tag="fmtval")
    c.validate("FmtTextTrace", ev, "fmtval", exe)
