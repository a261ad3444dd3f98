"""Functions that return early through BEST_GUARD()."""
OPTS = (10, 11, 12, 13)
HELD = {1, 2, 3, 5, 6, 7}


def hows(src):
    if src in OPTS:
        return [0, 1, 2, 3, 8, 9, 10, 11]
    return {3: [0, 3, 4, 5, 7, 8, 9, 10, 11], 5: [0, 1, 3, 8, 9, 10, 11]}.get(src, list(range(12)))


def rets(src):
    return 3 if src in OPTS or src in (0, 1, 2, 4) else 2


def cmd(src, ret, steps, held):
    return "go %d %d %d %s %d %s" % (src, ret, len(steps), " ".join("%d %d %d" % s for s in steps), len(held),
                                     " ".join(map(str, held)))


def run(c):
    exe = c.build("guard")
    c.model("GuardMC", "GuardMC3.cfg" if c.thorough else "GuardMC.cfg")
    c.model("GuardMC", "GuardMCneg.cfg", expect_error="Laws is violated")
    r, s = c.rng, []
    # One step, every way.
    for src in list(range(6)) + list(OPTS):
        for ret in range(rets(src)):
            s.append(cmd(src, ret, [], [4, -4]))
            for how in hows(src):
                for x in (-1, -2, -3, -50, 0, 1, 50):
                    for k in (0, 1):
                        s.append(cmd(src, ret, [(how, k, x)], [x, x + 7 if x >= 0 else x - 7]))
    # Several, with the failure anywhere or nowhere.
    for _ in range(40000 if c.thorough else 6000):
        src = r.choice(list(range(6)) + list(OPTS))
        p = r.choice([0, .1, .3, .6])
        val = lambda: -r.randrange(1, 60) if r.random() < p else r.randrange(60)
        held = [val() for _ in range(r.randrange(1, 5))]
        steps = [(how, r.randrange(len(held)) if how in HELD else r.randrange(2), val())
                 for how in r.choices(hows(src), k=r.randrange(1, 9))]
        s.append(cmd(src, r.randrange(rets(src)), steps, held))
    c.validate("GuardTrace", c.drive_par(exe, s), "guards", exe)
