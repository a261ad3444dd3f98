"""Error numbers against the platform's own table of them."""
import json
import os
import re
from vp import core


def table():
    """What <errno.h> and strerror() say."""
    out = core.sh([core.CXX, "-E", "-dM", "-x", "c++", "-include", "errno.h", "/dev/null"]).stdout
    raw = {m[1]: m[2] for m in re.finditer(r"#define (E[A-Z0-9]+) (\w+)", out)}

    def value(x):
        while x in raw:
            x = raw[x]
        return int(x) if x.isdigit() else None
    names = {}
    for k in raw:
        v = value(k)
        if v:
            names.setdefault(v, []).append(k)
    return [dict(names=[list(n.encode()) for n in sorted(names.get(v, []))], msg=list(os.strerror(v).encode()))
            for v in range(1, max(names) + 1)]


def run(c):
    exe = c.build("ioerr")
    t = table()
    path = os.path.join(c.dir, "errors.json")
    with open(path, "w") as f:
        json.dump(t, f)
    r = c.rng
    nums = list(range(-3, 700)) + [1 << k for k in range(10, 31)] + [(1 << k) - 1 for k in range(10, 32)] + \
        [-(1 << k) for k in range(2, 31)] + [r.randrange(-2 ** 31 + 1, 2 ** 31) for _ in range(2000 if c.thorough else 200)]
    s = ["%s %d" % (op, n) for op in ("err", "shown", "current", "option") for n in nums]
    for _ in range(5000 if c.thorough else 500):
        a, b = r.choice(nums), r.choice(nums)
        s.append("cmp %d %d" % (a, r.choice([a, a + 1, b, b, b])))
    c.validate("IoerrTrace", c.drive_par(exe, s, tag="ioerr"), "ioerr", exe, env={"ERRORS": path})
