"""Format templates, read at run time and by the compiler."""
import itertools
import os
from vp import tmpls
from vp.tmpls import enc, mutate, opens, template


def run(c):
    c.model("FmtMC", "FmtMC3.cfg" if c.thorough else "FmtMC.cfg")
    c.model("FmtMC", "FmtMCneg.cfg", expect_error="Laws is violated")
    r = c.rng
    parts = [tmpls.Program(r, 250, 100) for _ in range(24 if c.thorough else 4)]
    specs = [dict(name="template")]
    for n, p in enumerate(parts):
        src = os.path.join(c.dir, "tmpl%d.cc" % n)
        with open(src, "w") as f:
            f.write(p.text())
        specs.append(dict(name="tmpl%d" % n, src=src, opt="-O0"))
    exe, *exes = c.build_many(specs)

    s = []
    # Every short template of each of a few forms.
    for pre, alpha, post, n in [(b"", b"{}:0a", b"", 5), (b"{", b"{}:01x?", b"}", 4), (b"{:", b"<0#1.x?", b"}", 4),
                                (b"{:", b">^#02xq", b"?}", 3), (b"{:", b"{}:<05.x?!", b"", 3), (b"{1:", b"<0#9.bX?!", b"}{}", 3)]:
        for k in range(n + 1 + (1 if c.thorough else 0)):
            for w in itertools.product(alpha, repeat=k):
                s.append("parse " + enc(pre + bytes(w) + post))
    big = [b"4294967294", b"4294967295", b"4294967296", b"4294967297", b"4294967301", b"18446744073709551616",
           b"18446744073709551617", b"9999999999999999999999", b"42949672950", b"2147483648", b"0000000001", b"00", b"0"]
    for n in big:
        for f in [b"{%s}", b"{%s:x}", b"{:%s}", b"{:<%s}", b"{:0%s}", b"{:.%s}", b"{:.%sx?}", b"{:#%s.%s}", b"{%s", b"{:%s", b"{:.%s"]:
            s.append("parse " + enc(f.replace(b"%s", n)))
    for _ in range(60000 if c.thorough else 6000):
        t = template(r, r.choice([1, 2, 12]), r.randrange(6))
        if r.random() < .5:
            t = mutate(r, t)
        s.append("parse " + enc(t))
        if r.random() < .5:
            n = r.choice([0, 1, 2, 3, 3])
            t = template(r, n, r.randrange(4))
            if r.random() < .2:
                t = mutate(r, t)
            if b"\0" not in t:
                qs = [[r.random() < .3, r.random() < .6, r.random() < .6, r.choice([0, 1, 2, 3, 4, 4, 4])] for _ in range(n)]
                s.append("check %d %s %s" % (n, " ".join(str(int(x)) for q in qs for x in q), enc(t)))
    ev = c.drive_par(exe, s, tag="template")
    for e in ev:
        e["loose"] = opens(bytes(x for x in e["a"] if x < 256))
    c.validate("FmtTrace", ev, "template", exe)
    for exe, p, n in zip(exes, parts, range(99)):
        ev = c.drive_par(exe, p.s, tag="tmpl%d" % n)
        for e in ev:
            if e["op"] == "static":
                e["loose"] = opens(bytes(x for x in e["a"][2 + 4 * e["a"][1]:] if x < 256))
        c.validate("FmtTrace", ev, "tmpl%d" % n, exe)
