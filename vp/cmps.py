"""Pairs of types whose values compare, and the terms of those values."""

# Leaves: i an int, l a long, d a double, s a str, S a strbuf, b/c an unsigned/signed char, n a short.
LEAF = {"i": "int", "l": "long", "d": "double", "s": "str", "S": "strbuf", "b": "unsigned char",
        "c": "signed char", "n": "short", "v": "void", "R": "int&", "K": "const int&"}


def cpp(t):
    """The C++ type; a type is a leaf or (kind, parts...)."""
    if isinstance(t, str):
        return LEAF[t]
    k, p = t[0], t[1:]
    sub = ", ".join(cpp(x) for x in p if not isinstance(x, int))
    return {"o": "option<%s>", "c": "choice<%s>", "r": "result<%s>", "t": "row<%s>", "v0": "vec<%s, 0>",
            "v": "vec<%s>", "v4": "vec<%s, 4>", "x": "box<%s>", "xa": "box<%s[]>", "sp": "span<%s>",
            "sc": "span<const %s>",
            "none": "None%s", "ok*": "OkAny%s", "err*": "ErrAny%s", "ptr": "Ptr<%s>", "ok": "Ok<%s>",
            "err": "Err<%s>", "a0": "Bare<0, %s>", "a1": "Bare<1, %s>", "arr2": "Arr<%s, 2>",
            "sp2": "span<%s, 2>"}[k] % sub


def term(r, t):
    """A random value of the type."""
    if isinstance(t, str):
        if t in "iln":
            return [0, r.choice([0, 0, 1, 1, 2, -1, -2, 300, -300])]
        if t in "RK":
            return [0, r.choice([0, 1, 1, 2, -1])]
        if t == "b":
            return [0, r.choice([0, 1, 127, 128, 255, 255])]
        if t == "c":
            return [0, r.choice([0, 1, 127, -128, -1, -1])]
        if t == "d":
            return r.choice([[0, 0], [0, 1], [0, -1], [0, 1], [9]])
        if t == "v":
            return [3]
        n = r.choice([0, 1, 1, 2, 2, 3])
        return [2, n] + sum(([0, r.choice([97, 97, 98])] for _ in range(n)), [])
    k, p = t[0], t[1:]
    if k == "o":
        return [1, 0, 3] if r.random() < 0.3 else [1, 1] + term(r, p[0])
    if k in "cr":
        w = r.randrange(len(p))
        return [1, w] + term(r, p[w])
    if k == "t":
        return [2, len(p)] + sum((term(r, x) for x in p), [])
    if k == "x":
        return term(r, p[0])
    if k in ("v", "v0", "v4", "xa", "sp", "sc", "arr2", "sp2"):
        n = 2 if k in ("arr2", "sp2") else r.choice([0, 1, 1, 2, 2, 3])
        return [2, n] + sum((term(r, p[0]) for _ in range(n)), [])
    if k == "none":
        return [5]
    if k == "ok*":
        return [6, 0]
    if k == "err*":
        return [6, 1]
    if k == "ptr":
        return [5] if r.random() < 0.3 else [4, 1] + term(r, p[0])
    return [4, {"ok": 0, "a0": 0}.get(k, 1)] + term(r, p[0])


def near(r, t):
    """Two values of the type that differ in (at most) one place."""
    if not isinstance(t, str):
        k, p = t[0], t[1:]
        if k in "cr" or k == "t" or k == "o" and r.random() < .8:
            w = r.randrange(len(p)) if p else 0
            if k == "t":
                xs = [term(r, x) for x in p]
                ys = list(xs)
                if p:
                    xs[w], ys[w] = near(r, p[w])
                return [2, len(p)] + sum(xs, []), [2, len(p)] + sum(ys, [])
            x, y = near(r, p[w])
            return [1, 1 if k == "o" else w] + x, [1, 1 if k == "o" else w] + y
        if k in ("v", "v0", "v4", "xa", "sp", "sc"):
            xs = [term(r, p[0]) for _ in range(r.choice([1, 2, 3, 5, 9, 17]))]
            ys = list(xs)
            w = r.randrange(len(xs))
            xs[w], ys[w] = near(r, p[0])
            return [2, len(xs)] + sum(xs, []), [2, len(ys)] + sum(ys, [])
        if k == "x":
            return near(r, p[0])
    return term(r, t), term(r, t)


# (left, right, whether they are ordered)
PAIRS = [
    (("o", "i"), ("o", "i"), 1), (("o", "i"), ("o", "l"), 1), (("o", "i"), ("a1", "i"), 1),
    (("o", "i"), ("a1", "l"), 1), (("o", "i"), ("none",), 1), (("o", "d"), ("o", "d"), 1),
    (("o", "d"), ("a1", "d"), 1), (("o", "i"), ("o", "d"), 1), (("o", "R"), ("o", "i"), 1),
    (("o", "R"), ("o", "R"), 1), (("o", "R"), ("ptr", "i"), 1), (("o", "K"), ("ptr", "i"), 1),
    (("o", "K"), ("o", "R"), 1), (("o", "R"), ("a1", "i"), 1), (("o", "v"), ("o", "v"), 1),
    (("o", "v"), ("none",), 1), (("o", ("o", "i")), ("o", ("o", "i")), 1), (("o", "s"), ("o", "s"), 1),
    (("o", "s"), ("a1", "s"), 1), (("o", "s"), ("o", "S"), 1), (("o", ("x", "i")), ("o", ("x", "i")), 1),
    (("o", ("v", "i")), ("o", ("v", "i")), 1), (("o", ("t", "i", "i")), ("o", ("t", "i", "i")), 1),
    (("o", ("c", "i", "v")), ("o", ("c", "i", "v")), 1), (("o", ("o", "i")), ("none",), 1),
    (("c", "i", "d", "v"), ("c", "i", "d", "v"), 1), (("c", "i", "i"), ("c", "i", "i"), 1),
    (("c", "i", "i"), ("c", "l", "n"), 1), (("c", "i", "s"), ("c", "l", "S"), 1),
    (("c", "R", "v"), ("c", "R", "v"), 1), (("c", "i"), ("c", "l"), 1), (("c", "v", "v"), ("c", "v", "v"), 1),
    (("c", "i", "i", "v", "s", "d"), ("c", "i", "i", "v", "s", "d"), 1),
    (("c", ("o", "i"), ("v", "d")), ("c", ("o", "i"), ("v", "d")), 1),
    (("r", "i", "s"), ("r", "i", "s"), 1), (("r", "i", "s"), ("r", "l", "s"), 1),
    (("r", "i", "s"), ("a0", "i"), 1), (("r", "i", "s"), ("a1", "s"), 1), (("r", "i", "s"), ("ok", "i"), 1),
    (("r", "i", "s"), ("ok", "l"), 1), (("r", "i", "s"), ("err", "s"), 1), (("r", "i", "s"), ("ok*",), 1),
    (("r", "i", "s"), ("err*",), 1), (("r", "v", "i"), ("r", "v", "i"), 1), (("r", "i", "v"), ("r", "l", "v"), 1),
    (("r", "d", "s"), ("r", "d", "s"), 1), (("r", "d", "s"), ("a0", "d"), 1), (("r", "s", "d"), ("err", "d"), 1),
    (("r", "i", "i"), ("r", "i", "i"), 1), (("r", "v", "i"), ("ok*",), 1), (("r", "v", "i"), ("a1", "i"), 1),
    (("r", "v", "s"), ("err", "s"), 1),
    (("t", "i", "i"), ("t", "i", "i"), 1), (("t", "i", "d", "i"), ("t", "i", "d", "i"), 1), (("t",), ("t",), 1),
    (("t", "i", "i", "i"), ("t", "i", "i", "i"), 1),
    (("t", "i", "i", "i", "i", "i"), ("t", "i", "i", "i", "i", "i"), 1),
    (("t", "i", "s", "i", "d", "i", "l", "i"), ("t", "i", "s", "i", "d", "i", "l", "i"), 1),
    (("c", "i", "i", "i", "i", "i", "i", "v", "i"), ("c", "i", "i", "i", "i", "i", "i", "v", "i"), 1),
    (("t", "i", "s"), ("t", "l", "S"), 1), (("t", "R", "i"), ("t", "i", "i"), 1),
    (("t", ("t", "i"), "i"), ("t", ("t", "i"), "i"), 1), (("t", "i"), ("t", "l"), 1),
    (("t", ("o", "i"), ("v", "i")), ("t", ("o", "i"), ("v", "i")), 1), (("t", "v", "i"), ("t", "v", "i"), 1),
    (("x", "i"), ("x", "i"), 1), (("x", "i"), ("x", "l"), 1), (("x", "i"), "i", 1), (("x", "d"), "d", 1),
    (("x", "d"), ("x", "d"), 1), (("xa", "i"), ("xa", "i"), 1), (("xa", "i"), ("sc", "i"), 1),
    (("x", ("o", "i")), ("x", ("o", "i")), 1), (("x", "s"), "s", 1), (("x", ("x", "i")), ("x", ("x", "i")), 1),
    (("v", "i"), ("v", "i"), 1), (("v", "i"), ("v", "l"), 1), (("v0", "i"), ("v4", "i"), 1),
    (("v", "i"), ("sp", "i"), 1), (("v", "i"), ("sc", "i"), 1), (("v", "i"), ("arr2", "i"), 1),
    (("v", ("v", "i")), ("v", ("v", "i")), 1), (("v", ("o", "i")), ("v", ("o", "i")), 1),
    (("v", "d"), ("v", "d"), 1), (("v", "b"), ("v", "b"), 1), (("v", "c"), ("v", "c"), 1),
    (("v", ("t", "i", "i")), ("v", ("t", "i", "i")), 1), (("v", "s"), ("v", "s"), 1),
    (("sp", "i"), ("sc", "i"), 1), (("sp2", "i"), ("sp", "i"), 1), (("sp", "b"), ("sp", "b"), 1),
    (("sp", "c"), ("sc", "c"), 1), (("sp", "d"), ("sp", "d"), 1), (("sp", "i"), ("sp", "l"), 1),
    (("v", "b"), ("v", "n"), 1), (("sp", "n"), ("sp", "n"), 1),
]


def header(which=None):
    return "".join("PAIR(%d, %s, %s)\n" % (n, cpp(a), cpp(b)) for n, (a, b, _) in enumerate(PAIRS)
                   if which is None or n in which)
