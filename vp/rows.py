"""Generated programs that rearrange rows and type lists."""

BASE = {1: "E<1>", 2: "E<2>", 3: "E<3>", 4: "E<4>", 5: "E<5>", 8: "void", 9: "Key"}


def cpp(t):
    if t >= 100:
        return "best::val<%d>" % (t - 100)
    b = BASE[t % 10]
    return {0: "%s", 1: "const %s&", 2: "%s&", 3: "const %s&&", 4: "%s&&"}[t // 10] % b


def types(ts):
    return ", ".join(cpp(t) for t in ts)


def shape(r, n, q, refs=True, void=True):
    """Types of the elements of a row that can be taken as `q`."""
    pool = [1, 1, 2, 2, 3, 4] + [8] * void + [21, 12, 21] * refs + [5] * (q == 3)
    return [r.choice(pool) for _ in range(n)]


def bounds(r, n):
    """C++ of bounds within n elements, and their encoding: start, kind, value."""
    s = r.randrange(n + 1)
    e = r.randrange(s, n + 1)
    k = r.choice([0, 1, 1, 2, 2] + [3] * (e > s))
    return spell(s, k, {0: 0, 1: e, 2: e - s, 3: e - 1}[k])


def spell(s, k, v):
    f = [".start = %d" % s] if s else []
    f += [[], [".end = %d" % v], [".count = %d" % v], [".including_end = %d" % v]][k]
    return "best::bounds{%s}" % ", ".join(f), [s, k, v]


ROWOPS = ["at", "get", "first", "second", "last", "range", "range", "as_ref", "select", "select_indices", "join",
          "plus", "push", "push_bind", "push_types", "insert", "insert_bind", "insert_types", "update",
          "update_bind", "update_types", "splice", "splice", "splice_types", "remove", "erase", "gather", "gather",
          "scatter", "scatter", "scatter_types", "apply", "each", "as_args", "copy", "make", "bind", "selectable",
          "unpack"]
# Operators and functions on lists of types.
LISTOPS = ["tat", "tat", "tjoin", "tpush", "tinsert", "tupdate", "tsplice", "tsplice", "tremove", "terase", "tgather",
           "tscatter", "ttrim_prefix", "ttrim_suffix", "tfind", "tfind_unique", "tunique", "tcmp", "tnth"]


def row_case(r, op, q=None):
    """(C++ statements, arguments) of one case."""
    q = r.randrange(4) if q is None else q
    n = r.choice([0, 1, 2, 3, 3, 4, 5])
    if op in ("at", "get", "first", "last", "update", "update_bind", "update_types", "remove", "unpack", "bind"):
        n = max(n, 1)
    if op == "second":
        n = max(n, 2)
    # A void has no reference, and every pack of arguments needs a value each.
    s = shape(r, n, q, void=op != "unpack")
    if op in ("make", "bind"):
        s = shape(r, n, 3, refs=False, void=False)
    pre = "auto s = make<10%s>(); fresh(s);" % ("".join(", " + cpp(t) for t in s))
    x = "as<%d>(s)" % q
    a = [q, n] + s
    fin = " intact(c, 10, s);" if q != 3 else ""

    def res(e):
        return pre + " { auto x = %s; outrow(c, x); }" % e + fin

    def ref(e):
        return pre + " [&](auto& s) { using T = decltype(%s); if constexpr (std::is_void_v<T>) out1<void>(c, 0); " \
            "else if constexpr (std::is_same_v<T, best::empty>) out1<void>(c, 0); " \
            "else out1<T>(c, %s); }(s);" % (e, e) + fin
    if op in ("at", "get"):
        k = r.randrange(n)
        f = r.choice(["%s.at(best::index<%d>)", "%s[best::index<%d>]", "%s.template at<%d>()"]) if op == "at" else \
            r.choice(["%s.get(best::index<%d>)", "%s.template get<%d>()"])
        return ref(f % (x, k)), a + [k]
    if op in ("first", "second", "last"):
        return ref("%s.%s()" % (x, op)), a
    if op in ("range", "erase"):
        b, eb = bounds(r, n)
        f = r.choice(["%s.at<%s>()", "%s[best::vals<%s>]", "%s.at(best::vals<%s>)"]) if op == "range" else \
            r.choice(["%s.erase<%s>()", "%s.erase(best::vals<%s>)"])
        return res(f % (x, b)), a + eb
    if op in ("as_ref", "copy"):
        if op == "copy":
            return res(x), a
        return res("%s.as_ref()" % x), a
    if op in ("select", "select_indices"):
        k = r.choice([1, 2, 2, 3, 4, 9, 9, 8, 21])
        if op == "select":
            return res("%s.select<%s>()" % (x, cpp(k))), a + [k]
        return pre + " outlist(c, %s.select_indices<%s>().apply([]<auto... i>() { return " \
            "best::types<best::val<(int)i>...>; }));" % ("s", cpp(k)), a + [k]
    if op == "selectable":
        k = r.choice([1, 2, 2, 3, 4, 9, 9, 8, 21])
        return pre + " c.out(decltype(s)::selectable<%s>);" % cpp(k), a + [k]
    if op in ("join", "plus"):
        m = r.choice([0, 1, 2, 3])
        q2 = r.randrange(4)
        t = shape(r, m, q2)
        more = " auto t = make<50%s>(); fresh(t);" % "".join(", " + cpp(y) for y in t)
        e = "%s.join(as<%d>(t))" % (x, q2) if op == "join" else "%s + as<%d>(t)" % (x, q2)
        if op == "join" and r.random() < 0.3 and q < 3:
            # Three at once: the middle one is the first, copied.
            e = "%s.join(as<%d>(s), as<%d>(t))" % (x, q, q2)
            return pre + more + " { auto x = %s; outrow(c, x); }" % e + fin, a + [2, q2, m] + t
        return pre + more + " { auto x = %s; outrow(c, x); }" % e + fin, a + [1, q2, m] + t
    if op.split("_")[0] in ("push", "insert", "update"):
        kind, how = (op.split("_") + ["auto"])[:2]
        t = r.choice([1, 2, 3])
        lv = r.randrange(3)  # 0 const lvalue, 1 lvalue, 2 rvalue
        ref_ = {0: "const %s&", 1: "%s&", 2: "%s&&"}[lv] % cpp(t)
        k = n if kind == "push" else r.randrange(n + (kind == "insert"))
        arg = "(%s)y" % ref_
        w = t
        if how == "bind":
            arg = "best::bind, " + arg
        if how == "types":
            w = r.choice([t, 10 + t] + [20 + t] * (lv == 1))
            arg = "best::types<%s>, %s" % (cpp(w), arg)
        f = "%s.%s(%s)" if kind == "push" else r.choice(["%s.%s<" + str(k) + ">(%s)"] +
                                                       ["%s.%s(%s, best::index<" + str(k) + ">)"])
        return pre + " %s y(90);" % cpp(t) + res(f % (x, kind, arg))[len(pre):], a + [k, t, lv, w]
    if op in ("splice", "splice_types"):
        b, eb = bounds(r, n)
        m = r.choice([0, 1, 2, 3])
        q2 = r.randrange(4)
        t = shape(r, m, q2)
        w = list(t)
        more = " auto t = make<50%s>(); fresh(t);" % "".join(", " + cpp(y) for y in t)
        arg = "as<%d>(t)" % q2
        if op == "splice_types":
            w = [r.choice([y, 10 + y]) if y in (1, 2, 3, 4) else y % 10 if y in (21, 12) and r.random() < .5 else y
                 for y in t]
            # A reference to an element of a row that is itself a temporary reference still refers to it.
            arg = "best::types<%s>, " % types(w) + arg
        f = r.choice(["%s.splice<" + b + ">(%s)", "%s.splice(%s, best::vals<" + b + ">)"])
        return pre + more + res(f % (x, arg))[len(pre):], a + eb + [q2, m] + t + w
    if op == "remove":
        k = r.randrange(n)
        return res(r.choice(["%s.remove<%d>()", "%s.remove(best::index<%d>)"]) % (x, k)), a + [k]
    if op == "gather":
        ks = r.sample(range(n), r.randrange(n + 1)) if q == 3 else [r.randrange(n) for _ in range(r.randrange(n + 2))] \
            if n else []
        l = ", ".join(map(str, ks))
        f = "%s.gather<%s>()"
        if r.random() < .5 or not ks:
            f, l = "%s.gather(best::vals<%s>)", ", ".join("size_t(%d)" % k for k in ks)
        return res(f % (x, l)), a + [len(ks)] + ks
    if op in ("scatter", "scatter_types"):
        ks = r.sample(range(n), r.randrange(n + 1))
        m = len(ks) + (r.random() < .3) * (op == "scatter")
        q2 = r.randrange(4)
        t = shape(r, m, q2)
        w = list(t)
        more = " auto t = make<50%s>(); fresh(t);" % "".join(", " + cpp(y) for y in t)
        arg = "as<%d>(t)" % q2
        if op == "scatter_types":
            w = [r.choice([y, 10 + y]) if y in (1, 2, 3, 4) else y for y in t]
            arg = "best::types<%s>, " % types(w) + arg
        l = ", ".join("size_t(%d)" % k for k in ks)
        f = "%s.scatter<" + l + ">(%s)" if ks and r.random() < .5 else "%s.scatter(%s, best::vals<" + l + ">)"
        return pre + more + res(f % (x, arg))[len(pre):], a + [len(ks)] + ks + [q2, m] + t + w
    if op == "apply":
        return pre + " { int x = %s.apply(Sink{c}); c.out(x); }" % x + fin, a
    if op == "each":
        return pre + " %s.each([&]<typename... T>(T&&... x) { if constexpr (sizeof...(T) == 0) Sink{c}(best::empty{}); " \
            "else Sink{c}((T&&)x...); });" % x + fin, a
    if op == "as_args":
        return pre + " { auto x = %s.as_args(); outrow(c, x.row); }" % x + fin, a
    if op == "unpack":
        names = ", ".join("x%d" % j for j in range(n))
        cast = {0: "const auto&", 1: "auto&", 2: "const auto&&", 3: "auto&&"}[q]
        outs = " ".join("out1<decltype(x%d)>(c, x%d);" % (j, j) for j in range(n))
        return pre + " { %s [%s] = %s; %s }" % (cast, names, x, outs) + fin, a
    if op in ("make", "bind"):
        lv = [r.randrange(3) for _ in s]
        decl = " ".join("%s y%d(%d);" % (cpp(t), j, 10 + j) for j, t in enumerate(s))
        args = ", ".join("(%s)y%d" % ({0: "const %s&", 1: "%s&", 2: "%s&&"}[l if s[j] != 5 or op == "bind" else 2] %
                                      cpp(s[j]), j) for j, l in enumerate(lv))
        lv = [l if s[j] != 5 or op == "bind" else 2 for j, l in enumerate(lv)]
        e = "best::row(%s)" % args if op == "make" else "best::row(best::bind%s)" % (args and ", " + args)
        return decl + " { auto x = %s; outrow(c, x); }" % e, a + lv


def list_case(r, op):
    n = r.choice([0, 1, 2, 3, 4, 5])
    pool = [1, 2, 3, 8, 21, 12]
    vals = r.random() < .3
    if vals:
        pool = [100, 101, 102, 103]

    def lst(n):
        return [r.choice(pool) for _ in range(n)]

    s = lst(n)
    L = "best::types<%s>" % types(s)
    a = [n] + s
    D = 9  # The default for what does not exist.
    dl = "best::tlist<Key>"

    def anyb():
        """Bounds that may be out of range."""
        if r.random() < .7:
            return bounds(r, n)
        return spell(*r.choice([(n + 1, 0, 0), (0, 1, n + 1), (0, 2, n + 1), (n, 2, 1), (0, 3, n), (n + 2, 2, 0),
                                (max(n, 1), 1, max(n, 1) - 1)]))
    if op == "tat":
        b, eb = anyb()
        return "outlist(c, %s.at<%s, %s>());" % (L, b, dl), a + eb
    if op == "tnth":
        k = r.randrange(n + 2)
        return "c.out(Code<decltype(%s)::type<%d, Key>>::value);" % (L, k), a + [k]
    if op == "tjoin":
        t, u = lst(r.randrange(4)), lst(r.randrange(3))
        return "outlist(c, %s.join(best::types<%s>, best::types<%s>));" % (L, types(t), types(u)), \
            a + [len(t)] + t + [len(u)] + u
    if op in ("tpush", "tinsert", "tupdate"):
        w = r.choice(pool)
        y = str(w - 100) if vals and r.random() < .5 else cpp(w)
        if op == "tpush":
            return "outlist(c, %s.push<%s>());" % (L, y), a + [w]
        k = r.randrange(n + 2)
        if op == "tinsert":
            return "outlist(c, %s.insert<%d, %s, %s>());" % (L, k, y, dl), a + [k, w]
        return "outlist(c, %s.update<%d, %s>());" % (L, k, y), a + [k, w]
    if op == "tsplice":
        b, eb = anyb()
        t = lst(r.randrange(4))
        return "outlist(c, %s.splice<%s, %s>(best::types<%s>));" % (L, b, dl, types(t)), a + eb + [len(t)] + t
    if op == "tremove":
        k = r.randrange(n + 2)
        return "outlist(c, %s.remove<%d, %s>());" % (L, k, dl), a + [k]
    if op == "terase":
        b, eb = anyb()
        return "outlist(c, %s.erase<%s, %s>());" % (L, b, dl), a + eb
    if op == "tgather":
        ks = [r.randrange(n + (r.random() < .15) or 1) for _ in range(r.randrange(n + 2))]
        return "outlist(c, %s.gather<%s>());" % (L, ", ".join(["Key"] + list(map(str, ks)))), a + [len(ks)] + ks
    if op == "tscatter":
        ks = r.sample(range(n + 1), r.randrange(n + 1)) if r.random() < .4 else r.sample(range(n), r.randrange(n + 1))
        t = lst(len(ks))
        return "outlist(c, %s.scatter<%s>(best::types<%s>));" % (L, ", ".join(map(str, ks)), types(t)), \
            a + [len(ks)] + ks + t
    if op in ("ttrim_prefix", "ttrim_suffix"):
        k = r.randrange(n + 1)
        t = (s[:k] if op == "ttrim_prefix" else s[n - k:]) if r.random() < .7 else lst(r.randrange(3))
        return "outlist(c, %s.%s<%s>(best::types<%s>));" % (L, op[1:], dl, types(t)), a + [len(t)] + t
    if op in ("tfind", "tfind_unique"):
        # Not to be looked for in an empty list.
        n = n or 1
        s = s or lst(1)
        L, a = "best::types<%s>" % types(s), [n] + s
        w = r.choice(pool)
        if vals and n and r.random() < .7:
            return "outopt(c, %s.%s(%d));" % (L, op[1:], w - 100), a + [w]
        return "outopt(c, %s.%s<%s>());" % (L, op[1:], cpp(w)), a + [w]
    if op == "tunique":
        return "c.out(%s.is_unique());" % L, a
    if op == "tcmp":
        k = r.randrange(n + 1)
        t = s[:k] + lst(r.randrange(2)) if r.random() < .8 else lst(r.randrange(4))
        T = "best::types<%s>" % types(t)
        return "c.out(%s == %s); c.out(%s < %s); c.out(%s > %s); c.out(%s <= %s); c.out(%s != %s);" % \
            ((L, T) * 5), a + [len(t)] + t
    raise ValueError(op)


def program(cases):
    out = ['#include "rows.h"', "void exec(C& c) {", "  switch (c.arg()) {"]
    for n, (code, _, _) in enumerate(cases):
        out.append("    case %d: { %s return; }" % (n, code))
    return "\n".join(out + ["  }", "  _exit(98);", "}",
                            "int main(int argc, char** argv) { return drv::run(argc, argv, exec); }", ""])
