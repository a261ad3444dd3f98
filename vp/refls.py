"""Generated structs and enums, their reflections, and questions about those."""

HEAD = '#include "refl.h"\n'
# code: (C++ type, can be assigned, prints as a number, has a default)
KINDS = {1: ("short", 1, 1, 1), 2: ("unsigned char", 1, 1, 1), 3: ("int", 1, 1, 1), 4: ("long", 1, 1, 1),
         5: ("best::option<int>", 1, 0, 1), 6: ("best::strbuf", 1, 0, 1), 7: ("best::vec<int>", 1, 0, 1),
         8: ("Duo", 1, 0, 1), 9: ("NoDef", 1, 0, 0), 10: ("Mover", 1, 0, 0), 11: ("best::box<int>", 1, 0, 0)}
WORDS = ["a", "b", "x", "y", "id", "name", "Name", "value", "size", "ab", "aa", "a_", "_a", "zed", "data9", "i", "first",
         "second", "begin", "end", "type", "self", "item", "very_long_field_name", "k", "n", "A", "B", "Zed", "tag"]
SPACES = ["app", "app::impl", "lib", "x::y::z"]
PARAMS = [("int", "<int>"), ("app::Arg", "<app::Arg>"), ("lib::Tm<int>", "<lib::Tm<int>>"), ("3", "<3>"),
          ("lib::Tm<app::Arg>", "<lib::Tm<app::Arg>>"), ("best::row<int, short>", None)]
PRE = """namespace app { struct Arg {}; }
namespace lib { template <class T> struct Tm { T t; }; }
"""


def b(s):
    return list(s.encode())


class Decl:
    def __init__(self, r, k, big=0):
        self.r, self.k, self.big = r, k, big
        self.enum = not big and r.random() < .35
        self.id = ("E%d" if self.enum else "S%d") % k
        self.where()
        (self.make_enum if self.enum else self.make_struct)()
        self.ops()
        self.emit()

    # Path components (name, parameters) and the code around the declaration.
    def where(self):
        r = self.r
        sp = r.choice(["", ""] + SPACES)
        comps = [[x, ""] for x in sp.split("::")] if sp else []
        self.open = "namespace %s {\n" % sp if sp else ""
        self.close = "}\n" if sp else ""
        self.tail = ""
        self.anon = self.enum and r.random() < .2
        if self.anon:
            comps.append(["(anonymous namespace)", ""])
            self.open += "namespace {\n"
            self.close = "}\n" + self.close
        self.scope = "::".join(c[0] for c in comps if c[0][0] != "(")
        outer = r.choice(["", "", "", "", "class", "template", "template2"])
        self.outer = outer
        if outer:
            n = "O%d" % self.k
            t, p = ("", "") if outer == "class" else r.choice([x for x in PARAMS if x[1] and x[0] != "3"])
            if outer == "template2":
                t, p = t + ", 7", p[:-1] + ", 7>"
            self.open += {"class": "", "template": "template <class X> ", "template2": "template <class X, int N> "}[outer]
            self.open += "struct %s {\n" % n
            self.close = "};\n" + self.close
            self.scope += ("::" if self.scope else "") + n + ("<%s>" % t if t else "")
            comps.append([n, p])
        # Is the type itself a template?
        self.targ = None
        mine = ""
        if not self.enum and r.random() < .25:
            t, p = r.choice([x for x in PARAMS if x[1]])
            self.targ, mine = t, p
        comps.append([self.id, mine])
        self.comps = comps
        self.type = (self.scope + "::" if self.scope else "") + self.id + ("<%s>" % self.targ if self.targ else "")
        self.type = "::" + self.type

    def make_struct(self):
        r = self.r
        n = self.big or r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 8])
        names = ["f%d_%s" % (j, r.choice(WORDS)) for j in range(n)] if n > 20 else r.sample(WORDS, n)
        plain = r.random() < .4
        self.items = []
        for w in names:
            code = r.choice([1, 2, 3, 4] if plain or self.big else list(KINDS))
            t = KINDS[code][0]
            if r.random() < .1 and code not in (10, 11):
                code, t = code + 100, "const " + t
            self.items.append(dict(n=w, t=t, c=code))
        self.plain = all(KINDS[x["c"] % 100][2] for x in self.items)
        # Members of reference type have no member pointers: not reflected.
        self.refs = not self.big and n and r.random() < .12
        if self.refs:
            for x in self.items:
                if x is self.items[0] or r.random() < .3:
                    x.update(t=r.choice(["int&", "const int&", "int&&", "Duo&", "const best::strbuf&"]), c=0)
            r.shuffle(self.items)

    def make_enum(self):
        r, self.refs = self.r, False
        self.scoped = r.random() < .7
        self.base = r.choice(["", "", ": int", ": short", ": unsigned char", ": long"])
        if not self.scoped and not self.base:
            self.base = ": int"
        lo = 0 if "unsigned" in self.base else -5
        names = r.sample(WORDS, r.choice([0, 1, 2, 3, 4, 5, 6]))
        if not self.scoped:
            names = ["%s_%d" % (w, self.k) for w in names]
        self.items, seen = [], []
        for w in names:
            x = r.choice([0, 1, 2, 3, 5, 7, 62, 63, 64, 65, 100, 127, lo, lo + 1] + seen[:1])
            seen.append(x)
            self.items.append(dict(n=w, x=x))
        self.plain = True

    def ops(self):
        r = self.r
        self.steps = []
        self.default = r.random() < .2 or self.big or self.refs
        if self.enum:
            # Keys are values; of several names for one value, the first counts.
            keys = sorted({x["x"] for x in self.items})
        else:
            keys = list(range(len(self.items)))
        base = keys
        if self.default:
            self.steps = [dict(o=0, k=0, e=64, t=[])]
            return
        present, removable = [], []
        for _ in range(r.choice([1, 2, 3, 4, 5, 7])):
            c = r.random()
            if c < .22 or not self.steps and c < .7:
                lo, n = 0, 64
                if self.enum and r.random() < .4:
                    lo, n = r.choice([0, 1, 2, 60, 64]), r.choice([0, 1, 3, 5, 70])
                self.steps.append(dict(o=0, k=lo, e=lo + n, t=[]))
                present = [x for x in base if not self.enum or lo <= x < lo + n]
            elif c < .4:
                self.steps.append(dict(o=1, k=0, e=0, t=self.tags(1)))
            elif c < .8 and keys:
                x = r.choice(keys)
                self.steps.append(dict(o=2, k=x, e=0, t=self.tags(0)))
                present = [y for y in present if y != x] + [x] if x not in present else present
            elif present:
                x = r.choice(present)
                self.steps.append(dict(o=3, k=x, e=0, t=[]))
                present = [y for y in present if y != x]

    def tags(self, least):
        r = self.r
        return [[r.choice([1, 2, 3, 4]), r.randrange(1, 90)] for _ in range(max(least, r.choice([0, 1, 1, 2, 3])))]

    # --- code ---
    def chain(self):
        out = "m"
        for s in self.steps:
            t = ["%d" % v if c == 4 else "%s{%d}" % ({1: "One", 2: "Two", 3: "Three"}[c], v) for c, v in s["t"]]
            if s["o"] == 0:
                out += ".infer()" if not self.enum or (s["k"], s["e"]) == (0, 64) else (
                    ".template infer<best::bounds{.start = %d, .end = %d}>()" % (s["k"], s["e"]))
            elif s["o"] == 1:
                out += ".with(%s)" % ", ".join(t)
            else:
                out += ".%s(%s)" % ("with" if s["o"] == 2 else "hide", ", ".join([self.ref(s["k"])] + t))
        return out

    def ref(self, key):
        if self.enum:
            n = [x["n"] for x in self.items if x["x"] == key][0]
            return "%s::%s" % (self.id, n)
        return "&%s::%s" % (self.id, self.items[key]["n"])

    def emit(self):
        k = self.k
        fun = "" if self.default or not self.steps and self.enum else (
            "constexpr auto BestReflect(auto& m, %s*) { return %s; }\n" % (self.id, "BEST_CHAIN%d" % k))
        self.none = not self.default and not self.steps
        if not self.steps:
            fun, self.default, self.steps = "", True, [dict(o=0, k=0, e=64, t=[])]
        if all(s["o"] != 0 for s in self.steps):
            # `m` itself cannot be returned, but with() of nothing can be.
            pass
        fun = fun.replace("BEST_CHAIN%d" % k, self.chain())
        out = self.open
        if self.enum:
            out += "enum %s%s%s { %s };\n" % ("class " if self.scoped else "", self.id, self.base,
                                             ", ".join("%s = %d" % (x["n"], x["x"]) for x in self.items))
            out += ("friend " if self.outer else "") + fun if fun else ""
        else:
            tm = "" if not self.targ else "template <int> " if self.targ == "3" else "template <class> "
            body = "".join("  %s %s;\n" % (x["t"], x["n"]) for x in self.items)
            inside = fun and (self.outer or self.targ or self.r.random() < .6)
            out += "%sstruct %s {\n%s%s};\n" % (tm, self.id, body, "  friend " + fun if inside else "")
            if fun and not inside:
                out += fun
        out += self.close
        T = self.type
        d = "struct D%d {\n  using T = %s;\n  static constexpr bool Plain = %d;\n" % (k, T, self.plain)
        if self.enum:
            d += "  static T make(int) { return T(%d); }\n" % (self.items[0]["x"] if self.items else 0)
            self.probe = sorted({x["x"] for x in self.items} | {0, 4, 6})
            d += "  static constexpr best::vlist<%s> probes{};\n" % ", ".join("T(%d)" % x for x in self.probe)
        elif self.refs:
            d += "  static T make(int);\n  static constexpr auto members = std::make_tuple();\n"
        else:
            big = len(self.items) > 64
            d += "  static T make(int i) { return T{%s}; }\n" % ", ".join(
                "Kind<%s>::make(i + %d)" % (x["t"], j + 1) for j, x in enumerate(self.items))
            d += "  static constexpr auto members = std::make_tuple(%s);\n" % ("" if big else ", ".join(
                "&T::" + x["n"] for x in self.items))
            d += "  static void fname(C& c, int at) { switch (at) {\n%s  } }\n" % "".join(
                "    case %d: return text(c, best::field_name<&T::%s>);\n" % (j, x["n"]) for j, x in enumerate(self.items[:12]))
        self.code = out + d + "};\n"
        self.case = "    case %d: return on_%s<D%d>(c);\n" % (k, "enum" if self.enum else "struct", k)

    def json(self):
        return dict(enum=int(self.enum), comps=[[b(n), b(p)] for n, p in self.comps],
                    refl=int(not self.refs and len(self.items) <= 64), items=[dict(n=b(x["n"]), x=x["x"], c=0) for x in self.items] if self.enum else
                    [dict(n=b(x["n"]), x=j, c=x["c"]) for j, x in enumerate(self.items)],
                    steps=self.steps)

    # --- questions ---
    def script(self):
        r, k, out = self.r, self.k, []
        q = lambda op, *a: out.append("%s %d %s" % (op, k, " ".join(map(str, a))))
        q("names"), q("is")
        names = [x["n"] for x in self.items]
        if not self.enum:
            if self.refs or len(names) > 64:
                return out
            for j in range(min(12, len(names))):
                q("fname", j)
        for s in range(1, 7):
            q("ttags", s), q("itags", s)
        q("each"), q("apply")
        if self.plain:
            q("fmt")
        near = set(names[:20]) | {""}
        for n in names[:20]:
            near |= {n[:-1], n + r.choice("ab_9"), n.swapcase(), n[1:]}
        near |= set(r.sample(WORDS, 3))
        for n in sorted(near):
            q("match", len(b(n)), *b(n))
        if self.enum:
            lo, hi = (0, 255) if "unsigned" in self.base else (-100, 127)
            for x in sorted({x["x"] for x in self.items} | {0, 1, 4, 63, 64, lo, hi}):
                q("matchv", x), q("vfmt", x)
            for j in range(len(self.probe)):
                q("vname", j, self.probe[j])
        else:
            q("cats")
            for n in sorted(near)[:12]:
                q("set", r.randrange(60, 99), len(b(n)), *b(n))
            for n in (1, 2, 3):
                q("zip", n), q("fields", n)
        return out


def program(r, n, part=0):
    # Some structs are as large as can be reflected, or larger.
    decls = [Decl(r, k, big={0: {0: 64, 1: 65, 2: 63, 3: 70}.get(part % 8, 0)}.get(k, 0)) for k in range(n)]
    text = HEAD + PRE + "".join(d.code for d in decls) + "void exec(C& c) {\n  switch (c.arg()) {\n" + "".join(
        d.case for d in decls) + "  }\n}\nint main(int argc, char** argv) { return drv::run(argc, argv, exec); }\n"
    return text, sum((d.script() for d in decls), []), [d.json() for d in decls]
