"""Command-line declarations: random ones, as programs and as data."""
import json
HEAD = """#include <cstring>
#include <memory>
#include "best/cli/parser.h"
#include "drv.h"
using C = drv::Cmd;
using best::cli;
using Args = best::span<const best::pretext<best::wtf8>>;
void show(C& c, bool x) { c.out(1).out(x); }
void show(C& c, int16_t x) { c.out(1).out(x); }
void show(C& c, uint8_t x) { c.out(1).out(x); }
void show(C& c, best::rune x) { c.out(1).out(x.to_int()); }
void show(C& c, const best::str& x) {
  c.out(x.size());
  for (size_t i = 0; i < x.size(); ++i) c.out((unsigned char)x.data()[i]);
}
void show(C& c, const best::strbuf& x) { show(c, x.as_text()); }
void slot(C& c, const auto& x) { c.out(1); show(c, x); }
template <typename T> void slot(C& c, const best::option<T>& x) {
  c.out(x.has_value());
  if (x) show(c, *x);
}
template <typename T> void slot(C& c, const best::vec<T>& x) {
  c.out(x.size());
  for (const auto& y : x) show(c, y);
}
void fail(C& c, const best::cli::error& e) {
  if (e.is_fatal()) { c.kind("err"); return; }
  // The second line of a usage text says what it is about.
  std::string s(e.message().data(), e.message().size());
  auto n = s.find('\\n');
  c.kind("help").out(n == s.npos || s.compare(n + 1, 2, "[[") ? -1 : atoi(s.c_str() + n + 3));
}
"""
TAIL = """  }
  _exit(98);
}
int main(int argc, char** argv) {
  return drv::run(argc, argv, [](C& c) {
    size_t d = c.arg();
    std::vector<std::string> mem;
    size_t n = c.arg();
    for (size_t i = 0; i < n; ++i) mem.push_back(c.bytes());
    // Exact copies, so that reading past one is noticed.
    std::vector<std::unique_ptr<char[]>> keep;
    best::vec<best::pretext<best::wtf8>> args;
    for (auto& m : mem) {
      keep.emplace_back(new char[m.size()]);
      memcpy(keep.back().get(), m.data(), m.size());
      args.push(best::pretext<best::wtf8>(best::span(keep.back().get(), m.size())));
    }
    exec(c, d, args.as_span());
  });
}
"""
BOOL, I16, U8, STR, RUNE, BUF = range(6)
KINDS = ["bool", "int16_t", "uint8_t", "best::str", "best::rune", "best::strbuf"]
DEFS = [("true", [1]), ("-7", [-7]), ("200", [200]), ('"d\u00e9"', list("d\u00e9".encode())), ("'r'", [114]),
        ('best::strbuf("old")', list(b"old"))]
ZERO = [("false", [0]), ("0", [0]), ("0", [0]), ('""', []), ("'\\0'", [0]), ('best::strbuf()', [])]
OPT, REQ, REP = range(3)
COUNTS = ["cli::Optional", "cli::Required", "cli::Repeated"]
VIS = ["cli::Public", "cli::Hidden", "cli::Invisible", "cli::Delete"]
WORDS = ["foo", "fo", "foobar", "foo-bar", "foo_bar", "bar", "b-a-r", "no-foo", "out", "output", "x1", "x-y_z", "na\u00efve",
         "help-me", "hel", "add", "commit", "run-all", "run_it", "opt", "O2", "level", "t", "true", "q", "\u732b", "vv"]
LETTERS = "abcdfgijklnopvxyzACDXYZ1?\u00e9\U0001d54f"


def b(s):
    return list(s.encode())


def norm(s):
    return s.replace("_", "-")


class Decl:
    """A random declaration."""

    def __init__(self, r, uid, deep=True):
        self.r, self.uid, self.code, self.n, self.marks = r, uid, [], 0, 0
        while True:
            self.code, self.types, self.n, self.marks = [], [], 0, 0
            root = self.command(r.choice([1, 2, 2, 3]) if deep else 0, False)
            self.slots, self.defs, self.all = [], [], []
            self.root = self.place(root, "", 0)
            if all(map(self.clean, self.all)) and self.slots and (not deep or uid % 2 or any(map(self.folded, self.all))):
                break
        self.name = root["name"]

    # A type: its fields, as (role, field name, tag code, facts).
    def command(self, depth, group):
        r = self.r
        name = "T%d_%d" % (self.uid, self.n)
        self.n += 1
        fields, used = [], set()

        def word(fresh=True):
            for _ in range(50):
                w = r.choice(WORDS)
                if norm(w) not in used:
                    used.add(norm(w))
                    return w
            self.n += 1
            return "w%d" % self.n

        def letter():
            l = r.choice(LETTERS)
            if l in used:
                return ""
            used.add(l)
            return l

        def aliases(vis, some=.25):
            out, code = [], ""
            while r.random() < some:
                w = word()
                v = r.choice([None, None, 0, 1, 2, 3])
                code += ', cli::alias{"%s"%s}' % (w, "" if v is None else ", " + VIS[v])
                if (vis if v is None else v) != 3:
                    out.append(w)
            return out, code

        def count(w, allow=(OPT, REQ, REP)):
            c = r.choice([None, None, None] + list(allow))
            return (REP if w == 2 else OPT) if c is None else c, "" if c is None else ".count = %s, " % COUNTS[c]

        for k in range(r.choice([0, 1, 2, 3, 4, 5]) if depth else r.choice([1, 2, 3, 4])):
            kind = r.choice([BOOL, BOOL, BOOL, I16, I16, U8, STR, STR, RUNE, BUF])
            w = r.choice([0, 0, 0, 1, 2])
            c, ccode = count(w)
            vis = r.choice([0, 0, 0, 0, 0, 1, 2, 3])
            if vis == 3 and c == REQ:
                vis = 0
            l = letter() if r.random() < .55 else ""
            f = "f%d" % k
            if r.random() < .3:
                lw = "field_%d" % k
                f, names = lw, [lw]
                ncode = ""
            else:
                names = [word()]
                ncode = '.name = "%s", ' % names[0]
            al, acode = aliases(vis)
            names = (names if vis != 3 else []) + al
            tag = "cli::flag{%s%s%s%s%s}" % (ncode, ".letter = U'%s', " % l if l else "", ".vis = %s, " % VIS[vis] if vis else "", ccode,
                                           r.choice(['.help = "some\\nhelp"', '.help = "h"', ""]))
            fields.append(("f", f, tag + acode, dict(n=names, l=l if vis != 3 else "", k=kind, w=w, c=c)))
        if depth:
            for k in range(r.choice([0, 1, 1, 2])):
                d = self.child(depth - 1, True)
                # (A group may not lose what it requires.)
                vis = r.choice([0, 0, 0, 1, 2, 3]) if not d["req"] else r.choice([0, 0, 1, 2])
                flat = r.random() < .3
                l = "" if flat else letter() if r.random() < .6 else ""
                names = [] if flat or (l and r.random() < .4) else [word()]
                flat = not l and not names
                al, acode = aliases(vis, .2) if not flat and vis != 3 else ([], "")
                m = self.mark()
                tag = 'cli::group{%s%s%s.help = "[[%d]]\\ngroup"}' % (
                    '.name = "%s", ' % names[0] if names else "", ".letter = U'%s', " % l if l else "",
                    ".vis = %s, " % VIS[vis] if vis else "", m)
                fields.append(("g", "g%d" % k, tag + acode, dict(n=names + al, l=l, flat=int(flat), d=d, m=m, dead=vis == 3)))
            for k in range(r.choice([0, 1, 1, 2])):
                d = self.child(depth - 1, False)
                vis = r.choice([0, 0, 0, 0, 1, 2, 3])
                f = "s%d" % k
                names = [word()]
                ncode = '.name = "%s", ' % names[0]
                if r.random() < .2:
                    f, names, ncode = "sub_%d" % k, ["sub_%d" % k], ""
                al, acode = aliases(vis, .2) if vis != 3 else ([], "")
                m = self.mark()
                if r.random() < .5:
                    hcode = '.help = "[[%d]]"' % m
                else:
                    hcode = '.help = "sub", .about = "[[%d]]\\nmore"' % m
                tag = "cli::subcommand{%s%s%s}" % (ncode, ".vis = %s, " % VIS[vis] if vis else "", hcode)
                fields.append(("u", f, tag + acode, dict(n=names + al, d=d, m=m, dead=vis == 3)))
        if not group:
            stage = 1
            for k in range(r.choice([0, 1, 1, 2, 3])):
                kind = r.choice([BOOL, I16, I16, U8, STR, STR, RUNE, BUF])
                w = r.choice([0, 0, 1, 2])
                # Required ones come first, a repeated one last.
                c, ccode = count(w, [x for x in (REQ, OPT, REP) if (x + 2) % 3 >= (stage + 2) % 3])
                if (c + 2) % 3 < (stage + 2) % 3:
                    continue
                stage = c
                pn = '.name = "P%d", ' % k if r.random() < .4 else ""
                tag = "cli::positional{%s%s}" % (pn, ccode) if ccode or pn or r.random() < .3 else None
                fields.append(("p", "p%d" % k, tag, dict(k=kind, w=w, c=c)))
                if c == REP:
                    break
        # The order of fields means nothing, except among positionals.
        order = sorted(range(len(fields)), key=lambda j: r.random())
        pos = iter([f for f in fields if f[0] == "p"])
        fields = [next(pos) if fields[j][0] == "p" else fields[j] for j in order]
        t = dict(name=name, fields=fields, depth=depth, group=group, m=self.mark() if False else 0,
                 req=any(f[0] == "f" and f[3]["c"] == REQ or f[0] == "g" and f[3]["d"]["req"] for f in fields))
        body = ""
        for role, f, tag, x in fields:
            if role in "fp":
                x["def"] = (DEFS if r.random() < .5 else ZERO)[x["k"]]
                body += "  %s %s%s;\n" % (["%s", "best::option<%s>", "best::vec<%s>"][x["w"]] % KINDS[x["k"]], f,
                                          " = " + x["def"][0] if x["w"] == 0 else "")
            else:
                body += "  %s %s;\n" % (x["d"]["name"], f)
        withs = "".join("\n    .with(&%s::%s, %s)" % (name, f, tag) for _, f, tag, _ in fields if tag)
        app = '.with(cli::app{.about = "[[0]]\\nabout"})'
        self.types.append(t)
        t["text"] = "struct %s {\n%s  constexpr friend auto BestReflect(auto& m, %s*) {\n    return m.infer()%s%s;\n  }\n};\n" % (
            name, body, name, withs, app if not group else "")
        self.code.append(t["text"])
        return t

    def mark(self):
        self.marks += 1
        return self.marks

    def child(self, depth, group):
        same = [t for t in self.types if t["group"] == group and t["depth"] <= depth]
        if same and self.r.random() < .4:
            return self.r.choice(same)
        return self.command(depth, group)

    def folded(self, d):
        """Has a group that is not the first and has a group of its own."""
        return any(not g["flat"] and any(not h["flat"] and h["d"]["f"] for h in g["d"]["g"]) for g in d["g"][1:])

    # An occurrence of a type in the tree: assigns slots.
    def place(self, t, path, m):
        d = dict(f=[], g=[], u=[], p=[], m=m)
        self.all.append(d)
        for role, f, _, x in t["fields"]:
            p = path + "." + f
            if role in "fp":
                s = len(self.slots) + 1
                self.slots.append(p)
                self.defs.append([x["def"][1]] if x["w"] == 0 else [])
                y = dict(k=x["k"], w=x["w"], c=x["c"], s=s)
                if role == "f":
                    y.update(n=[b(norm(n)) for n in x["n"]], l=ord(x["l"]) if x["l"] else 0)
                d[role].append(y)
            else:
                e = self.place(x["d"], p, x["m"])
                if not x["dead"]:
                    y = dict(n=[b(norm(n)) for n in x["n"]], d=e)
                    if role == "g":
                        y.update(l=ord(x["l"]) if x["l"] else 0, flat=x["flat"])
                    d[role].append(y)
        return d

    # All names of a command, with what they mean; rejects declarations that
    # give one name twice.
    def keys(self, d, magic=True):
        out = [(n, f) for f in d["f"] for n in f["n"]] + [(b(chr(f["l"])), f) for f in d["f"] if f["l"]]
        for g in d["g"]:
            if g["flat"]:
                out += self.keys(g["d"], False)
                continue
            inner = self.keys(g["d"])
            for n in g["n"]:
                out += [(n, g)] + [(n + [46] + k, x) for k, x in inner]
            if g["l"]:
                l = b(chr(g["l"]))
                out += [(l, g)] + [(l + k, x) for k, x in inner] + [(l + [46] + k, x) for k, x in inner]
        if magic:
            out += [(b(h), "help") for h in ("help", "h", "help-hidden")]
        return out

    def subs(self, d):
        out = [(n, u) for u in d["u"] for n in u["n"]]
        for g in d["g"]:
            pre = [[]] if g["flat"] else [n + [46] for n in g["n"]] + ([b(chr(g["l"])) + [46]] if g["l"] else [])
            out += [(p + k, u) for p in pre for k, u in self.subs(g["d"])]
        return out

    def clean(self, d):
        ks = [tuple(k) for k, _ in self.keys(d)]
        ss = [tuple(k) for k, _ in self.subs(d)]
        return len(set(ks)) == len(ks) < 120 and len(set(ss)) == len(ss)

    def data(self):
        return json.dumps({"n": len(self.slots), "def": self.defs, "d": self.root})

    def case(self, k):
        return """    case %d: {
      auto r = best::parse_flags<%s>("dir/exe", a);
      if (!r) return fail(c, *r.err());
      %s
      return;
    }
""" % (k, self.name, " ".join("slot(c, (*r)%s);" % p for p in self.slots))

    # -- Argument vectors ---------------------------------------------------
    def value(self, k):
        r = self.r
        ok = {BOOL: ["", "true", "t", "yes", "y", "on", "false", "f", "no", "n", "off", "0", "1", "0x1", "00", "0b001"],
              I16: ["0", "5", "-5", "+3", "0x7f", "-0b11", "32767", "-32768", "017", "0o7"], U8: ["0", "255", "+1", "0xff", "0b1", "0377"],
              STR: ["", "a", "a=b", "-x", "--", "--foo", "=", "\u732b", "foo", "a b"], RUNE: ["a", "\u00e9", "\U0001d54f", "-", "="]}
        ok[BUF] = ok[STR]
        bad = {BOOL: ["2", "TRUE", "tr", "0x2", "-1", "+1", "256", "1x"], I16: ["", "32768", "-32769", "x", "1.5", "0x", "99999999999", "-", "--foo"],
               U8: ["256", "-1", "", "0x100", "+", " 1"], RUNE: ["", "ab", "a\u0301", "\0\0"],
               STR: [b"\xff", b"\xed\xa0\x80", b"a\xc3"]}
        bad[BUF] = bad[STR]
        x = r.choice(ok[k] if r.random() < .85 else bad[k] + ([b"\xed\xa0\x80", b"\x80"] if k == RUNE else []))
        return x if isinstance(x, bytes) else x.encode()

    def spell(self, n):
        s = bytes(n)
        return s.replace(b"-", b"_") if self.r.random() < .15 else s

    def use(self, d):
        """One use of something a command knows."""
        r = self.r
        ks = [(k, x) for k, x in self.keys(d) if x != "help" or r.random() < .15]
        pick = r.random()
        if pick < .2 and self.subs(d):
            return [self.spell(r.choice(self.subs(d))[0])]
        if pick < .35 and d["p"]:
            return [self.value(r.choice(d["p"])["k"])]
        if pick < .42:
            return [r.choice([b"-", b"--", b"---", b"", b"=", b"-=", b"--=", b"-=5", b"--=x", b"-_", b"--_", b"x", b"foo", b"5", b"-5", b"-\xff",
                              b"--\xff", b"\xff", b"-h", b"--no-such", b"-\xc3", b"--foo.", b"--.foo", b"foo.add", b"--help", b"-ah", b"--help-hidden",
                              b"--h", b"--version", b"-V"])]
        if not ks:
            return [b"x"]
        k, x = r.choice(ks)
        inner = [(k, x) for k, x in ks if "d" in x and 46 in k]
        if inner and r.random() < .15:
            k, x = r.choice(inner)
        if x == "help":
            return [b"--" + bytes(k)] if r.random() < .8 else [b"-" + bytes(k)]
        if "d" in x:  # a group
            sub = self.use(x["d"])
            sub[0] = sub[0].lstrip(b"-") if r.random() < .9 else sub[0]
            l = b"-" + chr(x["l"]).encode() if x["l"] else b"--" + self.spell(k)
            return r.choice([[b"--" + self.spell(k)] + sub, [l] + sub, [l + sub[0]] + sub[1:], [l]])
        v = self.value(x["k"])
        letter = x["l"] and chr(x["l"]).encode()
        run = [chr(f["l"]).encode() for f in d["f"] if f["l"] and f["k"] == BOOL]
        forms = [[b"--" + self.spell(k) + b"=" + v], [b"--" + self.spell(k), v] if x["k"] != BOOL else [b"--" + self.spell(k)]]
        if letter:
            pre = b"".join(r.sample(run, r.randrange(len(run) + 1)))
            forms += [[b"-" + letter + b"=" + v], [b"-" + letter, v] if x["k"] != BOOL else [b"-" + letter],
                      [b"-" + pre + letter + b"=" + v], [b"-" + pre + letter, v] if x["k"] != BOOL else [b"-" + pre + letter],
                      [b"-" + pre + letter + v]]
        if r.random() < .06:
            forms = [[b"-" + bytes(k)], [b"--" + bytes(k)], [b"--" + bytes(k) + b"x"], [b"--" + bytes(k)[:-1]]]
        return r.choice(forms)

    def argv(self):
        r = self.r
        d, out = self.root, []
        # Usually, all that is required, somewhere.
        need = r.random() < .75
        while True:
            part = []
            if need:
                for f in self.required(d):
                    part.append(f)
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                part.append(self.use(d))
            r.shuffle(part)
            if need:
                part += [[self.value(p["k"])] for p in d["p"] if p["c"] == REQ] if r.random() < .8 else []
            out += sum(part, [])
            ss = self.subs(d)
            if not ss or r.random() < .4:
                break
            k, u = r.choice(ss)
            out.append(self.spell(k))
            d = u["d"]
        if out and r.random() < .08:
            del out[r.randrange(len(out))]
        if r.random() < .05:
            out.insert(r.randrange(len(out) + 1), b"--")
        return out

    def required(self, d):
        out = []
        for k, x in self.keys(d):
            if x != "help" and x.get("c") == REQ and x["s"] not in [s for s, _ in out]:
                v = self.value(x["k"])
                out.append((x["s"], [b"--" + bytes(k) + b"=" + v]))
        return [o for _, o in out]

    # Every short argument vector over a small alphabet of this declaration.
    def alphabet(self, n):
        r = self.r
        out = {b"--", b"x", b"5"}
        for _ in range(200):
            if len(out) >= n:
                break
            d = self.root
            if self.subs(d) and r.random() < .3:
                d = r.choice(self.subs(d))[1]["d"]
            for t in self.use(d)[:2]:
                out.add(t)
        for k, _ in self.subs(self.root)[:2]:
            out.add(bytes(k))
        return sorted(out)


def line(k, args):
    return "parse %d %d %s" % (k, len(args), " ".join("%d %s" % (len(x), " ".join(map(str, x))) for x in args))


def settled(a):
    """Contains nothing whose meaning might be left open."""
    p, args = 2, []
    for _ in range(a[1]):
        args.append(bytes(a[p + 1:p + 1 + a[p]]))
        p += 1 + a[p]
    return not any(x == b"--" or b"." in x or b"h" in x and b"=" in x or x[:1] == b"-" and x[:2] != b"--" and len(x) > 2 for x in args)


def program(decls):
    return HEAD + "".join("".join(d.code) for d in decls) + "void exec(C& c, size_t d, Args a) {\n  switch (d) {\n" + "".join(
        d.case(k) for k, d in enumerate(decls)) + TAIL
