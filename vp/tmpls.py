"""Templates: random ones, and generated programs that use them."""
HEAD = """#include <cstring>
#include "best/text/format.h"
#include "best/text/utf8.h"
#include "best/container/vec.h"
#include "best/container/option.h"
#include "best/container/box.h"
#include "drv.h"
using C = drv::Cmd;
template <int M> constexpr bool m(best::rune r) {
  if (M == 1) return r == 'b' || r == 'o' || r == 'x' || r == 'X';
  if (M == 2) return r == 'q';
  if (M == 3) return r == 'p';
  return true;
}
template <int D, int W, int P, int M> struct Q {
  constexpr friend void BestFmtQuery(auto& query, Q*) {
    query.requires_debug = D; query.supports_width = W; query.supports_prec = P;
    if (M) query.uses_method = m<M>;
  }
  friend void BestFmt(auto& fmt, const Q&) { fmt.write("?"); }
};
struct Bare { friend void BestFmt(auto& fmt, const Bare&) { fmt.write("?"); } };
std::vector<int64_t> log_;
void half(uint64_t n) { log_.push_back(n >> 16); log_.push_back(n & 0xffff); }
void leaf(auto& fmt, char l) {
  fmt.write('@'); fmt.write(best::rune(*best::rune::from_int(l)));
  auto s = fmt.current_spec();
  log_.push_back(l);
  log_.push_back(s.alt); log_.push_back(s.debug); log_.push_back(s.sign_aware_padding);
  log_.push_back(0);
  log_.push_back(s.alignment ? int(*s.alignment) + 1 : 0); log_.push_back(s.fill.to_int());
  half(s.width); log_.push_back(s.prec.has_value()); half(s.prec.value_or(0));
  log_.push_back(s.method ? s.method->to_int() : 0);
}
constexpr void all(auto& q) { q.requires_debug = false; q.supports_width = q.supports_prec = true; q.uses_method = m<4>; }
struct A {
  char l;
  friend void BestFmt(auto& fmt, const A& a) { leaf(fmt, a.l); }
  constexpr friend void BestFmtQuery(auto& query, A*) { all(query); }
};
template <typename... T> constexpr size_t count(T&&...) { return sizeof...(T); }
void done(C& c, const best::strbuf& s, size_t from, size_t to) {
  c.out(to - from);
  for (size_t i = from; i < to; ++i) c.out((unsigned char)s.data()[i]);
  c.outs(log_); log_.clear();
}
struct Out {
  FILE*& f; FILE* old; char* p; size_t n;
  Out(FILE*& f) : f(f), old(f) { f = open_memstream(&p, &n); }
  best::strbuf take() { fclose(f); f = old; best::strbuf s(*best::str::from(best::span(p, n))); free(p); return s; }
};
"""
BODY = "void exec(C& c) {\n  switch (c.arg()) {\n"
TAIL = """  }
  _exit(98);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
"""
NONE, BOXX, QUOTE, PTR, ANY = range(5)
TYPES = [("int", (0, 1, 0, BOXX)), ("unsigned char", (0, 1, 0, BOXX)), ("char", (0, 1, 0, BOXX)), ("bool", (0, 1, 0, NONE)),
         ("best::str", (0, 1, 1, QUOTE)), ("best::strbuf", (0, 1, 1, QUOTE)), ("char[4]", (0, 1, 1, QUOTE)),
         ("best::rune", (0, 1, 0, QUOTE)), ("char32_t", (0, 1, 0, NONE)), ("char8_t", (0, 1, 0, NONE)),
         ("std::byte", (0, 1, 0, BOXX)), ("int*", (0, 0, 0, PTR)), ("void*", (0, 0, 0, PTR)),
         ("best::vec<int>", (0, 1, 0, BOXX)), ("best::vec<best::str>", (0, 1, 1, QUOTE)), ("Bare", (1, 0, 0, NONE)),
         ("Q<0,0,0,0>", (0, 0, 0, NONE))] + [
    ("Q<%d,%d,%d,%d>" % q, q) for q in [(1, 1, 0, 1), (0, 1, 1, 4), (1, 1, 1, 4), (0, 0, 1, 2), (1, 0, 0, 4), (0, 1, 0, 3)]]


def lit(t):
    return '"%s"' % "".join(ch if 32 <= b < 127 and ch not in '"\\?' else "\\%03o" % b
                            for b, ch in zip(t, t.decode("latin1")))


def enc(t):
    return "%d %s" % (len(t), " ".join(map(str, t))) if t else "0"


def spec(r):
    """Options that are right, spelled."""
    if r.random() < .15:
        return r.choice([b":", b":?", b":!", b""])
    s = b":"
    al = r.random() < .4
    if al:
        if r.random() < .6:
            s += bytes([r.choice(b"xX0#?.<^>: *-79q~")])
        s += bytes([r.choice(b"<^>")])
    if r.random() < .3:
        s += b"#"
    zero = not al and r.random() < .25
    if zero:
        s += b"0"
    if al or zero or r.random() < .4:
        w = str(r.choice([1, 2, 5, 9, 10, 12, 65535, 65536, 4294967294, r.randrange(1, 300)])).encode()
        if zero and r.random() < .2:
            w = b"00" + w
        s += w
    if r.random() < .3:
        s += b"." + str(r.choice([0, 1, 7, 10, 65536, 4294967293, r.randrange(300)])).encode()
    if r.random() < .4:
        s += bytes([r.choice(b"boxXqpazAZ")])
    if r.random() < .4:
        s += b"?"
    return s


def hole(r, n, auto):
    """A placeholder for one of n arguments, if there is one left."""
    if n and (r.random() < .5 or auto >= n):
        return b"{" + str(r.randrange(n)).encode() + spec(r) + b"}", auto
    if auto < n:
        return b"{" + spec(r) + b"}", auto + 1
    return b"{{", auto


def template(r, n, k):
    t, auto = b"", 0
    for _ in range(k):
        if r.random() < .35:
            t += r.choice([b"{{", b"}}", b"a", b" ", b"-x", "\u00e9".encode(), "\U0001f431".encode(), b":?", b"\n", b"0"])
        else:
            h, auto = hole(r, n, auto)
            t += h
    return t


def opens(t):
    """Contains something the documentation leaves open (or might)."""
    import re
    return bool(re.search(rb"!|\.($|[^0-9])|4294967295|:[{}]|[\x80-\xff]|[\x00-\x1f\x7f]", t))


def mutate(r, t):
    t = bytearray(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x = r.randrange(4)
        p = r.randrange(len(t) + 1)
        if x == 0 and p < len(t):
            del t[p]
        elif x == 1:
            t[p:p] = bytes([r.choice(b"{}:0123456789<^>#.?!aqxX _")])
        elif x == 2 and p < len(t):
            t[p] = r.choice(b"{}:0123456789<^>#.?!aqxX _")
        else:
            t = t[:p]
    return bytes(t)


class Program:
    def __init__(self, r, statics, runs):
        self.r, self.decls, self.cases, self.s, self.k = r, [], [], [], 0
        for _ in range(statics):
            self.static()
        for _ in range(runs):
            self.run()

    def text(self):
        return HEAD + "\n".join(self.decls) + "\n" + BODY + "\n".join(self.cases) + "\n" + TAIL

    def case(self, code, line):
        self.cases.append("    case %d: { %s return; }" % (self.k, code))
        self.s.append(line % self.k)
        self.k += 1

    def static(self):
        r = self.r
        ts = [r.choice(TYPES) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        t = template(r, len(ts), r.choice([1, 1, 1, 2, 3]))
        if r.random() < .5:
            # Mostly something the types take.
            t = b""
            for j, (_, q) in enumerate(ts):
                s = b""
                if q[1] and r.random() < .4:
                    s += r.choice([b"5", b"<5", b"x^9", b"05"])
                if q[2] and r.random() < .4:
                    s += b".3"
                if q[3] and r.random() < .4:
                    s += {1: b"x", 2: b"q", 3: b"p", 4: b"z"}[q[3]]
                if q[0] or r.random() < .3:
                    s += b"?"
                t += b"{%s%s}" % (b":" if s else b"", s)
        if r.random() < .4:
            t = mutate(r, t)
        if b"\0" in t or t.decode("utf8", "ignore").encode() != t:
            return
        n = self.k
        names = ", ".join("T%d" % j for j in range(len(ts)))
        # Dependent even with no arguments.
        self.decls.append(
            "template <typename X%s> constexpr bool ok%d = requires { best::format_template<%s>(%s); };"
            % ("".join(", typename T%d" % j for j in range(len(ts))), n,
               names if ts else "", "best::dependent<const char(&)[%d], X>(%s)" % (len(t) + 1, lit(t)) if not ts else lit(t)))
        self.case("c.out(ok%d<int%s>);" % (n, "".join(", " + x for x, _ in ts)),
                  "static %%d %d %s %s" % (len(ts), " ".join("%d %d %d %d" % q for _, q in ts), enc(t)))

    def arg(self, depth):
        """(C++ expression, encoding)"""
        r = self.r
        l = r.randrange(65, 91)
        if depth == 0 or r.random() < .6:
            return "A{%d}" % l, "0 %d" % l
        # (A lone literal is formatted as a string, not as a template.)
        n = r.choice([1, 1, 2, 3])
        sub = [self.arg(depth - 1) for _ in range(n)]
        t = template(r, n, r.choice([0, 1, 2, 3]))
        d = len(self.decls)
        self.decls.append("""struct N%d {
  friend void BestFmt(auto& fmt, const N%d&) { fmt.format(%s); leaf(fmt, %d); }
  constexpr friend void BestFmtQuery(auto& query, N%d*) { all(query); }
};""" % (d, d, ", ".join([lit(t)] + [x for x, _ in sub]), l, d))
        return "N%d{}" % d, "1 %d %s %d %s" % (l, enc(t), n, " ".join(e for _, e in sub))

    def run(self):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 4])
        args = [self.arg(r.choice([0, 1, 2])) for _ in range(n)]
        t = template(r, n, r.choice([0, 1, 2, 4, 7]))
        call = ", ".join([lit(t)] + [x for x, _ in args])
        how = r.randrange(6)
        if how == 0:
            code = "best::strbuf s = best::format(%s); done(c, s, 0, s.size());" % call
        elif how == 1:
            code = "best::strbuf s(\"old\"); best::format(s, %s); done(c, s, 3, s.size());" % call
        else:
            f, fn = [("stdout", "print"), ("stdout", "println"), ("stderr", "eprint"), ("stderr", "eprintln")][how - 2]
            ln = fn.endswith("ln")
            code = "Out o(%s); best::%s(%s); auto s = o.take(); %s done(c, s, 0, s.size() - %d);" % (
                f, fn, call, "if (s.is_empty() || s.data()[s.size() - 1] != 10) c.kind(\"no newline\");" if ln else "", ln)
        self.case(code, "run %%d %s %d %s" % (enc(t), n, " ".join(e for _, e in args)))
