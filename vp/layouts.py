"""Generated programs that lay out types."""
# Spelling, the type it is stored as, size, alignment.
TYPES = [("char", "char", 1, 1), ("bool", "bool", 1, 1), ("short", "short", 2, 2), ("int", "int", 4, 4),
         ("long", "long", 8, 8), ("double", "double", 8, 8), ("float", "float", 4, 4), ("void*", "void*", 8, 8),
         ("const int", "int", 4, 4), ("char[3]", "Arr<char, 3>", 3, 1), ("short[5]", "Arr<short, 5>", 10, 2),
         ("int[2][2]", "Arr<int, 4>", 16, 4), ("__int128", "__int128", 16, 16), ("long double", "long double", 16, 16),
         ("A32", "A32", 32, 32), ("A64", "A64", 64, 64), ("Five", "Five", 5, 1), ("Six", "Six", 6, 2),
         ("Mix", "Mix", 24, 8), ("Nothing", "Nothing", 1, 1), ("void", "Nothing", 1, 1), ("const void", "Nothing", 1, 1),
         ("int&", "int*", 8, 8), ("A64&", "A64*", 8, 8), ("const char&", "char*", 8, 8), ("short&&", "short*", 8, 8),
         ("int(char)", "int(*)(char)", 8, 8), ("char (&)[7]", "char*", 8, 8), ("void (*)()", "void(*)()", 8, 8),
         ("int Mix::*", "int Mix::*", 8, 8), ("void (Mix::*)()", "void (Mix::*)()", 16, 8), ("decltype(nullptr)", "void*", 8, 8)]
HEAD = """#include "best/memory/layout.h"
#include "drv.h"
using C = drv::Cmd;
struct alignas(32) A32 { char x; };
struct alignas(64) A64 { char x[33]; };
struct Five { char x[5]; };
struct Six { short x[3]; };
struct Mix { char a; double b; short c; };
struct Nothing {};
template <typename T, int n> struct Arr { T x[n]; };
void ly(C& c, best::layout l) { c.out(l.size()); c.out(l.align()); }
template <typename T> void real(C& c) { c.out(sizeof(T)); c.out(alignof(T)); }
size_t opaque(size_t n) { return n; }
void exec(C& c) {
  if (c.is("fits")) {
    size_t a = c.arg(), b = c.arg(), d = c.arg(), e = c.arg();
    best::layout x(best::unsafe("test"), a, b), y(best::unsafe("test"), d, e);
    c.out(x.fits_in(y)); c.out(x == y);
    return;
  }
  switch (c.arg()) {
"""
TAIL = """  }
  _exit(98);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
"""


def program(r, n):
    """(source, script)"""
    out, s = [HEAD], []
    k = 0

    def case(code, line):
        nonlocal k
        out.append("    case %d: { %s return; }" % (k, code))
        s.append(line % k)
        k += 1
    for t, u, sz, al in TYPES:
        case("using T = %s; ly(c, best::layout::of<T>()); using U = %s; real<U>(c); "
             "real<best::laid_out<best::layout::of<T>()>>(c);" % (t if "(" not in t and "[" not in t else
                                                                "std::type_identity_t<%s>" % t, u),
             "of %%d %d %d" % (sz, al))
        for m in [0, 1, 2, 3, 100, 2 ** 31, 2 ** 32, 2 ** 63 // sz - 1, 2 ** 63 // sz, 2 ** 63 // sz + 1, 2 ** 64 // sz - 1,
                  min(2 ** 64 // sz, 2 ** 64 - 1), min(2 ** 64 // sz + 1, 2 ** 64 - 1), 2 ** 64 - 1, 2 ** 63,
                  r.getrandbits(64), r.getrandbits(60)]:
            if m == 0 or r.random() < .6:
                # One case for all counts.
                s.append("array %d %d %d %s" % (k, sz, al, " ".join(str(m >> b & 65535) for b in (0, 16, 32, 48))))
        out.append("    case %d: { c.arg(); c.arg(); auto l = best::layout::array<std::type_identity_t<%s>>(c.u64()); "
                   "c.out64(l.size()); c.out(l.align()); return; }" % (k, t))
        k += 1
    for _ in range(n):
        ms = [r.choice(TYPES) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8]))]
        ts = ", ".join(t if "(" not in t and "[" not in t else "std::type_identity_t<%s>" % t for t, _, _, _ in ms)
        mem = " ".join("std::type_identity_t<%s> x%d;" % (u, j) for j, (_, u, _, _) in enumerate(ms)) or "char x;"
        enc = " ".join("%d %d" % (z, a) for _, _, z, a in ms)
        case("ly(c, best::layout::of_struct<%s>()); struct S { %s }; real<S>(c);" % (ts, mem), "struct %d " + enc)
        case("ly(c, best::layout::of_union<%s>()); union S { %s }; real<S>(c);" % (ts, mem), "union %d " + enc)
    for _ in range(300):
        v = [r.choice([0, 1, 2, 8, 16, 24, 32]) for _ in range(2)]
        w = [1 << r.randrange(6) for _ in range(2)]
        s.append("fits %d %d %d %d" % (v[0], w[0], v[1], w[1]))
    return "\n".join(out) + "\n" + TAIL, s
