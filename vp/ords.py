"""Generated programs that chain and combine orderings."""
# 0 strong, 1 weak, 2 partial; 3.. the named outcomes.
CATS = {0: "std::strong_ordering", 1: "std::weak_ordering", 2: "std::partial_ordering",
        3: "decltype(best::Less)", 4: "decltype(best::Equal)", 5: "decltype(best::Greater)", 6: "decltype(best::Unordered)"}
NAMED = {3: ("best::Less", -1), 4: ("best::Equal", 0), 5: ("best::Greater", 1), 6: ("best::Unordered", 2)}
# How values of a type are made from a number; 9 makes an unordered one.
VALS = [("int", "int(n)"), ("unsigned char", "(unsigned char)n"), ("long", "long(n)"), ("double", "dbl(n)"),
        ("OnlyLess", "OnlyLess{n}"), ("OnlyEq", "OnlyEq{n}"), ("Mute", "Mute{n}"), ("int*", "(pool + n)"),
        ("char*", "((char*)(pool + n))"), ("const short*", "((const short*)(pool + n))"), ("void*", "((void*)(pool + n))"),
        ("best::option<int>", "(n == 9 ? best::option<int>() : best::option<int>(n))")]
HEAD = """#include "best/base/ord.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/text/format.h"
#include "drv.h"
#include <cmath>
using C = drv::Cmd;
int pool[16];
double dbl(int n) { return n == 9 ? NAN : n; }
struct OnlyLess { int n; bool operator==(OnlyLess o) const { return n == o.n && n != 9; }
  bool operator<(OnlyLess o) const { return n < o.n && n != 9 && o.n != 9; } };
struct OnlyEq { int n; bool operator==(OnlyEq o) const { return n == o.n; } };
struct Mute { int n; };
template <typename T> int cat() {
  if (std::is_same_v<T, std::strong_ordering>) return 0;
  if (std::is_same_v<T, std::weak_ordering>) return 1;
  if (std::is_same_v<T, std::partial_ordering>) return 2;
  if (std::is_void_v<T>) return 8;
  return 7;
}
int num(std::partial_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
template <typename T> T mk(int n) {
  if constexpr (std::is_same_v<T, std::partial_ordering>) { if (n == 2) return T::unordered; }
  return n < 0 ? T::less : n > 0 ? T::greater : T::equivalent;
}
template <typename T> void show(C& c, T x) { c.out(cat<T>()); c.out(num(x)); }
int calls[8], made;
void exec(C& c) {
  made = 0;
  switch (c.arg()) {
"""
TAIL = """  }
  _exit(98);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
"""


def program(r, n):
    out, s = [HEAD], []
    k = 0
    for _ in range(n):
        # A chain of comparisons, each of a category known beforehand.
        links = [r.choice([0, 0, 2, 1])] + [r.choice([0, 0, 2, 2, 1, 3, 4, 4, 5, 6]) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        # The weak category has no name for its outcomes.
        if 1 in links:
            links = [x if x < 3 else 0 for x in links]
        code = ["mk<%s>(o[0])" % CATS[links[0]]]
        for j, x in enumerate(links[1:], 1):
            what = "mk<%s>(o[%d])" % (CATS[x], j) if x < 3 else NAMED[x][0]
            code.append(r.choice(["best::or_cmp([&] { calls[made++] = %d; return %s; })",
                                  "best::or_cmp([&]() -> decltype(auto) { calls[made++] = %d; return %s; })"]) % (j, what))
        out.append("    case %d: { auto o = c.list<int>(); auto x = %s; show(c, x); c.out(made); "
                   "for (int j = 0; j < made; ++j) c.out(calls[j]); return; }" % (k, " ->* ".join(code)))
        for _ in range(12):
            o = [NAMED[x][1] if x > 2 else r.choice([0, 0, 0, -1, 1] + [2] * (x == 2)) for x in links]
            s.append("chain %d %d %s %s" % (k, len(links), " ".join(map(str, o)), " ".join(map(str, links))))
        k += 1
        ts = [r.choice([0, 0, 1, 2, 2, 3, 4, 5, 6]) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7]))]
        out.append("    case %d: c.out(cat<best::common_ord<%s>>()); return;" % (k, ", ".join(CATS[x] for x in ts)))
        s.append("common %d %s" % (k, " ".join(map(str, ts))))
        k += 1
    for x, (name, v) in NAMED.items():
        out.append("    case %d: { std::partial_ordering p = %s; c.out(num(p)); %s return; }" %
                   (k, name, "c.out(9);" if x == 6 else "std::strong_ordering q = %s; c.out(num(q));" % name))
        s.append("named %d %d" % (k, x))
        k += 1
    for v in (-1, 0, 1, 2):
        out.append("    case %d: { auto t = best::format(\"{:?}\", mk<std::partial_ordering>(%d)); c.out(t.size()); "
                   "c.outb(std::string_view((const char*)t.data(), t.size())); return; }" % (k, v))
        s.append("shown %d %d" % (k, v))
        k += 1
    for a, (t, x) in enumerate(VALS):
        for b, (u, y) in enumerate(VALS):
            if "option" in t + u and t != u:
                continue
            out.append("    case %d: { c.arg(); c.arg(); int n = c.arg(); %s x = %s; n = c.arg(); %s y = %s; "
                       "c.out(best::equal(x, y)); show(c, best::compare(x, y)); return; }" % (k, t, x, u, y))
            for _ in range(12):
                p, q = r.choice([0, 1, 2, 9]), r.choice([0, 1, 2, 9])
                s.append("pair %d %d %d %d %d" % (k, a, b, p, r.choice([p, q, q])))
            k += 1
    return "\n".join(out) + "\n" + TAIL, s
