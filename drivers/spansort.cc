// Sorting and bisecting spans of element type ELEM (see below).
#include "drv.h"
#include "best/memory/span.h"
#include "best/memory/span_sort.h"
#include <string>

// Elements are 16 * rank index + tag; ranks come with the command.
std::vector<int> ranks;
int rank_of(int64_t e) { return ranks[e / 16]; }
#if ELEM == 0  // Trivial.
struct T {
  int64_t e;
};
int64_t code(const T& t) { return t.e; }
T make(int64_t e) { return {e}; }
#else  // On the heap: elements that are lost or duplicated show.
struct T {
  std::string s;
};
int64_t code(const T& t) { return t.s.empty() ? -9 : atoll(t.s.c_str() + 30); }
T make(int64_t e) { return {std::string(30, '.') + std::to_string(e)}; }
#endif
bool operator==(const T& a, const T& b) { return rank_of(code(a)) == rank_of(code(b)); }
auto operator<=>(const T& a, const T& b) { return rank_of(code(a)) <=> rank_of(code(b)); }

int keys[4096];
void exec(drv::Cmd& c) {
  ranks = c.list<int>();
  for (size_t i = 0; i < ranks.size() * 16; ++i) keys[i] = ranks[i / 16];
  std::vector<T> x;
  for (auto e : c.list()) x.push_back(make(e));
  best::span<T> s(x.data(), x.size());
  if (c.is("bisect")) {
    int q = c.arg();
    auto put = [&](auto r) {
      if (r.ok()) c.out(1).out(*r.ok());
      else c.out(0).out(*r.err());
    };
    put(s.bisect([&](const T& t) { return best::partial_ord(rank_of(code(t)) <=> q); }));
    put(s.bisect(q, [&](const T& t) -> const int& { return keys[code(t)]; }));
    for (size_t i = 0; i < ranks.size(); ++i) {
      if (ranks[i] != q) continue;
      put(s.bisect(make(i * 16)));
      break;
    }
    return;
  }
  int how = c.arg();
  auto key = [&](const T& t) -> const int& { return keys[code(t)]; };
  auto cmp = [&](const T& a, const T& b) { return best::partial_ord(rank_of(code(a)) <=> rank_of(code(b))); };
  if (c.is("sort")) {
    if (how == 0) s.sort();
    if (how == 1) s.sort(key);
    if (how == 2) s.sort(cmp);
  } else {
    if (how == 0) s.stable_sort();
    if (how == 1) s.stable_sort(key);
    if (how == 2) s.stable_sort(cmp);
  }
  for (auto& t : x) c.out(code(t));
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
