// Shared by the drivers for text.
#ifndef VERIF_TEXT_H_
#define VERIF_TEXT_H_
#include "best/text/ascii.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
#include "drv.h"

template <typename F>
void with_encoding(int e, F f) {
  switch (e) {
    case 0: return f(best::ascii{});
    case 1: return f(best::latin1{});
    case 2: return f(best::utf8{});
    case 3: return f(best::wtf8{});
    case 4: return f(best::utf16{});
    case 5: return f(best::utf32{});
  }
  _exit(98);
}
template <int e>
auto encoding_number() {
  if constexpr (e == 0) return best::ascii{};
  else if constexpr (e == 1) return best::latin1{};
  else if constexpr (e == 2) return best::utf8{};
  else if constexpr (e == 3) return best::wtf8{};
  else if constexpr (e == 4) return best::utf16{};
  else return best::utf32{};
}
template <typename C>
int64_t unit(C c) {
  if constexpr (sizeof(C) == 1) return (unsigned char)c;
  else return (int64_t)(uint32_t)c;
}
// An exactly sized heap copy, so that any access outside it is seen.
template <typename C>
struct exact {
  C* p;
  size_t n;
  explicit exact(const std::vector<C>& v) : p((C*)malloc(v.size() * sizeof(C))), n(v.size()) {
    for (size_t i = 0; i < n; ++i) p[i] = v[i];
  }
  explicit exact(size_t n) : p((C*)malloc(n * sizeof(C))), n(n) {}
  exact(const exact&) = delete;
  ~exact() { free(p); }
  best::span<const C> span() const { return {p, n}; }
  best::span<C> mut() { return {p, n}; }
};
// The predicates the specification knows by number.
inline bool pred(int id, best::rune r) {
  uint32_t c = r.to_int();
  switch (id) {
    case 0: return c < 128;
    case 1: return c == 0x41 || c == 0xe9;
    case 2: return c >= 0x10000;
    case 3: return c % 2 == 0;
    case 4: return false;
    default: return true;
  }
}
#endif
