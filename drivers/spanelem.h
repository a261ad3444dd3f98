// Element types for span drivers: how a small integer becomes an element.
#ifndef VERIF_SPANELEM_H_
#define VERIF_SPANELEM_H_
#include <string>
#include "best/math/overflow.h"
#include "best/memory/span.h"
#include "drv.h"

// Comparable through its own operators only.
struct Own {
  int v, noise = 0;
  Own(int v = 0) : v(v) { static int k; noise = ++k; }
  bool operator==(const Own& o) const { return v == o.v; }
  auto operator<=>(const Own& o) const { return v <=> o.v; }
};
enum class Enum : uint16_t {};
using std::size_t;
#if ELEM == 0
using T = uint8_t;
#elif ELEM == 1
using T = int8_t;
#elif ELEM == 2
using T = uint16_t;
#elif ELEM == 3
using T = int16_t;
#elif ELEM == 4
using T = int32_t;
#elif ELEM == 5
using T = uint32_t;
#elif ELEM == 6
using T = int64_t;
#elif ELEM == 7
using T = uint64_t;
#elif ELEM == 8
using T = std::string;
#elif ELEM == 9
using T = Own;
#elif ELEM == 10
using T = char;
#elif ELEM == 11
using T = Enum;
#elif ELEM == 12
using T = double;
#elif ELEM == 13
using T = const char*;
#endif

template <typename U>
U make(int64_t x) {
  if constexpr (std::is_same_v<U, std::string>) {
    // Order preserving, of varying length, long enough to be on the heap.
    return std::string(1, 'a' + x) + std::string(x % 3 == 0 ? 40 : x % 3, 'z');
  } else if constexpr (std::is_same_v<U, const char*>) {
    static const char pool[1 << 16] = {};
    return pool + x;
  } else if constexpr (std::is_same_v<U, double>) {
    return x / 4.0;
  } else if constexpr (std::is_integral_v<U> && sizeof(U) == 8) {
    return U(x) * (U(1) << 32) + U(x);
  } else {
    return U(x);
  }
}
// A span over exactly as much storage as it needs.
template <typename U>
struct Store {
  U* p = nullptr;
  size_t n;
  explicit Store(const std::vector<int64_t>& xs) : n(xs.size()) {
    if (n) p = (U*)operator new(n * sizeof(U), std::align_val_t(16));
    for (size_t i = 0; i < n; ++i) new (p + i) U(make<U>(xs[i]));
  }
  Store(const Store&) = delete;
  ~Store() {
    for (size_t i = 0; i < n; ++i) p[i].~U();
    if (p) operator delete(p, std::align_val_t(16));
  }
  best::span<U> span() const { return best::span<U>(p, n); }
  best::span<const U> cspan() const { return best::span<const U>(p, n); }
};
#endif
