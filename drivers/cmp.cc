// Comparisons of composite values. A value is written as its term in prefix
// order (see tla/CmpDefs.tla), and built from it by its type.
#include <deque>
#include <limits>
#include <string>

#include "best/base/ord.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "drv.h"

// What stands alone on one side of a comparison.
struct None {};
struct OkAny {};
struct ErrAny {};
template <typename T>
struct Ptr {};
// best::ok() and best::err() refer to what they are given.
template <typename T>
struct Ok {
  T v;
};
template <typename T>
struct Err {
  T v;
};
template <typename T, size_t n>
struct Arr {};
template <typename T>
struct Tag {};

std::deque<std::string> strs;
std::deque<int64_t> longs;
std::deque<int> ints;
using C = drv::Cmd;
void want(C& c, int64_t x) {
  if (c.arg() != x) _exit(98);
}

template <typename T>
  requires std::is_arithmetic_v<T>
T make(C& c, Tag<T>) {
  if (c.arg() == 9) return std::numeric_limits<T>::quiet_NaN();
  return (T)c.arg();
}
int& make(C& c, Tag<int&>) { return ints.emplace_back(make(c, Tag<int>{})); }
const int& make(C& c, Tag<const int&>) { return ints.emplace_back(make(c, Tag<int>{})); }
best::str make(C& c, Tag<best::str>) {
  want(c, 2);
  std::string s(c.arg(), 0);
  for (auto& x : s) x = make(c, Tag<char>{});
  auto& t = strs.emplace_back(std::move(s));
  return *best::str::from(best::span<const char>(t.data(), t.size()));
}
best::strbuf make(C& c, Tag<best::strbuf>) { return best::strbuf(make(c, Tag<best::str>{})); }
best::none_t make(C& c, Tag<None>) {
  want(c, 5);
  return best::none;
}
best::ok<> make(C& c, Tag<OkAny>) {
  want(c, 6), want(c, 0);
  return best::ok();
}
best::err<> make(C& c, Tag<ErrAny>) {
  want(c, 6), want(c, 1);
  return best::err();
}
template <typename T>
const T* make(C& c, Tag<Ptr<T>>) {
  if (c.arg() == 5) return nullptr;
  want(c, 1);
  static std::deque<T> store;
  return &store.emplace_back(make(c, Tag<T>{}));
}
template <typename T>
auto make(C& c, Tag<Ok<T>>) {
  want(c, 4), want(c, 0);
  return Ok<T>{make(c, Tag<T>{})};
}
template <typename T>
auto make(C& c, Tag<Err<T>>) {
  want(c, 4), want(c, 1);
  return Err<T>{make(c, Tag<T>{})};
}
// A value by itself, that stands for alternative n.
template <int n, typename T>
struct Bare {};
template <int n, typename T>
T make(C& c, Tag<Bare<n, T>>) {
  want(c, 4), want(c, n);
  return make(c, Tag<T>{});
}

template <typename T>
best::option<T> make(C& c, Tag<best::option<T>>);
template <typename... Ts>
best::choice<Ts...> make(C& c, Tag<best::choice<Ts...>>);
template <typename T, typename E>
best::result<T, E> make(C& c, Tag<best::result<T, E>>);
template <typename... Ts>
best::row<Ts...> make(C& c, Tag<best::row<Ts...>>);
template <typename T, size_t n>
best::vec<T, n> make(C& c, Tag<best::vec<T, n>>);
template <typename T>
best::box<T> make(C& c, Tag<best::box<T>>);
template <typename T, best::option<size_t> n>
best::span<T, n> make(C& c, Tag<best::span<T, n>>);

// Whatever is made of alternative n and the rest of the term.
template <typename T, typename F>
decltype(auto) payload(C& c, F f) {
  if constexpr (best::is_void<T>) {
    want(c, 3);
    return f();
  } else {
    return f(make(c, Tag<T>{}));
  }
}
template <typename T>
best::option<T> make(C& c, Tag<best::option<T>>) {
  want(c, 1);
  if (c.arg() == 0) {
    want(c, 3);
    return best::none;
  }
  return payload<T>(c, [](auto&&... x) { return best::option<T>(best::in_place, BEST_FWD(x)...); });
}
template <size_t n, typename... Ts>
best::choice<Ts...> make_choice(C& c, size_t w) {
  using T = decltype(best::types<Ts...>)::template type<n>;
  if constexpr (n + 1 < sizeof...(Ts)) {
    if (w != n) return make_choice<n + 1, Ts...>(c, w);
  }
  return payload<T>(c, [](auto&&... x) { return best::choice<Ts...>(best::index<n>, BEST_FWD(x)...); });
}
template <typename... Ts>
best::choice<Ts...> make(C& c, Tag<best::choice<Ts...>>) {
  want(c, 1);
  return make_choice<0, Ts...>(c, c.arg());
}
template <typename T, typename E>
best::result<T, E> make(C& c, Tag<best::result<T, E>>) {
  want(c, 1);
  if (c.arg() == 0) {
    return payload<T>(c, [](auto&&... x) { return best::result<T, E>(best::ok(BEST_FWD(x)...)); });
  }
  return payload<E>(c, [](auto&&... x) { return best::result<T, E>(best::err(BEST_FWD(x)...)); });
}
template <typename T>
decltype(auto) element(C& c) {
  if constexpr (best::is_void<T>) {
    want(c, 3);
    return best::empty{};
  } else {
    return make(c, Tag<T>{});
  }
}
template <typename... Ts>
best::row<Ts...> make(C& c, Tag<best::row<Ts...>>) {
  want(c, 2), want(c, sizeof...(Ts));
  return best::row<Ts...>{element<Ts>(c)...};
}
template <typename T, size_t n>
best::vec<T, n> make(C& c, Tag<best::vec<T, n>>) {
  want(c, 2);
  best::vec<T, n> v;
  for (int64_t i = c.arg(); i > 0; --i) v.push(make(c, Tag<T>{}));
  return v;
}
template <typename T>
best::box<T> make(C& c, Tag<best::box<T>>) {
  if constexpr (best::is_unsized_array<T>) {
    using U = std::remove_extent_t<T>;
    auto v = make(c, Tag<best::vec<U, 0>>{});
    return best::box<T>(v.as_span());
  } else {
    return best::box<T>(best::in_place, make(c, Tag<T>{}));
  }
}
template <typename T, best::option<size_t> n>
best::span<T, n> make(C& c, Tag<best::span<T, n>>) {
  want(c, 2);
  size_t size = c.arg();
  static std::deque<std::vector<std::remove_const_t<T>>> store;
  auto& v = store.emplace_back();
  v.reserve(size);
  for (size_t i = 0; i < size; ++i) v.push_back(make(c, Tag<std::remove_const_t<T>>{}));
  if constexpr (n.has_value()) {
    if (size != *n) _exit(98);
    return best::span<T, n>(*(T(*)[*n])v.data());
  } else {
    return best::span<T>(v.data(), v.size());
  }
}
template <typename T, size_t n>
auto& make(C& c, Tag<Arr<T, n>>) {
  want(c, 2), want(c, n);
  static std::deque<std::array<T, n>> store;
  auto& a = store.emplace_back();
  for (auto& x : a) x = make(c, Tag<T>{});
  return *(T(*)[n])a.data();
}

int num(std::partial_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
template <typename X, typename Y>
void equate(C& c, const X& x, const Y& y) {
  c.out(x == y);
  c.out(x != y);
  c.out(best::equal(x, y));
}
template <typename X, typename Y>
void order(C& c, const X& x, const Y& y) {
  equate(c, x, y);
  c.out(x < y);
  c.out(x <= y);
  c.out(x > y);
  c.out(x >= y);
  c.out(num(x <=> y));
  c.out(num(best::compare(x, y)));
}
template <typename T>
const T& use(const T& x) {
  return x;
}
template <typename T>
auto use(const Ok<T>& x) {
  return best::ok(x.v);
}
template <typename T>
auto use(const Err<T>& x) {
  return best::err(x.v);
}
template <typename X, typename Y>
void both(C& c) {
  ints.clear(), strs.clear();
  decltype(auto) x = make(c, Tag<X>{});
  decltype(auto) y = make(c, Tag<Y>{});
  if (c.is("cmp")) {
    order(c, use(x), use(y));
    order(c, use(y), use(x));
  } else {
    equate(c, use(x), use(y));
    equate(c, use(y), use(x));
  }
}

using best::box, best::choice, best::option, best::result, best::row, best::span, best::str, best::strbuf, best::vec;
struct Pair {
  const char* name;
  void (*go)(C&);
};
void exec(C& c) {
  int n = c.arg();
  switch (n) {
#define PAIR(n_, ...) \
  case n_: return both<__VA_ARGS__>(c);
#include CMP_PAIRS
  }
  _exit(98);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
