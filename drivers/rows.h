// Shared by the generated drivers for rows and type lists.
#ifndef VERIF_ROWS_H_
#define VERIF_ROWS_H_
#include <utility>

#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/meta/tlist.h"
#include "best/text/format.h"
#include "drv.h"

struct Key {};
template <int k>
struct E;
template <int k>
struct KeyOf {};
template <>
struct KeyOf<3> {
  using BestRowKey = Key;
};
template <>
struct KeyOf<4> {
  using BestRowKey = E<2>;
};
// An element knows how it came to be: 0 made, 1 copied (at any time), 2 moved.
template <int k>
struct E : KeyOf<k> {
  int v, how = 0;
  E(int v) : v(v) {}
  E(const E& e)
    requires(k != 5)
    : v(e.v), how(1) {}
  E(E&& e) : v(e.v), how(e.how == 1 ? 1 : 2) { e.v = -1; }
  E& operator=(const E&) = delete;
};
template <typename T>
struct Code;
template <int k>
struct Code<E<k>> {
  static constexpr int value = k;
};
template <typename T>
struct Code<const T> {
  static constexpr int value = 50 + Code<T>::value;
};
template <>
struct Code<best::empty> {
  static constexpr int value = 8;
};
template <>
struct Code<const void> {
  static constexpr int value = 8;
};
template <>
struct Code<void> {
  static constexpr int value = 8;
};
template <>
struct Code<Key> {
  static constexpr int value = 9;
};
template <typename T>
struct Code<const T&> {
  static constexpr int value = 10 + Code<T>::value;
};
template <typename T>
struct Code<T&> {
  static constexpr int value = 20 + Code<T>::value;
};
template <typename T>
struct Code<const T&&> {
  static constexpr int value = 30 + Code<T>::value;
};
template <typename T>
struct Code<T&&> {
  static constexpr int value = 40 + Code<T>::value;
};
template <int n>
struct Code<best::val<n>> {
  static constexpr int value = 100 + n;
};

using C = drv::Cmd;
template <typename T>
struct Named {
  static inline std::remove_cvref_t<T>* at[16];
};
// What the element in some place is made from.
template <typename T>
decltype(auto) source(int place, int v) {
  if constexpr (std::is_void_v<T>) {
    return best::empty{};
  } else if constexpr (std::is_reference_v<T>) {
    auto& p = Named<T>::at[place];
    delete p;
    p = new std::remove_cvref_t<T>(v);
    return (T)*p;
  } else {
    return T(v);
  }
}
template <typename T, typename X>
void out1(C& c, const X& x) {
  c.out(Code<T>::value);
  if constexpr (requires { x.how; }) {
    c.out(x.v);
    c.out(x.how);
  } else {
    c.out(0);
    c.out(0);
  }
}
template <typename... Ts>
void outrow(C& c, const best::row<Ts...>& r) {
  c.out(sizeof...(Ts));
  [&]<size_t... i>(std::index_sequence<i...>) {
    (out1<Ts>(c, r.get(best::index<i>)), ...);
  }(std::index_sequence_for<Ts...>{});
}
template <typename... Ts>
void fresh(best::row<Ts...>& r) {
  auto f = [](auto& x) {
    if constexpr (requires { x.how = 0; }) x.how = 0;
  };
  [&]<size_t... i>(std::index_sequence<i...>) {
    (f(const_cast<std::remove_const_t<std::remove_reference_t<decltype(r.get(best::index<i>))>>&>((const std::remove_reference_t<decltype(r.get(best::index<i>))>&)r.get(best::index<i>))), ...);
  }(std::index_sequence_for<Ts...>{});
}
template <typename R, int base>
struct Row {
  R r;
  ~Row() = default;
};
template <typename... Ts>
struct Maker {
  template <size_t... i>
  static best::row<Ts...> make(int base, std::index_sequence<i...>) {
    if constexpr (sizeof...(Ts) == 0) {
      return best::row<>{};
    } else {
      return best::row<Ts...>{source<Ts>((base == 10 ? 0 : 8) + (int)i, base + (int)i)...};
    }
  }
};
template <int base, typename... Ts>
best::row<Ts...> make() {
  auto r = Maker<Ts...>::make(base, std::index_sequence_for<Ts...>{});
  return r;
}
template <int q, typename S>
decltype(auto) as(S& s) {
  if constexpr (q == 0) return (const S&)s;
  if constexpr (q == 1) return (S&)s;
  if constexpr (q == 2) return (const S&&)s;
  if constexpr (q == 3) return (S&&)s;
}
// Whether the elements of a row are as they were made.
template <typename... Ts>
void intact(C& c, int base, const best::row<Ts...>& r) {
  bool ok = true;
  auto f = [&](int i, const auto& x) {
    if constexpr (requires { x.how; }) ok &= x.v == base + i && x.how == 0;
  };
  [&]<size_t... i>(std::index_sequence<i...>) {
    (f((int)i, r.get(best::index<i>)), ...);
  }(std::index_sequence_for<Ts...>{});
  c.out(ok);
}
template <typename... Ts>
void outlist(C& c, best::tlist<Ts...>) {
  c.out(sizeof...(Ts));
  (c.out(Code<Ts>::value), ...);
}
template <typename O>
void outopt(C& c, O o) {
  c.out(o.has_value() ? (int)*o : -1);
}
// A call with references to elements.
struct Sink {
  C& c;
  template <typename T>
  void one(T&& x) const {
    using U = std::remove_cvref_t<T>;
    if constexpr (std::is_same_v<U, best::empty>) {
      out1<void>(c, x);
    } else {
      out1<T&&>(c, x);
    }
  }
  template <typename... A>
  int operator()(A&&... a) const {
    c.out(sizeof...(A));
    (one<A>((A&&)a), ...);
    return 7;
  }
};
#endif
