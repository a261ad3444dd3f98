// Reflection of generated types: what each reported item is, and what it does.
#ifndef VERIF_REFL_H_
#define VERIF_REFL_H_
#include <cstring>
#include <tuple>
#include <utility>
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/memory/span_sort.h"
#include "best/meta/reflect.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"
#include "drv.h"

using C = drv::Cmd;

// Tags. One and Three answer to the key KeyA, and all to their own type.
struct KeyA {};
struct KeyB {};
struct One { using BestRowKey = KeyA; int v; };
struct Two { int v; };
struct Three { using BestRowKey = KeyA; int v; };

// Field types.
struct Duo { int a, b; };
struct NoDef { NoDef(int x) : v(x) {} int v; };
struct Mover { explicit Mover(int x) : v(x) {} Mover(Mover&&) = default; Mover& operator=(Mover&&) = default; int v; };
template <class F> struct Kind;
#define VERIF_KIND(code_, make_, read_, ...)                                  \
  template <> struct Kind<__VA_ARGS__> {                                      \
    static constexpr int code = code_;                                        \
    static __VA_ARGS__ make(int x) { return make_; }                          \
    static int read(const __VA_ARGS__& f) { return read_; }                   \
  };
VERIF_KIND(1, (short)x, f, short)
VERIF_KIND(2, (unsigned char)x, f, unsigned char)
VERIF_KIND(3, x, f, int)
VERIF_KIND(4, x, (int)f, long)
VERIF_KIND(5, best::option<int>(x), *f, best::option<int>)
VERIF_KIND(6, best::format("{}", x), atoi(std::string(f.data(), f.size()).c_str()), best::strbuf)
VERIF_KIND(7, (best::vec<int>{x, x}), f[0], best::vec<int>)
VERIF_KIND(8, (Duo{x, x}), f.b, Duo)
VERIF_KIND(9, NoDef(x), f.v, NoDef)
VERIF_KIND(10, Mover(x), f.v, Mover)
VERIF_KIND(11, best::box<int>(x), *f, best::box<int>)
VERIF_KIND(12, x, (int)f, double)
template <class F> struct Kind<const F> : Kind<F> { static constexpr int code = 100 + Kind<F>::code; };

template <class T>
int cat() {
  using V = std::remove_reference_t<T>;
  return (std::is_lvalue_reference_v<T> ? 1 : std::is_rvalue_reference_v<T> ? 2 : 0) + (std::is_const_v<V> ? 10 : 0);
}

inline void text(C& c, best::str s) { c.out(s.size()).outb({s.data(), s.size()}); }
template <class R>
void tags(C& c, const R& row) {
  c.out(row.size());
  row.each([&](const auto& t) {
    using X = best::as_auto<decltype(t)>;
    if constexpr (std::is_same_v<X, int>) c.out(4).out(t);
    else c.out(std::is_same_v<X, One> ? 1 : std::is_same_v<X, Two> ? 2 : 3).out(t.v);
  });
}
template <class X>
void select(C& c, int sel, X x) {
  switch (sel) {
    case 1: return tags(c, x.tags(best::types<One>));
    case 2: return tags(c, x.tags(best::types<Two>));
    case 3: return tags(c, x.tags(best::types<Three>));
    case 4: return tags(c, x.tags(best::types<int>));
    case 5: return tags(c, x.tags(best::types<KeyA>));
    case 6: return tags(c, x.tags(best::types<KeyB>));
  }
}
inline best::str word(std::string& s) { return *best::str::from(best::span<const char>(s.data(), s.size())); }

// Which member is this the address of? Types are compared too.
template <class D, class T, class P>
int which(const T& x, P* p) {
  int r = 0, n = 0;
  std::apply([&](auto... pm) {
    ((++n, (void)0, [&] { if ((const volatile void*)&(x.*pm) == (const volatile void*)p) r = n; }()), ...);
  }, D::members);
  return r;
}
template <class D, class T>
void values(C& c, const T& x) {
  std::apply([&](auto... pm) { (c.out(Kind<best::as_auto<decltype(x.*pm)>>::read(x.*pm)), ...); }, D::members);
}
template <class D, class T>
void item(C& c, T& x, auto f) {
  text(c, f.name());
  if constexpr (best::is_enum<T>) {
    c.out((int64_t)f.value);
  } else {
    c.out(which<D>(x, &(x->*f))).out(Kind<typename decltype(f)::type>::code);
  }
}
template <class D>
void names(C& c) {
  using T = typename D::T;
  if (c.is("names")) {
    constexpr best::type_names n = best::type_names::of<T>;
    for (best::str s : {n.name(), n.path(), n.name_space(), n.params(), n.name_with_params(), n.path_with_params(),
                        best::type_name<T>}) text(c, s);
  } else {  // is it reflected?
    c.out(best::is_reflected_struct<T>).out(best::is_reflected_enum<T>).out(best::reflected<T>)
     .out(best::is_reflected_struct<const T&>).out(best::is_reflected_enum<T&&>);
  }
}

template <class D>
void common(C& c) {
  using T = typename D::T;
  constexpr const auto& r = best::reflect<T>;
  if (c.is("names") || c.is("is")) return names<D>(c);
  T x = D::make(0);
  int sel = c.is("ttags") || c.is("itags") ? c.arg() : 0;
  if (c.is("ttags")) {
    select(c, sel, r);
  } else if (c.is("itags")) {
    r.each([&](auto f) { select(c, sel, f); });
  } else if (c.is("each")) {
    text(c, r.name());
    text(c, r.names().path_with_params());
    r.each([&](auto f) { item<D>(c, x, f); });
  } else if (c.is("apply")) {
    c.out(r.apply([&](auto... f) {
      (item<D>(c, x, f), ...);
      return sizeof...(f);
    }));
  } else if (c.is("match")) {
    std::string s = c.bytes();
    c.out(r.match(word(s), [&] { return 0; }, [&](auto f) { item<D>(c, x, f); return 1; }));
  } else if (c.is("fmt")) {
    if constexpr (D::Plain) text(c, best::format("{:?}", x));
  }
}

template <class D>
void on_enum(C& c) {
  using T = typename D::T;
  constexpr const auto& r = best::reflect<T>;
  if (c.is("matchv")) {
    T x = T(c.arg());
    c.out(r.match(x, [&](auto f) { item<D>(c, x, f); return 1; }, [] { return 0; }));
  } else if (c.is("vname")) {
    int at = c.arg(), n = 0;
    D::probes.each([&]<T v> {
      if (n++ != at) return;
      if (auto s = best::value_name<v>) text(c, *s);
      else c.kind("none");
    });
  } else if (c.is("vfmt")) {
    text(c, best::format("{:?}", T(c.arg())));
  } else common<D>(c);
}

template <class D>
void on_struct(C& c) {
  using T = typename D::T;
  if constexpr (!best::is_reflected_struct<T>) return names<D>(c);
  else {
    constexpr const auto& r = best::reflect<T>;
    if (c.is("cats")) {
      T x = D::make(0);
      r.each([&](auto f) {
        c.out(cat<decltype(x->*f)>()).out(cat<decltype(std::as_const(x)->*f)>()).out(cat<decltype(std::move(x)->*f)>())
         .out(cat<decltype(std::move(std::as_const(x))->*f)>()).out(cat<decltype(&x->*f)>())
         .out(cat<decltype(&std::as_const(x)->*f)>());
        // They all are the same member.
        c.out(&(x->*f) == &(std::as_const(x)->*f) && &(x->*f) == &(&x->*f) && &(x->*f) == &(&std::as_const(x)->*f));
        auto&& z = std::move(x)->*f;
        c.out(&z == &(x->*f));
      });
    } else if (c.is("set")) {
      int to = c.arg();
      std::string s = c.bytes();
      T x = D::make(0);
      c.out(r.match(word(s), [&](auto f) {
        if constexpr (!std::is_const_v<typename decltype(f)::type>) (x->*f) = Kind<typename decltype(f)::type>::make(to);
        return 1;
      }, [] { return 0; }));
      values<D>(c, x);
    } else if (c.is("zip")) {
      int n = c.arg();
      T x = D::make(0), y = D::make(20), z = D::make(40);
      auto see = [&](auto&&... f) {
        (c.out(cat<decltype(f)>()).out(Kind<best::as_auto<decltype(f)>>::read(f)), ...);
        auto poke = [](auto& a, auto&...) {
          using F = std::remove_reference_t<decltype(a)>;
          if constexpr (!std::is_const_v<F>) a = Kind<F>::make(Kind<F>::read(a) + 50);
        };
        poke(f...);
      };
      switch (n) {
        case 1: r.zip_fields(x, see); break;
        case 2: r.zip_fields(x, std::as_const(y), see); break;
        case 3: r.zip_fields(x, std::move(y), std::as_const(z), see); break;
      }
      values<D>(c, x);
      values<D>(c, y);
    } else if (c.is("fields")) {
      int k = c.arg();
      T x = D::make(0);
      auto see = [&](auto&& row) {
        c.out(row.size());
        row.types.each([&]<class F> { c.out(cat<F>()); });
        row.each([&](auto& f) { c.out(which<D>(x, &f)); });
      };
      switch (k) {
        case 1: see(best::fields(x)); break;
        case 2: see(best::fields(std::as_const(x))); break;
        case 3: see(best::fields(std::move(x))); break;
      }
    } else if (c.is("fname")) {
      int at = c.arg();
      D::fname(c, at);
    } else common<D>(c);
  }
}
#endif
