// Histories of operations on optionals, results and choices.
//
// KIND gives the alternatives (see vp/sums.py); FAC what they are wrapped in:
// 0 a choice, 1 an optional (whose alternative 0 is to be empty), 2 a result.
#include <utility>

#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/iter/bounds.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "drv.h"
#include "probe.h"

using V = void;
using O = probe::Pinned<8, 8>;
using L = probe::Loose<64, 1>;
using X = probe::Const;
using M = probe::MoveOnly;
using I = int;
using R = int&;
using B = best::box<O>;
using C = unsigned char;

#if FAC == 0
using S = best::choice<ALTS>;
#elif FAC == 1
template <typename, typename T>
struct pick {
  using type = best::option<T>;
};
using S = pick<ALTS>::type;
#else
using S = best::result<ALTS>;
#endif
constexpr auto Types = best::types<ALTS>;
constexpr size_t Alts = decltype(Types)::size();
template <size_t n>
using Alt = decltype(Types)::template type<n>;
// Whether the sums can be copied: they do not say so themselves.
template <typename... A>
constexpr bool can_copy(best::tlist<A...>) {
  return !(best::same<A, M> || ...);
}
template <typename S>
constexpr bool Copies = can_copy(Types);

constexpr int N = 3, Cells = 2;
int cells[Cells];
struct Reg {
  alignas(S) char mem[sizeof(S)];
  int on = 0;  // 2: moved from.
  S& operator*() { return *std::launder((S*)mem); }
  template <typename... Args>
  void make(Args&&... x) {
    drop();
    new (mem) S((Args&&)x...);
    on = 1;
  }
  void drop() {
    if (on) (**this).~S();
    memset(mem, 0xa5, sizeof(mem));
    on = 0;
  }
} regs[N];

size_t which(const S& s) {
#if FAC == 0
  return s.which();
#elif FAC == 1
  bool b = s.has_value();
  return b == !s.is_empty() && b == (bool)s && b == (s != best::none) ? b : 9;
#else
  bool e = s.is_err();
  return e == !s.is_ok() && e == !(bool)s ? e : 9;
#endif
}

// What a payload is worth.
template <typename T>
int64_t worth(const T& t) {
  if constexpr (best::same<T, B>) {
    return t->value();
  } else if constexpr (requires { t.value(); }) {
    return t.value();
  } else {
    for (int i = 0; i < Cells; ++i)
      if ((const void*)&t == &cells[i]) return i;
    return (int64_t)t;
  }
}
int64_t worth(const best::empty&) { return 0; }
int64_t worth() { return 0; }

// Calls f with what makes alternative n hold v.
template <size_t n>
void with(int v, auto f) {
  using T = Alt<n>;
  if constexpr (best::is_void<T>) {
    f();
  } else if constexpr (best::same<T, R>) {
    f(cells[v]);
  } else if constexpr (best::same<T, B>) {
    f(B(best::in_place, v));
  } else if constexpr (best::same<T, C>) {
    f((C)v);
  } else {
    f((int)v);
  }
}
// Calls f<n>() for the alternative.
template <size_t n = 0>
void pick_alt(size_t w, auto f) {
  if constexpr (n < Alts) {
    if (w == n) return f(best::index<n>);
    pick_alt<n + 1>(w, f);
  }
}
// Calls f with the value that is held, whatever it is.
void held(S& s, auto f) {
#if FAC == 0
  pick_alt(s.which(), [&]<size_t n>(best::index_t<n> i) {
    if constexpr (best::is_void<Alt<n>>) {
      f();
    } else {
      f(s[i]);
    }
  });
#elif FAC == 1
  if (!s.has_value()) return f();
  if constexpr (best::is_void<Alt<1>>) {
    f();
  } else {
    f(s.value());
  }
#else
  pick_alt(which(s), [&]<size_t n>(best::index_t<n> i) {
    if constexpr (best::is_void<Alt<n>>) {
      f();
    } else if constexpr (n == 0) {
      f(*((best::dependent<S, best::index_t<n>>&)s).ok());
    } else {
      f(*((best::dependent<S, best::index_t<n>>&)s).err());
    }
  });
#endif
}
void reset() {
  for (auto& r : regs) {
    r.on = 0;
    memset(r.mem, 0xa5, sizeof(r.mem));
  }
  for (auto& c : cells) c = 0;
  probe::reset();
}
std::string snap() {
  std::string s = "{\"r\":[";
  for (int i = 0; i < N; ++i) {
    if (i) s += ",";
    auto& Q = regs[i];
    int64_t w = -1, x = -1;
    std::vector<int64_t> ids, vals;
    if (Q.on) {
      w = which(*Q);
      held(*Q, [&](auto&... t) {
        auto look = [&]<typename P>(const P& o) {
          if constexpr (best::same<P, B>) {
            if (Q.on == 1 || o.raw() != best::ptr<O>::dangling().raw()) {
              ids.push_back(o->id());
              vals.push_back(o->value());
            }
          } else if constexpr (requires { o.intact(); }) {
            ids.push_back(o.id());
            vals.push_back(o.value());
          }
        };
        (look(t), ...);
        if (Q.on == 1) x = worth(t...);
      });
      if (Q.on == 2) w = -1;
    }
    s += "{\"on\":" + std::to_string(Q.on) + ",\"w\":" + std::to_string(w) + ",\"x\":" + std::to_string(x) +
         ",\"n\":" + std::to_string(ids.size()) + ",\"id\":" + drv::ints(ids) + ",\"val\":" + drv::ints(vals) + "}";
  }
  return s + "],\"cells\":" + drv::ints(std::vector<int64_t>(cells, cells + Cells)) + ",\"life\":" + drv::ints(probe::log) + "}";
}

// Calls f with one of the four kinds of reference to s.
template <typename S>
void as(int q, S& s, auto f) {
  switch (q) {
    case 0: return f((const S&)s);
    case 1: return f((S&)s);
    case 2: return f((const S&&)s);
    case 3: return f((S&&)s);
  }
}
template <typename T>
void opt(drv::Cmd& c, const best::option<T>& o) {
  c.out(o.has_value());
  if constexpr (best::is_void<T>) {
    c.out(0);
  } else {
    c.out(o.has_value() ? worth(*o) : 0);
  }
}
template <typename T, typename E>
void res(drv::Cmd& c, const best::result<T, E>& r) {
  c.out(r.is_err());
  if (r.is_ok()) {
    if constexpr (best::is_void<T>) {
      c.out(0);
    } else {
      c.out(worth(*r.ok()));
    }
  } else {
    if constexpr (best::is_void<E>) {
      c.out(0);
    } else {
      c.out(worth(*r.err()));
    }
  }
}

template <typename S>
void go(drv::Cmd& c) {
  constexpr bool copies = Copies<S>;
  probe::log.clear();
  auto& Rj = regs[c.arg()];
  if (c.is("new")) {
    size_t w = c.arg();
    int v = c.arg();
    Rj.drop();
    pick_alt(w, [&]<size_t n>(best::index_t<n> i) {
      with<n>(v, [&](auto&&... x) {
#if FAC == 0
        Rj.make(i, BEST_FWD(x)...);
#elif FAC == 1
        if constexpr (n == 0) {
          if (v % 2) {
            Rj.make(best::none);
          } else {
            Rj.make();
          }
        } else {
          Rj.make(best::in_place, BEST_FWD(x)...);
        }
#else
        if constexpr (n == 0) {
          Rj.make(best::ok(BEST_FWD(x)...));
        } else {
          Rj.make(best::err(BEST_FWD(x)...));
        }
#endif
      });
    });
  }
  if (c.is("put")) {
    size_t w = c.arg();
    int v = c.arg();
    pick_alt(w, [&]<size_t n>(best::index_t<n> i) {
      with<n>(v, [&](auto&&... x) {
        const void* at = nullptr;
#if FAC == 0
        if constexpr (best::is_void<Alt<n>>) {
          (*Rj).emplace(i, BEST_FWD(x)...);
        } else {
          at = &(*Rj).emplace(i, BEST_FWD(x)...);
        }
#elif FAC == 1
        if constexpr (n == 0) {
          if (v % 2) {
            *Rj = best::none;
          } else {
            (*Rj).reset();
          }
        } else if constexpr (best::is_void<Alt<n>>) {
          (*Rj).emplace(BEST_FWD(x)...);
        } else {
          at = &(*Rj).emplace(BEST_FWD(x)...);
        }
#else
        if constexpr (n == 0) {
          *Rj = S(best::ok(BEST_FWD(x)...));
        } else {
          *Rj = S(best::err(BEST_FWD(x)...));
        }
#endif
        // What emplacing returns is where the value is.
        bool same = true;
        if (at) held(*Rj, [&](auto&... t) { same = (... && ((const void*)&t == at)); });
        c.out(same);
      });
    });
    Rj.on = 1;
  }
  if (c.is("moven")) {
    auto& Q = regs[c.arg()];
    Rj.drop();
    Rj.make(std::move(*Q));
    if (Q.on == 2) Rj.on = 2;
    Q.on = 2;
  }
  if (c.is("movea")) {
    auto& Q = regs[c.arg()];
    *Rj = std::move(*Q);
    if (&Q != &Rj) Rj.on = Q.on;
    Q.on = 2;
  }
  if (c.is("swap")) {
    auto& Q = regs[c.arg()];
    std::swap(*Rj, *Q);
    std::swap(Rj.on, Q.on);
  }
  if constexpr (copies) {
    if (c.is("copyn")) Rj.make((const S&)*regs[c.arg()]);
    if (c.is("copya")) {
      *Rj = (const S&)*regs[c.arg()];
      Rj.on = 1;
    }
  }
  if (c.is("drop")) Rj.drop();
  // The held value is changed in place; of a reference, what it refers to.
  if (c.is("set")) {
    int v = c.arg();
    held(*Rj, [&](auto&... t) {
      auto put = [&](auto& o) {
        if constexpr (requires { o->set(v); }) {
          probe::put(probe::Change, o->id(), v);
          o->set(v);
        } else if constexpr (requires { o.set(v); }) {
          probe::put(probe::Change, o.id(), v);
          o.set(v);
        } else if constexpr (requires { o = v; }) {
          o = v;
        }
      };
      (put(t), ...);
    });
  }
  if (c.is("cell")) {
    int i = c.arg();
    cells[i] = c.arg();
  }
  S& s = *Rj;
#if FAC == 0
  // Every checked form at once.
  if (c.is("at")) {
    pick_alt(c.arg(), [&]<size_t n>(best::index_t<n> i) {
      for (int q = 0; q < 4; ++q) as(q, s, [&](auto&& o) { opt(c, BEST_FWD(o).at(i)); });
      for (int q = 0; q < 4; ++q) as(q, s, [&](auto&& o) { c.out(BEST_FWD(o).object(i).has_value()); });
      const void* p = nullptr;
      if constexpr (!best::is_void<Alt<n>>)
        if (s.at(i)) p = &*s.at(i);
      bool ok = true;
      if constexpr (!best::is_void<Alt<n>>) ok = s.as_ptr(i) == p && std::as_const(s).as_ptr(i) == p;
      c.out(ok);
      ok = true;
      if constexpr (std::is_object_v<Alt<n>>)
        if (s.object(i)) ok = (const void*)&*s.object(i) == p;
      c.out(ok);
    });
  }
  if (c.is("idx")) {
    pick_alt(c.arg(), [&]<size_t n>(best::index_t<n> i) {
      as(c.arg(), s, [&](auto&& o) {
        if constexpr (best::is_void<Alt<n>>) {
          BEST_FWD(o)[i];
          c.out(0);
        } else {
          c.out(worth(BEST_FWD(o)[i]));
        }
      });
    });
  }
  if (c.is("match")) {
    int q = c.arg();
    for (int by = 0; by < 2; ++by) {
      int calls = 0;
      int64_t idx = -1, args = -1, w = -1, fit = 1;
      auto seen = [&](auto&&... x) {
        ++calls;
        args = sizeof...(x);
        w = worth(x...);
        bool rv = q >= 2, ct = q % 2 == 0;
        auto is = [&]<typename Y>(Y&& y) {
          if constexpr (!best::same<std::remove_cvref_t<Y>, int> && !best::same<std::remove_cvref_t<Y>, best::empty>) {
            fit = std::is_rvalue_reference_v<Y&&> == rv && std::is_const_v<std::remove_reference_t<Y>> == ct;
          }
        };
        (is(BEST_FWD(x)), ...);
      };
      as(q, s, [&](auto&& o) {
        int64_t r;
        if (by) {
          r = BEST_FWD(o).match([&](auto&&... x) { seen(BEST_FWD(x)...); return (int64_t)5; });
          idx = o.which();
        } else {
          r = BEST_FWD(o).index_match([&](auto i, auto&&... x) {
            seen(BEST_FWD(x)...);
            idx = i.value;
            return (int64_t)5;
          });
        }
        c.out(r == 5);
      });
      c.out(idx).out(args).out(w).out(calls).out(fit);
    }
  }
  // A handler for each type.
  if (c.is("cases")) {
#ifdef DISTINCT
    [&]<size_t... i>(std::index_sequence<i...>) {
      s.match([&]<size_t n>(best::index_t<n>) {
        if constexpr (best::is_void<Alt<n>>) {
          return [&] { c.out(n).out(0); };
        } else {
          return [&](best::as_ref<Alt<n>> x) { c.out(n).out(worth(x)); };
        }
      }(best::index<i>)...);
      s.index_match([&]<size_t n>(best::index_t<n>) {
        if constexpr (best::is_void<Alt<n>>) {
          return [&](best::index_t<n>) { c.out(n).out(0); };
        } else {
          return [&](best::index_t<n>, best::as_ref<Alt<n>> x) { c.out(n).out(worth(x)); };
        }
      }(best::index<i>)...);
    }(std::make_index_sequence<Alts>{});
#endif
  }
  if constexpr (Alts > 1) {
    if (c.is("perm")) {
      int q = c.arg();
      as(q, s, [&](auto&& o) {
        if constexpr (copies || best::same<decltype(o), S&&>) {
          [&]<size_t... i>(std::index_sequence<i...>) {
            auto p = BEST_FWD(o).template permute<(i + 1) % Alts...>();
            static_assert(best::same<decltype(p), best::choice<Alt<(i + 1) % Alts>...>>);
            c.out(p.which());
            p.index_match([&](auto, auto&&... x) { c.out(worth(x...)); });
          }(std::make_index_sequence<Alts>{});
        }
      });
      if (q == 3) Rj.on = 2;
    }
  }
#endif
#if FAC == 1
  using T = Alt<1>;
  // The value, or a stop.
  if (c.is("get")) {
    int f = c.arg();
    if (f < 8) {
      as(f % 4, s, [&](auto&& o) {
        if constexpr (best::is_void<T>) {
          f < 4 ? BEST_FWD(o).value() : *BEST_FWD(o);
          c.out(0);
        } else {
          c.out(f < 4 ? worth(BEST_FWD(o).value()) : worth(*BEST_FWD(o)));
        }
      });
    } else {
      const void* p = f == 8 ? (const void*)std::as_const(s).operator->() : (const void*)s.operator->();
      bool same = true;
      held(s, [&](auto&... x) { same = (... && ((const void*)&x == p)); });
      held(s, [&](auto&... x) { c.out(same ? worth(x...) : -9); });
    }
  }
  if (c.is("refs")) {
    for (int q = 0; q < 4; ++q) {
#ifdef OFVOID
      q % 2 ? opt(c, s.as_ref()) : opt(c, std::move(s).as_ref());
#else
      as(q, s, [&](auto&& o) { opt(c, BEST_FWD(o).as_ref()); });
#endif
    }
    for (int q = 0; q < 4; ++q) as(q, s, [&](auto&& o) { c.out(BEST_FWD(o).as_object().has_value()); });
    bool ok = true;
    if constexpr (!best::is_void<T>) {
      const void* p = nullptr;
      if (s.has_value()) p = &*s;
      ok = s.as_ptr() == p && std::as_const(s).as_ptr() == p && (!p || (const void*)&*s.as_ref() == p);
    }
    c.out(ok);
  }
#ifndef OFVOID
  {
    // By value, by default: the value, or what is made of the arguments.
    if (c.is("or_value")) {
      int q = c.arg(), v = c.arg(), calls = 0;
      bool fn = c.arg();
      as(q, s, [&](auto&& o) {
        if constexpr ((copies || best::same<decltype(o), S&&>) && !best::same<T, R>) {
          using W = best::as_auto<T>;
          auto mk = [&] {
            ++calls;
            if constexpr (best::same<T, B>) {
              return B(best::in_place, v);
            } else {
              return W(v);
            }
          };
          if (fn) {
            W x = BEST_FWD(o).value_or(mk);
            c.out(worth(x)).out(calls);
          } else {
            if constexpr (best::same<T, B>) {
              W x = BEST_FWD(o).value_or(best::in_place, v);
              c.out(worth(x)).out(0);
            } else {
              W x = BEST_FWD(o).value_or(v);
              c.out(worth(x)).out(0);
            }
          }
        }
      });
      if (q == 3) Rj.on = 2;
    }
    if (c.is("copy")) {
      int q = c.arg();
      as(q, s, [&](auto&& o) {
        if constexpr ((copies || best::same<decltype(o), S&&>) && !best::same<T, R>) {
          opt(c, BEST_FWD(o).copy());
        } else if constexpr (best::same<T, R>) {
          auto x = BEST_FWD(o).copy();
          c.out(x.has_value()).out(x ? (&*x != &*o && *x == *o ? worth(*o) : -9) : 0);
        }
      });
      if (q == 3) Rj.on = 2;
    }
    if (c.is("or_emplace")) {
      int v = c.arg();
      with<1>(v, [&](auto&&... x) {
        auto& y = s.or_emplace(BEST_FWD(x)...);
        c.out(&y == &*s);
      });
    }
  }
#endif
  int64_t w = -9;
  int calls = 0;
  auto fun = [&](auto&&... x) {
    ++calls;
    w = worth(x...);
    return (int)(2 * w + 1);
  };
  auto odd = [&](auto&&... x) {
    ++calls;
    w = worth(x...);
    return w % 2 == 1;
  };
  if (c.is("map")) {
    int q = c.arg();
    as(q, s, [&](auto&& o) { opt(c, BEST_FWD(o).map(fun)); });
    c.out(calls);
  }
  if (c.is("map_or")) {
    int q = c.arg(), d = c.arg();
    bool fn = c.arg();
    int made = 0;
    as(q, s, [&](auto&& o) {
      if (fn) {
        c.out(BEST_FWD(o).map([&] { ++made; return d; }, fun));
      } else {
        c.out(BEST_FWD(o).map(d, fun));
      }
    });
    c.out(calls).out(made);
  }
  if (c.is("then")) {
    int q = c.arg();
    auto f = [&](auto&&... x) -> best::option<int> {
      if (odd(x...)) return best::none;
      return (int)w + 7;
    };
    as(q, s, [&](auto&& o) { opt(c, BEST_FWD(o).then(f)); });
    c.out(calls);
  }
  if (c.is("has")) {
    c.out(s.has_value(odd)).out(calls);
  }
  if (c.is("inspect")) {
    int q = c.arg();
    as(q, s, [&](auto&& o) {
      auto&& r = BEST_FWD(o).inspect(fun);
      static_assert(best::same<decltype(r), decltype(o)>);
      c.out(&r == &o);
    });
    c.out(calls).out(w == -9 ? 0 : w);
  }
  // With another optional, and alone; what is an rvalue may be moved out of.
  if (c.is("filter")) {
    bool mv = c.arg();
    if (mv) {
      opt(c, std::move(s).filter(odd));
      Rj.on = 2;
    } else {
      if constexpr (copies) opt(c, std::as_const(s).filter(odd));
    }
    c.out(calls);
  }
  if (c.is("and") || c.is("or") || c.is("xor")) {
    auto& Q = regs[c.arg()];
    bool mv = c.arg();
    S& t = *Q;
    if (mv) {
      if (c.is("and")) opt(c, std::move(s) & std::move(t));
      if (c.is("or")) opt(c, std::move(s) | std::move(t));
      if (c.is("xor")) opt(c, std::move(s) ^ std::move(t));
      Rj.on = Q.on = 2;
    } else {
      if constexpr (copies) {
        const S &cs = s, &ct = t;
        if (c.is("and")) opt(c, cs & ct);
        if (c.is("or")) opt(c, cs | ct);
        if (c.is("xor")) opt(c, cs ^ ct);
      }
    }
  }
  if (c.is("ok_or") || c.is("err_or")) {
    bool err = c.is("err_or");
    int q = c.arg(), style = c.arg(), v = c.arg();
    as(q, s, [&](auto&& o) {
      if constexpr (copies || best::same<decltype(o), S&&>) {
        auto mk = [&] { ++calls; return v; };
        if (err) {
          if (style == 0) res(c, BEST_FWD(o).template err_or<int>(v));
          if (style == 1) res(c, BEST_FWD(o).err_or(v));
          if (style == 2) res(c, BEST_FWD(o).err_or(mk));
        } else {
          if (style == 0) res(c, BEST_FWD(o).template ok_or<int>(v));
          if (style == 1) res(c, BEST_FWD(o).ok_or(v));
          if (style == 2) res(c, BEST_FWD(o).ok_or(mk));
        }
      }
    });
    c.out(calls);
    if (q == 3) Rj.on = 2;
  }
  // From a pointer, which may be null.
  if (c.is("ptr")) {
    int i = c.arg();
    bool assign = c.arg();
#ifdef REFS
    int* p = i < 0 ? nullptr : &cells[i];
    if (assign) {
      s = p;
      c.out(s == p);
    } else {
      Rj.make(p);
      c.out(*Rj == p);
    }
#else
    (void)i, (void)assign;
#endif
  }
  // From an optional of something else.
  if (c.is("conv")) {
    bool has = c.arg();
    int v = c.arg();
    int how = c.arg();
    if constexpr (best::constructible<T, const int&> && !best::is_void<T> && !best::same<T, R> && !best::same<T, int>) {
      best::option<int> from;
      if (has) from = v;
      if (how == 0) Rj.make(from);
      if (how == 1) Rj.make(std::move(from));
      if (how == 2) s = from;
      if (how == 3) s = std::move(from);
      if (how == 4 && has) {
        if constexpr (best::moveable<T>) s = T(v);
      } else if (how == 4) {
        s = best::none;
      }
    }
  }
#endif
#if FAC == 2
  int64_t w = 0;
  int calls = 0;
  auto fun = [&](auto&&... x) {
    ++calls;
    w = worth(x...);
    return (int)(2 * w + 1);
  };
  if (c.is("sides")) {
    for (int q = 0; q < 4; ++q) {
      as(q, s, [&](auto&& o) { opt(c, BEST_FWD(o).ok()); });
      as(q, s, [&](auto&& o) { opt(c, BEST_FWD(o).err()); });
    }
  }
  if (c.is("get")) {
    int f = c.arg();
    if (f < 4) {
      as(f, s, [&](auto&& o) {
        if constexpr (best::is_void<Alt<0>>) {
          *BEST_FWD(o);
          c.out(0);
        } else {
          c.out(worth(*BEST_FWD(o)));
        }
      });
    } else {
      const void* p = f == 4 ? (const void*)std::as_const(s).operator->() : (const void*)s.operator->();
      bool same = true;
      held(s, [&](auto&... x) { same = (... && ((const void*)&x == p)); });
      held(s, [&](auto&... x) { c.out(same ? worth(x...) : -9); });
    }
  }
  if (c.is("map") || c.is("map_err") || c.is("then")) {
    int q = c.arg();
    as(q, s, [&](auto&& o) {
      if constexpr (copies || best::same<decltype(o), S&&>) {
        if (c.is("map")) res(c, BEST_FWD(o).map(fun));
        if (c.is("map_err")) res(c, BEST_FWD(o).map_err(fun));
        if (c.is("then")) {
          res(c, BEST_FWD(o).then([&](auto&&... x) -> best::result<int, Alt<1>> {
            return best::ok(fun(x...));
          }));
        }
      }
    });
    c.out(calls);
    if (q == 3) Rj.on = 2;
  }
  // From a result of something else.
  if (c.is("conv")) {
    bool err = c.arg();
    int v = c.arg();
    int how = c.arg();
    auto go = [&](auto& from) {
      if (how == 0) Rj.make(from);
      if (how == 1) Rj.make(std::move(from));
      if (how == 2) s = from;
      if (how == 3) s = std::move(from);
    };
#ifdef FROM
    using F = best::result<FROM>;
    if (err) {
      F f{best::err(v)};
      go(f);
    } else {
#ifdef FROMVOID
      F f{best::ok<>()};
#else
      F f{best::ok(v)};
#endif
      go(f);
    }
#else
    (void)err, (void)v, (void)go;
#endif
  }
#endif
  c.s = snap();
}
void exec(drv::Cmd& c) { go<S>(c); }
int main(int argc, char** argv) { return drv::run(argc, argv, exec, reset); }
