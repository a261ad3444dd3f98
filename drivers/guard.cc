// Early returns through BEST_GUARD(): what is evaluated, returned and moved.
// go SRC RET N (how register value)*N H (value)*H
#include <deque>
#include <utility>
#include "best/base/guard.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "drv.h"
using C = drv::Cmd;

constexpr int Gone = -7777;
int copies = 0;
// An error that notices being copied or moved from.
struct L {
  int v;
  explicit L(int v) : v(v) {}
  L(const L& o) : v(o.v) { ++copies; }
  L(L&& o) : v(std::exchange(o.v, Gone)) {}
  L& operator=(const L& o) { return v = o.v, ++copies, *this; }
  L& operator=(L&& o) { return v = std::exchange(o.v, Gone), *this; }
  L twice() const { return L(2 * v); }
  const L& self() const { return *this; }
  L neg() && { return L(-std::exchange(v, Gone)); }
};
// One that can only be moved.
struct U {
  int v;
  explicit U(int v) : v(v) {}
  U(U&& o) : v(std::exchange(o.v, Gone)) {}
  U& operator=(U&& o) { return v = std::exchange(o.v, Gone), *this; }
  U twice() const { return U(2 * v); }
  U neg() && { return U(-std::exchange(v, Gone)); }
};
// One that others convert to.
struct M {
  int v;
  M(const L& o) : v(o.v + 1000) { ++copies; }
  M(L&& o) : v(std::exchange(o.v, Gone) + 1000) {}
};
L pool[4] = {L(0), L(1), L(2), L(3)};
int cell = 5;
template <class X>
int num(const X& x) {
  if constexpr (std::is_arithmetic_v<X>) return x;
  else return x.v;
}

template <class S>
constexpr bool opt = requires(const S& s) { s.has_value(); } && !requires(const S& s) { s.err(); };
template <class S>
S make(int x) {
  if constexpr (std::is_same_v<S, best::option<int>> || std::is_same_v<S, best::option<L>>) {
    if (x < 0) return best::none;
    return S(best::in_place, x);
  } else if constexpr (std::is_same_v<S, best::option<void>>) {
    if (x < 0) return best::none;
    return S(best::in_place);
  } else if constexpr (std::is_same_v<S, best::option<int&>>) {
    if (x < 0) return best::none;
    return S(cell);
  } else if constexpr (std::is_same_v<S, best::result<int, L&>>) {
    if (x < 0) return best::err(pool[-x % 4]);
    return best::ok(x);
  } else {
    if (x < 0) {
      if constexpr (std::is_same_v<S, best::result<int, U>>) return best::err(U(x));
      else return best::err(L(x));
    }
    if constexpr (std::is_same_v<S, best::result<void, L>>) return best::ok();
    else if constexpr (std::is_same_v<S, best::result<int&, L>>) return best::ok(cell);
    else if constexpr (std::is_same_v<S, best::result<L, L>>) return best::ok(L(x));
    else return best::ok(x);
  }
}
template <class R>
R done(int n) {
  if constexpr (std::is_same_v<R, best::option<void>>) return R(best::in_place);
  else if constexpr (std::is_same_v<R, best::option<int&>>) return cell = n, R(cell);
  else if constexpr (opt<R>) return R(best::in_place, n);
  else if constexpr (std::is_void_v<typename R::ok_type>) return best::ok();
  else return best::ok(n);
}
// Is it fine, and what is the error?
template <class S>
void show(C& c, S& s) {
  if (static_cast<bool>(s)) {
    c.out(1);
    if constexpr (requires { num(*s); }) c.out(num(*s));
    else if constexpr (requires { num(*s.ok()); }) c.out(num(*s.ok()));
    return;
  }
  if constexpr (opt<S>) {
    c.out(0);
  } else if constexpr (std::is_same_v<typename S::err_type, L&>) {
    c.out(0).out(&*s.err() - pool);
  } else {
    c.out(0).out(num(*s.err()));
  }
}

struct Step { int how, r, x; };
template <class S>
S inner(C& c, int n, int x) {
  c.out(300 + n);
  BEST_GUARD(make<S>(x));
  c.out(400 + n);
  return make<S>(x);
}
template <class R, class S>
R go(C& c, const std::vector<Step>& steps, std::deque<S>& h) {
  int n = 0;
  for (auto [how, r, x] : steps) {
    ++n;
    auto now = [&] { c.out(100 + n); };
    switch (how) {
      case 0: BEST_GUARD((now(), make<S>(x))); break;
      case 1: if constexpr (!std::is_same_v<S, best::result<int, U>>) { BEST_GUARD((now(), h[r])); } break;
      case 2: if constexpr (!std::is_same_v<S, best::result<int, U>> && !std::is_same_v<S, best::result<int, L&>>) { BEST_GUARD((now(), std::as_const(h[r]))); } break;
      case 3: BEST_GUARD((now(), std::move(h[r]))); break;
      case 4: if constexpr (!opt<S>) { BEST_GUARD((now(), make<S>(x))).twice(); } break;
      case 5: if constexpr (!opt<S>) { BEST_GUARD((now(), h[r])).twice(); } break;
      case 6: if constexpr (!opt<S> && !std::is_same_v<S, best::result<int, U>> && !std::is_same_v<S, best::result<int, L&>>) { BEST_GUARD((now(), h[r])).self(); } break;
      case 7: if constexpr (!opt<S> && !std::is_same_v<S, best::result<int, L&>>) { BEST_GUARD((now(), std::move(h[r]))).neg(); } break;
      // As the only statement of a condition, which has an alternative.
      case 8:
        if (r % 2 == 0) BEST_GUARD((now(), make<S>(x)));
        else c.out(500 + n);
        break;
      // Through more than one function.
      case 9: BEST_GUARD((now(), inner<S>(c, n, x))); break;
      // In a loop that ends by itself.
      case 10:
        for (int k = 0; k < 2; ++k) BEST_GUARD((now(), make<S>(x)));
        break;
      // A function of its own may return early without this one doing so.
      case 11: {
        auto f = [&]() -> S {
          BEST_GUARD((now(), make<S>(x)));
          c.out(600 + n);
          return make<S>(x);
        };
        auto s = f();
        show(c, s);
        break;
      }
    }
    c.out(200 + n);
  }
  return done<R>(n);
}
template <class R, class S>
void run(C& c) {
  std::vector<Step> steps;
  for (int n = c.arg(); n > 0; --n) {
    int how = c.arg(), r = c.arg(), x = c.arg();
    steps.push_back({how, r, x});
  }
  std::deque<S> h;
  for (int n = c.arg(); n > 0; --n) h.emplace_back(make<S>(c.arg()));
  copies = 0, cell = 5;
  R r = go<R, S>(c, steps, h);
  int k = copies;
  c.out(0);
  show(c, r);
  for (auto& s : h) show(c, s);
  c.out(k);
}
template <class S, class E>
void results(C& c, int ret) {
  switch (ret) {
    case 0: return run<best::result<long, E>, S>(c);
    case 1: return run<best::result<void, E>, S>(c);
    case 2:
      if constexpr (std::is_same_v<E, L>) return run<best::result<int, M>, S>(c);
  }
}
template <class S>
void options(C& c, int ret) {
  switch (ret) {
    case 0: return run<best::option<long>, S>(c);
    case 1: return run<best::option<void>, S>(c);
    case 2: return run<best::option<int&>, S>(c);
  }
}
// Guards also work while compiling.
constexpr best::option<int> pick(int x) {
  best::option<int> o;
  if (x > 0) o = x;
  BEST_GUARD(o);
  return *o + 1;
}
static_assert(*pick(3) == 4 && !pick(0));
static_assert(best::guardable<best::option<int>> && best::guardable<best::result<int, L>>);

void exec(C& c) {
  int s = c.arg(), ret = c.arg();
  switch (s) {
    case 0: return results<best::result<int, L>, L>(c, ret);
    case 1: return results<best::result<void, L>, L>(c, ret);
    case 2: return results<best::result<L, L>, L>(c, ret);
    case 3: return results<best::result<int, U>, U>(c, ret);
    case 4: return results<best::result<int&, L>, L>(c, ret);
    case 5: return results<best::result<int, L&>, L&>(c, ret);
    case 10: return options<best::option<int>>(c, ret);
    case 11: return options<best::option<L>>(c, ret);
    case 12: return options<best::option<void>>(c, ret);
    case 13: return options<best::option<int&>>(c, ret);
  }
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
