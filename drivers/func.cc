// Callables behind references, taps, deferred actions and dyns.
#include "best/container/row.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/func/arrow.h"
#include "best/func/call.h"
#include "best/func/defer.h"
#include "best/func/dyn.h"
#include "best/func/fnref.h"
#include "best/func/tap.h"
#include "best/memory/ptr.h"
#include "drv.h"

#include <memory>

// -- function references ------------------------------------------------------
struct Mut {
  int y = 0;
  int operator()(int x) { return y += x; }
};
struct Over {
  int operator()(int x) const { return 7000 + x; }
  int operator()(int x) { return 8000 + x; }
};
static int plain(int x) { return 3 * x + 1; }
static int quiet(int x) noexcept { return x + 43; }

using M = best::fnref<int(int)>;
using C = best::fnref<int(int) const>;
static int cell[2];
static Mut own[2];
static auto cap0 = [c = &cell[0]](int x) { return *c += x; };
static auto cap1 = [c = &cell[1]](int x) { return *c += x; };
static auto empty_closure = [](int x) { return 5 * x - 2; };
static auto ign0 = [c = &cell[0]](auto&&...) { return ++*c; };
static auto ign1 = [c = &cell[1]](auto&&...) { return ++*c; };
static Over over;
static const Over const_over;
static int (*quiet_ptr)(int) noexcept = quiet;
static M m[2] = {nullptr, nullptr};
static C k[2] = {nullptr, nullptr};

template <typename F, bool mut>
static F target(int kind, int c) {
  switch (kind) {
    case 1: if (c) return cap1; else return cap0;
    case 2:
      if constexpr (mut) return own[c];
      break;
    case 3: return plain;
    case 4: return empty_closure;
    case 5: if (c) return ign1; else return ign0;
    case 7: return over;
    case 8: return const_over;
    case 9: return quiet_ptr;
    case 10: return quiet;
    case 11: {
      if constexpr (mut) {
        typename F::fnptr p = [](int& a, int b) { return a += b; };
        return F(best::unsafe("the closure takes the same type"), &cell[c], p);
      } else {
        typename F::fnptr p = [](const int& a, int b) { return a + b; };
        return F(best::unsafe("the closure takes the same type"), &cell[c], p);
      }
    }
  }
  _exit(97);
}

// -- deferred actions ---------------------------------------------------------
struct Held {
  virtual ~Held() = default;
  virtual void run() = 0;
  virtual void cancel() = 0;
};
static Held* held[4];
static std::vector<int64_t> did;
template <typename F>
struct Holder final : Held {
  decltype(best::defer(std::declval<F>())) d;
  explicit Holder(F&& f) : d(BEST_FWD(f)) {}
  void run() override { d.run(); }
  void cancel() override { d.cancel(); }
};
template <typename F>
struct Bound final : Held {
  F f;
  decltype(best::defer(best::bind, std::declval<F&>())) d;
  explicit Bound(F g) : f(g), d(best::bind, f) {}
  void run() override { d.run(); }
  void cancel() override { d.cancel(); }
};
template <typename F>
static Held* hold(F&& f) {
  return new Holder<best::as_auto<F>>(BEST_FWD(f));
}
struct Oops {};
static void log_first() { did.push_back(0); }
static void log_second() { did.push_back(1); }
static void log_third() { did.push_back(2); }
static Held* deferred(int i, int kind, int t) {
  switch (kind) {
    case 1: return hold([i] { did.push_back(i); });
    case 2: {
      auto f = [i, n = 0]() mutable { did.push_back(i + 100 * n++); };
      return new Bound<decltype(f)>(f);
    }
    case 3: return hold([i] { did.push_back(i); held[i]->run(); });
    case 4: return hold([i] { did.push_back(i); held[i]->cancel(); });
    case 5: { auto p = i == 0 ? log_first : i == 1 ? log_second : log_third; return hold(std::move(p)); }
    case 6: return hold([i, t] { did.push_back(i); if (held[t]) held[t]->run(); });
    case 7: return hold([i, t] { did.push_back(i); if (held[t]) held[t]->cancel(); });
    case 8: return hold([i] { did.push_back(i); throw Oops{}; });
    case 9: return hold([i] { did.push_back(i); return 5; });
  }
  _exit(97);
}

// -- interfaces ---------------------------------------------------------------
class IH : public best::interface_base<IH> {
 public:
  BEST_INTERFACE(IH, (int, get, (), const), (void, set, (int x)), (void, reset, ()),
                 (int&, ref, ()), (const int&, cref, (), const),
                 (int, take, (best::box<int> b, int y)),
                 (long, sum, (int x, const int& y, int&& z), const),
                 (void, bump, (int& out)));

 private:
  void reset(best::defaulted) { set(0); }
  int take(best::defaulted, best::box<int> b, int y) { set(*b + y); return get(); }
  long sum(best::defaulted, int x, const int& y, int&& z) const { return get() + x + y * 10 + z * 100; }
};
class Zap : public best::interface_base<Zap> {
 public:
  BEST_INTERFACE(Zap, (void, zap, (int x)), (int, twice, (), const));

 private:
  int twice(best::defaulted) const { return 777; }
};
constexpr best::vtable<IH> BestImplements(int*, IH*) {
  return {
    .get = [](const int& self) { return -self; },
    .set = [](int& self, int x) { self = x; },
    .ref = [](int& self) -> int& { return self; },
    .cref = [](const int& self) -> const int& { return self; },
    .bump = [](int& self, int& out) { out = ++self; },
  };
}
constexpr best::vtable<Zap> BestImplements(int*, Zap*) {
  return {.zap = [](int& self, int x) { self = 1 - x; }};
}
struct S1 {
  int v;
  int get() const { return v * 2; }
  int set(int x) { return v = x; }
  int& ref() { return v; }
  const int& cref() const { return v; }
  short bump(int& o) { return o = ++v; }
  void zap(int x) { v = -v - x; }
};
struct S2 {
  int v;
  int get() const { return v + 1; }
  void set(int x) { v = x; }
  void reset() { v = -v; }
  int take(best::box<int>&& b, int y) { return v = *b - y; }
  int sum(int, int, int) const { return 1; }
  int& ref() { return v; }
  int cref_;
  const int& cref() const { return v; }
  void bump(int& o) { o = --v; }
  void zap(int x) { v = x; }
  int twice() const { return 2 * v; }
  S2(int v) : v(v) {}
  S2(S2&& o) : v(o.v) {}
};
static int o1;
static S1 o2;
static S2 o3(0);
using One = best::dynptr<IH>;
using Const = best::dynptr<const IH>;
using Both = best::dynptr<Zap, IH>;
using OneBox = best::dynbox<IH>;
static One one;
static Both both;
static best::option<OneBox> boxed[2];

static int* where(int o) { return o == 1 ? &o1 : o == 2 ? &o2.v : &o3.v; }

template <typename P>
static void invoke(drv::Cmd& c, P&& p, int method, int x) {
  constexpr bool can = requires { BEST_FWD(p)->set(1); };
  switch (method) {
    case 0: c.out(BEST_FWD(p)->get()); return;
    case 7: c.out(BEST_FWD(p)->cref()); return;
    case 3: { int y = x + 1; c.out(BEST_FWD(p)->sum(x, y, x + 2)); return; }
  }
  if constexpr (can) {
    switch (method) {
      case 1: BEST_FWD(p)->set(x); return;
      case 2: BEST_FWD(p)->reset(); return;
      case 4: { int out = -1; BEST_FWD(p)->bump(out); c.out(out); return; }
      case 5: { int& r = BEST_FWD(p)->ref(); c.out(r); r = x; return; }
      case 6: c.out(BEST_FWD(p)->take(best::box<int>(x), 1)); return;
    }
  }
  _exit(97);
}

static void snap(drv::Cmd& c) {
  c.has_s = true;
  c.s = "{\"cell\":" + drv::ints({cell[0], cell[1]}) + ",\"own\":" + drv::ints({own[0].y, own[1].y}) +
        ",\"obj\":" + drv::ints({o1, o2.v, o3.v}) + "}";
}

static void reset() {
  cell[0] = cell[1] = own[0].y = own[1].y = 0;
  m[0] = m[1] = nullptr;
  k[0] = k[1] = nullptr;
  for (auto& h : held) {
    if (h) h->cancel();
    delete h;
    h = nullptr;
  }
  did.clear();
  o1 = 1;
  o2.v = 2;
  o3.v = 3;
  one = nullptr;
  both = nullptr;
  for (auto& b : boxed) b = best::none;
}

// -- stateless calls ------------------------------------------------------------
struct Cat {  // Says how it was called, and with what.
  template <typename T>
  static int tag(T&&) {
    return (std::is_lvalue_reference_v<T> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);
  }
  int operator()(auto&& x) & { return 1000 + 100 * tag(BEST_FWD(x)) + x; }
  int operator()(auto&& x) const& { return 2000 + 100 * tag(BEST_FWD(x)) + x; }
  int operator()(auto&& x) && { return 3000 + 100 * tag(BEST_FWD(x)) + x; }
  int operator()(auto&& x) const&& { return 4000 + 100 * tag(BEST_FWD(x)) + x; }
};
struct Grid {  // Both a function and an array.
  int base;
  int operator()(int y) const { return 1000 + base * 10 + y; }
  int operator()(int y, int z) const { return 2000 + base * 10 + y + 5 * z; }
  int operator()() const { return 3000 + base; }
  int operator[](int y) const { return 4000 + base * 10 + y; }
};
struct X {
  int v = 3;
  int l(int y) & { return 1000 + v + y; }
  int r(int y) && { return 2000 + v * y; }
  int c(int y) const { return 3000 + v - y; }
  int n(int y) noexcept { return 4000 + v + y; }
  virtual int vf(int y) { return 5000 + y; }
  const int& get() const { return v; }
};
struct Y : X {
  int vf(int y) override { return 6000 + y; }
};
struct Tmpl {
  template <typename T, typename... U>
  int operator()(int x) const { return sizeof(T) * 1000 + sizeof...(U) * 100 + x; }
  template <int n, int k = 0>
  int operator()(int x) const { return n * 1000 + 10 * k + x; }
};
struct OnlyR {
  int operator()(int x) && { return 50 + x; }
};
static int nothing_calls;
static void nothing() { ++nothing_calls; }

template <typename T>
struct Deep {
  T inner;
  T operator->() const { return inner; }
};

static void stateless(drv::Cmd& c) {
  int w = c.arg(), x = c.arg(), y = c.arg();
  if (c.is("tap")) {
    best::tap dbl = [](int v) { return 2 * v; };
    best::tap grid = [](auto&& v) { return Grid{v}; };
    const best::tap cgrid = [](auto&& v) { return Grid{v}; };
    int lv = x;
    const int cv = x;
    switch (w) {
      case 0: c.out(lv->*dbl); break;
      case 1: { best::tap t = Cat{}; c.out(lv->*t).out(cv->*t).out(int(x)->*t); break; }
      case 2: { const best::tap t = Cat{}; c.out(lv->*t).out(cv->*t).out(int(x)->*t); break; }
      case 3: { best::tap t = Cat{}; c.out(lv->*std::move(t)).out(cv->*std::move(t)).out(int(x)->*std::move(t)); break; }
      case 4: { const best::tap t = Cat{}; c.out(lv->*std::move(t)).out(cv->*std::move(t)).out(int(x)->*std::move(t)); break; }
      case 5: { Cat f; best::tap t{best::bind, f}; c.out(lv->*t); break; }
      case 6: c.out(lv->*grid(y)).out(lv->*cgrid(y)).out(lv->*std::move(grid)(y)).out(lv->*std::move(cgrid)(y)); break;
      case 7: c.out(lv->*grid[y]).out(lv->*cgrid[y]).out(lv->*std::move(grid)[y]).out(lv->*std::move(cgrid)[y]); break;
      case 8: c.out(lv->*grid(y, x)).out(lv->*grid()).out(lv->*cgrid(y, x)).out(lv->*std::move(cgrid)()); break;
      case 9: { best::tap inc = [](int v) { return v + 1; }; c.out(lv->*dbl->*inc).out(lv->*inc->*dbl).out(lv->*dbl->*grid(y)); break; }
      case 10: { best::tap idt = [](int& v) -> int& { return v; }; int& r = lv->*idt; r = y; c.out(lv).out(&r == &lv); break; }
      case 11: {
        int seen = -1, n = 0;
        auto&& r = lv->*best::inspect([&](int v) { seen = v; ++n; return 99; });
        c.out(r).out(seen).out(n).out(&r == &lv).out(Cat::tag(lv->*best::inspect([](int) {})));
        c.out(Cat::tag(cv->*best::inspect([](int) {})));
        c.out(int(x)->*best::inspect([&](auto&& v) { n += 10; }));
        c.out(n);
        break;
      }
      case 12: {
        int n = 0;
        auto f = [&, k = 0](int v) mutable { n += v + 100 * k++; };
        best::tap t = best::inspect(best::bind, f);
        c.out(lv->*t).out(n).out(cv->*t).out(n);
        break;
      }
      case 13: {  // Inspecting may change the value.
        auto&& r = lv->*best::inspect([&](int& v) { v += y; });
        c.out(r).out(lv);
        break;
      }
      case 14: {  // What is inspected is what is returned, even if it may be moved from.
        auto b = best::box<int>(x)->*best::inspect([&](auto&& v) {});
        c.out(*b);
        break;
      }
      case 15: {
        int n = 0;
        best::tap t = [&, k = 0](int v) mutable { ++n; return v + k++; };
        c.out(lv->*t).out(lv->*t).out(lv->*t).out(n);
        break;
      }
      case 16: {
        best::tap t = Grid{y};
        c.out(t.callback()(x)).out(std::move(t).callback()(x)).out(std::as_const(t).callback()[x]);
        break;
      }
      case 17: {  // Arguments are forwarded into the inner call.
        best::tap t = [](int v) { return [v](best::box<int> b, int& out) { out = v; return v + *b; }; };
        int out = -1;
        c.out(lv->*t(best::box<int>(y), out)).out(out);
        break;
      }
      default: _exit(97);
    }
  } else if (c.is("call")) {
    X o; Y d; const X co;
    o.v = co.*(&X::v) + x;
    d.v = o.v;
    switch (w) {
      case 0: c.out(best::call(&X::l, o, y)).out(best::call(&X::l, &o, y)).out(best::call(&X::l, d, y)); break;
      case 1: c.out(best::call(&X::r, X{}, y)).out(best::call(&X::r, std::move(o), y)); break;
      case 2: c.out(best::call(&X::c, o, y)).out(best::call(&X::c, co, y)).out(best::call(&X::c, &co, y)).out(best::call(&X::c, X{}, y)).out(best::call(&X::c, &d, y)); break;
      case 3: c.out(best::call(&X::n, o, y)).out(best::call(&X::n, &d, y)); break;
      case 4: c.out(best::call(&X::vf, o, y)).out(best::call(&X::vf, d, y)).out(best::call(&X::vf, (X*)&d, y)); break;
      case 5: best::call(&X::v, o) = y; best::call(&X::v, &d) += y; c.out(o.v).out(d.v).out(best::call(&X::v, co)).out(best::call(&X::v, X{})); break;
      case 6: c.out(&best::call(&X::get, o) == &o.v).out(&best::call(&X::v, &co) == &co.v); break;
      case 7: c.out(best::call<char>(Tmpl{}, x)).out(best::call<int>(Tmpl{}, x)).out(best::call<short, int, int>(Tmpl{}, x)); break;
      case 8: c.out(best::call<7>(Tmpl{}, x)).out(best::call<2, 3>(Tmpl{}, x)); break;
      case 9: { Cat f; const Cat g; int lv = x; c.out(best::call(f, lv)).out(best::call(g, lv)).out(best::call(Cat{}, lv)).out(best::call(std::move(g), int(x))); break; }
      case 10: c.out(best::call(plain, x)).out(best::call(&quiet, x)).out(best::call(OnlyR{}, x)); break;
      case 11: {
        nothing_calls = 0;
        auto r = best::call_devoid(nothing);
        c.out(best::same<decltype(r), best::empty>).out(nothing_calls).out(best::call_devoid(plain, x));
        best::call();
        int z = x;
        auto& rr = best::call_devoid([](int& q) -> int& { return q; }, z);
        c.out(&rr == &z);
        break;
      }
      case 12: { auto f = BEST_CALLABLE(best::call); c.out(f(plain, x)).out(f(&X::c, o, y)); break; }
      case 13: c.out(best::call_devoid<7>(Tmpl{}, x)).out(best::call_devoid<char>(Tmpl{}, x)); break;
      default: _exit(97);
    }
  } else if (c.is("sig")) {  // References with other signatures.
    X o; Y d; const X co;
    o.v = 3 + x;
    switch (w) {
      case 0: { auto p = &X::l; best::fnref<int(X&, int)> f = p; best::fnref<int(X*, int) const> g = p; c.out(f(o, y)).out(g(&o, y)); break; }
      case 1: { auto p = &X::v; best::fnref<int&(X&)> f = p; f(o) = y; best::fnref<const int&(const X&) const> g = p; c.out(o.v).out(&f(o) == &o.v).out(&g(o) == &o.v); break; }
      case 2: { int n = 0; auto l = [&](best::box<int> b, best::box<int>&& e) { ++n; return *b - *e; }; best::fnref<int(best::box<int>, best::box<int>&&)> f = l; c.out(f(best::box<int>(x), best::box<int>(y))).out(n); break; }
      case 3: { int n = 0; auto l = [&](auto&&...) { return ++n; }; best::fnref<void(int, int)> f = l; best::fnref<void() const> g = l; f(x, y); g(); c.out(n); break; }
      case 4: { auto l = [](short s) -> short { return s + 1; }; best::fnref<long(int)> f = l; c.out(f(x)); break; }
      case 5: { int n = 0; auto l = [&](int& r) { ++n; r += y; }; best::fnref<void(int&)> f = l; int v = x; f(v); c.out(v).out(n); break; }
      case 6: { M f = plain; best::fnref<long(short)> g = f; f = quiet; c.out(g(x)); break; }
      case 7: { C f = plain; best::fnref<int(int) const> g = f; f = quiet; c.out(g(x)); break; }  // A copy.
      case 8: { auto l = [&](int v) { return best::box<int>(v + y); }; best::fnref<best::box<int>(int)> f = l; c.out(*f(x)); break; }
      case 9: { auto l = [](const int& v) -> const int& { return v; }; best::fnref<const int&(const int&) const> f = l; int v = x; c.out(&f(v) == &v); break; }
      case 10: { best::fnref<void(int)> f = nullptr; c.out(f == nullptr).out(bool(f)); auto l = [](int) {}; f = l; c.out(f == nullptr).out(bool(f)); break; }
      case 11: { Cat q; const Cat r; best::fnref<int(int&)> f = q; best::fnref<int(int&)> g = r; best::fnref<int(int&) const> h = q; best::fnref<int(int&&)> j = q; best::fnref<int(const int&)> l = q; int v = x; c.out(f(v)).out(g(v)).out(h(v)).out(j(int(v))).out(l(v)); break; }
      case 12: { best::fnref<int(int)>::fnptr a, b = nullptr, e = [](int&, int) { return 1; }; c.out(a == nullptr).out(bool(b)).out(e == nullptr).out(bool(e)); break; }
      default: _exit(97);
    }
  } else if (c.is("bind_vt")) {
    int v = x;
    switch (w) {
      case 0: { best::vtable_binder<int(int)> f = [](int& a, int b) { return a += b; }; c.out(f(&v, y)).out(v).out(f == nullptr).out(bool(f)); break; }
      case 1: { best::vtable_binder<int(int) const> f = [](const int& a, int b) { return a - b; }; c.out(f(&v, y)); break; }
      case 2: { best::vtable_binder<void(int)> f = [](int& a, int b) { return a += b; }; f(&v, y); c.out(v); break; }
      case 3: { best::vtable_binder<int&()> f = [](int& a) -> int& { return a; }; c.out(&f(&v) == &v); break; }
      case 4: { best::vtable_binder<int()> f, g = nullptr; c.out(f == nullptr).out(bool(g)); f = +[](void* p) { return *(int*)p; }; c.out(f == nullptr).out(f(&v)); int (*raw)(void*) = f; c.out(raw(&v)); break; }
      case 5: { S1 s{x}; const auto& t = best::itable<Zap, IH>::of(best::types<S1>); t[best::types<Zap>].zap(&s, y); c.out(s.v).out(t[best::types<IH>].get(&s)).out(t.layout().size()).out(t.layout().align()).out(t.can_copy()); break; }
      case 6: { S2 s{x}; const auto& t = best::itable<IH>::of(best::types<S2>); c.out(t->get(&s)).out(t.layout().size()).out(t.can_copy()).out(best::itable<Zap>::of(best::types<S2>)->twice(&s)); break; }
      case 7: { const auto& t = best::itable<IH>::of(best::types<S1>); S1 a{x}; alignas(S1) char b[sizeof(S1)]; t.copy(b, &a); a.v = y; c.out(((S1*)b)->v); t.destroy(b); break; }
      default: _exit(97);
    }
  } else if (c.is("arrow")) {
    struct V { int f; int g(int q) { return f + q; } };
    V v{x};
    switch (w) {
      case 0: c.out(best::deref_arrow(&v) == &v).out(best::deref_arrow(Deep<V*>{&v}) == &v).out(best::deref_arrow(Deep<Deep<V*>>{{&v}}) == &v); break;
      case 1: c.out(best::arrow<V>(v)->f).out(best::arrow<V>(V{y})->g(x)); break;
      case 2: c.out(best::arrow(Deep<V*>{&v})->f); best::arrow(Deep<V*>{&v})->f = y; c.out(v.f); break;
      case 3: { best::arrow a([&](int q, int p) { return q * 100 + p; }); c.out(a(x, y)); break; }
      case 4: c.out(best::can_arrow<V*>).out(best::can_arrow<Deep<Deep<V*>>>).out(best::can_arrow<V>).out(best::can_arrow<int>); break;
      default: _exit(97);
    }
  } else if (c.is("static")) {
    using O = Over; struct NoCopy { int operator()(best::box<int>); };
    c.out(best::callable<decltype(plain), int(int)>).out(best::callable<decltype(plain), int()>)
     .out(best::callable<decltype(plain), void(int)>).out(best::callable<decltype(plain), X(int)>)
     .out(best::callable<Mut, int(int)>).out(best::callable<const Mut, int(int)>).out(best::callable<Mut, int(int) const>)
     .out(best::callable<O, int(int) const>).out(best::callable<int X::*, int(X&)>).out(best::callable<int X::*, int(X*)>)
     .out(best::callable<int X::*, int(int)>).out(best::callable<NoCopy, int(best::box<int>)>)
     .out(best::callable<NoCopy, int(best::box<int>&)>).out(best::callable<Tmpl, int(int), char>).out(best::callable<Tmpl, int(int)>)
     .out(best::callable<int, int()>)
     .out(best::implements<int, IH>).out(best::implements<S1, Zap>).out(best::implements<S2, IH>).out(best::implements<const S1, IH>)
     .out(best::implements<long, IH>).out(best::interface<IH>).out(best::interface<S1>)
     .out(requires(One p) { p->set(1); }).out([](auto p) { return requires { p->set(1); }; }(Const()))
     .out([](auto p) { return requires { C(p); }; }(Mut{})).out([](auto p) { return requires { M(p); }; }(Mut{}))
     .out(best::same<best::call_result<decltype(plain), int>, int>).out(best::same<best::call_result<void (*)(), void>, void>)
     .out(best::dyn_of<One&, IH>).out(best::dyn_of<S1&, IH, Zap>).out(best::dyn_of<Both&, IH, Zap>).out(best::dyn_of<long&, IH>);
  } else {
    _exit(97);
  }
}

static void exec(drv::Cmd& c) {
  if (c.is("tap") || c.is("call") || c.is("sig") || c.is("bind_vt") || c.is("arrow") || c.is("static")) {
    stateless(c);
    return;
  }
  int i = c.arg();
  if (c.is("bind")) {
    int kind = c.arg(), t = c.arg();
    if (kind == 6) {
      static auto via0 = [](int x) { return m[0](x); };
      static auto via2 = [](int x) { return std::as_const(k[0])(x); };
      if (i >= 2) k[i - 2] = via2; else if (t == 0) m[i] = via0; else m[i] = k[t - 2];
    } else if (i < 2) {
      m[i] = target<M, true>(kind, t);
    } else {
      k[i - 2] = target<C, false>(kind, t);
    }
  } else if (c.is("same")) {
    int q = c.arg();
    if (i < 2) m[i] = m[q]; else k[i - 2] = k[q - 2];
  } else if (c.is("null")) {
    if (i < 2) m[i] = nullptr; else k[i - 2] = nullptr;
  } else if (c.is("isnull")) {
    if (i < 2) c.out(m[i] == nullptr).out(bool(m[i])); else c.out(k[i - 2] == nullptr).out(bool(k[i - 2]));
  } else if (c.is("ask")) {
    int x = c.arg();
    c.out(i < 2 ? m[i](x) : std::as_const(k[i - 2])(x));
  } else if (c.is("dopen")) {
    int kind = c.arg(), t = c.arg();
    held[i] = deferred(i, kind, t);
  } else if (c.is("drun")) {
    try { held[i]->run(); } catch (Oops&) { c.out(88); }
  } else if (c.is("dcancel")) {
    held[i]->cancel();
  } else if (c.is("dclose")) {
    // Scopes within the scope can no longer be reached from its actions.
    Held* h = held[i];
    delete h;
    held[i] = nullptr;
  } else if (c.is("point")) {
    one = nullptr;
    if (i == 1) { one = &o1; both = &o1; } else if (i == 2) { one = &o2; both = &o2; } else { one = &o3; both = &o3; }
  } else if (c.is("box")) {
    int o = c.arg(), x = c.arg();
    if (o == 1) boxed[i] = OneBox(best::box<int>(x)); else if (o == 2) boxed[i] = OneBox(best::box<S1>(S1{x})); else boxed[i] = OneBox(best::box<S2>(S2(x)));
  } else if (c.is("copybox")) {
    auto b = (*boxed[c.arg()]).try_copy();
    if (b.has_value()) { boxed[i] = *std::move(b); c.out(1); } else c.out(0);
  } else if (c.is("do")) {  // route, target, method, value
    int t = c.arg(), method = c.arg(), x = c.arg();
    Const con = nullptr;
    if (i == 6) con = one;
    switch (i) {
      case 0: invoke(c, one, method, x); break;
      case 1: if (t == 1) invoke(c, IH::of(o1), method, x); else if (t == 2) invoke(c, IH::of(o2), method, x); else invoke(c, IH::of(o3), method, x); break;
      case 2: if (t == 1) invoke(c, IH::of(&o1), method, x); else if (t == 2) invoke(c, IH::of(&o2), method, x); else invoke(c, IH::of(&o3), method, x); break;
      case 3: invoke(c, IH::of(one), method, x); break;
      case 4: invoke(c, both[best::types<IH>], method, x); break;
      case 5: invoke(c, IH::of(both), method, x); break;
      case 6: invoke(c, con, method, x); break;
      case 7: invoke(c, *boxed[t], method, x); break;
      case 8: invoke(c, IH::of(*boxed[t]), method, x); break;
      case 9: { One p = *boxed[t]; invoke(c, p, method, x); break; }
      case 10: { if (method == 0) Zap::of(both)->zap(x); else c.out(best::as_dyn<Zap>(both)->twice()); break; }
      case 11: { auto q = &both; if (method == 0) (*q)[best::types<Zap>]->zap(x); else c.out((*q)[best::types<Zap>]->twice()); break; }
      default: _exit(97);
    }
  } else {
    _exit(97);
  }
  for (auto x : did) c.out(x);
  did.clear();
  snap(c);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec, reset); }
