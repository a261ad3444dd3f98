// Histories of operations on boxes of recording objects.
#include "best/container/box.h"

#include "best/container/row.h"
#include "best/func/dyn.h"
#include "best/iter/bounds.h"
#include "best/memory/span.h"
#include "drv.h"
#include "probe.h"
#include "rec.h"

#if KIND == 5
// The default allocator, seen through the linker (--wrap).
extern "C" {
best::ptr<void> __real__ZN4best6malloc5allocENS_6layoutE(best::layout);
best::ptr<void> __real__ZN4best6malloc6zallocENS_6layoutE(best::layout);
void __real__ZN4best6malloc7deallocENS_3ptrIvEENS_6layoutE(best::ptr<void>, best::layout);
best::ptr<void> __wrap__ZN4best6malloc5allocENS_6layoutE(best::layout l) {
  auto p = __real__ZN4best6malloc5allocENS_6layoutE(l);
  rec::blocks[(uintptr_t)p.raw()] = ++rec::last;
  rec::put(rec::Alloc, rec::last, l, 0);
  return p;
}
best::ptr<void> __wrap__ZN4best6malloc6zallocENS_6layoutE(best::layout l) {
  auto p = __real__ZN4best6malloc6zallocENS_6layoutE(l);
  rec::blocks[(uintptr_t)p.raw()] = ++rec::last;
  rec::put(rec::Alloc, rec::last, l, 0);
  return p;
}
void __wrap__ZN4best6malloc7deallocENS_3ptrIvEENS_6layoutE(best::ptr<void> p, best::layout l) {
  rec::put(rec::Free, rec::block(p.raw()), l, 0);
  rec::blocks.erase((uintptr_t)p.raw());
  __real__ZN4best6malloc7deallocENS_3ptrIvEENS_6layoutE(p, l);
}
}
#endif

// An interface, and types of several sizes that implement it.
class Obj : public best::interface_base<Obj> {
 public:
  BEST_INTERFACE(Obj, (int64_t, ident, (), const), (int64_t, worth, (), const), (void, put, (int x)),
                 (int, kind, (), const), (int, twice, (), const));

 private:
  int twice(best::defaulted) const { return (int)worth() * 2; }
};
template <typename P, int k>
struct Impl : P {
  using P::P;
  int64_t ident() const { return this->id(); }
  int64_t worth() const { return this->value(); }
  void put(int x) { this->set(x); }
  int kind() const { return k; }
};
struct Other : Impl<probe::Pinned<64, 1>, 3> {
  using Impl::Impl;
  int twice() const { return -(int)worth(); }
};
using T0 = Impl<probe::Pinned<8, 8>, 0>;
using T1 = Impl<probe::Loose<8, 8>, 1>;
using T2 = Impl<probe::MoveOnly, 2>;
using T3 = Other;

#if KIND == 5
using A = best::malloc;
A mk(int64_t) { return {}; }
int64_t inst(const A&) { return 0; }
#else
using A = rec::A;
A mk(int64_t i) { return {i}; }
int64_t inst(const A& a) { return a.id; }
#endif

#if KIND == 0
using T = probe::Pinned<8, 8>;
#elif KIND == 1
using T = probe::Pinned<8, 8>[];
#elif KIND == 2
using T = best::dyn<Obj>;
#elif KIND == 3
using T = probe::MoveOnly;
#elif KIND == 4
using T = probe::Loose<64, 1>[];
#elif KIND == 5
using T = best::dyn<Obj>;
#elif KIND == 6
using T = probe::Pinned<64, 1>;
#elif KIND == 7
using T = probe::Pinned<8, 8>[2];
#endif
#define DYN (KIND == 2 || KIND == 5)
#define ARR (KIND == 1 || KIND == 4)
#define FIX (KIND == 7)

constexpr int N = 3;
using Box = best::box<T, A>;
struct Reg {
  alignas(Box) char mem[sizeof(Box)];
  int on = 0;  // 2: moved from.
  Box& operator*() { return *(Box*)mem; }
  template <typename... X>
  void make(X&&... x) {
    drop();
    new (mem) Box((X&&)x...);
    on = 1;
  }
  void drop() {
    if (on) (**this).~Box();
    memset(mem, 0xa5, sizeof(mem));
    on = 0;
  }
} regs[N];

void reset() {
  for (auto& r : regs) {
    r.on = 0;
    memset(r.mem, 0xa5, sizeof(r.mem));
  }
  probe::reset();
  rec::reset();
}
template <typename F>
void each(Box& b, F f) {
  const Box& c = b;
#if DYN
  f(c->ident(), c->worth());
#elif ARR
  for (size_t i = 0; i < c->size() && i < 100; ++i) f((*c)[i].id(), (*c)[i].value());
#elif FIX
  for (auto& x : *c) f(x.id(), x.value());
#else
  f(c->id(), c->value());
#endif
}
std::string snap() {
  std::string s = "{\"r\":[";
  for (int i = 0; i < N; ++i) {
    if (i) s += ",";
    auto& R = regs[i];
    if (R.on != 1) {
      s += "{\"on\":" + std::to_string(R.on) + ",\"n\":0,\"ty\":0,\"tw\":0,\"size\":0,\"al\":0,\"inst\":0,\"blk\":0,\"id\":[],\"val\":[]}";
      continue;
    }
    Box& b = *R;
    std::vector<int64_t> ids, vals;
    each(b, [&](int64_t i, int64_t v) {
      ids.push_back(i);
      vals.push_back(v);
    });
    int64_t n = ids.size(), ty = 0, tw = 0;
#if DYN
    ty = b->kind();
    tw = Obj::of(b)->twice();
#elif ARR
    n = b.meta();
#endif
    s += "{\"on\":1,\"n\":" + std::to_string(n) + ",\"ty\":" + std::to_string(ty) + ",\"tw\":" + std::to_string(tw) +
         ",\"size\":" + std::to_string(b.layout().size()) + ",\"al\":" + std::to_string(rec::lg(b.layout().align())) +
         ",\"inst\":" + std::to_string(inst(b.allocator())) + ",\"blk\":" + std::to_string(rec::block(b.raw())) +
         ",\"id\":" + drv::ints(ids) + ",\"val\":" + drv::ints(vals) + "}";
  }
  return s + "],\"life\":" + drv::ints(probe::log) + ",\"mem\":" + drv::ints(rec::log) + "}";
}

// Builds a box of the values from within.
template <typename X>
void build(Reg& R, A al, bool wrap, int v) {
  if (wrap) {
    best::layout l = best::layout::of<X>();
    best::ptr<X> p = al.alloc(l).template cast<X>();
    p.construct(v);
#if DYN
    R.make(best::unsafe("made just above"), al, best::ptr<T>(p));
#elif !ARR && !FIX
    R.make(best::unsafe("made just above"), al, p);
#endif
    return;
  }
#if KIND == 5
  // Through conversion.
  best::box<X> b(best::in_place, v);
  R.make(std::move(b));
#elif DYN
  R.make(al, best::in_place, X(v));
#elif !ARR && !FIX
  R.make(al, best::in_place, v);
#endif
}
template <typename Box>
void go(drv::Cmd& c) {
  constexpr bool copies = std::is_copy_constructible_v<Box>;
  probe::log.clear();
  rec::log.clear();
  auto& R = regs[c.arg()];
  if (c.is("new") || c.is("wrap")) {
    A al = mk(c.arg());
    int64_t ty = c.arg();
    auto v = c.list();
    bool wrap = c.is("wrap");
    R.drop();
#if ARR
    using E = std::remove_extent_t<T>;
    if (wrap && v.size()) {
      best::ptr<E> p = al.alloc(best::layout::array<E>(v.size())).template cast<E>();
      for (size_t i = 0; i < v.size(); ++i) (p + i).construct((int)v[i]);
      R.make(best::unsafe("made just above"), al, best::ptr<T>(p.raw(), v.size()));
    } else if (v.empty() && al == mk(2)) {
      R.make(al, best::in_place);
    } else {
      E* p = (E*)operator new(sizeof(E) * (v.size() + 1), std::align_val_t(64));
      for (size_t i = 0; i < v.size(); ++i) new (p + i) E((int)v[i]);
      R.make(al, best::in_place, best::span<const E>(p, v.size()));
      for (size_t i = 0; i < v.size(); ++i) p[i].~E();
      operator delete(p, std::align_val_t(64));
    }
#elif FIX
    using E = std::remove_extent_t<T>;
    E t[2] = {E((int)v[0]), E((int)v[1])};
    if (wrap) {
      R.make(al, best::in_place, std::move(t));
    } else {
      R.make(al, best::in_place, t);
    }
#elif DYN
    if (ty == 0) build<T0>(R, al, wrap, v[0]);
    if (ty == 1) build<T1>(R, al, wrap, v[0]);
    if (ty == 2) build<T2>(R, al, wrap, v[0]);
    if (ty == 3) build<T3>(R, al, wrap, v[0]);
#else
    (void)ty;
    build<T>(R, al, wrap, v[0]);
#endif
  }
  if (c.is("drop")) R.drop();
  if (c.is("moven")) {
    auto& Q = regs[c.arg()];
    R.drop();
    R.make(std::move(*Q));
    if (Q.on == 2) R.on = 2;
    Q.on = 2;
  }
  if (c.is("movea")) {
    auto& Q = regs[c.arg()];
    *R = std::move(*Q);
    if (&Q != &R) {
      R.on = Q.on;
      Q.on = 2;
    }
  }
  if (c.is("swap")) {
    auto& Q = regs[c.arg()];
    std::swap(*R, *Q);
    if (&Q != &R) std::swap(R.on, Q.on);
  }
  // Apart and together again.
  if (c.is("raw")) {
    auto& Q = regs[c.arg()];
    auto parts = std::move(*Q).into_raw();
    Q.on = 2;
    if (&R == &Q) Q.drop();
    R.make(best::unsafe("taken apart just above"), parts[best::index<1>], parts[best::index<0>]);
  }
  if constexpr (copies) {
    if (c.is("copyn")) R.make((const Box&)*regs[c.arg()]);
    if (c.is("copya")) {
      (Box&)*R = (const Box&)*regs[c.arg()];
      R.on = 1;
    }
  }
  if (c.is("try")) {
    auto& Q = regs[c.arg()];
#if KIND != 3
    auto o = (*Q).try_copy();
    if (o) {
      R.make(std::move(*o));
    } else {
      c.kind("none");
    }
#endif
  }
  if (c.is("set")) {
    size_t i = c.arg();
    int v = c.arg();
#if DYN
    (void)i;
    probe::put(probe::Change, (*R)->ident(), v);
    (*R)->put(v);
#elif ARR || FIX
    probe::put(probe::Change, (**R)[i].id(), v);
    (**R)[i].set(v);
#else
    (void)i;
    probe::put(probe::Change, (**R).id(), v);
    (**R).set(v);
#endif
  }
#if !DYN && !ARR && !FIX
  // The value moves out; the object stays.
  if (c.is("take")) {
    T x = *std::move(*R);
    c.out(x.value());
  }
#endif
  c.s = snap();
}
void exec(drv::Cmd& c) { go<Box>(c); }
int main(int argc, char** argv) { return drv::run(argc, argv, exec, reset); }
