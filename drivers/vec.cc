// Histories of operations on vectors of recording elements, whose memory comes
// from recording allocators.
#include "drv.h"
#include "probe.h"
#include "rec.h"
#include "best/container/vec.h"
#include "best/container/box.h"
#include "best/iter/bounds.h"

#if ELEM == 0
using T = probe::Plain<int, 4>;
using Vec = best::vec<T, best::vec_inline_default<T>(), rec::A>;
#elif ELEM == 1
using T = probe::Pinned<8, 8>;
using Vec = best::vec<T, 2, rec::A>;
#elif ELEM == 2
using T = probe::Loose<8, 8>;
using Vec = best::vec<T, 3, rec::A>;
#elif ELEM == 3
using T = probe::Pinned<64, 1>;
using Vec = best::vec<T, 1, rec::A>;
#elif ELEM == 4
using T = probe::MoveOnly;
using Vec = best::vec<T, 2, rec::A>;
#elif ELEM == 5
using T = probe::Const;
using Vec = best::vec<T, 2, rec::A>;
#elif ELEM == 6
using T = probe::Plain<uint8_t, 1>;
using Vec = best::vec<T, best::vec_inline_default<T>(), rec::A>;
#elif ELEM == 7
using T = probe::Plain<uint8_t, 1>;
using Vec = best::vec<T, 200, rec::A>;
#elif ELEM == 8
using T = probe::Pinned<8, 8>;
using Vec = best::vec<T, 0, rec::A>;
#elif ELEM == 9
using T = probe::Loose<8, 8>;
using Vec = best::vec<T, 0, rec::A>;
#elif ELEM == 10
using T = probe::Plain<int16_t, 16>;
using Vec = best::vec<T, 1, rec::A>;
#elif ELEM == 11
using T = probe::Loose<64, 1>;
using Vec = best::vec<T, 2, rec::A>;
#endif

constexpr int N = 3;
template <typename Vec>
struct RegOf {
  alignas(Vec) char mem[sizeof(Vec)];
  bool on = false;
  Vec& operator*() { return *(Vec*)mem; }
  Vec* operator->() { return (Vec*)mem; }
  template <typename... A>
  void make(A&&... a) {
    drop();
    new (mem) Vec((A&&)a...);
    on = true;
  }
  void drop() {
    if (on) (**this).~Vec();
    memset(mem, 0xa5, sizeof(mem));
    on = false;
  }
};
using Reg = RegOf<Vec>;
Reg regs[N];
template <typename Vec>
RegOf<Vec>& reg(size_t i) { return regs[i]; }

void reset() {
  for (auto& r : regs) {
    // Left over from a history that never destroyed them.
    r.on = false;
    memset(r.mem, 0xa5, sizeof(r.mem));
  }
  probe::reset();
  rec::reset();
}
std::string snap() {
  std::string s = "{\"r\":[";
  for (int i = 0; i < N; ++i) {
    if (i) s += ",";
    if (!regs[i].on) {
      s += "{\"on\":0,\"n\":0,\"empty\":1,\"cap\":0,\"inl\":1,\"inst\":0,\"blk\":0,\"id\":[],\"val\":[]}";
      continue;
    }
    Vec& v = *regs[i];
    const Vec& cv = v;
    std::vector<int64_t> ids, vals;
    auto p = cv.data();
    for (size_t j = 0; j < v.size() && j < 5000; ++j) {
      ids.push_back((*(p + j)).id());
      vals.push_back((*(p + j)).value());
    }
    s += "{\"on\":1,\"n\":" + std::to_string(v.size()) + ",\"empty\":" + std::to_string(v.is_empty()) +
         ",\"cap\":" + std::to_string(v.capacity()) + ",\"inl\":" + std::to_string(v.is_inlined()) +
         ",\"inst\":" + std::to_string(v.allocator().id) + ",\"blk\":" +
         std::to_string(rec::block(cv.data().raw())) + ",\"id\":" + drv::ints(ids) + ",\"val\":" + drv::ints(vals) +
         "}";
  }
  s += "],\"life\":" + drv::ints(probe::log) + ",\"mem\":" + drv::ints(rec::log) + "}";
  return s;
}
// Elements to copy from. These are temporaries: alive only within the command.
struct Temps {
  std::vector<T*> dummy;
  T* p;
  size_t n;
  Temps(const std::vector<int64_t>& v) : n(v.size()) {
    p = (T*)operator new(sizeof(T) * (n + 1), std::align_val_t(64));
    for (size_t i = 0; i < n; ++i) new (p + i) T((int)v[i]);
  }
  ~Temps() {
    for (size_t i = n; i > 0; --i) p[i - 1].~T();
    operator delete(p, std::align_val_t(64));
  }
  best::span<const T> span() { return {p, n}; }
};

// The same elements in containers of other kinds.
template <typename Vec>
void with(int which, best::span<const T> s, auto f) {
  auto vec = [&](auto v) {
    v.append(s);
    f(v);
  };
  switch (which) {
    case 0: return vec(best::vec<T, 0>{});
    case 1: return vec(best::vec<T, 3>{});
    case 2: return vec(best::vec<T, Vec::MaxInline + 5>{});
    case 3: return vec(best::vec<T, (Vec::MaxInline > 1 ? Vec::MaxInline - 1 : 1)>{});
    case 4: {
      std::vector<typename Vec::type> v;
      for (const T& x : s) v.push_back(x);
      return f(v);
    }
  }
}

template <typename Vec>
void go(drv::Cmd& c) {
  constexpr bool copies = std::is_copy_constructible_v<T>;
  probe::log.clear();
  rec::log.clear();
  size_t ri = c.arg();
  auto& R = reg<Vec>(ri);
  auto see = [&](const T& x) { c.out(x.value()); };
  auto list = [&] { return c.list(); };
  if (c.is("new")) R.make(rec::A{c.arg()});
  if (c.is("drop")) R.drop();
  if (c.is("push")) see(R->push((int)c.arg()));
  if (c.is("insert")) {
    size_t i = c.arg();
    see(R->insert(i, (int)c.arg()));
  }
  if (c.is("gap")) {
    size_t i = c.arg();
    auto v = list();
    auto p = R->insert_uninit(best::unsafe("filled right below"), i, v.size());
    for (size_t j = 0; j < v.size(); ++j) (p + j).construct((int)v[j]);
  }
  if (c.is("iter")) {
    rec::A a{c.arg()};
    auto v = list();
    best::span<const int64_t> sp(v.data(), v.size());
    R.make(a, sp.iter().map([](int64_t x) { return (int)x; }));
  }
  if (c.is("moven")) {
    auto& Q = reg<Vec>(c.arg());
    R.drop();
    R.make(std::move(*Q));
  }
  if (c.is("movea")) *R = std::move(*reg<Vec>(c.arg()));
  if constexpr (copies) {
    if (c.is("from")) {
      rec::A a{c.arg()};
      Temps t(list());
      R.make(a, t.span());
    }
    if (c.is("il")) {
      rec::A a{c.arg()};
      int x = c.arg(), y = c.arg(), z = c.arg();
      R.make(a, std::initializer_list<T>{T(x), T(y), T(z)});
    }
    if (c.is("append")) {
      Temps t(list());
      R->append(t.span());
    }
    if (c.is("splice")) {
      size_t i = c.arg();
      Temps t(list());
      R->splice(i, t.span());
    }
    if (c.is("splicein")) {
      size_t i = c.arg(), s = c.arg(), n = c.arg();
      R->splice(i, (*R)[{.start = s, .count = n}]);
    }
    if (c.is("appendv")) R->append(*reg<Vec>(c.arg()));
    if (c.is("assign")) {
      Temps t(list());
      R->assign(t.span());
    }
    if (c.is("fromw")) {
      rec::A a{c.arg()};
      int which = c.arg();
      Temps t(list());
      with<Vec>(which, t.span(), [&](auto& v) { R.make(a, v); });
    }
    if (c.is("assignw") || c.is("appendw")) {
      int which = c.arg();
      Temps t(list());
      with<Vec>(which, t.span(), [&](auto& v) { c.is("assignw") ? R->assign(v) : R->append(v); });
    }
    if (c.is("assignv")) R->assign(*reg<Vec>(c.arg()));
    if (c.is("copya")) *R = std::as_const(*reg<Vec>(c.arg()));
    if (c.is("copyn")) {
      auto& Q = reg<Vec>(c.arg());
      R.make(std::as_const(*Q));
    }
  }
  if (c.is("pop")) {
    auto x = R->pop();
    if (x) see(*x);
    else c.kind("none");
  }
  if (c.is("remove")) {
    T x = R->remove(c.arg());
    see(x);
  }
  if (c.is("erase")) {
    size_t s = c.arg(), n = c.arg();
    switch (c.arg()) {
      case 0: R->erase({.start = s, .count = n}); break;
      case 1: R->erase({.start = s, .end = s + n}); break;
      case 2: R->erase({.start = s, .including_end = s + n - 1}); break;
      case 3: R->erase({.start = s}); break;
    }
  }
  if (c.is("trunc")) R->truncate(c.arg());
  if (c.is("resize")) R->resize_uninit(c.arg());
  if (c.is("clear")) R->clear();
  if (c.is("reserve")) R->reserve(c.arg());
  if (c.is("shrink")) R->shrink_to_fit();
  if (c.is("spill")) {
    int64_t hint = c.arg(), exact = c.arg();
    if (hint < 0) R->spill_to_heap();
    else R->spill_to_heap((size_t)hint, exact != 0);
  }
  if (c.is("box")) {
    auto b = std::move(*R).to_box();
    c.out(b.as_ptr().meta());
    c.out(R->size());
    c.out(R->capacity());
    R.drop();
    R.make(std::move(b));
  }
  if (c.is("get")) see((*R)[(size_t)c.arg()]);
  if (c.is("at")) {
    if (auto x = R->at((size_t)c.arg())) see(*x);
    else c.kind("none");
  }
  if (c.is("first")) {
    if (auto x = R->first()) see(*x);
    else c.kind("none");
  }
  if (c.is("last")) {
    if (auto x = R->last()) see(*x);
    else c.kind("none");
  }
  if (c.is("cmp")) {
    Vec& Q = *reg<Vec>(c.arg());
    c.out(*R == Q);
    c.out(*R != Q);
    auto o = *R <=> Q;
    c.out(o < 0 ? -1 : o > 0 ? 1 : 0);
  }
  c.s = snap();
}
void exec(drv::Cmd& c) { go<Vec>(c); }
int main(int argc, char** argv) { return drv::run(argc, argv, exec, reset); }
