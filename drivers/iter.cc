// Iterators: a source, up to three adaptors on top of it, and calls in any order.
#include <memory>

#include "drv.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/memory/span.h"
#include "best/text/str.h"

using List = std::vector<int64_t>;
// Everything inspections saw.
List seen;

template <typename T>
void enc(List& l, const T& x) {
  if constexpr (best::is_row<T>) {
    l.push_back((int64_t)x[best::index<0>]);
    enc(l, x[best::index<1>]);
  } else if constexpr (best::same<best::as_auto<T>, best::rune>) {
    l.push_back(x.to_int());
  } else {
    l.push_back((int64_t)x);
  }
}
struct Mapper {
  int operator()(auto&& x) const {
    List l;
    enc(l, x);
    int64_t s = 0;
    for (auto y : l) s += y;
    return (int)(3 * s + 1);
  }
};
struct Peek {
  void operator()(auto& x) const {
    seen.push_back(-7);
    enc(seen, x);
  }
};
struct Tick {
  void operator()() const { seen.push_back(-9); }
};
template <typename O>
void item(drv::Cmd& c, O&& o) {
  if (!o) {
    c.kind("none");
    return;
  }
  List l;
  enc(l, *o);
  c.outs(l);
}
struct Obj {
  virtual ~Obj() {}
  virtual void go(drv::Cmd& c) = 0;
};
template <typename I>
struct Held : Obj {
  I it;
  explicit Held(I i) : it(std::move(i)) {}
  void go(drv::Cmd& c) override {
    if (c.is("next")) item(c, it.next());
    if constexpr (I::double_ended) {
      if (c.is("back")) item(c, it.next_back());
    }
    if (c.is("hint")) {
      auto h = it.size_hint();
      auto clip = [](size_t x) { return x > (1 << 30) ? (1 << 30) : (int64_t)x; };
      c.out(clip(h.lower));
      if (h.upper) c.out(clip(*h.upper));
    }
    if (c.is("count")) c.out(std::move(it).count());
    if (c.is("last")) item(c, std::move(it).last());
    if (c.is("for")) {
      size_t n = 0;
      for (auto&& x : it) {
        List l;
        enc(l, x);
        c.out(l.size());
        c.outs(l);
        if (++n > 2000) break;
      }
    }
    // Some, and the rest by hand.
    if (c.is("few")) {
      size_t n = c.arg();
      if (n > 0)
        for (auto&& x : it) {
          List l;
          enc(l, x);
          c.out(l.size());
          c.outs(l);
          if (--n == 0) break;
        }
    }
    if (c.is("vec")) {
      if constexpr (!std::is_reference_v<typename I::item>) {
        auto v = std::move(it).to_vec();
        for (size_t i = 0; i < v.size(); ++i) {
          List l;
          enc(l, v[i]);
          c.out(l.size());
          c.outs(l);
        }
      } else {
        best::vec<int> v = std::move(it).collect();
        for (int x : v) {
          c.out(1);
          c.out(x);
        }
      }
    }
  }
};
std::unique_ptr<Obj> obj;

enum { Map = 1, Inspect, Watch, Enumerate, Take, Rev };
#ifndef MAX
#define MAX 3
#endif
template <int depth, typename I>
void build(I it, const List& codes, size_t pos) {
  if (pos >= codes.size()) {
    obj = std::make_unique<Held<I>>(std::move(it));
    return;
  }
  if constexpr (depth < MAX) {
    int64_t n = codes[pos + 1];
    switch (codes[pos]) {
      case Map: return build<depth + 1>(std::move(it).map(Mapper{}), codes, pos + 2);
      case Inspect: return build<depth + 1>(std::move(it).inspect(Tick{}), codes, pos + 2);
      case Watch: return build<depth + 1>(std::move(it).inspect(Peek{}), codes, pos + 2);
      case Enumerate: return build<depth + 1>(std::move(it).enumerate(), codes, pos + 2);
      case Take: return build<depth + 1>(std::move(it).take((size_t)n), codes, pos + 2);
      case Rev:
        if constexpr (I::double_ended) return build<depth + 1>(std::move(it).rev(), codes, pos + 2);
    }
  }
  _exit(97);
}
template <typename Int>
best::int_range<Int> range(drv::Cmd& c) {
  best::int_range<Int> r;
  r.start = (Int)c.arg();
  int64_t has = c.arg(), end = c.arg(), inc = c.arg(), cnt = c.arg();
  if (has & 1) r.end = (Int)end;
  if (has & 2) r.including_end = (Int)inc;
  if (has & 4) r.count = (Int)cnt;
  return r;
}
std::vector<int> ints;
std::string text;
void exec(drv::Cmd& c) {
  seen.clear();
  if (c.is("make")) {
#if SRC == 0
    auto r = range<size_t>(c);
    build<0>(r.iter(), c.list(), 0);
#elif SRC == 1
    auto r = range<int8_t>(c);
    build<0>(r.iter(), c.list(), 0);
#elif SRC == 2
    auto r = range<uint8_t>(c);
    build<0>(r.iter(), c.list(), 0);
#elif SRC == 3
    auto l = c.list();
    ints.assign(l.begin(), l.end());
    best::span<const int> s(ints.data(), ints.size());
    build<0>(s.iter(), c.list(), 0);
#elif SRC == 4
    auto l = c.list();  // Code points.
    text.clear();
    for (auto x : l) {
      if (x < 0x80) text += (char)x;
      else if (x < 0x800) text += (char)(0xc0 | x >> 6), text += (char)(0x80 | (x & 63));
      else text += (char)(0xe0 | x >> 12), text += (char)(0x80 | (x >> 6 & 63)), text += (char)(0x80 | (x & 63));
    }
    build<0>(best::str(best::unsafe("valid"), best::span<const char>(text.data(), text.size())).runes(), c.list(), 0);
#endif
    return;
  }
  obj->go(c);
  c.s = drv::ints(seen);
}
int main(int argc, char** argv) {
  return drv::run(argc, argv, exec, [] { obj.reset(); });
}
