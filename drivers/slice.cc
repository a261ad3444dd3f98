// Indexing and slicing of spans, dynamic and statically sized.
#include "drv.h"
#include "best/iter/bounds.h"
#include "best/memory/span.h"

using Dyn = best::span<int>;
std::vector<int64_t> v;
const int* base;
void piece(const auto& s) {
  v.push_back(s.size() == 0 ? 0 : s.data().raw() - base);
  v.push_back(s.size());
}
void maybe(const auto& s) {
  if (!s) {
    v.push_back(-1);
    v.push_back(-1);
  } else {
    piece(*s);
  }
}
void elem(const auto& e) { v.push_back(e ? &*e - base : -1); }

best::option<size_t> opt(drv::Cmd& c) {
  if (!c.arg()) return best::none;
  return c.u64();
}
best::bounds range(drv::Cmd& c) {
  best::bounds b;
  b.start = c.u64();
  b.end = opt(c);
  b.including_end = opt(c);
  b.count = opt(c);
  return b;
}

// Ranges known at compile time.
template <int i>
constexpr best::bounds fixed() {
  if constexpr (i == 0) return {.start = 0, .end = 0};
  if constexpr (i == 1) return {.start = 1, .end = 3};
  if constexpr (i == 2) return {.start = 2, .including_end = 2};
  if constexpr (i == 3) return {.start = 1, .count = 4};
  if constexpr (i == 4) return {.start = 4, .count = 0};
  if constexpr (i == 5) return {.end = 4};
  if constexpr (i == 6) return {.start = 3, .count = 1};
}

template <size_t m, typename S>
void parts(const S& s) {
  maybe(s.first(best::index<m>));
  maybe(s.last(best::index<m>));
  auto f = s.split_first(best::index<m>);
  if (f) {
    piece(f->first());
    piece(f->second());
  } else {
    v.insert(v.end(), 4, -1);
  }
  auto l = s.split_last(best::index<m>);
  if (l) {
    piece(l->first());
    piece(l->second());
  } else {
    v.insert(v.end(), 4, -1);
  }
}
template <typename S>
void ends(const S& s) {
  elem(s.first());
  elem(s.last());
  auto f = s.split_first();
  if (f) {
    v.push_back(&f->first() - base);
    piece(f->second());
  } else {
    v.insert(v.end(), 3, -1);
  }
  auto l = s.split_last();
  if (l) {
    v.push_back(&l->first() - base);
    piece(l->second());
  } else {
    v.insert(v.end(), 3, -1);
  }
  parts<0>(s);
  parts<1>(s);
  parts<2>(s);
  parts<3>(s);
  parts<6>(s);
}

template <typename S>
void on(drv::Cmd& c, S s, int* data, size_t n) {
  if (c.is("slice")) {
    auto b = range(c);
    auto m = b.try_compute_count(s.size());
    v.push_back(m ? (int64_t)*m : -1);
    auto p = s.at(b);
    maybe(p);
    if (p) piece(s.at(best::unsafe("in range"), b));
  } else if (c.is("index")) {
    piece(s[range(c)]);
  } else if (c.is("count")) {
    v.push_back(range(c).compute_count(s.size()));
  } else if (c.is("elem")) {
    elem(s.at(c.u64()));
  } else if (c.is("eindex")) {
    v.push_back(&s[c.u64()] - base);
  } else if (c.is("ends")) {
    ends(s);
  } else if (c.is("takes")) {
    Dyn d = s;
    while (c.more()) {
      bool last = c.arg();
      size_t m = c.u64();
      maybe(last ? d.take_last(m) : d.take_first(m));
      piece(d);
    }
  } else if (c.is("swap")) {
    size_t a = c.u64(), b = c.u64();
    s.swap(a, b);
    for (size_t i = 0; i < n; ++i) v.push_back(data[i]);
  } else if (c.is("reverse")) {
    s.reverse();
    for (size_t i = 0; i < n; ++i) v.push_back(data[i]);
  } else if (c.is("splitat")) {
    auto r = s.split_at(c.u64());
    if (r) {
      piece((*r)[0]);
      piece((*r)[1]);
    } else {
      v.insert(v.end(), 4, -1);
    }
  } else if (c.is("fixed")) {
    int k = c.arg();
    [&]<int... i>(std::integer_sequence<int, i...>) {
      (void)((k == i ? (void)[&] {
        if constexpr (requires { s[best::vals<fixed<i>()>]; }) {
          piece(s[best::vals<fixed<i>()>]);
        } else {
          c.kind("none");  // Refused at compile time.
        }
      }() : (void)0), ...);
    }(std::make_integer_sequence<int, 7>{});
  } else if (c.is("sub")) {
    Dyn d = s;
    size_t o = c.arg(), m = c.arg();
    v.push_back(s.has_subarray(Dyn(data + o, m)));
    int other[4];
    v.push_back(s.has_subarray(Dyn(other, 2)));
  }
}

void exec(drv::Cmd& c) {
  v.clear();
  if (c.is("free")) {  // Without an enclosing span.
    auto max = opt(c);
    auto r = range(c).try_compute_count(max);
    if (r) c.out64(*r);
    else c.kind("none");
    return;
  }
  if (c.is("nul")) {
    auto t = c.list<int>();
    t.push_back(0);
    int* p = new int[t.size()];
    std::copy(t.begin(), t.end(), p);
    auto s = best::from_nul(p);
    c.out(s.data().raw() - p).out(s.size());
    char* q = new char[t.size()];
    std::copy(t.begin(), t.end(), q);
    c.out(best::from_nul(q).size()).out(best::from_nul((const char*)nullptr).size());
    return;
  }
  int ext = c.arg();  // Static extent, or -1.
  size_t n = c.arg();
  int* data = n == 0 ? nullptr : new int[n];
  for (size_t i = 0; i < n; ++i) data[i] = 100 + i;
  base = data;
  Dyn s(data, n);
  if (ext < 0) on(c, s, data, n);
  [&]<size_t... i>(std::index_sequence<i...>) {
    ((ext == (int)i ? on(c, best::span<int, i>(s), data, n) : (void)0), ...);
  }(std::index_sequence<0, 1, 3, 4, 5>{});
  c.outs(v);
  delete[] data;
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
