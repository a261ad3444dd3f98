// Searching, splitting, stripping and comparing spans of element type ELEM.
#include "spanelem.h"

std::vector<int64_t> v;
const T* base;
void piece(const auto& t) {
  v.push_back(t.size() == 0 ? 0 : t.data().raw() - base);
  v.push_back(t.size());
}
void maybe(const auto& t) {
  if (!t) v.insert(v.end(), 2, -1);
  else piece(*t);
}
void pos(const auto& p) { v.push_back(p ? (int64_t)*p : -1); }
void halves(const auto& r) {
  if (!r) {
    v.insert(v.end(), 4, -1);
  } else {
    piece(r->first());
    piece(r->second());
  }
}
template <typename S>
void finding(S s, const auto& p, bool empty) {
  pos(s.find(p));
  if (!empty) pos(s.rfind(p));
  v.push_back(s.contains(p));
}
template <typename S>
void splitting(S s, const auto& p, const std::vector<int>& dirs) {
  halves(s.split_once(p));
  halves(s.rsplit_once(p));
  auto it = s.split(p);
  size_t at = v.size();
  v.push_back(0);
  while (auto x = it.next()) {
    ++v[at];
    piece(*x);
  }
  if (it.next()) v.push_back(-7);
  auto back = s.split(p);
  at = v.size();
  v.push_back(0);
  while (auto x = back.next_back()) {
    ++v[at];
    piece(*x);
  }
  if (back.next_back()) v.push_back(-7);
  auto mix = s.split(p);
  for (int d : dirs) {
    auto x = d ? mix.next_back() : mix.next();
    maybe(x);
  }
}
template <typename U>
void affixes(best::span<T> s, best::span<const U> p) {
  v.push_back(s.starts_with(p));
  v.push_back(s.ends_with(p));
  maybe(s.strip_prefix(p));
  maybe(s.strip_suffix(p));
  auto a = s;
  v.push_back(a.consume_prefix(p));
  piece(a);
  a = s;
  v.push_back(a.consume_suffix(p));
  piece(a);
}
int sign(auto c) { return c < 0 ? -1 : c > 0 ? 1 : 0; }
template <typename X, typename Y>
void relate(X x, Y y) {
  v.push_back(x == y);
  v.push_back(x != y);
  auto c = x <=> y;
  v.push_back(sign(c));
  v.push_back(x < y);
  v.push_back(x <= y);
  v.push_back(x > y);
  v.push_back(x >= y);
}
template <typename U>
void mixed(drv::Cmd& c, const std::vector<int64_t>& h, const std::vector<int64_t>& n) {
  Store<T> a(h);
  Store<U> b(n);
  base = a.p;
  if (c.is("cmp")) {
    relate(a.span(), b.cspan());
  } else {
    finding(a.span(), b.cspan(), n.empty());
    affixes(a.span(), b.cspan());
    if (!n.empty()) splitting(a.span(), b.cspan(), c.list<int>());
  }
}

template <typename S>
void fixed(drv::Cmd& c, S s, const std::vector<int64_t>& n) {
  Store<T> b(n);
  if (c.is("scmp")) {
    relate(s, b.cspan());
  } else {
    finding(s, b.cspan(), n.empty());
    if (!n.empty()) splitting(s, b.cspan(), c.list<int>());
  }
}

void exec(drv::Cmd& c) {
  v.clear();
  if (c.is("val")) {
    auto h = c.list();
    Store<T> a(h);
    base = a.p;
    T x = make<T>(c.arg());
    finding(a.span(), x, false);
    splitting(a.span(), x, c.list<int>());
    if (a.cspan().find(x) != a.span().find(x)) c.kind("const-disagrees");
  } else if (c.is("pred")) {
    auto h = c.list();
    Store<T> a(h);
    base = a.p;
    std::vector<T> table;
    for (auto x : c.list()) table.push_back(make<T>(x));
    auto pred = [&](const T& x) {
      for (auto& y : table) if (x == y) return true;
      return false;
    };
    finding(a.span(), pred, false);
    splitting(a.span(), pred, c.list<int>());
  } else if (c.is("scmp") || c.is("sseq")) {
    auto h = c.list();
    auto n = c.list();
    Store<T> a(h);
    base = a.p;
    switch (h.size()) {
      case 0: fixed(c, best::span<T, 0>(a.span()), n); break;
      case 2: fixed(c, best::span<T, 2>(a.span()), n); break;
      case 4: fixed(c, best::span<T, 4>(a.span()), n); break;
    }
  } else {
    int kind = c.arg();
    auto h = c.list();
    auto n = c.list();
    if (kind == 0) mixed<T>(c, h, n);
#if ELEM == 0
    if (kind == 1) mixed<int8_t>(c, h, n);
    if (kind == 2) mixed<int32_t>(c, h, n);
#elif ELEM == 1
    if (kind == 1) mixed<uint8_t>(c, h, n);
    if (kind == 2) mixed<int16_t>(c, h, n);
#elif ELEM == 2
    if (kind == 1) mixed<int16_t>(c, h, n);
    if (kind == 2) mixed<uint32_t>(c, h, n);
#elif ELEM == 4
    if (kind == 1) mixed<int8_t>(c, h, n);
    if (kind == 2) mixed<uint16_t>(c, h, n);
#endif
  }
  c.outs(v);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
