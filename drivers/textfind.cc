// Search, stripping, splitting and slicing in text of encoding HAY.
#include "text.h"
using E = decltype(encoding_number<HAY>());
using C = best::code<E>;

std::vector<int64_t> v;
const C* base;
void piece(const auto& t) {
  v.push_back(t.size() == 0 ? 0 : t.data() - base);
  v.push_back(t.size());
}
void maybe(const auto& t) {
  if (!t) {
    v.push_back(-1);
    v.push_back(-1);
  } else piece(*t);
}
void pos(const auto& p) { v.push_back(p ? (int64_t)*p : -1); }
void halves(const auto& r) {
  if (!r) {
    for (int i = 0; i < 4; ++i) v.push_back(-1);
  } else {
    piece(r->first());
    piece(r->second());
  }
}

template <typename H, typename P>
void search(H h, P p, bool splittable, const std::vector<int>& dirs) {
  pos(h.find(p));
  pos(h.rfind(p));
  v.push_back(h.contains(p));
  v.push_back(h.starts_with(p));
  v.push_back(h.ends_with(p));
  maybe(h.strip_prefix(p));
  maybe(h.strip_suffix(p));
  auto a = h;
  v.push_back(a.consume_prefix(p));
  piece(a);
  a = h;
  v.push_back(a.consume_suffix(p));
  piece(a);
  halves(h.split_once(p));
  halves(h.rsplit_once(p));
  if (!splittable) return;
  auto it = h.split(p);
  size_t at = v.size();
  v.push_back(0);
  while (auto x = it.next()) {
    ++v[at];
    piece(*x);
  }
  if (it.next()) v.push_back(-7);
  auto back = h.split(p);
  at = v.size();
  v.push_back(0);
  while (auto x = back.next_back()) {
    ++v[at];
    piece(*x);
  }
  if (back.next_back()) v.push_back(-7);
  auto mix = h.split(p);
  for (int d : dirs) {
    auto x = d ? mix.next_back() : mix.next();
    maybe(x);
  }
}
// Through text and through pretext: the same answers.
void both(drv::Cmd& c, best::span<const C> s, auto p, bool splittable, const std::vector<int>& dirs) {
  base = s.data().raw();
  best::pretext<E> pre(s);
  v.clear();
  search(pre, p, splittable, dirs);
  auto w = v;
  v.clear();
  search(*best::text<E>::from(pre), p, splittable, dirs);
  if (w != v) c.kind("text-pretext-disagree");
  c.outs(w);
}

void exec(drv::Cmd& c) {
  if (c.arg() != HAY) _exit(98);
  exact<C> buf(c.list<C>());
  if (c.is("string")) {
    with_encoding(c.arg(), [&](auto enc) {
      using F = decltype(enc);
      exact<best::code<F>> pat(c.list<best::code<F>>());
      bool nonempty = pat.n > 0;
      best::pretext<F> p(pat.span());
      both(c, buf.span(), p, nonempty, {});
      auto got = c.v;
      c.v.clear();
      both(c, buf.span(), *best::text<F>::from(p), nonempty, {});
      if (got != c.v) c.kind("text-pretext-disagree");
    });
    return;
  }
  if (c.is("rune")) {
    auto r = *best::rune::from_int_allow_surrogates((uint32_t)c.arg());
    return both(c, buf.span(), r, true, c.list<int>());
  }
  if (c.is("pred")) {
    int id = c.arg();
    return both(c, buf.span(), [id](best::rune r) { return pred(id, r); }, true, c.list<int>());
  }
  auto t = *best::text<E>::from(best::pretext<E>(buf.span()));
  base = buf.p;
  v.clear();
  if (c.is("bounds")) {
    for (size_t i = 0; i <= buf.n + 1; ++i) c.out(t.is_rune_boundary(i));
    return;
  }
  if (c.is("splitat")) {
    auto r = t.split_at((size_t)c.arg());
    if (!r) return (void)c.kind("none");
    piece(r->first());
    piece(r->second());
    c.outs(v);
    return;
  }
  best::bounds b{.start = (size_t)c.arg()};
  // A limit of some form: none, an end, an inclusive end, a count.
  switch (c.arg()) {
    case 1: b.end = (size_t)c.arg(); break;
    case 2: b.including_end = (size_t)c.arg(); break;
    case 3: b.count = (size_t)c.arg(); break;
  }
  if (c.is("at")) {
    auto r = t.at(b);
    if (!r) return (void)c.kind("none");
    piece(*r);
  } else if (c.is("index")) {
    piece(t[best::bounds::with_location(b)]);
  } else _exit(98);
  c.outs(v);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
