#include "text.h"

template <typename T>
int64_t off(const T& rest, auto* base) {
  return rest.size() == 0 ? 0 : rest.data() - base;
}

// Steps an iterator through a list of directions; reports, for each step, the
// size hint before it, what came out, and what is left.
template <typename It>
void walk(drv::Cmd& c, It it, const std::vector<int>& dirs, auto* base, auto show) {
  for (int d : dirs) {
    auto h = it.size_hint();
    c.out(h.lower).out(h.upper ? (int64_t)*h.upper : -1);
    auto x = d ? it.next_back() : it.next();
    if (x) show(*x);
    else c.out(-2).out(-2);
    auto rest = it->rest();
    c.out(off(rest, base)).out(rest.size());
  }
  c.out(std::move(it).count());
}

void exec(drv::Cmd& c) {
  with_encoding(c.arg(), [&](auto enc) {
    using E = decltype(enc);
    using C = best::code<E>;
    if (c.is("iter")) {
      int which = c.arg();
      exact<C> buf(c.list<C>());
      auto dirs = c.list<int>();
      best::pretext<E> p(buf.span());
      auto rune = [&](best::rune r) { c.out(0).out(r.to_int()); };
      auto indexed = [&](auto row) { c.out(row.first()).out(row.second().to_int()); };
      auto fallible = [&](auto r) {
        if (r.ok()) c.out(0).out(r.ok()->to_int());
        else c.out(0).out(-1);
      };
      if (which == 0) return walk(c, p.try_runes(), dirs, buf.p, fallible);
      if (which == 1) return walk(c, p.runes(), dirs, buf.p, rune);
      if (which == 2) return walk(c, p.rune_indices(), dirs, buf.p, indexed);
      auto t = best::text<E>::from(p);
      if (!t) return (void)c.kind("none");
      if (which == 3) return walk(c, t->runes(), dirs, buf.p, rune);
      if (which == 4) return walk(c, t->rune_indices(), dirs, buf.p, indexed);
      _exit(98);
    }
    if (c.is("from")) {
      exact<C> buf(c.list<C>());
      best::pretext<E> p(buf.span());
      auto t = best::text<E>::from(p);
      c.out(t.has_value());
      if (t) {
        c.out(off(*t, buf.p)).out(t->size());
      } else {
        c.out(0).out(0);
      }
      auto [good, rest] = best::text<E>::from_partial(p);
      c.out(off(good, buf.p)).out(good.size()).out(off(rest, buf.p)).out(rest.size());
      return;
    }
    if (c.is("nul")) {
      auto us = c.list<C>();
      us.push_back(0);
      exact<C> buf(us);
      auto t = best::text<E>::from_nul(buf.p);
      c.out(t.has_value());
      c.out(t ? t->size() : 0);
      auto p = best::pretext<E>::from_nul(buf.p);
      c.out(p.size());
      return;
    }
    _exit(98);
  });
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
