// Comparison of text of encoding HAY with text of any encoding, and runes.
#include "text.h"
using E = decltype(encoding_number<HAY>());
using C = best::code<E>;
int64_t ord(best::ord o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

void exec(drv::Cmd& c) {
  if (c.arg() != HAY) _exit(98);
  exact<C> buf(c.list<C>());
  best::pretext<E> a(buf.span());
  auto ta = *best::text<E>::from(a);
  auto both = [&](const auto& x, const auto& y) {
    c.out(x == y).out(ord(x <=> y));
  };
  if (c.is("text")) {
    with_encoding(c.arg(), [&](auto enc) {
      using F = decltype(enc);
      exact<best::code<F>> other(c.list<best::code<F>>());
      best::pretext<F> b(other.span());
      auto tb = *best::text<F>::from(b);
      both(a, b);
      both(ta, tb);
      both(b, a);
      c.out(ta != tb).out(ta < tb).out(ta <= tb).out(ta > tb).out(ta >= tb);
      if constexpr (std::is_same_v<E, F>) c.out(ta == tb.as_codes()).out(a == tb.as_codes());
    });
    return;
  }
  if (c.is("cmprune")) {
    auto r = *best::rune::from_int_allow_surrogates((uint32_t)c.arg());
    both(a, r);
    both(ta, r);
    return;
  }
  _exit(98);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
