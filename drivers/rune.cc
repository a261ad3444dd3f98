#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/strbuf.h"
#include "best/text/utf8.h"
#include "drv.h"

best::rune mk(uint32_t x) { return *best::rune::from_int_allow_surrogates(x); }
void cps(drv::Cmd& c, const best::strbuf& s) {
  for (best::rune r : s.as_text().runes()) c.out(r.to_int());
}
__attribute__((noinline)) void dirty() {
  volatile char junk[4096];
  for (auto& x : junk) x = 0x5a;
}
__attribute__((noinline)) uint32_t fresh() {
  best::rune r;
  return r.to_int();
}
void exec(drv::Cmd& c) {
  if (c.is("from_int") || c.is("from_int_sur")) {
    uint32_t x = (uint32_t)c.arg() << 16;
    x |= c.arg();
    auto r = c.is("from_int") ? best::rune::from_int(x) : best::rune::from_int_allow_surrogates(x);
    auto q = c.is("from_int") ? best::rune::from_int((int32_t)x)
                              : best::rune::from_int_allow_surrogates((int32_t)x);
    if (r.has_value() != q.has_value()) c.kind("signedness");
    else if (r) c.out(r->to_int());
    else c.kind("none");
  } else if (c.is("class")) {
    uint32_t x = c.arg(), n = c.arg();
    for (uint32_t i = x; i < x + n; ++i) {
      auto r = mk(i);
      bool b[] = {r.is_unpaired_surrogate(), r.is_low_surrogate(), r.is_high_surrogate(), r.is_ascii(),
                  r.is_ascii_alpha(), r.is_ascii_alnum(), r.is_ascii_control(), r.is_ascii_digit(),
                  r.is_ascii_hex(), r.is_ascii_lower(), r.is_ascii_upper(), r.is_ascii_punct(),
                  r.is_ascii_space()};
      int64_t m = 0, k = 0;
      for (bool y : b) m |= (int64_t)y << k++;
      c.out(m);
    }
  } else if (c.is("case")) {
    uint32_t x = c.arg(), n = c.arg();
    for (uint32_t i = x; i < x + n; ++i)
      c.out(mk(i).to_ascii_lower().to_int()).out(mk(i).to_ascii_upper().to_int());
  } else if (c.is("to_digit")) {
    auto r = mk(c.arg());
    uint32_t radix = c.arg();
    auto d = r.to_digit(radix);
    c.out(d ? (int64_t)*d : -1).out(r.is_digit(radix));
  } else if (c.is("from_digit")) {
    uint32_t n = c.arg(), radix = c.arg();
    auto d = best::rune::from_digit(n, radix);
    if (d) c.out(d->to_int());
    else c.kind("none");
  } else if (c.is("escaped")) {
    cps(c, best::format("{}", mk(c.arg()).escaped()));
  } else if (c.is("quoted")) {
    auto r = mk(c.arg());
    auto a = best::format("{:?}", r), b = best::format("{:q}", r);
    if (a != b) c.kind("debug-and-quoted-differ");
    cps(c, a);
  } else if (c.is("display")) {
    cps(c, best::format("{}", mk(c.arg())));
  } else if (c.is("default")) {
    dirty();
    c.out(fresh());
  }
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
