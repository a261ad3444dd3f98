#include "best/container/option.h"
#include "best/container/result.h"
#include "best/math/bit.h"
#include "best/math/int.h"
#include "best/math/overflow.h"
#ifdef ATOI
#include "best/math/conv.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#endif
#include "drv.h"

// Dispatch over integer types named (bits, signed).
template <typename F>
void with_type(int w, int s, F f) {
  switch (w * 2 + s) {
    case 16: return f(uint8_t{});
    case 17: return f(int8_t{});
    case 32: return f(uint16_t{});
    case 33: return f(int16_t{});
    case 64: return f(uint32_t{});
    case 65: return f(int32_t{});
    case 128: return f(uint64_t{});
    case 129: return f(int64_t{});
  }
  _exit(98);
}
template <typename T>
void o(drv::Cmd& c, T x) {
  c.out64((uint64_t)(int64_t)x);
}
void o(drv::Cmd& c, uint64_t x) { c.out64(x); }
template <typename T>
void of(drv::Cmd& c, best::overflow<T> x) {
  if constexpr (best::is_signed<T>) o(c, (int64_t)x.value);
  else o(c, (uint64_t)x.value);
  c.out(x.overflowed);
}
template <typename T>
void ov(drv::Cmd& c, T x) {
  if constexpr (best::is_signed<T>) o(c, (int64_t)x);
  else o(c, (uint64_t)x);
}
template <typename T>
void oo(drv::Cmd& c, best::option<T> x) {
  if (x) ov(c, *x);
  else c.kind("none");
}
void cmp(drv::Cmd& c, std::strong_ordering r) {
  c.out(r < 0 ? -1 : r > 0 ? 1 : 0);
}

template <typename A, typename B>
void binary(drv::Cmd& c, A a, bool fa, B b, bool fb) {
  using C = best::common_int<A, B>;
  best::overflow<A> x(a, fa);
  best::overflow<B> y(b, fb);
  if (c.is("add")) return of<C>(c, x + y);
  if (c.is("sub")) return of<C>(c, x - y);
  if (c.is("mul")) return of<C>(c, x * y);
  if (c.is("sadd")) return ov<C>(c, best::saturating_add(a, b));
  if (c.is("ssub")) return ov<C>(c, best::saturating_sub(a, b));
  if (c.is("smul")) return ov<C>(c, best::saturating_mul(a, b));
  if (c.is("convert")) return of<B>(c, best::overflow<B>(x));
  if (c.is("int_cmp")) return cmp(c, best::int_cmp(a, b));
  if (c.is("signed_cmp")) return cmp(c, best::signed_cmp(a, b));
  if (c.is("unsigned_cmp")) {
    if constexpr (sizeof(A) == sizeof(B) || true)
      return cmp(c, best::unsigned_cmp(a, b));
  }
  if (c.is("int_fits")) {
    c.out(best::int_fits<B>(a));
    return;
  }
  if (c.is("checked_cast")) return oo<B>(c, best::checked_cast<B>(a));
  if constexpr (best::is_signed<A> == best::is_signed<B>) {
    if (c.is("min")) return ov<C>(c, best::min(a, b));
    if (c.is("max")) return ov<C>(c, best::max(a, b));
  }
  if constexpr (sizeof(A) >= 4 && sizeof(B) >= 4) {
    if (c.is("and")) return of<C>(c, x & y);
    if (c.is("or")) return of<C>(c, x | y);
    if (c.is("xor")) return of<C>(c, x ^ y);
    if (c.is("div")) {
      auto r = best::div(x, y);
      of<C>(c, r.quot);
      of<C>(c, r.rem);
      if constexpr (!__is_same(A, B)) return;
      else {
      auto q2 = x / y;
      auto r2 = x % y;
      if (q2.value != r.quot.value || r2.value != r.rem.value ||
          q2.overflowed != r.quot.overflowed || r2.overflowed != r.rem.overflowed)
        c.kind("div-operators-disagree");
      return;
      }
    }
    if constexpr (__is_same(A, B))
      if (c.is("ceildiv")) return of<C>(c, best::ceildiv(x, y));
    if (c.is("shl")) return of<A>(c, x << y);
    if (c.is("shr")) return of<A>(c, x >> y);
  }
  _exit(98);
}

template <typename A>
void unary(drv::Cmd& c, A a) {
  best::overflow<A> x(a, c.more() ? c.arg() : 0);
  if (c.is("pos")) return of<A>(c, +x);
  if (c.is("strict")) return ov(c, x.strict());
  if (c.is("checked")) return oo<A>(c, x.checked());
  if (c.is("wrap")) return ov(c, x.wrap());
  if constexpr (sizeof(A) >= 4) {
    if (c.is("neg")) return of<A>(c, -x);
    if (c.is("not")) return of<A>(c, ~x);
  }
  _exit(98);
}

template <typename A>
bool bits(drv::Cmd& c, A a) {
  uint32_t n = c.more() ? c.arg() : 0;
  if (c.is("count_ones")) c.out(best::count_ones(a));
  else if (c.is("count_zeros")) {
    if constexpr (sizeof(A) >= 4) c.out(best::count_zeros(a));
  }
  else if (c.is("leading_zeros")) c.out(best::leading_zeros(a));
  else if (c.is("leading_ones")) c.out(best::leading_ones(a));
  else if (c.is("trailing_zeros")) c.out(best::trailing_zeros(a));
  else if (c.is("trailing_ones")) c.out(best::trailing_ones(a));
  else if (c.is("shift_left")) ov(c, best::shift_left(a, n));
  else if (c.is("shift_right")) ov(c, best::shift_right(a, n));
  else if (c.is("shift_sign")) ov(c, best::shift_sign(a, n));
  else if constexpr (best::is_unsigned<A>) {
    if (c.is("rotate_left")) ov(c, best::rotate_left(a, n));
    else if (c.is("rotate_right")) ov(c, best::rotate_right(a, n));
    else if (c.is("is_pow2")) c.out(best::is_pow2(a));
    else if (c.is("next_pow2_minus1")) ov(c, best::next_pow2_minus1(a));
    else if (c.is("wrapping_next_pow2")) ov(c, best::wrapping_next_pow2(a));
    else if (c.is("checked_next_pow2")) oo<A>(c, best::checked_next_pow2(a));
    else if (c.is("next_pow2")) ov(c, best::next_pow2(a));
    else if (c.is("bits_for")) c.out(best::bits_for(a));
    else return false;
  } else return false;
  return true;
}

#ifdef ATOI
template <typename A>
void parse(drv::Cmd& c) {
  bool neg = c.arg();
  uint32_t radix = c.arg();
  auto cps = c.list<uint32_t>();
  best::strbuf u8;
  best::strbuf16 u16;
  best::strbuf32 u32;
  for (auto x : cps) {
    u8.push(*best::rune::from_int(x));
    u16.push(*best::rune::from_int(x));
    u32.push(*best::rune::from_int(x));
  }
  auto go = [&](auto s) {
    if (c.is("atoi")) return best::atoi<A>(s, radix);
    if (c.is("atoi_sign")) return best::atoi_with_sign<A>(s, neg, radix);
    return best::atoi_with_prefix<A>(s);
  };
  auto r = go(u8.as_text());
  auto r2 = go(u16.as_text());
  auto r3 = go(u32.as_text());
  bool o1 = r.ok().has_value(), o2 = r2.ok().has_value(), o3 = r3.ok().has_value();
  if (o1 != o2 || o1 != o3 || (o1 && (*r.ok() != *r2.ok() || *r.ok() != *r3.ok()))) {
    c.kind("encodings-disagree");
    return;
  }
  if (o1) ov(c, *r.ok());
  else c.kind("err");
}

#endif

void exec(drv::Cmd& c) {
  int w = c.arg(), s = c.arg();
  with_type(w, s, [&](auto ta) {
    using A = decltype(ta);
#ifdef ATOI
    return parse<A>(c);
#else
    if (c.is("limits")) {
      ov(c, best::min_of<A>);
      ov(c, best::max_of<A>);
      return;
    }
    A a = (A)c.u64();
    size_t save = c.pos;
    if (bits(c, a)) return;
    c.pos = save;
    if (c.l.a.size() < 14) return unary(c, a);
    bool fa = c.arg();
    int w2 = c.arg(), s2 = c.arg();
    with_type(w2, s2, [&](auto tb) {
      using B = decltype(tb);
      B b = (B)c.u64();
      bool fb = c.arg();
      binary(c, a, fa, b, fb);
    });
#endif
  });
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
