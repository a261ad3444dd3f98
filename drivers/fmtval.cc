// Formatted integers, characters, strings and pointers, with any specifier.
#include "text.h"

using Spec = best::format_spec;
Spec spec(drv::Cmd& c) {
  Spec s;
  s.alt = c.arg();
  s.debug = c.arg();
  s.sign_aware_padding = c.arg();
  c.arg();
  int al = c.arg();
  if (al) s.alignment = Spec::align(al - 1);
  s.fill = *best::rune::from_int((uint32_t)c.arg());
  s.width = c.arg() << 16;
  s.width |= c.arg();
  bool p = c.arg();
  uint32_t n = c.arg() << 16;
  n |= c.arg();
  if (p) s.prec = n;
  if (int m = c.arg()) s.method = *best::rune::from_int((uint32_t)m);
  return s;
}
// Formats a value with a given specifier.
template <typename T>
struct with {
  Spec s;
  const T& v;
  friend void BestFmt(auto& fmt, const with& w) {
    fmt.format(w.s, w.v);
    fmt.write("|");
  }
};
template <typename T>
void show(drv::Cmd& c, const Spec& s, const T& v) {
  with<T> w{s, v};
  best::strbuf out("<");
  best::format(out, "{:?}", w);
  auto t = out.as_text();
  if (t.size() < 2 || t.data()[0] != '<' || t.data()[t.size() - 1] != '|') c.kind("framing");
  for (size_t i = 1; i + 1 < t.size(); ++i) c.out((unsigned char)t.data()[i]);
}
template <typename F>
void with_int(int w, int s, int which, F f) {
  switch (w * 2 + s) {
    case 16: return which ? f(std::byte{}) : f((unsigned char)0);
    case 17: return which ? f(char{}) : f((signed char)0);
    case 32: return f((unsigned short)0);
    case 33: return f((short)0);
    case 64: return f(0u);
    case 65: return f(0);
    case 128: return which ? f(0ull) : f(0ul);
    case 129: return which ? f(0ll) : f(0l);
  }
  _exit(98);
}
void exec(drv::Cmd& c) {
  if (c.is("int")) {
    int w = c.arg(), sg = c.arg(), which = c.arg();
    uint64_t v = c.u64();
    auto s = spec(c);
    with_int(w, sg, which, [&](auto t) { show(c, s, (decltype(t))v); });
  } else if (c.is("bool")) {
    bool b = c.arg();
    show(c, spec(c), b);
  } else if (c.is("rune")) {
    // Kinds: rune, char8_t, char16_t, char32_t.
    int how = c.arg();
    uint32_t x = c.arg() << 16;
    x |= c.arg();
    auto s = spec(c);
    if (how == 0) show(c, s, *best::rune::from_int_allow_surrogates(x));
    if (how == 1) show(c, s, (char8_t)x);
    if (how == 2) show(c, s, (char16_t)x);
    if (how == 3) show(c, s, (char32_t)x);
  } else if (c.is("str")) {
    int e = c.arg(), form = c.arg();
    auto u = c.list();
    auto s = spec(c);
    with_encoding(e, [&](auto enc) {
      using E = decltype(enc);
      using Ch = best::code<E>;
      std::vector<Ch> v(u.begin(), u.end());
      if (form == 3) v.push_back(0);
      exact<Ch> mem(v);
      if (form == 0) return show(c, s, best::pretext<E>(mem.span()));
      if (form == 1) return show(c, s, *best::text<E>::from(mem.span()));
      if (form == 2) return show(c, s, *best::textbuf<E>::from(mem.span()));
      if constexpr (!std::is_same_v<E, best::wtf8> && !std::is_same_v<E, best::ascii> &&
                    !std::is_same_v<E, best::latin1>)
        show(c, s, (const Ch*)mem.p);
      else
        _exit(98);
    });
  } else if (c.is("ptr")) {
    int how = c.arg();
    uint64_t v = c.u64();
    auto s = spec(c);
    if (how == 0) show(c, s, (int*)v);
    if (how == 1) show(c, s, (const void*)v);
    if (how == 2) show(c, s, (const char*)v);
    if (how == 3) show(c, s, best::ptr<int>((int*)v));
    if (how == 4) show(c, s, (const char32_t*)v);
  }
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
