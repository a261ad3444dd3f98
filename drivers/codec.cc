#include "best/text/ascii.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/str.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
#include "drv.h"

template <typename F>
void with_encoding(int e, F f) {
  switch (e) {
    case 0: return f(best::ascii{});
    case 1: return f(best::latin1{});
    case 2: return f(best::utf8{});
    case 3: return f(best::wtf8{});
    case 4: return f(best::utf16{});
    case 5: return f(best::utf32{});
  }
  _exit(98);
}
template <typename C>
int64_t unit(C c) {
  if constexpr (sizeof(C) == 1) return (unsigned char)c;
  else return (int64_t)(uint32_t)c;
}
// An exactly sized heap copy, so that any access outside it is seen.
template <typename C>
struct exact {
  C* p;
  size_t n;
  explicit exact(const std::vector<C>& v) : p((C*)malloc(v.size() * sizeof(C))), n(v.size()) {
    for (size_t i = 0; i < n; ++i) p[i] = v[i];
  }
  explicit exact(size_t n) : p((C*)malloc(n * sizeof(C))), n(n) {}
  ~exact() { free(p); }
  best::span<const C> span() const { return {p, n}; }
  best::span<C> mut() { return {p, n}; }
};

void exec(drv::Cmd& c) {
  with_encoding(c.arg(), [&](auto enc) {
    using E = decltype(enc);
    using C = best::code<E>;
    if (c.is("scan")) {
      exact<C> buf(c.list<C>());
      auto in = buf.span();
      c.out(best::rune::validate<E>(in, enc));
      auto f = best::rune::decode<E>(&in, enc);
      if (f.ok()) {
        c.out(f.ok()->to_int()).out(buf.n - in.size());
        if (in.data().raw() != buf.p + (buf.n - in.size())) c.kind("moved");
      } else {
        c.out(-1).out(0);
        if (in.data().raw() != buf.p || in.size() != buf.n) c.kind("moved");
      }
      in = buf.span();
      auto b = best::rune::undecode<E>(&in, enc);
      if (b.ok()) c.out(b.ok()->to_int()).out(buf.n - in.size());
      else {
        c.out(-1).out(0);
        if (in.size() != buf.n) c.kind("moved");
      }
      if (in.data().raw() != buf.p) c.kind("moved");
      return;
    }
    if (c.is("encode") || c.is("size")) {
      auto r = best::rune::from_int_allow_surrogates((uint32_t)c.arg());
      if (c.is("size")) {
        auto n = r->size(enc);
        if (n.ok()) c.out(*n.ok());
        else c.kind("err");
        return;
      }
      exact<C> buf((size_t)c.arg());
      auto out = buf.mut();
      auto w = r->encode(&out, enc);
      if (w.ok()) {
        for (C x : *w.ok()) c.out(unit(x));
        if (w.ok()->data().raw() != buf.p || out.data().raw() != buf.p + w.ok()->size() ||
            out.size() != buf.n - w.ok()->size())
          c.kind("moved");
      } else {
        c.kind("err");
        if (out.data().raw() != buf.p || out.size() != buf.n) c.kind("moved");
      }
      return;
    }
    if (c.is("block")) {
      uint32_t first = c.arg(), n = c.arg();
      for (uint32_t x = first; x < first + n; ++x) {
        C buf[8];
        best::span<C> out(buf, 8);
        auto r = best::rune::from_int_allow_surrogates(x);
        auto w = r->encode(&out, enc);
        if (!w.ok()) {
          c.out(0);
          continue;
        }
        c.out(w.ok()->size());
        for (C y : *w.ok()) c.out(unit(y));
        best::span<const C> in(buf, w.ok()->size());
        auto d = best::rune::decode<E>(&in, enc);
        c.out(d.ok() && in.is_empty() ? (int64_t)d.ok()->to_int() : -1);
        in = best::span<const C>(buf, w.ok()->size());
        d = best::rune::undecode<E>(&in, enc);
        c.out(d.ok() && in.is_empty() ? (int64_t)d.ok()->to_int() : -1);
      }
      return;
    }
    if (c.is("boundary")) {
      exact<C> buf(c.list<C>());
      for (size_t i = 0; i <= buf.n + 1; ++i)
        c.out(best::rune::is_boundary<E>(buf.span(), i, enc));
      return;
    }
    _exit(98);
  });
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
