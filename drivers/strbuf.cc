// Histories of operations on text buffers, whose memory comes from recording
// allocators.
#include "text.h"
#include "rec.h"

using E = decltype(encoding_number<ENC>());
using C = best::code<E>;
using B = best::textbuf<E, rec::A>;
using V = B::buf;
using Text = best::text<E>;
using Pre = best::pretext<E>;

constexpr int N = 3;
struct Reg {
  alignas(B) char mem[sizeof(B)];
  bool on = false;
  B& operator*() { return *(B*)mem; }
  B* operator->() { return (B*)mem; }
  template <typename... A>
  void make(A&&... a) {
    drop();
    new (mem) B((A&&)a...);
    on = true;
  }
  void drop() {
    if (on) (**this).~B();
    memset(mem, 0xa5, sizeof(mem));
    on = false;
  }
};
Reg regs[N];
void reset() {
  for (auto& r : regs) {
    r.on = false;
    memset(r.mem, 0xa5, sizeof(r.mem));
  }
  rec::reset();
}
std::string snap() {
  std::string s = "{\"r\":[";
  for (int i = 0; i < N; ++i) {
    if (i) s += ",";
    if (!regs[i].on) {
      s += "{\"on\":0,\"n\":0,\"empty\":1,\"cap\":0,\"inl\":1,\"inst\":0,\"blk\":0,\"nn\":1,\"val\":[],\"rv\":[]}";
      continue;
    }
    B& b = *regs[i];
    const B& cb = b;
    std::vector<int64_t> vals, rv;
    for (size_t j = 0; j < cb.size() && j < 5000; ++j) vals.push_back(unit(cb.data()[j]));
    Text t = cb;
    for (size_t j = 0; j < t.size() && j < 5000; ++j) rv.push_back(unit(t.data()[j]));
    const char* p = (const char*)cb.data();
    bool inl = p >= regs[i].mem && p < regs[i].mem + sizeof(B);
    s += "{\"on\":1,\"n\":" + std::to_string(cb.size()) + ",\"empty\":" + std::to_string(cb.is_empty()) +
         ",\"cap\":" + std::to_string(cb.capacity()) + ",\"inl\":" + std::to_string(inl) +
         ",\"inst\":" + std::to_string(cb.allocator().id) + ",\"blk\":" + std::to_string(rec::block(p)) +
         ",\"nn\":" + std::to_string(p != nullptr && b.data() == (C*)p) + ",\"val\":" + drv::ints(vals) +
         ",\"rv\":" + drv::ints(rv) + "}";
  }
  s += "],\"mem\":" + drv::ints(rec::log) + "}";
  return s;
}
// A string of some encoding, in some guise.
template <typename F>
void with_string(drv::Cmd& c, F f) {
  int e = c.arg(), form = c.arg();
  with_encoding(e, [&](auto enc) {
    using F2 = decltype(enc);
    using D = best::code<F2>;
    exact<D> x(c.list<D>());
    best::pretext<F2> p(x.span(), enc);
    if (form == 0) return f(p);
    if (form == 1) return f(*best::text<F2>::from(p));
    if (form == 2) return f(best::textbuf<F2>(*best::text<F2>::from(p)));
    if constexpr (best::same<F2, best::utf8>) {
      if (form == 3) return f(std::string_view(x.p, x.n));
    }
    if constexpr (best::same<F2, best::utf16>) {
      if (form == 3) return f(std::u16string_view(x.p, x.n));
    }
    if constexpr (best::same<F2, best::utf32>) {
      if (form == 3) return f(std::u32string_view(x.p, x.n));
    }
    _exit(98);
  });
}
best::rune cp(int64_t x) { return *best::rune::from_int_allow_surrogates((uint32_t)x); }
// Literals must be written out where they are used.
#if ENC == 4
  #define LIT(x) u##x
#elif ENC == 5
  #define LIT(x) U##x
#else
  #define LIT(x) x
#endif
int64_t sign(best::ord o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

void exec(drv::Cmd& c) {
  rec::log.clear();
  size_t ri = c.arg();
  auto& R = regs[ri];
  auto& Q = regs[c.l.a.size() > 1 ? (size_t)c.l.a[1] % N : ri];
  auto set = [&](auto&& made) {
    if (made) R.make(std::move(*made));
    else c.kind("none");
  };
  auto see = [&](auto t) {
    for (size_t j = 0; j < t.size(); ++j) c.out(unit(t.data()[j]));
  };
  if (c.is("new")) {
    rec::A a{c.arg()};
    if (a.id) R.make(a);
    else R.make();
  }
  if (c.is("from")) {
    rec::A a{c.arg()};
    exact<C> x(c.list<C>());
    if (a.id) set(B::from(a, Pre(x.span())));
    else set(B::from(Pre(x.span())));
  }
  if (c.is("frombuf")) {
    rec::A a{c.arg()};
    exact<C> x(c.list<C>());
    set(B::from(V(a, x.span())));
  }
  if (c.is("fromtext")) {
    rec::A a{c.arg()};
    exact<C> x(c.list<C>());
    if (a.id) R.make(a, *Text::from(Pre(x.span())));
    else R.make(*Text::from(Pre(x.span())));
  }
  if (c.is("fromnul")) {
    rec::A a{c.arg()};
    auto l = c.list<C>();
    exact<C> x(l);
    const C* p = l.empty() ? nullptr : x.p;
    if (a.id) set(B::from_nul(a, p));
    else set(B::from_nul(p));
  }
  if (c.is("wrap")) {
    rec::A a{c.arg()};
    exact<C> x(c.list<C>());
    R.make(best::unsafe("the script only has valid units here"), V(a, x.span()));
  }
  if (c.is("wrappre")) {
    c.arg();
    exact<C> x(c.list<C>());
    R.make(best::unsafe("the script only has valid units here"), Pre(x.span()));
  }
  if (c.is("lit")) {
    c.arg();
    R.drop();
    R.on = true;
    switch (c.arg()) {
      case 0: new (R.mem) B(LIT("")); break;
      case 1: new (R.mem) B(LIT("abc")); break;
      case 2: new (R.mem) B(LIT("a\0c")); break;
      case 3: new (R.mem) B(LIT("abcdefghijklmnopqrstuvwxyz")); break;
    }
  }
  if (c.is("trans")) {
    rec::A a{c.arg()};
    with_string(c, [&](const auto& s) {
      if (a.id) set(B::transcode(a, s));
      else set(B::transcode(s));
    });
  }
  if (c.is("push")) with_string(c, [&](const auto& s) { c.out(R->push(s)); });
  if (c.is("lossy")) with_string(c, [&](const auto& s) { R->push_lossy(s); });
  if (c.is("pushr")) c.out(R->push(cp(c.arg())));
  if (c.is("lossyr")) R->push_lossy(cp(c.arg()));
  if (c.is("pushb")) c.out(R->push(*Q));
  if (c.is("lossyb")) R->push_lossy(*Q);
  if (c.is("trunc")) R->truncate((size_t)c.arg());
  if (c.is("clear")) R->clear();
  if (c.is("reserve")) R->reserve((size_t)c.arg());
  if (c.is("drop")) R.drop();
  if (c.is("copyn")) R.make(std::as_const(*Q));
  if (c.is("copya")) *R = std::as_const(*Q);
  if (c.is("moven")) R.make(std::move(*Q));
  if (c.is("movea")) *R = std::move(*Q);
  if (c.is("buf")) {
    V v = [&]() -> V {
      if (c.l.a[1]) return std::move(*R);
      return std::move(*R).into_buf();
    }();
    c.out(v.allocator().id);
    for (size_t j = 0; j < v.size(); ++j) c.out(unit(v[j]));
  }
  if (c.is("idx")) {
    size_t s = c.arg(), n = c.arg();
    Text t = (*R)[{.start = s, .count = n}];
    c.out(t.data() - R->data());
    see(t);
  }
  if (c.is("at")) {
    size_t s = c.arg(), n = c.arg();
    if (auto t = R->at({.start = s, .count = n})) {
      c.out(t->data() - R->data());
      see(*t);
    } else c.kind("none");
  }
  if (c.is("runes")) {
    for (auto [i, r] : R->rune_indices()) c.out(i).out(r.to_int());
    for (auto r : R->runes()) c.out(r.to_int());
  }
  if (c.is("cmp")) {
    c.out(*R == *Q).out(*R != *Q).out(sign(*R <=> *Q));
  }
  if (c.is("cmps")) {
    with_string(c, [&](const auto& s) { c.out(*R == s).out(sign(*R <=> s)); });
  }
  if (c.is("cmpr")) {
    best::rune r = cp(c.arg());
    c.out(*R == r).out(sign(*R <=> r));
  }
  if (c.is("cmpu")) {
    exact<C> x(c.list<C>());
    c.out(*R == x.span()).out(sign(*R <=> x.span()));
  }
  c.has_s = true;
  c.s = snap();
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec, reset); }
