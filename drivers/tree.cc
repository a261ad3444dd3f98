// Structured output: an interpreter of trees of writes, blocks and values.
#include "best/base/ord.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/object.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/iter/bounds.h"
#include "best/math/conv.h"
#include "best/memory/layout.h"
#include "text.h"

using Spec = best::format_spec;
const std::vector<int64_t>* toks;
int64_t T(size_t p) { return (*toks).at(p); }
Spec spec(size_t& p) {
  Spec s;
  s.alt = T(p++);
  s.debug = T(p++);
  s.sign_aware_padding = T(p++);
  s.pass_through = T(p++);
  int al = T(p++);
  if (al) s.alignment = Spec::align(al - 1);
  s.fill = *best::rune::from_int((uint32_t)T(p++));
  s.width = T(p++) << 16;
  s.width |= T(p++);
  bool has = T(p++);
  uint32_t n = T(p++) << 16;
  n |= T(p++);
  if (has) s.prec = n;
  if (int m = T(p++)) s.method = *best::rune::from_int((uint32_t)m);
  return s;
}
best::strbuf text(size_t& p) {
  best::strbuf s;
  for (size_t n = T(p++); n > 0; --n) s.push(*best::rune::from_int((uint32_t)T(p++)));
  return s;
}
struct Node {
  size_t p;
  template <typename F> void run(F& fmt) const;
  friend void BestFmt(auto& fmt, const Node& n) { n.run(fmt); }
  constexpr friend void BestFmtQuery(auto& query, Node*) {
    query.requires_debug = false;
    query.supports_width = query.supports_prec = true;
    query.uses_method = [](best::rune) { return true; };
  }
};
// The position after a tree.
size_t skip(size_t p);
size_t skip_n(size_t p, size_t n) {
  while (n--) p = skip(p);
  return p;
}
size_t skip_text(size_t p) { return p + 1 + T(p); }
size_t skip_entry(size_t p) {
  switch (T(p)) {
    case 0: return skip(p + 1);
    case 1: return skip(p + 13);
    case 2: return skip(skip_text(p + 1));
    case 3: return skip(skip_text(p + 1) + 12);
    case 4: return skip(skip(p + 1));
    case 5: return skip(skip(p + 13) + 12);
  }
  _exit(98);
}
size_t skip(size_t p) {
  switch (T(p)) {
    case 0: return p + 3;
    case 1: return skip_text(p + 1);
    case 2: return skip_text(p + 2);
    case 3: return p + 2;
    case 4: return skip(p + 13);
    case 5: return skip_n(p + 2, T(p + 1));
    case 6: {
      size_t q = skip_text(p + 2);
      size_t m = T(q + 1);
      q += 2;
      while (m--) q = skip_entry(q);
      return q + 1;
    }
    case 7: return skip(p + 2);
    case 8: return skip_n(p + 3, T(p + 2));
    case 9: return p + 4;
  }
  _exit(98);
}
struct Pair {
  Node x, yy;
  constexpr friend auto BestReflect(auto& m, Pair*) { return m.infer(); }
};
struct Empty {
  constexpr friend auto BestReflect(auto& m, Empty*) { return m.infer(); }
};
enum class Color { Red, Blue };
constexpr auto BestReflect(auto& m, Color*) { return m.infer(); }
class NoFmt {
  unsigned char b[2];
 public:
  NoFmt(int x, int y) : b{(unsigned char)x, (unsigned char)y} {}
};

template <typename F>
void composite(F& fmt, int c, size_t n, size_t p) {
  using O = best::option<Node>;
  auto at = [&](size_t k) { return Node{skip_n(p, k)}; };
  switch (c) {
    case 0: return fmt.format(n ? O(at(0)) : O());
    case 1: return fmt.format(best::result<Node, int>(best::ok(at(0))));
    case 2: return fmt.format(best::result<Color, Node>(best::err(at(0))));
    case 3: return fmt.format(best::choice<Node, int, Node>(best::index<0>, at(0)));
    case 4: return fmt.format(best::choice<int, Node, void>(best::index<1>, at(0)));
    case 5: return fmt.format(best::choice<Node, void, Node>(best::index<2>, at(0)));
    case 6:
      if (n == 0) return fmt.format(best::row<>());
      if (n == 1) return fmt.format(best::row<Node>(at(0)));
      if (n == 2) return fmt.format(best::row<Node, Node>(at(0), at(1)));
      return fmt.format(best::row<Node, Node, Node>(at(0), at(1), at(2)));
    case 7:
    case 8: {
      best::vec<Node> v;
      for (size_t k = 0; k < n; ++k) v.push(at(k));
      if (c == 7) return fmt.format(v);
      return fmt.format(v.as_span());
    }
    case 9: return fmt.format(best::box<Node>(at(0)));
    case 10:
      if (n == 0) return fmt.format(best::ok());
      if (n == 1) return fmt.format(best::ok(at(0)));
      return fmt.format(best::ok(at(0), at(1)));
    case 11:
      if (n == 0) return fmt.format(best::err());
      if (n == 1) return fmt.format(best::err(at(0)));
      return fmt.format(best::err(at(0), at(1)));
    case 12: return fmt.format(Pair{at(0), at(1)});
    case 13: return fmt.format(best::object<Node>(best::in_place, at(0)));
    case 14: {
      best::container_internal::option<Node> o;
      if (n) o = at(0);
      return fmt.format(o);
    }
    case 15: return fmt.format(best::result<O, int>(best::ok(O(at(0)))));
    case 16: {
      best::vec<best::row<Node, void>> v;
      if (n) v.push(best::row<Node, void>(at(0), best::empty{}));
      return fmt.format(v);
    }
  }
  _exit(98);
}
template <typename F>
void value(F& fmt, int c, int x, int y) {
  size_t s = x, e = y;
  switch (c) {
    case 0: return fmt.format(best::option<void>(best::in_place));
    case 1: return fmt.format(best::result<void, int>(best::ok()));
    case 2: return fmt.format(best::result<int, void>(best::err()));
    case 3: return fmt.format(best::choice<int, void>(best::index<1>));
    case 4: return x ? fmt.format(best::option<int>()) : fmt.format(best::none);
    case 5: return fmt.format(x == 0   ? best::partial_ord::equivalent
                              : x == 1 ? best::partial_ord::less
                              : x == 2 ? best::partial_ord::greater
                                       : best::partial_ord::unordered);
    case 6: return fmt.format(best::layout(best::unsafe("test"), x, y));
    case 7: return fmt.format(best::atoi_error{});
    case 8: return fmt.format(best::bounds{.start = s});
    case 9: return fmt.format(best::bounds{.start = s, .end = e});
    case 10: return fmt.format(best::bounds{.start = s, .including_end = e});
    case 11: return fmt.format(best::bounds{.start = s, .count = e});
    case 12: {
      NoFmt v(x, y);
      return fmt.format(best::make_formattable(v));
    }
    case 13: return fmt.format((Color)x);
    case 14: return fmt.format(Empty{});
    case 15: return fmt.format(best::object<void>());
    case 16: return fmt.format(best::make_formattable(bool(x)));
    case 17: return fmt.format(*best::rune::from_int((uint32_t)x));
  }
  _exit(98);
}
template <typename F>
void Node::run(F& fmt) const {
  size_t p = this->p;
  switch (T(p++)) {
    case 0: return fmt.format((int)(T(p) << 16 | T(p + 1)));
    case 1: return fmt.format(text(p));
    case 2: {
      int e = T(p++);
      std::vector<int64_t> u(toks->begin() + p + 1, toks->begin() + p + 1 + T(p));
      with_encoding(e, [&](auto enc) {
        using E = decltype(enc);
        exact<best::code<E>> mem(std::vector<best::code<E>>(u.begin(), u.end()));
        fmt.write(best::pretext<E>(mem.span()));
      });
      return;
    }
    case 3: return fmt.write(*best::rune::from_int_allow_surrogates((uint32_t)T(p)));
    case 4: {
      auto s = spec(p);
      return fmt.format(s, Node{p});
    }
    case 5: {
      size_t n = T(p++);
      for (; n > 0; --n, p = skip(p)) fmt.format(Node{p});
      return;
    }
    case 6: {
      int kind = T(p++);
      auto title = text(p);
      int64_t advise = T(p++);
      size_t m = T(p++);
      auto b = kind == 0 ? fmt.list(title) : kind == 1 ? fmt.tuple(title) : fmt.record(title);
      if (advise >= 0) b.advise_size(advise);
      for (; m > 0; --m) {
        size_t q = p;
        p = skip_entry(p);
        switch (T(q++)) {
          case 0: b.entry(Node{q}); break;
          case 1: {
            auto s = spec(q);
            b.entry(s, Node{q});
            break;
          }
          case 2: {
            auto name = text(q);
            b.field(name, Node{q});
            break;
          }
          case 3: {
            auto name = text(q);
            auto s = spec(q);
            b.field(name, s, Node{q});
            break;
          }
          case 4: b.pair(Node{q}, Node{skip(q)}); break;
          case 5: {
            auto s = spec(q);
            Node k{q};
            q = skip(q);
            auto s2 = spec(q);
            b.pair(s, k, s2, Node{q});
            break;
          }
        }
      }
      switch (T(p)) {
        case 3:
          b.finish();
          b.entry(1).field("x", 2).pair(3, 4).entry(Spec{}, 5);
          b.advise_size(1);
          b.field("x", Spec{}, 6).pair(Spec{}, 7, Spec{}, 8);
          [[fallthrough]];
        case 2: b.finish(); [[fallthrough]];
        case 1: b.finish(); [[fallthrough]];
        case 0: break;
      }
      return;
    }
    case 7: {
      Node n{p + 1};
      switch (T(p)) {
        case 0: return fmt.format("<{:!}>", n);
        case 1: return fmt.format("{}", n);
        case 2: return fmt.format("\n{:#?}\n", n);
        case 3: return fmt.format("{{{:#x}}}\n!", n);
      }
      _exit(98);
    }
    case 8: return composite(fmt, T(p), T(p + 1), p + 2);
    case 9: return value(fmt, T(p), T(p + 1), T(p + 2));
  }
  _exit(98);
}
void exec(drv::Cmd& c) {
  toks = &c.l.a;
  c.pos = c.l.a.size();
  if (skip(0) != c.l.a.size()) _exit(98);
  best::strbuf s = best::format("{:!}", Node{0});
  for (size_t i = 0; i < s.size(); ++i) c.out((unsigned char)s.data()[i]);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
