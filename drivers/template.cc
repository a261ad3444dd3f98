// Format templates read at run time, from exact copies of their bytes.
#include <cstring>
#include <memory>

#include "best/text/format.h"
#include "best/text/utf8.h"
#include "drv.h"

using Spec = best::format_spec;
using Query = Spec::query;
bool boxX(best::rune r) { return r == 'b' || r == 'o' || r == 'x' || r == 'X'; }
bool quote(best::rune r) { return r == 'q'; }
bool ptr(best::rune r) { return r == 'p'; }
bool any(best::rune) { return true; }

void half(std::vector<int64_t>& v, uint64_t n) {
  v.push_back(n >> 16 > 0x7fffffff ? 0x7fffffff : n >> 16);
  v.push_back(n & 0xffff);
}
void show(std::vector<int64_t>& v, const Spec& s) {
  v.push_back(s.alt);
  v.push_back(s.debug);
  v.push_back(s.sign_aware_padding);
  v.push_back(s.pass_through);
  v.push_back(s.alignment ? int(*s.alignment) + 1 : 0);
  v.push_back(s.fill.to_int());
  half(v, s.width);
  v.push_back(s.prec.has_value());
  half(v, s.prec.value_or(0));
  v.push_back(s.method ? s.method->to_int() : 0);
}

void exec(drv::Cmd& c) {
  if (c.is("parse")) {
    auto t = c.bytes();
    std::unique_ptr<char[]> mem(new char[t.size()]);
    memcpy(mem.get(), t.data(), t.size());
    std::vector<std::vector<int64_t>> pieces;
    bool lit = false;
    bool ok = best::format_internal::visit_template<Spec>(
      mem.get(), t.size(),
      [&](best::str s) {
        if (!lit) pieces.push_back({0, 0});
        lit = true;
        pieces.back()[1] += s.size();
        for (size_t i = 0; i < s.size(); ++i) pieces.back().push_back((unsigned char)s.data()[i]);
        return true;
      },
      [&](size_t n, const Spec& s) {
        lit = false;
        pieces.push_back({1});
        half(pieces.back(), n);
        show(pieces.back(), s);
        return true;
      });
    if (!ok) {
      c.kind("none");
      return;
    }
    for (auto& p : pieces) c.outs(p);
  } else if (c.is("check")) {
    std::vector<Query> qs;
    size_t n = c.arg();
    bool (*const modes[])(best::rune) = {nullptr, boxX, quote, ptr, any};
    for (size_t i = 0; i < n; ++i) {
      Query q;
      q.requires_debug = c.arg();
      q.supports_width = c.arg();
      q.supports_prec = c.arg();
      q.uses_method = modes[c.arg()];
      qs.push_back(q);
    }
    auto t = c.bytes();
    std::unique_ptr<char[]> mem(new char[t.size() + 1]);
    memcpy(mem.get(), t.c_str(), t.size() + 1);
    std::unique_ptr<Query[]> q(new Query[n]);
    std::copy(qs.begin(), qs.end(), q.get());
    c.out(best::format_internal::validate<Spec>(best::span<const Query>(q.get(), n),
                                                best::span<const char>(mem.get(), t.size() + 1)));
  }
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
