// Error numbers.
#include <errno.h>

#include "best/container/result.h"
#include "best/io/ioerr.h"
#include "best/text/format.h"
#include "drv.h"
void exec(drv::Cmd& c) {
  auto text = [&](auto s) {
    c.out(s ? (int)s->size() : -1);
    if (s) c.outb(std::string_view((const char*)s->data(), s->size()));
  };
  if (c.is("err")) {
    best::ioerr e((int)c.arg());
    c.out(e.raw()).out((int)e);
    text(e.name());
    text(e.message());
    return;
  }
  if (c.is("shown")) {
    auto s = best::format("{}", best::ioerr((int)c.arg()));
    c.out(s.size()).outb(std::string_view((const char*)s.data(), s.size()));
    return;
  }
  if (c.is("cmp")) {
    best::ioerr a((int)c.arg()), b((int)c.arg());
    c.out(a == b).out(a != b).out(a < b).out(a > b).out(a <= b).out(a >= b);
    return;
  }
  if (c.is("current")) {
    errno = (int)c.arg();
    auto r = best::ioerr::current();
    c.out(r.is_ok() ? 0 : 1);
    c.out(r.is_ok() ? 0 : r.err()->raw());
    return;
  }
  if (c.is("option")) {
    best::option<best::ioerr> o;
    c.out(o.has_value());
    o = best::ioerr((int)c.arg());
    c.out(o.has_value()).out(o->raw());
    o = best::none;
    c.out(o.has_value());
    return;
  }
  _exit(98);
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
