// Histories of the default allocator.
#include <cstring>

#include "best/memory/allocator.h"
#include "best/memory/allocator.cc"
#include "drv.h"

struct Slot {
  void* p = nullptr;
  best::layout ly;
  int seed = 0;
};
Slot slots[8];
void reset() {
  for (auto& s : slots) s = {};
}
unsigned char pat(int seed, size_t i) { return 1 + (seed * 37 + i * 11 + (i >> 8)) % 251; }
void fill(Slot& s, int seed) {
  s.seed = seed;
  for (size_t i = 0; i < s.ly.size(); ++i) ((unsigned char*)s.p)[i] = pat(seed, i);
}
// How many of its leading bytes are as they were written.
size_t kept(const Slot& s, size_t upto) {
  size_t i = 0;
  while (i < upto && ((unsigned char*)s.p)[i] == pat(s.seed, i)) ++i;
  return i;
}
size_t zeros(const Slot& s) {
  size_t i = 0;
  while (i < s.ly.size() && ((unsigned char*)s.p)[i] == 0) ++i;
  return i;
}
void exec(drv::Cmd& c) {
  auto place = [&](void* p) {
    c.out((uintptr_t)p >> 24);
    c.out((uintptr_t)p & 0xffffff);
  };
  if (c.is("huge")) {
    // A size far beyond what there is.
    int zero = c.arg();
    size_t size = c.u64(), align = size_t{1} << c.arg();
    best::layout ly(best::unsafe("test"), size, align);
    best::ptr<void> p = zero ? best::malloc::zalloc(ly) : best::malloc::alloc(ly);
    c.out(p != nullptr);
    return;
  }
  auto& s = slots[c.arg()];
  if (c.is("alloc") || c.is("zalloc")) {
    size_t size = c.arg(), align = size_t{1} << c.arg();
    s.ly = best::layout(best::unsafe("test"), size, align);
    s.p = (c.is("alloc") ? best::malloc::alloc(s.ly) : best::malloc::zalloc(s.ly)).raw();
    place(s.p);
    c.out(c.is("alloc") ? 0 : zeros(s));
    fill(s, c.arg());
  } else if (c.is("realloc")) {
    size_t size = c.arg(), align = size_t{1} << c.arg();
    best::layout ly(best::unsafe("test"), size, align);
    size_t common = std::min(size, s.ly.size());
    s.p = best::malloc::realloc(s.p, s.ly, ly).raw();
    s.ly = ly;
    place(s.p);
    c.out(kept(s, common));
    fill(s, c.arg());
  } else if (c.is("dealloc")) {
    c.out(kept(s, s.ly.size()));
    best::malloc::dealloc(s.p, s.ly);
    s = {};
  } else {
    _exit(98);
  }
}
int main(int argc, char** argv) { return drv::run(argc, argv, exec, reset); }
