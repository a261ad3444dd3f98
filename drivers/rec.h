// An allocator that records what is asked of it. Allocators compare equal when
// they have the same number; every block has a number that is never reused.
//
// The log is a flat sequence of <what, block, size, log2 align, allocator>;
// a resize is <3, old block, old size, old align, allocator> directly followed
// by <4, new block, new size, new align, allocator>.
#ifndef VERIF_REC_H_
#define VERIF_REC_H_
#include <stdlib.h>
#include <string.h>

#include <map>
#include <vector>

#include "best/memory/allocator.h"

namespace rec {
enum { Alloc = 1, Free = 2, Old = 3, New = 4 };
inline std::vector<int64_t> log;
inline std::map<uintptr_t, int64_t> blocks;
inline std::map<int64_t, size_t> sizes;  // Real sizes.
inline int64_t last = 0;
inline void reset() {
  log.clear();
  blocks.clear();
  sizes.clear();
  last = 0;
}
inline int64_t lg(size_t a) {
  int64_t r = 0;
  while (a > 1) a >>= 1, ++r;
  return r;
}
inline int64_t block(const void* p) {
  auto i = blocks.find((uintptr_t)p);
  return i == blocks.end() ? 0 : i->second;
}
inline void put(int what, int64_t b, best::layout l, int64_t id) {
  for (int64_t x : {(int64_t)what, b, (int64_t)l.size(), lg(l.align()), id}) log.push_back(x);
}
struct A {
  int64_t id = 0;
  void* raw(best::layout l, int fill) {
    size_t al = l.align() < 16 ? 16 : l.align();
    void* p = nullptr;
    // Exactly as large as asked for, so that the sanitizer sees any excess.
    if (posix_memalign(&p, al, l.size())) abort();
    memset(p, fill, l.size());
    blocks[(uintptr_t)p] = ++last;
    sizes[last] = l.size();
    return p;
  }
  best::ptr<void> alloc(best::layout l) {
    void* p = raw(l, 0x3c);
    put(Alloc, block(p), l, id);
    return p;
  }
  best::ptr<void> zalloc(best::layout l) {
    void* p = raw(l, 0);
    put(Alloc, block(p), l, id);
    return p;
  }
  best::ptr<void> realloc(best::ptr<void> q, best::layout o, best::layout l) {
    int64_t b = block(q.raw());
    put(Old, b, o, id);
    void* p = raw(l, 0x3c);
    if (b) memcpy(p, q.raw(), std::min({sizes[b], o.size(), l.size()}));
    put(New, block(p), l, id);
    drop(q.raw());
    return p;
  }
  void dealloc(best::ptr<void> q, best::layout l) {
    put(Free, block(q.raw()), l, id);
    drop(q.raw());
  }
  void drop(void* p) {
    auto i = blocks.find((uintptr_t)p);
    if (i == blocks.end()) return;
    blocks.erase(i);
    free(p);
  }
  bool operator==(const A& o) const { return id == o.id; }
};
}  // namespace rec
#endif
