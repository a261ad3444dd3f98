// Bulk copies, moves and relocations between slots of one buffer.
#include "drv.h"
#include "probe.h"
#include "best/memory/span.h"
#include "best/memory/ptr.h"

#if ELEM == 0
using T = probe::Plain<int, 4>;
#elif ELEM == 1
using T = probe::Pinned<8, 8>;
#elif ELEM == 2
using T = probe::Loose<8, 8>;
#elif ELEM == 3
using T = probe::Pinned<64, 1>;
#elif ELEM == 4
using T = probe::Const;
#elif ELEM == 5
using T = probe::Plain<uint8_t, 1>;
#elif ELEM == 6
using T = probe::MoveOnly;
#endif
template <typename T>
void go(drv::Cmd& c) {
  constexpr bool copies = std::is_copy_constructible_v<T>;
  probe::reset();
  // Slots: -1 raw, otherwise a live object of that value.
  auto init = c.list();
  size_t n = init.size();
  char* raw = (char*)operator new((n + 1) * sizeof(T), std::align_val_t(64));
  memset(raw, 0x3c, n * sizeof(T));
  T* p = (T*)raw;
  for (size_t i = 0; i < n; ++i)
    if (init[i] >= 0) new (p + i) T((int)init[i]);
  probe::log.clear();
  size_t dst = c.arg(), src = c.arg(), k = c.arg();
  best::ptr<T> d(p + dst), s(p + src);
  best::span<T> all(p, n);
  if constexpr (copies) {
    if (c.is("copy")) d.copy(s, k);
    if (c.is("copy_assign")) d.copy_assign(s, k);
    if (c.is("copy_overlapping")) d.copy_overlapping(s, k);
    if (c.is("copy_assign_overlapping")) d.copy_assign_overlapping(s, k);
    if (c.is("copy_from")) {
      size_t j = c.arg();  // The source may be longer or shorter.
      all[{.start = dst, .count = k}].copy_from(best::span<const T>(p + src, j));
    }
    if (c.is("emplace_from")) {
      size_t j = c.arg();
      all[{.start = dst, .count = k}].emplace_from(best::span<const T>(p + src, j));
    }
  }
  if (c.is("move")) d.move(s, k);
  if (c.is("move_assign")) d.move_assign(s, k);
  if (c.is("move_overlapping")) d.move_overlapping(s, k);
  if (c.is("move_assign_overlapping")) d.move_assign_overlapping(s, k);
  if (c.is("relo")) d.relo(s, k);
  if (c.is("relo_assign")) d.relo_assign(s, k);
  if (c.is("relo_overlapping")) d.relo_overlapping(s, k);
  if (c.is("shift")) all.shift_within(best::unsafe("as the script says"), dst, src, k);
  if (c.is("destroy")) all[{.start = dst, .count = k}].destroy();
  if constexpr (!std::is_same_v<T, probe::Const>) {
    if (c.is("swap")) all.swap(dst, src);
    if (c.is("reverse")) all[{.start = dst, .count = k}].reverse();
  }
  for (size_t i = 0; i < n; ++i) {
    c.out(p[i].id());
    c.out(p[i].value());
  }
  c.outs(probe::log);
  operator delete(raw, std::align_val_t(64));
}
void exec(drv::Cmd& c) { go<T>(c); }
int main(int argc, char** argv) { return drv::run(argc, argv, exec); }
