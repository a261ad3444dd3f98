// Elements that record their own construction, copying, moving and destruction.
//
// Every object constructed gets a fresh identity, which lives in the object and
// so survives byte-wise relocation. The log is a flat list of triples
//   <what, identity, value or source identity>
// that the specification replays. An identity of 0 means that the bytes were
// not a live object (never constructed, already destroyed, or trampled); -1
// that an address-sensitive object was moved without its move constructor.
#ifndef VERIF_PROBE_H_
#define VERIF_PROBE_H_
#include <stdint.h>
#include <string.h>

#include <vector>

namespace probe {
enum { New = 1, CopyNew, MoveNew, CopySet, MoveSet, Delete, Compare, Change };
inline std::vector<int64_t> log;
inline int64_t last = 0;
inline void put(int what, int64_t id, int64_t x) {
  log.push_back(what);
  log.push_back(id);
  log.push_back(x);
}
inline void reset() {
  log.clear();
  last = 0;
}
constexpr uint32_t Live = 0x51a7e11e;

template <bool pinned, size_t align, size_t size>
struct alignas(align) Core {
  uint32_t magic;
  int32_t id_, val_;
  void* self;
  char pad[size];
  int64_t id() const {
    if (magic != Live) return 0;
    if (pinned && self != this) return -1;
    if ((uintptr_t)this % align) return -2;
    return id_;
  }
  void born(int v) {
    magic = Live;
    id_ = ++last;
    val_ = v;
    self = this;
    memset(pad, (char)v, size);
  }
  bool intact() const {
    for (size_t i = 0; i < size; ++i)
      if (pad[i] != (char)val_) return false;
    return true;
  }
  int64_t value() const { return id() <= 0 ? -7 : intact() ? val_ : -8; }
};
constexpr int Moved = -5;

// Address-sensitive.
template <size_t align, size_t size>
struct Pinned : Core<true, align, size> {
  Pinned(int v) { this->born(v); put(New, this->id(), v); }
  Pinned(const Pinned& o) { auto s = o.id(); this->born(o.val_); put(CopyNew, this->id(), s); }
  Pinned(Pinned&& o) { auto s = o.id(); this->born(o.val_); put(MoveNew, this->id(), s); o.born_moved(); }
  Pinned& operator=(const Pinned& o) { put(CopySet, this->id(), o.id()); set(o.val_); return *this; }
  Pinned& operator=(Pinned&& o) {
    put(MoveSet, this->id(), o.id());
    set(o.val_);
    if (this != &o) o.born_moved();
    return *this;
  }
  ~Pinned() { put(Delete, this->id(), 0); this->magic = 0; }
  void set(int v) { this->val_ = v; memset(this->pad, (char)v, size); }
  void born_moved() { set(Moved); }
  friend bool operator==(const Pinned& a, const Pinned& b) { return a.val_ == b.val_; }
  friend auto operator<=>(const Pinned& a, const Pinned& b) { return a.val_ <=> b.val_; }
};
// May be relocated byte-wise, but nothing else about it is trivial.
template <size_t align, size_t size>
struct [[clang::trivial_abi]] Loose : Core<false, align, size> {
  Loose(int v) { this->born(v); put(New, this->id(), v); }
  Loose(const Loose& o) { auto s = o.id(); this->born(o.val_); put(CopyNew, this->id(), s); }
  Loose(Loose&& o) { auto s = o.id(); this->born(o.val_); put(MoveNew, this->id(), s); o.set(Moved); }
  Loose& operator=(const Loose& o) { put(CopySet, this->id(), o.id()); set(o.val_); return *this; }
  Loose& operator=(Loose&& o) {
    put(MoveSet, this->id(), o.id());
    set(o.val_);
    if (this != &o) o.set(Moved);
    return *this;
  }
  ~Loose() { put(Delete, this->id(), 0); this->magic = 0; }
  void set(int v) { this->val_ = v; memset(this->pad, (char)v, size); }
  friend bool operator==(const Loose& a, const Loose& b) { return a.val_ == b.val_; }
  friend auto operator<=>(const Loose& a, const Loose& b) { return a.val_ <=> b.val_; }
};
// Cannot be copied.
struct MoveOnly : Core<true, 8, 8> {
  MoveOnly(int v) { born(v); put(New, id(), v); }
  MoveOnly(MoveOnly&& o) { auto s = o.id(); born(o.val_); put(MoveNew, id(), s); o.set(Moved); }
  MoveOnly& operator=(MoveOnly&& o) {
    put(MoveSet, id(), o.id());
    set(o.val_);
    if (this != &o) o.set(Moved);
    return *this;
  }
  ~MoveOnly() { put(Delete, id(), 0); magic = 0; }
  void set(int v) { val_ = v; memset(pad, (char)v, sizeof(pad)); }
  friend bool operator==(const MoveOnly& a, const MoveOnly& b) { return a.val_ == b.val_; }
  friend auto operator<=>(const MoveOnly& a, const MoveOnly& b) { return a.val_ <=> b.val_; }
};
// Constructible but not assignable.
struct Const : Core<true, 8, 8> {
  Const(int v) { born(v); put(New, id(), v); }
  Const(const Const& o) { auto s = o.id(); born(o.val_); put(CopyNew, id(), s); }
  Const(Const&& o) { auto s = o.id(); born(o.val_); put(MoveNew, id(), s); o.val_ = Moved; memset(o.pad, Moved, sizeof(pad)); }
  Const& operator=(const Const&) = delete;
  Const& operator=(Const&&) = delete;
  ~Const() { put(Delete, id(), 0); magic = 0; }
  friend bool operator==(const Const& a, const Const& b) { return a.val_ == b.val_; }
  friend auto operator<=>(const Const& a, const Const& b) { return a.val_ <=> b.val_; }
};
// Trivial: identity is not tracked.
template <typename Int, size_t align>
struct alignas(align) Plain {
  Int val;
  Plain() = default;
  constexpr Plain(int v) : val((Int)v) {}
  int64_t id() const { return (uintptr_t)this % align ? -2 : 0; }
  int64_t value() const { return (int64_t)val; }
  bool operator==(const Plain&) const = default;
  auto operator<=>(const Plain&) const = default;
};
}  // namespace probe
#endif
