// Conformance driver runtime.
//
// A driver is an interpreter for command scripts. A script is a text file; each
// line is either "#" (start of a new history) or "op int int ..." (one call into
// the code under test). The driver runs every history in order in a forked
// worker and writes one JSON event per command:
//
//   {"h":<history>,"op":"push","a":[1,2],"k":"ok","v":[...], "s":[...]}
//
// "k" is the kind of outcome the caller observed, "v" its payload (integers
// only, so that the TLA+ side never has to compare values of different types)
// and "s", if present, a full snapshot of the observable state after the call.
// A worker that dies is observed by the parent, which records how it died
// ("crash" = the library's own fatal-error exit, "fault" = signal or sanitizer
// report, "hang" = CPU budget exceeded) and resumes with the next history.
#ifndef VERIF_DRV_H_
#define VERIF_DRV_H_

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <string_view>
#include <vector>

namespace drv {
struct Shared {
  volatile size_t used;     // bytes of committed output
  volatile size_t hist;     // history in progress
  volatile size_t line;     // command in progress (index into lines)
  volatile int in_cmd;      // 1 while executing a command
};
inline Shared* shared;
inline char* outbuf;
inline size_t outcap;

struct Line {
  std::string op;
  std::vector<int64_t> a;
  size_t hist;
};
inline std::vector<Line> lines;

inline void put(std::string_view s) {
  if (shared->used + s.size() + 64 > outcap) _exit(99);
  memcpy(outbuf + shared->used, s.data(), s.size());
  shared->used = shared->used + s.size();
}

// One command being executed.
struct Cmd {
  const Line& l;
  size_t pos = 0;
  std::string k = "ok";
  std::vector<int64_t> v;
  bool has_s = false;
  std::string s;

  std::string_view op() const { return l.op; }
  bool is(std::string_view o) const { return l.op == o; }
  bool more() const { return pos < l.a.size(); }
  int64_t arg() {
    if (pos >= l.a.size()) {
      fprintf(stderr, "driver: missing argument for %s\n", l.op.c_str());
      _exit(98);
    }
    return l.a[pos++];
  }
  // 64-bit value as four 16-bit limbs, low first.
  uint64_t u64() {
    uint64_t x = 0;
    for (int i = 0; i < 4; ++i) x |= (uint64_t)(arg() & 0xffff) << (16 * i);
    return x;
  }
  // Length-prefixed list.
  template <typename T = int64_t>
  std::vector<T> list() {
    size_t n = arg();
    std::vector<T> r;
    for (size_t i = 0; i < n; ++i) r.push_back((T)arg());
    return r;
  }
  std::string bytes() {
    size_t n = arg();
    std::string r;
    for (size_t i = 0; i < n; ++i) r.push_back((char)arg());
    return r;
  }
  Cmd& kind(std::string_view kk) {
    k = kk;
    return *this;
  }
  Cmd& out(int64_t x) {
    v.push_back(x);
    return *this;
  }
  Cmd& out64(uint64_t x) {
    for (int i = 0; i < 4; ++i) v.push_back((x >> (16 * i)) & 0xffff);
    return *this;
  }
  template <typename C>
  Cmd& outs(const C& c) {
    for (auto x : c) v.push_back((int64_t)x);
    return *this;
  }
  Cmd& outb(std::string_view c) {
    for (unsigned char x : c) v.push_back(x);
    return *this;
  }
};

inline std::string ints(const std::vector<int64_t>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += ',';
    // TLC integers are 32-bit: anything wider must be split by the driver.
    if (v[i] > 2147483647LL || v[i] < -2147483647LL) {
      r += "2147483647";
    } else {
      r += std::to_string(v[i]);
    }
  }
  return r + "]";
}

inline void emit(const Line& l, std::string_view k,
                 const std::vector<int64_t>& v, std::string_view s) {
  std::string r = "{\"h\":" + std::to_string(l.hist) + ",\"op\":\"" + l.op +
                  "\",\"a\":" + ints(l.a) + ",\"k\":\"" + std::string(k) +
                  "\",\"v\":" + ints(v);
  if (!s.empty()) {
    r += ",\"s\":";
    r += s;
  }
  r += "}\n";
  put(r);
}

using Exec = void (*)(Cmd&);
using Reset = void (*)();

inline void arm() {
  static long secs = getenv("DRV_CPU") ? atol(getenv("DRV_CPU")) : 10;
  struct itimerval tv {};
  tv.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

inline void worker(size_t from, Exec exec, Reset reset) {
  size_t cur = (size_t)-1;
  for (size_t i = from; i < lines.size(); ++i) {
    const Line& l = lines[i];
    if (l.hist != cur) {
      cur = l.hist;
      shared->hist = cur;
      arm();
      if (reset) {
        shared->in_cmd = 0;
        shared->line = i;
        reset();
      }
    }
    shared->line = i;
    shared->in_cmd = 1;
    Cmd c{l};
    exec(c);
    shared->in_cmd = 0;
    emit(l, c.k, c.v, c.s);
  }
}

// Script format: '#' on a line of its own begins a history. With `-1`, every
// line is a history of its own.
inline int run(int argc, char** argv, Exec exec, Reset reset = nullptr) {
  bool single = false;
  int ai = 1;
  if (ai < argc && !strcmp(argv[ai], "-1")) {
    single = true;
    ++ai;
  }
  if (argc - ai < 2) {
    fprintf(stderr, "usage: %s [-1] SCRIPT OUT\n", argv[0]);
    return 97;
  }
  FILE* f = fopen(argv[ai], "r");
  if (!f) return 97;
  char* buf = nullptr;
  size_t cap = 0;
  size_t hist = 0;
  while (getline(&buf, &cap, f) > 0) {
    char* save;
    char* t = strtok_r(buf, " \n", &save);
    if (!t) continue;
    if (!strcmp(t, "#")) {
      ++hist;
      continue;
    }
    Line l;
    if (single) ++hist;
    l.op = t;
    l.hist = hist;
    while ((t = strtok_r(nullptr, " \n", &save))) l.a.push_back(atoll(t));
    lines.push_back(std::move(l));
  }
  free(buf);
  fclose(f);

  outcap = (size_t)1 << 31;
  outbuf = (char*)mmap(nullptr, outcap, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shared = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (outbuf == MAP_FAILED || shared == MAP_FAILED) return 96;

  size_t from = 0;
  while (from < lines.size()) {
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) return 95;
    if (p == 0) {
      int dn = open("/dev/null", O_WRONLY);
      if (!getenv("DRV_VERBOSE")) dup2(dn, 2);
      dup2(dn, 1);
      worker(from, exec, reset);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 95 && WEXITSTATUS(st) <= 99) {
      fprintf(stderr, "driver: internal error %d at line %zu\n",
              WEXITSTATUS(st), shared->line);
      return WEXITSTATUS(st);
    }
    const char* k = "fault";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 128) k = "crash";
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) k = "hang";
    size_t i = shared->line;
    emit(lines[i], k, {}, {});
    size_t h = lines[i].hist;
    while (i < lines.size() && lines[i].hist == h) ++i;
    from = i;
  }

  FILE* o = fopen(argv[ai + 1], "w");
  if (!o) return 94;
  fwrite(outbuf, 1, shared->used, o);
  fclose(o);
  return 0;
}
}  // namespace drv

#endif
