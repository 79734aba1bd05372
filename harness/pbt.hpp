// A small property-based testing engine for code that may crash, assert, exit or hang.
//
// * Every random decision of a case is drawn from a recorded sequence of bounded integers
//   ("choice sequence"); shrinking deletes / zeroes / minimises choices and re-runs the generator.
// * Cases run in forked workers; a crash, a failed assertion, an exit() or a CPU-time overrun of the
//   code under test ends only the worker and is reported as a failure of the case it was running.
// * A failure is believed only when three replays from the recorded choices, each in a fresh
//   process, fail again.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <stdarg.h>

namespace pbt {

struct Case {
  // ---- choice source
  std::vector<uint64_t> in; size_t pos = 0; bool random = false; uint64_t st = 0;
  std::vector<uint64_t> out;
  uint64_t *tee = nullptr; size_t nout = 0;   // shared-memory copy of the choices: tee[0] = count
  void push(uint64_t v) { out.push_back(v); if (tee && nout < 65535) { tee[1 + nout] = v; tee[0] = ++nout; } }
  // ---- outcome
  bool nontriv = false; std::string notes;

  uint64_t next64() { st += 0x9E3779B97F4A7C15ull; uint64_t z = st;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  // uniform in [0,n), n >= 1
  uint64_t below(uint64_t n) {
    uint64_t v;
    if (n <= 1) { v = 0; if (!random && pos < in.size()) pos++; push(0); return 0; }
    if (random) v = (uint64_t)(((unsigned __int128)next64() * n) >> 64);
    else { v = pos < in.size() ? in[pos] : 0; pos++; if (v >= n) v = n - 1; }
    push(v); return v;
  }
  uint64_t u64() { uint64_t v; if (random) v = next64(); else { v = pos < in.size() ? in[pos] : 0; pos++; } push(v); return v; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }         // inclusive, shrinks to lo
  bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }          // shrinks to false
  bool flag() { return below(2) == 1; }
  // weighted pick: returns index; shrinks to 0
  int pick(std::initializer_list<int> w) { int s = 0; for (int x : w) s += x; int r = (int)below(s), i = 0; for (int x : w) { if (r < x) return i; r -= x; i++; } return 0; }
  double unit() { return (double)below(1ull << 53) / (double)(1ull << 53); }             // [0,1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double gauss() { double u = (below(1ull << 32) + 1.0) / 4294967297.0, v = below(1ull << 32) / 4294967296.0; return sqrt(-2 * log(u)) * cos(2 * M_PI * v); }
  template <class T> T &of(std::vector<T> &v) { return v[below(v.size())]; }

  // ---- reporting
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void label(const char *name);
  void labelf(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // The property is violated.  Never returns.
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // The generated case is outside the property's domain (counted, never a failure).  Never returns.
  [[noreturn]] void discard(const char *why);
};

#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

struct Sub {
  const char *prop, *name; void (*fn)(Case &); int quick, thorough; double cpu; const char *rule;
};
std::vector<Sub> &subs();
struct Reg { Reg(const char *prop, const char *name, void (*fn)(Case &), int q, int t, double cpu, const char *rule) { subs().push_back({prop, name, fn, q, t, cpu, rule}); } };

// PROPERTY(id, name, quick cases, thorough cases, CPU seconds per case, what counts as non-trivial)
#define PROPERTY(id, name, q, t, cpu, rule) \
  static void prop_##id##_##name(pbt::Case &c); \
  static pbt::Reg reg_##id##_##name(#id, #name, prop_##id##_##name, q, t, cpu, rule); \
  static void prop_##id##_##name(pbt::Case &c)

// Scratch directory of this run (one per worker), removed at the end.
const char *scratch();
// Runs fn in a forked child with a CPU limit. Returns: 0 normal return, 1 exit(nonzero)/_exit,
// 2 fatal signal other than SIGABRT, 3 SIGABRT (assert), 4 CPU/wall limit, 5 sanitizer report, 6 exit(0).
int isolated(const std::function<void()> &fn, double cpu_s = 10, std::string *errtext = nullptr);
extern bool g_thorough;
}
