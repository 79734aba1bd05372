// C31: the associative arrays the library stores its diagrams in, against std::map.
#include "pbt.hpp"
#include <set>
#include <algorithm>
#include <map>
#include "Judy.h"
using std::vector; using std::string; using std::map; using std::set;
namespace {
struct Keys { int style; Word_t base, stride; };
Keys keys(pbt::Case &c) { Keys k; k.style = c.pick({3, 3, 2, 2, 1}); static const int sh[] = {0, 0, 0, 1, 8, 9, 16, 24, 32, 40, 48, 55, 56}; k.stride = (Word_t)1 << sh[c.below(13)]; k.base = c.flag() ? c.u64() : c.flag() ? 0 : (Word_t)c.below(1 << 20); if (c.chance(1, 6)) k.base = ~(Word_t)0 - c.below(2000) * (c.flag() ? 1 : k.stride); return k; }
Word_t key(pbt::Case &c, const Keys &k) { switch (k.style) {
    case 0: return k.base + k.stride * c.below(40);
    case 1: return k.base + k.stride * c.below(3000);
    case 2: { Word_t x = 0; for (int i = 0; i < 8; i++) x = (x << 8) | (c.chance(1, 3) ? c.below(256) : c.below(3) * 127); return x; }
    case 3: return k.base + k.stride * c.below(30) + c.below(20);
    default: { static const Word_t e[] = {0, 1, ~(Word_t)0, ~(Word_t)0 - 1, 255, 256, 65535, 65536, (Word_t)1 << 32, ((Word_t)1 << 32) - 1, (Word_t)1 << 63, ((Word_t)1 << 63) - 1}; return c.flag() ? e[c.below(12)] : c.u64(); } } }
struct M { set<Word_t> s; map<Word_t, Word_t> v; };
typedef JError_t E;
bool first(const set<Word_t> &s, Word_t &x, int dir, bool strict) {   // model of First/Next/Last/Prev
  if (dir > 0) { auto i = strict ? s.upper_bound(x) : s.lower_bound(x); if (i == s.end()) return false; x = *i; return true; }
  auto i = strict ? s.lower_bound(x) : s.upper_bound(x); if (i == s.begin()) return false; x = *--i; return true; }
bool empty(const set<Word_t> &s, Word_t &x, int dir, bool strict) { Word_t y = x; if (strict) { if (y == (dir > 0 ? ~(Word_t)0 : 0)) return false; y += dir; } while (s.count(y)) { if (y == (dir > 0 ? ~(Word_t)0 : 0)) return false; y += dir; } x = y; return true; }
}
PROPERTY(C31, sets_and_maps, 40000, 1500000, 60, "at least forty operations and at least ten keys present at some moment") {
  M m; Pvoid_t J1 = nullptr, JL = nullptr; E je; Keys k = keys(c), k2 = keys(c); int steps = c.range(5, 120); size_t most = 0; Word_t serial = 1;
  auto insert = [&](Word_t x) { bool was = m.s.count(x); int r = Judy1Set(&J1, x, &je); CHECK(c, r == !was, "setting %#lx returns %d, present before: %d (%zu keys)", x, r, was, m.s.size()); PPvoid_t p = JudyLIns(&JL, x, &je); CHECK(c, p && p != PPJERR, "no slot for %#lx", x); CHECK(c, *(Word_t *)p == (was ? m.v[x] : 0), "slot of %#lx holds %#lx, expected %#lx", x, *(Word_t *)p, was ? m.v[x] : 0); Word_t v = serial++ * 0x9E3779B97F4A7C15ul; *(Word_t *)p = v; m.s.insert(x); m.v[x] = v; };
  auto erase = [&](Word_t x) { bool was = m.s.count(x); int r = Judy1Unset(&J1, x, &je); CHECK(c, r == was, "unsetting %#lx returns %d, present: %d (%zu keys)", x, r, was, m.s.size()); r = JudyLDel(&JL, x, &je); CHECK(c, r == was, "deleting %#lx returns %d, present: %d (%zu keys)", x, r, was, m.s.size()); m.s.erase(x); m.v.erase(x); };
  auto pickkey = [&]() -> Word_t { if (!m.s.empty() && c.chance(1, 2)) { auto i = m.s.lower_bound(key(c, k)); if (i == m.s.end()) i = m.s.begin(); Word_t x = *i; int d = c.range(0, 4); return d == 3 ? x + 1 : d == 4 ? x - 1 : x; } return key(c, c.chance(1, 4) ? k2 : k); };
  int grow = c.range(1, 9);
  for (int st = 0; st < steps; st++) { most = std::max(most, m.s.size()); switch (c.pick({10, 3, 6, 4, 4, 3, 2, 1})) {
    case 0: if ((int)c.below(10) < grow) insert(pickkey()); else erase(pickkey()); break;
    case 1: { Word_t a = key(c, c.chance(1, 4) ? k2 : k), d = c.flag() ? 1 : k.stride; int n = c.range(1, c.chance(1, 5) ? 1200 : 80); bool down = c.flag(), ins = (int)c.below(10) < grow; for (int i = 0; i < n; i++) { Word_t x = a + (down ? (Word_t)0 - i : (Word_t)i) * d; ins ? insert(x) : erase(x); } break; }
    case 2: { Word_t x = pickkey(); bool was = m.s.count(x); CHECK(c, Judy1Test(J1, x, &je) == was, "testing %#lx gives %d among %zu keys", x, !was, m.s.size()); PPvoid_t p = JudyLGet(JL, x, &je); CHECK(c, (p != nullptr) == was, "looking up %#lx: %s among %zu keys", x, p ? "found" : "not found", m.s.size()); if (p) CHECK(c, *(Word_t *)p == m.v[x], "value of %#lx is %#lx, expected %#lx", x, *(Word_t *)p, m.v[x]); break; }
    case 3: { Word_t x = pickkey(); int w = c.below(4), dir = w < 2 ? 1 : -1; bool strict = w & 1; Word_t e = x; bool has = first(m.s, e, dir, strict); static const char *nm[] = {"first", "next", "last", "previous"}; Word_t y = x, z = x; int r = w == 0 ? Judy1First(J1, &y, &je) : w == 1 ? Judy1Next(J1, &y, &je) : w == 2 ? Judy1Last(J1, &y, &je) : Judy1Prev(J1, &y, &je);
        CHECK(c, r == has && (!has || y == e), "%s from %#lx among %zu keys: %d %#lx, expected %d %#lx", nm[w], x, m.s.size(), r, y, has, e); PPvoid_t p = w == 0 ? JudyLFirst(JL, &z, &je) : w == 1 ? JudyLNext(JL, &z, &je) : w == 2 ? JudyLLast(JL, &z, &je) : JudyLPrev(JL, &z, &je); CHECK(c, (p != nullptr) == has && (!has || (z == e && *(Word_t *)p == m.v[e])), "%s entry from %#lx among %zu keys: %#lx, expected %d %#lx", nm[w], x, m.s.size(), z, has, e); break; }
    case 4: { Word_t x = pickkey(); int w = c.below(4), dir = w < 2 ? 1 : -1; bool strict = w & 1; Word_t e = x; bool has = empty(m.s, e, dir, strict); static const char *nm[] = {"first", "next", "last", "previous"}; Word_t y = x, z = x; int r = w == 0 ? Judy1FirstEmpty(J1, &y, &je) : w == 1 ? Judy1NextEmpty(J1, &y, &je) : w == 2 ? Judy1LastEmpty(J1, &y, &je) : Judy1PrevEmpty(J1, &y, &je);
        CHECK(c, r == has && (!has || y == e), "%s absent key from %#lx among %zu keys: %d %#lx, expected %d %#lx", nm[w], x, m.s.size(), r, y, has, e); r = w == 0 ? JudyLFirstEmpty(JL, &z, &je) : w == 1 ? JudyLNextEmpty(JL, &z, &je) : w == 2 ? JudyLLastEmpty(JL, &z, &je) : JudyLPrevEmpty(JL, &z, &je); CHECK(c, r == has && (!has || z == e), "%s absent entry from %#lx among %zu keys: %d %#lx, expected %d %#lx", nm[w], x, m.s.size(), r, z, has, e); break; }
    case 5: { Word_t a = pickkey(), b = pickkey(); if (c.chance(1, 4)) { a = 0; b = ~(Word_t)0; } if (a > b) std::swap(a, b); Word_t n = std::distance(m.s.lower_bound(a), m.s.upper_bound(b)), r = Judy1Count(J1, a, b, &je), q = JudyLCount(JL, a, b, &je); CHECK(c, r == n && q == n, "counting %#lx..%#lx among %zu keys: %lu and %lu, expected %lu", a, b, m.s.size(), r, q, n); break; }
    case 6: { Word_t n = 1 + c.below(m.s.size() + 2), x = 0, y = 0; bool has = n <= m.s.size(); Word_t e = 0; if (has) e = *std::next(m.s.begin(), n - 1); int r = Judy1ByCount(J1, n, &x, &je); PPvoid_t p = JudyLByCount(JL, n, &y, &je); CHECK(c, r == has && (!has || x == e), "key number %lu of %zu: %d %#lx, expected %#lx", n, m.s.size(), r, x, e); CHECK(c, (p != nullptr) == has && (!has || (y == e && *(Word_t *)p == m.v[e])), "entry number %lu of %zu: %#lx, expected %#lx", n, m.s.size(), y, e); break; }
    case 7: { Word_t u1 = Judy1MemUsed(J1), u2 = JudyLMemUsed(JL); Word_t a1 = Judy1MemActive(J1), a2 = JudyLMemActive(JL); CHECK(c, a1 <= u1 + 64 && a2 <= u2 + 64, "more memory active (%lu, %lu) than used (%lu, %lu)", a1, a2, u1, u2); if (c.chance(1, 3)) { Word_t f1 = Judy1FreeArray(&J1, &je), f2 = JudyLFreeArray(&JL, &je); CHECK(c, f1 == u1 && f2 == u2 && !J1 && !JL, "freed %lu and %lu bytes of %lu and %lu", f1, f2, u1, u2); m = M(); } break; } }
    }
  most = std::max(most, m.s.size());
  c.nontrivial(steps >= 40 && most >= 10); c.labelf("keys%s", most < 10 ? "<10" : most < 100 ? "<100" : most < 1000 ? "<1000" : ">=1000"); c.note("style %d base %#lx stride %#lx, %d steps, at most %zu keys", k.style, k.base, k.stride, steps, most);
  // everything, forwards and backwards
  Word_t x = 0; PPvoid_t p = JudyLFirst(JL, &x, &je); size_t n = 0; for (auto &kv : m.v) { CHECK(c, p && x == kv.first && *(Word_t *)p == kv.second, "entry %zu of %zu is %#lx, expected %#lx", n, m.v.size(), x, kv.first); n++; p = JudyLNext(JL, &x, &je); } CHECK(c, !p, "more entries than the %zu inserted", m.v.size());
  x = ~(Word_t)0; int r = Judy1Last(J1, &x, &je); for (auto i = m.s.rbegin(); i != m.s.rend(); ++i) { CHECK(c, r == 1 && x == *i, "key %#lx instead of %#lx going backwards", x, *i); r = Judy1Prev(J1, &x, &je); } CHECK(c, r == 0, "more keys than the %zu set", m.s.size());
  if (c.flag()) { vector<Word_t> all(m.s.begin(), m.s.end()); if (c.flag()) for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[c.below(i)]); for (Word_t y : all) erase(y); CHECK(c, !J1 && !JL, "the arrays are not empty after deleting every key"); CHECK(c, Judy1MemUsed(J1) == 0 && JudyLMemUsed(JL) == 0, "an empty array uses memory"); }
  Word_t u1 = Judy1MemUsed(J1), u2 = JudyLMemUsed(JL), f1 = Judy1FreeArray(&J1, &je), f2 = JudyLFreeArray(&JL, &je); CHECK(c, f1 == u1 && f2 == u2 && !J1 && !JL, "freed %lu and %lu bytes of %lu and %lu", f1, f2, u1, u2);
}
PROPERTY(C31, bulk_load, 20000, 600000, 60, "at least ten keys") {
  set<Word_t> s; Keys k = keys(c), k2 = keys(c); int blocks = c.range(0, 6); for (int b = 0; b < blocks; b++) { Word_t a = key(c, c.chance(1, 3) ? k2 : k), d = c.flag() ? 1 : k.stride; int n = c.range(1, c.chance(1, 4) ? 900 : 60); for (int i = 0; i < n; i++) s.insert(a + d * i); }
  vector<Word_t> x(s.begin(), s.end()), v; x.reserve(1); v.reserve(1); for (size_t i = 0; i < x.size(); i++) v.push_back(c.u64()); c.nontrivial(x.size() >= 10); c.note("%zu keys", x.size()); Pvoid_t J1 = nullptr, JL = nullptr; E je;
  int r = Judy1SetArray(&J1, x.size(), x.data(), &je); CHECK(c, r == 1, "loading %zu keys returns %d", x.size(), r); r = JudyLInsArray(&JL, x.size(), x.data(), v.data(), &je); CHECK(c, r == 1, "loading %zu entries returns %d", x.size(), r);
  Word_t y = 0; int q = Judy1First(J1, &y, &je); for (Word_t e : x) { CHECK(c, q == 1 && y == e, "key %#lx instead of %#lx", y, e); q = Judy1Next(J1, &y, &je); } CHECK(c, q == 0, "too many keys"); for (size_t i = 0; i < x.size(); i++) { PPvoid_t p = JudyLGet(JL, x[i], &je); CHECK(c, p && *(Word_t *)p == v[i], "entry %#lx is wrong", x[i]); }
  CHECK(c, Judy1Count(J1, 0, ~(Word_t)0, &je) == x.size() && JudyLCount(JL, 0, ~(Word_t)0, &je) == x.size(), "counts differ from %zu", x.size());
  for (int i = 0; i < 20 && !x.empty(); i++) { size_t j = c.below(x.size()); bool was = s.erase(x[j]); CHECK(c, Judy1Unset(&J1, x[j], &je) == was && JudyLDel(&JL, x[j], &je) == was, "deleting %#lx", x[j]); Word_t z = key(c, k); bool n = s.insert(z).second; CHECK(c, Judy1Set(&J1, z, &je) == n, "setting %#lx", z); PPvoid_t p = JudyLIns(&JL, z, &je); CHECK(c, p && p != PPJERR, "inserting %#lx", z); }
  y = 0; q = Judy1First(J1, &y, &je); for (Word_t e : s) { CHECK(c, q == 1 && y == e, "key %#lx instead of %#lx after changes", y, e); q = Judy1Next(J1, &y, &je); } Judy1FreeArray(&J1, &je); JudyLFreeArray(&JL, &je);
}
PROPERTY(C31, strings, 40000, 1000000, 60, "at least ten strings present at some moment") {
  map<string, Word_t> m, h; Pvoid_t SL = nullptr, HS = nullptr; E je; int steps = c.range(5, 150), alpha = c.range(0, 3), grow = c.range(2, 9); size_t most = 0; Word_t serial = 1; vector<string> pool; size_t longest = 400;
  auto str = [&]() { string s; if (!pool.empty() && c.chance(1, 2)) { s = pool[c.below(pool.size())]; if (c.chance(1, 2)) s = s.substr(0, c.below(s.size() + 1)); } if (pool.empty() || c.chance(1, 2)) { int n = c.range(0, c.chance(1, 6) ? 70 : 10); for (int i = 0; i < n; i++) s += alpha == 0 ? (char)('a' + c.below(2)) : alpha == 1 ? (char)('a' + c.below(26)) : alpha == 2 ? (char)(1 + c.below(255)) : (char)(c.flag() ? 255 : 1); } if (s.size() > longest) s.resize(longest); pool.push_back(s); return s; };
  auto raw = [](const string &s) { return (const uint8_t *)s.c_str(); };
  for (int st = 0; st < steps; st++) { most = std::max(most, m.size()); switch (c.pick({8, 3, 3, 4, 2})) {
    case 0: case 1: { string s = str(); bool was = m.count(s);
      if ((int)c.below(10) < grow) { PPvoid_t p = JudySLIns(&SL, raw(s), &je); CHECK(c, p && p != PPJERR, "no slot for a string"); CHECK(c, *(Word_t *)p == (was ? m[s] : 0), "slot of '%s' holds %#lx, expected %#lx", s.c_str(), *(Word_t *)p, was ? m[s] : 0); *(Word_t *)p = serial; m[s] = serial++; }
      else { int r = JudySLDel(&SL, raw(s), &je); CHECK(c, r == was, "deleting '%s' returns %d, present: %d", s.c_str(), r, was); m.erase(s); } break; }
    case 2: { string s = str(); bool was = m.count(s); PPvoid_t p = JudySLGet(SL, raw(s), &je); CHECK(c, (p != nullptr) == was && (!was || *(Word_t *)p == m[s]), "looking up '%s': %s", s.c_str(), p ? "wrong value or found" : "not found"); break; }
    case 3: { string s = str(); int w = c.below(4); auto i = w == 0 ? m.lower_bound(s) : w == 1 ? m.upper_bound(s) : w == 2 ? m.upper_bound(s) : m.lower_bound(s); bool has; string e; Word_t val = 0; if (w < 2) { has = i != m.end(); } else { has = i != m.begin(); if (has) --i; } if (has) e = i->first, val = i->second;
      vector<uint8_t> b(longest + 64, 0); memcpy(b.data(), s.c_str(), s.size() + 1); PPvoid_t p = w == 0 ? JudySLFirst(SL, b.data(), &je) : w == 1 ? JudySLNext(SL, b.data(), &je) : w == 2 ? JudySLLast(SL, b.data(), &je) : JudySLPrev(SL, b.data(), &je);
      static const char *nm[] = {"first", "next", "last", "previous"}; CHECK(c, (p != nullptr) == has && (!has || (e == (char *)b.data() && *(Word_t *)p == val)), "%s string from '%s' among %zu: '%s', expected %s'%s'", nm[w], s.c_str(), m.size(), p ? (char *)b.data() : "none", has ? "" : "none ", e.c_str()); break; }
    case 4: { string s = str(); if (c.chance(1, 3)) s += string(1, '\0') + s; bool was = h.count(s); int w = c.below(10); if (w < grow) { PPvoid_t p = JudyHSIns(&HS, (void *)s.data(), s.size(), &je); CHECK(c, p && p != PPJERR, "no slot for %zu bytes", s.size()); CHECK(c, *(Word_t *)p == (was ? h[s] : 0), "slot of %zu bytes holds %#lx", s.size(), *(Word_t *)p); *(Word_t *)p = serial; h[s] = serial++; } else if (w < 9) { int r = JudyHSDel(&HS, (void *)s.data(), s.size(), &je); CHECK(c, r == was, "deleting %zu bytes returns %d, present: %d", s.size(), r, was); h.erase(s); } break; } }
    }
  most = std::max(most, m.size());
  c.nontrivial(most >= 10); c.labelf("strings%s", most < 10 ? "<10" : most < 40 ? "<40" : ">=40"); c.note("alphabet %d, %d steps, at most %zu strings", alpha, steps, most);
  vector<uint8_t> b(longest + 64, 0); PPvoid_t p = JudySLFirst(SL, b.data(), &je); for (auto &kv : m) { CHECK(c, p && kv.first == (char *)b.data() && *(Word_t *)p == kv.second, "string '%s' instead of '%s'", p ? (char *)b.data() : "none", kv.first.c_str()); p = JudySLNext(SL, b.data(), &je); } CHECK(c, !p, "more strings than inserted");
  for (auto &kv : h) { PPvoid_t q = JudyHSGet(HS, (void *)kv.first.data(), kv.first.size()); CHECK(c, q && *(Word_t *)q == kv.second, "byte string of length %zu is lost", kv.first.size()); }
  if (c.flag()) { for (auto &kv : m) CHECK(c, JudySLDel(&SL, raw(kv.first), &je) == 1, "cannot delete '%s'", kv.first.c_str()); CHECK(c, !SL, "not empty after deleting every string"); for (auto &kv : h) CHECK(c, JudyHSDel(&HS, (void *)kv.first.data(), kv.first.size(), &je) == 1, "cannot delete %zu bytes", kv.first.size()); CHECK(c, !HS, "not empty after deleting every byte string"); }
  JudySLFreeArray(&SL, &je); JudyHSFreeArray(&HS, &je); CHECK(c, !SL && !HS, "freed arrays are not empty");
}
namespace {
// Keys that share their upper digits down to some level and then differ: every size of packed leaf and every kind of branch at every level.
void grow(pbt::Case &c, set<Word_t> &s, Word_t prefix, int level, size_t cap) {   // level = number of lower bytes still free
  if (s.size() >= cap) return;
  if (level > 1 && c.chance(2, 5)) { int fan = c.pick({6, 5, 1, 1, 1}); fan = fan == 0 ? 1 : fan == 1 ? c.range(2, 5) : fan == 2 ? c.range(6, 9) : fan == 3 ? c.range(10, 60) : c.range(180, 256); bool dense = c.flag(); int d0 = (int)c.below(256);
    for (int i = 0; i < fan; i++) { int d = dense || fan > 100 ? (d0 + i) & 255 : (int)c.below(256); Word_t p = prefix | ((Word_t)d << (8 * (level - 1))); if (fan > 9) { Word_t m = ((Word_t)1 << (8 * (level - 1))) - 1; s.insert(p | (c.u64() & m)); if (c.chance(1, 4)) s.insert(p | (c.u64() & m)); } else grow(c, s, p, level - 1, cap); } return; }
  int n = c.pick({6, 3, 1}); n = n == 0 ? c.range(1, 18) : n == 1 ? c.range(15, 40) : c.range(40, 300); Word_t mask = level == 8 ? ~(Word_t)0 : ((Word_t)1 << (8 * level)) - 1; bool tight = c.flag(); Word_t a = c.u64(), st = tight ? 1 + c.below(3) : 0;
  for (int i = 0; i < n; i++) s.insert(prefix | ((tight ? a + st * i : c.u64()) & mask)); }
}
PROPERTY(C31, every_shape, 12000, 300000, 60, "at least ten keys that share some upper digits") {
  set<Word_t> s; int top = c.range(1, 4); for (int i = 0; i < top; i++) { int lv = c.range(1, 8); Word_t pre = lv == 8 ? 0 : c.u64() >> (8 * lv) << (8 * lv); grow(c, s, pre, lv, 1500); }
  vector<Word_t> x(s.begin(), s.end()); size_t N = x.size(); Pvoid_t J1 = nullptr, JL = nullptr; E je; map<Word_t, Word_t> v; bool bulk = c.flag(); c.nontrivial(N >= 10); c.labelf("keys%s", N < 10 ? "<10" : N < 100 ? "<100" : N < 1000 ? "<1000" : ">=1000"); c.note("%zu keys from %#lx to %#lx, %s", N, x[0], x[N - 1], bulk ? "loaded at once" : "one by one");
  vector<Word_t> val(N); for (size_t i = 0; i < N; i++) val[i] = x[i] * 0x9e3779b97f4a7c15ull + 1;
  if (bulk) { int r = Judy1SetArray(&J1, N, x.data(), &je); CHECK(c, r == 1, "loading %zu keys", N); r = JudyLInsArray(&JL, N, x.data(), val.data(), &je); CHECK(c, r == 1, "loading %zu entries", N); }
  else { vector<size_t> o(N); for (size_t i = 0; i < N; i++) o[i] = i; int how = (int)c.below(3); if (how == 1) std::reverse(o.begin(), o.end()); if (how == 2) for (size_t i = N; i > 1; i--) std::swap(o[i - 1], o[c.below(i)]); for (size_t i : o) { CHECK(c, Judy1Set(&J1, x[i], &je) == 1, "setting %#lx", x[i]); PPvoid_t p = JudyLIns(&JL, x[i], &je); CHECK(c, p && p != PPJERR && !*p, "inserting %#lx", x[i]); *(Word_t *)p = val[i]; } }
  auto sweep = [&](const char *when) {
    size_t n = x.size(); Word_t y; PPvoid_t p;
    CHECK(c, Judy1Count(J1, 0, ~(Word_t)0, &je) == n && JudyLCount(JL, 0, ~(Word_t)0, &je) == n, "%s: counts differ from %zu", when, n);
    for (size_t i = 0; i < n; i++) { Word_t k = x[i];
      CHECK(c, Judy1Test(J1, k, &je) == 1, "%s: %#lx is lost from the set of %zu", when, k, n); p = JudyLGet(JL, k, &je); CHECK(c, p && *(Word_t *)p == val[i], "%s: the value of %#lx is lost among %zu", when, k, n);
      y = 0; CHECK(c, Judy1ByCount(J1, i + 1, &y, &je) == 1 && y == k, "%s: key number %zu of %zu is %#lx, not %#lx", when, i + 1, n, y, k); y = 0; p = JudyLByCount(JL, i + 1, &y, &je); CHECK(c, p && y == k && *(Word_t *)p == val[i], "%s: entry number %zu of %zu is %#lx, not %#lx", when, i + 1, n, y, k);
      CHECK(c, Judy1Count(J1, 0, k, &je) == i + 1 && JudyLCount(JL, 0, k, &je) == i + 1, "%s: %zu keys up to %#lx counted as %lu and %lu", when, i + 1, k, Judy1Count(J1, 0, k, &je), JudyLCount(JL, 0, k, &je)); CHECK(c, Judy1Count(J1, k, ~(Word_t)0, &je) == n - i, "%s: %zu keys from %#lx on counted as %lu", when, n - i, k, Judy1Count(J1, k, ~(Word_t)0, &je));
      size_t j = c.below(n); Word_t a = std::min(k, x[j]), b = std::max(k, x[j]); size_t w = (j > i ? j - i : i - j) + 1; CHECK(c, Judy1Count(J1, a, b, &je) == w && JudyLCount(JL, a, b, &je) == w, "%s: %zu keys between %#lx and %#lx counted as %lu and %lu", when, w, a, b, Judy1Count(J1, a, b, &je), JudyLCount(JL, a, b, &je));
      y = k; int r = Judy1Next(J1, &y, &je); CHECK(c, r == (i + 1 < n) && (!r || y == x[i + 1]), "%s: the key after %#lx is %#lx", when, k, y); y = k; r = Judy1Prev(J1, &y, &je); CHECK(c, r == (i > 0) && (!r || y == x[i - 1]), "%s: the key before %#lx is %#lx", when, k, y);
      y = k; p = JudyLNext(JL, &y, &je); CHECK(c, (p != nullptr) == (i + 1 < n) && (!p || (y == x[i + 1] && *(Word_t *)p == val[i + 1])), "%s: the entry after %#lx is %#lx", when, k, y); y = k; p = JudyLPrev(JL, &y, &je); CHECK(c, (p != nullptr) == (i > 0) && (!p || (y == x[i - 1] && *(Word_t *)p == val[i - 1])), "%s: the entry before %#lx is %#lx", when, k, y);
      // absent neighbours
      static const int sh[] = {0, 0, 0, 8, 16, 24, 32, 40, 48, 56}; Word_t q = c.flag() ? k + ((Word_t)1 << sh[c.below(10)]) : k - ((Word_t)1 << sh[c.below(10)]); if (c.chance(1, 4)) q ^= c.below(256) << 8 * c.below(8); auto it = std::lower_bound(x.begin(), x.end(), q); bool in = it != x.end() && *it == q; size_t at = it - x.begin();
      CHECK(c, Judy1Test(J1, q, &je) == in && (JudyLGet(JL, q, &je) != nullptr) == in, "%s: %#lx %s among %zu", when, q, in ? "not found" : "found but absent", n);
      y = q; r = Judy1First(J1, &y, &je); CHECK(c, r == (at < n) && (!r || y == x[at]), "%s: the first key from %#lx is %#lx", when, q, y); y = q; p = JudyLFirst(JL, &y, &je); CHECK(c, (p != nullptr) == (at < n) && (!p || y == x[at]), "%s: the first entry from %#lx is %#lx", when, q, y);
      y = q; r = Judy1Last(J1, &y, &je); size_t le = at + in; CHECK(c, r == (le > 0) && (!r || y == x[le - 1]), "%s: the last key up to %#lx is %#lx", when, q, y); y = q; p = JudyLLast(JL, &y, &je); CHECK(c, (p != nullptr) == (le > 0) && (!p || y == x[le - 1]), "%s: the last entry up to %#lx is %#lx", when, q, y);
      CHECK(c, Judy1Count(J1, 0, q, &je) == le && JudyLCount(JL, 0, q, &je) == le, "%s: %zu keys up to %#lx counted as %lu and %lu", when, le, q, Judy1Count(J1, 0, q, &je), JudyLCount(JL, 0, q, &je));
      for (int d = 0; d < 4; d++) { int dir = d < 2 ? 1 : -1; bool strict = d & 1; Word_t e = c.flag() ? k : q, z = e, z2 = e, e0 = e; size_t at2 = std::lower_bound(x.begin(), x.end(), e) - x.begin(); bool has = true; (void)at2; Word_t end = dir > 0 ? ~(Word_t)0 : 0; if (strict) { if (e == end) has = false; else e += dir; } while (has && std::binary_search(x.begin(), x.end(), e)) { if (e == end) has = false; else e += dir; }
        r = d == 0 ? Judy1FirstEmpty(J1, &z, &je) : d == 1 ? Judy1NextEmpty(J1, &z, &je) : d == 2 ? Judy1LastEmpty(J1, &z, &je) : Judy1PrevEmpty(J1, &z, &je); int r2 = d == 0 ? JudyLFirstEmpty(JL, &z2, &je) : d == 1 ? JudyLNextEmpty(JL, &z2, &je) : d == 2 ? JudyLLastEmpty(JL, &z2, &je) : JudyLPrevEmpty(JL, &z2, &je);
        CHECK(c, r == has && r2 == has && (!has || (z == e && z2 == e)), "%s: absent key (kind %d) from %#lx is %#lx and %#lx, expected %#lx", when, d, e0, z, z2, e); } } };
  sweep("built");
  // thin out, then look again
  size_t left = c.below(N + 1); if (c.chance(1, 3)) left = std::min<size_t>(left, 20); bool blk = c.flag(); vector<size_t> o(N); for (size_t i = 0; i < N; i++) o[i] = i; if (!blk) for (size_t i = N; i > 1; i--) std::swap(o[i - 1], o[c.below(i)]); else { size_t r = c.below(N); std::rotate(o.begin(), o.begin() + r, o.end()); }
  for (size_t i = left; i < N; i++) { Word_t k = x[o[i]]; CHECK(c, Judy1Unset(&J1, k, &je) == 1 && JudyLDel(&JL, k, &je) == 1, "cannot delete %#lx with %zu keys left", k, N - (i - left)); CHECK(c, Judy1Test(J1, k, &je) == 0 && !JudyLGet(JL, k, &je), "%#lx is still there", k); }
  vector<size_t> keep(o.begin(), o.begin() + left); std::sort(keep.begin(), keep.end()); vector<Word_t> nx, nv; for (size_t i : keep) { nx.push_back(x[i]); nv.push_back(val[i]); } x = nx; val = nv; sweep("thinned");
  Word_t u1 = Judy1MemUsed(J1), u2 = JudyLMemUsed(JL), f1 = Judy1FreeArray(&J1, &je), f2 = JudyLFreeArray(&JL, &je); CHECK(c, f1 == u1 && f2 == u2 && !J1 && !JL, "freed %lu and %lu bytes of %lu and %lu", f1, f2, u1, u2);
}
