// C13 reading planar diagram codes, KnotTheory text and stores: arbitrary bytes never crash, accepted codes are valid.
#include "diag.hpp"
extern "C" {
#define new new_
#include "pd_multidx.h"
#include "pd_dihedral.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
#undef new
}
using namespace dg;
static const Deco FULL{true, true, false};
static FILE *mem(const string &s) { FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
static vector<pair<size_t, size_t>> numbers(const string &s) { vector<pair<size_t, size_t>> w; for (size_t p = 0; p < s.size();) { if (isdigit((unsigned char)s[p])) { size_t q = p; while (q < s.size() && isdigit((unsigned char)s[q])) q++; w.push_back({p, q - p}); p = q; } else p++; } return w; }
// moderate declared sizes: the number of crossings has at most 4 digits
static void moderate(string &s) {
  for (size_t p = 0; (p = s.find("nv", p)) != string::npos; p++) { size_t q = p + 2; while (q < s.size() && (isspace((unsigned char)s[q]) || s[q] == '-' || s[q] == '+')) { if (isspace((unsigned char)s[q])) q++; else s.erase(q, 1); } size_t r = q; while (r < s.size() && isdigit((unsigned char)s[r])) r++; if (r > q + 4) s.erase(q + 4, r - q - 4); } }
static string mutate(pbt::Case &c, string s, bool *any = nullptr) {
  static const char *tok[] = {"0", "-1", "1", "2", "3", "5", "+", "-", "->", ":", "pd", "nv", "ne", "nc", "nf", "tag", "tag B", ",", "99999", "4294967295", "18446744073709551615", "4294967296", "x", "", "PD[", "X[", "]", "pdstor", "nelts", "?", "\n\n", "abc+/ 7"};
  string o = s; int k = c.range(1, 3);
  for (int i = 0; i < k && !s.empty(); i++) switch (c.pick({12, 6, 4, 4, 2, 4, 4, 1})) {
    case 0: { auto w = numbers(s); if (w.empty()) break; size_t lim = c.flag() ? std::min<size_t>(w.size(), 6) : w.size(); auto x = w[c.below(lim)]; unsigned long v = strtoul(s.c_str() + x.first, nullptr, 10); char b[32]; switch (c.range(0, 5)) { case 0: v++; break; case 1: v = v ? v - 1 : 1; break; case 2: { auto y = w[c.below(w.size())]; v = strtoul(s.c_str() + y.first, nullptr, 10); break; } case 3: v = c.below(12); break; case 4: v = 4294967295ul; break; case 5: v = 2 * v + 1; break; } snprintf(b, 32, "%lu", v); s.replace(x.first, x.second, b); break; }
    case 1: { vector<pair<size_t, size_t>> w; size_t p = 0; while (p < s.size()) { while (p < s.size() && isspace((unsigned char)s[p])) p++; size_t q = p; while (q < s.size() && !isspace((unsigned char)s[q])) q++; if (q > p) w.push_back({p, q - p}); p = q; } if (w.empty()) break; auto x = w[c.below(w.size())]; s.replace(x.first, x.second, tok[c.below(sizeof tok / sizeof *tok)]); break; }
    case 2: { size_t a = c.below(s.size()); s.erase(a, 1 + c.below(12)); break; }
    case 3: { size_t a = s.find('\n', c.below(s.size())); if (a == string::npos) break; size_t b = s.find('\n', a + 1); if (b == string::npos) break; string l = s.substr(a, b - a); if (c.flag()) s.insert(b, l); else s.erase(a, b - a); break; }
    case 4: s[c.below(s.size())] = (char)c.below(256); break;
    case 5: { auto w = numbers(s); if (w.size() < 2) break; auto x = w[c.below(w.size())], y = w[c.below(w.size())]; if (x.first > y.first) std::swap(x, y); if (x.first == y.first) break; string a = s.substr(x.first, x.second), b = s.substr(y.first, y.second); s.replace(y.first, y.second, a); s.replace(x.first, x.second, b); break; }
    case 7: { int m = c.flag() ? c.range(1, 100) : c.range(1, 9000); string r(m, "a Z0+\t"[c.below(6)]); size_t a = c.flag() ? std::min<size_t>(3, s.size()) : c.below(s.size()); s.insert(a, r); break; } // long words and lines
    case 6: { for (auto &ch : s) if ((ch == '+' || ch == '-') && c.chance(1, 12)) ch = ch == '+' ? '-' : '+'; break; } }
  moderate(s);
  if (any) *any = s != o; return s; }
static string diag_text(pbt::Case &c, int nmin, int nmax) { if (c.chance(1, 15)) { pd_code_t *p = pd_build_unknot(0); string s = pd_text(p); pd_code_free(&p); return s; } Diag D = random_diagram(c, nmin, nmax); if (c.chance(1, 4)) for (auto &s : D.sign) if (c.flag()) s = 2; pd_code_t *pd = make_pd(c, D); if (c.flag()) snprintf(pd->hash, PD_HASHSIZE, "unset"); string s = pd_text(pd); pd_code_free(&pd); return s; }
static void accepted(pbt::Case &c, pd_code_t *pd) { check_valid(c, pd, "accepted code", false); CHECK(c, pd_ok(pd), "an accepted code is not ok"); string t = pd_dump(pd); { pd_code_t *q = pd_copy(pd); CHECK(c, q && pd_dump(q) == t, "copy of an accepted code differs"); pd_regenerate(q); check_valid(c, q, "accepted, regenerated", false); pd_code_free(&q); } }
PROPERTY(C13, native, 120000, 900000, 60, "the text differs from the written one") {
  int k = c.range(1, 2); string s; for (int i = 0; i < k; i++) s += diag_text(c, 1, 6); bool any; string m = mutate(c, s, &any); c.nontrivial(any); c.note("%s", m.substr(0, 400).c_str());
  FILE *f = mem(m); for (int i = 0; i < 4; i++) { int err = PD_NO_ERROR; bool plain = c.flag(); pd_code_t *pd = plain ? pd_read(f) : pd_read_err(f, &err);
    if (pd && err == PD_NO_ERROR) { c.label("accepted"); accepted(c, pd); } else { c.label("rejected"); CHECK(c, !pd || err == PD_NOT_OK, "an unreadable code is returned"); if (!pd && !plain) CHECK(c, err != PD_NO_ERROR, "no code and no error"); } if (pd) pd_code_free(&pd); } fclose(f);
}
// a code cut anywhere before its last number is not accepted; the error is reported
PROPERTY(C13, truncated, 60000, 400000, 60, "cut strictly inside the code") {
  bool none = c.chance(1, 15); pd_code_t *pd; if (none) { pd = pd_build_unknot(0); if (c.flag()) pd->comp[0].tag = 'A' + c.below(26); c.label("crossingless, cut before the tag"); } else { Diag D = random_diagram(c, 1, 8); pd = make_pd(c, D); } string s = pd_text(pd); pd_code_free(&pd); auto w = numbers(s); size_t cut = c.below(none ? s.find("tag") + 3 : w.back().first + 1); c.nontrivial(cut > 3); c.note("%zu of %zu bytes", cut, s.size());
  FILE *f = mem(s.substr(0, cut)); int err = PD_NO_ERROR; pd_code_t *q = pd_read_err(f, &err); CHECK(c, err != PD_NO_ERROR, "a code cut after %zu of %zu bytes is accepted", cut, s.size()); CHECK(c, !q, "a truncated code is returned together with an error"); if (q) pd_code_free(&q); rewind(f); q = pd_read(f); CHECK(c, !q, "a truncated code is returned"); fclose(f);
}
// an inconsistent record is refused: one number of an otherwise well-formed code is changed to another legal value
PROPERTY(C13, inconsistent, 80000, 600000, 60, "the changed number lies in the edge, component or face records") {
  Diag D = random_diagram(c, 2, 8); pd_code_t *pd = make_pd(c, D); string s = pd_text(pd); pd_code_free(&pd); size_t body = s.find("nv"); auto w = numbers(s); vector<pair<size_t, size_t>> in; for (auto &x : w) if (x.first > body + 5) in.push_back(x); auto x = c.of(in); unsigned long v = strtoul(s.c_str() + x.first, nullptr, 10), u = c.below(2 * D.n + 3); if (u == v) c.discard("no change"); string m = s; m.replace(x.first, x.second, std::to_string(u)); c.nontrivial(x.first > s.find("ne ")); c.note("%lu -> %lu at %zu in %s", v, u, x.first, s.c_str());
  FILE *f = mem(m); int err = PD_NO_ERROR; pd_code_t *q = pd_read_err(f, &err); fclose(f); if (q && err == PD_NO_ERROR) { check_valid(c, q, "accepted code", false); accepted(c, q); c.label("still valid"); } else c.label("refused"); if (q) pd_code_free(&q);
}
// layout does not matter: any white space between tokens, tags left out
PROPERTY(C13, layout, 40000, 300000, 60, "at least 3 crossings") {
  Diag D = random_diagram(c, 1, 8); pd_code_t *pd = make_pd(c, D); string s = pd_text(pd), o; c.nontrivial(D.n >= 3); if (c.flag()) for (size_t p; (p = s.find("tag ")) != string::npos;) s.erase(p, 5); bool first = true; for (size_t i = 0; i < s.size(); i++) { char ch = s[i]; if (first && ch == '\n') { first = false; o += ch; if (c.chance(1, 4)) o += "\n "; continue; } if (!first && (ch == ' ' || ch == '\n') && c.chance(1, 6)) { o += ch == '\n' && s.compare(i + 1, 1, "+") && s.compare(i + 1, 1, "-") ? "\n" : " "; int k = c.range(0, 2); bool atsign = i + 1 < s.size() && (s[i + 1] == '+' || s[i + 1] == '-'); if (!atsign) while (k--) o += c.flag() ? "\n" : "\t"; continue; } o += ch; }
  c.note("%s", o.substr(0, 500).c_str()); if (c.flag()) o = "\n \t" + o; FILE *f = mem(o); pd_code_t *q = pd_read(f); fclose(f); CHECK(c, q, "a code with different white space is refused"); CHECK(c, pd_dump(q) == pd_dump(pd), "white space changes what is read:\n%s\n%s", s.c_str(), pd_dump(q).c_str()); pd_code_free(&pd); pd_code_free(&q);
}
// the header alone: hash and uid may be absent
PROPERTY(C13, knottheory, 120000, 900000, 60, "the text differs from the written one") {
  Diag D = random_diagram(c, 1, 6); pd_code_t *pd = make_pd(c, D); char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_write_KnotTheory(f, pd); fclose(f); string s = b; free(b); pd_code_free(&pd); bool any = false; string m;
  if (c.flag()) m = mutate(c, s, &any); else { // random crossings with every edge number twice: usually not planar or not oriented
    int n = c.range(1, 6); vector<int> e; for (int i = 1; i <= 2 * n; i++) { e.push_back(i); e.push_back(i); } if (c.flag()) { // disturb the valid code instead
      auto w = numbers(s); e.clear(); n = D.n; for (auto &x : w) e.push_back(atoi(s.c_str() + x.first)); int k = c.range(1, 2); while (k--) std::swap(e[c.below(e.size())], e[c.below(e.size())]); } else for (int i = 4 * n - 1; i > 0; i--) std::swap(e[i], e[c.below(i + 1)]);
    m = "PD["; for (int i = 0; i < n; i++) { char t[100]; snprintf(t, 100, "%sX[%d,%d,%d,%d]", i ? "," : "", e[4 * i], e[4 * i + 1], e[4 * i + 2], e[4 * i + 3]); m += t; } m += "]\n"; any = true; }
  c.nontrivial(any); c.note("%s", m.substr(0, 400).c_str()); f = mem(m); pd_code_t *q = pd_read_KnotTheory(f); fclose(f); if (q) { c.label("accepted"); accepted(c, q); for (unsigned i = 0; i < q->ncross; i++) CHECK(c, q->cross[i].sign != PD_UNSET_ORIENTATION, "a crossing without sign");
    // and it is the diagram the text says: crossings as listed, first entry the incoming lower edge
    vector<array<int, 4>> X; vector<int> all; { auto w = numbers(m); for (auto &x : w) all.push_back(atoi(m.c_str() + x.first)); } for (size_t i = 0; i + 3 < all.size() && X.size() < q->ncross; i += 4) X.push_back({all[i], all[i + 1], all[i + 2], all[i + 3]}); if (X.size() == q->ncross && m.find('-') == string::npos && m.find('.') == string::npos) { Diag P = from_pd(c, q, "accepted"); Diag E; E.n = P.n; E.mate.assign(4 * E.n, -1); map<int, int> at; bool ok = true; for (int i = 0; i < E.n && ok; i++) for (int p = 0; p < 4; p++) { int v = X[i][p]; if (!at.count(v)) at[v] = 4 * i + p; else { int o = at[v]; if (E.mate[o] >= 0) { ok = false; break; } E.mate[o] = 4 * i + p; E.mate[4 * i + p] = o; } } for (int x : E.mate) ok &= x >= 0;
      if (ok) { // choose orientations consistent with the lower strands; upper-only components stay free, so compare through levels
        E.sign.assign(E.n, 2); E.out.assign(4 * E.n, 0); auto lev = [](const Diag &D, const std::function<int(int)> &under_in, bool) { (void)D; (void)under_in; return 0; }; (void)lev;
        // canonical code with, at each crossing, the position of the incoming lower dart
        auto code = [](const Diag &D, const vector<int> &ui) { vector<int> best; for (int s = 0; s < 4 * D.n; s++) { vector<int> num(D.n, -1), base(D.n, -1), order, cd; num[s / 4] = 0; base[s / 4] = s; order.push_back(s / 4); for (size_t i = 0; i < order.size(); i++) { int x = order[i], b0 = base[x]; cd.push_back((ui[x] - b0) & 3); for (int p = 0; p < 4; p++) { int d = 4 * x + ((b0 + p) & 3), mm = D.mate[d]; if (num[mm / 4] < 0) { num[mm / 4] = (int)order.size(); base[mm / 4] = mm; order.push_back(mm / 4); } cd.push_back(num[mm / 4] * 4 + ((mm - base[mm / 4]) & 3)); } } if (best.empty() || cd < best) best = cd; } return best; };
        vector<int> u1(E.n), u2(E.n); for (int i = 0; i < E.n; i++) { u1[i] = 4 * i; int oi, oo, ui, uo; P.strands(i, oi, oo, ui, uo); u2[i] = ui; } CHECK(c, code(E, u1) == code(P, u2), "the code read is not the one in the text"); c.label("compared"); } }
    pd_code_free(&q); } else c.label("rejected");
}
PROPERTY(C13, store, 40000, 300000, 60, "the text differs from the written one") {
  pd_stor_t *S = pd_new_pdstor(); int k = c.range(1, 3); for (int i = 0; i < k; i++) { Diag D = random_diagram(c, 1, c.chance(1, 8) ? 16 : 4); pd_code_t *pd = make_pd(c, D); pd_addto_pdstor(S, pd, NONE); pd_code_free(&pd); } char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_write_pdstor(f, S); fclose(f); string s(b, z); free(b); pd_free_pdstor(&S); bool any; string m = mutate(c, s, &any); c.nontrivial(any); c.note("%s", m.substr(0, 300).c_str());
  f = mem(m); pd_stor_t *T = pd_read_pdstor(f, NONE); fclose(f); if (T) { c.label("accepted"); unsigned n = 0; for (pd_code_t *p = pd_stor_nelts(T) ? pd_stor_firstelt(T) : nullptr; p; p = pd_stor_nextelt(T)) { n++; check_valid(c, p, "stored code", false); pd_code_free(&p); } CHECK(c, n == pd_stor_nelts(T), "%u elements found, %u counted", n, pd_stor_nelts(T)); unsigned cl, ac; if (sscanf(m.c_str(), "pdstor nelts %u/%u", &cl, &ac) == 2 && cl != 4294967295u) CHECK(c, cl == ac && n == cl, "a store which claims %u/%u elements has %u", cl, ac, n); pd_free_pdstor(&T); } else c.label("rejected");
}
PROPERTY(C13, noise, 80000, 600000, 60, "at least 8 bytes") {
  static const char *w[] = {"pd", "nv", "ne", "nc", "nf", "tag A", "0", "1", "2", "3", "4", "\n", " ", ":", "->", ",", "+", "-", "pdstor", "nelts", "2/2", "(claimed/actual)", "nhashes", "?/?", "PD[", "X[1,2,2,1]", "]", "X[", "abc", "1 : 0 tag A"};
  string s = c.flag() ? "pd\nnv " : ""; int n = c.range(0, 60); for (int i = 0; i < n; i++) { if (c.chance(1, 20)) s += (char)c.below(256); else { s += w[c.below(sizeof w / sizeof *w)]; if (c.chance(2, 3)) s += ' '; } }
  string o; int run = 0; for (char ch : s) { if (isdigit((unsigned char)ch)) { if (++run > 3) continue; } else run = 0; o += ch; } s = o; moderate(s); c.nontrivial(s.size() >= 8); c.note("%s", s.substr(0, 300).c_str());
  FILE *f = mem(s); int err = 0; pd_code_t *p = pd_read_err(f, &err); if (p && !err) accepted(c, p); if (p) pd_code_free(&p); rewind(f); p = pd_read_KnotTheory(f); if (p) { accepted(c, p); pd_code_free(&p); } rewind(f); pd_stor_t *T = pd_read_pdstor(f, ISOMORPHISM); if (T) pd_free_pdstor(&T); fclose(f);
}
// a store keeps all the signs of a code or none of them: a file with a code whose signs are half known is refused, every other one is read back
PROPERTY(C13, store_signs, 8000, 60000, 60, "a code with some but not all of its signs known") {
  int k = c.range(1, 4); string s; bool mixed = false; std::multiset<vector<int>> want, got; const Deco FULL{true, true, false}; char h[100]; for (int i = 0; i < k; i++) { Diag D = random_diagram(c, 1, c.chance(1, 4) ? 40 : 6); int how = c.pick({3, 2, 2}); size_t u = 0; if (how == 1) D.sign.assign(D.n, 2); if (how == 2) { int m = c.range(1, D.n); while (m--) D.sign[c.below(D.n)] = 2; } for (int x : D.sign) u += x == 2; mixed |= u && u != D.sign.size(); pd_code_t *pd = make_pd(c, D); s += pd_text(pd) + "\n"; want.insert(canon(from_pd(c, pd, "given"), FULL)); pd_code_free(&pd); }
  c.nontrivial(mixed); c.note("%s", s.substr(0, 400).c_str()); snprintf(h, 100, c.flag() ? "pdstor \nnelts ?/? (claimed/actual) nhashes ?\n\n" : "pdstor \nnelts %d/%d (claimed/actual) nhashes %d\n\n", k, k, k); FILE *f = mem(h + s); pd_stor_t *T = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, (T != nullptr) == !mixed, "a store file with %s is %s", mixed ? "half-signed codes" : "complete codes", T ? "read" : "refused");
  if (T) { for (pd_code_t *p = pd_stor_firstelt(T); p; p = pd_stor_nextelt(T)) { check_valid(c, p, "stored code", false); got.insert(canon(from_pd(c, p, "stored"), FULL)); pd_code_free(&p); } CHECK(c, got == want, "the store holds other codes than the file"); pd_free_pdstor(&T); }
}
