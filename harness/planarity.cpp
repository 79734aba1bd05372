// C32: planarity, outerplanarity and homeomorphic-subgraph searches give certified answers.
#include "pbt.hpp"
#include <set>
#include <map>
#include <array>
#include <functional>
extern "C" {
#include "graphFunctionTable.h"
#define GRAPH_EXTENSIONS_PRIVATE_H   // not valid C++: an anonymous struct that points to itself by its typedef name
typedef struct graphExtension graphExtension; typedef graphExtension *graphExtensionP;
#include "graph.h"
#include "graphDrawPlanar.h"
#include "graphK23Search.h"
#include "graphK33Search.h"
#include "graphK4Search.h"
}
#undef MIN
#undef MAX
using std::vector; using std::string; using std::set; using std::map; using std::pair;
namespace {
typedef pair<int, int> Ed;
struct G { int n = 0; set<Ed> e; bool add(int u, int v) { if (u == v) return false; if (u > v) std::swap(u, v); return e.insert({u, v}).second; } vector<vector<int>> adj() const { vector<vector<int>> a(n + 1); for (auto &x : e) { a[x.first].push_back(x.second); a[x.second].push_back(x.first); } return a; } };
string show(const G &g) { string s = "n=" + std::to_string(g.n) + " edges"; int k = 0; for (auto &x : g.e) { if (++k > 60) { s += " ..."; break; } s += " " + std::to_string(x.first) + "-" + std::to_string(x.second); } return s; }
// ---- generators
void planar_part(pbt::Case &c, G &g, int lo, int hi, int keep) {   // random triangulation of vertices lo..hi by insertion in faces, then thinned
  int n = hi - lo + 1; if (n < 3) { for (int i = lo; i < hi; i++) g.add(i, i + 1); return; } vector<std::array<int, 3>> f; vector<Ed> es = {{lo, lo + 1}, {lo + 1, lo + 2}, {lo, lo + 2}}; f.push_back({lo, lo + 1, lo + 2}); f.push_back({lo, lo + 1, lo + 2});
  for (int v = lo + 3; v <= hi; v++) { size_t i = c.below(f.size()); auto t = f[i]; f[i] = {t[0], t[1], v}; f.push_back({t[1], t[2], v}); f.push_back({t[0], t[2], v}); for (int x : t) es.push_back({x, v}); }
  for (auto &x : es) if ((int)c.below(10) < keep) g.add(x.first, x.second); }
void outer_part(pbt::Case &c, G &g, int lo, int hi, int keep) { for (int i = lo; i < hi; i++) g.add(i, i + 1); if (hi - lo >= 2 && c.flag()) g.add(lo, hi); vector<Ed> st = {{lo, hi}}; while (!st.empty()) { auto x = st.back(); st.pop_back(); if (x.second - x.first < 2) continue; int m = x.first + 1 + (int)c.below(x.second - x.first - 1); if ((int)c.below(10) < keep) { if (m - x.first > 1) g.add(x.first, m); if (x.second - m > 1) g.add(m, x.second); } st.push_back({x.first, m}); st.push_back({m, x.second}); } }
void sub_edge(pbt::Case &c, G &g, int u, int v, int most) { int k = (int)c.below(most + 1), p = u; while (k-- > 0) { int w = ++g.n; g.add(p, w); p = w; } g.add(p, v); }
void obstruction(pbt::Case &c, G &g, int kind, int most) { int b = g.n; auto K = [&](int k) { g.n += k; for (int i = 1; i <= k; i++) for (int j = i + 1; j <= k; j++) sub_edge(c, g, b + i, b + j, most); }; auto KK = [&](int a, int d) { g.n += a + d; for (int i = 1; i <= a; i++) for (int j = 1; j <= d; j++) sub_edge(c, g, b + i, b + a + j, most); }; switch (kind) { case 0: K(5); break; case 1: KK(3, 3); break; case 2: K(4); break; default: KK(2, 3); } }
G rgraph(pbt::Case &c) {
  G g; int most = c.chance(1, 30) ? 200 : c.chance(1, 4) ? 30 : 10; int parts = c.pick({5, 2, 1}) + 1;
  for (int p = 0; p < parts; p++) { int b = g.n; switch (c.pick({3, 2, 2, 3, 1})) {
      case 0: g.n += c.range(1, most); planar_part(c, g, b + 1, g.n, c.range(4, 10)); break;
      case 1: g.n += c.range(1, most); outer_part(c, g, b + 1, g.n, c.range(3, 10)); break;
      case 2: { int n = c.range(1, std::min(most, 40)); g.n += n; int m = (int)c.below(2 * n + 1); for (int i = 0; i < m; i++) g.add(b + 1 + (int)c.below(n), b + 1 + (int)c.below(n)); break; }
      case 3: obstruction(c, g, (int)c.below(4), c.range(0, most > 10 ? 6 : 2)); break;
      case 4: { int n = c.range(3, 7); g.n += n; for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) if (!c.chance(1, 5)) g.add(b + i, b + j); break; } }
    if (b && !c.chance(1, 4)) { int k = c.range(1, 3); for (int i = 0; i < k; i++) g.add(1 + (int)c.below(b), b + 1 + (int)c.below(g.n - b)); } }
  int extra = c.pick({3, 2, 1}) == 0 ? 0 : c.range(1, 3); for (int i = 0; i < extra; i++) g.add(1 + (int)c.below(g.n), 1 + (int)c.below(g.n));
  int twoc = c.chance(1, 5) ? c.range(1, 4) : 0; for (int i = 0; i < twoc && g.n >= 2; i++) { int u = 1 + (int)c.below(g.n), v = 1 + (int)c.below(g.n), w = ++g.n; g.add(u, w); g.add(w, v); }   // paths over 2-cuts
  while ((int)g.e.size() > 3 * g.n) g.e.erase(std::next(g.e.begin(), c.below(g.e.size())));
  if (c.chance(3, 4)) { vector<int> p; for (int i = 0; i <= g.n; i++) p.push_back(i); for (int i = g.n; i > 1; i--) std::swap(p[i], p[1 + c.below(i)]); G h; h.n = g.n; for (auto &x : g.e) h.add(p[x.first], p[x.second]); g = h; }
  return g; }
// ---- library graphs
graphP build(pbt::Case &c, const G &g, graphP L = nullptr) { if (!L) L = gp_New(); CHECK(c, L, "no graph"); CHECK(c, gp_InitGraph(L, g.n) == OK, "cannot initialize a graph of %d vertices", g.n); vector<Ed> es(g.e.begin(), g.e.end()); if (c.flag()) for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[c.below(i)]); for (auto &x : es) { bool s = c.flag(); int u = s ? x.second : x.first, v = s ? x.first : x.second; CHECK(c, gp_AddEdge(L, u, (int)c.below(2), v, (int)c.below(2)) == OK, "cannot add edge %d-%d", u, v); } return L; }
vector<vector<int>> rotation(pbt::Case &c, graphP L, const char *what) { vector<vector<int>> r(L->N + 1); for (int v = 1; v <= L->N; v++) { int e = gp_GetFirstArc(L, v), guard = 0, last = NIL; while (gp_IsArc(e)) { CHECK(c, ++guard <= 4 * L->N + 20, "%s: adjacency list of %d does not end", what, v); CHECK(c, gp_GetPrevArc(L, e) == last, "%s: adjacency list of %d is inconsistent", what, v); CHECK(c, gp_GetNeighbor(L, gp_GetTwinArc(L, e)) == v, "%s: an arc in the list of %d does not start there", what, v); r[v].push_back(gp_GetNeighbor(L, e)); last = e; e = gp_GetNextArc(L, e); } CHECK(c, gp_GetLastArc(L, v) == last, "%s: last arc of %d is wrong", what, v); } return r; }
G collect(pbt::Case &c, graphP L, const char *what) { auto r = rotation(c, L, what); G g; g.n = L->N; map<Ed, int> cnt; for (int v = 1; v <= L->N; v++) for (int w : r[v]) { CHECK(c, w >= 1 && w <= L->N && w != v, "%s: %d adjacent to %d", what, v, w); cnt[{v, w}]++; } for (auto &x : cnt) { CHECK(c, x.second == 1 && cnt.count({x.first.second, x.first.first}), "%s: edge %d-%d occurs %d times or one way only", what, x.first.first, x.first.second, x.second); g.add(x.first.first, x.first.second); } CHECK(c, (int)g.e.size() == L->M, "%s: edge count %d, but %zu edges", what, L->M, g.e.size()); return g; }
int components(const G &g, vector<int> *id = nullptr) { auto a = g.adj(); vector<int> m(g.n + 1, -1); int k = 0; for (int s = 1; s <= g.n; s++) if (m[s] < 0) { vector<int> st = {s}; m[s] = k; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : a[v]) if (m[w] < 0) { m[w] = k; st.push_back(w); } } k++; } if (id) *id = m; return k; }
vector<vector<int>> faces(const vector<vector<int>> &r) { map<Ed, int> pos; for (size_t v = 1; v < r.size(); v++) for (size_t i = 0; i < r[v].size(); i++) pos[{(int)v, r[v][i]}] = (int)i; set<Ed> done; vector<vector<int>> f; for (auto &x : pos) { Ed d = x.first; if (done.count(d)) continue; vector<int> t; while (done.insert(d).second) { t.push_back(d.first); int w = d.second, i = pos[{w, d.first}]; int nx = r[w][(i + 1) % r[w].size()]; d = {w, nx}; } f.push_back(t); } return f; }
void plane(pbt::Case &c, const G &g, const vector<vector<int>> &r, bool outer, const char *what) { auto f = faces(r); vector<int> id; int k = components(g, &id), iso = 0; for (int v = 1; v <= g.n; v++) iso += r[v].empty(); long chi = (long)g.n - (long)g.e.size() + (long)f.size() + iso; CHECK(c, chi == 2 * k, "%s: the rotation system has Euler characteristic %ld on %d components, so it is not a plane embedding; %s", what, chi, k, show(g).c_str());
  if (outer) { vector<set<int>> need(k); for (int v = 1; v <= g.n; v++) need[id[v]].insert(v); vector<bool> ok(k, false); for (auto &t : f) { set<int> s(t.begin(), t.end()); if (s.size() == need[id[t[0]]].size()) ok[id[t[0]]] = true; } for (int i = 0; i < k; i++) CHECK(c, ok[i] || need[i].size() == 1, "%s: no face contains all vertices of a component; %s", what, show(g).c_str()); } }
bool homeomorph(const G &g, string &kind) {   // of K5, K3,3, K4, K2,3
  auto a = g.adj(); map<int, int> deg; vector<int> hub; for (int v = 1; v <= g.n; v++) { int d = (int)a[v].size(); if (d == 0) continue; if (d == 1) return false; deg[d]++; if (d > 2) hub.push_back(v); }
  set<Ed> m; size_t used = 0; for (int h : hub) for (int w : a[h]) { int p = h, q = w; size_t len = 1; while (a[q].size() == 2) { int nx = a[q][0] == p ? a[q][1] : a[q][0]; p = q; q = nx; if (++len > g.e.size()) return false; } if (q == h) return false; if (q > h) { if (!m.insert({h, q}).second && !(deg[3] == 2 && hub.size() == 2)) return false; used += len; } }
  if (used != g.e.size()) return false; size_t H = hub.size();
  if (deg[3] == 2 && H == 2) { kind = "K2,3"; auto x = a[hub[0]]; for (int w : x) if (w == hub[1]) return false; return true; }
  if (H == 5 && deg[4] == 5 && m.size() == 10) { kind = "K5"; return true; } if (H == 4 && deg[3] == 4 && m.size() == 6) { kind = "K4"; return true; }
  if (H == 6 && deg[3] == 6 && m.size() == 9) { map<int, set<int>> nb; for (auto &x : m) { nb[x.first].insert(x.second); nb[x.second].insert(x.first); } set<set<int>> cls; for (auto &x : nb) cls.insert(x.second); if (cls.size() == 2) { kind = "K3,3"; return true; } } return false; }
bool subgraph(const G &h, const G &g) { for (auto &x : h.e) if (!g.e.count(x)) return false; return true; }
// certified planarity of a small graph
bool planar(pbt::Case &c, const G &g) { graphP L = gp_New(); gp_InitGraph(L, g.n); gp_EnsureArcCapacity(L, 2 * (int)g.e.size() + 2); for (auto &x : g.e) gp_AddEdge(L, x.first, 0, x.second, 0); int r = gp_Embed(L, EMBEDFLAGS_PLANAR); gp_SortVertices(L); if (r == OK) plane(c, g, rotation(c, L, "embedding"), false, "embedding"); else { G h = collect(c, L, "obstruction"); string k; CHECK(c, homeomorph(h, k) && subgraph(h, g) && (k == "K5" || k == "K3,3"), "the obstruction to planarity is %s", show(h).c_str()); } gp_Free(&L); return r == OK; }
// ---- oracles for the searches
bool has_k4(const G &g) { vector<set<int>> a(g.n + 1); for (auto &x : g.e) { a[x.first].insert(x.second); a[x.second].insert(x.first); } bool ch = true; vector<bool> gone(g.n + 1); while (ch) { ch = false; for (int v = 1; v <= g.n; v++) if (!gone[v] && a[v].size() <= 2) { vector<int> nb(a[v].begin(), a[v].end()); for (int w : nb) a[w].erase(v); if (nb.size() == 2) { a[nb[0]].insert(nb[1]); a[nb[1]].insert(nb[0]); } a[v].clear(); gone[v] = true; ch = true; } } for (int v = 1; v <= g.n; v++) if (!gone[v]) return true; return false; }
int disjoint_paths(const G &g, int s, int t, int want) {   // internally disjoint, the edge s-t not used
  int N = 2 * g.n + 2; vector<vector<std::array<int, 3>>> a(N); auto arc = [&](int u, int v) { a[u].push_back({v, 1, (int)a[v].size()}); a[v].push_back({u, 0, (int)a[u].size() - 1}); }; for (int v = 1; v <= g.n; v++) if (v != s && v != t) arc(2 * v, 2 * v + 1); for (auto &x : g.e) { if ((x.first == s && x.second == t) || (x.first == t && x.second == s)) continue; for (int d = 0; d < 2; d++) { int u = d ? x.second : x.first, v = d ? x.first : x.second; if (v == s || u == t) continue; arc(u == s ? 2 * s : 2 * u + 1, 2 * v); } }
  int flow = 0; while (flow < want) { vector<Ed> from(N, {-1, -1}); vector<int> q = {2 * s}; from[2 * s] = {-2, 0}; for (size_t i = 0; i < q.size() && from[2 * t].first == -1; i++) for (size_t j = 0; j < a[q[i]].size(); j++) { auto &x = a[q[i]][j]; if (x[1] && from[x[0]].first == -1) { from[x[0]] = {q[i], (int)j}; q.push_back(x[0]); } } if (from[2 * t].first == -1) break; int v = 2 * t; while (v != 2 * s) { auto p = from[v]; auto &x = a[p.first][p.second]; x[1]--; a[x[0]][x[2]][1]++; v = p.first; } flow++; } return flow; }
bool has_k23(const G &g) { for (int u = 1; u <= g.n; u++) for (int v = u + 1; v <= g.n; v++) if (disjoint_paths(g, u, v, 3) >= 3) return true; return false; }
bool has_k33(pbt::Case &c, G g) {   // Hall: in a 3-connected graph, nonplanar and not K5
  while (true) { auto a = g.adj(); map<int, int> id; int low = 0; for (int v = 1; v <= g.n; v++) if (a[v].size() == 1) low = v; if (!low) break; g.e.erase({std::min(low, a[low][0]), std::max(low, a[low][0])}); }
  auto relabel = [](const set<int> &vs, const G &h) { G r; map<int, int> m; for (int v : vs) m[v] = ++r.n; for (auto &x : h.e) if (m.count(x.first) && m.count(x.second)) r.add(m[x.first], m[x.second]); return r; };
  if (g.e.size() < 9 || planar(c, g)) return false;
  auto without = [&](set<int> cut) { auto a = g.adj(); vector<set<int>> out; vector<bool> m(g.n + 1); for (int v : cut) m[v] = true; for (int s = 1; s <= g.n; s++) if (!m[s] && !a[s].empty()) { set<int> t; vector<int> st = {s}; m[s] = true; while (!st.empty()) { int v = st.back(); st.pop_back(); t.insert(v); for (int w : a[v]) if (!m[w]) { m[w] = true; st.push_back(w); } } out.push_back(t); } return out; };
  auto pc = without({}); if (pc.size() > 1) { for (auto &t : pc) if (has_k33(c, relabel(t, g))) return true; return false; }
  for (int v : pc[0]) { auto q = without({v}); if (q.size() > 1) { for (auto &t : q) { auto s = t; s.insert(v); if (has_k33(c, relabel(s, g))) return true; } return false; } }
  for (int u : pc[0]) for (int v : pc[0]) if (u < v) { auto q = without({u, v}); if (q.size() > 1) { for (auto &t : q) { auto s = t; s.insert(u); s.insert(v); G h = g; h.add(u, v); if (has_k33(c, relabel(s, h))) return true; } return false; } }
  return !(pc[0].size() == 5); }
int embed(pbt::Case &c, graphP L, const G &g, int flags, const char *what) { graphP O = gp_DupGraph(L); CHECK(c, O, "cannot duplicate"); G d = collect(c, O, "duplicate"); CHECK(c, d.e == g.e && d.n == g.n, "the duplicate differs"); int r = gp_Embed(L, flags); CHECK(c, r == OK || r == NONEMBEDDABLE, "%s fails on %s", what, show(g).c_str()); int t = gp_TestEmbedResultIntegrity(L, O, r); CHECK(c, t == r, "%s: the library's own check rejects the result %d on %s", what, r, show(g).c_str()); G d2 = collect(c, O, "original"); CHECK(c, d2.e == g.e, "the original was changed"); gp_Free(&O); gp_SortVertices(L); return r; }
}
PROPERTY(C32, planar, 60000, 900000, 60, "at least six vertices and eight edges") {
  G g = rgraph(c); c.nontrivial(g.n >= 6 && g.e.size() >= 8); c.note("%s", show(g).c_str()); graphP L = build(c, g); int r = embed(c, L, g, EMBEDFLAGS_PLANAR, "planar embedding");
  if (r == OK) { c.label("planar"); G h = collect(c, L, "embedded graph"); CHECK(c, h.e == g.e, "the embedded graph has other edges"); plane(c, g, rotation(c, L, "embedding"), false, "planar embedding"); }
  else { c.label("nonplanar"); G h = collect(c, L, "obstruction"); string k = "none"; CHECK(c, homeomorph(h, k) && (k == "K5" || k == "K3,3"), "the obstruction is not a subdivision of K5 or K3,3: %s", show(h).c_str()); CHECK(c, subgraph(h, g), "the obstruction is not part of the graph"); c.labelf("%s", k.c_str()); }
  gp_Free(&L);
}
PROPERTY(C32, outerplanar, 60000, 900000, 60, "at least five vertices and six edges") {
  G g = rgraph(c); c.nontrivial(g.n >= 5 && g.e.size() >= 6); c.note("%s", show(g).c_str()); graphP L = build(c, g); int r = embed(c, L, g, EMBEDFLAGS_OUTERPLANAR, "outerplanar embedding");
  if (r == OK) { c.label("outerplanar"); G h = collect(c, L, "embedded graph"); CHECK(c, h.e == g.e, "the embedded graph has other edges"); plane(c, g, rotation(c, L, "embedding"), true, "outerplanar embedding"); }
  else { c.label("not outerplanar"); G h = collect(c, L, "obstruction"); string k = "none"; CHECK(c, homeomorph(h, k) && (k == "K4" || k == "K2,3"), "the obstruction is not a subdivision of K4 or K2,3: %s", show(h).c_str()); CHECK(c, subgraph(h, g), "the obstruction is not part of the graph"); c.labelf("%s", k.c_str()); }
  gp_Free(&L);
}
PROPERTY(C32, searches, 25000, 400000, 60, "the answer is not decided by planarity alone: for K3,3 a nonplanar graph, else one that is not outerplanar") {
  G g = rgraph(c); if (g.n > 60) c.discard("large"); int w = (int)c.below(3); c.note("%s in %s", w == 0 ? "K2,3" : w == 1 ? "K4" : "K3,3", show(g).c_str()); graphP L = gp_New(); bool before = c.flag(); auto attach = [&]() { CHECK(c, (w == 0 ? gp_AttachK23Search(L) : w == 1 ? gp_AttachK4Search(L) : gp_AttachK33Search(L)) == OK, "cannot attach"); }; if (before) attach(); build(c, g, L); if (!before) attach();
  bool has = w == 0 ? has_k23(g) : w == 1 ? has_k4(g) : has_k33(c, g); static const char *nm[] = {"K2,3", "K4", "K3,3"}; int fl[] = {EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK4, EMBEDFLAGS_SEARCHFORK33}; int r = embed(c, L, g, fl[w], "search"); c.nontrivial(w == 2 ? has || !planar(c, g) : has_k4(g) || has_k23(g)); c.labelf("%s %s", nm[w], has ? "present" : "absent");
  int big = 0; for (auto &l : g.adj()) big += l.size() >= 4;   // with five such vertices the graph may contain K5 as well, and the search for K3,3 is known to stop there (known_findings.txt)
  if (w == 2 && has && big >= 5 && r == OK) { c.label("K3,3 missed beside K5 (known)"); gp_Free(&L); return; }
  CHECK(c, (r == NONEMBEDDABLE) == has, "search for %s says %s, but it is %s: %s", nm[w], r == NONEMBEDDABLE ? "present" : "absent", has ? "present" : "absent", show(g).c_str());
  if (r == NONEMBEDDABLE) { G h = collect(c, L, "subgraph found"); string k = "none"; CHECK(c, homeomorph(h, k) && k == nm[w], "the subgraph found is not a subdivision of %s: %s", nm[w], show(h).c_str()); CHECK(c, subgraph(h, g), "the subgraph found is not part of the graph"); }
  gp_Free(&L);
}
PROPERTY(C32, drawing, 40000, 600000, 60, "a planar graph with at least five vertices and six edges") {
  G g = rgraph(c); graphP L = gp_New(); bool before = c.flag(); if (before) CHECK(c, gp_AttachDrawPlanar(L) == OK, "cannot attach"); build(c, g, L); if (!before) CHECK(c, gp_AttachDrawPlanar(L) == OK, "cannot attach"); c.note("%s", show(g).c_str()); int r = embed(c, L, g, EMBEDFLAGS_DRAWPLANAR, "planar drawing"); CHECK(c, (r == OK) == planar(c, g), "drawing and testing disagree on planarity of %s", show(g).c_str()); c.nontrivial(r == OK && g.n >= 5 && g.e.size() >= 6); if (r != OK) { gp_Free(&L); return; }
  plane(c, g, rotation(c, L, "embedding"), false, "planar drawing"); string fn = string(pbt::scratch()) + "/d.txt", rn = string(pbt::scratch()) + "/r.txt"; CHECK(c, gp_Write(L, (char *)fn.c_str(), WRITE_ADJLIST) == OK, "cannot write the drawing"); CHECK(c, gp_DrawPlanar_RenderToFile(L, (char *)rn.c_str()) == OK, "cannot render");
  FILE *f = fopen(fn.c_str(), "r"); CHECK(c, f, "no file"); char ln[4096]; bool in = false; vector<std::array<int, 3>> vp(g.n + 1), ep; vector<int> en; int nv = 0; while (fgets(ln, sizeof ln, f)) { if (!in) { if (!strncmp(ln, "<DrawPlanar>", 12)) in = true; continue; } if (ln[0] == '<') break; int k, a, b, d; CHECK(c, sscanf(ln, "%d: %d %d %d", &k, &a, &b, &d) == 4, "line %s", ln); if (nv < g.n) { CHECK(c, k == ++nv, "vertex line %s", ln); vp[nv] = {a, b, d}; } else { en.push_back(k); ep.push_back({a, b, d}); } } fclose(f); CHECK(c, in && nv == g.n && ep.size() == 2 * g.e.size(), "drawing of %d vertices and %zu arcs", nv, ep.size());
  std::map<int, vector<int>> row; for (int v = 1; v <= g.n; v++) { CHECK(c, vp[v][1] <= vp[v][2], "vertex %d spans columns %d..%d", v, vp[v][1], vp[v][2]); row[vp[v][0]].push_back(v); CHECK(c, vp[v][0] >= 0 && vp[v][0] < g.n, "vertex %d in row %d", v, vp[v][0]); }
  for (auto &x : row) for (int u : x.second) for (int v : x.second) if (u < v) CHECK(c, vp[u][2] < vp[v][1] || vp[v][2] < vp[u][1], "vertices %d and %d overlap", u, v);
  set<Ed> seen; map<int, vector<std::array<int, 2>>> col; for (size_t i = 0; i < en.size(); i++) { int e = en[i], u = gp_GetNeighbor(L, e), v = gp_GetNeighbor(L, gp_GetTwinArc(L, e)); auto p = ep[i]; if (e & 1) { CHECK(c, ep[i] == ep[i - 1], "the two arcs of an edge are drawn differently"); continue; } seen.insert({std::min(u, v), std::max(u, v)}); int top = std::min(vp[u][0], vp[v][0]), bot = std::max(vp[u][0], vp[v][0]); CHECK(c, p[1] == top && p[2] == bot && top < bot, "edge %d-%d drawn from row %d to %d, its ends are in rows %d and %d", u, v, p[1], p[2], vp[u][0], vp[v][0]); for (int w : {u, v}) CHECK(c, vp[w][1] <= p[0] && p[0] <= vp[w][2], "edge %d-%d in column %d misses vertex %d at %d..%d", u, v, p[0], w, vp[w][1], vp[w][2]);
    if (g.n <= 60) for (int w = 1; w <= g.n; w++) if (vp[w][0] > top && vp[w][0] < bot) CHECK(c, p[0] < vp[w][1] || p[0] > vp[w][2], "edge %d-%d crosses vertex %d", u, v, w); col[p[0]].push_back({top, bot}); }
  CHECK(c, seen == g.e, "not every edge is drawn"); for (auto &x : col) { std::sort(x.second.begin(), x.second.end()); for (size_t i = 1; i < x.second.size(); i++) CHECK(c, x.second[i - 1][1] <= x.second[i][0], "two edges overlap in column %d", x.first); }
  f = fopen(rn.c_str(), "r"); CHECK(c, f, "no rendition"); vector<string> pic; string cur; int ch; while ((ch = fgetc(f)) != EOF) { if (ch == '\n') { pic.push_back(cur); cur.clear(); } else cur += (char)ch; } fclose(f); if (g.e.size() > 0) { CHECK(c, (int)pic.size() == 2 * g.n, "the rendition has %zu lines for %d vertices", pic.size(), g.n); for (size_t i = 0; i < en.size(); i += 2) for (int y = 2 * ep[i][1] + 1; y < 2 * ep[i][2]; y++) CHECK(c, pic[y].size() == g.e.size() && pic[y][ep[i][0]] == '|', "edge is interrupted in the rendition"); for (int v = 1; v <= g.n; v++) for (int x = vp[v][1]; x <= vp[v][2]; x++) CHECK(c, x < (int)pic[2 * vp[v][0]].size() && strchr("-0123456789*", pic[2 * vp[v][0]][x]), "vertex %d is interrupted in the rendition", v); }
  graphP R = gp_New(); gp_AttachDrawPlanar(R); CHECK(c, gp_Read(R, (char *)fn.c_str()) == OK, "the drawing cannot be read back"); G h = collect(c, R, "drawing read back"); CHECK(c, h.e == g.e, "the drawing read back has other edges"); gp_Free(&R); gp_Free(&L);
}
PROPERTY(C32, files_and_copies, 20000, 300000, 60, "at least five vertices and six edges") {
  G g = rgraph(c); c.nontrivial(g.n >= 5 && g.e.size() >= 6); c.note("%s", show(g).c_str()); graphP L = build(c, g); auto r0 = rotation(c, L, "built"); G b = collect(c, L, "built"); CHECK(c, b.e == g.e, "the graph built has other edges"); string fn = string(pbt::scratch()) + "/g.txt";
  for (int v = 1; v <= g.n && v <= 8; v++) { CHECK(c, gp_GetVertexDegree(L, v) == (int)r0[v].size(), "degree of %d", v); for (int w = 1; w <= g.n && w <= 8; w++) if (v != w) { bool is = g.e.count({std::min(v, w), std::max(v, w)}); CHECK(c, (bool)gp_IsNeighbor(L, v, w) == is, "%d and %d: neighbours %d", v, w, !is); int e = gp_GetNeighborEdgeRecord(L, v, w); CHECK(c, (bool)gp_IsArc(e) == is && (!is || gp_GetNeighbor(L, e) == w), "edge record of %d-%d", v, w); } }
  for (int mode : {WRITE_ADJLIST, WRITE_ADJMATRIX}) { CHECK(c, gp_Write(L, (char *)fn.c_str(), mode) == OK, "cannot write"); graphP R = gp_New(); CHECK(c, gp_Read(R, (char *)fn.c_str()) == OK, "cannot read back, mode %d", mode); G h = collect(c, R, "read back"); CHECK(c, h.n == g.n && h.e == g.e, "the file read back has other edges (mode %d)", mode); if (mode == WRITE_ADJLIST) { CHECK(c, gp_Write(R, (char *)fn.c_str(), mode) == OK, "cannot write"); graphP Q = gp_New(); CHECK(c, gp_Read(Q, (char *)fn.c_str()) == OK, "cannot read"); G q = collect(c, Q, "read twice"); CHECK(c, q.e == g.e, "reading twice"); gp_Free(&Q); } gp_Free(&R); }
  { FILE *f = fopen(fn.c_str(), "w"); fprintf(f, "LEDA.GRAPH\nvoid\nvoid\n%d\n", g.n); for (int i = 0; i < g.n; i++) fprintf(f, "|{}|\n"); fprintf(f, "%zu\n", g.e.size()); for (auto &x : g.e) fprintf(f, "%d %d 0 |{}|\n", x.first, x.second); fclose(f); graphP R = gp_New(); CHECK(c, gp_Read(R, (char *)fn.c_str()) == OK, "cannot read the edge list"); G h = collect(c, R, "edge list read"); CHECK(c, h.e == g.e && h.n == g.n, "the edge list read has other edges"); gp_Free(&R); }
  graphP D = gp_DupGraph(L); CHECK(c, D, "cannot duplicate"); CHECK(c, rotation(c, D, "duplicate") == r0, "the duplicate has other adjacency lists"); graphP C = gp_New(); gp_InitGraph(C, g.n); CHECK(c, gp_CopyGraph(C, L) == OK && rotation(c, C, "copy") == r0, "the copy has other adjacency lists"); gp_Free(&C);
  // hide and restore in reverse order
  vector<int> hid; int k = (int)c.below(6); set<Ed> left = g.e; for (int i = 0; i < k && !left.empty(); i++) { auto x = *std::next(left.begin(), c.below(left.size())); int e = gp_GetNeighborEdgeRecord(L, x.first, x.second); gp_HideEdge(L, e); hid.push_back(e); left.erase(x); auto r = rotation(c, L, "hidden edge"); G h; h.n = g.n; for (int v = 1; v <= g.n; v++) for (int w : r[v]) h.add(v, w); CHECK(c, h.e == left, "hiding edge %d-%d changes other edges", x.first, x.second); } while (!hid.empty()) { gp_RestoreEdge(L, hid.back()); hid.pop_back(); } CHECK(c, rotation(c, L, "restored") == r0, "hiding and restoring edges changes the adjacency lists");
  // delete edges, and add them again
  vector<Ed> del; k = (int)c.below(5); left = g.e; for (int i = 0; i < k && !left.empty(); i++) { auto x = *std::next(left.begin(), c.below(left.size())); gp_DeleteEdge(L, gp_GetNeighborEdgeRecord(L, x.first, x.second), 0); left.erase(x); del.push_back(x); G h = collect(c, L, "deleted edge"); CHECK(c, h.e == left, "deleting %d-%d changes other edges", x.first, x.second); } for (auto &x : del) CHECK(c, gp_AddEdge(L, x.first, 0, x.second, 1) == OK, "cannot add the edge again"); G h = collect(c, L, "edges added again"); CHECK(c, h.e == g.e, "adding the deleted edges again gives other edges"); int r = embed(c, L, g, EMBEDFLAGS_PLANAR, "planar embedding after edits"); CHECK(c, (r == OK) == planar(c, g), "edits change the answer"); if (r == OK) plane(c, g, rotation(c, L, "embedding"), false, "embedding after edits"); gp_ReinitializeGraph(L); CHECK(c, L->M == 0 && collect(c, L, "reinitialized").e.empty(), "edges after reinitializing"); for (auto &x : g.e) CHECK(c, gp_AddEdge(L, x.first, 0, x.second, 0) == OK, "cannot rebuild"); CHECK(c, (embed(c, L, g, EMBEDFLAGS_PLANAR, "second run") == OK) == (r == OK), "the answer changes on a reused graph"); gp_Free(&D); gp_Free(&L); CHECK(c, !L, "pointer not cleared");
}
PROPERTY(C32, random_graphs, 8000, 60000, 60, "at least ten vertices") {
  int n = c.range(1, c.chance(1, 10) ? 200 : 30); c.nontrivial(n >= 10); srand((unsigned)c.below(1 << 30)); graphP L = gp_New(); gp_InitGraph(L, n); bool ex = c.flag(); int top = n < 3 ? n - 1 : 3 * n - 6, m = n < 3 ? n - 1 : (int)(n - 1 + c.below(top - n + 2) + (c.chance(1, 3) && n > 6 ? c.below(4) : 0)); c.note("%d vertices, %d edges", n, ex ? m : -1);
  if (!ex) { CHECK(c, gp_CreateRandomGraph(L) == OK, "no random graph"); G g = collect(c, L, "random graph"); CHECK(c, components(g) == 1, "the random graph has %d components", components(g)); }
  else { int r = gp_CreateRandomGraphEx(L, m); CHECK(c, r == OK, "no random graph with %d vertices and %d edges: %d", n, m, r); G g = collect(c, L, "random graph"); CHECK(c, (int)g.e.size() == m, "%zu edges instead of %d", g.e.size(), m); CHECK(c, components(g) == 1, "the random graph is not connected"); if (m <= 3 * n - 6 || n < 5) CHECK(c, planar(c, g), "the random planar graph is not planar"); }
  gp_Free(&L);
}
