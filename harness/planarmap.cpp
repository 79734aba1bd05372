// C33: random planar maps have the type, the size and the connectivity asked for, and every map is equally likely.
#include "pbt.hpp"
#include <set>
#include <map>
#include <array>
#include <unistd.h>
extern "C" {
#include "PMdef.h"
#include "PMplanmap.h"
#include "PMenlight.h"
#include "PMdisplay.h"
#include "interface.h"
#include "stats.h"
}
#undef Next
#undef Prev
#undef Oppo
#undef TRUE
#undef FALSE
using std::vector; using std::string; using std::map; using std::set;
namespace {
struct Map { int n = 0; vector<int> nx, op, vt, fc; vector<long> lab; vector<long> vl, fl; int V = 0, F = 0; };   // darts; vertex and face of each
Map collect(pbt::Case &c, const pmMap &P, bool faces = true) {
  Map M; map<pm_edge *, int> id; vector<pm_edge *> d; auto add = [&](pm_edge *e) { CHECK(c, e, "a missing dart"); if (id.emplace(e, (int)d.size()).second) d.push_back(e); }; add(P.root);
  for (size_t i = 0; i < d.size(); i++) { add(d[i]->next); add(d[i]->oppo); CHECK(c, d[i]->next->prev == d[i], "the order around a vertex is inconsistent"); CHECK(c, d[i]->oppo->oppo == d[i] && d[i]->oppo != d[i], "a dart and its opposite do not match"); CHECK(c, d.size() < 200000, "too many darts"); }
  M.n = (int)d.size(); M.nx.resize(M.n); M.op.resize(M.n); M.vt.assign(M.n, -1); M.fc.assign(M.n, -1); M.lab.resize(M.n); for (int i = 0; i < M.n; i++) { M.nx[i] = id[d[i]->next]; M.op[i] = id[d[i]->oppo]; M.lab[i] = d[i]->label; }
  map<pm_vertex *, int> seen, fseen; for (int i = 0; i < M.n; i++) if (M.vt[i] < 0) { CHECK(c, seen.emplace(d[i]->from, M.V).second, "two vertices share a record"); M.vl.push_back(d[i]->from->label); for (int j = i; M.vt[j] < 0; j = M.nx[j]) { M.vt[j] = M.V; CHECK(c, d[j]->from == d[i]->from, "darts around a vertex name different vertices"); } M.V++; }
  for (int i = 0; i < M.n; i++) if (M.fc[i] < 0) { if (faces) { CHECK(c, d[i]->face && fseen.emplace(d[i]->face, M.F).second, "two faces share a record"); M.fl.push_back(d[i]->face->label); } for (int j = i; M.fc[j] < 0; j = M.nx[M.op[j]]) { M.fc[j] = M.F; if (faces) CHECK(c, d[j]->face == d[i]->face, "darts around a face name different faces"); } M.F++; }
  CHECK(c, M.V - M.n / 2 + M.F == 2, "the map has %d vertices, %d edges, %d faces: it is not planar", M.V, M.n / 2, M.F); CHECK(c, P.v == M.V && P.f == M.F && P.e == M.n / 2 + 1, "the map says %ld vertices, %ld faces, next edge number %ld; it has %d vertices, %d faces, %d edges", P.v, P.f, P.e, M.V, M.F, M.n / 2);
  set<pm_vertex *> ch; int k = 0; for (pm_vertex *v = P.root->from; v; v = v->next) { CHECK(c, seen.count(v) && ch.insert(v).second, "the list of vertices repeats one or leaves the map"); CHECK(c, v->root && v->root->from == v, "the root of a vertex is elsewhere"); k++; } CHECK(c, k == M.V, "the list of vertices has %d of %d", k, M.V);
  if (faces) { ch.clear(); k = 0; for (pm_vertex *v = P.root->face; v; v = v->next) { CHECK(c, fseen.count(v) && ch.insert(v).second, "the list of faces repeats one or leaves the map"); CHECK(c, v->root && v->root->face == v, "the root of a face is elsewhere"); k++; } CHECK(c, k == M.F, "the list of faces has %d of %d", k, M.F); }
  auto perm = [&](vector<long> x, const char *w) { std::sort(x.begin(), x.end()); for (size_t i = 0; i < x.size(); i++) CHECK(c, x[i] == (long)i + 1, "%s are not numbered 1 to %zu", w, x.size()); }; perm(M.vl, "vertices"); if (faces) perm(M.fl, "faces"); vector<long> pos; for (int i = 0; i < M.n; i++) { CHECK(c, M.lab[i] == -M.lab[M.op[i]], "the two darts of an edge have labels %ld and %ld", M.lab[i], M.lab[M.op[i]]); if (M.lab[i] > 0) pos.push_back(M.lab[i]); } perm(pos, "edges");
  return M; }
vector<int> degrees(const Map &M) { vector<int> g(M.V); for (int i = 0; i < M.n; i++) g[M.vt[i]]++; return g; }
bool bipartite(const Map &M) { vector<int> col(M.V, -1); vector<vector<int>> at(M.V); for (int i = 0; i < M.n; i++) at[M.vt[i]].push_back(M.vt[M.op[i]]); vector<int> q = {0}; col[0] = 0; for (size_t i = 0; i < q.size(); i++) for (int w : at[q[i]]) { if (col[w] < 0) { col[w] = 1 - col[q[i]]; q.push_back(w); } else if (col[w] == col[q[i]]) return false; } return true; }
int curves(const Map &M) { vector<char> m(M.n); int k = 0; for (int i = 0; i < M.n; i++) if (!m[i]) { k++; int j = i; while (!m[j]) { m[j] = 1; m[M.op[j]] = 1; j = M.nx[M.nx[M.op[j]]]; } } return k; }
// edge cuts of a plane map are cycles of the dual
bool bridge(const Map &M) { for (int i = 0; i < M.n; i++) if (M.fc[i] == M.fc[M.op[i]]) return true; return false; }
bool two_cut(const Map &M) { set<std::pair<int, int>> s; for (int i = 0; i < M.n; i++) if (i < M.op[i]) { int a = M.fc[i], b = M.fc[M.op[i]]; if (a > b) std::swap(a, b); if (!s.insert({a, b}).second) return true; } return false; }
// a dual cycle of length k (3 or 4) that does not just surround one vertex; the dual is simple here
bool big_cut(const Map &M, int k) { vector<map<int, int>> a(M.F); for (int i = 0; i < M.n; i++) a[M.fc[i]][M.fc[M.op[i]]] = i; auto around = [&](vector<int> cut) { set<int> e; for (int x : cut) { e.insert(x); e.insert(M.op[x]); } vector<char> m(M.V); vector<int> q = {M.vt[cut[0]]}; m[q[0]] = 1; vector<vector<int>> at(M.V); for (int i = 0; i < M.n; i++) at[M.vt[i]].push_back(i); size_t i = 0; for (; i < q.size(); i++) for (int x : at[q[i]]) if (!e.count(x) && !m[M.vt[M.op[x]]]) { m[M.vt[M.op[x]]] = 1; q.push_back(M.vt[M.op[x]]); } return q.size() == 1 || (int)q.size() == M.V - 1; };
  for (int f = 0; f < M.F; f++) for (auto &g : a[f]) if (g.first > f) for (auto &h : a[g.first]) if (h.first > f && h.first != f) { if (k == 3) { if (h.first <= g.first) continue; auto it = a[h.first].find(f); if (it != a[h.first].end() && !around({g.second, h.second, it->second})) return true; } else for (auto &l : a[h.first]) if (l.first > f && l.first != g.first) { if (g.first > l.first) continue; auto it = a[l.first].find(f); if (it != a[l.first].end() && !around({g.second, h.second, l.second, it->second})) return true; } } return false; }
struct Run { pmSize S; pmMethod Me; pmOutput O; pmStats St; pmMemory Mm; };
bool prepare(pbt::Case &c, Run &r, const vector<string> &args) { vector<char *> av = {(char *)"planarmap"}; for (auto &a : args) av.push_back((char *)a.c_str()); memset(&r, 0, sizeof r); CHECK(c, pmParseArgs((int)av.size(), av.data(), &r.S, &r.Me, &r.O, &r.St), "arguments refused"); CHECK(c, pmInitRND(&r.Me), "no generator"); if (!pmSetParameters(&r.S, &r.Me)) return false; if (!pmMemoryInit(&r.S, &r.Me, &r.Mm)) return false; return pmExtendMemory(&r.S, &r.Me, &r.Mm, r.St.core); }
template <class F> string captured(F f) { fflush(stdout); string fn = string(pbt::scratch()) + "/out.txt"; int keep = dup(1); FILE *o = fopen(fn.c_str(), "w"); dup2(fileno(o), 1); f(); fflush(stdout); dup2(keep, 1); close(keep); fclose(o); string s; FILE *i = fopen(fn.c_str(), "r"); int ch; while ((ch = fgetc(i)) != EOF) s += (char)ch; fclose(i); return s; }
const char *kinds[] = {"-Q1", "-Q2", "-Q4", "-C2", "-B1", "-Q5", "-Q3", "-C3", "-C4", "-B2"};
void check_kind(pbt::Case &c, const Map &M, int k, int v) {
  auto g = degrees(M); if (k == 5) { int legs = 0; for (int x : g) { CHECK(c, x == 1 || x == 4, "a vertex of degree %d", x); legs += x == 1; } CHECK(c, legs == 2 && M.V == v + 2, "%d legs and %d vertices", legs, M.V); return; }
  int want = k == 3 || k == 4 || k >= 7 ? 3 : 4; for (int x : g) CHECK(c, x == want, "a vertex of degree %d in a map of type %s", x, kinds[k]); CHECK(c, !bridge(M), "type %s with a bridge", kinds[k]);
  if (k == 2 || k == 4 || k == 9) CHECK(c, bipartite(M), "type %s is not bipartite", kinds[k]);
  if (k == 1 || k >= 6) CHECK(c, !two_cut(M), "type %s with %d vertices has two edges that separate it", kinds[k], M.V);
  if (k == 8 && M.V <= 200) CHECK(c, !big_cut(M, 3), "type %s has three edges that separate it", kinds[k]); if (k == 6 && M.V <= 120) CHECK(c, !big_cut(M, 4), "type %s has four edges that separate it", kinds[k]); }
}
PROPERTY(C33, maps, 20000, 400000, 60, "at least six vertices") {
  int k = (int)c.below(10); bool ext = k >= 6; int v = c.chance(1, 20) ? c.range(40, 400) : c.range(1, 30); if (ext) v = c.range(20, 120); if (k == 2 || k == 3 || k == 4 || k >= 7) v *= 2; if (k == 1 && v < 2) v = 2; if (ext && k >= 7) v = v / 4 * 2 + 20;
  vector<string> a = {kinds[k]}; string seed = "-X" + std::to_string(c.below(1 << 20)); a.push_back(seed); bool cub = k == 3 || k == 4 || k >= 7; int how = (int)c.below(3); if (how == 1) a.push_back("-E" + std::to_string(k == 5 ? 2 * v + 1 : cub ? 3 * v / 2 : 2 * v)); else if (how == 2) a.push_back("-F" + std::to_string(k == 5 ? v + 1 : cub ? v / 2 + 2 : v + 2)); else a.push_back("-V" + std::to_string(v));
  int mn = 0, mx = 0; if (k == 0 && v <= 12 && c.flag()) { mn = c.range(0, 2); mx = c.range(mn ? mn : 1, 3); if (mn > 1 && v < 2) mn = 1; a.push_back("-k" + std::to_string(mn)); a.push_back("-K" + std::to_string(mx)); } int tol = -1; if (ext && c.flag()) { tol = c.range(5, std::min(40, v - 8)); a.push_back("-I" + std::to_string(tol)); } if (ext && c.chance(1, 3)) a.push_back("-s"); bool core = false; (void)core; if (k == 1 && how == 0 && v >= 3 && c.flag()) { a.pop_back(); int R = c.range(2, v); a.push_back("-R" + std::to_string(R)); a.push_back("-G" + std::to_string(v + 2 - R)); how = 3; }
  string all; for (auto &x : a) all += x + " "; c.note("%s", all.c_str()); c.nontrivial(v >= 6); c.labelf("%s", kinds[k]); Run r; CHECK(c, prepare(c, r, a), "refused: %s", all.c_str()); CHECK(c, r.S.v == v, "size %ld, asked for %d: %s", r.S.v, v, all.c_str()); int maps = c.range(1, 3); vector<int> first;
  for (int i = 0; i < maps; i++) { pmMap P; memset(&P, 0, sizeof P); P.i = i; CHECK(c, pmPlanMap(&r.S, &r.Me, &r.Mm, &P), "no map"); Map M = collect(c, P); if (!ext) { if (k != 5) CHECK(c, M.V == v, "%d vertices instead of %d", M.V, v); } else { int t = tol >= 0 ? tol : (int)exp(2 * log(v) / 3); CHECK(c, M.V >= v - t && M.V <= v + t, "%d vertices, asked for %d to within %d", M.V, v, t); }
    if (ext && M.V < 6) { pmFreeMap(&P); continue; } check_kind(c, M, k, v);
    if (k == 0 || k == 1 || k == 2 || k == 6) { int cu = curves(M); long s = pmStatGauss(&P); CHECK(c, s == cu, "the map is %d closed curves, counted %ld", cu, s); if (mn || mx) CHECK(c, cu >= mn && (mx == 0 || cu <= mx), "%d curves, asked for %d to %d", cu, mn, mx); }
    if (how == 3) { long nb = pmBicolorFaces(P.root); vector<int> ty(M.F); map<int, int> cnt; set<pm_vertex *> fs; for (pm_vertex *f = P.root->face; f; f = f->next) cnt[f->type]++; long R = r.S.r, G = r.S.g; CHECK(c, (cnt[1] == R && cnt[2] == G) || (cnt[1] == G && cnt[2] == R), "%d and %d faces of the two colors, asked for %ld and %ld", cnt[1], cnt[2], R, G); CHECK(c, nb == cnt[1], "%ld faces of the color of the root, really %d", nb, cnt[1]); for (pm_vertex *f = P.root->face; f; f = f->next) { pm_edge *e = f->root; do { CHECK(c, e->oppo->face->type != f->type, "neighbouring faces of one color"); e = e->oppo->next; } while (e != f->root); } }
    if (k == 5) { int a0 = -1, b0 = -1; for (int j = 0; j < M.n; j++) if (M.nx[j] == j) (a0 < 0 ? a0 : b0) = M.fc[j]; vector<int> ds(M.F, -1), q = {a0}; ds[a0] = 0; for (size_t z = 0; z < q.size(); z++) for (int j = 0; j < M.n; j++) if (M.fc[j] == q[z] && ds[M.fc[M.op[j]]] < 0) { ds[M.fc[M.op[j]]] = ds[q[z]] + 1; q.push_back(M.fc[M.op[j]]); } CHECK(c, pmStatGeodesicDistance(&P) == ds[b0], "distance of the legs %ld, really %d", pmStatGeodesicDistance(&P), ds[b0]); }
    if (i == 0) { first = M.nx; first.insert(first.end(), M.op.begin(), M.op.end()); } pmFreeMap(&P); }
  { Run q; prepare(c, q, a); pmMap P; memset(&P, 0, sizeof P); pmPlanMap(&q.S, &q.Me, &q.Mm, &P); Map M = collect(c, P); vector<int> again = M.nx; again.insert(again.end(), M.op.begin(), M.op.end()); CHECK(c, again == first, "the same seed gives another map"); pmFreeMap(&P); }
}
PROPERTY(C33, printed, 8000, 150000, 60, "at least four vertices") {
  int k = (int)c.below(5); int v = c.range(1, 14); if (k >= 2) v *= 2; if (k == 1 && v < 2) v = 2; bool tr = k < 2 && c.flag(); vector<string> a = {tr ? (k == 0 ? "-M1" : "-M2") : kinds[k], "-X" + std::to_string(c.below(1 << 20)), "-V" + std::to_string(v), "-p"}; c.nontrivial(v >= 4); c.note("%s -V%d", a[0].c_str(), v); Run r; CHECK(c, prepare(c, r, a), "refused"); pmMap P; memset(&P, 0, sizeof P); pmPlanMap(&r.S, &r.Me, &r.Mm, &P); Map Q = collect(c, P); vector<int> sides; if (tr) { // faces of the color of the root become vertices
    r.O.format = 99; captured([&]() { pmPrint(&P, &r.O); }); Map M = collect(c, P); CHECK(c, M.n / 2 == v && M.V + M.F == v + 2, "the map of %d edges has %d edges, %d vertices, %d faces", v, M.n / 2, M.V, M.F); multiset_check: { vector<int> dq(Q.F), dm = degrees(M), fm(M.F), all, got; for (int i = 0; i < Q.n; i++) dq[Q.fc[i]]++; for (int i = 0; i < M.n; i++) fm[M.fc[i]]++; all = dq; got = dm; got.insert(got.end(), fm.begin(), fm.end()); std::sort(all.begin(), all.end()); std::sort(got.begin(), got.end()); CHECK(c, all == got, "vertex and face degrees are not the face degrees of the quartic map"); } r.O.transform = 0; Q = M; if (k == 1) for (int x = 0; x < M.V && M.V > 2; x++) { vector<char> m(M.V); int s = x ? 0 : 1, cnt = 1; vector<int> q = {s}; m[s] = m[x] = 1; for (size_t z = 0; z < q.size(); z++) for (int j = 0; j < M.n; j++) if (M.vt[j] == q[z] && !m[M.vt[M.op[j]]]) { m[M.vt[M.op[j]]] = 1; q.push_back(M.vt[M.op[j]]); cnt++; } CHECK(c, cnt == M.V - 1, "a map asked to be 2-connected has a cut vertex"); } }
  map<std::pair<long, long>, int> eP, eD; for (int i = 0; i < Q.n; i++) if (Q.lab[i] > 0) { auto o = [](long x, long y) { return std::make_pair(std::min(x, y), std::max(x, y)); }; eP[o(Q.vl[Q.vt[i]], Q.vl[Q.vt[Q.op[i]]])]++; eD[o(Q.fl[Q.fc[i]], Q.fl[Q.fc[Q.op[i]]])]++; }
  for (int dual = 0; dual < 2; dual++) { auto &E = dual ? eD : eP; int n = dual ? Q.F : Q.V; r.O.map = !dual; r.O.dual = dual;
    { r.O.format = 2; string s = captured([&]() { pmPrint(&P, &r.O); }); map<std::pair<long, long>, int> got; const char *p = s.c_str(); long x, y; int len; while (sscanf(p, " %ld - %ld %n", &x, &y, &len) == 2) { got[{std::min(x, y), std::max(x, y)}]++; p += len; } CHECK(c, !*p && got == E, "the edge list printed is not that of the %s", dual ? "dual" : "map"); }
    { r.O.format = 6; string s = captured([&]() { pmPrint(&P, &r.O); }); size_t q = s.find("columns:"); CHECK(c, q != string::npos, "no matrix"); const char *p = s.c_str() + q + 8; long m, x; int len; CHECK(c, sscanf(p, "%ld%n", &m, &len) == 1 && m == n, "matrix of size %ld", m); p += len; vector<long> A(n * n); for (auto &t : A) { CHECK(c, sscanf(p, "%ld%n", &x, &len) == 1, "the matrix ends early"); t = x; p += len; } vector<long> order; for (pm_vertex *w = dual ? P.root->face : P.root->from; w; w = w->next) order.push_back(w->label); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long u = order[i], w = j + 1; auto it = E.find({std::min(u, w), std::max(u, w)}); long want = it == E.end() ? 0 : it->second; if (u == w) want *= 2; CHECK(c, A[i * n + j] == want, "adjacency of %ld and %ld in the %s is %ld, really %ld", u, w, dual ? "dual" : "map", A[i * n + j], want); } }
    { r.O.format = 1; string s = captured([&]() { pmPrint(&P, &r.O); }); vector<vector<long>> rows; const char *p = s.c_str(); while (*p) { const char *q = strchr(p, ':'); CHECK(c, q, "no vertex line"); p = q + 1; vector<long> row; while (*p && *p != '\n') { char *e; row.push_back(strtol(p, &e, 10)); CHECK(c, e != p, "not a number in %s", p); p = e; } if (*p) p++; rows.push_back(row); } CHECK(c, (int)rows.size() == n, "%zu lines for %d", rows.size(), n); size_t tot = 0; map<long, int> dart; for (int i = 0; i < Q.n; i++) dart[Q.lab[i]] = i; for (auto &row : rows) { tot += row.size(); for (size_t i = 0; i < row.size(); i++) { CHECK(c, dart.count(row[i]), "edge %ld", row[i]); int d = dart[row[i]], nxt = dual ? Q.nx[Q.op[d]] : Q.nx[d]; CHECK(c, Q.lab[nxt] == row[(i + 1) % row.size()], "the order printed around a %s is not that of the map", dual ? "face" : "vertex"); } } CHECK(c, (int)tot == Q.n, "%zu darts printed of %d", tot, Q.n); } }
  pmFreeMap(&P);
}
// Every rooted map is equally likely. The code of a rooted map: darts in the order of a search from the root.
PROPERTY(C33, uniform, 60, 600, 300, "always: 250 maps per possible map, 5000 or 20000") {
  struct { int kind, v, count; } tab[] = {{0, 1, 2}, {0, 2, 9}, {0, 3, 54}, {1, 3, 2}, {1, 4, 6}, {1, 5, 22}, {1, 6, 91}, {4, 2, 1}, {4, 4, 3}, {4, 6, 12}, {4, 8, 56}, {3, 2, 1}, {3, 4, 4}, {3, 6, 24}, {2, 2, 1}, {0, 4, 378}, {4, 10, 288}};   // quartic: 2.3^n(2n)!/(n!(n+2)!); nonseparable with n edges: 2(3n-3)!/(n!(2n-1)!); bicubic on 2n: 3.2^(n-1)(2n)!/(n!(n+2)!); bridgeless cubic on 2n: 2^n(3n)!/((n+1)!(2n+1)!)
  auto t = tab[c.below(17)]; c.nontrivial(); c.note("%s with %d vertices", kinds[t.kind], t.v); Run r; vector<string> a = {kinds[t.kind], "-X" + std::to_string(c.below(1 << 30)), "-V" + std::to_string(t.v)}; CHECK(c, prepare(c, r, a), "refused"); int per = t.count > 1 && c.chance(1, 3) ? (t.count <= 12 ? 20000 : t.count <= 24 ? 5000 : t.count > 200 ? 1500 : 250) : 250, N = per * t.count; c.labelf("%d per map", per); map<vector<int>, int> cnt; for (int i = 0; i < N; i++) { pmMap P; memset(&P, 0, sizeof P); P.i = i; pmPlanMap(&r.S, &r.Me, &r.Mm, &P); Map M = collect(c, P); vector<int> code = M.nx; code.insert(code.end(), M.op.begin(), M.op.end()); cnt[code]++; pmFreeMap(&P); }
  CHECK(c, (int)cnt.size() == t.count, "%zu different rooted maps of type %s with %d vertices occur in %d, there are %d", cnt.size(), kinds[t.kind], t.v, N, t.count); double x = 0; for (auto &q : cnt) x += (q.second - (double)per) * (q.second - (double)per) / per; int df = t.count - 1; if (df > 0) { double z = (pow(x / df, 1.0 / 3) - (1 - 2.0 / (9 * df))) / sqrt(2.0 / (9 * df)); CHECK(c, z < 7, "the maps of type %s with %d vertices are not equally likely: chi-square %.1f with %d degrees of freedom", kinds[t.kind], t.v, x, df); }
}
