// Independent model of link diagrams: a fixed-point-free matching of the 4n darts of n crossings
// (dart 4c+p = position p, counter-clockwise, of crossing c), an orientation of every strand and a
// sign per crossing.  Nothing here calls the library except the two converters at the end.
#pragma once
#include "pbt.hpp"
#include <array>
#include <numeric>
extern "C" {
#include "plCurve.h"
#include "plcTopology.h"
}
namespace dg {
using std::vector; using std::array; using std::map; using std::pair; using std::string;

struct Diag {
  int n = 0;                    // crossings
  vector<int> mate;             // 4n
  vector<char> out;             // 4n: 1 = the edge leaves the crossing at this dart
  vector<int> sign;             // n: 1 positive, 0 negative, 2 unset
  vector<int> tag;              // per dart, tag of the component (consistent along components)
  static int opp(int d) { return (d & ~3) | ((d + 2) & 3); }
  static int ccw(int d) { return (d & ~3) | ((d + 1) & 3); }
  static int cw(int d) { return (d & ~3) | ((d + 3) & 3); }
  // next outgoing dart along the strand: follow the edge leaving at d, go straight through
  int next(int d) const { return opp(mate[d]); }
  // components as lists of outgoing darts (one per edge), in orientation order
  vector<vector<int>> comps() const { vector<char> seen(4 * n, 0); vector<vector<int>> r; for (int d = 0; d < 4 * n; d++) if (out[d] && !seen[d]) { vector<int> v; int e = d; do { seen[e] = 1; v.push_back(e); e = next(e); } while (e != d); r.push_back(v); } return r; }
  // faces as lists of darts: face to the left when leaving along d
  vector<vector<int>> faces() const { vector<char> seen(4 * n, 0); vector<vector<int>> r; for (int d = 0; d < 4 * n; d++) if (!seen[d]) { vector<int> v; int e = d; do { seen[e] = 1; v.push_back(e); e = cw(mate[e]); } while (e != d); r.push_back(v); } return r; }
  int pieces() const { vector<int> p(n); std::iota(p.begin(), p.end(), 0); std::function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; for (int d = 0; d < 4 * n; d++) p[f(d / 4)] = f(mate[d] / 4); std::set<int> s; for (int i = 0; i < n; i++) s.insert(f(i)); return (int)s.size(); }
  // orient every strand: comps follow from the matching; flips decided by rev(k)
  void orient(const std::function<bool(int)> &rev) { out.assign(4 * n, 2); int k = 0; for (int d = 0; d < 4 * n; d++) if (out[d] == 2) { bool r = rev(k++); int e = d; do { out[e] = !r; out[mate[e]] = r; e = opp(mate[e]); } while (e != d && out[e] == 2); } }
  // the incoming/outgoing over and under darts of crossing c (sign must be set)
  void strands(int c, int &oi, int &oo, int &ui, int &uo) const {
    int i0 = -1, i1 = -1; for (int p = 0; p < 4; p++) if (!out[4 * c + p]) { if (!out[4 * c + ((p + 1) & 3)]) { i0 = 4 * c + p; i1 = 4 * c + ((p + 1) & 3); } }
    // i1 is counter-clockwise next to i0.  positive: over_in = under_in - 1
    if (sign[c] == 1) { oi = i0; ui = i1; } else { oi = i1; ui = i0; }
    oo = opp(oi); uo = opp(ui);
  }
};

// ---------------------------------------------------------------- generator
// Every connected 4-valent plane map is the medial of a plane map; grow a random plane map edge by edge.
inline Diag random_shadow(pbt::Case &c, int n) {
  int style = c.pick({24, 12, n >= 20 && n <= 96 ? 12 : 1, 2}); // mixed; mostly chords between distinct corners (few kinks); doubled trees (many components); twist regions
  if (style == 2 && n > 96) style = 3;
  // darts 0..2n-1 of the map, edge e = darts 2e, 2e+1; sigma = next dart ccw around the vertex
  vector<int> sg, sgi; // sigma and inverse
  auto face_next = [&](int d) { int m = d ^ 1; return sgi[m]; };      // walk with the face on the left
  for (int e = 0; e < n; e++) {
    int a = 2 * e, b = 2 * e + 1; sg.resize(2 * e + 2); sgi.resize(2 * e + 2);
    auto insert_after = [&](int x, int d) { int y = sg[x]; sg[x] = d; sgi[d] = x; sg[d] = y; sgi[y] = d; };
    int kind = style == 3 ? (c.chance(1, 4) ? c.range(0, 2) : 3) : style == 2 ? (e & 1 ? 3 : c.chance(1, 16) ? 0 : 1) : style ? c.pick({8, 2}) : c.pick({3, 2, 1}); // chord, pendant, loop-ish, parallel
    if (e == 0) { if (kind == 1) { sg[a] = sgi[a] = a; sg[b] = sgi[b] = b; } else { sg[a] = sgi[a] = b; sg[b] = sgi[b] = a; } continue; }
    if (kind == 3) { int p = style == 3 && c.chance(1, 4) ? (int)c.below(2 * e) : a - 2; insert_after(p, a); insert_after(sgi[p ^ 1], b); continue; } // parallel to an edge: a bigon
    int x = (int)c.below(2 * e);                                   // corner (x, sigma x)
    if (kind == 1) { insert_after(x, a); sg[b] = sgi[b] = b; }
    else {
      // corners of the face containing corner (x, sigma x): the corner after dart x lies in the face left of dart x
      vector<int> cs; int d = x; do { cs.push_back(d); d = face_next(d); } while (d != x);
      int y = kind == 2 ? x : style && cs.size() > 1 ? cs[1 + c.below(cs.size() - 1)] : cs[c.below(cs.size())];
      if (y == x) { insert_after(x, a); insert_after(x, b); }   // corner then holds  x b a
      else { insert_after(x, a); insert_after(y, b); }
    }
  }
  Diag D; D.n = n; D.mate.assign(4 * n, -1); D.sign.assign(n, 2);
  for (int x = 0; x < 2 * n; x++) { int y = sg[x]; int p = 4 * (x / 2) + ((x & 1) ? 3 : 1), q = 4 * (y / 2) + ((y & 1) ? 0 : 2); D.mate[p] = q; D.mate[q] = p; }
  D.orient([&](int) { return false; });
  return D;
}
// medial of a highly symmetric plane graph: cycles (closed 2-braids), wheels, prisms, tetrahedron, cube, doubled stars
inline Diag from_rotation(const vector<vector<int>> &rot) { // darts around each vertex, dart d belongs to edge d/2
  int n = 0; for (auto &r : rot) for (int d : r) n = std::max(n, d / 2 + 1); vector<int> sg(2 * n); for (auto &r : rot) for (size_t i = 0; i < r.size(); i++) sg[r[i]] = r[(i + 1) % r.size()];
  Diag D; D.n = n; D.mate.assign(4 * n, -1); D.sign.assign(n, 2); for (int x = 0; x < 2 * n; x++) { int y = sg[x]; int p = 4 * (x / 2) + ((x & 1) ? 3 : 1), q = 4 * (y / 2) + ((y & 1) ? 0 : 2); D.mate[p] = q; D.mate[q] = p; } D.orient([&](int) { return false; }); return D; }
inline Diag symmetric_shadow(pbt::Case &c, int nmax) { vector<vector<int>> rot; auto ring = [&](int k, int e0) { vector<vector<int>> r(k); for (int i = 0; i < k; i++) { r[i].push_back(2 * (e0 + i)); r[i].push_back(2 * (e0 + (i + k - 1) % k) + 1); } return r; };
  switch (c.pick({3, 3, 2, 2, 1})) {
    case 0: rot = ring(c.range(1, nmax), 0); break;
    case 1: { int k = c.range(2, std::max(2, nmax / 2)); rot = ring(k, 0); vector<int> hub; for (int i = 0; i < k; i++) { rot[i].insert(rot[i].begin() + 1, 2 * (k + i)); hub.push_back(2 * (k + i) + 1); } rot.push_back(hub); break; }
    case 2: { int k = c.range(2, std::max(2, nmax / 3)); auto a = ring(k, 0), b = ring(k, k); for (int i = 0; i < k; i++) { a[i].insert(a[i].begin() + 1, 2 * (2 * k + i)); b[i].push_back(2 * (2 * k + i) + 1); } rot = a; rot.insert(rot.end(), b.begin(), b.end()); break; }
    case 3: { int k = c.range(1, std::max(1, nmax / 2)); vector<int> hub; for (int i = 0; i < k; i++) { hub.push_back(4 * i); hub.push_back(4 * i + 2); rot.push_back({4 * i + 3, 4 * i + 1}); } rot.push_back(hub); break; }
    default: { int k = c.range(1, nmax); rot.resize(2); for (int i = 0; i < k; i++) { rot[0].push_back(2 * i); rot[1].insert(rot[1].begin(), 2 * i + 1); } } }
  Diag D = from_rotation(rot); if (D.pieces() != 1 || (int)D.faces().size() != D.n + 2) { fprintf(stderr, "bad symmetric shadow\n"); abort(); } return D; }
// signs that make the diagram alternating: the level of a dart follows the checkerboard colour of the face on its left
inline void make_alternating(Diag &D, bool flip) {
  auto fs = D.faces(); vector<int> fo(4 * D.n); for (size_t i = 0; i < fs.size(); i++) for (int d : fs[i]) fo[d] = (int)i;
  vector<int> fc(fs.size(), -1); fc[0] = 0; for (bool ch = true; ch;) { ch = false; for (int d = 0; d < 4 * D.n; d++) { int a = fo[d], b = fo[D.mate[d]]; if (fc[a] >= 0 && fc[b] < 0) { fc[b] = 1 - fc[a]; ch = true; } } }
  for (int i = 0; i < D.n; i++) { int d = 4 * i, oi, oo, ui, uo; bool o = fc[fo[d]] ^ flip; D.sign[i] = 1; D.strands(i, oi, oo, ui, uo); if ((oi == d || oo == d) != o) D.sign[i] = 0; } }
inline void random_signs(pbt::Case &c, Diag &D) {
  D.orient([&](int) { return c.flag(); });
  if (c.chance(1, 2)) { make_alternating(D, c.flag()); if (c.flag()) for (auto &s : D.sign) if (c.chance(1, 5)) s = 1 - s; }
  else for (auto &s : D.sign) s = (int)c.below(2);
}
// mostly the usual size, now and then much larger (three-digit crossing and edge numbers)
inline int upto(pbt::Case &c, int usual) { return c.chance(1, 25) ? (c.chance(1, 5) ? (c.flag() ? 260 : 96) : 40) : usual; }
inline Diag random_diagram(pbt::Case &c, int nmin, int nmax) { int n = c.range(nmin, nmax); Diag D = random_shadow(c, n); random_signs(c, D); return D; }

// ---------------------------------------------------------------- transformations of the model
inline Diag mirror_signs(Diag D) { for (auto &s : D.sign) if (s != 2) s = 1 - s; return D; }
// reflection of the projection plane, over/under kept: positions reversed, signs flipped
inline Diag reflect(const Diag &D) {
  Diag R = D; auto f = [](int d) { return (d & ~3) | ((4 - (d & 3)) & 3); };
  for (int d = 0; d < 4 * D.n; d++) { R.mate[f(d)] = f(D.mate[d]); R.out[f(d)] = D.out[d]; if (!D.tag.empty()) R.tag[f(d)] = D.tag[d]; }
  for (auto &s : R.sign) if (s != 2) s = 1 - s; return R; }
inline Diag reverse_all(Diag D) { for (auto &o : D.out) o = !o; return D; }
inline void reverse_comp(Diag &D, int k) { auto cs = D.comps(); vector<char> in(4 * D.n, 0); for (int d : cs[k]) in[d] = in[D.mate[d]] = 1;
  for (int c = 0; c < D.n; c++) { bool a = in[4 * c], b = in[4 * c + 1]; if (a != b && D.sign[c] != 2) D.sign[c] = 1 - D.sign[c]; }
  for (int d = 0; d < 4 * D.n; d++) if (in[d]) D.out[d] = !D.out[d]; }
// random relabelling: crossings permuted, positions rotated
inline Diag relabel(pbt::Case &c, const Diag &D) { int n = D.n; vector<int> pi(n), ro(n); std::iota(pi.begin(), pi.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(pi[i], pi[c.below(i + 1)]); for (auto &r : ro) r = (int)c.below(4);
  Diag R = D; auto f = [&](int d) { return 4 * pi[d / 4] + ((d + ro[d / 4]) & 3); };
  for (int d = 0; d < 4 * n; d++) { R.mate[f(d)] = f(D.mate[d]); R.out[f(d)] = D.out[d]; if (!D.tag.empty()) R.tag[f(d)] = D.tag[d]; } for (int i = 0; i < n; i++) R.sign[pi[i]] = D.sign[i]; return R; }

// ---------------------------------------------------------------- canonical form of a connected diagram
// code of the map seen from dart s, with decoration chosen by flags
struct Deco { bool sign, orient, tag; };
inline vector<int> code_from(const Diag &D, int s, Deco k) {
  vector<int> num(D.n, -1), base(D.n, -1), order; vector<int> code; num[s / 4] = 0; base[s / 4] = s; order.push_back(s / 4);
  for (size_t i = 0; i < order.size(); i++) { int c = order[i], b = base[c];
    if (k.sign) code.push_back(-10 - D.sign[c]);
    for (int p = 0; p < 4; p++) { int d = 4 * c + ((b + p) & 3), m = D.mate[d], mc = m / 4;
      if (num[mc] < 0) { num[mc] = (int)order.size(); base[mc] = m; order.push_back(mc); }
      code.push_back(num[mc] * 4 + ((m - base[mc]) & 3));
      if (k.orient) code.push_back(-20 - D.out[d]); if (k.tag) code.push_back(-1000 - D.tag[d]); } }
  return code; }
inline vector<int> canon(const Diag &D, Deco k) { vector<int> best; for (int s = 0; s < 4 * D.n; s++) { auto v = code_from(D, s, k); if (best.empty() || v < best) best = v; } return best; }
inline int count_matches(const Diag &D, const vector<int> &code, Deco k) { int r = 0; for (int s = 0; s < 4 * D.n; s++) if (code_from(D, s, k) == code) r++; return r; }

// ---------------------------------------------------------------- link invariants, from signed Gauss codes
struct Gauss { vector<vector<pair<int, bool>>> comp; map<int, int> sign; int free_circles = 0; }; // (crossing, over?)
inline Gauss gauss(const Diag &D) { Gauss G; vector<int> oi(D.n), oo(D.n), ui(D.n), uo(D.n); for (int c = 0; c < D.n; c++) { D.strands(c, oi[c], oo[c], ui[c], uo[c]); G.sign[c] = D.sign[c] ? 1 : -1; }
  for (auto &cv : D.comps()) { vector<pair<int, bool>> v; for (int d : cv) v.push_back({d / 4, oo[d / 4] == d}); G.comp.push_back(v); } return G; }
// polynomial in (l, m): P(unknot)=1,  l P(L+) + l^-1 P(L-) + m P(L0) = 0
typedef map<pair<int, int>, long long> Poly;
inline void padd(Poly &a, const Poly &b, long long k, int dl, int dm) { for (auto &t : b) { auto key = std::make_pair(t.first.first + dl, t.first.second + dm); a[key] += k * t.second; if (a[key] == 0) a.erase(key); } }
inline Poly pmul(const Poly &a, const Poly &b) { Poly r; for (auto &t : a) padd(r, b, t.second, t.first.first, t.first.second); return r; }
inline string pstr(const Poly &p) { string s; for (auto &t : p) { char b[64]; snprintf(b, 64, "%+lld l^%d m^%d ", t.second, t.first.first, t.first.second); s += b; } return s.empty() ? "0" : s; }
inline Poly unlink_poly(int k) { Poly d; d[{1, -1}] = -1; d[{-1, -1}] = -1; Poly r; r[{0, 0}] = 1; for (int i = 1; i < k; i++) r = pmul(r, d); return r; }
struct Homfly {
  long budget; bool over = false;
  Homfly(long b = 200000) : budget(b) {}
  static void drop(Gauss &G, int c) { for (auto &v : G.comp) v.erase(std::remove_if(v.begin(), v.end(), [&](const pair<int, bool> &x) { return x.first == c; }), v.end()); G.sign.erase(c); }
  static void simplify(Gauss &G) { // kinks (the two passages adjacent) are removable; also adjacent same-level opposite pairs (R2) when sign-consistent are left alone
    bool ch = true; while (ch) { ch = false; for (auto &v : G.comp) { size_t k = v.size(); if (k < 2) continue; for (size_t i = 0; i < k; i++) if (v[i].first == v[(i + 1) % k].first) { drop(G, v[i].first); ch = true; break; } if (ch) break; } } }
  Poly run(Gauss G) {
    if (--budget < 0) { over = true; return Poly(); }
    simplify(G);
    // descending check
    std::set<int> met;
    for (size_t ci = 0; ci < G.comp.size(); ci++) for (size_t i = 0; i < G.comp[ci].size(); i++) { auto x = G.comp[ci][i]; if (met.count(x.first)) continue; met.insert(x.first);
      if (!x.second) { int c = x.first, s = G.sign[c];
        Gauss S = G; for (auto &v : S.comp) for (auto &y : v) if (y.first == c) y.second = !y.second; S.sign[c] = -s;
        // smoothing: find the two passages
        Gauss Z = G; int a = -1, b = -1; size_t ia = 0, ib = 0; for (size_t k = 0; k < Z.comp.size(); k++) for (size_t j = 0; j < Z.comp[k].size(); j++) if (Z.comp[k][j].first == c) { if (a < 0) { a = (int)k; ia = j; } else { b = (int)k; ib = j; } }
        if (a == b) { auto v = Z.comp[a]; vector<pair<int, bool>> p(v.begin() + ia + 1, v.begin() + ib), q(v.begin() + ib + 1, v.end()); q.insert(q.end(), v.begin(), v.begin() + ia); Z.comp[a] = q; Z.comp.push_back(p); }
        else { auto v = Z.comp[a], w = Z.comp[b]; vector<pair<int, bool>> r(v.begin(), v.begin() + ia); r.insert(r.end(), w.begin() + ib + 1, w.end()); r.insert(r.end(), w.begin(), w.begin() + ib); r.insert(r.end(), v.begin() + ia + 1, v.end()); Z.comp[a] = r; Z.comp.erase(Z.comp.begin() + b); }
        Z.sign.erase(c);
        Poly ps = run(S), pz = run(Z), r; if (over) return Poly();
        // s=+1: l P+ = -l^-1 P- - m P0  =>  P+ = -l^-2 P- - l^-1 m P0 ;  s=-1: P- = -l^2 P+ - l m P0
        padd(r, ps, -1, -2 * s, 0); padd(r, pz, -1, -s, 1); return r; } }
    return unlink_poly((int)G.comp.size());
  }
};
inline Poly homfly(const Diag &D, bool *ok = nullptr, long budget = 200000) { Homfly h(budget); Poly p = h.run(gauss(D)); if (ok) *ok = !h.over; return p; }
inline vector<vector<int>> linking(const Diag &D) { auto cs = D.comps(); vector<int> co(4 * D.n); for (size_t k = 0; k < cs.size(); k++) for (int d : cs[k]) co[d] = co[D.mate[d]] = (int)k; vector<vector<int>> L(cs.size(), vector<int>(cs.size(), 0));
  for (int c = 0; c < D.n; c++) { int a = co[4 * c], b = co[4 * c + 1]; if (a != b) { int s = D.sign[c] == 1 ? 1 : -1; L[a][b] += s; L[b][a] += s; } } return L; } // twice the linking number

// ---------------------------------------------------------------- library converters
// pd code with arbitrary (random) edge numbers, crossings in the order of the model.
// with_edges: also fill in the edge records so that signs survive pd_regenerate.
struct PdMap { vector<int> edge_of_dart; };
inline pd_code_t *raw_pd(pbt::Case &c, const Diag &D, bool with_edges, PdMap *pm = nullptr, int slack = 0) {
  int n = D.n; pd_code_t *pd = pd_code_new(n + slack); pd->ncross = n; pd->nedges = 2 * n;
  vector<int> id(2 * n); std::iota(id.begin(), id.end(), 0); for (int i = 2 * n - 1; i > 0; i--) std::swap(id[i], id[c.below(i + 1)]);
  vector<int> eo(4 * n, -1); int k = 0; for (int d = 0; d < 4 * n; d++) if (D.out[d]) { int e = id[k++]; eo[d] = eo[D.mate[d]] = e; }
  for (int i = 0; i < n; i++) { for (int p = 0; p < 4; p++) pd->cross[i].edge[p] = eo[4 * i + p]; pd->cross[i].sign = with_edges ? (D.sign[i] == 1 ? PD_POS_ORIENTATION : D.sign[i] == 0 ? PD_NEG_ORIENTATION : PD_UNSET_ORIENTATION) : PD_UNSET_ORIENTATION; }
  if (with_edges) for (int d = 0; d < 4 * n; d++) if (D.out[d]) { pd_edge_t &e = pd->edge[eo[d]]; e.tail = d / 4; e.tailpos = d & 3; e.head = D.mate[d] / 4; e.headpos = D.mate[d] & 3; }
  if (pm) pm->edge_of_dart = eo; return pd; }
inline pd_code_t *make_pd(pbt::Case &c, const Diag &D, int slack = 0) { pd_code_t *pd = raw_pd(c, D, true, nullptr, slack); pd_regenerate(pd); return pd; }

struct Bad { string why; };
inline string vfmt(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, 400, f, a); va_end(a); return b; }
#define VCHK(cond, ...) do { if (!(cond)) throw dg::Bad{dg::vfmt(__VA_ARGS__)}; } while (0)
// back: reads crossings and edge records only; fails the case when they are inconsistent
inline Diag from_pd_x(const pd_code_t *pd, const char *what) {
  Diag D; D.n = pd->ncross; int n = D.n; D.mate.assign(4 * n, -1); D.out.assign(4 * n, 0); D.tag.assign(4 * n, 0); D.sign.resize(n);
  VCHK((int)pd->nedges == 2 * n || n == 0, "%s: %u edges for %d crossings", what, pd->nedges, n);
  for (int e = 0; e < (int)pd->nedges && n; e++) { const pd_edge_t &E = pd->edge[e];
    VCHK(E.head < (unsigned)n && E.tail < (unsigned)n && E.headpos < 4 && E.tailpos < 4, "%s: edge %d has bad ends %u,%u -> %u,%u", what, e, E.tail, E.tailpos, E.head, E.headpos);
    int a = 4 * E.tail + E.tailpos, b = 4 * E.head + E.headpos;
    VCHK(a != b && D.mate[a] < 0 && D.mate[b] < 0, "%s: edge %d reuses a crossing position", what, e);
    VCHK((int)pd->cross[E.tail].edge[E.tailpos] == e && (int)pd->cross[E.head].edge[E.headpos] == e, "%s: edge %d disagrees with the crossing records", what, e);
    D.mate[a] = b; D.mate[b] = a; D.out[a] = 1; D.out[b] = 0; }
  for (int i = 0; i < n; i++) { int s = pd->cross[i].sign; VCHK(s == PD_POS_ORIENTATION || s == PD_NEG_ORIENTATION || s == PD_UNSET_ORIENTATION, "%s: crossing %d has illegal sign %d", what, i, s); D.sign[i] = s == PD_POS_ORIENTATION ? 1 : s == PD_NEG_ORIENTATION ? 0 : 2; }
  for (int d = 0; d < 4 * n; d++) VCHK(D.out[d] != D.out[Diag::opp(d)], "%s: strand direction flips at crossing %d", what, d / 4);
  for (unsigned k = 0; k < pd->ncomps; k++) for (unsigned i = 0; i < pd->comp[k].nedges; i++) { unsigned e = pd->comp[k].edge[i]; if (n && e < pd->nedges) { D.tag[4 * pd->edge[e].tail + pd->edge[e].tailpos] = D.tag[4 * pd->edge[e].head + pd->edge[e].headpos] = (unsigned char)pd->comp[k].tag; } }
  return D; }

// Full independent validity of a pd code (everything a consumer reads).  Never uses pd_ok.
inline void check_valid_x(const pd_code_t *pd, const char *what, bool tags = true) {
  VCHK(pd != nullptr, "%s: NULL pd code", what);
  if (pd->ncross == 0) {
    VCHK(pd->nedges == 1 && pd->ncomps == 1 && pd->nfaces == 2, "%s: 0-crossing code has %u edges %u components %u faces", what, pd->nedges, pd->ncomps, pd->nfaces);
    VCHK(pd->comp[0].nedges == 1 && pd->comp[0].edge[0] == 0, "%s: 0-crossing component record", what);
    VCHK(pd->face[0].nedges == 1 && pd->face[1].nedges == 1 && pd->face[0].edge[0] == 0 && pd->face[1].edge[0] == 0, "%s: 0-crossing face records", what);
    VCHK(pd->edge[0].head == PD_UNSET_IDX && pd->edge[0].tail == PD_UNSET_IDX, "%s: 0-crossing edge record", what); return; }
  Diag D = from_pd_x(pd, what); int n = D.n;
  VCHK(D.pieces() == 1, "%s: disconnected diagram", what);
  VCHK((int)D.faces().size() == n + 2, "%s: not planar (%zu faces for %d crossings)", what, D.faces().size(), n);
  for (int i = 1; i < n; i++) { int r = 0; for (int p = 0; p < 4 && !r; p++) r = pd->cross[i - 1].edge[p] < pd->cross[i].edge[p] ? -1 : pd->cross[i - 1].edge[p] > pd->cross[i].edge[p]; VCHK(r <= 0, "%s: crossings %d and %d out of order", what, i - 1, i); }
  for (int i = 0; i < n; i++) for (int p = 1; p < 4; p++) VCHK(pd->cross[i].edge[0] <= pd->cross[i].edge[p], "%s: crossing %d not rotated lowest edge first", what, i);
  // components: consecutive edges, head to tail, all edges once, right number
  int cnt = 0; VCHK(pd->ncomps == D.comps().size(), "%s: %u component records, diagram has %zu", what, pd->ncomps, D.comps().size());
  std::set<int> tg;
  for (unsigned k = 0; k < pd->ncomps; k++) { const pd_component_t &C = pd->comp[k]; VCHK(C.nedges > 0, "%s: empty component", what);
    for (unsigned i = 0; i < C.nedges; i++) { VCHK((int)C.edge[i] == cnt, "%s: component %u edge %u is %u, expected %d", what, k, i, C.edge[i], cnt); cnt++;
      unsigned nx = C.edge[(i + 1) % C.nedges]; VCHK(nx < pd->nedges, "%s: bad edge in component", what);
      VCHK(pd->edge[C.edge[i]].head == pd->edge[nx].tail && ((pd->edge[C.edge[i]].headpos + 2) & 3) == pd->edge[nx].tailpos, "%s: component %u does not continue straight at edge %u", what, k, C.edge[i]); }
    if (tags) { VCHK(C.tag >= 'A' && tg.insert(C.tag).second, "%s: component %u has bad or repeated tag %d", what, k, C.tag); } }
  VCHK(cnt == (int)pd->nedges, "%s: components cover %d of %u edges", what, cnt, pd->nedges);
  // faces
  VCHK((int)pd->nfaces == n + 2, "%s: %u face records for %d crossings", what, pd->nfaces, n);
  vector<int> seen(4 * n, 0);
  for (unsigned f = 0; f < pd->nfaces; f++) { const pd_face_t &F = pd->face[f]; VCHK(F.nedges > 0, "%s: empty face", what); vector<int> dl;
    for (unsigned i = 0; i < F.nedges; i++) { VCHK(F.edge[i] < pd->nedges && (F.orient[i] == PD_POS_ORIENTATION || F.orient[i] == PD_NEG_ORIENTATION), "%s: face %u bad entry", what, f); const pd_edge_t &E = pd->edge[F.edge[i]]; int d = F.orient[i] == PD_POS_ORIENTATION ? 4 * E.tail + E.tailpos : 4 * E.head + E.headpos; VCHK(!seen[d]++, "%s: face %u repeats a side of edge %u", what, f, F.edge[i]); dl.push_back(d); }
    for (unsigned i = 0; i < F.nedges; i++) VCHK(Diag::cw(D.mate[dl[i]]) == dl[(i + 1) % F.nedges], "%s: face %u does not turn left after edge %u", what, f, F.edge[i]);
    for (unsigned i = 1; i < F.nedges; i++) VCHK(F.edge[0] <= F.edge[i], "%s: face %u not rotated lowest edge first", what, f);
    if (f) { const pd_face_t &G = pd->face[f - 1]; VCHK(G.nedges >= F.nedges, "%s: faces not sorted by size", what); if (G.nedges == F.nedges) VCHK(!std::lexicographical_compare(F.edge, F.edge + F.nedges, G.edge, G.edge + G.nedges), "%s: faces %u and %u out of order", what, f - 1, f); } }
}
inline Diag from_pd(pbt::Case &c, const pd_code_t *pd, const char *what) { try { return from_pd_x(pd, what); } catch (Bad &b) { c.fail("%s", b.why.c_str()); } }
inline void check_valid(pbt::Case &c, const pd_code_t *pd, const char *what, bool tags = true) { try { check_valid_x(pd, what, tags); } catch (Bad &b) { c.fail("%s", b.why.c_str()); } }
inline string validity_error(const pd_code_t *pd, bool tags = true) { try { check_valid_x(pd, "pd", tags); return ""; } catch (Bad &b) { return b.why; } }
inline string pd_text(const pd_code_t *pd) { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_write(f, (pd_code_t *)pd); fclose(f); string s(b, z); free(b); return s; }
// every recorded field, independently of the library's own writer
inline string pd_dump(const pd_code_t *pd) { string s; char b[80]; auto put = [&](const char *f, auto... v) { snprintf(b, 80, f, v...); s += b; }; put("uid %llu hash ", (unsigned long long)pd->uid); s += string(pd->hash, strnlen(pd->hash, PD_HASHSIZE)); put("\ncrossings %u:", (unsigned)pd->ncross); for (unsigned i = 0; i < pd->ncross; i++) { auto &x = pd->cross[i]; put(" %u,%u,%u,%u%c", (unsigned)x.edge[0], (unsigned)x.edge[1], (unsigned)x.edge[2], (unsigned)x.edge[3], x.sign == PD_POS_ORIENTATION ? '+' : x.sign == PD_NEG_ORIENTATION ? '-' : x.sign == PD_UNSET_ORIENTATION ? '?' : '!'); }
  put("\nedges %u:", (unsigned)pd->nedges); for (unsigned i = 0; i < pd->nedges; i++) { auto &e = pd->edge[i]; put(" %u,%u->%u,%u", (unsigned)e.tail, (unsigned)e.tailpos, (unsigned)e.head, (unsigned)e.headpos); } put("\ncomponents %u:", (unsigned)pd->ncomps); for (unsigned i = 0; i < pd->ncomps; i++) { auto &k = pd->comp[i]; put(" [%d:", k.tag); for (unsigned j = 0; j < k.nedges; j++) put(" %u", (unsigned)k.edge[j]); s += "]"; }
  put("\nfaces %u:", (unsigned)pd->nfaces); for (unsigned i = 0; i < pd->nfaces; i++) { auto &f = pd->face[i]; s += " ["; for (unsigned j = 0; j < f.nedges; j++) put(" %c%u", f.orient[j] == PD_POS_ORIENTATION ? '+' : f.orient[j] == PD_NEG_ORIENTATION ? '-' : '?', (unsigned)f.edge[j]); s += "]"; } return s + "\n"; }
inline string show(const Diag &D) { string s; char b[80]; auto cs = D.comps(); vector<int> e(4 * D.n, 0); int k = 0; for (auto &v : cs) for (int d : v) { e[d] = e[D.mate[d]] = k++; } snprintf(b, 80, "%d crossings %zu components:", D.n, cs.size()); s = b; for (int c = 0; c < D.n; c++) { snprintf(b, 80, " [%d %d %d %d %c]", e[4 * c], e[4 * c + 1], e[4 * c + 2], e[4 * c + 3], D.sign[c] == 1 ? '+' : D.sign[c] == 0 ? '-' : 'U'); s += b; if (s.size() > 1200) break; } return s; }
}
