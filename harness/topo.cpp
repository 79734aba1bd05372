// C21 diagrams of space curves; C23 knot types.
#include "diag.hpp"
#include "model_moves.hpp"
#include "curve.hpp"
#include <gsl/gsl_rng.h>
using namespace dg;
using cv::operator+; using cv::operator-; using cv::operator*;
namespace {
typedef vector<vector<cv::V>> Poly3;
static double segdist(cv::V p, cv::V q, cv::V r, cv::V s) { // distance of two segments, by brute clamping
  using namespace cv; auto pt = [](V x, V a, V b) { double L = dot(b - a, b - a), t = L > 0 ? dot(x - a, b - a) / L : 0; t = std::min(1.0, std::max(0.0, t)); return dist(x, a + t * (b - a)); };
  double d = std::min(std::min(pt(p, r, s), pt(q, r, s)), std::min(pt(r, p, q), pt(s, p, q)));
  V u = q - p, v = s - r, w = p - r; double a = dot(u, u), b = dot(u, v), e = dot(v, v), D = a * e - b * b; if (D > 1e-14 * a * e) { double t1 = (b * dot(v, w) - e * dot(u, w)) / D, t2 = (a * dot(v, w) - b * dot(u, w)) / D; if (t1 >= 0 && t1 <= 1 && t2 >= 0 && t2 <= 1) d = std::min(d, dist(p + t1 * u, r + t2 * v)); }
  return d; }
// smallest distance of non-adjacent edges; -1 when adjacent edges fold back or an edge has no length
static double clearance(const Poly3 &P) { double m = 1e9; struct E { int k, i; }; vector<E> es; for (size_t k = 0; k < P.size(); k++) for (size_t i = 0; i < P[k].size(); i++) es.push_back({(int)k, (int)i});
  auto at = [&](E e, int o) { auto &v = P[e.k]; return v[(e.i + o) % v.size()]; };
  for (size_t x = 0; x < es.size(); x++) { E a = es[x]; int n = (int)P[a.k].size(); cv::V u = at(a, 1) - at(a, 0), w = at(a, 2) - at(a, 1); if (cv::norm(u) < 1e-9) return -1; m = std::min(m, cv::norm(u)); if (M_PI - cv::angle(u, w) < 0.02) return -1;
    for (size_t y = x + 1; y < es.size(); y++) { E b = es[y]; if (a.k == b.k && (b.i == a.i + 1 || (a.i + n - 1) % n == b.i)) continue; m = std::min(m, segdist(at(a, 0), at(a, 1), at(b, 0), at(b, 1))); } }
  return m; }
// diagram of the projection along z; false when it is not generic by a margin
static bool project(const Poly3 &P, Diag &D, vector<int> &compOf, double margin) {
  struct H { double s; int x; bool over; }; vector<vector<H>> hits(P.size()); struct X { double ang[4]; int sign; }; vector<array<double, 4>> dirs; vector<int> sg; // dirs: over ux uy, under vx vy
  struct E { int k, i; }; vector<E> es; for (size_t k = 0; k < P.size(); k++) for (size_t i = 0; i < P[k].size(); i++) es.push_back({(int)k, (int)i});
  auto at = [&](E e, int o) { auto &v = P[e.k]; return v[(e.i + o) % v.size()]; };
  for (size_t x = 0; x < es.size(); x++) for (size_t y = x + 1; y < es.size(); y++) { E a = es[x], b = es[y]; int n = (int)P[a.k].size(); bool adj = a.k == b.k && (b.i == a.i + 1 || (a.i + n - 1) % n == b.i); cv::V p = at(a, 0), q = at(a, 1), r = at(b, 0), s = at(b, 1);
    double ux = q.c[0] - p.c[0], uy = q.c[1] - p.c[1], vx = s.c[0] - r.c[0], vy = s.c[1] - r.c[1], lu = hypot(ux, uy), lv = hypot(vx, vy); if (lu < margin || lv < margin) return false; double cr = ux * vy - uy * vx;
    if (adj) { if (fabs(cr) < 1e-3 * lu * lv && ux * vx + uy * vy < 0) return false; continue; }
    cv::V p2 = p, q2 = q, r2 = r, s2 = s; p2.c[2] = q2.c[2] = r2.c[2] = s2.c[2] = 0; auto pt = [](cv::V x, cv::V a, cv::V b) { double L = cv::dot(b - a, b - a), t = cv::dot(x - a, b - a) / L; t = std::min(1.0, std::max(0.0, t)); return cv::dist(x, a + t * (b - a)); };
    if (std::min(std::min(pt(p2, r2, s2), pt(q2, r2, s2)), std::min(pt(r2, p2, q2), pt(s2, p2, q2))) < margin) return false; // vertex close to an edge in projection
    if (fabs(cr) < 1e-12) continue; double wx = r.c[0] - p.c[0], wy = r.c[1] - p.c[1], t1 = (wx * vy - wy * vx) / cr, t2 = (wx * uy - wy * ux) / cr; if (t1 <= 0 || t1 >= 1 || t2 <= 0 || t2 >= 1) continue; if (fabs(cr) < 1e-3 * lu * lv) return false;
    double za = p.c[2] + t1 * (q.c[2] - p.c[2]), zb = r.c[2] + t2 * (s.c[2] - r.c[2]); if (fabs(za - zb) < 1e-9) return false; bool ao = za > zb; int id = (int)dirs.size(); dirs.push_back(ao ? array<double, 4>{ux, uy, vx, vy} : array<double, 4>{vx, vy, ux, uy}); sg.push_back((ao ? cr : -cr) > 0 ? 1 : 0);
    hits[a.k].push_back({a.i + t1, id, ao}); hits[b.k].push_back({b.i + t2, id, !ao}); }
  for (auto &h : hits) { std::sort(h.begin(), h.end(), [](const H &a, const H &b) { return a.s < b.s; }); for (size_t i = 0; i + 1 < h.size(); i++) if (h[i + 1].s - h[i].s < 1e-4) return false; }
  D = Diag(); D.n = (int)dirs.size(); D.mate.assign(4 * D.n, -1); D.out.assign(4 * D.n, 0); D.sign = sg; compOf.assign(4 * D.n, -1);
  // positions counter-clockwise: under_in = 0; positive: under_in, over_out, under_out, over_in; negative: under_in, over_in, under_out, over_out
  auto dart = [&](int x, bool over, bool out) { if (!over) return 4 * x + (out ? 2 : 0); return 4 * x + ((sg[x] == 1) == out ? 1 : 3); };
  for (size_t k = 0; k < P.size(); k++) for (size_t i = 0; i < hits[k].size(); i++) { auto &a = hits[k][i], &b = hits[k][(i + 1) % hits[k].size()]; int o = dart(a.x, a.over, true), in = dart(b.x, b.over, false); D.mate[o] = in; D.mate[in] = o; D.out[o] = 1; compOf[o] = compOf[in] = (int)k; }
  return true; }
static vector<vector<int>> lkmat(const Diag &D, const vector<int> &compOf, int nc) { vector<vector<int>> L(nc, vector<int>(nc, 0)); for (int x = 0; x < D.n; x++) { int a = compOf[4 * x], b = compOf[4 * x + 1]; if (a != b) { L[a][b] += D.sign[x] ? 1 : -1; L[b][a] = L[a][b]; } } return L; } // twice the linking numbers
static bool linked(const vector<vector<int>> &L) { int n = (int)L.size(); vector<char> s(n, 0); vector<int> q{0}; s[0] = 1; while (!q.empty()) { int x = q.back(); q.pop_back(); for (int y = 0; y < n; y++) if (!s[y] && L[x][y]) { s[y] = 1; q.push_back(y); } } for (char x : s) if (!x) return false; return true; }
static Poly3 rotate(const Poly3 &P, cv::V ax, double t) { Poly3 Q = P; for (auto &v : Q) for (auto &x : v) x = cv::rot(x, ax, t); return Q; }
static plCurve *tocurve(const Poly3 &P) { vector<int> nv, cc; bool op[16]; for (size_t k = 0; k < P.size(); k++) { nv.push_back((int)P[k].size()); cc.push_back(0); op[k] = false; } plCurve *L = plc_new((int)P.size(), nv.data(), op, cc.data()); for (size_t k = 0; k < P.size(); k++) for (size_t i = 0; i < P[k].size(); i++) L->cp[k].vt[i] = P[k][i]; plc_fix_wrap(L); return L; }
static string show3(const Poly3 &P) { string s; char b[90]; for (auto &v : P) { s += "["; for (auto &x : v) { snprintf(b, 90, "(%.17g,%.17g,%.17g)", x.c[0], x.c[1], x.c[2]); s += b; } s += "] "; } return s; }
static string curve_text(plCurve *L) { string s; for (int k = 0; k < L->nc; k++) { s += std::to_string(L->cp[k].nv); s.append((char *)(L->cp[k].vt - 1), sizeof(plc_vector) * (L->cp[k].nv + 2)); } return s; }
struct Rng { gsl_rng *r; Rng(pbt::Case &c) { r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, 1 + c.below(1 << 30)); srand((unsigned)c.below(1 << 30)); } ~Rng() { gsl_rng_free(r); } };
// polynomial of a diagram: reference when it is small enough, otherwise the library's, checked elsewhere
static bool poly_of(pbt::Case &c, const Diag &D, Poly &p, bool &byRef) { bool ok = false; if (D.n <= 16) { p = homfly(D, &ok, 30000); if (ok) { byRef = true; return true; } } return false; }
static string lib_poly(pbt::Case &c, const Diag &D) { pd_code_t *pd = make_pd(c, D); char *h = pd_homfly_timeout(pd, 120); string s = h ? h : "(none)"; free(h); pd_code_free(&pd); return s; }
static void check_code(pbt::Case &c, const Poly3 &P, const Diag &M, const vector<int> &mc, plCurve *L, pd_code_t *pd) {
  CHECK(c, pd, "no diagram was produced"); CHECK(c, pd_ok(pd), "the code is not valid"); check_valid(c, pd, "code of the curve"); CHECK(c, pd->ncomps == P.size(), "%u components for a curve with %zu", (unsigned)pd->ncomps, P.size()); Diag R = from_pd(c, pd, "code of the curve"); for (int s : R.sign) CHECK(c, s != 2, "a crossing has no sign");
  c.labelf("crossings<=%d", (M.n / 5 + 1) * 5);
  auto lk = [&](const vector<vector<int>> &L) { vector<vector<int>> t; for (size_t i = 0; i < L.size(); i++) { vector<int> r; for (size_t j = 0; j < L.size(); j++) if (j != i) r.push_back(L[i][j]); std::sort(r.begin(), r.end()); t.push_back(r); } std::sort(t.begin(), t.end()); return t; };
  CHECK(c, lk(lkmat(M, mc, (int)P.size())) == lk(linking(R)), "linking numbers of the diagram differ from those of the curve: %s", show(R).c_str());
  if (M.n == 0) { Poly p; bool rf; if (R.n && poly_of(c, R, p, rf)) { Poly one; one[{0, 0}] = 1; CHECK(c, p == one, "a round circle got the diagram %s", show(R).c_str()); } return; }
  Poly a, b; bool ra = false, rb = false; if (poly_of(c, M, a, ra) && poly_of(c, R, b, rb)) { c.labelf("terms=%zu", std::min<size_t>(a.size(), 12)); CHECK(c, a == b, "the diagram has polynomial %s, the curve %s: %s", pstr(b).c_str(), pstr(a).c_str(), show(R).c_str()); }
  else { string x = lib_poly(c, M), y = lib_poly(c, R); c.label("large"); CHECK(c, x == y, "the diagram has polynomial %s, the curve %s: %s", y.c_str(), x.c_str(), show(R).c_str()); } }
}
static Poly3 gpolygon(pbt::Case &c, int nc, int nmax, bool box) { Poly3 P; for (int k = 0; k < nc; k++) { int n = c.range(3, nmax); vector<cv::V> v; for (int i = 0; i < n; i++) v.push_back(box ? cv::vec(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)) : cv::vec(c.gauss(), c.gauss(), c.gauss())); if (c.chance(1, 8)) { int m = c.range(20, 150) / nc; while ((int)v.size() < m) { size_t i = c.below(v.size()); cv::V a = v[i], b = v[(i + 1) % v.size()]; double t = c.real(0.2, 0.8); v.insert(v.begin() + i + 1, cv::vec((1 - t) * a.c[0] + t * b.c[0] + c.real(-0.01, 0.01), (1 - t) * a.c[1] + t * b.c[1] + c.real(-0.01, 0.01), (1 - t) * a.c[2] + t * b.c[2] + c.real(-0.01, 0.01))); } c.label("many vertices"); }
    P.push_back(v); } return P; }
PROPERTY(C21, generic_curves, 12000, 300000, 60, "at least 3 crossings in projection") {
  int nc = c.pick({6, 3, 1}) + 1; Poly3 P = gpolygon(c, nc, nc == 1 ? (c.chance(1, 6) ? 16 : 10) : 7, c.flag()); double sc = pow(10.0, c.pick({4, 1, 1, 1}) == 0 ? 0 : c.real(-1, 2)); for (auto &v : P) for (auto &x : v) x = sc * x; c.note("%s", show3(P).c_str());
  Diag M; vector<int> mc; if (clearance(P) < 2e-3 * sc || !project(P, M, mc, 1e-3 * sc)) c.discard("not generic by a margin"); if (nc > 1 && (M.n == 0 || M.pieces() > 1)) c.discard("split projection"); for (int k = 0; nc > 1 && k < nc; k++) if (std::find(mc.begin(), mc.end(), k) == mc.end()) c.discard("split projection"); c.nontrivial(M.n >= 3); c.labelf("comps=%d", nc);
  plCurve *L = tocurve(P); string before = curve_text(L); Rng r(c); pd_code_t *pd = pd_code_from_plCurve(r.r, L); CHECK(c, curve_text(L) == before, "the curve was changed"); check_code(c, P, M, mc, L, pd);
  if (c.chance(1, 4)) { char *h = plc_homfly(r.r, L); CHECK(c, h, "no polynomial"); string y = lib_poly(c, from_pd(c, pd, "code")); CHECK(c, y == h, "the polynomial of the curve is %s, of its diagram %s", h, y.c_str()); free(h); CHECK(c, curve_text(L) == before, "the curve was changed"); }
  plc_free(L); pd_code_free(&pd);
}
PROPERTY(C21, degenerate_projections, 60000, 1500000, 60, "vertices on a small integer grid: vertical edges, overlapping edges and multiple points in projection") {
  int nc = c.pick({4, 1}) + 1, g = c.range(1, 4), style = c.pick({3, 2}); Poly3 P; for (int k = 0; k < nc; k++) { vector<cv::V> v; if (style == 0) { int n = c.range(3, nc == 1 ? 10 : 6); for (int i = 0; i < n; i++) v.push_back(cv::vec(c.range(0, g), c.range(0, g), c.range(0, g))); }
    else { // lattice walk closed up along the axes
      int n = c.range(2, c.chance(1, 3) ? 20 : 7), last = -1; cv::V x = cv::vec(c.range(0, g), c.range(0, g), c.range(0, g)); v.push_back(x); for (int i = 0; i < n; i++) { int a = (int)c.below(3); if (a == last) a = (a + 1) % 3; last = a; double o = x.c[a]; x.c[a] = c.range(0, g); if (x.c[a] == o) continue; v.push_back(x); } for (int a = 0; a < 3; a++) if (a != 2 && x.c[a] != v[0].c[a]) { x.c[a] = v[0].c[a]; v.push_back(x); } if (v.size() > 1 && memcmp(&v.back(), &v[0], sizeof x) == 0) v.pop_back(); }
    if (v.size() < 3) c.discard("too small"); P.push_back(v); }
  c.note("%s", show3(P).c_str()); if (clearance(P) < 1e-6) c.discard("self-intersecting"); double sc = c.pick({3, 1, 1}); sc = sc == 0 ? 1 : sc == 1 ? 0.02 : 30; c.labelf("scale=%g", sc);
  // model: a generic view
  Diag M; vector<int> mc; bool ok = false; for (int t = 0; t < 12 && !ok; t++) { cv::V ax = cv::vec(0.3 + 0.11 * t, 0.7 - 0.07 * t, 0.41); ax = (1 / cv::norm(ax)) * ax; ok = project(rotate(P, ax, 1.1 + 0.37 * t), M, mc, 1e-3); } if (!ok) c.discard("no generic view found"); if (nc > 1 && !linked(lkmat(M, mc, nc))) c.discard("possibly split"); if (M.n > 40) c.discard("large"); c.nontrivial(M.n >= 1);
  Poly3 S = P; for (auto &v : S) for (auto &x : v) x = sc * x; plCurve *L = tocurve(S); string before = curve_text(L); Rng r(c); pd_code_t *pd = pd_code_from_plCurve(r.r, L); CHECK(c, curve_text(L) == before, "the curve was changed"); check_code(c, P, M, mc, L, pd); plc_free(L); pd_code_free(&pd);
}

// ---------------------------------------------------------------- C23
struct Rolf { int cr, ind; vector<int> x; };
static const vector<Rolf> &rolfsen() { static const vector<Rolf> t = {
#include "rolfsen.hpp"
}; return t; }
// KnotTheory code of a knot -> diagram
static Diag kt_diag(const vector<int> &x) { Diag D; D.n = (int)x.size() / 4; int N = 2 * D.n; D.mate.assign(4 * D.n, -1); D.out.assign(4 * D.n, 0); map<int, vector<int>> at; for (int d = 0; d < 4 * D.n; d++) at[x[d]].push_back(d); for (auto &p : at) { D.mate[p.second[0]] = p.second[1]; D.mate[p.second[1]] = p.second[0]; }
  for (int c = 0; c < D.n; c++) { int j = x[4 * c + 1], l = x[4 * c + 3]; bool ltoj = j == l % N + 1; D.out[4 * c + 2] = 1; D.out[4 * c + (ltoj ? 1 : 3)] = 1; D.sign.push_back(ltoj ? 1 : 0); } return D; }
static Poly pmirror(const Poly &p) { Poly r; for (auto &t : p) r[{-t.first.first, t.first.second}] = t.second; return r; }
static const Poly &rolf_poly(int i) { static map<int, Poly> m; auto it = m.find(i); if (it == m.end()) { bool ok; Poly p = homfly(kt_diag(rolfsen()[i].x), &ok, 100000000); it = m.insert({i, p}).first; } return it->second; }
static Poly parse_lm(pbt::Case &c, const char *s) { Poly p; struct Row { vector<long> v; int zero; bool m0; }; vector<Row> rows; const char *q = s; while (*q == ' ') q++;
  while (*q) { Row r; r.zero = -1; r.m0 = false; int depth = 0; const char *st = q; for (; *q && *q != 'N'; ) { if (*q == '[') { const char *z = q; if (z == st) { // row bracket or zero bracket?
            int opens = 0; for (const char *y = q; *y && *y != 'N'; y++) opens += *y == '['; if (opens == 2) r.m0 = true; else r.zero = (int)r.v.size(); } else r.zero = (int)r.v.size(); q++; } else if (*q == ']' || *q == ' ') q++; else { char *e; long v = strtol(q, &e, 10); CHECK(c, e != q, "unreadable polynomial '%s'", s); r.v.push_back(v); q = e; } } CHECK(c, *q == 'N' && r.zero >= 0, "unreadable polynomial '%s'", s); q++; while (*q == ' ') q++; rows.push_back(r); }
  int m0 = -1; for (size_t i = 0; i < rows.size(); i++) if (rows[i].m0) m0 = (int)i; CHECK(c, m0 >= 0, "no m^0 row in '%s'", s); for (size_t i = 0; i < rows.size(); i++) for (size_t k = 0; k < rows[i].v.size(); k++) if (rows[i].v[k]) p[{(int)k - rows[i].zero, (int)i - m0}] = rows[i].v[k]; return p; }
static Diag complicate(pbt::Case &c, Diag D, int steps) { while (steps--) { if (c.flag()) { D = add_kink(D, c.below(4 * D.n), c.below(2)); } else { auto fs = D.faces(); auto &F = fs[c.below(fs.size())]; if (F.size() < 2) continue; int a = F[c.below(F.size())], b = F[c.below(F.size())]; if (a == b || D.mate[a] == b) continue; int s = c.below(2); D = add_bigon(D, a, b, s, 1 - s); } } return D; }
static void check_types(pbt::Case &c, const Poly &p, plc_knottype *kt, int n, const vector<int> *truth) {
  CHECK(c, (kt == nullptr) == (n == 0) && n >= 0, "%d types, list %p", n, (void *)kt); std::set<vector<int>> listed; std::set<string> whole;
  for (int i = 0; i < n; i++) { auto &k = kt[i]; CHECK(c, k.nf >= 1 && k.nf <= MAXPRIMEFACTORS, "a type with %d factors", k.nf); CHECK(c, memchr(k.homfly, 0, MAXHOMFLY), "unterminated polynomial"); CHECK(c, parse_lm(c, k.homfly) == p, "type %d_%d... is listed with the polynomial %s, the knot has %s", k.cr[0], k.ind[0], k.homfly, pstr(p).c_str());
    vector<int> key; vector<Poly> prods{Poly{{{0, 0}, 1}}}; vector<pair<int, int>> fs; string w; for (int f = 0; f < k.nf; f++) { fs.push_back({k.cr[f], k.ind[f]}); w += std::to_string(k.cr[f]) + "_" + std::to_string(k.ind[f]) + k.sym[f] + "#"; if (k.cr[f] == 0) { CHECK(c, k.nf == 1 && k.ind[f] == 1, "malformed unknot"); continue; } int id = -1; for (size_t r = 0; r < rolfsen().size(); r++) if (rolfsen()[r].cr == k.cr[f] && rolfsen()[r].ind == k.ind[f]) id = (int)r; CHECK(c, id >= 0, "unknown prime knot %d_%d", k.cr[f], k.ind[f]); vector<Poly> nx; for (auto &q : prods) { nx.push_back(pmul(q, rolf_poly(id))); nx.push_back(pmul(q, pmirror(rolf_poly(id)))); } prods = nx; }
    bool any = false; for (auto &q : prods) any = any || q == p; CHECK(c, any, "listed type %s cannot have the polynomial %s", w.c_str(), pstr(p).c_str()); CHECK(c, whole.insert(w).second, "type %s is listed twice", w.c_str()); std::sort(fs.begin(), fs.end()); for (auto &f : fs) { key.push_back(f.first); key.push_back(f.second); } listed.insert(key); }
  Poly one{{{0, 0}, 1}}; if (p == one) CHECK(c, listed.count({0, 1}), "the unknot is not listed for polynomial 1"); for (size_t r = 0; r < rolfsen().size(); r++) if (rolf_poly(r) == p || pmirror(rolf_poly(r)) == p) CHECK(c, listed.count({rolfsen()[r].cr, rolfsen()[r].ind}), "%d_%d has this polynomial but is not listed", rolfsen()[r].cr, rolfsen()[r].ind);
  if (truth) { vector<pair<int, int>> fs; for (int r : *truth) fs.push_back({rolfsen()[r].cr, rolfsen()[r].ind}); std::sort(fs.begin(), fs.end()); vector<int> key; for (auto &f : fs) { key.push_back(f.first); key.push_back(f.second); } if (key.empty()) key = {0, 1}; string s; for (int x : key) s += std::to_string(x) + " "; CHECK(c, listed.count(key), "the true type %s is not listed", s.c_str()); }
  c.labelf("types=%d", n); }
static void check_classify(pbt::Case &c, const Diag &D, const Poly &p, const vector<int> *truth) { pd_code_t *pd = make_pd(c, D); string t = pd_dump(pd); int n = -7; plc_knottype *kt = pd_classify(pd, &n); CHECK(c, pd_dump(pd) == t, "classifying changed the code"); check_types(c, p, kt, n, truth); free(kt); pd_code_free(&pd); }
PROPERTY(C23, known_knots, 12000, 200000, 60, "a knotted diagram with extra crossings") {
  vector<int> truth; Diag D; Poly p{{{0, 0}, 1}}; int nf = c.pick({6, 3, 1}) == 0 ? 1 : c.pick({1, 3}) + 1, tot = 0; for (int f = 0; f < nf; f++) { int r = (int)c.below(rolfsen().size()); if (tot + rolfsen()[r].cr > 12) { r = (int)c.below(2); if (tot + rolfsen()[r].cr > 12) break; } if (tot && tot + rolfsen()[r].cr > 12) break; tot += rolfsen()[r].cr; Diag K = kt_diag(rolfsen()[r].x); Poly q = rolf_poly(r); if (c.flag()) { K = mirror_signs(K); q = pmirror(q); } if (c.flag()) K = reverse_all(K); truth.push_back(r); p = pmul(p, q);
    if (D.n == 0) D = K; else { vector<int> oa, ob; for (int d = 0; d < 4 * D.n; d++) if (D.out[d]) oa.push_back(d); for (int d = 0; d < 4 * K.n; d++) if (K.out[d]) ob.push_back(d); D = connect_sum(D, oa[c.below(oa.size())], K, ob[c.below(ob.size())]); } }
  D = complicate(c, relabel(c, D), c.range(0, 5)); c.nontrivial(D.n > tot); string nm; for (int r : truth) nm += std::to_string(rolfsen()[r].cr) + "_" + std::to_string(rolfsen()[r].ind) + " "; c.note("%s: %s", nm.c_str(), show(D).c_str()); c.labelf("factors=%zu", truth.size()); check_classify(c, D, p, &truth);
}
PROPERTY(C23, random_knots, 20000, 400000, 60, "at least 5 crossings") {
  Diag D = random_diagram(c, 1, 11); auto cs = D.comps(); if (cs.size() > 1) c.discard("a link"); c.nontrivial(D.n >= 5); c.note("%s", show(D).c_str()); bool ok; Poly p = homfly(D, &ok, 30000); if (!ok) c.discard("reference budget"); check_classify(c, D, p, nullptr);
}
PROPERTY(C23, curves, 6000, 120000, 60, "at least 3 crossings in projection") {
  Poly3 P = gpolygon(c, 1, 11, c.flag()); Diag M; vector<int> mc; if (clearance(P) < 2e-3 || !project(P, M, mc, 1e-3)) c.discard("not generic by a margin"); if (M.n > 16) c.discard("large"); c.nontrivial(M.n >= 3); c.note("%s", show3(P).c_str()); bool ok = true; Poly p{{{0, 0}, 1}}; if (M.n) p = homfly(M, &ok, 30000); if (!ok) c.discard("reference budget");
  plCurve *L = tocurve(P); string b = curve_text(L); Rng r(c); int n = -7; plc_knottype *kt = plc_classify(r.r, L, &n); CHECK(c, curve_text(L) == b, "the curve was changed"); check_types(c, p, kt, n, nullptr); free(kt); plc_free(L);
}
PROPERTY(C23, type_names, 40000, 800000, 60, "a well-formed name with several factors, or a damaged one") {
  static const int count[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
  int nf = c.chance(1, 4) ? c.range(1, MAXPRIMEFACTORS + 3) : c.range(1, 3); vector<pair<int, int>> fs; string s; bool good = nf <= MAXPRIMEFACTORS; for (int f = 0; f < nf; f++) { int cr = c.chance(1, 8) ? 0 : c.range(3, 19), ind = c.chance(1, 6) ? count[cr] : c.range(1, count[cr]); if (c.chance(1, 25)) { cr = c.range(-2, 25); ind = c.range(-1, 3); } if (c.chance(1, 25)) ind = (cr >= 0 && cr < 20 ? count[cr] : 0) + c.range(1, 5); if (cr < 0 || cr > 19 || ind < 1 || ind > count[cr]) good = false; fs.push_back({cr, ind}); s += (f ? "#" : "") + std::to_string(cr) + "_" + std::to_string(ind); }
  bool mut = c.chance(1, 5); if (mut) { int k = c.range(1, 3); while (k--) { size_t i = c.below(s.size() + 1); int w = c.range(0, 2); static const char al[] = "0123456789_#- x."; if (w == 0 && i < s.size()) s.erase(i, 1 + c.below(3)); else if (w == 1) s.insert(i, 1, al[c.below(sizeof al - 1)]); else if (i < s.size()) s[i] = al[c.below(sizeof al - 1)]; } }
  c.note("\"%s\"", s.c_str()); c.nontrivial(mut || nf > 1); char *txt = strdup(s.c_str()); plc_knottype *kt = plc_read_knottype(txt); CHECK(c, s == txt, "the text was changed"); free(txt);
  if (!mut) { CHECK(c, (kt != nullptr) == good, "%s was %s", s.c_str(), good ? "refused" : "accepted"); c.label(good ? "accepted" : "refused"); }
  if (kt) { CHECK(c, kt->nf >= 1 && kt->nf <= MAXPRIMEFACTORS, "%d factors", kt->nf); for (int f = 0; f < kt->nf; f++) CHECK(c, kt->cr[f] >= 0 && kt->cr[f] <= 19 && kt->ind[f] >= 1 && kt->ind[f] <= count[kt->cr[f]], "there is no knot %d_%d", kt->cr[f], kt->ind[f]); if (!mut) { CHECK(c, kt->nf == nf, "%d factors read from %s", kt->nf, s.c_str()); for (int f = 0; f < nf; f++) CHECK(c, kt->cr[f] == fs[f].first && kt->ind[f] == fs[f].second, "factor %d of %s read as %d_%d", f, s.c_str(), kt->cr[f], kt->ind[f]); }
    strcpy(kt->homfly, "[[1]]N "); char *b = nullptr; size_t z = 0; FILE *o = open_memstream(&b, &z); plc_write_knottype(o, *kt); fclose(o); string w(b, z); free(b); if (!mut) CHECK(c, w == s + " ([[1]]N ) \n", "%s is written as %s", s.c_str(), w.c_str()); string nm = w.substr(0, w.find(' ')); plc_knottype *k2 = plc_read_knottype(nm.c_str()); CHECK(c, k2 && k2->nf == kt->nf && !memcmp(k2->cr, kt->cr, sizeof(int) * kt->nf) && !memcmp(k2->ind, kt->ind, sizeof(int) * kt->nf), "%s does not read back", nm.c_str()); free(k2); free(kt); }
}
