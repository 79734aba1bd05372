// C28 the Markov chain on polygons with fixed edge lengths (triangulations, moment polytope coordinates, steps,
// expectations); C29 averages and error bars of correlated data.
#include "curve.hpp"
#include <gsl/gsl_rng.h>
#include <memory>
extern "C" {
#include "tsmcmc.h"
#include "geyer_estimators.h"
tsmcmc_run_parameters tsmcmc_default_unconfined_parameters(void);
tsmcmc_run_parameters tsmcmc_default_confined_parameters(void);
}
using namespace cv;
using cv::operator+; using cv::operator-; using cv::operator*;
typedef long double ld;
struct R { gsl_rng *r; R(uint64_t s) { r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, s); } ~R() { gsl_rng_free(r); } operator gsl_rng *() { return r; } };
// ---------------------------------------------------------------- triangulations
typedef vector<std::pair<int, int>> Chords;
static std::pair<int, int> ch(int a, int b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
static void rtri(pbt::Case &c, Chords &out, const vector<int> &p) { if (p.size() <= 3) return; int k = p.size(), style = c.below(3), i = style == 0 ? 0 : (int)c.below(k), j = style == 1 ? (i + 2) % k : (i + 2 + (int)c.below(k - 3)) % k; if (i > j) std::swap(i, j); out.push_back(ch(p[i], p[j])); vector<int> a(p.begin() + i, p.begin() + j + 1), b(p.begin() + j, p.end()); b.insert(b.end(), p.begin(), p.begin() + i + 1); rtri(c, out, a); rtri(c, out, b); }
static bool crossing(std::pair<int, int> x, std::pair<int, int> y) { if (x == y) return true; auto in = [&](int v) { return v > x.first && v < x.second; }; auto on = [&](int v) { return v == x.first || v == x.second; }; if (on(y.first) || on(y.second)) return false; return in(y.first) != in(y.second); }
typedef array<int, 3> Tri;
static std::set<Tri> triangles(int n, const Chords &d) { std::set<std::pair<int, int>> s(d.begin(), d.end()); for (int i = 0; i < n; i++) s.insert(ch(i, (i + 1) % n)); std::set<Tri> r; for (auto &e : s) for (int k = e.second + 1; k < n; k++) if (s.count(ch(e.first, k)) && s.count(ch(e.second, k))) r.insert({e.first, e.second, k}); return r; }
static void examine(pbt::Case &c, const tsmcmc_triangulation_t &T, int n, const Chords *want, const char *what) {
  CHECK(c, T.nedges == n && T.ntri == n - 2 && T.ndiags == n - 3, "%s: %d edges, %d triangles, %d diagonals for a polygon with %d edges", what, T.nedges, T.ntri, T.ndiags, n);
  Chords d; for (int i = 0; i < n - 3; i++) { int a = T.diags[i].vt[0], b = T.diags[i].vt[1]; CHECK(c, a >= 0 && b >= 0 && a < n && b < n && (a + 1) % n != b && (b + 1) % n != a && a != b, "%s: diagonal %d joins %d and %d", what, i, a, b); d.push_back(ch(a, b)); for (int j = 0; j < i; j++) CHECK(c, !crossing(d[j], d[i]), "%s: diagonals (%d,%d) and (%d,%d) cross", what, d[j].first, d[j].second, d[i].first, d[i].second); if (want) CHECK(c, d[i] == (*want)[i], "%s: diagonal %d is (%d,%d), given was (%d,%d)", what, i, d[i].first, d[i].second, (*want)[i].first, (*want)[i].second); CHECK(c, tsmcmc_triangulation_chordnum(T, a, b) == i && tsmcmc_triangulation_chordnum(T, b, a) == i, "%s: diagonal %d not found by its ends", what, i); }
  for (int i = 0; i < n; i++) CHECK(c, T.edges[i].vt[0] == i && T.edges[i].vt[1] == (i + 1) % n, "%s: edge %d joins %d and %d", what, i, T.edges[i].vt[0], T.edges[i].vt[1]);
  auto model = triangles(n, d); CHECK(c, (int)model.size() == n - 2, "model: %zu triangles", model.size()); std::set<Tri> seen; vector<int> used(n - 2, 0), du(n > 3 ? n - 3 : 0, 0), eu(n, 0); auto ends = [&](int k, chordtype_t t) { CHECK(c, (t == diagonal && k >= 0 && k < n - 3) || (t == edge && k >= 0 && k < n), "%s: chord %d of type %d", what, k, (int)t); return t == diagonal ? T.diags[k] : T.edges[k]; };
  for (int i = 0; i < n - 2; i++) { auto &t = T.triangles[i]; auto p = ends(t.parent_chord, t.parent_type), a = ends(t.daughter_chord[0], t.daughter_type[0]), b = ends(t.daughter_chord[1], t.daughter_type[1]); if (t.parent_type == diagonal) std::swap(p.vt[0], p.vt[1]); CHECK(c, (t.parent_type == edge) == (i == 0) && p.vt[1] == a.vt[0] && a.vt[1] == b.vt[0] && b.vt[1] == p.vt[0], "%s: sides of triangle %d (%d,%d) (%d,%d) (%d,%d) do not close up", what, i, p.vt[0], p.vt[1], a.vt[0], a.vt[1], b.vt[0], b.vt[1]); Tri v = {p.vt[0], a.vt[0], b.vt[0]}; std::sort(v.begin(), v.end()); CHECK(c, model.count(v) && seen.insert(v).second, "%s: triangle %d (%d,%d,%d) is wrong or repeated", what, i, v[0], v[1], v[2]); if (i == 0) eu[t.parent_chord]++;
    for (int j = 0; j < 2; j++) { if (t.daughter_type[j] == edge) { eu[t.daughter_chord[j]]++; CHECK(c, t.daughter_tri[j] == -1, "%s: triangle beyond edge %d", what, t.daughter_chord[j]); } else { du[t.daughter_chord[j]]++; int k = t.daughter_tri[j]; CHECK(c, k > 0 && k < n - 2 && !used[k]++ && T.triangles[k].parent_type == diagonal && T.triangles[k].parent_chord == t.daughter_chord[j], "%s: daughter %d of triangle %d is %d", what, j, i, k); } } }
  for (int x : du) CHECK(c, x == 1, "%s: a diagonal is crossed %d times", what, x); for (int x : eu) CHECK(c, x == 1, "%s: an edge is used %d times", what, x); CHECK(c, tsmcmc_triangulation_ok(T), "%s: judged invalid", what);
}
static int size(pbt::Case &c, int lo, int hi, int big) { return c.chance(1, 12) ? c.range(lo, big) : c.range(lo, hi); }
static tsmcmc_triangulation_t make(pbt::Case &c, int n, Chords &d, string &name) {
  int k = c.pick({4, 1, 1, 1, 1}); tsmcmc_triangulation_t T; bool given = false;
  if (k == 0) { vector<int> p; for (int i = 0; i < n; i++) p.push_back(i); Chords r; rtri(c, r, p); for (int i = (int)r.size() - 1; i > 0; i--) std::swap(r[i], r[c.below(i + 1)]); vector<tsmcmc_chord_t> in; for (auto &e : r) { tsmcmc_chord_t x = {{e.first, e.second}}; if (c.flag()) std::swap(x.vt[0], x.vt[1]); in.push_back(x); } tsmcmc_chord_t none; CHECK(c, tsmcmc_chord_system_ok(in.size(), in.empty() ? &none : in.data()), "chord system without crossings judged bad"); T = tsmcmc_generate_triangulation(n, in.empty() ? &none : in.data()); d = r; given = true; name = "given chords"; }
  else if (k == 1) { T = tsmcmc_fan_triangulation(n); name = "fan"; for (int i = 2; i < n - 1; i++) d.push_back(ch(0, i)); given = true; }
  else if (k == 2) { T = tsmcmc_spiral_triangulation(n); name = "spiral"; vector<int> act; for (int i = 0; i < n; i++) act.push_back(i); int at = 0; while ((int)d.size() < n - 3) { int m = act.size(); int v = act[at % m], w = act[(at + 2) % m]; d.push_back(ch(v, w)); act.erase(act.begin() + (at + 1) % m); at = std::find(act.begin(), act.end(), w) - act.begin(); } given = true; }
  else if (k == 3) { T = tsmcmc_teeth_triangulation(n); name = "teeth"; int a = n - 1, b = 1; for (int i = 0; i < n - 3; i++) { d.push_back(ch(a, b)); if (i % 2 == 0) b++; else a--; } given = true; }
  else { uint64_t s = c.u64(); R r(s); T = tsmcmc_random_triangulation(r, n); name = "random"; }
  examine(c, T, n, given ? &d : nullptr, name.c_str()); if (!given) for (int i = 0; i < n - 3; i++) d.push_back(ch(T.diags[i].vt[0], T.diags[i].vt[1])); c.labelf("%s", name.c_str()); return T;
}
static string slurp(FILE *f) { rewind(f); string s; int ch; while ((ch = fgetc(f)) != EOF) s += (char)ch; fclose(f); return s; }
PROPERTY(C28, triangulation, 80000, 2000000, 60, "at least five edges") {
  int n = size(c, 3, 12, 120); c.nontrivial(n > 4); Chords d; string name; tsmcmc_triangulation_t T = make(c, n, d, name); c.note("%s n=%d", name.c_str(), n);
  // text forms
  { string s; for (int i = 0; i < n - 3; i++) s += (i ? ",{" : "{") + std::to_string(T.diags[i].vt[0]) + "," + std::to_string(T.diags[i].vt[1]) + "}"; char *m = tsmcmc_triangulation_MathematicaForm(T); CHECK(c, m && "{" + s + "}" == m, "Mathematica form %s", m); free(m); FILE *f = tmpfile(); tsmcmc_triangulation_print(f, T); string p = slurp(f); const char *q = p.c_str(); for (int i = 0; i < n - 3; i++) { int a, b, k = 0; CHECK(c, sscanf(q, "%d , %d %n", &a, &b, &k) == 2 && a == T.diags[i].vt[0] && b == T.diags[i].vt[1], "printed form \"%s\"", p.c_str()); q += k; } CHECK(c, !*q, "printed form \"%s\"", p.c_str()); }
  // the polytope: three inequalities for every triangle
  if (n < 40) { bool integral = c.flag(); vector<double> el(n); for (auto &x : el) x = integral ? c.range(1, 9) : c.real(0.1, 5); FILE *f = tmpfile(); tsmcmc_triangulation_polymake(f, T, el.data(), integral); string p = slurp(f); string head = integral ? "new Polytope<Rational>(INEQUALITIES=>[" : "new Polytope(INEQUALITIES=>["; CHECK(c, p.substr(0, head.size()) == head && p.size() > 5 && p.substr(p.size() - 4) == "]);\n", "polymake form \"%s\"", p.c_str()); const char *q = p.c_str() + head.size(); vector<vector<double>> got, want; while (*q && *q != ']') { if (*q != '[') { q++; continue; } q++; vector<double> row; for (;;) { char *e; row.push_back(strtod(q, &e)); CHECK(c, e != q, "polymake form not a number at \"%.20s\"", q); q = e; if (*q == ']') { q++; break; } CHECK(c, *q == ',', "polymake form at \"%.20s\"", q); q++; } got.push_back(row); while (*q == ',' || *q == '\n') q++; }
    for (auto &t : triangles(n, d)) for (int s = 0; s < 3; s++) { vector<double> row(n - 2, 0); for (int j = 0; j < 3; j++) { auto e = ch(t[j], t[(j + 1) % 3]); double sg = j == s ? -1 : 1; auto it = std::find(d.begin(), d.end(), e); if (it != d.end()) row[it - d.begin() + 1] += sg; else row[0] += sg * el[e.second == n - 1 && e.first == 0 ? n - 1 : e.first]; } want.push_back(row); } auto round = [](vector<vector<double>> &m) { for (auto &r : m) for (auto &x : r) x = std::round(x * 1e9) / 1e9 + 0.0; std::sort(m.begin(), m.end()); }; CHECK(c, got.size() == want.size(), "%zu inequalities, expected %zu", got.size(), want.size()); round(got); round(want); CHECK(c, got == want, "wrong inequalities: %s", p.c_str()); }
  // chord systems with crossings
  if (n >= 5) { vector<tsmcmc_chord_t> in; bool bad = false; Chords e; int k = c.range(1, 6); for (int i = 0; i < k; i++) { int a = c.below(n), b = (a + 2 + c.below(n - 3)) % n; e.push_back(ch(a, b)); tsmcmc_chord_t x = {{a, b}}; in.push_back(x); for (int j = 0; j < i; j++) bad |= crossing(e[j], e[i]); } CHECK(c, tsmcmc_chord_system_ok(k, in.data()) == !bad, "%d chords judged %s", k, bad ? "ok" : "bad"); }
  tsmcmc_triangulation_free(T);
}
// ---------------------------------------------------------------- coordinates
static double vol(V a, V b, V cc, V d) { return dot(a - d, cross(b - d, cc - d)); }
static void congruent(pbt::Case &c, const vector<V> &a, plCurve *L, double tol, const char *what) { int n = a.size(); CHECK(c, L && L->nc == 1 && !L->cp[0].open && L->cp[0].nv == n, "%s: no polygon with %d vertices", what, n); auto *v = L->cp[0].vt; double sc = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double x = dist(a[i], a[j]); sc = std::max(sc, x); CHECK(c, fabs(dist(v[i], v[j]) - x) <= tol * (1 + x), "%s: vertices %d and %d at distance %.12g, expected %.12g", what, i, j, dist(v[i], v[j]), x); }
  for (int t = 0; t < 12 && n > 3; t++) { int i = c.below(n), j = c.below(n), k = c.below(n), l = c.below(n); double x = vol(a[i], a[j], a[k], a[l]), y = vol(v[i], v[j], v[k], v[l]); CHECK(c, fabs(x - y) <= 20 * tol * (1 + sc * sc * sc), "%s: vertices %d %d %d %d span volume %.9g, expected %.9g", what, i, j, k, l, y, x); } CHECK(c, memcmp(&v[-1], &v[n - 1], sizeof(V)) == 0 && memcmp(&v[n], &v[0], sizeof(V)) == 0, "%s: wrap-around vertices are stale", what); }
static double dihedral_of(V p, V q, V a, V b) { V x = q - p; x = (1 / norm(x)) * x; V u = a - p, w = b - p; u = u - dot(u, x) * x; w = w - dot(w, x) * x; double t = atan2(dot(cross(u, w), x), dot(u, w)); return t < 0 ? t + 2 * M_PI : t; }
static double adist(double a, double b) { double d = fmod(fabs(a - b), 2 * M_PI); return std::min(d, 2 * M_PI - d); }
PROPERTY(C28, coordinates, 80000, 2000000, 60, "at least five edges, in space") {
  int n = size(c, 3, 10, 60); Chords d; string name; tsmcmc_triangulation_t T = make(c, n, d, name); vector<double> el(n), dl(n), da(n); vector<char> def(n + 1); std::unique_ptr<bool[]> ok(new bool[n + 1]);
  int kind = c.pick({5, 1, 2}); vector<V> P; if (kind < 2) { double sc = c.chance(1, 4) ? pow(10, c.range(-2, 3)) : 1; for (int i = 0; i < n; i++) { V v = vec(c.gauss(), c.gauss(), kind == 1 ? 0 : c.gauss()); P.push_back(sc * v); } } else { int m = c.range(1, 3); for (int i = 0; i < n; i++) P.push_back(vec(c.range(-m, m), c.range(-m, m), c.range(-m, m))); }
  c.labelf("%s", kind == 0 ? "generic" : kind == 1 ? "planar" : "grid"); c.nontrivial(n > 4 && kind != 1); string pts; for (auto &v : P) { char b[100]; snprintf(b, 100, "(%g %g %g)", plc_M_clist(v)); pts += b; } c.note("%s n=%d %s", name.c_str(), n, pts.substr(0, 300).c_str());
  double sc = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sc = std::max(sc, dist(P[i], P[j])); if (kind == 2) for (int i = 0; i < n; i++) { if (P[i].c[0] == P[(i + 1) % n].c[0] && P[i].c[1] == P[(i + 1) % n].c[1] && P[i].c[2] == P[(i + 1) % n].c[2]) c.discard("zero edge"); }
  Curve C; Strand s; s.v = P; s.cst.resize(n); C.cp.push_back(s); plCurve *L = build(C); tsmcmc_compute_edgelengths(L, T, el.data()); tsmcmc_compute_diagonals(L, T, dl.data()); tsmcmc_compute_dihedral_angles(L, T, da.data(), ok.get()); compare(c, C, L, "input");
  bool degenerate = false; double worst = 1; for (int i = 0; i < n; i++) CHECK(c, fabs(el[i] - dist(P[i], P[(i + 1) % n])) <= 1e-12 * (1 + sc), "edge %d has length %.15g", i, el[i]);
  auto tris = triangles(n, d); auto third = [&](int a, int b, vector<int> &out) { for (auto &t : tris) { bool ia = t[0] == a || t[1] == a || t[2] == a, ib = t[0] == b || t[1] == b || t[2] == b; if (ia && ib) out.push_back(t[0] + t[1] + t[2] - a - b); } };
  for (auto &t : tris) { V x = P[t[1]] - P[t[0]], y = P[t[2]] - P[t[0]]; double l = std::max(norm(x), std::max(norm(y), norm(x - y))); double q = l > 0 ? norm(cross(x, y)) / (l * l) : 0; worst = std::min(worst, q); if (q < 1e-6) degenerate = true; }
  for (int i = 0; i < n - 3; i++) { int a = T.diags[i].vt[0], b = T.diags[i].vt[1]; CHECK(c, fabs(dl[i] - dist(P[a], P[b])) <= 1e-12 * (1 + sc), "diagonal %d has length %.15g", i, dl[i]); vector<int> o; third(a, b, o); CHECK(c, o.size() == 2, "model: diagonal in %zu triangles", o.size()); if (!degenerate) { CHECK(c, ok[i], "dihedral angle at diagonal %d not defined", i); double m1 = dihedral_of(P[a], P[b], P[o[0]], P[o[1]]); CHECK(c, std::min(adist(da[i], m1), adist(da[i], 2 * M_PI - m1)) < 1e-9 / worst, "dihedral angle %d is %.12g, expected %.12g or its negative", i, da[i], m1); CHECK(c, da[i] >= 0 && da[i] <= 2 * M_PI, "dihedral angle %d is %.12g", i, da[i]); } }
  c.labelf("degenerate triangles %d", degenerate); bool flat_ok = tsmcmc_diagonals_ok(T, el.data(), dl.data()); if (!degenerate) CHECK(c, flat_ok, "lengths of a polygon judged impossible");
  // back to space
  if (!degenerate) { plCurve *M = tsmcmc_embed_polygon(T, el.data(), dl.data(), da.data()); congruent(c, P, M, 1e-10 / (worst * worst), "rebuilt polygon"); if (worst > 1e-2) CHECK(c, tsmcmc_polygon_embedding_ok(M, T, el.data(), dl.data(), da.data()) || sc > 100, "embedding judged wrong"); plc_free(M);
    // other angles: same lengths, the angles asked for
    for (int i = 0; i < n - 3; i++) da[i] = c.chance(1, 8) ? c.range(0, 4) * M_PI / 2 : c.real(0, 2 * M_PI); M = tsmcmc_embed_polygon(T, el.data(), dl.data(), da.data()); CHECK(c, M, "no polygon for other dihedral angles"); vector<double> e2(n), d2(n), a2(n); tsmcmc_compute_edgelengths(M, T, e2.data()); tsmcmc_compute_diagonals(M, T, d2.data()); tsmcmc_compute_dihedral_angles(M, T, a2.data(), ok.get()); for (int i = 0; i < n; i++) CHECK(c, fabs(e2[i] - el[i]) <= 1e-9 / worst * (1 + sc), "edge %d has length %.12g, asked %.12g", i, e2[i], el[i]); for (int i = 0; i < n - 3; i++) { CHECK(c, fabs(d2[i] - dl[i]) <= 1e-9 / worst * (1 + sc), "diagonal %d has length %.12g, asked %.12g", i, d2[i], dl[i]); CHECK(c, ok[i] && adist(a2[i], da[i]) <= 1e-7 / worst, "dihedral angle %d is %.12g, asked %.12g", i, a2[i], da[i]); } plc_free(M);
    // impossible lengths are refused
    if (n > 3) { int i = c.below(n - 3); double old = dl[i]; vector<int> o; int a = T.diags[i].vt[0], b = T.diags[i].vt[1]; third(a, b, o); double lim = 1e300; for (int k : o) lim = std::min(lim, dist(P[a], P[k]) + dist(P[b], P[k])); dl[i] = c.flag() ? lim * (1 + pow(10, c.range(-6, 1))) : -old; M = tsmcmc_embed_polygon(T, el.data(), dl.data(), da.data()); CHECK(c, !M, "polygon made although diagonal %d of length %.12g cannot exceed %.12g", i, dl[i], lim); CHECK(c, !tsmcmc_diagonals_ok(T, el.data(), dl.data()), "impossible diagonal judged ok"); dl[i] = old; } }
  else { plCurve *M = tsmcmc_embed_polygon(T, el.data(), dl.data(), da.data()); CHECK(c, M, "no polygon for the coordinates of a polygon"); if (M) { bool small = false; for (int i = 0; i < n - 3; i++) small |= dl[i] < 1e-6; if (true) { c.labelf("degenerate, rebuilt, zero diagonal %d", small); for (int i = 0; i < n; i++) { double x = dist(M->cp[0].vt[i], M->cp[0].vt[i + 1]); CHECK(c, fabs(x - el[i]) <= 1e-5 * (1 + sc), "degenerate: edge %d has length %.9g, asked %.9g", i, x, el[i]); } } plc_free(M); } }
  plc_free(L); tsmcmc_triangulation_free(T);
}
// ---------------------------------------------------------------- steps
static double gap(const tsmcmc_triangulation_t &T, const double *el, const double *dl) { double g = 1e300; for (int i = 0; i < T.ntri; i++) { auto &t = T.triangles[i]; double x[3] = {t.parent_type == edge ? el[t.parent_chord] : dl[t.parent_chord], t.daughter_type[0] == edge ? el[t.daughter_chord[0]] : dl[t.daughter_chord[0]], t.daughter_type[1] == edge ? el[t.daughter_chord[1]] : dl[t.daughter_chord[1]]}; for (int j = 0; j < 3; j++) g = std::min(g, x[(j + 1) % 3] + x[(j + 2) % 3] - x[j]); } return g; }
struct Walk { pbt::Case *c; int n; double ftc, conf; bool equi; vector<double> vals; int k, a; int count; };
static void examine_polygon(pbt::Case &c, plCurve *L, int n, double ftc, double conf, const char *what) { CHECK(c, L && L->nc == 1 && L->cp[0].nv == n && !L->cp[0].open, "%s: not a closed polygon with %d vertices", what, n); auto *v = L->cp[0].vt; for (int i = 0; i < n; i++) { double x = dist(v[i], v[i + 1]), w = i == 0 && ftc > 0 ? ftc : 1; CHECK(c, fabs(x - w) < 1e-6, "%s: edge %d has length %.12g, expected %.12g", what, i, x, w); if (conf > 0) CHECK(c, dist(v[i], v[0]) <= conf + 1e-6, "%s: vertex %d at distance %.12g from the first, confined to %.12g", what, i, dist(v[i], v[0]), conf); } }
PROPERTY(C28, steps, 40000, 1000000, 60, "at least five edges and three steps") {
  int n = size(c, 3, 10, 40), mode = c.pick({2, 2, 2}); Chords d; string name; tsmcmc_triangulation_t T; double ftc = 0, conf = 0; if (mode == 2) { if (n < 4) n = 4; T = tsmcmc_fan_triangulation(n); conf = c.chance(1, 5) ? 1 + pow(10, -c.range(1, 3)) : c.real(1.05, 4); name = "fan"; } else T = make(c, n, d, name); R r(c.u64()); double *el, *dl, *da;
  if (mode == 0) { if (c.flag()) tsmcmc_regular_ngon(T, &el, &dl, &da); else tsmcmc_equilateral_ngon(r, T, &el, &dl, &da); } else if (mode == 1) { ftc = c.real(0.05, n - 1 - 0.05); if (c.chance(1, 4)) ftc = c.range(1, n - 2); if (c.flag()) tsmcmc_regular_failure_to_close_ngon(T, ftc, &el, &dl, &da); else tsmcmc_failure_to_close_ngon(r, T, ftc, &el, &dl, &da); } else tsmcmc_confined_equilateral_ngon(r, T, conf, &el, &dl, &da);
  int steps = c.range(1, 25); c.nontrivial(n > 4 && steps > 2); c.labelf("%s", mode == 0 ? "equilateral" : mode == 1 ? "one long edge" : "confined"); c.note("%s n=%d, %d steps, long edge %g, confined to %g", name.c_str(), n, steps, ftc, conf); double beta = c.chance(1, 5) ? c.range(0, 1) : c.unit(), delta = c.chance(1, 5) ? c.range(0, 1) : c.unit(); int rep = c.range(1, 5); string log;
  for (int s = 0; s <= steps; s++) { for (int i = 0; i < n; i++) CHECK(c, fabs(el[i] - (i == 0 && mode == 1 ? ftc : 1)) < 1e-7, "after %s: edge length %d is %.12g", log.c_str(), i, el[i]); CHECK(c, gap(T, el, dl) > -1e-7, "after %s: triangle inequality violated by %.3g", log.c_str(), -gap(T, el, dl)); for (int i = 0; i < n - 3; i++) CHECK(c, std::isfinite(dl[i]) && std::isfinite(da[i]) && da[i] >= 0 && da[i] <= 2 * M_PI + 1e-9 && (mode != 2 || dl[i] <= conf + 1e-7), "after %s: diagonal %.12g, angle %.12g", log.c_str(), dl[i], da[i]); if (true) { plCurve *L = tsmcmc_embed_polygon(T, el, dl, da); examine_polygon(c, L, n, mode == 1 ? ftc : 0, conf, log.c_str()); plc_free(L); } else c.label("on the boundary"); if (s == steps) break;
    int k = c.below(5); vector<double> e0(el, el + n), d0(dl, dl + n - 3), a0(da, da + n - 3); bool canp = true; auto kept = [&](bool dk, bool ak) { for (int i = 0; i < n; i++) CHECK(c, el[i] == e0[i], "step changed an edge length"); for (int i = 0; i < n - 3; i++) CHECK(c, (!dk || dl[i] == d0[i]) && (!ak || da[i] == a0[i]), "step changed what it should keep"); };
    if (mode == 2) { if (k < 2) { tsmcmc_confined_moment_polytope_step(r, T, conf, el, dl); kept(false, true); log += "m"; } else if (k == 2) { tsmcmc_dihedrals_step(r, T, da); kept(true, false); log += "d"; } else { auto t = tsmcmc_confined_dihedral_diagonal_step(r, T, conf, el, dl, da, beta, rep); CHECK(c, t == moment_polytope || t == dihedral, "kind of step %d", (int)t); kept(t == dihedral, t == moment_polytope); CHECK(c, !(beta == 1 && t != moment_polytope) && !(beta == 0 && t != dihedral), "kind of step %d for fraction %g", (int)t, beta); log += "c"; } }
    else { if (k == 0) { tsmcmc_moment_polytope_step(r, T, el, dl); kept(false, true); log += "m"; } else if (k == 1) { tsmcmc_dihedrals_step(r, T, da); kept(true, false); log += "d"; } else if (k == 2 && canp) { plCurve *A = tsmcmc_embed_polygon(T, el, dl, da); tsmcmc_edgepermute_step(r, T, el, dl, da); log += "p"; if (gap(T, el, dl) > 1e-5) { plCurve *B = tsmcmc_embed_polygon(T, el, dl, da); CHECK(c, A && B, "no polygon"); auto ip = [&](plCurve *L, int i, int j) { auto *v = L->cp[0].vt; return dot(v[i + 1] - v[i], v[j + 1] - v[j]); }; vector<double> x, y; int lo = mode == 1 && fabs(ftc - 1) > 1e-7 ? 1 : 0; for (int i = lo; i < n; i++) for (int j = lo; j < i; j++) { x.push_back(ip(A, i, j)); y.push_back(ip(B, i, j)); } std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); for (size_t i = 0; i < x.size(); i++) CHECK(c, fabs(x[i] - y[i]) < 1e-5, "permuting the edges changed their inner products (%.9g, %.9g)", x[i], y[i]); if (lo == 1) { x.clear(); y.clear(); for (int i = 1; i < n; i++) { x.push_back(ip(A, 0, i)); y.push_back(ip(B, 0, i)); } std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); for (size_t i = 0; i < x.size(); i++) CHECK(c, fabs(x[i] - y[i]) < 1e-5, "permuting the edges moved the long edge"); } plc_free(B); } plc_free(A); }
      else if (k == 3 || !canp) { auto t = tsmcmc_dihedral_diagonal_step(r, T, el, dl, da, beta); CHECK(c, t == moment_polytope || t == dihedral, "kind of step %d", (int)t); kept(t == dihedral, t == moment_polytope); CHECK(c, !(beta == 1 && t != moment_polytope) && !(beta == 0 && t != dihedral), "kind of step %d for fraction %g", (int)t, beta); log += "b"; } else { auto t = tsmcmc_dihedral_diagonal_permute_step(r, T, el, dl, da, beta, delta, rep); CHECK(c, t == moment_polytope || t == dihedral || t == permute, "kind of step %d", (int)t); if (t != permute) kept(t == dihedral, t == moment_polytope); CHECK(c, !(delta == 1 && t != permute) && !(delta == 0 && t == permute), "kind of step %d for fraction %g", (int)t, delta); log += "a"; } } }
  free(el); free(dl); free(da); tsmcmc_triangulation_free(T);
}
// ---------------------------------------------------------------- C29 the estimator, directly
struct Est { ld mean, sigma, margin; int used; bool ended; };
static Est estimate(const vector<double> &x, int lags) { int m = x.size(); Est e; ld s = 0; for (double v : x) s += v; e.mean = s / m; vector<ld> z(m); for (int i = 0; i < m; i++) z[i] = x[i] - e.mean; auto g = [&](int k) { ld t = 0; for (int i = 0; i + k < m; i++) t += z[i] * z[i + k]; return t / m; }; ld g0 = g(0), g1 = m > 1 ? g(1) : 0, sum = 0; e.margin = 1; e.ended = false; int k; for (k = 1; k < m / 2 && 2 * k + 1 < lags; k++) { ld G = g(2 * k) + g(2 * k + 1); if (g0 > 0) e.margin = std::min(e.margin, fabsl(G) / g0); if (G <= 0) { e.ended = true; break; } sum += G; } e.used = k; ld v = g0 + 2 * g1 + 2 * sum; if (g0 > 0) e.margin = std::min(e.margin, fabsl(v) / g0); e.sigma = sqrtl(v >= 0 ? v : g0); return e; }
static vector<double> series(pbt::Case &c, int m, string &name) { int kind = c.pick({3, 2, 2, 1, 1, 1, 1}); vector<double> x(m); double mu = c.chance(1, 3) ? 0 : c.real(-5, 5), sc = c.chance(1, 4) ? pow(10, c.range(-2, 2)) : 1; double rho = kind == 0 ? c.real(0, 0.99) : kind == 1 ? 0 : kind == 2 ? -c.real(0, 0.95) : 0; double y = 0, rel = kind == 4 && c.flag() ? 1e-4 / m : 0.01; uint64_t seed = c.u64(); R r(seed); auto gs = [&]() { double u = 0; for (int i = 0; i < 6; i++) u += gsl_rng_uniform(r) - 0.5; return u; }; const char *nm[] = {"positively correlated", "independent", "negatively correlated", "constant", "alternating", "trend", "two values"}; name = nm[kind]; for (int i = 0; i < m; i++) { y = kind < 3 ? rho * y + gs() : kind == 3 ? 0 : kind == 4 ? (i % 2 ? 1 : -1) * (1 + rel * gs()) : kind == 5 ? i / (double)m : gsl_rng_uniform(r) < 0.5 ? 0 : 1; x[i] = mu + sc * y; } return x; }
static bool close(double a, ld b, double scale, double tol) { return std::isfinite(a) && fabsl(a - b) <= tol * (fabsl(b) + scale); }
PROPERTY(C29, estimator, 900000, 2700000, 60, "at least eight values, not constant") {
  int m = c.chance(1, 8) ? c.range(1, 900) : c.range(1, 60); string name; vector<double> x = series(c, m, name); c.labelf("%s", name.c_str()); c.note("%d values, %s, first %.9g", m, name.c_str(), x[0]); double amp = 0; for (double v : x) amp = std::max(amp, fabs(v)); Est e = estimate(x, 1 << 30); vector<double> y = x; double mean = sample_mean(y.data(), m); CHECK(c, y == x, "the mean changed the data"); CHECK(c, close(mean, e.mean, amp, 1e-13), "mean %.17g, expected %.17Lg", mean, e.mean); c.nontrivial(m > 7 && name != "constant");
  double err = -1, v = ips_value(y.data(), m, &err); bool sharp = e.margin > 1e-9; CHECK(c, y == x && close(v, e.mean, amp, 1e-13), "value %.17g, expected %.17Lg", v, e.mean); CHECK(c, std::isfinite(err) && err >= 0, "error bar %g", err); if (sharp) CHECK(c, close(err, 1.96L * e.sigma / sqrtl(m), amp * 1e-3, 1e-9), "error bar %.12g, expected %.12Lg", err, 1.96L * e.sigma / sqrtl(m)); else c.label("decision by roundoff");
  vector<double> z(m); for (int i = 0; i < m; i++) z[i] = x[i] - e.mean; double g0, g1, *G = nullptr; int N = -5; double s1 = ips_sigma_estimator(z.data(), m), s2 = ips_sigma_estimator_with_gammas(z.data(), m, &g0, &g1, &G, &N); CHECK(c, s1 == s2, "two estimates differ"); ld w0 = 0, w1 = 0; for (int i = 0; i < m; i++) { w0 += (ld)z[i] * z[i]; if (i) w1 += (ld)z[i] * z[i - 1]; } CHECK(c, close(g0, w0 / m, w0 / m, 1e-11) && close(g1, w1 / m, w0 / m, 1e-11), "covariances %.12g %.12g, expected %.12Lg %.12Lg", g0, g1, w0 / m, w1 / m); CHECK(c, G != nullptr && N <= m, "no list of covariances"); for (int k = 1; k <= N; k++) { ld t = 0; for (int i = 0; i + 2 * k < m; i++) t += (ld)z[i] * (z[i + 2 * k] + (i + 2 * k + 1 < m ? z[i + 2 * k + 1] : 0)); CHECK(c, close(G[k - 1], t / m, w0 / m, 1e-11), "pair %d of covariances sums to %.12g, expected %.12Lg", k, G[k - 1], t / m); } if (sharp) CHECK(c, N == e.used - 1, "%d pairs used, expected %d", N, e.used - 1); free(G);
}
PROPERTY(C29, incremental, 900000, 2700000, 60, "more values than the buffer holds") {
  int bs = c.chance(1, 4) ? c.range(1, 8) : c.range(9, c.chance(1, 6) ? 400 : 120), m = c.range(0, c.chance(1, 4) ? 8 * bs : 3 * bs); string name; vector<double> x = series(c, std::max(m, 1), name); x.resize(m); geyer_ips_t *g = geyer_ips_new(bs); c.labelf("%s", name.c_str()); c.nontrivial(m > bs && name != "constant"); c.note("buffer of %d, %d values, %s", bs, m, name.c_str()); vector<double> seen;
  auto look = [&]() { double err = -1; bool ok = false; double v = geyer_ips_value(g, &err, &ok); int k = seen.size(); if (k == 0) { CHECK(c, v == 0 && err == 0, "empty: value %g, error %g", v, err); return; } double amp = 0; for (double t : seen) amp = std::max(amp, fabs(t)); Est e = estimate(seen, 1 << 30); CHECK(c, close(v, e.mean, amp, 1e-12), "%d values, buffer %d: mean %.17g, expected %.17Lg", k, bs, v, e.mean); bool o2; CHECK(c, geyer_ips_value(g, nullptr, &o2) == v && o2, "value without error bar differs"); Est lim = estimate(seen, std::min(bs, 50)); bool sharp = e.margin > 1e-7 * (1 + amp * amp / std::max(1e-9, (double)(e.sigma * e.sigma)));
    if (k <= bs) CHECK(c, ok, "not ok although all %d values fit in the buffer of %d", k, bs); else if (sharp && lim.ended && e.sigma > 1e-5 * amp) CHECK(c, ok, "not ok although the sequence ends within %d lags (buffer %d, %d values)", 2 * lim.used, bs, k); if (ok) { CHECK(c, std::isfinite(err) && err >= 0, "%d values, buffer %d: error bar %g", k, bs, err); if (sharp) { CHECK(c, fabsl(err - 1.96L * e.sigma / sqrtl(k)) <= 1e-6 * err + 1e-7 * amp * (e.sigma > 1e-5 * amp ? 1e-3 : 1), "%d values, buffer %d: error bar %.12g, expected %.12Lg", k, bs, err, 1.96L * e.sigma / sqrtl(k)); c.label(k <= bs ? "all in the buffer" : "beyond the buffer"); } else c.label("decision by roundoff"); } else c.label("reported as unreliable"); };
  int looks = c.range(1, 5); std::set<int> at; for (int i = 0; i < looks; i++) at.insert(c.flag() ? c.range(0, m) : std::min(m, bs * c.range(0, 4) + c.range(0, 2))); at.insert(m); for (int i = 0; i <= m; i++) { if (at.count(i)) look(); if (i < m) { geyer_ips_add(g, x[i]); seen.push_back(x[i]); } } geyer_ips_free(&g); CHECK(c, g == nullptr, "pointer not cleared"); geyer_ips_free(&g);
}
// ---------------------------------------------------------------- expectations
static double integrand(plCurve *L, void *p) { Walk &w = *(Walk *)p; w.count++; auto &c = *w.c; examine_polygon(c, L, w.n, w.ftc, w.conf, "sampled polygon"); auto *v = L->cp[0].vt; V q = v[(w.a + w.k) % w.n] - v[w.a]; double x = dot(q, q); w.vals.push_back(x); return x; }
// mean squared distance from the first vertex to vertex k, for a fan triangulated confined polygon: the diagonals are uniform on a polytope
static double confined_expectation(int n, double R, int k) { // grid integration by dynamic programming over the chain d_1=1,...,d_{n-1}=1
  int M = 2000; double hi = std::min(R, n / 2.0), h = hi / M; auto compat = [](double a, double b) { return fabs(a - b) <= 1 && a + b >= 1; }; (void)compat; int nd = n - 3; vector<double> f(M); auto X = [&](int i) { return (i + 0.5) * h; }; vector<vector<double>> fw(nd, vector<double>(M)), bw(nd, vector<double>(M)); for (int i = 0; i < M; i++) fw[0][i] = X(i) <= 2 ? 1 : 0, bw[nd - 1][i] = X(i) <= 2 ? 1 : 0; auto step = [&](const vector<double> &a, vector<double> &b) { vector<double> s(M + 1, 0); for (int i = 0; i < M; i++) s[i + 1] = s[i] + a[i]; auto I = [&](double x) { if (x <= 0) return 0.0; double t = x / h; if (t >= M) return s[M]; int i = (int)t; return s[i] + (t - i) * a[i]; }; for (int i = 0; i < M; i++) { double x = X(i); b[i] = std::max(0.0, I(x + 1) - I(fabs(x - 1))) * h; } }; for (int j = 1; j < nd; j++) step(fw[j - 1], fw[j]); for (int j = nd - 2; j >= 0; j--) step(bw[j + 1], bw[j]); if (k <= 1 || k >= n - 1) return 1; double a = 0, b = 0; for (int i = 0; i < M; i++) { double w = fw[k - 2][i] * bw[k - 2][i]; a += w; b += w * X(i) * X(i); } return b / a; }
PROPERTY(C28, expectation, 800, 12000, 60, "every run") {
  int mode = c.below(3), n = c.range(4, 9); c.nontrivial(); Chords d; string name; tsmcmc_triangulation_t T; Walk w; w.c = &c; w.n = n; w.ftc = 0; w.conf = 0; w.count = 0; w.a = c.below(n); w.k = c.range(1, n - 1); double want; auto rp = mode == 2 ? tsmcmc_default_confined_parameters() : tsmcmc_default_unconfined_parameters(); rp.burn_in = 500; if (c.chance(2, 3)) { rp.delta = c.real(0.1, 0.9); rp.beta = c.real(0.2, 0.8); rp.moment_polytope_repeat = c.range(1, 10); } int steps = pbt::g_thorough ? 40000 : 12000; uint64_t seed = c.u64(); R r(seed); tsmcmc_run_stats st; double err = -1, v; memset(&st, 77, sizeof st);
  if (mode == 0) { T = make(c, n, d, name); want = w.k * (n - w.k) / (n - 1.0); v = tsmcmc_equilateral_expectation(r, integrand, &w, steps, 10000, T, rp, &st, &err); } else if (mode == 1) { T = make(c, n, d, name); w.ftc = c.real(0.2, n - 1.5); if (w.a == 0) w.a = 1; if (w.a + w.k > n) w.k = n - w.a; want = w.k + w.k * (w.k - 1) * (w.ftc * w.ftc - (n - 1)) / ((n - 1.0) * (n - 2)); v = tsmcmc_fixed_ftc_expectation(r, integrand, &w, w.ftc, steps, 10000, T, rp, &st, &err); } else { w.conf = c.real(1.2, 3); w.a = 0; want = confined_expectation(n, w.conf, w.k); v = tsmcmc_confined_equilateral_expectation(r, integrand, &w, w.conf, n, steps, 10000, rp, &st, &err); }
  c.note("%s n=%d chord %d+%d, long edge %g, confined to %g: %.6g +- %.2g, exact %.6g", mode == 0 ? "equilateral" : mode == 1 ? "one long edge" : "confined", n, w.a, w.k, w.ftc, w.conf, v, err, want); c.labelf("%s", mode == 0 ? "equilateral" : mode == 1 ? "one long edge" : "confined"); int N = w.vals.size(); CHECK(c, N > 0 && N == w.count && N >= steps - rp.burn_in - 1 && N <= steps - rp.burn_in, "%d samples in %d steps with %d burned", N, steps, rp.burn_in);
  Est e = estimate(w.vals, 2000); CHECK(c, close(v, e.mean, 1e-3, 1e-9), "result %.12g is not the average %.12Lg of the integrand", v, e.mean); if (e.ended && e.margin > 1e-9) CHECK(c, close(err, 1.96L * e.sigma / sqrtl(N), 1e-6, 1e-6), "error bar %.9g, expected %.9Lg", err, 1.96L * e.sigma / sqrtl(N)); CHECK(c, st.mp_steps + st.dihedral_steps + st.permute_steps == steps && st.mp_steps > 0 && st.dihedral_steps > 0 && (mode == 2) == (st.permute_steps == 0), "steps counted: %d %d %d of %d", st.mp_steps, st.dihedral_steps, st.permute_steps, steps);
  double frac = mode == 2 ? rp.beta : (1 - rp.delta) * rp.beta; CHECK(c, fabs(st.mp_steps / (double)steps - frac) < 7 * sqrt(frac * (1 - frac) / steps), "fraction of polytope steps %.4g, expected %.4g", st.mp_steps / (double)steps, frac); CHECK(c, fabs(v - want) < 5 * err + 2e-3, "average squared chord %.6g +- %.2g, exact value %.6g", v, err, want); if (mode != 2) tsmcmc_triangulation_free(T);
  char *s = tsmcmc_run_stats_MathematicaForm(st); CHECK(c, s && strstr(s, ("\"dihedral steps\" -> " + std::to_string(st.dihedral_steps)).c_str()) && strstr(s, ("\"permute steps\" -> " + std::to_string(st.permute_steps)).c_str()), "statistics printed as %s", s); free(s); s = tsmcmc_run_params_MathematicaForm(rp); CHECK(c, s && strstr(s, ("\"burn in steps\" -> " + std::to_string(rp.burn_in)).c_str()), "parameters printed as %s", s); free(s);
}
PROPERTY(C28, log, 1200, 20000, 60, "at least one line logged") {
  int mode = c.below(3), n = c.chance(1, 4) ? c.range(4, 150) : c.range(mode == 2 ? 4 : 3, 12); Chords d; string name; Walk w; w.c = &c; w.n = n; w.ftc = 0; w.conf = 0; w.count = 0; w.a = 0; w.k = c.range(1, n - 1); auto rp = mode == 2 ? tsmcmc_default_confined_parameters() : tsmcmc_default_unconfined_parameters(); rp.burn_in = c.range(1, 10); int steps = rp.burn_in + c.range(2, 40); rp.log_interval = c.range(1, 5); rp.logfile = tmpfile(); int len = c.chance(1, 3) ? c.range(0, 4090) : c.range(0, 60); for (int i = 0; i < len; i++) rp.logfile_name[i] = 'a' + i % 26; rp.logfile_name[len] = 0; uint64_t seed = c.u64(); R r(seed); double v; c.note("mode %d n=%d %d steps, file name of %d letters", mode, n, steps, len); c.labelf("n %s", n < 50 ? "<50" : ">=50");
  if (mode == 2) { w.conf = 2; v = tsmcmc_confined_equilateral_expectation(r, integrand, &w, 2.0, n, steps, 10000, rp, nullptr, nullptr); } else { tsmcmc_triangulation_t T = tsmcmc_fan_triangulation(n); if (mode == 1) { w.ftc = 1.5; v = tsmcmc_fixed_ftc_expectation(r, integrand, &w, 1.5, steps, 10000, T, rp, nullptr, nullptr); } else v = tsmcmc_equilateral_expectation(r, integrand, &w, steps, 10000, T, rp, nullptr, nullptr); tsmcmc_triangulation_free(T); }
  (void)v; string s = slurp(rp.logfile); int lines = 0; for (char ch : s) lines += ch == '\n'; c.nontrivial(lines > 0); const char *q = s.c_str(); string ne = "\"nedges\"->" + std::to_string(n) + ","; int k = 0; for (int i = 0; i < lines; i++) { int st; CHECK(c, sscanf(q, "{ \"step number\"->%d,", &st) == 1 && st % rp.log_interval == 0, "log line %d: %.80s", i, q); const char *nl = strchr(q, '\n'); string line(q, nl); CHECK(c, line.find(ne) != string::npos, "log line %d has no \"%s\"", i, ne.c_str()); size_t p = line.find("\"edge_lengths\"->{"); CHECK(c, p != string::npos, "no edge lengths"); int commas = 0; for (size_t j = p; line[j] != '}'; j++) commas += line[j] == ','; CHECK(c, commas == n - 1, "%d edge lengths logged, expected %d", commas + 1, n); p = line.find("\"integrand\"->"); CHECK(c, p != string::npos, "no integrand"); double iv = atof(line.c_str() + p + 13); int idx = st - rp.burn_in - 1; if (idx >= 0) { CHECK(c, idx < (int)w.vals.size() && fabs(iv - w.vals[idx]) <= 1e-4 * (1 + fabs(iv)), "step %d logged as %g, was %g", st, iv, w.vals[idx]); double su = 0; for (int j = 0; j <= idx; j++) su += w.vals[j]; p = line.find("\"sample mean\"->"); CHECK(c, p != string::npos, "no sample mean"); double sm = atof(line.c_str() + p + 15); CHECK(c, fabs(sm - su / (idx + 1)) <= 1e-4 * (1 + fabs(sm)), "step %d: sample mean logged as %g, is %g", st, sm, su / (idx + 1)); k++; } q = nl + 1; } (void)k;
  char *ps = tsmcmc_run_params_MathematicaForm(rp); CHECK(c, ps && strstr(ps, ("\"log file\"->\"" + string(rp.logfile_name) + "\" }").c_str()), "parameters printed without the file name"); free(ps);
}

// the judges of lengths, and what a random step or a random triangulation can be
PROPERTY(C28, judges, 80000, 2000000, 60, "at least four edges") {
  int n = size(c, 3, 12, 60); Chords d; string name; tsmcmc_triangulation_t T = make(c, n, d, name); c.nontrivial(n > 3); c.note("%s n=%d", name.c_str(), n); auto bump = [&](double &x) { double e = c.flag() ? 0 : pow(10, c.real(-12, 0)) * (c.flag() ? 1 : -1); x += e; return fabs(e); };
  { vector<double> el(n, 1.0); double e = bump(el[c.below(n)]); bool r = tsmcmc_edgelengths_equilateral(T, el.data()); if (e < 0.9e-8 || e > 1.1e-8) CHECK(c, r == (e < 1e-8), "edge off by %g judged %d", e, r); }
  { // diagonals of a real polygon, confined or not
    vector<V> P; V p = vec(0, 0, 0); for (int i = 0; i < n; i++) { P.push_back(p); p = p + vec(c.gauss(), c.gauss(), c.gauss()); } vector<double> el, dl; for (int i = 0; i < n; i++) el.push_back(dist(P[i], P[(i + 1) % n])); double mx = 0; for (auto &e : d) dl.push_back(dist(P[e.first], P[e.second])), mx = std::max(mx, dl.back()); if (n > 3) { CHECK(c, tsmcmc_diagonals_ok(T, el.data(), dl.data()), "diagonals of a polygon judged impossible"); double rad = mx * c.real(0.8, 1.2); CHECK(c, tsmcmc_confined_diagonals_ok(T, rad, el.data(), dl.data(), 0) == (mx <= rad), "longest diagonal %g, radius %g", mx, rad); int k = c.below(n - 3); double lo = 0, hi = 1e300; for (auto &t : triangles(n, d)) { int has = -1; double o[2]; int m = 0; for (int j = 0; j < 3; j++) { auto e = ch(t[j], t[(j + 1) % 3]); auto it = std::find(d.begin(), d.end(), e); if (it - d.begin() == k) has = j; else if (m < 2) o[m++] = it != d.end() ? dl[it - d.begin()] : el[e.second == n - 1 && e.first == 0 ? n - 1 : e.first]; } if (has >= 0) { lo = std::max(lo, fabs(o[0] - o[1])); hi = std::min(hi, o[0] + o[1]); } } double x = c.flag() ? lo - c.real(1e-6, 0.5) : hi + c.real(1e-6, 0.5); dl[k] = x; CHECK(c, !tsmcmc_diagonals_ok(T, el.data(), dl.data()) && !tsmcmc_confined_diagonals_ok(T, 1e9, el.data(), dl.data(), 0), "diagonal %d of length %g judged possible, its triangles allow %g to %g", k, x, lo, hi); c.label("impossible diagonal"); } }
  tsmcmc_triangulation_free(T);
}
PROPERTY(C28, chance, 600, 4000, 60, "every batch") {
  int kind = c.below(3); c.nontrivial(); uint64_t seed = c.u64(); R r(seed); c.labelf("%s", kind == 2 ? "order of the edges" : kind ? "dihedral angles" : "random triangulations");
  if (kind == 2) {   // every pair of edges is equally likely at two given places (the long edge stays at its own)
    int n = c.range(4, 6), N = 2000, lo = c.below(2); Chords d; string name; auto T = make(c, n, d, name); double ftc = lo ? c.real(1.2, n - 1.5) : 1, *el, *dl, *da; if (lo) tsmcmc_failure_to_close_ngon(r, T, ftc, &el, &dl, &da); else tsmcmc_equilateral_ngon(r, T, &el, &dl, &da); int p = c.below(n), q = (p + 1 + c.below(n - 1)) % n; if (lo && p && q && c.flag()) p = 0; auto ip = [&](plCurve *L, int i, int j) { auto *v = L->cp[0].vt; return dot(v[i + 1] - v[i], v[j + 1] - v[j]); };
    for (int k = 0; k < 5; k++) tsmcmc_dihedral_diagonal_step(r, T, el, dl, da, 0.5); tsmcmc_dihedrals_step(r, T, da); plCurve *A = tsmcmc_embed_polygon(T, el, dl, da); bool withlong = lo && (p == 0 || q == 0); vector<double> pr; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (!lo || (j == 0) == withlong) pr.push_back(ip(A, i, j)); plc_free(A); std::sort(pr.begin(), pr.end()); double sep = 1; for (size_t i = 1; i < pr.size(); i++) sep = std::min(sep, pr[i] - pr[i - 1]); c.note("%s n=%d, long edge %g, places %d and %d", name.c_str(), n, ftc, p, q); vector<int> cnt(pr.size(), 0); vector<double> e0(el, el + n), d0(dl, dl + n - 3), a0(da, da + n - 3); int got = 0;
    if (sep > 1e-4) for (int t = 0; t < N; t++) { std::copy(e0.begin(), e0.end(), el); std::copy(d0.begin(), d0.end(), dl); std::copy(a0.begin(), a0.end(), da); tsmcmc_edgepermute_step(r, T, el, dl, da); if (gap(T, el, dl) < 1e-5) continue; plCurve *B = tsmcmc_embed_polygon(T, el, dl, da); double x = ip(B, p, q); plc_free(B); size_t b = 0; for (size_t i = 0; i < pr.size(); i++) if (fabs(pr[i] - x) < fabs(pr[b] - x)) b = i; cnt[b]++; got++; } else c.label("pairs of edges alike");
    free(el); free(dl); free(da); tsmcmc_triangulation_free(T); if (got > N * 99 / 100) for (size_t i = 0; i < pr.size(); i++) { double w = 1.0 / pr.size(); CHECK(c, fabs(cnt[i] - got * w) < 7 * sqrt(N * w * (1 - w)) + (N - got), "permuting %d edges (long edge %d): one of the %zu pairs of edges comes to the places %d and %d %d times of %d", n, lo, pr.size(), p, q, cnt[i], got); } return; }
  if (kind == 0) { int n = c.range(4, 6), N = 4000; std::map<Chords, int> seen; for (int t = 0; t < N; t++) { auto T = tsmcmc_random_triangulation(r, n); Chords d; for (int i = 0; i < n - 3; i++) d.push_back(ch(T.diags[i].vt[0], T.diags[i].vt[1])); std::sort(d.begin(), d.end()); seen[d]++; tsmcmc_triangulation_free(T); } int want = n == 4 ? 2 : n == 5 ? 5 : 14; c.note("%d-gon: %zu triangulations", n, seen.size()); CHECK(c, (int)seen.size() == want, "%zu of the %d triangulations of the %d-gon were made in %d tries", seen.size(), want, n, N); }
  else { int n = c.range(4, 9), N = 4000, k = c.below(n - 3), l = c.below(n - 3); Chords d; string name; auto T = make(c, n, d, name); vector<double> da(n - 3, 0); double s[8] = {0}; int bins[8] = {0}; for (int t = 0; t < N; t++) { tsmcmc_dihedrals_step(r, T, da.data()); for (double x : da) CHECK(c, x >= 0 && x <= 2 * M_PI, "dihedral angle %g", x); bins[std::min(7, (int)(da[k] / (2 * M_PI) * 8))]++; if (l != k) s[0] += cos(da[k] - da[l]), s[1] += cos(da[k] + da[l]); } c.note("%s n=%d, angle %d", name.c_str(), n, k); for (int i = 0; i < 8; i++) CHECK(c, abs(bins[i] - N / 8) < 7 * sqrt(N * 7 / 64.0), "dihedral angle %d: %d of %d values in the %d-th eighth of the circle", k, bins[i], N, i); for (int i = 0; i < 2; i++) CHECK(c, fabs(s[i]) < 7 * sqrt(N / 2.0), "dihedral angles %d and %d are correlated", k, l); tsmcmc_triangulation_free(T); }
}
