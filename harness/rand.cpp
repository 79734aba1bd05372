// C26 samplers of random polygons, for every stream of random numbers; C27 closing an arc, self-avoiding polygons.
#include "curve.hpp"
#include <gsl/gsl_rng.h>
extern "C" {
bool plc_is_sap(plCurve *L);
double plc_xoshiro_uniform(uint64_t *state);
}
using namespace cv;
using cv::operator+; using cv::operator-; using cv::operator*;
// ---- a generator whose stream is chosen by the test: ordinary numbers mixed with extreme ones
struct GS { uint64_t s; int64_t at; uint32_t ext; uint64_t used; };
static uint64_t sm(uint64_t &s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static unsigned long g_get(void *p) { GS *g = (GS *)p; uint64_t r = sm(g->s); if ((int64_t)g->used++ == g->at) return g->ext; return (uint32_t)r; }
static double g_dbl(void *p) { return g_get(p) / 4294967296.0; }
static void g_set(void *p, unsigned long s) { GS *g = (GS *)p; g->s = s; g->at = -1; g->used = 0; }
static const gsl_rng_type G = {"chosen", 0xffffffffu, 0, sizeof(GS), g_set, g_get, g_dbl};
struct Stream { uint64_t seed; int64_t at; uint32_t ext; };
// at most one extreme number: a real generator gives one with probability 2^-32, and two in one polygon never
static Stream stream(pbt::Case &c, int n) { static const uint32_t ext[] = {0, 0xffffffffu, 0x80000000u, 1, 0xfffffffeu, 0x40000000u, 0xc0000000u, 0x7fffffffu}; Stream s; s.seed = c.u64(); s.at = c.flag() ? (int64_t)c.below(3 * n + 6) : -1; s.ext = ext[c.below(8)]; return s; }
struct Rng { gsl_rng *r; Rng(Stream s) { r = gsl_rng_alloc(&G); GS *g = (GS *)r->state; g->s = s.seed; g->at = s.at; g->ext = s.ext; g->used = 0; } Rng(uint64_t s) { r = gsl_rng_alloc(&G); ((GS *)r->state)->s = s; } ~Rng() { gsl_rng_free(r); } operator gsl_rng *() { return r; } };
static void sound(pbt::Case &c, plCurve *L, int nv, bool open, const char *what) { CHECK(c, L, "%s: no polygon", what); CHECK(c, L->nc == 1 && L->cp[0].nv == nv && L->cp[0].open == open && L->cp[0].cc == 0 && L->cst == nullptr, "%s: %d components, %d vertices (expected %d), open %d, %d colours", what, L->nc, L->cp[0].nv, nv, L->cp[0].open, L->cp[0].cc); auto &p = L->cp[0]; for (int i = 0; i < nv; i++) for (double x : p.vt[i].c) CHECK(c, std::isfinite(x), "%s: vertex %d of %d is not finite", what, i, nv); V a = open ? p.vt[1] : p.vt[nv - 1], b = open ? p.vt[nv - 2] : p.vt[0]; CHECK(c, memcmp(&a, &p.vt[-1], sizeof a) == 0 && memcmp(&b, &p.vt[nv], sizeof b) == 0, "%s: wrap-around vertices are stale", what); }
static vector<V> edges(plCurve *L) { vector<V> e; auto &p = L->cp[0]; for (int i = 0; i < p.nv - (p.open ? 1 : 0); i++) e.push_back(p.vt[(i + 1) % p.nv] - p.vt[i]); return e; }
static double total(const vector<V> &e) { double s = 0; for (auto &v : e) s += norm(v); return s; }
static const char *NAME[] = {"closed", "open", "closed plane", "open plane", "equilateral closed", "equilateral open"};
static plCurve *sample(int kind, gsl_rng *r, int n) { switch (kind) { case 0: return plc_random_closed_polygon(r, n); case 1: return plc_random_open_polygon(r, n); case 2: return plc_random_closed_plane_polygon(r, n); case 3: return plc_random_open_plane_polygon(r, n); case 4: return plc_random_equilateral_closed_polygon(r, n); default: return plc_random_equilateral_open_polygon(r, n); } }
static bool same_curve(plCurve *A, plCurve *B) { return A->nc == B->nc && A->cp[0].nv == B->cp[0].nv && memcmp(A->cp[0].vt, B->cp[0].vt, A->cp[0].nv * sizeof(V)) == 0; }
PROPERTY(C26, shapes, 900000, 3000000, 60, "at least four edges") {
  int kind = c.below(6); bool cl = kind % 2 == 0, plane = kind == 2 || kind == 3, eq = kind > 3; int n = c.range(cl ? 3 : 1, c.chance(1, 8) ? 250 : 14); if (c.chance(1, 300)) n = kind == 4 ? c.range(250, 3000) : c.range(250, 5000); Stream sd = stream(c, n); c.nontrivial(n > 3); c.labelf("%s n=%s", NAME[kind], n < 15 ? "<15" : n <= 250 ? "<=250" : ">250"); c.labelf("%s", sd.at < 0 ? "ordinary stream" : "one extreme number"); c.note("%s polygon with %d edges, stream %llu, number %lld is %u", NAME[kind], n, (unsigned long long)sd.seed, (long long)sd.at, sd.ext);
  Rng r(sd), r2(sd); plCurve *L = sample(kind, r, n), *M = sample(kind, r2, n); const char *w = NAME[kind]; sound(c, L, cl ? n : n + 1, !cl, w); CHECK(c, M && same_curve(L, M), "%s: two runs from the same stream differ", w);
  auto e = edges(L); double tol = 1e-9; if (eq) { double len = kind == 4 ? 1 : 2.0 / n; for (int i = 0; i < n; i++) CHECK(c, fabs(norm(e[i]) - len) < tol, "%s: edge %d of %d has length %.15g, expected %.15g", w, i, n, norm(e[i]), len); } else CHECK(c, fabs(total(e) - 2) < tol, "%s: length %.15g", w, total(e));
  if (plane) { V nrm = vec(0, 0, 0); for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i && j < 40; j++) { V x = cross(e[i], e[j]); if (norm(x) > norm(nrm)) nrm = x; } if (norm(nrm) > 1e-8) { nrm = (1 / norm(nrm)) * nrm; for (auto &v : e) CHECK(c, fabs(dot(nrm, v)) < tol, "%s: edge (%g %g %g) leaves the plane", w, plc_M_clist(v)); } }
  plc_free(L); plc_free(M);
}
// exact expectations over the whole family; a batch of samples, judged at more than seven standard errors
PROPERTY(C26, averages, 900, 3000, 60, "every batch") {
  int kind = c.below(6); bool cl = kind % 2 == 0; int n = c.range(cl ? 4 : 2, 12), N = pbt::g_thorough ? 40000 : 8000; uint64_t seed = c.u64(); Rng r(seed); c.nontrivial(); c.labelf("%s", NAME[kind]); c.note("%s n=%d, %d samples", NAME[kind], n, N);
  int k = c.range(1, cl ? n - 1 : n), i0 = c.below(cl ? n : n - k + 1), a = c.below(n), b = (a + 1 + c.below(n - 1)) % n, d = c.below(n); double e2 = kind == 0 ? 6.0 / (n * (n + 1.0)) : kind == 1 ? 12.0 / (n * (2.0 * n + 1)) : kind == 2 ? 8.0 / (n * (n + 2.0)) : kind == 3 ? 8.0 / (n * (n + 1.0)) : kind == 4 ? 1.0 : 4.0 / (n * (double)n);
  struct Stat { const char *name; double want, s = 0, q = 0; }; vector<Stat> st = {{"mean squared edge", e2}, {"product of two edges", cl ? -e2 / (n - 1) : 0}, {"squared chord", cl ? e2 * k * (n - k) / (n - 1) : e2 * k}, {"triple product", 0}, {"edge length", kind == 4 ? 1 : 2.0 / n}, {"first coordinate of an edge", 0}, {"last coordinate of an edge", 0}, {"anisotropy", 0}, {"first times last coordinate", 0}};
  for (int t = 0; t < N; t++) { plCurve *L = sample(kind, r, n); auto e = edges(L); V ch = vec(0, 0, 0); for (int j = 0; j < k; j++) ch = ch + e[(i0 + j) % n]; double v[] = {dot(e[a], e[a]), dot(e[a], e[b]), dot(ch, ch), d != a && d != b ? dot(cross(e[a], e[b]), e[d]) : 0, norm(e[a]), e[a].c[0], e[a].c[2], e[a].c[0] * e[a].c[0] - e[a].c[2] * e[a].c[2], e[a].c[0] * e[a].c[2]}; for (size_t j = 0; j < st.size(); j++) { st[j].s += v[j]; st[j].q += (v[j] - st[j].want) * (v[j] - st[j].want); } plc_free(L); }
  for (size_t j = 0; j < st.size(); j++) { if (kind == 4 && j > 4) break; auto &s = st[j]; double m = s.s / N, se = sqrt(s.q / N / N); CHECK(c, fabs(m - s.want) < 7 * se + 1e-9, "%s, n=%d: the average of %s over %d samples is %.6g, exact value %.6g (%.1f standard errors)", NAME[kind], n, s.name, N, m, s.want, fabs(m - s.want) / se); }
}
PROPERTY(C26, vectors, 900000, 3000000, 60, "every case") {
  c.nontrivial(); srand((unsigned)c.below(1u << 31)); V v = plc_random_vect(); CHECK(c, fabs(norm(v) - 1) < 1e-12, "random vector of length %.15g", norm(v)); Rng r(stream(c, 3)); V p = rvec(c, 1), q = p; double rad = pow(10, c.real(-6, 3)); plc_perturb_vect(r, &p, rad); CHECK(c, dist(p, q) <= rad * (1 + 1e-9) + 1e-13 && std::isfinite(p.c[0]), "perturbed by %.15g > %.15g", dist(p, q), rad); c.note("radius %g", rad);
  uint64_t s = c.u64(); uint64_t *x = plc_xoshiro_init(s), *y = plc_xoshiro_init(s); for (int i = 0; i < 10; i++) { double u = plc_xoshiro_uniform(x), w = plc_xoshiro_uniform(y); CHECK(c, u == w && u >= 0 && u <= 1, "stream of seed %llu: %.17g, %.17g", (unsigned long long)s, u, w); } plc_xoshiro_free(x); plc_xoshiro_free(y);
}
// ---------------------------------------------------------------- C27
static Curve grab(plCurve *L) { Curve C; for (int i = 0; i < L->nc; i++) { Strand s; s.open = L->cp[i].open; for (int j = 0; j < L->cp[i].nv; j++) s.v.push_back(L->cp[i].vt[j]); s.cst.resize(s.v.size()); C.cp.push_back(s); } return C; }
static double len(const Strand &s) { double r = 0; for (size_t i = 0; i + 1 < s.v.size(); i++) r += dist(s.v[i], s.v[i + 1]); if (!s.open) r += dist(s.v.back(), s.v[0]); return r; }
PROPERTY(C27, closure, 800000, 3000000, 60, "a closed polygon was made, with at least two new edges") {
  // an arc with some length, in one component of a curve with total length below (or sometimes above) two
  int nc = c.chance(1, 3) ? c.range(1, 3) : 1, cp = c.below(nc); Curve C; int col = c.range(0, 2); for (int i = 0; i < nc; i++) { Strand s; s.open = i == cp ? !c.chance(1, 20) : c.flag(); int n = c.range(s.open ? 2 : 3, 9); V p = rvec(c, 2); for (int j = 0; j < n; j++) { s.v.push_back(p); p = p + unit(c); } if (i == cp && s.open && n > 3 && c.chance(1, 10)) s.v.back() = c.flag() ? s.v[0] : s.v[0] + c.real(0.001, 0.05) * unit(c); if (col) for (int j = 0; j < (col == 1 ? 1 : n); j++) s.clr.push_back({c.unit(), c.unit(), c.unit(), 1}); s.cst.resize(n); C.cp.push_back(s); }
  double tot = 0; for (auto &s : C.cp) tot += len(s); auto &S = C.cp[cp]; int n = S.v.size(); double f = c.chance(1, 10) ? c.real(0.9, 1.6) : c.real(0.05, 0.97); double sc = 2 * f / tot; if (c.chance(1, 8) && S.open) { double gap = dist(S.v[0], S.v[n - 1]); static const double off[] = {1e-6, 1e-9, 1e-11}; sc = 2 / (tot + gap) * (1 - off[c.pick({1, 1, 1})]); c.label("hardly any slack"); } for (auto &s : C.cp) for (auto &v : s.v) v = sc * v;
  if (nc > 1 && c.chance(1, 2)) { Curve D = C; int runs = c.range(1, 3); rconstraints(c, D, runs); for (auto &q : D.cp[cp].cst) q = Cst(); C = D; } int ne = n - 1 + (c.chance(1, 6) ? c.range(0, 1) : c.range(2, c.chance(1, 10) ? 60 : 9)); if (c.chance(1, 60)) ne = c.range(0, n - 1); if (ne == 2 && n == 2) ne = 3; Stream sd = stream(c, ne + 1);
  plCurve *L = build(C); double L0 = 0, gap = S.open ? dist(S.v[0], S.v[n - 1]) : 0; for (auto &s : C.cp) L0 += len(s); int extra = ne - (n - 1); Rng r(sd); c.note("%s, component %d, total length %.9g, gap %.9g, closed with %d edges", show(C).c_str(), cp, L0, gap, ne); plCurve *M = plc_loop_closure(r, cp, L, ne); Tol t; compare(c, C, L, "input");
  double slack = 2 - L0 - gap; bool must = S.open && ((extra >= 2 && slack > 1e-9) || (extra == 1 && gap > 1e-6 && slack > 1e-12 && slack < 5e-11)), mustnot = !S.open || extra < 1 || slack < -1e-9 || (extra == 1 && slack > 1e-6); c.labelf("%s components=%d", must ? "possible" : mustnot ? "impossible" : "borderline", nc); if (must) CHECK(c, M, "no closure although there is slack %.6g and %d new edges", slack, extra); if (mustnot) CHECK(c, !M, "closed although %s", !S.open ? "the component is closed" : extra < 1 ? "there is no room for an edge" : slack < 0 ? "the curve is too long" : "one edge cannot have that length");
  if (M) { c.nontrivial(extra > 1); double T = 0; Curve D = grab(M); CHECK(c, M->nc == nc, "%d components, expected %d", M->nc, nc); for (auto &s : D.cp) T += len(s); CHECK(c, fabs(T - 2) < 1e-7, "total length %.12g, expected 2", T); auto &m = M->cp[cp]; CHECK(c, !m.open && m.nv == ne, "component has %d vertices (open %d), expected %d", m.nv, m.open, ne); Curve W = C; auto &w = W.cp[cp]; w.open = false; for (int j = n; j < ne; j++) { w.v.push_back(m.vt[j]); CHECK(c, std::isfinite(m.vt[j].c[0] + m.vt[j].c[1] + m.vt[j].c[2]), "vertex %d is not finite", j); } if (col == 2) for (int j = n; j < ne; j++) { auto &q = m.clr[std::min(j, std::max(m.cc - 1, 0))]; w.clr.push_back({q.r, q.g, q.b, q.alpha}); } w.cst.assign(ne, Cst()); w.v.resize(ne); if ((int)w.clr.size() > ne) w.clr.resize(ne); compare(c, W, M, "closed curve"); }
  if (M) plc_free(M); plc_free(L);
}
PROPERTY(C27, self_avoiding, 8000, 60000, 60, "every polygon") {
  int n = c.range(5, pbt::g_thorough ? 15 : 12); uint64_t seed = c.chance(1, 3) ? c.below(50) : c.u64(); c.nontrivial(); c.labelf("n=%d", n); c.note("n=%d seed %llu", n, (unsigned long long)seed); uint64_t *x = plc_xoshiro_init(seed), *y = plc_xoshiro_init(seed); for (int rep = 0; rep < 2; rep++) { plCurve *L = plc_random_equilateral_closed_self_avoiding_polygon(x, n), *M = plc_random_equilateral_closed_self_avoiding_polygon(y, n); sound(c, L, n, false, "self-avoiding polygon"); CHECK(c, same_curve(L, M), "two runs from the same seed differ"); auto e = edges(L); for (int i = 0; i < n; i++) CHECK(c, fabs(norm(e[i]) - 1) < 1e-9, "edge %d has length %.15g", i, norm(e[i])); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) CHECK(c, dist(L->cp[0].vt[i], L->cp[0].vt[j]) > 1 - 1e-9, "vertices %d and %d at distance %.15g", i, j, dist(L->cp[0].vt[i], L->cp[0].vt[j])); CHECK(c, plc_is_sap(L), "the polygon is not recognised as self-avoiding"); plc_free(L); plc_free(M); } plc_xoshiro_free(x); plc_xoshiro_free(y);
}
PROPERTY(C27, self_avoiding_test, 600000, 3000000, 60, "a curve with at least four vertices") {
  int nc = c.chance(1, 3) ? c.range(2, 3) : 1; Curve C; double sp = c.real(0.9, 2.2); for (int i = 0; i < nc; i++) { Strand s; s.open = c.flag(); int n = c.range(s.open ? 2 : 3, 7); V p = vec(c.range(0, 3) * sp, c.range(0, 3) * sp, c.range(0, 3) * sp); for (int j = 0; j < n; j++) { s.v.push_back(p); V d = vec(0, 0, 0); d.c[c.below(3)] = c.flag() ? sp : -sp; p = p + d + 0.02 * unit(c); } s.cst.resize(n); C.cp.push_back(s); } vector<V> all; for (auto &s : C.cp) for (auto &v : s.v) all.push_back(v); double m = 1e9; for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) m = std::min(m, dist(all[i], all[j])); if (fabs(m - 1) < 1e-9) c.discard("distance of exactly one"); c.nontrivial(all.size() > 3); c.labelf("components=%d self-avoiding=%d", nc, m > 1); c.note("%zu vertices, least distance %.9g", all.size(), m); plCurve *L = build(C); bool r = plc_is_sap(L); CHECK(c, r == (m > 1), "judged %s, least distance between vertices %.9g", r ? "self-avoiding" : "not self-avoiding", m); compare(c, C, L, "curve"); plc_free(L);
}

// the new edges are exchangeable, and their distribution is symmetric about the axis of the gap
struct Avg { double s = 0, q = 0; int n = 0; void add(double x) { s += x; q += x * x; n++; } double mean() const { return s / n; } double se() const { double m = mean(); return sqrt(std::max(0.0, q / n - m * m) / n); } };
PROPERTY(C27, closure_averages, 500, 3000, 60, "every batch") {
  int m = c.range(2, 8), N = pbt::g_thorough ? 20000 : 4000, n = c.range(2, 4); Curve C; Strand s; s.open = true; V p = rvec(c, 1); for (int j = 0; j < n; j++) { s.v.push_back(p); p = p + unit(c); } s.cst.resize(n); double g = dist(s.v[0], s.v[n - 1]), t = len(s), f = c.real(0.1, 0.95), sc = 2 * f / (t + g); if (g < 1e-3) c.discard("closed arc"); for (auto &v : s.v) v = sc * v; C.cp.push_back(s); plCurve *L = build(C); uint64_t seed = c.u64(); Rng r(seed); c.nontrivial(); int i = c.below(m), k = (i + 1 + c.below(m - 1)) % m, j = (i + 1 + c.below(m - 1)) % m, l = (k + 1 + c.below(m - 1)) % m; c.labelf("%d new edges", m); c.note("%d new edges, slack %g, edges %d,%d against %d,%d", m, 1 - f, i, j, k, l); V ax = s.v[0] - s.v[n - 1]; ax = (1 / norm(ax)) * ax; V o = vec(1, 0, 0); if (fabs(ax.c[0]) > 0.8) o = vec(0, 1, 0); V u = cross(ax, o); u = (1 / norm(u)) * u; V w = cross(ax, u); Avg a[6]; const char *nm[] = {"squared length of one new edge minus that of another", "product of two new edges minus that of two others", "component across the gap", "component across the gap, other direction", "difference of the squares of the components across the gap", "product of the components across the gap"};
  for (int x = 0; x < N; x++) { plCurve *M = plc_loop_closure(r, 0, L, n - 1 + m); CHECK(c, M, "no closure"); auto e = edges(M); auto E = [&](int q) { return e[n - 1 + q]; }; a[0].add(dot(E(i), E(i)) - dot(E(k), E(k))); a[1].add(dot(E(i), E(j)) - dot(E(k), E(l))); double y = dot(E(i), u), z = dot(E(i), w); a[2].add(y); a[3].add(z); a[4].add(y * y - z * z); a[5].add(y * z); plc_free(M); }
  for (int x = 0; x < 6; x++) CHECK(c, fabs(a[x].mean()) < 7 * a[x].se() + 1e-9, "the average of the %s over %d closures is %.6g (%.1f standard errors), expected 0", nm[x], N, a[x].mean(), fabs(a[x].mean()) / a[x].se()); plc_free(L);
}
// self-avoiding polygons against rejection sampling of equilateral polygons (uniform diagonals and dihedral angles)
static double u01(uint64_t &s) { return (sm(s) >> 11) / 9007199254740992.0; }
static bool reference(uint64_t &s, int n, vector<V> &P) { for (int tries = 0; tries < 4000000; tries++) { double d[16]; bool ok = true; d[0] = 1; for (int i = 1; i <= n - 3 && ok; i++) { d[i] = d[i - 1] + 2 * u01(s) - 1; ok = d[i] >= 0 && d[i] + d[i - 1] >= 1; } if (!ok) continue; d[n - 2] = 1; if (n > 3 && (fabs(d[n - 3] - 1) > 1 || d[n - 3] + 1 < 1)) continue; // vertex 0 at the origin, vertex i+1 at distance d[i]
    P.assign(n, vec(0, 0, 0)); P[1] = vec(1, 0, 0); V nrm = vec(0, 0, 1); for (int i = 1; i <= n - 2; i++) { double a = d[i - 1], b = d[i], cs = a > 0 && b > 0 ? (a * a + b * b - 1) / (2 * a * b) : 1; cs = std::max(-1.0, std::min(1.0, cs)); V x = (1 / a) * P[i], y = cross(nrm, x); P[i + 1] = b * (cs * x + sqrt(1 - cs * cs) * y); V z = (1 / b) * P[i + 1]; double th = 2 * M_PI * u01(s); V q = cross(z, nrm); nrm = cos(th) * nrm + sin(th) * q; } bool sap = true; for (int i = 0; i < n && sap; i++) for (int j = 0; j < i; j++) if (dist(P[i], P[j]) < 1 - 1e-9) { sap = false; break; } if (sap) return true; } return false; }
PROPERTY(C27, self_avoiding_averages, 300, 1500, 200, "every batch") {
  int n = c.range(5, 9), N = pbt::g_thorough ? 20000 : 4000; uint64_t seed = c.u64(), s2 = c.u64(); c.nontrivial(); c.labelf("n=%d", n); int a = c.below(n), k = c.range(2, n / 2), b = (a + 1 + c.below(n - 1)) % n, d = c.below(n), e0 = c.below(n); c.note("n=%d, chord %d+%d, edges %d %d %d", n, a, k, b, d, e0); uint64_t *x = plc_xoshiro_init(seed); Avg A[5], B[5]; const char *nm[] = {"squared chord", "product of two edges", "triple product of three edges", "squared triple product", "squared radius of gyration"};
  auto stats = [&](const vector<V> &P, Avg *o) { auto E = [&](int i) { return P[(i + 1) % n] - P[i % n]; }; V q = P[(a + k) % n] - P[a]; o[0].add(dot(q, q)); o[1].add(dot(E(a), E(b))); double t = dot(cross(E(b), E(d)), E(e0)); o[2].add(t); o[3].add(t * t); double g = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) g += dot(P[i] - P[j], P[i] - P[j]); o[4].add(g / n / n); };
  for (int t = 0; t < N; t++) { plCurve *L = plc_random_equilateral_closed_self_avoiding_polygon(x, n); vector<V> P(L->cp[0].vt, L->cp[0].vt + n), Q; plc_free(L); stats(P, A); CHECK(c, reference(s2, n, Q), "no reference polygon"); stats(Q, B); } plc_xoshiro_free(x);
  for (int i = 0; i < 5; i++) CHECK(c, fabs(A[i].mean() - B[i].mean()) < 7 * hypot(A[i].se(), B[i].se()) + 1e-9, "n=%d: the average of the %s over %d polygons is %.6g, over reference polygons %.6g (%.1f standard errors)", n, nm[i], N, A[i].mean(), B[i].mean(), fabs(A[i].mean() - B[i].mean()) / hypot(A[i].se(), B[i].se()));
}
