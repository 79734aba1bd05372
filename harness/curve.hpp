// Independent model of polygonal curves with colours and constraints.
#pragma once
#include "pbt.hpp"
#include <array>
#include <numeric>
extern "C" {
#include "plCurve.h"
}
namespace cv {
using std::vector; using std::array; using std::map; using std::pair; using std::string;
typedef plc_vector V;
inline V vec(double x, double y, double z) { V v; v.c[0] = x; v.c[1] = y; v.c[2] = z; return v; }
inline V operator+(V a, V b) { return vec(a.c[0] + b.c[0], a.c[1] + b.c[1], a.c[2] + b.c[2]); }
inline V operator-(V a, V b) { return vec(a.c[0] - b.c[0], a.c[1] - b.c[1], a.c[2] - b.c[2]); }
inline V operator*(double s, V a) { return vec(s * a.c[0], s * a.c[1], s * a.c[2]); }
inline double dot(V a, V b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
inline V cross(V a, V b) { return vec(a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0]); }
inline double norm(V a) { return sqrt(dot(a, a)); }
inline double dist(V a, V b) { return norm(a - b); }
inline double maxabs(V a) { return std::max(fabs(a.c[0]), std::max(fabs(a.c[1]), fabs(a.c[2]))); }
// angle between two vectors, robust
inline double angle(V a, V b) { return atan2(norm(cross(a, b)), dot(a, b)); }
// Rodrigues rotation about a unit axis
inline V rot(V v, V u, double t) { return cos(t) * v + sin(t) * cross(u, v) + ((1 - cos(t)) * dot(u, v)) * u; }

struct Cst { int kind = 0; V a = vec(0, 0, 0), b = vec(0, 0, 0); bool operator==(const Cst &o) const { return kind == o.kind && (kind == 0 || (memcmp(&a, &o.a, sizeof a) == 0 && memcmp(&b, &o.b, sizeof b) == 0)); } };
struct Strand { bool open = false; vector<V> v; vector<array<double, 4>> clr; vector<Cst> cst; };
struct Curve { vector<Strand> cp; int verts() const { int n = 0; for (auto &s : cp) n += (int)s.v.size(); return n; } };

inline double coord(pbt::Case &c, int style) {
  switch (style) {
    case 0: return c.range(-3, 3);
    case 1: return c.real(-10, 10);
    case 2: return c.gauss();
    default: { double m = c.real(1, 10); int e = c.range(-12, 12); return (c.flag() ? -m : m) * pow(10.0, e); }
  }
}
inline V rvec(pbt::Case &c, int style) { double x = coord(c, style), y = coord(c, style), z = coord(c, style); return vec(x, y, z); }
inline V unit(pbt::Case &c) { if (c.chance(1, 6)) { V e = vec(0, 0, 0); int i = (int)c.below(3); e.c[i] = c.flag() ? -1 : 1; return e; } for (;;) { V v = vec(c.gauss(), c.gauss(), c.gauss()); double n = norm(v); if (n > 1e-3) return (1 / n) * v; if (!c.random && c.pos >= c.in.size()) return vec(0, 0, 1); } }
// style 0..3 coordinates; colours: 0, 1 or one per vertex
inline Strand rstrand(pbt::Case &c, int nmin, int nmax, int style, bool colours) {
  Strand s; int n = c.range(nmin, nmax); s.open = n < 3 || c.chance(2, 5); for (int i = 0; i < n; i++) s.v.push_back(rvec(c, style));
  int k = colours ? c.pick({2, 1, 2}) : 0; int nc = k == 0 ? 0 : k == 1 ? 1 : n; for (int i = 0; i < nc; i++) { array<double, 4> q; for (auto &x : q) x = c.chance(1, 2) ? c.unit() : (double)c.range(0, 1); s.clr.push_back(q); }
  s.cst.resize(n); return s; }
inline Curve rcurve(pbt::Case &c, int cmax, int nmin, int nmax, int style, bool colours) { Curve C; if (c.chance(1, 40)) cmax = 16; if (c.chance(1, 40)) nmax = cmax > 8 ? 30 : c.chance(1, 15) ? 1200 : 300; int k = c.range(1, cmax); for (int i = 0; i < k; i++) C.cp.push_back(rstrand(c, nmin, nmax, style, colours)); return C; }
// random constraint runs laid directly on the model (runs never separated by accident: the model is per vertex)
inline Cst rcst(pbt::Case &c, bool fixed_ok = true) { Cst k; k.kind = fixed_ok ? c.range(1, 3) : c.range(2, 3); auto q = [&]() { return (double)c.range(-4, 4) / (c.flag() ? 1 : 3); };
  k.a = vec(q(), q(), q()); if (k.kind != 1 && norm(k.a) < 0.1) k.a = vec(0, 0, 1); if (k.kind == 2) k.b = vec(q(), q(), q()); if (k.kind == 3) k.b = vec(q(), 0, 0); return k; }
// another constraint that differs from k in one coordinate (or, for a line, in the order of its vectors)
inline Cst near_cst(pbt::Case &c, Cst k) { if (k.kind == 2 && c.chance(1, 5) && norm(k.b) >= 0.1) { std::swap(k.a, k.b); return k; } V &v = k.kind == 1 || c.flag() ? k.a : k.b; int i = k.kind == 3 && &v == &k.b ? 0 : (int)c.below(3); double o = v.c[i]; v.c[i] = c.range(-4, 4); if (fabs(v.c[i] - o) < 0.1) v.c[i] = 5; if (k.kind != 1 && norm(k.a) < 0.1) k.a = vec(0, 0, 1); return k; }
inline void rconstraints(pbt::Case &c, Curve &C, int runs) { vector<Cst> pool; for (int i = 0; i < runs; i++) { auto &s = C.cp[c.below(C.cp.size())]; int n = (int)s.v.size(); Cst k = !pool.empty() && c.chance(1, 3) ? pool[c.below(pool.size())] : !pool.empty() && c.chance(1, 3) ? near_cst(c, pool[c.below(pool.size())]) : rcst(c); pool.push_back(k); int a = (int)c.below(n), len = k.kind == 1 ? 1 : c.range(1, n - a); for (int j = a; j < a + len; j++) s.cst[j] = k; } }

inline plCurve *build(const Curve &C) {
  vector<int> nv, cc; bool op[64]; int k = 0; for (auto &s : C.cp) { nv.push_back((int)s.v.size()); cc.push_back((int)s.clr.size()); op[k++] = s.open; }
  plCurve *L = plc_new((int)C.cp.size(), nv.data(), op, cc.data());
  for (size_t i = 0; i < C.cp.size(); i++) { for (size_t j = 0; j < C.cp[i].v.size(); j++) L->cp[i].vt[j] = C.cp[i].v[j]; for (size_t j = 0; j < C.cp[i].clr.size(); j++) { auto &q = C.cp[i].clr[j]; L->cp[i].clr[j] = plc_build_color(q[0], q[1], q[2], q[3]); } }
  plc_fix_wrap(L);
  for (size_t i = 0; i < C.cp.size(); i++) for (size_t j = 0; j < C.cp[i].cst.size(); j++) { auto &k = C.cp[i].cst[j]; if (k.kind == 1) plc_set_fixed(L, (int)i, (int)j, k.a); else if (k.kind == 2) plc_constrain_to_line(L, (int)i, (int)j, 1, k.a, k.b); else if (k.kind == 3) plc_constrain_to_plane(L, (int)i, (int)j, 1, k.a, k.b.c[0]); }
  return L; }

// structural soundness of a library curve; constraints expanded per vertex
inline vector<vector<Cst>> expand(pbt::Case &c, const plCurve *L, const char *what) {
  vector<vector<Cst>> r; for (int i = 0; i < L->nc; i++) r.push_back(vector<Cst>(L->cp[i].nv));
  int pc = -1, pe = 0; int guard = 0;
  for (plc_constraint *t = L->cst; t; t = t->next) { CHECK(c, ++guard < 100000, "%s: constraint list does not end", what);
    CHECK(c, t->kind == fixed || t->kind == line || t->kind == plane, "%s: constraint of kind %d in the list", what, (int)t->kind);
    CHECK(c, t->cmp >= 0 && t->cmp < L->nc, "%s: constraint on component %d of %d", what, t->cmp, L->nc);
    CHECK(c, t->vert >= 0 && t->num_verts >= 1 && t->vert + t->num_verts <= L->cp[t->cmp].nv, "%s: constraint on component %d covers vertices %d..%d of %d", what, t->cmp, t->vert, t->vert + t->num_verts - 1, L->cp[t->cmp].nv);
    CHECK(c, t->kind != fixed || t->num_verts == 1, "%s: fixed constraint on %d vertices", what, t->num_verts);
    CHECK(c, t->cmp > pc || (t->cmp == pc && t->vert >= pe), "%s: constraints out of order or overlapping at component %d vertex %d", what, t->cmp, t->vert);
    pc = t->cmp; pe = t->vert + t->num_verts;
    for (int j = t->vert; j < pe; j++) { Cst k; k.kind = t->kind; k.a = t->vect[0]; k.b = t->vect[1]; if (k.kind == 3) k.b.c[1] = k.b.c[2] = 0; if (k.kind == 1) k.b = vec(0, 0, 0); r[t->cmp][j] = k; } }
  return r; }
inline bool same(V a, V b, double rel, double abs) { for (int i = 0; i < 3; i++) { double x = a.c[i], y = b.c[i]; if (x == y) continue; if (!(fabs(x - y) <= abs + rel * std::max(fabs(x), fabs(y)))) return false; } return true; }
struct Tol { double vr = 0, va = 0, kr = 0, ka = 0; };
inline void compare(pbt::Case &c, const Curve &C, const plCurve *L, const char *what, Tol t = Tol(), bool constraints = true) {
  CHECK(c, L != nullptr, "%s: no curve", what);
  CHECK(c, L->nc == (int)C.cp.size(), "%s: %d components, expected %zu", what, L->nc, C.cp.size());
  for (int i = 0; i < L->nc; i++) { auto &s = C.cp[i]; auto &p = L->cp[i]; int n = (int)s.v.size();
    CHECK(c, p.nv == n, "%s: component %d has %d vertices, expected %d", what, i, p.nv, n); CHECK(c, p.open == s.open, "%s: component %d open=%d, expected %d", what, i, p.open, s.open);
    CHECK(c, p.cc == (int)s.clr.size(), "%s: component %d has %d colours, expected %zu", what, i, p.cc, s.clr.size());
    for (int j = 0; j < n; j++) CHECK(c, same(p.vt[j], s.v[j], t.vr, t.va), "%s: component %d vertex %d is (%.17g,%.17g,%.17g), expected (%.17g,%.17g,%.17g)", what, i, j, plc_M_clist(p.vt[j]), plc_M_clist(s.v[j]));
    for (size_t j = 0; j < s.clr.size(); j++) { double q[4] = {p.clr[j].r, p.clr[j].g, p.clr[j].b, p.clr[j].alpha}; for (int k = 0; k < 4; k++) CHECK(c, fabs(q[k] - s.clr[j][k]) <= t.vr * fabs(s.clr[j][k]), "%s: component %d colour %zu channel %d is %.17g, expected %.17g", what, i, j, k, q[k], s.clr[j][k]); }
    if (n > 1) { V a = s.open ? p.vt[1] : p.vt[n - 1], b = s.open ? p.vt[n - 2] : p.vt[0]; CHECK(c, memcmp(&a, &p.vt[-1], sizeof a) == 0 && memcmp(&b, &p.vt[n], sizeof b) == 0, "%s: wrap-around vertices of component %d are stale", what, i); } }
  if (constraints) { auto e = expand(c, L, what); for (int i = 0; i < L->nc; i++) for (size_t j = 0; j < e[i].size(); j++) { const Cst &x = e[i][j], &y = C.cp[i].cst[j];
      bool ok = x.kind == y.kind && (x.kind == 0 || (same(x.a, y.a, t.kr, t.ka) && same(x.b, y.b, t.kr, t.ka)));
      CHECK(c, ok, "%s: component %d vertex %zu has constraint kind %d (%g,%g,%g;%g,%g,%g), expected kind %d (%g,%g,%g;%g,%g,%g)", what, i, j, x.kind, plc_M_clist(x.a), plc_M_clist(x.b), y.kind, plc_M_clist(y.a), plc_M_clist(y.b)); } }
}
inline string show(const Curve &C) { string s; char b[200]; for (auto &p : C.cp) { snprintf(b, 200, "[%zu %s verts, %zu colours, constraints ", p.v.size(), p.open ? "open" : "closed", p.clr.size()); s += b; for (auto &k : p.cst) s += "-flp"[k.kind]; s += "] "; if (s.size() > 800) break; } return s; }
inline double max_coord(const Curve &C) { double m = 0; for (auto &s : C.cp) for (auto &v : s.v) m = std::max(m, maxabs(v)); return m; }
}
