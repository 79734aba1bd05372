// C07 nearest vertices, C08 splines, C09 symmetries.
#include "curve.hpp"
extern "C" {
#include "matrix.h"
}
using namespace cv;
using cv::operator+; using cv::operator-; using cv::operator*;
typedef long double ld;
struct Rng { uint64_t s; uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } double u() { return (double)((*this)() >> 11) / 9007199254740992.0; } };

// ---------------------------------------------------------------- C07
static vector<V> cloud(pbt::Case &c, int n, int style, uint64_t seed) { // 0 random walk, 1 box, 2 grid, 3 flat, 4 a line, 5 circle, 6 one point
  vector<V> r; Rng g{seed}; V p = vec(0, 0, 0); double sx = 1, sy = 1, sz = 1; if (c.chance(1, 3)) { double *q[3] = {&sx, &sy, &sz}; *q[c.below(3)] = pow(10, c.range(-3, 5)); }
  int gr = c.range(1, 30); for (int i = 0; i < n; i++) { V v; switch (style) { case 0: p = p + vec(g.u() - .5, g.u() - .5, g.u() - .5); v = p; break; case 1: v = vec(g.u() - .5, g.u() - .5, g.u() - .5); break; case 2: v = vec((double)(g() % gr), (double)(g() % gr), (double)(g() % gr)); break; case 3: v = vec(g.u(), g.u(), 0); break; case 4: v = vec(0.5, i * 0.01, 0.25); break; case 5: v = vec(cos(6.283185307179586 * i / n), sin(6.283185307179586 * i / n), 0); break; default: v = vec(1, 2, 3); } r.push_back(vec(sx * v.c[0], sy * v.c[1], sz * v.c[2])); } return r; }
static V query(pbt::Case &c, const vector<V> &b) { V lo = b[0], hi = b[0]; for (auto &v : b) for (int i = 0; i < 3; i++) { lo.c[i] = std::min(lo.c[i], v.c[i]); hi.c[i] = std::max(hi.c[i], v.c[i]); } int k = c.pick({3, 2, 2, 1, 2}); V q = b[c.below(b.size())]; if (k == 4) { int d = c.below(3); bool up = c.flag(); for (auto &v : b) if (up ? v.c[d] > q.c[d] : v.c[d] < q.c[d]) q = v; q.c[d] += (up ? -1 : 1) * c.real(-0.01, 0.03) * (hi.c[d] - lo.c[d]); q.c[(d + 1) % 3] += 1e-3 * c.real(-1, 1) * dist(lo, hi); return q; } if (k == 0) return vec(lo.c[0] + c.real(-.1, 1.1) * (hi.c[0] - lo.c[0]), lo.c[1] + c.real(-.1, 1.1) * (hi.c[1] - lo.c[1]), lo.c[2] + c.real(-.1, 1.1) * (hi.c[2] - lo.c[2])); if (k == 1) return q; if (k == 2) return q + 0.01 * dist(lo, hi) * rvec(c, 2); return q + 10 * dist(lo, hi) * unit(c); }
static double best(const vector<V> &b, V q) { double m = 1e308; for (auto &v : b) m = std::min(m, dist(v, q)); return m; }
PROPERTY(C07, points, 200000, 1500000, 60, "at least two points") {
  bool big = c.chance(1, 25); int n = big ? c.range(4990, 9000) : c.range(1, c.chance(1, 4) ? 400 : 30); vector<vector<V>> bufs; int nb = c.range(1, 3); for (int i = 0; i < nb; i++) bufs.push_back(cloud(c, i == 0 ? n : c.chance(1, 2) ? n : big ? c.range(10, 7000) : c.range(1, 40), c.pick({3, 3, 2, 1, 1, 2, 1}), c.u64()));
  struct plc_nearest_neighbor_pc_data *pc = nullptr; int last = -1; c.note("%d points, %d buffers", n, nb); c.labelf("size=%s", n < 5000 ? n < 30 ? "<30" : "<5000" : ">=5000"); c.nontrivial(n > 1);
  for (int q = c.range(1, 8); q > 0; q--) { int k = c.chance(1, 4) ? c.range(0, nb - 1) : last < 0 ? 0 : last; auto &b = bufs[k]; vector<V> keep = b; V p = query(c, b); bool use = c.chance(3, 4); int err = 12345; bool stale = use && pc && last != k; bool pe = c.chance(3, 4); int r = plc_nearest_neighbor(p, (int)b.size(), b.data(), use ? &pc : nullptr, pe ? &err : nullptr); CHECK(c, r >= 0 && r < (int)b.size(), "point %d of %zu", r, b.size()); double m = best(b, p), d = dist(b[r], p); CHECK(c, d <= m * (1 + 1e-12) + 1e-300, "point %d at distance %.17g, but one is at %.17g", r, d, m);
    if (stale) { c.label("stale data"); if (pe) CHECK(c, err == PLC_E_STALE_PCDATA, "stale data not reported (%d)", err); } else if (pe) CHECK(c, err == 12345 || err == 0, "error %d", err); if (use) { CHECK(c, pc != nullptr, "no data kept"); last = k; } if (use && !stale) c.label("data"); CHECK(c, memcmp(keep.data(), b.data(), b.size() * sizeof(V)) == 0, "the points were changed"); }
  plc_nearest_neighbor_pc_data_free(&pc); CHECK(c, pc == nullptr, "data pointer not cleared"); plc_nearest_neighbor_pc_data_free(&pc);
}
PROPERTY(C07, curves, 200000, 1500000, 60, "at least two vertices") {
  bool big = c.chance(1, 25); vector<Curve> cs; int nb = c.range(1, 2); for (int i = 0; i < nb; i++) { Curve C; int k = c.range(1, 4); for (int j = 0; j < k; j++) { Strand s; int n = big && c.chance(2, 3) ? c.range(4990, 7000) : c.range(1, c.chance(1, 4) ? 300 : 20); s.v = cloud(c, n, c.pick({3, 3, 2, 1, 1, 2, 1}), c.u64()); s.open = n < 3 || c.flag(); s.cst.resize(n); C.cp.push_back(s); } cs.push_back(C); } vector<plCurve *> L; for (auto &C : cs) L.push_back(build(C)); int total = cs[0].verts(); c.note("%d vertices, %zu components", total, cs[0].cp.size()); c.labelf("size=%s", total < 5000 ? "<5000" : ">=5000"); c.nontrivial(total > 1);
  struct plc_nearest_vertex_pc_data *pc = nullptr; int last = -1;
  for (int q = c.range(1, 8); q > 0; q--) { int k = c.chance(1, 4) ? c.range(0, nb - 1) : last < 0 ? 0 : last; vector<V> all; for (auto &s : cs[k].cp) all.insert(all.end(), s.v.begin(), s.v.end()); V p = query(c, all); bool use = c.chance(3, 4), stale = use && pc && last != k, pe = c.chance(3, 4); int err = 12345, cp = -1, vt = -1; V r = plc_nearest_vertex(p, L[k], &cp, &vt, use ? &pc : nullptr, pe ? &err : nullptr); CHECK(c, cp >= 0 && cp < L[k]->nc && vt >= 0 && vt < L[k]->cp[cp].nv, "vertex %d:%d", cp, vt); CHECK(c, memcmp(&r, &cs[k].cp[cp].v[vt], sizeof r) == 0, "position returned is not that of vertex %d:%d", cp, vt); double m = best(all, p); CHECK(c, dist(r, p) <= m * (1 + 1e-12) + 1e-300, "vertex %d:%d at distance %.17g, but one is at %.17g", cp, vt, dist(r, p), m);
    if (stale) { c.label("stale data"); if (pe) CHECK(c, err == PLC_E_STALE_PCDATA, "stale data not reported (%d)", err); } else if (pe) CHECK(c, err == 12345 || err == 0, "error %d", err); if (use) { CHECK(c, pc != nullptr, "no data kept"); last = k; if (!stale) c.label("data"); } }
  for (int k = 0; k < nb; k++) compare(c, cs[k], L[k], "curve after the queries"); plc_nearest_vertex_pc_data_free(&pc); CHECK(c, pc == nullptr, "data pointer not cleared"); for (auto *l : L) plc_free(l);
}

// ---------------------------------------------------------------- C08
struct L3 { ld x[3]; }; static L3 l3(V a) { return {{a.c[0], a.c[1], a.c[2]}}; }
struct RefSpline { vector<ld> t; vector<L3> P, m; bool open; ld len() const { return t.back(); }
  void fit(const Strand &s) { int n = (int)s.v.size(), I = s.open ? n - 1 : n; open = s.open; t.push_back(0); P.push_back(l3(s.v[0])); for (int i = 1; i <= I; i++) { ld d = 0; for (int k = 0; k < 3; k++) { ld e = (ld)s.v[i % n].c[k] - s.v[i - 1].c[k]; d += e * e; } t.push_back(t.back() + sqrtl(d)); P.push_back(l3(s.v[i % n])); }
    auto dir = [&](V a, V b) { L3 r; ld q = 0; for (int k = 0; k < 3; k++) { r.x[k] = (ld)b.c[k] - a.c[k]; q += r.x[k] * r.x[k]; } q = sqrtl(q); for (auto &z : r.x) z /= q; return r; }; L3 a, b; if (s.open) { a = dir(s.v[0], s.v[1]); b = dir(s.v[n - 2], s.v[n - 1]); } else a = b = dir(s.v[n - 1], s.v[1]);
    m.assign(I + 1, a); m[I] = b; if (I < 2) return; vector<ld> dd(I + 1), up(I + 1); for (int k = 0; k < 3; k++) { vector<ld> r(I + 1); for (int i = 1; i < I; i++) { ld h = t[i] - t[i - 1], g = t[i + 1] - t[i]; dd[i] = 2 * (1 / h + 1 / g); up[i] = 1 / g; r[i] = 3 * ((P[i].x[k] - P[i - 1].x[k]) / (h * h) + (P[i + 1].x[k] - P[i].x[k]) / (g * g)); if (i == 1) r[i] -= a.x[k] / h; if (i == I - 1) r[i] -= b.x[k] / g; } for (int i = 2; i < I; i++) { ld lo = 1 / (t[i] - t[i - 1]), f = lo / dd[i - 1]; dd[i] -= f * up[i - 1]; r[i] -= f * r[i - 1]; } for (int i = I - 1; i >= 1; i--) { ld x = r[i]; if (i < I - 1) x -= up[i] * m[i + 1].x[k]; m[i].x[k] = x / dd[i]; } } }
  void at(ld s, V &p, V &d) const { int i = 0; while (i + 2 < (int)t.size() && t[i + 1] < s) i++; ld h = t[i + 1] - t[i], u = (s - t[i]) / h; for (int k = 0; k < 3; k++) { ld p0 = P[i].x[k], p1 = P[i + 1].x[k], m0 = h * m[i].x[k], m1 = h * m[i + 1].x[k]; p.c[k] = (double)((2 * u * u * u - 3 * u * u + 1) * p0 + (u * u * u - 2 * u * u + u) * m0 + (-2 * u * u * u + 3 * u * u) * p1 + (u * u * u - u * u) * m1); d.c[k] = (double)(((6 * u * u - 6 * u) * p0 + (3 * u * u - 4 * u + 1) * m0 + (-6 * u * u + 6 * u) * p1 + (3 * u * u - 2 * u) * m1) / h); } } };
static Curve spline_curve(pbt::Case &c) { Curve C; int k = c.range(1, 3), cap = c.chance(1, 5) ? 60 : 9; for (int i = 0; i < k; i++) { Strand s; s.open = c.flag(); int n = c.range(s.open ? 2 : 3, cap); int st = c.pick({2, 2, 1}); V p = c.real(0, 3) * rvec(c, 2); double sc = c.chance(1, 3) ? pow(10, c.real(-1, 2)) : 1; for (int j = 0; j < n; j++) { if (st == 0) s.v.push_back(sc * rvec(c, 2)); else if (st == 1) { s.v.push_back(sc * p); p = p + c.real(0.2, 2) * unit(c); } else s.v.push_back(sc * (vec(cos(2 * M_PI * j / n), sin(2 * M_PI * j / n), 0) + 0.05 * rvec(c, 2))); }
    int q = c.pick({2, 1, 2}); int nc = q == 0 ? 0 : q == 1 ? 1 : n; for (int j = 0; j < nc; j++) s.clr.push_back({c.unit(), c.unit(), c.unit(), c.unit()}); s.cst.resize(n); double L = 0; for (int j = 0; j + 1 < n + !s.open; j++) L += dist(s.v[j], s.v[(j + 1) % n]); for (int j = 0; j + 1 < n + !s.open; j++) if (dist(s.v[j], s.v[(j + 1) % n]) <= 1e-4 * L) c.discard("tiny edge"); if (!s.open && dist(s.v[1], s.v[n - 1]) <= 1e-3 * dist(s.v[0], s.v[1])) c.discard("no tangent"); C.cp.push_back(s); } return C; }
PROPERTY(C08, sample, 400000, 5000000, 60, "a strand with at least three vertices") {
  Curve C = spline_curve(c); plCurve *L = build(C); bool ok = true; plc_spline *S = plc_convert_to_spline(L, &ok); CHECK(c, S && ok, "conversion failed"); c.note("%s", show(C).c_str()); compare(c, C, L, "curve after conversion"); CHECK(c, S->nc == L->nc, "%d components", S->nc);
  for (size_t k = 0; k < C.cp.size(); k++) { auto &s = C.cp[k]; int n = (int)s.v.size(); if (n > 2) c.nontrivial(); c.labelf("%s n=%s", s.open ? "open" : "closed", n == 2 ? "2" : n < 10 ? "3-9" : ">=10"); RefSpline R; R.fit(s); double len = (double)R.len(), size = 0; for (auto &m : R.m) for (auto x : m.x) size = std::max(size, (double)fabsl(x)); double pt = 1e-10 * (len * size + max_coord(C)), dt = 1e-9 * (1 + size) * n; double hmin = len; for (size_t i = 1; i < R.t.size(); i++) hmin = std::min(hmin, (double)(R.t[i] - R.t[i - 1])); dt *= len / hmin; dt = std::min(dt, 1e-4 * (1 + size));
    CHECK(c, S->cp[k].ns == n && S->cp[k].open == s.open, "component %zu has %d samples", k, S->cp[k].ns);
    for (int i = 0; i < n; i++) { V p = plc_sample_spline(S, (int)k, S->cp[k].svals[i]); CHECK(c, fabsl(S->cp[k].svals[i] - R.t[i]) <= 1e-12 * len, "vertex %d at %.12g, arclength %.12Lg", i, S->cp[k].svals[i], R.t[i]); CHECK(c, same(p, s.v[i], 0, pt), "vertex %d is (%.12g %.12g %.12g), the spline passes through (%.12g %.12g %.12g)", i, plc_M_clist(s.v[i]), plc_M_clist(p)); }
    for (int q = 0; q < 6; q++) { double x = c.chance(1, 5) ? (double)R.t[c.below(R.t.size())] : c.unit() * len; double y = x; if (!s.open && c.chance(1, 3)) { y = x + len * c.range(-3, 3); c.label("wrapped"); } if (s.open && y > S->cp[k].svals[n - 1]) y = x = S->cp[k].svals[n - 1]; V p, d, e; R.at(x, p, d); V g = plc_sample_spline(S, (int)k, y); CHECK(c, same(g, p, 0, pt * (1 + size)), "spline at %.17g is (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", y, plc_M_clist(g), plc_M_clist(p)); e = plc_spline_tangent(S, (int)k, y); CHECK(c, same(e, d, 0, dt), "tangent at %.17g is (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", y, plc_M_clist(e), plc_M_clist(d)); } }
  plc_spline_free(S); plc_free(L);
}
PROPERTY(C08, resample, 400000, 5000000, 60, "a different number of vertices, colours or constraints") {
  Curve C = spline_curve(c); if (c.chance(1, 2)) rconstraints(c, C, c.range(1, 4)); plCurve *L = build(C); bool ok = true; plc_spline *S = plc_convert_to_spline(L, &ok); CHECK(c, S && ok, "conversion failed"); vector<int> nv; string t; for (auto &s : C.cp) { int n = (int)s.v.size(), m = c.chance(1, 5) ? n : c.range(s.open ? 2 : 3, c.chance(1, 4) ? c.chance(1, 30) ? 3000 : 300 : 25); nv.push_back(m); t += " " + std::to_string(m); if (m != n || !s.clr.empty()) c.nontrivial(); } c.note("%s to%s", show(C).c_str(), t.c_str());
  plCurve *M = plc_convert_from_spline(S, nv.data()); CHECK(c, M, "no curve"); compare(c, C, L, "curve after conversion"); vector<pair<plc_constraint, plc_constraint>> cs; { plc_constraint *a = L->cst, *b = M->cst; for (; a && b; a = a->next, b = b->next) cs.push_back({*a, *b}); CHECK(c, !a && !b, "the curve has %s constraints than before", a ? "fewer" : "more"); if (!cs.empty()) { c.nontrivial(); c.label("constraints"); } }
  CHECK(c, M->nc == (int)C.cp.size(), "%d components", M->nc); vector<RefSpline> RR;
  for (size_t k = 0; k < C.cp.size(); k++) { auto &s = C.cp[k]; int m = nv[k], n = (int)s.v.size(); RefSpline R; R.fit(s); double len = (double)R.len(), size = 0; for (auto &q : R.m) for (auto x : q.x) size = std::max(size, (double)fabsl(x)); double pt = 1e-10 * (len * size + max_coord(C)) * (1 + size); auto &p = M->cp[k]; CHECK(c, p.nv == m && p.open == s.open, "component %zu: %d vertices", k, p.nv); size_t want = s.clr.size() <= 1 ? s.clr.size() : m; CHECK(c, p.cc == (int)want, "component %zu: %d colours, expected %zu", k, p.cc, want); int I = (int)R.t.size() - 1;
    for (int i = 0; i < m; i++) { ld x = s.open ? R.len() * i / (m - 1) : R.len() * i / m; V q, d; R.at(x, q, d); CHECK(c, same(p.vt[i], q, 0, pt), "component %zu vertex %d is (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", k, i, plc_M_clist(p.vt[i]), plc_M_clist(q)); if (want == 1 && i == 0) { double g[4] = {p.clr[0].r, p.clr[0].g, p.clr[0].b, p.clr[0].alpha}; for (int z = 0; z < 4; z++) CHECK(c, g[z] == s.clr[0][z], "colour changed"); } if (want > 1) { int j = 0; while (j + 1 < I && R.t[j + 1] < x) j++; ld u = (x - R.t[j]) / (R.t[j + 1] - R.t[j]); double g[4] = {p.clr[i].r, p.clr[i].g, p.clr[i].b, p.clr[i].alpha}; for (int z = 0; z < 4; z++) { double e = (double)((1 - u) * s.clr[j][z] + u * s.clr[(j + 1) % n][z]); CHECK(c, fabs(g[z] - e) <= 1e-9, "component %zu colour %d channel %d is %.12g, expected %.12g", k, i, z, g[z], e); } c.label("colours"); } }
    V a = s.open ? p.vt[1] : p.vt[m - 1], b = s.open ? p.vt[m - 2] : p.vt[0]; CHECK(c, memcmp(&a, &p.vt[-1], sizeof a) == 0 && memcmp(&b, &p.vt[m], sizeof b) == 0, "wrap-around vertices of component %zu are stale", k); RR.push_back(R); }
  for (auto &q : cs) { auto &a = q.first, &b = q.second; auto &s = C.cp[a.cmp]; int n = (int)s.v.size(), m = nv[a.cmp]; auto &R = RR[a.cmp]; CHECK(c, a.kind == b.kind && a.cmp == b.cmp && memcmp(a.vect, b.vect, sizeof a.vect) == 0, "constraint changed"); CHECK(c, b.vert >= 0 && b.num_verts >= 1 && b.vert + b.num_verts <= m, "constraint on vertices %d..%d of %d", b.vert, b.vert + b.num_verts - 1, m); double d = (double)R.len() / (s.open ? m - 1 : m), s0 = (double)R.t[a.vert]; double end = (double)R.t[std::min(a.vert + a.num_verts, (int)R.t.size() - 1)], last = (double)R.t[a.vert + a.num_verts - 1]; double tol = d * (1 + 1e-9) + 1e-9; if (a.vert == n - 1) { CHECK(c, b.vert == m - 1, "constraint on the last vertex is now at %d", b.vert); continue; } CHECK(c, fabs(b.vert * d - s0) <= tol, "constraint starting at %.9g now starts at %.9g (spacing %.9g)", s0, b.vert * d, d); if (a.num_verts == 1) CHECK(c, b.num_verts == 1, "constraint on one vertex now covers %d", b.num_verts); else { CHECK(c, (b.vert + b.num_verts) * d >= last - tol, "constraint up to %.9g now ends at %.9g", last, (b.vert + b.num_verts) * d); CHECK(c, (b.vert + b.num_verts) * d <= end + 2 * tol || b.vert + b.num_verts == m, "constraint up to %.9g now ends at %.9g", end, (b.vert + b.num_verts) * d); } }
  plc_spline_free(S); plc_free(L); plc_free(M);
}

// ---------------------------------------------------------------- C09
struct Mat { double a[3][3]; }; static V mul(const Mat &A, V v) { V r; for (int i = 0; i < 3; i++) r.c[i] = A.a[i][0] * v.c[0] + A.a[i][1] * v.c[1] + A.a[i][2] * v.c[2]; return r; }
static Mat mrot(V u, double t) { Mat A; V e[3] = {rot(vec(1, 0, 0), u, t), rot(vec(0, 1, 0), u, t), rot(vec(0, 0, 1), u, t)}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A.a[i][j] = e[j].c[i]; return A; }
static Mat mref(V u) { Mat A; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A.a[i][j] = (i == j) - 2 * u.c[i] * u.c[j]; return A; }
static double mdist(const Mat &A, plc_matrix *B) { double m = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m = std::max(m, fabs(A.a[i][j] - (*B)[i][j])); return m; }
// the matrix functions under the symmetries
PROPERTY(C09, matrices, 120000, 400000, 30, "no two factors are equal") {
  Mat A, B; V x, b; auto num = [&] { return c.chance(1, 4) ? (double)c.range(-2, 2) : c.real(-3, 3); }; for (int i = 0; i < 9; i++) { A.a[i / 3][i % 3] = num(); B.a[i / 3][i % 3] = num(); } for (int i = 0; i < 3; i++) { x.c[i] = num(); b.c[i] = num(); } auto row = [&](const Mat &m, int i) { return vec(m.a[i][0], m.a[i][1], m.a[i][2]); }; auto col = [&](const Mat &m, int i) { return vec(m.a[0][i], m.a[1][i], m.a[2][i]); }; c.note("A = (%g %g %g) (%g %g %g) (%g %g %g)", plc_M_clist(row(A, 0)), plc_M_clist(row(A, 1)), plc_M_clist(row(A, 2)));
  plc_matrix *a = plc_build_matrix(row(A, 0), row(A, 1), row(A, 2)), *m = plc_build_matrix(row(B, 0), row(B, 1), row(B, 2)), *k = plc_matrix_copy(a); CHECK(c, mdist(A, a) == 0 && mdist(B, m) == 0, "matrix built from its rows"); CHECK(c, k != a && mdist(A, k) == 0, "copied matrix"); V y = plc_matrix_vector_multiply(a, x); for (int i = 0; i < 3; i++) CHECK(c, fabs(y.c[i] - dot(row(A, i), x)) < 1e-12, "matrix times vector, entry %d", i);
  plc_matrix *p = plc_matrix_matrix_multiply(a, m); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(c, fabs((*p)[i][j] - dot(row(A, i), col(B, j))) < 1e-12, "product of matrices, entry %d %d", i, j); CHECK(c, mdist(A, a) == 0 && mdist(B, m) == 0, "a factor changed"); free(p); c.nontrivial(mdist(A, m) > 0);
  double det = dot(row(A, 0), cross(row(A, 1), row(A, 2))); if (fabs(det) > 1e-2) { int ix[3] = {-1, -1, -1}; double d = 0; bool ok = true; plc_matrix *lu = lu_decmp(a, ix, &d, &ok); CHECK(c, lu && ok && mdist(A, a) == 0, "a regular matrix is not decomposed"); double q = d; for (int i = 0; i < 3; i++) q *= (*lu)[i][i]; CHECK(c, fabs(q - det) < 1e-9, "determinant %g from the decomposition, expected %g", q, det); V z = solve_linear(lu, ix, b); for (int i = 0; i < 3; i++) CHECK(c, fabs(dot(row(A, i), z) - b.c[i]) < 1e-7 * (1 + norm(z)), "solution of a linear system, equation %d", i); free(lu); }
  { plc_matrix Z; for (int i = 0; i < 9; i++) Z[i / 3][i % 3] = A.a[i / 3][i % 3]; int r = c.below(3); for (int j = 0; j < 3; j++) Z[r][j] = 0; int ix[3]; double d; bool ok = true; CHECK(c, !lu_decmp(&Z, ix, &d, &ok) && !ok, "a matrix with a row of zeros is decomposed"); }
  free(a); free(m); free(k);
}
PROPERTY(C09, symmetrize, 150000, 2000000, 60, "a group with at least two elements and a perturbed curve") {
  int kind = c.pick({3, 2, 2, 2}); V u = unit(c); double al = c.chance(1, 3) ? pow(10, c.real(-2, 2)) : 1; V ax = al * u; int n = kind == 0 ? c.range(1, c.chance(1, 8) ? 16 : 7) : kind == 1 ? 2 : kind == 3 ? 2 * c.range(2, 5) : 8; bool long_ = c.chance(1, 200); vector<Mat> g; if (kind == 0) for (int i = 0; i < n; i++) g.push_back(mrot(u, 2 * M_PI * i / n)); else if (kind == 1) { g.push_back(mrot(u, 0)); g.push_back(mref(u)); } else if (kind == 3) { V w = cross(u, fabs(u.c[0]) < 0.6 ? vec(1, 0, 0) : vec(0, 1, 0)); w = (1 / norm(w)) * w; bool flat = c.flag(); for (int i = 0; i < n / 2; i++) g.push_back(mrot(u, 4 * M_PI * i / n)); for (int i = 0; i < n / 2; i++) { V x = rot(w, u, 2 * M_PI * i / n); g.push_back(flat ? mref(x) : mrot(x, M_PI)); } } else for (int i = 0; i < 8; i++) { Mat A{}; for (int j = 0; j < 3; j++) A.a[j][j] = i >> j & 1 ? -1 : 1; g.push_back(A); }
  { plc_matrix B; double t = c.real(-7, 7); plc_rotation_matrix(ax, t, &B); CHECK(c, mdist(mrot(u, t), &B) < 1e-13, "rotation matrix about (%g %g %g) by %g", plc_M_clist(ax), t); plc_reflection_matrix(ax, &B); CHECK(c, mdist(mref(u), &B) < 1e-13, "reflection matrix"); plc_identity_matrix(&B); CHECK(c, mdist(mrot(u, 0), &B) == 0, "identity matrix"); }
  Curve C; int orbits = c.range(1, 3); for (int o = 0; o < orbits; o++) { int k = c.range(2, long_ ? 80 : 6); vector<V> f; for (int i = 0; i < k; i++) f.push_back(rvec(c, 2)); int way = kind == 0 ? c.range(0, 1) : kind == 1 ? c.range(0, 2) : 1;
    if (way == 0 && kind == 0) { Strand s; for (int i = 0; i < n; i++) for (auto &v : f) s.v.push_back(mul(g[i], v)); C.cp.push_back(s); } else if (way == 0) { Strand s; s.v = f; for (int i = k - 1; i >= 0; i--) s.v.push_back(mul(g[1], f[i])); C.cp.push_back(s); } else if (way == 2) { Strand s; s.v = f; V p = f[0]; p = p - dot(p, u) * u; s.v.push_back(p); for (int i = k - 1; i >= 0; i--) s.v.push_back(mul(g[1], f[i])); C.cp.push_back(s); } else { bool op = c.flag(); for (auto &A : g) { Strand s; s.open = op; for (auto &v : f) s.v.push_back(mul(A, v)); C.cp.push_back(s); } } }
  for (auto &s : C.cp) { if (s.v.size() < 3) s.open = true; s.cst.resize(s.v.size()); } double noise = c.pick({1, 3}) == 0 ? 0 : pow(10, c.real(-6, -1.5)); if (c.chance(1, 12)) noise = 1; for (auto &s : C.cp) for (auto &v : s.v) v = v + noise * vec(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));
  vector<pair<int, int>> id; vector<V> pos; vector<vector<int>> num; for (size_t k = 0; k < C.cp.size(); k++) { num.push_back({}); for (size_t j = 0; j < C.cp[k].v.size(); j++) { num[k].push_back((int)pos.size()); id.push_back({(int)k, (int)j}); pos.push_back(C.cp[k].v[j]); } } int N = (int)pos.size(); c.note("kind %d, n %d, %d vertices in %zu components, noise %.2g", kind, n, N, C.cp.size(), noise); c.labelf("group=%s", kind == 0 ? "rotations" : kind == 1 ? "reflection" : kind == 3 ? "dihedral, built by hand" : "coordinate planes");
  vector<vector<int>> tg(n, vector<int>(N)); bool inj = true; for (int i = 0; i < n; i++) { vector<char> used(N); for (int v = 0; v < N; v++) { V q = mul(g[i], pos[v]); int b = -1; double d1 = 1e300, d2 = 1e300; for (int w = 0; w < N; w++) { double d = dist(q, pos[w]); if (d < d1) { d2 = d1; d1 = d; b = w; } else d2 = std::min(d2, d); } if (d2 - d1 < 1e-9) c.discard("two nearest vertices"); tg[i][v] = b; if (used[b]) inj = false; used[b] = 1; } }
  plCurve *L = build(C); plc_symmetry_group *G; if (kind == 3) { G = plc_symmetry_group_new(n); CHECK(c, G && G->n == n, "no group made"); vector<int> perm; for (int i = 0; i < n; i++) perm.insert(perm.begin() + c.below(i + 1), i); bool all = true; for (int i = 0; i < n; i++) { plc_matrix A; for (int r = 0; r < 9; r++) A[r / 3][r % 3] = g[perm[i]].a[r / 3][r % 3]; G->sym[i] = plc_build_symmetry(&A, L); if (!G->sym[i]) all = false; int iv = perm[i] < n / 2 ? (n / 2 - perm[i]) % (n / 2) : perm[i]; for (int j = 0; j < n; j++) if (perm[j] == iv) G->inverse[i] = j; } if (!all) plc_symmetry_group_free(&G); if (G && c.flag()) { auto *K = plc_symmetry_group_copy(G); CHECK(c, K && K != G && K->n == n && K->sym != G->sym && K->inverse != G->inverse, "copy of a group"); plc_symmetry_group_free(&G); CHECK(c, !G, "pointer not cleared"); G = K; c.label("copy of the group"); } } else G = kind == 0 ? plc_rotation_group(L, ax, n) : kind == 1 ? plc_reflection_group(L, ax) : plc_coordplanes_reflection_group(L);
  if (!inj) { c.label("refused"); CHECK(c, G == nullptr, "a group was built although two vertices have the same image"); plc_free(L); return; }
  CHECK(c, G != nullptr, "no group built"); CHECK(c, G->n == n, "group of %d elements, expected %d", G->n, n); vector<int> el(n); for (int i = 0; i < n; i++) { int f = -1; for (int j = 0; j < n; j++) if (mdist(g[j], G->sym[i]->transform) < 1e-9) f = j; CHECK(c, f >= 0, "element %d of the group is not a symmetry of it", i); for (int j = 0; j < i; j++) CHECK(c, el[j] != f, "element %d twice", f); el[i] = f; }
  for (int i = 0; i < n; i++) { Mat P; int v = G->inverse[i]; CHECK(c, v >= 0 && v < n, "inverse %d", v); for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) { P.a[r][s] = 0; for (int k = 0; k < 3; k++) P.a[r][s] += g[el[i]].a[r][k] * g[el[v]].a[k][s]; } plc_matrix I; plc_identity_matrix(&I); CHECK(c, mdist(P, &I) < 1e-9, "element %d is not the inverse of %d", v, i); CHECK(c, G->sym[i]->curve == L, "element %d belongs to another curve", i); for (int w = 0; w < N; w++) { auto &t = G->sym[i]->target[id[w].first][id[w].second]; CHECK(c, t.cp == id[tg[el[i]][w]].first && t.vt == id[tg[el[i]][w]].second, "element %d takes vertex %d:%d to %d:%d, expected %d:%d", i, id[w].first, id[w].second, t.cp, t.vt, id[tg[el[i]][w]].first, id[tg[el[i]][w]].second); } }
  bool action = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int f = -1; Mat P; for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) { P.a[r][s] = 0; for (int k = 0; k < 3; k++) P.a[r][s] += g[i].a[r][k] * g[j].a[k][s]; } for (int k = 0; k < n; k++) { double m = 0; for (int r = 0; r < 9; r++) m = std::max(m, fabs(g[k].a[r / 3][r % 3] - P.a[r / 3][r % 3])); if (m < 1e-6) f = k; } for (int w = 0; w < N; w++) if (tg[i][tg[j][w]] != tg[f][w]) action = false; }
  // checks before symmetrizing, composition
  vector<V> var; for (int i = 0; i < N; i++) var.push_back(rvec(c, 2)); auto chk = [&](const vector<V> &p, int i) { double m = 0; for (int w = 0; w < N; w++) m = std::max(m, dist(mul(g[i], p[w]), p[tg[i][w]])); return m; }; double gm = 0, gv = 0; for (int i = 0; i < n; i++) { double a = chk(pos, el[i]), b = chk(var, el[i]); gm = std::max(gm, a); gv = std::max(gv, b); CHECK(c, fabs(plc_symmetry_check(L, G->sym[i]) - a) < 1e-10, "check of element %d gives %.12g, really %.12g", i, plc_symmetry_check(L, G->sym[i]), a); CHECK(c, fabs(plc_symmetry_variation_check(L, var.data(), G->sym[i]) - b) < 1e-10, "variation check of element %d", i); }
  { int i = c.range(0, n - 1), j = c.range(0, n - 1); plc_symmetry *P = plc_compose_symmetries(G->sym[i], G->sym[j]); Mat Q; for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) { Q.a[r][s] = 0; for (int k = 0; k < 3; k++) Q.a[r][s] += g[el[j]].a[r][k] * g[el[i]].a[k][s]; } CHECK(c, mdist(Q, P->transform) < 1e-12, "composed transform"); for (int w = 0; w < N; w++) { auto &t = P->target[id[w].first][id[w].second]; CHECK(c, num[t.cp][t.vt] == tg[el[j]][tg[el[i]][w]], "composed vertex map"); } plc_symmetry *Z = plc_symmetry_copy(P); CHECK(c, mdist(Q, Z->transform) < 1e-12 && memcmp(Z->target[0], P->target[0], C.cp[0].v.size() * sizeof(plc_vertex_loc)) == 0 && Z->transform != P->transform, "copy of a symmetry"); plc_symmetry_free(&P); plc_symmetry_free(&Z); }
  L->G = G; CHECK(c, fabs(plc_symmetry_group_check(L) - gm) < 1e-10 && fabs(plc_symmetry_group_variation_check(L, var.data()) - gv) < 1e-10, "check of the group gives %.12g, really %.12g", plc_symmetry_group_check(L), gm); if (!action) { plc_free(L); c.discard("the vertex maps are no group action"); } if (noise > 0 && n > 1) c.nontrivial();
  auto avg = [&](const vector<V> &p) { vector<V> r; for (int w = 0; w < N; w++) { V s = vec(0, 0, 0); for (int i = 0; i < n; i++) { V q = p[tg[i][w]], b; for (int k = 0; k < 3; k++) b.c[k] = g[i].a[0][k] * q.c[0] + g[i].a[1][k] * q.c[1] + g[i].a[2][k] * q.c[2]; s = s + b; } r.push_back((1.0 / n) * s); } return r; };
  int how = c.pick({3, 1, 1}); if (how == 1) { plCurve *K = plc_copy(L); plc_free(L); L = K; c.label("copied"); for (int i = 0; i < n; i++) CHECK(c, L->G->sym[i]->curve == L, "the copied group belongs to another curve"); } vector<V> want = avg(pos); double tol = 1e-11; if (how == 2) { V r = unit(c); double t = c.real(-3, 3); plc_rotate(L, r, t); for (auto &w : want) w = rot(w, r, t); tol = 1e-9; c.label("rotated"); for (int i = 0; i < n; i++) CHECK(c, fabs(plc_symmetry_check(L, L->G->sym[i]) - chk(pos, el[i])) < 1e-9, "rotating changed the symmetry"); }
  Curve W = C; for (int w = 0; w < N; w++) W.cp[id[w].first].v[id[w].second] = want[w]; plc_symmetrize(L); Tol T; T.va = tol; compare(c, W, L, "symmetrized curve", T); CHECK(c, plc_symmetry_group_check(L) < 1e-9, "the symmetrized curve is off by %.12g", plc_symmetry_group_check(L)); plc_symmetrize(L); compare(c, W, L, "curve symmetrized twice", T);
  if (how != 2) { vector<V> b = var, w = avg(var); plc_symmetrize_variation(L, b.data()); for (int i = 0; i < N; i++) CHECK(c, same(b[i], w[i], 0, tol), "symmetrized variation at %d", i); CHECK(c, plc_symmetry_group_variation_check(L, b.data()) < 1e-9, "the symmetrized variation is off"); compare(c, W, L, "curve after symmetrizing a variation", T); }
  plc_free(L);
}
