// C10 struts, minimum radius, thickness, ropelength of links, against all-pairs brute force.
#include "curve.hpp"
#include <cfloat>
#include <set>
extern "C" {
#include "octrope.h"
}
using namespace cv;
using cv::operator+; using cv::operator-; using cv::operator*;
typedef long double ld;
static Strand smooth_loop(pbt::Case &c, int n, V centre, double r) { Strand s; int m = c.range(1, 4); vector<V> a, b; for (int k = 1; k <= m; k++) { a.push_back((r / k) * rvec(c, 2)); b.push_back((r / k) * rvec(c, 2)); } for (int i = 0; i < n; i++) { V p = centre; for (int k = 1; k <= m; k++) p = p + cos(2 * M_PI * k * i / n) * a[k - 1] + sin(2 * M_PI * k * i / n) * b[k - 1]; s.v.push_back(p); } return s; }
static Curve rope_curve(pbt::Case &c) {
  Curve C; int k = c.pick({5, 3, 1, 1}) + 1; int big = c.pick({60, 30, 10, 1}); int cap = (big == 0 ? 12 : big == 1 ? 40 : big == 2 ? (pbt::g_thorough ? 250 : 120) : 500) / k + 3; double scale = c.pick({4, 1, 1}) == 0 ? 1 : pow(10, c.real(-2.5, 2)); int style = c.pick({4, 6, 4, 4, 2, 3}); V sq = vec(1, 1, 1); if (c.chance(1, 3)) for (int j = 0; j < 3; j++) if (c.flag()) sq.c[j] = pow(10, c.real(-1.5, 1));
  for (int i = 0; i < k; i++) { int n = c.range(3, cap); V ctr = c.real(0, 1.5) * rvec(c, 2); Strand s;
    if (style == 0) { for (int j = 0; j < n; j++) s.v.push_back(ctr + rvec(c, 2)); }
    else if (style == 1) s = smooth_loop(c, std::max(n, 6), ctr, 1);
    else if (style == 2) { V p = ctr; for (int j = 0; j < n; j++) { s.v.push_back(p); p = p + unit(c); } }
    else if (style == 3) { double tilt = c.real(0, 3), r = c.real(0.5, 2); for (int j = 0; j < n; j++) { double t = 2 * M_PI * j / n; s.v.push_back(ctr + vec(r * cos(t), r * sin(t) * cos(tilt), r * sin(t) * sin(tilt)) + 0.02 * rvec(c, 2)); } }
    else if (style == 5) { if (i == 0 || c.chance(1, 3)) s = smooth_loop(c, std::max(n, 6), ctr, 1); else { n = c.range(2, 5); for (int j = 0; j < n; j++) s.v.push_back(ctr + c.real(0.5, 6) * unit(c)); s.open = n == 2; } } // long edges beside short ones
    else { double z = 0; for (int j = 0; j < n; j++) { z += c.real(0.1, 0.4); s.v.push_back(vec((i * 1.0) + 0.1 * c.gauss(), 0.1 * c.gauss(), z)); } s.open = true; }
    if (style != 4 && s.v.size() > 2) s.open = c.chance(1, 3); s.cst.resize(s.v.size()); for (auto &v : s.v) v = scale * vec(v.c[0] * sq.c[0], v.c[1] * sq.c[1], v.c[2] * sq.c[2]); C.cp.push_back(s); }
  return C; }
struct E { int cmp, lead; V p, q; bool last; };
struct Pair { ld s, t, d; int cls; }; // 1 strut, 0 uncertain, -1 no strut (recorded at this pair of edges)
static const ld TOL = 1e-6L;
struct L3 { ld x, y, z; }; static L3 l3(V a) { return {a.c[0], a.c[1], a.c[2]}; } static L3 sub(L3 a, L3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static L3 add(L3 a, ld k, L3 b) { return {a.x + k * b.x, a.y + k * b.y, a.z + k * b.z}; } static ld dt(L3 a, L3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static ld nm(L3 a) { return sqrtl(dt(a, a)); }
static Pair closest(const E &A, const E &B) {
  L3 a = l3(A.p), b = l3(B.p), u = sub(l3(A.q), a), v = sub(l3(B.q), b), w = sub(b, a); ld uu = dt(u, u), vv = dt(v, v), uv = dt(u, v); ld bd = -1, bs = 0, bt = 0; auto tryst = [&](ld s, ld t) { if (s < 0) s = 0; if (s > 1) s = 1; if (t < 0) t = 0; if (t > 1) t = 1; ld d = nm(sub(add(b, t, v), add(a, s, u))); if (bd < 0 || d < bd) { bd = d; bs = s; bt = t; } };
  for (int k = 0; k < 2; k++) { ld t = k; tryst((dt(u, w) + t * uv) / uu, t); ld s = k; tryst(s, (s * uv - dt(v, w)) / vv); } ld den = uu * vv - uv * uv; bool par = den < 1e-8L * uu * vv; if (!par) { ld s = (dt(u, w) * vv - dt(v, w) * uv) / den, t = (s * uv - dt(v, w)) / vv; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) tryst(s, t); } return {bs, bt, bd, par ? 0 : 9}; }
static int endclass(const Curve &C, const E &A, ld s, L3 far) { // is the end at position s on A critical (and recorded at A)?
  const Strand &S = C.cp[A.cmp]; int n = (int)S.v.size(); L3 p = l3(A.p), q = l3(A.q), u = sub(q, p); ld lu = nm(u); L3 P = add(p, s, u), f = sub(far, P); ld lf = nm(f); if (lf < 1e-9L * lu) return 0; ld g = dt(u, f) / (lu * lf); // > 0: the distance falls towards q
  if (s > TOL && s < 1 - TOL) return 1; if (s <= TOL) { if (s > 0 && s <= TOL) { } bool interior = fabsl(g) < TOL; if (interior) return 0; if (S.open && A.lead == 0) return 1; L3 r = sub(l3(S.v[(A.lead + n - 1) % n]), p); ld h = dt(r, f) / (nm(r) * lf); return h > TOL ? -1 : h > -TOL ? 0 : 1; }
  if (A.last) return 1; return g > TOL ? -1 : 0; }
static double minrad_at(V in, V out, double len) { double th = atan2(norm(cross(in, out)), dot(in, out)); return len / (2 * tan(th / 2)); }
PROPERTY(C10, struts, 120000, 1000000, 60, "at least one strut") {
  Curve C = rope_curve(c); vector<E> es; for (size_t k = 0; k < C.cp.size(); k++) { auto &S = C.cp[k]; int n = (int)S.v.size(); for (int i = 0; i < (S.open ? n - 1 : n); i++) { es.push_back({(int)k, i, S.v[i], S.v[(i + 1) % n], S.open && i == n - 2}); if (dist(S.v[i], S.v[(i + 1) % n]) < 1e-5) c.discard("tiny edge"); } } size_t N = es.size(); string nt; for (auto &S : C.cp) { char b[60]; snprintf(b, 60, "[%s", S.open ? "open" : "closed"); nt += b; for (size_t i = 0; i < S.v.size() && i < 12; i++) { snprintf(b, 60, " (%.4g %.4g %.4g)", S.v[i].c[0], S.v[i].c[1], S.v[i].c[2]); nt += b; } if (S.v.size() > 12) nt += " ..."; nt += "] "; } c.note("%zu edges %s", N, nt.c_str());
  // A free end can be close to its own strand after less than half a turn: the search leaves out such pairs (DESIGN.md), so they decide nothing.
  double mxt = 1e-9; for (auto &S : C.cp) { int n = (int)S.v.size(); for (int i = S.open ? 1 : 0; i < (S.open ? n - 1 : n); i++) { V a = S.v[i] - S.v[(i + n - 1) % n], b = S.v[(i + 1) % n] - S.v[i]; mxt = std::max(mxt, atan2(norm(cross(a, b)), dot(a, b))); } } double picount = M_PI / mxt * 1.0001;
  std::map<pair<int, int>, Pair> st; ld mn = 1e30L, mnsure = 1e30L; int sure = 0; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < i; j++) { const E &A = es[i], &B = es[j]; if (A.cmp == B.cmp) { int d = abs(A.lead - B.lead), n = (int)C.cp[A.cmp].v.size(); if (d < 2 || (!C.cp[A.cmp].open && d > n - 2)) continue; } Pair p = closest(A, B); if (p.cls) { L3 P = add(l3(A.p), p.s, sub(l3(A.q), l3(A.p))), Q = add(l3(B.p), p.t, sub(l3(B.q), l3(B.p))); int x = endclass(C, A, p.s, Q), y = endclass(C, B, p.t, P); p.cls = x < 0 || y < 0 ? -1 : x && y ? 1 : 0;  if (A.cmp == B.cmp && C.cp[A.cmp].open && p.cls > 0 && abs(A.lead - B.lead) < picount && ((A.lead == 0 && p.s <= TOL) || (A.last && p.s >= 1 - TOL) || (B.lead == 0 && p.t <= TOL) || (B.last && p.t >= 1 - TOL))) p.cls = 0; } st[{(int)i, (int)j}] = p; if (p.cls >= 0) mn = std::min(mn, p.d); if (p.cls > 0) { mnsure = std::min(mnsure, p.d); sure++; } }
  c.nontrivial(sure > 0); c.labelf("edges=%s", N < 10 ? "<10" : N < 40 ? "10-39" : N < 100 ? "40-99" : ">=100"); c.labelf("struts=%s", sure == 0 ? "0" : sure < 5 ? "1-4" : sure < 50 ? "5-49" : ">=50"); c.labelf("components=%zu", C.cp.size());
  // how it is called
  double cutoff = 0, eps = 0; int mode = c.pick({2, 2, 2}); ld mx = 0; for (auto &p : st) mx = std::max(mx, p.second.d); if (mode == 1) eps = c.real(0, (double)mx); else if (mode == 2) cutoff = c.chance(1, 2) && mnsure < 1e29L ? (double)mnsure * c.real(0.5, 3) : c.real(1e-3, 1.2) * (double)mx + 1e-6; int size = c.pick({5, 1, 1}); size = size == 0 ? (int)st.size() + 1 : size == 1 ? 0 : c.range(1, 3); int lv = c.chance(1, 4) ? c.range(1, 12) : 0; octrope_set_levels(lv); plCurve *L = build(C); vector<V> before; for (int k = 0; k < L->nc; k++) before.insert(before.end(), L->cp[k].vt, L->cp[k].vt + L->cp[k].nv);
  int memsize = 0; void *mem = nullptr; if (c.flag()) { int est = octrope_est_mem((int)N); CHECK(c, est > 0, "estimated memory %d", est); memsize = c.flag() ? est : c.range(1, est); memsize &= ~15; if (memsize < 16) memsize = 16; mem = malloc(memsize); memset(mem, 0xA5, memsize); }
  vector<octrope_strut> sl(size + 1); memset(sl.data(), 0x5a, sizeof(octrope_strut) * (size + 1)); double shortest = -1; int k = octrope_struts(L, cutoff, eps, size ? sl.data() : nullptr, size, &shortest, mem, memsize); CHECK(c, octrope_error_num == 0, "error %d %s", octrope_error_num, octrope_error_str); c.labelf("mode=%d", mode); if (lv) c.label("levels set"); if (mem) c.label("buffer");
  double sc = (double)mx, tl = 1e-7 * sc + 1e-9; CHECK(c, k >= 0 && k <= size, "%d struts returned in a list of %d", k, size); double bound = cutoff > 0 ? cutoff : 0;
  auto inrange = [&](ld d, double slack) { return cutoff > 0 ? d <= cutoff + slack : true; };
  // the shortest length
  ld best = 1e30L, bestsure = 1e30L; for (auto &p : st) { if (p.second.cls >= 0 && inrange(p.second.d, tl)) best = std::min(best, p.second.d); if (p.second.cls > 0 && inrange(p.second.d, -tl)) bestsure = std::min(bestsure, p.second.d); }
  if (bestsure > 1e29L && shortest == DBL_MAX) c.label("none"); else { CHECK(c, shortest != DBL_MAX, "no strut found, but there is one of length %.12Lg", bestsure); CHECK(c, shortest >= best - tl, "shortest strut %.12g, but none is below %.12Lg", shortest, best); CHECK(c, shortest <= bestsure + tl, "shortest strut %.12g, but there is one of length %.12Lg", shortest, bestsure); bool some = false; for (auto &p : st) if (p.second.cls >= 0 && fabsl(p.second.d - shortest) <= tl) some = true; CHECK(c, some, "no strut has the length %.12g", shortest); }
  if (!(cutoff > 0)) bound = shortest == DBL_MAX ? 0 : shortest + eps;
  std::set<pair<int, int>> got; auto idx = [&](int cm, int ld_) { for (size_t i = 0; i < N; i++) if (es[i].cmp == cm && es[i].lead == ld_) return (int)i; return -1; };
  for (int i = 0; i < k; i++) { auto &S = sl[i]; int a = idx(S.component[0], S.lead_vert[0]), b = idx(S.component[1], S.lead_vert[1]); CHECK(c, a >= 0 && b >= 0, "strut %d joins %d:%d and %d:%d", i, S.component[0], S.lead_vert[0], S.component[1], S.lead_vert[1]); double sa = S.position[0], sb = S.position[1]; if (a < b) { std::swap(a, b); std::swap(sa, sb); } CHECK(c, sa >= 0 && sa <= 1 && sb >= 0 && sb <= 1, "strut %d at positions %g %g", i, sa, sb); CHECK(c, got.insert({a, b}).second, "strut between edges %d and %d listed twice", a, b); auto it = st.find({a, b}); CHECK(c, it != st.end(), "strut %d between neighbouring edges", i); CHECK(c, it->second.cls >= 0, "edges %d:%d and %d:%d at %.9g %.9g are not a strut", es[a].cmp, es[a].lead, es[b].cmp, es[b].lead, sa, sb); CHECK(c, fabsl(it->second.d - S.length) <= tl, "strut length %.12g, really %.12Lg", S.length, it->second.d); V e[2]; octrope_strut_ends(L, &S, e); CHECK(c, fabs(dist(e[0], e[1]) - S.length) <= tl, "ends %.12g apart, length %.12g", dist(e[0], e[1]), S.length); CHECK(c, S.length <= bound * (1 + 1e-12) + 1e-12, "strut of length %.12g beyond %.12g", S.length, bound); }
  int total = 0; for (auto &p : st) { if (p.second.cls <= 0 || p.second.d > bound - tl) continue; total++; if (k < size || size > (int)st.size()) CHECK(c, got.count(p.first), "the strut between %d:%d and %d:%d of length %.12Lg (positions %.9Lg %.9Lg) is missing", es[p.first.first].cmp, es[p.first.first].lead, es[p.first.second].cmp, es[p.first.second].lead, p.second.d, p.second.s, p.second.t); } CHECK(c, k >= std::min(total, size), "%d struts returned, list of %d, %d exist", k, size, total);
  // minimum radius
  double mr = DBL_MAX, mt = 1e-9; struct M { int cmp, v, sv; double mr; }; vector<M> ms; bool odd = false; double len = 0; for (auto &e : es) len += dist(e.p, e.q); for (size_t q = 0; q < C.cp.size(); q++) { auto &S = C.cp[q]; int n = (int)S.v.size(); for (int i = S.open ? 1 : 0; i < (S.open ? n - 1 : n); i++) { V a = S.v[i] - S.v[(i + n - 1) % n], b = S.v[(i + 1) % n] - S.v[i]; double sn = norm(cross(a, b)) / (norm(a) * norm(b)); if (sn < 1e-4) odd = true; else mt = std::max(mt, 1e-14 / (sn * sn)); double m1 = minrad_at(a, b, norm(a)), m2 = minrad_at(a, b, norm(b)); ms.push_back({(int)q, i, i - 1, m1}); ms.push_back({(int)q, i, i + 1, m2}); mr = std::min(mr, std::min(m1, m2)); } }
  if (odd) { c.label("straight angle"); plc_free(L); free(mem); octrope_set_levels(0); return; }
  double got_mr = octrope_minradval(L); if (ms.empty()) CHECK(c, got_mr == DBL_MAX, "minimum radius %g without corners", got_mr); else CHECK(c, fabs(got_mr - mr) <= mt * mr, "minimum radius %.12g, really %.12g", got_mr, mr);
  double mcut = 0, meps = 0; int mmode = c.range(0, 2); if (!ms.empty()) { double q = c.of(ms).mr; if (mmode == 1) meps = (q - mr) * c.real(0.9, 1.1); if (meps < 0) meps = 0; if (mmode == 2) mcut = q * c.real(0.9, 1.1); } int msz = c.chance(2, 3) ? (int)ms.size() + 1 : c.range(1, 3); vector<octrope_mrloc> ml(msz + 1); int mk = -1; double m3 = octrope_minrad(L, mcut, meps, ml.data(), msz, &mk); CHECK(c, m3 == got_mr, "minimum radius %.12g with a list, %.12g without", m3, got_mr); CHECK(c, mk >= 0 && mk <= msz, "%d locations in a list of %d", mk, msz); double mb = mcut > 0 ? mcut : mr + meps; std::set<pair<pair<int, int>, int>> mg;
  for (int i = 0; i < mk; i++) { bool f = false; for (auto &m : ms) if (m.cmp == ml[i].component && m.v == ml[i].vert && m.sv == ml[i].svert) { f = true; CHECK(c, fabs(m.mr - ml[i].mr) <= mt * m.mr, "radius %.12g listed at %d:%d, really %.12g", ml[i].mr, m.cmp, m.v, m.mr); } CHECK(c, f, "location %d:%d/%d", ml[i].component, ml[i].vert, ml[i].svert); CHECK(c, ml[i].mr <= mb * (1 + mt), "radius %.12g beyond %.12g", ml[i].mr, mb); CHECK(c, mg.insert({{ml[i].component, ml[i].vert}, ml[i].svert}).second, "location listed twice"); } int mtot = 0; for (auto &m : ms) if (m.mr <= mb * (1 - mt)) { mtot++; if (mk < msz) CHECK(c, mg.count({{m.cmp, m.v}, m.sv}), "radius %.12g at %d:%d/%d below %.12g not listed", m.mr, m.cmp, m.v, m.sv, mb); } CHECK(c, mk >= std::min(mtot, msz), "%d locations, %d exist", mk, mtot);
  // thickness and ropelength, alone and in the combined call
  CHECK(c, fabs(octrope_curvelength(L) - len) <= 1e-10 * len, "length %.12g, really %.12g", octrope_curvelength(L), len); double lam = c.chance(1, 4) ? 0 : c.chance(1, 2) ? 1 : c.real(0.1, 3); double lo = mn > 1e29L ? DBL_MAX / 2 : (double)(mn - tl) / 2, hi = mnsure > 1e29L ? DBL_MAX : (double)(mnsure + tl) / 2; if (lam > 0 && !ms.empty()) { lo = std::min(lo, mr / lam * (1 - mt)); hi = std::min(hi, mr / lam * (1 + mt)); }
  double th = octrope_thickness(L, mem, memsize, lam), rl = octrope_ropelength(L, mem, memsize, lam); CHECK(c, th >= lo && (th <= hi || hi == DBL_MAX), "thickness %.12g for stiffness %g, must lie in [%.12g, %.12g]", th, lam, lo, hi); CHECK(c, fabs(rl * th - len) <= 1e-9 * len || th >= DBL_MAX / 4 || (th == 0 && rl >= DBL_MAX), "ropelength %.12g, length %.12g, thickness %.12g", rl, len, th);
  double poca = octrope_poca(L, mem, memsize); if (cutoff == 0) CHECK(c, poca == shortest, "shortest strut %.12g alone, %.12g with the list", poca, shortest);
  double r2, t2, l2, m2, s2; int nm2, ns2; vector<octrope_strut> s5(size + 1); vector<octrope_mrloc> m5(msz + 1); octrope(L, &r2, &t2, &l2, &m2, &s2, mcut, meps, m5.data(), msz, &nm2, cutoff, eps, size ? s5.data() : nullptr, size, &ns2, mem, memsize, lam); CHECK(c, octrope_error_num == 0, "error %d", octrope_error_num); CHECK(c, t2 == th && r2 == rl && fabs(l2 - len) <= 1e-10 * len, "combined call: thickness %.12g ropelength %.12g length %.12g, single calls %.12g %.12g %.12g", t2, r2, l2, th, rl, len); CHECK(c, lam == 0 ? m2 == DBL_MAX && nm2 == 0 : m2 == got_mr && nm2 == mk, "combined call: minimum radius %.12g at %d places", m2, nm2); CHECK(c, ns2 == k, "combined call: %d struts, alone %d", ns2, k); CHECK(c, s2 == poca, "combined call: shortest strut %.12g, alone %.12g", s2, poca);
  size_t z = 0; for (int q = 0; q < L->nc; q++) for (int i = 0; i < L->cp[q].nv; i++, z++) CHECK(c, memcmp(&L->cp[q].vt[i], &before[z], sizeof(V)) == 0, "the curve was changed"); plc_free(L); free(mem); octrope_set_levels(0);
}
// Strut files: what is written reads back (to the six digits kept), and a damaged file gives an error or struts that lie on the curve.
// Rectangles with sides along common axes, subdivided and turned: most pairs of edges are exactly parallel up to rounding.
PROPERTY(C10, parallel_edges, 40000, 1000000, 60, "at least two components") {
  int k = c.range(1, 3); Curve C; double small = 1e30; bool lattice = c.flag(); auto side = [&]() { return lattice ? (double)c.range(1, 4) : c.real(0.3, 4); };
  for (int i = 0; i < k; i++) { int a1 = c.range(0, 2), a2 = (a1 + c.range(1, 2)) % 3; double w = side(), h = side(); small = std::min(small, std::min(w, h)); V p = vec(0, 0, 0); if (i) for (int j = 0; j < 3; j++) p.c[j] = lattice ? 0.5 * c.range(-4, 4) : c.real(-3, 3); Strand s; V q = p;
    for (int e = 0; e < 4; e++) { double len = e & 1 ? h : w; int a = e & 1 ? a2 : a1, cut = lattice && c.chance(3, 4) ? (int)len : c.range(1, 4); V from = q; for (int j = 0; j < cut; j++) { V x = from; x.c[a] += (e < 2 ? 1 : -1) * len * j / cut; s.v.push_back(x); } q.c[a] += (e < 2 ? 1 : -1) * len; } s.cst.resize(s.v.size()); C.cp.push_back(s); }
  vector<vector<E>> es(k); for (int i = 0; i < k; i++) { auto &S = C.cp[i]; int n = (int)S.v.size(); for (int j = 0; j < n; j++) es[i].push_back({i, j, S.v[j], S.v[(j + 1) % n], false}); }
  double want = small; for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) for (auto &A : es[i]) for (auto &B : es[j]) want = std::min(want, (double)closest(A, B).d); if (want < 1e-3) c.discard("components that meet"); if (es[0].size() + 0 < 4) c.discard("degenerate");
  V ax = cv::unit(c); double ang = c.chance(1, 6) ? 0 : c.real(0.05, 3), sc = c.pick({3, 1}) == 0 ? 1 : pow(10, c.real(-2, 3)); V shift = c.flag() ? vec(0, 0, 0) : c.real(0, 3) * rvec(c, 2); plCurve *L; { vector<int> nv, cc; vector<char> op; for (auto &S : C.cp) { nv.push_back((int)S.v.size()); cc.push_back(0); } bool opn[4] = {false, false, false, false}; L = plc_new(k, nv.data(), opn, cc.data()); }
  for (int i = 0; i < k; i++) for (size_t j = 0; j < C.cp[i].v.size(); j++) { V x = plc_rotate_vect(C.cp[i].v[j], ax, ang); for (int m = 0; m < 3; m++) x.c[m] = sc * (x.c[m] + shift.c[m]); L->cp[i].vt[j] = x; C.cp[i].v[j] = x; } plc_fix_wrap(L); want *= sc; c.nontrivial(k > 1); c.label(lattice ? "lattice" : "real sides"); if (ang == 0) c.label("unturned"); { string nt; char b[100]; for (auto &S : C.cp) { nt += "["; for (auto &x : S.v) { snprintf(b, 100, "(%.17g %.17g %.17g)", x.c[0], x.c[1], x.c[2]); nt += b; } nt += "] "; } c.note("turned by %g: %s", ang, nt.substr(0, 3000).c_str()); }
  double tol = 1e-9 * sc * 20; for (int lv = 0; lv < 7; lv++) { octrope_set_levels(lv); octrope_error_num = 0; double g = octrope_poca(L, nullptr, 0); CHECK(c, octrope_error_num == 0, "error %d %s", octrope_error_num, octrope_error_str); CHECK(c, fabs(g - want) <= tol, "the shortest strut is %.12g at octree depth %d, but %.12g is the distance between the closest parallel or separate edges", g, lv, want); }
  octrope_set_levels(0); vector<octrope_strut> sl(4000); double sh = -1; int n = octrope_struts(L, 0, 0.01 * want, sl.data(), 4000, &sh, nullptr, 0); CHECK(c, fabs(sh - want) <= tol && n > 0, "%d struts listed, the shortest %.12g instead of %.12g", n, sh, want);
  for (int i = 0; i < n; i++) { V e[2]; octrope_strut_ends(L, &sl[i], e); double d = dist(e[0], e[1]); CHECK(c, fabs(d - sl[i].length) <= tol && d >= want - tol && d <= 1.01 * want + tol, "strut %d of length %.12g has ends %.12g apart; the shortest is %.12g", i, sl[i].length, d, want); }
  plc_free(L); }
PROPERTY(C10, strutfile, 60000, 2000000, 60, "at least one record, or a damaged file") {
  Curve C = rope_curve(c); plCurve *L = build(C); int nc = (int)C.cp.size(); int ns = c.pick({1, 4}) ? c.range(1, 8) : 0, nm = c.pick({1, 3}) ? c.range(1, 6) : 0; vector<octrope_strut> S(ns + 1); vector<octrope_mrloc> M(nm + 1); auto num = [&]() { return c.pick({3, 1, 1}) == 0 ? c.real(-2, 2) : c.chance(1, 3) ? 0.0 : c.real(-1, 1) * pow(10, c.range(-8, 8)); };
  for (int i = 0; i < ns; i++) { for (int j = 0; j < 2; j++) { S[i].component[j] = c.range(0, nc - 1); S[i].lead_vert[j] = c.range(0, (int)C.cp[S[i].component[j]].v.size() - 1); S[i].position[j] = c.unit(); } S[i].length = num(); S[i].compression = num(); } for (int i = 0; i < nm; i++) { M[i].component = c.range(0, nc - 1); M[i].vert = c.range(0, (int)C.cp[M[i].component].v.size() - 1); M[i].svert = 0; M[i].mr = num(); M[i].compression = num(); }
  char *buf = nullptr; size_t bl = 0; FILE *f = open_memstream(&buf, &bl); octrope_strutfile_write(ns, S.data(), nm, M.data(), f); fclose(f); string text(buf, bl); free(buf); int dmg = c.pick({3, 1, 1, 1, 1, 1}); // 1 cut, 2 replace a token, 3 drop a token, 4 comments and blanks, 5 insert characters
  vector<string> tok; { string t; for (char ch : text) { if (isspace((unsigned char)ch)) { if (!t.empty()) tok.push_back(t); t.clear(); } else t += ch; } if (!t.empty()) tok.push_back(t); } auto join = [&](bool cm) { string r; for (auto &t : tok) { r += t; if (cm && c.chance(1, 6)) { static const char *w[] = {"\n", "\t ", " # 12 remark\n", "\n\n#x\n#\n 1 2 3\b", "  #\n"}; r += w[c.range(0, 4) == 3 ? 0 : c.range(0, 4) % 3]; r += " "; } else r += c.chance(1, 5) ? "\n" : " "; } return r; };
  bool good = dmg == 0 || dmg == 4; if (dmg == 1) text.resize(c.range(0, (int)text.size() - 1)); else if (dmg == 2) { static const char *w[] = {"-1", "1000000", "-2147483648", "2147483647", "x", "99999999999", "1e300", "nan", "STRUTS", "0", "-7", "3", "1e400", "4000"}; tok[c.range(0, (int)tok.size() - 1)] = w[c.range(0, 13)]; text = join(false); } else if (dmg == 3) { tok.erase(tok.begin() + c.range(0, (int)tok.size() - 1)); text = join(false); } else if (dmg == 4) text = join(true); else if (dmg == 5) { for (int q = c.range(1, 3); q > 0; q--) text.insert(c.range(0, (int)text.size()), 1, "-0 9#xS.e\n"[c.range(0, 9)]); }
  c.note("damage %d: %.300s", dmg, text.c_str()); c.labelf("damage=%d", dmg); c.nontrivial(ns + nm > 0 || !good);
  int rs = -1, rm = -1; octrope_strut *ps = nullptr; octrope_mrloc *pm = nullptr; f = fmemopen((void *)(text.empty() ? " " : text.data()), text.empty() ? 1 : text.size(), "r"); octrope_strutfile_read(L, &rs, &ps, &rm, &pm, f); fclose(f); int err = octrope_error_num; auto close6 = [](double a, double b) { return fabs(a - b) <= 1.01e-5 * fabs(a) + 1e-300; };
  if (good) { CHECK(c, err == 0, "error %d: %s", err, octrope_error_str); CHECK(c, rs == ns && rm == nm, "%d struts and %d locations read, %d and %d written", rs, rm, ns, nm); for (int i = 0; i < ns; i++) for (int j = 0; j < 2; j++) CHECK(c, ps[i].component[j] == S[i].component[j] && ps[i].lead_vert[j] == S[i].lead_vert[j] && close6(S[i].position[j], ps[i].position[j]) && close6(S[i].length, ps[i].length) && close6(S[i].compression, ps[i].compression), "strut %d came back different", i); for (int i = 0; i < nm; i++) CHECK(c, pm[i].component == M[i].component && pm[i].vert == M[i].vert && close6(M[i].mr, pm[i].mr) && close6(M[i].compression, pm[i].compression), "location %d came back different", i); }
  else if (err == 0) { c.label("damaged, accepted"); size_t p0 = text.find_first_not_of(" \t\n\r\f\v"); CHECK(c, p0 != string::npos && text.compare(p0, 6, "STRUTS") == 0, "accepted without the keyword"); CHECK(c, rs >= 0 && rm >= 0, "%d struts %d locations", rs, rm); for (int i = 0; i < rs; i++) { for (int j = 0; j < 2; j++) { CHECK(c, ps[i].component[j] >= 0 && ps[i].component[j] < nc, "strut on component %d of %d", ps[i].component[j], nc); CHECK(c, ps[i].lead_vert[j] >= 0 && ps[i].lead_vert[j] < (int)C.cp[ps[i].component[j]].v.size(), "strut at vertex %d", ps[i].lead_vert[j]); } V e[2]; octrope_strut_ends(L, &ps[i], e); } for (int i = 0; i < rm; i++) CHECK(c, pm[i].component >= 0 && pm[i].component < nc && pm[i].vert >= 0 && pm[i].vert < (int)C.cp[pm[i].component].v.size(), "location %d:%d", pm[i].component, pm[i].vert); }
  else c.label("refused"); free(ps); free(pm); plc_free(L);
}
