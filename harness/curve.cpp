#include "curve.hpp"
#include <cfloat>
using namespace cv;

// ------------------------------------------------------------------------------------------ C01
static FILE *mem(const string &s) { FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
static string text(plCurve *L) { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); plc_write(f, L); fclose(f); string s(b, z); free(b); return s; }
static Curve vect_curve(pbt::Case &c) {
  int style = c.pick({1, 2, 2, 2}); bool many = c.chance(1, 8); Curve C = rcurve(c, 4, 1, many ? 60 : 9, style, true);
  if (c.chance(1, 12)) for (auto &s : C.cp) for (auto &v : s.v) v = (c.flag() ? 1e-290 : 1e290) * v;
  rconstraints(c, C, c.pick({3, 1}) == 0 ? c.range(0, 5) : c.range(8, 45));
  if (c.chance(1, 60)) { auto &s = C.cp[0]; while ((int)s.v.size() < 100) { s.v.push_back(rvec(c, style)); s.cst.push_back(Cst()); if (s.clr.size() > 1 || (s.clr.size() == 1 && s.v.size() == 2)) s.clr.push_back(s.clr.back()); } for (auto &k : s.cst) if (c.chance(19, 20)) k = rcst(c); } // more than a hundred constraints
  if (c.chance(1, 6)) for (auto &s : C.cp) for (auto &k : s.cst) if (k.kind) { for (auto &x : k.a.c) x *= pow(10.0, c.range(-8, 8)); for (auto &x : k.b.c) x *= pow(10.0, c.range(-8, 8)); } // parameters of any size
  return C; }

PROPERTY(C01, roundtrip, 480000, 1440000, 60, "at least one constraint, or colours, or more than one component") {
  int k = 1; vector<Curve> cs; string all; for (int i = 0; i < k; i++) { cs.push_back(vect_curve(c)); plCurve *L = build(cs.back()); Curve before = cs.back(); all += text(L); compare(c, before, L, "written curve"); plc_free(L); }
  bool con = false, col = false; for (auto &C : cs) for (auto &s : C.cp) { for (auto &q : s.cst) con |= q.kind != 0; col |= !s.clr.empty(); }
  c.nontrivial(con || col || cs[0].cp.size() > 1); if (con) c.label("constraints"); if (col) c.label("colours"); c.note("%s", show(cs[0]).c_str());
  int nk = 0; for (auto &s : cs[0].cp) for (size_t j = 0; j < s.cst.size(); j++) if (s.cst[j].kind && (j == 0 || !(s.cst[j] == s.cst[j - 1]))) nk++; if (nk > 10) c.label("more_than_10_constraints");
  FILE *f = mem(all); Tol t; t.vr = 1e-15; t.kr = 6e-6;
  for (int i = 0; i < k; i++) { int e = 99; char es[200] = "x"; plCurve *L = plc_read(f, &e, es, sizeof es); CHECK(c, L != nullptr, "curve %d of the file is not read back: error %d %s", i, e, es); CHECK(c, e == 0, "error number %d with a curve", e); compare(c, cs[i], L, "curve read back", t);
    plCurve *M = plc_copy(L); plc_free(L); compare(c, cs[i], M, "copy", t); plc_free(M); }
  fclose(f);
}

// ------------------------------------------------------------------------------------------ C02
static string mutate(pbt::Case &c, string s) {
  static const char *tok[] = {"0", "-1", "1", "2", "3", "7", "-3", "100", "65536", "-65536", "abc", "1.5", "", "#", "\n", "# Constraint 1 Fixed 1 2 3", "# Cst: 1", "# Cst: 2", " # Cst: 0", "# Cst: -1", "# Cst: 40", "Constraint", "# Constraint 2 Line 1 0 0 0 0 0", "# Constraint 12 Plane 0 0 1 2", "# Constraint 9 Fixed 0 0 0", "# Constraint 29 Fixed 0 0 0", "nan", "inf", "VECT", "1e400", "# Constraint 1 Fixed", "# Constraint 1 Plane 1 1 1 1", "\r\n", "\t", "  "};
  int k = c.range(1, 4); for (int i = 0; i < k && !s.empty(); i++) switch (c.pick({4, 2, 2, 2, 2, 2})) {
    case 0: { // replace a whitespace-delimited token
      vector<pair<size_t, size_t>> w; size_t p = 0; while (p < s.size()) { while (p < s.size() && isspace((unsigned char)s[p])) p++; size_t q = p; while (q < s.size() && !isspace((unsigned char)s[q])) q++; if (q > p) w.push_back({p, q - p}); p = q; }
      if (w.empty()) break; size_t lim = c.flag() ? std::min<size_t>(w.size(), 12) : w.size(); auto x = w[c.below(lim)]; s.replace(x.first, x.second, tok[c.below(sizeof tok / sizeof *tok)]); break; }
    case 1: { string r = tok[c.below(sizeof tok / sizeof *tok)]; s.insert(c.below(s.size() + 1), (c.flag() ? "\n" : " ") + r + (c.flag() ? "\n" : " ")); break; }
    case 2: { size_t a = c.below(s.size()); s.erase(a, 1 + c.below(20)); break; }
    case 3: s.resize(c.below(s.size())); break;
    case 4: s[c.below(s.size())] = (char)c.below(256); break;
    case 5: { size_t a = s.find('\n', c.below(s.size())); if (a == string::npos) break; size_t b = s.find('\n', a + 1); if (b == string::npos) break; string l = s.substr(a, b - a); if (c.flag()) s.insert(b, l); else s.erase(a, b - a); break; } }
  // keep declared counts small: drop digits of absurdly long numbers
  string o; int run = 0; for (char ch : s) { if (isdigit((unsigned char)ch)) { if (++run > 5 && (o.empty() || true)) { bool frac = o.rfind('.') != string::npos && o.find_last_of(" \n\t") < o.rfind('.'); if (!frac && run > 5) continue; } } else run = 0; o += ch; }
  return o; }
static void soundness(pbt::Case &c, plCurve *L) {
  CHECK(c, L->nc >= 1, "a curve with %d components was read", L->nc);
  for (int i = 0; i < L->nc; i++) { CHECK(c, L->cp[i].nv >= 1 && L->cp[i].cc >= 0 && L->cp[i].cc <= L->cp[i].nv, "component %d has %d vertices and %d colours", i, L->cp[i].nv, L->cp[i].cc); CHECK(c, L->cp[i].open || L->cp[i].nv >= 3, "closed component with %d vertices", L->cp[i].nv); }
  expand(c, L, "curve read"); plCurve *M = plc_copy(L); text(M); plc_free(M); plc_fix_wrap(L); plc_arclength(L, nullptr); plc_num_edges(L); }
static plCurve *read_text(pbt::Case &c, const string &s) { FILE *f = mem(s); int e = 4711; size_t el = 1 + c.below(120); vector<char> es(el, 'x'); plCurve *L = plc_read(f, &e, es.data(), el); fclose(f);
  CHECK(c, memchr(es.data(), 0, el), "error string is not terminated"); if (L) CHECK(c, e == 0, "a curve is returned together with error %d", e); else CHECK(c, e > 0 && e <= 13, "no curve and error number %d", e); return L; }
PROPERTY(C02, mutated, 480000, 1500000, 60, "the file differs from the written one and still starts a VECT header") {
  Curve C = rcurve(c, 3, 1, 6, c.range(0, 2), true); rconstraints(c, C, c.range(0, 4)); plCurve *L = build(C); string s = text(L); plc_free(L); string m = mutate(c, s);
  c.nontrivial(m != s && m.size() > 8); c.note("%zu bytes: %s", m.size(), m.substr(0, 300).c_str());
  plCurve *R = read_text(c, m); if (R) { c.label("accepted"); soundness(c, R); plc_free(R); } else c.label("rejected");
}
PROPERTY(C02, truncated, 120000, 360000, 60, "cut strictly inside the data") {
  Curve C = rcurve(c, 3, 1, 6, c.range(0, 2), true); rconstraints(c, C, c.range(0, 3)); plCurve *L = build(C); string s = text(L); plc_free(L);
  // the last number that is data: strip trailing comments
  size_t p = 0, last = 0; bool com = false; for (p = 0; p < s.size(); p++) { if (s[p] == '#') com = true; else if (s[p] == '\n') com = false; else if (!com && !isspace((unsigned char)s[p]) && (p == 0 || isspace((unsigned char)s[p - 1]))) last = p; }
  size_t cut = c.below(last + 1); c.nontrivial(cut > 8); c.note("%zu of %zu bytes", cut, s.size());
  plCurve *R = read_text(c, s.substr(0, cut)); CHECK(c, R == nullptr, "a file cut after %zu of %zu bytes (last datum starts at %zu) is accepted", cut, s.size(), last);
}
PROPERTY(C02, noise, 120000, 360000, 60, "at least 8 bytes") {
  static const char *w[] = {"VECT", "1", "2", "3", "-3", "0", "\n", " ", "#", "Constraint ", "Fixed", "Line", "Plane", "Cst: ", "1.5", "-2e3", "# ", "\t", "x", "4", "-4"};
  string s = c.chance(3, 4) ? "VECT\n" : ""; int n = c.range(0, 60); for (int i = 0; i < n; i++) { if (c.chance(1, 20)) s += (char)c.below(256); else { s += w[c.below(sizeof w / sizeof *w)]; if (c.chance(2, 3)) s += ' '; } }
  string o; int run = 0; for (char ch : s) { if (isdigit((unsigned char)ch)) { if (++run > 5) continue; } else run = 0; o += ch; }
  c.nontrivial(o.size() >= 8); c.note("%s", o.substr(0, 300).c_str()); plCurve *R = read_text(c, o); if (R) { c.label("accepted"); soundness(c, R); plc_free(R); }
}

// ------------------------------------------------------------------------------------------ C03
PROPERTY(C03, histories, 1600000, 4800000, 60, "at least three operations, of which one overlaps an earlier run") {
  Curve C = rcurve(c, 3, 1, 8, 0, false); double S = c.chance(1, 6) ? pow(10.0, c.range(-6, 8)) : 1; for (auto &s : C.cp) for (auto &v : s.v) v = S * v; plCurve *L = build(C); int steps = c.range(1, 14); vector<Cst> pool; bool over = false; string log;
  int np = c.range(1, 4); for (int i = 0; i < np; i++) pool.push_back(i && c.flag() ? near_cst(c, pool[c.below(i)]) : rcst(c)); if (S != 1) c.label("scaled");
  for (auto &k : pool) { double e = c.chance(1, 4) ? pow(10.0, c.range(-6, 6)) : 1; if (k.kind == 1) k.a = S * k.a; else { k.a = e * k.a; k.b = (k.kind == 3 ? S * e : S) * k.b; } } // normals and directions of any length
  for (int st = 0; st < steps; st++) {
    int i = (int)c.below(C.cp.size()); auto &s = C.cp[i]; int n = (int)s.v.size(), a = (int)c.below(n), len = c.range(1, n - a); char b[120];
    switch (c.pick({8, 3, 1, 1})) {
      case 0: { Cst k = pool[c.below(pool.size())]; if (k.kind == 1) len = 1; for (int j = a; j < a + len; j++) { over |= s.cst[j].kind && !(s.cst[j] == k); s.cst[j] = k; }
        if (k.kind == 1) plc_set_fixed(L, i, a, k.a); else if (k.kind == 2) plc_constrain_to_line(L, i, a, len, k.a, k.b); else plc_constrain_to_plane(L, i, a, len, k.a, k.b.c[0]);
        snprintf(b, 120, "set kind %d on %d:%d+%d; ", k.kind, i, a, len); log += b; break; }
      case 1: for (int j = a; j < a + len; j++) { over |= s.cst[j].kind != 0; s.cst[j] = Cst(); } plc_unconstrain(L, i, a, len); snprintf(b, 120, "unconstrain %d:%d+%d; ", i, a, len); log += b; break;
      case 2: { Cst k = pool[c.below(pool.size())]; V w[2] = {k.a, k.b}; int cnt = 0; for (auto &q : C.cp) for (auto &x : q.cst) if (x == k) { x = Cst(); cnt++; } int r = plc_remove_constraint(L, (plc_cst_kind)k.kind, w); snprintf(b, 120, "remove kind %d; ", k.kind); log += b; CHECK(c, r == cnt, "after %s: removed %d vertices, expected %d", log.c_str(), r, cnt); break; }
      case 3: if (c.chance(1, 2)) { for (auto &q : C.cp) for (auto &x : q.cst) x = Cst(); plc_remove_all_constraints(L); log += "remove all; "; } else { plCurve *M = plc_copy(L); plc_free(L); L = M; log += "copy; "; } break; }
    compare(c, C, L, log.c_str());
    for (size_t q = 0; q < C.cp.size(); q++) for (size_t j = 0; j < C.cp[q].v.size(); j++) { plc_constraint *t = nullptr; bool is = plc_is_constrained(L, (int)q, (int)j, &t); CHECK(c, is == (C.cp[q].cst[j].kind != 0), "after %s: is_constrained(%zu,%zu) = %d", log.c_str(), q, j, is); if (is) CHECK(c, t && t->kind == C.cp[q].cst[j].kind && t->cmp == (int)q && t->vert <= (int)j && t->vert + t->num_verts > (int)j, "after %s: is_constrained(%zu,%zu) returns a wrong constraint", log.c_str(), q, j); }
  }
  c.nontrivial(steps >= 3 && over); c.note("%s %s", show(C).c_str(), log.c_str());
  // distance from the constraints, and projection onto them
  double err = 0; Curve F = C; for (auto &s : F.cp) for (size_t j = 0; j < s.v.size(); j++) { V p = s.v[j], q = p; auto &k = s.cst[j]; if (k.kind == 1) q = k.a; else if (k.kind == 2) q = k.b + (dot(k.a, p - k.b) / dot(k.a, k.a)) * k.a; else if (k.kind == 3) q = p - ((dot(k.a, p) - k.b.c[0]) / dot(k.a, k.a)) * k.a; err = std::max(err, dist(p, q)); s.v[j] = q; }
  double g = plc_check_cst(L); CHECK(c, fabs(g - err) <= 1e-9 * (S + err), "constraint violation reported as %.17g, is %.17g (%s)", g, err, log.c_str());
  plc_fix_cst(L); Tol t; t.va = 1e-9 * S; t.vr = 1e-9; compare(c, F, L, "after moving the vertices onto their constraints", t); CHECK(c, plc_check_cst(L) < 1e-9 * S, "constraints still violated by %g after fixing them", plc_check_cst(L));
  plc_free(L);
}

// ------------------------------------------------------------------------------------------ C04
static Curve snapshot(pbt::Case &c, const plCurve *L, const char *w) { Curve C; auto e = expand(c, L, w); for (int i = 0; i < L->nc; i++) { Strand s; s.open = L->cp[i].open; s.v.assign(L->cp[i].vt, L->cp[i].vt + L->cp[i].nv); for (int j = 0; j < L->cp[i].cc; j++) s.clr.push_back({L->cp[i].clr[j].r, L->cp[i].clr[j].g, L->cp[i].clr[j].b, L->cp[i].clr[j].alpha}); s.cst = e[i]; C.cp.push_back(s); } return C; }
static void random_perm(pbt::Case &c, int n, vector<int> &p, vector<int> &code) { // p and its cycle code
  p.resize(n); std::iota(p.begin(), p.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[c.below(i + 1)]);
  code.clear(); vector<char> seen(n, 0); for (int i = 0; i < n; i++) if (!seen[i]) { if (p[i] == i) { seen[i] = 1; continue; } int j = i; do { seen[j] = 1; code.push_back(j); j = p[j]; } while (j != i); code.push_back(i); }
  while ((int)code.size() < 2 * n) code.push_back(-1); code.resize(2 * n); }
static void apply_whitten(Curve &C, int mirror, const vector<int> &eps, const vector<int> &p) {
  Curve N; for (size_t i = 0; i < p.size(); i++) { Strand s = C.cp[p[i]]; if (mirror == -1) { for (auto &v : s.v) v.c[2] = -v.c[2]; for (auto &k : s.cst) if (k.kind) { k.a.c[2] = -k.a.c[2]; if (k.kind == 2) k.b.c[2] = -k.b.c[2]; } }
    if (eps[i] == -1) { std::reverse(s.v.begin(), s.v.end()); std::reverse(s.cst.begin(), s.cst.end()); if (s.clr.size() == s.v.size()) std::reverse(s.clr.begin(), s.clr.end()); } N.cp.push_back(s); } C = N; }

PROPERTY(C04, histories, 1200000, 4000000, 60, "at least three edits, on a curve with constraints or colours") {
  Curve C = rcurve(c, 3, 2, 8, c.range(1, 2), true); rconstraints(c, C, C.cp.size() > 6 ? c.range(0, 30) : c.range(0, 4)); plCurve *L = build(C); int steps = c.range(1, 8); string log; bool rich = false; for (auto &s : C.cp) { rich |= !s.clr.empty(); for (auto &k : s.cst) rich |= k.kind != 0; }
  for (int st = 0; st < steps; st++) { char b[160]; int i = (int)c.below(C.cp.size()); int n = (int)C.cp[i].v.size(); Tol t;
    switch (c.pick({4, 3, 5, 2, 2, 2, 2, 3, 2})) {
      case 0: { if (C.cp.size() > 24) break; Strand s = rstrand(c, 1, 6, 1, true); int at = (int)c.below(C.cp.size() + 1); vector<plc_color> q; for (auto &x : s.clr) q.push_back(plc_build_color(x[0], x[1], x[2], x[3])); plc_add_component(L, at, (int)s.v.size(), s.open, (int)s.clr.size(), s.v.data(), q.empty() ? nullptr : q.data()); C.cp.insert(C.cp.begin() + at, s); snprintf(b, 160, "add %zu at %d; ", s.v.size(), at); log += b; break; }
      case 1: { if (C.cp.size() < 2) break; plc_drop_component(L, i); C.cp.erase(C.cp.begin() + i); snprintf(b, 160, "drop %d; ", i); log += b; break; }
      case 2: { int v1, v2; auto &s = C.cp[i]; if (s.open) { v1 = c.range(-3, n + 2); v2 = c.range(-3, n + 2); } else { v1 = c.range(0, n - 1); v2 = c.range(0, n - 1); }
        bool whole = s.open ? (v1 <= 0 && v2 >= n - 1) : (v1 == v2 + 1 || (v1 <= 0 && v2 >= n - 1)); if (whole && C.cp.size() < 2) break;
        plCurve *M = plc_delete_arc(L, i, v1, v2); compare(c, C, L, "original after deleting an arc"); plc_free(L); L = M; snprintf(b, 160, "delete arc %d..%d of %d (%s, %d verts); ", v1, v2, i, s.open ? "open" : "closed", n); log += b;
        for (auto &p : C.cp) for (auto &k : p.cst) k = Cst();
        bool pv = (int)s.clr.size() == n && n > 1; if ((int)s.clr.size() == 1) pv = false;
        auto sub = [&](const vector<int> &idx) { Strand r; r.open = true; for (int x : idx) { r.v.push_back(s.v[x]); if (pv) r.clr.push_back(s.clr[x]); } if (!pv) r.clr = s.clr; r.cst.resize(idx.size()); return r; };
        if (whole) { C.cp.erase(C.cp.begin() + i); break; }
        if (s.open) { if (v1 > v2 || v2 < 0 || v1 >= n) break; vector<int> x, y; for (int j = 0; j < n; j++) { if (j < v1) x.push_back(j); if (j > v2) y.push_back(j); } vector<Strand> r; if (!x.empty()) r.push_back(sub(x)); if (!y.empty()) r.push_back(sub(y)); C.cp.erase(C.cp.begin() + i); C.cp.insert(C.cp.begin() + i, r.begin(), r.end()); }
        else { vector<int> x; for (int j = (v2 + 1) % n; j != v1; j = (j + 1) % n) x.push_back(j); Strand r = sub(x); C.cp[i] = r; }
        break; }
      case 3: { bool ok = true; for (auto &s : C.cp) { int m = (int)s.v.size(); if (m < 2 || m > 40) ok = false; for (int j = 0; j < m; j++) { V p = s.v[(j + m - 1) % m], q = s.v[(j + 1) % m]; if (dist(s.v[j], p) < 1e-3 || dist(s.v[j], q) < 1e-3 || (m > 2 && norm(cross(s.v[j] - p, q - s.v[j])) < 1e-3)) ok = false; } } if (!ok) break;
        plCurve *M = plc_double_verts(L); compare(c, C, L, "original after doubling its vertices"); plc_free(L); L = M; log += "double; "; CHECK(c, L->nc == (int)C.cp.size(), "doubling changed the number of components");
        for (int k = 0; k < L->nc; k++) { auto &s = C.cp[k]; int m = (int)s.v.size(); CHECK(c, L->cp[k].nv == 2 * m && L->cp[k].open == s.open, "doubling %d vertices gives %d", m, L->cp[k].nv);
          for (int j = 0; j < m; j++) { V x = L->cp[k].vt[2 * j], y = L->cp[k].vt[2 * j + 1], o = s.v[j];
            if (s.open && (j == 0 || j == m - 1)) { CHECK(c, dist(j ? y : x, o) < 1e-12, "doubling moved an end point"); V z = j ? x : y, nb = s.v[j ? j - 1 : 1]; CHECK(c, dist(z, o + 0.25 * (nb - o)) < 1e-9, "doubling: new vertex next to an end is off its edge"); continue; }
            V p = s.v[(j + m - 1) % m], q = s.v[(j + 1) % m]; double dx = dist(x, o), dy = dist(y, o), lo = std::min(dist(o, p), dist(o, q));
            CHECK(c, dist(x, o + (dx / dist(p, o)) * (p - o)) < 1e-9 && dist(y, o + (dy / dist(q, o)) * (q - o)) < 1e-9, "doubling: vertices %d,%d of component %d are not on the adjacent edges", 2 * j, 2 * j + 1, k);
            CHECK(c, fabs(dx - dy) < 1e-9 && dx <= lo / 2 + 1e-9 && dx >= lo / 4 - 1e-9, "doubling: corner %d of component %d cut at distance %g and %g (shorter edge %g)", j, k, dx, dy, lo); }
          auto minrad = [](const vector<V> &v, bool open) { double r = 1e3; int n = (int)v.size(); if (n < 3) return r; for (int j = open ? 1 : 0; j < (open ? n - 1 : n); j++) { V a = v[j] - v[(j + n - 1) % n], b = v[(j + 1) % n] - v[j]; double t = angle(a, b); if (t > 1e-9) r = std::min(r, std::min(norm(a), norm(b)) / (2 * tan(t / 2))); } return r; };
          { double before = minrad(s.v, s.open), after = minrad(vector<V>(L->cp[k].vt, L->cp[k].vt + 2 * m), s.open); CHECK(c, after >= before * (1 - 1e-6) - 1e-9, "doubling: the minimum radius of component %d falls from %.12g to %.12g", k, before, after); }
          int want = s.clr.size() <= 1 ? (int)s.clr.size() : 2 * m; CHECK(c, L->cp[k].cc == want, "doubling %zu colours gives %d", s.clr.size(), L->cp[k].cc);
          for (int j = 0; j < want; j++) { auto &z = s.clr[s.clr.size() == 1 ? 0 : j / 2]; CHECK(c, L->cp[k].clr[j].r == z[0] && L->cp[k].clr[j].g == z[1] && L->cp[k].clr[j].b == z[2] && L->cp[k].clr[j].alpha == z[3], "doubling: colour %d of component %d lost", j, k); } }
        Curve N = snapshot(c, L, "doubled curve");
        for (size_t k = 0; k < N.cp.size(); k++) for (size_t j = 0; j < C.cp[k].cst.size(); j++) if (C.cp[k].cst[j].kind) CHECK(c, N.cp[k].cst[2 * j] == C.cp[k].cst[j] || N.cp[k].cst[2 * j + 1] == C.cp[k].cst[j], "doubling lost the constraint at vertex %zu of component %zu", j, k);
        for (size_t k = 0; k < N.cp.size(); k++) for (size_t j = 0; j < N.cp[k].cst.size(); j++) { auto &x = N.cp[k].cst[j]; if (x.kind) CHECK(c, x == C.cp[k].cst[j / 2] , "doubling put a constraint on vertex %zu of component %zu, whose old vertex had another", j, k); }
        C = N; break; }
      case 4: { plCurve *M = plc_copy(L); plc_free(L); L = M; log += "copy; "; break; }
      case 5: { auto &s = C.cp[i]; int k = c.pick({1, 1, 2}), nc = k == 0 ? 0 : k == 1 ? 1 : n; if (s.clr.size() > 1 && nc > (int)s.clr.size()) break; plc_resize_colorbuf(L, i, nc); if (nc == 0) s.clr.clear(); else if (s.clr.empty()) s.clr.assign(nc, {0, 0, 0, 0}); else if (s.clr.size() == 1) s.clr.assign(nc, s.clr[0]); else s.clr.resize(nc); snprintf(b, 160, "resize colours of %d to %d; ", i, nc); log += b; break; }
      case 6: { array<double, 4> q = {c.unit(), c.unit(), c.unit(), 1}; plc_set_color(L, plc_build_color(q[0], q[1], q[2], q[3])); for (auto &s : C.cp) for (auto &x : s.clr) x = q; log += "set colour; "; break; }
      case 7: { vector<int> p, code, eps; random_perm(c, (int)C.cp.size(), p, code); for (size_t k = 0; k < p.size(); k++) eps.push_back(c.flag() ? -1 : 1); int m = c.flag() ? -1 : 1; plc_whitten(L, m, eps.data(), code.data()); apply_whitten(C, m, eps, p); log += "whitten; "; break; }
      case 8: { Cst k = rcst(c); auto &s = C.cp[i]; int a = (int)c.below(n), len = k.kind == 1 ? 1 : c.range(1, n - a); for (int j = a; j < a + len; j++) s.cst[j] = k; if (k.kind == 1) plc_set_fixed(L, i, a, k.a); else if (k.kind == 2) plc_constrain_to_line(L, i, a, len, k.a, k.b); else plc_constrain_to_plane(L, i, a, len, k.a, k.b.c[0]); snprintf(b, 160, "constrain %d:%d+%d; ", i, a, len); log += b; break; } }
    compare(c, C, L, log.c_str(), t);
  }
  c.nontrivial(steps >= 3 && rich); c.note("%s -> %s", log.c_str(), show(C).c_str());
  string s1 = text(L); plc_free(L);
}

// ------------------------------------------------------------------------------------------ C05
#define NEAR(c, got, want, tol, ...) do { double g_ = (got), w_ = (want); if (!(fabs(g_ - w_) <= (tol))) { char b_[200]; snprintf(b_, 200, __VA_ARGS__); (c).fail("%s: got %.17g, expected %.17g", b_, g_, w_); } } while (0)
static bool generic(const Curve &C, double eps) { for (auto &s : C.cp) { int m = (int)s.v.size(); for (int j = 0; j < m; j++) { V q = s.v[(j + 1) % m]; if (s.open && j == m - 1) break; if (dist(s.v[j], q) < eps) return false; } } return true; }
PROPERTY(C05, curves, 900000, 3000000, 60, "at least 4 vertices on some component") {
  Curve C = rcurve(c, 3, 2, c.chance(1, 10) ? 40 : 9, c.range(0, 2), false); if (!generic(C, 1e-3)) c.discard("zero-length edge"); double S = c.chance(1, 6) ? pow(10.0, c.range(-3, 6)) : 1; for (auto &s : C.cp) for (auto &v : s.v) v = S * v; if (S != 1) c.label("scaled"); plCurve *L = build(C); double M = S + max_coord(C); bool big = false; for (auto &s : C.cp) big |= s.v.size() >= 4; c.nontrivial(big); c.note("%s", show(C).c_str());
  int nc = (int)C.cp.size(); vector<double> len(nc), tc(nc, 0), tt(nc, 0); vector<vector<double>> el(nc); double tl = 0; int ne = 0, nvt = 0; double lo = 1e300, hi = 0, m1 = 0, m2 = 0;
  for (int i = 0; i < nc; i++) { auto &s = C.cp[i]; int n = (int)s.v.size(), e = s.open ? n - 1 : n; for (int j = 0; j < e; j++) { double d = dist(s.v[j], s.v[(j + 1) % n]); el[i].push_back(d); len[i] += d; lo = std::min(lo, d); hi = std::max(hi, d); m1 += d; m2 += d * d; } tl += len[i]; ne += e; nvt += n; }
  vector<int> ce(nc, -1); CHECK(c, plc_num_edges(L) == ne && plc_edges(L, ce.data()) == ne && plc_edges(L, nullptr) == ne && plc_num_verts(L) == nvt, "edge or vertex count"); for (int i = 0; i < nc; i++) CHECK(c, ce[i] == (int)el[i].size(), "edges of component %d", i);
  vector<double> cl(nc, -1); NEAR(c, plc_arclength(L, cl.data()), tl, 1e-10 * M * nvt, "arclength"); for (int i = 0; i < nc; i++) NEAR(c, cl[i], len[i], 1e-10 * M * nvt, "length of component %d", i); NEAR(c, plc_arclength(L, nullptr), tl, 1e-10 * M * nvt, "arclength");
  { double a, b, m, q; plc_edgelength_stats(L, &a, &b, &m, &q); NEAR(c, a, hi, 1e-11 * M, "longest edge"); NEAR(c, b, lo, 1e-11 * M, "shortest edge"); NEAR(c, m, m1 / ne, 1e-11 * M, "mean edge"); NEAR(c, q, m2 / ne, 1e-10 * M * M, "edge second moment"); plc_edgelength_stats(L, nullptr, nullptr, nullptr, nullptr); }
  int num = 0; double base = 0;
  for (int i = 0; i < nc; i++) { auto &s = C.cp[i]; int n = (int)s.v.size(); double pos = 0;
    for (int j = 0; j < n; j++) { CHECK(c, plc_vertex_num(L, i, j) == num && plc_cp_num(L, num) == i && plc_vt_num(L, num) == j, "vertex numbering at (%d,%d)", i, j); num++; NEAR(c, plc_s(L, i, j), base + pos, 1e-10 * M * nvt, "arclength position of (%d,%d)", i, j); if (j < (int)el[i].size()) pos += el[i][j]; }
    int w = c.range(-3 * n, 3 * n); int ww = s.open ? std::max(0, std::min(n - 1, w)) : ((w % n) + n) % n; CHECK(c, plc_vertex_num(L, i, w) == num - n + ww, "wrap-around vertex number of (%d,%d) is %d, expected %d", i, w, plc_vertex_num(L, i, w), num - n + ww);
    base += len[i];
    { int a = (int)c.below(n), b = (int)c.below(n); double d = 0; for (int j = std::min(a, b); j < std::max(a, b); j++) d += el[i][j]; if (!s.open) d = std::min(d, len[i] - d); NEAR(c, plc_subarc_length(L, i, a, b), d, 1e-10 * M * nvt, "subarc %d..%d of component %d", a, b, i); }
    auto at = [&](int j) { return s.v[((j % n) + n) % n]; };
    for (int j = s.open ? 1 : 0; j < (s.open ? n - 1 : n); j++) { V a = at(j) - at(j - 1), b = at(j + 1) - at(j); double th = angle(a, b); tc[i] += th; bool ok = false; NEAR(c, plc_turning_angle(L, i, j, &ok), th, 1e-7, "turning angle at (%d,%d)", i, j); CHECK(c, ok, "turning angle at (%d,%d) reported undefined", i, j);
      if (!s.open) NEAR(c, plc_turning_angle(L, i, j - n * c.range(0, 2), &ok), th, 1e-7, "turning angle at (%d,%d), wrapped", i, j);
      if (th < 3.1) NEAR(c, plc_MR_curvature(L, i, j), 2 * tan(th / 2) / std::min(norm(a), norm(b)), 1e-6 * (1 + 2 * tan(th / 2)) * (1 + tan(th / 2)) / std::min(norm(a), norm(b)), "curvature at (%d,%d)", i, j); }
    if (s.open) { bool ok; CHECK(c, plc_turning_angle(L, i, 0, &ok) == 0 && plc_turning_angle(L, i, n - 1, &ok) == 0 && plc_MR_curvature(L, i, 0) == 0 && plc_MR_curvature(L, i, n - 1) == 0, "turning at the end of an open component"); }
    for (int j = 0; j < n; j++) { V d = s.open && j == 0 ? at(1) - at(0) : s.open && j == n - 1 ? at(j) - at(j - 1) : at(j + 1) - at(j - 1); if (norm(d) < 1e-3 * S) continue; bool ok = false; V t = plc_mean_tangent(L, i, j, &ok); CHECK(c, ok && dist(t, (1 / norm(d)) * d) < 1e-9, "mean tangent at (%d,%d)", i, j); }
    // torsion: one angle per inner edge
    int e0 = s.open ? 1 : 0, e1 = s.open ? n - 2 : n; double slack = 0; for (int j = e0; j < e1 && n >= 3; j++) { V a = at(j) - at(j - 1), b = at(j + 1) - at(j), d = at(j + 2) - at(j + 1); V p = cross(a, b), q = cross(b, d); if (norm(p) < 1e-5 * std::max(S * S, norm(a) * norm(b)) || norm(q) < 1e-5 * std::max(S * S, norm(b) * norm(d))) { slack += M_PI; continue; } tt[i] += angle(p, q); }
    double g[8]; vector<double> gt(nc); double tot = plc_totaltorsion(L, gt.data()); (void)tot; (void)g; if (slack == 0) NEAR(c, gt[i], tt[i], 1e-5 * n, "total torsion of component %d", i);
  }
  { vector<double> g(nc); double t = plc_totalcurvature(L, g.data()), w = 0, sum = 0; for (int i = 0; i < nc; i++) { NEAR(c, g[i], tc[i], 1e-6 * nvt, "total curvature of component %d", i); w += tc[i]; } NEAR(c, t, w, 1e-6 * nvt, "total curvature"); double u = plc_totaltorsion(L, g.data()); for (double x : g) sum += x; NEAR(c, u, sum, 1e-6 * nvt, "total torsion"); }
  double dm = 0, pair = 0; V com = vec(0, 0, 0); vector<V> all; for (auto &s : C.cp) for (auto &v : s.v) all.push_back(v); for (auto &a : all) { com = com + (1.0 / nvt) * a; for (auto &b : all) { dm = std::max(dm, dist(a, b)); pair += dist(a, b) * dist(a, b); } }
  NEAR(c, plc_pointset_diameter(L), dm, 1e-10 * M, "diameter"); CHECK(c, dist(plc_center_of_mass(L), com) <= 1e-10 * M, "centre of mass"); NEAR(c, plc_gyradius(L), pair / (2.0 * nvt * nvt), 1e-8 * M * M, "squared radius of gyration");
  { int i = (int)c.below(nc); auto &s = C.cp[i]; int n = (int)s.v.size(); vector<int> sk; int k = c.range(1, 4); for (int j = 0; j < k; j++) sk.push_back((int)c.below(n)); double *r = plc_mean_squared_chordlengths(L, i, sk.data(), k); for (int j = 0; j < k; j++) { double w = 0; int cnt = 0; for (int q = 0; q < (s.open ? n - sk[j] : n); q++) { double d = dist(s.v[q], s.v[(q + sk[j]) % n]); w += d * d; cnt++; } NEAR(c, r[j], w / cnt, 1e-9 * M * M, "mean squared chord, skip %d", sk[j]); } free(r); }
  if (c.chance(1, 3)) { int n = (int)C.cp[0].v.size(); if (n <= 10) { auto &v = C.cp[0].v; vector<double> w; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) for (int r = q + 1; r < n; r++) for (int t = r + 1; t < n; t++) { auto nn = [&](V A, V B, V D) { return cross(B - A, D - A); }; V x1 = nn(v[p], v[q], v[t]), y1 = nn(v[q], v[r], v[t]), x2 = nn(v[p], v[q], v[r]), y2 = nn(v[r], v[t], v[p]); double z = 1e-6 * S * S; w.push_back(norm(x1) > z && norm(y1) > z ? angle(x1, y1) : -2); w.push_back(norm(x2) > z && norm(y2) > z ? angle(x2, y2) : -2); }
    unsigned cap = c.flag() ? 0 : (unsigned)c.range(1, (int)w.size() + 3), want = cap == 0 || cap > w.size() ? (unsigned)w.size() : cap; unsigned k = cap; float *f = plc_dihedral_angles(L, &k); CHECK(c, f != nullptr && k == want, "%u dihedral angles of %d vertices (cap %u), expected %u", k, n, cap, want); for (unsigned j = 0; j < k; j++) if (w[j] != -2) NEAR(c, f[j], w[j], 1e-5, "dihedral angle %u of %d vertices", j, n); free(f); } }
  compare(c, C, L, "measured curve"); plc_free(L);
}
PROPERTY(C05, vectors, 900000, 3000000, 60, "all points in general position") {
  int st = c.range(0, 2); V A = rvec(c, st), B = rvec(c, st), D = rvec(c, st), E = rvec(c, st); double s = c.real(-5, 5), t = c.real(-5, 5), M = 1 + std::max(std::max(maxabs(A), maxabs(B)), std::max(maxabs(D), maxabs(E))); c.note("(%g,%g,%g) (%g,%g,%g) (%g,%g,%g) (%g,%g,%g)", plc_M_clist(A), plc_M_clist(B), plc_M_clist(D), plc_M_clist(E));
  auto eq = [&](V x, V y, const char *w, double tol) { if (!(dist(x, y) <= tol)) c.fail("%s: (%.17g,%.17g,%.17g), expected (%.17g,%.17g,%.17g)", w, plc_M_clist(x), plc_M_clist(y)); };
  eq(plc_vect_sum(A, B), A + B, "sum", 1e-12 * M); eq(plc_vect_diff(A, B), A - B, "difference", 1e-12 * M); eq(plc_cross_prod(A, B), cross(A, B), "cross product", 1e-12 * M * M); eq(plc_scale_vect(s, A), s * A, "scaling", 1e-12 * M); eq(plc_vlincomb(s, A, t, B), s * A + t * B, "linear combination", 1e-11 * M); eq(plc_vmadd(A, s, B), A + s * B, "vmadd", 1e-11 * M); eq(plc_vweighted(s, A, B), (1 - s) * A + s * B, "weighted", 1e-11 * M);
  eq(plc_component_mult(A, B), vec(A.c[0] * B.c[0], A.c[1] * B.c[1], A.c[2] * B.c[2]), "component product", 1e-12 * M * M);
  { bool ok = false; V q = plc_component_div(A, B, &ok); bool w = B.c[0] != 0 && B.c[1] != 0 && B.c[2] != 0; CHECK(c, ok == w || std::min(fabs(B.c[0]), std::min(fabs(B.c[1]), fabs(B.c[2]))) < 1e-14, "component division ok=%d", ok); if (ok) eq(q, vec(A.c[0] / B.c[0], A.c[1] / B.c[1], A.c[2] / B.c[2]), "component quotient", 1e-12 * norm(q) + 1e-300); if (w && std::min(fabs(B.c[0]), std::min(fabs(B.c[1]), fabs(B.c[2]))) > 1e-14) eq(plc_component_div(A, B, nullptr), vec(A.c[0] / B.c[0], A.c[1] / B.c[1], A.c[2] / B.c[2]), "component quotient", 1e-12 * norm(q) + 1e-300); V Z = B; Z.c[c.below(3)] = 0; ok = true; plc_component_div(A, Z, &ok); CHECK(c, !ok, "division by a zero component"); }
  NEAR(c, plc_dot_prod(A, B), dot(A, B), 1e-12 * M * M, "dot"); NEAR(c, plc_norm(A), norm(A), 1e-12 * M, "norm"); NEAR(c, plc_distance(A, B), dist(A, B), 1e-12 * M, "distance"); NEAR(c, plc_sq_dist(A, B), dist(A, B) * dist(A, B), 1e-11 * M * M, "squared distance");
  if (norm(A) > 1e-3) { bool ok = false; eq(plc_normalize_vect(A, &ok), (1 / norm(A)) * A, "unit vector", 1e-12); CHECK(c, ok, "unit vector not ok"); if (norm(B) > 1e-3) { NEAR(c, plc_angle(A, B, &ok), angle(A, B), 1e-9, "angle"); CHECK(c, ok, "angle not ok"); } V u = (1 / norm(A)) * A; eq(plc_rotate_vect(B, A, s), rot(B, u, s), "rotated vector", 1e-9 * M); } { bool ok = true; plc_normalize_vect(vec(0, 0, 0), &ok); CHECK(c, !ok, "the zero vector has a direction"); plc_angle(A, vec(0, 0, 0), &ok); CHECK(c, !ok, "angle with the zero vector"); }
  CHECK(c, plc_vecteq(A, A) && (dist(A, B) < 1e-12 || !plc_vecteq(A, B)), "equality of vectors");
  { V X; plc_vect_copy(X, A); CHECK(c, X.c[0] == A.c[0] && X.c[1] == A.c[1] && X.c[2] == A.c[2], "copied vector"); NEAR(c, plc_M_dot(A, B), dot(A, B), 1e-12 * M * M, "dot (macro)"); NEAR(c, plc_M_norm(A), norm(A), 1e-12 * M, "norm (macro)"); double d = plc_M_distance(A, B); NEAR(c, d, dist(A, B), 1e-12 * M, "distance (macro)"); d = plc_M_sq_dist(A, B); NEAR(c, d, dist(A, B) * dist(A, B), 1e-11 * M * M, "squared distance (macro)");
    plc_M_cross(X, A, B); eq(X, cross(A, B), "cross product (macro)", 1e-12 * M * M); X = A; plc_M_add_vect(X, B); eq(X, A + B, "sum (macro)", 1e-12 * M); X = A; plc_M_sub_vect(X, B); eq(X, A - B, "difference (macro)", 1e-12 * M); plc_M_vect_diff(X, A, B); eq(X, A - B, "difference (macro)", 1e-12 * M); X = A; plc_M_scale_vect(s, X); eq(X, s * A, "scaling (macro)", 1e-12 * M); X = A; plc_M_vmadd(X, s, B); eq(X, A + s * B, "vmadd (macro)", 1e-11 * M); plc_M_vlincomb(X, s, A, t, B); eq(X, s * A + t * B, "linear combination (macro)", 1e-11 * M); plc_M_vweighted(X, s, A, B); eq(X, (1 - s) * A + s * B, "weighted (macro)", 1e-11 * M);
    X = A; plc_M_component_mult(X, B); eq(X, vec(A.c[0] * B.c[0], A.c[1] * B.c[1], A.c[2] * B.c[2]), "component product (macro)", 1e-12 * M * M); if (std::min(fabs(B.c[0]), std::min(fabs(B.c[1]), fabs(B.c[2]))) > 1e-6) { X = A; plc_M_component_div(X, B); eq(X, vec(A.c[0] / B.c[0], A.c[1] / B.c[1], A.c[2] / B.c[2]), "component quotient (macro)", 1e-12 * norm(X) + 1e-300); }
    V Y = A; Y.c[c.below(3)] += c.flag() ? 1e-3 : -1e-3; CHECK(c, plc_M_vecteq(A, A) && !plc_M_vecteq(A, Y) && !plc_vecteq(A, Y), "equality of vectors that differ in one coordinate"); }
  { double d = fmod(fabs(s - t), 2 * M_PI); d = std::min(d, 2 * M_PI - d); NEAR(c, plc_angle_dist(s, t), d, 1e-7, "distance of angles %g %g", s, t); }
  V N = cross(B - A, D - A); bool gen = norm(N) > 1e-3 && norm(cross(D - A, E - A)) > 1e-3 && fabs(dot(N, E - A)) > 1e-3 && dist(A, D) > 1e-3; c.nontrivial(gen);
  if (norm(N) > 1e-3) { bool ok = false; eq(plc_normal(A, B, D, &ok), (1 / norm(N)) * N, "normal", 1e-9 * M); CHECK(c, ok, "normal not ok"); }
  { auto whole = [](V x) { return vec(remainder(rint(x.c[0]), 1024), remainder(rint(x.c[1]), 1024), remainder(rint(x.c[2]), 1024)); }; V A0 = A, B0 = B, D0 = D; V A = whole(A0), B = whole(B0), D = whole(D0); /* small integers: degenerate in whatever order it is computed */ bool ok = true; plc_normal(A, A, B, &ok); CHECK(c, !ok, "normal of a degenerate triangle"); ok = true; plc_dihedral_angle(A, A, B, D, &ok); CHECK(c, !ok, "dihedral angle of a degenerate triangle (first)"); ok = true; plc_dihedral_angle(A, B, D, D, &ok); CHECK(c, !ok, "dihedral angle of a degenerate triangle (second)"); ok = true; plc_dihedral_angle(A, B, A, D, &ok); CHECK(c, !ok, "dihedral angle of a degenerate diagonal");
    ok = true; plc_3plane_intersection(A, E, B, D, A, E, &ok); CHECK(c, !ok, "two parallel planes among three"); ok = true; plc_3plane_intersection(A, E, vec(0, 0, 0), D, B, E, &ok); CHECK(c, !ok, "a plane without a normal"); }
  if (gen) { // dihedral angle along AD of A,B,D,E: angle from the half plane of B to the half plane of E
    V ax = (1 / dist(A, D)) * (D - A); V pb = (B - A) - dot(B - A, ax) * ax, pe = (E - A) - dot(E - A, ax) * ax; double th = atan2(dot(ax, cross(pb, pe)), dot(pb, pe)); if (th < 0) th += 2 * M_PI; th = 2 * M_PI - th; bool ok = false; double g = plc_dihedral_angle(A, B, D, E, &ok); double df = fmod(fabs(g - th), 2 * M_PI); df = std::min(df, 2 * M_PI - df); CHECK(c, ok && g >= 0 && g < 2 * M_PI + 1e-9, "dihedral angle %g out of range", g); CHECK(c, df < 1e-6, "dihedral angle %.15g, expected %.15g", g, th);
    double vol = fabs(dot(B - A, cross(D - A, E - A))) / 6; auto area = [&](V x, V y, V z) { return norm(cross(y - x, z - x)) / 2; }; NEAR(c, plc_tetrahedron_inradius(A, B, D, E), 3 * vol / (area(A, B, D) + area(A, B, E) + area(A, D, E) + area(B, D, E)), 1e-9 * M, "inradius"); }
  { V a = vec(A.c[0], A.c[1], 0), b = vec(B.c[0], B.c[1], 0), d = vec(D.c[0], D.c[1], 0); double cr = fabs(cross(b - a, d - a).c[2]); if (cr > 1e-2) { bool ok = false; double r = -1; V q = plc_circumcenter(a, b, d, &r, &ok); double tol = 1e-9 * pow(M, 4) / cr; CHECK(c, ok && q.c[2] == 0, "circumcentre not ok"); NEAR(c, dist(q, a), r, tol, "circumradius"); NEAR(c, dist(q, b), r, tol, "circumradius"); NEAR(c, dist(q, d), r, tol, "circumradius"); } { bool ok = true; plc_circumcenter(a, b, a, nullptr, &ok); CHECK(c, !ok, "circumcentre of collinear points"); V w[3] = {a, b, d}; int k = (int)c.below(3); w[k].c[2] = c.flag() ? 0.5 : -3; ok = true; plc_circumcenter(w[0], w[1], w[2], nullptr, &ok); CHECK(c, !ok, "circumcentre of points outside the plane"); } }
  { double det = norm(A) > 1e-3 && norm(B) > 1e-3 && norm(D) > 1e-3 ? fabs(dot(A, cross(B, D))) / (norm(A) * norm(B) * norm(D)) : 0; V p0 = E, p1 = A + E, p2 = vec(s, t, s - t); bool ok = false; V q = plc_3plane_intersection(A, p0, B, p1, D, p2, &ok); if (det > 1e-2) { CHECK(c, ok, "three planes in general position do not meet"); double tol = 1e-8 * M * M; NEAR(c, dot(A, q), dot(A, p0), tol, "plane intersection"); NEAR(c, dot(B, q), dot(B, p1), tol, "plane intersection"); NEAR(c, dot(D, q), dot(D, p2), tol, "plane intersection"); } }
}

// ------------------------------------------------------------------------------------------ C06
static void measure(const plCurve *L, vector<double> &m) { m = {plc_arclength(L, nullptr), plc_totalcurvature(L, nullptr), plc_totaltorsion(L, nullptr), plc_pointset_diameter(L), sqrt(plc_gyradius(L))}; }
PROPERTY(C06, transforms, 900000, 3000000, 60, "at least two transformations, on a curve with constraints") {
  Curve C = rcurve(c, 3, 2, 8, c.pick({1, 3, 3}), true);
  if (c.chance(1, 4)) { int a = (int)c.below(3); for (auto &s : C.cp) for (auto &v : s.v) if (c.chance(1, 3)) { v.c[(a + 1) % 3] = v.c[(a + 2) % 3] = 0; c.label("vertex_on_coordinate_axis"); } }
  if (c.chance(1, 4)) for (auto &s : C.cp) if (s.v.size() > 3) { int n = (int)s.v.size(), a = (int)c.below(n - 2), j = a + 1 + (int)c.below(n - a - 2), q = j + 1 + (int)c.below(n - j - 1); s.v[j] = 0.5 * (s.v[a] + s.v[q]); c.label("collinear_vertices"); }
  if (!generic(C, 1e-2)) c.discard("zero-length edge"); rconstraints(c, C, c.range(0, 4)); plCurve *L = build(C); bool con = false; for (auto &s : C.cp) for (auto &k : s.cst) con |= k.kind != 0;
  bool degen = false; for (auto &s : C.cp) { int n = (int)s.v.size(); for (int j = 0; j < n && n > 2; j++) { V a = s.v[(j + 1) % n] - s.v[j], b = s.v[(j + 2) % n] - s.v[(j + 1) % n]; if (norm(cross(a, b)) < 1e-3 * norm(a) * norm(b) || norm(a) < 1e-2) degen = true; } }
  string log; int steps = c.range(1, 5); double scale = 1; bool rigid = true; vector<double> m0; measure(L, m0); double e0 = plc_check_cst(L);
  for (int st = 0; st < steps; st++) { char b[200]; Tol t; double M = 1 + max_coord(C); t.va = 1e-10 * M; t.ka = 1e-9 * M; t.vr = 1e-10; t.kr = 1e-9; int i = (int)c.below(C.cp.size()), n = (int)C.cp[i].v.size();
    auto each = [&](auto f) { for (auto &s : C.cp) for (auto &v : s.v) v = f(v); };
    switch (c.pick({3, 3, 4, 2, 1, 2, 2, 1})) {
      case 0: { double a = c.pick({3, 1}) ? -c.real(0.3, 3) : c.real(0.3, 3); plc_scale(L, a); each([&](V v) { return a * v; }); for (auto &s : C.cp) for (auto &k : s.cst) { if (k.kind == 1) k.a = a * k.a; else if (k.kind) k.b = a * k.b; } scale *= fabs(a); snprintf(b, 200, "scale %g; ", a); log += b; break; }
      case 1: { V w = rvec(c, c.range(0, 2)); if (c.chance(1, 4)) w = pow(10.0, c.range(-8, 5)) * w; if (norm(w) < 1e-9) break; t.va = 1e-13 * M; t.ka = 1e-12 * M; plc_translate(L, w); each([&](V v) { return v + w; }); for (auto &s : C.cp) for (auto &k : s.cst) { if (k.kind == 1) k.a = k.a + w; else if (k.kind == 2) k.b = k.b + w; else if (k.kind == 3) k.b.c[0] += dot(k.a, w); } t.va += 1e-12 * norm(w); log += "translate; "; break; }
      case 2: { V u = unit(c); if (c.chance(1, 8) && norm(C.cp[i].v[0]) > 1e-2) u = (1 / norm(C.cp[i].v[0])) * C.cp[i].v[0]; double a = c.flag() ? c.real(-7, 7) : c.range(-4, 4) * M_PI / 2; plc_rotate(L, u, a); each([&](V v) { return rot(v, u, a); }); for (auto &s : C.cp) for (auto &k : s.cst) { if (k.kind) k.a = rot(k.a, u, a); if (k.kind == 2) k.b = rot(k.b, u, a); } snprintf(b, 200, "rotate (%g,%g,%g) by %g; ", plc_M_clist(u), a); log += b; break; }
      case 3: { vector<int> p, code, eps; random_perm(c, (int)C.cp.size(), p, code); for (size_t k = 0; k < p.size(); k++) eps.push_back(c.flag() ? -1 : 1); int m = c.flag() ? -1 : 1; plc_whitten(L, m, eps.data(), code.data()); apply_whitten(C, m, eps, p); log += "whitten; "; break; }
      case 4: { if (con) break; V u = unit(c); if (c.chance(1, 3)) { u = vec(0, 0, c.flag() ? -1 : 1) + pow(10.0, c.range(-9, -1)) * u; u = (1 / norm(u)) * u; } Curve old = C; plc_random_rotate(L, u); // some rotation taking u to the z axis
        for (size_t q = 0; q < C.cp.size(); q++) for (size_t j = 0; j < C.cp[q].v.size(); j++) { V w = L->cp[q].vt[j]; CHECK(c, fabs(w.c[2] - dot(u, old.cp[q].v[j])) < 1e-7 * M && fabs(norm(w) - norm(old.cp[q].v[j])) < 1e-7 * M, "turning axis (%g,%g,%g) to the vertical: height %g, expected %g", plc_M_clist(u), w.c[2], dot(u, old.cp[q].v[j])); }
        { vector<V> x, y; for (size_t q = 0; q < C.cp.size(); q++) for (size_t j = 0; j < C.cp[q].v.size(); j++) { x.push_back(old.cp[q].v[j]); y.push_back(L->cp[q].vt[j]); } for (size_t q = 0; q < x.size(); q++) for (size_t j = 0; j < q; j++) CHECK(c, fabs(dist(x[q], x[j]) - dist(y[q], y[j])) < 1e-7 * M, "turning an axis to the vertical changes distances"); for (size_t q = 0; q + 2 < x.size(); q++) CHECK(c, fabs(dot(x[q], cross(x[q + 1], x[q + 2])) - dot(y[q], cross(y[q + 1], y[q + 2]))) < 1e-6 * M * M * M, "turning an axis to the vertical reverses orientation"); }
        C = snapshot(c, L, "rotated"); snprintf(b, 200, "axis (%g,%g,%g) up; ", plc_M_clist(u)); log += b; break; }
      case 5: { if (n < 3) break; int a = (int)c.below(n), q = (int)c.below(n); if (a == q || dist(C.cp[i].v[a], C.cp[i].v[q]) < 1e-2) break; double th = c.real(-7, 7); plc_pfm(L, i, a, q, th); int lo = std::min(a, q), hi = std::max(a, q); auto &s = C.cp[i]; V o = s.v[lo], u = (1 / dist(s.v[hi], o)) * (s.v[hi] - o); for (int j = lo + 1; j < hi; j++) s.v[j] = o + rot(s.v[j] - o, u, th); t.va = 1e-8 * M; rigid = false; snprintf(b, 200, "fold %d:%d..%d by %g; ", i, a, q, th); log += b; break; }
      case 6: { double r = c.real(0, 0.5); Curve old = C; plc_perturb(L, r); C = snapshot(c, L, "perturbed"); for (size_t q = 0; q < C.cp.size(); q++) for (size_t j = 0; j < C.cp[q].v.size(); j++) { double d = dist(C.cp[q].v[j], old.cp[q].v[j]); CHECK(c, old.cp[q].cst[j].kind ? d == 0 : d <= r * (1 + 1e-9) + 1e-12, "perturbing by %g moved %s vertex (%zu,%zu) by %g", r, old.cp[q].cst[j].kind ? "constrained" : "free", q, j, d); CHECK(c, C.cp[q].cst[j] == old.cp[q].cst[j], "perturbing changed a constraint"); } rigid = false; snprintf(b, 200, "perturb %g; ", r); log += b; break; }
      case 7: { V u = unit(c); double k = c.real(0.5, 2); plc_project(L, k * u); each([&](V v) { return v - dot(v, u) * u; }); rigid = false; log += "project; "; break; } }
    compare(c, C, L, log.c_str(), t); C = snapshot(c, L, log.c_str());
  }
  if (rigid) { vector<double> m; measure(L, m); double M = 1 + max_coord(C); NEAR(c, m[0], m0[0] * scale, 1e-8 * M * 30, "length after %s", log.c_str()); NEAR(c, m[3], m0[3] * scale, 1e-8 * M, "diameter after %s", log.c_str()); NEAR(c, m[4], m0[4] * scale, 1e-6 * M, "gyration after %s", log.c_str()); if (!degen) { NEAR(c, m[1], m0[1], 1e-5, "total curvature after %s", log.c_str()); NEAR(c, m[2], m0[2], 1e-3, "total torsion after %s", log.c_str()); }
    double sq = 1; (void)sq; double e = plc_check_cst(L); NEAR(c, e, e0 * scale, 1e-6 * M, "constraint violation after %s", log.c_str()); }
  c.nontrivial(steps >= 2 && con); c.note("%s %s", show(C).c_str(), log.c_str()); plc_free(L);
}
