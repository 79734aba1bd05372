// C30: polygonal curves in spaces of any dimension.
#include "pbt.hpp"
#include <array>
extern "C" {
#include "nplCurve.h"
// defined by the library, though the header does not announce them
void nplc_set_fixed(nplCurve *const L, const int cmp, const int vert, const nplc_vector point);
void nplc_constrain_to_line(nplCurve *const L, const int cmp, const int vert, const int num_verts, const nplc_vector tangent, const nplc_vector point_on_line);
void nplc_constrain_to_plane(nplCurve *const L, const int cmp, const int vert, const int num_verts, const nplc_vector normal, const double dist_from_origin);
void nplc_unconstrain(nplCurve *const L, const int cmp, const int vert, const int num_verts);
int nplc_remove_constraint(nplCurve *const L, const nplc_cst_kind kind, const nplc_vector vect[]);
void nplc_remove_all_constraints(nplCurve *const L);
}
using std::vector; using std::string;
namespace {
typedef vector<double> W;
struct K { int kind = 0; W a, b; bool operator==(const K &o) const { return kind == o.kind && a == o.a && b == o.b; } };
struct S { bool open; vector<W> v; vector<std::array<double, 4>> clr; vector<K> cst; };
struct C { int dim; vector<S> cp; };
double coord(pbt::Case &c, int style) { switch (style) { case 0: return c.range(-3, 3); case 1: return c.gauss(); case 2: return c.real(-10, 10); default: { double m = c.real(1, 10); int e = c.range(-200, 200); return (c.flag() ? -m : m) * pow(10.0, e); } } }
W rw(pbt::Case &c, int n, int style) { W w; for (int i = 0; i < n; i++) w.push_back(coord(c, style)); return w; }
nplc_vector mk(const W &w) { nplc_vector v = nplc_vect_new((int)w.size()); for (size_t i = 0; i < w.size(); i++) v.c[i] = w[i]; return v; }
W get(pbt::Case &c, nplc_vector v, size_t n, const char *what, bool drop = true) { CHECK(c, v.n == (int)n && v.c, "%s has dimension %d, expected %zu", what, v.n, n); W w(v.c, v.c + n); if (drop) { nplc_vect_free(&v); CHECK(c, v.n == 0 && !v.c, "freed vector still has data"); } return w; }
int dimension(pbt::Case &c) { int d = c.pick({1, 3, 3, 2, 1, 1}) ; switch (d) { case 0: return 1; case 1: return 3; case 2: return 4; case 3: return 2; case 4: return c.range(5, 12); default: return c.range(13, 100); } }
C rc(pbt::Case &c, int style, int nmax, bool cst) {
  C r; r.dim = dimension(c); int k = c.range(1, 4); if (c.chance(1, 50)) { if (c.flag()) k = c.range(5, 15); else nmax = 300; c.label("large"); } if (r.dim > 12) nmax = std::min(nmax, 5);
  for (int i = 0; i < k; i++) { S s; int n = c.range(1, nmax); s.open = n < 3 || c.chance(2, 5); for (int j = 0; j < n; j++) s.v.push_back(rw(c, r.dim, style)); int q = c.pick({2, 1, 2}); int nc = q == 0 ? 0 : q == 1 ? 1 : n;
    for (int j = 0; j < nc; j++) { std::array<double, 4> a; for (auto &x : a) x = c.chance(1, 2) ? c.unit() : (double)c.range(0, 1); s.clr.push_back(a); } s.cst.resize(n); r.cp.push_back(s); }
  if (cst) { vector<K> pool; int runs = c.range(0, 12); for (int i = 0; i < runs; i++) { auto &s = r.cp[c.below(k)]; int n = (int)s.v.size(); K q;
      if (!pool.empty() && c.chance(2, 5)) q = pool[c.below(pool.size())]; else { q.kind = c.range(1, 3); q.a = rw(c, r.dim, c.range(0, 2)); q.b = W(r.dim, 0.0); if (q.kind == 2) q.b = rw(c, r.dim, c.range(0, 2)); if (q.kind == 3) q.b[0] = coord(c, c.range(0, 2)); }
      pool.push_back(q); int a = (int)c.below(n), len = q.kind == 1 ? 1 : c.range(1, n - a); for (int j = a; j < a + len; j++) s.cst[j] = q; } }
  return r; }
nplCurve *build(const C &k) { vector<int> nv, cc; bool op[16]; int i = 0; for (auto &s : k.cp) { nv.push_back((int)s.v.size()); cc.push_back((int)s.clr.size()); op[i++] = s.open; }
  nplCurve *L = nplc_new(k.dim, (int)k.cp.size(), nv.data(), op, cc.data());
  for (size_t p = 0; p < k.cp.size(); p++) { auto &s = k.cp[p]; for (size_t j = 0; j < s.v.size(); j++) { nplc_vector w = mk(s.v[j]); nplc_vect_copy(L->cp[p].vt[j], w); nplc_vect_free(&w); } for (size_t j = 0; j < s.clr.size(); j++) { L->cp[p].clr[j].r = s.clr[j][0]; L->cp[p].clr[j].g = s.clr[j][1]; L->cp[p].clr[j].b = s.clr[j][2]; L->cp[p].clr[j].alpha = s.clr[j][3]; } }
  nplc_fix_wrap(L);
  for (size_t p = 0; p < k.cp.size(); p++) { auto &s = k.cp[p]; for (size_t j = 0; j < s.cst.size();) { auto &q = s.cst[j]; size_t e = j + 1; if (q.kind > 1) while (e < s.cst.size() && s.cst[e] == q) e++; if (q.kind == 1) nplc_set_fixed(L, (int)p, (int)j, mk(q.a)); else if (q.kind == 2) nplc_constrain_to_line(L, (int)p, (int)j, (int)(e - j), mk(q.a), mk(q.b)); else if (q.kind == 3) nplc_constrain_to_plane(L, (int)p, (int)j, (int)(e - j), mk(q.a), q.b[0]); j = e; } }
  return L; }
bool near(const W &a, const W &b, double rel) { for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= rel * std::max(fabs(a[i]), fabs(b[i])))) return false; return true; }
string show(const W &w) { string s = "("; char b[40]; for (size_t i = 0; i < w.size() && i < 8; i++) { snprintf(b, 40, "%s%.17g", i ? "," : "", w[i]); s += b; } return s + ")"; }
string show(const C &k) { char b[100]; snprintf(b, 100, "dimension %d ", k.dim); string s = b; for (auto &p : k.cp) { snprintf(b, 100, "[%zu %s verts, %zu colours, constraints ", p.v.size(), p.open ? "open" : "closed", p.clr.size()); s += b; for (auto &q : p.cst) s += "-flp"[q.kind]; s += "] "; } return s; }
void compare(pbt::Case &c, const C &k, nplCurve *L, const char *what, double rel) {
  CHECK(c, L != nullptr, "%s: no curve", what); CHECK(c, L->nc == (int)k.cp.size(), "%s: %d components, expected %zu", what, L->nc, k.cp.size()); CHECK(c, nplc_dim(L) == k.dim, "%s: dimension %d, expected %d", what, nplc_dim(L), k.dim);
  vector<vector<K>> ex; for (auto &s : k.cp) ex.push_back(vector<K>(s.v.size())); int guard = 0;
  for (int i = 0; i < L->nc; i++) { auto &s = k.cp[i]; auto &p = L->cp[i]; int n = (int)s.v.size(); CHECK(c, p.nv == n && p.open == s.open && p.cc == (int)s.clr.size(), "%s: component %d has %d vertices, open=%d, %d colours; expected %d, %d, %zu", what, i, p.nv, p.open, p.cc, n, s.open, s.clr.size());
    for (int j = 0; j < n; j++) { W w = get(c, p.vt[j], k.dim, what, false); CHECK(c, near(w, s.v[j], rel), "%s: component %d vertex %d is %s, expected %s", what, i, j, show(w).c_str(), show(s.v[j]).c_str()); }
    if (n > 1) { W a = get(c, p.vt[-1], k.dim, what, false), b = get(c, p.vt[n], k.dim, what, false), a2 = get(c, s.open ? p.vt[1] : p.vt[n - 1], k.dim, what, false), b2 = get(c, s.open ? p.vt[n - 2] : p.vt[0], k.dim, what, false); CHECK(c, a == a2 && b == b2, "%s: wrap-around vertices of component %d are stale", what, i); }
    for (size_t j = 0; j < s.clr.size(); j++) { double q[4] = {p.clr[j].r, p.clr[j].g, p.clr[j].b, p.clr[j].alpha}; for (int t = 0; t < 4; t++) CHECK(c, fabs(q[t] - s.clr[j][t]) <= rel * fabs(s.clr[j][t]), "%s: component %d colour %zu channel %d is %.17g, expected %.17g", what, i, j, t, q[t], s.clr[j][t]); } }
  for (nplc_constraint *t = L->cst; t; t = t->next) { CHECK(c, ++guard < 10000, "%s: constraint list does not end", what); CHECK(c, t->kind >= 1 && t->kind <= 3 && t->cmp >= 0 && t->cmp < L->nc && t->vert >= 0 && t->num_verts >= 1 && t->vert + t->num_verts <= L->cp[t->cmp].nv, "%s: constraint of kind %d on component %d vertices %d+%d", what, (int)t->kind, t->cmp, t->vert, t->num_verts);
    for (int j = t->vert; j < t->vert + t->num_verts; j++) { K q; q.kind = t->kind; q.a = get(c, t->vect[0], k.dim, what, false); q.b = get(c, t->vect[1], k.dim, what, false); if (q.kind == 1) q.b.assign(k.dim, 0); if (q.kind == 3) for (int z = 1; z < k.dim; z++) q.b[z] = 0; CHECK(c, ex[t->cmp][j].kind == 0, "%s: component %d vertex %d has two constraints", what, t->cmp, j); ex[t->cmp][j] = q; } }
  for (int i = 0; i < L->nc; i++) for (size_t j = 0; j < ex[i].size(); j++) { auto &x = ex[i][j]; auto &y = k.cp[i].cst[j]; bool ok = x.kind == y.kind && (x.kind == 0 || (near(x.a, y.a, rel) && near(x.b, y.b, rel))); CHECK(c, ok, "%s: component %d vertex %zu has constraint %d %s %s, expected %d %s %s", what, i, j, x.kind, show(x.a).c_str(), show(x.b).c_str(), y.kind, show(y.a).c_str(), show(y.b).c_str()); } }
FILE *mem(const string &s) { FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
string text(nplCurve *L) { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); nplc_write(f, L); fclose(f); string s(b, z); free(b); return s; }
nplCurve *read_text(pbt::Case &c, const string &s) { FILE *f = mem(s); int e = 4711; size_t el = 1 + c.below(150); vector<char> es(el, 'x'); nplCurve *L = nplc_read(f, &e, es.data(), el); fclose(f);
  CHECK(c, memchr(es.data(), 0, el), "error string is not terminated"); if (L) CHECK(c, e == 0, "a curve is returned together with error %d", e); else CHECK(c, e >= 1 && e <= 11, "no curve and error number %d", e); return L; }
}

PROPERTY(C30, roundtrip, 120000, 400000, 60, "dimension other than three, and a constraint, colours or several components") {
  C k = rc(c, c.range(0, 3), c.chance(1, 6) ? 30 : 7, c.chance(2, 3)); nplCurve *L = build(k); compare(c, k, L, "built curve", 0); string s = text(L); compare(c, k, L, "written curve", 0);
  bool con = false, col = false; for (auto &p : k.cp) { for (auto &q : p.cst) con |= q.kind != 0; col |= !p.clr.empty(); } c.nontrivial(k.dim != 3 && (con || col || k.cp.size() > 1)); c.labelf("dim%s", k.dim < 3 ? "<3" : k.dim == 3 ? "3" : k.dim < 13 ? "4-12" : ">12"); if (con) c.label("constraints"); c.note("%s", show(k).c_str());
  FILE *f = mem(s); int e = 99; char es[300] = "x"; nplCurve *M = nplc_read(f, &e, es, sizeof es); fclose(f); CHECK(c, M, "the written curve is not read back: error %d %s", e, es); CHECK(c, e == 0, "error %d with a curve", e); compare(c, k, M, "curve read back", 1e-15);
  nplCurve *N = nplc_copy(M); compare(c, k, N, "copy", 1e-15); CHECK(c, N->cp[0].vt[0].c != M->cp[0].vt[0].c, "the copy shares its vertices"); nplc_free(M); compare(c, k, N, "copy after the original is freed", 1e-15); nplc_free(N);
  int i = (int)c.below(k.cp.size()); nplCurve *P = nplc_component(i, L); C one; one.dim = k.dim; one.cp.push_back(k.cp[i]); one.cp[0].cst.assign(one.cp[0].v.size(), K()); compare(c, one, P, "single component", 0); nplc_free(P); nplc_free(L);
}
PROPERTY(C30, damaged, 180000, 600000, 60, "the file differs from the written one") {
  static const char *tok[] = {"0", "-1", "1", "2", "3", "7", "-3", "100", "VECT", "4VECT", "4 VECT", "0VECT", "-2VECT", "abc", "1.5", "", "#", "\n", "# Constraint 1 Fixed 1 2 3 4", "# Cst: 1", "# Cst: 2", "# Cst: 0", "# Cst: -1", "# Cst: 40", "Constraint", "Constraint ", "Fixed", "Line", "Plane", "# Constraint 12 Plane 0 0 1 2", "nan", "inf", "1e400", "# Constraint 1 Fixed", "# Constraint 99999 Fixed 1", "\r\n", "\t", "99999"};
  C k = rc(c, c.range(0, 2), 5, c.chance(2, 3)); if (k.dim > 12) k = rc(c, 0, 3, false); nplCurve *L = build(k); string s = text(L), t = s; nplc_free(L); int n = c.range(1, 4);
  for (int i = 0; i < n && !s.empty(); i++) switch (c.pick({4, 2, 2, 2, 2, 2})) {
    case 0: { vector<std::pair<size_t, size_t>> w; size_t p = 0; while (p < s.size()) { while (p < s.size() && isspace((unsigned char)s[p])) p++; size_t q = p; while (q < s.size() && !isspace((unsigned char)s[q])) q++; if (q > p) w.push_back({p, q - p}); p = q; }
      if (w.empty()) break; size_t lim = c.flag() ? std::min<size_t>(w.size(), 14) : w.size(); auto x = w[c.below(lim)]; s.replace(x.first, x.second, tok[c.below(sizeof tok / sizeof *tok)]); break; }
    case 1: { string r = tok[c.below(sizeof tok / sizeof *tok)]; s.insert(c.below(s.size() + 1), (c.flag() ? "\n" : " ") + r + (c.flag() ? "\n" : " ")); break; }
    case 2: s.erase(c.below(s.size()), 1 + c.below(20)); break;
    case 3: s.resize(c.below(s.size())); break;
    case 4: s[c.below(s.size())] = (char)c.below(256); break;
    case 5: { size_t a = s.find('\n', c.below(s.size())); if (a == string::npos) break; size_t b = s.find('\n', a + 1); if (b == string::npos) break; string l = s.substr(a, b - a); if (c.flag()) s.insert(b, l); else s.erase(a, b - a); break; } }
  string o; int run = 0; for (char ch : s) { if (isdigit((unsigned char)ch)) { if (++run > 4) continue; } else run = 0; o += ch; }   // keep declared sizes small
  c.nontrivial(o != t); c.note("%zu bytes: %s", o.size(), o.substr(0, 300).c_str()); nplCurve *R = read_text(c, o); if (!R) { c.label("rejected"); return; } c.label("accepted");
  CHECK(c, R->nc >= 1, "a curve with %d components", R->nc); for (int i = 0; i < R->nc; i++) { CHECK(c, R->cp[i].nv >= 1 && R->cp[i].cc >= 0, "component %d has %d vertices and %d colours", i, R->cp[i].nv, R->cp[i].cc); CHECK(c, R->cp[i].open || R->cp[i].nv >= 3, "closed component with %d vertices", R->cp[i].nv); }
  for (nplc_constraint *q = R->cst; q; q = q->next) CHECK(c, q->kind >= 1 && q->kind <= 3 && q->cmp >= 0 && q->cmp < R->nc && q->vert >= 0 && q->num_verts >= 1 && q->vert + q->num_verts <= R->cp[q->cmp].nv && q->vect[0].n == nplc_dim(R) && q->vect[0].c && q->vect[1].c, "unusable constraint read");
  if (nplc_dim(R) <= 300) text(R); nplCurve *M = nplc_copy(R); nplc_arclength(M, nullptr); nplc_reverse(M); nplc_free(M); nplc_free(R);
}
PROPERTY(C30, truncated, 45000, 150000, 60, "cut strictly inside the data") {
  C k = rc(c, c.range(0, 2), 6, c.chance(1, 2)); nplCurve *L = build(k); string s = text(L); nplc_free(L); size_t last = 0; bool com = false; for (size_t p = 0; p < s.size(); p++) { if (s[p] == '#') com = true; else if (s[p] == '\n') com = false; else if (!com && !isspace((unsigned char)s[p]) && (p == 0 || isspace((unsigned char)s[p - 1]))) last = p; }
  size_t cut = c.below(last + 1); c.nontrivial(cut > 8); c.note("%zu of %zu bytes", cut, s.size()); nplCurve *R = read_text(c, s.substr(0, cut)); CHECK(c, R == nullptr, "a file cut after %zu of %zu bytes (last datum starts at %zu) is accepted", cut, s.size(), last);
}
PROPERTY(C30, measures, 120000, 400000, 60, "at least one strand of four or more vertices, dimension other than three") {
  C k = rc(c, c.range(0, 2), 12, false); nplCurve *L = build(k); bool big = false; int E = 0, N = 0; vector<double> len; double tot = 0;
  auto d = [](const W &a, const W &b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += ((long double)a[i] - b[i]) * ((long double)a[i] - b[i]); return (double)sqrtl(s); };
  for (auto &s : k.cp) { int n = (int)s.v.size(); big |= n >= 4; int e = s.open ? n - 1 : n; E += e; N += n; double l = 0; for (int j = 0; j < e; j++) l += d(s.v[j], s.v[(j + 1) % n]); len.push_back(l); tot += l; }
  c.nontrivial(big && k.dim != 3); c.note("%s", show(k).c_str());
  vector<int> ce(k.cp.size(), -1); CHECK(c, nplc_num_edges(L) == E && nplc_edges(L, ce.data()) == E && nplc_edges(L, nullptr) == E, "edges counted as %d and %d, expected %d", nplc_num_edges(L), nplc_edges(L, nullptr), E); CHECK(c, nplc_num_verts(L) == N, "%d vertices counted, expected %d", nplc_num_verts(L), N);
  for (size_t i = 0; i < ce.size(); i++) CHECK(c, ce[i] == (int)k.cp[i].v.size() - k.cp[i].open, "component %zu has %d edges", i, ce[i]);
  vector<double> cl(k.cp.size(), -1); double t = nplc_arclength(L, cl.data()); CHECK(c, fabs(t - tot) <= 1e-12 * (1 + tot), "arclength %.17g, expected %.17g", t, tot); for (size_t i = 0; i < cl.size(); i++) CHECK(c, fabs(cl[i] - len[i]) <= 1e-12 * (1 + len[i]), "component %zu has length %.17g, expected %.17g", i, cl[i], len[i]); CHECK(c, nplc_arclength(L, nullptr) == t, "arclength depends on the optional argument");
  int i = (int)c.below(k.cp.size()); auto &s = k.cp[i]; int n = (int)s.v.size(), a = (int)c.below(n), b = (int)c.below(n); double in = 0; for (int j = std::min(a, b); j < std::max(a, b); j++) in += d(s.v[j], s.v[j + 1]); double want = s.open ? in : std::min(in, len[i] - in), got = nplc_subarc_length(L, i, a, b); CHECK(c, fabs(got - want) <= 1e-12 * (1 + len[i]), "arc between vertices %d and %d of component %d (%s, %d vertices) has length %.17g, expected %.17g", a, b, i, s.open ? "open" : "closed", n, got, want);
  nplc_reverse(L); C r = k; for (auto &q : r.cp) { std::reverse(q.v.begin(), q.v.end()); } for (size_t q = 0; q < r.cp.size(); q++) for (size_t j = 0; j < r.cp[q].v.size(); j++) { W w = get(c, L->cp[q].vt[j], k.dim, "reversed", false); CHECK(c, w == r.cp[q].v[j], "reversed curve: component %zu vertex %zu is %s, expected %s", q, j, show(w).c_str(), show(r.cp[q].v[j]).c_str()); }
  double t2 = nplc_arclength(L, nullptr); CHECK(c, fabs(t2 - tot) <= 1e-12 * (1 + tot), "length %.17g after reversing, %.17g before", t2, tot); nplc_reverse(L); r = k; compare(c, k, L, "curve reversed twice", 0); nplc_free(L);
}
PROPERTY(C30, vectors, 180000, 600000, 60, "dimension at least two and two vectors that are not parallel") {
  int n = dimension(c); int st = c.range(0, 2); W a = rw(c, n, st), b = c.chance(1, 6) ? a : rw(c, n, st); if (c.chance(1, 10)) { double z = c.gauss(); b = a; for (auto &x : b) x *= z; } double s = coord(c, c.range(0, 2)), t = coord(c, c.range(0, 2)); nplc_vector A = mk(a), B = mk(b);
  long double ab = 0, aa = 0, bb = 0, dd = 0; for (int i = 0; i < n; i++) { ab += (long double)a[i] * b[i]; aa += (long double)a[i] * a[i]; bb += (long double)b[i] * b[i]; dd += ((long double)a[i] - b[i]) * ((long double)a[i] - b[i]); } long double x2 = 0; for (int j = 1; j < n; j++) for (int i = 0; i < j; i++) { long double q = (long double)a[i] * b[j] - (long double)a[j] * b[i]; x2 += q * q; }
  c.nontrivial(n >= 2 && x2 > 1e-6); c.note("dim %d a=%s b=%s", n, show(a).c_str(), show(b).c_str()); double sc = (double)(aa + bb + 1);
  auto each = [&](nplc_vector v, const char *what, auto fn) { W w = get(c, v, n, what); for (int i = 0; i < n; i++) { double e = fn(i); CHECK(c, fabs(w[i] - e) <= 1e-13 * (fabs(e) + (fabs(a[i]) + fabs(b[i])) * (1 + fabs(s) + fabs(t))), "%s: entry %d is %.17g, expected %.17g", what, i, w[i], e); } };
  each(nplc_vect_sum(A, B), "sum", [&](int i) { return a[i] + b[i]; }); each(nplc_vect_diff(A, B), "difference", [&](int i) { return a[i] - b[i]; }); each(nplc_scale_vect(s, A), "multiple", [&](int i) { return s * a[i]; }); each(nplc_vlincomb(s, A, t, B), "combination", [&](int i) { return s * a[i] + t * b[i]; }); each(nplc_vmadd(A, s, B), "A+sB", [&](int i) { return a[i] + s * b[i]; }); each(nplc_vweighted(s, A, B), "(1-s)A+sB", [&](int i) { return (1 - s) * a[i] + s * b[i]; });
  { W w = get(c, nplc_component_mult(A, B), n, "componentwise product"); for (int i = 0; i < n; i++) CHECK(c, w[i] == a[i] * b[i], "componentwise product: entry %d is %.17g", i, w[i]); }
  { bool ok = n & 1, z = false; for (double x : b) z |= fabs(x) < 1e-15; nplc_vector q = nplc_component_div(A, B, &ok); W w = get(c, q, n, "componentwise quotient"); CHECK(c, ok == !z, "componentwise quotient: ok=%d", ok); if (ok) for (int i = 0; i < n; i++) CHECK(c, w[i] == a[i] / b[i], "componentwise quotient: entry %d is %.17g", i, w[i]); }
  double r; r = nplc_dot_prod(A, B); CHECK(c, fabs(r - (double)ab) <= 1e-13 * sc, "dot product %.17g, expected %.17Lg", r, ab); r = nplc_norm(A); CHECK(c, fabs(r - (double)sqrtl(aa)) <= 1e-13 * sc, "norm %.17g, expected %.17Lg", r, sqrtl(aa)); r = nplc_distance(A, B); CHECK(c, fabs(r - (double)sqrtl(dd)) <= 1e-13 * sc, "distance %.17g, expected %.17Lg", r, sqrtl(dd)); r = nplc_sq_dist(A, B); CHECK(c, fabs(r - (double)dd) <= 1e-13 * sc, "squared distance %.17g, expected %.17Lg", r, dd);
  { bool ok = false; double g = nplc_angle(A, B, &ok); double l = (double)sqrtl(x2), q = (double)ab; if (fabs(q) > 1e-10 || l > 1e-10) { double w = atan2(l, q); CHECK(c, ok, "angle between %s and %s reported as undefined", show(a).c_str(), show(b).c_str()); CHECK(c, fabs(g - w) <= 1e-12 * sc / std::max(hypot(l, q), 1e-10), "angle %.17g, expected %.17g", g, w); } else if (fabs(q) < 1e-14 && l < 1e-14) CHECK(c, !ok, "angle with a zero vector reported as defined"); }
  { bool eq = true; for (int i = 0; i < n; i++) eq &= a[i] == b[i]; bool far = false; for (int i = 0; i < n; i++) far |= fabs(a[i] - b[i]) > 1e-15; bool g = nplc_vecteq(A, B); if (eq) CHECK(c, g, "equal vectors compare as different"); if (far) CHECK(c, !g, "different vectors %s and %s compare as equal", show(a).c_str(), show(b).c_str()); if (n > 0) { nplc_vector D = mk(a); int i = (int)c.below(n); D.c[i] += c.flag() ? 1e-9 : -1e-9; if (fabs(a[i]) < 1e5) CHECK(c, !nplc_vecteq(A, D), "vectors which differ by 1e-9 in entry %d of %d compare as equal", i, n); nplc_vect_free(&D); } }
  if (aa > 1e-12L) { bool ok = false; W w = get(c, nplc_normalize_vect(A, &ok), n, "unit vector"); CHECK(c, ok, "a nonzero vector cannot be normalized"); for (int i = 0; i < n; i++) CHECK(c, fabs(w[i] - (double)(a[i] / sqrtl(aa))) < 1e-13, "normalized vector: entry %d is %.17g", i, w[i]); } else if (aa == 0) { bool ok = true; nplc_vector z = nplc_normalize_vect(A, &ok); nplc_vect_free(&z); CHECK(c, !ok, "the zero vector is normalized"); }
  { string p = nplc_vect_print(A); CHECK(c, p.size() > 1 && p.front() == '(' && p.back() == ')', "printed form %s", p.c_str()); const char *q = p.c_str() + 1; for (int i = 0; i < n; i++) { char *e; double v = strtod(q, &e); CHECK(c, e > q && fabs(v - a[i]) <= 1e-5 * fabs(a[i]) && *e == (i == n - 1 ? ')' : ','), "printed form %s of %s", p.c_str(), show(a).c_str()); q = e + 1; } }
  { string p = nplc_vect_clist(A); const char *q = p.c_str(); for (int i = 0; i < n; i++) { char *e; double v = strtod(q, &e); CHECK(c, e > q && fabs(v - a[i]) <= 1e-15 * fabs(a[i]), "listed form %s of %s", p.c_str(), show(a).c_str()); q = e; } while (*q) CHECK(c, isspace((unsigned char)*q++), "listed form %s of a vector of dimension %d", p.c_str(), n); }
  { W u = get(c, nplc_random_vect(n), n, "random vector"); double l = 0; for (double x : u) l += x * x; CHECK(c, fabs(l - 1) < 1e-12, "random vector in dimension %d has length %.17g", n, sqrt(l)); }
  { nplc_vector q = nplc_build_vect(5, a[0], 1.5, b[0], -2.0, s); W w = get(c, q, 5, "vector from numbers"); CHECK(c, w == (W{a[0], 1.5, b[0], -2.0, s}), "vector from five numbers is %s", show(w).c_str()); }
  CHECK(c, W(A.c, A.c + n) == a && W(B.c, B.c + n) == b, "an operand was changed"); nplc_vect_free(&A); nplc_vect_free(&B);
}
PROPERTY(C30, history, 120000, 400000, 60, "at least four operations, at least one of which overlaps an earlier constraint") {
  C k = rc(c, c.range(0, 2), c.chance(1, 5) ? 20 : 6, false); nplCurve *L = build(k); int nc = (int)k.cp.size(), n = c.range(1, 14); bool over = false; string log;
  // a pool of constraint data; entries are handed over both as the same and as equal but separate vectors
  struct P { K q; nplc_vector a, b; }; vector<P> pool; int np = c.range(1, 4); for (int i = 0; i < np; i++) { P p; p.q.kind = c.range(1, 3); p.q.a = rw(c, k.dim, c.range(0, 2)); p.q.b = p.q.kind == 2 ? rw(c, k.dim, c.range(0, 2)) : W(k.dim, 0.0); if (p.q.kind == 3) p.q.b[0] = coord(c, c.range(0, 2)); if (i && c.chance(1, 4)) { p.q.a = pool[0].q.a; if (c.flag() && pool[0].q.kind == p.q.kind) p.q.b = pool[0].q.b; } p.a = mk(p.q.a); p.b = mk(p.q.b); pool.push_back(p); }
  for (int o = 0; o < n; o++) { int i = (int)c.below(nc); auto &s = k.cp[i]; int nv = (int)s.v.size(), a = (int)c.below(nv), len = c.range(1, nv - a); auto &p = pool[c.below(pool.size())]; bool fresh = c.chance(1, 3); char b[100];
    switch (c.pick({8, 4, 2, 1, 1})) {
      case 0: { if (p.q.kind == 1) len = 1; for (int j = a; j < a + len; j++) { over |= s.cst[j].kind != 0; s.cst[j] = p.q; } nplc_vector x = fresh ? mk(p.q.a) : p.a, y = fresh ? mk(p.q.b) : p.b; if (p.q.kind == 1) nplc_set_fixed(L, i, a, x); else if (p.q.kind == 2) nplc_constrain_to_line(L, i, a, len, x, y); else nplc_constrain_to_plane(L, i, a, len, x, p.q.b[0]); snprintf(b, 100, "%s %d:%d+%d", p.q.kind == 1 ? "fix" : p.q.kind == 2 ? "line" : "plane", i, a, len); break; }
      case 1: for (int j = a; j < a + len; j++) { over |= s.cst[j].kind != 0; s.cst[j] = K(); } nplc_unconstrain(L, i, a, len); snprintf(b, 100, "free %d:%d+%d", i, a, len); break;
      case 2: { int want = 0; for (auto &t : k.cp) for (auto &q : t.cst) if (q == p.q) { want++; q = K(); over = true; } nplc_vector v[2] = {fresh ? mk(p.q.a) : p.a, fresh ? mk(p.q.b) : p.b}; int got = nplc_remove_constraint(L, (nplc_cst_kind)p.q.kind, v); CHECK(c, got == want, "removing a constraint freed %d vertices, expected %d; after %s", got, want, log.c_str()); snprintf(b, 100, "remove(%d)", want); break; }
      case 3: for (auto &t : k.cp) for (auto &q : t.cst) q = K(); nplc_remove_all_constraints(L); CHECK(c, !L->cst, "constraints are left after all were removed"); snprintf(b, 100, "clear"); break;
      default: { nplCurve *M = nplc_copy(L); nplc_free(L); L = M; snprintf(b, 100, "copy"); } }
    log += b; log += "; "; c.note("%s", b); string w = "after " + log; compare(c, k, L, w.c_str(), 0); }
  c.nontrivial(n >= 4 && over); string s = text(L); nplc_free(L); FILE *f = mem(s); int e = 99; char es[300] = "x"; nplCurve *M = nplc_read(f, &e, es, sizeof es); fclose(f); CHECK(c, M, "not read back: error %d %s", e, es); compare(c, k, M, "curve read back", 1e-15); nplc_free(M); for (auto &p : pool) { nplc_vect_free(&p.a); nplc_vect_free(&p.b); }
}
