// C18 HOMFLY polynomial; C24 polynomial arithmetic and its text forms.
#include "diag.hpp"
#include "model_moves.hpp"
#include <unistd.h>
extern "C" {
#include "polynomials.h"
}
using namespace dg;
static const Deco FULL{true, true, false};
// "1 - a^{2}z^{-1} + 3a^{-2}" -> map; throws on anything else
static Poly parse_latex(pbt::Case &c, const char *s) {
  Poly p; const char *q = s; bool first = true;
  while (*q) { int sg = 1; if (first) { if (*q == '-') { sg = -1; q++; } } else { if (!strncmp(q, " + ", 3)) q += 3; else if (!strncmp(q, " - ", 3)) { sg = -1; q += 3; } else c.fail("malformed polynomial text '%s'", s); }
    first = false; long co = 1; bool any = false; if (isdigit(*q)) { co = strtol(q, (char **)&q, 10); any = true; } int l = 0, m = 0;
    if (!strncmp(q, "a^{", 3)) { l = strtol(q + 3, (char **)&q, 10); CHECK(c, *q == '}', "malformed '%s'", s); q++; any = true; }
    if (!strncmp(q, "z^{", 3)) { m = strtol(q + 3, (char **)&q, 10); CHECK(c, *q == '}', "malformed '%s'", s); q++; any = true; }
    CHECK(c, any && co != 0, "malformed or zero monomial in '%s'", s); auto k = std::make_pair(l, m); CHECK(c, !p.count(k), "repeated monomial in '%s'", s); p[k] = sg * co; }
  return p; }

static void check_homfly(pbt::Case &c, const Diag &D, long budget, bool viaMain) {
  bool ok; Poly want = homfly(D, &ok, budget); if (!ok) c.discard("reference budget");
  pd_code_t *pd = make_pd(c, D); CHECK(c, pd_ok(pd), "generated code"); string before = pd_dump(pd);
  char *h = viaMain ? pd_homfly(pd) : pd_homfly_timeout(pd, 300); CHECK(c, h, "no polynomial returned");
  Poly got = parse_latex(c, h); CHECK(c, got == want, "HOMFLY is %s (%s), skein reference gives %s", h, pstr(got).c_str(), pstr(want).c_str());
  c.labelf("terms=%zu", std::min<size_t>(want.size(), 12)); CHECK(c, pd_dump(pd) == before, "computing the polynomial changed the code"); free(h); pd_code_free(&pd);
}
PROPERTY(C18, skein_reference, 72000, 216000, 60, "at least 4 crossings") {
  Diag D = random_diagram(c, 1, c.chance(1, 6) ? (pbt::g_thorough ? 16 : 13) : 9); c.nontrivial(D.n >= 4); c.note("%s", show(D).c_str()); c.labelf("comps=%zu", D.comps().size());
  check_homfly(c, D, 30000, c.flag());
}

// larger diagrams than the reference can handle: relations the polynomial must satisfy
static Poly lib_homfly(pbt::Case &c, const Diag &D) { pd_code_t *pd = make_pd(c, D); char *h = pd_homfly_timeout(pd, 300); CHECK(c, h, "no polynomial returned"); Poly p = parse_latex(c, h); free(h); pd_code_free(&pd); return p; }
PROPERTY(C18, metamorphic, 18000, 60000, 60, "at least 8 crossings") {
  Diag D = random_diagram(c, 2, c.chance(1, 4) ? 24 : 12); c.nontrivial(D.n >= 8); c.note("%s", show(D).c_str()); Poly p = lib_homfly(c, D), q; int kind = c.range(0, 6); c.labelf("kind=%d", kind);
  if (kind == 0) { q = lib_homfly(c, relabel(c, D)); CHECK(c, p == q, "relabelling changes %s to %s", pstr(p).c_str(), pstr(q).c_str()); }
  else if (kind == 1) { q = lib_homfly(c, reverse_all(D)); CHECK(c, p == q, "reversing everything changes %s to %s", pstr(p).c_str(), pstr(q).c_str()); }
  else if (kind == 2) { q = lib_homfly(c, c.flag() ? mirror_signs(D) : reflect(D)); Poly r; for (auto &t : p) r[{-t.first.first, t.first.second}] = t.second; CHECK(c, q == r, "the mirror image has %s, expected %s", pstr(q).c_str(), pstr(r).c_str()); }
  else if (kind == 3) { Diag E = D; int k = c.range(1, 4); while (k--) E = add_kink(E, c.below(4 * E.n), c.below(2)); for (auto &s : E.sign) if (s == 2) s = (int)c.below(2); q = lib_homfly(c, E); CHECK(c, p == q, "kinks change %s to %s: %s", pstr(p).c_str(), pstr(q).c_str(), show(E).c_str()); }
  else if (kind == 4) { int k = c.below(D.n); Diag M = D; M.sign[k] = 1 - M.sign[k]; q = lib_homfly(c, M); // skein relation at crossing k, through the smoothing of the Gauss code reference only when small
    bool ok; if (D.n <= 9) { Poly w = homfly(M, &ok, 30000); if (ok) CHECK(c, q == w, "after switching crossing %d: %s, reference %s", k, pstr(q).c_str(), pstr(w).c_str()); } }
  else if (kind == 5) { Diag E = random_diagram(c, 2, 7); pd_code_t *a = make_pd(c, D), *b = make_pd(c, E), *s = pd_connect_sum(a, c.below(a->nedges), b, c.below(b->nedges)); char *h = pd_homfly(s); CHECK(c, h, "no polynomial"); q = parse_latex(c, h); Poly e = lib_homfly(c, E), w = pmul(p, e); CHECK(c, q == w, "connected sum has %s, the product is %s", pstr(q).c_str(), pstr(w).c_str()); free(h); pd_code_free(&a); pd_code_free(&b); pd_code_free(&s); }
  else { size_t nc = D.comps().size(); // m-degrees have the parity of (components - 1), the lowest is at least 1 - components
    for (auto &t : p) { CHECK(c, (t.first.second - (int)nc + 1) % 2 == 0 && t.first.second >= 1 - (int)nc, "a power m^%d in the polynomial of a link with %zu components", t.first.second, nc); CHECK(c, (t.first.first - t.first.second) % 2 == 0, "l^%d m^%d: parity", t.first.first, t.first.second); } }
}

// ---------------------------------------------------------------- C24
static Poly random_poly(pbt::Case &c, int maxterms, int span, int cmax) { Poly p; int n = c.range(1, maxterms); for (int i = 0; i < n; i++) { int co = c.range(-cmax, cmax); if (!co) co = 1; p[{c.range(-span, span), c.range(-span, span)}] = co; } return p; }
static homfly_polynomial_t *mkpoly(pbt::Case &c, const Poly &p) { homfly_polynomial_t *h = (homfly_polynomial_t *)calloc(1, sizeof *h); h->mono = (monomial_t *)calloc(p.size(), sizeof(monomial_t)); vector<std::pair<std::pair<int, int>, long long>> v(p.begin(), p.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]); for (auto &t : v) { auto &m = h->mono[h->nmonomials++]; m.coeff = (int)t.second; m.l = t.first.first; m.m = t.first.second; } return h; }
static Poly val(pbt::Case &c, const homfly_polynomial_t *h, const char *what) { Poly p; for (int i = 0; i < h->nmonomials; i++) { auto &m = h->mono[i]; CHECK(c, m.coeff != 0, "%s: zero monomial l^%d m^%d", what, m.l, m.m); auto k = std::make_pair(m.l, m.m); CHECK(c, !p.count(k), "%s: repeated monomial", what); p[k] = m.coeff; } return p; }
static Poly parse_math(pbt::Case &c, const char *s) { Poly p; const char *q = s; bool first = true; while (*q) { if (!first) { CHECK(c, !strncmp(q, " + ", 3), "malformed '%s'", s); q += 3; } first = false; CHECK(c, *q == '(', "malformed '%s'", s); long co = strtol(q + 1, (char **)&q, 10); CHECK(c, *q == ')', "malformed '%s'", s); q++; int l = 0, m = 0; if (!strncmp(q, "*a^(", 4)) { l = strtol(q + 4, (char **)&q, 10); CHECK(c, *q++ == ')', "malformed '%s'", s); } if (!strncmp(q, "*z^(", 4)) { m = strtol(q + 4, (char **)&q, 10); CHECK(c, *q++ == ')', "malformed '%s'", s); } auto k = std::make_pair(l, m); CHECK(c, !p.count(k), "repeated term in '%s'", s); p[k] = co; } return p; }
PROPERTY(C24, text_forms, 270000, 810000, 60, "at least 3 terms") {
  Poly p = random_poly(c, c.chance(1, 10) ? 60 : 8, c.chance(1, 5) ? 15 : 4, c.chance(1, 3) ? (c.chance(1, 3) ? 2000000000 : 1000000) : 5); c.nontrivial(p.size() >= 3); c.note("%s", pstr(p).c_str()); homfly_polynomial_t *h = mkpoly(c, p);
  char *t = poly_to_latex(h); CHECK(c, parse_latex(c, t) == p, "latex form '%s' of %s", t, pstr(p).c_str()); free(t);
  t = poly_to_mathematica(h); CHECK(c, parse_math(c, t) == p, "mathematica form '%s' of %s", t, pstr(p).c_str()); free(t);
  t = polynomial_to_lmpoly(h->mono, h->nmonomials); homfly_polynomial_t *b = lmpoly_to_polynomial(t); CHECK(c, val(c, b, "read back") == p, "lmpoly form '%s' of %s reads as %s", t, pstr(p).c_str(), pstr(val(c, b, "read back")).c_str());
  CHECK(c, polynomials_eq(h, b) && polynomials_eq(b, h), "the polynomial read back is reported different"); char *t2 = lmpoly_check(t); CHECK(c, !strcmp(t, t2), "'%s' becomes '%s'", t, t2); free(t2);
  char *x = lmpoly_to_latex(t), *y = lmpoly_to_mathematica(t); CHECK(c, parse_latex(c, x) == p && parse_math(c, y) == p, "'%s' converts to '%s' and '%s'", t, x, y); free(x); free(y); free(t); homfly_polynomial_free(&b); CHECK(c, !b, "not cleared");
  string k; for (int i = 0; i < h->nmonomials; i++) { char z[99]; snprintf(z, 99, "%s%d a^%d z^%d", i ? " + " : "", h->mono[i].coeff, h->mono[i].l, h->mono[i].m); k += z; } string kk = k; b = KnotTheory_to_polynomial(&kk[0]); CHECK(c, b && val(c, b, "KnotTheory form") == p && polynomials_eq(b, h), "KnotTheory form '%s' misread", k.c_str()); homfly_polynomial_free(&b);
  // equality
  Poly q = p; int kind = c.range(0, 5); auto it = std::next(q.begin(), c.below(q.size())); if (kind == 0) it->second += 1; else if (kind == 4) it->second = -it->second; else if (kind == 5) { long long co = it->second; auto key = it->first; q.erase(it); key.first = -key.first - 1; if (!q.count(key)) q[key] = co; } else if (kind == 1) { long long co = it->second; auto key = it->first; q.erase(it); key.second += 31; q[key] = co; } else if (kind == 2 && q.size() > 1) q.erase(it); for (auto z = q.begin(); z != q.end();) if (z->second == 0) z = q.erase(z); else ++z; if (q.empty()) q[{0, 0}] = 77;
  b = mkpoly(c, q); CHECK(c, polynomials_eq(h, b) == (p == q), "polynomials %s and %s reported %s", pstr(p).c_str(), pstr(q).c_str(), p == q ? "different" : "equal"); homfly_polynomial_free(&b); homfly_polynomial_free(&h);
}
PROPERTY(C24, products, 270000, 810000, 60, "both factors have at least 2 terms") {
  int sp = c.chance(1, 3) ? 8 : 2; int mag = c.chance(1, 4) ? (c.flag() ? 15000 : 2000000) : 9; Poly p = random_poly(c, 6, sp, mag), q = random_poly(c, 6, sp, mag > 100000 ? 100 : mag); if (c.flag()) std::swap(p, q); if (c.chance(1, 4)) { p.clear(); q.clear(); p[{1, 0}] = 1; p[{0, 0}] = c.range(1, 4); q[{1, 0}] = 1; q[{0, 0}] = -p[{0, 0}]; } c.nontrivial(p.size() > 1 && q.size() > 1); c.note("(%s)(%s)", pstr(p).c_str(), pstr(q).c_str());
  homfly_polynomial_t *a = mkpoly(c, p), *b = mkpoly(c, q), *r = product_polynomial(a, b); CHECK(c, val(c, r, "product") == pmul(p, q), "(%s)(%s) = %s", pstr(p).c_str(), pstr(q).c_str(), pstr(val(c, r, "product")).c_str()); CHECK(c, val(c, a, "factor") == p && val(c, b, "factor") == q, "a factor changed"); homfly_polynomial_free(&a); homfly_polynomial_free(&b); homfly_polynomial_free(&r);
}

// ---------------------------------------------------------------- C36: the families of diagrams the library builds
static Poly mono(int l, int m, long long k = 1) { Poly p; p[{l, m}] = k; return p; }
// a P(+) + a^-1 P(-) + z P(0) = 0, solved for P(s)
static Poly solve(int s, const Poly &other, const Poly &zero) { Poly r; padd(r, other, -1, -2 * s, 0); padd(r, zero, -1, -s, 1); return r; }
static Poly mirrored(const Poly &p) { Poly r; for (auto &t : p) r[{-t.first.first, t.first.second}] = t.second; return r; }
static Poly torus_poly(int q) { Poly a = unlink_poly(2), b = mono(0, 0); for (int k = 2; k <= q; k++) { Poly n = solve(1, a, b); a = b; b = n; } return b; }
static Poly twist_poly(int n) { Poly h = torus_poly(2), p = mono(0, 0); for (int k = n & 1 ? 1 : 2; k <= n; k += 2) p = solve(n & 1 ? 1 : -1, p, h); return p; }
static std::set<std::pair<unsigned, unsigned>> links(pbt::Case &c, pd_code_t *pd) { std::set<std::pair<unsigned, unsigned>> s; for (unsigned i = 0; i < pd->ncomps; i++) for (unsigned j = i + 1; j < pd->ncomps; j++) { int l = pd_linking_number(pd, i, j); CHECK(c, l == 0 || l == 1, "components %u and %u have linking number %d", i, j, l); if (l) s.insert({i, j}); } return s; }
static void family_ok(pbt::Case &c, pd_code_t *pd, pd_code_t *again, unsigned n, unsigned comps, const char *what) {
  CHECK(c, pd, "%s: no diagram", what); CHECK(c, pd->ncross == n && pd->ncomps == comps && pd->nfaces == n + 2 && pd->nedges == (n ? 2 * n : 1), "%s: %u crossings, %u components, %u faces, %u edges; expected %u, %u, %u, %u", what, pd->ncross, pd->ncomps, pd->nfaces, pd->nedges, n, comps, n + 2, n ? 2 * n : 1); CHECK(c, pd_ok(pd), "%s: not a valid code", what); check_valid(c, pd, what);
  for (unsigned i = 0; i < n; i++) CHECK(c, pd->cross[i].sign == PD_POS_ORIENTATION || pd->cross[i].sign == PD_NEG_ORIENTATION, "%s: crossing %u has no sign", what, i); CHECK(c, pd_dump(pd) == pd_dump(again), "%s: built twice, the codes differ", what); pd_code_t *q = pd_copy(again); pd_regenerate(q); CHECK(c, !strcmp(q->hash, pd->hash), "%s: the hash is stale", what); pd_code_free(&q); pd_code_free(&again); }
static Poly poly_of(pbt::Case &c, pd_code_t *pd) { char *h = c.flag() ? pd_homfly(pd) : pd_homfly_timeout(pd, 300); CHECK(c, h, "no polynomial returned"); Poly p = parse_latex(c, h); free(h); return p; }
static int writhe(pd_code_t *pd) { int w = 0; for (unsigned i = 0; i < pd->ncross; i++) w += pd->cross[i].sign == PD_POS_ORIENTATION ? 1 : -1; return w; }
static int size(pbt::Case &c, int lo, int mid, int hi) { return c.chance(1, 6) ? c.range(lo, hi) : c.range(lo, mid); }
static void expect(pbt::Case &c, const Poly &got, const Poly &want, const char *what) { CHECK(c, got == want, "%s: HOMFLY is %s, expected %s", what, pstr(got).c_str(), pstr(want).c_str()); }
PROPERTY(C36, families, 90000, 270000, 60, "at least 4 crossings") {
  char w[60]; int kind = c.below(5);
  if (kind == 0) { int q = size(c, 2, 16, 150); snprintf(w, 60, "(2,%d) torus knot", q); c.nontrivial(q >= 4); c.label("torus"); c.note("%s", w); pd_code_t *pd = pd_build_torus_knot(2, q); family_ok(c, pd, pd_build_torus_knot(2, q), q, q & 1 ? 1 : 2, w); CHECK(c, writhe(pd) == q, "%s: writhe %d", w, writhe(pd)); CHECK(c, pd_is_alternating(pd), "%s is not alternating", w); if (q % 2 == 0) CHECK(c, pd_linking_number(pd, 0, 1) == q / 2, "%s: linking number %d", w, pd_linking_number(pd, 0, 1)); if (q <= 24) expect(c, poly_of(c, pd), torus_poly(q), w); pd_code_free(&pd); }
  else if (kind == 1) { int n = size(c, 1, 14, 150); snprintf(w, 60, "twist knot with %d twists", n); c.nontrivial(n >= 2); c.label("twist"); c.note("%s", w); pd_code_t *pd = pd_build_twist_knot(n); family_ok(c, pd, pd_build_twist_knot(n), n + 2, 1, w); CHECK(c, pd_is_alternating(pd), "%s: the diagram is not alternating", w); int wr = writhe(pd); CHECK(c, n & 1 ? wr == n + 2 : abs(wr) == n - 2, "%s: writhe %d", w, wr); if (n <= 22) { Poly p = poly_of(c, pd), t = twist_poly(n); if (n % 2 == 0 && p != t) t = mirrored(t); expect(c, p, t, w); } pd_code_free(&pd); }
  else if (kind == 2) { int n = size(c, 1, 9, 50); snprintf(w, 60, "chain of %d links", n); c.nontrivial(n >= 3); c.label("chain"); c.note("%s", w); pd_code_t *pd = pd_build_simple_chain(n); family_ok(c, pd, pd_build_simple_chain(n), 2 * (n - 1), n, w); auto s = links(c, pd); CHECK(c, (int)s.size() == n - 1, "%s: %zu pairs of components are linked", w, s.size()); vector<int> deg(n), par(n); for (int i = 0; i < n; i++) par[i] = i; auto find = [&](int x) { while (par[x] != x) x = par[x]; return x; }; for (auto &e : s) { deg[e.first]++; deg[e.second]++; int a = find(e.first), b = find(e.second); CHECK(c, a != b, "%s: the links form a ring", w); par[a] = b; } for (int d : deg) CHECK(c, d <= 2, "%s: a link with %d neighbours", w, d);
    for (unsigned i = 0; i < pd->ncomps; i++) if (n > 1) CHECK(c, (int)pd->comp[i].nedges == 2 * deg[i], "%s: component %u passes %u crossings and has %d neighbours", w, i, pd->comp[i].nedges, deg[i]); if (n <= 8) { Poly p = mono(0, 0); for (int i = 1; i < n; i++) p = pmul(p, torus_poly(2)); expect(c, poly_of(c, pd), p, w); } pd_code_free(&pd); }
  else if (kind == 3) { int n = size(c, 0, 16, 150); snprintf(w, 60, "unknot with %d crossings", n); c.nontrivial(n >= 4); c.label("unknot"); c.note("%s", w); pd_code_t *pd = pd_build_unknot(n); family_ok(c, pd, pd_build_unknot(n), n, 1, w); CHECK(c, writhe(pd) == n, "%s: writhe %d", w, writhe(pd)); int m = 0, b = 0; for (unsigned f = 0; f < pd->nfaces; f++) { m += pd->face[f].nedges == 1; b += pd->face[f].nedges == 2; } if (n > 2) CHECK(c, m == 2 && b == n - 1, "%s: %d loops and %d bigons", w, m, b); if (n <= 40) expect(c, poly_of(c, pd), mono(0, 0), w); if (n <= 60) { pd_code_t *s = pd_simplify(pd); CHECK(c, s && s->ncross == 0, "%s does not simplify", w); pd_code_free(&s); } pd_code_free(&pd); }
  else { int t[3]; for (int &x : t) x = size(c, 0, 4, 20); snprintf(w, 60, "wye (%d,%d,%d)", t[0], t[1], t[2]); int n = t[0] + t[1] + t[2] + 3; c.nontrivial(n >= 4); c.label("wye"); c.note("%s", w); pd_code_t *pd = pd_build_unknot_wye(t[0], t[1], t[2]); family_ok(c, pd, pd_build_unknot_wye(t[0], t[1], t[2]), n, 1, w); CHECK(c, writhe(pd) == n, "%s: writhe %d", w, writhe(pd)); int m = 0; for (unsigned f = 0; f < pd->nfaces; f++) m += pd->face[f].nedges == 1; CHECK(c, m == 3, "%s: %d loops", w, m); if (n <= 40) expect(c, poly_of(c, pd), mono(0, 0), w);
    int u[3] = {t[0], t[1], t[2]}; if (c.flag()) std::swap(u[c.below(3)], u[c.below(3)]); if (c.flag()) { int r = c.below(3); u[r] += 1; u[(r + 1) % 3] = std::max(0, u[(r + 1) % 3] - 1); } pd_code_t *q = pd_build_unknot_wye(u[0], u[1], u[2]); std::multiset<int> A(t, t + 3), B(u, u + 3); bool iso = pd_isomorphic(pd, q); CHECK(c, iso == (A == B), "%s and (%d,%d,%d) are reported %sisomorphic", w, u[0], u[1], u[2], iso ? "" : "not "); pd_code_free(&q); pd_code_free(&pd); }
}
PROPERTY(C18, crossingless, 240, 720, 20, "always: every diagram here is crossingless") {
  c.nontrivial(true); pd_code_t *pd = pd_build_unknot(0); pd->comp[0].tag = 'A' + c.below(26); pd->uid = c.flag() ? c.below(1000) : PD_UNSET_UID; c.note("tag %c", pd->comp[0].tag); bool main = c.flag(); string err; auto st = pbt::isolated([&] { char *h = main ? pd_homfly(pd) : pd_homfly_timeout(pd, 2); if (!h || parse_latex(c, h) != mono(0, 0)) _exit(3); free(h); }, 10, &err); CHECK(c, st == 0, "the polynomial of the crossingless unknot is not 1: %s", err.c_str()); pd_code_free(&pd);
}
// diagrams up to and beyond the size the computation handles: a small diagram with many kinks keeps its polynomial
PROPERTY(C18, many_kinks, 1000, 4000, 60, "at least 60 crossings") {
  Diag D = random_diagram(c, 1, 6); bool ok; Poly want = homfly(D, &ok, 30000); if (!ok) c.discard("reference budget"); int total = c.chance(1, 3) ? 246 + c.below(10) : c.range(20, 245); bool nested = c.flag(); int last = -1; string desc = show(D);
  while (D.n < total) { D = add_kink(D, nested && last >= 0 && c.chance(7, 8) ? 4 * last + c.below(4) : c.below(4 * D.n), c.below(2)); last = D.n - 1; for (auto &s : D.sign) if (s == 2) s = (int)c.below(2); }
  c.nontrivial(D.n >= 60); c.note("%s with kinks, %d crossings", desc.c_str(), D.n); c.label(D.n > 250 ? "more than 250 crossings" : "up to 250 crossings"); pd_code_t *pd = make_pd(c, D); string before = pd_dump(pd); char *h = c.flag() ? pd_homfly(pd) : pd_homfly_timeout(pd, 300);
  if (D.n <= 250) CHECK(c, h, "no polynomial for a diagram with %d crossings", D.n); if (h) { Poly got = parse_latex(c, h); CHECK(c, got == want, "%d crossings: HOMFLY is %s, without the kinks it is %s", D.n, pstr(got).c_str(), pstr(want).c_str()); free(h); } CHECK(c, pd_dump(pd) == before, "computing the polynomial changed the code"); pd_code_free(&pd);
}
