// C15 equivalence of planar diagrams; C14 the diagram store.
#include "diag.hpp"
#include "model_moves.hpp"
#define new new_
extern "C" {
#include "pd_container.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
}
#undef new
using namespace dg;
static const Deco FULL{true, true, false}, TAGGED{true, true, true}, MAP{false, false, false};
static Diag turn_over(const Diag &D) { return mirror_signs(reflect(D)); }
// the library tries every dihedral element on every component under every admissible component permutation
static double search_size(const Diag &D) { map<int, int> m; double r = 1; for (auto &k : D.comps()) { r *= 2.0 * k.size(); r *= ++m[(int)k.size()]; } return r; }
static vector<int> canon_unsigned(const Diag &D) { return std::min(canon(D, MAP), canon(reflect(D), MAP)); }
static vector<int> canon_isotopy(const Diag &D, Deco k) { return std::min(canon(D, k), canon(turn_over(D), k)); }
static void set_tags(pd_code_t *pd, const string &t) { for (unsigned i = 0; i < pd->ncomps; i++) pd->comp[i].tag = t[i]; }
static string random_tags(pbt::Case &c, int n) { string p = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; string t; for (int i = 0; i < n; i++) { int lim = c.chance(1, 3) ? (int)p.size() : std::max(1, n - i); int j = (int)c.below(lim); t += p[j]; p.erase(j, 1); } return t; }
// something equivalent, nearly equivalent, or unrelated
static Diag related(pbt::Case &c, const Diag &D, int kind) {
  Diag E = D;
  switch (kind) {
    case 0: break;
    case 1: E = reflect(D); break;
    case 2: E = turn_over(D); break;
    case 3: { int k = (int)c.below(D.comps().size()); reverse_comp(E, k); break; }
    case 4: E.sign[c.below(D.n)] ^= 1; break;
    case 5: E = reverse_all(D); break;
    case 6: { E = mirror_signs(D); break; }
    case 7: { if (D.n > 1) std::swap(E.sign[c.below(D.n)], E.sign[c.below(D.n)]); break; }
    case 8: { E = random_shadow(c, D.n); random_signs(c, E); break; }
    default: { // cut two edges of one face and rejoin them crosswise (planar), a small change of shadow
      auto fs = E.faces(); auto &f = fs[c.below(fs.size())]; int a = f[c.below(f.size())], b = f[c.below(f.size())]; if (a == b || E.mate[a] == b) break; int ma = E.mate[a], mb = E.mate[b]; Diag F = E; F.mate[a] = mb; F.mate[mb] = a; F.mate[b] = ma; F.mate[ma] = b; if (F.pieces() == 1 && (int)F.faces().size() == F.n + 2) { F.orient([](int) { return false; }); E = F; } break; } }
  return relabel(c, E); }
static bool perm_ok(const pd_perm_t *p, unsigned n) { if (p->n != n) return false; std::set<unsigned> s; for (unsigned i = 0; i < n; i++) { if (p->map[i] >= n) return false; s.insert(p->map[i]); } return s.size() == n; }
// the documented meaning of an isomorphism, checked record by record
static bool cyc_eq(const vector<unsigned> &a, vector<unsigned> b, bool rev) { if (a.size() != b.size()) return false; if (rev) std::reverse(b.begin(), b.end()); size_t n = a.size(); for (size_t r = 0; r < n; r++) { bool ok = true; for (size_t i = 0; i < n && ok; i++) ok = a[(i + r) % n] == b[i]; if (ok) return true; } return n == 0; }
static string iso_error(const pd_code_t *A, const pd_code_t *B, const pd_iso_t *I, bool *agree = nullptr) {
  if (!perm_ok(I->compperm, A->ncomps) || !perm_ok(I->edgemap->perm, A->nedges) || (A->ncross ? !perm_ok(I->crossmap->perm, A->ncross) : I->crossmap != nullptr) || !perm_ok(I->facemap->perm, A->nfaces)) return "a map is not a bijection"; char t[100];
#define BAD(...) do { snprintf(t, sizeof t, __VA_ARGS__); return t; } while (0)
  auto *E = I->edgemap;
  for (unsigned k = 0; k < A->ncomps; k++) { auto &X = A->comp[k], &Y = B->comp[I->compperm->map[k]]; if (X.nedges != Y.nedges) BAD("component sizes differ"); unsigned n = X.nedges; bool pos = E->orient[X.edge[0]] == PD_POS_ORIENTATION;
    vector<unsigned> p; for (unsigned i = 0; i < n; i++) { unsigned q = 0; while (q < n && Y.edge[q] != E->perm->map[X.edge[i]]) q++; if (q >= n) BAD("edge %u leaves its component", X.edge[i]); if ((E->orient[X.edge[i]] == PD_POS_ORIENTATION) != pos) BAD("mixed orientations on a component"); p.push_back(q); }
    for (unsigned i = 0; i < n; i++) if (p[(i + 1) % n] != (p[i] + (pos ? 1 : n - 1)) % n) BAD("component %u is not carried by a rotation or reflection", k); }
  if (A->ncross && I->crossmap->orient != I->facemap->orient) { if (agree) *agree = false; else return "crossings and faces disagree about the orientation of the sphere"; }
  for (unsigned x = 0; x < A->ncross; x++) { vector<unsigned> a, b; for (int p = 0; p < 4; p++) { a.push_back(E->perm->map[A->cross[x].edge[p]]); b.push_back(B->cross[I->crossmap->perm->map[x]].edge[p]); } if (!cyc_eq(a, b, I->crossmap->orient == PD_NEG_ORIENTATION)) BAD("crossing %u is not carried in cyclic order", x); }
  for (unsigned f = 0; f < A->nfaces; f++) { vector<unsigned> a, b; auto &F = A->face[f], &G = B->face[I->facemap->perm->map[f]]; if (F.nedges != G.nedges) BAD("face sizes differ"); for (unsigned i = 0; i < F.nedges; i++) { a.push_back(E->perm->map[F.edge[i]]); b.push_back(G.edge[i]); } if (!cyc_eq(a, b, I->facemap->orient == PD_NEG_ORIENTATION)) BAD("face %u is not carried in cyclic order", f); }
#undef BAD
  return ""; }
static void check_iso(pbt::Case &c, const pd_code_t *A, const pd_code_t *B, const pd_iso_t *I, const char *what) { string e = iso_error(A, B, I); CHECK(c, e.empty(), "%s: %s", what, e.c_str()); }
// isomorphisms are counted exactly when the map of darts is determined by the map of edges
static bool rigid(const Diag &D) { for (auto &k : D.comps()) if (k.size() < 3) return false; for (int d = 0; d < 4 * D.n; d++) if (D.mate[d] / 4 == d / 4) return false; return true; }
static Diag small(pbt::Case &c) { if (c.chance(1, 12)) { Diag D = symmetric_shadow(c, 8); random_signs(c, D); if (search_size(D) <= 2500) return D; } for (int i = 0;; i++) { Diag D = random_diagram(c, 1, i > 3 ? 3 : pbt::g_thorough ? 9 : 8); if (search_size(D) <= (pbt::g_thorough ? 6000 : 2500) || i > 6) return D; } }

PROPERTY(C15, pairs, 24000, 300000, 60, "at least 3 crossings") {
  Diag D = small(c); if (c.chance(1, 6)) for (auto &s : D.sign) if (c.flag()) s = 2; int kind = c.pick({4, 3, 4, 3, 2, 2, 2, 3, 2, 4}); Diag E = related(c, D, kind); if (search_size(E) > 6000) c.discard("search too large");
  c.nontrivial(D.n >= 3); c.note("kind %d: %s | %s", kind, show(D).c_str(), show(E).c_str());
  bool su = false; for (int s : D.sign) su |= s == 2; if (su) for (auto *X : {&D, &E}) { bool all = true; for (int s : X->sign) all &= s == 2; if (all) X->sign[0] = 1; }
  pd_code_t *A = make_pd(c, D), *B = make_pd(c, E); string ta = random_tags(c, A->ncomps), tb = c.chance(1, 2) && ta.size() == B->ncomps ? ta : random_tags(c, B->ncomps); if (c.chance(1, 2) && ta.size() == tb.size()) { std::sort(tb.begin(), tb.end()); string s = ta; std::sort(s.begin(), s.end()); if (s == tb || c.flag()) { tb = ta; for (int i = (int)tb.size() - 1; i > 0; i--) std::swap(tb[i], tb[c.below(i + 1)]); } }
  // tags: attached to corresponding components half of the time
  set_tags(A, ta); set_tags(B, tb); Diag P = from_pd(c, A, "A"), Q = from_pd(c, B, "B"); string sa = pd_dump(A), sb = pd_dump(B);
  bool want = canon_unsigned(P) == canon_unsigned(Q), wm = canon(P, MAP) == canon(Q, MAP), wd = canon_isotopy(P, TAGGED) == canon_isotopy(Q, TAGGED);
  c.labelf("isomorphic=%d map=%d isotopic=%d", want, wm, wd);
  CHECK(c, pd_isomorphic(A, B) == want && pd_isomorphic(B, A) == want, "isomorphic reported %d, is %d", !want, want);
  CHECK(c, pd_map_isomorphic(A, B) == wm && pd_map_isomorphic(B, A) == wm, "map-isomorphic reported %d, is %d", !wm, wm);
  bool gd = pd_diagram_isotopic(A, B), ge = pd_diagram_isotopic(B, A); CHECK(c, gd == wd && ge == wd, "diagram-isotopic reported %d and %d, is %d (tags %s %s)", gd, ge, wd, ta.c_str(), tb.c_str());
  unsigned n = 99; pd_iso_t **I = pd_build_isos(A, B, &n); CHECK(c, (n > 0) == want && (I != nullptr) == want, "%u isomorphisms listed", n); for (unsigned i = 0; i < n; i++) { check_iso(c, A, B, I[i], "isomorphism"); CHECK(c, pd_iso_consistent(A, B, I[i]) && pd_iso_ok(I[i]), "a listed isomorphism is called inconsistent"); }
  if (rigid(P)) { int m = count_matches(Q, code_from(P, 0, MAP), MAP) + count_matches(reflect(Q), code_from(P, 0, MAP), MAP); CHECK(c, (int)n == m, "%u isomorphisms listed, there are %d", n, m); c.label("counted"); }
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) CHECK(c, pd_iso_cmp(&I[i], &I[j]) != 0, "an isomorphism is listed twice");
  if (I) pd_free_isos(&n, &I);
  I = pd_build_map_isomorphisms(A, B, &n); CHECK(c, (n > 0) == wm, "%u map isomorphisms listed", n); for (unsigned i = 0; i < n; i++) { check_iso(c, A, B, I[i], "map isomorphism"); CHECK(c, I[i]->crossmap->orient == PD_POS_ORIENTATION, "a map isomorphism reverses the sphere"); } if (rigid(P)) { int m = count_matches(Q, code_from(P, 0, MAP), MAP); CHECK(c, (int)n == m, "%u map isomorphisms listed, there are %d", n, m); } if (I) pd_free_isos(&n, &I);
  I = pd_build_diagram_isotopies(A, B, &n); CHECK(c, (n > 0) == wd, "%u isotopies listed", n); for (unsigned i = 0; i < n; i++) { check_iso(c, A, B, I[i], "isotopy"); CHECK(c, pd_is_diagram_isotopy(I[i], A, B), "a listed isotopy is not one"); for (unsigned e = 0; e < A->nedges; e++) CHECK(c, I[i]->edgemap->orient[e] == PD_POS_ORIENTATION, "an isotopy reverses an edge"); for (unsigned x = 0; x < A->ncross; x++) CHECK(c, A->cross[x].sign == B->cross[I[i]->crossmap->perm->map[x]].sign, "an isotopy changes a sign"); for (unsigned k = 0; k < A->ncomps; k++) CHECK(c, A->comp[k].tag == B->comp[I[i]->compperm->map[k]].tag, "an isotopy changes a tag"); }
  if (rigid(P)) { int m = count_matches(Q, code_from(P, 0, TAGGED), TAGGED) + count_matches(turn_over(Q), code_from(P, 0, TAGGED), TAGGED); CHECK(c, (int)n == m, "%u isotopies listed, there are %d", n, m); } if (I) pd_free_isos(&n, &I);
  // the same question asked with crossing lists written as characters, edges numbered in any order
  if (A->ncross <= 30 && B->ncross <= 30 && !su && c.chance(1, 3)) { c.label("strings"); auto text = [&](pd_code_t *pd) { vector<unsigned> p(pd->nedges); for (unsigned i = 0; i < pd->nedges; i++) p[i] = i; if (c.flag()) for (unsigned i = pd->nedges; i > 1; i--) std::swap(p[i - 1], p[c.below(i)]); string r; for (unsigned i = 0; i < pd->ncross; i++) { unsigned k = (unsigned)c.below(4); for (unsigned j = 0; j < 4; j++) r += (char)(65 + p[pd->cross[i].edge[(j + k) % 4]]); } return r; };
    string x = text(A), y = text(B), x0 = x, y0 = y; bool got = pd_isomorphic_strings(&x[0], (int)A->ncross, &y[0], (int)B->ncross); CHECK(c, got == want, "written as characters, %s and %s are reported %sisomorphic", x.c_str(), y.c_str(), got ? "" : "not "); CHECK(c, x == x0 && y == y0, "the character strings were changed"); }
  CHECK(c, pd_dump(A) == sa && pd_dump(B) == sb, "comparing changed a code"); pd_code_free(&A); pd_code_free(&B);
}
// automorphisms form a group; maps act on codes as maps of diagrams
static bool same_perm(const pd_perm_t *a, const pd_perm_t *b) { return a->n == b->n && !memcmp(a->map, b->map, a->n * sizeof(pd_idx_t)); }
static bool same_iso(const pd_iso_t *a, const pd_iso_t *b) { if (!same_perm(a->compperm, b->compperm) || !same_perm(a->edgemap->perm, b->edgemap->perm) || !same_perm(a->crossmap->perm, b->crossmap->perm) || !same_perm(a->facemap->perm, b->facemap->perm) || a->crossmap->orient != b->crossmap->orient || a->facemap->orient != b->facemap->orient) return false; for (unsigned i = 0; i < a->edgemap->perm->n; i++) if (a->edgemap->orient[i] != b->edgemap->orient[i]) return false; return true; }
PROPERTY(C15, automorphisms, 8000, 80000, 60, "more than one automorphism") {
  Diag D; if (c.chance(1, 2)) D = small(c); else { // closures of symmetric patterns: two-strand twists and their doublings have many symmetries
    D = symmetric_shadow(c, pbt::g_thorough ? 12 : 9); random_signs(c, D); if (c.flag()) make_alternating(D, false); if (c.flag()) D = relabel(c, D); }
  if (search_size(D) > 3000) c.discard("search too large"); pd_code_t *A = make_pd(c, D); unsigned n = 0; pd_iso_t **I = pd_build_isos(A, A, &n); c.nontrivial(n > 1); c.labelf("order=%u", n); c.note("%u automorphisms of %s", n, show(D).c_str()); CHECK(c, n >= 1 && I, "no automorphism"); int ids = 0;
  for (unsigned i = 0; i < n; i++) { check_iso(c, A, A, I[i], "automorphism"); bool id = true; for (auto *p : {I[i]->compperm, I[i]->edgemap->perm, I[i]->crossmap->perm, I[i]->facemap->perm}) for (unsigned k = 0; k < p->n; k++) id &= p->map[k] == k; id &= I[i]->crossmap->orient == PD_POS_ORIENTATION; for (unsigned k = 0; k < A->nedges; k++) id &= I[i]->edgemap->orient[k] == PD_POS_ORIENTATION; CHECK(c, pd_iso_is_e(I[i]) == id, "identity test says %d", !id); ids += id; }
  CHECK(c, ids == 1, "%d identities", ids);
  for (int t = 0; t < 6; t++) { auto *X = I[c.below(n)], *Y = I[c.below(n)], *Z = I[c.below(n)]; pd_iso_t *XY = pd_compose_isos(X, Y); check_iso(c, A, A, XY, "product"); CHECK(c, pd_iso_ok(XY) && pd_iso_consistent(A, A, XY), "product not consistent");
    for (unsigned e = 0; e < A->nedges; e++) { unsigned m = Y->edgemap->perm->map[e]; CHECK(c, XY->edgemap->perm->map[e] == X->edgemap->perm->map[m], "product of edge maps"); CHECK(c, XY->edgemap->orient[e] == (X->edgemap->orient[m] == Y->edgemap->orient[e] ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION), "orientation of a product"); }
    for (unsigned e = 0; e < A->ncross; e++) CHECK(c, XY->crossmap->perm->map[e] == X->crossmap->perm->map[Y->crossmap->perm->map[e]], "product of crossing maps"); for (unsigned e = 0; e < A->nfaces; e++) CHECK(c, XY->facemap->perm->map[e] == X->facemap->perm->map[Y->facemap->perm->map[e]], "product of face maps");
    bool in = false; for (unsigned i = 0; i < n; i++) { bool s = same_iso(I[i], XY); in |= s; CHECK(c, (pd_iso_cmp(&I[i], &XY) == 0) == s, "comparison of isomorphisms"); } CHECK(c, in, "the product of two automorphisms is not listed");
    pd_iso_t *W = pd_copy_iso(X); CHECK(c, same_iso(W, X), "copy differs"); pd_stareq_iso(W, Y); CHECK(c, same_iso(W, XY), "in-place product differs"); pd_iso_t *a = pd_compose_isos(XY, Z), *yz = pd_compose_isos(Y, Z), *b = pd_compose_isos(X, yz); CHECK(c, same_iso(a, b), "product not associative");
    unsigned per = pd_iso_period(X); pd_iso_t *P = pd_copy_iso(X); unsigned k = 1; while (!pd_iso_is_e(P) && k < 500) { pd_stareq_iso(P, X); k++; } CHECK(c, per == k, "period %u, found %u", per, k);
    for (auto *q : {&XY, &W, &a, &yz, &b, &P}) pd_free_iso(q); }
  pd_free_isos(&n, &I); CHECK(c, n == 0 && !I, "isomorphisms not cleared"); pd_code_free(&A);
}

// a map is accepted as a certificate exactly when it is an isomorphism, however it has been altered
PROPERTY(C15, certificates, 12000, 150000, 60, "the altered map is not an isomorphism") {
  Diag D = small(c); Diag T = related(c, D, c.pick({4, 2, 2, 2, 0, 2, 2})); if (search_size(D) > 2500) c.discard("search too large"); pd_code_t *A = make_pd(c, D), *B = make_pd(c, T); string tg = random_tags(c, A->ncomps); set_tags(A, tg); if (B->ncomps == tg.size()) set_tags(B, tg); unsigned n = 0; pd_iso_t **I = pd_build_isos(A, B, &n); if (!n) { pd_code_free(&A); pd_code_free(&B); c.discard("not isomorphic"); }
  for (unsigned i = 0; i < n; i++) { bool iso = true; for (unsigned e = 0; e < A->nedges; e++) iso &= I[i]->edgemap->orient[e] == PD_POS_ORIENTATION; for (unsigned x = 0; x < A->ncross; x++) iso &= A->cross[x].sign == B->cross[I[i]->crossmap->perm->map[x]].sign; for (unsigned k = 0; k < A->ncomps; k++) iso &= A->comp[k].tag == B->comp[I[i]->compperm->map[k]].tag; CHECK(c, pd_is_diagram_isotopy(I[i], A, B) == iso && pd_diagram_isotopy_ok(I[i], A, B) == iso, "isomorphism %u of %u: called an isotopy is %d", i, n, !iso); }
  CHECK(c, pd_isos_unique(n, I), "distinct isomorphisms called repeated"); if (n > 1) { vector<pd_iso_t *> L(I, I + n); L[c.below(n)] = L[0]; auto L2 = L; bool u = true; for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) u &= L[i] != L[j]; CHECK(c, pd_isos_unique(n, L2.data()) == u, "repetition of isomorphisms reported %d", u); }
  pd_iso_t *X = pd_copy_iso(I[c.below(n)]), *X0 = pd_copy_iso(X); int steps = c.chance(1, 4) ? 2 : 1; string how;
  for (int s = 0; s < steps; s++) { auto *E = X->edgemap; pd_perm_t *P[4] = {X->compperm, E->perm, X->crossmap->perm, X->facemap->perm}; auto flip = [](pd_or_t &o) { o = o == PD_POS_ORIENTATION ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION; }; char b[60];
    switch (c.pick({5, 3, 3, 2, 2, 2, 2, 2})) {
      case 0: { int w = (int)c.below(4); unsigned m = P[w]->n; unsigned i = (unsigned)c.below(m), j = (unsigned)c.below(m); std::swap(P[w]->map[i], P[w]->map[j]); pd_regenerate_pcidx(P[w]); snprintf(b, 60, "swap %d:%u,%u ", w, i, j); break; }
      case 1: { unsigned e = (unsigned)c.below(A->nedges); flip(E->orient[e]); snprintf(b, 60, "flip edge %u ", e); break; }
      case 2: { unsigned k = (unsigned)c.below(A->ncomps); for (unsigned i = 0; i < A->comp[k].nedges; i++) flip(E->orient[A->comp[k].edge[i]]); snprintf(b, 60, "flip component %u ", k); break; }
      case 3: flip(X->crossmap->orient); snprintf(b, 60, "flip crossings "); break;
      case 4: flip(X->facemap->orient); snprintf(b, 60, "flip faces "); break;
      case 5: flip(X->facemap->orient); flip(X->crossmap->orient); snprintf(b, 60, "flip sphere "); break;
      case 6: { unsigned k = (unsigned)c.below(A->ncomps), r = (unsigned)c.below(A->comp[k].nedges); auto &K = A->comp[k]; vector<unsigned> im; for (unsigned i = 0; i < K.nedges; i++) im.push_back(E->perm->map[K.edge[i]]); for (unsigned i = 0; i < K.nedges; i++) E->perm->map[K.edge[i]] = im[(i + r) % K.nedges]; pd_regenerate_pcidx(E->perm); snprintf(b, 60, "turn component %u by %u ", k, r); break; }
      default: { unsigned k = (unsigned)c.below(A->ncomps); auto &K = A->comp[k]; vector<unsigned> im; for (unsigned i = 0; i < K.nedges; i++) im.push_back(E->perm->map[K.edge[i]]); for (unsigned i = 0; i < K.nedges; i++) { E->perm->map[K.edge[i]] = im[K.nedges - 1 - i]; flip(E->orient[K.edge[i]]); } pd_regenerate_pcidx(E->perm); snprintf(b, 60, "reverse component %u ", k); break; } }
    how += b; }
  bool agree = true; string e = iso_error(A, B, X, &agree); c.note("%s: %s -> %s", how.c_str(), show(D).c_str(), e.c_str()); c.nontrivial(!e.empty()); c.labelf("%s", e.empty() ? agree ? "isomorphism" : "disagreeing orientations" : "not an isomorphism");
  if (!e.empty()) CHECK(c, !pd_iso_consistent(A, B, X), "%s: accepted, but %s", how.c_str(), e.c_str()); else if (agree) CHECK(c, pd_iso_consistent(A, B, X), "%s: rejected, but it is an isomorphism", how.c_str());
  // comparisons of maps and of their parts
  for (unsigned i = 0; i < n && i < 6; i++) { pd_iso_t *Y = i == 0 ? X0 : I[i]; auto sgn = [](int v) { return (v > 0) - (v < 0); }; 
    bool sp[4] = {same_perm(X->compperm, Y->compperm), same_perm(X->edgemap->perm, Y->edgemap->perm), same_perm(X->crossmap->perm, Y->crossmap->perm) && X->crossmap->orient == Y->crossmap->orient, same_perm(X->facemap->perm, Y->facemap->perm) && X->facemap->orient == Y->facemap->orient}; for (unsigned k = 0; k < A->nedges; k++) sp[1] &= X->edgemap->orient[k] == Y->edgemap->orient[k];
    int f[5] = {pd_perm_cmp(&X->compperm, &Y->compperm), pd_edgemap_cmp(&X->edgemap, &Y->edgemap), pd_crossmap_cmp(&X->crossmap, &Y->crossmap), pd_facemap_cmp(&X->facemap, &Y->facemap), pd_iso_cmp(&X, &Y)}, g[5] = {pd_perm_cmp(&Y->compperm, &X->compperm), pd_edgemap_cmp(&Y->edgemap, &X->edgemap), pd_crossmap_cmp(&Y->crossmap, &X->crossmap), pd_facemap_cmp(&Y->facemap, &X->facemap), pd_iso_cmp(&Y, &X)};
    const char *nm[] = {"component permutations", "edge maps", "crossing maps", "face maps", "isomorphisms"}; bool all = true; for (int k = 0; k < 4; k++) all &= sp[k]; for (int k = 0; k < 5; k++) { bool same = k < 4 ? sp[k] : all; CHECK(c, (f[k] == 0) == same, "comparison of %s: %d, they are %s (%s)", nm[k], f[k], same ? "equal" : "different", how.c_str()); CHECK(c, sgn(f[k]) == -sgn(g[k]), "comparison of %s not antisymmetric", nm[k]); } }
  // the parts alone
  { pd_edgemap_t *E = (pd_edgemap_t *)pd_copy_edgemap(X->edgemap); pd_crossmap_t *K = (pd_crossmap_t *)pd_copy_crossmap(X->crossmap); pd_facemap_t *F = (pd_facemap_t *)pd_copy_facemap(X->facemap); CHECK(c, pd_edgemap_cmp(&E, &X->edgemap) == 0 && pd_crossmap_cmp(&K, &X->crossmap) == 0 && pd_facemap_cmp(&F, &X->facemap) == 0, "copies of maps differ"); CHECK(c, pd_edgemap_ok(E) && pd_crossmap_ok(K) && pd_facemap_ok(F), "bijections called not ok");
    int w = (int)c.below(4); unsigned at; bool changed = false; if (w == 0) { at = (unsigned)c.below(E->perm->n); E->orient[at] = PD_UNSET_ORIENTATION; changed = true; } else { pd_perm_t *p = w == 1 ? E->perm : w == 2 ? K->perm : F->perm; unsigned i = (unsigned)c.below(p->n), j = (unsigned)c.below(p->n + 1); unsigned v = j == p->n ? p->n : p->map[j]; changed = v != p->map[i]; p->map[i] = v; } bool ok = pd_edgemap_ok(E) && pd_crossmap_ok(K) && pd_facemap_ok(F); CHECK(c, ok == !changed, "a damaged map (part %d) is called ok=%d", w, ok);
    pd_free_edgemap(&E); pd_free_crossmap(&K); pd_free_facemap(&F); CHECK(c, !E && !K && !F, "not cleared"); }
  pd_free_iso(&X); pd_free_iso(&X0); pd_free_isos(&n, &I); pd_code_free(&A); pd_code_free(&B);
}
// several groups of components of equal length: chains of circles with kinks
PROPERTY(C15, groups, 160, 2000, 120, "at least three different component lengths") {
  int k = c.chance(1, 8) ? 5 : c.range(2, 4); vector<vector<int>> rot(k); for (int i = 1; i < k; i++) { int p = c.chance(2, 3) ? i - 1 : (int)c.below(i); int a = 4 * (i - 1); size_t at = c.below(rot[p].size() + 1); rot[p].insert(rot[p].begin() + at, {a, a + 2}); rot[i].insert(rot[i].end(), {a + 3, a + 1}); }
  Diag D = from_rotation(rot); if (D.pieces() != 1 || (int)D.faces().size() != D.n + 2) { fprintf(stderr, "bad chain\n"); abort(); } random_signs(c, D); bool distinct = c.chance(1, 20); int kinks = c.range(0, 4); if (distinct) { kinks = 0; for (int j = 0; j < 30; j++) { auto cs = D.comps(); std::sort(cs.begin(), cs.end(), [](const vector<int> &x, const vector<int> &y) { return x.size() < y.size(); }); size_t q = 1; while (q < cs.size() && cs[q].size() != cs[q - 1].size()) q++; if (q >= cs.size()) break; D = add_kink(D, cs[q][0], (int)c.below(2)); } } while (kinks--) D = add_kink(D, (int)c.below(4 * D.n), (int)c.below(2));
  if (search_size(D) > 130000 || D.comps().empty()) c.discard("search too large"); std::set<size_t> ls; for (auto &x : D.comps()) ls.insert(x.size()); c.nontrivial(ls.size() >= 3); c.labelf("lengths=%zu", ls.size());
  int kind = c.pick({4, 2, 3, 2, 2, 2, 0, 3, 0, 2}); Diag E = related(c, D, kind); if (search_size(E) > 130000) c.discard("search too large"); c.note("kind %d: %s | %s", kind, show(D).c_str(), show(E).c_str());
  pd_code_t *A = make_pd(c, D), *B = make_pd(c, E); Diag P = from_pd(c, A, "A"), Q = from_pd(c, B, "B"); bool want = canon_unsigned(P) == canon_unsigned(Q);
  unsigned n = 99; pd_iso_t **I = pd_build_isos(A, B, &n); CHECK(c, (n > 0) == want, "%u isomorphisms listed, isomorphic %d", n, want); for (unsigned i = 0; i < n; i++) check_iso(c, A, B, I[i], "isomorphism"); for (unsigned i = 0; i < n && n < 600; i++) for (unsigned j = 0; j < i; j++) CHECK(c, pd_iso_cmp(&I[i], &I[j]) != 0, "an isomorphism is listed twice");
  if (rigid(P)) { int k2 = count_matches(Q, code_from(P, 0, MAP), MAP) + count_matches(reflect(Q), code_from(P, 0, MAP), MAP); CHECK(c, (int)n == k2, "%u isomorphisms listed, there are %d", n, k2); } else if (want) { pd_code_t *A2 = pd_copy(A); unsigned na = 0; pd_iso_t **J = pd_build_isos(A, A2, &na); CHECK(c, na == n, "%u isomorphisms to the copy, %u to the other diagram", na, n); if (J) pd_free_isos(&na, &J); pd_code_free(&A2); }
  if (I) pd_free_isos(&n, &I); pd_code_free(&A); pd_code_free(&B);
}
// renumbering the edges of a code by an edge map: the same diagram, edge e now being the edge the map names
PROPERTY(C15, renumbering, 12000, 150000, 60, "an edge moves") {
  Diag D = random_diagram(c, 1, upto(c, 10)); pd_code_t *A = make_pd(c, D); unsigned m = A->nedges, nc = A->ncomps; vector<unsigned> pi(nc); std::iota(pi.begin(), pi.end(), 0); for (unsigned k = nc - 1; k > 0; k--) { unsigned j = (unsigned)c.below(k + 1); if (A->comp[pi[k]].nedges == A->comp[pi[j]].nedges) std::swap(pi[k], pi[j]); } int flips = c.pick({2, 1, 1}); pd_edgemap_t *E = pd_new_edgemap(&A->nedges); bool moved = false, mixed = false; string how;
  for (unsigned k = 0; k < nc; k++) { unsigned n = A->comp[k].nedges, r = (unsigned)c.below(n); bool f = flips == 1 || (flips == 2 && c.flag()); mixed |= flips == 2; how += " " + std::to_string(pi[k]) + (f ? "-" : "+") + std::to_string(r); for (unsigned i = 0; i < n; i++) { unsigned e = A->comp[k].edge[i], o = A->comp[pi[k]].edge[f ? (r + n - i) % n : (r + i) % n]; E->perm->map[e] = o; E->orient[e] = f ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION; moved |= e != o || f; } } pd_regenerate_pcidx(E->perm);
  c.nontrivial(moved); c.note("%s:%s", show(D).c_str(), how.c_str()); CHECK(c, pd_edgemap_ok(E) && pd_edgemap_consistent(A, A, E), "the edge map is called inconsistent"); pd_code_t *B = pd_copy(A); pd_apply_edgemap(B, E); check_valid(c, B, "renumbered"); CHECK(c, pd_ok(B), "renumbered code not ok"); CHECK(c, !strcmp(A->hash, B->hash), "renumbering changed the hash"); Diag P = from_pd(c, A, "old"), Q = from_pd(c, B, "new"); if (mixed) CHECK(c, canon(P, MAP) == canon(Q, MAP), "renumbering changed the shadow"); else { Diag R = flips == 1 ? reverse_all(P) : P; CHECK(c, canon(R, FULL) == canon(Q, FULL), "renumbering changed the diagram"); }
  auto cyc = [](const pd_code_t *p, unsigned x, const vector<unsigned> *to) { vector<unsigned> b; for (int r = 0; r < 4; r++) { vector<unsigned> v; for (int q = 0; q < 4; q++) { unsigned e = p->cross[x].edge[(q + r) & 3]; v.push_back(to ? (*to)[e] : e); } if (b.empty() || v < b) b = v; } return b; }; vector<unsigned> inv(m); for (unsigned e = 0; e < m; e++) inv[E->perm->map[e]] = e; std::multiset<vector<unsigned>> x, y; for (unsigned i = 0; i < A->ncross; i++) { x.insert(cyc(A, i, &inv)); y.insert(cyc(B, i, nullptr)); } CHECK(c, x == y, "the crossings are not the renumbered ones");
  pd_free_edgemap(&E); pd_code_free(&A); pd_code_free(&B);
}
// circles without crossings
PROPERTY(C15, circles, 3000, 20000, 30, "tags agree") {
  auto circ = [&](char tag) { pd_code_t *p = pd_build_unknot(0); p->comp[0].tag = tag; return p; };
  char ta = (char)('A' + c.below(26)), tb = c.flag() ? ta : (char)('A' + c.below(26)); pd_code_t *A = circ(ta), *B = circ(tb); c.nontrivial(ta == tb); c.note("circles tagged %c %c", ta, tb); Diag D = random_diagram(c, 1, 3); pd_code_t *Q = make_pd(c, D);
  CHECK(c, pd_isomorphic(A, B) && pd_isomorphic(B, A) && pd_map_isomorphic(A, B), "two circles are not called isomorphic"); CHECK(c, pd_diagram_isotopic(A, B) == (ta == tb), "circles tagged %c and %c: isotopic %d", ta, tb, ta != tb);
  unsigned n = 0; pd_iso_t **I = pd_build_isos(A, B, &n); CHECK(c, n >= 1 && I, "no isomorphism of circles"); for (unsigned i = 0; i < n; i++) { check_iso(c, A, B, I[i], "isomorphism of circles"); CHECK(c, pd_iso_consistent(A, B, I[i]), "inconsistent"); } pd_free_isos(&n, &I);
  I = pd_build_map_isomorphisms(A, B, &n); CHECK(c, n >= 1, "no map isomorphism of circles"); for (unsigned i = 0; i < n; i++) check_iso(c, A, B, I[i], "map isomorphism of circles"); pd_free_isos(&n, &I);
  I = pd_build_diagram_isotopies(A, B, &n); CHECK(c, (n >= 1) == (ta == tb), "%u isotopies of circles", n); for (unsigned i = 0; i < n; i++) { check_iso(c, A, B, I[i], "isotopy of circles"); CHECK(c, pd_is_diagram_isotopy(I[i], A, B), "a listed isotopy is not one"); } if (I) pd_free_isos(&n, &I);
  CHECK(c, !pd_isomorphic(A, Q) && !pd_isomorphic(Q, A) && !pd_map_isomorphic(A, Q) && !pd_map_isomorphic(Q, A) && !pd_diagram_isotopic(A, Q) && !pd_diagram_isotopic(Q, A), "a circle is equivalent to a diagram with crossings"); I = pd_build_isos(A, Q, &n); CHECK(c, n == 0 && !I, "isomorphisms from a circle to a diagram with crossings");
  for (auto *p : {&A, &B, &Q}) pd_code_free(p);
}

// ------------------------------------------------------------------------------------------ C14
static FILE *mem(const string &s) { FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
struct Item { vector<int> ukey; vector<int> key, full; string hash; }; // equivalence key, exact diagram
static vector<int> key_of(const Diag &D, int eq) { return eq == ISOMORPHISM ? canon_unsigned(D) : eq == DIAGRAM_ISOTOPY ? canon_isotopy(D, TAGGED) : canon(D, TAGGED); }
static void check_store(pbt::Case &c, pd_stor_t *S, const vector<Item> &M, int eq, const char *what, bool isoq) {
  CHECK(c, pd_stor_nelts(S) == M.size(), "%s: %u elements, expected %zu", what, pd_stor_nelts(S), M.size()); unsigned nh = 77, ne = 77; pd_stor_stats(S, &nh, &ne); std::set<string> hs; for (auto &m : M) hs.insert(m.hash); CHECK(c, nh == hs.size() && ne == M.size(), "%s: statistics say %u hashes %u elements, expected %zu and %zu", what, nh, ne, hs.size(), M.size());
  std::multiset<vector<int>> want, got; for (auto &m : M) want.insert(m.full); std::set<std::pair<string, pd_uid_t>> ids; string last; unsigned k = 0;
  for (pd_code_t *p = pd_stor_firstelt(S); p; p = M.empty() ? nullptr : pd_stor_nextelt(S)) { CHECK(c, ++k <= M.size(), "%s: iteration does not end", what); check_valid(c, p, what); CHECK(c, pd_ok(p), "%s: stored code not ok", what); CHECK(c, last <= p->hash, "%s: hashes out of order", what); last = p->hash; CHECK(c, ids.insert({p->hash, p->uid}).second, "%s: hash and uid repeated", what); if (p->ncross) got.insert(canon(from_pd(c, p, what), TAGGED)); else got.insert(vector<int>()); pd_code_free(&p); }
  CHECK(c, got == want, "%s: the elements found by iteration are not the ones stored", what); (void)eq;
  if (isoq) { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_display_pdstor(f, S); fclose(f); string t(b, z); free(b); std::map<string, std::pair<pd_uid_t, pd_uid_t>> R; for (auto &i : ids) { auto r = R.insert({i.first, {i.second, i.second}}); r.first->second.first = std::min(r.first->second.first, i.second); r.first->second.second = std::max(r.first->second.second, i.second); } char h[100]; snprintf(h, 100, "nelts %zu/%zu (claimed/actual) nhashes %zu", M.size(), M.size(), R.size()); CHECK(c, t.find(h) != string::npos, "%s: the summary of a store of %zu elements and %zu hashes is\n%s", what, M.size(), R.size(), t.c_str()); size_t lines = 0; for (size_t p = 0; (p = t.find("hash ", p)) != string::npos; p++) lines++; CHECK(c, lines == R.size(), "%s: %zu hashes listed of %zu", what, lines, R.size()); for (auto &r : R) { snprintf(h, 100, "hash %s uids %lu-%lu ", r.first.c_str(), (unsigned long)r.second.first, (unsigned long)r.second.second); CHECK(c, t.find(h) != string::npos, "%s: the summary misses '%s'\n%s", what, h, t.c_str()); } } }
PROPERTY(C14, histories, 4000, 60000, 60, "at least one duplicate refused and two elements stored") {
  int eq = c.range(0, 2); pd_stor_t *S = pd_new_pdstor(); vector<Item> M; vector<Diag> pool; int steps = c.range(1, pbt::g_thorough ? 60 : 25); int dup = 0; string log; vector<pd_uid_t> uid; 
  for (int s = 0; s < steps; s++) { int op = c.pick({12, 2, 2, 2});
    if (op == 0) { Diag D; if (c.chance(1, 30)) { // 0-crossing diagram
        pd_code_t *u = pd_build_unknot(0); vector<int> key = {-1}; int at = -1; if (eq != NONE) for (size_t i = 0; i < M.size(); i++) if (M[i].key == key) at = (int)i; pd_addto_pdstor(S, u, (pd_equivalence_t)eq); if (at < 0) { Item it; it.key = key; it.full = {}; it.hash = u->hash; M.push_back(it); uid.push_back(u->uid); } else { dup++; CHECK(c, u->uid == uid[at], "uid of a duplicate"); } pd_code_free(&u); log += "U"; continue; }
      if (pool.empty() || c.chance(1, 3)) { for (int i = 0;; i++) { D = random_diagram(c, 1, i > 3 ? 3 : c.chance(1, 12) ? 25 : 6); if (search_size(D) <= 800 || i > 6) break; } if (c.chance(1, 8)) for (auto &x : D.sign) x = 2; pool.push_back(D); } else { Diag P = pool[c.below(pool.size())]; int kind = c.pick({3, 2, 3, 2, 2, 1, 2, 2, 1, 0}); bool uns = false; for (int x : P.sign) uns |= x == 2; if (uns && (kind == 4 || kind == 7)) kind = 0; D = related(c, P, kind); if (search_size(D) > 2000) continue; }
      pd_code_t *A = make_pd(c, D); Diag P = from_pd(c, A, "new"); Item it; it.key = key_of(P, eq); it.full = canon(P, TAGGED); it.ukey = canon_unsigned(P); if (c.flag()) A->uid = c.range(1, 9); it.hash = A->hash; int at = -1; if (eq != NONE) for (size_t i = 0; i < M.size(); i++) if (M[i].key == it.key) at = (int)i;
      string before = pd_dump(A); pd_uid_t u0 = A->uid; pd_addto_pdstor(S, A, (pd_equivalence_t)eq); 
      if (at < 0) { log += "+"; for (size_t i = 0; i < M.size(); i++) CHECK(c, !(M[i].hash == it.hash && uid[i] == A->uid), "a new element got the uid %ld of another with the same hash", (long)A->uid); M.push_back(it); uid.push_back(A->uid); } else { log += "="; dup++; CHECK(c, A->uid == uid[at] && M[at].hash == A->hash, "duplicate got uid %ld, the stored one has %ld", (long)A->uid, (long)uid[at]); }
      A->uid = u0; CHECK(c, pd_dump(A) == before, "storing changed the code"); pd_code_free(&A); CHECK(c, pd_stor_nelts(S) == M.size(), "after %s: %u elements, expected %zu", log.c_str(), pd_stor_nelts(S), M.size()); }
    else if (op == 1) { log += "i"; check_store(c, S, M, eq, "iteration", false); }
    else if (op == 2 && !pool.empty()) { log += "s"; Diag D = related(c, pool[c.below(pool.size())], c.pick({3, 2, 2, 2, 0, 0, 0, 0, 1, 2})); if (search_size(D) > 2000) continue; pd_code_t *A = make_pd(c, D); auto key = canon_unsigned(from_pd(c, A, "query")); std::set<vector<int>> have; 
      bool there = false; for (size_t i = 0; i < M.size() && !there; i++) if (M[i].hash == A->hash) { // does the stored diagram have this unsigned type?
          there = M[i].ukey == key; }
      pd_iso_t **I = nullptr; unsigned n = 5; pd_code_t *R = pd_search_pdstor_by_isomorphism(S, A, &I, &n); CHECK(c, (R != nullptr) == there, "search %s an isomorphic code", there ? "missed" : "invented");
      if (R) { CHECK(c, n > 0 && I, "found without isomorphisms"); for (unsigned i = 0; i < n; i++) check_iso(c, A, R, I[i], "search result"); CHECK(c, canon_unsigned(from_pd(c, R, "found")) == key, "search returned something else"); pd_free_isos(&n, &I); pd_code_free(&R); } else CHECK(c, n == 0 && !I, "isomorphisms without a result"); pd_code_free(&A); }
    else if (op == 3 && !M.empty()) { log += "p"; pd_code_t *p = pd_stor_firstelt(S); pd_code_free(&p); } // leaves an iteration half done
  }
  check_store(c, S, M, eq, "final", true);
  // files: written elements come back, and reading under a coarser relation merges exactly the equivalent ones
  char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_write_pdstor(f, S); fclose(f); string file(b, z); free(b); vector<Diag> stored; bool unk = false; for (pd_code_t *p = pd_stor_firstelt(S); p; p = pd_stor_nextelt(S)) { if (p->ncross) stored.push_back(from_pd(c, p, "stored")); else unk = true; pd_code_free(&p); }
  int eq2 = c.range(0, 2); std::map<vector<int>, int> classes; std::multiset<vector<int>> all; int nu = 0; for (auto &m : M) nu += m.full.empty(); for (auto &D : stored) { classes[key_of(D, eq2)]++; all.insert(canon(D, TAGGED)); }
  size_t want = eq2 == NONE ? M.size() : classes.size() + (unk ? 1 : 0); f = mem(file); pd_stor_t *T = pd_read_pdstor(f, (pd_equivalence_t)eq2); fclose(f); CHECK(c, T, "the store is not read back"); CHECK(c, pd_stor_nelts(T) == want, "%u elements read, expected %zu", pd_stor_nelts(T), want); if (eq2 == NONE) check_store(c, T, M, NONE, "read back", false); else { std::set<vector<int>> seen; for (pd_code_t *p = pd_stor_firstelt(T); p; p = pd_stor_nextelt(T)) { auto k = p->ncross ? key_of(from_pd(c, p, "read"), eq2) : vector<int>{-1}; CHECK(c, seen.insert(k).second, "equivalent elements after reading"); pd_code_free(&p); } CHECK(c, seen.size() == want, "classes lost in reading"); } pd_free_pdstor(&T);
  // cut anywhere before the last element is complete: refused, never a partial store or a crash
  if (!M.empty() && c.chance(1, 3)) { size_t end = file.find_last_not_of(" \n\t"); string cut = file.substr(0, c.below(end)); f = mem(cut); T = pd_read_pdstor(f, NONE); fclose(f); if (T) { CHECK(c, file.compare(cut.size(), string::npos, "") == 0 || isalnum((unsigned char)file[cut.size()]), "a truncated store was read (%zu of %zu bytes)", cut.size(), file.size()); pd_free_pdstor(&T); } }
  // header: counts that disagree are refused, an open count ("?") reads to the end of the file
  if (c.chance(1, 3)) { size_t nl = file.find('\n', file.find('\n') + 1); char h[200]; int d = c.flag() ? 1 : -1; int m = (int)M.size(); if (m + d >= 0) { snprintf(h, 200, "pdstor \nnelts %d/%d (claimed/actual) nhashes 1", m, m + d); f = mem(h + file.substr(nl)); T = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, !T, "a store whose header says %d/%d elements was read", m, m + d); }
    snprintf(h, 200, "pdstor \nnelts %d/%d (claimed/actual) nhashes 1", m + 1, m + 1); f = mem(h + file.substr(nl)); T = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, !T, "a store with a missing element was read");
    f = mem("pdstor\nnelts ?/? (claimed/actual) nhashes ?" + file.substr(nl)); T = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, T, "a store with an open count is not read"); check_store(c, T, M, NONE, "read with an open count", false); pd_free_pdstor(&T); }
  // incremental files
  if (c.chance(1, 3)) { FILE *g = tmpfile(); pd_start_incremental_pdstor(g); unsigned nh = 0, ne = 0, k = (unsigned)c.range(1, 3); for (unsigned i = 0; i < k; i++) pd_addto_incremental_pdstor(g, S, &nh, &ne); if (M.size()) { pd_finish_incremental_pdstor(g, nh, ne); CHECK(c, ne == k * M.size(), "incremental count %u", ne); { unsigned h1 = 0, e1 = 0; pd_stor_stats(S, &h1, &e1); CHECK(c, nh == k * h1, "incremental hash count %u, %u stores of %u", nh, k, h1); } rewind(g); T = pd_read_pdstor(g, NONE); CHECK(c, T && pd_stor_nelts(T) == k * M.size(), "incremental file has %d elements, expected %zu", T ? (int)pd_stor_nelts(T) : -1, k * M.size()); pd_free_pdstor(&T); } fclose(g); }
  c.nontrivial(dup > 0 && M.size() > 1); c.labelf("relation=%d", eq); c.note("relation %d: %s, %zu stored", eq, log.c_str(), M.size()); pd_free_pdstor(&S); CHECK(c, !S, "store not cleared");
}
// many elements under one hash: sign variants of one shadow
PROPERTY(C14, crowded, 1200, 6000, 60, "at least 10 elements under one hash") {
  Diag D; for (int i = 0;; i++) { D = i > 4 ? random_shadow(c, 4) : random_shadow(c, c.range(4, 7)); if (search_size(D) <= 400 || i > 8) break; } if (search_size(D) > 2000) c.discard("search too large"); D.orient([&](int) { return c.flag(); }); int eq = c.pick({1, 1, 4}); eq = eq == 0 ? NONE : eq == 1 ? ISOMORPHISM : DIAGRAM_ISOTOPY; pd_stor_t *S = pd_new_pdstor(); std::map<vector<int>, pd_uid_t> have; std::set<pd_uid_t> ids; vector<Item> M; int k = c.range(10, 70), dup = 0; c.note("%d insertions under relation %d: %s", k, eq, show(D).c_str());
  for (int i = 0; i < k; i++) { Diag E = D; for (auto &x : E.sign) x = (int)c.below(2); if (c.chance(1, 3)) E = relabel(c, E); if (c.chance(1, 6)) E = turn_over(E); pd_code_t *A = make_pd(c, E); Item it; Diag P = from_pd(c, A, "new"); it.key = key_of(P, eq); it.full = canon(P, TAGGED); it.ukey = canon_unsigned(P); it.hash = A->hash; pd_addto_pdstor(S, A, (pd_equivalence_t)eq); auto h = have.find(it.key); if (eq == NONE || h == have.end()) { CHECK(c, ids.insert(A->uid).second, "insertion %d: the uid %lu is taken", i, (unsigned long)A->uid); have[it.key] = A->uid; M.push_back(it); } else { dup++; CHECK(c, h->second == A->uid, "insertion %d: a duplicate of uid %lu got uid %lu", i, (unsigned long)h->second, (unsigned long)A->uid); } pd_code_free(&A); CHECK(c, pd_stor_nelts(S) == M.size(), "insertion %d: %u elements, expected %zu", i, pd_stor_nelts(S), M.size()); }
  check_store(c, S, M, eq, "crowded", true); c.nontrivial(M.size() >= 10); c.labelf("elements=%zu", M.size() / 10 * 10); (void)dup;
  char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_write_pdstor(f, S); fclose(f); f = mem(string(b, z)); free(b); pd_stor_t *T = pd_read_pdstor(f, (pd_equivalence_t)eq); fclose(f); CHECK(c, T, "not read back"); check_store(c, T, M, eq, "crowded, read back", false); pd_free_pdstor(&T); pd_free_pdstor(&S);
}
// large stores of small diagrams survive a file
PROPERTY(C14, large, 120, 500, 60, "more than 64 elements") {
  pd_stor_t *S = pd_new_pdstor(); vector<Item> M; int k = c.range(1, 400); c.nontrivial(k > 64); c.note("%d diagrams", k); for (int i = 0; i < k; i++) { Diag D = random_diagram(c, 1, c.chance(1, 40) ? 24 : 5); pd_code_t *A = make_pd(c, D); Item it; it.full = canon(from_pd(c, A, "new"), TAGGED); it.hash = A->hash; M.push_back(it); pd_addto_pdstor(S, A, NONE); pd_code_free(&A); }
  check_store(c, S, M, NONE, "large", true); char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_write_pdstor(f, S); fclose(f); string s(b, z); free(b); f = mem(s); pd_stor_t *T = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, T, "not read back"); check_store(c, T, M, NONE, "large, read back", false); pd_free_pdstor(&T);
  size_t nl = s.find('\n', s.find('\n') + 1); f = mem("pdstor\nnelts ?/? (claimed/actual) nhashes ?" + s.substr(nl)); T = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, T, "a store with an open count is not read"); check_store(c, T, M, NONE, "large, open count", false); pd_free_pdstor(&T); pd_free_pdstor(&S);
}
// diagrams with many symmetries are found again
PROPERTY(C14, symmetric, 3000, 8000, 60, "at least 4 isomorphisms") {
  pd_stor_t *S = pd_new_pdstor(); vector<Diag> L; int k = c.range(1, 4); for (int i = 0; i < k; i++) { Diag D = symmetric_shadow(c, 10); random_signs(c, D); if (search_size(D) > 4000) continue; L.push_back(D); pd_code_t *A = make_pd(c, relabel(c, D)); pd_addto_pdstor(S, A, ISOMORPHISM); pd_code_free(&A); } if (L.empty()) { pd_free_pdstor(&S); c.discard("search too large"); }
  Diag Q = L[c.below(L.size())]; if (c.flag()) Q = reflect(Q); c.note("%s", show(Q).c_str()); Q = relabel(c, Q); pd_code_t *A = make_pd(c, Q); auto key = canon_unsigned(from_pd(c, A, "query")); pd_iso_t **I = nullptr; unsigned n = 5; pd_code_t *R = pd_search_pdstor_by_isomorphism(S, A, &I, &n); CHECK(c, R && n > 0 && I, "an isomorphic code is not found"); c.nontrivial(n >= 4); c.labelf("isomorphisms=%u", n); for (unsigned i = 0; i < n; i++) check_iso(c, A, R, I[i], "search result"); CHECK(c, canon_unsigned(from_pd(c, R, "found")) == key, "search returned something else");
  if (rigid(Q)) { int w = count_matches(Q, canon(Q, MAP), MAP) + (canon(Q, MAP) == canon(reflect(Q), MAP) ? count_matches(Q, canon(Q, MAP), MAP) : 0); CHECK(c, (int)n == w, "%u isomorphisms, expected %d", n, w); }
  pd_free_isos(&n, &I); unsigned before = pd_stor_nelts(S); pd_uid_t u = R->uid; pd_addto_pdstor(S, A, ISOMORPHISM); CHECK(c, pd_stor_nelts(S) == before && A->uid == u, "storing an isomorphic code again: %u elements, uid %lu", pd_stor_nelts(S), (unsigned long)A->uid); pd_code_free(&R); pd_code_free(&A); pd_free_pdstor(&S);
}
