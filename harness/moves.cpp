// C16 Reidemeister moves; C17 connected sums; C20 simplification.
#include "model_moves.hpp"
using namespace dg;
static const Deco FULL{true, true, false}, TAGGED{true, true, true};
static void set_tags(pbt::Case &c, pd_code_t *pd) { vector<char> t; for (char x = 'A'; x <= 'Z'; x++) t.push_back(x); for (int i = 25; i > 0; i--) std::swap(t[i], t[c.below(i + 1)]); if (pd->ncomps <= 26) for (unsigned k = 0; k < pd->ncomps; k++) pd->comp[k].tag = t[k]; }
static int dart_of(const pd_code_t *pd, unsigned f, unsigned i) { const pd_edge_t &E = pd->edge[pd->face[f].edge[i]]; return pd->face[f].orient[i] == PD_POS_ORIENTATION ? 4 * E.tail + E.tailpos : 4 * E.head + E.headpos; }
static void maybe_unset(pbt::Case &c, Diag &D) { if (c.chance(1, 5)) for (auto &s : D.sign) s = 2; }
static string key0(const Diag &D, const char *) { return show(D); }
static bool level_over(const Diag &D, int d) { int oi, oo, ui, uo; D.strands(d / 4, oi, oo, ui, uo); return d == oi || d == oo; }

PROPERTY(C16, r1_deletion, 20000, 300000, 60, "at least 3 crossings") {
  Diag B = random_diagram(c, 1, upto(c, 8)); int k = c.range(0, 2); while (k--) B = add_kink(B, c.below(4 * B.n), c.below(2)); maybe_unset(c, B); pd_code_t *pd = make_pd(c, B); if (c.flag()) set_tags(c, pd); Diag P = from_pd(c, pd, "pd"); vector<int> at; for (int d = 0; d < 4 * P.n; d++) if (P.mate[d] == Diag::ccw(d)) at.push_back(d / 4); if (at.empty()) c.discard("no kink"); int x = c.of(at); c.nontrivial(P.n >= 3); c.note("crossing %d of %s", x, show(P).c_str());
  string t = pd_dump(pd); pd_code_t *q = pd_R1_loopdeletion(pd, x); CHECK(c, pd_dump(pd) == t, "the input changed"); check_valid(c, q, "after the move"); CHECK(c, pd_ok(q), "result not ok"); Pieces W = remove_crossings(P, {x});
  if (W.parts.empty()) CHECK(c, q->ncross == 0 && q->comp[0].tag == pd->comp[0].tag, "the one-crossing diagram did not become a circle with its tag"); else { CHECK(c, W.parts.size() == 1, "model"); CHECK(c, canon(from_pd(c, q, "result"), TAGGED) == canon(W.parts[0], TAGGED), "wrong diagram after removing a kink: %s", show(from_pd(c, q, "r")).c_str()); }
  pd_code_free(&pd); pd_code_free(&q);
}
PROPERTY(C16, r1_addition, 20000, 300000, 60, "at least 2 crossings") {
  if (c.chance(1, 100)) { pd_code_t *u = pd_build_unknot(0); set_tags(c, u); u->uid = c.below(9); string t = pd_dump(u); pd_code_t *q = pd_R1_loop_addition(u, c.below(2), 0); CHECK(c, pd_dump(u) == t, "the input changed"); check_valid(c, q, "after the move"); CHECK(c, pd_ok(q) && q->ncross == 1 && q->ncomps == 1, "a kink in a circle gives %u crossings", q->ncross); pd_code_free(&u); pd_code_free(&q); return; }
  Diag B = random_diagram(c, 1, upto(c, 9)); maybe_unset(c, B); pd_code_t *pd = make_pd(c, B); Diag P = from_pd(c, pd, "pd"); unsigned f = c.below(pd->nfaces), i = c.below(pd->face[f].nedges); c.nontrivial(P.n >= 2); c.note("edge %u of face %u of %s", i, f, show(P).c_str());
  string t = pd_dump(pd); pd_code_t *q = pd_R1_loop_addition(pd, f, i); CHECK(c, pd_dump(pd) == t, "the input changed"); check_valid(c, q, "after the move"); CHECK(c, pd_ok(q), "result not ok"); Diag W = add_kink(P, dart_of(pd, f, i)); CHECK(c, canon(from_pd(c, q, "result"), FULL) == canon(W, FULL), "wrong diagram after adding a kink: %s", show(from_pd(c, q, "r")).c_str());
  // and the kink can be removed again
  Diag Q = from_pd(c, q, "result"); vector<int> at; for (int d = 0; d < 4 * Q.n; d++) if (Q.mate[d] == Diag::ccw(d) && Q.sign[d / 4] == 2) at.push_back(d / 4); bool back = at.size() > 6; if (!back) for (int x : at) { pd_code_t *r = pd_R1_loopdeletion(q, x); if (r->ncross) back |= canon(from_pd(c, r, "back"), FULL) == canon(P, FULL); pd_code_free(&r); if (back) break; } CHECK(c, back, "no kink of the result leads back");
  pd_code_free(&pd); pd_code_free(&q);
}
static void check_pieces(pbt::Case &c, const Pieces &W, vector<pd_code_t *> got, Deco k) {
  std::multiset<vector<int>> a, b; for (auto &D : W.parts) a.insert(canon(D, k)); for (int t : W.circles) a.insert({-9, k.tag ? t : 0}); for (auto *q : got) { check_valid(c, q, "piece"); CHECK(c, pd_ok(q), "piece not ok"); if (q->ncross) b.insert(canon(from_pd(c, q, "piece"), k)); else b.insert({-9, k.tag ? (unsigned char)q->comp[0].tag : 0}); }
  string s; for (auto *q : got) s += q->ncross ? show(from_pd(c, q, "p")) + string(" tags ") + string(1, q->comp[0].tag) + " ; " : string("circle ") + q->comp[0].tag + " ; "; string w; for (auto &D : W.parts) w += show(D) + " ; "; for (int t : W.circles) w += string("circle ") + (char)t + " ; ";
  CHECK(c, a == b, "wrong pieces: got %s expected %s", s.c_str(), w.c_str()); }
PROPERTY(C16, r2_elimination, 25000, 400000, 60, "at least 4 crossings") {
  Diag B = random_diagram(c, c.flag() ? 1 : 2, upto(c, 8)); bool uns = c.chance(1, 4); int k = c.range(0, 2); while (k--) { auto fs = B.faces(); auto &F = fs[c.below(fs.size())]; if (F.size() < 2) continue; int d1 = F[c.below(F.size())], d2 = F[c.below(F.size())]; if (d1 == d2 || B.mate[d1] == d2) continue; Diag E = add_bigon(B, d1, d2, 0, 1); if (level_over(E, E.n * 4 - 8) != level_over(E, E.n * 4 - 4)) { E = add_bigon(B, d1, d2, 0, 0); } if (c.flag()) { E.sign[E.n - 1] ^= 1; E.sign[E.n - 2] ^= 1; } B = E; }
  if (c.chance(1, 3)) B = relabel(c, B); if (uns) for (auto &s : B.sign) s = 2; pd_code_t *pd = make_pd(c, B); if (c.flag()) set_tags(c, pd); Diag P = from_pd(c, pd, "pd"); vector<int> at; for (int d = 0; d < 4 * P.n; d++) { int m = Diag::cw(P.mate[d]); if (m == d || m / 4 == d / 4 || Diag::cw(P.mate[m]) != d) continue; // bigon d, m
    if (!uns) { if (level_over(P, d) != level_over(P, P.mate[d]) || level_over(P, m) != level_over(P, P.mate[m])) continue; } at.push_back(d); }
  if (at.empty()) c.discard("no bigon"); int d = c.of(at); pd_idx_t cr[2] = {(pd_idx_t)(d / 4), (pd_idx_t)(P.mate[d] / 4)}; if (c.flag()) std::swap(cr[0], cr[1]); c.nontrivial(P.n >= 4); c.note("crossings %u %u of %s", cr[0], cr[1], show(P).c_str()); std::set<int> S = {(int)cr[0], (int)cr[1]}; int top = -1; if (!uns) { int over = level_over(P, d) ? d : Diag::cw(P.mate[d]); top = P.tag[over]; }
  string t = pd_dump(pd); pd_idx_t n = 99; pd_code_t **out = nullptr; pd_R2_bigon_elimination(pd, cr, &n, &out); CHECK(c, pd_dump(pd) == t, "the input changed"); Pieces W = remove_crossings(P, S); CHECK(c, n == W.parts.size() + W.circles.size(), "%u pieces, expected %zu", n, W.parts.size() + W.circles.size()); c.labelf("pieces=%u", n); vector<pd_code_t *> g(out, out + n); check_pieces(c, W, g, TAGGED);
  if (n == 2 && top >= 0) { bool there = false; for (unsigned k2 = 0; k2 < g[0]->ncomps; k2++) there |= (unsigned char)g[0]->comp[k2].tag == top; CHECK(c, there, "the first piece is not the one of the upper strand"); }
  for (auto *q : g) pd_code_free(&q); free(out); pd_code_free(&pd);
}
PROPERTY(C16, r2_addition, 20000, 300000, 60, "at least 2 crossings") {
  Diag B = random_diagram(c, 1, upto(c, 9)); maybe_unset(c, B); pd_code_t *pd = make_pd(c, B); Diag P = from_pd(c, pd, "pd"); unsigned f = c.below(pd->nfaces); unsigned n = pd->face[f].nedges; if (n < 2) c.discard("monogon"); unsigned i = c.below(n), j = c.below(n); if (pd->face[f].edge[i] == pd->face[f].edge[j]) c.discard("one edge"); c.nontrivial(P.n >= 2); c.note("edges %u %u of face %u of %s", i, j, f, show(P).c_str());
  string t = pd_dump(pd); pd_code_t *q = pd_R2_bigon_addition(pd, f, i, j, c.flag() ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION); CHECK(c, pd_dump(pd) == t, "the input changed"); check_valid(c, q, "after the move"); CHECK(c, pd_ok(q), "result not ok"); Diag W = add_bigon(P, dart_of(pd, f, i), dart_of(pd, f, j)); CHECK(c, canon(from_pd(c, q, "result"), FULL) == canon(W, FULL), "wrong diagram after adding a bigon: %s", show(from_pd(c, q, "r")).c_str());
  pd_code_free(&pd); pd_code_free(&q);
}
static bool is_triangle(const Diag &P, int d, vector<int> &t) { t = {d}; for (int i = 0; i < 2; i++) t.push_back(Diag::cw(P.mate[t.back()])); return Diag::cw(P.mate[t[2]]) == d && t[0] / 4 != t[1] / 4 && t[1] / 4 != t[2] / 4 && t[0] / 4 != t[2] / 4; }
PROPERTY(C16, r3_flip, 25000, 400000, 60, "at least 4 crossings") {
  Diag B = random_diagram(c, 3, upto(c, 10)); maybe_unset(c, B); pd_code_t *pd = make_pd(c, B); Diag P = from_pd(c, pd, "pd"); vector<unsigned> at, no; for (unsigned f = 0; f < pd->nfaces; f++) { vector<int> t; if (pd->face[f].nedges != 3) no.push_back(f); else if (is_triangle(P, dart_of(pd, f, 0), t)) at.push_back(f); } if (at.empty()) c.discard("no triangle"); unsigned f = c.of(at); vector<int> t; is_triangle(P, dart_of(pd, f, 0), t); c.nontrivial(P.n >= 4); c.note("face %u of %s", f, show(P).c_str());
  string tx = pd_dump(pd); pd_code_t *q = pd_R3_triangle_flip(pd, f); CHECK(c, pd_dump(pd) == tx, "the input changed"); CHECK(c, q, "no result"); check_valid(c, q, "after the move"); CHECK(c, pd_ok(q), "result not ok"); Diag W = flip_triangle(P, t); CHECK(c, canon(from_pd(c, q, "result"), FULL) == canon(W, FULL), "wrong diagram after flipping a triangle: %s", show(from_pd(c, q, "r")).c_str());
  if (!no.empty()) { pd_code_t *z = pd_R3_triangle_flip(pd, c.of(no)); CHECK(c, !z, "a face that is no triangle was flipped"); }
  pd_code_free(&pd); pd_code_free(&q);
}
// histories of shadow moves: every intermediate diagram is the modelled one
PROPERTY(C16, histories, 6000, 100000, 60, "at least 4 moves") {
  Diag B = random_diagram(c, 1, 5); for (auto &s : B.sign) s = 2; pd_code_t *pd = make_pd(c, B); int n = c.range(1, 8); string log; int done = 0;
  for (int k = 0; k < n; k++) { Diag P = from_pd(c, pd, "pd"); pd_code_t *q = nullptr; Diag W; switch (c.range(0, 4)) {
      case 0: { vector<int> at; for (int d = 0; d < 4 * P.n; d++) if (P.mate[d] == Diag::ccw(d)) at.push_back(d / 4); if (at.empty() || P.n < 2) continue; int x = c.of(at); q = pd_R1_loopdeletion(pd, x); auto R = remove_crossings(P, {x}); W = R.parts[0]; log += "-1"; break; }
      case 1: { unsigned f = c.below(pd->nfaces), i = c.below(pd->face[f].nedges); q = pd_R1_loop_addition(pd, f, i); W = add_kink(P, dart_of(pd, f, i)); log += "+1"; break; }
      case 2: { vector<int> at; for (int d = 0; d < 4 * P.n; d++) { int m = Diag::cw(P.mate[d]); if (m != d && m / 4 != d / 4 && Diag::cw(P.mate[m]) == d) at.push_back(d); } if (at.empty()) continue; int d = c.of(at); pd_idx_t cr[2] = {(pd_idx_t)(d / 4), (pd_idx_t)(P.mate[d] / 4)}; pd_idx_t no; pd_code_t **out; pd_R2_bigon_elimination(pd, cr, &no, &out); auto R = remove_crossings(P, {d / 4, P.mate[d] / 4}); vector<pd_code_t *> g(out, out + no); check_pieces(c, R, g, FULL); for (auto *x : g) if (!q && x->ncross) { q = x; } else pd_code_free(&x); free(out); if (!q) { goto end; } W = from_pd(c, q, "piece"); log += "-2"; break; }
      case 3: { unsigned f = c.below(pd->nfaces), m = pd->face[f].nedges, i = c.below(m), j = c.below(m); if (pd->face[f].edge[i] == pd->face[f].edge[j] || P.n > 30) continue; q = pd_R2_bigon_addition(pd, f, i, j, PD_POS_ORIENTATION); W = add_bigon(P, dart_of(pd, f, i), dart_of(pd, f, j)); log += "+2"; break; }
      case 4: { vector<unsigned> at; vector<int> t; for (unsigned f = 0; f < pd->nfaces; f++) if (pd->face[f].nedges == 3 && is_triangle(P, dart_of(pd, f, 0), t)) at.push_back(f); if (at.empty()) continue; unsigned f = c.of(at); is_triangle(P, dart_of(pd, f, 0), t); q = pd_R3_triangle_flip(pd, f); W = flip_triangle(P, t); log += "=3"; break; } }
    done++; check_valid(c, q, "after a move"); CHECK(c, pd_ok(q), "not ok after %s", log.c_str()); CHECK(c, canon(from_pd(c, q, "result"), FULL) == canon(W, FULL), "wrong diagram after %s from %s", log.c_str(), show(P).c_str()); pd_code_free(&pd); pd = q; }
end: c.nontrivial(done >= 4); c.note("%s: %s", show(B).c_str(), log.c_str()); pd_code_free(&pd);
}

// ------------------------------------------------------------------------------------------ C17
PROPERTY(C17, pairs, 60000, 500000, 60, "both summands have at least 2 crossings") {
  auto mk = [&](Diag &D) -> pd_code_t * { if (c.chance(1, 12)) { D = Diag(); pd_code_t *u = pd_build_unknot(0); set_tags(c, u); return u; } D = random_diagram(c, 1, upto(c, 7)); maybe_unset(c, D); pd_code_t *p = make_pd(c, D); if (c.flag()) set_tags(c, p); D = from_pd(c, p, "summand"); return p; }; Diag A, B; pd_code_t *pa = mk(A), *pb = c.chance(1, 15) ? nullptr : mk(B); if (!pb) { pb = pa; B = A; } if (pa->ncomps + pb->ncomps > 63) c.discard("more components than there are one-character tags"); unsigned ea = c.below(pa->nedges), eb = c.below(pb->nedges); c.nontrivial(A.n >= 2 && B.n >= 2); c.note("edge %u of %s with edge %u of %s", ea, show(A).c_str(), eb, show(B).c_str());
  string ta = pd_dump(pa), tb = pd_dump(pb); pd_code_t *q = pd_connect_sum(pa, ea, pb, eb); CHECK(c, pd_dump(pa) == ta && pd_dump(pb) == tb, "a summand changed"); check_valid(c, q, "sum"); CHECK(c, pd_ok(q), "sum not ok");
  auto dart = [](pd_code_t *p, unsigned e) { return 4 * (int)p->edge[e].tail + (int)p->edge[e].tailpos; };
  if (!A.n && !B.n) CHECK(c, q->ncross == 0 && (q->comp[0].tag == pa->comp[0].tag || q->comp[0].tag == pb->comp[0].tag), "sum of circles has crossings"); else { Diag W = !A.n ? B : !B.n ? A : connect_sum(A, dart(pa, ea), B, dart(pb, eb)); bool allun = true; for (int s : W.sign) allun &= s == 2; Deco k = !A.n || !B.n ? TAGGED : allun ? Deco{false, false, false} : FULL; CHECK(c, canon(from_pd(c, q, "sum"), k) == canon(W, k), "wrong sum: %s", show(from_pd(c, q, "sum")).c_str()); }
  if (pb != pa) pd_code_free(&pb); pd_code_free(&pa); pd_code_free(&q);
}
// ------------------------------------------------------------------------------------------ C20
PROPERTY(C20, kinks, 160000, 480000, 60, "at least one kink removed and a crossing left") {
  Diag B = random_diagram(c, 1, upto(c, 8)); int k = c.range(0, 6); while (k--) { int d = c.below(4 * B.n); B = add_kink(B, d, c.below(2)); } maybe_unset(c, B); pd_code_t *pd = make_pd(c, B); if (c.flag()) set_tags(c, pd); Diag P = from_pd(c, pd, "pd"), W = P; bool circle = false; int removed = 0;
  for (;;) { vector<int> at; for (int d = 0; d < 4 * W.n; d++) if (W.mate[d] == Diag::ccw(d)) at.push_back(d / 4); if (at.empty()) break; auto R = remove_crossings(W, {at.back()}); removed++; if (R.parts.empty()) { circle = true; break; } W = R.parts[0]; }
  c.nontrivial(removed && !circle); c.note("%s", show(P).c_str()); string t = pd_dump(pd); pd_code_t *q = pd_simplify(pd); CHECK(c, pd_dump(pd) == t, "the input changed"); check_valid(c, q, "simplified"); CHECK(c, pd_ok(q), "simplified code not ok"); if (circle) CHECK(c, q->ncross == 0 && q->comp[0].tag == pd->comp[0].tag, "%u crossings left of an unknot made of kinks, tag %c", q->ncross, q->comp[0].tag); else CHECK(c, canon(from_pd(c, q, "simplified"), TAGGED) == canon(W, TAGGED), "simplified to a different diagram: %s", q->ncross ? show(from_pd(c, q, "s")).c_str() : "circle");
  pd_code_t *r = pd_simplify(q); CHECK(c, r->ncross == q->ncross && (q->ncross ? pd_dump(r) == pd_dump(q) : r->comp[0].tag == q->comp[0].tag), "simplifying again changes the diagram"); pd_code_free(&r); pd_code_free(&q); pd_code_free(&pd);
}

// ---------------------------------------------------------------- C37: splitting a disconnected diagram
extern "C" {
#include "pd_splitdiagram.h"
}
PROPERTY(C37, split, 80000, 300000, 60, "at least two pieces, one with 3 or more crossings") {
  int k = c.range(0, 4), m = c.range(0, 3); if (k + m == 0) k = 1; vector<Diag> piece; int n = 0; bool three = false; size_t nc = m; string tags; for (int i = 0; i < 200 - 65; i++) tags += (char)('A' + i % 60); tags.resize(60); for (int i = 59; i > 0; i--) std::swap(tags[i], tags[c.below(i + 1)]); size_t nt = 0;
  std::multiset<vector<int>> want; for (int i = 0; i < k; i++) { Diag D = random_diagram(c, 1, c.chance(1, 30) ? 30 : 6); if (c.chance(1, 4)) for (auto &s : D.sign) s = (int)c.below(3); auto cs = D.comps(); if (nc + cs.size() > 55) { continue; } nc += cs.size(); D.tag.assign(4 * D.n, 0); for (auto &v : cs) { for (int d : v) D.tag[d] = D.tag[D.mate[d]] = (unsigned char)tags[nt]; nt++; } want.insert(canon(D, TAGGED)); three |= D.n >= 3; n += D.n; piece.push_back(D); c.note("%s", show(D).c_str()); }
  vector<char> circ; for (int i = 0; i < m; i++) { circ.push_back(tags[nt++]); want.insert({-7, circ.back()}); } c.note("%d circles", m); c.nontrivial(piece.size() + m >= 2 && three); c.labelf("pieces=%zu", piece.size()); c.labelf("circles=%d", m);
  // the union, crossings permuted and rotated, edges and components numbered at random; faces left out
  Diag U; U.n = n; for (auto &D : piece) { int o = (int)U.mate.size(); for (int d = 0; d < 4 * D.n; d++) { U.mate.push_back(D.mate[d] + o); U.out.push_back(D.out[d]); U.tag.push_back(D.tag[d]); } for (int s : D.sign) U.sign.push_back(s); } if (n) U = relabel(c, U);
  int E = 2 * n + m; pd_code_t *pd = pd_code_new(n + 2 * (m + (int)nc) + 2); vector<int> id(E); std::iota(id.begin(), id.end(), 0); for (int i = E - 1; i > 0; i--) std::swap(id[i], id[c.below(i + 1)]); pd->ncross = n; pd->nedges = E; vector<int> eo(4 * n); int z = 0; for (int d = 0; d < 4 * n; d++) if (U.out[d]) { int e = id[z++]; eo[d] = eo[U.mate[d]] = e; pd->edge[e].tail = d / 4; pd->edge[e].tailpos = d & 3; pd->edge[e].head = U.mate[d] / 4; pd->edge[e].headpos = U.mate[d] & 3; }
  for (int i = 0; i < n; i++) { for (int p = 0; p < 4; p++) pd->cross[i].edge[p] = eo[4 * i + p]; pd->cross[i].sign = U.sign[i] == 1 ? PD_POS_ORIENTATION : U.sign[i] == 0 ? PD_NEG_ORIENTATION : PD_UNSET_ORIENTATION; }
  struct R { vector<int> e; char tag; }; vector<R> comp; for (auto &v : U.comps()) { R r; r.tag = (char)U.tag[v[0]]; int s = c.below(v.size()); for (size_t i = 0; i < v.size(); i++) r.e.push_back(eo[v[(i + s) % v.size()]]); comp.push_back(r); } for (int i = 0; i < m; i++) { int e = id[2 * n + i]; pd->edge[e].head = pd->edge[e].tail = PD_UNSET_IDX; pd->edge[e].headpos = pd->edge[e].tailpos = PD_UNSET_POS; comp.push_back({{e}, circ[i]}); } for (size_t i = comp.size(); i > 1; i--) std::swap(comp[i - 1], comp[c.below(i)]);
  pd->ncomps = comp.size(); for (size_t i = 0; i < comp.size(); i++) { pd->comp[i].nedges = comp[i].e.size(); pd->comp[i].tag = comp[i].tag; pd->comp[i].edge = (pd_idx_t *)calloc(comp[i].e.size(), sizeof(pd_idx_t)); for (size_t j = 0; j < comp[i].e.size(); j++) pd->comp[i].edge[j] = comp[i].e[j]; }
  pd_code_t **ch = nullptr; string before = pd_dump(pd); pd_idx_t got = pd_split_diagram(pd, &ch); CHECK(c, got == piece.size() + m, "split into %u pieces, expected %zu", got, piece.size() + m); CHECK(c, pd_dump(pd) == before, "the diagram that was split changed");
  for (unsigned i = 0; i < got; i++) { CHECK(c, ch[i], "piece %u is missing", i); check_valid(c, ch[i], "piece"); CHECK(c, pd_ok(ch[i]), "piece %u is not ok", i); vector<int> key; if (ch[i]->ncross == 0) key = {-7, ch[i]->comp[0].tag}; else key = canon(from_pd(c, ch[i], "piece"), TAGGED); auto it = want.find(key); CHECK(c, it != want.end(), "piece %u (%s) is none of the pieces joined", i, pd_dump(ch[i]).c_str()); want.erase(it); pd_code_t *q = pd_copy(ch[i]); pd_regenerate(q); CHECK(c, !strcmp(q->hash, ch[i]->hash), "piece %u has a stale hash", i); pd_code_free(&q); pd_code_free(&ch[i]); }
  free(ch); pd_code_free(&pd);
}
