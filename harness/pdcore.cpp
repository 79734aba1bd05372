// C11 planar diagrams: rebuilt records, validity; C12 text and packed round trips; C22 combinatorial queries.
#include "diag.hpp"
extern "C" {
#include "pd_pack.h"
#include "pd_invariants.h"
}
using namespace dg;
static const Deco FULL{true, true, false}, TAGGED{true, true, true}, MAP{false, false, false}, UNSIGNED_OR{false, true, false};
static int big(int q, int t) { return pbt::g_thorough ? t : q; }
static pd_code_t *mk(pbt::Case &c, const Diag &D, int slack = 0) { return make_pd(c, D, slack); }

static void set_tags(pbt::Case &c, pd_code_t *pd) { if (pd->ncomps > 58) return; string t; int lim = pd->ncomps > 20 || c.chance(1, 9) ? 58 : 26; for (int i = 0; i < lim; i++) t += (char)('A' + i); for (unsigned i = 0; i < pd->ncomps; i++) { std::swap(t[i], t[i + c.below(lim - i)]); pd->comp[i].tag = t[i]; } }
PROPERTY(C11, regenerate, 40000, 120000, 60, "a diagram with at least 3 crossings") {
  Diag D = random_diagram(c, 1, upto(c, big(12, 20))); c.nontrivial(D.n >= 3);
  c.note("%s", show(D).c_str()); c.labelf("comps=%zu", std::min<size_t>(D.comps().size(), 6));
  bool with = !c.chance(1, 3); if (with && c.chance(1, 6)) for (size_t i = 1; i < D.sign.size(); i++) if (c.chance(1, 3)) D.sign[i] = 2;
  pd_code_t *pd = raw_pd(c, D, with, nullptr, c.range(0, 3)); pd_code_t *raw = pd_code_new(D.n), *alt = pd_code_new(D.n); for (auto *x : {raw, alt}) { x->ncross = D.n; x->nedges = 2 * D.n; memcpy(x->cross, pd->cross, D.n * sizeof(pd_crossing_t)); memcpy(x->edge, pd->edge, 2 * D.n * sizeof(pd_edge_t)); } pd_regenerate(pd);
  check_valid(c, pd, "after regeneration"); CHECK(c, pd_ok(pd), "validity check rejects a regenerated diagram");
  Diag E = from_pd(c, pd, "after regeneration");
  if (with) CHECK(c, canon(D, FULL) == canon(E, FULL), "regeneration changed the diagram: %s", show(E).c_str());
  else { CHECK(c, canon(D, MAP) == canon(E, MAP), "regeneration changed the shadow"); for (int s : E.sign) CHECK(c, s == 2, "a crossing sign appeared from nowhere"); }
  pd->uid = c.chance(1, 3) ? (pd_uid_t)c.u64() : c.below(100); string t = pd_dump(pd); pd_code_t *r = pd_copy(pd); pd_regenerate(r); check_valid(c, r, "after a second regeneration");
  // with every sign unset the orientations are free, so only the shadow is promised
  if (with) CHECK(c, pd_dump(r) == t, "a second regeneration changed the code"); else CHECK(c, canon(from_pd(c, r, "second"), MAP) == canon(D, MAP) && !strcmp(r->hash, pd->hash), "a second regeneration changed the shadow"); pd_code_free(&r);
  // the order of the crossings and the position from which each is read do not matter
  if (with) { int n = D.n; vector<int> pi(n), ro(n); std::iota(pi.begin(), pi.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(pi[i], pi[c.below(i + 1)]); for (auto &x : ro) x = c.below(4); auto to = [&](unsigned x, unsigned p) { return 4 * pi[x] + ((p + ro[x]) & 3); };
    for (int i = 0; i < n; i++) { alt->cross[pi[i]].sign = raw->cross[i].sign; for (int p = 0; p < 4; p++) alt->cross[pi[i]].edge[(p + ro[i]) & 3] = raw->cross[i].edge[p]; } for (int e = 0; e < 2 * n; e++) { auto &x = raw->edge[e]; int u = to(x.tail, x.tailpos), v = to(x.head, x.headpos); alt->edge[e].tail = u / 4; alt->edge[e].tailpos = u & 3; alt->edge[e].head = v / 4; alt->edge[e].headpos = v & 3; }
    pd_regenerate(alt); alt->uid = pd->uid; CHECK(c, pd_dump(alt) == t, "the same diagram, crossings given in another order, becomes\n%s\ninstead of\n%s", pd_dump(alt).c_str(), t.c_str()); }
  pd_code_free(&raw); pd_code_free(&alt);
  if (c.flag()) { set_tags(c, pd); t = pd_dump(pd); }
  pd_code_t *q = pd_copy(pd); CHECK(c, pd_dump(q) == t, "a copy differs from its original"); pd_code_free(&q);
  q = pd_copy_newsize(pd, pd->ncross + c.range(0, 5)); CHECK(c, pd_dump(q) == t && pd_ok(q), "an enlarged copy differs from its original"); pd_code_free(&q);
  pd_code_free(&pd);
}
PROPERTY(C11, circle, 400, 2000, 20, "every case") {
  pd_code_t *pd = pd_build_unknot(0); pd->uid = c.u64(); pd->comp[0].tag = (char)('A' + c.below(58)); c.nontrivial(true); c.note("circle with identifier %llu and tag %c", (unsigned long long)pd->uid, pd->comp[0].tag); check_valid(c, pd, "circle"); string t = pd_dump(pd);
  pd_code_t *q = pd_copy(pd); CHECK(c, pd_dump(q) == t, "a copy differs from its original"); pd_regenerate(q); CHECK(c, pd_dump(q) == t && pd_ok(q), "regeneration changed the circle"); pd_code_free(&q);
  q = pd_copy_newsize(pd, c.range(0, 9)); CHECK(c, pd_dump(q) == t && pd_ok(q), "an enlarged copy differs from its original"); pd_code_free(&q); CHECK(c, pd_dump(pd) == t, "copying changed the circle"); pd_code_free(&pd);
}
PROPERTY(C11, hash_invariant, 20000, 60000, 60, "a diagram with at least 3 crossings") {
  Diag D = random_diagram(c, 1, upto(c, 12)); c.nontrivial(D.n >= 3); c.note("%s", show(D).c_str());
  pd_code_t *a = mk(c, D); Diag E = relabel(c, D); if (c.flag()) E = reflect(E); for (size_t k = 0; k < E.comps().size(); k++) if (c.flag()) reverse_comp(E, k); if (c.flag()) for (auto &s : E.sign) s = c.below(3);
  pd_code_t *b = mk(c, E); CHECK(c, !strcmp(a->hash, b->hash), "equivalent shadows hash to %s and %s", a->hash, b->hash);
  CHECK(c, strlen(a->hash) < PD_HASHSIZE, "hash too long"); for (char *p = a->hash; *p; p++) CHECK(c, isgraph(*p), "hash has an unprintable character");
  pd_code_free(&a); pd_code_free(&b);
}
// the stages of regeneration one by one
PROPERTY(C11, stages, 40000, 300000, 60, "at least 3 crossings") {
  Diag D = random_diagram(c, 1, upto(c, 12)); c.nontrivial(D.n >= 3); c.note("%s", show(D).c_str()); pd_code_t *pd = raw_pd(c, D, false, nullptr, c.range(0, 3)); int n = D.n; std::multiset<vector<int>> before, after; auto cyc = [](const pd_crossing_t &x) { vector<int> b; for (int r = 0; r < 4; r++) { vector<int> v; for (int p = 0; p < 4; p++) v.push_back(x.edge[(p + r) & 3]); if (b.empty() || v < b) b = v; } return b; };
  for (int i = 0; i < n; i++) before.insert(cyc(pd->cross[i])); pd_regenerate_crossings(pd); for (int i = 0; i < n; i++) { after.insert(cyc(pd->cross[i])); for (int p = 1; p < 4; p++) CHECK(c, pd->cross[i].edge[0] <= pd->cross[i].edge[p], "crossing %d is not rotated lowest edge first", i); if (i) CHECK(c, pd_cross_cmp(&pd->cross[i - 1], &pd->cross[i]) <= 0 && !std::lexicographical_compare(pd->cross[i].edge, pd->cross[i].edge + 4, pd->cross[i - 1].edge, pd->cross[i - 1].edge + 4), "crossings %d and %d are out of order", i - 1, i); } CHECK(c, before == after, "the crossings changed");
  vector<vector<int>> at(2 * n); for (int d = 0; d < 4 * n; d++) at[pd->cross[d / 4].edge[d & 3]].push_back(d); bool given = c.flag(); if (given) { vector<char> done(2 * n); for (int e0 = 0; e0 < 2 * n; e0++) if (!done[e0]) { int e = e0, a = at[e][c.below(2)]; do { int b = at[e][0] == a ? at[e][1] : at[e][0]; pd->edge[e].tail = a / 4; pd->edge[e].tailpos = a & 3; pd->edge[e].head = b / 4; pd->edge[e].headpos = b & 3; done[e] = 1; a = b ^ 2; e = pd->cross[a / 4].edge[a & 3]; } while (!done[e]); } } else { pd_regenerate_edges(pd); from_pd(c, pd, "after the edges"); } c.labelf("edges %s", given ? "given" : "regenerated");
  pd_regenerate_comps(pd); pd_regenerate_faces(pd); pd_regenerate_hash(pd); check_valid(c, pd, "after the stages"); CHECK(c, pd_ok(pd), "validity check rejects the result"); CHECK(c, canon(from_pd(c, pd, "result"), MAP) == canon(D, MAP), "the shadow changed");
  for (unsigned k = 1; k < pd->ncomps; k++) CHECK(c, pd->comp[k - 1].nedges >= pd->comp[k].nedges && pd_component_cmp(&pd->comp[k - 1], &pd->comp[k]) <= 0, "components out of order");
  // canonical order of single records
  unsigned x = c.below(n), f = c.below(pd->nfaces); pd_or_t o = c.flag() ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION; pd_crossing_t X = pd_build_cross(c.below(2 * n), c.below(2 * n), c.below(2 * n), c.below(2 * n)); if (c.flag()) X = pd->cross[x]; pd_crossing_t Y = X, Z; pd_canonorder_cross(&Y, o); Z = X; if (o == PD_NEG_ORIENTATION) std::reverse(Z.edge, Z.edge + 4); CHECK(c, cyc(Y) == cyc(Z), "crossing %u is not the %s one", x, o == PD_POS_ORIENTATION ? "given" : "reversed"); for (int p = 1; p < 4; p++) CHECK(c, Y.edge[0] <= Y.edge[p], "crossing not rotated lowest edge first");
  pd_face_t &F = pd->face[f]; vector<std::pair<int, int>> u, v; for (unsigned i = 0; i < F.nedges; i++) u.push_back({F.edge[i], F.orient[i]}); int r = c.below(F.nedges); std::rotate(u.begin(), u.begin() + r, u.end()); for (unsigned i = 0; i < F.nedges; i++) { F.edge[i] = u[i].first; F.orient[i] = u[i].second; } pd_canonorder_face(&F, o); if (o == PD_NEG_ORIENTATION) std::reverse(u.begin(), u.end()); bool rot = false; for (unsigned i = 0; i < F.nedges; i++) v.push_back({F.edge[i], F.orient[i]}); CHECK(c, v.size() == u.size(), "face size"); for (size_t i = 0; i < u.size() && !rot; i++) { rot = u == v; std::rotate(u.begin(), u.begin() + 1, u.end()); } CHECK(c, rot, "the edges of face %u are not the %s ones", f, o == PD_POS_ORIENTATION ? "given" : "reversed"); for (auto &y : v) CHECK(c, v[0].first <= y.first, "face not rotated lowest edge first");
  pd_code_free(&pd);
}
// a single corrupted field is noticed
PROPERTY(C11, corruption, 120000, 360000, 60, "the corrupted code breaks a consistency rule") {
  Diag D = random_diagram(c, 2, c.chance(1, 6) ? 24 : 10); pd_code_t *pd = mk(c, D); if (c.flag()) set_tags(c, pd); string t0 = pd_dump(pd);
  int kind = c.pick({3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1}); unsigned n = pd->ncross, m = pd->nedges;
  auto idx = [&](unsigned lim) { return (pd_idx_t)(c.chance(1, 6) ? lim + c.below(2) : c.below(lim)); };
  switch (kind) {
    case 0: pd->cross[c.below(n)].edge[c.below(4)] = idx(m); break;
    case 1: { pd_edge_t &e = pd->edge[c.below(m)]; switch (c.below(5)) { case 0: e.head = idx(n); break; case 1: e.tail = idx(n); break; case 2: e.headpos = c.below(6); break; case 3: e.tailpos = c.below(6); break; default: std::swap(e.head, e.tail); std::swap(e.headpos, e.tailpos); } break; }
    case 2: { pd_face_t &f = pd->face[c.below(pd->nfaces)]; if (c.flag()) f.edge[c.below(f.nedges)] = idx(m); else { auto &o = f.orient[c.below(f.nedges)]; o = o == PD_POS_ORIENTATION ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION; } break; }
    case 3: { pd_component_t &k = pd->comp[c.below(pd->ncomps)]; k.edge[c.below(k.nedges)] = idx(m); break; }
    case 4: { pd_crossing_t &x = pd->cross[c.below(n)]; std::swap(x.edge[c.below(4)], x.edge[c.below(4)]); break; }
    case 5: { int i = c.below(n), j = c.below(n); std::swap(pd->cross[i], pd->cross[j]); break; }
    case 6: if (pd->ncomps > 1) { int i = c.below(pd->ncomps), j = c.below(pd->ncomps); if (i != j) pd->comp[i].tag = pd->comp[j].tag; } break;
    case 8: { unsigned i = c.below(n), j = c.below(n); std::swap(pd->cross[i], pd->cross[j]); for (unsigned e = 0; e < m; e++) for (pd_idx_t *x : {&pd->edge[e].head, &pd->edge[e].tail}) *x = *x == i ? j : *x == j ? i : *x; break; } // the same diagram, crossings in another order
    case 9: { unsigned i = c.below(pd->nfaces), j = c.below(pd->nfaces); std::swap(pd->face[i], pd->face[j]); break; }
    case 10: pd->comp[c.below(pd->ncomps)].tag = "@1 \x01"[c.below(4)]; break;
    case 12: pd->cross[c.below(n)].sign = (pd_or_t)c.range(3, 9); break;
    case 11: { pd_idx_t *x[] = {&pd->ncross, &pd->nedges, &pd->ncomps}; --*x[c.below(3)]; break; } // a missing face is accepted: a fixture of the test suite has one
    default: { pd_face_t &f = pd->face[c.below(pd->nfaces)]; int i = c.below(f.nedges), j = c.below(f.nedges); std::swap(f.edge[i], f.edge[j]); std::swap(f.orient[i], f.orient[j]); }
  }
  string err = kind == 11 ? "a count is one less" : validity_error(pd); c.labelf("kind=%d%s", kind, err.empty() ? " harmless" : ""); c.note("%s | corrupted (%d): %s", show(D).c_str(), kind, err.c_str());
  c.nontrivial(!err.empty());
  bool ok = pd_ok(pd);
  if (err.empty()) { if (pd_dump(pd) == t0) CHECK(c, ok, "validity check rejects a valid code"); }
  else CHECK(c, !ok, "validity check accepts a corrupted code: %s", err.c_str());
  pd_code_free(&pd);
}

PROPERTY(C11, circle_corruption, 4000, 20000, 20, "a field was changed") {
  pd_code_t *pd = pd_build_unknot(0); CHECK(c, pd_ok(pd), "the circle is not ok"); int k = c.below(13); c.nontrivial(k); c.note("field %d", k); int sub = c.below(4);
  switch (k) { case 0: break; case 1: pd->nedges = sub < 2 ? 2 : 0; break; case 2: pd->ncomps = 2; break; case 3: pd->nfaces = 1; break; case 4: pd->comp[0].nedges = 0; break; case 5: pd->comp[0].edge[0] = 1 + sub; break; case 6: pd->edge[0].head = sub; break; case 7: pd->edge[0].tail = sub; break; case 8: pd->edge[0].headpos = sub; break; case 9: pd->edge[0].tailpos = sub; break; case 10: pd->face[sub & 1].nedges = 0; break; case 11: pd->face[sub & 1].edge[0] = 1 + sub; break; default: pd->nfaces = 0; }
  CHECK(c, pd_ok(pd) == (k == 0), "validity check accepts a corrupted circle (field %d)", k); pd_code_free(&pd);
}

// ---------------------------------------------------------------- C12
static FILE *mem(const string &s) { FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
PROPERTY(C12, native_text, 40000, 400000, 60, "a stream of at least two codes, one of them with 3 or more crossings") {
  int k = c.range(1, 4); vector<string> want; string file; bool three = false; string sh;
  for (int i = 0; i < k; i++) {
    pd_code_t *pd; int kind = c.pick({6, 1, 1});
    if (kind == 1) { pd = pd_build_unknot(0); pd->comp[0].tag = 'A' + c.below(c.flag() ? 58 : 26); pd->uid = c.flag() ? c.below(100000) : (pd_uid_t)c.u64(); c.label("0-crossing"); }
    else { Diag D = random_diagram(c, 1, upto(c, 10)); if (c.chance(1, 4)) for (size_t j = kind == 2 ? 0 : 1; j < D.sign.size(); j++) if (kind == 2 || c.flag()) D.sign[j] = 2; three |= D.n >= 3; sh += show(D) + " ; "; pd = mk(c, D, c.range(0, 2)); set_tags(c, pd); pd->uid = c.flag() ? c.below(100000) : (pd_uid_t)c.u64(); }
    CHECK(c, pd_ok(pd), "generated code not ok"); want.push_back(pd_dump(pd)); file += pd_text(pd); CHECK(c, pd_dump(pd) == want.back(), "writing changed the code"); pd_code_free(&pd);
  }
  c.nontrivial(k >= 2 && three); c.note("%d codes: %s", k, sh.c_str());
  FILE *f = mem(file); int err = 0;
  for (int i = 0; i < k; i++) {
    bool plain = c.flag(); err = PD_NO_ERROR; pd_code_t *pd = plain ? pd_read(f) : pd_read_err(f, &err);
    CHECK(c, pd && err == PD_NO_ERROR, "code %d of %d written by the library cannot be read back (error %d)", i, k, err);
    check_valid(c, pd, "after reading", false); CHECK(c, pd_ok(pd), "code read back is not ok");
    string got = pd_dump(pd); CHECK(c, got == want[i], "code %d changed in a write-read-write cycle:\n%s\nbecame\n%s", i, want[i].c_str(), got.c_str()); pd_code_free(&pd); }
  err = PD_NO_ERROR; pd_code_t *pd = pd_read_err(f, &err); CHECK(c, !pd && err != PD_NO_ERROR, "reading past the last code did not report an error"); fclose(f);
}
PROPERTY(C12, knottheory_text, 30000, 300000, 60, "at least 3 crossings") {
  Diag D = random_diagram(c, 1, upto(c, 10));
  // the orientation of a component of two edges which is over at both of its crossings is not recorded by this format
  for (auto &k : D.comps()) if (k.size() < 3) { bool over = true; for (int d : k) { int oi, oo, ui, uo; D.strands(d / 4, oi, oo, ui, uo); over &= oo == d; } if (over) c.discard("orientation of a component not recorded"); c.label("two-edge component"); }
  c.nontrivial(D.n >= 3); c.note("%s", show(D).c_str()); pd_code_t *pd = mk(c, D);
  char *b = nullptr; size_t z = 0; string was = pd_dump(pd); FILE *f = open_memstream(&b, &z); pd_write_KnotTheory(f, pd); fclose(f); CHECK(c, pd_dump(pd) == was, "writing changed the code");
  // the text itself: parse it independently
  { vector<array<int, 4>> X; for (char *p = b; (p = strstr(p, "X[")); p++) { array<int, 4> x; CHECK(c, sscanf(p, "X[%d,%d,%d,%d]", &x[0], &x[1], &x[2], &x[3]) == 4, "unparsable %s", b); X.push_back(x); }
    CHECK(c, (int)X.size() == D.n, "%zu crossings written for %d", X.size(), D.n);
    Diag P = from_pd(c, pd, "pd"); for (int i = 0; i < P.n; i++) { int oi, oo, ui, uo; P.strands(i, oi, oo, ui, uo); for (int p = 0; p < 4; p++) CHECK(c, X[i][p] == (int)pd->cross[i].edge[(ui + p) & 3] + 1, "crossing %d is written as X[%d,%d,%d,%d]", i, X[i][0], X[i][1], X[i][2], X[i][3]); } }
  f = mem(b); pd_code_t *q = pd_read_KnotTheory(f); fclose(f); CHECK(c, q, "cannot read back %s", b); check_valid(c, q, "after reading"); CHECK(c, pd_ok(q), "code read back is not ok");
  CHECK(c, canon(from_pd(c, q, "read"), FULL) == canon(D, FULL), "%s read as a different diagram", b);
  free(b); pd_code_free(&pd); pd_code_free(&q);
}
PROPERTY(C12, packed, 40000, 400000, 60, "at least 3 crossings") {
  Diag D = random_diagram(c, 1, upto(c, 12)); bool uns = c.chance(1, 4); if (uns) for (auto &s : D.sign) s = 2; c.nontrivial(D.n >= 3); c.note("%s", show(D).c_str());
  pd_code_t *pd = mk(c, D); Diag P = from_pd(c, pd, "original"); unsigned len = 0; string was = pd_dump(pd); unsigned *w = pd_pack(pd, &len); CHECK(c, pd_dump(pd) == was, "packing changed the code it was given");
  CHECK(c, len == 1 + (pd_packbits(pd->ncross, uns ? UNSIGNED_CROSSINGS : SIGNED_CROSSINGS) + 31) / 32, "packed length %u", len);
  unsigned *v = (unsigned *)malloc(len * sizeof(unsigned)); memcpy(v, w, len * sizeof(unsigned));  // exact-size heap copy: over-reads are caught
  pd_code_t *q = pd_unpack(v); check_valid(c, q, "after unpacking"); Diag E = from_pd(c, q, "unpacked");
  CHECK(c, canon(E, FULL) == canon(P, FULL), "packing changed the diagram"); if (uns) for (int s : E.sign) CHECK(c, s == 2, "packing invented a sign");
  CHECK(c, !strcmp(q->hash, pd->hash), "packing changed the hash");
  free(w); free(v); pd_code_free(&pd); pd_code_free(&q);
}

// ---------------------------------------------------------------- C22
PROPERTY(C22, queries, 30000, 300000, 60, "at least 3 crossings") {
  Diag D = random_diagram(c, 1, upto(c, 12)); if (c.chance(1, 5)) make_alternating(D, c.flag());
  c.nontrivial(D.n >= 3); c.note("%s", show(D).c_str()); pd_code_t *pd = mk(c, D); if (c.flag()) set_tags(c, pd); Diag P = from_pd(c, pd, "pd"); auto cs = P.comps(); int nc = cs.size(); string was = pd_dump(pd);
  vector<int> eo(4 * P.n); for (unsigned e = 0; e < pd->nedges; e++) eo[4 * pd->edge[e].tail + pd->edge[e].tailpos] = eo[4 * pd->edge[e].head + pd->edge[e].headpos] = e;
  vector<int> co(pd->nedges); for (unsigned k = 0; k < pd->ncomps; k++) for (unsigned i = 0; i < pd->comp[k].nedges; i++) co[pd->comp[k].edge[i]] = k;
  // strands
  bool alt = true;
  for (int i = 0; i < P.n; i++) { int oi, oo, ui, uo; P.strands(i, oi, oo, ui, uo); pd_idx_t a, b;
    pd_overstrand_pos(pd, i, &a, &b); CHECK(c, (int)a == (oi & 3) && (int)b == (oo & 3), "over strand positions of crossing %d", i);
    pd_understrand_pos(pd, i, &a, &b); CHECK(c, (int)a == (ui & 3) && (int)b == (uo & 3), "under strand positions of crossing %d", i);
    pd_overstrand(pd, i, &a, &b); CHECK(c, (int)a == eo[oi] && (int)b == eo[oo], "over strand edges of crossing %d", i);
    pd_understrand(pd, i, &a, &b); CHECK(c, (int)a == eo[ui] && (int)b == eo[uo], "under strand edges of crossing %d", i);
    auto level = [&](int d) { int x, y, z, w; P.strands(d / 4, x, y, z, w); return d == x || d == y; }; for (int p = 0; p < 4; p++) if (level(4 * i + p) == level(P.mate[4 * i + p])) alt = false; }
  // without a sign, the two strands are still the two straight ways through the crossing, in their directions, and different
  for (int t = 0; t < 2; t++) { int i = c.below(P.n); auto keep = pd->cross[i].sign; pd->cross[i].sign = PD_UNSET_ORIENTATION; pd_idx_t a, b, x, y; pd_overstrand_pos(pd, i, &a, &b); pd_understrand_pos(pd, i, &x, &y); int oi, oo, ui, uo; P.strands(i, oi, oo, ui, uo); auto is = [&](pd_idx_t p, pd_idx_t q, int u, int v) { return (int)p == (u & 3) && (int)q == (v & 3); }; CHECK(c, (is(a, b, oi, oo) && is(x, y, ui, uo)) || (is(a, b, ui, uo) && is(x, y, oi, oo)), "strands of crossing %d without sign: %u->%u and %u->%u", i, (unsigned)a, (unsigned)b, (unsigned)x, (unsigned)y); pd->cross[i].sign = keep; }
  CHECK(c, pd_is_alternating(pd) == alt, "reported %salternating", alt ? "not " : ""); c.labelf("alternating=%d", alt);
  // edges
  for (unsigned e = 0; e < pd->nedges; e++) { int d = 4 * pd->edge[e].tail + pd->edge[e].tailpos; CHECK(c, (int)pd_next_edge(pd, e) == eo[P.next(d)], "next edge of %u", e); CHECK(c, pd_previous_edge(pd, pd_next_edge(pd, e)) == e, "previous edge of the next edge of %u", e);
    pd_idx_t k, pos; pd_component_and_pos(pd, e, &k, &pos); CHECK(c, (int)k == co[e] && pd->comp[k].edge[pos] == e, "component of edge %u", e);
    pd_idx_t pf, pp, nf, np; pd_face_and_pos(pd, e, &pf, &pp, &nf, &np); CHECK(c, pd->face[pf].edge[pp] == e && pd->face[pf].orient[pp] == PD_POS_ORIENTATION && pd->face[nf].edge[np] == e && pd->face[nf].orient[np] == PD_NEG_ORIENTATION, "faces of edge %u", e);
    for (unsigned f = 0; f < pd->nfaces; f++) CHECK(c, pd_edge_on_face(pd, e, f) == (f == pf || f == nf), "edge %u on face %u", e, f); }
  // linking numbers
  for (int a = 0; a < nc; a++) for (int b = 0; b < nc; b++) if (a != b) { int s = 0, u = 0; for (int i = 0; i < P.n; i++) { int x = co[eo[4 * i]], y = co[eo[4 * i + 1]]; if ((x == a && y == b) || (x == b && y == a)) { s += P.sign[i] ? 1 : -1; u++; } }
    CHECK(c, pd_linking_number(pd, a, b) == s / 2, "linking number of %d and %d is %d, counted %d/2", a, b, pd_linking_number(pd, a, b), s); CHECK(c, (int)pd_unsigned_linking_number(pd, a, b) == u / 2, "unsigned linking number of %d and %d", a, b); }
  // interlacement: brute force over pairs of self-crossings
  int *is = pd_interlaced_crossings(pd); unsigned *iu = pd_interlaced_crossings_unsigned(pd);
  for (int k = 0; k < nc; k++) { vector<vector<int>> pos(P.n); auto &C = pd->comp[k]; for (unsigned i = 0; i < C.nedges; i++) pos[pd->edge[C.edge[i]].head].push_back(i); int s = 0, u = 0;
    auto psign = [&](int x) { vector<int> o; for (int p = 0; p < 4; p++) if (P.out[4 * x + p]) o.push_back(4 * x + p); int d1 = o[0], d2 = o[1]; if (Diag::ccw(d1) != d2) std::swap(d1, d2); return eo[d2] > eo[d1] ? 1 : -1; };
    for (int x = 0; x < P.n; x++) if (pos[x].size() == 2) for (int y = x + 1; y < P.n; y++) if (pos[y].size() == 2) { bool i1 = pos[y][0] > pos[x][0] && pos[y][0] < pos[x][1], i2 = pos[y][1] > pos[x][0] && pos[y][1] < pos[x][1]; if (i1 != i2) { u++; s += psign(x) * psign(y); } }
    CHECK(c, (int)iu[k] == u && is[k] == s, "component %d: interlaced %u/%d, counted %d/%d", k, iu[k], is[k], u, s); }
  CHECK(c, pd_dump(pd) == was, "the queries changed the diagram"); free(is); free(iu); pd_code_free(&pd);
}
PROPERTY(C22, reorient_renumber, 30000, 300000, 60, "a history of at least 2 operations on a diagram with 3 or more crossings") {
  Diag D = random_diagram(c, 1, upto(c, 12)); pd_code_t *pd = mk(c, D); int ops = c.range(1, 5); c.nontrivial(ops >= 2 && D.n >= 3); c.note("%s:", show(D).c_str());
  Diag M = from_pd(c, pd, "start"); auto comps_by_lib = [&](const pd_code_t *p) { return 0; }; (void)comps_by_lib;
  for (int i = 0; i < ops; i++) { unsigned k = c.below(pd->ncomps); char tag = pd->comp[k].tag; unsigned len = pd->comp[k].nedges, first = pd->comp[k].edge[0];
    if (c.flag()) { pd_or_t o = c.chance(1, 5) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION; c.note(" reorient %u %d", k, o);
      if (o == PD_NEG_ORIENTATION) { auto cs = M.comps(); for (size_t j = 0; j < cs.size(); j++) if (M.tag[cs[j][0]] == (unsigned char)tag) { reverse_comp(M, j); break; } }
      pd_reorient_component(pd, k, o); }
    else { unsigned ofs = c.below(len + 1); c.note(" renumber %u by %u", k, ofs); Diag O = from_pd(c, pd, "before"); vector<vector<int>> was; for (unsigned e = 0; e < pd->nedges; e++) was.push_back(O.n <= 30 || e % 7 == 0 ? code_from(O, 4 * pd->edge[e].tail + pd->edge[e].tailpos, FULL) : vector<int>()); // the component's numbers move by ofs (in one direction or the other), those of other components stay
      pd_renumber_component(pd, k, ofs); check_valid(c, pd, "after renumbering"); Diag N = from_pd(c, pd, "after"); bool fw = true, bw = true, rest = true; vector<int> at(pd->nedges, -1); for (unsigned e = 0; e < len; e++) at[pd->comp[k].edge[e]] = e;
      for (unsigned e = 0; e < pd->nedges; e++) if (!was[e].empty()) { auto now = [&](int x) { return code_from(N, 4 * pd->edge[x].tail + pd->edge[x].tailpos, FULL) == was[e]; };
        if (at[e] < 0) rest &= now(e); else { if (fw) fw = now(pd->comp[k].edge[(at[e] + ofs) % len]); if (bw) bw = now(pd->comp[k].edge[(at[e] + len - ofs % len) % len]); } }
      CHECK(c, rest, "edges of other components were renumbered"); CHECK(c, fw || bw, "the edge numbers of component %u did not move by %u", k, ofs); }
    check_valid(c, pd, "after the operation"); CHECK(c, pd_ok(pd), "code not ok after the operation");
    CHECK(c, pd->comp[k].tag == tag && pd->comp[k].nedges == len && pd->comp[k].edge[0] == first, "component record changed");
    CHECK(c, canon(from_pd(c, pd, "after"), TAGGED) == canon(M, TAGGED), "the diagram is not the expected one after step %d", i); }
  pd_code_free(&pd);
}
// the crossingless circle is a diagram, too
PROPERTY(C22, crossingless, 600, 3000, 20, "at least two operations") {
  pd_code_t *pd = pd_build_unknot(0); int ops = c.range(0, 5); c.nontrivial(ops >= 2); char tag = "ABXz"[c.below(4)]; pd->comp[0].tag = tag;
  for (int i = 0; i < ops; i++) { switch (c.below(5)) {
    case 0: c.note(" reorient"); pd_reorient_component(pd, 0, c.flag() ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION); break;
    case 1: c.note(" alternating"); CHECK(c, pd_is_alternating(pd), "the crossingless unknot is not alternating"); break;
    case 2: { c.note(" interlaced"); int *s = pd_interlaced_crossings(pd); unsigned *u = pd_interlaced_crossings_unsigned(pd); CHECK(c, s[0] == 0 && u[0] == 0, "interlaced %d %u", s[0], u[0]); free(s); free(u); break; }
    case 3: { c.note(" copy"); pd_code_t *q = pd_copy(pd); CHECK(c, q->ncross == 0 && pd_ok(q) && pd_dump(q) == pd_dump(pd), "a copy differs from its original"); pd_code_free(&q); break; }
    default: { c.note(" regenerate"); pd_regenerate(pd); } }
    CHECK(c, pd->ncross == 0 && pd->nedges == 1 && pd->ncomps == 1 && pd->nfaces == 2 && pd->comp[0].nedges == 1 && pd->comp[0].tag == tag, "the diagram changed"); CHECK(c, pd_ok(pd), "not ok"); }
  pd_code_free(&pd);
}
// single records: orientations, edges with a direction, and the orders by which records are sorted and searched
PROPERTY(C22, records, 20000, 150000, 30, "at least 3 crossings") {
  Diag D = random_diagram(c, 1, upto(c, 12)); c.nontrivial(D.n >= 3); c.note("%s", show(D).c_str()); pd_code_t *pd = mk(c, D); string t = pd_dump(pd); const pd_or_t P = PD_POS_ORIENTATION, N = PD_NEG_ORIENTATION;
  CHECK(c, pd_cross_ok(pd) && pd_edges_ok(pd) && pd_faces_ok(pd) && pd_comps_ok(pd), "part of a valid code is rejected");
  pd_or_t a = c.flag() ? P : N, b = c.flag() ? P : N; CHECK(c, pd_compose_or(a, b) == (a == b ? P : N), "composition of orientations"); CHECK(c, pd_or_ok(a) && !pd_or_ok(PD_UNSET_ORIENTATION) && !pd_or_ok((pd_or_t)c.range(3, 99)), "legal orientations"); int o = pd_or_cmp(&a, &b); CHECK(c, a == b ? o == 0 : a == P ? o < 0 : o > 0, "order of orientations"); CHECK(c, pd_print_or(P) == '+' && pd_print_or(N) == '-' && pd_print_or(PD_UNSET_ORIENTATION) == 'U' && pd_print_or((pd_or_t)c.range(3, 99)) == '?', "printed orientations");
  unsigned e = c.below(pd->nedges); pd_edge_t E = pd->edge[e], F = pd_oriented_edge(E, a); bool r = a == N; auto same = [&](const pd_edge_t &x) { return x.tail == (r ? E.head : E.tail) && x.head == (r ? E.tail : E.head) && x.tailpos == (r ? E.headpos : E.tailpos) && x.headpos == (r ? E.tailpos : E.headpos); }; CHECK(c, same(F) && pd_dump(pd) == t, "edge %u with orientation %c", e, a == P ? '+' : '-');
  pd_reorient_edge(pd, e, a); CHECK(c, same(pd->edge[e]), "edge %u reoriented", e); pd_reorient_edge(pd, e, a); CHECK(c, pd_dump(pd) == t, "reorienting edge %u twice changes the code", e);
  // orders; numbers of every size
  auto num = [&] { switch (c.below(4)) { case 0: return (pd_idx_t)c.below(3); case 1: return (pd_idx_t)c.below(70000); case 2: return (pd_idx_t)(0x7fffffffu - c.below(3)); default: return (pd_idx_t)c.below(40); } }; auto sg = [](int x) { return x < 0 ? -1 : x > 0; }; auto lex = [](const vector<pd_idx_t> &x, const vector<pd_idx_t> &y) { return x < y ? -1 : x == y ? 0 : 1; };
  pd_idx_t x = num(), y = c.chance(1, 4) ? x : num(); CHECK(c, sg(pd_idx_cmp(&x, &y)) == (x < y ? -1 : x > y), "order of %u and %u", (unsigned)x, (unsigned)y);
  vector<pd_idx_t> u(4), v(4); for (auto &z : u) z = num(); v = u; for (int i = c.below(5); i < 4; i++) v[i] = num(); pd_crossing_t X = pd_build_cross(u[0], u[1], u[2], u[3]), Y = pd_build_cross(v[0], v[1], v[2], v[3]); CHECK(c, sg(pd_cross_cmp(&X, &Y)) == lex(u, v) && sg(pd_cross_cmp(&Y, &X)) == -lex(u, v), "order of crossings %u,%u,%u,%u and %u,%u,%u,%u", (unsigned)u[0], (unsigned)u[1], (unsigned)u[2], (unsigned)u[3], (unsigned)v[0], (unsigned)v[1], (unsigned)v[2], (unsigned)v[3]); CHECK(c, X.edge[0] == u[0] && X.edge[1] == u[1] && X.edge[2] == u[2] && X.edge[3] == u[3], "edges of a crossing");
  u.resize(c.range(1, 7)); v.resize(c.chance(1, 3) ? c.range(1, 7) : u.size()); int len = u.size() != v.size() ? (u.size() > v.size() ? -1 : 1) : lex(u, v); vector<pd_or_t> oo(8, P); pd_face_t f = {}, g = {}; f.nedges = u.size(); f.edge = u.data(); f.orient = oo.data(); g.nedges = v.size(); g.edge = v.data(); g.orient = oo.data(); CHECK(c, sg(pd_face_cmp(&f, &g)) == len && sg(pd_face_cmp(&g, &f)) == -len, "order of faces with %zu and %zu edges", u.size(), v.size());
  pd_component_t k = {}, l = {}; k.nedges = u.size(); k.edge = u.data(); k.tag = 'A' + c.below(4); l.nedges = v.size(); l.edge = v.data(); l.tag = 'A' + c.below(4); CHECK(c, sg(pd_component_cmp(&k, &l)) == len && sg(pd_component_cmp(&l, &k)) == -len, "order of components with %zu and %zu edges", u.size(), v.size());
  pd_code_free(&pd);
}
