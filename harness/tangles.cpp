// C19 tangles inside diagrams: contents of a tangle, sliding a strand over it; splitting of diagrams.
#include "model_moves.hpp"
#include <unistd.h>
extern "C" {
#include "pd_splitdiagram.h"
}
using namespace dg;
static const Deco FULL{true, true, false}, TAGGED{true, true, true};
struct Tangle { std::set<int> in; vector<int> bd; }; // crossings inside; boundary darts (at inner crossings, leaving the tangle), counter-clockwise
// grow a connected set, choose one complementary region, fill in the others
static bool random_tangle(pbt::Case &c, const Diag &D, Tangle &T, int want) {
  std::set<int> S; S.insert((int)c.below(D.n)); while ((int)S.size() < want) { vector<int> nb; for (int x : S) for (int p = 0; p < 4; p++) { int y = D.mate[4 * x + p] / 4; if (!S.count(y)) nb.push_back(y); } if (nb.empty()) return false; S.insert(nb[c.below(nb.size())]); }
  vector<int> outd; for (int x : S) for (int p = 0; p < 4; p++) if (!S.count(D.mate[4 * x + p] / 4)) outd.push_back(4 * x + p); if (outd.empty()) return false; int s = outd[c.below(outd.size())], d = s;
  do { T.bd.push_back(d); d = Diag::ccw(d); while (S.count(D.mate[d] / 4)) d = Diag::ccw(D.mate[d]); } while (d != s);
  std::set<int> O; vector<int> q; for (int b : T.bd) { int y = D.mate[b] / 4; if (O.insert(y).second) q.push_back(y); } while (!q.empty()) { int x = q.back(); q.pop_back(); for (int p = 0; p < 4; p++) { int y = D.mate[4 * x + p] / 4; if (!S.count(y) && O.insert(y).second) q.push_back(y); } }
  for (int x = 0; x < D.n; x++) if (!O.count(x)) T.in.insert(x); return true; }
static vector<int> dart_map(const Diag &A, const Diag &B) { // an isomorphism of signed oriented diagrams
  auto order = [](const Diag &D, int s, vector<int> &num, vector<int> &base) { num.assign(D.n, -1); base.assign(D.n, -1); vector<int> o; num[s / 4] = 0; base[s / 4] = s; o.push_back(s / 4); for (size_t i = 0; i < o.size(); i++) for (int p = 0; p < 4; p++) { int c = o[i], d = 4 * c + ((base[c] + p) & 3), m = D.mate[d]; if (num[m / 4] < 0) { num[m / 4] = (int)o.size(); base[m / 4] = m; o.push_back(m / 4); } } return o; };
  auto w = code_from(A, 0, FULL); for (int s = 0; s < 4 * B.n; s++) if (code_from(B, s, FULL) == w) { vector<int> na, ba, nb, bb; auto oa = order(A, 0, na, ba), ob = order(B, s, nb, bb); vector<int> m(4 * A.n); for (size_t i = 0; i < oa.size(); i++) for (int p = 0; p < 4; p++) m[4 * oa[i] + ((ba[oa[i]] + p) & 3)] = 4 * ob[i] + ((bb[ob[i]] + p) & 3); return m; } return {}; }
static bool is_over(const Diag &D, int d) { int oi, oo, ui, uo; D.strands(d / 4, oi, oo, ui, uo); return d == oi || d == oo; }
static void set_level(Diag &D, int d, bool over) { D.sign[d / 4] = 1; if (is_over(D, d) != over) D.sign[d / 4] = 0; }
static bool same_left_face(const Diag &D, int a, int b) { int e = a; do { if (e == b) return true; e = Diag::cw(D.mate[e]); } while (e != a); return false; }
// push a finger of some outside edge across successive boundary edges of the tangle
static void plant_finger(pbt::Case &c, Diag &D, Tangle &T) { int m = (int)T.bd.size(), i = (int)c.below(m), len = c.chance(1, 3) ? m : c.range(1, m), b = T.bd[i]; vector<int> cand; int f0 = D.mate[b]; std::set<int> bdset; for (int x : T.bd) { bdset.insert(x); bdset.insert(D.mate[x]); } int e = f0; do { if (!bdset.count(e) && !(T.in.count(e / 4) && T.in.count(D.mate[e] / 4))) cand.push_back(e); e = Diag::cw(D.mate[e]); } while (e != f0); if (cand.empty()) return; int g = cand[c.below(cand.size())]; bool lev = c.flag();
  for (int k = 0; k < len; k++) { int d2 = D.mate[T.bd[(i + k) % m]]; if (k) { int a = 4 * D.n - 8 + 2, y = 4 * D.n - 4 + 2; g = same_left_face(D, a, d2) ? a : same_left_face(D, y, d2) ? y : -1; if (g < 0) return; } if (g == d2 || D.mate[g] == d2) return; D = add_bigon(D, g, d2, 0, 0); set_level(D, 4 * D.n - 8, lev); set_level(D, 4 * D.n - 4, lev); } }
struct Setup { pd_code_t *pd; Diag P; Tangle T; vector<int> edge, face; map<int, int> leftface; };
static Setup setup(pbt::Case &c, bool fingers) {
  Setup s; Diag B; Tangle T; if (fingers && c.chance(1, 6)) { // the tangle is a whole link, held only by a strand lying over or under it
    B = random_diagram(c, 1, 5); int k = B.n; Diag L = random_diagram(c, 1, 5); B.n += L.n; for (int m : L.mate) B.mate.push_back(m + 4 * k); B.out.insert(B.out.end(), L.out.begin(), L.out.end()); B.sign.insert(B.sign.end(), L.sign.begin(), L.sign.end()); B.tag.resize(4 * B.n); for (int x = k; x < B.n; x++) T.in.insert(x); int g = (int)c.below(4 * k), d2 = 4 * k + (int)c.below(4 * L.n), m2 = B.mate[d2]; bool lev = c.flag(); B = add_bigon(B, g, d2, 0, 0); set_level(B, 4 * B.n - 8, lev); set_level(B, 4 * B.n - 4, lev); T.bd = {d2, m2}; c.label("whole link"); }
  else if (B = random_diagram(c, 2, upto(c, 10)); !random_tangle(c, B, T, c.range(1, std::max(1, std::min(B.n - 1, 6))))) c.discard("no tangle"); if (fingers) { int k = c.chance(1, 4) ? 0 : c.range(1, 2); while (k--) plant_finger(c, B, T); }
  s.pd = make_pd(c, B); if (c.flag()) for (unsigned k = 0; k < s.pd->ncomps && k < 26; k++) s.pd->comp[k].tag = 'A' + (k * 7 + 3) % 26; s.P = from_pd(c, s.pd, "pd"); auto m = dart_map(B, s.P); if (m.empty()) c.fail("the code of %s is another diagram", show(B).c_str()); for (int x : T.in) s.T.in.insert(m[4 * x] / 4); for (int b : T.bd) s.T.bd.push_back(m[b]);
  for (int b : s.T.bd) if (std::count(s.T.bd.begin(), s.T.bd.end(), s.P.mate[b])) c.discard("an edge leaves the tangle and comes straight back"); int r = (int)c.below(s.T.bd.size()); std::rotate(s.T.bd.begin(), s.T.bd.begin() + r, s.T.bd.end());
  for (unsigned f = 0; f < s.pd->nfaces; f++) for (unsigned i = 0; i < s.pd->face[f].nedges; i++) { const pd_edge_t &E = s.pd->edge[s.pd->face[f].edge[i]]; s.leftface[s.pd->face[f].orient[i] == PD_POS_ORIENTATION ? 4 * E.tail + E.tailpos : 4 * E.head + E.headpos] = f; }
  for (int b : s.T.bd) { s.edge.push_back(s.pd->cross[b / 4].edge[b & 3]); s.face.push_back(s.leftface[s.P.mate[b]]); } return s; }
static string shows(const Setup &s) { string t = pd_dump(s.pd) + " boundary edges"; for (int e : s.edge) t += " " + std::to_string(e); t += " inside"; for (int x : s.T.in) t += " " + std::to_string(x); t += " faces"; for (int f : s.face) t += " " + std::to_string(f); return t; }
static pd_tangle_t *make_tangle(const Setup &s) { pd_tangle_t *t = pd_tangle_new(s.edge.size()); for (size_t i = 0; i < s.edge.size(); i++) { t->edge[i] = s.edge[i]; t->face[i] = s.face[i]; } return t; }
PROPERTY(C19, contents, 20000, 400000, 60, "at least 2 crossings inside") {
  Setup s = setup(c, c.chance(1, 3)); c.note("%s", shows(s).c_str()); c.nontrivial(s.T.in.size() >= 2); c.labelf("edges=%zu", s.edge.size()); pd_tangle_t *t = make_tangle(s); string tx = pd_dump(s.pd); bool viaErr = c.flag(); int err = 0; if (viaErr) pd_regenerate_tangle_err(s.pd, t, &err); else pd_regenerate_tangle(s.pd, t); CHECK(c, !err, "refused with error %d", err); CHECK(c, pd_dump(s.pd) == tx, "the diagram changed"); CHECK(c, pd_tangle_ok(s.pd, t), "tangle not ok");
  size_t n = s.edge.size(); CHECK(c, t->nedges == n && t->nstrands == n / 2, "%u edges, %u strands", t->nedges, t->nstrands); for (size_t i = 0; i < n; i++) { bool goesout = s.P.out[s.T.bd[i]]; CHECK(c, t->edge[i] == (unsigned)s.edge[i] && t->face[i] == (unsigned)s.face[i], "the boundary was changed"); CHECK(c, t->edge_bdy_or[i] == (goesout ? out : in), "edge %d marked %d", s.edge[i], (int)t->edge_bdy_or[i]); CHECK(c, pd_tangle_bdy_or(s.pd, t, s.edge[i]) == (goesout ? out : in), "orientation of edge %d", s.edge[i]); }
  std::set<int> gi(t->interior_cross, t->interior_cross + t->ninterior_cross), ge(t->interior_edge, t->interior_edge + t->ninterior_edges), we; CHECK(c, gi.size() == t->ninterior_cross && gi == s.T.in, "%u interior crossings, expected %zu", t->ninterior_cross, s.T.in.size()); for (unsigned e = 0; e < s.pd->nedges; e++) if (s.T.in.count(s.pd->edge[e].head) && s.T.in.count(s.pd->edge[e].tail) && !std::count(s.edge.begin(), s.edge.end(), (int)e)) we.insert(e); CHECK(c, ge.size() == t->ninterior_edges && ge == we, "%u interior edges, expected %zu", t->ninterior_edges, we.size());
  size_t k = 0; for (size_t i = 0; i < n; i++) if (!s.P.out[s.T.bd[i]]) { CHECK(c, k < t->nstrands && t->strand[k].start_edge == i, "strand %zu starts at %u, expected %zu", k, t->strand[k].start_edge, i); int d = s.T.bd[i], len = 1; do { d = Diag::opp(d); len++; if (std::count(s.T.bd.begin(), s.T.bd.end(), d)) break; d = s.P.mate[d]; } while (true); size_t en = std::find(s.T.bd.begin(), s.T.bd.end(), d) - s.T.bd.begin(); CHECK(c, t->strand[k].end_edge == en && t->strand[k].nedges == (unsigned)len, "strand %zu ends at %u after %u edges, expected %zu after %d", k, t->strand[k].end_edge, t->strand[k].nedges, en, len); pd_idx_t cm, ps; pd_component_and_pos(s.pd, s.edge[i], &cm, &ps); CHECK(c, t->strand[k].comp == cm, "strand %zu on component %u", k, t->strand[k].comp); k++; }
  // a second time changes nothing; boundaries that are not a boundary are refused
  pd_regenerate_tangle(s.pd, t); CHECK(c, pd_tangle_ok(s.pd, t) && t->ninterior_cross == s.T.in.size(), "regenerating twice changes the tangle"); pd_tangle_free(&t);
  if (n >= 2 && c.chance(1, 3)) { t = make_tangle(s); int i = (int)c.below(n), kind = c.range(0, 1); if (kind == 0) t->edge[i] = t->edge[(i + 1) % n]; else { vector<int> others; for (unsigned f = 0; f < s.pd->nfaces; f++) if ((int)f != s.leftface[s.T.bd[i]] && (int)f != s.leftface[s.P.mate[s.T.bd[i]]]) others.push_back(f); if (others.empty()) c.discard("no other face"); t->face[i] = c.of(others); } int er = 0; string msg; int r = pbt::isolated([&]() { int e2 = 0; pd_regenerate_tangle_err(s.pd, t, &e2); _exit(e2 ? 0 : 17); }, 10, &msg); CHECK(c, r == 6, "a damaged boundary was not refused (%d %s)", r, msg.c_str()); pd_tangle_free(&t); c.label("damaged"); }
  pd_code_free(&s.pd);
}
// a tangle record damaged in any checked field is not accepted
PROPERTY(C19, records, 15000, 200000, 60, "damaged") {
  Setup s = setup(c, c.chance(1, 3)); pd_tangle_t *t = make_tangle(s); pd_regenerate_tangle(s.pd, t); CHECK(c, pd_tangle_ok(s.pd, t), "tangle not ok"); unsigned n = t->nedges, k = t->nstrands; bool bad = true; unsigned i = (unsigned)c.below(n), j = (unsigned)c.below(n), q = (unsigned)c.below(k); int kind = c.range(0, 11); int d = c.flag() ? 1 : -1; pd_idx_t ks = t->nstrands;
  switch (kind) {
    case 0: bad = t->edge[i] != t->edge[j]; t->edge[i] = t->edge[j]; break;
    case 1: { vector<int> others; for (unsigned f = 0; f < s.pd->nfaces; f++) if ((int)f != s.leftface[s.T.bd[i]] && (int)f != s.leftface[s.P.mate[s.T.bd[i]]]) others.push_back(f); if (others.empty()) c.discard("no other face"); t->face[i] = c.of(others); break; }
    case 2: t->edge_bdy_or[i] = t->edge_bdy_or[i] == in ? out : in; break;
    case 3: t->strand[q].nedges += d; break;
    case 4: bad = t->strand[q].end_edge != j; t->strand[q].end_edge = j; break;
    case 5: bad = t->strand[q].start_edge != j; t->strand[q].start_edge = j; break;
    case 6: { unsigned m = (unsigned)c.below(s.pd->ncomps); bad = t->strand[q].comp != m; t->strand[q].comp = m; break; }
    case 7: t->nstrands += d; break;
    case 10: case 11: { if (kind == 10) t->face[i] = t->face[c.flag() ? (i + 1) % n : (i + n - 1) % n]; else { unsigned e = (unsigned)c.below(s.pd->nedges); for (unsigned x = 0; x < n; x++) if (t->edge[x] == e) c.discard("an edge of the boundary"); t->edge[i] = e; }
      bad = false; for (unsigned x = 0; x < n; x++) for (unsigned y : {x, (x + 1) % n}) { int on = 0; auto &F = s.pd->face[t->face[y]]; for (unsigned w = 0; w < F.nedges; w++) on += F.edge[w] == t->edge[x]; if (on != 1) bad = true; } if (!bad) c.discard("still on the faces"); break; }
    case 8: { if (t->ninterior_cross < 2) c.discard("one crossing"); unsigned a = (unsigned)c.below(t->ninterior_cross), b = (unsigned)c.below(t->ninterior_cross); bad = a != b; if (c.flag()) std::swap(t->interior_cross[a], t->interior_cross[b]); else t->interior_cross[a] = t->interior_cross[b]; break; }
    default: { if (t->ninterior_edges < 2) c.discard("one edge"); unsigned a = (unsigned)c.below(t->ninterior_edges), b = (unsigned)c.below(t->ninterior_edges); bad = a != b; if (c.flag()) std::swap(t->interior_edge[a], t->interior_edge[b]); else t->interior_edge[a] = t->interior_edge[b]; break; } }
  c.nontrivial(bad); c.labelf("kind=%d", kind); c.note("kind %d %s", kind, shows(s).c_str()); bool ok = pd_tangle_ok(s.pd, t); CHECK(c, ok == !bad, "a %s tangle record (kind %d) is called %s", bad ? "damaged" : "correct", kind, ok ? "ok" : "not ok"); t->nstrands = ks; pd_tangle_free(&t); pd_code_free(&s.pd);
}
struct Run { int i; int dir; vector<int> a; };
// strands running past the tangle edges i, i+dir, ...: their edges border, on the side of the tangle, the faces between those edges; a[k] = dart at which the strand arrives at its k-th crossing (on the tangle edge, or behind a summand hanging on it)
static vector<Run> all_runs(const Setup &s, bool same_level) { const Diag &P = s.P; int m = (int)s.T.bd.size(); vector<Run> runs; auto side = [&](int tail, int dir) { return s.leftface.at(dir > 0 ? tail : P.mate[tail]); };
  for (int i = 0; i < m; i++) for (int dir : {1, -1}) for (int a0 = 0; a0 < 4 * P.n; a0++) { auto f = [&](int j) { int id = dir > 0 ? i + j : i + 1 - j; return s.face[((id % m) + m) % m]; }; int a = a0; if (P.out[a] || side(P.mate[a], dir) != f(0)) continue; Run r{i, dir, {}}; bool lev = is_over(P, a); std::set<int> X;
    while (!s.T.in.count(a / 4) && X.insert(a / 4).second && is_over(P, a) == (same_level ? lev : is_over(P, a))) { int o = Diag::opp(a); if (side(o, dir) != f((int)r.a.size() + 1)) break; r.a.push_back(a); runs.push_back(r); if ((int)r.a.size() >= m) break; a = P.mate[o]; } } return runs; }
// 2: both ends of the strand lie elsewhere; 1: a strand past one edge that starts or ends with a kink on that very edge (may be refused); 0: not allowed
static int anchored(const Setup &s, const Run &r) { std::set<int> X; for (int a : r.a) X.insert(a / 4); int p = s.P.mate[r.a[0]] / 4, q = s.P.mate[Diag::opp(r.a.back())] / 4; if (X.size() != r.a.size() || s.T.in.count(p) || s.T.in.count(q)) return 0; return !X.count(p) && !X.count(q) ? 2 : r.a.size() == 1 ? 1 : 0; }
static void strand_of(const Setup &s, const Run &r, vector<pd_idx_t> &es, vector<pd_idx_t> &fs) { auto ed = [&](int d) { return s.pd->cross[d / 4].edge[d & 3]; }; int m = (int)s.T.bd.size(); es = {ed(r.a[0])}; fs.clear(); for (int a : r.a) es.push_back(ed(Diag::opp(a))); for (size_t j = 0; j < es.size(); j++) { int id = r.dir > 0 ? r.i + (int)j : r.i + 1 - (int)j; fs.push_back(s.face[((id % m) + m) % m]); } }
// strands that are not one legal run past the tangle are refused
PROPERTY(C19, refused, 20000, 300000, 60, "the strand is not a legal one") {
  Setup s = setup(c, c.chance(3, 4)); auto any = all_runs(s, false), good = all_runs(s, true); if (any.empty()) c.discard("no strand"); Run r = any[c.below(any.size())]; vector<pd_idx_t> es, fs; strand_of(s, r, es, fs); string how = "as is";
  switch (c.pick({4, 3, 3, 2, 2, 2, 2})) {
    case 0: break;
    case 1: es[c.below(es.size())] = (pd_idx_t)c.below(s.pd->nedges); how = "an edge replaced"; break;
    case 2: fs[c.below(fs.size())] = c.flag() ? (pd_idx_t)s.face[c.below(s.face.size())] : (pd_idx_t)c.below(s.pd->nfaces); how = "a face replaced"; break;
    case 3: { size_t i = c.below(es.size()), j = c.below(es.size()); std::swap(es[i], es[j]); how = "edges exchanged"; break; }
    case 4: { size_t i = c.below(es.size()), j = c.below(es.size()); std::swap(fs[i], fs[j]); how = "faces exchanged"; break; }
    case 5: std::reverse(es.begin(), es.end()); std::reverse(fs.begin(), fs.end()); how = "reversed"; break;
    default: { int n = c.range(2, std::max(2, (int)s.T.bd.size())); pd_idx_t e = (pd_idx_t)c.below(s.pd->nedges); es = {e}; for (int i = 1; i < n; i++) es.push_back(pd_next_edge(s.pd, es.back())); fs.clear(); bool pos = c.flag(); for (int i = 0; i < n; i++) { int d = 4 * s.pd->edge[es[i]].tail + s.pd->edge[es[i]].tailpos; fs.push_back(s.leftface[pos ? d : s.P.mate[d]]); } how = "some other strand"; break; } }
  bool legal = false; for (auto &g : good) if (anchored(s, g)) { vector<pd_idx_t> e2, f2; strand_of(s, g, e2, f2); legal |= e2 == es && f2 == fs; }
  string et; for (auto e : es) et += " " + std::to_string(e); et += " faces"; for (auto e : fs) et += " " + std::to_string(e); c.note("%s (%s) %s", et.c_str(), how.c_str(), shows(s).c_str()); c.nontrivial(!legal); c.labelf("%s legal=%d", how.c_str(), legal); if (legal) { pd_code_free(&s.pd); return; }
  pd_tangle_t *t = make_tangle(s); pd_regenerate_tangle(s.pd, t); string tx = pd_dump(s.pd), msg; int r2 = pbt::isolated([&]() { pd_idx_t np = 0; pd_code_t **pc = nullptr; int err = 0; pd_tangle_slide_err(s.pd, t, (pd_idx_t)es.size(), es.data(), fs.data(), &np, &pc, &err); if (!err) puts("SLID"); else if (pd_dump(s.pd) != tx) puts("CHANGED"); fflush(stdout); _exit(err && pd_dump(s.pd) == tx ? 0 : 17); }, 10, &msg);
  CHECK(c, msg.find("SLID") == string::npos, "a strand that does not run past the tangle was slid (%s)", how.c_str()); CHECK(c, msg.find("CHANGED") == string::npos, "a refused slide changed the diagram"); CHECK(c, r2 == 6, "the slide neither succeeded nor was refused (%d %s)", r2, msg.c_str()); pd_tangle_free(&t); pd_code_free(&s.pd);
}
PROPERTY(C19, slide, 30000, 600000, 60, "the strand crosses at least 2 tangle edges, or the tangle has at least 2 crossings") {
  Setup s = setup(c, c.chance(3, 4)); int m = (int)s.T.bd.size(); const Diag &P = s.P; vector<Run> runs = all_runs(s, true);
  vector<Run> okr; for (auto &r : runs) if (anchored(s, r)) okr.push_back(r); if (okr.empty()) c.discard("no strand to slide");
  if (c.chance(2, 3)) { size_t mx = 0; for (auto &r : okr) mx = std::max(mx, r.a.size()); vector<Run> b; for (auto &r : okr) if (r.a.size() == mx) b.push_back(r); okr = b; } Run r = okr[c.below(okr.size())]; int k = (int)r.a.size(), n = k + 1; vector<pd_idx_t> es, fs; auto ed = [&](int d) { return s.pd->cross[d / 4].edge[d & 3]; }; es.push_back(ed(r.a[0])); for (int a : r.a) es.push_back(ed(Diag::opp(a)));
  // faces met in order: counter-clockwise, face[i] lies before edge[i]
  for (int j = 0; j < n; j++) { int id = r.dir > 0 ? r.i + j : r.i + 1 - j; fs.push_back(s.face[((id % m) + m) % m]); } c.nontrivial(k >= 2 || s.T.in.size() >= 2); c.labelf("slid=%d", k); c.labelf("tangle edges=%d", m); string et; for (auto e : es) et += " " + std::to_string(e); c.note("%s strand%s", shows(s).c_str(), et.c_str());
  // is the data unambiguous?
  int amb = 0; for (int st = 0; st < m; st++) for (int dir : {1, -1}) { bool ok = n <= m; for (int j = 0; j < n && ok; j++) ok = s.face[(((st + dir * j) % m) + m) % m] == (int)fs[j]; for (int j = 0; j < n && ok; j++) { int d = 4 * s.pd->edge[es[j]].tail + s.pd->edge[es[j]].tailpos; ok = s.leftface[dir > 0 ? d : P.mate[d]] == (int)fs[j]; } amb += ok; }
  // the model
  std::set<int> X; for (int a : r.a) X.insert(a / 4); bool lev = is_over(P, r.a[0]); vector<int> comp; for (int j = 0; j < m - k; j++) { int id = r.dir > 0 ? r.i - 1 - j : r.i + 1 + j; comp.push_back(s.T.bd[((id % m) + m) % m]); } int p = P.mate[r.a[0]], q = P.mate[Diag::opp(r.a.back())]; bool self = X.count(p / 4) || X.count(q / 4); if (self) c.label("kink on the edge"); { int id = r.i; bool direct = true; for (int j = 0; j < k; j++) direct &= P.mate[s.T.bd[(((id + r.dir * j) % m) + m) % m]] / 4 == r.a[j] / 4; if (!direct) c.label("behind a summand"); }
  Diag W = P; int base = W.n; W.n += (int)comp.size(); W.mate.resize(4 * W.n); W.out.resize(4 * W.n); W.sign.resize(W.n, 2); W.tag.resize(4 * W.n); auto join = [&](int a, int b) { W.mate[a] = b; W.mate[b] = a; };
  for (int a : r.a) join(W.mate[Diag::ccw(a)], W.mate[Diag::cw(a)]); // take the strand away
  for (size_t j = 0; j < comp.size(); j++) { int z = 4 * (base + (int)j), b = comp[j], y = W.mate[b]; join(b, z); join(z + 2, y); W.out[z] = !P.out[b]; W.out[z + 2] = P.out[b]; W.tag[z] = W.tag[z + 2] = P.tag[b]; }
  p = W.mate[r.a[0]]; q = W.mate[Diag::opp(r.a.back())]; int prev = p, tg = P.tag[r.a[0]]; for (size_t j = 0; j < comp.size(); j++) { int z = 4 * (base + (int)j); bool ccwise = r.dir < 0; int si = ccwise ? z + 1 : z + 3, so = ccwise ? z + 3 : z + 1; W.out[si] = 0; W.out[so] = 1; W.tag[si] = W.tag[so] = tg; join(prev, si); prev = so; } join(prev, q); for (size_t j = 0; j < comp.size(); j++) set_level(W, 4 * (base + (int)j) + 1, lev);
  Pieces want; { // drop the crossings X
    vector<int> nw(W.n, -1); Diag E; for (int i = 0; i < W.n; i++) if (!X.count(i)) { nw[i] = E.n++; E.sign.push_back(W.sign[i]); } E.mate.resize(4 * E.n); E.out.resize(4 * E.n); E.tag.resize(4 * E.n); for (int d = 0; d < 4 * W.n; d++) if (nw[d / 4] >= 0) { int x = 4 * nw[d / 4] + (d & 3); E.mate[x] = 4 * nw[W.mate[d] / 4] + (W.mate[d] & 3); E.out[x] = W.out[d]; E.tag[x] = W.tag[d]; } want.parts = split(E); }
  pd_tangle_t *t = make_tangle(s); pd_regenerate_tangle(s.pd, t); string tx = pd_dump(s.pd); pd_idx_t np = 0; pd_code_t **pc = nullptr; int err = 0; pd_tangle_slide_err(s.pd, t, n, es.data(), fs.data(), &np, &pc, &err); CHECK(c, pd_dump(s.pd) == tx, "the diagram given was changed");
  if (err) { CHECK(c, amb != 1 || self, "a legal slide was refused"); c.discard("ambiguous description"); }
  std::multiset<vector<int>> a, b; for (auto &D : want.parts) a.insert(canon(D, TAGGED)); string gs; for (pd_idx_t i = 0; i < np; i++) { check_valid(c, pc[i], "piece"); CHECK(c, pd_ok(pc[i]), "piece not ok"); gs += pc[i]->ncross ? show(from_pd(c, pc[i], "p")) : string("circle"); gs += " ; "; b.insert(pc[i]->ncross ? canon(from_pd(c, pc[i], "piece"), TAGGED) : vector<int>{-9}); }
  string ws; for (auto &D : want.parts) ws += show(D) + " ; "; c.labelf("pieces=%zu", want.parts.size()); CHECK(c, a == b, "after the slide: %s expected: %s", gs.c_str(), ws.c_str()); for (pd_idx_t i = 0; i < np; i++) pd_code_free(&pc[i]); free(pc); pd_tangle_free(&t); pd_code_free(&s.pd);
}
