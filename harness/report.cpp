// C39 formatted reports: text passes through, every conversion shows what the record holds.
#include "diag.hpp"
#define new new_
extern "C" {
#include "pd_container.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_cyclic.h"
#include "pd_orientation.h"
#include "pd_isomorphisms.h"
}
#undef new
#include <unistd.h>
#include <functional>
using namespace dg;
typedef vector<string> Toks;
typedef vector<pd_idx_t> P;
static string num(long v) { return std::to_string(v); }
static string sg(pd_or_t o) { return o == PD_POS_ORIENTATION ? "+" : o == PD_NEG_ORIENTATION ? "-" : o == PD_UNSET_ORIENTATION ? "U" : "?"; }
static string idx(pd_idx_t i) { return i == PD_UNSET_IDX ? "PD_UNSET_IDX" : num(i); }
static string pos(pd_pos_t i) { return i == PD_UNSET_POS ? "PD_UNSET_POS" : num(i); }
// numbers, signs, and the words that carry information
static Toks toks(const string &s) { Toks r; for (size_t i = 0; i < s.size();) { unsigned char ch = s[i]; if (isdigit(ch)) { size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) j++; r.push_back(s.substr(i, j - i)); i = j; } else if (isalpha(ch) || ch == '_') { size_t j = i; while (j < s.size() && (isalpha((unsigned char)s[j]) || s[j] == '_')) j++; string w = s.substr(i, j - i); if (w == "in" || w == "out" || w == "U" || w == "PD_UNSET_IDX" || w == "PD_UNSET_POS" || w == "rot" || w == "ref") r.push_back(w); i = j; } else if (ch == '-' && i + 1 < s.size() && s[i + 1] == '>') i += 2; else { if (ch == '+' || ch == '-' || ch == '?') r.push_back(string(1, ch)); i++; } } return r; }
static string joined(const Toks &t) { string s; for (auto &x : t) s += x + " "; return s; }
static P identity(int n) { P p(n); std::iota(p.begin(), p.end(), 0u); return p; }
static P shuffled(pbt::Case &c, int n) { P p = identity(n); if (n > 1 && c.chance(1, 8)) return p; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[i - (int)c.below(i + 1)]); return p; }
static bool parse_cycles(const string &t, int n, P &out) { const char *s = t.c_str(); out = identity(n); if (!strcmp(s, "e")) return true; vector<bool> seen(n); while (*s) { if (*s++ != '(') return false; vector<int> cy; for (;;) { char *e; long v = strtol(s, &e, 10); if (e == s || v < 0 || v >= n || seen[v]) return false; seen[v] = true; cy.push_back(v); s = e; if (*s == ')') { s++; break; } if (*s++ != ' ') return false; } for (size_t i = 0; i < cy.size(); i++) out[cy[i]] = cy[(i + 1) % cy.size()]; } return true; }
static string trim(string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; return s.substr(i); }
// a permutation appears as cycles (few elements), as the list of images, or, when that is long, as a remark
static bool perm_shown(const string &text, const P &p) { string s = trim(text); P q; if (p.size() <= 6) { if (!parse_cycles(s, p.size(), q)) return false; if (q == p) return true; P r(q.size()); for (size_t i = 0; i < q.size(); i++) r[q[i]] = i; return r == p; }
  string all = "("; for (auto x : p) all += num(x) + " "; if (all.size() >= 250 && s.find("CHARS") != string::npos) return true; Toks w; for (auto x : p) w.push_back(num(x)); return toks(s) == w; }
static pd_perm_t *mkperm(const P &p) { pd_idx_t n = p.size(); pd_perm_t *q = (pd_perm_t *)pd_new_perm(&n); std::copy(p.begin(), p.end(), q->map); pd_regenerate_pcidx(q); return q; }
static pd_or_t ror(pbt::Case &c, bool any = true) { int k = any && c.chance(1, 8) ? 2 : (int)c.below(2); return k == 0 ? PD_POS_ORIENTATION : k == 1 ? PD_NEG_ORIENTATION : PD_UNSET_ORIENTATION; }

struct Conv { string fmt; vector<uintptr_t> args; std::function<string(const string &)> ok; string what; };
static int rsize(pbt::Case &c) { return c.chance(1, 12) ? c.range(41, 400) : c.chance(1, 3) ? c.range(7, 40) : c.range(1, 6); }
static std::function<string(const string &)> expect(Toks w) { return [w](const string &s) { Toks g = toks(s); return g == w ? string() : "printed \"" + s.substr(0, 300) + "\", the record holds " + joined(w).substr(0, 300); }; }

static Conv conversion(pbt::Case &c, pd_code_t *pd, vector<std::function<void()>> &cleanup) {
  Conv v; Toks w; int kind = (int)c.below(21); c.labelf("kind=%d", kind);
  auto edgetoks = [](pd_edgemap_t *m) { Toks t; for (unsigned i = 0; i < m->perm->n; i++) { t.push_back(sg(m->orient[i])); t.push_back(num(m->perm->map[i])); } return t; };
  auto mkedge = [&](int n) { pd_idx_t k = n; pd_edgemap_t *m = pd_new_edgemap(&k); P p = shuffled(c, n); std::copy(p.begin(), p.end(), m->perm->map); pd_regenerate_pcidx(m->perm); for (int i = 0; i < n; i++) m->orient[i] = ror(c); return m; };
  switch (kind) {
    case 0: { unsigned f = (unsigned)c.below(pd->nfaces); v.fmt = "%FACE"; v.args = {f}; w = {num(f)}; for (unsigned i = 0; i < pd->face[f].nedges; i++) { w.push_back(pd->face[f].orient[i] == PD_POS_ORIENTATION ? "+" : "-"); w.push_back(num(pd->face[f].edge[i])); } break; }
    case 1: { unsigned e = (unsigned)c.below(pd->nedges); v.fmt = "%EDGE"; v.args = {e}; auto &E = pd->edge[e]; w = {num(e), idx(E.tail), pos(E.tailpos), idx(E.head), pos(E.headpos)}; break; }
    case 2: { unsigned x = (unsigned)c.below(pd->ncross); v.fmt = "%CROSS"; v.args = {x}; w = {num(x)}; for (int i = 0; i < 4; i++) w.push_back(idx(pd->cross[x].edge[i])); w.push_back(sg(pd->cross[x].sign)); break; }
    case 3: { unsigned k = (unsigned)c.below(pd->ncomps); v.fmt = "%COMP"; v.args = {k}; w = {num(k)}; for (unsigned i = 0; i < pd->comp[k].nedges; i++) w.push_back(idx(pd->comp[k].edge[i])); char tag = pd->comp[k].tag; v.ok = [w, tag](const string &s) { string t = trim(s); if (t.empty() || t.back() != tag) return "component tag " + string(1, tag) + " not shown in \"" + s + "\""; t.pop_back(); Toks g = toks(t); return g == w ? string() : "printed \"" + s + "\", the record holds " + joined(w); }; break; }
    case 4: { v.fmt = "%PD"; char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); pd_write(f, pd); fclose(f); string t(b, n); free(b); v.ok = [t](const string &s) { return s.find(t) != string::npos && trim(s) == trim(t) ? string() : "printed \"" + s + "\", written form is \"" + t + "\""; }; break; }
    case 5: { pd_or_t *o = (pd_or_t *)malloc(sizeof *o); *o = ror(c); cleanup.push_back([o] { free(o); }); v.fmt = "%OR"; v.args = {(uintptr_t)o}; w = {sg(*o)}; break; }
    case 6: { int n = c.range(1, 5); vector<pd_idx_t> sz; vector<void *> data; for (int i = 0; i < n; i++) sz.push_back(c.range(1, 9)); for (auto &x : sz) data.push_back(&x); bool cyc = c.flag(); pd_multidx_t *m = pd_new_multidx(n, data.data(), cyc ? cyclic_ops : dihedral_ops); unsigned nv = pd_multidx_nvals(m), st = (unsigned)c.below(std::min(nv, 200u)); while (st--) pd_increment_multidx(m); cleanup.push_back([m]() mutable { pd_free_multidx(&m); }); v.fmt = "%MULTIDX"; v.args = {(uintptr_t)m};
      for (int i = 0; i < n; i++) { w.push_back(num(m->i[i])); w.push_back(num(m->nvals[i])); if (cyc) { w.push_back("rot"); w.push_back(num(((pd_cyclic_t *)m->obj[i])->map[0])); } else { auto *d = (pd_dihedral_t *)m->obj[i]; w.push_back(d->orient == PD_POS_ORIENTATION ? "rot" : "ref"); w.push_back(num(d->map[0])); } } break; }
    case 7: { int n = c.range(0, 30); pd_compgrp_t *g = (pd_compgrp_t *)calloc(1, sizeof *g); g->ncomps = n; g->comp = (pd_idx_t *)calloc(n + 1, sizeof(pd_idx_t)); for (int i = 0; i < n; i++) { g->comp[i] = (pd_idx_t)c.below(c.flag() ? 10 : 100000); w.push_back(num(g->comp[i])); } cleanup.push_back([g] { free(g->comp); free(g); }); v.fmt = "%COMPGRP"; v.args = {(uintptr_t)g}; break; }
    case 8: { int nc = rsize(c), ne = rsize(c), nf = rsize(c), nk = c.range(1, 8); pd_iso_t *I = (pd_iso_t *)calloc(1, sizeof *I); P pc = shuffled(c, nc), pf = shuffled(c, nf), pk = shuffled(c, nk); I->compperm = mkperm(pk); I->edgemap = mkedge(ne); pd_idx_t a = nc, b = nf; I->crossmap = pd_new_crossmap(&a); I->facemap = pd_new_facemap(&b); std::copy(pc.begin(), pc.end(), I->crossmap->perm->map); pd_regenerate_pcidx(I->crossmap->perm); std::copy(pf.begin(), pf.end(), I->facemap->perm->map); pd_regenerate_pcidx(I->facemap->perm); I->crossmap->orient = ror(c); I->facemap->orient = ror(c);
      Toks et = edgetoks(I->edgemap); string co = sg(I->crossmap->orient), fo = sg(I->facemap->orient); cleanup.push_back([I]() mutable { pd_free_iso(&I); }); v.fmt = "%ISO"; v.args = {(uintptr_t)I};
      v.ok = [=](const string &s) { size_t k = s.find("compperm"), e = s.find("edgemap"), x = s.find("crossmap"), f = s.find("facemap"); if (k == string::npos || e == string::npos || x == string::npos || f == string::npos || !(k < e && e < x && x < f)) return "parts missing in \"" + s.substr(0, 300) + "\""; if (toks(s.substr(0, k)) != Toks{num(nc), num(ne), num(nf), num(nk)}) return "sizes wrong in \"" + s.substr(0, k) + "\""; if (!perm_shown(s.substr(k + 8, e - k - 8), pk)) return "components wrong in \"" + s.substr(k, e - k) + "\""; if (toks(s.substr(e + 7, x - e - 7)) != et) return "edges wrong in \"" + s.substr(e, x - e) + "\"";
        string xs = trim(s.substr(x + 8, f - x - 8)), fs = trim(s.substr(f + 7)); if (xs.substr(0, 1) != co || !perm_shown(xs.substr(1), pc)) return "crossings wrong in \"" + xs + "\""; if (fs.substr(0, 1) != fo || !perm_shown(fs.substr(1), pf)) return "faces wrong in \"" + fs + "\""; return string(); }; break; }
    case 9: { P p = shuffled(c, rsize(c)); pd_perm_t *q = mkperm(p); unsigned pc = q->pc_idx; cleanup.push_back([q] { void *z = q; pd_free_perm(&z); }); v.fmt = "%PERM"; v.args = {(uintptr_t)q}; v.ok = [p, pc](const string &s) { size_t i = s.find("idx"); if (i == string::npos) return "no index in \"" + s + "\""; Toks w; for (auto x : p) w.push_back(num(x)); if (toks(s.substr(0, i)) != w) return "images wrong in \"" + s + "\""; const char *q = s.c_str() + i + 3; char *e; long k = strtol(q, &e, 10); if (e == q || k != (long)pc) return "index wrong in \"" + s + "\""; return perm_shown(e, p) ? string() : "pretty form wrong in \"" + s + "\""; }; break; }
    case 10: { pd_idx_t n = rsize(c); pd_dihedral_t *d = (pd_dihedral_t *)pd_new_dihedral(&n); unsigned st = (unsigned)c.below(2 * n); while (st--) pd_increment_dihedral(d); w = {d->orient == PD_POS_ORIENTATION ? "rot" : "ref", num(d->map[0])}; cleanup.push_back([d] { void *z = d; pd_free_dihedral(&z); }); v.fmt = "%DIHEDRAL"; v.args = {(uintptr_t)d}; break; }
    case 11: { pd_idx_t n = rsize(c); pd_cyclic_t *d = (pd_cyclic_t *)pd_new_cyclic(&n); unsigned st = (unsigned)c.below(n); while (st--) pd_increment_cyclic(d); w = {"rot", num(d->map[0])}; cleanup.push_back([d] { void *z = d; pd_free_cyclic(&z); }); v.fmt = "%CYCLIC"; v.args = {(uintptr_t)d}; break; }
    case 12: { pd_edgemap_t *m = mkedge(c.chance(1, 40) ? 3000 : rsize(c)); w = edgetoks(m); cleanup.push_back([m]() mutable { pd_free_edgemap(&m); }); v.fmt = "%EDGEMAP"; v.args = {(uintptr_t)m}; break; }
    case 13: case 14: { P p = shuffled(c, rsize(c)); pd_idx_t n = p.size(); pd_or_t o = ror(c); string key; if (kind == 13) { pd_crossmap_t *m = pd_new_crossmap(&n); std::copy(p.begin(), p.end(), m->perm->map); pd_regenerate_pcidx(m->perm); m->orient = o; cleanup.push_back([m]() mutable { pd_free_crossmap(&m); }); v.fmt = "%CROSSMAP"; v.args = {(uintptr_t)m}; key = "crossmap"; } else { pd_facemap_t *m = pd_new_facemap(&n); std::copy(p.begin(), p.end(), m->perm->map); pd_regenerate_pcidx(m->perm); m->orient = o; cleanup.push_back([m]() mutable { pd_free_facemap(&m); }); v.fmt = "%FACEMAP"; v.args = {(uintptr_t)m}; key = "facemap"; }
      v.ok = [p, o, key](const string &s) { size_t i = s.find(key); string t = i == string::npos ? "" : trim(s.substr(i + key.size())); return !t.empty() && t.substr(0, 1) == sg(o) && perm_shown(t.substr(1), p) ? string() : "map wrong in \"" + s + "\""; }; break; }
    case 15: { pd_crossing_t *x = (pd_crossing_t *)calloc(1, sizeof *x); for (int i = 0; i < 4; i++) { x->edge[i] = (pd_idx_t)c.below(c.flag() ? 20 : 2000000); w.push_back(num(x->edge[i])); } x->sign = ror(c); w.push_back(sg(x->sign)); cleanup.push_back([x] { free(x); }); v.fmt = "%CROSSPTR"; v.args = {(uintptr_t)x}; break; }
    case 16: { int n = 2 * c.range(1, 6); pd_tangle_t *t = pd_tangle_new(n); auto some = [&] { return c.chance(1, 12) ? PD_UNSET_IDX : (pd_idx_t)c.below(c.flag() ? 12 : 5000); }; auto bd = [](pd_boundary_or_t o) { return o == in ? string("in") : o == out ? string("out") : string("?"); }; for (int i = 0; i < n; i++) { t->edge[i] = some(); t->face[i] = some(); int k = (int)c.below(3); t->edge_bdy_or[i] = k == 0 ? in : k == 1 ? out : unset; w.push_back(idx(t->edge[i])); w.push_back(bd(t->edge_bdy_or[i])); } for (int i = 0; i < n; i++) w.push_back(idx(t->face[i]));
      for (int i = 0; i < n / 2; i++) { auto &s = t->strand[i]; s.start_edge = (pd_idx_t)c.below(n); s.end_edge = (pd_idx_t)c.below(n); s.nedges = some(); s.comp = some(); for (auto x : {s.start_edge, t->edge[s.start_edge], s.end_edge, t->edge[s.end_edge], s.nedges, s.comp}) w.push_back(idx(x)); }
      auto fill = [&](pd_idx_t &k, pd_idx_t *&a) { k = (pd_idx_t)c.below(8); w.push_back(num(k)); a = k ? (pd_idx_t *)calloc(k, sizeof(pd_idx_t)) : nullptr; for (unsigned i = 0; i < k; i++) { a[i] = some(); w.push_back(idx(a[i])); } }; fill(t->ninterior_cross, t->interior_cross); fill(t->ninterior_edges, t->interior_edge); cleanup.push_back([t]() mutable { pd_tangle_free(&t); }); v.fmt = "%TANGLE"; v.args = {(uintptr_t)t}; break; }
    case 17: { unsigned f = (unsigned)c.below(pd->nfaces), e = (unsigned)c.below(pd->face[f].nedges); v.fmt = "%FEDGE"; v.args = {f, e}; w = {num(pd->face[f].edge[e]), pd->face[f].orient[e] == PD_POS_ORIENTATION ? "+" : "-"}; break; }
    case 18: { pd_orientation_t *o = (pd_orientation_t *)pd_new_orientation(nullptr); o->orient = ror(c); w = {sg(o->orient)}; cleanup.push_back([o] { void *z = o; pd_free_orientation(&z); }); v.fmt = "%ORIENTATION"; v.args = {(uintptr_t)o}; break; }
    case 19: { pd_boundary_or_t *o = (pd_boundary_or_t *)malloc(sizeof *o); int k = (int)c.below(3); *o = k == 0 ? in : k == 1 ? out : unset; w = {k == 0 ? "in" : k == 1 ? "out" : "?"}; cleanup.push_back([o] { free(o); }); v.fmt = "%BDY_OR"; v.args = {(uintptr_t)o}; break; }
    default: if (c.flag()) { int d = c.chance(1, 3) ? (int)c.u64() : c.range(-1000, 1000); v.fmt = "%d"; v.args = {(uintptr_t)(long)d}; string t = num(d); v.ok = [t](const string &s) { return s == t ? string() : "printed \"" + s + "\" for " + t; }; } else { string t; int n = c.range(0, 12); while (n--) { char ch = (char)(32 + c.below(95)); t += ch == '<' ? '.' : ch; } char *b = strdup(t.c_str()); cleanup.push_back([b] { free(b); }); v.fmt = "%s"; v.args = {(uintptr_t)b}; v.ok = [t](const string &s) { return s == t ? string() : "printed \"" + s + "\" for \"" + t + "\""; }; }
  }
  if (!v.ok) v.ok = expect(w); v.what = v.fmt; return v; }

PROPERTY(C39, formats, 600000, 6000000, 30, "at least two conversions") {
  Diag D = random_diagram(c, 1, upto(c, 8)); random_signs(c, D); pd_code_t *pd = make_pd(c, D); if (c.chance(1, 6)) pd->cross[c.below(pd->ncross)].sign = PD_UNSET_ORIENTATION; for (unsigned i = 0; i < pd->ncomps; i++) pd->comp[i].tag = 'A' + (char)c.below(26);
  if (c.chance(1, 6)) { auto &E = pd->edge[c.below(pd->nedges)]; if (c.flag()) { E.head = PD_UNSET_IDX; E.headpos = PD_UNSET_POS; } else { E.tail = PD_UNSET_IDX; E.tailpos = PD_UNSET_POS; } } if (c.chance(1, 8)) pd->cross[c.below(pd->ncross)].edge[c.below(4)] = PD_UNSET_IDX; if (c.chance(1, 8)) { auto &K = pd->comp[c.below(pd->ncomps)]; K.edge[c.below(K.nedges)] = PD_UNSET_IDX; }
  string before = pd_dump(pd); vector<std::function<void()>> cleanup; vector<Conv> cv; vector<string> lit; int n = c.range(0, 5), na = 0; bool end = c.flag();
  auto literal = [&](int i, bool last) { string s = last && end ? "" : "<" + num(i) + ":"; if (s.empty()) return s; int k = c.range(0, 9); while (k--) { int z = (int)c.below(20); if (z == 0) s += '\n'; else if (z == 1) s += '\t'; else if (z == 2 && k) { static const char *odd[] = {"%q", "%%", "%5d", "%f", "%x", "%Face", "%Lu"}; s += odd[c.below(7)]; s += c.flag() ? " " : c.flag() ? "\n" : "\t"; c.label("unrecognised"); } else { char ch = (char)(32 + c.below(95)); if (ch == '%' || ch == '<') ch = '.'; s += ch; } } return s + ">"; };
  lit.push_back(c.chance(1, 4) ? "" : literal(0, false)); for (int i = 0; i < n; i++) { Conv v = conversion(c, pd, cleanup); if (na + (int)v.args.size() > 8) { break; } na += v.args.size(); cv.push_back(v); lit.push_back(literal(i + 1, i == n - 1)); }
  if (c.chance(1, 10)) { lit.back() += c.flag() ? "%q" : "%"; c.label("unrecognised at the end"); }
  string fmt; vector<uintptr_t> a; for (size_t i = 0; i < lit.size(); i++) { fmt += lit[i]; if (i < cv.size()) { fmt += cv[i].fmt; for (auto x : cv[i].args) a.push_back(x); } } a.resize(8); c.nontrivial(cv.size() >= 2); c.note("format \"%s\" for %s", fmt.c_str(), show(D).c_str());
  // a format whose last literal is empty must not have glued the final conversion to anything: by construction it ends the string
  char *buf = nullptr; size_t len = 0; FILE *m = open_memstream(&buf, &len), *old = stdout; string f0 = fmt; stdout = m; pd_printf(&fmt[0], pd, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); stdout = old; fclose(m); string got(buf, len); free(buf); CHECK(c, fmt == f0, "the format string was changed");
  size_t at = 0; for (size_t i = 0; i < lit.size(); i++) { if (i == 0) { CHECK(c, got.compare(0, lit[0].size(), lit[0]) == 0, "text before the first conversion: \"%s\" is printed as \"%s\"", lit[0].c_str(), got.substr(0, 200).c_str()); at = lit[0].size(); if (cv.empty()) CHECK(c, got.size() == at, "printed \"%s\"", got.c_str()); continue; }
    bool last = i + 1 == lit.size(); size_t e; if (last) { CHECK(c, got.size() >= at + lit[i].size() && got.compare(got.size() - lit[i].size(), string::npos, lit[i]) == 0, "text after %s: expected \"%s\" at the end of \"%s\"", cv[i - 1].what.c_str(), lit[i].c_str(), got.substr(at).c_str()); e = got.size() - lit[i].size(); } else { e = got.find(lit[i], at); CHECK(c, e != string::npos, "text after %s: \"%s\" not found in \"%s\"", cv[i - 1].what.c_str(), lit[i].c_str(), got.substr(at).c_str()); }
    string why = cv[i - 1].ok(got.substr(at, e - at)); CHECK(c, why.empty(), "%s: %s", cv[i - 1].what.c_str(), why.c_str()); at = e + lit[i].size(); }
  CHECK(c, pd_dump(pd) == before, "reporting changed the diagram"); for (auto &f : cleanup) f(); pd_code_free(&pd);
}
