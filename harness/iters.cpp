// C25 the enumerators (permutations, dihedral and cyclic groups, orientations, products of them) and
// the containers (growable array, sorted index buffer, bit strings) that every diagram search is built on.
#include "diag.hpp"
#define new new_
extern "C" {
#include "pd_container.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_cyclic.h"
#include "pd_orientation.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
#include "pd_sortedbuf.h"
#include "pd_pack.h"
}
#undef new
using std::vector; using std::string;
typedef vector<pd_idx_t> P;
static string str(const P &p) { string s = "("; for (auto x : p) s += std::to_string((int)x) + " "; if (s.size() > 1) s.pop_back(); return s + ")"; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static P identity(int n) { P p(n); for (int i = 0; i < n; i++) p[i] = i; return p; }
static P shuffled(pbt::Case &c, int n) { P p = identity(n); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[i - (int)c.below(i + 1)]); return p; }
static P inverse(const P &a) { P r(a.size()); for (size_t i = 0; i < a.size(); i++) r[a[i]] = i; return r; }
static P mul(const P &a, const P &b) { P r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[b[i]]; return r; }
static bool is_perm(const P &p) { vector<bool> s(p.size()); for (auto x : p) { if (x >= p.size() || s[x]) return false; s[x] = true; } return true; }
static P cycles_of(const P &p) { P r(p.size(), ~0u); for (size_t i = 0; i < p.size(); i++) if (r[i] == ~0u) for (size_t j = i; r[j] == ~0u; j = p[j]) r[j] = i; return r; }
// ---------------------------------------------------------------- permutations
static pd_perm_t *mk(const P &p) { pd_idx_t n = p.size(); pd_perm_t *q = (pd_perm_t *)pd_new_perm(&n); std::copy(p.begin(), p.end(), q->map); pd_regenerate_pcidx(q); return q; }
static P get(pd_perm_t *p) { return P(p->map, p->map + p->n); }
static void freep(pd_perm_t *p) { void *v = p; pd_free_perm(&v); }
static bool parse_cycles(const char *s, int n, P &out) { out = identity(n); if (!strcmp(s, "e")) return true; vector<bool> seen(n); while (*s) { if (*s++ != '(') return false; vector<int> cy; for (;;) { char *e; long v = strtol(s, &e, 10); if (e == s || v < 0 || v >= n || seen[v]) return false; seen[v] = true; cy.push_back(v); s = e; if (*s == ')') { s++; break; } if (*s++ != ' ') return false; } for (size_t i = 0; i < cy.size(); i++) out[cy[i]] = cy[(i + 1) % cy.size()]; } return true; }
PROPERTY(C25, permutations, 60000, 3000000, 60, "at least three elements") {
  bool big = c.chance(1, 6); int n = big ? c.range(7, c.chance(1, 8) ? 300 : 40) : c.range(1, 8); c.nontrivial(n > 2); c.labelf("n=%s", n <= 6 ? "1-6 (tables)" : n <= 12 ? "7-12" : ">12"); P a = c.chance(1, 4) ? identity(n) : shuffled(c, n); if (c.chance(1, 5)) { a = identity(n); std::reverse(a.begin(), a.end()); for (int k = c.range(0, 5); k > 0; k--) std::prev_permutation(a.begin(), a.end()); }
  c.note("start %s", str(a).c_str()); pd_perm_t *A = mk(a); CHECK(c, pd_perm_ok(A), "permutation rejected"); { pd_idx_t nn = n; pd_perm_t *E = (pd_perm_t *)pd_new_perm(&nn); CHECK(c, get(E) == identity(n) && pd_perm_is_e(E) && pd_perm_ok(E), "a new permutation is not the identity"); freep(E); }
  if (n <= 12) { uint64_t f = 1; for (int i = 2; i <= n; i++) f *= i; CHECK(c, pd_nperms(A) == f, "%u permutations of %d elements", pd_nperms(A), n); }
  int steps = n <= 6 && c.chance(1, 3) ? (int)pd_nperms(A) : c.range(1, 30); pd_perm_t *W = (pd_perm_t *)pd_copy_perm(A); P w = a; for (int i = 0; i < steps; i++) { pd_increment_perm(W); std::next_permutation(w.begin(), w.end()); CHECK(c, get(W) == w, "step %d gives %s, expected %s", i, str(get(W)).c_str(), str(w).c_str()); CHECK(c, pd_perm_ok(W), "step %d gives an invalid permutation %s", i, str(w).c_str()); } if (n <= 6 && steps == (int)pd_nperms(A)) { c.label("full cycle"); CHECK(c, pd_perms_eq(W, A), "not back at the start"); } CHECK(c, get(A) == a, "incrementing a copy changed the original");
  P b = c.chance(1, 5) ? a : shuffled(c, n); pd_perm_t *Q = mk(b); int cmp = pd_perm_cmp(&A, &Q); CHECK(c, sgn(cmp) == (a < b ? -1 : a > b ? 1 : 0), "comparison of %s and %s is %d", str(a).c_str(), str(b).c_str(), cmp); CHECK(c, pd_perms_eq(A, Q) == (a == b) && pd_perm_is_e(A) == (a == identity(n)), "equality or identity test wrong for %s %s", str(a).c_str(), str(b).c_str());
  pd_perm_t *M = pd_compose_perms(A, Q); CHECK(c, get(M) == mul(a, b) && pd_perm_ok(M), "%s * %s = %s", str(a).c_str(), str(b).c_str(), str(get(M)).c_str()); CHECK(c, get(A) == a && get(Q) == b, "composition changed a factor"); pd_stareq_perm(A, Q); CHECK(c, get(A) == mul(a, b) && pd_perm_ok(A) && get(Q) == b, "*= gives %s", str(get(A)).c_str()); pd_perm_t *I = pd_inverse_perm(M); CHECK(c, get(I) == inverse(mul(a, b)) && pd_perm_ok(I) && get(M) == mul(a, b), "inverse is %s", str(get(I)).c_str()); pd_increment_perm(I); { P q = inverse(mul(a, b)); std::next_permutation(q.begin(), q.end()); CHECK(c, get(I) == q, "the inverse steps to %s, expected %s", str(get(I)).c_str(), str(q).c_str()); } pd_stareq_perm(M, M); CHECK(c, get(M) == mul(mul(a, b), mul(a, b)), "square is %s", str(get(M)).c_str());
  { P x = b; uint64_t per = 1; while (x != identity(n) && per < 9000) { x = mul(x, b); per++; } if (per < 9000) CHECK(c, pd_perm_period(Q) == per && get(Q) == b, "period of %s is %u, expected %llu", str(b).c_str(), pd_perm_period(Q), (unsigned long long)per); }
  { char *s = pd_print_perm(Q); CHECK(c, s && strlen(s) < 256, "no printed form"); if (n <= 6) { P q; CHECK(c, parse_cycles(s, n, q) && (q == b || inverse(q) == b), "%s is printed as \"%s\"", str(b).c_str(), s); } else if (n <= 40) { string e = str(b); e.pop_back(); CHECK(c, !strncmp(s, e.c_str(), e.size()), "%s is printed as \"%s\"", str(b).c_str(), s); } else c.label("long print"); free(s); }
  // a buffer of permutations, with or without a repeat
  { int k = c.range(1, 12); vector<pd_perm_t *> buf; std::set<P> uniq; vector<P> vals; for (int i = 0; i < k; i++) { P p = i && c.chance(1, 12) ? vals[c.below(i)] : shuffled(c, n); vals.push_back(p); uniq.insert(p); buf.push_back(mk(p)); } CHECK(c, pd_perms_unique(k, buf.data()) == ((int)uniq.size() == k), "%d permutations, %zu different, judged %sunique", k, uniq.size(), (int)uniq.size() == k ? "not " : ""); c.labelf("repeats=%d", (int)uniq.size() != k); vector<P> after; for (auto *p : buf) { after.push_back(get(p)); freep(p); } std::sort(vals.begin(), vals.end()); std::sort(after.begin(), after.end()); CHECK(c, vals == after, "the uniqueness test lost a permutation"); }
  // the validity test
  { pd_perm_t *B = mk(b); if (c.flag() || n > 6) { int i = c.below(n); B->map[i] = c.chance(1, 2) ? c.below(n) : c.chance(1, 2) ? n + c.below(3) : ~0u; P p = get(B); bool good = p == b || (n > 6 && is_perm(p)); c.labelf("validity %d", good); CHECK(c, pd_perm_ok(B) == good, "%s judged %s", str(p).c_str(), good ? "invalid" : "valid"); } else { pd_idx_t old = B->pc_idx; B->pc_idx = c.chance(1, 3) ? pd_nperms(B) : c.below(pd_nperms(B) + 2); c.label("table index changed"); CHECK(c, pd_perm_ok(B) == (B->pc_idx == old), "table index %u of %s (should be %u) accepted", B->pc_idx, str(b).c_str(), old); } freep(B); }
  for (auto *p : {A, W, Q, M, I}) freep(p); void *v = mk(b); pd_free_perm(&v); CHECK(c, v == nullptr, "pointer not cleared"); pd_free_perm(&v);
}
// ---------------------------------------------------------------- dihedral and cyclic groups
static P rotn(int n, int k) { P p(n); for (int i = 0; i < n; i++) p[i] = (i + k) % n; return p; }
static P refl(int n, int k) { P p(n); for (int i = 0; i < n; i++) p[i] = (k - i + n) % n; return p; }
static P almost(pbt::Case &c, int n, bool rev) { // permutations that ascend except at n-1 -> 0, or near misses of a group element
  P p; switch (c.pick({2, 2, 1, 1})) { case 0: { P lo, hi; for (int i = 1; i < n - 1; i++) (c.flag() ? lo : hi).push_back(i); lo.insert(lo.begin(), 0); if (n > 1) hi.push_back(n - 1); p = hi; p.insert(p.end(), lo.begin(), lo.end()); break; } case 1: p = rotn(n, c.below(n)); std::swap(p[c.below(n)], p[c.below(n)]); break; case 2: p = shuffled(c, n); break; default: p = rotn(n, c.below(n)); p[c.below(n)] = c.below(n + 2); } if (rev) std::reverse(p.begin(), p.end()); return p; }
PROPERTY(C25, groups, 60000, 3000000, 60, "at least three elements") {
  bool cyc = c.flag(); int n = c.range(1, c.chance(1, 6) ? 150 : 9); c.nontrivial(n > 2); c.note("%s group on %d elements", cyc ? "cyclic" : "dihedral", n); c.labelf("%s n=%s", cyc ? "cyclic" : "dihedral", n <= 2 ? n == 1 ? "1" : "2" : n < 10 ? "3-9" : ">=10"); pd_iterops_t ops = cyc ? cyclic_ops : dihedral_ops; pd_idx_t nn = n; void *d = ops.new_(&nn); int order = cyc ? n : 2 * n; CHECK(c, (int)ops.nvals(d) == order, "%u elements, expected %d", ops.nvals(d), order);
  auto map = [&](void *x) { return cyc ? P(((pd_cyclic_t *)x)->map, ((pd_cyclic_t *)x)->map + n) : P(((pd_dihedral_t *)x)->map, ((pd_dihedral_t *)x)->map + n); }; auto orr = [&](void *x) { return cyc ? (int)PD_POS_ORIENTATION : (int)((pd_dihedral_t *)x)->orient; }; typedef std::pair<int, P> E; auto elt = [&](void *x) { return E(orr(x) == PD_POS_ORIENTATION ? 0 : 1, map(x)); };
  std::set<E> model, seen; for (int k = 0; k < n; k++) { model.insert(E(0, rotn(n, k))); if (!cyc) model.insert(E(1, refl(n, k))); } CHECK(c, elt(d) == E(0, identity(n)), "a new element is not the identity");
  vector<void *> all; vector<E> vals; for (int i = 0; i < order; i++) { E e = elt(d); CHECK(c, model.count(e), "step %d gives %s with orientation %d, not a group element", i, str(e.second).c_str(), e.first); CHECK(c, seen.insert(e).second, "step %d repeats %s", i, str(e.second).c_str()); CHECK(c, ops.ok(d), "group element %s (orientation %d) rejected", str(e.second).c_str(), e.first); if (n < 12) { all.push_back(ops.copy(d)); vals.push_back(e); } char *s = ops.print(d); char want[64]; snprintf(want, sizeof want, "%s %d", e.first ? "ref" : "rot", (int)e.second[0]); CHECK(c, s && !strcmp(s, want), "%s printed as \"%s\"", str(e.second).c_str(), s ? s : "(null)"); free(s); ops.incr(d); }
  CHECK(c, elt(d) == E(0, identity(n)), "not back at the identity after %d steps", order);
  if (!all.empty()) { for (int t = 0; t < 6; t++) { int i = c.below(all.size()), j = c.below(all.size()); CHECK(c, elt(all[i]) == vals[i], "stored copy %d changed", i); CHECK(c, sgn(ops.cmp(&all[i], &all[j])) == (vals[i] < vals[j] ? -1 : vals[i] > vals[j] ? 1 : 0), "comparison of %s and %s wrong", str(vals[i].second).c_str(), str(vals[j].second).c_str()); } int k = c.range(1, 6); vector<void *> buf; std::set<E> u; for (int i = 0; i < k; i++) { int j = c.below(all.size()); buf.push_back(all[j]); u.insert(vals[j]); } bool r = cyc ? pd_cyclics_unique(k, (pd_cyclic_t **)buf.data()) : pd_dihedrals_unique(k, (pd_dihedral_t **)buf.data()); CHECK(c, r == ((int)u.size() == k), "%d elements, %zu different, judged %sunique", k, u.size(), r ? "" : "not "); for (auto *x : all) ops.free(&x); }
  // the validity test
  for (int t = 0; t < 4; t++) { int o = cyc ? 0 : c.range(0, 2); P p = almost(c, n, o == 1); pd_idx_t *m = cyc ? ((pd_cyclic_t *)d)->map : ((pd_dihedral_t *)d)->map; std::copy(p.begin(), p.end(), m); if (!cyc) ((pd_dihedral_t *)d)->orient = o == 0 ? PD_POS_ORIENTATION : o == 1 ? PD_NEG_ORIENTATION : PD_UNSET_ORIENTATION; bool good = o < 2 && model.count(E(o, p)); c.labelf("validity %d", good); CHECK(c, ops.ok(d) == good, "%s with orientation %d judged %s", str(p).c_str(), o, good ? "invalid" : "valid"); char *s = ops.print(d); if (o < 2) CHECK(c, s && strlen(s) < 256, "no printed form"); if (o < 2 && !good && is_perm(p)) CHECK(c, s[0] == '[', "%s with orientation %d printed as the group element \"%s\"", str(p).c_str(), o, s); free(s); }
  ops.free(&d); CHECK(c, d == nullptr, "pointer not cleared");
}
// ---------------------------------------------------------------- products
PROPERTY(C25, products, 30000, 1000000, 60, "at least two factors and at least four states") {
  int kind = c.below(4); pd_iterops_t ops = kind == 0 ? orientation_ops : kind == 1 ? cyclic_ops : kind == 2 ? dihedral_ops : perm_ops; int nobj = c.range(0, kind == 0 ? 9 : 5); vector<pd_idx_t> size; uint64_t total = 1; for (int i = 0; i < nobj; i++) { pd_idx_t s = c.range(1, kind == 3 ? 5 : 7); uint64_t v = kind == 0 ? 2 : kind == 1 ? s : kind == 2 ? 2 * s : (s == 1 ? 1 : s == 2 ? 2 : s == 3 ? 6 : s == 4 ? 24 : 120); if (total * v > 2500) break; total *= v; size.push_back(s); } nobj = size.size(); c.nontrivial(nobj > 1 && total > 3); vector<void *> init; for (auto &s : size) init.push_back(&s); c.note("kind %d, %d factors, %llu states", kind, nobj, (unsigned long long)total); c.labelf("%s factors=%d", kind == 0 ? "orientation" : kind == 1 ? "cyclic" : kind == 2 ? "dihedral" : "permutation", nobj);
  pd_multidx_t *x = pd_new_multidx(nobj, kind == 0 && c.flag() ? nullptr : init.data(), ops); CHECK(c, x && pd_multidx_nvals(x) == total, "%u states, expected %llu", pd_multidx_nvals(x), (unsigned long long)total); CHECK(c, pd_multidx_ok(x), "new product of %d factors judged invalid", nobj);
  vector<void *> model; for (int i = 0; i < nobj; i++) model.push_back(ops.new_(&size[i])); vector<unsigned> st(nobj, 0); pd_multidx_t *snap = nullptr; uint64_t at = 0; vector<pd_multidx_t *> some; for (uint64_t s = 0; s <= total; s++) { for (int i = 0; i < nobj; i++) { CHECK(c, x->i[i] == st[i], "state %llu: counter %d is %u, expected %u", (unsigned long long)s, i, x->i[i], st[i]); CHECK(c, ops.cmp(&x->obj[i], &model[i]) == 0, "state %llu: factor %d is not in its state %u", (unsigned long long)s, i, st[i]); }
    if (s % 37 == 0) CHECK(c, pd_multidx_ok(x), "state %llu judged invalid", (unsigned long long)s); if (s == total) break; if (!snap && c.below(total) <= total / 3) { snap = pd_copy_multidx(x); at = s; } if (total <= 64 || c.chance(1, 40)) some.push_back(pd_copy_multidx(x)); pd_increment_multidx(x); for (int i = nobj - 1; i >= 0; i--) { ops.incr(model[i]); if (++st[i] < ops.nvals(model[i])) break; st[i] = 0; } }
  for (int i = 0; i < nobj; i++) CHECK(c, x->i[i] == 0, "not back at the start after %llu steps", (unsigned long long)total);
  if (snap) { c.label("copy continued"); for (uint64_t s = at; s < total; s++) pd_increment_multidx(snap); CHECK(c, pd_multidx_cmp(&snap, &x) == 0 && pd_multidx_ok(snap), "a copy taken at state %llu does not finish the cycle", (unsigned long long)at); pd_free_multidx(&snap); CHECK(c, snap == nullptr, "pointer not cleared"); }
  if (!some.empty()) { CHECK(c, pd_multidxs_unique(some.size(), some.data()), "different states judged equal"); int i = c.below(some.size()), j = c.below(some.size()); int cm = pd_multidx_cmp(&some[i], &some[j]), cm2 = pd_multidx_cmp(&some[j], &some[i]); CHECK(c, sgn(cm) == -sgn(cm2) && (cm == 0) == (i == j), "comparison inconsistent"); int ex = -2; for (int k = 0; k < nobj && (ex == -2 || ex == 0); k++) ex = sgn(ops.cmp(&some[i]->obj[k], &some[j]->obj[k])); if (nobj) CHECK(c, sgn(cm) == ex, "products are not ordered by their first different factor"); vector<pd_multidx_t *> dup = some; dup.insert(dup.begin() + c.below(dup.size() + 1), pd_copy_multidx(some[i])); vector<pd_multidx_t *> keep = dup; CHECK(c, !pd_multidxs_unique(dup.size(), dup.data()) && dup == keep, "repeated state not found, or the list was reordered"); for (auto *p : dup) pd_free_multidx(&p); }
  if (nobj) { int i = c.below(nobj); x->i[i] = x->nvals[i] + c.below(2); CHECK(c, !pd_multidx_ok(x), "counter out of range accepted"); } pd_free_multidx(&x); for (auto *m : model) ops.free(&m);
}
// products too large to run through: the number of states, and as many steps as one likes
PROPERTY(C25, large_products, 20000, 500000, 60, "more than 65536 states") {
  int kind = c.below(4); pd_iterops_t ops = kind == 0 ? orientation_ops : kind == 1 ? cyclic_ops : kind == 2 ? dihedral_ops : perm_ops; int nobj = c.range(0, kind == 0 ? 31 : 12); vector<pd_idx_t> size; uint64_t total = 1; for (int i = 0; i < nobj; i++) { pd_idx_t s = c.range(1, kind == 3 ? 9 : c.chance(1, 6) ? 300 : 12); uint64_t v = kind == 0 ? 2 : kind == 1 ? s : kind == 2 ? 2 * s : 1; if (kind == 3) for (unsigned k = 2; k <= s; k++) v *= k; if (total * v > 0xffffffffull) break; total *= v; size.push_back(s); } nobj = size.size(); c.nontrivial(total > 65536); vector<void *> init; for (auto &s : size) init.push_back(&s); c.note("kind %d, %d factors, %llu states", kind, nobj, (unsigned long long)total); c.labelf("%s states=%s", kind == 0 ? "orientation" : kind == 1 ? "cyclic" : kind == 2 ? "dihedral" : "permutation", total < 256 ? "<2^8" : total < 65536 ? "<2^16" : "2^16 or more");
  pd_multidx_t *x = pd_new_multidx(nobj, init.data(), ops); CHECK(c, x && pd_multidx_nvals(x) == total, "%u states, expected %llu", pd_multidx_nvals(x), (unsigned long long)total); vector<void *> model; for (int i = 0; i < nobj; i++) model.push_back(ops.new_(&size[i])); vector<unsigned> st(nobj, 0); uint64_t steps = std::min<uint64_t>(c.below(c.chance(1, 20) ? 70000 : 600), total);
  for (uint64_t s = 0; s < steps; s++) { pd_increment_multidx(x); for (int i = nobj - 1; i >= 0; i--) { ops.incr(model[i]); if (++st[i] < ops.nvals(model[i])) break; st[i] = 0; } } pd_multidx_t *y = pd_copy_multidx(x); CHECK(c, pd_multidx_ok(x) && pd_multidx_nvals(y) == total && (nobj == 0 || pd_multidx_cmp(&x, &y) == 0), "after %llu steps", (unsigned long long)steps); for (int i = 0; i < nobj; i++) CHECK(c, x->i[i] == st[i] && y->i[i] == st[i] && ops.cmp(&x->obj[i], &model[i]) == 0, "after %llu steps counter %d is %u, expected %u", (unsigned long long)steps, i, x->i[i], st[i]); pd_free_multidx(&x); pd_free_multidx(&y); for (auto *m : model) ops.free(&m);
}
// ---------------------------------------------------------------- containers
static int g_freed; static void count_free(void **p) { g_freed++; free(*p); *p = nullptr; }
PROPERTY(C25, container, 30000, 1000000, 60, "the container grew beyond its first buffer") {
  int initsize = c.chance(1, 3) ? c.range(0, 5) : c.range(0, 400); pd_container_t *K = pd_new_container(initsize); vector<void *> m; int maxn = 0; int steps = c.range(1, 30); c.note("initial size %d", initsize); CHECK(c, K && pd_container_nelts(K) == 0 && pd_container_ok(K), "new container not empty");
  for (int s = 0; s < steps; s++) { int k = c.pick({4, 2, 3}); if (k == 0) { int q = c.chance(1, 3) ? c.range(1, 500) : c.range(1, 40); for (int i = 0; i < q; i++) { void *e = c.chance(1, 50) ? nullptr : malloc(1); pd_addto_container(K, e); m.push_back(e); } } else if (k == 1) { int q = c.chance(1, 4) ? c.range(0, (int)m.size()) : c.range(0, 20); for (int i = 0; i < q && !m.empty(); i++) { void *e = pd_pop_container(K); CHECK(c, e == m.back(), "popped a different element than the last one added"); m.pop_back(); free(e); } } else if (!m.empty()) for (int i = 0; i < 10; i++) { unsigned j = c.below(m.size()); CHECK(c, pd_container_elt(K, j) == m[j], "element %u is wrong", j); }
    maxn = std::max(maxn, (int)m.size()); CHECK(c, pd_container_nelts(K) == m.size() && pd_container_ok(K), "%u elements, expected %zu", pd_container_nelts(K), m.size()); }
  for (size_t j = 0; j < m.size(); j++) CHECK(c, pd_container_elt(K, j) == m[j], "element %zu is wrong", j); c.nontrivial(maxn >= std::max(initsize, 100)); c.labelf("max size %s", maxn < 100 ? "<100" : maxn < 1000 ? "<1000" : ">=1000"); int live = 0; for (auto *e : m) live += e != nullptr; g_freed = 0; bool own = c.flag(); pd_free_container(&K, own ? count_free : nullptr); CHECK(c, K == nullptr && (!own || g_freed == live), "%d elements freed, expected %d", g_freed, live); pd_free_container(&K, count_free);
}
PROPERTY(C25, sorted_buffer, 100000, 5000000, 60, "at least four insertions") {
  pd_idx_t *b = nullptr, n = 0; std::set<pd_idx_t> m; int steps = c.range(1, 60), span = c.chance(1, 3) ? 0 : c.range(3, 100); c.nontrivial(steps > 3); auto val = [&]() -> pd_idx_t { return span ? c.below(span) : c.pick({3, 1, 1, 2}) == 0 ? c.below(50) : c.flag() ? ~0u - c.below(4) : c.flag() ? 0x7ffffff0u + c.below(40) : (pd_idx_t)c.u64(); }; string log;
  for (int s = 0; s < steps; s++) { pd_idx_t v = val(); b = pd_sortedbuf_insert(b, &n, v); m.insert(v); log += std::to_string(v) + " "; CHECK(c, n == m.size() && std::equal(m.begin(), m.end(), b), "after inserting %s the buffer is %s", log.c_str(), str(P(b, b + std::min<pd_idx_t>(n, 70))).c_str()); pd_idx_t q = c.flag() ? val() : *std::next(m.begin(), c.below(m.size())); CHECK(c, pd_sortedbuf_contains(b, n, q) == (m.count(q) > 0), "membership of %u wrong after inserting %s", q, log.c_str()); }
  c.note("inserted %s", log.substr(0, 200).c_str()); P a; int k = c.range(1, 20); for (int i = 0; i < k; i++) a.push_back(val()); pd_idx_t q = c.flag() ? a[c.below(k)] : val(), w = 77; bool r = pd_buf_contains(a.data(), k, q, &w); auto it = std::find(a.begin(), a.end(), q); CHECK(c, r == (it != a.end()) && (r ? w < (pd_idx_t)k && a[w] == q : w == PD_UNSET_IDX), "search of %u in %s gives %d at %u", q, str(a).c_str(), r, w); free(b);
}
PROPERTY(C25, bits, 100000, 5000000, 60, "more than one machine word") {
  int n = c.range(1, c.chance(1, 3) ? 3000 : 70); if (c.chance(1, 4)) n = 32 * c.range(1, 9); vector<unsigned> b(n); uint64_t s = 0; for (int i = 0; i < n; i++) { if (i % 64 == 0) s = c.u64(); b[i] = s >> (i % 64) & 1; } c.nontrivial(n > 32); c.note("%d bits", n); unsigned words = 0; unsigned *p = pd_packbitstring(b.data(), n, &words); CHECK(c, words == (unsigned)(n + 31) / 32, "%d bits packed in %u words", n, words); for (int i = 0; i < (int)words * 32; i++) CHECK(c, (p[i / 32] >> (i % 32) & 1) == (i < n ? b[i] : 0), "bit %d of %d wrong", i, n); unsigned *u = pd_unpackbitstring(p, n); CHECK(c, std::equal(b.begin(), b.end(), u), "%d bits do not survive packing", n); free(p); free(u);
  unsigned nc = c.chance(1, 2) ? c.range(1, 70) : c.chance(1, 2) ? (1u << c.range(0, 20)) + c.range(-1, 1) : c.range(1, 1000000); if (nc < 1) nc = 1; unsigned bits = pd_indexbits(nc); CHECK(c, (uint64_t)1 << bits >= 2ull * nc && (bits == 0 || (uint64_t)1 << (bits - 1) < 2ull * nc), "%u bits for the edges of %u crossings", bits, nc); CHECK(c, pd_packbits(nc, UNSIGNED_CROSSINGS) == nc * (4 + 4 * bits) && pd_packbits(nc, SIGNED_CROSSINGS) == nc * (5 + 4 * bits), "packed length of %u crossings wrong", nc); pd_idx_t e = c.chance(1, 4) ? 2 * nc - 1 : c.below(2 * nc); unsigned *q = pd_idx_bitencode(e, nc); for (unsigned i = 0; i < bits; i++) CHECK(c, q[i] == (e >> i & 1), "bit %u of edge %u wrong", i, e); CHECK(c, pd_idx_bitdecode(q, nc) == e, "edge %u of %u crossings decodes to %u", e, nc, pd_idx_bitdecode(q, nc)); free(q);
}
