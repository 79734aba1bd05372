// Moves on the independent diagram model of diag.hpp.
#pragma once
#include "diag.hpp"
namespace dg {
struct Pieces { vector<Diag> parts; vector<int> circles; }; // connected parts with crossings; tags of crossing-free components
// connected parts of a (possibly disconnected) diagram; order of crossings inside a part is kept
inline vector<Diag> split(const Diag &D) {
  vector<int> p(D.n); std::iota(p.begin(), p.end(), 0); std::function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; for (int d = 0; d < 4 * D.n; d++) p[f(d / 4)] = f(D.mate[d] / 4);
  map<int, int> id; vector<vector<int>> g; for (int i = 0; i < D.n; i++) { int r = f(i); if (!id.count(r)) { id[r] = (int)g.size(); g.push_back({}); } g[id[r]].push_back(i); }
  vector<Diag> R; for (auto &v : g) { map<int, int> nw; for (size_t i = 0; i < v.size(); i++) nw[v[i]] = (int)i; Diag E; E.n = (int)v.size(); E.mate.resize(4 * E.n); E.out.resize(4 * E.n); E.tag.assign(4 * E.n, 0); E.sign.resize(E.n); for (size_t i = 0; i < v.size(); i++) { E.sign[i] = D.sign[v[i]]; for (int q = 0; q < 4; q++) { int d = 4 * v[i] + q, m = D.mate[d]; E.mate[4 * i + q] = 4 * nw[m / 4] + (m & 3); E.out[4 * i + q] = D.out[d]; if (!D.tag.empty()) E.tag[4 * i + q] = D.tag[d]; } } R.push_back(E); }
  return R; }
// strands pass straight through the removed crossings
inline Pieces remove_crossings(const Diag &D, const std::set<int> &S) {
  Pieces P; vector<int> nw(D.n, -1); Diag E; for (int i = 0; i < D.n; i++) if (!S.count(i)) { nw[i] = E.n++; E.sign.push_back(D.sign[i]); }
  E.mate.resize(4 * E.n); E.out.resize(4 * E.n); E.tag.assign(4 * E.n, 0);
  for (int d = 0; d < 4 * D.n; d++) if (nw[d / 4] >= 0) { int m = D.mate[d]; while (nw[m / 4] < 0) m = D.mate[Diag::opp(m)]; E.mate[4 * nw[d / 4] + (d & 3)] = 4 * nw[m / 4] + (m & 3); E.out[4 * nw[d / 4] + (d & 3)] = D.out[d]; if (!D.tag.empty()) E.tag[4 * nw[d / 4] + (d & 3)] = D.tag[d]; }
  for (auto &cv : D.comps()) { bool any = false; for (int d : cv) any |= nw[d / 4] >= 0; if (!any) P.circles.push_back(D.tag.empty() ? 0 : D.tag[cv[0]]); }
  if (E.n) P.parts = split(E); return P; }
// a new crossing on the edge leaving at dart d, its loop in the face to the left of d
inline Diag add_kink(const Diag &D, int d, int sign = 2) {
  Diag E = D; int x = 4 * D.n, m = D.mate[d]; E.n++; E.mate.resize(4 * E.n); E.out.resize(4 * E.n); E.sign.push_back(sign); if (!D.tag.empty()) { E.tag.resize(4 * E.n); for (int p = 0; p < 4; p++) E.tag[x + p] = D.tag[d]; }
  auto join = [&](int a, int b) { E.mate[a] = b; E.mate[b] = a; }; join(d, x); join(x + 1, m); join(x + 2, x + 3);
  bool o = D.out[d]; E.out[x] = !o; E.out[x + 1] = o; E.out[x + 2] = o; E.out[x + 3] = !o; return E; }
// edge leaving at d1 pushed across the edge leaving at d2; both have the face on their left and are different edges
inline Diag add_bigon(const Diag &D, int d1, int d2, int s1 = 2, int s2 = 2) {
  Diag E = D; int X = 4 * D.n, Y = X + 4, m1 = D.mate[d1], m2 = D.mate[d2]; E.n += 2; E.mate.resize(4 * E.n); E.out.resize(4 * E.n); E.sign.push_back(s1); E.sign.push_back(s2);
  auto join = [&](int a, int b) { E.mate[a] = b; E.mate[b] = a; }; join(X, d1); join(X + 2, Y + 2); join(Y, m1); join(d2, Y + 1); join(Y + 3, X + 1); join(X + 3, m2);
  bool o1 = D.out[d1], o2 = D.out[d2]; E.out[X] = !o1; E.out[X + 2] = o1; E.out[Y + 2] = !o1; E.out[Y] = o1; E.out[Y + 1] = !o2; E.out[Y + 3] = o2; E.out[X + 1] = !o2; E.out[X + 3] = o2;
  if (!D.tag.empty()) { E.tag.resize(4 * E.n); for (int b : {X, Y}) { E.tag[b] = E.tag[b + 2] = D.tag[d1]; E.tag[b + 1] = E.tag[b + 3] = D.tag[d2]; } } return E; }
// triangle whose sides leave at t[0], t[1], t[2] (face on the left, three different crossings)
inline Diag flip_triangle(const Diag &D, const vector<int> &t) {
  Diag E = D; map<int, int> to; vector<int> P, Q, R, S; for (int i = 0; i < 3; i++) { int q = t[i], r = D.mate[q]; P.push_back(Diag::opp(q)); Q.push_back(q); R.push_back(r); S.push_back(Diag::opp(r)); }
  for (int i = 0; i < 3; i++) { to[P[i]] = R[i]; to[S[i]] = Q[i]; } // where the outer end formerly attached at P / S attaches now
  auto join = [&](int a, int b) { E.mate[a] = b; E.mate[b] = a; };
  for (int i = 0; i < 3; i++) for (int e : {P[i], S[i]}) { int o = D.mate[e]; int o2 = to.count(o) ? to[o] : o; join(to[e], o2); }
  for (int i = 0; i < 3; i++) join(S[i], P[i]);
  return E; }
inline Diag connect_sum(const Diag &A, int a, const Diag &B, int b) { // edges leaving at the outgoing darts a of A and b of B
  Diag E = A; int s = 4 * A.n; E.n = A.n + B.n; for (int d = 0; d < 4 * B.n; d++) { E.mate.push_back(B.mate[d] + s); E.out.push_back(B.out[d]); } for (int x : B.sign) E.sign.push_back(x); E.tag.clear();
  int ma = A.mate[a], mb = B.mate[b] + s; b += s; E.mate[a] = mb; E.mate[mb] = a; E.mate[b] = ma; E.mate[ma] = b; return E; }
inline vector<int> canon_key(const Diag &D, Deco k) { return canon(D, k); }
}
