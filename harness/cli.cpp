// C34, C35: the programs, run as a user runs them, against the library and the models.
#include "curve.hpp"
#include "diag.hpp"
#include "model_moves.hpp"
#include <cfloat>
#include <set>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#define new new_
extern "C" {
#include "octrope.h"
#include "pd_container.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
#include "pd_invariants.h"
}
#undef new
using std::vector; using std::string; using std::map; using std::set; using std::multiset;
using cv::V; using cv::Curve; using cv::Strand; using cv::vec; using cv::rvec; using cv::norm; using cv::cross; using cv::dot; using cv::dist;
using cv::operator+; using cv::operator-; using cv::operator*;
using dg::Diag; using dg::Deco; using dg::canon;
namespace {
// ---------------------------------------------------------------- a directory per case, and programs run in it
struct Dir {
  string p; Dir() { p = string(pbt::scratch()) + "/cli"; wipe(p); mkdir(p.c_str(), 0700); } ~Dir() { wipe(p); }
  static void wipe(const string &d) { DIR *h = opendir(d.c_str()); if (!h) { unlink(d.c_str()); return; } while (auto *e = readdir(h)) { string n = e->d_name; if (n != "." && n != "..") { struct stat st; string f = d + "/" + n; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(f); else unlink(f.c_str()); } } closedir(h); rmdir(d.c_str()); }
  vector<string> list(const string &sub = "") const { vector<string> r; DIR *h = opendir((p + "/" + sub).c_str()); if (h) { while (auto *e = readdir(h)) { string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(h); } std::sort(r.begin(), r.end()); return r; }
  string read(const string &f) const { string s; FILE *i = fopen((p + "/" + f).c_str(), "r"); if (!i) return s; char b[4096]; size_t k; while ((k = fread(b, 1, 4096, i)) > 0) s.append(b, k); fclose(i); return s; }
  bool has(const string &f) const { return access((p + "/" + f).c_str(), F_OK) == 0; }
  void write(const string &f, const string &s) const { FILE *o = fopen((p + "/" + f).c_str(), "w"); fwrite(s.data(), 1, s.size(), o); fclose(o); } };
struct Out { int status; string text, err; };
Out run(pbt::Case &c, const Dir &d, const char *tool, const vector<string> &args) {
  string var = "TOOL_"; for (const char *q = tool; *q; q++) var += (char)toupper(*q); const char *exe = getenv(var.c_str()); if (!exe) { fprintf(stderr, "no program %s\n", var.c_str()); _exit(3); }
  string so = string(pbt::scratch()) + "/cli.out", se = string(pbt::scratch()) + "/cli.err"; pid_t pid = fork();
  if (pid == 0) { if (chdir(d.p.c_str())) _exit(97); int o = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), i = open("/dev/null", O_RDONLY); dup2(i, 0); dup2(o, 1); dup2(e, 2); struct rlimit r = {40, 40}; setrlimit(RLIMIT_CPU, &r); r = {0, 0}; setrlimit(RLIMIT_CORE, &r); setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1); setenv("UBSAN_OPTIONS", "halt_on_error=1:exitcode=99", 1); unsetenv("GSL_RNG_TYPE"); unsetenv("GSL_RNG_SEED"); vector<char *> av = {(char *)tool}; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr); execv(exe, av.data()); _exit(98); }
  int st = 0; waitpid(pid, &st, 0); Out r; r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); auto rd = [](const string &f) { string s; FILE *i = fopen(f.c_str(), "r"); if (!i) return s; char b[4096]; size_t k; while ((k = fread(b, 1, 4096, i)) > 0) s.append(b, k); fclose(i); return s; }; r.text = rd(so); r.err = rd(se);
  string all = tool; for (auto &a : args) all += " " + a; if (r.status < 0 || r.status >= 97) c.fail("%s: %s %d: %s", all.c_str(), r.status < 0 ? "signal" : "status", abs(r.status), r.err.substr(0, 400).c_str()); return r; }
vector<string> lines(const string &s) { vector<string> r; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == string::npos) b = s.size(); r.push_back(s.substr(a, b - a)); a = b + 1; } return r; }
vector<double> numbers(const string &s) { vector<double> r; const char *p = s.c_str(); while (*p) { char *e; double x = strtod(p, &e); if (e == p) break; r.push_back(x); p = e; } return r; }
bool near(double a, double b, double rel, double abs) { return a == b || (std::isnan(a) && std::isnan(b)) || fabs(a - b) <= abs + rel * std::max(fabs(a), fabs(b)); }
// ---------------------------------------------------------------- curves
Strand loop(pbt::Case &c, int n, V centre, double r) { Strand s; int m = c.range(1, 3); vector<V> a, b; for (int k = 1; k <= m; k++) { a.push_back((r / k) * rvec(c, 2)); b.push_back((r / k) * rvec(c, 2)); } for (int i = 0; i < n; i++) { V p = centre; for (int k = 1; k <= m; k++) p = p + cos(2 * M_PI * k * i / n) * a[k - 1] + sin(2 * M_PI * k * i / n) * b[k - 1]; s.v.push_back(p); } return s; }
Curve gen(pbt::Case &c) { Curve C; int k = c.pick({5, 3, 1}) + 1, style = c.pick({2, 2, 2}); double sc = c.pick({3, 1}) == 0 ? 1 : pow(10, c.real(-1, 1)); for (int i = 0; i < k; i++) { int n = c.range(3, c.chance(1, 10) ? 60 : 14); V ctr = c.real(0, 1.5) * rvec(c, 2); Strand s; if (style == 0) for (int j = 0; j < n; j++) s.v.push_back(ctr + rvec(c, 2)); else if (style == 1) { s = loop(c, std::max(n, 6), ctr, 1); for (auto &v : s.v) v = v + 0.02 * rvec(c, 1); /* no exactly parallel edges: which struts are kept there is a matter of rounding */ } else { V p = ctr; for (int j = 0; j < n; j++) { s.v.push_back(p); p = p + cv::unit(c); } } s.open = c.chance(1, 3); s.cst.resize(s.v.size()); for (auto &v : s.v) v = sc * v; C.cp.push_back(s); } return C; }
// no corner that doubles back, no repeated vertex
bool tame(const Curve &C) { for (auto &s : C.cp) { int n = (int)s.v.size(); for (int i = 0; i < n; i++) { if (s.open && i == n - 1) continue; V b = s.v[(i + 1) % n] - s.v[i]; if (norm(b) < 1e-3) return false; if (s.open && i == 0) continue; V a = s.v[i] - s.v[(i + n - 1) % n]; if (norm(a) < 1e-3 || norm(a) * norm(b) + dot(a, b) < 1e-3 * norm(a) * norm(b)) return false; } } return true; }
string vect(const Curve &C) { plCurve *L = cv::build(C); char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); plc_write(f, L); fclose(f); string s(b, z); free(b); plc_free(L); return s; }
plCurve *parse(pbt::Case &c, const string &s, const char *what) { FILE *f = fmemopen((void *)s.data(), s.size(), "r"); int e = 0; char m[256] = ""; plCurve *L = f ? plc_read(f, &e, m, 256) : nullptr; if (f) fclose(f); CHECK(c, L && !e, "%s is not a curve file: %s", what, m); return L; }
const char *bases[] = {"k", "knot_file", "a.b-c", "vect"};
string name(pbt::Case &c, const char *ext) { string s = bases[c.below(4)]; if (c.chance(3, 4)) s += ext; return s; }
}
PROPERTY(C34, curvature, 1500, 40000, 60, "at least one closed component") {
  Curve C = gen(c); if (!tame(C)) c.discard("a corner that doubles back"); Dir d; string fn = name(c, ".vect"), out, text = vect(C); vector<string> a; bool sub = c.chance(1, 3); if (sub) { mkdir((d.p + "/in").c_str(), 0700); a.push_back("in/" + fn); } else a.push_back(fn); d.write(a[0], text);
  if (c.chance(1, 3)) { out = "out.txt"; a.insert(a.begin() + c.below(2), c.flag() ? "--outfile=out.txt" : "-oout.txt"); } else { out = fn; size_t k = out.find(".vect"); if (k != string::npos) out = out.substr(0, k); out += ".curvature.dat"; }
  c.note("%s", cv::show(C).c_str()); for (auto &s : C.cp) c.nontrivial(!s.open); auto before = d.list(sub ? "in" : ""); Out r = run(c, d, "plcurvature", a); CHECK(c, r.status == 0, "status %d", r.status); CHECK(c, d.has(out), "no file %s", out.c_str()); CHECK(c, d.read(sub ? "in/" + fn : fn) == text, "the curve file changed");
  plCurve *L = parse(c, text, "input"); vector<vector<double>> rows; for (auto &l : lines(d.read(out))) { size_t k = l.find_first_not_of(' '); if (k == string::npos || l[k] == '#') continue; rows.push_back(numbers(l)); CHECK(c, rows.back().size() == 5, "row '%s'", l.c_str()); }
  size_t k = 0; for (int cp = 0; cp < L->nc; cp++) { double s = 0; int n = L->cp[cp].nv; bool op = L->cp[cp].open; auto v = [&](int i) { return L->cp[cp].vt[(i + n) % n]; }; for (int i = 0; i < n; i++, k++) { CHECK(c, k < rows.size(), "%zu rows", rows.size()); auto &q = rows[k]; CHECK(c, q[0] == cp && q[1] == i, "row %zu is for vertex %g:%g", k, q[0], q[1]); bool end = op && (i == 0 || i == n - 1); if (!(op && i == n - 1)) { s += dist(v(i), v(i + 1)); CHECK(c, near(q[2], s, 1e-5, 0), "arclength %g at %d:%d, really %g", q[2], cp, i, s); } double want = 0; if (!end) { V x = v(i) - v(i - 1), y = v(i + 1) - v(i); want = 2 * tan(atan2(norm(cross(x, y)), dot(x, y)) / 2) / std::min(norm(x), norm(y)); } CHECK(c, near(q[3], want, 2e-5, 1e-7), "curvature %g at %d:%d, really %g", q[3], cp, i, want); if (want > 1e-4) CHECK(c, near(q[4], 1 / want, 2e-5, 0), "radius of curvature %g at %d:%d, really %g", q[4], cp, i, 1 / want); } }
  CHECK(c, k == rows.size(), "%zu rows for %zu vertices", rows.size(), k); double tot = 0; vector<double> by; for (auto &S : C.cp) { double t = 0; int n = (int)S.v.size(); for (int i = S.open ? 1 : 0; i < (S.open ? n - 1 : n); i++) t += cv::angle(S.v[i] - S.v[(i + n - 1) % n], S.v[(i + 1) % n] - S.v[i]); by.push_back(t); tot += t; }
  size_t p = r.text.find("(all components):"), q = r.text.find("(by component):"); CHECK(c, p != string::npos && q != string::npos, "no totals: %s", r.text.c_str()); CHECK(c, near(atof(r.text.c_str() + p + 17), tot, 2e-5, 1e-6), "total curvature %s, really %g", r.text.substr(p + 17, 20).c_str(), tot); const char *z = r.text.c_str() + q + 15; for (double t : by) { char *e; double x = strtod(z, &e); CHECK(c, e != z && near(x, t, 2e-5, 1e-6), "total curvature of a component %g, really %g", x, t); z = strchr(e, ')'); CHECK(c, z, "totals"); z++; } plc_free(L);
}
PROPERTY(C34, ropelength, 1500, 40000, 60, "at least two files") {
  octrope_set_levels(0);
  Dir d; int k = c.range(1, 4); vector<string> fs, a; vector<plCurve *> Ls; double lam = 1; int how = c.pick({3, 1, 1}); if (how == 1) { lam = c.real(0.1, 3); char b[40]; snprintf(b, 40, "%.6f", lam); lam = atof(b); a.push_back("-L"); a.push_back(b); } else if (how == 2) { lam = 0; a.push_back("--lambda=0"); } bool q = c.chance(1, 3), dia = c.chance(1, 3), exc = c.chance(1, 3); if (q) a.push_back(c.flag() ? "-q" : "--quiet"); if (dia) a.push_back("--diameter"); if (exc) a.push_back("--excesslength"); if (c.chance(1, 4)) { a.push_back("-l"); a.push_back(std::to_string(c.range(0, 4))); }
  for (int i = 0; i < k; i++) { Curve C = gen(c); if (!tame(C)) c.discard("a corner that doubles back"); if (exc && C.cp.size() == 2) { bool cl = c.flag(); C.cp[0].open = cl; if (cl) { C.cp[1].open = true; c.label("clasp"); } } string t = vect(C), fn = bases[c.below(4)] + std::to_string(i) + ".vect"; d.write(fn, t); fs.push_back(fn); c.note("%s ", cv::show(C).c_str()); a.push_back(fn); Ls.push_back(parse(c, t, "input")); } c.nontrivial(k > 1); c.note("%d files, lambda %g%s", k, lam, q ? ", quiet" : "");
  struct R { double rop, thi, mr, ms, len; int edges; double ex; int nopen; double dia, tau, inr; bool clasp; }; vector<R> want; for (auto *L : Ls) { R w; octrope_error_num = 0; octrope(L, &w.rop, &w.thi, nullptr, &w.mr, &w.ms, 0, 0, nullptr, 0, nullptr, 0, 0, nullptr, 0, nullptr, nullptr, 0, lam); if (octrope_error_num) c.discard("octrope refuses the curve"); w.len = octrope_curvelength(L); w.edges = 0; w.nopen = 0; for (int i = 0; i < L->nc; i++) { w.edges += L->cp[i].nv - (L->cp[i].open ? 1 : 0); w.nopen += L->cp[i].open; if (L->cp[i].open) w.ex = dist(L->cp[i].vt[0], L->cp[i].vt[L->cp[i].nv - 1]); } w.dia = plc_pointset_diameter(L); w.clasp = exc && L->nc == 2 && w.nopen == 2; if (w.clasp) { bool ok; V T[4], P[4], Q[4]; for (int j = 0; j < 4; j++) { auto &s = L->cp[j / 2]; T[j] = plc_mean_tangent(L, j / 2, j & 1 ? s.nv - 1 : 1, &ok); P[j] = s.vt[j & 1 ? s.nv - 1 : 0]; } auto half = [&](V a, V b) { return sin(atan2(norm(cross(a, b)), dot(a, b)) / 2); }; w.tau = (half(T[0], T[1]) + half(T[2], T[3])) / 2; if (w.tau > 0.98) c.discard("a vertical clasp"); for (int j = 0; j < 4; j++) { int i1 = (j + 1) & 3, i2 = (j + 2) & 3, i3 = (j + 3) & 3; double dt = dot(T[i1], cross(T[i2], T[i3])); if (fabs(dt) < 1e-2) c.discard("end planes nearly dependent"); Q[j] = (1 / dt) * (dot(T[i1], P[i1]) * cross(T[i2], T[i3]) + dot(T[i2], P[i2]) * cross(T[i3], T[i1]) + dot(T[i3], P[i3]) * cross(T[i1], T[i2])); } auto area = [&](V x, V y, V z) { return norm(cross(y - x, z - x)) / 2; }; w.inr = fabs(dot(Q[1] - Q[0], cross(Q[2] - Q[0], Q[3] - Q[0]))) / 2 / (area(Q[0], Q[1], Q[2]) + area(Q[0], Q[1], Q[3]) + area(Q[0], Q[2], Q[3]) + area(Q[1], Q[2], Q[3])); } if (w.thi < 1e-4) c.discard("nearly self-intersecting"); w.rop = w.len / w.thi; want.push_back(w); plc_free(L); }
  Out r = run(c, d, "ropelength", a); CHECK(c, r.status == 0, "status %d: %s", r.status, r.err.c_str()); auto ls = lines(r.text);
  auto field = [&](const string &f, const char *key) -> double { string pre = f + ":"; for (auto &l : ls) if (l.compare(0, pre.size(), pre) == 0) { size_t z = pre.size() - 1; string h = string(":") + key + ": ", h2 = string("  ") + key + ": "; size_t x = l.compare(z, h.size(), h) == 0 ? z + h.size() : string::npos; if (x == string::npos) { size_t y = l.find(h2, z); if (y != string::npos) x = y + h2.size(); } if (x != string::npos) return atof(l.c_str() + x); } c.fail("no %s of %s in the output", key, f.c_str()); };
  if (q) { vector<double> got; for (auto &l : ls) { char *e; double x = strtod(l.c_str(), &e); if (e != l.c_str() && !*e) got.push_back(x); } CHECK(c, got.size() == (size_t)k, "%zu numbers for %d files: %s", got.size(), k, r.text.c_str()); for (int i = 0; i < k; i++) CHECK(c, near(got[i], want[i].rop, 1e-12, 0), "ropelength %.15g of file %d, really %.15g", got[i], i, want[i].rop); }
  else for (int i = 0; i < k; i++) { auto &w = want[i]; auto ck = [&](const char *key, double x, double rel) { double g = field(fs[i], key); CHECK(c, near(g, x, rel, 1.1e-6), "%s of %s is given as %g, really %g", key, fs[i].c_str(), g, x); }; ck("Ropelength", w.rop, 1e-9); ck("Thickness", w.thi, 1e-9); ck("Diameter Ropelength", w.rop / 2, 1e-9); ck("Diameter Thickness", 2 * w.thi, 1e-9); if (lam > 0) ck("minRad", w.mr, 1e-9); ck("minStrut", w.ms, 1e-9); ck("Edges", w.edges, 0); ck("Average Edgelength", w.len / w.edges, 1e-9); if (dia) ck("Pointset Diameter", w.dia, 2e-5); if (exc && w.nopen == 1) ck("excesslength", w.rop - w.ex, 1e-9); }
  for (int i = 0; i < k; i++) if (want[i].clasp) { string pre = fs[i] + ":tau "; bool f = false; for (auto &l : ls) { size_t x = l.find(pre); if (x == string::npos) continue; f = true; double t = atof(l.c_str() + x + pre.size()); CHECK(c, near(t, want[i].tau, 2e-5, 1e-7), "tau %g of clasp %s, really %g", t, fs[i].c_str(), want[i].tau); size_t y = l.find("inradius: "), z = l.find("excesslength: "); CHECK(c, y != string::npos && z != string::npos, "clasp: %s", l.c_str()); double in = atof(l.c_str() + y + 10), ex = atof(l.c_str() + z + 14); CHECK(c, near(in, want[i].inr, 1e-4, 1e-7), "inradius %g of clasp %s, really %g", in, fs[i].c_str(), want[i].inr); double we = want[i].rop / 2 - 4 * want[i].inr; CHECK(c, near(ex, we, 2e-5, 1e-4 * (want[i].rop + want[i].inr)), "excess length %g of clasp %s, really %g", ex, fs[i].c_str(), we); } CHECK(c, f, "nothing said about clasp %s", fs[i].c_str()); }
  if (k > 1) { int b = 0; for (int i = 1; i < k; i++) if (want[i].rop < want[b].rop) b = i; bool clear = true; for (int i = 0; i < k; i++) if (i != b && near(want[i].rop, want[b].rop, 1e-9, 0)) clear = false; bool found = false; for (auto &l : ls) { size_t x = l.find(" Rop: "); if (x != string::npos) { found = true; if (clear) CHECK(c, l.substr(0, x) == fs[b], "the shortest is said to be %s, really %s", l.substr(0, x).c_str(), fs[b].c_str()); CHECK(c, near(atof(l.c_str() + x + 6), want[b].rop, 2e-5, 0), "least ropelength %s, really %g", l.c_str(), want[b].rop); size_t y = l.find(" Thi: "); CHECK(c, y != string::npos && (!clear || near(atof(l.c_str() + y + 6), want[b].thi, 2e-5, 0)), "thickness of the shortest: %s, really %g", l.c_str(), want[b].thi); } } CHECK(c, found, "no summary"); }
}
PROPERTY(C34, struts, 1500, 40000, 60, "at least one strut") {
  octrope_set_levels(0);
  Curve C = gen(c); if (!tame(C)) c.discard("a corner that doubles back"); Dir d; string fn = name(c, ".vect"), text = vect(C); d.write(fn, text); plCurve *L = parse(c, text, "input"); vector<string> a; double cut = 1, eps = 0; int how = (int)c.below(3); char b[40]; double ms = octrope_poca(L, nullptr, 0); if (octrope_error_num) c.discard("octrope refuses the curve"); if (how == 1) { snprintf(b, 40, "%.5f", c.real(0, 2)); eps = atof(b); a.push_back("-e"); a.push_back(b); cut = 0; } else if (how == 2) { snprintf(b, 40, "%.5f", std::max(0.001, ms * c.real(0.4, 2))); cut = 2 * atof(b); a.push_back("--radius"); a.push_back(b); }
  bool nofile = c.chance(1, 4), show = c.chance(1, 2), sv = c.chance(1, 4), stats = c.chance(1, 3); if (nofile) a.push_back(c.flag() ? "-n" : "--nofile"); if (show) a.push_back("-S"); if (sv) a.push_back("--sv"); if (stats) a.push_back("-s"); int edges = plc_num_edges(L), size = 20 * edges, lev = 0; if (c.chance(1, 6)) { size = c.range(1, 5); a.push_back("-M"); a.push_back(std::to_string(size)); } if (c.chance(1, 4)) { lev = c.range(1, 4); a.push_back("-l"); a.push_back(std::to_string(lev)); } a.push_back(fn);
  vector<octrope_strut> S(size + 1); double shortest = 0; octrope_error_num = 0; octrope_set_levels(lev); int n = octrope_struts(L, cut, eps, S.data(), size, &shortest, nullptr, 0); if (octrope_error_num) c.discard("octrope refuses the curve"); c.nontrivial(n > 0); c.labelf("struts=%s", n == 0 ? "0" : n < 10 ? "1-9" : ">=10"); c.note("%s, %d struts", cv::show(C).c_str(), n);
  Out r = run(c, d, "struts", a); CHECK(c, r.status == 0, "status %d: %s", r.status, r.err.c_str()); auto ls = lines(r.text); bool file = !nofile && !sv; string out = fn; size_t k = out.find(".vect"); if (k != string::npos) out = out.substr(0, k); out += ".struts.skel"; CHECK(c, d.has(out) == file, "file %s %s", out.c_str(), file ? "missing" : "written although not wanted");
  char cnt[60]; snprintf(cnt, 60, "struts: %d struts %s", n, file ? "written" : "found"); CHECK(c, r.text.find(cnt) != string::npos, "the program says %s; there are %d struts", ls.empty() ? "nothing" : ls.back().c_str(), n); vector<std::array<V, 2>> ends; for (int i = 0; i < n; i++) { std::array<V, 2> e; octrope_strut_ends(L, &S[i], e.data()); ends.push_back(e); }
  auto fuzzy = [&](vector<vector<double>> got, vector<vector<double>> want, double tol, const char *what) { CHECK(c, got.size() == want.size(), "%zu %s for %zu struts", got.size(), what, want.size()); vector<char> used(want.size()); for (auto &g : got) { bool ok = false; for (size_t i = 0; i < want.size() && !ok; i++) if (!used[i]) { bool m = g.size() == want[i].size(); for (size_t j = 0; m && j < g.size(); j++) m = near(g[j], want[i][j], tol, tol); if (m) used[i] = ok = true; } CHECK(c, ok, "%s: one that is no strut, %g %g %g %g", what, g[0], g[1], g[2], g[3]); } };
  vector<vector<double>> we, wp; for (int i = 0; i < n; i++) { vector<double> e; for (auto &x : ends[i]) for (double y : x.c) e.push_back(y); we.push_back(e); wp.push_back({(double)S[i].component[0], (double)S[i].lead_vert[0], (double)S[i].component[1], (double)S[i].lead_vert[1], S[i].position[0], S[i].position[1]}); }
  if (file) { auto fl = lines(d.read(out)); CHECK(c, fl.size() == 2 + 3 * (size_t)n && fl[0].substr(0, 4) == "SKEL", "the file has %zu lines", fl.size()); auto h = numbers(fl[1]); CHECK(c, h.size() == 2 && h[0] == 2 * n && h[1] == n, "header %s", fl[1].c_str()); vector<vector<double>> got; for (int i = 0; i < n; i++) { auto z = numbers(fl[2 + 2 * n + i]); CHECK(c, z.size() == 3 && z[0] == 2 && z[1] >= 0 && z[2] >= 0 && z[1] < 2 * n && z[2] < 2 * n, "line %s", fl[2 + 2 * n + i].c_str()); auto x = numbers(fl[2 + (int)z[1]]), y = numbers(fl[2 + (int)z[2]]); x.insert(x.end(), y.begin(), y.end()); got.push_back(x); } fuzzy(got, we, 2e-5 * (1 + cv::max_coord(C)), "segments"); }
  if (show) { vector<vector<double>> got; for (auto &l : ls) { double q[6]; if (sscanf(l.c_str(), "%lf:%lf - %lf:%lf %lf %lf", q, q + 1, q + 2, q + 3, q + 4, q + 5) == 6) got.push_back(vector<double>(q, q + 6)); } fuzzy(got, wp, 1e-9, "lines"); }
  if (sv) { vector<vector<double>> got; for (auto &l : ls) { double q[6]; if (sscanf(l.c_str(), "%lf %lf %lf to %lf %lf %lf", q, q + 1, q + 2, q + 3, q + 4, q + 5) == 6) got.push_back(vector<double>(q, q + 6)); } fuzzy(got, we, 1e-9, "endpoints"); }
  if (stats) { map<std::pair<int, int>, int> m; for (int i = 0; i < n; i++) for (int e = 0; e < 2; e++) m[{S[i].component[e], S[i].lead_vert[e]}]++; int rows = 0, last = 1 << 30, best = 0; for (auto &z : m) best = std::max(best, z.second); for (auto &l : ls) { int cp, lv, ns; if (sscanf(l.c_str(), "Comp: %d Lead Vert: %d # of struts: %d", &cp, &lv, &ns) == 3) { if (!rows) CHECK(c, ns == best, "the edge with most struts has %d, listed first is one with %d", best, ns); rows++; CHECK(c, ns <= last, "edges not sorted"); last = ns; auto it = m.find({cp, lv}); CHECK(c, ns == (it == m.end() ? 0 : it->second), "edge %d:%d is said to have %d struts", cp, lv, ns); } } CHECK(c, rows == std::min(edges, 10), "%d edges listed of %d", rows, edges);
    vector<double> len; for (int i = 0; i < n; i++) len.push_back(S[i].length); std::sort(len.begin(), len.end()); size_t at = 0; for (auto &l : ls) { double ln, ps[2]; int cp[2], lv[2]; if (sscanf(l.c_str(), " %lf %d : %d ( %lf ) - %d : %d ( %lf )", &ln, cp, lv, ps, cp + 1, lv + 1, ps + 1) != 7) continue; CHECK(c, at < len.size() && near(ln, len[at], 1e-5, 1e-12), "short strut %zu of %d is listed with length %g", at, n, ln); at++; bool f = false; for (int i = 0; i < n && !f; i++) f = S[i].component[0] == cp[0] && S[i].lead_vert[0] == lv[0] && S[i].component[1] == cp[1] && S[i].lead_vert[1] == lv[1] && near(S[i].position[0], ps[0], 1e-5, 1e-5) && near(S[i].position[1], ps[1], 1e-5, 1e-5) && near(S[i].length, ln, 1e-5, 1e-12); CHECK(c, f, "listed among the shortest, but no strut: %s", l.c_str()); } CHECK(c, (int)at == std::min(n, 10), "%zu of %d struts listed as the shortest", at, n); }
  plc_free(L);
}
PROPERTY(C34, minimum_radius, 1500, 40000, 60, "at least one location") {
  Curve C = gen(c); if (!tame(C)) c.discard("a corner that doubles back"); Dir d; string fn = name(c, ".vect"), text = vect(C); d.write(fn, text); plCurve *L = parse(c, text, "input"); vector<string> a; double cut = 0.5, eps = 0; if (c.flag()) { char b[40]; snprintf(b, 40, "%.5f", c.real(0, 2)); eps = atof(b); cut = 0; a.push_back("-e"); a.push_back(b); } bool nofile = c.chance(1, 3), stats = c.chance(1, 3); if (nofile) a.push_back("-n"); if (stats) a.push_back("-s"); a.push_back(fn);
  struct M { int cp, v; double mr; }; vector<M> all; double mr = DBL_MAX; for (size_t q = 0; q < C.cp.size(); q++) { auto &S = C.cp[q]; int n = (int)S.v.size(); for (int i = S.open ? 1 : 0; i < (S.open ? n - 1 : n); i++) { V x = S.v[i] - S.v[(i + n - 1) % n], y = S.v[(i + 1) % n] - S.v[i]; double sn = norm(cross(x, y)) / (norm(x) * norm(y)); if (sn < 1e-4) c.discard("a straight corner"); double th = atan2(norm(cross(x, y)), dot(x, y)); for (double l : {norm(x), norm(y)}) { double m = l / (2 * tan(th / 2)); all.push_back({(int)q, i, m}); mr = std::min(mr, m); } } }
  if (all.empty()) c.discard("no corner"); double bound = cut > 0 ? cut : mr + eps; for (auto &m : all) if ((cut > 0 || m.mr != mr) && near(m.mr, bound, 1e-6, 0)) c.discard("a radius at the limit"); if (eps == 0 && cut == 0) c.discard("no tolerance"); vector<M> want; for (auto &m : all) if (m.mr <= bound * (1 + 1e-9)) want.push_back(m); c.nontrivial(!want.empty()); c.note("%s, %zu locations, least %.17g, bound %.17g", cv::show(C).c_str(), want.size(), mr, bound);
  Out r = run(c, d, "mrlocs", a); CHECK(c, r.status == 0, "status %d: %s", r.status, r.err.c_str()); string out = fn; size_t k = out.find(".vect"); if (k != string::npos) out = out.substr(0, k); out += ".mrlocs"; CHECK(c, d.has(out) == !nofile, "file %s", out.c_str()); char cnt[60]; snprintf(cnt, 60, "mrlocs: %zu mrlocs %s", want.size(), nofile ? "found" : "written"); CHECK(c, r.text.find(cnt) != string::npos, "there are %zu locations, the program says %s", want.size(), r.text.c_str());
  auto match = [&](vector<vector<double>> got, const char *what, bool sorted) { CHECK(c, got.size() == want.size(), "%s: %zu rows for %zu locations", what, got.size(), want.size()); vector<char> used(want.size()); double last = -1; for (auto &g : got) { CHECK(c, g.size() == 3, "%s: row", what); if (sorted) { CHECK(c, g[2] >= last, "%s: not sorted", what); last = g[2]; } bool ok = false; for (size_t i = 0; i < want.size() && !ok; i++) if (!used[i] && g[0] == want[i].cp && g[1] == want[i].v && near(g[2], want[i].mr, 1e-6, 0)) used[i] = ok = true; CHECK(c, ok, "%s: %g:%g with radius %g is none", what, g[0], g[1], g[2]); } };
  if (!nofile) { auto fl = lines(d.read(out)); CHECK(c, !fl.empty() && fl[0] == "MRLOCS", "header"); vector<vector<double>> got; for (size_t i = 1; i < fl.size(); i++) got.push_back(numbers(fl[i])); match(got, "file", false); } else { size_t p = r.text.find("mrlocs: minrad "); CHECK(c, p != string::npos && near(atof(r.text.c_str() + p + 15), mr, 2e-5, 0), "minimum radius, really %g", mr); }
  if (stats) { vector<vector<double>> got; bool on = false; for (auto &l : lines(r.text)) { if (l.find("-----") != string::npos) { on = true; continue; } if (on) { auto v = numbers(l); if (v.size() != 3) break; got.push_back(v); } } match(got, "list", true); } plc_free(L);
}
PROPERTY(C34, random_polygons, 1200, 30000, 60, "at least two polygons") {
  Dir d; int mode = c.pick({2, 2, 2, 2}), n = c.range(5, c.chance(1, 5) ? 30 : 14), s = c.chance(1, 12) ? c.range(9, 60) : c.range(1, 8), fmt = c.pick({2, 1, 1}); if (mode == 1 && n > 14) n = 14; vector<string> a = {"-n", std::to_string(n), "-s", std::to_string(s), "--seed", std::to_string(c.below(1 << 20))}; double rad = 0, ftc = 0; char b[40];
  string kt; if (mode == 2) { snprintf(b, 40, "%.3f", c.real(1.05, 3)); rad = atof(b); a.push_back("-r"); a.push_back(b); } if (mode == 3) { snprintf(b, 40, "%.3f", c.real(0.1, n - 1.5)); ftc = atof(b); a.push_back("--failure-to-close"); a.push_back(b); } if (mode == 1) a.push_back("--sap"); if (mode >= 2) { if (c.flag()) { a.push_back("--skip"); a.push_back(std::to_string(c.range(0, 5))); } if (c.flag()) { a.push_back("-b"); a.push_back(std::to_string(c.range(0, 5))); } if (c.chance(1, 3)) { a.push_back("--beta"); a.push_back("0.3"); } if (c.chance(1, 3)) { a.push_back("--moment-polytope-repeat"); a.push_back(std::to_string(c.range(1, 12))); } }
  int skip = n / 2; string out = "rws"; if (fmt == 1) { a.push_back("-f"); a.push_back(c.flag() ? "csv" : "Mathematica"); } if (fmt == 2) { a.push_back("-f"); a.push_back(c.flag() ? "ChordLength" : "chordlength"); if (c.flag()) { skip = c.range(0, n); a.push_back("--chord_skip"); a.push_back(std::to_string(skip)); } } else if (fmt == 0 && c.flag()) { a.push_back("-f"); a.push_back("VECT"); } a.push_back("-o"); a.push_back(out); c.nontrivial(s > 1); string all; for (auto &x : a) all += x + " "; c.note("%s", all.c_str()); c.labelf("mode=%d format=%d", mode, fmt);
  if (fmt != 2 && c.flag()) { mkdir((d.p + "/rws").c_str(), 0700); d.write("rws/walk-00099.vect", "old"); d.write("rws/x", "old"); }
  Out r = run(c, d, "randompolygon", a); CHECK(c, r.status == 0, "status %d: %s", r.status, r.err.c_str());
  auto snap = [&]() { string z; if (fmt == 2) return d.read(out); for (auto &f : d.list(out)) z += f + "\n" + d.read(out + "/" + f); return z; }; string first = snap();
  auto judge = [&](const vector<V> &v, double tol, int i) { CHECK(c, (int)v.size() == n, "polygon %d has %zu vertices, asked for %d edges", i, v.size(), n); int odd = 0; for (int j = 0; j < n; j++) { double l = dist(v[j], v[(j + 1) % n]); if (mode == 3 && fabs(l - ftc) <= tol && fabs(l - 1) > tol) { odd++; continue; } CHECK(c, fabs(l - 1) <= tol, "edge %d of polygon %d has length %.12g", j, i, l); } if (mode == 3) CHECK(c, odd == (fabs(ftc - 1) <= tol ? 0 : 1), "%d edges of length %g", odd, ftc); if (mode == 2) for (auto &p : v) CHECK(c, dist(p, v[0]) <= rad + tol, "a vertex at distance %g from the first, confined to %g", dist(p, v[0]), rad); if (mode == 1) for (int x = 0; x < n; x++) for (int y = 0; y < x; y++) CHECK(c, dist(v[x], v[y]) >= 1 - tol, "vertices %d and %d of a self-avoiding polygon are %g apart", x, y, dist(v[x], v[y])); };
  if (fmt == 2) { auto ls = lines(first); CHECK(c, (int)ls.size() == s, "%zu chord lengths, asked for %d", ls.size(), s); for (auto &l : ls) { auto v = numbers(l); CHECK(c, v.size() == 1 && v[0] >= 0 && v[0] <= std::max(ftc, 1.0) + std::min(skip, n - skip) + 1e-8, "chord length %s", l.c_str()); if (skip % n == 0) CHECK(c, v[0] < 1e-8, "a chord from a vertex to itself has length %g", v[0]); if (mode != 3 && (skip == 1 || skip == n - 1)) CHECK(c, fabs(v[0] - 1) < 1e-8, "an edge of length %g", v[0]); if (mode == 2) CHECK(c, v[0] <= rad + 1e-8, "chord %g from the first vertex, confined to %g", v[0], rad); if (mode == 1 && skip % n) CHECK(c, v[0] >= 1 - 1e-8, "chord %g of a self-avoiding polygon", v[0]); } }
  else { auto fs = d.list(out); CHECK(c, (int)fs.size() == s, "%zu files, asked for %d polygons", fs.size(), s); for (int i = 0; i < s; i++) { char fn[60]; snprintf(fn, 60, "walk-%05d.%s", i, fmt ? "csv" : "vect"); CHECK(c, fs[i] == fn, "file %s instead of %s", fs[i].c_str(), fn); string t = d.read(out + "/" + fn); vector<V> v; if (fmt) { for (auto &l : lines(t)) { V x; CHECK(c, sscanf(l.c_str(), " %lf , %lf , %lf", &x.c[0], &x.c[1], &x.c[2]) == 3, "row %s", l.c_str()); v.push_back(x); } } else { plCurve *L = parse(c, t, fn); CHECK(c, L->nc == 1 && !L->cp[0].open, "%s is not one closed curve", fn); for (int j = 0; j < L->cp[0].nv; j++) v.push_back(L->cp[0].vt[j]); plc_free(L); } judge(v, fmt ? 3e-5 * n : 1e-7, i); } 
    if (s > 1) { set<string> dif; for (auto &f : fs) dif.insert(d.read(out + "/" + f)); CHECK(c, dif.size() > 1 || (mode >= 2) || n < 4, "all polygons are the same"); } }
  r = run(c, d, "randompolygon", a); CHECK(c, r.status == 0, "second run: status %d", r.status); CHECK(c, snap() == first, "the same seed gives other polygons");
  if (fmt && c.flag()) { vector<string> a2; for (size_t i = 0; i < a.size(); i++) { if (a[i] == "-f" || a[i] == "--chord_skip" || a[i] == "-o") { i++; continue; } a2.push_back(a[i]); } a2.push_back("-o"); a2.push_back("full"); r = run(c, d, "randompolygon", a2); CHECK(c, r.status == 0, "as VECT files: status %d", r.status); auto fs = d.list("full"); CHECK(c, (int)fs.size() == s, "%zu VECT files, asked for %d", fs.size(), s); auto ls = lines(fmt == 2 ? first : string()); c.label("compared with VECT files");
    for (int i = 0; i < s; i++) { plCurve *L = parse(c, d.read("full/" + fs[i]), fs[i].c_str()); CHECK(c, L->cp[0].nv == n, "%d vertices", L->cp[0].nv); if (fmt == 2) { double w = dist(L->cp[0].vt[0], L->cp[0].vt[skip % n]); CHECK(c, fabs(w - atof(ls[i].c_str())) <= 1e-6, "chord %d over %d of %d edges is given as %s, in the same polygon written in full it is %.9g", i, skip, n, ls[i].c_str(), w); } else { auto rows = lines(d.read(out + "/" + d.list(out)[i])); for (int j = 0; j < n; j++) { V x; sscanf(rows[j].c_str(), " %lf , %lf , %lf", &x.c[0], &x.c[1], &x.c[2]); CHECK(c, dist(x, L->cp[0].vt[j]) <= 3e-5 * n, "vertex %d of polygon %d differs between the formats", j, i); } } plc_free(L); } }
}
PROPERTY(C34, knot_type_filter, 400, 8000, 60, "at least one polygon of the type was found") {
  Dir d; const char *types[] = {"3_1", "4_1", "0_1", "5_1", "5_2"}; int t = c.pick({6, 2, 1, 1, 1}); int n = c.range(12, 34), s = c.range(1, 6); char b[40]; snprintf(b, 40, "%.3f", c.real(1.05, 1.6)); vector<string> a = {"-n", std::to_string(n), "-s", std::to_string(s), "--seed", std::to_string(c.below(1 << 20)), "-r", b, "--skip", "3", "-k", types[t], "-o", "rws"}; c.note("%d edges in radius %s, %s", n, b, types[t]);
  plc_knottype *want = plc_read_knottype(types[t]); CHECK(c, want, "knot type %s not read", types[t]); Out r = run(c, d, "randompolygon", a); CHECK(c, r.status == 0, "status %d: %s", r.status, r.err.c_str()); auto fs = d.list("rws"); CHECK(c, (int)fs.size() == s, "%zu polygons, asked for %d", fs.size(), s); gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(g, 1 + c.below(1000));
  for (auto &f : fs) { plCurve *L = parse(c, d.read("rws/" + f), f.c_str()); int np = 0; plc_knottype *k = plc_classify(g, L, &np); bool ok = !k; string is; for (int i = 0; k && i < np; i++) { bool m = k[i].nf == want->nf; is += is.empty() ? "" : " or "; for (int j = 0; j < k[i].nf; j++) { is += (j ? "#" : "") + std::to_string(k[i].cr[j]) + "_" + std::to_string(k[i].ind[j]); m = m && k[i].cr[j] == want->cr[j] && k[i].ind[j] == want->ind[j]; } ok |= m; } CHECK(c, ok, "asked for %s, got a %s", types[t], is.c_str()); if (k) { c.nontrivial(); free(k); } plc_free(L); } free(want); gsl_rng_free(g);
}
// ------------------------------------------------------------------------------------------ C35
namespace {
const Deco FULL{true, true, false}, TAGGED{true, true, true}, MAP{false, false, false};
vector<int> canon_unsigned(const Diag &D) { return std::min(canon(D, MAP), canon(dg::reflect(D), MAP)); }
vector<int> canon_isotopy(const Diag &D) { return std::min(canon(D, TAGGED), canon(dg::mirror_signs(dg::reflect(D)), TAGGED)); }
double search_size(const Diag &D) { map<int, int> m; double r = 1; for (auto &k : D.comps()) { r *= 2.0 * k.size(); r *= ++m[(int)k.size()]; } return r; }
Diag small(pbt::Case &c, int nmax) { for (int i = 0;; i++) { Diag D = dg::random_diagram(c, 1, i > 3 ? 3 : nmax); if (search_size(D) <= 800 || i > 6) return D; } }
struct Store { vector<Diag> d; int circles = 0; size_t size() const { return d.size() + circles; } };
Store make(pbt::Case &c, int kmax, int nmax, vector<Diag> &pool, bool circles = true) { Store s; int k = c.range(0, kmax); for (int i = 0; i < k; i++) { if (circles && c.chance(1, 15)) { s.circles++; continue; } Diag D; if (!pool.empty() && c.chance(1, 3)) { D = pool[c.below(pool.size())]; int v = c.pick({2, 2, 1, 1}); if (v == 1) D = dg::mirror_signs(dg::reflect(D)); if (v == 2) D = dg::reflect(D); if (v == 3) D = dg::reverse_all(D); D = dg::relabel(c, D); } else { D = small(c, nmax); if (c.chance(1, 10)) for (auto &x : D.sign) x = 2; pool.push_back(D); } s.d.push_back(D); } return s; }
// writes the store; the diagrams come back as the library numbered them
string file(pbt::Case &c, Store &s) { pd_stor_t *S = pd_new_pdstor(); for (auto &D : s.d) { pd_code_t *p = dg::make_pd(c, D); D = dg::from_pd(c, p, "made"); pd_addto_pdstor(S, p, NONE); pd_code_free(&p); } for (int i = 0; i < s.circles; i++) { pd_code_t *p = pd_build_unknot(0); pd_addto_pdstor(S, p, NONE); pd_code_free(&p); } char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); pd_write_pdstor(f, S); fclose(f); string r(b, z); free(b); pd_free_pdstor(&S); return r; }
Store load(pbt::Case &c, const string &t, const char *what) { FILE *f = tmpfile(); fwrite(t.data(), 1, t.size(), f); rewind(f); pd_stor_t *S = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, S, "%s is not a readable store", what); Store s; unsigned n = pd_stor_nelts(S); if (n) for (pd_code_t *p = pd_stor_firstelt(S); p; p = pd_stor_nextelt(S)) { dg::check_valid(c, p, what); if (p->ncross) s.d.push_back(dg::from_pd(c, p, what)); else s.circles++; pd_code_free(&p); } CHECK(c, s.size() == n, "%s says %u elements, has %zu", what, n, s.size()); pd_free_pdstor(&S); return s; }
// a count the program reports: the number just before (or, with after, just behind) the given words
void told(pbt::Case &c, const Out &r, const char *words, size_t want, bool after = false) { size_t x = r.text.rfind(words); CHECK(c, x != string::npos, "no '%s' in the report", words); size_t g; if (after) g = strtoul(r.text.c_str() + x + strlen(words), nullptr, 10); else { size_t b = x; while (b > 0 && r.text[b - 1] == ' ') b--; size_t a = b; while (a > 0 && isdigit((unsigned char)r.text[a - 1])) a--; CHECK(c, a < b, "no count before '%s'", words); g = strtoul(r.text.c_str() + a, nullptr, 10); } CHECK(c, g == want, "reports %zu%s, really %zu", g, words, want); }
multiset<vector<int>> bag(const Store &s) { multiset<vector<int>> r; for (auto &D : s.d) r.insert(canon(D, TAGGED)); for (int i = 0; i < s.circles; i++) r.insert(vector<int>()); return r; }
}
PROPERTY(C35, filter, 1200, 30000, 60, "some diagrams kept and some dropped") {
  Dir d; vector<Diag> pool; Store s = make(c, 12, 6, pool); d.write("in.pdstor", file(c, s)); string before = d.read("in.pdstor"); int k = c.range(0, 4); vector<string> a = {c.flag() ? "--file=in.pdstor" : "--file", "in.pdstor"}; if (a[0].size() > 6) a.pop_back(); Store w; if (k) { a.push_back("--ncomps=" + std::to_string(k)); for (auto &D : s.d) if ((int)D.comps().size() == k) w.d.push_back(D); if (k == 1) w.circles = s.circles; } else w = s; a.push_back("-o"); a.push_back("out.pdstor"); if (c.chance(1, 4)) a.push_back("-v"); c.note("%zu diagrams, components %d, %zu kept", s.size(), k, w.size()); c.nontrivial(w.size() && w.size() < s.size());
  Out r = run(c, d, "filterpd", a); CHECK(c, r.status == 0, "status %d: %s %s", r.status, r.text.c_str(), r.err.c_str()); Store g = load(c, d.read("out.pdstor"), "the result"); CHECK(c, bag(g) == bag(w), "%zu of %zu diagrams kept instead of %zu (or others)", g.size(), s.size(), w.size()); CHECK(c, d.read("in.pdstor") == before, "the input changed"); told(c, r, " pdcodes filtered to", s.size()); told(c, r, " pdcodes filtered to ", w.size(), true);
}
PROPERTY(C35, join, 1200, 30000, 60, "a duplicate between two files") {
  Dir d; vector<Diag> pool; int k = c.chance(1, 12) ? c.range(4, 14) : c.range(1, 3), eq = c.range(0, 2); size_t last = 0; vector<string> a; Store all; for (int i = 0; i < k; i++) { Store s = make(c, k > 3 ? 3 : 8, 6, pool); last = s.size(); string fn = "in" + std::to_string(i) + ".pdstor"; d.write(fn, file(c, s)); a.push_back(fn); all.d.insert(all.d.end(), s.d.begin(), s.d.end()); all.circles += s.circles; } a.push_back("-o"); a.push_back("out.pdstor"); a.push_back(eq == 0 ? "--no-checking" : eq == 1 ? "--isomorphism-checking" : "--isotopy-checking");
  Out r = run(c, d, "joinpd", a); CHECK(c, r.status == 0, "status %d: %s %s", r.status, r.text.c_str(), r.err.c_str()); Store g = load(c, d.read("out.pdstor"), "the result"); auto in = bag(all), got = bag(g); c.labelf("relation=%d", eq);
  if (eq == 0) { CHECK(c, in == got, "%zu diagrams joined into %zu (or others)", all.size(), g.size()); c.nontrivial(k > 1 && all.size() > 1); } else { auto key = [&](const Diag &D) { return eq == 1 ? canon_unsigned(D) : canon_isotopy(D); }; set<vector<int>> cls, seen; for (auto &D : all.d) cls.insert(key(D)); if (all.circles) cls.insert(vector<int>()); for (auto &x : got) CHECK(c, in.count(x), "a diagram that was in no file"); for (auto &D : g.d) CHECK(c, seen.insert(key(D)).second, "two equivalent diagrams in the result"); if (g.circles) { CHECK(c, g.circles == 1, "two circles in the result"); seen.insert(vector<int>()); } CHECK(c, seen == cls, "%zu classes instead of %zu", seen.size(), cls.size()); c.nontrivial(k > 1 && cls.size() < all.size() && cls.size() > 1); } c.note("%zu diagrams in %d files, relation %d, %zu in the result", all.size(), k, eq, g.size()); if (k > 1) { told(c, r, " pd codes added", last); told(c, r, " total now)", g.size()); }
}
PROPERTY(C35, split, 1200, 30000, 60, "at least two pieces") {
  Dir d; vector<Diag> pool; Store s = make(c, c.chance(1, 8) ? 60 : 14, 5, pool); string base = bases[c.below(4)], fn = base + ".pdstor"; if (c.chance(1, 4)) fn = base; d.write(fn, file(c, s)); int m = c.chance(1, 6) ? c.range(10, 80) : c.range(1, 9); bool pieces = c.flag(); vector<string> a = {"--file=" + fn, pieces ? "-n" : "-s", std::to_string(m)}; if (c.chance(1, 5)) a.push_back("-v"); Out r = run(c, d, "splitpd", a); CHECK(c, r.status == 0, "status %d: %s %s", r.status, r.text.c_str(), r.err.c_str());
  size_t each = pieces ? (s.size() + m - 1) / m : m; auto fs = d.list(); vector<string> ps; for (auto &f : fs) if (f != fn) ps.push_back(f); size_t want = each ? (s.size() + each - 1) / each : 0; CHECK(c, ps.size() == want, "%zu pieces instead of %zu", ps.size(), want); multiset<vector<int>> got; for (size_t i = 0; i < ps.size(); i++) { char b[80]; snprintf(b, 80, "%s-%05zu.pdstor", base.c_str(), i); CHECK(c, ps[i] == b, "piece %s instead of %s", ps[i].c_str(), b); Store p = load(c, d.read(ps[i]), "a piece"); CHECK(c, p.size() == (i + 1 < ps.size() ? each : s.size() - each * (ps.size() - 1)), "piece %zu of %zu has %zu diagrams of %zu", i, ps.size(), p.size(), s.size()); auto q = bag(p); got.insert(q.begin(), q.end()); }
  CHECK(c, got == bag(s), "the pieces do not make up the whole"); told(c, r, " element pdstor split into", s.size()); told(c, r, " element pdstor split into ", want, true); c.nontrivial(want > 1); c.note("%zu diagrams, %s %d: %zu pieces", s.size(), pieces ? "pieces" : "size", m, want);
}
PROPERTY(C35, compute, 1200, 30000, 60, "at least two diagrams") {
  Dir d; vector<Diag> pool; bool hom = c.chance(1, 3); Store s = make(c, 8, 6, pool, !hom); bool big = c.chance(1, 3); if (big) for (int k = c.range(1, 3); k > 0; k--) s.d.push_back(dg::random_diagram(c, 6, hom ? 9 : c.chance(1, 2) ? 60 : 18)); if (hom) for (auto &D : s.d) for (auto &x : D.sign) if (x == 2) x = 1; string text = file(c, s); d.write("in.pdstor", text); const char *q[] = {"hash", "uid", "ncomps", "ncross", "nauts", "interlacements", "unsigned-interlacements", "monogons", "bigons", "homfly"}; vector<int> want; vector<string> a = {"--file", "in.pdstor", "-o", "out.csv"}; bool circ = s.circles > 0; for (int k = c.chance(1, 8) ? c.range(6, 20) : c.range(1, 5); k > 0; k--) { int w = (int)c.below(hom ? 10 : 9); if (circ && (w == 4 || w == 5 || w == 6)) w = 3; if (!hom && w == 5) w = 6; if (big && w == 4) w = 2; want.push_back(w); a.push_back("-c"); a.push_back(q[w]); } c.nontrivial(s.size() > 1);
  Out r = run(c, d, "computepd", a); CHECK(c, r.status == 0, "status %d: %s %s", r.status, r.text.c_str(), r.err.c_str()); multiset<vector<string>> exp, got; FILE *f = tmpfile(); fwrite(text.data(), 1, text.size(), f); rewind(f); pd_stor_t *S = pd_read_pdstor(f, NONE); fclose(f); CHECK(c, S, "store"); int n = 0;
  if (s.size()) for (pd_code_t *p = pd_stor_firstelt(S); p; p = pd_stor_nextelt(S), n++) { vector<string> row; Diag D; if (p->ncross) D = dg::from_pd(c, p, "stored"); map<int, int> fc; if (p->ncross) for (auto &x : D.faces()) fc[(int)x.size()]++; else fc[1] = 2; for (int w : want) { switch (w) { case 0: row.push_back(p->hash); break; case 1: row.push_back(std::to_string(p->uid)); break; case 2: row.push_back(std::to_string(p->ncross ? D.comps().size() : 1)); break; case 3: row.push_back(std::to_string(D.n)); break; case 4: { unsigned k = 0; pd_iso_t **I = pd_build_isos(p, p, &k); row.push_back(std::to_string(k)); pd_free_isos(&k, &I); break; } case 5: { int *I = pd_interlaced_crossings(p); for (unsigned i = 0; i < p->ncomps; i++) row.push_back(std::to_string(I[i])); free(I); break; } case 6: { unsigned *I = pd_interlaced_crossings_unsigned(p); for (unsigned i = 0; i < p->ncomps; i++) row.push_back(std::to_string(I[i])); free(I); break; } case 7: row.push_back(std::to_string(fc[1])); break; case 8: row.push_back(std::to_string(fc[2])); break; case 9: { char *h = pd_homfly(p); row.push_back(h); free(h); break; } } } exp.insert(row); pd_code_free(&p); }
  pd_free_pdstor(&S); set<int> idx; for (auto &l : lines(d.read("out.csv"))) { vector<string> row; size_t x = l.find(','); CHECK(c, x != string::npos, "row %s", l.c_str()); CHECK(c, idx.insert(atoi(l.c_str())).second, "number %d twice", atoi(l.c_str())); while (x != string::npos) { size_t y = l.find(',', x + 1); string v = l.substr(x + 1, y == string::npos ? string::npos : y - x - 1); while (!v.empty() && v.back() == ' ') v.pop_back(); row.push_back(v); x = y; } for (auto &h : row) while (!h.empty() && h.back() == ' ') h.pop_back(); got.insert(row); } multiset<vector<string>> e2; for (auto row : exp) { for (auto &h : row) while (!h.empty() && h.back() == ' ') h.pop_back(); e2.insert(row); }
  string all; for (int w : want) all += string(q[w]) + " "; c.note("%zu diagrams: %s", s.size(), all.c_str()); CHECK(c, (int)idx.size() == n && (n == 0 || (*idx.begin() == 0 && *idx.rbegin() == n - 1)), "rows are not numbered 0 to %d", n - 1); if (got != e2) { for (auto &g : got) if (!e2.count(g)) { string z; for (auto &x : g) z += x + ","; c.fail("a row that belongs to no diagram: %s", z.c_str()); } c.fail("rows repeated or missing"); } told(c, r, " pdcodes processed", s.size());
}
PROPERTY(C35, connect_sum, 800, 20000, 60, "at least two sums") {
  Dir d; vector<Diag> pool; auto mk = [&]() { Store s; for (int k = c.range(0, 2); k > 0; k--) { if (c.chance(1, 12)) { s.circles++; continue; } Diag D = dg::random_diagram(c, 1, 3); if (c.chance(1, 4)) for (auto &x : D.sign) x = 2; s.d.push_back(D); } return s; }; Store A = mk(), B = mk(); d.write("a.pdstor", file(c, A)); d.write("b.pdstor", file(c, B));
  set<vector<int>> want; auto orientations = [&](const Diag &D) { vector<Diag> r; int k = (int)D.comps().size(); for (int m = 0; m < (1 << k); m++) { Diag E = D; for (auto &x : E.sign) x = 2; for (int i = 0; i < k; i++) if (m >> i & 1) { auto cs = D.comps(); for (int x : cs[i]) { E.out[x] = !E.out[x]; E.out[E.mate[x]] = !E.out[E.mate[x]]; } } r.push_back(E); } return r; };
  long total = 0; for (auto &a : A.d) for (auto &b : B.d) for (auto &x : orientations(a)) for (auto &y : orientations(b)) for (int i = 0; i < 4 * x.n; i++) if (x.out[i]) for (int j = 0; j < 4 * y.n; j++) if (y.out[j]) { want.insert(canon_unsigned(connect_sum(x, i, y, j))); total++; } if (A.circles) for (auto &b : B.d) want.insert(canon_unsigned(b)); if (B.circles) for (auto &a : A.d) want.insert(canon_unsigned(a)); bool circ = A.circles && B.circles; c.note("%zu x %zu diagrams, %zu classes of %ld sums", A.size(), B.size(), want.size(), total); c.nontrivial(want.size() > 1);
  Out r = run(c, d, "connectsum", {"-a", "a.pdstor", "-b", "b.pdstor", "-o", "c.pdstor"}); CHECK(c, r.status == 0, "status %d: %s %s", r.status, r.text.c_str(), r.err.c_str()); Store g = load(c, d.read("c.pdstor"), "the result"); set<vector<int>> got; for (auto &D : g.d) CHECK(c, got.insert(canon_unsigned(D)).second, "two isomorphic sums"); CHECK(c, g.circles == (circ ? 1 : 0), "%d circles", g.circles); CHECK(c, got == want, "%zu classes of sums instead of %zu (or others)", got.size(), want.size()); told(c, r, " isomorphism classes)", g.size());
}
// the C code written for a diagram, compiled and run, gives the diagram back
PROPERTY(C35, c_code, 240, 6000, 120, "at least three diagrams") {
  Dir d; vector<Diag> pool; bool tool = c.flag(); Store s = make(c, 14, 10, pool, false); if (s.d.empty()) s.d.push_back(small(c, 4)); for (int i = 0; i < 3 && c.chance(1, 3); i++) { Diag D = dg::random_diagram(c, 1, 40); s.d.push_back(D); } c.nontrivial(s.size() > 2); c.labelf("%s", tool ? "program" : "library"); vector<string> nm; vector<pd_code_t *> pds; string text; size_t n = 0;
  if (tool) { string fn = c.flag() ? "tab" : "my_table"; d.write(fn + ".pdstor", file(c, s)); vector<string> a = {fn + ".pdstor"}; string out = fn + ".c"; if (c.flag()) { out = "x.c"; a.push_back("-o"); a.push_back(out); } if (c.chance(1, 3)) a.push_back("--weak-checking"); Out r = run(c, d, "carbonizepd", a); CHECK(c, r.status == 0, "status %d: %s %s", r.status, r.text.c_str(), r.err.c_str()); text = d.read(out); for (size_t i = 0; i < s.size(); i++) nm.push_back(fn + "_" + std::to_string(i)); n = s.size(); }
  else { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); for (auto &D : s.d) { pd_code_t *p = dg::make_pd(c, D); if (c.flag()) { string t = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; int sh = c.range(0, 5); for (unsigned i = 0; i < p->ncomps; i++) p->comp[i].tag = t[(i * 3 + sh) % 26 ]; } D = dg::from_pd(c, p, "made"); nm.push_back("d" + std::to_string(n++)); pd_write_c(f, p, (char *)nm.back().c_str()); pds.push_back(p); } fclose(f); text.assign(b, z); free(b); }
  c.note("%zu diagrams", n); d.write("gen.c", "#include <assert.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include \"plCurve.h\"\n#include \"plcTopology.h\"\n" + text); string so = d.p + "/gen.so", cmd = string("gcc -w -O0 -shared -fPIC -I") + getenv("TOOL_INCLUDE") + " -o " + so + " " + d.p + "/gen.c > " + d.p + "/log 2>&1"; CHECK(c, system(cmd.c_str()) == 0, "the code does not compile: %s", d.read("log").substr(0, 300).c_str());
  void *h = dlopen(so.c_str(), RTLD_NOW); CHECK(c, h, "%s", dlerror()); multiset<vector<int>> got; for (size_t i = 0; i < n; i++) { auto fn = (pd_code_t * (*)()) dlsym(h, ("pd_create_" + nm[i]).c_str()); CHECK(c, fn, "no function for diagram %zu", i); pd_code_t *p = fn(); dg::check_valid(c, p, "recreated", false); got.insert(canon(dg::from_pd(c, p, "recreated"), TAGGED)); if (!tool) { pds[i]->uid = p->uid; strcpy(pds[i]->hash, p->hash); CHECK(c, dg::pd_dump(p) == dg::pd_dump(pds[i]), "diagram %zu is recreated as\n%s", i, dg::pd_dump(p).c_str()); } pd_code_free(&p); } CHECK(c, !dlsym(h, ("pd_create_tab_" + std::to_string(n)).c_str()), "more functions than diagrams"); dlclose(h); CHECK(c, got == bag(s), "the recreated diagrams are not the given ones"); for (auto *p : pds) pd_code_free(&p);
}
