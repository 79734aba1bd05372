#include "pbt.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define ALLOCATED() __sanitizer_get_current_allocated_bytes()
#define SAN_EXIT 99
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=8:handle_abort=0:handle_segv=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048:malloc_context_size=3:abort_on_error=0:log_path=stderr:hard_rss_limit_mb=3500"; }
#else
#define ALLOCATED() ((size_t)0)
#define SAN_EXIT 99
#endif

#define LEAKPROP "C38"
namespace pbt {
bool g_thorough = false;
std::vector<Sub> &subs() { static std::vector<Sub> s; return s; }

enum { MAXW = 8, NLAB = 192, NHASH = 1 << 20, HIST = 64, NSAMP = 6 };
struct Lab { char name[72]; uint64_t n; };
struct WShm {
  volatile int sub; volatile long idx; volatile int busy;
  volatile int failed;             // 1: property failure, message in msg
  char msg[4096]; char notes[4096];
  uint64_t evals, nontriv, discards;
  uint64_t nhash; uint64_t hashes[NHASH];
  Lab labs[NLAB];
  long hist[HIST]; int histsub[HIST]; uint64_t nhist;
  uint64_t subevals[64], subnt[64]; double maxcpu[64];
};
struct Shm {
  volatile long next; volatile int stop;
  struct { volatile int n; char txt[NSAMP][1500]; } samp[64];
  WShm w[MAXW];
};
static Shm *shm; static WShm *me; static int g_worker = -1; static std::string g_scratch; static bool g_quiet = true;
static std::string g_root;

struct DiscardEx { std::string why; };

void Case::label(const char *name) {
  if (!me) return;
  for (int i = 0; i < NLAB; i++) {
    if (me->labs[i].name[0] == 0) { snprintf(me->labs[i].name, sizeof me->labs[i].name, "%s", name); me->labs[i].n = 1; return; }
    if (!strncmp(me->labs[i].name, name, sizeof me->labs[i].name - 1)) { me->labs[i].n++; return; }
  }
}
void Case::labelf(const char *fmt, ...) { char b[128]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); label(b); }
void Case::note(const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (notes.size() < 3500) { notes += b; } if (me) { snprintf(me->notes, sizeof me->notes, "%s", notes.c_str()); } }
// Leak mode (property of releasing memory): every sub-check of the harness is run for what it allocates; what it decides
// otherwise is not judged, so a failed check or a crash only means that the case says nothing.
static bool g_leak = false, g_inner = false;
static void on_fail_exit() { if (g_leak && !g_inner) throw DiscardEx{"a check of another property failed"}; _exit(77); }
static double g_factor = 1; // CPU limits are multiplied by this when a failure by limit is confirmed
void Case::fail(const char *fmt, ...) {
  char b[4000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (me && !g_leak) { snprintf(me->msg, sizeof me->msg, "%s", b); me->failed = 1; }
  on_fail_exit(); abort();
}
void Case::discard(const char *why) { throw DiscardEx{why}; }
const char *scratch() { return g_scratch.c_str(); }

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void on_prof(int) { if (me) { if (!me->failed) snprintf(me->msg, sizeof me->msg, "CPU time limit exceeded (no result)"); } _exit(78); }
static void arm(double s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6); setitimer(ITIMER_PROF, &it, nullptr); }
static void rm_rf(const std::string &d) {
  DIR *p = opendir(d.c_str()); if (!p) return;
  while (struct dirent *e = readdir(p)) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string f = d + "/" + e->d_name; struct stat s; if (lstat(f.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) rm_rf(f); else unlink(f.c_str()); }
  closedir(p); rmdir(d.c_str());
}
static void child_setup(const char *capture, const char *dirname) {
  int n = open("/dev/null", O_RDWR); dup2(n, 0);
  int o = n; if (capture) o = open(capture, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (g_quiet) { dup2(o, 1); dup2(o, 2); }
  signal(SIGPROF, on_prof);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  struct rlimit fl = {1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &fl);
  g_scratch = g_root + "/" + dirname; mkdir(g_scratch.c_str(), 0700); if (chdir(g_scratch.c_str())) {}
}

// runs one case in this process; returns 0 ok, 1 discard
static int run_once(const Sub &s, Case &c) {
  arm(s.cpu * g_factor);
  int r = 0;
  try { s.fn(c); } catch (DiscardEx &e) { r = 1; c.labelf("discard: %s", e.why.c_str()); }
  arm(0);
  return r;
}
// The same case again and again: memory which is not given back shows as growth in every repetition.
static int leak_case(const Sub &s, Case &c) {
  int r = run_once(s, c); if (r) return r;
  size_t lost = 0;
  for (int k = 0; k < 4; k++) {
    size_t b0 = ALLOCATED(), b1;
    { Case d; d.in = c.out; if (run_once(s, d)) return 1; }
    b1 = ALLOCATED(); if (k == 0) continue; // caches, buffers of streams
    if (b1 <= b0) return 0;
    lost = b1 - b0;
  }
  if (getenv("LEAKTRACE")) { void (*f)(); *(void **)&f = dlsym(RTLD_DEFAULT, "__lsan_do_leak_check"); if (f) f(); }
  if (me) { snprintf(me->msg, sizeof me->msg, "%zu bytes are not given back each time the case is repeated (case of property %s, sub-check %s)", lost, s.prop, s.name); me->failed = 2; }
  _exit(77);
}
static int run_case(const Sub &s, Case &c) { return g_leak ? leak_case(s, c) : run_once(s, c); }

struct Result { bool failed; std::string msg; std::vector<uint64_t> choices; std::string notes; std::string err; };

// A sequence of cases run one after the other in one fresh process; the last decides.
struct Item { int sub; bool seeded; uint64_t seed; std::vector<uint64_t> in; };
struct Probe { uint64_t t[1 << 16]; };
static Probe *probe;
static uint64_t g_seed;
static uint64_t case_seed(int sub, long idx) { return mix(mix(g_seed, hstr(subs()[sub].prop) ^ hstr(subs()[sub].name)), (uint64_t)idx); }

static Result run_fresh(const std::vector<Item> &items, bool want_err, double factor = 1) {
  Result R; R.failed = false;
  WShm *w = &shm->w[MAXW - 1]; // shrinking happens after the workers are gone
  w->failed = 0; w->msg[0] = 0; w->notes[0] = 0; probe->t[0] = 0;
  std::string cap = g_root + "/capture.txt"; unlink(cap.c_str());
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    me = w; g_factor = factor; child_setup(cap.c_str(), "probe");
    for (size_t i = 0; i < items.size(); i++) {
      Case c; if (items[i].seeded) { c.random = true; c.st = items[i].seed; } else c.in = items[i].in;
      w->failed = 0; w->notes[0] = 0; w->msg[0] = 0;
      if (i + 1 == items.size()) c.tee = probe->t;
      run_case(subs()[items[i].sub], c);
    }
    _exit(0);
  }
  setpgid(p, p);
  int st = 0; double t0 = now(); bool wall = false; double lim = subs()[items.back().sub].cpu * factor * (items.size() + 1) * 4 + 60;
  for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; double el = now() - t0; if (el > lim) { kill(-p, SIGKILL); waitpid(p, &st, 0); wall = true; break; } usleep(el < 0.05 ? 200 : el < 1 ? 2000 : 20000); }
  kill(-p, SIGKILL);
  if (wall) { R.failed = !g_leak; R.msg = "no result (wall limit)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) R.failed = false;
  else if (g_leak && w->failed != 2) R.failed = false;
  else {
    R.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) R.msg = w->msg;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) R.msg = "CPU time limit exceeded (no result)";
    else if (WIFEXITED(st) && WEXITSTATUS(st) == SAN_EXIT) R.msg = "memory error reported by AddressSanitizer";
    else if (WIFEXITED(st)) { char b[100]; snprintf(b, sizeof b, "the code under test called exit(%d)", WEXITSTATUS(st)); R.msg = b; }
    else if (WIFSIGNALED(st)) { char b[100]; snprintf(b, sizeof b, "the code under test died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); R.msg = b; }
  }
  R.notes = w->notes;
  R.choices.assign(probe->t + 1, probe->t + 1 + probe->t[0]);
  if (want_err) { std::ifstream f(cap); std::stringstream ss; ss << f.rdbuf(); R.err = ss.str(); if (R.err.size() > 3000) R.err = R.err.substr(0, 3000); }
  unlink(cap.c_str());
  return R;
}

static std::string esc(const std::string &s) {
  std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o; }

int isolated(const std::function<void()> &fn, double cpu_s, std::string *errtext) {
  std::string cap = g_scratch + "/iso_err.txt";
  if (errtext) unlink(cap.c_str());
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    if (errtext) { int o = open(cap.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(o, 1); dup2(o, 2); close(o); }
    arm(0); signal(SIGPROF, SIG_DFL); arm(cpu_s * g_factor);
    g_inner = true; fn(); fflush(nullptr); _exit(76);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (errtext) { std::ifstream f(cap); std::stringstream ss; ss << f.rdbuf(); *errtext = ss.str(); unlink(cap.c_str()); }
  if (WIFEXITED(st)) { int e = WEXITSTATUS(st); if (e == 76) return 0; if (e == 77) on_fail_exit(); if (e == SAN_EXIT) return 5; return e == 0 ? 6 : 1; }
  int sg = WTERMSIG(st); if (sg == SIGABRT) return 3; if (sg == SIGPROF || sg == SIGXCPU || sg == SIGKILL) { on_prof(0); return 4; } return 2;
}

static void worker(int w, const std::vector<std::pair<int, long>> &plan, double tstop) {
  setpgid(0, 0);
  g_worker = w; me = &shm->w[w];
  char d[32]; snprintf(d, sizeof d, "w%d", w); child_setup(nullptr, d);
  for (;;) {
    if (shm->stop || now() > tstop) _exit(0);
    long k = __sync_fetch_and_add(&shm->next, 1);
    if (k >= (long)plan.size()) _exit(0);
    int si = plan[k].first; long idx = plan[k].second;
    me->sub = si; me->idx = idx; me->failed = 0; me->notes[0] = 0; me->msg[0] = 0; me->busy = 1;
    me->hist[me->nhist % HIST] = idx; me->histsub[me->nhist % HIST] = si; me->nhist++;
    Case c; c.random = true; c.st = case_seed(si, idx);
    struct timespec c0, c1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &c0);
    int r = run_case(subs()[si], c);
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &c1); double el = c1.tv_sec - c0.tv_sec + (c1.tv_nsec - c0.tv_nsec) * 1e-9; if (el > me->maxcpu[si]) me->maxcpu[si] = el;
    me->busy = 0; me->evals++; me->subevals[si]++;
    if (r) { me->discards++; continue; }
    if (c.nontriv) {
      me->nontriv++; me->subnt[si]++;
      uint64_t h = mix(si + 1, c.out.size()); for (uint64_t v : c.out) h = mix(h, v);
      if (me->nhash < NHASH) me->hashes[me->nhash++] = h;
      auto &sp = shm->samp[si];
      if (sp.n < NSAMP && c.notes.size() > 0) { int q = __sync_fetch_and_add(&sp.n, 1); if (q < NSAMP) snprintf(sp.txt[q], sizeof sp.txt[q], "%s", c.notes.c_str()); }
    }
  }
}
} // namespace pbt

using namespace pbt;

int main(int argc, char **argv) {
  std::string prop, tier = "quick", ev, replay, replaydir, technique, only, hname = argv[0]; double scale = 1; long single = -1; int jobs = 0; bool noshrink = false; double wall = 780;
  if (getenv("VERIF_SEED")) g_seed = strtoull(getenv("VERIF_SEED"), nullptr, 10); else g_seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i]; else if (a == "--tier") tier = argv[++i]; else if (a == "--evidence") ev = argv[++i];
    else if (a == "--replay") replay = argv[++i]; else if (a == "--replaydir") replaydir = argv[++i]; else if (a == "--seed") g_seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--only") only = argv[++i]; else if (a == "--scale") scale = atof(argv[++i]); else if (a == "--case") single = atol(argv[++i]); else if (a == "--verbose") g_quiet = false; else if (a == "--wall") wall = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--noshrink") noshrink = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  g_thorough = tier == "thorough"; if (prop == LEAKPROP) g_leak = true;
  char tmpl[] = "/tmp/pbt-XXXXXX"; g_root = mkdtemp(tmpl);
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  probe = (Probe *)mmap(nullptr, sizeof(Probe), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = now();
  if (!replay.empty()) {
    std::ifstream f(replay); std::string line; std::vector<Item> items; std::string sub;
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "leak") g_leak = true;
      if (k != "case") continue; std::string pr, nm, kind; is >> pr >> nm >> kind; Item it; it.sub = -1;
      for (size_t i = 0; i < subs().size(); i++) if (pr == subs()[i].prop && nm == subs()[i].name) it.sub = i;
      if (it.sub < 0) { fprintf(stderr, "unknown sub-check %s/%s\n", pr.c_str(), nm.c_str()); return 2; }
      if (kind == "seed") { it.seeded = true; is >> it.seed; } else { it.seeded = false; uint64_t v; while (is >> v) it.in.push_back(v); }
      items.push_back(it); prop = pr;
    }
    Result R = run_fresh(items, true, 4); rm_rf(g_root);
    printf("%s\nmessage: %s\ncase:\n%s\noutput of the code under test:\n%s\n", R.failed ? "FAILED" : "passed", R.msg.c_str(), R.notes.c_str(), R.err.c_str());
    return R.failed ? 1 : 0;
  }
  if (single >= 0) {
    for (size_t i = 0; i < subs().size(); i++) if (prop == subs()[i].prop && only == subs()[i].name) {
      me = &shm->w[0]; child_setup(nullptr, "single"); Case c; c.random = true; c.st = case_seed(i, single); run_case(subs()[i], c);
      printf("ok\n%s\n", c.notes.c_str()); } rm_rf(g_root); return 0; }

  std::vector<std::pair<int, long>> plan; std::string rule;
  { // interleave the sub-checks so a wall limit cuts all of them evenly
    std::vector<long> tot(subs().size(), 0); long mx = 0;
    for (size_t i = 0; i < subs().size(); i++) { if (!g_leak && prop != subs()[i].prop) continue; if (!only.empty() && only != subs()[i].name) continue;
      tot[i] = g_leak ? (long)ceil(std::min(std::max(subs()[i].quick / 20, 10), 2000) * (g_thorough ? 30 : 1) * scale) : (long)ceil((g_thorough ? subs()[i].thorough : subs()[i].quick) * scale); mx = std::max(mx, tot[i]);
      if (rule.find(subs()[i].rule) == std::string::npos) { if (!rule.empty()) rule += "; "; rule += std::string(subs()[i].name) + ": " + subs()[i].rule; } }
    if (!mx) { fprintf(stderr, "no checks for %s\n", prop.c_str()); return 2; }
    std::vector<std::pair<double, std::pair<int, long>>> o;
    for (size_t i = 0; i < tot.size(); i++) for (long k = 0; k < tot[i]; k++) o.push_back({(k + 0.5) / tot[i], {(int)i, k}});
    std::sort(o.begin(), o.end()); for (auto &x : o) plan.push_back(x.second);
  }
  int W = jobs > 0 ? std::min((int)MAXW, jobs) : std::min((int)MAXW, (int)sysconf(_SC_NPROCESSORS_ONLN)); if (W < 1) W = 1;
  pid_t pid[MAXW]; int live = 0; double tstop = t0 + wall;
  std::vector<std::pair<int, long>> failures; int unrep = 0; std::vector<std::string> unrepmsg; bool cut = false;
  struct Final { int sub; std::vector<Item> items; Result r; } fin; bool have = false, limited = false; int slow = 0;
  auto spawn = [&](int w) { fflush(nullptr); pid_t p = fork(); if (p == 0) { worker(w, plan, tstop); _exit(0); } setpgid(p, p); pid[w] = p; live++; };
  int deaths = 0; for (int w = 0; w < W; w++) spawn(w);
  struct Cand { int w; int sub; long idx; std::string msg; std::vector<std::pair<int, long>> hist; };
  std::vector<double> bstart(MAXW, now()); std::vector<long> bidx(MAXW, -1);
  for (;;) {
    std::vector<Cand> cand;
    while (live > 0) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p == 0) { // look for workers stuck without using CPU
        usleep(20000);
        for (int w = 0; w < W; w++) { long id = shm->w[w].idx * 64 + shm->w[w].sub; if (!shm->w[w].busy || id != bidx[w]) { bidx[w] = id; bstart[w] = now(); }
          else if (pid[w] > 0 && now() - bstart[w] > subs()[shm->w[w].sub].cpu * 6 + 120) kill(-pid[w], SIGKILL); }
        continue; }
      if (p < 0) break;
      int w = -1; for (int i = 0; i < W; i++) if (pid[i] == p) w = i;
      if (w < 0) continue; live--; pid[w] = -1; kill(-p, SIGKILL);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !shm->w[w].busy) continue;
      if (g_leak && shm->w[w].failed != 2) { WShm &x = shm->w[w]; x.busy = 0; x.evals++; x.subevals[x.sub]++; x.discards++; if (++deaths < 400 && !shm->stop) spawn(w); continue; }
      WShm &x = shm->w[w]; Cand cd{w, x.sub, x.idx, x.msg, {}};
      uint64_t n = std::min<uint64_t>(x.nhist, HIST); for (uint64_t k = x.nhist - n; k < x.nhist; k++) cd.hist.push_back({x.histsub[k % HIST], x.hist[k % HIST]});
      cand.push_back(cd); shm->stop = 1; x.busy = 0; x.evals++; x.subevals[x.sub]++;
    }
    if (cand.empty()) break;
    std::sort(cand.begin(), cand.end(), [](const Cand &a, const Cand &b) { return a.sub != b.sub ? a.sub < b.sub : a.idx < b.idx; });
    for (auto &cd : cand) {
      uint64_t sd = case_seed(cd.sub, cd.idx);
      std::vector<Item> it{{cd.sub, true, sd, {}}};
      bool lim = cd.msg.find("CPU time limit") != std::string::npos;
      Result r = run_fresh(it, false, lim ? 4 : 1);
      if (lim && r.failed && r.msg.find("CPU time limit") != std::string::npos) { fin.sub = cd.sub; fin.items = it; fin.r = r; have = true; limited = true; break; }
      if (lim && !r.failed) { slow++; continue; }
      if (!r.failed) { // state carried over from earlier cases of the same process?
        for (size_t k = 2; k <= cd.hist.size() && !r.failed; k *= 2) { std::vector<Item> seq; for (size_t q = cd.hist.size() - k; q < cd.hist.size(); q++) seq.push_back({cd.hist[q].first, true, case_seed(cd.hist[q].first, cd.hist[q].second), {}}); Result r2 = run_fresh(seq, false); if (r2.failed) { r = r2; it = seq; } }
        if (!r.failed) { unrep++; unrepmsg.push_back(std::string(subs()[cd.sub].name) + ": " + cd.msg); continue; }
      }
      fin.sub = cd.sub; fin.items = it; fin.r = r;
      int ok = 0; for (int k = 0; k < 3; k++) { Result q = run_fresh(it, false); if (q.failed) ok++; }
      if (ok < 3) { unrep++; unrepmsg.push_back(std::string(subs()[cd.sub].name) + ": " + r.msg); continue; }
      have = true; break;
    }
    if (have) break;
    if (unrep > 20 || slow > 200) break;
    shm->stop = 0; for (int w = 0; w < W; w++) spawn(w);
  }
  if (now() > tstop) cut = true;

  std::string rfile;
  if (have) {
    // ---- shrink (single-case failures only)
    long tries = 0; double ts = now();
    if (fin.items.size() == 1 && !noshrink && !limited) {
      int sub = fin.sub; std::vector<uint64_t> best = fin.r.choices;
      auto fails = [&](const std::vector<uint64_t> &v, Result &out) { tries++; Item it{sub, false, 0, v}; out = run_fresh({it}, false); return out.failed && out.msg.find("limit") == std::string::npos == (fin.r.msg.find("limit") == std::string::npos); };
      Result r;
      if (best.size() && fails(best, r)) {
        bool slow = fin.r.msg.find("limit") != std::string::npos; double budget = slow ? 60 : 45;
        bool improved = true;
        while (improved && now() - ts < budget) {
          improved = false;
          // truncate / delete blocks
          for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() - ts < budget; len = len > 1 ? len / 2 : 0) {
            for (size_t i = best.size(); i >= len && len > 0 && now() - ts < budget; ) {
              i -= len; std::vector<uint64_t> v(best); v.erase(v.begin() + i, v.begin() + i + len);
              if (fails(v, r)) { best = v; if (r.choices.size() < best.size()) best = r.choices; fin.r = r; improved = true; if (i > best.size()) i = best.size(); }
              if (i < len) break;
            }
            if (len == 1) break;
          }
          // zero blocks
          for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1 && now() - ts < budget; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() - ts < budget; i += len) {
              bool z = true; for (size_t q = i; q < i + len; q++) if (best[q]) z = false; if (z) continue;
              std::vector<uint64_t> v(best); for (size_t q = i; q < i + len; q++) v[q] = 0;
              if (fails(v, r)) { best = v; fin.r = r; improved = true; } }
            if (len == 1) break; }
          // minimise single values by halving
          for (size_t i = 0; i < best.size() && now() - ts < budget; i++) {
            if (!best[i]) continue; uint64_t lo = 0, hi = best[i];
            while (lo + 1 < hi && now() - ts < budget) { uint64_t m = lo + (hi - lo) / 2; std::vector<uint64_t> v(best); v[i] = m; if (fails(v, r)) { hi = m; fin.r = r; } else lo = m; }
            if (hi < best[i]) { best[i] = hi; improved = true; } }
        }
        Item it{sub, false, 0, best}; fin.items = {it};
      }
    }
    Result last = fin.r; int ok = limited ? 3 : 0; for (int k = 0; k < 3 && !limited; k++) { last = run_fresh(fin.items, true); if (last.failed) ok++; }
    if (ok < 3) { have = false; unrep++; unrepmsg.push_back("not reproducible after shrinking: " + fin.r.msg); }
    else {
      mkdir(replaydir.c_str(), 0755); char nm[256]; snprintf(nm, sizeof nm, "%s/%s-%s-seed%llu.replay", replaydir.c_str(), prop.c_str(), subs()[fin.sub].name, (unsigned long long)g_seed);
      rfile = nm; std::ofstream o(rfile);
      o << "# property " << prop << ", sub-check " << subs()[fin.sub].name << ", VERIF_SEED " << g_seed << ", " << tries << " shrinking attempts\n# run: python3 /verif/check.py --replay " << rfile << "\n";
      std::istringstream ms(last.msg); std::string l; while (std::getline(ms, l)) o << "# message: " << l << "\n";
      std::istringstream ns(last.notes); while (std::getline(ns, l)) o << "# input: " << l << "\n";
      std::istringstream es(last.err); int k = 0; while (k++ < 25 && std::getline(es, l)) o << "# output: " << l << "\n";
      if (g_leak) o << "leak\n";
      for (auto &it : fin.items) { o << "case " << subs()[it.sub].prop << " " << subs()[it.sub].name << " "; if (it.seeded) o << "seed " << it.seed; else { o << "choices"; for (auto v : it.in) o << " " << v; } o << "\n"; }
      fin.r = last;
    }
  }
  // ---- evidence
  uint64_t ev_n = 0, nt = 0, disc = 0; std::unordered_set<uint64_t> hs; std::map<std::string, uint64_t> labs; std::map<std::string, std::pair<uint64_t, uint64_t>> per; bool sat = false;
  for (int w = 0; w < MAXW; w++) { WShm &x = shm->w[w]; ev_n += x.evals; nt += x.nontriv; disc += x.discards; for (uint64_t k = 0; k < x.nhash; k++) hs.insert(x.hashes[k]); if (x.nhash >= NHASH) sat = true;
    for (int i = 0; i < NLAB && x.labs[i].name[0]; i++) labs[x.labs[i].name] += x.labs[i].n;
    for (size_t i = 0; i < subs().size() && i < 64; i++) if (x.subevals[i]) { per[subs()[i].name].first += x.subevals[i]; per[subs()[i].name].second += x.subnt[i]; } }
  if (!ev.empty()) {
    std::ofstream o(ev);
    o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << g_seed << ",\n \"level\": \"exploration\",\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << (have ? 1 : 0) << ",\n";
    o << " \"coverage\": {\n  \"evaluations\": " << ev_n << ",\n  \"planned\": " << plan.size() << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n  \"nontrivial\": " << nt << ",\n  \"discarded\": " << disc << ",\n  \"wall_limit_hit\": " << (cut ? "true" : "false") << ",\n  \"unreproduced_failures\": " << unrep << ",\n";
    o << "  \"rule\": \"" << esc(rule) << "\",\n  \"subchecks\": {"; bool f = true; for (auto &p : per) { o << (f ? "" : ", ") << "\"" << esc(p.first) << "\": {\"cases\": " << p.second.first << ", \"nontrivial\": " << p.second.second << "}"; f = false; }
    o << "},\n  \"classes\": {"; f = true; for (auto &p : labs) { o << (f ? "" : ", ") << "\"" << esc(p.first) << "\": " << p.second; f = false; }
    o << "},\n  \"samples\": ["; f = true; int ns = 0;
    for (size_t i = 0; i < subs().size() && i < 64; i++) for (int k = 0; k < std::min((int)shm->samp[i].n, 2) && ns < 16; k++) { o << (f ? "" : ",") << "\n   {\"subcheck\": \"" << subs()[i].name << "\", \"case\": \"" << esc(shm->samp[i].txt[k]) << "\"}"; f = false; ns++; }
    o << "\n  ]";
    if (unrep) { o << ",\n  \"unreproduced\": ["; f = true; for (auto &m : unrepmsg) { o << (f ? "" : ", ") << "\"" << esc(m.substr(0, 300)) << "\""; f = false; } o << "]"; }
    o << "\n }\n}\n";
  }
  if (getenv("PBT_TIMES")) for (size_t i = 0; i < subs().size() && i < 64; i++) { double m = 0; for (int w = 0; w < MAXW; w++) m = std::max(m, shm->w[w].maxcpu[i]); if (m > 0) printf("slowest %s %s %.2f of %.0f s%s\n", subs()[i].prop, subs()[i].name, m, subs()[i].cpu, m > subs()[i].cpu / 10 ? " <<<<" : ""); }
  rm_rf(g_root);
  if (have) { printf("property %s, sub-check %s: %s\n%s\n", prop.c_str(), subs()[fin.sub].name, fin.r.msg.c_str(), fin.r.notes.c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rfile.c_str()); return 1; }
  printf("property %s (%s, seed %llu): %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s%s%s\n", prop.c_str(), tier.c_str(), (unsigned long long)g_seed, (unsigned long long)ev_n, hs.size(), (unsigned long long)disc, now() - t0, cut ? " (wall limit)" : "", unrep ? " (unreproduced failures!)" : "");
  return 0;
}
