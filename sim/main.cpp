// Driver: seeded search over plans, double-run determinism gate, minimiser,
// replay, evidence.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include "core.h"

extern "C" void __real_exit(int) __attribute__((noreturn));
namespace dst {
void on_abort_signal();

// ------------------------------------------------------------ plan text
std::string Plan::text() const {
  std::string o = "dst-plan 1\nprop " + prop + "\nscen " + scen + "\n";
  for (auto &kv : cfg) o += "set " + kv.first + " " + kv.second + "\n";
  for (auto &op : ops) {
    o += "op "; o += op.k;
    int last = 5; while (last > 0 && op.a[last] == 0) last--;
    for (int i = 0; i <= last; i++) { o += " "; o += std::to_string(op.a[i]); }
    o += "\n";
  }
  for (auto &d : sched) o += "sw " + std::to_string(d.from) + " " + std::to_string(d.step) + " " + std::to_string(d.to) + "\n";
  return o;
}
bool Plan::parse(const std::string &text, Plan &p) {
  std::istringstream in(text);
  std::string line; p = Plan();
  bool ok = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); std::string w; l >> w;
    if (w == "dst-plan") ok = true;
    else if (w == "prop") l >> p.prop;
    else if (w == "scen") l >> p.scen;
    else if (w == "set") { std::string k, v; l >> k; std::getline(l, v); size_t i = v.find_first_not_of(' '); p.cfg[k] = i == std::string::npos ? "" : v.substr(i); }
    else if (w == "op") { std::string k; l >> k; Op o(k.c_str()); for (int i = 0; i < 6; i++) if (!(l >> o.a[i])) { o.a[i] = 0; break; } p.ops.push_back(o); }
    else if (w == "sw") { Decision d; l >> d.from >> d.step >> d.to; p.sched.push_back(d); }
  }
  return ok;
}

// ------------------------------------------------------------ registry
static std::vector<Scenario> &reg() { static std::vector<Scenario> r; return r; }
void register_scenario(const Scenario &s) { reg().push_back(s); }
std::vector<const Scenario *> scenarios_for(const std::string &prop) {
  std::vector<const Scenario *> v;
  for (auto &s : reg()) if (prop == s.prop) v.push_back(&s);
  std::sort(v.begin(), v.end(), [](const Scenario *a, const Scenario *b) { return strcmp(a->name, b->name) < 0; });
  return v;
}
const Scenario *find_scenario(const std::string &prop, const std::string &name) {
  for (auto &s : reg()) if (prop == s.prop && name == s.name) return &s;
  return nullptr;
}

// ------------------------------------------------------------ shared area
static const int NCTR = 512, NWORK = 16, MAXLOG = 40000;
static const uint64_t BM = 1ULL << 23;
struct Ctr { std::atomic<int> used; char name[56]; std::atomic<uint64_t> v; };
struct Slot { Result r; int nlog; Decision log[MAXLOG]; };
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  std::atomic<uint64_t> runs, steps, sim_ns, nontriv, events, known, dbl, slow_ms, slow_idx;
  Ctr ctr[NCTR];
  std::atomic<uint8_t> states[BM / 8], inter[BM / 8], distinct[BM / 8];
  Slot slot[NWORK];
};
static Shared *S;
static Slot *my_slot;
static bool g_child = false, g_counting = false;
std::string g_scratch = ".", g_crash_key = "library", g_bug_allow;
static const Plan *g_plan;
static std::string g_argv0, g_verif;
bool in_child() { return g_child; }

static bool bm_set(std::atomic<uint8_t> *b, uint64_t h) {
  h = mix(h, 0x51ed) % BM;
  uint8_t m = 1 << (h & 7);
  return !(b[h >> 3].fetch_or(m) & m);
}
static uint64_t bm_count(std::atomic<uint8_t> *b) { uint64_t n = 0; for (uint64_t i = 0; i < BM / 8; i++) n += __builtin_popcount(b[i].load()); return n; }
void count(const char *name, uint64_t n) {
  if (!g_counting) return;
  uint64_t h = hstr(name, strlen(name));
  for (int i = 0; i < NCTR; i++) {
    Ctr &c = S->ctr[(h + i) % NCTR];
    int u = c.used.load();
    if (u == 0) { int z = 0; if (c.used.compare_exchange_strong(z, 1)) { strncpy(c.name, name, 55); c.used = 2; u = 2; } else u = c.used.load(); }
    while (u == 1) u = c.used.load();
    if (strncmp(c.name, name, 55) == 0) { c.v += n; return; }
  }
}
void state(uint64_t h) { if (g_counting) bm_set(S->states, h); }
void ev(uint64_t a, uint64_t b, uint64_t c) { if (!my_slot) return; Result &r = my_slot->r; r.hash = mix(mix(mix(r.hash, a), b), c); r.nevents++; }
void nontrivial() { my_slot->r.nontrivial = 1; }
void note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(my_slot->r.where, sizeof my_slot->r.where, fmt, ap); va_end(ap); }

static void dump_log() {
  auto &l = sched_log();
  int n = std::min<int>(l.size(), MAXLOG);
  for (int i = 0; i < n; i++) my_slot->log[i] = l[i];
  my_slot->nlog = l.size() > MAXLOG ? -1 : n;
}
static void finish(int status) {
  Result &r = my_slot->r;
  r.status = status;
  r.steps = steps_now(); r.sim_ns = sim_now_ns();
  r.hash = mix(r.hash, sched_signature());
  dump_log();
  if (g_counting && sched_switches()) bm_set(S->inter, sched_signature());
}
void violate(const char *cls, const std::string &key, const char *fmt, ...) {
  Result &r = my_slot->r;
  snprintf(r.cls, sizeof r.cls, "%s", cls);
  snprintf(r.key, sizeof r.key, "%s", key.c_str());
  va_list ap; va_start(ap, fmt); vsnprintf(r.msg, sizeof r.msg, fmt, ap); va_end(ap);
  ev(hstr(cls, strlen(cls)), hstr(key));
  finish(ST_VIOLATION);
  _exit(0);
}
void harness_error(const char *fmt, ...) {
  Result &r = my_slot->r;
  va_list ap; va_start(ap, fmt); vsnprintf(r.msg, sizeof r.msg, fmt, ap); va_end(ap);
  r.status = ST_ERROR;
  _exit(0);
}
static int g_capfd = -1, g_outfd = -1;
static std::string slurp_fd(int fd) {
  fflush(stdout); fflush(stderr);
  off_t n = lseek(fd, 0, SEEK_END); std::string s; if (n <= 0) return s;
  s.resize(std::min<off_t>(n, 1 << 20));
  ssize_t k = pread(fd, &s[0], s.size(), 0); s.resize(k > 0 ? k : 0);
  return s;
}
std::string captured_output() { return slurp_fd(g_capfd); }
std::string captured_stdout() { return slurp_fd(g_outfd); }
void truncate_capture() { fflush(stdout); fflush(stderr); if (ftruncate(g_capfd, 0) == 0) lseek(g_capfd, 0, SEEK_SET); if (ftruncate(g_outfd, 0) == 0) lseek(g_outfd, 0, SEEK_SET); std::cout.clear(); }

static void on_sig(int sig, siginfo_t *si, void *uc) {
  if (sig == SIGABRT) on_abort_signal();
  if (my_slot && my_slot->r.status == ST_NONE) {
    Result &r = my_slot->r;
    const char *nm = sig == SIGSEGV ? "crash" : sig == SIGABRT ? "abort" : sig == SIGALRM || sig == SIGPROF ? "hang" : "crash";
    snprintf(r.cls, sizeof r.cls, "%s", nm);
    snprintf(r.key, sizeof r.key, "%s", g_crash_key.c_str());
    unsigned long pc = 0;
#ifdef __x86_64__
    pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
    snprintf(r.msg, sizeof r.msg, "signal %d (%s) in library code, pc=%#lx, at: %s", sig, sigabbrev_np(sig), pc, r.where);
    r.status = ST_VIOLATION;
    r.hash = mix(r.hash, sig == SIGALRM || sig == SIGPROF ? 0 : 1);
    dump_log();
  }
  _exit(0);
}
static __attribute__((noinline)) void paint_stack(uint64_t seed) {
  volatile unsigned char b[192 * 1024];
  uint64_t x = mix(seed, 7);
  for (size_t i = 0; i < sizeof b; i++) { if ((i & 7) == 0) x = x * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = seed ? (unsigned char)(x >> (8 * (i & 7))) : 0; }
}
static void rm_tree(const std::string &d, bool self) {
  DIR *dp = opendir(d.c_str()); if (!dp) return;
  while (dirent *e = readdir(dp)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string p = d + "/" + e->d_name; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p, true); else unlink(p.c_str());
  }
  closedir(dp);
  if (self) rmdir(d.c_str());
}
static std::string g_root;
static std::string wdir(int w) { return g_root + "/w" + std::to_string(w); }
static void child_main(const Plan &p, Slot *slot, int w, bool counting) {
  g_child = true; my_slot = slot; g_counting = counting; g_plan = &p;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (chdir(wdir(w).c_str()) != 0) _exit(9);
  int fd = memfd_create("out", 0), fe = memfd_create("err", 0);
  fcntl(fd, F_SETFL, O_APPEND); fcntl(fe, F_SETFL, O_APPEND);
  dup2(fd, 1); dup2(fe, 2);
  g_outfd = fd; g_capfd = fe;
  struct rlimit rl = {12UL << 30, 12UL << 30}; setrlimit(RLIMIT_AS, &rl);
  struct rlimit fs = {1UL << 30, 1UL << 30}; setrlimit(RLIMIT_FSIZE, &fs);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 65536;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
  struct itimerval it = {{0, 0}, {40, 0}}, iw = {{0, 0}, {150, 0}};  // CPU time, so that a busy machine does not turn a slow run into a hang
  setitimer(ITIMER_PROF, &it, nullptr); setitimer(ITIMER_REAL, &iw, nullptr);
  const Scenario *sc = find_scenario(p.prop, p.scen);
  if (!sc) { slot->r.status = ST_ERROR; snprintf(slot->r.msg, sizeof slot->r.msg, "unknown scenario %s/%s", p.prop.c_str(), p.scen.c_str()); _exit(0); }
  mem_begin(p.geti("memseed", 0));
  sched_begin(p);
  env_apply(p);
  paint_stack(p.geti("memseed", 0));
  sc->run(p);
  sched_end();
  mem_end();
  finish(ST_OK);
  _exit(0);
}
static Result run_plan(const Plan &p, int w, bool counting) {
  Slot *slot = &S->slot[w];
  memset(&slot->r, 0, sizeof slot->r); slot->nlog = 0;
  slot->r.hash = 0x1234;
  pid_t pid = fork();
  if (pid == 0) child_main(p, slot, w, counting);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  rm_tree(wdir(w), false);
  Result r = slot->r;
  if (r.status == ST_NONE) {
    r.status = ST_ERROR;
    snprintf(r.msg, sizeof r.msg, "run ended without a result (wait status %#x, at: %.100s)", st, r.where);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGXFSZ || WTERMSIG(st) == SIGABRT)) { r.status = ST_VIOLATION; strcpy(r.cls, "crash"); snprintf(r.key, sizeof r.key, "library"); }
  }
  return r;
}
static bool same_failure(const Result &a, const Result &b) { return a.status == ST_VIOLATION && b.status == ST_VIOLATION && !strcmp(a.cls, b.cls) && !strcmp(a.key, b.key); }

// ------------------------------------------------------------ known findings
struct Known { std::string prop, cls, key, replay, what; };
static std::vector<Known> load_known() {
  std::vector<Known> v; std::ifstream f(g_verif + "/known_findings.txt"); std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 6, "KNOWN ") != 0) continue;
    Known k; auto field = [&](const char *n) { std::string t = std::string(" ") + n + "="; size_t i = line.find(t); if (i == std::string::npos) return std::string(); i += t.size(); size_t e = n == std::string("what") ? line.size() : line.find(' ', i); return line.substr(i, e - i); };
    k.prop = field("property"); k.cls = field("class"); k.key = field("key"); k.replay = field("replay"); k.what = field("what");
    v.push_back(k);
  }
  return v;
}
static std::string slurp(const std::string &f) { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); return ss.str(); }
static void spit(const std::string &f, const std::string &s) { std::ofstream o(f); o << s; }

// ------------------------------------------------------------ minimiser
static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template <class V> static bool ddmin(Plan &best, V Plan::*mem, const Result &want, int w, double dl, int &tries) {
  bool any = false;
  size_t n = 2;
  while ((best.*mem).size() >= 1 && now_s() < dl) {
    size_t sz = (best.*mem).size(); size_t chunk = std::max<size_t>(1, sz / n);
    bool red = false;
    for (size_t i = 0; i < sz && now_s() < dl; i += chunk) {
      Plan c = best; auto &v = c.*mem;
      if (i >= v.size()) break;
      v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
      tries++;
      Result r = run_plan(c, w, false);
      if (same_failure(r, want)) { best = c; red = any = true; n = std::max<size_t>(2, n - 1); break; }
    }
    if (!red) { if (chunk == 1) break; n = std::min(sz, n * 2); }
  }
  return any;
}
static Plan minimise(const Plan &p0, const Result &want, int w, double secs, int &tries) {
  double dl = now_s() + secs;
  Plan best = p0;
  std::string pol = p0.get("sched", "off");
  if (pol != "off" && pol != "explicit") {
    Result r = run_plan(best, w, false);
    if (same_failure(r, want) && S->slot[w].nlog >= 0) {
      Plan c = best; c.set("sched", "explicit"); c.sched.assign(S->slot[w].log, S->slot[w].log + S->slot[w].nlog);
      Result r2 = run_plan(c, w, false);
      if (same_failure(r2, want)) best = c;
    }
  }
  const Scenario *sc = find_scenario(p0.prop, p0.scen);
  for (int round = 0; round < 3 && now_s() < dl; round++) {
    bool any = false;
    if (best.sched.size()) any |= ddmin(best, &Plan::sched, want, w, dl, tries);
    any |= ddmin(best, &Plan::ops, want, w, dl, tries);
    for (auto &kv : sc->simpler)
      for (auto &val : kv.second) {
        if (now_s() > dl) break;
        if (!best.cfg.count(kv.first) || best.cfg[kv.first] == val) { if (best.cfg.count(kv.first)) break; continue; }
        Plan c = best; c.set(kv.first, val); tries++;
        if (same_failure(run_plan(c, w, false), want)) { best = c; any = true; break; }
      }
    for (auto k : {"memseed", "clkseed", "chunkseed"}) if (best.geti(k) != 0 && now_s() < dl) { Plan c = best; c.set(k, 0); tries++; if (same_failure(run_plan(c, w, false), want)) { best = c; any = true; } }
    if (best.ops.size() <= 60)
      for (size_t i = 0; i < best.ops.size() && now_s() < dl; i++)
        for (int j = 0; j < 6; j++) {
          int64_t v = best.ops[i].a[j];
          for (int64_t t : {(int64_t)0, (int64_t)1, v / 2}) {
            if (v == t || (v == 1 && t == 0 && round)) continue;
            if (llabs(t) >= llabs(v)) continue;
            Plan c = best; c.ops[i].a[j] = t; tries++;
            if (same_failure(run_plan(c, w, false), want)) { best = c; any = true; break; }
          }
        }
    if (!any) break;
  }
  return best;
}
// ------------------------------------------------------------ property table
struct PropInfo { const char *id; int runs; int secs; int tsecs; const char *rule; const char *real; const char *stub; };
extern const PropInfo g_props[];
static const PropInfo *pinfo(const std::string &id) { for (const PropInfo *p = g_props; p->id; p++) if (id == p->id) return p; return nullptr; }

static Plan make_plan(const std::vector<const Scenario *> &sc, uint64_t seed, uint64_t idx, bool thorough) {
  int tot = 0; for (auto s : sc) tot += s->weight;
  int k = (int)(idx % tot); const Scenario *s = nullptr;
  for (auto x : sc) { if (k < x->weight) { s = x; break; } k -= x->weight; }
  Plan p = s->gen(mix(seed * 1000003 + 17, hstr(s->name, strlen(s->name))), idx, thorough);
  p.prop = s->prop; p.scen = s->name;
  return p;
}
static std::string jesc(const std::string &s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static std::string replay_text(const Plan &p, const Result &r) {
  std::string o = "# " + p.prop + " " + r.cls + " [" + r.key + "]\n";
  std::string m = r.msg; for (auto &c : m) if (c == '\n') c = ' ';
  char h[64]; snprintf(h, sizeof h, "# expect-hash %016lx\n", (unsigned long)r.hash);
  return o + "# " + m + "\n" + h + p.text();
}
static int cmd_replay(const std::string &file, bool quiet) {
  Plan p; if (!Plan::parse(slurp(file), p)) { fprintf(stderr, "cannot parse %s\n", file.c_str()); return 2; }
  Result r = run_plan(p, 0, false);
  if (quiet) { printf("%d %s %s %016lx\n", r.status, r.cls[0] ? r.cls : "-", r.key[0] ? r.key : "-", (unsigned long)r.hash); return 0; }
  if (r.status == ST_VIOLATION) { printf("reproduced: %s [%s] hash=%016lx\n%s\n", r.cls, r.key, (unsigned long)r.hash, r.msg); printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file.c_str()); return 1; }
  if (r.status == ST_ERROR) { printf("error: %s\n", r.msg); return 2; }
  printf("no violation (hash=%016lx steps=%lu)\n", (unsigned long)r.hash, (unsigned long)r.steps);
  return 0;
}
static bool fresh_replay_matches(const std::string &file, const Result &want, std::string &got) {
  std::string cmd = "'" + g_argv0 + "' replay-quiet '" + file + "'";
  FILE *f = popen(cmd.c_str(), "r"); char b[512] = ""; if (!fgets(b, sizeof b, f)) b[0] = 0; pclose(f);
  got = b;
  int st; char cls[64], key[128], h[32];
  if (sscanf(b, "%d %63s %127s %31s", &st, cls, key, h) != 4) return false;
  char hh[32]; snprintf(hh, sizeof hh, "%016lx", (unsigned long)want.hash);
  return st == ST_VIOLATION && !strcmp(cls, want.cls) && !strcmp(key, want.key) && !strcmp(h, hh);
}

static int cmd_run(const std::string &prop, const std::string &tier, uint64_t seed, int64_t nruns, int secs, int jobs, bool all) {
  double t0 = now_s();
  auto sc = scenarios_for(prop); const PropInfo *pi = pinfo(prop);
  if (sc.empty() || !pi) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  bool thorough = tier == "thorough";
  if (nruns <= 0) nruns = thorough ? INT64_MAX : pi->runs;
  if (secs <= 0) secs = thorough ? pi->tsecs : pi->secs;
  auto known = load_known();
  // known findings first: each is replayed on the current tree
  std::vector<std::string> known_lines;
  for (auto &k : known) if (k.prop == prop) {
    Plan p; if (!Plan::parse(slurp(g_verif + "/" + k.replay), p)) continue;
    Result r = run_plan(p, 0, false);
    if (r.status == ST_VIOLATION && k.cls == r.cls && k.key == r.key) { printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.what.c_str()); known_lines.push_back(k.what); }
  }
  fflush(stdout);
  struct Fail { uint64_t idx; char cls[48], key[96], msg[600]; int status; };
  const int MAXF = 4096;
  struct FailTab { std::atomic<int> n; Fail f[MAXF]; };
  FailTab *ft = (FailTab *)mmap(nullptr, sizeof(FailTab), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> ws;
  for (int w = 0; w < jobs; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      for (;;) {
        if (S->stop.load() || now_s() - t0 > secs) break;
        uint64_t i = S->next.fetch_add(1);
        if ((int64_t)i >= nruns) break;
        Plan p = make_plan(sc, seed, i, thorough);
        double b0 = now_s(); Result r = run_plan(p, w, true); uint64_t ms = (now_s() - b0) * 1000; if (ms > S->slow_ms) S->slow_ms = ms, S->slow_idx = i;
        S->runs++; S->steps += r.steps; S->sim_ns += r.sim_ns; S->events += r.nevents;
        if (r.nontrivial && r.status == ST_OK) { S->nontriv++; bm_set(S->distinct, r.hash); }
        if (i % 97 == 0 && r.status == ST_OK) {
          Result r2 = run_plan(p, w, false); S->dbl++;
          if (r2.status != r.status || r2.hash != r.hash) { r.status = ST_ERROR; snprintf(r.msg, sizeof r.msg, "nondeterminism: plan %lu ran twice with different event logs", (unsigned long)i); }
        }
        if (r.status == ST_VIOLATION || r.status == ST_ERROR) {
          bool kn = false;
          if (r.status == ST_VIOLATION) for (auto &k : known) if (k.prop == prop && k.cls == r.cls && k.key == r.key) kn = true;
          if (kn) { S->known++; continue; }
          int n = ft->n.fetch_add(1);
          if (n < MAXF) { Fail &f = ft->f[n]; f.idx = i; f.status = r.status; strcpy(f.cls, r.cls); strcpy(f.key, r.key); snprintf(f.msg, sizeof f.msg, "%s", r.msg); }
          if (!all && (n + 1 >= 4 || now_s() - t0 > 20)) S->stop = 1;
        }
      }
      _exit(0);
    }
    ws.push_back(pid);
  }
  for (auto p : ws) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  double wall_search = now_s() - t0;
  int nf = std::min<int>(ft->n.load(), MAXF);
  std::vector<Fail> fails(ft->f, ft->f + nf);
  std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b) { return a.idx < b.idx; });
  int rc = 0; std::string violation_json;
  if (all) {
    std::map<std::string, int> agg; std::map<std::string, std::string> ex;
    for (auto &f : fails) { std::string k = std::string(f.status == ST_ERROR ? "ERROR " : "") + f.cls + " [" + f.key + "]"; if (!agg[k]++) ex[k] = "idx " + std::to_string(f.idx) + ": " + std::string(f.msg).substr(0, 300); }
    for (auto &kv : agg) printf("FAILED %d  %s   %s\n", kv.second, kv.first.c_str(), ex[kv.first].c_str());
  }
  std::vector<const Fail *> cand; const Fail *err = nullptr;
  { std::map<std::string, int> per;   // failures of different kinds first: one kind that cannot be repeated must not hide another
    for (int round = 0; round < 3; round++)
      for (auto &f : fails) if (f.status == ST_VIOLATION && std::find(cand.begin(), cand.end(), &f) == cand.end() && per[std::string(f.cls) + f.key] <= round && cand.size() < 12) { per[std::string(f.cls) + f.key]++; cand.push_back(&f); }
    for (auto &f : fails) if (f.status == ST_ERROR && !err) err = &f; }
  if (cand.size() && !all) {
    std::string rdir = g_verif + "/out"; mkdir(rdir.c_str(), 0777);
    double rdl = now_s() + 420; std::string notes; bool done = false; size_t slow = 0;  // runs that were cut short in the search and end when run again
    auto file_of = [&](const Fail *v) { return rdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(v->idx) + ".replay"; };
    auto report = [&](const Fail *v, const Plan &p0, const Plan &m, const Result &rm, int tries, const char *how) {
      std::string file = file_of(v);
      printf("violated: %s [%s]\n  %s\n  seed=%lu run=%lu ops %zu -> %zu, switches %zu (%s, minimised in %d runs)\n", rm.cls, rm.key, rm.msg, (unsigned long)seed, (unsigned long)v->idx, p0.ops.size(), m.ops.size(), m.sched.size(), how, tries);
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
      violation_json = "{\"class\":\"" + jesc(rm.cls) + "\",\"key\":\"" + jesc(rm.key) + "\",\"message\":\"" + jesc(rm.msg) + "\",\"replay\":\"" + jesc(file) + "\",\"seed\":" + std::to_string(seed) + ",\"run\":" + std::to_string(v->idx) + ",\"repeatability\":\"" + jesc(how) + "\"}";
      rc = 1; done = true;
    };
    // first choice: a failure that repeats to the last event, in this process and in a fresh one
    for (const Fail *v : cand) {
      if (done || now_s() > rdl) break;
      Plan p0 = make_plan(sc, seed, v->idx, thorough);
      Result r0 = run_plan(p0, 0, false), r1 = run_plan(p0, 0, false);
      std::string file = file_of(v), got;
      if (!strcmp(v->cls, "hang") && r0.status == ST_OK && r1.status == ST_OK) { slow++; continue; }
      if (!(r0.status == ST_VIOLATION && same_failure(r0, r1) && r0.hash == r1.hash)) { notes += "run " + std::to_string(v->idx) + " does not repeat exactly (" + v->cls + ")\n"; continue; }
      spit(file, replay_text(p0, r0));
      if (!fresh_replay_matches(file, r0, got)) { notes += "run " + std::to_string(v->idx) + " differs in a fresh process (" + got.substr(0, 120) + ")\n"; unlink(file.c_str()); continue; }
      int tries = 0;
      Plan m = minimise(p0, r0, 0, thorough ? 90 : 40, tries);
      Result rm = run_plan(m, 0, false);
      spit(file, replay_text(m, rm));
      if (!(same_failure(rm, r0) && fresh_replay_matches(file, rm, got))) { m = p0; rm = r0; spit(file, replay_text(m, rm)); }
      report(v, p0, m, rm, tries, "exactly repeatable");
    }
    // second choice: code that reads memory it does not own can fail in every run and differently each time.  The simulated
    // inputs are the same, so a violation seen in the search and again in two fresh processes is one; a single sighting is not.
    for (const Fail *v : cand) {
      if (done || slow == cand.size() || now_s() > rdl) break;
      Plan p0 = make_plan(sc, seed, v->idx, thorough);
      std::string file = file_of(v); Result r0 = run_plan(p0, 0, false);
      if (r0.status != ST_VIOLATION) { r0 = Result(); memset(&r0, 0, sizeof r0); r0.status = ST_VIOLATION; strcpy(r0.cls, v->cls); strcpy(r0.key, v->key); snprintf(r0.msg, sizeof r0.msg, "%s", v->msg); }
      spit(file, replay_text(p0, r0));
      int n = 0; std::string got;
      for (int k = 0; k < 4 && n < 2 && now_s() < rdl + 120; k++) { fresh_replay_matches(file, r0, got); if (got.compare(0, 2, std::to_string((int)ST_VIOLATION) + " ") == 0) n++; }
      if (n >= 2) report(v, p0, p0, r0, 0, "every replay violates the property, not always in the same event: the code's behaviour depends on memory it does not own");
      else unlink(file.c_str());
    }
    if (!done && slow == cand.size()) printf("%zu slow runs were cut short; run again, they end without a violation\n", slow);
    else if (!done) {
      printf("ERROR: run %lu of seed %lu failed (%s) but is not repeatable; not reported as a violation\n%s", (unsigned long)cand[0]->idx, (unsigned long)seed, cand[0]->msg, notes.c_str());
      rc = 2;
    }
  } else if (err && !all) { printf("ERROR: run %lu: %s\n", (unsigned long)err->idx, err->msg); rc = 2; }
  // evidence
  double wall = now_s() - t0;
  uint64_t runs = S->runs.load();
  std::ostringstream e;
  e << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"wall_s\": " << wall << ",\n";
  e << " \"coverage\": {\n  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << bm_count(S->distinct) << ",\n  \"rule\": \"" << jesc(pi->rule) << " A run counts as non-trivial when its scenario marked it so; distinct = distinct event-log hashes among those.\",\n";
  e << "  \"runs_per_hour\": " << (uint64_t)(runs / std::max(0.001, wall_search) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(runs / std::max(0.001, wall_search) * 3600) << ",\n  \"simulated_seconds\": " << S->sim_ns.load() / 1e9 << ",\n  \"simulated_steps\": " << S->steps.load() << ",\n  \"events_recorded\": " << S->events.load() << ",\n";
  e << "  \"distinct_states\": " << bm_count(S->states) << ",\n  \"distinct_states_measure\": \"hash of (component, occupancy, resident set, operation class) after each operation; lower bound from a 2^23-bit map\",\n  \"distinct_interleavings\": " << bm_count(S->inter) << ",\n  \"interleaving_measure\": \"hash of the sequence of (thread, thread-local step, next thread) handovers\",\n  \"runs_repeated_for_determinism\": " << S->dbl.load() << ",\n  \"known_finding_runs_skipped\": " << S->known.load() << ",\n";
  std::map<std::string, uint64_t> cs; for (auto &c : S->ctr) if (c.used.load() == 2) cs[c.name] += c.v.load();
  e << "  \"faults_injected\": {"; bool first = true;
  for (auto &kv : cs) if (kv.first.compare(0, 6, "fault.") == 0) { e << (first ? "" : ", ") << "\"" << jesc(kv.first.substr(6)) << "\": " << kv.second; first = false; }
  e << "},\n  \"probes\": {"; first = true;
  for (auto &kv : cs) if (kv.first.compare(0, 6, "fault.") != 0) { e << (first ? "" : ", ") << "\"" << jesc(kv.first) << "\": " << kv.second; first = false; }
  e << "},\n  \"real_components\": \"" << jesc(pi->real) << "\",\n  \"stub_components\": \"" << jesc(pi->stub) << "\",\n  \"samples\": [";
  for (int i = 0; i < 2; i++) { Plan p = make_plan(sc, seed, i, thorough); std::string t = p.text(); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; e << (i ? ", " : "") << "\"" << jesc(t) << "\""; }
  e << "]\n },\n \"assumptions\": [\"the simulator's seams (allocator, clocks, thread pool, mutexes, files) behave like the real ones where they do not inject faults\", \"search is seeded sampling, not exhaustive\"],\n";
  e << " \"violations\": " << (violation_json.size() ? 1 : 0) << (violation_json.size() ? ",\n \"violation_detail\": " + violation_json : std::string()) << "\n}\n";
  mkdir((g_verif + "/evidence").c_str(), 0777);
  if (!all) spit(g_verif + "/evidence/" + prop + ".json", e.str());
  if (all) printf("slowest run %lu ms: %lu\n", (unsigned long)S->slow_ms, (unsigned long)S->slow_idx);
  printf("%s %s: %lu runs in %.1f s (search %.1f s), %lu distinct non-trivial, %lu states, %lu interleavings, rc=%d\n", prop.c_str(), tier.c_str(), (unsigned long)runs, wall, wall_search, (unsigned long)bm_count(S->distinct), (unsigned long)bm_count(S->states), (unsigned long)bm_count(S->inter), rc);
  if (all) for (auto &kv : cs) printf("   %-40s %lu\n", kv.first.c_str(), (unsigned long)kv.second);
  return rc;
}
}  // namespace dst
using namespace dst;
static int real_main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage: dst run|replay|gen|one|det ...\n"); return 2; }
  const char *vd = getenv("DST_VERIF"); g_verif = vd ? vd : "/verif";
  g_argv0 = "/proc/self/exe"; { char b[1024]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) g_argv0.assign(b, n); }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_root = std::string(access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/dst." + std::to_string(getpid());
  mkdir(g_root.c_str(), 0700);
  for (int i = 0; i < NWORK; i++) mkdir(wdir(i).c_str(), 0700);
  std::map<std::string, std::string> o; std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0 && i + 1 < argc) o[a.substr(2)] = argv[++i]; else pos.push_back(a); }
  uint64_t seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 10) : (getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1);
  std::string tier = o.count("tier") ? o["tier"] : (getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick");
  int jobs = o.count("jobs") ? atoi(o["jobs"].c_str()) : 8; if (jobs > NWORK) jobs = NWORK;
  int rc = 2; std::string cmd = argv[1];
  if (cmd == "run") rc = cmd_run(pos.at(0), tier, seed, o.count("runs") ? atoll(o["runs"].c_str()) : 0, o.count("secs") ? atoi(o["secs"].c_str()) : 0, jobs, o.count("all"));
  else if (cmd == "replay") rc = cmd_replay(pos.at(0), false);
  else if (cmd == "replay-quiet") rc = cmd_replay(pos.at(0), true);
  else if (cmd == "gen") { Plan p = make_plan(scenarios_for(pos.at(0)), seed, atoll(pos.at(1).c_str()), tier == "thorough"); fputs(p.text().c_str(), stdout); rc = 0; }
  else if (cmd == "one") {
    Plan p = make_plan(scenarios_for(pos.at(0)), seed, atoll(pos.at(1).c_str()), tier == "thorough");
    Result r = run_plan(p, 0, false);
    printf("status=%d cls=%s key=%s hash=%016lx steps=%lu nontrivial=%d\n%s\nat: %s\n", r.status, r.cls, r.key, (unsigned long)r.hash, (unsigned long)r.steps, r.nontrivial, r.msg, r.where); rc = 0;
  } else if (cmd == "min") {
    Plan p = make_plan(scenarios_for(pos.at(0)), seed, atoll(pos.at(1).c_str()), tier == "thorough");
    Result r = run_plan(p, 0, false);
    if (r.status == ST_VIOLATION) { int tries = 0; Plan m = minimise(p, r, 0, 40, tries); Result rm = run_plan(m, 0, false); fputs(replay_text(m, rm).c_str(), stdout); rc = 1; } else { printf("status %d %s\n", r.status, r.msg); rc = 0; }
  } else if (cmd == "det") {
    // run n plans twice each and compare event logs
    auto sc = scenarios_for(pos.at(0)); int n = atoi(pos.at(1).c_str()), bad = 0; uint64_t h = 0;
    for (int i = 0; i < n; i++) { Plan p = make_plan(sc, seed, i, false); Result a = run_plan(p, 0, false), b = run_plan(p, 5, false); h = mix(h, a.hash); if (a.hash != b.hash || a.status != b.status) { bad++; printf("plan %d differs\n", i); } }
    printf("%s: %d plans run twice, %d differ, digest %016lx\n", pos[0].c_str(), n, bad, (unsigned long)h); rc = bad ? 2 : 0;
  } else if (cmd == "list") { for (const PropInfo *p = g_props; p->id; p++) printf("%s %zu scenarios\n", p->id, scenarios_for(p->id).size()); rc = 0; }
  rm_tree(g_root, true);
  fflush(stdout);
  return rc;
}
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (!getenv("DST_NOASLR")) {
    setenv("DST_NOASLR", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); setenv("LC_ALL", "C", 1); setenv("G_SLICE", "always-malloc", 1);
    personality(ADDR_NO_RANDOMIZE);
    // one arena and no per-thread cache: addresses depend only on the order of allocations
    setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1", 1);
    execv("/proc/self/exe", argv);
  }
  int rc = real_main(argc, argv);
  fflush(stdout);
  _exit(rc);
}
