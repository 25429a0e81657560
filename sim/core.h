// Core of the deterministic simulator: PRNG, plans, run context, scheduler and
// environment seams.  One plan (a text file) = one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace dst {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> T pickl(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}
inline uint64_t hstr(const char *p, size_t n, uint64_t h = 14695981039346656037ULL) {
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t hstr(const std::string &s) { return hstr(s.data(), s.size()); }

// ---------------------------------------------------------------- plans
struct Op {
  char k[16];
  int64_t a[6];
  Op() { memset(this, 0, sizeof *this); }
  Op(const char *kind, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0, int64_t a3 = 0, int64_t a4 = 0, int64_t a5 = 0) {
    memset(k, 0, sizeof k);
    strncpy(k, kind, sizeof k - 1);
    a[0] = a0; a[1] = a1; a[2] = a2; a[3] = a3; a[4] = a4; a[5] = a5;
  }
  bool is(const char *s) const { return strcmp(k, s) == 0; }
};
struct Decision {  // thread `from`, at its `step`-th step, hands over to `to`
  int32_t from, to;
  int64_t step;
};
struct Plan {
  std::string prop, scen;
  std::map<std::string, std::string> cfg;
  std::vector<Op> ops;
  std::vector<Decision> sched;  // used when cfg sched=explicit
  std::string get(const std::string &k, const std::string &d = "") const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
  int64_t geti(const std::string &k, int64_t d = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : strtoll(it->second.c_str(), nullptr, 10);
  }
  bool has(const std::string &k) const { return cfg.count(k); }
  void set(const std::string &k, const std::string &v) { cfg[k] = v; }
  void set(const std::string &k, int64_t v) { cfg[k] = std::to_string(v); }
  std::string text() const;
  static bool parse(const std::string &text, Plan &out);
};

// ---------------------------------------------------------------- run results
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };
struct Result {  // lives in shared memory
  int status;
  char cls[48];    // violation class
  char key[96];    // finding key (component that fails)
  char msg[1600];  // human readable
  char where[160]; // last operation (set while running; used for crashes)
  uint64_t hash, steps, sim_ns, nevents;
  int nontrivial;
};

struct Scenario {
  const char *prop;
  const char *name;
  // generate the idx-th plan
  std::function<Plan(uint64_t seed, uint64_t idx, bool thorough)> gen;
  std::function<void(const Plan &)> run;
  // cfg keys the minimiser may try, with simpler values, in order
  std::vector<std::pair<std::string, std::vector<std::string>>> simpler;
  int weight = 1;
};
void register_scenario(const Scenario &s);
struct Registrar { Registrar(const Scenario &s) { register_scenario(s); } };
std::vector<const Scenario *> scenarios_for(const std::string &prop);
const Scenario *find_scenario(const std::string &prop, const std::string &name);

// in-run API (child process)
void ev(uint64_t a, uint64_t b = 0, uint64_t c = 0);          // event-log hash
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // current position
[[noreturn]] void violate(const char *cls, const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *name, uint64_t n = 1);                  // probe / fault counters
void state(uint64_t h);                                        // distinct-state measure
void nontrivial();                                             // this run was not trivial
extern std::string g_scratch;                                  // private scratch dir of this run
extern std::string g_crash_key;                                // key used if the run crashes
extern std::string g_bug_allow;                                // unused

// run a library call that may stop with a diagnosis (abort()/exit()).
// 0: returned, 1: abort, 2: exit; exit code in *code
int guarded(const std::function<void()> &fn, int *code = nullptr);
bool in_child();
// captured stderr/stdout of the run so far
std::string captured_output();
std::string captured_stdout();
void truncate_capture();

// ---------------------------------------------------------------- environment
struct EnvCfg {
  uint64_t memseed = 0;   // 0: zero fill; else seeded garbage
  uint64_t clkseed = 0;   // 0: steadily advancing clock; else jumps
  int64_t clk_base = 1700000000;
  int ncores = 4;
};
void env_apply(const Plan &p);
void mem_set_seed(uint64_t seed);  // switch the garbage pattern / address perturbation mid-run
void mem_begin(uint64_t seed);     // start the run's private heap
void mem_end();                    // check the blocks not yet recycled
uint64_t sim_now_ns();
void sim_advance_ns(uint64_t ns);
void clock_set(uint64_t clkseed, int64_t base);

// step accounting (memory accesses of instrumented library code)
int64_t steps_now();
void step_budget(int64_t n, const char *cls, const std::string &key);  // 0: off
// fault injection on files. see seam.cpp
struct IoFault {
  char call[12];    // fopen fread read fwrite write open mmap fstat fclose mkdir
  char path[96];    // substring of path
  int64_t nth;      // nth matching call (0-based) / for byte kinds: offset in bytes
  int kind;         // 0: fail with err, 1: short transfer, 2: torn: transfer part then err, 3: fail from byte offset on
  int err;
  int64_t arg;
  bool sticky;
  int64_t seen;
  bool fired;
};
void io_arm(const std::vector<IoFault> &f);
void io_disarm();
bool io_fired();
int io_fired_count();
void io_chunk(uint64_t seed, const char *pathsub);  // seeded short reads/writes for buffered files
int64_t io_open_files();

// ---------------------------------------------------------------- scheduler
struct SchedCfg {
  uint64_t seed = 0;
  int policy = 0;      // 0 off(lowest id, no preemption) 1 random 2 pct 3 stall 4 conflict 5 sync-only random 6 explicit
  int64_t mean = 200;
  int64_t ns_per_step = 50;
};
void sched_begin(const Plan &p);  // current thread becomes thread 0
void sched_end();                 // requires all other threads finished
int sched_switches();
int sched_tid();
uint64_t sched_signature();       // hash of the interleaving actually executed
int sched_max_parallel();
const std::vector<Decision> &sched_log();
extern volatile bool g_sched_on;

}  // namespace dst
