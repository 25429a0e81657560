// Seeded cooperative scheduler: real threads, exactly one of which holds the
// baton.  Every memory access of the instrumented library code is a potential
// preemption point (the compiler emits __tsan_* calls; we provide them here).
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <glib.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <vector>
#include "core.h"

extern "C" {
int64_t dst_countdown = INT64_MAX;
static int64_t dst_armed = INT64_MAX;
int dst_conflict = 0;
void dst_slow(void);
void dst_conflict_check(void *addr, int w);
}

namespace dst {
volatile bool g_sched_on = false;

enum TState { T_RUN, T_MUTEX, T_COND, T_SLEEP, T_POOLIDLE, T_POOLWAIT, T_JOIN, T_DONE };
struct Thr {
  int id;
  pthread_t th;
  int st = T_RUN;
  const void *wait = nullptr;
  uint64_t wake = 0;
  int64_t steps = 0;
  sem_t sem;
  uint64_t prio = 0;
  int64_t stall_until = 0;  // decision index
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr, *ret = nullptr;
  bool detached = false;
  size_t ex_pos = 0;
};
static std::vector<Thr *> *T;
static Thr *cur;
static SchedCfg C;
static Rng *R;
static int64_t total_steps, budget_limit;
static char budget_cls[48];
static std::string *budget_key;
static uint64_t now_ns;
static int64_t ndec;
static int nswitch;
static uint64_t sig_hash;
static std::vector<Decision> *log_;
static std::map<int, std::vector<Decision>> *expl;
static int64_t consec;
static int max_par;
static std::vector<int64_t> *pct_points;

struct Mtx { Thr *owner = nullptr; int rec = 0; };
static std::map<const void *, Mtx> *mtx;

static void account() {
  int64_t d = dst_armed - dst_countdown;
  dst_armed = dst_countdown;
  total_steps += d;
  if (cur) { cur->steps += d; consec += d; }
  now_ns += (uint64_t)d * C.ns_per_step;
}
static int64_t next_preempt() {
  int live = 0;
  for (auto t : *T) if (t->st != T_DONE) live++;
  if (live < 2) return INT64_MAX / 4;
  switch (C.policy) {
    case 1: case 3: {
      // geometric-ish
      int64_t m = C.mean;
      if (nswitch > 20000) m = std::max<int64_t>(m, 200);  // bound the cost of a run
      if (nswitch > 40000) m = std::max<int64_t>(m, 100000);
      return 1 + (int64_t)(R->below(m) + R->below(m)); }
    case 2: {
      for (auto p : *pct_points) if (p > total_steps) return p - total_steps;
      return 200000; }
    case 4: return 2000 + R->below(4000);
    case 5: return 200000;
    case 6: {
      auto it = expl->find(cur->id);
      if (it == expl->end()) return 2000000;
      auto &v = it->second;
      while (cur->ex_pos < v.size() && v[cur->ex_pos].step <= cur->steps) cur->ex_pos++;
      if (cur->ex_pos < v.size()) return std::min<int64_t>(v[cur->ex_pos].step - cur->steps, 2000000);
      return 2000000; }
    default: return 2000000;
  }
}
static void arm() {
  account();
  int64_t n = next_preempt();
  if (budget_limit && budget_limit - total_steps < n) n = budget_limit - total_steps;
  if (n < 1) n = 1;
  dst_countdown = dst_armed = n;
}
int64_t steps_now() { if (cur) account(); return total_steps; }
void step_budget(int64_t n, const char *cls, const std::string &key) {
  account();
  if (n <= 0) budget_limit = 0;
  else { budget_limit = total_steps + n; snprintf(budget_cls, sizeof budget_cls, "%s", cls); *budget_key = key; }
  arm();
}
static const char *stname(int s) {
  static const char *n[] = {"runnable", "mutex", "cond", "sleep", "pool-idle", "pool-wait", "join", "done"};
  return n[s];
}
static std::string dump_threads() {
  std::string s;
  for (auto t : *T) s += " t" + std::to_string(t->id) + "=" + stname(t->st);
  return s;
}
static void switch_to(Thr *t) {
  if (t == cur) return;
  Thr *me = cur;
  nswitch++;
  sig_hash = mix(sig_hash, mix(mix(me->id, me->steps), t->id));
  cur = t;
  consec = 0;
  arm();
  sem_post(&t->sem);
  if (me->st == T_DONE) return;  // exiting thread: never resumes
  while (sem_wait(&me->sem) != 0) {}
}
// decision point; the current thread may continue iff its state is T_RUN
static void decide(bool sync) {
  ndec++;
  bool can = cur->st == T_RUN;
  // static: an exiting thread must not touch the heap after handing over the baton
  static std::vector<Thr *> cand, el;
  int par = 0;
  for (;;) {
    cand.clear();
    par = 0;
    uint64_t minw = UINT64_MAX;
    for (auto t : *T) {
      if (t->st == T_RUN) { cand.push_back(t); par++; }
      else if (t->st == T_SLEEP) {
        if (t->wake <= now_ns) cand.push_back(t);
        else minw = std::min(minw, t->wake);
      }
    }
    if (!cand.empty()) break;
    if (minw == UINT64_MAX) {
      if (cur->st == T_DONE && T->size() == 1) return;
      violate("deadlock", "scheduler", "no thread can make progress:%s", dump_threads().c_str());
    }
    now_ns = minw;  // everyone sleeps: discrete-event time jump
  }
  max_par = std::max(max_par, par);
  Thr *def = can ? cur : cand[0];
  Thr *ch = def;
  if (C.policy == 6) {
    auto it = expl->find(cur->id);
    if (it != expl->end())
      for (auto &d : it->second)
        if (d.step == cur->steps) { for (auto c : cand) if (c->id == d.to) ch = c; break; }
    if (ch == cur && consec > 4000000 && cand.size() > 1) ch = cand[0] == cur ? cand[1] : cand[0];
  } else {
    el.clear();
    for (auto c : cand) if (c->stall_until <= ndec) el.push_back(c);
    if (el.empty()) el = cand;
    switch (C.policy) {
      case 1: case 4: ch = el[R->below(el.size())]; break;
      case 3:
        if (R->chance(1, 12)) { Thr *v = (*T)[R->below(T->size())]; v->stall_until = ndec + 5 + R->below(400); count("fault.thread_stall"); }
        ch = el[R->below(el.size())];
        break;
      case 5: if (sync || !can || consec > 150000) ch = el[R->below(el.size())]; break;
      case 2: {
        if (!sync && can) { cur->prio = 1000 - (ndec & 511); }  // change point: demote
        ch = el[0];
        for (auto c : el) if (c->prio > ch->prio) ch = c;
        if (ch == cur && consec > 1000000 && el.size() > 1) { cur->prio = 0; ch = el[0] == cur ? el[1] : el[0]; }
        break; }
      default:
        if (consec > 4000000 && el.size() > 1 && can) ch = el[0] == cur ? el[1] : el[0];
    }
  }
  if (ch != def) log_->push_back({cur->id, ch->id, cur->steps});
  if (ch->st == T_SLEEP) ch->st = T_RUN;
  if (ch == cur) { arm(); return; }
  if (can) count("sched.preemption");
  switch_to(ch);
}
static void sync_point() {
  if (!g_sched_on) return;
  account();
  cur->steps++; total_steps++;
  if (T->size() > 1) decide(true);
}
static void block(int st, const void *w) {
  account();
  cur->steps++; total_steps++;
  cur->st = st; cur->wait = w;
  decide(true);
}
static void wake_all(int st, const void *w) {
  for (auto t : *T) if (t->st == st && t->wait == w) { t->st = T_RUN; t->wait = nullptr; }
}
static void wake_one(int st, const void *w) {
  std::vector<Thr *> v;
  for (auto t : *T) if (t->st == st && t->wait == w) v.push_back(t);
  if (v.empty()) return;
  Thr *t = (C.policy == 0 || C.policy == 6) ? v[0] : v[0];
  t->st = T_RUN; t->wait = nullptr;
}
static void *tramp(void *p) {
  Thr *t = (Thr *)p;
  while (sem_wait(&t->sem) != 0) {}  // everything below runs while holding the baton
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  t->ret = t->fn(t->arg);
  account();
  t->steps++; total_steps++;
  t->st = T_DONE;
  wake_all(T_JOIN, t);
  decide(true);
  return t->ret;
}
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static Thr *spawn(void *(*fn)(void *), void *arg) {
  Thr *t = new Thr();
  t->id = T->size();
  t->fn = fn; t->arg = arg;
  t->prio = 1001 + R->below(1000000);
  sem_init(&t->sem, 0, 0);
  T->push_back(t);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
  if (__real_pthread_create(&t->th, &at, tramp, t) != 0) harness_error("pthread_create failed");
  count("sched.thread_start");
  return t;
}
void sched_begin(const Plan &p) {
  T = new std::vector<Thr *>(); log_ = new std::vector<Decision>(); expl = new std::map<int, std::vector<Decision>>();
  mtx = new std::map<const void *, Mtx>(); budget_key = new std::string(); pct_points = new std::vector<int64_t>();
  C = SchedCfg();
  std::string pol = p.get("sched", "off");
  C.policy = pol == "random" ? 1 : pol == "pct" ? 2 : pol == "stall" ? 3 : pol == "conflict" ? 4 : pol == "sync" ? 5 : pol == "explicit" ? 6 : 0;
  C.seed = p.geti("schedseed", 1);
  C.mean = std::max<int64_t>(1, p.geti("schedmean", 200));
  C.ns_per_step = p.geti("nsstep", 50);
  R = new Rng(C.seed * 77 + 5);
  if (C.policy == 2) {
    int d = 3 + R->below(12); int64_t hor = std::max<int64_t>(1000, p.geti("horizon", 60000));
    for (int i = 0; i < d; i++) pct_points->push_back(R->below(hor));
    std::sort(pct_points->begin(), pct_points->end());
  }
  for (auto &d : p.sched) (*expl)[d.from].push_back(d);
  for (auto &kv : *expl) std::sort(kv.second.begin(), kv.second.end(), [](const Decision &a, const Decision &b) { return a.step < b.step; });
  total_steps = 0; budget_limit = 0; now_ns = 0; ndec = 0; nswitch = 0; sig_hash = 1; consec = 0; max_par = 1;
  Thr *t = new Thr(); t->id = 0; t->th = pthread_self(); t->prio = 1001 + R->below(1000000);
  sem_init(&t->sem, 0, 0);
  T->push_back(t); cur = t;
  dst_conflict = C.policy == 4;
  g_sched_on = true;
  dst_armed = dst_countdown;
  arm();
}
void sched_end() {
  account();
  for (auto t : *T)
    if (t != cur && t->st != T_DONE) {
      // let leftover threads finish; if they cannot, that is a leak of a blocked thread
      int guard = 0;
      while (t->st != T_DONE && guard++ < 100000) {
        bool run = false;
        for (auto o : *T) if (o != cur && (o->st == T_RUN || o->st == T_SLEEP)) run = true;
        if (!run) break;
        if (cur->st == T_RUN) { cur->st = T_SLEEP; cur->wake = now_ns + 1000000; decide(true); cur->st = T_RUN; }
      }
    }
  g_sched_on = false;
  dst_conflict = 0;
  dst_countdown = dst_armed = INT64_MAX;
}
int sched_switches() { return nswitch; }
int sched_tid() { return cur ? cur->id : -1; }
uint64_t sched_signature() { return sig_hash; }
int sched_max_parallel() { return max_par; }
const std::vector<Decision> &sched_log() { return *log_; }
uint64_t sim_now_ns() { if (g_sched_on) account(); return now_ns; }
void sim_advance_ns(uint64_t ns) { now_ns += ns; }
static void sim_sleep(uint64_t ns) {
  if (!g_sched_on) { now_ns += ns; return; }
  account();
  count("sched.sleep");
  if (T->size() == 1) { cur->steps++; total_steps++; now_ns += ns; arm(); return; }
  cur->wake = now_ns + ns;
  block(T_SLEEP, nullptr);
}

// ------------------------------------------------------------ mutexes
static void m_lock(const void *m) {
  if (!g_sched_on) return;
  sync_point();
  for (;;) {
    Mtx &x = (*mtx)[m];
    if (!x.owner) { x.owner = cur; return; }
    if (x.owner == cur) violate("deadlock", "scheduler", "thread t%d locks a mutex it already holds", cur->id);
    count("sched.lock_contended");
    block(T_MUTEX, m);
  }
}
static bool m_trylock(const void *m) {
  if (!g_sched_on) return true;
  sync_point();
  Mtx &x = (*mtx)[m];
  if (x.owner) return false;
  x.owner = cur; return true;
}
static void m_unlock(const void *m) {
  if (!g_sched_on) return;
  account();
  (*mtx)[m].owner = nullptr;
  wake_all(T_MUTEX, m);
  sync_point();
}

// ------------------------------------------------------------ thread pool
struct Pool {
  GThreadPool pub;  // func, user_data, exclusive
  int max = 0, nthr = 0, idle = 0;
  std::deque<gpointer> q;
  bool closing = false;
  int busy = 0;
};
static void *pool_worker(void *p) {
  Pool *P = (Pool *)p;
  for (;;) {
    if (!P->q.empty()) {
      gpointer d = P->q.front(); P->q.pop_front();
      P->busy++;
      sync_point();
      P->pub.func(d, P->pub.user_data);
      P->busy--;
      sync_point();
      continue;
    }
    if (P->closing) break;
    P->idle++;
    block(T_POOLIDLE, P);
    P->idle--;
  }
  P->nthr--;
  if (P->nthr == 0) wake_all(T_POOLWAIT, P);
  return nullptr;
}
}  // namespace dst
using namespace dst;

extern "C" {
GThreadPool *__wrap_g_thread_pool_new(GFunc func, gpointer ud, gint max, gboolean excl, GError **err) {
  if ((excl && max == -1) || max < -1 || !func) return nullptr;
  Pool *P = new Pool();
  P->pub.func = func; P->pub.user_data = ud; P->pub.exclusive = excl; P->max = max;
  if (excl) for (int i = 0; i < max && i < 256; i++) { P->nthr++; spawn(pool_worker, P); }
  count("sched.pool");
  return &P->pub;
}
gboolean __wrap_g_thread_pool_push(GThreadPool *pool, gpointer data, GError **err) {
  Pool *P = (Pool *)pool;
  if (!P || !data) return FALSE;  // as glib: critical warning, nothing queued
  P->q.push_back(data);
  bool idle = false;
  for (auto t : *T) if (t->st == T_POOLIDLE && t->wait == P) idle = true;
  if (idle) wake_one(T_POOLIDLE, P);
  else if (!P->pub.exclusive && (P->max == -1 || P->nthr < P->max)) { P->nthr++; spawn(pool_worker, P); }
  sync_point();
  return TRUE;
}
void __wrap_g_thread_pool_free(GThreadPool *pool, gboolean immediate, gboolean wait) {
  Pool *P = (Pool *)pool;
  if (!P) return;
  P->closing = true;
  if (immediate) P->q.clear();
  wake_all(T_POOLIDLE, P);
  if (wait) while (P->nthr > 0) block(T_POOLWAIT, P);
  sync_point();
}
guint __wrap_g_thread_pool_get_num_threads(GThreadPool *pool) { return ((Pool *)pool)->nthr; }
guint __wrap_g_thread_pool_unprocessed(GThreadPool *pool) { return ((Pool *)pool)->q.size(); }
gboolean __wrap_g_thread_pool_set_max_threads(GThreadPool *pool, gint n, GError **) { ((Pool *)pool)->max = n; return TRUE; }

void __wrap_g_mutex_init(GMutex *m) { if (g_sched_on) mtx->erase(m); }
void __wrap_g_mutex_clear(GMutex *m) { if (g_sched_on) mtx->erase(m); }
void __wrap_g_mutex_lock(GMutex *m) { m_lock(m); }
void __wrap_g_mutex_unlock(GMutex *m) { m_unlock(m); }
gboolean __wrap_g_mutex_trylock(GMutex *m) { return m_trylock(m); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { if (g_sched_on) mtx->erase(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (g_sched_on) mtx->erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { m_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return m_trylock(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { m_unlock(m); return 0; }

static void c_wait(const void *c, const void *m) { m_unlock(m); block(T_COND, c); m_lock(m); }
void __wrap_g_cond_init(GCond *) {}
void __wrap_g_cond_clear(GCond *) {}
void __wrap_g_cond_wait(GCond *c, GMutex *m) { c_wait(c, m); }
void __wrap_g_cond_signal(GCond *c) { wake_one(T_COND, c); sync_point(); }
void __wrap_g_cond_broadcast(GCond *c) { wake_all(T_COND, c); sync_point(); }
gboolean __wrap_g_cond_wait_until(GCond *c, GMutex *m, gint64 end) {
  // may time out at any moment: legal spurious/timeout behaviour
  m_unlock(m); sim_sleep(1000000); m_lock(m);
  return FALSE;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { c_wait(c, m); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { wake_one(T_COND, c); sync_point(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { wake_all(T_COND, c); sync_point(); return 0; }

int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!g_sched_on) return __real_pthread_create(th, a, fn, arg);
  Thr *t = spawn(fn, arg);
  *th = t->th;
  sync_point();
  return 0;
}
int __wrap_pthread_join(pthread_t th, void **ret) {
  for (auto t : *T) if (pthread_equal(t->th, th)) {
    while (t->st != T_DONE) block(T_JOIN, t);
    if (ret) *ret = t->ret;
    return 0;
  }
  return ESRCH;
}
GThread *__wrap_g_thread_new(const gchar *, GThreadFunc fn, gpointer d) { Thr *t = spawn(fn, d); sync_point(); return (GThread *)t; }
gpointer __wrap_g_thread_join(GThread *g) { Thr *t = (Thr *)g; while (t->st != T_DONE) block(T_JOIN, t); return t->ret; }
void __wrap_g_thread_yield(void) { sync_point(); }
int __wrap_sched_yield(void) { sync_point(); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep((uint64_t)s * 1000000000ULL); return 0; }
int __wrap_usleep(useconds_t us) { sim_sleep((uint64_t)us * 1000ULL); return 0; }
void __wrap_g_usleep(gulong us) { sim_sleep((uint64_t)us * 1000ULL); }
int __wrap_nanosleep(const struct timespec *r, struct timespec *) { sim_sleep((uint64_t)r->tv_sec * 1000000000ULL + r->tv_nsec); return 0; }

// ------------------------------------------------------------ access points
__attribute__((noinline)) void dst_slow(void) {
  if (!g_sched_on) { dst_countdown = dst_armed = INT64_MAX; return; }
  account();
  if (budget_limit && total_steps >= budget_limit) {
    int64_t s = total_steps;
    budget_limit = 0;
    violate(budget_cls, *budget_key, "no progress within the step budget (step %ld):%s", (long)s, dump_threads().c_str());
  }
  if (T->size() > 1) decide(false);
  else arm();
}
struct CEnt { uintptr_t a; uint32_t mask; uint32_t wrote; };
static CEnt ctab[1 << 15];
__attribute__((noinline)) void dst_conflict_check(void *addr, int w) {
  if (!g_sched_on || T->size() < 2) return;
  if (cur->id && (uintptr_t)addr - (uintptr_t)__builtin_frame_address(0) < 65536) return;  // a worker's own stack
  uintptr_t a = (uintptr_t)addr >> 3;
  CEnt &e = ctab[(a ^ (a >> 15)) & 0x7fff];
  uint32_t me = 1u << (cur->id & 31);
  if (e.a != a) { e.a = a; e.mask = me; e.wrote = w ? me : 0; return; }
  bool conf = ((e.mask & ~me) && w) || (e.wrote & ~me);
  e.mask |= me; if (w) e.wrote |= me;
  if (conf) { count("sched.conflict_point"); if (nswitch < 60000 && R->chance(1, 3)) { account(); decide(false); } }
}
#define ACC(p, w) do { if (__builtin_expect(--dst_countdown <= 0, 0)) dst_slow(); if (__builtin_expect(dst_conflict, 0)) dst_conflict_check(p, w); } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { ACC(p, 0); } void __tsan_write##n(void *p) { ACC(p, 1); } \
  void __tsan_unaligned_read##n(void *p) { ACC(p, 0); } void __tsan_unaligned_write##n(void *p) { ACC(p, 1); } \
  void __tsan_volatile_read##n(void *p) { ACC(p, 0); } void __tsan_volatile_write##n(void *p) { ACC(p, 1); } \
  void __tsan_read_write##n(void *p) { ACC(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long) { ACC(p, 0); }
void __tsan_write_range(void *p, unsigned long) { ACC(p, 1); }
void __tsan_vptr_update(void **p, void *) { ACC(p, 1); }
void __tsan_vptr_read(void **p) { ACC(p, 0); }
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *p, int) { ACC((void *)p, 0); return *p; } \
  void __tsan_atomic##bits##_store(volatile ty *p, ty v, int) { ACC((void *)p, 1); *p = v; } \
  ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int) { ACC((void *)p, 1); ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int) { ACC((void *)p, 1); ty o = *p; *p = o + v; return o; } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int) { ACC((void *)p, 1); ty o = *p; *p = o - v; return o; } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int) { ACC((void *)p, 1); ty o = *p; *p = o & v; return o; } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int) { ACC((void *)p, 1); ty o = *p; *p = o | v; return o; } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int) { ACC((void *)p, 1); ty o = *p; *p = o ^ v; return o; } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int) { ACC((void *)p, 1); ty o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int, int) { ACC((void *)p, 1); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int, int) { ACC((void *)p, 1); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int, int) { ACC((void *)p, 1); ty o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
