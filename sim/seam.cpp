// Environment seams: memory contents, clocks, files, abort/exit.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <algorithm>
#include <map>
#include "core.h"

// ================================================================ memory
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
static uint64_t g_memseed = 0;
static bool g_memfill = false;
static uint64_t g_memctr = 0;
// Inside a run every block comes from one arena at a fixed address, so that addresses and recycled
// contents depend only on the run's own sequence of allocations.
static const uint64_t KEY = 0xC0DEFACEB00C5A5AULL, LIVE = 0x11A11A11A11A11AFULL, DEAD = 0xFEEDFEEDFEEDFEEDULL;
struct Hdr { uint64_t n; uint32_t cls; uint32_t pad; uint64_t magic; uint64_t off; };  // 32 bytes before the payload; off: bytes from block start
static unsigned char *const A_BASE = (unsigned char *)0x600000000000ULL;
static const size_t A_SIZE = 5ULL << 30;
static unsigned char *a_cur, *a_hi;       // bump pointer; a_hi: highest byte ever handed out
static bool a_on = false;
static void *a_free[512];
static Hdr *q_head, *q_tail; static size_t q_n, q_bytes; static bool q_on;  // freed blocks that are not yet recycled
static volatile int a_lock = 0;
static inline size_t cls_size(unsigned c) { if (c < 128) return (c + 1) * 16; unsigned k = (c - 128) / 4, q = (c - 128) % 4; return ((size_t)2048 << k) + (((size_t)2048 << k) / 4) * (q + 1); }
static inline unsigned size_cls(size_t n) { if (n <= 2048) return n ? (n - 1) / 16 : 0; unsigned k = 63 - __builtin_clzll(n - 1) - 11; size_t b = (size_t)2048 << k; unsigned q = (n - b - 1) / (b / 4); return 128 + k * 4 + q; }
static inline bool ours(const void *p) { return (unsigned char *)p >= A_BASE && (unsigned char *)p < A_BASE + A_SIZE; }
static void fillmem(void *p, size_t from, size_t n) {
  if (!g_memfill) return;
  unsigned char *b = (unsigned char *)p;
  uint64_t x = g_memseed ? dst::mix(g_memseed, g_memctr++) : 0;
  size_t lim = std::min(n, from + 8192);
  for (size_t i = from; i < lim; i++) {
    if (g_memseed) { if ((i & 7) == 0 || i == from) x = x * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = (unsigned char)(x >> (8 * (i & 7))); }
    else b[i] = 0;
  }
}
static inline Hdr *hdr(void *p) { return (Hdr *)((unsigned char *)p - sizeof(Hdr)); }
static inline size_t room(Hdr *h) { return cls_size(h->cls) - h->off; }   // payload room incl. 16 guard bytes
static void seal(void *p) {
  Hdr *h = hdr(p); size_t u = room(h); unsigned char *b = (unsigned char *)p;
  uint64_t *tail = (uint64_t *)(b + u - 8);
  for (unsigned char *q = b + h->n; q < (unsigned char *)tail; q++) *q = 0xC3;
  *tail = h->n ^ KEY;
}
static void check(void *p, bool freeing) {
  Hdr *h = hdr(p);
  if (h->magic == DEAD) { if (dst::in_child()) dst::violate("memory", dst::g_crash_key, "double free or use of freed block"); return; }
  bool bad = h->magic != LIVE;
  if (!bad) {
    size_t u = room(h); unsigned char *b = (unsigned char *)p; uint64_t *tail = (uint64_t *)(b + u - 8);
    bad = *tail != (h->n ^ KEY);
    for (unsigned char *q = b + h->n; !bad && q < (unsigned char *)tail; q++) bad = *q != 0xC3;
  }
  if (bad && dst::in_child()) dst::violate("memory", dst::g_crash_key, "heap block overrun detected when it is %s", freeing ? "freed" : "reallocated");
}
static void *a_alloc(size_t n, size_t align, bool zero) {
  if (n > (1ULL << 32)) { errno = ENOMEM; return nullptr; }
  size_t off = std::max<size_t>(sizeof(Hdr), align); unsigned c = size_cls(off + n + 16);
  while (__sync_lock_test_and_set(&a_lock, 1)) {}
  unsigned char *blk; bool fresh = false;
  if (align <= 16 && a_free[c]) { blk = (unsigned char *)a_free[c]; a_free[c] = *(void **)blk; }
  else {
    size_t z = cls_size(c); if (align > 16) a_cur = (unsigned char *)(((uintptr_t)a_cur + align - 1) & ~(align - 1));
    if (a_cur + z > A_BASE + A_SIZE) { a_lock = 0; errno = ENOMEM; return nullptr; }
    blk = a_cur; a_cur += z; fresh = true;
  }
  __sync_lock_release(&a_lock);
  void *p = blk + off; Hdr *h = hdr(p); h->n = n; h->cls = c; h->magic = LIVE; h->off = off;
  if (zero) { if (!fresh) memset(p, 0, n); } else fillmem(p, 0, n);
  seal(p);
  return p;
}
static void recycle(Hdr *h) {  // the lock is held; the link overlays the size field
  *(void **)h = a_free[h->cls]; a_free[h->cls] = h;
}
// h has left the quarantine: nobody may have written to it since it was freed
static bool untouched(Hdr *h) {
  if (!h->pad) return true;
  const unsigned char *b = (const unsigned char *)(h + 1); size_t n = std::min<size_t>(h->n, 4096);
  for (size_t i = 0; i < n; i++) if (b[i] != 0xDD) return false;
  return true;
}
static void after_free() { if (dst::in_child()) dst::violate("memory", dst::g_crash_key, "a heap block was written after it was freed"); }
static void a_release(void *p) {
  check(p, true);
  Hdr *h = hdr(p); h->magic = DEAD; h->pad = g_memfill;
  if (g_memfill) memset(p, 0xDD, std::min<size_t>(h->n, 4096));
  if (h->off != sizeof(Hdr)) return;  // over-aligned blocks are not recycled
  while (__sync_lock_test_and_set(&a_lock, 1)) {}
  if (!q_on || h->n > 65536) { recycle(h); __sync_lock_release(&a_lock); return; }
  h->off = 0;  // link in the quarantine
  if (q_tail) q_tail->off = (uint64_t)h; else q_head = h;
  q_tail = h; q_n++; q_bytes += h->n; bool ok = true;
  while (q_n > 1500 || q_bytes > (1 << 20)) { Hdr *o = q_head; q_head = (Hdr *)o->off; if (!q_head) q_tail = nullptr; q_n--; q_bytes -= o->n; ok = ok && untouched(o); recycle(o); }
  __sync_lock_release(&a_lock);
  if (!ok) after_free();
}
namespace dst {
void mem_begin(uint64_t seed) {  // once per run, before anything the run allocates
  void *r = mmap(A_BASE, A_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (r != A_BASE) abort();
  // the placement of the heap differs between seeds
  a_cur = A_BASE + 4096 + (seed ? (mix(seed, 99) % 1000) * 16 : 0);
  memset(a_free, 0, sizeof a_free); a_on = true; q_on = seed & 1;  // every second seed recycles memory late
}
void mem_end() {  // at the end of a run
  bool ok = true; for (Hdr *h = q_head; h; h = (Hdr *)h->off) ok = ok && untouched(h);
  if (!ok) after_free();
}
}
extern "C" {
void *malloc(size_t n) { return a_on ? a_alloc(n, 16, false) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return a_on ? a_alloc(n, 16, true) : __libc_calloc(a, b);
}
void free(void *p) {
  if (!p) return;
  if (!ours(p)) { if (!a_on) __libc_free(p); return; }  // blocks from before the run are left alone
  int e = errno; a_release(p); errno = e;
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!ours(p)) {
    if (!a_on) return __libc_realloc(p, n);
    void *q = malloc(n); if (q) memcpy(q, p, std::min(n, malloc_usable_size(p))); return q;
  }
  if (n == 0) { free(p); return nullptr; }
  check(p, false);
  void *q = malloc(n);
  if (!q) return q;
  memcpy(q, p, std::min<size_t>(hdr(p)->n, n));
  free(p);
  return q;
}
void *reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return realloc(p, n); }
void *memalign(size_t al, size_t n) { return a_on ? a_alloc(n, al, false) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **pp, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *pp = p; return 0; }
size_t malloc_usable_size(void *p) { if (!p) return 0; if (ours(p)) return hdr(p)->n; static size_t (*f)(void *) = (size_t (*)(void *))dlsym(RTLD_NEXT, "malloc_usable_size"); return f(p); }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ULL); }
}

// ================================================================ clock
namespace dst {
static uint64_t g_clkseed = 0;
static int64_t g_clkbase = 1700000000;
static int64_t g_clkoff_ns = 0;
static Rng *g_clkrng;
static int g_ncores = 4;
static bool g_env = false;
void mem_set_seed(uint64_t seed) { g_memseed = seed; g_memctr = 0; g_memfill = true; }
void clock_set(uint64_t clkseed, int64_t base) {
  g_clkseed = clkseed; g_clkbase = base; g_clkoff_ns = 0;
  delete g_clkrng; g_clkrng = new Rng(clkseed + 99);
}
void env_apply(const Plan &p) {
  mem_set_seed(p.geti("memseed", 0));
  clock_set(p.geti("clkseed", 0), p.geti("clkbase", 1700000000));
  g_ncores = p.geti("ncores", 4);
  g_env = true;
}
static int64_t wall_ns() {
  if (g_clkseed) {
    uint64_t k = g_clkrng->below(20);
    if (k == 0) { g_clkoff_ns += (int64_t)g_clkrng->below(100000) * 1000000000LL; count("fault.clock_jump_fwd"); }
    else if (k == 1) { g_clkoff_ns -= (int64_t)g_clkrng->below(100000) * 1000000000LL; count("fault.clock_jump_back"); }
    else g_clkoff_ns += g_clkrng->below(1000000000);
  } else g_clkoff_ns += 1000;
  return g_clkbase * 1000000000LL + (int64_t)sim_now_ns() + g_clkoff_ns;
}
static int64_t mono_ns() { static int64_t last = 0; int64_t v = 1000000000LL + (int64_t)sim_now_ns(); if (v <= last) v = last + 1; return last = v; }
}  // namespace dst
using namespace dst;
extern "C" {
time_t time(time_t *t) {
  time_t v = g_env ? wall_ns() / 1000000000LL : 1700000000;
  if (t) *t = v;
  return v;
}
int gettimeofday(struct timeval *tv, void *) {
  int64_t n = g_env ? wall_ns() : 1700000000LL * 1000000000LL;
  if (tv) { tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n % 1000000000LL) / 1000; }
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!g_env) return syscall(SYS_clock_gettime, id, ts);
  int64_t n = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall_ns() : mono_ns();
  ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
  return 0;
}
int __wrap_get_nprocs(void) { return g_ncores; }
int __wrap_get_nprocs_conf(void) { return g_ncores; }
}
extern "C" long __real_sysconf(int);
extern "C" long __wrap_sysconf(int n) {
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return g_ncores;
  return __real_sysconf(n);
}
extern "C" unsigned __wrap_g_get_num_processors(void) { return g_ncores; }
extern "C" int __wrap_pthread_setaffinity_np(unsigned long, size_t, const void *) { return 0; }

// ================================================================ files
namespace dst {
static std::vector<IoFault> *g_faults;
static uint64_t g_chunkseed = 0;
static std::string *g_chunkpath;
static int64_t g_openfiles = 0;
static std::map<int, std::string> *g_fdpath;
void io_arm(const std::vector<IoFault> &f) { delete g_faults; g_faults = new std::vector<IoFault>(f); }
void io_disarm() { delete g_faults; g_faults = nullptr; }
bool io_fired() { return io_fired_count() > 0; }
int io_fired_count() { int n = 0; if (g_faults) for (auto &f : *g_faults) n += f.fired; return n; }
void io_chunk(uint64_t seed, const char *p) { g_chunkseed = seed; delete g_chunkpath; g_chunkpath = new std::string(p); }
int64_t io_open_files() { return g_openfiles; }
// returns the fault that fires for this call or null
static IoFault *hit(const char *call, const char *path) {
  if (!g_faults || !path) return nullptr;
  for (auto &f : *g_faults) {
    if (strcmp(f.call, call) || !strstr(path, f.path)) continue;
    if (f.fired && !f.sticky) continue;
    if (f.fired && f.sticky) return &f;
    if (f.seen++ == f.nth) {
      f.fired = true;
      char nm[64]; snprintf(nm, sizeof nm, "fault.io_%s_%s", call, f.kind == 0 ? strerrorname_np(f.err) : f.kind == 1 ? "short" : "torn");
      count(nm);
      return &f;
    }
  }
  return nullptr;
}
// byte-count faults: sum of bytes transferred so far on path by `call`
static ssize_t xfer(bool rd, const char *path, size_t want, int *err, bool *fail, int64_t &off) {
  *fail = false;
  size_t n = want;
  if (g_chunkseed && g_chunkpath && strstr(path, g_chunkpath->c_str()) && want > 1) {
    static Rng *r = nullptr; static uint64_t sd = 0;
    if (!r || sd != g_chunkseed) { delete r; r = new Rng(g_chunkseed); sd = g_chunkseed; }
    uint64_t k = r->below(4);
    size_t c = k == 0 ? 1 + r->below(8) : k == 1 ? 1 + r->below(64) : k == 2 ? 1 + r->below(600) : want;
    if (c < n) { n = c; count(rd ? "fault.io_short_read" : "fault.io_short_write"); }
  }
  const char *call = rd ? "read" : "write";
  if (g_faults) for (auto &f : *g_faults) {
    if (strcmp(f.call, call) || !strstr(path, f.path)) continue;
    if (f.fired && !f.sticky) continue;
    // nth = byte offset from which the transfer fails
    if (off >= f.nth || f.fired) {
      if (!f.fired) { char nm[64]; snprintf(nm, sizeof nm, "fault.io_%s_%s", call, strerrorname_np(f.err)); count(nm); }
      f.fired = true; *fail = true; *err = f.err; return -1;
    }
    if (off + (int64_t)n > f.nth) { n = f.nth - off; count(rd ? "fault.io_short_read" : "fault.io_torn_write"); }
  }
  return n;
}
struct Cookie { int fd; std::string path; int64_t off = 0; };
static std::map<FILE *, Cookie *> *g_cookies;
static ssize_t c_read(void *c, char *b, size_t n) {
  Cookie *k = (Cookie *)c; int err = 0; bool fail;
  ssize_t m = xfer(true, k->path.c_str(), n, &err, &fail, k->off);
  if (fail) { errno = err; return -1; }
  ssize_t r = syscall(SYS_read, k->fd, b, m);
  if (r > 0) k->off += r;
  return r;
}
static ssize_t c_write(void *c, const char *b, size_t n) {
  Cookie *k = (Cookie *)c; int err = 0; bool fail;
  size_t done = 0;
  while (done < n) {
    ssize_t m = xfer(false, k->path.c_str(), n - done, &err, &fail, k->off);
    if (fail) { errno = err; return done ? (ssize_t)done : 0; }
    ssize_t r = syscall(SYS_write, k->fd, b + done, m);
    if (r <= 0) return done;
    k->off += r; done += r;
  }
  return done;
}
static int c_seek(void *c, off64_t *o, int wh) {
  Cookie *k = (Cookie *)c;
  off_t r = lseek(k->fd, *o, wh);
  if (r < 0) return -1;
  *o = r; k->off = r;
  return 0;
}
static int c_close(void *c) {
  Cookie *k = (Cookie *)c; int rc = 0;
  if (IoFault *f = hit("fclose", k->path.c_str())) { errno = f->err; rc = -1; }
  int e = errno;
  syscall(SYS_close, k->fd);
  if (g_cookies) for (auto it = g_cookies->begin(); it != g_cookies->end(); ++it) if (it->second == k) { g_cookies->erase(it); break; }
  g_openfiles--;
  delete k;
  errno = e;
  return rc;
}
}  // namespace dst
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!in_child()) return __real_fopen(path, mode);
  if (IoFault *f = hit("fopen", path)) { errno = f->err; return nullptr; }
  int fl = mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY)
         : mode[0] == 'w' ? ((strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC)
                          : ((strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
  if (strncmp(path, "/dev/", 5) == 0 || strncmp(path, "/proc/", 6) == 0) return __real_fopen(path, mode);
  int fd = syscall(SYS_openat, AT_FDCWD, path, fl, 0666);
  if (fd < 0) return nullptr;
  struct stat st;
  if (syscall(SYS_fstat, fd, &st) == 0 && !S_ISREG(st.st_mode)) { syscall(SYS_close, fd); return __real_fopen(path, mode); }
  Cookie *k = new Cookie(); k->fd = fd; k->path = path;
  if (fl & O_APPEND) k->off = lseek(fd, 0, SEEK_END);
  cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
  FILE *fp = fopencookie(k, mode, io);
  if (!g_cookies) g_cookies = new std::map<FILE *, Cookie *>();
  (*g_cookies)[fp] = k;
  if (!g_fdpath) g_fdpath = new std::map<int, std::string>();
  (*g_fdpath)[fd] = path;
  g_openfiles++;
  return fp;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __real_fileno(FILE *);
int __wrap_fileno(FILE *f) {
  if (g_cookies) { auto it = g_cookies->find(f); if (it != g_cookies->end()) return it->second->fd; }
  return __real_fileno(f);
}
int __real_open(const char *, int, ...);
int __wrap_open(const char *path, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (in_child()) if (IoFault *f = hit("open", path)) { errno = f->err; return -1; }
  int fd = __real_open(path, fl, mode);
  if (fd >= 0 && in_child()) { if (!g_fdpath) g_fdpath = new std::map<int, std::string>(); (*g_fdpath)[fd] = path; }
  return fd;
}
int __wrap_open64(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return __wrap_open(path, fl, mode); }
static const char *fdname(int fd) {
  if (g_fdpath) { auto it = g_fdpath->find(fd); if (it != g_fdpath->end()) return it->second.c_str(); }
  return "";
}
int __real_fstat(int, struct stat *);
int __wrap_fstat(int fd, struct stat *st) {
  if (in_child()) if (IoFault *f = hit("fstat", fdname(fd))) { errno = f->err; return -1; }
  return __real_fstat(fd, st);
}
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && in_child()) if (IoFault *f = hit("mmap", fdname(fd))) { errno = f->err; return MAP_FAILED; }
  return __real_mmap(a, n, pr, fl, fd, o);
}
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) {
  if (in_child()) if (IoFault *f = hit("mkdir", p)) { errno = f->err; return -1; }
  return __real_mkdir(p, m);
}
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { if (in_child()) if (IoFault *f = hit("unlink", p)) { errno = f->err; return -1; } return __real_unlink(p); }
int __real_remove(const char *);
int __wrap_remove(const char *p) { if (in_child()) if (IoFault *f = hit("unlink", p)) { errno = f->err; return -1; } return __real_remove(p); }
int __real_rename(const char *, const char *);
int __wrap_rename(const char *p, const char *q) { if (in_child()) if (IoFault *f = hit("rename", q)) { errno = f->err; return -1; } return __real_rename(p, q); }
// files opened inside shared libraries (libstdc++ file streams) bind to these
static std::map<FILE *, std::string> *g_libfiles;
FILE *fopen(const char *path, const char *mode) {
  static FILE *(*real)(const char *, const char *) = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
  if (!in_child()) return real(path, mode);
  if (IoFault *f = hit("fopen", path)) { errno = f->err; return nullptr; }
  FILE *fp = real(path, mode);
  if (fp) { if (!g_libfiles) g_libfiles = new std::map<FILE *, std::string>(); (*g_libfiles)[fp] = path; }
  return fp;
}
int fclose(FILE *fp) {
  static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  if (!in_child() || !g_libfiles) return real(fp);
  auto it = g_libfiles->find(fp); if (it == g_libfiles->end()) return real(fp);
  std::string p = it->second; g_libfiles->erase(it);
  IoFault *f = hit("fclose", p.c_str()); int rc = real(fp);
  if (f) { errno = f->err; rc = EOF; }
  return rc;
}
// descriptor-level writes (libstdc++ file streams)
static std::string fdlink(int fd) {
  char l[64], b[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  return n > 0 ? std::string(b, n) : std::string();
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2 && (g_faults || g_chunkseed) && in_child()) {
    std::string p = fdlink(fd);
    int64_t off = lseek(fd, 0, SEEK_CUR); int err; bool fail;
    ssize_t m = xfer(false, p.c_str(), n, &err, &fail, off);
    if (fail) { errno = err; return -1; }
    n = m;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd > 2 && (g_faults || g_chunkseed) && in_child()) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd > 2 && (g_faults || g_chunkseed) && in_child()) {
    std::string p = fdlink(fd);
    if (p.size() && p[0] == '/') {
      int64_t off = lseek(fd, 0, SEEK_CUR); int err; bool fail;
      ssize_t m = xfer(true, p.c_str(), n, &err, &fail, off);
      if (fail) { errno = err; return -1; }
      n = m;
    }
  }
  return syscall(SYS_read, fd, b, n);
}

// ================================================================ abort / exit
}
namespace dst {
struct Guard { sigjmp_buf jb; int code; Guard *prev; };
static Guard *g_guard = nullptr;
static int g_guard_tid = -1;
int guarded(const std::function<void()> &fn, int *code) {
  Guard g; g.prev = g_guard; g.code = 0;
  int tid = g_guard_tid;
  g_guard = &g; g_guard_tid = sched_tid();
  int rc = sigsetjmp(g.jb, 1);
  if (rc == 0) {
    try { fn(); } catch (const std::exception &e) { rc = 1; }
  }
  g_guard = g.prev; g_guard_tid = tid;
  if (code) *code = g.code;
  return rc;
}
void on_abort_signal() {  // called from the SIGABRT handler
  if (g_guard && g_guard_tid == sched_tid()) siglongjmp(g_guard->jb, 1);
}
}  // namespace dst
extern "C" {
[[noreturn]] void __real_abort(void);
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_abort(void) {
  if (in_child()) {
    if (g_guard && g_guard_tid == sched_tid()) siglongjmp(g_guard->jb, 1);
    violate("abort", g_crash_key, "the library stopped the program (abort)");
  }
  __real_abort();
}
[[noreturn]] void __wrap_exit(int c) {
  if (in_child()) {
    if (g_guard && g_guard_tid == sched_tid()) { g_guard->code = c; siglongjmp(g_guard->jb, 2); }
    violate("exit", g_crash_key, "the library stopped the program (exit %d)", c);
  }
  __real_exit(c);
}
}
