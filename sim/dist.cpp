// A01 reuse and stack distances, A02 LRU miss-ratio curve, O01 distance files
#include <unistd.h>
#include <list>
#include <set>
#include "rdplan.h"
#include "libCacheSim/dist.h"
#include "libCacheSim/profilerLRU.h"
using namespace dst;
namespace {
typedef std::vector<uint64_t> Seq;
static sampler_t *mks(const Plan &p) {
  int k = p.geti("samp"), inv = p.geti("inv", 2);
  return k == 1 ? create_spatial_sampler(1.0 / inv) : k == 2 ? create_temporal_sampler(1.0 / inv) : nullptr;
}
static Trace trace_of(const Plan &p) {
  if (!p.geti("deep")) return want_of(p);
  Trace t; int64_t n = p.geti("deep"), hot = p.geti("hot");   // a long scan, optionally with a hot object
  for (int64_t i = 0; i < n; i++) { Rq r; r.t = i / 10; r.id = hot && i % hot == 0 ? 5 : i + 10; r.size = 1 + i % 7; r.next = 0; t.push_back(r); }
  annotate(t); return t;
}
// the objects the reader delivers, in order
static Seq delivered(const Plan &p, const Trace &w) {
  Seq s; if (!p.geti("samp")) { for (auto &r : w) s.push_back(r.id); return s; }
  reader_t *r = open_t(p, mks(p)); request_t *q = new_request();
  while (read_one_req(r, q) == 0) s.push_back(q->obj_id);
  free_request(q); close_reader(r); return s;
}
static std::vector<int64_t> expect(const Seq &s, dist_type_e ty) {
  size_t n = s.size(); std::vector<int64_t> d(n, -1); std::unordered_map<uint64_t, int64_t> last, first;
  if (n > 20000) {  // long scans: between two requests of the hot object everything is distinct
    for (size_t i = 0; i < n; i++) { auto l = last.find(s[i]); if (l != last.end()) { int64_t g = i - l->second; if (ty == DIST_SINCE_LAST_ACCESS) d[i] = g; else if (ty == DIST_SINCE_FIRST_ACCESS) d[i] = i - first[s[i]]; else if (ty == STACK_DIST) d[i] = g - 1; else d[l->second] = g - 1; } else first[s[i]] = i; last[s[i]] = i; }
    return d;
  }
  std::list<uint64_t> lru;
  for (size_t i = 0; i < n; i++) {
    auto l = last.find(s[i]);
    if (l != last.end()) {
      int64_t sd = 0; for (auto x : lru) { if (x == s[i]) break; sd++; }
      if (ty == DIST_SINCE_LAST_ACCESS) d[i] = i - l->second; else if (ty == DIST_SINCE_FIRST_ACCESS) d[i] = i - first[s[i]]; else if (ty == STACK_DIST) d[i] = sd; else d[l->second] = sd;
      lru.remove(s[i]);
    } else first[s[i]] = i;
    lru.push_front(s[i]); last[s[i]] = i;
  }
  return d;
}
static const char *TN[] = {"since-last", "since-first", "stack", "future-stack"};
static int32_t *compute(reader_t *rd, dist_type_e ty, int64_t *n) { *n = -1; return ty >= STACK_DIST ? get_stack_dist(rd, ty, n) : get_access_dist(rd, ty, n); }
static void check_dist(const char *what, dist_type_e ty, const int32_t *d, int64_t n, const std::vector<int64_t> &w) {
  if (n != (int64_t)w.size()) violate("length", TN[ty], "%s: %ld distances for %zu requests", what, (long)n, w.size());
  for (int64_t i = 0; i < n; i++) if (d[i] != w[i]) violate("wrong-distance", TN[ty], "%s: distance of request %ld of %ld is %d, by definition %ld", what, (long)i, (long)n, d[i], (long)w[i]);
}
static bool skip_plan(const Plan &p, const Trace &t) { std::string f = p.get("fmt"); return (f[0] == 'v' && f[1] == 's' && t.size() < 3); }
static reader_t *start(const Plan &p, size_t n) {
  reader_t *rd = open_t(p, mks(p)); request_t *q = new_request();
  if (p.geti("clone")) { reader_t *c = clone_reader(rd); std::swap(c, rd); if (p.geti("clone") == 2) get_num_of_req(rd); }
  for (int64_t i = 0; i < p.geti("pre") && n; i++) read_one_req(rd, q);
  free_request(q); return rd;
}
static void run_a01(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = trace_of(p); if (skip_plan(p, t)) return;
  Trace w = fmt_expect(f, t, true); put_file(path_of(p), bytes_of(p, t)); arm_chunk(p); step_budget(8000000000LL, "no-progress", f);
  Seq s = delivered(p, w); if (w.empty()) return;
  note("open"); reader_t *rd = start(p, s.size()); int k = 0;
  for (auto &o : p.ops) {
    if (!o.is("dist")) continue;
    dist_type_e ty = (dist_type_e)(o.a[0] % 4); note("computation %d of %s distances", ++k, TN[ty]);
    request_t *q = new_request(); for (int i = 0; i < o.a[1]; i++) read_one_req(rd, q);
    int64_t n; int32_t *d = compute(rd, ty, &n); auto e = expect(s, ty); check_dist("distances", ty, d, n, e);
    for (int64_t i = 0; i < n; i++) ev(d[i], i);
    free(d); if (p.geti("idstr") == 0 && s.size() && !p.geti("samp")) { if (read_one_req(rd, q) != 0 || q->obj_id != s[0]) violate("reader-position", TN[ty], "the reader is not at the start of the trace after the computation"); }
    free_request(q); count(TN[ty]);
  }
  std::set<uint64_t> u(s.begin(), s.end()); if (s.size() > u.size() && k) nontrivial(); state(mix(s.size(), u.size())); count(("format." + f).c_str());
}
static Plan gen_d(const char *prop, uint64_t s, uint64_t i, bool th) {
  Plan p = gen_base(prop, s, i, th); Rng r(mix(mix(s, i), 181)); std::string f = p.get("fmt");
  if (p.geti("rep", 1) > 100) p.set("rep", 100); if (p.ops.size() * p.geti("rep", 1) > 4000) p.set("rep", 10);
  if (r.chance(1, 6) && (f[0] == 'o' || f == "csv" || f == "cf1" || f == "akamai" || f[0] == 'w')) p.set("zeros", 1);
  if (r.chance(1, 5)) { p.set("samp", 1 + r.below(2)); p.set("inv", r.pickl<int>({2, 2, 3, 7})); }
  if (r.chance(1, 3)) p.set("pre", 1 + r.below(20)); if (r.chance(1, 3)) p.set("clone", 1 + r.below(2));
  return p;
}
static Plan gen_a01(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_d("A01", s, i, th); Rng r(mix(mix(s, i), 182)); int n = 1 + r.below(4);
  if (i % 2000 == 17) { p.set("fmt", "txt"); for (auto k : {"idstr", "blank", "noeol", "zst", "samp", "rep", "wide", "longline", "zeros", "chunk"}) p.cfg.erase(k); p.ops.clear(); p.set("deep", 800000 + r.below(200000)); p.set("hot", r.pickl<int64_t>({0, 0, 99, 50000})); p.cfg.erase("pre"); p.cfg.erase("clone"); p.ops.push_back(Op("dist", 2 + r.below(2))); return p; }
  for (int j = 0; j < n; j++) p.ops.push_back(Op("dist", r.below(4), r.chance(1, 3) ? r.below(10) : 0));
  return p;
}
// ---------------------------------------------------------------- A02
static void run_a02(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = trace_of(p); if (skip_plan(p, t)) return;
  Trace w = fmt_expect(f, t, true); put_file(path_of(p), bytes_of(p, t)); arm_chunk(p); step_budget(8000000000LL, "no-progress", f);
  Seq s = delivered(p, w); if (s.empty()) return;
  note("open"); reader_t *rd = start(p, s.size()); int64_t S = p.geti("size");
  auto sd = expect(s, STACK_DIST); std::vector<int64_t> hit(S + 1, 0);
  for (auto d : sd) if (d >= 0) for (int64_t c = d + 1; c <= S; c++) hit[c]++;
  for (int pass = 0; pass < 2; pass++) {
    note("curve up to size %ld, pass %d", (long)S, pass); double *m = pass && p.geti("curve") ? get_lru_obj_miss_ratio_curve(rd, S) : get_lru_obj_miss_ratio(rd, S);
    for (int64_t c = 0; c <= S; c++) { double e = (double)(s.size() - hit[c]) / s.size(); if (!(fabs(m[c] - e) < 1e-9)) violate("miss-ratio", "curve", "pass %d: miss ratio %.9f at size %ld; an LRU cache of %ld objects misses %zu of %zu requests (%.9f)", pass, m[c], (long)c, (long)c, s.size() - (size_t)hit[c], s.size(), e); ev(hit[c], c); }
    g_free(m);
    if (!p.geti("idstr")) { request_t *q = new_request(); if (read_one_req(rd, q) != 0 || q->obj_id != s[0]) violate("reader-position", "curve", "the reader is not at the start of the trace after computing the curve"); if (p.geti("pre")) read_one_req(rd, q); free_request(q); }
  }
  // the simulated LRU cache agrees at some sizes
  Rng r(p.geti("memseed"));
  for (int j = 0; j < 3; j++) {
    int64_t c = 1 + r.below(std::max<int64_t>(1, S)); if (c > S) break;
    common_cache_params_t cc = default_common_cache_params(); cc.cache_size = c; cc.hashpower = 6; cc.consider_obj_metadata = false;
    cache_t *l = LRU_init(cc, nullptr); request_t *q = new_request(); q->obj_size = 1; q->op = OP_GET; q->valid = true; size_t miss = 0;
    for (size_t i = 0; i < s.size(); i++) { q->obj_id = s[i]; q->clock_time = i; miss += !l->get(l, q); }
    if (miss != s.size() - hit[c]) violate("simulation", "LRU", "simulating LRU with %ld unit objects gives %zu misses, the stack distances give %zu", (long)c, miss, s.size() - (size_t)hit[c]);
    l->cache_free(l); free_request(q);
  }
  count(("format." + f).c_str()); if (hit[S]) nontrivial(); state(mix(s.size(), hit[S]));
}
static Plan gen_a02(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_d("A02", s, i, th); Rng r(mix(mix(s, i), 183)); p.set("size", r.pickl<int>({0, 1, 2, 5, 10, 20, 50, 200})); p.set("curve", r.below(2)); return p;
}
// ---------------------------------------------------------------- O01
static void run_o01(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = trace_of(p); if (skip_plan(p, t)) return;
  Trace w = fmt_expect(f, t, true); put_file(path_of(p), bytes_of(p, t)); if (p.geti("chunk")) io_chunk(p.geti("chunk"), "."); step_budget(8000000000LL, "no-progress", f);
  Seq s = delivered(p, w); if (w.empty()) return;
  note("open"); reader_t *rd = start(p, s.size()); dist_type_e ty = (dist_type_e)(p.geti("ty") % 4); int how = p.geti("how") % 3; static const char *HN[] = {"save_dist", "save_dist_txt", "save_dist_as_cnt_txt"};
  int64_t n; int32_t *d = compute(rd, ty, &n); auto e = expect(s, ty); check_dist("distances", ty, d, n, e);
  std::string path = std::string("d.out.") + g_dist_type_name[ty] + (how == 1 ? ".txt" : how == 2 ? ".cnt" : "");
  if (p.geti("old")) put_file(path, std::string(p.geti("old"), 'x'));
  IoFault fl; memset(&fl, 0, sizeof fl); std::string call = p.get("call", "none"); snprintf(fl.call, sizeof fl.call, "%s", call.c_str()); snprintf(fl.path, sizeof fl.path, "d.out"); fl.kind = 0; fl.err = p.geti("ferr", ENOSPC); fl.sticky = p.geti("sticky");
  bool onsave = call == "write" || call == "fclose" || (call == "fopen" && !p.geti("ld"));
  int64_t full = how == 0 ? n * 4 : how == 1 ? n * 3 : 30;
  if (call == "write" || call == "read") fl.nth = p.geti("offbp") * full / 10000;
  auto attempt = [&](const char *what, bool fault, const std::function<void()> &fn) {
    if (fault) io_arm({fl}); size_t o0 = captured_output().size(); int code = 0; note("%s%s%s", what, fault ? " with failing " : "", fault ? fl.call : "");
    int rc = guarded(fn, &code); int fired = fault ? io_fired_count() : 0; io_disarm(); fflush(stdout);
    if (rc && !fault) return rc;
    if (rc && !fired && fault && !strcmp(what, "load_dist") && p.geti("torn")) return 1;
    if (rc && !fired) violate("abort", what, "%s stops the program although nothing failed", what);
    if (rc && captured_output().size() + captured_stdout().size() == o0) violate("silent-stop", what, "%s stops without a message when %s fails", what, fl.call);
    if (rc == 2 && code == 0) violate("silent-stop", what, "%s exits with status 0 when %s fails", what, fl.call);
    if (fired) { nontrivial(); count((std::string("fault.") + what + "." + fl.call).c_str()); } else if (fault) count("outcome.fault_not_reached");
    return rc ? 1 : fired ? -1 : 0;
  };
  auto save = [&] { if (how == 0) save_dist(rd, d, n, "d.out", ty); else if (how == 1) save_dist_txt(rd, d, n, "d.out", ty); else save_dist_as_cnt_txt(rd, d, n, "d.out", ty); };
  auto complete = [&](const char *after) {
    std::string b = get_file(path);
    if (how == 0) { if (b.size() != (size_t)n * 4 || memcmp(b.data(), d, b.size())) violate("lost-output", HN[how], "%s returned%s, but the file has %zu bytes and not the %ld distances", HN[how], after, b.size(), (long)n); }
    else if (how == 1) { std::string x; for (int64_t i = 0; i < n; i++) x += std::to_string(d[i]) + "\n"; if (x != b) violate("lost-output", HN[how], "%s returned%s, but the file (%zu bytes) does not list the %ld distances (%zu bytes)", HN[how], after, b.size(), (long)n, x.size()); }
    else {
      std::map<int64_t, int64_t> c, g; for (int64_t i = 0; i < n; i++) c[d[i] < 0 ? INT64_MAX : d[i]]++;
      const char *q = b.c_str(); long a, m; int u = 0; while (sscanf(q, "%ld:%ld, %n", &a, &m, &u) == 2) { g[a] += m; q += u; u = 0; }
      if (*q || c != g) violate("lost-output", HN[how], "%s returned%s, but the file (%zu bytes) does not have the count of every distance", HN[how], after, b.size());
    }
  };
  int rc = attempt(HN[how], onsave, save);
  if (rc == 1) { rc = attempt(HN[how], false, save); if (rc) violate("abort", HN[how], "%s still stops the program once the fault is over", HN[how]); complete(" after a repeated attempt"); }
  else { if (rc > 0) violate("abort", HN[how], "%s stops the program although nothing failed", HN[how]); complete(rc ? " although a call failed" : ""); }
  if (how == 0) {
    int32_t *g = nullptr; int64_t m = -1; bool onload = call == "read" || call == "fstat" || (call == "fopen" && p.geti("ld"));
    std::string b = get_file(path); size_t cut = b.size();
    if (p.geti("torn")) { cut = p.geti("cutbp") * b.size() / 10000; if (p.geti("torn") == 2) cut &= ~3ULL; if (p.geti("torn") == 3) b += std::string(1 + p.geti("cutbp") % 9, 'z'), cut = b.size(); put_file(path, b.substr(0, cut)); }
    bool bad = cut != (size_t)n * 4; size_t o0 = captured_output().size();
    reader_t *r2 = p.geti("other") ? start(p, s.size()) : rd;
    int rc2 = attempt("load_dist", onload, [&] { g = load_dist(r2, path.c_str(), &m); });
    if (rc2 <= 0) {
      if (bad) violate("truncated-load", "load_dist", "a distance file of %zu bytes is loaded for %ld requests", cut, (long)n);
      if (m != n || memcmp(g, d, n * 4)) violate("wrong-load", "load_dist", "%ld distances are loaded%s and they are not the %ld saved ones", (long)m, rc2 < 0 ? " after a failing call" : "", (long)n);
      free(g);
    } else if (!onload && !bad) violate("abort", "load_dist", "loading a complete distance file stops the program");
    else { fflush(stdout); if (captured_output().size() + captured_stdout().size() == o0) violate("silent-stop", "load_dist", "load_dist stops without a message"); count(bad ? "outcome.torn_rejected" : "outcome.load_fault_reported"); }
    if (bad) { nontrivial(); count("fault.torn_file"); }
  }
  ev(n, rc); for (int64_t i = 0; i < n; i++) ev(d[i], i); ev(mix(how, ty), mix(hstr(call), fl.nth), mix(p.geti("torn"), p.geti("cutbp"))); state(mix(mix(n, how), hstr(call))); count(HN[how]); if (n > 3) nontrivial();
}
static Plan gen_o01(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_d("O01", s, i, th); Rng r(mix(mix(s, i), 184)); p.set("ty", r.below(4)); p.set("how", r.chance(1, 2) ? 0 : 1 + r.below(2));
  if (r.chance(2, 3)) { p.set("call", r.pickl<const char *>({"write", "write", "fclose", "fopen", "fopen", "read", "fstat"})); p.set("ferr", p.get("call") == "fopen" ? r.pickl<int>({EACCES, ENOSPC, EMFILE, ENOENT}) : r.pickl<int>({ENOSPC, EIO, EDQUOT})); p.set("sticky", r.chance(2, 3)); p.set("offbp", r.below(10001)); p.set("ld", r.below(2)); }
  if (r.chance(1, 3)) { p.set("torn", 1 + r.below(3)); p.set("cutbp", r.below(10001)); }
  if (r.chance(1, 4)) p.set("old", 1 + r.below(4000)); if (r.chance(1, 3)) p.set("other", 1);
  return p;
}
static auto simp() { auto v = SIMP; v.push_back({"pre", {"0"}}); v.push_back({"clone", {"0"}}); v.push_back({"samp", {"0"}}); v.push_back({"old", {"0"}}); v.push_back({"other", {"0"}}); v.push_back({"zeros", {"0"}}); v.push_back({"torn", {"0"}}); v.push_back({"call", {"none"}}); return v; }
static Registrar ra01({"A01", "distances", gen_a01, run_a01, simp()}), ra02({"A02", "curve", gen_a02, run_a02, simp()}), ro01({"O01", "distance-files", gen_o01, run_o01, simp()});
}
