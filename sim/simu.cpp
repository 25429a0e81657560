// Parallel trace simulation (profiler/simulator.c) under a seeded thread schedule.
#include <math.h>
#include <pthread.h>
#include "trace.h"
using namespace dst;
namespace {
struct CacheSpec { const Algo *A; int64_t size; std::string params; bool md; };
static std::vector<CacheSpec> specs(const Plan &p) {
  std::vector<CacheSpec> v;
  std::string api = p.get("api");
  if (api == "multi") {
    for (auto &o : p.ops) if (o.is("c")) {
      const Algo *a = &algos()[o.a[0] % algos().size()];
      const char *par = a->params[o.a[2] % a->params.size()];
      v.push_back({a, o.a[1], par ? par : "", (bool)p.geti("md")});
    }
  } else {
    const Algo *a = algo_by_name(p.get("algo"));
    if (api == "step") { int64_t st = std::max<int64_t>(1, p.geti("step", 5)), n = (p.geti("size") + st - 1) / st; for (int64_t i = 1; i <= n; i++) v.push_back({a, st * i, p.get("params"), (bool)p.geti("md")}); }
    else for (auto &o : p.ops) if (o.is("c")) v.push_back({a, o.a[1], p.get("params"), (bool)p.geti("md")});
  }
  for (auto &c : v) c.size *= p.geti("scale", 1);
  return v;
}
struct Out { int64_t nw, n, nb, m, mb, size, nobj, occ, rt; std::string name; };
static Out conv(const cache_stat_t &s) { return {s.n_warmup_req, s.n_req, s.n_req_byte, s.n_miss, s.n_miss_byte, s.cache_size, s.n_obj, s.occupied_byte, s.curr_rtime, s.cache_name}; }
static std::string show(const Out &o) {
  char b[400]; snprintf(b, sizeof b, "{%s size %ld: warmup %ld req %ld (%ld B) miss %ld (%ld B) objects %ld bytes %ld}", o.name.c_str(), (long)o.size, (long)o.nw, (long)o.n, (long)o.nb, (long)o.m, (long)o.mb, (long)o.nobj, (long)o.occ); return b;
}
static bool same(const Out &a, const Out &b) { return a.nw == b.nw && a.n == b.n && a.nb == b.nb && a.m == b.m && a.mb == b.mb && a.size == b.size && a.nobj == b.nobj && a.occ == b.occ && a.rt == b.rt && a.name == b.name; }
struct Sim {
  const Plan &p; Trace tr, wt; std::vector<CacheSpec> cs; reader_t *rd = nullptr, *wr = nullptr; cache_t *tmpl = nullptr; std::vector<cache_t *> caches;
  std::string fmt, wfmt, tag;
  explicit Sim(const Plan &pp, const char *tg = "") : p(pp), tag(tg) {
    fmt = p.get("fmt", "og"); wfmt = p.get("wfmt", "og");
    tr = fmt_expect(fmt, plan_trace(p, "q"), true); cs = specs(p);
    if (p.get("warm") == "reader") wt = fmt_expect(wfmt, plan_trace(p, "w"), true);
    if (cs.empty() || tr.empty()) return;
    if (!fmt_has(fmt, 'n') || p.get("warm") == "reader") for (auto &c : cs) if (c.A->caps & A_ORACLE) { cs.clear(); return; }
    put_file("trace" + tag + "." + fmt, encode(fmt, plan_trace(p, "q"), p)); if (wt.size()) put_file("warm" + tag + "." + wfmt, encode(wfmt, plan_trace(p, "w"), p));
    rd = open_fmt(fmt, "trace" + tag + "." + fmt, p); if (wt.size()) wr = open_fmt(wfmt, "warm" + tag + "." + wfmt, p);
  }
  int64_t warm_n() const { double f = p.get("warm") == "frac" ? p.geti("wfrac") / 100.0 : 0; return (int64_t)((double)tr.size() * f); }
  int warm_sec() const { return p.get("warm") == "sec" ? (int)p.geti("wsec") : 0; }
  std::vector<Out> run(int nthreads, bool freeit = true) {
    double f = p.get("warm") == "frac" ? p.geti("wfrac") / 100.0 : 0;
    cache_stat_t *st; std::string api = p.get("api"); set_rand_seed(p.geti("rngseed", 1));
    if (api == "multi") {
      caches.clear(); for (auto &c : cs) caches.push_back(make_cache(c.A, c.size, p.geti("hp", 8), c.md, c.params.c_str()));
      st = simulate_with_multi_caches(rd, caches.data(), caches.size(), wr, f, warm_sec(), nthreads, freeit);
    } else {
      if (!tmpl) tmpl = make_cache(cs[0].A, p.geti("size", 10) * p.geti("scale", 1), p.geti("hp", 8), cs[0].md, cs[0].params.c_str());
      set_rand_seed(p.geti("rngseed", 1));
      if (api == "step") st = simulate_at_multi_sizes_with_step_size(rd, tmpl, std::max<int64_t>(1, p.geti("step", 5)) * p.geti("scale", 1), wr, f, warm_sec(), nthreads);
      else { std::vector<uint64_t> z; for (auto &c : cs) z.push_back(c.size); st = simulate_at_multi_sizes(rd, tmpl, z.size(), z.data(), wr, f, warm_sec(), nthreads); }
    }
    std::vector<Out> v; for (size_t i = 0; i < cs.size(); i++) v.push_back(conv(st[i]));
    free(st);
    return v;
  }
  void finish() { if (tmpl) tmpl->cache_free(tmpl); tmpl = nullptr; if (wr) close_reader(wr); close_reader(rd); }
  // sequential reference written against the documented meaning of warm-up and measurement
  Out reference(size_t i, std::vector<char> *resid = nullptr) {
    cache_t *c = make_cache(cs[i].A, cs[i].size, p.geti("hp", 8), cs[i].md, cs[i].params.c_str());
    set_rand_seed(0);
    request_t *q = new_request(); Out o = {0, 0, 0, 0, 0, cs[i].size, 0, 0, 0, ""};
    auto fill = [&](const Rq &r) { q->obj_id = r.id; q->obj_size = r.size; q->next_access_vtime = r.next; q->ttl = -1; q->hv = 0; };
    for (auto &r : wt) { fill(r); q->clock_time = r.t; c->get(c, q); o.nw++; }
    int64_t t0 = tr.empty() ? 0 : tr[0].t; bool warming = p.get("warm") == "frac" || p.get("warm") == "sec"; int64_t k = 0;
    for (auto &r : tr) {
      fill(r); q->clock_time = r.t - t0; o.rt = r.t - t0;
      if (warming && !(k < warm_n() || r.t - t0 < warm_sec())) warming = false;
      bool hit = c->get(c, q); k++;
      if (warming) o.nw++; else { o.n++; o.nb += r.size; if (!hit) o.m++, o.mb += r.size; }
    }
    o.nobj = c->get_n_obj(c); o.occ = c->get_occupied_byte(c); o.name = c->cache_name;
    if (resid) { resid->clear(); for (int k = 0; k < (int)tr.size(); k++) { fill(tr[k]); resid->push_back(c->find(c, q, false) != nullptr); } }
    c->cache_free(c); return o;
  }
};
static std::string only_diff(const Out &a, const Out &b) {
  std::string s;
  if (a.nw != b.nw) s += " warm-up requests"; if (a.n != b.n) s += " requests"; if (a.nb != b.nb) s += " bytes"; if (a.m != b.m) s += " misses"; if (a.mb != b.mb) s += " miss bytes";
  if (a.size != b.size) s += " cache size"; if (a.nobj != b.nobj) s += " objects"; if (a.occ != b.occ) s += " occupied bytes"; if (a.rt != b.rt) s += " trace time"; if (a.name != b.name) s += " name";
  return s;
}
static const std::vector<std::pair<std::string, std::vector<std::string>>> SIMP = {
    {"sched", {"off"}}, {"threads", {"1", "2"}}, {"warm", {"none"}}, {"fmt", {"og"}}, {"clkseed", {"0"}}, {"sz", {"unit", "fixed"}}, {"md", {"0"}}, {"idmode", {"0"}}, {"t0", {"0"}}, {"U", {"3", "5", "10"}}, {"size", {"5", "10"}}, {"pre", {"0"}}, {"two", {"0"}}};

static Plan gen_sim(const std::string &prop, uint64_t seed, uint64_t idx, bool th) {
  Rng r(mix(mix(seed, idx), hstr(prop))); Plan p;
  bool unit = r.chance(1, 3); int64_t szmax = r.pickl<int64_t>({3, 20, 100}); int U = 4 + r.below(r.pickl<int>({10, 40}));
  int n = th ? r.pickl<int>({20, 100, 400}) : r.pickl<int>({20, 60, 150});
  gen_trace(r, p, n, U, szmax, unit, r.pickl<int>({0, 1, 3, 10}));
  p.set("t0", r.pickl<int64_t>({0, 1, 5000, 1700000000}));
  int64_t avg = unit ? 1 : (szmax + 1) / 2;
  bool md = r.chance(1, 6), extra = !md && p.get("sz") != "vary";  // the further policies: fixed sizes, no metadata (see H11)
  auto pick = [&]() { const Algo *a; do { a = r.chance(1, 3) ? algo_by_name(r.pickl<const char *>({"LRU", "FIFO", "LeCaR", "LFU"})) : &algos()[r.below(algos().size())]; } while ((!strcmp(a->name, "GLCache") && !r.chance(1, 4)) || ((a->caps & A_EXTRA) && !extra)); return a; };
  auto csize = [&](const Algo *a) { int64_t z = (a->min_unit + r.below(20)) * avg; if (!unit && r.chance(2, 3)) z += szmax; return z; };
  std::string api = r.pickl<const char *>({"sizes", "sizes", "multi", "multi", "step"});
  int nc = r.pickl<int>({1, 2, 3, 4, 6, 9});
  p.set("api", api);
  if (api == "multi") {
    for (int i = 0; i < nc; i++) { const Algo *a = pick(); p.ops.push_back(Op("c", a - &algos()[0], csize(a), r.below(3))); }
  } else {
    const Algo *a = pick(); if (api == "step" && a->min_unit > 12) a = algo_by_name("LRU");
    p.set("algo", a->name); const char *par = r.pick(a->params); if (par) p.set("params", par);
    p.set("size", csize(a));
    if (api == "step") { p.set("step", std::max<int64_t>(a->min_unit * avg, p.geti("size") / (1 + r.below(7)))); }
    else for (int i = 0; i < nc; i++) p.ops.push_back(Op("c", 0, csize(a)));
  }
  p.set("md", md); p.set("hp", r.pickl<int>({6, 8, 12}));
  p.set("threads", r.pickl<int>({1, 2, 2, 3, 4, 4, 8}));
  bool oracle = false; for (auto &o : p.ops) if (o.is("c") && api == "multi" && (algos()[o.a[0]].caps & A_ORACLE)) oracle = true;
  if (api != "multi" && (algo_by_name(p.get("algo"))->caps & A_ORACLE)) oracle = true;
  p.set("fmt", oracle ? r.pickl<const char *>({"og", "lcs", "bin"}) : r.pickl<const char *>({"og", "og", "csv", "bin", "lcs", "vscsi2"}));
  std::string w = prop == "S04" ? r.pickl<const char *>({"frac", "frac", "sec", "sec", "reader", "none"}) : r.pickl<const char *>({"none", "none", "frac", "sec", "reader"});
  if (oracle && w == "reader") w = "frac";
  p.set("warm", w);
  if (w == "frac") p.set("wfrac", r.chance(1, 2) ? r.pickl<int>({1, 10, 20, 33, 50, 80, 100}) : 1 + (int)r.below(100));
  if (w == "sec") p.set("wsec", r.pickl<int>({1, 5, 30, 200, 100000}));
  if (w == "reader") { p.set("wfmt", "og"); int m = 1 + r.below(n); for (int i = 0; i < m; i++) p.ops.push_back(Op("w", r.below(U), 1 + r.below(szmax), r.below(3))); }
  static const char *BIG[] = {"LRU", "FIFO", "LFU", "Clock", "SLRU", "ARC", "TwoQ", "S3FIFO", "Sieve", "LeCaR"};
  auto okbig = [&](const Algo *a) { for (auto b : BIG) if (!strcmp(a->name, b)) return true; return false; };
  bool big = !md && !unit && p.get("fmt") == "csv"; if (api == "multi") { for (auto &o : p.ops) if (o.is("c") && !okbig(&algos()[o.a[0]])) big = false; } else big = big && okbig(algo_by_name(p.get("algo")));
  if (big && r.chance(2, 3)) { p.set("scale", r.pickl<int64_t>({1LL << 20, 1LL << 28, 1LL << 31, 1LL << 33, 3000000007LL})); if (w == "reader") p.set("wfmt", "csv"); }
  p.set("sched", r.pickl<const char *>({"random", "random", "pct", "stall", "conflict", "sync"}));
  p.set("schedseed", r.below(1 << 30)); p.set("schedmean", r.pickl<int>({3, 20, 100, 1000, 10000})); p.set("horizon", r.pickl<int>({2000, 20000, 200000}));
  p.set("nsstep", r.pickl<int>({5, 50, 1000})); p.set("memseed", 1 + r.below(1 << 20)); p.set("rngseed", r.below(1 << 20));
  if (r.chance(1, 2)) p.set("clkseed", 1 + r.below(1 << 20));
  p.set("ncores", r.pickl<int>({1, 2, 4, 16}));
  if (prop == "S02") p.set("free", r.below(2));
  if (prop == "S03") { p.set("pre", r.below(n)); p.set("two", r.pickl<int>({0, 1, 2})); p.set("free", r.below(2)); }
  return p;
}
static void probes(const Sim &s) {
  if (sched_max_parallel() >= 3) count("probe.two_workers_alive");
  count("probe.context_switches", sched_switches()); state(sched_signature());
  count(("api." + s.p.get("api")).c_str()); count(("warmup." + s.p.get("warm")).c_str());
  if (s.tr.size() >= 5) nontrivial();
}
static std::string key_of(const Sim &s, size_t i) { return s.cs[i].A->name; }

// S01: any schedule gives the same statistics as the sequential execution
static void run_s01(const Plan &p) {
  step_budget(3000000000LL, "no-progress", "simulator");
  Sim s(p); if (s.cs.empty() || s.tr.empty()) return;
  note("parallel");
  std::vector<Out> b = s.run(p.geti("threads", 2));
  probes(s);
  note("sequential");
  Plan q = p; q.set("sched", "off");
  // the reference: one worker, one cache at a time, in this process
  std::vector<Out> a = s.run(1);
  for (size_t i = 0; i < a.size(); i++) { ev(i, b[i].m, b[i].n); if (!same(a[i], b[i])) violate("schedule-dependent", key_of(s, i), "cache %zu of %zu with %s threads differs from the sequential run in%s: parallel %s sequential %s", i, a.size(), p.get("threads").c_str(), only_diff(a[i], b[i]).c_str(), show(b[i]).c_str(), show(a[i]).c_str()); }
  // and each cache simulated alone, without any thread
  for (size_t i = 0; i < a.size(); i++) if (!(s.cs[i].A->caps & A_RANDOM)) { note("alone %zu", i); Out o = s.reference(i); if (!same(o, b[i])) violate("differs-from-alone", key_of(s, i), "cache %zu differs from feeding the trace to it directly in%s: parallel %s alone %s", i, only_diff(o, b[i]).c_str(), show(b[i]).c_str(), show(o).c_str()); }
  s.finish();
}
static void run_s02(const Plan &p) {
  step_budget(3000000000LL, "no-progress", "simulator");
  Sim s(p); if (s.cs.empty() || s.tr.empty()) return;
  int64_t total = s.tr.size(), bytes = 0; for (auto &r : s.tr) bytes += r.size;
  bool freeit = p.get("api") != "multi" || p.geti("free", 1);
  std::vector<Out> b = s.run(p.geti("threads", 2), freeit);
  if (!freeit) for (auto c : s.caches) c->cache_free(c);
  probes(s);
  for (size_t i = 0; i < b.size(); i++) {
    auto &o = b[i]; std::string k = key_of(s, i); ev(i, o.m, o.n);
    if (o.size != s.cs[i].size) violate("order", k, "result %zu carries size %ld instead of %ld: %s", i, (long)o.size, (long)s.cs[i].size, show(o).c_str());
    cache_t *c = make_cache(s.cs[i].A, s.cs[i].size, 8, s.cs[i].md, s.cs[i].params.c_str());
    if (o.name != c->cache_name) violate("order", k, "result %zu is named \"%s\" instead of \"%s\"", i, o.name.c_str(), c->cache_name);
    c->cache_free(c);
    if (o.nw - (int64_t)s.wt.size() + o.n != total) violate("conservation", k, "result %zu: %ld warm-up (of which %zu from the warm-up trace) + %ld measured requests for a trace of %ld", i, (long)o.nw, s.wt.size(), (long)o.n, (long)total);
    if (o.m > o.n || o.m < 0 || o.mb > o.nb || o.mb < 0) violate("conservation", k, "result %zu: impossible counts %s", i, show(o).c_str());
    int64_t mb = 0, nw = o.nw - s.wt.size(); for (int64_t j = nw; j < total; j++) mb += s.tr[j].size;
    if (o.nb != mb) violate("conservation", k, "result %zu: %ld bytes requested, the measured requests sum to %ld", i, (long)o.nb, (long)mb);
    if (o.occ > o.size || o.nobj < 0 || o.occ < 0) violate("conservation", k, "result %zu: impossible final state %s", i, show(o).c_str());
    Out f = s.reference(i);
    if (!(s.cs[i].A->caps & A_RANDOM) && (f.m != o.m || f.mb != o.mb || f.nobj != o.nobj || f.occ != o.occ)) violate("not-exactly-once", k, "result %zu differs from feeding every request to the cache exactly once: %s instead of %s", i, show(o).c_str(), show(f).c_str());
  }
  s.finish();
  if (io_open_files()) violate("leak", "reader", "%ld trace files still open after the simulation ended and the readers were closed", (long)io_open_files());
}
struct Arg { Sim *s; int th; std::vector<Out> out; };
static void *second(void *a) { Arg *x = (Arg *)a; x->out = x->s->run(x->th); return nullptr; }
static void run_s03(const Plan &p) {
  step_budget(3000000000LL, "no-progress", "simulator");
  Sim s(p); if (s.cs.empty() || s.tr.empty()) return;
  request_t *q = new_request(); int pre = p.geti("pre") % s.tr.size();
  // the caller has consumed part of its reader and used its template cache
  for (int i = 0; i < pre; i++) if (read_one_req(s.rd, q) != 0 || q->obj_id != s.tr[i].id) violate("reader", "reader", "request %d of the trace could not be read", i);
  bool multi = p.get("api") == "multi", freeit = !multi || p.geti("free");
  std::vector<char> before; int64_t n0 = 0, o0 = 0; int64_t keepsize = 0;
  auto snap = [&](cache_t *c) { std::vector<char> v; for (auto &r : s.tr) { q->obj_id = r.id; q->obj_size = r.size; q->hv = 0; v.push_back(c->find(c, q, false) != nullptr); } return v; };
  if (!multi) {
    s.tmpl = make_cache(s.cs[0].A, p.geti("size", 10) * p.geti("scale", 1), p.geti("hp", 8), s.cs[0].md, s.cs[0].params.c_str());
    for (int i = 0; i < pre; i++) { q->obj_id = s.tr[i].id; q->obj_size = s.tr[i].size; q->hv = 0; q->next_access_vtime = s.tr[i].next; q->clock_time = i; s.tmpl->get(s.tmpl, q); }
    before = snap(s.tmpl); n0 = s.tmpl->get_n_obj(s.tmpl); o0 = s.tmpl->get_occupied_byte(s.tmpl); keepsize = s.tmpl->cache_size;
  }
  std::vector<Out> b; Arg x; bool two = p.geti("two"); Sim *s2 = nullptr; Plan p2 = p;
  if (two) {
    if (p.geti("two") == 2) { p2.set("t0", p.geti("t0") + 777); p2.set("idmode", 2); int k = 0; for (auto &o : p2.ops) if (o.is("q")) { o.a[0] = (o.a[0] * 3 + 1) % p.geti("U", 10); o.a[2] += k++ % 4 == 0; } }
    s2 = new Sim(p2, p.geti("two") == 2 ? "2" : ""); x = {s2, (int)p.geti("threads", 2), {}}; pthread_t th; pthread_create(&th, nullptr, second, &x);
    b = s.run(p.geti("threads", 2), freeit);
    pthread_join(th, nullptr); count("probe.concurrent_simulations");
  } else b = s.run(p.geti("threads", 2), freeit);
  probes(s);
  if (!multi) {
    if ((int64_t)s.tmpl->cache_size != keepsize || s.tmpl->get_n_obj(s.tmpl) != n0 || s.tmpl->get_occupied_byte(s.tmpl) != o0 || snap(s.tmpl) != before) violate("template-changed", key_of(s, 0), "the caller's cache changed: %ld objects %ld bytes before, %ld objects %ld bytes after", (long)n0, (long)o0, (long)s.tmpl->get_n_obj(s.tmpl), (long)s.tmpl->get_occupied_byte(s.tmpl));
  }
  for (int i = pre; i < (int)s.tr.size(); i++) {
    int rc = read_one_req(s.rd, q);
    if (rc != 0 || q->obj_id != s.tr[i].id || (fmt_has(s.fmt, 't') && q->clock_time != s.tr[i].t)) violate("reader-moved", s.fmt, "the caller's reader stood before request %d; reading on after the simulation gives %s", i, rc ? "the end of the trace" : "another request");
  }
  for (size_t i = 0; i < b.size(); i++) {
    ev(i, b[i].m, b[i].n);
    if (s.cs[i].A->caps & A_RANDOM) continue;
    std::vector<char> res; Out f = s.reference(i, &res);
    if (!same(f, b[i])) violate("interference", key_of(s, i), "cache %zu: result differs from the isolated one in%s: %s instead of %s%s", i, only_diff(f, b[i]).c_str(), show(b[i]).c_str(), show(f).c_str(), two ? " (another simulation ran concurrently)" : "");
    if (p.geti("two") == 2) f = s2->reference(i);
    if (two && !same(f, x.out[i])) violate("interference", key_of(s, i), "cache %zu of the concurrent simulation differs from the isolated result in%s: %s instead of %s", i, only_diff(f, x.out[i]).c_str(), show(x.out[i]).c_str(), show(f).c_str());
    if (!freeit) { if (snap(s.caches[i]) != res) violate("kept-cache", key_of(s, i), "cache %zu was to be kept but does not hold the objects it should after the trace", i); }
  }
  if (!freeit) for (auto c : s.caches) c->cache_free(c);
  s.finish(); if (s2) s2->finish();
}
static void run_s04(const Plan &p) {
  step_budget(3000000000LL, "no-progress", "simulator");
  Sim s(p); if (s.cs.empty() || s.tr.empty()) return;
  std::vector<Out> b = s.run(p.geti("threads", 2));
  probes(s);
  for (size_t i = 0; i < b.size(); i++) {
    Out f = s.reference(i); ev(i, b[i].m, b[i].n);
    if (f.nw != b[i].nw || f.n != b[i].n || f.nb != b[i].nb) violate("warmup-partition", p.get("warm"), "cache %zu: %s instead of %s", i, show(b[i]).c_str(), show(f).c_str());
    if (!(s.cs[i].A->caps & A_RANDOM) && (f.m != b[i].m || f.mb != b[i].mb)) violate("warmup-state", p.get("warm"), "cache %zu (%s): %s instead of %s", i, key_of(s, i).c_str(), show(b[i]).c_str(), show(f).c_str());
  }
  s.finish();
}
#define REG(id, fn) static Registrar reg_##id({#id, "simulate", [](uint64_t s, uint64_t i, bool t) { return gen_sim(#id, s, i, t); }, fn, SIMP});
REG(S01, run_s01) REG(S02, run_s02) REG(S03, run_s03) REG(S04, run_s04)
}
