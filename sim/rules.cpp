// H12: policies whose rule draws on randomness or learns. Single choices are free, so
// the rule is decided over a whole simulated history: the rank of the victims among the residents,
// the share of each expert, where the learned weights move, what survives ageing and scans.
#include <algorithm>
#include <cmath>
#include <list>
#include <map>
#include "hist.h"
using namespace dst;
static Plan gen(uint64_t s, uint64_t i, bool) {
  Plan p; Rng r(mix(mix(s, i), 641));
  std::string kind = r.pickl<const char *>({"sample", "sample", "share", "learn", "age", "scan", "adapt", "pop"});
  p.set("kind", kind); p.set("sz", "unit"); p.set("md", 0); p.set("hp", 12); p.set("idmode", (int64_t)r.below(3)); p.set("idseed", (int64_t)(r.next() >> 40));
  p.set("rngseed", (int64_t)(r.next() >> 34) + 1); p.set("wseed", (int64_t)(r.next() >> 34)); p.set("memseed", (int64_t)(r.next() >> 34));
  auto f = [&](std::initializer_list<const char *> l) { std::string q = *(l.begin() + r.below(l.size())); size_t c = q.find(';'); p.set("algo", q.substr(0, c)); if (c != std::string::npos) p.set("params", q.substr(c + 1)); };
  p.set("size", r.pickl<int>({30, 40, 60, 90})); p.set("zipf", r.pickl<int>({0, 60, 100, -1}));
  if (kind == "sample") {
    f({"Random", "RandomTwo", "RandomLRU", "RandomLRU;n-sample=2", "RandomLRU;n-sample=8", "Hyperbolic", "Hyperbolic;n-sample=4", "Hyperbolic;n-sample=12", "BeladySize", "BeladySize;n-sample=3", "BeladySize;n-sample=16"});
    if (p.get("algo") == "BeladySize") { p.set("sz", "fixed"); p.set("szmax", 30); p.set("szseed", (int64_t)r.below(1000)); p.set("size", p.geti("size") * 15); }
  }
  if (kind == "share") { int w = r.pickl<int>({5, 20, 50, 80, 95}); p.set("algo", "LeCaR"); char b[64]; snprintf(b, sizeof b, r.chance(1, 2) ? "update-weight=0,lru-weight=0.%02d" : "lru-weight=0.%02d,update-weight=0", w); p.set("params", b); p.set("w", w); }
  if (kind == "learn") { p.set("algo", r.pickl<const char *>({"LeCaR", "LeCaR", "LeCaRv0", "Cacheus"})); p.set("bad", r.pickl<const char *>({"lru", "lfu"})); }
  if (kind == "age") p.set("algo", "LFUDA");
  if (kind == "scan") f({"WTinyLFU;window-size=0.1", "WTinyLFU;main-cache=LRU,window-size=0.1", "Cacheus", "LHD", "GDSF"});
  if (kind == "adapt") f({"Cacheus", "LHD", "LeCaR", "LeCaRv0", "Hyperbolic", "LFUDA", "GLCache", "RandomLRU", "GDSF"});
  if (kind == "pop") f({"WTinyLFU;window-size=0.1", "WTinyLFU;main-cache=LRU,window-size=0.1", "Cacheus", "LHD", "LeCaR", "LeCaRv0", "Hyperbolic", "LFUDA", "GLCache", "Random", "LRU"});
  if (i % 400 == 7) { kind = "density"; p.set("kind", kind); p.set("algo", "LHD"); p.set("size", r.pickl<int>({280, 320, 400})); p.cfg.erase("params"); }
  if (p.get("algo") == "GLCache") { p.set("params", "segment-size=8,n-merge=2,rank-intvl=0.05,retrain-intvl=86400,type=learned"); p.set("size", 90); }
  return p;
}
struct H {
  World w; cache_t *c; Rng r; int64_t n = 0, vt = 0; const char *an; std::vector<int> in; std::vector<int64_t> last, ent, fr, nx;
  H(const Plan &p) : w(p), r(p.geti("wseed")) { w.build(); c = w.c; an = w.A->name; last.assign(w.U, 0); ent = fr = nx = last; }
  bool res(int o) { return w.resident(o); }
  uint64_t rh() { uint64_t x = 0; for (int o : in) x ^= mix(o + 1, 77); return x; }  // the resident set
  // one request; *gone: evicted objects
  bool get(int o, int64_t next, std::vector<int> *gone) {
    step_budget(40000000, "no-progress", an);
    note("%s request %ld for %d", an, (long)n, o);
    n++; w.now = n / 8; w.fill(w.req, o, w.size_of(o, 1)); w.req->next_access_vtime = next; w.req->n_req = n;
    bool h = c->get(c, w.req); last[o] = n;
    if (h) fr[o]++;
    else {
      for (size_t i = 0; i < in.size();) if (!res(in[i])) { if (gone) gone->push_back(in[i]); in[i] = in.back(); in.pop_back(); } else i++;
      if (res(o)) { in.push_back(o); fr[o] = 1; ent[o] = n; }
    }
    ev(o, h); return h;
  }
  bool quick(int o) { if (n++ % 64 == 0) { step_budget(2000000000, "no-progress", an); note("%s request %ld for %d", an, (long)n, o); } w.now = n / 8; w.fill(w.req, o, 1); bool h = c->get(c, w.req); ev(o, h); return h; }
};
static void run_sample(const Plan &p0) {
  Plan p = p0; p.set("U", 400); H h(p); std::string ps = p.get("params"), a = h.an;
  size_t e = ps.find("n-sample="); int k = e != std::string::npos ? atoi(ps.c_str() + e + 9) : a == "RandomLRU" ? 16 : a == "Hyperbolic" ? 64 : a == "BeladySize" ? 128 : a == "RandomTwo" ? 2 : 1;
  int N = 2600; std::vector<int> q; double z = p.geti("zipf") / 100.;
  std::vector<double> cum; double t = 0; for (int i = 0; i < 400; i++) { t += pow(i + 1, -std::max(z, 0.)); cum.push_back(t); }
  int hot = p.geti("size") / (a == "BeladySize" ? 15 : 1) * 4 / 10;
  for (int i = 0; i < N; i++) {
    double x = h.r.below(1 << 30) / (double)(1 << 30) * t; int o = std::lower_bound(cum.begin(), cum.end(), x) - cum.begin();
    q.push_back(z >= 0 ? o : h.r.below(10) < 6 ? h.r.below(hot) : h.r.below(400));  // -1: a hot set, hit again and again
  }
  std::vector<int64_t> nxt(N), seen(400, -1); for (int i = N - 1; i >= 0; i--) { nxt[i] = seen[q[i]] < 0 ? N + 1000 + (int64_t)h.r.below(5000) : seen[q[i]] + 1; seen[q[i]] = i; }
  double top = 0, sum = 0, exp = 0, var = 0, sum2 = 0, exp2 = 0, var2 = 0; int T = 0;
  for (int i = 0; i < N && T < 900; i++) {
    std::vector<int> before = h.in; std::vector<int64_t> fr = h.fr, last = h.last, ent = h.ent, nx = h.nx; std::vector<int> gone; h.get(q[i], nxt[i], &gone); h.nx[q[i]] = nxt[i];
    for (int v : gone) {
      auto key = [&](int o) -> double {  // smaller: evicted first
        if (a == "Hyperbolic") return ent[o] >= h.n ? 1e18 : (double)fr[o] / (h.n - ent[o]);
        if (a == "BeladySize") return -(double)h.w.size_of(o, 1) * (nx[o] - h.n);
        return last[o];
      };
      double kv = key(v), rank = 0; int R = before.size(); for (int o : before) if (o != v) { double ko = key(o); rank += ko < kv ? 1 : ko == kv ? .5 : 0; }
      double m = 0, m2 = 0; for (int x = 1; x < R; x++) { double P = pow((R - x) / (double)R, k); m += P; m2 += (2 * x - 1) * P; }
      top += rank >= .7 * R; sum += rank; exp += m; var += m2 - m * m; T++;
      if (k == 1) { double r2 = 0; for (int o : before) if (o != v) r2 += ent[o] < ent[v]; sum2 += r2; exp2 += m; var2 += m2 - m * m; }
      for (size_t x = 0; x < before.size(); x++) if (before[x] == v) { before.erase(before.begin() + x); break; }
    }
    state(h.rh());
  }
  count((std::string("algo.") + h.an).c_str()); count("probe.ranked-evictions", T);
  if (T < 300) return;
  nontrivial();
  // independent draws give exp +- tol. The table's sampler draws from one cycle over its slots (known
  // finding, reported for Random), which makes small samples pick worse objects than independent ones.
  double tol = 7 * sqrt(var) + 0.02 * exp + 3, low = exp * (k == 1 ? .4 : k <= 4 ? .6 : k <= 16 ? .4 : 0) - tol, up = exp + tol + (k >= 64 ? 4 * T : k > 1 ? 1.5 * T : 0);
  double q3 = pow(.3, k), most = T * q3 + 5 * sqrt(T * q3 * (1 - q3)) + 3;
  if (top > most) violate("sample-top", h.an, "%s(%s): of %d victims %.0f were among the last 30 %% in eviction order, at most %.0f are expected of %d random samples", h.an, ps.c_str(), T, top, most, k);
  if (sum < low || sum > up) violate("sample-rank", h.an, "%s(%s): over %d evictions the victims' mean rank in eviction order is %.2f of the residents, the worst of %d random samples gives %.2f", h.an, ps.c_str(), T, sum / T, k, exp / T);
  if (k == 1) {
    if (sum2 < exp2 * .4 || sum2 > up) violate("sample-rank", h.an, "%s: over %d evictions the victims' mean age rank is %.2f, a uniform choice gives %.2f", h.an, T, sum2 / T, exp2 / T);
    if (sum2 < exp2 - 7 * sqrt(var2) - 0.02 * exp2 - 3) violate("not-uniform", h.an, "%s: over %d evictions the victims' mean age rank is %.2f (0: oldest), a uniform choice gives %.2f +- %.2f", h.an, T, sum2 / T, exp2 / T, sqrt(var2) / T);
  }
  h.c->cache_free(h.c);
}
static void run_share(const Plan &p0) {
  Plan p = p0; p.set("U", 300); H h(p); int N = 4000, nl = 0, nt = 0; double w = p.geti("w") / 100.;
  for (int i = 0; i < N; i++) {
    int o = h.r.chance(1, 2) ? h.r.below(h.w.c->cache_size) : h.r.below(300); std::vector<int> before = h.in, gone; auto fr = h.fr, last = h.last; h.get(o, MAX_REUSE_DISTANCE, &gone);
    if (gone.size() != 1) continue;
    int lru = -1; int64_t mf = INT64_MAX; for (int x : before) { if (lru < 0 || last[x] < last[lru]) lru = x; mf = std::min(mf, fr[x]); }
    if (fr[lru] == mf) continue;  // both experts may choose it
    nt++; nl += gone[0] == lru;
    if (gone[0] != lru && fr[gone[0]] != mf) violate("victim", h.an, "request %d evicted object %d, neither the least recently nor a least frequently used one", i, gone[0]);
    state(mix(fr[lru], mf));
  }
  count("algo.LeCaR"); count("probe.expert-choices", nt);
  if (nt < 150) return;
  nontrivial();
  double tol = 7 * sqrt(w * (1 - w) / nt) + 0.01, got = nl / (double)nt;
  if (fabs(got - w) > tol) violate("expert-share", h.an, "LeCaR(%s): the LRU expert chose %.3f of %d evictions where the experts differ (+- %.3f)", p.get("params").c_str(), got, nt, tol);
  h.c->cache_free(h.c);
}
// one of LeCaR's experts keeps evicting what is needed again: its weight has to fall
static void run_learn(const Plan &p0) {
  Plan p = p0; bool lru_bad = p.get("bad") == "lru"; int C = p.geti("size"); p.set("U", 400); H h(p); int U = 400, fresh = 0, nl = 0, nt = 0, step = 0, n = 0, hits = 0;
  auto req = [&](int o, bool cnt) {
    std::vector<int> before = h.in, gone; auto fr = h.fr, last = h.last; bool x = h.get(o, MAX_REUSE_DISTANCE, &gone); step++;
    if (!cnt) return;
    if (!lru_bad || o < C / 2) { n++; hits += x; }
    for (int g : gone) {
      int lru = -1; int64_t mf = INT64_MAX; for (int x : before) { if (lru < 0 || last[x] < last[lru]) lru = x; mf = std::min(mf, fr[x]); }
      if (fr[lru] != mf) { nt++; nl += g == lru; }
      state(mix(g == lru, h.fr[g]));
    }
  };
  if (lru_bad) {
    int hot = C / 2; for (int k = 0; k < 5; k++) for (int i = 0; i < hot; i++) req(i, false);
    for (int cyc = 0; cyc < 40; cyc++) { for (int i = 0; i < hot; i++) { req(i, cyc >= 20); req(i, false); } for (int i = 0; i < C * 6 / 10; i++) req(hot + (fresh++ % (U - hot)), cyc >= 20); }
  } else {
    for (int ph = 0; ph < 12; ph++) {  // the hot set moves: what was frequent is never needed again
      int b = (ph * C) % (U - C), W = C * 7 / 10;
      for (int k = 0; k < 8; k++) for (int i = 0; i < W; i++) req(b + i, ph >= 6);
    }
  }
  bool lc = !strncmp(h.an, "LeCaR", 5); double rate = hits / (double)n, need = lc ? .6 : lru_bad ? .8 : .5;
  if (rate < need) violate("learn-hits", h.an, "every eviction of the %s expert hits an object that is needed again soon; after %d requests only %.2f of the requests for such objects hit", lru_bad ? "LRU" : "LFU", step, rate);
  count((std::string("algo.") + h.an).c_str()); count("probe.expert-choices", nt);
  double share = nt ? nl / (double)nt : 0;
  nontrivial();
  if (nt >= 40) {
    if (!strncmp(h.an, "LeCaR", 5) && (lru_bad ? share > .4 : share < .65)) violate("learn", h.an, "every eviction of the %s expert hits an object that is needed again soon, yet after %d requests it still decides %.2f of %d evictions", lru_bad ? "LRU" : "LFU", step, lru_bad ? share : 1 - share, nt);
  }
  h.c->cache_free(h.c);
}
// LFUDA: priorities age. An object is never evicted while a dominated one stays: one that came no
// later, was hit no more often, and each of whose hits was no later.
static void run_age(const Plan &p0) {
  Plan p = p0; int C = p.geti("size"); p.set("U", 6 * C); H h(p); int U = 6 * C, nev = 0; std::vector<std::vector<int64_t>> hits(U);
  auto check = [&](const std::vector<int> &before, const std::vector<int> &gone) {
    for (int v : gone) {
      for (int x : before) if (x != v && std::find(gone.begin(), gone.end(), x) == gone.end() && h.ent[x] < h.ent[v] && hits[x].size() <= hits[v].size()) {
        if (hits[x].empty() && !hits[v].empty()) continue;
        bool dom = true; for (size_t k = 0; k < hits[x].size(); k++) if (hits[x][k] > hits[v][k]) dom = false;
        if (dom) violate("victim", h.an, "request %ld: object %d (cached at request %ld, %zu hits) was evicted although object %d came earlier (request %ld) and had no more and no later hits (%zu)", (long)h.n, v, (long)h.ent[v], hits[v].size(), x, (long)h.ent[x], hits[x].size());
      }
      for (int x : before) if (x != v && std::find(gone.begin(), gone.end(), x) == gone.end() && hits[x].empty() && !hits[v].empty() && h.ent[x] <= hits[v].back())
        violate("victim", h.an, "request %ld: object %d was evicted although it was hit at request %ld and object %d, cached at request %ld, never was", (long)h.n, v, (long)hits[v].back(), x, (long)h.ent[x]);
      hits[v].clear(); nev++;
    }
  };
  auto req = [&](int o) { std::vector<int> before = h.in, gone; if (h.get(o, MAX_REUSE_DISTANCE, &gone)) hits[o].push_back(h.n); else check(before, gone); state(mix(hits[o].size(), gone.size())); };
  for (int i = 0; i < 1500; i++) req(h.r.chance(2, 3) ? h.r.below(C) : h.r.below(U));
  count("algo.LFUDA"); count("probe.evictions", nev); if (nev >= 50) nontrivial();
  // popular objects outlive a turnover of the cache, but not for ever
  int hot = 3, K = 3 + h.r.below(5); bool early = h.r.chance(1, 4); H g(p); int f = hot; auto fill = [&](int n) { for (int i = 0; i < n; i++) { g.get(f, MAX_REUSE_DISTANCE, nullptr); if (++f == U) f = hot; } };
  if (!early) fill(2 * C);  // evictions have begun
  for (int k = 0; k <= K; k++) for (int i = 0; i < hot; i++) g.get(i, MAX_REUSE_DISTANCE, nullptr);
  fill(C + C / 4); int left = 0; for (int x = 0; x < hot; x++) left += g.res(x);
  if (left < hot) violate(early ? "early-hits" : "age", h.an, "of %d objects hit %d times each %d were evicted by one turnover of one-time requests", hot, K, hot - left);
  bool gone = false; for (int i = 0; i < 4 * (K + 4) && !gone; i++) { fill(C / 2); left = 0; for (int x = 0; x < hot; x++) left += g.res(x); gone = !left; }
  if (!gone) violate("age", h.an, "objects hit %d times early on are still cached after one-time requests of %d times the capacity", K, 2 * (K + 4));
  h.c->cache_free(h.c); g.c->cache_free(g.c);
}
// objects requested often survive a burst of one-time requests
static void run_scan(const Plan &p0) {
  Plan p = p0; int C = p.geti("size"); p.set("U", 12 * C); H h(p); int hot = C / 2, keep = 0; bool w = p.get("algo") == "WTinyLFU";
  for (int k = 0; k < (w ? 15 : 8); k++) for (int i = 0; i < hot; i++) h.get(i, MAX_REUSE_DISTANCE, nullptr);
  bool rep = w && h.r.chance(1, 2);  // the burst: one-time requests, or fewer objects requested thrice
  for (int k = 0; k < (rep ? 3 : 1); k++) for (int i = 0; i < (rep ? C / 3 : w ? C : 3 * C); i++) { h.get(hot + i, MAX_REUSE_DISTANCE, nullptr); state(h.in.size()); }
  for (int i = 0; i < hot; i++) keep += h.res(i);
  count((std::string("algo.") + h.an).c_str()); nontrivial();
  if (keep < hot * 8 / 10) violate("scan", h.an, "%d of %d objects requested %d times each are left after %d one-time requests (capacity %d)", keep, hot, w ? 15 : 8, w ? C : 3 * C, C);
  h.c->cache_free(h.c);
}
// the working set moves: after a while the hits come from the new one
static void run_adapt(const Plan &p0) {
  Plan p = p0; int C = p.geti("size"); p.set("U", 12 * C); H h(p); int W = C * 6 / 10, hits = 0, n = 0;
  for (int ph = 0; ph < 10; ph++) for (int k = 0; k < 12; k++) for (int i = 0; i < W; i++) { bool x = h.get(ph * C + h.r.below(W), MAX_REUSE_DISTANCE, nullptr); if (ph >= 5 && k >= 6) { n++; hits += x; } state(mix(h.in.size(), k)); }
  std::string a = h.an; double need = a == "LHD" ? .25 : a == "LFUDA" ? .15 : .85;
  count((std::string("algo.") + a).c_str()); nontrivial();
  if (hits < need * n) violate("adapt", a, "the working set moved to %d objects (capacity %d); six rounds later only %d of %d requests hit", W, C, hits, n);
  h.c->cache_free(h.c);
}
// independent requests of fixed popularity
static void run_pop(const Plan &p0) {
  Plan p = p0; int C = p.geti("size"), U = 12 * C; p.set("U", U); H h(p); std::vector<double> cum; double t = 0, top = 0; for (int i = 0; i < U; i++) { t += 1. / (i + 1); cum.push_back(t); if (i < C) top = t; }
  int N = 60 * C, n = 0, hits = 0;
  for (int i = 0; i < N; i++) { double x = h.r.below(1 << 30) / (double)(1 << 30) * t; int o = std::lower_bound(cum.begin(), cum.end(), x) - cum.begin(); bool b = h.get(o, MAX_REUSE_DISTANCE, nullptr); if (i > N / 2) { n++; hits += b; } if (i % 8 == 0) state(h.rh()); }
  static const std::map<std::string, double> bound = {{"Cacheus", .72}, {"GLCache", .7}, {"Hyperbolic", .6}, {"LFUDA", .78}, {"LHD", .74}, {"LeCaR", .62}, {"LeCaRv0", .6}, {"WTinyLFU", .77}};
  auto b = bound.find(h.an); double got = hits / (double)n / (top / t);
  count((std::string("algo.") + h.an).c_str()); nontrivial();
  if (b != bound.end() && got < b->second) violate("popular", h.an, "independent requests of fixed popularity, capacity %d: the hits are %.2f of what caching the most popular objects gives", C, got);
  h.c->cache_free(h.c);
}
// LHD re-estimates hit densities every 2^20 requests: half of the requests go to a working set that
// nearly fits, half are for objects never seen before
static void run_density(const Plan &p0) {
  Plan p = p0; int C = p.geti("size"), W = C * 8 / 10; p.set("U", 10); H h(p); int64_t fresh = 1000, N = 2500000, hits = 0, n = 0, first = 0;
  for (int64_t i = 0; i < N; i++) { int o = h.r.below(2) ? (int)h.r.below(W) : fresh++; bool b = h.quick(o); if (o < 1000) { if (i > N - 300000) { n++; hits += b; } else if (i < 300000) first += b; } }
  count("algo.LHD"); nontrivial();
  if (hits < .75 * n) violate("density", h.an, "half of %ld requests go to %d objects (capacity %d), the others are one-time: at the end %.2f of the former hit", (long)N, W, C, hits / (double)n);
  h.c->cache_free(h.c);
}
static void run(const Plan &p) {
  std::string k = p.get("kind");
  if (k == "sample") run_sample(p); else if (k == "share") run_share(p); else if (k == "learn") run_learn(p); else if (k == "age") run_age(p); else if (k == "density") run_density(p); else if (k == "pop") run_pop(p); else if (k == "adapt") run_adapt(p); else run_scan(p);
}
static Registrar rules({"H12", "rules", gen, run, {{"idmode", {"0"}}, {"size", {"30", "40"}}, {"zipf", {"0"}}, {"params", {""}}}, 1});
