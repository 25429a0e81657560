// T01: expiration (only in the build with TTL support)
#ifdef SUPPORT_TTL
#include "hist.h"
using namespace dst;
namespace {
static const std::vector<const char *> TP = {"FIFO", "LRU", "MRU", "Clock", "Sieve", "LFU", "LFUDA", "GDSF", "Size", "Random", "RandomTwo", "RandomLRU", "Hyperbolic", "Belady", "ARC", "LeCaR"};
static void runT(const Plan &p) {
  World w(p); const char *an = w.A->name; std::string key = an; g_crash_key = key; w.build(); cache_t *c = w.c; int64_t dttl = p.geti("dttl"); int64_t cap = c->cache_size;
  if (p.geti("clone")) { cache_t *d = p.geti("clone") == 1 ? clone_cache(c) : create_cache_with_new_size(c, cap); c->cache_free(c); w.c = c = d; if (c->default_ttl != dttl) violate("default-ttl", key, "a clone has default ttl %ld instead of %ld", (long)c->default_ttl, (long)dttl); }
  std::vector<int64_t> ex(w.U, 0); int64_t nexp = 0, nhitttl = 0, sum, nhit = 0; int n, i = 0;
  auto raw = [&](int64_t at) { int64_t t = w.now; w.now = at; auto v = w.snapshot(&sum, &n); w.now = t; return v; };   // at time 0 nothing is expired
  std::vector<char> b = raw(0), a;
  for (auto &op : p.ops) {
    step_budget(w.A->caps & A_RANDOM ? 3000000000LL : 80000000, "no-progress", key); int o = op.a[0] % w.U; int64_t z = w.size_of(o, op.a[1]); note("%s op %d %s %d", an, i, op.k, o);
    bool get = op.is("g"); bool hit = false;
    if (get) {
      int64_t ttl = op.a[3]; w.req->ttl = ttl; bool was = b[o], exp = was && ex[o] && ex[o] < w.now + op.a[2]; if (was && !exp) {} hit = w.get(o, z, op.a[2]);
      if (hit != (was && !exp)) violate(exp ? "expired-hit" : "outcome", key, "op %d: a request at time %ld for %s object %d (expires %ld) is a %s", i, (long)w.now, was ? "resident" : "absent", o, (long)ex[o], hit ? "hit" : "miss");
      if (exp) nexp++; if (hit && ex[o]) nhitttl++; nhit += hit; if (!hit) { int64_t e = ttl ? ttl : dttl; ex[o] = e ? w.now + e : 0; w.insz[o] = z; }
      a = raw(0); if (!hit && !a[o] && w.insertable(z)) violate("not-inserted", key, "op %d: object %d is not resident after its miss%s", i, o, exp ? " (it had expired)" : "");
      for (int k = 0; k < w.U; k++) if (a[k] && !b[k] && k != o) violate("phantom", key, "op %d: object %d becomes resident although object %d was requested", i, k, o);
    } else if (op.is("r")) { bool r = c->remove(c, obj_key(p, o)); if (r != (bool)b[o]) violate("removal", key, "op %d: removing %s object %d reports %s", i, b[o] ? "resident" : "absent", o, r ? "success" : "failure"); a = raw(0); if (a[o]) violate("removal", key, "op %d: object %d is still resident after its removal", i, o); }
    else if (op.is("e")) { w.now += op.a[2]; if (c->get_n_obj(c) > 0) { w.fill(w.q, o, 1); c->evict(c, w.q); } a = raw(0); }
    else { i++; continue; }
    int64_t rs = sum; int rn = n;
    int64_t occ = c->get_occupied_byte(c), no = c->get_n_obj(c);
    if (occ > cap) violate("overflow", key, "op %d: %ld bytes occupied, the capacity is %ld", i, (long)occ, (long)cap);
    if (no != rn || occ != rs) violate("accounting", key, "op %d: %ld objects and %ld bytes reported, %d with %ld bytes are in the cache", i, (long)no, (long)occ, rn, (long)rs);
    // what lookups see now, and at the last and first moment around each expiration
    for (int k = 0; k < w.U; k++) if (a[k]) {
      int64_t t = w.now; bool now = w.resident(k), want = !(ex[k] && ex[k] < t); if (now != want) violate("lookup", key, "op %d: a lookup at time %ld of object %d, which expires %ld, finds %s", i, (long)t, k, (long)ex[k], now ? "it" : "nothing");
      w.now = ex[k] ? ex[k] : t + 1000000000; bool last = w.resident(k); w.now = ex[k] + 1; bool first = ex[k] && w.resident(k); w.now = t;
      if (!last || first) violate("expiration", key, "op %d: object %d, which expires %ld, %s", i, k, (long)ex[k], !last ? "is gone before" : "can still be found later");
    }
    if (c->get_n_obj(c) != no || c->get_occupied_byte(c) != occ) violate("lookup", key, "op %d: lookups changed the cache", i);
    uint64_t h = mix(hit, n); for (int k = 0; k < w.U; k++) if (a[k]) h = mix(h, k); ev(h); state(mix(hstr(key), h)); b = a; i++;
  }
  c->cache_free(c); count((std::string("algo.") + an).c_str()); count("probe.expired_requests", nexp); count("probe.hits_before_expiry", nhitttl); if (nexp && nhit) nontrivial();
}
static Plan genT(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_hist(s, i, th, &TP, A_REMOVE, i % 3 == 1 ? 5 : 0, i % 4 == 2 ? 4 : 0, 0); Rng r(mix(mix(s, i), 77)); if (algo_by_name(p.get("algo"))->caps & A_RANDOM) p.set("hp", 11);
  int64_t tm = r.pickl<int64_t>({3, 20, 20, 100, 1000}), dm = r.pickl<int64_t>({0, 1, 3, 3, 30}); p.set("t0", r.pickl<int64_t>({1, 1000, 1700000000})); p.set("dttl", r.pickl<int64_t>({0, 0, 1, 10, 50, 364 * 86400})); int none = r.below(4);
  for (auto &o : p.ops) { o.a[2] = r.chance(1, 40) ? r.below(tm * 2) : r.below(dm + 1); if (o.is("g")) o.a[3] = r.below(4) < (unsigned)none ? 0 : r.chance(1, 20) ? 2000000 : 1 + r.below(tm); }
  if (r.chance(1, 5)) p.set("clone", 1 + r.below(2)); return p;
}
static Registrar t01({"T01", "ttl", genT, runT, {{"clone", {"0"}}, {"sz", {"unit", "fixed"}}, {"md", {"0"}}, {"hp", {"8"}}, {"t0", {"1"}}, {"dttl", {"0", "1"}}, {"params", {""}}}});
}
#endif
