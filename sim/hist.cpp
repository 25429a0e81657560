#include "hist.h"
#include <unordered_map>
using namespace dst;
uint64_t obj_key(const Plan &p, int obj) {
  // object ids: small, or spread over the 64-bit range
  if (p.has("idbase")) return (uint64_t)p.geti("idbase") + obj + 1;
  return p.geti("idmode") == 0 ? (uint64_t)obj + 1 : p.geti("idmode") == 1 ? mix(p.geti("idseed", 7), obj) >> 1 : ((uint64_t)obj + 1) << 33;
}
World::World(const Plan &pp) : p(pp) {
  A = algo_by_name(p.get("algo"));
  if (!A) harness_error("no such algorithm %s", p.get("algo").c_str());
  U = p.geti("U", 10); szmode = p.get("sz", "unit"); szmax = p.geti("szmax", 50); tide = p.geti("tide", 0) > 0;
  req = new_request(); q = new_request(); req->op = OP_GET; q->op = OP_GET;
  insz.assign(U, 0);
  // oracle: index of the next get of the same object
  std::vector<int> gets; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].is("g")) gets.push_back(i);
  nxt.assign(gets.size(), MAX_REUSE_DISTANCE);
  std::unordered_map<int64_t, int64_t> last;
  for (int i = (int)gets.size() - 1; i >= 0; i--) {
    int64_t o = p.ops[gets[i]].a[0] % U; auto it = last.find(o);
    nxt[i] = it == last.end() ? MAX_REUSE_DISTANCE : it->second + 1; last[o] = i;
  }
  g_crash_key = p.get("algo");
}
World::~World() {}
int64_t World::size_of(int obj, int64_t opsize) const {
  if (szmode == "unit") return 1;
  if (int64_t zz = p.geti("zeros", 0)) if (mix(p.geti("szseed", 3), obj * 2 + 77) % zz == 0) return 0;
  if (tide) return obj & 1 ? szmax - (int64_t)(mix(p.geti("szseed", 3), obj) % (szmax / 3 + 1)) : 1 + (int64_t)(mix(p.geti("szseed", 3), obj) % (szmax / 20 + 1));
  if (szmode == "fixed") return 1 + (int64_t)(mix(p.geti("szseed", 3), obj) % szmax);
  return opsize > 0 ? opsize : 1;
}
void World::build() {
  set_rand_seed(p.geti("rngseed", 1));
  c = make_cache(A, p.geti("size", 10), p.geti("hp", 8), p.geti("md"), p.get("params").c_str(), p.geti("dttl"));
  md = c->obj_md_size; now = p.geti("t0", 0); nget = 0;
}
void World::fill(request_t *r, int obj, int64_t size) {
  r->obj_id = obj_key(p, obj); r->obj_size = size; r->clock_time = now; r->op = OP_GET; r->valid = true;
}
bool World::get(int obj, int64_t size, int64_t dt) {
  now += dt;
  fill(req, obj, size);
  req->next_access_vtime = nget < (int64_t)nxt.size() ? nxt[nget] : MAX_REUSE_DISTANCE;
  nget++;
  req->n_req = nget;
  return c->get(c, req);
}
bool World::resident(int obj, int64_t *sz) {
  fill(q, obj, szmode == "vary" ? 1 : size_of(obj, 1));
  cache_obj_t *o = c->find(c, q, false);
  if (!o) return false;
  if (sz) *sz = (A->caps & A_OPAQUE) ? insz[obj] : (int64_t)o->obj_size;
  return true;
}
std::vector<char> World::snapshot(int64_t *sum, int *n) {
  std::vector<char> v(U); int64_t s = 0; int k = 0;
  for (int i = 0; i < U; i++) { int64_t z = 0; v[i] = resident(i, &z); if (v[i]) { s += z + md; k++; } }
  if (sum) *sum = s; if (n) *n = k;
  return v;
}
Plan gen_hist(uint64_t seed, uint64_t idx, bool thorough, const std::vector<const char *> *only, unsigned need, int mixrm, int mixev, int mixpv) {
  Rng r(mix(seed, idx)); Plan p;
  std::vector<const Algo *> cand;
  for (auto &a : algos()) {
    if ((a.caps & need) != need || !only && (a.caps & A_EXTRA)) continue;
    if (only) { bool ok = false; for (auto n : *only) if (!strcmp(n, a.name)) ok = true; if (!ok) continue; }
    cand.push_back(&a); if (a.caps & A_DOC) cand.push_back(&a);
  }
  const Algo *a = cand[idx % cand.size()];
  p.set("algo", a->name);
  const char *par = r.pick(a->params); if (par) p.set("params", par);
  bool gl = !strcmp(a->name, "GLCache");
  std::string sz = r.chance(1, 3) ? "unit" : r.chance(3, 4) ? "fixed" : "vary";
  if (gl && sz == "vary") sz = "fixed";
  p.set("sz", sz);
  int64_t szmax = r.pickl<int64_t>({2, 5, 20, 100, 1000});
  { Rng rb(mix(mix(seed, idx), 41)); if (rb.chance(1, 8) && strncmp(a->name, "WTinyLFU", 8)) szmax = rb.pickl<int64_t>({100000, 3000000000LL, 12000000000LL}); }   // sizes around and beyond 32 bits
  p.set("szmax", szmax);
  p.set("md", r.chance(1, 5) && !gl ? 1 : 0);
  int64_t avg = sz == "unit" ? 1 : (szmax + 1) / 2;
  int64_t units = a->min_unit + r.below(r.pickl<int>({3, 10, 40}));
  int64_t cap = units * avg;
  if (sz != "unit" && r.chance(1, 3)) cap += r.below(avg + 1);
  if (sz != "unit" && cap < szmax && r.chance(2, 3)) cap = szmax + r.below(szmax);
  if (p.geti("md")) cap += units * 16;
  p.set("size", cap);
  int U = std::max<int64_t>(3, units * r.pickl<int>({1, 2, 2, 4}) / r.pickl<int>({1, 1, 2}) + 1);
  if (U > 160) U = 160;
  int tide = 0;  // small and large objects alternate: the number of residents rises and falls
  { Rng rb(mix(mix(seed, idx), 43)); if (sz == "fixed" && szmax >= 20 && rb.chance(1, 4)) { tide = rb.pickl<int>({8, 20, 40}); U = std::max(U, rb.pickl<int>({24, 40, 80})); p.set("tide", tide); if (rb.chance(2, 3)) p.set("size", szmax * rb.pickl<int>({2, 4, 6, 10}) + (p.geti("md") ? 640 : 0)); } }
  p.set("U", U);
  p.set("hp", r.pickl<int>({1, 3, 5, 8}) + (!strcmp(a->name, "Cacheus") ? 3 : !strcmp(a->name, "SLRUv0") || !strcmp(a->name, "S3FIFOd") ? 4 : 0));
  p.set("idmode", r.below(3)); p.set("idseed", r.below(1000));
  p.set("szseed", r.below(1 << 20)); p.set("rngseed", r.below(1 << 20)); p.set("memseed", 1 + r.below(1 << 20));
  p.set("t0", r.pickl<int64_t>({0, 0, 1, 1000000, 1700000000}));
  int n = thorough ? r.pickl<int>({60, 300, 1500}) : r.pickl<int>({30, 120, 400});
  if (gl) n = r.pickl<int>({400, 1500});
  int skew = r.below(4); int dtm = r.below(4);
  int scanpos = 0;
  int burst = 0, bo = 0;
  for (int i = 0; i < n; i++) {
    int obj;
    if (burst > 0) { burst--; obj = bo; }
    else switch (skew) {
      case 0: obj = r.below(U); break;
      case 1: obj = r.below(2) ? r.below(U) : r.below(1 + U / 5); break;
      case 2: { int z = r.below(U); for (int k = 0; k < 2; k++) z = std::min<int>(z, r.below(U)); obj = z; break; }
      default: if (r.chance(1, 3)) obj = r.below(1 + U / 4); else { obj = scanpos++ % U; } 
    }
    if (r.chance(1, 30)) { burst = r.below(5); bo = obj; }
    if (tide) obj = (obj & ~1) | (i / tide & 1);
    int64_t dt = dtm == 0 ? 0 : dtm == 1 ? 1 : dtm == 2 ? (int64_t)r.below(3) : (int64_t)r.below(100);
    int k = r.below(100);
    if (k < mixrm && (a->caps & A_REMOVE)) p.ops.push_back(Op("r", obj));
    else if (k < mixrm + mixev && (a->caps & A_DIRECTEVICT)) p.ops.push_back(Op("e"));
    else if (k < mixrm + mixev + mixpv && (a->caps & A_PREVIEW)) p.ops.push_back(Op("v", 0, 0));
    else p.ops.push_back(Op("g", obj, 1 + r.below(szmax), dt));
  }
  return p;
}

static const std::vector<std::pair<std::string, std::vector<std::string>>> SIMPLER = {
    {"tide", {"0"}}, {"zeros", {"0"}}, {"sz", {"unit", "fixed"}}, {"md", {"0"}}, {"hp", {"8"}}, {"idmode", {"0"}}, {"t0", {"0"}}, {"size", {"1", "2", "3", "4", "5", "8", "10", "16", "20"}}, {"U", {"3", "4", "6", "10", "20"}}, {"params", {""}}};

static void run_hist(const Plan &p) {
  const std::string prop = p.prop;
  bool h1 = prop == "H01", h2 = prop == "H02", h3 = prop == "H03", h4 = prop == "H04", h5 = prop == "H05"; if (prop == "H11") { int k = p.geti("which"); h1 = k == 1; h2 = k == 2; h3 = k == 3; h4 = k == 4; h5 = k == 5; }
  World w(p); const char *an = w.A->name;
  std::vector<char> hits0;
  if (h3) {  // the same history without any read-only probe in between
    w.build();
    for (auto &op : p.ops) {
      step_budget(w.A->caps & A_OPAQUE ? 400000000 : 20000000, "no-progress", an);
      if (op.is("g")) { int o = op.a[0] % w.U; note("%s unprobed get %d", an, o); hits0.push_back(w.get(o, w.size_of(o, op.a[1]), op.a[2])); }
      else if (op.is("r")) { note("%s unprobed remove", an); w.c->remove(w.c, obj_key(p, op.a[0] % w.U)); }
      else if (op.is("e") && w.c->get_n_obj(w.c) > 0 && w.c->get_occupied_byte(w.c) > 0) { note("%s unprobed evict", an); w.fill(w.q, 0, 1); int64_t n0 = w.c->get_n_obj(w.c), k = 0; do { w.c->evict(w.c, w.q); k++; } while (w.c->get_n_obj(w.c) == n0 && !(w.A->caps & A_EVICT1) && k <= n0 + 1); }
    }
    w.c->cache_free(w.c);
  }
  w.build();
  cache_t *c = w.c;
  int64_t cap = c->cache_size;
  int64_t sum; int n;
  std::vector<char> before = w.snapshot(&sum, &n), after;
  if (n) violate("phantom", an, "a fresh cache reports %d resident objects", n);
  int i = 0, nevict = 0, nhit = 0, ngi = 0, nrm = 0, npv = 0; int64_t occ0 = 0, no0 = 0;
  for (auto &op : p.ops) {
    step_budget(w.A->caps & A_OPAQUE ? 400000000 : 20000000, "no-progress", an);
    note("%s op %d %s %ld", an, i, op.k, (long)op.a[0]);
    occ0 = c->get_occupied_byte(c); no0 = c->get_n_obj(c);
    int o = op.a[0] % w.U; int64_t osz = 0; bool was = before[o];
    int64_t z = w.size_of(o, op.a[1]);
    if (op.is("g")) {
      bool can = w.insertable(z);
      w.fill(w.q, o, z);
      bool must = can && (z + w.md <= admit_limit(w.A, p.get("params"), cap) || c->can_insert(c, w.q));
      bool never = (w.A->caps & A_DROPNEVER) && w.nxt[ngi] == MAX_REUSE_DISTANCE;
      if (!was) w.insz[o] = z;
      bool hit = w.get(o, z, op.a[2]);
      nhit += hit;
      after = w.snapshot(&sum, &n);
      if (hit && w.szmode == "vary" && (w.A->caps & A_OPAQUE) && c->get_occupied_byte(c) - occ0 == z - w.insz[o]) w.insz[o] = z, after = w.snapshot(&sum, &n);
      ev(1, hit, o);
      if (h3) {
        if (hit != was) violate(hit ? "hit-nonresident" : "miss-resident", an, "op %d: get(obj %d size %ld) reported %s but the object was %s", i, o, (long)z, hit ? "hit" : "miss", was ? "resident" : "not resident");
        if (hit && !after[o] && !never) violate("hit-then-gone", an, "op %d: obj %d hit but is no longer resident right after", i, o);
        if (!hit && after[o] && !can) violate("oversize-admitted", an, "op %d: obj %d of size %ld admitted into a cache of %ld bytes", i, o, (long)z, (long)cap);
        if (!hit && must && !never && (w.A->caps & A_ADMIT) && !after[o]) violate("not-admitted", an, "op %d: miss on obj %d (size %ld fits %ld) but it is not resident afterwards", i, o, (long)z, (long)cap);
        if (hits0[ngi] != hit) violate("probe-changes-outcome", an, "op %d: get(obj %d) is a %s when read-only lookups happened before, a %s without them", i, o, hit ? "hit" : "miss", hits0[ngi] ? "hit" : "miss");
        for (int k = 0; k < w.U; k++) if (after[k] && !before[k] && k != o) violate("phantom", an, "op %d: get(obj %d) made obj %d resident", i, o, k);
      }
      if (h5) {
        int64_t big = 0; for (int k = 0; k < w.U; k++) if (before[k] && !after[k] && k != o) big = std::max(big, w.insz[k] + w.md);
        if ((w.A->caps & A_CONSERVE) && big && c->get_occupied_byte(c) + big <= cap) violate("over-eviction", an, "op %d: get(obj %d) left %ld of %ld bytes occupied after evicting an object of %ld bytes", i, o, (long)c->get_occupied_byte(c), (long)cap, (long)big);
        bool room = occ0 + z + w.md <= cap;
        if ((w.A->caps & A_CONSERVE)) for (int k = 0; k < w.U; k++) if (before[k] && !after[k]) {
          if (was || room || !can) violate("needless-eviction", an, "op %d: get(obj %d, %s, %s) dropped obj %d although no room was needed", i, o, was ? "hit" : "miss", can ? "fits" : "too large", k);
        }
      }
      for (int k = 0; k < w.U; k++) if (before[k] && !after[k]) { nevict++; if (was) count("probe.evict_on_hit"); }
      ngi++;
    } else if (op.is("r")) {
      bool ret = c->remove(c, obj_key(p, o));
      after = w.snapshot(&sum, &n); nrm += was;
      ev(2, ret, o);
      if (h4) {
        if (ret != was) violate(was ? "remove-missed" : "remove-phantom", an, "op %d: remove(obj %d) returned %d but the object was %s", i, o, ret, was ? "resident" : "not resident");
        if (after[o]) violate("remove-ineffective", an, "op %d: obj %d still resident after removal", i, o);
        for (int k = 0; k < w.U; k++) if (k != o && before[k] != after[k]) violate("remove-collateral", an, "op %d: remove(obj %d) changed residency of obj %d (%d -> %d)", i, o, k, before[k], after[k]);
        if (c->get_n_obj(c) != no0 - (was ? 1 : 0)) violate("remove-accounting", an, "op %d: object count %ld -> %ld after removing obj %d (%s)", i, (long)no0, (long)c->get_n_obj(c), o, was ? "resident" : "absent");
        if (!was && c->get_occupied_byte(c) != occ0) violate("remove-accounting", an, "op %d: occupied bytes changed by removing an absent object", i);
        if (was && c->get_occupied_byte(c) >= occ0 + (w.insz[o] + w.md == 0)) violate("remove-accounting", an, "op %d: occupied bytes %ld -> %ld after removing a resident object", i, (long)occ0, (long)c->get_occupied_byte(c));
      }
    } else if (op.is("e")) {
      if (no0 <= 0 || occ0 <= 0) { i++; continue; }
      w.fill(w.q, 0, 1); request_t *rq = w.q;
      // policies with several queues may only move objects in one call, but a bounded number of calls must evict
      int calls = 0, gone = 0;
      do { c->evict(c, rq); calls++; after = w.snapshot(&sum, &n); for (int k = 0; k < w.U; k++) gone += before[k] && !after[k]; }
      while (!gone && !(w.A->caps & A_EVICT1) && calls <= no0 + 1);
      nevict++; gone = 0; for (int k = 0; k < w.U; k++) { gone += before[k] && !after[k]; if (after[k] && !before[k]) violate("phantom", an, "op %d: evict made obj %d resident", i, k); }
      ev(3, gone);
      if (h5) {
        if (gone == 0) violate("evict-nothing", an, "op %d: evict on a cache of %ld objects removed none", i, (long)no0);
        if ((w.A->caps & A_EVICT1) && gone != 1) violate("evict-many", an, "op %d: one eviction removed %d objects", i, gone);
      }
    } else if (op.is("v")) {
      if (no0 <= 0 || occ0 <= 0) { i++; continue; }
      w.fill(w.q, 0, 1); request_t *rq = clone_request(w.q);
      cache_obj_t *cand = c->to_evict(c, rq);
      npv++;
      if (h5) {
        if (!cand) violate("preview-null", an, "op %d: no eviction candidate although %ld objects are cached", i, (long)no0);
        int ci = -1; for (int k = 0; k < w.U; k++) if (obj_key(p, k) == cand->obj_id) ci = k;
        if (ci < 0 || !before[ci]) violate("preview-nonresident", an, "op %d: announced victim (obj %d) is not resident", i, ci);
        std::vector<char> mid = w.snapshot(nullptr, nullptr);
        if (mid != before) violate("preview-sideeffect", an, "op %d: asking for the next victim changed the resident set", i);
        c->evict(c, rq);
        after = w.snapshot(&sum, &n);
        if (after[ci]) { int g = -1; for (int k = 0; k < w.U; k++) if (before[k] && !after[k]) g = k; violate("preview-wrong", an, "op %d: announced victim obj %d, evicted obj %d", i, ci, g); }
        for (int k = 0; k < w.U; k++) if (k != ci && before[k] != after[k]) violate("evict-many", an, "op %d: eviction of obj %d also changed obj %d", i, ci, k);
        ev(4, ci);
      } else { c->evict(c, rq); after = w.snapshot(&sum, &n); }
      nevict++;
    } else { i++; continue; }
    int64_t occ = c->get_occupied_byte(c), no = c->get_n_obj(c);
    if (h1) {
      if (occ > cap) violate("over-capacity", an, "op %d (%s obj %d): reported occupancy %ld exceeds capacity %ld", i, op.k, o, (long)occ, (long)cap);
      if (sum > cap) violate("over-capacity-real", an, "op %d (%s obj %d): resident objects take %ld bytes, capacity %ld", i, op.k, o, (long)sum, (long)cap);
      if (occ < 0 || no < 0) violate("negative", an, "op %d: occupancy %ld objects %ld", i, (long)occ, (long)no);
    }
    if (h2) {
      if (no != n) violate("n_obj", an, "op %d (%s obj %d): reports %ld objects, %d are resident", i, op.k, o, (long)no, n);
      if (occ != sum) violate("occupied", an, "op %d (%s obj %d): reports %ld bytes, resident objects take %ld", i, op.k, o, (long)occ, (long)sum);
    }
    uint64_t sh = hstr(an, strlen(an)); for (int k = 0; k < w.U; k++) sh = mix(sh, after[k]); state(mix(sh, hstr(op.k, 1)));
    before = after; i++;
  }
  step_budget(w.A->caps & A_OPAQUE ? 400000000 : 20000000, "no-progress", an);
  note("%s free", an);
  c->cache_free(c);
  count((std::string("algo.") + an).c_str());
  count("probe.evictions", nevict); count("probe.hits", nhit); count("probe.removals", nrm); count("probe.previews", npv);
  if (nevict >= 3 && nhit >= 3) nontrivial();
}
// some objects of size zero
Plan with_zeros(uint64_t s, uint64_t i, Plan p) {
  Rng r(mix(mix(s, i), 47)); if (p.get("sz") == "fixed" && !p.geti("tide") && r.chance(1, 5)) p.set("zeros", r.pickl<int>({2, 4, 9}));
  return p;
}
static Registrar h01({"H01", "history", [](uint64_t s, uint64_t i, bool t) { return with_zeros(s, i, gen_hist(s, i, t, nullptr, 0, (i / 7) % 3 == 0 ? 5 : 0, (i / 7) % 3 == 1 ? 5 : 0, 0)); }, run_hist, SIMPLER});
static Registrar h02({"H02", "history", [](uint64_t s, uint64_t i, bool t) { return with_zeros(s, i, gen_hist(s, i, t, nullptr, 0, (i / 7) % 3 == 0 ? 5 : 0, (i / 7) % 3 == 1 ? 5 : 0, 0)); }, run_hist, SIMPLER});
static Registrar h03({"H03", "history", [](uint64_t s, uint64_t i, bool t) { return with_zeros(s, i, gen_hist(s, i, t, nullptr, 0, (i / 7) % 3 == 0 ? 5 : 0, (i / 7) % 3 == 1 ? 5 : 0, 0)); }, run_hist, SIMPLER});
static Registrar h04({"H04", "history", [](uint64_t s, uint64_t i, bool t) { return with_zeros(s, i, gen_hist(s, i, t, nullptr, A_REMOVE, 12, (i / 7) % 3 == 1 ? 5 : 0, 0)); }, run_hist, SIMPLER});
static Registrar h05({"H05", "history", [](uint64_t s, uint64_t i, bool t) { return with_zeros(s, i, gen_hist(s, i, t, nullptr, 0, (i / 7) % 4 == 0 ? 3 : 0, 6, 10)); }, run_hist, SIMPLER});

// the further policies cachesim offers by name: one of H01-H04's judgements per run
static const std::vector<const char *> EXTRA = {"ARCv0", "LeCaRv0", "LFUCpp", "SLRUv0", "FIFO_Merge", "FIFO_Reinsertion", "flashProb", "LRU_Prob", "SFIFO", "S3LRU", "S3FIFOd", "nop",
"QDLP_ARC","QDLP_Clock2","QDLP_Clock3","QDLP_LeCaR","QDLP_Cacheus","QDLP_twoQ","QDLP_FIFO","QDLP_SLRU","QDLP_Hyperbolic","WTinyLFU_LFU","WTinyLFU_FIFO","WTinyLFU_ARC","WTinyLFU_clock","WTinyLFU_LeCaR","WTinyLFU_Hyperbolic","WTinyLFU_SIEVE","S3FIFOd_FIFO","S3FIFOd_clock","S3FIFOd_clock3","S3FIFOd_ARC","S3FIFOd_LeCaR","S3FIFOd_Cacheus","S3FIFOd_Hyperbolic"};
static Registrar h11({"H11", "history", [](uint64_t s, uint64_t i, bool t) { int which = 1 + (i / EXTRA.size()) % 4; Plan p = gen_hist(s, i, t, &EXTRA, which == 4 ? A_REMOVE : 0, which == 4 ? 12 : (i / 7) % 3 == 0 ? 5 : 0, (i / 7) % 3 == 1 ? 5 : 0, 0); p.set("which", which); p.set("md", 0); p.set("hp", p.geti("hp") + 4); if (p.get("sz") == "vary") p.set("sz", "fixed"); return with_zeros(s, i, p); }, run_hist, SIMPLER});
const std::vector<const char *> &extra_policies() { return EXTRA; }
