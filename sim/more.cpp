// H07 repeatability, H08 clones, H09 admission
#include <cmath>
#include "hist.h"
using namespace dst;
struct Trk { std::vector<uint64_t> h; };  // outcome of each step
static bool usable(const World &w, const Op &op) { return op.is("g") || (op.is("r") && (w.A->caps & A_REMOVE)) || (op.is("e") && (w.A->caps & A_DIRECTEVICT)); }
// one operation; returns everything a client can observe of it
static uint64_t stepop(World &w, cache_t *c, const Op &op) {
  int o = op.a[0] % w.U; int64_t z = w.size_of(o, op.a[1]); uint64_t r = 0;
  cache_t *save = w.c; w.c = c;
  if (op.is("g")) r = w.get(o, z, op.a[2]);
  else if (op.is("r")) r = c->remove(c, obj_key(w.p, o));
  else if (op.is("e")) { if (c->get_n_obj(c) > 0) { w.fill(w.q, 0, 1); request_t *q = clone_request(w.q); c->evict(c, q); free_request(q); } }
  w.c = save;
  return mix(mix(r + 1, c->get_n_obj(c)), c->get_occupied_byte(c));
}
static uint64_t resid(World &w, cache_t *c) {
  cache_t *save = w.c; w.c = c; auto v = w.snapshot(nullptr, nullptr); w.c = save;
  uint64_t h = 1; for (char x : v) h = mix(h, x); return h;
}
static Plan other(const Plan &p) {
  static const std::vector<const char *> all = {"FIFO", "LRU", "MRU", "Clock", "Sieve", "LFU", "LFUDA", "GDSF", "Size", "Belady", "ARC", "SLRU", "TwoQ", "WTinyLFU", "QDLP", "S3FIFO"};
  return gen_hist(p.geti("bseed"), p.geti("bidx"), false, &all, 0, 4, 4, 0);
}
static uint64_t whole(World &w, cache_t *c, std::vector<uint64_t> *t, const char *what) {
  int i = 0; for (auto &op : w.p.ops) {
    step_budget(w.A->caps & A_OPAQUE ? 400000000 : 40000000, "no-progress", w.A->name);
    note("%s %s op %d %s", w.A->name, what, i++, op.k);
    if (!usable(w, op)) continue; t->push_back(stepop(w, c, op));
  }
  t->push_back(resid(w, c)); return 0;
}
static void cmp(const char *cls, const World &w, const std::vector<uint64_t> &a, const std::vector<uint64_t> &b, const char *what) {
  for (size_t i = 0; i < a.size(); i++) if (i >= b.size() || a[i] != b[i]) {
    if (i + 1 == a.size()) violate(cls, w.A->name, "%s: different objects are cached at the end", what);
    violate(cls, w.A->name, "%s: different outcome at step %zu of %zu", what, i, a.size() - 1);
  }
}
static void noise(const Plan &p, int n) {
  Plan b = other(p); World v(b); v.build(); int k = 0; std::vector<uint64_t> t;
  for (auto &op : b.ops) { if (k++ >= n) break; if (usable(v, op)) stepop(v, v.c, op); }
  v.c->cache_free(v.c);
}
static void run07(const Plan &p) {
  World w(p); const char *an = w.A->name; std::vector<uint64_t> a, b;
  w.build(); whole(w, w.c, &a, "first run"); w.c->cache_free(w.c);
  int mode = p.geti("mode");
  if (mode != 1) {  // again, later in the process, with other memory contents, addresses and clock
    if (p.geti("noise", 1)) noise(p, 60);
    mem_set_seed(p.geti("mem2", 77)); clock_set(p.geti("clk2", 5), 1800000000 + p.geti("clk2", 5) * 7919);
    w.build(); whole(w, w.c, &b, "repeated run");
    cmp("not-repeatable", w, a, b, "same history, same seed, run twice in one process"); w.c->cache_free(w.c);
  } else {  // next to another cache whose requests are interleaved
    Plan q = other(p); World v(q); std::vector<uint64_t> va, vb; v.build(); whole(v, v.c, &va, "alone"); v.c->cache_free(v.c);
    mem_set_seed(p.geti("mem2", 77));
    v.build(); w.build(); Rng r(p.geti("mixseed", 1)); size_t i = 0, j = 0;
    while (i < p.ops.size() || j < q.ops.size()) {
      step_budget(w.A->caps & A_OPAQUE ? 400000000 : 40000000, "no-progress", an);
      bool first = j >= q.ops.size() || (i < p.ops.size() && r.chance(p.ops.size() + 1, p.ops.size() + q.ops.size() + 2));
      note("%s interleaved with %s, op %zu/%zu", an, v.A->name, i, j);
      if (first) { if (usable(w, p.ops[i])) b.push_back(stepop(w, w.c, p.ops[i])); i++; }
      else { if (usable(v, q.ops[j])) vb.push_back(stepop(v, v.c, q.ops[j])); j++; }
    }
    b.push_back(resid(w, w.c)); vb.push_back(resid(v, v.c));
    cmp("caches-interfere", w, a, b, "interleaved with another cache"); cmp("caches-interfere", v, va, vb, "interleaved with another cache");
    w.c->cache_free(w.c); v.c->cache_free(v.c); count("probe.interleaved");
  }
  count((std::string("algo.") + an).c_str()); for (auto x : a) { ev(x); state(mix(hstr(an, strlen(an)), x)); }
  if (a.size() > 10) nontrivial();
}
static Plan gen07(uint64_t s, uint64_t i, bool t) {
  Plan p = gen_hist(s, i, t, nullptr, 0, i % 4 == 1 ? 6 : 0, i % 4 == 2 ? 6 : 0, 0); if (i % 4 != 2) p = with_zeros(s, i, p); Rng r(mix(mix(s, i), 707));
  const Algo *A = algo_by_name(p.get("algo"));
  p.set("mode", (A->caps & A_RANDOM) ? 0 : r.below(2)); p.set("bseed", r.below(1 << 20)); p.set("bidx", r.below(1 << 20));
  p.set("mem2", 1 + r.below(1 << 20)); p.set("clk2", r.below(1000)); p.set("mixseed", r.below(1 << 20)); p.set("clkseed", r.below(3) ? r.below(1000) : 0);
  return p;
}
static const std::vector<std::pair<std::string, std::vector<std::string>>> SIMPLE = {{"sz", {"unit", "fixed"}}, {"md", {"0"}}, {"idmode", {"0"}}, {"t0", {"0"}}, {"noise", {"0"}}, {"warm", {"0"}}, {"adm", {"none", "size"}}, {"size", {"2", "3", "4", "5", "8", "10", "16", "20"}}, {"U", {"3", "4", "6", "10", "20"}}, {"params", {""}}};
static Registrar h07({"H07", "repeat", gen07, run07, SIMPLE});

static admissioner_t *mk_adm(const Plan &p) {
  std::string a = p.get("adm", "none"), g = p.get("admarg");
  if (a == "size") return create_size_admissioner(g.c_str());
  if (a == "prob") return create_prob_admissioner(g.c_str());
  if (a == "bloom") return create_bloomfilter_admissioner(NULL);
  return nullptr;
}
static void run08(const Plan &p) {
  World w(p); const char *an = w.A->name; int64_t size = p.geti("size"), ns = p.geti("newsize", size); bool resize = p.geti("resize"); std::vector<uint64_t> fresh, clo, solo, cont; size_t warm = p.geti("warm");
  auto reset = [&] { w.now = p.geti("t0"); w.nget = 0; };
  // the original alone: warm-up, then the rest
  w.build(); if (auto *a = mk_adm(p)) w.c->admissioner = a;
  auto part = [&](cache_t *c, size_t from, size_t to, std::vector<uint64_t> *t) {
    for (size_t i = from; i < to && i < p.ops.size(); i++) { step_budget(w.A->caps & A_OPAQUE ? 400000000 : 40000000, "no-progress", an); if (usable(w, p.ops[i])) { uint64_t h = stepop(w, c, p.ops[i]); if (t) t->push_back(h); } }
  };
  bool rnd = (w.A->caps & A_RANDOM) || p.get("adm") == "prob";
  note("%s original alone", an);
  part(w.c, 0, warm, nullptr); if (!rnd) { part(w.c, warm, p.ops.size(), &solo); solo.push_back(resid(w, w.c)); }
  w.c->cache_free(w.c);
  // a cache made from scratch with the target size
  set_rand_seed(p.geti("rngseed", 1));
  cache_t *f = make_cache(w.A, resize ? ns : size, p.geti("hp", 8), p.geti("md"), p.get("params").c_str(), p.geti("ttl"));
  if (auto *a = mk_adm(p)) f->admissioner = a;
  reset(); note("%s fresh", an); set_rand_seed(p.geti("rngseed", 1)); part(f, 0, p.ops.size(), &fresh); fresh.push_back(resid(w, f));
  uint64_t fsz = f->cache_size; int fmd = f->obj_md_size; std::string fname = f->cache_name; uint64_t fttl = f->default_ttl;
  f->cache_free(f);
  // the clone of a used cache
  mem_set_seed(p.geti("mem2", 77));
  w.build(); w.c->default_ttl = p.geti("ttl"); if (auto *a = mk_adm(p)) w.c->admissioner = a;
  note("%s warm-up of the original", an); part(w.c, 0, warm, nullptr); int64_t now1 = w.now, ng1 = w.nget;
  uint64_t r0 = resid(w, w.c); int64_t n0 = w.c->get_n_obj(w.c), b0 = w.c->get_occupied_byte(w.c);
  note("%s clone", an);
  set_rand_seed(p.geti("rngseed", 1));
  cache_t *d = resize ? create_cache_with_new_size(w.c, ns) : clone_cache(w.c);
  if (!d) violate("no-clone", an, "no cache returned");
  if (d->get_n_obj(d) || d->get_occupied_byte(d)) violate("clone-not-empty", an, "a clone starts with %ld objects and %ld bytes", (long)d->get_n_obj(d), (long)d->get_occupied_byte(d));
  if ((uint64_t)d->cache_size != fsz || (int)d->obj_md_size != fmd || d->default_ttl != fttl || fname != d->cache_name)
    violate("clone-config", an, "a clone has size %ld metadata %d ttl %ld name %s, a fresh cache %ld %d %ld %s", (long)d->cache_size, (int)d->obj_md_size, (long)d->default_ttl, d->cache_name, (long)fsz, fmd, (long)fttl, fname.c_str());
  reset(); note("%s run of the clone", an); set_rand_seed(p.geti("rngseed", 1));
  cache_t *orig = w.c;
  if (p.geti("early")) orig->cache_free(orig);  // a clone does not need the original any more
  part(d, 0, p.ops.size(), &clo); clo.push_back(resid(w, d));
  cmp(resize ? "resized-differs" : "clone-differs", w, fresh, clo, resize ? "cache created with a new size, compared with one made from scratch" : "clone, compared with a cache made from scratch");
  if (!p.geti("early")) {
    if (resid(w, orig) != r0 || orig->get_n_obj(orig) != n0 || orig->get_occupied_byte(orig) != b0) violate("original-changed", an, "running the clone changed the original");
    if (!rnd) {
      w.now = now1; w.nget = ng1; note("%s original goes on", an); part(orig, warm, p.ops.size(), &cont); cont.push_back(resid(w, orig));
      cmp("original-changed", w, solo, cont, "original continued after its clone was used");
    }
    orig->cache_free(orig);
  }
  d->cache_free(d);
  count((std::string("algo.") + an).c_str()); count(resize ? "probe.resized" : "probe.cloned"); for (auto x : clo) { ev(x); state(mix(hstr(an, strlen(an)), x)); }
  if (clo.size() > 10) nontrivial();
}
static void gen_adm(Plan &p, Rng &r, bool none) {
  int64_t sm = p.get("sz") == "unit" ? 1 : p.geti("szmax", 50);
  int k = r.below(none ? 4 : 3);
  if (k == 0) { p.set("adm", "size"); p.set("admarg", "size=" + std::to_string(r.pickl<int64_t>({1, 2, sm / 2 + 1, sm, sm + 1, 1000000}))); }
  if (k == 1) { p.set("adm", "prob"); p.set("admarg", std::string("prob=") + r.pickl<const char *>({"0.5", "0.1", "0.9", "1", "0.01"})); }
  if (k == 2) p.set("adm", "bloom");
}
static Plan gen08(uint64_t s, uint64_t i, bool t) {
  Plan p = gen_hist(s, i, t, nullptr, 0, i % 4 == 1 ? 6 : 0, i % 4 == 2 ? 6 : 0, 0); if (i % 4 != 2) p = with_zeros(s, i, p); Rng r(mix(mix(s, i), 808));
  const Algo *A = algo_by_name(p.get("algo"));
  if (r.chance(2, 3)) gen_adm(p, r, false);
  if (A->caps & A_RANDOM) p.set("hp", 11);  // sampling walks the hash table, whose size a clone inherits
  p.set("resize", r.below(2)); int64_t z = p.geti("size");
  p.set("newsize", r.pickl<int64_t>({z, z + 1, z * 2, z * 3, A->min_unit == 1 ? std::max<int64_t>(1, z / 2) : z * 2}));
  p.set("warm", r.below(p.ops.size() + 1)); p.set("early", r.chance(1, 4)); p.set("mem2", 1 + r.below(1 << 20)); p.set("ttl", r.chance(1, 3) ? r.below(1000) : 0);
  return p;
}
static Registrar h08({"H08", "clone", gen08, run08, SIMPLE});

static void run09(const Plan &p) {
  World w(p); const char *an = w.A->name; std::string adm = p.get("adm"); std::vector<uint64_t> t0, t1;
  bool all = p.geti("all");
  if (all) { w.build(); note("%s without admission", an); whole(w, w.c, &t0, "without admission"); w.c->cache_free(w.c); }
  w.build(); w.c->admissioner = mk_adm(p); cache_t *c = w.c;
  if (all) { whole(w, c, &t1, "with admission of everything"); cmp("admit-all-differs", w, t0, t1, "admission control that accepts everything, compared with none"); c->cache_free(c); nontrivial(); count("probe.admit_all"); return; }
  int64_t thr = adm == "size" ? atoll(p.get("admarg").c_str() + 5) : 0; double pr = adm == "prob" ? atof(p.get("admarg").c_str() + 5) : 0;
  std::vector<int> seen(w.U); std::vector<char> b = w.snapshot(nullptr, nullptr), a; int i = 0, gi = 0; int64_t tries = 0, ok = 0, nrej = 0, nacc = 0;
  std::string key = std::string(an) + "/" + adm;
  for (auto &op : p.ops) {
    step_budget(w.A->caps & A_OPAQUE ? 400000000 : 40000000, "no-progress", an);
    note("%s/%s op %d %s", an, adm.c_str(), i, op.k);
    if (!usable(w, op)) { i++; continue; }
    int o = op.a[0] % w.U; int64_t z = w.size_of(o, op.a[1]);
    if (op.is("g")) {
      bool never = (w.A->caps & A_DROPNEVER) && w.nxt[gi] == MAX_REUSE_DISTANCE; gi++;
      bool must = w.insertable(z) && z + w.md <= admit_limit(w.A, p.get("params"), c->cache_size) && (w.A->caps & A_ADMIT) && !never;
      bool hit = w.get(o, z, op.a[2]); a = w.snapshot(nullptr, nullptr); seen[o]++;
      if (hit != (bool)b[o]) violate("outcome", key, "op %d: get(obj %d) reported %s", i, o, hit ? "hit" : "miss");
      bool want = adm == "size" ? z < thr : adm == "bloom" ? seen[o] > 1 : true;
      if (!b[o]) {
        if (a[o] && !want) violate("admitted", key, "op %d: obj %d (size %ld, request %d of it) became resident although the %s admission rule rejects it", i, o, (long)z, seen[o], adm.c_str());
        if (adm != "prob" && want && must && !a[o]) violate("rejected", key, "op %d: obj %d (size %ld, request %d of it) is not resident although the %s admission rule accepts it", i, o, (long)z, seen[o], adm.c_str());
        if (adm == "prob" && pr >= 1 && must && !a[o]) violate("rejected", key, "op %d: obj %d not resident although everything is admitted", i, o);
        if (adm == "prob" && must) { tries++; ok += a[o]; }
        if (!a[o] && !never) { nrej++; for (int k = 0; k < w.U; k++) if (a[k] != b[k]) violate("reject-sideeffect", key, "op %d: rejecting obj %d changed residency of obj %d (%d -> %d)", i, o, k, b[k], a[k]); }
        else nacc++;
      } 
    } else { stepop(w, c, op); a = w.snapshot(nullptr, nullptr); }
    uint64_t h = hstr(key); for (int k = 0; k < w.U; k++) { h = mix(h, a[k]); if (a[k] && !b[k] && !(op.is("g") && k == o)) violate("phantom", key, "op %d: obj %d became resident", i, k); }
    ev(h); state(h); b = a; i++;
  }
  if (adm == "prob" && tries >= 40) {
    double e = pr * tries, sd = sqrt(tries * pr * (1 - pr));
    if (fabs(ok - e) > 7 * sd + 4) violate("probability", key, "%ld of %ld offered objects admitted with probability %g", (long)ok, (long)tries, pr);
    count("probe.prob_checked");
  }
  c->cache_free(c); count((std::string("algo.") + an).c_str()); count((std::string("adm.") + adm).c_str()); count("probe.rejected", nrej); count("probe.admitted", nacc);
  if (nrej && nacc > 1) nontrivial();
}
static Plan gen09(uint64_t s, uint64_t i, bool t) {
  Plan p = gen_hist(s, i, t, nullptr, 0, i % 4 == 1 ? 6 : 0, i % 4 == 2 ? 4 : 0, 0); Rng r(mix(mix(s, i), 909));
  gen_adm(p, r, false); const Algo *A = algo_by_name(p.get("algo"));
  if (r.chance(1, 5)) { p.set("all", 1); if (r.chance(1, 2) && !(A->caps & A_RANDOM)) { p.set("adm", "prob"); p.set("admarg", "prob=1"); } else { p.set("adm", "size"); p.set("admarg", "size=1000000000000000"); } }
  return p;
}
static Registrar h09({"H09", "admission", gen09, run09, {{"sz", {"unit", "fixed"}}, {"md", {"0"}}, {"idmode", {"0"}}, {"t0", {"0"}}, {"size", {"2", "3", "4", "5", "8", "10", "16", "20"}}, {"U", {"3", "4", "6", "10", "20"}}, {"params", {""}}}});
