// H14: a client that uses the lower-level calls gets the cache that get() makes
#include "hist.h"
using namespace dst;
// one request made of the documented lower-level calls
static bool by_parts(World &w, int i, int o, int64_t z, int64_t dt, bool was) {
  cache_t *c = w.c; const char *an = w.A->name; bool opaque = w.A->caps & A_OPAQUE;
  w.now += dt; w.fill(w.req, o, z);
  w.req->next_access_vtime = w.nget < (int64_t)w.nxt.size() ? w.nxt[w.nget] : MAX_REUSE_DISTANCE;
  w.nget++; w.req->n_req = w.nget;
  c->n_req++;
  cache_obj_t *f = c->find(c, w.req, true);
  if (f) {
    if (!was) violate("find-phantom", an, "op %d: find(obj %d) returned an object that was not resident", i, o);
    bool last = (w.A->caps & A_DROPNEVER) && w.req->next_access_vtime == MAX_REUSE_DISTANCE;
    if (!opaque && f->obj_id != w.req->obj_id) violate(last ? "find-last" : "find-other", an, "op %d: find(obj %d) returned an object with identifier %lu instead of %lu", i, o, (unsigned long)f->obj_id, (unsigned long)w.req->obj_id);
    if (!opaque && w.szmode != "vary" && (int64_t)f->obj_size != z) violate("find-size", an, "op %d: find(obj %d) returned an object of size %ld instead of %ld", i, o, (long)f->obj_size, (long)z);
    return true;
  }
  if (was) violate("find-missed", an, "op %d: find(obj %d) returned nothing but the object was resident", i, o);
  if (!c->can_insert(c, w.req)) { count("probe.declined"); return false; }
  int64_t guard = 0;
  while (c->get_occupied_byte(c) + z + w.md > c->cache_size) { c->evict(c, w.req); if (++guard > 4 * w.U + 100) violate("no-progress", an, "op %d: %ld evictions did not make room for %ld bytes", i, (long)guard, (long)z); }
  cache_obj_t *n = c->insert(c, w.req);
  if (!opaque && n && (n->obj_id != w.req->obj_id || (int64_t)n->obj_size != z)) violate("insert-other", an, "op %d: insert(obj %d size %ld) returned an object with another identifier or size %ld", i, o, (long)z, (long)n->obj_size);
  bool in = w.resident(o);
  static const char *TWO[] = {"LHD", "Cacheus", "LeCaRv0"};  // keep no single object that could be returned
  bool two = false; for (auto t : TWO) two |= !strcmp(an, t);
  if (n ? !in : in && !two) violate(n ? "insert-claims" : "insert-denies", an, "op %d: insert(obj %d) returned %s but the object is %s afterwards", i, o, n ? "an object" : "nothing", in ? "resident" : "not resident");
  count("probe.inserts");
  return false;
}
static void run14(const Plan &p) {
  struct Step { bool hit; std::vector<char> in; int64_t occ, n; };
  std::vector<Step> ref; World w(p); const char *an = w.A->name; int mode = p.geti("mode", 1);
  int nhit = 0, nev = 0;
  for (int pass = 0; pass < 2; pass++) {
    w.build(); cache_t *c = w.c; size_t k = 0; int i = 0; std::vector<char> prev = w.snapshot(nullptr, nullptr);
    for (auto &op : p.ops) {
      step_budget(w.A->caps & A_OPAQUE ? 400000000 : 20000000, "no-progress", an);
      note("%s pass %d op %d %s %ld", an, pass, i, op.k, (long)op.a[0]);
      int o = op.a[0] % w.U; bool hit = false;
      if (op.is("g")) {
        int64_t z = w.size_of(o, op.a[1]);
        // mode 1: every request by parts; 2: every second; 3: those of every second object
        bool parts = pass == 1 && (mode == 1 || (mode == 2 ? i & 1 : o & 1));
        hit = parts ? by_parts(w, i, o, z, op.a[2], prev[o]) : w.get(o, z, op.a[2]);
      } else if (op.is("r")) c->remove(c, obj_key(p, o));
      else { i++; continue; }
      std::vector<char> now = w.snapshot(nullptr, nullptr); int64_t occ = c->get_occupied_byte(c), n = c->get_n_obj(c);
      if (pass == 0) { ref.push_back({hit, now, occ, n}); nhit += hit; for (int j = 0; j < w.U; j++) nev += prev[j] && !now[j]; }
      else {
        Step &s = ref[k]; ev(7, hit, o);
        if (s.hit != hit) violate("parts-hit", an, "op %d (%s obj %d): %s with the lower-level calls, %s with get", i, op.k, o, hit ? "hit" : "miss", s.hit ? "hit" : "miss");
        for (int j = 0; j < w.U; j++) if (s.in[j] != now[j]) violate("parts-resident", an, "op %d (%s obj %d): obj %d is %s with the lower-level calls, %s with get", i, op.k, o, j, now[j] ? "resident" : "absent", s.in[j] ? "resident" : "absent");
        if (s.occ != occ || s.n != n) violate("parts-counts", an, "op %d (%s obj %d): %ld objects in %ld bytes with the lower-level calls, %ld in %ld with get", i, op.k, o, (long)n, (long)occ, (long)s.n, (long)s.occ);
        uint64_t sh = hstr(an, strlen(an)); for (int j = 0; j < w.U; j++) sh = mix(sh, now[j]); state(sh);
      }
      prev = now; k++; i++;
    }
    c->cache_free(c);
  }
  count((std::string("algo.") + an).c_str());
  if (nhit >= 3 && nev >= 3) nontrivial();
}
static Plan gen14(uint64_t s, uint64_t i, bool t) {
  extern const std::vector<const char *> &extra_policies();
  bool ex = i % 3 == 2;
  Plan p = gen_hist(s, ex ? i / 3 : i, t, ex ? &extra_policies() : nullptr, 0, (i / 7) % 3 == 0 ? 5 : 0, 0, 0); p = with_zeros(s, i, p);
  if (ex) { p.set("md", 0); p.set("hp", p.geti("hp") + 4); if (p.get("sz") == "vary") p.set("sz", "fixed"); }
  if (p.get("algo") == "GLCache" || p.get("algo") == "Cacheus") { p.set("algo", "S3FIFO"); p.set("params", ""); }  // their get() also learns
  p.set("mode", 1 + (int)(mix(s, i) % 3));
  return p;
}
static Registrar h14({"H14", "parts", gen14, run14, {{"mode", {"1"}}, {"tide", {"0"}}, {"sz", {"unit", "fixed"}}, {"md", {"0"}}, {"hp", {"8"}}, {"idmode", {"0"}}, {"t0", {"0"}}, {"params", {""}}}});
