#pragma once
#include <set>
#include "caches.h"
// One cache driven by a seeded history of client operations.
struct World {
  const dst::Plan &p;
  const Algo *A;
  cache_t *c = nullptr;
  request_t *req, *q;
  int U;
  int64_t md = 0, now = 0, nget = 0;
  std::string szmode;
  int64_t szmax; bool tide = false;
  std::vector<int64_t> nxt;       // next-access annotation of each get
  std::vector<int64_t> insz;      // size at (last) insertion
  explicit World(const dst::Plan &p);
  ~World();
  int64_t size_of(int obj, int64_t opsize) const;
  void build();                   // create the cache (seeds the library PRNG)
  void fill(request_t *r, int obj, int64_t size);
  bool get(int obj, int64_t size, int64_t dt);
  bool resident(int obj, int64_t *sz = nullptr);
  bool resident_md(int obj) { return resident(obj); }
  std::vector<char> snapshot(int64_t *sum, int *n);
  bool insertable(int64_t size) const { return size + md <= c->cache_size; }
};
uint64_t obj_key(const dst::Plan &p, int obj);
dst::Plan gen_hist(uint64_t seed, uint64_t idx, bool thorough, const std::vector<const char *> *only, unsigned need, int mixrm, int mixev, int mixpv);
dst::Plan with_zeros(uint64_t seed, uint64_t idx, dst::Plan p);  // some objects of size zero
