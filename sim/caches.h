// Table of the eviction algorithms under simulation and helpers to build caches.
#pragma once
#include <string>
#include <vector>
#include "core.h"
#include "libCacheSim.h"
#include "libCacheSim/evictionAlgo.h"
#include "libCacheSim/admissionAlgo.h"
#include "libCacheSim/prefetchAlgo.h"
#include "libCacheSim/plugin.h"
#include "libCacheSim/simulator.h"
#include "libCacheSim/dist.h"
#include "libCacheSim/profilerLRU.h"
#include "libCacheSim/sampling.h"
extern "C" void set_rand_seed(uint64_t);

typedef cache_t *(*CacheInit)(const common_cache_params_t, const char *);
enum AlgoCaps : unsigned {
  A_ORACLE = 1,      // needs next-access annotations
  A_OPAQUE = 2,      // find() returns an opaque non-null token, not an object
  A_PREVIEW = 4,     // to_evict() announces the next victim
  A_REMOVE = 8,      // user removal supported
  A_CONSERVE = 16,   // keeps everything while there is room
  A_RANDOM = 32,     // uses the library PRNG
  A_EVICT1 = 64,     // one evict() call removes exactly one object
  A_ADMIT = 128,     // a miss that can be inserted is resident afterwards
  A_VARSIZE = 256,   // object sizes other than 1 make sense
  A_DIRECTEVICT = 512, // evict() may be called by the user
  A_DROPNEVER = 2048,  // drops objects that are never requested again
  A_DOC = 1024,      // listed as supported in the documentation
  A_EXTRA = 4096,    // further policies that cachesim offers by name
};
struct Algo {
  const char *name;
  CacheInit init;
  unsigned caps;
  std::vector<const char *> params;  // nullptr = defaults
  int min_unit;                      // smallest sensible capacity, in objects
};
const std::vector<Algo> &algos();
// largest object (with metadata) the policy has to accept; larger ones may be declined
int64_t admit_limit(const Algo *a, const std::string &params, int64_t cap);
const Algo *algo_by_name(const std::string &n);
cache_t *make_cache(const Algo *a, uint64_t size, int hashpower, bool md, const char *params, uint64_t ttl = 0);
