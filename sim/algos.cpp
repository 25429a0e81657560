#include "caches.h"
static const unsigned STD = A_REMOVE | A_ADMIT | A_VARSIZE | A_DIRECTEVICT;
const std::vector<Algo> &algos() {
  static const std::vector<Algo> v = {
      {"FIFO", FIFO_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr}, 1},
      {"LRU", LRU_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr}, 1},
      {"MRU", MRU_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1, {nullptr}, 1},
      {"Clock", Clock_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr, "n-bit-counter=2", "n-bit-counter=3"}, 1},
      {"Sieve", Sieve_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr}, 1},
      {"LFU", LFU_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr}, 1},
      {"LFUDA", LFUDA_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr}, 1},
      {"GDSF", GDSF_init, STD | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr}, 1},
      {"Size", Size_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1, {nullptr}, 1},
      {"Belady", Belady_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_ORACLE | A_DOC, {nullptr}, 1},
      {"BeladySize", BeladySize_init, STD | A_EVICT1 | A_ORACLE | A_RANDOM | A_DROPNEVER | A_DOC, {nullptr, "n-sample=16"}, 1},
      {"ARC", ARC_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_DOC, {nullptr}, 4},
      {"SLRU", SLRU_init, STD | A_PREVIEW | A_EVICT1 | A_DOC, {nullptr, "n-seg=2", "seg-size=1:1:2"}, 12},
      {"TwoQ", TwoQ_init, STD | A_DOC, {nullptr, "Ain-size-ratio=0.5,Aout-size-ratio=0.3"}, 8},
      {"Random", Random_init, STD | A_CONSERVE | A_EVICT1 | A_RANDOM, {nullptr}, 1},
      {"RandomTwo", RandomTwo_init, STD | A_CONSERVE | A_EVICT1 | A_RANDOM, {nullptr}, 1},
      {"RandomLRU", RandomLRU_init, STD | A_CONSERVE | A_EVICT1 | A_RANDOM, {nullptr, "n-sample=4"}, 1},
      {"Hyperbolic", Hyperbolic_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_RANDOM | A_DOC, {nullptr, "n-sample=8"}, 1},
      {"LeCaR", LeCaR_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_RANDOM | A_DOC, {nullptr, "update-weight=0", "lru-weight=0.9"}, 2},
      {"Cacheus", Cacheus_init, (STD & ~A_ADMIT) | A_RANDOM | A_DOC, {nullptr}, 8},
      {"LHD", LHD_init, STD | A_PREVIEW | A_CONSERVE | A_EVICT1 | A_RANDOM | A_OPAQUE | A_DOC, {nullptr}, 4},
      {"WTinyLFU", WTinyLFU_init, STD | A_DOC, {nullptr, "main-cache=LRU,window-size=0.1", "main-cache=SLRU,window-size=0.2"}, 20},
      {"QDLP", QDLP_init, STD | A_DOC, {nullptr, "fifo-size-ratio=0.2,main-cache=LRU", "fifo-size-ratio=0.3,main-cache=Sieve,move-to-main-threshold=1"}, 20},
      {"S3FIFO", S3FIFO_init, STD | A_DOC, {nullptr, "fifo-size-ratio=0.25,ghost-size-ratio=0.5,move-to-main-threshold=1", "fifo-size-ratio=0.4"}, 20},
      {"GLCache", GLCache_init, A_ADMIT | A_VARSIZE | A_DIRECTEVICT | A_DOC | A_RANDOM, {"segment-size=8,n-merge=2,rank-intvl=0.05,retrain-intvl=86400,type=learned"}, 60},
      // further policies that cachesim (or the library) offers by name
#define X(n, caps, ...) {#n, n##_init, (caps) | A_EXTRA, {nullptr, ##__VA_ARGS__}, 20}
      X(ARCv0, STD), X(LeCaRv0, STD | A_RANDOM), X(LFUCpp, STD), X(SLRUv0, STD, "n-seg=2", "n-seg=5"),
      X(FIFO_Merge, STD | A_RANDOM, "n-exam=8,n-keep=3", "n-exam=10,n-keep=2,retain-policy=recency", "n-exam=6,retain-policy=none", "n-exam=9,n-keep=2,retain-policy=belady"), X(FIFO_Reinsertion, STD | A_RANDOM, "n-exam=8,n-keep=3", "n-exam=10,n-keep=2,retain-policy=freq", "n-exam=6,retain-policy=none", "n-exam=9,n-keep=2,retain-policy=belady"),
      X(flashProb, STD | A_RANDOM, "ram-size-ratio=0.2,disk-admit-prob=0.6,disk-cache=Clock"), X(LRU_Prob, STD | A_RANDOM, "prob=0.2", "prob=1"), X(SFIFO, STD, "n-seg=2", "n-seg=5"),
      X(S3LRU, STD, "LRU-size-ratio=0.3,promote-on-hit=0,main-cache=Clock2", "LRU-size-ratio=0.2,ghost-size-ratio=0.5,move-to-main-threshold=2"), X(S3FIFOd, STD, "fifo-size-ratio=0.3,main-cache=LRU", "fifo-size-ratio=0.2,main-cache=Sieve,move-to-main-threshold=2"),
      {"QDLP_ARC", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=ARC"}, 20},
      {"QDLP_Clock2", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=Clock2"}, 20},
      {"QDLP_Clock3", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=Clock3"}, 20},
      {"QDLP_LeCaR", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=LeCaR"}, 20},
      {"QDLP_Cacheus", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=Cacheus"}, 20},
      {"QDLP_twoQ", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=twoQ"}, 20},
      {"QDLP_FIFO", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=FIFO"}, 20},
      {"QDLP_SLRU", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=SLRU"}, 20},
      {"QDLP_Hyperbolic", QDLP_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=Hyperbolic"}, 20},
{"WTinyLFU_LFU", WTinyLFU_init, STD | A_RANDOM | A_EXTRA, {"main-cache=LFU,window-size=0.2"}, 20},
{"WTinyLFU_FIFO", WTinyLFU_init, STD | A_RANDOM | A_EXTRA, {"main-cache=FIFO,window-size=0.2"}, 20},
{"WTinyLFU_ARC", WTinyLFU_init, STD | A_RANDOM | A_EXTRA, {"main-cache=ARC,window-size=0.2"}, 20},
{"WTinyLFU_clock", WTinyLFU_init, STD | A_RANDOM | A_EXTRA, {"main-cache=clock,window-size=0.2"}, 20},
{"WTinyLFU_LeCaR", WTinyLFU_init, STD | A_RANDOM | A_EXTRA, {"main-cache=LeCaR,window-size=0.2"}, 20},
{"WTinyLFU_Hyperbolic", WTinyLFU_init, STD | A_RANDOM | A_EXTRA, {"main-cache=Hyperbolic,window-size=0.2"}, 20},
{"WTinyLFU_SIEVE", WTinyLFU_init, STD | A_RANDOM | A_EXTRA, {"main-cache=SIEVE,window-size=0.2"}, 20},
      {"S3FIFOd_FIFO", S3FIFOd_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=FIFO"}, 20},
      {"S3FIFOd_clock", S3FIFOd_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=clock"}, 20},
      {"S3FIFOd_clock3", S3FIFOd_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=clock3"}, 20},
      {"S3FIFOd_ARC", S3FIFOd_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=ARC"}, 20},
      {"S3FIFOd_LeCaR", S3FIFOd_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=LeCaR"}, 20},
      {"S3FIFOd_Cacheus", S3FIFOd_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=Cacheus"}, 20},
      {"S3FIFOd_Hyperbolic", S3FIFOd_init, STD | A_RANDOM | A_EXTRA, {"fifo-size-ratio=0.3,main-cache=Hyperbolic"}, 20},
      X(nop, STD & ~A_ADMIT),
  };
  return v;
}
const Algo *algo_by_name(const std::string &n) {
  for (auto &a : algos()) if (n == a.name) return &a;
  return nullptr;
}
int64_t admit_limit(const Algo *a, const std::string &ps, int64_t cap) {
  std::string n = a->name;
  auto num = [&](const char *k, double d) { size_t i = ps.find(k); return i == std::string::npos ? d : atof(ps.c_str() + i + strlen(k)); };
  double f = 1; auto is = [&](const char *k) { return n == k || n.rfind(std::string(k) + "_", 0) == 0; };
  if (n == "SLRU") f = ps.find("seg-size=1:1:2") != std::string::npos ? 0.25 : 1 / num("n-seg=", 4);
  else if (n == "QDLP_SLRU" || n == "QDLP_twoQ") f = .17;
  else if (n == "TwoQ") f = num("Ain-size-ratio=", 0.25);
  else if (n == "S3FIFO" || is("QDLP") || is("S3FIFOd")) f = num("fifo-size-ratio=", 0.1);
  else if (n == "SLRUv0" || n == "SFIFO") f = 1 / num("n-seg=", 4);
  else if (n == "S3LRU") f = num("LRU-size-ratio=", 0.1);
  else if (n == "flashProb") f = num("ram-size-ratio=", 0.05);
  else if (is("WTinyLFU")) { double w = num("window-size=", 0.01); f = ps.find("main-cache=LRU") != std::string::npos ? w : std::min(w, (1 - w) * 0.2); }
  return f == 1 ? cap : (int64_t)(cap * f) - 2;
}
cache_t *make_cache(const Algo *a, uint64_t size, int hp, bool md, const char *params, uint64_t ttl) {
  common_cache_params_t cc = default_common_cache_params();
  cc.cache_size = size; cc.hashpower = hp; cc.default_ttl = ttl; cc.consider_obj_metadata = md;
  return a->init(cc, params && *params ? params : nullptr);
}
