// Plans of trace files shared by the scenarios that read traces.
#pragma once
#include <errno.h>
#include <math.h>
#include <algorithm>
#include <unordered_map>
#include "trace.h"
using namespace dst;
namespace {
static const char *ALLF[] = {"og", "ogns", "III", "IQI", "IQQ", "IQIBH", "valpin", "vscsi1", "vscsi2", "twr", "twrns", "lcs", "bin", "csv", "txt", "cf1", "ocf1", "akamai", "oakamai", "wiki16u", "wiki19u", "wiki19t", "owiki16u", "owiki19u", "simtwrns", "systwrns"};
static bool is_text(const std::string &f) { return f == "csv" || f == "txt"; }
static bool zst_ok(const std::string &f) { return !is_text(f) && f != "lcs" && f != "bin" && f != "vscsi1" && f != "vscsi2"; }
static const std::vector<std::pair<std::string, std::vector<std::string>>> SIMP = {
    {"chunk", {"0"}}, {"zst", {"0"}}, {"frames", {"1"}}, {"rep", {"1"}}, {"t0", {"0"}}, {"idmode", {"0"}}, {"sz", {"unit", "fixed"}}, {"noeol", {"0"}}, {"tail", {"0", "1"}}, {"binfmt", {"1"}}, {"crlf", {"0"}}, {"csvheader", {"0"}}, {"csvcols", {"0"}}, {"blank", {"0"}}, {"idstr", {"0"}}, {"idpre", {"0"}}, {"tsfmt", {"0"}}, {"narrow", {"0"}}, {"memseed", {"1"}}, {"U", {"3", "10"}}};

// requests of the plan, stretched to the range of the format
static Trace want_of(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = plan_trace(p, "q");
  int rep = p.geti("rep", 1); size_t n = t.size();
  for (int k = 1; k < rep; k++) for (size_t i = 0; i < n; i++) t.push_back(t[i]);
  for (auto &r : t) {
    if (p.geti("wide")) {
      r.id = mix(p.geti("idseed"), r.id) | 1; if (f == "bin" || f == "lcs") r.id &= ~0ULL;
      uint64_t h = mix(r.id, 5);
      if (f == "IQQ" || f == "cf1" || f == "csv") r.size += (int64_t)(h % (1LL << 40)); else if (f == "twr" || f == "twrns") r.size += h % (1 << 21); else if (f == "systwrns") r.size += h % (1u << 30); else if (f != "txt" && f != "valpin") r.size = (r.size + h) % 4294967295ULL + 1;
    }
    if (p.geti("zeros") && mix(r.id, r.t) % 4 == 0) r.size = 0;
    if (f == "bin" || f == "lcs" || f == "twr" || f == "twrns" || f == "IQIBH" || f == "ogns" || f == "systwrns") { r.op = 1 + mix(r.id, r.size) % 10; r.ns = mix(r.id, 9) & 0x7fff; r.ttl = mix(r.id, 77) & 0xffffff; }
    if (f == "cf1" || f == "ocf1" || f == "simtwrns") { r.ttl = mix(r.id, 77) & 0xffffff; r.ns = mix(r.id, 9) & 0x7fff; }
  }
  if (p.geti("narrow")) fit_layout(p, t);
  annotate(t);
  return t;
}
static std::string path_of(const Plan &p) { return "t." + p.get("fmt") + (p.geti("zst") ? ".zst" : ""); }
static std::string bytes_of(const Plan &p, const Trace &t) {
  std::string s = encode(p.get("fmt"), t, p);
  if (p.geti("zst")) { Rng r(p.geti("zseed", 1)); s = zstd_pack(s, r, p.geti("frames", 1)); }
  return s;
}
static std::string showr(const Rq &r) { char b[160]; snprintf(b, sizeof b, "(t=%ld id=%lu size=%ld next=%ld op=%d ns=%d ttl=%d)", (long)r.t, (unsigned long)r.id, (long)r.size, (long)r.next, r.op, r.ns, r.ttl); return b; }
struct Ids { std::unordered_map<uint64_t, uint64_t> f, g; };   // string ids: names <-> numbers must be one to one
// empty when the delivered request is the expected one
static std::string differs(const Plan &p, const request_t *q, const Rq &w, Ids *ids) {
  std::string f = p.get("fmt"); char b[300]; b[0] = 0;
  if (!q->valid) return "the request is marked invalid";
  if (p.geti("idstr") && is_text(f)) {
    auto i = ids->f.find(w.id); auto j = ids->g.find(q->obj_id);
    if ((i != ids->f.end() && i->second != q->obj_id) || (j != ids->g.end() && j->second != w.id)) snprintf(b, sizeof b, "object id %lu does not identify object \"o%lu\" consistently", (unsigned long)q->obj_id, (unsigned long)w.id);
    ids->f[w.id] = q->obj_id; ids->g[q->obj_id] = w.id;
  } else if (q->obj_id != w.id) snprintf(b, sizeof b, "object id %lu instead of %lu", (unsigned long)q->obj_id, (unsigned long)w.id);
  int64_t ws = p.geti("ignoresize") ? 1 : w.size;
  if (b[0]) return b;
  if (fmt_has(f, 's') && q->obj_size != ws) snprintf(b, sizeof b, "size %ld instead of %ld", (long)q->obj_size, (long)ws);
  else if (fmt_has(f, 't') && q->clock_time != w.t) snprintf(b, sizeof b, "time %ld instead of %ld", (long)q->clock_time, (long)w.t);
  else if (fmt_has(f, 'n') && q->next_access_vtime != w.next) snprintf(b, sizeof b, "next access %ld instead of %ld", (long)q->next_access_vtime, (long)w.next);
  else if (fmt_has(f, 'o') && (int)q->op != w.op) snprintf(b, sizeof b, "operation %d instead of %d", (int)q->op, w.op);
  else if (fmt_has(f, 'N') && q->ns != w.ns) snprintf(b, sizeof b, "namespace %d instead of %d", q->ns, w.ns);
  else if (fmt_has(f, 'T') && q->ttl != w.ttl) snprintf(b, sizeof b, "ttl %d instead of %d", q->ttl, w.ttl);
  return b;
}
static Plan gen_base(const std::string &prop, uint64_t seed, uint64_t idx, bool th, bool textbias = false) {
  Rng r(mix(mix(seed, idx), hstr(prop))); Plan p;
  std::string f = textbias && r.chance(1, 2) ? r.pickl<const char *>({"csv", "txt"}) : ALLF[r.below(sizeof ALLF / sizeof *ALLF)];
  if (r.chance(1, 4)) f = r.pickl<const char *>({"og", "csv", "lcs", "vscsi2", "txt"});
  p.set("fmt", f);
  int n = r.pickl<int>({1, 2, 3, 10, 40, 120}); if (f[0] == 'v' && f[1] == 's') n = std::max(n, 3);
  gen_trace(r, p, n, 2 + r.below(30), r.pickl<int64_t>({3, 100, 100000}), r.chance(1, 4), r.pickl<int>({0, 1, 5, 1000}));
  p.set("t0", r.pickl<int64_t>({0, 1, 5000, 1700000000, 4000000000LL}));
  p.set("idmode", r.below(3)); p.set("wide", r.chance(1, 3));
  if (f == "csv") { p.set("csvcols", r.below(3)); p.set("csvheader", r.below(2)); p.set("csvdelim", r.pickl<int>({',', ',', '\t', '|', ' ', ';'})); p.set("crlf", r.chance(1, 5)); p.set("csvquote", r.chance(1, 6)); { int dl = p.geti("csvdelim"); if ((dl == ',' || dl == '\t' || dl == '|') && r.chance(1, 4)) p.set("autodetect", 1 + r.below(3)); } }
  if (is_text(f)) { p.set("noeol", r.chance(1, 4)); p.set("blank", r.chance(1, 5)); p.set("idstr", r.chance(1, 3)); if (r.chance(1, 8)) { p.set("longline", r.pickl<int>({200, 1023, 1024, 1025, 3000, 9000})); p.set("idstr", 1); p.cfg.erase("autodetect"); } }
  if (zst_ok(f) && r.chance(1, 3)) { p.set("zst", 1); p.set("frames", r.pickl<int>({1, 1, 2, 5})); p.set("zseed", r.below(1 << 20)); }
  if (r.chance(1, 6) && !p.geti("idstr")) p.set("rep", r.pickl<int>({2, 10, 100, th ? 2000 : 300}));
  if (r.chance(2, 3)) p.set("chunk", 1 + r.below(1 << 20));
  if (r.chance(1, 8)) p.set("ignoresize", 1);
  if (f == "bin" || f == "lcs") { p.set("binfmt", 1 + r.below(1 << 20)); if (prop[0] == 'R' && r.chance(1, 2)) p.set("narrow", 1); }
  if (prop[0] == 'R' && p.geti("idstr") && !p.geti("longline") && r.chance(1, 3)) p.set("idpre", 1 + r.below(60));
  if (prop[0] == 'R' && f == "csv" && !p.geti("autodetect") && r.chance(1, 4)) p.set("tsfmt", 1 + r.below(2));
  p.set("memseed", 1 + r.below(1 << 20));
  return p;
}
static void arm_chunk(const Plan &p) { if (p.geti("chunk")) { io_chunk(p.geti("chunk"), "t."); count("fault.short_reads_enabled"); } }
static reader_t *open_t(const Plan &p, sampler_t *s = nullptr) { return open_fmt(p.get("fmt"), path_of(p), p, s); }
}
