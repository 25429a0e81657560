// Traces: requests in memory and writers for the on-disk formats.
#pragma once
#include <string>
#include <vector>
#include "caches.h"
struct Rq { int64_t t; uint64_t id; int64_t size; int64_t next; int op = 0, ttl = 0, ns = 0; };
typedef std::vector<Rq> Trace;
// ops "q obj size dt" of the plan -> trace; annotated with next-access request indices (1-based)
Trace plan_trace(const dst::Plan &p, const char *kind = "q", int64_t t0 = 0);
void annotate(Trace &t);
void fit_layout(const dst::Plan &p, Trace &t);
// fills p.ops with n requests
void gen_trace(dst::Rng &r, dst::Plan &p, int n, int U, int64_t szmax, bool unit, int dtmax, const char *kind = "q");
struct Fmt {
  std::string name;          // og ogns III IQI IQQ IQIBH valpin vscsi1 vscsi2 twr lcs bin csv txt
  bool zst = false;
};
std::string encode(const std::string &fmt, const Trace &t, const dst::Plan &p);
trace_type_e fmt_type(const std::string &fmt);
int fmt_item_size(const std::string &fmt);   // 0: text
int fmt_item_size(const std::string &fmt, const dst::Plan &p);
// fills the init params this encoding needs; strings live in static storage
reader_init_param_t fmt_params(const std::string &fmt, const dst::Plan &p);
// what reading the encoded trace must deliver (fields the format cannot carry take their defaults)
Trace fmt_expect(const std::string &fmt, const Trace &t, bool ignore_zero);
bool fmt_has(const std::string &fmt, char field);  // 't' time, 's' size, 'n' next access, 'o' op
void put_file(const std::string &path, const std::string &data);
std::string get_file(const std::string &path);
std::string zstd_pack(const std::string &s, dst::Rng &r, int frames);
reader_t *open_fmt(const std::string &fmt, const std::string &path, const dst::Plan &p, sampler_t *s = nullptr);
