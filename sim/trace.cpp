#include "trace.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unordered_map>
#include <zstd.h>
using namespace dst;
void annotate(Trace &t) {
  std::unordered_map<uint64_t, int64_t> last;
  for (int64_t i = (int64_t)t.size() - 1; i >= 0; i--) { auto it = last.find(t[i].id); t[i].next = it == last.end() ? -1 : it->second + 1; last[t[i].id] = i; }
}
Trace plan_trace(const Plan &p, const char *kind, int64_t t0) {
  Trace v; int64_t now = p.geti("t0", t0); int U = p.geti("U", 1000000);
  bool fixed = p.get("sz") == "fixed", unit = p.get("sz", "unit") == "unit";
  for (auto &o : p.ops) if (o.is(kind)) {
    now += o.a[2];
    int obj = o.a[0] % U; Rq r; r.t = now; r.id = p.geti("idmode") == 0 ? obj + 1 : p.geti("idmode") == 1 ? (mix(p.geti("idseed", 7), obj) & 0xfffffffffffULL) + 1 : p.geti("idmode") == 2 ? ((uint64_t)obj + 1) << 33 : (mix(3, obj) & 0x7fffffff) + 1;
    r.size = unit ? 1 : fixed ? 1 + (int64_t)(mix(p.geti("szseed", 3), obj) % p.geti("szmax", 50)) : o.a[1];
    r.size *= p.geti("scale", 1);
    r.next = -1; r.op = o.a[3]; r.ttl = o.a[4]; r.ns = o.a[5];
    v.push_back(r);
  }
  annotate(v);
  return v;
}
void gen_trace(Rng &r, Plan &p, int n, int U, int64_t szmax, bool unit, int dtmax, const char *kind) {
  p.set("U", U); p.set("sz", unit ? "unit" : r.chance(3, 4) ? "fixed" : "vary"); p.set("szmax", szmax); p.set("szseed", r.below(1 << 20));
  p.set("idmode", r.below(3)); p.set("idseed", r.below(1000));
  int skew = r.below(4), pos = 0;
  for (int i = 0; i < n; i++) {
    int obj;
    switch (skew) {
      case 0: obj = r.below(U); break;
      case 1: obj = r.below(2) ? r.below(U) : r.below(1 + U / 5); break;
      case 2: obj = std::min(r.below(U), std::min(r.below(U), r.below(U))); break;
      default: obj = r.chance(1, 3) ? (int)r.below(1 + U / 4) : pos++ % U;
    }
    p.ops.push_back(Op(kind, obj, 1 + r.below(szmax), dtmax ? r.below(dtmax + 1) : 0));
  }
}
void put_file(const std::string &path, const std::string &d) {
  int fd = syscall(SYS_open, path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) harness_error("cannot create %s", path.c_str());
  size_t o = 0; while (o < d.size()) { ssize_t k = syscall(SYS_write, fd, d.data() + o, d.size() - o); if (k <= 0) harness_error("cannot write %s", path.c_str()); o += k; }
  syscall(SYS_close, fd);
}
std::string get_file(const std::string &path) {
  std::string s; int fd = syscall(SYS_open, path.c_str(), O_RDONLY); if (fd < 0) return s;
  char b[65536]; ssize_t k; while ((k = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, k);
  syscall(SYS_close, fd); return s;
}
std::string zstd_pack(const std::string &s, Rng &r, int frames) {
  std::string out; size_t pos = 0;
  for (int i = 0; i < frames; i++) {
    size_t n = i == frames - 1 ? s.size() - pos : r.below(s.size() - pos + 1);
    std::string b(ZSTD_compressBound(n), 0);
    size_t k = ZSTD_compress(&b[0], b.size(), s.data() + pos, n, 1 + r.below(5));
    if (ZSTD_isError(k)) harness_error("zstd");
    out.append(b, 0, k); pos += n;
  }
  return out;
}
template <class T> static void put(std::string &s, T v) { s.append((const char *)&v, sizeof v); }
static std::string base(const std::string &f) { return f.size() > 4 && f.substr(f.size() - 4) == ".zst" ? f.substr(0, f.size() - 4) : f; }
int fmt_item_size(const std::string &f0) {
  std::string f = base(f0);
  if (f == "og") return 24; if (f == "ogns") return 27; if (f == "III") return 12; if (f == "IQI") return 16; if (f == "IQQ") return 20; if (f == "IQIBH") return 19;
  if (f == "valpin") return 8; if (f == "vscsi1") return 32; if (f == "vscsi2") return 40; if (f == "twr") return 20; if (f == "twrns") return 22;
 
  if (f == "cf1") return 41; if (f == "ocf1") return 49; if (f == "akamai") return 22; if (f == "oakamai") return 30; if (f == "wiki16u") return 14;
  if (f == "wiki19u") return 18; if (f == "wiki19t") return 16; if (f == "owiki16u") return 22; if (f == "owiki19u") return 26; if (f == "simtwrns") return 30; if (f == "systwrns") return 34;
  return 0;
}
trace_type_e fmt_type(const std::string &f0) {
  std::string f = base(f0);
  if (f == "og") return ORACLE_GENERAL_TRACE; if (f == "ogns") return ORACLE_GENERALOPNS_TRACE; if (f == "III") return STANDARD_III_TRACE;
  if (f == "IQI") return STANDARD_IQI_TRACE; if (f == "IQQ") return STANDARD_IQQ_TRACE; if (f == "IQIBH") return STANDARD_IQIBH_TRACE;
  if (f == "valpin") return VALPIN_TRACE; if (f == "vscsi1" || f == "vscsi2") return VSCSI_TRACE; if (f == "twr") return TWR_TRACE; if (f == "twrns") return TWRNS_TRACE;
  if (f == "cf1") return CF1_TRACE; if (f == "ocf1") return ORACLE_CF1_TRACE; if (f == "akamai") return AKAMAI_TRACE; if (f == "oakamai") return ORACLE_AKAMAI_TRACE;
  if (f == "wiki16u") return WIKI16u_TRACE; if (f == "wiki19u") return WIKI19u_TRACE; if (f == "wiki19t") return WIKI19t_TRACE; if (f == "owiki16u") return ORACLE_WIKI16u_TRACE; if (f == "owiki19u") return ORACLE_WIKI19u_TRACE;
  if (f == "simtwrns") return ORACLE_SIM_TWRNS_TRACE; if (f == "systwrns") return ORACLE_SYS_TWRNS_TRACE;
  if (f == "lcs") return LCS_TRACE; if (f == "bin") return BIN_TRACE; if (f == "csv") return CSV_TRACE; return PLAIN_TXT_TRACE;
}
bool fmt_has(const std::string &f0, char k) {
  std::string f = base(f0);
  auto in = [&](std::initializer_list<const char *> l) { for (auto x : l) if (f == x) return true; return false; };
  if (k == 't') return !in({"txt", "valpin", "wiki16u", "owiki16u"});
  if (k == 's') return !in({"txt", "valpin"});
  if (k == 'n') return in({"og", "ogns", "lcs", "bin", "ocf1", "oakamai", "owiki16u", "owiki19u", "simtwrns", "systwrns"});
  if (k == 'o') return in({"ogns", "IQIBH", "twr", "twrns", "systwrns", "bin", "lcs"});
  if (k == 'N') return in({"ogns", "IQIBH", "twrns", "simtwrns", "systwrns"});
  if (k == 'T') return in({"bin", "lcs", "twr", "twrns", "cf1", "ocf1", "simtwrns", "systwrns"});
  return false;
}
// record layout of the generic binary formats: field order, widths and padding are seeded
struct Layout { std::string fmt = "<"; int idx[7] = {0}; std::vector<int> what; };   // 1 id 2 time 3 size 4 next 5 op 6 ttl, 0 padding
static int csz(char c) { return strchr("cbB", c) ? 1 : strchr("hH", c) ? 2 : strchr("iIlLf", c) ? 4 : 8; }
static Layout layout(const Plan &p) {
  Rng r(mix(p.geti("binfmt"), 99)); Layout l; std::vector<int> w = {1, 2, 3, 4, 5, 6};
  for (int i = 5; i > 0; i--) std::swap(w[i], w[r.below(i + 1)]);
  static const char *WIDE[] = {"cbBhHiIlLqQfd", "Qq", "ILQqd", "ILQqd", "q", "bBhHiIlLqQcfd", "iIlLqd"}, *NARROW[] = {"cbBhHiIlLqQfd", "cbBhHiIlLqQfd", "cbBhHiIlLqQfd", "cbBhHiIlLqQfd", "qQ", "bBhHiIlLqQcfd", "cbBhHiIlLqQfd"};
  const char **T = p.geti("narrow") ? NARROW : WIDE;
  auto pad = [&](int n) { while (n-- > 0) { char c = T[0][r.below(13)]; l.fmt += c; l.what.push_back(0); } };
  int many = r.chance(1, 12) ? 20 + r.below(190) : 0; int where = r.below(6);
  for (int k = 0; k < 6; k++) { pad(r.chance(1, 3) ? r.below(3) : 0); if (many && k == where) pad(many); l.fmt += T[w[k]][r.below(strlen(T[w[k]]))]; l.what.push_back(w[k]); l.idx[w[k]] = l.what.size(); }
  pad(r.chance(1, 3) ? r.below(3) : 0);
  return l;
}
static void put_c(std::string &s, char c, int64_t v, double frac = 0) {
  switch (c) { case 'f': { float f = v + frac; s.append((char *)&f, 4); break; } case 'd': { double d = v + frac; s.append((char *)&d, 8); break; } default: s.append((const char *)&v, csz(c)); }
}
// the requests in the range of the narrow fields the layout has for them
void fit_layout(const Plan &p, Trace &t) {
  Layout l = layout(p);
  auto fit = [&](int f, int64_t v) -> int64_t {
    switch (l.fmt[l.idx[f]]) { case 'c': case 'b': return v & 0x7f; case 'B': return v & 0xff; case 'h': return v & 0x7fff; case 'H': return v & 0xffff; case 'i': case 'l': return v & 0x7fffffff; case 'I': case 'L': return v & 0xffffffff; case 'f': return v & 0xffffff; case 'd': return v & 0xfffffffffffffLL; default: return v; }
  };
  for (auto &r : t) { r.id = fit(1, r.id); r.t = fit(2, r.t); r.size = std::max<int64_t>(1, fit(3, r.size)); r.ttl = fit(6, r.ttl); if (strchr("cbhilqfd", l.fmt[l.idx[6]]) && mix(r.id, 3) % 3 == 0) r.ttl = -r.ttl; }
}
static int layout_size(const Layout &l) { int n = 0; for (char c : l.fmt.substr(1)) n += csz(c); return n; }
int fmt_item_size(const std::string &f0, const Plan &p) { std::string f = base(f0); return f == "bin" || f == "lcs" ? layout_size(layout(p)) : fmt_item_size(f); }
reader_init_param_t fmt_params(const std::string &f0, const Plan &p) {
  std::string f = base(f0);
  reader_init_param_t ip = default_reader_init_params();
  if (f == "csv") {
    // columns in a seeded order
    int o = p.geti("csvcols"); ip.time_field = o == 0 ? 1 : 3; ip.obj_id_field = 2; ip.obj_size_field = o == 0 ? 3 : 1;
    if (o == 2) { ip.time_field = 1; ip.obj_id_field = 4; ip.obj_size_field = 3; }
    ip.has_header = p.geti("csvheader"); ip.has_header_set = true; ip.delimiter = p.geti("csvdelim", ',');
    if (p.geti("cnt")) ip.cnt_field = o == 2 ? 5 : 4;
  }
  if (f == "bin") { static std::string fs; Layout l = layout(p); if (fs != l.fmt) fs = l.fmt; ip.binary_fmt_str = &fs[0]; ip.obj_id_field = l.idx[1]; ip.time_field = l.idx[2]; ip.obj_size_field = l.idx[3]; ip.next_access_vtime_field = l.idx[4]; ip.op_field = l.idx[5]; ip.ttl_field = l.idx[6]; }
  if (p.geti("idstr") && (f == "csv" || f == "txt")) ip.obj_id_is_num = false;
  return ip;
}
static std::string fld(const Plan &p, const std::string &v, bool quote) { return quote ? "\"" + v + "\"" : v; }
static std::string idtext(const Plan &p, uint64_t id, char d) {
  if (!p.geti("idstr")) return std::to_string(id);
  std::string s = p.geti("idpre") ? std::string(p.geti("idpre"), '/') + std::to_string(id) + (id % 2 ? std::string(p.geti("idpre"), '.') : "") : "o" + std::to_string(id); if (p.geti("longline")) s += "/" + std::string(p.geti("longline"), 'x') + std::to_string(id % 7);
  if (p.geti("csvquote") && d) s += std::string(1, d) + "q";
  return s;
}
std::string encode(const std::string &f0, const Trace &t, const Plan &p) {
  std::string f = base(f0), s; reader_init_param_t ip = fmt_params(f, p);
  Layout l; if (f == "bin" || f == "lcs") l = layout(p);
  if (f == "lcs") {
    std::string h(1024, 0); uint64_t mg = 0x123456789abcdef0ULL; memcpy(&h[0], &mg, 8); strcpy(&h[8], l.fmt.c_str());
    h[248] = l.idx[1]; h[249] = l.idx[3]; h[250] = l.idx[2]; h[252] = l.idx[4]; h[253] = l.idx[5]; h[254] = l.idx[6];
    uint32_t nf = l.fmt.size() - 1, is = layout_size(l); memcpy(&h[1000], &nf, 4); memcpy(&h[1004], &is, 4); uint64_t ver = 1; memcpy(&h[1008], &ver, 8); memcpy(&h[1016], &mg, 8);
    s = h;
  }
  if (f == "csv" && ip.has_header) s += ip.time_field == 1 ? std::string("time") + ip.delimiter + "object" + ip.delimiter + "size" + (ip.obj_id_field == 4 ? std::string(1, ip.delimiter) + "id" : "") + (p.geti("cnt") ? std::string(1, ip.delimiter) + "count" : "") + "\n" : std::string("size") + ip.delimiter + "object" + ip.delimiter + "time" + (p.geti("cnt") ? std::string(1, ip.delimiter) + "count" : "") + "\n";
  uint32_t sn = 0;
  for (size_t i = 0; i < t.size(); i++) {
    const Rq &r = t[i];
    if (f == "og") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); put<int64_t>(s, r.next); }
    else if (f == "ogns") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); put<uint8_t>(s, r.op ? r.op : 1); put<uint16_t>(s, r.ns); put<int64_t>(s, r.next); }
    else if (f == "III") { put<uint32_t>(s, r.t); put<uint32_t>(s, r.id); put<uint32_t>(s, r.size); }
    else if (f == "IQI") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); }
    else if (f == "IQQ") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint64_t>(s, r.size); }
    else if (f == "IQIBH") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); put<uint8_t>(s, r.op ? r.op : 1); put<uint16_t>(s, r.ns); }
    else if (f == "valpin") put<uint64_t>(s, r.id);
    else if (f == "vscsi1") { put<uint32_t>(s, sn++); put<uint32_t>(s, r.size); put<uint32_t>(s, 0); put<uint16_t>(s, 1); put<uint16_t>(s, 1 << 8 | 3); put<uint64_t>(s, r.id); put<uint64_t>(s, (uint64_t)r.t * 1000000 + i % 1000000); }
    else if (f == "vscsi2") { put<uint16_t>(s, 1); put<uint16_t>(s, 2 << 8 | 3); put<uint32_t>(s, sn++); put<uint32_t>(s, r.size); put<uint32_t>(s, 0); put<uint64_t>(s, r.id); put<uint64_t>(s, (uint64_t)r.t * 1000000 + i % 1000000); put<uint64_t>(s, 5); }
    else if (f == "twr" || f == "twrns") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); uint32_t ks = r.size > 1 ? 1 + (r.id % std::min<int64_t>(r.size - 1, 1000)) : 0, vs = r.size - ks; put<uint32_t>(s, ks << 22 | vs); put<uint32_t>(s, (uint32_t)(r.op ? r.op : 1) << 24 | (r.ttl & 0xffffff)); if (f == "twrns") put<uint16_t>(s, r.ns); }
    else if (f == "bin" || f == "lcs") { for (size_t k = 0; k < l.what.size(); k++) { int64_t v[7] = {(int64_t)(i * 37 + k), (int64_t)r.id, r.t, r.size, r.next == -1 ? MAX_REUSE_DISTANCE : r.next, r.op ? r.op : 1, r.ttl}; int64_t x = v[l.what[k]]; put_c(s, l.fmt[k + 1], x, p.geti("narrow") && l.what[k] == 2 && x < (l.fmt[k + 1] == 'f' ? 1 << 20 : 1LL << 40) ? (i % 4) * 0.25 : 0); } }
    else if (f == "cf1" || f == "ocf1") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint64_t>(s, r.size); put<int32_t>(s, r.ttl); put<uint32_t>(s, i); put<uint32_t>(s, 99); if (f == "ocf1") put<int64_t>(s, r.next); put<uint16_t>(s, 3); put<uint16_t>(s, 4); put<uint16_t>(s, 2); put<uint8_t>(s, 1); put<uint8_t>(s, 2); put<uint8_t>(s, 3); }
    else if (f == "akamai" || f == "oakamai") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); put<uint16_t>(s, 2); put<uint16_t>(s, 3); put<uint16_t>(s, 1); if (f == "oakamai") put<int64_t>(s, r.next); }
    else if (f == "wiki16u" || f == "owiki16u") { put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); put<uint16_t>(s, 7); if (f[0] == 'o') put<int64_t>(s, r.next); }
    else if (f == "wiki19u" || f == "owiki19u") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); put<uint16_t>(s, 7); if (f[0] == 'o') put<int64_t>(s, r.next); }
    else if (f == "wiki19t") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); }
    else if (f == "simtwrns") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); put<uint32_t>(s, r.size); put<int32_t>(s, r.ttl); put<uint16_t>(s, r.ns); put<int64_t>(s, r.next); }
    else if (f == "systwrns") { put<uint32_t>(s, r.t); put<uint64_t>(s, r.id); uint32_t ks = r.size > 1 ? 1 + r.id % std::min<int64_t>(r.size - 1, 1000) : 0; put<uint16_t>(s, ks); put<uint32_t>(s, r.size - ks); put<uint16_t>(s, r.op ? r.op : 1); put<uint16_t>(s, r.ns); put<int32_t>(s, r.ttl); put<int64_t>(s, r.next); }
    else if (f == "csv") {
      char d = ip.delimiter; const char *eol = p.geti("crlf") ? "\r\n" : "\n"; bool last = i + 1 == t.size() && p.geti("noeol"), q = p.geti("csvquote"); std::string D(1, d);
      char tb[64]; int tf = p.geti("tsfmt"); if (tf == 1) snprintf(tb, sizeof tb, "%ld.%d", (long)r.t, (int)(i % 10)); else if (tf == 2) snprintf(tb, sizeof tb, "%.15e", (double)r.t); else snprintf(tb, sizeof tb, "%ld", (long)r.t);
      std::string T = fld(p, tb, q && i % 3 == 0), I = fld(p, idtext(p, r.id, q ? d : 0), q), S = fld(p, std::to_string(r.size), q && i % 2);
      if (ip.time_field == 1 && ip.obj_id_field == 2) s += T + D + I + D + S;
      else if (ip.obj_id_field == 4) s += T + D + "x" + std::to_string(i) + D + S + D + I;
      else s += S + D + I + D + T;
      if (p.geti("cnt")) s += D + std::to_string(1 + (int)(mix(r.id, i) % 3));
      if (!last) { s += eol; if (p.geti("blank") && mix(i, p.geti("blank")) % 5 == 0) for (int k = mix(i, 3) % 3; k >= 0; k--) s += eol; }
    } else { s += idtext(p, r.id, 0); if (!(i + 1 == t.size() && p.geti("noeol"))) { s += "\n"; if (p.geti("blank") && mix(i, p.geti("blank")) % 5 == 0) for (int k = mix(i, 3) % 3; k >= 0; k--) s += "\n"; } }
  }
  return s;
}
Trace fmt_expect(const std::string &f0, const Trace &t, bool iz) {
  std::string f = base(f0); Trace v;
  for (auto r : t) {
    if (f == "III") r.id &= 0xffffffff;
    if (f == "txt" || f == "valpin") { r.size = 1; r.t = 0; }
    if (f == "wiki16u" || f == "owiki16u") r.t = 0;
    if (!fmt_has(f, 'n')) r.next = -2;
    else if (r.next == -1) r.next = MAX_REUSE_DISTANCE;
    if (r.size == 0 && iz) continue;
    v.push_back(r);
  }
  return v;
}
reader_t *open_fmt(const std::string &f, const std::string &path, const Plan &p, sampler_t *s) {
  reader_init_param_t ip = fmt_params(f, p);
  if (p.cfg.count("cap")) ip.cap_at_n_req = p.geti("cap");
  if (p.geti("ignoresize")) ip.ignore_obj_size = true;
  if (p.geti("autodetect") && base(f) == "csv") { int a = p.geti("autodetect"); if (a & 1) ip.delimiter = '\0'; if (a & 2) { ip.has_header_set = false; ip.has_header = false; } }
  ip.sampler = s;
  return setup_reader(path.c_str(), fmt_type(f), &ip);
}
