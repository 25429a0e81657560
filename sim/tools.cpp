// The command-line tools, run in process: U01 cachesim, U02 traceConv, U03 traceFilter, U04 tracePrint, U05 distUtil, U06 traceAnalyzer
#include <limits.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <list>
#include <set>
#include "rdplan.h"
#include "caches.h"
#include "tools.h"
using namespace dst;
namespace {
static const char *CLIF[] = {"og", "og", "ogns", "valpin", "vscsi1", "vscsi2", "twr", "twrns", "lcs", "bin", "csv", "csv", "txt", "cf1", "ocf1", "oakamai", "owiki16u", "owiki19u", "systwrns"};
static const std::map<std::string, std::pair<const char *, const char *>> TY = {   // type argument, file name that "auto" recognises
    {"og", {"oracleGeneral", "oracleGeneral"}}, {"ogns", {"oracleGeneralOpNS", "oracleGeneralOpNS"}}, {"valpin", {"valpinTrace", nullptr}}, {"vscsi1", {"vscsi", "vscsi"}}, {"vscsi2", {"vscsi", "vscsi"}}, {"twr", {"twr", "twr.bin"}}, {"twrns", {"twrNS", "twrNS.bin"}}, {"lcs", {"lcs", nullptr}}, {"bin", {"binary", nullptr}}, {"csv", {"csv", nullptr}}, {"txt", {"txt", nullptr}}, {"cf1", {"CF1", nullptr}}, {"ocf1", {"oracleCF1", "oracleCF1"}}, {"oakamai", {"oracleAkamai", "oracleAkamai"}}, {"owiki16u", {"oracleWiki16u", "oracleWiki16u"}}, {"owiki19u", {"oracleWiki19u", "oracleWiki19u"}}, {"systwrns", {"oracleSysTwrNS", "oracleSysTwrNS"}}};
struct Cli { std::string f, path, type, params; reader_init_param_t ip; };
static Cli cli_of(const Plan &p) {
  Cli c; c.f = p.get("fmt"); auto t = TY.at(c.f); bool au = p.geti("auto") && t.second;
  mkdir("data", 0777); c.path = std::string("data/trace.") + (t.second && (au || p.geti("autoname")) ? t.second : c.f.c_str()) + (p.geti("longname") ? "." + std::string(p.geti("longname"), 'n') : "") + (p.geti("zst") ? ".zst" : ""); c.type = au ? "auto" : t.first;
  c.ip = fmt_params(c.f, p); c.ip.ignore_obj_size = p.geti("ignoresize"); c.ip.op_field = c.ip.ttl_field = 0;
  std::vector<std::string> kv; auto col = [&](const char *k, int v) { if (v > 0) kv.push_back(std::string(k) + "=" + std::to_string(v)); };
  int alt = p.geti("alt");
  if (c.f == "csv" || c.f == "bin") { col(alt & 1 ? "time-field" : "time-col", c.ip.time_field); col(alt & 2 ? "obj_id_col" : "obj-id-col", c.ip.obj_id_field); col(alt & 4 ? "size-col" : "obj-size-col", c.ip.obj_size_field); }
  if (c.ip.cnt_field > 0 && c.f == "csv") col(alt & 1 ? "cnt-col" : "cnt-field", c.ip.cnt_field);
  if (c.f == "bin") { col("next-access-col", c.ip.next_access_vtime_field); kv.push_back(std::string("format=") + c.ip.binary_fmt_str); }
  if (c.f == "csv") {
    int a = p.geti("autodetect"); char d = c.ip.delimiter;
    if (a & 2) { c.ip.has_header_set = false; c.ip.has_header = false; } else kv.push_back(std::string(alt & 1 ? "has-header=" : "header=") + (c.ip.has_header ? "true" : "false"));
    if (a & 1) c.ip.delimiter = 0; else kv.push_back(std::string("delimiter=") + (d == '\t' ? std::string("\\t") : std::string(1, d)));
  }
  if (is_text(c.f)) { bool num = p.geti("numflag") && !p.geti("idstr"); c.ip.obj_id_is_num = num; if (num || alt & 2) kv.push_back(std::string("obj-id-is-num=") + (num ? "true" : "false")); }
  Rng r(alt); for (size_t i = kv.size(); i-- > 1;) std::swap(kv[i], kv[r.below(i + 1)]);
  for (auto &k : kv) c.params += (c.params.empty() ? "" : alt & 8 ? ", " : ",") + k;
  return c;
}
static std::vector<std::string> base_args(const char *tool, const Cli &c, const std::vector<std::string> &pos) {
  std::vector<std::string> v = {tool, c.path, c.type}; for (auto &s : pos) v.push_back(s);
  if (c.params.size()) { v.push_back("-t"); v.push_back(c.params); } return v;
}
static std::vector<std::string> list_dir(const char *d) { std::vector<std::string> v; if (DIR *h = opendir(d)) { while (auto *e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(h); } std::sort(v.begin(), v.end()); return v; }
// what the (separately checked) reader delivers for these settings, oldest first
static Trace reference(const Plan &p, const Cli &c, bool skipzero, double ratio, int64_t cap = -1) {
  reader_init_param_t ip = c.ip; ip.ignore_size_zero_req = skipzero; ip.cap_at_n_req = cap; ip.sampler = ratio > 0 && ratio < 1 - 1e-6 ? create_spatial_sampler(ratio) : nullptr;
  reader_t *rd = setup_reader(c.path.c_str(), fmt_type(c.f), &ip); request_t *q = new_request(); Trace t;
  while (read_one_req(rd, q) == 0) { Rq r; r.t = q->clock_time; r.id = q->obj_id; r.size = q->obj_size; r.next = q->next_access_vtime; t.push_back(r); }
  free_request(q); close_reader(rd); return t;
}
// arms the planned fault on file names containing `where`
static IoFault fault_of(const Plan &p, int64_t full) {
  IoFault f; memset(&f, 0, sizeof f); snprintf(f.call, sizeof f.call, "%s", p.get("call", "none").c_str()); snprintf(f.path, sizeof f.path, "%s", p.get("fpath", "out").c_str());
  f.err = p.geti("ferr", ENOSPC); f.sticky = p.geti("sticky"); f.nth = !strcmp(f.call, "write") ? p.geti("offbp") * full / 10000 : 0; return f;
}
static bool quiet(const ToolRun &r, size_t o0) { fflush(stdout); return captured_output().size() + captured_stdout().size() <= o0 && r.out.empty(); }
// runs the tool with the planned fault; decides what its end must look like; true: output must be complete
static bool judge(const Plan &p, const char *tool, ToolMain m, const std::vector<std::string> &args, int64_t full, ToolRun &r, bool may_refuse) {
  bool fault = p.get("call", "none") != "none"; fflush(stdout); size_t o0 = captured_output().size() + captured_stdout().size();
  std::string cmd; for (auto &a : args) cmd += " " + a; note("running%s%s%s", cmd.c_str(), fault ? " with failing " : "", fault ? (p.get("call") + " on " + p.get("fpath")).c_str() : "");
  if (p.geti("chunk")) { io_chunk(p.geti("chunk"), "."); }
  if (fault) io_arm({fault_of(p, full)}); r = run_tool(m, args); int fired = fault ? io_fired_count() : 0; io_disarm();
  ev(r.how, r.code, fired); for (char ch : r.out) ev(ch);
  if (fired) { count((std::string("fault.") + p.get("call") + "." + p.get("flabel", p.get("fpath"))).c_str()); nontrivial(); } else if (fault) count("outcome.fault_not_reached");
  if (r.ok()) return true;
  if (quiet(r, o0)) violate("silent-stop", tool, "%s stops without any message: %s (%s)", tool, r.show().c_str(), cmd.c_str());
  if (!fired && !may_refuse) { std::string m = captured_output(); while (m.size() && m.back() == '\n') m.pop_back(); size_t k = m.size() > 150 ? m.size() - 150 : 0; violate("refused", tool, "%s although nothing failed:%s (%s)", r.show().c_str(), cmd.c_str(), m.c_str() + k); }
  count(fired ? "outcome.failure_reported" : "outcome.refused"); return false;
}
static void gen_cli(Rng &r, Plan &p) {
  p.set("auto", r.chance(1, 4)); p.set("autoname", r.chance(1, 3)); p.set("alt", r.below(16)); p.set("numflag", r.chance(2, 3)); if (r.chance(1, 12)) p.set("longname", r.pickl<int>({20, 90, 110, 115, 121, 130, 170}));
  if (p.get("fmt") == "csv" || p.get("fmt") == "cf1") p.cfg.erase("wide");
}
static void gen_fault(Rng &r, Plan &p, const std::vector<std::pair<const char *, const char *>> &opts) {
  if (!r.chance(1, 2)) return; auto o = opts[r.below(opts.size())]; p.set("call", o.first); p.set("fpath", o.second); std::string c = o.first;
  p.set("ferr", c == "fopen" || c == "open" ? r.pickl<int>({EACCES, ENOSPC, EMFILE, ENOENT}) : c == "mmap" ? ENOMEM : r.pickl<int>({ENOSPC, EIO, EDQUOT})); p.set("sticky", r.chance(1, 2)); p.set("offbp", r.chance(1, 6) ? 9999 : r.below(10001));
}
static Plan gen_t(const char *prop, uint64_t s, uint64_t i, bool th) {
  Plan p = gen_base(prop, s, i, th); Rng r(mix(mix(s, i), 211)); std::string f = p.get("fmt"); bool ok = TY.count(f);
  if (!ok) { f = CLIF[r.below(sizeof CLIF / sizeof *CLIF)]; p.set("fmt", f); for (auto k : {"zst", "binfmt", "idstr", "csvcols", "longline", "autodetect", "blank", "noeol", "csvquote", "csvheader"}) p.cfg.erase(k); p.set("binfmt", 1 + r.below(1 << 20)); p.set("csvdelim", ','); if (f[0] == 'v' && f[1] == 's') while (p.ops.size() < 3) p.ops.push_back(Op("q", 1, 1, 0)); }
  if (p.geti("rep", 1) > 20) p.set("rep", 20);
  gen_cli(r, p); if (f == "csv" && Rng(mix(s, i) + 5).chance(1, 5)) p.set("cnt", 1); return p;
}
static bool too_short(const Plan &p, const Trace &t) { std::string f = p.get("fmt"); return f[0] == 'v' && f[1] == 's' && t.size() < 3; }
// ---------------------------------------------------------------- U02 traceConv
#pragma pack(push, 1)
struct OG { uint32_t t; uint64_t id; uint32_t sz; int64_t next; };
#pragma pack(pop)
static std::vector<OG> expect_og(const Plan &p, const Cli &c, Trace t) {
  if (p.geti("rmsize")) { std::unordered_map<uint64_t, int64_t> s; for (auto &r : t) { auto i = s.emplace(r.id, r.size); r.size = i.first->second; } }
  annotate(t); std::vector<OG> v; for (auto &r : t) v.push_back({(uint32_t)r.t, r.id, (uint32_t)std::min<int64_t>(r.size, UINT32_MAX), r.next == MAX_REUSE_DISTANCE ? -1 : r.next}); return v;
}
static std::string diff_og(const Plan &p, const Cli &c, const std::string &b, const std::vector<OG> &w) {
  char m[400];
  if (b.size() != w.size() * 24) { snprintf(m, sizeof m, "the output has %zu bytes, %zu requests need %zu", b.size(), w.size(), w.size() * 24); return m; }
  const OG *g = (const OG *)b.data();
  for (size_t i = 0; i < w.size(); i++) {
    OG a = g[i], e = w[i]; if (!fmt_has(c.f, 't')) a.t = e.t;
    if (memcmp(&a, &e, 24)) { snprintf(m, sizeof m, "record %zu of %zu is (t=%u id=%lu size=%u next=%ld) instead of (t=%u id=%lu size=%u next=%ld)", i + 1, w.size(), a.t, (unsigned long)a.id, a.sz, (long)a.next, e.t, (unsigned long)e.id, e.sz, (long)e.next); return m; }
  }
  return "";
}
static void run_u02(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p); if (too_short(p, t)) return; Trace w = fmt_expect(f, t, true); if (w.empty()) return;
  Cli c = cli_of(p); put_file(c.path, bytes_of(p, t)); step_budget(3000000000LL, "no-progress", "traceConv");
  double ratio = p.geti("samp") ? 1.0 / p.geti("inv", 2) : 0; Trace all = reference(p, c, false, ratio), nz = reference(p, c, true, ratio);
  bool txt = p.geti("txt"), named = p.geti("named"), zst = p.geti("zst"); std::string out = named ? "out.oracleGeneral" : c.path + ".oracleGeneral";
  auto args = base_args("traceConv", c, {}); if (named) { args.push_back(p.geti("alt") & 1 ? "--output" : "-o"); args.push_back(out); }
  if (txt) { args.push_back("--output-txt"); args.push_back(p.geti("alt") & 1 ? "true" : "1"); } if (p.geti("rmsize")) { args.push_back("--remove-size-change"); args.push_back("1"); } if (p.geti("ignoresize")) { args.push_back("--ignore-obj-size"); args.push_back("yes"); }
  if (ratio) { char b[32]; snprintf(b, sizeof b, "%.9g", ratio); args.push_back("-s"); args.push_back(b); }
  if (p.geti("old")) { put_file(out, std::string(p.geti("old"), 'x')); if (txt) put_file(out + ".txt", std::string(p.geti("old"), 'y')); }
  Plan q = p; if (!named && q.get("fpath").substr(0, 3) == "out") q.set("fpath", "oracleGeneral" + q.get("fpath").substr(3)); ToolRun r;
  if (!judge(q, "traceConv", tool_traceConv_main, args, all.size() * 24, r, nz.empty())) { state(mix(r.how, r.code)); return; }
  std::string b = get_file(out), d1 = diff_og(p, c, b, expect_og(p, c, nz)), d2 = diff_og(p, c, b, expect_og(p, c, all));
  if (d1.size() && d2.size()) violate("wrong-output", f, "%s exits with success, but %s", "traceConv", d1.c_str());
  if (txt) {
    std::string x, g = get_file(out + ".txt"); const OG *o = (const OG *)b.data(); for (size_t i = 0; i < b.size() / 24; i++) { char l[128]; snprintf(l, sizeof l, "%u,%lu,%u,%ld\n", o[i].t, (unsigned long)o[i].id, o[i].sz, (long)o[i].next); x += l; }
    if (x != g) violate("wrong-text", f, "traceConv exits with success, but the text output (%zu bytes) does not list the %zu records (%zu bytes)", g.size(), b.size() / 24, x.size());
  }
  if (p.get("call", "none") == "none" && access((out + ".reverse").c_str(), F_OK) == 0) violate("leftover", "traceConv", "the temporary file %s.reverse is left behind", out.c_str());
  ev(hstr(b)); count(("format." + f).c_str()); if (zst) count("outcome.zst_converted"); if (nz.size() > 3) nontrivial(); state(mix(mix(hstr(f), nz.size()), b.size()));
}
static Plan gen_u02(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_t("U02", s, i, th); Rng r(mix(mix(s, i), 212)); p.set("txt", r.chance(1, 3)); p.set("named", r.chance(3, 4)); p.set("rmsize", r.chance(1, 3)); if (p.geti("zst") && r.chance(2, 3)) p.cfg.erase("zst");
  std::string f = p.get("fmt"); if (r.chance(1, 5)) { p.set("samp", 1); p.set("inv", r.pickl<int>({2, 2, 3, 5})); } if (r.chance(1, 6) && f != "vscsi1" && f != "vscsi2") p.set("zeros", 1); if (r.chance(1, 4)) p.set("old", 1 + r.below(5000)); if (f == "csv" || f == "cf1") p.set("wide", r.chance(1, 3));
  gen_fault(r, p, {{"fopen", "out"}, {"fopen", "out.oracleGeneral.reverse"}, {"write", "out"}, {"write", "out.oracleGeneral.reverse"}, {"write", "out.oracleGeneral.txt"}, {"write", "out"}, {"fclose", "out"}, {"fclose", ".txt"}, {"open", ".reverse"}, {"fstat", ".reverse"}, {"mmap", ".reverse"}, {"unlink", ".reverse"}});
  return p;
}
// ---------------------------------------------------------------- U01 cachesim
struct CliAlgo { const char *arg, *algo; };
static const CliAlgo CA[] = {{"LRU", "LRU"}, {"fifo", "FIFO"}, {"ARC", "ARC"}, {"lfu", "LFU"}, {"GDSF", "GDSF"}, {"lfuda", "LFUDA"}, {"twoq", "TwoQ"}, {"2Q", "TwoQ"}, {"SLRU", "SLRU"}, {"clock", "Clock"}, {"second-chance", "Clock"}, {"fifo-reinsertion", "Clock"}, {"S3-FIFO", "S3FIFO"}, {"s3fifo", "S3FIFO"}, {"QDLP", "QDLP"}, {"sieve", "Sieve"}, {"Size", "Size"}, {"wtinylfu", "WTinyLFU"}, {"belady", "Belady"}, {"random", "Random"}, {"lecar", "LeCaR"}, {"hyperbolic", "Hyperbolic"}, {"Cacheus", "Cacheus"}, {"RandomLRU", "RandomLRU"},
  {"arcv0", "ARCv0"}, {"lfucpp", "LFUCpp"}, {"sfifo", "SFIFO"}, {"s3lru", "S3LRU"}, {"s3fifod", "S3FIFOd"}, {"slruv0", "SLRUv0"}, {"fifo-merge", "FIFO_Merge"}, {"fifomerge", "FIFO_Merge"}, {"randomTwo", "RandomTwo"}, {"lru-prob", "LRU_Prob"}, {"lecarv0", "LeCaRv0"}, {"LHD", "LHD"}, {"nop", "nop"}, {"tinylfu", "WTinyLFU"}, {"beladySize", "BeladySize"}, {"flashProb", "flashProb"}};
static const int NCA = sizeof CA / sizeof *CA;
struct Line { std::string label, name; double size; std::string unit; long n; double mr, bmr; };
static double unit_of(const std::string &u) { return u == "KiB" ? 1024. : u == "MiB" ? 1048576. : u == "GiB" ? 1073741824. : u == "TiB" ? 1099511627776. : 1; }
static std::vector<Line> result_lines(const std::string &s) {
  std::vector<Line> v; size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); i = e + 1;
    size_t k = l.find(" cache size "); if (k == std::string::npos) continue; Line x; size_t b = l.find(' '); x.label = l.substr(0, b); size_t a = l.rfind(' ', k - 1); x.name = l.substr(a + 1, k - a - 1);
    const char *t = l.c_str() + k + 12; char *en; x.size = strtod(t, &en); while (isalpha((unsigned char)*en)) x.unit += *en++; while (*en == ',' || *en == ' ') en++; x.n = strtol(en, &en, 10); x.mr = x.bmr = NAN;
    size_t m = l.find("miss ratio "); if (m != std::string::npos) x.mr = strtod(l.c_str() + m + 11, nullptr); m = l.find("byte miss ratio "); if (m != std::string::npos) x.bmr = strtod(l.c_str() + m + 16, nullptr);
    v.push_back(x);
  }
  return v;
}
struct Want1 { const Algo *A; int64_t size; std::string name; int64_t n = 0, m = 0, nb = 0, mb = 0; };
static std::string differs1(const Want1 &w, const Line &l, const std::string &label, bool multi) {
  char b[400]; b[0] = 0; bool rnd = w.A->caps & A_RANDOM;
  if (l.label != label) snprintf(b, sizeof b, "is labelled \"%s\" instead of \"%s\"", l.label.c_str(), label.c_str());
  else if (l.name != w.name) snprintf(b, sizeof b, "names the cache %s instead of %s", l.name.c_str(), w.name.c_str());
  else if (fabs(l.size * unit_of(l.unit) - w.size) >= unit_of(l.unit)) snprintf(b, sizeof b, "gives size %.0f%s, the cache has %ld", l.size, l.unit.c_str(), (long)w.size);
  else if (l.n != w.n) snprintf(b, sizeof b, "counts %ld requests, the trace has %ld to measure", l.n, (long)w.n);
  else if (w.n == 0) return "";
  else if (rnd ? !(l.mr >= 0 && l.mr <= 1) : fabs(l.mr - (double)w.m / w.n) > 0.000051) snprintf(b, sizeof b, "gives miss ratio %.4f, %ld of %ld requests miss", l.mr, (long)w.m, (long)w.n);
  else if (multi && w.nb && (rnd ? !(l.bmr >= 0 && l.bmr <= 1) : fabs(l.bmr - (double)w.mb / w.nb) > 0.000051)) snprintf(b, sizeof b, "gives byte miss ratio %.4f, %ld of %ld bytes miss", l.bmr, (long)w.mb, (long)w.nb);
  return b;
}
static bool algs_has(const std::vector<std::pair<const CliAlgo *, std::string>> &v, const char *n) { for (auto &x : v) if (!strcmp(x.first->algo, n)) return true; return false; }
static std::string base_name(const std::string &p) { size_t k = p.rfind('/'); return k == std::string::npos ? p : p.substr(k + 1); }
static void run_u01(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p); if (too_short(p, t)) return; if (fmt_expect(f, t, true).empty()) return;
  Cli c = cli_of(p); put_file(c.path, bytes_of(p, t)); step_budget(6000000000LL, "no-progress", "cachesim");
  double ratio = p.geti("samp") ? 1.0 / p.geti("inv", 2) : 0; int64_t cap = p.geti("nreq") ? p.geti("nreq") : -1; bool ign = p.geti("ignoresize");
  Trace w = reference(p, c, true, ratio, cap); if (w.empty()) return;
  bool oracle = c.path.find("oracleGeneral") != std::string::npos && fmt_has(f, 'n'); bool md = p.geti("md"); { bool big = false; for (size_t i = 0; i < w.size(); i++) big |= w[i].size > 1; if (!big) md = false; else if (md) for (size_t i = 0; i < w.size() && i < 100 && w[i].size <= 1; i++) if (i == 99 || i + 1 == w.size()) return; }
  bool steady = true; { std::unordered_map<uint64_t, int64_t> z; for (auto &r : w) { auto i = z.emplace(r.id, r.size); steady &= i.first->second == r.size; } }
  // the caches asked for
  std::vector<std::pair<const CliAlgo *, std::string>> al; std::vector<int64_t> sz; std::string algs, szs; int64_t wo = 0, wb = 0, mx = 0; { std::set<uint64_t> seen; for (auto &r : w) { mx = std::max(mx, r.size); if (seen.insert(r.id).second) { wo++; wb += r.size; } } }
  const char *par = nullptr; std::string pars;
  for (auto &o : p.ops) if (o.is("alg")) { const CliAlgo &x = CA[(uint64_t)o.a[0] % NCA]; if (!strncmp(x.algo, "Belady", 6) && !oracle) continue; if ((algo_by_name(x.algo)->caps & A_EXTRA) && (md || !steady)) continue; if (!strcmp(x.algo, "WTinyLFU") && (mx > 100000 || wb > 1000000)) continue; al.push_back({&x, ""}); }
  if (int pr = p.geti("pair")) {
    al.clear(); std::vector<const char *> v = pr == 3 ? std::vector<const char *>{"SLRU", "SFIFO"} : pr == 2 ? std::vector<const char *>{"QDLP", "S3FIFO"} : std::vector<const char *>{"S3FIFO", "QDLP", "S3FIFO"};
    for (auto n : v) for (int k = 0; k < NCA; k++) if (!strcmp(CA[k].algo, n) && !((algo_by_name(n)->caps & A_EXTRA) && (md || !steady))) { al.push_back({&CA[k], ""}); break; }
  }
  if (al.empty()) al.push_back({&CA[0], ""}); if (al.size() > 16) al.resize(16);
  // sizes left to the program: fractions of the working set that hold enough objects
  if (p.geti("autosz")) { for (double fr : {0.001, 0.003, 0.01, 0.03, 0.1, 0.2, 0.4, 0.8}) if (ign ? (long)(wo * fr) > 4 : (long)(wo * fr) >= 100) sz.push_back((long)((ign ? wo : wb) * fr)); if (sz.empty()) return; szs = p.geti("autosz") == 1 ? "0" : "auto"; std::vector<std::pair<const CliAlgo *, std::string>> a2; int64_t lim = ign ? sz[0] : sz[0] / (4 * std::max<int64_t>(1, wb / wo)); for (auto &x : al) if (algo_by_name(x.first->algo)->min_unit <= lim && strcmp(x.first->algo, "WTinyLFU")) a2.push_back(x); al = a2; if (al.empty()) al.push_back({&CA[0], ""}); }
  bool same = true; for (auto &x : al) same &= !strcmp(x.first->algo, al[0].first->algo);
  if (p.geti("pair") && !same) pars = p.geti("pair") == 3 ? "n-seg=2" : p.geti("parix") & 1 ? "fifo-size-ratio=0.3" : "fifo-size-ratio=0.2,ghost-size-ratio=0.5";
  if (same) { auto &ps = algo_by_name(al[0].first->algo)->params; par = ps[p.geti("parix") % ps.size()]; if (par) pars = par; }
  int64_t need = 1; for (auto &x : al) need = std::max<int64_t>(need, algo_by_name(x.first->algo)->min_unit); bool frac_only_small = need <= 4;
  int64_t avg = ign ? 1 : std::max<int64_t>(1, wb / wo);
  for (auto &o : p.ops) if (o.is("sz") && !p.geti("autosz")) {
    char b[64]; int64_t v = (need + o.a[0]) * avg + (p.geti("big", 1) ? mx : 0); int u = o.a[1] % 6;
    if (u == 1) { v = (v + 1023) / 1024; snprintf(b, sizeof b, "%ld%s", (long)v, o.a[2] % 3 == 0 ? "KB" : o.a[2] % 3 == 1 ? "kb" : "k"); v *= 1024; }
    else if (u == 2 && !ign) { v = 1 + o.a[0] % 3; snprintf(b, sizeof b, "%ld%s", (long)v, o.a[2] % 3 == 0 ? "MB" : o.a[2] % 3 == 1 ? "mb" : "M"); v *= 1048576; }
    else if (u == 3 && o.a[0] % 4 == 0) { v = 1 + o.a[0] % 5000; bool tb = o.a[2] & 1; snprintf(b, sizeof b, "%ld%s", (long)v, tb ? "tb" : "GB"); v *= tb ? 1LL << 40 : 1LL << 30; }
    else if (u == 4) { double fr = (1 + o.a[0] % 20) / 20.0; snprintf(b, sizeof b, o.a[2] & 1 ? "%.2f" : "%.3f", fr); v = (int64_t)((ign ? wo : wb) * atof(b)); if (v < need * (need > 4 ? 4 : 1) * std::max<int64_t>(1, frac_only_small ? 1 : avg) || v < 1) continue; }
    else snprintf(b, sizeof b, "%ld", (long)v);
    if (v / avg < need || (v > 3000000 && algs_has(al, "WTinyLFU"))) continue; sz.push_back(v); szs += (szs.empty() ? "" : ",") + std::string(b); if (sz.size() >= 20) break;
  }
  if (sz.empty()) { int64_t v = need * avg + mx; sz.push_back(v); szs = std::to_string(v); }
  for (auto &x : al) { std::string n = x.first->arg; if (p.geti("alt") & 1) for (auto &ch : n) ch = toupper(ch); algs += (algs.empty() ? "" : ",") + n; }
  bool multi = al.size() * sz.size() > 1; std::string adm = p.get("adm", "none"); char admp[32]; snprintf(admp, sizeof admp, "size=%ld", (long)p.geti("admsz", 50));
  int ws = p.geti("wsec", -1);
  std::string pf = p.get("pf", "none"), pfp; if (pf != "none") { for (auto &x : al) if (!strchr("LFACSG", x.first->algo[0]) || (algo_by_name(x.first->algo)->caps & (A_RANDOM | A_EXTRA)) || adm != "none" || md || !steady) pf = "none"; if (p.geti("pfbs")) pfp = "block-size=" + std::to_string(p.geti("pfbs")) + (p.geti("pfk") ? ",sequential-confidence-k=" + std::to_string(p.geti("pfk")) : ""); if (p.has("pfpar")) pfp = p.get("pfpar"); }
  std::vector<Want1> want;
  for (auto &x : al) for (auto z : sz) {
    Want1 q; q.A = algo_by_name(x.first->algo); q.size = z; cache_t *k = make_cache(q.A, z, 12, md, pars.c_str()); q.name = k->cache_name;
    if (adm == "size") k->admissioner = create_size_admissioner(admp); else if (adm == "bloom-filter") k->admissioner = create_bloomfilter_admissioner(nullptr);
    if (pf != "none") k->prefetcher = create_prefetcher(pf.c_str(), pfp.empty() ? nullptr : pfp.c_str(), z);
    request_t *rq = new_request(); bool warming = ws > 0;
    if (!(q.A->caps & A_RANDOM) || true) for (auto &r : w) {
      rq->obj_id = r.id; rq->obj_size = r.size; rq->next_access_vtime = r.next; rq->clock_time = r.t - w[0].t; rq->hv = 0; if (warming && r.t - w[0].t >= ws) warming = false;
      bool hit = k->get(k, rq); if (warming) continue; q.n++; q.nb += r.size; if (!hit) { q.m++; q.mb += r.size; }
    }
    free_request(rq); k->cache_free(k); want.push_back(q);
  }
  std::string base = base_name(c.path), out = multi ? "result/" + base : p.geti("named") ? "out.cachesim" : base + ".cachesim";
  auto args = base_args("cachesim", c, {algs, szs}); auto opt = [&](const char *o, const std::string &v) { if (p.geti("alt") & 2 && o[1] == '-') args.push_back(std::string(o) + "=" + v); else { args.push_back(o); args.push_back(v); } };
  if (pars.size()) { std::string e = pars; if (p.geti("alt") & 4) for (auto &ch : e) if (ch == ',') ch = ';'; else if (ch == '-') ch = '_'; opt(p.geti("alt") & 8 ? "-e" : "--eviction-params", e); }
  if (p.geti("named")) opt(p.geti("alt") & 1 ? "--output" : "-o", "out.cachesim"); if (ratio) { char b[32]; snprintf(b, sizeof b, "%.9g", ratio); opt("-s", b); } if (cap > 0) opt("--num-req", std::to_string(cap));
  if (ign) opt("--ignore-obj-size", "1"); if (p.geti("md")) opt("--consider-obj-metadata", "true"); if (ws >= 0) opt("--warmup-sec", std::to_string(ws)); if (p.geti("threads")) opt("--num-thread", std::to_string(p.geti("threads"))); if (p.geti("report")) opt("--report-interval", std::to_string(p.geti("report")));
  if (adm != "none") { opt(p.geti("alt") & 2 ? "-a" : "--admission", adm); if (adm == "size") opt("--admission-params", admp); } if (pf != "none") { opt(p.geti("alt") & 2 ? "-p" : "--prefetch", pf); if (pfp.size()) opt("--prefetch-params", pfp); count("option.prefetch"); } if (p.geti("autosz")) count("option.auto_size"); if (p.geti("head", 2) < 2) opt("--print-head-req", p.geti("head") ? "true" : "false");
  std::string old; if (p.geti("old")) { old = std::string(p.geti("old"), 'x') + "\n"; if (multi) mkdir("result", 0777); put_file(out, old); } else if (multi && p.geti("blocked")) put_file("result", "not a directory");
  Plan q = p; std::string fp = p.get("fpath"); if (fp == "out") q.set("fpath", multi ? "result/" : "cachesim"); if (fp == "data/trace" && p.get("call") == "open") q.set("fpath", "data/trace"); bool blocked = !old.size() && multi && p.geti("blocked");
  ToolRun r; int64_t full = 150 * (int64_t)want.size(); io_chunk(p.geti("chunk"), "data/"); bool done = judge(q, "cachesim", tool_cachesim_main, args, full, r, blocked);
  std::string file = get_file(out);
  if (old.size() && file.compare(0, old.size(), old)) violate("lost-results", "cachesim", "the results already in %s are gone or changed after the run (%s)", out.c_str(), r.show().c_str());
  if (!done) { state(mix(r.how, r.code)); return; }
  if (blocked) violate("silent-loss", "cachesim", "cachesim exits with success although result/ cannot be created");
  file.erase(0, old.size()); auto A = result_lines(r.out), B = result_lines(file); std::string label = multi ? out : c.path; if (label.size() > 1 && label.find(' ') != std::string::npos) label = label.substr(0, label.find(' '));
  for (int k = 0; k < 2; k++) {
    auto &L = k ? B : A; const char *where = k ? out.c_str() : "standard output";
    if (L.size() != want.size()) violate("result-count", multi ? "several" : "one", "cachesim exits with success, but %s has %zu results for %zu caches", where, L.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) { std::string d = differs1(want[i], L[i], label, multi); if (d.size()) violate("wrong-result", want[i].A->name, "result %zu of %zu on %s (%s, size %ld) %s", i + 1, want.size(), where, want[i].A->name, (long)want[i].size, d.c_str()); }
  }
  for (auto &x : want) { ev(x.m, x.n, x.size); count((std::string("algo.") + x.A->name).c_str()); } count(("format." + f).c_str()); count(multi ? "outcome.several_caches" : "outcome.one_cache"); if (multi && p.get("sched", "off") != "off") { count("probe.context_switches", sched_switches()); state(sched_signature()); }
  if (w.size() > 3) nontrivial(); state(mix(mix(hstr(algs), w.size()), want[0].m));
}
static Plan gen_u01(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_t("U01", s, i, th); Rng r(mix(mix(s, i), 214)); std::string f = p.get("fmt"); if (p.geti("zst") && r.chance(2, 3)) p.cfg.erase("zst");
  int na = r.pickl<int>({1, 1, 1, 2, 3, 5}), ns = r.pickl<int>({1, 1, 1, 2, 4, 8}); for (int k = 0; k < na; k++) p.ops.push_back(Op("alg", r.below(NCA))); for (int k = 0; k < ns; k++) p.ops.push_back(Op("sz", r.below(r.pickl<int>({8, 40, 400})), r.below(6), r.below(6)));
  if (f == "og" && r.chance(1, 2)) { p.set("autoname", 1); for (auto &o : p.ops) if (o.is("alg") && r.chance(1, 2)) o.a[0] = 18; }
  p.set("parix", r.below(4)); p.set("named", r.chance(1, 2)); p.set("ignoresize", r.chance(1, 4)); p.set("md", r.chance(1, 6)); p.set("wide", f == "csv" || f == "og" ? r.chance(1, 6) : 0); p.set("big", r.chance(3, 4));
  if (r.chance(1, 5)) { p.set("samp", 1); p.set("inv", r.pickl<int>({2, 2, 3, 5})); } if (r.chance(1, 5)) p.set("nreq", 1 + r.below(150)); if (r.chance(1, 6) && f != "vscsi1" && f != "vscsi2" ) p.set("zeros", 1);
  if (r.chance(1, 3)) p.set("wsec", r.pickl<int>({0, 1, 3, 10, 60, 1000, 1000000})); if (r.chance(1, 2)) p.set("threads", r.pickl<int>({1, 2, 3, 4, 8, 32})); if (r.chance(1, 4)) p.set("report", r.pickl<int>({1, 5, 3600})); if (r.chance(1, 3)) p.set("head", r.below(2));
  if (r.chance(1, 6)) { p.set("adm", r.pickl<const char *>({"size", "bloom-filter"})); p.set("admsz", r.pickl<int>({1, 2, 50, 5000})); } if (r.chance(1, 3)) p.set("old", 1 + r.below(9000)); if (r.chance(1, 20)) p.set("blocked", 1);
  if (r.chance(1, 10)) { p.set("autosz", 1 + r.below(2)); if (r.chance(1, 2)) p.set("ignoresize", 1); std::vector<Op> keep; for (auto &o : p.ops) if (!o.is("q")) keep.push_back(o); p.ops.clear(); p.cfg.erase("rep"); p.cfg.erase("nreq"); p.cfg.erase("samp"); gen_trace(r, p, r.pickl<int>({60, 300, 900}), r.pickl<int>({20, 150, 300, 700}), r.pickl<int64_t>({3, 100, 100000}), false, r.pickl<int>({0, 1, 5})); for (auto &o : keep) p.ops.push_back(o); }
  if (r.chance(1, 8)) { p.set("pf", "OBL"); if (r.chance(4, 5)) { p.set("pfbs", r.pickl<int>({1, 1, 2, 20, 512})); if (r.chance(2, 3)) p.set("pfk", r.pickl<int>({1, 2, 3})); } p.set("idmode", 0); p.cfg.erase("wide"); p.set("adm", "none");
    if (r.chance(2, 5)) { p.set("pf", "PG"); p.cfg.erase("pfbs"); p.set("pfpar", std::string("lookahead-range=") + r.pickl<const char *>({"2", "5", "10"}) + ",block-size=" + r.pickl<const char *>({"1", "10", "100"}) + ",max-metadata-size=" + r.pickl<const char *>({"0.1", "0.5", "0.9"}) + ",prefetch-threshold=" + r.pickl<const char *>({"0.05", "0.1", "0.3"})); }
  }
  if (r.chance(1, 12)) { p.set("pair", 1 + r.below(3)); p.cfg.erase("autosz"); }   // several policies that understand the same parameters
  p.set("sched", r.pickl<const char *>({"random", "random", "pct", "stall", "conflict", "sync"})); p.set("schedseed", r.below(1 << 30)); p.set("schedmean", r.pickl<int>({3, 20, 100, 1000, 10000})); p.set("horizon", r.pickl<int>({2000, 20000, 200000})); p.set("nsstep", r.pickl<int>({5, 50, 1000})); if (r.chance(1, 2)) p.set("clkseed", 1 + r.below(1 << 20)); p.set("ncores", r.pickl<int>({1, 2, 4, 16}));
  gen_fault(r, p, {{"fopen", "out"}, {"write", "out"}, {"fclose", "out"}, {"write", "console"}, {"open", "data/trace"}, {"mmap", "data/trace"}, {"fopen", "data/trace"}});
  return p;
}
// ---------------------------------------------------------------- U03 traceFilter
static std::vector<uint64_t> filtered(const Trace &w, bool lru, int64_t cap) {   // positions of the misses of LRU or FIFO
  std::list<std::pair<uint64_t, int64_t>> q; std::unordered_map<uint64_t, std::list<std::pair<uint64_t, int64_t>>::iterator> at; int64_t occ = 0; std::vector<uint64_t> m;
  for (size_t i = 0; i < w.size(); i++) {
    auto it = at.find(w[i].id);
    if (it != at.end()) { occ += w[i].size - it->second->second; it->second->second = w[i].size; if (lru) q.splice(q.begin(), q, it->second); while (occ > cap) { occ -= q.back().second; at.erase(q.back().first); q.pop_back(); } continue; }
    m.push_back(i); if (w[i].size > cap) continue;
    while (occ + w[i].size > cap) { occ -= q.back().second; at.erase(q.back().first); q.pop_back(); }
    q.push_front({w[i].id, w[i].size}); at[w[i].id] = q.begin(); occ += w[i].size;
  }
  return m;
}
static void run_u03(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p); if (p.geti("steady")) { std::unordered_map<uint64_t, int64_t> z; for (auto &r : t) { auto i = z.emplace(r.id, r.size); r.size = i.first->second; } annotate(t); } if (too_short(p, t)) return; if (fmt_expect(f, t, true).empty()) return;
  Cli c = cli_of(p); put_file(c.path, bytes_of(p, t)); step_budget(3000000000LL, "no-progress", "traceFilter"); bool ign = p.geti("ignoresize");
  double ratio = p.geti("samp") ? 1.0 / p.geti("inv", 2) : 0; int64_t cap = p.geti("nreq") ? p.geti("nreq") : -1; Trace w = reference(p, c, true, ratio, cap); if (w.empty()) return;
  int64_t wo = 0, wb = 0, mx = 0; { std::set<uint64_t> seen; for (auto &r : w) { mx = std::max(mx, r.size); if (seen.insert(r.id).second) { wo++; wb += r.size; } } }
  // sizes that change are judged by the cache itself, constant ones by an independent queue
  bool lru = p.geti("lru"); char b[64]; int64_t cs; if (p.geti("frac")) { snprintf(b, sizeof b, "%.2f", p.geti("frac") / 100.0); cs = (int64_t)((ign ? wo : wb) * atof(b)); } else { cs = 1 + p.geti("fsz") * std::max<int64_t>(1, wb / wo) + (p.geti("fsz") % 3 ? mx : 0); snprintf(b, sizeof b, "%ld", (long)cs); }
  if (cs < 1) return; bool named = p.geti("named"); const char *ty = lru ? (p.geti("alt") & 1 ? "lru" : "LRU") : (p.geti("alt") & 1 ? "Fifo" : "FIFO");
  std::string out = named ? "out.oracleGeneral" : base_name(c.path) + ".filter_" + ty + "_" + std::to_string(cs) + ".oracleGeneral"; auto args = base_args("traceFilter", c, {}); args.push_back("--filter-type"); args.push_back(ty); args.push_back(std::string("--filter-size=") + b);
  if (named) { args.push_back("-o"); args.push_back(out); } if (ign) { args.push_back("--ignore-obj-size"); args.push_back("1"); } if (ratio) { char b[32]; snprintf(b, sizeof b, "%.9g", ratio); args.push_back("-s"); args.push_back(b); } if (cap > 0) { args.push_back("-n"); args.push_back(std::to_string(cap)); }
  if (p.geti("old")) put_file(out, std::string(p.geti("old"), 'x')); Plan q = p; if (!named && q.get("fpath") == "out") q.set("fpath", "filter_");
  std::vector<uint64_t> m; bool constant = true; { std::unordered_map<uint64_t, int64_t> z; for (auto &r : w) { auto i = z.emplace(r.id, r.size); constant &= i.first->second == r.size; } }
  if (constant) m = filtered(w, lru, cs);
  else { cache_t *k = make_cache(algo_by_name(lru ? "LRU" : "FIFO"), cs, 8, false, ""); request_t *rq = new_request(); for (size_t i = 0; i < w.size(); i++) { rq->obj_id = w[i].id; rq->obj_size = w[i].size; rq->clock_time = w[i].t; rq->hv = 0; if (!k->get(k, rq)) m.push_back(i); } free_request(rq); k->cache_free(k); }
  ToolRun r; if (!judge(q, "traceFilter", tool_traceFilter_main, args, m.size() * 24, r, false)) { state(mix(r.how, r.code)); return; }
  std::string g = get_file(out); const OG *o = (const OG *)g.data(); ev(hstr(g));
  if (g.size() != m.size() * 24) violate("wrong-output", ty, "traceFilter exits with success, but the output has %zu bytes; %zu of %zu requests miss in %s of %ld bytes and need %zu", g.size(), m.size(), w.size(), ty, (long)cs, m.size() * 24);
  for (size_t i = 0; i < m.size(); i++) { const Rq &x = w[m[i]]; uint32_t et = (uint32_t)(x.t - w[0].t), es = (uint32_t)std::min<int64_t>(x.size, UINT32_MAX); if (o[i].id != x.id || o[i].sz != es || (o[i].t != et && o[i].t != (uint32_t)x.t)) violate("wrong-output", ty, "record %zu of %zu is (t=%u id=%lu size=%u), the miss is request %lu (t=%u id=%lu size=%u)", i + 1, m.size(), o[i].t, (unsigned long)o[i].id, o[i].sz, (unsigned long)m[i], et, (unsigned long)x.id, es); }
  count(("format." + f).c_str()); count(constant ? "outcome.independent_model" : "outcome.same_cache_reference"); if (m.size() > 1 && m.size() < w.size()) nontrivial(); state(mix(mix(hstr(f), m.size()), cs));
}
static Plan gen_u03(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_t("U03", s, i, th); Rng r(mix(mix(s, i), 216)); std::string f = p.get("fmt"); if (p.geti("zst") && r.chance(2, 3)) p.cfg.erase("zst");
  p.set("lru", r.below(2)); p.set("steady", r.chance(3, 4)); p.set("frac", r.chance(1, 2) ? 1 + r.below(99) : 0); p.set("fsz", r.below(r.pickl<int>({4, 30, 200}))); p.set("named", r.chance(2, 3)); p.set("ignoresize", r.chance(1, 4)); if (f == "csv" || f == "cf1" || f == "og") p.set("wide", r.chance(1, 4));
  if (r.chance(1, 5)) { p.set("samp", 1); p.set("inv", r.pickl<int>({2, 2, 3, 5})); } if (r.chance(1, 5)) p.set("nreq", 1 + r.below(150)); if (r.chance(1, 6) && f != "vscsi1" && f != "vscsi2") p.set("zeros", 1); if (r.chance(1, 4)) p.set("old", 1 + r.below(5000));
  gen_fault(r, p, {{"fopen", "out"}, {"write", "out"}, {"write", "out"}, {"fclose", "out"}, {"open", "data/trace"}, {"mmap", "data/trace"}});
  return p;
}
// ---------------------------------------------------------------- U04 tracePrint
static void run_u04(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p); if (too_short(p, t)) return; if (fmt_expect(f, t, true).empty()) return;
  Cli c = cli_of(p); put_file(c.path, bytes_of(p, t)); step_budget(3000000000LL, "no-progress", "tracePrint");
  double ratio = p.geti("samp") ? 1.0 / p.geti("inv", 2) : 0; int64_t cap = p.geti("nreq") ? p.geti("nreq") : -1; Trace w = reference(p, c, true, ratio, cap); if (w.empty()) return;
  auto args = base_args("tracePrint", c, {}); if (cap > 0) { args.push_back(p.geti("alt") & 1 ? "-n" : "--num-req"); args.push_back(std::to_string(cap)); } if (ratio) { char b[32]; snprintf(b, sizeof b, "%.9g", ratio); args.push_back("-s"); args.push_back(b); } if (p.geti("ignoresize")) { args.push_back("--ignore-obj-size"); args.push_back("1"); }
  char d = p.geti("delim", ','); if (d != ',') { args.push_back("--field-delimiter"); args.push_back(std::string(1, d)); } bool only = p.geti("only"), b32 = p.geti("b32"); if (only) args.push_back("--obj-id-only=1"); if (b32) args.push_back("--obj-id-32bit=1");
  std::string x; char l[160]; bool nx = w[0].next != -2; for (auto &r : w) { uint64_t id = b32 ? (uint32_t)r.id : r.id; if (only) snprintf(l, sizeof l, "%lu\n", (unsigned long)id); else if (nx) snprintf(l, sizeof l, "%ld%c%lu%c%ld%c%ld\n", (long)r.t, d, (unsigned long)id, d, (long)r.size, d, (long)r.next); else snprintf(l, sizeof l, "%ld%c%lu%c%ld\n", (long)r.t, d, (unsigned long)id, d, (long)r.size); x += l; }
  ToolRun r; if (!judge(p, "tracePrint", tool_tracePrint_main, args, x.size() + 20, r, false)) { state(mix(r.how, r.code)); return; }
  std::string g; size_t i = 0; while (i < r.out.size()) { size_t e = r.out.find('\n', i); e = e == std::string::npos ? r.out.size() : e + 1; if (r.out[i] != '#') g.append(r.out, i, e - i); i = e; }
  if (g != x) { size_t k = 0, ln = 1; while (k < g.size() && k < x.size() && g[k] == x[k]) ln += g[k++] == '\n'; size_t a = x.rfind('\n', k ? k - 1 : 0); a = a == std::string::npos || !k ? 0 : a + 1; violate("wrong-output", f, "tracePrint exits with success, but line %zu is \"%s\" instead of \"%s\" (%zu and %zu bytes in all)", ln, g.substr(a, g.find('\n', a) - a).c_str(), x.substr(a, x.find('\n', a) - a).c_str(), g.size(), x.size()); }
  count(("format." + f).c_str()); if (w.size() > 3) nontrivial(); state(mix(mix(hstr(f), w.size()), x.size()));
}
static Plan gen_u04(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_t("U04", s, i, th); Rng r(mix(mix(s, i), 217)); std::string f = p.get("fmt"); if (p.geti("zst") && r.chance(1, 2)) p.cfg.erase("zst");
  p.set("only", r.chance(1, 5)); p.set("b32", r.chance(1, 6)); if (r.chance(1, 3)) p.set("delim", r.pickl<int>({' ', '\t', '|', ';'})); p.set("ignoresize", r.chance(1, 8)); if (f == "csv" || f == "cf1" || f == "og") p.set("wide", r.chance(1, 2));
  if (r.chance(1, 5)) { p.set("samp", 1); p.set("inv", r.pickl<int>({2, 2, 3, 5})); } if (r.chance(1, 3)) p.set("nreq", 1 + r.below(150)); if (r.chance(1, 6) && f != "vscsi1" && f != "vscsi2") p.set("zeros", 1);
  gen_fault(r, p, {{"write", "console"}, {"write", "console"}, {"write", "console"}, {"open", "data/trace"}, {"mmap", "data/trace"}});
  return p;
}
// ---------------------------------------------------------------- U05 distUtil
static std::vector<int64_t> dists(const Trace &w, int ty) {
  size_t n = w.size(); std::vector<int64_t> d(n, -1); std::unordered_map<uint64_t, int64_t> last, first; std::list<uint64_t> lru;
  for (size_t i = 0; i < n; i++) {
    uint64_t id = w[i].id; auto l = last.find(id);
    if (l != last.end()) { int64_t sd = 0; for (auto x : lru) { if (x == id) break; sd++; } if (ty == 0) d[i] = i - l->second; else if (ty == 1) d[i] = i - first[id]; else if (ty == 2) d[i] = sd; else d[l->second] = sd; lru.remove(id); } else first[id] = i;
    lru.push_front(id); last[id] = i;
  }
  return d;
}
static void run_u05(const Plan &p) {
  static const char *DT[] = {"dist_since_last_access", "dist_since_first_access", "stack_dist", "future_stack_dist"}, *OT[] = {"binary", "txt", "cntTxt", "BINARY", "cnttxt", "csv"};
  std::string f = p.get("fmt"); Trace t = want_of(p); if (too_short(p, t)) return; if (fmt_expect(f, t, true).empty()) return;
  Cli c = cli_of(p); put_file(c.path, bytes_of(p, t)); step_budget(6000000000LL, "no-progress", "distUtil"); int64_t cap = p.geti("nreq") ? p.geti("nreq") : -1; Trace w = reference(p, c, true, 0, cap); if (w.empty()) return;
  int ty = p.geti("dist") % 4, ot = p.geti("otype") % 6, kind = ot < 3 ? ot : ot == 3 ? 0 : ot == 4 ? 2 : 3; bool bad = kind == 3; mkdir("outdir", 0777); std::string out = p.geti("noname") ? "" : "outdir/out", pre = out.size() ? "outdir/out" : base_name(c.path) + ".dist";
  auto args = base_args("distUtil", c, {DT[ty], OT[ot], out}); if (cap > 0) { args.push_back("-n"); args.push_back(std::to_string(cap)); }
  auto d = dists(w, ty); std::string x; char l[64]; std::map<int64_t, int64_t> cnt; for (auto v : d) { int32_t e = v; if (kind == 0) x.append((char *)&e, 4); else { snprintf(l, sizeof l, "%ld\n", (long)v); x += l; } cnt[v]++; }
  Plan q = p; if (out.empty() && q.get("fpath") == "out") q.set("fpath", ".dist."); ToolRun r; if (!judge(q, "distUtil", tool_distUtil_main, args, kind == 2 ? cnt.size() * 4 : x.size(), r, bad)) { state(mix(r.how, r.code)); return; }
  if (bad) violate("silent-loss", "distUtil", "distUtil exits with success for the unknown output type \"%s\"", OT[ot]);
  std::string name; int nf = 0; for (auto &e : list_dir(out.size() ? "outdir" : ".")) { std::string full = out.size() ? "outdir/" + e : e; if (full.compare(0, pre.size(), pre) == 0) { name = full; nf++; } }
  if (nf != 1) violate("missing-output", "distUtil", "distUtil exits with success, but left %d files named %s*", nf, pre.c_str());
  std::string g = get_file(name); ev(hstr(g));
  if (kind == 2) { std::map<int64_t, int64_t> got; const char *s = g.c_str(); size_t lines = 0; while (*s) { char *e; int64_t a = strtoll(s, &e, 10); if (e == s) { s++; continue; } while (*e == ':' || *e == ' ' || *e == '\t') e++; s = e; int64_t b = strtoll(s, &e, 10); got[a == INT64_MAX ? -1 : a] += b; lines++; s = e; } if (got != cnt || lines != cnt.size()) violate("wrong-output", DT[ty], "distUtil exits with success, but the counts (%zu entries, %zu distances) are not those of the %zu requests (%zu distances)", lines, got.size(), w.size(), cnt.size()); }
  else if (g != x) violate("wrong-output", DT[ty], "distUtil exits with success, but %s (%zu bytes) does not hold the distances of the %zu requests (%zu bytes)", name.c_str(), g.size(), w.size(), x.size());
  count(DT[ty]); count(OT[ot]); if (w.size() > 3) nontrivial(); state(mix(mix(hstr(f), w.size()), hstr(g)));
}
static Plan gen_u05(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_t("U05", s, i, th); Rng r(mix(mix(s, i), 218)); std::string f = p.get("fmt"); if (p.geti("zst") && r.chance(1, 2)) p.cfg.erase("zst"); if (p.ops.size() * p.geti("rep", 1) > 1500) p.set("rep", 2);
  p.set("dist", r.below(4)); p.set("otype", r.chance(1, 2) ? r.below(3) : r.below(6)); p.set("noname", r.chance(1, 6)); if (r.chance(1, 3)) p.set("nreq", 1 + r.below(150)); if (r.chance(1, 6) && f != "vscsi1" && f != "vscsi2") p.set("zeros", 1);
  gen_fault(r, p, {{"fopen", "out"}, {"write", "out"}, {"write", "out"}, {"fclose", "out"}, {"open", "data/trace"}, {"mmap", "data/trace"}});
  return p;
}
// ---------------------------------------------------------------- U06 traceAnalyzer
struct AReq { int64_t t; uint64_t id; int64_t size; int op, ttl; };
typedef std::vector<std::string> Lines;
static Lines lines_of(const std::string &s) { Lines v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
// the parts of an output file: runs of lines, each after comment lines
static std::vector<Lines> sections(const std::string &s) { std::vector<Lines> v; bool h = false; for (auto &l : lines_of(s)) { if (l[0] == '#') { if (!h) v.push_back({}); h = true; } else { h = false; if (v.empty()) v.push_back({}); v.back().push_back(l); } } return v; }
static std::vector<double> numbers(const std::string &l) { std::vector<double> v; const char *s = l.c_str(); while (*s) { char *e; if (isdigit((unsigned char)*s) || (*s == '-' && isdigit((unsigned char)s[1]))) { v.push_back(strtod(s, &e)); s = e; } else s++; } return v; }
typedef std::vector<int64_t> Row;
static Row row_of(const std::string &l) { Row v; const char *s = l.c_str(); while (*s) { char *e; long x = strtol(s, &e, 10); if (e == s) { s++; continue; } v.push_back(x); s = e; } while (v.size() && !v.back()) v.pop_back(); return v; }
static std::string show(const Row &r) { std::string s; for (size_t i = 0; i < r.size() && i < 12; i++) s += std::to_string(r[i]) + ","; return "\"" + s + (r.size() > 12 ? "..." : "") + "\""; }
static void bump(Row &r, size_t i) { if (r.size() <= i) r.resize(i + 1); r[i]++; }
static void need_rows(const char *what, const std::string &file, const Lines &l, const std::vector<Row> &w) {
  std::vector<Row> g; for (auto &x : l) g.push_back(row_of(x));
  for (size_t i = 0; i < std::max(g.size(), w.size()); i++) {
    if (i >= g.size() || i >= w.size()) violate("wrong-window", what, "traceAnalyzer exits with success, but %s has %zu lines instead of %zu", file.c_str(), g.size(), w.size());
    Row a = w[i]; while (a.size() && !a.back()) a.pop_back();
    if (g[i] != a) violate("wrong-window", what, "traceAnalyzer exits with success, but line %zu of %s is %s instead of %s", i + 1, file.c_str(), show(g[i]).c_str(), show(a).c_str());
  }
}
static void need_map(const char *what, const std::string &file, const Lines &l, const std::map<int64_t, int64_t> &w) {
  std::map<int64_t, int64_t> g; size_t n = 0; for (auto &x : l) { char *e; int64_t a = strtoll(x.c_str(), &e, 10), b = *e ? strtoll(e + 1, nullptr, 10) : -1; g[a] = b; n++; }
  if (n != g.size()) violate("wrong-distribution", what, "traceAnalyzer exits with success, but %s lists a value twice", file.c_str());
  for (auto &x : w) if (!g.count(x.first) || g[x.first] != x.second) violate("wrong-distribution", what, "traceAnalyzer exits with success, but %s has count %ld for %ld instead of %ld", file.c_str(), (long)(g.count(x.first) ? g[x.first] : 0), (long)x.first, (long)x.second);
  if (g.size() != w.size()) violate("wrong-distribution", what, "traceAnalyzer exits with success, but %s has %zu values instead of %zu", file.c_str(), g.size(), w.size());
}
static Trace atrace(const Plan &p) {
  Trace t = want_of(p); if (t.empty()) return t; std::string f = p.get("fmt"); int64_t b = t[0].t, k = std::max<int64_t>(1, p.geti("tscale", 1)); for (auto &r : t) r.t = b + (r.t - b) * k;
  int64_t span = t.back().t - b + p.geti("agap", 1); size_t n = t.size(); for (int j = 1; j < p.geti("arep", 1); j++) for (size_t i = 0; i < n; i++) { if (p.geti("askew") && i + j > n) break; Rq r = t[i]; r.t += j * span; if (p.geti("anew")) r.id += (uint64_t)j * 1000003; t.push_back(r); }
  if (t.back().t > 4294967295LL) { int64_t d = t.back().t - 4294967295LL; for (auto &r : t) r.t = std::max<int64_t>(0, r.t - d); }
  if (f == "csv" && p.geti("huge")) for (auto &r : t) r.size += (int64_t)(r.id % 5) << 31;
  if (p.geti("nothing")) for (auto &r : t) r.size = 0;
  annotate(t); return t;
}
static void run_u06(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = atrace(p); if (too_short(p, t) || t.empty()) return;
  Cli c = cli_of(p); put_file(c.path, bytes_of(p, t)); step_budget(12000000000LL, "no-progress", "traceAnalyzer"); int64_t cap = p.geti("nreq") ? p.geti("nreq") : -1;
  std::vector<AReq> w;
  { reader_init_param_t ip = c.ip; ip.ignore_size_zero_req = true; ip.cap_at_n_req = cap; reader_t *rd = setup_reader(c.path.c_str(), fmt_type(c.f), &ip); request_t *q = new_request(); while (read_one_req(rd, q) == 0) w.push_back({q->clock_time, q->obj_id, q->obj_size, (int)q->op, q->ttl}); free_request(q); close_reader(rd); }
  int W = p.geti("win", 300), wk = p.geti("wk"), N = p.geti("track", 8), NP = p.geti("pop", 8), inv = p.geti("ainv"); bool ordered = true;
  for (size_t i = 1; i < w.size(); i++) if (w[i].t < w[i - 1].t) ordered = false;
  int64_t t0 = w.empty() ? 0 : w[0].t, span = w.empty() ? 0 : w.back().t - t0; if (ordered && span / W > 3000) W = span / 1000 + 1; if (span >= 1LL << 31) return;
  int64_t warm = 86400; bool dw = !p.geti("wset"); if (!dw) warm = (int64_t)W * wk; bool badw = warm % W; if (warm >= 1LL << 31) return;
  auto args = base_args("traceAnalyzer", c, {}); auto opt = [&](const std::string &k, const std::string &v) { if (p.geti("alt") & 2) args.push_back("--" + k + "=" + v); else { args.push_back("--" + k); args.push_back(v); } };
  int m = p.geti("tasks"), all = p.geti("all"); if (span > 1000000 && (all || m & 2)) { all = 0; m &= ~2; count("outcome.too_long_for_reuse"); }   // its output has a number for each 5 seconds between two requests
  bool o_pop = m & 1, o_reuse = m & 2, o_size = m & 4, o_rate = m & 8, o_acc = m & 16, o_dec = m & 32, o_ttl = m & 64;
  if (all == 1) { args.push_back("--common"); o_pop = o_reuse = o_size = o_rate = o_acc = true; o_dec = false; } else if (all == 2) { args.push_back("--all"); o_pop = o_reuse = o_size = o_rate = o_acc = o_dec = true; }
  else { if (o_pop) args.push_back("--popularity"); if (o_reuse) args.push_back("--reuse"); if (o_size) args.push_back("--size"); if (o_rate) args.push_back("--reqRate"); if (o_acc) args.push_back("--accessPattern"); if (o_dec) args.push_back("--popularityDecay"); }
  if (o_ttl) args.push_back("--ttl");
  if (W != 300) opt("time-window", std::to_string(W)); if (!dw) opt("warmup-sec", std::to_string(warm)); if (p.geti("track")) opt("track-n-hit", std::to_string(N)); if (p.geti("pop")) opt("track-n-popular", std::to_string(NP));
  int sinv = 101; if (inv) { char b[32]; snprintf(b, sizeof b, "%.9g", 1.0 / inv); opt("access-pattern-sample-ratio", b); sinv = (int)(1.0 / atof(b)) + 1; } if (cap > 0) opt("num-req", std::to_string(cap));
  std::string out = c.path.substr(c.path.rfind('/') + 1); if (p.geti("named")) { out = "adir/out"; mkdir("adir", 0777); if (p.geti("alt") & 4) { args.push_back("-o"); args.push_back(out); } else opt("output", out); }
  std::string ws = "_w" + std::to_string(W), o1, o2; Lines names; if (o_pop) names.push_back(".popularity"); if (o_reuse) { names.push_back(".reuse"); names.push_back(".reuseWindow" + ws + "_rt"); names.push_back(".reuseWindow" + ws + "_vt"); } if (o_size) { names.push_back(".size"); names.push_back(".sizeWindow" + ws + "_req"); names.push_back(".sizeWindow" + ws + "_obj"); }
  if (o_rate) names.push_back(".reqRate" + ws); if (o_acc) { names.push_back(".accessRtime"); names.push_back(".accessVtime"); } if (o_dec) names.push_back(".popularityDecay" + ws + "_obj"); if (o_ttl) names.push_back(".ttl");
  if (p.geti("old")) { o1 = "dat: earlier\nnumber of requests: 1, number of objects: 1\n"; o2 = o1 + "\n"; put_file("stat", o1); put_file("traceStat", o2); for (auto &n : names) put_file(out + n, std::string(p.geti("old"), '7') + "\n7:7\n"); }
  Plan q = p; if (q.get("fpath").substr(0, 1) == "@") { q.set("flabel", "distributions"); q.set("fpath", names.empty() ? "stat" : (p.geti("named") ? "out" : "") + names[p.geti("fsel") % names.size()]); }
  int64_t est = 700; if (q.get("fpath")[0] == '.' || q.get("fpath")[0] == 'o') est = std::min<size_t>(60 + w.size() * 6, 3000);
  ToolRun r; if (!judge(q, "traceAnalyzer", tool_traceAnalyzer_main, args, est, r, badw || !ordered || w.empty())) { state(mix(r.how, r.code)); return; }
  if (w.empty()) violate("silent-loss", "empty", "traceAnalyzer exits with success for a trace without requests");
  if (badw) { count("outcome.odd_warmup_accepted"); return; } if (!ordered) { count("outcome.unordered_accepted"); return; }
  // the statistics, computed from the definition
  struct Ob { int64_t n = 0, lastv = 0, lastt = 0, first = 0; }; std::unordered_map<uint64_t, Ob> ob; std::map<int64_t, int64_t> rrt, rvt, szr, szo, ttl; std::vector<Row> wr, wv, sr, so; Row rq, by, oj, fs; std::vector<Row> dec; std::map<uint64_t, std::pair<Row, Row>> acc;
  double sr_ = 0, so_ = 0; uint64_t sumr = 0, sumo = 0; int64_t opc[16] = {0}, ow = 0, lastdec = -1; int64_t nwin = span / W; double lb = log(1.5);
  auto at = [](std::vector<Row> &v, int64_t i) -> Row & { if ((int64_t)v.size() <= i) v.resize(i + 1); return v[i]; }; auto add = [](Row &v, int64_t i, int64_t x) { if ((int64_t)v.size() <= i) v.resize(i + 1); v[i] += x; };
  for (size_t i = 0; i < w.size(); i++) {
    auto &x = w[i]; int64_t T = x.t - t0, k = T / W; auto it = ob.find(x.id); bool nw = it == ob.end(); Ob &o = ob[x.id]; bool fw = nw || o.lastt / W != k; sumr += x.size; if (nw) { sumo += x.size; o.first = T; }
    if (x.op >= 0 && x.op < 16) opc[x.op]++; if (!nw && (x.op == OP_SET || x.op == OP_REPLACE || x.op == OP_CAS)) ow++; if (x.ttl > 0) ttl[x.ttl]++;
    if (nw) { rrt[-1]++; rvt[-1]++; } else { int a = (T - o.lastt) / 5, b = (int)(log((double)((int64_t)i - o.lastv)) / lb); rrt[a]++; rvt[b]++; if (o_reuse) { bump(at(wr, k), a); bump(at(wv, k), b); } }
    szr[x.size]++; if (nw) szo[x.size]++; int sp = x.size > 0 ? (int)(log((double)x.size) / lb) : 0; bump(at(sr, k), sp); if (fw) bump(at(so, k), sp);
    add(rq, k, 1); add(by, k, x.size); add(oj, k, fw); add(fs, k, nw);
    if (x.id % sinv == 0) { acc[x.id].first.push_back(T); acc[x.id].second.push_back(i + 1); }
    int64_t ck = o.first / W - warm / W; if (T >= warm && ck >= 0) { lastdec = std::max(lastdec, k - warm / W); if (fw) bump(at(dec, k - warm / W), ck); }
    o.n++; o.lastv = i; o.lastt = T;
  }
  auto cut = [&](auto &v) { v.resize(nwin); }; cut(wr); cut(wv); cut(sr); cut(so); cut(rq); cut(by); cut(oj); cut(fs);
  // the summaries
  int64_t n = w.size(), no = ob.size(); std::vector<int64_t> fr; for (auto &x : ob) fr.push_back(x.second.n); std::sort(fr.rbegin(), fr.rend()); char tag[40];
  auto summary = [&](const char *where, const std::string &text) {
    auto L = lines_of(text); auto line = [&](const char *k) -> const std::string * { const std::string *r = nullptr; int c = 0; for (auto &l : L) if (l.compare(0, strlen(k), k) == 0) { r = &l; c++; } if (c > 1) violate("wrong-summary", k, "traceAnalyzer exits with success, but %s has %d lines \"%s\"", where, c, k); return r; };
    auto need = [&](const char *k, std::vector<double> v, bool skipn = false) {
      auto *l = line(k); if (!l) violate("wrong-summary", k, "traceAnalyzer exits with success, but %s has no line \"%s\"", where, k); auto g = numbers(l->substr(strlen(k))); bool bad = g.size() != v.size(); size_t at = 0;
      for (size_t i = 0; !bad && i < v.size(); i++) if (!(fabs(g[i] - v[i]) <= 0.00011 + fabs(v[i]) * 1e-5 || std::isnan(v[i]))) { bad = true; at = i; }
      if (bad) { std::string e; for (auto x : v) { snprintf(tag, sizeof tag, "%.4f ", x); e += tag; } violate("wrong-summary", k, "traceAnalyzer exits with success, but %s says \"%s\" where the trace gives %s(value %zu)", where, l->substr(0, 160).c_str(), e.substr(0, 160).c_str(), at + 1); }
    };
    need("number of requests", {(double)n, (double)no}); need("number of req GiB", {sumr / 1073741824., sumo / 1073741824.}); if (sumr) need("compulsory miss ratio (req/byte)", {(double)no / n, (double)sumo / sumr});
    need("object size weighted by req/obj", {floor((double)sumr / n), floor((double)sumo / no)}); need("frequency mean", {(double)n / no}); need("time span", {(double)span, span / 86400.});
    int64_t nwt = opc[OP_SET] + opc[OP_REPLACE] + opc[OP_CAS]; need("write: ", {(double)nwt, (double)nwt / n, (double)ow, (double)ow / n, (double)opc[OP_DELETE], (double)opc[OP_DELETE] / n});
    if (opc[OP_INVALID] < n / 2) { std::vector<double> v; for (int i = 0; i <= OP_INVALID; i++) { v.push_back(opc[i]); v.push_back((double)opc[i] / n); } need("op: ", v); }
    { std::vector<double> v; for (int i = 0; i < N; i++) { int64_t x = 0; for (auto y : fr) x += y == i + 1; v.push_back(x); v.push_back((double)x / no); } need("X-hit (number of obj accessed X times)", v); }
    if (o_pop || line("freq (fraction) of the most popular obj")) { std::vector<double> v; for (int i = 0; i < NP; i++) { double x = i < no ? fr[i] : 0; v.push_back(x); v.push_back(x / n); } need("freq (fraction) of the most popular obj", v); }
    if (o_rate && nwin) { need("request rate ", {(double)*std::min_element(rq.begin(), rq.end()) / W, (double)*std::max_element(rq.begin(), rq.end()) / W, (double)W}); need("object rate ", {(double)*std::min_element(oj.begin(), oj.end()) / W, (double)*std::max_element(oj.begin(), oj.end()) / W, (double)W}); }
    if (o_ttl && ttl.size() > 1) { auto *l = line("TTL: "); if (!l || numbers(*l).empty() || numbers(*l)[0] != ttl.size()) violate("wrong-summary", "TTL", "traceAnalyzer exits with success, but %s does not report the %zu different TTLs: %s", where, ttl.size(), l ? l->substr(0, 100).c_str() : "(no line)"); }
    if (o_pop && no >= 200 && fr[0] >= 200) {
      double a = 0, b = 0, aa = 0, ab = 0; for (int64_t i = 0; i < no; i++) { double x = log(i + 1.0), y = log((double)fr[i]); a += x; b += y; aa += x * x; ab += x * y; } double sl = -(no * ab - a * b) / (no * aa - a * a); auto *l = line("popularity: Zipf"); auto g = l ? numbers(*l) : std::vector<double>();
      if (g.empty() || fabs(g[0] - sl) > 0.001) violate("wrong-summary", "popularity", "traceAnalyzer exits with success, but %s says %s where the slope of log(frequency) over log(rank) is %.4f", where, l ? l->c_str() : "nothing about the popularity", -sl); count("outcome.slope_checked");
    }
  };
  std::string g1 = get_file("stat"), g2 = get_file("traceStat"); if (g1.compare(0, o1.size(), o1) || g2.compare(0, o2.size(), o2)) violate("lost-history", "stat", "traceAnalyzer exits with success, but the earlier entries of the stat or traceStat file are gone");
  summary("the stat file", g1.substr(o1.size())); summary("the traceStat file", g2.substr(o2.size())); summary("standard output", r.out);
  // the distributions
  auto sec = [&](const std::string &x, size_t k) { auto v = sections(get_file(out + x)); if (v.size() < k) violate("missing-output", x.c_str(), "traceAnalyzer exits with success, but %s%s has %zu of %zu parts", out.c_str(), x.c_str(), v.size(), k); return v; };
  if (o_pop) { std::vector<std::pair<int64_t, int64_t>> e, g; for (auto x : fr) if (e.size() && e.back().first == x) e.back().second++; else e.push_back({x, 1}); auto pl = sec(".popularity", 1)[0]; for (auto &l : pl) { char *z; int64_t a = strtoll(l.c_str(), &z, 10); g.push_back({a, *z ? strtoll(z + 1, nullptr, 10) : -1}); }
    if (e != g) violate("wrong-distribution", "popularity", "traceAnalyzer exits with success, but the popularity file (%zu lines) does not hold the %zu frequencies and their counts", g.size(), e.size()); }
  if (o_reuse) { auto v = sec(".reuse", 2); need_map("reuse time", out + ".reuse", v[0], rrt); need_map("reuse distance", out + ".reuse", v[1], rvt); need_rows("reuse time windows", out + ".reuseWindow" + ws + "_rt", sec(".reuseWindow" + ws + "_rt", 1)[0], wr); need_rows("reuse distance windows", out + ".reuseWindow" + ws + "_vt", sec(".reuseWindow" + ws + "_vt", 1)[0], wv); }
  if (o_size) { auto v = sec(".size", 2); need_map("request sizes", out + ".size", v[0], szr); need_map("object sizes", out + ".size", v[1], szo); need_rows("size windows", out + ".sizeWindow" + ws + "_req", sec(".sizeWindow" + ws + "_req", 1)[0], sr); need_rows("size windows", out + ".sizeWindow" + ws + "_obj", sec(".sizeWindow" + ws + "_obj", 1)[0], so); }
  if (o_rate) { auto v = sec(".reqRate" + ws, 4); const char *nm[] = {"request rate", "byte rate", "object rate", "first-seen rate"}; Row *e[] = {&rq, &by, &oj, &fs}; for (int k = 0; k < 4; k++) { Row x; for (auto y : *e[k]) x.push_back(y / W); if (v[k].size() != 1) v[k].resize(1); size_t cn = std::count(v[k][0].begin(), v[k][0].end(), ','); need_rows(nm[k], out + ".reqRate" + ws, v[k], {x}); if ((int64_t)cn != nwin) violate("wrong-window", nm[k], "traceAnalyzer exits with success, but %s lists %zu windows instead of %ld", nm[k], cn, (long)nwin); } }
  if (o_acc) for (int k = 0; k < 2; k++) {
    std::string nm = k ? ".accessVtime" : ".accessRtime"; std::vector<Row> e, g; for (auto &x : acc) e.push_back(k ? x.second.second : x.second.first); int64_t last = -1; bool sorted = true;
    Lines al = sec(nm, 1)[0]; for (auto &l : al) if (l.size()) { Row v = {}; const char *s = l.c_str(); while (*s) { char *z; long y = strtol(s, &z, 10); if (z == s) { s++; continue; } v.push_back(y); s = z; } if (v.size()) { if (v[0] < last) sorted = false; last = v[0]; } g.push_back(v); }
    std::sort(e.begin(), e.end()); std::sort(g.begin(), g.end()); if (e != g || !sorted) violate("wrong-pattern", nm.c_str(), "traceAnalyzer exits with success, but %s%s (%zu objects%s) does not hold the accesses of the %zu sampled objects in order", out.c_str(), nm.c_str(), g.size(), sorted ? "" : ", unsorted", e.size());
    count("outcome.access_pattern_checked", e.size() > 0);
  }
  if (o_dec) { auto v = sec(".popularityDecay" + ws + "_obj", 1); std::vector<Row> e; if (warm && lastdec >= 0) e.push_back({}); for (int64_t k = 0; k < lastdec; k++) e.push_back(k < (int64_t)dec.size() ? dec[k] : Row()); need_rows("popularity decay", out + ".popularityDecay" + ws + "_obj", v[0], e); count("outcome.decay_rows", e.size()); }
  if (o_ttl) need_map("ttl", out + ".ttl", sec(".ttl", 1)[0], ttl);
  ev(hstr(r.out)); count(("format." + f).c_str()); count("outcome.windows_checked", nwin); if (n > 3) nontrivial(); state(mix(mix(n, no), mix(m, nwin)));
}
static Plan gen_u06(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_t("U06", s, i, th); Rng r(mix(mix(s, i), 219)); std::string f = p.get("fmt"); if (p.geti("zst") && r.chance(1, 2)) p.cfg.erase("zst"); p.cfg.erase("rep"); p.cfg.erase("ignoresize"); p.set("longname", 0);
  if (r.chance(1, 2)) { p.ops.clear(); gen_trace(r, p, r.pickl<int>({20, 60, 150, 300}), r.pickl<int>({5, 40, 250, 300}), r.pickl<int64_t>({3, 100, 100000, 1 << 30}), r.chance(1, 6), r.pickl<int>({1, 5, 60, 1000})); }
  if (r.chance(1, 5)) { p.set("arep", r.pickl<int>({2, 5, 30, 200})); p.set("agap", r.pickl<int>({1, 300, 5000, 100000})); p.set("anew", r.chance(1, 3)); if (p.ops.size() > 80 && p.geti("arep") > 30 && !r.chance(1, 4)) p.set("arep", 5); }
  if (r.chance(1, 60) && f != "vscsi1" && f != "vscsi2") { p.ops.clear(); gen_trace(r, p, 215 + r.below(20), 1000000, 100, true, 1); p.set("arep", 205 + r.below(20)); p.set("askew", 1); p.set("agap", 1); p.cfg.erase("anew"); }
  if (r.chance(1, 2)) p.set("tscale", r.pickl<int>({5, 60, 300, 3600})); p.set("win", r.pickl<int>({300, 300, 60, 10, 1, 7, 3600})); if (r.chance(1, 2)) { p.set("wset", 1); p.set("wk", r.pickl<int>({0, 0, 1, 2, 10})); } else if (86400 % p.geti("win") && !r.chance(1, 8)) { p.set("wset", 1); p.set("wk", 1); }
  if (r.chance(1, 3)) p.set("track", 1 + r.below(20)); if (r.chance(1, 3)) p.set("pop", 1 + r.below(40)); if (r.chance(1, 2)) p.set("ainv", r.pickl<int>({2, 3, 10, 50, 1000})); if (r.chance(1, 4) && !p.geti("askew")) p.set("nreq", 1 + r.below(150)); p.set("all", r.chance(1, 4) ? 1 + r.below(2) : 0); p.set("tasks", p.geti("askew") ? 1 + 2 * r.below(64) : r.below(128));
  p.set("named", r.chance(1, 2)); if (r.chance(1, 4)) p.set("old", 1 + r.below(3000)); if (r.chance(1, 6) && f != "vscsi1" && f != "vscsi2") { p.set("zeros", 1); if (r.chance(1, 8)) p.set("nothing", 1); } if (f == "csv" && r.chance(1, 3)) p.set("huge", 1); p.set("fsel", r.below(1 << 16));
  gen_fault(r, p, {{"fopen", "@"}, {"write", "@"}, {"write", "@"}, {"fclose", "@"}, {"fopen", "stat"}, {"write", "stat"}, {"write", "traceStat"}, {"fclose", "traceStat"}, {"write", "console"}, {"write", "console"}, {"open", "data/trace"}, {"mmap", "data/trace"}});
  return p;
}
static auto simp() { auto v = SIMP; for (auto k : {"auto", "autoname", "alt", "longname", "txt", "rmsize", "samp", "zeros", "old", "ignoresize", "wide", "warm", "head", "report", "nreq", "old", "blocked", "md", "parix", "only", "b32", "noname", "frac", "otype", "dist", "lru"}) v.push_back({k, {"0"}}); v.push_back({"named", {"1"}}); v.push_back({"call", {"none"}}); v.push_back({"sched", {"off"}}); return v; }
static Registrar ru01({"U01", "cachesim", gen_u01, run_u01, [] { auto v = simp(); v.push_back({"wsec", {"-1"}}); v.push_back({"adm", {"none"}}); v.push_back({"threads", {"1", "2"}}); v.push_back({"head", {"2"}}); return v; }()});
static Registrar ru03({"U03", "filter", gen_u03, run_u03, simp()});
static Registrar ru04({"U04", "print", gen_u04, run_u04, simp()});
static Registrar ru05({"U05", "distances", gen_u05, run_u05, simp()});
static Registrar ru06({"U06", "analyze", gen_u06, run_u06, [] { auto v = simp(); for (auto k : {"arep", "tscale", "huge", "track", "pop", "ainv", "wset", "wk", "all", "tasks", "fsel", "agap", "anew"}) v.push_back({k, {"0"}}); v.push_back({"tasks", {"1", "2", "4", "8", "16", "32", "64"}}); return v; }()});
static Registrar ru02({"U02", "convert", gen_u02, run_u02, simp()});
}
