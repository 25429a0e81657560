// Trace readers: format equivalence, torn files, navigation, input failures, sampling.
#include <errno.h>
#include <math.h>
#include <algorithm>
#include <unordered_map>
#include "rdplan.h"
using namespace dst;
namespace {
static void read_all(const Plan &p, reader_t *rd, const Trace &w, const char *who, const char *cls = "wrong-request") {
  request_t *q = new_request(); Ids ids; std::string f = p.get("fmt"); bool nottl = !fmt_has(f, 'T'); if (nottl) q->ttl = 4711;  // left by an earlier use of the request
  for (size_t i = 0; i < w.size(); i++) {
    note("%s read %zu", who, i);
    int rc = read_one_req(rd, q);
    if (rc != 0) violate("missing-request", f, "%s: the trace ends after %zu of %zu requests", who, i, w.size());
    std::string d = differs(p, q, w[i], &ids);
    if (d.empty() && nottl && q->ttl != -1) d = "it has a TTL, the trace records none";
    if (d.size()) violate(cls, f, "%s: request %zu of %zu: %s; expected %s", who, i, w.size(), d.c_str(), showr(w[i]).c_str());
    ev(q->obj_id, q->obj_size, q->clock_time);
  }
  for (int k = 0; k < 3; k++) { note("%s read past the end", who); if (read_one_req(rd, q) == 0) violate("extra-request", f, "%s: a request is delivered after the end of the trace (%zu requests)", who, w.size()); if (q->valid) violate("extra-request", f, "%s: the request is still marked valid at the end of the trace", who); }
  free_request(q);
}
// ---------------------------------------------------------------- R01
static void run_r01(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p);
  if (f[0] == 'v' && f[1] == 's' && t.size() < 3) return;
  Trace w = fmt_expect(f, t, true); put_file(path_of(p), bytes_of(p, t)); arm_chunk(p);
  if (p.geti("cnt")) { Trace x = fmt_expect(f, t, false); w.clear(); for (size_t i = 0; i < x.size(); i++) if (x[i].size) for (int k = 1 + mix(x[i].id, i) % 3; k > 0; k--) w.push_back(x[i]); }
  if (p.cfg.count("cap") && p.geti("cap") > 0 && (int64_t)w.size() > p.geti("cap")) w.resize(p.geti("cap"));
  step_budget(3000000000LL, "no-progress", f);
  note("open"); reader_t *rd = open_t(p);
  read_all(p, rd, w, "first pass");
  note("reset"); reset_reader(rd); read_all(p, rd, w, "after reset");
  note("clone"); reader_t *c = clone_reader(rd); read_all(p, c, w, "clone");
  if (!p.cfg.count("cap") && !p.geti("zeros") && !p.geti("cnt")) { note("count"); uint64_t n = get_num_of_req(c); if (n != w.size()) violate("request-count", f, "the trace is said to have %lu requests instead of %zu", (unsigned long)n, w.size()); }
  close_reader(c); close_reader(rd);
  if (io_open_files()) violate("leak", f, "%ld files still open after closing the readers", (long)io_open_files());
  count(("format." + f + (p.geti("zst") ? ".zst" : "")).c_str()); if (w.size() > 2) nontrivial(); state(mix(hstr(f), w.size()));
}
static Plan gen_r01(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_base("R01", s, i, th); Rng r(mix(mix(s, i), 77)); std::string f = p.get("fmt");
  if (r.chance(1, 6) && (f[0] == 'o' || f == "csv" || f == "cf1" || f == "akamai" || f[0] == 'w')) p.set("zeros", 1);
  if (f == "csv" && r.chance(1, 6)) p.set("cnt", 1);
  if (r.chance(1, 8)) p.set("cap", r.pickl<int>({1, 2, 3, 20, -1, 0}));
  return p;
}
// ---------------------------------------------------------------- R02
static void run_r02(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p), w = fmt_expect(f, t, true); std::string b = bytes_of(p, t);
  size_t cut = p.geti("cutbp") * b.size() / 10000; cut = std::min(b.size(), cut + p.geti("cutadd")); 
  std::string torn = b.substr(0, cut); size_t full = 0, upto;
  if (p.geti("zst")) { full = 0; upto = w.size(); }
  else if (is_text(f)) {
    // complete lines; the last, unterminated one may be delivered (its text may be cut short)
    size_t hdr = f == "csv" && p.geti("csvheader") ? 1 : 0, k = 0; bool any = false;
    for (char c : torn) { if (c == '\n') { if (any) k++; any = false; } else if (c != '\r') any = true; }
    full = k >= hdr ? k - hdr : 0; upto = full + 1;
    if (hdr && k == 0) full = 0, upto = 0;   // only (part of) the header
  } else { size_t h = f == "lcs" ? 1024 : 0; full = upto = torn.size() < h ? 0 : (torn.size() - h) / fmt_item_size(f, p); }
  put_file(path_of(p), torn); arm_chunk(p); step_budget(3000000000LL, "no-progress", f);
  std::string got; bool refused = false; size_t n = 0; Ids ids;
  note("open torn file of %zu bytes", torn.size());
  request_t *q = new_request(); reader_t *rd = nullptr;
  if (guarded([&] { rd = open_t(p); }) != 0) refused = true;
  if (refused) {
    bool may = torn.empty() || (f == "lcs" && torn.size() < 1024) || (f[0] == 'v' && f[1] == 's' && torn.size() < 80) || (f == "csv" && full == 0);
    if (!may) violate("refused", f, "a trace with %zu complete records is refused", full);
    count("outcome.refused_with_diagnosis"); if (captured_output().empty()) violate("silent-stop", f, "the program stops without a message on a torn trace");
    return;
  }
  bool stopped = guarded([&] {
    for (;;) {
      note("read %zu of torn file", n);
      if (read_one_req(rd, q) != 0) break;
      if (n >= upto) violate("invented-request", f, "%zu bytes hold %zu complete records, but request %zu is delivered", torn.size(), full, n);
      bool partial = is_text(f) && n >= full;
      if (!partial) { std::string d = differs(p, q, w[n], &ids); if (d.size()) violate("wrong-request", f, "torn to %zu of %zu bytes: request %zu: %s", torn.size(), b.size(), n, d.c_str()); }
      n++; ev(q->obj_id, n);
    }
  }) != 0;
  if (stopped && !p.geti("zst")) violate("abort", f, "reading a torn trace stops the program after %zu of %zu complete records", n, full);
  if (!p.geti("zst") && n < full) violate("missing-request", f, "only %zu of %zu complete records are delivered", n, full);
  if (p.geti("zst") && torn.size() == b.size() && n < w.size()) violate("missing-request", f, "only %zu of %zu records are delivered", n, w.size());
  if (!stopped && !p.geti("zst") && !is_text(f) && n) { note("count"); uint64_t c = get_num_of_req(rd); if (c != full) violate("request-count", f, "%zu bytes hold %zu complete records, but the trace is said to have %lu requests", torn.size(), full, (unsigned long)c); }
  if (!stopped) { note("reset"); reset_reader(rd); size_t m = 0; while (m <= upto && read_one_req(rd, q) == 0) m++; if (m != n) violate("unstable", f, "the torn trace has %zu requests on the first pass and %zu after a reset", n, m); close_reader(rd); }
  count(torn.size() == b.size() ? "outcome.not_torn" : "fault.torn_file"); count(("format." + f).c_str()); if (n) nontrivial(); state(mix(mix(hstr(f), full), torn.size()));
}
static Plan gen_r02(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_base("R02", s, i, th); Rng r(mix(mix(s, i), 78)); p.set("cutbp", r.below(10001)); p.set("cutadd", r.below(30)); p.cfg.erase("ignoresize"); p.cfg.erase("autodetect"); p.cfg.erase("longline");
  return p;
}
// ---------------------------------------------------------------- R03
struct Cur { reader_t *r; int64_t pos; std::string name; };
static void run_r03(const Plan &p) {
  std::string f = p.get("fmt"); bool zst = p.geti("zst"), text = is_text(f); Trace t = want_of(p); if (f[0] == 'v' && f[1] == 's' && t.size() < 3) return;
  Trace w = fmt_expect(f, t, true); int64_t n = w.size(); put_file(path_of(p), bytes_of(p, t) + std::string(p.geti("tail"), 'z')); arm_chunk(p); step_budget(3000000000LL, "no-progress", f);
  if (p.geti("cnt")) {
    // rows that stand for several requests: the trace read from its end is the trace read from its start, backwards
    Trace x; for (int64_t i = 0; i < n; i++) for (int k = 1 + mix(w[i].id, i) % 3; k > 0; k--) x.push_back(w[i]);
    reader_t *rd = open_t(p); request_t *q = new_request(); Ids ids; int64_t m = 0, N = x.size();
    for (int pass = 0; pass < 2; pass++) {
      note("backwards pass %d", pass);
      if (n) { reader_set_read_pos(rd, 1.0); if (go_back_one_req(rd) != 0) violate("position", f, "go_back_one_req fails at the end of a trace of %ld rows", (long)n); }
      rd->read_direction = READ_BACKWARD;
      for (m = 0; m < N; m++) { int rc = m ? read_one_req_above(rd, q) : read_one_req(rd, q); if (rc != 0) violate("position", f, "reading backwards ends after %ld of %ld requests", (long)m, (long)N); std::string d = differs(p, q, x[N - 1 - m], &ids); if (d.size()) violate("position", f, "reading backwards, request %ld of %ld: %s", (long)m, (long)N, d.c_str()); ev(q->obj_id, m); }
      if (n && read_one_req_above(rd, q) == 0) violate("position", f, "reading backwards delivers more than the %ld requests", (long)N);
      rd->read_direction = READ_FORWARD; note("reset"); reset_reader(rd); read_all(p, rd, x, "forwards after reading backwards"); reset_reader(rd);
    }
    note("count"); int64_t g = get_num_of_req(rd); if (g != N) violate("request-count", f, "%ld requests counted instead of %ld", (long)g, (long)N);
    close_reader(rd); count("op.backwards_with_counts"); if (n > 2) nontrivial(); state(mix(N, n)); return;
  }
  std::vector<Cur> cs; cs.push_back({open_t(p), 0, "reader"}); request_t *q = new_request(); Ids ids; int k = 0;
  auto expect = [&](Cur &c, int rc, int64_t i, const char *what) {
    if (i < 0 || i >= n) { if (rc == 0) violate("position", f, "op %d: %s of %s at position %ld of %ld delivers a request where there is none", k, what, c.name.c_str(), (long)c.pos, (long)n); return; }
    if (rc != 0) violate("position", f, "op %d: %s of %s at position %ld of %ld delivers nothing instead of request %ld", k, what, c.name.c_str(), (long)c.pos, (long)n, (long)i);
    std::string d = differs(p, q, w[i], &ids); if (d.size()) violate("position", f, "op %d: %s of %s at position %ld of %ld should deliver request %ld: %s", k, what, c.name.c_str(), (long)c.pos, (long)n, (long)i, d.c_str());
    ev(q->obj_id, i);
  };
  for (auto &o : p.ops) {
    if (o.is("q")) continue;
    k++; Cur &c = cs[o.a[1] % cs.size()]; note("op %d %s on %s at %ld", k, o.k, c.name.c_str(), (long)c.pos); count(("op." + std::string(o.k)).c_str());
    if (o.is("read")) { for (int j = 0; j < 1 + o.a[0] % 8; j++) { int rc = read_one_req(c.r, q); expect(c, rc, c.pos, "read"); if (c.pos < n) c.pos++; } }
    else if (o.is("reset")) { reset_reader(c.r); c.pos = 0; }
    else if (o.is("clone") && cs.size() < 4) { reader_t *x = clone_reader(c.r); cs.push_back({x, 0, "clone " + std::to_string(k)}); }
    else if (o.is("close") && cs.size() > 1) { int i = 1 + o.a[0] % (cs.size() - 1); close_reader(cs[i].r); cs.erase(cs.begin() + i); }
    else if (o.is("count")) { int64_t m = get_num_of_req(c.r); if (m != n) violate("request-count", f, "op %d: %ld requests counted instead of %ld", k, (long)m, (long)n); }
    else if (o.is("skip")) { int m = o.a[0] % (n + 3), e = std::min<int64_t>(m, n - c.pos); int g = skip_n_req(c.r, m); if (g != e) violate("skip", f, "op %d: skip_n_req(%d) at position %ld of %ld reports %d skipped instead of %d", k, m, (long)c.pos, (long)n, g, e); c.pos += e; }
    else if (o.is("first") && n) { read_first_req(c.r, q); expect(c, 0, 0, "read_first_req"); }
    else if (o.is("last") && !zst && n) { read_last_req(c.r, q); expect(c, 0, n - 1, "read_last_req"); }
    else if (o.is("back") && !zst) { int rc = go_back_one_req(c.r); if ((rc == 0) != (c.pos > 0)) violate("position", f, "op %d: go_back_one_req at position %ld of %ld returns %d", k, (long)c.pos, (long)n, rc); if (c.pos > 0) c.pos--; }
    else if (o.is("above") && !zst) { if (c.pos < 2) continue; int rc = read_one_req_above(c.r, q); expect(c, rc, c.pos - 2, "read_one_req_above"); c.pos--; }
    else if (o.is("end") && !zst) { reader_set_read_pos(c.r, o.a[0] % 3 ? 1.0 : 1.0 + o.a[0] % 50 / 10.0); c.pos = n; }
    else if (o.is("start") && !zst) { reader_set_read_pos(c.r, 0); c.pos = 0; }
    else if (o.is("frac") && !zst && !p.geti("blank")) {
      double x = o.a[0] % 1000 / 1000.0; reader_set_read_pos(c.r, x); int rc = read_one_req(c.r, q);
      // lands on some request boundary near that fraction of the file; find which by content
      int64_t lo = (int64_t)(n * x) - (text || f == "lcs" ? n : 1), hi = (int64_t)(n * x) + (text || f == "lcs" ? n : 1), at = -1;
      if (rc == 0) { for (int64_t i = std::max<int64_t>(0, lo); i < n && i <= hi && at == -1; i++) { Ids i2 = ids; if (differs(p, q, w[i], &i2).empty()) { bool u = true; for (int64_t j = i + 1; j < n && j <= hi; j++) { Ids i3 = ids; if (differs(p, q, w[j], &i3).empty()) u = false; } at = i; if (!u) { at = -2; break; } } }
        if (at == -1) violate("position", f, "op %d: reader_set_read_pos(%.3f) lands on something that is no request near there", k, x);
      }
      if (at >= 0) c.pos = at + 1; else { reset_reader(c.r); c.pos = 0; }
    }
  }
  for (auto &c : cs) { int rc = read_one_req(c.r, q); expect(c, rc, c.pos, "final read"); if (c.pos < n) c.pos++; while (c.pos < n) { rc = read_one_req(c.r, q); expect(c, rc, c.pos, "final read"); c.pos++; } }
  for (size_t i = cs.size(); i-- > 0;) close_reader(cs[i].r);
  if (io_open_files()) violate("leak", f, "%ld files still open after closing the readers", (long)io_open_files());
  count(("format." + f).c_str()); if (n > 2 && k > 2) nontrivial(); state(mix(mix(hstr(f), n), k));
}
static Plan gen_r03(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_base("R03", s, i, th, true); Rng r(mix(mix(s, i), 79)); p.cfg.erase("rep"); std::string f = p.get("fmt"); bool text = is_text(f); if (p.ops.size() > 40) p.ops.resize(40);
  if (!text && !p.geti("zst") && f.substr(0, 2) != "vs" && r.chance(1, 4)) p.set("tail", 1 + r.below(fmt_item_size(f, p) - 1));
  if (f == "csv" && r.chance(1, 6)) { p.set("cnt", 1); p.cfg.erase("zeros"); }
  int m = 3 + r.below(th ? 60 : 30);
  static const char *K[] = {"read", "read", "read", "reset", "clone", "close", "count", "skip", "first", "last", "back", "back", "above", "above", "end", "start", "frac"};
  for (int j = 0; j < m; j++) p.ops.push_back(Op(K[r.below(17)], r.below(1 << 20), r.below(4)));
  return p;
}
// ---------------------------------------------------------------- R04
static void run_r04(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p); if (f[0] == 'v' && f[1] == 's' && t.size() < 3) return;
  Trace w = fmt_expect(f, t, true); std::string data = bytes_of(p, t); put_file(path_of(p), data); arm_chunk(p); step_budget(3000000000LL, "no-progress", f);
  IoFault fl; memset(&fl, 0, sizeof fl); snprintf(fl.call, sizeof fl.call, "%s", p.get("call", "read").c_str()); snprintf(fl.path, sizeof fl.path, "t."); fl.kind = p.geti("fkind"); fl.nth = p.geti("nth"); fl.err = p.geti("ferr", EIO); fl.sticky = p.geti("sticky");
  if (fl.kind == 3 || fl.kind == 2) fl.nth = p.geti("offbp") * data.size() / 10000;
  io_arm({fl}); request_t *q = new_request(); reader_t *rd = nullptr; size_t n = 0; Ids ids; bool eof = false;
  int code = 0, rc = guarded([&] {
    note("open with failing %s", fl.call); rd = open_t(p);
    for (;;) { note("read %zu with failing %s", n, fl.call); if (read_one_req(rd, q) != 0) { eof = true; break; }
      if (n >= w.size()) violate("wrong-request", f, "request %zu delivered after the end of the trace while %s fails", n, fl.call); ev(q->obj_id, n);
      std::string d = differs(p, q, w[n], &ids); if (d.size()) violate("wrong-request", f, "after a failing %s (%s), request %zu is delivered with %s", fl.call, strerror(fl.err), n, d.c_str()); n++; }
  }, &code);
  int fired = io_fired_count(); io_disarm(); fflush(stdout); std::string out = captured_output() + captured_stdout(); ev(rc, n, fired);
  count(fired ? (std::string("fault.") + fl.call).c_str() : "outcome.fault_not_reached"); 
  if (rc == 2 && code == 0) violate("silent-stop", f, "the program stops with status 0 although %s failed", fl.call);
  if (rc != 0 && !fired) violate("abort", f, "the program stops although nothing failed");
  if (rc != 0 && out.empty()) violate("silent-stop", f, "the program stops without a message after a failing %s", fl.call);
  if (rc == 0 && n < w.size()) { if (!fired) violate("missing-request", f, "only %zu of %zu requests", n, w.size()); if (out.empty()) violate("silent-truncation", f, "%s failed with %s and the trace silently ends after %zu of %zu requests", fl.call, strerror(fl.err), n, w.size()); }
  if (rc == 0) { note("reset after the faults stopped"); reset_reader(rd); read_all(p, rd, w, "after the faults stopped and a reset", "wrong-after-recovery"); close_reader(rd); }
  if (fired) nontrivial(); state(mix(mix(hstr(f), hstr(fl.call, strlen(fl.call))), mix(fl.kind, n)));
  count(rc ? "outcome.stopped_with_diagnosis" : n == w.size() ? "outcome.complete" : "outcome.truncated_with_message");
}
static Plan gen_r04(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_base("R04", s, i, th, true); Rng r(mix(mix(s, i), 80)); std::string f = p.get("fmt");
  bool rd = is_text(f) || p.geti("zst");
  std::string c = rd ? r.pickl<const char *>({"read", "read", "read", "fopen", "open", "fstat"}) : r.pickl<const char *>({"open", "fstat", "mmap"});
  p.set("call", c); p.set("fkind", c == "read" ? r.pickl<int>({0, 2, 3}) : 0); p.set("nth", c == "read" ? r.below(6) : r.below(3)); p.set("offbp", r.below(10001)); p.set("sticky", r.chance(2, 3));
  p.set("ferr", c == "open" || c == "fopen" ? r.pickl<int>({ENOENT, EACCES, EMFILE, EIO}) : c == "mmap" ? r.pickl<int>({ENOMEM, EIO}) : EIO);
  return p;
}
// ---------------------------------------------------------------- R05
static void run_r05(const Plan &p) {
  std::string f = p.get("fmt"); Trace t = want_of(p); if (f[0] == 'v' && f[1] == 's' && t.size() < 3) return;
  Trace w = fmt_expect(f, t, true); put_file(path_of(p), bytes_of(p, t)); arm_chunk(p); step_budget(3000000000LL, "no-progress", f);
  bool spatial = p.geti("spatial", 1); int inv = p.geti("inv", 2); auto mk = [&] { return spatial ? create_spatial_sampler(1.0 / inv) : create_temporal_sampler(1.0 / inv); };
  note("open with sampler"); reader_t *rd = open_t(p, mk()); request_t *q = new_request(); std::vector<Rq> got;
  auto pass = [&](reader_t *r) { std::vector<Rq> g; while (read_one_req(r, q) == 0) { Rq x; x.id = q->obj_id; x.t = q->clock_time; x.size = q->obj_size; x.next = 0; ev(x.id, x.size); g.push_back(x); if (g.size() > w.size()) violate("sampling", f, "more requests after sampling than before"); } if (q->valid) violate("extra-request", f, "the request is still marked valid at the end of the sampled trace"); return g; };
  note("clone before reading"); reader_t *c = clone_reader(rd);
  note("sampled pass"); got = pass(rd);
  auto eq = [&](const Rq &a, const Rq &b) { return a.id == b.id && (!fmt_has(f, 't') || a.t == b.t) && (!fmt_has(f, 's') || p.geti("ignoresize") || a.size == b.size); };
  const char *key = spatial ? "spatial" : "temporal";
  if (spatial) {
    // objects are kept or dropped as a whole
    std::unordered_map<uint64_t, int> kept; for (auto &g : got) kept[g.id] = 1;
    std::vector<Rq> e; for (auto &x : w) if (kept.count(x.id)) e.push_back(x);
    bool ok = e.size() == got.size(); for (size_t i = 0; ok && i < e.size(); i++) ok = eq(e[i], got[i]);
    if (!ok) violate("partial-object", key, "spatial sampling with ratio 1/%d keeps %zu requests of objects that have %zu", inv, got.size(), e.size());
    // the choice depends on the object only: another trace with the same objects keeps the same ones
    std::vector<uint64_t> objs; for (auto &x : w) objs.push_back(x.id); sampler_t *s = mk();
    for (auto o : objs) { request_t *z = new_request(); z->obj_id = o; z->obj_size = 1; bool k = s->sample(s, z); if (k != (bool)kept.count(o)) violate("object-choice", key, "object %lu is %s by a sampler of the same ratio, %s in the trace", (unsigned long)o, k ? "kept" : "dropped", kept.count(o) ? "kept" : "dropped"); free_request(z); }
    s->free(s);
    if (p.geti("wide") && p.geti("many")) { double m = p.geti("many"), k = 0; sampler_t *s2 = mk(); request_t *z = new_request(); for (int i = 0; i < m; i++) { z->obj_id = p.geti("seq") ? i : mix(p.geti("idseed"), i); z->hv = 0; k += s2->sample(s2, z); } s2->free(s2); double mean = m / inv, sd = sqrt(m / inv * (1 - 1.0 / inv)); if (fabs(k - mean) > (m > 1e7 ? 5 : 8) * sd + 2) violate("sampling-rate", key, "%.0f of %.0f objects kept with ratio 1/%d", k, m, inv); }
  } else {
    std::vector<Rq> e; for (size_t i = inv - 1; i < w.size(); i += inv) e.push_back(w[i]);
    bool ok = e.size() == got.size(); for (size_t i = 0; ok && i < e.size(); i++) ok = eq(e[i], got[i]);
    if (!ok) violate("temporal", key, "temporal sampling with ratio 1/%d keeps %zu requests; every %d-th of %zu are %zu", inv, got.size(), inv, w.size(), e.size());
  }
  note("clone pass"); std::vector<Rq> g2 = pass(c);
  bool ok = g2.size() == got.size(); for (size_t i = 0; ok && i < g2.size(); i++) ok = eq(g2[i], got[i]);
  if (!ok) violate("clone-differs", key, "a clone of the sampling reader delivers %zu requests, the reader %zu", g2.size(), got.size());
  { reset_reader(rd); note("after reset"); std::vector<Rq> g3 = pass(rd); ok = g3.size() == got.size(); for (size_t i = 0; ok && i < g3.size(); i++) ok = eq(g3[i], got[i]); if (!ok) violate("reset-differs", key, "after a reset the sampling reader delivers %zu requests, before %zu", g3.size(), got.size()); }
  close_reader(c); close_reader(rd);
  ev(got.size(), w.size()); count(key); if (got.size() && got.size() < w.size()) nontrivial(); state(mix(got.size(), w.size()));
}
static Plan gen_r05(uint64_t s, uint64_t i, bool th) {
  Plan p = gen_base("R05", s, i, th); Rng r(mix(mix(s, i), 81)); p.cfg.erase("idstr"); p.set("spatial", r.chance(2, 3)); p.set("inv", r.pickl<int>({2, 2, 3, 4, 7, 10, 93, 99, 100, 105})); if (r.chance(1, 4)) { p.set("many", r.pickl<int>({2000, 20000})); p.set("wide", 1); p.set("seq", r.below(2)); }
  if (p.geti("spatial") && r.chance(1, 800)) { p.set("inv", 93); p.set("wide", 1); p.set("many", 26000000); p.set("seq", 1); }   // 1.0 / (1.0 / 93) < 93
  return p;
}
#define REG(id, fn, gn) static Registrar reg_##id({#id, "reader", gn, fn, SIMP});
REG(R01, run_r01, gen_r01) REG(R02, run_r02, gen_r02) REG(R03, run_r03, gen_r03) REG(R04, run_r04, gen_r04) REG(R05, run_r05, gen_r05)
}
