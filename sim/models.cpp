// H06: every policy with a published deterministic rule is run next to a small executable
// reference model; the resident sets have to agree after every operation.
#include <deque>
#include <list>
#include <memory>
#include "hist.h"
#include "libCacheSim/dataStructure/minimalIncrementCBF.h"
using namespace dst;
typedef std::set<int> Ids;
struct Model {
  int64_t cap = 0, md = 0;
  virtual ~Model() {}
  virtual bool get(int o, int64_t z) = 0;         // client request: returns hit
  virtual void rm(int o) = 0;                     // o is resident
  virtual void evict(int64_t z) = 0;              // make room once, z: size of the incoming object
  virtual bool has(int o) const = 0;
  virtual int64_t occ() const = 0;
  virtual int n() const = 0;
  virtual std::string show() const { return ""; }
};
struct Ent { int o; int64_t z; int f; };
typedef std::list<Ent> L;  // front = most recently inserted
static L::iterator at(L &l, int o) { for (auto i = l.begin(); i != l.end(); ++i) if (i->o == o) return i; return l.end(); }
static bool in(const L &l, int o) { for (auto &e : l) if (e.o == o) return true; return false; }
static int64_t bytes(const L &l, int64_t md) { int64_t s = 0; for (auto &e : l) s += e.z + md; return s; }
static std::string str(const L &l) { std::string s; for (auto &e : l) { s += std::to_string(e.o); if (e.f) s += "/" + std::to_string(e.f); s += " "; } return s; }

// one queue: FIFO, LRU, MRU, Clock, Sieve
struct One : Model {
  L q; int kind, maxf; int hand = -1;  // hand: object id, -1 = tail
  enum { FIFO, LRU, MRU, CLOCK, SIEVE };
  One(int k, int64_t c, int64_t m, int mf = 1) : kind(k), maxf(mf) { cap = c; md = m; }
  bool has(int o) const override { return in(q, o); }
  int64_t occ() const override { return bytes(q, md); }
  int n() const override { return q.size(); }
  std::string show() const override { return str(q); }
  bool touch(int o) {
    auto i = at(q, o); if (i == q.end()) return false;
    if (kind == LRU || kind == MRU) q.splice(q.begin(), q, i);
    if (kind == CLOCK && i->f < maxf) i->f++;
    if (kind == SIEVE) i->f = 1;
    return true;
  }
  void insert(int o, int64_t z) { q.push_front({o, z, 0}); }
  bool fits(int64_t z) const { return z + md <= cap; }
  bool get(int o, int64_t z) override {
    if (touch(o)) return true;
    if (fits(z)) { while (occ() + z + md > cap) evict(z); insert(o, z); }
    return false;
  }
  void rm(int o) override {
    auto i = at(q, o);
    if (kind == SIEVE && hand == o) hand = i == q.begin() ? -1 : std::prev(i)->o;
    q.erase(i);
  }
  Ent pop() { Ent e; 
    if (kind == MRU) { e = q.front(); q.pop_front(); return e; }
    if (kind == CLOCK) while (q.back().f > 0) { q.back().f--; q.splice(q.begin(), q, std::prev(q.end())); }
    if (kind == SIEVE) {
      auto i = hand < 0 ? std::prev(q.end()) : at(q, hand);
      while (i->f > 0) { i->f = 0; i = i == q.begin() ? std::prev(q.end()) : std::prev(i); }
      e = *i; hand = i == q.begin() ? -1 : std::prev(i)->o; q.erase(i); return e;
    }
    e = q.back(); q.pop_back(); return e;
  }
  void evict(int64_t) override { pop(); }
};
struct Slru : Model {
  std::vector<L> s; std::vector<int64_t> mx; bool fifo = false, tight = false;  // fifo: a hit in the highest segment does not move the object; tight: no segment exceeds its share
  bool has(int o) const override { for (auto &l : s) if (in(l, o)) return true; return false; }
  int64_t occ() const override { int64_t t = 0; for (auto &l : s) t += bytes(l, md); return t; }
  int n() const override { int t = 0; for (auto &l : s) t += l.size(); return t; }
  std::string show() const override { std::string r; for (auto &l : s) r += str(l) + "| "; return r; }
  void cool(int i) {
    if (i == 0) return evict(0);
    s[i - 1].splice(s[i - 1].begin(), s[i], std::prev(s[i].end()));
    while (bytes(s[i - 1], md) > mx[i - 1]) cool(i - 1);
  }
  bool get(int o, int64_t z) override {
    for (int i = 0; i < (int)s.size(); i++) {
      auto it = at(s[i], o); if (it == s[i].end()) continue;
      int t = std::min<int>(i + 1, s.size() - 1);
      if (t == i && fifo) return true;
      s[t].splice(s[t].begin(), s[i], it);
      if (t != i) for (;;) { int w = 0; for (int k = 0; k < (int)s.size(); k++) if (in(s[k], o)) w = k; if (bytes(s[w], md) <= mx[w]) break; cool(w); }
      return true;
    }
    if (z + md > mx[0] || z + md > cap) return false;
    while (occ() + z + md > cap) evict(z);
    int w = -1; for (int i = 0; i < (int)s.size() && w < 0; i++) if (bytes(s[i], md) + z + md <= mx[i]) w = i;
    if (w < 0 && tight) while (bytes(s[0], md) + z + md > mx[0]) s[0].pop_back();
    s[std::max(w, 0)].push_front({o, z, 0});
    return false;
  }
  void rm(int o) override { for (auto &l : s) { auto i = at(l, o); if (i != l.end()) { l.erase(i); return; } } }
  void evict(int64_t) override { for (auto &l : s) if (!l.empty()) { l.pop_back(); return; } }
};
// small queue + main queue + ghost: TwoQ, S3FIFO, QDLP
struct Two : Model {
  enum { TWOQ, S3, QD, S3L } kind; bool eager = true; std::unique_ptr<One> in_, main, ghost; int thr = 2; bool gh = false;
  bool has(int o) const override { return in_->has(o) || main->has(o); }
  int64_t occ() const override { return in_->occ() + main->occ(); }
  int n() const override { return in_->n() + main->n(); }
  std::string show() const override { return in_->show() + "| " + main->show() + "| ghost " + (ghost ? ghost->show() : ""); }
  bool get(int o, int64_t z) override {
    gh = false;
    auto i = at(in_->q, o);
    if (i != in_->q.end()) {
      i->f++;
      if (kind == S3L && eager && i->f >= thr) { int64_t oz = i->z; in_->rm(o); main->insert(o, oz); }
      return true;
    }
    if (ghost && ghost->has(o)) { ghost->rm(o); gh = true; }
    if (kind == S3) { auto m = at(main->q, o); if (m != main->q.end()) { m->f++; return true; } }
    else if (main->touch(o)) return true;
    if (z + md > cap || z + md > in_->cap) return false;
    while (occ() + z + md > cap) evict(z);
    if (!gh) in_->insert(o, z);
    else if (kind == S3 || kind == S3L) main->insert(o, z);
    else main->get(o, z);
    gh = false; return false;
  }
  void rm(int o) override { if (in_->has(o)) in_->rm(o); else main->rm(o); }
  void evict(int64_t z) override {
    if (kind == TWOQ) {
      if (in_->occ() > in_->cap || main->n() == 0) { Ent e = in_->pop(); ghost->get(e.o, e.z); } else main->pop();
    } else if (kind == QD) {
      if (in_->n() == 0) { main->pop(); return; }
      Ent e = in_->pop();
      if (e.f >= thr) main->get(e.o, e.z); else if (ghost) ghost->get(e.o, e.z);
    } else if (main->occ() > main->cap || in_->n() == 0) {
      if (kind == S3L) { main->pop(); return; }
      while (main->n()) { Ent e = main->pop(); if (e.f < 1) break; e.f = std::min(e.f, 3) - 1; main->q.push_front(e); }
    } else while (in_->n()) {
      Ent e = in_->pop();
      if ((kind == S3 || !eager) && e.f >= thr) main->insert(e.o, e.z); else { if (ghost) ghost->get(e.o, e.z); break; }
    }
  }
};
struct Arc : Model {
  L t1, t2, b1, b2; double p = 0; int gh = 0; bool lim = false;  // lim: a ghost list holds no more than the capacity (forced evictions could fill it further)
 
  bool has(int o) const override { return in(t1, o) || in(t2, o); }
  int64_t B(const L &l) const { return bytes(l, md); }
  int64_t occ() const override { return B(t1) + B(t2); }
  int n() const override { return t1.size() + t2.size(); }
  std::string show() const override { return "T1 " + str(t1) + "T2 " + str(t2) + "B1 " + str(b1) + "B2 " + str(b2) + "p " + std::to_string(p); }
  bool get(int o, int64_t z) override {
    gh = 0;
    auto i = at(t1, o); if (i != t1.end()) { t2.splice(t2.begin(), t1, i); return true; }
    i = at(t2, o); if (i != t2.end()) { t2.splice(t2.begin(), t2, i); return true; }
    i = at(b1, o); if (i != b1.end()) { p = std::min(p + std::max((double)B(b2) / B(b1), 1.0), (double)cap); b1.erase(i); gh = 1; }
    else { i = at(b2, o); if (i != b2.end()) { p = std::max(p - std::max((double)B(b1) / B(b2), 1.0), 0.0); b2.erase(i); gh = 2; } }
    if (z + md > cap) return false;
    while (occ() + z + md > cap) evict(z);
    (gh ? t2 : t1).push_front({o, z, 0});
    gh = 0; return false;
  }
  void replace() {
    int64_t s = B(t1);
    bool one = (s > 0 && (s > p || (s == p && gh == 2))) || t2.empty();
    L &f = one ? t1 : t2, &g = one ? b1 : b2; g.splice(g.begin(), f, std::prev(f.end()));
    while (lim && B(g) > cap) g.pop_back();
  }
  void evict(int64_t z) override {
    if (gh) return replace();
    if (B(t1) + B(b1) + z + md > cap) {
      if (!b1.empty()) { b1.pop_back(); replace(); } else t1.pop_back();
    } else {
      while (B(t1) + B(b1) + B(t2) + B(b2) >= 2 * cap && !b2.empty()) { b2.pop_back(); if (!lim) break; }
      replace();
    }
  }
  void rm(int o) override { auto i = at(t1, o); if (i != t1.end()) t1.erase(i); else t2.erase(at(t2, o)); }
};
// FIFO-Reinsertion: n-exam objects are examined in queue order, the n-keep most recently used ones go back to the head
struct Reins : Model {
  L q; std::map<int, int64_t> last; int E = 100, K = 20, cur = -1; int64_t t = 0;
  bool has(int o) const override { return in(q, o); }
  int64_t occ() const override { return bytes(q, md); }
  int n() const override { return q.size(); }
  std::string show() const override { return str(q) + "next " + std::to_string(cur); }
  L::iterator up(L::iterator i) { return i == q.begin() ? std::prev(q.end()) : std::prev(i); }
  bool get(int o, int64_t z) override {
    t++;
    if (has(o)) { last[o] = t; return true; }
    if (z + md > cap) return false;
    while (occ() + z + md > cap) evict(z);
    q.push_front({o, z, 0}); last[o] = t; return false;
  }
  void rm(int o) override { auto i = at(q, o); if (cur == o) cur = i == q.begin() ? -1 : std::prev(i)->o; q.erase(i); }
  void evict(int64_t) override {
    auto i = cur < 0 ? std::prev(q.end()) : at(q, cur);
    if ((int)q.size() <= E) { cur = i->o; rm(cur); return; }
    std::vector<int> w; for (int k = 0; k < E; k++, i = up(i)) w.push_back(i->o);
    cur = i->o; std::sort(w.begin(), w.end(), [&](int a, int b) { return last[a] < last[b]; });
    for (int k = 0; k < E; k++) { auto x = at(q, w[k]); if (k < E - K) q.erase(x); else q.splice(q.begin(), q, x); }
  }
};
// FIFO-Merge: of n-exam objects examined in queue order all but the n-keep most recently used ones are evicted, one by one
struct Merge : Model {
  L q; std::map<int, int64_t> last; std::vector<int> w; size_t pos = 0; int E = 100, K = 50, cur = -1; int64_t t = 0;
  bool has(int o) const override { return in(q, o); }
  int64_t occ() const override { return bytes(q, md); }
  int n() const override { return q.size(); }
  std::string show() const override { return str(q) + "next " + std::to_string(cur); }
  bool get(int o, int64_t z) override {
    t++;
    if (has(o)) { last[o] = t; return true; }
    if (z + md > cap) return false;
    while (occ() + z + md > cap) evict(z);
    q.push_front({o, z, 0}); last[o] = t; return false;
  }
  void rm(int o) override { auto i = at(q, o); if (cur == o) cur = i == q.begin() ? -1 : std::prev(i)->o; for (auto &x : w) if (x == o) x = -1; q.erase(i); }
  void evict(int64_t) override {
    while (pos < (size_t)std::min<size_t>(w.size(), std::max(1, E - K))) { int o = w[pos++]; if (o >= 0) { rm(o); return; } }
    w.clear(); pos = 0;
    if ((int)q.size() <= E) { q.pop_back(); cur = -1; return; }
    for (int k = 0; k < E; k++) { auto i = cur < 0 ? std::prev(q.end()) : at(q, cur); w.push_back(i->o); cur = i == q.begin() ? -1 : std::prev(i)->o; }
    std::sort(w.begin(), w.end(), [&](int a, int b) { return last[a] < last[b]; });
    pos = 1; rm(w[0]);
  }
};
// flashProb when every object evicted from RAM goes to the disk
struct Flash : Model {
  std::unique_ptr<One> ram, disk;
  bool has(int o) const override { return ram->has(o) || disk->has(o); }
  int64_t occ() const override { return ram->occ() + disk->occ(); }
  int n() const override { return ram->n() + disk->n(); }
  std::string show() const override { return ram->show() + "| " + disk->show(); }
  bool get(int o, int64_t z) override {
    if (ram->touch(o) || disk->touch(o)) return true;
    if (z + md > cap) return false;
    while (occ() + z + md > cap) evict(z);
    ram->insert(o, z); return false;
  }
  void rm(int o) override { (ram->has(o) ? ram : disk)->rm(o); }
  void evict(int64_t) override { if (!ram->n()) { disk->pop(); return; } Ent e = ram->pop(); disk->get(e.o, e.z); }
};
// W-TinyLFU: an LRU window in front of a main queue; the counts come from the library's sketch, which never counts an object low
struct Tiny : Model {
  One win; std::unique_ptr<One> main; std::unique_ptr<Slru> seg; minimalIncrementCBF cbf; std::map<int, unsigned> cnt; int64_t hits = 0, wcap, mcap; const Plan &p;
  Tiny(const Plan &p, int64_t c, int64_t m, double w, int kind) : win(One::LRU, (int64_t)(c * w), m), p(p) {
    cap = c; md = m; wcap = (int64_t)(c * w); mcap = c - wcap; memset(&cbf, 0, sizeof cbf); minimalIncrementCBF_init(&cbf, mcap, 0.001);
    if (kind < 0) { seg.reset(new Slru); seg->cap = mcap; seg->md = md; for (int x : {1, 4}) seg->mx.push_back((int64_t)((double)x / 5 * mcap)); seg->s.resize(2); } else main.reset(new One(kind, mcap, m));
  }
  ~Tiny() { minimalIncrementCBF_free(&cbf); }
  Model &mn() const { return main ? (Model &)*main : (Model &)*seg; }
  bool has(int o) const override { return win.has(o) || mn().has(o); }
  int64_t occ() const override { return win.occ() + mn().occ(); }
  int n() const override { return win.n() + mn().n(); }
  std::string show() const override { return win.show() + "| " + mn().show(); }
  void add(int o) { obj_id_t id = obj_key(p, o); minimalIncrementCBF_add(&cbf, &id, sizeof id); cnt[o]++; }
  unsigned est(int o) { obj_id_t id = obj_key(p, o); unsigned e = minimalIncrementCBF_estimate(&cbf, &id, sizeof id); if (e < cnt[o]) violate("sketch", "WTinyLFU", "the sketch says obj %d was counted %u times, it was %u times", o, e, cnt[o]); return e; }
  int peek() { if (main) { One c = *main; return c.pop().o; } for (auto &l : seg->s) if (!l.empty()) return l.back().o; return -1; }
  void put(int o, int64_t z) {
    if (main) return main->insert(o, z);
    int w = -1; for (int i = 0; i < 2 && w < 0; i++) if (bytes(seg->s[i], md) + z + md <= seg->mx[i]) w = i;
    if (w < 0) { while (seg->occ() + z + md > mcap) seg->evict(0); w = 0; }
    seg->s[w].push_front({o, z, 0});
  }
  bool get(int o, int64_t z) override {
    if (win.touch(o)) return true;
    if (mn().has(o)) { if (main) main->touch(o); else seg->get(o, z); add(o); if (++hits >= 32 * mcap) { hits = 0; minimalIncrementCBF_decay(&cbf); for (auto &c : cnt) c.second >>= 1; } return true; }
    if (z + md > wcap || z + md > (main ? mcap : seg->mx[0])) return false;
    while (occ() + z + md > cap) evict(z);
    win.insert(o, z); add(o); return false;
  }
  void rm(int o) override { if (win.has(o)) win.rm(o); else mn().rm(o); }
  void evict(int64_t) override {
    for (bool done = false; !done;) {
      if (!win.n()) return mn().evict(0);
      Ent v = win.q.back(); win.q.pop_back();
      if (mn().occ() + v.z + md <= mcap) put(v.o, v.z);
      else if (est(v.o) > est(peek())) { mn().evict(0); put(v.o, v.z); }
      else done = true;
      add(v.o);
    }
  }
};
static double num(const std::string &ps, const char *k, double d) { size_t i = ps.find(k); return i == std::string::npos ? d : atof(ps.c_str() + i + strlen(k)); }
static std::unique_ptr<Model> make_model(const Plan &p, const std::string &a, const std::string &ps, int64_t cap, int64_t md) {
  auto one = [&](int k, int mf = 1) { return std::unique_ptr<Model>(new One(k, cap, md, mf)); };
  if (a == "FIFO") return one(One::FIFO);
  if (a == "LRU") return one(One::LRU);
  if (a == "MRU") return one(One::MRU);
  if (a == "Sieve") return one(One::SIEVE);
  if (a == "Clock") return one(One::CLOCK, (1 << (int)num(ps, "n-bit-counter=", 1)) - 1);
  if (a == "SLRU") {
    auto m = new Slru; m->cap = cap; m->md = md;
    size_t i = ps.find("seg-size=");
    if (i == std::string::npos) { int n = num(ps, "n-seg=", 4); m->mx.assign(n, cap / n); }
    else { std::vector<int64_t> v; int64_t sum = 0; for (const char *s = ps.c_str() + i + 9; *s; s++) { v.push_back(strtoll(s, (char **)&s, 10)); sum += v.back(); if (*s != ':') break; }
           for (auto x : v) m->mx.push_back((int64_t)((double)x / sum * cap)); }
    m->s.resize(m->mx.size()); return std::unique_ptr<Model>(m);
  }
  auto has = [&](const char *k) { return ps.find(k) != std::string::npos; };
  if (a == "LRU_Prob") return one(One::LRU);
  if (a == "WTinyLFU") return std::unique_ptr<Model>(new Tiny(p, cap, md, num(ps, "window-size=", 0.01), has("=LRU") ? One::LRU : has("=FIFO") ? One::FIFO : has("=clock") ? One::CLOCK : -1));
  if (a == "SFIFO" || a == "SLRUv0") { auto m = new Slru; m->cap = cap; m->md = md; m->fifo = true; m->tight = a == "SLRUv0"; int n = num(ps, "n-seg=", 4); m->mx.assign(n, cap / n); m->s.resize(n); return std::unique_ptr<Model>(m); }
  if (a == "FIFO_Reinsertion") { auto m = new Reins; m->cap = cap; m->md = md; m->E = num(ps, "n-exam=", 100); m->K = has("retain-policy=none") ? 0 : num(ps, "n-keep=", 20); return std::unique_ptr<Model>(m); }
  if (a == "FIFO_Merge") { auto m = new Merge; m->cap = cap; m->md = md; m->E = num(ps, "n-exam=", 100); m->K = num(ps, "n-keep=", 50); return std::unique_ptr<Model>(m); }
  if (a == "flashProb") {
    auto m = new Flash; m->cap = cap; m->md = md; int64_t r = (int64_t)(cap * num(ps, "ram-size-ratio=", 0.05));
    m->ram.reset(new One(has("ram-cache=fifo") ? One::FIFO : has("ram-cache=clock") ? One::CLOCK : One::LRU, r, md)); m->disk.reset(new One(has("disk-cache=clock") ? One::CLOCK : One::FIFO, cap - r, md));
    return std::unique_ptr<Model>(m);
  }
  if (a == "S3LRU") {
    auto m = new Two; m->kind = Two::S3L; m->cap = cap; m->md = md; m->thr = num(ps, "move-to-main-threshold=", 1); m->eager = num(ps, "promote-on-hit=", 1) != 0;
    int64_t fs = (int64_t)(cap * num(ps, "LRU-size-ratio=", 0.1)), gs = (int64_t)(cap * num(ps, "ghost-size-ratio=", 0.9));
    m->in_.reset(new One(One::FIFO, fs, md)); m->main.reset(new One(has("main-cache=Clock") ? One::CLOCK : One::LRU, cap - fs, md, has("Clock2") ? 3 : 1));
    if (gs > 0) m->ghost.reset(new One(One::LRU, gs, md));
    return std::unique_ptr<Model>(m);
  }
  if (a == "ARC" || a == "ARCv0") { auto m = new Arc; m->cap = cap; m->md = md; m->lim = a == "ARCv0"; return std::unique_ptr<Model>(m); }
  auto m = new Two; m->cap = cap; m->md = md;
  int64_t fs, gs; int mk = One::FIFO, mf = 1;
  if (a == "TwoQ") { m->kind = Two::TWOQ; fs = (int64_t)(cap * num(ps, "Ain-size-ratio=", 0.25)); gs = (int64_t)(cap * num(ps, "Aout-size-ratio=", 0.5)); mk = One::LRU; }
  else {
    m->kind = a == "S3FIFO" ? Two::S3 : Two::QD; fs = (int64_t)(cap * num(ps, "fifo-size-ratio=", 0.1)); gs = (int64_t)(cap * num(ps, "ghost-size-ratio=", 0.9));
    m->thr = num(ps, "move-to-main-threshold=", a == "QDLP" ? 1 : 2);
    if (a == "QDLP") { if (ps.find("main-cache=LRU") != std::string::npos) mk = One::LRU; else if (ps.find("main-cache=Sieve") != std::string::npos) mk = One::SIEVE; else if (ps.find("main-cache=FIFO") != std::string::npos) mk = One::FIFO; else { mk = One::CLOCK; mf = ps.find("main-cache=Clock3") != std::string::npos ? 7 : ps.find("main-cache=Clock1") != std::string::npos ? 1 : 3; } }
  }
  m->in_.reset(new One(One::FIFO, fs, md)); m->main.reset(new One(mk, cap - fs, md, mf));
  if (gs > 0 || a == "TwoQ") m->ghost.reset(new One(One::FIFO, gs, md));
  return std::unique_ptr<Model>(m);
}
// policies whose rule leaves ties open: the evicted objects are checked against the rule
struct Rank {
  std::string a; int64_t md; struct R { int64_t z, f, nx, last, ins; double pri; }; std::map<int, R> m; double age = 0; int64_t t = 0;
  double key(const R &r) const { return a == "LFU" || a == "LFUCpp" || a == "LeCaR" || a == "LeCaRv0" ? (double)r.f : a == "Size" ? -(double)r.z : r.pri; }
  void touch(int o, int64_t z, int64_t nx, bool hit) {
    R &r = m[o]; if (!hit) { r.f = 0; r.z = z; r.ins = t + 1; }
    r.f++; r.nx = nx; r.last = ++t; if (a == "GDSF") r.pri = age + (double)r.f * 1e6 / r.z;
  }
  // is there an order in which the policy may have evicted exactly gone?  returns an object that explains why not
  bool legal(std::set<int> gone, int *bad, int *better) {
    double na = age;
    while (!gone.empty()) {
      int lru = -1; for (auto &x : m) if (lru < 0 || x.second.last < m[lru].last) lru = x.first;
      int pick = -1;
      for (int g : gone) {
        bool ok = true; int bt = -1;
        if (a == "Belady") { for (auto &x : m) if (x.second.nx > m[g].nx) ok = false, bt = x.first; }
        else if (a == "LRU_Prob") { for (auto &x : m) if (x.second.last < m[g].ins) ok = false, bt = x.first; }  // every hit may or may not have moved the object to the head
        else { double tol = a == "GDSF" ? 1e-9 * (1 + std::abs(key(m[g]))) : 0; for (auto &x : m) if (key(x.second) < key(m[g]) - tol) ok = false, bt = x.first; }
        if ((a == "LeCaR" || a == "LeCaRv0") && g == lru) ok = true;
        if (ok) { pick = g; break; }
        *bad = g; *better = bt;
      }
      if (pick < 0) return false;
      if (a == "GDSF") na = std::max(na, m[pick].pri);
      m.erase(pick); gone.erase(pick);
    }
    age = na; return true;
  }
};
static const std::vector<const char *> EXACT = {"FIFO", "LRU", "MRU", "Clock", "Sieve", "SLRU", "TwoQ", "S3FIFO", "QDLP", "ARC"};
static const std::vector<const char *> RANK = {"LFU", "GDSF", "Size", "Belady", "LeCaR"};
static const std::vector<const char *> EXACT2 = {"SFIFO", "SLRUv0", "ARCv0", "FIFO_Reinsertion", "FIFO_Merge", "flashProb", "S3LRU", "LRU_Prob", "WTinyLFU"};
static const std::vector<const char *> RANK2 = {"LFUCpp", "LeCaRv0"};
// objects of size 1: a capacity below the number of objects
static void unit_size(Plan &p, Rng &r) {
  if (p.get("sz") != "unit" || p.geti("size") <= p.geti("U") && p.geti("size") <= 400) return;
  std::string a = p.get("algo"); int64_t U = p.geti("U"), mn = a.compare(0, 3, "ARC") && a.compare(0, 5, "FIFO_") ? algo_by_name(a)->min_unit : 3;
  p.set("size", std::max(mn, U * (1 + (int64_t)r.below(3)) / 4) * (p.geti("md") ? 17 : 1));
}
static Plan gen(uint64_t s, uint64_t i, bool t) {
  std::vector<const char *> all = EXACT; for (auto x : RANK) all.push_back(x);
  Plan p = gen_hist(s, i, t, &all, 0, i % 5 == 1 ? 8 : 0, i % 5 == 2 ? 6 : 0, 0); if (i % 5 != 2) p = with_zeros(s, i, p);
  Rng r(mix(mix(s, i), 606)); std::string a = p.get("algo");
  if (p.get("sz") == "vary") p.set("sz", "fixed");
  if (a == "ARC" && r.chance(2, 3)) p.set("sz", "unit");
  unit_size(p, r);
  std::string ps;
  auto f = [&](std::initializer_list<const char *> l) { ps = *(l.begin() + r.below(l.size())); };
  if (r.chance(1, 2)) {
    if (a == "Clock") f({"n-bit-counter=1", "n-bit-counter=2", "n-bit-counter=4"});
    if (a == "SLRU") f({"n-seg=1", "n-seg=2", "n-seg=3", "seg-size=1:1:2", "seg-size=3:2:1", "seg-size=1:4", "seg-size=1:1:1:1:1"});
    if (a == "TwoQ") f({"Ain-size-ratio=0.1,Aout-size-ratio=1.0", "Ain-size-ratio=0.5,Aout-size-ratio=0.3", "Ain-size-ratio=0.8,Aout-size-ratio=0.5"});
    if (a == "S3FIFO") f({"fifo-size-ratio=0.25,ghost-size-ratio=0.5,move-to-main-threshold=1", "fifo-size-ratio=0.4", "ghost-size-ratio=0.0", "fifo-size-ratio=0.5,ghost-size-ratio=2.0,move-to-main-threshold=3"});
    if (a == "QDLP") f({"fifo-size-ratio=0.2,main-cache=LRU", "fifo-size-ratio=0.3,main-cache=Sieve,move-to-main-threshold=1", "main-cache=Clock3,move-to-main-threshold=1", "ghost-size-ratio=0.0,main-cache=FIFO", "fifo-size-ratio=0.5,main-cache=Clock2"});
    if (!ps.empty()) p.set("params", ps);
  }
  return p;
}
// requests for an object that has outgrown the cache: it is not admitted, and nothing else happens
static Plan gen_big(uint64_t s, uint64_t i, bool t) {
  Plan p = gen(s, i, t); Rng r(mix(mix(s, i), 607));
  if (!r.chance(1, 4)) return p;
  int pc = r.pickl<int>({3, 10, 25}); std::vector<Op> o;
  for (auto &x : p.ops) { o.push_back(x); if ((int)r.below(100) < pc) o.push_back(Op("b", x.is("g") && r.chance(1, 4) ? x.a[0] : (int64_t)r.below(p.geti("U")))); }
  p.ops = o; return p;
}
static void run(const Plan &p) {
  World w(p); w.build(); const char *an = w.A->name; cache_t *c = w.c;
  std::string ps = p.get("params");
  bool exact = false; for (auto n : EXACT) if (!strcmp(n, an)) exact = true;
  for (auto n : EXACT2) if (!strcmp(n, an)) exact = !(!strcmp(an, "LRU_Prob") && num(ps, "prob=", 0.5) < 1);
  std::unique_ptr<Model> m; Rank k; k.a = an; k.md = w.md;
  if (exact) m = make_model(p, an, ps, c->cache_size, w.md);
  std::vector<char> res = w.snapshot(nullptr, nullptr), now; int i = 0, gi = 0, nev = 0, nhit = 0;
  for (auto &op : p.ops) {
    step_budget(40000000, "no-progress", an);
    int o = op.a[0] % w.U; int64_t z = w.size_of(o, op.a[1]); bool hit = false, mhit = false; std::string was = m ? m->show() : "";
    note("%s op %d %s %d", an, i, op.k, o);
    if (op.is("g")) {
      bool fits = w.insertable(z); int64_t nx = w.nxt[gi++];
      hit = w.get(o, z, op.a[2]);
      if (m) mhit = m->get(o, z); else mhit = res[o];
      if (hit != mhit) violate("outcome", an, "op %d: get(obj %d size %ld) is a %s, the %s rule says %s (queues before: %s)", i, o, (long)z, hit ? "hit" : "miss", an, mhit ? "hit" : "miss", was.c_str());
      nhit += hit;
      now = w.snapshot(nullptr, nullptr);
      if (!m) {
        if (res[o]) k.touch(o, z, nx, true);
        std::set<int> gone; for (int x = 0; x < w.U; x++) if (res[x] && !now[x]) gone.insert(x);
        int a = -1, b = -1; nev += gone.size();
        if (!k.legal(gone, &a, &b)) violate("victim", an, "op %d: get(obj %d) evicted obj %d although the %s rule prefers obj %d", i, o, a, an, b);
        if (!res[o] && fits && now[o]) k.touch(o, z, nx, false);
      }
    } else if (op.is("b")) {
      if (res[o]) { i++; continue; }
      w.fill(w.req, o, c->cache_size + 1 + (op.a[0] & 7)); w.req->next_access_vtime = MAX_REUSE_DISTANCE;
      if (c->get(c, w.req)) violate("outcome", an, "op %d: get(obj %d, larger than the cache) is a hit", i, o);
      now = w.snapshot(nullptr, nullptr);
      if (m) m->get(o, c->cache_size + 1);
    } else if (op.is("r")) {
      if (!res[o]) { i++; continue; }  // forgetting history entries is left open
      c->remove(c, obj_key(p, o)); now = w.snapshot(nullptr, nullptr);
      if (m) m->rm(o); else k.m.erase(o);
    } else if (op.is("e")) {
      if (c->get_n_obj(c) <= 0) { i++; continue; }
      w.fill(w.q, 0, 1); request_t *rq = clone_request(w.q);
      c->evict(c, rq); free_request(rq); now = w.snapshot(nullptr, nullptr);
      if (m) m->evict(1);
      else { std::set<int> gone; for (int x = 0; x < w.U; x++) if (res[x] && !now[x]) gone.insert(x); int a = -1, b = -1; if (!k.legal(gone, &a, &b)) violate("victim", an, "op %d: evicted obj %d although the %s rule prefers obj %d", i, a, an, b); }
    } else { i++; continue; }
    uint64_t h = hstr(an, strlen(an));
    for (int x = 0; x < w.U; x++) {
      h = mix(h, now[x]); nev += res[x] && !now[x] && m;
      if (m && (bool)now[x] != m->has(x)) violate("victim", an, "op %d: after %s(obj %d) obj %d is %s, the %s rule says %s (queues before: %s; after: %s)", i, op.is("g") ? "get" : op.is("b") ? "oversize get" : op.is("r") ? "remove" : "evict", o, x, now[x] ? "cached" : "not cached", an, now[x] ? "evicted" : "cached", was.c_str(), m->show().c_str());
    }
    state(h); ev(h, hit); res = now; i++;
  }
  c->cache_free(c);
  count((std::string("algo.") + an).c_str()); count("probe.evictions", nev); count("probe.hits", nhit);
  if (nev >= 3 && nhit >= 3) nontrivial();
}
static Registrar h06({"H06", "refine", gen_big, run, {{"sz", {"unit"}}, {"md", {"0"}}, {"idmode", {"0"}}, {"t0", {"0"}}, {"size", {"2", "3", "4", "5", "8", "10", "16", "20"}}, {"U", {"3", "4", "6", "10", "20"}}, {"params", {""}}}});

// H13: the policies beside the documented ones
static Plan gen13(uint64_t s, uint64_t i, bool t) {
  Rng r(mix(mix(s, i), 1313));
  if (i % 12 == 11) {
    Plan p; bool fl = r.chance(1, 2); int inv = r.pickl<int>({2, 4, 5, 8, 10}), n = r.pickl<int>({4000, 8000});
    p.set("mode", "share"); p.set("algo", fl ? "flashProb" : "LRU_Prob"); p.set("inv", inv); p.set("n", n); char b[40]; snprintf(b, sizeof b, "%s=%g", fl ? "disk-admit-prob" : "prob", 1. / inv); p.set("params", b);
    p.set("size", n); p.set("U", 3 * n + 2); p.set("sz", "unit"); p.set("hp", 12); p.set("idmode", r.below(3)); p.set("idseed", r.below(1000)); p.set("rngseed", r.below(1 << 20)); p.set("memseed", 1 + r.below(1 << 20)); p.set("szmax", 2); p.set("t0", 1); p.set("md", 0); p.set("szseed", 1);
    return p;
  }
  std::vector<const char *> all = EXACT2; for (auto x : RANK2) all.push_back(x);
  Plan p = gen_hist(s, i, t, &all, 0, i % 5 == 1 ? 8 : 0, i % 5 == 2 ? 6 : 0, 0); std::string a = p.get("algo"), ps; if (i % 5 != 2 && a != "flashProb" && a != "WTinyLFU") p = with_zeros(s, i, p);
  p.set("md", 0); if (p.get("sz") == "vary") p.set("sz", "fixed");
  if (a == "ARCv0" || a == "FIFO_Reinsertion" || a == "FIFO_Merge") p.set("sz", "unit");
  unit_size(p, r);
  auto f = [&](std::initializer_list<const char *> l) { ps = *(l.begin() + r.below(l.size())); };
  if (a == "SFIFO" || a == "SLRUv0") f({"", "n-seg=1", "n-seg=2", "n-seg=3", "n-seg=5"});
  if (a == "FIFO_Reinsertion") f({"n-exam=8,n-keep=3,retain-policy=recency", "n-exam=5,n-keep=4", "n-exam=3,n-keep=1", "n-exam=6,retain-policy=none", "n-exam=12,n-keep=0"});
  if (a == "FIFO_Merge") f({"n-exam=8,n-keep=3,retain-policy=recency", "n-exam=5,n-keep=4,retain-policy=recency", "n-exam=3,n-keep=1,retain-policy=recency", "n-exam=12,n-keep=0,retain-policy=recency", "n-exam=6,n-keep=4,retain-policy=recency"});
  if (a == "flashProb") f({"disk-admit-prob=1", "disk-admit-prob=1,ram-size-ratio=0.3,disk-cache=clock", "disk-admit-prob=1,ram-size-ratio=0.2,ram-cache=fifo", "disk-admit-prob=1,ram-size-ratio=0.4,disk-cache=clock"});
  if (a == "S3LRU") f({"", "LRU-size-ratio=0.3,promote-on-hit=0,main-cache=Clock2", "LRU-size-ratio=0.2,ghost-size-ratio=0.5,move-to-main-threshold=2", "LRU-size-ratio=0.4,main-cache=Clock", "LRU-size-ratio=0.25,ghost-size-ratio=0.0,promote-on-hit=0,move-to-main-threshold=2"});
  if (a == "WTinyLFU") f({"main-cache=LRU,window-size=0.2", "main-cache=FIFO,window-size=0.4", "main-cache=clock,window-size=0.3", "window-size=0.5,main-cache=LRU"});
  if (a == "LRU_Prob") f({"prob=1", "prob=0.2", "", "prob=0.1"});
  p.set("params", ps);
  return p;
}
// the configured share of the hits moves an object to the head, of the objects leaving RAM goes to the disk
static void run_prob(const Plan &p) {
  World w(p); w.build(); const char *an = w.A->name; int n = p.geti("n"), inv = p.geti("inv"); double pr = 1. / inv; int64_t k = 0, kept = 0;
  auto get = [&](int o) { step_budget(40000000, "no-progress", an); return w.get(o, 1, 1); };
  if (!strcmp(an, "LRU_Prob")) {
    for (int o = 0; o < n; o++) get(o);
    for (int o = 0; o < n; o++) if (!get(o)) violate("outcome", an, "obj %d is not resident although the cache holds all %d objects", o, n);
    for (int o = 0; o < n / 4; o++) get(n + o);
    for (int o = n - 1; o >= 0; o--) if (!w.resident(o)) { k = o + 1; break; }
    for (int o = 0; o < k; o++) kept += w.resident(o);
  } else {
    int ram = n / 20, tot = 2 * n;
    for (int o = 0; o < n + tot; o++) get(o);
    // objects older than the newest ram ones went through the disk's door; the disk holds the last that got in
    int lo = -1; for (int o = 0; o < n + tot - 1 && lo < 0; o++) if (w.resident(o)) lo = o;
    (void)ram; int hi = n + tot - 1; while (hi > lo && w.resident(hi)) hi--;
    for (int o = lo; o < hi; o++) { k++; kept += w.resident(o); }
  }
  count((std::string("algo.") + an).c_str()); count("probe.share");
  if (k < 500) violate("share", an, "%s(%s): only %ld objects left to measure the share", an, p.get("params").c_str(), (long)k);
  double got = (double)kept / k, tol = 8 * sqrt(pr * (1 - pr) / k) + 0.005;
  note("share %f of %ld", got, (long)k); ev(kept, k); state(mix(inv, n));
  if (std::abs(got - pr) > tol) violate("share", an, "%s(%s): the share is %.4f of %ld objects, configured is %.4f (+- %.4f)", an, p.get("params").c_str(), got, (long)k, pr, tol);
  nontrivial(); w.c->cache_free(w.c);
}
static void run13(const Plan &p) { if (p.get("mode") == "share") run_prob(p); else run(p); }
static Registrar h13({"H13", "refine-other", gen13, run13, {{"sz", {"unit"}}, {"idmode", {"0"}}, {"t0", {"0"}}, {"size", {"2", "3", "4", "5", "8", "10", "16", "20"}}, {"U", {"3", "4", "6", "10", "20"}}}});
