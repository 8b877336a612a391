// P22 (built with TTL support): all histories of timed requests with TTLs on the real algorithms.  A twin cache is told the
// expiry explicitly: it gets the same requests without TTL, and a removal of the object right before a request that finds
// it expired.
#include "algo_cfgs.hpp"
#include "perturb.hpp"
#include "seqmc.hpp"
#ifndef SUPPORT_TTL
#error "needs the TTL build"
#endif
using seqmc::Seq;
static std::string num(int64_t x) { return std::to_string(x); }

struct Sym {
  int id, dt, ttl;
  int64_t size;
};
struct Case {
  Cfg cfg;
  int64_t dflt = 0, base = 100;
  std::vector<Sym> alpha;
  bool twin = true;
  int copy = 0;  // 1: a clone, 2: of a cache of another size
};
static cache_t *mk(const Cfg &c, int64_t dflt) {
  common_cache_params_t p = default_common_cache_params();
  p.cache_size = c.cap;
  p.hashpower = c.hp;
  p.consider_obj_metadata = c.md;
  p.default_ttl = dflt;
  set_rand_seed(c.seed);
  return find_algo(c.algo)->init(p, c.params.empty() ? nullptr : c.params.c_str());
}
// the cache under test: built, or copied from one that has cached something
static cache_t *mk_case(const Case &k) {
  if (!k.copy) return mk(k.cfg, k.dflt);
  Cfg o = k.cfg;
  if (k.copy == 2) o.cap *= 2;
  cache_t *c = mk(o, k.dflt);
  request_t *q = new_request();
  for (int i = 1; i <= 3; i++) {
    q->obj_id = i;
    q->obj_size = 1;
    q->clock_time = i;
    q->ttl = i;
    q->op = OP_GET;
    q->n_req = i;
    q->next_access_vtime = k.cfg.ann ? INT64_MAX : -2;
    c->get(c, q);
  }
  free_request(q);
  set_rand_seed(k.cfg.seed);
  cache_t *n = k.copy == 1 ? clone_cache(c) : create_cache_with_new_size(c, k.cfg.cap);
  c->cache_free(c);
  return n;
}
typedef std::map<uint64_t, int64_t> Res;
static Res contents(cache_t *c, request_t *f, const std::set<uint64_t> &ids, int64_t now) {
  Res r;
  for (uint64_t id : ids) {
    f->obj_id = id;
    f->hv = 0;
    f->obj_size = 1;
    f->clock_time = now;
    f->next_access_vtime = INT64_MAX;
    cache_obj_t *o = c->find(c, f, false);
    if (o) r[id] = (uintptr_t)o < 4096 ? -1 : (int64_t)o->obj_size;
  }
  return r;
}
static std::string show(const Res &r) {
  std::string s = "{";
  for (auto &k : r) s += (s.size() > 1 ? "," : "") + num(k.first) + ":" + num(k.second);
  return s + "}";
}
static std::string run(const Case &k, const Seq &w) {
  std::set<uint64_t> ids;
  for (auto &s : k.alpha) ids.insert(s.id);
  request_t *q = new_request(), *f = new_request();
  cache_t *c = mk_case(k), *u = mk(k.cfg, 86400 * 300);
  int md = c->obj_md_size;
  Traits tr = traits(k.cfg);
  std::vector<int64_t> nx(w.size(), k.cfg.ann ? INT64_MAX : -2);
  if (k.cfg.ann) {
    std::map<int, int64_t> last;
    for (size_t i = w.size(); i-- > 0;) {
      int id = k.alpha[w[i]].id;
      if (last.count(id)) nx[i] = last[id];
      last[id] = i + 1;
    }
  }
  std::map<uint64_t, int64_t> exp, size;  // of the cached copies; exp 0: never
  int64_t now = k.base;
  std::string e;
  for (size_t i = 0; i < w.size() && e.empty(); i++) {
    const Sym &s = k.alpha[w[i]];
    now += s.dt;
    std::string at = "request " + num(i + 1) + " (object " + num(s.id) + ", time " + num(now) + ", ttl " + num(s.ttl) + "): ";
    Res raw = contents(c, f, ids, 0);  // at time 0 nothing has expired
    Res live = contents(c, f, ids, now), want;
    for (auto &x : raw)
      if (exp[x.first] == 0 || exp[x.first] >= now) want[x.first] = x.second;
    if (live != want) {
      e = at + "lookups find " + show(live) + ", not expired are " + show(want);
      break;
    }
    bool in = live.count(s.id), expired = raw.count(s.id) && !in;
    q->clock_time = now;
    q->hv = 0;
    q->obj_id = s.id;
    q->obj_size = s.size;
    q->op = OP_GET;
    q->n_req = i + 1;
    q->next_access_vtime = nx[i];
    q->ttl = s.ttl;
    set_rand_seed(60 + i);
    bool hit = c->get(c, q);
    Res after = contents(c, f, ids, 0);
    if (hit != in) {
      e = at + (hit ? "hit" : "miss") + ", but the cached copy " + (expired ? "expired at " + num(exp[s.id]) : in ? "has not expired" : "does not exist");
      break;
    }
    if (!hit) {
      if (after.count(s.id)) {
        exp[s.id] = s.ttl ? now + s.ttl : k.dflt ? now + k.dflt : 0;
        size[s.id] = s.size;
      } else if (s.size + md <= tr.admit_limit(k.cfg) && !tr.may_not_admit)
        e = at + "the object is not cached after the miss";
    }
    int64_t b = 0;
    for (auto &x : after) b += size[x.first] + md;
    if (e.empty() && (c->get_n_obj(c) != (int64_t)after.size() || c->get_occupied_byte(c) != b))
      e = at + num(c->get_n_obj(c)) + " objects and " + num(c->get_occupied_byte(c)) + " bytes reported, cached are " + show(after) + " (" + num(b) + " bytes)";
    if (e.empty() && b > k.cfg.cap) e = at + "more than the capacity is cached";
    if (e.empty() && c->n_req != (int64_t)i + 1) e = at + num(c->n_req) + " requests counted";
    if (e.empty() && k.twin) {
      q->ttl = 0;
      if (expired) u->remove(u, s.id);
      set_rand_seed(60 + i);
      bool uh = u->get(u, q);
      Res ua = contents(u, f, ids, 0);
      if (uh != hit) e = at + (hit ? "hit" : "miss") + ", a cache from which the expired object was removed: " + (uh ? "hit" : "miss");
      else if (ua != after) e = at + "cached are " + show(after) + ", in a cache from which the expired object was removed " + show(ua);
    }
  }
  c->cache_free(c);
  u->cache_free(u);
  free_request(q);
  free_request(f);
  return e;
}

int main(int argc, char **argv) {
  seqmc::Args a(argc, argv, "P22");
  seqmc::Suite s(a);
  s.kind = "ttl";
  s.sample_mod = 9;
  bool copies = a.prop == "P11";
  for (Cfg c : configs("P01", "quick")) {
    if (!(c.canon && c.seed == 1) || c.algo == "LHD") continue;  // LHD refuses to be built with TTL support
    bool slow = c.algo == "Cacheus" || c.algo == "Hyperbolic" || c.algo == "RandomLRU";
    if (c.algo == "Cacheus") c.hp = 9;
    Traits tr = traits(c);
    std::string base = c.algo + " " + c.params + " cap " + num(c.cap);
    bool ghosts = c.algo == "ARC" || c.algo == "SR_LRU" || c.algo == "Cacheus";  // their history expires with the objects, which the twin's does not
    auto add = [&](const std::string &name, Case k, int depth) {
      s.add(base + " " + name, seqmc::words(k.alpha.size(), 2, depth), [k](const Seq &w) { return run(k, w); }, "timed requests");
    };
    int less = slow;
    for (int64_t dflt : {(int64_t)0, (int64_t)1, (int64_t)86400 * 300}) {
      Case k;
      k.cfg = c;
      k.dflt = dflt;
      k.twin = !ghosts;
      // few objects, every step and every ttl
      for (int id = 1; id <= 2; id++)
        for (int dt = 0; dt <= 2; dt++)
          for (int ttl = 0; ttl <= 2; ttl++)
            if (!(dt == 2 && ttl == 2)) k.alpha.push_back({id, dt, ttl, 1});
      if (!copies) add("default ttl " + num(dflt) + " two objects", k, (a.deep ? 5 : dflt ? 3 : 4) - less);
      if (dflt)
        for (k.copy = 1; k.copy <= 2; k.copy++) add("default ttl " + num(dflt) + (k.copy == 1 ? " clone" : " other size"), k, (a.deep ? 4 : 3) - less);
      k.copy = 0;
      if (copies) continue;
      // as many objects as fill the cache
      k.alpha.clear();
      for (int id = 1; id <= std::min<int>(6, c.cap + 2); id++) k.alpha.push_back({id, 1, id % 3 == 0 ? 0 : id % 3 == 1 ? 2 : 9, 1});
      k.alpha.push_back({1, 3, 1, 1});
      k.alpha.push_back({2, 0, 3, 1});
      add("default ttl " + num(dflt) + " full", k, (a.deep ? 7 : 5) - less);
      // long enough for copies that move between queues before they expire
      k.alpha = {{1, 0, 3, 1}, {2, 0, 3, 1}, {3, 0, 5, 1}, {4, 0, 4, 1}, {1, 4, 2, 1}, {2, 5, 0, 1}};
      if (c.cap > 6) k.alpha.push_back({5, 0, 3, 1});
      add("default ttl " + num(dflt) + " moves", k, (a.deep ? 8 : k.alpha.size() > 6 ? 5 : 6) - less);
      if (tr.limit > 1) {
        k.alpha = {{1, 1, 2, 1}, {1, 2, 1, 2}, {2, 1, 0, 2}, {2, 2, 3, 1}, {3, 1, 1, 1}, {3, 0, 2, 2}};
        add("default ttl " + num(dflt) + " sizes", k, (a.deep ? 7 : dflt ? 5 : 6) - less);
      }
    }
    if (copies) continue;
    Case k;  // late in time and long lives
    k.cfg = c;
    k.base = 2147483640ll;
    k.twin = !ghosts;
    k.dflt = 10;
    k.alpha = {{1, 1, 0, 1}, {1, 5, 7, 1}, {2, 4, 100, 1}, {2, 0, 1, 1}, {3, 1, 2000000000, 1}};
    add("around 2^31", k, (a.deep ? 7 : 5) - less);
  }
  return s.go();
}
