// Stateless exhaustive exploration of all operation histories up to a depth on the real eviction algorithms,
// checked against the algorithm-independent properties P01, P02, P03 and P07.
#include "algos.hpp"
#include "perturb.hpp"
#include "algo_cfgs.hpp"

typedef std::map<uint64_t, int64_t> Res;  // resident id -> admitted size

struct Outcome {
  std::vector<int8_t> ret;     // per op: get hit / remove result / -1
  std::vector<int64_t> tid;    // per op: id returned by to_evict (-1 = NULL)
  Res before, after;           // before the last op (probed variant only), after
  std::map<uint64_t, int64_t> seen_size;  // size reported by the found objects
  int64_t n_obj = 0, occ = 0;
  bool occ_bad = false;        // occupied outside [0, cap] after some op
  int occ_bad_at = -1;
  int64_t occ_bad_val = 0;
};

enum Mode { PLAIN, PROBE_LAST, PROBE_ALL };

static void annotate(const std::vector<Op> &h, std::vector<int64_t> &nxt) {
  nxt.assign(h.size(), INT64_MAX);
  std::map<uint64_t, size_t> last;
  // next access position counted in requests (gets), as an annotated trace would
  std::vector<int64_t> vt(h.size(), 0);
  int64_t v = 0;
  for (size_t i = 0; i < h.size(); i++)
    if (h[i].k == 'g') vt[i] = ++v;
  for (size_t i = h.size(); i-- > 0;) {
    if (h[i].k != 'g') continue;
    auto it = last.find(h[i].id);
    if (it != last.end()) nxt[i] = vt[it->second];
    last[h[i].id] = i;
  }
}

static void probe(cache_t *c, request_t *q, const std::set<uint64_t> &ids, int64_t now, Res &out) {
  for (uint64_t id : ids) {
    q->obj_id = id;
    q->hv = 0;
    q->obj_size = 1;
    q->clock_time = now;
    q->next_access_vtime = INT64_MAX;
    cache_obj_t *o = c->find(c, q, false);
    if (o) out[id] = (uintptr_t)o < 4096 ? -1 : (int64_t)o->obj_size;  // some only signal presence
  }
}

static Outcome execute(const Cfg &cfg, const std::vector<Op> &hist, Mode mode, pool::Slot *slot, int upto_ref = -1) {
  Outcome r;
  std::vector<Op> all = cfg.pre;
  all.insert(all.end(), hist.begin(), hist.end());
  std::vector<int64_t> nxt;
  if (cfg.ann) annotate(all, nxt);
  std::set<uint64_t> ids;
  for (auto &o : all)
    if (o.k == 'g' || o.k == 'r' || o.k == 'f') ids.insert(o.id);
  for (auto &o : cfg.alpha)
    if (o.k == 'g' || o.k == 'r' || o.k == 'f') ids.insert(o.id);
  cache_t *c = make_cache(cfg);
  request_t *q = new_request();
  request_t *fq = new_request();
  std::map<uint64_t, int64_t> adm;  // size of the request that admitted it (last miss)
  int64_t now = 0;
  for (size_t i = 0; i < all.size(); i++) {
    const Op &o = all[i];
    bool last = i + 1 == all.size();
    if ((mode == PROBE_LAST && last) || mode == PROBE_ALL) {
      Res tmp;
      probe(c, fq, ids, now, tmp);
      if (last) r.before = tmp;
    }
    if (slot) slot->ops = slot->ops + 1;
    int8_t ret = -1;
    int64_t tid = -2;
    now++;
    q->clock_time = now;
    q->hv = 0;
    q->obj_id = o.id;
    q->obj_size = o.size;
    q->op = OP_GET;
    q->n_req = i;
    q->next_access_vtime = cfg.ann ? nxt[i] : -2;
    switch (o.k) {
      case 'g':
        ret = c->get(c, q);
        if (!ret) adm[o.id] = o.size;
        break;
      case 'f':
        ret = c->find(c, q, false) != nullptr;
        break;
      case 'r':
        ret = c->remove(c, o.id);
        break;
      case 'e':
        if (c->get_n_obj(c) > 0) {
          q->obj_size = 1;
          c->evict(c, q);
          ret = 1;
        }
        break;
      case 't':
        if (c->get_n_obj(c) > 0 && c->to_evict) {
          q->obj_size = 1;
          cache_obj_t *v = c->to_evict(c, q);
          tid = v ? (int64_t)v->obj_id : -1;
        }
        break;
    }
    r.ret.push_back(ret);
    r.tid.push_back(tid);
    int64_t occ = c->get_occupied_byte(c);
    if (!r.occ_bad && (occ < 0 || occ > cfg.cap)) {
      r.occ_bad = true;
      r.occ_bad_at = (int)i;
      r.occ_bad_val = occ;
    }
  }
  r.n_obj = c->get_n_obj(c);
  r.occ = c->get_occupied_byte(c);
  Res seen;
  probe(c, fq, ids, now, seen);
  for (auto &kv : seen) {
    r.after[kv.first] = adm.count(kv.first) ? adm[kv.first] : -1;
    r.seen_size[kv.first] = kv.second;
  }
  // and once more: reading must not have changed anything
  if (mode == PROBE_ALL) {
    Res seen2;
    probe(c, fq, ids, now, seen2);
    if (seen2 != seen) r.n_obj = -12345;
  }
  int md = c->obj_md_size;
  (void)md;
  c->cache_free(c);
  free_request(q);
  free_request(fq);
  return r;
}

static std::string res_str(const Res &r) {
  std::string s = "{";
  for (auto &k : r) s += (s.size() > 1 ? "," : "") + std::to_string(k.first) + ":" + std::to_string(k.second);
  return s + "}";
}

static int md_size_of(const Cfg &cfg) {
  static std::map<std::string, int> memo;
  std::string k = cfg.str();
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  cache_t *c = make_cache(cfg);
  int m = c->obj_md_size;
  c->cache_free(c);
  return memo[k] = m;
}

static std::string g_prop;

struct Chk {
  pool::Ctx &ctx;
  const Cfg &cfg;
  const Traits &tr;
  int md;
  bool bad = false;
  void v(const std::string &kind, const std::vector<Op> &h, const std::string &d) {
    bad = true;
    ctx.viol(kind, ops_str(h), d);
  }
};

// judge one history, given the resident sets before and after its last operation
static bool judge(Chk &k, const std::vector<Op> &h, const Outcome &o, const Res &before, int64_t prev_preview) {
  const Op &last = h.back();
  size_t li = o.ret.size() - 1;
  int ret = o.ret[li];
  const Res &after = o.after;
  if (g_prop == "P01") {
    if (o.occ_bad && o.occ_bad_at == (int)li)
      k.v("capacity", h, "occupied " + std::to_string(o.occ_bad_val) + " of capacity " + std::to_string(k.cfg.cap));
    int64_t sum = 0;
    for (auto &e : o.seen_size) sum += (e.second < 0 ? o.after.at(e.first) : e.second) + k.md;
    if (sum > k.cfg.cap)
      k.v("true-capacity", h, "cached objects " + res_str(o.seen_size) + " exceed capacity " + std::to_string(k.cfg.cap));
    if (last.k == 'g' && last.size + k.md > k.cfg.cap && !before.count(last.id) && after.count(last.id))
      k.v("oversize-admitted", h, "object " + last.str() + " larger than the cache is resident");
  } else if (g_prop == "P02") {
    int64_t n = 0, b = 0;
    for (auto &e : after) {
      n++;
      b += e.second + k.md;
      if (o.seen_size.at(e.first) >= 0 && o.seen_size.at(e.first) != e.second)
        k.v("object-size", h, "object " + std::to_string(e.first) + " admitted with size " + std::to_string(e.second) +
                                  " reports size " + std::to_string(o.seen_size.at(e.first)));
    }
    if (n != o.n_obj) k.v("n_obj", h, "reports " + std::to_string(o.n_obj) + " objects, cached " + res_str(after));
    if (b != o.occ) k.v("occupied", h, "reports " + std::to_string(o.occ) + " bytes, cached " + res_str(after) + " md " + std::to_string(k.md));
    for (auto &e : after)
      if (!before.count(e.first) && !(last.k == 'g' && last.id == e.first))
        k.v("appeared", h, "object " + std::to_string(e.first) + " appeared: " + res_str(before) + " -> " + res_str(after));
    bool lost = false;
    for (auto &e : before)
      if (!after.count(e.first)) {
        bool ok = (last.k == 'r' && last.id == e.first) || (last.k == 'e') || (last.k == 'g' && !ret) ||
                  (last.k == 'g' && k.tr.hit_may_evict && last.id != e.first) ||
                  (last.k == 'g' && k.tr.hit_may_drop && last.id == e.first);
        if (!ok)
          k.v("disappeared", h,
              "object " + std::to_string(e.first) + " disappeared: " + res_str(before) + " -> " + res_str(after));
        lost = true;
      }
    if (last.k == 'e' && !before.empty() && !lost && !k.tr.evict_may_keep)
      k.v("evict-nothing", h, "evict removed nothing from " + res_str(before));
  } else if (g_prop == "P03") {
    if (last.k == 'g') {
      bool was = before.count(last.id);
      if ((ret == 1) != was)
        k.v("hit", h, std::string("get returned ") + (ret ? "hit" : "miss") + " but object was " + (was ? "" : "not ") +
                          "resident " + res_str(before));
      bool is = after.count(last.id);
      if (ret == 1 && !is && !k.tr.hit_may_drop) k.v("hit-lost", h, "object not resident after its hit " + res_str(after));
      if (ret == 0 && !is && last.size + k.md <= k.tr.admit_limit(k.cfg) && !k.tr.may_not_admit)
        k.v("not-admitted", h, "object not resident after its admissible miss " + res_str(after));
    }
    if (last.k == 'f') {
      if ((ret == 1) != (before.count(last.id) > 0)) k.v("find", h, "lookup disagrees with residency " + res_str(before));
      if (before != after) k.v("find-changes", h, res_str(before) + " -> " + res_str(after));
    }
  } else if (g_prop == "P07") {
    if (last.k == 'r') {
      bool was = before.count(last.id);
      if ((ret == 1) != was) k.v("remove-result", h, "remove returned " + std::to_string(ret) + ", object was " + (was ? "" : "not ") + "resident");
      Res want = before;
      want.erase(last.id);
      if (want != after) k.v("remove-effect", h, res_str(before) + " -> " + res_str(after));
    }
    if (last.k == 't' && !before.empty() && !k.tr.no_preview) {
      int64_t t = o.tid[li];
      if (t < 0 || !before.count(t))
        k.v("preview-resident", h, "preview returned " + (t < 0 ? std::string("nothing") : std::to_string(t)) + ", cached " + res_str(before));
      if (before != after) k.v("preview-changes", h, res_str(before) + " -> " + res_str(after));
    }
    if (last.k == 'e' && h.size() >= 2 && h[h.size() - 2].k == 't' && !before.empty() && !k.tr.no_preview && prev_preview >= 0) {
      if (after.count(prev_preview))
        k.v("preview-evict", h, "previewed " + std::to_string(prev_preview) + " but eviction left " + res_str(after));
      {
        Res want = before;
        want.erase(prev_preview);
        if (want != after) k.v("preview-evict-other", h, "previewed " + std::to_string(prev_preview) + ": " + res_str(before) + " -> " + res_str(after));
      }
    }
    (void)0;
  }
  return !k.bad;
}

static uint64_t out_hash(const Outcome &o) {
  uint64_t h = 7;
  for (auto r : o.ret) h = pool::mix(h, r + 2);
  for (auto &e : o.after) h = pool::mix(h, e.first * 1000003 + e.second);
  return h;
}

static bool g_sampled = false;

// one node: execute and judge; returns whether its extensions should be explored
static bool visit(pool::Ctx &ctx, const Cfg &cfg, const Traits &tr, int md, const std::vector<Op> &h, const Res *before,
                  int64_t prev_preview, Outcome &o, bool count) {
  std::string pos = ops_str(h);
  ctx.at(pos);
  Mode m = before ? PLAIN : PROBE_LAST;
  o = execute(cfg, h, m, ctx.slot);
  if (count) {
    ctx.slot->evals = ctx.slot->evals + 1;
    pool::outcome(pool::mix(pool::hash_str(cfg.algo + cfg.params), out_hash(o)));
    for (auto r : o.ret)
      if (r == 1) {
        ctx.slot->nontriv = ctx.slot->nontriv + 1;
        break;
      }
  }
  if (count && (int)h.size() == cfg.depth && !g_sampled) {
    g_sampled = true;
    std::string rs;
    for (auto r : o.ret) rs += r < 0 ? '-' : r ? '1' : '0';
    ctx.sample(pos + " -> results " + rs + " contents " + res_str(o.after));
  }
  Chk k{ctx, cfg, tr, md};
  bool ok = judge(k, h, o, before ? *before : o.before, prev_preview);
  if (ok && g_prop == "P03" && h.size() >= 2) {
    Outcome p = execute(cfg, h, PROBE_ALL, ctx.slot);
    if (p.ret != o.ret || p.after != o.after || p.n_obj != o.n_obj || p.occ != o.occ || p.tid != o.tid) {
      ctx.viol("lookup-has-effect", pos, "with read-only lookups interleaved: contents " + res_str(p.after) + " instead of " + res_str(o.after));
      ok = false;
    }
  }
  return ok;
}

struct Shard {
  size_t first, second;  // indices into the alphabet; every shard walks the subtree below <first, second>, and the
                         // shard with second == 0 also owns the node <first>
};

static void dfs(pool::Ctx &ctx, const Cfg &cfg, const Traits &tr, int md, std::vector<Op> &h, const Outcome *parent,
                const std::vector<Op> &resume, const Shard &sh, bool on_path) {
  // children of node h; on_path: h is a proper prefix of the resume history
  int64_t pp = -1;
  size_t lo = 0, hi = cfg.alpha.size();
  if (h.empty()) lo = sh.first, hi = sh.first + 1;
  if (h.size() == 1) lo = sh.second, hi = sh.second + 1;
  if (parent && !h.empty() && h.back().k == 't') pp = parent->tid.back();
  for (size_t a = lo; a < hi; a++) {
    const Op &op = cfg.alpha[a];
    bool child_on = false;
    if (on_path) {
      // skip everything ordered before the resume position
      const Op &rop = resume[h.size()];
      size_t ri = 0;
      for (; ri < cfg.alpha.size(); ri++)
        if (cfg.alpha[ri].str() == rop.str()) break;
      if (a < ri) continue;
      if (a == ri) {
        if (h.size() + 1 == resume.size()) continue;  // the crashed case itself and its extensions
        child_on = true;
      }
    }
    if ((op.k == 'e' || op.k == 't') && parent && parent->n_obj == 0) continue;  // precondition: something is cached
    if ((op.k == 'e' || op.k == 't') && h.empty() && cfg.pre.empty()) continue;
    if (cfg.canon && op.k != 'e' && op.k != 't') {
      uint64_t mx = 0;
      for (auto &x : h)
        if (x.k != 'e' && x.k != 't') mx = std::max(mx, x.id);
      if (op.id > mx + 1) continue;
    }
    h.push_back(op);
    Outcome o;
    const Res *before = nullptr;
    static const Res empty;
    if (!cfg.ann) {
      if (parent) before = &parent->after;
      else if (cfg.pre.empty()) before = &empty;
    }
    bool own = !child_on && (h.size() != 1 || sh.second == 0);
    bool ok = visit(ctx, cfg, tr, md, h, before, pp, o, own);
    if (ok && (int)h.size() < cfg.depth) dfs(ctx, cfg, tr, md, h, &o, resume, sh, child_on);
    h.pop_back();
  }
}

int main(int argc, char **argv) {
  std::string out, replay_cfg, replay_hist, only;
  std::string tier = "quick";
  int workers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") g_prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") { replay_cfg = argv[++i]; replay_hist = argv[++i]; }
  }
  std::vector<pool::Task> tasks;
  auto replay = [](pool::Ctx &ctx, const std::string &pos) {
    Cfg cfg = parse_cfg(ctx.cfg);
    Traits tr = traits(cfg);
    std::vector<Op> h = parse_ops(pos);
    int md = md_size_of(cfg);
    if (cfg.alpha.empty()) cfg.alpha = h;
    Outcome par, o;
    Res before;
    bool have = false;
    int64_t pp = -1;
    if (h.size() > 1) {
      std::vector<Op> p(h.begin(), h.end() - 1);
      par = execute(cfg, p, PLAIN, ctx.slot);
      before = par.after;
      have = true;
      if (p.back().k == 't') pp = par.tid.back();
    } else if (cfg.pre.empty()) have = true;
    visit(ctx, cfg, tr, md, h, have && !cfg.ann ? &before : nullptr, pp, o, false);
  };
  if (!replay_cfg.empty()) {
    std::vector<pool::Task> one(1);
    one[0].cfg = replay_cfg;
    one[0].shard = "replay";
    one[0].run = [&](pool::Ctx &c) {
      if (c.resume.empty()) replay(c, replay_hist);
    };
    one[0].replay = replay;
    return pool::run(one, out, 1);
  }
  for (Cfg cfg : configs(g_prop, tier)) {
    if (!only.empty() && cfg.algo != only) continue;
    // shard by the first two operations
    for (size_t ab = 0; ab < cfg.alpha.size() * cfg.alpha.size(); ab++) {
      Shard sh{ab / cfg.alpha.size(), ab % cfg.alpha.size()};
      if (cfg.canon && cfg.alpha[sh.first].id > 1) continue;
      if (cfg.canon && cfg.alpha[sh.second].id > 2) continue;
      if (cfg.pre.empty() && (cfg.alpha[sh.first].k == 'e' || cfg.alpha[sh.first].k == 't')) continue;
      pool::Task t;
      t.cfg = cfg.full();
      t.shard = std::to_string(sh.first) + "." + std::to_string(sh.second);
      t.run = [cfg, sh](pool::Ctx &ctx) {
        Traits tr = traits(cfg);
        int md = md_size_of(cfg);
        std::vector<Op> h, rs = parse_ops(ctx.resume);
        dfs(ctx, cfg, tr, md, h, nullptr, rs, sh, !rs.empty());
      };
      t.replay = replay;
      tasks.push_back(t);
    }
  }
  return pool::run(tasks, out, workers);
}
