// Model checking of the policy rules (P04-P06): the reachable states of an executable reference model are enumerated
// breadth-first, every transition of every state is replayed on the real implementation (shortest path, the operation,
// then a suffix that makes the internal order observable), and all histories up to a depth are additionally replayed
// without merging states.  Every step compares result, contents, sizes and counters.
#include "algos.hpp"
#include "perturb.hpp"
#include "models.hpp"

using model::M;
using model::Res;
typedef std::unique_ptr<M> MP;

static std::string g_prop;

static std::string res_str(const Res &r) {
  std::string s = "{";
  for (auto &k : r) s += (s.size() > 1 ? "," : "") + std::to_string(k.first) + ":" + std::to_string(k.second);
  return s + "}";
}

static MP make_model(const Cfg &c) { return model::make(c.algo, c.params, c.cap, c.md); }

static void step(M &m, const Op &o, int &ret) {
  ret = -1;
  if (o.k == 'g') ret = m.get(o.id, o.size);
  else if (o.k == 'r') ret = m.remove(o.id);
  else if (o.k == 'e') m.evict(1), ret = 1;
}

// run a history on implementation and model; compare at every step from `from` on.  Returns a complaint or "".
static std::string replay_both(const Cfg &cfg, const std::vector<Op> &h, size_t from, size_t &at, pool::Slot *slot,
                               uint64_t *out = nullptr, Res *last = nullptr) {
  MP m = make_model(cfg);
  bool nd = m->nondet();
  std::set<uint64_t> ids;
  for (auto &o : h)
    if (o.k != 'e') ids.insert(o.id);
  cache_t *c = make_cache(cfg);
  request_t *q = new_request(), *fq = new_request();
  std::string err;
  for (size_t i = 0; i < h.size() && err.empty(); i++) {
    const Op &o = h[i];
    at = i;
    q->clock_time = i + 1;
    q->hv = 0;
    q->obj_id = o.id;
    q->obj_size = o.size;
    q->op = OP_GET;
    q->n_req = i;
    int ret = -1;
    if (o.k == 'g') ret = c->get(c, q);
    else if (o.k == 'r') ret = c->remove(c, o.id);
    else if (o.k == 'e') {
      q->obj_size = 1;
      if (c->get_n_obj(c) > 0) c->evict(c, q);
      ret = 1;
    }
    int want = ret;
    if (!nd) step(*m, o, want);
    if (want != ret)
      err = o.str() + " returned " + (ret ? "hit/true" : "miss/false") + ", the definition says otherwise";
    if (slot) slot->ops = slot->ops + 1;
    if (out) *out = pool::mix(*out, ret + 2);
    if (i < from && !nd) continue;
    Res now;
    for (uint64_t id : ids) {
      fq->obj_id = id;
      fq->hv = 0;
      fq->clock_time = i + 1;
      cache_obj_t *x = c->find(c, fq, false);
      if (x) now[id] = x->obj_size;
    }
    if (out)
      for (auto &e : now) *out = pool::mix(*out, e.first * 7919 + e.second);
    if (nd) {
      std::string e = m->observe(o.k, o.id, o.size, ret == 1, now);
      if (!e.empty()) err = o.str() + ": " + e;
    }
    Res w = m->res();
    if (err.empty() && w != now) err = "after " + o.str() + " cached " + res_str(now) + ", by the definition " + res_str(w);
    if (err.empty() && (c->get_n_obj(c) != (int64_t)w.size() || c->get_occupied_byte(c) != m->occ()))
      err = "after " + o.str() + " counters " + std::to_string(c->get_n_obj(c)) + "/" +
            std::to_string(c->get_occupied_byte(c)) + ", by the definition " + std::to_string(w.size()) + "/" +
            std::to_string(m->occ());
    if (last && i + 1 == h.size()) *last = now;
  }
  c->cache_free(c);
  free_request(q);
  free_request(fq);
  return err;
}

struct MC {
  Cfg cfg;
  int ids = 0;         // unit sizes: ids 1..ids; 0: the alphabet as it stands
  int tree_depth = 0;  // exhaustive histories
  size_t max_states = 0;
  bool evict_ok = true;
};

static std::vector<MC> configs(const std::string &prop, const std::string &tier) {
  std::vector<MC> v;
  bool deep = tier == "thorough";
  struct Var {
    const char *prop, *algo, *params;
    int cap, ids;
  };
  static const Var VARS[] = {
      {"P04", "FIFO", "", 3, 6},
      {"P04", "LRU", "", 3, 6},
      {"P04", "LRU", "", 5, 8},
      {"P04", "MRU", "", 3, 6},
      {"P04", "Clock", "", 3, 6},
      {"P04", "Clock", "", 5, 8},
      {"P04", "Clock", "n-bit-counter=2", 3, 6},
      {"P04", "Clock", "n-bit-counter=3", 2, 5},
      {"P04", "Sieve", "", 3, 6},
      {"P04", "Sieve", "", 5, 8},
      {"P05", "LFU", "", 3, 6},
      {"P05", "LFU", "", 4, 7},
      {"P05", "LFUCpp", "", 3, 6},
      {"P05", "LFUCpp", "", 4, 7},
      {"P05", "LFUDA", "", 3, 6},
      {"P05", "LFUDA", "", 4, 7},
      {"P05", "GDSF", "", 3, 6},
      {"P05", "GDSF", "", 4, 7},
      {"P05", "Size", "", 3, 6},
      {"P06", "SLRU", "n-seg=2", 4, 7},
      {"P06", "SLRU", "n-seg=3", 6, 9},
      {"P06", "SLRU", "", 4, 7},
      {"P06", "SLRU", "", 8, 10},
      {"P06", "SLRU", "seg-size=1:2", 6, 9},
      {"P06", "SLRU", "seg-size=2:1:1", 4, 7},
      {"P06", "ARC", "", 2, 6},
      {"P06", "ARC", "", 3, 7},
      {"P06", "ARC", "", 4, 9},
      {"P06", "TwoQ", "", 8, 11},
      {"P06", "TwoQ", "", 4, 7},
      {"P06", "TwoQ", "Ain-size-ratio=0.5,Aout-size-ratio=0.5", 4, 7},
      {"P06", "TwoQ", "Ain-size-ratio=0.75,Aout-size-ratio=1", 4, 8},
      {"P06", "S3FIFO", "fifo-size-ratio=0.5,ghost-size-ratio=0.5", 4, 7},
      {"P06", "S3FIFO", "fifo-size-ratio=0.5,ghost-size-ratio=1,move-to-main-threshold=1", 4, 8},
      {"P06", "S3FIFO", "", 20, 24},
      {"P06", "QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=0.5", 4, 7},
      {"P06", "QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=FIFO,move-to-main-threshold=2", 4, 8},
      {"P06", "QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=LRU", 4, 8},
      {"P06", "QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=sieve", 4, 8},
      {"P06", "QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=clock", 4, 8},
      {"P06", "QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=SLRU", 8, 12},
      {"P06", "QDLP", "", 20, 24},
  };
  for (auto &x : VARS) {
    if (prop != x.prop) continue;
    MC m;
    m.cfg.algo = x.algo;
    m.cfg.params = x.params;
    // (A) unit sizes, ids up to renaming
    {
      MC a = m;
      a.cfg.cap = x.cap;
      a.cfg.canon = true;
      a.ids = x.ids;
      for (int i = 1; i <= x.ids; i++) a.cfg.alpha.push_back(Op{'g', (uint64_t)i, 1});
      if (strcmp(x.algo, "Size")) {
        for (int i = 1; i <= x.ids; i++) a.cfg.alpha.push_back(Op{'r', (uint64_t)i, 1});
        a.cfg.alpha.push_back(Op{'e', 0, 1});
      }
      a.max_states = deep ? 300000 : 20000;
      a.tree_depth = 0;
      if (strcmp(x.algo, "Size")) v.push_back(a);
      // (A') all histories of requests alone, without merging states
      a.cfg.alpha.resize(x.ids);
      a.max_states = 0;
      a.tree_depth = deep ? 11 : 9;
      v.push_back(a);
    }
    // (B) varied sizes; the same object may come back with another size
    static const char *BS[] = {"g1:1 g2:2 g3:4 g4:5 g5:8 g6:9 g7:1 g1:4 r1 r3 e", "g1:10 g2:2 g3:5 g4:20 g5:4 g6:1 g7:25 r2 e"};
    int bcaps[] = {8, 40};
    for (int b = 0; b < 2; b++) {
      MC a = m;
      a.cfg.cap = bcaps[b];
      a.cfg.alpha = parse_ops(BS[b]);
      if (!strcmp(x.algo, "Size")) {
        a.tree_depth = deep ? 7 : 5;
      } else {
        a.max_states = deep ? 300000 : 20000;
        if (!strcmp(x.algo, "GDSF") || !strcmp(x.algo, "LFUDA")) a.max_states *= 2;
      }
      v.push_back(a);
    }
    // (D) unit sizes, but two of the objects also come back too large to be admitted
    if (strcmp(x.algo, "Size")) {
      MC a = m;
      a.cfg.cap = x.cap;
      for (int i = 1; i <= std::min(x.ids, 7); i++) a.cfg.alpha.push_back(Op{'g', (uint64_t)i, 1});
      a.cfg.alpha.push_back(Op{'g', 1, x.cap + 1});
      a.cfg.alpha.push_back(Op{'g', 2, x.cap + 1});
      a.cfg.alpha.push_back(Op{'e', 0, 1});
      a.max_states = deep ? 100000 : x.cap > 8 ? 2000 : 8000;
      v.push_back(a);
    }
    // (C) with per-object metadata
    {
      static const std::set<std::string> md{"FIFO", "LRU", "MRU", "Clock", "Sieve", "LFU", "LFUCpp", "LFUDA", "GDSF", "Size", "SLRU", "ARC"};
      if (md.count(x.algo)) {
        MC a = m;
        a.cfg.md = true;
        a.cfg.cap = 200;
        a.cfg.alpha = parse_ops("g1:10 g2:25 g3:4 g4:50 g5:80 g6:190 r1 e");
        if (!strcmp(x.algo, "Size")) a.tree_depth = deep ? 7 : 5;
        else a.max_states = deep ? 100000 : 10000;
        v.push_back(a);
      }
    }
  }
  return v;
}

struct Node {
  int parent;
  int op;
  int depth;
};

// breadth-first enumeration of the model's states (complete up to the level where the state budget is reached)
static void bfs(const MC &mc, std::vector<Node> &nodes, size_t &full_depth, size_t &transitions) {
  struct Q {
    MP m;
    int maxid;
  };
  std::map<std::string, int> seen;
  std::vector<Q> st;
  auto add = [&](MP m, int maxid, int parent, int op, int depth) {
    std::string k = m->key(mc.cfg.canon);
    if (mc.cfg.canon) k += "|" + std::to_string(std::min(maxid, mc.ids));
    if (!seen.emplace(k, (int)nodes.size()).second) return;
    nodes.push_back(Node{parent, op, depth});
    st.push_back(Q{std::move(m), maxid});
  };
  add(make_model(mc.cfg), 0, -1, -1, 0);
  transitions = 0;
  full_depth = 0;
  for (size_t i = 0; i < nodes.size(); i++) {
    int d = nodes[i].depth;
    if ((size_t)d > full_depth) {
      full_depth = d;  // the level d is complete now
    }
    if (nodes.size() >= mc.max_states) {
      break;
    }
    for (size_t a = 0; a < mc.cfg.alpha.size(); a++) {
      const Op &o = mc.cfg.alpha[a];
      if (mc.cfg.canon && o.k != 'e' && (int)o.id > st[i].maxid + 1) continue;
      if (mc.cfg.canon && o.k == 'r' && (int)o.id > st[i].maxid) continue;
      if (o.k == 'e' && st[i].m->res().empty()) continue;
      MP n = st[i].m->clone();
      int r;
      step(*n, o, r);
      transitions++;
      add(std::move(n), mc.cfg.canon && o.k != 'e' ? std::max(st[i].maxid, (int)o.id) : st[i].maxid, (int)i, (int)a, d + 1);
    }
    st[i].m.reset();
  }
}

static std::vector<Op> path_of(const MC &mc, const std::vector<Node> &nodes, int i) {
  std::vector<Op> p;
  for (; nodes[i].parent >= 0; i = nodes[i].parent) p.push_back(mc.cfg.alpha[nodes[i].op]);
  std::reverse(p.begin(), p.end());
  return p;
}

static bool g_sampled;

static bool check(pool::Ctx &ctx, const Cfg &cfg, const std::vector<Op> &h, size_t from, bool count) {
  std::string pos = ops_str(h);
  ctx.at(pos);
  size_t at = 0;
  uint64_t oh = 3;
  Res last;
  std::string e = replay_both(cfg, h, from, at, ctx.slot, &oh, &last);
  if (count) {
    ctx.slot->evals = ctx.slot->evals + 1;
    ctx.slot->traces = ctx.slot->traces + 1;
    ctx.slot->nontriv = ctx.slot->nontriv + 1;
    pool::outcome(oh);
    if (!g_sampled && h.size() > 6) {
      g_sampled = true;
      ctx.sample(pos + " -> model and implementation agree at every step, final contents " + res_str(last));
    }
  }
  if (!e.empty()) {
    std::vector<Op> s(h.begin(), h.begin() + at + 1);
    ctx.viol("policy", ops_str(s), e);
    return false;
  }
  return true;
}

// suffixes revealing the internal order
static std::vector<std::vector<Op>> suffixes(const MC &mc) {
  std::vector<std::vector<Op>> v(2);
  int64_t u = mc.cfg.canon ? 1 : std::max<int64_t>(1, mc.cfg.cap / 10);
  int n = mc.cfg.canon ? (int)mc.cfg.cap + 1 : 8;
  for (int i = 0; i < std::min(n, 12); i++) v[0].push_back(Op{'g', (uint64_t)(901 + i), u});
  if (mc.cfg.algo != "Size" )
    for (int i = 0; i < std::min(n, 12); i++) v[1].push_back(Op{'e', 0, 1});
  else v.pop_back();
  return v;
}

// the direct evict op is only meaningful while something is cached; trim the suffix with the model
static std::vector<Op> join(const MC &mc, std::vector<Op> h, const std::vector<Op> &suf) {
  if (suf.empty() || suf[0].k != 'e') {
    h.insert(h.end(), suf.begin(), suf.end());
    return h;
  }
  MP m = make_model(mc.cfg);
  int r;
  for (auto &o : h) step(*m, o, r);
  for (auto &o : suf) {
    if (m->res().empty()) break;
    step(*m, o, r);
    h.push_back(o);
  }
  return h;
}

static void tree(pool::Ctx &ctx, const MC &mc, std::vector<Op> &h, int maxid, const std::vector<size_t> &pre,
                 const std::vector<Op> &resume, bool &skipping) {
  if ((int)h.size() == mc.tree_depth) {
    if (skipping) {
      if (ops_str(h) == ops_str(resume)) skipping = false;
      return;
    }
    check(ctx, mc.cfg, h, 0, true);
    return;
  }
  for (size_t a = 0; a < mc.cfg.alpha.size(); a++) {
    const Op &o = mc.cfg.alpha[a];
    if (h.size() < pre.size() && a != pre[h.size()]) continue;
    if (mc.cfg.canon && o.k != 'e' && (int)o.id > maxid + 1) continue;
    if (skipping && h.size() < resume.size() && resume.size() == (size_t)mc.tree_depth) {
      if (o.str() != resume[h.size()].str()) {
        // everything before the resume position in this order is done
        size_t ri = 0;
        for (; ri < mc.cfg.alpha.size(); ri++)
          if (mc.cfg.alpha[ri].str() == resume[h.size()].str()) break;
        if (a < ri) continue;
      }
    }
    h.push_back(o);
    tree(ctx, mc, h, mc.cfg.canon && o.k != 'e' ? std::max(maxid, (int)o.id) : maxid, pre, resume, skipping);
    h.pop_back();
  }
}

int main(int argc, char **argv) {
  std::string out, replay_cfg, replay_hist, only, tier = "quick";
  int workers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") g_prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") { replay_cfg = argv[++i]; replay_hist = argv[++i]; }
  }
  auto replay = [](pool::Ctx &ctx, const std::string &pos) {
    Cfg cfg = parse_cfg(ctx.cfg);
    check(ctx, cfg, parse_ops(pos), 0, false);
  };
  std::vector<pool::Task> tasks;
  if (!replay_cfg.empty()) {
    std::vector<pool::Task> one(1);
    one[0].cfg = replay_cfg;
    one[0].shard = "replay";
    one[0].run = [&](pool::Ctx &c) {
      if (c.resume.empty()) replay(c, replay_hist);
    };
    one[0].replay = replay;
    return pool::run(one, out, 1);
  }
  static std::vector<MC> mcs = configs(g_prop, tier);
  static std::vector<std::vector<Node>> all(mcs.size());
  for (size_t k = 0; k < mcs.size(); k++) {
    MC &mc = mcs[k];
    if (!only.empty() && mc.cfg.algo != only) continue;
    if (mc.max_states) {
      // the first task of a configuration enumerates the model; all its chunks do so again on their own, in parallel
      const int CH = 8;
      for (int ch = 0; ch < CH; ch++) {
        pool::Task t;
        t.cfg = mc.cfg.str() + ";states=" + std::to_string(mc.max_states);
        t.shard = "bfs" + std::to_string(ch);
        t.replay = replay;
        t.run = [k, ch, CH](pool::Ctx &ctx) {
          const MC &mc = mcs[k];
          std::vector<Node> nodes;
          size_t depth, trans;
          bfs(mc, nodes, depth, trans);
          if (ch == 0 && ctx.resume.empty()) {
            ctx.slot->states = ctx.slot->states + nodes.size();
            ctx.note("model states " + std::to_string(nodes.size()) + ", all states up to depth " + std::to_string(depth > 0 ? depth - 1 : 0) +
                     ", transitions " + std::to_string(trans));
          }
          auto sufs = suffixes(mc);
          bool skip = !ctx.resume.empty();
          // every node is a transition of its parent to a new state; the other transitions end in known states and are
          // replayed, too
          std::vector<int> maxid(nodes.size(), 0);
          for (size_t i = 0; i < nodes.size(); i++) {
            if (nodes[i].parent >= 0) {
              const Op &o = mc.cfg.alpha[nodes[i].op];
              maxid[i] = std::max(maxid[nodes[i].parent], o.k == 'e' ? 0 : (int)o.id);
            }
            if ((int)(i % CH) != ch) continue;
            std::vector<Op> p = path_of(mc, nodes, (int)i);
            MP m0 = make_model(mc.cfg);
            int r;
            for (auto &o : p) step(*m0, o, r);
            bool empty = m0->res().empty();
            for (size_t a = 0; a < mc.cfg.alpha.size(); a++) {
              const Op &o = mc.cfg.alpha[a];
              if (mc.cfg.canon && o.k != 'e' && (int)o.id > maxid[i] + 1) continue;
              if (o.k == 'e' && empty) continue;
              std::vector<Op> h = p;
              h.push_back(o);
              std::vector<Op> f = join(mc, h, sufs[(i + a) % sufs.size()]);
              if (skip) {
                if (ops_str(f) == ctx.resume) skip = false;
                continue;
              }
              check(ctx, mc.cfg, f, p.size(), true);
            }
          }
        };
        tasks.push_back(t);
      }
    }
    if (mc.tree_depth) {
      for (size_t a = 0; a < mc.cfg.alpha.size() * mc.cfg.alpha.size(); a++) {
        size_t x = a / mc.cfg.alpha.size(), y = a % mc.cfg.alpha.size();
        if (mc.cfg.canon && (mc.cfg.alpha[x].id > 1 || mc.cfg.alpha[y].id > 2)) continue;
        if (mc.cfg.alpha[x].k == 'e') continue;
        pool::Task t;
        t.cfg = mc.cfg.str() + ";depth=" + std::to_string(mc.tree_depth);
        t.shard = "tree" + std::to_string(x) + "." + std::to_string(y);
        t.replay = replay;
        t.run = [k, x, y](pool::Ctx &ctx) {
          std::vector<Op> h, rs = parse_ops(ctx.resume);
          bool skipping = !rs.empty();
          std::vector<size_t> pre{x, y};
          tree(ctx, mcs[k], h, 0, pre, rs, skipping);
        };
        tasks.push_back(t);
      }
    }
  }
  return pool::run(tasks, out, workers);
}
