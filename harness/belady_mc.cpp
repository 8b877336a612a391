// P08: every trace up to a length (ids up to renaming) is run on Belady with its exact annotations; the number of misses
// is compared with the optimum found by exhaustive search over all demand-paging eviction choices, and with the misses
// of every other algorithm.
#include "algos.hpp"
#include "perturb.hpp"
#include "algo_cfgs.hpp"

static int run_algo(const Cfg &cfg, const std::vector<int> &t, int64_t size, int64_t off, pool::Slot *slot) {
  std::vector<int64_t> nxt(t.size(), INT64_MAX);
  std::map<int, int64_t> last;
  for (size_t i = t.size(); i-- > 0;) {
    auto it = last.find(t[i]);
    if (it != last.end()) nxt[i] = it->second + off;
    last[t[i]] = (int64_t)i + 1;
  }
  cache_t *c = make_cache(cfg);
  request_t *q = new_request();
  int miss = 0;
  for (size_t i = 0; i < t.size(); i++) {
    q->clock_time = i + 1;
    q->hv = 0;
    q->obj_id = t[i];
    q->obj_size = size;
    q->n_req = i;
    q->next_access_vtime = nxt[i];
    if (!c->get(c, q)) miss++;
    if (slot) slot->ops = slot->ops + 1;
  }
  c->cache_free(c);
  free_request(q);
  return miss;
}

// minimum number of misses over all sequences of eviction choices (every missed object is admitted)
static int optimum(const std::vector<int> &t, int k) {
  std::map<uint32_t, int> cur, nx;
  cur[0] = 0;
  for (int id : t) {
    nx.clear();
    uint32_t b = 1u << id;
    auto put = [&](uint32_t s, int m) {
      auto r = nx.emplace(s, m);
      if (!r.second && r.first->second > m) r.first->second = m;
    };
    for (auto &e : cur) {
      if (e.first & b) put(e.first, e.second);
      else if (__builtin_popcount(e.first) < k) put(e.first | b, e.second + 1);
      else
        for (uint32_t m = e.first; m; m &= m - 1) put((e.first & ~(m & -m)) | b, e.second + 1);
    }
    cur.swap(nx);
  }
  int best = 1 << 30;
  for (auto &e : cur) best = std::min(best, e.second);
  return best;
}

static std::string tstr(const std::vector<int> &t) {
  std::string s;
  for (int x : t) s += (s.empty() ? "" : " ") + std::to_string(x);
  return s;
}

struct Job {
  Cfg cfg;
  int k = 1;
  int64_t size = 1, off = 0;
  int len = 8, ids = 8;
  bool other = false;
  int perm = 0;  // >0: traces 1..perm, an interleaving of new ids and every permutation of 1..perm
  std::string name() const {
    return cfg.str() + ";k=" + std::to_string(k) + ";size=" + std::to_string(size) + ";off=" + std::to_string(off);
  }
};

static void one(pool::Ctx &ctx, const Job &j, const std::vector<int> &t, bool count) {
  std::string pos = tstr(t);
  ctx.at(pos);
  int m = run_algo(j.cfg, t, j.size, j.off, ctx.slot);
  int o = optimum(t, j.k);
  if (count) {
    ctx.slot->evals = ctx.slot->evals + 1;
    if (o < (int)t.size()) ctx.slot->nontriv = ctx.slot->nontriv + 1;
    pool::outcome(pool::mix(pool::mix(m, o), pool::hash_str(pos)));
    if ((int)t.size() == j.len && t[1] == 2 && t[2] == 1 && t[j.len - 1] == 3)
      if (ctx.samples.size() < 1) {
        ctx.samples.insert(pos);
        ctx.sample(pos + ": " + std::to_string(m) + " misses, optimum " + std::to_string(o));
      }
  }
  if (!j.other && m != o) ctx.viol("optimal", pos, "Belady misses " + std::to_string(m) + " times, the optimum is " + std::to_string(o));
  if (j.other && m < o) ctx.viol("beats-belady", pos, j.cfg.algo + " misses " + std::to_string(m) + " times, Belady's optimum is " + std::to_string(o));
}

static void gen(pool::Ctx &ctx, const Job &j, std::vector<int> &t, int mx, const std::vector<int> &pre, bool &skip) {
  if (!t.empty() && (t.size() >= pre.size())) {
    if (skip) {
      if (tstr(t) == ctx.resume) skip = false;
    } else
      one(ctx, j, t, true);
  }
  if ((int)t.size() == j.len) return;
  for (int i = 1; i <= std::min(mx + 1, j.ids); i++) {
    if (t.size() < pre.size() && i != pre[t.size()]) continue;
    t.push_back(i);
    gen(ctx, j, t, std::max(mx, i), pre, skip);
    t.pop_back();
  }
}

// 1..n in order, then every permutation of 1..n, new ids interleaved (mode bits say before which positions)
static void gen_perm(pool::Ctx &ctx, const Job &j, int first) {
  bool skip = !ctx.resume.empty();
  std::vector<int> p;
  for (int i = 1; i <= j.perm; i++) p.push_back(i);
  do {
    if (p[0] != first) continue;
    for (int mode = 0; mode < 4; mode++) {
      std::vector<int> t;
      int nw = j.perm;
      for (int i = 1; i <= j.perm; i++) t.push_back(i);
      for (int i = 0; i < j.perm; i++) {
        if (i == 0 || (mode & 1 && i % 2 == 1) || (mode & 2 && i % 3 == 2)) t.push_back(++nw);
        t.push_back(p[i]);
      }
      if (mode & 1) t.push_back(p[1]), t.push_back(p[0]);
      if (skip) {
        if (tstr(t) == ctx.resume) skip = false;
      } else
        one(ctx, j, t, true);
    }
  } while (std::next_permutation(p.begin(), p.end()));
}

static std::vector<Job> jobs(const std::string &tier) {
  std::vector<Job> v;
  bool deep = tier == "thorough";
  for (int k = 1; k <= 4; k++) {
    Job j;
    j.cfg.algo = "Belady";
    j.cfg.ann = true;
    j.cfg.cap = k;
    j.k = k;
    j.len = deep ? 12 : 10;
    j.ids = 7;
    v.push_back(j);
    if (k > 1) {
      j.len = deep ? 13 : 11;
      j.ids = k + 1;
      v.push_back(j);
    }
    j.len = deep ? 10 : 8;
    j.ids = 7;
    j.size = 7;
    j.cfg.cap = 7 * k + 6;
    j.cfg.hp = 1;
    j.off = 5000000000ll;
    v.push_back(j);
  }
  for (int n = 5; n <= (deep ? 8 : 7); n++)
    for (int k = n - 2; k <= n; k++) {
      Job j;
      j.cfg.algo = "Belady";
      j.cfg.ann = true;
      j.cfg.cap = k;
      j.cfg.hp = 1;
      j.k = k;
      j.perm = n;
      v.push_back(j);
    }
  std::set<std::string> seen;
  for (Cfg c : configs("P01", "quick")) {
    if (!c.canon || c.seed > 3) continue;
    if (c.algo == "Belady") continue;
    std::string key = c.str();
    if (!seen.insert(key).second) continue;
    Job j;
    j.cfg = c;
    j.cfg.alpha.clear();
    j.k = c.cap;
    j.other = true;
    j.len = c.algo == "LHD" ? 5 : deep ? 10 : 9;
    j.ids = std::min<int>(c.cap + 2, 6);
    v.push_back(j);
  }
  return v;
}

int main(int argc, char **argv) {
  std::string out, replay_cfg, replay_hist, only, tier = "quick";
  int workers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") ++i;
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") { replay_cfg = argv[++i]; replay_hist = argv[++i]; }
  }
  static std::vector<Job> js = jobs(tier);
  auto replay = [](pool::Ctx &ctx, const std::string &pos) {
    std::vector<int> t;
    std::istringstream is(pos);
    int x;
    while (is >> x) t.push_back(x);
    Job j;
    std::string c = ctx.cfg;
    size_t a = c.find(";k=");
    j.cfg = parse_cfg(c.substr(0, a));
    j.k = atoi(c.c_str() + a + 3);
    j.size = atoll(c.c_str() + c.find(";size=") + 6);
    j.off = atoll(c.c_str() + c.find(";off=") + 5);
    j.other = j.cfg.algo != "Belady";
    one(ctx, j, t, false);
  };
  std::vector<pool::Task> tasks;
  if (!replay_cfg.empty()) {
    std::vector<pool::Task> o(1);
    o[0].cfg = replay_cfg;
    o[0].shard = "replay";
    o[0].run = [&](pool::Ctx &c) {
      if (c.resume.empty()) replay(c, replay_hist);
    };
    o[0].replay = replay;
    return pool::run(o, out, 1);
  }
  for (size_t n = 0; n < js.size(); n++) {
    if (!only.empty() && js[n].cfg.algo != only) continue;
    for (int f = 1; f <= js[n].perm; f++) {
      pool::Task t;
      t.cfg = js[n].name();
      t.shard = "perm" + std::to_string(f);
      t.replay = replay;
      t.run = [n, f](pool::Ctx &ctx) { gen_perm(ctx, js[n], f); };
      tasks.push_back(t);
    }
    if (js[n].perm) continue;
    for (int a = 1; a <= 2; a++)
      for (int b = 1; b <= a + 1; b++) {
        pool::Task t;
        t.cfg = js[n].name();
        t.shard = std::to_string(a) + "." + std::to_string(b);
        t.replay = replay;
        t.run = [n, a, b](pool::Ctx &ctx) {
          std::vector<int> t, pre{1, a, b};
          bool skip = !ctx.resume.empty();
          if (js[n].ids < a || js[n].ids < b) return;
          gen(ctx, js[n], t, 0, pre, skip);
        };
        tasks.push_back(t);
      }
  }
  return pool::run(tasks, out, workers);
}
