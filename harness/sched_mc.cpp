// P09: parallel simulation under every schedule.  The real simulator runs on a thread pool whose threads are controlled
// (sched.hpp); per case, every schedule up to the preemption bound is executed at the granularity of trace reads, reader
// and cache creation, pool and lock operations, and each result is compared with that of simulating the cache alone.
// Built with ThreadSanitizer the same schedules are checked for data races and uses of freed memory.
#include "algo_cfgs.hpp"
#include "reader_common.hpp"
#include "sched.hpp"
extern "C" {
#include "libCacheSim/simulator.h"
}

#define YIELD_AROUND(T, name, params, args)       \
  extern "C" T __real_##name params;              \
  extern "C" T __wrap_##name params {             \
    sched::point();                               \
    T r = __real_##name args;                     \
    sched::point();                               \
    return r;                                     \
  }
YIELD_AROUND(int, read_one_req, (reader_t * a, request_t *b), (a, b))
YIELD_AROUND(reader_t *, clone_reader, (const reader_t *a), (a))
YIELD_AROUND(int, close_reader, (reader_t * a), (a))
YIELD_AROUND(cache_t *, create_cache_with_new_size, (const cache_t *a, uint64_t b), (a, b))
YIELD_AROUND(uint64_t, get_num_of_req, (reader_t * a), (a))
extern "C" void __real_set_rand_seed(uint64_t);
extern "C" void __wrap_set_rand_seed(uint64_t s) {
  sched::point();
  __real_set_rand_seed(s);
  sched::point();
}

static volatile int g_race = 0;
static char g_race_at[512];
#ifdef __SANITIZE_THREAD__
extern "C" {
int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count, int *loc_count, int *mutex_count, int *thread_count,
                           int *unique_tid_count, void **sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid, void **addr, int *size, int *write, int *atomic, void **trace, unsigned long trace_size);
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out_buf, unsigned long out_buf_size);
__attribute__((no_sanitize("thread"))) void __tsan_on_report(void *rep) {
  if (g_race) return;
  g_race = 1;
  const char *desc = "race";
  int n, st, mops = 0, l, m, t, u;
  void *sl[1];
  __tsan_get_report_data(rep, &desc, &n, &st, &mops, &l, &m, &t, &u, sl, 1);
  char out[512];
  snprintf(g_race_at, sizeof g_race_at, "%s", desc);
  for (int i = 0; i < mops && i < 2; i++) {
    int tid, size, w, a;
    void *addr, *trace[8] = {0};
    if (!__tsan_get_report_mop(rep, i, &tid, &addr, &size, &w, &a, trace, 8)) continue;
    strncat(g_race_at, i ? " and" : ":", sizeof g_race_at - strlen(g_race_at) - 1);
    strncat(g_race_at, w ? " write in" : " read in", sizeof g_race_at - strlen(g_race_at) - 1);
    int shown = 0;
    for (int k = 0; k < 6 && trace[k] && shown < 2; k++) {
      out[0] = 0;
      __sanitizer_symbolize_pc(trace[k], "%f %s:%l", out, sizeof out);
      std::string o = out;
      size_t sl = o.rfind('/'), sp = o.find(' ');
      if (sl != std::string::npos && sp != std::string::npos && sl > sp) o = o.substr(0, sp + 1) + o.substr(sl + 1);
      strncat(g_race_at, shown++ ? " < " : " ", sizeof g_race_at - strlen(g_race_at) - 1);
      strncat(g_race_at, o.c_str(), sizeof g_race_at - strlen(g_race_at) - 1);
    }
  }
}
}
#endif

static std::string num(int64_t x) { return std::to_string(x); }

struct Case {
  std::string name;
  std::vector<Cfg> caches;
  int entry = 0;                 // 0 several caches (freed), 1 kept, 2 several sizes, 3 step sizes
  int threads = 2, bound = 1;
  int warm = 0;                  // 0 none, 1 fraction, 2 seconds, 3 another trace, 4 the same reader
  bool fresh = false;            // a process of its own per schedule
  int fmt = 0;                   // 0 oracleGeneral, 1 csv, 2 txt, 3 csv detected, 4 sampled, 5 too large objects
  std::vector<std::vector<int>> traces;  // object numbers
};

static reader_t *open_trace(const Case &c, const std::vector<int> &v, const std::string &path) {
  std::string d;
  std::map<int, int64_t> nx;
  std::vector<int64_t> next(v.size(), -1);
  for (size_t i = v.size(); i-- > 0;) {
    if (nx.count(v[i])) next[i] = nx[v[i]];
    nx[v[i]] = i + 1;
  }
  if (c.fmt == 3) d += "time,object,size\n";
  for (size_t i = 0; i < v.size(); i++) {
    if (c.fmt == 0 || c.fmt >= 4) put(d, (uint32_t)(100 + i)), put(d, (uint64_t)v[i] + 1), put(d, (uint32_t)(c.fmt == 5 && v[i] == 2 ? 1000 : 1)), put(d, next[i]);
    else if (c.fmt == 2) d += num(v[i] + 1) + "\n";
    else d += num(100 + i) + "," + num(v[i] + 1) + ",1\n";
  }
  write_file(path, d);
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_size_zero_req = false;
  if (c.fmt == 1) ip.time_field = 1, ip.obj_id_field = 2, ip.obj_size_field = 3, ip.has_header_set = true, ip.obj_id_is_num = true, ip.delimiter = ',';
  if (c.fmt == 2) ip.obj_id_is_num = true;
  if (c.fmt == 3) ip.time_field = 1, ip.obj_id_field = 2, ip.obj_size_field = 3, ip.obj_id_is_num = true;
  if (c.fmt == 4) ip.sampler = create_spatial_sampler(0.5);
  return setup_reader(path.c_str(), c.fmt == 0 || c.fmt >= 4 ? ORACLE_GENERAL_TRACE : c.fmt == 2 ? PLAIN_TXT_TRACE : CSV_TRACE, &ip);
}

struct Env {
  reader_t *r = nullptr, *w = nullptr;
  std::vector<uint64_t> ids;
};
static cache_stat_t *call(const Case &c, Env &e, const std::vector<Cfg> &cs, int threads, std::vector<cache_t *> &keep) {
  double frac = c.warm == 1 ? 0.5 : 0;
  int sec = c.warm == 2 ? 2 : 0;
  reader_t *w = c.warm == 3 ? e.w : c.warm == 4 ? e.r : nullptr;
  if (c.entry <= 1) {
    std::vector<cache_t *> a;
    for (auto &x : cs) a.push_back(make_cache(x));
    if (c.entry == 1) keep = a;
    cache_stat_t *res = simulate_with_multi_caches(e.r, a.data(), a.size(), w, frac, sec, threads, c.entry == 0);
    return res;
  }
  Cfg big = cs.back();
  cache_t *cache = make_cache(big);
  keep.push_back(cache);
  if (c.entry == 3) return simulate_at_multi_sizes_with_step_size(e.r, cache, cs[0].cap, w, frac, sec, threads);
  std::vector<uint64_t> sizes;
  for (auto &x : cs) sizes.push_back(x.cap);
  return simulate_at_multi_sizes(e.r, cache, sizes.size(), sizes.data(), w, frac, sec, threads);
}
static std::string diff_stat(const cache_stat_t &a, const cache_stat_t &b) {
  struct {
    const char *n;
    int64_t x, y;
  } f[] = {{"warm-up requests", a.n_warmup_req, b.n_warmup_req}, {"requests", a.n_req, b.n_req}, {"bytes", a.n_req_byte, b.n_req_byte}, {"misses", a.n_miss, b.n_miss},
           {"missed bytes", a.n_miss_byte, b.n_miss_byte}, {"objects", a.n_obj, b.n_obj}, {"occupied bytes", a.occupied_byte, b.occupied_byte},
           {"cache size", a.cache_size, b.cache_size}, {"time", a.curr_rtime, b.curr_rtime}};
  for (auto &k : f)
    if (k.x != k.y) return num(k.x) + " " + k.n + ", alone " + num(k.y);
  if (strncmp(a.cache_name, b.cache_name, CACHE_NAME_ARRAY_LEN)) return "cache name " + std::string(a.cache_name) + ", alone " + b.cache_name;
  return "";
}

static pool::Ctx *g_ctx;
static std::string g_pos;
static void sched_failed(int e) {
  g_ctx->viol(e == 1 ? "deadlock" : "endless", g_pos, e == 1 ? "no thread can continue" : "the call does not terminate");
  _exit(0);
}

// one trace of one case
struct Run {
  const Case &k;
  pool::Ctx &c;
  const std::vector<int> &v;
  Env e;
  request_t *q = new_request();
  bool ready = false;
  std::vector<cache_stat_t> alone;
  Run(const Case &k, pool::Ctx &c, const std::vector<int> &v) : k(k), c(c), v(v) {}
  void open() {
    e.r = open_trace(k, v, scratch_file());
    if (k.warm == 3) {
      std::vector<int> rv(v.rbegin(), v.rend());
      e.w = open_trace(k, rv, scratch_file("w"));
    }
  }
  ~Run() {
    free_request(q);
    if (e.r) close_reader(e.r);
    if (e.w) close_reader(e.w);
  }
  // what the trace contains, and each cache alone; done after the first schedule, which meets the process-wide state of
  // the library untouched
  void reference() {
    ready = true;
    reset_reader(e.r);
    while (read_one_req(e.r, q) == 0) e.ids.push_back(q->obj_id);
    reset_reader(e.r);
    for (auto &x : k.caches) {
      std::vector<cache_t *> keep;
      sched::reset(nullptr, 0);
      Case k1 = k;
      if (k1.entry == 3) k1.entry = 2;
      cache_stat_t *r = call(k1, e, {x}, 1, keep);
      sched::stop();
      alone.push_back(*r);
      g_free(r);
      for (auto *p : keep) p->cache_free(p);
    }
  }
  // one schedule; returns false when it violates the property
  bool schedule(const std::vector<unsigned char> &prefix) {
    std::vector<cache_t *> keep;
    sched::reset(prefix.data(), prefix.size());
    cache_stat_t *res = call(k, e, k.caches, k.threads, keep);
    sched::stop();
    c.slot->evals = c.slot->evals + 1;
    c.slot->ops = c.slot->ops + sched::S.steps;
    uint64_t h = pool::hash_str(k.name);
    int pre = 0;
    int np = sched::S.npts;
    for (int i = 0; i < np; i++) {
      h = pool::mix(h, sched::S.pts[i].chosen);
      pre += sched::S.pts[i].chosen != 0;
    }
    if (pre) c.slot->nontriv = c.slot->nontriv + 1;
    pool::outcome(h);
    if (sched::pending()) {
      c.viol("early", g_pos, "the call returned before its tasks were finished");
      _exit(0);
    }
    std::string err;
    std::vector<sched::Point> pts(sched::S.pts, sched::S.pts + np);  // the reference runs use the same array
    if (!ready) reference();
    for (size_t i = 0; i < k.caches.size() && err.empty(); i++) {
      err = diff_stat(res[i], alone[i]);
      if (!err.empty()) err = "result " + num(i) + " (" + k.caches[i].algo + ", size " + num(k.caches[i].cap) + "): " + err;
    }
    // the caller's reader still returns the whole trace
    for (int pass = 0; pass < 2 && err.empty(); pass++) {
      size_t i = 0;
      while (err.empty() && read_one_req(e.r, q) == 0) {
        if (i >= e.ids.size() || q->obj_id != e.ids[i]) err = "the caller's reader returns a wrong request";
        i++;
      }
      if (err.empty() && i != e.ids.size()) err = "the caller's reader returns " + num(i) + " of " + num(e.ids.size()) + " requests";
      reset_reader(e.r);
    }
    if (err.empty() && e.ids.size() != v.size() && k.fmt != 4) err = "the caller's reader returns " + num(e.ids.size()) + " of " + num(v.size()) + " requests";
    g_free(res);
    for (auto *p : keep) p->cache_free(p);
    std::copy(pts.begin(), pts.end(), sched::S.pts);
    sched::S.npts = np;
    if (g_race) c.viol("race", g_pos, g_race_at);
    else if (!err.empty()) c.viol("schedule", g_pos, err);
    return !g_race && err.empty();
  }
};

// only one thread runs at a time: hand-overs are cheapest on one processor
static void one_cpu(size_t n) {
  static cpu_set_t all;
  static bool have = sched_getaffinity(0, sizeof all, &all) == 0;
  if (!have || CPU_COUNT(&all) < 2) return;
  n %= CPU_COUNT(&all);
  for (int i = 0; i < CPU_SETSIZE; i++)
    if (CPU_ISSET(i, &all) && n-- == 0) {
      cpu_set_t one;
      CPU_ZERO(&one);
      CPU_SET(i, &one);
      sched_setaffinity(0, sizeof one, &one);
      return;
    }
}

// every schedule of one trace; only: run just this schedule
static void explore(pool::Ctx &c, const Case &k, int ti, const std::string *only) {
  g_ctx = &c;
  sched::S.fail = sched_failed;
  one_cpu((uintptr_t)c.slot / sizeof *c.slot);
  std::string head = "trace " + num(ti) + " schedule";
  if (!only) {
    if (!c.resume.empty() && c.resume.compare(0, head.size(), head) != 0) return;
    if (!c.resume.empty()) {  // the schedule that failed ends this trace
      c.resume.clear();
      return;
    }
  }
  std::vector<unsigned char> prefix;
  if (only) {
    const char *p = only->c_str() + head.size();
    long a, b;
    int n;
    while (sscanf(p, " %ld:%ld%n", &a, &b, &n) == 2) {
      if ((long)prefix.size() <= a) prefix.resize(a + 1, 0);
      prefix[a] = b;
      p += n;
    }
  }
  Run r(k, c, k.traces[ti]);
  int *shared = nullptr;
  if (k.fresh) {  // a process per schedule: the points come back through shared memory
    shared = (int *)mmap(nullptr, sizeof(int) + (sched::MAXP + 1) * sizeof(sched::Point), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sched::S.pts = (sched::Point *)(shared + 1);
  } else
    r.open();
  long execs = 0;
  for (;;) {
    g_pos = head;
    for (size_t i = 0; i < prefix.size(); i++)
      if (prefix[i]) g_pos += " " + num(i) + ":" + num(prefix[i]);
    c.at(g_pos);
    if (k.fresh && !only) {
      shared[0] = -1;
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        r.open();
        if (!r.schedule(prefix)) shared[0] = -2;
        else shared[0] = sched::S.npts;
        _exit(0);
      }
      int st;
      if (p < 0 || waitpid(p, &st, 0) != p) _exit(9);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) abort();  // the pool runs the schedule again and reports it
      if (shared[0] < 0) break;
      sched::S.npts = shared[0];
    } else {
      if (k.fresh) r.open();
      if (!r.schedule(prefix)) break;
    }
    execs++;
    if (only) break;
    // next schedule: the last choice that can be changed within the bound
    const sched::Point *pts = sched::S.pts;
    int np = sched::S.npts;
    std::vector<int> cost(np + 1, 0);
    for (int i = 0; i < np; i++) cost[i + 1] = cost[i] + (pts[i].cur_first && pts[i].chosen != 0);
    int i = np - 1;
    for (; i >= 0; i--)
      if (pts[i].chosen + 1 < pts[i].n && cost[i] + (pts[i].cur_first ? 1 : 0) <= k.bound) break;
    if (i < 0) break;
    prefix.assign(i + 1, 0);
    for (int j = 0; j < i; j++) prefix[j] = pts[j].chosen;
    prefix[i] = pts[i].chosen + 1;
  }
  if (ti == 0 && !only && pool::hash_str(k.name) % 7 == 0)
    c.sample(k.name + ": " + num(execs) + " schedules of a trace of " + num(k.traces[ti].size()) + " requests, up to " + num(k.bound) + " preemptions");
}

int main(int argc, char **argv) {
  std::string prop = "P09", tier = "quick", out = "/dev/stdout", rcfg, rhist, only;
  int workers = 8;
  bool replay = false, small = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--small") small = true;
    else if (a == "--replay") {
      replay = true;
      rcfg = argv[++i];
      rhist = argv[++i];
    }
  }
  bool deep = tier == "thorough";
  if (!make_scratch()) return 3;
  std::vector<Case> cases;
  auto cfg = [](const char *algo, int64_t cap, const char *params = "") {
    Cfg c;
    c.algo = algo;
    c.cap = cap;
    c.params = params;
    c.ann = c.algo.find("Belady") != std::string::npos;
    return c;
  };
  // every algorithm against itself at another size
  std::set<std::string> seen;
  for (Cfg c : configs("P01", "quick")) {
    if (!c.canon || c.seed != 1) continue;
    if (!seen.insert(c.algo + c.params).second) continue;
    bool very = c.algo == "LHD" || c.algo == "Cacheus";
    if (very && small && !deep && c.algo == "Cacheus") continue;
    Cfg d = c;
    d.cap = c.cap * 2;
    for (int entry : {0, 2}) {
      Case k;
      k.name = c.algo + " " + c.params + (entry ? " sizes" : " caches");
      k.caches = {c, d};
      k.entry = entry;
      k.bound = very || (small && !deep) ? 0 : deep && !small ? 2 : 1;
      k.fresh = small && k.bound == 0;
      k.traces = {{0, 1, 2, 3, 4, 0, 1, 5, 3, 6}};
      if (!very) k.traces.push_back({0, 0, 1, 2, 1, 3, 4, 1, 0});
      if (small) k.traces.resize(1), k.traces[0].resize(deep ? 10 : 8);
      cases.push_back(k);
    }
  }
  // the simulator itself: entry points, warm-up, formats, threads; randomised algorithms next to each other
  struct Mix {
    const char *name;
    std::vector<Cfg> caches;
  };
  std::vector<Mix> mixes = {{"LRU LFU", {cfg("LRU", 2), cfg("LFU", 3)}},
                            {"Random RandomTwo", {cfg("Random", 2), cfg("RandomTwo", 2)}},
                            {"FIFO Sieve Clock", {cfg("FIFO", 1), cfg("Sieve", 2), cfg("Clock", 2)}},
                            {"Random Random Random", {cfg("Random", 1), cfg("Random", 2), cfg("Random", 3)}}};
  for (auto &m : mixes)
    for (int entry = 0; entry < 4; entry++)
      for (int warm = 0; warm < 5; warm++)
        for (int threads = 1; threads <= 3; threads++) {
          if (entry >= 2 && m.caches[0].algo != m.caches.back().algo && m.caches[0].algo != "LRU") continue;
          if ((threads == 3) != (m.caches.size() == 3) && threads != 1) continue;
          if (!deep && threads == 1 && warm > 1) continue;
          Case k;
          k.name = std::string(m.name) + " entry " + num(entry) + " warm-up " + num(warm) + " threads " + num(threads);
          k.caches = m.caches;
          if (entry >= 2)
            for (size_t i = 0; i < k.caches.size(); i++) k.caches[i] = m.caches[0], k.caches[i].cap = i + 1;
          k.entry = entry;
          k.threads = threads;
          k.warm = warm;
          k.bound = small ? 1 : k.caches.size() == 3 ? (deep ? 2 : 1) : (deep ? 3 : 2);
          k.traces = {{0, 1, 0}, {0, 1, 2, 0}};
          if (small) k.traces.resize(1);
          if (!small && k.bound <= 2) k.traces.push_back({0, 1, 2, 1, 3, 0});
          cases.push_back(k);
        }
  for (int fmt = 1; fmt < 6; fmt++)
    for (int entry : {0, 2})
      for (int warm : {0, 1, 3}) {
        Case k;
        k.name = "format " + num(fmt) + " entry " + num(entry) + " warm-up " + num(warm);
        k.caches = {cfg("LRU", 2), cfg("LRU", 3)};
        k.entry = entry;
        k.fmt = fmt;
        k.warm = warm;
        k.bound = small ? 1 : 2;
        k.fresh = small;
        k.traces = {{0, 1, 2, 0, 3}};
        cases.push_back(k);
      }
  std::vector<pool::Task> tasks;
  for (auto &k : cases) {
    if (!only.empty() && k.name.find(only) == std::string::npos) continue;
    for (size_t ti = 0; ti < k.traces.size(); ti++) {
      pool::Task t;
      t.cfg = k.name;
      t.shard = num(ti);
      t.run = [k, ti](pool::Ctx &c) { explore(c, k, ti, nullptr); };
      t.replay = [k](pool::Ctx &c, const std::string &pos) { explore(c, k, atoi(pos.c_str() + 6), &pos); };
      tasks.push_back(t);
    }
  }
  int rc = pool::run_or_replay(tasks, out, workers, replay, rcfg, rhist);
  remove_scratch();
  return rc;
}
