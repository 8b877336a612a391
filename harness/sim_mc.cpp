// P10: simulation statistics.  Every trace up to the bound over the alphabets of the algorithm configurations, written to
// a file and simulated by the real simulator (all entry points, all warm-up kinds); the statistics are compared with the
// records themselves and with feeding the requests to an identical cache.  The thread pool runs each task when it is
// pushed, so a run is deterministic; the schedules are P09's concern.
#include "algo_cfgs.hpp"
#include "reader_common.hpp"
#include "seqmc.hpp"
extern "C" {
#include "libCacheSim/simulator.h"
}
using seqmc::Seq;

// ---- a thread pool without threads
struct InlinePool {
  GThreadPool pub;
  int pushed = 0;
};
extern "C" {
GThreadPool *g_thread_pool_new(GFunc f, gpointer u, gint, gboolean, GError **) {
  InlinePool *p = new InlinePool();
  p->pub.func = f;
  p->pub.user_data = u;
  return &p->pub;
}
gboolean g_thread_pool_push(GThreadPool *p, gpointer d, GError **) {
  p->func(d, p->user_data);
  return TRUE;
}
void g_thread_pool_free(GThreadPool *p, gboolean, gboolean) { delete (InlinePool *)p; }
unsigned sleep(unsigned) { return 0; }
}

enum { W_NONE, W_FRAC, W_ALL, W_SEC1, W_SEC3, W_READER, W_N };
static const char *W_NAME[] = {"none", "fraction 0.4", "fraction 1", "1 second", "3 seconds", "another trace"};
enum { E_MULTI_FREE, E_MULTI_KEEP, E_SIZES, E_STEP, E_N };
static const char *E_NAME[] = {"caches", "caches kept", "sizes", "step"};

struct RecQ {
  int64_t time;
  uint64_t id;
  int64_t size, next;
};
static std::vector<RecQ> records(const Cfg &c, const Seq &v, int64_t t0) {
  std::vector<RecQ> r;
  std::vector<Op> all(c.pre);
  for (int i : v) all.push_back(c.alpha[i]);
  for (size_t i = 0; i < all.size(); i++) r.push_back({t0 + (int64_t)(i * 3 / 2), all[i].id, all[i].size, -1});
  std::map<uint64_t, int64_t> nx;
  for (size_t i = r.size(); i-- > 0;) {
    if (nx.count(r[i].id)) r[i].next = nx[r[i].id];
    nx[r[i].id] = i + 1;
  }
  return r;
}
static reader_t *make_reader(const std::vector<RecQ> &r, const std::string &path) {
  bool big = false;
  for (auto &q : r) big = big || q.size > 0xffffffffll;
  std::string d;
  for (auto &q : r) {
    if (big) d += std::to_string(q.time) + "," + std::to_string(q.id) + "," + std::to_string(q.size) + "\n";
    else put(d, (uint32_t)q.time), put(d, q.id), put(d, (uint32_t)q.size), put(d, q.next);
  }
  write_file(path, d);
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_size_zero_req = false;
  if (big) ip.time_field = 1, ip.obj_id_field = 2, ip.obj_size_field = 3, ip.has_header_set = true, ip.obj_id_is_num = true, ip.delimiter = ',';
  return setup_reader(path.c_str(), big ? CSV_TRACE : ORACLE_GENERAL_TRACE, &ip);
}

static std::string num(int64_t x) { return std::to_string(x); }
struct Want {
  int64_t warm = 0, n_req = 0, bytes = 0, miss = 0, miss_bytes = 0, n_obj = 0, occ = 0, size = 0;
  std::string name;
};
static Want oracle(const Cfg &c, reader_t *r, const std::vector<RecQ> &recs, reader_t *wr, int w) {
  Want x;
  cache_t *cache = make_cache(c);
  set_rand_seed(0);
  request_t *q = new_request();
  if (w == W_READER) {
    reset_reader(wr);
    while (read_one_req(wr, q) == 0) cache->get(cache, q), x.warm++;
  }
  size_t n = recs.size(), first = 0;
  if (w == W_FRAC) first = (size_t)(n * 0.4);
  if (w == W_ALL) first = n;
  if (w == W_SEC1 || w == W_SEC3)
    while (first < n && recs[first].time - recs[0].time < (w == W_SEC1 ? 1 : 3)) first++;
  x.warm += first;
  reset_reader(r);
  for (size_t i = 0; i < n; i++) {
    if (read_one_req(r, q) != 0) x.name = "the reader ended early";
    q->clock_time -= recs[0].time;
    bool hit = cache->get(cache, q);
    if (i < first) continue;
    x.n_req++;
    x.bytes += recs[i].size;
    if (!hit) x.miss++, x.miss_bytes += recs[i].size;
  }
  reset_reader(r);
  x.n_obj = cache->get_n_obj(cache);
  x.occ = cache->get_occupied_byte(cache);
  x.size = c.cap;
  x.name += cache->cache_name;
  cache->cache_free(cache);
  free_request(q);
  return x;
}
static std::string compare(const cache_stat_t &s, const Want &w) {
  struct {
    const char *n;
    int64_t got, want;
  } f[] = {{"warm-up requests", s.n_warmup_req, w.warm}, {"requests", s.n_req, w.n_req}, {"requested bytes", s.n_req_byte, w.bytes},
           {"misses", s.n_miss, w.miss}, {"missed bytes", s.n_miss_byte, w.miss_bytes}, {"objects", s.n_obj, w.n_obj},
           {"occupied bytes", s.occupied_byte, w.occ}, {"cache size", s.cache_size, w.size}};
  for (auto &x : f)
    if (x.got != x.want) return num(x.got) + " " + x.n + " reported, should be " + num(x.want);
  if (w.name != s.cache_name) return "reported for " + std::string(s.cache_name) + ", should be " + w.name;
  return "";
}

static std::string simulate(const Cfg &c, const Seq &v, int w, int e) {
  std::vector<RecQ> recs = records(c, v, 100);
  Seq rv(v.rbegin(), v.rend());
  rv.insert(rv.end(), v.begin(), v.end());
  std::string path = scratch_file(), wpath = scratch_file("w");
  reader_t *r = make_reader(recs, path), *wr = nullptr;
  if (w == W_READER) wr = make_reader(records(c, rv, 5), wpath);
  double frac = w == W_FRAC ? 0.4 : w == W_ALL ? 1.0 : 0;
  int sec = w == W_SEC1 ? 1 : w == W_SEC3 ? 3 : 0;
  cache_t *cache = make_cache(c);
  std::vector<Cfg> cs;
  cache_stat_t *res = nullptr;
  Cfg c2 = c;
  c2.cap = c.cap * 2;
  std::vector<cache_t *> keep;
  if (e == E_MULTI_FREE || e == E_MULTI_KEEP) {
    cs = {c, c2};
    cache_t *both[] = {cache, make_cache(c2)};
    res = simulate_with_multi_caches(r, both, 2, wr, frac, sec, 2, e == E_MULTI_FREE);
    if (e == E_MULTI_KEEP) keep = {both[0], both[1]};
  } else if (e == E_SIZES) {
    cs = {c2, c};
    uint64_t sizes[] = {(uint64_t)c2.cap, (uint64_t)c.cap};
    res = simulate_at_multi_sizes(r, cache, 2, sizes, wr, frac, sec, 2);
    keep = {cache};
  } else {
    cs = {c, c2};
    cache_t *big = make_cache(c2);
    res = simulate_at_multi_sizes_with_step_size(r, big, c.cap, wr, frac, sec, 2);
    keep = {cache, big};
  }
  std::string err;
  for (size_t i = 0; i < cs.size() && err.empty(); i++) {
    Want x = oracle(cs[i], r, recs, wr, w);
    err = compare(res[i], x);
    if (err.empty() && e == E_MULTI_KEEP && (keep[i]->get_n_obj(keep[i]) != x.n_obj || keep[i]->get_occupied_byte(keep[i]) != x.occ)) err = "the caller's cache does not have the final state";
    if (!err.empty()) err = "cache " + num(i + 1) + " of " + num(cs.size()) + ": " + err;
  }
  for (auto *k : keep) k->cache_free(k);
  g_free(res);
  if (wr) close_reader(wr);
  close_reader(r);
  return err;
}

// the requests counted are those the reader returns: filtered, capped, sampled and repeated traces
static std::string readers(int kind, const Seq &v, int w) {
  std::string d, path = scratch_file();
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_size_zero_req = kind == 0;
  for (size_t i = 0; i < v.size(); i++) {
    uint32_t size = v[i] == 1 ? 0 : 1 + v[i] % 3;
    if (kind == 3) d += num(10 + i) + "," + num(v[i]) + "," + num(size) + "," + num(1 + (i + v[i]) % 3) + "\n";
    else put(d, (uint32_t)(10 + i)), put(d, (uint64_t)(v[i] * 7919 + 3)), put(d, size), put(d, (int64_t)-1);
  }
  write_file(path, d);
  if (kind == 1) ip.cap_at_n_req = 3;
  if (kind == 2) ip.sampler = create_spatial_sampler(0.5);
  if (kind == 3) ip.time_field = 1, ip.obj_id_field = 2, ip.obj_size_field = 3, ip.cnt_field = 4, ip.has_header_set = true, ip.obj_id_is_num = true, ip.delimiter = ',';
  reader_t *r = setup_reader(path.c_str(), kind == 3 ? CSV_TRACE : ORACLE_GENERAL_TRACE, &ip);
  std::vector<RecQ> recs;
  request_t *q = new_request();
  while (read_one_req(r, q) == 0) recs.push_back({q->clock_time, q->obj_id, q->obj_size, -1});
  free_request(q);
  reset_reader(r);
  std::string err;
  Cfg c;
  c.algo = "LRU";
  c.cap = 4;
  cache_t *cache = make_cache(c);
  cache_stat_t *res = simulate_with_multi_caches(r, &cache, 1, nullptr, 0, w == W_SEC3 ? 3 : 0, 1, true);
  if (!recs.empty()) err = compare(res[0], oracle(c, r, recs, nullptr, w));
  else if (res[0].n_req || res[0].n_miss || res[0].n_req_byte) err = "requests are reported for an empty trace";
  g_free(res);
  close_reader(r);
  return err;
}

int main(int argc, char **argv) {
  seqmc::Args a(argc, argv, "P10");
  if (!make_scratch()) return 3;
  seqmc::Suite s(a);
  s.kind = "simulation";
  s.sample_mod = 23;
  std::set<std::string> seen;
  for (Cfg c : configs("P01", "quick")) {
    if (!seen.insert(c.str()).second || c.seed != 1) continue;
    std::vector<Op> al;
    for (auto &o : c.alpha)
      if (o.k == 'g') al.push_back(o);
    c.alpha = al;
    bool big = false;
    for (auto &o : al) big = big || o.size > 0xffffffffll;
    if (big && c.ann) continue;  // annotated traces have 32-bit sizes
    bool slow = c.algo == "LHD" || c.algo == "Hyperbolic" || c.algo == "RandomLRU";
#ifdef SUPPORT_TTL
    // the time a cache is given is the time since the first request, in the warm-up too
    if (!c.canon || c.algo == "LHD" || c.algo == "Cacheus") continue;
    for (int64_t ttl : {2, 3})
      for (int w : {W_NONE, W_FRAC, W_SEC3})
        for (int e = 0; e < E_N; e++) {
          c.ttl = ttl;
          Cfg k = c;
          s.add(c.str() + ";warm-up " + W_NAME[w] + ";" + E_NAME[e], seqmc::rgs(1, (slow ? 4 : 5) + a.deep, c.alpha.size()), [=](const Seq &v) { return simulate(k, v, w, e); }, "every trace up to the length, objects expire");
        }
    continue;
#endif
    int depth = c.canon ? (slow ? 5 : 6) : (slow ? 2 : 3);
    if (a.deep) depth++;
    bool very = c.algo == "LHD" || c.algo == "Cacheus";  // large tables: milliseconds per cache
    if (very) depth = (c.canon ? 3 : 1) + a.deep;
    for (int w = 0; w < W_N; w++)
      for (int e = 0; e < E_N; e++) {
        if (very && (w + e) % 3) continue;
        if (c.ann && w == W_READER) continue;  // another trace's annotations are not this trace's future
        if (!a.deep && !c.canon && (w + e) % 2) continue;
        std::string name = c.str() + ";warm-up " + W_NAME[w] + ";" + E_NAME[e];
        s.add(name, c.canon ? seqmc::rgs(1, depth, c.alpha.size()) : seqmc::words(c.alpha.size(), 1, depth),
              [=](const Seq &v) { return simulate(c, v, w, e); }, "every trace to length " + num(depth));
      }
  }
#ifndef SUPPORT_TTL
  static const char *K[] = {"filtered", "capped", "sampled", "repeated"};
  for (int k = 0; k < 4; k++)
    for (int w : {W_NONE, W_SEC3})
      s.add(std::string("reader ") + K[k] + ";warm-up " + W_NAME[w], seqmc::words(4, 1, a.deep ? 8 : 6), [=](const Seq &v) { return readers(k, v, w); }, "every trace over 4 objects", 4);
#endif
  int rc = s.go();
  remove_scratch();
  return rc;
}
