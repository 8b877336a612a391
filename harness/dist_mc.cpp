// P16: reuse distances and LRU miss curves.  Every pattern of ids up to renaming, per trace format and reader option,
// profiled by the real code; the distances are compared with a direct count, the miss counts with LRU stacks of each size
// and with real LRU caches.
#include <math.h>

#include "reader_common.hpp"
#include "seqmc.hpp"
extern "C" {
#include "libCacheSim/dist.h"
#include "libCacheSim/evictionAlgo.h"
#include "libCacheSim/profilerLRU.h"
}
using seqmc::Seq;

struct Kind {
  std::string name;
  int fmt = 0;        // 0 oracleGeneral, 1 csv, 2 csv with textual ids, 3 plain text, 4 csv with repetitions
  int ids = 0;        // which numbers stand for the objects
  bool zero = false;  // object 1 has size 0 and is filtered
  long cap = -1;
  int sample = 0;
  int order = 0;      // order of the profiles
  bool sim = true;    // also simulate LRU caches
};
static uint64_t obj_id(int o, int set) {
  static const uint64_t A[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
  static const uint64_t B[] = {0xffffffffffffffffull, 0, 0x100000000ull, 1, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x200000000ull, 0xffffffffull, 77, 78, 79, 80};
  if (o >= 12) return (uint64_t)o * 2654435761u;
  return set ? B[o] : A[o];
}
static std::string num(int64_t x) { return std::to_string(x); }

static std::string profile(const Kind &k, const Seq &v) {
  std::string path = scratch_file(), d;
  std::vector<int> req;
  for (size_t i = 0; i < v.size(); i++) {
    uint64_t id = obj_id(v[i], k.ids);
    uint32_t size = k.zero && v[i] == 1 ? 0 : 10 + v[i];
    int reps = k.fmt == 4 ? 1 + (i * 2 + v[i]) % 3 : 1;
    if (k.fmt == 0) put(d, (uint32_t)(i + 1)), put(d, id), put(d, size), put(d, (int64_t)-1);
    else if (k.fmt == 1) d += num(i + 1) + "," + std::to_string(id) + "," + num(size) + "\n";
    else if (k.fmt == 2) d += num(i + 1) + ",obj-" + std::to_string(id) + "/x," + num(size) + "\n";
    else if (k.fmt == 3) d += std::to_string(id) + "\n";
    else d += num(i + 1) + "," + std::to_string(id) + "," + num(size) + "," + num(reps) + "\n";
    for (int j = 0; j < reps; j++)
      if (!(k.zero && size == 0)) req.push_back(v[i]);
  }
  if (k.cap > 0 && (long)req.size() > k.cap) req.resize(k.cap);
  write_file(path, d);
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_size_zero_req = k.zero;
  ip.cap_at_n_req = k.cap;
  if (k.fmt != 0 && k.fmt != 3) ip.time_field = 1, ip.obj_id_field = 2, ip.obj_size_field = 3, ip.obj_id_is_num = k.fmt != 2, ip.has_header_set = true;
  if (k.fmt == 3) ip.obj_id_is_num = true;
  if (k.fmt == 4) ip.cnt_field = 4;
  if (k.sample) ip.sampler = create_spatial_sampler(1.0 / k.sample);
  trace_type_e tt = k.fmt == 0 ? ORACLE_GENERAL_TRACE : k.fmt == 3 ? PLAIN_TXT_TRACE : CSV_TRACE;
  reader_t *r = setup_reader(path.c_str(), tt, &ip);
  if (k.sample) {  // the requests the sampled reader returns, as objects
    std::map<uint64_t, int> back;
    for (int o : v) back[obj_id(o, k.ids)] = o;
    req.clear();
    request_t *q = new_request();
    while (read_one_req(r, q) == 0) req.push_back(back.at(q->obj_id));
    free_request(q);
    reset_reader(r);
  }
  const long n = req.size();
  std::vector<int64_t> stack(n, -1), future(n, -1), last(n, -1), first(n, -1);
  {
    std::map<int, long> f, l;
    for (long i = 0; i < n; i++) {
      int o = req[i];
      if (l.count(o)) {
        last[i] = i - l[o];
        first[i] = i - f[o];
        std::set<int> between(req.begin() + l[o] + 1, req.begin() + i);
        stack[i] = between.size();
        future[l[o]] = stack[i];
      } else f[o] = i;
      l[o] = i;
    }
  }
  std::string err;
  std::vector<std::function<void()>> steps;
  auto check = [&](const char *what, const std::vector<int64_t> &want, dist_type_e t, bool save) {
    int64_t size = -7;
    int32_t *a = t == STACK_DIST || t == FUTURE_STACK_DIST ? get_stack_dist(r, t, &size) : get_access_dist(r, t, &size);
    if (size != n) err = std::string(what) + ": " + num(size) + " distances for " + num(n) + " requests";
    for (long i = 0; i < n && err.empty(); i++)
      if (a[i] != want[i]) err = std::string(what) + " of request " + num(i) + " is " + num(a[i]) + ", should be " + num(want[i]);
    if (save && err.empty()) {
      std::string base = scratch_file("d"), full = base + "." + g_dist_type_name[t];
      save_dist(r, a, size, base.c_str(), t);
      int64_t s2 = -7;
      int32_t *b = load_dist(r, full.c_str(), &s2);
      if (s2 != size) err = std::string(what) + ": " + num(s2) + " distances loaded of " + num(size) + " saved";
      for (long i = 0; i < n && err.empty(); i++)
        if (a[i] != b[i]) err = std::string(what) + " of request " + num(i) + ": saved " + num(a[i]) + ", loaded " + num(b[i]);
      free(b);
      unlink(full.c_str());
      if (err.empty()) {
        save_dist_txt(r, a, size, base.c_str(), t);
        std::string txt;
        for (long i = 0; i < n; i++) txt += num(a[i]) + "\n";
        FILE *fp = fopen((full + ".txt").c_str(), "r");
        std::string got;
        for (int c; fp && (c = fgetc(fp)) != EOF;) got += (char)c;
        if (fp) fclose(fp);
        if (got != txt) err = std::string(what) + ": the distances saved as text differ";
        unlink((full + ".txt").c_str());
      }
      if (err.empty()) {
        save_dist_as_cnt_txt(r, a, size, base.c_str(), t);
        std::map<int64_t, int64_t> cnt, got;
        for (long i = 0; i < n; i++) cnt[a[i]]++;
        FILE *fp = fopen((full + ".cnt").c_str(), "r");
        long x, y;
        while (fp && fscanf(fp, "%ld:%ld, ", &x, &y) == 2) got[x == INT64_MAX ? -1 : x] += y;
        if (fp) fclose(fp);
        if (got != cnt) err = std::string(what) + ": the counts per distance differ";
        unlink((full + ".cnt").c_str());
      }
    }
    free(a);
  };
  long nobj = std::set<int>(req.begin(), req.end()).size();
  auto curve = [&](long upto) {
    double *mr = get_lru_obj_miss_ratio(r, upto), *mr2 = upto % 2 ? get_lru_obj_miss_ratio_curve(r, upto) : nullptr;
    guint64 *mc = _get_lru_miss_cnt(r, upto);
    for (long s = 0; s <= upto && err.empty(); s++) {
      long miss = 0;
      if (k.sim && s > 0 && s <= 16) {
        common_cache_params_t p = default_common_cache_params();
        p.cache_size = s;
        p.hashpower = 4;
        cache_t *lru = LRU_init(p, NULL);
        request_t *q = new_request();
        q->obj_size = 1;
        q->valid = true;
        for (int o : req) {
          q->obj_id = obj_id(o, k.ids);
          q->hv = 0;
          miss += !lru->get(lru, q);
        }
        lru->cache_free(lru);
        free_request(q);
      } else
        for (long i = 0; i < n; i++) miss += stack[i] < 0 || stack[i] >= s;
      if ((long)mc[s] != miss) err = "LRU of " + num(s) + " objects: " + num(mc[s]) + " misses derived from the distances, simulated " + num(miss);
      else if (n > 0 && fabs(mr[s] - (double)miss / n) > 1e-12) err = "LRU of " + num(s) + " objects: miss ratio " + std::to_string(mr[s]) + ", should be " + std::to_string((double)miss / n);
      else if (mr2 && n > 0 && mr2[s] != mr[s]) err = "the miss ratio curve differs from the miss ratios";
    }
    g_free(mr);
    g_free(mr2);
    g_free(mc);
  };
  steps.push_back([&] { check("stack distance", stack, STACK_DIST, true); });
  steps.push_back([&] { check("stack distance to the next request", future, FUTURE_STACK_DIST, true); });
  steps.push_back([&] { check("distance since the last access", last, DIST_SINCE_LAST_ACCESS, true); });
  steps.push_back([&] { check("distance since the first access", first, DIST_SINCE_FIRST_ACCESS, true); });
  steps.push_back([&] { curve(nobj + 1); });
  steps.push_back([&] { curve(std::max(1L, nobj - 1)); });
  if (k.order) std::reverse(steps.begin(), steps.end());
  for (auto &s : steps)
    if (err.empty()) s();
  // the profiles leave the reader at the start
  if (err.empty()) {
    request_t *q = new_request();
    long m = 0;
    while (read_one_req(r, q) == 0) m++;
    if (m != n) err = "after profiling the reader returns " + num(m) + " of " + num(n) + " requests";
    free_request(q);
  }
  close_reader(r);
  return err;
}

int main(int argc, char **argv) {
  seqmc::Args a(argc, argv, "P16");
  if (!make_scratch()) return 3;
  seqmc::Suite s(a);
  s.kind = "profile";
  std::vector<Seq> lng;
  for (int n : {150, 1000, 3000})
    for (int m : {1, 7, 97, 500}) {
      Seq v;
      uint32_t x = 12345;
      for (int i = 0; i < n + m; i++) {
        x = x * 1664525u + 1013904223u;
        v.push_back(m == 500 && n == 1000 ? i % 300 : m == 97 ? i * i % 89 : (x >> 16) % m);
      }
      lng.push_back(v);
    }
  auto add = [&](Kind k, int len, int maxid) {
    s.add(k.name, seqmc::rgs(1, len, maxid), [=](const Seq &v) { return profile(k, v); }, "every pattern of ids up to renaming to length " + num(len), 4);
    Kind q = k;
    q.sim = false;
    q.name += " long";
    s.add(q.name, seqmc::list(lng), [=](const Seq &v) { return profile(q, v); }, "traces of 150 to 3500 requests");
  };
  int L = a.deep ? 10 : 9;
  Kind k;
  k.name = "oracleGeneral";
  add(k, L, 9);
  k.name = "oracleGeneral large ids, reverse order", k.ids = 1, k.order = 1;
  add(k, L, 9);
  k = Kind();
  k.name = "csv", k.fmt = 1, k.ids = 1;
  add(k, L - 2, 9);
  k.name = "csv textual ids", k.fmt = 2;
  add(k, L - 2, 9);
  k.name = "txt", k.fmt = 3;
  add(k, L - 2, 9);
  k.name = "csv repetitions", k.fmt = 4;
  add(k, L - 2, 9);
  k.name = "csv repetitions cap 4", k.cap = 4;
  add(k, L - 2, 9);
  k = Kind();
  k.name = "oracleGeneral filtered", k.zero = true;
  add(k, L - 1, 9);
  k.name = "csv filtered", k.fmt = 1;
  add(k, L - 2, 9);
  k = Kind();
  k.name = "oracleGeneral cap 3", k.cap = 3;
  add(k, L - 2, 9);
  k = Kind();
  k.name = "oracleGeneral sampled", k.sample = 2;
  add(k, L - 1, 9);
  // more objects than requests of the short patterns: permuted second passes
  s.add("second passes", [=](std::function<void(const Seq &)> f) {
    Seq p;
    int m = a.deep ? 8 : 7;
    for (int i = 0; i < m; i++) p.push_back(i);
    do {
      Seq v;
      for (int i = 0; i < m; i++) v.push_back(i);
      v.insert(v.end(), p.begin(), p.end());
      f(v);
    } while (std::next_permutation(p.begin(), p.end()));
  }, [](const Seq &v) { Kind q; return profile(q, v); }, "every order of re-requesting 7 objects", 4);
  int rc = s.go();
  remove_scratch();
  return rc;
}
