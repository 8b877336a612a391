// Registry of eviction algorithms and the driver that executes one operation history on a fresh cache.
#pragma once
#include <stdlib.h>

#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

extern "C" {
#include "libCacheSim.h"
void set_rand_seed(uint64_t seed);
}
#include "pool.hpp"

typedef cache_t *(*init_fn)(const common_cache_params_t, const char *);

struct AlgoDef {
  const char *name;
  init_fn init;
};
static const AlgoDef ALGOS[] = {
    {"ARC", ARC_init},
    {"ARCv0", ARCv0_init},
    {"Belady", Belady_init},
    {"BeladySize", BeladySize_init},
    {"Cacheus", Cacheus_init},
    {"Clock", Clock_init},
    {"CR_LFU", CR_LFU_init},
    {"FIFO", FIFO_init},
    {"GDSF", GDSF_init},
    {"Hyperbolic", Hyperbolic_init},
    {"LeCaR", LeCaR_init},
    {"LeCaRv0", LeCaRv0_init},
    {"LFU", LFU_init},
    {"LFUCpp", LFUCpp_init},
    {"LFUDA", LFUDA_init},
    {"LHD", LHD_init},
    {"LRU", LRU_init},
    {"LRUv0", LRUv0_init},
    {"MRU", MRU_init},
    {"Random", Random_init},
    {"RandomTwo", RandomTwo_init},
    {"RandomLRU", RandomLRU_init},
    {"SLRU", SLRU_init},
    {"SLRUv0", SLRUv0_init},
    {"SR_LRU", SR_LRU_init},
    {"TwoQ", TwoQ_init},
    {"LIRS", LIRS_init},
    {"Size", Size_init},
    {"WTinyLFU", WTinyLFU_init},
    {"FIFO_Merge", FIFO_Merge_init},
    {"FIFO_Reinsertion", FIFO_Reinsertion_init},
    {"flashProb", flashProb_init},
    {"LRU_Prob", LRU_Prob_init},
    {"SFIFOv0", SFIFOv0_init},
    {"SFIFO", SFIFO_init},
    {"nop", nop_init},
    {"QDLP", QDLP_init},
    {"S3LRU", S3LRU_init},
    {"S3FIFO", S3FIFO_init},
    {"S3FIFOd", S3FIFOd_init},
    {"Sieve_Belady", Sieve_Belady_init},
    {"LRU_Belady", LRU_Belady_init},
    {"FIFO_Belady", FIFO_Belady_init},
    {"Sieve", Sieve_init},
    {"LP_SFIFO", LP_SFIFO_init},
    {"LP_ARC", LP_ARC_init},
    {"LP_TwoQ", LP_TwoQ_init},
    {"QDLPv0", QDLPv0_init},
    {"S3FIFOdv2", S3FIFOdv2_init},
    {"myMQv1", myMQv1_init},
    {"MClock", MClock_init},
#ifdef ENABLE_GLCACHE
    {"GLCache", GLCache_init},
#endif
};
static inline const AlgoDef *find_algo(const std::string &n) {
  for (auto &a : ALGOS)
    if (n == a.name) return &a;
  return nullptr;
}

struct Op {
  char k;  // g get, f find(no update), r remove, e evict, t to_evict
  uint64_t id;
  int64_t size;
  std::string str() const {
    std::string s(1, k);
    if (k == 'g' || k == 'r' || k == 'f') s += std::to_string(id);
    if (k == 'g') s += ":" + std::to_string(size);
    return s;
  }
};
static inline Op parse_op(const std::string &t) {
  Op o{t[0], 0, 1};
  if (t.size() > 1) {
    size_t c = t.find(':');
    o.id = strtoull(t.substr(1, c == std::string::npos ? c : c - 1).c_str(), 0, 10);
    if (c != std::string::npos) o.size = strtoll(t.c_str() + c + 1, 0, 10);
  }
  return o;
}
static inline std::vector<Op> parse_ops(const std::string &s) {
  std::vector<Op> v;
  std::istringstream is(s);
  std::string t;
  while (is >> t) v.push_back(parse_op(t));
  return v;
}
static inline std::string ops_str(const std::vector<Op> &v) {
  std::string s;
  for (auto &o : v) {
    if (!s.empty()) s += ' ';
    s += o.str();
  }
  return s;
}

// configuration: algorithm, parameters, capacity, alphabet, prefix - self-describing so that a replay needs only it
struct Cfg {
  std::string algo, params;
  int64_t cap = 3;
  int hp = 4;
  bool md = false;
  bool ann = false;  // annotate requests with next access (Belady family)
  uint64_t seed = 1;
  int64_t ttl = 86400 * 300;
  std::vector<Op> pre;
  std::vector<Op> alpha;
  int depth = 4;
  bool canon = false;  // explore histories up to renaming of the ids 1..n (they are used in order of first use)
  std::string str() const {
    std::string s = algo + ";params=" + params + ";cap=" + std::to_string(cap) + ";hp=" + std::to_string(hp) +
                    ";md=" + std::to_string(md) + ";seed=" + std::to_string(seed);
    if (ann) s += ";ann=1";
    if (ttl != 86400 * 300) s += ";ttl=" + std::to_string(ttl);
    if (canon) s += ";canon=1";
    if (!pre.empty()) s += ";pre=" + ops_str(pre);
    return s;
  }
  std::string full() const { return str() + ";alpha=" + ops_str(alpha) + ";depth=" + std::to_string(depth); }
};
static inline Cfg parse_cfg(const std::string &s) {
  Cfg c;
  size_t p = s.find(';');
  c.algo = s.substr(0, p);
  while (p != std::string::npos) {
    size_t q = s.find(';', p + 1);
    std::string kv = s.substr(p + 1, q == std::string::npos ? q : q - p - 1);
    size_t e = kv.find('=');
    std::string k = kv.substr(0, e), v = kv.substr(e + 1);
    if (k == "params") c.params = v;
    if (k == "cap") c.cap = strtoll(v.c_str(), 0, 10);
    if (k == "hp") c.hp = atoi(v.c_str());
    if (k == "md") c.md = atoi(v.c_str());
    if (k == "seed") c.seed = strtoull(v.c_str(), 0, 10);
    if (k == "canon") c.canon = atoi(v.c_str());
    if (k == "ann") c.ann = atoi(v.c_str());
    if (k == "pre") c.pre = parse_ops(v);
    if (k == "alpha") c.alpha = parse_ops(v);
    if (k == "depth") c.depth = atoi(v.c_str());
    p = q;
  }
  return c;
}

static inline cache_t *make_cache(const Cfg &c) {
  const AlgoDef *a = find_algo(c.algo);
  if (!a) {
    fprintf(stderr, "unknown algorithm %s\n", c.algo.c_str());
    exit(3);
  }
  common_cache_params_t p = default_common_cache_params();
  p.cache_size = c.cap;
  p.hashpower = c.hp;
  p.consider_obj_metadata = c.md;
  p.default_ttl = c.ttl;
  set_rand_seed(c.seed);
  return a->init(p, c.params.empty() ? nullptr : c.params.c_str());
}
