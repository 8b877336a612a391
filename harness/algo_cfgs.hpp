// Which algorithms are explored with which configurations, and what each documents about itself.
#pragma once
#include "algos.hpp"

struct Traits {
  bool hit_may_evict = false;   // a hit may push another object out (segment cooling)
  bool may_not_admit = false;   // declines some objects by definition (e.g. never requested again)
  bool hit_may_drop = false;    // a hit may drop the object itself by definition (never requested again)
  bool no_preview = false;      // offers no eviction preview
  bool no_evict = false;        // evictions happen inside admission; a direct evict call is not meaningful
  bool evict_may_keep = false;  // one evict call may only move objects between queues
  bool no_remove = false;       // documented as not supporting user removal
  int64_t limit = INT64_MAX;    // larger objects are not admitted (segment / small-queue size)
  int64_t admit_limit(const Cfg &c) const { return std::min(limit, c.cap); }
};

static double param_num(const Cfg &c, const char *key, double dflt) {
  size_t p = c.params.find(key);
  return p == std::string::npos ? dflt : atof(c.params.c_str() + p + strlen(key) + 1);
}

static Traits traits(const Cfg &c) {
  Traits t;
  static const std::set<std::string> nopv{"TwoQ",    "LIRS",       "QDLP",             "S3FIFO",  "nop",      "RandomLRU", "SFIFO", "S3LRU",
                                          "FIFO_Merge", "FIFO_Reinsertion", "GLCache", "WTinyLFU", "GDSF",      "LFUCpp", "flashProb"};
  t.no_preview = nopv.count(c.algo);
  if (c.algo == "SLRU") {
    t.hit_may_evict = true;
    t.limit = c.cap / (int64_t)param_num(c, "n-seg", 4);
    if (c.params.find("seg-size") != std::string::npos) t.limit = 1;
  }
  if (c.algo == "nop" || c.algo == "BeladySize") t.may_not_admit = true;
  if (c.algo == "BeladySize") t.hit_may_drop = true;
  if (c.algo == "TwoQ") {
    int64_t ain = c.cap * param_num(c, "Ain-size-ratio", 0.25);
    t.limit = std::min(ain, c.cap - ain);
  }
  if (c.algo == "WTinyLFU" && c.params.find("SLRU") != std::string::npos) t.hit_may_evict = true;
  if (c.algo == "S3FIFO" || c.algo == "QDLP") t.limit = (int64_t)(c.cap * param_num(c, "fifo-size-ratio", 0.1)) - 1;
  if (c.algo == "QDLP" || c.algo == "S3FIFO" || c.algo == "TwoQ") t.evict_may_keep = true;
  if (c.algo == "SR_LRU" || c.algo == "Cacheus") t.limit = c.md ? 0 : 1;
  if (c.algo == "WTinyLFU") t.limit = c.md ? 0 : 1;
  if (c.algo == "LIRS") {
    t.limit = std::max<int64_t>(1, c.cap / 100);
    t.no_evict = true;
    t.hit_may_evict = true;  // a promoted object pushes others down, of other sizes
  }
  if (c.algo == "GLCache") t.no_remove = true;
  return t;
}

static std::vector<Op> alpha(const std::string &s) { return parse_ops(s); }

static std::vector<Cfg> configs(const std::string &prop, const std::string &tier) {
  std::vector<Cfg> v;
  bool deep = tier == "thorough";
  bool rm = prop == "P07" || prop == "P02";
  // parameter variants and the unit-size capacity they are explored at
  struct Var {
    const char *algo, *params;
    int cap, ids;
  };
  static const Var VARS[] = {
      {"FIFO", "", 3, 5},
      {"LRU", "", 3, 5},
      {"MRU", "", 3, 5},
      {"Clock", "", 3, 5},
      {"Clock", "n-bit-counter=2", 3, 5},
      {"Sieve", "", 3, 5},
      {"LFU", "", 3, 5},
      {"LFUCpp", "", 3, 5},
      {"LFUDA", "", 3, 5},
      {"GDSF", "", 3, 5},
      {"Size", "", 3, 5},
      {"SLRU", "n-seg=2", 4, 6},
      {"SLRU", "", 4, 6},
      {"SLRU", "seg-size=1:2", 6, 7},
      {"ARC", "", 3, 6},
      {"ARC", "", 4, 7},
      {"TwoQ", "", 8, 10},
      {"TwoQ", "Ain-size-ratio=0.5,Aout-size-ratio=0.5", 4, 6},
      {"TwoQ", "Ain-size-ratio=0.75,Aout-size-ratio=1", 4, 6},
      {"S3FIFO", "fifo-size-ratio=0.5,ghost-size-ratio=0.5", 4, 6},
      {"S3FIFO", "fifo-size-ratio=0.5,ghost-size-ratio=1,move-to-main-threshold=1", 4, 6},
      {"QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=0.5", 4, 6},
      {"QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=FIFO,move-to-main-threshold=2", 4, 6},
      {"QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=LRU", 4, 6},
      {"QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=ARC", 4, 6},
      {"QDLP", "fifo-size-ratio=0.5,ghost-size-ratio=1,main-cache=sieve", 4, 6},
      {"LIRS", "", 4, 6},
      {"LIRS", "", 6, 8},
      {"Hyperbolic", "", 3, 5},
      {"LeCaR", "", 4, 6},
      {"LeCaR", "update-weight=0", 3, 5},
      {"CR_LFU", "", 3, 5},
      {"SR_LRU", "", 4, 6},
      {"Cacheus", "", 4, 6},
      {"Random", "", 3, 5},
      {"RandomTwo", "", 3, 5},
      {"RandomLRU", "", 3, 5},
      {"LRU_Prob", "", 3, 5},
      {"WTinyLFU", "window-size=0.5,main-cache=LRU", 4, 6},
      {"WTinyLFU", "window-size=0.25,main-cache=SLRU", 8, 10},
      {"WTinyLFU", "window-size=0.5,main-cache=clock", 4, 6},
      {"WTinyLFU", "window-size=0.5,main-cache=FIFO", 4, 6},
      {"FIFO_Merge", "", 3, 5},
      {"FIFO_Reinsertion", "", 3, 5},
      {"LHD", "", 3, 5},
      {"Belady", "", 3, 5},
      {"BeladySize", "", 3, 5},
      {"nop", "", 3, 3},
  };
  static const std::set<std::string> random_{"Random", "RandomTwo", "RandomLRU", "LRU_Prob", "Hyperbolic", "LeCaR", "Cacheus", "LHD", "BeladySize", "WTinyLFU"};
  for (auto &var : VARS) {
    Cfg c;
    c.algo = var.algo;
    c.params = var.params;
    c.ann = c.algo.find("Belady") != std::string::npos;
    // levels taken off the depth: the cost of one cache differs by orders of magnitude
    int less = c.algo == "LHD" ? 4 : (c.algo == "Cacheus" || c.algo == "Hyperbolic" || c.algo == "RandomLRU") ? 1 : 0;
    if (!deep && c.algo == "LHD" && prop != "P01") less += 1;
    c.cap = var.cap;
    auto finish = [&](Cfg c, std::string ops) {
      Traits t = traits(c);
      c.alpha.clear();
      for (auto &o : alpha(ops)) {
        if (o.k == 't' && t.no_preview) continue;
        if (o.k == 'e' && t.no_evict) continue;
        if (o.k == 'r' && t.no_remove) continue;
        c.alpha.push_back(o);
      }
      c.depth = std::max(c.algo == "LHD" && !deep && !c.canon ? 2 : 3, c.depth - less);
      v.push_back(c);
    };
    // (A) unit sizes, ids up to renaming, deep
    {
      Cfg d = c;
      d.canon = true;
      std::string ops;
      for (int i = 1; i <= var.ids; i++) ops += " g" + std::to_string(i) + ":1";
      if (rm) {
        for (int i = 1; i <= 3; i++) ops += " r" + std::to_string(i);
        ops += " e";
        if (prop == "P07") ops += " t";
        d.depth = deep ? 8 : 7;
      } else {
        if (prop == "P03") d.depth = deep ? 10 : 9;
        else d.depth = deep ? 11 : 9;
      }
      finish(d, ops);
      if (random_.count(c.algo))
        for (int s = 2; s <= (deep ? 6 : c.algo == "LHD" ? 1 : 3); s++) {
          d.seed = s;
          d.depth -= s == 2;
          finish(d, ops);
        }
    }
    // (B) varied sizes, including objects that cannot fit
    {
      Cfg d = c;
      d.depth = deep ? 7 : 6;
      if (rm) d.depth--;
      std::string tail = rm ? (prop == "P07" ? " r1 r2 e t" : " r1 r2 e") : "";
      int u = var.cap;
      char b[256];
      snprintf(b, sizeof b, "g1:1 g2:2 g3:%d g4:%d g5:%d", u - 1, u, u + 1);
      finish(d, b + tail);
      d.cap = 40;
      d.depth -= deep ? 1 : 1;
      finish(d, "g1:10 g2:3 g3:25 g4:39 g5:1 g6:41" + tail);
      if (prop == "P03") {
        d.cap = u;
        finish(d, "g1:1 g2:1 f1 f2 g3:2 g4:1");
      }
    }
    // (E) the same object requested with different sizes
    {
      Cfg d = c;
      d.depth = deep ? 7 : 6;
      if (rm) d.depth--;
      finish(d, std::string("g1:1 g1:2 g2:1 g2:3 g3:1") + (rm ? " r1 e" : " g4:2"));
    }
    // (F) sizes beyond 32 bits
    {
      Cfg d = c;
      d.cap = 10ll << 32;
      d.depth = deep ? 5 : 4;
      finish(d, std::string("g1:4294967297 g2:8589934593 g3:21474836480 g4:42949672960 g5:42949672961") + (rm ? " r2 e" : ""));
    }
    // (C) with per-object metadata
    {
      Cfg d = c;
      d.md = true;
      d.cap = 100;
      d.depth = deep ? 6 : 5;
      std::string tail = rm ? (prop == "P07" ? " r1 e t" : " r1 e") : "";
      finish(d, "g1:10 g2:3 g3:25 g4:70 g5:99" + tail);
      // several objects per queue in spite of the metadata
      d.cap = c.algo == "Cacheus" ? 250 : c.algo == "WTinyLFU" || c.algo == "SLRU" || c.algo == "LHD" ? 140 : 70;
      finish(d, "g1:1 g2:2 g3:1 g4:3 g5:1" + tail);
    }
    // (G) LIRS takes objects of up to a hundredth of the cache only: fill it first, then sizes around that limit
    if (c.algo == "LIRS" && c.cap == 4)
      for (int md = 0; md < 2; md++) {
        Cfg d = c;
        d.md = md;
        d.cap = md ? 2000 : 400;
        const int n = md ? 99 : 98;
        for (int i = 0; i < n; i++) d.pre.push_back(Op{'g', (uint64_t)(100 + i), 4});
        d.depth = deep ? 5 : 4;
        finish(d, std::string("g1:1 g2:2 g3:3 g4:4 g5:5 g100:4 g101:4") + (rm ? " r1 r100" : ""));
      }
    // (D) colliding ids in a tiny hash table
    if (c.algo != "LHD") {
      Cfg d = c;
      d.hp = c.algo == "Cacheus" ? 3 : 1;
      d.depth = deep ? 6 : 5;
      if (rm) d.depth = deep ? 5 : 4;
      d.cap = 8;
      for (int i = 20; i < 29; i++) d.pre.push_back(Op{'g', (uint64_t)i, 1});
      std::string tail = rm ? (prop == "P07" ? " r28 r1 e t" : " r28 r1 e") : "";
      finish(d, "g1:1 g28:1 g24:1 g27:1 g20:1 g2:1" + tail);
    }
  }
  if (prop == "P01") {
    Cfg g;
    g.algo = "GLCache";
    g.params = "segment-size=2,n-merge=2";
    (void)g;
  }
  return v;
}
