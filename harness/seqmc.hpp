// Skeleton of the checks that run one case per integer sequence: position strings, resume, replay, samples.
#pragma once
#include "pool.hpp"
#include <set>

namespace seqmc {
typedef std::vector<int> Seq;
typedef std::function<std::string(const Seq &)> One;  // "" or what is wrong
typedef std::function<void(std::function<void(const Seq &)>)> Gen;

struct Args {
  std::string prop, tier = "quick", out = "/dev/stdout", rcfg, rhist, only;
  int workers = 8;
  bool replay = false, deep = false, small = false;
  Args(int argc, char **argv, const char *dflt) : prop(dflt) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--prop") prop = argv[++i];
      else if (a == "--tier") tier = argv[++i];
      else if (a == "--out") out = argv[++i];
      else if (a == "--workers") workers = atoi(argv[++i]);
      else if (a == "--only") only = argv[++i];
      else if (a == "--small") small = true;
      else if (a == "--replay") {
        replay = true;
        rcfg = argv[++i];
        rhist = argv[++i];
      }
    }
    deep = tier == "thorough";
  }
};
static inline bool nontrivial(const Seq &v) { return std::set<int>(v.begin(), v.end()).size() < v.size(); }

struct Suite {
  Args &a;
  std::vector<pool::Task> tasks;
  bool (*nontriv)(const Seq &) = nontrivial;
  std::string kind = "case";
  int sample_mod = 5;
  explicit Suite(Args &x) : a(x) {}
  static std::string pos_of(const Seq &v) {
    if (v.size() > 100) return "long" + std::to_string(v.size());
    std::string pos;
    for (int x : v) pos += (pos.empty() ? "" : " ") + std::to_string(x);
    return pos.empty() ? "-" : pos;
  }
  // shards > 1: case number i goes to shard i % shards
  void add(const std::string &cfg, Gen gen, One one, const std::string &sample, int shards = 1) {
    if (!a.only.empty() && cfg.find(a.only) == std::string::npos) return;
    for (int sh = 0; sh < shards; sh++) {
      pool::Task t;
      t.cfg = cfg;
      if (shards > 1) t.shard = std::to_string(sh);
      auto nt = nontriv;
      std::string k = kind;
      int mod = sample_mod;
      auto run1 = [=](pool::Ctx &c, const Seq &v, const std::string &pos) {
        std::string e = one(v);
        if (!e.empty()) c.viol(k, pos, e);
      };
      t.run = [=](pool::Ctx &c) {
        size_t n = 0, i = 0;
        gen([&](const Seq &v) {
          if ((int)(i++ % shards) != sh) return;
          std::string pos = pos_of(v);
          if (!c.resume.empty()) {
            if (c.resume == pos) c.resume.clear();
            return;
          }
          c.at(pos);
          run1(c, v, pos);
          n++;
          c.slot->evals = c.slot->evals + 1;
          c.slot->ops = c.slot->ops + v.size();
          if (nt(v)) c.slot->nontriv = c.slot->nontriv + 1;
          pool::outcome(pool::hash_str(cfg + pos));
        });
        if (sh == 0 && pool::hash_str(cfg) % mod == 0) c.sample(cfg + ": " + sample + ", " + std::to_string(n) + " cases" + (shards > 1 ? " in this shard" : ""));
      };
      t.replay = [=](pool::Ctx &c, const std::string &pos) {
        if (pos.compare(0, 4, "long") == 0) {
          gen([&](const Seq &v) {
            if (pos_of(v) == pos) run1(c, v, pos);
          });
          return;
        }
        Seq v;
        if (pos != "-")
          for (const char *p = pos.c_str(); *p;) {
            char *e;
            v.push_back(strtol(p, &e, 10));
            if (e == p) break;
            p = e;
          }
        run1(c, v, pos);
      };
      tasks.push_back(t);
    }
  }
  int go() { return pool::run_or_replay(tasks, a.out, a.workers, a.replay, a.rcfg, a.rhist); }
};

// ids up to renaming (restricted growth strings)
static inline Gen rgs(int lo, int hi, int maxid) {
  return [=](std::function<void(const Seq &)> f) {
    Seq v;
    std::function<void(int)> rec = [&](int used) {
      if ((int)v.size() >= lo) f(v);
      if ((int)v.size() == hi) return;
      for (int s = 0; s <= used && s < maxid; s++) {
        v.push_back(s);
        rec(std::max(used, s + 1));
        v.pop_back();
      }
    };
    rec(0);
  };
}
static inline Gen words(int nsym, int lo, int hi) {
  return [=](std::function<void(const Seq &)> f) {
    Seq v;
    std::function<void()> rec = [&]() {
      if ((int)v.size() >= lo) f(v);
      if ((int)v.size() == hi) return;
      for (int s = 0; s < nsym; s++) {
        v.push_back(s);
        rec();
        v.pop_back();
      }
    };
    rec();
  };
}
static inline Gen list(std::vector<Seq> l) {
  return [=](std::function<void(const Seq &)> f) {
    for (auto &v : l) f(v);
  };
}
}  // namespace seqmc
