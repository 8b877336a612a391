// P17, P18: breadth-first exploration of every reachable state of the data structures, up to a state key; each
// transition is executed on a fresh instance by replaying the shortest operation path that leads to the state, and the
// instance is then compared with its abstract type (a map / a multiset of priorities / a sorted set).
#include <stdlib.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" {
#include "libCacheSim.h"
#include "dataStructure/hashtable/hashtable.h"
#include "dataStructure/hashtable/chainedHashTable.h"
#include "dataStructure/hash/hash.h"
#include "dataStructure/pqueue.h"
#define insert splay_insert_c
#include "dataStructure/splay.h"
#undef insert
sTree *splay_ins(key_type i, sTree *t) __asm__("insert");
bool chained_hashtable_delete_obj_id_v2(hashtable_t *hashtable, const obj_id_t obj_id);
void set_rand_seed(uint64_t seed);
}
#include "pool.hpp"

struct DOp {
  char k;
  long a = 0, b = 0;
};
static std::string dstr(const std::vector<DOp> &v) {
  std::string s;
  for (auto &o : v) {
    if (!s.empty()) s += ' ';
    s += o.k;
    s += std::to_string(o.a);
    if (o.b) s += ":" + std::to_string(o.b);
  }
  return s;
}
static std::vector<DOp> dparse(const std::string &s) {
  std::vector<DOp> v;
  std::istringstream is(s);
  std::string t;
  while (is >> t) {
    DOp o;
    o.k = t[0];
    char *e;
    o.a = strtol(t.c_str() + 1, &e, 10);
    if (*e == ':') o.b = strtol(e + 1, 0, 10);
    v.push_back(o);
  }
  return v;
}

// result of executing a path: error text ("" = fine) and the key of the reached state
struct Res {
  std::string err, key;
};
struct Sys {
  std::string name;
  std::function<Res(const std::vector<DOp> &, bool)> run;      // executes a path, verifies the final state
  std::function<std::vector<DOp>(const std::vector<DOp> &)> next;  // operations enabled after a path
  size_t max_states = 100000;
  std::vector<std::vector<DOp>> directed;  // long paths executed as they are, verified after every operation
};

// ---------------------------------------------------------------- hash table
static uint64_t low_hash(uint64_t id, int bits) { return get_hash_value_int_64(&id) & ((1ull << bits) - 1); }
// n ids whose hashes agree in the low `bits` bits with value v
static std::vector<uint64_t> colliding(int n, int bits, uint64_t v, uint64_t from = 1) {
  std::vector<uint64_t> r;
  for (uint64_t i = from; (int)r.size() < n; i++)
    if (low_hash(i, bits) == v) r.push_back(i);
  return r;
}

static void collect(cache_obj_t *o, void *u) { ((std::vector<cache_obj_t *> *)u)->push_back(o); }

// kinds of operation: i insert, d delete by pointer, t try_delete by pointer, x delete by id
static Res ht_run(int hp, int ver, bool ext, const std::vector<uint64_t> &ids, const std::vector<DOp> &path, bool each) {
  Res res;
  hashtable_t *h = ver == 2 ? create_chained_hashtable_v2(hp) : create_chained_hashtable(hp);
  h->external_obj = ext;
  std::map<long, cache_obj_t *> own;  // external objects, kept for the whole run
  std::map<long, cache_obj_t *> live;
  request_t *req = new_request();
  auto fill = [&](long i) {
    req->obj_id = ids[i];
    req->obj_size = 100 + i;
    req->hv = 0;
  };
  auto find = [&](long i) -> cache_obj_t * {
    fill(i);
    return ver == 2 ? chained_hashtable_find_v2(h, req) : chained_hashtable_find(h, ids[i]);
  };
  for (size_t n = 0; n < path.size() && res.err.empty(); n++) {
    DOp o = path[n];
    if (o.k == 'i') {
      fill(o.a);
      cache_obj_t *p;
      if (ext) {
        cache_obj_t *&q = own[o.a];
        if (!q) q = create_cache_obj_from_request(req);
        p = chained_hashtable_insert_obj_v2(h, q);
        if (p != q) res.err = "insert_obj returned another object";
      } else
        p = ver == 2 ? chained_hashtable_insert_v2(h, req) : chained_hashtable_insert(h, req);
      if (!p || p->obj_id != ids[o.a] || p->obj_size != 100 + o.a) res.err = "insert returned a wrong object";
      live[o.a] = p;
    } else if (o.k == 'd') {
      cache_obj_t *p = ver == 2 ? live[o.a] : find(o.a);
      if (!p) {
        res.err = "live object not found";
        break;
      }
      if (ver == 2) chained_hashtable_delete_v2(h, p);
      else chained_hashtable_delete(h, p);
      live.erase(o.a);
    } else if (o.k == 't') {
      if (live.count(o.a)) {
        if (!chained_hashtable_try_delete_v2(h, live[o.a])) res.err = "try_delete of a live object failed";
        live.erase(o.a);
      } else if (ext && own[o.a]) {
        if (chained_hashtable_try_delete_v2(h, own[o.a])) res.err = "try_delete of an absent object succeeded";
      }
    } else if (o.k == 'x') {
      bool r = chained_hashtable_delete_obj_id_v2(h, ids[o.a]);
      if (r != (live.count(o.a) > 0)) res.err = "delete by id returned " + std::to_string(r);
      live.erase(o.a);
    }
    if (!res.err.empty() || (!each && n + 1 < path.size())) continue;
    // compare with the map
    std::vector<cache_obj_t *> it;
    if (h->n_obj != live.size())
      res.err = "reports " + std::to_string(h->n_obj) + " objects, holds " + std::to_string(live.size());
    if (ver == 2) chained_hashtable_foreach_v2(h, collect, &it);
    else chained_hashtable_foreach(h, collect, &it);
    std::multiset<uint64_t> a, b;
    for (auto *p : it) a.insert(p->obj_id);
    for (auto &l : live) b.insert(ids[l.first]);
    if (a != b) res.err = "iteration visits " + std::to_string(a.size()) + " objects, live are " + std::to_string(b.size());
    for (long i = 0; i < (long)ids.size() && res.err.empty(); i++) {
      cache_obj_t *p = find(i), *q = p;
      if (ver == 2) {
        q = chained_hashtable_find_obj_id_v2(h, ids[i]);
        cache_obj_t tmp;
        memset(&tmp, 0, sizeof tmp);
        tmp.obj_id = ids[i];
        if (chained_hashtable_find_obj_v2(h, &tmp) != p) res.err = "find_obj differs from find";
      } else
        q = chained_hashtable_find_req(h, req);
      if (p != q) res.err = "lookups disagree about id " + std::to_string(i);
      if ((p != nullptr) != (live.count(i) > 0)) res.err = "id " + std::to_string(i) + (p ? " found though absent" : " not found");
      if (p && (p->obj_id != ids[i] || p->obj_size != 100 + i)) res.err = "wrong object found for id " + std::to_string(i);
      if (p && ver == 2 && p != live[i]) res.err = "another object found for id " + std::to_string(i);
    }
    if (res.err.empty() && !live.empty()) {
      for (int s = 0; s < 4; s++) {
        set_rand_seed(s * 7919 + n);
        cache_obj_t *p = ver == 2 ? chained_hashtable_rand_obj_v2(h) : chained_hashtable_rand_obj(h);
        if (std::find(it.begin(), it.end(), p) == it.end()) res.err = "random draw returned no live object";
      }
    }
    if (n + 1 == path.size()) {
      res.key = std::to_string(h->hashpower) + "|";
      for (auto *p : it) res.key += std::to_string(p->obj_id) + ",";
      for (auto &e : own)
        if (!live.count(e.first) && e.second && e.second->hash_next)  // what a deleted external object still points to
          res.key += "/" + std::to_string(e.first) + ">" + std::to_string(e.second->hash_next->obj_id);
    }
  }
  if (path.empty()) res.key = std::to_string(h->hashpower) + "|";
  if (res.err.empty()) {
    if (ver == 2) free_chained_hashtable_v2(h);
    else free_chained_hashtable(h);
    for (auto &e : own) free_cache_obj(e.second);
  }
  free_request(req);
  return res;
}

static Sys ht_sys(const std::string &name, int hp, int ver, bool ext, std::vector<uint64_t> ids, int maxlive, size_t max_states) {
  Sys s;
  s.name = name;
  s.max_states = max_states;
  s.run = [=](const std::vector<DOp> &p, bool each) { return ht_run(hp, ver, ext, ids, p, each); };
  s.next = [=](const std::vector<DOp> &p) {
    std::set<long> live, ever;
    for (auto &o : p) {
      ever.insert(o.a);
      if (o.k == 'i') live.insert(o.a);
      else live.erase(o.a);
    }
    std::vector<DOp> v;
    for (long i = 0; i < (long)ids.size(); i++) {
      if (live.count(i)) {
        v.push_back({'d', i});
        if (ver == 2) {
          v.push_back({'t', i});
          v.push_back({'x', i});
        }
      } else {
        if ((int)live.size() < maxlive) v.push_back({'i', i});
        if (ver == 2) v.push_back({'x', i});
        if (ver == 2 && ext && ever.count(i)) v.push_back({'t', i});
      }
    }
    return v;
  };
  return s;
}

// ---------------------------------------------------------------- priority queue
// i<pri>: insert, p0: pop, r<h>: remove the h-th live element (by insertion order), c<h>:<pri>: change its priority
static Res pq_run(size_t n0, const std::vector<double> &pris, const std::vector<DOp> &path, bool each) {
  Res res;
  pqueue_t *q = pqueue_init(n0);
  struct El {
    pq_node_t *n;
    double pri;
  };
  std::vector<El> live;
  uint64_t serial = 1;
  std::vector<pq_node_t *> all;
  auto top = [&]() {
    double m = live[0].pri;
    for (auto &e : live) m = std::max(m, e.pri);
    return m;
  };
  auto kill = [&](pq_node_t *n) {
    for (size_t i = 0; i < live.size(); i++)
      if (live[i].n == n) {
        live.erase(live.begin() + i);
        return true;
      }
    return false;
  };
  auto pop1 = [&]() {
    pq_node_t *pk = (pq_node_t *)pqueue_peek(q);
    pq_node_t *n = (pq_node_t *)pqueue_pop(q);
    if (live.empty()) {
      if (n || pk) res.err = "pop of an empty queue returned an element";
      return;
    }
    if (!n) {
      res.err = "pop returned nothing";
      return;
    }
    if (pk != n) res.err = "peek and pop disagree";
    double want = top();
    double got = n->pri.pri;
    if (got != want) res.err = "pop returned priority " + std::to_string(got) + ", highest is " + std::to_string(want);
    if (!kill(n)) res.err = "pop returned an element that is not in the queue";
  };
  // smaller value = evicted later; cmp_pri(next, curr) is next < curr, so the queue pops the largest
  for (size_t k = 0; k < path.size() && res.err.empty(); k++) {
    DOp o = path[k];
    if (o.k == 'i') {
      pq_node_t *n = (pq_node_t *)calloc(1, sizeof(pq_node_t));
      n->obj_id = serial++;
      n->pri.pri = pris[o.a];
      all.push_back(n);
      if (pqueue_insert(q, n) != 0) res.err = "insert failed";
      live.push_back({n, pris[o.a]});
    } else if (o.k == 'p') {
      pop1();
    } else if (o.k == 'r') {
      pq_node_t *n = live[o.a].n;
      if (pqueue_remove(q, n) != 0) res.err = "remove failed";
      kill(n);
      memset(n, 0xee, sizeof *n);  // the caller may free it
    } else if (o.k == 'c') {
      pqueue_pri_t p;
      p.pri = pris[o.b - 1];
      pqueue_change_priority(q, p, live[o.a].n);
      live[o.a].pri = p.pri;
    }
    if (!res.err.empty()) break;
    if (pqueue_size(q) != live.size())
      res.err = "size " + std::to_string(pqueue_size(q)) + ", should be " + std::to_string(live.size());
    if (!live.empty()) {
      pq_node_t *n = (pq_node_t *)pqueue_peek(q);
      if (!n || n->pri.pri != top()) res.err = "peek is not the highest priority";
    } else if (pqueue_peek(q))
      res.err = "peek of an empty queue";
    for (auto &e : live)
      if (e.n->pri.pri != e.pri) res.err = "an element's priority changed";
    if (each && res.err.empty() && !pqueue_is_valid(q)) res.err = "pqueue_is_valid fails";
  }
  if (res.err.empty()) {
    std::vector<std::pair<size_t, double>> st;
    for (auto &e : live) st.push_back({e.n->pos, e.pri});
    std::sort(st.begin(), st.end());
    for (auto &e : st) res.key += std::to_string(e.first) + "=" + std::to_string((int)e.second) + ",";
    // drain: everything comes out, in priority order
    size_t n = live.size() + 1;
    for (size_t i = 0; i < n && res.err.empty(); i++) pop1();
    if (res.err.empty() && pqueue_size(q) != 0) res.err = "drained queue is not empty";
  }
  pqueue_free(q);
  for (auto *n : all) free(n);
  return res;
}

static Sys pq_sys(const std::string &name, size_t n0, std::vector<double> pris, int maxn, size_t max_states) {
  Sys s;
  s.name = name;
  s.max_states = max_states;
  s.run = [=](const std::vector<DOp> &p, bool each) { return pq_run(n0, pris, p, each); };
  s.next = [=](const std::vector<DOp> &p) {
    int n = 0;
    for (auto &o : p) {
      if (o.k == 'i') n++;
      if (o.k == 'r') n--;
      if (o.k == 'p' && n > 0) n--;
    }
    std::vector<DOp> v;
    if (n < maxn)
      for (size_t i = 0; i < pris.size(); i++) v.push_back({'i', (long)i});
    v.push_back({'p', 0});
    for (long i = 0; i < n; i++) {
      v.push_back({'r', i});
      for (size_t k = 0; k < pris.size(); k++) v.push_back({'c', i, (long)k + 1});
    }
    return v;
  };
  return s;
}

// ---------------------------------------------------------------- splay tree
// i<k> insert, d<k> delete, s<k> splay (k indexes keys[], which also holds keys never inserted)
static void walk(sTree *t, std::vector<long long> &keys, std::string &shape, std::string &err, int depth) {
  if (!t) {
    shape += '.';
    return;
  }
  if (depth > 200) {
    err = "the tree is too deep (cycle)";
    return;
  }
  shape += '(';
  walk(t->left, keys, shape, err, depth + 1);
  keys.push_back(t->key);
  shape += std::to_string(t->key);
  walk(t->right, keys, shape, err, depth + 1);
  shape += ')';
  if (!err.empty()) return;
  if (t->value != 1 + node_value(t->left) + node_value(t->right))
    err = "key " + std::to_string(t->key) + " has subtree size " + std::to_string(t->value) + ", its children say " +
          std::to_string(1 + node_value(t->left) + node_value(t->right));
}

static Res sp_run(const std::vector<long long> &keys, const std::vector<DOp> &path, bool each) {
  Res res;
  sTree *t = nullptr;
  std::set<long long> m;
  for (size_t n = 0; n < path.size() && res.err.empty(); n++) {
    DOp o = path[n];
    long long k = keys[o.a];
    if (o.k == 'i') {
      t = splay_ins(k, t);
      m.insert(k);
    } else if (o.k == 'd') {
      t = splay_delete(k, t);
      m.erase(k);
    } else
      t = splay(k, t);
    if (!each && n + 1 < path.size()) continue;
    std::vector<long long> ks;
    std::string shape;
    walk(t, ks, shape, res.err, 0);
    if (res.err.empty() && ks != std::vector<long long>(m.begin(), m.end()))
      res.err = "in-order keys differ from the set (" + std::to_string(ks.size()) + " keys, should be " + std::to_string(m.size()) + ")";
    if (res.err.empty() && (long)node_value(t) != (long)m.size()) res.err = "tree size is wrong";
    if (res.err.empty() && o.k != 'd' && m.count(k)) {
      if (!t || t->key != k) res.err = "the key accessed is not at the root";
      else if ((size_t)node_value(t->right) != (size_t)std::distance(m.upper_bound(k), m.end()))
        res.err = "rank of the key is wrong";
      else if ((size_t)node_value(t->left) != (size_t)std::distance(m.begin(), m.find(k)))
        res.err = "rank of the key is wrong";
    }
    if (res.err.empty() && o.k == 's' && !m.empty() && !m.count(k)) {
      auto up = m.upper_bound(k);
      bool nb = (up != m.end() && t->key == *up) || (up != m.begin() && t->key == *std::prev(up));
      if (!nb) res.err = "splay of an absent key leaves no neighbour at the root";
    }
    res.key = shape;
  }
  if (res.err.empty()) free_sTree(t);
  return res;
}

static Sys sp_sys(const std::string &name, std::vector<long long> keys, std::vector<long> ins, size_t max_states) {
  Sys s;
  s.name = name;
  s.max_states = max_states;
  s.run = [=](const std::vector<DOp> &p, bool each) { return sp_run(keys, p, each); };
  s.next = [=](const std::vector<DOp> &p) {
    std::vector<DOp> v;
    for (long i : ins) v.push_back({'i', i});
    for (long i = 0; i < (long)keys.size(); i++) {
      v.push_back({'d', i});
      v.push_back({'s', i});
    }
    return v;
  };
  return s;
}

// ---------------------------------------------------------------- configurations
static std::vector<Sys> systems(const std::string &prop, bool deep) {
  std::vector<Sys> v;
  size_t M = deep ? 600000 : 60000;
  if (prop == "P17") {
    std::vector<uint64_t> mixed = {1, 2, 3};
    auto c6 = colliding(6, 6, low_hash(1, 6)), c4 = colliding(4, 1, 0, 100);
    auto small = colliding(4, 5, low_hash(1, 5));
    for (int i = 2; (int)small.size() < 7; i++)
      if (std::find(small.begin(), small.end(), (uint64_t)i) == small.end()) small.push_back(i);
    std::vector<uint64_t> spread;
    for (uint64_t i = 0; i < 7; i++) spread.push_back(i == 0 ? 0 : i == 6 ? ~0ull : i * 1000000007ull);
    for (int ext = 0; ext < 2; ext++)
      for (int hp = 1; hp <= 3; hp++) {
        std::string b = "V2;hp=" + std::to_string(hp) + ";ext=" + std::to_string(ext);
        v.push_back(ht_sys(b + ";ids=colliding6", hp, 2, ext, c6, 6, M));
        v.push_back(ht_sys(b + ";ids=mixed7", hp, 2, ext, small, 7, M));
        v.push_back(ht_sys(b + ";ids=spread7", hp, 2, ext, spread, 7, M));
      }
    for (int hp = 1; hp <= 2; hp++) {  // the deprecated first table, as a map of ids
      v.push_back(ht_sys("V1;hp=" + std::to_string(hp) + ";ids=colliding6", hp, 1, false, c6, 6, M));
      v.push_back(ht_sys("V1;hp=" + std::to_string(hp) + ";ids=mixed7", hp, 1, false, small, 7, M));
    }
    // long chains and growth: directed histories, checked after every operation
    for (int ext = 0; ext < 2; ext++) {
      int N = 90;
      auto chain = colliding(N, 8, 3), seq = colliding(300, 0, 0);
      Sys s = ht_sys("V2;hp=1;ext=" + std::to_string(ext) + ";ids=chain90", 1, 2, ext, chain, N, 0);
      Sys g = ht_sys("V2;hp=1;ext=" + std::to_string(ext) + ";ids=seq300", 1, 2, ext, seq, 300, 0);
      for (char del : {'d', 't', 'x'})
        for (int pos = 0; pos < N; pos += deep ? 1 : 4) {
          std::vector<DOp> p;
          for (int i = 0; i < N; i++) p.push_back({'i', i});
          p.push_back({del, pos});
          p.push_back({del, (pos * 7 + 3) % N == pos ? (pos + 1) % N : (pos * 7 + 3) % N});
          p.push_back({'i', pos});
          s.directed.push_back(p);
        }
      for (int ord = 0; ord < 3; ord++) {
        std::vector<DOp> p;
        for (int i = 0; i < 300; i++) p.push_back({'i', i});
        for (int i = 0; i < 300; i++) p.push_back({"dtx"[i % 3], ord == 0 ? i : ord == 1 ? 299 - i : i * 7 % 300});
        g.directed.push_back(p);
      }
      v.push_back(s);
      v.push_back(g);
    }
  } else {
    std::vector<double> three = {1, 2, 3};
    v.push_back(pq_sys("pqueue;pri=3;n=9;init=2", 2, three, deep ? 12 : 9, M));
    v.push_back(pq_sys("pqueue;pri=2;n=15;init=1", 1, {1, 2}, deep ? 20 : 15, M));
    v.push_back(pq_sys("pqueue;pri=5;n=5;init=8", 8, {-1, 0, 1, 2, 1e18}, deep ? 8 : 6, M));
    {  // every order of 7 (8) distinct priorities, then every removal or change followed by a drain
      int n = deep ? 9 : 8;
      std::vector<double> d;
      for (int i = 0; i < n; i++) d.push_back(i * 10);
      Sys s = pq_sys("pqueue;perm=" + std::to_string(n) + ";init=1", 1, d, n, 0);
      std::vector<long> pm;
      for (int i = 0; i < n; i++) pm.push_back(i);
      do {
        std::vector<DOp> p;
        for (long x : pm) p.push_back({'i', x});
        // one removal or one change per path; the position is picked by a fixed rotation so that all are covered
        long h = (pm[0] + pm[1] * 3 + pm[2] * 5) % n;
        std::vector<DOp> a = p, b = p;
        a.push_back({'r', h});
        b.push_back({'c', h, pm[3] + 1});
        s.directed.push_back(a);
        s.directed.push_back(b);
      } while (std::next_permutation(pm.begin(), pm.end()));
      v.push_back(s);
      // large heaps
      std::vector<double> big;
      for (int i = 0; i < 64; i++) big.push_back(i);
      Sys l = pq_sys("pqueue;large=64;init=3", 3, big, 64, 0);
      for (int mul : {1, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 63})
        for (int h = 0; h < 64; h += deep ? 1 : 3) {
          std::vector<DOp> p, q;
          for (int i = 0; i < 64; i++) p.push_back({'i', (i * mul) % 64});
          q = p;
          p.push_back({'r', h});
          q.push_back({'c', h, (h * 5) % 64 + 1});
          l.directed.push_back(p);
          l.directed.push_back(q);
        }
      v.push_back(l);
    }
    std::vector<long long> k7, odd;
    std::vector<long> ins;
    int n = deep ? 9 : 8;
    for (int i = 0; i < n; i++) {
      k7.push_back(i * 10);
      ins.push_back(i);
    }
    k7.push_back(-5);
    k7.push_back(35);
    k7.push_back(1000);
    v.push_back(sp_sys("splay;keys=" + std::to_string(n), k7, ins, M));
    std::vector<long long> ext = {INT64_MIN, -4611686018427387905ll, -1, 0, 5000000000ll, 4611686018427387905ll, INT64_MAX};
    v.push_back(sp_sys("splay;keys=extreme", ext, {0, 1, 2, 3, 4, 5, 6}, M));
    Sys l = sp_sys("splay;large=80", {}, {}, 0);
    std::vector<long long> k80;
    std::vector<long> i80;
    for (int i = 0; i < 80; i++) k80.push_back(i), i80.push_back(i);
    l = sp_sys("splay;large=80", k80, i80, 0);
    for (int mul : {1, 3, 7, 9, 11, 13, 17, 19, 21, 23, 27, 29, 31, 33, 37, 39, 77, 79})
      for (int m2 : {1, 3, 37, 79}) {
        std::vector<DOp> p;
        for (int i = 0; i < 80; i++) p.push_back({'i', (i * mul) % 80});
        for (int i = 0; i < 80; i++) p.push_back({'s', (i * m2) % 80});
        for (int i = 0; i < 80; i++) p.push_back({'d', (i * m2 + 5) % 80});
        l.directed.push_back(p);
      }
    v.push_back(l);
  }
  return v;
}

static void explore(pool::Ctx &ctx, const Sys &s) {
  if (!ctx.resume.empty()) return;  // a crash ends this configuration (it is reported)
  std::deque<std::vector<DOp>> q;
  std::unordered_set<std::string> seen;
  auto judge = [&](const std::vector<DOp> &p, bool each) {
    std::string pos = dstr(p);
    if (pos.size() > 4000) pos = "@" + std::to_string(ctx.slot->evals);
    ctx.at(pos);
    Res r = s.run(p, each);
    ctx.slot->evals = ctx.slot->evals + 1;
    ctx.slot->nontriv = ctx.slot->nontriv + 1;
    ctx.slot->ops = ctx.slot->ops + 1;
    ctx.slot->traces = ctx.slot->traces + 1;
    if (!r.err.empty()) ctx.viol("abstract-type", pos, r.err);
    pool::outcome(pool::hash_str(s.name + r.key));
    return r;
  };
  for (auto &p : s.directed) judge(p, true);
  if (!s.directed.empty() || s.max_states == 0) {
    ctx.sample(s.name + ": " + std::to_string(s.directed.size()) + " directed histories, verified after every operation");
    ctx.slot->states = ctx.slot->states + s.directed.size();
    return;
  }
  q.push_back({});
  seen.insert(s.run({}, true).key);
  size_t depth = 0;
  std::string last;
  while (!q.empty() && seen.size() < s.max_states) {
    std::vector<DOp> p = q.front();
    q.pop_front();
    depth = p.size();
    for (auto &o : s.next(p)) {
      p.push_back(o);
      Res r = judge(p, false);
      if (r.err.empty() && seen.insert(r.key).second) {
        q.push_back(p);
        last = dstr(p);
      }
      p.pop_back();
    }
  }
  ctx.slot->states = ctx.slot->states + seen.size();
  ctx.sample(s.name + ": " + std::to_string(seen.size()) + " states" + (q.empty() ? " (all reachable)" : " (bound)") + ", depth " +
             std::to_string(depth) + ", e.g. " + last);
}

int main(int argc, char **argv) {
  std::string out, replay_cfg, replay_hist, only, tier = "quick", prop;
  int workers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") { replay_cfg = argv[++i]; replay_hist = argv[++i]; }
  }
  static std::vector<Sys> ss = systems(prop, tier == "thorough");
  std::vector<pool::Task> tasks;
  for (size_t n = 0; n < ss.size(); n++) {
    if (!only.empty() && ss[n].name.find(only) == std::string::npos) continue;
    if (!replay_cfg.empty() && ss[n].name != replay_cfg) continue;
    pool::Task t;
    t.cfg = ss[n].name;
    t.shard = "all";
    t.replay = [n](pool::Ctx &ctx, const std::string &pos) {
      if (pos[0] == '@' || pos == "<init>") return explore(ctx, ss[n]);
      ctx.at(pos);
      Res r = ss[n].run(dparse(pos), true);
      if (!r.err.empty()) ctx.viol("abstract-type", pos, r.err);
    };
    if (replay_cfg.empty()) t.run = [n](pool::Ctx &ctx) { explore(ctx, ss[n]); };
    else {
      auto rp = t.replay;
      t.run = [rp, replay_hist](pool::Ctx &ctx) {
        if (ctx.resume.empty()) rp(ctx, replay_hist);
      };
    }
    tasks.push_back(t);
  }
  return pool::run(tasks, out, replay_cfg.empty() ? workers : 1);
}
