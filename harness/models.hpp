// Executable reference models of the eviction algorithms with a textbook (or documented) victim rule.  They are written
// from the definitions: plain vectors, no hash tables, no intrusive lists.  A list's front() is its most recent end.
#pragma once
#include <math.h>
#include <stdint.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model {
typedef std::map<uint64_t, int64_t> Res;

struct Ent {
  uint64_t id;
  int64_t size;
  int64_t freq = 0;
  double pri = 0;
};
typedef std::vector<Ent> List;

static inline int idx(const List &l, uint64_t id) {
  for (size_t i = 0; i < l.size(); i++)
    if (l[i].id == id) return (int)i;
  return -1;
}
static inline Ent take(List &l, int i) {
  Ent e = l[i];
  l.erase(l.begin() + i);
  return e;
}
static inline void push(List &l, const Ent &e) { l.insert(l.begin(), e); }
static inline Ent pop_tail(List &l) { return take(l, (int)l.size() - 1); }

// canonical serialisation: ids may be renamed by first appearance
struct Ser {
  bool rename = false;
  std::map<uint64_t, int> names;
  std::string s;
  void id(uint64_t i) {
    if (rename) {
      auto it = names.emplace(i, (int)names.size()).first;
      s += 'a' + it->second;
    } else
      s += "#" + std::to_string(i);
  }
  void num(int64_t v) { s += std::to_string(v) + ","; }
  void dbl(double d) {
    char b[40];
    snprintf(b, sizeof b, "%.17g,", d);
    s += b;
  }
  void list(const List &l, bool freq = false) {
    s += "[";
    for (auto &e : l) {
      id(e.id);
      if (!rename) num(e.size);
      if (freq) num(e.freq);
    }
    s += "]";
  }
};

struct M {
  int64_t cap = 0;
  int md = 0;
  virtual ~M() {}
  virtual std::unique_ptr<M> clone() const = 0;
  virtual bool get(uint64_t id, int64_t size) = 0;
  virtual bool remove(uint64_t id) = 0;
  virtual void evict(int64_t incoming) = 0;
  virtual void contents(Res &r) const = 0;
  virtual void ser(Ser &s) const = 0;
  // nondeterministic models adopt what they observe when their rule allows it; returns a complaint otherwise
  virtual bool nondet() const { return false; }
  virtual std::string observe(char op, uint64_t id, int64_t size, bool hit, const Res &after) { return ""; }
  Res res() const {
    Res r;
    contents(r);
    return r;
  }
  int64_t occ() const {
    int64_t s = 0;
    for (auto &e : res()) s += e.second + md;
    return s;
  }
  std::string key(bool rename) const {
    Ser s;
    s.rename = rename;
    ser(s);
    return s.s;
  }
};

template <class T>
struct C : M {
  std::unique_ptr<M> clone() const override { return std::unique_ptr<M>(new T(*static_cast<const T *>(this))); }
};

// single-queue policies: lookup, admit with eviction until it fits
template <class T>
struct Basic : C<T> {
  virtual bool hit(uint64_t id) = 0;
  virtual void insert(uint64_t id, int64_t size) = 0;
  virtual bool can(int64_t size) const { return size + this->md <= this->cap; }
  bool get(uint64_t id, int64_t size) override {
    if (hit(id)) return true;
    if (!can(size)) return false;
    while (this->occ() + size + this->md > this->cap) this->evict(size);
    insert(id, size);
    return false;
  }
};

template <class T>
struct OneList : Basic<T> {
  List q;
  void insert(uint64_t id, int64_t size) override { push(q, Ent{id, size}); }
  bool remove(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    take(q, i);
    return true;
  }
  void contents(Res &r) const override {
    for (auto &e : q) r[e.id] = e.size;
  }
  void ser(Ser &s) const override { s.list(q, true); }
};

struct FIFO : OneList<FIFO> {
  bool hit(uint64_t id) override { return idx(q, id) >= 0; }
  void evict(int64_t) override { pop_tail(q); }
};
struct LRU : OneList<LRU> {
  bool hit(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    push(q, take(q, i));
    return true;
  }
  void evict(int64_t) override { pop_tail(q); }
};
struct MRU : OneList<MRU> {
  bool hit(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    push(q, take(q, i));
    return true;
  }
  void evict(int64_t) override { take(q, 0); }
};
struct Clock : OneList<Clock> {
  int64_t maxf = 1;
  bool hit(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    if (q[i].freq < maxf) q[i].freq++;
    return true;
  }
  void evict(int64_t) override {
    while (q.back().freq > 0) {
      Ent e = pop_tail(q);
      e.freq--;
      push(q, e);
    }
    pop_tail(q);
  }
};
struct Sieve : OneList<Sieve> {
  bool has_hand = false;
  uint64_t hand = 0;
  bool hit(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    q[i].freq = 1;
    return true;
  }
  void leave(int i) {  // the object at i leaves: a hand on it steps towards the newer end
    if (has_hand && hand == q[i].id) {
      has_hand = i > 0;
      if (i > 0) hand = q[i - 1].id;
    }
    take(q, i);
  }
  void evict(int64_t) override {
    int i = has_hand ? idx(q, hand) : (int)q.size() - 1;
    while (q[i].freq > 0) {
      q[i].freq = 0;
      i = i > 0 ? i - 1 : (int)q.size() - 1;
    }
    has_hand = i > 0;
    if (i > 0) hand = q[i - 1].id;
    take(q, i);
  }
  bool remove(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    leave(i);
    return true;
  }
  void ser(Ser &s) const override {
    s.list(q, true);
    if (has_hand) s.id(hand);
  }
};
// least frequent, least recently used among equals (q is kept in recency order)
struct LFU : OneList<LFU> {
  bool hit(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    Ent e = take(q, i);
    e.freq++;
    push(q, e);
    return true;
  }
  void insert(uint64_t id, int64_t size) override { push(q, Ent{id, size, 1}); }
  int victim() const {
    int b = (int)q.size() - 1;
    for (int i = b; i >= 0; i--)
      if (q[i].freq < q[b].freq) b = i;
    return b;
  }
  void evict(int64_t) override { take(q, victim()); }
};
// priority = L+1 at insertion, plus L at each hit; L follows the lowest priority present
struct LFUDA : OneList<LFUDA> {
  int64_t L = 0;
  int64_t lowest_above() const {
    int64_t m = INT64_MAX;
    for (auto &e : q)
      if (e.freq > L) m = std::min(m, e.freq);
    return m;
  }
  bool at(int64_t f) const {
    for (auto &e : q)
      if (e.freq == f) return true;
    return false;
  }
  void advance() {
    int64_t m = lowest_above();
    if (m != INT64_MAX) L = m;
  }
  bool hit(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    Ent e = take(q, i);
    int64_t old = e.freq;
    e.freq += L;
    push(q, e);
    if (old == L && !at(old)) advance();
    return true;
  }
  void insert(uint64_t id, int64_t size) override { push(q, Ent{id, size, L + 1}); }
  void evict(int64_t) override {
    if (L <= 1 ? !at(1) : !at(L)) advance();
    else if (L == 0) L = 1;
    int v = -1;
    for (int i = (int)q.size() - 1; i >= 0; i--)
      if (q[i].freq == L) {
        v = i;
        break;
      }
    take(q, v);
    if (!at(L)) advance();
  }
  bool remove(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    Ent e = take(q, i);
    if (e.freq == L && !at(L)) advance();
    return true;
  }
  void ser(Ser &s) const override {
    // within one priority the order matters, across priorities only the priority does
    List o = q;
    std::stable_sort(o.begin(), o.end(), [](const Ent &a, const Ent &b) { return a.freq < b.freq; });
    s.list(o, true);
    s.num(L);
  }
};
struct GDSF : OneList<GDSF> {
  double last = 0;
  bool hit(uint64_t id) override {
    int i = idx(q, id);
    if (i < 0) return false;
    Ent e = take(q, i);
    e.freq++;
    e.pri = last + (double)e.freq * 1.0e6 / e.size;
    push(q, e);
    return true;
  }
  void insert(uint64_t id, int64_t size) override {
    Ent e{id, size, 1};
    e.pri = last + 1.0e6 / size;
    push(q, e);
  }
  void evict(int64_t) override {
    int b = (int)q.size() - 1;
    for (int i = b; i >= 0; i--)
      if (q[i].pri < q[b].pri) b = i;
    last = q[b].pri;
    take(q, b);
  }
  void ser(Ser &s) const override {
    // only differences to the aging value matter for the future
    for (auto &e : q) {
      s.id(e.id);
      s.num(e.size);
      s.num(e.freq);
      s.dbl(e.pri - last);
    }
  }
};
struct Size : OneList<Size> {
  bool hit(uint64_t id) override { return idx(q, id) >= 0; }
  void evict(int64_t) override {}
  bool nondet() const override { return true; }
  std::string observe(char op, uint64_t id, int64_t size, bool hit_, const Res &after) override {
    Res before = res();
    std::vector<int64_t> gone;
    for (auto &e : before)
      if (!after.count(e.first) && !(op == 'r' && e.first == id)) gone.push_back(e.second);
    std::sort(gone.rbegin(), gone.rend());
    // replay: every victim was a largest object, and no victim was taken without need
    std::multiset<int64_t> left;
    for (auto &e : before)
      if (!(op == 'r' && e.first == id)) left.insert(e.second);
    bool was = before.count(id);
    bool admit = op == 'g' && !was && size + md <= cap;
    int64_t sum = 0;
    for (auto s : left) sum += s + md;
    size_t need = 0;
    if (op == 'e') need = left.empty() ? 0 : 1;
    std::multiset<int64_t> cur = left;
    std::vector<int64_t> want;
    if (admit)
      while (sum + size + md > cap) {
        int64_t v = *cur.rbegin();
        cur.erase(--cur.end());
        sum -= v + md;
        want.push_back(v);
      }
    else
      while (need--) {
        want.push_back(*cur.rbegin());
        cur.erase(--cur.end());
      }
    if (want != gone) {
      std::string s = "expected victims of sizes";
      for (auto v : want) s += " " + std::to_string(v);
      s += ", observed";
      for (auto v : gone) s += " " + std::to_string(v);
      return s;
    }
    if (op == 'g' && hit_ != was) return "hit result";
    if (admit && !after.count(id)) return "not admitted";
    for (auto &e : after)
      if (!before.count(e.first) && !(admit && e.first == id)) return "object appeared";
    q.clear();
    for (auto &e : after) q.push_back(Ent{e.first, before.count(e.first) ? before[e.first] : size});
    return "";
  }
};
struct SLRU : Basic<SLRU> {
  std::vector<int64_t> lim;
  std::vector<List> seg;
  int64_t bytes(size_t i) const {
    int64_t s = 0;
    for (auto &e : seg[i]) s += e.size + md;
    return s;
  }
  bool can(int64_t size) const override { return size + md <= cap && size + md <= lim[0]; }
  void cool(size_t i) {
    if (i == 0) {
      evict(0);
      return;
    }
    push(seg[i - 1], pop_tail(seg[i]));
    while (bytes(i - 1) > lim[i - 1]) cool(i - 1);
  }
  bool hit(uint64_t id) override {
    for (size_t i = 0; i < seg.size(); i++) {
      int k = idx(seg[i], id);
      if (k < 0) continue;
      size_t to = std::min(i + 1, seg.size() - 1);
      push(seg[to], take(seg[i], k));
      if (to != i)
        while (bytes(to) > lim[to]) cool(to);
      return true;
    }
    return false;
  }
  void insert(uint64_t id, int64_t size) override {
    size_t at = 0;
    for (size_t i = 0; i < seg.size(); i++)
      if (bytes(i) + size + md <= lim[i]) {
        at = i;
        break;
      }
    push(seg[at], Ent{id, size});
  }
  void evict(int64_t) override {
    for (auto &s : seg)
      if (!s.empty()) {
        pop_tail(s);
        return;
      }
  }
  bool remove(uint64_t id) override {
    for (auto &s : seg) {
      int k = idx(s, id);
      if (k >= 0) {
        take(s, k);
        return true;
      }
    }
    return false;
  }
  void contents(Res &r) const override {
    for (auto &s : seg)
      for (auto &e : s) r[e.id] = e.size;
  }
  void ser(Ser &s) const override {
    for (auto &l : seg) s.list(l);
  }
};
// a plain FIFO ghost list with a byte budget
struct Ghost {
  int64_t cap = 0;
  List q;
  bool take_id(uint64_t id) {
    int i = idx(q, id);
    if (i < 0) return false;
    take(q, i);
    return true;
  }
  void add(uint64_t id, int64_t size) {
    if (idx(q, id) >= 0 || size > cap) return;
    int64_t s = 0;
    for (auto &e : q) s += e.size;
    while (s + size > cap) s -= pop_tail(q).size;
    push(q, Ent{id, size});
  }
};
static inline int64_t sum(const List &l, int md = 0) {
  int64_t s = 0;
  for (auto &e : l) s += e.size + md;
  return s;
}
struct TwoQ : Basic<TwoQ> {
  List in;
  int64_t in_cap = 0;
  Ghost out;
  LRU am;
  bool ghost = false;
  bool can(int64_t size) const override { return size <= cap && size <= in_cap; }
  bool hit(uint64_t id) override {
    ghost = false;
    if (idx(in, id) >= 0) return true;
    ghost = out.take_id(id);
    return am.hit(id);
  }
  void insert(uint64_t id, int64_t size) override {
    if (ghost) am.get(id, size);
    else push(in, Ent{id, size});
    ghost = false;
  }
  void evict(int64_t) override {
    if (sum(in) > in_cap || am.q.empty()) {
      Ent e = pop_tail(in);
      out.add(e.id, e.size);
    } else
      am.evict(0);
  }
  bool remove(uint64_t id) override {
    out.take_id(id);
    int i = idx(in, id);
    if (i >= 0) {
      take(in, i);
      return true;
    }
    return am.remove(id);
  }
  void contents(Res &r) const override {
    for (auto &e : in) r[e.id] = e.size;
    am.contents(r);
  }
  void ser(Ser &s) const override {
    s.list(in);
    s.list(am.q);
    s.list(out.q);
  }
};
struct ARC : Basic<ARC> {
  List t1, b1, t2, b2;
  double p = 0;
  bool g1 = false, g2 = false;  // this request hit a ghost list
  bool hit(uint64_t id) override {
    g1 = g2 = false;
    int i;
    if ((i = idx(t1, id)) >= 0) {
      push(t2, take(t1, i));
      return true;
    }
    if ((i = idx(t2, id)) >= 0) {
      push(t2, take(t2, i));
      return true;
    }
    if ((i = idx(b1, id)) >= 0) {
      g1 = true;
      p = std::min(p + std::max((double)sum(b2, md) / sum(b1, md), 1.0), (double)cap);
      take(b1, i);
    } else if ((i = idx(b2, id)) >= 0) {
      g2 = true;
      p = std::max(p - std::max((double)sum(b1, md) / sum(b2, md), 1.0), 0.0);
      take(b2, i);
    }
    return false;
  }
  bool get(uint64_t id, int64_t size) override {
    bool r = Basic<ARC>::get(id, size);
    if (!r && can(size)) g1 = g2 = false;
    return r;
  }
  void insert(uint64_t id, int64_t size) override { push(g1 || g2 ? t2 : t1, Ent{id, size}); }
  void replace() {
    double s1 = sum(t1, md);
    if ((s1 > 0 && (s1 > p || (s1 == p && g2))) || t2.empty())
      push(b1, pop_tail(t1));
    else
      push(b2, pop_tail(t2));
  }
  void evict(int64_t incoming) override {
    if (g1 || g2) return replace();
    if (sum(t1, md) + sum(b1, md) + incoming + md > cap) {
      if (b1.empty()) {
        pop_tail(t1);
        return;
      }
      pop_tail(b1);
      return replace();
    }
    if (sum(t1, md) + sum(b1, md) + sum(t2, md) + sum(b2, md) >= 2 * cap && !b2.empty()) pop_tail(b2);
    replace();
  }
  bool remove(uint64_t id) override {
    for (List *l : {&b1, &b2}) {
      int i = idx(*l, id);
      if (i >= 0) {
        take(*l, i);
        return false;
      }
    }
    for (List *l : {&t1, &t2}) {
      int i = idx(*l, id);
      if (i >= 0) {
        take(*l, i);
        return true;
      }
    }
    return false;
  }
  void contents(Res &r) const override {
    for (auto &e : t1) r[e.id] = e.size;
    for (auto &e : t2) r[e.id] = e.size;
  }
  void ser(Ser &s) const override {
    s.list(t1);
    s.list(t2);
    s.list(b1);
    s.list(b2);
    s.dbl(p);
    s.num(g1 * 2 + g2);
  }
};
struct S3FIFO : Basic<S3FIFO> {
  List small, mainq;
  int64_t small_cap = 0, main_cap = 0, thr = 2;
  Ghost g;
  bool ghost = false;
  bool can(int64_t size) const override { return size <= cap && size <= small_cap; }
  bool hit(uint64_t id) override {
    ghost = false;
    int i;
    if ((i = idx(small, id)) >= 0) {
      small[i].freq++;
      return true;
    }
    ghost = g.take_id(id);
    if ((i = idx(mainq, id)) >= 0) {
      mainq[i].freq++;
      return true;
    }
    return false;
  }
  void insert(uint64_t id, int64_t size) override {
    if (ghost) push(mainq, Ent{id, size});
    else if (size < small_cap) push(small, Ent{id, size});
    ghost = false;
  }
  void evict(int64_t) override {
    if (sum(mainq) > main_cap || small.empty()) {
      while (!mainq.empty()) {
        Ent e = pop_tail(mainq);
        if (e.freq < 1) return;
        e.freq = std::min<int64_t>(e.freq, 3) - 1;
        push(mainq, e);
      }
      return;
    }
    while (!small.empty()) {
      Ent e = pop_tail(small);
      if (e.freq >= thr) {
        e.freq = 0;
        push(mainq, e);
      } else {
        g.add(e.id, e.size);
        return;
      }
    }
  }
  bool remove(uint64_t id) override {
    g.take_id(id);
    for (List *l : {&small, &mainq}) {
      int i = idx(*l, id);
      if (i >= 0) {
        take(*l, i);
        return true;
      }
    }
    return false;
  }
  void contents(Res &r) const override {
    for (auto &e : small) r[e.id] = e.size;
    for (auto &e : mainq) r[e.id] = e.size;
  }
  void ser(Ser &s) const override {
    List a = small, b = mainq;
    for (auto &e : a) e.freq = std::min(e.freq, thr);
    for (auto &e : b) e.freq = std::min<int64_t>(e.freq, 3);
    s.list(a, true);
    s.list(b, true);
    s.list(g.q);
  }
};
struct QDLP : Basic<QDLP> {
  List fifo;
  int64_t fifo_cap = 0, thr = 1;
  Ghost g;
  std::shared_ptr<M> mainc;
  bool ghost = false;
  QDLP() {}
  QDLP(const QDLP &o) : Basic<QDLP>(o), fifo(o.fifo), fifo_cap(o.fifo_cap), thr(o.thr), g(o.g), ghost(o.ghost) {
    mainc = std::shared_ptr<M>(o.mainc->clone().release());
  }
  bool can(int64_t size) const override { return size <= cap && size <= fifo_cap; }
  bool main_has(uint64_t id) const {
    Res r;
    mainc->contents(r);
    return r.count(id);
  }
  bool hit(uint64_t id) override {
    ghost = false;
    int i = idx(fifo, id);
    if (i >= 0) {
      fifo[i].freq++;
      return true;
    }
    ghost = g.take_id(id);
    if (main_has(id)) return mainc->get(id, 1);
    main_miss(id);
    return false;
  }
  virtual void main_miss(uint64_t id) {}
  void insert(uint64_t id, int64_t size) override {
    if (ghost) mainc->get(id, size);
    else if (size < fifo_cap) push(fifo, Ent{id, size});
    ghost = false;
  }
  void evict(int64_t incoming) override {
    if (fifo.empty()) return mainc->evict(incoming);
    Ent e = pop_tail(fifo);
    if (e.freq >= thr) mainc->get(e.id, e.size);
    else g.add(e.id, e.size);
  }
  bool remove(uint64_t id) override {
    g.take_id(id);
    int i = idx(fifo, id);
    if (i >= 0) {
      take(fifo, i);
      return true;
    }
    return mainc->remove(id);
  }
  void contents(Res &r) const override {
    for (auto &e : fifo) r[e.id] = e.size;
    mainc->contents(r);
  }
  void ser(Ser &s) const override {
    List a = fifo;
    for (auto &e : a) e.freq = std::min(e.freq, thr);
    s.list(a, true);
    s.list(g.q);
    mainc->ser(s);
  }
};

static inline std::string param(const std::string &params, const char *key, const char *dflt) {
  std::string p = "," + params, k = std::string(",") + key + "=";
  size_t a = p.find(k);
  if (a == std::string::npos) return dflt;
  a += k.size();
  size_t b = p.find(',', a);
  return p.substr(a, b == std::string::npos ? b : b - a);
}

static inline std::unique_ptr<M> make(const std::string &algo, const std::string &params, int64_t cap, bool md) {
  auto fin = [&](M *m, int bytes) {
    m->cap = cap;
    m->md = md ? bytes : 0;
    return std::unique_ptr<M>(m);
  };
  if (algo == "FIFO") return fin(new FIFO, 0);
  if (algo == "LRU") return fin(new LRU, 16);
  if (algo == "MRU") return fin(new MRU, 0);
  if (algo == "Sieve") return fin(new Sieve, 1);
  if (algo == "Clock") {
    auto *c = new Clock;
    c->maxf = (1 << atoi(param(params, "n-bit-counter", "1").c_str())) - 1;
    return fin(c, 0);
  }
  if (algo == "LFU") return fin(new LFU, 16);
  if (algo == "LFUCpp") return fin(new LFU, 8);
  if (algo == "LFUDA") return fin(new LFUDA, 16);
  if (algo == "GDSF") return fin(new GDSF, 8);
  if (algo == "Size") return fin(new Size, 0);
  if (algo == "SLRU") {
    auto *s = new SLRU;
    std::string ss = param(params, "seg-size", "");
    if (ss.empty()) {
      int n = atoi(param(params, "n-seg", "4").c_str());
      for (int i = 0; i < n; i++) s->lim.push_back(cap / n);
    } else {
      std::vector<double> r;
      double tot = 0;
      for (size_t a = 0; a != std::string::npos;) {
        r.push_back(atof(ss.c_str() + a));
        tot += r.back();
        a = ss.find(':', a);
        if (a != std::string::npos) a++;
      }
      for (double x : r) s->lim.push_back((int64_t)(x / tot * cap));
    }
    s->seg.resize(s->lim.size());
    return fin(s, 16);
  }
  if (algo == "ARC") return fin(new ARC, 40);
  if (algo == "TwoQ") {
    auto *t = new TwoQ;
    t->in_cap = cap * atof(param(params, "Ain-size-ratio", "0.25").c_str());
    t->out.cap = cap * atof(param(params, "Aout-size-ratio", "0.5").c_str());
    t->am.cap = cap - t->in_cap;
    return fin(t, 0);
  }
  if (algo == "S3FIFO") {
    auto *t = new S3FIFO;
    t->small_cap = cap * atof(param(params, "fifo-size-ratio", "0.1").c_str());
    t->main_cap = cap - t->small_cap;
    t->g.cap = cap * atof(param(params, "ghost-size-ratio", "0.9").c_str());
    t->thr = atoi(param(params, "move-to-main-threshold", "2").c_str());
    return fin(t, 0);
  }
  if (algo == "QDLP") {
    auto *t = new QDLP;
    t->fifo_cap = cap * atof(param(params, "fifo-size-ratio", "0.1").c_str());
    t->g.cap = cap * atof(param(params, "ghost-size-ratio", "0.9").c_str());
    t->thr = atoi(param(params, "move-to-main-threshold", "1").c_str());
    std::string mn = param(params, "main-cache", "Clock2");
    std::string mp;
    if (mn == "sieve") mn = "Sieve";
    if (mn == "clock") mn = "Clock";
    if (mn == "Clock2") mn = "Clock", mp = "n-bit-counter=2";
    if (mn == "Clock3") mn = "Clock", mp = "n-bit-counter=3";
    t->mainc = std::shared_ptr<M>(make(mn, mp, cap - t->fifo_cap, false).release());
    return fin(t, 0);
  }
  return nullptr;
}
}  // namespace model
