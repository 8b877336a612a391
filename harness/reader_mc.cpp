// P12, P13, P20: trace readers.  Files are enumerated record sequence by record sequence in every format; the requests
// returned are compared with the records encoded (P12); sequences of navigation operations are enumerated and compared
// with a cursor over the record list (P13); samplers are compared with the filter they define (P20).
#include <stdlib.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "reader_common.hpp"

// ---------------------------------------------------------------- P12
static void p12_case(pool::Ctx &c, const Fmt &f, const Opt &o, const std::vector<int> &idx, const std::string &pos) {
  std::string path = scratch_file();
  std::string data = f.bytes(idx);
  if (o.tail) data += std::string(o.tail, '\x11');
  write_file(path, data);
  auto exp = expected(f, idx, o);
  reader_t *r = open_reader(f, path, o);
  request_t *q = new_request();
  bool reps = has_counts(f);
  auto count = [&](const char *when) {
    uint64_t n = get_num_of_req(r), a = expected(f, idx, o, false).size();
    bool plain = o.cap <= 0 || o.null_init;
    for (int i : idx)
      if (f.recs[i].zero && (o.zero || o.null_init)) plain = false;
    if (n != exp.size() && (plain || n != a))
      c.viol("count", pos, std::string("reports ") + std::to_string(n) + " requests " + when + ", a full read returns " + std::to_string(exp.size()));
  };
  if (o.count_first) count("before reading");
  IdMap ids;
  size_t n = 0;
  while (true) {
    if (!reps || n == 0) {
      poison(q);
      if (!o.nosize && !(f.recs[0].mask >> F_SIZE & 1)) q->obj_size = 1;
    }
    q->valid = n % 2;
    int st = read_one_req(r, q);
    c.slot->ops = c.slot->ops + 1;
    if (st != 0) {
      if (q->valid) c.viol("eof-valid", pos, "end of trace reported with a request marked valid");
      break;
    }
    if (n >= exp.size()) {
      c.viol("extra", pos, "returned request " + std::to_string(n + 1) + " (id " + std::to_string(q->obj_id) + ") of " + std::to_string(exp.size()));
      break;
    }
    if (!q->valid && !(reps && exp[n]->cnt > 1)) c.viol("valid", pos, "request " + std::to_string(n + 1) + " not marked valid");
    std::string d = diff(f, *exp[n], q, o.nosize, ids);
    if (!d.empty()) {
      c.viol("field", pos, "request " + std::to_string(n + 1) + ": " + d);
      break;
    }
    n++;
    q->valid = true;
  }
  if (n < exp.size()) c.viol("missing", pos, "end of trace after " + std::to_string(n) + " of " + std::to_string(exp.size()) + " requests");
  for (int k = 0; k < 3; k++)
    if (read_one_req(r, q) == 0) {
      c.viol("after-end", pos, "a request is returned after the end of the trace was signalled");
      break;
    }
  if (!o.count_first) count("after reading");
  close_reader(r);
  free_request(q);
}
// a file of several pages, all records mixed
static std::vector<int> big_file(const Fmt &f, bool drop) {
  std::vector<int> v;
  for (int i = 0; i < 900; i++) {
    int k = i * i % 7 % 6;
    if (drop && (f.recs[k].mask >> F_SIZE & 1) && f.recs[k].f[F_SIZE] == 0) k = 0;
    v.push_back(k);
  }
  return v;
}

// ---------------------------------------------------------------- P13
struct NavFile {
  Fmt f;
  std::vector<int> idx;
  int depth;
  std::string name;
  std::string alpha;
};
static std::vector<NavFile> nav_files(bool deep) {
  std::vector<NavFile> v;
  auto add = [&](const Fmt &f, std::vector<int> idx, int depth, std::string alpha = NAV) {
    NavFile x;
    x.f = f, x.idx = idx, x.depth = depth + (deep ? 1 : 0), x.alpha = alpha;
    x.name = f.name + "[" + istr(idx) + "]";
    v.push_back(x);
  };
  std::vector<int> id5 = {0, 1, 2, 3, 5};
  for (auto &f : fixed_formats()) {
    bool core = f.name == "oracleGeneral" || f.name == "vscsi1";
    add(f, {0, 1, 2}, core ? 4 : 3);
    add(f, {0, 1, 2, 3, 5}, 3);
    if (f.min_rec == 1) add(f, {1}, 3);
  }
  Fmt b = fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, false), l = fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, true),
      l2 = fmt_string_format("BQIH", {-1, F_ID, F_SIZE, F_OP}, true);
  for (auto *f : {&b, &l, &l2}) {
    add(*f, {0, 1, 2}, 4);
    add(*f, id5, 3);
    add(*f, {3}, 3);
  }
  for (auto &f : text_formats()) {
    if (has_counts(f)) continue;
    if (f.name.find("auto") != std::string::npos && f.name.find(",") == std::string::npos) continue;
    Fmt g = f;
    for (auto &r : g.recs) r.zero = false;
    bool core = f.name == "csv:,-plain" || f.name == "csv:,-hdr" || f.name == "txt:num" || f.name == "csv:open" || f.name == "txt:num-open" || f.name == "csv:blank-hdr";
    add(g, {0, 1, 2}, core ? 4 : 3);
    add(g, {0}, core ? 4 : 3);
    if (core) add(g, {0, 5, 0, 1, 5}, 3);
    if (f.min_rec == 0 && core) add(g, {}, 3);
  }
  // lines longer than the chunk in which the reader searches backwards, and lines around its size
  for (int len : {1, 2, 3, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 2050, 5000}) {
    for (int open = 0; open < 2; open++) {
      Fmt f = txt_format("long" + std::to_string(len), "\n", open, "", 1);
      for (int i = 0; i < 6; i++) {
        f.recs[i].text = std::string(i == 3 ? 2 : len, 'a' + i);
        f.enc[i] = f.recs[i].text;
      }
      add(f, {0, 1, 2}, 2, "rub2zL9Nc");
      add(f, {3, 0, 3}, 2, "rub2zL9Nc");
      Fmt g = csv_format("long" + std::to_string(len), ',', false, 1, true, "tix", "\n", open, "", 0);
      for (int i = 0; i < 6; i++) g.enc[i] += std::string(i == 3 ? 1 : len, 'a' + i);
      add(g, {0, 3, 1}, 2, "rub2zL9Nc");
    }
  }
  // a longer file: positions far from both ends
  std::vector<int> many;
  for (int i = 0; i < 400; i++) many.push_back(i * 7 % 6 == 4 ? 5 : i * 7 % 6);
  add(txt_format("many", "\n", false, "", 0), many, 2, "rub5zL9Nc");
  add(csv_format("many", ',', false, 1, true, "tis", "\n", true, "", 0), many, 2, "rub5zL9Nc");
  return v;
}

// navigation on a reader that filters, caps, repeats or samples: the full read of such a reader is the reference, a reset
// restarts it, a clone delivers it whatever the original has read, and counting or peeking does not disturb the position
static const char *ONAV = "rzcNFLC";
struct ONav {
  Fmt f;
  Opt o;
  int every = 0;  // temporal sampler
  bool spatial = false;
  std::string str() const { return f.name + ";" + o.str() + (every ? " temporal 1/" + std::to_string(every) : spatial ? " spatial 1/2" : "") + ";optnav"; }
};
static std::vector<ONav> onav_cfgs(bool deep) {
  std::vector<ONav> v;
  std::vector<Fmt> fs;
  for (auto &f : fixed_formats()) fs.push_back(f);
  fs.push_back(fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, false));
  fs.push_back(fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, true));
  for (auto &f : text_formats()) fs.push_back(f);
  for (auto &f : fs) {
    bool reps = has_counts(f), core = reps || f.name == "oracleGeneral" || f.name == "csv:,-hdr" || f.name == "txt:num" || f.name == "txt:text";
    for (int cap : {-1, 1, 2, 3})
      for (int z = 0; z < 2; z++) {
        if (z && !f.own_zero) continue;
        if (!core && !(cap == 2 && !z) && !(cap == -1 && z)) continue;
        if (cap < 0 && !z && !reps) continue;
        ONav x;
        x.f = f, x.o.cap = cap, x.o.zero = z, x.o.nosize = cap == 3;
        v.push_back(x);
      }
    if (reps) continue;
    for (int k = 0; k < 3; k++) {
      if (!core && k != 0) continue;
      ONav x;
      x.f = f;
      if (k < 2) x.every = 2 + k;
      else x.spatial = true;
      v.push_back(x);
    }
  }
  (void)deep;
  return v;
}
static std::string onav_run(pool::Ctx &c, const ONav &x, const std::string &path, const std::vector<int> &idx, const std::string &ops) {
  const Fmt &f = x.f;
  auto smp = [&]() { return x.every ? create_temporal_sampler(1.0 / x.every) : x.spatial ? create_spatial_sampler(0.5) : nullptr; };
  struct Got {
    int64_t v[F_N];
  };
  std::vector<Got> E;
  std::vector<bool> cont;  // a further repetition of the record before
  reader_t *r = open_reader(f, path, x.o, smp());
  request_t *q = new_request(), *q2 = new_request();
  auto fresh = [&](request_t *p) {
    poison(p);
    if (!(f.recs[0].mask >> F_SIZE & 1)) p->obj_size = 1;
    p->valid = true;
  };
  {
    auto want = expected(f, idx, x.o);
    reader_t *a = open_reader(f, path, x.o, smp());
    for (size_t i = 0;; i++) {
      // the position inside a repeated record: the expected list names the record, equal neighbours come from idx
      bool k = false;
      if (!x.every && !x.spatial && i < want.size()) {
        size_t n = 0;
        for (int j : idx) {
          const Rec &rec = f.recs[j];
          if (x.o.zero && rec.zero) continue;
          if (i > n && i < n + rec.cnt) k = true;
          n += rec.cnt;
        }
      }
      if (!k) fresh(q2);
      if (read_one_req(a, q2) != 0) break;
      Got g;
      for (int j = 0; j < F_N; j++) g.v[j] = f.recs[0].mask >> j & 1 ? req_field(q2, j) : 0;
      E.push_back(g), cont.push_back(k);
      if (E.size() > 1000) break;
    }
    close_reader(a);
  }
  std::string err;
  size_t k = 0, kk = 0;
  reader_t *kept = nullptr;
  request_t *qk = new_request();
  auto rd = [&](reader_t *y, request_t *p, size_t &pos, const char *what) {
    if (pos >= E.size() || !cont[pos] || pos == 0) fresh(p);
    int st = read_one_req(y, p);
    c.slot->ops = c.slot->ops + 1;
    if (pos >= E.size()) {
      if (st == 0) err = std::string(what) + " past the end returned id " + std::to_string(p->obj_id);
      return;
    }
    if (st != 0) {
      err = std::string(what) + " at position " + std::to_string(pos) + " of " + std::to_string(E.size()) + " signalled the end";
      return;
    }
    for (int j = 0; j < F_N; j++)
      if ((f.recs[0].mask >> j & 1) && req_field(p, j) != E[pos].v[j])
        err = std::string(what) + " at position " + std::to_string(pos) + ": " + FIELD_NAME[j] + " is " + std::to_string(req_field(p, j)) + ", the first read returned " + std::to_string(E[pos].v[j]);
    pos++;
  };
  for (size_t i = 0; i <= ops.size() && err.empty(); i++) {
    if (i == ops.size()) {
      do rd(r, q, k, "flush: read");
      while (k < E.size() && err.empty());
      if (err.empty()) rd(r, q, k, "flush: read");
      if (!err.empty()) err = "after \"" + ops + "\": " + err;
      break;
    }
    switch (ops[i]) {
      case 'r': rd(r, q, k, "read"); break;
      case 'z': reset_reader(r), k = 0; break;
      case 'c':
        if (!kept) kept = clone_reader(r);
        rd(kept, qk, kk, "kept clone: read");
        break;
      case 'N': get_num_of_req(r); break;
      case 'F': fresh(q2), read_first_req(r, q2); break;
      case 'L':
        if (!E.empty()) fresh(q2), read_last_req(r, q2);
        break;
      case 'C': {
        reader_t *y = clone_reader(r);
        size_t p = 0;
        do rd(y, q2, p, "clone: read");
        while (p < E.size() && err.empty());
        if (err.empty()) rd(y, q2, p, "clone: read");
        close_reader(y);
        break;
      }
    }
    if (!err.empty()) err = "after \"" + ops.substr(0, i) + "\", operation " + ops[i] + ": " + err;
  }
  if (err.empty()) {
    if (kept) close_reader(kept);
    close_reader(r);
  }
  free_request(q), free_request(q2), free_request(qk);
  return err;
}

// ---------------------------------------------------------------- P20
static std::string sampled_read(reader_t *r, request_t *q, std::vector<uint64_t> &out) {
  size_t guard = 0;
  while (read_one_req(r, q) == 0) {
    if (q->obj_size != 4096) return "the size of a sampled request was changed";
    out.push_back((uint64_t)q->clock_time << 32 | (uint32_t)q->obj_id);
    if (++guard > 100000) return "the sampled reader does not end";
  }
  return "";
}
static void put_og(std::string &s, uint32_t t, uint64_t id) {
  put(s, t), put(s, id), put(s, (uint32_t)4096), put(s, (int64_t)-1);
}
// kind: s spatial, t temporal; hist: ids of the requests
static bool spatial_member(int k, uint64_t id) {
  static std::map<std::pair<int, uint64_t>, bool> memo;
  auto it = memo.find({k, id});
  if (it != memo.end()) return it->second;
  std::string d, p = scratch_file("m");
  put_og(d, 1, id);
  write_file(p, d);
  reader_init_param_t ip = default_reader_init_params();
  ip.sampler = create_spatial_sampler(1.0 / k);
  reader_t *r = setup_reader(p.c_str(), ORACLE_GENERAL_TRACE, &ip);
  request_t *q = new_request();
  bool m = read_one_req(r, q) == 0;
  free_request(q);
  close_reader(r);
  unlink(p.c_str());
  return memo[{k, id}] = m;
}
static void p20_case(pool::Ctx &c, char kind, int fmt, int k, const std::vector<uint64_t> &ids, const std::string &pos) {
  std::string path = scratch_file("s"), d;
  if (fmt == 0)
    for (size_t i = 0; i < ids.size(); i++) put_og(d, i + 1, ids[i]);
  else
    for (size_t i = 0; i < ids.size(); i++) d += std::to_string(i + 1) + "," + std::to_string(ids[i]) + ",4096\n";
  write_file(path, d);
  reader_init_param_t ip = default_reader_init_params();
  if (fmt) ip.time_field = 1, ip.obj_id_field = 2, ip.obj_size_field = 3, ip.has_header_set = true;
  ip.sampler = kind == 's' ? create_spatial_sampler(1.0 / k) : create_temporal_sampler(1.0 / k);
  std::vector<uint64_t> want, got;
  for (size_t i = 0; i < ids.size(); i++)
    if (kind == 's' ? spatial_member(k, ids[i]) : (i + 1) % k == 0) want.push_back((uint64_t)(i + 1) << 32 | (uint32_t)ids[i]);
  reader_t *r = setup_reader(path.c_str(), fmt ? CSV_TRACE : ORACLE_GENERAL_TRACE, &ip);
  request_t *q = new_request();
  auto check = [&](reader_t *x, const char *what) {
    got.clear();
    std::string e = sampled_read(x, q, got);
    if (e.empty() && got != want) e = "selected " + std::to_string(got.size()) + " requests, should be " + std::to_string(want.size()) + " (or others)";
    if (!e.empty()) c.viol(kind == 's' ? "spatial" : "temporal", pos, std::string(what) + ": " + e);
    c.slot->ops = c.slot->ops + ids.size();
  };
  check(r, "first read");
  reset_reader(r);
  check(r, "read after a reset");
  reset_reader(r);
  for (int i = 0; i < 2; i++) read_one_req(r, q);  // a clone taken in the middle, and a reset in the middle
  reader_t *x = clone_reader(r);
  check(x, "clone");
  reset_reader(x);
  check(x, "clone after a reset");
  close_reader(x);
  reset_reader(r);
  check(r, "read after a reset in the middle");
  x = clone_reader(r);
  check(x, "clone after the end");
  close_reader(x);
  // the sampler alone, cloned in the middle of its use
  sampler_t *s = kind == 's' ? create_spatial_sampler(1.0 / k) : create_temporal_sampler(1.0 / k);
  for (int m = 0; m < 2; m++) {
    got.clear();
    sampler_t *t = m ? s->clone(s) : s;
    for (size_t i = 0; i < ids.size(); i++) {
      q->obj_id = ids[i];
      q->hv = 0;
      q->clock_time = i + 1;
      if (t->sample(t, q)) got.push_back((uint64_t)(i + 1) << 32 | (uint32_t)ids[i]);
    }
    if (got != want) c.viol("sampler", pos, m ? "a cloned sampler selects differently" : "the sampler selects differently from the reader");
    if (m) t->free(t);
  }
  s->free(s);
  close_reader(r);
  free_request(q);
}

// ---------------------------------------------------------------- main
int main(int argc, char **argv) {
  std::string prop = "P12", tier = "quick", out = "/dev/stdout", rcfg, rhist, only;
  int workers = 8;
  bool replay = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") {
      replay = true;
      rcfg = argv[++i];
      rhist = argv[++i];
    }
  }
  bool deep = tier == "thorough";
  if (!make_scratch()) return 3;
  std::vector<pool::Task> tasks;
  auto skip = [](pool::Ctx &c, const std::string &pos) {  // resuming behind a crash
    if (c.resume.empty()) return false;
    if (c.resume == pos) c.resume.clear();
    return true;
  };
  if (prop == "P12") {
    std::vector<Fmt> fs = fixed_formats();
    for (auto &f : fmt_string_formats()) fs.push_back(f);
    for (auto &f : text_formats()) fs.push_back(f);
    for (auto &f : wide_formats()) fs.push_back(f);
    std::vector<Opt> opts, few;
    for (int cap : {-1, 1, 2, 3, 0})
      for (int z = 0; z < 2; z++)
        for (int s = 0; s < 2; s++) {
          Opt o;
          o.cap = cap, o.zero = z, o.nosize = s;
          o.count_first = (cap + z + s) & 1;
          opts.push_back(o);
          if (cap != 2 && s == (cap < 0 ? z : 0)) few.push_back(o);
        }
    for (auto &f0 : fs) {
      bool bin = f0.name.compare(0, 4, "bin<") == 0 || f0.name.compare(0, 4, "lcs<") == 0;
      std::vector<Opt> os = bin && f0.name.find("IQIq/") == std::string::npos ? few : opts;
      if (!f0.needs_init)
        for (int k = 0; k < 2; k++) {
          Opt o;
          o.null_init = true, o.count_first = k;
          os.push_back(o);
        }
      if (f0.item > 1)
        for (int t : {1, f0.item / 2, f0.item - 1})
          for (int z = 0; z < 2; z++) {
            Opt o;
            o.tail = t, o.zero = z;
            os.push_back(o);
          }
      for (auto &o : os) {
        std::string cfg = f0.name + ";" + o.str();
        if (!only.empty() && cfg.find(only) == std::string::npos) continue;
        Fmt f = f0;
        int len = bin ? (deep ? 4 : 2) : deep ? 5 : (f.own_zero ? 4 : 3);
        if (has_counts(f)) len = deep ? 5 : 4;
        if (f.min_rec > len) len = f.min_rec;
        int lo = f.min_rec;
        if (f.item && f.type != LCS_TRACE && lo < 1) lo = 1;
        // formats that have no size-zero filter: size-zero requests are left out where the filter is requested
        pool::Task t;
        t.cfg = cfg;
        bool drop = (o.zero || o.null_init) && !f.own_zero;
        t.run = [=](pool::Ctx &c) {
          pool::Ctx *pc = &c;
          all_sequences(f.recs.size(), lo, len, [=](const std::vector<int> &v) {
            if (drop)
              for (int i : v)
                if ((f.recs[i].mask >> F_SIZE & 1) && f.recs[i].f[F_SIZE] == 0) return;
            if (v.size() >= 3)  // ids that behave alike: limit the longer files to three distinct records
              if (std::set<int>(v.begin(), v.end()).size() > 3) return;
            std::string pos = istr(v);
            if (skip(*pc, pos)) return;
            pc->at(pos);
            p12_case(*pc, f, o, v, pos);
            pc->slot->evals = pc->slot->evals + 1;
            if (v.size() > 1) pc->slot->nontriv = pc->slot->nontriv + 1;
            pool::outcome(pool::hash_str(t.cfg.substr(0, 30) + pos));
          });
          if (pool::hash_str(t.cfg) % 37 == 0) pc->sample("format " + f.name + ", " + o.str() + ": all files of up to " + std::to_string(len) + " records");
        };
        t.replay = [=](pool::Ctx &c, const std::string &pos) { p12_case(c, f, o, pos == "big" ? big_file(f, drop) : iparse(pos), pos); };
        tasks.push_back(t);
      }
    }
  } else if (prop == "P13") {
    for (auto &nf : nav_files(deep)) {
      if (!only.empty() && nf.name.find(only) == std::string::npos) continue;
      pool::Task t;
      t.cfg = nf.name + ";d=" + std::to_string(nf.depth) + ";" + nf.f.sep_last.substr(0, 0) + (nf.f.last_open ? "open" : "");
      if (nf.idx.size() > 20) t.cfg = nf.f.name + "[" + std::to_string(nf.idx.size()) + " records]";
      std::vector<const Rec *> dummy;
      auto recs = [nf]() {
        Opt o;
        std::vector<const Rec *> R;
        for (int i : nf.idx) R.push_back(&nf.f.recs[i]);
        return R;
      };
      t.run = [=](pool::Ctx &c) {
        std::string path = scratch_file();
        write_file(path, nf.f.bytes(nf.idx));
        std::vector<const Rec *> R;
        for (int i : nf.idx) R.push_back(&nf.f.recs[i]);
        pool::Ctx *pc = &c;
        all_sequences(nf.alpha.size(), 1, nf.depth, [&](const std::vector<int> &v) {
          std::string ops;
          for (int i : v) ops += nf.alpha[i];
          if (skip(*pc, ops)) return;
          pc->at(ops);
          std::string e = nav_run(*pc, nf.f, path, R, ops, true);
          pc->slot->evals = pc->slot->evals + 1;
          if (ops.size() > 1) pc->slot->nontriv = pc->slot->nontriv + 1;
          if (!e.empty()) pc->viol("nav", ops, e);
          else pool::outcome(pool::hash_str(nf.name + ops));
        });
        if (pool::hash_str(t.cfg) % 11 == 0) pc->sample("file " + t.cfg + ": all operation sequences up to depth " + std::to_string(nf.depth) + " over " + nf.alpha);
      };
      t.replay = [=](pool::Ctx &c, const std::string &pos) {
        std::string path = scratch_file();
        write_file(path, nf.f.bytes(nf.idx));
        std::vector<const Rec *> R;
        for (int i : nf.idx) R.push_back(&nf.f.recs[i]);
        std::string e = nav_run(c, nf.f, path, R, pos, true);
        if (!e.empty()) c.viol("nav", pos, e);
      };
      tasks.push_back(t);
    }
    for (auto &x : onav_cfgs(deep)) {
      pool::Task t;
      t.cfg = x.str();
      if (!only.empty() && t.cfg.find(only) == std::string::npos) continue;
      auto parse = [](const std::string &pos, std::vector<int> &idx, std::string &ops) {
        size_t p = pos.find(' ');
        idx = iparse(pos.substr(0, p));
        ops = p == std::string::npos ? "" : pos.substr(p + 1);
      };
      t.run = [=](pool::Ctx &c) {
        pool::Ctx *pc = &c;
        bool reps = has_counts(x.f);
        int depth = (reps || x.f.name == "oracleGeneral" ? 4 : 3) + (deep ? 1 : 0);
        // the record alphabet: two ordinary ones, a repeated one, one of size zero
        std::vector<std::vector<int>> files = {{0, 1, 2}, {0, 1, 2, 3}, {1, 0, 1, 2, 5}};
        if (x.o.zero) files = {{4, 1, 0, 2}, {1, 4, 2, 4}, {4, 4, 1, 5, 0}};
        if (x.f.min_rec == 0 && !x.o.zero) files.push_back({1});
        for (auto &idx : files) {
          bool bad = false;
          for (int i : idx)
            if ((size_t)i >= x.f.recs.size()) bad = true;
          if (bad || (int)idx.size() < x.f.min_rec) continue;
          std::string path = scratch_file();
          write_file(path, x.f.bytes(idx));
          all_sequences(7, 1, depth, [&](const std::vector<int> &v) {
            std::string ops;
            for (int i : v) ops += ONAV[i];
            std::string pos = istr(idx) + " " + ops;
            if (skip(*pc, pos)) return;
            pc->at(pos);
            std::string e = onav_run(*pc, x, path, idx, ops);
            pc->slot->evals = pc->slot->evals + 1;
            if (ops.size() > 1) pc->slot->nontriv = pc->slot->nontriv + 1;
            if (!e.empty()) pc->viol("nav-options", pos, e);
            else pool::outcome(pool::hash_str(x.str() + pos));
          });
        }
        if (pool::hash_str(t.cfg) % 11 == 0) pc->sample(t.cfg + ": all operation sequences up to depth " + std::to_string(depth) + " over " + ONAV);
      };
      t.replay = [=](pool::Ctx &c, const std::string &pos) {
        std::vector<int> idx;
        std::string ops, path = scratch_file();
        parse(pos, idx, ops);
        write_file(path, x.f.bytes(idx));
        std::string e = onav_run(c, x, path, idx, ops);
        if (!e.empty()) c.viol("nav-options", pos, e);
      };
      tasks.push_back(t);
    }
  } else if (prop == "P20") {
    // ids: some in, some out of the sample of every ratio used
    for (char kind : std::string("st"))
      for (int fmt = 0; fmt < 2; fmt++)
        for (int k : {2, 3, 4, 5, 7, 10}) {
          pool::Task t;
          t.cfg = std::string(kind == 's' ? "spatial" : "temporal") + ";1/" + std::to_string(k) + ";" + (fmt ? "csv" : "oracleGeneral");
          if (!only.empty() && t.cfg.find(only) == std::string::npos) continue;
          int len = deep ? 8 : 6;
          auto ids_of = [=](const std::vector<int> &v) {
            std::vector<uint64_t> pool_ids, r;
            int in = 0, outn = 0;
            for (uint64_t id = 1; pool_ids.size() < 4 && id < 100000; id++) {
              bool m = kind == 's' ? spatial_member(k, id) : id % 2;
              if (m && in < 2) in++, pool_ids.push_back(id);
              if (!m && outn < 2) outn++, pool_ids.push_back(id);
            }
            while (pool_ids.size() < 4) pool_ids.push_back(1000000 + pool_ids.size());
            for (int i : v) r.push_back(pool_ids[i]);
            return r;
          };
          t.run = [=](pool::Ctx &c) {
            pool::Ctx *pc = &c;
            all_sequences(4, 1, len, [&](const std::vector<int> &v) {
              std::string pos = istr(v);
              if (skip(*pc, pos)) return;
              pc->at(pos);
              p20_case(*pc, kind, fmt, k, ids_of(v), pos);
              pc->slot->evals = pc->slot->evals + 1;
              if (v.size() > 1) pc->slot->nontriv = pc->slot->nontriv + 1;
              pool::outcome(pool::hash_str(t.cfg + pos));
            });
            // one long trace
            std::vector<uint64_t> ids;
            for (int i = 0; i < 500; i++) ids.push_back(1 + i * i % 97);
            std::string pos = "long";
            if (!skip(*pc, pos)) {
              pc->at(pos);
              p20_case(*pc, kind, fmt, k, ids, pos);
            }
            pc->sample(t.cfg + ": all traces of up to " + std::to_string(len) + " requests over 4 ids, reset and cloned");
          };
          t.replay = [=](pool::Ctx &c, const std::string &pos) {
            std::vector<uint64_t> ids;
            if (pos == "long")
              for (int i = 0; i < 500; i++) ids.push_back(1 + i * i % 97);
            else ids = ids_of(iparse(pos));
            p20_case(c, kind, fmt, k, ids, pos);
          };
          tasks.push_back(t);
        }
    // every ratio: the share of objects kept, nesting by multiples, every k-th request
    pool::Task t;
    t.cfg = "ratios";
    auto one = [](pool::Ctx &c, int k) {
      std::string pos = std::to_string(k);
      sampler_t *s = create_spatial_sampler(1.0 / k), *u = create_temporal_sampler(1.0 / k);
      request_t *q = new_request();
      // ratios whose inverse is not a whole number in floating point need more objects to tell 1/k from 1/(k-1)
      const int N = k < 110 && 1.0 / (1.0 / k) != k ? std::min(16000000, 40 * k * k * k) : 200000;
      long n = 0;
      for (int i = 0; i < N; i++) {
        q->obj_id = 1000003ull * i + 17;
        q->hv = 0;
        bool a = s->sample(s, q);
        if (i % 64 == 0 && a != s->sample(s, q)) c.viol("ratio", pos, "the same object is kept once and dropped once");
        n += a;
      }
      double e = (double)N / k, sd = (N > 200000 ? 4 : 6) * sqrt(e) + 1;
      if (n < e - sd || n > e + sd) c.viol("ratio", pos, "kept " + std::to_string(n) + " of " + std::to_string(N) + " objects at ratio 1/" + pos);
      for (int i = 1; i <= 3 * k; i++)
        if (u->sample(u, q) != (i % k == 0)) {
          c.viol("ratio", pos, "a temporal sampler of ratio 1/" + pos + " is wrong about request " + std::to_string(i));
          break;
        }
      s->free(s);
      u->free(u);
      free_request(q);
      c.slot->evals = c.slot->evals + 1;
      c.slot->nontriv = c.slot->nontriv + 1;
    };
    t.run = [=](pool::Ctx &c) {
      for (int k = 2; k <= (deep ? 3000 : 400); k++) {
        std::string pos = std::to_string(k);
        if (skip(c, pos)) continue;
        c.at(pos);
        one(c, k);
      }
    };
    t.replay = [=](pool::Ctx &c, const std::string &pos) { one(c, atoi(pos.c_str())); };
    if (only.empty() || t.cfg.find(only) != std::string::npos) tasks.push_back(t);
  }
  int rc = pool::run_or_replay(tasks, out, workers, replay, rcfg, rhist);
  remove_scratch();
  return rc;
}
