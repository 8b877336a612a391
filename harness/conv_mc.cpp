// P15: trace conversion.  Enumerates request sequences (id patterns x record values x formats x options), converts them
// with the real converter and compares the bytes written with an independent computation of every next access; the
// converted file is then read back through the library's readers.
#include <math.h>

#include "reader_common.hpp"

namespace traceConv {
void convert_to_oracleGeneral(reader_t *reader, std::string ofilepath, int sample_ratio, bool output_txt, bool remove_size_change, bool use_lcs_format);
}

static std::string slurp(const std::string &p, bool &ok) {
  std::string s;
  FILE *f = fopen(p.c_str(), "rb");
  ok = f != nullptr;
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
struct Q {
  int64_t time;
  uint64_t id;
  int64_t size, next;
};
struct ConvOpt {
  bool txt = false, nochange = false, lcs = false, zero = false, nosize = false;
  std::string str() const {
    return std::string(lcs ? "lcs" : "bin") + (txt ? " txt" : "") + (nochange ? " nochange" : "") + (zero ? " nozero" : "") + (nosize ? " nosize" : "");
  }
};
// exp: requests of the trace in order (ids: numbers, or classes when ids_free)
static std::string expect(std::vector<Q> exp, const std::string &out, const ConvOpt &o, bool ids_free) {
  std::map<uint64_t, int64_t> first, last;
  int64_t sum_first = 0, sum_last = 0, total_before = 0, total = 0;
  for (auto &q : exp) {
    total_before += q.size;
    if (first.insert({q.id, q.size}).second) sum_first += q.size;
    last[q.id] = q.size;
    if (o.nochange) q.size = first[q.id];
    total += q.size;
  }
  for (auto &p : last) sum_last += p.second;
  std::map<uint64_t, int64_t> nx;
  for (size_t i = exp.size(); i-- > 0;) {
    auto it = nx.find(exp[i].id);
    exp[i].next = it == nx.end() ? -1 : it->second;
    nx[exp[i].id] = i + 1;  // reference counts start with 1
  }
  bool ok;
  std::string d = slurp(out, ok);
  if (!ok) return "no output file";
  size_t head = 0;
  if (o.lcs) {
    if (d.size() < sizeof(lcs_trace_header_t)) return "the output is shorter than its header";
    lcs_trace_header_t h;
    memcpy(&h, d.data(), sizeof h);
    head = sizeof h;
    if (h.start_magic != LCS_TRACE_START_MAGIC || h.end_magic != LCS_TRACE_END_MAGIC) return "header magic";
    if (strnlen(h.format, sizeof h.format) != 5) return "the format string of the header is not <IQIQ but " + std::string(h.format, strnlen(h.format, 20));
    if (h.n_req != (int64_t)exp.size()) return "header: n_req is " + std::to_string(h.n_req) + " of " + std::to_string(exp.size());
    if (h.n_obj != (int64_t)first.size()) return "header: n_obj is " + std::to_string(h.n_obj) + " of " + std::to_string(first.size());
    if (h.n_req_byte != total && h.n_req_byte != total_before) return "header: n_req_byte is " + std::to_string(h.n_req_byte) + " of " + std::to_string(total);
    if (h.n_obj_byte != sum_first && h.n_obj_byte != sum_last) return "header: n_obj_byte is " + std::to_string(h.n_obj_byte) + " of " + std::to_string(sum_first);
    if (h.item_size != 24 || h.n_fields != 4) return "header: record layout";
  }
  if (d.size() != head + 24 * exp.size()) return "the output has " + std::to_string((d.size() - head) / 24.0) + " records of " + std::to_string(exp.size());
  std::map<uint64_t, uint64_t> idmap, back;
  std::string txt;
  for (size_t i = 0; i < exp.size(); i++) {
    uint32_t t, z;
    uint64_t id;
    int64_t n;
    const char *p = d.data() + head + 24 * i;
    memcpy(&t, p, 4), memcpy(&id, p + 4, 8), memcpy(&z, p + 12, 4), memcpy(&n, p + 16, 8);
    std::string at = "record " + std::to_string(i + 1) + " of " + std::to_string(exp.size()) + ": ";
    if (t != (uint32_t)exp[i].time) return at + "time " + std::to_string(t) + ", should be " + std::to_string((uint32_t)exp[i].time);
    if (ids_free) {
      auto a = idmap.insert({exp[i].id, id}), b = back.insert({id, exp[i].id});
      if (a.first->second != id || b.first->second != exp[i].id) return at + "the id does not identify the object";
    } else if (id != exp[i].id) return at + "id " + std::to_string(id) + ", should be " + std::to_string(exp[i].id);
    if (z != (uint32_t)exp[i].size) return at + "size " + std::to_string(z) + ", should be " + std::to_string(exp[i].size);
    if (n != exp[i].next) return at + "next access " + std::to_string(n) + ", should be " + std::to_string(exp[i].next);
    txt += std::to_string(t) + "," + std::to_string(id) + "," + std::to_string(z) + "," + std::to_string(n) + "\n";
  }
  if (o.txt) {
    std::string got = slurp(out + ".txt", ok);
    if (!ok || got != txt) return "the txt output differs from the binary output";
  }
  // read back
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_size_zero_req = false;
  reader_t *r = setup_reader(out.c_str(), o.lcs ? LCS_TRACE : ORACLE_GENERAL_TRACE, &ip);
  request_t *q = new_request();
  std::string e;
  size_t i = 0;
  while (e.empty() && read_one_req(r, q) == 0) {
    if (i >= exp.size()) e = "too many requests";
    else if (q->clock_time != (int64_t)(uint32_t)exp[i].time || (uint32_t)q->obj_size != (uint32_t)exp[i].size ||
             q->obj_id != (ids_free ? idmap[exp[i].id] : exp[i].id)) e = "request " + std::to_string(i + 1) + " differs";
    else if (exp[i].next == -1 ? q->next_access_vtime != -1 && q->next_access_vtime != MAX_REUSE_DISTANCE : q->next_access_vtime != exp[i].next)
      e = "request " + std::to_string(i + 1) + ": next access " + std::to_string(q->next_access_vtime) + ", should be " + std::to_string(exp[i].next);
    i++;
  }
  if (e.empty() && i != exp.size()) e = "only " + std::to_string(i) + " requests";
  if (e.empty() && get_num_of_req(r) != exp.size()) e = "the number of requests is wrong";
  close_reader(r);
  free_request(q);
  return e.empty() ? e : "read back: " + e;
}
static void cleanup(const std::string &out) {
  unlink(out.c_str());
  unlink((out + ".txt").c_str());
  unlink((out + ".reverse").c_str());
}

static std::string case_records(const Fmt &f, const std::vector<int> &idx, const ConvOpt &o, int pre) {
  std::string path = scratch_file(), out = scratch_file("o");
  write_file(path, f.bytes(idx));
  Opt ro;
  ro.zero = o.zero, ro.nosize = o.nosize;
  reader_t *r = open_reader(f, path, ro);
  request_t *q = new_request();
  if (pre & 1) get_num_of_req(r);
  if (pre & 2) read_one_req(r, q);
  // two readings of "the same requests" when size-zero requests are filtered: either is self-consistent
  std::string e;
  traceConv::convert_to_oracleGeneral(r, out, 1, o.txt, o.nochange, o.lcs);
  for (int filtered = o.zero ? 1 : 0; filtered >= 0; filtered--) {
    std::vector<Q> exp;
    std::map<std::string, uint64_t> cls;
    for (auto *rec : expected(f, idx, ro, filtered)) {
      Q x;
      x.time = rec->mask >> F_TIME & 1 ? rec->f[F_TIME] : 0;
      x.id = f.one_id ? cls.insert({rec->text, cls.size() + 1}).first->second : rec->f[F_ID];
      x.size = o.nosize || !(rec->mask >> F_SIZE & 1) ? 1 : (uint32_t)rec->f[F_SIZE];
      exp.push_back(x);
    }
    if (exp.empty()) continue;
    e = expect(exp, out, o, f.one_id);
    if (e.empty()) break;
  }
  cleanup(out);
  close_reader(r);
  free_request(q);
  return e;
}
// id patterns: v[i] is the object of request i; sizes change with every request when vary
static std::string case_pattern(int fmt, const std::vector<int> &v, int vary, const ConvOpt &o) {
  std::string path = scratch_file(), out = scratch_file("o"), d;
  std::vector<Q> exp;
  const uint64_t ID[] = {0, 1, 0xffffffffffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 12345678901ull, 2, 3, 4, 5};
  for (size_t i = 0; i < v.size(); i++) {
    Q q;
    q.time = 10 + i * i;
    q.id = v[i] < 10 ? ID[v[i]] : v[i];
    q.size = vary ? 100 * (v[i] + 1) + (vary == 2 ? i : 0) : 7;
    if (v[i] == 1) q.size += 0xfffffff0u - 2000;
    exp.push_back(q);
    if (fmt == 0) put(d, (uint32_t)q.time), put(d, q.id), put(d, (uint32_t)q.size), put(d, (int64_t)-1);
    else d += std::to_string(q.time) + "," + std::to_string(q.id) + "," + std::to_string(q.size) + "\n";
  }
  write_file(path, d);
  reader_init_param_t ip = default_reader_init_params();
  if (fmt) ip.time_field = 1, ip.obj_id_field = 2, ip.obj_size_field = 3, ip.has_header_set = true, ip.obj_id_is_num = true;
  reader_t *r = setup_reader(path.c_str(), fmt ? CSV_TRACE : ORACLE_GENERAL_TRACE, &ip);
  traceConv::convert_to_oracleGeneral(r, out, 1, o.txt, o.nochange, o.lcs);
  std::string e = expect(exp, out, o, false);
  cleanup(out);
  close_reader(r);
  return e;
}
// sampled conversion: the requests a sampled forward read returns
static std::string case_sampled(const std::vector<int> &v, int k, const ConvOpt &o) {
  std::string path = scratch_file(), out = scratch_file("o"), d;
  for (size_t i = 0; i < v.size(); i++) put(d, (uint32_t)(i + 1)), put(d, (uint64_t)v[i] * 7919 + 3), put(d, (uint32_t)(v[i] + 1)), put(d, (int64_t)-1);
  write_file(path, d);
  reader_init_param_t ip = default_reader_init_params();
  ip.sampler = create_spatial_sampler(1.0 / k);
  reader_t *r = setup_reader(path.c_str(), ORACLE_GENERAL_TRACE, &ip);
  request_t *q = new_request();
  std::vector<Q> exp;
  while (read_one_req(r, q) == 0) exp.push_back({q->clock_time, q->obj_id, q->obj_size, 0});
  free_request(q);
  std::string e;
  if (!exp.empty()) {
    reset_reader(r);
    traceConv::convert_to_oracleGeneral(r, out, 1, o.txt, o.nochange, o.lcs);
    e = expect(exp, out, o, false);
    cleanup(out);
  }
  close_reader(r);
  return e;
}

int main(int argc, char **argv) {
  std::string prop = "P15", tier = "quick", out = "/dev/stdout", rcfg, rhist, only;
  int workers = 8;
  bool replay = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") {
      replay = true;
      rcfg = argv[++i];
      rhist = argv[++i];
    }
  }
  bool deep = tier == "thorough";
  if (!make_scratch()) return 3;
  std::vector<pool::Task> tasks;
  auto skip = [](pool::Ctx &c, const std::string &pos) {
    if (c.resume.empty()) return false;
    if (c.resume == pos) c.resume.clear();
    return true;
  };
  typedef std::function<std::string(const std::vector<int> &)> One;
  typedef std::function<void(std::function<void(const std::vector<int> &)>)> Gen;
  auto add = [&](const std::string &cfg, Gen gen, One one, std::string sample) {
    if (!only.empty() && cfg.find(only) == std::string::npos) return;
    pool::Task t;
    t.cfg = cfg;
    auto run1 = [=](pool::Ctx &c, const std::vector<int> &v, const std::string &pos) {
      std::string e = one(v);
      if (!e.empty()) c.viol("conversion", pos, e);
    };
    t.run = [=](pool::Ctx &c) {
      size_t n = 0;
      gen([&](const std::vector<int> &v) {
        std::string pos;
        for (int x : v) pos += (pos.empty() ? "" : " ") + std::to_string(x);
        if (v.size() > 100) pos = "long" + std::to_string(v.size());
        if (skip(c, pos)) return;
        c.at(pos);
        run1(c, v, pos);
        n++;
        c.slot->evals = c.slot->evals + 1;
        c.slot->ops = c.slot->ops + v.size();
        if (std::set<int>(v.begin(), v.end()).size() < v.size()) c.slot->nontriv = c.slot->nontriv + 1;
        pool::outcome(pool::hash_str(cfg + pos));
      });
      if (pool::hash_str(cfg) % 5 == 0) c.sample(cfg + ": " + sample + ", " + std::to_string(n) + " traces");
    };
    t.replay = [=](pool::Ctx &c, const std::string &pos) {
      if (pos.compare(0, 4, "long") == 0) {
        gen([&](const std::vector<int> &v) {
          if ("long" + std::to_string(v.size()) == pos) run1(c, v, pos);
        });
        return;
      }
      std::vector<int> v;
      for (const char *p = pos.c_str(); *p;) {
        char *e;
        v.push_back(strtol(p, &e, 10));
        p = e;
      }
      run1(c, v, pos);
    };
    tasks.push_back(t);
  };
  // ids up to renaming (restricted growth strings)
  auto rgs = [](int lo, int hi, int maxid) {
    return [=](std::function<void(const std::vector<int> &)> f) {
      std::vector<int> v;
      std::function<void(int)> rec = [&](int used) {
        if ((int)v.size() >= lo) f(v);
        if ((int)v.size() == hi) return;
        for (int s = 0; s <= used && s < maxid; s++) {
          v.push_back(s);
          rec(std::max(used, s + 1));
          v.pop_back();
        }
      };
      rec(0);
    };
  };
  for (int fmt = 0; fmt < 2; fmt++)
    for (int m = 0; m < 8; m++)
      for (int vary = 0; vary < 3; vary++) {
        ConvOpt o;
        o.txt = m & 1, o.lcs = m & 2, o.nochange = m & 4;
        if (vary == 0 && o.nochange) continue;
        if (fmt == 1 && (o.txt || o.lcs)) continue;
        add(std::string("pattern ") + (fmt ? "csv" : "oracleGeneral") + " size" + std::to_string(vary) + " " + o.str(), rgs(1, deep ? 10 : 8, 10),
            [=](const std::vector<int> &v) { return case_pattern(fmt, v, vary, o); }, "every pattern of ids up to renaming");
      }
  for (int k : {2, 3, 5})
    for (int lcs = 0; lcs < 2; lcs++) {
      ConvOpt o;
      o.lcs = lcs;
      add("sampled 1/" + std::to_string(k) + " " + o.str(),
          [=](std::function<void(const std::vector<int> &)> f) {
            all_sequences(5, 1, deep ? 7 : 5, [&](const std::vector<int> &v) { f(v); });
            std::vector<int> l;
            for (int i = 0; i < 3000; i++) l.push_back(i * i % 173);
            f(l);
          },
          [=](const std::vector<int> &v) { return case_sampled(v, k, o); }, "every trace over 5 objects");
    }
  // every format
  std::vector<Fmt> fs = fixed_formats();
  fs.push_back(fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, false));
  fs.push_back(fmt_string_format("BQIH", {-1, F_ID, F_SIZE, F_OP}, true));
  fs.push_back(fmt_string_format("HIBQ", {F_OP, F_TIME, -1, F_ID}, true));
  for (auto &f : text_formats()) fs.push_back(f);
  for (auto &f : fs)
    for (int m = 0; m < 4; m++) {
      ConvOpt o;
      int pre = m;
      if (m == 1) o.lcs = true;
      if (m == 2) o.zero = true;
      if (m == 3) o.nosize = true, o.txt = true;
      if (has_counts(f) && o.zero) continue;
      int len = has_counts(f) ? 4 : deep ? 4 : 3;
      if (f.min_rec > len) len = f.min_rec;
      bool drop = o.zero && !f.own_zero;
      add("format " + f.name + " " + o.str(),
          [=](std::function<void(const std::vector<int> &)> g) {
            all_sequences(f.recs.size(), std::max(1, f.min_rec), len, [&](const std::vector<int> &v) {
              bool any = false;
              for (int i : v) {
                if (drop && (f.recs[i].mask >> F_SIZE & 1) && f.recs[i].f[F_SIZE] == 0) return;
                if (f.recs[i].f[F_SIZE] > 0xffffffffll || f.recs[i].f[F_SIZE] < 0) return;  // the output has 32-bit sizes
                any = any || !(o.zero && f.recs[i].zero);
              }
              if (any) g(v);
            });
            std::vector<int> l;
            for (int i = 0; i < 700; i++) {
              int k = i * i % 11 % (int)f.recs.size();
              if (f.recs[k].f[F_SIZE] > 0xffffffffll || f.recs[k].f[F_SIZE] < 0 || f.recs[k].zero || ((f.recs[k].mask >> F_SIZE & 1) && f.recs[k].f[F_SIZE] == 0)) k = 0;
              l.push_back(k);
            }
            g(l);
          },
          [=](const std::vector<int> &v) { return case_records(f, v, o, pre); }, "every sequence of its records");
    }
  int rc = pool::run_or_replay(tasks, out, workers, replay, rcfg, rhist);
  remove_scratch();
  return rc;
}
