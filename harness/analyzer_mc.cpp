// P24: every short trace analysed by the real TraceAnalyzer, and by the real program; all it reports is recounted from the trace.
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include "reader_common.hpp"
#include "seqmc.hpp"
#include "traceAnalyzer/analyzer.h"
using seqmc::Seq;
static std::string num(int64_t x) { return std::to_string(x); }

struct R {
  int64_t t;
  uint64_t id;
  int64_t size;
  int op = 0, ttl = 0;
};
typedef std::vector<R> Trace;
enum Fmt2 { GEN, TWR, CSV, TXT };
struct P {
  Fmt2 fmt = GEN;
  bool rate = true, access = true, size = true, reuse = true, pop = true, ttl = false, decay = true;
  int w = 300, warm = 86400, nhit = 8, npop = 8, inv = 101;
  bool zero = false;  // requests of size zero are dropped by the reader
  int64_t cap = -1;
};

static std::string encode(const Trace &t, Fmt2 f) {
  std::string s;
  for (auto &r : t) switch (f) {
      case GEN: put(s, (uint32_t)r.t), put(s, r.id), put(s, (uint32_t)r.size), put(s, (int64_t)-1); break;
      case TWR: put(s, (uint32_t)r.t), put(s, r.id), put(s, (uint32_t)r.size), put(s, (uint32_t)r.op << 24 | (uint32_t)r.ttl); break;
      case CSV: s += num(r.t) + "," + std::to_string(r.id) + "," + num(r.size) + "\n"; break;
      case TXT: s += std::to_string(r.id) + "\n"; break;
    }
  return s;
}
static std::string slurp(const std::string &p, bool *ok = nullptr) {
  std::string s;
  FILE *f = fopen(p.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
static std::vector<std::string> lines_of(const std::string &s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
// text and numbers; numbers with a fraction are compared with the precision they are printed with
static bool same_line(const std::string &a, const std::string &b) {
  const char *p = a.c_str(), *q = b.c_str();
  while (*p || *q) {
    auto isnum = [](const char *c) { return isdigit(*c) || (*c == '-' && isdigit(c[1])); };
    if (isnum(p) && isnum(q)) {
      char *e, *g;
      double x = strtod(p, &e), y = strtod(q, &g);
      bool frac = memchr(p, '.', e - p) || memchr(q, '.', g - q) || memchr(p, 'e', e - p) || memchr(q, 'e', g - q);
      if (frac ? fabs(x - y) > 1.01e-4 * std::max(1.0, std::max(fabs(x), fabs(y)) * 0.01) : strtoll(p, nullptr, 10) != strtoll(q, nullptr, 10)) return false;
      p = e, q = g;
      continue;
    }
    if (*p != *q) return false;
    p++, q++;
  }
  return true;
}
typedef std::map<int64_t, int64_t> Hist;
static bool parse_hist(const std::string &l, Hist &h) {
  char *e;
  int64_t k = strtoll(l.c_str(), &e, 10);
  if (*e != ':' || h.count(k)) return false;
  h[k] = strtoll(e + 1, &e, 10);
  return *e == 0;
}
static std::string show(const Hist &h) {
  std::string s;
  for (auto &x : h) s += (s.empty() ? "" : " ") + num(x.first) + ":" + num(x.second);
  return "{" + s + "}";
}
// a file of histograms, each after its comment
static std::string hists(const std::string &file, const std::vector<Hist> &want, const char *what) {
  bool ok;
  std::string d = slurp(file, &ok);
  if (!ok) return std::string(what) + ": no file";
  std::vector<Hist> got;
  bool comment = false;
  for (auto &l : lines_of(d)) {
    if (l.empty()) continue;
    if (l[0] == '#') {
      if (l.find(':') != std::string::npos && l.find('/') == std::string::npos) got.push_back({});
      comment = true;
      continue;
    }
    if (got.empty() || !parse_hist(l, got.back())) return std::string(what) + ": line " + l;
  }
  if (got.size() != want.size()) return std::string(what) + ": " + num(got.size()) + " sections";
  for (size_t i = 0; i < want.size(); i++)
    if (got[i] != want[i]) return std::string(what) + ": section " + num(i + 1) + " is " + show(got[i]) + ", counted are " + show(want[i]);
  return "";
}
typedef std::vector<int64_t> Row;
static Row row_of(const std::string &l, bool &ok) {
  Row r;
  const char *p = l.c_str();
  while (*p && ok) {
    char *e;
    r.push_back(strtoll(p, &e, 10));
    if (e == p || *e != ',') ok = false;
    p = e + 1;
  }
  return r;
}
static Row trim(Row r) {
  while (!r.empty() && r.back() == 0) r.pop_back();
  return r;
}
static std::string showr(const Row &r) {
  std::string s;
  for (auto x : r) s += num(x) + ",";
  return "[" + s + "]";
}
static bool rows(const std::string &file, std::vector<Row> &v, bool keep_empty = true) {
  bool ok;
  std::string d = slurp(file, &ok);
  for (auto &l : lines_of(d))
    if (ok && (l.empty() || l[0] != '#') && (keep_empty || !l.empty())) v.push_back(row_of(l, ok));
  return ok;
}
// one row per window, rows without trailing zeros; the last, unfinished, window may be left out
static std::string windows(const std::string &file, const std::vector<Row> &want, const char *what) {
  std::vector<Row> got;
  if (!rows(file, got)) return std::string(what) + ": unreadable";
  if (got.size() != want.size() && got.size() + 1 != want.size()) return std::string(what) + ": " + num(got.size()) + " windows, the trace has " + num(want.size());
  for (size_t i = 0; i < got.size(); i++)
    if (trim(got[i]) != trim(want[i])) return std::string(what) + ": window " + num(i + 1) + " is " + showr(got[i]) + ", counted are " + showr(want[i]);
  return "";
}

static std::string verify(const Trace &all, const P &p, const std::string &trace_path, const std::string &base, const std::string &stat) {
  Trace t;
  for (auto &r : all)
    if (!(p.zero && r.size == 0) && (p.cap <= 0 || (int64_t)t.size() < p.cap)) t.push_back(r);
  if (p.fmt != TWR)
    for (auto &r : t) r.op = OP_INVALID, r.ttl = 0;  // not in these formats
  if (t.empty()) {
    for (auto &l : lines_of(stat))
      if (l.compare(0, 20, "number of requests: ") == 0 && atoll(l.c_str() + 20) != 0) return "an empty trace is reported with: " + l;
    return "";
  }
  int64_t t0 = t[0].t, n = t.size();
  struct O {
    int64_t first_t, last_t, last_i, first_size, freq = 0;
    Row rt, vt;
  };
  std::map<uint64_t, O> m;
  int64_t nw = (t.back().t - t0) / p.w + 1, overwrite = 0;
  std::vector<int64_t> ops(OP_INVALID + 1);
  Hist ttl, size_req, size_obj, reuse_r, reuse_v;
  Row w_req(nw), w_byte(nw), w_obj(nw), w_new(nw);
  std::vector<Row> ws_req(nw), ws_obj(nw), wr_r(nw), wr_v(nw), dec(nw);
  double sum_req = 0, sum_obj = 0;
  int64_t isum_req = 0, isum_obj = 0;
  auto inc = [](Row &r, size_t i) {
    if (r.size() <= i) r.resize(i + 1);
    r[i]++;
  };
  int shift = p.decay ? p.warm / p.w : 0;
  int64_t last_new = -1;  // window of the last request of an object created after the warm-up
  for (int64_t i = 0; i < n; i++) {
    const R &r = t[i];
    int64_t rt = r.t - t0, w = rt / p.w;
    bool fresh = !m.count(r.id);
    O &o = m[r.id];
    bool first_in_w = fresh || (o.last_t) / p.w != w;
    if (fresh) o.first_t = rt, o.first_size = r.size, isum_obj += r.size, size_obj[r.size]++, reuse_r[-1]++, reuse_v[-1]++;
    else {
      if (r.op == OP_SET || r.op == OP_REPLACE || r.op == OP_CAS) overwrite++;
      int64_t dr = (rt - o.last_t) / 5, dv = (int64_t)(log((double)(i - o.last_i)) / log(1.5));
      reuse_r[dr]++, reuse_v[dv]++;
      inc(wr_r[w], dr), inc(wr_v[w], dv);
    }
    o.last_t = rt, o.last_i = i, o.freq++;
    o.rt.push_back(rt), o.vt.push_back(i + 1);
    isum_req += r.size;
    ops[r.op]++;
    if (r.ttl > 0) ttl[r.ttl]++;
    size_req[r.size]++;
    int pos = r.size > 1 ? (int)(log((double)r.size) / log(1.5)) : 0;
    inc(ws_req[w], pos);
    if (first_in_w) inc(ws_obj[w], pos), w_obj[w]++;
    w_req[w]++, w_byte[w] += r.size, w_new[w] += fresh;
    int64_t cw = o.first_t / p.w;
    if (rt >= p.warm && cw >= shift) {
      last_new = w;
      if (first_in_w) inc(dec[w], cw - shift);
    }
  }
  int64_t nobj = m.size();
  sum_req = isum_req, sum_obj = isum_obj;
  std::vector<int64_t> freq;
  for (auto &x : m) freq.push_back(x.second.freq);
  std::sort(freq.rbegin(), freq.rend());
  // ---- the statistics
  std::vector<std::string> L = lines_of(stat);
  auto line = [&](const std::string &start) -> const std::string * {
    for (auto &l : L)
      if (l.compare(0, start.size(), start) == 0) return &l;
    return nullptr;
  };
  auto expect = [&](const std::string &start, const std::string &rest) -> std::string {
    const std::string *l = line(start);
    if (!l) return "no line \"" + start + "\"";
    if (!same_line(*l, start + rest)) return "\"" + *l + "\", should be \"" + start + rest + "\"";
    return "";
  };
  std::string e;
  auto f4 = [](double x) {
    char b[400];
    snprintf(b, sizeof b, "%.4f", x);
    return std::string(b);
  };
#define WANT(start, rest)                  \
  do {                                     \
    e = expect(start, rest);               \
    if (!e.empty()) return e;              \
  } while (0)
  if (!line("dat: " + trace_path)) return "the trace's name is not reported";
  WANT("number of requests: ", num(n) + ", number of objects: " + num(nobj));
  WANT("number of req GiB: ", f4(sum_req / (1 << 30)) + ", number of obj GiB: " + f4(sum_obj / (1 << 30)));
  if (isum_req > 0) WANT("compulsory miss ratio (req/byte): ", f4((double)nobj / n) + "/" + f4(sum_obj / sum_req));
  WANT("object size weighted by req/obj: ", num(isum_req / n) + "/" + num(isum_obj / nobj));
  WANT("frequency mean: ", f4((double)n / nobj));
  int64_t span = t.back().t - t0;
  WANT("time span: ", num(span) + "(" + f4((double)span / 86400) + " day)");
  auto share = [&](int64_t x, double of) { return num(x) + "(" + f4(x / of) + "), "; };
  if (n > 1 || line("op: ")) {
    std::string s;
    for (int i = 0; i <= OP_INVALID; i++) s += std::string(req_op_str[i]) + ":" + share(ops[i], n);
    if (ops[OP_INVALID] * 2 < n - 1) WANT("op: ", s);
    else if (line("op: ")) WANT("op: ", s);
  }
  int64_t wr = ops[OP_SET] + ops[OP_REPLACE] + ops[OP_CAS], del = ops[OP_DELETE];
  WANT("write: ", share(wr, n) + "overwrite: " + share(overwrite, n) + "del:" + num(del) + "(" + f4((double)del / n) + ")");
  if (p.ttl) {
    int64_t nt = 0;
    for (auto &x : ttl) nt += x.second;
    if (ttl.size() > 1) {
      const std::string *l = line("TTL: ");
      if (!l) return "the TTLs are not reported";
      if (atoll(l->c_str() + 5) != (int64_t)ttl.size()) return "\"" + *l + "\": there are " + num(ttl.size()) + " TTLs";
      for (auto &x : ttl)
        if (x.second > nt / 50 && l->find(" " + num(x.first) + ":" + num(x.second) + "(") == std::string::npos) return "\"" + *l + "\": TTL " + num(x.first) + " has " + num(x.second) + " requests";
    }
    e = hists(base + ".ttl", {ttl}, "TTL file");
    if (!e.empty()) return e;
  }
  if (p.rate) {
    Row *rw[4] = {&w_req, &w_byte, &w_obj, &w_new};
    std::vector<Row> got;
    if (!rows(base + ".reqRate_w" + num(p.w), got) || got.size() != 4) return "request rate: unreadable";
    static const char *nm[] = {"request", "byte", "object", "first seen object"};
    size_t have = got[0].size();
    if (have != (size_t)nw && have + 1 != (size_t)nw) return "request rate: " + num(have) + " windows, the trace has " + num(nw);
    for (int k = 0; k < 4; k++) {
      if (got[k].size() != have) return std::string(nm[k]) + " rate: " + num(got[k].size()) + " windows";
      for (size_t i = 0; i < have; i++)
        if (got[k][i] != (*rw[k])[i] / p.w) return std::string(nm[k]) + " rate: window " + num(i + 1) + " has " + num(got[k][i]) + ", counted are " + num((*rw[k])[i]) + " in " + num(p.w) + " s";
    }
    if (have) {
      auto mm = [&](const Row &r, double &lo, double &hi) {
        lo = *std::min_element(r.begin(), r.begin() + have) / (double)p.w, hi = *std::max_element(r.begin(), r.begin() + have) / (double)p.w;
      };
      double lo, hi;
      mm(w_req, lo, hi);
      WANT("request rate min ", f4(lo) + " req/s, max " + f4(hi) + " req/s, window " + num(p.w) + "s");
      mm(w_obj, lo, hi);
      WANT("object rate min ", f4(lo) + " obj/s, max " + f4(hi) + " obj/s, window " + num(p.w) + "s");
    }
  }
  if (p.pop) {
    if (nobj < 200) WANT("popularity: too few objects (", num(nobj) + "), skip the popularity computation");
    else if (freq[0] < 200) {
      const std::string *l = line("popularity: the most popular object has ");
      if (!l || atoll(l->c_str() + 40) != freq[0]) return "popularity: the most popular object has " + num(freq[0]) + " requests";
    } else {
      double sx = 0, sy = 0, sxx = 0, sxy = 0;
      for (int64_t i = 0; i < nobj; i++) {
        double x = log(i + 1.0), y = log((double)freq[i]);
        sx += x, sy += y, sxx += x * x, sxy += x * y;
      }
      double slope = -(nobj * sxy - sx * sy) / (nobj * sxx - sx * sx);
      const std::string st = "popularity: Zipf linear fitting slope=", *l = line(st);
      if (!l || fabs(atof(l->c_str() + st.size()) - slope) > 1.01e-4) return "popularity: " + (l ? *l : "no line") + ", the slope is " + f4(slope);
    }
    Hist h;
    for (auto f : freq) h[f]++;
    e = hists(base + ".popularity", {h}, "popularity file");
    if (!e.empty()) return e;
    int64_t last = INT64_MAX;
    for (auto &l : lines_of(slurp(base + ".popularity")))
      if (isdigit(l[0])) {
        if (atoll(l.c_str()) > last) return "popularity file: not sorted";
        last = atoll(l.c_str());
      }
  }
  {
    std::string s;
    for (int i = 1; i <= p.nhit; i++) s += share(std::count(freq.begin(), freq.end(), i), nobj);
    WANT("X-hit (number of obj accessed X times): ", s);
    const std::string st = "freq (fraction) of the most popular obj: ", *l = line(st);
    std::string a, b;
    for (int i = 0; i < p.npop; i++) {
      if (i < nobj) a += share(freq[i], n);
      b += share(i < nobj ? freq[i] : 0, n);
    }
    if (!l) {
      if (p.npop > 0) return "the most popular objects are not reported";
    } else if (!same_line(*l, st + a) && !same_line(*l, st + b))
      return "\"" + *l + "\", should be \"" + st + b + "\"";
  }
  // ---- the other files
  if (p.size) {
    e = hists(base + ".size", {size_req, size_obj}, "size file");
    if (e.empty()) e = windows(base + ".sizeWindow_w" + num(p.w) + "_req", ws_req, "requests of a size per window");
    if (e.empty()) e = windows(base + ".sizeWindow_w" + num(p.w) + "_obj", ws_obj, "objects of a size per window");
    if (!e.empty()) return e;
  }
  if (p.reuse) {
    e = hists(base + ".reuse", {reuse_r, reuse_v}, "reuse file");
    if (e.empty()) e = windows(base + ".reuseWindow_w" + num(p.w) + "_rt", wr_r, "reuse time per window");
    if (e.empty()) e = windows(base + ".reuseWindow_w" + num(p.w) + "_vt", wr_v, "reuse virtual time per window");
    if (!e.empty()) return e;
  }
  if (p.access)
    for (int v = 0; v < 2; v++) {
      const char *what = v ? "access pattern (virtual time)" : "access pattern (real time)";
      std::vector<Row> got;
      if (!rows(base + (v ? ".accessVtime" : ".accessRtime"), got, false)) return std::string(what) + ": unreadable";
      std::multiset<Row> left;
      for (auto &x : m) left.insert(v ? x.second.vt : x.second.rt);
      int64_t last = -1;
      for (auto &r : got) {
        auto it = left.find(r);
        if (it == left.end()) return std::string(what) + ": no object is requested at the times " + showr(r);
        left.erase(it);
        if (r[0] < last) return std::string(what) + ": the objects are not in the order of their first requests";
        last = r[0];
      }
      if (p.inv == 1 && !left.empty()) return std::string(what) + ": the object requested at the times " + showr(*left.begin()) + " is missing";
    }
  if (p.decay) {
    std::vector<Row> got;
    if (!rows(base + ".popularityDecay_w" + num(p.w) + "_obj", got)) return "popularity decay: unreadable";
    int64_t first = shift - (p.warm > 0);  // the window of the first row, which is zero when there is a warm-up
    for (size_t i = 0; i < got.size(); i++) {
      int64_t w = first + i;
      if (w >= nw) return "popularity decay: " + num(got.size()) + " windows";
      Row want = w >= shift ? dec[w] : Row();
      if (trim(got[i]) != trim(want)) return "popularity decay: window " + num(w + 1) + " is " + showr(got[i]) + ", counted are " + showr(want);
    }
    if (last_new >= 0 && first + (int64_t)got.size() < last_new) return "popularity decay: " + num(got.size()) + " windows, expected " + num(last_new - first);
  }
  return "";
}

static const char *SUFFIX[] = {".ttl", ".popularity", ".size", ".reuse", ".accessRtime", ".accessVtime"};
static const char *WSUFFIX[][2] = {{".reqRate_w", ""}, {".sizeWindow_w", "_req"}, {".sizeWindow_w", "_obj"}, {".reuseWindow_w", "_rt"}, {".reuseWindow_w", "_vt"}, {".popularityDecay_w", "_obj"}};
static void clean(const std::string &base, int w) {
  for (auto s : SUFFIX) unlink((base + s).c_str());
  for (auto &s : WSUFFIX) unlink((base + s[0] + num(w) + s[1]).c_str());
}
static std::string my_dir() {
  static pid_t who = 0;
  static std::string d;
  if (who != getpid()) {
    who = getpid();
    d = g_dir + "/d" + num(who);
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) _exit(92);
  }
  return d;
}
static reader_t *open_trace(const P &p, const std::string &path) {
  reader_init_param_t i;
  set_default_reader_init_params(&i);
  i.ignore_size_zero_req = p.zero;
  i.ignore_obj_size = false;
  i.cap_at_n_req = p.cap;
  if (p.fmt == CSV) i.time_field = 1, i.obj_id_field = 2, i.obj_size_field = 3, i.delimiter = ',', i.has_header_set = true, i.has_header = false, i.obj_id_is_num = true;
  if (p.fmt == TXT) i.obj_id_is_num = true;
  return setup_reader(path.c_str(), p.fmt == GEN ? ORACLE_GENERAL_TRACE : p.fmt == TWR ? TWR_TRACE : p.fmt == CSV ? CSV_TRACE : PLAIN_TXT_TRACE, &i);
}
static std::string run(const Trace &t, const P &p) {
  std::string d = my_dir(), path = d + "/t", base = d + "/o";
  write_file(path, encode(t, p.fmt));
  unlink("stat");
  clean(base, p.w);
  reader_t *r = open_trace(p, path);
  traceAnalyzer::analysis_option_t o = traceAnalyzer::default_option();
  o.req_rate = p.rate, o.access_pattern = p.access, o.size = p.size, o.reuse = p.reuse, o.popularity = p.pop, o.ttl = p.ttl, o.popularity_decay = p.decay;
  traceAnalyzer::analysis_param_t a = traceAnalyzer::default_param();
  a.time_window = p.w, a.warmup_time = p.warm, a.track_n_hit = p.nhit, a.track_n_popular = p.npop, a.access_pattern_sample_ratio_inv = p.inv;
  std::string s;
  {
    traceAnalyzer::TraceAnalyzer *x = new traceAnalyzer::TraceAnalyzer(r, base, o, a);
    x->run();
    std::ostringstream ss;
    ss << *x;
    s = ss.str();
    delete x;
  }
  close_reader(r);
  std::string e = verify(t, p, path, base, s);
  if (e.empty() && !t.empty()) {
    e = verify(t, p, path, base, slurp("stat"));
    if (!e.empty()) e = "file stat: " + e;
  }
  return e;
}

// ---- the program
static std::string g_bin;
struct Cmd {
  std::vector<std::string> args;
  P p;
  std::string ofile;
};
static std::string run_cli(const Trace &t, const Cmd &k) {
  std::string d = my_dir(), path = d + "/trace.bin", base = d + "/" + (k.ofile.empty() ? "trace.bin" : k.ofile);
  write_file(path, encode(t, k.p.fmt));
  unlink("stat"), unlink("traceStat"), unlink("out");
  clean(base, k.p.w);
  std::vector<std::string> a = {"traceAnalyzer", path, k.p.fmt == GEN ? "oracleGeneral" : k.p.fmt == TWR ? "twr" : k.p.fmt == CSV ? "csv" : "txt"};
  if (k.p.fmt == CSV) a.insert(a.end(), {"-t", "time-col=1, obj-id-col=2, obj-size-col=3, delimiter=,, has-header=false, obj-id-is-num=true"});
  a.insert(a.end(), k.args.begin(), k.args.end());
  std::vector<char *> av;
  for (auto &x : a) av.push_back((char *)x.c_str());
  av.push_back(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open("out", O_WRONLY | O_CREAT | O_TRUNC, 0600), nul = open("/dev/null", O_RDWR);
    dup2(nul, 0), dup2(fd, 1), dup2(nul, 2);
    alarm(60);
    execv(g_bin.c_str(), av.data());
    _exit(99);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "the program does not finish" : "the program dies with signal " + num(WTERMSIG(st));
  if (WEXITSTATUS(st)) return "the program exits with status " + num(WEXITSTATUS(st));
  std::string e = verify(t, k.p, path, base, slurp("out"));
  if (e.empty() && !t.empty())
    for (const char *f : {"stat", "traceStat"}) {
      e = verify(t, k.p, path, base, slurp(f));
      if (!e.empty()) return std::string("file ") + f + ": " + e;
    }
  return e;
}

int main(int argc, char **argv) {
  seqmc::Args a(argc, argv, "P24");
  if (!make_scratch()) return 3;
  g_bin = std::string(argv[0]).substr(0, std::string(argv[0]).rfind('/')) + "/bin/traceAnalyzer";
  if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) return 3;
  seqmc::Suite s(a);
  s.kind = "analysis";
  int more = a.deep ? 1 : 0;
  // symbols: object x time step
  struct Sym {
    std::vector<uint64_t> ids;
    std::vector<int64_t> steps, sizes = {0};
    std::vector<int> ops = {0}, ttls = {0};
    int64_t t0 = 1000;
    int n() const { return ids.size() * steps.size() * sizes.size() * ops.size() * ttls.size(); }
    Trace trace(const Seq &w) const {
      Trace t;
      int64_t now = t0;
      for (size_t i = 0; i < w.size(); i++) {
        int x = w[i];
        R r;
        r.id = ids[x % ids.size()], x /= ids.size();
        if (i) now += steps[x % steps.size()];
        x /= steps.size();
        r.t = now;
        r.size = sizes[x % sizes.size()], x /= sizes.size();
        if (!r.size) r.size = 3 + 10 * (r.id % 7) + 100 * ((i * i) % 3);
        r.op = ops[x % ops.size()], x /= ops.size();
        r.ttl = ttls[x % ttls.size()];
        t.push_back(r);
      }
      return t;
    }
  };
  auto add = [&](const std::string &name, const P &p, const Sym &y, int lo, int hi) {
    s.add(name, seqmc::words(y.n(), lo, hi), [=](const Seq &w) { return run(y.trace(w), p); }, "requests", hi > 4 ? 8 : 2);
  };
  for (int w : {1, 2, 10, 300})
    for (int warm : {0, 1, 2}) {
      P p;
      p.w = w;
      p.warm = warm * w;
      p.inv = 1;
      Sym y;
      y.ids = {1, 2, 3};
      y.steps = w == 1 ? std::vector<int64_t>{0, 1, 2, 5} : w == 2 ? std::vector<int64_t>{0, 1, 2, 3} : std::vector<int64_t>{0, w / 2, w - 1, w, w + 1};
      if (warm != 1 && w > 2) y.steps = {0, w - 1, w, 3 * w + 1};
      if (warm == 2) y.ids = {1, 2};
      add("window " + num(w) + " warm-up " + num(p.warm), p, y, 1, (warm == 2 ? 5 : 4) + more);
    }
  {  // longer, fewer symbols
    P p;
    p.w = 10, p.warm = 10, p.inv = 1;
    Sym y;
    y.ids = {5, 1ull << 40 | 5};
    y.steps = {0, 10};
    add("two steps", p, y, 5, 7 + more);
    y.ids = {0, UINT64_MAX, 7};
    y.steps = {4};
    add("one step", p, y, 4, 8 + more);
  }
  {  // sizes
    P p;
    p.w = 10, p.warm = 0;
    Sym y;
    y.ids = {1, 2};
    y.steps = {0, 10};
    y.sizes = {1, 2, 700, 4294967295};
    add("sizes", p, y, 1, 3 + more);
    p.fmt = CSV;
    y.sizes = {1, 5000000000, 4294967297, 4294967296};
    add("sizes beyond 32 bits", p, y, 1, 3 + more);
    y.sizes = {1, 700};
    y.t0 = 5000000000;
    y.steps = {0, 1, 10};
    add("times beyond 32 bits", p, y, 1, 3 + more);
    p.zero = true;
    y.t0 = 7;
    y.steps = {0, 10};
    y.sizes = {-1, 700};  // -1: zero
    s.add("requests of size zero are dropped", seqmc::words(y.n(), 1, 5),
          [=](const Seq &w) {
            Trace t = y.trace(w);
            for (auto &r : t)
              if (r.size < 0) r.size = 0;
            return run(t, p);
          }, "requests");
  }
  for (int64_t cap : {1, 2, 4}) {
    P p;
    p.w = 10, p.warm = 10, p.cap = cap;
    Sym y;
    y.ids = {1, 2};
    y.steps = {0, 10};
    add("cap " + num(cap), p, y, 1, 5);
  }
  {  // operations and TTLs
    P p;
    p.fmt = TWR;
    p.ttl = true;
    p.w = 10, p.warm = 10;
    Sym y;
    y.ids = {1, 2};
    y.steps = {0};
    y.ops = {OP_NOP, OP_GET, OP_SET, OP_ADD, OP_CAS, OP_REPLACE, OP_DELETE, OP_INVALID};
    add("operations", p, y, 1, 3 + more);
    y.ops = {OP_GETS, OP_APPEND, OP_PREPEND, OP_INCR, OP_DECR, OP_READ, OP_WRITE, OP_UPDATE};
    add("other operations", p, y, 1, 3);
    y.ops = {OP_GET, OP_SET};
    y.steps = {0, 10};
    y.ttls = {0, 1, 0xffffff};
    add("TTLs", p, y, 1, 3 + more);
    y.ops = {OP_SET};
    y.ids = {1};
    y.steps = {3};
    y.ttls = {0, 1, 2, 60, 3600, 86400};
    add("many TTLs", p, y, 1, 5 + more);
  }
  {
    P p;
    p.fmt = TXT;
    p.w = 300;
    s.add("plain text", seqmc::rgs(1, 8 + more, 8), [=](const Seq &w) {
      Trace t;
      for (int x : w) t.push_back({0, (uint64_t)x + 1, 1, OP_INVALID, 0});
      return run(t, p);
    }, "requests", 4);
  }
  // every set of analyses: the trace covers windows, sizes, operations and TTLs
  for (int f = 0; f < 2; f++)
    s.add(f ? "sets of analyses (TTLs)" : "sets of analyses", seqmc::words(2, 7, 7), [=](const Seq &w) {
      P p;
      p.w = 10, p.warm = 20, p.inv = 1;
      p.rate = w[0], p.access = w[1], p.size = w[2], p.reuse = w[3], p.pop = w[4], p.ttl = w[5], p.decay = w[6];
      if (!p.decay) p.warm = 86400, p.w = 7;
      p.fmt = f ? TWR : GEN;
      std::string e;
      for (int seed = 0; seed < 24 && e.empty(); seed++) {
        Trace t;
        int64_t now = 100;
        for (int i = 0; i < 30; i++) {
          R r{now, (uint64_t)(i * i + seed * i) % (3 + seed % 5), 1 + (i * 37 + seed) % 900, f ? (i * 5 + seed) % 16 : 0, f ? (i % 4) * 60 : 0};
          t.push_back(r);
          now += (i * 3 + seed) % 7 + (i % 11 == 3 ? 15 : 0);
        }
        e = run(t, p);
        if (!e.empty()) e = "trace " + num(seed) + ": " + e;
      }
      return e;
    }, "which analyses are on");
  // how many to track
  s.add("tracking", [](std::function<void(const Seq &)> f) {
    for (int h = 0; h <= 12; h++)
      for (int n = 0; n <= 12; n++)
        for (int pop = 0; pop < 2; pop++)
          for (int k = 1; k <= 9; k += 2) f({h, n, pop, k});
  }, [=](const Seq &w) {
    P p;
    p.nhit = w[0], p.npop = w[1], p.pop = w[2];
    Trace t;
    for (int o = 0; o < w[3]; o++)
      for (int i = 0; i < (o * 2) % 11 + 1; i++) t.push_back({(int64_t)t.size(), (uint64_t)o, 100 + o});
    return run(t, p);
  }, "numbers of X-hit and popular objects to track, popularity on or off, objects");
  // many objects: the popularity's slope
  s.add("popularity", [](std::function<void(const Seq &)> f) {
    for (int n : {199, 200, 201, 500})
      for (int top : {100, 199, 200, 201, 900})
        for (int al = 4; al <= 14; al += 5) f({n, top, al});
  }, [=](const Seq &w) {
    P p;
    p.w = 100, p.warm = 0, p.inv = 7;
    Trace t;
    for (int o = 0; o < w[0]; o++) {
      int c = std::max(1, (int)(w[1] * pow(o + 1, -w[2] / 10.0)));
      for (int i = 0; i < c; i++) t.push_back({(int64_t)t.size() / 3, (uint64_t)o * 11, 10 + o % 50});
    }
    return run(t, p);
  }, "objects, requests of the first, Zipf exponent");
  {
    P p;
    s.add("empty trace", seqmc::words(1, 0, 0), [=](const Seq &) {
      P q = p;
      q.fmt = TXT;
      return run({}, q);
    }, "no requests");
  }
  // the program
  {
    std::vector<Cmd> cmds;
    P none;
    none.rate = none.access = none.size = none.reuse = none.pop = none.ttl = none.decay = false;
    auto on = [&](std::vector<std::string> args, std::function<void(P &)> f, std::string ofile = "") {
      Cmd k;
      k.p = none;
      f(k.p);
      k.args = args;
      k.ofile = ofile;
      cmds.push_back(k);
    };
    auto common = [](P &p) { p.rate = p.access = p.size = p.reuse = p.pop = true; };
    on({}, [](P &) {});
    on({"--common"}, common);
    on({"--all"}, [&](P &p) { common(p), p.decay = true; });
    on({"--popularity"}, [](P &p) { p.pop = true; });
    on({"--reuse"}, [](P &p) { p.reuse = true; });
    on({"--size"}, [](P &p) { p.size = true; });
    on({"--reqRate"}, [](P &p) { p.rate = true; });
    on({"--accessPattern"}, [](P &p) { p.access = true; });
    on({"--popularityDacay"}, [](P &p) { p.decay = true; });
    on({"--ttl"}, [](P &p) { p.ttl = true; });
    on({"--ttl"}, [](P &p) { p.ttl = true, p.fmt = TWR; });
    for (int w : {1, 7, 10, 60, 86400, 100000}) on({"--common", "--time-window", num(w)}, [&](P &p) { common(p), p.w = w; });
    for (int warm : {0, 10, 30}) on({"--all", "--time-window=10", "--warmup-sec=" + num(warm)}, [&](P &p) { common(p), p.decay = true, p.w = 10, p.warm = warm; });
    for (int k : {0, 1, 5, 30}) {
      on({"--common", "--track-n-hit", num(k)}, [&](P &p) { common(p), p.nhit = k; });
      on({"--common", "--track-n-popular", num(k)}, [&](P &p) { common(p), p.npop = k; });
      on({"--track-n-popular=" + num(k)}, [&](P &p) { p.npop = k; });
    }
    for (int k : {1, 3, 20, 1000}) {
      on({"--common", "-n", num(k)}, [&](P &p) { common(p), p.cap = k; });
      on({"--num-req=" + num(k), "--reqRate", "--time-window=2"}, [&](P &p) { p.rate = true, p.cap = k, p.w = 2; });
    }
    on({"--common", "--output=elsewhere"}, common, "elsewhere");
    on({"--reqRate", "--size", "--time-window=3"}, [](P &p) { p.rate = p.size = true, p.w = 3; });
    on({"--common", "--access-pattern-sample-ratio=0.2"}, common);
    on({"--common", "--ttl", "--time-window=10"}, [&](P &p) { common(p), p.ttl = true, p.fmt = TWR, p.w = 10; });
    on({"--common", "--time-window=10"}, [&](P &p) { common(p), p.fmt = CSV, p.w = 10; });
    on({"--common"}, [&](P &p) { common(p), p.fmt = TXT; });
    for (size_t i = 0; i < cmds.size(); i++) {
      Cmd k = cmds[i];
      std::string nm = "program:";
      for (auto &x : k.args) nm += " " + x;
      static const char *FN[] = {"", " (twr)", " (csv)", " (txt)"};
      s.add(nm + FN[k.p.fmt], seqmc::words(a.deep ? 8 : 2, 1, 1), [k](const Seq &w) {
        Trace t;
        int64_t now = 50;
        for (int i = 0; i < 60; i++) {
          R r{now, (uint64_t)(i * i + w[0] * i) % (4 + w[0]), 1 + (i * 37 + w[0]) % 900};
          if (k.p.fmt == TWR) r.op = (i * 5) % 16, r.ttl = (i % 4) * 60;
          if (k.p.fmt == TXT) r.t = 0, r.size = 1, r.op = OP_INVALID;
          t.push_back(r);
          now += (i * 3 + w[0]) % 7 + (i % 13 == 3 ? 15 : 0);
        }
        return run_cli(t, k);
      }, "trace number");
    }
  }
  int rc = s.go();
  if (chdir("/") == 0) std::filesystem::remove_all(g_dir);
  return rc;
}
