// P23: the cachesim program itself, run on every trace up to a bound with every combination of options, against the same
// requests fed to the library's caches directly.
#include <libgen.h>
#include <math.h>

#include "algos.hpp"
#include "reader_common.hpp"
#include "seqmc.hpp"
using seqmc::Seq;
static std::string num(int64_t x) { return std::to_string(x); }
static std::string g_bin;

struct Rq {
  uint64_t id;
  int64_t size, time, next;
};
typedef std::vector<Rq> Trace;

// ------------------------------------------------------------------------------------------------ running the program
struct Line {
  std::string name, size, text;
  long req = -1;
  double mr = -1, bmr = -1;
};
struct Out {
  std::string err;
  std::vector<Line> lines;
  std::string file;  // the result file
};
static std::string slurp(const std::string &p) {
  std::string s;
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  close(fd);
  return s;
}
static std::vector<Line> parse(const std::string &text) {
  std::vector<Line> v;
  std::istringstream is(text);
  std::string l;
  while (std::getline(is, l)) {
    size_t c = l.find(" cache size "), m = l.find(", miss ratio "), r = l.find(" req,");
    if (c == std::string::npos || m == std::string::npos || r == std::string::npos) continue;
    if (l.find(" hour: ") != std::string::npos) continue;  // a progress report
    Line x;
    x.text = l;
    size_t e = c, b = l.rfind(' ', c - 1);
    x.name = l.substr(b + 1, e - b - 1);
    size_t s = c + 12;
    while (l[s] == ' ') s++;
    x.size = l.substr(s, l.find(',', s) - s);
    x.req = atol(l.c_str() + l.find(',', s) + 1);
    x.mr = atof(l.c_str() + m + 13);
    size_t bm = l.find("byte miss ratio ");
    if (bm != std::string::npos) x.bmr = atof(l.c_str() + bm + 16);
    v.push_back(x);
  }
  return v;
}
static Out run_bin(const std::string &dir, const std::vector<std::string> &args, const std::string &result) {
  Out o;
  unlink((dir + "/out").c_str());
  unlink((dir + "/" + result).c_str());
  std::vector<char *> av;
  av.push_back((char *)"cachesim");
  for (auto &a : args) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(dir.c_str())) _exit(99);
    int fd = open("out", O_WRONLY | O_CREAT | O_TRUNC, 0600), nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(fd, 1);
    dup2(nul, 2);
    alarm(30);
    setenv("LD_PRELOAD", (g_dir + "/nosleep.so").c_str(), 1);
    execv(g_bin.c_str(), av.data());
    _exit(99);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFSIGNALED(st)) o.err = WTERMSIG(st) == SIGALRM ? "the program does not finish" : "the program dies with signal " + num(WTERMSIG(st));
  else if (WEXITSTATUS(st)) o.err = "the program exits with status " + num(WEXITSTATUS(st));
  o.lines = parse(slurp(dir + "/out"));
  o.file = slurp(dir + "/" + result);
  return o;
}

// ------------------------------------------------------------------------------------------------ what it must report
struct Name {
  const char *cli, *algo;
  bool rnd = false;
};
static const Name NAMES[] = {
    {"lru", "LRU"}, {"LRU", "LRU"}, {"fifo", "FIFO"}, {"arc", "ARC"}, {"lfu", "LFU"}, {"gdsf", "GDSF"}, {"lfuda", "LFUDA"}, {"twoq", "TwoQ"}, {"2q", "TwoQ"},
    {"slru", "SLRU"}, {"size", "Size"}, {"lfucpp", "LFUCpp"}, {"wtinyLFU", "WTinyLFU"}, {"tinyLFU", "WTinyLFU"}, {"belady", "Belady"}, {"beladySize", "BeladySize", true},
    {"nop", "nop"}, {"clock", "Clock"}, {"fifo-reinsertion", "Clock"}, {"second-chance", "Clock"}, {"lirs", "LIRS"}, {"fifo-merge", "FIFO_Merge"}, {"fifomerge", "FIFO_Merge"},
    {"s3fifo", "S3FIFO"}, {"S3-FIFO", "S3FIFO"}, {"qdlp", "QDLP"}, {"sieve", "Sieve"}, {"lru-prob", "LRU_Prob", true}, {"random", "Random", true},
    {"randomTwo", "RandomTwo", true}, {"RandomLRU", "RandomLRU", true}, {"lhd", "LHD", true}, {"hyperbolic", "Hyperbolic", true}, {"lecar", "LeCaR", true},
    {"cacheus", "Cacheus", true}};
static const Name *find_name(const std::string &n) {
  for (auto &x : NAMES)
    if (n == x.cli) return &x;
  return nullptr;
}
struct Opts {
  std::vector<std::string> algos = {"lru"}, sizes = {"6"};
  bool ignore = false, md = false;
  int64_t nreq = -1;
  int warm = -1;        // -1: not given
  double ratio = 1;
  std::string adm, admp, eparams;
  std::vector<std::string> more;  // options without influence on the result
  std::string ofile;
  bool may_refuse = false;  // more than the program has room for
  bool sep = false;  // --name value instead of --name=value
};
struct Want {
  std::string name;
  int64_t size = 0, req = 0, miss = 0, rb = 0, mb = 0, distinct = 0;
  bool rnd = false;
};
static int64_t conv(const std::string &s, int64_t wss) {
  if (s.find('.') != std::string::npos) return (int64_t)(wss * atof(s.c_str()));
  char *e;
  int64_t v = strtoll(s.c_str(), &e, 10);
  switch (*e) {
    case 'k': case 'K': return v << 10;
    case 'm': case 'M': return v << 20;
    case 'g': case 'G': return v << 30;
    case 't': case 'T': return v << 40;
  }
  return v;
}
static std::vector<Want> expect(const Opts &o, Trace t) {
  Trace f;
  sampler_t *sm = o.ratio < 1 ? create_spatial_sampler(o.ratio) : nullptr;
  request_t *q = new_request();
  bool big = false;
  for (auto r : t) {
    if (r.size == 0 && !o.ignore) continue;
    if (o.ignore) r.size = 1;
    if (sm) {
      q->obj_id = r.id;
      q->hv = 0;
      if (!sm->sample(sm, q)) continue;
    }
    if (o.nreq > 0 && (int64_t)f.size() >= o.nreq) break;
    big = big || r.size > 1;
    f.push_back(r);
  }
  if (sm) sm->free(sm);
  std::map<uint64_t, int64_t> first;
  for (auto &r : f) first.insert({r.id, r.size});
  int64_t wss = 0;
  for (auto &x : first) wss += x.second;
  std::vector<Want> v;
  for (auto &a : o.algos)
    for (auto &s : o.sizes) {
      Want w;
      const Name *n = find_name(a);
      w.rnd = n->rnd;
      w.size = conv(s, wss);
      common_cache_params_t p = default_common_cache_params();
      p.cache_size = w.size;
      p.hashpower = n->algo == std::string("Cacheus") || n->algo == std::string("Hyperbolic") ? 10 : 6;
      p.consider_obj_metadata = o.md && big;
      p.default_ttl = 86400 * 300;
      set_rand_seed(1);
      std::string ep = o.eparams;
      for (auto &c : ep) c = c == ';' ? ',' : c == '_' ? '-' : c;
      cache_t *c = find_algo(n->algo)->init(p, ep.empty() ? nullptr : ep.c_str());
      if (!o.adm.empty()) c->admissioner = create_admissioner(o.adm.c_str(), o.admp.empty() ? nullptr : o.admp.c_str());
      w.name = c->cache_name;
      std::set<uint64_t> seen;
      for (auto &r : f) {
        q->obj_id = r.id;
        q->hv = 0;
        q->obj_size = r.size;
        q->clock_time = r.time - f[0].time;
        q->next_access_vtime = r.next;
        q->op = OP_NOP;
        q->valid = true;
        bool hit = c->get(c, q);
        bool first = seen.insert(r.id).second;
        if (r.time - f[0].time < o.warm) continue;
        w.req++;
        w.rb += r.size;
        w.distinct += first;
        if (!hit) w.miss++, w.mb += r.size;
      }
      c->cache_free(c);
      v.push_back(w);
    }
  free_request(q);
  return v;
}
static std::string check_line(const Line &l, const Want &w, bool multi) {
  std::string what = w.name + " of size " + num(w.size) + ": ";
  if (l.name != w.name) return what + "the line names " + l.name + ": " + l.text;
  if (l.req != w.req) return what + num(l.req) + " requests reported, " + num(w.req) + " simulated";
  if (w.req == 0) return "";
  double mr = (double)w.miss / w.req, bmr = w.rb ? (double)w.mb / w.rb : 0;
  if (w.rnd) {
    if (l.mr < (double)w.distinct / w.req - 0.0002 || l.mr > 1) return what + "miss ratio " + std::to_string(l.mr) + ", first requests alone are " + num(w.distinct) + " of " + num(w.req);
    return "";
  }
  if (!(fabs(l.mr - mr) < 0.00011)) return what + "miss ratio " + std::to_string(l.mr) + " reported, it misses " + num(w.miss) + " of " + num(w.req);
  if (multi && !(fabs(l.bmr - bmr) < 0.00011)) return what + "byte miss ratio " + std::to_string(l.bmr) + " reported, it misses " + num(w.mb) + " of " + num(w.rb) + " bytes";
  return "";
}
// the printed size: exact in bytes, else in whole units (either way of rounding)
static bool size_ok(const std::string &p, int64_t size, bool ignore) {
  char *e;
  long v = strtol(p.c_str(), &e, 10);
  std::string u = e;
  if (ignore || u == "B" || u.empty()) return v == size;
  int64_t unit = u == "KiB" ? 1ll << 10 : u == "MiB" ? 1ll << 20 : u == "GiB" ? 1ll << 30 : u == "TiB" ? 1ll << 40 : 0;
  return unit && llabs(v - size / unit) <= 1;
}

// ------------------------------------------------------------------------------------------------ traces on disk
enum Format { CSV, CSVH, TXT, ORACLE, BIN, LCSF };
static std::string encode(Format f, const Trace &t) {
  std::string s;
  if (f == CSVH) s = "a time,an id,a size\n";
  if (f == LCSF) {
    lcs_trace_header_t h;
    memset(&h, 0, sizeof h);
    (void)h;
  }
  for (auto &r : t) {
    if (f == CSV || f == CSVH) s += num(r.time) + "," + num(r.id) + "," + num(r.size) + "\n";
    else if (f == TXT) s += num(r.id) + "\n";
    else if (f == ORACLE) put(s, (uint32_t)r.time), put(s, r.id), put(s, (uint32_t)r.size), put(s, (int64_t)(r.next == MAX_REUSE_DISTANCE ? -1 : r.next));
    else if (f == BIN) put(s, (uint32_t)r.time), put(s, r.id), put(s, (uint64_t)r.size);
  }
  return s;
}
static const char *FNAME[] = {"csv", "csv with header", "txt", "oracleGeneral", "binary"};
static std::string fpath(Format f, bool autod) {
  switch (f) {
    case CSV: return "data/trace.csv";
    case CSVH: return "data/trace.h.csv";
    case TXT: return "data/trace.txt";
    case ORACLE: return autod ? "data/trace.oracleGeneral" : "data/trace.oracleGeneral.bin";
    default: return "data/trace.bin";
  }
}
static void targs(Format f, std::vector<std::string> &a) {
  if (f == CSV) a.push_back("-t"), a.push_back("time-col=1,obj-id-col=2,obj-size-col=3,delimiter=,,obj-id-is-num=true");
  if (f == CSVH) a.push_back("--trace-type-params=time_col=1, obj-id-col=2, obj-size-col=3, delimiter=,, has-header=true");
  if (f == BIN) a.push_back("-t"), a.push_back("time-col=1,obj-id-col=2,obj-size-col=3,format=<IQQ");
}
static const char *ftype(Format f) { return f == CSV || f == CSVH ? "csv" : f == TXT ? "txt" : f == ORACLE ? "oracleGeneral" : "binary"; }

static void next_times(Trace &t) {
  std::map<uint64_t, int64_t> last;
  for (size_t i = t.size(); i-- > 0;) {
    auto it = last.find(t[i].id);
    t[i].next = it == last.end() ? MAX_REUSE_DISTANCE : it->second;
    last[t[i].id] = i + 1;
  }
}
static std::string run_case(const std::string &path, const std::string &type, const std::vector<std::string> &tp, const std::string &data, const Opts &o,
                            const Trace &seen) {
  std::string dir = g_dir + "/w" + num(getpid());
  mkdir(dir.c_str(), 0700);
  mkdir((dir + "/data").c_str(), 0700);
  write_file(dir + "/" + path, data);
  std::vector<std::string> a;
  std::string al, sl;
  for (auto &x : o.algos) al += (al.empty() ? "" : ",") + x;
  for (auto &x : o.sizes) sl += (sl.empty() ? "" : ",") + x;
  a = {path, type, al, sl};
  a.insert(a.end(), tp.begin(), tp.end());
  auto opt = [&](const std::string &n, const std::string &v) {
    if (o.sep) a.push_back("--" + n), a.push_back(v);
    else a.push_back("--" + n + "=" + v);
  };
  if (o.ignore) opt("ignore-obj-size", "true");
  if (o.md) opt("consider-obj-metadata", "1");
  if (o.nreq >= 0) opt("num-req", num(o.nreq));
  if (o.warm >= 0) opt("warmup-sec", num(o.warm));
  if (o.ratio < 1) opt("sample-ratio", std::to_string(o.ratio));
  if (!o.adm.empty()) opt("admission", o.adm);
  if (!o.admp.empty()) opt("admission-params", o.admp);
  if (!o.eparams.empty()) opt("eviction-params", o.eparams);
  if (!o.ofile.empty()) opt("output", o.ofile);
  a.insert(a.end(), o.more.begin(), o.more.end());
  bool multi = o.algos.size() * o.sizes.size() > 1;
  std::string base = path.substr(path.rfind('/') + 1);
  std::string result = multi ? "result/" + base : o.ofile.empty() ? base + ".cachesim" : o.ofile;
  Out r = run_bin(dir, a, result);
  if (o.may_refuse && r.lines.empty() && (r.err.find("status") != std::string::npos || r.err.find("signal 6") != std::string::npos)) return "";
  if (!r.err.empty()) return r.err;
  auto want = expect(o, seen);
  if (r.lines.size() != want.size()) return num(r.lines.size()) + " results printed, " + num(want.size()) + " asked for";
  for (size_t i = 0; i < want.size(); i++) {
    std::string e = check_line(r.lines[i], want[i], multi);
    if (!e.empty()) return e;
    bool unit_of_first = multi && !o.ignore && want[0].size > 1024;  // a list is printed in the unit of its first size
    if (!unit_of_first && !size_ok(r.lines[i].size, want[i].size, o.ignore)) return want[i].name + " of size " + num(want[i].size) + ": the line says size " + r.lines[i].size;
  }
  auto fl = parse(r.file);
  if (fl.size() != want.size()) return "the result file has " + num(fl.size()) + " results, " + num(want.size()) + " asked for";
  for (size_t i = 0; i < want.size(); i++)
    if (fl[i].text != r.lines[i].text) return "the result file says '" + fl[i].text + "', printed is '" + r.lines[i].text + "'";
  return "";
}

static const int64_t SIZES[] = {2, 3, 5, 4, 2, 3};
static Trace mk_trace(const Seq &v, int dt, bool ones = false) {
  Trace t;
  int64_t now = 1000;
  for (size_t i = 0; i < v.size(); i++) {
    if (i) now += dt == 9 ? (i % 3 == 0 ? 2 : i % 3 == 1 ? 0 : 1) : dt;
    t.push_back({(uint64_t)v[i] * 37 + 11, ones ? 1 : SIZES[v[i] % 6], now, -1});
  }
  next_times(t);
  return t;
}
static std::string run_fmt(Format f, bool autod, const Trace &t, Opts o) {
  Trace seen = t;
  if (f == TXT)
    for (auto &r : seen) r.size = 1, r.time = 0;
  std::vector<std::string> tp;
  targs(f, tp);
  return run_case(fpath(f, autod), autod ? "auto" : ftype(f), tp, encode(f, t), o, seen);
}

int main(int argc, char **argv) {
  seqmc::Args a(argc, argv, "P23");
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  g_bin = std::string(dirname(exe)) + "/bin/cachesim";
  if (access(g_bin.c_str(), X_OK)) {
    fprintf(stderr, "no cachesim program at %s\n", g_bin.c_str());
    return 3;
  }
  char tmpl[] = "/tmp/climcXXXXXX";
  g_dir = mkdtemp(tmpl);
  // the program waits for its threads in sleeps of two seconds
  write_file(g_dir + "/nosleep.c", "#include <time.h>\nunsigned sleep(unsigned s) { struct timespec t = {0, 200000}; nanosleep(&t, 0); return 0; }\n");
  if (system(("gcc -shared -fPIC -O1 -o " + g_dir + "/nosleep.so " + g_dir + "/nosleep.c").c_str())) return 3;
  seqmc::Suite s(a);
  s.kind = "command";
  s.sample_mod = 4;
  int L = a.deep ? 7 : 6;

  // every algorithm by every name, alone and in lists
  for (auto &n : NAMES) {
    std::string nm = n.cli;
    s.add("algorithm " + nm + " one size", seqmc::rgs(nm == "lhd" ? 3 : 5, nm == "lhd" ? 4 : L - 1, 5), [nm](const Seq &v) {
      Opts o;
      o.algos = {nm};
      o.sizes = {"8"};
      return run_fmt(ORACLE, false, mk_trace(v, 1), o);
    }, "requests of one trace");
    s.add("algorithm " + nm + " two sizes", seqmc::rgs(nm == "lhd" ? 4 : L, nm == "lhd" ? 4 : L, 5), [nm](const Seq &v) {
      Opts o;
      o.algos = {nm};
      o.sizes = {"7", "12"};
      return run_fmt(ORACLE, false, mk_trace(v, 1), o);
    }, "requests of one trace");
  }
  struct LS {
    const char *a, *z;
  };
  auto split = [](const std::string &s) {
    std::vector<std::string> v;
    std::istringstream is(s);
    std::string x;
    while (std::getline(is, x, ',')) v.push_back(x);
    return v;
  };
  for (auto &l : {LS{"lru,fifo", "6"}, {"fifo,lru", "6"}, {"lru,fifo,sieve", "5,9"}, {"sieve,arc,lfu", "12,5,7"}, {"clock", "3,4,5,6,7,8,9,10,11,12"}, {"slru,2q,s3fifo,gdsf", "11,16"},
                  {"lru,lru", "5,5"}, {"belady,lru", "4,8"}})
    s.add(std::string("list ") + l.a + " x " + l.z, seqmc::rgs(4, L, 5), [=](const Seq &v) {
      Opts o;
      o.algos = split(l.a);
      o.sizes = split(l.z);
      return run_fmt(ORACLE, false, mk_trace(v, 1), o);
    }, "requests of one trace");

  // as many algorithms or sizes as there is room for, and one more: it is refused or computed
  for (int na : {15, 16, 17, 40})
    s.add("list of " + num(na) + " algorithms", seqmc::words(4, 2, 4), [=](const Seq &v) {
      Opts o;
      o.may_refuse = na > 16;
      o.algos.clear();
      for (int i = 0; i < na; i++) o.algos.push_back(i % 3 == 0 ? "fifo" : i % 3 == 1 ? "lru" : "sieve");
      o.sizes = {"5"};
      return run_fmt(ORACLE, false, mk_trace(v, 1), o);
    }, "requests of one trace");
  for (int nz : {127, 128, 129, 600})
    s.add("list of " + num(nz) + " sizes", seqmc::words(3, 2, 3), [=](const Seq &v) {
      Opts o;
      o.may_refuse = nz > 128;
      o.sizes.clear();
      o.algos = {"lru"};
      for (int i = 0; i < nz; i++) o.sizes.push_back(num(3 + i));
      return run_fmt(ORACLE, false, mk_trace(v, 1), o);
    }, "requests of one trace");

  // sizes: ids up to renaming, the objects fill the cache exactly or miss it by a byte
  for (auto &z : {LS{"1kb", "1024"}, {"1KB", "1024"}, {"2k", "2048"}, {"1K", "1024"}, {"1mb", "1048576"}, {"3MB", "3145728"}, {"1m", "1048576"}, {"1M", "1048576"}, 
                  {"1gb", "1073741824"}, {"1GB", "1073741824"}, {"2g", "2147483648"}, {"1G", "1073741824"}, {"1tb", "1099511627776"}, {"1TB", "1099511627776"}, {"1t", "1099511627776"}, {"1T", "1099511627776"},
                  {"1024", "1024"}, {"1000000", "1000000"}, {"5000000000", "5000000000"}, {"123456789012", "123456789012"}})
    for (int list = 0; list < 3; list++)
      s.add(std::string("size ") + z.a + (list == 1 ? " then 3000" : list == 2 ? " after 500" : ""), seqmc::words(4, 2, a.deep ? 5 : 4), [=](const Seq &v) {
        int64_t u = atoll(z.z), half = u / 2, sz[] = {half, u - half, u - half + 1, 1};
        Trace t;
        for (size_t i = 0; i < v.size(); i++) t.push_back({(uint64_t)v[i] + 1, sz[v[i]], (int64_t)i, -1});
        Opts o;
        o.sizes = {z.a};
        if (list == 1) o.sizes.push_back("3000");
        if (list == 2) o.sizes.insert(o.sizes.begin(), "500");
        return run_fmt(CSV, false, t, o);
      }, "requests of one trace");
  // fractions of the working set
  for (auto &z : {"0.5", "0.25,0.5", "0.75,1.0", "0.3", "0.5,7", "0.9,0.1,0.6"})
    for (int ig = 0; ig < 2; ig++)
      for (Format f : {ORACLE, CSV, TXT})
        s.add(std::string("working set ") + z + (ig ? " ignoring sizes " : " ") + FNAME[f], seqmc::rgs(5, L, 5), [=](const Seq &v) {
          Opts o;
          o.ignore = ig;
          o.sizes = split(z);
          Trace t = mk_trace(v, 1, ig || f == TXT);
          std::set<int> ids(v.begin(), v.end());
          if ((int)ids.size() < 3) return std::string();  // keep every size above zero
          if (std::string(z).find("0.1") != std::string::npos)
            for (auto &r : t) r.size *= 10;
          if ((ig || f == TXT) && std::string(z).find("0.") == 0 && (atof(z) < 0.34 || std::string(z).find("0.1") != std::string::npos) && ids.size() < 5) return std::string();
          if ((ig || f == TXT) && std::string(z).find("0.1") != std::string::npos) return std::string();
          return run_fmt(f, false, t, o);
        }, "requests of one trace");

  // ... of large working sets: two objects fill the asked share to the byte, a third one does not fit
  for (int64_t w : {(1LL << 24) + 8, (1LL << 27) + 24, (1LL << 31) + 40, (1LL << 33) + 8, (1LL << 40) + 56})
    for (auto &z : {"0.5", "0.25", "0.75", "0.125,0.875", "0.375,1000"})
      s.add("working set of " + num(w) + " bytes, " + z, seqmc::words(4, 1, a.deep ? 5 : 3), [=](const Seq &v) {
        Opts o;
        o.sizes = split(z);
        if (v.size() % 2) o.algos = {"fifo"};
        int64_t T = (int64_t)(w * atof(z)), sz[] = {T - T / 3, T / 3, 1, w - T - 1};
        Trace t;
        for (int i = 0; i < 8; i++) t.push_back({(uint64_t)(3 - i % 4) + 1, sz[3 - i % 4], i, -1});
        for (int x : v) t.push_back({(uint64_t)x + 1, sz[x], (int64_t)t.size(), -1});
        for (int x = 0; x < 2; x++) t.push_back({(uint64_t)x + 1, sz[x], (int64_t)t.size(), -1});
        return run_fmt(CSV, false, t, o);
      }, "requests of one trace");

  // options together
  for (int ig = 0; ig < 2; ig++)
    for (int md = 0; md < 2; md++) {
      if (ig && md) continue;
      for (int nr : {-1, 1, 3, 4, 100})
        for (int warm : {-1, 0, 1, 2, 4})
          for (int multi = 0; multi < 2; multi++)
            s.add(std::string("options") + (ig ? " ignore sizes" : "") + (md ? " metadata" : "") + " requests " + num(nr) + " warm-up " + num(warm) + (multi ? " two sizes" : ""),
                  seqmc::rgs(5, 5, 5), [=](const Seq &v) {
                    Opts o;
                    o.algos = {multi ? "fifo" : "lru"};
                    o.ignore = ig;
                    o.md = md;
                    o.nreq = nr;
                    o.warm = warm;
                    o.sep = multi == md;
                    o.sizes = {ig ? "2" : md ? "42" : "6"};
                    if (multi) o.sizes.push_back(ig ? "3" : md ? "60" : "9");
                    Trace t = mk_trace(v, 9);
                    return run_fmt(multi ? ORACLE : CSV, false, t, o);
                  }, "requests of one trace");
    }
  struct OO {
    const char *name;
    std::function<void(Opts &)> f;
  };
  std::vector<OO> oo = {
      {"threads 1", [](Opts &o) { o.more = {"--num-thread=1"}; }},
      {"threads 2", [](Opts &o) { o.more = {"--num-thread", "2"}; }},
      {"threads 3", [](Opts &o) { o.more = {"--num-thread=3"}; }},
      {"report every second", [](Opts &o) { o.more = {"--report-interval=1"}; }},
      {"no head", [](Opts &o) { o.more = {"--print-head-req=false"}; }},
      {"quiet", [](Opts &o) { o.more = {"--verbose=0"}; }},
      {"ttl", [](Opts &o) { o.more = {"--use-ttl=true"}; }},
      {"metadata off", [](Opts &o) { o.more = {"--consider-obj-metadata=false"}; }},
      {"sizes not ignored", [](Opts &o) { o.more = {"--ignore-obj-size=0"}; }},
      {"output", [](Opts &o) { o.ofile = "my-output"; }},
      {"size admission", [](Opts &o) { o.adm = "size", o.admp = "size=3"; }},
      {"size admission 5", [](Opts &o) { o.adm = "size", o.admp = "size=5"; }},
      {"bloom admission", [](Opts &o) { o.adm = "bloom-filter"; }},
      {"bloomFilter admission", [](Opts &o) { o.adm = "bloomFilter"; }},
      {"prob 1", [](Opts &o) { o.adm = "prob", o.admp = "prob=1"; }},
      {"slru 2", [](Opts &o) { o.algos = {"slru"}, o.eparams = "n-seg=2"; }},
      {"slru 3", [](Opts &o) { o.algos = {"slru"}, o.eparams = "n_seg=3"; }},
      {"s3fifo params", [](Opts &o) { o.algos = {"s3fifo"}, o.eparams = "fifo-size-ratio=0.5;ghost_size_ratio=0.5"; }},
      {"clock params", [](Opts &o) { o.algos = {"clock"}, o.eparams = "n-bit-counter=2"; }},
      {"all together", [](Opts &o) { o.adm = "size", o.admp = "size=5", o.nreq = 5, o.warm = 1, o.md = true, o.more = {"--num-thread=2", "--report-interval=1"}; }},
  };
  for (auto &x : oo)
    for (int multi = 0; multi < 2; multi++) {
      auto fn = x.f;
      s.add(std::string("option ") + x.name + (multi ? " two sizes" : ""), seqmc::rgs(L - 1, L, 4), [=](const Seq &v) {
        Opts o;
        fn(o);
        o.sizes = {o.md ? "44" : "10"};
        if (multi) o.sizes.push_back(o.md ? "60" : "13");
        if (multi) o.ofile.clear();
        return run_fmt(ORACLE, false, mk_trace(v, 1), o);
      }, "requests of one trace");
    }
  // sampling: ids spread over the hash space
  for (double ratio : {0.5, 0.25, 0.1})
    for (int multi = 0; multi < 2; multi++)
      for (int nr : {-1})
        s.add("sample " + std::to_string(ratio) + " requests " + num(nr) + (multi ? " two sizes" : ""), seqmc::words(4, 3, 3), [=](const Seq &v) {
          Trace t;
          for (int i = 0; i < 60; i++) {
            int x = v[i % 3] * 5 + (i * (v[0] + 1)) % 13 + (i / 20) * v[1];
            t.push_back({(uint64_t)x * 1000003 + 17, SIZES[x % 6], 1000 + i, -1});
          }
          next_times(t);
          Opts o;
          o.ratio = ratio;
          o.nreq = nr;
          o.sizes = {"9"};
          if (multi) o.sizes.push_back("15");
          Trace f = t;
          bool any = false;  // at least one request has to be left
          sampler_t *sm = create_spatial_sampler(ratio);
          request_t *q = new_request();
          for (auto &r : t) {
            q->obj_id = r.id;
            q->hv = 0;
            any = any || sm->sample(sm, q);
          }
          free_request(q);
          sm->free(sm);
          if (!any) return std::string();
          return run_fmt(ORACLE, false, t, o);
        }, "requests of one trace");

  // formats, with and without naming the type; requests of size zero
  for (Format f : {CSV, CSVH, TXT, ORACLE, BIN})
    for (int ig = 0; ig < 2; ig++)
      for (int multi = 0; multi < 2; multi++)
        for (int autod = 0; autod < (f == ORACLE ? 2 : 1); autod++)
          s.add(std::string("format ") + FNAME[f] + (autod ? " detected" : "") + (ig ? " ignoring sizes" : "") + (multi ? " two sizes" : ""), seqmc::rgs(4, 5, 5), [=](const Seq &v) {
            Opts o;
            o.ignore = ig;
            o.sizes = {ig || f == TXT ? "2" : "6"};
            if (multi) o.sizes.push_back(ig || f == TXT ? "3" : "9");
            Trace t = mk_trace(v, 1);
            if (!ig && f == ORACLE)
              for (auto &r : t)
                if (r.id == 48) r.size = 0;
            next_times(t);
            return run_fmt(f, autod, t, o);
          }, "requests of one trace");
  for (int len : {100, 119, 120, 121, 128, 200, 240})
    for (int multi = 0; multi < 2; multi++)
      s.add("trace name of " + num(len) + " bytes" + (multi ? " two sizes" : ""), seqmc::rgs(4, 4, 5), [=](const Seq &v) {
        Opts o;
        o.sizes = {"6"};
        if (multi) o.sizes.push_back("9");
        else o.ofile = "out-of-one";
        Trace t = mk_trace(v, 1);
        std::string name = "trace." + std::string(len - 20, 'x') + ".oracleGeneral";
        return run_case("data/" + name, "oracleGeneral", {}, encode(ORACLE, t), o, t);
      }, "requests of one trace");
  // the automatic sizes: every line is right for the size it names, and the sizes increase
  for (int ig = 0; ig < 2; ig++)
    s.add(std::string("automatic sizes") + (ig ? " ignoring sizes" : ""), seqmc::words(2, 3, a.deep ? 5 : 4), [=](const Seq &v) {
      Trace t;
      int n = ig ? 300 : 900;
      for (int i = 0; i < 2 * n; i++) {
        int b = v[i % v.size()];
        int x = b ? (i * 7) % n : i % n;
        t.push_back({(uint64_t)x + 1, SIZES[x % 6], i, -1});
      }
      next_times(t);
      Opts o;
      o.ignore = ig;
      o.sizes = {v[0] ? "auto" : "0"};
      std::string dir = g_dir + "/w" + num(getpid());
      mkdir(dir.c_str(), 0700);
      mkdir((dir + "/data").c_str(), 0700);
      write_file(dir + "/data/trace.oracleGeneral.bin", encode(ORACLE, t));
      std::vector<std::string> args = {"data/trace.oracleGeneral.bin", "oracleGeneral", "lru,fifo", o.sizes[0]};
      if (ig) args.push_back("--ignore-obj-size=1");
      Out r = run_bin(dir, args, "result/trace.oracleGeneral.bin");
      if (!r.err.empty()) return r.err;
      std::vector<std::string> sz;
      for (auto &l : r.lines)
        if (l.name == "LRU") sz.push_back(std::to_string(atoll(l.size.c_str())));
      if (sz.size() < 2) return num(sz.size()) + " cache sizes";
      for (size_t i = 1; i < sz.size(); i++)
        if (atoll(sz[i].c_str()) <= atoll(sz[i - 1].c_str())) return std::string("the sizes do not increase");
      o.algos = {"lru", "fifo"};
      o.sizes = sz;
      if (r.lines.size() != 2 * sz.size()) return num(r.lines.size()) + " lines for " + num(sz.size()) + " sizes";
      auto want = expect(o, t);
      for (size_t i = 0; i < want.size(); i++) {
        std::string e = check_line(r.lines[i], want[i], true);
        if (!e.empty()) return e;
      }
      return std::string();
    }, "requests of one trace");
  int rc = s.go();
  std::string cmd = "rm -rf " + g_dir;
  if (system(cmd.c_str())) rc = rc ? rc : 0;
  return rc;
}
