// P14: zstd-compressed traces.  Enumerates how the data is cut into frames and blocks, where the reader's buffers end,
// truncations at every byte and corruptions of every byte, and read/reset/clone/skip histories; the requests returned
// are compared with the records that were compressed.
#include <setjmp.h>
#include <zstd.h>

#include "reader_common.hpp"

// the explicit error stop of the library (ERROR logs and calls abort) is an allowed outcome on broken files only
static jmp_buf g_stop;
static volatile int g_guard = 0;
extern "C" {
void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void) __attribute__((noreturn));
void __wrap_abort(void) {
  if (g_guard) longjmp(g_stop, 1);
  __real_abort();
}
}

// a cut of the uncompressed data at pos: 'f' end of frame, 'b' flushed block, 'e' end of frame + an empty frame,
// 's' end of frame + a skippable frame
struct Cut {
  size_t pos;
  char kind;
};
struct Comp {
  int level = 1;
  bool checksum = false, csize = false;
  size_t every = 0;    // a cut of kind every_kind at each multiple
  char every_kind = 'b';
  std::string pre;     // bytes before the first frame
};
static std::string skippable(size_t n) {
  std::string s;
  put(s, (uint32_t)0x184D2A50), put(s, (uint32_t)n);
  s.append(n, 'k');
  return s;
}
static std::string compress(const std::string &d, const std::vector<Cut> &cuts, const Comp &o) {
  static ZSTD_CCtx *cc = ZSTD_createCCtx();
  ZSTD_CCtx_reset(cc, ZSTD_reset_session_and_parameters);
  ZSTD_CCtx_setParameter(cc, ZSTD_c_compressionLevel, o.level);
  ZSTD_CCtx_setParameter(cc, ZSTD_c_checksumFlag, o.checksum);
  ZSTD_CCtx_setParameter(cc, ZSTD_c_contentSizeFlag, o.csize);
  std::string out = o.pre;
  std::vector<Cut> cs = cuts;
  if (o.every)
    for (size_t p = o.every; p < d.size(); p += o.every) cs.push_back({p, o.every_kind});
  std::sort(cs.begin(), cs.end(), [](const Cut &a, const Cut &b) { return a.pos < b.pos; });
  cs.push_back({d.size(), 'f'});
  size_t from = 0;
  std::string buf(1 << 17, 0);
  auto run = [&](const char *p, size_t n, ZSTD_EndDirective e) {
    ZSTD_inBuffer in = {p, n, 0};
    while (true) {
      ZSTD_outBuffer ob = {&buf[0], buf.size(), 0};
      size_t r = ZSTD_compressStream2(cc, &ob, &in, e);
      if (ZSTD_isError(r)) _exit(92);
      out.append(buf, 0, ob.pos);
      if (r == 0 && in.pos == in.size) return;
    }
  };
  for (auto &c : cs) {
    run(d.data() + from, c.pos - from, c.kind == 'b' ? ZSTD_e_flush : ZSTD_e_end);
    if (c.kind == 'e') run("", 0, ZSTD_e_end);
    if (c.kind == 's') out += skippable(5);
    from = c.pos;
  }
  return out;
}

static Fmt g_of(const std::string &name, const std::vector<Fmt> &fs) {
  for (auto &f : fs)
    if (f.name == name) return f;
  abort();
}

// full read: the requests must be those of idx, in full (whole) or a prefix of them
static std::string read_all(pool::Ctx &c, const Fmt &f, reader_t *r, const std::function<const Rec *(size_t)> &rec, size_t n, bool whole, bool any_content) {
  request_t q_;
  request_t *q = &q_;
  memset(q, 0, sizeof *q);
  IdMap ids;
  size_t k = 0;
  while (true) {
    poison(q);
    if (!(f.recs[0].mask >> F_SIZE & 1)) q->obj_size = 1;
    q->valid = true;
    if (read_one_req(r, q) != 0) break;
    if (any_content) {
      if (++k > 3000000) return "does not end: more than 3 million requests from a small corrupt file";
      continue;
    }
    if (k >= n) return "returned request " + std::to_string(k + 1) + " of " + std::to_string(n);
    std::string d = diff(f, *rec(k), q, false, ids);
    if (!d.empty()) return "request " + std::to_string(k + 1) + " of " + std::to_string(n) + ": " + d;
    k++;
  }
  c.slot->ops = c.slot->ops + k + 1;
  if (q->valid && !any_content) return "end of trace reported with a request marked valid";
  if (whole && k < n) return "end of trace after " + std::to_string(k) + " of " + std::to_string(n) + " requests";
  if (whole)
    for (int i = 0; i < 2; i++)
      if (read_one_req(r, q) == 0) return "a request is returned after the end of the trace";
  return "";
}
static std::string check_file(pool::Ctx &c, const Fmt &f, const std::string &path, const std::function<const Rec *(size_t)> &rec, size_t n, const std::string &what) {
  Opt o;
  reader_t *volatile r = nullptr;
  std::string e;
  if (what == "whole" || what == "histories") {
    r = open_reader(f, path, o);
    e = read_all(c, f, r, rec, n, true, false);
    if (e.empty() && what == "histories") {
      reset_reader(r);
      e = read_all(c, f, r, rec, n, true, false);
      if (!e.empty()) e = "after a reset: " + e;
      if (e.empty()) {
        reader_t *x = clone_reader(r);
        e = read_all(c, f, x, rec, n, true, false);
        if (!e.empty()) e = "clone: " + e;
        close_reader(x);
      }
      if (e.empty() && get_num_of_req(r) != n) e = "the number of requests is wrong";
    }
    close_reader(r);
    return e;
  }
  static std::string res;
  res.clear();
  g_guard = 1;
  if (setjmp(g_stop) == 0) {
    r = open_reader(f, path, o);
    res = read_all(c, f, r, rec, n, false, what == "corrupt");
  }
  g_guard = 0;
  if (r) close_reader(r);
  return res;
}

// ---------------------------------------------------------------- big files: contents are functions of the index
static const Rec *big_rec(const Fmt &f, size_t i, int content) {
  // content 0: one record repeated; 1: a mixture; 2: pseudo-random order
  size_t k = content == 0 ? 0 : content == 1 ? i % 3 : (i * 2654435761u >> 7) % 4;
  return &f.recs[k];
}
static std::string big_bytes(const Fmt &f, size_t n, int content) {
  std::string s = f.head;
  s.reserve(n * f.item);
  for (size_t i = 0; i < n; i++) s += f.enc[big_rec(f, i, content) - &f.recs[0]];
  return s;
}
// records that do not compress: oracleGeneral with all fields drawn from a generator
static uint64_t rnd(uint64_t i) {
  uint64_t x = (i + 1) * 0x9e3779b97f4a7c15ull;
  x ^= x >> 30, x *= 0xbf58476d1ce4e5b9ull, x ^= x >> 27, x *= 0x94d049bb133111ebull;
  return x ^ x >> 31;
}
struct RndRec {
  Rec r;
  const Rec *at(size_t i) {
    r = Rec();
    r.set(F_TIME, rnd(4 * i) & 0xffffffff), r.set(F_ID, rnd(4 * i + 1)), r.set(F_SIZE, (rnd(4 * i + 2) & 0xffffffff) | 1), r.set(F_NEXT, rnd(4 * i + 3) >> 2);
    return &r;
  }
  static std::string bytes(size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) put(s, (uint32_t)rnd(4 * i)), put(s, rnd(4 * i + 1)), put(s, (uint32_t)(rnd(4 * i + 2) | 1)), put(s, (int64_t)(rnd(4 * i + 3) >> 2));
    return s;
  }
};

int main(int argc, char **argv) {
  std::string prop = "P14", tier = "quick", out = "/dev/stdout", rcfg, rhist, only;
  int workers = 8;
  bool replay = false, small = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--small") small = true;
    else if (a == "--replay") {
      replay = true;
      rcfg = argv[++i];
      rhist = argv[++i];
    }
  }
  bool deep = tier == "thorough" && !small;
  if (!make_scratch()) return 3;
  std::vector<pool::Task> tasks;
  auto skip = [](pool::Ctx &c, const std::string &pos) {
    if (c.resume.empty()) return false;
    if (c.resume == pos) c.resume.clear();
    return true;
  };
  std::vector<Fmt> fixed = fixed_formats(), fs;
  for (auto &f : fixed)
    if (f.type != VSCSI_TRACE) fs.push_back(f);
  fs.push_back(fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, false));
  fs.push_back(fmt_string_format("HIBQ", {F_OP, F_TIME, -1, F_ID}, false));
  fs.push_back(fmt_string_format("IQIq", {F_TIME, F_ID, F_SIZE, F_NEXT}, true));
  for (auto &f : fs)
    for (auto &r : f.recs) r.zero = false;  // read without the filter

  typedef std::function<void(pool::Ctx &, const std::string &)> One;
  auto add = [&](const std::string &cfg, std::function<std::vector<std::string>()> cases, One one, const std::string &sample) {
    if (!only.empty() && cfg.find(only) == std::string::npos) return;
    pool::Task t;
    t.cfg = cfg;
    t.run = [=](pool::Ctx &c) {
      size_t i = 0;
      for (auto &pos : cases()) {
        if (skip(c, pos)) continue;
        c.at(pos);
        one(c, pos);
        c.slot->evals = c.slot->evals + 1;
        if (pos != "-") c.slot->nontriv = c.slot->nontriv + 1;
        pool::outcome(pool::hash_str(cfg + pos));
        i++;
      }
      c.sample(cfg + ": " + sample + ", " + std::to_string(i) + " files");
    };
    t.replay = one;
    tasks.push_back(t);
  };
  auto parse_cuts = [](const std::string &s) {
    std::vector<Cut> v;
    for (size_t i = 0; i < s.size();) {
      if (!isalpha(s[i])) {
        i++;
        continue;
      }
      char k = s[i++];
      size_t p = strtoul(s.c_str() + i, nullptr, 10);
      while (i < s.size() && isdigit(s[i])) i++;
      v.push_back({p, k});
    }
    return v;
  };

  // A. small files: every pair of cuts at every byte
  for (auto &f : fs) {
    bool core = f.name == "oracleGeneral" || f.type == LCS_TRACE;
    std::vector<int> idx = {1, 0, 3};
    if (!core && !deep) idx = {1, 3};
    size_t lo = 0, len = f.bytes(idx).size();
    if (f.type == LCS_TRACE) lo = 1020;  // the cuts of interest: in the header's end and the records
    for (int ck = 0; ck < 2; ck++) {
      if (ck && !core) continue;
      add("cuts " + f.name + (ck ? " checksum" : ""),
          [=]() {
            std::vector<std::string> v = {"-"};
            std::string kinds = "fbes";
            for (size_t a = lo; a <= len; a++)
              for (char ka : kinds) {
                v.push_back(ka + std::to_string(a));
                if (small && a % 11) continue;
                for (size_t b = a; b <= len; b++)
                  for (char kb : std::string(core ? "fbes" : "fb")) v.push_back(ka + std::to_string(a) + "," + kb + std::to_string(b));
              }
            return v;
          },
          [=](pool::Ctx &c, const std::string &pos) {
            std::string path = scratch_file(ck ? ".zst.22" : ".oracleGeneral.zst");
            Comp o;
            o.checksum = ck, o.csize = ck;
            write_file(path, compress(f.bytes(idx), parse_cuts(pos == "-" ? "" : pos), o));
            std::string e = check_file(c, f, path, [&](size_t i) { return &f.recs[idx[i]]; }, idx.size(), "histories");
            if (!e.empty()) c.viol("cuts", pos, e);
          },
          "every pair of cuts (frame, block, empty frame, skippable frame) of " + std::to_string(idx.size()) + " records; read, reset, clone, count");
    }
  }
  // B. operation histories
  for (auto &f : fs) {
    bool core = f.name == "oracleGeneral" || f.type == LCS_TRACE || f.name.compare(0, 3, "bin") == 0;
    int depth = (core ? 4 : 3) + (deep ? 1 : 0) - (small ? 1 : 0);
    for (int cutset = 0; cutset < (core ? 3 : 1); cutset++) {
      std::vector<int> idx = {0, 1, 2, 3};
      std::string cuts = cutset == 0 ? "" : cutset == 1 ? "f" + std::to_string(f.head.size() + f.item + f.item / 2) + ",b" + std::to_string(f.head.size() + 2 * f.item)
                                                        : "f" + std::to_string(f.head.size() + f.item) + ",s" + std::to_string(f.head.size() + 3 * f.item - 1);
      add("histories " + f.name + " " + (cuts.empty() ? "one frame" : cuts),
          [=]() {
            std::vector<std::string> v;
            std::string alpha = "r125zFLNCc";
            all_sequences(alpha.size(), 1, depth, [&](const std::vector<int> &s) {
              std::string ops;
              for (int i : s) ops += alpha[i];
              v.push_back(ops);
            });
            return v;
          },
          [=](pool::Ctx &c, const std::string &pos) {
            static std::string made;
            std::string path = scratch_file(".zst");
            if (made != f.name + cuts) write_file(path, compress(f.bytes(idx), parse_cuts(cuts), Comp())), made = f.name + cuts;
            std::vector<const Rec *> R;
            for (int i : idx) R.push_back(&f.recs[i]);
            std::string e = nav_run(c, f, path, R, pos, true, false);
            if (!e.empty()) c.viol("history", pos, e);
          },
          "every operation sequence (read, skip, reset, first, last, count, clone) to depth " + std::to_string(depth));
    }
  }
  // C. the ends of the reader's buffers (128 KiB of compressed input, 256 KiB of output)
  const size_t IN = ZSTD_DStreamInSize(), OUT = 2 * ZSTD_DStreamOutSize();
  for (auto &f : fs) {
    if (small && f.name != "oracleGeneral" && f.name != "wiki16u") continue;
    // totals around multiples of the output buffer; contents from constant to mixed
    add("totals " + f.name,
        [=]() {
          std::vector<std::string> v;
          for (size_t base : {OUT / 2, OUT, OUT + OUT / 2, 2 * OUT, 3 * OUT})
            for (int d = -2; d <= 2; d++) {
              if (!deep && (d == -2 || d == 2) && base != OUT) continue;
              for (int content = 0; content < 3; content++)
                for (const char *cut : {"-", "half", "b1000", "f70000"}) {
                  if (!deep && content == 1 && cut[0] != '-') continue;
                  v.push_back("n" + std::to_string(((long)base - (long)f.head.size()) / f.item + d) + " c" + std::to_string(content) + " " + cut);
                }
            }
          return v;
        },
        [=](pool::Ctx &c, const std::string &pos) {
          size_t n;
          int content;
          char cut[32];
          if (sscanf(pos.c_str(), "n%zu c%d %31s", &n, &content, cut) != 3) return;
          std::string d = big_bytes(f, n, content), path = scratch_file(".zst");
          Comp o;
          std::vector<Cut> cs;
          if (cut[0] == 'h') cs.push_back({d.size() / 2 + 1, 'f'});
          if (cut[0] == 'b' || cut[0] == 'f') o.every = atoi(cut + 1), o.every_kind = cut[0];
          write_file(path, compress(d, cs, o));
          std::string e = check_file(c, f, path, [&](size_t i) { return big_rec(f, i, content); }, n, "whole");
          if (!e.empty()) c.viol("totals", pos, e);
        },
        "sizes around multiples of 128 KiB, constant and mixed contents, split into frames and blocks");
  }
  {
    Fmt f = g_of("oracleGeneral", fs);
    // one cut at every byte around the end of the output buffer; incompressible and constant contents
    for (int content : {0, 2, 3})
      for (int part = 0; part < 4; part++)
        add("output end, content " + std::to_string(content) + " part " + std::to_string(part),
            [=]() {
              std::vector<std::string> v;
              long w = small ? 4 : deep ? 200 : 30;
              for (size_t base : {OUT / 2, OUT, OUT + OUT / 2})
                for (long d = -w; d <= w; d++)
                  if ((d + w) % 4 == part)
                    for (char k : std::string("fbs")) v.push_back(k + std::to_string(base + d));
              return v;
            },
            [=](pool::Ctx &c, const std::string &pos) {
              size_t n = 2 * OUT / 24 + 7;
              static std::map<int, std::string> memo;
              std::string &d = memo[content], path = scratch_file(".zst");
              if (d.empty()) d = content == 3 ? RndRec::bytes(n) : big_bytes(f, n, content);
              write_file(path, compress(d, parse_cuts(pos), Comp()));
              RndRec rr;
              std::string e = check_file(c, f, path, [&](size_t i) { return content == 3 ? rr.at(i) : big_rec(f, i, content); }, n, "whole");
              if (!e.empty()) c.viol("output-end", pos, e);
            },
            "a frame, block or skippable-frame cut at every byte around the end of the output buffer");
    // the end of the input buffer moved over a block boundary byte by byte, and file lengths around its multiples
    for (int part = 0; part < 4; part++)
      add("input end part " + std::to_string(part),
          [=]() {
            std::vector<std::string> v;
            int w = small ? 6 : deep ? 400 : 60;
            for (int d = 0; d < w; d++)
              if (d % 4 == part) v.push_back("shift" + std::to_string(d));
            for (int m = 1; m <= 3; m++)
              for (int d = -w / 4; d <= w / 4; d++)
                if ((d + w) % 4 == part) v.push_back("len" + std::to_string(m) + ":" + std::to_string(d));
            return v;
          },
          [=](pool::Ctx &c, const std::string &pos) {
            size_t n = 2 * IN / 24 + 11;
            static std::string d;
            if (d.empty()) d = RndRec::bytes(3 * IN / 24 + 11);
            std::string path = scratch_file(".zst");
            Comp o;
            int a = 0, b = 0;
            std::string z;
            if (sscanf(pos.c_str(), "shift%d", &a) == 1) {
              o.pre = skippable(a);
              n = 2 * IN / 24 + 11;
              o.every = 30000, o.every_kind = a % 2 ? 'f' : 'b';
              z = compress(d.substr(0, n * 24), {}, o);
            } else if (sscanf(pos.c_str(), "len%d:%d", &a, &b) == 2) {
              n = (a * IN - 2000) / 24;
              z = compress(d.substr(0, n * 24), {}, o);
              long want = (long)a * IN + b;
              if ((long)z.size() + 8 > want) return;
              z += skippable(want - z.size() - 8);
            }
            write_file(path, z);
            RndRec rr;
            std::string e = check_file(c, f, path, [&](size_t i) { return rr.at(i); }, n, "whole");
            if (!e.empty()) c.viol("input-end", pos, e);
          },
          "incompressible data shifted byte by byte against the end of the input buffer; file lengths around its multiples");
  }
  // histories over files larger than the reader's buffers: a reset, a clone or a skip in the middle of a frame
  for (auto &f : fs) {
    bool core = f.name == "oracleGeneral" || f.type == LCS_TRACE || f.name.compare(0, 3, "bin") == 0;
    for (int content : {0, 2, 3}) {
      if ((!core && content) || (small && f.name != "oracleGeneral")) continue;
      if (content == 3 && f.name != "oracleGeneral") continue;
      for (const char *cut : {"one", "half", "b70000"}) {
        if (cut[0] != 'o' && !core) continue;
        int depth = (core ? 3 : 2) + (deep ? 1 : 0) - (small ? 1 : 0);
        size_t n = 2 * OUT / f.item + 7;
        std::string cut_s = cut;
        add("big histories " + f.name + " content " + std::to_string(content) + " " + cut,
            [=]() {
              std::vector<std::string> v;
              std::string alpha = "1rszcN";
              all_sequences(alpha.size(), 1, depth, [&](const std::vector<int> &s) {
                std::string ops;
                for (int i : s) ops += alpha[i];
                v.push_back(ops);
              });
              return v;
            },
            [=](pool::Ctx &c, const std::string &pos) {
              static std::string made;
              static std::string d;
              std::string path = scratch_file(".zst"), key = f.name + std::to_string(content) + cut_s;
              if (made != key) {
                d = content == 3 ? RndRec::bytes(n) : big_bytes(f, n, content);
                Comp o;
                std::vector<Cut> cs;
                if (cut_s[0] == 'h') cs.push_back({d.size() / 2 + 1, 'f'});
                if (cut_s[0] == 'b') o.every = 70000, o.every_kind = 'b';
                write_file(path, compress(d, cs, o)), made = key;
              }
              RndRec rr;
              auto rec = [&](size_t i) { return content == 3 ? rr.at(i) : big_rec(f, i, content); };
              Opt o;
              reader_t *r = open_reader(f, path, o);
              request_t *q = new_request();
              IdMap ids;
              std::string e;
              size_t k = 0;
              auto rd = [&](size_t m) {
                for (size_t i = 0; i < m && e.empty(); i++) {
                  if (!(f.recs[0].mask >> F_SIZE & 1)) q->obj_size = 1;
                  int st = read_one_req(r, q);
                  if (k >= n) {
                    if (st == 0) e = "a request is returned behind the end";
                    break;
                  }
                  if (st != 0) e = "end of trace after " + std::to_string(k) + " of " + std::to_string(n) + " requests";
                  else e = diff(f, *rec(k), q, false, ids);
                  if (!e.empty()) e = "request " + std::to_string(k + 1) + ": " + e;
                  k++;
                }
                c.slot->ops = c.slot->ops + m;
              };
              for (size_t i = 0; i < pos.size() && e.empty(); i++) {
                if (pos[i] == '1') rd(1);
                else if (pos[i] == 'r') rd(n * 3 / 10 + i);
                else if (pos[i] == 's') {
                  size_t m = n * 3 / 10 + 1, got = skip_n_req(r, m);
                  if (got != std::min(m, n - k)) e = "skipping " + std::to_string(m) + " at " + std::to_string(k) + " returned " + std::to_string(got);
                  k = std::min(n, k + m);
                } else if (pos[i] == 'z') reset_reader(r), k = 0;
                else if (pos[i] == 'N') {
                  if (get_num_of_req(r) != n) e = "the number of requests is wrong";
                } else {
                  reader_t *x = clone_reader(r);
                  e = read_all(c, f, x, rec, n, true, false);
                  if (!e.empty()) e = "clone: " + e;
                  close_reader(x);
                }
                if (!e.empty()) e = "after \"" + pos.substr(0, i) + "\", operation " + pos[i] + ": " + e;
              }
              if (e.empty()) {
                rd(n - k + 1);
                if (!e.empty()) e = "after \"" + pos + "\": " + e;
              }
              close_reader(r);
              free_request(q);
              if (!e.empty()) c.viol("big-history", pos, e);
            },
            "every operation sequence (read one, read or skip a third, reset, clone, count) to depth " + std::to_string(depth) + " on a file larger than the buffers");
      }
    }
  }
  // D. truncation at every byte, corruption of every byte
  for (auto &f : fs) {
    bool core = f.name == "oracleGeneral" || f.name == "wiki19u" || f.type == LCS_TRACE || f.type == BIN_TRACE;
    std::vector<std::string> cutsets = {"", "f" + std::to_string(f.head.size() + f.item), "b" + std::to_string(f.head.size() + f.item * 3 / 2) + ",f" + std::to_string(f.head.size() + f.item * 5 / 2)};
    for (int ck = 0; ck < 2; ck++)
      for (auto &cs : cutsets) {
        if (!core && (ck || cs.empty())) continue;
        std::vector<int> idx = {0, 1, 2, 3, 1};
        Comp o;
        o.checksum = ck, o.csize = ck;
        std::string z = compress(f.bytes(idx), parse_cuts(cs), o);
        add("truncated " + f.name + " " + (cs.empty() ? "one frame" : cs) + (ck ? " checksum" : ""),
            [=]() {
              std::vector<std::string> v;
              for (size_t i = 0; i < z.size(); i++) v.push_back(std::to_string(i));
              return v;
            },
            [=](pool::Ctx &c, const std::string &pos) {
              std::string path = scratch_file(".zst");
              write_file(path, z.substr(0, atoi(pos.c_str())));
              std::string e = check_file(c, f, path, [&](size_t i) { return &f.recs[idx[i]]; }, idx.size(), "truncated");
              if (!e.empty()) c.viol("truncated", pos, e);
            },
            "truncated at every byte");
        if (f.type == LCS_TRACE && !deep && (ck || !cs.empty())) continue;
        add("corrupt " + f.name + " " + (cs.empty() ? "one frame" : cs) + (ck ? " checksum" : ""),
            [=]() {
              std::vector<std::string> v;
              for (size_t i = 0; i < z.size(); i++) {
                for (int b = 0; b < 8; b++) v.push_back(std::to_string(i) + "^" + std::to_string(1 << b));
                for (int x : {0x00, 0xff, 0x55})
                  v.push_back(std::to_string(i) + "=" + std::to_string(x));
              }
              return v;
            },
            [=](pool::Ctx &c, const std::string &pos) {
              std::string path = scratch_file(".zst"), y = z;
              size_t i;
              char how;
              int x;
              if (sscanf(pos.c_str(), "%zu%c%d", &i, &how, &x) != 3 || i >= y.size()) return;
              y[i] = how == '^' ? y[i] ^ x : x;
              write_file(path, y);
              std::string e = check_file(c, f, path, [&](size_t k) { return &f.recs[idx[k]]; }, idx.size(), "corrupt");
              if (!e.empty()) c.viol("corrupt", pos, e);
            },
            "every bit of every byte flipped, every byte overwritten by three values");
      }
  }
  // E. a truncated file of several buffers
  {
    Fmt f = g_of("oracleGeneral", fs);
    for (int part = 0; part < 8; part++) {
      std::string name = "truncated large, part " + std::to_string(part);
      add(name,
          [=]() {
            std::vector<std::string> v;
            size_t n = 2 * IN / 24 + 11;
            long w = small ? 2 : deep ? 40 : 8;
            for (size_t base : {(size_t)30000, (size_t)60000, OUT / 2, IN, IN + 30000, 2 * IN})
              for (long d = -w; d <= w; d++)
                if ((d + w) % 8 == part) v.push_back(std::to_string(base + d));
            return v;
          },
          [=](pool::Ctx &c, const std::string &pos) {
            size_t n = 2 * IN / 24 + 11;
            static std::string z;
            if (z.empty()) {
              Comp o;
              o.every = 30000;
              z = compress(RndRec::bytes(n), {}, o);
            }
            std::string path = scratch_file(".zst");
            write_file(path, z.substr(0, atoi(pos.c_str())));
            RndRec rr;
            std::string e = check_file(c, f, path, [&](size_t i) { return rr.at(i); }, n, "truncated");
            if (!e.empty()) c.viol("truncated", pos, e);
          },
          "truncated around block and buffer ends");
    }
  }
  int rc = pool::run_or_replay(tasks, out, workers, replay, rcfg, rhist);
  remove_scratch();
  return rc;
}
