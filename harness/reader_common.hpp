// What the reader checks share: scratch files, options, the expected requests, and the navigation cursor model.
#pragma once
#include <stdlib.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "trace_fmt.hpp"
extern "C" {
int go_back_two_req(reader_t *const reader);
}
#include "pool.hpp"

static std::string g_dir;
static std::string scratch_file(const std::string &suffix = "") { return g_dir + "/t" + std::to_string(getpid()) + suffix; }
static void write_file(const std::string &path, const std::string &data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) _exit(90);
  size_t o = 0;
  while (o < data.size()) {
    ssize_t n = write(fd, data.data() + o, data.size() - o);
    if (n <= 0) _exit(91);
    o += n;
  }
  close(fd);
}
static std::string istr(const std::vector<int> &v) {
  std::string s;
  for (int x : v) s += (char)('0' + x);
  return s.empty() ? "-" : s;
}
static std::vector<int> iparse(const std::string &s) {
  std::vector<int> v;
  for (char c : s)
    if (c >= '0' && c <= '9') v.push_back(c - '0');
  return v;
}

struct Opt {
  bool zero = false, nosize = false, null_init = false, count_first = false;
  long cap = -1;
  int tail = 0;  // bytes of a trailing partial record
  std::string str() const {
    return std::string("zero=") + (zero ? "1" : "0") + " nosize=" + (nosize ? "1" : "0") + " cap=" + std::to_string(cap) +
           (null_init ? " noinit" : "") + (count_first ? " countfirst" : "") + " tail=" + std::to_string(tail);
  }
};

static reader_t *open_reader(const Fmt &f, const std::string &path, const Opt &o, sampler_t *sampler = nullptr) {
  reader_init_param_t p;
  set_default_reader_init_params(&p);
  if (f.init) f.init(p);
  p.ignore_size_zero_req = o.zero;
  p.ignore_obj_size = o.nosize;
  p.cap_at_n_req = o.cap;
  p.sampler = sampler;
  if (o.null_init) return setup_reader(path.c_str(), f.type, nullptr);
  return setup_reader(path.c_str(), f.type, &p);
}

// the requests a full read returns
struct Exp {
  const Rec *r;
};
static std::vector<const Rec *> expected(const Fmt &f, const std::vector<int> &idx, const Opt &o, bool filtered = true) {
  std::vector<const Rec *> v;
  bool zero = o.null_init ? true : o.zero;
  long cap = o.null_init ? -1 : o.cap;
  for (int i : idx) {
    const Rec &r = f.recs[i];
    if (filtered && zero && r.zero) continue;
    for (int k = 0; k < r.cnt; k++) {
      if (filtered && cap > 0 && (long)v.size() >= cap) return v;
      v.push_back(&r);
    }
  }
  return v;
}
// textual ids: equality classes must be those of the texts (map kept per comparison)
struct IdMap {
  std::map<std::string, uint64_t> m;
  std::map<uint64_t, std::string> back;
  bool check(const std::string &t, uint64_t id) {
    auto a = m.insert({t, id});
    auto b = back.insert({id, t});
    return a.first->second == id && b.first->second == t;
  }
};
static std::string diff(const Fmt &f, const Rec &r, const request_t *q, bool nosize, IdMap &ids) {
  for (int k = 0; k < F_N; k++) {
    if (!(r.mask >> k & 1)) continue;
    if (k == F_ID && f.one_id) {
      if (!ids.check(r.text, q->obj_id)) return "textual id \"" + r.text + "\" is mapped to an inconsistent number";
      continue;
    }
    int64_t want = k == F_SIZE && nosize ? 1 : r.f[k], got = req_field(q, k);
    if (want != got) return std::string(FIELD_NAME[k]) + " is " + std::to_string(got) + ", the record says " + std::to_string(want);
  }
  if (nosize && q->obj_size != 1) return "size is " + std::to_string(q->obj_size) + " though sizes are ignored";
  return "";
}

static bool has_counts(const Fmt &f) {
  for (auto &r : f.recs)
    if (r.cnt != 1) return true;
  return false;
}
template <class F>
static void all_sequences(int nsym, int lo, int hi, F f) {
  std::vector<int> v;
  std::function<void()> rec = [&]() {
    if ((int)v.size() >= lo) f(v);
    if ((int)v.size() == hi) return;
    for (int s = 0; s < nsym; s++) {
      v.push_back(s);
      rec();
      v.pop_back();
    }
  };
  rec();
}

// ---------------------------------------------------------------- P13
// operations: r read; u read the request above; b step back; B step back twice; 1,2,5 skip n; z reset; F first; L last;
// N count; C clone, read the clone through; c read one request from a kept clone; d step the kept clone back;
// 0 position 0.0; 9 position 1.0
[[maybe_unused]] static const char *NAV = "rub125zFLNCcB09d";
static std::string nav_run(pool::Ctx &c, const Fmt &f, const std::string &path, const std::vector<const Rec *> &R, const std::string &ops, bool all, bool back = true) {
  Opt o;
  reader_t *r = open_reader(f, path, o), *kept = nullptr;
  request_t *q = new_request();
  IdMap ids;
  long n = R.size(), k = 0, kk = 0;
  std::string err;
  auto cmp = [&](long i, const char *what) {
    std::string d = diff(f, *R[i], q, false, ids);
    if (!d.empty()) err = std::string(what) + " at position " + std::to_string(i) + ": " + d;
    if (!q->valid) err = std::string(what) + ": request not marked valid";
  };
  auto rd = [&](reader_t *x, long &p, const char *what) {
    poison(q);
    if (!(f.recs[0].mask >> F_SIZE & 1)) q->obj_size = 1;
    int st = read_one_req(x, q);
    if (p >= n) {
      if (st == 0) err = std::string(what) + " past the end returned id " + std::to_string(q->obj_id);
      return;
    }
    if (st != 0) {
      err = std::string(what) + " at position " + std::to_string(p) + " of " + std::to_string(n) + " signalled the end";
      return;
    }
    cmp(p, what);
    p++;
  };
  bool stop = false;
  for (size_t i = 0; i < ops.size() && err.empty() && !stop; i++) {
    c.slot->ops = c.slot->ops + 1;
    switch (ops[i]) {
      case 'r': rd(r, k, "read"); break;
      case 'u': {
        poison(q);
        if (!(f.recs[0].mask >> F_SIZE & 1)) q->obj_size = 1;
        q->valid = true;
        int st = read_one_req_above(r, q);
        if (k < 2) {
          if (st == 0) err = "a request above position " + std::to_string(k) + " was returned";
          else if (q->valid) err = "no request above, but the request is marked valid";
          stop = k > 0;  // where the reader stands after a failed backward read is not specified
        } else if (st != 0) err = "no request found above position " + std::to_string(k);
        else cmp(k - 2, "read above"), k--;
        break;
      }
      case 'b': {
        int st = go_back_one_req(r);
        if ((st == 0) != (k > 0)) err = "step back at position " + std::to_string(k) + " returned " + std::to_string(st);
        if (k > 0) k--;
        break;
      }
      case 'B': {
        int st = go_back_two_req(r);
        if ((st == 0) != (k > 1)) err = "two steps back at position " + std::to_string(k) + " returned " + std::to_string(st);
        if (k > 1) k -= 2;
        else stop = k > 0;
        break;
      }
      case '1':
      case '2':
      case '5': {
        int m = ops[i] - '0', got = skip_n_req(r, m), want = std::min<long>(m, n - k);
        if (got != want) err = "skipping " + std::to_string(m) + " at position " + std::to_string(k) + " of " + std::to_string(n) + " returned " + std::to_string(got);
        k += want;
        break;
      }
      case 'z':
        reset_reader(r);
        k = 0;
        break;
      case 'F':
      case 'L':
        poison(q);
        if (!(f.recs[0].mask >> F_SIZE & 1)) q->obj_size = 1;
        q->valid = true;
        if (n == 0) break;
        if (ops[i] == 'F') read_first_req(r, q), cmp(0, "read first");
        else read_last_req(r, q), cmp(n - 1, "read last");
        break;
      case 'N':
        if ((long)get_num_of_req(r) != n) err = "reports " + std::to_string(get_num_of_req(r)) + " requests of " + std::to_string(n);
        break;
      case 'C': {
        reader_t *x = clone_reader(r);
        long p = 0;
        while (p < n && err.empty()) rd(x, p, "clone: read");
        if (err.empty()) rd(x, p, "clone: read");
        close_reader(x);
        break;
      }
      case 'c':
      case 'd':
        if (!kept) kept = clone_reader(r);
        if (ops[i] == 'c') rd(kept, kk, "kept clone: read");
        else {
          int st = go_back_one_req(kept);
          if ((st == 0) != (kk > 0)) err = "kept clone: step back at position " + std::to_string(kk) + " returned " + std::to_string(st);
          if (kk > 0) kk--;
        }
        break;
      case '0':
        reader_set_read_pos(r, 0);
        k = 0;
        break;
      case '9':
        reader_set_read_pos(r, 1.0);
        k = n;
        break;
    }
    if (err.empty() && all && !stop && i + 1 == ops.size()) {
      // flush: from here forward to the end, then backward to the start
      while (k < n && err.empty()) rd(r, k, "flush: read");
      if (err.empty()) rd(r, k, "flush: read");
      for (long j = n; back && j > 0 && err.empty(); j--) {
        if (go_back_one_req(r) != 0) err = "flush: cannot step back at position " + std::to_string(j);
        else {
          k = j - 1;
          rd(r, k, "flush: read");
          if (err.empty() && go_back_one_req(r) != 0) err = "flush: cannot step back";
          k = j - 1;
        }
      }
      if (back && err.empty() && go_back_one_req(r) == 0) err = "flush: stepped back at the start";
    }
    if (!err.empty()) err = "after \"" + ops.substr(0, i) + "\", operation " + ops[i] + ": " + err;
  }
  if (err.empty()) {
    if (kept) close_reader(kept);
    close_reader(r);
  }
  free_request(q);
  return err;
}

static bool make_scratch() {
  std::string tmpl = access("/dev/shm", W_OK) == 0 ? "/dev/shm/verif-reader-XXXXXX" : "/tmp/verif-reader-XXXXXX";
  if (!mkdtemp(&tmpl[0])) return false;
  g_dir = tmpl;
  return true;
}
static void remove_scratch() {
  DIR *d = opendir(g_dir.c_str());
  if (d) {
    while (struct dirent *e = readdir(d))
      if (e->d_name[0] == 't') unlink((g_dir + "/" + e->d_name).c_str());
    closedir(d);
  }
  rmdir(g_dir.c_str());
}
