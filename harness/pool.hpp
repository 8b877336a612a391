// Parallel exploration pool with crash isolation.  Every task runs in forked children; the position (the case being
// executed) lives in shared memory, so a crash or a hang is attributed to the very case, reported after a solitary
// re-run, and the exploration resumes behind it.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pool {

struct Slot {
  volatile uint64_t tick;
  volatile uint64_t evals;     // cases executed
  volatile uint64_t nontriv;   // distinct non-trivial cases
  volatile uint64_t ops;       // operations / transitions executed
  volatile uint64_t states;    // model states
  volatile uint64_t traces;    // model traces replayed on the implementation
  volatile uint64_t viols, allviols;
  volatile int pos_set;
  char pos[4096];
};

static const size_t OUTCOME_BITS = 1u << 22;
static uint8_t *g_outcomes = nullptr;  // shared bitmap over hashed observable outcomes

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
static inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ull;
  return mix(0, h);
}
static inline void outcome(uint64_t h) {
  h = mix(h, 0x1234567);
  size_t b = h % OUTCOME_BITS;
  uint8_t m = 1u << (b & 7);
  if (!(g_outcomes[b >> 3] & m)) __atomic_fetch_or(&g_outcomes[b >> 3], m, __ATOMIC_RELAXED);
}
static inline size_t outcome_count() {
  size_t n = 0;
  for (size_t i = 0; i < OUTCOME_BITS / 8; i++) n += __builtin_popcount(g_outcomes[i]);
  return n;
}

static inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

struct Ctx {
  Slot *slot = nullptr;
  std::string cfg;
  std::string resume;      // position of the case that crashed last ("" = none)
  int outfd = -1;
  std::set<std::string> samples;
  long viol_cap = 4000;
  void at(const std::string &pos) {
    size_t n = pos.size() < sizeof(slot->pos) - 1 ? pos.size() : sizeof(slot->pos) - 1;
    memcpy(slot->pos, pos.data(), n);
    slot->pos[n] = 0;
    slot->pos_set = 1;
    slot->tick = slot->tick + 1;
  }
  void emit(const std::string &line) {
    std::string l = line + "\n";
    if (write(outfd, l.data(), l.size()) < 0) abort();
  }
  void viol(const std::string &kind, const std::string &pos, const std::string &detail) {
    slot->viols = slot->viols + 1;
    slot->allviols = slot->allviols + 1;
    if ((long)slot->viols > viol_cap) return;
    emit("{\"type\":\"viol\",\"cfg\":\"" + jesc(cfg) + "\",\"kind\":\"" + jesc(kind) + "\",\"hist\":\"" + jesc(pos) +
         "\",\"detail\":\"" + jesc(detail) + "\"}");
  }
  void sample(const std::string &s) {
    emit("{\"type\":\"sample\",\"cfg\":\"" + jesc(cfg) + "\",\"case\":\"" + jesc(s) + "\"}");
  }
  void note(const std::string &s) {
    emit("{\"type\":\"note\",\"cfg\":\"" + jesc(cfg) + "\",\"note\":\"" + jesc(s) + "\"}");
  }
};

struct Task {
  std::string cfg;                          // configuration the replay needs
  std::string shard;                        // part of its space
  std::function<void(Ctx &)> run;           // enumerate; must honour ctx.resume
  std::function<void(Ctx &, const std::string &)> replay;  // run one case
};

static inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static inline void quiet_stdio() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
}

// run one case in a child of its own; returns "" when it ended normally, else a description
static inline std::string solo(Task &t, const std::string &pos, double limit, int outfd, Slot *slot) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    quiet_stdio();
    Ctx c;
    c.slot = slot;
    c.cfg = t.cfg;
    c.outfd = outfd;
    t.replay(c, pos);
    _exit(0);
  }
  double t0 = now();
  int st;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      return "hang";
    }
    usleep(2000);
  }
  if (WIFSIGNALED(st)) return "crash";
  if (WEXITSTATUS(st) != 0) return "exit" + std::to_string(WEXITSTATUS(st));
  return "";
}

static inline int run(std::vector<Task> &tasks, const std::string &outpath, int workers, double hang_s = 8,
                      long crash_cap = 60) {
  int outfd = open(outpath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (outfd < 0) {
    perror("out");
    return 3;
  }
  g_outcomes = (uint8_t *)mmap(nullptr, OUTCOME_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Slot *slots =
      (Slot *)mmap(nullptr, sizeof(Slot) * (workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(slots, 0, sizeof(Slot) * (workers + 1));
  struct W {
    pid_t pid = 0;
    int task = -1;
    uint64_t tick = 0;
    double since = 0;
    long crashes = 0;
    std::string resume, retried;
    double t0 = 0;
  };
  std::vector<W> ws(workers);
  size_t next = 0;
  int live = 0;
  long total_crash = 0, total_hang = 0;
  double began = now(), budget = getenv("VERIF_BUDGET") ? atof(getenv("VERIF_BUDGET")) : 1e9;
  auto start = [&](int i) {
    fflush(nullptr);
    slots[i].pos_set = 0;
    slots[i].pos[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      quiet_stdio();
      Ctx c;
      c.slot = &slots[i];
      c.cfg = tasks[ws[i].task].cfg;
      c.resume = ws[i].resume;
      c.outfd = outfd;
      if (c.resume == "<init>") c.resume = "";
      if (ws[i].resume.empty()) c.at("<init>");  // a crash before the first case is a finding, too
      tasks[ws[i].task].run(c);
      _exit(0);
    }
    ws[i].pid = p;
    ws[i].tick = slots[i].tick;
    ws[i].since = now();
  };
  Ctx pc;
  pc.outfd = outfd;
  pc.slot = &slots[workers];
  while (true) {
    for (int i = 0; i < workers; i++)
      if (ws[i].pid == 0 && next < tasks.size()) {
        ws[i].task = next++;
        ws[i].resume = "";
        ws[i].retried = "";
        ws[i].crashes = 0;
        ws[i].t0 = now();
        slots[i].viols = 0;
        start(i);
        live++;
      }
    if (live == 0) break;
    bool any = false;
    // violations were found and the search is getting long (hangs, crashes): report what there is
    bool have = slots[workers].viols != 0;
    for (int i = 0; i < workers; i++) have = have || slots[i].allviols != 0;
    const char *stop = nullptr;
    if (have && (total_hang >= 6 || total_crash >= 400 || now() - began > 150)) stop = "stopped early: violations found";
    if (now() - began > budget) stop = "time budget";
    if (stop) {
      for (int i = 0; i < workers; i++)
        if (ws[i].pid) {
          kill(ws[i].pid, SIGKILL);
          int st;
          waitpid(ws[i].pid, &st, 0);
        }
      pc.emit(std::string("{\"type\":\"cap\",\"cfg\":\"\",\"why\":\"") + stop + ", " + std::to_string(next) + " of " +
              std::to_string(tasks.size()) + " tasks started\"}");
      break;
    }
    for (int i = 0; i < workers; i++) {
      if (!ws[i].pid) continue;
      int st;
      pid_t r = waitpid(ws[i].pid, &st, WNOHANG);
      std::string why;
      if (r == ws[i].pid) {
        any = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
          pc.emit("{\"type\":\"task\",\"cfg\":\"" + jesc(tasks[ws[i].task].cfg) + "\",\"shard\":\"" +
                  jesc(tasks[ws[i].task].shard) + "\",\"wall\":" + std::to_string(now() - ws[i].t0) + "}");
          ws[i].pid = 0;
          live--;
          continue;
        }
        why = WIFSIGNALED(st) ? "crash" : "exit" + std::to_string(WEXITSTATUS(st));
      } else {
        if (slots[i].tick != ws[i].tick) {
          ws[i].tick = slots[i].tick;
          ws[i].since = now();
        } else if (now() - ws[i].since > hang_s) {
          kill(ws[i].pid, SIGKILL);
          waitpid(ws[i].pid, &st, 0);
          why = "hang";
          any = true;
        }
      }
      if (why.empty()) continue;
      ws[i].pid = 0;
      live--;
      Task &t = tasks[ws[i].task];
      pc.cfg = t.cfg;
      std::string pos = slots[i].pos;
      if (!slots[i].pos_set || (pos == ws[i].resume && ws[i].retried != pos)) {
        pc.emit("{\"type\":\"harness_error\",\"cfg\":\"" + jesc(t.cfg) + "\",\"why\":\"" + why + " outside a case (" +
                jesc(pos) + ")\"}");
        continue;
      }
      std::string again = solo(t, pos, 12, outfd, &slots[workers]);
      if (again.empty()) {
        if (why != "hang" && ws[i].retried != pos) {  // does it need the cases before it?  run the shard once more
          ws[i].retried = pos;
          start(i);
          live++;
          continue;
        }
        if (why != "hang")
          pc.viol(why + "-seq", pos, why + " in this case after the preceding cases of the shard (twice), not alone");
        else
          pc.note("slow, but terminates alone: " + pos);
      } else {
        ws[i].retried = "";
        pc.viol(again, pos, again + (again == "hang" ? ": the case does not terminate" : ": the process died"));
      }
      total_crash++;
      if (again == "hang") {
        total_hang++;
        ws[i].crashes += crash_cap / 3;
      }
      if (++ws[i].crashes > crash_cap) {
        pc.emit("{\"type\":\"cap\",\"cfg\":\"" + jesc(t.cfg) + "\",\"shard\":\"" + jesc(t.shard) +
                "\",\"why\":\"crash cap\"}");
        continue;
      }
      ws[i].resume = pos;
      start(i);
      live++;
    }
    if (!any) usleep(1000);
  }
  uint64_t ev = 0, nt = 0, ops = 0, sts = 0, tr = 0;
  for (int i = 0; i < workers; i++) {
    ev += slots[i].evals;
    nt += slots[i].nontriv;
    ops += slots[i].ops;
    sts += slots[i].states;
    tr += slots[i].traces;
  }
  char b[512];
  snprintf(b, sizeof b,
           "{\"type\":\"stats\",\"evaluations\":%llu,\"nontrivial\":%llu,\"ops\":%llu,\"states\":%llu,\"traces\":%llu,"
           "\"outcomes\":%zu,\"tasks\":%zu}",
           (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)ops, (unsigned long long)sts,
           (unsigned long long)tr, outcome_count(), tasks.size());
  pc.emit(b);
  close(outfd);
  return 0;
}

// the whole search, or the replay of one case of one configuration
static inline int run_or_replay(std::vector<Task> &tasks, const std::string &out, int workers, bool replay,
                                const std::string &rcfg, const std::string &rhist) {
  if (!replay) return run(tasks, out, workers);
  std::vector<Task> one;
  for (auto &t : tasks)
    if (t.cfg == rcfg && one.empty()) {
      auto rp = t.replay;
      auto full = t.run;
      t.run = [rp, full, rhist](Ctx &ctx) {
        if (!ctx.resume.empty()) return;
        if (rhist == "<init>") return full(ctx);
        ctx.at(rhist);
        rp(ctx, rhist);
      };
      one.push_back(t);
    }
  if (one.empty()) return 2;
  return run(one, out, 1);
}

}  // namespace pool
