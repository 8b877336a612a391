// Controlled scheduler: the tasks of a GThreadPool run on real threads, but only the thread that holds the baton runs.  At
// every scheduling point the explorer decides who continues; the baton itself is invisible to ThreadSanitizer (raw futex,
// uninstrumented functions), so that the happens-before order it sees is the program's own: task hand-over, completion and
// GMutex operations are annotated, nothing else is.
#pragma once
#include <glib.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <string>
#include <vector>

#define NOTSAN __attribute__((no_sanitize("thread"), noinline))
#ifdef __SANITIZE_THREAD__
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
#else
static inline void __tsan_acquire(void *) {}
static inline void __tsan_release(void *) {}
#endif

namespace sched {
enum { MAXT = 8, MAXP = 100000, MAXQ = 64, MAXM = 16 };
struct Point {
  unsigned char n, chosen, cur_first;
};
struct State {
  bool active;
  int nthr;               // threads 0 (caller) .. nthr-1
  int cur;
  int go[MAXT];           // futex words
  int want[MAXT];         // what a thread waits for: see enabled()
  void *on[MAXT];
  bool dead[MAXT];
  bool yielded[MAXT];
  bool used[MAXT];        // has run a task
  void *locked[MAXM];
  int nlocked;
  // the pool
  GFunc func;
  gpointer udata;
  gpointer q[MAXQ];
  int qh, qt, done;
  bool shut;
  pthread_t tid[MAXT];
  // exploration
  const unsigned char *prefix;
  int nprefix;
  Point *pts;
  int npts;
  long steps;
  int error;  // 1 deadlock, 2 endless
  void (*fail)(int);
};
static State S;
static __thread int me = -1;
enum { RUN, QUEUE, ALLDONE, LOCK };

NOTSAN static long fut(int *a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
NOTSAN static void wait_go(int t) {
  while (__atomic_load_n(&S.go[t], __ATOMIC_ACQUIRE) == 0) fut(&S.go[t], FUTEX_WAIT, 0);
  __atomic_store_n(&S.go[t], 0, __ATOMIC_RELAXED);
}
NOTSAN static void give(int t) {
  __atomic_store_n(&S.go[t], 1, __ATOMIC_RELEASE);
  fut(&S.go[t], FUTEX_WAKE, 1);
}
NOTSAN static bool is_locked(void *m) {
  for (int i = 0; i < S.nlocked; i++)
    if (S.locked[i] == m) return true;
  return false;
}
NOTSAN static bool enabled(int t) {
  if (S.dead[t]) return false;
  if (S.want[t] == QUEUE && !S.used[t] && t != me)  // idle threads are alike: the first of them stands for all
    for (int i = 1; i < t; i++)
      if (i != me && !S.dead[i] && S.want[i] == QUEUE && !S.used[i]) return false;
  switch (S.want[t]) {
    case QUEUE: return S.qh < S.qt || S.shut;
    case ALLDONE: return S.done == S.qt;
    case LOCK: return !is_locked(S.on[t]);
  }
  return true;
}
// the running thread offers the baton; returns when it is its turn again
// soft: a thread between two tasks; the others come first and switching to them is no preemption
NOTSAN static void point(bool soft = false) {
  if (!S.active || me < 0) return;
  int cand[MAXT], n = 0;
  for (int i = 0; i < S.nthr; i++)
    if (i != me) S.yielded[i] = false;  // a sleeper may wake after another thread's step
  bool me_ok = enabled(me) && !S.yielded[me], cur_ok = me_ok && !soft;
  if (cur_ok) cand[n++] = me;
  for (int i = 0; i < S.nthr; i++)
    if (i != me && enabled(i) && !S.yielded[i]) cand[n++] = i;
  if (me_ok && soft) cand[n++] = me;
  if (n == 0)
    for (int i = 0; i < S.nthr; i++)
      if (enabled(i)) cand[n++] = i;
  if (n == 0 || S.npts >= MAXP || ++S.steps > 20 * MAXP) {
    S.error = n == 0 ? 1 : 2;
    S.fail(S.error);
  }
  int c = 0;
  if (n > 1) {
    if (S.npts < S.nprefix) c = S.prefix[S.npts] < n ? S.prefix[S.npts] : 0;
    S.pts[S.npts].n = n;
    S.pts[S.npts].chosen = c;
    S.pts[S.npts].cur_first = cur_ok || soft;
    S.npts++;
  }
  int t = cand[c];
  S.yielded[t] = false;
  if (t == me) return;
  S.cur = t;
  int self = me;
  give(t);
  if (!S.dead[self]) wait_go(self);
}
NOTSAN static void block(int what, void *on) {
  S.want[me] = what;
  S.on[me] = on;
  point(what == QUEUE);
  S.want[me] = RUN;
}
NOTSAN static gpointer take(bool &stop) {
  block(QUEUE, nullptr);
  if (S.qh < S.qt) {
    stop = false;
    S.used[me] = true;
    return S.q[S.qh++];
  }
  stop = true;
  return nullptr;
}
NOTSAN static void enter(int t) {
  me = t;
  wait_go(t);
}
NOTSAN static void leave() {
  S.dead[me] = true;
  point();
}
NOTSAN static void finished() {
  S.done++;
}
static char g_tag[MAXQ + 1];  // addresses for the happens-before annotations
NOTSAN static int index_of() { return S.qh - 1; }
static void *worker(void *a) {
  enter((int)(long)a);
  for (;;) {
    bool stop;
    gpointer d = take(stop);
    if (stop) break;
    __tsan_acquire(&g_tag[index_of()]);
    S.func(d, S.udata);
    __tsan_release(&g_tag[MAXQ]);
    finished();
    point();
  }
  leave();
  return nullptr;
}
NOTSAN static void reset(const unsigned char *prefix, int n) {
  Point *p = S.pts;
  void (*f)(int) = S.fail;
  for (size_t i = 0; i < sizeof S; i++) ((volatile char *)&S)[i] = 0;
  S.pts = p ? p : (Point *)calloc(MAXP + 1, sizeof(Point));
  S.fail = f;
  S.prefix = prefix;
  S.nprefix = n;
  S.nthr = 1;
  me = 0;
  S.active = true;
}
NOTSAN static void push_item(gpointer d) { S.q[S.qt++] = d; }
NOTSAN static void add_worker() {
  int t = S.nthr;
  S.want[t] = QUEUE;
  S.nthr++;
}
NOTSAN static void shut_down() {
  S.shut = true;
}
NOTSAN static bool all_dead() {
  for (int i = 1; i < S.nthr; i++)
    if (!S.dead[i]) return false;
  return true;
}
NOTSAN static void drop_queue() { S.qt = S.qh; }
NOTSAN static void stop() { S.active = false; }
NOTSAN static bool pending() { return S.nthr > 1; }

}  // namespace sched

extern "C" {
static GThreadPool g_the_pool;
GThreadPool *g_thread_pool_new(GFunc f, gpointer u, gint n, gboolean, GError **) {
  using namespace sched;
  S.func = f;
  S.udata = u;
  if (n < 1) n = 1;
  if (n > MAXT - 1) n = MAXT - 1;
  S.shut = false;
  S.qh = S.qt = S.done = 0;
  for (int i = 0; i < n; i++) {
    int t = S.nthr;
    add_worker();
    pthread_create(&S.tid[t], nullptr, worker, (void *)(long)t);
  }
  point();
  return &g_the_pool;
}
gboolean g_thread_pool_push(GThreadPool *, gpointer d, GError **) {
  using namespace sched;
  point();
  __tsan_release(&g_tag[S.qt]);
  push_item(d);
  point();
  return TRUE;
}
void g_thread_pool_free(GThreadPool *, gboolean immediate, gboolean wait) {
  using namespace sched;
  point();
  if (immediate) drop_queue();
  if (!wait && S.done != S.qt) return;
  block(ALLDONE, nullptr);
  __tsan_acquire(&g_tag[MAXQ]);
  // the workers leave one after the other, without further choices
  shut_down();
  for (int i = 1; i < S.nthr; i++)
    if (!S.dead[i]) {
      S.want[i] = RUN;
    }
  S.active = false;
  for (int i = 1; i < S.nthr; i++)
    if (!S.dead[i]) {
      S.dead[i] = false;
      give(i);
      pthread_join(S.tid[i], nullptr);
    }
  S.nthr = 1;
  S.active = true;
}
void g_mutex_init(GMutex *) {}
void g_mutex_clear(GMutex *) {}
NOTSAN void g_mutex_lock(GMutex *m) {
  using namespace sched;
  if (S.active && me >= 0) {
    point();
    while (is_locked(m)) block(LOCK, m);
    S.locked[S.nlocked++] = m;
  }
  __tsan_acquire(m);
}
NOTSAN void g_mutex_unlock(GMutex *m) {
  using namespace sched;
  __tsan_release(m);
  if (S.active && me >= 0) {
    for (int i = 0; i < S.nlocked; i++)
      if (S.locked[i] == m) {
        S.locked[i] = S.locked[--S.nlocked];
        break;
      }
    point();
  }
}
NOTSAN gboolean g_mutex_trylock(GMutex *m) {
  using namespace sched;
  if (S.active && me >= 0) {
    point();
    if (is_locked(m)) return FALSE;
    S.locked[S.nlocked++] = m;
  }
  __tsan_acquire(m);
  return TRUE;
}
// condition variables: a waiter sleeps until a signal (any signal wakes all of them, as a spurious wake-up may)
void g_cond_init(GCond *) {}
void g_cond_clear(GCond *) {}
NOTSAN void g_cond_wait(GCond *c, GMutex *m) {
  using namespace sched;
  g_mutex_unlock(m);
  if (S.active && me >= 0) {
    S.yielded[me] = true;
    point();
  }
  (void)c;
  g_mutex_lock(m);
}
void g_cond_signal(GCond *) { sched::point(); }
void g_cond_broadcast(GCond *) { sched::point(); }
NOTSAN static void doze() {
  using namespace sched;
  if (S.active && me >= 0) {
    S.yielded[me] = true;
    point();
  }
}
NOTSAN unsigned sleep(unsigned) {
  doze();
  return 0;
}
NOTSAN int usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  if (!sched::S.active || sched::me < 0) return syscall(SYS_nanosleep, &t, nullptr);
  doze();
  return 0;
}
NOTSAN void g_usleep(gulong) { doze(); }
NOTSAN int sched_yield(void) {
  doze();
  return 0;
}
guint g_thread_pool_unprocessed(GThreadPool *) { return sched::S.qt - sched::S.qh; }
guint g_thread_pool_get_num_threads(GThreadPool *) { return sched::S.nthr - 1; }
// pthread mutexes of the library (logging): a blocked thread passes the baton on
int __real_pthread_mutex_lock(pthread_mutex_t *m);
NOTSAN int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  using namespace sched;
  if (S.active && me >= 0)
    while (pthread_mutex_trylock(m) != 0) {
      S.yielded[me] = true;
      point();
    }
  else
    return __real_pthread_mutex_lock(m);
  return 0;
}
}
