// A replacement for libgomp (and for the thread sanitizer run time).
//
// Team members are real threads (so thread-local data is real), but only the
// holder of a baton runs.  At every synchronisation operation - entering and
// leaving parallel regions, task creation, task pick-up, claiming a worksharing
// construct, critical sections, locks, barriers - the runtime asks the explorer
// which enabled thread (or task) proceeds.  Between two such operations a
// thread runs alone; that is sufficient provided there are no data races, and
// data races are detected separately from the compiler's memory access
// instrumentation (-fsanitize=thread code generation, runtime implemented here)
// with vector clocks that know only the happens-before edges of OpenMP
// synchronisation, not those of the baton.
#include "omprt.hpp"

#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <new>
#include <unordered_map>

#define EX extern "C" __attribute__((visibility("default")))

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
}

namespace {
constexpr int MAXT = 8;
constexpr int SHT = 3;  // threads the shadow memory distinguishes
typedef uint32_t clk;
struct VC {
  clk c[MAXT] = {0};
  void join(const VC &o) {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
enum St { DONE, RUN, BARRIER, LOCKWAIT, TASKWAIT, GUARDWAIT };
struct Task {
  void (*fn)(void *);
  char *data;
  char *raw;
  VC create;
  Task *parent;
  int children = 0;
  VC childvc;
  bool finished = false;
  int refs = 1;
};
struct Lock {
  int owner = -1;
  int depth = 0;
  VC vc;
};
struct Thr {
  int id = 0;
  sem_t sem;
  St st = DONE;
  VC vc;
  int ws = 0;  // worksharing constructs encountered
  int nest = 0;
  Task *task = nullptr;
  Lock *wait = nullptr;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  Task implicit;
  long loop_idx = -1;
};
struct Loop {
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool init = false;
};
struct Team {
  int n = 1;
  bool active = false;
  std::deque<Task *> pending;
  int running = 0, arrived = 0;
  uint64_t gen = 0;
  VC barvc;
  std::vector<char> claimed;
  std::vector<Loop> loops;
};
Thr thr[MAXT];
bool started[MAXT];
Team team;
int g_nthreads = 1;
volatile bool g_detect = false;  // accesses are checked right now
bool g_want_detect = false;
bool g_seen_instr = false;
std::vector<int> g_prefix;
omprt::Outcome g_out;
thread_local Thr *self = &thr[0];
std::map<void *, Lock> *g_locks;
std::unordered_map<uintptr_t, VC> *g_sync;

struct Quiet0 {
  bool s = g_detect;
  Quiet0() { g_detect = false; }
  ~Quiet0() { g_detect = s; }
};
Lock &lockOf(void *p) {
  Quiet0 q;
  if (!g_locks) g_locks = new std::map<void *, Lock>();
  return (*g_locks)[p];
}
VC &syncOf(uintptr_t p) {
  Quiet0 q;
  if (!g_sync) g_sync = new std::unordered_map<uintptr_t, VC>();
  return (*g_sync)[p];
}

// the runtime's own bookkeeping is not part of the program under test
struct Quiet {
  bool s = g_detect;
  Quiet() { g_detect = false; }
  ~Quiet() { g_detect = s; }
};
// ---- choices ------------------------------------------------------------
int choose(int n) {
  if (n <= 1) return 0;
  Quiet q;
  size_t i = g_out.points.size();
  int c = 0;
  if (i < g_prefix.size()) {
    c = g_prefix[i];
    if (c >= n) {
      g_out.diverged = true;
      c = 0;
    }
  }
  g_out.points.push_back({n, c});
  return c;
}
void growClaims(size_t i) {
  Quiet q;
  if (team.claimed.size() <= i) team.claimed.resize(i + 1, 0);
}
void growLoops(size_t i) {
  Quiet q;
  if (team.loops.size() <= i) team.loops.resize(i + 1);
}
void pushTask(Task *t) {
  Quiet q;
  team.pending.push_back(t);
}
bool barrierReady() {
  return team.arrived == team.n && team.pending.empty() && team.running == 0;
}
bool enabled(const Thr &t) {
  switch (t.st) {
    case RUN:
      return true;
    case BARRIER:
      return !team.pending.empty() || barrierReady();
    case LOCKWAIT:
      return t.wait->owner == -1;
    case TASKWAIT:
      return t.task->children == 0 || !team.pending.empty();
    default:
      return false;
  }
}
void die(const char *what) {
  // a deadlock cannot be unwound; report through stderr and stop
  fprintf(stderr, "omprt: %s\n", what);
  fflush(stderr);
  _exit(77);
}
void handTo(int t) {
  Thr *me = self;
  if (t == me->id) return;
  sem_post(&thr[t].sem);
  while (sem_wait(&me->sem) != 0) {
  }
}
// scheduling point: self's state has been set; returns when self may proceed
void schedule() {
  if (!team.active || team.n == 1) {
    if (!enabled(*self)) die("deadlock (single thread)");
    return;
  }
  int en[MAXT], n = 0;
  if (enabled(*self)) en[n++] = self->id;
  for (int i = 0; i < team.n; ++i)
    if (i != self->id && enabled(thr[i])) en[n++] = i;
  if (n == 0) die("deadlock: no team member can proceed");
  int k = en[choose(n)];
  handTo(k);
}
void release(VC &into) {
  into.join(self->vc);
  ++self->vc.c[self->id];
}
// ---- tasks --------------------------------------------------------------
void unref(Task *t) {
  if (--t->refs == 0) {
    if (t->raw) free(t->raw);
    Task *p = t->parent;
    delete t;
    (void)p;
  }
}
void runTask(Task *t) {
  Task *prev = self->task;
  St st = self->st;
  self->st = RUN;
  self->task = t;
  ++team.running;
  self->vc.join(t->create);
  t->fn(t->data);
  --team.running;
  self->task = prev;
  self->st = st;
  t->finished = true;
  if (t->parent) {
    --t->parent->children;
    t->parent->childvc.join(self->vc);
  }
  release(team.barvc);
  unref(t);
}
void pickAndRun() {
  int k = choose((int)team.pending.size());
  Task *t = team.pending[k];
  {
    Quiet q;
    team.pending.erase(team.pending.begin() + k);
  }
  runTask(t);
}
void barrier() {
  if (self->nest > 0 || !team.active) {
    return;
  }
  release(team.barvc);
  uint64_t gen = team.gen;
  self->st = BARRIER;
  ++team.arrived;
  while (true) {
    schedule();
    if (team.gen != gen) break;
    if (!team.pending.empty()) {
      pickAndRun();
      continue;
    }
    if (barrierReady()) {
      ++team.gen;
      team.arrived = 0;
      for (int i = 0; i < team.n; ++i) thr[i].st = RUN;
      break;
    }
  }
  self->st = RUN;
  self->vc.join(team.barvc);
}
void taskwait() {
  if (!team.active || self->nest > 0) return;
  while (self->task->children > 0) {
    St st = self->st;
    self->st = TASKWAIT;
    schedule();
    self->st = st;
    if (self->task->children > 0 && !team.pending.empty()) pickAndRun();
  }
  self->vc.join(self->task->childvc);
}
void lock(Lock &l) {
  ++g_out.criticals;
  if (!team.active) {
    l.owner = self->id;
    return;
  }
  self->st = RUN;
  schedule();
  while (l.owner != -1) {
    self->st = LOCKWAIT;
    self->wait = &l;
    schedule();
  }
  self->st = RUN;
  l.owner = self->id;
  self->vc.join(l.vc);
}
void unlock(Lock &l) {
  release(l.vc);
  l.owner = -1;
}
void initImplicit(Thr &t) {
  t.task = &t.implicit;
  t.implicit.parent = nullptr;
  t.implicit.raw = nullptr;
  t.implicit.children = 0;
  t.implicit.childvc = VC();
  t.ws = 0;
  t.nest = 0;
}
void *workerMain(void *p) {
  self = static_cast<Thr *>(p);
  while (true) {
    while (sem_wait(&self->sem) != 0) {
    }
    // first activation inside a region
    self->fn(self->data);
    barrier();
    // the region is over for this thread: give the baton back to whoever is
    // still to run (decided without a choice: only finishing work is left)
    self->st = DONE;
    int next = -1;
    for (int i = 1; i < team.n && next < 0; ++i)
      if (thr[i].st != DONE) next = i;
    if (next < 0) next = 0;
    sem_post(&thr[next].sem);
  }
  return nullptr;
}
void parallel(void (*fn)(void *), void *data, unsigned num) {
  if (team.active) {  // nested region: a team of one
    ++self->nest;
    int ws = self->ws;
    fn(data);
    self->ws = ws;
    --self->nest;
    return;
  }
  ++g_out.regions;
  int n = num ? (int)num : g_nthreads;
  if (n > MAXT) n = MAXT;
  if ((uint64_t)n > g_out.maxteam) g_out.maxteam = n;
  team.n = n;
  team.pending.clear();
  team.running = team.arrived = 0;
  team.claimed.clear();
  team.loops.clear();
  team.barvc = VC();
  team.active = true;
  ++thr[0].vc.c[0];
  for (int i = 0; i < n; ++i) {
    thr[i].id = i;
    initImplicit(thr[i]);
    thr[i].st = RUN;
    if (i) {
      thr[i].vc.join(thr[0].vc);
      ++thr[i].vc.c[i];
      thr[i].fn = fn;
      thr[i].data = data;
      if (!started[i]) {
        started[i] = true;
        sem_init(&thr[i].sem, 0, 0);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 64 << 20);
        pthread_t h;
        if (pthread_create(&h, &a, workerMain, &thr[i])) die("pthread_create");
        pthread_detach(h);
      }
    }
  }
  ++thr[0].vc.c[0];
  g_detect = g_want_detect && n > 1 && n <= SHT;
  schedule();
  fn(data);
  barrier();
  // drain: let the workers leave their final barrier
  thr[0].st = DONE;
  int next = -1;
  for (int i = 1; i < n && next < 0; ++i)
    if (thr[i].st != DONE) next = i;
  if (next > 0) {
    sem_post(&thr[next].sem);
    while (sem_wait(&thr[0].sem) != 0) {
    }
  }
  g_detect = false;
  team.active = false;
  for (int i = 0; i < n; ++i) thr[0].vc.join(thr[i].vc);
  ++thr[0].vc.c[0];
  thr[0].st = RUN;
}

// ---- shadow memory --------------------------------------------------------
struct Cell {
  clk w[SHT], r[SHT];
  uint32_t wpc[SHT], rpc[SHT];
  uint8_t wm[SHT], rm[SHT];
};
constexpr uintptr_t PAGE = 4096, CELLS = PAGE / 4;
Cell **L1[1 << 18];
extern "C" char __executable_start;
Cell *cellOf(uintptr_t a) {
  uintptr_t pg = a / PAGE;
  uintptr_t i1 = pg >> 17, i2 = pg & ((1 << 17) - 1);
  if (i1 >= (1 << 18)) return nullptr;
  Cell **&l2 = L1[i1];
  if (!l2) {
    l2 = static_cast<Cell **>(mmap(0, sizeof(Cell *) << 17, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  Cell *&p = l2[i2];
  if (!p)
    p = static_cast<Cell *>(mmap(0, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  return &p[(a % PAGE) / 4];
}
void clearShadow(uintptr_t a, size_t n) {
  uintptr_t e = a + n;
  a &= ~(uintptr_t)3;
  while (a < e) {
    uintptr_t pg = a / PAGE, i1 = pg >> 17, i2 = pg & ((1 << 17) - 1);
    uintptr_t pe = (pg + 1) * PAGE;
    uintptr_t stop = pe < e ? pe : e;
    if (i1 < (1 << 18) && L1[i1] && L1[i1][i2]) {
      Cell *c = &L1[i1][i2][(a % PAGE) / 4];
      __real_memset(c, 0, sizeof(Cell) * ((stop - a + 3) / 4));
    }
    a = stop;
  }
}
void report(const char *k, uintptr_t a, int t1, uint32_t pc1, int t2, uint32_t pc2) {
  if (!g_out.race.empty()) return;
  char b[300];
  snprintf(b, sizeof b, "data race: %s at %p: thread %d (exe+0x%x) and thread %d (exe+0x%x) are unordered", k,
           (void *)a, t1, pc1, t2, pc2);
  g_out.race = b;
}
inline void access(uintptr_t a, size_t n, bool wr, uintptr_t pc0) {
  int me = self->id;
  const VC &vc = self->vc;
  uint32_t pc = (uint32_t)(pc0 - (uintptr_t)&__executable_start);
  ++g_out.accesses;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~(uintptr_t)3;
    uintptr_t stop = g + 4 < e ? g + 4 : e;
    uint8_t mask = (uint8_t)(((1u << (stop - g)) - 1) & ~((1u << (a - g)) - 1));
    Cell *c = cellOf(g);
    if (c) {
      for (int t = 0; t < SHT; ++t) {
        if (t == me) continue;
        if (c->w[t] > vc.c[t] && (c->wm[t] & mask))
          report(wr ? "write/write" : "read of unsynchronised write", g, t, c->wpc[t], me, pc);
        if (wr && c->r[t] > vc.c[t] && (c->rm[t] & mask))
          report("write after unsynchronised read", g, t, c->rpc[t], me, pc);
      }
      // clocks are at least 1 inside a region, so 0 means "never accessed"
      clk now = vc.c[me];
      if (wr) {
        c->wm[me] = c->w[me] == now ? c->wm[me] | mask : mask;
        c->w[me] = now;
        c->wpc[me] = pc;
      } else {
        c->rm[me] = c->r[me] == now ? c->rm[me] | mask : mask;
        c->r[me] = now;
        c->rpc[me] = pc;
      }
    }
    a = stop;
  }
}
}  // namespace

namespace omprt {
void begin(int nthreads, const std::vector<int> &prefix, bool detect) {
  static bool init = false;
  if (!init) {
    init = true;
    for (int i = 0; i < MAXT; ++i) thr[i].id = i;
    sem_init(&thr[0].sem, 0, 0);
  }
  g_nthreads = nthreads;
  g_prefix = prefix;
  g_out = Outcome();
  g_want_detect = detect;
  thr[0].st = RUN;
}
Outcome end() {
  Outcome o;
  std::swap(o, g_out);
  if (o.points.size() < g_prefix.size()) o.diverged = true;
  g_prefix.clear();
  return o;
}
void yield() {
  if (!team.active || team.n == 1 || self->nest > 0) return;
  self->st = RUN;
  schedule();
}
bool instrumented() { return g_seen_instr; }
}  // namespace omprt

// ---- libgomp ABI -------------------------------------------------------------
EX void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); }
EX bool GOMP_single_start() {
  if (!team.active || self->nest > 0 || team.n == 1) {
    ++g_out.claims;
    return true;
  }
  size_t idx = self->ws++;
  growClaims(idx);
  if (team.claimed[idx]) return false;
  self->st = RUN;
  schedule();
  growClaims(idx);
  if (team.claimed[idx]) return false;
  team.claimed[idx] = 1;
  ++g_out.claims;
  return true;
}
EX void GOMP_barrier() { barrier(); }
EX void GOMP_taskwait() { taskwait(); }
EX void GOMP_taskyield() {}
EX void GOMP_taskgroup_start() {}
EX void GOMP_taskgroup_end() { taskwait(); }
EX void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool ifc,
                  unsigned flags, void **, int, void *) {
  ++g_out.tasks;
  char *raw = nullptr, *arg = static_cast<char *>(data);
  bool defer = ifc && team.active && team.n > 1 && self->nest == 0 && !(flags & 2 /*final*/) && !(flags & 8 /*depend*/);
  if (defer) {
    self->st = RUN;
    if (choose(2) == 1) defer = false;
  }
  if (defer || cpy) {
    raw = static_cast<char *>(__real_malloc(size + align + 16));
    clearShadow((uintptr_t)raw, size + align + 16);
    arg = (char *)(((uintptr_t)raw + align - 1) & ~(uintptr_t)(align - 1));
    if (cpy)
      cpy(arg, data);
    else
      __real_memcpy(arg, data, size);
  }
  if (!defer) {
    Task t;
    t.fn = fn;
    t.data = arg;
    t.raw = nullptr;
    t.parent = nullptr;
    Task *prev = self->task;
    if (team.active && self->nest == 0) self->task = &t;
    fn(arg);
    self->task = prev;
    if (raw) free(raw);
    return;
  }
  Task *t = new Task();
  t->fn = fn;
  t->data = arg;
  t->raw = raw;
  t->parent = self->task;
  ++self->task->children;
  release(t->create);
  pushTask(t);
  schedule();
}
static int g_unnamed;  // key of the unnamed critical section
EX void GOMP_critical_start() { lock(lockOf(&g_unnamed)); }
EX void GOMP_critical_end() { unlock(lockOf(&g_unnamed)); }
EX void GOMP_critical_name_start(void **p) { lock(lockOf(p)); }
EX void GOMP_critical_name_end(void **p) { unlock(lockOf(p)); }
static int g_atomic_key;
EX void GOMP_atomic_start() { lock(lockOf(&g_atomic_key)); }
EX void GOMP_atomic_end() { unlock(lockOf(&g_atomic_key)); }
EX void GOMP_ordered_start() { die("ordered not supported"); }
EX void GOMP_ordered_end() {}
EX bool GOMP_cancel(int, bool) { return false; }
EX bool GOMP_cancellation_point(int) { return false; }
// loops
static bool loopStart(long s, long e, long inc, long ch, long *is, long *ie);
static bool loopNext(long *is, long *ie) {
  static thread_local Loop own;
  Loop *l;
  if (!team.active || self->nest > 0) {
    l = &own;
  } else {
    self->st = RUN;
    schedule();
    l = &team.loops[self->loop_idx];
  }
  bool more = l->incr > 0 ? l->next < l->end : l->next > l->end;
  if (!more) return false;
  *is = l->next;
  long stop = l->next + l->incr * l->chunk;
  if (l->incr > 0 ? stop > l->end : stop < l->end) stop = l->end;
  *ie = stop;
  l->next = stop;
  ++g_out.claims;
  return true;
}
static bool loopStart(long s, long e, long inc, long ch, long *is, long *ie) {
  if (!team.active || self->nest > 0 || team.n == 1) {
    if (inc > 0 ? s >= e : s <= e) return false;
    *is = s;
    *ie = e;
    if (team.active && self->nest == 0) {
      size_t i = self->ws++;
      growLoops(i);
      team.loops[i].next = e, team.loops[i].end = e, team.loops[i].incr = inc, team.loops[i].init = true;
      self->loop_idx = i;
    }
    return true;
  }
  size_t idx = self->ws++;
  growLoops(idx);
  Loop &l = team.loops[idx];
  if (!l.init) {
    l.init = true;
    l.next = s, l.end = e, l.incr = inc, l.chunk = ch > 0 ? ch : 1;
  }
  self->loop_idx = idx;
  return loopNext(is, ie);
}
#define LOOPS(X)                                                                                            \
  EX bool GOMP_loop_##X##_start(long s, long e, long inc, long ch, long *is, long *ie) {                   \
    return loopStart(s, e, inc, ch, is, ie);                                                                \
  }                                                                                                         \
  EX bool GOMP_loop_##X##_next(long *is, long *ie) { return loopNext(is, ie); }                            \
  EX bool GOMP_loop_ull_##X##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, \
                                    unsigned long long c, unsigned long long *is, unsigned long long *ie) { \
    return loopStart((long)s, (long)e, (long)i, (long)c, (long *)is, (long *)ie);                           \
  }                                                                                                         \
  EX bool GOMP_loop_ull_##X##_next(unsigned long long *is, unsigned long long *ie) {                        \
    return loopNext((long *)is, (long *)ie);                                                                \
  }                                                                                                         \
  EX void GOMP_parallel_loop_##X(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned);
LOOPS(dynamic)
LOOPS(guided)
LOOPS(static)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
#undef LOOPS
EX bool GOMP_loop_runtime_start(long s, long e, long inc, long *is, long *ie) { return loopStart(s, e, inc, 1, is, ie); }
EX bool GOMP_loop_runtime_next(long *is, long *ie) { return loopNext(is, ie); }
EX bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long inc, long *is, long *ie) { return loopStart(s, e, inc, 1, is, ie); }
EX bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loopNext(is, ie); }
EX void GOMP_loop_end() { barrier(); }
EX void GOMP_loop_end_nowait() {}
// combined parallel loops: the outlined body calls *_next only, so the loop is
// registered before the team starts
namespace {
struct PL {
  void (*fn)(void *);
  void *d;
  long s, e, i, c;
};
void plBody(void *p) {
  PL *q = static_cast<PL *>(p);
  if (team.active && self->nest == 0) {
    size_t idx = self->ws++;
    growLoops(idx);
    Loop &l = team.loops[idx];
    if (!l.init) l.init = true, l.next = q->s, l.end = q->e, l.incr = q->i, l.chunk = q->c > 0 ? q->c : 1;
    self->loop_idx = idx;
  }
  q->fn(q->d);
}
void ploop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) {
  if (team.active) die("nested combined parallel loop not supported");
  PL p = {fn, d, s, e, i, c};
  parallel(plBody, &p, n);
}
}  // namespace
#define PLOOP(X) \
  EX void GOMP_parallel_loop_##X(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
PLOOP(dynamic)
PLOOP(guided)
PLOOP(static)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)
#undef PLOOP
EX void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
EX void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
EX unsigned GOMP_sections_next() {
  long a, b;
  return loopNext(&a, &b) ? (unsigned)a : 0;
}
EX unsigned GOMP_sections_start(unsigned n) {
  if (!team.active || self->nest > 0) die("sections outside a team not supported");
  size_t idx = self->ws++;
  growLoops(idx);
  Loop &l = team.loops[idx];
  if (!l.init) l.init = true, l.next = 1, l.end = (long)n + 1, l.incr = 1, l.chunk = 1;
  self->loop_idx = idx;
  return GOMP_sections_next();
}
EX void GOMP_sections_end() { barrier(); }
EX void GOMP_sections_end_nowait() {}
EX void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) { ploop(fn, d, n, 1, (long)cnt + 1, 1, 1); }
EX void *GOMP_single_copy_start() { die("copyprivate not supported"); return nullptr; }
EX void GOMP_single_copy_end(void *) {}

// ---- omp_* API -----------------------------------------------------------------
EX int omp_get_thread_num() { return team.active && self->nest == 0 ? self->id : 0; }
EX int omp_get_num_threads() { return team.active && self->nest == 0 ? team.n : 1; }
EX int omp_get_max_threads() { return g_nthreads; }
EX int omp_get_num_procs() { return g_nthreads; }
EX int omp_get_thread_limit() { return MAXT; }
EX void omp_set_num_threads(int n) { if (n > 0) g_nthreads = n > MAXT ? MAXT : n; }
EX int omp_in_parallel() { return team.active && team.n > 1; }
EX int omp_get_level() { return team.active ? 1 + self->nest : 0; }
EX int omp_get_active_level() { return team.active ? 1 : 0; }
EX void omp_set_dynamic(int) {}
EX int omp_get_dynamic() { return 0; }
EX void omp_set_nested(int) {}
EX int omp_get_nested() { return 0; }
EX void omp_set_max_active_levels(int) {}
EX int omp_get_max_active_levels() { return 1; }
EX double omp_get_wtime() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
EX void omp_init_lock(void **l) { lockOf(l) = Lock(); }
EX void omp_destroy_lock(void **) {}
EX void omp_set_lock(void **l) { lock(lockOf(l)); }
EX void omp_unset_lock(void **l) { unlock(lockOf(l)); }
EX int omp_test_lock(void **l) {
  schedule();
  Lock &k = lockOf(l);
  if (k.owner != -1) return 0;
  k.owner = self->id;
  self->vc.join(k.vc);
  return 1;
}
// ---- pthread mutexes and static guards used from instrumented code ----------------
EX int __wrap_pthread_mutex_lock(void *m) { lock(lockOf(m)); return 0; }
EX int __wrap_pthread_mutex_unlock(void *m) { unlock(lockOf(m)); return 0; }
EX int __wrap_pthread_mutex_trylock(void *m) { return omp_test_lock((void **)m) ? 0 : 16; }
EX int __wrap___cxa_guard_acquire(char *g) {
  if (*g) {
    self->vc.join(syncOf((uintptr_t)g));
    return 0;
  }
  Lock &l = lockOf(g);
  lock(l);
  if (*g) {
    unlock(l);
    return 0;
  }
  return 1;
}
EX void __wrap___cxa_guard_release(char *g) {
  *g = 1;
  release(syncOf((uintptr_t)g));
  unlock(lockOf(g));
}
EX void __wrap___cxa_guard_abort(char *g) { unlock(lockOf(g)); }

// ---- allocation: fresh memory has no history ------------------------------------------
EX void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (g_detect && p) clearShadow((uintptr_t)p, n);
  return p;
}
EX void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  if (g_detect && p) clearShadow((uintptr_t)p, a * b);
  return p;
}
EX void *__wrap_realloc(void *q, size_t n) {
  void *p = __real_realloc(q, n);
  if (g_detect && p) clearShadow((uintptr_t)p, n);
  return p;
}
EX void *__wrap_aligned_alloc(size_t a, size_t n) {
  void *p = __real_aligned_alloc(a, n);
  if (g_detect && p) clearShadow((uintptr_t)p, n);
  return p;
}
EX int __wrap_posix_memalign(void **q, size_t a, size_t n) {
  int r = __real_posix_memalign(q, a, n);
  if (g_detect && !r) clearShadow((uintptr_t)*q, n);
  return r;
}
void *operator new(size_t n) {
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_detect) clearShadow((uintptr_t)p, n);
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// ---- instrumentation ABI ------------------------------------------------------------
#define PC ((uintptr_t)__builtin_return_address(0))
EX void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (g_detect && n) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  return __real_memcpy(d, s, n);
}
EX void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (g_detect && n) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  return __real_memmove(d, s, n);
}
EX void *__wrap_memset(void *d, int c, size_t n) {
  if (g_detect && n) access((uintptr_t)d, n, true, PC);
  return __real_memset(d, c, n);
}
EX void __tsan_init() { g_seen_instr = true; }
EX void __tsan_func_entry(void *) {}
EX void __tsan_func_exit() {}
#define RW(N)                                                                                          \
  EX void __tsan_read##N(void *a) { if (g_detect) access((uintptr_t)a, N, false, PC); }                \
  EX void __tsan_write##N(void *a) { if (g_detect) access((uintptr_t)a, N, true, PC); }                \
  EX void __tsan_volatile_read##N(void *a) { if (g_detect) access((uintptr_t)a, N, false, PC); }       \
  EX void __tsan_volatile_write##N(void *a) { if (g_detect) access((uintptr_t)a, N, true, PC); }       \
  EX void __tsan_unaligned_read##N(void *a) { if (g_detect) access((uintptr_t)a, N, false, PC); }      \
  EX void __tsan_unaligned_write##N(void *a) { if (g_detect) access((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
EX void __tsan_read_range(void *a, size_t n) { if (g_detect && n) access((uintptr_t)a, n, false, PC); }
EX void __tsan_write_range(void *a, size_t n) { if (g_detect && n) access((uintptr_t)a, n, true, PC); }
EX void __tsan_vptr_update(void **a, void *v) { if (g_detect && *a != v) access((uintptr_t)a, 8, true, PC); }
EX void __tsan_vptr_read(void **a) { if (g_detect) access((uintptr_t)a, 8, false, PC); }

// atomics: performed natively; acquire/release edges through a per-address clock
namespace {
inline void acq(void *a, int mo) {
  if (g_detect && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) self->vc.join(syncOf((uintptr_t)a));
}
inline void rel(void *a, int mo) {
  if (g_detect && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(syncOf((uintptr_t)a));
}
}  // namespace
#define ATOMIC(N, T)                                                                                           \
  EX T __tsan_atomic##N##_load(const volatile T *a, int mo) { T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); acq((void *)a, mo); return v; } \
  EX void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { rel((void *)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }          \
  EX T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { rel((void *)a, mo); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); acq((void *)a, mo); return r; } \
  EX T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { rel((void *)a, mo); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); acq((void *)a, mo); return r; } \
  EX T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { rel((void *)a, mo); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); acq((void *)a, mo); return r; } \
  EX T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { rel((void *)a, mo); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); acq((void *)a, mo); return r; } \
  EX T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { rel((void *)a, mo); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); acq((void *)a, mo); return r; } \
  EX T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { rel((void *)a, mo); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); acq((void *)a, mo); return r; } \
  EX bool __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) { rel((void *)a, mo); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acq((void *)a, mo); return r; } \
  EX bool __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, f); } \
  EX T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, f); return e; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
EX void __tsan_atomic_thread_fence(int) {}
EX void __tsan_atomic_signal_fence(int) {}
