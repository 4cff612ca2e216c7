#include "mcsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cxxabi.h>
#include <malloc.h>
#include <new>
#include <exception>

namespace {

constexpr int kMaxT = 8;

struct VC {
  uint32_t c[kMaxT];
  void join(const VC& o) {
    for (int i = 0; i < kMaxT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum St { Ready, BlockedMutex, BlockedRd, BlockedWr, BlockedCond, BlockedJoin, Done };

struct Thr {
  int id;
  St st;
  void* obj;       // what it is blocked on
  void* mutex;     // for cond waits: the mutex to take again
  bool signalled;
  VC vc;
  volatile int go;  // futex
  const std::function<void()>* body;
  void* (*fn)(void*);
  void* arg;
  pthread_t real;
  bool spawned;  // by the code under test
  pthread_t handle;
};

struct Sync {  // mutex, rwlock, condition variable or atomic, by address
  void* addr;
  int owner;           // mutex or writer: thread, -1 free
  int readers[kMaxT];  // read acquisitions by thread
  int nread;
  int depth;
  VC vc;
  VC rvc;  // what readers released
};

struct Cell {
  uintptr_t g;
  uint32_t epoch;
  uint32_t w[kMaxT], r[kMaxT];
  uint8_t wm[kMaxT], rm[kMaxT];
  void *wpc[kMaxT], *rpc[kMaxT];
  void* freed;  // where the memory was given back
};

constexpr size_t kCells = 1 << 16, kSyncs = 1 << 13;
Cell* cells;
uint32_t cell_epoch = 0;
Sync* syncs;
size_t sync_used[kSyncs];
size_t n_sync_used = 0;

Thr T[kMaxT];
int nT = 0;
int cur = -1;
bool active = false;       // an execution is under way
bool freerun = false;      // the rest of the execution belongs to another worker
mc::Ctx* ctx = nullptr;
int preempt_left = 0, spurious_left = 0;
volatile int main_go = 0;
bool have_viol = false;
char viol_key[1024], viol_what[4096];
std::exception_ptr escape;  // Prune/SkipShard thrown by the explorer
uint64_t n_points, n_switches;
uint64_t clock_;

thread_local int me = -1;
thread_local int quiet = 0;  // inside the scheduler or in code whose accesses do not count

long futex(volatile int* a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
void park(volatile int* a) {
  for (int i = 0; i < 200; ++i) {
    if (__atomic_load_n(a, __ATOMIC_ACQUIRE)) {
      __atomic_store_n(a, 0, __ATOMIC_RELEASE);
      return;
    }
  }
  while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) futex(a, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
void wake(volatile int* a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  futex(a, FUTEX_WAKE_PRIVATE, 1);
}

Sync* sync(void* a) {
  size_t h = ((uintptr_t)a >> 3) * 0x9e3779b97f4a7c15ULL >> 40;
  for (size_t i = h & (kSyncs - 1);; i = (i + 1) & (kSyncs - 1)) {
    if (syncs[i].addr == a) return &syncs[i];
    if (!syncs[i].addr) {
      memset(&syncs[i], 0, sizeof(Sync));
      syncs[i].addr = a;
      syncs[i].owner = -1;
      sync_used[n_sync_used++] = i;
      if (n_sync_used > kSyncs / 2) {
        fprintf(stderr, "too many sync objects\n");
        _exit(97);
      }
      return &syncs[i];
    }
  }
}

void symbol(void* pc, char* out, size_t n) {
  Dl_info d;
  if (pc && dladdr(pc, &d) && d.dli_sname) {
    int st = 0;
    char* dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    snprintf(out, n, "%s", dm ? dm : d.dli_sname);
    ::free(dm);
    char* p = strchr(out, '(');
    if (p && p != out) *p = 0;
  } else if (pc && dladdr(pc, &d) && d.dli_fname) {
    const char* b = strrchr(d.dli_fname, '/');
    snprintf(out, n, "%s+%lx", b ? b + 1 : d.dli_fname, (unsigned long)((char*)pc - (char*)d.dli_fbase));
  } else {
    snprintf(out, n, "?");
  }
}

void setViol(const char* key, const char* what) {
  if (have_viol || freerun) return;
  have_viol = true;
  snprintf(viol_key, sizeof viol_key, "%s", key);
  snprintf(viol_what, sizeof viol_what, "%s", what);
}

[[noreturn]] void stopHere() {
  // leave the execution to the main thread for good; this thread never runs again
  wake(&main_go);
  while (true) pause();
}

bool mutexFree(Sync* s, int t) { return s->owner < 0 && s->nread == 0; }
bool enabled(int t) {
  Thr& x = T[t];
  switch (x.st) {
    case Ready: return true;
    case BlockedMutex:
    case BlockedWr: return mutexFree(sync(x.obj), t);
    case BlockedRd: return sync(x.obj)->owner < 0;
    case BlockedCond: return false;  // becomes BlockedMutex when signalled
    case BlockedJoin: {
      for (int i = 0; i < nT; ++i)
        if (T[i].spawned && (void*)T[i].handle == x.obj) return T[i].st == Done;
      return true;
    }
    case Done: return false;
  }
  return false;
}

size_t pick(size_t n, const char* label) {
  if (freerun || n <= 1) return 0;
  try {
    ++quiet;
    size_t r = ctx->choose(n, label);
    --quiet;
    return r;
  } catch (...) {
    --quiet;
    escape = std::current_exception();
    freerun = true;
    return 0;
  }
}

// The running thread gives up the processor: decides who is next. can_continue: it could go on.
void reschedule(bool can_continue) {
  ++n_points;
  ++clock_;
  int opt[kMaxT], n = 0, spur[kMaxT];
  int self = me;
  if (can_continue) {
    opt[n++] = self;
    if (preempt_left > 0 && !freerun) {
      for (int i = 0; i < nT; ++i)
        if (i != self && enabled(i)) opt[n++] = i;
    }
  } else {
    for (int i = 0; i < nT; ++i)
      if (i != self && enabled(i)) opt[n++] = i;
    if (enabled(self)) opt[n++] = self;
  }
  int nreg = n;
  if (spurious_left > 0 && !freerun) {
    for (int i = 0; i < nT; ++i)
      if (T[i].st == BlockedCond && n < kMaxT) {
        opt[n] = i;
        spur[n++] = 1;
      }
  }
  if (nreg == 0) {
    bool all_done = true;
    for (int i = 0; i < nT; ++i) all_done &= T[i].st == Done;
    if (all_done) {
      cur = -1;
      wake(&main_go);
      return;
    }
    if (freerun) _exit(5);
    char b[2048];
    int k = 0;
    static const char* nm[] = {"ready", "waits for a mutex", "waits to read-lock", "waits to write-lock", "waits for a condition", "waits for a thread", "done"};
    for (int i = 0; i < nT && k < 1500; ++i) k += snprintf(b + k, sizeof b - k, "%sthread %d %s", i ? ", " : "", i, nm[T[i].st]);
    setViol("deadlock", (std::string("no thread can go on: ") + b).c_str());
    stopHere();
  }
  size_t k = pick(n, "schedule");
  int next = opt[k];
  if ((int)k >= nreg) {  // spurious wake-up of a waiter: it will take its mutex again
    --spurious_left;
    T[next].st = BlockedMutex;
    T[next].obj = T[next].mutex;
    if (!enabled(next)) {  // stays with us
      if (can_continue) return;
      reschedule(false);
      return;
    }
  }
  if (can_continue && next != self) --preempt_left;
  if (next == self) return;
  ++n_switches;
  cur = next;
  bool over = T[self].st == Done;
  wake(&T[next].go);
  if (!over) {
    park(&T[self].go);
    cur = self;
  }
}

inline bool modelled() { return active && me >= 0 && quiet == 0; }

void yieldPoint() {
  ++quiet;
  reschedule(true);
  --quiet;
}

void report(uintptr_t a, size_t n, void* pc, bool write, int t2, void* pc2, bool write2) {
  char s1[512], s2[512];
  symbol(pc, s1, sizeof s1);
  symbol(pc2, s2, sizeof s2);
  const char *f = s1, *s = s2;
  bool wf = write, ws = write2;
  if (strcmp(f, s) > 0) {
    f = s2;
    s = s1;
    wf = write2;
    ws = write;
  }
  char key[1400], what[2000];
  snprintf(key, sizeof key, "race:%s|%s", f, s);
  snprintf(what, sizeof what, "data race: %s in %s and %s in %s are not ordered (threads %d and %d)", wf ? "write" : "read", f, ws ? "write" : "read", s, me, t2);
  setViol(key, what);
  stopHere();
}

void access(uintptr_t a, size_t n, bool write, void* pc, bool freeing = false) {
  if (!modelled()) return;
  Thr& t = T[me];
  uint32_t clk = t.vc.c[me];
  uintptr_t end = a + n;
  if (n > 4096) {
    end = a + 4096;
  }
  for (uintptr_t g = a & ~7ULL; g < end; g += 8) {
    unsigned lo = g < a ? a - g : 0, hi = end - g < 8 ? end - g : 8;
    uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
    size_t h = (g >> 3) * 0x9e3779b97f4a7c15ULL >> 44;
    Cell* c = nullptr;
    for (size_t i = h & (kCells - 1), k = 0; k < 64; i = (i + 1) & (kCells - 1), ++k) {
      if (cells[i].epoch == cell_epoch && cells[i].g == g) {
        c = &cells[i];
        break;
      }
      if (cells[i].epoch != cell_epoch) {
        c = &cells[i];
        memset(c, 0, sizeof *c);
        c->g = g;
        c->epoch = cell_epoch;
        break;
      }
    }
    if (!c) continue;  // table full around here: this granule is not watched
    if (c->freed) {
      char s1[512], s2[512], key[1200];
      symbol(pc, s1, sizeof s1);
      symbol(c->freed, s2, sizeof s2);
      snprintf(key, sizeof key, "use-after-free:%s|%s", s1, s2);
      setViol(key, freeing ? "memory is freed twice" : "memory is used after it was freed");
      stopHere();
    }
    if (freeing) c->freed = pc;
    for (int i = 0; i < nT; ++i) {
      if (i == me) continue;
      if (c->w[i] && (c->wm[i] & mask) && c->w[i] > t.vc.c[i]) report(a, n, pc, write, i, c->wpc[i], true);
      if (write && c->r[i] && (c->rm[i] & mask) && c->r[i] > t.vc.c[i]) report(a, n, pc, write, i, c->rpc[i], false);
    }
    if (write) {
      if (c->w[me] != clk) c->wm[me] = 0;
      c->w[me] = clk;
      c->wm[me] |= mask;
      c->wpc[me] = pc;
    } else {
      if (c->r[me] != clk) c->rm[me] = 0;
      c->r[me] = clk;
      c->rm[me] |= mask;
      c->rpc[me] = pc;
    }
  }
}

// memory handed out or given back: its old accesses no longer matter
void forget(uintptr_t a, size_t n) {
  if (!active || !cells) return;
  if (n > 65536) n = 65536;
  for (uintptr_t g = a & ~7ULL; g < a + n; g += 8) {
    size_t h = (g >> 3) * 0x9e3779b97f4a7c15ULL >> 44;
    for (size_t i = h & (kCells - 1), k = 0; k < 64; i = (i + 1) & (kCells - 1), ++k) {
      if (cells[i].epoch != cell_epoch) break;
      if (cells[i].g == g) {
        memset(cells[i].w, 0, sizeof cells[i].w);
        memset(cells[i].r, 0, sizeof cells[i].r);
        cells[i].freed = nullptr;
        break;
      }
    }
  }
}

void inc() { ++T[me].vc.c[me]; }
void acquire(Sync* s) { T[me].vc.join(s->vc); }
void release(Sync* s) {
  s->vc.join(T[me].vc);
  inc();
}

void alive(void* m, void* pc) {  // the lock itself must be live memory
  uintptr_t g = (uintptr_t)m & ~7ULL;
  size_t h = (g >> 3) * 0x9e3779b97f4a7c15ULL >> 44;
  for (size_t i = h & (kCells - 1), k = 0; k < 64; i = (i + 1) & (kCells - 1), ++k) {
    if (cells[i].epoch != cell_epoch) return;
    if (cells[i].g != g) continue;
    if (!cells[i].freed) return;
    char s2[512], key[1200];
    symbol(cells[i].freed, s2, sizeof s2);
    snprintf(key, sizeof key, "lock-after-free:%s", s2);
    setViol(key, "a lock is used after its memory was freed");
    stopHere();
  }
}
void lockMutex(void* m, St st) {
  ++quiet;
  alive(m, nullptr);
  reschedule(true);
  Sync* s = sync(m);
  while (!mutexFree(s, me)) {
    T[me].st = st;
    T[me].obj = m;
    reschedule(false);
    T[me].st = Ready;
  }
  s->owner = me;
  acquire(s);
  T[me].vc.join(s->rvc);
  --quiet;
}
void unlockMutex(void* m) {
  ++quiet;
  alive(m, nullptr);
  Sync* s = sync(m);
  if (s->owner == me) {
    s->owner = -1;
    release(s);
  }
  --quiet;
}

template <class F>
F real(const char* name) {
  return (F)dlsym(RTLD_NEXT, name);
}

void runThread(int id) {
  me = id;
  park(&T[id].go);
  cur = id;
  if (T[id].body) {
    try {
      (*T[id].body)();
    } catch (const mc::Violation& v) {
      ++quiet;
      setViol(v.key.c_str(), v.what.c_str());
      stopHere();
    } catch (const std::exception& e) {
      ++quiet;
      setViol("uncaught-exception", e.what());
      stopHere();
    }
  } else {
    T[id].fn(T[id].arg);
  }
  ++quiet;
  T[id].st = Done;
  ++T[id].vc.c[id];
  reschedule(false);
  me = -1;
  --quiet;
}

volatile int pool_go[kMaxT];
pthread_t pool[kMaxT];
bool pool_up[kMaxT];
void* poolMain(void* p) {
  int id = (int)(intptr_t)p;
  while (true) {
    park(&pool_go[id]);
    runThread(id);
  }
  return nullptr;
}

int newThread() {
  if (nT >= kMaxT) {
    fprintf(stderr, "too many threads\n");
    _exit(97);
  }
  int id = nT++;
  Thr& t = T[id];
  memset(&t.vc, 0, sizeof t.vc);
  t.id = id;
  t.st = Ready;
  t.go = 0;
  t.spawned = false;
  t.body = nullptr;
  t.vc.c[id] = 1;
  if (!pool_up[id]) {
    pool_up[id] = true;
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (f(&pool[id], nullptr, poolMain, (void*)(intptr_t)id)) _exit(97);
  }
  return id;
}

}  // namespace

namespace sched {

int self() { return me; }
uint64_t tick() { return ++clock_; }
void point() {
  if (modelled()) yieldPoint();
}
void fail(const std::string& key, const std::string& what) {
  if (me < 0) throw mc::Violation{key, what};
  ++quiet;
  setViol(key.c_str(), what.c_str());
  stopHere();
}

Result run(mc::Ctx& c, const std::vector<std::function<void()>>& bodies, int preemptions, int spurious) {
  if (!cells) {
    cells = (Cell*)calloc(kCells, sizeof(Cell));
    syncs = (Sync*)calloc(kSyncs, sizeof(Sync));
  }
  ++cell_epoch;
  for (size_t i = 0; i < n_sync_used; ++i) syncs[sync_used[i]].addr = nullptr;
  n_sync_used = 0;
  ctx = &c;
  nT = 0;
  preempt_left = preemptions;
  spurious_left = spurious;
  freerun = false;
  have_viol = false;
  escape = nullptr;
  n_points = n_switches = 0;
  main_go = 0;
  for (auto& b : bodies) {
    int id = newThread();
    T[id].body = &b;
  }
  active = true;
  for (int i = 0; i < nT; ++i) wake(&pool_go[i]);
  // who starts
  size_t k = pick(nT, "start");
  cur = k;
  wake(&T[k].go);
  park(&main_go);
  active = false;
  if (have_viol) throw mc::Violation{viol_key, viol_what};
  if (escape) std::rethrow_exception(escape);
  return Result{n_points, n_switches};
}

}  // namespace sched

// ---------------------------------------------------------------- pthread
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (active && me < 0) return f ? f(m) : 0;
    return f(m);
  }
  lockMutex(m, BlockedMutex);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return f(m);
  }
  ++quiet;
  reschedule(true);
  Sync* s = sync(m);
  int r = EBUSY;
  if (mutexFree(s, me)) {
    s->owner = me;
    acquire(s);
    r = 0;
  }
  --quiet;
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return f(m);
  }
  unlockMutex(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    return f(m);
  }
  ++quiet;
  reschedule(true);
  Sync* s = sync(m);
  while (s->owner >= 0) {
    T[me].st = BlockedRd;
    T[me].obj = m;
    reschedule(false);
    T[me].st = Ready;
  }
  ++s->readers[me];
  ++s->nread;
  acquire(s);
  --quiet;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    return f(m);
  }
  lockMutex(m, BlockedWr);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
    return f(m);
  }
  ++quiet;
  reschedule(true);
  Sync* s = sync(m);
  int r = EBUSY;
  if (s->owner < 0) {
    ++s->readers[me];
    ++s->nread;
    acquire(s);
    r = 0;
  }
  --quiet;
  return r;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  return modelled() ? pthread_mutex_trylock((pthread_mutex_t*)m) : real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock")(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    return f(m);
  }
  ++quiet;
  alive(m, nullptr);
  Sync* s = sync(m);
  if (s->owner == me) {
    s->owner = -1;
    release(s);
  } else if (s->readers[me] > 0) {
    --s->readers[me];
    --s->nread;
    s->rvc.join(T[me].vc);
    inc();
  }
  --quiet;
  return 0;
}

static void condWait(pthread_cond_t* c, pthread_mutex_t* m) {
  ++quiet;
  reschedule(true);
  Sync* s = sync(m);
  s->owner = -1;
  release(s);
  T[me].st = BlockedCond;
  T[me].obj = c;
  T[me].mutex = m;
  reschedule(false);
  while (!mutexFree(s, me)) {
    T[me].st = BlockedMutex;
    T[me].obj = m;
    reschedule(false);
  }
  T[me].st = Ready;
  s = sync(m);
  s->owner = me;
  acquire(s);
  acquire(sync(c));
  --quiet;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    return f(c, m);
  }
  condWait(c, m);
  return 0;
}
static int condWake(pthread_cond_t* c, bool all) {
  ++quiet;
  reschedule(true);
  release(sync(c));
  int w[kMaxT], n = 0;
  for (int i = 0; i < nT; ++i)
    if (T[i].st == BlockedCond && T[i].obj == c) w[n++] = i;
  if (all) {
    for (int i = 0; i < n; ++i) {
      T[w[i]].st = BlockedMutex;
      T[w[i]].obj = T[w[i]].mutex;
    }
  } else if (n) {
    int k = w[pick(n, "waiter")];
    T[k].st = BlockedMutex;
    T[k].obj = T[k].mutex;
  }
  --quiet;
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    return f(c);
  }
  return condWake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    return f(c);
  }
  return condWake(c, true);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    return f(t, a, fn, arg);
  }
  ++quiet;
  int id = newThread();
  T[id].fn = fn;
  T[id].arg = arg;
  T[id].spawned = true;
  T[id].handle = (pthread_t)(0x7000000000ULL + id);
  *t = T[id].handle;
  T[id].vc.join(T[me].vc);
  T[id].vc.c[id] = 1;
  inc();
  wake(&pool_go[id]);
  reschedule(true);
  --quiet;
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!modelled()) {
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    return f(t, r);
  }
  ++quiet;
  T[me].st = BlockedJoin;
  T[me].obj = (void*)t;
  if (enabled(me)) {
    T[me].st = Ready;
    reschedule(true);
  } else {
    reschedule(false);
  }
  T[me].st = Ready;
  for (int i = 0; i < nT; ++i)
    if (T[i].spawned && T[i].handle == t) T[me].vc.join(T[i].vc);
  if (r) *r = nullptr;
  --quiet;
  return 0;
}

// ---------------------------------------------------------------- instrumentation callbacks
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N) \
  void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_read##N##_pc(void* a, void* pc) { access((uintptr_t)a, N, false, pc); } \
  void __tsan_write##N##_pc(void* a, void* pc) { access((uintptr_t)a, N, true, pc); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, unsigned long n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) access((uintptr_t)a, 8, true, PC);
}
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }

// Atomics: sequentially consistent; each one is a scheduling point except reference counting.
static void atom(void* a, bool point) {
  if (!modelled()) return;
  if (point) yieldPoint();
  ++quiet;
  Sync* s = sync(a);
  acquire(s);
  release(s);
  --quiet;
}
#define ATOM(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY* a, int) { \
    atom((void*)a, true); \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
  } \
  void __tsan_atomic##N##_store(volatile TY* a, TY v, int) { \
    atom((void*)a, true); \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
  } \
  TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int) { \
    atom((void*)a, true); \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
  } \
  TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int) { \
    atom((void*)a, false); \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); \
  } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int) { \
    atom((void*)a, false); \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); \
  } \
  TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int) { \
    atom((void*)a, true); \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); \
  } \
  TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int) { \
    atom((void*)a, true); \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); \
  } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int) { \
    atom((void*)a, true); \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int, int) { \
    atom((void*)a, true); \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int, int) { \
    atom((void*)a, true); \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY e, TY v, int, int) { \
    atom((void*)a, true); \
    __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    return e; \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  return memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  if (n) access((uintptr_t)d, n, true, PC);
  return memset(d, v, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (n) {
    access((uintptr_t)a, n, false, PC);
    access((uintptr_t)b, n, false, PC);
  }
  return memcmp(a, b, n);
}
void* __wrap_malloc(size_t n) {
  void* p = malloc(n);
  if (p) forget((uintptr_t)p, malloc_usable_size(p));
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  void* p = calloc(a, b);
  if (p) forget((uintptr_t)p, malloc_usable_size(p));
  return p;
}
void __wrap_free(void* p) {
  if (p && modelled()) access((uintptr_t)p, malloc_usable_size(p) & ~7ULL, true, PC, true);
  free(p);
}
void* __wrap_realloc(void* p, size_t n) {
  if (p && modelled()) access((uintptr_t)p, malloc_usable_size(p) & ~7ULL, true, PC, true);
  void* q = realloc(p, n);
  if (q) forget((uintptr_t)q, malloc_usable_size(q));
  return q;
}
void* __cxa_allocate_exception(size_t n) noexcept {
  static auto f = real<void* (*)(size_t)>("__cxa_allocate_exception");
  void* p = f(n);
  forget((uintptr_t)p - 128, n + 128);
  return p;
}
}  // extern "C"


// Freed memory keeps its shadow until it is handed out again; freeing counts as a write, so that a
// free racing with an access is reported.
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (active) forget((uintptr_t)p, malloc_usable_size(p));
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (p && modelled()) access((uintptr_t)p, malloc_usable_size(p) < 4096 ? malloc_usable_size(p) & ~7ULL : 4096, true, PC, true);
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
