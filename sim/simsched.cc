#include "simsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "sim.h"

namespace sched {
namespace {

enum TState { kUnused, kRunnable, kBlocked, kDone };
struct Thread {
  TState state = kUnused;
  int word = 0;  // futex: 1 = may run
  pthread_t pt;
  std::function<void()>* fn = nullptr;
  uint32_t vc[kMaxThreads] = {};
  void* blocked_on = nullptr;
};
Thread th[kMaxThreads];
int nthreads = 0;
bool active = false;
int current = 0;
int64_t budget = 0;
uint64_t accesses = 0, switches = 0, decisions = 0;
uint32_t style = 0;
thread_local int self_id = -1;
thread_local int in_runtime = 0;

struct InRuntime {
  InRuntime() { ++in_runtime; }
  ~InRuntime() { --in_runtime; }
};

bool Tracked() { return active && self_id >= 0 && in_runtime == 0; }

void FutexWait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void FutexWake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void DrawBudget() {
  if (decisions > 4000) {
    budget = INT64_MAX;
    return;
  }
  static const uint32_t kMean[5] = {40000, 2000, 200, 25, 4};
  const uint32_t m = kMean[style];
  budget = 1 + sim::Choose(2 * m);
}

// Picks who runs next. Called by the running thread with in_runtime > 0.
void Switch(bool must_leave) {
  ++decisions;
  int cand[kMaxThreads], n = 0;
  if (!must_leave && th[self_id].state == kRunnable) cand[n++] = self_id;
  for (int i = 0; i < nthreads; ++i) {
    if (i == self_id && !must_leave) continue;
    if (th[i].state == kRunnable) cand[n++] = i;
  }
  if (n == 0) {
    bool all_done = true;
    for (int i = 1; i < nthreads; ++i) all_done &= th[i].state == kDone;
    if (!all_done) {
      std::string s;
      for (int i = 0; i < nthreads; ++i) s += " t" + std::to_string(i) + (th[i].state == kDone ? "=done" : "=blocked");
      sim::Fail("deadlock", "no runnable thread:%s", s.c_str());
    }
    return;
  }
  const int next = cand[decisions > 4000 ? 0 : sim::Choose(n)];
  DrawBudget();
  if (next != self_id) {
    ++switches;
    sim::Ev("switch t%d->t%d @%llu", self_id, next, (unsigned long long)accesses);
    current = next;
    Thread& me = th[self_id];
    const bool done = me.state == kDone;
    FutexWake(&th[next].word);
    if (!done) FutexWait(&me.word);
  }
}

void Point(int64_t cost) {
  accesses += cost;
  budget -= cost;
  if (budget <= 0) Switch(false);
}

// ---- race detector
struct Slot {
  uint32_t clk[4];   // per access kind: plain write, plain read, atomic write, atomic read
  uint8_t mask[4];
  uint32_t pc_off;   // of the last plain access
};
struct Cell {
  uintptr_t key;  // addr >> 3, +1
  Slot t[kMaxThreads];
};
constexpr size_t kCells = 1u << 18;
Cell* cells = nullptr;

Cell* Find(uintptr_t a, bool create) {
  uint64_t h = (a * 0x9e3779b97f4a7c15ULL) >> 46;
  for (size_t i = 0; i < kCells; ++i) {
    Cell& c = cells[(h + i) & (kCells - 1)];
    if (c.key == a + 1) return &c;
    if (c.key == 0) {
      if (!create) return nullptr;
      c.key = a + 1;
      return &c;
    }
  }
  sim::Fail("internal:shadow-full", "race detector table is full");
}

std::string Where(uint32_t off) {
  char b[256];
  void* pc = reinterpret_cast<void*>(static_cast<uintptr_t>(off));
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_sname) snprintf(b, sizeof b, "%s", di.dli_sname);
  else snprintf(b, sizeof b, "pc 0x%x", off);
  return b;
}

void Check(const void* p, size_t n, int kind, void* pc) {
  // kind: 0 plain write, 1 plain read, 2 atomic write, 3 atomic read
  static const int kConf[4][4] = {{1, 1, 1, 1}, {1, 0, 1, 0}, {1, 1, 0, 0}, {1, 0, 0, 0}};
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  const int me = self_id;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
    uint8_t mask = 0xff;
    if (g == a >> 3) mask &= static_cast<uint8_t>(0xff << (a & 7));
    const uintptr_t end = a + n;
    if (g == (end - 1) >> 3 && (end & 7)) mask &= static_cast<uint8_t>((1u << (end & 7)) - 1);
    Cell* c = Find(g, true);
    for (int t = 0; t < nthreads; ++t) {
      if (t == me) continue;
      const Slot& s = c->t[t];
      for (int k = 0; k < 4; ++k) {
        if (!kConf[kind][k] || !(s.mask[k] & mask)) continue;
        if (s.clk[k] > th[me].vc[t]) {
          static const char* kName[4] = {"write", "read", "atomic write", "atomic read"};
          const std::string w1 = Where(static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc))), w2 = Where(s.pc_off);
          sim::Fail("data-race", "%s by t%d in %s conflicts with unsynchronised %s by t%d in %s", kName[kind], me, w1.c_str(),
                    kName[k], t, w2.c_str());
        }
      }
    }
    Slot& s = c->t[me];
    const uint32_t now = th[me].vc[me];
    if (s.clk[kind] != now) {
      s.clk[kind] = now;
      s.mask[kind] = 0;
    }
    s.mask[kind] |= mask;
    s.pc_off = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc));
  }
}

void Clear(const void* p, size_t n) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
    Cell* c = Find(g, false);
    if (c) memset(c->t, 0, sizeof(c->t));
  }
}

// ---- synchronisation objects
struct Obj {
  void* addr;
  uint32_t vc[kMaxThreads];
  int owner;    // -1 free
  int readers;
};
constexpr int kMaxObj = 4096;
Obj objs[kMaxObj];
int nobj = 0;
Obj& GetObj(void* a) {
  for (int i = 0; i < nobj; ++i)
    if (objs[i].addr == a) return objs[i];
  if (nobj == kMaxObj) sim::Fail("internal:objs", "too many sync objects");
  Obj& o = objs[nobj++];
  o = Obj{a, {}, -1, 0};
  return o;
}
void DoAcquire(Obj& o) {
  for (int i = 0; i < kMaxThreads; ++i)
    if (o.vc[i] > th[self_id].vc[i]) th[self_id].vc[i] = o.vc[i];
}
void DoRelease(Obj& o) {
  for (int i = 0; i < kMaxThreads; ++i)
    if (th[self_id].vc[i] > o.vc[i]) o.vc[i] = th[self_id].vc[i];
  ++th[self_id].vc[self_id];
}

// Runs as a pthread key destructor, i.e. after the thread's C++ thread_local destructors: those are simulated too.
pthread_key_t end_key;
void ThreadEnd(void*) {
  const int id = self_id;
  ++in_runtime;
  th[id].state = kDone;
  // join edge into main
  for (int i = 0; i < kMaxThreads; ++i)
    if (th[id].vc[i] > th[0].vc[i]) th[0].vc[i] = th[id].vc[i];
  bool all = true;
  for (int i = 1; i < nthreads; ++i) all &= th[i].state == kDone;
  if (all) {
    th[0].state = kRunnable;
    active = false;
  }
  Switch(true);
}
void* ThreadMain(void* arg) {
  const int id = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  self_id = id;
  {
    InRuntime r;
    pthread_setspecific(end_key, arg);
    FutexWait(&th[id].word);
  }
  (*th[id].fn)();
  return nullptr;
}

}  // namespace

bool Active() { return active; }
bool InRuntimeNow() { return in_runtime > 0; }
int Self() { return self_id < 0 ? 0 : self_id; }
uint64_t Accesses() { return accesses; }
uint64_t Switches() { return switches; }

void Begin() {
  if (!cells)
    cells = static_cast<Cell*>(mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  static bool have_key = false;
  if (!have_key) {
    pthread_key_create(&end_key, ThreadEnd);
    have_key = true;
  }
  sim::runtime_hook = [](int d) { in_runtime += d; };
  style = sim::Choose(5);
  nthreads = 1;
  self_id = 0;
  th[0].state = kBlocked;
  th[0].vc[0] = 1;
}

void Spawn(std::function<void()> f) {
  const int id = nthreads++;
  Thread& t = th[id];
  t.state = kRunnable;
  t.fn = new std::function<void()>(std::move(f));
  for (int i = 0; i < kMaxThreads; ++i) t.vc[i] = th[0].vc[i];
  t.vc[id] = 1;
}

void RunAll() {
  InRuntime r;
  for (int i = 1; i < nthreads; ++i) pthread_create(&th[i].pt, nullptr, ThreadMain, reinterpret_cast<void*>(static_cast<intptr_t>(i)));
  ++th[0].vc[0];
  active = true;
  accesses = switches = decisions = 0;
  Switch(true);
  active = false;
  for (int i = 1; i < nthreads; ++i) pthread_join(th[i].pt, nullptr);
  sim::Ev("threads joined after %llu accesses, %llu switches", (unsigned long long)accesses, (unsigned long long)switches);
}

void Yield() {
  if (!Tracked()) return;
  InRuntime r;
  Switch(false);
}

void Access(const void* p, size_t n, bool write, void* pc) {
  if (!Tracked() || n == 0) return;
  InRuntime r;
  Point(1);
  Check(p, n, write ? 0 : 1, pc);
}
static void Atomic(const volatile void* p, size_t n, bool read, bool write, int order, void* pc) {
  InRuntime r;
  Point(1);
  Obj& o = GetObj(const_cast<void*>(p));
  if (read) Check(const_cast<const void*>(p), n, 3, pc);
  if (write) Check(const_cast<const void*>(p), n, 2, pc);
  if (read && order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE) DoAcquire(o);
  if (write && (order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST)) DoRelease(o);
}

void Lock(void* obj, bool shared) {
  if (!Tracked()) return;
  InRuntime r;
  Point(1);
  Obj& o = GetObj(obj);
  while (shared ? o.owner != -1 : (o.owner != -1 || o.readers > 0)) {
    if (o.owner == self_id) sim::Fail("deadlock", "t%d locks a lock it holds", self_id);
    th[self_id].state = kBlocked;
    th[self_id].blocked_on = obj;
    Switch(true);
  }
  if (shared) ++o.readers; else o.owner = self_id;
  DoAcquire(o);
}
bool TryLock(void* obj) {
  if (!Tracked()) return true;
  InRuntime r;
  Point(1);
  Obj& o = GetObj(obj);
  if (o.owner != -1 || o.readers) return false;
  o.owner = self_id;
  DoAcquire(o);
  return true;
}
void Unlock(void* obj, bool shared) {
  if (!Tracked()) return;
  InRuntime r;
  Obj& o = GetObj(obj);
  DoRelease(o);
  if (shared) --o.readers; else o.owner = -1;
  for (int i = 0; i < nthreads; ++i)
    if (th[i].state == kBlocked && th[i].blocked_on == obj) th[i].state = kRunnable, th[i].blocked_on = nullptr;
  Point(1);
}
void Release(void* obj) {
  if (!Tracked()) return;
  InRuntime r;
  DoRelease(GetObj(obj));
}
void Acquire(void* obj) {
  if (!Tracked()) return;
  InRuntime r;
  DoAcquire(GetObj(obj));
}
void Wait(void* obj) {
  if (!Tracked()) return;
  InRuntime r;
  th[self_id].state = kBlocked;
  th[self_id].blocked_on = obj;
  Switch(true);
}
void Wake(void* obj) {
  if (!Tracked()) return;
  InRuntime r;
  for (int i = 0; i < nthreads; ++i)
    if (th[i].state == kBlocked && th[i].blocked_on == obj) th[i].state = kRunnable, th[i].blocked_on = nullptr;
}
void OnAlloc(void* p, size_t n) {
  if (!Tracked() || !p || !n) return;
  InRuntime r;
  Clear(p, n);
}
void OnFree(void* p, size_t n) {
  if (!Tracked() || !p || !n) return;
  InRuntime r;
  Check(p, n, 0, __builtin_return_address(0));
  Clear(p, n);
}

}  // namespace sched

// ---------------------------------------------------------------- compiler callbacks
using sched::Access;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                     \
  void __tsan_read##N(void* p) { Access(p, N, false, PC); }                       \
  void __tsan_write##N(void* p) { Access(p, N, true, PC); }                       \
  void __tsan_unaligned_read##N(void* p) { Access(p, N, false, PC); }             \
  void __tsan_unaligned_write##N(void* p) { Access(p, N, true, PC); }             \
  void __tsan_volatile_read##N(void* p) { Access(p, N, false, PC); }              \
  void __tsan_volatile_write##N(void* p) { Access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { Access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { Access(p, n, true, PC); }
// Whether a constructor changes the vptr depends on what the memory held before, so it must not affect the schedule.
void __tsan_vptr_update(void** p, void* v) { Access(p, 8, *p != v, PC); }
void __tsan_vptr_read(void** p) { Access(p, 8, false, PC); }

#define TRK (sched::active && sched::self_id >= 0 && sched::in_runtime == 0)
#define ATOMICS(N, T)                                                                                              \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) {                                                         \
    if (TRK) sched::Atomic(a, sizeof(T), true, false, mo, PC);                                                     \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                                \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                                                      \
    if (TRK) sched::Atomic(a, sizeof(T), false, true, mo, PC);                                                     \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                                                      \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                                \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) {                                                     \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                                \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) {                                                     \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                                \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) {                                                     \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                                \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) {                                                      \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) {                                                     \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                                \
  bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {                         \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
  }                                                                                                                \
  bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) {                           \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
  }                                                                                                                \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) {                                \
    if (TRK) sched::Atomic(a, sizeof(T), true, true, mo, PC);                                                      \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
    return c;                                                                                                      \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Static local initialisation guards: blocking, with a happens-before edge.
int __cxa_guard_acquire(uint64_t* g) {
  volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
  if (!TRK) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  {
    sched::InRuntime r;
    sched::Point(1);
  }
  for (;;) {
    if (b[0]) {
      sched::Acquire(g);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    sim::Probe("blocked on a static initialiser");
    sched::Wait(g);
  }
}
void __cxa_guard_release(uint64_t* g) {
  volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
  if (TRK) sched::Release(g);
  b[0] = 1;
  b[1] = 0;
  if (TRK) {
    sched::Wake(g);
    sched::InRuntime r;
    sched::Point(1);
  }
}
void __cxa_guard_abort(uint64_t* g) {
  reinterpret_cast<volatile unsigned char*>(g)[1] = 0;
  if (TRK) sched::Wake(g);
}

// libc calls from instrumented objects.
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (TRK && n) { Access(s, n, false, PC); Access(d, n, true, PC); }
  return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (TRK && n) { Access(s, n, false, PC); Access(d, n, true, PC); }
  return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (TRK && n) Access(d, n, true, PC);
  return memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (TRK && n) { Access(a, n, false, PC); Access(b, n, false, PC); }
  return memcmp(a, b, n);
}
void* __wrap_memchr(const void* a, int c, size_t n) {
  if (TRK && n) Access(a, n, false, PC);
  return const_cast<void*>(memchr(a, c, n));
}
size_t __wrap_strlen(const char* s) {
  const size_t n = strlen(s);
  if (TRK) Access(s, n + 1, false, PC);
  return n;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (TRK) { sched::Lock(m); return 0; }
  return pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (TRK) return sched::TryLock(m) ? 0 : EBUSY;
  return pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (TRK) { sched::Unlock(m); return 0; }
  return pthread_mutex_unlock(m);
}
// std::call_once (gthr -> pthread_once is reached from inline code with a trampoline).
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  volatile int* w = reinterpret_cast<volatile int*>(o);
  enum { kInit = 0, kRunning = 0x51, kDone = 2 };
  for (;;) {
    if (TRK) { sched::InRuntime r; sched::Point(1); }
    if (*w == kDone) { if (TRK) sched::Acquire(o); return 0; }
    if (*w == kInit) {
      *w = kRunning;
      f();
      if (TRK) sched::Release(o);
      *w = kDone;
      if (TRK) sched::Wake(o);
      return 0;
    }
    if (TRK) sched::Wait(o);
  }
}
}  // extern "C"
