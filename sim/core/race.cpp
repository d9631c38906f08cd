// The runtime behind race.h: the compiler's thread instrumentation calls
// (__tsan_*) are defined here; libtsan is not linked. It decides the
// interleaving and detects accesses that are not ordered by synchronisation
// (vector clocks; acquire/release of atomics, mutexes, once flags and guards).
#include "race.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <mutex>
#include <unordered_map>

extern "C" {
extern char __data_start, _end;
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real_sched_yield();
}

namespace sim {
extern bool (*g_hook_alloc)(size_t size);
extern void (*g_hook_block)(void* p, size_t size, bool live);

namespace race {
namespace {

constexpr uintptr_t kTaskStacks = 0x250000000000ull;
constexpr size_t kTaskStackSize = 32ull << 20;

using Clock = uint32_t;
struct Vector {
  Clock c[kMaxTasks] = {};
  void Join(const Vector& o) {
    for (int i = 0; i < kMaxTasks; ++i) if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Read {
  Clock clk;
  uint32_t pc;
};
// Eight bytes of memory.
struct Cell {
  Clock wclk;
  uint32_t wpc;
  uint8_t wtask, wmask, rmask[kMaxTasks], pad[2];
  Read r[kMaxTasks];
};
struct Page {
  Cell cell[512];
};

struct Task {
  pthread_t thread;
  std::atomic<int> go{0};
  std::atomic<int> leave{0};
  const std::function<void()>* body = nullptr;
  bool done = false, stalled = false;
  const void* blocked = nullptr;
  Vector v;
  uint64_t accesses = 0, allocs = 0, spins = 0;
};

bool g_active = false;
int g_cur = -1;
int g_count = 0;
Task* g_tasks = nullptr;
std::atomic<int> g_main{0};
const std::vector<Step>* g_schedule;
size_t g_step;
uint64_t g_left;
int g_kind;
Faults g_faults;
Stats g_stats;
bool g_fenced;

std::unordered_map<uintptr_t, Page*>* g_pages;
struct Recent {
  uintptr_t page;
  Page* p;
};
Recent g_recent[1024];
std::unordered_map<uintptr_t, Vector>* g_sync;
struct Lock {
  int owner = -1;
  int depth = 0;
  int readers = 0;
  Vector v;
};
std::unordered_map<uintptr_t, Lock>* g_locks;
std::unordered_map<uintptr_t, int>* g_once;  // 1 in progress, 2 done

void Wait(std::atomic<int>& w) {
  for (;;) {
    if (w.load() != 0) {
      w.store(0);
      return;
    }
    syscall(SYS_futex, reinterpret_cast<int*>(&w), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}
void Wake(std::atomic<int>& w) {
  w.store(1);
  syscall(SYS_futex, reinterpret_cast<int*>(&w), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void LoadStep() {
  if (g_step >= g_schedule->size()) {
    g_kind = -1;
    g_left = ~0ull;
    return;
  }
  const Step& s = (*g_schedule)[g_step];
  g_kind = static_cast<int>(static_cast<unsigned>(s.kind) % kStepKinds);
  g_left = s.n + 1;
}

// Some task that can run, not the current one unless it is the only one.
int Pick(int pick) {
  int list[kMaxTasks], n = 0;
  for (int pass = 0; pass < 2 && !n; ++pass) {
    for (int i = 0; i < g_count; ++i) {
      const Task& t = g_tasks[i];
      if (t.done || t.blocked || i == g_cur) continue;
      if (t.stalled && pass == 0) continue;
      list[n++] = i;
    }
    if (pass == 0 && !n && g_cur >= 0) {
      const Task& c = g_tasks[g_cur];
      if (!c.done && !c.blocked && !c.stalled) return g_cur;
    }
  }
  if (!n) {
    if (g_cur >= 0 && !g_tasks[g_cur].done && !g_tasks[g_cur].blocked) return g_cur;
    return -1;
  }
  return list[static_cast<unsigned>(pick) % static_cast<unsigned>(n)];
}

void SwitchTo(int to) {
  int me = g_cur;
  if (to == me) return;
  ++g_stats.switches;
  g_stats.signature = Mix(g_stats.signature ^ (static_cast<uint64_t>(me) * 1000003 + g_tasks[me].accesses) * 64 + static_cast<uint64_t>(to));
  Trace("  switch: task %d (after %llu accesses) -> task %d", me, (unsigned long long)g_tasks[me].accesses, to);
  g_cur = to;
  g_tasks[to].stalled = false;
  Wake(g_tasks[to].go);
  Wait(g_tasks[me].go);
}

void Preempt(int kind) {
  if (g_kind != kind || --g_left) return;
  const Step& s = (*g_schedule)[g_step];
  ++g_step;
  LoadStep();
  int me = g_cur;
  if (s.stall) {
    g_tasks[me].stalled = true;
    ++g_stats.stalls;
  }
  int to = Pick(s.pick);
  if (to < 0) to = me;
  if (to == me) g_tasks[me].stalled = false;
  SwitchTo(to);
}
// Lets the others run: a task that spins makes no progress by itself.
void Spinning() {
  if (++g_tasks[g_cur].spins < 300) return;
  g_tasks[g_cur].spins = 0;
  ++g_stats.yields;
  int to = Pick(static_cast<int>(g_stats.yields));
  if (to >= 0) SwitchTo(to);
}

void Block(const void* on) {
  ++g_stats.blocked;
  g_tasks[g_cur].blocked = on;
  int to = Pick(static_cast<int>(g_stats.switches));
  if (to < 0 || to == g_cur) {
    Violation("deadlock", "every task waits for a lock");
  }
  SwitchTo(to);
}
void Unblock(const void* on) {
  for (int i = 0; i < g_count; ++i) if (g_tasks[i].blocked == on) g_tasks[i].blocked = nullptr;
}

Page* PageOf(uintptr_t a, bool create) {
  uintptr_t n = a >> 12;
  Recent& r = g_recent[n & 1023];
  if (r.page == n && r.p) return r.p;
  auto it = g_pages->find(n);
  if (it == g_pages->end()) {
    if (!create) return nullptr;
    void* p = mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(95);
    it = g_pages->emplace(n, static_cast<Page*>(p)).first;
  }
  r.page = n;
  r.p = it->second;
  return it->second;
}

[[noreturn]] void Report(const char* what, uintptr_t a, int other, uint32_t opc, uint32_t pc) {
  bool global = a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end);
  char cls[64];
  snprintf(cls, sizeof(cls), "race:%s:%s", what, global ? "global" : "heap");
  if (Tracing()) {
    char exe[256], cmd[600];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    exe[n > 0 ? n : 0] = 0;
    snprintf(cmd, sizeof(cmd), "addr2line -Cfipe '%s' 0x%x 0x%x 1>&2", exe, pc - 1, opc - 1);
    if (system(cmd)) {}
  }
  Violation(cls, "task %d at pc 0x%x and task %d at pc 0x%x access %s memory without synchronisation (%s)", g_cur, pc, other, opc,
            global ? "the same global" : "the same", what);
}

void Touch(uintptr_t a, uint8_t mask, bool write, uint32_t pc, bool& shared) {
  Page* page = PageOf(a, true);
  Cell& c = page->cell[(a >> 3) & 511];
  const int t = g_cur;
  Vector& v = g_tasks[t].v;
  if (c.wmask && c.wtask != t && (c.wmask & mask)) {
    shared = true;
    if (c.wclk > v.c[c.wtask]) Report(write ? "write-write" : "write-read", a, c.wtask, c.wpc, pc);
  }
  if (write) {
    for (int i = 0; i < g_count; ++i) {
      if (i == t || !(c.rmask[i] & mask)) continue;
      shared = true;
      if (c.r[i].clk > v.c[i]) Report("read-write", a, i, c.r[i].pc, pc);
    }
    if (c.wtask == t && c.wclk == v.c[t]) {
      c.wmask |= mask;
    } else {
      c.wmask = mask;
    }
    c.wtask = static_cast<uint8_t>(t);
    c.wclk = v.c[t];
    c.wpc = pc;
  } else {
    if (!shared)
      for (int i = 0; i < g_count; ++i)
        if (i != t && (c.rmask[i] & mask)) shared = true;
    if (c.r[t].clk == v.c[t]) {
      c.rmask[t] |= mask;
    } else {
      c.rmask[t] = mask;
    }
    c.r[t].clk = v.c[t];
    c.r[t].pc = pc;
  }
}

void Range(const void* p, size_t n, bool write, uintptr_t pc) {
  if (!n) return;
  Host host;
  Task& t = g_tasks[g_cur];
  ++t.accesses;
  t.spins = 0;
  ++g_stats.accesses;
  Preempt(kAccess);
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  bool shared = a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end);
  while (a < e) {
    uintptr_t next = (a & ~7ull) + 8;
    if (next > e) next = e;
    unsigned lo = a & 7, len = static_cast<unsigned>(next - a);
    Touch(a, static_cast<uint8_t>(((1u << len) - 1) << lo), write, static_cast<uint32_t>(pc), shared);
    a = next;
  }
  if (shared) {
    ++g_stats.shared;
    // Before the access itself is made.
    Preempt(kShared);
  }
}
inline bool On() { return g_active && tl_sut; }

void Clear(uintptr_t a, size_t n) {
  for (uintptr_t e = a + n; a < e;) {
    uintptr_t next = (a & ~4095ull) + 4096;
    if (next > e) next = e;
    if (Page* p = PageOf(a, false)) {
      size_t first = (a >> 3) & 511, last = (next - 1) >> 3 & 511;
      __real_memset(&p->cell[first], 0, (last - first + 1) * sizeof(Cell));
    }
    a = next;
  }
}

bool OnAlloc(size_t) {
  if (!g_active) return false;
  Preempt(kHeap);
  int t = g_cur;
  uint64_t n = ++g_tasks[t].allocs;
  if (g_faults.nth[t] && n >= g_faults.nth[t] && n < g_faults.nth[t] + g_faults.count[t]) {
    ++g_stats.failed;
    ++g_stats.failed_by[t];
    return true;
  }
  return false;
}
void OnBlock(void* p, size_t n, bool live) {
  if (!g_active) return;
  if (live) {
    Clear(reinterpret_cast<uintptr_t>(p), n);
  } else {
    // Giving memory back conflicts with every access to it.
    Range(p, n, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
  }
}

// ---- synchronisation
Vector& SyncOf(const void* p) { return (*g_sync)[reinterpret_cast<uintptr_t>(p)]; }
void Acquire(const Vector& s) { g_tasks[g_cur].v.Join(s); }
void Release(Vector& s) {
  Task& t = g_tasks[g_cur];
  s.Join(t.v);
  ++t.v.c[g_cur];
}
void SyncPoint() {
  ++g_stats.syncs;
  ++g_tasks[g_cur].accesses;
  Preempt(kSync);
}
void AtomicBegin(const void* p, int order, bool load, bool store) {
  SyncPoint();
  Spinning();
  Host h;
  if (g_fenced) order = __ATOMIC_SEQ_CST;
  if (load && order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE) Acquire(SyncOf(p));
  if (store && order != __ATOMIC_RELAXED && order != __ATOMIC_ACQUIRE && order != __ATOMIC_CONSUME) Release(SyncOf(p));
}

void* ThreadMain(void* arg) {
  int id = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  Task& t = g_tasks[id];
  Wait(t.go);
  {
    Sut s;
    (*t.body)();
  }
  t.done = true;
  int to = Pick(0);
  if (to >= 0) {
    ++g_stats.switches;
    g_stats.signature = Mix(g_stats.signature ^ (static_cast<uint64_t>(id) * 7 + static_cast<uint64_t>(to)));
    Trace("  end of task %d (after %llu accesses) -> task %d", id, (unsigned long long)t.accesses, to);
    g_cur = to;
    g_tasks[to].stalled = false;
    Wake(g_tasks[to].go);
  } else {
    for (int i = 0; i < g_count; ++i) if (!g_tasks[i].done) Violation("deadlock", "task %d can not continue", i);
    Wake(g_main);
  }
  Wait(t.leave);
  return nullptr;
}

}  // namespace

int Current() { return g_active ? g_cur : -1; }

Stats Run(const std::vector<std::function<void()>>& tasks, const std::vector<Step>& schedule, const Faults& faults) {
  Host host;
  int n = static_cast<int>(tasks.size());
  g_stats = Stats();
  if (!n) return g_stats;
  std::unordered_map<uintptr_t, Page*> pages;
  std::unordered_map<uintptr_t, Vector> sync;
  std::unordered_map<uintptr_t, Lock> locks;
  static std::unordered_map<uintptr_t, int> once;
  g_pages = &pages;
  g_sync = &sync;
  g_locks = &locks;
  g_once = &once;
  __real_memset(g_recent, 0, sizeof(g_recent));
  Task table[kMaxTasks];
  g_tasks = table;
  g_count = n;
  g_schedule = &schedule;
  g_step = 0;
  g_faults = faults;
  g_fenced = false;
  g_cur = -1;
  g_main.store(0);
  // Hand-over between threads on one processor is much cheaper.
  cpu_set_t old, one;
  CPU_ZERO(&one);
  int cpu = sched_getcpu();
  bool pinned = false;
  if (cpu >= 0 && sched_getaffinity(0, sizeof(old), &old) == 0) {
    CPU_SET(cpu, &one);
    pinned = sched_setaffinity(0, sizeof(one), &one) == 0;
  }
  for (int i = 0; i < n; ++i) {
    Task& t = table[i];
    t.body = &tasks[static_cast<size_t>(i)];
    for (int j = 0; j < kMaxTasks; ++j) t.v.c[j] = 0;
    t.v.c[i] = 1;
    void* at = reinterpret_cast<void*>(kTaskStacks + static_cast<uintptr_t>(i) * 2 * kTaskStackSize);
    void* stack = mmap(at, kTaskStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (stack != at) _exit(94);
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, stack, kTaskStackSize);
    if (pthread_create(&t.thread, &attr, ThreadMain, reinterpret_cast<void*>(static_cast<intptr_t>(i))) != 0) _exit(97);
    pthread_attr_destroy(&attr);
  }
  LoadStep();
  g_hook_alloc = OnAlloc;
  g_hook_block = OnBlock;
  int first = 0;
  if (!schedule.empty()) first = static_cast<int>(static_cast<unsigned>(schedule[0].pick) % static_cast<unsigned>(n));
  g_active = true;
  g_cur = first;
  Wake(table[first].go);
  Wait(g_main);
  g_active = false;
  g_hook_alloc = nullptr;
  g_hook_block = nullptr;
  for (int i = 0; i < n; ++i) {
    Wake(table[i].leave);
    pthread_join(table[i].thread, nullptr);
  }
  for (auto& p : pages) munmap(p.second, sizeof(Page));
  if (pinned) sched_setaffinity(0, sizeof(old), &old);
  g_cur = -1;
  return g_stats;
}

}  // namespace race
}  // namespace sim

using namespace sim::race;

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n)                                                                    \
  void __tsan_read##n(void* p) { if (On()) Range(p, n, false, PC); }                 \
  void __tsan_write##n(void* p) { if (On()) Range(p, n, true, PC); }                 \
  void __tsan_unaligned_read##n(void* p) { if (On()) Range(p, n, false, PC); }       \
  void __tsan_unaligned_write##n(void* p) { if (On()) Range(p, n, true, PC); }       \
  void __tsan_volatile_read##n(void* p) { if (On()) Range(p, n, false, PC); }        \
  void __tsan_volatile_write##n(void* p) { if (On()) Range(p, n, true, PC); }        \
  void __tsan_unaligned_volatile_read##n(void* p) { if (On()) Range(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { if (On()) Range(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { if (On()) { Range(p, n, false, PC); Range(p, n, true, PC); } }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, size_t n) { if (On()) Range(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (On()) Range(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (On() && *p != v) Range(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { if (On()) Range(p, 8, false, PC); }

#define ATOMIC(bits, T)                                                              \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                        \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, false);                 \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                     \
  }                                                                                  \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                     \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, false, true);                 \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                  \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                     \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                              \
  }                                                                                  \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) {                    \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                               \
  }                                                                                  \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) {                    \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                               \
  }                                                                                  \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) {                    \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                               \
  }                                                                                  \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) {                     \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                \
  }                                                                                  \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) {                    \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                               \
  }                                                                                  \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) {                   \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                              \
  }                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    if (On()) AtomicBegin(const_cast<const T*>(p), mo, true, true);                  \
    (void)fmo;                                                                       \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  }                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);          \
  }                                                                                  \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);                \
    return e;                                                                        \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  if (!On()) return;
  SyncPoint();
  // From here on every atomic operation is taken to synchronise.
  g_fenced = true;
}
void __tsan_atomic_signal_fence(int) {}

// ---- functions that access memory on behalf of the code under test
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (On()) { Range(s, n, false, PC); Range(d, n, true, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (On()) { Range(s, n, false, PC); Range(d, n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (On()) Range(d, n, true, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (On()) { Range(a, n, false, PC); Range(b, n, false, PC); }
  return __real_memcmp(a, b, n);
}

// ---- locks, decided here while tasks run
static Lock* LockOf(void* m) {
  sim::Host h;
  return &(*g_locks)[reinterpret_cast<uintptr_t>(m)];
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!On()) return __real_pthread_mutex_lock(m);
  SyncPoint();
  bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  for (;;) {
    Lock* l = LockOf(m);
    if (l->owner < 0) {
      l->owner = g_cur;
      l->depth = 1;
      Acquire(l->v);
      return 0;
    }
    if (l->owner == g_cur) {
      if (recursive) { ++l->depth; return 0; }
      sim::Violation("deadlock", "task %d locks a mutex it holds", g_cur);
    }
    Block(m);
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!On()) return __real_pthread_mutex_trylock(m);
  SyncPoint();
  Spinning();
  Lock* l = LockOf(m);
  if (l->owner >= 0) {
    if (l->owner == g_cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++l->depth; return 0; }
    return EBUSY;
  }
  l->owner = g_cur;
  l->depth = 1;
  Acquire(l->v);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!On()) return __real_pthread_mutex_unlock(m);
  Lock* l = LockOf(m);
  if (l->owner != g_cur) return __real_pthread_mutex_unlock(m);
  if (--l->depth == 0) {
    l->owner = -1;
    Release(l->v);
    Unblock(m);
  }
  SyncPoint();
  return 0;
}
static int RwLock(void* m, bool write, bool wait) {
  SyncPoint();
  if (!wait) Spinning();
  for (;;) {
    Lock* l = LockOf(m);
    if (l->owner < 0 && (!write || l->readers == 0)) {
      if (write) l->owner = g_cur; else ++l->readers;
      Acquire(l->v);
      return 0;
    }
    if (!wait) return EBUSY;
    Block(m);
  }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return On() ? RwLock(m, false, true) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return On() ? RwLock(m, true, true) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return On() ? RwLock(m, false, false) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return On() ? RwLock(m, true, false) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!On()) return __real_pthread_rwlock_unlock(m);
  Lock* l = LockOf(m);
  if (l->owner == g_cur) l->owner = -1; else if (l->readers) --l->readers;
  Release(l->v);
  Unblock(m);
  SyncPoint();
  return 0;
}
static bool OnceBegin(void* g, bool done) {
  SyncPoint();
  for (;;) {
    if (done) {
      sim::Host h;
      Acquire(SyncOf(g));
      return false;
    }
    int* state;
    {
      sim::Host h;
      state = &(*g_once)[reinterpret_cast<uintptr_t>(g)];
    }
    if (*state == 2) { done = true; continue; }
    if (*state == 0) { *state = 1; return true; }
    Block(g);
  }
}
static void OnceEnd(void* g, bool ok) {
  {
    sim::Host h;
    (*g_once)[reinterpret_cast<uintptr_t>(g)] = ok ? 2 : 0;
    if (ok) Release(SyncOf(g));
  }
  Unblock(g);
  SyncPoint();
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!On()) {
    // Finished while tasks were running?
    if (g_once) {
      auto it = g_once->find(reinterpret_cast<uintptr_t>(o));
      if (it != g_once->end() && it->second == 2) return 0;
    }
    return __real_pthread_once(o, f);
  }
  // 2: glibc's mark of a finished initialisation.
  if (!OnceBegin(o, *o == 2)) return 0;
  try {
    f();
  } catch (...) {
    OnceEnd(o, false);
    throw;
  }
  OnceEnd(o, true);
  return 0;
}
// The guard's first byte is the flag the compiled code tests.
int __wrap___cxa_guard_acquire(uint64_t* g) {
  char* flag = reinterpret_cast<char*>(g);
  if (!On()) {
    if (*flag) return 0;
    return 1;
  }
  return OnceBegin(g, *flag != 0);
}
void __wrap___cxa_guard_release(uint64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  if (On()) OnceEnd(g, true);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  if (On()) OnceEnd(g, false);
}
int __wrap_sched_yield() {
  if (!On()) return __real_sched_yield();
  ++g_stats.yields;
  int to = Pick(static_cast<int>(g_stats.yields));
  if (to >= 0) SwitchTo(to);
  return 0;
}
}
