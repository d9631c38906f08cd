// Simulator core: allocator seam, run isolation, batch driver, gating,
// minimisation, replay files and evidence. Compiled without sanitizer
// instrumentation, linked into every check.
#include "sim.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <typeinfo>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
// Weak: present only when linked with ASAN.
void __asan_init() __attribute__((weak));
void __asan_set_error_report_callback(void (*)(const char*))
    __attribute__((weak));
}

extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));

namespace sim {

thread_local int tl_sut = 0;

// ------------------------------------------------------------ shared memory
struct NamedCounter {
  char name[52];
  std::atomic<int> claim;  // 0 free, 1 being named, 2 named
  std::atomic<uint64_t> value;
};
struct Slot {
  int status;  // 0 running, 1 ok, 2 violation
  char cls[192];
  char detail[2048];
  uint64_t hash, steps, allocs, faults;
  int nontrivial;
  int op_index;
  uint64_t covsig, sig;
};
constexpr int kMaxSlots = 64;
constexpr size_t kStateSlots = 1 << 22;
constexpr size_t kSigSlots = 1 << 21;
constexpr int kCounters = 256;
struct Found {
  uint64_t idx;
  char cls[192];
};
struct Shared {
  Slot slots[kMaxSlots];
  NamedCounter faults[kCounters];
  NamedCounter probes[kCounters];
  std::atomic<uint64_t> runs, steps, nontrivial, allocs, known_hits;
  std::atomic<uint64_t> states, sigs, covsigs, plans_distinct;
  std::atomic<int> stop;
  std::atomic<int> found_count;
  Found found[32];
  std::atomic<int> errors;
  char error_text[512];
  std::atomic<uint64_t> known_counts[64];
  std::atomic<uint64_t> cov_pcs;
  std::atomic<uint8_t> cov_seen[65536];
  std::atomic<uint64_t> state_set[kStateSlots];
  std::atomic<uint64_t> sig_set[kSigSlots];
  std::atomic<uint64_t> covsig_set[kSigSlots];
};
static Shared* g_shared;
static Slot* g_slot;  // of the current run
static bool g_trace = false;
static bool g_collect = true;

static void Count(NamedCounter* table, const char* name, uint64_t n) {
  if (!g_collect) return;
  uint64_t h = HashBytes(name, strlen(name));
  for (int i = 0; i < kCounters; ++i) {
    NamedCounter& c = table[(h + i) % kCounters];
    int expect = 0;
    if (c.claim.compare_exchange_strong(expect, 1)) {
      strncpy(c.name, name, sizeof(c.name) - 1);
      c.claim = 2;
    }
    while (c.claim != 2) {}
    if (strncmp(c.name, name, sizeof(c.name) - 1) == 0) {
      c.value += n;
      return;
    }
  }
}

static bool InsertSet(std::atomic<uint64_t>* set, size_t slots, uint64_t v) {
  if (v == 0) v = 1;
  uint64_t h = Mix(v);
  for (size_t i = 0; i < 64; ++i) {
    std::atomic<uint64_t>& s = set[(h + i) & (slots - 1)];
    uint64_t cur = s.load(std::memory_order_relaxed);
    if (cur == v) return false;
    if (cur == 0) {
      uint64_t expect = 0;
      if (s.compare_exchange_strong(expect, v)) return true;
      if (expect == v) return false;
    }
  }
  return false;
}

uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

// ------------------------------------------------------------ run state
static uint64_t g_hash = 0;
static uint64_t g_steps = 0;
static uint64_t g_step_budget = ~0ull;
static int g_op_index = -1;
static bool g_counting = true;  // false during leak re-execution
static uint64_t g_cov[1024];

void Event(uint64_t v) {
  if (g_counting) g_hash = Mix(g_hash ^ v) + 0x1234567;
}
void EventBytes(const void* p, size_t n) { Event(HashBytes(p, n)); }
void State(uint64_t v) {
  if (g_counting && g_collect && InsertSet(g_shared->state_set, kStateSlots, v))
    g_shared->states++;
}
void Signature(uint64_t v) {
  if (g_counting) g_slot->sig = Mix(g_slot->sig ^ v) + 77;
}
void NonTrivial() { g_slot->nontrivial = 1; }
void FaultFired(const char* kind, uint64_t n) {
  if (n && g_counting) Count(g_shared->faults, kind, n);
}
void Probe(const char* name, uint64_t n) {
  if (n && g_counting) Count(g_shared->probes, name, n);
}
void CurrentOp(int index) {
  g_op_index = index;
  if (g_counting) g_slot->op_index = index;
}
bool Tracing() { return g_trace && g_counting; }
void Trace(const char* fmt, ...) {
  if (!Tracing()) return;
  va_list ap;
  va_start(ap, fmt);
  char buf[2048];
  int n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
  buf[n++] = '\n';
  if (write(2, buf, n) < 0) {}
}
uint64_t Steps() { return g_steps; }
void SetStepBudget(uint64_t b) { g_step_budget = b; }

static void FinishSlot() {
  g_slot->hash = g_hash;
  g_slot->steps = g_steps;
  uint64_t h = HashBytes(g_cov, sizeof(g_cov));
  g_slot->covsig = h;
  if (g_collect) {
    for (int w = 0; w < 1024; ++w) {
      uint64_t bits = g_cov[w];
      while (bits) {
        int b = __builtin_ctzll(bits);
        bits &= bits - 1;
        if (!g_shared->cov_seen[w * 64 + b].load(std::memory_order_relaxed)) {
          if (!g_shared->cov_seen[w * 64 + b].exchange(1)) g_shared->cov_pcs++;
        }
      }
    }
  }
}

static bool g_in_violation = false;
void Violation(const char* cls, const char* fmt, ...) {
  tl_sut = 0;
  if (g_in_violation) _exit(43);
  g_in_violation = true;
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (g_slot != nullptr) {
    g_slot->status = 2;
    strncpy(g_slot->cls, cls, sizeof(g_slot->cls) - 1);
    snprintf(g_slot->detail, sizeof(g_slot->detail), "op %d: %s", g_op_index,
             buf);
    FinishSlot();
  }
  if (g_trace) {
    fprintf(stderr, "VIOLATION class=%s op=%d %s\n", cls, g_op_index, buf);
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
  }
  _exit(42);
}

// ------------------------------------------------------------ allocator
constexpr uintptr_t kArenaBase = 0x200000000000ull;
constexpr size_t kRegionSize = 8ull << 30;
constexpr size_t kMaxAlloc = 1ull << 28;
constexpr uint32_t kLive = 0x51a11fe5u;
constexpr uint32_t kDead = 0xdeadbeefu;
struct Block {
  uint32_t magic;
  uint8_t region, kind, pad[2];
  uint64_t size;
  Block* next;
  uint32_t total16;
  uint32_t seq;
};
static_assert(sizeof(Block) == 32, "");
constexpr int kClasses = 4096 + 40;
struct Region {
  uintptr_t base, lo, hi;
  int policy = 0;
  uint64_t rng = 1;
  uint32_t junk_alloc = 0xa5, junk_free = 0xdd;
  Block* head[kClasses];
  Block* tail[kClasses];
  uint32_t count[kClasses];
  uint64_t live = 0, live_bytes = 0, seq = 0;
};
static Region g_regions[2];
static bool g_arena_ready = false;
static bool g_asan = false;

static int g_af_mode = kAfNone;
static uint64_t g_af_n, g_af_k, g_af_seen, g_af_fired, g_af_total_fired;
static uint64_t g_sut_allocs;

static void ArenaInit() {
  if (g_arena_ready) return;
  g_arena_ready = true;
  g_asan = (&__asan_init != nullptr);
  void* p = mmap(reinterpret_cast<void*>(kArenaBase), 2 * kRegionSize,
                 PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != reinterpret_cast<void*>(kArenaBase)) {
    fprintf(stderr, "sim: cannot map the arena: %s\n", strerror(errno));
    _exit(99);
  }
  madvise(p, 2 * kRegionSize, MADV_NOHUGEPAGE);
  for (int i = 0; i < 2; ++i) {
    g_regions[i].base = g_regions[i].lo = kArenaBase + i * kRegionSize;
    g_regions[i].hi = g_regions[i].base + kRegionSize;
  }
}

static inline uint8_t* Shadow(uintptr_t a) {
  return reinterpret_cast<uint8_t*>((a >> 3) + 0x7fff8000ull);
}
// Not memset: ASAN intercepts it and refuses shadow addresses.
static inline void RawFill(uint8_t* p, uint8_t v, size_t n) {
  asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory");
}
static void Poison(uintptr_t a, size_t n, uint8_t v) {
  if (g_asan) RawFill(Shadow(a), v, n >> 3);
}
static void Unpoison(uintptr_t a, size_t n) {
  if (!g_asan) return;
  RawFill(Shadow(a), 0, n >> 3);
  if (n & 7) *Shadow(a + (n & ~7ull)) = n & 7;
}
static void FillJunk(void* p, size_t n, uint32_t pattern) {
  if (pattern < 256) {
    memset(p, pattern, n);
  } else {
    // Address independent pseudo-random words, dependent on the pattern.
    uint64_t x = pattern;
    unsigned char* c = static_cast<unsigned char*>(p);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      memcpy(c + i, &x, 8);
    }
    for (; i < n; ++i) c[i] = x >> (8 * (i & 7));
  }
}
static int ClassOf(size_t& total) {
  if (total <= 65536 - 16) return total / 16;
  int l = 64 - __builtin_clzll(total - 1);
  total = 1ull << l;
  return 4096 + l - 16;
}

bool (*g_hook_alloc)(size_t size) = nullptr;  // true: fail
void (*g_hook_block)(void* p, size_t size, bool live) = nullptr;

static bool FaultNow(size_t size) {
  if (g_af_mode == kAfNone) return false;
  ++g_af_seen;
  bool fail = false;
  switch (g_af_mode) {
    case kAfNth: fail = g_af_seen == g_af_n; break;
    case kAfWindow: fail = g_af_seen >= g_af_n && g_af_seen < g_af_n + g_af_k; break;
    case kAfFrom: fail = g_af_seen >= g_af_n; break;
    case kAfRandom: fail = g_af_n && Mix(g_af_k * 1000003 + g_af_seen) % g_af_n == 0; break;
    case kAfSize: fail = size >= g_af_n; break;
  }
  if (fail) { ++g_af_fired; ++g_af_total_fired; }
  return fail;
}

// kind: 1 malloc, 2 new, 3 new[]
static void* ArenaAlloc(size_t size, int kind) {
  ArenaInit();
  int ri = tl_sut ? 0 : 1;
  if (ri == 0) {
    ++g_sut_allocs;
    if (FaultNow(size)) return nullptr;
    if (g_hook_alloc && g_hook_alloc(size)) {
      ++g_af_total_fired;
      return nullptr;
    }
  }
  Host host;
  if (size > kMaxAlloc) return nullptr;
  Region& r = g_regions[ri];
  size_t total = sizeof(Block) + ((size + 15) & ~15ull) + 16;
  int cls = ClassOf(total);
  Block* b = nullptr;
  bool reuse = false;
  if (r.head[cls]) {
    switch (r.policy) {
      case 0: case 1: reuse = true; break;
      case 2: reuse = r.count[cls] > 16; break;
      case 3: reuse = false; break;
      case 4:
        r.rng = Mix(r.rng);
        reuse = (r.rng & 3) != 0;
        break;
    }
  }
  if (reuse) {
    Block** link = &r.head[cls];
    if (r.policy == 4) {
      uint32_t skip = (r.rng >> 8) % std::min<uint32_t>(r.count[cls], 8);
      while (skip-- && (*link)->next) link = &(*link)->next;
    }
    b = *link;
    if (r.tail[cls] == b) {
      // Find the predecessor for the tail pointer.
      if (link == &r.head[cls]) {
        r.tail[cls] = nullptr;
      } else {
        Block* p = r.head[cls];
        while (p->next != b) p = p->next;
        r.tail[cls] = p;
      }
    }
    *link = b->next;
    --r.count[cls];
  } else {
    size_t gap = 0;
    if (r.policy == 4) {
      r.rng = Mix(r.rng);
      gap = (r.rng % 64) * 16;
    }
    if (r.lo + gap + total > r.hi) return nullptr;
    if (r.policy == 1 || (r.policy == 4 && (r.rng & (1 << 20)))) {
      r.hi -= total + gap;
      b = reinterpret_cast<Block*>(r.hi);
    } else {
      b = reinterpret_cast<Block*>(r.lo + gap);
      r.lo += gap + total;
    }
  }
  uintptr_t user = reinterpret_cast<uintptr_t>(b) + sizeof(Block);
  Poison(reinterpret_cast<uintptr_t>(b), total, 0xfa);
  Unpoison(user, size);
  b->magic = kLive;
  b->region = ri;
  b->kind = kind;
  b->size = size;
  b->next = nullptr;
  b->total16 = total / 16;
  b->seq = ++r.seq;
  if (ri == 0) FillJunk(reinterpret_cast<void*>(user), size, r.junk_alloc);
  r.live++;
  r.live_bytes += size;
  if (ri == 0 && g_hook_block) g_hook_block(reinterpret_cast<void*>(user), size, true);
  return reinterpret_cast<void*>(user);
}

static bool InArena(const void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  return a >= kArenaBase && a < kArenaBase + 2 * kRegionSize;
}

static void ArenaFree(void* p, int kind) {
  Block* b = reinterpret_cast<Block*>(reinterpret_cast<uintptr_t>(p) - 32);
  if (b->magic != kLive) {
    Violation(b->magic == kDead ? "heap:double-free" : "heap:invalid-free",
              "free of %p which is not a live block", p);
  }
  if (b->kind != kind) {
    Violation("heap:mismatched-free", "block of kind %d freed as kind %d",
              b->kind, kind);
  }
  if (b->region == 0 && tl_sut && g_hook_block) g_hook_block(p, b->size, false);
  Host host;
  Region& r = g_regions[b->region];
  b->magic = kDead;
  r.live--;
  r.live_bytes -= b->size;
  size_t total = static_cast<size_t>(b->total16) * 16;
  if (b->region == 0) FillJunk(p, b->size, r.junk_free);
  Poison(reinterpret_cast<uintptr_t>(p), total - 32, 0xfd);
  int cls = ClassOf(total);
  if (r.policy == 2 || r.policy == 4) {  // FIFO
    b->next = nullptr;
    if (r.tail[cls]) r.tail[cls]->next = b; else r.head[cls] = b;
    r.tail[cls] = b;
  } else {
    b->next = r.head[cls];
    r.head[cls] = b;
    if (!r.tail[cls]) r.tail[cls] = b;
  }
  ++r.count[cls];
}

void ArmAllocFault(int mode, uint64_t n, uint64_t k) {
  g_af_mode = mode; g_af_n = n; g_af_k = k; g_af_seen = 0; g_af_fired = 0;
}
uint64_t DisarmAllocFault() {
  g_af_mode = kAfNone;
  return g_af_fired;
}
uint64_t AllocFaultsFired() { return g_af_fired; }
uint64_t SutAllocCount() { return g_sut_allocs; }
uint64_t LiveSutBlocks() { return g_regions[0].live; }
uint64_t LiveSutBytes() { return g_regions[0].live_bytes; }

}  // namespace sim

using sim::ArenaAlloc;
using sim::ArenaFree;
using sim::InArena;

extern "C" {
void* __wrap_malloc(size_t n) {
  if (sim::harness.no_arena) return __real_malloc(n);
  return ArenaAlloc(n, 1);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (sim::harness.no_arena) return __real_calloc(a, b);
  void* p = ArenaAlloc(a * b, 1);
  if (p) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void* p) {
  if (p == nullptr) return;
  if (InArena(p)) ArenaFree(p, 1); else __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
  if (sim::harness.no_arena || (p && !InArena(p))) return __real_realloc(p, n);
  if (p == nullptr) return ArenaAlloc(n, 1);
  sim::Block* b = reinterpret_cast<sim::Block*>(static_cast<char*>(p) - 32);
  size_t old = b->size;
  void* q = ArenaAlloc(n, 1);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  ArenaFree(p, 1);
  return q;
}

// Every instrumented basic block calls this.
void __sanitizer_cov_trace_pc() {
  if (!sim::tl_sut) return;
  uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  uint32_t h = static_cast<uint32_t>((pc * 0x9e3779b97f4a7c15ull) >> 48);
  sim::g_cov[h >> 6] |= 1ull << (h & 63);
  if (++sim::g_steps > sim::g_step_budget) {
    sim::Violation("hang:step-budget",
                   "no progress within %llu basic blocks",
                   (unsigned long long)sim::g_step_budget);
  }
}

void __assert_fail(const char* expr, const char* file, unsigned line,
                   const char* func) noexcept {
  sim::tl_sut = 0;
  const char* base = strrchr(file, '/');
  base = base ? base + 1 : file;
  char cls[192];
  snprintf(cls, sizeof(cls), "assert:%s:%.120s", base, expr);
  for (char* c = cls; *c; ++c)
    if (*c == ' ' || *c == '\n') *c = '_';
  sim::Violation(cls, "assertion `%s' failed at %s:%u in %.400s", expr, base,
                 line, func);
}
}

void* operator new(size_t n) {
  void* p = ArenaAlloc(n, 2);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = ArenaAlloc(n, 3);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  return ArenaAlloc(n, 2);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return ArenaAlloc(n, 3);
}
void operator delete(void* p) noexcept {
  if (!p) return;
  if (InArena(p)) ArenaFree(p, 2); else __real_free(p);
}
void operator delete[](void* p) noexcept {
  if (!p) return;
  if (InArena(p)) ArenaFree(p, 3); else __real_free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete[](p); }

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=44:symbolize=0:"
         "detect_stack_use_after_return=0:handle_sigfpe=1:print_legend=0:"
         "allocator_may_return_null=1:detect_container_overflow=1:"
         "print_summary=0:print_full_thread_history=0:verify_asan_link_order=0:"
         "alloc_dealloc_mismatch=0";
}


namespace sim {

static void AsanReport(const char* text) {
  tl_sut = 0;
  char type[64] = "unknown";
  const char* p = strstr(text, "AddressSanitizer: ");
  if (p) {
    p += strlen("AddressSanitizer: ");
    int i = 0;
    while (p[i] && p[i] != ' ' && p[i] != '\n' && i < 60) {
      type[i] = p[i];
      ++i;
    }
    type[i] = 0;
  }
  char cls[160];
  snprintf(cls, sizeof(cls), "asan:%s", type);
  Violation(cls, "%.1500s", text);
}

static void OnTerminate() {
  tl_sut = 0;
  std::type_info* t = abi::__cxa_current_exception_type();
  char cls[160];
  snprintf(cls, sizeof(cls), "terminate:%s", t ? t->name() : "none");
  Violation(cls, "std::terminate called (%s)", t ? t->name() : "no exception");
}

static void OnSignal(int sig) {
  char cls[32];
  snprintf(cls, sizeof(cls), sig == SIGALRM ? "hang:wall-clock" : "signal:%d", sig);
  Violation(cls, "signal %d", sig);
}

// ------------------------------------------------------------ one run
constexpr uintptr_t kStackBase = 0x240000000000ull;
constexpr size_t kStackSize = 64ull << 20;
static const Plan* g_plan;

static void Configure(const Plan& plan) {
  for (const Op& op : plan.ops) {
    if (op.code == kOpHeap) {
      Region& r = g_regions[0];
      r.policy = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % 5);
      r.rng = Mix(op.arg(1));
      r.junk_alloc = static_cast<uint32_t>(op.arg(2, 0xa5)) & 0xffff;
      r.junk_free = static_cast<uint32_t>(op.arg(3, 0xdd)) & 0xffff;
      static const char* const names[] = {"heap:lifo-reuse", "heap:descending",
        "heap:fifo-reuse", "heap:never-reuse", "heap:scattered"};
      FaultFired(names[r.policy]);
    } else if (op.code == kOpStack) {
      char* top = reinterpret_cast<char*>(kStackBase + kStackSize);
      memset(top - (256 << 10), static_cast<int>(op.arg(0)) & 0xff,
             (256 - 64) << 10);
    }
  }
}

static void ExecuteOnce() {
  try {
    harness.execute(*g_plan);
  } catch (const std::exception& e) {
    tl_sut = 0;
    char cls[160];
    snprintf(cls, sizeof(cls), "uncaught:%s", typeid(e).name());
    Violation(cls, "exception escaped: %s", e.what());
  } catch (...) {
    tl_sut = 0;
    Violation("uncaught:unknown", "exception escaped");
  }
}

static void* RunThread(void*) {
  uint64_t live0 = LiveSutBlocks();
  ExecuteOnce();
  tl_sut = 0;
  DisarmAllocFault();
  FinishSlot();
  g_slot->allocs = g_sut_allocs;
  g_slot->faults = g_af_total_fired;
  uint64_t live1 = LiveSutBlocks();
  if (harness.check_leaks && live1 > live0) {
    // Could be a first-use cache. A leak grows on every execution.
    g_counting = false;
    g_step_budget = ~0ull;
    ExecuteOnce();
    uint64_t live2 = LiveSutBlocks();
    ExecuteOnce();
    uint64_t live3 = LiveSutBlocks();
    g_counting = true;
    if (live2 > live1 && live3 > live2) {
      Violation("leak", "%llu blocks still allocated after the run (then +%llu, +%llu)",
                (unsigned long long)(live1 - live0),
                (unsigned long long)(live2 - live1),
                (unsigned long long)(live3 - live2));
    }
  }
  g_slot->status = 1;
  _exit(0);
}

// Runs the plan in a forked child. If plan is null, the child generates it
// from (seed, idx).
static Plan GeneratePlan(uint64_t seed, uint64_t idx, bool thorough) {
  Plan plan;
  Rng rng(Mix(seed) ^ Mix(idx * 0x10001 + 7) ^
          HashBytes(harness.id, strlen(harness.id)));
  harness.generate(rng, plan, thorough);
  return plan;
}

static void ChildMain(const Plan* given, uint64_t seed, uint64_t idx,
                      bool thorough, bool quiet) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (quiet) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
  }
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  Plan* plan = new Plan(given ? *given : GeneratePlan(seed, idx, thorough));
  g_plan = plan;
  if (&__asan_set_error_report_callback)
    __asan_set_error_report_callback(AsanReport);
  std::set_terminate(OnTerminate);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = OnSignal;
  sigaction(SIGALRM, &sa, nullptr);
  sigaction(SIGABRT, &sa, nullptr);
  if (!g_asan) {
    stack_t ss;
    ss.ss_sp = __real_malloc(65536);
    ss.ss_size = 65536;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    sa.sa_flags = SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
  }
  alarm(120);
  g_step_budget = harness.step_budget;
  g_steps = 0;
  g_hash = 0;
  memset(g_cov, 0, sizeof(g_cov));
  void* stack = mmap(reinterpret_cast<void*>(kStackBase), kStackSize,
                     PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                         MAP_FIXED_NOREPLACE,
                     -1, 0);
  if (stack != reinterpret_cast<void*>(kStackBase)) _exit(98);
  Configure(*plan);
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstack(&attr, stack, kStackSize);
  pthread_t t;
  if (pthread_create(&t, &attr, RunThread, nullptr) != 0) _exit(97);
  pthread_join(t, nullptr);
  _exit(96);
}

struct Outcome {
  int kind = 0;  // 0 ok, 1 violation, 2 harness error
  std::string cls, detail;
  uint64_t hash = 0;
  int op_index = -1;
};

static Outcome RunIsolated(Slot* slot, const Plan* plan, uint64_t seed,
                           uint64_t idx, bool thorough, bool quiet) {
  memset(slot, 0, sizeof(*slot));
  g_slot = slot;
  pid_t pid = fork();
  if (pid == 0) ChildMain(plan, seed, idx, thorough, quiet);
  Outcome out;
  if (pid < 0) {
    out.kind = 2;
    out.detail = "fork failed";
    return out;
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  out.hash = slot->hash;
  out.op_index = slot->op_index;
  if (slot->status == 2) {
    out.kind = 1;
    out.cls = slot->cls;
    out.detail = slot->detail;
  } else if (slot->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    out.kind = 0;
  } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV ||
                                 WTERMSIG(st) == SIGBUS ||
                                 WTERMSIG(st) == SIGFPE ||
                                 WTERMSIG(st) == SIGILL)) {
    out.kind = 1;
    out.cls = "signal:" + std::to_string(WTERMSIG(st));
    out.detail = "run killed by a signal";
  } else if (WIFEXITED(st) && (WEXITSTATUS(st) == 44 || WEXITSTATUS(st) == 43)) {
    out.kind = 1;
    out.cls = "asan:fatal";
    out.detail = "sanitizer aborted the run";
  } else {
    out.kind = 2;
    char buf[128];
    snprintf(buf, sizeof(buf), "child ended with status 0x%x", st);
    out.detail = buf;
  }
  return out;
}

// ------------------------------------------------------------ plan text
static std::string OpName(int code) {
  if (code == kOpHeap) return "heap";
  if (code == kOpStack) return "stack";
  int i = code - kOpFirstHarness;
  if (i >= 0 && i < harness.op_count) return harness.op_names[i];
  return "op" + std::to_string(code);
}
static int OpCode(const std::string& name) {
  if (name == "heap") return kOpHeap;
  if (name == "stack") return kOpStack;
  for (int i = 0; i < harness.op_count; ++i)
    if (name == harness.op_names[i]) return kOpFirstHarness + i;
  return -1;
}
static std::string PlanText(const Plan& plan, const char* sep = "\n") {
  std::ostringstream s;
  bool first = true;
  for (const Op& op : plan.ops) {
    if (!first) s << sep;
    first = false;
    s << OpName(op.code);
    for (int64_t a : op.a) s << ' ' << a;
  }
  return s.str();
}
static std::string g_replay_class;
static bool LoadPlan(const std::string& path, Plan& plan) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string w;
    if (!(s >> w) || w[0] == '#') continue;
    if (w == "property") {
      s >> w;
      if (w != harness.id) return false;
      continue;
    }
    if (w == "class") { s >> g_replay_class; continue; }
    if (w != "op") continue;
    s >> w;
    Op op;
    op.code = OpCode(w);
    if (op.code < 0) return false;
    int64_t v;
    while (s >> v) op.a.push_back(v);
    plan.ops.push_back(op);
  }
  return true;
}
static void SavePlan(const std::string& path, const Plan& plan,
                     const Outcome& o, uint64_t seed, uint64_t idx,
                     size_t original_ops) {
  std::ofstream f(path);
  f << "# replay of a simulated run; replay with: bin/check " << harness.id
    << " --replay " << path << "\n";
  f << "property " << harness.id << "\n";
  f << "# seed " << seed << " run " << idx << ", minimised from "
    << original_ops << " to " << plan.ops.size() << " operations\n";
  f << "class " << o.cls << "\n";
  f << "# hash " << o.hash << "\n";
  std::istringstream d(o.detail);
  std::string line;
  while (std::getline(d, line)) f << "# detail " << line << "\n";
  for (const Op& op : plan.ops) {
    f << "op " << OpName(op.code);
    for (int64_t a : op.a) f << ' ' << a;
    f << "\n";
  }
}

static double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ------------------------------------------------------------ minimiser
static Plan Minimise(Slot* slot, Plan plan, const std::string& cls,
                     double seconds, uint64_t& tried) {
  double end = Now() + seconds;
  tried = 0;
  auto fails = [&](const Plan& p) {
    ++tried;
    Outcome o = RunIsolated(slot, &p, 0, 0, false, true);
    return o.kind == 1 && o.cls == cls;
  };
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, plan.ops.size() / 2); chunk >= 1;
         chunk /= 2) {
      for (size_t i = 0; i < plan.ops.size() && Now() < end;) {
        Plan p;
        for (size_t j = 0; j < plan.ops.size(); ++j)
          if (j < i || j >= i + chunk) p.ops.push_back(plan.ops[j]);
        if (p.ops.size() < plan.ops.size() && fails(p)) {
          plan = p;
          progress = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < plan.ops.size() && Now() < end; ++i) {
      for (size_t k = 0; k < plan.ops[i].a.size() && Now() < end; ++k) {
        int64_t v = plan.ops[i].a[k];
        const int64_t cands[] = {0, 1, v / 2, v > 0 ? v - 1 : v + 1};
        for (int64_t c : cands) {
          if (c == v || (c < 0 ? -c : c) > (v < 0 ? -v : v)) continue;
          Plan p = plan;
          p.ops[i].a[k] = c;
          if (fails(p)) {
            plan = p;
            progress = true;
            break;
          }
        }
      }
    }
  }
  return plan;
}

// ------------------------------------------------------------ driver
struct Known {
  std::string cls, text;
};
static std::vector<Known> LoadKnown(const std::string& path) {
  std::vector<Known> out;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string w, prop, cls;
    s >> w;
    if (w != "known:") continue;
    s >> prop >> cls;
    if (prop != std::string("property=") + harness.id) continue;
    if (cls.compare(0, 6, "class=") != 0) continue;
    std::string rest;
    std::getline(s, rest);
    out.push_back({cls.substr(6), rest.empty() ? rest : rest.substr(1)});
  }
  return out;
}

static std::string JsonEscape(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (static_cast<unsigned char>(c) < 32) o += ' ';
    else o += c;
  }
  return o;
}

static void Worker(int w, int jobs, uint64_t seed, uint64_t runs, bool thorough,
                   double deadline, const std::vector<Known>& known) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Slot* slot = &g_shared->slots[w];
  int consecutive_errors = 0;
  for (uint64_t idx = w; idx < runs; idx += jobs) {
    if (g_shared->stop || Now() > deadline) break;
    Outcome o = RunIsolated(slot, nullptr, seed, idx, thorough, true);
    g_shared->runs++;
    g_shared->steps += slot->steps;
    g_shared->allocs += slot->allocs;
    if (slot->nontrivial) {
      g_shared->nontrivial++;
      if (InsertSet(g_shared->sig_set, kSigSlots, slot->sig)) g_shared->sigs++;
    }
    if (InsertSet(g_shared->covsig_set, kSigSlots, slot->covsig))
      g_shared->covsigs++;
    if (o.kind == 1) {
      bool is_known = false;
      for (size_t k = 0; k < known.size() && k < 64; ++k) {
        if (known[k].cls == o.cls) {
          g_shared->known_counts[k]++;
          is_known = true;
        }
      }
      if (!is_known) {
        int n = g_shared->found_count++;
        if (n < 32) {
          g_shared->found[n].idx = idx;
          strncpy(g_shared->found[n].cls, o.cls.c_str(), 191);
        }
        if (n >= 7) g_shared->stop = 1;
        break;  // lowest index of this worker
      }
    } else if (o.kind == 2) {
      g_shared->errors++;
      strncpy(g_shared->error_text, o.detail.c_str(), 511);
      if (++consecutive_errors > 5) {
        g_shared->stop = 1;
        break;
      }
    } else {
      consecutive_errors = 0;
    }
  }
  _exit(0);
}

static std::string Arg(int argc, char** argv, const char* name,
                       const std::string& dflt) {
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == name) return argv[i + 1];
  return dflt;
}
static bool Flag(int argc, char** argv, const char* name) {
  for (int i = 1; i < argc; ++i)
    if (std::string(argv[i]) == name) return true;
  return false;
}

int Main(int argc, char** argv) {
  ArenaInit();
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  uint64_t seed = strtoull(Arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  bool thorough = Arg(argc, argv, "--tier", "quick") == "thorough";
  uint64_t dflt_runs = thorough ? harness.default_runs_thorough
                                : harness.default_runs_quick;
  uint64_t runs = strtoull(
      Arg(argc, argv, "--runs", std::to_string(dflt_runs)).c_str(), nullptr, 10);
  int jobs = atoi(Arg(argc, argv, "--jobs", "8").c_str());
  if (jobs < 1) jobs = 1;
  if (jobs > 60) jobs = 60;
  double max_wall = atof(Arg(argc, argv, "--max-wall", thorough ? "700" : "240").c_str());
  std::string replay = Arg(argc, argv, "--replay", "");
  Slot* slot = &g_shared->slots[kMaxSlots - 1];

  if (!replay.empty()) {
    Plan plan;
    if (!LoadPlan(replay, plan)) {
      fprintf(stderr, "cannot read replay file %s\n", replay.c_str());
      return 2;
    }
    g_trace = Flag(argc, argv, "--trace");
    Outcome o = RunIsolated(slot, &plan, 0, 0, thorough,
                            !Flag(argc, argv, "--trace"));
    if (o.kind == 1) {
      printf("hash=%llu class=%s\n%s\n", (unsigned long long)o.hash,
             o.cls.c_str(), o.detail.c_str());
      printf("VIOLATION property=%s replay=%s\n", harness.id, replay.c_str());
      return 1;
    }
    printf("hash=%llu kind=%d %s\n", (unsigned long long)o.hash, o.kind,
           o.detail.c_str());
    return o.kind == 0 ? 0 : 2;
  }
  std::string one = Arg(argc, argv, "--one", "");
  if (!one.empty()) {
    uint64_t idx = strtoull(one.c_str(), nullptr, 10);
    Plan plan = GeneratePlan(seed, idx, thorough);
    printf("%s\n", PlanText(plan).c_str());
    fflush(stdout);
    g_trace = true;
    Outcome o = RunIsolated(slot, &plan, 0, 0, thorough, false);
    printf("kind=%d class=%s hash=%llu steps=%llu\n%s\n", o.kind, o.cls.c_str(),
           (unsigned long long)o.hash, (unsigned long long)slot->steps,
           o.detail.c_str());
    return o.kind;
  }
  std::string hashes = Arg(argc, argv, "--hashes", "");
  if (!hashes.empty()) {  // print hashes of the listed runs (fresh process)
    std::istringstream s(hashes);
    std::string w;
    g_collect = false;
    while (std::getline(s, w, ',')) {
      Outcome o = RunIsolated(slot, nullptr, seed, strtoull(w.c_str(), nullptr, 10),
                              thorough, true);
      printf("%s %llu %s\n", w.c_str(), (unsigned long long)o.hash, o.cls.c_str());
    }
    return 0;
  }

  std::vector<Known> known = LoadKnown(Arg(argc, argv, "--known", ""));
  double start = Now();
  double deadline = start + max_wall;
  std::vector<pid_t> pids;
  for (int w = 0; w < jobs; ++w) {
    pid_t p = fork();
    if (p == 0) Worker(w, jobs, seed, runs, thorough, deadline, known);
    pids.push_back(p);
  }
  for (pid_t p : pids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  }
  double explore_wall = Now() - start;
  g_collect = false;

  int exit_code = 0;
  int violations = 0;
  std::string replay_path;
  std::string note;
  int found = std::min<int>(g_shared->found_count, 32);
  std::vector<Found> finds(g_shared->found, g_shared->found + found);
  std::sort(finds.begin(), finds.end(),
            [](const Found& a, const Found& b) { return a.idx < b.idx; });
  bool gated = false;
  for (const Found& f : finds) {
    // Gate: the same run twice more, in separate processes.
    Outcome a = RunIsolated(slot, nullptr, seed, f.idx, thorough, true);
    Outcome b = RunIsolated(slot, nullptr, seed, f.idx, thorough, true);
    if (a.kind != 1 || b.kind != 1 || a.cls != b.cls || a.hash != b.hash ||
        a.cls != f.cls) {
      fprintf(stderr, "run %llu (class %s) did not repeat: %s/%llu %s/%llu\n",
              (unsigned long long)f.idx, f.cls, a.cls.c_str(),
              (unsigned long long)a.hash, b.cls.c_str(),
              (unsigned long long)b.hash);
      continue;
    }
    Plan plan = GeneratePlan(seed, f.idx, thorough);
    size_t original = plan.ops.size();
    uint64_t tried = 0;
    Plan min = Minimise(slot, plan, a.cls,
                        atof(Arg(argc, argv, "--min-seconds", "40").c_str()), tried);
    Outcome m = RunIsolated(slot, &min, 0, 0, false, true);
    if (m.kind != 1 || m.cls != a.cls) {
      min = plan;
      m = a;
    }
    std::string dir = Arg(argc, argv, "--replay-dir", "/tmp");
    mkdir(dir.c_str(), 0777);
    replay_path = dir + "/" + harness.id + "-seed" + std::to_string(seed) +
                  "-run" + std::to_string(f.idx) + ".replay";
    SavePlan(replay_path, min, m, seed, f.idx, original);
    // Fresh-process replay.
    char exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    exe[n > 0 ? n : 0] = 0;
    std::string cmd = std::string(exe) + " --replay " + replay_path + " 2>/dev/null";
    FILE* p = popen(cmd.c_str(), "r");
    std::string output;
    char buf[4096];
    while (p && fgets(buf, sizeof(buf), p)) output += buf;
    int rc = p ? pclose(p) : -1;
    char want[96];
    snprintf(want, sizeof(want), "hash=%llu ", (unsigned long long)m.hash);
    if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1 ||
        output.find(want) == std::string::npos) {
      fprintf(stderr, "replay of run %llu in a fresh process differs:\n%s\n",
              (unsigned long long)f.idx, output.c_str());
      continue;
    }
    printf("%s: run %llu of seed %llu, class %s (minimised %zu -> %zu ops, %llu tries)\n%s\n",
           harness.id, (unsigned long long)f.idx, (unsigned long long)seed,
           m.cls.c_str(), original, min.ops.size(), (unsigned long long)tried,
           m.detail.c_str());
    printf("VIOLATION property=%s replay=%s\n", harness.id, replay_path.c_str());
    gated = true;
    violations = found;
    exit_code = 1;
    break;
  }
  if (found > 0 && !gated) {
    fprintf(stderr, "%s: %d failing runs, none reproducible\n", harness.id, found);
    exit_code = 2;
  }
  if (g_shared->runs == 0 || (found == 0 && g_shared->errors > 0)) {
    fprintf(stderr, "%s: harness errors: %llu (%s)\n", harness.id,
            (unsigned long long)g_shared->errors, g_shared->error_text);
    exit_code = 2;
  }
  for (size_t k = 0; k < known.size(); ++k) {
    // Listed findings are always announced; the count says whether this batch
    // met them.
    printf("KNOWN-FINDING: property=%s class=%s %s (met %llu times)\n",
           harness.id, known[k].cls.c_str(), known[k].text.c_str(),
           (unsigned long long)g_shared->known_counts[k]);
  }

  // Determinism self-check: a sample of runs again, in a fresh process with
  // other address-space randomisation, against in-process hashes.
  int det_checked = 0, det_bad = 0;
  if (exit_code == 0) {
    uint64_t sample = std::min<uint64_t>(runs, thorough ? 200 : 40);
    std::string list;
    std::map<std::string, uint64_t> want;
    for (uint64_t i = 0; i < sample; ++i) {
      uint64_t idx = Mix(seed * 77 + i) % std::max<uint64_t>(1, g_shared->runs);
      std::string k = std::to_string(idx);
      if (want.count(k)) continue;
      want[k] = RunIsolated(slot, nullptr, seed, idx, thorough, true).hash;
      list += (list.empty() ? "" : ",") + k;
    }
    char exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    exe[n > 0 ? n : 0] = 0;
    std::string cmd = std::string(exe) + " --seed " + std::to_string(seed) +
                      (thorough ? " --tier thorough" : "") + " --hashes " + list +
                      " 2>/dev/null";
    FILE* p = popen(cmd.c_str(), "r");
    char buf[4096];
    while (p && fgets(buf, sizeof(buf), p)) {
      std::istringstream s(buf);
      std::string k;
      uint64_t h;
      s >> k >> h;
      ++det_checked;
      if (want[k] != h) ++det_bad;
    }
    if (p) pclose(p);
    if (det_bad)
      fprintf(stderr, "%s: WARNING: %d of %d runs were not deterministic\n",
              harness.id, det_bad, det_checked);
  }

  double wall = Now() - start;
  std::string ev = Arg(argc, argv, "--evidence", "");
  if (!ev.empty()) {
    std::ofstream f(ev);
    uint64_t r = g_shared->runs;
    f << "{\n \"property\": \"" << harness.id << "\",\n \"tier\": \""
      << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"" << Arg(argc, argv, "--level", "exploration")
      << "\",\n \"wall_s\": " << wall << ",\n \"violations\": " << violations
      << ",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << r << ",\n";
    f << "  \"distinct_nontrivial\": "
      << g_shared->sigs << ",\n";
    f << "  \"rule\": \"" << JsonEscape(harness.rule) << "\",\n";
    f << "  \"samples\": [";
    for (int i = 0; i < 2; ++i) {
      std::string t = PlanText(GeneratePlan(seed, i * 7 + 1, thorough), "; ");
      if (t.size() > 3000) t = t.substr(0, 3000) + " ...";
      f << (i ? ", " : "") << "\"" << JsonEscape(t) << "\"";
    }
    f << "],\n";
    f << "  \"simulated_runs\": " << r << ",\n";
    f << "  \"runs_per_hour\": " << static_cast<uint64_t>(r / std::max(explore_wall, 0.001) * 3600) << ",\n";
    f << "  \"seeds_per_hour\": " << static_cast<uint64_t>(r / std::max(explore_wall, 0.001) * 3600) << ",\n";
    f << "  \"simulated_steps\": " << g_shared->steps << ",\n";
    f << "  \"simulated_time\": \"the code under test reads no clock; simulated time is counted in executed basic blocks (simulated_steps)\",\n";
    f << "  \"simulated_allocations\": " << g_shared->allocs << ",\n";
    f << "  \"nontrivial_runs\": " << g_shared->nontrivial << ",\n";
    f << "  \"distinct_histories\": " << g_shared->sigs << ",\n";
    f << "  \"distinct_states\": " << g_shared->states << ",\n";
    f << "  \"distinct_execution_footprints\": " << g_shared->covsigs << ",\n";
    f << "  \"covered_basic_blocks\": " << g_shared->cov_pcs << ",\n";
    auto dump = [&](const char* name, NamedCounter* t) {
      f << "  \"" << name << "\": {";
      std::map<std::string, uint64_t> m;
      for (int i = 0; i < kCounters; ++i)
        if (t[i].name[0]) m[t[i].name] += t[i].value;
      bool first = true;
      for (auto& e : m) {
        f << (first ? "" : ", ") << "\"" << JsonEscape(e.first) << "\": " << e.second;
        first = false;
      }
      f << "},\n";
    };
    dump("faults_injected", g_shared->faults);
    dump("probes", g_shared->probes);
    f << "  \"known_finding_hits\": " << [&] {
      uint64_t t = 0;
      for (size_t k = 0; k < known.size() && k < 64; ++k) t += g_shared->known_counts[k];
      return t;
    }() << ",\n";
    f << "  \"determinism_runs_rechecked\": " << det_checked << ",\n";
    f << "  \"determinism_mismatches\": " << det_bad << ",\n";
    f << "  \"worker_processes\": " << jobs << ",\n";
    f << "  \"real_components\": \"" << JsonEscape(harness.real_components) << "\",\n";
    f << "  \"stub_components\": \"" << JsonEscape(harness.stub_components) << "\"\n";
    f << " },\n \"assumptions\": [\"seeded sampling, not enumeration: a clean batch is evidence, not proof\", \"the oracle code in /verif/sim is trusted\"]\n}\n";
  }
  printf("%s: %llu runs (%llu nontrivial, %llu distinct histories, %llu states) in %.1f s, %d violations, determinism %d/%d\n",
         harness.id, (unsigned long long)g_shared->runs,
         (unsigned long long)g_shared->nontrivial,
         (unsigned long long)g_shared->sigs,
         (unsigned long long)g_shared->states, wall, violations,
         det_checked - det_bad, det_checked);
  return exit_code;
}

}  // namespace sim

int main(int argc, char** argv) { return sim::Main(argc, argv); }
