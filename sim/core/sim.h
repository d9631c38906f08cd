// Deterministic simulator core: plans, seeded PRNG, allocator seam, fault
// schedule, violation reporting. See /verif/DESIGN.md.
#ifndef SIM_H_
#define SIM_H_

#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(Mix(seed ^ 0x5157414c4e5554ull)) {}
  uint64_t Next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  // [0, n)
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  // [lo, hi]
  int64_t Range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool Chance(int num, int den) { return static_cast<int>(Below(den)) < num; }
  template <typename T, size_t n> const T& Pick(const T (&a)[n]) {
    return a[Below(n)];
  }
};

// ---------------------------------------------------------------- plans
struct Op {
  int code = 0;
  std::vector<int64_t> a;
  Op() = default;
  Op(int c, std::initializer_list<int64_t> l) : code(c), a(l) {}
  int64_t arg(size_t i, int64_t dflt = 0) const {
    return i < a.size() ? a[i] : dflt;
  }
};
struct Plan {
  std::vector<Op> ops;
  void Add(int code, std::initializer_list<int64_t> l) {
    ops.emplace_back(code, l);
  }
};

// Operation codes below 16 are interpreted by the core, before the harness
// runs ("configuration" of the simulated machine).
enum CoreOp {
  kOpHeap = 0,   // policy, gap seed, alloc junk pattern, free junk pattern
  kOpStack = 1,  // fill pattern
  kOpFirstHarness = 16,
};

struct Harness {
  const char* id;
  // Names of the harness operations, codes kOpFirstHarness...
  const char* const* op_names;
  int op_count;
  void (*generate)(Rng& rng, Plan& plan, bool thorough);
  void (*execute)(const Plan& plan);
  const char* real_components;
  const char* stub_components;
  const char* rule;
  uint64_t step_budget;  // basic blocks of SUT code per run
  bool check_leaks;
  uint64_t default_runs_quick;
  uint64_t default_runs_thorough;
  bool no_arena = false;
};
extern const Harness harness;

// ---------------------------------------------------------------- modes
extern thread_local int tl_sut;

struct Sut {
  int old;
  Sut() : old(tl_sut) { tl_sut = 1; }
  ~Sut() { tl_sut = old; }
};
struct Host {
  int old;
  Host() : old(tl_sut) { tl_sut = 0; }
  ~Host() { tl_sut = old; }
};

// ---------------------------------------------------------------- results
[[noreturn]] void Violation(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void Event(uint64_t v);
void EventBytes(const void* p, size_t n);
// A distinct observed state (counted across the whole batch).
void State(uint64_t v);
void Signature(uint64_t v);
void NonTrivial();
void FaultFired(const char* kind, uint64_t n = 1);
void Probe(const char* name, uint64_t n = 1);
void CurrentOp(int index);
bool Tracing();
void Trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define SIM_CHECK(cond, cls, ...)                  \
  do {                                             \
    if (!(cond)) ::sim::Violation(cls, __VA_ARGS__); \
  } while (0)

// ---------------------------------------------------------------- allocator
enum AllocFault {
  kAfNone = 0,
  kAfNth = 1,        // only the n-th SUT allocation from now fails
  kAfWindow = 2,     // allocations n .. n+k-1 fail
  kAfFrom = 3,       // every allocation from the n-th on fails
  kAfRandom = 4,     // each fails with probability 1/n (seed k)
  kAfSize = 5,       // every allocation of at least n bytes fails
};
// Arms a fault schedule. Any previous schedule is replaced.
void ArmAllocFault(int mode, uint64_t n, uint64_t k);
// Disarms, returns the number of allocations that were failed.
uint64_t DisarmAllocFault();
uint64_t AllocFaultsFired();
uint64_t SutAllocCount();       // SUT allocations so far
uint64_t LiveSutBlocks();
uint64_t LiveSutBytes();
uint64_t Steps();
void SetStepBudget(uint64_t budget);

uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

}  // namespace sim

#endif
