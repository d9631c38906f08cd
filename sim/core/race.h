// Threads under the simulator's scheduler (checks with `sim-mode: race`).
// Tasks are real threads, but only one runs at any time. Every memory access of
// the instrumented code (the code under test and the harness's task bodies) is
// a point where the schedule can take the processor away.
#ifndef SIM_RACE_H_
#define SIM_RACE_H_

#include <cstdint>
#include <functional>
#include <vector>

#include "sim.h"

namespace sim {
namespace race {

constexpr int kMaxTasks = 4;

// The schedule is a list of preemptions, consumed in order. Each waits for its
// n-th event (counted from the previous preemption) and hands the processor to
// the pick-th of the other runnable tasks.
enum StepKind {
  kAccess = 0,   // any memory access
  kShared = 1,   // an access to global data, or to data another task accessed
  kSync = 2,     // an atomic operation, a lock, a guard of a static variable
  kHeap = 3,     // an allocation
  kStepKinds = 4,
};
struct Step {
  int kind;
  uint64_t n;
  int pick;
  bool stall;  // the preempted task only continues when no other task can
};
struct Faults {
  // The nth allocation of the task fails; 0: none.
  uint64_t nth[kMaxTasks] = {};
  // How many in a row.
  uint64_t count[kMaxTasks] = {};
};
struct Stats {
  uint64_t accesses = 0, switches = 0, stalls = 0, shared = 0, syncs = 0, failed = 0, yields = 0, blocked = 0;
  uint64_t signature = 0;
  uint64_t failed_by[kMaxTasks] = {};
};

// Runs the tasks to completion. Task bodies start in Sut mode and must not let
// exceptions escape. A data race or a deadlock is a violation.
Stats Run(const std::vector<std::function<void()>>& tasks, const std::vector<Step>& schedule, const Faults& faults);
// The task that runs, or -1 outside of Run.
int Current();

}  // namespace race
}  // namespace sim

#endif
