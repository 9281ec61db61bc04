// Scheduler of simulated threads: real threads of which exactly one runs, at
// any moment, and only this file decides which.  It also owns the locks, the
// heap and a happens-before race detector over instrumented accesses.
#pragma once
#include <stddef.h>
#include <stdint.h>

#include <vector>

namespace sim {

constexpr int kMaxThreads = 6;
struct SchedPre {  // thread t, in its op-th operation, at its step-th switch point, hands over to `next`
  int t, op;
  int64_t step;
  int next;
};
struct SchedRnd {  // thread t, in its op-th operation, switches at about every q-th point
  int t, op;
  uint64_t seed;
  int64_t q;
};
struct SchedPlan {
  int start = 0;
  std::vector<SchedPre> pre;
  std::vector<SchedRnd> rnd;
};

void sched_heap_on();  // from here on nothing freed is used again
void sched_run(int n, void (*body)(int t), const SchedPlan& plan);
void sched_op(int index, int kind);  // thread `t` begins its index-th operation
int sched_self();
void sched_set_fault_thread(int t);
bool sched_is_fault_thread();
// An access by code that is not instrumented (a library call known to make it).
void sched_access(const void* p, size_t n, bool write);
void sched_point(int kind);
bool sched_trap(void* addr, void* ucontext);  // a write to a page that is watched?
struct SchedOff {  // harness work inside a simulated thread
  SchedOff();
  ~SchedOff();
};
struct SchedCounts {
  uint64_t points, switches, accesses, locks, atomics, blocks, frees, traps, crypto_writes;
};
SchedCounts sched_counts();

}  // namespace sim

extern "C" {
void* sim_raw_alloc(size_t n);
void sim_raw_free(void* p, bool cxx);
}
