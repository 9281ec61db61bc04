// Seams: everything nondeterministic or fallible that the code under test
// touches, owned by the simulator.
#pragma once
#include <stddef.h>
#include <stdint.h>

#include <string>

namespace sim {

// ---- clock: clock_gettime, gettimeofday, time, timespec_get -------------
struct SimClock {
  bool active = false;
  int64_t real_ns = 0;    // wall clock of the node that runs now
  int64_t mono_ns = 0;    // elapsed simulated time
  int64_t step_real = 0;  // wall clock advance caused by each reading
  int64_t step_mono = 0;
  uint64_t reads = 0;
  int64_t first_read_s = 0, last_read_s = 0;
};
extern SimClock g_clock;

// ---- time stamp counter: rdtsc traps and returns a seeded counter -------
void trap_tsc(uint64_t seed);  // call in the run's process only
extern uint64_t g_tsc_reads;

// ---- memory: operator new, OPENSSL_malloc; crypto calls -----------------
enum FaultKind { kNone = 0, kOpensslAlloc = 1, kNew = 2, kApi = 3, kAnyAlloc = 4 };
struct FaultPlan {
  int kind = kNone;
  int64_t nth = 0;     // fail the nth eligible call (0 = first) ...
  int64_t count = 1;   // ... and the following count-1 ones (<0: all that follow)
  int64_t seen = 0;    // eligible calls seen since armed
  int64_t fired = 0;
  char last[48] = {0};
};
extern FaultPlan g_fault;
void arm(int kind, int64_t nth, int64_t count);
int64_t disarm();  // how often it fired
// Faults can only fire while the code under test runs.
struct LibScope {
  LibScope();
  ~LibScope();
};
struct NoLib {  // harness callbacks from inside the code under test
  NoLib();
  ~NoLib();
  int saved;
};
extern int g_in_lib;
struct AllocCounts {
  int64_t live_new, live_ossl, total_new, total_ossl;
  int64_t bytes;  // held by live blocks (0 under the thread simulator)
};
AllocCounts allocs();
#ifndef SIM_SCHED
extern bool g_addr_reuse;  // the block freed last is the next of its size
extern uint64_t g_addr_reused;
#endif
void fault_stats(void (*cb)(const char* name, uint64_t n));
void seams_init();

}  // namespace sim
