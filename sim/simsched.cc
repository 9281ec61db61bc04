#include "simsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include "core.h"
#include "seams.h"

extern "C" char __executable_start;

namespace sim {
namespace {

constexpr uintptr_t kStacks = 0x210000000000ull;
constexpr size_t kStackSpan = 16 << 20, kStackSize = 8 << 20;
constexpr uintptr_t kHeap = 0x300000000000ull, kShadow = 0x340000000000ull, kTables = 0x380000000000ull;
constexpr size_t kHeapSize = 8ull << 30, kShadowSize = 64ull << 30;

typedef uint32_t Clk;
struct VC {
  Clk c[kMaxThreads];
  void join(const VC& o) {
    for (int i = 0; i < kMaxThreads; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
// One cell per 8 bytes: the last write, read and atomic write of each thread.
struct Gran {
  Clk w[kMaxThreads], r[kMaxThreads], a[kMaxThreads];
  uint32_t wpc, rpc;
  uint8_t wm[kMaxThreads], rm[kMaxThreads], am[kMaxThreads];
  uint8_t by;     // threads that touched it
  uint8_t freed;  // 1 + thread that freed it
};
struct PageEnt {
  uintptr_t key;
  Gran* g;
};
struct Sync {  // a lock, a once flag or an atomic
  uintptr_t key;
  VC rel, rrel;
  int writer;  // 1 + thread
  int readers, depth;
};
constexpr size_t kPageEnts = 1 << 18, kSyncEnts = 1 << 18;
PageEnt* g_pages;
Sync* g_syncs;
char* g_shadow_next;
// One segment for what was there before the threads, one for each thread.  What
// lies below `prot` outlived the operation that made it and may be shared: its
// pages are read-only, and each write to it by code without instrumentation is
// caught, noted and let through (sched_trap).
struct Seg {
  char *next, *prot, *end, *start;
};
Seg g_seg[kMaxThreads + 1];
constexpr size_t kSegSize = 1ull << 30;
char* g_heap_start;  // where the heap was when the threads started
bool g_heap_on = false;

struct T {
  pthread_t pt;
  int go;
  VC vc, frel, facq;
  int op, kind;
  int64_t step, quiet;
  bool finished;
  uintptr_t blocked;
  uint64_t rnd;
  int64_t q;
  uintptr_t lo, hi;
  const volatile void* spin_addr;
  int spins;
};
T g_t[kMaxThreads];
int g_n = 0;
bool g_on = false;
int g_main_go = 0;
int g_fault_thread = -1;
void (*g_body)(int) = nullptr;
const SchedPlan* g_plan = nullptr;
bool g_raced = false;
SchedCounts g_cnt;

thread_local int t_id = -1;
thread_local int t_nest = 0;

inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
void hold(int* go) {
  while (!__atomic_load_n(go, __ATOMIC_ACQUIRE)) raw_syscall(SYS_futex, (long)go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(go, 0, __ATOMIC_RELAXED);
}
void release_go(int* go) {
  __atomic_store_n(go, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

inline bool live() { return t_id >= 0 && t_nest == 0 && g_on; }

char* map_at(uintptr_t at, size_t n) {
  void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void*)at) _exit(6);
  return (char*)p;
}

Gran* gran(uintptr_t a) {
  uintptr_t page = a >> 12;
  size_t i = (page * 0x9E3779B97F4A7C15ull) >> 46;
  while (g_pages[i].key != page + 1) {
    if (!g_pages[i].key) {
      g_pages[i].key = page + 1;
      g_pages[i].g = (Gran*)g_shadow_next;
      g_shadow_next += 512 * sizeof(Gran);
      if (g_shadow_next > (char*)kShadow + kShadowSize) _exit(6);
      break;
    }
    i = (i + 1) & (kPageEnts - 1);
  }
  return g_pages[i].g + ((a & 4095) >> 3);
}
Sync* sync_at(const volatile void* p) {
  uintptr_t k = (uintptr_t)p;
  size_t i = (k * 0x9E3779B97F4A7C15ull) >> 46;
  while (g_syncs[i].key != k) {
    if (!g_syncs[i].key) {
      g_syncs[i].key = k;
      break;
    }
    i = (i + 1) & (kSyncEnts - 1);
  }
  return &g_syncs[i];
}

// ------------------------------------------------------------- switching
void finish_run_now() {
  g_clock.active = false;
  g_run->flush();
  g_run->sh->done = 1;
  _exit(0);
}

void begin_op_schedule(T& me, int t) {
  me.q = 0;
  for (auto& r : g_plan->rnd)
    if (r.t == t && r.op == me.op) {
      me.q = r.q > 0 ? r.q : 1;
      me.rnd = r.seed * 0x9E3779B97F4A7C15ull + 1;
    }
}

int runnable_from(int from, int except) {
  for (int i = 0; i < g_n; i++) {
    int t = ((from % g_n + g_n) + i) % g_n;
    if (t != except && !g_t[t].finished && !g_t[t].blocked) return t;
  }
  return -1;
}

void hand_over(int to, int kind) {  // to != t_id
  T& me = g_t[t_id];
  t_nest++;
  g_cnt.switches++;
  me.quiet = 0;
  me.spins = 0;
  g_run->logf("sw %d.%d+%lld k%d -> %d.%d", t_id, me.op, (long long)me.step, kind, to, g_t[to].op);
  g_run->state(mix(mix((uint64_t)me.kind * 64 + kind, (uint64_t)g_t[to].kind), 77));
  t_nest--;
  release_go(&g_t[to].go);
  hold(&me.go);
}

void point(int kind) {
  T& me = g_t[t_id];
  me.step++;
  g_cnt.points++;
  int to = -1;
  for (auto& p : g_plan->pre)
    if (p.t == t_id && p.op == me.op && p.step == me.step) to = p.next;
  if (to < 0 && me.q) {
    me.rnd = me.rnd * 6364136223846793005ull + 1442695040888963407ull;
    if ((int64_t)((me.rnd >> 33) % (uint64_t)me.q) == 0) to = (int)((me.rnd >> 20) & 7);
  }
  if (to < 0 && ++me.quiet > 30000) {  // nobody runs for ever
    to = t_id + 1;
    me.quiet = 0;
  }
  if (to < 0) return;
  int n = runnable_from(to, t_id);
  if (n >= 0) hand_over(n, kind);
}

void block_on(uintptr_t what) {
  T& me = g_t[t_id];
  me.blocked = what;
  g_cnt.blocks++;
  int n = runnable_from(t_id + 1, t_id);
  if (n < 0) {
    t_nest++;
    g_run->violate("V09", "deadlock", "all threads wait: thread %d (operation kind %d) for the lock at %s", t_id, me.kind,
                   what >= kHeap && what < kHeap + kHeapSize ? "the heap" : "static or stack memory");
    finish_run_now();
  }
  hand_over(n, 9);
  me.blocked = 0;
}
void wake(uintptr_t what) {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].blocked == what) g_t[i].blocked = 0;
}
void yield_now(int kind) {
  point(kind);
  int n = runnable_from(t_id + 1, t_id);
  if (n >= 0) hand_over(n, kind);
}

// ------------------------------------------------------------- races
const char* place(uintptr_t a) {
  if (a >= kHeap && a < kHeap + kHeapSize) return a < (uintptr_t)g_heap_start ? "shared heap" : "heap";
  if (a >= kStacks && a < kStacks + kMaxThreads * kStackSpan) return "another thread's stack";
  return "static";
}
void race(const char* what, uintptr_t a, size_t n, int u, uint32_t pc, uint32_t upc) {
  if (g_raced) return;
  g_raced = true;
  t_nest++;
  g_run->violate("V09", strstr(what, "freed") ? "freed" : "race",
                 "thread %d (operation %d, kind %d, at pc+0x%x) %s %zu byte(s) of %s memory, thread %d (kind %d, at pc+0x%x), "
                 "with no synchronisation between them",
                 t_id, g_t[t_id].op, g_t[t_id].kind, pc, what, n, place(a), u, g_t[u].kind, upc);
  t_nest--;
}

enum { kR = 0, kW = 1, kAR = 2, kAW = 3 };

__attribute__((noinline)) void access_(uintptr_t a, size_t n, int how, void* pc_) {
  T& me = g_t[t_id];
  if (n == 0) return;
  if (a >= me.lo && a < me.hi) return;
  if (a >= 0x7f0000000000ull) return;  // data of the libraries, which are not instrumented
  g_cnt.accesses++;
  Gran* g0 = gran(a & ~7ull);
  bool mine_only = a >= (uintptr_t)g_heap_start && a < kHeap + kHeapSize && !(g0->by & ~(1u << t_id));
  if (!mine_only) point(how >= kAR ? 2 : how == kW ? 1 : 0);
  uint32_t pc = (uint32_t)((uintptr_t)pc_ - (uintptr_t)&__executable_start);
  uintptr_t end = a + n;
  for (uintptr_t p = a & ~7ull; p < end; p += 8) {
    Gran* g = gran(p);
    int from = a > p ? (int)(a - p) : 0, to = end < p + 8 ? (int)(end - p) : 8;
    uint8_t m = (uint8_t)((0xff >> (8 - to)) & (0xff << from));
    if (g->freed) {
      race(how & 1 ? "writes freed" : "reads freed", a, n, g->freed - 1, pc, g->wpc);
      return;
    }
    if (g->by & ~(1u << t_id)) {
      for (int u = 0; u < g_n; u++) {
        if (u == t_id) continue;
        if (g->w[u] > me.vc.c[u] && (g->wm[u] & m)) {
          race(how & 1 ? "writes, written by another," : "reads, written by another,", a, n, u, pc, g->wpc);
        } else if (how < kAR && g->a[u] > me.vc.c[u] && (g->am[u] & m)) {
          race(how & 1 ? "writes, atomically written by another," : "reads, atomically written by another,", a, n, u, pc, g->wpc);
        } else if ((how & 1) && g->r[u] > me.vc.c[u] && (g->rm[u] & m)) {
          race("writes, read by another,", a, n, u, pc, g->rpc);
        }
      }
    }
    g->by |= 1u << t_id;
    Clk now = me.vc.c[t_id];
    auto put = [&](Clk* c, uint8_t* k) {
      k[t_id] = c[t_id] == now ? (k[t_id] | m) : m;
      c[t_id] = now;
    };
    switch (how) {
      case kR: put(g->r, g->rm); g->rpc = pc; break;
      case kW: put(g->w, g->wm); g->wpc = pc; break;
      case kAW: put(g->a, g->am); g->wpc = pc; break;
      default: break;  // atomic loads order, they do not conflict with atomic stores
    }
  }
}
inline void acc(const volatile void* a, size_t n, int how, void* pc) {
  if (live()) access_((uintptr_t)a, n, how, pc);
}

void acquire(const VC& v) { g_t[t_id].vc.join(v); }
void tick() { g_t[t_id].vc.c[t_id]++; }

// ------------------------------------------------------------- threads
void* thread_main(void* arg) {
  int t = (int)(intptr_t)arg;
  prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
  hold(&g_t[t].go);
  t_id = t;
  g_body(t);
  t_nest++;
  g_t[t].finished = true;
  g_run->logf("end %d", t);
  int n = runnable_from(t + 1, t);
  if (n < 0) {
    bool all = true;
    for (int i = 0; i < g_n; i++) all = all && g_t[i].finished;
    if (!all) {
      g_run->violate("V09", "deadlock", "thread %d ended and all that remain wait for locks", t);
      finish_run_now();
    }
  }
  t_id = -1;
  t_nest--;
  if (n >= 0) release_go(&g_t[n].go);
  else release_go(&g_main_go);
  hold(&g_t[t].go);  // joined one by one, at the end
  return nullptr;
}

template <class F>
F real_fn(F* slot, const char* name) {
  if (!*slot) *slot = (F)dlsym(RTLD_NEXT, name);
  return *slot;
}

}  // namespace

SchedOff::SchedOff() { t_nest++; }
SchedOff::~SchedOff() { t_nest--; }
int sched_self() { return t_id; }
void sched_set_fault_thread(int t) { g_fault_thread = t; }
bool sched_is_fault_thread() { return !g_on || (t_id >= 0 && t_nest == 0 && t_id == g_fault_thread); }
SchedCounts sched_counts() { return g_cnt; }
void sched_access(const void* p, size_t n, bool write) {
  if (p && live()) access_((uintptr_t)p, n, write ? kW : kR, __builtin_return_address(0));
}
void sched_point(int kind) {
  if (live()) point(kind);
}
static void protect(Seg& sg);
void sched_op(int index, int kind) {
  if (t_id < 0) return;
  T& me = g_t[t_id];
  me.op = index;
  me.kind = kind;
  me.step = 0;
  begin_op_schedule(me, t_id);
  protect(g_seg[t_id + 1]);
  if (live()) point(8);
}
// A write to what is shared by code without instrumentation.  libcrypto's are
// plain writes that have to be ordered like any other; the write itself is
// then made in a single step with the page open.
static uintptr_t g_crypto_lo, g_crypto_hi;
static char* t_step_page;  // one thread runs at any moment
static void on_step(int, siginfo_t*, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_;
  uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  if (!t_step_page) return;
  for (int i = 0; i < 2; i++) {
    char* p = t_step_page + i * 4096;
    if ((uintptr_t)p >= kHeap + (kMaxThreads + 1) * kSegSize) continue;
    Seg& sg = g_seg[((uintptr_t)p - kHeap) / kSegSize];
    if (p < sg.prot) mprotect(p, 4096, PROT_READ);
  }
  t_step_page = nullptr;
}
bool sched_trap(void* addr, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_;
  uintptr_t a = (uintptr_t)addr;
  if (a < kHeap || a >= kHeap + (kMaxThreads + 1) * kSegSize) return false;
  if (!(uc->uc_mcontext.gregs[REG_ERR] & 2)) return false;
  Seg& sg = g_seg[(a - kHeap) / kSegSize];
  if ((char*)a >= sg.prot) return false;
  const uint8_t* ip = (const uint8_t*)uc->uc_mcontext.gregs[REG_RIP];
  uintptr_t from = (uintptr_t)ip, sp = (uintptr_t)uc->uc_mcontext.gregs[REG_RSP];
  auto crypto = [](uintptr_t x) { return x >= g_crypto_lo && x < g_crypto_hi; };
  if (!crypto(from) && from >= 0x7f0000000000ull) from = *(uintptr_t*)sp;  // memcpy and the like
  g_cnt.traps++;
  if (live() && crypto(from)) {
    bool atomic = ip[0] == 0xf0 || ip[1] == 0xf0 || ip[0] == 0x86 || ip[0] == 0x87 || ((ip[0] & 0xf0) == 0x40 && (ip[1] == 0x86 || ip[1] == 0x87));
    g_cnt.crypto_writes++;
    if (!atomic) access_(a, 1, kW, (void*)(from - g_crypto_lo + (uintptr_t)&__executable_start));
  }
  t_step_page = (char*)(a & ~4095ull);
  mprotect(t_step_page, 8192, PROT_READ | PROT_WRITE);
  uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
  return true;
}
static void protect(Seg& sg) {
  char* to = (char*)(((uintptr_t)sg.next + 4095) & ~4095ull);
  if (to > sg.prot) mprotect(sg.prot, to - sg.prot, PROT_READ);
  sg.next = sg.prot = to;
}
static int find_crypto(struct dl_phdr_info* i, size_t, void*) {
  if (!strstr(i->dlpi_name, "libcrypto")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    if (i->dlpi_phdr[k].p_type != PT_LOAD || !(i->dlpi_phdr[k].p_flags & PF_X)) continue;
    g_crypto_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
    g_crypto_hi = g_crypto_lo + i->dlpi_phdr[k].p_memsz;
  }
  return 1;
}
static void traps_on() {
  dl_iterate_phdr(find_crypto, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = on_step;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, nullptr);
}
void sched_heap_on() {
  char* h = map_at(kHeap, kHeapSize);
  for (int i = 0; i <= kMaxThreads; i++) g_seg[i] = {h + i * kSegSize, h + i * kSegSize, h + (i + 1) * kSegSize, h + i * kSegSize};
  g_heap_on = true;
}
void sched_run(int n, void (*body)(int), const SchedPlan& plan) {
  traps_on();
  g_n = n < 1 ? 1 : n > kMaxThreads ? kMaxThreads : n;
  g_plan = &plan;
  g_body = body;
  g_shadow_next = map_at(kShadow, kShadowSize);
  char* tab = map_at(kTables, kPageEnts * sizeof(PageEnt) + kSyncEnts * sizeof(Sync));
  g_pages = (PageEnt*)tab;
  g_syncs = (Sync*)(tab + kPageEnts * sizeof(PageEnt));
  for (int i = 0; i < g_n; i++) {
    memset(&g_t[i], 0, sizeof g_t[i]);
    g_t[i].vc.c[i] = 1;
    g_t[i].kind = 63;
    char* st = map_at(kStacks + i * kStackSpan, kStackSize);
    g_t[i].lo = (uintptr_t)st;
    g_t[i].hi = (uintptr_t)st + kStackSize;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, st, kStackSize);
    if (pthread_create(&g_t[i].pt, &a, thread_main, (void*)(intptr_t)i)) _exit(5);
    pthread_attr_destroy(&a);
  }
  g_heap_start = g_seg[1].start;
  protect(g_seg[0]);
  g_on = true;
  release_go(&g_t[((plan.start % g_n) + g_n) % g_n].go);
  hold(&g_main_go);
  g_on = false;
  for (auto& sg : g_seg) {
    if (sg.prot > sg.start) mprotect(sg.start, sg.prot - sg.start, PROT_READ | PROT_WRITE);
    sg.prot = sg.start;
  }
  for (int i = 0; i < g_n; i++) {
    release_go(&g_t[i].go);
    pthread_join(g_t[i].pt, nullptr);
  }
}

}  // namespace sim
using namespace sim;

// ---------------------------------------------------------------- the heap
struct BlockHead {
  uint64_t n, magic;
};
constexpr uint64_t kMagic = 0x51b10c4ead51b10cull;
static inline bool in_heap(const void* p) { return (uintptr_t)p >= kHeap && (uintptr_t)p < kHeap + kHeapSize; }

extern "C" void* sim_raw_alloc(size_t n) {
  if (!g_heap_on) return malloc(n);
  Seg& sg = g_seg[t_id < 0 ? 0 : t_id + 1];
  char* p = sg.next;
  size_t need = (sizeof(BlockHead) + n + 15) & ~15ull;
  need += 16;  // never adjacent: no false sharing of a granule, and a gap to run into
  if ((size_t)(sg.end - p) < need) return nullptr;
  sg.next += need;
  BlockHead* h = (BlockHead*)p;
  h->n = n;
  h->magic = kMagic;
  memset(h + 1, 0xCD, n);
  return h + 1;
}
extern "C" void sim_raw_free(void* p, bool cxx) {
  if (!p) return;
  if (!in_heap(p)) {
    free(p);
    return;
  }
  BlockHead* h = (BlockHead*)p - 1;
  if (h->magic != kMagic) {
    if (h->magic == ~kMagic) {
      static const char m[] = "sim: terminate called: freed twice\n";
      if (write(2, m, sizeof m - 1)) {}
    }
    abort();
  }
  if (live()) {
    g_cnt.frees++;
    // freeing is a write to the whole block: nobody else may still use it
    if (cxx) access_((uintptr_t)p, h->n, kW, __builtin_return_address(0));
    for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + h->n; a += 8) gran(a)->freed = 1 + t_id;
  }
  Seg& sg = g_seg[((uintptr_t)p - kHeap) / kSegSize];
  char *lo = (char*)((uintptr_t)h & ~4095ull), *hi = (char*)(((uintptr_t)p + h->n + 4095) & ~4095ull);
  if (hi > sg.prot) hi = sg.prot;
  if (lo < hi) mprotect(lo, hi - lo, PROT_READ | PROT_WRITE);
  h->magic = ~kMagic;
  memset(p, 0xDD, h->n);
  if (lo < hi) mprotect(lo, hi - lo, PROT_READ);
}

// ---------------------------------------------------------------- the compiler's hooks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                        \
  void __tsan_read##n(void* a) { acc(a, n, kR, PC); }                \
  void __tsan_write##n(void* a) { acc(a, n, kW, PC); }               \
  void __tsan_unaligned_read##n(void* a) { acc(a, n, kR, PC); }      \
  void __tsan_unaligned_write##n(void* a) { acc(a, n, kW, PC); }     \
  void __tsan_volatile_read##n(void* a) { acc(a, n, kR, PC); }       \
  void __tsan_volatile_write##n(void* a) { acc(a, n, kW, PC); }      \
  void __tsan_read_write##n(void* a) { acc(a, n, kW, PC); }          \
  void __tsan_unaligned_read_write##n(void* a) { acc(a, n, kW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { acc(a, n, kR, PC); }
void __tsan_write_range(void* a, unsigned long n) { acc(a, n, kW, PC); }
void __tsan_vptr_read(void* a) { acc(a, 8, kR, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (live() && *a != v) access_((uintptr_t)a, 8, kW, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  acc(s, n, kR, PC);
  acc(d, n, kW, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  acc(s, n, kR, PC);
  acc(d, n, kW, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  acc(d, n, kW, PC);
  return memset(d, c, n);
}
// abseil's annotations, compiled in when it sees the sanitizer
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void AnnotateRWLockCreate(const char*, int, const volatile void*) {}
void AnnotateRWLockCreateStatic(const char*, int, const volatile void*) {}
void AnnotateRWLockDestroy(const char*, int, const volatile void*) {}
void AnnotateRWLockAcquired(const char*, int, const volatile void*, long) {}
void AnnotateRWLockReleased(const char*, int, const volatile void*, long) {}
void AnnotateBenignRace(const char*, int, const volatile void*, const char*) {}
void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) {}
void AnnotateThreadName(const char*, int, const char*) {}
void AnnotateEnableRaceDetection(const char*, int, int) {}
void AnnotateIgnoreReadsBegin(const char*, int) {}
void AnnotateIgnoreReadsEnd(const char*, int) {}
void AnnotateIgnoreWritesBegin(const char*, int) {}
void AnnotateIgnoreWritesEnd(const char*, int) {}
}

enum { kRelaxed = 0, kConsume, kAcquire, kRelease, kAcqRel, kSeqCst };
static void at_enter(const volatile void* a, size_t n, int how, void* pc) {
  access_((uintptr_t)a, n, how, pc);
  g_cnt.atomics++;
  T& me = g_t[t_id];
  if (me.spin_addr != a) {
    me.spin_addr = a;
    me.spins = 0;
  } else if (++me.spins > 100) {  // waiting for another thread
    me.spins = 0;
    yield_now(7);
  }
}
static void at_acquire(Sync* s, int mo) {
  T& me = g_t[t_id];
  if (mo == kRelaxed || mo == kRelease) me.facq.join(s->rel);
  else me.vc.join(s->rel);
}
static void at_release(Sync* s, int mo, bool rmw) {
  T& me = g_t[t_id];
  bool rel = mo == kRelease || mo == kAcqRel || mo == kSeqCst;
  const VC& v = rel ? me.vc : me.frel;
  if (rmw) s->rel.join(v);
  else s->rel = v;
  if (rel) tick();
}
#define AT(bits, type)                                                                       \
  extern "C" type __tsan_atomic##bits##_load(const volatile type* a, int mo) {               \
    if (!live()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                \
    at_enter(a, sizeof(type), kAR, PC);                                                      \
    at_acquire(sync_at(a), mo);                                                              \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                             \
  }                                                                                          \
  extern "C" void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) {            \
    if (live()) {                                                                            \
      at_enter(a, sizeof(type), kAW, PC);                                                    \
      at_release(sync_at(a), mo, false);                                                     \
    }                                                                                        \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                          \
  static inline void rmw##bits(volatile type* a, int mo, void* pc) {                         \
    if (!live()) return;                                                                     \
    at_enter(a, sizeof(type), kAW, pc);                                                      \
    Sync* s = sync_at(a);                                                                    \
    at_acquire(s, mo);                                                                       \
    at_release(s, mo, true);                                                                 \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) {         \
    rmw##bits(a, mo, PC);                                                                    \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo) {        \
    rmw##bits(a, mo, PC);                                                                    \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo) {        \
    rmw##bits(a, mo, PC);                                                                    \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo) {        \
    rmw##bits(a, mo, PC);                                                                    \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo) {         \
    rmw##bits(a, mo, PC);                                                                    \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo) {        \
    rmw##bits(a, mo, PC);                                                                    \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int mo) {       \
    rmw##bits(a, mo, PC);                                                                    \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                          \
  static inline bool cas##bits(volatile type* a, type* e, type v, int mo, int fmo, void* pc) {\
    if (!live()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    at_enter(a, sizeof(type), __atomic_load_n(a, __ATOMIC_SEQ_CST) == *e ? kAW : kAR, pc);   \
    Sync* s = sync_at(a);                                                                    \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    at_acquire(s, ok ? mo : fmo);                                                            \
    if (ok) at_release(s, mo, true);                                                         \
    return ok;                                                                               \
  }                                                                                          \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int mo, int fmo) { \
    return cas##bits(a, e, v, mo, fmo, PC);                                                  \
  }                                                                                          \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int mo, int fmo) {   \
    return cas##bits(a, e, v, mo, fmo, PC);                                                  \
  }                                                                                          \
  extern "C" type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int mo, int fmo) {    \
    cas##bits(a, &e, v, mo, fmo, PC);                                                        \
    return e;                                                                                \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (!live()) return;
  T& me = g_t[t_id];
  if (mo != kRelease && mo != kRelaxed) me.vc.join(me.facq);
  if (mo == kRelease || mo == kAcqRel || mo == kSeqCst) {
    me.frel = me.vc;
    tick();
  }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks
namespace {
bool lock_excl(void* m, bool recursive, bool attempt) {
  g_cnt.locks++;
  point(4);
  Sync* s = sync_at(m);
  if (s->writer == t_id + 1 && recursive) {
    s->depth++;
    return true;
  }
  while (s->writer || s->readers) {
    if (attempt) return false;
    block_on((uintptr_t)m);
  }
  s->writer = t_id + 1;
  s->depth = 1;
  acquire(s->rel);
  acquire(s->rrel);
  return true;
}
bool lock_shared(void* m, bool attempt) {
  g_cnt.locks++;
  point(4);
  Sync* s = sync_at(m);
  while (s->writer) {
    if (attempt) return false;
    block_on((uintptr_t)m);
  }
  s->readers++;
  acquire(s->rel);
  return true;
}
void unlock_any(void* m) {
  Sync* s = sync_at(m);
  if (s->writer == t_id + 1) {
    if (--s->depth > 0) return;
    s->writer = 0;
    s->rel = g_t[t_id].vc;
  } else if (s->readers > 0) {
    s->readers--;
    s->rrel.join(g_t[t_id].vc);
  }
  tick();
  wake((uintptr_t)m);
  point(5);
}
}  // namespace

#define REALFN(name) real_fn(&real_##name, #name)
#define DECLREAL(name) static decltype(&name) real_##name
extern "C" {
DECLREAL(pthread_mutex_lock);
DECLREAL(pthread_mutex_trylock);
DECLREAL(pthread_mutex_unlock);
DECLREAL(pthread_rwlock_rdlock);
DECLREAL(pthread_rwlock_wrlock);
DECLREAL(pthread_rwlock_tryrdlock);
DECLREAL(pthread_rwlock_trywrlock);
DECLREAL(pthread_rwlock_unlock);
DECLREAL(pthread_once);
DECLREAL(pthread_cond_wait);
DECLREAL(pthread_cond_signal);
DECLREAL(pthread_cond_broadcast);

static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == 1; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!live()) return REALFN(pthread_mutex_lock)(m);
  lock_excl(m, is_recursive(m), false);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!live()) return REALFN(pthread_mutex_trylock)(m);
  return lock_excl(m, is_recursive(m), true) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!live()) return REALFN(pthread_mutex_unlock)(m);
  unlock_any(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  if (!live()) return REALFN(pthread_rwlock_rdlock)(m);
  lock_shared(m, false);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
  if (!live()) return REALFN(pthread_rwlock_tryrdlock)(m);
  return lock_shared(m, true) ? 0 : EBUSY;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  if (!live()) return REALFN(pthread_rwlock_wrlock)(m);
  lock_excl(m, false, false);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
  if (!live()) return REALFN(pthread_rwlock_trywrlock)(m);
  return lock_excl(m, false, true) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  if (!live()) return REALFN(pthread_rwlock_unlock)(m);
  unlock_any(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!live()) return REALFN(pthread_cond_wait)(c, m);
  unlock_any(m);
  block_on((uintptr_t)c);
  acquire(sync_at(c)->rel);
  lock_excl(m, false, false);
  return 0;
}
static int timed_wait(pthread_mutex_t* m) {
  unlock_any(m);
  yield_now(6);
  lock_excl(m, false, false);
  return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  static decltype(&pthread_cond_timedwait) real;
  if (!live()) return real_fn(&real, "pthread_cond_timedwait")(c, m, ts);
  return timed_wait(m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  static decltype(&pthread_cond_clockwait) real;
  if (!live()) return real_fn(&real, "pthread_cond_clockwait")(c, m, k, ts);
  return timed_wait(m);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (!live()) return REALFN(pthread_cond_signal)(c);
  wake((uintptr_t)c);
  point(5);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (!live()) return REALFN(pthread_cond_broadcast)(c);
  wake((uintptr_t)c);
  point(5);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!live()) return REALFN(pthread_once)(o, fn);
  point(4);
  Sync* s = sync_at(o);
  while (*o != 2 && s->writer) block_on((uintptr_t)o);
  if (*o == 2) {
    acquire(s->rel);
    return 0;
  }
  s->writer = t_id + 1;
  acquire(s->rel);
  try {
    fn();
  } catch (...) {
    s->writer = 0;
    s->rel = g_t[t_id].vc;
    tick();
    wake((uintptr_t)o);
    throw;
  }
  *o = 2;
  s->writer = 0;
  s->rel = g_t[t_id].vc;
  tick();
  wake((uintptr_t)o);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  char* b = (char*)g;
  if (!live()) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  point(4);
  Sync* s = sync_at(g);
  while (!b[0] && b[1]) block_on((uintptr_t)g);
  if (b[0]) {
    acquire(s->rel);
    return 0;
  }
  b[1] = 1;
  acquire(s->rel);  // of an attempt that threw
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  char* b = (char*)g;
  b[1] = 0;
  b[0] = 1;
  if (!live()) return;
  Sync* s = sync_at(g);
  s->rel = g_t[t_id].vc;
  tick();
  wake((uintptr_t)g);
  point(5);
}
void __cxa_guard_abort(uint64_t* g) {
  ((char*)g)[1] = 0;
  if (!live()) return;
  sync_at(g)->rel = g_t[t_id].vc;
  tick();
  wake((uintptr_t)g);
}
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (live() && n == SYS_futex) {
    yield_now(6);
    return 0;
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
int sched_yield() noexcept {
  if (live()) {
    yield_now(6);
    return 0;
  }
  return (int)raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (live()) {
    yield_now(6);
    return 0;
  }
  return (int)raw_syscall(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
  if (live()) {
    yield_now(6);
    return 0;
  }
  return -(int)raw_syscall(SYS_clock_nanosleep, k, f, (long)a, (long)b, 0, 0);
}
int usleep(useconds_t u) {
  if (live()) {
    yield_now(6);
    return 0;
  }
  struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return (int)raw_syscall(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
}

// abseil's mutex (its library is not instrumented, so it is replaced whole)
typedef struct AbslMutex AbslMutex;
#define ABSL_MU(sym, ret, body_live)                                \
  ret sym(AbslMutex* m) {                                           \
    static ret (*real)(AbslMutex*);                                 \
    if (!live()) return real_fn(&real, #sym)(m);                    \
    body_live;                                                      \
  }
ABSL_MU(_ZN4absl7debian35Mutex4LockEv, void, lock_excl(m, false, false))
ABSL_MU(_ZN4absl7debian35Mutex6UnlockEv, void, unlock_any(m))
ABSL_MU(_ZN4absl7debian35Mutex7TryLockEv, bool, return lock_excl(m, false, true))
ABSL_MU(_ZN4absl7debian35Mutex10ReaderLockEv, void, lock_shared(m, false))
ABSL_MU(_ZN4absl7debian35Mutex12ReaderUnlockEv, void, unlock_any(m))
ABSL_MU(_ZN4absl7debian35Mutex13ReaderTryLockEv, bool, return lock_shared(m, true))

// ---------------------------------------------------------------- libc, renamed in instrumented objects
int sim_memcmp(const void* a, const void* b, size_t n) {
  acc(a, n, kR, PC);
  acc(b, n, kR, PC);
  return memcmp(a, b, n);
}
int sim_bcmp(const void* a, const void* b, size_t n) {
  acc(a, n, kR, PC);
  acc(b, n, kR, PC);
  return memcmp(a, b, n);
}
void* sim_memchr(const void* a, int c, size_t n) {
  acc(a, n, kR, PC);
  return (void*)memchr(a, c, n);
}
size_t sim_strlen(const char* a) {
  size_t n = strlen(a);
  acc(a, n + 1, kR, PC);
  return n;
}
void* sim_memcpy(void* d, const void* s, size_t n) {
  acc(s, n, kR, PC);
  acc(d, n, kW, PC);
  return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
  acc(s, n, kR, PC);
  acc(d, n, kW, PC);
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
  acc(d, n, kW, PC);
  return memset(d, c, n);
}
char* sim_strcpy(char* d, const char* s) {
  acc(s, strlen(s) + 1, kR, PC);
  acc(d, strlen(s) + 1, kW, PC);
  return strcpy(d, s);
}
char* sim_strncpy(char* d, const char* s, size_t n) {
  acc(s, strnlen(s, n), kR, PC);
  acc(d, n, kW, PC);
  return strncpy(d, s, n);
}
char* sim_strcat(char* d, const char* s) {
  acc(s, strlen(s) + 1, kR, PC);
  acc(d, strlen(d) + strlen(s) + 1, kW, PC);
  return strcat(d, s);
}
int sim_snprintf(char* d, size_t n, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(d, n, f, ap);
  va_end(ap);
  size_t k = r < 0 ? 0 : (size_t)r + 1 < n ? (size_t)r + 1 : n;
  acc(d, k, kW, PC);
  return r;
}
int sim_sprintf(char* d, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsprintf(d, f, ap);
  va_end(ap);
  acc(d, r < 0 ? 0 : (size_t)r + 1, kW, PC);
  return r;
}
void* sim_malloc(size_t n) {
  t_nest++;
  void* p = sim_raw_alloc(n ? n : 1);
  t_nest--;
  return p;
}
void sim_free(void* p) { sim_raw_free(p, true); }
void* sim_calloc(size_t a, size_t b) {
  void* p = sim_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void* sim_realloc(void* p, size_t n) {
  if (p && !in_heap(p)) return realloc(p, n);
  void* q = sim_malloc(n);
  if (p && q) {
    size_t k = ((BlockHead*)p - 1)->n;
    memcpy(q, p, k < n ? k : n);
    sim_raw_free(p, true);
  }
  return q;
}
char* sim_strdup(const char* s) {
  size_t n = sim_strlen(s) + 1;
  char* p = (char*)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
// functions that keep their result in static memory
static char g_static_area[16];
#define STATICFN(i) acc(&g_static_area[i], 1, kW, PC)
char* sim_strtok(char* a, const char* b) {
  STATICFN(0);
  return strtok(a, b);
}
struct tm* sim_gmtime(const time_t* t) {
  STATICFN(1);
  return gmtime(t);
}
struct tm* sim_localtime(const time_t* t) {
  STATICFN(1);
  return localtime(t);
}
char* sim_ctime(const time_t* t) {
  STATICFN(1);
  return ctime(t);
}
char* sim_asctime(const struct tm* t) {
  STATICFN(1);
  return asctime(t);
}
int sim_rand() {
  STATICFN(2);
  return 4;
}
}
