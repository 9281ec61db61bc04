#ifndef SIM_SCHED
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#endif
#include "seams.h"

#include <dlfcn.h>
#include <unwind.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <new>

#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/curve25519.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"
#include "openssl/mem.h"
#include "openssl/x509.h"

#ifdef SIM_SCHED
#include "simsched.h"
#endif

namespace sim {
SimClock g_clock;
FaultPlan g_fault;
int g_in_lib = 0;
uint64_t g_tsc_reads = 0;
static uint64_t g_tsc = 0;
static int64_t g_live_new, g_live_ossl, g_total_new, g_total_ossl, g_bytes;
#ifdef SIM_SCHED
#define HELD(p) 0
#else
#define HELD(p) ((int64_t)__sanitizer_get_allocated_size(p))
#endif

// ---------------------------------------------------------------- libraries
struct TextRange {
  uintptr_t lo, hi;
};
static TextRange g_pb;
static int on_lib(struct dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && strstr(i->dlpi_name, "libprotobuf.so")) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
      const ElfW(Phdr)& p = i->dlpi_phdr[k];
      if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) {
        g_pb.lo = i->dlpi_addr + p.p_vaddr;
        g_pb.hi = g_pb.lo + p.p_memsz;
      }
    }
  }
  return 0;
}

static thread_local uintptr_t t_scope_sp = 0;
static thread_local int t_in_lib = 0;

// True if libprotobuf is somewhere on the stack: its JSON parser and messages
// make no promise about running out of memory, so it is not made to.  A look
// at the words on the stack settles most cases; words left there by calls that
// have returned do not count, so what looks like a frame is checked by unwinding.
static _Unwind_Reason_Code on_frame(struct _Unwind_Context* c, void* arg) {
  uintptr_t ip = (uintptr_t)_Unwind_GetIP(c);
  if (ip >= g_pb.lo && ip < g_pb.hi) {
    *(bool*)arg = true;
    return _URC_END_OF_STACK;
  }
  return (uintptr_t)_Unwind_GetCFA(c) >= t_scope_sp ? _URC_END_OF_STACK : _URC_NO_REASON;
}
__attribute__((no_sanitize("address"))) static bool below_protobuf() {
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  uintptr_t top = t_scope_sp;
  if (top <= sp || top - sp > (1u << 20)) return false;
  for (uintptr_t p = sp; p + 8 <= top; p += 8) {
    uintptr_t w = *(volatile uintptr_t*)p;
    if (w >= g_pb.lo && w < g_pb.hi) {
      bool found = false;
      _Unwind_Backtrace(on_frame, &found);
      return found;
    }
  }
  return false;
}

// ---------------------------------------------------------------- faults
static struct {
  const char* name;
  uint64_t n;
} g_fired[128];
static void count_fired(const char* name) {
  strncpy(g_fault.last, name, sizeof(g_fault.last) - 1);
  for (auto& f : g_fired) {
    if (!f.name) f.name = name;
    if (!strcmp(f.name, name)) {
      f.n++;
      return;
    }
  }
}
void fault_stats(void (*cb)(const char*, uint64_t)) {
  for (auto& f : g_fired)
    if (f.name) cb(f.name, f.n);
}
static bool eligible_now(int kind) {
  if (t_in_lib <= 0) return false;
#ifdef SIM_SCHED
  if (!sched_is_fault_thread()) return false;
#endif
  if (g_fault.kind == kind) return true;
  return g_fault.kind == kAnyAlloc && (kind == kNew || kind == kOpensslAlloc);
}
static bool should_fail(int kind, const char* name) {
  if (!eligible_now(kind)) return false;
  if (kind == kNew && below_protobuf()) return false;
  int64_t i = g_fault.seen++;
  if (i < g_fault.nth) return false;
  if (g_fault.count >= 0 && i >= g_fault.nth + g_fault.count) return false;
  g_fault.fired++;
  count_fired(name);
  return true;
}
void arm(int kind, int64_t nth, int64_t count) {
  g_fault = FaultPlan();
  g_fault.kind = kind;
  g_fault.nth = nth;
  g_fault.count = count;
}
int64_t disarm() {
  int64_t f = g_fault.fired;
  g_fault.kind = kNone;
  return f;
}
LibScope::LibScope() {
  t_in_lib++;
  g_in_lib = t_in_lib;
  if (t_in_lib == 1) t_scope_sp = (uintptr_t)__builtin_frame_address(0);
}
LibScope::~LibScope() { g_in_lib = --t_in_lib; }
NoLib::NoLib() {
  saved = t_in_lib;
  t_in_lib = 0;
}
NoLib::~NoLib() { t_in_lib = saved; }
AllocCounts allocs() { return {g_live_new, g_live_ossl, g_total_new, g_total_ossl, g_bytes}; }

// ---------------------------------------------------------------- tsc
static void on_segv(int sig, siginfo_t* si, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_;
  unsigned char* p = (unsigned char*)uc->uc_mcontext.gregs[REG_RIP];
  int len = 0;
  if (si->si_code == SI_KERNEL || si->si_addr == nullptr) {
    if (p[0] == 0x0f && p[1] == 0x31) len = 2;                     // rdtsc
    if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9) len = 3;     // rdtscp
  }
#ifdef SIM_SCHED
  if (!len && sched_trap(si->si_addr, uc_)) return;
#endif
  if (len) {
    g_tsc_reads++;
    // a seeded start, one tick per simulated nanosecond, a few per reading
    uint64_t tsc = g_tsc + (uint64_t)g_clock.mono_ns + g_tsc_reads * 37;
    uc->uc_mcontext.gregs[REG_RAX] = (uint32_t)tsc;
    uc->uc_mcontext.gregs[REG_RDX] = (uint32_t)(tsc >> 32);
    if (len == 3) uc->uc_mcontext.gregs[REG_RCX] = 0;
    uc->uc_mcontext.gregs[REG_RIP] += len;
    return;
  }
  char msg[512];
  int n = snprintf(msg, sizeof msg, "sim: segmentation fault at %p, code", si->si_addr);
  uintptr_t fp = (uintptr_t)uc->uc_mcontext.gregs[REG_RBP], pc = (uintptr_t)p;
  for (int i = 0; i < 10 && n < 440; i++) {
    n += snprintf(msg + n, sizeof msg - n, " %lx", (unsigned long)pc);
    uintptr_t sp = (uintptr_t)uc->uc_mcontext.gregs[REG_RSP];
    if (sp < 0x200000000000 || sp > 0x220000000000 || fp < sp || fp - sp > 65536 || (fp & 7)) break;  // a run's stack
    pc = ((uintptr_t*)fp)[1];
    fp = ((uintptr_t*)fp)[0];
  }
  msg[n++] = '\n';
  if (write(2, msg, n)) {}
  signal(SIGSEGV, SIG_DFL);  // faults again and ends the process
}
void trap_tsc(uint64_t seed) {
  g_tsc = (seed * 0x9E3779B97F4A7C15ull) >> 8;
  static char stack[65536];
  stack_t ss = {};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
}
void seams_init() { dl_iterate_phdr(on_lib, nullptr); }

}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------- clock
static int read_clock(clockid_t id, struct timespec* ts) {
  if (!g_clock.active) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t v;
  bool real = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
  if (real) {
    v = g_clock.real_ns;
    g_clock.real_ns += g_clock.step_real;
    int64_t sec = v / 1000000000, rem = v % 1000000000;
    if (rem < 0) sec--;
    if (!g_clock.reads) g_clock.first_read_s = sec;
    g_clock.last_read_s = sec;
    g_clock.reads++;
  } else {
    v = g_clock.mono_ns;
    g_clock.mono_ns += g_clock.step_mono;
  }
  int64_t sec = v / 1000000000, rem = v % 1000000000;
  if (rem < 0) {
    rem += 1000000000;
    sec--;
  }
  ts->tv_sec = sec;
  ts->tv_nsec = rem;
  return 0;
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) { return read_clock(id, ts); }
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  read_clock(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  read_clock(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int timespec_get(struct timespec* ts, int base) {
  read_clock(CLOCK_REALTIME, ts);
  return base;
}
}

// ---------------------------------------------------------------- memory
#ifndef SIM_SCHED  // else simsched.cc: an allocator that reuses nothing, with shadow
// Left alone the sanitizer keeps freed memory away from new allocations for
// long.  A real allocator hands it out again at once, and code that remembers
// addresses meets another object there: with address reuse on, the block freed
// last is the next of its size.
namespace sim {
bool g_addr_reuse = false;
uint64_t g_addr_reused = 0;
}
static const int kClasses = 65, kDepth = 256;
static void* g_freed[kClasses][kDepth];
static int g_nfreed[kClasses];
static void* sim_raw_alloc(size_t n) {
  if (!g_addr_reuse || n > 1024) return malloc(n);
  size_t c = (n + 15) / 16;
  char* p;
  if (g_nfreed[c] > 0) {
    p = (char*)g_freed[c][--g_nfreed[c]];
    g_addr_reused++;
    __asan_unpoison_memory_region(p, n);
  } else {
    p = (char*)malloc(c * 16);
    if (p) __asan_poison_memory_region(p + n, c * 16 - n);
  }
  return p;
}
static void sim_raw_free(void* p, bool) {
  if (g_addr_reuse) {
    size_t n = __sanitizer_get_allocated_size(p), c = n / 16;
    if (n && n % 16 == 0 && n <= 1024 && g_nfreed[c] < kDepth) {
      if (__asan_address_is_poisoned(p)) (void)*(volatile char*)p;  // freed twice: let the sanitizer say so
      __asan_poison_memory_region(p, n);
      g_freed[c][g_nfreed[c]++] = p;
      return;
    }
    __asan_unpoison_memory_region(p, n);
  }
  free(p);
}
#endif

static void* new_impl(size_t n, bool nothrow) {
  if (should_fail(kNew, "new")) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* p = sim_raw_alloc(n ? n : 1);
  if (!p) abort();
  g_live_new++;
  g_total_new++;
  g_bytes += HELD(p);
  return p;
}
static void del_impl(void* p) {
  if (!p) return;
  g_live_new--;
  g_bytes -= HELD(p);
  sim_raw_free(p, true);
}
void* operator new(size_t n) { return new_impl(n, false); }
void* operator new[](size_t n) { return new_impl(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, true); }
void operator delete(void* p) noexcept { del_impl(p); }
void operator delete[](void* p) noexcept { del_impl(p); }
void operator delete(void* p, size_t) noexcept { del_impl(p); }
void operator delete[](void* p, size_t) noexcept { del_impl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p); }

// BoringSSL's own seam: weak symbols for its allocator.
extern "C" {
void* OPENSSL_memory_alloc(size_t n) {
  if (should_fail(kOpensslAlloc, "openssl_malloc")) return nullptr;
  char* p = (char*)sim_raw_alloc(n + 16);
  if (!p) abort();
  *(size_t*)p = n;
  g_live_ossl++;
  g_total_ossl++;
  g_bytes += HELD(p);
  return p + 16;
}
void OPENSSL_memory_free(void* q) {
  if (!q) return;
  g_live_ossl--;
  g_bytes -= HELD((char*)q - 16);
  sim_raw_free((char*)q - 16, false);
}
size_t OPENSSL_memory_get_size(void* q) { return q ? *(size_t*)((char*)q - 16) : 0; }
}

// ---------------------------------------------------------------- crypto calls
// The executable's definitions win over libcrypto's for calls from the code
// under test; calls inside libcrypto are bound internally and not seen.
#ifdef SIM_SCHED
// What the call is known to read and write of its arguments, for the race
// detector: libcrypto itself is not instrumented.
#define SIM_W(p, n) sched_access((p), (n), true)
#define SIM_R(p, n) sched_access((p), (n), false)
#define SIM_POINT() sched_point(3)
#else
#define SIM_W(p, n) ((void)0)
#define SIM_R(p, n) ((void)0)
#define SIM_POINT() ((void)0)
#endif
#define REAL(name)                  \
  static decltype(&name) real;      \
  if (!real) real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define FAULTY(ret, name, params, args, failval, touches) \
  extern "C" ret name params {                            \
    REAL(name);                                           \
    SIM_POINT();                                          \
    touches;                                              \
    if (should_fail(kApi, #name)) return failval;         \
    return real args;                                     \
  }
#define NONE (void)0

FAULTY(EVP_PKEY*, EVP_PKEY_new, (void), (), nullptr, NONE)
FAULTY(int, EVP_PKEY_set1_RSA, (EVP_PKEY * p, RSA* k), (p, k), 0, SIM_W(p, 8); SIM_R(k, 8))
FAULTY(int, EVP_PKEY_assign_RSA, (EVP_PKEY * p, RSA* k), (p, k), 0, SIM_W(p, 8); SIM_R(k, 8))
FAULTY(EVP_MD_CTX*, EVP_MD_CTX_new, (void), (), nullptr, NONE)
FAULTY(EVP_MD_CTX*, EVP_MD_CTX_create, (void), (), nullptr, NONE)
FAULTY(int, EVP_DigestVerifyInit, (EVP_MD_CTX * c, EVP_PKEY_CTX** p, const EVP_MD* t, ENGINE* e, EVP_PKEY* k), (c, p, t, e, k), 0, SIM_W(c, 8); SIM_W(p, 8); SIM_R(k, 8))
FAULTY(int, EVP_DigestVerifyUpdate, (EVP_MD_CTX * c, const void* d, size_t n), (c, d, n), 0, SIM_W(c, 8); SIM_R(d, n))
FAULTY(int, EVP_DigestVerifyFinal, (EVP_MD_CTX * c, const uint8_t* s, size_t n), (c, s, n), 0, SIM_W(c, 8); SIM_R(s, n))
FAULTY(int, EVP_DigestVerify, (EVP_MD_CTX * c, const uint8_t* s, size_t sl, const uint8_t* d, size_t n), (c, s, sl, d, n), 0, SIM_W(c, 8); SIM_R(s, sl); SIM_R(d, n))
FAULTY(int, EVP_PKEY_CTX_set_rsa_padding, (EVP_PKEY_CTX * c, int p), (c, p), 0, SIM_W(c, 8))
FAULTY(int, EVP_PKEY_CTX_set_rsa_mgf1_md, (EVP_PKEY_CTX * c, const EVP_MD* md), (c, md), 0, SIM_W(c, 8))
FAULTY(int, EVP_DigestInit, (EVP_MD_CTX * c, const EVP_MD* t), (c, t), 0, SIM_W(c, 8))
FAULTY(int, EVP_DigestInit_ex, (EVP_MD_CTX * c, const EVP_MD* t, ENGINE* e), (c, t, e), 0, SIM_W(c, 8))
FAULTY(int, EVP_DigestUpdate, (EVP_MD_CTX * c, const void* d, size_t n), (c, d, n), 0, SIM_W(c, 8); SIM_R(d, n))
FAULTY(int, EVP_DigestFinal, (EVP_MD_CTX * c, uint8_t* o, unsigned* n), (c, o, n), 0, SIM_W(c, 8); SIM_W(o, 20); SIM_W(n, 4))
FAULTY(int, EVP_DigestFinal_ex, (EVP_MD_CTX * c, uint8_t* o, unsigned* n), (c, o, n), 0, SIM_W(c, 8); SIM_W(o, 20); SIM_W(n, 4))
FAULTY(ECDSA_SIG*, ECDSA_SIG_new, (void), (), nullptr, NONE)
FAULTY(int, ECDSA_do_verify, (const uint8_t* d, size_t n, const ECDSA_SIG* s, const EC_KEY* k), (d, n, s, k), 0, SIM_R(d, n); SIM_R(s, 8); SIM_R(k, 8))
FAULTY(uint8_t*, HMAC, (const EVP_MD* md, const void* k, size_t kl, const uint8_t* d, size_t n, uint8_t* o, unsigned* ol), (md, k, kl, d, n, o, ol), nullptr, SIM_R(k, kl); SIM_R(d, n); SIM_W(o, 20); SIM_W(ol, 4))
FAULTY(int, ED25519_verify, (const uint8_t* m, size_t n, const uint8_t s[64], const uint8_t k[32]), (m, n, s, k), 0, SIM_R(m, n); SIM_R(s, 64); SIM_R(k, 32))
FAULTY(BIGNUM*, BN_new, (void), (), nullptr, NONE)
FAULTY(BIGNUM*, BN_bin2bn, (const uint8_t* in, size_t n, BIGNUM* r), (in, n, r), nullptr, SIM_R(in, n); SIM_W(r, 8))
FAULTY(RSA*, RSA_new, (void), (), nullptr, NONE)
FAULTY(int, RSA_set0_key, (RSA * r, BIGNUM* n, BIGNUM* e, BIGNUM* d), (r, n, e, d), 0, SIM_W(r, 8))
FAULTY(int, RSA_check_key, (const RSA* r), (r), 0, SIM_R(r, 8))
FAULTY(EC_KEY*, EC_KEY_new_by_curve_name, (int nid), (nid), nullptr, NONE)
FAULTY(int, EC_KEY_set_public_key_affine_coordinates, (EC_KEY * k, const BIGNUM* x, const BIGNUM* y), (k, x, y), 0, SIM_W(k, 8); SIM_R(x, 8); SIM_R(y, 8))
FAULTY(BIO*, BIO_new, (const BIO_METHOD* m), (m), nullptr, NONE)
FAULTY(BIO*, BIO_new_mem_buf, (const void* b, ossl_ssize_t n), (b, n), nullptr, NONE)
FAULTY(int, BIO_write, (BIO * b, const void* d, int n), (b, d, n), -1, SIM_W(b, 8))
FAULTY(EVP_PKEY*, PEM_read_bio_PUBKEY, (BIO * b, EVP_PKEY** x, pem_password_cb* cb, void* u), (b, x, cb, u), nullptr, SIM_W(b, 8))
FAULTY(X509*, PEM_read_bio_X509, (BIO * b, X509** x, pem_password_cb* cb, void* u), (b, x, cb, u), nullptr, SIM_W(b, 8))
FAULTY(EVP_PKEY*, X509_get_pubkey, (X509 * x), (x), nullptr, SIM_R(x, 8))
FAULTY(int, EVP_PKEY_get_raw_public_key, (const EVP_PKEY* p, uint8_t* o, size_t* n), (p, o, n), 0, SIM_R(p, 8); SIM_W(o, o ? 32 : 0); SIM_W(n, 8))

#ifdef SIM_SCHED
// Calls that are not failed, only watched.
#define WATCH(ret, name, params, args, touches) \
  extern "C" ret name params {                  \
    REAL(name);                                 \
    SIM_POINT();                                \
    touches;                                    \
    return real args;                           \
  }
WATCH(int, HMAC_Init_ex, (HMAC_CTX * c, const void* k, size_t n, const EVP_MD* md, ENGINE* e), (c, k, n, md, e), SIM_W(c, 8))
WATCH(int, HMAC_Update, (HMAC_CTX * c, const uint8_t* d, size_t n), (c, d, n), SIM_W(c, 8))
WATCH(int, HMAC_Final, (HMAC_CTX * c, uint8_t* o, unsigned* n), (c, o, n), SIM_W(c, 8); SIM_W(o, 20))
WATCH(int, SHA256_Init, (SHA256_CTX * c), (c), SIM_W(c, 8))
WATCH(int, SHA256_Update, (SHA256_CTX * c, const void* d, size_t n), (c, d, n), SIM_W(c, 8))
WATCH(int, SHA256_Final, (uint8_t o[32], SHA256_CTX* c), (o, c), SIM_W(c, 8); SIM_W(o, 32))
WATCH(uint8_t*, SHA256, (const uint8_t* d, size_t n, uint8_t o[32]), (d, n, o), SIM_W(o, 32))
WATCH(int, SHA512_Init, (SHA512_CTX * c), (c), SIM_W(c, 8))
WATCH(int, SHA512_Update, (SHA512_CTX * c, const void* d, size_t n), (c, d, n), SIM_W(c, 8))
WATCH(int, SHA512_Final, (uint8_t o[64], SHA512_CTX* c), (o, c), SIM_W(c, 8); SIM_W(o, 64))
WATCH(int, EVP_Digest, (const void* d, size_t n, uint8_t* o, unsigned* on, const EVP_MD* t, ENGINE* e), (d, n, o, on, t, e), SIM_R(d, n); SIM_W(o, 20))
WATCH(int, EVP_MD_CTX_reset, (EVP_MD_CTX * c), (c), SIM_W(c, 8))
WATCH(int, EVP_MD_CTX_cleanup, (EVP_MD_CTX * c), (c), SIM_W(c, 8))
WATCH(void, EVP_MD_CTX_free, (EVP_MD_CTX * c), (c), SIM_W(c, 8))
WATCH(BIGNUM*, BN_copy, (BIGNUM * a, const BIGNUM* b), (a, b), SIM_W(a, 8); SIM_R(b, 8))
WATCH(void, BN_free, (BIGNUM * a), (a), SIM_W(a, 8))
WATCH(int, BN_cmp, (const BIGNUM* a, const BIGNUM* b), (a, b), SIM_R(a, 8); SIM_R(b, 8))
WATCH(int, ECDSA_SIG_set0, (ECDSA_SIG * s, BIGNUM* r, BIGNUM* t), (s, r, t), SIM_W(s, 8))
WATCH(void, ECDSA_SIG_free, (ECDSA_SIG * s), (s), SIM_W(s, 8))
WATCH(int, CRYPTO_memcmp, (const void* a, const void* b, size_t n), (a, b, n), SIM_R(a, n); SIM_R(b, n))
WATCH(int, EVP_PKEY_set1_EC_KEY, (EVP_PKEY * p, EC_KEY* k), (p, k), SIM_W(p, 8); SIM_R(k, 8))
WATCH(int, ECDSA_verify, (int t, const uint8_t* d, size_t n, const uint8_t* s, size_t sl, const EC_KEY* k), (t, d, n, s, sl, k), SIM_R(d, n); SIM_R(s, sl); SIM_R(k, 8))
WATCH(int, RSA_verify, (int t, const uint8_t* d, size_t n, const uint8_t* s, size_t sl, RSA* k), (t, d, n, s, sl, k), SIM_R(d, n); SIM_R(s, sl); SIM_R(k, 8))

// The same for calls into abseil and protobuf, by symbol.
#define SYM2(ret, sym, T1, T2, touches)                           \
  extern "C" ret sym(T1 a, T2 b) {                                \
    static ret (*real)(T1, T2);                                   \
    if (!real) real = (ret(*)(T1, T2))dlsym(RTLD_NEXT, #sym);     \
    SIM_POINT();                                                  \
    touches;                                                      \
    return real(a, b);                                            \
  }
struct AbslView {  // absl::string_view
  size_t n_or_p;
  size_t p_or_n;
};
SYM2(bool, _ZN4absl7debian321WebSafeBase64UnescapeENS0_11string_viewEPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, AbslView, void*, SIM_W(b, 16))
SYM2(bool, _ZN4absl7debian314Base64UnescapeENS0_11string_viewEPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, AbslView, void*, SIM_W(b, 16))
SYM2(void, _ZN6google8protobuf6Struct8CopyFromERKS1_, void*, const void*, SIM_W(a, 16); SIM_R(b, 16))
SYM2(void, _ZN6google8protobuf6Struct9MergeFromERKS1_, void*, const void*, SIM_W(a, 16); SIM_R(b, 16))
extern "C" void _ZN6google8protobuf6Struct5ClearEv(void* a) {
  static void (*real)(void*);
  if (!real) real = (void (*)(void*))dlsym(RTLD_NEXT, "_ZN6google8protobuf6Struct5ClearEv");
  SIM_POINT();
  SIM_W(a, 16);
  real(a);
}
// util::Status comes back through memory (sret), so the result pointer is the first argument.
extern "C" void* _ZN6google8protobuf4util19JsonStringToMessageENS0_20stringpiece_internal11StringPieceEPNS0_7MessageERKNS1_16JsonParseOptionsE(
    void* out, AbslView text, void* msg, const void* opt) {
  static void* (*real)(void*, AbslView, void*, const void*);
  if (!real)
    real = (decltype(real))dlsym(RTLD_NEXT,
                                 "_ZN6google8protobuf4util19JsonStringToMessageENS0_20stringpiece_internal11StringPieceEPNS0_7MessageERKNS1_16JsonParseOptionsE");
  SIM_POINT();
  SIM_W(msg, 16);
  return real(out, text, msg, opt);
}
#endif
