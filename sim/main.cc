// Driver of one simulator binary.
//   run  --world W --profile P --seed S --start I --count N --secs T --states FILE
//   gen  --world W --profile P --seed S --index I
//   exec --plan FILE [--target P] [--verbose]
// Every run executes in a process forked from the same untouched zygote, on a
// stack at a fixed address, with address randomisation off, so that addresses
// (which seed hash tables in the libraries used) are part of the replay too.
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <sys/syscall.h>

#include "core.h"
#include "seams.h"

using namespace sim;

#ifndef SIM_WORLDS
#error "SIM_WORLDS"
#endif
static const World* kWorlds[] = {SIM_WORLDS};

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
         "allocator_release_to_os_interval_ms=-1:detect_stack_use_after_return=0:"
         "handle_segv=0:handle_sigbus=1:handle_abort=0:print_summary=1:color=never:symbolize=0:"
         "fast_unwind_on_malloc=1:malloc_context_size=4:quarantine_size_mb=16:"
         "detect_odr_violation=0:alloc_dealloc_mismatch=0:use_sigaltstack=0:intercept_tls_get_addr=0:"
         "verify_asan_link_order=0:max_allocation_size_mb=512";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=0:halt_on_error=1:exitcode=78:color=never";
}

namespace {

constexpr uintptr_t kStackAt = 0x200000000000ull;
constexpr size_t kStackSize = 8 << 20;

Shared* g_sh;
int g_err_fd = -1;  // memfd for the run's stderr
int g_cmd[2], g_res[2];
const World* g_world = nullptr;

struct Cmd {
  int32_t op;  // 1 run, 0 quit
};
struct Res {
  int32_t status;
};

const World* find_world(const char* name) {
  for (auto* w : kWorlds)
    if (!strcmp(w->name, name)) return w;
  return nullptr;
}

void* run_thread(void*) {
  Plan p = Plan::parse(std::string(g_sh->plan, g_sh->planlen));
  const World* w = find_world(p.world.c_str());
  Run run;
  run.sh = g_sh;
  run.verbose = g_sh->verbose;
  run.target = g_sh->target;
  g_run = &run;
  if (w) {
    trap_tsc(p.seed * 2654435761u + 12345);
    w->exec(p, run);
    g_clock.active = false;
    fault_stats([](const char* n, uint64_t c) { g_run->stat(std::string("fired.") + n, c); });
    run.stat("seam.tsc_reads", g_tsc_reads);
    run.stat("seam.clock_reads", g_clock.reads);
    run.flush();
    g_sh->done = 1;
  }
  _exit(w ? 0 : 3);
  return nullptr;
}

void child() {
  struct rlimit rl = {20, 25};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  alarm(300);
  dup2(g_err_fd, 2);
  void* st = mmap((void*)kStackAt, kStackSize, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (st != (void*)kStackAt) _exit(4);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, st, kStackSize);
  pthread_t t;
  if (pthread_create(&t, &a, run_thread, nullptr)) _exit(5);
  for (;;) pause();
}

void zygote() {
  for (auto* w : kWorlds)
    if (w->init) w->init();
  Cmd c;
  for (;;) {
    ssize_t n = read(g_cmd[0], &c, sizeof c);
    if (n != sizeof c || c.op == 0) _exit(0);
    pid_t p = fork();
    if (p == 0) child();
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    Res r = {st};
    if (write(g_res[1], &r, sizeof r) != sizeof r) _exit(0);
  }
}

double now_s() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string read_stderr() {
  std::string s(1 << 16, 0);
  ssize_t n = pread(g_err_fd, &s[0], s.size(), 0);
  s.resize(n < 0 ? 0 : n);
  return s;
}

struct Viol {
  std::string props, cls, msg;
  long op;
};
struct Outcome {
  uint64_t hash, events, sim_ns;
  std::vector<Viol> viols;
  std::vector<std::pair<std::string, uint64_t>> stats;
  bool broken = false;  // the simulator itself failed
};

std::string crash_class(int st, const std::string& err, std::string* detail) {
  auto line_with = [&](const char* key) {
    size_t i = err.find(key);
    if (i == std::string::npos) return std::string();
    size_t b = err.rfind('\n', i);
    b = b == std::string::npos ? 0 : b + 1;
    size_t e = err.find('\n', i);
    return err.substr(b, e == std::string::npos ? e : e - b);
  };
  std::string l = line_with("ERROR: AddressSanitizer: ");
  if (!l.empty()) {
    *detail = l;
    size_t i = l.find("AddressSanitizer: ") + 18;
    size_t e = l.find(' ', i);
    return "crash:asan:" + l.substr(i, e - i);
  }
  l = line_with("runtime error: ");
  if (!l.empty()) {
    *detail = l;
    return "crash:ub";
  }
  l = line_with("Assertion `");
  if (!l.empty()) {
    *detail = l;
    return "crash:assert";
  }
  l = line_with("terminate called");
  if (!l.empty()) {
    *detail = l;
    return "crash:terminate";
  }
  *detail = err.substr(0, 400);
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL) return "hang";
    return "crash:signal" + std::to_string(sg);
  }
  return "crash:exit" + std::to_string(WEXITSTATUS(st));
}

Outcome run_plan(const std::string& text, const char* target, bool verbose) {
  Outcome o;
  g_sh->hash = 0xcbf29ce484222325ull;
  g_sh->events = 0;
  g_sh->op = -1;
  g_sh->sim_ns = 0;
  g_sh->done = 0;
  g_sh->nviol = 0;
  g_sh->nstates = 0;
  g_sh->textlen = 0;
  g_sh->verbose = verbose;
  snprintf(g_sh->target, sizeof g_sh->target, "%s", target);
  if (text.size() > kPlanText) {
    fprintf(stderr, "plan too long\n");
    exit(9);
  }
  memcpy(g_sh->plan, text.data(), text.size());
  g_sh->planlen = text.size();
  if (ftruncate(g_err_fd, 0)) {
  }
  lseek(g_err_fd, 0, SEEK_SET);
  Cmd c = {1};
  Res r;
  if (write(g_cmd[1], &c, sizeof c) != sizeof c || read(g_res[0], &r, sizeof r) != sizeof r) {
    fprintf(stderr, "zygote lost\n");
    exit(9);
  }
  o.hash = g_sh->hash;
  o.events = g_sh->events;
  o.sim_ns = g_sh->sim_ns;
  std::string text_out(g_sh->text, g_sh->textlen);
  size_t i = 0;
  while (i < text_out.size()) {
    size_t e = text_out.find('\n', i);
    if (e == std::string::npos) break;
    std::string l = text_out.substr(i, e - i);
    i = e + 1;
    if (l[0] == 'V') {
      Viol v;
      size_t a = l.find('|'), b = l.find('|', a + 1), c2 = l.find('|', b + 1);
      v.props = l.substr(2, a - 2);
      v.cls = l.substr(a + 1, b - a - 1);
      v.op = atol(l.substr(b + 1, c2 - b - 1).c_str());
      v.msg = l.substr(c2 + 1);
      o.viols.push_back(v);
    } else if (l[0] == 'S') {
      size_t sp = l.rfind(' ');
      o.stats.push_back({l.substr(2, sp - 2), strtoull(l.c_str() + sp + 1, nullptr, 10)});
    }
  }
  if (!g_sh->done) {
    std::string err = read_stderr(), detail;
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) >= 3 && WEXITSTATUS(r.status) <= 6) {
      fprintf(stderr, "simulator error: exit %d\n%s\n", WEXITSTATUS(r.status), err.c_str());
      o.broken = true;
    } else {
      Viol v;
      v.cls = crash_class(r.status, err, &detail);
      v.props = target[0] ? target : "*";
      v.op = g_sh->op;
      for (char& ch : detail)
        if (ch == '\n' || (unsigned char)ch < 32 || (unsigned char)ch > 126) ch = '?';
      v.msg = detail;
      o.viols.push_back(v);
      if (verbose) fprintf(stderr, "%s\n", err.c_str());
    }
  } else if (verbose) {
    std::string err = read_stderr();
    if (!err.empty()) fprintf(stderr, "%s\n", err.c_str());
  }
  return o;
}

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += c;
  }
  return o + "\"";
}

bool concerns(const std::string& props, const std::string& target) {
  return target.empty() || props == "*" ||
         (" " + props + " ").find(" " + target + " ") != std::string::npos;
}

uint64_t run_seed(uint64_t seed, const std::string& profile, uint64_t index) {
  return mix(mix(seed, hash_str(profile)), index) >> 1;
}

}  // namespace

int main(int argc, char** argv) {
  if (!getenv("SIM_CHILD")) {
    personality(ADDR_NO_RANDOMIZE);
    struct rlimit rl = {8 << 20, 8 << 20};
    setrlimit(RLIMIT_STACK, &rl);
    char* env[] = {(char*)"SIM_CHILD=1", nullptr, nullptr};
    // LD_LIBRARY_PATH and the like must not reach the run; nothing else passes.
    execve("/proc/self/exe", argv, env);
    perror("execve");
    return 9;
  }
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_MMAP_THRESHOLD, 1 << 24);
  mallopt(M_TRIM_THRESHOLD, 1 << 28);
  g_sh = (Shared*)mmap((void*)0x180000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_sh == MAP_FAILED) return 9;
  g_err_fd = memfd_create("sim-stderr", 0);
  if (pipe(g_cmd) || pipe(g_res)) return 9;
  seams_init();
  pid_t z = fork();
  if (z == 0) {
    close(g_cmd[1]);
    close(g_res[0]);
    signal(SIGPIPE, SIG_DFL);
    zygote();
  }
  close(g_cmd[0]);
  close(g_res[1]);

  std::string mode = argc > 1 ? argv[1] : "", world, profile, target, planfile, statesfile;
  uint64_t seed = 1, start = 0, count = 1, index = 0;
  double secs = 1e9;
  int maxviol = 3;
  bool verbose = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--world") world = val();
    else if (a == "--profile") profile = val();
    else if (a == "--target") target = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--index") index = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--secs") secs = atof(val().c_str());
    else if (a == "--plan") planfile = val();
    else if (a == "--states") statesfile = val();
    else if (a == "--maxviol") maxviol = atoi(val().c_str());
    else if (a == "--verbose") verbose = true;
  }
  int rc = 0;
  if (mode == "gen") {
    const World* w = find_world(world.c_str());
    if (!w) return 9;
    Plan p = w->gen(profile, run_seed(seed, profile, index));
    fputs(p.text().c_str(), stdout);
  } else if (mode == "exec") {
    std::string text;
    FILE* f = fopen(planfile.c_str(), "r");
    if (!f) return 9;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
    fclose(f);
    // comments are not part of the plan the run sees
    Plan p = Plan::parse(text);
    if (target.empty()) target = p.profile;
    Outcome o = run_plan(p.text(), target.c_str(), verbose);
    if (o.broken) rc = 9;
    printf("HASH %016llx EVENTS %llu\n", (unsigned long long)o.hash, (unsigned long long)o.events);
    for (auto& v : o.viols)
      if (concerns(v.props, target))
        printf("VIOL {\"props\":%s,\"cls\":%s,\"op\":%ld,\"msg\":%s}\n", jstr(v.props).c_str(),
               jstr(v.cls).c_str(), v.op, jstr(v.msg).c_str());
    if (verbose)
      for (auto& s : o.stats) printf("STAT %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
  } else if (mode == "run" || mode == "hashes") {
    const World* w = find_world(world.c_str());
    if (!w) return 9;
    if (target.empty()) target = profile;
    std::map<std::string, uint64_t> stats;
    std::set<uint64_t> states, plans;
    uint64_t runs = 0, events = 0, sim_ns = 0;
    double t0 = now_s();
    int nviol = 0;
    for (uint64_t i = start; i < start + count; i++) {
      if (now_s() - t0 > secs) break;
      Plan p = w->gen(profile, run_seed(seed, profile, i));
      Outcome o = run_plan(p.text(), target.c_str(), false);
      if (o.broken) {
        rc = 9;
        break;
      }
      runs++;
      events += o.events;
      sim_ns += o.sim_ns;
      if (mode == "hashes")
        printf("H %llu %016llx\n", (unsigned long long)i, (unsigned long long)o.hash);
      if (o.events >= 8) plans.insert(o.hash);
      for (auto& s : o.stats) stats[s.first] += s.second;
      for (uint32_t k = 0; k < g_sh->nstates; k++) {
        if (states.size() < 4000000) states.insert(g_sh->states[k]);
      }
      bool mine = false;
      for (auto& v : o.viols) {
        bool c = concerns(v.props, target);
        if (c && !mine) {
          printf("VIOL {\"index\":%llu,\"props\":%s,\"cls\":%s,\"op\":%ld,\"msg\":%s}\n",
                 (unsigned long long)i, jstr(v.props).c_str(), jstr(v.cls).c_str(), v.op,
                 jstr(v.msg).c_str());
          fflush(stdout);
          mine = true;
        } else if (!c) {
          stats["other_property_violations"]++;
          printf("OTHER %llu %s %s op %ld: %s\n", (unsigned long long)i, v.props.c_str(), v.cls.c_str(), v.op, v.msg.c_str());
        }
      }
      if (mine && ++nviol >= maxviol) break;
    }
    for (auto& s : stats) printf("STAT %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
    printf("DONE {\"runs\":%llu,\"events\":%llu,\"sim_ns\":%llu,\"distinct_runs\":%llu,\"states\":%llu,\"secs\":%.3f}\n",
           (unsigned long long)runs, (unsigned long long)events, (unsigned long long)sim_ns,
           (unsigned long long)plans.size(), (unsigned long long)states.size(), now_s() - t0);
    if (!statesfile.empty()) {
      FILE* f = fopen(statesfile.c_str(), "wb");
      if (f) {
        for (uint64_t s : states) fwrite(&s, 8, 1, f);
        fclose(f);
      }
      f = fopen((statesfile + ".runs").c_str(), "wb");
      if (f) {
        for (uint64_t s : plans) fwrite(&s, 8, 1, f);
        fclose(f);
      }
    }
  }
  fflush(stdout);
  Cmd q = {0};
  if (write(g_cmd[1], &q, sizeof q) < 0) {
  }
  int st;
  waitpid(z, &st, 0);
  return rc;
}
