// Core of the simulator: PRNG, plan, event log, statistics, violations.
#pragma once
#include <stdint.h>
#include <string.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---- one integer decides everything -------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull) { next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // index by weight
  size_t weighted(const std::vector<double>& w) {
    double t = 0;
    for (double x : w) t += x;
    double r = (next() >> 11) * (1.0 / 9007199254740992.0) * t;
    for (size_t i = 0; i < w.size(); i++) {
      if (r < w[i]) return i;
      r -= w[i];
    }
    return w.size() - 1;
  }
  // small numbers often, larger ones sometimes
  uint64_t geo(double p, uint64_t cap) {
    uint64_t n = 0;
    while (n < cap && !chance(p)) n++;
    return n;
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
  r.next();
  return r.next();
}

// ---- plans ---------------------------------------------------------------
// A plan is the complete schedule and fault trace of one run: executing it is
// a pure function of the plan and the code.  Every line is `kind n n n ...`;
// any line may be dropped and the rest still means something (arguments that
// name entities are taken modulo the number of entities that exist).
struct Op {
  std::string k;
  std::vector<int64_t> a;
  int64_t at(size_t i) const { return i < a.size() ? a[i] : 0; }
};
struct Plan {
  std::string world;    // deploy | cache | threads
  std::string profile;  // property the run is for
  uint64_t seed = 0;
  std::vector<Op> ops;
  std::string text() const;
  static Plan parse(const std::string& text);
};

// ---- results of one run, kept in memory shared with the parent ----------
constexpr size_t kSharedText = 1 << 20;
constexpr size_t kPlanText = 4 << 20;
constexpr size_t kMaxStates = 4096;
struct Shared {
  volatile uint64_t hash;      // event log hash so far
  volatile uint64_t events;    // event log entries so far
  volatile int64_t op;         // index of the op being executed
  volatile uint64_t sim_ns;    // simulated time covered
  volatile uint32_t done;
  volatile uint32_t nviol;
  volatile uint32_t nstates;
  volatile uint32_t textlen;
  uint64_t states[kMaxStates];
  char text[kSharedText];  // "V props|class|message\n" and "S name n\n" lines
  volatile uint32_t planlen;
  volatile uint32_t verbose;
  char target[16];
  char plan[kPlanText];    // the plan to execute
};

struct Run {
  Shared* sh = nullptr;
  bool verbose = false;
  std::string target;  // property this run is for ("" = all)
  std::map<std::string, uint64_t> stats;
  std::set<uint64_t> states;

  void log(const std::string& s);
  void logf(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void stat(const std::string& name, uint64_t n = 1) { stats[name] += n; }
  void state(uint64_t h) {
    if (states.size() < kMaxStates) states.insert(h);
  }
  // A property is violated.  `props`: space separated ids.
  void violate(const std::string& props, const std::string& cls, const char* fmt, ...)
      __attribute__((format(printf, 4, 5)));
  bool stop() const { return hit_; }
  void flush();

 private:
  bool hit_ = false;
};
extern Run* g_run;

// ---- worlds --------------------------------------------------------------
struct World {
  const char* name;
  Plan (*gen)(const std::string& profile, uint64_t seed);
  void (*exec)(const Plan&, Run&);
  void (*init)();  // once in the zygote
};
extern const World kDeploy, kCache, kThreads;

std::string hex(const std::string& s);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ull);

}  // namespace sim
