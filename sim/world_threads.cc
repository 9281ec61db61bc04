// Several threads use one key set, one audience list, the same tokens, while
// others load new key sets.  Every result must be the one the same operation
// gives when the operations run one after the other, no thread may touch what
// another one touches without synchronisation, and nobody may be stuck.
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <new>

#include "core.h"
#include "keys.h"
#include "pools.h"
#include "simsched.h"
#include "seams.h"
#include "threads_body.h"

namespace sim {
namespace {

constexpr int64_t kNow = 1700000000;

// ------------------------------------------------------------- plan -> input
std::string jwk(const Mat& m, int kid, int alg) {
  static const char* kty[] = {"RSA", "EC", "oct", "OKP"};
  std::string o = "{\"kty\":\"" + std::string(kty[m.fam]) + "\"";
  if (kid >= 0) o += ",\"kid\":" + jquote(kid_pool()[kid % kid_pool().size()]);
  if (alg >= 0) o += ",\"alg\":" + jquote(keyalg_pool()[alg % keyalg_pool().size()]);
  switch (m.fam) {
    case RSA_F: o += ",\"n\":\"" + b64u(m.n) + "\",\"e\":\"" + b64u(m.e) + "\""; break;
    case EC_F: o += ",\"crv\":\"" + m.crv + "\",\"x\":\"" + b64u(m.x) + "\",\"y\":\"" + b64u(m.y) + "\""; break;
    case OCT_F: o += ",\"k\":\"" + b64u(m.raw) + "\""; break;
    case OKP_F: o += ",\"crv\":\"Ed25519\",\"x\":\"" + b64u(m.raw) + "\""; break;
  }
  return o + "}";
}
const Mat& mat_at(int64_t i) { return mats()[(uint64_t)i % mats().size()]; }

// doc FMT SEED (MAT KID ALG)*
TDoc make_doc(const Op& o) {
  TDoc d;
  int fmt = (int)((uint64_t)o.at(0) % 4);
  struct K {
    int64_t m, k, a;
  };
  std::vector<K> ks;
  for (size_t i = 2; i + 2 < o.a.size(); i += 3) ks.push_back({o.a[i], o.a[i + 1], o.a[i + 2]});
  if (ks.empty()) ks.push_back({0, -1, -1});
  auto pem_mat = [&](const K& k) -> const Mat& {
    const Mat& m = mat_at(k.m);
    return m.fam == OCT_F ? mats()[mat_of(RSA_F, (uint64_t)k.m)] : m;
  };
  d.api = 0;
  switch (fmt) {
    case 0:
      d.text = "{\"keys\":[";
      for (size_t i = 0; i < ks.size(); i++) d.text += (i ? "," : "") + jwk(mat_at(ks[i].m), (int)ks[i].k, (int)ks[i].a);
      d.text += "]}";
      break;
    case 1: {
      d.text = "{";
      int n = 0;
      for (size_t i = 0; i < ks.size(); i++) {
        const Mat& m = mats()[mat_of(RSA_F, (uint64_t)ks[i].m)];
        if (m.crt_pem.empty()) continue;
        d.text += std::string(n++ ? "," : "") + "\"k" + std::to_string(i) + "\":" + jquote(m.crt_pem);
      }
      d.text += "}";
      break;
    }
    case 2:
      d.api = 1;
      d.text = pem_mat(ks[0]).pub_pem;
      break;
    default:
      d.api = 2;
      d.text = pem_mat(ks[0]).pub_pem;
      d.kid = ks[0].k >= 0 ? kid_pool()[ks[0].k % kid_pool().size()] : "";
      d.alg = ks[0].a >= 0 ? keyalg_pool()[ks[0].a % 13] : "";
  }
  if (o.at(1) % 16 == 15) d.text = d.text.substr(0, d.text.size() * 2 / 3);
  return d;
}

// tok MAT KID ALG FLAGS SEED
std::string make_tok(const Op& o) {
  const Mat& m = mat_at(o.at(0));
  int64_t flags = o.at(3);
  Rng r((uint64_t)o.at(4) + 17);
  int alg = o.at(2) < 0 ? natural_alg(m, r.next()) : (int)(o.at(2) % 13);
  if (alg_fam(alg) != m.fam) alg = natural_alg(m, (uint64_t)o.at(2));
  std::string head = "{\"alg\":\"" + kAlgs[alg] + "\"";
  if (o.at(1) >= 0) head += ",\"kid\":" + jquote(kid_pool()[o.at(1) % kid_pool().size()]);
  head += ",\"typ\":\"JWT\"}";
  if (flags & 4) head = r.chance(0.5) ? "{\"alg\":\"none\"}" : "{\"alg\":" + std::to_string(r.below(9)) + "}";
  int64_t exp = flags & 2 ? kNow - 5000 : kNow + 3600, nbf = flags & 32 ? kNow + 5000 : kNow - 3600;
  std::string pay = "{\"iss\":\"issuer" + std::to_string(r.below(3)) + "\",\"sub\":\"s" + std::to_string(r.below(100)) + "\"";
  const auto& ap = aud_pool();
  if (flags & 8) {
    pay += ",\"aud\":[";
    int n = (int)r.below(4);
    for (int i = 0; i < n; i++) pay += (i ? "," : "") + jquote(ap[r.below(20)]);
    pay += "]";
  } else {
    pay += ",\"aud\":" + jquote(ap[r.below(20)]);
  }
  pay += ",\"iat\":" + std::to_string(kNow - (int64_t)r.below(1000)) + ",\"exp\":" + std::to_string(exp) + ",\"nbf\":" + std::to_string(nbf);
  if (flags & 16) pay += ",\"realm\":{\"name\":\"x" + std::to_string(r.below(50)) + "\",\"roles\":[\"a\",\"b\"]},\"admin\":true,\"jti\":\"j\"";
  if (flags & 64) pay += ",\"iss\":7";
  pay += "}";
  std::string data = b64u(head) + "." + b64u(pay);
  std::string sig = sign(m, alg, data, r.next());
  if (flags & 1) sig[r.below(sig.size())] ^= 1 << r.below(8);
  std::string t = data + "." + b64u(sig);
  if (flags & 128) {
    size_t p = r.below(t.size());
    if (r.chance(0.5)) t.erase(p, 1 + r.below(8));
    else t[p] = "!.=\"\n"[r.below(5)];
  }
  return t;
}

struct Setup {
  TInput in;
  int n = 2;
  std::vector<std::vector<TOp>> ops;
  SchedPlan plan;
  struct F {
    int t, op, kind;
    int64_t nth, count;
  };
  std::vector<F> faults;
};

Setup make(const Plan& p) {
  Setup s;
  int fault_thread = -1;
  s.in.now = kNow;
  for (auto& o : p.ops)
    if (o.k == "cfg") {
      s.n = 1 + (int)((uint64_t)(o.at(0) - 1) % kMaxThreads);
      s.in.cold = o.at(1) & 1;
      s.plan.start = (int)(o.at(2) & 7);
    }
  s.ops.resize(s.n);
  auto th = [&](int64_t t) { return (int)((uint64_t)t % s.n); };
  for (auto& o : p.ops) {
    if (o.k == "doc") s.in.docs.push_back(make_doc(o));
    if (o.k == "tok") s.in.toks.push_back(make_tok(o));
    if (o.k == "aud") {
      std::vector<std::string> l;
      for (int64_t x : o.a) l.push_back(aud_pool()[(uint64_t)x % aud_pool().size()]);
      s.in.auds.push_back(l);
    }
    if (o.k == "op") {
      int t = th(o.at(0));
      s.ops[t].push_back({t, (int)((uint64_t)o.at(1) % kKinds), (uint64_t)o.at(2) & 0xff, (uint64_t)o.at(3) & 0xff, (uint64_t)o.at(4) & 0xff});
    }
    if (o.k == "pre") s.plan.pre.push_back({th(o.at(0)), (int)o.at(1), o.at(2), (int)(o.at(3) & 7)});
    if (o.k == "rnd") s.plan.rnd.push_back({th(o.at(0)), (int)o.at(1), (uint64_t)o.at(2), o.at(3)});
    if (o.k == "fault") {
      int t = th(o.at(0));
      if (fault_thread < 0) fault_thread = t;
      if (t == fault_thread) s.faults.push_back({t, (int)o.at(1), 1 + (int)((uint64_t)o.at(2) % 4), o.at(3) & 0xfff, o.at(4)});
    }
  }
  if (s.in.docs.empty()) s.in.docs.push_back(make_doc(Op{"doc", {0, 0, 0, 1, -1}}));
  if (s.in.toks.empty()) s.in.toks.push_back(make_tok(Op{"tok", {0, 1, -1, 0, 0}}));
  if (s.in.auds.empty()) s.in.auds.push_back({});
  sched_set_fault_thread(fault_thread);
  return s;
}

// ------------------------------------------------------------- execution
struct Result {
  std::string r;
  int version = -1;
  bool faulted = false, done = false;
};
Setup* g_s;
Body* g_b;
std::vector<std::vector<Result>>* g_res;

void one_op(BodyThread* bt, const TOp& op, Result* out) {
  try {
    LibScope in;
    out->r = body_op(g_b, bt, op, &out->version);
  } catch (const std::bad_alloc&) {
    out->r = "bad_alloc";
  } catch (const std::exception& e) {
    out->r = std::string("exception ") + e.what();
  }
  out->done = true;
}

void thread_body(int t) {
  BodyThread* bt;
  {
    SchedOff off;
    bt = body_thread_new();
  }
  for (size_t i = 0; i < g_s->ops[t].size(); i++) {
    const TOp& op = g_s->ops[t][i];
    {
      SchedOff off;
      g_run->logf("op %d.%zu %s %llu %llu %llu", t, i, body_kind_name(op.kind), (unsigned long long)op.a, (unsigned long long)op.b,
                  (unsigned long long)op.c);
      g_run->stat(std::string("op.") + body_kind_name(op.kind));
      g_run->sh->op = (int64_t)i;
    }
    sched_op((int)i, op.kind);
    bool armed = false;
    for (auto& f : g_s->faults)
      if (f.t == t && f.op == (int)i && op.kind != kPublish && !armed) {
        arm(f.kind, f.nth, f.count);
        armed = true;
      }
    one_op(bt, op, &(*g_res)[t][i]);
    SchedOff off;
    if (armed) {
      int64_t n = disarm();
      (*g_res)[t][i].faulted = n > 0;
      if (n > 0) g_run->stat("fault.in_thread", (uint64_t)n);
    }
    if (g_run->stop()) break;
  }
  SchedOff off;
  body_thread_free(bt);
}

// The same operations one after the other, in a process of their own; also
// the verdict of every token under every document that may be current.
bool reference(std::vector<std::vector<Result>>* out, std::vector<std::vector<std::string>>* table, std::string* shared) {
  constexpr size_t kSize = 16 << 20;
  char* m = (char*)mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    std::string text;
    auto put = [&](const std::string& s) {
      uint64_t h = hash_str(s);
      text.append((char*)&h, 8);
      uint32_t n = (uint32_t)(s.size() < 400 ? s.size() : 400);
      text.append((char*)&n, 4);
      text.append(s, 0, n);
    };
    sched_set_fault_thread(-1);
    for (int t = 0; t < g_s->n; t++) {
      BodyThread* bt = body_thread_new();
      for (auto& op : g_s->ops[t]) {
        Result r;
        one_op(bt, op, &r);
        put(r.r);
      }
    }
    for (size_t i = 0; i < g_s->in.toks.size(); i++)
      for (int d = 0; d < body_doc_count(g_b); d++) put(body_verdict(g_b, i, d));
    put(body_shared_digest(g_b));
    if (text.size() + 8 > kSize) _exit(1);
    memcpy(m + 8, text.data(), text.size());
    *(volatile uint64_t*)m = text.size();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  uint64_t n = *(uint64_t*)m, i = 8;
  if (!WIFEXITED(st) || WEXITSTATUS(st) || !n) return false;
  auto get = [&]() {
    uint32_t k;
    memcpy(&k, m + i + 8, 4);
    std::string s(m + i, 8);
    s.append(m + i + 12, k);
    i += 12 + k;
    return s;
  };
  for (int t = 0; t < g_s->n; t++)
    for (size_t k = 0; k < g_s->ops[t].size(); k++) (*out)[t][k].r = get();
  for (size_t k = 0; k < g_s->in.toks.size(); k++) {
    table->push_back({});
    for (int d = 0; d < body_doc_count(g_b); d++) table->back().push_back(get());
  }
  *shared = get();
  munmap(m, kSize);
  return true;
}

bool equal(const std::string& r, const std::string& ref) {
  uint64_t h = hash_str(r);
  return !memcmp(&h, ref.data(), 8);
}

void threads_exec(const Plan& p, Run& run) {
  g_clock.active = true;
  g_clock.real_ns = kNow * 1000000000ll + 500000000;
  g_clock.mono_ns = 1000000000;
  sched_heap_on();
  Setup s = make(p);
  g_s = &s;
  g_b = body_new(&s.in);
  std::vector<std::vector<Result>> res(s.n), ref(s.n);
  for (int t = 0; t < s.n; t++) {
    res[t].resize(s.ops[t].size());
    ref[t].resize(s.ops[t].size());
  }
  std::vector<std::vector<std::string>> table;
  std::string before;
  if (!reference(&ref, &table, &before)) {
    run.stat("inconclusive");
    run.log("the operations fail one after the other already");
    return;
  }
  g_res = &res;
  run.stat("threads", (uint64_t)s.n);
  run.stat(s.in.cold ? "cold" : "shared");
  sched_run(s.n, thread_body, s.plan);
  if (!run.stop()) {
    for (int t = 0; t < s.n && !run.stop(); t++)
      for (size_t i = 0; i < s.ops[t].size() && !run.stop(); i++) {
        const TOp& op = s.ops[t][i];
        const Result& r = res[t][i];
        run.logf("res %d.%zu %016llx v%d%s", t, i, (unsigned long long)hash_str(r.r), r.version, r.faulted ? " faulted" : "");
        if (r.faulted) continue;
        std::string want = ref[t][i].r;
        if (op.kind == kCurrent) {
          if (r.version < 0) continue;
          want = table[body_tok(g_b, op.a)][r.version];
        }
        if (!equal(r.r, want))
          run.violate("V09", "differs", "thread %d operation %zu (%s %llu %llu %llu) gave \"%s\" among %d threads, \"%s\" alone", t, i,
                      body_kind_name(op.kind), (unsigned long long)op.a, (unsigned long long)op.b, (unsigned long long)op.c,
                      r.r.substr(0, 120).c_str(), s.n, want.substr(8, 120).c_str());
      }
    if (!run.stop() && !equal(body_shared_digest(g_b), before))
      run.violate("V09", "shared_changed", "tokens, key sets or audience lists that were only read have changed");
  }
  auto c = sched_counts();
  run.stat("sched.points", c.points);
  run.stat("sched.switches", c.switches);
  run.stat("sched.accesses", c.accesses);
  run.stat("sched.locks", c.locks);
  run.stat("sched.atomics", c.atomics);
  run.stat("sched.blocked", c.blocks);
  run.stat("sched.watched_writes", c.traps);
  run.stat("sched.crypto_writes", c.crypto_writes);
  run.stat("sched.frees", c.frees);
  run.sh->sim_ns = c.points * 100;  // a switch point stands for about 100 ns
}

// ------------------------------------------------------------- generation
int64_t log_uniform(Rng& r, int bits) {
  int b = (int)r.below((uint64_t)bits + 1);
  return 1 + (int64_t)r.below(1ull << b);
}

Plan threads_gen(const std::string& profile, uint64_t seed) {
  Plan p;
  p.world = "threads";
  p.profile = profile;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](const char* k, std::vector<int64_t> a) { p.ops.push_back({k, a}); };
  int n = (int)r.weighted({0, 0, 5, 4, 3, 0.5, 0.5});
  bool cold = r.chance(0.3);
  add("cfg", {n, cold, (int64_t)r.below(6)});
  int focus_fam = r.chance(0.5) ? (int)r.below(4) : -1;
  int focus_kind = r.chance(0.45) ? (int)r.below(kKinds) : -1;
  int style = (int)r.weighted({6, 2});  // 1: key sets are replaced while tokens are verified
  std::vector<int> used;
  auto a_mat = [&]() -> int64_t {
    if (!used.empty() && r.chance(0.5)) return used[r.below(used.size())];
    int64_t m = focus_fam >= 0 ? mat_of((Fam)focus_fam, r.next()) : (int64_t)r.below(kMats);
    used.push_back((int)m);
    return m;
  };
  int nd = 1 + (int)r.below(3);
  for (int i = 0; i < nd; i++) {
    std::vector<int64_t> a = {(int64_t)r.weighted({6, 1, 1, 2}), (int64_t)r.below(15 + r.chance(0.05))};
    if (a[0] == 0 && false) a[0] = 0;
    int nk = 1 + (int)r.geo(0.5, 4);
    for (int k = 0; k < nk; k++) {
      a.push_back(a_mat());
      a.push_back(r.chance(0.3) ? -1 : (int64_t)r.below(4));
      a.push_back(-1);
    }
    add("doc", a);
  }
  int nt = 1 + (int)r.below(3);
  for (int i = 0; i < nt; i++) {
    int64_t flags = 0;
    if (r.chance(0.2)) flags |= 1;
    if (r.chance(0.1)) flags |= 2;
    if (r.chance(0.06)) flags |= 4;
    if (r.chance(0.4)) flags |= 8;
    if (r.chance(0.5)) flags |= 16;
    if (r.chance(0.05)) flags |= 32;
    if (r.chance(0.05)) flags |= 64;
    if (r.chance(0.08)) flags |= 128;
    add("tok", {a_mat(), r.chance(0.4) ? -1 : (int64_t)r.below(4), -1, flags, (int64_t)r.below(1 << 20)});
  }
  int na = 1 + (int)r.below(3);
  for (int i = 0; i < na; i++) {
    std::vector<int64_t> a;
    int k = (int)r.below(4);
    for (int j = 0; j < k; j++) a.push_back((int64_t)r.below(20));
    add("aud", a);
  }
  std::vector<int> count(n, 0);
  for (int t = 0; t < n; t++) {
    int k = 1 + (int)r.geo(focus_kind >= 0 ? 0.6 : 0.4, 5);
    for (int i = 0; i < k; i++) {
      int kind;
      if (style == 1) kind = t == 0 ? kPublish : r.chance(0.8) ? kCurrent : r.chance(0.5) ? kPublish : (int)r.below(kKinds);
      else kind = focus_kind >= 0 && r.chance(0.85) ? focus_kind : (int)r.below(kKinds);
      add("op", {t, kind, (int64_t)r.below(4), (int64_t)r.below(4), (int64_t)r.below(4)});
      count[t]++;
    }
  }
  int np = (int)r.weighted({1, 3, 3, 2, 2, 1}) * (r.chance(0.3) ? 4 : 1);
  for (int i = 0; i < np; i++) {
    int t = (int)r.below(n);
    add("pre", {t, (int64_t)r.below(count[t]), log_uniform(r, 11), (int64_t)r.below(n)});
  }
  if (r.chance(0.35)) {
    static const int64_t qs[] = {1, 2, 5, 20, 100, 400};
    int k = 1 + (int)r.below(4);
    for (int i = 0; i < k; i++) {
      int t = (int)r.below(n);
      add("rnd", {t, (int64_t)r.below(count[t]), (int64_t)r.below(1 << 20), qs[r.below(6)]});
    }
  }
  if (r.chance(0.2)) {
    int t = (int)r.below(n);
    int k = 1 + (int)r.below(2);
    for (int i = 0; i < k; i++)
      add("fault", {t, (int64_t)r.below(count[t]), (int64_t)r.below(4), log_uniform(r, 7) - 1, r.chance(0.8) ? 1 : -1});
  }
  return p;
}

void threads_init() { keys_init(); }

}  // namespace

const World kThreads = {"threads", threads_gen, threads_exec, threads_init};
}  // namespace sim
