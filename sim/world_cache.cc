// World "cache": several clients share one SimpleLRUCache under the caller's
// lock (its documented contract), interleaved by the seeded schedule; clocks
// step and jump, clients stall while they hold values, allocations fail inside
// insertions and removals.  An executable model follows every operation; it
// knows nothing of lists and tables, only which entries there are, who uses
// them and when they were inserted and last released.
#include <stdarg.h>

#include <algorithm>
#include <cmath>
#include <memory>
#include <sstream>
#include <unordered_map>

#include "absl/strings/string_view.h"
#include "core.h"
#include "seams.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"

namespace sim {
namespace {

namespace lru = google::simple_lru_cache;

// ------------------------------------------------------------------ values
struct Val;
struct Tracker {
  std::vector<int> destroyed;       // since the last check, in order
  std::set<const Val*> alive;
  std::vector<std::string> abuse;   // the cache destroyed what is no longer there
  int64_t callback_allocs = 0;      // live allocations changed by our callbacks
} g_tr;

struct Val {
  int id;
  std::string buf;
  Val(int i, const std::string& b) : id(i), buf(b) { g_tr.alive.insert(this); }
  ~Val() {
    NoLib nl;
    g_tr.alive.erase(this);
    g_tr.destroyed.push_back(id);
    id = -1;
  }
};
void destroy(Val* v) {
  NoLib nl;
  int64_t before = allocs().live_new;
  if (!g_tr.alive.count(v)) {
    g_tr.abuse.push_back("a value that no longer exists");
  } else {
    delete v;
  }
  g_tr.callback_allocs += allocs().live_new - before;
}

// ------------------------------------------------------------------ caches
int g_hash_mode = 0;
struct SaltHash {
  size_t operator()(int64_t k) const {
    if (g_hash_mode == 1) return 7;
    if (g_hash_mode == 2) return (size_t)k % 3;
    return (size_t)k * 0x9E3779B97F4A7C15ull;
  }
};
struct SaltEq {
  bool operator()(int64_t a, int64_t b) const { return a == b; }
};
struct DebugRec {
  int id, pin;
  int64_t ts;
  bool deferred;
  bool operator<(const DebugRec& o) const {
    return std::tie(deferred, id, pin) < std::tie(o.deferred, o.id, o.pin);
  }
};
std::vector<DebugRec>* g_debug = nullptr;
int g_max_entries = 0;

template <class Base>
struct Watched : Base {
  using Base::Base;
  void removeElement(Val* v) override { destroy(v); }
  void debugIterator(const Val* v, int pin, int64_t ts, bool deferred, std::string*) const override {
    if (g_debug) g_debug->push_back({g_tr.alive.count(v) ? v->id : -1, pin, ts, deferred});
  }
  bool isOverfull() const override {
    return Base::isOverfull() || (g_max_entries > 0 && this->entries() > g_max_entries);
  }
};
struct DeleteVal {
  int salt = 0;
  void operator()(Val* v) { destroy(v); }
};
template <class K>
using NodeMap = std::unordered_map<K, lru::SimpleLRUCacheElem<K, Val>*>;
template <class K>
struct NodeBase : lru::SimpleLRUCacheBase<K, Val, NodeMap<K>, std::equal_to<K>> {
  explicit NodeBase(int64_t n) : lru::SimpleLRUCacheBase<K, Val, NodeMap<K>, std::equal_to<K>>(n) {}
  void removeElement(Val* v) override { destroy(v); }
};

using CacheA = Watched<lru::SimpleLRUCache<int64_t, Val, SaltHash, SaltEq>>;
using CacheB = lru::SimpleLRUCacheWithDeleter<std::string, Val, DeleteVal>;
using CacheC = Watched<NodeBase<int64_t>>;
using CacheD = lru::SimpleLRUCache<int64_t, Val>;
struct ViewHash {
  size_t operator()(absl::string_view k) const { return hash_str(std::string(k)); }
};
using CacheE = Watched<lru::SimpleLRUCache<absl::string_view, Val, ViewHash>>;
using CacheF = Watched<NodeBase<std::string>>;

std::string key_text(int64_t k) { return strf("key-%lld-%s", (long long)k, k & 1 ? "with a text that is not short" : "x"); }
int64_t key_number(int64_t k) { return k; }
int64_t key_number(absl::string_view k) { return strtoll(std::string(k).c_str() + 4, nullptr, 10); }
template <class K>
struct KeyMaker {  // numbers and strings
  std::string tmp;
  K make(int64_t k, const Val*) { return K(key_text(k)); }
};
template <>
int64_t KeyMaker<int64_t>::make(int64_t k, const Val*) { return k; }
template <>
absl::string_view KeyMaker<absl::string_view>::make(int64_t k, const Val* v) {
  // the key is the value's own text, or the caller's copy
  if (v) return v->buf;
  tmp = key_text(k);
  return tmp;
}

struct Held {  // a ScopedLookup of any cache
  virtual ~Held() {}
  virtual Val* value() = 0;
  virtual bool found() = 0;
};
struct IterRec {
  int64_t k;
  const Val* v;
  int64_t use, ins;
};
struct Cache {
  virtual ~Cache() {}
  virtual void insert(int64_t k, Val* v, size_t units, bool pinned) = 0;
  virtual Val* lookup(int64_t k, bool upd, bool plain) = 0;
  virtual std::unique_ptr<Held> scoped(int64_t k, bool upd, bool plain) = 0;
  virtual void release(int64_t k, Val* v, bool upd, bool plain, bool alias) = 0;
  virtual void remove(int64_t k) = 0;
  virtual void update(int64_t k, const Val* v, size_t units) = 0;
  virtual bool in_use(int64_t k, const Val* v, bool plain) = 0;
  virtual void call(int what, int64_t n, double d) = 0;  // operations without a key
  virtual int64_t get(int what) = 0;
  virtual int64_t time_of(int64_t k, bool insertion) = 0;
  virtual std::string summary() = 0;
  virtual void debug(std::string* out) = 0;
  virtual std::vector<IterRec> iterate() = 0;
  virtual bool watched() = 0;
};
enum { kRemoveAll, kRemoveUnpinned, kClear, kExpire, kSetMax, kSetIdle, kSetAge };
enum { kSize, kEntries, kPinned, kDefSize, kDefEntries, kMax, kAgeOfLru };

template <class C, class K, bool W>
struct CacheT : Cache {
  C* c;
  explicit CacheT(int64_t max) { c = new C(max); }
  ~CacheT() override { delete c; }
  static lru::SimpleLRUCacheOptions opt(bool upd) {
    lru::SimpleLRUCacheOptions o;
    o.set_update_eviction_order(upd);
    return o;
  }
  KeyMaker<K> m;
  void insert(int64_t k, Val* v, size_t units, bool pinned) override {
    K key = [&] { NoLib nl; return m.make(k, v); }();
    if (pinned) c->insertPinned(key, v, units);
    else c->insert(key, v, units);
  }
  Val* lookup(int64_t k, bool upd, bool plain) override {
    K key = m.make(k, nullptr);
    return upd && plain ? c->lookup(key) : c->lookupWithOptions(key, opt(upd));
  }
  struct Sc : Held {
    KeyMaker<K> m;
    std::unique_ptr<typename C::ScopedLookup> s;
    Val* value() override { return s->value(); }
    bool found() override { return s->found(); }
  };
  std::unique_ptr<Held> scoped(int64_t k, bool upd, bool plain) override {
    auto h = std::unique_ptr<Sc>(new Sc);
    K key = h->m.make(k, nullptr);
    h->s.reset(upd && plain ? new typename C::ScopedLookup(c, key)
                            : new typename C::ScopedLookup(c, key, opt(upd)));
    return std::unique_ptr<Held>(h.release());
  }
  void release(int64_t k, Val* v, bool upd, bool plain, bool alias) override {
    K key = m.make(k, alias ? v : nullptr);
    if (upd && plain) c->release(key, v);
    else c->releaseWithOptions(key, v, opt(upd));
  }
  void remove(int64_t k) override {
    K key = [&] { NoLib nl; return m.make(k, nullptr); }();
    c->remove(key);
  }
  void update(int64_t k, const Val* v, size_t u) override { c->updateSize(m.make(k, nullptr), v, u); }
  bool in_use(int64_t k, const Val* v, bool plain) override {
    return plain && !v ? c->stillInUse(m.make(k, nullptr)) : c->stillInUse(m.make(k, nullptr), v);
  }
  void call(int what, int64_t n, double d) override {
    switch (what) {
      case kRemoveAll: c->removeAll(); break;
      case kRemoveUnpinned: c->removeUnpinned(); break;
      case kClear: c->clear(); break;
      case kExpire: c->removeExpiredEntries(); break;
      case kSetMax: c->setMaxSize(n); break;
      case kSetIdle: c->setMaxIdleSeconds(d); break;
      case kSetAge: c->setAgeBasedEviction(d); break;
    }
  }
  int64_t get(int what) override {
    switch (what) {
      case kSize: return c->size();
      case kEntries: return c->entries();
      case kPinned: return c->pinnedSize();
      case kDefSize: return c->deferredSize();
      case kDefEntries: return c->deferredEntries();
      case kMax: return c->maxSize();
      case kAgeOfLru: return c->ageOfLRUItemInMicroseconds();
    }
    return 0;
  }
  int64_t time_of(int64_t k, bool insertion) override {
    K key = m.make(k, nullptr);
    return insertion ? c->getInsertionTime(key) : c->getLastUseTime(key);
  }
  std::string summary() override { return c->summary(); }
  void debug(std::string* out) override { c->debugOutput(out); }
  std::vector<IterRec> iterate() override {
    std::vector<IterRec> r;
    int n = 0;
    for (auto it = c->begin(); it != c->end() && n < 10000; ++it, ++n)
      r.push_back({key_number((*it).first), it->second, it.last_use_time(), it.insertion_time()});
    return r;
  }
  bool watched() override { return W; }
};

const char* kDriverName[] = {"map+subclass", "deleter+strings", "node-map", "default-delete", "view-keys", "node-map+strings"};
Cache* make_cache(int d, int64_t max) {
  switch (d) {
    case 0: return new CacheT<CacheA, int64_t, true>(max);
    case 1: return new CacheT<CacheB, std::string, false>(max);
    case 2: return new CacheT<CacheC, int64_t, true>(max);
    case 3: return new CacheT<CacheD, int64_t, false>(max);
    case 4: return new CacheT<CacheE, absl::string_view, true>(max);
    default: return new CacheT<CacheF, std::string, true>(max);
  }
}
bool can_fail(int d) { return d == 2 || d == 5; }

// ------------------------------------------------------------------ model
using i128 = __int128;
struct Ent {
  int id = 0;
  int64_t k = 0;
  i128 units = 0;
  int pins = 0;
  int64_t ins = 0, use = 0, hi = 0;  // microseconds: inserted, last use, last touched at all
  uint64_t iseq = 0, useq = 0;
  bool fuzzy = false;  // was there when the eviction mode changed
};
struct Handle {
  int64_t k;
  int id;
  Val* v;
  bool upd, plain;
  std::unique_ptr<Held> scoped;
  bool is_scoped = false;
};

struct World2 {
  Run& run;
  int driver = 0, clients = 1;
  bool ties = false;
  int64_t nkeys = 4, max = 0;
  Cache* c = nullptr;
  std::map<int64_t, Ent> table;
  std::vector<Ent> deferred;
  std::vector<std::vector<Handle>> held;
  bool lru = true, limited = false;  // limited: a maximum idle time or age is set
  int64_t T = 0;                     // microseconds
  uint64_t seq = 0;
  int next_id = 1;
  int64_t fault_nth = -1, fault_count = 0;
  bool faulted = false, bad = false;
  bool quick = false;  // in the middle of a bulk operation: look at everything only at its end
  int64_t lib_live = 0;
  std::string what;  // the operation, for messages
  bool in_table_before = false;

  explicit World2(Run& r) : run(r) {}

  int64_t now() const { return g_clock.mono_ns / 1000; }

  __attribute__((format(printf, 4, 5)))
  void fail(std::string props, const char* cls, const char* fmt, ...) {
    if (faulted && props.find("C07") == std::string::npos) props += " C07";
    char m[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    run.violate(props, cls, "%s: %s", what.c_str(), m);
    bad = true;
  }

  // Runs one call of the code under test; true if it ran out of memory.
  bool lib(const std::function<void()>& f, bool may_fail) {
    bool threw = false;
    if (may_fail && fault_nth >= 0 && can_fail(driver)) arm(kNew, fault_nth, fault_count);
    else
      g_fault.fired = 0;
    int64_t before = allocs().live_new;
    g_tr.callback_allocs = 0;
    try {
      LibScope s;
      f();
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    int64_t fired = disarm();
    lib_live += allocs().live_new - before - g_tr.callback_allocs;
    if (may_fail) fault_nth = -1;
    if (fired) {
      faulted = true;
      run.stat("fault.alloc", fired);
      run.logf("  fault fired %lld%s", (long long)fired, threw ? " -> bad_alloc" : "");
    }
    if (threw && !fired) fail("C01 C02 C03 C04 C05 C06 C07", "spurious-bad-alloc", "bad_alloc without a failed allocation");
    return threw;
  }

  std::string dump() const {
    std::string s;
    for (auto& kv : table)
      s += strf(" k%lld=v%d(units %lld, %d users, used %lld us ago)", (long long)kv.first, kv.second.id,
                (long long)kv.second.units, kv.second.pins, (long long)(now() - kv.second.use));
    for (auto& e : deferred) s += strf(" removed v%d(%d users)", e.id, e.pins);
    return s.empty() ? " nothing" : s;
  }

  bool expired_may(const Ent& e) const {
    if (!limited) return false;
    int64_t t = now();
    if (lru) return e.pins == 0 && t - (e.fuzzy ? e.ins : e.use) > T;
    return t - e.ins > T;
  }
  bool expired_must(const Ent& e) const {
    if (!limited) return false;
    int64_t t = now();
    if (lru) return e.pins == 0 && t - (e.fuzzy ? e.hi : e.use) > T;
    if (e.fuzzy) return e.pins == 0 && t - e.hi > T;
    return t - e.ins > T;
  }
  i128 total() const {
    i128 t = 0;
    for (auto& kv : table) t += kv.second.units;
    for (auto& e : deferred) t += e.units;
    return t;
  }
  bool counts_entries() const { return g_max_entries > 0 && c->watched(); }
  bool overfull(i128 units, int64_t entries) const {
    return units > max || (counts_entries() && entries > g_max_entries);
  }

  std::multiset<int> expect_destroyed;
  void drop(const Ent& e) {  // an entry left the table
    if (e.pins > 0) {
      deferred.push_back(e);
    } else {
      expect_destroyed.insert(e.id);
    }
  }

  // Compares the table with the model, decides which disappearances are
  // justified, and takes them over.
  //  optional: keys whose removal was asked for but may not have happened
  void reconcile(bool expiry_due, const std::set<int64_t>& optional) {
    std::map<int64_t, int> actual;
    for (auto& r : c->iterate()) {
      int id = g_tr.alive.count(r.v) ? r.v->id : -1;
      if (actual.count(r.k)) fail("C06", "iteration", "key k%lld appears twice", (long long)r.k);
      actual[r.k] = id;
    }
    std::vector<int64_t> gone;
    for (auto& kv : table) {
      auto it = actual.find(kv.first);
      if (it == actual.end()) {
        gone.push_back(kv.first);
      } else if (it->second != kv.second.id) {
        if (it->second == -1)
          fail("C02", "table-destroyed", "k%lld refers to a destroyed value", (long long)kv.first);
        else
          fail("C01", "table-stale", "k%lld has v%d, not v%d", (long long)kv.first, it->second, kv.second.id);
      }
    }
    for (auto& a : actual)
      if (!table.count(a.first))
        fail(expect_destroyed.count(a.second) ? "C01 C02" : "C01", "table-ghost", "k%lld=v%d is there but was removed", (long long)a.first, a.second);
    if (bad) return;
    std::set<int64_t> evicted;
    // Gone as expired, or evicted: where the order of eviction is not known
    // (the mode has changed) the latter may have made room after others.
    i128 perhaps_evicted = 0;
    int64_t perhaps = 0;
    bool fuzzy = false;
    for (int64_t k : gone) {
      Ent e = table[k];
      if (optional.count(k) || expired_may(e)) {
        table.erase(k);
        if (!optional.count(k)) {
          run.stat("cache.expired");
          perhaps_evicted += e.units;
          perhaps++;
          fuzzy |= e.fuzzy;
        }
        drop(e);
      } else {
        evicted.insert(k);
      }
    }
    if (expiry_due)
      for (auto& kv : table)
        if (!evicted.count(kv.first) && expired_must(kv.second)) {
          fail(lru ? "C04" : "C05", "not-expired", "k%lld is still there %lld us after its %s, limit %lld us; in model:%s",
               (long long)kv.first, (long long)(now() - (lru ? kv.second.use : kv.second.ins)),
               lru ? "last use" : "insertion", (long long)T, dump().c_str());
        }
    if (bad) return;
    // what had to be evicted
    std::vector<const Ent*> order;
    for (auto& kv : table) {
      if (kv.second.pins == 0) {
        order.push_back(&kv.second);
        fuzzy |= kv.second.fuzzy;
      }
    }
    bool by_use = lru;
    std::sort(order.begin(), order.end(), [&](const Ent* a, const Ent* b) {
      return by_use ? a->useq < b->useq : a->iseq < b->iseq;
    });
    i128 units = total();
    int64_t entries = table.size();
    std::string early = lru ? "C04" : "C05";
    auto unjust = [&](const Ent& e) {
      bool maybe_expiry = limited && expiry_due;
      fail(maybe_expiry ? "C01 " + early : std::string("C01 C03"), maybe_expiry ? "expired-early" : "evicted-unjustly",
           "k%lld=v%d (%d users) has gone, size %lld of %lld, %lld us after use, %lld us after insertion, limit %lld us%s; in model:%s",
           (long long)e.k, e.id, e.pins, (long long)total(), (long long)max, (long long)(now() - e.use),
           (long long)(now() - e.ins), (long long)T, limited ? "" : " (off)", dump().c_str());
    };
    for (int64_t k : evicted)
      if (table[k].pins > 0) unjust(table[k]);
    if (bad) return;
    if (!fuzzy) {
      for (const Ent* e : order) {
        bool need = overfull(units, entries);
        bool went = evicted.count(e->k);
        if (need && !went) {
          // something younger went in its place, or nothing did
          fail("C03", evicted.empty() ? "over-limit" : "eviction-order",
               "k%lld=v%d should have been evicted, size %lld of %lld, %zu others were; in model:%s", (long long)e->k,
               e->id, (long long)total(), (long long)max, evicted.size(), dump().c_str());
          return;
        }
        if (!need && went) {
          unjust(*e);
          return;
        }
        if (went) {
          units -= e->units;
          entries--;
        }
      }
    } else {
      i128 left = units;
      int64_t n = entries;
      i128 most = 0;
      for (int64_t k : evicted) {
        left -= table[k].units;
        n--;
        if (table[k].units > most) most = table[k].units;
      }
      if (!evicted.empty() && !overfull(left + most + perhaps_evicted, n + 1 + perhaps)) {
        unjust(table[*evicted.begin()]);
        return;
      }
      if (overfull(left, n) && order.size() > evicted.size()) {
        fail("C03", "over-limit", "size %lld of %lld with unused entries; in model:%s", (long long)left,
             (long long)max, dump().c_str());
        return;
      }
    }
    for (int64_t k : evicted) {
      Ent e = table[k];
      table.erase(k);
      run.stat("cache.evicted");
      drop(e);
    }
  }

  void check_destroyed(const std::set<int>& callers) {
    for (auto& a : g_tr.abuse) fail("C02", "destroyed-twice", "the cache destroyed %s", a.c_str());
    g_tr.abuse.clear();
    std::multiset<int> want = expect_destroyed;
    expect_destroyed.clear();
    for (int id : g_tr.destroyed) {
      auto it = want.find(id);
      if (it != want.end()) {
        want.erase(it);
        run.stat("cache.destroyed");
        continue;
      }
      if (callers.count(id)) {
        fail("C07", "destroyed-callers", "v%d was destroyed although its insertion failed", id);
        continue;
      }
      int users = 0;
      for (auto& e : deferred)
        if (e.id == id) users = e.pins;
      for (auto& kv : table)
        if (kv.second.id == id) users = kv.second.pins;
      fail("C02", "destroyed-early", "v%d was destroyed, it has %d users; in model:%s", id, users, dump().c_str());
    }
    g_tr.destroyed.clear();
    for (int id : want) fail("C02", "not-destroyed", "v%d left the cache unused but was not destroyed", id);
  }

  void check_accounts() {
    i128 tot = total(), pinned = 0, defs = 0;
    for (auto& kv : table)
      if (kv.second.pins > 0) pinned += kv.second.units;
    for (auto& e : deferred) defs += e.units;
    auto eq = [&](const char* name, int64_t got, i128 want) {
      if (got != (int64_t)want)
        fail("C06", name, "%s is %lld, not %lld; in model:%s", name, (long long)got, (long long)want, dump().c_str());
    };
    eq("size", c->get(kSize), tot);
    eq("entries", c->get(kEntries), table.size());
    eq("pinnedSize", c->get(kPinned), pinned);
    eq("deferredSize", c->get(kDefSize), defs);
    eq("deferredEntries", c->get(kDefEntries), deferred.size());
    eq("maxSize", c->get(kMax), max);
    std::string s = c->summary();
    auto nums = numbers(s);
    if (nums.size() != 3 || nums[0] != (int64_t)pinned || nums[1] != (int64_t)defs || nums[2] != (int64_t)tot)
      fail("C06", "summary", "summary '%s' instead of %lld/%lld/%lld", s.c_str(), (long long)pinned, (long long)defs,
           (long long)tot);
    // debug output
    std::vector<DebugRec> recs;
    g_debug = &recs;
    std::string out;
    c->debug(&out);
    g_debug = nullptr;
    size_t close = out.find(')');
    nums = numbers(out.substr(0, close == std::string::npos ? out.size() : close));
    if (nums.size() != 4 || nums[0] != (int64_t)table.size() || nums[1] != (int64_t)deferred.size() ||
        nums[2] != (int64_t)tot || nums[3] != max)
      fail("C06", "debugOutput", "debug output begins '%s'", out.substr(0, 200).c_str());
    std::multiset<std::tuple<bool, int, int>> want, got;
    bool ids = c->watched();
    for (auto& kv : table) want.insert({false, ids ? kv.second.id : 0, kv.second.pins});
    for (auto& e : deferred) want.insert({true, ids ? e.id : 0, e.pins});
    if (ids) {
      for (auto& r : recs) got.insert({r.deferred, r.id, r.pin});
    } else {
      size_t p = 0;
      while ((p = out.find("pin: ", p)) != std::string::npos) {
        int pin = atoi(out.c_str() + p + 5);
        size_t d = out.find("is_deferred: ", p);
        got.insert({d != std::string::npos && out[d + 13] == '1', 0, pin});
        p += 5;
      }
    }
    if (want != got)
      fail("C06", "debugOutput", "debug output shows %zu entries, not the %zu there are or not with their users; in model:%s",
           got.size(), want.size(), dump().c_str());
  }
  static std::vector<int64_t> numbers(const std::string& s) {
    std::vector<int64_t> r;
    for (size_t i = 0; i < s.size();) {
      if (isdigit((unsigned char)s[i]) || (s[i] == '-' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) {
        char* e;
        r.push_back(strtoll(s.c_str() + i, &e, 10));
        i = e - s.c_str();
      } else {
        i++;
      }
    }
    return r;
  }

  void check_use() {
    auto eq = [&](int64_t k, const Val* v, const char* vn, bool want) {
      if (c->in_use(k, v, seq & 1) != want)
        fail("C01", "stillInUse", "stillInUse(k%lld, %s) is %s; in model:%s", (long long)k, vn,
             want ? "false" : "true", dump().c_str());
    };
    std::map<int64_t, bool> keys;
    for (int64_t k = 0; k < nkeys; k++) keys[k] = table.count(k);
    for (auto& e : deferred) keys[e.k] = true;
    for (auto& kv : keys) eq(kv.first, nullptr, "any value", kv.second);
    std::map<int, int64_t> where;
    for (auto& kv : table) where[kv.second.id] = kv.first;
    for (auto& e : deferred) where[e.id] = e.k;
    for (const Val* v : g_tr.alive) {
      auto it = where.find(v->id);
      if (it == where.end()) continue;
      eq(it->second, v, strf("v%d", v->id).c_str(), true);
      int64_t other = (it->second + 1) % (nkeys ? nkeys : 1);
      if (other != it->second) eq(other, v, strf("v%d", v->id).c_str(), false);
    }
  }

  void check_times() {
    int64_t t = lru::SimpleCycleTimer::now(), f = lru::SimpleCycleTimer::frequency();
    auto elapsed = [&](int64_t ts) { return (int64_t)((i128)(t - ts) * 1000000 / f); };
    std::string prop = lru ? "C04" : "C05";
    const char* fn = lru ? "getLastUseTime" : "getInsertionTime";
    std::map<int64_t, int64_t> seen;
    for (auto& r : c->iterate()) seen[r.k] = lru ? r.use : r.ins;
    for (int64_t k = 0; k < nkeys; k++) {
      int64_t got = c->time_of(k, !lru);
      auto it = table.find(k);
      if (it == table.end()) {
        if (got != -1) fail(prop, "time-of-absent", "%s(k%lld) is %lld, not -1", fn, (long long)k, (long long)got);
        continue;
      }
      const Ent& e = it->second;
      if (seen.count(k) && seen[k] != got)
        fail(prop + " C06", "iterator-time", "iterator says %lld, %s(k%lld) says %lld", (long long)seen[k], fn,
             (long long)k, (long long)got);
      int64_t el = elapsed(got);
      int64_t lo = now() - (e.fuzzy ? e.hi : (lru ? e.use : e.ins));
      int64_t hi = now() - (e.fuzzy ? e.ins : (lru ? e.use : e.ins));
      if (el < lo || el > hi)
        fail(prop, "reported-time", "%s says k%lld was %s %lld us ago, it was %lld us ago", fn, (long long)k,
             lru ? "used" : "inserted", (long long)el, (long long)hi);
    }
    // age of the least recently used item
    int64_t age = c->get(kAgeOfLru);
    std::set<int64_t> ok;
    bool unpinned = false, fuzzy = false;
    const Ent *a = nullptr, *b = nullptr;
    std::vector<int64_t> ages;
    for (auto& kv : table) {
      const Ent& e = kv.second;
      fuzzy |= e.fuzzy;
      auto key = [&](const Ent& x) { return lru ? x.useq : x.iseq; };
      if (!a || key(e) < key(*a)) a = &e;
      if (e.pins == 0 && (!b || key(e) < key(*b))) b = &e;
      unpinned |= e.pins == 0;
      ages.push_back(now() - (lru ? e.use : e.ins));
    }
    if (fuzzy) return;
    if (table.empty() || !unpinned) ok.insert(0);
    if (a) ok.insert(now() - (lru ? a->use : a->ins));
    if (b) ok.insert(now() - (lru ? b->use : b->ins));
    // an entry in use by lookups that do not count may still rank with the unused
    if (lru && a != b)
      for (int64_t x : ages)
        if (b && x >= now() - b->use) ok.insert(x);
    if (lru && !b)
      for (int64_t x : ages) ok.insert(x);
    if (!ok.count(age))
      fail(prop, "age-of-lru", "the age of the least recently used entry is given as %lld us; in model:%s",
           (long long)age, dump().c_str());
  }

  void state() {
    // a canonical abstraction: entries in eviction order with their users,
    // removed ones, fullness, mode, nearness of expiry
    std::vector<const Ent*> o;
    for (auto& kv : table) o.push_back(&kv.second);
    bool by_use = lru;
    std::sort(o.begin(), o.end(),
              [&](const Ent* a, const Ent* b) { return by_use ? a->useq < b->useq : a->iseq < b->iseq; });
    std::string s = strf("%d%d%d%d|", lru, limited, driver, overfull(total(), table.size()));
    for (auto* e : o)
      s += strf("%d%c%c%c,", std::min(e->pins, 3), e->units == 0 ? '0' : (e->units > max ? '>' : '1'), e->fuzzy ? 'f' : '-',
                !limited ? '.' : (now() - (lru ? e->use : e->ins) > T ? 'x' : (now() - (lru ? e->use : e->ins) == T ? '=' : '<')));
    std::vector<std::string> d;
    for (auto& e : deferred) d.push_back(strf("%d%c", std::min(e.pins, 3), table.count(e.k) ? 't' : '-'));
    std::sort(d.begin(), d.end());
    s += '|';
    for (auto& x : d) s += x + ",";
    run.state(hash_str(s));
  }

  void after(const std::set<int>& callers = {}) {
    if (!bad) check_destroyed(callers);
    if (quick) return;
    if (!bad) {
      check_accounts();
      check_use();
      check_times();
    }
    if (!bad) {
      std::string s;
      for (auto& kv : table) s += strf(" %lld:%d/%d", (long long)kv.first, kv.second.id, kv.second.pins);
      s += " |";
      for (auto& e : deferred) s += strf(" %lld:%d/%d", (long long)e.k, e.id, e.pins);
      run.logf("%s ->%s size %lld", what.c_str(), s.c_str(), (long long)c->get(kSize));
      state();
    }
  }

  // --- operations ---------------------------------------------------------
  void op_insert(int64_t k, size_t units, bool pinned, int cl) {
    Val* v;
    v = new Val(next_id++, key_text(k));
    int id = v->id;
    what = strf("%s(k%lld, v%d, %zu)", pinned ? "insertPinned" : "insert", (long long)k, id, units);
    bool threw = lib([&] { c->insert(k, v, units, pinned); }, true);
    if (bad) return;
    std::set<int> callers;
    if (threw) {
      // the value still belongs to the caller
      callers.insert(id);
      for (auto& r : c->iterate())
        if (r.v == v) fail("C07", "failed-insert-present", "the insertion failed but the value is in the cache");
      if (!bad && c->in_use(k, v, true)) fail("C07", "failed-insert-in-use", "the insertion failed but the value is in use");
      if (bad) return;
      reconcile(false, {k});
      if (!bad) after(callers);
      if (bad) return;
      delete v;
      g_tr.destroyed.clear();
      run.stat("cache.insert_failed");
      return;
    }
    auto it = table.find(k);
    if (it != table.end()) {
      Ent old = it->second;
      table.erase(it);
      drop(old);
      run.stat("cache.replaced");
    }
    Ent e;
    e.id = id;
    e.k = k;
    e.units = units;
    e.pins = pinned ? 1 : 0;
    e.ins = e.use = e.hi = now();
    e.iseq = e.useq = ++seq;
    table[k] = e;
    if (pinned) {
      Handle h = {k, id, v, true, (id & 1) != 0, nullptr, false};
      held[cl].push_back(std::move(h));
    }
    reconcile(false, {});
    if (!bad) after();
  }

  void op_lookup(int64_t k, bool upd, bool plain, bool sc, int cl) {
    what = strf("%s(k%lld%s)", sc ? "ScopedLookup" : "lookup", (long long)k, upd ? "" : ", no update");
    Val* v = nullptr;
    std::unique_ptr<Held> h;
    bool found = false;
    lib([&] {
      if (sc) {
        h = c->scoped(k, upd, plain);
        v = h->value();
        found = h->found();
        if (!found) h.reset();
      } else {
        v = c->lookup(k, upd, plain);
      }
    }, false);
    if (bad) return;
    if (sc && found != (v != nullptr)) fail("C01", "scoped-found", "found() is %d, value() is %s", found, v ? "not null" : "null");
    if (v && !g_tr.alive.count(v)) {
      fail("C01 C02", "lookup-destroyed", "returned a destroyed value");
      return;
    }
    int id = v ? v->id : 0;
    reconcile(true, {});
    auto it = table.find(k);
    if (!bad) {
      if (it == table.end() && v)
        fail("C01", "lookup-stale", "returned v%d, the key has no value; in model:%s", id, dump().c_str());
      if (it != table.end() && !v)
        fail("C01", "lookup-missing", "returned nothing, the key has v%d; in model:%s", it->second.id, dump().c_str());
      if (it != table.end() && v && id != it->second.id)
        fail("C01", "lookup-wrong", "returned v%d, the key has v%d; in model:%s", id, it->second.id, dump().c_str());
    }
    if (bad) {
      h.release();
      return;
    }
    if (v) {
      it->second.pins++;
      Handle hd = {k, id, v, upd, plain, std::move(h), sc};
      held[cl].push_back(std::move(hd));
      run.stat("cache.hit");
    } else {
      run.stat("cache.miss");
    }
    after();
  }

  void op_release(int cl, int64_t i, bool alias) {
    auto& hs = held[cl];
    if (hs.empty()) return;
    size_t n = (uint64_t)i % hs.size();
    Handle h = std::move(hs[n]);
    hs.erase(hs.begin() + n);
    what = strf("release(k%lld, v%d%s)", (long long)h.k, h.id, h.upd ? "" : ", no update");
    if (!g_tr.alive.count(h.v)) {
      fail("C02", "in-use-destroyed", "the value was destroyed while in use");
      h.scoped.release();
      return;
    }
    lib([&] {
      if (h.is_scoped) h.scoped.reset();
      else c->release(h.k, h.v, h.upd, h.plain, alias);
    }, false);
    if (bad) return;
    bool found = false;
    for (size_t d = 0; d < deferred.size(); d++) {
      if (deferred[d].id != h.id) continue;
      found = true;
      if (--deferred[d].pins == 0) {
        expect_destroyed.insert(h.id);
        deferred.erase(deferred.begin() + d);
        run.stat("cache.deferred_released");
      }
      break;
    }
    if (!found) {
      Ent& e = table[h.k];
      e.pins--;
      e.hi = now();
      if (lru && h.upd) {
        e.use = now();
        e.useq = ++seq;
        e.fuzzy = false;
      }
    }
    reconcile(false, {});
    if (!bad) after();
  }

  void op_remove(int64_t k) {
    what = strf("remove(k%lld)", (long long)k);
    bool threw = lib([&] { c->remove(k); }, true);
    if (bad) return;
    remove_model({k}, threw, true);
  }
  void remove_model(const std::set<int64_t>& keys, bool threw, bool) {
    if (threw) {
      reconcile(false, keys);
    } else {
      for (int64_t k : keys) {
        auto it = table.find(k);
        if (it == table.end()) continue;
        Ent e = it->second;
        table.erase(it);
        drop(e);
      }
      reconcile(false, {});
    }
    if (!bad) after();
  }
  void op_remove_all(bool only_unused) {
    what = only_unused ? "removeUnpinned()" : "removeAll()";
    bool threw = lib([&] { c->call(only_unused ? kRemoveUnpinned : kRemoveAll, 0, 0); }, true);
    if (bad) return;
    std::set<int64_t> keys;
    for (auto& kv : table)
      if (!only_unused || kv.second.pins == 0) keys.insert(kv.first);
    remove_model(keys, threw, false);
  }
  bool any_held() const {
    for (auto& h : held)
      if (!h.empty()) return true;
    return false;
  }
  void op_clear() {
    if (any_held()) return;
    what = "clear()";
    lib([&] { c->call(kClear, 0, 0); }, false);
    if (bad) return;
    for (auto& kv : table) expect_destroyed.insert(kv.second.id);
    table.clear();
    reconcile(false, {});
    if (!bad) after();
  }
  void op_expire() {
    what = "removeExpiredEntries()";
    bool threw = lib([&] { c->call(kExpire, 0, 0); }, true);
    if (bad) return;
    reconcile(!threw, {});
    if (!bad) after();
  }
  void op_size(int64_t n) {
    what = strf("setMaxSize(%lld)", (long long)n);
    lib([&] { c->call(kSetMax, n, 0); }, false);
    if (bad) return;
    max = n;
    reconcile(false, {});
    if (!bad) after();
  }
  void op_timeout(bool to_lru, int64_t code) {
    double sec = 0;
    bool lim = true;
    int64_t t = 0;
    if (code >= 0) {
      code %= (int64_t)1 << 36;
      sec = code / 64.0;
      t = code * 15625;
    } else if (code == -1) {
      sec = -1;
      lim = false;
    } else if (code == -2) {
      sec = std::numeric_limits<double>::infinity();
      lim = false;
    } else if (code == -3) {
      sec = -std::numeric_limits<double>::infinity();
      lim = false;
    } else {
      sec = code == -4 ? 1e300 : code == -5 ? 9223372036854.0 : 9223372036855.0;
      t = INT64_MAX;
    }
    if (lim && limited && lru != to_lru) {  // not allowed directly: go through "no limit"
      op_timeout(lru, -1);
      if (bad) return;
    }
    what = strf("%s(%g)", to_lru ? "setMaxIdleSeconds" : "setAgeBasedEviction", sec);
    lib([&] { c->call(to_lru ? kSetIdle : kSetAge, 0, sec); }, false);
    if (bad) return;
    if (to_lru != lru) {
      for (auto& kv : table) kv.second.fuzzy = true;
      run.stat("cache.mode_changed");
    }
    lru = to_lru;
    limited = lim;
    T = t;
    reconcile(lim, {});
    if (!bad) after();
  }
  void op_update(int64_t which, int64_t i, size_t units) {
    // 0: of a key, any value  1: of the value in the table  2: of a removed
    // value still in use  3: of a value that is not in the cache under the key
    int64_t k = (uint64_t)i % nkeys;
    const Val* v = nullptr;
    std::set<int> ids;
    if (which == 1 || which == 0) {
      auto it = table.find(k);
      if (it != table.end()) {
        ids.insert(it->second.id);
        if (which == 1)
          for (const Val* x : g_tr.alive)
            if (x->id == it->second.id) v = x;
      } else if (which == 0) {
        for (auto& e : deferred)
          if (e.k == k) ids.insert(e.id);
      } else {
        return;
      }
    } else if (which == 2) {
      if (deferred.empty()) return;
      const Ent& e = deferred[(uint64_t)i % deferred.size()];
      k = e.k;
      ids.insert(e.id);
      for (const Val* x : g_tr.alive)
        if (x->id == e.id) v = x;
    } else {
      v = (const Val*)this;
    }
    what = strf("updateSize(k%lld, %s, %zu)", (long long)k,
                v == (const Val*)this ? "unknown" : v ? strf("v%d", v->id).c_str() : "any", units);
    lib([&] { c->update(k, v, units); }, false);
    if (bad) return;
    for (auto& kv : table)
      if (ids.count(kv.second.id)) kv.second.units = units;
    for (auto& e : deferred)
      if (ids.count(e.id)) e.units = units;
    reconcile(false, {});
    if (!bad) after();
  }
  void op_use(int cl, int64_t i) {
    auto& hs = held[cl];
    if (hs.empty()) return;
    Handle& h = hs[(uint64_t)i % hs.size()];
    what = strf("use(v%d)", h.id);
    if (!g_tr.alive.count(h.v))
      fail("C02", "in-use-destroyed", "the value was destroyed while in use");
    else if (h.v->id != h.id || h.v->buf != key_text(h.k))
      fail("C02", "in-use-changed", "the value changed while in use");
  }
  void advance(i128 us) {
    if (us < 0) us = 0;
    const i128 limit = (i128)200 * 366 * 86400 * 1000000;
    if (g_clock.mono_ns / 1000 + us > limit) us = limit - g_clock.mono_ns / 1000;
    if (us < 0) us = 0;
    g_clock.mono_ns += (int64_t)us * 1000;
    g_clock.real_ns += (int64_t)us * 1000;
    run.sh->sim_ns = run.sh->sim_ns + (uint64_t)us * 1000;
  }
};

void exec_cache(const Plan& p, Run& run) {
  g_addr_reuse = mix(p.seed, 77) % 5 < 2;
  auto* wp = new World2(run);
  World2& w = *wp;
  g_tr = Tracker();
  g_max_entries = 0;
  g_clock = SimClock();
  g_clock.active = true;
  size_t i = 0;
  int64_t mono0 = 1000000, real0 = 1700000000;
  if (!p.ops.empty() && p.ops[0].k == "cfg") {
    const Op& o = p.ops[0];
    w.driver = (uint64_t)o.at(0) % 6;
    g_hash_mode = (uint64_t)o.at(1) % 3;
    w.nkeys = 1 + (uint64_t)(o.at(2) - 1) % 1024;
    w.max = o.at(3);
    g_max_entries = (int)o.at(4);
    w.ties = o.at(5);
    w.clients = 1 + (uint64_t)(o.at(6) - 1) % 8;
    mono0 = (uint64_t)o.at(7) % 4000000000000000ull;
    real0 = o.at(8) % 4000000000ll;
    i = 1;
  }
  g_clock.mono_ns = mono0 * 1000;
  g_clock.real_ns = real0 * 1000000000 + 123000;
  w.held.resize(w.clients);
  run.stat(std::string("cache.") + kDriverName[w.driver]);
  w.lib([&] { w.c = make_cache(w.driver, w.max); }, false);
  auto key = [&](int64_t k) { return (int64_t)((uint64_t)k % (uint64_t)w.nkeys); };
  auto client = [&](int64_t c) { return (int)((uint64_t)c % (uint64_t)w.clients); };
  auto units = [&](int64_t u) { return (size_t)((uint64_t)u % ((uint64_t)1 << 41)); };
  for (; i < p.ops.size() && !w.bad; i++) {
    const Op& o = p.ops[i];
    run.sh->op = i;
    bool clock_op = false;
    if (o.k == "ins" || o.k == "insp") {
      w.op_insert(key(o.at(0)), units(o.at(1)), o.k == "insp", client(o.at(2)));
    } else if (o.k == "look" || o.k == "slook") {
      bool upd = w.ties || !(o.at(1) & 1);
      w.op_lookup(key(o.at(0)), upd, o.at(1) & 2, o.k == "slook", client(o.at(2)));
    } else if (o.k == "rel") {
      w.op_release(client(o.at(0)), o.at(1), o.at(2) & 1);
    } else if (o.k == "fill") {
      int64_t m = (uint64_t)o.at(1) % 1025;
      for (int64_t j = 0; j < m && !w.bad; j++) {
        w.quick = j + 1 < m;
        w.op_insert(key(o.at(0) + j), units(o.at(2)), false, 0);
        if (w.quick) w.advance((uint64_t)o.at(3) % 1000000000 + !w.ties);
      }
      w.quick = false;
      run.stat("cache.fill");
    } else if (o.k == "grab") {
      int64_t m = (uint64_t)o.at(1) % 70001;
      for (int64_t j = 0; j < m && !w.bad; j++) {
        w.quick = j + 1 < m || (o.at(3) & 1);  // what is wrong in the books may also show in what the next operation does
        w.op_lookup(key(o.at(0)), true, j & 1, false, client(o.at(2)));
        if (!w.ties) w.advance(1);
      }
      w.quick = false;
      run.stat("cache.grab");
    } else if (o.k == "pile") {  // many values in use at a time, of many keys or of one
      int64_t m = (uint64_t)o.at(1) % 5001;
      for (int64_t j = 0; j < m && !w.bad; j++) {
        w.quick = j + 1 < m;
        w.op_insert(key(o.at(0) + j * (o.at(2) & 3)), units(o.at(4)), true, client(o.at(3)));
        if (!w.ties) w.advance(1);
      }
      w.quick = false;
      run.stat("cache.pile");
    } else if (o.k == "drop") {
      int cl = client(o.at(0));
      int64_t m = std::min<int64_t>((uint64_t)o.at(1) % 70001, w.held[cl].size());
      for (int64_t j = 0; j < m && !w.bad; j++) {
        w.quick = j + 1 < m;
        int64_t left = (int64_t)w.held[cl].size(), at = left - 1;
        if (o.at(2) == 1) at = 0;
        if (o.at(2) >= 2) at = (int64_t)(mix(o.at(2), j) % left);
        w.op_release(cl, at, false);
        if (!w.ties) w.advance(1);
      }
      w.quick = false;
    } else if (o.k == "rem") {
      w.op_remove(key(o.at(0)));
    } else if (o.k == "remall") {
      w.op_remove_all(false);
    } else if (o.k == "remunp") {
      w.op_remove_all(true);
    } else if (o.k == "clear") {
      w.op_clear();
    } else if (o.k == "exp") {
      w.op_expire();
    } else if (o.k == "size") {
      w.op_size(o.at(0));
    } else if (o.k == "idle") {
      w.op_timeout(true, o.at(0));
    } else if (o.k == "age") {
      w.op_timeout(false, o.at(0));
    } else if (o.k == "upd") {
      w.op_update((uint64_t)o.at(0) % 4, o.at(1), units(o.at(2)));
    } else if (o.k == "use") {
      w.op_use(client(o.at(0)), o.at(1));
    } else if (o.k == "adv") {
      clock_op = true;
      w.advance(o.at(0));
      run.stat("clock.adv");
    } else if (o.k == "advto") {
      // to the moment an entry reaches its limit, plus or minus a little
      clock_op = true;
      if (!w.table.empty() && w.limited && w.T < INT64_MAX / 4) {
        auto it = w.table.begin();
        std::advance(it, (uint64_t)o.at(0) % w.table.size());
        const Ent& e = it->second;
        i128 at = (i128)(w.lru ? e.use : e.ins) + w.T + o.at(1);
        w.advance(at - w.now());
        run.stat("clock.adv_to_limit");
      }
    } else if (o.k == "jmp") {
      clock_op = true;
      __int128 r = (__int128)g_clock.real_ns + (__int128)o.at(0) * 1000;
      if (r > (__int128)9000000000000000000ll) r = 9000000000000000000ll;
      if (r < -(__int128)9000000000000000000ll) r = -9000000000000000000ll;
      g_clock.real_ns = (int64_t)r;
      run.stat("fault.wall_clock_jump");
    } else if (o.k == "fault") {
      w.fault_nth = (uint64_t)o.at(0) % 8;
      w.fault_count = o.at(1);
      clock_op = true;
    }
    if (!clock_op && !w.ties) w.advance(1);
  }
  // everybody goes home
  run.sh->op = p.ops.size();
  w.fault_nth = -1;
  for (int cl = 0; cl < w.clients && !w.bad; cl++)
    while (!w.held[cl].empty() && !w.bad) {
      size_t left = w.held[cl].size();
      w.quick = left > 100;
      w.op_release(cl, left > 100 ? (int64_t)left - 1 : 0, false);
    }
  w.quick = false;
  if (!w.bad) w.op_clear();
  if (!w.bad) {
    w.what = "after clear()";
    for (int g : {kSize, kEntries, kPinned, kDefSize, kDefEntries})
      if (w.c->get(g) != 0) w.fail("C06", "not-zero", "%lld", (long long)w.c->get(g));
    if (!g_tr.alive.empty())
      w.fail("C02", "never-destroyed", "%zu values were never destroyed, first v%d", g_tr.alive.size(),
             (*g_tr.alive.begin())->id);
  }
  if (!w.bad) {
    w.lib([&] { delete w.c; }, false);
    if (!g_tr.destroyed.empty() || !g_tr.abuse.empty())
      w.fail("C02", "destroyed-twice", "destroying the empty cache destroyed a value");
    if (w.faulted && w.lib_live != 0 && w.driver == 2)
      w.fail("C07", "leak", "%lld allocations of the cache were never freed", (long long)w.lib_live);
  }
}

// ------------------------------------------------------------------ generator
Plan gen_cache(const std::string& profile, uint64_t seed) {
  Plan p;
  p.world = "cache";
  p.profile = profile;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](const char* k, std::vector<int64_t> a) {
    Op o;
    o.k = k;
    o.a = a;
    p.ops.push_back(o);
  };
  const bool c1 = profile == "C01", c2 = profile == "C02", c3 = profile == "C03", c4 = profile == "C04",
             c5 = profile == "C05", c6 = profile == "C06", c7 = profile == "C07";
  int driver = (int)r.weighted({4, 1.5, 2, 1.5, 2, 1});
  if (c7) driver = r.chance(0.75) ? 2 : 5;
  int64_t keys = r.chance(0.1) ? r.range(13, 40) : r.chance(0.3) ? r.range(1, 2) : r.range(2, 9);
  // few runs are about many entries: whatever is done to a limited number of them at a time shows
  bool mass = r.chance(c3 || c4 || c5 ? 0.03 : 0.01);
  if (mass) keys = r.range(60, r.chance(0.2) ? 500 : 200);
  bool unit1 = r.chance(mass ? 0.8 : 0.4);
  int64_t capacity = c3 || r.chance(0.6) ? (int64_t)r.below((uint64_t)keys + 2) : keys * 2 + 5;
  int64_t scale = unit1 ? 1 : r.chance(0.1) ? (int64_t)1 << 33 : 10;
  int64_t max = capacity * scale;
  if (r.chance(0.04)) max = r.pick(std::vector<int64_t>{0, -1, 1, INT64_MAX, (int64_t)1 << 40});
  int64_t maxent = driver != 1 && driver != 3 && r.chance(0.25) ? r.range(1, keys + 1) : 0;
  bool ties = r.chance(0.12);
  int clients = (int)r.range(1, 4);
  int64_t mono = r.chance(0.2) ? r.range(0, 2000000) : (int64_t)r.below(1000000000000000ull);
  int64_t real = r.chance(0.1) ? r.range(-100000, 100000) : r.range(1000000000, 3000000000);
  add("cfg", {driver, (int64_t)r.below(3), keys, max, maxent, ties, clients, mono, real});
  bool age = c5 ? r.chance(0.92) : c4 ? false : r.chance(0.25);
  int64_t T = r.pick(std::vector<int64_t>{0, 1, 3, 64, 640, 64 * 3600, 64ll * 86400 * 400, 7});
  bool limited = (c4 || c5) ? r.chance(0.95) : r.chance(0.35);
  if (age || limited) add(age ? "age" : "idle", {limited ? T : -1});
  double p_zero = r.chance(0.1) ? 0.6 : 0;  // values that weigh nothing
  auto units = [&]() -> int64_t {
    if (p_zero > 0 && r.chance(p_zero)) return 0;
    if (unit1) return r.chance(0.9) ? 1 : (int64_t)r.below(4);
    if (r.chance(0.06)) return 0;
    if (r.chance(0.04) && max < (int64_t)1 << 40) return max + (int64_t)r.below(3);
    return r.range(1, 2 * scale);
  };
  // per-run mood: some kinds of operation are frequent, others absent
  auto mood = [&](double w) { return r.chance(0.15) ? 0.0 : r.chance(0.15) ? w * 4 : w; };
  std::vector<std::pair<const char*, double>> kinds = {
      {"ins", mood(6)},     {"insp", mood(c2 || c6 || c7 ? 4 : 2)}, {"look", mood(6)},
      {"slook", mood(1.5)}, {"rel", mood(8)},    {"rem", mood(c1 || c2 || c7 ? 3 : 1)},
      {"remall", mood(0.35)},  {"remunp", mood(0.3)}, {"clear", mood(0.2)},  {"exp", mood(c4 || c5 ? 1.5 : 0.3)},
      {"size", mood(c3 ? 0.8 : 0.2)}, {"idle", mood(c4 ? 0.6 : 0.12)}, {"age", mood(c5 ? 0.6 : 0.08)},
      {"upd", mood(c6 ? 2.5 : 0.6)}, {"use", mood(1)}, {"adv", mood(c4 || c5 ? 3 : 1)},
      {"advto", limited ? mood(c4 || c5 ? 4 : 0.7) : 0.0}, {"jmp", mood(c4 || c5 ? 1.2 : 0.2)},
      {"fault", c7 ? 5.0 : driver == 2 ? 0.2 : 0.0}};
  double p_noupd = r.chance(0.45) ? 0 : r.chance(0.5) ? 0.15 : 0.5;
  std::vector<double> wt;
  for (auto& k : kinds) wt.push_back(k.second);
  if (wt[0] + wt[1] == 0) wt[0] = 5;
  size_t n = mass ? 6 + r.geo(0.08, 40) : 12 + r.geo(0.012, 260);
  if (mass) wt[0] *= 0.3;
  // each client has its own small script state: how many values it holds
  std::vector<int> holds(clients, 0);
  int64_t hot = (int64_t)r.below(keys);
  auto key = [&]() { return r.chance(0.3) ? hot : (int64_t)r.below(keys); };
  for (size_t j = 0; j < n; j++) {
    if (mass && (j == 0 || r.chance(0.08))) add("fill", {(int64_t)r.below(keys), r.range(keys / 2, keys), unit1 ? 1 : (int64_t)r.below(scale + 1), r.chance(0.8) ? 0 : (int64_t)r.below(1000)});
    if (mass && r.chance(0.1)) add("adv", {T < (int64_t)1 << 36 ? T * 15625 + (int64_t)r.below(3) : 1000});
    if (mass && r.chance(0.1)) add("size", {(int64_t)r.below(keys) * scale});
    if (mass && r.chance(0.08)) add("ins", {(int64_t)r.below(keys), max > 0 && max < (int64_t)1 << 40 ? max - (int64_t)r.below(scale * 3) : 1, 0});
    if (r.chance(c2 || c6 ? 0.0008 : 0.0002)) {
      int64_t gc = (int64_t)r.below(clients);
      int64_t m = r.chance(c2 ? 0.2 : 0.04) ? r.pick(std::vector<int64_t>{32769, 65536, 65537}) : r.pick(std::vector<int64_t>{127, 128, 129, 255, 256, 257, 300});
      int64_t gk = (int64_t)r.below(keys);
      if (r.chance(0.7)) add("ins", {gk, 1, gc});
      add("grab", {gk, m, gc, (int64_t)r.below(2)});
      if (r.chance(0.5)) add("rem", {gk});
      if (r.chance(0.7)) add("drop", {gc, r.chance(0.5) ? m : m - 1});
    }
    if (r.chance(c2 || c6 ? 0.0012 : c7 ? 0 : 0.0003)) {
      int64_t gc = (int64_t)r.below(clients), m = r.chance(0.05) ? r.range(1000, 3000) : r.pick(std::vector<int64_t>{63, 64, 65, 127, 128, 129, 255, 256, 257, 300});
      int64_t gk = (int64_t)r.below(keys);
      add("pile", {gk, m, (int64_t)r.below(3), gc, units()});
      if (r.chance(0.5)) r.chance(0.5) ? add("rem", {gk}) : add("remall", {});
      if (r.chance(0.4)) add("upd", {gk, (int64_t)r.below(3), units()});
      if (r.chance(0.8)) add("drop", {gc, r.chance(0.5) ? m : (int64_t)r.below(m), r.chance(0.3) ? 0 : r.chance(0.3) ? 1 : 2 + (int64_t)r.below(1000)});
    }
    if (limited && r.chance(c4 || c5 ? 0.012 : 0.002)) {  // the least recently used entry is held, several times over
      int64_t gk = (int64_t)r.below(keys), gc = (int64_t)r.below(clients);
      int64_t m = 2 + (int64_t)r.below(5);
      bool noupd = r.chance(0.7);
      add("ins", {gk, units(), gc});
      if (r.chance(0.6)) add("adv", {1 + (int64_t)r.below(1000)});
      for (int64_t i = 1 + (int64_t)r.below(4); i > 0; i--) add("ins", {(gk + i) % keys, units(), gc});
      for (int64_t i = 0; i < m; i++) add(r.chance(0.8) ? "look" : "slook", {gk, (noupd ? 1 : 0) | 2, gc});
      add("adv", {T < (int64_t)1 << 36 ? T * 15625 + (int64_t)r.below(3) : 1000});
      for (int64_t i = 1 + (int64_t)r.below(4); i > 0; i--) {
        if (r.chance(0.4)) add("ins", {(gk + i + 4) % keys, units(), gc});
        add("look", {(gk + i) % keys, (int64_t)r.below(2) | 2, gc});
      }
      for (int64_t i = r.chance(0.5) ? m : (int64_t)r.below(m); i > 0; i--) add("rel", {gc, (int64_t)r.below(8), (int64_t)r.below(2)});
      holds[gc] += (int)m;
    }
    std::string k = kinds[r.weighted(wt)].first;
    int64_t cl = (int64_t)r.below(clients);
    if (k == "ins") add("ins", {key(), units(), cl});
    else if (k == "insp") add("insp", {key(), units(), cl}), holds[cl]++;
    else if (k == "look" || k == "slook") {
      add(k.c_str(), {key(), (r.chance(p_noupd) ? 1 : 0) | (r.chance(0.5) ? 2 : 0), cl});
      holds[cl]++;
      if (r.chance(0.25)) add("rel", {cl, (int64_t)r.below(8), (int64_t)r.below(2)});
    } else if (k == "rel") add("rel", {cl, (int64_t)r.below(8), (int64_t)r.below(2)});
    else if (k == "rem") add("rem", {key()});
    else if (k == "size") {
      max = r.chance(0.1) ? 0 : (int64_t)r.below((uint64_t)keys + 3) * scale;
      add("size", {max});
    } else if (k == "idle" || k == "age") {
      bool same = (k == "age") == age;
      if (!same && !r.chance(0.25)) {  // mode changes are rarer than new limits
        add(age ? "age" : "idle", {T});
        continue;
      }
      age = k == "age";
      T = r.pick(std::vector<int64_t>{0, 1, 2, 5, 64, 640, 64 * 3600, 64ll * 86400 * 400, T, T + 1});
      int64_t code = r.chance(0.12) ? -(int64_t)(1 + r.below(6)) : T;
      add(k.c_str(), {code});
    } else if (k == "upd") add("upd", {(int64_t)r.below(4), (int64_t)r.below(40), units()});
    else if (k == "use") add("use", {cl, (int64_t)r.below(8)});
    else if (k == "adv") {
      int64_t us = r.chance(0.5) ? r.range(1, 40000) : r.chance(0.6) ? T * 15625 / (1 + (int64_t)r.below(3)) : r.chance(0.9) ? r.range(1, 4000000000ll) : r.range(1, 40000000000000ll);
      add("adv", {us});
    } else if (k == "advto") {
      add("advto", {(int64_t)r.below(8), r.pick(std::vector<int64_t>{0, 1, -1, 1, 0, 2, -2, 1000000})});
      if (r.chance(0.7)) {
        if (r.chance(0.5)) add("exp", {});
        else add("look", {key(), 2, cl});
      }
    } else if (k == "jmp") {
      int64_t us = r.chance(0.5) ? r.range(-10, 10) * 1000000 : r.range(-4000000000000ll, 4000000000000ll);
      add("jmp", {us});
    } else if (k == "fault") {
      add("fault", {(int64_t)r.below(5), r.chance(0.6) ? 1 : r.chance(0.5) ? 2 : -1});
      // something that allocates soon after
      double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
      if (x < 0.4) add("ins", {key(), units(), cl});
      else if (x < 0.6) add("insp", {key(), units(), cl});
      else if (x < 0.8) add("rem", {key()});
      else if (x < 0.9) add("remall", {});
      else add("exp", {});
    } else add(k.c_str(), {});
  }
  return p;
}

}  // namespace

const World kCache = {"cache", gen_cache, exec_cache, nullptr};

}  // namespace sim
