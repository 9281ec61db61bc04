// The deploy world: executes a deployment history against the real library
// and judges every step against the ledger of what was signed and a model of
// the documented rules.
#include <algorithm>
#include <exception>
#include <memory>
#include <new>

#include "google/protobuf/struct.pb.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/verify.h"
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

#include "keys.h"
#include "openssl/bn.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/err.h"
#include "openssl/evp.h"
#include "openssl/nid.h"
#include "openssl/rsa.h"
#include "pools.h"
#include "seams.h"
#include "world_deploy.h"

namespace jv = google::jwt_verify;
using jv::Jwks;
using jv::JwksPtr;
using jv::Jwt;
using jv::Status;

namespace sim {
namespace {

typedef __int128 wide;

struct KeyModel {
  int mat;
  std::string kid, alg, kty, crv;
  bool check_crv;
};
struct DocEntry {
  int mat, kid, alg, quirk;
  int64_t seed;
};
struct Doc {
  int fmt = 0;
  int64_t seed = 0;
  std::vector<DocEntry> e;
};
struct Token {
  std::string text, header, payload;  // wire text and JSON
  bool genuine = false;
  int mat = 0, alg = 0;
  std::string sig;
  // claims as signed
  bool malformed = false;  // in header or payload
  bool bad_kid = false, bad_claim = false;
  bool has_kid = false;
  std::string kid, iss, sub, jti;
  std::set<std::string> members;  // the registered claims the payload carries
  std::vector<std::string> aud;
  uint64_t nbf = 0, exp = 0, iat = 0;
};
struct Entry {  // one signature in the ledger
  int mat, alg;
  std::string sig;
  bool proper;
  int tok;
};
struct Ver {
  JwksPtr jwks;
  std::vector<KeyModel> keys;
  struct Made {  // how the set came to be: a load, then additions
    int api;
    std::string text, kid, alg;
  };
  std::vector<Made> made;
  bool remakable = false; // ... without failures: another process can do the same
  bool exact = true;      // the model knows the contents
  bool failed = false;    // installed although its load failed
  bool any_order = false; // certificate map
  std::vector<std::string> aud;
  std::unique_ptr<jv::CheckAudience> checker;
  int64_t off = 0;  // wall clock minus reference, ns
  Jwt pooled;
};


struct World_ {
  Run& run;
  std::map<int64_t, Doc> docs;
  std::map<int64_t, Token> toks;
  std::map<std::string, std::vector<Entry>> ledger;  // header.payload text
  std::map<int64_t, Ver> vers;
  Jwt pool[3];
  std::string pool_text[3];
  bool pool_known[3] = {true, true, true};  // false after an exception part-way
  int64_t t_ns = 0, base = 1700000000;
  int op_index = 0;
  bool fault_armed = false;
  int f_kind = 0;
  int64_t f_nth = 0, f_count = 0;

  explicit World_(Run& r) : run(r) {}

  void add_ledger(const std::string& text, const Entry& e) { ledger[text].push_back(e); }

  // ------------------------------------------------------------- clocks
  // Wall clocks stay within +-253 years of 1970 so that nanoseconds fit.
  static bool clock_ok(wide ns) { return ns > -(wide)8000000000000000000ll && ns < (wide)8000000000000000000ll; }
  int64_t wall_ns(const Ver& v) const {
    wide w = (wide)base * 1000000000 + t_ns + v.off;
    return clock_ok(w) ? (int64_t)w : 0;
  }
  void set_clock(const Ver& v, int64_t tick) {
    g_clock.active = true;
    g_clock.real_ns = wall_ns(v);
    g_clock.mono_ns = t_ns + 5000000000ll;
    g_clock.step_real = tick;
    g_clock.step_mono = tick;
    g_clock.reads = 0;
  }

  // ------------------------------------------------------------- faults
  struct Call {
    bool threw = false, bad_alloc = false;
    std::string what;
    int64_t fired = 0;
  };
  // What each repetition of an operation keeps.  Something made once and for
  // all shows in one of them (a failure in between puts the next such thing
  // off to the next repetition), a leak shows in every one.
  struct LeakWatch {
    static constexpr int kEnough = 8;
    int n = 0;
    bool all_new = true, all_ossl = true;
    int64_t last_new = 0, last_ossl = 0;
    void add(int64_t live_new, int64_t live_ossl) {
      if (n++ == 0) return;
      last_new = live_new;
      last_ossl = live_ossl;
      all_new &= live_new > 0;
      all_ossl &= live_ossl > 0;
    }
    bool more() const { return n < kEnough && (all_new || all_ossl); }
    bool found() const { return n >= kEnough && (all_new || all_ossl); }
  };

  template <class F>
  Call call(bool with_fault, F f) {
    Call c;
    if (with_fault) arm(f_kind, f_nth, f_count);
    try {
      LibScope s;
      f();
    } catch (const std::bad_alloc& e) {
      c.threw = c.bad_alloc = true;
    } catch (const std::exception& e) {
      c.threw = true;
      c.what = e.what();
    } catch (...) {
      c.threw = true;
      c.what = "?";
    }
    if (with_fault) {
      c.fired = disarm();
      if (c.fired) run.stat("fault.ops_hit");
    }
    return c;
  }
  bool take_fault() {
    bool f = fault_armed;
    fault_armed = false;
    if (f) run.stat("fault.ops_armed");
    return f;
  }

  // ------------------------------------------------------------- the pristine process
  // Forked before the run's first call.  Answers what parse and verify say in
  // a process that has done nothing else: a call's verdict may depend on the
  // token, the keys and the time, and on nothing that happened before.
  int pure_fd = -1;
  struct Wire {
    std::string b;
    size_t at = 0;
    void i(int64_t v) { b.append((char*)&v, 8); }
    void s(const std::string& v) { i((int64_t)v.size()), b += v; }
    int64_t gi() {
      int64_t v = 0;
      if (at + 8 <= b.size()) memcpy(&v, &b[at], 8);
      at += 8;
      return v;
    }
    std::string gs() {
      size_t n = (size_t)gi();
      std::string v = at + n <= b.size() ? b.substr(at, n) : "";
      at += n;
      return v;
    }
  };
  static bool io_all(int fd, char* p, size_t n, bool wr) {
    while (n) {
      ssize_t k = wr ? write(fd, p, n) : read(fd, p, n);
      if (k <= 0) return false;
      p += k;
      n -= (size_t)k;
    }
    return true;
  }
  void start_pristine() {
    int fd[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) return;
    pid_t pid = fork();
    if (pid < 0) return;
    if (pid == 0) {
      close(fd[0]);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGCHLD, SIG_DFL);
      for (;;) {
        int64_t n;
        Wire w;
        if (!io_all(fd[1], (char*)&n, 8, false)) _exit(0);
        w.b.resize((size_t)n);
        if (!io_all(fd[1], &w.b[0], (size_t)n, false)) _exit(0);
        pid_t q = fork();
        if (q == 0) {
          int64_t r = pristine_eval(w);
          io_all(fd[1], (char*)&r, 8, true);
          _exit(0);
        }
        int st = 0;
        if (q < 0 || waitpid(q, &st, 0) != q || !WIFEXITED(st) || WEXITSTATUS(st)) {
          int64_t r = -1;
          io_all(fd[1], (char*)&r, 8, true);
        }
      }
    }
    close(fd[1]);
    pure_fd = fd[0];
  }
  static int64_t pristine_eval(Wire& w) {
    g_clock.active = true;
    g_clock.real_ns = w.gi();
    g_clock.mono_ns = w.gi();
    g_clock.step_real = g_clock.step_mono = w.gi();
    int entry = (int)w.gi();
    uint64_t now = (uint64_t)w.gi(), skew = (uint64_t)w.gi();
    int flags = (int)w.gi();
    std::string text = w.gs();
    std::vector<std::string> aud((size_t)w.gi());
    for (auto& a : aud) a = w.gs();
    int64_t keep = g_clock.real_ns, keep_mono = g_clock.mono_ns;
    JwksPtr j;
    size_t n = (size_t)w.gi();
    for (size_t i = 0; i < n; i++) {
      int api = (int)w.gi();
      std::string t = w.gs(), kid = w.gs(), alg = w.gs();
      if (api == 0) j = Jwks::createFrom(t, Jwks::JWKS);
      else if (api == 1) j = Jwks::createFrom(t, Jwks::PEM);
      else if (api == 2) j = Jwks::createFromPem(t, kid, alg);
      else j->addKeyFromPem(t, kid, alg);
    }
    g_clock.real_ns = keep;
    g_clock.mono_ns = keep_mono;
    Jwt jwt;
    Status ps = jwt.parseFromString(text), vs = Status::Ok;
    bool verified = ps == Status::Ok || (flags & 1);
    if (verified) vs = ask(jwt, *j, aud, nullptr, entry, now, skew, flags);
    return (int64_t)ps * 1000 + (verified ? (int64_t)vs : 901);
  }
  // The verdict in the pristine process, or -1.
  int64_t pristine(const std::string& text, const Ver& v, int entry, uint64_t now, uint64_t skew, int flags, int64_t clock0, int64_t mono0,
                   int64_t tick) {
    if (pure_fd < 0) return -1;
    Wire w;
    w.i(clock0), w.i(mono0), w.i(tick), w.i(entry), w.i((int64_t)now), w.i((int64_t)skew), w.i(flags), w.s(text), w.i((int64_t)v.aud.size());
    for (auto& a : v.aud) w.s(a);
    w.i((int64_t)v.made.size());
    for (auto& m : v.made) w.i(m.api), w.s(m.text), w.s(m.kid), w.s(m.alg);
    int64_t n = (int64_t)w.b.size(), r = -1;
    if (!io_all(pure_fd, (char*)&n, 8, true) || !io_all(pure_fd, &w.b[0], w.b.size(), true) || !io_all(pure_fd, (char*)&r, 8, false)) return -1;
    return r;
  }
  static Status ask(const Jwt& j, const Jwks& keys, const std::vector<std::string>& aud, jv::CheckAudience* checker, int entry, uint64_t now,
                    uint64_t skew, int flags) {
    switch (entry) {
      case 0: return jv::verifyJwt(j, keys);
      case 1: return jv::verifyJwt(j, keys, now);
      case 2: return jv::verifyJwt(j, keys, now, skew);
      case 3: return jv::verifyJwt(j, keys, aud);
      case 4: return jv::verifyJwt(j, keys, aud, now);
      case 5: return jv::verifyJwtWithoutTimeChecking(j, keys);
      case 6: {
        bool allowed;
        if ((flags & 2) && checker) {
          allowed = checker->areAudiencesAllowed(j.audiences_);
        } else {
          jv::CheckAudience ca(aud);
          allowed = ca.areAudiencesAllowed(j.audiences_);
        }
        return allowed ? Status::Ok : Status::JwtAudienceNotAllowed;
      }
      default: return skew == 60 && (flags & 2) ? j.verifyTimeConstraint(now) : j.verifyTimeConstraint(now, skew);
    }
  }

  // ------------------------------------------------------------- documents
  static std::string zeros(const std::string& s, int q) { return q == 4 ? std::string(2, 0) + s : s; }

  // Model: is this JWKS entry usable, and as what?
  static bool model_jwk(const DocEntry& d, KeyModel* k) {
    const Mat& m = mats()[d.mat];
    if (d.quirk >= 20) return false;
    k->mat = d.mat;
    k->kid = d.kid < 0 ? "" : kid_pool()[d.kid];
    k->alg = d.alg < 0 ? "" : keyalg_pool()[d.alg];
    const std::string& a = k->alg;
    switch (m.fam) {
      case RSA_F:
        k->kty = "RSA";
        k->check_crv = false;
        return a.empty() || a.compare(0, 2, "RS") == 0 || a.compare(0, 2, "PS") == 0;
      case EC_F: {
        k->kty = "EC";
        k->crv = m.crv;
        k->check_crv = true;
        std::string pub = d.quirk == 3 ? "" : m.crv;
        if (!a.empty()) {
          std::string c = a == "ES256" ? "P-256" : a == "ES384" ? "P-384" : a == "ES512" ? "P-521" : "";
          return c == m.crv;
        }
        return !pub.empty() || m.crv == "P-256";
      }
      case OCT_F:
        k->kty = "oct";
        k->check_crv = false;
        return a.empty() || a == "HS256" || a == "HS384" || a == "HS512";
      case OKP_F:
        k->kty = "OKP";
        k->crv = "Ed25519";
        k->check_crv = true;
        return a.empty() || a == "EdDSA";
    }
    return false;
  }

  static std::string jwk_json(const DocEntry& d) {
    const Mat& m = mats()[d.mat];
    int q = d.quirk;
    Rng r(d.seed + 99);
    if (q == 29) return "\"not a key\"";
    if (q == 30) return "null";
    if (q == 31) {
      static const char* kEmpty[] = {"17", "{}", "{\"kid\":\"k1\"}", "{\"keys\":[]}", "true", "[]", "{\"kty\":null}", "{\"\":{}}"};
      return kEmpty[r.below(8)];
    }
    if (q == 32) return "[{\"kty\":\"RSA\"}]";
    std::vector<std::string> mem;
    int st = q == 5 ? 1 : 0;
    auto str = [&](const char* n, const std::string& v) { mem.push_back(jquote(n) + ":" + jquote(v, st)); };
    auto raw = [&](const char* n, const std::string& v) { mem.push_back(jquote(n) + ":" + v); };
    static const char* kty[] = {"RSA", "EC", "oct", "OKP"};
    if (q == 21) raw("kty", "5");
    else if (q == 22) {
      static const char* kNo[4][6] = {{"rsa", "Rsa", "RSA ", "RS", "RSAA", "XYZ"}, {"ec", "Ec", "EC ", "ECC", "E", "XYZ"},
                                      {"OCT", "Oct", "oct ", "oc", "octet", "XYZ"}, {"okp", "Okp", "OKP ", "OK", "OKPP", "EC-OKP"}};
      str("kty", kNo[m.fam][r.below(6)]);
    }
    else if (q != 20) str("kty", kty[m.fam]);
    if (d.kid >= 0) str("kid", kid_pool()[d.kid]);
    if (d.alg >= 0) str("alg", keyalg_pool()[d.alg]);
    // main and second member by type
    std::string n1, v1, n2, v2;
    switch (m.fam) {
      case RSA_F: n1 = "n"; v1 = b64u(zeros(m.n, q)); n2 = "e"; v2 = b64u(zeros(m.e, d.seed & 1 ? q : 0)); break;
      case EC_F: n1 = "x"; v1 = b64u(zeros(m.x, q)); n2 = "y"; v2 = b64u(zeros(m.y, q)); break;
      case OCT_F: n1 = "k"; v1 = b64u(m.raw); break;
      case OKP_F: n1 = "x"; v1 = b64u(m.raw); n2 = "crv"; v2 = "Ed25519"; break;
    }
    if (q == 25) v1 = v1.substr(0, v1.size() / 2) + "!*" + v1;
    if (q == 27) {
      static const char* kE[] = {"BQ", "BQ", "EQ", "AQ", "AA", "AQAA", "AQAC", "AgAB", "AQABAQ", "Ag", "BA"};  // 5 17 1 0 65536 65538 131073 2^24.. 2 4
      if (m.fam == RSA_F) v2 = kE[r.below(11)];
      if (m.fam == EC_F) {
        std::string x = m.x, y = m.y;
        switch (r.below(7)) {
          case 0: case 1: x = std::string(x.size() - 1, 7); break;  // not on the curve
          case 2: y.back() ^= 1; break;
          case 3: x = std::string(x.size(), (char)255); break;      // not in the field
          case 4: x += x[0]; break;
          case 5: y = y.substr(0, y.size() - 1); break;
          case 6: x = y = std::string(1, 0); break;
        }
        v1 = b64u(x), v2 = b64u(y);
      }
      if (m.fam == OCT_F) v1 = "";
      if (m.fam == OKP_F) {
        std::string raws[] = {m.raw.substr(0, 31), m.raw + std::string(1, 0), m.raw + m.raw, "", "\x40" + m.raw, m.raw.substr(0, 1), m.raw + std::string(32, 0)};
        v1 = b64u(raws[r.below(7)]);
      }
    }
    if (q == 28) {
      if (m.fam == RSA_F) v2 = "!!!";
      if (m.fam == OCT_F) v1 = "****";
      if (m.fam == OKP_F) v2 = "X25519";
    }
    static const char* kNoCurve[] = {"P-224", "secp256r1", "prime256v1", "p-256", "P256", "P-256 ", "P-2566", "secp384r1", "P-512", "secp521r1", "secp256k1", "P-521\n"};
    if (m.fam == EC_F && q != 3) str("crv", q == 28 ? kNoCurve[r.below(sizeof kNoCurve / sizeof *kNoCurve)] : m.crv.c_str());
    if (q == 26) raw(n1.c_str(), "12");
    else if (q != 23 && !(q == 24 && n2.empty())) str(n1.c_str(), v1);
    if (!n2.empty() && q != 24) {
      if (q == 33) raw(n2.c_str(), "[]");
      else str(n2.c_str(), v2);
    }
    if (n2.empty() && q == 33) mem.back() = "\"k\":null";
    if (q == 1) {
      static const char* kUse[] = {"sig", "sig", "enc", ""};
      static const char* kOps[] = {"[\"verify\"]", "[\"verify\"]", "[\"sign\",\"verify\"]", "[]", "[\"encrypt\"]"};
      if (r.chance(0.8)) str("use", kUse[r.below(4)]);
      if (r.chance(0.8)) raw("key_ops", kOps[r.below(5)]);
      if (r.chance(0.8)) raw("ext", "{\"a\":[1,2,{\"b\":null}],\"kty\":\"oct\"}");
      if (r.chance(0.8)) str("x5t", "abc");
      if (r.chance(0.3)) str("d", "AQAB");  // part of a private key: not this library's business
      if (r.chance(0.3)) raw("x5c", "[\"MIIB\"]");
      if (r.chance(0.3)) raw("exp", "1");
      if (r.chance(0.3)) raw("nbf", "99999999999");
      if (r.chance(0.3)) raw("revoked", "null");
    }
    if (q == 2) std::reverse(mem.begin(), mem.end());
    std::string o = "{";
    for (size_t i = 0; i < mem.size(); i++) o += (i ? "," : "") + mem[i];
    return o + "}";
  }

  static std::string damage_pem(std::string p, uint64_t seed) {
    Rng r(seed);
    size_t b = p.find('\n'), e = p.rfind("\n-----END");
    if (b == std::string::npos || e == std::string::npos || e <= b + 20) return "";
    // cut the middle out: never a valid structure again
    size_t from = b + 1 + r.below((e - b) / 3), to = e - 1 - r.below((e - b) / 3);
    return p.substr(0, from) + p.substr(to);
  }

  // The same PEM block as others write it: other line ends and widths, text around it.
  static std::string dress_pem(const std::string& p, int how, uint64_t seed) {
    Rng r(seed * 7 + 1);
    std::string s = p;
    if (how == 1 || r.chance(0.15)) {  // line ends
      std::string o;
      for (char c : s) o += c == '\n' ? std::string(r.chance(0.1) ? " \r\n" : "\r\n") : std::string(1, c);
      s = o;
    }
    if (how == 2 || r.chance(0.15)) {  // text before
      std::string o;
      for (int i = 1 + (int)r.below(r.chance(0.3) ? 60 : 4); i > 0; i--) {
        static const char* kT[] = {"# signing key of the year", "Subject: CN=issuer", "", "  ", "-- not a block --", "Key-Type: whatever: 1", "----", "AQAB"};
        o += std::string(kT[r.below(8)]) + "\n";
      }
      s = o + s;
    }
    if (how == 3 || r.chance(0.15)) {  // text after, or no end of line
      if (r.chance(0.4)) s.erase(s.find_last_not_of(" \r\n") + 1);
      else s += r.chance(0.5) ? "\n\n" : "that was it\n" + std::string(r.below(2000), 'z') + "\n";
    }
    return s;
  }

  struct Built {
    std::string text, kid, alg;
    int api = 0;  // 0 createFrom JWKS, 1 createFrom PEM, 2 createFromPem
    bool ok = false, any_order = false;
    std::vector<KeyModel> keys;
  };

  // A PEM document for an entry; usable says what the model thinks of it.
  static std::string pem_text(const DocEntry& d, bool* usable) {
    const Mat& m = mats()[d.mat];
    *usable = false;
    switch (d.quirk) {
      case 20: return m.priv_pem;
      case 21: return "";
      case 22: return kX25519Pem;
      case 23: return "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n";
      case 24: return "-----BEGIN RSA PUBLIC KEY-----\nMIIB\n-----END RSA PUBLIC KEY-----\n";
      default: break;
    }
    if (d.quirk >= 20) return damage_pem(m.pub_pem, d.seed);
    *usable = true;
    return d.quirk ? dress_pem(m.pub_pem, d.quirk, d.seed) : m.pub_pem;
  }
  static KeyModel pem_model(const DocEntry& d, bool with_id) {
    KeyModel k;
    const Mat& m = mats()[d.mat];
    k.mat = d.mat;
    k.kid = with_id && d.kid >= 0 ? kid_pool()[d.kid] : "";
    k.alg = with_id && d.alg >= 0 ? keyalg_pool()[d.alg] : "";
    k.kty = m.fam == RSA_F ? "RSA" : m.fam == EC_F ? "EC" : "OKP";
    k.check_crv = false;
    if (m.fam == OKP_F && k.alg.compare(0, 2, "ES")) {
      k.crv = "Ed25519";
      k.check_crv = true;
    }
    return k;
  }
  static DocEntry pem_fix(DocEntry d) {  // shared secrets have no PEM form
    if (mats()[d.mat].fam == OCT_F) d.mat = mat_of(RSA_F, d.mat);
    return d;
  }

  Built build(const Doc& d) {
    Built b;
    Rng r(d.seed * 31 + 5);
    switch (d.fmt) {
      case 0: {
        std::string s = "{";
        if (r.chance(0.2)) s += "\"issuer\":\"https://x\",";
        s += r.chance(0.3) ? "\"keys\": [ \n" : "\"keys\":[";
        bool first = true;
        for (auto& e : d.e) {
          if (!first) s += ",";
          first = false;
          s += jwk_json(e);
          KeyModel k;
          if (model_jwk(e, &k)) b.keys.push_back(k);
        }
        s += "]";
        if (r.chance(0.2)) s += ",\"extra\":{\"keys\":[]}";
        s += "}";
        b.text = s;
        b.ok = !b.keys.empty();
        break;
      }
      case 1: {
        std::string s = "{";
        bool ok = !d.e.empty();
        std::set<std::string> seen;
        bool first = true;
        for (auto& e0 : d.e) {
          DocEntry e = e0;
          if (mats()[e.mat].crt_pem.empty()) e.mat = mat_of(RSA_F, e.mat % 4);
          std::string kid = e.kid < 0 ? "" : kid_pool()[e.kid];
          if (!seen.insert(kid).second) {
            if (d.e.size() <= 20 || kid.empty()) continue;
            kid += strf("#%zu", seen.size());  // more certificates than there are names
            seen.insert(kid);
          }
          if (!first) s += ",";
          first = false;
          std::string v = jquote(mats()[e.mat].crt_pem);
          bool good = mats()[e.mat].fam == RSA_F && !kid.empty();
          if (e.quirk >= 20) {
            good = false;
            if (e.quirk < 29) v = jquote(damage_pem(mats()[e.mat].crt_pem, e.seed));
            else if (e.quirk == 29) v = "\"not a certificate\"";
            else if (e.quirk == 30) v = "null";
            else if (e.quirk == 31) v = "17";
            else v = "{}";
          }
          s += jquote(kid) + ":" + v;
          ok = ok && good;
          KeyModel k;
          k.mat = e.mat;
          k.kid = kid;
          k.kty = "RSA";
          k.check_crv = false;
          b.keys.push_back(k);
        }
        b.text = s + "}";
        b.ok = ok;
        b.any_order = true;
        if (!ok) b.keys.clear();
        break;
      }
      default: {
        if (d.e.empty()) {
          b.text = "";
          b.api = 1;
          break;
        }
        DocEntry e = pem_fix(d.e[0]);
        bool usable;
        b.text = pem_text(e, &usable);
        b.api = d.fmt == 2 ? 1 : 2;
        b.kid = e.kid < 0 ? "" : kid_pool()[e.kid];
        b.alg = e.alg < 0 ? "" : keyalg_pool()[e.alg];
        b.ok = usable;
        if (usable) b.keys.push_back(pem_model(e, b.api == 2));
      }
    }
    return b;
  }

  static std::string bnstr(const BIGNUM* b) {
    if (!b) return "";
    std::string s(BN_num_bytes(b), 0);
    BN_bn2bin(b, (uint8_t*)&s[0]);
    return s;
  }
  static std::string strip0(std::string s) {
    size_t i = 0;
    while (i < s.size() && !s[i]) i++;
    return s.substr(i);
  }
  // "" if the loaded key is the modelled one, else what differs.
  static std::string key_diff(const Jwks::Pubkey& k, const KeyModel& m) {
    const Mat& mat = mats()[m.mat];
    if (k.kid_ != m.kid) return "key id is '" + k.kid_ + "', published '" + m.kid + "'";
    if (k.alg_ != m.alg) return "algorithm is '" + k.alg_ + "', published '" + m.alg + "'";
    if (k.kty_ != m.kty) return "type is '" + k.kty_ + "', published '" + m.kty + "'";
    if (m.check_crv && k.crv_ != m.crv) return "curve is '" + k.crv_ + "', published '" + m.crv + "'";
    switch (mat.fam) {
      case RSA_F: {
        if (!k.rsa_) return "no RSA key";
        if (bnstr(RSA_get0_n(k.rsa_.get())) != strip0(mat.n)) return "modulus differs";
        if (bnstr(RSA_get0_e(k.rsa_.get())) != strip0(mat.e)) return "exponent differs";
        break;
      }
      case EC_F: {
        if (!k.ec_key_) return "no EC key";
        const EC_GROUP* g = EC_KEY_get0_group(k.ec_key_.get());
        const EC_POINT* p = EC_KEY_get0_public_key(k.ec_key_.get());
        int nid = mat.crv == "P-256" ? NID_X9_62_prime256v1 : mat.crv == "P-384" ? NID_secp384r1 : NID_secp521r1;
        if (!g || EC_GROUP_get_curve_name(g) != nid) return "wrong curve";
        if (!p) return "no public point";
        BIGNUM *x = BN_new(), *y = BN_new();
        int ok = EC_POINT_get_affine_coordinates_GFp(g, p, x, y, nullptr);
        bool same = ok && bnstr(x) == strip0(mat.x) && bnstr(y) == strip0(mat.y);
        BN_free(x);
        BN_free(y);
        if (!same) return "public point differs";
        break;
      }
      case OCT_F:
        if (k.hmac_key_ != mat.raw) return "secret differs";
        break;
      case OKP_F:
        if (k.okp_key_raw_ != mat.raw) return "public key differs";
        break;
    }
    return "";
  }
  // Compares a key set with the model. sub: keys may be missing (faults).
  static std::string set_diff(const Jwks& j, const std::vector<KeyModel>& want, bool any_order, bool sub) {
    const auto& ks = j.keys();
    if (!sub && ks.size() != want.size())
      return strf("%zu keys, %zu published", ks.size(), want.size());
    size_t w = 0;
    std::vector<bool> used(want.size(), false);
    for (size_t i = 0; i < ks.size(); i++) {
      if (!ks[i]) return strf("key %zu is null", i);
      std::string why = "there are more keys than published";
      bool found = false;
      if (any_order) {
        for (size_t k = 0; k < want.size() && !found; k++)
          if (!used[k]) {
            why = key_diff(*ks[i], want[k]);
            if (why.empty()) {
              used[k] = true;
              found = true;
            }
          }
      } else {
        for (; w < want.size() && !found; w++) {
          why = key_diff(*ks[i], want[w]);
          if (why.empty()) found = true;
          else if (!sub) break;
        }
      }
      if (!found) return strf("key %zu: ", i) + why;
    }
    return "";
  }

  static std::string mutate_doc(std::string s, int kind, uint64_t seed) {
    Rng r(seed);
    auto pos = [&] { return s.empty() ? 0 : r.below(s.size()); };
    switch (kind) {
      case 1: if (!s.empty()) s[pos()] ^= 1 << r.below(8); break;
      case 2: s.resize(pos()); break;
      case 3: s.erase(0, pos()); break;
      case 4: s += s; break;
      case 5: { size_t a = pos(); s.erase(a, 1 + r.below(20)); break; }
      case 6: s.insert(pos(), std::string(1 + r.below(4), (char)r.below(256))); break;
      case 7: for (int i = 0; i < 5 && !s.empty(); i++) s[pos()] = (char)r.below(256); break;
      case 8: { size_t a = pos(); s.insert(a, s.substr(pos(), r.below(200))); break; }
      case 9: { size_t c = s.find(':', pos()); if (c != std::string::npos) { size_t e = s.find_first_of(",}", c); s.replace(c + 1, e == std::string::npos ? e : e - c - 1, r.chance(0.5) ? "null" : r.chance(0.5) ? "[]" : "\"\""); } break; }
      case 10: { size_t c = s.find('"', pos()); if (c != std::string::npos) s[c] = '\''; break; }
      case 11: s = std::string(r.below(1200), '[') + s; break;
      case 12: { size_t a = pos(); if (a + 1 < s.size()) std::swap(s[a], s[a + 1]); break; }
      // more than anybody would publish who means well
      case 13: { size_t c = s.find('"'); s.insert(c == std::string::npos ? 0 : c + 1, std::string(1000000 + r.below(5000000), 'x')); break; }
      case 14: { size_t c = s.find('['); std::string m; for (int i = 0; i < 50000; i++) m += i & 1 ? "{}," : "{\"kty\":\"oct\"},"; s.insert(c == std::string::npos ? 0 : c + 1, m); break; }
      case 15: { size_t c = s.rfind('}'); s.insert(c == std::string::npos ? 0 : c, std::string(1000000 + r.below(5000000), ' ')); break; }
      case 16: { size_t c = s.find("-----\n"); s.insert(c == std::string::npos ? 0 : c + 6, std::string(1000000 + r.below(5000000), 'A')); break; }
    }
    return s;
  }

  Call do_load(const Built& b, const std::string& text, JwksPtr* out, bool fault) {
    return call(fault, [&] {
      if (b.api == 0) *out = Jwks::createFrom(text, Jwks::JWKS);
      else if (b.api == 1) *out = Jwks::createFrom(text, Jwks::PEM);
      else *out = Jwks::createFromPem(text, b.kid, b.alg);
    });
  }

  void op_load(const Op& o) {
    Ver& v = vers[o.at(0) & 3];
    auto it = docs.find(o.at(1));
    if (it == docs.end()) {
      fault_armed = false;
      return;
    }
    int corrupt = (int)o.at(2);
    bool install = o.at(4), fault = take_fault();
    Built b = build(it->second);
    std::string text = b.text;
    if (corrupt) {
      text = mutate_doc(text, corrupt, o.at(3));
      run.stat("net.corrupt_doc");
    }
    bool pristine = text == b.text;
    JwksPtr j;
    Call c;
    int reps = (int)std::max<int64_t>(1, std::min<int64_t>(3, o.at(5)));
    if (reps == 3) reps = 4;  // the last one keeps its set and is not counted
    LeakWatch leak;
    for (int rep = 0; rep < reps; rep++) {
      ERR_clear_error();
      AllocCounts a0 = allocs();
      {
        JwksPtr tmp;
        c = do_load(b, text, &tmp, fault);
        if (rep == reps - 1) j = std::move(tmp);
      }
      ERR_clear_error();
      AllocCounts a1 = allocs();
      if (rep < reps - 1) leak.add(a1.live_new - a0.live_new, a1.live_ossl - a0.live_ossl);
      if (reps >= 4 && rep == reps - 2 && leak.more()) reps++;
    }
    if (reps >= 4 && leak.found())
      run.violate("K03", "load-leak", "loading a key document%s leaks %lld C++ and %lld crypto allocations each time",
                  fault ? " under failures" : "", (long long)leak.last_new, (long long)leak.last_ossl);
    run.stat("op.load");
    if (c.threw) {
      run.logf("load threw %s", c.bad_alloc ? "bad_alloc" : c.what.c_str());
      if (!(c.bad_alloc && c.fired))
        run.violate("K01 K03 V11", "load-exception", "loading a key document ended in an exception: %s",
                    c.bad_alloc ? "bad_alloc" : c.what.c_str());
      run.state(mix(mix(1, f_kind), hash_str(g_fault.last)));
      return;
    }
    if (!j) {
      run.violate("K01 K03 V11", "load-null", "loading a key document returned no object");
      return;
    }
    bool ok = j->getStatus() == Status::Ok;
    run.logf("load fmt=%d corrupt=%d fired=%lld -> %d keys=%zu", it->second.fmt, corrupt, (long long)c.fired,
             (int)j->getStatus(), j->keys().size());
    run.state(mix(mix(mix(2, it->second.fmt * 16 + corrupt), (uint64_t)j->getStatus() * 64 + std::min<size_t>(j->keys().size(), 20)),
                  c.fired ? hash_str(g_fault.last) : 0));
    if (!ok && !j->keys().empty())
      run.violate("K01 V11", "failed-load-has-keys", "the load failed (status %d) but the set holds %zu keys", (int)j->getStatus(),
                  j->keys().size());
    if (ok && j->keys().empty())
      run.violate("K01", "ok-load-no-keys", "the load succeeded but the set holds no key");
    if (pristine && !c.fired) {
      if (ok != b.ok)
        run.violate(fault ? "K01 K03" : "K01", "load-status", "document (format %d) with %zu usable keys: load status %d", it->second.fmt,
                    b.keys.size(), (int)j->getStatus());
      else if (ok) {
        std::string d = set_diff(*j, b.keys, b.any_order, false);
        if (!d.empty()) run.violate("K01", "load-keys", "document (format %d): %s", it->second.fmt, d.c_str());
        for (auto& k : j->keys()) run.state(mix(3, hash_str(k->kty_ + k->alg_ + k->crv_)));
      }
    }
    if (pristine && c.fired) {
      std::string d = set_diff(*j, b.keys, b.any_order, true);
      if (!d.empty())
        run.violate("K03", "load-wrong-key", "after %lld failures (last: %s) the set has a wrong key: %s", (long long)c.fired, g_fault.last,
                    d.c_str());
      if (b.any_order && ok && j->keys().size() != b.keys.size())
        run.violate("K03", "load-partial-map", "a certificate map loaded with %zu of %zu keys under failures", j->keys().size(), b.keys.size());
      // and the same document again, now that memory is back
      JwksPtr again;
      Call c2 = do_load(b, text, &again, false);
      ERR_clear_error();
      bool same = !c2.threw && again && (again->getStatus() == Status::Ok) == b.ok &&
                  (!b.ok || set_diff(*again, b.keys, b.any_order, false).empty());
      if (!same) run.violate("K03", "load-retry", "loading the document again after the failures stopped does not give the full set");
    }
    if (!ok && !install) return;
    v.jwks = std::move(j);
    v.made = {{b.api, text, b.kid, b.alg}};
    v.remakable = !c.fired;
    v.failed = !ok;
    v.any_order = b.any_order;
    v.exact = pristine && !c.fired;
    v.keys = ok ? b.keys : std::vector<KeyModel>();
    if (!ok) v.exact = true;
    if (v.exact && b.any_order) {
      // order of a map is not promised: take it as found
      std::vector<KeyModel> ordered;
      for (auto& k : v.jwks->keys())
        for (auto& m : v.keys)
          if (key_diff(*k, m).empty()) {
            ordered.push_back(m);
            break;
          }
      if (ordered.size() == v.keys.size()) v.keys = ordered;
    }
    run.state(mix(4, v.keys.size()));
  }

  void op_pem(const Op& o) {
    Ver& v = vers[o.at(0) & 3];
    bool fault = take_fault();
    if (!v.jwks) return;
    DocEntry d = pem_fix(DocEntry{(int)(o.at(1) % (int)mats().size()), (int)o.at(2), (int)o.at(3), (int)o.at(4), o.at(5)});
    bool usable;
    std::string text = pem_text(d, &usable);
    std::string kid = d.kid < 0 ? "" : kid_pool()[d.kid % kid_pool().size()];
    std::string alg = d.alg < 0 ? "" : keyalg_pool()[d.alg % keyalg_pool().size()];
    std::vector<const Jwks::Pubkey*> before;
    for (auto& k : v.jwks->keys()) before.push_back(k.get());
    Status before_st = v.jwks->getStatus();
    Status st = Status::Ok;
    Call c = call(fault, [&] { st = v.jwks->addKeyFromPem(text, kid, alg); });
    ERR_clear_error();
    run.stat("op.addpem");
    run.logf("addpem usable=%d threw=%d fired=%lld -> %d keys=%zu", usable, c.threw, (long long)c.fired, c.threw ? -1 : (int)st,
             v.jwks->keys().size());
    run.state(mix(mix(5, before.size()), mix(c.threw ? 1000 : (uint64_t)st, c.fired ? hash_str(g_fault.last) : 0)));
    if (c.threw && !(c.bad_alloc && c.fired)) {
      run.violate("K02", "add-exception", "adding a PEM key ended in an exception: %s", c.what.c_str());
      return;
    }
    v.made.push_back({3, text, kid, alg});
    if (c.fired) v.remakable = false;
    bool success = !c.threw && st == Status::Ok;
    const auto& ks = v.jwks->keys();
    if (!c.fired && success != usable)
      run.violate("K02", "add-status", "adding a %s PEM key returned status %d", usable ? "usable" : "unusable", (int)st);
    size_t want = before.size() + (success ? 1 : 0);
    if (ks.size() != want) {
      run.violate("K02", "add-count", "adding a PEM key returned %s and the set went from %zu to %zu keys",
                  c.threw ? "bad_alloc" : success ? "Ok" : "a failure", before.size(), ks.size());
      v.exact = false;
      return;
    }
    if (before_st != v.jwks->getStatus() && !success)
      run.violate("K02", "add-set-status", "a failed addition changed the status of the key set from %d to %d", (int)before_st,
                  (int)v.jwks->getStatus());
    KeyModel m = pem_model(d, true);
    m.kid = kid;
    m.alg = alg;
    if (success) {
      std::string diff = key_diff(*ks.back(), m);
      if (!diff.empty()) run.violate(c.fired ? "K02 K03" : "K02", "add-key", "the added key is not the one given: %s", diff.c_str());
    }
    if (v.exact) {
      std::vector<KeyModel> wantk = v.keys;
      if (success) wantk.push_back(m);
      std::string diff = set_diff(*v.jwks, wantk, false, false);
      if (!diff.empty()) run.violate("K02", "add-others", "after adding a PEM key the earlier keys differ: %s", diff.c_str());
      v.keys = wantk;
    }
    if (success) v.failed = false;
  }

  // ------------------------------------------------------------- tokens
  static std::string time_json(int mode, int64_t v, uint64_t* val, bool* bad) {
    uint64_t u = (uint64_t)v;
    *val = 0;
    auto as_double = [&](double d) {
      if (d >= 18446744073709551616.0) *bad = true;
      else *val = (uint64_t)d;
    };
    switch (mode) {
      case 1:
        as_double((double)u);
        return strf("%llu", (unsigned long long)u);
      case 2: {
        u &= (1ull << 40) - 1;  // the fraction stays one in a double
        *val = u;
        return strf("%llu.%s", (unsigned long long)u, u % 3 == 0 ? "5" : u % 3 == 1 ? "25" : "999");
      }
      case 3: {
        u &= (1ull << 45) - 1;
        *val = u;
        if (u % 10 == 0 && u) return strf("%llue1", (unsigned long long)(u / 10));
        return strf(u % 2 ? "%llu.0" : "%lluE0", (unsigned long long)u);
      }
      case 4: *bad = true; return strf("-%llu", (unsigned long long)((u & 0xffff) + 1));
      case 5: *bad = true; return strf("\"%llu\"", (unsigned long long)u);
      case 6: *bad = true; return "null";
      case 7: *bad = true; return "1e30";
    }
    return "0";
  }

  static std::string odd_string(uint64_t i) {
    static const std::vector<std::string> p = {
        "https://accounts.example.com/", "/", "//", "HTTPS://Accounts.Example.COM", "User@Example.com", "user@example.com.", "\ttabs\t", "newline at the end\n", "\n",
        "a%2Fb%00c", "a+b", "Bearer abc", ",", "a,b", "['a']", "\"quoted\"", "1", "-1", "1.5", "true", "{}", "[]", "$ref", "a:b", "urn:example:1", ".", "..", ".com", "a..b", "*", "A", std::string(1, 0),
        std::string(15, 'u'), std::string(16, 'v'), std::string(22, 'w'), std::string(23, 'x'), std::string(63, 'y'), std::string(64, 'z'), std::string(127, '1'), std::string(128, '2'), std::string(1024, '3'), "e\xcc\x81", "\xc3\xa9", "\xef\xbb\xbf" "bom", "\xe2\x80\x8b", "a\xc2\xa0",
        "https://accounts.example.com", "user@example.com", "", "a", "\xe2\x98\x83 snow", std::string("nul\0inside", 10),
        "with \"quotes\" and \\slashes\\", "a.b.c", "628645741881-noabiu23f5a8m8ovd8ucv698lj78vv0l@developer" + std::string("\0tail", 5),
        "628645741881-noabiu23f5a8m8ovd8ucv698lj78vv0l" + std::string(1, 0), " blanks around ", "\xf0\x9f\x94\x91 key", "\xef\xbf\xbf\xe2\x80\xa8\xc2\x85",
        std::string(255, 'r'), std::string(256, 's'), std::string(4097, 't'), "e\xcc\x81 and \xc3\xa9", "null", "0", "TRUE", "line\nbreak\r\n", "\x7f\x1f\x01", "{\"alg\":\"none\"}", std::string(700, 'q'), "628645741881-noabiu23f5a8m8ovd8ucv698lj78vv0l@developer"};
    if ((i >> 40) % 3) return p[i % p.size()];
    // or anything at all, of characters that mean something to somebody
    static const char* kPiece[] = {"a", "B", "c", "0", "9", "/", ".", ":", "-", "_", "@", " ", "\t", "\n", "\r", "\"", "\\", "'", ",", "%", "+", "*", "=", "&", "?", "#", "~", "\xc3\xa9", "\xe2\x98\x83", "{", "}", "[", "]", "<", ">", "http://", ".com", "\\u0000"};
    Rng r(i);
    std::string s;
    for (int n = (int)r.geo(0.12, 60); n >= 0; n--) s += r.chance(0.01) ? std::string(1, 0) : std::string(kPiece[r.below(sizeof kPiece / sizeof *kPiece)]);
    return s;
  }

  void op_tok(const Op& o) {
    Token t;
    int id = (int)o.at(0);
    t.mat = (int)(o.at(1) % (int)mats().size());
    const Mat& m = mats()[t.mat];
    t.alg = (int)o.at(2);
    Rng r(o.at(15));
    if (t.alg < 0 || t.alg > 12 || alg_fam(t.alg) != m.fam) t.alg = natural_alg(m, r.next());
    int kid = (int)o.at(3);
    t.has_kid = kid >= 0;
    t.kid = t.has_kid ? kid_pool()[kid % kid_pool().size()] : "";
    int hq = (int)o.at(12), pq = (int)o.at(13), how = (int)o.at(14);
    // header
    std::vector<std::string> h;
    int st = hq & 8 ? 2 : 0;
    h.push_back("\"alg\":" + jquote(kAlgs[t.alg], hq & 16 ? 1 : 0));
    if (((pq >> 12) & 7) == 4) {
      static const char* kBadKid[] = {"5", "null", "true", "[\"k1\"]", "{\"k1\":\"k1\"}"};
      h.push_back(std::string("\"kid\":") + kBadKid[r.below(5)]);
      t.malformed = t.bad_kid = true;
      t.has_kid = true;
      t.kid = "";
    } else if (t.has_kid) {
      h.push_back("\"kid\":" + jquote(t.kid, st));
    }
    if (hq & 1) h.push_back("\"typ\":\"JWT\"");
    if (hq & 2) h.push_back("\"jwk\":{\"kty\":\"oct\",\"k\":\"AAAA\",\"kid\":\"x\"}");
    if (hq & 4) h.push_back("\"x\":[1,\"alg\",{\"alg\":\"none\"}]");
    static const char* kExtra[] = {"", "\"typ\":\"at+jwt\"", "\"typ\":\"jwt\"", "\"typ\":\"JOSE\"", "\"cty\":\"json\"", "\"jku\":\"https://evil.example/jwks\"",
                                  "\"x5u\":\"https://evil.example/crt\"", "\"x5c\":[\"AAAA\"]", "\"x5t\":\"dGVzdA\"", "\"typ\":\"application/jwt\"",
                                  "\"iss\":\"other\",\"exp\":1,\"aud\":\"other\"", "\"kty\":\"oct\",\"crv\":\"P-256\"", "\"typ\":\"\"", "\"x5t#S256\":\"dGVzdA\"",
                                  "\"zip\":\"none\"", "\"Alg\":\"none\",\"KID\":\"k1\"",
                                  "\"keyid\":\"k1\",\"key_id\":\"k1\"", "\"ALG\":\"HS256\"", "\"x\":{\"kid\":\"k1\",\"alg\":\"none\"}", "\"Kid\":\"k1\"", "\"kid \":\"k1\"",
                                  "\"algorithm\":\"none\"", "\"enc\":\"A128GCM\"", "\"nonce\":\"n\"", "\"jwk\":{\"kid\":\"k1\",\"kty\":\"oct\",\"k\":\"AAAA\"}", "\"x.kid\":\"k1\"", "\"ver\":\"1.0\"",
                                  "\"svt\":[\"a\"],\"url\":\"https://x/\"", "\"ppt\":\"shaken\"", "\"iv\":\"AAAA\",\"tag\":\"AAAA\"", "\"PAD\"", "\"PAD\""};
    int hx = (hq >> 6) & 31;
    if (hx && !((hq & 1) && strstr(kExtra[hx], "\"typ\"")) && !((hq & 2) && hx == 24) && !((hq & 4) && hx == 18))
      h.push_back(hx < 30 ? std::string(kExtra[hx]) : r.chance(0.3) ? many_members(r) : "\"pad\":" + jquote(std::string(hx == 30 || r.chance(0.8) ? 300 + r.below(3000) : 48000 + r.below(60000), 'h')));
    if (hq & 32) std::reverse(h.begin(), h.end());
    t.header = "{";
    for (size_t i = 0; i < h.size(); i++) t.header += (i ? (hq & 1 ? " , " : ",") : "") + h[i];
    t.header += "}";
    // payload
    std::vector<std::string> p;
    auto time_claim = [&](const char* n, int mode, int64_t v, uint64_t* val) {
      if (mode <= 0) return;
      bool bad = false;
      std::string s = time_json(mode, v, val, &bad);
      if (bad) t.malformed = t.bad_claim = true;
      p.push_back(strf("\"%s\":", n) + s);
    };
    int mf = (pq >> 12) & 7;  // one of the string claims is something else
    static const char* kNotStr[] = {"5", "null", "true", "[\"a\"]", "{\"a\":\"b\"}", "[]", "1.5"};
    auto str_claim = [&](const char* n, int bit, std::string* v, int style) {
      if (mf == bit) {
        p.push_back(strf("\"%s\":", n) + kNotStr[r.below(7)]);
        t.malformed = t.bad_claim = true;
        return;
      }
      *v = odd_string(r.next());
      p.push_back(strf("\"%s\":", n) + jquote(*v, style));
    };
    time_claim("nbf", (int)o.at(4), o.at(5), &t.nbf);
    time_claim("exp", (int)o.at(6), o.at(7), &t.exp);
    time_claim("iat", (int)o.at(8), o.at(9), &t.iat);
    if ((pq & 1) || mf == 1) str_claim("iss", 1, &t.iss, pq & 32 ? 2 : 0);
    if ((pq & 2) || mf == 2) str_claim("sub", 2, &t.sub, 0);
    if ((pq & 4) || mf == 3) str_claim("jti", 3, &t.jti, 0);
    Rng ar(o.at(11));
    switch ((int)o.at(10)) {
      case 1:
        t.aud.push_back(aud_pool()[(size_t)(o.at(11) & 0xfffff) % aud_pool().size()]);
        p.push_back("\"aud\":" + jquote(t.aud[0], pq & 32 ? 2 : 0));
        break;
      case 2: {
        int n = 1 + (int)ar.geo(0.4, 6);
        if (ar.chance(0.05)) n = (int)(ar.chance(0.1) ? ar.range(500, 5000) : ar.range(20, 300));
        std::string s;
        for (int i = 0; i < n; i++) {
          t.aud.push_back(ar.chance(n > 10 && i < n - 1 ? 0.99 : 0.3) ? strf("other-%d", i) : ar.chance(0.5) ? aud_pool()[((size_t)(o.at(11) >> 20) * 8 + ar.below(8)) % aud_pool().size()] : aud_pool()[ar.below(aud_pool().size())]);
          s += (i ? "," : "") + jquote(t.aud.back());
        }
        p.push_back("\"aud\":[" + s + "]");
        break;
      }
      case 3: p.push_back("\"aud\":[]"); break;
      case 4:
        t.aud.push_back("");
        p.push_back("\"aud\":\"\"");
        break;
      case 5:
        t.malformed = t.bad_claim = true;
        {
          static const char* kBadAud[] = {"[\"example.com\",7]", "{\"a\":1}", "[null]", "[\"example.com\",null]", "[null,\"example.com\"]", "[true,\"example.com\"]",
                                          "[\"example.com\",{\"a\":\"b\"}]", "[[\"example.com\"]]", "[\"svc-a\",[],\"svc-b\"]", "7", "true", "[\"example.com\",1.5,\"svc-a\"]"};
          p.push_back(std::string("\"aud\":") + kBadAud[ar.below(12)]);
        }
        break;
    }
    if (pq & 8) p.push_back("\"scope\":{\"exp\":1,\"aud\":\"svc-a\",\"list\":[true,null,1.5]}");
    switch ((pq >> 8) & 15) {
      case 1: p.push_back("\"pad\":" + jquote(std::string(200 + r.below(900), 'p'))); break;
      case 2: {
        if (r.chance(0.5)) {  // many members next to the registered ones
          for (int i = 0, n = r.pick(std::vector<int>{62, 63, 64, 65, 100, 128, 129, 256, 257, 1000, 3000}); i < n; i++) p.push_back(strf("\"member%d\":%d", i, i));
          break;
        }
        std::string s;
        for (int i = 0; i < 60; i++) s += strf("%s\"claim%d\":\"%llx\"", i ? "," : "", i, (unsigned long long)r.next());
        p.push_back("\"groups\":{" + s + "}");
        break;
      }
      case 3: p.push_back("\"pad\":" + jquote(std::string(20000 + r.below(45000), 'P'))); break;
      case 4: p.push_back("\"pad\":" + jquote(std::string(48000 + r.below(60000), 'P'))); break;
      case 5: {  // the registered names again, in places where they mean nothing
        static const char* kIn[] = {"ext", "act", "cnf", "claims", "data", "realm_access", "vc", "payload", "header", "jwt", "", "0"};
        static const char* kM[] = {"\"jti\":\"in\"", "\"sub\":\"in\"", "\"iss\":\"in\"", "\"aud\":\"svc-a\"", "\"aud\":[\"svc-a\",\"\"]", "\"exp\":1", "\"exp\":4102444800", "\"nbf\":4102444800", "\"iat\":7", "\"kid\":\"k1\"", "\"alg\":\"none\"", "\"act\":{\"sub\":\"deeper\",\"jti\":\"deeper\"}"};
        for (int n = 1 + (int)r.below(3), first = (int)r.below(12); n > 0; n--) {
          std::string in;
          for (int c = 1 + (int)r.below(3), k = (int)r.below(12); c > 0; c--) in += std::string(in.empty() ? "" : ",") + kM[(k + 5 * c) % 12];
          p.push_back(jquote(kIn[(first + n) % 12]) + ":{" + in + "}");
        }
        if (r.chance(0.5)) p.push_back(std::string("\"ext.jti\":\"dot\",\"act.sub\":\"dot\",\"a.exp\":1"));
        break;
      }
      case 6: {  // names that are nearly those
        static const char* kN[] = {"azp", "client_id", "upn", "email", "user_id", "uid", "id", "audience", "audiences", "expires", "expires_at", "expiry", "exp_", "issuer", "subject", "not_before",
                                   "issued_at", "nonce", "EXP", "Exp", "AUD", "Aud", "Iss", "ISS", "SUB", "Sub", "JTI", "NBF", "IAT", " exp", "exp ", "aud ", "auds", "tid", "cid", "appid", "username",
                                   "preferred_username", "resource", "target", "scp", "roles", "iss\\u0000", "exp\\u0000", "auth_time", "updated_at", "nbf.", ".exp", "aud[]", "token_id", "keyid"};
        static const char* kV[] = {"null", "true", "false", "{}", "[]", "[null]", "{\"a\":null}", "\"\"", "-1.5e-7", "1e300", "\"\\u0000\"", "[[],{},\"a\",0]"};
        for (int n = 1 + (int)r.below(o.at(10) == 0 ? 12 : 5), k = (int)r.below(51); n > 0; n--, k = (k + 11) % 51)
          p.push_back("\"" + std::string(kN[k]) + "\":" + (o.at(10) == 0 && r.chance(0.5) ? jquote(aud_pool()[((size_t)(o.at(11) >> 20) * 8 + r.below(8)) % aud_pool().size()])
                                                            : r.chance(0.25) ? std::string(kV[r.below(12)]) : r.chance(0.4) ? "1" : r.chance(0.4) ? "4102444800" : r.chance(0.3) ? "[\"svc-a\"]" : r.chance(0.5) ? "\"svc-a\"" : "\"near\""));
        break;
      }
      case 7: {
        int n = 5 + (int)r.below(25);
        std::string s = "\"exp\"";
        for (int i = 0; i < n; i++) s = r.chance(0.5) ? "[" + s + "]" : "{\"sub\":" + s + "}";
        p.push_back("\"deep\":" + s);
        break;
      }
    }
    for (const char* n : {"iss", "sub", "jti", "aud", "nbf", "exp", "iat"})
      for (auto& x : p)
        if (x.compare(0, strlen(n) + 3, strf("\"%s\":", n)) == 0) t.members.insert(n);
    if (pq & 16) std::reverse(p.begin(), p.end());
    t.payload = "{";
    for (size_t i = 0; i < p.size(); i++) t.payload += (i ? "," : "") + p[i];
    t.payload += pq & 4 ? " }" : "}";
    if (hx & 1) {  // white space around either document
      static const char* kWs[] = {" ", "\n", "\t", "\r\n", "  \n", " \t\r\n "};
      for (std::string* d : {&t.header, &t.payload}) {
        if (r.chance(0.3)) d->insert(0, kWs[r.below(6)]);
        if (r.chance(0.3)) *d += kWs[r.below(6)];
      }
    }
    std::string text = b64u(t.header) + "." + b64u(t.payload);
    t.sig = sign(m, t.alg, text, o.at(15), how);
    if (t.sig.empty()) return;
    t.text = text + "." + b64u(t.sig);
    t.genuine = true;
    bool proper = alg_proper(t.alg, m) && !(m.fam == RSA_F && alg_pss(t.alg) && how >= 3);
    add_ledger(text, Entry{t.mat, t.alg, t.sig, proper, id});
    run.stat("op.issue");
    run.logf("tok %d %s by %s: %016llx", id, kAlgs[t.alg].c_str(), m.name.c_str(), (unsigned long long)hash_str(t.text));
    toks[id] = std::move(t);
  }

  void op_forge(const Op& o) {
    auto it = toks.find(o.at(2));
    if (it == toks.end()) return;
    const Token& b = it->second;
    int kind = (int)o.at(1);
    Rng r(o.at(4));
    const Mat& m = mats()[b.mat];
    const Mat& other = mats()[o.at(3) % (int)mats().size()];
    Token t = b;
    t.genuine = false;
    // Another encoding of the same token, signed as it stands: damage on the
    // way can restore just that encoding, and it may then be taken or refused.
    auto signed_anyway = [&](const std::string& w, const std::string& sg) {
      size_t d = w.find('.');
      if (d == std::string::npos || b64_lenient(w.substr(0, d)) != b.header || b64_lenient(w.substr(d + 1)) != b.payload) return;
      add_ledger(w, Entry{b.mat, b.alg, sg, false, (int)o.at(2)});
    };
    std::string pay = b64u(b.payload);
    auto header = [&](const std::string& alg) {
      std::string h = "{\"alg\":" + jquote(alg);
      if (b.has_kid) h += ",\"kid\":" + jquote(b.kid);
      return b64u(h + "}");
    };
    std::string h = b64u(b.header), sig = b.sig;
    std::string text = h + "." + pay;
    switch (kind) {
      case 0: h = header(r.chance(0.7) ? "none" : "None"); sig = ""; break;
      case 1: h = header("none"); break;
      case 2: {  // another holder's key under this key's id: genuine, but by somebody else
        int a = natural_alg(other, r.next());
        h = header(kAlgs[a]);
        t.genuine = true;
        t.mat = (int)(o.at(3) % (int)mats().size());
        t.alg = a;
        t.header = b64_lenient(h);
        t.malformed = b.bad_claim;  // the header is a new one
        if (b.bad_kid) t.has_kid = true, t.kid = "";
        t.sig = sig = sign(other, a, h + "." + pay, r.next());
        add_ledger(h + "." + pay, Entry{t.mat, a, sig, true, (int)o.at(0)});
        break;
      }
      case 3: {  // the public key used as a shared secret
        int a = 9 + (int)r.below(3);
        if (m.fam == OCT_F) return;
        h = header(kAlgs[a]);
        std::string secrets[] = {m.pub_pem, m.n + m.x + m.raw, b64u(m.n + m.x + m.raw), "", m.pub_pem.substr(0, m.pub_pem.size() - 1), b.kid,
                                 m.fam == EC_F ? m.x + m.y : m.crt_pem};
        sig = hmac(a, secrets[r.below(7)], h + "." + pay);
        break;
      }
      case 4: {  // names one algorithm, signed with another of the same family
        if (m.fam == OKP_F) return;
        int lo = m.fam == RSA_F ? 0 : m.fam == EC_F ? 6 : 9, n = m.fam == RSA_F ? 6 : 3;
        int a = lo + (int)r.below(n), s = lo + (int)r.below(n);
        if (m.fam == RSA_F && r.chance(0.5)) s = (a + 3) % 6;  // the other padding, the same hash
        if (a == s) return;
        h = header(kAlgs[a]);
        sig = sign(m, s, h + "." + pay, r.next());
        if (sig.empty()) return;
        break;
      }
      case 5: {  // names an algorithm of another family
        int a = (int)r.below(13);
        if (alg_fam(a) == m.fam) return;
        h = header(kAlgs[a]);
        int s = m.fam == RSA_F ? (r.chance(0.5) ? 0 : a % 3) : m.fam == EC_F ? 6 + a % 3 : m.fam == OCT_F ? 9 + a % 3 : 12;
        if (r.chance(0.5)) s = m.fam == EC_F ? 6 : m.fam == OCT_F ? 9 : s;
        sig = sign(m, s, h + "." + pay, r.next());
        if (sig.empty()) return;
        break;
      }
      case 6: {  // a signature over some other text
        std::string texts[] = {"", h, pay, text + ".", h + ".." + pay, pay + "." + h, b.header + "." + b.payload, text.substr(1),
                               text.substr(0, text.size() - 1), h + pay, "." + text, b.payload, b64u(b.header + "." + b.payload)};
        std::string w = texts[r.below(13)];
        sig = sign(m, b.alg, w, r.next());
        if (sig.empty()) return;
        signed_anyway(w, sig);
        break;
      }
      case 7:
        if (m.fam == EC_F) sig = ec_zero_digest_forgery(m, r.next());
        else if (m.fam == OCT_F) sig = r.chance(0.4) ? "" : std::string(r.chance(0.5) ? b.sig.size() : 64, 0);
        else sig = r.chance(0.5) ? std::string(b.sig.size(), 0) : std::string(b.sig.size() - 1, 0) + "\x01";
        break;
      case 8:
        if (m.fam != EC_F) return;
        sig = ec_to_der(m, b.sig);
        break;
      case 9: {
        if (m.fam != EC_F) return;
        std::string z(1 + r.below(3), 0);
        sig = z + b.sig.substr(0, m.order) + z + b.sig.substr(m.order);
        break;
      }
      case 10: {
        switch (r.below(5)) {
          case 0: sig += (char)r.below(256); break;
          case 1: sig.insert(0, 1, (char)0); break;
          case 2: sig += sig; break;
          case 3: sig.pop_back(); break;
          default: sig.erase(0, 1);
        }
        break;
      }
      case 11: sig.resize(r.below(sig.size())); break;
      case 12:
        if (m.fam != OKP_F) return;
        sig = ed_add_l(sig);
        break;
      case 13: {  // other representatives and reshuffles of the bytes
        if (m.fam == RSA_F) {
          BIGNUM* s = BN_bin2bn((const uint8_t*)sig.data(), sig.size(), nullptr);
          BN_add(s, s, RSA_get0_n(m.rsa));
          sig = bnstr(s);
          BN_free(s);
        } else {
          std::reverse(sig.begin(), sig.end());
        }
        break;
      }
      case 14: h = header(badalg_pool()[r.below(badalg_pool().size())]); sig = sign(m, b.alg, h + "." + pay, r.next()); break;
      case 15: {
        static const char* kH[] = {"{}", "{\"alg\":7}", "{\"alg\":null}", "{\"alg\":[\"RS256\"]}", "{\"ALG\":\"RS256\"}", "[]", "\"RS256\"",
                                   "{\"alg\":{\"alg\":\"RS256\"}}"};
        h = b64u(kH[r.below(8)]);
        sig = sign(m, b.alg, h + "." + pay, r.next());
        break;
      }
      case 16: {  // altered claims, old signature
        std::string p = b.payload;
        size_t i = p.find(':');
        if (i == std::string::npos) return;
        p.insert(1, "\"exp\":99999999999,");
        pay = b64u(p);
        break;
      }
      case 17: {
        if (m.fam != EC_F) return;
        std::string zero(m.order, 0), one = zero, n = std::string();
        one.back() = 1;
        n = bnstr(EC_GROUP_get0_order(EC_KEY_get0_group(m.ec)));
        n = std::string(m.order - n.size(), 0) + n;
        std::string c[] = {zero, one, n, b.sig.substr(0, m.order), b.sig.substr(m.order)};
        sig = c[r.below(5)] + c[r.below(5)];
        break;
      }
      case 18: {  // this text with a signature from elsewhere in the ledger
        auto l = ledger.begin();
        std::advance(l, r.below(ledger.size()));
        sig = l->second[0].sig;
        break;
      }
      case 20: {  // the genuine signature cut or stretched to a length that means something
        size_t sizes[] = {16, 20, 28, 32, 48, 64, 96, 128, 132, 256, 512, sig.size() / 2, sig.size() - 1, sig.size() + 1, sig.size() * 2};
        size_t n = sizes[r.below(15)];
        if (n == sig.size()) return;
        std::string f;
        switch (r.below(4)) {
          case 0: f = std::string(n, 0); break;
          case 1: f = std::string(n, (char)0xff); break;
          case 2: while (f.size() < n) f += sig; break;
          default: for (size_t i = 0; i < n; i++) f += (char)r.below(256);
        }
        if (n < sig.size()) sig = r.chance(0.7) ? sig.substr(0, n) : sig.substr(sig.size() - n);
        else if (r.chance(0.7)) sig += f.substr(0, n - sig.size());
        else sig = f.substr(0, n - sig.size()) + sig;
        break;
      }
      case 21: {  // right length, part of the genuine bytes
        size_t n = sig.size(), keep = r.chance(0.5) ? n / 2 : r.chance(0.5) ? n - 1 - r.below(std::min<size_t>(n - 1, 4)) : r.below(n);
        std::string o(n, 0);
        int fill = (int)r.below(3);
        for (auto& c : o) c = fill == 0 ? 0 : fill == 1 ? (char)0xff : (char)r.below(256);
        if (r.chance(0.5)) o.replace(0, keep, sig, 0, keep);
        else o.replace(n - keep, keep, sig, n - keep, keep);
        if (o == sig) return;
        sig = o;
        break;
      }
      case 22: {  // a secret that resembles the real one
        if (m.fam != OCT_F) return;
        const std::string& k = m.raw;
        std::string c[] = {k.substr(0, k.find('\0')), k.substr(0, 16), k.substr(0, 32), k.substr(0, 64), k.substr(0, k.size() - 1), k + "=",
                           k + "\n", k + k, b64u(k), b64(k), k.substr(1), std::string(k.rbegin(), k.rend()), std::string(k.size(), 0), std::string("a"), k.substr(0, 128), b64_lenient(k), k.substr(k.find_first_not_of(" \t\r\n") == std::string::npos ? 0 : k.find_first_not_of(" \t\r\n")),
                           k.substr(0, k.find_last_not_of(" \t\r\n") + 1), k.substr(k.find_first_not_of('\0') == std::string::npos ? 0 : k.find_first_not_of('\0'))};
        const std::string& w = c[r.below(19)];
        if (w == k || (w.size() < 64 && k.size() < 64 && std::string(w).append(64 - w.size(), 0) == std::string(k).append(64 - k.size(), 0))) return;
        sig = hmac(b.alg, w, text);
        break;
      }
      case 23: {  // R and S out of place
        if (m.fam != EC_F) return;
        std::string rr = b.sig.substr(0, m.order), ss = b.sig.substr(m.order), z(m.order, 0);
        std::string c[] = {ss + rr, rr + rr, ss + ss, rr, ss, z + rr + ss, rr + ss + z, rr + z + ss, z + rr + z + ss};
        sig = c[r.below(9)];
        if (sig == b.sig) return;
        break;
      }
      case 24: {  // signed over the decoded text, or another encoding of it
        std::string texts[] = {b.header + b.payload, b64(b.header) + "." + b64(b.payload), h + "." + b.payload, b.header + "." + pay,
                               h + "." + pay + "\n", h + "." + pay + std::string(1, 0), std::string(1, 0) + text, text + "." + b64u(b.sig)};
        std::string w = texts[r.below(8)];
        if (w == text) return;
        sig = sign(m, b.alg, w, r.next());
        if (sig.empty()) return;
        signed_anyway(w, sig);
        break;
      }
      case 27: {  // the number without its leading zeros
        if (m.fam != RSA_F) return;
        for (int i = 0; i < 300 && (sig.empty() || sig[0]); i++) {
          text = b64u(b.header + std::string(i, ' ')) + "." + pay;
          h = b64u(b.header + std::string(i, ' '));
          sig = sign(m, b.alg, text, r.next());
        }
        if (sig.empty() || sig[0]) return;
        sig = strip0(sig);
        break;
      }
      case 28: {  // a signature over nothing, or over part of the text
        bool longer = r.chance(0.6);  // enough for a count of its bytes to be cut off
        if (longer) {
          static const int kLong[] = {300, 1100, 4200, 16500, 66000, 66000};
          h = b64u(b.header + std::string(kLong[r.below(6)] * 3 / 4 + r.below(50), ' '));
          text = h + "." + pay;
        }
        size_t n = text.size(), top = 1;
        while (top * 2 <= n) top *= 2;
        std::string w;
        if (longer && r.chance(0.7)) {
          w = text.substr(0, r.chance(0.5) ? top : n & (top - 1));
        } else if (r.chance(0.7)) {
          std::string parts[] = {h, h + ".", pay, "." + pay, text.substr(0, n & 0xff), text.substr(0, n & 0xfff), text.substr(0, std::min<size_t>((size_t)256 << r.below(9), n / 2)), text.substr(0, n - 1)};
          w = parts[r.below(8)];
        }
        if (w == text) return;
        sig = sign(m, b.alg, w, r.next());
        if (sig.empty()) return;
        break;
      }
      default: {  // altered header, re-used signature
        std::string hh = b.header;
        hh.insert(1, r.chance(0.5) ? "\"kid\":\"k1\"," : " ");
        h = b64u(hh);
      }
    }
    t.text = h + "." + pay + "." + b64u(sig);
    if (!t.genuine) t.header = "";
    run.stat("op.forge");
    run.stat(strf("forge.%d", kind));
    run.logf("forge %lld kind %d: %016llx", (long long)o.at(0), kind, (unsigned long long)hash_str(t.text));
    toks[o.at(0)] = std::move(t);
  }

  std::string mutate(const std::string& s0, int kind, uint64_t seed) {
    Rng r(seed);
    std::string s = s0;
    auto pos = [&] { return s.empty() ? (size_t)0 : (size_t)r.below(s.size()); };
    auto dots = [&] {
      std::vector<size_t> d;
      for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '.') d.push_back(i);
      return d;
    };
    auto parts = [&] {
      std::vector<std::string> p(1);
      for (char c : s) {
        if (c == '.') p.emplace_back();
        else p.back() += c;
      }
      p.resize(std::max<size_t>(3, p.size()));
      return p;
    };
    auto rnd_tok = [&]() -> const Token& {
      auto it = toks.begin();
      std::advance(it, r.below(toks.size()));
      return it->second;
    };
    static const char kAl[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    auto join = [](const std::vector<std::string>& p) {
      std::string o;
      for (size_t i = 0; i < p.size(); i++) o += (i ? "." : "") + p[i];
      return o;
    };
    std::vector<std::string> p;
    switch (kind) {
      case 1: if (!s.empty()) s[pos()] ^= (char)(1 << r.below(8)); break;
      case 2: if (!s.empty()) s[pos()] = kAl[r.below(64)]; break;
      case 3: if (!s.empty()) s.erase(pos(), 1 + r.below(3)); break;
      case 4: s.insert(pos(), 1, kAl[r.below(64)]); break;
      case 5: s.resize(pos()); break;
      case 6: s.erase(0, pos()); break;
      case 7: {  // more parts than three, at either end
        p = parts();
        bool front = r.chance(0.2);
        for (int n = r.chance(0.4) ? 1 : 1 + (int)r.below(5); n > 0; n--) {
          std::string x = r.chance(0.4) ? p[r.below(3)] : std::string(r.below(6), 'A');
          if (x.size() < 6)
            for (char& c : x) c = kAl[r.below(64)];
          p.insert(front ? p.begin() : p.end(), x);
        }
        s = join(p);
        break;
      }
      case 8: p = parts(); std::swap(p[r.below(3)], p[r.below(3)]); s = join(p); break;
      case 9: p = parts(); p[2] = ""; s = join(p); break;
      case 10: s += "."; break;
      case 11: { auto d = dots(); if (!d.empty()) s.insert(d[r.below(d.size())], std::string(1 + r.below(2), '.')); break; }
      case 12: s.insert(0, "."); break;
      case 13: s += std::string(1 + r.below(3), '='); break;
      case 14: s.insert(pos(), 1, " \t\n\r\f\v"[r.below(6)]); break;
      case 15: s += "\n"; break;
      case 16: if (!s.empty()) { size_t i = pos(); if (isalpha((unsigned char)s[i])) s[i] ^= 32; } break;
      case 17: { p = parts(); auto q = p; s = rnd_tok().text; q = parts(); int w = (int)r.below(3); p[w] = q[w]; s = join(p); break; }
      case 18: {  // other spellings of the last character of a section
        p = parts();
        int w = r.chance(0.7) ? 2 : (int)r.below(2);
        if (!p[w].empty()) {
          std::string dec = b64_lenient(p[w]);
          for (int t = 0; t < 64; t++) {
            std::string alt = p[w];
            alt.back() = kAl[r.below(64)];
            if (alt != p[w] && b64_lenient(alt) == dec) {
              p[w] = alt;
              break;
            }
          }
        }
        s = join(p);
        break;
      }
      case 19: s.insert(0, "Bearer "); break;
      case 20: s.insert(pos(), 1, (char)0); break;
      case 21: s.insert(pos(), 1, (char)(128 + r.below(128))); break;
      case 22: s = s + s; break;
      case 23: { std::string x(r.below(300), 0); for (char& c : x) c = (char)r.below(256); s = x; break; }
      case 24: {  // another payload under the same signature
        p = parts();
        std::string pl = b64_lenient(p[1]);
        size_t i = pl.find_first_of("0123456789");
        if (i != std::string::npos) pl[i] = (char)('0' + (pl[i] - '0' + 1) % 10);
        p[1] = b64u(pl);
        s = join(p);
        break;
      }
      case 25: {  // same header JSON, padded or respaced
        p = parts();
        int w = (int)r.below(2);
        std::string j = b64_lenient(p[w]);
        p[w] = r.chance(0.5) ? b64u(j + " ") : b64(j);
        s = join(p);
        break;
      }
      case 26: {  // mirrored elliptic-curve signature
        p = parts();
        for (auto& kv : ledger)
          if (kv.first == p[0] + "." + p[1] && mats()[kv.second[0].mat].fam == EC_F)
            p[2] = b64u(ec_twin(mats()[kv.second[0].mat], kv.second[0].sig));
        s = join(p);
        break;
      }
      case 27: {  // change bytes inside the decoded signature
        p = parts();
        std::string sig = b64_lenient(p[2]);
        if (!sig.empty()) sig[r.below(sig.size())] ^= (char)(1 << r.below(8));
        p[2] = b64u(sig);
        s = join(p);
        break;
      }
      case 28: {  // header altered: another algorithm or key id
        p = parts();
        std::string j = b64_lenient(p[0]);
        size_t i = j.find("\"alg\":\"");
        if (i != std::string::npos && i + 12 <= j.size()) {
          std::string a = kAlgs[r.below(13)];
          size_t e = j.find('"', i + 7);
          if (e != std::string::npos) j = j.substr(0, i + 7) + a + j.substr(e);
        }
        p[0] = b64u(j);
        s = join(p);
        break;
      }
      case 29: p = parts(); p[2] = b64(b64_lenient(p[2])); s = join(p); break;
      case 30: {  // a burst of damage
        for (int i = 0; i < 8 && !s.empty(); i++) s[pos()] = (char)r.below(256);
        break;
      }
      // more than anybody would send who means well
      case 31: {  // one part of millions of characters
        p = parts();
        std::string big(r.chance(0.5) ? 12000000 : 1000000 + r.below(9000000), 'A');
        for (int i = 0; i < 200; i++) big[r.below(big.size())] = kAl[r.below(64)];
        p[r.below(3)] = big;
        s = join(p);
        break;
      }
      case 32: s.assign(1000000 + r.below(9000000), '.'); break;
      case 33: {  // a key id of millions of characters
        p = parts();
        p[0] = b64u("{\"alg\":\"HS256\",\"kid\":\"" + std::string(1000000 + r.below(5000000), 'k') + "\"}");
        s = join(p);
        break;
      }
      case 34: {  // a hundred thousand audiences
        p = parts();
        std::string a = "{\"aud\":[\"a\"";
        for (int i = 0; i < 100000; i++) a += ",\"https://a/\"";
        p[1] = b64u(a + "]}");
        s = join(p);
        break;
      }
    }
    return s;
  }

  // How far does the ledger back this text?
  enum Back { NEVER, MAY, MUST };
  struct Backing {
    Back b = NEVER;
    std::vector<const Entry*> must, may;
    int tok = -1;
  };
  Backing backing(const std::string& text) {
    Backing out;
    size_t d1 = text.find('.');
    if (d1 == std::string::npos) return out;
    size_t d2 = text.find('.', d1 + 1);
    if (d2 == std::string::npos || text.find('.', d2 + 1) != std::string::npos) return out;
    auto it = ledger.find(text.substr(0, d2));
    if (it == ledger.end()) return out;
    std::string s = text.substr(d2 + 1), dec;
    bool strict = b64u_strict(s, &dec);
    std::string len = b64_lenient(s);
    for (auto& e : it->second) {
      if (strict && dec == e.sig) {
        (e.proper ? out.must : out.may).push_back(&e);
        out.tok = e.tok;
      } else if (len == e.sig) {
        out.may.push_back(&e);
        out.tok = e.tok;
      } else if (mats()[e.mat].fam == EC_F && len.size() == e.sig.size() && len == ec_twin(mats()[e.mat], e.sig)) {
        out.may.push_back(&e);
        out.tok = e.tok;
      }
    }
    out.b = !out.must.empty() ? MUST : !out.may.empty() ? MAY : NEVER;
    return out;
  }

  static bool eligible(const KeyModel& k, const std::string& kid, const std::string& alg) {
    if (!kid.empty() && !k.kid.empty() && kid != k.kid) return false;
    return k.alg.empty() || k.alg == alg;
  }

  static std::string sanitized(const std::string& a) {
    std::string s = a;
    if (s.compare(0, 7, "http://") == 0) s = s.substr(7);
    else if (s.compare(0, 8, "https://") == 0) s = s.substr(8);
    if (!s.empty() && s.back() == '/') s.pop_back();
    return s;
  }
  static bool aud_ok(const std::vector<std::string>& conf, const std::vector<std::string>& tok) {
    if (conf.empty()) return true;
    for (auto& c : conf)
      for (auto& t : tok)
        if (sanitized(c) == sanitized(t)) return true;
    return false;
  }
  static Status time_verdict(uint64_t nbf, uint64_t exp, uint64_t now, uint64_t skew) {
    if ((wide)now + skew < (wide)nbf) return Status::JwtNotYetValid;
    if (exp && (wide)now > (wide)exp + skew) return Status::JwtExpired;
    return Status::Ok;
  }

  static std::string pb_text(const google::protobuf::Struct& s) {
    std::string out;
    {
      google::protobuf::io::StringOutputStream os(&out);
      google::protobuf::io::CodedOutputStream cos(&os);
      cos.SetSerializationDeterministic(true);
      s.SerializeToCodedStream(&cos);
    }
    return out;
  }
  // First difference between two token objects ("" if none).
  static std::string jwt_diff(const Jwt& a, const Jwt& b) {
#define CMP(f) \
  if (a.f != b.f) return #f;
    CMP(jwt_) CMP(header_str_) CMP(header_str_base64url_) CMP(payload_str_) CMP(payload_str_base64url_) CMP(signature_)
    CMP(alg_) CMP(kid_) CMP(iss_) CMP(audiences_) CMP(sub_) CMP(iat_) CMP(nbf_) CMP(exp_) CMP(jti_)
#undef CMP
    if (pb_text(a.header_pb_) != pb_text(b.header_pb_)) return "header_pb_";
    if (pb_text(a.payload_pb_) != pb_text(b.payload_pb_)) return "payload_pb_";
    return "";
  }
  static std::string claims_diff(const Jwt& j, const Token& t, const std::string& text) {
    if (j.jwt_ != text) return "text";
    if (j.alg_ != kAlgs[t.alg]) return "algorithm";
    if (j.kid_ != t.kid) return "key id";
    if (j.iss_ != t.iss) return "issuer";
    if (j.sub_ != t.sub) return "subject";
    if (j.jti_ != t.jti) return "token id";
    if (j.audiences_ != t.aud) return strf("audiences (%zu, signed %zu)", j.audiences_.size(), t.aud.size());
    if (j.iat_ != t.iat) return strf("issued-at %llu, signed %llu", (unsigned long long)j.iat_, (unsigned long long)t.iat);
    if (j.nbf_ != t.nbf) return strf("not-before %llu, signed %llu", (unsigned long long)j.nbf_, (unsigned long long)t.nbf);
    if (j.exp_ != t.exp) return strf("expiry %llu, signed %llu", (unsigned long long)j.exp_, (unsigned long long)t.exp);
    if (j.header_str_ != t.header) return "header document";
    if (j.payload_str_ != t.payload) return "payload document";
    const auto& hf = j.header_pb_.fields();
    auto it = hf.find("alg");
    if (it == hf.end() || it->second.string_value() != kAlgs[t.alg]) return "header alg member";
    if (hf.count("kid") != (t.has_kid ? 1 : 0)) return "header kid member";
    const auto& pf = j.payload_pb_.fields();
    size_t dummy = 0;
    for (const char* n : {"iss", "sub", "jti", "aud", "nbf", "exp", "iat"})
      if (pf.count(n) != t.members.count(n)) dummy++;
    if (dummy) return "payload members";
    // the documents as they can be looked into, against a reading of what was signed
    if (t.header.size() + t.payload.size() < 100000) {
      google::protobuf::Struct h, p;
      if (google::protobuf::util::JsonStringToMessage(t.header, &h).ok() && pb_text(h) != pb_text(j.header_pb_)) return "header document's members";
      if (google::protobuf::util::JsonStringToMessage(t.payload, &p).ok() && pb_text(p) != pb_text(j.payload_pb_)) return "payload document's members";
    }
    return "";
  }

  // ------------------------------------------------------------- deliver
  void op_dlv(const Op& o) {
    bool fault = take_fault();
    auto it = toks.find(o.at(0));
    if (it == toks.end()) return;
    Ver& v = vers[o.at(1) & 3];
    if (!v.jwks) return;
    int entry = (int)o.at(2) & 7, mut = (int)o.at(5);
    std::string text = it->second.text;
    if (mut) {
      text = mutate(text, mut, o.at(6));
      run.stat("net.corrupt");
      run.stat(strf("mut.%d", mut));
    }
    deliver(text, v, entry, (uint64_t)o.at(3), (uint64_t)o.at(4), (int)o.at(7), (int)o.at(8), (int)o.at(9), o.at(10), fault, mut);
  }

  void deliver(const std::string& text, Ver& v, int entry, uint64_t now, uint64_t skew, int reps, int objmode, int flags,
               int64_t tick, bool fault, int tag) {
    Backing bk = backing(text);
    const Token* tk = bk.tok >= 0 ? &toks[bk.tok] : nullptr;
    if (tk && (tk->header.empty() || !tk->genuine)) tk = nullptr;
    const Token* claims = tk;  // what was signed in this text
    bool wall = entry == 0 || entry == 3;
    bool timed = entry != 5 && entry != 6;
    bool auded = entry == 3 || entry == 4 || entry == 6;
    bool sigd = entry < 6;
    if (entry != 2 && entry != 7) skew = 60;
    reps = std::max(1, std::min(3, reps));
    run.stat("op.deliver");
    run.stat(strf("entry.%d", entry));

    int first_parse = -1, first_ver = -1;
    LeakWatch leak;
    for (int rep = 0; rep < reps || (reps == 3 && objmode != 1 && !run.stop() && leak.more()); rep++) {
      Status ps = Status::Ok, vs = Status::Ok;
      bool verified = false;
      set_clock(v, tick);
      int64_t clock0 = g_clock.real_ns, mono0 = g_clock.mono_ns;
      bool clean = ERR_peek_error() == 0;
      AllocCounts a0 = allocs();
      Call c;
      std::string cdiff, odiff;
      bool reused = objmode != 0;
      {
        Jwt local, source;
        Jwt* obj = &local;
        std::unique_ptr<Jwt> copy;
        if (objmode == 1) obj = &v.pooled;
        if (objmode == 3) {
          LibScope s;
          local.parseFromString(v.pooled.jwt_);
        }
        c = call(fault, [&] {
          if (objmode == 2) {
            ps = source.parseFromString(text);
            copy.reset(new Jwt(source));
            obj = copy.get();
          } else {
            ps = obj->parseFromString(text);
          }
          if (ps == Status::Ok || (flags & 1)) {
            verified = true;
            vs = ask(*obj, *v.jwks, v.aud, v.checker.get(), entry, now, skew, flags);
          }
        });
        bool residue = clean && ERR_peek_error() != 0;
        if (residue && !c.threw) {
          run.violate("V08", "error-queue", "after a parse-and-verify with status %d/%d the thread's crypto error queue holds error %08x",
                      (int)ps, (int)vs, (unsigned)ERR_peek_error());
        }
        if (clean) ERR_clear_error();
        bool accepted = !c.threw && verified && ps == Status::Ok && vs == Status::Ok;
        if (claims && !c.threw && ps == Status::Ok && !claims->malformed && entry < 6 && accepted) cdiff = claims_diff(*obj, *claims, text);
        if (reused && !c.threw && !c.fired) {
          Jwt fresh;
          Status fs = fresh.parseFromString(text);
          if (fs != ps) odiff = "the parse status";
          else odiff = jwt_diff(*obj, fresh);
        }
      }
      AllocCounts a1 = allocs();
      // what was noted down here is not the library's
      bool noted = !cdiff.empty() || !odiff.empty() || !c.what.empty();
      leak.add(noted ? 0 : a1.live_new - a0.live_new, a1.live_ossl - a0.live_ossl);
      int64_t clock1 = g_clock.reads ? g_clock.real_ns - g_clock.step_real : clock0;
      int pcode = c.threw ? 900 : (int)ps, vcode = c.threw ? 900 : verified ? (int)vs : 901;
      run.logf("dlv %016llx entry=%d mut=%d obj=%d fired=%lld parse=%d verify=%d", (unsigned long long)hash_str(text), entry, tag, objmode,
               (long long)c.fired, pcode, vcode);
      if (c.threw) {
        if (!(c.bad_alloc && c.fired))
          run.violate("V07 V11", "verify-exception", "parse-and-verify ended in an exception: %s", c.bad_alloc ? "bad_alloc" : c.what.c_str());
        run.stat("verdict.exception");
        run.state(mix(10, hash_str(g_fault.last)));
        continue;
      }
      if (first_parse < 0) {
        first_parse = pcode;
        first_ver = vcode;
      } else if (!fault && (first_parse != pcode || first_ver != vcode)) {
        run.violate("V08", "verdict-changed", "the same call gives parse/verify status %d/%d first and %d/%d when repeated", first_parse,
                    first_ver, pcode, vcode);
      }

      if ((flags & 16) && rep == reps - 1 && !c.fired && v.remakable) {
        int64_t pure = pristine(text, v, entry, now, skew, flags, clock0, mono0, tick);
        if (pure >= 0) {
          run.stat("oracle.pristine");
          if (pure != (int64_t)pcode * 1000 + vcode)
            run.violate(reused ? "V08 V10" : "V08", "verdict-depends-on-past",
                        "parse/verify status %d/%d here, after other calls; %d/%d for the same token, keys and time in a process that has made no other call", pcode, vcode,
                        (int)(pure / 1000), (int)(pure % 1000));
        }
      }
      bool accepted = verified && ps == Status::Ok && vs == Status::Ok;
      if (verified && ps != Status::Ok && vs == Status::Ok && sigd)
        run.violate("V11", "failed-parse-verifies", "the parse failed with status %d but the token object verifies successfully", (int)ps);
      if (!cdiff.empty()) run.violate(std::string("V12") + (reused ? " V10" : "") + (c.fired ? " V07" : ""), "claims", "an accepted token shows other claims than were signed%s: %s", c.fired ? " (with failures injected)" : "", cdiff.c_str());
      if (!odiff.empty())
        run.violate("V10", "object-differs", "a %s token object differs from a fresh parse of the same text: %s",
                    objmode == 2 ? "copied" : "reused", odiff.c_str());

      judge(text, v, entry, now, skew, wall, timed, auded, sigd, bk, claims, c.fired, reused, clock0, clock1, ps, verified, vs, accepted,
            tag);
    }
    if (reps == 3 && objmode != 1 && !run.stop() && leak.found())
      run.violate("V08", "leak", "every repetition of a parse-and-verify%s keeps %lld C++ and %lld crypto allocations",
                  fault ? " under failures" : "", (long long)leak.last_new, (long long)leak.last_ossl);
  }

  void judge(const std::string& text, Ver& v, int entry, uint64_t now, uint64_t skew, bool wall, bool timed, bool auded, bool sigd,
             const Backing& bk, const Token* claims, int64_t fired, bool reused, int64_t clock0, int64_t clock1, Status ps, bool verified,
             Status vs, bool accepted, int tag) {
    // --- the model's verdict
    bool malformed = claims && claims->malformed;
    // time
    std::set<int> time_set;  // possible time verdicts
    if (timed && claims) {
      if (!wall) {
        time_set.insert((int)time_verdict(claims->nbf, claims->exp, now, skew));
      } else {
        auto sec = [](int64_t ns) -> uint64_t {
          if (ns < 0) return 0;
          return (uint64_t)(ns / 1000000000);
        };
        uint64_t a = sec(clock0), b = sec(clock1);
        if (b < a) b = a;
        for (uint64_t s = a; s <= b && s < a + 10; s++) time_set.insert((int)time_verdict(claims->nbf, claims->exp, s, 60));
      }
    } else {
      time_set.insert((int)Status::Ok);
    }
    bool time_can_ok = time_set.count((int)Status::Ok), time_must_ok = time_can_ok && time_set.size() == 1;
    bool audok = !auded || !claims || aud_ok(v.aud, claims->aud);
    // signature
    bool any_eligible = false, key_must = false, key_may = false, mat_present = false;
    int eligible_n = 0, pos = -1;
    if (sigd && claims) {
      for (size_t i = 0; i < v.keys.size(); i++) {
        const KeyModel& k = v.keys[i];
        bool el = eligible(k, claims->kid, kAlgs[claims->alg]);
        any_eligible |= el;
        eligible_n += el;
        for (auto* e : bk.must)
          if (e->mat == k.mat) {
            mat_present = true;
            if (el) key_must = true, pos = (int)i;
          }
        for (auto* e : bk.may)
          if (e->mat == k.mat) {
            mat_present = true;
            if (el) key_may = true;
          }
      }
    }
    int vcode = verified ? (int)vs : 901;
    run.state(mix(mix(mix(20 + entry, tag), mix(vcode, (int)bk.b * 16 + time_can_ok * 8 + audok * 4 + key_must * 2 + key_may)),
                  mix(claims ? claims->alg : 99, mix(std::min(eligible_n, 4) * 8 + std::min(pos + 1, 6), fired ? hash_str(g_fault.last) : 0))));
    run.stat(accepted ? "verdict.accept" : "verdict.refuse");
    if (ps != Status::Ok) run.stat("verdict.parse_refuse");

    const char* fz = fired ? " (with failures injected)" : "";
    std::string ff = fired ? " V07" : "";
    // --- direct entries
    if (entry == 6) {
      if (!verified || ps != Status::Ok || !claims || malformed) return;
      bool allowed = vs == Status::Ok;
      if (allowed != audok && !(fired && !allowed))
        run.violate("V06" + (allowed ? ff : "") + (reused ? " V10" : ""), allowed ? "aud-accept" : "aud-refuse", "audience check says %d, should say %d%s", allowed, audok, fz);
      return;
    }
    if (entry == 7) {
      if (!verified || ps != Status::Ok || !claims || malformed) return;
      if (!time_set.count((int)vs))
        run.violate("V04", "time-direct", "nbf=%llu exp=%llu now=%llu skew=%llu: status %d, should be %d%s", (unsigned long long)claims->nbf,
                    (unsigned long long)claims->exp, (unsigned long long)now, (unsigned long long)skew, (int)vs, *time_set.begin(), fz);
      return;
    }
    if (accepted) {
      // wrongly accepted?
      if (bk.b == NEVER) {
        run.violate("V01" + ff, "forged-accepted", "a token nobody signed was accepted%s: %s", fz, text.substr(0, 700).c_str());
        return;
      }
      if (claims) {
        if (!time_can_ok)
          run.violate((wall ? "V05" : "V04") + ff, "time-accept",
                      "accepted outside its window: nbf=%llu exp=%llu now=%lld (%s) skew=%llu%s", (unsigned long long)claims->nbf,
                      (unsigned long long)claims->exp, wall ? (long long)(clock0 / 1000000000) : (long long)now, wall ? "wall" : "given",
                      (unsigned long long)skew, fz);
        if (!audok) run.violate("V06" + ff, "aud-accept", "accepted by an audience it is not addressed to%s", fz);
      }
      if (malformed)
        run.violate("V12" + ff, "malformed-accepted", "accepted although a claim it carries is of a type or value that cannot be shown%s: %s", fz, claims->payload.substr(0, 300).c_str());
      if (v.failed) run.violate("V11 K01", "failed-set-verifies", "a key set whose load failed accepted a token");
      else if (v.exact && claims && !key_must && !key_may) {
        if (mat_present)
          run.violate("V03" + ff, "ineligible-accepted", "accepted although the only keys that fit are ruled out by key id or algorithm%s (token kid '%s' alg %s)", fz,
                      claims->kid.c_str(), kAlgs[claims->alg].c_str());
        else
          run.violate("V01" + ff, "foreign-key-accepted", "accepted although the signer's key is not in the key set%s", fz);
      }
      return;
    }
    // refused
    if (fired) return;          // failing closed is right
    if (bk.b != MUST || !claims || malformed) return;
    if (!v.exact && !v.failed) return;
    std::string sx = reused ? " V10" : "";
    if (ps != Status::Ok) {
      run.violate("V02" + sx, "genuine-parse", "a genuine token does not parse: status %d", (int)ps);
      return;
    }
    if (!verified) return;
    bool must_accept = time_must_ok && audok && key_must;
    if (must_accept) {
      std::string p = "V02";
      if (vs == Status::JwtExpired || vs == Status::JwtNotYetValid) p += wall ? " V05" : " V04";
      if (vs == Status::JwtAudienceNotAllowed) p += " V06";
      if (vs == Status::JwksKidAlgMismatch) p += " V03";
      run.violate(p + sx, "genuine-refused",
                  "a genuine %s token by %s was refused with status %d; %zu keys, %d eligible; kid '%s'; nbf=%llu exp=%llu now=%lld", kAlgs[claims->alg].c_str(),
                  mats()[claims->mat].name.c_str(), (int)vs, v.keys.size(), eligible_n, claims->kid.c_str(), (unsigned long long)claims->nbf,
                  (unsigned long long)claims->exp, wall ? (long long)(clock0 / 1000000000) : (long long)now);
      return;
    }
    // refused rightly: for a true reason?
    bool sig_may_fail = !key_must;
    if (vs == Status::JwtExpired || vs == Status::JwtNotYetValid) {
      if (!time_set.count((int)vs))
        run.violate((wall ? "V05" : "V04") + sx, "time-status", "refused with status %d: nbf=%llu exp=%llu now=%lld skew=%llu", (int)vs,
                    (unsigned long long)claims->nbf, (unsigned long long)claims->exp, wall ? (long long)(clock0 / 1000000000) : (long long)now,
                    (unsigned long long)skew);
    } else if (vs == Status::JwtAudienceNotAllowed) {
      if (audok) run.violate("V06" + sx, "aud-refuse", "refused as not allowed although it is addressed to the audience");
    } else if (sig_may_fail) {
      bool mismatch = vs == Status::JwksKidAlgMismatch;
      if (mismatch && any_eligible)
        run.violate("V03" + sx, "mismatch-status", "key id/algorithm mismatch reported although %d keys are eligible (token kid '%s' alg %s)", eligible_n,
                    claims->kid.c_str(), kAlgs[claims->alg].c_str());
      else if (!mismatch && !any_eligible)
        run.violate("V03" + sx, "mismatch-status", "status %d although no key is eligible (token kid '%s' alg %s)", (int)vs, claims->kid.c_str(),
                    kAlgs[claims->alg].c_str());
      else if (!mismatch && vs != Status::JwtVerificationFail && vs != Status::JwtEd25519SignatureWrongLength)
        run.violate("V03" + sx, "odd-status", "a signature failure is reported with status %d", (int)vs);
    } else if (audok || !auded) {
      // the key would verify and only time stands against it: any other status is untrue
      std::string p = "V02";
      if (timed) p += wall ? " V05" : " V04";
      if (vs == Status::JwksKidAlgMismatch) p += " V03";
      run.violate(p + sx, "untrue-status", "refused with status %d, which is not among the reasons that hold", (int)vs);
    } else {
      if (vs == Status::JwksKidAlgMismatch || vs == Status::JwtVerificationFail)
        run.violate("V06 V02" + sx, "untrue-status", "refused with status %d, which is not among the reasons that hold", (int)vs);
    }
  }

  // ------------------------------------------------------------- objects
  void check_pool(int a, Status st, bool have_status) {
    Jwt fresh;
    Status fs = fresh.parseFromString(pool_text[a]);
    ERR_clear_error();
    run.logf("obj %d %016llx status %d", a, (unsigned long long)hash_str(pool_text[a]), (int)fs);
    run.state(mix(mix(30, (int)fs), have_status));
    if (have_status && fs != st)
      run.violate("V10", "object-status", "parsing into a used object gives status %d, into a fresh one %d", (int)st, (int)fs);
    std::string d = jwt_diff(pool[a], fresh);
    if (!d.empty())
      run.violate("V10", "object-differs", "a reused or copied token object differs from a fresh parse of the same text (status %d): %s", (int)fs,
                  d.c_str());
  }
  void obj_op(int a, bool have_status, const std::string& new_text, std::function<Status()> f) {
    bool fault = take_fault();
    Status st = Status::Ok;
    Call c = call(fault, [&] { st = f(); });
    run.stat("op.object");
    if (c.threw) {
      run.logf("obj %d threw", a);
      if (!(c.bad_alloc && c.fired)) run.violate("V10 V11", "object-exception", "a token object operation ended in an exception");
      pool_known[a] = false;
      run.stat("obj.exception");
      return;
    }
    pool_text[a] = new_text;
    pool_known[a] = true;
    if (!c.fired) check_pool(a, st, have_status);
  }

  std::string part_text(const Token& t, int kind, uint64_t seed) {
    Rng r(seed);
    std::string h = b64u(t.header.empty() ? "{\"alg\":\"RS256\"}" : t.header), p = b64u(t.payload), s = b64u(t.sig);
    switch (kind) {
      case 0: return "nodots";
      case 1: return h + "." + p;
      case 2: return "!!!." + p + "." + s;
      case 3: return b64u("{not json") + "." + p + "." + s;
      case 4: return b64u("{\"kid\":\"z\"}") + "." + p + "." + s;
      case 5: return h + ".!!!." + s;
      case 6: return h + "." + b64u("{\"iss\":\"evil\",\"sub\":5}") + "." + s;
      case 7: return h + "." + b64u("{\"iss\":\"evil\",\"aud\":[\"x\",\"y\",3],\"exp\":5,\"nbf\":3}") + "." + s;
      default: return h + "." + b64u("{\"aud\":\"late\",\"exp\":77,\"jti\":\"J\"}") + ".!!!";
    }
  }

  void op_obj(const Op& o) {
    int a = (int)(o.at(0) % 3);
    auto idle = [&] { fault_armed = false; };
    if (o.k == "jparse" || o.k == "jpart") {
      auto it = toks.find(o.at(1));
      if (it == toks.end()) return idle();
      std::string text = it->second.text;
      if (o.k == "jpart") text = part_text(it->second, (int)(o.at(2) % 9), o.at(3));
      else if (o.at(2)) text = mutate(text, (int)o.at(2), o.at(3));
      obj_op(a, true, text, [&] { return pool[a].parseFromString(text); });
    } else if (o.k == "jassign") {
      int b = (int)(o.at(1) % 3);
      if (!pool_known[b]) return idle();
      std::string text = pool_text[b];
      obj_op(a, false, text, [&] {
        pool[a] = pool[b];
        return Status::Ok;
      });
    } else if (o.k == "jcopy") {
      int b = (int)(o.at(1) % 3);
      if (!pool_known[b]) return idle();
      std::string text = pool_text[b];
      bool fault = take_fault();
      std::string d;
      Call c = call(fault, [&] {
        Jwt copy(pool[b]);
        NoLib n;
        if (g_fault.fired == 0) d = jwt_diff(copy, pool[b]);
      });
      run.stat("op.object");
      if (c.threw && !(c.bad_alloc && c.fired)) run.violate("V10 V11", "object-exception", "copying a token object ended in an exception");
      if (!c.threw && !c.fired && !d.empty()) run.violate("V10", "copy-differs", "a copy differs from its original: %s", d.c_str());
      run.logf("copy %d", b);
    } else if (o.k == "jself") {
      if (!pool_known[a]) return idle();
      obj_op(a, false, pool_text[a], [&] {
        Jwt& same = pool[a];
        pool[a] = same;
        return Status::Ok;
      });
    } else if (o.k == "jalias") {
      if (!pool_known[a]) return idle();
      // the argument lives inside the object itself
      const std::string* f[] = {&pool[a].jwt_, &pool[a].header_str_base64url_, &pool[a].payload_str_, &pool[a].signature_,
                                &pool[a].iss_,  &pool[a].kid_,                 &pool[a].header_str_,  &pool[a].alg_};
      const std::string& arg = *f[o.at(1) & 7];
      std::string text = arg;
      obj_op(a, true, text, [&] { return pool[a].parseFromString(arg); });
    }
  }

  // ------------------------------------------------------------- hostile bytes
  static std::string many_members(Rng& r) {
    std::string s;
    int n = r.pick(std::vector<int>{62, 63, 64, 65, 127, 128, 129, 256, 257, 1000});
    for (int i = 0; i < n; i++) s += strf("%s\"member%d\":%d", i ? "," : "", i, i);
    return s;
  }

  std::string hostile_bytes(int what, uint64_t seed, int64_t len) {
    Rng r(seed);
    static const char* kJ[] = {"{", "}", "[", "]", ",", ":", "\"alg\"", "\"kid\"", "\"keys\"", "\"kty\"", "\"RSA\"", "\"EC\"", "\"oct\"", "\"OKP\"", "\"n\"", "\"e\"", "\"AQAB\"", "\"k\"", "\"x\"", "\"y\"", "\"crv\"", "\"P-256\"", "\"Ed25519\"", "null", "true", "-1", "1e999", "0.1", "18446744073709551616", "\"\\u0000\"", "\"\\ud800\"", "\"\xff\xfe\"", "\"exp\"", "\"nbf\"", "\"aud\"", "\"RS256\"", "\"HS256\"", "\"-----BEGIN CERTIFICATE-----\\n", "\\n-----END CERTIFICATE-----\\n\"", " ", "\n", "/*", "NaN", "Infinity", "1E-400", "-0", "\"iss\""};
    auto json = [&](int64_t n) {
      std::string s = r.chance(0.7) ? "{" : "";
      while ((int64_t)s.size() < n) s += kJ[r.below(sizeof kJ / sizeof *kJ)];
      if (r.chance(0.5)) s += "}";
      return s;
    };
    auto bytes = [&](int64_t n) {
      std::string s(n, 0);
      for (char& c : s) c = (char)r.below(256);
      if (n) s[0] |= 1;  // an all-zero secret equals an empty one
      return s;
    };
    auto nest = [&](int64_t n) {
      if (r.chance(0.3)) return "{" + many_members(r) + "}";
      return "{\"a\":" + std::string(n, '[') + std::string(r.chance(0.5) ? n : n / 2, ']') + "}";
    };
    auto any_json = [&]() {
      switch (r.below(4)) {
        case 0: return json(len);
        case 1: return nest(std::min<int64_t>(len * 4, 1500));
        case 2: return std::string("{\"alg\":\"") + kAlgs[r.below(13)] + "\"," + json(len / 2).substr(0, len / 2) + "}";
        default: return bytes(len);
      }
    };
    switch (what) {
      case 0: {
        if (r.chance(0.2)) return bytes(len);
        if (r.chance(0.15)) return std::string(len, '.');
        std::string h = r.chance(0.6) ? "{\"alg\":\"" + kAlgs[r.below(13)] + "\"}" : any_json();
        std::string s = b64u(h) + "." + b64u(any_json()) + "." + b64u(bytes(r.chance(0.5) ? 64 : r.below(300)));
        if (r.chance(0.2)) s = mutate(s, 1 + (int)r.below(30), r.next());
        return s;
      }
      case 1: {
        if (r.chance(0.4)) return any_json();
        // a plausible key set with hostile numbers
        std::string x = b64u(bytes(r.chance(0.5) ? 32 : len)), y = b64u(bytes(r.chance(0.5) ? 32 : 66));
        static const char* kT[] = {"RSA", "EC", "oct", "OKP"};
        static const char* kC[] = {"P-256", "P-384", "P-521", "Ed25519", "", "X25519"};
        std::string s = "{\"keys\":[";
        int n = 1 + (int)r.below(4);
        for (int i = 0; i < n; i++)
          s += strf("%s{\"kty\":\"%s\",\"crv\":\"%s\",\"alg\":\"%s\",\"x\":\"%s\",\"y\":\"%s\",\"k\":\"%s\",\"n\":\"%s\",\"e\":\"%s\"}", i ? "," : "",
                    kT[r.below(4)], kC[r.below(6)], r.chance(0.5) ? "" : kAlgs[r.below(13)].c_str(), x.substr(0, 3000).c_str(), y.c_str(),
                    x.substr(0, 2000).c_str(), x.substr(0, 3000).c_str(), r.chance(0.7) ? "AQAB" : r.chance(0.5) ? "Aw" : "");
        return s + "]}";
      }
      case 2: {
        std::string b = b64(bytes(len % 3000));
        return "-----BEGIN PUBLIC KEY-----\n" + b + "\n-----END PUBLIC KEY-----\n";
      }
      case 3: {
        std::string b = b64(bytes(len % 3000));
        std::string one = "-----BEGIN CERTIFICATE-----\n" + b + "\n-----END CERTIFICATE-----\n";
        if (r.chance(0.5)) one = mats()[mat_of(RSA_F, r.below(4))].crt_pem, one = mutate_doc(one, 1 + (int)r.below(12), r.next());
        return "{\"kid\":" + jquote(one) + "}";
      }
      default: {
        std::string s = mats()[mat_of(r.chance(0.5) ? RSA_F : r.chance(0.5) ? EC_F : OKP_F, r.next())].pub_pem;
        return mutate_doc(s, 1 + (int)r.below(12), r.next());
      }
    }
  }

  // Many different tokens (or documents), each seen once: what the library
  // holds on to must not grow with how much it has seen.  A table that doubles
  // grows once in each of the phases that double the count; anything bounded
  // stops growing.
  void op_sweep(const Op& o) {
    Ver& v = vers[o.at(0) & 3];
    int kind = (int)(((o.at(1) % 5) + 5) % 5), entry = (int)o.at(2) & 7;
    uint64_t seed = (uint64_t)o.at(3), now = (uint64_t)base + (uint64_t)(t_ns / 1000000000), skew = 60;
    int flags = (int)o.at(4) & 3;
    if (!v.jwks) return;
    take_fault();
    static const int kPhase[] = {0, 128, 256, 512, 1024};
    const KeyModel* oct = nullptr;
    bool ec = false;
    for (auto& k : v.keys) {
      Fam f = mats()[k.mat].fam;
      if (f == EC_F) ec = true;
      if (f == OCT_F && mats()[k.mat].raw.size() && (k.alg.empty() || k.alg[0] == 'H')) oct = &k;
    }
    if (kind == 3 && !oct) kind = 1;
    if (kind == 2 && ec) kind = 1;
    std::string alg = kind == 3 ? (oct->alg.empty() ? "HS256" : oct->alg) : v.keys.empty() ? "RS256" : v.keys[0].alg;
    if (kind == 3 && alg != "HS256" && alg != "HS384" && alg != "HS512") kind = 1;
    if (alg_index(alg) < 0) alg = "RS256";
    std::string kid0 = v.keys.empty() ? "" : v.keys[0].kid;
    if (kind == 3) kid0 = oct->kid;
    std::vector<std::string> text(1024);
    for (int i = 0; i < 1024; i++) {
      uint64_t u = mix(seed, i);
      std::string id = strf("%016llx", (unsigned long long)u);
      if (kind == 4) {
        std::string raw = id + id;
        text[i] = "{\"keys\":[{\"kty\":\"oct\",\"kid\":\"" + id + "\",\"alg\":\"HS256\",\"k\":\"" + b64u(raw) + "\"}]}";
        continue;
      }
      std::string aud = v.aud.empty() ? id : v.aud[0];
      bool plain = true;
      for (char ch : kid0 + aud)
        if ((unsigned char)ch < 32 || (unsigned char)ch > 126 || ch == '"' || ch == '\\') plain = false;
      std::string kid = kind == 1 ? id : kid0;
      if (!plain) kid = id, aud = id;
      std::string h = "{\"alg\":\"" + alg + "\"" + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + "}";
      std::string p = "{\"iss\":\"i" + id + "\",\"sub\":\"s" + id + "\",\"jti\":\"j" + id + "\",\"aud\":\"" + aud + "\",\"exp\":9999999999}";
      if (kind == 0 && u % 2) p = p.substr(1);
      std::string d = b64u(h) + "." + b64u(p);
      std::string sig;
      if (kind == 3) sig = hmac(alg_index(alg), mats()[oct->mat].raw, d);
      else
        for (int z = 0; z < 256; z += 16) sig += id;
      text[i] = d + "." + b64u(sig);
      if (kind == 0 && !(u % 2)) text[i][text[i].size() / 2 + u % 7] = '!';
    }
    run.stat("op.sweep");
    run.stat(strf("sweep.%d", kind));
    set_clock(v, 0);
    int64_t before[5];
    std::vector<int> got(1024);
    Call c;
    {
      LibScope lib;
      for (int ph = 0; ph < 4; ph++) {
        if (ph == 0) before[0] = allocs().bytes;
        for (int i = kPhase[ph]; i < kPhase[ph + 1]; i++) {
          if (kind == 4) {
            JwksPtr j = jv::Jwks::createFrom(text[i], jv::Jwks::JWKS);
            got[i] = (int)j->getStatus();
          } else {
            Jwt jwt;
            Status ps = jwt.parseFromString(text[i]);
            got[i] = (int)ps;
            if (ps == Status::Ok || (flags & 1))
              got[i] = 1000 * (int)ps + (int)ask(jwt, *v.jwks, v.aud, v.checker.get(), entry, now, skew, flags);
          }
        }
        before[ph + 1] = allocs().bytes;
      }
    }
    // one of them more often than a small counter goes
    int64_t more = std::max<int64_t>(0, std::min<int64_t>(70000, o.at(5))), odd = -1;
    int odd_got = 0;
    if (more && (kind == 1 || kind == 3) && v.keys.size() < 40) {
      LibScope lib;
      Jwt jwt;
      if (jwt.parseFromString(text[0]) == Status::Ok)
        for (int64_t i = 0; i < more && odd < 0; i++) {
          int g = (int)ask(jwt, *v.jwks, v.aud, v.checker.get(), entry, now, skew, flags);
          if (g != got[0]) odd = i, odd_got = g;
        }
    }
    ERR_clear_error();
    run.logf("sweep %d entry=%d -> %d %d", kind, entry, got[0], got[1023]);
    const char* prop = kind == 4 ? "K03" : "V08";
    if (before[2] > before[1] && before[3] > before[2] && before[4] > before[3])
      run.violate(prop, "growth", "memory held grows with the number of different %s seen: %lld, %lld and %lld bytes more after 256, 512 and 1024",
                  kind == 4 ? "documents" : "tokens", (long long)(before[2] - before[1]), (long long)(before[3] - before[1]),
                  (long long)(before[4] - before[1]));
    if (odd >= 0) run.violate(prop, "drift", "the same token for the %lldth time got status %d, at first %d", (long long)odd + 1024, odd_got, got[0]);
    if (kind != 0)
      for (int i = 1; i < 1024; i++)
        if (got[i] != got[0]) {
          run.violate(prop, "drift", "%s that differ in nothing but their identifiers: the first got status %d, number %d got %d",
                      kind == 4 ? "documents" : "tokens", got[0], i + 1, got[i]);
          break;
        }
  }

  void op_hostile(const Op& o) {
    bool fault = take_fault();
    Ver& v = vers[o.at(0) & 3];
    int what = (int)(o.at(1) % 5);
    std::string s = hostile_bytes(what, o.at(2), std::min<int64_t>(70000, std::max<int64_t>(0, o.at(3))));
    run.stat("op.hostile");
    if (what == 0) {
      if (!v.jwks) return;
      deliver(s, v, (int)(o.at(2) % 6), (uint64_t)base, 60, 1, (int)(o.at(2) / 7 % 4), 1, 0, fault, 50);
      return;
    }
    JwksPtr j;
    Built b;
    b.api = what == 1 || what == 3 ? 0 : o.at(2) % 2 ? 1 : 2;
    b.kid = "k1";
    b.alg = "RS256";
    Call c = do_load(b, s, &j, fault);
    ERR_clear_error();
    if (c.threw) {
      if (!(c.bad_alloc && c.fired)) run.violate("V11", "load-exception", "loading hostile bytes ended in an exception: %s", c.what.c_str());
      return;
    }
    if (!j) return;
    run.logf("hostile %d -> %d %zu", what, (int)j->getStatus(), j->keys().size());
    run.state(mix(mix(40, what), mix((int)j->getStatus(), j->keys().size())));
    if (j->getStatus() != Status::Ok && !j->keys().empty())
      run.violate("V11 K01", "failed-load-has-keys", "the load failed (status %d) but the set holds %zu keys", (int)j->getStatus(), j->keys().size());
    // whatever came of it must not verify anything anybody else signed
    Ver hv;
    hv.jwks = std::move(j);
    hv.exact = false;
    hv.failed = hv.jwks->getStatus() != Status::Ok;
    if (hv.failed) hv.exact = true;
    hv.off = v.off;
    int n = 0;
    for (auto& kv : toks) {
      if (n++ >= 3) break;
      deliver(kv.second.text, hv, 5, 0, 60, 1, 0, 1, 0, false, 51);
    }
  }

  // ------------------------------------------------------------- main loop
  void exec(const Plan& p) {
    for (const Op& o : p.ops) {
      run.sh->op = op_index;
      if (run.stop()) break;
      if (o.k == "start") base = o.at(0);
      else if (o.k == "adv") {
        t_ns += std::max<int64_t>(0, o.at(0));
        run.sh->sim_ns = t_ns;
      } else if (o.k == "jmp") {
        Ver& v = vers[o.at(0) & 3];
        wide w = (wide)v.off + o.at(1);
        if (clock_ok(w) && clock_ok((wide)base * 1000000000 + t_ns + w)) v.off = (int64_t)w;
        run.stat(o.at(1) < 0 ? "clock.jump_back" : "clock.jump_forward");
      } else if (o.k == "clk") {
        Ver& v = vers[o.at(0) & 3];
        wide target = (wide)o.at(1) * 1000000000 + o.at(2);
        wide off = target - (wide)base * 1000000000 - t_ns;
        if (clock_ok(target) && clock_ok(off)) {
          run.stat(target < wall_ns(v) ? "clock.set_back" : "clock.set_forward");
          v.off = (int64_t)off;
        }
      } else if (o.k == "audc") {
        Ver& v = vers[o.at(0) & 3];
        v.aud.clear();
        for (size_t i = 1; i < o.a.size(); i++) v.aud.push_back(aud_pool()[(size_t)o.a[i] % aud_pool().size()]);
        v.checker.reset(new jv::CheckAudience(v.aud));
        if (v.checker->empty() != v.aud.empty())
          run.violate("V06", "aud-empty", "a checker for %zu audiences says empty=%d", v.aud.size(), v.checker->empty());
      } else if (o.k == "doc") {
        docs[o.at(0)] = Doc{(int)(o.at(1) & 3), o.at(2), {}};
      } else if (o.k == "key") {
        auto it = docs.find(o.at(0));
        if (it != docs.end()) {
          DocEntry e{(int)(o.at(1) % (int)mats().size()), (int)(o.at(2) < 0 ? -1 : o.at(2) % (int64_t)kid_pool().size()),
                     (int)(o.at(3) < 0 ? -1 : o.at(3) % (int64_t)keyalg_pool().size()), (int)o.at(4), o.at(5)};
          it->second.e.push_back(e);
        }
      } else if (o.k == "load") op_load(o);
      else if (o.k == "pem") op_pem(o);
      else if (o.k == "tok") op_tok(o);
      else if (o.k == "forge") op_forge(o);
      else if (o.k == "dlv") op_dlv(o);
      else if (o.k == "hostile") op_hostile(o);
      else if (o.k == "sweep") op_sweep(o);
      else if (o.k == "fault") {
        fault_armed = true;
        f_kind = (int)o.at(0);
        f_nth = o.at(1);
        f_count = o.at(2);
      } else if (o.k == "errq") {
        for (int64_t i = 0; i < std::min<int64_t>(o.at(0), 30); i++) ERR_put_error(ERR_LIB_USER, 0, 100 + (int)i, "sim", 1);
        run.stat("fault.dirty_error_queue");
      } else if (o.k == "net") {
        static const char* kN[] = {"", "lost", "duplicated", "delayed", "reordered", "misrouted", "", "key_rotation"};
        run.stat(std::string("net.") + kN[o.at(0) & 7]);
      } else if (o.k[0] == 'j') op_obj(o);
      op_index++;
    }
  }
};

void deploy_exec(const Plan& p, Run& run) {
  g_addr_reuse = mix(p.seed, 77) % 5 < 2;
  World_* w = new World_(run);
  for (const Op& o : p.ops)
    if (o.k == "dlv" && (o.at(9) & 16)) {
      w->start_pristine();
      break;
    }
  g_clock.active = true;
  w->exec(p);
  if (w->pure_fd >= 0) close(w->pure_fd);
  if (g_addr_reused) run.stat("addr.reused", g_addr_reused);
  g_clock.active = false;
}
void deploy_init() { keys_init(); }

}  // namespace

const World kDeploy = {"deploy", deploy_gen, deploy_exec, deploy_init};

}  // namespace sim
