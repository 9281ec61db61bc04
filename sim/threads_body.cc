#include "threads_body.h"

#include <algorithm>
#include <memory>
#include <mutex>

#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwt_verify_lib/verify.h"

namespace sim {
using namespace ::google::jwt_verify;

struct Body {
  const TInput* in;
  std::vector<std::unique_ptr<Jwt>> jwts;
  std::vector<std::unique_ptr<Jwks>> sets;
  std::vector<std::unique_ptr<CheckAudience>> auds;
  std::mutex mu;
  std::shared_ptr<const Jwks> current;  // guarded by mu
  int version = -1;                     // guarded by mu
};
struct BodyThread {
  Jwt own;  // parsed into again and again
};

static std::unique_ptr<Jwks> load(const TDoc& d) {
  switch (d.api) {
    case 0: return Jwks::createFrom(d.text, Jwks::JWKS);
    case 1: return Jwks::createFrom(d.text, Jwks::PEM);
    default: return Jwks::createFromPem(d.text, d.kid, d.alg);
  }
}
static std::string num(uint64_t n) {
  char b[24];
  int i = 24;
  do b[--i] = (char)('0' + n % 10);
  while (n /= 10);
  return std::string(b + i, b + 24);
}
static std::string st(Status s) { return num((uint64_t)s); }

static std::string digest(const Jwt& j) {
  std::string o = j.alg_ + "|" + j.kid_ + "|" + j.iss_ + "|" + j.sub_ + "|" + j.jti_ + "|" + num(j.iat_) + "|" + num(j.nbf_) + "|" +
                  num(j.exp_) + "|" + j.header_str_ + "|" + j.payload_str_ + "|" + j.signature_ + "|" + j.jwt_ + "|" +
                  j.header_str_base64url_ + "|" + j.payload_str_base64url_ + "|";
  for (const auto& a : j.audiences_) o += a + ",";
  return o + "|" + num(j.payload_pb_.fields().size()) + "|" + num(j.header_pb_.fields().size());
}
static std::string digest(const Jwks& s) {
  std::string o = st(s.getStatus()) + "#" + num(s.keys().size());
  // a set of certificates has no order: it comes from a hash table
  std::vector<std::string> l;
  for (const auto& k : s.keys()) l.push_back("[" + k->kid_ + "|" + k->kty_ + "|" + k->alg_ + "|" + k->crv_ + "|" + k->hmac_key_ + "|" + k->okp_key_raw_ + "]");
  std::sort(l.begin(), l.end());
  for (const auto& k : l) o += k;
  return o;
}

Body* body_new(const TInput* in) {
  Body* b = new Body;
  b->in = in;
  if (in->cold) return b;
  for (const auto& t : in->toks) {
    b->jwts.emplace_back(new Jwt);
    b->jwts.back()->parseFromString(t);
  }
  for (const auto& d : in->docs) b->sets.push_back(load(d));
  for (const auto& a : in->auds) b->auds.emplace_back(new CheckAudience(a));
  return b;
}
std::string body_shared_digest(Body* b) {
  std::string o;
  for (const auto& j : b->jwts) o += digest(*j) + "\n";
  for (const auto& s : b->sets) o += digest(*s) + "\n";
  for (size_t i = 0; i < b->auds.size(); i++) {
    o += b->auds[i]->empty() ? "e" : "n";
    for (const auto& a : b->in->auds) o += b->auds[i]->areAudiencesAllowed(a) ? "1" : "0";
  }
  // and what they decide
  for (const auto& j : b->jwts)
    for (const auto& s : b->sets) o += st(verifyJwt(*j, *s, b->in->now)) + ",";
  return o;
}
BodyThread* body_thread_new() { return new BodyThread; }
void body_thread_free(BodyThread* t) { delete t; }
int body_doc_count(Body* b) { return (int)b->in->docs.size(); }
uint64_t body_tok(Body* b, uint64_t i) { return i % b->in->toks.size(); }

std::string body_verdict(Body* b, uint64_t tok, uint64_t doc) {
  Jwt j;
  Status s = j.parseFromString(b->in->toks[tok % b->in->toks.size()]);
  std::unique_ptr<Jwks> k = load(b->in->docs[doc]);
  return st(s) + "," + st(verifyJwt(j, *k, b->in->now));
}

const char* body_kind_name(int k) {
  static const char* n[kKinds] = {"parse_verify",  "verify_shared", "verify_wall",  "verify_audience", "copy_shared", "audience_shared", "load_verify",
                                  "pem_add",       "claims_shared", "current",      "publish",         "reparse",     "assign",          "time_only"};
  return k >= 0 && k < kKinds ? n[k] : "?";
}

std::string body_op(Body* b, BodyThread* me, const TOp& op, int* version) {
  const TInput& in = *b->in;
  const std::string& tok = in.toks[op.a % in.toks.size()];
  const TDoc& doc = in.docs[op.b % in.docs.size()];
  const std::vector<std::string>& aud = in.auds[op.c % in.auds.size()];
  // what is shared when there is something shared, else this thread's own
  Jwt j0;
  std::unique_ptr<Jwks> s0;
  const Jwt* j = &j0;
  const Jwks* s = nullptr;
  bool share = !in.cold;
  int kind = op.kind;
  bool own_jwt = !share || kind == 0, own_set = !share || kind == 6;
  bool needs_set = kind <= 4 || kind == 6 || kind == 11 || kind == 12;
  bool needs_jwt = kind <= 4 || kind == 6 || kind == 7 || kind == 8 || kind == 9 || kind == 12 || kind == 13;
  std::string r;
  if (needs_jwt) {
    if (own_jwt) r += "p" + st(j0.parseFromString(tok)) + ";";
    else j = b->jwts[op.a % b->jwts.size()].get();
  }
  if (needs_set) {
    if (own_set) {
      s0 = load(doc);
      s = s0.get();
      r += "k" + digest(*s) + ";";
    } else {
      s = b->sets[op.b % b->sets.size()].get();
    }
  }
  switch (kind) {
    case 0: return r + st(verifyJwt(*j, *s)) + digest(*j);
    case 1: return r + st(verifyJwt(*j, *s, in.now)) + st(verifyJwt(*j, *s, in.now + 100000, 5));
    case 2: return r + st(verifyJwt(*j, *s, aud)) + getStatusString(verifyJwt(*j, *s, aud));
    case 3: return r + st(verifyJwt(*j, *s, aud, in.now));
    case 4: {
      Jwt c(*j);
      return r + digest(c) + st(verifyJwt(c, *s, in.now));
    }
    case 5: {
      CheckAudience own(aud);
      const CheckAudience& ca = share ? *b->auds[op.c % b->auds.size()] : own;
      r = ca.empty() ? "e" : "n";
      // as given, one by one and the other way round, each thread from another place
      for (size_t k = 0; k < in.auds.size(); k++) {
        std::vector<std::string> a = in.auds[(op.a + k) % in.auds.size()];
        r += ca.areAudiencesAllowed(a) ? "1" : "0";
        for (const auto& one : a) r += ca.areAudiencesAllowed({one}) ? "1" : "0";
        a.insert(a.begin(), "nobody.example.com");
        std::reverse(a.begin(), a.end());
        r += ca.areAudiencesAllowed(a) ? "1" : "0";
      }
      return r;
    }
    case 6: return r + st(verifyJwt(*j, *s, in.now));
    case 7: {
      const TDoc* p = nullptr;
      for (size_t i = 0; i < in.docs.size(); i++)
        if (in.docs[(op.b + i) % in.docs.size()].api) p = &in.docs[(op.b + i) % in.docs.size()];
      if (!p) return "none";
      std::unique_ptr<Jwks> own = Jwks::createFromPem(p->text, p->kid, p->alg);
      Status a = own->addKeyFromPem(p->text, "second", p->alg);
      return r + st(a) + digest(*own) + st(verifyJwt(*j, *own, in.now));
    }
    case 8: {
      StructUtils u(j->payload_pb_);
      std::string v;
      uint64_t n = 0;
      double f = 0;
      bool t = false;
      std::vector<std::string> l;
      const google::protobuf::Value* found = nullptr;
      r += num(u.GetString("iss", &v)) + v;
      r += num(u.GetUInt64("exp", &n)) + num(n);
      r += num(u.GetDouble("iat", &f)) + num((uint64_t)f);
      r += num(u.GetBoolean("admin", &t)) + (t ? "t" : "f");
      r += num(u.GetStringList("aud", &l)) + num(l.size());
      r += num(u.GetValue("realm.roles", found)) + (found ? num((uint64_t)found->kind_case()) : "x");
      r += num(u.GetString("realm.name", &v)) + v;
      for (int i = 0; i < 90; i += 7) r += getStatusString((Status)((op.c + i) % 90));
      return r;
    }
    case 9: {
      std::shared_ptr<const Jwks> cur;
      {
        std::lock_guard<std::mutex> l(b->mu);
        cur = b->current;
        *version = b->version;
      }
      if (!cur) return "none";
      Jwt fresh;
      Status p = fresh.parseFromString(tok);
      return st(p) + "," + st(verifyJwt(fresh, *cur, in.now));
    }
    case 10: {
      std::shared_ptr<const Jwks> fresh(load(doc).release());
      r = digest(*fresh);
      {
        std::lock_guard<std::mutex> l(b->mu);
        b->current.swap(fresh);
        b->version = (int)(op.b % in.docs.size());
      }
      return r;
    }
    case 11: {
      r = st(me->own.parseFromString(tok));
      return r + digest(me->own) + st(verifyJwt(me->own, *s, in.now));
    }
    case 12: {
      me->own = *j;
      return r + digest(me->own) + st(verifyJwt(me->own, *s, in.now));
    }
    case 13: {
      for (int i = 0; i < 4; i++) r += st(j->verifyTimeConstraint(in.now + (op.c + i) % 5 * 1000 - 2000, i)) + ",";
      return r;
    }
  }
  return "?";
}

}  // namespace sim
