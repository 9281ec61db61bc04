// Generator of deployment histories: a discrete-event simulation of issuers,
// key publication and rotation, an unreliable network and verifiers with
// clocks of their own, flattened into a plan.
#include <algorithm>
#include <queue>

#include "keys.h"
#include "pools.h"
#include "world_deploy.h"

namespace sim {
namespace {

int natural(int mat, uint64_t pick) { return mat_natural(mat, pick); }

struct Gen {
  Rng r;
  std::string P;
  Plan plan;
  struct Ev {
    int64_t t;
    uint64_t seq;
    std::vector<Op> ops;
    bool operator<(const Ev& o) const { return t != o.t ? t > o.t : seq > o.seq; }
  };
  std::priority_queue<Ev> q;
  uint64_t seq = 0;
  struct Tok {
    int id, mat, kid;
    bool genuine;
    int64_t nbf, exp;  // 0 = none
    int issuer;
  };
  std::vector<Tok> toks;
  struct Doc {
    int id, fmt;
    std::vector<int> mats;
  };
  std::vector<Doc> docs;
  int nver = 1;
  int next_tok = 0, next_doc = 0;
  int64_t base = 1700000000;
  bool faults = false;
  double p_corrupt = 0.2, p_lose = 0.08, p_dup = 0.2, p_misroute = 0.1, p_fault = 0;
  int64_t aud_group = 0;
  int kid_group = 0;

  Gen(const std::string& p, uint64_t seed) : r(seed), P(p) {}
  bool is(const char* s) const { return P == s; }

  void at(int64_t t, std::vector<Op> ops) { q.push(Ev{t, seq++, std::move(ops)}); }
  static Op op(const char* k, std::vector<int64_t> a) { return Op{k, std::move(a)}; }

  int pick_mat() {
    // cheap keys more often, the big ones rarely
    size_t f = r.weighted({3, 4, 3, 2.5});
    if (f == 0) return mat_of(RSA_F, r.weighted({3, 3, 2, 3, 0.4, 0.15, 0.3}));
    if (f == 1) return mat_of(EC_F, r.weighted({3, 3, 2, 1, 0.7, 0.4, 0.4, 1, 1, 0.4, 0.4, 0.4, 0.4}));
    if (f == 2) return mat_of(OCT_F, r.next());
    return mat_of(OKP_F, r.next());
  }
  int pick_kid(double absent) {
    if (r.chance(absent)) return -1;
    if (kid_group && r.chance(0.8)) return 8 + 8 * kid_group + (int)r.below(8);
    if (r.chance(0.6)) return (int)r.below(4) + 1;
    return (int)r.below(kid_pool().size());
  }

  // ---- key documents
  int add_doc(const std::vector<std::pair<int, int>>& matkid, std::vector<Op>* out, int fmt = -1) {
    Doc d;
    d.id = next_doc++;
    d.fmt = fmt >= 0 ? fmt : (int)r.weighted({6, 1.2, 0.7, 1.5});
    out->push_back(op("doc", {d.id, d.fmt, (int64_t)r.below(1000)}));
    double p_bad = is("K01") || is("V11") ? 0.35 : 0.12;
    double p_alg = is("V03") ? 0.6 : 0.4;
    std::set<int> used;
    for (auto mk : matkid) {
      int mat = mk.first, kid = mk.second;
      if (d.fmt == 1) {
        if (mat > 3) mat = (int)r.below(4);
        if (kid <= 0) kid = 1 + (int)r.below(kid_pool().size() - 1);
        int tries = 0;
        while (used.count(kid) && tries++ < 20) kid = 1 + (int)r.below(kid_pool().size() - 1);
        used.insert(kid);
      }
      int alg = -1;
      if (r.chance(p_alg)) {
        alg = natural(mat, r.next());
        if (r.chance(is("V03") ? 0.25 : 0.1)) alg = (int)r.below(keyalg_pool().size());
      }
      int quirk = 0;
      if (r.chance(0.25)) quirk = 1 + (int)r.below(5);
      // Unusable entries; in maps and PEM they spoil the whole document, so less often there.
      if (r.chance(d.fmt == 0 ? p_bad : matkid.size() > 8 ? p_bad / (double)(2 * matkid.size()) : p_bad / 4)) quirk = 20 + (int)r.below(14);
      if (quirk == 0 && d.fmt == 1 && r.chance(matkid.size() > 8 ? 0.002 : 0.04)) {
        mat = mat_of(EC_F, r.below(2));  // a certificate of another key type
      }
      out->push_back(op("key", {d.id, mat, kid, alg, quirk, (int64_t)r.below(100000)}));
      d.mats.push_back(mat);
    }
    docs.push_back(d);
    return d.id;
  }

  // What to try against a token of this key: some forgeries only mean
  // something for one kind of key.
  int64_t forge_kind(int mat) {
    static const int kR[] = {3, 4, 4, 5, 13, 20, 21, 27, 28}, kE[] = {3, 4, 5, 17, 17, 20, 21, 23, 28}, kS[] = {5, 10, 20, 21, 22, 22, 22, 28},
                     kP[] = {3, 5, 10, 13, 20, 21, 28};
    if (r.chance(0.5)) return (int64_t)r.below(29);
    switch (mat_fam(mat)) {
      case RSA_F: return kR[r.below(9)];
      case EC_F: return kE[r.below(9)];
      case OCT_F: return kS[r.below(8)];
      default: return kP[r.below(7)];
    }
  }

  Op fault_op() {
    int kind = (int)r.weighted({0, 3, 3, 4, 2});
    int64_t nth = (int64_t)r.geo(r.chance(0.5) ? 0.25 : 0.06, 120);
    int64_t count = r.chance(0.7) ? 1 : r.chance(0.5) ? -1 : (int64_t)r.range(2, 5);
    return op("fault", {kind, nth, count});
  }

  // ---- tokens
  int64_t claim_time(int64_t t, int* mode) {
    *mode = 1;
    double u = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    bool wild = is("V04") || is("V12") || is("V05");
    if (u < (wild ? 0.12 : 0.04)) {  // extreme values
      static const int64_t kX[] = {1, 59, 60, 61, 4294967295ll, 4294967296ll, 2147483647ll, 2147483648ll,
                                   9007199254740992ll, 9223372036854775807ll, -1024 * 1024, -2048, -1,
                                   4294967296ll + 60, 9223372036854775807ll - 100000, 1ll << 62};
      return kX[r.below(sizeof kX / sizeof *kX)];
    }
    if (u < (wild ? 0.2 : 0.07)) *mode = 2;        // fraction
    else if (u < (wild ? 0.26 : 0.1)) *mode = 3;   // exponent form
    else if (u < (wild ? 0.28 : 0.11)) *mode = 4 + (int)r.below(4);  // not a time at all
    return t;
  }

  int add_tok(int mat, int kid, int alg, int64_t now_s, std::vector<Op>* out, int64_t life = -1) {
    Tok t;
    t.id = next_tok++;
    t.mat = mat;
    t.kid = kid;
    t.genuine = true;
    int nm = 0, em = 0, im = 0;
    int64_t nbf = 0, exp = 0, iat = 0;
    if (r.chance(0.5)) nbf = claim_time(now_s + r.range(-100, 100) * (r.chance(0.2) ? 10 : 1), &nm);
    if (life < 0) life = r.chance(0.3) ? r.range(0, 5) : r.range(1, 3600);
    if (r.chance(0.75)) exp = claim_time(now_s + life, &em);
    if (r.chance(0.5)) iat = claim_time(now_s, &im);
    if (!is("V12") && r.chance(0.9)) {  // malformed claims only now and then
      if (nm > 3) nm = 1;
      if (em > 3) em = 1;
      if (im > 3) im = 1;
    }
    t.nbf = nm ? nbf : 0;
    t.exp = em ? exp : 0;
    int am = (int)(is("V06") ? r.weighted({1, 4, 5, 0.6, 0.4, 0.3}) : r.weighted({2, 3, 2, 0.2, 0.2, 0.1}));
    int64_t aseed = am == 1 ? (int64_t)r.below(aud_pool().size()) : (int64_t)r.below(1000000);
    if (am == 1 && r.chance(0.4)) aseed = (aud_group * 8 + (int64_t)r.below(8)) % (int64_t)aud_pool().size();
    if (r.chance(0.8)) aseed |= aud_group << 20;
    bool big = is("V11") || is("V02") || is("V01");
    int pq = (int)r.below(64) | (int)(r.weighted({8, 3, 1, big ? 0.4 : 0.15, big ? 0.12 : 0.03, is("V12") ? 3.0 : 0.6, is("V12") ? 3.0 : is("V06") && am == 0 ? 8.0 : 0.6, 0.2}) << 8);
    if (r.chance(is("V12") ? 0.08 : 0.015)) pq |= (1 + (int)r.below(4)) << 12;
    int64_t hq = (int64_t)r.below(64);
    if (r.chance(0.3)) hq |= (int64_t)r.below(32) << 6;
    int how = 0;
    if (r.chance(0.12)) how = 1 + (int)r.below(4);
    out->push_back(op("tok", {t.id, mat, alg, kid, nm, nbf, em, exp, im, iat, am, aseed, hq, pq, how,
                              (int64_t)r.below(1 << 30)}));
    toks.push_back(t);
    return t.id;
  }

  // ---- a delivery to a verifier
  Op deliver(int tok, int v, int64_t now_s, std::vector<Op>* pre) {
    const Tok* t = nullptr;
    for (auto& x : toks)
      if (x.id == tok) t = &x;
    int entry;
    if (is("V04")) entry = (int)r.weighted({1, 3, 6, 0.5, 2, 0, 0, 5});
    else if (is("V05")) entry = (int)r.weighted({6, 0.2, 0, 5, 0.2, 0, 0, 0});
    else if (is("V06")) entry = (int)r.weighted({0.3, 0, 0, 3, 5, 0, 4, 0});
    else if (is("V03")) entry = (int)r.weighted({1, 2, 1, 0.5, 1, 6, 0, 0});
    else entry = (int)r.weighted({3, 2, 1.5, 2, 2, 3, 0.3, 0.3});
    int64_t now = now_s, skew = 60;
    if (entry == 2 || entry == 7) {
      static const int64_t kS[] = {0, 1, 59, 60, 61, 300, 4294967295ll, 9223372036854775807ll, -1, -61, -1700000000};
      skew = r.chance(0.6) ? kS[r.below(6)] : kS[r.below(sizeof kS / sizeof *kS)];
    }
    double pb = is("V04") || is("V05") ? 0.75 : 0.25;
    if (t && r.chance(pb)) {  // right at an edge of the window
      uint64_t edge = r.chance(0.5) && t->nbf ? (uint64_t)t->nbf - (uint64_t)skew : (uint64_t)t->exp + (uint64_t)skew;
      now = (int64_t)(edge + (uint64_t)r.range(-2, 2));
      if (is("V04") && r.chance(0.12)) {
        static const int64_t kN[] = {0, 1, -1, -2, -60, -61, 9223372036854775807ll, 1ll << 32};
        now = kN[r.below(sizeof kN / sizeof *kN)];
      }
    }
    if (entry == 0 || entry == 3) {
      // a wall clock entry: put the node's clock there, with a chosen sub-second part
      if (now != now_s && now > -9000000000ll && now < 9000000000ll) {
        static const int64_t kF[] = {0, 1, 500000000, 999999999, 999999000};
        pre->push_back(op("clk", {v, now, kF[r.below(5)]}));
      } else if (is("V05") && r.chance(0.3)) {
        static const int64_t kC[] = {0, -1, -2, -60, -61, -3600, 1, 59, 60, 61, -2000000000ll, 4294967295ll, 4294967296ll,
                                     2147483648ll, 9000000000ll, 1700000000ll, -9000000000ll};
        pre->push_back(op("clk", {v, kC[r.below(sizeof kC / sizeof *kC)], (int64_t)r.below(1000000000)}));
      }
      now = 0;
    }
    int mut = 0;
    if (r.chance(p_corrupt)) mut = 1 + (int)r.below(30);
    if (is("V11") && r.chance(0.001)) mut = 31 + (int)r.below(4);
    int reps = is("V08") ? (r.chance(0.7) ? 3 : 1) : (r.chance(0.04) ? 3 : 1);
    int objmode = (int)r.weighted({6, is("V10") || is("V12") ? 4 : 1.5, 1, 0.7});
    int flags = (r.chance(0.15) ? 1 : 0) | (r.chance(0.5) ? 2 : 0);
    // 1: verify even if the parse failed; 2: persistent audience checker
    if (is("V11")) flags |= 1;
    if (r.chance(is("V08") ? 0.3 : 0.01)) flags |= 16;  // ask the pristine process too
    int64_t tick = 0;
    if ((entry == 0 || entry == 3) && r.chance(0.1)) tick = r.chance(0.5) ? 1000 : 700000000;
    if (faults && r.chance(p_fault)) pre->push_back(fault_op());
    return op("dlv", {tok, v, entry, now, skew, mut, (int64_t)r.below(1 << 30), reps, objmode, flags, tick});
  }

  Plan make(uint64_t seed) {
    plan.world = "deploy";
    plan.profile = P;
    plan.seed = seed;
    // swarm: every run has a shape of its own
    nver = 1 + (int)r.below(3);
    int nissuer = 1 + (int)r.below(4);
    p_corrupt = r.chance(0.3) ? 0 : is("V01") || is("V11") ? 0.45 : r.chance(0.5) ? 0.1 : 0.3;
    kid_group = r.chance(is("V03") ? 0.5 : 0.75) ? 0 : 1 + (int)r.below(kid_pool().size() / 8 - 2);
    aud_group = r.chance(0.4) ? 0 : (int64_t)r.below((aud_pool().size() + 7) / 8);
    p_lose = r.chance(0.5) ? 0 : 0.15;
    p_dup = r.chance(0.4) ? 0 : 0.25;
    p_misroute = r.chance(0.5) ? 0 : 0.2;
    faults = is("V07") || is("K02") || is("K03") || is("V08") || is("V10") || is("V11") ? r.chance(0.85) : r.chance(0.08);
    p_fault = is("V07") ? 0.8 : is("V08") ? 0.4 : 0.25;
    double p_forge = is("V01") ? 0.8 : is("V07") ? 0.6 : 0.25;
    static const int64_t kBase[] = {1700000000, 1700000000, 1700000000, 1000000000, 100, 2147483640, 4294967290};
    base = kBase[r.below(sizeof kBase / sizeof *kBase)];
    plan.ops.push_back(op("start", {base}));

    struct Issuer {
      std::vector<int> mats, kids;
    };
    std::vector<Issuer> iss(nissuer);
    auto rotate = [&](Issuer& i) {
      i.mats.clear();
      i.kids.clear();
      int n = 1 + (int)r.geo(0.5, 4);
      for (int k = 0; k < n; k++) {
        i.mats.push_back(pick_mat());
        i.kids.push_back(pick_kid(0.3));
      }
    };
    for (auto& i : iss) rotate(i);
    std::vector<int> nodeiss(nver);  // bit mask of issuers trusted
    std::map<int, std::vector<std::pair<int, int>>> last_mk;
    auto publish = [&](int v, std::vector<Op>* out) {
      std::vector<std::pair<int, int>> mk;
      for (int i = 0; i < nissuer; i++)
        if (nodeiss[v] >> i & 1)
          for (size_t k = 0; k < iss[i].mats.size(); k++) mk.push_back({iss[i].mats[k], iss[i].kids[k]});
      // strangers' keys in between
      int extra = r.chance(0.5) ? 0 : (int)r.below(4);
      if (r.chance(is("V02") || is("K01") ? 0.12 : 0.03)) extra = r.chance(0.7) ? 12 + (int)r.below(26) : 40 + (int)r.below(r.chance(0.5) ? 90 : 280);
      for (int k = 0; k < extra; k++)
        mk.insert(mk.begin() + r.below(mk.size() + 1), {extra > 40 && r.chance(0.9) ? mat_of(OCT_F, r.next()) : pick_mat(), pick_kid(0.3)});
      if (r.chance(0.3)) std::reverse(mk.begin(), mk.end());
      if (is("V03") && r.chance(0.3) && mk.size() > 1)  // one id for several keys
        for (auto& m : mk) m.second = mk[0].second;
      int fmt = -1;
      if (mk.size() > 1) fmt = r.chance(0.85) ? 0 : 1;
      else fmt = (int)r.weighted({4, 1, 1, 3});
      last_mk[v] = mk;
      return add_doc(mk, out, fmt);
    };
    auto load = [&](int v, int doc, std::vector<Op>* out) {
      int corrupt = 0;
      if (r.chance(is("V11") ? 0.5 : is("K01") ? 0.12 : 0.05)) corrupt = 1 + (int)r.below(12);
      if (is("V11") && r.chance(0.004)) corrupt = 13 + (int)r.below(4);
      bool f = (is("K03") && r.chance(0.8)) || (faults && r.chance(0.2));
      int reps = is("K03") ? (r.chance(0.5) ? 3 : 1) : 1;
      if (f) out->push_back(fault_op());
      out->push_back(op("load", {v, doc, corrupt, (int64_t)r.below(1 << 30), r.chance(0.5) ? 1 : 0, reps}));
      if (f && r.chance(0.7)) out->push_back(op("load", {v, doc, 0, 0, 0, 1}));
    };
    auto addpem = [&](int v, std::vector<Op>* out) {
      if ((is("K02") && r.chance(0.6)) || (faults && r.chance(0.2))) out->push_back(fault_op());
      int mat = pick_mat();
      if (!iss.empty() && r.chance(0.5)) mat = iss[r.below(iss.size())].mats[0];
      int alg = r.chance(0.4) ? -1 : r.chance(0.85) ? natural(mat, r.next()) : (int)r.below(keyalg_pool().size());
      int quirk = r.chance(is("K02") ? 0.3 : 0.15) ? 20 + (int)r.below(10) : r.chance(0.35) ? 1 + (int)r.below(5) : 0;
      out->push_back(op("pem", {v, mat, pick_kid(0.3), alg, quirk, (int64_t)r.below(100000)}));
    };

    int64_t clock_off[4] = {0, 0, 0, 0};
    for (int v = 0; v < nver; v++) {
      nodeiss[v] = (int)r.below(1 << nissuer);
      if (r.chance(0.7)) nodeiss[v] |= 1 << r.below(nissuer);
      std::vector<Op> out;
      if (r.chance(0.4)) {
        clock_off[v] = r.range(-120, 120);
        out.push_back(op("jmp", {v, clock_off[v] * 1000000000ll}));
      }
      Op a = op("audc", {v});
      int na = r.chance(is("V06") ? 0.08 : 0.35) ? 0 : 1 + (int)r.geo(0.5, 5);
      if (is("V06") && r.chance(0.04)) na = 20 + (int)r.below(180);
      bool related = r.chance(0.6);
      for (int k = 0; k < na; k++) a.a.push_back((int64_t)(related ? (aud_group * 8 + r.below(8)) % aud_pool().size() : r.below(aud_pool().size())));
      out.push_back(a);
      load(v, publish(v, &out), &out);
      int adds = is("K02") ? (int)r.below(5) : r.chance(0.2) ? 1 : 0;
      for (int k = 0; k < adds; k++) addpem(v, &out);
      at(v, out);
    }
    const int64_t S = 1000000000ll;
    // Issue tokens and put them on the network.
    int ntok = 1 + (int)r.below(is("V10") ? 5 : 7);
    int64_t t = 10 * S;
    struct Sent {
      int tok, v;
      int64_t t;
    };
    std::vector<Sent> sent;
    for (int k = 0; k < ntok; k++) {
      t += r.range(0, 40) * S;
      std::vector<Op> out;
      if (r.chance(0.15)) {
        Issuer& i = iss[r.below(iss.size())];
        rotate(i);
        for (int v = 0; v < nver; v++) {
          if (r.chance(0.3)) continue;  // stale: never hears of it
          std::vector<Op> o2;
          load(v, publish(v, &o2), &o2);
          at(t + r.range(0, 60) * S, o2);
        }
        out.push_back(op("net", {7}));
      }
      Issuer& i = iss[r.below(iss.size())];
      size_t ki = r.below(i.mats.size());
      int kid = i.kids[ki], mat = i.mats[ki];
      if (r.chance(0.12)) kid = pick_kid(0.4);  // issuer and publisher disagree
      if (r.chance(0.08)) mat = pick_mat();     // a stranger's key
      int alg = natural(mat, r.next());
      if (mat_is_ec(mat) && r.chance(0.06)) alg = 6 + (int)r.below(3);
      int id = add_tok(mat, kid, alg, base + t / S, &out);
      if (r.chance(p_forge)) {
        int fid = next_tok++;
        Tok ft = toks.back();
        ft.id = fid;
        ft.genuine = false;
        out.push_back(op("forge", {fid, forge_kind(mat), id, (int64_t)r.below(kMats), (int64_t)r.below(1 << 30)}));
        toks.push_back(ft);
      }
      at(t, out);
      // the network
      std::vector<int> ids = {id};
      if (!toks.back().genuine) ids.push_back(toks.back().id);
      for (int tid : ids) {
        int copies = 1 + (int)r.geo(0.6, 3);
        for (int c = 0; c < copies; c++) {
          std::vector<Op> o;
          if (r.chance(p_lose)) {
            o.push_back(op("net", {1}));
            at(t, o);
            continue;
          }
          int v = (int)r.below(nver);
          if (r.chance(p_misroute)) {
            v = (int)r.below(nver);
            o.push_back(op("net", {5}));
          }
          int64_t delay = r.chance(0.7) ? r.range(0, 5) : r.range(5, 4000);
          int64_t when = t + delay * S + (int64_t)r.below(S);
          if (delay > 5) o.push_back(op("net", {3}));
          for (auto& s : sent)
            if (s.v == v && s.tok < tid && s.t > when) {
              o.push_back(op("net", {4}));
              break;
            }
          sent.push_back({tid, v, when});
          o.push_back(deliver(tid, v, base + when / S + clock_off[v], &o));
          at(when, o);
          if (r.chance(p_dup)) {
            std::vector<Op> o2 = {op("net", {2})};
            int64_t w2 = when + (r.chance(0.5) ? 0 : r.range(1, 300) * S);
            o2.push_back(deliver(tid, v, base + w2 / S + clock_off[v], &o2));
            at(w2, o2);
          }
        }
      }
      // a verifier that has this token before it over and over while its key
      // set is replaced (whatever it remembers about a token or about an object
      // that used to be at some address has gone stale)
      if (r.chance(is("V01") || is("V08") || is("V03") || is("V10") ? 0.2 : 0.04)) {
        int w = (int)r.below(nver);
        std::vector<Op> o3;
        int n = 2 + (int)r.below(4);
        for (int c = 0; c < n; c++) {
          Op d = deliver(r.chance(0.85) ? id : toks[r.below(toks.size())].id, w, base + t / S + clock_off[w], &o3);
          d.a[10] = 0;
          if (r.chance(0.8)) d.a[5] = 0;
          if (r.chance(0.5)) d.a[8] = 0;
          o3.push_back(d);
          if (r.chance(0.5)) {
            for (auto& x : iss)
              if (r.chance(0.4)) rotate(x);
          }
          if (r.chance(0.5) && last_mk.count(w)) {
            // the same set again, but the signer's key is another one now, or is back
            auto mk = last_mk[w];
            Fam fam = mat_fam(mat);
            int other = mat_of(fam, r.next());
            bool had = false;
            for (auto& x : mk)
              if (x.first == mat) had = true, x.first = other;
            if (!had)
              for (auto& x : mk)
                if (mat_fam(x.first) == fam) {
                  x.first = mat;
                  if (r.chance(0.5)) x.second = kid;
                  break;
                }
            load(w, add_doc(mk, &o3, mk.size() == 1 ? -1 : 0), &o3);
            last_mk[w] = mk;
          } else if (r.chance(0.7)) {
            load(w, publish(w, &o3), &o3);
            if (r.chance(0.3)) load(w, next_doc - 1, &o3);
          }
        }
        at(t + 3 * S, o3);
      }
      // a verifier that is given other audiences, which differ in one from those before
      if (r.chance(is("V06") || is("V08") ? 0.15 : is("V10") ? 0.03 : 0.008)) {
        int w = (int)r.below(nver);
        std::vector<Op> o3;
        auto some = [&] { return (int64_t)(r.chance(0.6) ? (aud_group * 8 + r.below(8)) % aud_pool().size() : r.below(aud_pool().size())); };
        Op a = op("audc", {w});
        for (int c = 1 + (int)r.geo(0.4, 5); c > 0; c--) a.a.push_back(some());
        for (int c = 2 + (int)r.below(5); c > 0; c--) {
          o3.push_back(a);
          for (int k = 1 + (int)r.below(2); k > 0; k--) {
            Op d = deliver(r.chance(0.8) ? id : toks[r.below(toks.size())].id, w, base + t / S + clock_off[w], &o3);
            static const int64_t kE[] = {3, 4, 6};
            if (r.chance(0.9)) d.a[2] = kE[r.below(3)];
            if (r.chance(0.9)) d.a[5] = 0;
            o3.push_back(d);
          }
          switch (r.below(5)) {
            case 0: if (a.a.size() > 2) { size_t x = 1 + r.below(a.a.size() - 1); a.a.erase(a.a.begin() + x); break; }  // or another
            case 1: case 2: a.a[1 + r.below(a.a.size() - 1)] = some(); break;
            case 3: a.a.insert(a.a.begin() + 1 + r.below(a.a.size()), some()); break;
            case 4: std::swap(a.a[1], a.a.back()); break;
          }
        }
        at(t + 3 * S, o3);
      }
      // one delivery again and again, with each of the calls inside it failing in turn
      if (faults && r.chance(is("V07") ? 0.12 : is("V08") || is("V10") ? 0.02 : 0.002)) {
        int w = (int)r.below(nver);
        std::vector<Op> o3;
        int tid = r.chance(0.4) && !ids.empty() ? ids.back() : toks[r.below(toks.size())].id;
        bool forged = false;
        if (r.chance(0.5)) {
          static const int kF[] = {4, 4, 28, 28, 10, 20, 21, 22, 7, 7, 6};
          int on = id;
          bool own = is("V07") && r.chance(0.6);  // by a key the verifier has, so that only the signature stands against it
          if (own) {
            int m = r.chance(0.5) ? mat_of(EC_F, r.next()) : pick_mat(), ka = r.chance(0.5) ? -1 : (int)r.below(12);
            load(w, add_doc({{m, ka}}, &o3, 0), &o3);
            last_mk[w] = {{m, ka}};
            on = add_tok(m, ka, natural(m, r.next()), base + t / S + clock_off[w], &o3);
          }
          Tok ft{};
          for (auto& x : toks)
            if (x.id == on) ft = x;
          tid = next_tok++;
          ft.id = tid;
          ft.genuine = false;
          o3.push_back(op("forge", {tid, own && r.chance(0.5) ? (r.chance(0.5) ? 7 : 28) : kF[r.below(11)], on, (int64_t)r.below(kMats), (int64_t)r.below(1 << 30)}));
          toks.push_back(ft);
          forged = true;
        }
        std::vector<Op> unused;
        bool near = !forged && r.chance(is("V07") ? 0.6 : 0.15);
        if (near) {  // a token that one thing only stands against: another key id, or the time
          static const int kLong[] = {8, 9, 10, 11, 48, 49, 50, 51, 52, 53, 54, 55};
          int m = pick_mat(), ka = kLong[r.below(12)], kb = r.chance(0.6) ? kLong[r.below(12)] : ka;
          load(w, add_doc({{m, ka}}, &o3, 0), &o3);
          last_mk[w] = {{m, ka}};
          tid = add_tok(m, kb, natural(m, r.next()), base + t / S + clock_off[w] - (kb != ka && r.chance(0.8) ? 0 : 100000), &o3);
        }
        Op d = deliver(tid, w, base + t / S + clock_off[w], &unused);
        if (near) d.a[8] = 0;
        d.a[7] = 1;
        d.a[9] &= ~16ll;
        d.a[2] = r.chance(0.6) ? 5 : 1;
        if (r.chance(0.7)) d.a[5] = 0;
        int kind = (int)r.weighted({0, 1, 1, 3, 1}), n = kind == 3 ? 14 : 60, from = kind == 3 ? 0 : (int)r.below(80);
        int64_t count = r.chance(0.85) ? 1 : -1;
        for (int c = 0; c < n; c++) {
          o3.push_back(op("fault", {kind, from + c, count}));
          o3.push_back(d);
        }
        at(t + 4 * S, o3);
      }
      // a client that keeps failing: nothing the verifier decides may come to
      // depend on how often it has refused
      if (r.chance(is("V08") ? 0.08 : is("V01") ? 0.02 : 0.004)) {
        int w = (int)r.below(nver);
        std::vector<Op> o3;
        Op d = deliver(toks[r.below(toks.size())].id, w, base + t / S + clock_off[w], &o3);
        d.a[7] = 1;
        d.a[8] = 0;
        d.a[9] &= ~16ll;
        d.a[10] = 0;
        d.a[3] = base + t / S;
        if (d.a[2] == 0 || d.a[2] == 3) d.a[2] = 1;
        int n = r.chance(0.5) ? 12 + (int)r.below(60) : 60 + (int)r.below(240);
        bool same = r.chance(0.5);
        for (int c = 0; c < n; c++) {
          if (!same || c == 0) d.a[5] = 1 + (int64_t)r.below(30), d.a[6] = (int64_t)r.below(1 << 30);
          o3.push_back(d);
        }
        for (int c = 0; c < 2; c++) {
          Op g = deliver(id, w, base + t / S + clock_off[w], &o3);
          g.a[5] = 0;
          g.a[9] |= 16;
          o3.push_back(g);
        }
        o3.push_back(op("net", {2}));
        at(t + 4 * S, o3);
      }
      if (r.chance(is("V08") ? 0.02 : is("K03") ? 0.006 : 0.0005)) {
        int k = is("K03") ? 4 : (int)r.weighted({1, 1, 1, 1.5, 0.5});
        at(t + 5 * S, {op("sweep", {(int64_t)r.below(nver), k, (int64_t)r.below(8), (int64_t)r.below(1 << 30), (int64_t)r.below(4),
                                r.chance(0.3) ? (r.chance(0.1) ? 66000 : r.range(1000, 9000)) : 0})});
      }
      // things that happen around it
      int v = (int)r.below(nver);
      std::vector<Op> o;
      if (r.chance(is("V05") ? 0.6 : 0.15)) {
        int64_t j = r.chance(0.6) ? r.range(-200, 200) : r.range(-2000000000, 2000000000);
        o.push_back(op("jmp", {v, j * S + (int64_t)r.below(S)}));
      }
      if (r.chance(0.1)) o.push_back(op("errq", {(int64_t)r.range(1, 20)}));
      if (r.chance(is("K02") ? 0.9 : 0.1)) addpem(v, &o);
      if (is("K02") && r.chance(0.5)) addpem(v, &o);
      if (r.chance(is("V11") ? 0.9 : 0.04)) {
        int n = is("V11") ? 1 + (int)r.below(3) : 1;
        for (int z = 0; z < n; z++) {
          if (faults && r.chance(0.1)) o.push_back(fault_op());
          o.push_back(op("hostile", {v, (int64_t)r.below(5), (int64_t)r.below(1 << 30),
                                     (int64_t)(r.chance(0.9) ? r.below(400) : r.below(60000))}));
        }
      }
      if (is("K01") || is("K03"))
        if (r.chance(0.7)) load(v, publish(v, &o), &o);
      int nj = is("V10") ? 1 + (int)r.below(8) : r.chance(0.1) ? 2 : 0;
      for (int z = 0; z < nj; z++) {
        if (faults && r.chance(0.15)) o.push_back(fault_op());
        int64_t a = (int64_t)r.below(3), b = (int64_t)r.below(3);
        int tk = toks[r.below(toks.size())].id;
        switch (r.weighted({5, 2, 2, 1, 1, 1})) {
          case 0: o.push_back(op("jparse", {a, tk, r.chance(0.4) ? 1 + (int64_t)r.below(30) : 0, (int64_t)r.below(1 << 30)})); break;
          case 1: o.push_back(op("jassign", {a, b})); break;
          case 2: o.push_back(op("jcopy", {a, b})); break;
          case 3: o.push_back(op("jself", {a})); break;
          case 4: o.push_back(op("jalias", {a, (int64_t)r.below(8)})); break;
          case 5: o.push_back(op("jpart", {a, tk, (int64_t)r.below(9), (int64_t)r.below(1 << 30)})); break;
        }
      }
      if (!o.empty()) at(t + r.range(0, 30) * S, o);
    }
    int64_t last = 0;
    while (!q.empty()) {
      Ev e = q.top();
      q.pop();
      if (e.t > last) {
        plan.ops.push_back(op("adv", {e.t - last}));
        last = e.t;
      }
      for (auto& o : e.ops) plan.ops.push_back(o);
    }
    return plan;
  }
};

}  // namespace

Plan deploy_gen(const std::string& profile, uint64_t seed) {
  Gen g(profile, seed);
  return g.make(seed);
}

}  // namespace sim
