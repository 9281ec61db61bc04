#include "keys.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "openssl/bn.h"
#include "openssl/curve25519.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/mem.h"
#include "openssl/nid.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"

// Exported by libcrypto, not in every header version.
extern "C" ECDSA_SIG* ECDSA_sign_with_nonce_and_leak_private_key_for_testing(
    const uint8_t* digest, size_t digest_len, const EC_KEY* eckey, const uint8_t* nonce,
    size_t nonce_len);

namespace sim {

struct Fixture {
  const char* name;
  const char* text;
};
static const Fixture kFixtures[] = {
#include "fixtures.inc"
    {nullptr, nullptr}};

static std::string fixture(const std::string& name) {
  for (const Fixture* f = kFixtures; f->name; f++)
    if (name == f->name) return f->text;
  return "";
}

const std::vector<std::string> kAlgs = {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256",
                                        "ES384", "ES512", "HS256", "HS384", "HS512", "EdDSA"};
static std::vector<Mat> g_mats;
extern const int kMats;
const std::vector<Mat>& mats() { return g_mats; }
const std::string kX25519Pem = fixture("x25519.pub");

#define MUST(x)                                                   \
  do {                                                            \
    if (!(x)) {                                                   \
      fprintf(stderr, "keys: %s failed line %d\n", #x, __LINE__); \
      _Exit(6);                                                   \
    }                                                             \
  } while (0)

static std::string bn_bytes(const BIGNUM* b, size_t pad = 0) {
  size_t n = BN_num_bytes(b);
  if (pad < n) pad = n;
  std::string s(pad, 0);
  MUST(BN_bn2bin_padded((uint8_t*)&s[0], pad, b));
  return s;
}

static EVP_PKEY* read_priv(const std::string& pem) {
  BIO* b = BIO_new_mem_buf(pem.data(), pem.size());
  EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  return k;
}

void keys_init() {
  auto add = [](const std::string& name, Fam f) {
    Mat m;
    m.name = name;
    m.fam = f;
    m.priv_pem = fixture(name + ".pem");
    m.pub_pem = fixture(name + ".pub");
    m.crt_pem = fixture(name + ".crt");
    m.pkey = read_priv(m.priv_pem);
    MUST(m.pkey);
    if (f == RSA_F) {
      m.rsa = EVP_PKEY_get1_RSA(m.pkey);
      m.rsa->flags |= RSA_FLAG_NO_BLINDING;  // blinding draws real random numbers
      m.n = bn_bytes(RSA_get0_n(m.rsa));
      m.e = bn_bytes(RSA_get0_e(m.rsa));
    } else if (f == EC_F) {
      m.ec = EVP_PKEY_get1_EC_KEY(m.pkey);
      const EC_GROUP* g = EC_KEY_get0_group(m.ec);
      int nid = EC_GROUP_get_curve_name(g);
      m.crv = nid == NID_X9_62_prime256v1 ? "P-256" : nid == NID_secp384r1 ? "P-384" : "P-521";
      m.order = BN_num_bytes(EC_GROUP_get0_order(g));
      BIGNUM *x = BN_new(), *y = BN_new();
      MUST(EC_POINT_get_affine_coordinates_GFp(g, EC_KEY_get0_public_key(m.ec), x, y, nullptr));
      m.x = bn_bytes(x, m.order);
      m.y = bn_bytes(y, m.order);
      BN_free(x);
      BN_free(y);
    } else if (f == OKP_F) {
      m.crv = "Ed25519";
      uint8_t raw[64];
      size_t n = 32;
      MUST(EVP_PKEY_get_raw_public_key(m.pkey, raw, &n) == 1 && n == 32);
      m.raw.assign((char*)raw, 32);
      n = 64;
      MUST(EVP_PKEY_get_raw_private_key(m.pkey, raw, &n) == 1 && n == 32);
      m.edpriv = std::string((char*)raw, 32) + m.raw;
    }
    g_mats.push_back(m);
  };
  for (int i = 0; i < 5; i++) add("rsa" + std::to_string(i), RSA_F);
  for (int i = 0; i < 3; i++) add("ecp256_" + std::to_string(i), EC_F);
  for (int i = 0; i < 2; i++) add("ecp384_" + std::to_string(i), EC_F);
  for (int i = 0; i < 2; i++) add("ecp521_" + std::to_string(i), EC_F);
  for (int i = 0; i < 3; i++) add("ed" + std::to_string(i), OKP_F);
  const int lens[] = {5, 16, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 200, 1000};
  for (int len : lens) {
    Mat m;
    m.name = "oct" + std::to_string(len);
    m.fam = OCT_F;
    Rng r(7777 + len);
    for (int i = 0; i < len; i++) m.raw += (char)r.below(256);
    if (m.raw.back() == 0) m.raw.back() = 1;  // HMAC pads keys with zeros
    if (len == 32) m.raw[0] = 0;              // keys may start with and contain zeros
    if (len == 48) m.raw[20] = 0;
    g_mats.push_back(m);
  }
  // added later: big and odd-sized moduli, coordinates that start with zeros
  add("rsa5", RSA_F);
  add("rsa6", RSA_F);
  for (int i = 3; i < 5; i++) add("ecp256_" + std::to_string(i), EC_F);
  for (int i = 2; i < 4; i++) add("ecp384_" + std::to_string(i), EC_F);
  for (int i = 2; i < 4; i++) add("ecp521_" + std::to_string(i), EC_F);
  for (int i = 3; i < 6; i++) add("ed" + std::to_string(i), OKP_F);  // with zero bytes
  // secrets that look like text, encoded text, padded text
  const std::string texts[] = {"c2VjcmV0LXNlY3JldC1zZWNyZXQtc2VjcmV0LXNlY3JldA", " \tsecret with blanks around it\r\n ",
                               std::string("\0\0\0leading", 10), "\xef\xbb\xbf\xc3\x28 not utf-8 \xff\xfe"};
  for (auto& t : texts) {
    Mat m;
    m.name = "octtext" + std::to_string(g_mats.size());
    m.fam = OCT_F;
    m.raw = t;
    g_mats.push_back(m);
  }
  add("rsa7", RSA_F);  // 2047 and 2049 bits
  add("rsa8", RSA_F);
  MUST((int)g_mats.size() == kMats);
}

int mat_count(Fam f) {
  int n = 0;
  for (auto& m : g_mats) n += m.fam == f;
  return n;
}
// Numbering is needed by the generators too, which run before keys_init() in
// the supervising process: it is fixed here.
static const std::vector<int> kOf[4] = {
    {0, 1, 2, 3, 4, 29, 30, 44, 45},                       // RSA
    {5, 6, 7, 8, 9, 10, 11, 31, 32, 33, 34, 35, 36},       // EC
    {15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 40, 41, 42, 43},  // shared secrets
    {12, 13, 14, 37, 38, 39},                                          // Ed25519
};
const int kMats = 46;
int mat_of(Fam f, uint64_t i) { return kOf[f][i % kOf[f].size()]; }
int mat_natural(int mat, uint64_t pick) {
  for (int f = 0; f < 4; f++)
    for (size_t i = 0; i < kOf[f].size(); i++) {
      if (kOf[f][i] != mat) continue;
      if (f == RSA_F) return mat == 3 && pick % 6 == 5 ? 0 : (int)(pick % 6);
      if (f == OCT_F) return 9 + (int)(pick % 3);
      if (f == OKP_F) return 12;
      return mat < 8 || mat == 31 || mat == 32 ? 6 : mat < 10 || mat == 33 || mat == 34 ? 7 : 8;
    }
  return 0;
}
Fam mat_fam(int mat) {
  for (int f = 0; f < 4; f++)
    for (int m : kOf[f])
      if (m == mat) return (Fam)f;
  return RSA_F;
}
bool mat_is_ec(int mat) { return mat_natural(mat, 0) >= 6 && mat_natural(mat, 0) <= 8; }

int alg_index(const std::string& a) {
  for (size_t i = 0; i < kAlgs.size(); i++)
    if (kAlgs[i] == a) return (int)i;
  return -1;
}
Fam alg_fam(int alg) { return alg < 6 ? RSA_F : alg < 9 ? EC_F : alg < 12 ? OCT_F : OKP_F; }
bool alg_pss(int alg) { return alg >= 3 && alg < 6; }
const EVP_MD* alg_md(int alg) {
  switch (alg % 3) {
    case 1: return EVP_sha384();
    case 2: return EVP_sha512();
    default: return EVP_sha256();
  }
}
bool alg_proper(int alg, const Mat& m) {
  if (alg_fam(alg) != m.fam) return false;
  if (m.fam == EC_F) return (alg == 6 && m.crv == "P-256") || (alg == 7 && m.crv == "P-384") || (alg == 8 && m.crv == "P-521");
  if (m.fam == RSA_F && alg_pss(alg)) return m.n.size() >= EVP_MD_size(alg_md(alg)) * 2 + 2;
  return true;
}
int natural_alg(const Mat& m, uint64_t pick) {
  switch (m.fam) {
    case RSA_F: {
      int a = (int)(pick % 6);
      return alg_proper(a, m) ? a : 0;
    }
    case EC_F: return m.crv == "P-256" ? 6 : m.crv == "P-384" ? 7 : 8;
    case OCT_F: return 9 + (int)(pick % 3);
    case OKP_F: return 12;
  }
  return 0;
}

std::string hmac(int alg, const std::string& key, const std::string& data) {
  uint8_t out[64];
  unsigned n = 0;
  MUST(HMAC(alg_md(alg), key.data(), key.size(), (const uint8_t*)data.data(), data.size(), out, &n));
  return std::string((char*)out, n);
}

static std::string digest(const EVP_MD* md, const std::string& d) {
  uint8_t out[64];
  unsigned n = 0;
  MUST(EVP_Digest(d.data(), d.size(), out, &n, md, nullptr));
  return std::string((char*)out, n);
}

static std::string mgf1(const EVP_MD* md, const std::string& seed, size_t len) {
  std::string o;
  for (uint32_t c = 0; o.size() < len; c++) {
    std::string ctr = {(char)(c >> 24), (char)(c >> 16), (char)(c >> 8), (char)c};
    o += digest(md, seed + ctr);
  }
  o.resize(len);
  return o;
}

static std::string rsa_raw(RSA* k, const std::string& em) {
  std::string sig(RSA_size(k), 0);
  size_t n = 0;
  MUST(RSA_sign_raw(k, &n, (uint8_t*)&sig[0], sig.size(), (const uint8_t*)em.data(), em.size(),
                    RSA_NO_PADDING));
  sig.resize(n);
  return sig;
}

static std::string sign_pss(const Mat& m, int alg, const std::string& data, uint64_t seed, int how) {
  const EVP_MD* md = alg_md(alg);
  std::string h = digest(md, data);
  size_t bits = RSA_bits(m.rsa) - 1, emlen = (bits + 7) / 8, hl = h.size();
  size_t sl = how == 3 ? 0 : how == 4 ? 11 : hl;
  if (emlen < hl + sl + 2) return "";
  Rng r(seed);
  std::string salt;
  for (size_t i = 0; i < sl; i++) salt += (char)r.below(256);
  std::string hh = digest(md, std::string(8, 0) + h + salt);
  std::string db = std::string(emlen - sl - hl - 2, 0) + '\x01' + salt;
  std::string mask = mgf1(md, hh, db.size());
  for (size_t i = 0; i < db.size(); i++) db[i] ^= mask[i];
  db[0] &= 0xff >> (8 * emlen - bits);
  std::string em = db + hh + '\xbc';
  em = std::string(RSA_size(m.rsa) - em.size(), 0) + em;
  return rsa_raw(m.rsa, em);
}

static std::string ec_raw(const Mat& m, const ECDSA_SIG* s) {
  return bn_bytes(s->r, m.order) + bn_bytes(s->s, m.order);
}

static std::string sign_ec(const Mat& m, const EVP_MD* md, const std::string& data, uint64_t seed, int how) {
  std::string d = digest(md, data);
  Rng r(seed);
  std::string out;
  int tries = how == 1 || how == 2 ? (m.order == 32 ? 700 : 1) : 1;
  if (m.order == 66) tries = 12;
  for (int t = 0; t < tries; t++) {
    std::string nonce;
    for (size_t i = 0; i < m.order; i++) nonce += (char)r.below(256);
    // below the group order, and not zero
    if (m.order == 66) {
      nonce[0] = 0;
    } else {
      nonce[0] &= 0x7f;
    }
    nonce.back() |= 1;
    ECDSA_SIG* s = ECDSA_sign_with_nonce_and_leak_private_key_for_testing(
        (const uint8_t*)d.data(), d.size(), m.ec, (const uint8_t*)nonce.data(), nonce.size());
    MUST(s);
    out = ec_raw(m, s);
    ECDSA_SIG_free(s);
    if (how != 1 && how != 2) break;
    if (how == 1 && out[0] == 0) break;
    if (how == 2 && out[m.order] == 0) break;
  }
  return out;
}

std::string sign(const Mat& m, int alg, const std::string& data, uint64_t seed, int how) {
  switch (m.fam) {
    case RSA_F: {
      if (alg_pss(alg)) return sign_pss(m, alg, data, seed, how);
      const EVP_MD* md = alg_md(alg);
      std::string h = digest(md, data);
      std::string sig(RSA_size(m.rsa), 0);
      unsigned n = 0;
      MUST(RSA_sign(EVP_MD_type(md), (const uint8_t*)h.data(), h.size(), (uint8_t*)&sig[0], &n, m.rsa));
      sig.resize(n);
      return sig;
    }
    case EC_F: return sign_ec(m, alg_md(alg), data, seed, how);
    case OCT_F: return hmac(alg, m.raw, data);
    case OKP_F: {
      uint8_t sig[64];
      MUST(ED25519_sign(sig, (const uint8_t*)data.data(), data.size(), (const uint8_t*)m.edpriv.data()));
      return std::string((char*)sig, 64);
    }
  }
  return "";
}

std::string ec_twin(const Mat& m, const std::string& sig) {
  BIGNUM* s = BN_bin2bn((const uint8_t*)sig.data() + m.order, m.order, nullptr);
  MUST(BN_sub(s, EC_GROUP_get0_order(EC_KEY_get0_group(m.ec)), s));
  std::string o = sig.substr(0, m.order) + bn_bytes(s, m.order);
  BN_free(s);
  return o;
}

std::string ec_zero_digest_forgery(const Mat& m, uint64_t seed) {
  const EC_GROUP* g = EC_KEY_get0_group(m.ec);
  BN_CTX* ctx = BN_CTX_new();
  Rng rr(seed);
  BIGNUM *v = BN_new(), *x = BN_new(), *inv = BN_new();
  MUST(BN_set_word(v, (rr.next() >> 2) | 3));
  EC_POINT* p = EC_POINT_new(g);
  MUST(EC_POINT_mul(g, p, nullptr, EC_KEY_get0_public_key(m.ec), v, ctx));
  MUST(EC_POINT_get_affine_coordinates_GFp(g, p, x, nullptr, ctx));
  MUST(BN_nnmod(x, x, EC_GROUP_get0_order(g), ctx));
  MUST(BN_mod_inverse(inv, v, EC_GROUP_get0_order(g), ctx));
  MUST(BN_mod_mul(inv, inv, x, EC_GROUP_get0_order(g), ctx));
  std::string o = bn_bytes(x, m.order) + bn_bytes(inv, m.order);
  EC_POINT_free(p);
  BN_free(v);
  BN_free(x);
  BN_free(inv);
  BN_CTX_free(ctx);
  return o;
}

std::string ec_to_der(const Mat& m, const std::string& sig) {
  ECDSA_SIG* s = ECDSA_SIG_new();
  BN_bin2bn((const uint8_t*)sig.data(), m.order, s->r);
  BN_bin2bn((const uint8_t*)sig.data() + m.order, m.order, s->s);
  uint8_t* out = nullptr;
  size_t n = 0;
  MUST(ECDSA_SIG_to_bytes(&out, &n, s));
  std::string o((char*)out, n);
  OPENSSL_free(out);
  ECDSA_SIG_free(s);
  return o;
}

std::string ed_add_l(const std::string& sig) {
  static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7,
                                0xa2, 0xde, 0xf9, 0xde, 0x14, 0,    0,    0,    0,    0,    0,
                                0,    0,    0,    0,    0,    0,    0,    0,    0,    0x10};
  std::string o = sig;
  unsigned carry = 0;
  for (int i = 0; i < 32; i++) {
    carry += (uint8_t)o[32 + i] + L[i];
    o[32 + i] = (char)carry;
    carry >>= 8;
  }
  return o;
}

static const char kStd[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const std::string& s) {
  std::string o;
  uint32_t acc = 0;
  int bits = 0;
  for (unsigned char c : s) {
    acc = acc << 8 | c;
    bits += 8;
    while (bits >= 6) {
      bits -= 6;
      o += kStd[(acc >> bits) & 63];
    }
  }
  if (bits) o += kStd[(acc << (6 - bits)) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
std::string b64u(const std::string& s) {
  std::string o = b64(s);
  while (!o.empty() && o.back() == '=') o.pop_back();
  for (char& c : o) c = c == '+' ? '-' : c == '/' ? '_' : c;
  return o;
}
static int b64v(char c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '+' || c == '-') return 62;
  if (c == '/' || c == '_') return 63;
  return -1;
}
std::string b64_lenient(const std::string& s) {
  std::string o;
  uint32_t acc = 0;
  int bits = 0;
  for (char c : s) {
    int v = b64v(c);
    if (v < 0) continue;
    acc = acc << 6 | v;
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      o += (char)(acc >> bits);
    }
  }
  return o;
}
bool b64u_strict(const std::string& s, std::string* out) {
  for (char c : s)
    if (b64v(c) < 0 || c == '+' || c == '/') return false;
  *out = b64_lenient(s);
  return b64u(*out) == s;
}

std::string jquote(const std::string& s, int style) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c == 127 || (style == 1 && c < 128) || (style == 2 && c < 128 && i % 3 == 0)) {
      o += strf("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o + "\"";
}

}  // namespace sim
