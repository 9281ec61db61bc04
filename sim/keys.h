// Key material, signing and encoding on the issuers' side.  Nothing in here
// calls the code under test.
#pragma once
#include <stdint.h>

#include <string>
#include <vector>

#include "core.h"
#include "openssl/base.h"

namespace sim {

enum Fam { RSA_F, EC_F, OCT_F, OKP_F };
struct Mat {
  std::string name;
  Fam fam;
  std::string crv;      // EC: P-256..., OKP: Ed25519
  size_t order = 0;     // EC: bytes of the group order
  EVP_PKEY* pkey = nullptr;
  EC_KEY* ec = nullptr;
  RSA* rsa = nullptr;
  std::string n, e, x, y, raw;  // public parts, big endian (OKP: raw; oct: the secret)
  std::string edpriv;           // OKP: 64 byte private key
  std::string pub_pem, priv_pem, crt_pem;
};
const std::vector<Mat>& mats();
extern const std::string kX25519Pem;
int mat_count(Fam f);
int mat_of(Fam f, uint64_t i);  // i-th material of a family (mod count)
int mat_natural(int mat, uint64_t pick);  // an algorithm for it
bool mat_is_ec(int mat);
Fam mat_fam(int mat);
extern const int kMats;
void keys_init();

extern const std::vector<std::string> kAlgs;  // the 13 supported ones
int alg_index(const std::string& a);
Fam alg_fam(int alg);
bool alg_pss(int alg);
const EVP_MD* alg_md(int alg);
// Is this the combination the standard defines (curve fits hash, key big enough)?
bool alg_proper(int alg, const Mat& m);
int natural_alg(const Mat& m, uint64_t pick);

// Signs `data`; how: 0 normal, 1 short r, 2 short s (EC); PSS: 3 empty salt, 4 odd salt.
std::string sign(const Mat& m, int alg, const std::string& data, uint64_t seed, int how = 0);
std::string hmac(int alg, const std::string& key, const std::string& data);
std::string ec_twin(const Mat& m, const std::string& sig);      // (r, n-s)
std::string ec_zero_digest_forgery(const Mat& m, uint64_t seed);  // verifies for digest 0, needs no private key
std::string ec_to_der(const Mat& m, const std::string& sig);
std::string ed_add_l(const std::string& sig);  // S + L

std::string b64u(const std::string& s);
std::string b64(const std::string& s);
// Every alphabet character (either alphabet) in order, everything else skipped.
std::string b64_lenient(const std::string& s);
bool b64u_strict(const std::string& s, std::string* out);
std::string jquote(const std::string& s, int style = 0);  // JSON string literal

}  // namespace sim
