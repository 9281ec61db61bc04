From e1f1a5921aee564a61a27e1bd2eb7a99f58fc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 01/13] fix: refuse tokens with empty sections between or
 around the dots

Splitting skipped empty sections, so "a..b.c", ".a.b.c" and "a.b.c." were
taken for the three-section token "a.b.c" although that text was never signed.
---
 src/jwt.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..a410fa9 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -50,9 +50,9 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 Status Jwt::parseFromString(const std::string& jwt) {
   // jwt must have exactly 2 dots with 3 sections.
   jwt_ = jwt;
-  std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
-  if (jwt_split.size() != 3) {
+  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt, '.');
+  if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
+      jwt_split[2].empty()) {
     return Status::JwtBadFormat;
   }
 
-- 
2.43.0


From 2ff4106186e6f82f6354ea97d77a99e0e86e63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 02/13] fix: forget the previous token when a Jwt object is
 parsed or assigned again

Parsing into (or assigning to) a Jwt that already held a token kept every field
the new text did not set: key id, expiry, signature of a failed parse, and the
audiences of both tokens together.
---
 src/jwt.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index a410fa9..708c785 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -48,9 +48,28 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 }
 
 Status Jwt::parseFromString(const std::string& jwt) {
-  // jwt must have exactly 2 dots with 3 sections.
+  // Forget whatever an earlier parse left behind. jwt may be one of this
+  // object's own fields, so only the copy is used from here on.
   jwt_ = jwt;
-  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt, '.');
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
+
+  // jwt must have exactly 2 dots with 3 sections.
+  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt_, '.');
   if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
       jwt_split[2].empty()) {
     return Status::JwtBadFormat;
-- 
2.43.0


From 7a8fbd8112b3c851c203597a649c4868e06e0329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 03/13] fix: do not let now, nbf or exp plus the clock skew
 wrap around

An expiry near the end of the range wrapped to a small number and made a token
that never expires look expired; a large now or skew wrapped as well.
---
 src/jwt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 708c785..7d370d1 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -166,11 +166,11 @@ Status Jwt::parseFromString(const std::string& jwt) {
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  if (nbf_ > now && nbf_ - now > clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > exp_ && now - exp_ > clock_skew) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From ddacd08a587a8aa51b8459d04fe9f16b512d18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 04/13] fix: read the wall clock itself when no time is given

absl::Now() extrapolates from the cycle counter and notices a step of the wall
clock only seconds later, and a clock before 1970 was converted to a huge
unsigned time that passes every not-before check.
---
 src/verify.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..ca41906 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -14,8 +14,9 @@
 
 #include "jwt_verify_lib/verify.h"
 
+#include <chrono>
+
 #include "absl/strings/string_view.h"
-#include "absl/time/clock.h"
 #include "jwt_verify_lib/check_audience.h"
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
@@ -205,6 +206,14 @@ Status verifySignatureEd25519(absl::string_view key,
   return Status::JwtVerificationFail;
 }
 
+// The wall clock in seconds since the unix epoch, 0 before it.
+uint64_t currentTimeInSeconds() {
+  const int64_t now = std::chrono::duration_cast<std::chrono::seconds>(
+                          std::chrono::system_clock::now().time_since_epoch())
+                          .count();
+  return now > 0 ? static_cast<uint64_t>(now) : 0;
+}
+
 }  // namespace
 
 Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
@@ -300,7 +309,7 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
 }
 
 Status verifyJwt(const Jwt& jwt, const Jwks& jwks) {
-  return verifyJwt(jwt, jwks, absl::ToUnixSeconds(absl::Now()));
+  return verifyJwt(jwt, jwks, currentTimeInSeconds());
 }
 
 Status verifyJwt(const Jwt& jwt, const Jwks& jwks, uint64_t now,
@@ -315,7 +324,7 @@ Status verifyJwt(const Jwt& jwt, const Jwks& jwks, uint64_t now,
 
 Status verifyJwt(const Jwt& jwt, const Jwks& jwks,
                  const std::vector<std::string>& audiences) {
-  return verifyJwt(jwt, jwks, audiences, absl::ToUnixSeconds(absl::Now()));
+  return verifyJwt(jwt, jwks, audiences, currentTimeInSeconds());
 }
 
 Status verifyJwt(const Jwt& jwt, const Jwks& jwks,
-- 
2.43.0


From a3a7201888e67243f024883f9f4c65f15a68e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 05/13] fix: require EC signatures to have the length of their
 curve

The signature was cut in two halves of any length, so zero-extended or
shortened halves and a trailing odd byte were accepted.
---
 src/verify.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index ca41906..441cb24 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -20,6 +20,8 @@
 #include "jwt_verify_lib/check_audience.h"
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
+#include "openssl/ec.h"
+#include "openssl/ec_key.h"
 #include "openssl/ecdsa.h"
 #include "openssl/err.h"
 #include "openssl/evp.h"
@@ -133,6 +135,14 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
 
+  // https://tools.ietf.org/html/rfc7518#section-3.4: R and S, each exactly as
+  // long as the order of the curve.
+  const size_t order_len =
+      BN_num_bytes(EC_GROUP_get0_order(EC_KEY_get0_group(key)));
+  if (signature_len != 2 * order_len) {
+    return false;
+  }
+
   if (BN_bin2bn(signature, signature_len / 2, ecdsa_sig->r) == nullptr ||
       BN_bin2bn(signature + (signature_len / 2), signature_len / 2,
                 ecdsa_sig->s) == nullptr) {
-- 
2.43.0


From a20f76c74733402e085c2cc7961021a657c3bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 06/13] fix: use a key without "alg" only for algorithms of its
 own type

An EC, oct or OKP key without "alg" was tried whatever algorithm the token
named: an ES256 signature passed under "alg":"RS256", and an Ed25519 key ended
the search with "wrong signature length" before the right key was reached.
---
 src/verify.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 441cb24..25be124 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -245,7 +245,7 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
     }
     kid_alg_matched = true;
 
-    if (jwk->kty_ == "EC") {
+    if (jwk->kty_ == "EC" && jwt.alg_.compare(0, 2, "ES") == 0) {
       const EVP_MD* md;
       if (jwt.alg_ == "ES384") {
         md = EVP_sha384();
@@ -285,7 +285,7 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
           return Status::Ok;
         }
       }
-    } else if (jwk->kty_ == "oct") {
+    } else if (jwk->kty_ == "oct" && jwt.alg_.compare(0, 2, "HS") == 0) {
       const EVP_MD* md;
       if (jwt.alg_ == "HS384") {
         md = EVP_sha384();
@@ -300,7 +300,8 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         // Verification succeeded.
         return Status::Ok;
       }
-    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519") {
+    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519" &&
+               jwt.alg_ == "EdDSA") {
       Status status = verifySignatureEd25519(jwk->okp_key_raw_, jwt.signature_,
                                              signed_data);
       // For verification failures keep going and try the rest of the keys in
-- 
2.43.0


From ebdede95d5526008d4023f66b0de5d9ee4c71571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 07/13] fix: check crypto objects for null and leave no errors
 behind when memory runs out

EVP_PKEY_new, EVP_MD_CTX_create and BIO_new return null when an allocation
fails; verification and certificate loading then used the null pointer. Several
early returns also left the failure in the thread's error queue.
---
 src/jwks.cc   |  3 +++
 src/verify.cc | 21 ++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..4c5aee4 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -365,6 +365,9 @@ Status extractJwk(const ::google::protobuf::Struct& jwk_pb, Jwks::Pubkey* jwk) {
 
 Status extractX509(const std::string& key, Jwks::Pubkey* jwk) {
   jwk->bio_.reset(BIO_new(BIO_s_mem()));
+  if (jwk->bio_ == nullptr) {
+    return Status::JwksBioAllocError;
+  }
   if (BIO_write(jwk->bio_.get(), key.c_str(), key.length()) <= 0) {
     return Status::JwksX509BioWriteError;
   }
diff --git a/src/verify.cc b/src/verify.cc
index 25be124..d8cb6ba 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -47,11 +47,16 @@ bool verifySignatureRSA(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
-  if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+  if (evp_pkey == nullptr || EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+    ERR_clear_error();
     return false;
   }
 
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (md_ctx == nullptr) {
+    ERR_clear_error();
+    return false;
+  }
   if (EVP_DigestVerifyInit(md_ctx.get(), nullptr, md, nullptr,
                            evp_pkey.get()) == 1) {
     if (EVP_DigestVerifyUpdate(md_ctx.get(), signed_data, signed_data_len) ==
@@ -79,11 +84,16 @@ bool verifySignatureRSAPSS(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
-  if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+  if (evp_pkey == nullptr || EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+    ERR_clear_error();
     return false;
   }
 
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (md_ctx == nullptr) {
+    ERR_clear_error();
+    return false;
+  }
   // pctx is owned by md_ctx, no need to free it separately.
   EVP_PKEY_CTX* pctx;
   if (EVP_DigestVerifyInit(md_ctx.get(), &pctx, md, nullptr, evp_pkey.get()) ==
@@ -118,20 +128,24 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
 
-  if (EVP_DigestInit(md_ctx.get(), md) == 0) {
+  if (md_ctx == nullptr || EVP_DigestInit(md_ctx.get(), md) == 0) {
+    ERR_clear_error();
     return false;
   }
 
   if (EVP_DigestUpdate(md_ctx.get(), signed_data, signed_data_len) == 0) {
+    ERR_clear_error();
     return false;
   }
 
   if (EVP_DigestFinal(md_ctx.get(), digest.data(), &digest_len) == 0) {
+    ERR_clear_error();
     return false;
   }
 
   bssl::UniquePtr<ECDSA_SIG> ecdsa_sig(ECDSA_SIG_new());
   if (!ecdsa_sig) {
+    ERR_clear_error();
     return false;
   }
 
@@ -146,6 +160,7 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
   if (BN_bin2bn(signature, signature_len / 2, ecdsa_sig->r) == nullptr ||
       BN_bin2bn(signature + (signature_len / 2), signature_len / 2,
                 ecdsa_sig->s) == nullptr) {
+    ERR_clear_error();
     return false;
   }
 
-- 
2.43.0


From 9512c0c08b0a306938fe1943a7d26ba9e42342fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 08/13] fix: keep no keys of a certificate map that fails to
 load

The certificates before the bad one stayed in the failed key set (which ones
depends on hash map order), and verification used them.
---
 src/jwks.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 4c5aee4..01703fe 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -412,6 +412,8 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
     if (status != Status::Ok) {
+      // A failed load leaves no keys, not the ones before the bad one.
+      keys.clear();
       return status;
     }
 
-- 
2.43.0


From 5dd9c37bf4f165e1e865752d0a6bdfdfbf7335dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 09/13] fix: keep the LRU list intact when lookups with
 different options overlap

---
 simple_lru_cache/simple_lru_cache_inl.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..4d4b575 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -679,12 +679,10 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::lookupWithOptions(
   if (iter != table_.end()) {
     // We set last_use_ upon Release, not during lookup.
     Elem* e = iter->second;
-    if (e->pin == 0) {
-      pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->unlink();
-    }
+    if (e->pin == 0) pinned_units_ += e->units;
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    if (lru_ && options.update_eviction_order()) e->unlink();
     e->pin++;
     return e->value;
   }
@@ -735,11 +733,20 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     assert(e->pin > 0);
     if (lru_ && options.update_eviction_order()) {
       e->last_use_ = SimpleCycleTimer::now();
+      e->unlink();
     }
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      // Lookups with different options may have overlapped, so the entry may
+      // still be on the list, or have been used before others on the list.
+      if (!e->isLinked()) {
+        Elem* newer = &head_;
+        while (newer->next != &head_ && newer->next->last_use_ > e->last_use_) {
+          newer = newer->next;
+        }
+        e->link(newer);
+      }
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
-- 
2.43.0


From 5540e2863550e8ecef6f6760ae1ee6603e29293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 10/13] fix: do not expire entries that are in use in LRU mode

---
 simple_lru_cache/simple_lru_cache_inl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 4d4b575..6fb41d2 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -928,10 +928,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
-    remove(e->key);
+    // In the LRU mode pinned elements are in use and so not idle (those looked
+    // up without updating the eviction order are on the list). In the age-based
+    // mode we push them out of the main table regardless of pinning.
+    if (e->pin == 0 || !lru_) remove(e->key);
     e = prev;
   }
 }
-- 
2.43.0


From a2b4d709d57f7a3d7d0a3dea2c4b8bc5b2742098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 11/13] fix: measure idle time and age with a clock that cannot
 be set

---
 simple_lru_cache/simple_lru_cache_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 6fb41d2..fd49b2d 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -77,7 +77,7 @@ class SimpleCycleTimer {
   // Return the current cycle in microseconds.
   static int64_t now() {
     return std::chrono::duration_cast<std::chrono::microseconds>(
-               std::chrono::system_clock::now().time_since_epoch())
+               std::chrono::steady_clock::now().time_since_epoch())
         .count();
   }
   // Return number of cycles in a second.
-- 
2.43.0


From 100eee69975b9bfc5fbf6da3621e3f4a911fd0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 12/13] fix: do not overflow the age of items unused for months

---
 simple_lru_cache/simple_lru_cache_inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index fd49b2d..84d1dd3 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -970,8 +970,11 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::ageOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::now() - head_.prev->last_use_) /
-         SimpleCycleTimer::frequency();
+  // Convert seconds and the rest separately to avoid integer overflow.
+  const int64_t cycles = SimpleCycleTimer::now() - head_.prev->last_use_;
+  const int64_t frequency = SimpleCycleTimer::frequency();
+  return cycles / frequency * kSecToUsec +
+         cycles % frequency * kSecToUsec / frequency;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0


From ceefdf9faaaeafa8f30380755e724f3a615a3660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 13/13] fix: keep the cache consistent when it runs out of
 memory

---
 simple_lru_cache/simple_lru_cache_inl.h | 54 +++++++++++++------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 84d1dd3..bbbbc18 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -47,6 +47,7 @@ limitations under the License.
 #include <chrono>
 #include <cmath>
 #include <limits>
+#include <memory>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -569,7 +570,7 @@ class SimpleLRUCacheBase {
   bool isOverfullInternal() const {
     return ((units_ > max_units_) || isOverfull());
   }
-  void remove(Elem* e);
+  void removeAt(TableIterator iter);
 
  public:
   static const size_t kElemSize = sizeof(Elem);
@@ -632,10 +633,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setTimeout(double seconds,
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::removeAll() {
   // For each element: call "Remove"
-  for (TableIterator iter = table_.begin(); iter != table_.end(); ++iter) {
-    remove(iter->second);
+  for (TableIterator iter = table_.begin(); iter != table_.end();) {
+    TableIterator current = iter++;
+    removeAt(current);
   }
-  table_.clear();
 }
 
 template <class Key, class Value, class MapType, class EQ>
@@ -763,13 +764,16 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::insertPinned(const Key& k,
   // Get rid of older entry (if any) from table
   remove(k);
 
-  // Make new element
-  Elem* e = new Elem(k, value, 1, units, SimpleCycleTimer::now());
+  // Make new element and add it to the table. Both may fail for lack of memory.
+  std::unique_ptr<Elem> elem(
+      new Elem(k, value, 1, units, SimpleCycleTimer::now()));
+  Elem* e = elem.get();
+  table_[k] = e;
+  elem.release();
 
-  // Adjust table, total units fields.
+  // Adjust total units fields.
   units_ += units;
   pinned_units_ += units;
-  table_[k] = e;
 
   // If we are in the strict age-based eviction mode, the entry goes on the LRU
   // list now and is never removed. In the LRU mode, the list will only contain
@@ -843,33 +847,31 @@ bool SimpleLRUCacheBase<Key, Value, MapType, EQ>::inDeferredTable(
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::remove(const Key& k) {
   TableIterator iter = table_.find(k);
-  if (iter != table_.end()) {
-    Elem* e = iter->second;
-    table_.erase(iter);
-    remove(e);
-  }
+  if (iter != table_.end()) removeAt(iter);
 }
 
 template <class Key, class Value, class MapType, class EQ>
-void SimpleLRUCacheBase<Key, Value, MapType, EQ>::remove(Elem* e) {
-  // Unlink e whether it is in the LRU or the deferred list. It is safe to call
-  // unlink() if it is not in either list.
-  e->unlink();
+void SimpleLRUCacheBase<Key, Value, MapType, EQ>::removeAt(TableIterator iter) {
+  Elem* e = iter->second;
   if (e->pin > 0) {
-    pinned_units_ -= e->units;
-
-    // Now add it to the deferred table.
-    DeferredTableIterator iter = defer_.find(e->key);
-    if (iter == defer_.end()) {
-      // Inserting a new key, the element becomes the head of the list.
+    // Add it to the deferred table before changing anything else, as this may
+    // fail for lack of memory.
+    const auto deferred = defer_.insert(std::make_pair(e->key, e));
+    // Unlink e if it is in the LRU list. It is safe to call unlink() if it is
+    // not.
+    e->unlink();
+    if (deferred.second) {
+      // Inserted a new key, the element becomes the head of the list.
       e->prev = e->next = e;
-      defer_[e->key] = e;
     } else {
       // There is already a deferred list for this key, attach the element to it
-      Elem* head = iter->second;
-      e->link(head);
+      e->link(deferred.first->second);
     }
+    pinned_units_ -= e->units;
+    table_.erase(iter);
   } else {
+    table_.erase(iter);
+    e->unlink();
     discard(e);
   }
 }
-- 
2.43.0

