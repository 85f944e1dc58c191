From 5017b626c0b786da890064785b1587818c9be4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 01/13] fix: reset the claims of the previous token when a Jwt
 is parsed again

Parsing into, or assigning to, a Jwt that already held a token kept the old
token's kid, iss, sub, jti, iat, nbf and exp where the new token has none, and
appended to its audiences. A failed parse kept all of the old token, which then
still verified.
---
 src/jwt.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..66f2360 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -48,10 +48,29 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 }
 
 Status Jwt::parseFromString(const std::string& jwt) {
-  // jwt must have exactly 2 dots with 3 sections.
+  // `jwt` may refer to a member of this object: only use the copy from here on.
   jwt_ = jwt;
+  // Forget the token parsed before, if any.
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
+
+  // jwt must have exactly 2 dots with 3 sections.
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
+      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
   if (jwt_split.size() != 3) {
     return Status::JwtBadFormat;
   }
-- 
2.43.0


From a2b9a8020a0393a7a6da3a77d0ff32a6325ff793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 02/13] fix: reject tokens with more than two dots

Empty sections were skipped before counting, so that "..a.b..c." was taken for
"a.b.c".
---
 src/jwt.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 66f2360..6cb630d 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -69,9 +69,9 @@ Status Jwt::parseFromString(const std::string& jwt) {
   jti_.clear();
 
   // jwt must have exactly 2 dots with 3 sections.
-  std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
-  if (jwt_split.size() != 3) {
+  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt_, '.');
+  if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
+      jwt_split[2].empty()) {
     return Status::JwtBadFormat;
   }
 
-- 
2.43.0


From d78dcbd531aef8f3a58bd98a0b9e237aaf681a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 03/13] fix: do not let the clock skew wrap around in the time
 checks

now + clock_skew and exp + clock_skew overflowed for a large clock skew, now or
exp, which then rejected tokens that are valid with any smaller skew, or
accepted tokens that are not valid yet.
---
 src/jwt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 6cb630d..3c97363 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -166,11 +166,11 @@ Status Jwt::parseFromString(const std::string& jwt) {
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  if (now < nbf_ && nbf_ - now > clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > exp_ && now - exp_ > clock_skew) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From 8445379dc68affed1283780de25e0dc3d2faedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 04/13] fix: GetUInt64 reports NaN as out of range

NaN passed both range comparisons, and its conversion to an integer is
undefined.
---
 src/struct_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index 077a1d5..18af83c 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -57,7 +57,8 @@ StructUtils::FindResult StructUtils::GetUInt64(const std::string& name,
   if (result != OK) {
     return result;
   }
-  if (double_value < 0 ||
+  // Negated, so that NaN is out of range too.
+  if (!(double_value >= 0) ||
       double_value >=
           static_cast<double>(std::numeric_limits<uint64_t>::max())) {
     return OUT_OF_RANGE;
-- 
2.43.0


From 033cbf72a3905027bf8ee6f8d976f67b161fcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 05/13] fix: only use a key with the algorithms of its type and
 curve

For keys without "alg", the alg of the token was not compared with the type of
the key: an oct key verified a RS256 token as HMAC-SHA256, an EC key a HS256
token as ECDSA-SHA256, and a P-256 key an ES384 one. An OKP key even ended the
search in the key set with JwtEd25519SignatureWrongLength, for a token of another
algorithm which a later key verifies.
---
 src/verify.cc | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..061ed64 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -19,6 +19,7 @@
 #include "jwt_verify_lib/check_audience.h"
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
+#include "openssl/ec.h"
 #include "openssl/ecdsa.h"
 #include "openssl/err.h"
 #include "openssl/evp.h"
@@ -104,13 +105,17 @@ bool verifySignatureRSAPSS(RSA* key, const EVP_MD* md,
                                signed_data.length());
 }
 
-bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
-                       size_t signature_len, const uint8_t* signed_data,
-                       size_t signed_data_len) {
+bool verifySignatureEC(EC_KEY* key, int nid, const EVP_MD* md,
+                       const uint8_t* signature, size_t signature_len,
+                       const uint8_t* signed_data, size_t signed_data_len) {
   if (key == nullptr || md == nullptr || signature == nullptr ||
       signed_data == nullptr) {
     return false;
   }
+  // The algorithm defines the curve to be used.
+  if (EC_GROUP_get_curve_name(EC_KEY_get0_group(key)) != nid) {
+    return false;
+  }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
@@ -146,11 +151,12 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
   return false;
 }
 
-bool verifySignatureEC(EC_KEY* key, const EVP_MD* md,
+bool verifySignatureEC(EC_KEY* key, int nid, const EVP_MD* md,
                        absl::string_view signature,
                        absl::string_view signed_data) {
-  return verifySignatureEC(key, md, castToUChar(signature), signature.length(),
-                           castToUChar(signed_data), signed_data.length());
+  return verifySignatureEC(key, nid, md, castToUChar(signature),
+                           signature.length(), castToUChar(signed_data),
+                           signed_data.length());
 }
 
 bool verifySignatureOct(const uint8_t* key, size_t key_len, const EVP_MD* md,
@@ -226,18 +232,24 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
     }
     kid_alg_matched = true;
 
+    // A key without "alg" is only used with the algorithms of its type.
     if (jwk->kty_ == "EC") {
       const EVP_MD* md;
-      if (jwt.alg_ == "ES384") {
+      int nid;
+      if (jwt.alg_ == "ES256") {
+        md = EVP_sha256();
+        nid = NID_X9_62_prime256v1;
+      } else if (jwt.alg_ == "ES384") {
         md = EVP_sha384();
+        nid = NID_secp384r1;
       } else if (jwt.alg_ == "ES512") {
         md = EVP_sha512();
+        nid = NID_secp521r1;
       } else {
-        // default to SHA256
-        md = EVP_sha256();
+        continue;
       }
 
-      if (verifySignatureEC(jwk->ec_key_.get(), md, jwt.signature_,
+      if (verifySignatureEC(jwk->ec_key_.get(), nid, md, jwt.signature_,
                             signed_data)) {
         // Verification succeeded.
         return Status::Ok;
@@ -272,9 +284,10 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         md = EVP_sha384();
       } else if (jwt.alg_ == "HS512") {
         md = EVP_sha512();
-      } else {
-        // default to SHA256
+      } else if (jwt.alg_ == "HS256") {
         md = EVP_sha256();
+      } else {
+        continue;
       }
 
       if (verifySignatureOct(jwk->hmac_key_, md, jwt.signature_, signed_data)) {
@@ -282,6 +295,9 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         return Status::Ok;
       }
     } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519") {
+      if (jwt.alg_ != "EdDSA") {
+        continue;
+      }
       Status status = verifySignatureEd25519(jwk->okp_key_raw_, jwt.signature_,
                                              signed_data);
       // For verification failures keep going and try the rest of the keys in
-- 
2.43.0


From bba8e6d32ede18765ca9074c93efc3b8f3e2d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 06/13] fix: require ECDSA signatures to have the length of
 their curve

The odd last byte of a signature was ignored, so that any byte could be appended
to a valid one, and R and S were accepted with any number of leading zeros.
---
 src/verify.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 061ed64..cfd74a8 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -113,7 +113,13 @@ bool verifySignatureEC(EC_KEY* key, int nid, const EVP_MD* md,
     return false;
   }
   // The algorithm defines the curve to be used.
-  if (EC_GROUP_get_curve_name(EC_KEY_get0_group(key)) != nid) {
+  const EC_GROUP* group = EC_KEY_get0_group(key);
+  if (EC_GROUP_get_curve_name(group) != nid) {
+    return false;
+  }
+  // The signature is R || S, each of the size of the order of the curve.
+  // https://tools.ietf.org/html/rfc7518#section-3.4
+  if (signature_len != 2 * BN_num_bytes(EC_GROUP_get0_order(group))) {
     return false;
   }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
-- 
2.43.0


From 0cfb548af624a91a142fb031f1ac131c79af1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 07/13] fix: keep the LRU list intact when pins of different
 kinds overlap

With two lookups of an entry at the same time, only one of which updates the
eviction order, or after a change of the eviction mode while an entry is pinned,
the last release either linked the entry a second time, leaving dangling
pointers in the list, or not at all, so that it was never evicted again. An idle
entry pinned by a lookup that does not update the eviction order failed an
assertion.
---
 simple_lru_cache/simple_lru_cache_inl.h | 27 ++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..f3cd83c 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -571,6 +571,15 @@ class SimpleLRUCacheBase {
   }
   void remove(Elem* e);
 
+  // Puts an entry on the LRU list, at the position given by its last_use_.
+  void linkByLastUse(Elem* e) {
+    Elem* pos = &head_;
+    while (pos->next != &head_ && pos->next->last_use_ > e->last_use_) {
+      pos = pos->next;
+    }
+    e->link(pos);
+  }
+
  public:
   static const size_t kElemSize = sizeof(Elem);
 
@@ -738,8 +747,16 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     }
     e->pin--;
 
+    // The entry may be on the list still if it was pinned by a lookup that did
+    // not update the eviction order, or in strict age-based mode.
+    if (lru_ && options.update_eviction_order() &&
+        (e->pin == 0 || e->isLinked())) {
+      e->unlink();
+      e->link(&head_);
+    }
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      // Likewise, another lookup may have taken it off the list.
+      if (!e->isLinked()) linkByLastUse(e);
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
@@ -921,10 +938,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
-    remove(e->key);
+    // In the LRU mode pinned elements are in use, though they may be on the
+    // list. In the age-based mode we push them out of the main table regardless
+    // of pinning.
+    if (e->pin == 0 || !lru_) remove(e->key);
     e = prev;
   }
 }
-- 
2.43.0


From b4f78ec48c915f78138e66f095d52e05303b5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 08/13] fix: treat a timeout of NaN as no timeout

Its conversion to an integer is undefined.
---
 simple_lru_cache/simple_lru_cache_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index f3cd83c..d15b3ff 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -603,7 +603,7 @@ SimpleLRUCacheBase<Key, Value, MapType, EQ>::SimpleLRUCacheBase(
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setTimeout(double seconds,
                                                              bool lru) {
-  if (seconds < 0 || std::isinf(seconds)) {
+  if (seconds < 0 || std::isinf(seconds) || std::isnan(seconds)) {
     // Treat as no expiration based on idle time
     lru_ = lru;
     max_idle_ = -1;
-- 
2.43.0


From f4c7480c256a9717cf4dd7c8a816b46973245f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 09/13] fix: clear the crypto error queue after parsing keys

Errors about malformed keys stayed in the queue of the thread, where later calls
such as SSL_get_error() take them for their own. The verify functions clear
theirs already.
---
 src/jwks.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..dfb1cae 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -27,6 +27,7 @@
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
 #include "openssl/ecdsa.h"
+#include "openssl/err.h"
 #include "openssl/evp.h"
 #include "openssl/rsa.h"
 #include "openssl/sha.h"
@@ -442,6 +443,8 @@ JwksPtr Jwks::createFrom(const std::string& pkey, Type type) {
       keys->createFromPemCore(pkey);
       break;
   }
+  // Leave no errors about malformed keys behind for the caller's TLS code.
+  ERR_clear_error();
   return keys;
 }
 
-- 
2.43.0


From 38c73dad8cf1b7d23650cd76a1f9149299f6d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 10/13] fix: hold no keys when one of the x509 certificates is
 bad

The certificates before the bad one, in the random order of a protobuf map, were
kept and verified tokens although the status is a failure.
---
 src/jwks.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwks.cc b/src/jwks.cc
index dfb1cae..b037bf8 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -406,6 +406,7 @@ bool shouldCheckX509(const ::google::protobuf::Struct& jwks_pb) {
 
 Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
                       std::vector<Jwks::PubkeyPtr>& keys) {
+  std::vector<Jwks::PubkeyPtr> parsed;
   for (const auto& kid : jwks_pb.fields()) {
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
@@ -415,8 +416,9 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
 
     key_ptr->kid_ = kid.first;
     key_ptr->kty_ = "RSA";
-    keys.push_back(std::move(key_ptr));
+    parsed.push_back(std::move(key_ptr));
   }
+  keys = std::move(parsed);
   return Status::Ok;
 }
 
-- 
2.43.0


From a1804a864b738140c497be39f258bfb8810c36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 11/13] fix: fail closed when the crypto library cannot
 allocate during verification

EVP_PKEY_new and EVP_MD_CTX_create may return null; using the result crashed.
The early returns also left errors in the crypto error queue.
---
 src/verify.cc | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index cfd74a8..3f06197 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -45,11 +45,12 @@ bool verifySignatureRSA(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
-  if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (!evp_pkey || !md_ctx || EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+    ERR_clear_error();
     return false;
   }
 
-  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   if (EVP_DigestVerifyInit(md_ctx.get(), nullptr, md, nullptr,
                            evp_pkey.get()) == 1) {
     if (EVP_DigestVerifyUpdate(md_ctx.get(), signed_data, signed_data_len) ==
@@ -77,11 +78,12 @@ bool verifySignatureRSAPSS(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
-  if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (!evp_pkey || !md_ctx || EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+    ERR_clear_error();
     return false;
   }
 
-  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   // pctx is owned by md_ctx, no need to free it separately.
   EVP_PKEY_CTX* pctx;
   if (EVP_DigestVerifyInit(md_ctx.get(), &pctx, md, nullptr, evp_pkey.get()) ==
@@ -126,26 +128,19 @@ bool verifySignatureEC(EC_KEY* key, int nid, const EVP_MD* md,
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
 
-  if (EVP_DigestInit(md_ctx.get(), md) == 0) {
-    return false;
-  }
-
-  if (EVP_DigestUpdate(md_ctx.get(), signed_data, signed_data_len) == 0) {
-    return false;
-  }
-
-  if (EVP_DigestFinal(md_ctx.get(), digest.data(), &digest_len) == 0) {
+  if (!md_ctx || EVP_DigestInit(md_ctx.get(), md) == 0 ||
+      EVP_DigestUpdate(md_ctx.get(), signed_data, signed_data_len) == 0 ||
+      EVP_DigestFinal(md_ctx.get(), digest.data(), &digest_len) == 0) {
+    ERR_clear_error();
     return false;
   }
 
   bssl::UniquePtr<ECDSA_SIG> ecdsa_sig(ECDSA_SIG_new());
-  if (!ecdsa_sig) {
-    return false;
-  }
-
-  if (BN_bin2bn(signature, signature_len / 2, ecdsa_sig->r) == nullptr ||
+  if (!ecdsa_sig ||
+      BN_bin2bn(signature, signature_len / 2, ecdsa_sig->r) == nullptr ||
       BN_bin2bn(signature + (signature_len / 2), signature_len / 2,
                 ecdsa_sig->s) == nullptr) {
+    ERR_clear_error();
     return false;
   }
 
-- 
2.43.0


From 9e49e0719e4d9a5796c8ea8d5ed3dc1816d3270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 12/13] fix: no overflow in the reported age of entries older
 than three months

---
 simple_lru_cache/simple_lru_cache_inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index d15b3ff..246ebe2 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -980,8 +980,11 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::ageOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::now() - head_.prev->last_use_) /
-         SimpleCycleTimer::frequency();
+  // Convert the whole seconds and the rest separately: the product overflows
+  // for entries of a few months of age.
+  const int64_t cycles = SimpleCycleTimer::now() - head_.prev->last_use_;
+  const int64_t freq = SimpleCycleTimer::frequency();
+  return cycles / freq * kSecToUsec + cycles % freq * kSecToUsec / freq;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0


From 9f9b35661cdffa4a58b7670cfa703a91651c20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 13/13] fix: read x509 certificates in time proportional to
 their length

---
 src/jwks.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jwks.cc b/src/jwks.cc
index b037bf8..b39da2a 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -365,12 +365,12 @@ Status extractJwk(const ::google::protobuf::Struct& jwk_pb, Jwks::Pubkey* jwk) {
 }
 
 Status extractX509(const std::string& key, Jwks::Pubkey* jwk) {
-  jwk->bio_.reset(BIO_new(BIO_s_mem()));
-  if (BIO_write(jwk->bio_.get(), key.c_str(), key.length()) <= 0) {
+  // Read only: a writable memory BIO moves all that is left at each read.
+  bssl::UniquePtr<BIO> bio(BIO_new_mem_buf(key.data(), key.length()));
+  if (bio == nullptr) {
     return Status::JwksX509BioWriteError;
   }
-  jwk->x509_.reset(
-      PEM_read_bio_X509(jwk->bio_.get(), nullptr, nullptr, nullptr));
+  jwk->x509_.reset(PEM_read_bio_X509(bio.get(), nullptr, nullptr, nullptr));
   if (jwk->x509_ == nullptr) {
     return Status::JwksX509ParseError;
   }
-- 
2.43.0

