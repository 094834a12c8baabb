From 7d2a936bffd1980dc81932326e95606232fe80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH] fix: report the curve of the ECDSA algorithm that verified
 the signature

SignatureAlgorithm::from_alg compared only signature_alg_id, which for
ECDSA names the hash but not the curve, so signatures verified with a
P-384 key were reported as NISTP256.
---
 crates/tls-core/src/verify.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..6bc90bf 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -485,13 +485,24 @@ pub enum SignatureAlgorithm {
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
         let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // The ECDSA signature algorithm id names the hash but not the curve,
+        // which is given by the public key algorithm id.
+        let key_id = alg.public_key_alg_id();
+        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P256_SHA256.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P256_SHA384.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
-        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
+        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P384_SHA256.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id() {
+        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P384_SHA384.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP384_SHA384
         } else if id == webpki::ring::ED25519.signature_alg_id() {
             SignatureAlgorithm::ED25519
-- 
2.43.0

