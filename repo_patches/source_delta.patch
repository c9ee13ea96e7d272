From ae63005d735d9d0bf9ce760ceb3be06d71874826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 1/5] fix: reject a neutral blinded salt in the non-alloc
 strong AuCPace client

StrongAuCPaceClientAugLayer::generate_cpace_alloc aborts with
IllegalPointError when the unblinded salt is the neutral element, its
fixed-buffer twin generate_cpace did not and went on with a salt that no
longer depends on the server's secret exponent.
---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0


From 239293444e51a32fd3811cb0d3b6e8c25732ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 2/5] fix: print two hex digits per byte in the Debug form of a
 SPAKE2 identity

Without zero padding distinct non-UTF-8 identities such as ff0112 and
ff1102 were rendered as the same digits.
---
 spake2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spake2/src/lib.rs b/spake2/src/lib.rs
index b1d8715..fb17952 100644
--- a/spake2/src/lib.rs
+++ b/spake2/src/lib.rs
@@ -569,7 +569,7 @@ impl fmt::Debug for MaybeUtf8<'_> {
             write!(fmt, "(hex=")?;
 
             for byte in self.0 {
-                write!(fmt, "{byte:x}")?;
+                write!(fmt, "{byte:02x}")?;
             }
 
             write!(fmt, ")")
-- 
2.43.0


From 46c4666f4d5c6fe0837f0ff11668fdd4928552a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 3/5] fix: let SPAKE2 finish with groups whose elements are not
 32 bytes long

Spake2 is generic over Group, which declares its own element_length, but
the transcript hash asserted 32-byte elements, so finish panicked for any
other encoding. The hash over the transcript is unchanged for Ed25519.
---
 spake2/src/ed25519.rs | 44 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/spake2/src/ed25519.rs b/spake2/src/ed25519.rs
index 7c311b0..bf4d3a7 100644
--- a/spake2/src/ed25519.rs
+++ b/spake2/src/ed25519.rs
@@ -137,16 +137,13 @@ pub fn hash_ab(
     second_msg: &[u8],
     key_bytes: &[u8],
 ) -> Vec<u8> {
-    assert_eq!(first_msg.len(), 32);
-    assert_eq!(second_msg.len(), 32);
-    // the transcript is fixed-length, made up of 6 32-byte values:
+    // the transcript is fixed-length, made up of 3 32-byte hashes and 3 group
+    // elements (32 bytes each for Ed25519):
     // byte 0-31   : sha256(pw)
     // byte 32-63  : sha256(idA)
     // byte 64-95  : sha256(idB)
-    // byte 96-127 : X_msg
-    // byte 128-159: Y_msg
-    // byte 160-191: K_bytes
-    let mut transcript = [0u8; 6 * 32];
+    // then        : X_msg, Y_msg, K_bytes
+    let mut transcript = [0u8; 3 * 32];
 
     let mut pw_hash = Sha256::new();
     pw_hash.update(password_vec);
@@ -160,15 +157,14 @@ pub fn hash_ab(
     idb_hash.update(id_b);
     transcript[64..96].copy_from_slice(&idb_hash.finalize());
 
-    transcript[96..128].copy_from_slice(first_msg);
-    transcript[128..160].copy_from_slice(second_msg);
-    transcript[160..192].copy_from_slice(key_bytes);
-
     //println!("transcript: {:?}", transcript.iter().to_hex());
 
     //let mut hash = G::TranscriptHash::default();
     let mut hash = Sha256::new();
     hash.update(transcript);
+    hash.update(first_msg);
+    hash.update(second_msg);
+    hash.update(key_bytes);
     hash.finalize().to_vec()
 }
 
@@ -180,21 +176,18 @@ pub fn hash_symmetric(
     msg_v: &[u8],
     key_bytes: &[u8],
 ) -> Vec<u8> {
-    assert_eq!(msg_u.len(), 32);
-    assert_eq!(msg_v.len(), 32);
     // # since we don't know which side is which, we must sort the messages
     // first_msg, second_msg = sorted([msg1, msg2])
     // transcript = b"".join([sha256(pw).digest(),
     //                        sha256(idSymmetric).digest(),
     //                        first_msg, second_msg, K_bytes])
 
-    // the transcript is fixed-length, made up of 5 32-byte values:
+    // the transcript is fixed-length, made up of 2 32-byte hashes and 3 group
+    // elements (32 bytes each for Ed25519):
     // byte 0-31   : sha256(pw)
     // byte 32-63  : sha256(idSymmetric)
-    // byte 64-95  : X_msg
-    // byte 96-127 : Y_msg
-    // byte 128-159: K_bytes
-    let mut transcript = [0u8; 5 * 32];
+    // then        : X_msg, Y_msg, K_bytes
+    let mut transcript = [0u8; 2 * 32];
 
     let mut pw_hash = Sha256::new();
     pw_hash.update(password_vec);
@@ -204,16 +197,15 @@ pub fn hash_symmetric(
     ids_hash.update(id_s);
     transcript[32..64].copy_from_slice(&ids_hash.finalize());
 
+    let mut hash = Sha256::new();
+    hash.update(transcript);
     if msg_u < msg_v {
-        transcript[64..96].copy_from_slice(msg_u);
-        transcript[96..128].copy_from_slice(msg_v);
+        hash.update(msg_u);
+        hash.update(msg_v);
     } else {
-        transcript[64..96].copy_from_slice(msg_v);
-        transcript[96..128].copy_from_slice(msg_u);
+        hash.update(msg_v);
+        hash.update(msg_u);
     }
-    transcript[128..160].copy_from_slice(key_bytes);
-
-    let mut hash = Sha256::new();
-    hash.update(transcript);
+    hash.update(key_bytes);
     hash.finalize().to_vec()
 }
-- 
2.43.0


From 55ff72148b6df2c6edd1424517c501d5dc1547ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 4/5] fix: keep the fake long-term public key of an unknown
 user stable

With partial augmentation a registered user is shown the same long-term
public key in every session, an unknown user was shown a fresh random one,
so two requests told whether a username was registered. Derive it from the
server secret and the username, like the fake salt.
---
 aucpace/src/server.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 6e66b94..1006be1 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -262,9 +262,9 @@ where
             // generate the prs and client message
             self.generate_prs(user, database, &mut rng, x, x_pub)
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we use a fake point on the
+            // curve as the public key, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_pubkey(user);
             self.lookup_failed(user, x_pub, &mut rng)
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -357,9 +357,9 @@ where
             // generate the prs and client message
             self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we use a fake point on the
+            // curve as the public key, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_pubkey(user);
             self.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -434,6 +434,18 @@ where
         }
     }
 
+    /// Generate the public key to present for a user without a long-term keypair
+    ///
+    /// A stored keypair is the same in every session, so the fake one has to be as well.
+    #[cfg(feature = "partial_augmentation")]
+    fn fake_long_term_pubkey(&self, username: &[u8]) -> RistrettoPoint {
+        let mut hasher: D = Default::default();
+        hasher.update(b"fake long-term public key");
+        hasher.update(self.secret.0.to_le_bytes());
+        hasher.update(username);
+        RistrettoPoint::from_hash(hasher)
+    }
+
     /// Generate the message for if the lookup failed
     fn lookup_failed<CSPRNG>(
         &self,
-- 
2.43.0


From c5a7ea418d725da119d7ef87a8aa90ac43c49df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 5/5] fix: give the fake salt of an unknown user the length of
 a real one

Registration generates 16 byte salts (22 base64 characters), the answer for
an unknown user carried a 48 byte one (64 characters), which told at a
glance that the lookup had failed.
---
 aucpace/src/server.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 1006be1..88f0fe9 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -13,7 +13,7 @@ use curve25519_dalek::{
     ristretto::RistrettoPoint,
     scalar::Scalar,
 };
-use password_hash::{ParamsString, SaltString};
+use password_hash::{ParamsString, Salt, SaltString};
 use rand_core::CryptoRngCore;
 use subtle::ConstantTimeEq;
 
@@ -470,9 +470,9 @@ where
         let hash_bytes: &[u8] = hash.as_ref();
 
         // It is okay to expect here because SaltString has a buffer of 64 bytes by requirement
-        // from the PHC spec. 48 bytes of data when encoded as base64 transform to 64 bytes.
-        // This gives us the most entropy possible from the hash in the SaltString.
-        let salt = SaltString::encode_b64(&hash_bytes[..48])
+        // from the PHC spec. Use as many bytes as a salt generated during registration has,
+        // so that the length of the salt doesn't give away that the lookup failed.
+        let salt = SaltString::encode_b64(&hash_bytes[..Salt::RECOMMENDED_LENGTH])
             .expect("SaltString maximum length invariant broken");
 
         let message = ServerMessage::AugmentationInfo {
-- 
2.43.0

