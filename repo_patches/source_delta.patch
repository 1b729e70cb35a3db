From e5f68d08f4428dceee94b184443074af9a7b7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 1/6] fix: refuse a neutral blinded salt in the fixed-buffer
 strong client

The heap variant of StrongAuCPaceClientAugLayer::generate_cpace checks the
unblinded salt point, the fixed-buffer one did not.
---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0


From ae75731d63fcf01eb7dbb29e9302988f3635ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 2/6] fix: print both hex digits of every byte of a non-UTF-8
 identity

'{byte:x}' drops the leading zero, so different identities rendered alike.
---
 spake2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spake2/src/lib.rs b/spake2/src/lib.rs
index b1d8715..fb17952 100644
--- a/spake2/src/lib.rs
+++ b/spake2/src/lib.rs
@@ -569,7 +569,7 @@ impl fmt::Debug for MaybeUtf8<'_> {
             write!(fmt, "(hex=")?;
 
             for byte in self.0 {
-                write!(fmt, "{byte:x}")?;
+                write!(fmt, "{byte:02x}")?;
             }
 
             write!(fmt, ")")
-- 
2.43.0


From bd7230db49ff0db9d8d6fe11749f70cef1bc7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 3/6] fix: give the fake salt of unregistered users the length
 of a real one

Registration generates 16 byte salts, the reply for an unregistered user
carried 48 bytes, which told the two apart.
---
 aucpace/src/server.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 6e66b94..6c9982b 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -13,7 +13,7 @@ use curve25519_dalek::{
     ristretto::RistrettoPoint,
     scalar::Scalar,
 };
-use password_hash::{ParamsString, SaltString};
+use password_hash::{ParamsString, Salt, SaltString};
 use rand_core::CryptoRngCore;
 use subtle::ConstantTimeEq;
 
@@ -457,10 +457,11 @@ where
         let hash = hasher.finalize();
         let hash_bytes: &[u8] = hash.as_ref();
 
-        // It is okay to expect here because SaltString has a buffer of 64 bytes by requirement
-        // from the PHC spec. 48 bytes of data when encoded as base64 transform to 64 bytes.
-        // This gives us the most entropy possible from the hash in the SaltString.
-        let salt = SaltString::encode_b64(&hash_bytes[..48])
+        // The salt must have the same length as those generated during registration, otherwise its
+        // length alone would tell that the user isn't registered.
+        // It is okay to expect here because the hash is 64 bytes long and `RECOMMENDED_LENGTH` bytes
+        // always fit in a SaltString.
+        let salt = SaltString::encode_b64(&hash_bytes[..Salt::RECOMMENDED_LENGTH])
             .expect("SaltString maximum length invariant broken");
 
         let message = ServerMessage::AugmentationInfo {
-- 
2.43.0


From 59817528b43f0ad8dd4858447274025df76849ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 4/6] fix: keep the long term key sent for an unregistered user
 the same

With partial augmentation a registered user's public key is the same in every
session, an unregistered user's was drawn afresh each time.
---
 aucpace/src/server.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 6c9982b..64d73d8 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -262,9 +262,9 @@ where
             // generate the prs and client message
             self.generate_prs(user, database, &mut rng, x, x_pub)
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a fake public key from
+            // the username, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_pubkey(user);
             self.lookup_failed(user, x_pub, &mut rng)
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -357,9 +357,9 @@ where
             // generate the prs and client message
             self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a fake public key from
+            // the username, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_pubkey(user);
             self.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -434,6 +434,18 @@ where
         }
     }
 
+    /// Generate the public key to send for users without a long term keypair.
+    ///
+    /// A real long term keypair stays the same between sessions, so the fake one has to as well.
+    #[cfg(feature = "partial_augmentation")]
+    fn fake_long_term_pubkey(&self, username: &[u8]) -> RistrettoPoint {
+        let mut hasher: D = Default::default();
+        hasher.update(b"AuCPace fake long term public key");
+        hasher.update(self.secret.0.to_le_bytes());
+        hasher.update(username);
+        RistrettoPoint::from_hash(hasher)
+    }
+
     /// Generate the message for if the lookup failed
     fn lookup_failed<CSPRNG>(
         &self,
-- 
2.43.0


From ac06475696237f96a80dd068d3fb6f34edecf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 5/6] fix: keep the wire format of messages the same with and
 without strong_aucpace

---
 aucpace/src/client.rs | 21 +++++++++++----------
 aucpace/src/server.rs | 13 +++++++------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 2bf3e81..5510fc3 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -996,16 +996,6 @@ pub enum ClientMessage<'a, const K1: usize> {
     /// Username - the client's username
     Username(&'a [u8]),
 
-    /// StrongUsername - the strong `AuCPace` username message
-    /// also contains the blinded point `U`
-    #[cfg(feature = "strong_aucpace")]
-    StrongUsername {
-        /// The client's username
-        username: &'a [u8],
-        /// The blinded point `U`
-        blinded: RistrettoPoint,
-    },
-
     /// PublicKey - the client's public key: `Ya`
     PublicKey(RistrettoPoint),
 
@@ -1030,6 +1020,17 @@ pub enum ClientMessage<'a, const K1: usize> {
         verifier: RistrettoPoint,
     },
 
+    // feature gated variants come last, the index of the others is part of the wire format
+    /// StrongUsername - the strong `AuCPace` username message
+    /// also contains the blinded point `U`
+    #[cfg(feature = "strong_aucpace")]
+    StrongUsername {
+        /// The client's username
+        username: &'a [u8],
+        /// The blinded point `U`
+        blinded: RistrettoPoint,
+    },
+
     /// Registration Strong version - the username, verifier, secret exponent and parameters needed for registering a user
     /// NOTE: if the UAD field is desired this should be handled separately and sent at the same time
     #[cfg(feature = "strong_aucpace")]
diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 64d73d8..eab2cda 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -717,6 +717,13 @@ pub enum ServerMessage<'a, const K1: usize> {
         pbkdf_params: ParamsString,
     },
 
+    /// `CPace` substep message - the server's public key: `Ya`
+    PublicKey(RistrettoPoint),
+
+    /// Explicit Mutual Authentication - the server's authenticator: `Ta`
+    Authenticator(#[cfg_attr(feature = "serde", serde(with = "serde_byte_array"))] [u8; 64]),
+
+    // feature gated variants come last, the index of the others is part of the wire format
     /// Information required for the AuCPace Augmentation layer sub-step
     #[cfg(feature = "strong_aucpace")]
     StrongAugmentationInfo {
@@ -733,12 +740,6 @@ pub enum ServerMessage<'a, const K1: usize> {
         #[cfg_attr(feature = "serde", serde(with = "serde_paramsstring"))]
         pbkdf_params: ParamsString,
     },
-
-    /// `CPace` substep message - the server's public key: `Ya`
-    PublicKey(RistrettoPoint),
-
-    /// Explicit Mutual Authentication - the server's authenticator: `Ta`
-    Authenticator(#[cfg_attr(feature = "serde", serde(with = "serde_byte_array"))] [u8; 64]),
 }
 
 #[cfg(test)]
-- 
2.43.0


From 34f4102ce868d27b535f5b5d1dd64d9c16c50fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:21 +0000
Subject: [PATCH 6/6] fix: let groups whose elements do not have 32 bytes
 finish SPAKE2

hash_ab and hash_symmetric asserted the element length of Ed25519, so that
Spake2<G>::finish panicked for every other group with another length.
---
 spake2/src/ed25519.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/spake2/src/ed25519.rs b/spake2/src/ed25519.rs
index 7c311b0..83f3071 100644
--- a/spake2/src/ed25519.rs
+++ b/spake2/src/ed25519.rs
@@ -137,32 +137,31 @@ pub fn hash_ab(
     second_msg: &[u8],
     key_bytes: &[u8],
 ) -> Vec<u8> {
-    assert_eq!(first_msg.len(), 32);
-    assert_eq!(second_msg.len(), 32);
-    // the transcript is fixed-length, made up of 6 32-byte values:
+    // the transcript is fixed-length for a group, made up of 3 32-byte values
+    // and 3 encoded elements (which have 32 bytes each for Ed25519):
     // byte 0-31   : sha256(pw)
     // byte 32-63  : sha256(idA)
     // byte 64-95  : sha256(idB)
     // byte 96-127 : X_msg
     // byte 128-159: Y_msg
     // byte 160-191: K_bytes
-    let mut transcript = [0u8; 6 * 32];
+    let mut transcript = Vec::with_capacity(6 * 32);
 
     let mut pw_hash = Sha256::new();
     pw_hash.update(password_vec);
-    transcript[0..32].copy_from_slice(&pw_hash.finalize());
+    transcript.extend_from_slice(&pw_hash.finalize());
 
     let mut ida_hash = Sha256::new();
     ida_hash.update(id_a);
-    transcript[32..64].copy_from_slice(&ida_hash.finalize());
+    transcript.extend_from_slice(&ida_hash.finalize());
 
     let mut idb_hash = Sha256::new();
     idb_hash.update(id_b);
-    transcript[64..96].copy_from_slice(&idb_hash.finalize());
+    transcript.extend_from_slice(&idb_hash.finalize());
 
-    transcript[96..128].copy_from_slice(first_msg);
-    transcript[128..160].copy_from_slice(second_msg);
-    transcript[160..192].copy_from_slice(key_bytes);
+    transcript.extend_from_slice(first_msg);
+    transcript.extend_from_slice(second_msg);
+    transcript.extend_from_slice(key_bytes);
 
     //println!("transcript: {:?}", transcript.iter().to_hex());
 
@@ -180,38 +179,37 @@ pub fn hash_symmetric(
     msg_v: &[u8],
     key_bytes: &[u8],
 ) -> Vec<u8> {
-    assert_eq!(msg_u.len(), 32);
-    assert_eq!(msg_v.len(), 32);
     // # since we don't know which side is which, we must sort the messages
     // first_msg, second_msg = sorted([msg1, msg2])
     // transcript = b"".join([sha256(pw).digest(),
     //                        sha256(idSymmetric).digest(),
     //                        first_msg, second_msg, K_bytes])
 
-    // the transcript is fixed-length, made up of 5 32-byte values:
+    // the transcript is fixed-length for a group, made up of 2 32-byte values
+    // and 3 encoded elements (which have 32 bytes each for Ed25519):
     // byte 0-31   : sha256(pw)
     // byte 32-63  : sha256(idSymmetric)
     // byte 64-95  : X_msg
     // byte 96-127 : Y_msg
     // byte 128-159: K_bytes
-    let mut transcript = [0u8; 5 * 32];
+    let mut transcript = Vec::with_capacity(5 * 32);
 
     let mut pw_hash = Sha256::new();
     pw_hash.update(password_vec);
-    transcript[0..32].copy_from_slice(&pw_hash.finalize());
+    transcript.extend_from_slice(&pw_hash.finalize());
 
     let mut ids_hash = Sha256::new();
     ids_hash.update(id_s);
-    transcript[32..64].copy_from_slice(&ids_hash.finalize());
+    transcript.extend_from_slice(&ids_hash.finalize());
 
     if msg_u < msg_v {
-        transcript[64..96].copy_from_slice(msg_u);
-        transcript[96..128].copy_from_slice(msg_v);
+        transcript.extend_from_slice(msg_u);
+        transcript.extend_from_slice(msg_v);
     } else {
-        transcript[64..96].copy_from_slice(msg_v);
-        transcript[96..128].copy_from_slice(msg_u);
+        transcript.extend_from_slice(msg_v);
+        transcript.extend_from_slice(msg_u);
     }
-    transcript[128..160].copy_from_slice(key_bytes);
+    transcript.extend_from_slice(key_bytes);
 
     let mut hash = Sha256::new();
     hash.update(transcript);
-- 
2.43.0

