From 87ba57957d5be09e78b67322d844bebaf7ed8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:06 +0000
Subject: [PATCH 01/20] fix: make the user module compile

---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..eb49790 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate::<C>(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From 2ff7980e90ecf90deb9c5309c7ab403c87dae389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 02/20] fix: MAC verification accepts identity nonces and
 messages of the wrong length

The nonce was compared with the basepoint instead of the identity, so the tag
(identity, identity) was valid for every message, and the elements of a message
beyond the key's length (or of the key beyond the message's) were ignored.
---
 aeonflux/src/amacs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..f82ec5e 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -321,9 +321,12 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
         let mut exponent = self.x0;
 
         for (xi, mi) in self.xn.iter().zip(message.0.iter()) {
-- 
2.43.0


From 954fef77107f0343fd53a53ce4a7b2d17e1dfe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 03/20] fix: presentations with an identity nonce are accepted
 without any credential

---
 aeonflux/src/issuer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..b73c245 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::Identity;
 
 use merlin::Transcript;
 
@@ -199,6 +200,11 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // With the identity as nonce anyone could present without a credential.
+        if P == RistrettoPoint::identity() {
+            return Err(CredentialError::MacVerification);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From 2a4ddbceabb2f8df9e859bcead065f94da922774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 04/20] fix: users accept issued tags whose nonce is the
 identity

---
 aeonflux/src/user.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index eb49790..9fd6c57 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -154,6 +154,11 @@ impl User {
             Some(x) => *x,
         };
 
+        // A tag on the identity is valid for nothing and makes every presentation linkable.
+        if issue.credential.mac.nonce == RistrettoPoint::identity() {
+            return Err(CredentialError::CredentialIssuance);
+        }
+
         let publics = issuance_revealed::Publics {
             P: &issue.credential.mac.nonce,
             Q: &issue.credential.mac.mac,
-- 
2.43.0


From b5b1214c9a648d44ba7fdd26aeb24beabf176206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 05/20] fix: users accept credentials issued for somebody
 else's phone number

---
 signal-credential/src/user.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..6149336 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -89,6 +89,12 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        match issuance {
+            Some(i) if i.credential.attributes != [self.phone_number.0]
+                => return Err(CredentialError::CredentialIssuance),
+            _   => (),
+        }
+
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From 2032b43df3e487709cd5dec280f9e042cf2d2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 06/20] fix: decoders panic on, or ignore, missing and trailing
 bytes

---
 aeonflux/src/amacs.rs                 |  6 +++++-
 aeonflux/src/credential.rs            |  8 ++++++--
 aeonflux/src/elgamal.rs               | 12 +++++++++---
 aeonflux/src/pedersen.rs              |  4 ++++
 signal-credential/src/credential.rs   |  5 +++--
 signal-credential/src/phone_number.rs |  4 ++++
 signal-credential/src/user.rs         |  4 ++++
 7 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index f82ec5e..c9102c5 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -241,7 +241,7 @@ impl SecretKey {
         let length: usize = bytes.len();
 
         // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if length % 32 != 0 || length == 0 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -355,6 +355,10 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
+
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..8535f36 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -41,6 +41,7 @@ use proofs::valid_credential;
 
 pub const SIZEOF_CREDENTIAL: usize = SIZEOF_TAG + NUMBER_OF_ATTRIBUTES * 32;
 pub const SIZEOF_CREDENTIAL_PRESENTATION: usize = 256;
+pub const SIZEOF_CREDENTIAL_ISSUANCE: usize = 32 + SIZEOF_CREDENTIAL + 5 * 40;
 
 /// The number of revealed attributes on a `Credential` during issuance.
 pub const ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES: usize = 1;
@@ -209,6 +210,10 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() != SIZEOF_CREDENTIAL_ISSUANCE {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
@@ -267,8 +272,7 @@ impl CredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialPresentation, CredentialError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if length != SIZEOF_CREDENTIAL_PRESENTATION {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..29929e5 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_PUBLIC_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_SECRET_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != SIZEOF_KEYPAIR {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..30fc96e 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,6 +65,10 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let mut tmp: [u8; 32] = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[0..32]);
diff --git a/signal-credential/src/credential.rs b/signal-credential/src/credential.rs
index bc403a3..3ea1b59 100644
--- a/signal-credential/src/credential.rs
+++ b/signal-credential/src/credential.rs
@@ -65,9 +65,10 @@ impl SignalCredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalCredentialPresentation, CredentialError> {
         const RE: usize = SIZEOF_COMMITTED_PHONE_NUMBER;
 
-        if bytes.len() < RE + SIZEOF_CREDENTIAL_PRESENTATION {
+        // The proof of roster membership consists of four length-prefixed scalars.
+        if bytes.len() != RE + SIZEOF_CREDENTIAL_PRESENTATION + 4 * 40 {
             #[cfg(feature = "std")]
-            println!("The SignalCredentialPresentation bytes were not long enough, got {} bytes", bytes.len());
+            println!("The SignalCredentialPresentation bytes were not the right length, got {} bytes", bytes.len());
             return Err(CredentialError::MissingData);
         }
 
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..ba40610 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -323,6 +323,10 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_COMMITTED_PHONE_NUMBER + 32 {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
+
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 6149336..fc7f8a8 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -44,6 +44,10 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
+        if bytes.len() < 32 {
+            return Err(CredentialError::MissingData);
+        }
+
         let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
         let user = User::from_bytes(&bytes[32..])?;
 
-- 
2.43.0


From a076e9440f78a94a8fea7341db86589d3dcbacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 07/20] fix: phone numbers and roster entry openings are
 decoded from non-canonical scalars

---
 signal-credential/src/phone_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index ba40610..935d25b 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -74,7 +74,7 @@ impl PhoneNumber {
 
         tmp.copy_from_slice(&bytes[00..32]);
 
-        Ok(PhoneNumber(Scalar::from_bits(tmp)))
+        Ok(PhoneNumber(Scalar::from_canonical_bytes(tmp)?))
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
@@ -333,7 +333,7 @@ impl RosterEntryCommitment {
 
         tmp.copy_from_slice(&bytes[SIZEOF_COMMITTED_PHONE_NUMBER..]);
 
-        let opening: Ephemeral = Scalar::from_bits(tmp).into();
+        let opening: Ephemeral = Scalar::from_canonical_bytes(tmp)?.into();
 
         Ok(RosterEntryCommitment { commitment, opening })
     }
-- 
2.43.0


From 29cb5a1da1970d55d95002dbbc0fa8e0c805b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 08/20] fix: phone numbers of 27 to 32 bytes panic or get
 reduced modulo the group order

The same goes for turning a decoded number with an impossible length into text.
---
 signal-credential/src/phone_number.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 935d25b..c15b6a2 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -40,6 +40,8 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+/// With the padding around it, the number must stay smaller than the group order.
+pub const MAX_PHONE_NUMBER_LENGTH: usize = 26;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -135,7 +137,7 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -175,7 +177,7 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -216,7 +218,7 @@ impl From<PhoneNumber> for String {
 
         let mut s: String = String::with_capacity(length);
 
-        for i in 2..length+2 {
+        for i in 2..(length + 2).min(SIZEOF_PHONE_NUMBER) {
             match source[i] {
                 0 => s.push_str("0"),
                 1 => s.push_str("1"),
-- 
2.43.0


From b8307a2b42aa757f42e8ce14a34219980ae75a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 09/20] fix: generated system parameters may have the identity
 as generator

---
 aeonflux/src/parameters.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..a39a79b 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -16,6 +16,7 @@ use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use serde::{self, Serialize, Deserialize, Serializer, Deserializer};
 use serde::de::Visitor;
@@ -112,7 +113,9 @@ impl SystemParameters {
             csprng.fill_bytes(&mut tmp);
 
             // Extremely unlikely but we may as well be careful.
-            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
+            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED
+                && CompressedRistretto(tmp) != CompressedRistretto::identity()
+            {
                 H = CompressedRistretto(tmp).decompress();
             }
         }
-- 
2.43.0


From 3eca04d8039779b0f007d35b8e75599cbd873d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 10/20] fix: nothing can be deserialised from formats without a
 type for bytes

The JavaScript bindings use JSON, in which bytes are a sequence of integers.
---
 aeonflux/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..ba21c49 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,18 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Formats without a type for bytes, e.g. JSON, have a sequence of integers.
+                    fn visit_seq<V>(self, mut seq: V) -> Result<$t, V::Error>
+                        where V: serde::de::SeqAccess<'de>
+                    {
+                        let mut bytes: Vec<u8> = Vec::new();
+
+                        while let Some(byte) = seq.next_element()? {
+                            bytes.push(byte);
+                        }
+                        self.visit_bytes(&bytes)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0


From 50b80088dacba03887036772f3adfb3862d7c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 11/20] fix: C API results point to freed memory and errors to
 a dangling address

---
 ffi/src/c.rs      | 4 ++++
 ffi/src/macros.rs | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..000b418 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -9,9 +9,13 @@
 
 //! C-like language FFI API.
 
+#[cfg(all(not(feature = "std"), feature = "alloc"))]
+use alloc::boxed::Box;
 #[cfg(all(not(feature = "std"), feature = "alloc"))]
 use alloc::vec::Vec;
 #[cfg(all(not(feature = "alloc"), feature = "std"))]
+use std::boxed::Box;
+#[cfg(all(not(feature = "alloc"), feature = "std"))]
 use std::vec::Vec;
 
 cfg_if! {
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..2d4d10a 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -10,7 +10,8 @@
 #[macro_export]
 macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
-        let x: &[u8] = $x;
+        // The caller owns this copy, it must outlive the serialized object.
+        let x: &mut [u8] = Box::leak(Vec::from($x).into_boxed_slice());
 
         buf_t {
             len: x.len() as uint64_t,
@@ -22,7 +23,7 @@ macro_rules! slice_to_len_and_ptr {
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t { len: 0, ptr: ptr::null() }
     }
 }
 
-- 
2.43.0


From 9b3736720cab35aadc0d0c8010de9a702c2191c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 12/20] fix: key material for a wrong number of attributes
 gives objects that cannot be decoded

---
 aeonflux/src/issuer.rs | 2 +-
 aeonflux/src/user.rs   | 5 +++++
 ffi/src/c.rs           | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index b73c245..4d5420e 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -51,7 +51,7 @@ pub struct Issuer {
 
 impl Issuer {
     pub fn from_bytes(bytes: &[u8]) -> Result<Issuer, CredentialError> {
-        if bytes.len() < 64 + 96 {
+        if bytes.len() != 64 + 96 {
             return Err(CredentialError::MissingData);
         }
 
diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 9fd6c57..0cb962a 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -38,6 +38,7 @@ use errors::CredentialError;
 use issuer::IssuerParameters;
 use nonces::Ephemeral;
 use nonces::Nonces;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen;
 use proofs::issuance_revealed;
@@ -159,6 +160,10 @@ impl User {
             return Err(CredentialError::CredentialIssuance);
         }
 
+        if self.issuer_parameters.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+
         let publics = issuance_revealed::Publics {
             P: &issue.credential.mac.nonce,
             Q: &issue.credential.mac.mac,
diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 000b418..35b7751 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -110,6 +110,11 @@ pub extern "C" fn issuer_new(
 {
     let system_params = deserialize_or_return!(SystemParameters, system_parameters_length, system_parameters);
     let keys = deserialize_or_return!(AmacsKeypair, keypair_length, keypair);
+
+    if keypair_length != LENGTH_ISSUER_KEYPAIR {
+        return zero_len_and_ptr!();
+    }
+
     let issuer: SignalIssuer = SignalIssuer::new(system_params, keys);
     let serialized: Vec<u8> = serialize_or_return!(&issuer);
 
-- 
2.43.0


From e981d57fcc343b456fca0c8f32cfa6e975ebe5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 13/20] fix: the proof of issuance does not bind the tag to the
 credential's attribute

---
 aeonflux/src/issuer.rs        |  1 +
 aeonflux/src/proofs.rs        | 11 +++++++++++
 aeonflux/src/proofs_macros.rs |  6 ++++--
 aeonflux/src/user.rs          |  7 +++++++
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 4d5420e..6745bd2 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -181,6 +181,7 @@ impl Issuer {
             B: &self.system_parameters.g,
             A: &self.system_parameters.h,
             X1: &X1,
+            m1X1: &(&attributes[0] * &X1),
         };
         let proof = issuance_revealed::Proof::create(&mut transcript, publics, secrets);
         let cred = Credential {
diff --git a/aeonflux/src/proofs.rs b/aeonflux/src/proofs.rs
index c64ef68..39bb5bb 100644
--- a/aeonflux/src/proofs.rs
+++ b/aeonflux/src/proofs.rs
@@ -52,12 +52,14 @@ pub mod issuance_revealed {
         pub B: &'a RistrettoPoint,
         pub A: &'a RistrettoPoint,
         pub X1: &'a RistrettoPoint,
+        pub m1X1: &'a RistrettoPoint,
     }
 
     struct Commitments {
         Q: RistrettoPoint,
         Cx0: RistrettoPoint,
         X1: RistrettoPoint,
+        m1X1: RistrettoPoint,
     }
 
     struct Randomnesses {
@@ -92,6 +94,7 @@ pub mod issuance_revealed {
             transcript.commit_bytes("B".as_bytes(), publics.B.compress().as_bytes());
             transcript.commit_bytes("A".as_bytes(), publics.A.compress().as_bytes());
             transcript.commit_bytes("X1".as_bytes(), publics.X1.compress().as_bytes());
+            transcript.commit_bytes("m1X1".as_bytes(), publics.m1X1.compress().as_bytes());
             let rng_ctor = transcript.fork_transcript();
             let rng_ctor = rng_ctor.commit_witness_bytes("x0".as_bytes(), secrets.x0.as_bytes());
             let rng_ctor = rng_ctor.commit_witness_bytes("x1".as_bytes(), secrets.x1.as_bytes());
@@ -116,10 +119,12 @@ pub mod issuance_revealed {
                     &[*(publics.B), *(publics.A)],
                 ),
                 X1: RistrettoPoint::multiscalar_mul(&[rand.x1], &[*(publics.A)]),
+                m1X1: RistrettoPoint::multiscalar_mul(&[rand.m1x1], &[*(publics.A)]),
             };
             transcript.commit_bytes("com Q".as_bytes(), commitments.Q.compress().as_bytes());
             transcript.commit_bytes("com Cx0".as_bytes(), commitments.Cx0.compress().as_bytes());
             transcript.commit_bytes("com X1".as_bytes(), commitments.X1.compress().as_bytes());
+            transcript.commit_bytes("com m1X1".as_bytes(), commitments.m1X1.compress().as_bytes());
             let challenge = {
                 let mut bytes = [0; 64];
                 transcript.challenge_bytes(b"chal", &mut bytes);
@@ -152,6 +157,10 @@ pub mod issuance_revealed {
                     (&[responses.x1]).into_iter().chain(iter::once(&(minus_c))),
                     (&[*(publics.A)]).into_iter().chain(iter::once(publics.X1)),
                 ),
+                m1X1: RistrettoPoint::vartime_multiscalar_mul(
+                    (&[responses.m1x1]).into_iter().chain(iter::once(&(minus_c))),
+                    (&[*(publics.A)]).into_iter().chain(iter::once(publics.m1X1)),
+                ),
             };
             transcript.commit_bytes(b"domain-sep", "issuance_revealed".as_bytes());
             transcript.commit_bytes("P".as_bytes(), publics.P.compress().as_bytes());
@@ -160,9 +169,11 @@ pub mod issuance_revealed {
             transcript.commit_bytes("B".as_bytes(), publics.B.compress().as_bytes());
             transcript.commit_bytes("A".as_bytes(), publics.A.compress().as_bytes());
             transcript.commit_bytes("X1".as_bytes(), publics.X1.compress().as_bytes());
+            transcript.commit_bytes("m1X1".as_bytes(), publics.m1X1.compress().as_bytes());
             transcript.commit_bytes("com Q".as_bytes(), commitments.Q.compress().as_bytes());
             transcript.commit_bytes("com Cx0".as_bytes(), commitments.Cx0.compress().as_bytes());
             transcript.commit_bytes("com X1".as_bytes(), commitments.X1.compress().as_bytes());
+            transcript.commit_bytes("com m1X1".as_bytes(), commitments.m1X1.compress().as_bytes());
             let challenge = {
                 let mut bytes = [0; 64];
                 transcript.challenge_bytes(b"chal", &mut bytes);
diff --git a/aeonflux/src/proofs_macros.rs b/aeonflux/src/proofs_macros.rs
index 3856f9b..c949b42 100644
--- a/aeonflux/src/proofs_macros.rs
+++ b/aeonflux/src/proofs_macros.rs
@@ -34,6 +34,7 @@
 /// * `B` and `A` are generators of the group, where `A` is chosen orthogonally
 ///   such that `log_B(A)` is intractible.
 /// * `X1, X2` are the issuer's public key material.
+/// * `m1X1` is the public key `X1` multiplied by the message `m1`, so that `m1x1` is bound to both.
 /// * `u_prime` is the aMAC tag.
 //
 // TODO The "m1x1" is `m1*x1` and is a hack because the zkp crate doesn't
@@ -42,11 +43,12 @@
 // macro-generated code as an additional secret value (since it depend on x1).
 create_nipk!(issuance_revealed,
              (x0, x1, x0_tilde, m1x1),
-             (P, Q, Cx0, B, A, X1)
+             (P, Q, Cx0, B, A, X1, m1X1)
              :
              Q = (P * x0 + P * m1x1),
              Cx0 = (B * x0 + A * x0_tilde),
-             X1 = (A * x1)
+             X1 = (A * x1),
+             m1X1 = (A * m1x1)
 );
 
 /// A NIPK proving that the blinded attributes are valid elGamal encryptions
diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 0cb962a..ab73228 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -164,6 +164,12 @@ impl User {
             return Err(CredentialError::NoIssuerParameters);
         }
 
+        // The tag must have been computed on the attribute the credential claims.
+        let m1X1: RistrettoPoint = match issue.credential.attributes.get(0) {
+            None => return Err(CredentialError::CredentialIssuance),
+            Some(m1) => m1 * &X1,
+        };
+
         let publics = issuance_revealed::Publics {
             P: &issue.credential.mac.nonce,
             Q: &issue.credential.mac.mac,
@@ -171,6 +177,7 @@ impl User {
             B: &self.system_parameters.g,
             A: &self.system_parameters.h,
             X1: &X1,
+            m1X1: &m1X1,
         };
 
         if issue.proof.verify(&mut transcript, publics).is_err() {
-- 
2.43.0


From 45e2294f39d3d682024d8340d5fd467faae02c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:01 +0000
Subject: [PATCH 14/20] fix: wipe the part of a MAC secret key decoded before a
 malformed scalar

---
 aeonflux/src/amacs.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index c9102c5..816b7f1 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -244,11 +244,15 @@ impl SecretKey {
         if length % 32 != 0 || length == 0 {
             return Err(MacError::MessageLengthError{ length });
         }
-        let mut x0: Option<Scalar> = None;
-        let mut xn: Vec<Scalar> = Vec::with_capacity((length / 32) - 1);
+        // Decode into a `SecretKey` from the start, so that what was already
+        // decoded is wiped if a later chunk turns out to be malformed.
+        let mut key: SecretKey = SecretKey {
+            x0: Scalar::zero(),
+            xn: Vec::with_capacity((length / 32) - 1),
+        };
 
         // TODO When #![feature(chunk_exact)] stabilises we should use that instead
-        for chunk in bytes.chunks(32) {
+        for (i, chunk) in bytes.chunks(32).enumerate() {
             let mut tmp = [0u8; 32];
 
             tmp.copy_from_slice(chunk);
@@ -258,15 +262,12 @@ impl SecretKey {
                 Some(x) => x,
             };
 
-            match x0 {
-                None    => x0 = Some(x),
-                Some(_) => xn.push(x),
+            match i {
+                0 => key.x0 = x,
+                _ => key.xn.push(x),
             }
         }
-        match x0 {
-            None    => Err(MacError::MessageLengthError{ length }),
-            Some(x) => Ok(SecretKey { x0: x, xn: xn })
-        }
+        Ok(key)
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 105c3c4555420063a549181c90b2fb8f702f323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 15/20] fix: JavaScript issuer_new accepts key material for a
 wrong number of attributes

---
 wasm/src/js.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wasm/src/js.rs b/wasm/src/js.rs
index 89fe62f..7c5b60f 100644
--- a/wasm/src/js.rs
+++ b/wasm/src/js.rs
@@ -14,6 +14,7 @@ pub use rand::ChaChaRng;
 pub use rand::SeedableRng;
 
 use signal_credential::amacs::{self};
+use signal_credential::credential::NUMBER_OF_ATTRIBUTES;
 use signal_credential::credential::SignalCredentialIssuance;
 use signal_credential::credential::SignalCredentialPresentation;
 use signal_credential::credential::VerifiedSignalCredential;
@@ -191,6 +192,11 @@ pub fn issuer_new(
 {
     let system_params: SystemParameters = ok_or_return!(system_parameters.into_serde());
     let keys: amacs::Keypair = ok_or_return!(keypair.into_serde());
+
+    if keys.public.len() != NUMBER_OF_ATTRIBUTES {
+        return JsValue::from(0);
+    }
+
     let issuer: SignalIssuer = SignalIssuer::new(system_params, keys);
 
     ok_or_return!(JsValue::from_serde(&issuer))
-- 
2.43.0


From a04a3501208541f49ac175caa6a5afe837335a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 16/20] Revert "fix: the proof of issuance does not bind the
 tag to the credential's attribute"

The repair changes the proof format, so that issuances recorded earlier (the
vector of ffi's test_user_obtain_finish) are refused.  The defect is recorded
as a known finding instead.
---
 aeonflux/src/issuer.rs        |  1 -
 aeonflux/src/proofs.rs        | 11 -----------
 aeonflux/src/proofs_macros.rs |  6 ++----
 aeonflux/src/user.rs          |  7 -------
 4 files changed, 2 insertions(+), 23 deletions(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 6745bd2..4d5420e 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -181,7 +181,6 @@ impl Issuer {
             B: &self.system_parameters.g,
             A: &self.system_parameters.h,
             X1: &X1,
-            m1X1: &(&attributes[0] * &X1),
         };
         let proof = issuance_revealed::Proof::create(&mut transcript, publics, secrets);
         let cred = Credential {
diff --git a/aeonflux/src/proofs.rs b/aeonflux/src/proofs.rs
index 39bb5bb..c64ef68 100644
--- a/aeonflux/src/proofs.rs
+++ b/aeonflux/src/proofs.rs
@@ -52,14 +52,12 @@ pub mod issuance_revealed {
         pub B: &'a RistrettoPoint,
         pub A: &'a RistrettoPoint,
         pub X1: &'a RistrettoPoint,
-        pub m1X1: &'a RistrettoPoint,
     }
 
     struct Commitments {
         Q: RistrettoPoint,
         Cx0: RistrettoPoint,
         X1: RistrettoPoint,
-        m1X1: RistrettoPoint,
     }
 
     struct Randomnesses {
@@ -94,7 +92,6 @@ pub mod issuance_revealed {
             transcript.commit_bytes("B".as_bytes(), publics.B.compress().as_bytes());
             transcript.commit_bytes("A".as_bytes(), publics.A.compress().as_bytes());
             transcript.commit_bytes("X1".as_bytes(), publics.X1.compress().as_bytes());
-            transcript.commit_bytes("m1X1".as_bytes(), publics.m1X1.compress().as_bytes());
             let rng_ctor = transcript.fork_transcript();
             let rng_ctor = rng_ctor.commit_witness_bytes("x0".as_bytes(), secrets.x0.as_bytes());
             let rng_ctor = rng_ctor.commit_witness_bytes("x1".as_bytes(), secrets.x1.as_bytes());
@@ -119,12 +116,10 @@ pub mod issuance_revealed {
                     &[*(publics.B), *(publics.A)],
                 ),
                 X1: RistrettoPoint::multiscalar_mul(&[rand.x1], &[*(publics.A)]),
-                m1X1: RistrettoPoint::multiscalar_mul(&[rand.m1x1], &[*(publics.A)]),
             };
             transcript.commit_bytes("com Q".as_bytes(), commitments.Q.compress().as_bytes());
             transcript.commit_bytes("com Cx0".as_bytes(), commitments.Cx0.compress().as_bytes());
             transcript.commit_bytes("com X1".as_bytes(), commitments.X1.compress().as_bytes());
-            transcript.commit_bytes("com m1X1".as_bytes(), commitments.m1X1.compress().as_bytes());
             let challenge = {
                 let mut bytes = [0; 64];
                 transcript.challenge_bytes(b"chal", &mut bytes);
@@ -157,10 +152,6 @@ pub mod issuance_revealed {
                     (&[responses.x1]).into_iter().chain(iter::once(&(minus_c))),
                     (&[*(publics.A)]).into_iter().chain(iter::once(publics.X1)),
                 ),
-                m1X1: RistrettoPoint::vartime_multiscalar_mul(
-                    (&[responses.m1x1]).into_iter().chain(iter::once(&(minus_c))),
-                    (&[*(publics.A)]).into_iter().chain(iter::once(publics.m1X1)),
-                ),
             };
             transcript.commit_bytes(b"domain-sep", "issuance_revealed".as_bytes());
             transcript.commit_bytes("P".as_bytes(), publics.P.compress().as_bytes());
@@ -169,11 +160,9 @@ pub mod issuance_revealed {
             transcript.commit_bytes("B".as_bytes(), publics.B.compress().as_bytes());
             transcript.commit_bytes("A".as_bytes(), publics.A.compress().as_bytes());
             transcript.commit_bytes("X1".as_bytes(), publics.X1.compress().as_bytes());
-            transcript.commit_bytes("m1X1".as_bytes(), publics.m1X1.compress().as_bytes());
             transcript.commit_bytes("com Q".as_bytes(), commitments.Q.compress().as_bytes());
             transcript.commit_bytes("com Cx0".as_bytes(), commitments.Cx0.compress().as_bytes());
             transcript.commit_bytes("com X1".as_bytes(), commitments.X1.compress().as_bytes());
-            transcript.commit_bytes("com m1X1".as_bytes(), commitments.m1X1.compress().as_bytes());
             let challenge = {
                 let mut bytes = [0; 64];
                 transcript.challenge_bytes(b"chal", &mut bytes);
diff --git a/aeonflux/src/proofs_macros.rs b/aeonflux/src/proofs_macros.rs
index c949b42..3856f9b 100644
--- a/aeonflux/src/proofs_macros.rs
+++ b/aeonflux/src/proofs_macros.rs
@@ -34,7 +34,6 @@
 /// * `B` and `A` are generators of the group, where `A` is chosen orthogonally
 ///   such that `log_B(A)` is intractible.
 /// * `X1, X2` are the issuer's public key material.
-/// * `m1X1` is the public key `X1` multiplied by the message `m1`, so that `m1x1` is bound to both.
 /// * `u_prime` is the aMAC tag.
 //
 // TODO The "m1x1" is `m1*x1` and is a hack because the zkp crate doesn't
@@ -43,12 +42,11 @@
 // macro-generated code as an additional secret value (since it depend on x1).
 create_nipk!(issuance_revealed,
              (x0, x1, x0_tilde, m1x1),
-             (P, Q, Cx0, B, A, X1, m1X1)
+             (P, Q, Cx0, B, A, X1)
              :
              Q = (P * x0 + P * m1x1),
              Cx0 = (B * x0 + A * x0_tilde),
-             X1 = (A * x1),
-             m1X1 = (A * m1x1)
+             X1 = (A * x1)
 );
 
 /// A NIPK proving that the blinded attributes are valid elGamal encryptions
diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index ab73228..0cb962a 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -164,12 +164,6 @@ impl User {
             return Err(CredentialError::NoIssuerParameters);
         }
 
-        // The tag must have been computed on the attribute the credential claims.
-        let m1X1: RistrettoPoint = match issue.credential.attributes.get(0) {
-            None => return Err(CredentialError::CredentialIssuance),
-            Some(m1) => m1 * &X1,
-        };
-
         let publics = issuance_revealed::Publics {
             P: &issue.credential.mac.nonce,
             Q: &issue.credential.mac.mac,
@@ -177,7 +171,6 @@ impl User {
             B: &self.system_parameters.g,
             A: &self.system_parameters.h,
             X1: &X1,
-            m1X1: &m1X1,
         };
 
         if issue.proof.verify(&mut transcript, publics).is_err() {
-- 
2.43.0


From adcac448d575ca18c7eb8de2b2858bbc8f1c95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 17/20] fix: verify a presentation with a key for too few
 attributes without panicking

---
 aeonflux/src/issuer.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 4d5420e..378dad2 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -205,6 +205,21 @@ impl Issuer {
             return Err(CredentialError::MacVerification);
         }
 
+        // The proof below is about a blinded attribute, and the key must be
+        // long enough for all of the attributes.
+        let blinded: usize = presentation.attributes_blinded.len();
+        let revealed: usize = presentation.attributes_revealed.len();
+
+        if blinded == 0 {
+            return Err(CredentialError::MissingData);
+        }
+        if self.keypair.secret.xn.len() < blinded.max(revealed) {
+            return Err(CredentialError::NoIssuerKey);
+        }
+        if self.keypair.public.Xn.is_empty() {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From 5945f28fa4b43edcf29142153b7262558e651778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 18/20] fix: show with no nonce, attribute or issuer parameter
 returns an error instead of panicking

---
 aeonflux/src/user.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 0cb962a..8807b83 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -197,6 +197,15 @@ impl User {
             None        => return Err(CredentialError::MissingData),
         };
 
+        // The proof below is about an attribute hidden with a nonce, and there
+        // must be an issuer parameter for each of the nonces.
+        if nonces.0.is_empty() || credential.attributes.is_empty() {
+            return Err(CredentialError::MissingData);
+        }
+        if self.issuer_parameters.len() < nonces.0.len() {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+
         let mut transcript = Transcript::new(b"AEONFLUX SHOW");
         let mut csprng = transcript.fork_transcript().reseed_from_rng(rng);
 
-- 
2.43.0


From 0fe5f0fa534a9080b1375bf2b9c7bd11fa365993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:08 +0000
Subject: [PATCH 19/20] fix: the C header can be included by itself, in several
 files and more than once

---
 ffi/src/include/credential.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index fd73cca..c58e313 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -5,19 +5,22 @@
 // Authors:
 // - isis agora lovecruft <isis@patternsinthevoid.net>
 
+#ifndef CREDENTIAL_H
+#define CREDENTIAL_H
+
 #include <stdint.h>
 
-const uint LENGTH_SEED = 32;
-const uint LENGTH_SYSTEM_PARAMETERS = 64;
-const uint LENGTH_ISSUER = 160;
-const uint LENGTH_ISSUER_PARAMETERS = 32;
-const uint LENGTH_ISSUER_KEYPAIR = 96;
-const uint LENGTH_USER = 288;
-const uint LENGTH_CREDENTIAL_ISSUANCE = 328;
-const uint LENGTH_CREDENTIAL_PRESENTATION = 448;
-const uint LENGTH_VERIFIED_CREDENTIAL = 448;
-const uint LENGTH_ROSTER_ENTRY_COMMITMENT = 64;
-const uint LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING = 32;
+static const uint32_t LENGTH_SEED = 32;
+static const uint32_t LENGTH_SYSTEM_PARAMETERS = 64;
+static const uint32_t LENGTH_ISSUER = 160;
+static const uint32_t LENGTH_ISSUER_PARAMETERS = 32;
+static const uint32_t LENGTH_ISSUER_KEYPAIR = 96;
+static const uint32_t LENGTH_USER = 288;
+static const uint32_t LENGTH_CREDENTIAL_ISSUANCE = 328;
+static const uint32_t LENGTH_CREDENTIAL_PRESENTATION = 448;
+static const uint32_t LENGTH_VERIFIED_CREDENTIAL = 448;
+static const uint32_t LENGTH_ROSTER_ENTRY_COMMITMENT = 64;
+static const uint32_t LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING = 32;
 
 /**
  * Contains a pointer to some data and a length.
@@ -409,3 +412,5 @@ buf_t roster_entry_commitment_open(const uint8_t* roster_entry_commitment, // al
                                      const uint64_t phone_number_length,
                                      const uint8_t* system_parameters,
                                      const uint64_t system_parameters_length);
+
+#endif /* CREDENTIAL_H */
-- 
2.43.0


From 622bfd29873be63767a3ee0e5cc9808301daba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:52 +0000
Subject: [PATCH 20/20] fix: a presentation that also reveals an attribute is
 accepted for another blinded one

---
 aeonflux/src/issuer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 378dad2..5311a99 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -32,6 +32,8 @@ use credential::Credential;
 use credential::CredentialIssuance;
 use credential::CredentialRequest;
 use credential::CredentialPresentation;
+use credential::PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES;
+use credential::PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES;
 use credential::VerifiedCredential;
 use errors::CredentialError;
 use nonces::Ephemeral;
@@ -205,15 +207,17 @@ impl Issuer {
             return Err(CredentialError::MacVerification);
         }
 
-        // The proof below is about a blinded attribute, and the key must be
-        // long enough for all of the attributes.
+        // The proof below is about the one blinded attribute.  Whatever else is
+        // presented changes the MAC it is for, e.g. to one on the sum of the
+        // blinded and a revealed attribute.
         let blinded: usize = presentation.attributes_blinded.len();
         let revealed: usize = presentation.attributes_revealed.len();
 
-        if blinded == 0 {
+        if blinded != PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES ||
+            revealed != PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES {
             return Err(CredentialError::MissingData);
         }
-        if self.keypair.secret.xn.len() < blinded.max(revealed) {
+        if self.keypair.secret.xn.len() < blinded {
             return Err(CredentialError::NoIssuerKey);
         }
         if self.keypair.public.Xn.is_empty() {
-- 
2.43.0

