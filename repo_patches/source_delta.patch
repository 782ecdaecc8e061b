From 4b3d51cab7995e56dbfe0d066c35f577051dc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 01/12] fix: convert 384 and 512 bit hashes to words without
 panicking

---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From 72393d638559cea30190d9010687bbbbee3bb8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 02/12] fix: refuse malformed PKCS padding

---
 src/pad.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 0c654da..2b930fc 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -47,7 +47,14 @@ impl<const N: usize> PkcsPadding<N> {
         if amt as usize > N {
             panic!("padding byte is too big");
         }
-        N - amt as usize
+        if amt == 0 {
+            panic!("padding byte is zero");
+        }
+        let len = N - amt as usize;
+        if block[len..].iter().any(|&b| b != amt) {
+            panic!("padding bytes are not equal");
+        }
+        len
     }
 }
 
-- 
2.43.0


From 4bc7dc604b884d0c048668951c483ab86ce8a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 03/12] fix: refuse bit padding with data after the marker byte

---
 src/pad.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 2b930fc..c439256 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -17,7 +17,8 @@ impl<const N: usize> BitPadding<N> {
     pub fn unpad(&self, last_block: Block<N>) -> (Block<N>, usize) {
         let len = last_block
             .iter()
-            .rposition(|&b| b == 0x80)
+            .rposition(|&b| b != 0)
+            .filter(|&i| last_block[i] == 0x80)
             .expect("missing marker byte (0x80)");
         let mut block = last_block;
         block[len..].fill(0);
-- 
2.43.0


From de71370e553d9fffbcfe2a50b853adbaaa34ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 04/12] fix: accept the empty key in RC5

---
 src/rc/rc5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..6df4d39 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,14 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1);
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        l.resize(c, 0); // the empty key has one zero word
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From 507573a41dd78caa39a93acbfa547f091bed40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 05/12] fix: shift zero left and shift right past the end

---
 src/big/uint.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..8985005 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -269,7 +269,7 @@ impl ShlAssign<u32> for BigUint {
             self.trim_trailing_zeroes()
         }
 
-        if steps > 0 {
+        if steps > 0 && !self.bytes.is_empty() {
             self.bytes
                 .splice(0..0, std::iter::repeat_n(0, steps as usize));
         }
@@ -281,7 +281,8 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            let removed = self.bytes.len().min(steps as usize);
+            self.bytes.splice(0..removed, []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0


From 24ac77a22e0a8f2a0f8e5bc7e8fb639e7a1b0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 06/12] fix: give RSA ciphertexts and padded messages the
 length of the modulus

---
 src/rsa/mod.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..3bf75cd 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -119,17 +119,13 @@ impl TryFrom<PEM> for PublicKey {
 
 impl RsaEncryption {
     pub fn encrypt_message(&self, plaintext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = padding.encode(
-            b"",
-            plaintext,
-            (self.modulo.bits_used() - 1) as usize / 8 + 1,
-        );
+        let m = padding.encode(b"", plaintext, self.modulo_len());
         let m = BigUint::from_be_bytes(m);
         assert!(
             m < self.modulo,
             "the padding scheme did not put a zero as the first byte"
         );
-        self.encrypt(m).to_be_bytes()
+        self.to_fixed_bytes(self.encrypt(m))
     }
 
     pub fn encrypt(&self, m: BigUint) -> BigUint {
@@ -137,11 +133,7 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
-        let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
-        let dec = d.to_be_bytes();
-        let start = m.len() - dec.len();
-        m[start..].copy_from_slice(&dec);
+        let m = self.to_fixed_bytes(self.decrypt(BigUint::from_be_bytes(ciphertext)));
 
         padding.decode(b"", &m, m.len()).unwrap()
     }
@@ -149,6 +141,19 @@ impl RsaEncryption {
     pub fn decrypt(&self, c: BigUint) -> BigUint {
         pow_mod(&c, &self.exponent, &self.modulo)
     }
+
+    fn modulo_len(&self) -> usize {
+        (self.modulo.bits_used() - 1) as usize / 8 + 1
+    }
+
+    /// the big endian bytes of a number below the modulo, zero-filled to the length of the modulo
+    fn to_fixed_bytes(&self, num: BigUint) -> Vec<u8> {
+        let num = num.to_be_bytes();
+        let mut bytes = vec![0; self.modulo_len()];
+        let start = bytes.len() - num.len();
+        bytes[start..].copy_from_slice(&num);
+        bytes
+    }
 }
 
 fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
-- 
2.43.0


From c39d92b6709562634a16f59dc19e81155e0159ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 07/12] fix: return an error for OAEP messages of the wrong
 length

---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..0eea008 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if encoded_message.len() != n_len || n_len < 2 * N + 2 {
+            return Err("wrong length of encoded message");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From 7e088b1850ef74ef7583a94997533188b4599949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 08/12] fix: return an error for invalid DER lengths instead of
 panicking

---
 src/pem/asn1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..82e586b 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,11 +16,15 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
+            if length_bytes == 0 || length_bytes > 16 || bytes.len() < 2 + length_bytes {
+                return Err(format!("tag ({tag}) had an invalid length"));
+            }
             let mut length = 0u128.to_be_bytes();
             length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
             (
                 &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
+                usize::try_from(<u128>::from_be_bytes(length))
+                    .map_err(|_| format!("tag ({tag}) had a too big length"))?,
             )
         } else {
             (&bytes[2..], bytes[1] as usize)
-- 
2.43.0


From 982a9bfe91433b90e3352ef8757db59078cb4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 09/12] fix: return an error for DER bit strings without
 content

---
 src/pem/asn1.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 82e586b..03190fb 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -40,6 +40,7 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
+            0x03 if length == 0 => return Err("bit string was empty".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
-- 
2.43.0


From 2a989cea77ee148189770fca92165d29c14cf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 10/12] fix: return an error for DER nulls with content

---
 src/pem/asn1.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 03190fb..2e1d4be 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -42,6 +42,7 @@ impl Asn1 {
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
             0x03 if length == 0 => return Err("bit string was empty".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
+            0x05 if length != 0 => return Err("null had content".to_string()),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
             0x30 => {
-- 
2.43.0


From 81f8d27922e58ea942a85a597350fb2730b37fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 11/12] fix: refuse RSA primes whose product does not fit
 instead of wrapping around

---
 src/rsa/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 3bf75cd..c88d52c 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -45,7 +45,7 @@ pub fn create_keys(p: BigUint, q: BigUint, e: BigUint) -> (PrivateKey, PublicKey
     let q: u128 = q.as_u128().unwrap();
     let e: u128 = e.as_u128().unwrap();
 
-    let n = p * q;
+    let n = p.checked_mul(q).expect("the modulus is too big");
 
     let l = lcm(p - 1, q - 1);
     let d = inverse(e, l).unwrap();
-- 
2.43.0


From b15c91a01142cee7af8a58601844ef564797b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 12/12] fix: refuse RSA private keys of an unsupported version

---
 src/rsa/asn1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/asn1.rs b/src/rsa/asn1.rs
index cf518f2..5004268 100644
--- a/src/rsa/asn1.rs
+++ b/src/rsa/asn1.rs
@@ -152,6 +152,9 @@ impl PrivateKey {
         if version.len() != 1 {
             return Err("version field must be one byte".to_string());
         }
+        if version[0] != 0 {
+            return Err("expected version to be zero".to_string());
+        }
 
         Ok(Self {
             version: version[0],
-- 
2.43.0

