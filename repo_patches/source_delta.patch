From f83d858e189a75d7ee2f0f56797ae7c2359aac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 01/30] fix: KeccaXOF.read returns as many bytes as were asked
 for

---
 pythonref/keccaxof.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index c49c81c..5599322 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -17,8 +17,8 @@ class KeccaXOF:
             raise ValueError('KeccaXOF.update() called after digest()')
         self.input.append(data)
 
-    def read(self, bytes):
-        to_slice = bytes * 2
+    def read(self, length):
+        to_slice = length * 2
         if self.last is None:
             keccak_hash = keccak.new(digest_bits=256)
             keccak_hash.update(encode_packed(
@@ -34,7 +34,7 @@ class KeccaXOF:
 
         buff = self.tmp[:to_slice]
         self.tmp = self.tmp[to_slice:]
-        return int(buff, 16).to_bytes(2, 'big')
+        return bytes.fromhex(buff)
 
     def flip(self):
         return
-- 
2.43.0


From e9d0f81aef07e0330e48e9d0041c924c6fecfe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 02/30] fix: comp_decode16 refuses words outside the field and
 centres the others

The word was read into an int16_t, so that everything from 0x8000 up passed
for a value below 12289, and 2047..6144 came out as the negative
representative.
---
 falcon/nistfalcon/src/codec.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..247e4f2 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -624,16 +624,16 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
-			w = (acc >> acc_len) & 0xFFFF;
+			w = (int32_t)((acc >> acc_len) & 0xFFFF);
 			if (w >= 12289) {
 				return 0;
 			}
-			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
-			x[u++] = w;
+			// representative in [-6144, 6144]
+			w -= 12289 & -(w > 6144);
+			x[u++] = (int16_t)w;
 		}
 	}
 	if ((acc & (((uint32_t)1 << acc_len) - 1)) != 0) {
-- 
2.43.0


From 7ffcdd6b3c96400b6188e2be9d0f86dce6fac9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 03/30] fix: decompress refuses all-zero input and non-zero
 trailing bits

The first raised IndexError; the second let anyone alter the padding of a
valid signature and obtain another valid one.
---
 pythonref/encoding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..2a0fa7a 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,8 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
-        u = u[:-1]
+    u = u.rstrip("0")
 
     try:
         while (u != "") and (len(v) < n):
@@ -73,6 +72,9 @@ def decompress(x, slen, n):
         # In this case, the encoding is invalid
         if (len(v) != n):
             return False
+        # Only zeros may follow the last coefficient
+        if (u != ""):
+            return False
         return v
     # IndexError is raised if indices are read outside the table bounds
     except IndexError:
-- 
2.43.0


From bd2bd5da55bbfe7b26e3fd3a7fdd9c6d58fdf9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 04/30] fix: PublicKey.from_bytes accepts exactly 897 and 1793
 byte keys

A Falcon-1024 key has 1793 bytes and was refused; 1792 bytes under a
Falcon-512 header were accepted, the excess ignored.
---
 pythonref/falcon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..42d30a2 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -246,8 +246,8 @@ class PublicKey:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
         if pk_bytes[0] == 0x09:
@@ -257,6 +257,9 @@ class PublicKey:
         else:
             raise ValueError("Invalid Falcon public key header")
 
+        if len(pk_bytes) != HEAD_LEN + 14 * n // 8:
+            raise ValueError("Public key length does not match its header")
+
         data = pk_bytes[HEAD_LEN:]  # Remove header
 
         h = []
-- 
2.43.0


From f43358e6c1669ec80179865f956d318a97249be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 05/30] fix: decompress returns False on a string ending in a
 lone sign bit

int('', 2) raised ValueError.
---
 pythonref/encoding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index 2a0fa7a..271fbfd 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -76,8 +76,9 @@ def decompress(x, slen, n):
         if (u != ""):
             return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError is raised if indices are read outside the table bounds,
+    # ValueError if there is no low bit left
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From d7d866e631e8f4fd27d4101b6241bbf21f746267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 06/30] fix: ETHFALCON refuses messages that do not fit in the
 PRNG buffer

The return value of inner_keccak256_inject was ignored: for a message of
more than 4056 bytes only the nonce was hashed, so that a signature was
valid for every such message.
---
 falcon/nistfalcon/src/nist.c   | 13 ++++++++++---
 falcon/nistfalcon/src/nist16.c | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..285fda9 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -238,8 +238,12 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0
+		|| (mlen != 0 && inner_keccak256_inject(&kc, m, mlen) != 0))
+	{
+		/* The message does not fit in the PRNG buffer. */
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -353,7 +357,10 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..e5f1858 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -243,8 +243,12 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0
+		|| (mlen != 0 && inner_keccak256_inject(&kc, m, mlen) != 0))
+	{
+		/* The message does not fit in the PRNG buffer. */
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -366,7 +370,10 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
-- 
2.43.0


From 731de4ddb43687df7665fa1e7242f925f497f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 07/30] fix: sign_open_epervier requires the full signature
 length

With a shorter announced length esig[1025] and the decoders read past the
signed message; with a longer one trailing bytes were accepted.
---
 falcon/nistfalcon/src/epervier16.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..2401773 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -228,7 +228,8 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	if (sig_len != ZKNOX_CRYPTO_BYTES_EPERVIER - 2 - NONCELEN
+		|| esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
 		return -1;
 	}
 
-- 
2.43.0


From a91902c15fb9740337216ea2a49ecdc040015c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 08/30] fix: zknox_pk_epervier does not transform a public key
 twice

zknox_crypto_sign_keypair returns the public key in NTT form; a second
transform made every Epervier signature fail to open (kat512int_epervier_zknox
returned -1).
---
 falcon/nistfalcon/src/epervier16.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 2401773..fe0ff24 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -26,7 +26,6 @@ int randombytes(unsigned char *x, unsigned long long xlen);
 int
 zknox_pk_epervier(unsigned char *pk)
 {
-	// Additional NTT for epervier
 	// Hash is not computed here
 	TEMPALLOC uint16_t h[512];
 	size_t v;
@@ -41,8 +40,7 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
+	// zknox_crypto_sign_keypair already returns the public key in NTT form
 
 	/*
 	 * Re-encode public key.
-- 
2.43.0


From a8b631c4aad42e244c0b7e0f1e22ecd0ef85d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 09/30] fix: prng_get_bytes reads from the current position of
 the buffer

It copied from the start of the buffer whatever had already been consumed,
giving out the same bytes again.
---
 falcon/nistfalcon/src/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/rng.c b/falcon/nistfalcon/src/rng.c
index dd03a22..16586a1 100644
--- a/falcon/nistfalcon/src/rng.c
+++ b/falcon/nistfalcon/src/rng.c
@@ -179,7 +179,7 @@ Zf(prng_get_bytes)(prng *p, void *dst, size_t len)
 		if (clen > len) {
 			clen = len;
 		}
-		memcpy(buf, p->buf.d, clen);
+		memcpy(buf, p->buf.d + p->ptr, clen);
 		buf += clen;
 		len -= clen;
 		p->ptr += clen;
-- 
2.43.0


From 87b79adfe7268017fd75a9edd8c7268c1c9e8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 10/30] fix: public key recovery refuses hints that are not
 reduced modulo q

---
 pythonref/falcon_epervier.py | 3 +++
 pythonref/falcon_recovery.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..5d1d5f2 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -41,6 +41,9 @@ class EpervierPublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # a hint has a single representation
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
         mul_s1_s1inv = T.vec_mul(s_1_inv_ntt, s_1_ntt)
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..30ddeaf 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -41,6 +41,9 @@ class RecoveryModePublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # a hint has a single representation
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         s_1_ntt = T.ntt(s1)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
-- 
2.43.0


From 9cf4306b4fe2f52932e72888c115c6f137e4c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 11/30] fix: recovery modes do not accept an invalid signature
 for address 0

---
 pythonref/falcon_epervier.py | 3 ++-
 pythonref/falcon_recovery.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index 5d1d5f2..3bda13c 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -73,7 +73,8 @@ class EpervierPublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # False means that no key could be recovered, and equals 0
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class EpervierSecretKey(SecretKey):
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index 30ddeaf..76c2ead 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -77,7 +77,8 @@ class RecoveryModePublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # False means that no key could be recovered, and equals 0
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class RecoveryModeSecretKey(SecretKey):
-- 
2.43.0


From af84af64e7ef7411c7546ad1b14189c81af2011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 12/30] fix: ChaCha20 drops the last 9 bytes of a block like
 the reference code

---
 pythonref/rng.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pythonref/rng.py b/pythonref/rng.py
index 88655b7..edcef0a 100644
--- a/pythonref/rng.py
+++ b/pythonref/rng.py
@@ -113,7 +113,9 @@ class ChaCha20:
         Generate random bytes.
         Perform some shenanigans to match the reference code PRG.
         """
-        if (2 * k > len(self.hexbytes)):
+        # The reference code takes 9 bytes as 8 + 1, and never takes the 8 from
+        # the last 9 bytes of its buffer.
+        if (2 * k > len(self.hexbytes)) or (k == 9 and len(self.hexbytes) == 18):
             self.hexbytes = self.block_update()
         out = self.hexbytes[:(2 * k)]
         out = "".join(out[i:i + 2] for i in range(2 * k - 2, -1, -2))
-- 
2.43.0


From be5ebf6b6d17c759a193005b7d1e55c95d06afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 13/30] fix: on-chain verification bounds the norm of all
 coefficients of s1 and s2

---
 src/ZKNOX_falcon_core.sol | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index b5f0f29..729a96f 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -42,7 +42,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
 ///      1. Computes s1 = h - s1 (mod q) where h is hash-to-point result
 ///      2. Normalizes both s1 and s2 to centered representatives (-q/2, q/2]
 ///      3. Computes squared L2 norm: ||s1||² + ||s2||²
-///      4. Verifies norm² < sigBound = 34034726
+///      4. Verifies norm² <= sigBound = 34034726
 /// @param s1 First signature component (will be overwritten with h - s1)
 /// @param s2 Second signature component in compacted format (32 words)
 /// @param hashed Hash-to-point result (512 coefficients)
@@ -59,7 +59,7 @@ function falcon_normalize(
 
     // OPTIMIZATION: Added memory-safe annotation, use lt instead of gt for clarity
     assembly ("memory-safe") {
-        for { let offset := 32 } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := 32 } lt(offset, 16416) { offset := add(offset, 32) } {
             let s1i := addmod(mload(add(hashed, offset)), sub(q, mload(add(s1, offset))), q) //s1[i] = addmod(hashed[i], q - s1[i], q);
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
@@ -78,14 +78,15 @@ function falcon_normalize(
             }
         }
 
-        for { let offset := add(s1, 32) } lt(offset, 16384) { offset := add(offset, 32) } {
+        let endOffset := add(s1, 16416)
+        for { let offset := add(s1, 32) } lt(offset, endOffset) { offset := add(offset, 32) } {
             let s1i := mload(offset) //s1[i]
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
             norm := add(norm, mul(s1i, s1i))
         }
 
-        result := gt(sigBound, norm) //norm < SigBound ?
+        result := iszero(gt(norm, sigBound)) //norm <= SigBound ?
     }
 
     return result;
-- 
2.43.0


From adbabd82b5497780faeccb30d471aff2492095bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 14/30] fix: on-chain verification refuses coefficients of s2
 that are not reduced modulo q

---
 src/ZKNOX_falcon_core.sol | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index 729a96f..357369f 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -16,7 +16,7 @@ import "./ZKNOX_NTT_falcon.sol";
 /// @return true if all coefficients are valid (< q), false otherwise
 function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compact) pure returns (bool) {
     uint256[] memory a;
-    if (is_compact == false) {
+    if (is_compact) {
         a = _ZKNOX_NTT_Expand(polynomial);
     } else {
         a = polynomial;
@@ -28,7 +28,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
         let ptr := add(a, 32)
         let endPtr := add(ptr, shl(5, len)) // len * 32
         for {} lt(ptr, endPtr) { ptr := add(ptr, 32) } {
-            if gt(mload(ptr), q) {
+            if iszero(lt(mload(ptr), q)) {
                 result := 0
                 ptr := endPtr // break
             }
@@ -111,6 +111,7 @@ function falcon_core(
 {
     if (hashed.length != 512) return false;
     if (s2.length != 32) return false; //"Invalid signature length"
+    if (!falcon_checkPolynomialRange(s2, true)) return false; //malleability: each coefficient has one encoding
 
     result = false;
 
-- 
2.43.0


From 6a07919ab7adaebf0c1f4a265f815eabedf27305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 15/30] fix: on-chain verify requires the exact signature
 length

---
 src/ZKNOX_ethfalcon.sol | 2 ++
 src/ZKNOX_falcon.sol    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ZKNOX_ethfalcon.sol b/src/ZKNOX_ethfalcon.sol
index b9eb64f..b15ced8 100644
--- a/src/ZKNOX_ethfalcon.sol
+++ b/src/ZKNOX_ethfalcon.sol
@@ -77,6 +77,8 @@ contract ZKNOX_ethfalcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + falcon_S256 * 32) revert("invalid signature length");
+
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
diff --git a/src/ZKNOX_falcon.sol b/src/ZKNOX_falcon.sol
index c1f4635..274c3a4 100644
--- a/src/ZKNOX_falcon.sol
+++ b/src/ZKNOX_falcon.sol
@@ -79,6 +79,8 @@ contract ZKNOX_falcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + falcon_S256 * 32) revert("invalid signature length");
+
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
-- 
2.43.0


From 99cea40a3e595b122408937f31fa44317424aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 16/30] fix: on-chain recovery counts the last coefficients of
 s1 and s2 in the norm

---
 src/ZKNOX_epervier.sol    | 2 +-
 src/ZKNOX_ethepervier.sol | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index e5ba946..d1e211d 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -48,7 +48,7 @@ contract ZKNOX_epervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 8ec7b55..895a255 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -47,7 +47,7 @@ contract ZKNOX_ethepervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
-- 
2.43.0


From 3b97a89c8804b54d08665a0abbfaf6ea3f13f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 17/30] fix: on-chain recovery refuses coefficients and hints
 that are not reduced modulo q

---
 src/ZKNOX_epervier.sol    | 6 ++++++
 src/ZKNOX_ethepervier.sol | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index d1e211d..954cad0 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -9,6 +9,7 @@ pragma solidity ^0.8.25;
 import {Test, console} from "forge-std/Test.sol";
 import "./ZKNOX_falcon_utils.sol";
 import "./ZKNOX_NTT_falcon.sol";
+import "./ZKNOX_falcon_core.sol";
 import "./ZKNOX_HashToPoint.sol";
 
 /// @title ZKNOX_epervier
@@ -39,6 +40,11 @@ contract ZKNOX_epervier {
         if (cs1.length != 32) revert("Invalid s1 length"); //"Invalid s1 length"
         if (cs2.length != 32) revert("Invalid s2 length"); //"Invalid s2 length"
 
+        //malleability: each coefficient and the hint have one encoding
+        if (!falcon_checkPolynomialRange(cs1, true)) revert("Invalid s1 coefficient");
+        if (!falcon_checkPolynomialRange(cs2, true)) revert("Invalid s2 coefficient");
+        if (hint >= q) revert("Invalid hint");
+
         uint256[] memory s1 = _ZKNOX_NTT_Expand(cs1); //avoiding another memory declaration
         uint256[] memory s2 = _ZKNOX_NTT_Expand(cs2); //avoiding another memory declaration
 
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 895a255..3f9fe0f 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -10,6 +10,7 @@ import {Test, console} from "forge-std/Test.sol";
 
 import "./ZKNOX_falcon_utils.sol";
 import "./ZKNOX_NTT_falcon.sol";
+import "./ZKNOX_falcon_core.sol";
 import "./ZKNOX_HashToPoint.sol";
 
 /// @title ZKNOX_ethepervier
@@ -38,6 +39,11 @@ contract ZKNOX_ethepervier {
         if (cs1.length != 32) revert("Invalid s1 length"); //"Invalid s1 length"
         if (cs2.length != 32) revert("Invalid s2 length"); //"Invalid s2 length"
 
+        //malleability: each coefficient and the hint have one encoding
+        if (!falcon_checkPolynomialRange(cs1, true)) revert("Invalid s1 coefficient");
+        if (!falcon_checkPolynomialRange(cs2, true)) revert("Invalid s2 coefficient");
+        if (hint >= q) revert("Invalid hint");
+
         uint256[] memory s1 = _ZKNOX_NTT_Expand(cs1); //avoiding another memory declaration
         uint256[] memory s2 = _ZKNOX_NTT_Expand(cs2); //avoiding another memory declaration
 
-- 
2.43.0


From fdfb43762ec63872d15b3b789e16eaefadb747f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 18/30] fix: make_immutable stops further updates of ZKNOX_NTT

---
 src/ZKNOX_NTT.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_NTT.sol b/src/ZKNOX_NTT.sol
index 2c22f3c..3260a64 100644
--- a/src/ZKNOX_NTT.sol
+++ b/src/ZKNOX_NTT.sol
@@ -64,11 +64,11 @@ contract ZKNOX_NTT {
 
         o_psirev = Apsi_rev;
         o_psi_inv_rev = Apsi_inrev;
-        is_immutable = 1;
+        is_immutable = 0;
     }
 
     function update(address Apsi_rev, address Apsi_inrev, uint256 q, uint256 nm1modq) public {
-        if (is_immutable > 0) {
+        if (is_immutable == 0) {
             storage_q = q; //prime field modulus
             storage_nm1modq = nm1modq; //n^-1 mod 12289, used in inverse NTT
 
-- 
2.43.0


From 82a104d5871c0c401b2959cc1ee116f6fc0f4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 19/30] fix: _decompress_sig refuses -0, non-zero padding and
 truncated input

---
 src/ZKNOX_falcon_encodings.sol | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index 8a8c924..d311473 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -64,9 +64,9 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         /*
         * "-0" is forbidden.
         */
-        //	if ( ((s==0) && (m==0)) ) {//TODO: replace
-        //		revert("incorrect zero encoding");
-        //	}
+        if (s == 0x80 && m == 0) {
+            revert("incorrect zero encoding");
+        }
 
         assembly {
             let temp := m // x[u] = m;
@@ -78,6 +78,19 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         }
     } //end loop u
 
+    /*
+    * Bits left in the last byte, and bytes after it (padding), must be zero.
+    */
+    if (v > buf.length) {
+        revert("too short");
+    }
+    if ((acc & ((1 << acc_len) - 1)) != 0) {
+        revert("non-zero padding");
+    }
+    for (uint256 i = v; i < buf.length; i++) {
+        if (buf[i] != 0) revert("non-zero padding");
+    }
+
     //console.log("last read sig:",uint8(buf[v]));
     if ((v - offset) >= max_in_len) {
         revert("too long");
-- 
2.43.0


From d5a2987398a16854ed376bacea4a2c505d7f4141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 20/30] fix: decompress_KAT checks the lengths of the public
 key and of the signed message

---
 src/ZKNOX_falcon_encodings.sol | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index d311473..f4dd314 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -114,9 +114,17 @@ function decompress_KAT(bytes memory pk, bytes memory sm, uint256 mlen)
 {
     uint256 slen = (uint256(uint8(sm[0])) << 8) + uint256(uint8(sm[1]));
 
+    //the signature fills the rest of sm: its last byte holds a stop bit
+    if (sm.length != 2 + 40 + mlen + slen || sm[sm.length - 1] == 0) {
+        revert("wrong signature length");
+    }
+
     /*
     * Decode public key.
     */
+    if (pk.length != 897) {
+        revert("wrong public key length");
+    }
     if (pk[0] != 0x09) {
         revert("wrong public key encoding");
     }
-- 
2.43.0


From bfc7937134c245327827bfa3235799aed8a5beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 21/30] fix: Go binding: seed the random generator and
 serialise its callers

---
 falcon/falcon.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 0a11476..98554dc 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -7,6 +7,7 @@ package falcon
 
 #include <stdlib.h>
 #include "api.h"
+#include "katrng.h"
 
 // Wrapper for crypto_sign_keypair, crypto_sign, crypto_sign_open
 
@@ -14,7 +15,9 @@ package falcon
 import "C"
 
 import (
+	"crypto/rand"
 	"fmt"
+	"sync"
 	"unsafe"
 )
 
@@ -24,8 +27,35 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// The random generator of the C library is global, starts from a fixed state
+// and is not safe for concurrent use.
+var (
+	rngMutex  sync.Mutex
+	rngSeeded bool
+)
+
+// seedRNG seeds the generator on first use; rngMutex must be held
+func seedRNG() error {
+	if rngSeeded {
+		return nil
+	}
+	var entropy [48]byte
+	if _, err := rand.Read(entropy[:]); err != nil {
+		return fmt.Errorf("no entropy: %w", err)
+	}
+	C.randombytes_init((*C.uchar)(unsafe.Pointer(&entropy[0])), nil, 256)
+	rngSeeded = true
+	return nil
+}
+
 // GenerateKeypair generates a public/private keypair
 func GenerateKeypair() ([]byte, []byte, error) {
+	rngMutex.Lock()
+	defer rngMutex.Unlock()
+	if err := seedRNG(); err != nil {
+		return nil, nil, err
+	}
+
 	var pk [PublicKeySize]C.uchar
 	var sk [SecretKeySize]C.uchar
 
@@ -42,6 +72,12 @@ func GenerateKeypair() ([]byte, []byte, error) {
 
 // SignMessage signs a message using the private key
 func SignMessage(message []byte, sk []byte) ([]byte, error) {
+	rngMutex.Lock()
+	defer rngMutex.Unlock()
+	if err := seedRNG(); err != nil {
+		return nil, err
+	}
+
 	var sm [SignatureSize]C.uchar
 	var smlen C.ulonglong
 
-- 
2.43.0


From fa3ad777be18fd085c8ec8e256d10986e30fefcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 22/30] fix: Go binding: buffers hold any message, keys have
 the right length

---
 falcon/falcon.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 98554dc..e89de79 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -70,42 +70,54 @@ func GenerateKeypair() ([]byte, []byte, error) {
 	return pkBytes, skBytes, nil
 }
 
+// bytesPtr returns the address of the bytes of b, also when there are none
+func bytesPtr(b []byte) *C.uchar {
+	if len(b) == 0 {
+		b = make([]byte, 1)
+	}
+	return (*C.uchar)(unsafe.Pointer(&b[0]))
+}
+
 // SignMessage signs a message using the private key
 func SignMessage(message []byte, sk []byte) ([]byte, error) {
+	if len(sk) != SecretKeySize {
+		return nil, fmt.Errorf("secret key of %d bytes, expected %d", len(sk), SecretKeySize)
+	}
+
 	rngMutex.Lock()
 	defer rngMutex.Unlock()
 	if err := seedRNG(); err != nil {
 		return nil, err
 	}
 
-	var sm [SignatureSize]C.uchar
+	// The signed message holds the message
+	sm := make([]byte, len(message)+C.CRYPTO_BYTES)
 	var smlen C.ulonglong
 
-	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(&message[0])), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
+	ret := C.crypto_sign(bytesPtr(sm), &smlen, bytesPtr(message), C.ulonglong(len(message)), bytesPtr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
 	}
 
-	// Convert signature to Go byte slice
-	smBytes := C.GoBytes(unsafe.Pointer(&sm[0]), C.int(smlen))
-	return smBytes, nil
+	return sm[:smlen], nil
 }
 
 // VerifySignature verifies a signature for a given message and public key
 func VerifySignature(signature []byte, message []byte, pk []byte) (bool, error) {
-	var m [1024]C.uchar // Buffer for the recovered message
+	if len(pk) != PublicKeySize {
+		return false, fmt.Errorf("public key of %d bytes, expected %d", len(pk), PublicKeySize)
+	}
+
+	m := make([]byte, len(signature)) // Buffer for the recovered message
 	var mlen C.ulonglong
 
-	ret := C.crypto_sign_open(&m[0], &mlen, (*C.uchar)(unsafe.Pointer(&signature[0])), C.ulonglong(len(signature)), (*C.uchar)(unsafe.Pointer(&pk[0])))
+	ret := C.crypto_sign_open(bytesPtr(m), &mlen, bytesPtr(signature), C.ulonglong(len(signature)), bytesPtr(pk))
 	if ret != 0 {
 		return false, fmt.Errorf("verification failed: %d", int(ret))
 	}
 
-	// Convert recovered message back to Go byte slice
-	recoveredMessage := C.GoBytes(unsafe.Pointer(&m[0]), C.int(mlen))
-
 	// Compare the recovered message with the original message
-	if string(recoveredMessage) == string(message) {
+	if string(m[:mlen]) == string(message) {
 		return true, nil
 	}
 	return false, nil
-- 
2.43.0


From 9f666093a36531d3959323360a82ebc1c61bada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 23/30] fix: stop the reduction of an NTRU solution when what
 is left is a half

Babai's reduction rounds coefficients that are exactly one half up or down
according to floating-point noise, and could alternate for ever: ntru_solve
did not return for f = 1, g = -x at degree 4.
---
 pythonref/ntrugen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pythonref/ntrugen.py b/pythonref/ntrugen.py
index 5aa7bda..16af5cf 100755
--- a/pythonref/ntrugen.py
+++ b/pythonref/ntrugen.py
@@ -138,7 +138,9 @@ def reduce(f, g, F, G):
                           mul_fft(Ga_fft, adj_fft(ga_fft)))
         k_fft = div_fft(num_fft, den_fft)
         k = ifft(k_fft)
-        k = [int(round(elt)) for elt in k]
+        # A coefficient of one half cannot be reduced further: rounding errors
+        # must not make it change sides forever.
+        k = [int(round(elt)) if abs(elt) > 0.5 + 2 ** -20 else 0 for elt in k]
         if all(elt == 0 for elt in k):
             break
         # The two next lines are the costliest operations in ntru_gen
-- 
2.43.0


From 04e44b504126386459f93f3d066bc78918289ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 24/30] fix: sign_cli: derive the signing randomness from the
 private key

It was derived from the public key and from the data without its last
incomplete block, so that anybody could recompute it and different
messages were signed with the same salt and sampler randomness.
---
 pythonref/sign_cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 819887d..3b67f32 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -122,10 +122,15 @@ def signature(sk, data, version):
     # separator
     deterministic_bytes.update(bytes([0x00]))
     # secret key encoded
-    deterministic_bytes.update(b''.join(x.to_bytes(2, 'big') for x in sk.h))
+    deterministic_bytes.update(version.encode() + bytes([0x00]))
+    for poly in (sk.f, sk.g, sk.F, sk.G):
+        deterministic_bytes.update(
+            b''.join(x.to_bytes(4, 'big', signed=True) for x in poly))
     # data TODO consider h(M) instead here.
     # if H does not output 32 bytes, change V above.
     deterministic_bytes.update(data)
+    # end of the input: what is left of it must be absorbed too
+    deterministic_bytes.flip()
 
     return sk.sign(
         data,
-- 
2.43.0


From 98062f5b23432eb76d4f7eab93f84a099fd97bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 25/30] fix: sign_cli: verify signatures of falconrec keys

The hash-to-point generator was not set for this version.
---
 pythonref/sign_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 3b67f32..dee4fd4 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -173,7 +173,7 @@ def print_signature_transaction(sig, pk, tx_hash):
 def verify_signature(pk, data, sig, version):
     if version == 'falcon' or version == 'epervier':
         XOF = SHAKE
-    elif version == 'ethfalcon':
+    elif version == 'ethfalcon' or version == 'falconrec':
         XOF = KeccakPRNG
     else:
         print('NOT IMPLEMENTED YET')
-- 
2.43.0


From 04e5e2e54d60baa3b8719bae303aff8aefa323c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 26/30] fix: sign_cli: sign_tx signs with the version of the
 key and prints the result

The check and the printing were called with wrong arguments, so the
command always failed.
---
 pythonref/sign_cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index dee4fd4..d8237e7 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -390,9 +390,9 @@ def cli():
         print(tx_hash)
         [sk, version] = load_sk(args.privkey)
         pk = PublicKey(512, sk.h)
-        sig = signature(sk, tx_hash, args.version)
-        assert (verify_signature(pk, tx_hash, sig))
-        print_signature_transaction(sig, pk, tx_hash, version)
+        sig = signature(sk, tx_hash, version)
+        assert (verify_signature(pk, tx_hash, sig, version))
+        print_signature_transaction(sig, pk, tx_hash)
 
     elif args.action == "verify":
         if not args.data or not args.pubkey or not args.signature:
-- 
2.43.0


From 8aa6bfdce5ac04f83ee9c8ace1eeae8e8fe41695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 27/30] fix: sign_cli: recoveronchainsend sends s1

---
 pythonref/sign_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index d8237e7..f4911ac 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -279,6 +279,7 @@ def recover_on_chain_with_transaction(data, sig, contract_address, rpc, private_
         contract_address,
         MSG,
         SALT,
+        S1,
         S2,
         HINT,
         rpc
-- 
2.43.0


From df4dd9d63c5bc0b550b40e9e573f5b2c8d3e3a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:57 +0000
Subject: [PATCH 28/30] fix: generate_kat_rsp writes the true length of the
 signature

slen counted salt and message too, and the compressed part kept its zero
padding, so the C open and decompress_KAT refused every vector.
---
 pythonref/scripts/generate_kat_rsp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/scripts/generate_kat_rsp.py b/pythonref/scripts/generate_kat_rsp.py
index 67408ea..0dd0ca3 100755
--- a/pythonref/scripts/generate_kat_rsp.py
+++ b/pythonref/scripts/generate_kat_rsp.py
@@ -224,11 +224,11 @@ def sign_message(sk, msg_hex, seed_hex):
     # Extract components from Python signature
     python_header = sig[0:1]  # First byte (e.g., 0x39)
     salt = sig[1:41]  # Bytes 1-40
-    compressed_sig = sig[41:]  # Rest is compressed signature
+    compressed_sig = sig[41:].rstrip(b'\x00')  # Rest is compressed signature, without padding
 
     # Calculate signature length for Solidity format
-    # slen includes: salt(40) + message + solidity_header(1) + compressed_sig
-    slen = 40 + len(msg) + 1 + len(compressed_sig)
+    # slen includes: solidity_header(1) + compressed_sig
+    slen = 1 + len(compressed_sig)
 
     # Build Solidity-compatible format:
     # slen(2) + salt(40) + message(mlen) + solidity_header(1=0x29) + compressed_sig
-- 
2.43.0


From 2667e5f7bbb11e7ff0cff86465932da8c090d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:57 +0000
Subject: [PATCH 29/30] fix: the recursive verifier accepts a norm equal to the
 bound

The bound is inclusive in the C code, in pythonref and in src/.
---
 external/ETHFalcon_Recursive.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/ETHFalcon_Recursive.sol b/external/ETHFalcon_Recursive.sol
index 9a0f9d3..727bead 100644
--- a/external/ETHFalcon_Recursive.sol
+++ b/external/ETHFalcon_Recursive.sol
@@ -67,7 +67,7 @@ contract ETHFalcon {
             norm += s0[i] * s0[i];
             norm += s1[i] * s1[i];
         }
-        require(norm < sigBound, "Signature is invalid");
+        require(norm <= sigBound, "Signature is invalid");
         return (address(0));
     }
 
@@ -111,7 +111,7 @@ contract ETHFalcon {
             norm += s0[i] * s0[i];
             norm += s1[i] * s1[i];
         }
-        require(norm < sigBound, "Signature is invalid");
+        require(norm <= sigBound, "Signature is invalid");
         return (address(0));
     }
 
-- 
2.43.0


From b3f10f52ed5d242f3ea9039be9e1c000c01e67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 30/30] fix: forgery.py verifies with the public key, a
 SecretKey has no verify

---
 pythonref/forgery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonref/forgery.py b/pythonref/forgery.py
index 14aeef2..87c8481 100644
--- a/pythonref/forgery.py
+++ b/pythonref/forgery.py
@@ -1,4 +1,4 @@
-from falcon import HEAD_LEN, SALT_LEN, Params, decompress, SecretKey
+from falcon import HEAD_LEN, SALT_LEN, Params, decompress, PublicKey, SecretKey
 from keccaxof import KeccaXOF
 
 n = 512
@@ -14,7 +14,7 @@ def constant_salt(x):
 
 σ = sk.sign(message.encode(), randombytes=constant_salt, xof=KeccaXOF)
 
-assert sk.verify(message.encode(), σ, xof=KeccaXOF)
+assert PublicKey(n, sk.h).verify(message.encode(), σ, xof=KeccaXOF)
 
 # recover s1 in the Solidity format (as in verification)
 enc_s = σ[HEAD_LEN + SALT_LEN:]
-- 
2.43.0

