From 9889bd73daa976f631d8f87fdff36b307ce7b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:29 +0000
Subject: [PATCH 1/8] fix: shake128x4 tail buffers must hold a whole SHAKE128
 block

---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From b3696b4fc84b417eaab5035dfc8fa00355365515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:29 +0000
Subject: [PATCH 2/8] fix: SaberX4 must not assume 16-byte aligned caller
 buffers

---
 Variants/SaberX4_avx2/pack_unpack.c | 32 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..eeef7ce 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From 2b39442d4c16178f7ce64971ec1f866e75b87fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:28 +0000
Subject: [PATCH 3/8] fix: Cortex-M0 randombytes must use both bytes of each
 random word

---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
index 3ad8581..268448e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
@@ -37,7 +37,7 @@ void randombytes(unsigned char *x,unsigned long long xlen)
 {
     union
     {
-        uint16_t aschar[2];
+        uint8_t aschar[2];
         uint32_t asint;
     } random;
 
-- 
2.43.0


From 9e52038a3fffba6b69931eca0d6e1b382a23e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:28 +0000
Subject: [PATCH 4/8] fix: Cortex-M0 decryption wrote 256 unpacked words into
 the 32-byte message

---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..97d0453 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -332,6 +332,8 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	uint16_t v[SABER_N];
 
+	uint16_t message_dec_unpacked[SABER_KEYBYTES*8];
+
 	BS2POLVECq(sk, sksv); //sksv is the secret-key
 
 	// vector-vector scalar multiplication with mod p
@@ -346,11 +348,11 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec_unpacked);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(message_dec_unpacked, message_dec);
 }
 
 
-- 
2.43.0


From 6607ee3f997202caa1b55b3c32c265b8a05cb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:40 +0000
Subject: [PATCH 5/8] fix: Cortex-M0 SABER_pack_3bit stored the wrong bit of
 every sixth coefficient

The lowest bit of data[5] belongs in bit 7 of the second byte; bit 2 was stored
there instead, so unpacking did not return what had been packed.
---
 .../Cortex-M0/saber-ref-mem/src/pack_unpack.c                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
index ff27aa4..c7e5e08 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
@@ -10,7 +10,7 @@ void SABER_pack_3bit(uint8_t *bytes, uint16_t *data){
 		offset_byte=3*j;
 		offset_data=8*j;
 		bytes[offset_byte + 0]= (data[offset_data + 0] & 0x7) | ( (data[offset_data + 1] & 0x7)<<3 ) | ((data[offset_data + 2] & 0x3)<<6);
-		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | (((data[offset_data + 5] >> 2 ) & 0x01)<<7);
+		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | (((data[offset_data + 5]) & 0x01)<<7);
 		bytes[offset_byte + 2]= ((data[offset_data + 5] >> 1 ) & 0x03) | ( (data[offset_data + 6] & 0x7)<<2 ) | ( (data[offset_data + 7] & 0x7)<<5 );
 	}
 }
-- 
2.43.0


From 8ce71e9bd342769130f5cb407d75c69b75438db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 6/8] fix: Cortex-M0 fips202 mixed plain lanes into the
 bit-interleaved Keccak state

asm_KeccakF-1600.S keeps the state bit-interleaved; absorbing and squeezing
plain 64-bit lanes made every SHAKE and SHA-3 output wrong. Go through the
StateXORBytes and StateExtractBytes functions of the same file.
---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 59 ++++---------------
 1 file changed, 12 insertions(+), 47 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index c502789..475d914 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -12,42 +12,11 @@
 #define NROUNDS 24
 #define ROL(a, offset) ((a << offset) ^ (a >> (64-offset)))
 
-/*************************************************
-* Name:        load64
-*
-* Description: Load 8 bytes into uint64_t in little-endian order
-*
-* Arguments:   - const unsigned char *x: pointer to input byte array
-*
-* Returns the loaded 64-bit unsigned integer
-**************************************************/
-static uint64_t load64(const unsigned char *x)
-{
-  unsigned long long r = 0, i;
-
-  for (i = 0; i < 8; ++i) {
-    r |= (unsigned long long)x[i] << 8 * i;
-  }
-  return r;
-}
-
-/*************************************************
-* Name:        store64
-*
-* Description: Store a 64-bit integer to a byte array in little-endian order
-*
-* Arguments:   - uint8_t *x: pointer to the output byte array
-*              - uint64_t u: input 64-bit unsigned integer
-**************************************************/
-static void store64(uint8_t *x, uint64_t u)
-{
-  unsigned int i;
-
-  for(i=0; i<8; ++i) {
-    x[i] = u;
-    u >>= 8;
-  }
-}
+/* Implemented in asm_KeccakF-1600.S, which keeps the state bit-interleaved:
+ * bytes have to be added and extracted through these functions. */
+void KeccakF1600_StatePermute(void *state);
+void KeccakF1600_StateXORBytes(void *state, const unsigned char *data, unsigned int offset, unsigned int length);
+void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned int offset, unsigned int length);
 
 #include <string.h>
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
@@ -79,8 +48,7 @@ void keccak_absorb(uint64_t *s,
 
   while (mlen >= r)
   {
-    for (i = 0; i < r / 8; ++i)
-      s[i] ^= load64(m + 8 * i);
+    KeccakF1600_StateXORBytes(s, m, 0, r);
 
     KeccakF1600_StatePermute(s);
     mlen -= r;
@@ -93,8 +61,7 @@ void keccak_absorb(uint64_t *s,
     t[i] = m[i];
   t[i] = p;
   t[r - 1] |= 128;
-  for (i = 0; i < r / 8; ++i)
-    s[i] ^= load64(t + 8 * i);
+  KeccakF1600_StateXORBytes(s, t, 0, r);
 }
 
 
@@ -114,14 +81,10 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
                                  uint64_t *s,
                                  unsigned int r)
 {
-  unsigned int i;
   while(nblocks > 0)
   {
     KeccakF1600_StatePermute(s);
-    for(i=0;i<(r>>3);i++)
-    {
-      store64(h+8*i, s[i]);
-    }
+    KeccakF1600_StateExtractBytes(s, h, 0, r);
     h += r;
     nblocks--;
   }
@@ -131,7 +94,7 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
 
 void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -147,6 +110,7 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
@@ -338,7 +302,7 @@ void sha3_512(unsigned char *output, const unsigned char *input,  unsigned long
 
 void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -354,6 +318,7 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-- 
2.43.0


From 9206ff90a5301a02b51062ba97170209481f563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 7/8] fix: Cortex-M0 cSHAKE discarded its customization string

keccak_absorb clears the state, so the permuted customization block was lost
and every customization gave the same output.
---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index 475d914..724df3e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -22,6 +22,32 @@ void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned in
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
 
 
+/* Absorbs m, the domain-separation byte and the padding into an initialized state */
+static void keccak_absorb_continue(uint64_t *s, unsigned int r,
+                                   const unsigned char *m, unsigned long long int mlen,
+                                   unsigned char p)
+{
+  unsigned long long i;
+  unsigned char t[200];
+
+  while (mlen >= r)
+  {
+    KeccakF1600_StateXORBytes(s, m, 0, r);
+
+    KeccakF1600_StatePermute(s);
+    mlen -= r;
+    m += r;
+  }
+
+  for (i = 0; i < r; ++i)
+    t[i] = 0;
+  for (i = 0; i < mlen; ++i)
+    t[i] = m[i];
+  t[i] = p;
+  t[r - 1] |= 128;
+  KeccakF1600_StateXORBytes(s, t, 0, r);
+}
+
 /*************************************************
 * Name:        keccak_absorb
 *
@@ -39,29 +65,13 @@ void keccak_absorb(uint64_t *s,
                           const unsigned char *m, unsigned long long int mlen,
                           unsigned char p)
 {
-  unsigned long long i;
-  unsigned char t[200];
+  unsigned int i;
 
   // Zero state
   for (i = 0; i < 25; ++i)
     s[i] = 0;
 
-  while (mlen >= r)
-  {
-    KeccakF1600_StateXORBytes(s, m, 0, r);
-
-    KeccakF1600_StatePermute(s);
-    mlen -= r;
-    m += r;
-  }
-
-  for (i = 0; i < r; ++i)
-    t[i] = 0;
-  for (i = 0; i < mlen; ++i)
-    t[i] = m[i];
-  t[i] = p;
-  t[r - 1] |= 128;
-  KeccakF1600_StateXORBytes(s, t, 0, r);
+  keccak_absorb_continue(s, r, m, mlen, p);
 }
 
 
@@ -114,7 +124,7 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE128_RATE, in, inlen, 0x04);
+  keccak_absorb_continue(s, SHAKE128_RATE, in, inlen, 0x04);
 }
 
 
@@ -322,7 +332,7 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE256_RATE, in, inlen, 0x04);
+  keccak_absorb_continue(s, SHAKE256_RATE, in, inlen, 0x04);
 }
 
 
-- 
2.43.0


From b2a510b2e1965174b5d8352394e1748c45eb4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 8/8] fix: AES-CTR (uSaber-90s avx2) loses the carry into the
 high counter half when a batch ends exactly at 2^64

---
 Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
index b363ecc..04ed3a8 100644
--- a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
+++ b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
@@ -183,7 +183,7 @@ static inline void incle(unsigned char n[16]) {
     long long nl = *(long long*)&n[8];                                  \
     MAKEN(NVxV_DEC);                                                    \
     /* check for nonce wraparound */                                    \
-    if ((nl < 0) && (nl + (N-1)) >= 0) {                                \
+    if ((nl < 0) && (nl + N) >= 0)     {                                \
       int wrapnumber = (int)(N - (nl+N));                               \
       MAKEN(NVxV_WRAP);                                                 \
       _mm_storeu_si128((__m128i*)n, _mm_add_epi64(nv0i, _mm_set_epi64x(N,1))); \
-- 
2.43.0

