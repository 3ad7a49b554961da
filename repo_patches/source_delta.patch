From 6826e1867107ccf0789d4954e3fb1caf9e6f2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 1/9] fix: compare authentication tags in constant time

---
 lib/high/Kravatte/KravatteModes.c | 16 +++++++++++++---
 lib/high/Xoofff/XoofffModes.c     | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 50cc5f7..e7ebc88 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -49,6 +49,16 @@ static void DUMP( const unsigned char * pText, const unsigned char * pData, unsi
 #define DUMP(pText, pData, size )
 #endif
 
+/* Constant-time comparison: returns 0 if and only if the two byte strings are equal */
+static int tagDiffers(const BitSequence *a, const BitSequence *b, size_t byteLen)
+{
+    unsigned char difference = 0;
+
+    while ( byteLen-- != 0 )
+        difference |= *(a++) ^ *(b++);
+    return difference;
+}
+
 static void memxoris(BitSequence *target, const BitSequence *source, BitLength bitLen)
 {
     size_t  byteLen = bitLen / 8;
@@ -218,7 +228,7 @@ int Kravatte_SANE_Unwrap(Kravatte_SANE_Instance *kp, const BitSequence *cipherte
         return 1;
     kp->e ^= 1;
      /* Wipe plaintext on tag difference */
-    if ( memcmp( tagPrime, tag, Kravatte_SANE_TagLength) != 0) {
+    if ( tagDiffers( tagPrime, tag, Kravatte_SANE_TagLength) != 0) {
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
     }
@@ -346,7 +356,7 @@ int Kravatte_SANSE_Unwrap(Kravatte_SANSE_Instance *kp, const BitSequence *cipher
     kp->e ^= 1;
 
     /* if T' != T then */
-    if ( memcmp( tagPrime, tag, sizeof(tagPrime)) != 0) {
+    if ( tagDiffers( tagPrime, tag, sizeof(tagPrime)) != 0) {
         /* wipe P, return error! */
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
@@ -544,7 +554,7 @@ int Kravatte_WBCAE_Decipher(Kravatte_Instance *kv, const BitSequence *ciphertext
             return 1;
         }
     }
-    if (memcmp(plaintext + (dataBitLen+7)/8, Kravatte_WBCAE_Zero, Kravatte_WBCAE_t/8) != 0) {
+    if (tagDiffers(plaintext + (dataBitLen+7)/8, Kravatte_WBCAE_Zero, Kravatte_WBCAE_t/8) != 0) {
         memset( plaintext, 0, (dataBitLen + Kravatte_WBCAE_t + 7) / 8 );
         return 1;
     }
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index bc6180b..c5f2b3b 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -51,6 +51,16 @@ static void DUMP( const unsigned char * pText, const unsigned char * pData, unsi
 
 /* ------------------------------------------------------------------------- */
 
+/* Constant-time comparison: returns 0 if and only if the two byte strings are equal */
+static int tagDiffers(const BitSequence *a, const BitSequence *b, size_t byteLen)
+{
+    unsigned char difference = 0;
+
+    while ( byteLen-- != 0 )
+        difference |= *(a++) ^ *(b++);
+    return difference;
+}
+
 static BitLength XoofffWBC_Split(BitLength n)
 {
     BitLength   nL;
@@ -238,7 +248,7 @@ int XoofffWBCAE_Decipher(Xoofff_Instance *xp, const BitSequence *ciphertext, Bit
             return 1;
         }
     }
-    if (memcmp(plaintext + (dataBitLen+7)/8, XoofffWBCAE_Zero, XoofffWBCAE_t/8) != 0) {
+    if (tagDiffers(plaintext + (dataBitLen+7)/8, XoofffWBCAE_Zero, XoofffWBCAE_t/8) != 0) {
         memset( plaintext, 0, (dataBitLen + XoofffWBCAE_t + 7) / 8 );
         return 1;
     }
@@ -344,7 +354,7 @@ int XoofffSANE_Unwrap(XoofffSANE_Instance *xp, const BitSequence *ciphertext, Bi
         return 1;
     xp->e ^= 1;
      /* Wipe plaintext on tag difference */
-    if ( memcmp( tagPrime, tag, XoofffSANE_TagLength) != 0) {
+    if ( tagDiffers( tagPrime, tag, XoofffSANE_TagLength) != 0) {
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
     }
@@ -473,7 +483,7 @@ int XoofffSANSE_Unwrap(XoofffSANSE_Instance *xp, const BitSequence *ciphertext,
     xp->e ^= 1;
 
     /* if T' != T then */
-    if ( memcmp( tagPrime, tag, sizeof(tagPrime)) != 0) {
+    if ( tagDiffers( tagPrime, tag, sizeof(tagPrime)) != 0) {
         /* wipe P, return error! */
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
-- 
2.43.0


From 6d3ef41021b5efc5afd80266d14ed2b4ba703fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 2/9] fix: make the 4-round-unrolled AVX-512 x8 implementation
 (K1600x8-AVX512-u4) compile

---
 .../AVX512/KeccakP-1600-times8-SIMD512.c           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 9784f5a..4233737 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1208,6 +1208,9 @@ size_t KeccakP1600times8_12rounds_FastLoop_Absorb(KeccakP1600times8_SIMD512_stat
 void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #ifndef KeccakP1600times8_fullUnrolling
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1219,14 +1222,14 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT128_rateInBytes); j += KT128_rateInBytes) {
         XORdata21(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT128_rateInBytes;
     }
 
     XORdata16(_, index, (const uint64_t *)input);
     XOReq(_me, CONST_64(0x0BULL));
     XOReq(_sa, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*4, 6*4, 5*4, 4*4, 3*4, 2*4, 1*4, 0*4);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
@@ -1238,6 +1241,9 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
 void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #ifndef KeccakP1600times8_fullUnrolling
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1249,14 +1255,14 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT256_rateInBytes); j += KT256_rateInBytes) {
         XORdata17(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT256_rateInBytes;
     }
 
     XORdata4(_, index, (const uint64_t *)input);
     XOReq(_bu, CONST_64(0x0BULL));
     XOReq(_me, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*8, 6*8, 5*8, 4*8, 3*8, 2*8, 1*8, 0*8);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
-- 
2.43.0


From 30fcc73e227157f4f4769c5d47cee9d91deaf9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 3/9] fix: do not mask a byte before the buffer when no duplex
 output is requested

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index cdacc0a..f31a46e 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -161,7 +161,7 @@ int DuplexingGetFurtherOutput(DuplexInstance *instance, unsigned char *output, u
 
     SnP_ExtractBytes(&instance->state, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen != 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
@@ -175,7 +175,7 @@ int DuplexingGetFurtherOutputAndAdd(DuplexInstance *instance, const unsigned cha
 
     SnP_ExtractAndAddBytes(&instance->state, input, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen != 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
-- 
2.43.0


From 65e250a883af4fc7f155bf44d1f7361058247186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 4/9] fix: count queued input when checking the last bits of a
 duplexing call against the rate

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index f31a46e..a1a546a 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -60,8 +60,8 @@ int Duplexing(DuplexInstance *instance, const unsigned char *sigmaBegin, unsigne
         return 1;
     if ((instance->byteInputIndex+sigmaBeginByteLen)*8 > rho_max)
         return 1;
-    if (rho_max - sigmaBeginByteLen*8 < 7) {
-        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - sigmaBeginByteLen*8;
+    if (rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8 < 7) {
+        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8;
         if (delimitedSigmaEnd >= (1 << (maxBitsInDelimitedSigmaEnd+1)))
             return 1;
     }
-- 
2.43.0


From 3f53c189d0e2d56da433cc7398127975a3b50ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 5/9] fix: ignore the unused bits of a last partial byte in
 Kravatte and Xoofff

---
 lib/high/Kravatte/Kravatte.c      | 2 +-
 lib/high/Kravatte/KravatteModes.c | 4 ++--
 lib/high/Xoofff/Xoofff.c          | 2 +-
 lib/high/Xoofff/XoofffModes.c     | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/high/Kravatte/Kravatte.c b/lib/high/Kravatte/Kravatte.c
index 6cd49d1..b3192f1 100644
--- a/lib/high/Kravatte/Kravatte.c
+++ b/lib/high/Kravatte/Kravatte.c
@@ -328,7 +328,7 @@ static const unsigned char * Kra_Compress( unsigned char *k, unsigned char *x, c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            KeccakP1600_AddByte(&state, *message++ | (1 << *messageBitLen), (unsigned int)messageByteLen);
+            KeccakP1600_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), (unsigned int)messageByteLen);
         else
             KeccakP1600_AddByte(&state, 1, (unsigned int)messageByteLen);
         KeccakP1600_Permute_Nrounds(&state, 6);
diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index e7ebc88..8da46c0 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -161,11 +161,11 @@ static int Kravatte_SANE_AddToHistory(Kravatte_SANE_Instance *kp, const BitSeque
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Kra(&kp->kravatte, lastByte, 8, KRAVATTE_FLAG_NONE) != 0) {
             return 1;
         }
diff --git a/lib/high/Xoofff/Xoofff.c b/lib/high/Xoofff/Xoofff.c
index 5069627..2205a62 100644
--- a/lib/high/Xoofff/Xoofff.c
+++ b/lib/high/Xoofff/Xoofff.c
@@ -430,7 +430,7 @@ static const unsigned char * Xoodoo_CompressBlocks( unsigned char *k, unsigned c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            Xoodoo_AddByte(&state, *message++ | (1 << *messageBitLen), messageByteLen);
+            Xoodoo_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), messageByteLen);
         else
             Xoodoo_AddByte(&state, 1, messageByteLen);
         Xoodoo_Permute_6rounds(&state);
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index c5f2b3b..1735dcc 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -288,11 +288,11 @@ static int XoofffSANE_AddToHistory(XoofffSANE_Instance *xp, const BitSequence *d
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Xoofff_Compress(&xp->xoofff, lastByte, 8, Xoofff_FlagNone) != 0) {
             return 1;
         }
-- 
2.43.0


From 7504faf530daff58b97a66fbad18708ccc22a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 6/9] fix: ignore the unused bits of the last partial byte of a
 KMAC key

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 0c6d4c8..70c1cbb 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -175,8 +175,13 @@ int KMAC_Initialize(KMAC_Instance *km, const BitSequence *key, BitLength keyBitL
     if (cSHAKE_Update(&km->csi, buffer, bufferLen*8) != 0)
         return 1;
     keyByteLen = (keyBitLen + 7) / 8;
-    if (cSHAKE_Update(&km->csi, key, keyByteLen*8) != 0)
+    if (cSHAKE_Update(&km->csi, key, keyBitLen & ~(BitLength)7) != 0)
         return 1;
+    if ((keyBitLen & 7) != 0) { /* allowed to be a bit string, as zero padding is following */
+        buffer[0] = key[keyBitLen / 8] & ((1 << (keyBitLen & 7)) - 1); /* strip unwanted bits */
+        if (cSHAKE_Update(&km->csi, buffer, 8) != 0)
+            return 1;
+    }
     bufferLen = (bufferLen + keyByteLen) % rateInBytes; /* zero padding */
     if (bufferLen != 0) {
         bufferLen = rateInBytes - bufferLen;
-- 
2.43.0


From e1cdfb80f8974019d0b193dc422a09a1294b370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 7/9] fix: check every tuple element before TupleHash absorbs
 any

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 70c1cbb..d93de2a 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -512,10 +512,12 @@ int TupleHash_Initialize(TupleHash_Instance *thi, BitLength outputBitLen,
 int TupleHash_Update(TupleHash_Instance *thi, const TupleElement *tuple, size_t numberOfElements)
 {
     unsigned char encbuf[sizeof(BitLength)+1];
+    size_t i;
 
-    while (numberOfElements-- != 0) {
-        if ((tuple->inputBitLen & 7) != 0) /* Only full bytes are supported */
+    for (i = 0; i < numberOfElements; ++i)
+        if ((tuple[i].inputBitLen & 7) != 0) /* Only full bytes are supported */
             return 1;
+    while (numberOfElements-- != 0) {
         if (cSHAKE_Update(&thi->csi, encbuf, left_encode(encbuf, tuple->inputBitLen)*8) != 0)
             return 1;
         if (cSHAKE_Update(&thi->csi, tuple->input, tuple->inputBitLen) != 0)
-- 
2.43.0


From b435772625f55a6125da130a7d202e48d7dcaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 8/9] fix: do not overflow the size of a group of blocks in
 ParallelHash

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index d93de2a..3d466b9 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -241,8 +241,12 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
 #define ParallelHash_Final        JOIN(ParallelHash,_Final)
 #define ParallelHash_Squeeze      JOIN(ParallelHash,_Squeeze)
 
+/* The input contains that many blocks, and the distance between them in lanes fits its type */
+#define ParallelSpongePossible( Parallellism ) \
+    (((inputByteLen / Parallellism) >= phi->blockLen) && ((phi->blockLen / laneSize) == (unsigned int)(phi->blockLen / laneSize)))
+
 #define ParallelSpongeFastLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( ParallelSpongePossible(Parallellism) ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -268,7 +272,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
     }
 
 #define ParallelSpongeLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( ParallelSpongePossible(Parallellism) ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -489,6 +493,7 @@ int ParallelHash( const BitSequence *input, BitLength inputBitLen, size_t blockB
 #undef  ParallelHash_Squeeze
 #undef  ParallelHash
 
+#undef  ParallelSpongePossible
 #undef  ParallelSpongeFastLoop
 #undef  ParallelSpongeLoop
 
-- 
2.43.0


From 8e198dd3dbcad4153e16d1e35dc1bf90914f6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 9/9] fix: count the input of ParallelHash in 64 bits

On targets with a 32-bit size_t the bit count of the input wrapped at
512 MB, so that the number of blocks encoded at the end was wrong.
---
 lib/high/Keccak/SP800-185/SP800-185.h   | 2 +-
 lib/high/Keccak/SP800-185/SP800-185.inc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.h b/lib/high/Keccak/SP800-185/SP800-185.h
index d5c153b..1b4cc53 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.h
+++ b/lib/high/Keccak/SP800-185/SP800-185.h
@@ -319,7 +319,7 @@ typedef struct {
     size_t fixedOutputLength;
     size_t blockLen;
     size_t queueAbsorbedLen;
-    size_t totalInputSize;
+    uint64_t totalInputSize;
     KCP_Phases phase;
 } ParallelHash_Instance;
 
diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 3d466b9..12d384c 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -442,7 +442,7 @@ int ParallelHash_Final(ParallelHash_Instance *phi, BitSequence * output)
             return 1;
     }
 
-    nBlocks = (phi->totalInputSize / 8 + phi->blockLen - 1) / phi->blockLen;
+    nBlocks = (size_t)((phi->totalInputSize / 8 + phi->blockLen - 1) / phi->blockLen);
     if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, encbuf, right_encode(encbuf, nBlocks)) != 0) /* Absorb number of blocks */
         return 1;
 
-- 
2.43.0

