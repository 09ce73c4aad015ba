From 28446c71232816610ee5f4f814a773604175cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 01/12] fix: require OS-enabled register state before reporting
 AVX, FMA, AVX2 and AVX-512 support

---
 src/simd_platform.c | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index eef735e..eec486c 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -61,6 +61,10 @@ void _DetectCPUFeatures()
   cpuid(info, 0);
   int32_t idCount = info[0];
 
+  // Extended register state may only be used if the operating system saves and restores it.
+  bool osSupportsAVX = false;
+  bool osSupportsAVX512 = false;
+
   if (idCount >= 0x1)
   {
     int32_t cpuInfo[4];
@@ -72,16 +76,19 @@ void _DetectCPUFeatures()
     if (osUsesXSAVE_XRSTORE && cpuAVXSuport)
     {
       uint64_t xcrFeatureMask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
-      avxSupported = (xcrFeatureMask & 0x6) != 0;
+      osSupportsAVX = (xcrFeatureMask & 0x6) == 0x6;
+      osSupportsAVX512 = (xcrFeatureMask & 0xE6) == 0xE6;
     }
 
+    avxSupported = osSupportsAVX;
+
     sseSupported = (cpuInfo[3] & (1 << 25)) != 0;
     sse2Supported = (cpuInfo[3] & (1 << 26)) != 0;
     sse3Supported = (cpuInfo[2] & (1 << 0)) != 0;
     ssse3Supported = (cpuInfo[2] & (1 << 9)) != 0;
     sse41Supported = (cpuInfo[2] & (1 << 19)) != 0;
     sse42Supported = (cpuInfo[2] & (1 << 20)) != 0;
-    fma3Supported = (cpuInfo[2] & (1 << 12)) != 0;
+    fma3Supported = osSupportsAVX && (cpuInfo[2] & (1 << 12)) != 0;
     aesNiSupported = (cpuInfo[2] & (1 << 25)) != 0;
   }
 
@@ -90,22 +97,22 @@ void _DetectCPUFeatures()
     int32_t cpuInfo[4];
     cpuid(cpuInfo, 7);
 
-    avx2Supported = (cpuInfo[1] & (1 << 5)) != 0;
-    avx512FSupported = (cpuInfo[1] & 1 << 16) != 0;
-    avx512PFSupported = (cpuInfo[1] & 1 << 26) != 0;
-    avx512ERSupported = (cpuInfo[1] & 1 << 27) != 0;
-    avx512CDSupported = (cpuInfo[1] & 1 << 28) != 0;
-    avx512BWSupported = (cpuInfo[1] & 1 << 30) != 0;
-    avx512DQSupported = (cpuInfo[1] & 1 << 17) != 0;
-    avx512VLSupported = (cpuInfo[1] & 1 << 31) != 0;
-    avx512IFMASupported = (cpuInfo[1] & 1 << 21) != 0;
-    avx512VBMISupported = (cpuInfo[2] & 1 << 1) != 0;
-    avx512VNNISupported = (cpuInfo[2] & 1 << 11) != 0;
-    avx512VBMI2Supported = (cpuInfo[2] & 1 << 6) != 0;
-    avx512POPCNTDQSupported = (cpuInfo[2] & 1 << 14) != 0;
-    avx512BITALGSupported = (cpuInfo[2] & 1 << 12) != 0;
-    avx5124VNNIWSupported = (cpuInfo[3] & 1 << 2) != 0;
-    avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
+    avx2Supported = osSupportsAVX && (cpuInfo[1] & (1 << 5)) != 0;
+    avx512FSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 16) != 0;
+    avx512PFSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 26) != 0;
+    avx512ERSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 27) != 0;
+    avx512CDSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 28) != 0;
+    avx512BWSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 30) != 0;
+    avx512DQSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 17) != 0;
+    avx512VLSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 31) != 0;
+    avx512IFMASupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 21) != 0;
+    avx512VBMISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 1) != 0;
+    avx512VNNISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 11) != 0;
+    avx512VBMI2Supported = osSupportsAVX512 && (cpuInfo[2] & 1 << 6) != 0;
+    avx512POPCNTDQSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 14) != 0;
+    avx512BITALGSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 12) != 0;
+    avx5124VNNIWSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 2) != 0;
+    avx5124FMAPSSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 3) != 0;
   }
 
   _CpuFeaturesDetected = true;
-- 
2.43.0


From 443e5efc97f2307df56e1fe2ab7474b384239b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:33 +0000
Subject: [PATCH 02/12] fix: multi-byte-symbol encoders no longer read past the
 end of the input

---
 src/rle128_extreme_cpu.h               |  7 +++--
 src/rle24_extreme_cpu_encode.h         | 13 ++++-----
 src/rle48_extreme_cpu_encode.h         | 13 ++++-----
 src/rleX_Xsl_multibyte_encoder.h       | 27 ++++++-------------
 src/rleX_Xsl_short.h                   | 37 +++++++++-----------------
 src/rleX_Xsl_short_multibyte_encoder.h | 23 +++++-----------
 src/rleX_extreme_cpu_encode.h          |  7 +++--
 7 files changed, 47 insertions(+), 80 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 006952d..1a25c73 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -47,7 +47,7 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 	const size_t symbolSize = sizeof(symbol_t);
 
 	int64_t count = 0;
-	symbol_t symbol = _mm_xor_si128(_mm_setzero_si128(), _mm_loadu_si128((const symbol_t *)pIn));
+	symbol_t symbol = inSize >= sizeof(symbol_t) ? _mm_loadu_si128((const symbol_t *)pIn) : _mm_setzero_si128();
 
 #ifdef PACKED
 	symbol_t lastSymbol = _mm_setzero_si128();
@@ -265,10 +265,9 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 				}
 			}
 
-			symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
-
-			if (i + symbolSize <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
+			if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
 			{
+				symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
 				count = symbolSize * 2;
 				i += symbolSize * 2;
 			}
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 5fac1a6..418d06e 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -34,7 +34,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 3;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = (~(symbol_t)pIn[0]) & symbolMask;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -131,7 +131,8 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize);
 
         if (next == symbol)
         {
@@ -142,7 +143,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -352,10 +353,10 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
-
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
+        symbol = 0;
+        memcpy(&symbol, &pIn[i], symbolSize);
         count = symbolSize * 2;
         i += symbolSize * 2;
       }
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 82321b6..291fc62 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -34,7 +34,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 6;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = (~(symbol_t)pIn[0]) & symbolMask;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -129,7 +129,8 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize);
 
         if (next == symbol)
         {
@@ -140,7 +141,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -351,10 +352,10 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
-
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
+        symbol = 0;
+        memcpy(&symbol, &pIn[i], symbolSize);
         count = symbolSize * 2;
         i += symbolSize * 2;
       }
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 2792827..3d56f95 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -38,7 +38,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
   state.lastSymbols[6] = 0xFE * VALUE_BROADCAST;
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = (symbol_t)~(symbol_t)pIn[0];
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -177,11 +177,8 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -202,7 +199,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -214,7 +211,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -315,18 +312,10 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
+        state.symbol = 0;
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
       }
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1553dc0..c22ecbe 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -772,7 +772,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = (symbol_t)~(symbol_t)pIn[0];
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -786,11 +786,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -811,7 +808,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -823,7 +820,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -858,19 +855,15 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       CONCAT3(_rle, TYPE_SIZE, CONCAT3(_, CODEC, process_symbol))(pIn, pOut, i, &state);
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
       const bool symbolWouldFit = i + (TYPE_SIZE / 8) <= inSize;
 
-#ifndef SYMBOL_MASK
-      if (symbolWouldFit && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (symbolWouldFit && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (symbolWouldFit)
+      {
+        state.symbol = 0;
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
+      }
+
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
@@ -879,11 +872,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
       {
         if (symbolWouldFit)
         {
-#ifndef SYMBOL_MASK
-          const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-          const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+          const symbol_t next = state.symbol;
 
           size_t possibleCount = 0;
 
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e971f8f..a5193c6 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -44,7 +44,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = (symbol_t)~(symbol_t)pIn[0];
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -183,11 +183,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -321,18 +318,10 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
+        state.symbol = 0;
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
       }
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index bab39a5..7e402b3 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -29,7 +29,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
   typedef CONCAT3(uint, TYPE_SIZE, _t) symbol_t;
 
   int64_t count = 0;
-  symbol_t symbol = ~(*((symbol_t *)(pIn)));
+  symbol_t symbol = ~(symbol_t)pIn[0];
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, TYPE_SIZE)(symbol);
@@ -366,10 +366,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
       }
 #endif
 
-      symbol = *(symbol_t *)(&pIn[i]);
-
-      if (i + sizeof(symbol_t) <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
+      if (i + sizeof(symbol_t) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == *(symbol_t *)(&pIn[i]))
       {
+        symbol = *(symbol_t *)(&pIn[i]);
         count = sizeof(symbol_t) * 2;
         i += sizeof(symbol_t) * 2;
       }
-- 
2.43.0


From 97e844b62ddf5822d0145116b428eb63ef079084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 03/12] fix: reject inputs larger than the supported maximum
 instead of accepting any output size

---
 src/rle128_extreme_cpu.h         |  3 +++
 src/rle24_extreme_cpu.h          |  3 +++
 src/rle48_extreme_cpu.h          |  3 +++
 src/rle8_extreme_cpu.h           |  6 ++++++
 src/rle8_low_entropy_cpu.c       | 15 +++++++++++++++
 src/rle8_low_entropy_short_cpu.c |  9 +++++++++
 src/rle8_mmtf.c                  |  3 +++
 src/rleX_Xsl.h                   |  6 ++++++
 src/rleX_Xsl_short.h             |  9 +++++++++
 src/rleX_extreme_cpu.h           |  3 +++
 src/rle_sh.c                     |  3 +++
 11 files changed, 63 insertions(+)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 1a25c73..f7a4444 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -31,6 +31,9 @@
 
 uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+	if (rle_compress_bounds(inSize) == 0) // input too large.
+		return 0;
+
 	if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
 		return 0;
 
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index a453a1b..9f26edb 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -54,6 +54,9 @@
 
 uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 17d79a2..0bbab3b 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -54,6 +54,9 @@
 
 uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 097b5f2..4892401 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -85,6 +85,9 @@ static void CONCAT3(rle8, CODEC, decompress_single_avx512f)(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
@@ -345,6 +348,9 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
 
 uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index d5ee063..4714003 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,11 +5,17 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
+  if (inSize > (1 << 30))
+    return 0;
+
   return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle8_low_entropy_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
@@ -51,6 +57,9 @@ uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize,
 
 uint32_t rle8_low_entropy_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle8_low_entropy_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
@@ -125,11 +134,17 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
+  if (inSize > (1 << 30) || subSections > (1 << 28))
+    return 0;
+
   return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle8m_compress_bounds(subSections, inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
     return 0;
 
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index d02033c..04e3967 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,11 +15,17 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
+  if (inSize > (1 << 30))
+    return 0;
+
   return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle8_low_entropy_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
@@ -61,6 +67,9 @@ uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t i
 
 uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle8_low_entropy_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index c5cb7ca..6e6ade2 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -152,6 +152,9 @@ inline static uint8_t *bitpack_encode3_simple_sse2_unaligned_m128i(const __m128i
 
 uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle8_mmtf128_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 217936e..da89149 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -268,6 +268,9 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
 #if TYPE_SIZE == 8
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
@@ -507,6 +510,9 @@ static int64_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress_avx2)(IN cons
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index c22ecbe..53c375b 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -380,6 +380,9 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_avx2(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8_, CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
@@ -684,6 +687,9 @@ static int64_t CONCAT3(rle8_, CODEC, compress_avx2)(IN const uint8_t *pIn, const
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
@@ -745,6 +751,9 @@ size_t CONCAT3(rleX_Xsl_short_get_match_length, CODEC, TYPE_SIZE)(const uintXX_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 49b5125..fff9c7c 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -46,6 +46,9 @@
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
     return 0;
 
diff --git a/src/rle_sh.c b/src/rle_sh.c
index f113437..9d0059f 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -268,6 +268,9 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
+  if (rle8_mmtf128_compress_bounds(inSize) == 0) // input too large.
+    return 0;
+
   if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
     return 0;
 
-- 
2.43.0


From b7405b579e7bb6c850b4715635d16670b7e20edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 04/12] fix: symbol-lookup encoders no longer emit packets
 larger than the run they replace

---
 src/rleX_Xsl.h       | 5 +++--
 src/rleX_Xsl_short.h | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index da89149..c5e213d 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -127,9 +127,10 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
   const int64_t storedCount = (pState->count / (TYPE_SIZE / 8)) - (RLE8_XSYMLUT_MIN_RANGE_SHORT / (TYPE_SIZE / 8)) + RLE8_XSYMLUT_COUNT_VALUE_OFFSET;
 #endif
 
-  const int64_t penalty = (range <= 0xFFFFF ? (range <= RLE8_XSYMLUT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFFF ? (storedCount <= (RLE8_XSYMLUT_MAX_TINY_COUNT) ? 0 : 2) : 4) + (int64_t)(symbolMatchIndex == SYMBOL_COUNT) /* * (TYPE_SIZE / 8) */;
+  const int64_t penalty = (range <= 0xFFFF ? (range <= RLE8_XSYMLUT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFF ? (storedCount <= (RLE8_XSYMLUT_MAX_TINY_COUNT) ? 0 : 2) : 4) + (int64_t)(symbolMatchIndex == SYMBOL_COUNT) /* * (TYPE_SIZE / 8) */;
+  const int64_t maxPenalty = pState->count - (int64_t)(symbolMatchIndex == SYMBOL_COUNT) * (TYPE_SIZE / 8 - 1) - (int64_t)sizeof(uint16_t); // the packet must not be larger than the run it replaces.
 
-  if (pState->count >= RLE8_XSYMLUT_MIN_RANGE_LONG || (pState->count >= RLE8_XSYMLUT_MIN_RANGE_SHORT + penalty))
+  if (pState->count >= RLE8_XSYMLUT_MIN_RANGE_LONG || (pState->count >= RLE8_XSYMLUT_MIN_RANGE_SHORT + penalty && penalty <= maxPenalty))
   {
     switch (symbolMatchIndex)
     {
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 53c375b..2e5ec78 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -194,7 +194,7 @@ bool CONCAT3(_rle, TYPE_SIZE, CONCAT3(_, CODEC, process_symbol))(IN const uint8_
     penalty += 2;
 
     if (!is19BitRangeCount)
-      penalty += (range <= 0xFFFFF ? (range <= RLE8_XSYMLUT_SHORT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFFF ? (storedCount <= (RLE8_XSYMLUT_SHORT_MAX_TINY_COUNT) ? 0 : 2) : 4);
+      penalty += (range <= 0xFFFF ? (range <= RLE8_XSYMLUT_SHORT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFF ? (storedCount <= (RLE8_XSYMLUT_SHORT_MAX_TINY_COUNT) ? 0 : 2) : 4);
   }
 
   if (pState->count >= RLE8_XSYMLUT_SHORT_MIN_RANGE_LONG || (pState->count >= RLE8_XSYMLUT_SHORT_MIN_RANGE_SHORT + penalty))
-- 
2.43.0


From 68ce78e268b29adf4208863eb4350a740b7f8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 05/12] fix: rle8 multi encoder no longer expands short runs
 that follow long copies

---
 src/rle8_extreme_cpu.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 4892401..0a788c0 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -120,7 +120,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
     else
     {
 #ifndef PACKED
-      if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+      if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
       if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG)
 #endif
@@ -207,7 +207,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
     const int64_t range = i - lastRLE - count + 1;
 
 #ifndef PACKED
-    if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+    if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
     if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG)
 #endif
@@ -809,7 +809,7 @@ static int64_t CONCAT3(rle8, CODEC, compress_multi_sse2)(IN const uint8_t *pIn,
         i += _zero;
 
 #ifndef PACKED
-        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
         const int64_t range = i - lastRLE - count + 1;
 
@@ -977,7 +977,7 @@ static int64_t CONCAT3(rle8, CODEC, compress_multi_avx2)(IN const uint8_t *pIn,
         i += _zero;
 
 #ifndef PACKED
-        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
         const int64_t range = i - lastRLE - count + 1;
 
-- 
2.43.0


From c38171162417ea5e7e10b851b1aa5ef821d90d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:22 +0000
Subject: [PATCH 06/12] fix: packed single-symbol rle8 encoder no longer
 expands short runs that follow long copies

---
 src/rle8_extreme_cpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 0a788c0..d825029 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -1247,7 +1247,7 @@ static int64_t CONCAT3(rle8, CODEC, compress_single_sse2)(IN const uint8_t *pIn,
             lastRLE = i;
             wastedChances = 0;
           }
-#ifndef SINGLE_PREFER_7_BIT_OR_4_BYTE_RLE
+#if !defined(SINGLE_PREFER_7_BIT_OR_4_BYTE_RLE) && !defined(PACKED) // runs this short only pay for the extra packet in the non-packed format.
           else
           {
             wastedChances++;
-- 
2.43.0


From ad99ff3af28347c124c07a32e6b541c90baa96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:31 +0000
Subject: [PATCH 07/12] fix: low-entropy rle8 compress bounds cover the two
 bytes a single-byte run can take

---
 src/rle8_low_entropy_cpu.c       | 6 +++---
 src/rle8_low_entropy_short_cpu.c | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 4714003..1c1bedb 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -8,7 +8,7 @@ uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  return inSize * 2 + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -137,7 +137,7 @@ uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize
   if (inSize > (1 << 30) || subSections > (1 << 28))
     return 0;
 
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
+  return inSize * 2 + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -488,7 +488,7 @@ uint32_t rle8_low_entropy_write_compress_info(IN rle8_low_entropy_compress_info_
 
 uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
+  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize / 2 < inSize)
     return 0;
 
   size_t index = 0;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 04e3967..0f783ec 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -18,7 +18,7 @@ uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  return inSize * 2 + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -136,7 +136,7 @@ uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t
 
 uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
+  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize / 2 < inSize)
     return 0;
 
   size_t index = 0;
-- 
2.43.0


From 6f85824e92ecfbab3a6c29149a7c1131e9a38812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:23 +0000
Subject: [PATCH 08/12] fix: rle8 mmtf128 compress bounds include the stream
 header and the first packet header

---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 6e6ade2..d934695 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -28,7 +28,7 @@ uint32_t rle8_mmtf128_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
+  return inSize + sizeof(uint32_t) * 2 + sizeof(uint32_t) + sizeof(uint8_t) + sizeof(uint8_t);
 }
 
 uint32_t rle8_mmtf256_compress_bounds(const uint32_t inSize)
-- 
2.43.0


From e8aafeadff6ebe471932b95d7c1bc30d99bf8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:23 +0000
Subject: [PATCH 09/12] fix: rle8 sh compressor checks its own bounds, which
 include the packet header bits

---
 src/rle_sh.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rle_sh.c b/src/rle_sh.c
index 9d0059f..52af685 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -92,7 +92,11 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
-  return size + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t);
+  if (size > (1 << 30))
+    return 0;
+
+  // Up to four header bits per stored symbol, growing towards the symbols from the end of the buffer.
+  return size + size / 2 + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t) + 16;
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -268,10 +272,10 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (rle8_mmtf128_compress_bounds(inSize) == 0) // input too large.
+  if (rle8_sh_bounds(inSize) == 0) // input too large.
     return 0;
 
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 8c9a6de655f2d4e7292eb30eb8cd59abe882c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:08 +0000
Subject: [PATCH 10/12] fix: decoders read the stream header only if the given
 stream contains it

---
 src/rle128_extreme_cpu.h         | 2 +-
 src/rle24_extreme_cpu.h          | 2 +-
 src/rle48_extreme_cpu.h          | 2 +-
 src/rle8_extreme_cpu.h           | 2 +-
 src/rle8_low_entropy_cpu.c       | 4 ++--
 src/rle8_low_entropy_short_cpu.c | 2 +-
 src/rle8_mmtf.c                  | 2 +-
 src/rleX_Xsl.h                   | 2 +-
 src/rleX_Xsl_short.h             | 2 +-
 src/rleX_extreme_cpu.h           | 2 +-
 src/rle_sh.c                     | 2 +-
 11 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index f7a4444..1d9e363 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -779,7 +779,7 @@ static void CONCAT3(rle128_, CODEC, _decompress_avx512f)(IN const uint8_t *pInSt
 
 uint32_t CONCAT3(rle128_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+	if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
 		return 0;
 
 	const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index 9f26edb..72584f4 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -86,7 +86,7 @@ uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle24_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 0bbab3b..1f38d69 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -86,7 +86,7 @@ uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle48_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index d825029..3471319 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -707,7 +707,7 @@ uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint
 
 uint32_t CONCAT3(rle8, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(rle_extreme_t) || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((rle_extreme_t *)pIn)->compressedLength;
diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 1c1bedb..9766e2f 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -109,7 +109,7 @@ uint32_t rle8_low_entropy_decompressed_size(IN const uint8_t *pIn, const uint32_
 
 uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
@@ -207,7 +207,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
 uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 3 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 0f783ec..8f8e478 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -111,7 +111,7 @@ uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pI
 
 uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index d934695..df3286e 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -651,7 +651,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
 
 uint32_t rle8_mmtf128_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedOutSize = ((uint32_t *)pIn)[0];
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index c5e213d..740273c 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -1854,7 +1854,7 @@ static void CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress_avx512f)(IN co
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 2e5ec78..0068d09 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -2612,7 +2612,7 @@ uint32_t CONCAT3(rle8_, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 #endif
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index fff9c7c..dc4ea86 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -84,7 +84,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle_sh.c b/src/rle_sh.c
index 52af685..9a3644b 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -515,7 +515,7 @@ uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
 uint32_t rle8_sh_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const uint32_t expectedOutSize = ((uint32_t *)pIn)[0];
-- 
2.43.0


From 45da82b704974c5893d22e2c21cab92ac391b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:22 +0000
Subject: [PATCH 11/12] fix: exit with a failure when the input file cannot be
 read or buffers cannot be allocated

---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 89de070..de1242d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -698,6 +698,8 @@ int main(int argc, char **pArgv)
 
   FILE *pFile = NULL;
 
+  int result = 1;
+
   if (!fuzzing)
   {
     pFile = fopen(pArgv[1], "rb");
@@ -1078,6 +1080,7 @@ int main(int argc, char **pArgv)
 
   //////////////////////////////////////////////////////////////////////////
 
+  result = 0;
   goto epilogue;
 
 epilogue:
@@ -1088,7 +1091,7 @@ epilogue:
   ALIGNED_FREE(pDecompressedData);
   ALIGNED_FREE(pCompressedData);
 
-  return 0;
+  return result;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c37405993dec0d17a3b766de7e6752015a65d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:32 +0000
Subject: [PATCH 12/12] fix: clear the decoded buffer before each codec is
 tested, so old data cannot hide a decoder that writes nothing

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index de1242d..d7366ca 100644
--- a/src/main.c
+++ b/src/main.c
@@ -946,7 +946,7 @@ int main(int argc, char **pArgv)
         for (size_t i = compressedSize; i < compressedBufferSize; i++)
           pCompressedData[i] = ~pCompressedData[i];
 
-        memset(pDecompressedData, 0, decompressedSize);
+        memset(pDecompressedData, 0, fileSize);
       }
 
       if (noDelays)
-- 
2.43.0

