From efcc35b3216ac849d029b10eb351540662e0c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 01/62] fix: reductions must not assume 32-byte aligned input

---
 src/atop/ops_binary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d59e778..55cc994 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -209,8 +209,8 @@ inline void ReduceMathOpFast(void* pDataIn1X, void* pDataOutX, void* pStartVal,
             pDataIn256 += NUM_LOOPS_UNROLLED;
 
             while (pDataIn256 < pEnd_256) {
-                m0 = MATH_OP256(m0, pDataIn256[0]);
-                m1 = MATH_OP256(m1, pDataIn256[1]);
+                m0 = MATH_OP256(m0, LOADU(pDataIn256));
+                m1 = MATH_OP256(m1, LOADU(pDataIn256 + 1));
                 pDataIn256 += NUM_LOOPS_UNROLLED;
             }
 
-- 
2.43.0


From 9fab6a52769f5dc7adb56cf15c965f8bbdf89cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 02/62] fix: unary vector loops must not assume 32-byte aligned
 input

---
 src/atop/ops_unary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7d249fc..2abab67 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -355,7 +355,7 @@ static inline void UnaryOpFast(void* pDataIn, void* pDataOut, int64_t len, int64
         do {
             // Use 256 bit registers which hold 8 floats or 4 doubles
             // The first operand should allow unaligned loads
-            STOREU(pOut_256, MATH_OP256(*pIn1_256));
+            STOREU(pOut_256, MATH_OP256(LOADU(pIn1_256)));
             pIn1_256 += 1;
             pOut_256 += 1;
 
-- 
2.43.0


From 96a1a9ad5a39f02efe07f31e8f398ee7adda5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 03/62] fix: float reduction added stack bytes past the end of
 its lane buffer

---
 src/atop/ops_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 55cc994..eed3863 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -267,7 +267,7 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
         // TJD: testing indicates unrolling size of 2 is 3% faster
         const int64_t NUM_LOOPS_UNROLLED = 2;
         const int64_t chunkSize = NUM_LOOPS_UNROLLED * (sizeof(U256) / sizeof(DOWNCAST));
-        int64_t perReg = sizeof(U256) / sizeof(DOWNCAST);
+        int64_t perReg = sizeof(U256d) / sizeof(UPCAST);
 
         // NOTE: numpy uses the output val to seed the first input
         UPCAST startval = *(DOWNCAST*)pStartVal;
-- 
2.43.0


From 762fcbbf1302130080bafb52b90ce4a661f74596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 04/62] fix: contiguous int8/bool compare ran the first
 elements twice, breaking in-place use

---
 src/atop/ops_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atop/ops_compare.cpp b/src/atop/ops_compare.cpp
index e857711..bb1f551 100644
--- a/src/atop/ops_compare.cpp
+++ b/src/atop/ops_compare.cpp
@@ -1238,6 +1238,7 @@ static void CompareInt8(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t l
                     for (int64_t i = 0; i < len; i++) {
                         pDataOutX[i] = COMPARE(pDataInX[i], pDataIn2X[i]);
                     }
+                    return;
                 }
             }
     }
-- 
2.43.0


From f6d38b4823f13a6e95a755f4c04adec0a5bd0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 05/62] fix: minimum/maximum must propagate a NaN in either
 operand

---
 src/atop/ops_binary.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index eed3863..1087e50 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -59,8 +59,8 @@ static const inline void STOREA(__m256i* x, __m256i y) { _mm256_store_si256((__m
 template<typename T> static const inline T AddOp(T x, T y) { return x + y; }
 template<typename T> static const inline T SubOp(T x, T y) { return x - y; }
 template<typename T> static const inline T MulOp(T x, T y) { return x * y; }
-template<typename T> static const inline T MinOp(T x, T y) { return x < y? x : y; }
-template<typename T> static const inline T MaxOp(T x, T y) { return x > y? x : y; }
+template<typename T> static const inline T MinOp(T x, T y) { return (x < y || x != x) ? x : y; }
+template<typename T> static const inline T MaxOp(T x, T y) { return (x > y || x != x) ? x : y; }
 template<typename T> static const inline double DivOp(T x, T y) { return (double)x / (double)y; }
 template<typename T> static const inline float DivOp(float x, T y) { return x / y; }
 template<typename T> static const inline long double DivOp(long double x, T y) { return x / y; }
@@ -143,8 +143,8 @@ static const inline __m256i MIN_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MIN_OP_256i16(__m256i x, __m256i y) { return _mm256_min_epi16(x, y); }
 static const inline __m256i MIN_OP_256i32(__m256i x, __m256i y) { return _mm256_min_epi32(x, y); }
 static const inline __m256i MIN_OP_256u32(__m256i x, __m256i y) { return _mm256_min_epu32(x, y); }
-static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_min_ps(x, y); }
-static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_min_pd(x, y); }
+static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_min_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_min_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 static const inline __m256i MAX_OP_256i8(__m256i x, __m256i y) { return _mm256_max_epi8(x, y); }
 static const inline __m256i MAX_OP_256u8(__m256i x, __m256i y) { return _mm256_max_epu8(x, y); }
@@ -152,8 +152,8 @@ static const inline __m256i MAX_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MAX_OP_256i16(__m256i x, __m256i y) { return _mm256_max_epi16(x, y); }
 static const inline __m256i MAX_OP_256i32(__m256i x, __m256i y) { return _mm256_max_epi32(x, y); }
 static const inline __m256i MAX_OP_256u32(__m256i x, __m256i y) { return _mm256_max_epu32(x, y); }
-static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_max_ps(x, y); }
-static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_max_pd(x, y); }
+static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_max_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_max_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 // mask off low 32bits
 static const __m256i masklo = _mm256_set1_epi64x(0xFFFFFFFFLL);
-- 
2.43.0


From c2ba06a699deb05d335e1ec3742ebbe3379fce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 06/62] fix: negative() of 0.0 must be -0.0 in the vector loop

---
 src/atop/ops_unary.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 2abab67..89d7b50 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -293,15 +293,15 @@ static const inline __m256i NEG_OP_256i16(__m256i x) { const __m256i m8 = _mm256
 static const inline __m256i NEG_OP_256i8(__m256i x) { const __m256i m8 = _mm256_setzero_si256(); return _mm256_sub_epi8(m8, x); }
 
 template<typename T> static const inline __m256  NEG_OP_256(__m256 x) {
-    const __m256 m8 = _mm256_setzero_ps();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    // flip the sign bit: 0 - x would turn 0.0 into 0.0 instead of -0.0
+    const __m256 m8 = _mm256_set1_ps(-0.0f);
+    return _mm256_xor_ps(m8, x);
 }
 
 template<typename T> static const inline __m256d  NEG_OP_256(__m256d x) {
-    const __m256d m8 = _mm256_setzero_pd();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    // flip the sign bit: 0 - x would turn 0.0 into 0.0 instead of -0.0
+    const __m256d m8 = _mm256_set1_pd(-0.0);
+    return _mm256_xor_pd(m8, x);
 }
 
 template<typename T> static const inline __m256  ROUND_OP_256(__m256 x) { return _mm_roundme_ps(x); }
-- 
2.43.0


From 0ad37cf38b93b16f99ed75a6110a23101b8867b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 07/62] fix: abs() of -0.0 must be 0.0 in the scalar loops too

---
 src/atop/ops_unary.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 89d7b50..c99d114 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -181,7 +181,10 @@ const union
 
 
 template<typename T> static const inline T ABS_OP(T x) { return x < 0 ? -x : x; }
-template<typename T> static const inline double FABS_OP(T x) { return x < 0 ? -x : x; }
+template<> const inline float ABS_OP<float>(float x) { return fabsf(x); }
+template<> const inline double ABS_OP<double>(double x) { return fabs(x); }
+template<> const inline long double ABS_OP<long double>(long double x) { return fabsl(x); }
+template<typename T> static const inline double FABS_OP(T x) { return fabs((double)x); }
 
 // Invalid int mode (consider if we should return invalid when we discover invalid)
 template<typename T> static const inline T SIGN_OP(T x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
-- 
2.43.0


From 6c1172e9592fc97b931dabe9694b9baf4e1bd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 08/62] fix: rint of a double must round halves to even

---
 src/atop/ops_unary.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index c99d114..b0a3bea 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -211,9 +211,9 @@ template<typename T> static const inline bool ISNORMAL_OP(T x) { return std::isn
 template<typename T> static const inline bool ISNOTNORMAL_OP(T x) { return !std::isnormal(x); }
 template<typename T> static const inline bool ISNANORZERO_OP(T x) { return x == 0.0 || std::isnan(x); }
 
-template<typename T> static const inline long double ROUND_OP(long double x) { return roundl(x); }
-template<typename T> static const inline double ROUND_OP(double x) { return round(x); }
-template<typename T> static const inline float ROUND_OP(float x) { return roundf(x); }
+template<typename T> static const inline long double ROUND_OP(long double x) { return rintl(x); }
+template<typename T> static const inline double ROUND_OP(double x) { return rint(x); }
+template<typename T> static const inline float ROUND_OP(float x) { return rintf(x); }
 
 template<typename T> static const inline long double FLOOR_OP(long double x) { return floorl(x); }
 template<typename T> static const inline double FLOOR_OP(double x) { return floor(x); }
-- 
2.43.0


From 9dcdf4e67f82af82efbc1f8557b10c9da19fbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 09/62] fix: float floor_divide must use the remainder, not the
 rounded quotient

---
 src/atop/ops_binary.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 1087e50..da8e14d 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -77,9 +77,23 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
     }
     else return 0;
 }
-template<typename T> static const inline long double FloorDivOp(long double x, long double y) { if (y == y) return floorl(x / y); else return NAN; }
-template<typename T> static const inline double FloorDivOp(double x, double y) { if (y == y) return floor(x / y); else return NAN; }
-template<typename T> static const inline float FloorDivOp(float x, float y) { if (y == y) return floorf(x / y); else return NAN; }
+// Floating point: derived from the remainder, since floor(x / y) is off by one when x / y rounds up to an integer
+template<typename T, T(*FMOD)(T, T), T(*FLOOR)(T), T(*COPYSIGN)(T, T)>
+static const inline T FloorDivFloat(T x, T y) {
+    if (y == 0) return x / y;
+
+    T mod = FMOD(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && ((y < 0) != (mod < 0))) div -= 1;
+    if (div == 0) return COPYSIGN(0, x / y);
+
+    T q = FLOOR(div);
+    if (div - q > (T)0.5) q += 1;
+    return q;
+}
+template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloorDivFloat<long double, fmodl, floorl, copysignl>(x, y); }
+template<typename T> static const inline double FloorDivOp(double x, double y) { return FloorDivFloat<double, fmod, floor, copysign>(x, y); }
+template<typename T> static const inline float FloorDivOp(float x, float y) { return FloorDivFloat<float, fmodf, floorf, copysignf>(x, y); }
 
 // bitwise operations
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
-- 
2.43.0


From 07e0e9e582064c782bd2d6f0ef13d5f08e927bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 10/62] fix: accumulate and overlapping operands must run in
 order on one thread

---
 src/pnumpy/_pnumpy.cpp | 65 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b73b4c1..0975d1e 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -354,6 +354,43 @@ stSettings g_Settings = { 1, 0, 0, 0, 0, 0, 0 };
 #define LEDGER_END(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
 #define LEDGER_END2(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
 
+//------------------------------------------------------------------------------
+// Returns true if an element of the output can also be read as a different element of
+// an input (accumulate, partially overlapping views) or is written more than once.
+// Such a loop must run one element at a time, in order, on the calling thread.
+static bool IsOrderDependent(char** args, const npy_intp* steps, int nin, npy_intp n, int64_t itemSizeIn, int64_t itemSizeOut) {
+    if (n < 2) return false;
+
+    char* pOut = args[nin];
+    int64_t strideOut = steps[nin];
+    if (strideOut == 0) return true;
+
+    char* outLow = strideOut > 0 ? pOut : pOut + (n - 1) * strideOut;
+    char* outHigh = (strideOut > 0 ? pOut + (n - 1) * strideOut : pOut) + itemSizeOut;
+
+    for (int i = 0; i < nin; i++) {
+        char* pIn = args[i];
+        int64_t stride = steps[i];
+
+        // exact in place operation
+        if (pIn == pOut && stride == strideOut) continue;
+
+        char* inLow = stride >= 0 ? pIn : pIn + (n - 1) * stride;
+        char* inHigh = (stride >= 0 ? pIn + (n - 1) * stride : pIn) + itemSizeIn;
+        if (inLow >= outHigh || outLow >= inHigh) continue;
+
+        // interleaved, such as two columns of the same array
+        if (stride == strideOut) {
+            int64_t period = stride > 0 ? stride : -stride;
+            int64_t offset = (pIn - pOut) % period;
+            if (offset < 0) offset += period;
+            if (offset >= itemSizeOut && offset + itemSizeIn <= period) continue;
+        }
+        return true;
+    }
+    return false;
+}
+
 //------------------------------------------------------------------------------
 //  Concurrent callback from multiple threads
 static int64_t ReduceThreadCallbackStrided(struct stMATH_WORKER_ITEM* pstWorkerItem, int core, int64_t workIndex) {
@@ -733,15 +770,11 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             // NOT a binary reduce
             ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
-            char* pInput1 = args[0];
-            char* pInput2 = args[1];
-            char* pOutput = args[2];
-
-            // This code needs review: this is only an issue if array is contiguous and output is within
-            // a cacheline of the input (that is, 32 or 64 bytes) because vector intrinsics process in chunks
-            // Check for address overlap where the output memory lies inside input1 or input2
-            if ((pOutput > pInput1&& pOutput < (pInput1 + 64)) || (pOutput > pInput2&& pOutput < (pInput2 + 64))) {
+            // Accumulate and overlapping memory: use the original loop on this thread
+            int64_t itemsize = convert_atop_to_itemsize[atype];
+            if (IsOrderDependent(args, steps, 2, n, itemsize, itemsize)) {
                 pBinaryFunc = NULL;
+                pWorkItem = NULL;
             }
 
             // Check if threading allowed
@@ -810,6 +843,12 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
         ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
+        // Reduce, accumulate and overlapping memory: use the original loop on this thread
+        if (IsOrderDependent(args, steps, 2, n, convert_atop_to_itemsize[atype], sizeof(npy_bool))) {
+            pBinaryFunc = NULL;
+            pWorkItem = NULL;
+        }
+
         // Check if threading allowed
         if (!pWorkItem) {
             // Threading not allowed
@@ -885,6 +924,11 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
             //        strideOut = convert_atop_to_itemsize[atype];
             //        if (n != 1) printf("!!!! error unary with no strides but len != 1  %lld\n", n);
         }
+        // Overlapping memory: use the original loop on this thread
+        if (IsOrderDependent(args, steps, 1, n, convert_atop_to_itemsize[atype], convert_atop_to_itemsize[atype])) {
+            pUnaryFunc = NULL;
+            pWorkItem = NULL;
+        }
         if (!pWorkItem) {
             // Threading not allowed
             if (g_Settings.AtopEnabled && pUnaryFunc) {
@@ -949,6 +993,11 @@ static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const
             //        strideOut = convert_atop_to_itemsize[atype];
             //        if (n != 1) printf("!!!! error unary with no strides but len != 1  %lld\n", n);
         }
+        // Overlapping memory: use the original loop on this thread
+        if (IsOrderDependent(args, steps, 1, n, convert_atop_to_itemsize[atype], convert_atop_to_itemsize[atype])) {
+            pUnaryFunc = NULL;
+            pWorkItem = NULL;
+        }
         if (!pWorkItem) {
             // Threading not allowed
             if (g_Settings.AtopEnabled && pUnaryFunc) {
-- 
2.43.0


From 3e946403ce53c75e08c2a43de3a533a613343f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 11/62] fix: threaded reduce only for reorderable functions,
 with their start value and chunk stride

---
 src/pnumpy/_pnumpy.cpp | 49 ++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 0975d1e..abfaeae 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -450,22 +450,8 @@ static int64_t ReduceThreadCallbackNumpy(struct stMATH_WORKER_ITEM* pstWorkerIte
         steps[2] = 0;
         steps[1] = Callback->itemSizeIn2;
 
-        // this is also hackish
-        // to set the start value, which is overloaded as first element in output value
-        switch (Callback->itemSizeOut) {
-        case 1:
-            *(int8_t*)args[0] = *(int8_t*)(Callback->pStartVal);
-            break;
-        case 2:
-            *(int16_t*)args[0] = *(int16_t*)(Callback->pStartVal);
-            break;
-        case 4:
-            *(int32_t*)args[0] = *(int32_t*)(Callback->pStartVal);
-            break;
-        case 8:
-            *(int64_t*)args[0] = *(int64_t*)(Callback->pStartVal);
-            break;
-        }
+        // set the start value, which is overloaded as first element in output value
+        memcpy(args[0], Callback->pStartVal, Callback->itemSizeOut);
 
         LOGGING("[%d] numpy reduce on %lld with len %lld   block: %lld  itemsize: %lld\n", core, workIndex, lenX, workBlock, Callback->itemSizeIn2);
         Callback->pOldFunc(args, dimensions, steps, Callback->innerloop);
@@ -623,7 +609,7 @@ static int64_t UnaryThreadCallbackStrided(struct stMATH_WORKER_ITEM* pstWorkerIt
 //============================================================================
 // special tables for start values for some reduce functions
 // should handle both int and float zeros
-char g_startval_zero[16] = { 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0 };
+char g_startval_zero[32] = { 0 };
 
 // should handle all little-endian int ones
 char g_startval_one[16] = { 1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0 };
@@ -642,6 +628,7 @@ char*
 GetReduceStartVal(int funcop, int atype) {
     switch (funcop) {
     case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::BITWISE_XOR:
         return g_startval_zero;
 
     case BINARY_OPERATION::MUL:
@@ -669,6 +656,27 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns true if a reduce can be split into chunks whose partial results are combined
+// with the same function.  ADD, MUL and XOR chunks begin with GetReduceStartVal, for the
+// others it does not matter how many chunks include the start value.
+static bool IsReduceReorderable(int funcop) {
+    switch (funcop) {
+    case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::MUL:
+    case BINARY_OPERATION::MIN:
+    case BINARY_OPERATION::MAX:
+    case BINARY_OPERATION::LOGICAL_AND:
+    case BINARY_OPERATION::LOGICAL_OR:
+    case BINARY_OPERATION::BITWISE_AND:
+    case BINARY_OPERATION::BITWISE_OR:
+    case BINARY_OPERATION::BITWISE_XOR:
+        return true;
+    }
+    return false;
+}
+
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -687,7 +695,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             LOGGING("pReduce %p   opcode:%d   dtype:%d   %lld %lld %lld %lld\n", pReduceFunc, funcop, atype, (long long)dimensions[0], (long long)steps[0], (long long)steps[1], (long long)steps[2]);
             char* ip2 = args[1];
             char* op1 = args[0];
-            if (!pWorkItem) {
+            if (!pWorkItem || !IsReduceReorderable(funcop)) {
                 // Not threaded
                 if (g_Settings.AtopEnabled && pReduceFunc) {
                     // Call fast vectorized function without any threading
@@ -760,7 +768,10 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                     // todo, check if only 1 dimension for reduce
                     dimensions[0] = chunks;
 
-                    pstUFunc->pOldFunc(newargs, dimensions, steps, innerloop);
+                    // the partial results are contiguous no matter what the input stride was
+                    npy_intp newsteps[3] = { 0, (npy_intp)itemsize, 0 };
+
+                    pstUFunc->pOldFunc(newargs, dimensions, newsteps, innerloop);
                 }
                 // Free if not on the stack
                 POSSIBLY_STACK_FREE(allocsize, pReduceOfReduce);
-- 
2.43.0


From f82bf9f8a6672f5d664774177cc1c97553fe2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 12/62] fix: hooked sort must order the buffer numpy hands it,
 not the array's own memory

---
 src/pnumpy/_pnumpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index abfaeae..443b968 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1093,7 +1093,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
                         if (PyArray_ITEMSIZE(pSrcObject) == itemsize && PyArray_STRIDE(pSrcObject, 0) == itemsize) {
                             SORT_MODE sortmode = (SORT_MODE)sortkind;
                             int result =
-                                Sort(sortmode, atype, PyArray_BYTES(pSrcObject), ArrayLength(pSrcObject), PyArray_STRIDE(pSrcObject, 1), PyArray_ITEMSIZE(pSrcObject), pDest, PyArray_ITEMSIZE(pSrcObject));
+                                Sort(sortmode, atype, pDest, length, itemsize, itemsize, pDest, itemsize);
 
                             LOGGING("result is %d  %d   len: %lld\n", result, atype, length);
                             if (result >= 0)
-- 
2.43.0


From f62c6df1bbca1515ec2c6b90078792c71b2c5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 13/62] fix: merge step of argsort must use the NaN-aware
 comparison

---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 4f7416c..dd2fdc5 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1162,7 +1162,7 @@ amergesort0_(UINDEX* pl, UINDEX* pr, const T* v, UINDEX* pw)
         // moving from workspace into left
 
         while (pw < pwEnd && pm < pr) {
-            if (v[*pm] < v[*pw]) {
+            if (COMPARE_LT(v[*pm], v[*pw])) {
                 *pl++ = *pm++;
             }
             else {
-- 
2.43.0


From 35d37beb4352df06bdb16424e4ba5b871ccfd4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 14/62] fix: parallel string merge compared the wrong left
 neighbour

---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index dd2fdc5..fa91e0b 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1288,7 +1288,7 @@ ParMergeMergeString(void* pValue1, void* pToSort1, int64_t totalLen, int64_t str
 
     PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*pm - 1) * strlen, pValue + (*pm + 1) * strlen);
 
-    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*pm - 1) * strlen), strlen)) {
+    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + *(pm - 1) * strlen), strlen)) {
 
         // copy the left to workspace
         MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));
-- 
2.43.0


From 1819156cdd8ea354aa635ed9a56585bcc8c2a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 15/62] fix: sort(axis=None) returned the flattened input
 unsorted

---
 src/pnumpy/sort.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index 7906b55..6f89d80 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -200,8 +200,7 @@ def sort(a, axis=-1, kind=None, order=None):
         axis = -1
         try:
             # attempt a parallel sort
-            sort(a, kind=kind)
-            return a
+            return sort(a, kind=kind, order=order)
         except Exception:
             pass
     else:
-- 
2.43.0


From 7ca438de094cce3049caf320d3bfb17f5f468549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 16/62] fix: sort wrapper referred to an undefined module name

---
 src/pnumpy/sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index 6f89d80..42b079f 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -21,7 +21,7 @@ def _wrapit(obj, method, *args, **kwds):
         wrap = None
     result = getattr(asarray(obj), method)(*args, **kwds)
     if wrap:
-        if not isinstance(result, mu.ndarray):
+        if not isinstance(result, np.ndarray):
             result = asarray(result)
         result = wrap(result)
     return result
-- 
2.43.0


From 5b45433118d24c13d09029c227d0e2ca9823f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 17/62] fix: recarray_to_colmajor raised NameError on every
 record array

---
 src/pnumpy/recarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index e18c49b..53e9829 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -36,7 +36,7 @@ def recarray_to_colmajor(item, parallel=True):
                 break;
 
         d={}
-        if successs and parallel:
+        if success and parallel:
             offsets=[]
             arrays=np.empty(len(item.dtype.fields), dtype='O')
             arrlen = len(item)
-- 
2.43.0


From f912bb42d28506b3d3b487490a0aa1a46648b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 18/62] fix: parallel sort must leave strings and strided input
 to the serial path

---
 src/atop/sort.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index fa91e0b..afada6d 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2130,7 +2130,9 @@ par_sort(
     // If size is large, go parallel
     LOGGING("Parallel version  %p  %p  %p\n", pSortFunction.sortfunc, pOut , pValues);
 
-    stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(arrayLength);
+    // the parallel path merges whole numbers and copies contiguous blocks only
+    stMATH_WORKER_ITEM* pWorkItem =
+        (pSortFunction.sortfunc && stridesIn == itemSize) ? THREADER->GetWorkItem(arrayLength) : NULL;
 
     if (pWorkItem) {
         MERGE_STEP_ONE_CALLBACK stParMergeCallback;
-- 
2.43.0


From 0d7da7bc866cabfcde1564da91e55669914d79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 19/62] fix: cpu_count_linux fallback called an undefined
 helper

---
 src/pnumpy/cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/cpu.py b/src/pnumpy/cpu.py
index 6eadfb7..22efe9c 100644
--- a/src/pnumpy/cpu.py
+++ b/src/pnumpy/cpu.py
@@ -76,7 +76,7 @@ def cpu_count_linux():
         # try to parse /proc/stat as a last resort
         if num == 0:
             search = re.compile(r'cpu\d')
-            with open_text('/proc/stat') as f:
+            with open('/proc/stat') as f:
                 for line in f:
                     line = line.split(' ')[0]
                     if search.match(line):
-- 
2.43.0


From c297fd1434edc655065a2f0e95cbfd036a44c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 20/62] fix: float16 sort ordered by bit pattern

---
 src/atop/sort.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index afada6d..fc6d17a 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -199,6 +199,14 @@ HALF_LT(atop_half a, atop_half b)
     return ret;
 }
 
+// float16 must order by value, with nans last, and not by its bits
+struct sort_half { atop_half bits; };
+FORCE_INLINE static bool COMPARE_LT(sort_half X, sort_half Y) { return HALF_LT(X.bits, Y.bits); }
+FORCE_INLINE static bool operator<(sort_half X, sort_half Y) { return HALF_LT(X.bits, Y.bits); }
+FORCE_INLINE static bool operator<=(sort_half X, sort_half Y) { return !HALF_LT(Y.bits, X.bits); }
+FORCE_INLINE static sort_half* FIND_NANS(sort_half* pr, sort_half* pm)
+    { do { if (!atop_half_isnan((pr - 1)->bits)) return pr; --pr; } while (pm < pr); return pr; };
+
 //======================================
 // For one byte strings
 FORCE_INLINE static bool
@@ -2405,7 +2413,7 @@ static SORT_FUNCTION GetSortFunction(void* pDataIn1, int64_t arraySize1, int32_t
     case ATOP_LONGDOUBLE:
         return SortInPlace<long double>(mode);
     case ATOP_HALF_FLOAT:
-        return SortInPlace<atop_half>(mode);
+        return SortInPlace<sort_half>(mode);
     default:
         LOGGING("SortArray does not understand type %d\n", atype);
         return NULL;
@@ -2477,7 +2485,7 @@ extern "C" int Sort(
     case ATOP_LONGDOUBLE:
         return par_sort<long double>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_HALF_FLOAT:
-        return par_sort<atop_half>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<sort_half>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_STRING:
         return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_UNICODE:
-- 
2.43.0


From a506cece8748c404d50e2f166b66388a8c6e80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 21/62] fix: worker pool lost the first index of custom work
 items; hung with one CPU

---
 src/atop/threads.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index 20214c0..a5139c3 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1115,7 +1115,9 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
-        pWorkItem->BlockNext = 0;
+        // GetNextWorkIndex hands out 1..len and uses 0 to say there is no more work,
+        // so custom mode must not hand out 0 (the thread receiving it would stop early)
+        pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
 
         int32_t threads = (threadWakeup + 1);
-- 
2.43.0


From f38ca70a7d6b60d41ec4dd6369870c173706ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 22/62] fix: workers ran the newest allocated work item instead
 of the published one

---
 src/atop/threads.cpp | 4 ++--
 src/atop/threads.h   | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index e3f670b..a006a98 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -110,12 +110,12 @@ WorkerThreadFunction(void* lpParam)
 
         // See if work to do
         if (workIndex > workIndexCompleted) {
-            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem();
+            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem(workIndex);
 
             // check if the work was for our thread
             if ((int64_t)core <= pWorkItem->ThreadWakeup) {
                 LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
-                didSomeWork = pWorkItem->DoWork(core, pWorkerRing->MainWorkIndex);
+                didSomeWork = pWorkItem->DoWork(core, workIndex);
             }
             else {
                 LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
diff --git a/src/atop/threads.h b/src/atop/threads.h
index a5139c3..ebf269e 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -477,9 +477,8 @@ struct stWorkerRing {
         return pWorkItem;
     }
 
-    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem() {
-        // Note: not safe when multiproc used
-        return  &WorkerQueue[MainWorkIndex  & RING_BUFFER_MASK];
+    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem(int64_t workIndex) {
+        return  &WorkerQueue[workIndex & RING_BUFFER_MASK];
     }
 
     FORCE_INLINE void WakeupWorkItem(int pool, int32_t maxThreadsToWake) {
-- 
2.43.0


From ad47177a7b980e73d4267d4198449bdf164553e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 23/62] fix: getitem read unsigned indexes as signed

An unsigned index with its top bit set passed the range check and read in
front of the array.
---
 src/pnumpy/getitem.cpp | 48 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b708352..429ff13 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -943,12 +943,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT8:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int8_t>;
-        case 2:  return GetItemUInt<int16_t, int8_t>;
-        case 4:  return GetItemUInt<int32_t, int8_t>;
-        case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<__m128, int8_t>;
-        default: return GetItemUIntVariable<int8_t>;
+        case 1:  return GetItemUInt<int8_t, uint8_t>;
+        case 2:  return GetItemUInt<int16_t, uint8_t>;
+        case 4:  return GetItemUInt<int32_t, uint8_t>;
+        case 8:  return GetItemUInt<int64_t, uint8_t>;
+        case 16:  return GetItemUInt<__m128, uint8_t>;
+        default: return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -964,12 +964,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT16:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int16_t>;
-        case 2:  return GetItemUInt<int16_t, int16_t>;
-        case 4:  return GetItemUInt<int32_t, int16_t>;
-        case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<__m128, int16_t>;
-        default: return GetItemUIntVariable<int16_t>;
+        case 1:  return GetItemUInt<int8_t, uint16_t>;
+        case 2:  return GetItemUInt<int16_t, uint16_t>;
+        case 4:  return GetItemUInt<int32_t, uint16_t>;
+        case 8:  return GetItemUInt<int64_t, uint16_t>;
+        case 16:  return GetItemUInt<__m128, uint16_t>;
+        default: return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -985,12 +985,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT32:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int32_t>;
-        case 2:  return GetItemUInt<int16_t, int32_t>;
-        case 4:  return GetItemUInt<int32_t, int32_t>;
-        case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<__m128, int32_t>;
-        default: return GetItemUIntVariable<int32_t>;
+        case 1:  return GetItemUInt<int8_t, uint32_t>;
+        case 2:  return GetItemUInt<int16_t, uint32_t>;
+        case 4:  return GetItemUInt<int32_t, uint32_t>;
+        case 8:  return GetItemUInt<int64_t, uint32_t>;
+        case 16:  return GetItemUInt<__m128, uint32_t>;
+        default: return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1006,12 +1006,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT64:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int64_t>;
-        case 2:  return GetItemUInt<int16_t, int64_t>;
-        case 4:  return GetItemUInt<int32_t, int64_t>;
-        case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<__m128, int64_t>;
-        default: return GetItemUIntVariable<int64_t>;
+        case 1:  return GetItemUInt<int8_t, uint64_t>;
+        case 2:  return GetItemUInt<int16_t, uint64_t>;
+        case 4:  return GetItemUInt<int32_t, uint64_t>;
+        case 8:  return GetItemUInt<int64_t, uint64_t>;
+        case 16:  return GetItemUInt<__m128, uint64_t>;
+        default: return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From 226618710f68c22676cc47ccf91a553b35edee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 24/62] fix: getitem of strings with unsigned indexes advanced
 the output twice per item

---
 src/pnumpy/getitem.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 429ff13..61497fc 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -826,7 +826,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else {
@@ -852,7 +851,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
-- 
2.43.0


From 85517abfc79d1056d1d27f57e07499fa303ee33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 25/62] fix: threaded getitem offset its packed output by the
 stride of the values

---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 61497fc..9e3e9fc 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -904,7 +904,7 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
         // Calculate how much to adjust the pointers to get to the data for this work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING("%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  %lld %lld\n", core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
-- 
2.43.0


From f629624b1abff42db8bfc57b37126c6112fcfb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 26/62] fix: boolean index wrote its last items with the stride
 of the values

---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 9e3e9fc..d59f731 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -475,7 +475,7 @@ BooleanIndexInternal(
                         for (int64_t i = 0; i < blength; i++) {
                             if (*pBooleanMask++) {
                                 memcpy(pValuesOut, pValuesIn, itemSize);
-                                pValuesOut += strideValues;
+                                pValuesOut += itemSize;
                             }
                             pValuesIn += strideValues;
                         }
-- 
2.43.0


From b25a917308366507689bed795a77e4667f6ccd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 27/62] fix: getitem of 16 byte items required 16 byte aligned
 values

---
 src/pnumpy/getitem.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index d59f731..a053dbb 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -603,6 +603,12 @@ BooleanIndex(PyObject* self, PyObject* args)
 
 
 
+// A 16 byte item with no alignment of its own
+struct ITEM16 {
+    int64_t lo;
+    int64_t hi;
+};
+
 //----------------------------------------------------
 // Consider:  C=A[B]   where A is a value array
 // C must be the same type as A (and is also a value array)
@@ -935,7 +941,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int8_t>;
         case 4:  return GetItemInt<int32_t, int8_t>;
         case 8:  return GetItemInt<int64_t, int8_t>;
-        case 16:  return GetItemInt<__m128, int8_t>;
+        case 16:  return GetItemInt<ITEM16, int8_t>;
         default: return GetItemIntVariable<int8_t>;
         }
         break;
@@ -945,7 +951,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint8_t>;
         case 4:  return GetItemUInt<int32_t, uint8_t>;
         case 8:  return GetItemUInt<int64_t, uint8_t>;
-        case 16:  return GetItemUInt<__m128, uint8_t>;
+        case 16:  return GetItemUInt<ITEM16, uint8_t>;
         default: return GetItemUIntVariable<uint8_t>;
         }
         break;
@@ -956,7 +962,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int16_t>;
         case 4:  return GetItemInt<int32_t, int16_t>;
         case 8:  return GetItemInt<int64_t, int16_t>;
-        case 16:  return GetItemInt<__m128, int16_t>;
+        case 16:  return GetItemInt<ITEM16, int16_t>;
         default: return GetItemIntVariable<int16_t>;
         }
         break;
@@ -966,7 +972,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint16_t>;
         case 4:  return GetItemUInt<int32_t, uint16_t>;
         case 8:  return GetItemUInt<int64_t, uint16_t>;
-        case 16:  return GetItemUInt<__m128, uint16_t>;
+        case 16:  return GetItemUInt<ITEM16, uint16_t>;
         default: return GetItemUIntVariable<uint16_t>;
         }
         break;
@@ -977,7 +983,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int32_t>;
         case 4:  return GetItemInt<int32_t, int32_t>;
         case 8:  return GetItemInt<int64_t, int32_t>;
-        case 16:  return GetItemInt<__m128, int32_t>;
+        case 16:  return GetItemInt<ITEM16, int32_t>;
         default: return GetItemIntVariable<int32_t>;
         }
         break;
@@ -987,7 +993,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint32_t>;
         case 4:  return GetItemUInt<int32_t, uint32_t>;
         case 8:  return GetItemUInt<int64_t, uint32_t>;
-        case 16:  return GetItemUInt<__m128, uint32_t>;
+        case 16:  return GetItemUInt<ITEM16, uint32_t>;
         default: return GetItemUIntVariable<uint32_t>;
         }
         break;
@@ -998,7 +1004,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int64_t>;
         case 4:  return GetItemInt<int32_t, int64_t>;
         case 8:  return GetItemInt<int64_t, int64_t>;
-        case 16:  return GetItemInt<__m128, int64_t>;
+        case 16:  return GetItemInt<ITEM16, int64_t>;
         default: return GetItemIntVariable<int64_t>;
         }
         break;
@@ -1008,7 +1014,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint64_t>;
         case 4:  return GetItemUInt<int32_t, uint64_t>;
         case 8:  return GetItemUInt<int64_t, uint64_t>;
-        case 16:  return GetItemUInt<__m128, uint64_t>;
+        case 16:  return GetItemUInt<ITEM16, uint64_t>;
         default: return GetItemUIntVariable<uint64_t>;
         }
         break;
-- 
2.43.0


From 9059f371c3d43c4c0759bcba91e23a3412ddcbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 28/62] fix: boolean index of arrays that are not 1-d used the
 stride of the first dimension

---
 src/pnumpy/getitem.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a053dbb..a197a5f 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -143,6 +143,13 @@ int64_t SumBooleanMask(const int8_t* const pData, const int64_t length, const in
     return result;
 }
 
+//===================================================
+// The distance between consecutive items of an array that is
+// either one dimensional or contiguous
+static int64_t FlatStride(PyArrayObject* inArr) {
+    return PyArray_NDIM(inArr) == 1 ? PyArray_STRIDE(inArr, 0) : PyArray_ITEMSIZE(inArr);
+}
+
 //===================================================
 // Input: boolean array
 // Output: chunk count and ppChunkCount
@@ -199,7 +206,7 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         BSCallbackStruct stBSCallback;
         stBSCallback.pChunkCount = pChunkCount;
         stBSCallback.pBooleanMask = pBooleanMask;
-        stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
+        stBSCallback.strideBoolean = FlatStride(aIndex);
 
         BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
@@ -564,8 +571,8 @@ BooleanIndexInternal(
             stBICallback.pValuesIn = (char*)PyArray_BYTES(aValues);
             stBICallback.pValuesOut = (char*)PyArray_BYTES(pReturnArray);
             stBICallback.itemSize = PyArray_ITEMSIZE(aValues);
-            stBICallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
-            stBICallback.strideValues = PyArray_STRIDE(aValues, 0);
+            stBICallback.strideBoolean = FlatStride(aIndex);
+            stBICallback.strideValues = FlatStride(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
         }
-- 
2.43.0


From 3d385d92d35cda0c4c6a9c3ffdea8ae576cde69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 29/62] fix: boolean index used counts of chunks that the first
 pass had not counted

---
 src/pnumpy/getitem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a197a5f..2d4c706 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -574,7 +574,13 @@ BooleanIndexInternal(
             stBICallback.strideBoolean = FlatStride(aIndex);
             stBICallback.strideValues = FlatStride(aValues);
 
-            THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
+            if (chunks > 1) {
+                THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
+            }
+            else {
+                // there is only the count of the whole mask
+                lambdaBICallback2(&stBICallback, 0, 0, lengthBool);
+            }
         }
     }  else {
         // ran out of memory
-- 
2.43.0


From b79526b2e45105eb6ac0cc0de9617422c490d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 30/62] fix: getitem and boolean index lost the datetime unit,
 byte order and fields of the values

---
 src/pnumpy/common.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8cb9acb..c0a18e5 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -157,14 +157,11 @@ PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, i
 //-----------------------------------------------------------------------------------
 // NOTE: will only allocate 1 dim arrays
 PyArrayObject* AllocateLikeResize(PyArrayObject* inArr, npy_intp rowSize) {
-    int numpyType = PyArray_TYPE(inArr);
+    // keeps the unit of a datetime, the byte order and the fields of a record
+    PyArray_Descr* descr = PyArray_DESCR(inArr);
+    Py_INCREF(descr);
 
-    PyArrayObject* result = NULL;
-
-    int64_t itemSize = PyArray_ITEMSIZE(inArr);
-    result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-
-    return result;
+    return (PyArrayObject*)PyArray_NewFromDescr(pPyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
 }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From d22094afbcc59d004bfa4bfb4177ce59b73e9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 31/62] fix: getitem and boolean index of objects did not own
 what they returned

---
 src/pnumpy/getitem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 2d4c706..a3bff81 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -581,6 +581,9 @@ BooleanIndexInternal(
                 // there is only the count of the whole mask
                 lambdaBICallback2(&stBICallback, 0, 0, lengthBool);
             }
+
+            // the items were copied as bytes, own the objects in them
+            PyArray_INCREF(pReturnArray);
         }
     }  else {
         // ran out of memory
@@ -1197,6 +1200,9 @@ getitem(PyObject* self, PyObject* args)
                 //g_cMathWorker->WorkMain(pWorkItem, aIndexLength);
             }
 
+            // the items were copied as bytes, own the objects in them
+            PyArray_INCREF(outArray);
+
             return (PyObject*)outArray;
         }
         PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-- 
2.43.0


From a747bdcff2e0c01624e5b4ce01d626560174854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 32/62] fix: getitem filled out of range items from memory that
 did not hold a default

The default of a string, record, complex, long double or half was read past
or from an unwritten buffer.
---
 src/pnumpy/getitem.cpp | 77 +++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 16 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a3bff81..80634d3 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1039,6 +1039,59 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
     return NULL;
 }
 
+//---------------------------------------------------------------------------
+// Returns an array of one item, of the type of aValues, which holds the value for
+// an index that is out of range: defaultValue, or the invalid value of the type.
+static PyArrayObject* GetDefaultItem(PyArrayObject* aValues, PyObject* defaultValue) {
+    PyArrayObject* aDefault = AllocateLikeResize(aValues, 1);
+    if (!aDefault) {
+        return NULL;
+    }
+
+    const int numpyType = PyArray_TYPE(aDefault);
+    const int64_t itemSize = PyArray_ITEMSIZE(aDefault);
+    char* pItem = (char*)PyArray_BYTES(aDefault);
+    int result = 0;
+
+    if (numpyType != NPY_OBJECT) {
+        memset(pItem, 0, itemSize);
+    }
+
+    if (defaultValue != Py_None) {
+        alignas(32) char tempDefault[64];
+        int64_t convertedSize;
+        void* pConverted;
+
+        if (numpyType <= NPY_DOUBLE && PyArray_ISNOTSWAPPED(aDefault) &&
+            !PyBytes_Check(defaultValue) && !PyUnicode_Check(defaultValue) &&
+            ConvertScalarObject(defaultValue, tempDefault, numpyType, &pConverted, &convertedSize)) {
+            memcpy(pItem, tempDefault, itemSize);
+        }
+        else if (!PyErr_Occurred()) {
+            result = PyArray_SETITEM(aDefault, pItem, defaultValue);
+        }
+    }
+    else if (numpyType <= NPY_DOUBLE || numpyType == NPY_DATETIME || numpyType == NPY_TIMEDELTA) {
+        // NaT has the value of the invalid int64
+        const bool isTime = numpyType == NPY_DATETIME || numpyType == NPY_TIMEDELTA;
+        PyArray_DESCR(aDefault)->f->copyswap(pItem, GetDefaultForType(isTime ? NPY_INT64 : numpyType), !PyArray_ISNOTSWAPPED(aDefault), aDefault);
+    }
+    else if (PyTypeNum_ISFLOAT(numpyType) || PyTypeNum_ISCOMPLEX(numpyType)) {
+        PyObject* nan = PyFloat_FromDouble(NPY_NAN);
+        result = nan ? PyArray_SETITEM(aDefault, pItem, nan) : -1;
+        Py_XDECREF(nan);
+    }
+    else if (numpyType == NPY_OBJECT) {
+        result = PyArray_SETITEM(aDefault, pItem, Py_None);
+    }
+
+    if (result != 0 || PyErr_Occurred()) {
+        Py_DECREF(aDefault);
+        return NULL;
+    }
+    return aDefault;
+}
+
 //---------------------------------------------------------------------------
 // Input:
 // Arg1: numpy array aValues (can be anything)
@@ -1143,23 +1196,14 @@ getitem(PyObject* self, PyObject* args)
 
         if (outArray) {
             void* pDataOut = PyArray_BYTES(outArray);
-            void* pDefault = GetDefaultForType(numpyValuesType);
-
-            // reserve a full 16 bytes for default in case we have oneS
-            char tempDefault[128];
-
-            // Check if a default value was passed in as third parameter
-            if (defaultValue != Py_None) {
-                BOOL result;
-                int64_t itemSize;
-                void* pTempData = NULL;
-                // Try to convert the scalar
-                result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                if (result) {
-                    // Assign the new default for out of range indexes
-                    pDefault = &tempDefault;
-                }
+
+            // The default passed in as third parameter, or the one of the type
+            PyArrayObject* aDefault = GetDefaultItem(aValues, defaultValue);
+            if (!aDefault) {
+                Py_DECREF(outArray);
+                return NULL;
             }
+            void* pDefault = PyArray_BYTES(aDefault);
 
             stMATH_WORKER_ITEM* pWorkItem = THREADER ? THREADER->GetWorkItem(aIndexLength) : NULL;
 
@@ -1202,6 +1246,7 @@ getitem(PyObject* self, PyObject* args)
 
             // the items were copied as bytes, own the objects in them
             PyArray_INCREF(outArray);
+            Py_DECREF(aDefault);
 
             return (PyObject*)outArray;
         }
-- 
2.43.0


From c848663bd8c7efc9b1838bf4c5eb0d4039514341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 33/62] fix: getitem read byte swapped indexes in native order

---
 src/pnumpy/getitem.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 80634d3..94839d4 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1152,6 +1152,18 @@ getitem(PyObject* self, PyObject* args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    if (!PyArray_ISNOTSWAPPED(aIndex)) {
+        // indexes are read in native byte order
+        PyObject* aNative = PyArray_FromArray(aIndex, PyArray_DescrFromType(numpyIndexType), 0);
+        if (!aNative) {
+            return NULL;
+        }
+        PyObject* nativeArgs = Py_BuildValue("(ONO)", aValues, aNative, defaultValue);
+        PyObject* result = nativeArgs ? getitem(self, nativeArgs) : NULL;
+        Py_XDECREF(nativeArgs);
+        return result;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
-- 
2.43.0


From 59c88d87458c8b2240dccb1fe81995173581f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 34/62] fix: hooked boolean index accepted masks of another
 shape and dropped subclasses

---
 src/pnumpy/_pnumpy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 443b968..b6e55ea 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1747,7 +1747,8 @@ PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
         int32_t numpyIndexType = PyArray_TYPE((PyArrayObject*)aIndex);
 
         PyObject* result = NULL;
-        if (numpyIndexType == NPY_BOOL) {
+        if (numpyIndexType == NPY_BOOL && Py_TYPE(aValues) == &PyArray_Type &&
+            PyArray_SAMESHAPE((PyArrayObject*)aValues, (PyArrayObject*)aIndex)) {
             // special path for boolean
             result = BooleanIndexInternal((PyArrayObject*)aValues, (PyArrayObject*)aIndex);
             if (result) {
-- 
2.43.0


From 67afe13a2b0f95e3eedb0582e98b5b9dab5893d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 35/62] fix: records without any bytes divided by zero in the
 column conversion

---
 src/atop/recarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/recarray.cpp b/src/atop/recarray.cpp
index 823d2c8..3163989 100644
--- a/src/atop/recarray.cpp
+++ b/src/atop/recarray.cpp
@@ -40,7 +40,7 @@ void ConvertRecArray(char* pStartOffset, int64_t startRow, int64_t totalRows, st
 {
     // Try to keep everything in L1Cache
     const int64_t L1CACHE = 32768;
-    int64_t CHUNKROWS = L1CACHE / (itemSize * 2);
+    int64_t CHUNKROWS = itemSize > 0 ? L1CACHE / (itemSize * 2) : L1CACHE;
     if (CHUNKROWS < 1) {
         CHUNKROWS = 1;
     }
@@ -155,7 +155,7 @@ extern "C" void RecArrayToColMajor(
 
     // Try to keep everything in L1Cache
     const int64_t L1CACHE = 32768;
-    int64_t CHUNKROWS = L1CACHE / (itemSize * 2);
+    int64_t CHUNKROWS = itemSize > 0 ? L1CACHE / (itemSize * 2) : L1CACHE;
     if (CHUNKROWS < 1) {
         CHUNKROWS = 1;
     }
-- 
2.43.0


From 50a5b8b191d2ece5c12547518e373f35775816a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 36/62] fix: converting records without fields never ended

---
 src/atop/recarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/atop/recarray.cpp b/src/atop/recarray.cpp
index 3163989..2c09c93 100644
--- a/src/atop/recarray.cpp
+++ b/src/atop/recarray.cpp
@@ -137,6 +137,8 @@ void ConvertRecArray(char* pStartOffset, int64_t startRow, int64_t totalRows, st
             }
 
         }
+
+        startRow = endRow;
     }
 }
 
-- 
2.43.0


From 0bf886b9e67ce0f172e24ba831c42a95706a612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 37/62] fix: column conversion of multi-dimensional record
 arrays wrote past the columns

---
 src/pnumpy/conversions.cpp | 8 ++++++++
 src/pnumpy/recarray.py     | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 037b3e4..03ea055 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -69,6 +69,14 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    for (int64_t i = 0; i < numArrays; i++) {
+        PyArrayObject* pColumn = ((PyArrayObject**)PyArray_BYTES(arrArr))[i];
+        if (!pColumn || !PyArray_Check(pColumn) || !PyArray_ISCARRAY(pColumn) || ArrayLength(pColumn) != length) {
+            PyErr_Format(PyExc_ValueError, "recarray_to_colmajor columns must be contiguous arrays of the length of the input");
+            return NULL;
+        }
+    }
+
     int64_t totalRows = length;
     int64_t* pOffsets = (int64_t*)PyArray_BYTES(offsetArr);
     PyArrayObject** ppArrays = (PyArrayObject**)PyArray_BYTES(arrArr);
diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 53e9829..ed4ef98 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -36,7 +36,8 @@ def recarray_to_colmajor(item, parallel=True):
                 break;
 
         d={}
-        if success and parallel:
+        # the parallel routine fills one dimensional columns
+        if success and parallel and item.ndim == 1:
             offsets=[]
             arrays=np.empty(len(item.dtype.fields), dtype='O')
             arrlen = len(item)
-- 
2.43.0


From 530bdc3d4e5c2fb35713f114d14485b99571615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 38/62] fix: column conversion read a byte of the next field
 for empty strings

---
 src/pnumpy/recarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index ed4ef98..cc5902e 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -30,8 +30,8 @@ def recarray_to_colmajor(item, parallel=True):
         success = True
         for t in list_types:
             val = t[0].char
-            # if the record type has an object or another record type, we cannot handle
-            if val == 'O' or val =='V':
+            # if the record type has an object, another record type or an empty string, we cannot handle
+            if val == 'O' or val =='V' or t[0].itemsize == 0:
                 success = False
                 break;
 
-- 
2.43.0


From a69cdf9b1a61add8e6723bb3c791a91637196072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 39/62] fix: column conversion listed titled fields twice

---
 src/pnumpy/recarray.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index cc5902e..69bb3df 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -39,10 +39,11 @@ def recarray_to_colmajor(item, parallel=True):
         # the parallel routine fills one dimensional columns
         if success and parallel and item.ndim == 1:
             offsets=[]
-            arrays=np.empty(len(item.dtype.fields), dtype='O')
+            arrays=np.empty(len(item.dtype.names), dtype='O')
             arrlen = len(item)
             count =0
-            for name, v in item.dtype.fields.items():
+            for name in item.dtype.names:
+                v = item.dtype.fields[name]
                 offsets.append(v[1])
                 arr= np.empty(arrlen, dtype=v[0])
                 arrays[count] = arr
-- 
2.43.0


From 2a5965ee0a3821ccd7ce68652ff613d2a20b720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 40/62] fix: getitem read past arrays whose first and last
 dimension have equal strides

A view with overlapping rows was taken as one flat run of items, and
dimensions of length 1 lent their arbitrary stride to the whole array.
---
 src/pnumpy/common.cpp | 77 ++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index c0a18e5..cc4122d 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -486,46 +486,49 @@ int GetStridesAndContig(PyArrayObject* inArray, int& ndim, int64_t& stride) {
     int direction = 0;
     ndim = PyArray_NDIM(inArray);
     if (ndim > 0) {
-        stride = PyArray_STRIDE(inArray, 0);
-        if (ndim > 1) {
+        // dimensions of length 1 do not matter, whatever their stride
+        int firstdim = 0;
+        int lastdim = ndim - 1;
+        while (firstdim < lastdim && PyArray_DIM(inArray, firstdim) == 1) {
+            firstdim++;
+        }
+        while (firstdim < lastdim && PyArray_DIM(inArray, lastdim) == 1) {
+            lastdim--;
+        }
+        stride = PyArray_STRIDE(inArray, firstdim);
+        if (firstdim < lastdim) {
             // at least two strides
-            int ndims = PyArray_NDIM(inArray);
-            int64_t lastStride = PyArray_STRIDE(inArray, ndims - 1);
-            if (lastStride == stride) {
-                // contiguous with one of the dimensions having length 1
-            }
-            else
-                if (std::abs(lastStride) < std::abs(stride)) {
-                    // Row Major - 'C' Style
-                    // work backwards
-                    int currentdim = ndims - 1;
-                    int64_t curStrideLen = lastStride;
-                    while (currentdim != 0) {
-                        curStrideLen *= PyArray_DIM(inArray, currentdim);
-                        LOGGING("'C' %lld vs %lld  dim: %lld  stride: %lld \n", curStrideLen, PyArray_STRIDE(inArray, currentdim - 1), PyArray_DIM(inArray, currentdim - 1), lastStride);
-                        if (PyArray_STRIDE(inArray, currentdim - 1) != curStrideLen)
-                            break;
-                        currentdim--;
-                    }
-                    stride = lastStride;
-                    direction = currentdim;
+            int64_t lastStride = PyArray_STRIDE(inArray, lastdim);
+            if (std::abs(lastStride) < std::abs(stride)) {
+                // Row Major - 'C' Style
+                // work backwards
+                int currentdim = lastdim;
+                int64_t curStrideLen = lastStride * PyArray_DIM(inArray, lastdim);
+                while (currentdim != firstdim) {
+                    const int64_t nextLen = PyArray_DIM(inArray, currentdim - 1);
+                    LOGGING("'C' %lld vs %lld  dim: %lld  stride: %lld \n", curStrideLen, PyArray_STRIDE(inArray, currentdim - 1), nextLen, lastStride);
+                    if (nextLen != 1 && PyArray_STRIDE(inArray, currentdim - 1) != curStrideLen)
+                        break;
+                    curStrideLen *= nextLen;
+                    currentdim--;
                 }
-                else {
-                    // Col Major - 'F' Style
-                    int currentdim = 0;
-                    int64_t curStrideLen = stride;
-                    while (currentdim != (ndims - 1)) {
-                        curStrideLen *= PyArray_DIM(inArray, currentdim);
-                        LOGGING("'F' %lld vs %lld  dim:  %lld   stride: %lld \n", curStrideLen, PyArray_STRIDE(inArray, currentdim + 1), PyArray_DIM(inArray, currentdim + 1), stride);
-                        if (PyArray_STRIDE(inArray, currentdim + 1) != curStrideLen)
-                            break;
-                        currentdim++;
-                    }
-                    // think!
-                    //direction = (ndims - 1) - currentdim;
-                    direction = currentdim - (ndims - 1);
-                    //contig = currentdim == (ndims - 1);
+                stride = lastStride;
+                direction = currentdim - firstdim;
+            }
+            else {
+                // Col Major - 'F' Style
+                int currentdim = firstdim;
+                int64_t curStrideLen = stride * PyArray_DIM(inArray, firstdim);
+                while (currentdim != lastdim) {
+                    const int64_t nextLen = PyArray_DIM(inArray, currentdim + 1);
+                    LOGGING("'F' %lld vs %lld  dim:  %lld   stride: %lld \n", curStrideLen, PyArray_STRIDE(inArray, currentdim + 1), nextLen, stride);
+                    if (nextLen != 1 && PyArray_STRIDE(inArray, currentdim + 1) != curStrideLen)
+                        break;
+                    curStrideLen *= nextLen;
+                    currentdim++;
                 }
+                direction = currentdim - lastdim;
+            }
         }
     }
     return direction;
-- 
2.43.0


From 0b0161e1f6b2de3799d758288dea46b3a1b8d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 41/62] fix: getitem defaults that an int64 cannot hold became
 -1

Integers beyond int64 are left to NumPy, and a bool array gets true for
every default that is not zero.
---
 src/pnumpy/common.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index cc4122d..dde5a9c 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -301,15 +301,11 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
                 // overflow of 1 indicates past LONG_MAX
                 // overflow of -1 indicate past LONG_MIN which we do not handle
-                // PyLong_AsLongLong will RAISE an overflow exception
-
-                // If the value is negative, conversion to unsigned not allowed
-                if (value >= 0 || overflow == 1) {
-                    value2 = PyLong_AsUnsignedLongLongMask(inObject1);
-                }
-                else {
-                    value2 = (uint64_t)value;
+                // value does not hold the integer
+                if (overflow != 0) {
+                    return FALSE;
                 }
+                value2 = (uint64_t)value;
             }
             else {
                 PyArray_Descr* dtype = PyArray_DescrFromScalar(inObject1);
@@ -322,6 +318,11 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
                     PyArray_CastScalarToCtype(inObject1, &value, g_pDescrLongLong);
                     PyArray_CastScalarToCtype(inObject1, &value2, g_pDescrULongLong);
+
+                    // value does not hold the integer
+                    if (value < 0 && PyArray_IsScalar(inObject1, UnsignedInteger)) {
+                        return FALSE;
+                    }
                 }
                 else {
                     // datetime64 falls into here
@@ -332,6 +333,8 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
             switch (numpyOutType) {
             case NPY_BOOL:
+                pDest->i = _mm256_set1_epi8(value != 0);
+                break;
             case NPY_INT8:
                 pDest->i = _mm256_set1_epi8((int8_t)value);
                 break;
@@ -375,6 +378,8 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
             switch (numpyOutType) {
             case NPY_BOOL:
+                pDest->i = _mm256_set1_epi8(value != 0);
+                break;
             case NPY_INT8:
                 pDest->i = _mm256_set1_epi8((int8_t)value);
                 break;
-- 
2.43.0


From 00748f6977fad54ad1d399413dbddcd9628de683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 42/62] fix: recarray_to_colmajor accepts columns of the other
 byte order and checks offsets and record bounds

---
 src/pnumpy/conversions.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 03ea055..667229d 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -44,9 +44,14 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!PyArray_Check(inArr) || !PyArray_Check(offsetArr) || !PyArray_Check(arrArr)) {
+        PyErr_Format(PyExc_ValueError, "recarray_to_colmajor must input 3 numpy arrays");
+        return NULL;
+    }
+
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
-    if (itemSize != PyArray_STRIDE(inArr, 0)) {
+    if (PyArray_NDIM(inArr) != 1 || itemSize != PyArray_STRIDE(inArr, 0)) {
         PyErr_Format(PyExc_ValueError, "recarray_to_colmajor cannot yet handle strides");
         return NULL;
     }
@@ -61,6 +66,12 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!PyArray_ISINTEGER(offsetArr) || PyArray_ITEMSIZE(offsetArr) != sizeof(int64_t) ||
+        !PyArray_ISCARRAY_RO(offsetArr) || !PyArray_ISCARRAY_RO(arrArr)) {
+        PyErr_Format(PyExc_ValueError, "recarray_to_colmajor offsets must be contiguous int64 and columns a contiguous array");
+        return NULL;
+    }
+
     int64_t length = ArrayLength(inArr);
     int64_t numArrays = ArrayLength(arrArr);
 
@@ -69,22 +80,30 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    int64_t totalRows = length;
+    int64_t* pOffsets = (int64_t*)PyArray_BYTES(offsetArr);
+    PyArrayObject** ppArrays = (PyArrayObject**)PyArray_BYTES(arrArr);
+
     for (int64_t i = 0; i < numArrays; i++) {
-        PyArrayObject* pColumn = ((PyArrayObject**)PyArray_BYTES(arrArr))[i];
-        if (!pColumn || !PyArray_Check(pColumn) || !PyArray_ISCARRAY(pColumn) || ArrayLength(pColumn) != length) {
+        PyArrayObject* pColumn = ppArrays[i];
+        // the columns have the byte order of their fields
+        if (!pColumn || !PyArray_Check(pColumn) || !PyArray_CHKFLAGS(pColumn, NPY_ARRAY_CARRAY) || ArrayLength(pColumn) != length) {
             PyErr_Format(PyExc_ValueError, "recarray_to_colmajor columns must be contiguous arrays of the length of the input");
             return NULL;
         }
+        if (PyDataType_REFCHK(PyArray_DESCR(pColumn)) || pOffsets[i] < 0 || PyArray_ITEMSIZE(pColumn) > itemSize || pOffsets[i] > itemSize - PyArray_ITEMSIZE(pColumn)) {
+            PyErr_Format(PyExc_ValueError, "recarray_to_colmajor columns must lie within the records");
+            return NULL;
+        }
     }
 
-    int64_t totalRows = length;
-    int64_t* pOffsets = (int64_t*)PyArray_BYTES(offsetArr);
-    PyArrayObject** ppArrays = (PyArrayObject**)PyArray_BYTES(arrArr);
-
     stRecarrayOffsets* pstOffset;
 
     // TODO allocate this on the stack
     pstOffset = (stRecarrayOffsets*)WORKSPACE_ALLOC(sizeof(stRecarrayOffsets) * numArrays);
+    if (!pstOffset) {
+        return PyErr_NoMemory();
+    }
 
     for (int64_t i = 0; i < numArrays; i++) {
         // Consider adding pOffsets here
-- 
2.43.0


From 5d4a8bb4bf3fa9c626ad0c713aaff234c0818272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 43/62] fix: recarray_to_colmajor of arrays with fewer than two
 records does not look at their stride

---
 src/pnumpy/conversions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 667229d..dcfb515 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -51,7 +51,8 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
 
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
-    if (PyArray_NDIM(inArr) != 1 || itemSize != PyArray_STRIDE(inArr, 0)) {
+    // strides have no meaning for less than two records
+    if (PyArray_NDIM(inArr) != 1 || (ArrayLength(inArr) > 1 && itemSize != PyArray_STRIDE(inArr, 0))) {
         PyErr_Format(PyExc_ValueError, "recarray_to_colmajor cannot yet handle strides");
         return NULL;
     }
-- 
2.43.0


From a2030d219f9eca5e1328d5b770dcd67499e5ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:14 +0000
Subject: [PATCH 44/62] fix: lexsort raises instead of returning None or a
 result with an exception set

---
 src/pnumpy/sorting.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index ddee8af..c87ce33 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -326,7 +326,7 @@ public:
 
         if (aInfo) {
 
-            totalRows = aInfo[0].ArrayLength;
+            totalRows = listSize > 0 ? aInfo[0].ArrayLength : 0;
 
             for (int64_t i = 0; i < listSize; i++) {
                 if (aInfo[i].ArrayLength != totalRows) {
@@ -372,6 +372,10 @@ template<typename UINDEX>
 PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
     CMultiListPrepare mlp(args);
 
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+
     if (mlp.aInfo && mlp.tupleSize > 0) {
         int64_t    arraySize1 = mlp.totalRows;
 
@@ -482,10 +486,11 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
 
             return (PyObject*)result;
         }
+        return NULL;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    PyErr_Format(PyExc_TypeError, "LexSort needs one or more keys");
+    return NULL;
 }
 
 
-- 
2.43.0


From e90cff11a2ec0fb376ed4d2849fb152f12f1bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 45/62] fix: lexsort of keys that are None or have no
 dimensions crashed

---
 src/pnumpy/common.cpp  | 3 ++-
 src/pnumpy/sorting.cpp | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index dde5a9c..9af4e19 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -708,7 +708,8 @@ ArrayInfo* BuildArrayInfo(
                 //    goto EXIT_ROUTINE;
                 //}
 
-                int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
+                // an array without dimensions has no strides
+                int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject*)inObject, 0) : aInfo[i].ItemSize;
                 int64_t itemSize = aInfo[i].ItemSize;
 
                 if (checkrows) {
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index c87ce33..aeec9eb 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -394,6 +394,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
+            if (mlp.aInfo[i].pObject == NULL) {
+                PyErr_Format(PyExc_ValueError, "LexSort keys must be arrays");
+                return NULL;
+            }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
             if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
-- 
2.43.0


From 18ec5fd803ce3e9341352a4a2bd51ea03f8f61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 46/62] fix: lexsort of float16 keys left them unsorted

---
 src/pnumpy/sorting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index aeec9eb..c96b676 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -400,7 +400,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
-            if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
+            if (atype == -1 || atype == ATOP_HALF_FLOAT || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
-- 
2.43.0


From e500747c9fea3cef39bb5cae77a9cf4703fcaa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 47/62] fix: lexsort and sort took byte-swapped arrays for
 native ones

---
 src/pnumpy/sorting.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index c96b676..9c45bf7 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -404,6 +404,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
+            if (PyArray_ISBYTESWAPPED(mlp.aInfo[i].pObject)) {
+                PyErr_Format(PyExc_ValueError, "LexSort keys must be in native byte order");
+                return NULL;
+            }
         }
 
 
@@ -549,6 +553,10 @@ extern "C" PyObject* sort(PyObject* self, PyObject* args, PyObject* kwargs) {
         PyErr_Format(PyExc_ValueError, "Sort cannot handle type %d\n", dtype);
         return NULL;
     }
+    if (PyArray_ISBYTESWAPPED(inArrValues)) {
+        PyErr_Format(PyExc_ValueError, "Sort: array must be in native byte order");
+        return NULL;
+    }
     int ndimValue;
     int64_t strideValue = 0;
 
-- 
2.43.0


From 21db8036740a41f2fa686110f4c1b2b2c82073be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 48/62] fix: lexsort ignored the axis it was given

---
 src/pnumpy/sorting.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 9c45bf7..54b7032 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -379,6 +379,16 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
     if (mlp.aInfo && mlp.tupleSize > 0) {
         int64_t    arraySize1 = mlp.totalRows;
 
+        // an axis is for numpy to handle
+        if (PyTuple_GET_SIZE(args) > 1 && PyList_Check(PyTuple_GET_ITEM(args, 0))) {
+            PyErr_Format(PyExc_TypeError, "LexSort takes one list of keys");
+            return NULL;
+        }
+        if (kwargs && PyDict_GetItemString(kwargs, "axis")) {
+            PyErr_Format(PyExc_TypeError, "LexSort does not handle 'axis'");
+            return NULL;
+        }
+
         int64_t    cutOffLength = 0;
         int64_t* pCutOffs = GetCutOffs(kwargs, cutOffLength);
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_MERGE);
-- 
2.43.0


From b10c4539c90adb949aa363cf1d816f823a1acbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 49/62] fix: lexsort returned an unsorted index when memory ran
 out

---
 src/pnumpy/sorting.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 54b7032..0567ff1 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -493,12 +493,18 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             // Thus, the last array is the last sort, and therefore determines the primary sort order
             for (UINDEX i = 0; i < mlp.tupleSize; i++) {
                 int atype = dtype_to_atop(mlp.aInfo[i].NumpyDType);
+                int sortResult;
                 // For each array...
                 if (sizeof(UINDEX) == 4) {
-                    SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sortResult = SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
                 }
                 else {
-                    SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sortResult = SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                }
+                if (sortResult < 0) {
+                    Py_DECREF(result);
+                    PyErr_Format(PyExc_MemoryError, "LexSort: out of memory or cannot sort");
+                    return NULL;
                 }
             }
 
-- 
2.43.0


From 254a87043c255756118921627667b5880d3b2615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 50/62] fix: lexsort wrote out of bounds with cutoffs that do
 not partition the keys

---
 src/pnumpy/sorting.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 0567ff1..bc309cb 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -189,8 +189,12 @@ int64_t* GetCutOffs(PyObject* kwargs, int64_t& cutoffLength) {
     if (pCutOffs != NULL) {
         switch (PyArray_TYPE(pCutOffs)) {
         CASE_NPY_INT64:
-            cutoffLength = ArrayLength(pCutOffs);
-            return (int64_t*)PyArray_BYTES(pCutOffs);
+            if (PyArray_NDIM(pCutOffs) == 1 && PyArray_ISCARRAY_RO(pCutOffs)) {
+                cutoffLength = ArrayLength(pCutOffs);
+                return (int64_t*)PyArray_BYTES(pCutOffs);
+            }
+            cutoffLength = -1;
+            return NULL;
         default:
             printf("Bad cutoff dtype... make sure int64_t\n");
             cutoffLength = -1;
@@ -393,14 +397,25 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         int64_t* pCutOffs = GetCutOffs(kwargs, cutOffLength);
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_MERGE);
 
-        if (pCutOffs && pCutOffs[cutOffLength - 1] != arraySize1) {
-            PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
-            return NULL;
-        }
         if (cutOffLength == -1) {
-            PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an array of type int64_t");
+            PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be a contiguous array of type int64_t");
             return NULL;
         }
+        if (pCutOffs) {
+            // the partitions must cover the keys in order
+            int64_t lastCutOff = 0;
+            for (int64_t j = 0; j < cutOffLength; j++) {
+                if (pCutOffs[j] < lastCutOff) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must not decrease");
+                    return NULL;
+                }
+                lastCutOff = pCutOffs[j];
+            }
+            if (lastCutOff != arraySize1) {
+                PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
+                return NULL;
+            }
+        }
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
-- 
2.43.0


From 14b398894eab8efb41c642c03792a966a3d98072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 51/62] fix: lexsort read and wrote out of bounds with an index
 outside the keys

---
 src/pnumpy/sorting.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index bc309cb..a138f8b 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -448,7 +448,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             return NULL;
         }
 
-        if (indexLength > 0) {
+        if (index != NULL) {
             if (indexLength > arraySize1) {
                 PyErr_Format(PyExc_ValueError, "LexSort 'index' is larger than value array");
                 return NULL;
@@ -464,6 +464,25 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 return NULL;
             }
 
+            if (pCutOffs) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot have both 'cutoffs' and 'index'");
+                return NULL;
+            }
+
+            // the index is sorted in place
+            if (!PyArray_ISCARRAY(index)) {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must be contiguous and writeable");
+                return NULL;
+            }
+
+            const UINDEX* pIndex = (const UINDEX*)PyArray_BYTES(index);
+            for (int64_t i = 0; i < indexLength; i++) {
+                if (pIndex[i] < 0 || pIndex[i] >= arraySize1) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'index' is out of range for the value array");
+                    return NULL;
+                }
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
-- 
2.43.0


From 41cb90d36dc733db69db7b72fc3276f572baf70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 52/62] fix: lexsort32 of more than 2^31 keys

---
 src/pnumpy/sorting.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index a138f8b..1f3ef02 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -417,6 +417,11 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             }
         }
 
+        if (sizeof(UINDEX) == 4 && arraySize1 > INT32_MAX) {
+            PyErr_Format(PyExc_ValueError, "LexSort needs a 64 bit index for array length %lld", arraySize1);
+            return NULL;
+        }
+
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
             if (mlp.aInfo[i].pObject == NULL) {
-- 
2.43.0


From 08a3d57ca1e1242c67364fcae825941dfe7048eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 53/62] fix: lexsort ignored cutoffs and index that are not
 arrays

---
 src/pnumpy/sorting.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 1f3ef02..1f30afe 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -186,6 +186,14 @@ int64_t* GetCutOffs(PyObject* kwargs, int64_t& cutoffLength) {
     // Returns NULL if key not present
     pCutOffs = (PyArrayObject*)GetKwarg(pPyArray_Type, kwargs, "cutoffs");
 
+    if (pCutOffs == NULL && kwargs) {
+        PyObject* pOther = PyDict_GetItemString(kwargs, "cutoffs");
+        if (pOther && pOther != Py_None) {
+            cutoffLength = -1;
+            return NULL;
+        }
+    }
+
     if (pCutOffs != NULL) {
         switch (PyArray_TYPE(pCutOffs)) {
         CASE_NPY_INT64:
@@ -256,6 +264,11 @@ static PyArrayObject* GetKwargIndex(PyObject* kwargs, int64_t& indexLength, int&
         // Returns NULL if key not present
         pStartIndex = (PyArrayObject*)PyDict_GetItemString(kwargs, "index");
 
+        if (pStartIndex != NULL && (PyObject*)pStartIndex != Py_None && !PyArray_Check(pStartIndex)) {
+            indexLength = -1;
+            return NULL;
+        }
+
         if (pStartIndex != NULL && PyArray_Check(pStartIndex)) {
             indexLength = ArrayLength(pStartIndex);
 
-- 
2.43.0


From dc5e61c76408a93955141896693139053fbb35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 54/62] fix: lexsort does not use the array info it could not
 allocate

---
 src/pnumpy/common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 9af4e19..864140b 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -647,6 +647,10 @@ ArrayInfo* BuildArrayInfo(
 
     // NOTE: If the list is empty, this will allocate 0 memory (which C99 says can return NULL
     ArrayInfo* aInfo = AllocArrayInfo(tupleSize);
+    if (!aInfo) {
+        PyErr_NoMemory();
+        return NULL;
+    }
 
     int64_t totalItemSize = 0;
 
-- 
2.43.0


From dadc5b7eef2930882964deb6ceef849f3597228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 55/62] fix: sort and lexsort reported success when a block or
 partition ran out of memory

---
 src/atop/sort.cpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index fc6d17a..f04b562 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1584,6 +1584,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
+    // set to 1 if sorting a block failed (out of memory)
+    int64_t Failed;
+
     // used to synchronize parallel merges
     MERGE_SPLITTER  MergeSplitter;
     //int64_t EndPositions[9];
@@ -1723,7 +1726,9 @@ static int64_t ParArgSortCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int
         char* pWorkSpace1 = Callback->pWorkSpace + (index * Callback->AllocChunk * Callback->TypeSizeOutput);
 
         if (Callback->ArgSortCallbackOne.argsortfunc) {
-            Callback->ArgSortCallbackOne.argsortfunc(Callback->pValues, pToSort1 + (pFirst * Callback->TypeSizeOutput), MergeSize);
+            if (Callback->ArgSortCallbackOne.argsortfunc(Callback->pValues, pToSort1 + (pFirst * Callback->TypeSizeOutput), MergeSize) < 0) {
+                AtopInterlockedOr(&Callback->Failed, 1);
+            }
         }
         else {
             // used for merge sort also (not just string)
@@ -1818,10 +1823,14 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
             CopyData(pSrcData + (pFirst * itemSizeInput), MergeSize, Callback->TypeSizeInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
         if (Callback->SortCallbackOne.sortfunc) {
-            Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
+            if (Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize) < 0) {
+                AtopInterlockedOr(&Callback->Failed, 1);
+            }
         }
         else {
-            Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen);
+            if (Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen) < 0) {
+                AtopInterlockedOr(&Callback->Failed, 1);
+            }
         }
 
         if (IsBuddyBitSet(index, &Callback->MergeSplitter.Level[0])) {
@@ -1956,6 +1965,7 @@ par_amergesort(
 
             int64_t             sizeofT;
             int64_t             sizeofUINDEX;
+            int64_t             failed;     // set to 1 if a partition could not be sorted
 
         } psort;
 
@@ -1967,6 +1977,7 @@ par_amergesort(
         psort.strlen = strlen;
         psort.sortType = sortType;
 
+        psort.failed = 0;
         psort.sizeofUINDEX = sizeof(UINDEX);
         if (strlen > 0) {
             psort.sizeofT = strlen;
@@ -1995,18 +2006,26 @@ par_amergesort(
 
             // shift the data pointers to match the partition
             // call a single threaded merge
-            callbackArg->funcSingleMerge(
+            int result = callbackArg->funcSingleMerge(
                 callbackArg->pValues + (partStart * callbackArg->sizeofT),
                 callbackArg->pToSort + (partStart * callbackArg->sizeofUINDEX),
                 partLength,
                 callbackArg->strlen,
                 callbackArg->sortType);
 
+            if (result < 0) {
+                AtopInterlockedOr(&callbackArg->failed, 1);
+            }
+
             return 1;
         };
 
         THREADER->DoMultiThreadedWork((int)cutOffLength, lambdaPSCallback, &psort);
 
+        if (psort.failed) {
+            return -1;
+        }
+
     }
     else {
 
@@ -2058,6 +2077,7 @@ par_amergesort(
             stParMergeCallback.ArrayLength = arrayLength;
             stParMergeCallback.StrLen = strlen;
             stParMergeCallback.AllocChunk = allocChunk;
+            stParMergeCallback.Failed = 0;
             stParMergeCallback.pWorkSpace = (char*)pWorkSpace;
             stParMergeCallback.TypeSizeInput = sizeof(T);
             if (strlen) {
@@ -2072,6 +2092,10 @@ par_amergesort(
             // Free temp memory used
             WORKSPACE_FREE(pWorkSpace);
 
+            if (stParMergeCallback.Failed) {
+                return -1;
+            }
+
         }
         else {
             // TODO
@@ -2176,6 +2200,7 @@ par_sort(
         stParMergeCallback.ArrayLength = arrayLength;
         stParMergeCallback.StrLen = itemSize;
         stParMergeCallback.AllocChunk = allocChunk;
+        stParMergeCallback.Failed = 0;
         stParMergeCallback.pWorkSpace = (char*)pWorkSpace;
         stParMergeCallback.TypeSizeInput = itemSize;
         stParMergeCallback.TypeSizeOutput = stridesOut;
@@ -2186,6 +2211,10 @@ par_sort(
 
         // Free temp memory used
         WORKSPACE_FREE(pWorkSpace);
+
+        if (stParMergeCallback.Failed) {
+            return -1;
+        }
         return 0;
     }
 
-- 
2.43.0


From 95b44ff5cbfbea63ddf856500d6a540f53bb119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 56/62] fix: sort of strings returned a result with an
 exception pending when memory ran out

The type of a string array is not the size-less type of its kind: when its descriptor
cannot be made there is no fallback.
---
 src/pnumpy/common.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 864140b..994add1 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -187,8 +187,7 @@ PyArrayObject* AllocateLikeNumpyArray(PyArrayObject* inArr, int numpyType) {
     if (numpyType == NPY_STRING || numpyType == NPY_UNICODE || numpyType == NPY_VOID) {
         descr = PyArray_DescrFromObject((PyObject*)inArr, NULL);
     }
-
-    if (!descr) {
+    else {
         descr = PyArray_DescrFromType(numpyType);
     }
 
-- 
2.43.0


From aec048f9b0cf5ed4bb797cab79cd46f2bff4e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 57/62] fix: every numpy integer given as default to getitem
 leaked a reference to its type

---
 src/pnumpy/common.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 994add1..d79e9c6 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -308,8 +308,12 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
             }
             else {
                 PyArray_Descr* dtype = PyArray_DescrFromScalar(inObject1);
-                //// NOTE: memory leak here?
-                if (dtype->type_num <= NPY_LONGDOUBLE) {
+                if (!dtype) {
+                    return FALSE;
+                }
+                const int scalarType = dtype->type_num;
+                Py_DECREF(dtype);
+                if (scalarType <= NPY_LONGDOUBLE) {
                     if (g_pDescrLongLong == NULL) {
                         g_pDescrLongLong = PyArray_DescrNewFromType(NPY_LONGLONG);
                         g_pDescrULongLong = PyArray_DescrNewFromType(NPY_ULONGLONG);
@@ -325,7 +329,7 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
                 }
                 else {
                     // datetime64 falls into here
-                    LOGGING("!!punting on scalar type is %d\n", dtype->type_num);
+                    LOGGING("!!punting on scalar type is %d\n", scalarType);
                     return FALSE;
                 }
             }
-- 
2.43.0


From 66a0b2fc69c85ca2fa74f992b0bedddb9e10ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 58/62] fix: the module object leaked when numpy could not be
 imported

---
 src/pnumpy/module_init.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/module_init.cpp b/src/pnumpy/module_init.cpp
index d1da675..33c4bd1 100644
--- a/src/pnumpy/module_init.cpp
+++ b/src/pnumpy/module_init.cpp
@@ -108,15 +108,15 @@ static PyModuleDef moduledef = {
 PyMODINIT_FUNC PyInit__pnumpy(void) {
     PyObject *module;
 
+    // Load numpy for PyArray_Type, returns NULL if it cannot be imported
+    import_array();
+    pPyArray_Type = &PyArray_Type;
+
     module = PyModule_Create(&moduledef);
 
     if (module == NULL)
         return NULL;
 
-    // Load numpy for PyArray_Type
-    import_array();
-    pPyArray_Type = &PyArray_Type;
-
     atop_init();
     LedgerInit();
 
-- 
2.43.0


From c9771835345bcb1e53a96e2dfbc8ffa90e5d2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 59/62] fix: oldinit returned a result with an exception
 pending and leaked the ufunc

---
 src/pnumpy/_pnumpy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b6e55ea..704f8e4 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1290,12 +1290,13 @@ PyObject* oldinit(PyObject *self, PyObject *args, PyObject *kwargs) {
     if (ret < 0) {
         PyErr_SetString(PyExc_ValueError, "signature int,int->int not found");
     }
-    if (oldfunc == newfunc) {
+    else if (oldfunc == newfunc) {
         result = PyUnicode_FromString("int32,int32->int32 (repeated initialize)");
     }
     else {
         result = PyUnicode_FromString("int32,int32->int32");
     }
+    Py_DECREF(ufunc);
     return result;
 }
 
-- 
2.43.0


From c2e3bdd493482cc1730bade851311b865ba126e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 60/62] fix: hook_enable and hook_disable returned False with
 an exception pending when memory ran out

---
 src/pnumpy/_pnumpy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 704f8e4..3304f93 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1798,6 +1798,7 @@ PyObject * hook_enable(PyObject * self, PyObject * args) {
             Py_DECREF(pTemp);
             RETURN_TRUE;
         }
+        return NULL;
     }
     RETURN_FALSE;
 }
@@ -1820,6 +1821,7 @@ PyObject * hook_disable(PyObject * self, PyObject * args) {
             Py_DECREF(pTemp);
             RETURN_TRUE;
         }
+        return NULL;
     }
     RETURN_FALSE;
 }
-- 
2.43.0


From 8b5375df82c7b8071d8483df296fc71e76f5cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 61/62] fix: initialize leaked the objects it made and used
 those it could not make

---
 src/pnumpy/_pnumpy.cpp | 83 ++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 3304f93..9ef6df5 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1300,22 +1300,33 @@ PyObject* oldinit(PyObject *self, PyObject *args, PyObject *kwargs) {
     return result;
 }
 
-// Add to global dict of functions we have hooked
-void AddToDict(const char* ufunc_name, int dtype, void* pstUFunc) {
-    // Create a tuple pair of ufuncname/dtype
-    PyObject* pTuple = PyTuple_New(2);
-    PyTuple_SetItem(pTuple, 0, PyUnicode_FromString(ufunc_name));
-    PyTuple_SetItem(pTuple, 1, PyLong_FromLong(dtype));
-    PyDict_SetItem(gpUnaryDict, pTuple, PyLong_FromLongLong((long long)pstUFunc));
+// Create a tuple pair of ufuncname/dtype, returns NULL with an exception set when it cannot be made
+static PyObject* MakeFuncKey(const char* ufunc_name, int dtype) {
+    PyObject* pName = PyUnicode_FromString(ufunc_name);
+    PyObject* pType = PyLong_FromLong(dtype);
+    PyObject* pTuple = (pName && pType) ? PyTuple_Pack(2, pName, pType) : NULL;
+    Py_XDECREF(pName);
+    Py_XDECREF(pType);
+    return pTuple;
 }
 
-// return NULL or pointer to stUFunc
+// Add to global dict of functions we have hooked, returns FALSE with an exception set on failure
+BOOL AddToDict(const char* ufunc_name, int dtype, void* pstUFunc) {
+    PyObject* pTuple = MakeFuncKey(ufunc_name, dtype);
+    PyObject* pValue = PyLong_FromLongLong((long long)pstUFunc);
+    BOOL added = pTuple && pValue && PyDict_SetItem(gpUnaryDict, pTuple, pValue) == 0;
+    Py_XDECREF(pTuple);
+    Py_XDECREF(pValue);
+    return added;
+}
+
+// return NULL or pointer to stUFunc, an exception is set only when the lookup failed
 stUFunc* GetFromDict(const char* ufunc_name, int dtype) {
-    // Create a tuple pair of ufuncname/dtype
     if (gpUnaryDict) {
-        PyObject* pTuple = PyTuple_New(2);
-        PyTuple_SetItem(pTuple, 0, PyUnicode_FromString(ufunc_name));
-        PyTuple_SetItem(pTuple, 1, PyLong_FromLong(dtype));
+        PyObject* pTuple = MakeFuncKey(ufunc_name, dtype);
+        if (!pTuple) {
+            return NULL;
+        }
 
         // borrows a reference
         PyObject* pAnswer=PyDict_GetItem(gpUnaryDict, pTuple);
@@ -1363,19 +1374,29 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
         if (numpy_module == NULL) {
             return NULL;
         }
+        // the module stays loaded and owns everything that is looked up below
+        Py_DECREF(numpy_module);
 
         // call np.setbufsize()
         // note: could be done in __init__
         PyObject* setbufsize = PyObject_GetAttrString(numpy_module, "setbufsize");
         if (setbufsize && PyCallable_Check(setbufsize)) {
-            PyObject* buffersize = PyTuple_New(1);
-            PyTuple_SetItem(buffersize, 0, PyLong_FromLongLong(8192 * 1024));
-            PyObject_CallObject(setbufsize, buffersize);
+            PyObject* buffersize = PyLong_FromLongLong(8192 * 1024);
+            PyObject* arguments = buffersize ? PyTuple_Pack(1, buffersize) : NULL;
+            PyObject* previous = arguments ? PyObject_CallObject(setbufsize, arguments) : NULL;
+            Py_XDECREF(previous);
+            Py_XDECREF(arguments);
             Py_XDECREF(buffersize);
         }
+        Py_XDECREF(setbufsize);
+        // the functions work with any buffer size
+        PyErr_Clear();
 
         // Keep track of all the routines/dtypes we hook
         gpUnaryDict = PyDict_New();
+        if (gpUnaryDict == NULL) {
+            return NULL;
+        }
 
         // Loop over all binary ufuncs we want to replace
         int64_t num_ufuncs = sizeof(gBinaryMapping) / sizeof(stUFuncToAtop);
@@ -1388,9 +1409,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
             ufunc = PyObject_GetAttrString(numpy_module, ufunc_name);
 
             if (ufunc == NULL) {
-                Py_XDECREF(ufunc);
                 return PyErr_Format(PyExc_TypeError, "func %s must be the name of a ufunc", ufunc_name);
             }
+            Py_DECREF(ufunc);
 
             //printf("taking over func %s\n", ufunc_name);
             // true_divide, floor_divide, power, remainder  need work
@@ -1432,7 +1453,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
                     pstUFunc->pBinaryFunc = pBinaryFunc;
                     pstUFunc->pReduceFunc = pReduceFunc;
                     pstUFunc->MaxThreads = 3;
-                    AddToDict(ufunc_name, dtype, pstUFunc);
+                    if (!AddToDict(ufunc_name, dtype, pstUFunc)) {
+                        return NULL;
+                    }
                 }
                 else {
                     LOGGING("rejected ufunc_name:%s  dtype:%d\n", ufunc_name, signature[0]);
@@ -1451,9 +1474,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
             ufunc = PyObject_GetAttrString(numpy_module, ufunc_name);
 
             if (ufunc == NULL) {
-                Py_XDECREF(ufunc);
                 return PyErr_Format(PyExc_TypeError, "func %s must be the name of a ufunc", ufunc_name);
             }
+            Py_DECREF(ufunc);
 
             // Loop over all dtypes we support for the ufunc
             int64_t num_dtypes = sizeof(dtypes) / sizeof(int);
@@ -1488,7 +1511,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
                 pstUFunc->pOldFunc = oldFunc;
                 pstUFunc->pBinaryFunc = pBinaryFunc;
                 pstUFunc->MaxThreads = 3;
-                AddToDict(ufunc_name, dtype, pstUFunc);
+                if (!AddToDict(ufunc_name, dtype, pstUFunc)) {
+                    return NULL;
+                }
             }
         }
 
@@ -1503,9 +1528,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
             ufunc = PyObject_GetAttrString(numpy_module, ufunc_name);
 
             if (ufunc == NULL) {
-                Py_XDECREF(ufunc);
                 return PyErr_Format(PyExc_TypeError, "func %s must be the name of a ufunc", ufunc_name);
             }
+            Py_DECREF(ufunc);
 
             // Loop over all dtypes we support for the ufunc
             int64_t num_dtypes = sizeof(dtypes) / sizeof(int);
@@ -1543,7 +1568,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
                     pstUFunc->pOldFunc = oldFunc;
                     pstUFunc->pUnaryFunc = pUnaryFunc;
                     pstUFunc->MaxThreads = 3;
-                    AddToDict(ufunc_name, dtype, pstUFunc);
+                    if (!AddToDict(ufunc_name, dtype, pstUFunc)) {
+                        return NULL;
+                    }
                 }
             }
         }
@@ -1561,9 +1588,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
             ufunc = PyObject_GetAttrString(numpy_module, ufunc_name);
 
             if (ufunc == NULL) {
-                Py_XDECREF(ufunc);
                 return PyErr_Format(PyExc_TypeError, "func %s must be the name of a ufunc", ufunc_name);
             }
+            Py_DECREF(ufunc);
 
             // Loop over all dtypes we support for the ufunc
             int64_t num_dtypes = sizeof(trig_dtypes) / sizeof(int);
@@ -1603,7 +1630,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
                 // NULL allowed here, it will use the default
                 pstUFunc->pUnaryFunc = pUnaryFunc;
                 pstUFunc->MaxThreads = 7;
-                AddToDict(ufunc_name, dtype, pstUFunc);
+                if (!AddToDict(ufunc_name, dtype, pstUFunc)) {
+                    return NULL;
+                }
             }
         }
 
@@ -1616,6 +1645,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
 
             // Allocate an array of 10
             PyArrayObject* pTemp=  AllocateNumpyArray(1, dims, srcdtype);
+            if (pTemp == NULL) {
+                return NULL;
+            }
             PyArray_Descr* pSrcDtype = PyArray_DESCR(pTemp);
 
             if (pSrcDtype) {
@@ -1722,10 +1754,7 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
                 //    }
                 //}
             }
-            //Py_DECREF(pSrcDtype);            
-            //Py_DECREF(pTemp);
-            //
-
+            Py_DECREF(pTemp);
         }
         RETURN_NONE;
     }
-- 
2.43.0


From 3f4c2f07103a3f53069d9fe5d215de13c8e2b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 62/62] fix: atop_info leaked six numbers per call and failed
 without an exception before initialize

---
 src/pnumpy/_pnumpy.cpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 9ef6df5..ab79d31 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1876,6 +1876,14 @@ PyObject* atop_isenabled(PyObject* self, PyObject* args) {
     RETURN_FALSE;
 }
 
+// Set a number in a dict, returns FALSE with an exception set on failure
+static BOOL SetDictNumber(PyObject* pDict, const char* name, long long value) {
+    PyObject* pNumber = PyLong_FromLongLong(value);
+    BOOL stored = pNumber && PyDict_SetItemString(pDict, name, pNumber) == 0;
+    Py_XDECREF(pNumber);
+    return stored;
+}
+
 extern "C"
 // Takes 0 params
 // or takes 2 params: string func name, dtype num
@@ -1888,6 +1896,10 @@ PyObject * atop_info(PyObject * self, PyObject * args) {
 
         // If no params passed, just return the dict
         if (PyTuple_Size(args) == 0) {
+            if (gpUnaryDict == NULL) {
+                // nothing is hooked before initialize
+                return PyDict_New();
+            }
             Py_IncRef(gpUnaryDict);
             return gpUnaryDict;
         }
@@ -1897,13 +1909,20 @@ PyObject * atop_info(PyObject * self, PyObject * args) {
         stUFunc* pstUFunc= GetFromDict(uname, dtype);
         if (pstUFunc) {
             PyObject* pUnaryDict = PyDict_New();
-            PyDict_SetItemString(pUnaryDict, "MaxThreads",PyLong_FromLong(pstUFunc->MaxThreads));
-            PyDict_SetItemString(pUnaryDict, "MinElementsToThread", PyLong_FromLong(pstUFunc->MinElementsToThread));
-            PyDict_SetItemString(pUnaryDict, "pBinaryFunc", PyLong_FromLongLong((long long)(pstUFunc->pBinaryFunc)));
-            PyDict_SetItemString(pUnaryDict, "pOldFunc", PyLong_FromLongLong((long long)(pstUFunc->pOldFunc)));
-            PyDict_SetItemString(pUnaryDict, "pReduceFunc", PyLong_FromLongLong((long long)(pstUFunc->pReduceFunc)));
-            PyDict_SetItemString(pUnaryDict, "pUnaryFunc", PyLong_FromLongLong((long long)(pstUFunc->pUnaryFunc)));
-            return pUnaryDict;
+            if (pUnaryDict &&
+                SetDictNumber(pUnaryDict, "MaxThreads", pstUFunc->MaxThreads) &&
+                SetDictNumber(pUnaryDict, "MinElementsToThread", pstUFunc->MinElementsToThread) &&
+                SetDictNumber(pUnaryDict, "pBinaryFunc", (long long)(pstUFunc->pBinaryFunc)) &&
+                SetDictNumber(pUnaryDict, "pOldFunc", (long long)(pstUFunc->pOldFunc)) &&
+                SetDictNumber(pUnaryDict, "pReduceFunc", (long long)(pstUFunc->pReduceFunc)) &&
+                SetDictNumber(pUnaryDict, "pUnaryFunc", (long long)(pstUFunc->pUnaryFunc))) {
+                return pUnaryDict;
+            }
+            Py_XDECREF(pUnaryDict);
+            return NULL;
+        }
+        if (PyErr_Occurred()) {
+            return NULL;
         }
 
     }
@@ -1933,6 +1952,9 @@ PyObject * atop_setworkers(PyObject * self, PyObject * args) {
                 return PyLong_FromLong(prevVal);
             }
         }
+        if (PyErr_Occurred()) {
+            return NULL;
+        }
 
     }
     RETURN_FALSE;
-- 
2.43.0

