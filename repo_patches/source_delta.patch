From bcfe2198edca59c23c6be2d384c8a56dd567592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 01/25] fix: vst4_u8 and vst4_u32 store the fourth structure
 element at index 3

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0e015e7..74eb61e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1112,7 +1112,7 @@ void vst4_u8(uint8_t* ptr, uint8x8x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 4] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 void vst4_u16(uint16_t* ptr, uint16x4x4_t val)
@@ -1132,7 +1132,7 @@ void vst4_u32(uint32_t* ptr, uint32x2x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 2] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 
-- 
2.43.0


From 60e819b8bdca0334e3a4d3c292b58ec204eea61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 02/25] fix: vrev32_s8, vrev64q_s8, vrev64q_s16 loop over
 exactly the lanes of the vector

---
 neon_sim.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 74eb61e..424e217 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5666,7 +5666,7 @@ uint8x16_t vrev16q_u8(uint8x16_t vec)
 int8x8_t vrev32_s8(int8x8_t vec)
 {
     int8x8_t r;
-    for (int i = 0; i < 16; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
@@ -5858,7 +5858,7 @@ float32x2_t vrev64_f32(float32x2_t vec)
 int8x16_t vrev64q_s8(int8x16_t vec)
 {
     int8x16_t r;
-    for (int i = 0; i < 8; i += 8)
+    for (int i = 0; i < 16; i += 8)
     {
         r.val[i + 0] = vec.val[i + 7];
         r.val[i + 1] = vec.val[i + 6];
@@ -5875,7 +5875,7 @@ int8x16_t vrev64q_s8(int8x16_t vec)
 int16x8_t vrev64q_s16(int16x8_t vec)
 {
     int16x8_t r;
-    for (int i = 0; i < 4; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 9fdd9fe81ebfdd5da17dfa6175e91e20858b40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 03/25] fix: vqshrun_n_s32 and vqshrun_n_s64 store their result
 and do not round

---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 424e217..7f10154 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3899,7 +3899,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        int32_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int32_t temp = v.val[i] >> n;
         if (temp > UINT16_MAX)
         {
             temp = UINT16_MAX;
@@ -3908,6 +3908,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
@@ -3923,7 +3924,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        int64_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int64_t temp = v.val[i] >> n;
         if (temp > UINT32_MAX)
         {
             temp = UINT32_MAX;
@@ -3932,6 +3933,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
-- 
2.43.0


From 17d93609b4d3291b14b9dee83bacea53570131ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 04/25] fix: vqtbl1_u8 yields 0 for an index outside the table

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7f10154..16e1038 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4737,7 +4737,7 @@ uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx)
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
-        r.val[i] =  t.val[idx.val[i]];
+        r.val[i] =  idx.val[i] < 16 ? t.val[idx.val[i]] : 0;
     }
     return r;
 }
-- 
2.43.0


From 4353b846884b6dab3fa455af0971ab1d571503ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 05/25] fix: define vld2_s32, veor_u32, vsub_f64 and vsubhn_*
 under their declared names

---
 neon_sim.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 16e1038..4c16b32 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -233,7 +233,7 @@ uint32x2x2_t vld2_u32(uint32_t const* ptr)
     }
     return r;
 }
-int32x2x2_t vld_s32(int32_t const* ptr)
+int32x2x2_t vld2_s32(int32_t const* ptr)
 {
     int32x2x2_t r;
     for (int i = 0; i < 2; i++)
@@ -1869,7 +1869,7 @@ float32x2_t vsub_f32(float32x2_t N, float32x2_t M)
     return D;
 }
 
-float64x1_t vsub_f32(float64x1_t N, float64x1_t M)
+float64x1_t vsub_f64(float64x1_t N, float64x1_t M)
 {
     float64x1_t D;
     for (size_t i = 0; i < 1; i++)
@@ -1974,7 +1974,7 @@ int8x8_t vsubhn_s16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int16x4_t vsubn_s32(int32x4_t N, int32x4_t M)
+int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
 {
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
@@ -1984,7 +1984,7 @@ int16x4_t vsubn_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int32x2_t vsubn_s64(int64x2_t N, int64x2_t M)
+int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -2004,7 +2004,7 @@ uint8x8_t vsubhn_u16(uint16x8_t N, uint16x8_t M)
     return D;
 }
 
-uint16x4_t vsubn_u32(uint32x4_t N, uint32x4_t M)
+uint16x4_t vsubhn_u32(uint32x4_t N, uint32x4_t M)
 {
     uint16x4_t D;
     for (size_t i = 0; i < 4; i++)
@@ -2014,7 +2014,7 @@ uint16x4_t vsubn_u32(uint32x4_t N, uint32x4_t M)
     return D;
 }
 
-uint32x2_t vsubn_u64(uint64x2_t N, uint64x2_t M)
+uint32x2_t vsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -5319,7 +5319,7 @@ uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b)
     return r;
 }
 
-uint32x2_t ver_u32(uint32x2_t a, uint32x2_t b)
+uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b)
 {
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 5f0d9d92c74beb1501e8e22c0569ed6af26ea136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 06/25] fix: vmaxq_u* and vminq_u* take and return the declared
 unsigned vectors

---
 neon_sim.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 4c16b32..8c525c5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1239,9 +1239,9 @@ int32x4_t vmaxq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vmaxq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1249,9 +1249,9 @@ int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vmaxq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1259,9 +1259,9 @@ int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vmaxq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -3683,9 +3683,9 @@ int32x4_t vminq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vminq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3693,9 +3693,9 @@ int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vminq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3703,9 +3703,9 @@ int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vminq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vminq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
-- 
2.43.0


From 3a9ffb37d4203f312e5455afaa9fcb80dd52541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 07/25] fix: vaddhn_high_* and vsubhn_* of 32 and 64 bit lanes
 take the high half

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8c525c5..0cc2e0c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1513,7 +1513,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1523,7 +1523,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 
@@ -1543,7 +1543,7 @@ uint16x8_t vaddhn_high_u32(uint16x4_t r, uint32x4_t a, uint32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1553,7 +1553,7 @@ uint32x4_t vaddhn_high_u64(uint32x2_t r, uint64x2_t a, uint64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 #endif // __aarch64__
@@ -1979,7 +1979,7 @@ int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
@@ -1989,7 +1989,7 @@ int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
@@ -2009,7 +2009,7 @@ uint16x4_t vsubhn_u32(uint32x4_t N, uint32x4_t M)
     uint16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
@@ -2019,7 +2019,7 @@ uint32x2_t vsubhn_u64(uint64x2_t N, uint64x2_t M)
     uint32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
-- 
2.43.0


From c5c99db9cd863978c77da50b26ca06c2468d0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 08/25] fix: widening add and multiply of 32 bit lanes compute
 in 64 bits

---
 neon_sim.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0cc2e0c..87deb27 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1697,7 +1697,7 @@ int64x2_t vaddl_high_s32(int32x4_t a, int32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (int64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1730,7 +1730,7 @@ uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
@@ -2971,7 +2971,7 @@ uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b)
     uint64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2999,7 +2999,7 @@ int64x2_t vmull_s32(int32x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (int64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3020,7 +3020,7 @@ int64x2_t vmull_n_s32(int32x2_t N, int32_t M)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (int64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3040,7 +3040,7 @@ uint64x2_t vmull_n_u32(uint32x2_t N, uint32_t M)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3090,7 +3090,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3120,7 +3120,7 @@ uint64x2_t vmlal_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3151,7 +3151,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3181,7 +3181,7 @@ uint64x2_t vmlsl_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 1f570fa751f8bf1b3a46425d31c19d2a47c300b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 09/25] fix: vhsub of 32 bit lanes keeps the carry

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 87deb27..7bbe9be 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2050,7 +2050,7 @@ int32x2_t vhsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2080,7 +2080,7 @@ uint32x2_t vhsub_u32(uint32x2_t N, uint32x2_t M)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2111,7 +2111,7 @@ int32x4_t vhsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2141,7 +2141,7 @@ uint32x4_t vhsubq_u32(uint32x4_t N, uint32x4_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
-- 
2.43.0


From fd48568687f146e98586b97900bd2f6f3847fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 10/25] fix: vrsubhn_s64 and vrsubhn_u64 add the rounding
 constant 2^31

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7bbe9be..52c0721 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2650,7 +2650,7 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     const int64_t shift = 32;
-    const int64_t delta = (1 << (shift - 1));
+    const int64_t delta = (1LL << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
@@ -2686,7 +2686,7 @@ uint32x2_t vrsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     const uint64_t shift = 32;
-    const uint64_t delta = (1 << (shift - 1));
+    const uint64_t delta = (1ULL << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
-- 
2.43.0


From 80506aea739d8a6c09940526e0b52ad3e0886184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 11/25] fix: vqsub of 64 bit lanes is exact instead of rounding
 through double

---
 neon_sim.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 52c0721..e923c33 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2218,18 +2218,17 @@ int64x1_t vqsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2428,18 +2427,13 @@ uint64x1_t vqsub_u64(uint64x1_t N, uint64x1_t M)
     uint64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2517,18 +2511,17 @@ int64x2_t vqsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2605,18 +2598,13 @@ uint64x2_t vqsubq_u64(uint64x2_t N, uint64x2_t M)
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
-- 
2.43.0


From 805ac061214f9d389cf9ab747fd276da0d01c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 12/25] fix: vqshrn_n_s64 saturates before it narrows

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index e923c33..7262e52 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -6013,7 +6013,7 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  std::min<int32_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
+        r.val[i] =  std::min<int64_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
     }
     return r;
 }
-- 
2.43.0


From 7f53fe70a4d40fb80d16b9228a8fb327063089f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 13/25] fix: vsraq_n_s32 shifts only the second operand, by up
 to 32

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7262e52..2b1e029 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3966,7 +3966,7 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  (a.val[i] >> n) + (b.val[i] >> n);
+        r.val[i] =  a.val[i] + ((int64_t)b.val[i] >> n);
     }
     return r;
 }
-- 
2.43.0


From 36afb99c17bce62d95d51bccb8715ed20f659bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 14/25] fix: immediate ranges of vshr_n_u16, vext_u8 and
 vextq_u16

---
 neon_sim.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 2b1e029..4d4c509 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3757,9 +3757,9 @@ int8x8_t vshrn_n_s16(int16x8_t a, const int n)
 
 uint16x4_t vshr_n_u16(uint16x4_t v, const int n)
 {
-    if (n < 1 || n > 8)
+    if (n < 1 || n > 16)
     {
-        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
         abort();
     }
 
@@ -4735,9 +4735,9 @@ uint8x8_t vext_u8(uint8x8_t a, uint8x8_t b, const int n)
 {
     uint8x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
@@ -4796,9 +4796,9 @@ uint16x8_t vextq_u16(uint16x8_t a, uint16x8_t b, const int n)
 {
     uint16x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
-- 
2.43.0


From 5bb43d096b993d401363a20a272dd46e81f8d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 15/25] fix: reject lane indices out of range in vget(q)_lane,
 vld1_lane and vst4q_lane

---
 neon_sim.cpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 4d4c509..141ea98 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -637,6 +637,11 @@ float32x4_t vld1q_dup_f32(float32_t const* ptr)
 
 int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -648,6 +653,11 @@ int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 
 uint8x8_t vld1_lane_u8(uint8_t const* ptr, uint8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -1202,6 +1212,11 @@ void vst4q_u32(uint32_t* ptr, uint32x4x4_t val)
 // vst4q_lane
 void vst4q_lane_f32(float32_t* ptr, float32x4x4_t val, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     for (int i = 0; i < 4; i++)
     {
         ptr[i] = val.val[i].val[lane];
@@ -3581,6 +3596,11 @@ float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 
 float32_t vget_lane_f32(float32x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
@@ -3597,46 +3617,91 @@ float32_t vgetq_lane_f32(float32x4_t v, int lane)
 // vgetq_lane_type
 uint8_t vgetq_lane_u8(uint8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint16_t vgetq_lane_u16(uint16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint32_t vgetq_lane_u32(uint32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint64_t vgetq_lane_u64(uint64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int8_t vgetq_lane_s8(int8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int16_t vgetq_lane_s16(int16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int32_t vgetq_lane_s32(int32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int64_t vgetq_lane_s64(int64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 float64_t vgetq_lane_f64(float64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
-- 
2.43.0


From 01240efa693dc69fbcdc9682a2d6932c77862cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 16/25] fix: reject shift distances out of range in vqshrn_n,
 vrshrn_n, vsraq_n, vshlq_n, vshll_n

---
 neon_sim.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 141ea98..a51a80c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4017,6 +4017,11 @@ uint8x8_t vqrshrun_n_s16(int16x8_t v, const int n)
 
 uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     const int delta = (1 << (n - 1));
     for (int i = 0; i < 8; i++)
@@ -4028,6 +4033,11 @@ uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 
 int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -4039,6 +4049,11 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 // shift left
 int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 {
+    if (n < 0 || n > 31)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 31]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
@@ -4049,6 +4064,11 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 
 uint16x8_t vshll_n_u8(uint8x8_t a, const int n)
 {
+    if (n < 0 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint16x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6055,6 +6075,11 @@ float64x2_t vdivq_f64(float64x2_t a, float64x2_t b)
 // saturated shift right and narrow
 int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6065,6 +6090,11 @@ int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 
 int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     int16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6075,6 +6105,11 @@ int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 
 int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
@@ -6085,6 +6120,11 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 
 uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6095,6 +6135,11 @@ uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 
 uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     uint16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6105,6 +6150,11 @@ uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 
 uint32x2_t vqshrn_n_u64(uint64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-- 
2.43.0


From f2ddd381d01e9a109163a86d709a83add4717fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 17/25] fix: vbslq_f32 selects bit by bit

---
 neon_sim.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a51a80c..b7b2f17 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3798,7 +3798,11 @@ float32x4_t vbslq_f32(uint32x4_t mask, float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  mask.val[i] ? a.val[i] : b.val[i];
+        uint32_t x, y;
+        memcpy(&x, &a.val[i], sizeof(float));
+        memcpy(&y, &b.val[i], sizeof(float));
+        x = (mask.val[i] & x) | (~mask.val[i] & y);
+        memcpy(&r.val[i], &x, sizeof(float));
     }
     return r;
 }
-- 
2.43.0


From 9b575c579829b59d66a975ec0339fd83f8bd4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 18/25] fix: floating-point max and min propagate NaN and order
 signed zeros

---
 neon_sim.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b7b2f17..4232f88 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -7,6 +7,7 @@
 #include <math.h>
 
 #include <algorithm>
+#include <cmath>
 #include <string>
 
 ////// Load
@@ -1284,12 +1285,37 @@ uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
     return D;
 }
 
+// NaN when either operand is NaN; +0 is above -0
+static float fp_max(float a, float b)
+{
+    if (std::isnan(a) || std::isnan(b))
+    {
+        return a + b;
+    }
+    if (a == b)
+    {
+        return std::signbit(a) ? b : a;
+    }
+    return a > b ? a : b;
+}
+static float fp_min(float a, float b)
+{
+    if (std::isnan(a) || std::isnan(b))
+    {
+        return a + b;
+    }
+    if (a == b)
+    {
+        return std::signbit(a) ? a : b;
+    }
+    return a < b ? a : b;
+}
 float32x4_t vmaxq_f32(float32x4_t N, float32x4_t M)
 {
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = fp_max(N.val[i], M.val[i]);
     }
     return D;
 }
@@ -3581,16 +3607,16 @@ uint8x8_t vget_high_u8(uint8x16_t a)
 float32x2_t vpmax_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] > a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] > b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = fp_max(a.val[0], a.val[1]);
+    r.val[1] = fp_max(b.val[0], b.val[1]);
     return r;
 }
 
 float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] < a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] < b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = fp_min(a.val[0], a.val[1]);
+    r.val[1] = fp_min(b.val[0], b.val[1]);
     return r;
 }
 
@@ -3771,7 +3797,7 @@ float32x4_t vminq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = fp_min(N.val[i], M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From be45121b8243d842ebb2cb1dd1be45393ede578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 19/25] fix: float to integer conversions saturate, and vcvtnq
 rounds to nearest

---
 neon_sim.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 4232f88..68722b8 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4330,12 +4330,34 @@ float32x4_t vcvtq_f32_s32(int32x4_t a)
     return r;
 }
 
+// toward zero, saturating, NaN gives 0
+static int32_t f32_to_s32(float v)
+{
+    if (v >= 2147483648.0f)
+    {
+        return INT32_MAX;
+    }
+    if (v >= -2147483648.0f)
+    {
+        return (int32_t)v;
+    }
+    return v < 0 ? INT32_MIN : 0;
+}
+static uint32_t f32_to_u32(float v)
+{
+    if (v >= 4294967296.0f)
+    {
+        return UINT32_MAX;
+    }
+    return v > 0 ? (uint32_t)v : 0;
+}
+
 int32x4_t vcvtq_s32_f32(float32x4_t a)
 {
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_s32(a.val[i]);
     }
     return r;
 }
@@ -4345,7 +4367,7 @@ uint32x4_t vcvtq_u32_f32(float32x4_t a)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_u32(a.val[i]);
     }
     return r;
 }
@@ -4355,7 +4377,7 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_s32(rintf(a.val[i]));
     }
     return r;
 }
-- 
2.43.0


From cd5f004f74dcdb5701bcfe5911aaff4a1a14b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 20/25] fix: vrecpeq_f32 of zero, infinity, NaN, subnormal and
 very large operands

---
 neon_sim.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 68722b8..2c1eb59 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4420,10 +4420,37 @@ uint32_t RecipEstimate(uint32_t a)
 float FPRecipEstimate(float operand)
 {
     float_parts parts{operand};
-    parts.exp = 253 - parts.exp;
+    if (operand != operand)
+    {
+        return operand + operand;
+    }
+    int exp = parts.exp;
+    if (exp == 255) // infinity
+    {
+        parts.exp = parts.fraction = 0;
+        return float(parts);
+    }
+    if (exp == 0)
+    {
+        if (parts.fraction < (1 << 21)) // zero, or the reciprocal overflows
+        {
+            parts.exp = 255;
+            parts.fraction = 0;
+            return float(parts);
+        }
+        exp = parts.fraction < (1 << 22) ? -1 : 0;
+        parts.fraction <<= 1 - exp;
+    }
+    exp = 253 - exp;
     uint32_t scaled = 0x100 | ((parts.fraction >> 15) & 0xFF);
     uint32_t estimate = RecipEstimate(scaled);
     parts.fraction = (estimate & 0xff) << 15;
+    if (exp <= 0) // subnormal result
+    {
+        parts.fraction = ((1 << 23) | parts.fraction) >> (1 - exp);
+        exp = 0;
+    }
+    parts.exp = exp;
     return float(parts);
 }
 
-- 
2.43.0


From 3d538ea0c3e9edf335723a42939c72aecf1128a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 21/25] fix: vrecpsq_f32 is fused and yields 2 for infinity
 times zero

---
 neon_sim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 2c1eb59..6aa1ee0 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4500,7 +4500,8 @@ float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  2.0 - (a.val[i] * b.val[i]);
+        bool inf_zero = (std::isinf(a.val[i]) && b.val[i] == 0) || (a.val[i] == 0 && std::isinf(b.val[i]));
+        r.val[i] =  inf_zero ? 2.0f : fmaf(-a.val[i], b.val[i], 2.0f);
     }
     return r;
 }
-- 
2.43.0


From 14ec16a5e5f4b1553d7e0ca45f3e6abdb5f59be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 22/25] fix: signed overflow in additions and subtractions of
 32 and 64 bit lanes

---
 neon_sim.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 6aa1ee0..0248fa3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1348,7 +1348,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + M.val[i];
     }
     return D;
 }
@@ -1356,7 +1356,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
 int64x1_t vadd_s64(int64x1_t N, int64x1_t M)
 {
     int64x1_t D;
-    D.val[0] = N.val[0] + M.val[0];
+    D.val[0] = (uint64_t)N.val[0] + M.val[0];
     return D;
 }
 
@@ -1423,7 +1423,7 @@ int32x4_t vaddw_s16(int32x4_t a, int16x4_t b)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] = (uint32_t)a.val[i] + b.val[i];
     }
     return r;
 }
@@ -1433,7 +1433,7 @@ int64x2_t vaddw_s32(int64x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] = (uint64_t)a.val[i] + b.val[i];
     }
     return r;
 }
@@ -1486,7 +1486,7 @@ int32x4_t vaddw_high_s16(int32x4_t a, int16x8_t b)
     const int ofs = 4;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] = (uint32_t)a.val[i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1497,7 +1497,7 @@ int64x2_t vaddw_high_s32(int64x2_t a, int32x4_t b)
     const int ofs = 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] = (uint64_t)a.val[i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1554,7 +1554,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 16);
+        ret.val[i + 4] = (int16_t)(((uint32_t)a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1564,7 +1564,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 32);
+        ret.val[i + 2] = (int32_t)(((uint64_t)a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 
@@ -1626,7 +1626,7 @@ int32x4_t vaddq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + M.val[i];
     }
     return D;
 }
@@ -1636,7 +1636,7 @@ int64x2_t vaddq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint64_t)N.val[i] + M.val[i];
     }
     return D;
 }
@@ -1850,7 +1850,7 @@ int32x2_t vsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - M.val[i];
     }
     return D;
 }
@@ -1859,7 +1859,7 @@ int64x1_t vsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - M.val[i];
     }
     return D;
 }
@@ -1944,7 +1944,7 @@ int32x4_t vsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - M.val[i];
     }
     return D;
 }
@@ -1953,7 +1953,7 @@ int64x2_t vsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - M.val[i];
     }
     return D;
 }
@@ -2020,7 +2020,7 @@ int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 16;
+        D.val[i] = ((uint32_t)N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
@@ -2030,7 +2030,7 @@ int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 32;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
@@ -2352,7 +2352,7 @@ int32x4_t vsubw_s16(int32x4_t N, int16x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (int32_t)(M.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (int32_t)(M.val[i]);
     }
     return D;
 }
@@ -2362,7 +2362,7 @@ int64x2_t vsubw_s32(int64x2_t N, int32x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (int64_t)(M.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (int64_t)(M.val[i]);
     }
     return D;
 }
@@ -2670,7 +2670,7 @@ int16x4_t vrsubhn_s32(int32x4_t N, int32x4_t M)
     const int32_t delta = (1 << (shift - 1));
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint32_t)N.val[i] - M.val[i] + delta) >> shift;
     }
     return D;
 }
@@ -2682,7 +2682,7 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
     const int64_t delta = (1LL << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i] + delta) >> shift;
     }
     return D;
 }
-- 
2.43.0


From 87d198b149cdbac9dc766970dc8705450a0310da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 23/25] fix: signed overflow in multiplications of s32 and u16
 lanes

---
 neon_sim.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0248fa3..7ac570d 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2749,7 +2749,7 @@ int32x2_t vmul_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2769,7 +2769,7 @@ uint16x4_t vmul_u16(uint16x4_t N, uint16x4_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2808,7 +2808,7 @@ int32x4_t vmulq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2826,7 +2826,7 @@ uint16x8_t vmulq_u16(uint16x8_t N, uint16x8_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2866,7 +2866,7 @@ int32x2_t vmul_n_s32(int32x2_t N, int32_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2876,7 +2876,7 @@ uint16x4_t vmul_n_u16(uint16x4_t N, uint16_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2929,7 +2929,7 @@ int32x4_t vmulq_n_s32(int32x4_t N, int32_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2939,7 +2939,7 @@ uint16x8_t vmulq_n_u16(uint16x8_t N, uint16_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2991,7 +2991,7 @@ uint32x4_t vmull_u16(uint16x4_t a, uint16x4_t b)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] = (uint32_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3059,7 +3059,7 @@ uint32x4_t vmull_n_u16(uint16x4_t N, uint16_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
-- 
2.43.0


From 9f6c241bba78de49457e7593888531cb49987392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:58 +0000
Subject: [PATCH 24/25] fix: signed overflow in multiply-accumulate of s16, u16
 and s32 lanes

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7ac570d..41fd90f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3109,7 +3109,7 @@ int32x4_t vmlal_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] + (M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3119,7 +3119,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + ((int64_t)M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] + ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3139,7 +3139,7 @@ uint32x4_t vmlal_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3170,7 +3170,7 @@ int32x4_t vmlsl_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3180,7 +3180,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - ((int64_t)M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3200,7 +3200,7 @@ uint32x4_t vmlsl_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3241,7 +3241,7 @@ int32x4_t vmlaq_s32(int32x4_t N, int32x4_t M, int32x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = N.val[i] + (uint32_t)M.val[i] * P.val[i];
     }
     return D;
 }
@@ -3261,7 +3261,7 @@ uint16x8_t vmlaq_u16(uint16x8_t N, uint16x8_t M, uint16x8_t P)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = N.val[i] + (uint32_t)M.val[i] * P.val[i];
     }
     return D;
 }
-- 
2.43.0


From 3c904be16d6f284db7d05fa3490da9f4b795f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 25/25] fix: vsubl_s32 and vsubl_u32 take the declared two-lane
 operands

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 41fd90f..a67aac9 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2296,7 +2296,7 @@ int32x4_t vsubl_s16(int16x4_t N, int16x4_t M)
     return D;
 }
 
-int64x2_t vsubl_s32(int32x4_t N, int32x2_t M)
+int64x2_t vsubl_s32(int32x2_t N, int32x2_t M)
 {
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -2326,7 +2326,7 @@ uint32x4_t vsubl_u16(uint16x4_t N, uint16x4_t M)
     return D;
 }
 
-uint64x2_t vsubl_u32(uint32x4_t N, uint32x2_t M)
+uint64x2_t vsubl_u32(uint32x2_t N, uint32x2_t M)
 {
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
-- 
2.43.0

