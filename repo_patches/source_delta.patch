From a71658d0133794a382708398d95bcf712c5a9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 01/19] fix: saturating_downcast lane order on AVX2 and
 clamping of unsigned inputs

---
 src/arch/x86/intrin/downcast.rs | 43 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 55c4686..e928cdd 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -9,6 +9,7 @@ use crate::arch::current::vecs::*;
 use crate::vecs::*;
 use crate::vektor::x86_64::*;
 use crate::vektor::x86::*;
+use crate::intrin::cmp::Cmp;
 use crate::intrin::downcast::*;
 use crate::intrin::transmute::*;
 use crate::core::mem::transmute;
@@ -52,9 +53,9 @@ impl Downcast<u32x4> for u64x2 {
     fn saturating_downcast(self, other: Self) -> u32x4 {
         fallback!();
         u32x4::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32)
+                   self.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32)
     }
 }
 
@@ -105,7 +106,9 @@ impl Downcast<u16x8> for u32x4 {
     #[cfg(target_feature = "sse4.1")]
     fn saturating_downcast(self, other: Self) -> u16x8 {
         optimized!();
-        unsafe { transmute(_mm_packus_epi32(transmute(self), transmute(other))) }
+        // packus treats its inputs as signed, so they must be clamped first
+        let max = Self::splat(0x0000FFFF);
+        unsafe { transmute(_mm_packus_epi32(transmute(Cmp::min(&self, max)), transmute(Cmp::min(&other, max)))) }
     }
 
     #[inline(always)]
@@ -128,7 +131,9 @@ impl Downcast<u8x16> for u16x8 {
     #[cfg(target_feature = "sse2")]
     fn saturating_downcast(self, other: Self) -> u8x16 {
         optimized!();
-        unsafe { _mm_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // packus treats its inputs as signed, so they must be clamped first
+        let max = Self::splat(0x00FF);
+        unsafe { _mm_packus_epi16(Cmp::min(&self, max).be_i16s(), Cmp::min(&other, max).be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
@@ -159,7 +164,8 @@ impl Downcast<i16x16> for i32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i16x16 {
         optimized!();
-        unsafe { _mm256_packs_epi32(self, other) }
+        // packs works within 128-bit lanes
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi32(self, other).be_i64s(), 0xD8).be_i16s() }
     }
 
     #[inline(always)]
@@ -190,7 +196,8 @@ impl Downcast<i8x32> for i16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i8x32 {
         optimized!();
-        unsafe { _mm256_packs_epi16(self.be_i16s(), other) }
+        // packs works within 128-bit lanes
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi16(self.be_i16s(), other).be_i64s(), 0xD8).be_i8s() }
     }
 
     #[inline(always)]
@@ -237,7 +244,10 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
-        unsafe { transmute(_mm256_packus_epi32(transmute(self), transmute(other))) }
+        // packus works within 128-bit lanes, and treats its inputs as signed
+        let max = Self::splat(0x0000FFFF);
+        let x: i64x4 = unsafe { transmute(_mm256_packus_epi32(transmute(Cmp::min(&self, max)), transmute(Cmp::min(&other, max)))) };
+        unsafe { _mm256_permute4x64_epi64(x, 0xD8).be_u16s() }
     }
 
     #[inline(always)]
@@ -268,7 +278,10 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
-        unsafe { _mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // packus works within 128-bit lanes, and treats its inputs as signed
+        let max = Self::splat(0x00FF);
+        let x = unsafe { _mm256_packus_epi16(Cmp::min(&self, max).be_i16s(), Cmp::min(&other, max).be_i16s()).be_i64s() };
+        unsafe { _mm256_permute4x64_epi64(x, 0xD8).be_u8s() }
     }
 
     #[inline(always)]
@@ -330,13 +343,13 @@ impl Downcast<u32x8> for u64x4 {
     fn saturating_downcast(self, other: Self) -> u32x8 {
         fallback!();
         u32x8::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
+                   self.extract(1).min(0xFFFFFFFF) as u32,
                    self.extract(2).min(0xFFFFFFFF) as u32,
-                   self.extract(3).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(2).min(0x7FFFFFFF) as u32,
-                   other.extract(3).min(0x7FFFFFFF) as u32)
+                   self.extract(3).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(2).min(0xFFFFFFFF) as u32,
+                   other.extract(3).min(0xFFFFFFFF) as u32)
     }
 }
 
-- 
2.43.0


From f1a2b8218a59de6b8c91c01f61cc77986534ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 02/19] fix: sum_upcast of i8x16 and i8x32 truncated the sum to
 8 bits

---
 src/arch/x86/intrin/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/sum.rs b/src/arch/x86/intrin/sum.rs
index 3b408de..ad0127c 100644
--- a/src/arch/x86/intrin/sum.rs
+++ b/src/arch/x86/intrin/sum.rs
@@ -45,7 +45,7 @@ impl UpcastSum for i8x16 {
         let pos = unsafe { _mm_sad_epu8(self.max(Self::splat(0)).be_u8s(), u8x16::splat(0)).be_u16s() };
         let neg = unsafe { _mm_sad_epu8(self.min(Self::splat(0)).abs().be_u8s(), u8x16::splat(0)).be_u16s() };
         pos.extract(0).overflowing_sub(neg.extract(0)).0
-            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i16 as i64
     }
 }
 
@@ -73,7 +73,7 @@ impl UpcastSum for i8x32 {
         pos.extract(0).overflowing_sub(neg.extract(0)).0
             .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0
             .overflowing_add(pos.extract(8).overflowing_sub(neg.extract(8)).0).0
-            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i16 as i64
     }
 }
 
-- 
2.43.0


From 6ce362297bce60341a51da601257f065dfc58073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 03/19] fix: destride_two of u8x32 and i8x32 returned a wrong
 second vector on AVX2

---
 src/arch/x86/intrin/destride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/destride.rs b/src/arch/x86/intrin/destride.rs
index 8715278..0bfdc59 100644
--- a/src/arch/x86/intrin/destride.rs
+++ b/src/arch/x86/intrin/destride.rs
@@ -48,7 +48,7 @@ impl Destride for u8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_u8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_u8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_u8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_u8s();
             (aa.merge_halves(bb), c)
         }
     }
@@ -108,7 +108,7 @@ impl Destride for i8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_i8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_i8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_i8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_i8s();
             (aa.merge_halves(bb), c)
         }
     }
-- 
2.43.0


From 1a80e334feba561b808d703a52d910872d5df281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 04/19] fix: merge_partitioned without a blend instruction
 rejected offset == WIDTH

---
 src/intrin/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intrin/merge.rs b/src/intrin/merge.rs
index 29ba3f1..ab45726 100644
--- a/src/intrin/merge.rs
+++ b/src/intrin/merge.rs
@@ -71,7 +71,7 @@ macro_rules! impl_packed_merge {
             #[inline(always)]
             fn merge_partitioned(&self, other: Self, offset: usize) -> Self {
                 fallback!();
-                assert!(offset < Self::WIDTH);
+                assert!(offset <= Self::WIDTH);
                 let mut ret = self.clone();
                 for i in offset..Self::WIDTH {
                     unsafe {
-- 
2.43.0


From 40a5496a416071a1cd602bfbc1f0805d71228d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 05/19] fix: check the offset of partition_mask, which is safe
 but loads from a table

---
 src/arch/unknown/vec_patterns.rs | 20 +++++------
 src/arch/x86/vec_patterns.rs     | 60 ++++++++++++++++----------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/arch/unknown/vec_patterns.rs b/src/arch/unknown/vec_patterns.rs
index a4ce16f..e1fbb9b 100644
--- a/src/arch/unknown/vec_patterns.rs
+++ b/src/arch/unknown/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -112,7 +112,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -177,7 +177,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -234,7 +234,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -291,7 +291,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -344,7 +344,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -397,7 +397,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -450,7 +450,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -501,7 +501,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -552,7 +552,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
diff --git a/src/arch/x86/vec_patterns.rs b/src/arch/x86/vec_patterns.rs
index d5221cc..86f22a1 100644
--- a/src/arch/x86/vec_patterns.rs
+++ b/src/arch/x86/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -160,7 +160,7 @@ impl Pattern for u8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -241,7 +241,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -306,7 +306,7 @@ impl Pattern for i8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -419,7 +419,7 @@ impl Pattern for i8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -500,7 +500,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -565,7 +565,7 @@ impl Pattern for u16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -646,7 +646,7 @@ impl Pattern for u16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -711,7 +711,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -768,7 +768,7 @@ impl Pattern for i16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -849,7 +849,7 @@ impl Pattern for i16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -914,7 +914,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -971,7 +971,7 @@ impl Pattern for u32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1036,7 +1036,7 @@ impl Pattern for u32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1093,7 +1093,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1146,7 +1146,7 @@ impl Pattern for i32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1211,7 +1211,7 @@ impl Pattern for i32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1268,7 +1268,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1321,7 +1321,7 @@ impl Pattern for f32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1386,7 +1386,7 @@ impl Pattern for f32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1443,7 +1443,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1496,7 +1496,7 @@ impl Pattern for u64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1553,7 +1553,7 @@ impl Pattern for u64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1606,7 +1606,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1657,7 +1657,7 @@ impl Pattern for i64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1714,7 +1714,7 @@ impl Pattern for i64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1767,7 +1767,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1818,7 +1818,7 @@ impl Pattern for f64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1875,7 +1875,7 @@ impl Pattern for f64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1928,7 +1928,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
-- 
2.43.0


From 994d8fa0a2cf30267d49d125aa5f32fee2b5250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 06/19] fix: gate Cmp for 256-bit u32/i32 on avx2 and Round for
 f64x4 on avx, which they use

---
 src/arch/x86/intrin/cmp.rs   | 4 ++--
 src/arch/x86/intrin/round.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arch/x86/intrin/cmp.rs b/src/arch/x86/intrin/cmp.rs
index 7b97db8..e3dbbf0 100644
--- a/src/arch/x86/intrin/cmp.rs
+++ b/src/arch/x86/intrin/cmp.rs
@@ -100,14 +100,14 @@ rust_fallback_impl_binary! {
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for u32x8 where "avx" {
+    impl Cmp for u32x8 where "avx2" {
         min => _mm256_min_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for i32x8 where "avx" {
+    impl Cmp for i32x8 where "avx2" {
         min => _mm256_min_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
diff --git a/src/arch/x86/intrin/round.rs b/src/arch/x86/intrin/round.rs
index 7cff34a..52ea60b 100644
--- a/src/arch/x86/intrin/round.rs
+++ b/src/arch/x86/intrin/round.rs
@@ -40,7 +40,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x4 where "sse4.1" {
+    impl Round for f64x4 where "avx" {
         round => _mm256_round_pd(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => _mm256_ceil_pd(), [0, 1, 2, 3];
         floor => _mm256_floor_pd(), [0, 1, 2, 3];
-- 
2.43.0


From 82beb130213296ad2eb2a3c386c5809b4fb4d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 07/19] fix: end() of a short, partly consumed iterator wrote
 past the end of the vector

---
 src/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0c4c5a8..9cac923 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -535,7 +535,7 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
             } else {
                 for i in self.scalar_pos()..self.scalar_len() {
                     unsafe {
-                        ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                        ret = ret.replace_unchecked(i - self.scalar_pos() + empty_amt, self.load_scalar_unchecked(i));
                     }
                 }
             }
@@ -603,7 +603,7 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
             ret = self.default().merge_partitioned(ret, empty_amt);
         } else {
             for i in offset..self.scalar_len() {
-                ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                ret = ret.replace_unchecked(i - offset + empty_amt, self.load_scalar_unchecked(i));
             }
         }
         ret
-- 
2.43.0


From d7542ef1238dbef00ed3c123b5f7ba3536216406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 08/19] fix: simd_for_each of an advanced iterator overwrote
 elements before its position

---
 src/iters.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 9cac923..5827a7a 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -552,6 +552,7 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
     fn simd_for_each<F>(&mut self, mut func: F)
         where F : FnMut(&mut Self::Vector) -> () {
         let mut lastvec = Self::Vector::default();
+        let start = self.scalar_pos();
 
         while let Some(mut v) = self.next() {
             func(&mut v);
@@ -563,14 +564,14 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
         if let Some((mut p, n)) = self.end() {
             func(&mut p);
             let width = self.width();
-            if self.width() < self.scalar_len() {
+            if offset > start {
                 // We stored a vector in this buffer; overwrite the unused elements
                 unsafe {
                     self.data.store_unchecked(p, offset - n);
                     self.data.store_unchecked(lastvec, offset - width);
                 }
             } else {
-                // The buffer won't fit one vector; store elementwise
+                // We stored no vector in this buffer; store elementwise
                 for i in 0..(width - n) {
                     unsafe { self.data.store_scalar_unchecked(p.extract_unchecked(i + n), offset + i); }
                 }
-- 
2.43.0


From b36eed95589befbcc4d7e37cb583f628b41e3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 09/19] fix: scalar_collect of a partly consumed iterator
 exposed uninitialized elements

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 5827a7a..8c1437f 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -728,7 +728,7 @@ impl<'a, T, I> IntoScalar<T> for I
                 }
                 ret.set_len(self.width() + offset - n);
             } else {
-                ret.set_len(self.len() * self.width());
+                ret.set_len(offset);
             }
         }
         ret
-- 
2.43.0


From e29303be3145ecc11d7d9eaa9e0157b7d3316c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 10/19] fix: scalar_fill and scalar_fill_all wrote past the end
 of a slice that is too short

---
 src/iters.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 8c1437f..6ee4119 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -740,7 +740,7 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut lastvec = Self::Vector::default();
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
             lastvec = vec;
         }
@@ -748,10 +748,8 @@ impl<'a, T, I> IntoScalar<T> for I
         if let Some((p, n)) = self.end() {
             if offset > 0 {
                 // We stored a vector in this buffer; overwrite the unused elements
-                unsafe {
-                    p.store_unchecked(fill, offset - n);
-                    lastvec.store_unchecked(fill, offset - self.width());
-                }
+                p.store(fill, offset - n);
+                lastvec.store(fill, offset - self.width());
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
@@ -782,12 +780,12 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut offset = 0;
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
         }
 
         if let Some((vec, _)) = self.end() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
         }
 
         fill
-- 
2.43.0


From 36287763411f0e67e82f7c67ee2902138e84d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 11/19] fix: scalar_collect_all returned one element per vector
 and stored past its length

---
 src/iters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 6ee4119..1a77231 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -767,10 +767,20 @@ impl<'a, T, I> IntoScalar<T> for I
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
         let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let mut offset = 0;
 
         unsafe {
-            ret.set_len(self.len());
-            self.scalar_fill_all(ret.as_mut_slice());
+            ret.set_len((self.len() + 1) * self.width());
+            while let Some(vec) = self.next() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+
+            if let Some((vec, _)) = self.end() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+            ret.set_len(offset);
         }
         ret
     }
-- 
2.43.0


From 13ef28fe2fde82e9955a3a5f5e3ec25b64fde50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 12/19] fix: scalar_len of a mapped iterator was measured in
 vectors

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 1a77231..1527f3c 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -644,7 +644,7 @@ impl<A, B, I, F> SIMDSized for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.iter.scalar_len()
     }
 }
 
-- 
2.43.0


From 77c6d3b7e198b958038d87de9e081bf2530cb4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 13/19] fix: next() loaded out of bounds after advance() to a
 position close to usize::MAX

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 1527f3c..754abe9 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -465,7 +465,7 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.width() <= self.scalar_len() && self.position <= self.scalar_len() - self.width() {
             let ret = unsafe { self.load_unchecked(self.position) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
-- 
2.43.0


From 8581ed9047017b9260dc43adc4ae11d097560533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 14/19] fix: SIMDAdapter skipped about half of its elements and
 packed the rest backwards

---
 src/iters.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 754abe9..c823f13 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -239,7 +239,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.width() <= self.iter.len() {
             // Our iterator has at least one vector's worth of elements, so load
             // them all into our vector
             for offset in 0..self.width() {
@@ -247,8 +247,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
                     self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
             }
-            let width = self.width(); // Appease borrow checker
-            self.advance(width);
+            self.position += self.width();
             Some(self.scratch)
         } else {
             None
@@ -258,19 +257,16 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
-        if self.position < self.scalar_len() {
-            // This is the last vector we can load, so we should load it
-            // backwards and use the default vector to overwrite blank spots
+        if self.iter.len() > 0 {
+            // This is the last vector we can load, so we should right-align it
+            // and use the default vector to overwrite blank spots
             self.scratch = self.default;
-            let mut offset = self.width() - 1;
-            while let Some(item) = self.iter.next() {
-                unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, item);
-                }
-                offset -= 1;
+            let empty_amt = self.width() - self.iter.len();
+            for offset in empty_amt..self.width() {
+                self.scratch = self.scratch.replace(offset, self.iter.next().unwrap());
             }
-            self.finalize();
-            Some((self.scratch, offset))
+            self.position += self.width() - empty_amt;
+            Some((self.scratch, empty_amt))
         } else {
             None
         }
@@ -280,14 +276,15 @@ impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.len() / self.width()
+        self.scalar_len() / self.width()
     }
 }
 
 impl<I, V> SIMDSized for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        // Elements which were already consumed are no longer counted by `iter`
+        self.position + self.iter.len()
     }
 }
 
@@ -299,7 +296,12 @@ impl<I, V> SIMDIterable for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        for _ in 0..amount {
+            if self.iter.next().is_none() {
+                break;
+            }
+            self.position += 1;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 84a804f10969db44c6d7471be219d2187735b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 15/19] fix: zip accepted iterators of different lengths,
 positions and widths, and read out of bounds

---
 src/zip.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zip.rs b/src/zip.rs
index 960e2c4..660cb54 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -225,7 +225,9 @@ macro_rules! impl_iter_zip {
         impl<$($a),*> IntoSIMDZip for ($($a),*) where $($a : SIMDIterator + UnsafeIterator),* {
             #[inline(always)]
             fn zip(self) -> Zip<Self> {
-                if $(self.0.len() != self.$n.len())||* {
+                if $(self.0.scalar_len() != self.$n.scalar_len()
+                     || self.0.scalar_pos() != self.$n.scalar_pos()
+                     || self.0.width() != self.$n.width())||* {
                     panic!("You can only zip iterators of the same length.");
                 }
                 Zip { iters: self }
-- 
2.43.0


From 5a80d92b4f47c68c94cabd5f03f25862319ebd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 16/19] fix: scalar_len of a zipped iterator was measured in
 vectors

---
 src/zip.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zip.rs b/src/zip.rs
index 660cb54..cd69852 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -291,6 +291,11 @@ macro_rules! impl_iter_zip {
                 self.iters.0.scalar_pos()
             }
 
+            #[inline(always)]
+            fn scalar_len(&self) -> usize {
+                self.iters.0.scalar_len()
+            }
+
             #[inline(always)]
             fn advance(&mut self, amount: usize) {
                 self.iters.0.advance(amount);
-- 
2.43.0


From 230b9827ff93778d75c0724f85b917b187b71f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 17/19] fix: end() of stride_zip misplaced the remaining pairs
 and miscounted the empty lanes

---
 src/stride_zip.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index eed06d3..7ff3e21 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -94,19 +94,25 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
-        let first = self.iter.next();
-        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
-        if let Some(first) = first {
-            Some((first.destride_two(end), (self.width() + n) / 2))
-        } else {
-            if let Some(v) = self.peek {
-                self.peek = None;
-                Some((v.destride_two(end), (self.width() + n) / 2))
-            } else if n > 0 {
-                Some((end.destride_two(self.iter.default()), n / 2))
-            } else {
-                None
+        let first = self.peek.take().or_else(|| self.iter.next());
+        let last = self.iter.end();
+        let head = if first.is_some() { self.width() } else { 0 };
+        let first = first.unwrap_or_else(|| self.iter.default());
+        let (last, skip) = last.unwrap_or((self.iter.default(), self.width()));
+        let pairs = (head + self.width() - skip) / 2;
+
+        if pairs > 0 {
+            // Right-align the remaining pairs, like any other partial vector
+            let get = |i: usize| if i < head { first.extract(i) } else { last.extract(skip + i - head) };
+            let empty_amt = self.width() - pairs;
+            let (mut even, mut odd) = (self.iter.default(), self.iter.default());
+            for i in 0..pairs {
+                even = even.replace(empty_amt + i, get(2 * i));
+                odd = odd.replace(empty_amt + i, get(2 * i + 1));
             }
+            Some(((even, odd), empty_amt))
+        } else {
+            None
         }
     }
 }
-- 
2.43.0


From 625618bbec9d9f523d64e8b9bddb5342c716104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:28 +0000
Subject: [PATCH 18/19] fix: next() of a strided iterator returned None with a
 full vector left

---
 src/stride.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stride.rs b/src/stride.rs
index 4a27b95..1dc8dcb 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,13 +32,8 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + self.stride * self.width() < self.iter.scalar_len() {
-            let mut ret = <Self as SIMDObject>::Vector::default();
-            for i in 0..self.width() {
-                ret = ret.replace(i, unsafe {
-                    self.iter.load_scalar_unchecked(self.pos + self.stride * i)
-                });
-            }
+        if self.width() <= self.scalar_len() && self.scalar_pos() <= self.scalar_len() - self.width() {
+            let ret = unsafe { self.load_unchecked(self.scalar_pos()) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
             Some(ret)
-- 
2.43.0


From d1350bd4abde5e77de4d54e876629eceecb03395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:28 +0000
Subject: [PATCH 19/19] fix: load() of a strided iterator read out of bounds
 for offsets close to usize::MAX

---
 src/stride.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stride.rs b/src/stride.rs
index 1dc8dcb..88dc1ab 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -288,6 +288,7 @@ impl<'a, A> SIMDObject for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn load(&self, offset: usize) -> Self::Vector {
+        assert!(offset < self.iter.scalar_len());
         assert!(self.base + self.stride * (offset + (self.width() - 1)) < self.iter.scalar_len());
         unsafe { self.load_unchecked(offset) }
     }
-- 
2.43.0

