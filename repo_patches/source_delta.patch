From d90ee03fb8c4d145a160af68ab4565da74b5fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 01/68] fix: swapping the halves of a single point must not
 index out of bounds

---
 vector/src/vector_types/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 55b78cc..98f62d8 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -173,6 +173,10 @@ where
     T: Copy,
 {
     let len = data.len();
+    if len <= 1 {
+        return;
+    }
+
     if len % 2 == 0 {
         let (lo, up) = data.split_at_mut(len / 2);
         for (lo, up) in lo.iter_mut().zip(up.iter_mut()) {
-- 
2.43.0


From 03c57d56d03bcbf87de36ef93d31ba93b1ec2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 02/68] fix: zero_pad with Surround distributes zeros like
 zero_pad_b

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f5f60ae..3328412 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -326,7 +326,7 @@ where
             }
             PaddingOption::Surround => {
                 let diff = (len - len_before) / step;
-                let mut right = (diff - 1) / 2;
+                let mut right = diff / 2;
                 let mut left = diff - right;
                 if is_complex {
                     right *= 2;
-- 
2.43.0


From 44c905a460999287be91cab62603b7fda017c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 03/68] fix: zero_pad_b with Center clears the whole gap

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 3328412..4d93ec2 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -453,7 +453,7 @@ where
 
                     target[len - right..len].copy_from_slice(&data[len_before - right..len_before]);
                     target[0..left].copy_from_slice(&data[0..left]);
-                    memzero(target, left..len - len_before);
+                    memzero(target, left..len - right);
                 }
             }
         }
-- 
2.43.0


From 467b6cf6bc0476b2dc7182f089e0b130b7f6f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 04/68] fix: zero_interleave ignores storage behind the valid
 samples

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 4d93ec2..8f263e7 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -372,7 +372,7 @@ where
 
         if is_complex {
             let data = self.data.to_slice_mut();
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 {
                 let i = len / 2 - 1 - j;
                 if i % factor == 0 {
-- 
2.43.0


From f1dbb1f023983728ee61d6d5b4b4fc2fbb1635f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 05/68] fix: zero_interleave_b accepts empty vectors and a
 factor of zero

---
 vector/src/vector_types/general/data_reorganization.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 8f263e7..08a6a81 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -466,6 +466,10 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if factor == 0 || self.is_empty() {
+            return;
+        }
+
         if self.is_complex() {
             zero_interleave!(self, buffer, factor, 2)
         } else {
-- 
2.43.0


From 41cb08ab594b6bd6c5ae60606ea656bc29977ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 06/68] fix: split_into and merge only touch the valid samples
 of real vectors

---
 vector/src/vector_types/general/data_reorganization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 08a6a81..1a61b1e 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -505,7 +505,7 @@ where
                 target[2 * pos + 1] = data[2 * i + 1];
             }
         } else {
-            for (i, d) in data.iter().enumerate() {
+            for (i, d) in data[0..data_length].iter().enumerate() {
                 let target = targets[i % num_targets].data.to_slice_mut();
                 let pos = i / num_targets;
                 target[pos] = *d;
@@ -549,7 +549,7 @@ where
                     data[2 * i + 1] = source[2 * pos + 1];
                 }
             } else {
-                for (i, d) in data.iter_mut().enumerate() {
+                for (i, d) in data[0..data_length].iter_mut().enumerate() {
                     let source = sources[i % num_sources].data.to_slice();
                     let pos = i / num_sources;
                     *d = source[pos];
-- 
2.43.0


From cab2e5fab4f722c1077ad03ad06babef56fdc667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 07/68] fix: diff accepts empty vectors and ignores storage
 behind the valid samples

---
 vector/src/vector_types/general/diff_sum.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 7181d46..c2b3bec 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -66,11 +66,15 @@ where
         let is_complex = self.is_complex();
         let step = if is_complex { 2 } else { 1 };
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         self.valid_len -= step;
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 - 1 {
                 data[j] = data[j + 1] - data[j];
             }
@@ -91,7 +95,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             let mut temp = data[0];
             for n in &mut data[1..len / 2] {
                 let diff = *n - temp;
-- 
2.43.0


From 79b0784c9b092388efc3c764e2731d1943bd042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 08/68] fix: map_inplace and map_aggregate only visit the valid
 samples

---
 vector/src/vector_types/general/mapping.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index 112fb07..fae4e82 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -60,8 +60,8 @@ where
             return;
         }
 
+        let length = self.len();
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -106,7 +106,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.len();
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,8 +170,8 @@ where
             return;
         }
 
+        let length = self.len();
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -217,7 +217,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.len();
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From c7e7cf6ae9faf52f773de489264f5a0e375e08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 09/68] fix: dot products ignore storage behind the valid
 samples

---
 vector/src/vector_types/general/dot_products.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index a929468..3d56e4c 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -79,7 +79,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
@@ -130,7 +130,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
@@ -178,7 +178,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
@@ -228,7 +228,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
-- 
2.43.0


From f1628d715ab3feedb5b0156230f50d1165d9ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 10/68] fix: dot products report operands of different size,
 domain or number space

---
 .../src/vector_types/general/dot_products.rs  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index 3d56e4c..4c4e1bc 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -78,6 +78,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -129,6 +137,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -177,6 +189,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -227,6 +247,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
-- 
2.43.0


From a255839e4f7fbee895c17d28a89cb0159942334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 11/68] fix: merged statistics track minimum and maximum
 independently, sums ignore spare storage

---
 vector/src/vector_types/general/statistics.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4cd739d..e9ca533 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -227,7 +227,8 @@ where
             if stat.max > max {
                 max = stat.max;
                 max_index = stat.max_index;
-            } else if stat.min < min {
+            }
+            if stat.min < min {
                 min = stat.min;
                 min_index = stat.min_index;
             }
@@ -316,7 +317,8 @@ where
                 max = stat.max;
                 max_norm = max.norm();
                 max_index = stat.max_index;
-            } else if stat.min.norm() < min_norm {
+            }
+            if stat.min.norm() < min_norm {
                 min = stat.min;
                 min_norm = min.norm();
                 min_index = stat.min_index;
@@ -438,7 +440,7 @@ where
 {
     fn sum_real<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> T {
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let sum = {
             let chunks = Chunk::get_chunked_results(
@@ -469,7 +471,7 @@ where
 
     fn sum_sq_real<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> T {
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let sum = {
             let chunks = Chunk::get_chunked_results(
@@ -500,7 +502,7 @@ where
 
     fn sum_complex<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> Complex<T> {
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let sum = {
             let chunks = Chunk::get_chunked_results(
@@ -531,7 +533,7 @@ where
 
     fn sum_sq_complex<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> Complex<T> {
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let sum = {
             let chunks = Chunk::get_chunked_results(
-- 
2.43.0


From 576ca5958133942b62626774bce6e5cf19ad4922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 12/68] fix: precise split statistics keep one compensation
 term per column

---
 .../src/vector_types/general/precise_stats.rs  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index a3e7202..9911e1f 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -259,11 +259,12 @@ where
             |array, range, len| {
                 let mut results = Statistics::empty_vec(len);
                 let mut j = range.start;
-                let mut sumc = 0.0;
-                let mut rmsc = 0.0;
+                let mut sumc = [0.0; STATS_VEC_CAPACTIY];
+                let mut rmsc = [0.0; STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stats = &mut results[j % len];
-                    stats.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let col = j % len;
+                    let stats = &mut results[col];
+                    stats.add_prec(*num, j / len, &mut sumc[col], &mut rmsc[col]);
                     j += 1;
                 }
 
@@ -507,11 +508,12 @@ where
                 let mut results = Statistics::<Complex<f64>>::empty_vec(len);
                 let mut j = range.start / 2;
                 let array = array_to_complex(array);
-                let mut sumc = Complex64::zero();
-                let mut rmsc = Complex64::zero();
+                let mut sumc = [Complex64::zero(); STATS_VEC_CAPACTIY];
+                let mut rmsc = [Complex64::zero(); STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stat = &mut results[j % len];
-                    stat.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let col = j % len;
+                    let stat = &mut results[col];
+                    stat.add_prec(*num, j / len, &mut sumc[col], &mut rmsc[col]);
                     j += 1;
                 }
 
-- 
2.43.0


From ef11b8a1df73cc5a34da475ac5520ef7c51da63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 13/68] fix: binary operations ignore storage behind the valid
 samples

---
 vector/src/vector_types/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index aa23f61..1508d0b 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -390,7 +390,7 @@ macro_rules! impl_binary_vector_operation {
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
-                let array = self.data.to_slice_mut();
+                let array = &mut self.data.to_slice_mut()[0..data_length];
                 let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
                 let other = $arg_name.data(..);
                 Chunk::from_src_to_dest(
@@ -427,7 +427,7 @@ macro_rules! impl_binary_complex_vector_operation {
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
-                let array = self.data.to_slice_mut();
+                let array = &mut self.data.to_slice_mut()[0..data_length];
                 let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
                 let other = $arg_name.data(..);
                 Chunk::from_src_to_dest(
-- 
2.43.0


From 25e57844ba8ed4fd403decce399c68144caaac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 14/68] fix: operations with a smaller operand reject an empty
 operand

---
 vector/src/vector_types/general/elementary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index 1508d0b..d77ba72 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -460,7 +460,7 @@ macro_rules! impl_binary_smaller_vector_operation {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -490,7 +490,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -610,7 +610,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % factor.len() != 0,
+            factor.is_empty() || len % factor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, factor);
@@ -626,7 +626,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % divisor.len() != 0,
+            divisor.is_empty() || len % divisor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, divisor);
-- 
2.43.0


From 1479bd895cd990a6ec504ea1d716d764d61ae36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 15/68] fix: a core limit of zero means single threaded

---
 vector/src/multicore_support/threading.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index f16919e..2a72e60 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -318,8 +318,8 @@ impl Chunk {
         complexity: Complexity,
         settings: &MultiCoreSettings,
     ) -> usize {
-        if settings.core_limit == 1 {
-            settings.core_limit
+        if settings.core_limit <= 1 {
+            1
         } else if complexity == Complexity::Small {
             // Recent tests seem to indicate that even for large arrays it never makes
             // sense to spawn threads for trivial instructions. A single CPU core with SIMD
-- 
2.43.0


From 758eb0bd41d65c6a4f6983c413f393f8d9138e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 16/68] fix: symmetric functions pair mirrored points for every
 length and number of chunks

---
 vector/src/multicore_support/no_threading.rs | 18 +++---
 vector/src/multicore_support/threading.rs    | 60 ++++++++++----------
 2 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index b726787..fa1a29e 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -142,19 +142,21 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let mut chunks = Chunk::partition_mut(array, step_size, 2);
-        let mut chunks1 = chunks.next().unwrap();
-        let len1 = chunks1.len();
-        let mut chunks2 = chunks.next().unwrap();
+        if array_length == 0 {
+            return;
+        }
+
+        let center = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let (mut half1, mut half2) = array.split_at_mut(center);
         function(
-            &mut chunks1,
+            &mut half1,
             &Range {
                 start: 0,
-                end: len1,
+                end: center,
             },
-            &mut chunks2,
+            &mut half2,
             &Range {
-                start: len1,
+                start: center,
                 end: array_length,
             },
             arguments,
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 2a72e60..611cb56 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -562,48 +562,50 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
+        if array_length == 0 {
+            return;
+        }
+
         let number_of_chunks =
-            2 * Chunk::determine_number_of_chunks(array_length, complexity, settings);
-        if number_of_chunks > 2 {
-            let chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let ranges = Chunk::partition_in_ranges(array_length, step_size, chunks.len());
-            let mut i = 0;
-            let (mut chunks1, mut chunks2): (Vec<_>, Vec<_>) = chunks.partition(|_c| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            i = 0;
-            let (ranges1, ranges2): (Vec<_>, Vec<_>) = ranges.iter().partition(|_r| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            let chunks2 = chunks2.iter_mut().rev();
-            let ranges2 = ranges2.iter().rev();
-            let zipped1 = chunks1.iter_mut().zip(ranges1);
-            let zipped2 = chunks2.zip(ranges2);
+            Chunk::determine_number_of_chunks(array_length, complexity, settings);
+        // Both halves are split starting from the outer ends so that every chunk of
+        // the first half has its mirror image in the second half.
+        let center = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let (mut half1, mut half2) = array.split_at_mut(center);
+        if number_of_chunks > 1 {
+            let chunk_size = Chunk::calc_chunk_size(center, step_size, number_of_chunks);
+            let mut chunks2 = half2.rchunks_mut(chunk_size);
+            let mut start = 0;
+            let mut end = array_length;
             crossbeam::scope(|scope| {
-                for chunk in zipped1.zip(zipped2) {
+                for mut chunk1 in half1.chunks_mut(chunk_size) {
+                    let mut chunk2: &mut [T] = chunks2.next().unwrap_or(&mut []);
+                    let range1 = Range {
+                        start,
+                        end: start + chunk1.len(),
+                    };
+                    let range2 = Range {
+                        start: end - chunk2.len(),
+                        end,
+                    };
+                    start = range1.end;
+                    end = range2.start;
                     scope.spawn(move |_| {
-                        let (pair1, pair2) = chunk;
-                        function(pair1.0, pair1.1, pair2.0, pair2.1, arguments);
+                        function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
                     });
                 }
             })
             .expect("Failed to spawn thread");
         } else {
-            let mut chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let mut chunks1 = chunks.next().unwrap();
-            let len1 = chunks1.len();
-            let mut chunks2 = chunks.next().unwrap();
             function(
-                &mut chunks1,
+                &mut half1,
                 &Range {
                     start: 0,
-                    end: len1,
+                    end: center,
                 },
-                &mut chunks2,
+                &mut half2,
                 &Range {
-                    start: len1,
+                    start: center,
                     end: array_length,
                 },
                 arguments,
-- 
2.43.0


From a6061f10f9d51ffa73cd87be11142a2171f4a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 17/68] fix: empty arrays can be processed with several threads

---
 vector/src/multicore_support/no_threading.rs | 10 ----------
 vector/src/multicore_support/threading.rs    |  3 ++-
 2 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index fa1a29e..602358f 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -5,7 +5,6 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use std::iter::Iterator;
 use std::ops::Range;
-use std::slice::ChunksMut;
 
 /// Empty struct since multicore support is disabled
 #[derive(Debug, Copy, Clone)]
@@ -260,15 +259,6 @@ impl Chunk {
         );
     }
 
-    #[inline]
-    fn partition_mut<T>(array: &mut [T], step_size: usize, number_of_chunks: usize) -> ChunksMut<T>
-    where
-        T: Copy + Clone + Send,
-    {
-        let chunk_size = Chunk::calc_chunk_size(array.len(), step_size, number_of_chunks);
-        array.chunks_mut(chunk_size)
-    }
-
     #[inline]
     fn calc_chunk_size(array_length: usize, step_size: usize, number_of_chunks: usize) -> usize {
         let mut chunk_size = (array_length as f64 / number_of_chunks as f64).ceil() as usize;
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 611cb56..6813751 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -374,7 +374,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // A chunk must not be empty, not even for an empty array
+        chunk_size.max(step_size)
     }
 
     /// This function returns the ranges which correspond to the chunks generated by
-- 
2.43.0


From 7cc8715d05d89e49138e06ea6aa14652ec3c171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 18/68] fix: frequency responses are evaluated at the frequency
 of the bin for shifted spectra

---
 vector/src/vector_types/time_freq/mod.rs | 31 ++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f439466..04294cd 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -76,6 +76,22 @@ fn fft_swap_x<T: RealNumber>(is_fft_shifted: bool, x_value: T, x_max: T) -> T {
     }
 }
 
+/// Same as `fft_swap_x` for the points of a spectrum with an `offset` of one for an odd number of
+/// points and of zero for an even number of points.
+fn fft_swap_point<T: RealNumber>(
+    is_fft_shifted: bool,
+    x_value: T,
+    x_max: T,
+    offset: usize,
+) -> T {
+    if is_fft_shifted && offset == 0 && x_value > T::zero() {
+        // There is no point at `x_max` if the number of points is even
+        fft_swap_x(true, x_value + T::one(), x_max)
+    } else {
+        fft_swap_x(is_fft_shifted, x_value, x_max)
+    }
+}
+
 /// Creates shifted and reversed copies of the given data vector.
 /// This function is especially designed for convolutions.
 fn create_shifted_copies<O, T: RealNumber, Reg: SimdGeneric<T>>(
@@ -624,7 +640,8 @@ where
         TT: Zero + Mul<Output = TT> + Copy + Send + Sync + From<T>,
     {
         let two = T::one() + T::one();
-        if !is_symmetric {
+        // The points of a shifted spectrum with an odd number of points aren't symmetric to its center
+        if !is_symmetric || (is_fft_shifted && self.points() % 2 != 0) {
             let len = self.len();
             let points = self.points();
             let data = self.data.to_slice_mut();
@@ -643,7 +660,7 @@ where
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
                         *num =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j, max, offset) * ratio);
                         j = j + T::one();
                     }
                 },
@@ -680,7 +697,7 @@ where
                             let num = iter1.next().unwrap();
                             (*num) = (*num)
                                 * scale
-                                * fun(arg, fft_swap_x(is_fft_shifted, j1, max) * ratio);
+                                * fun(arg, fft_swap_point(is_fft_shifted, j1, max, offset) * ratio);
                             j1 = j1 + T::one();
                             i1 += 1;
                         }
@@ -688,13 +705,13 @@ where
                             let num = iter2.next().unwrap();
                             (*num) = (*num)
                                 * scale
-                                * fun(arg, fft_swap_x(is_fft_shifted, j2, max) * ratio);
+                                * fun(arg, fft_swap_point(is_fft_shifted, j2, max, offset) * ratio);
                             j2 = j2 + T::one();
                             i2 += 1;
                         }
                         // At this point we can be sure that `j1 == j2`
                         for (num1, num2) in iter1.zip(iter2) {
-                            let arg = scale * fun(arg, fft_swap_x(is_fft_shifted, j1, max) * ratio);
+                            let arg = scale * fun(arg, fft_swap_point(is_fft_shifted, j1, max, offset) * ratio);
                             *num1 = (*num1) * arg;
                             *num2 = (*num2) * arg;
                             j1 = j1 + T::one();
@@ -709,12 +726,12 @@ where
                     let common_length = pos1.min(pos2);
                     for num in &mut array1[i1 + common_length..len1] {
                         (*num) =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j1, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j1, max, offset) * ratio);
                         j1 = j1 + T::one();
                     }
                     for num in &mut array2[0..len2 - common_length - i2] {
                         (*num) =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j2, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j2, max, offset) * ratio);
                         j2 = j2 + T::one();
                     }
                 },
-- 
2.43.0


From 17c5c9da74ee849c3e606409b639cf18bed369c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 19/68] fix: map_inplace and map_aggregate use the valid length

---
 vector/src/vector_types/general/mapping.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index fae4e82..a452b15 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -60,7 +60,7 @@ where
             return;
         }
 
-        let length = self.len();
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
         Chunk::execute_with_range(
             Complexity::Small,
@@ -106,7 +106,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = self.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,7 +170,7 @@ where
             return;
         }
 
-        let length = self.len();
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
         Chunk::execute_with_range(
             Complexity::Small,
@@ -217,7 +217,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = self.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From a460b2beaf920418df7ce271c54bb46149ff4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 20/68] fix: an inverse FFT restores the delta of the time
 domain

---
 vector/src/vector_types/time_freq/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 04294cd..87e18e9 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -51,8 +51,14 @@ where
         let mut temp = buffer.borrow(2 * fft.get_inplace_scratch_len());  // By two since the FFT is done with complex numbers
         let scratch = temp.to_slice_mut();
         let signal = vec.data.to_slice_mut();
-        let rbw = (T::from(points).unwrap()) * vec.delta;
-        vec.delta = rbw;
+        if points > 0 {
+            let rbw = T::from(points).unwrap();
+            vec.delta = match direction {
+                FftDirection::Forward => rbw * vec.delta,
+                FftDirection::Inverse => vec.delta / rbw,
+            };
+        }
+
         let signal = array_to_complex_mut(&mut signal[0..len]);
         let scratch  = array_to_complex_mut(scratch);
         fft.process_with_scratch(signal, scratch);
-- 
2.43.0


From 2b7cff3bb9f23cd7006edafac571c55904fe1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 21/68] fix: the result of plain_ifft is in time domain

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index a101059..c6fac8d 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -142,7 +142,7 @@ where
         if self.domain() != DataDomain::Frequency {
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
-            self.domain.to_freq();
+            self.domain.to_time();
             return Self::TimeResult::rededicate_from_force(self);
         }
 
@@ -153,7 +153,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         Self::TimeResult::rededicate_from_force(self)
     }
 
-- 
2.43.0


From 430afb82c33e1f20483478e8fef72813ce224702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 22/68] fix: the result of plain_sifft is real and in time
 domain

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index c6fac8d..ad1e82b 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -193,8 +193,8 @@ where
     {
         if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeInFrequencyDomain,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -203,8 +203,8 @@ where
 
         if self.points() > 0 && self.data(1).abs() > T::from(1e-10).unwrap() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeConjSymmetric,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -215,8 +215,9 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
+        self.number_space.to_real();
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
 
-- 
2.43.0


From e8f9e48f581168a407deade1272e8c1977a1bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 23/68] fix: sifft expects a half spectrum and scales with the
 number of resulting points

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index ad1e82b..888a30b 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -225,12 +225,15 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        let points = self.points();
-        self.scale(Complex::<T>::new(
-            T::one() / T::from(points).unwrap(),
-            T::zero(),
-        ));
-        self.ifft_shift();
+        if !self.is_empty() {
+            // `self` contains only one half of the spectrum
+            let points = 2 * self.points() - 1;
+            self.scale(Complex::<T>::new(
+                T::one() / T::from(points).unwrap(),
+                T::zero(),
+            ));
+        }
+
         self.plain_sifft(buffer)
     }
 
-- 
2.43.0


From 66ea712999bcbedd0c26dec1aab4bd180462a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 24/68] fix: mirror rejects vectors in time or real number
 space and accepts empty ones

---
 vector/src/vector_types/time_freq/freq.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index f83b017..cfe5c89 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -53,12 +53,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Frequency && !self.is_complex() {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
             return;
         }
 
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         let step = 2;
         let temp_len = 2 * len - step;
         let mut temp = buffer.borrow(temp_len);
-- 
2.43.0


From 2505b6df4a6dbcf3fcee6cc72cd05a19aeafabde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 25/68] fix: symmetric FFTs return the half of the spectrum
 which starts at 0 Hz

---
 vector/src/vector_types/time_freq/time_to_freq.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 029494e..c93dcd8 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -177,8 +177,8 @@ where
 
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
-        let len = $points;
-        let len = len / 2 + 1;
+        // Two floating point numbers per complex point
+        let len = 2 * ($points / 2 + 1);
         $self_
             .resize(len)
             .expect("Shrinking a vector should always succeed");
@@ -219,8 +219,6 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
@@ -251,10 +249,8 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
@@ -287,11 +283,9 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         self.apply_window(window);
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
-- 
2.43.0


From 018449190a1164b85231068f7e4ff78d2da39578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 26/68] fix: iterating the edges of an empty slice must not
 wrap around

---
 vector/src/simd_extensions/simd_partition.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vector/src/simd_extensions/simd_partition.rs b/vector/src/simd_extensions/simd_partition.rs
index a28b391..7298d63 100644
--- a/vector/src/simd_extensions/simd_partition.rs
+++ b/vector/src/simd_extensions/simd_partition.rs
@@ -30,9 +30,9 @@ impl<'a, T> EdgeIteratorMut<'a, T> {
         unsafe {
             EdgeIteratorMut {
                 pos: start,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -45,11 +45,11 @@ impl<'a, T> Iterator for EdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<&'a mut T> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
@@ -81,10 +81,10 @@ impl<'a, T> IndexedEdgeIteratorMut<'a, T> {
             IndexedEdgeIteratorMut {
                 pos: start,
                 idx: 0,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right_idx: len - right,
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -97,12 +97,12 @@ impl<'a, T> Iterator for IndexedEdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<(isize, &'a mut T)> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
                 self.idx = self.right_idx;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
-- 
2.43.0


From f1d02db77c9b9f8841309ff9ecb5b0dbf3689d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 27/68] fix: SIMD registers start at the next aligned address
 and never tear complex numbers

---
 vector/src/simd_extensions/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index fabe613..4647e3d 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -194,10 +194,14 @@ macro_rules! simd_generic_impl {
             fn calc_data_alignment_reqs(array: &[$data_type]) -> SimdPartition<$data_type> {
                 let data_length = array.len();
                 let addr = array.as_ptr();
-                let left = get_alignment_offset(addr as usize, mem::size_of::<Self>());
+                let reg_len = mem::size_of::<Self>();
+                let offset = get_alignment_offset(addr as usize, reg_len);
+                let left = (reg_len - offset) % reg_len;
                 assert!(left % mem::size_of::<$data_type>() == 0);
                 let left = left / mem::size_of::<$data_type>();
-                if left + Self::LEN > data_length {
+                // An odd number of scalar values in front of the first register would
+                // tear a complex number apart.
+                if left % 2 != 0 || left + Self::LEN > data_length {
                     SimdPartition::new_all_scalar(data_length)
                 } else {
                     let right = (data_length - left) % Self::LEN;
-- 
2.43.0


From 665919adbf3c677b65f5ba774b97069823b3a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 28/68] fix: complex getters only read the valid samples and
 only need room for their result

---
 .../src/vector_types/complex/complex_to_real.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 8bd65c0..b52ee45 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -543,7 +543,7 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
-        let array = &self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
@@ -608,9 +608,6 @@ where
 {
     fn get_real(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.re,
@@ -621,9 +618,6 @@ where
 
     fn get_imag(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.im,
@@ -634,9 +628,6 @@ where
 
     fn get_magnitude(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs(),
@@ -647,9 +638,6 @@ where
 
     fn get_magnitude_squared(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs_squared(),
@@ -660,9 +648,6 @@ where
 
     fn get_phase(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.arg(),
-- 
2.43.0


From 30e1bf6e36e3fc4ef530d2474f253951fe16a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 29/68] fix: prepare_argument_padded accepts empty vectors and
 single points

---
 vector/src/vector_types/time_freq/correlation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 3c73db3..f374d15 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -107,10 +107,12 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
-            .expect(
+        if points > 1 {
+            self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
+                .expect(
                 "zero_pad_b shouldn't fail since the argument is always larger than the vector",
             );
+        }
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
-- 
2.43.0


From 114e03003797c6979b72124f2b35b145c16f1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 30/68] fix: lin and hermite interpolation accept every length,
 factor and positive delay

---
 .../time_freq/real_interpolation.rs           | 114 +++++++-----------
 1 file changed, 42 insertions(+), 72 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 2b6626f..304ce8e 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -34,7 +34,14 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -42,10 +49,6 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             let data = &data[0..data_len];
@@ -54,10 +57,14 @@ where
 
             for num in &mut dest[0..dest_len - 1] {
                 let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let next = before + 1;
-                let x0 = beforef;
+                // Positions behind the last sample are extrapolated
+                let before = rounded
+                    .floor()
+                    .to_usize()
+                    .unwrap()
+                    .min(data_len.saturating_sub(2));
+                let next = (before + 1).min(data_len - 1);
+                let x0 = T::from(before).unwrap();
                 let y0 = data[before];
                 let y1 = data[next];
                 let x = rounded;
@@ -74,7 +81,14 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -82,88 +96,44 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             // Literature: http://paulbourke.net/miscellaneous/interpolation/
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
-            let start = ((T::one() - delay) * interpolation_factor)
-                .ceil()
-                .to_usize()
-                .unwrap();
-            let end = start + 1;
+            let last = data_len - 1;
             let half = T::from(0.5).unwrap();
             let one_point_five = T::from(1.5).unwrap();
             let two = T::from(2.0).unwrap();
             let two_point_five = T::from(2.5).unwrap();
-            for num in &mut dest[0..start] {
+            for num in dest {
                 let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert_eq!(before, 0);
-                let next = before + 1;
-                let next_next = next + 1;
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let y0 = y1 - (y2 - y1);
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
                 i = i + T::one();
-            }
-
-            for num in &mut dest[start..dest_len - end] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let before_before = before - 1;
-                let next = before + 1;
-                let next_next = next + 1;
-                let y0 = data[before_before];
+                // The data is extrapolated linearly at both ends
+                let before = rounded.floor().to_usize().unwrap().min(last);
+                let x = rounded - T::from(before).unwrap();
                 let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[dest_len - end..dest_len] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert!(before + 2 >= data_len);
-                let before_before = before - 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = if before < data_len - 1 {
-                    data[before + 1]
+                if before == last {
+                    let slope = if last > 0 {
+                        y1 - data[last - 1]
+                    } else {
+                        T::zero()
+                    };
+                    (*num) = y1 + slope * x;
+                    continue;
+                }
+                let y2 = data[before + 1];
+                let y0 = if before > 0 {
+                    data[before - 1]
                 } else {
-                    y1 + (y1 - y0)
+                    y1 - (y2 - y1)
                 };
-                let y3 = if before < data_len - 2 {
+                let y3 = if before + 2 <= last {
                     data[before + 2]
                 } else {
                     y2 + (y2 - y1)
                 };
-                let x = rounded - beforef;
                 let x2 = x * x;
                 let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
                 let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
@@ -171,13 +141,13 @@ where
                 let a3 = y1;
 
                 (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
             }
         }
         self.valid_len = dest_len;
         temp.trade(&mut self.data);
     }
 }
+
 #[cfg(test)]
 mod tests {
     use super::super::super::*;
-- 
2.43.0


From 01e2f8922e8b39336770b0a6faf2ea14d8efd2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 31/68] fix: SIMD convolution and interpolation work for every
 alignment and impulse response length

---
 vector/src/vector_types/time_freq/interpolation.rs | 14 ++++++++++----
 vector/src/vector_types/time_freq/mod.rs           | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c1cdfe0..a69bcf7 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -233,22 +233,28 @@ where
             let temp = temp.to_slice_mut();
             let dest = convert_mut(&mut temp[0..new_len]);
             let len = dest.len();
-            let scalar_len = vectors[0].points() * interpolation_factor;
 
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // The registers may start and end up to one register length inside the data.
+            let scalar_len = (vectors[0].points() + Reg::LEN) * interpolation_factor;
+            let (left_len, right_len) = if simd.is_empty() || 2 * scalar_len > len {
+                (len, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             // Length of a SIMD reg relative to the length of type T
             // which is 1 for real numbers or 2 for complex numbers
             let simd_len_in_t = Reg::LEN / step;
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..len - scalar_len],
+                &mut dest[left_len..len - right_len],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = range.start + scalar_len;
+                    let mut i = range.start + left_len;
                     for num in dest_range {
                         let rounded = (i + interpolation_factor - 1) / interpolation_factor;
                         let end = rounded + conv_len - left_points;
@@ -275,7 +281,7 @@ where
             );
 
             let data = convert(&data[0..data_len]);
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, left_len, right_len) {
                 (*num) = Self::interpolate_priv_simd_step(
                     i as usize,
                     interpolation_factor,
diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 87e18e9..652fe46 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -594,14 +594,20 @@ where
             let step = if self.is_complex() { 2 } else { 1 };
             let scalar_left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // Without any register all points are calculated with scalars
+            let (left_len, right_len) = if simd.is_empty() {
+                (points, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..points - scalar_len],
+                &mut dest[left_len..points - right_len],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = (scalar_len + range.start) as isize;
+                    let mut i = (left_len + range.start) as isize;
                     for num in dest_range {
                         let end = (i + conv_len) as usize - scalar_left_points;
                         let shift = end % shifts.len();
@@ -618,7 +624,7 @@ where
                     }
                 },
             );
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, left_len, right_len) {
                 *num = Self::convolve_iteration(
                     complex,
                     other_iter,
-- 
2.43.0


From 3abd538d13833229d7ca3b3e117f618f27e5d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 32/68] fix: convolve fills the whole impulse response in its
 SIMD path

---
 vector/src/vector_types/time_freq/convolution.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 2276539..0c4c495 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -157,12 +157,13 @@ where
                 multicore_settings: MultiCoreSettings::default(),
             };
 
+            let step = if self.is_complex() { 2 } else { 1 };
             let mut i = 0;
             let mut j = -(T::from(len).unwrap());
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value;
-                i += 2;
+                i += step;
                 j = j + T::one();
             }
 
@@ -218,11 +219,11 @@ where
         let points = calc_points(len, ratio, self.is_complex());
         if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
-                data: InlineVector::of_size(T::zero(), 2 * points),
+                data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
                 domain: self.domain.clone(),
                 number_space: self.number_space.clone(),
-                valid_len: self.valid_len,
+                valid_len: points,
                 multicore_settings: MultiCoreSettings::default(),
             };
 
@@ -231,9 +232,8 @@ where
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value.re;
+                *imp_resp.data_mut(i + 1) = value.im;
                 i += 2;
-                *imp_resp.data_mut(i) = value.im;
-                i += 1;
                 j = j + T::one();
             }
 
-- 
2.43.0


From 84e0862b9e3eb77640ec2813b910c98648d0df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 33/68] fix: overlap_discard leaves no gap between its last
 block and the end

---
 vector/src/vector_types/time_freq/convolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 0c4c495..891abc6 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -338,7 +338,8 @@ where
         let scratch_len = 2 * std::cmp::max(fft.get_inplace_scratch_len(), fft.get_outofplace_scratch_len()); // Times 2 as the fft is complex
         let signal_freq_len = 2 * fft_len;
         let tmp_len = 2 * fft_len;
-        let remainder_len = x_len - x_len % fft_len;
+        // The last block may end up to `fft_len` points in front of the end (complex numbers)
+        let remainder_len = 2 * fft_len;
         let mut array =
             buffer.borrow(filter_response_padded_len + scratch_len + signal_freq_len + tmp_len + remainder_len);
         {
-- 
2.43.0


From e7b8d45044bdfe90b0287933c9f15a791e5f9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 34/68] fix: complex convolve_mat uses all points of the matrix

---
 vector/src/vector_types/time_freq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 652fe46..d6dd725 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -437,7 +437,7 @@ where
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
-                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
+                .map(|o| array_to_complex(&o[0..len]))
                 .collect();
             let dest = array_to_complex_mut(&mut target[0..len]);
             let conv_len = conv_len as isize;
-- 
2.43.0


From f10bb75935494d250666b9e1e665ef60426aa970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 35/68] fix: a spectrum with a single point is evaluated at 0
 Hz

---
 vector/src/vector_types/time_freq/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index d6dd725..da0fdec 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -71,7 +71,10 @@ where
 /// Transform a value on the x-axis the same way as a fft shift transforms the
 /// x axis of a spectrum.
 fn fft_swap_x<T: RealNumber>(is_fft_shifted: bool, x_value: T, x_max: T) -> T {
-    if !is_fft_shifted {
+    if x_max == T::zero() {
+        // There is only one point
+        T::zero()
+    } else if !is_fft_shifted {
         x_value / x_max
     } else if x_value <= T::zero() {
         let x_value = x_value / x_max;
-- 
2.43.0


From 4db944e84a9b7798e714940d5482d754211793ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 36/68] fix: the delay of an interpolation treats the upper
 half of an odd spectrum as positive frequencies

---
 vector/src/vector_types/time_freq/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index a69bcf7..4f1e7ad 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -326,8 +326,8 @@ where
         let pi = T::PI();
         let two = T::one() + T::one();
         let points = self.len() / 2;
-        let pos_points = points / 2;
-        let neg_points = points - pos_points;
+        let neg_points = points / 2;
+        let pos_points = points - neg_points;
         let phase_inc = two * pi * delay / T::from(points).unwrap();
         {
             let len = self.len();
-- 
2.43.0


From a225b9c06bc36890357f038ff390d9a490ae76d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 37/68] fix: frequency responses of shifted spectra are
 normalised to half of the sample rate

---
 vector/src/vector_types/time_freq/mod.rs | 31 +++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index da0fdec..371ad80 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -85,20 +85,23 @@ fn fft_swap_x<T: RealNumber>(is_fft_shifted: bool, x_value: T, x_max: T) -> T {
     }
 }
 
-/// Same as `fft_swap_x` for the points of a spectrum with an `offset` of one for an odd number of
-/// points and of zero for an even number of points.
+/// Calculates the argument of a frequency response for one of the `points` of a spectrum.
+/// `x_value` is the distance of the point to the center of the vector.
 fn fft_swap_point<T: RealNumber>(
     is_fft_shifted: bool,
     x_value: T,
     x_max: T,
-    offset: usize,
+    points: usize,
 ) -> T {
-    if is_fft_shifted && offset == 0 && x_value > T::zero() {
-        // There is no point at `x_max` if the number of points is even
-        fft_swap_x(true, x_value + T::one(), x_max)
-    } else {
-        fft_swap_x(is_fft_shifted, x_value, x_max)
+    if !is_fft_shifted {
+        return fft_swap_x(false, x_value, x_max);
     }
+
+    let two = T::one() + T::one();
+    let points = T::from(points).unwrap();
+    let bin = x_value + x_max;
+    let bin = if bin * two > points { bin - points } else { bin };
+    bin * two / points
 }
 
 /// Creates shifted and reversed copies of the given data vector.
@@ -675,7 +678,7 @@ where
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
                         *num =
-                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j, max, offset) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j, max, points) * ratio);
                         j = j + T::one();
                     }
                 },
@@ -712,7 +715,7 @@ where
                             let num = iter1.next().unwrap();
                             (*num) = (*num)
                                 * scale
-                                * fun(arg, fft_swap_point(is_fft_shifted, j1, max, offset) * ratio);
+                                * fun(arg, fft_swap_point(is_fft_shifted, j1, max, points) * ratio);
                             j1 = j1 + T::one();
                             i1 += 1;
                         }
@@ -720,13 +723,13 @@ where
                             let num = iter2.next().unwrap();
                             (*num) = (*num)
                                 * scale
-                                * fun(arg, fft_swap_point(is_fft_shifted, j2, max, offset) * ratio);
+                                * fun(arg, fft_swap_point(is_fft_shifted, j2, max, points) * ratio);
                             j2 = j2 + T::one();
                             i2 += 1;
                         }
                         // At this point we can be sure that `j1 == j2`
                         for (num1, num2) in iter1.zip(iter2) {
-                            let arg = scale * fun(arg, fft_swap_point(is_fft_shifted, j1, max, offset) * ratio);
+                            let arg = scale * fun(arg, fft_swap_point(is_fft_shifted, j1, max, points) * ratio);
                             *num1 = (*num1) * arg;
                             *num2 = (*num2) * arg;
                             j1 = j1 + T::one();
@@ -741,12 +744,12 @@ where
                     let common_length = pos1.min(pos2);
                     for num in &mut array1[i1 + common_length..len1] {
                         (*num) =
-                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j1, max, offset) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j1, max, points) * ratio);
                         j1 = j1 + T::one();
                     }
                     for num in &mut array2[0..len2 - common_length - i2] {
                         (*num) =
-                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j2, max, offset) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_point(is_fft_shifted, j2, max, points) * ratio);
                         j2 = j2 + T::one();
                     }
                 },
-- 
2.43.0


From 25f232fdc48ef346b057947f79c767b694879b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 38/68] fix: SIMD interpolatef uses the same window and delay
 for all points

---
 .../vector_types/time_freq/interpolation.rs   | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 4f1e7ad..fccaa0a 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -1,7 +1,7 @@
 use super::super::{
     Buffer, BufferBorrow, ComplexOps, DataDomain, Domain, DspVec, ErrorReason, FloatIndex,
     FloatIndexMut, FrequencyToTimeDomainOperations, GenDspVec, InsertZerosOps, InsertZerosOpsBuffered, MetaData,
-    NoTradeBuffer, NumberSpace, PaddingOption, ResizeBufferedOps, ResizeOps, ScaleOps,
+    NoTradeBuffer, NumberSpace, PaddingOption, ReorganizeDataOps, ResizeBufferedOps, ResizeOps, ScaleOps,
     TimeToFrequencyDomainOperations, ToComplexVector, ToDspVector, ToSliceMut, Vector, VoidResult,
 };
 use super::{create_shifted_copies, WrappingIterator};
@@ -170,7 +170,7 @@ where
     let mut imp_resp =
         InlineVector::of_size(T::zero(), data_len).to_gen_dsp_vec(complex_result, DataDomain::Time);
     let mut i = 0;
-    let mut j = -(T::from(conv_len).unwrap() - T::one()) + delay;
+    let mut j = -T::from(conv_len).unwrap() + delay;
     while i < data_len {
         let value = function.calc(j - offset);
         *imp_resp.data_mut(i) = value;
@@ -223,7 +223,10 @@ where
             );
             let mut shifts = InlineVector::with_capacity(vectors.len() * number_of_shifts);
             for vector in &vectors[..] {
-                let shifted_copies = create_shifted_copies(vector);
+                // A convolution reverses the order of the impulse response
+                let mut reversed = vector.clone();
+                reversed.reverse();
+                let shifted_copies = create_shifted_copies(&reversed);
                 for shift in shifted_copies.iter() {
                     shifts.push(shift.clone());
                 }
@@ -256,16 +259,11 @@ where
                 move |dest_range, range, simd| {
                     let mut i = range.start + left_len;
                     for num in dest_range {
-                        let rounded = (i + interpolation_factor - 1) / interpolation_factor;
-                        let end = rounded + conv_len - left_points;
+                        let rounded = i / interpolation_factor;
+                        let end = rounded + conv_len + 1 - left_points;
                         let simd_end = (end + simd_len_in_t - 1) / simd_len_in_t;
                         let simd_shift = end % simd_len_in_t;
                         let factor_shift = i % interpolation_factor;
-                        // The reasoning for the next match is analog to the explanation in the
-                        // create_shifted_copies function.
-                        // We need the inverse of the mod unless we start with zero
-                        let factor_shift =
-                            (interpolation_factor - factor_shift) % interpolation_factor;
                         let selection = factor_shift * simd_len_in_t + simd_shift;
                         let shifted = &shifts[selection];
                         let mut sum = Reg::splat(T::zero());
@@ -308,7 +306,7 @@ where
     {
         let rounded = i / interpolation_factor;
         let iter =
-            WrappingIterator::new(data, rounded as isize - conv_len as isize, 2 * conv_len + 1);
+            WrappingIterator::new(data, rounded as isize - conv_len as isize - 1, 2 * conv_len + 1);
         let vector = &vectors[i % interpolation_factor];
         let step = if vector.is_complex() { 2 } else { 1 };
         let mut sum = TT::zero();
-- 
2.43.0


From 8f1bec6a01b0433c6b89f2d3ab091fac6dd8a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 39/68] fix: the raised cosine is accurate next to its
 removable singularities

---
 vector/src/conv_types.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 9a60f03..c9ef693 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -411,15 +411,16 @@ where
         let one = T::one();
         let two = T::from(2.0).unwrap();
         let pi = T::PI();
-        let four = two * two;
-        if x.abs() == one / (two * self.rolloff) {
-            let arg = pi / two / self.rolloff;
-            return (arg).sin() / arg * pi / four;
-        }
-
         let pi_x = pi * x;
-        let arg = two * self.rolloff * x;
-        pi_x.sin() * (pi_x * self.rolloff).cos() / pi_x / (one - (arg * arg))
+        let arg = (two * self.rolloff * x).abs();
+        // cos(pi * arg / 2) / (1 - arg) has a removable singularity
+        let dist = one - arg;
+        let cos = if dist == T::zero() {
+            pi / two
+        } else {
+            (pi / two * dist).sin() / dist
+        };
+        pi_x.sin() / pi_x * cos / (one + arg)
     }
 }
 
-- 
2.43.0


From 313dc667b30268883571f9e08ed19e91704cd475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 40/68] fix: split_into leaves all targets unchanged if one of
 them can't hold the result

---
 vector/src/vector_types/general/data_reorganization.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 1a61b1e..f8fe27d 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -492,8 +492,13 @@ where
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
+        let target_len = data_length / num_targets;
+        if target_len % 2 != 0 && targets.iter().any(|t| t.is_complex()) {
+            return Err(ErrorReason::InputMustHaveAnEvenLength);
+        }
+
         for t in targets.iter_mut() {
-            t.resize(data_length / num_targets)?;
+            t.resize(target_len)?;
         }
 
         let data = &self.data.to_slice();
-- 
2.43.0


From 77e771e8eb1d2fcf3b3b5fa2923247352d5f3dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 41/68] fix: split_into distributes whole points

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f8fe27d..1796f0a 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -488,7 +488,7 @@ where
     fn split_into(&self, targets: &mut [&mut Self]) -> VoidResult {
         let num_targets = targets.len();
         let data_length = self.len();
-        if num_targets == 0 || data_length % num_targets != 0 {
+        if num_targets == 0 || self.points() % num_targets != 0 {
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
-- 
2.43.0


From cca156deec818c12261db228f00dc181b8b5305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 42/68] fix: SIMD interpolatef shifts its edges in the same
 direction as the rest

---
 vector/src/vector_types/time_freq/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index fccaa0a..e7bf8f9 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -219,7 +219,7 @@ where
                 conv_len,
                 self.is_complex(),
                 interpolation_factor,
-                delay,
+                -delay,
             );
             let mut shifts = InlineVector::with_capacity(vectors.len() * number_of_shifts);
             for vector in &vectors[..] {
-- 
2.43.0


From 5955288232fa2148e4f62f265d16f0c629fbf865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 43/68] fix: FixedLenBuffer hands over results which are longer
 than the storage

---
 vector/src/vector_types/support_core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index f291ab3..ae83b9e 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -47,7 +47,12 @@ impl<'a, T: RealNumber + 'a> ToSliceMut<T> for FixedLenBufferBurrow<'a, T>  {
 
 impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for FixedLenBufferBurrow<'a, T> {
     fn trade(self, storage: &mut S) {
-        let len = std::cmp::min(storage.len(), self.data.len());
+        let len = self.data.len();
+        if storage.len() < len {
+            storage
+                .try_resize(len)
+                .expect("FixedLenBuffer: Out of memory");
+        }
         let storage = storage.to_slice_mut();
         storage[0..len]
             .to_slice_mut()
-- 
2.43.0


From e7f521dbe74bc27b79d7107aba4dbece443a93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 44/68] fix: store_half of f64x4 takes the magnitudes from the
 lanes which hold them

---
 vector/src/simd_extensions/avx.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/avx.rs b/vector/src/simd_extensions/avx.rs
index dc478bd..341335a 100644
--- a/vector/src/simd_extensions/avx.rs
+++ b/vector/src/simd_extensions/avx.rs
@@ -332,8 +332,9 @@ impl Simd<f64> for f64x4 {
 
     #[inline]
     fn store_half(self, target: &mut [f64], index: usize) {
+        // `complex_abs_squared` leaves the results in the first lane of each 128 bit half
         target[index] = self.extract(0);
-        target[index + 1] = self.extract(1);
+        target[index + 1] = self.extract(2);
     }
 
     #[inline]
-- 
2.43.0


From a66453d721b297026e4115f7cd54ac7e4253bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 45/68] fix: correlate leaves the vector as it was when it
 rejects its arguments

---
 .../src/vector_types/time_freq/correlation.rs | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index f374d15..4b4f61d 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -134,20 +134,22 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Time || !self.is_complex() {
-            self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
-            return Err(ErrorReason::InputMustBeInTimeDomain);
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
         }
 
-        if other.domain() != DataDomain::Frequency || !other.is_complex() {
-            self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+        if self.domain() != DataDomain::Time {
             return Err(ErrorReason::InputMustBeInTimeDomain);
         }
 
+        if !other.is_complex() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if other.domain() != DataDomain::Frequency {
+            return Err(ErrorReason::InputMustBeInFrequencyDomain);
+        }
+
         let points = other.points();
         self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
         // The next steps: fft, mul, ifft
-- 
2.43.0


From fe6f81dc5ebde22743c5980ae6a3d45f8c6d5fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 46/68] fix: correlate accepts an argument which was prepared
 without padding

---
 vector/src/vector_types/time_freq/correlation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 4b4f61d..3ef3660 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -151,7 +151,9 @@ where
         }
 
         let points = other.points();
-        self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        if points != self.points() {
+            self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        }
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
         let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
-- 
2.43.0


From 83bc98fbc063f6141b4c73b925e6cc72a2ca7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 47/68] fix: a vector gets its new length only together with
 the new samples

---
 vector/src/vector_types/general/data_reorganization.rs  | 4 ++--
 vector/src/vector_types/time_freq/freq.rs               | 3 +--
 vector/src/vector_types/time_freq/interpolation.rs      | 2 +-
 vector/src/vector_types/time_freq/real_interpolation.rs | 4 ++--
 4 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 1796f0a..1fd9eb4 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -260,7 +260,6 @@ macro_rules! zero_interleave {
         let step = $step as usize;
         let old_len = $self_.len();
         let new_len = step * old_len;
-        $self_.valid_len = new_len;
         let mut target = $buffer.borrow(new_len);
         {
             let target = target.to_slice_mut();
@@ -297,6 +296,7 @@ macro_rules! zero_interleave {
         }
 
         target.trade(&mut $self_.data);
+        $self_.valid_len = new_len;
     }};
 }
 
@@ -419,7 +419,6 @@ where
         {
             let data = self.data.to_slice();
             let target = target.to_slice_mut();
-            self.valid_len = len;
             match option {
                 PaddingOption::End => {
                     // Zero target
@@ -459,6 +458,7 @@ where
         }
 
         target.trade(&mut self.data);
+        self.valid_len = len;
         Ok(())
     }
 
diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index cfe5c89..77b277d 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -79,11 +79,10 @@ where
                 i -= 2;
                 j += 2;
             }
-
-            self.valid_len = temp_len;
         }
 
         temp.trade(&mut self.data);
+        self.valid_len = temp_len;
     }
 
     fn fft_shift(&mut self) {
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index e7bf8f9..dff19c0 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -289,8 +289,8 @@ where
                 );
             }
         }
-        self.valid_len = new_len;
         temp.trade(&mut self.data);
+        self.valid_len = new_len;
     }
 
     #[inline]
diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 304ce8e..e889ac1 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -72,9 +72,9 @@ where
                 i = i + T::one();
             }
             dest[dest_len - 1] = data[data_len - 1];
-            self.valid_len = dest_len;
         }
         temp.trade(&mut self.data);
+        self.valid_len = dest_len;
     }
 
     fn interpolate_hermite<B>(&mut self, buffer: &mut B, interpolation_factor: T, delay: T)
@@ -143,8 +143,8 @@ where
                 (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
             }
         }
-        self.valid_len = dest_len;
         temp.trade(&mut self.data);
+        self.valid_len = dest_len;
     }
 }
 
-- 
2.43.0


From 2a948682f98bda0cc6f44640c34b102a74bebfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 48/68] fix: to_complex returns the vector as it was if the
 storage can't grow

---
 vector/src/vector_types/real/real_to_complex.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vector/src/vector_types/real/real_to_complex.rs b/vector/src/vector_types/real/real_to_complex.rs
index 2589d8d..cc450ab 100644
--- a/vector/src/vector_types/real/real_to_complex.rs
+++ b/vector/src/vector_types/real/real_to_complex.rs
@@ -76,10 +76,7 @@ where
         let result = self.zero_interleave(2);
         let domain = self.domain();
         match result {
-            Err(reason) => Err((
-                reason,
-                Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
-            )),
+            Err(reason) => Err((reason, Self::ComplexResult::rededicate_from_force(self))),
             Ok(()) => Ok(Self::ComplexResult::rededicate_with_runtime_data(
                 self, true, domain,
             )),
-- 
2.43.0


From 2c00dc090be0c8a246fba6e6234c270ab42424b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 49/68] fix: split_into changes no target if one of them can't
 grow

---
 vector/src/vector_types/general/data_reorganization.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 1fd9eb4..34591ad 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -497,8 +497,15 @@ where
             return Err(ErrorReason::InputMustHaveAnEvenLength);
         }
 
+        // All targets stay as they are if one of them can't hold the result
         for t in targets.iter_mut() {
+            let len = t.len();
             t.resize(target_len)?;
+            t.valid_len = len;
+        }
+
+        for t in targets.iter_mut() {
+            t.valid_len = target_len;
         }
 
         let data = &self.data.to_slice();
-- 
2.43.0


From b86d6623049809c1e9501a3b85bec19c2465633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 50/68] fix: converting between interleaved and complex Vecs
 keeps samples and memory layout

---
 vector/src/vector_types/support_std.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8a1c3cd..f481ccc 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -598,8 +598,9 @@ where
 {
     type Output = Vec<Complex<T>>;
 
-    fn get(self) -> (Self::Output, usize) {
+    fn get(mut self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
+        expand_to_full_capacity(&mut self.data);
         (interleaved_vec_to_complex_vec(self.data), len)
     }
 }
@@ -646,28 +647,19 @@ where
     expand_to_full_capacity(&mut vec);
     let boxed = vec.into_boxed_slice();
     let len = boxed.len();
-    unsafe {
-        let mut trans: Box<[T]> = mem::transmute(boxed);
-        let vec = Vec::<T>::from_raw_parts(&mut trans[0] as *mut T, len * 2, len * 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
-    }
+    let data = Box::into_raw(boxed) as *mut T;
+    unsafe { Vec::<T>::from_raw_parts(data, len * 2, len * 2) }
 }
 
 fn interleaved_vec_to_complex_vec<T>(mut vec: Vec<T>) -> Vec<Complex<T>>
 where
     T: RealNumber,
 {
-    expand_to_full_capacity(&mut vec);
-    let boxed = vec.into_boxed_slice();
-    let len = boxed.len();
-    unsafe {
-        let mut trans: Box<[Complex<T>]> = mem::transmute(boxed);
-        let vec =
-            Vec::<Complex<T>>::from_raw_parts(&mut trans[0] as *mut Complex<T>, len / 2, len / 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
-    }
+    // The memory which is handed over must consist of whole complex numbers
+    let len = vec.len() / 2;
+    vec.truncate(2 * len);
+    let data = Box::into_raw(vec.into_boxed_slice()) as *mut Complex<T>;
+    unsafe { Vec::<Complex<T>>::from_raw_parts(data, len, len) }
 }
 
 #[cfg(test)]
-- 
2.43.0


From acb8496589ca1029d284df207e6b1060bdebc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 51/68] fix: get on a complex slice vector doesn't panic if the
 slice has an odd length

---
 vector/src/vector_types/support_core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index ae83b9e..0a13fa7 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -786,7 +786,8 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex(self.data), len)
+        let points = self.data.len() / 2;
+        (array_to_complex(&self.data[..2 * points]), len)
     }
 }
 
@@ -799,6 +800,7 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex_mut(self.data), len)
+        let points = self.data.len() / 2;
+        (array_to_complex_mut(&mut self.data[..2 * points]), len)
     }
 }
-- 
2.43.0


From 35f7a37b15d9c7ae41192e621140c2c97cc4133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 52/68] fix: a complex generic vector of a slice with an odd
 length is empty

---
 vector/src/vector_types/support_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index 0a13fa7..645b2a1 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -521,7 +521,10 @@ where
     T: RealNumber,
 {
     fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
-        let len = self.len();
+        let mut len = self.len();
+        if len % 2 != 0 && is_complex {
+            len = 0;
+        }
         GenDspVec {
             data: self,
             delta: T::one(),
-- 
2.43.0


From 46b37626d1b7f309d71b5838c1e5ca359fe49847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 53/68] fix: rededicate_from discards the data if either number
 space or domain differ

---
 vector/src/vector_types/rededicate_and_relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/rededicate_and_relations.rs b/vector/src/vector_types/rededicate_and_relations.rs
index 2c5e7ed..acef40b 100644
--- a/vector/src/vector_types/rededicate_and_relations.rs
+++ b/vector/src/vector_types/rededicate_and_relations.rs
@@ -337,7 +337,7 @@ where
         let is_complex = origin.is_complex();
         let domain = origin.domain();
         let mut result = Self::rededicate_from_force(origin);
-        if result.is_complex() != is_complex && result.domain() != domain {
+        if result.is_complex() != is_complex || result.domain() != domain {
             result
                 .resize(0)
                 .expect("Setting size to 0 should always succeed");
-- 
2.43.0


From 1f7e16e89fec219ed0f9eb851e29a003932793c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 54/68] fix: diff_with_start and cum_sum of a matrix don't
 calculate diff

---
 matrix/src/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index e9e8aaa..7b94333 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -213,13 +213,13 @@ macro_rules! add_mat_impl {
 
 				fn diff_with_start(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.diff_with_start()
 					}
 				}
 
 				fn cum_sum(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.cum_sum()
 					}
 				}
 			}
-- 
2.43.0


From 2f15616e34bda7b886c4238c16f2554d665c2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 55/68] fix: get_magnitude, get_magnitude_squared and get_phase
 of a matrix don't return the imaginary part

---
 matrix/src/complex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index b2495e0..2a4fbe4 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -134,19 +134,19 @@ macro_rules! add_mat_impl {
 
 				fn get_magnitude(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude(o);
 					}
 				}
 
 				fn get_magnitude_squared(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude_squared(o);
 					}
 				}
 
 				fn get_phase(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_phase(o);
 					}
 				}
 
-- 
2.43.0


From ad01847eadaea3584da85799da630eebdfc2e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 56/68] fix: sum and sum_sq are available for matrices with 3
 and 4 rows

---
 matrix/src/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 49a628c..4a24251 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -187,7 +187,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix3xN<V, S, T>
 where
     V: SumOps<T>,
 {
@@ -212,7 +212,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix4xN<V, S, T>
 where
     V: SumOps<T>,
 {
-- 
2.43.0


From 399d17287f7f18832ed4701d8345f6acd25fd8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 57/68] fix: a panic in a matrix transformation doesn't leak
 the remaining rows

---
 matrix/src/lib.rs | 90 ++++++++++++-----------------------------------
 1 file changed, 23 insertions(+), 67 deletions(-)

diff --git a/matrix/src/lib.rs b/matrix/src/lib.rs
index 431a5c2..0a4b5bc 100644
--- a/matrix/src/lib.rs
+++ b/matrix/src/lib.rs
@@ -8,10 +8,6 @@ extern crate basic_dsp_vector;
 
 use basic_dsp_vector::numbers::*;
 use basic_dsp_vector::*;
-use std::{
-    mem::ManuallyDrop,
-    ptr
-};
 
 mod mat_impl;
 pub use self::mat_impl::*;
@@ -229,33 +225,23 @@ impl<S, D> TransformContent<S, D> for Vec<S> {
 impl<S, D> TransformContent<S, D> for [S; 2] {
     type Output = [D; 2];
 
-    fn transform<F>(self, mut conversion: F) -> Self::Output
+    fn transform<F>(self, conversion: F) -> Self::Output
     where
         F: FnMut(S) -> D,
     {
-        let self_forget = ManuallyDrop::new(self);
-        unsafe {
-            [
-                conversion(ptr::read(&self_forget[0])),
-                conversion(ptr::read(&self_forget[1])),
-            ]
-        }
+        self.map(conversion)
     }
 
     fn transform_res<F>(self, mut conversion: F) -> TransRes<Self::Output>
     where
         F: FnMut(S) -> TransRes<D>,
     {
-        let self_forget = ManuallyDrop::new(self);
-        unsafe {
-            let mut error = None;
-            let first = try_conv!(conversion(ptr::read(&self_forget[0])), error);
-            let second = try_conv!(conversion(ptr::read(&self_forget[1])), error);
-
-            match error {
-                None => Ok([first, second]),
-                Some(err) => Err((err, [first, second])),
-            }
+        let mut error = None;
+        let rows = self.map(|v| try_conv!(conversion(v), error));
+
+        match error {
+            None => Ok(rows),
+            Some(err) => Err((err, rows)),
         }
     }
 }
@@ -263,37 +249,23 @@ impl<S, D> TransformContent<S, D> for [S; 2] {
 impl<S, D> TransformContent<S, D> for [S; 3] {
     type Output = [D; 3];
 
-    fn transform<F>(self, mut conversion: F) -> Self::Output
+    fn transform<F>(self, conversion: F) -> Self::Output
     where
         F: FnMut(S) -> D,
     {
-        let self_forget = ManuallyDrop::new(self);
-        
-        unsafe {
-            [
-                conversion(ptr::read(&self_forget[0])),
-                conversion(ptr::read(&self_forget[1])),
-                conversion(ptr::read(&self_forget[2])),
-            ]
-        }
+        self.map(conversion)
     }
 
     fn transform_res<F>(self, mut conversion: F) -> TransRes<Self::Output>
     where
         F: FnMut(S) -> TransRes<D>,
     {
-        let self_forget = ManuallyDrop::new(self);
-
-        unsafe {
-            let mut error = None;
-            let first = try_conv!(conversion(ptr::read(&self_forget[0])), error);
-            let second = try_conv!(conversion(ptr::read(&self_forget[1])), error);
-            let third = try_conv!(conversion(ptr::read(&self_forget[2])), error);
+        let mut error = None;
+        let rows = self.map(|v| try_conv!(conversion(v), error));
 
-            match error {
-                None => Ok([first, second, third]),
-                Some(err) => Err((err, [first, second, third])),
-            }
+        match error {
+            None => Ok(rows),
+            Some(err) => Err((err, rows)),
         }
     }
 }
@@ -301,39 +273,23 @@ impl<S, D> TransformContent<S, D> for [S; 3] {
 impl<S, D> TransformContent<S, D> for [S; 4] {
     type Output = [D; 4];
 
-    fn transform<F>(self, mut conversion: F) -> Self::Output
+    fn transform<F>(self, conversion: F) -> Self::Output
     where
         F: FnMut(S) -> D,
     {
-        let self_forget = ManuallyDrop::new(self);
-
-        unsafe {
-            [
-                conversion(ptr::read(&self_forget[0])),
-                conversion(ptr::read(&self_forget[1])),
-                conversion(ptr::read(&self_forget[2])),
-                conversion(ptr::read(&self_forget[3])),
-            ]
-        }
+        self.map(conversion)
     }
 
     fn transform_res<F>(self, mut conversion: F) -> TransRes<Self::Output>
     where
         F: FnMut(S) -> TransRes<D>,
     {
-        let self_forget = ManuallyDrop::new(self);
-
-        unsafe {
-            let mut error = None;
-            let first = try_conv!(conversion(ptr::read(&self_forget[0])), error);
-            let second = try_conv!(conversion(ptr::read(&self_forget[1])), error);
-            let third = try_conv!(conversion(ptr::read(&self_forget[2])), error);
-            let fourth = try_conv!(conversion(ptr::read(&self_forget[3])), error);
-
-            match error {
-                None => Ok([first, second, third, fourth]),
-                Some(err) => Err((err, [first, second, third, fourth])),
-            }
+        let mut error = None;
+        let rows = self.map(|v| try_conv!(conversion(v), error));
+
+        match error {
+            None => Ok(rows),
+            Some(err) => Err((err, rows)),
         }
     }
 }
-- 
2.43.0


From 9b3020643cd4b3f787825fa3a821c8c750563175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 58/68] fix: operations on matrices with different numbers of
 rows are rejected instead of skipping rows

---
 matrix/src/complex.rs            |  2 ++
 matrix/src/general/elementary.rs |  8 ++++++++
 matrix/src/general/mod.rs        |  2 ++
 matrix/src/lib.rs                | 11 +++++++++++
 matrix/src/time_freq.rs          |  1 +
 5 files changed, 24 insertions(+)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index 2a4fbe4..cf22538 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -178,6 +178,7 @@ macro_rules! add_mat_impl {
 				fn set_real_imag(&mut self,
                                  real: &O,
                                  imag: &O) -> VoidResult {
+                    assert_same_rows!(self, real, imag);
                     for ((v, r), i) in self.rows_mut().iter_mut()
                                     .zip(real.rows())
                                     .zip(imag.rows()) {
@@ -190,6 +191,7 @@ macro_rules! add_mat_impl {
 				fn set_mag_phase(&mut self,
                                  mag: &O,
                                  phase: &O) -> VoidResult {
+                    assert_same_rows!(self, mag, phase);
                     for ((v, r), i) in self.rows_mut().iter_mut()
                                      .zip(mag.rows())
                                      .zip(phase.rows()) {
diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index 7b94333..a12fa03 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -46,6 +46,7 @@ macro_rules! add_mat_impl {
                     for $matrix<V, S, T>
                     where V: ElementaryOps<V, T, N, D> + GetMetaData<T, N, D> {
 				fn add(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.add(o)?;
 					}
@@ -54,6 +55,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn sub(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.sub(o)?;
 					}
@@ -62,6 +64,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn div(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.div(o)?;
 					}
@@ -70,6 +73,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn mul(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.mul(o)?;
 					}
@@ -119,6 +123,7 @@ macro_rules! add_mat_impl {
                     for $matrix<V, S, T>
                     where V: ElementaryWrapAroundOps<V, T, N, D> + GetMetaData<T, N, D> {
 				fn add_smaller(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.add_smaller(o)?;
 					}
@@ -127,6 +132,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn sub_smaller(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.sub_smaller(o)?;
 					}
@@ -135,6 +141,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn div_smaller(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.div_smaller(o)?;
 					}
@@ -143,6 +150,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn mul_smaller(&mut self, summand: &Self) -> VoidResult {
+					assert_same_rows!(self, summand);
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.mul_smaller(o)?;
 					}
diff --git a/matrix/src/general/mod.rs b/matrix/src/general/mod.rs
index 562f49b..f6fd59e 100644
--- a/matrix/src/general/mod.rs
+++ b/matrix/src/general/mod.rs
@@ -14,6 +14,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product(&self, factor: &MatrixMxN<V, S, T>) -> ScalarResult<Vec<T>> {
+        assert_same_rows!(self, factor);
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product(o)?;
@@ -158,6 +159,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product_prec(&self, factor: &MatrixMxN<V, S, T>) -> ScalarResult<Vec<T>> {
+        assert_same_rows!(self, factor);
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product_prec(o)?;
diff --git a/matrix/src/lib.rs b/matrix/src/lib.rs
index 0a4b5bc..da0212f 100644
--- a/matrix/src/lib.rs
+++ b/matrix/src/lib.rs
@@ -9,6 +9,17 @@ extern crate basic_dsp_vector;
 use basic_dsp_vector::numbers::*;
 use basic_dsp_vector::*;
 
+/// Rejects an operation if its operands don't have the same number of rows.
+macro_rules! assert_same_rows {
+    ($self_: expr, $($other: expr),+) => {
+        $(
+            if $self_.rows().len() != $other.rows().len() {
+                return Err(ErrorReason::InputMustHaveTheSameSize);
+            }
+        )+
+    };
+}
+
 mod mat_impl;
 pub use self::mat_impl::*;
 mod to_from_mat_conversions;
diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index 4aef619..a5cbe12 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -255,6 +255,7 @@ macro_rules! add_mat_impl {
 						other: &O)
 						-> VoidResult
                     where B: for<'b> Buffer<'b, S, T> {
+					assert_same_rows!(self, other);
 					for (v, o) in self.rows_mut().iter_mut().zip(other.rows()) {
 						v.correlate(buffer, o)?;
 					}
-- 
2.43.0


From 96a59b7c3da1bcfe403be6ef80ad727cbf337261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 59/68] fix: convolve_signal of a matrix rejects impulse
 responses which don't fit instead of returning arbitrary samples

---
 matrix/src/time_freq.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index a5cbe12..f4e6bec 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -441,6 +441,22 @@ macro_rules! convolve_signal {
     ($self_: expr, $buffer: ident, $impulse_response: ident) => {{
         let col_len = $self_.col_len();
         let row_len = $self_.row_len();
+        if $impulse_response.len() != col_len {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
+        for v in $self_.rows() {
+            if v.domain() != DataDomain::Time {
+                return Err(ErrorReason::InputMustBeInTimeDomain);
+            }
+            for i in $impulse_response.iter().flat_map(|i| i.iter()) {
+                if v.is_complex() != i.is_complex() || v.domain() != i.domain() {
+                    return Err(ErrorReason::InputMetaDataMustAgree);
+                }
+                if v.points() < i.points() {
+                    return Err(ErrorReason::InvalidArgumentLength);
+                }
+            }
+        }
         let mut target = $buffer.borrow(row_len * col_len);
         {
             let rows: Vec<&DspVec<S, T, N, D>> = $self_.rows().iter().collect();
-- 
2.43.0


From 20bddcb9a26c3e85b5e8e0d9a4ddc73a974d351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 60/68] fix: atan of the C interface computes the tangent

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 61f890d..79549e8 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -446,7 +446,7 @@ pub extern "C" fn acos32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b54d5aa..a89aa12 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -447,7 +447,7 @@ pub extern "C" fn acos64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
-- 
2.43.0


From 516b201568d48cb07c15e3cb086b60ad447aa002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 61/68] fix: sub of the C interface takes a handle like the
 other operations, not the address of one

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 79549e8..c5fc82f 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -175,7 +175,7 @@ pub extern "C" fn add32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index a89aa12..2872878 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -176,7 +176,7 @@ pub extern "C" fn add64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
-- 
2.43.0


From 12ab499c8fe592f2dd6b772b75446554dba51db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 62/68] fix: C functions which only return a code report
 success as 0 and not as an error

---
 interop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 0f8b45d..47f7867 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -99,7 +99,7 @@ where
 
 pub fn convert_void(result: VoidResult) -> i32 {
     match result {
-        Ok(()) => 9,
+        Ok(()) => 0,
         Err(err) => translate_error(err),
     }
 }
-- 
2.43.0


From ad097ec0959f836d230b91878509bb825be29b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 63/68] fix: fft_shift and ifft_shift are exported by the C
 interface

---
 interop/src/facade32.rs | 2 ++
 interop/src/facade64.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index c5fc82f..559251a 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -960,10 +960,12 @@ pub extern "C" fn mirror32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 2872878..86ded2d 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -961,10 +961,12 @@ pub extern "C" fn mirror64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
-- 
2.43.0


From 2b6822016993efa1b1dc5f4ee538b5a1a9a259d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 64/68] fix: overwrite_data of the C interface accepts data for
 the whole vector

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 559251a..666c220 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -830,7 +830,7 @@ pub extern "C" fn overwrite_data32(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 86ded2d..93c6361 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -831,7 +831,7 @@ pub extern "C" fn overwrite_data64(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
-- 
2.43.0


From 2a5732314b4b5b450a00ffd656738a85b0510860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 65/68] fix: C functions which only read a vector don't free it

---
 interop/src/facade32.rs | 16 ++++++++--------
 interop/src/facade64.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 666c220..0cdb943 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -561,12 +561,12 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -649,12 +649,12 @@ pub extern "C" fn map_aggregate_complex32(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -664,7 +664,7 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -684,7 +684,7 @@ pub extern "C" fn plain_ifft32(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone32(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone32(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -766,7 +766,7 @@ pub extern "C" fn mul_smaller_vector32(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -775,7 +775,7 @@ pub extern "C" fn get_real_imag32(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 93c6361..859e6a9 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -562,12 +562,12 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -650,12 +650,12 @@ pub extern "C" fn map_aggregate_complex64(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -665,7 +665,7 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -685,7 +685,7 @@ pub extern "C" fn plain_ifft64(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone64(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone64(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -767,7 +767,7 @@ pub extern "C" fn mul_smaller_vector64(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -776,7 +776,7 @@ pub extern "C" fn get_real_imag64(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-- 
2.43.0


From a0bd22501dfd4363fcec25500bbcf465959faff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:44 +0000
Subject: [PATCH 66/68] fix: InlineVector can be collected from more than 64
 elements

---
 vector/src/inline_vector/dynamic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/inline_vector/dynamic.rs b/vector/src/inline_vector/dynamic.rs
index 12d4119..85158ac 100644
--- a/vector/src/inline_vector/dynamic.rs
+++ b/vector/src/inline_vector/dynamic.rs
@@ -257,7 +257,8 @@ impl<T: Clone> Clone for InlineVector<T> {
 
 impl<T> FromIterator<T> for InlineVector<T> {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut c = InlineVector::with_capacity(64);
+        let iter = iter.into_iter();
+        let mut c = InlineVector::with_capacity(iter.size_hint().0.max(64));
 
         for i in iter {
             c.push(i);
-- 
2.43.0


From b23ed920222ce05f524fc7c5b2d67042132befd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:44 +0000
Subject: [PATCH 67/68] fix: with_thresholds accepts the largest possible dual
 core thresholds

---
 vector/src/multicore_support/threading.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 6813751..ef3f372 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -271,10 +271,11 @@ impl MultiCoreSettings {
         MultiCoreSettings {
             core_limit,
             med_dual_core_threshold,
-            med_multi_core_threshold: med_multi_core_threshold.max(med_dual_core_threshold + 1),
+            med_multi_core_threshold: med_multi_core_threshold
+                .max(med_dual_core_threshold.saturating_add(1)),
             large_dual_core_threshold,
             large_multi_core_threshold: large_multi_core_threshold
-                .max(large_dual_core_threshold + 1),
+                .max(large_dual_core_threshold.saturating_add(1)),
         }
     }
 }
-- 
2.43.0


From 95fcc852e32314de6f9456b6fc98c662a5d698bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:44 +0000
Subject: [PATCH 68/68] fix: calibration doesn't overflow if the lines for one
 and several threads are almost parallel

---
 vector/src/multicore_support/threading.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index ef3f372..7398fd4 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -135,12 +135,12 @@ fn attempt_calibrate(number_of_cores: usize) -> Result<Calibration, u32> {
     // The multiplication factor is the less well reasoned part in this equiation. It should only help
     // to avoid that threads are spawned too aggressively.
     let med_dual_core_threshold = limit(
-        2 * med_dual_core_threshold_res.unwrap(),
+        med_dual_core_threshold_res.unwrap().saturating_mul(2),
         dual_core_min,
         dual_core_max,
     );
     let med_multi_core_threshold = limit(
-        2 * med_multi_core_threshold_res.unwrap(),
+        med_multi_core_threshold_res.unwrap().saturating_mul(2),
         med_dual_core_threshold + 1,
         multi_core_max,
     );
-- 
2.43.0

