From 99407d1f858af204fc685c976776632941566e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 01/41] fix: signbit reports whether the sign bit is set

OpSignBitAPI evaluated is_positive() on both the serial and the rayon
device, the opposite of what the array API (and the documentation table)
defines.
---
 rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs | 2 +-
 rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
index 5bf2e0d..255d365 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
index 5712062..3241689 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
-- 
2.43.0


From f70fc7c24106e3a11f8ad9e10c98bc7fef91efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:30 +0000
Subject: [PATCH 02/41] fix: give every element of a binary operation's result
 its own memory

When both operands were broadcast along the same axis, the result of
add/sub/..., mapb and vecdot got stride 0 there, so each stored element was written once per logical
index, by several threads at the same time on a multi-threaded device,
values of types that own resources were lost, and the owned result could
not be updated in place.
---
 rstsr-common/src/layout/rearrangement.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rstsr-common/src/layout/rearrangement.rs b/rstsr-common/src/layout/rearrangement.rs
index 0464e7f..559c886 100644
--- a/rstsr-common/src/layout/rearrangement.rs
+++ b/rstsr-common/src/layout/rearrangement.rs
@@ -379,13 +379,15 @@ where
 ///
 /// - Before calling this function, the two layouts should have the same shape (i.e., already been
 ///   broadcasted).
-/// - First, determine the axes with shape = 1 (`a1`), stride = 0 (`a0`), contiguous parts sorted
-///   (ascending) by stride size (`ac`), and remaining axes (`ad`).
+/// - First, determine the axes with shape = 1 (`a1`), contiguous parts sorted (ascending) by stride
+///   size (`ac`), and remaining axes (`ad`).
 /// - For output, contiguous parts remains the same as input, remaining axes are re-assigned strides
 ///   by the input `order` (row-major or col-major).
 /// - For axes with shape = 1, this function will assign stride by near non-zero stride, right-close
 ///   for row-major and left-close for col-major, otherwise 1.
-/// - For axes with stride = 0, this function will still assign stride 0 (as broadcasted).
+/// - Axes with stride = 0 in both inputs (broadcasted) are handled as remaining axes: every element
+///   of the output must have its own place in memory, otherwise an element would be written more
+///   than once (and by several threads at the same time).
 ///
 /// ## Error processing
 ///
@@ -404,11 +406,9 @@ where
     )?;
 
     let ndim = la.ndim();
-    let (a1, a0_a, ac_a, _) = get_axes_composition(la);
-    let (_, a0_b, ac_b, _) = get_axes_composition(lb);
+    let (a1, _, ac_a, _) = get_axes_composition(la);
+    let (_, _, ac_b, _) = get_axes_composition(lb);
 
-    // a0_o = a0_a ∩ a0_b
-    let a0_o = a0_a.iter().filter(|&&i| a0_b.contains(&i)).cloned().collect_vec();
     // ac_o = first same axes in ac_a and ac_b
     let mut ac_o = vec![];
     for (ic_a, ic_b) in ac_a.iter().zip(ac_b.iter()) {
@@ -419,7 +419,7 @@ where
         }
     }
     // ad_o = remaining
-    let mut ad_o = (0..ndim).filter(|&i| !a0_o.contains(&i) && !ac_o.contains(&i) && !a1.contains(&i)).collect_vec();
+    let mut ad_o = (0..ndim).filter(|&i| !ac_o.contains(&i) && !a1.contains(&i)).collect_vec();
     // reverse ad_o if row-major
     if order == RowMajor {
         ad_o.reverse();
@@ -451,7 +451,6 @@ where
         }
         stride[i] = s;
     }
-    // a0_o: stride = 0, but that has already initialized as zero.
 
     let shape = la.shape().clone();
     let layout = unsafe { Layout::new_unchecked(shape, stride, 0) };
-- 
2.43.0


From 20eab1bd505899ff9c8618f43da154b255741373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 03/41] fix: reduce over axes of broadcast or empty tensors

The multiplicity of broadcast reduced axes was taken from the remaining axes,
the result was laid out so that broadcast remaining axes broke its contiguous
part (error), their copies were written relative to the input's offset and
dropped the value they were cloned from, and empty tensors were indexed.
---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 27 +++++++++++++------
 rstsr-native-impl/src/cpu_serial/reduction.rs | 27 +++++++++++++------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 3182a57..f24c986 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -149,17 +149,27 @@ where
     // summed axes are used together with remaining axes, where offset of layout may double-counted.
     let offset = la.offset();
 
-    // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
-    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
-
     // extract contiguous part and its corresponding dimensions
     // returns: remaining layout, remaining axes loc, contiguous size, contiguous axes loc
     let (_as1, as0, asc, asd) = get_axes_composition(&ls);
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
+    // create output layout (keep order of the remaining axes, with broadcasted axes moved to the slowest
+    // varying, so that contiguous part of the remaining axes is also contiguous in output)
+    let (_, mut axes_lo) = greedy_layout(&lm, true);
+    axes_lo.sort_by_key(|&i| am0.contains(&(i as usize)));
+    let lo = lm.transpose(&axes_lo)?.shape().f().transpose(&reversed_permute(&axes_lo))?;
+
+    // no elements to be reduced, then every element of output (if any) is the reduced value of nothing
+    if la.size() == 0 {
+        let out = (0..lo.size()).map(|_| f_out(init())).collect_vec();
+        return Ok((out, lo));
+    }
+
+    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
+
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -288,12 +298,13 @@ where
             let (locd, _) = lo.dim_split_axes(&amcd)?;
             let it_ocd = IterLayoutColMajor::new(&locd)?;
 
-            it_o0.for_each(|idx_o0| {
+            // the first index of broadcasted axes is the reduced value itself
+            it_o0.skip(1).for_each(|idx_o0| {
                 it_ocd.clone().for_each(|idx_ocd| {
-                    let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                    let idx_o0 = idx_o0 + idx_ocd; // offset of output layout is zero
 
                     // Safety: the c/d part without broadcast should have been initialized by reduced value
-                    let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                    let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                     out[idx_o0].write(val);
                 });
             });
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 3c5b6ee..90acd87 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -213,17 +213,27 @@ where
     // summed axes are used together with remaining axes, where offset of layout may double-counted.
     let offset = la.offset();
 
-    // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
-    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
-
     // extract contiguous part and its corresponding dimensions
     // returns: remaining layout, remaining axes loc, contiguous size, contiguous axes loc
     let (_as1, as0, asc, asd) = get_axes_composition(&ls);
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
+    // create output layout (keep order of the remaining axes, with broadcasted axes moved to the slowest
+    // varying, so that contiguous part of the remaining axes is also contiguous in output)
+    let (_, mut axes_lo) = greedy_layout(&lm, true);
+    axes_lo.sort_by_key(|&i| am0.contains(&(i as usize)));
+    let lo = lm.transpose(&axes_lo)?.shape().f().transpose(&reversed_permute(&axes_lo))?;
+
+    // no elements to be reduced, then every element of output (if any) is the reduced value of nothing
+    if la.size() == 0 {
+        let out = (0..lo.size()).map(|_| f_out(init())).collect_vec();
+        return Ok((out, lo));
+    }
+
+    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
+
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -337,12 +347,13 @@ where
         let (locd, _) = lo.dim_split_axes(&amcd)?;
         let it_ocd = IterLayoutColMajor::new(&locd)?;
 
-        it_o0.for_each(|idx_o0| {
+        // the first index of broadcasted axes is the reduced value itself
+        it_o0.skip(1).for_each(|idx_o0| {
             it_ocd.clone().for_each(|idx_ocd| {
-                let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                let idx_o0 = idx_o0 + idx_ocd; // offset of output layout is zero
 
                 // Safety: the c/d part without broadcast should have been initialized by reduced value
-                let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                 out[idx_o0].write(val);
             });
         });
-- 
2.43.0


From 5c00ea7161232ffe5c5cc3db3de872e9f3c7c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 04/41] fix: minimum and maximum of infinite floats

---
 rstsr-dtype-traits/src/ext_real.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rstsr-dtype-traits/src/ext_real.rs b/rstsr-dtype-traits/src/ext_real.rs
index 6cb9f8e..919deec 100644
--- a/rstsr-dtype-traits/src/ext_real.rs
+++ b/rstsr-dtype-traits/src/ext_real.rs
@@ -14,7 +14,7 @@ pub trait ExtReal: Clone {
     /// std library of rust).
     fn ext_min(self, other: Self) -> Self;
 
-    /// The minimum value that can be represented by this type.
+    /// The minimum value that can be represented by this type (negative infinity for floats).
     fn ext_min_value() -> Self;
 
     /// Returns the maximum of two numbers.
@@ -25,7 +25,7 @@ pub trait ExtReal: Clone {
     /// std library of rust).
     fn ext_max(self, other: Self) -> Self;
 
-    /// The maximum value that can be represented by this type.
+    /// The maximum value that can be represented by this type (positive infinity for floats).
     fn ext_max_value() -> Self;
 }
 
@@ -76,13 +76,13 @@ impl ExtReal for T {
         T::min(self, other)
     }
     fn ext_min_value() -> Self {
-        Self::MIN
+        Self::NEG_INFINITY
     }
     fn ext_max(self, other: Self) -> Self {
         T::max(self, other)
     }
     fn ext_max_value() -> Self {
-        Self::MAX
+        Self::INFINITY
     }
 }
 
@@ -96,12 +96,12 @@ impl ExtReal for T {
         T::min(self, other)
     }
     fn ext_min_value() -> Self {
-        Self::MIN
+        Self::NEG_INFINITY
     }
     fn ext_max(self, other: Self) -> Self {
         T::max(self, other)
     }
     fn ext_max_value() -> Self {
-        Self::MAX
+        Self::INFINITY
     }
 }
-- 
2.43.0


From 3b9712acbc838c1e597c849fc871f195041f97bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 05/41] fix: argmin/argmax over axes index the axes as given

The parallel path re-arranged the reduced axes (flipping negative strides and
re-ordering them) and then reported positions in the re-arranged axes, read
with an offset that no longer matched.
---
 rstsr-native-impl/src/cpu_rayon/reduction.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index f24c986..7005396 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -541,8 +541,8 @@ where
     }
 
     // split the layout into axes (to be summed) and the rest
+    // note that layout_axes should not be re-arranged, since indices are reported by its axes
     let (layout_axes, layout_rest) = la.dim_split_axes(axes)?;
-    let layout_axes = translate_to_col_major_unary(&layout_axes, TensorIterOrder::default())?;
 
     // generate layout for result (from layout_rest)
     let layout_out = layout_for_array_copy(&layout_rest, TensorIterOrder::default())?;
@@ -579,8 +579,7 @@ where
     };
     let out = unsafe { transmute::<Vec<MaybeUninit<IxD>>, Vec<IxD>>(out) };
     // returns (indices, layout_axes, layout_out): each index in `out` is an
-    // unraveled position within `layout_axes` (the reduced-axes space, possibly
-    // greedy-reordered by `translate_to_col_major_unary`), *not* within
+    // unraveled position within `layout_axes` (the reduced-axes space), *not* within
     // `layout_out`. Callers that ravel the indices must use `layout_axes.shape()`.
     Ok((out, layout_axes, layout_out))
 }
-- 
2.43.0


From 362ad4bcfa313c1982d91e8f49e52caf7c9315cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 06/41] fix: argmin/argmax of NaN do not depend on the schedule

NaN compared false against everything, so the outcome depended on which
element each parallel chunk started with. NaN is now preferred, as in NumPy.
---
 rstsr-core/src/device_cpu_serial/reduction.rs | 128 +++---------------
 .../src/feature_rayon/auto_impl/reduction.rs  | 128 +++---------------
 rstsr-native-impl/src/cpu_serial/reduction.rs |  25 ++++
 3 files changed, 57 insertions(+), 224 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/reduction.rs b/rstsr-core/src/device_cpu_serial/reduction.rs
index 675d456..4f3a2c0 100644
--- a/rstsr-core/src/device_cpu_serial/reduction.rs
+++ b/rstsr-core/src/device_cpu_serial/reduction.rs
@@ -333,39 +333,15 @@ where
         la: &Layout<D>,
         axes: &[isize],
     ) -> Result<(Storage<DataOwned<Vec<usize>>, Self::TOut, Self>, Layout<IxD>)> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, layout_out) = reduce_axes_arg_cpu_serial(a, la, axes, f_comp, f_eq, RowMajor)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
 
     fn argmin_all(&self, a: &Vec<T>, la: &Layout<D>) -> Result<Self::TOut> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_arg_cpu_serial(a, la, f_comp, f_eq, RowMajor)?;
         Ok(result)
     }
@@ -384,39 +360,15 @@ where
         la: &Layout<D>,
         axes: &[isize],
     ) -> Result<(Storage<DataOwned<Vec<usize>>, Self::TOut, Self>, Layout<IxD>)> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, layout_out) = reduce_axes_arg_cpu_serial(a, la, axes, f_comp, f_eq, RowMajor)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
 
     fn argmax_all(&self, a: &Vec<T>, la: &Layout<D>) -> Result<Self::TOut> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_arg_cpu_serial(a, la, f_comp, f_eq, RowMajor)?;
         Ok(result)
     }
@@ -527,39 +479,15 @@ where
         la: &Layout<D>,
         axes: &[isize],
     ) -> Result<(Storage<DataOwned<Vec<IxD>>, IxD, Self>, Layout<IxD>)> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, _layout_axes, layout_out) = reduce_axes_unraveled_arg_cpu_serial(a, la, axes, f_comp, f_eq)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
 
     fn unraveled_argmin_all(&self, a: &<Self as DeviceRawAPI<T>>::Raw, la: &Layout<D>) -> Result<D> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_unraveled_arg_cpu_serial(a, la, f_comp, f_eq)?;
         Ok(result)
     }
@@ -576,39 +504,15 @@ where
         la: &Layout<D>,
         axes: &[isize],
     ) -> Result<(Storage<DataOwned<Vec<IxD>>, IxD, Self>, Layout<IxD>)> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, _layout_axes, layout_out) = reduce_axes_unraveled_arg_cpu_serial(a, la, axes, f_comp, f_eq)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
 
     fn unraveled_argmax_all(&self, a: &<Self as DeviceRawAPI<T>>::Raw, la: &Layout<D>) -> Result<D> {
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_unraveled_arg_cpu_serial(a, la, f_comp, f_eq)?;
         Ok(result)
     }
diff --git a/rstsr-core/src/feature_rayon/auto_impl/reduction.rs b/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
index 793fcd2..1be2bca 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
@@ -368,20 +368,8 @@ where
     ) -> Result<(Storage<DataOwned<Vec<usize>>, Self::TOut, Self>, Layout<IxD>)> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, layout_out) = reduce_axes_arg_cpu_rayon(a, la, axes, f_comp, f_eq, RowMajor, pool)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
@@ -389,20 +377,8 @@ where
     fn argmin_all(&self, a: &Vec<T>, la: &Layout<D>) -> Result<Self::TOut> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_arg_cpu_rayon(a, la, f_comp, f_eq, RowMajor, pool)?;
         Ok(result)
     }
@@ -423,20 +399,8 @@ where
     ) -> Result<(Storage<DataOwned<Vec<usize>>, Self::TOut, Self>, Layout<IxD>)> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, layout_out) = reduce_axes_arg_cpu_rayon(a, la, axes, f_comp, f_eq, RowMajor, pool)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
@@ -444,20 +408,8 @@ where
     fn argmax_all(&self, a: &Vec<T>, la: &Layout<D>) -> Result<Self::TOut> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_arg_cpu_rayon(a, la, f_comp, f_eq, RowMajor, pool)?;
         Ok(result)
     }
@@ -582,20 +534,8 @@ where
     ) -> Result<(Storage<DataOwned<Vec<IxD>>, IxD, Self>, Layout<IxD>)> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, _layout_axes, layout_out) = reduce_axes_unraveled_arg_cpu_rayon(a, la, axes, f_comp, f_eq, pool)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
@@ -603,20 +543,8 @@ where
     fn unraveled_argmin_all(&self, a: &<Self as DeviceRawAPI<T>>::Raw, la: &Layout<D>) -> Result<D> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y < x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y < x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_unraveled_arg_cpu_rayon(a, la, f_comp, f_eq, pool)?;
         Ok(result)
     }
@@ -635,20 +563,8 @@ where
     ) -> Result<(Storage<DataOwned<Vec<IxD>>, IxD, Self>, Layout<IxD>)> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let (out, _layout_axes, layout_out) = reduce_axes_unraveled_arg_cpu_rayon(a, la, axes, f_comp, f_eq, pool)?;
         Ok((Storage::new(out.into(), self.clone()), layout_out))
     }
@@ -656,20 +572,8 @@ where
     fn unraveled_argmax_all(&self, a: &<Self as DeviceRawAPI<T>>::Raw, la: &Layout<D>) -> Result<D> {
         let pool = self.get_current_pool();
 
-        let f_comp = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y > x)
-            } else {
-                Some(true)
-            }
-        };
-        let f_eq = |x: Option<T>, y: T| -> Option<bool> {
-            if let Some(x) = x {
-                Some(y == x)
-            } else {
-                Some(false)
-            }
-        };
+        let f_comp = |x: Option<T>, y: T| reduce_arg_comp(x, y, |y, x| y > x);
+        let f_eq = |x: Option<T>, y: T| reduce_arg_eq(x, y);
         let result = reduce_all_unraveled_arg_cpu_rayon(a, la, f_comp, f_eq, pool)?;
         Ok(result)
     }
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 90acd87..75298f1 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -433,6 +433,31 @@ where
 
 /* #region reduce unraveled axes */
 
+/// Whether current value `y` should be accepted instead of previous value `x` (argmin, argmax).
+///
+/// Values that are not comparable to themselves (NaN) are accepted prior to any other value, so that
+/// the result does not depend on how the iteration is split. This is also the convention of NumPy.
+pub fn reduce_arg_comp<T>(x: Option<T>, y: T, f: impl Fn(&T, &T) -> bool) -> Option<bool>
+where
+    T: PartialOrd,
+{
+    match x {
+        Some(x) => Some(f(&y, &x) || (y.partial_cmp(&y).is_none() && x.partial_cmp(&x).is_some())),
+        None => Some(true),
+    }
+}
+
+/// Whether current value `y` is same to previous value `x` (argmin, argmax).
+pub fn reduce_arg_eq<T>(x: Option<T>, y: T) -> Option<bool>
+where
+    T: PartialOrd,
+{
+    match x {
+        Some(x) => Some(y == x || (y.partial_cmp(&y).is_none() && x.partial_cmp(&x).is_none())),
+        None => Some(false),
+    }
+}
+
 pub fn reduce_all_unraveled_arg_cpu_serial<T, D, Fcomp, Feq>(
     a: &[T],
     la: &Layout<D>,
-- 
2.43.0


From b80552d583596941da2b97666ba0a64b25f59a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 07/41] fix: indexed iterators report the last item's own index
 when walked backwards

---
 rstsr-common/src/layout/iterator.rs    | 13 +++++++-----
 rstsr-core/src/tensor/iterator_axes.rs | 18 +++++++++--------
 rstsr-core/src/tensor/iterator_elem.rs | 28 +++++++++++++++-----------
 3 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 1329ac6..f41a0f9 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -801,11 +801,14 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start.clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start.clone(),
-        };
-        self.layout_iter.next_back().map(|offset| (index, offset))
+        // end of iterator is exclusive, so index of the last item is known after stepping back
+        self.layout_iter.next_back().map(|offset| {
+            let index = match &self.layout_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end.clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end.clone(),
+            };
+            (index, offset)
+        })
     }
 }
 
diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index abe8825..b8b13b1 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -355,11 +355,12 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
+        // end of iterator is exclusive, so index of the last item is known after stepping back
         self.axes_iter.next_back().map(|offset| {
+            let index = match &self.axes_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
             self.update_offset(offset);
             (index, unsafe { transmute(self.view.view()) })
         })
@@ -533,11 +534,12 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
+        // end of iterator is exclusive, so index of the last item is known after stepping back
         self.axes_iter.next_back().map(|offset| {
+            let index = match &self.axes_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
             self.update_offset(offset);
             unsafe { transmute((index, self.view.view_mut())) }
         })
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index c8703fb..9cfa80d 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -209,11 +209,14 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
-        self.layout_iter.next_back().map(|offset| (index, &self.view[offset]))
+        // end of iterator is exclusive, so index of the last item is known after stepping back
+        self.layout_iter.next_back().map(|offset| {
+            let index = match &self.layout_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
+            (index, &self.view[offset])
+        })
     }
 }
 
@@ -309,13 +312,14 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
-        self.layout_iter
-            .next_back()
-            .map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
+        // end of iterator is exclusive, so index of the last item is known after stepping back
+        self.layout_iter.next_back().map(|offset| {
+            let index = match &self.layout_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
+            (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) })
+        })
     }
 }
 
-- 
2.43.0


From ba455febdd4398ea7e2ed4ed4d3dd752d691973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 08/41] fix: axes iterators over no axes, and a negative axis
 after the first

---
 rstsr-core/src/tensor/iterator_axes.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index b8b13b1..43f69d5 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -93,11 +93,11 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -248,11 +248,11 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -422,11 +422,11 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -595,11 +595,11 @@ where
         let mut axes_check = axes.clone();
         axes_check.sort();
         // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        for i in 1..axes_check.len() {
+            rstsr_assert!(axes_check[i - 1] != axes_check[i], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
-- 
2.43.0


From 0c2b74d3ac8a3b330a945681f4ed1152a0c7facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 09/41] fix: split an iterator over an empty layout

---
 rstsr-common/src/layout/iterator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index f41a0f9..f58337a 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -90,7 +90,11 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_f(iter_ins) };
+        // an empty layout can only be split into empty parts
+        let index_ins = match layout.size() {
+            0 => layout.new_shape(),
+            _ => unsafe { shape.unravel_index_f(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
@@ -413,7 +417,11 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_c(iter_ins) };
+        // an empty layout can only be split into empty parts
+        let index_ins = match layout.size() {
+            0 => layout.new_shape(),
+            _ => unsafe { shape.unravel_index_c(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
-- 
2.43.0


From 98ad8a62082f1051dbfeb6239c70d77e8fc20974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:26 +0000
Subject: [PATCH 10/41] fix: mutable indexed axes iterator accepts only orders
 its index is defined for

---
 rstsr-core/src/tensor/iterator_axes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 43f69d5..29ae171 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -583,6 +583,12 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
+        use TensorIterOrder::*;
+        // this function only accepts c/f iter order currently
+        match order {
+            C | F => (),
+            _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
+        };
         // convert axis to negative indexes and sort
         let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
         let axes: Vec<isize> = axes
-- 
2.43.0


From b4c74b433ba12c80d8b02684c7ffbd7ec727af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 11/41] fix: refuse mutable iteration over items that share
 memory

---
 rstsr-core/src/tensor/iterator_axes.rs | 4 ++++
 rstsr-core/src/tensor/iterator_elem.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 29ae171..0961e13 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -269,6 +269,8 @@ where
             stride_axes.push(stride_full[idx as usize]);
         }
         let layout_axes = unsafe { Layout::new_unchecked(shape_axes, stride_axes, offset) };
+        // items of broadcasted axes are the same sub-tensor, can not be handed out mutably
+        layout_axes.check_strides(false)?;
 
         // get layout for inner view
         let mut shape_inner = vec![];
@@ -622,6 +624,8 @@ where
             stride_axes.push(stride_full[idx as usize]);
         }
         let layout_axes = unsafe { Layout::new_unchecked(shape_axes, stride_axes, offset) };
+        // items of broadcasted axes are the same sub-tensor, can not be handed out mutably
+        layout_axes.check_strides(false)?;
 
         // get layout for inner view
         let mut shape_inner = vec![];
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index 9cfa80d..d483d14 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -153,6 +153,8 @@ where
     B: DeviceAPI<T, Raw = Vec<T>> + 'a,
 {
     pub fn iter_mut_with_order_f(&'a mut self, order: TensorIterOrder) -> Result<IterVecMut<'a, T, D>> {
+        // elements of broadcasted tensor are the same memory, can not be handed out mutably
+        self.layout().check_strides(false)?;
         let layout_iter = IterLayout::new(self.layout(), order)?;
         let raw = self.raw_mut().as_mut();
         let iter = IterVecMut { layout_iter, view: raw };
@@ -362,6 +364,8 @@ where
             C | F => (),
             _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
         };
+        // elements of broadcasted tensor are the same memory, can not be handed out mutably
+        self.layout().check_strides(false)?;
         let layout_iter = IterLayout::<D>::new(self.layout(), order)?;
         let raw = self.raw_mut().as_mut();
 
-- 
2.43.0


From e038d9899e2eb41b6064b9423f9ba1773c7e0168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 12/41] fix: triu with a diagonal beyond the last column stays
 inside the row

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index ec46cfe..10c41f0 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -573,9 +573,9 @@ pub fn triu_ix2_cpu_serial<T>(raw: &mut [T], layout: &Layout<Ix2>, k: isize) ->
 where
     T: Num + Clone,
 {
-    let [nrow, _] = *layout.shape();
+    let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_end = (i as isize + k).max(0) as usize;
+        let j_end = ((i as isize + k).max(0) as usize).min(ncol);
         for j in 0..j_end {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
-- 
2.43.0


From 132015c460b8d0d23e79bcfe5c700abc2f93003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:50 +0000
Subject: [PATCH 13/41] fix: packing and unpacking triangles of empty matrices
 does not panic

---
 rstsr-native-impl/src/cpu_rayon/op_tri.rs  | 10 ++++++++++
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/op_tri.rs b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
index bb8d8ac..4869f10 100644
--- a/rstsr-native-impl/src/cpu_rayon/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
@@ -23,6 +23,11 @@ where
     // we only parallel the rest dimensions, and inner dimensions are handled in
     // serial
 
+    // nothing to do for empty tensors (offsets may not be addressable in that case)
+    if la.size() == 0 {
+        return Ok(());
+    }
+
     // split dimensions
     let la_split = la.dim_split_at(-1)?;
     let lb_split = lb.dim_split_at(-2)?;
@@ -124,6 +129,11 @@ where
     // we only parallel the rest dimensions, and inner dimensions are handled in
     // serial
 
+    // nothing to do for empty tensors (offsets may not be addressable in that case)
+    if la.size() == 0 {
+        return Ok(());
+    }
+
     // split dimensions
     let la_split = la.dim_split_at(-2)?;
     let lb_split = lb.dim_split_at(-1)?;
diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index 10c41f0..e336905 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -85,6 +85,11 @@ where
     // - shape_a (..., n, n) and shape_b (..., n * (n + 1) / 2)
     // - rest shape are the same
 
+    // nothing to do for empty tensors (offsets may not be addressable in that case)
+    if la.size() == 0 {
+        return Ok(());
+    }
+
     // split dimensions
     let la_split = la.dim_split_at(-1)?;
     let lb_split = lb.dim_split_at(-2)?;
@@ -457,6 +462,11 @@ where
     // - shape_a (..., n * (n + 1) / 2) and shape_b (..., n, n)
     // - rest shape are the same
 
+    // nothing to do for empty tensors (offsets may not be addressable in that case)
+    if la.size() == 0 {
+        return Ok(());
+    }
+
     // split dimensions
     let la_split = la.dim_split_at(-2)?;
     let lb_split = lb.dim_split_at(-1)?;
-- 
2.43.0


From 26e903e31bf75974ab6233dd05cc5a420b220ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:14 +0000
Subject: [PATCH 14/41] fix: index_select with no indices on an empty axis is
 not an error

---
 rstsr-native-impl/src/cpu_rayon/adv_indexing.rs  | 2 +-
 rstsr-native-impl/src/cpu_serial/adv_indexing.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
index 117084d..6df4237 100644
--- a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
@@ -24,7 +24,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
diff --git a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
index b0dd57d..526fb4c 100644
--- a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
@@ -29,7 +29,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
-- 
2.43.0


From 56a605730cb29d33d8a730a2b39f648b37d6d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:14 +0000
Subject: [PATCH 15/41] fix: column-major eye has the requested number of rows
 and columns

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index d14de47..82e16e1 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -417,7 +417,7 @@ where
         let (n_rows, n_cols, k, order, device) = self;
         let layout = match order {
             RowMajor => [n_rows, n_cols].c(),
-            ColMajor => [n_cols, n_rows].f(),
+            ColMajor => [n_rows, n_cols].f(),
         };
         let mut storage = device.zeros_impl(layout.size())?;
         let layout_diag = layout.diagonal(Some(k), Some(0), Some(1))?;
-- 
2.43.0


From 2a590651d19023f9932005de953a6214944f7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 16/41] fix: arange of generic types handles negative steps and
 always ends

---
 rstsr-native-impl/src/cpu_serial/creation.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/creation.rs b/rstsr-native-impl/src/cpu_serial/creation.rs
index 1663436..c5ea524 100644
--- a/rstsr-native-impl/src/cpu_serial/creation.rs
+++ b/rstsr-native-impl/src/cpu_serial/creation.rs
@@ -10,10 +10,23 @@ where
 {
     // This is serial implementation and low performance
     let mut result = Vec::new();
+    if !(start < end || start > end) {
+        return result;
+    }
+    // values must move from start towards end, otherwise the interval is empty
+    let ascending = start < end;
     let mut current = start;
-    while current < end {
-        result.push(current.clone());
-        current = current + step.clone();
+    while if ascending { current < end } else { current > end } {
+        let next = current.clone() + step.clone();
+        if !(if ascending { next > current } else { next < current }) {
+            // wrong direction (nothing to give), or no more progress possible
+            if !result.is_empty() {
+                result.push(current);
+            }
+            break;
+        }
+        result.push(current);
+        current = next;
     }
     result
 }
-- 
2.43.0


From 47ef408262cb71865e4323f6cb4bb38a9b13d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 17/41] fix: diagonals above the main one of non-square
 matrices

---
 rstsr-common/src/layout/layoutbase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 9f82be2..643011e 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -354,7 +354,7 @@ where
             let offset_diag = (self.offset() as isize + t1 * offset) as usize;
             let d_diag = (d1 - offset).min(d2) as usize;
             (offset_diag, d_diag)
-        } else if (0..d1).contains(&offset) {
+        } else if (0..d2).contains(&offset) {
             let offset_diag = (self.offset() as isize + t2 * offset) as usize;
             let d_diag = (d2 - offset).min(d1) as usize;
             (offset_diag, d_diag)
-- 
2.43.0


From d2842d5d99a69dd0666331aed90fe235817cb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 18/41] fix: copying an empty view does not depend on its
 offset

---
 rstsr-native-impl/src/cpu_serial/assignment.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/assignment.rs b/rstsr-native-impl/src/cpu_serial/assignment.rs
index a6f7e22..62f9040 100644
--- a/rstsr-native-impl/src/cpu_serial/assignment.rs
+++ b/rstsr-native-impl/src/cpu_serial/assignment.rs
@@ -36,6 +36,11 @@ where
     DC: DimAPI,
     DA: DimAPI,
 {
+    // nothing to do for empty tensors (offsets may not be addressable in that case)
+    if lc.size() == 0 {
+        return Ok(());
+    }
+
     let contig = match order {
         RowMajor => lc.c_contig() && la.c_contig(),
         ColMajor => lc.f_contig() && la.f_contig(),
-- 
2.43.0


From d23a5c8a8c1188e2230b5425f1ff22ba13a4d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 19/41] fix: full with a layout allocates the whole extent of
 the layout

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index 82e16e1..c9834ff 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -543,7 +543,7 @@ where
 
     fn full_f(self) -> Result<Self::Out> {
         let (layout, fill, device) = self;
-        let idx_max = layout.size();
+        let (_, idx_max) = layout.bounds_index()?;
         let storage = device.full_impl(idx_max, fill)?;
         unsafe { Ok(Tensor::new_unchecked(storage, layout.into_dim()?)) }
     }
-- 
2.43.0


From 6531297488f3fcadaf645836838883798a28da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:04 +0000
Subject: [PATCH 20/41] fix: keep elements owned while an in-place operation
 may panic

---
 .../operators/op_binary_arithmetic.rs         | 44 +++++++++----------
 .../operators/op_binary_common.rs             | 10 ++---
 .../auto_impl/op_binary_arithmetic.rs         | 44 +++++++++----------
 .../auto_impl/op_binary_common.rs             | 10 ++---
 4 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
index e6aec47..b90425b 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
@@ -33,16 +33,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpLConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(a.assume_init_read() +  b.clone()); }];
-    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(a.assume_init_read() -  b.clone()); }];
-    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(a.assume_init_read() *  b.clone()); }];
-    [OpLConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(a.assume_init_read() /  b.clone()); }];
-    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(a.assume_init_read() %  b.clone()); }];
-    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(a.assume_init_read() |  b.clone()); }];
-    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(a.assume_init_read() &  b.clone()); }];
-    [OpLConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(a.assume_init_read() ^  b.clone()); }];
-    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(a.assume_init_read() << b.clone()); }];
-    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(a.assume_init_read() >> b.clone()); }];
+    [OpLConsumeAddAPI   ] [Add   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() +  b.clone(); }];
+    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() -  b.clone(); }];
+    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() *  b.clone(); }];
+    [OpLConsumeDivAPI   ] [Div   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() /  b.clone(); }];
+    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() %  b.clone(); }];
+    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() |  b.clone(); }];
+    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() &  b.clone(); }];
+    [OpLConsumeBitXorAPI] [BitXor] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() ^  b.clone(); }];
+    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() << b.clone(); }];
+    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() >> b.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceCpuSerial
 where
@@ -63,16 +63,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpRConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(b.clone() +  a.assume_init_read()); }];
-    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(b.clone() -  a.assume_init_read()); }];
-    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(b.clone() *  a.assume_init_read()); }];
-    [OpRConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(b.clone() /  a.assume_init_read()); }];
-    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(b.clone() %  a.assume_init_read()); }];
-    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(b.clone() |  a.assume_init_read()); }];
-    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(b.clone() &  a.assume_init_read()); }];
-    [OpRConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(b.clone() ^  a.assume_init_read()); }];
-    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(b.clone() << a.assume_init_read()); }];
-    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(b.clone() >> a.assume_init_read()); }];
+    [OpRConsumeAddAPI   ] [Add   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() +  a.assume_init_ref().clone(); }];
+    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() -  a.assume_init_ref().clone(); }];
+    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() *  a.assume_init_ref().clone(); }];
+    [OpRConsumeDivAPI   ] [Div   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() /  a.assume_init_ref().clone(); }];
+    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() %  a.assume_init_ref().clone(); }];
+    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() |  a.assume_init_ref().clone(); }];
+    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { *a.assume_init_mut() = b.clone() &  a.assume_init_ref().clone(); }];
+    [OpRConsumeBitXorAPI] [BitXor] [|a, b| unsafe { *a.assume_init_mut() = b.clone() ^  a.assume_init_ref().clone(); }];
+    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() << a.assume_init_ref().clone(); }];
+    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() >> a.assume_init_ref().clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceCpuSerial
 where
@@ -93,8 +93,8 @@ where
 
 #[duplicate_item(
      OpAPI      Op    func                              func_inplace        ;
-    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| unsafe { a.write(-a.assume_init_read()); }];
-    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| unsafe { a.write(!a.assume_init_read()); }];
+    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| unsafe { *a.assume_init_mut() = -a.assume_init_ref().clone(); }];
+    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| unsafe { *a.assume_init_mut() = !a.assume_init_ref().clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceCpuSerial
 where
diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
index 255d365..36188fc 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
@@ -81,8 +81,8 @@ where
 
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T>>, la: &Layout<D>) -> Result<()> {
         let mut func = |a: &mut MaybeUninit<T>| {
-            let b = unsafe { a.assume_init_read() };
-            a.write(b.clone() * b);
+            let a = unsafe { a.assume_init_mut() };
+            *a = a.clone() * a.clone();
         };
         self.op_muta_func(a, la, &mut func)
     }
@@ -144,7 +144,7 @@ where
             return Ok(());
         } else if T::ABS_SAME_TYPE {
             return self.op_muta_func(a, la, &mut |a| unsafe {
-                a.write(a.assume_init_read().ext_abs());
+                *a.assume_init_mut() = a.assume_init_ref().clone().ext_abs();
             });
         } else {
             let type_b = core::any::type_name::<T>();
@@ -175,7 +175,7 @@ where
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T::AbsOut>>, la: &Layout<D>) -> Result<()> {
         if T::ABS_SAME_TYPE {
             return self.op_muta_func(a, la, &mut |a| unsafe {
-                a.write(a.assume_init_read().ext_imag());
+                *a.assume_init_mut() = a.assume_init_ref().clone().ext_imag();
             });
         } else {
             let type_b = core::any::type_name::<T>();
@@ -228,7 +228,7 @@ where
 
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T>>, la: &Layout<D>) -> Result<()> {
         self.op_muta_func(a, la, &mut |a| unsafe {
-            a.write(a.assume_init_read().ext_sign());
+            *a.assume_init_mut() = a.assume_init_ref().clone().ext_sign();
         })
     }
 }
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
index 7ecee34..755c710 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
@@ -33,16 +33,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpLConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(a.assume_init_read() +  b.clone()); }];
-    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(a.assume_init_read() -  b.clone()); }];
-    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(a.assume_init_read() *  b.clone()); }];
-    [OpLConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(a.assume_init_read() /  b.clone()); }];
-    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(a.assume_init_read() %  b.clone()); }];
-    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(a.assume_init_read() |  b.clone()); }];
-    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(a.assume_init_read() &  b.clone()); }];
-    [OpLConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(a.assume_init_read() ^  b.clone()); }];
-    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(a.assume_init_read() << b.clone()); }];
-    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(a.assume_init_read() >> b.clone()); }];
+    [OpLConsumeAddAPI   ] [Add   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() +  b.clone(); }];
+    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() -  b.clone(); }];
+    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() *  b.clone(); }];
+    [OpLConsumeDivAPI   ] [Div   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() /  b.clone(); }];
+    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() %  b.clone(); }];
+    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() |  b.clone(); }];
+    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() &  b.clone(); }];
+    [OpLConsumeBitXorAPI] [BitXor] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() ^  b.clone(); }];
+    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() << b.clone(); }];
+    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { *a.assume_init_mut() = a.assume_init_ref().clone() >> b.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceRayonAutoImpl
 where
@@ -63,16 +63,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpRConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(b.clone() +  a.assume_init_read()); }];
-    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(b.clone() -  a.assume_init_read()); }];
-    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(b.clone() *  a.assume_init_read()); }];
-    [OpRConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(b.clone() /  a.assume_init_read()); }];
-    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(b.clone() %  a.assume_init_read()); }];
-    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(b.clone() |  a.assume_init_read()); }];
-    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(b.clone() &  a.assume_init_read()); }];
-    [OpRConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(b.clone() ^  a.assume_init_read()); }];
-    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(b.clone() << a.assume_init_read()); }];
-    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(b.clone() >> a.assume_init_read()); }];
+    [OpRConsumeAddAPI   ] [Add   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() +  a.assume_init_ref().clone(); }];
+    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() -  a.assume_init_ref().clone(); }];
+    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() *  a.assume_init_ref().clone(); }];
+    [OpRConsumeDivAPI   ] [Div   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() /  a.assume_init_ref().clone(); }];
+    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() %  a.assume_init_ref().clone(); }];
+    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() |  a.assume_init_ref().clone(); }];
+    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { *a.assume_init_mut() = b.clone() &  a.assume_init_ref().clone(); }];
+    [OpRConsumeBitXorAPI] [BitXor] [|a, b| unsafe { *a.assume_init_mut() = b.clone() ^  a.assume_init_ref().clone(); }];
+    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() << a.assume_init_ref().clone(); }];
+    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { *a.assume_init_mut() = b.clone() >> a.assume_init_ref().clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceRayonAutoImpl
 where
@@ -93,8 +93,8 @@ where
 
 #[duplicate_item(
      OpAPI      Op    func                              func_inplace        ;
-    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| unsafe { a.write(-a.assume_init_read()); }];
-    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| unsafe { a.write(!a.assume_init_read()); }];
+    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| unsafe { *a.assume_init_mut() = -a.assume_init_ref().clone(); }];
+    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| unsafe { *a.assume_init_mut() = !a.assume_init_ref().clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceRayonAutoImpl
 where
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
index 3241689..190c97b 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
@@ -81,8 +81,8 @@ where
 
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T>>, la: &Layout<D>) -> Result<()> {
         let mut func = |a: &mut MaybeUninit<T>| {
-            let b = unsafe { a.assume_init_read() };
-            a.write(b.clone() * b);
+            let a = unsafe { a.assume_init_mut() };
+            *a = a.clone() * a.clone();
         };
         self.op_muta_func(a, la, &mut func)
     }
@@ -145,7 +145,7 @@ where
             return Ok(());
         } else if T::ABS_SAME_TYPE {
             return self.op_muta_func(a, la, &mut |a| unsafe {
-                a.write(a.assume_init_read().ext_abs());
+                *a.assume_init_mut() = a.assume_init_ref().clone().ext_abs();
             });
         } else {
             let type_b = core::any::type_name::<T>();
@@ -177,7 +177,7 @@ where
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T::AbsOut>>, la: &Layout<D>) -> Result<()> {
         if T::ABS_SAME_TYPE {
             return self.op_muta_func(a, la, &mut |a| unsafe {
-                a.write(a.assume_init_read().ext_imag());
+                *a.assume_init_mut() = a.assume_init_ref().clone().ext_imag();
             });
         } else {
             let type_b = core::any::type_name::<T>();
@@ -231,7 +231,7 @@ where
 
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T>>, la: &Layout<D>) -> Result<()> {
         self.op_muta_func(a, la, &mut |a| unsafe {
-            a.write(a.assume_init_read().ext_sign());
+            *a.assume_init_mut() = a.assume_init_ref().clone().ext_sign();
         })
     }
 }
-- 
2.43.0


From 01d6ad3eabd97c10e7d2c9866b9fa3453734e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 21/41] fix: matrix products do not read an output that holds
 no values yet

---
 rstsr-core/src/tensor/linalg/matmul.rs          | 15 ++++++++-------
 rstsr-native-impl/src/cpu_rayon/matmul_naive.rs | 16 +++++++++-------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/rstsr-core/src/tensor/linalg/matmul.rs b/rstsr-core/src/tensor/linalg/matmul.rs
index 795ad7a..2be3825 100644
--- a/rstsr-core/src/tensor/linalg/matmul.rs
+++ b/rstsr-core/src/tensor/linalg/matmul.rs
@@ -17,7 +17,7 @@ where
     DC: DimAPI,
     // operation specific
     TA: Mul<TB, Output = TC>,
-    TC: Zero + One,
+    TC: Zero + One + Clone,
     B: DeviceCreationAnyAPI<TC>,
     LayoutMatMulConfig<DA, DB>: LayoutMatMulAPI<DA, DB, DC = DC>,
     B: DeviceMatMulAPI<TA, TB, TC, DA, DB, DC>,
@@ -81,7 +81,7 @@ where
     DB: DimAPI,
     DC: DimAPI,
     // operation specific
-    TC: Zero,
+    TC: Zero + Clone,
     B: DeviceCreationAnyAPI<TC>,
     LayoutMatMulConfig<DA, DB>: LayoutMatMulAPI<DA, DB, DC = DC>,
     B: DeviceMatMulAPI<TA, TB, TC, DA, DB, DC>,
@@ -91,7 +91,8 @@ where
     let default_order = a.device().default_order();
     let cfg = LayoutMatMulConfig::<DA, DB>::layout_matmul(a.layout(), b.layout(), default_order)?;
     let lc = cfg.lc;
-    let mut c: Tensor<TC, B, _> = unsafe { empty((lc, a.device())) }.into_dim_f()?;
+    // the output is read (scaled by zero) and overwritten below, so it must hold values
+    let mut c: Tensor<TC, B, _> = full_f((lc, TC::zero(), a.device()))?.into_dim_f()?;
     op_mutc_refa_refb_matmul(&mut c, &a, &b, alpha, TC::zero())?;
     return Ok(c);
 }
@@ -158,7 +159,7 @@ where
     DC: DimAPI,
     // operation specific
     TA: Mul<TB, Output = TC>,
-    TC: Zero + One,
+    TC: Zero + One + Clone,
     B: DeviceCreationAnyAPI<TC>,
     LayoutMatMulConfig<DA, DB>: LayoutMatMulAPI<DA, DB, DC = DC>,
     B: DeviceMatMulAPI<TA, TB, TC, DA, DB, DC>,
@@ -188,7 +189,7 @@ where
     DC: DimAPI,
     // operation specific
     TA: Mul<TB, Output = TC>,
-    TC: Zero + One,
+    TC: Zero + One + Clone,
     B: DeviceCreationAnyAPI<TC>,
     LayoutMatMulConfig<DA, DB>: LayoutMatMulAPI<DA, DB, DC = DC>,
     B: DeviceMatMulAPI<TA, TB, TC, DA, DB, DC>,
@@ -219,7 +220,7 @@ where
         DC: DimAPI,
         // operation specific
         T: Mul<TB, Output = TC>,
-        TC: Zero + One,
+        TC: Zero + One + Clone,
         B: DeviceCreationAnyAPI<TC>,
         LayoutMatMulConfig<D, DB>: LayoutMatMulAPI<D, DB, DC = DC>,
         B: DeviceMatMulAPI<T, TB, TC, D, DB, DC>,
@@ -234,7 +235,7 @@ where
         DC: DimAPI,
         // operation specific
         T: Mul<TB, Output = TC>,
-        TC: Zero + One,
+        TC: Zero + One + Clone,
         B: DeviceCreationAnyAPI<TC>,
         LayoutMatMulConfig<D, DB>: LayoutMatMulAPI<D, DB, DC = DC>,
         B: DeviceMatMulAPI<T, TB, TC, D, DB, DC>,
diff --git a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
index 828661a..045ecde 100644
--- a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
@@ -39,12 +39,13 @@ where
         (0..n).into_par_iter().for_each(|j| {
             (0..m).into_par_iter().for_each(|i| unsafe {
                 let ptr_c = c.as_ptr().offset(lc.index_uncheck(&[i, j])) as *mut TC;
-                *ptr_c = (*ptr_c).clone() * beta.clone()
-                    + (0..k).fold(TC::zero(), |acc, p| {
-                        let val_a = a[la.index_uncheck(&[i, p]) as usize].clone();
-                        let val_b = b[lb.index_uncheck(&[p, j]) as usize].clone();
-                        acc + val_a * val_b
-                    }) * alpha.clone();
+                let val = (0..k).fold(TC::zero(), |acc, p| {
+                    let val_a = a[la.index_uncheck(&[i, p]) as usize].clone();
+                    let val_b = b[lb.index_uncheck(&[p, j]) as usize].clone();
+                    acc + val_a * val_b
+                }) * alpha.clone();
+                // output is not read if it is not accumulated into
+                *ptr_c = if beta.is_zero() { val } else { (*ptr_c).clone() * beta.clone() + val };
             });
         });
     };
@@ -88,6 +89,7 @@ where
             .unwrap_or(TC::zero())
     };
     let c_innerdot = pool.map_or_else(task, |pool| pool.install(task));
-    *c = c_innerdot * alpha + c.clone() * beta;
+    // output is not read if it is not accumulated into
+    *c = if beta.is_zero() { c_innerdot * alpha } else { c_innerdot * alpha + c.clone() * beta };
     Ok(())
 }
-- 
2.43.0


From 6d33c7b218e2e20dc00b1811ebbfcb26f0330a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:22 +0000
Subject: [PATCH 22/41] fix: concat, stack and diag do not drop output elements
 that were never given a value

---
 rstsr-core/src/tensor/creation_from_tensor.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index 1f98fc5..e8e302b 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -69,10 +69,11 @@ where
             let layout_diag = layout.diagonal(Some(offset), Some(0), Some(1))?;
             let size = layout_diag.size();
             let device = tensor.device();
-            let mut result = unsafe { empty_f(([size], device))? };
-            let layout_result = result.layout().to_dim()?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
-            return Ok(result);
+            let layout_result = [size].new_contig(None, device.default_order());
+            let mut storage = device.uninit_impl(size)?;
+            device.assign_uninit(storage.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
+            let storage = unsafe { B::assume_init_impl(storage)? };
+            return Tensor::new_f(storage, layout_result.into_dim()?);
         } else {
             return rstsr_raise!(InvalidLayout, "diag only support 1-D or 2-D tensor.");
         }
@@ -370,19 +371,21 @@ where
         let new_shape = shape_other;
 
         // create the result tensor
-        let mut result = unsafe { empty_f((new_shape, &device))? };
+        let layout_new = new_shape.new_contig(None, device.default_order());
+        let mut storage = device.uninit_impl(layout_new.size())?;
 
         // assign each tensor to the result tensor
         let mut offset = 0;
         for tensor in tensors {
             let layout = tensor.layout().to_dim::<IxD>()?;
             let axis_size = tensor.shape()[axis];
-            let layout_result = result.layout().dim_narrow(axis as isize, slice!(offset, offset + axis_size))?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout)?;
+            let layout_result = layout_new.dim_narrow(axis as isize, slice!(offset, offset + axis_size))?;
+            device.assign_uninit(storage.raw_mut(), &layout_result, tensor.raw(), &layout)?;
             offset += axis_size;
         }
 
-        Ok(result)
+        let storage = unsafe { B::assume_init_impl(storage)? };
+        Tensor::new_f(storage, layout_new)
     }
 }
 
-- 
2.43.0


From c82fa42db8408304db69ab973ffbcd392f9040ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 23/41] fix: creation routines report memory exhaustion of the
 requested buffer as an error

---
 rstsr-core/src/device_cpu_serial/creation.rs | 17 +++++++++++++----
 rstsr-native-impl/src/cpu_rayon/creation.rs  | 11 +++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/creation.rs b/rstsr-core/src/device_cpu_serial/creation.rs
index df26666..1ab5d6f 100644
--- a/rstsr-core/src/device_cpu_serial/creation.rs
+++ b/rstsr-core/src/device_cpu_serial/creation.rs
@@ -1,6 +1,14 @@
 use crate::prelude_dev::*;
 use num::{complex::ComplexFloat, Num, Zero};
 
+/// Vector of `len` copies of `fill`; memory exhaustion is reported as an error.
+fn filled_vec<T: Clone>(len: usize, fill: T) -> Result<Vec<T>> {
+    let mut raw = Vec::new();
+    raw.try_reserve_exact(len)?;
+    raw.resize(len, fill);
+    Ok(raw)
+}
+
 impl<T> DeviceCreationAnyAPI<T> for DeviceCpuSerial
 where
     Self: DeviceRawAPI<T, Raw = Vec<T>> + DeviceRawAPI<MaybeUninit<T>, Raw = Vec<MaybeUninit<T>>>,
@@ -14,7 +22,7 @@ where
     where
         T: Clone,
     {
-        let raw = vec![fill; len];
+        let raw = filled_vec(len, fill)?;
         Ok(Storage::new(raw.into(), self.clone()))
     }
 
@@ -58,12 +66,12 @@ where
     DeviceCpuSerial: DeviceRawAPI<T, Raw = Vec<T>>,
 {
     fn zeros_impl(&self, len: usize) -> Result<Storage<DataOwned<Vec<T>>, T, DeviceCpuSerial>> {
-        let raw = vec![T::zero(); len];
+        let raw = filled_vec(len, T::zero())?;
         Ok(Storage::new(raw.into(), self.clone()))
     }
 
     fn ones_impl(&self, len: usize) -> Result<Storage<DataOwned<Vec<T>>, T, DeviceCpuSerial>> {
-        let raw = vec![T::one(); len];
+        let raw = filled_vec(len, T::one())?;
         Ok(Storage::new(raw.into(), self.clone()))
     }
 }
@@ -99,7 +107,8 @@ where
             return Ok(Storage::new(vec![start].into(), self.clone()));
         }
 
-        let mut raw = Vec::with_capacity(n);
+        let mut raw = Vec::new();
+        raw.try_reserve_exact(n)?;
         let step = match endpoint {
             true => (end - start) / T::from(n - 1).unwrap(),
             false => (end - start) / T::from(n).unwrap(),
diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 159e7d6..9d52ba3 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -124,8 +124,15 @@ where
     };
 
     // unwrap should be safe here: if `n` can be converted, this can surely be converted by `i`.
-    let task = || -> Vec<T> { (0..n).into_par_iter().map(|i| start + T::from(i).unwrap() * step).collect() };
-    Some(pool.map_or_else(task, |pool| pool.install(task)))
+    let mut raw = Vec::new();
+    raw.try_reserve_exact(n).ok()?;
+    let mut task =
+        || (0..n).into_par_iter().map(|i| start + T::from(i).unwrap() * step).collect_into_vec(&mut raw);
+    match pool {
+        Some(pool) => pool.install(task),
+        None => task(),
+    }
+    Some(raw)
 }
 
 /* #endregion */
-- 
2.43.0


From a54042925d856343aa414a71fb930e2da98da3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:08 +0000
Subject: [PATCH 24/41] fix: refuse allocations whose size in bytes overflows

---
 rstsr-common/src/alloc_vec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/alloc_vec.rs b/rstsr-common/src/alloc_vec.rs
index e6785a2..5c7380b 100644
--- a/rstsr-common/src/alloc_vec.rs
+++ b/rstsr-common/src/alloc_vec.rs
@@ -84,11 +84,15 @@ pub fn aligned_alloc(numbytes: usize, alignment: usize) -> Result<Option<NonNull
 pub unsafe fn aligned_uninitialized_vec<T, const N: usize>(size: usize, alignment: usize) -> Result<Vec<T>> {
     if size == 0 {
         return Ok(vec![]);
-    } else if size < N {
+    } else if size < N || core::mem::size_of::<T>() == 0 {
         return unaligned_uninitialized_vec(size);
     } else {
         let sizeof = core::mem::size_of::<T>();
-        let pointer = aligned_alloc(size * sizeof, alignment)?;
+        let numbytes = match size.checked_mul(sizeof) {
+            Some(numbytes) => numbytes,
+            None => rstsr_raise!(MemoryError, "Size of allocation overflows: {size} elements of {sizeof} bytes")?,
+        };
+        let pointer = aligned_alloc(numbytes, alignment)?;
         if let Some(pointer) = pointer {
             let mut v = Vec::from_raw_parts(pointer.as_ptr() as *mut T, size, size);
             unsafe { v.set_len(size) };
-- 
2.43.0


From 5882e58bbced597f86d537564616755f266c8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 25/41] fix: a shared tensor can be taken into an owned one
 while other handles exist

---
 rstsr-core/src/storage/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/storage/data.rs b/rstsr-core/src/storage/data.rs
index c68650e..77cfa40 100644
--- a/rstsr-core/src/storage/data.rs
+++ b/rstsr-core/src/storage/data.rs
@@ -348,7 +348,7 @@ where
 {
     #[inline]
     fn into_owned(self) -> DataOwned<Self::Data> {
-        DataOwned::from(Arc::try_unwrap(self.raw).ok().unwrap())
+        DataOwned::from(Arc::try_unwrap(self.raw).unwrap_or_else(|raw| (*raw).clone()))
     }
 
     #[inline]
-- 
2.43.0


From 1d2b451dbcc43d891ac0e076c22806a3f03d824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 26/41] fix: faer products run on the workers of the device
 they are called through

---
 rstsr-core/src/device_faer/matmul_impl.rs | 95 +++++++++++++----------
 1 file changed, 55 insertions(+), 40 deletions(-)

diff --git a/rstsr-core/src/device_faer/matmul_impl.rs b/rstsr-core/src/device_faer/matmul_impl.rs
index 811c70f..c1884ea 100644
--- a/rstsr-core/src/device_faer/matmul_impl.rs
+++ b/rstsr-core/src/device_faer/matmul_impl.rs
@@ -14,6 +14,14 @@ use rayon::prelude::*;
 
 const PARALLEL_SWITCH: usize = 64;
 
+/// Run the task by workers of the pool, if there is one; otherwise where it is called.
+fn run_in_pool(pool: Option<&ThreadPool>, task: impl FnOnce() + Send) {
+    match pool {
+        Some(pool) => pool.install(task),
+        None => task(),
+    }
+}
+
 /* #region gemm */
 
 pub fn gemm_faer<T>(
@@ -69,14 +77,16 @@ where
     };
 
     if beta == T::zero() {
-        faer::linalg::matmul::matmul(
-            faer_c,
-            faer::Accum::Replace,
-            faer_a,
-            faer_b,
-            alpha,
-            faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
-        );
+        run_in_pool(pool, || {
+            faer::linalg::matmul::matmul(
+                faer_c,
+                faer::Accum::Replace,
+                faer_a,
+                faer_b,
+                alpha,
+                faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
+            )
+        });
     } else {
         if beta != T::one() {
             // perform inplace multiplication
@@ -89,14 +99,16 @@ where
                 pool,
             )?;
         }
-        faer::linalg::matmul::matmul(
-            faer_c,
-            faer::Accum::Add,
-            faer_a,
-            faer_b,
-            alpha,
-            faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
-        );
+        run_in_pool(pool, || {
+            faer::linalg::matmul::matmul(
+                faer_c,
+                faer::Accum::Add,
+                faer_a,
+                faer_b,
+                alpha,
+                faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
+            )
+        });
     }
     return Ok(());
 }
@@ -160,17 +172,19 @@ where
         FlagUpLo::L => BlockStructure::TriangularLower,
     };
     if beta == T::zero() {
-        faer::linalg::matmul::triangular::matmul(
-            faer_c,
-            block_structure,
-            faer::Accum::Replace,
-            faer_a,
-            BlockStructure::Rectangular,
-            faer_at,
-            BlockStructure::Rectangular,
-            alpha,
-            faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
-        );
+        run_in_pool(pool, || {
+            faer::linalg::matmul::triangular::matmul(
+                faer_c,
+                block_structure,
+                faer::Accum::Replace,
+                faer_a,
+                BlockStructure::Rectangular,
+                faer_at,
+                BlockStructure::Rectangular,
+                alpha,
+                faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
+            )
+        });
     } else {
         if beta != T::one() {
             // perform inplace multiplication
@@ -183,17 +197,19 @@ where
                 pool,
             )?;
         }
-        faer::linalg::matmul::triangular::matmul(
-            faer_c,
-            block_structure,
-            faer::Accum::Add,
-            faer_a,
-            BlockStructure::Rectangular,
-            faer_at,
-            BlockStructure::Rectangular,
-            alpha,
-            faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
-        );
+        run_in_pool(pool, || {
+            faer::linalg::matmul::triangular::matmul(
+                faer_c,
+                block_structure,
+                faer::Accum::Add,
+                faer_a,
+                BlockStructure::Rectangular,
+                faer_at,
+                BlockStructure::Rectangular,
+                alpha,
+                faer::Par::Rayon(NonZeroUsize::new(nthreads).unwrap()),
+            )
+        });
     }
 
     return Ok(());
@@ -233,8 +249,7 @@ where
                 }
             }
         } else {
-            let pool = rayon::ThreadPoolBuilder::new().num_threads(nthreads).build().unwrap();
-            pool.install(|| {
+            run_in_pool(pool, || {
                 (0..n).into_par_iter().for_each(|i| {
                     (0..i).for_each(|j| unsafe {
                         let idx_ij = lc.index_uncheck(&[i, j]) as usize;
-- 
2.43.0


From 0e2c514bbcbfb564acc3e226ab33e6d5e931b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:05 +0000
Subject: [PATCH 27/41] fix: batched matrix products broadcast batch axes of
 different number

An output with batch axes was refused whenever one of the operands had fewer
of them, although the batch axes are broadcast.
---
 rstsr-common/src/layout/matmul.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 9731e12..f298fb8 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -397,8 +397,7 @@ pub fn layout_matmul_dyn_row_major_with_lc(
         },
         (3.., 3..) => {
             // rule 7: | `..., M, K` | `..., K, N` | `..., M, N` |
-            rstsr_assert_eq!(na, nc, InvalidLayout)?;
-            rstsr_assert_eq!(nb, nc, InvalidLayout)?;
+            rstsr_assert_eq!(na.max(nb), nc, InvalidLayout)?;
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-- 
2.43.0


From d1703908e5876945e360aee1a3aac4e7fc8762d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:05 +0000
Subject: [PATCH 28/41] fix: dot products over an empty axis are zero

With a contracted axis of length zero the contiguous kernels sliced past the
end of an empty buffer.
---
 rstsr-native-impl/src/cpu_rayon/vecdot.rs  | 2 +-
 rstsr-native-impl/src/cpu_serial/vecdot.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index b158a00..2cddc79 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -60,7 +60,7 @@ where
             break;
         }
     }
-    let flag_contig_s = !asc.is_empty();
+    let flag_contig_s = !asc.is_empty() && las.size() > 0;
     // - flag_contig_m: remaining part have contiguous memory access pattern
     let mut amc = vec![]; // [a]xes re[m]aining [c]ontig
     let (_, _, amc_a, _) = get_axes_composition(&lam);
diff --git a/rstsr-native-impl/src/cpu_serial/vecdot.rs b/rstsr-native-impl/src/cpu_serial/vecdot.rs
index c5b8a34..750afe9 100644
--- a/rstsr-native-impl/src/cpu_serial/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_serial/vecdot.rs
@@ -52,7 +52,7 @@ where
             break;
         }
     }
-    let flag_contig_s = !asc.is_empty();
+    let flag_contig_s = !asc.is_empty() && las.size() > 0;
     // - flag_contig_m: remaining part have contiguous memory access pattern
     let mut amc = vec![]; // [a]xes re[m]aining [c]ontig
     let (_, _, amc_a, _) = get_axes_composition(&lam);
-- 
2.43.0


From 39275163e85576c6b17cf00339e1ddc878873aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:11 +0000
Subject: [PATCH 29/41] fix: printing does not use stack per printed line

Every printed line was a nested call, so printing some thousand lines (with
raised print limits) overflowed the stack; extreme limits overflowed sums.
---
 rstsr-core/src/format/format_tensor.rs | 41 ++++++++++++++++++--------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/rstsr-core/src/format/format_tensor.rs b/rstsr-core/src/format/format_tensor.rs
index 9a1eb22..215c5e8 100644
--- a/rstsr-core/src/format/format_tensor.rs
+++ b/rstsr-core/src/format/format_tensor.rs
@@ -23,6 +23,19 @@ where
 /* #region generic print */
 
 fn print_vec_with_layout_dfs_inner<T, D>(c: &mut FnPrintVecWithLayout<T, D>) -> core::fmt::Result
+where
+    T: Clone,
+    D: DimAPI,
+{
+    // steps are not nested calls, so stack usage does not depend on the number of printed lines
+    while print_vec_with_layout_dfs_step(c)? {}
+    Ok(())
+}
+
+/// Performs one step of printing; returns whether there are steps to follow.
+fn print_vec_with_layout_dfs_step<T, D>(
+    c: &mut FnPrintVecWithLayout<T, D>,
+) -> core::result::Result<bool, core::fmt::Error>
 where
     T: Clone,
     D: DimAPI,
@@ -39,7 +52,7 @@ where
 
     // special case
     if ndim == 0 {
-        return fmt_elem(&vec[layout.offset()], fmt);
+        return fmt_elem(&vec[layout.offset()], fmt).map(|_| false);
     }
 
     if idx_prev.last().is_some_and(|&v| v == shape[len_prev - 1]) {
@@ -47,26 +60,28 @@ where
 
         // special case: zero shape quick return
         if idx_prev.last().is_some_and(|&v| v == 0) {
-            return write!(fmt, "[]");
+            return write!(fmt, "[]").map(|_| false);
         }
 
         // pop last index, increase previous index by 1 or skip
         if len_prev == 1 {
             // multiple dimension exit
-            return Ok(());
+            return Ok(false);
         } else {
             let p1_prev = idx_prev.pop().unwrap();
             let p2_prev = idx_prev.pop().unwrap();
             let offset =
                 offset as isize - p1_prev as isize * stride[len_prev - 1] - p2_prev as isize * stride[len_prev - 2];
-            if shape[len_prev - 2] < max_print || p2_prev + min_print >= shape[len_prev - 2] || p2_prev + 1 < min_print
+            if shape[len_prev - 2] < max_print
+                || p2_prev.saturating_add(min_print) >= shape[len_prev - 2]
+                || p2_prev + 1 < min_print
             {
                 let p2 = p2_prev + 1;
                 idx_prev.push(p2);
                 let offset = offset + p2 as isize * stride[len_prev - 2];
                 let offset = offset as usize;
                 c.offset = offset;
-                return print_vec_with_layout_dfs_inner(c);
+                return Ok(true);
             } else {
                 write!(fmt, "{}...\n\n", " ".repeat(len_prev - 1))?;
                 let p2: usize = shape[len_prev - 2] - min_print;
@@ -74,7 +89,7 @@ where
                 let offset = offset + p2 as isize * stride[len_prev - 2];
                 let offset = offset as usize;
                 c.offset = offset;
-                return print_vec_with_layout_dfs_inner(c);
+                return Ok(true);
             }
         }
     } else {
@@ -82,7 +97,7 @@ where
         if len_prev + 1 != ndim {
             // new index can still be pushed
             idx_prev.push(0);
-            return print_vec_with_layout_dfs_inner(c);
+            return Ok(true);
         } else {
             // last line
 
@@ -92,7 +107,7 @@ where
 
             // special case: zero shape quick return
             if nlast == 0 {
-                return write!(fmt, "[]");
+                return write!(fmt, "[]").map(|_| false);
             }
 
             // prefix: "  [[["
@@ -113,7 +128,7 @@ where
             }
 
             // values: " 1.23 4.56 ... 7.89 10.11"
-            if nlast <= max_print.max(2 * min_print + 1) {
+            if nlast <= max_print.max(min_print.saturating_mul(2).saturating_add(1)) {
                 // all elements in last dimension should be printed
                 for i in 0..nlast {
                     let offset_i = (offset as isize + i as isize * stride_last) as usize;
@@ -162,12 +177,12 @@ where
             // pop last index, increase previous index by 1 or skip
             if len_prev == 0 {
                 // one-dimension exit
-                return Ok(());
+                return Ok(false);
             } else {
                 let p1_prev = idx_prev.pop().unwrap();
                 let offset = offset as isize - p1_prev as isize * stride[len_prev - 1];
                 if shape[len_prev - 1] < max_print
-                    || p1_prev + min_print >= shape[len_prev - 1]
+                    || p1_prev.saturating_add(min_print) >= shape[len_prev - 1]
                     || p1_prev + 1 < min_print
                 {
                     let p1 = p1_prev + 1;
@@ -175,7 +190,7 @@ where
                     let offset = offset + p1 as isize * stride[len_prev - 1];
                     let offset = offset as usize;
                     c.offset = offset;
-                    return print_vec_with_layout_dfs_inner(c);
+                    return Ok(true);
                 } else {
                     writeln!(fmt, "{}...", " ".repeat(len_prev))?;
                     let p1: usize = shape[len_prev - 1] - min_print;
@@ -183,7 +198,7 @@ where
                     let offset = offset + p1 as isize * stride[len_prev - 1];
                     let offset = offset as usize;
                     c.offset = offset;
-                    return print_vec_with_layout_dfs_inner(c);
+                    return Ok(true);
                 }
             }
         }
-- 
2.43.0


From 9fd3f3dc59b0b70b5a409dbd0178f38fa80fd058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:13 +0000
Subject: [PATCH 30/41] fix: pairwise distances of points without coordinates

The batch size was found by dividing by the number of coordinates, and the
position of a row was asked of a buffer that may be empty.
---
 rstsr-sci-traits/src/distance/native_impl.rs | 48 ++++++++++++--------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index 551ccaf..a42039a 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -25,6 +25,11 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    // rows without elements have no position in the buffer
+    let row = |offset: usize, stride: isize, i: usize| match k {
+        0 => 0,
+        _ => (offset as isize + i as isize * stride) as usize,
+    };
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -34,7 +39,7 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
     let strided = stride_a[1] != 1 || stride_b[1] != 1;
 
@@ -47,10 +52,7 @@ where
                     for i in i_batch..batch_end {
                         for j in j_batch..j_end {
                             let uv = (xa, xb);
-                            let offsets = (
-                                (offset_a as isize + i as isize * stride_a[0]) as usize,
-                                (offset_b as isize + j as isize * stride_b[0]) as usize,
-                            );
+                            let offsets = (row(offset_a, stride_a[0], i), row(offset_b, stride_b[0], j));
                             let indices = (i, j);
                             let strides = (stride_a[1], stride_b[1]);
                             let size = k;
@@ -96,6 +98,11 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    // rows without elements have no position in the buffer
+    let row = |offset: usize, stride: isize, i: usize| match k {
+        0 => 0,
+        _ => (offset as isize + i as isize * stride) as usize,
+    };
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -105,7 +112,7 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
     let strided = stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
@@ -119,10 +126,7 @@ where
                     for i in i_batch..batch_end {
                         for j in j_batch..j_end {
                             let uv = (xa, xb);
-                            let offsets = (
-                                (offset_a as isize + i as isize * stride_a[0]) as usize,
-                                (offset_b as isize + j as isize * stride_b[0]) as usize,
-                            );
+                            let offsets = (row(offset_a, stride_a[0], i), row(offset_b, stride_b[0], j));
                             let indices = (i, j);
                             let strides = (stride_a[1], stride_b[1]);
                             let size = k;
@@ -183,6 +187,11 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    // rows without elements have no position in the buffer
+    let row = |offset: usize, stride: isize, i: usize| match k {
+        0 => 0,
+        _ => (offset as isize + i as isize * stride) as usize,
+    };
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -192,7 +201,7 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
     let strided = stride_a[1] != 1 || stride_b[1] != 1;
 
@@ -205,10 +214,7 @@ where
                     for i in i_batch..batch_end {
                         for j in j_batch..j_end {
                             let uv = (xa, xb);
-                            let offsets = (
-                                (offset_a as isize + i as isize * stride_a[0]) as usize,
-                                (offset_b as isize + j as isize * stride_b[0]) as usize,
-                            );
+                            let offsets = (row(offset_a, stride_a[0], i), row(offset_b, stride_b[0], j));
                             let indices = (i, j);
                             let strides = (stride_a[1], stride_b[1]);
                             let size = k;
@@ -267,6 +273,11 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    // rows without elements have no position in the buffer
+    let row = |offset: usize, stride: isize, i: usize| match k {
+        0 => 0,
+        _ => (offset as isize + i as isize * stride) as usize,
+    };
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -276,7 +287,7 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
     let strided = stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
@@ -290,10 +301,7 @@ where
                     for i in i_batch..batch_end {
                         for j in j_batch..j_end {
                             let uv = (xa, xb);
-                            let offsets = (
-                                (offset_a as isize + i as isize * stride_a[0]) as usize,
-                                (offset_b as isize + j as isize * stride_b[0]) as usize,
-                            );
+                            let offsets = (row(offset_a, stride_a[0], i), row(offset_b, stride_b[0], j));
                             let indices = (i, j);
                             let strides = (stride_a[1], stride_b[1]);
                             let size = k;
-- 
2.43.0


From 2f4255cfcee2037d85216095009af8ff67be8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:13 +0000
Subject: [PATCH 31/41] fix: pairwise distances do not drop results that were
 never written

A user-defined metric may produce a type that owns something: the results went
into uninitialised memory by assignment, which dropped the garbage it replaced,
and a panic in the metric dropped all that was not yet computed.
---
 rstsr-sci-traits/src/distance/native_impl.rs | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index a42039a..9fe0d44 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -5,6 +5,12 @@ use rstsr_core::prelude_dev::*;
 
 const CACHE_SIZE: usize = 256 * 1024; // 256 KiB
 
+/// Takes a vector whose elements have all been written.
+unsafe fn assume_init_vec<T>(v: Vec<MaybeUninit<T>>) -> Vec<T> {
+    let mut v = core::mem::ManuallyDrop::new(v);
+    Vec::from_raw_parts(v.as_mut_ptr() as *mut T, v.len(), v.capacity())
+}
+
 pub fn cdist_serial<T, M>(
     xa: &Vec<T>,
     xb: &Vec<T>,
@@ -33,7 +39,7 @@ where
 
     let m = shape_a[0];
     let n = shape_b[0];
-    let mut dists = unsafe { uninitialized_vec::<M::Out>(m * n)? };
+    let mut dists = unsafe { uninitialized_vec::<MaybeUninit<M::Out>>(m * n)? };
 
     kernel.initialize(xa, la, xb, lb)?;
 
@@ -58,9 +64,9 @@ where
                             let size = k;
                             let dist = kernel.distance::<{ $STRIDED }>(uv, offsets, indices, strides, size);
                             match $ORDER {
-                                RowMajor => dists[i * n + j] = dist,
-                                ColMajor => dists[i + j * m] = dist,
-                            }
+                                RowMajor => dists[i * n + j].write(dist),
+                                ColMajor => dists[i + j * m].write(dist),
+                            };
                         }
                     }
                 }
@@ -74,7 +80,7 @@ where
         (true, ColMajor) => perform_batch_calc!(true, ColMajor),
     }
 
-    Ok(dists)
+    Ok(unsafe { assume_init_vec(dists) })
 }
 
 pub fn cdist_weighted_serial<T, M>(
@@ -195,7 +201,7 @@ where
 
     let m = shape_a[0];
     let n = shape_b[0];
-    let dists = unsafe { uninitialized_vec::<M::Out>(m * n)? };
+    let dists = unsafe { uninitialized_vec::<MaybeUninit<M::Out>>(m * n)? };
 
     kernel.initialize(xa, la, xb, lb)?;
 
@@ -221,10 +227,10 @@ where
                             let dist = kernel.distance::<{ $STRIDED }>(uv, offsets, indices, strides, size);
                             unsafe {
                                 let dist_ij = match $ORDER {
-                                    RowMajor => dists.as_ptr().add(i * n + j) as *mut _,
-                                    ColMajor => dists.as_ptr().add(i + j * m) as *mut _,
+                                    RowMajor => dists.as_ptr().add(i * n + j) as *mut M::Out,
+                                    ColMajor => dists.as_ptr().add(i + j * m) as *mut M::Out,
                                 };
-                                *dist_ij = dist;
+                                dist_ij.write(dist);
                             }
                         }
                     }
@@ -240,7 +246,7 @@ where
         (true, ColMajor) => perform_batch_calc!(true, ColMajor),
     });
 
-    Ok(dists)
+    Ok(unsafe { assume_init_vec(dists) })
 }
 
 pub fn cdist_weighted_rayon<T, M>(
-- 
2.43.0


From cd9ae6c00bfe31c3d8cf5acbb718ecddbc034e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 32/41] fix: faer routines give back the parallelism of faer
 and run on the workers of their device

The global parallelism was left changed when a routine failed or panicked, and
also when calls overlapped. The work ran on the global pool of rayon instead of
the pool of the device.
---
 rstsr-linalg-traits/src/faer_impl/cholesky.rs |  14 +-
 rstsr-linalg-traits/src/faer_impl/det.rs      |  13 +-
 rstsr-linalg-traits/src/faer_impl/eigh.rs     | 156 ++++++++----------
 rstsr-linalg-traits/src/faer_impl/eigvalsh.rs |  14 +-
 rstsr-linalg-traits/src/faer_impl/inv.rs      |  15 +-
 rstsr-linalg-traits/src/faer_impl/mod.rs      |  47 ++++++
 rstsr-linalg-traits/src/faer_impl/pinv.rs     |  14 +-
 .../src/faer_impl/solve_general.rs            |  16 +-
 .../src/faer_impl/solve_triangular.rs         |   6 +-
 rstsr-linalg-traits/src/faer_impl/svd.rs      |  17 +-
 rstsr-linalg-traits/src/faer_impl/svdvals.rs  |  15 +-
 11 files changed, 146 insertions(+), 181 deletions(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/cholesky.rs b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
index 4667221..ab0ee35 100644
--- a/rstsr-linalg-traits/src/faer_impl/cholesky.rs
+++ b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::CholeskyAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -11,13 +12,8 @@ pub fn faer_impl_cholesky_f<T>(
 where
     T: ComplexField,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -30,7 +26,8 @@ where
     };
 
     // llt computation
-    let result = faer_a.llt(faer_uplo).map_err(|e| rstsr_error!(FaerError, "Faer cholesky error: {e}"))?;
+    let result = with_faer_parallelism(pool, || faer_a.llt(faer_uplo))
+        .map_err(|e| rstsr_error!(FaerError, "Faer cholesky error: {e}"))?;
 
     // faer always returns lower triangular matrix
     let result = match uplo {
@@ -40,11 +37,6 @@ where
     // convert to rstsr tensor with certain layout
     let result = result.into_rstsr().into_contig(device.default_order());
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/det.rs b/rstsr-linalg-traits/src/faer_impl/det.rs
index 25d4769..2c474b2 100644
--- a/rstsr-linalg-traits/src/faer_impl/det.rs
+++ b/rstsr-linalg-traits/src/faer_impl/det.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::DetAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -8,23 +9,13 @@ pub fn faer_impl_det_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<T>
 where
     T: ComplexField,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let faer_a = a.into_faer();
 
     // det computation
-    let result = faer_a.determinant();
-
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
+    let result = with_faer_parallelism(pool, || faer_a.determinant());
 
     Ok(result)
 }
diff --git a/rstsr-linalg-traits/src/faer_impl/eigh.rs b/rstsr-linalg-traits/src/faer_impl/eigh.rs
index 92e247d..f5baa3e 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigh.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::{EighAPI, EighResult};
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -15,13 +16,8 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -34,8 +30,7 @@ where
     };
 
     // eigen value computation
-    let result = faer_a
-        .self_adjoint_eigen(faer_uplo)
+    let result = with_faer_parallelism(pool, || faer_a.self_adjoint_eigen(faer_uplo))
         .map_err(|e| rstsr_error!(FaerError, "Faer SelfAdjointEigen error: {e:?}"))?;
 
     // convert eigenvalues to real
@@ -43,11 +38,6 @@ where
     let eigenvalues = eigenvalues.mapv(|v| T::real_part_impl(&v));
     let eigenvectors = result.U().into_rstsr().into_contig(device.default_order());
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok((eigenvalues, eigenvectors))
 }
 
@@ -65,18 +55,9 @@ where
     rstsr_pattern!(itype, 1..=3, InvalidValue, "itype in generalized eigen must be 1, 2 or 3")?;
     rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
 
-    // set parallel mode
     let device = a.device().clone();
-
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    let faer_par = if let Some(pool) = pool {
-        let faer_par = Par::rayon(pool.current_num_threads());
-        faer::set_global_parallelism(faer_par);
-        faer_par
-    } else {
-        Par::Seq
-    };
+    let faer_par = pool.map_or(Par::Seq, |pool| Par::rayon(pool.current_num_threads()));
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -112,70 +93,75 @@ where
 
     // perform cholesky on matrix b
     let b = b.into_faer();
-    let b_llt = b.llt(faer_uplo).map_err(|e| rstsr_error!(FaerError, "Faer Cholesky error: {e:?}"))?;
-    let l = b_llt.L();
-
-    let result = match itype {
-        1 => {
-            // inv(l) @ a @ inv(l.t.conj)
-            let mut a = a.view_mut().into_faer();
-            faer::linalg::triangular_solve::solve_lower_triangular_in_place(l.as_ref(), a.as_mut(), faer_par);
-            let mut a = a.transpose_mut();
-            faer::linalg::triangular_solve::solve_lower_triangular_in_place(l.conjugate(), a.as_mut(), faer_par);
-            let a = a.transpose_mut();
-
-            // eig(a)
-            let eig_a = a
-                .self_adjoint_eigen(faer_uplo)
-                .map_err(|e| rstsr_error!(FaerError, "Faer SelfAdjointEigen error: {e:?}"))?;
-            let e = eig_a.S().column_vector().into_rstsr().mapv(|v| T::real_part_impl(&v));
-
-            // inv(l.t.conj) @ c
-            let mut c = eig_a.U().to_owned();
-            faer::linalg::triangular_solve::solve_upper_triangular_in_place(l.adjoint(), c.as_mut(), faer_par);
-            let c = c.into_rstsr().into_contig(device.default_order());
-
-            (e, c)
-        },
-        2 | 3 => {
-            // inv(l)
-            let mut l_inv = Mat::identity(n, n);
-            faer::linalg::triangular_solve::solve_lower_triangular_in_place(l.as_ref(), l_inv.as_mut(), faer_par);
-
-            // l.t.conj @ a @ l
-            let mut a = a.view_mut().into_faer();
-            faer::linalg::triangular_solve::solve_upper_triangular_in_place(l_inv.adjoint(), a.as_mut(), faer_par);
-            let mut a = a.transpose_mut();
-            faer::linalg::triangular_solve::solve_upper_triangular_in_place(l_inv.transpose(), a.as_mut(), faer_par);
-            let a = a.transpose_mut();
-
-            // eig(a)
-            let eig_a = a
-                .self_adjoint_eigen(faer_uplo)
-                .map_err(|e| rstsr_error!(FaerError, "Faer SelfAdjointEigen error: {e:?}"))?;
-            let e = eig_a.S().column_vector().into_rstsr().mapv(|v| T::real_part_impl(&v));
-
-            let mut c = eig_a.U().to_owned();
-            match itype {
-                2 => faer::linalg::triangular_solve::solve_upper_triangular_in_place(l.adjoint(), c.as_mut(), faer_par),
-                3 => faer::linalg::triangular_solve::solve_lower_triangular_in_place(
-                    l_inv.as_ref(),
-                    c.as_mut(),
+    let result = with_faer_parallelism(pool, || -> Result<_> {
+        let b_llt = b.llt(faer_uplo).map_err(|e| rstsr_error!(FaerError, "Faer Cholesky error: {e:?}"))?;
+        let l = b_llt.L();
+
+        Ok(match itype {
+            1 => {
+                // inv(l) @ a @ inv(l.t.conj)
+                let mut a = a.view_mut().into_faer();
+                faer::linalg::triangular_solve::solve_lower_triangular_in_place(l.as_ref(), a.as_mut(), faer_par);
+                let mut a = a.transpose_mut();
+                faer::linalg::triangular_solve::solve_lower_triangular_in_place(l.conjugate(), a.as_mut(), faer_par);
+                let a = a.transpose_mut();
+
+                // eig(a)
+                let eig_a = a
+                    .self_adjoint_eigen(faer_uplo)
+                    .map_err(|e| rstsr_error!(FaerError, "Faer SelfAdjointEigen error: {e:?}"))?;
+                let e = eig_a.S().column_vector().into_rstsr().mapv(|v| T::real_part_impl(&v));
+
+                // inv(l.t.conj) @ c
+                let mut c = eig_a.U().to_owned();
+                faer::linalg::triangular_solve::solve_upper_triangular_in_place(l.adjoint(), c.as_mut(), faer_par);
+                let c = c.into_rstsr().into_contig(device.default_order());
+
+                (e, c)
+            },
+            2 | 3 => {
+                // inv(l)
+                let mut l_inv = Mat::identity(n, n);
+                faer::linalg::triangular_solve::solve_lower_triangular_in_place(l.as_ref(), l_inv.as_mut(), faer_par);
+
+                // l.t.conj @ a @ l
+                let mut a = a.view_mut().into_faer();
+                faer::linalg::triangular_solve::solve_upper_triangular_in_place(l_inv.adjoint(), a.as_mut(), faer_par);
+                let mut a = a.transpose_mut();
+                faer::linalg::triangular_solve::solve_upper_triangular_in_place(
+                    l_inv.transpose(),
+                    a.as_mut(),
                     faer_par,
-                ),
-                _ => unreachable!(),
-            };
-            let c = c.into_rstsr().into_contig(device.default_order());
-
-            (e, c)
-        },
-        _ => unreachable!(),
-    };
-
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
+                );
+                let a = a.transpose_mut();
+
+                // eig(a)
+                let eig_a = a
+                    .self_adjoint_eigen(faer_uplo)
+                    .map_err(|e| rstsr_error!(FaerError, "Faer SelfAdjointEigen error: {e:?}"))?;
+                let e = eig_a.S().column_vector().into_rstsr().mapv(|v| T::real_part_impl(&v));
+
+                let mut c = eig_a.U().to_owned();
+                match itype {
+                    2 => faer::linalg::triangular_solve::solve_upper_triangular_in_place(
+                        l.adjoint(),
+                        c.as_mut(),
+                        faer_par,
+                    ),
+                    3 => faer::linalg::triangular_solve::solve_lower_triangular_in_place(
+                        l_inv.as_ref(),
+                        c.as_mut(),
+                        faer_par,
+                    ),
+                    _ => unreachable!(),
+                };
+                let c = c.into_rstsr().into_contig(device.default_order());
+
+                (e, c)
+            },
+            _ => unreachable!(),
+        })
+    })?;
 
     Ok(result)
 }
diff --git a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
index b1fb0ab..628e317 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::EigvalshAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -14,13 +15,8 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -33,16 +29,10 @@ where
     };
 
     // eigen value computation
-    let result = faer_a
-        .self_adjoint_eigenvalues(faer_uplo)
+    let result = with_faer_parallelism(pool, || faer_a.self_adjoint_eigenvalues(faer_uplo))
         .map_err(|e| rstsr_error!(FaerError, "Faer SelfAdjointEigen error: {e:?}"))?;
     let eigenvalues = asarray((result, &device)).into_dim::<Ix1>();
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(eigenvalues)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/inv.rs b/rstsr-linalg-traits/src/faer_impl/inv.rs
index ae8bfd4..848cf99 100644
--- a/rstsr-linalg-traits/src/faer_impl/inv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/inv.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::InvAPI;
 use faer::linalg::solvers::DenseSolveCore;
 use faer::prelude::*;
@@ -9,28 +10,18 @@ pub fn faer_impl_inv_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<Tenso
 where
     T: ComplexField,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let faer_a = a.into_faer();
 
     // det computation
-    let svd_result = faer_a.svd().map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?;
-    let result = svd_result.inverse();
+    let result = with_faer_parallelism(pool, || faer_a.svd().map(|svd_result| svd_result.inverse()))
+        .map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?;
 
     // convert to rstsr tensor with certain layout
     let result = result.as_ref().into_rstsr().into_contig(device.default_order());
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/mod.rs b/rstsr-linalg-traits/src/faer_impl/mod.rs
index 2dced41..7822dad 100644
--- a/rstsr-linalg-traits/src/faer_impl/mod.rs
+++ b/rstsr-linalg-traits/src/faer_impl/mod.rs
@@ -8,3 +8,50 @@ pub mod solve_general;
 pub mod solve_triangular;
 pub mod svd;
 pub mod svdvals;
+
+use faer::prelude::*;
+use rstsr_core::prelude_dev::ThreadPool;
+use std::sync::Mutex;
+
+/// Number of calls that currently define the global parallelism of faer, and what it was before the
+/// first of them.
+static FAER_PAR: Mutex<(usize, Par)> = Mutex::new((0, Par::Seq));
+
+/// Sets the global parallelism of faer.
+///
+/// The original parallelism comes back when the last of the concurrent calls ends, also if they
+/// fail or panic.
+struct FaerParGuard;
+
+impl FaerParGuard {
+    fn new(par: Par) -> Self {
+        let mut state = FAER_PAR.lock().unwrap_or_else(|e| e.into_inner());
+        if state.0 == 0 {
+            state.1 = faer::get_global_parallelism();
+        }
+        state.0 += 1;
+        faer::set_global_parallelism(par);
+        FaerParGuard
+    }
+}
+
+impl Drop for FaerParGuard {
+    fn drop(&mut self) {
+        let mut state = FAER_PAR.lock().unwrap_or_else(|e| e.into_inner());
+        state.0 -= 1;
+        if state.0 == 0 {
+            faer::set_global_parallelism(state.1);
+        }
+    }
+}
+
+/// Runs a faer function by the workers of the pool, with the parallelism of the pool.
+pub(crate) fn with_faer_parallelism<R: Send>(pool: Option<&ThreadPool>, f: impl FnOnce() -> R + Send) -> R {
+    match pool {
+        Some(pool) => {
+            let _guard = FaerParGuard::new(Par::rayon(pool.current_num_threads()));
+            pool.install(f)
+        },
+        None => f(),
+    }
+}
diff --git a/rstsr-linalg-traits/src/faer_impl/pinv.rs b/rstsr-linalg-traits/src/faer_impl/pinv.rs
index 901e7cf..ed510b6 100644
--- a/rstsr-linalg-traits/src/faer_impl/pinv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/pinv.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::{PinvAPI, PinvResult};
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -14,13 +15,8 @@ where
     T: ComplexField + DivAssign<T::Real> + Num + Send + Sync + 'static,
     T::Real: Float + FromPrimitive + Send + Sync,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     // compute rcond value
     let atol = atol.unwrap_or(T::Real::zero());
@@ -34,7 +30,8 @@ where
     let faer_a = a.into_faer();
 
     // svd computation
-    let svd_result = faer_a.thin_svd().map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?;
+    let svd_result = with_faer_parallelism(pool, || faer_a.thin_svd())
+        .map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?;
     let (u, s, v) = (svd_result.U(), svd_result.S(), svd_result.V());
 
     // return to rstsr tensors
@@ -52,11 +49,6 @@ where
     let a_pinv = v.i((.., ..rank)) % u.mapv(|x| T::conj_impl(&x)).t();
     let pinv = a_pinv.into_dim::<Ix2>();
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(PinvResult { pinv, rank })
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_general.rs b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
index 12ef1b2..c13fcb3 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_general.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::SolveGeneralAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -12,30 +13,21 @@ pub fn faer_impl_solve_general_f<'b, T>(
 where
     T: ComplexField,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let faer_a = a.view().into_faer();
 
     // solve linear system
-    let svd_result = faer_a.svd().map_err(|e| rstsr_error!(FaerError, "Faer SVD error: {e:?}"))?;
+    let svd_result =
+        with_faer_parallelism(pool, || faer_a.svd()).map_err(|e| rstsr_error!(FaerError, "Faer SVD error: {e:?}"))?;
 
     // handle b for mutable
     let mut b = overwritable_convert(b)?;
     let b_view = b.view_mut().into_dim::<Ix2>();
     let faer_b = b_view.into_faer();
 
-    svd_result.solve_in_place(faer_b);
-
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
+    with_faer_parallelism(pool, || svd_result.solve_in_place(faer_b));
 
     Ok(b.clone_to_mut())
 }
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
index 76613ac..b5dd568 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::SolveTriangularAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -13,7 +14,6 @@ pub fn faer_impl_solve_triangular_f<'b, T>(
 where
     T: ComplexField,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
     let faer_par = pool.map_or(Par::Seq, |pool| Par::rayon(pool.current_num_threads()));
@@ -26,10 +26,10 @@ where
     let mut b = overwritable_convert(b)?;
     let faer_b = b.view_mut().into_faer();
 
-    match uplo {
+    with_faer_parallelism(pool, || match uplo {
         Lower => faer::linalg::triangular_solve::solve_lower_triangular_in_place(faer_a, faer_b, faer_par),
         Upper => faer::linalg::triangular_solve::solve_upper_triangular_in_place(faer_a, faer_b, faer_par),
-    }
+    });
 
     Ok(b.clone_to_mut())
 }
diff --git a/rstsr-linalg-traits/src/faer_impl/svd.rs b/rstsr-linalg-traits/src/faer_impl/svd.rs
index b5869b5..7e95a54 100644
--- a/rstsr-linalg-traits/src/faer_impl/svd.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svd.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::{SVDResult, SVDAPI};
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -11,20 +12,17 @@ pub fn faer_impl_svd_f<T>(
 where
     T: ComplexField,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let faer_a = a.into_faer();
 
     // svd computation
     let svd_result = match full_matrices {
-        true => faer_a.svd().map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?,
-        false => faer_a.thin_svd().map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?,
+        true => with_faer_parallelism(pool, || faer_a.svd())
+            .map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?,
+        false => with_faer_parallelism(pool, || faer_a.thin_svd())
+            .map_err(|e| rstsr_error!(FaerError, "Faer SvD error: {e:?}"))?,
     };
     let (u, s, v) = (svd_result.U(), svd_result.S(), svd_result.V());
 
@@ -39,11 +37,6 @@ where
         vt: v.into_reverse_axes().into_contig(device.default_order()),
     };
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/svdvals.rs b/rstsr-linalg-traits/src/faer_impl/svdvals.rs
index ef80281..df5818d 100644
--- a/rstsr-linalg-traits/src/faer_impl/svdvals.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svdvals.rs
@@ -1,3 +1,4 @@
+use crate::faer_impl::with_faer_parallelism;
 use crate::traits_def::SVDvalsAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -8,26 +9,16 @@ pub fn faer_impl_svdvals_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<T
 where
     T: ComplexField,
 {
-    // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
 
     let faer_a = a.into_faer();
 
     // svd computation
-    let result =
-        faer_a.singular_values().map_err(|e| rstsr_error!(FaerError, "Faer SVD singular values error: {e:?}"))?;
+    let result = with_faer_parallelism(pool, || faer_a.singular_values())
+        .map_err(|e| rstsr_error!(FaerError, "Faer SVD singular values error: {e:?}"))?;
     let result = asarray((result, &device)).into_dim::<Ix1>();
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
-- 
2.43.0


From c586d965fbc33529e32b4fbed068082f437f01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 33/41] fix: faer singular value decomposition of complex
 matrices returns the adjoint of V

---
 rstsr-linalg-traits/src/faer_impl/svd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/svd.rs b/rstsr-linalg-traits/src/faer_impl/svd.rs
index 7e95a54..6a59543 100644
--- a/rstsr-linalg-traits/src/faer_impl/svd.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svd.rs
@@ -29,12 +29,12 @@ where
     // return to rstsr tensors
     let u = u.into_rstsr().into_owned();
     let s = s.column_vector().into_rstsr();
-    let v = v.into_rstsr();
+    let vt = v.adjoint().to_owned();
 
     let result = SVDResult {
         u: u.into_contig(device.default_order()),
         s: s.mapv(|v| T::real_part_impl(&v)).into_contig(device.default_order()),
-        vt: v.into_reverse_axes().into_contig(device.default_order()),
+        vt: vt.into_rstsr().into_contig(device.default_order()),
     };
 
     Ok(result)
-- 
2.43.0


From d463859935b4d8534fc6f55d21dc2d25b5f92b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 34/41] fix: BLAS products accumulate into outputs of any
 layout and over empty contractions

---
 crates-device/rstsr-aocl/src/matmul_impl.rs     | 10 +++++++---
 crates-device/rstsr-blis/src/matmul_impl.rs     | 10 +++++++---
 crates-device/rstsr-kml/src/matmul_impl.rs      | 10 +++++++---
 crates-device/rstsr-mkl/src/matmul_impl.rs      | 10 +++++++---
 crates-device/rstsr-openblas/src/matmul_impl.rs | 10 +++++++---
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/crates-device/rstsr-aocl/src/matmul_impl.rs b/crates-device/rstsr-aocl/src/matmul_impl.rs
index aaeae1b..b4936d9 100644
--- a/crates-device/rstsr-aocl/src/matmul_impl.rs
+++ b/crates-device/rstsr-aocl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        } else {
+            return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
+        }
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-blis/src/matmul_impl.rs b/crates-device/rstsr-blis/src/matmul_impl.rs
index aaeae1b..b4936d9 100644
--- a/crates-device/rstsr-blis/src/matmul_impl.rs
+++ b/crates-device/rstsr-blis/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        } else {
+            return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
+        }
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-kml/src/matmul_impl.rs b/crates-device/rstsr-kml/src/matmul_impl.rs
index aaeae1b..b4936d9 100644
--- a/crates-device/rstsr-kml/src/matmul_impl.rs
+++ b/crates-device/rstsr-kml/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        } else {
+            return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
+        }
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-mkl/src/matmul_impl.rs b/crates-device/rstsr-mkl/src/matmul_impl.rs
index aaeae1b..b4936d9 100644
--- a/crates-device/rstsr-mkl/src/matmul_impl.rs
+++ b/crates-device/rstsr-mkl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        } else {
+            return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
+        }
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-openblas/src/matmul_impl.rs b/crates-device/rstsr-openblas/src/matmul_impl.rs
index 211def8..9c000a0 100644
--- a/crates-device/rstsr-openblas/src/matmul_impl.rs
+++ b/crates-device/rstsr-openblas/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        } else {
+            return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
+        }
     }
 
     // handle the special case that n/m is zero-dimensional
-- 
2.43.0


From d10ca7c278b489e1a14fabffbaecc3ab7d4fe99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 35/41] fix: BLAS thread numbers are given back after panics
 and overlapping operations

---
 crates-device/rstsr-aocl/src/threading.rs     |  7 +-
 crates-device/rstsr-blis/src/threading.rs     |  8 +-
 crates-device/rstsr-kml/src/threading.rs      | 28 +++++--
 crates-device/rstsr-mkl/src/threading.rs      | 10 +--
 crates-device/rstsr-openblas/src/threading.rs | 16 ++--
 rstsr-blas-traits/src/threading.rs            | 84 ++++++++++++++++++-
 6 files changed, 123 insertions(+), 30 deletions(-)

diff --git a/crates-device/rstsr-aocl/src/threading.rs b/crates-device/rstsr-aocl/src/threading.rs
index 32bf5da..88f3f1f 100644
--- a/crates-device/rstsr-aocl/src/threading.rs
+++ b/crates-device/rstsr-aocl/src/threading.rs
@@ -35,11 +35,10 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
+    // the number of threads of AOCL belongs to the calling thread
+    let _restore = RestoreThreads::new(get_num_threads(), set_num_threads);
     set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    f()
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-blis/src/threading.rs b/crates-device/rstsr-blis/src/threading.rs
index f17e9bb..bdd4e58 100644
--- a/crates-device/rstsr-blis/src/threading.rs
+++ b/crates-device/rstsr-blis/src/threading.rs
@@ -35,11 +35,9 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    // the number of threads of BLIS is shared by the whole process
+    static SHARED: SharedThreads = SharedThreads::new();
+    SHARED.with(nthreads, get_num_threads, set_num_threads, f)
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-kml/src/threading.rs b/crates-device/rstsr-kml/src/threading.rs
index a3827d9..1ed37a8 100644
--- a/crates-device/rstsr-kml/src/threading.rs
+++ b/crates-device/rstsr-kml/src/threading.rs
@@ -12,8 +12,8 @@ impl KMLConfig {
         if rayon::current_thread_index().is_some() {
             // Inside rayon parallel region
             // For RSTSR usage, here `n` should always be 1 before actual computation.
-            // if n != 1 { eprintln!("Warning: Setting KML threads to {n} inside a rayon parallel region instead
-            // of 1. This may lead to thread lock in KML."); }
+            // if n != 1 { eprintln!("Warning: Setting KML threads to {n} inside a rayon parallel
+            // region instead of 1. This may lead to thread lock in KML."); }
             unsafe { rstsr_kml_ffi::kblas::BlasSetNumThreadsLocal(n as _) };
             unsafe { rstsr_kml_ffi::service::KmlSetNumThreads(n as _) };
         } else {
@@ -52,11 +52,25 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    // the service number is shared by the whole process; the number for BLAS is shared by the whole
+    // process outside of rayon parallel region, and belongs to the calling thread inside
+    static SHARED: SharedThreads = SharedThreads::new();
+    static SHARED_BLAS: SharedThreads = SharedThreads::new();
+    let get_service = || unsafe { rstsr_kml_ffi::service::KmlGetMaxThreads() as usize };
+    let set_service = |n: usize| unsafe { rstsr_kml_ffi::service::KmlSetNumThreads(n as _) };
+    let get_blas = || unsafe { rstsr_kml_ffi::kblas::BlasGetNumThreads() as usize };
+    let set_blas = |n: usize| unsafe { rstsr_kml_ffi::kblas::BlasSetNumThreads(n as _) };
+    let set_blas_local = |n: usize| unsafe { rstsr_kml_ffi::kblas::BlasSetNumThreadsLocal(n as _) };
+    SHARED.with(nthreads, get_service, set_service, || {
+        if rayon::current_thread_index().is_some() {
+            let previous = unsafe { rstsr_kml_ffi::kblas::BlasGetNumThreadsLocal() as usize };
+            let _restore = RestoreThreads::new(previous, set_blas_local);
+            set_blas_local(nthreads);
+            f()
+        } else {
+            SHARED_BLAS.with(nthreads, get_blas, set_blas, f)
+        }
+    })
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-mkl/src/threading.rs b/crates-device/rstsr-mkl/src/threading.rs
index 8d38856..a866e32 100644
--- a/crates-device/rstsr-mkl/src/threading.rs
+++ b/crates-device/rstsr-mkl/src/threading.rs
@@ -35,11 +35,11 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    // the number set here belongs to the calling thread, and zero means that it follows the global
+    // one
+    let previous = unsafe { rstsr_mkl_ffi::service::MKL_Set_Num_Threads_Local(nthreads as _) };
+    let _restore = RestoreThreads::new(previous as usize, set_num_threads);
+    f()
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-openblas/src/threading.rs b/crates-device/rstsr-openblas/src/threading.rs
index f6a606a..f86c2e1 100644
--- a/crates-device/rstsr-openblas/src/threading.rs
+++ b/crates-device/rstsr-openblas/src/threading.rs
@@ -114,11 +114,17 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    // OpenMP keeps the number of threads per calling thread, otherwise it is shared by the whole
+    // process
+    static SHARED: SharedThreads = SharedThreads::new();
+    let parallel = INTERNAL.lock().unwrap().get_parallel();
+    if parallel == OPENBLAS_OPENMP {
+        let _restore = RestoreThreads::new(get_num_threads(), set_num_threads);
+        set_num_threads(nthreads);
+        f()
+    } else {
+        SHARED.with(nthreads, get_num_threads, set_num_threads, f)
+    }
 }
 
 /* #endregion */
diff --git a/rstsr-blas-traits/src/threading.rs b/rstsr-blas-traits/src/threading.rs
index bb87221..517eadf 100644
--- a/rstsr-blas-traits/src/threading.rs
+++ b/rstsr-blas-traits/src/threading.rs
@@ -4,6 +4,8 @@
 //! the library. This module provides trait to set the number of threads used by
 //! the BLAS library.
 
+use std::sync::{Mutex, PoisonError};
+
 pub trait BlasThreadAPI {
     /// Set the number of threads used by the BLAS library.
     fn set_blas_num_threads(&self, nthreads: usize);
@@ -11,10 +13,84 @@ pub trait BlasThreadAPI {
     fn get_blas_num_threads(&self) -> usize;
     /// Set the number of threads in closure.
     fn with_blas_num_threads<T>(&self, nthreads: usize, f: impl FnOnce() -> T) -> T {
-        let n = self.get_blas_num_threads();
+        let previous = self.get_blas_num_threads();
+        let _restore = RestoreThreads::new(previous, |n| self.set_blas_num_threads(n));
         self.set_blas_num_threads(nthreads);
-        let result = f();
-        self.set_blas_num_threads(n);
-        result
+        f()
+    }
+}
+
+/// Gives a number of threads back when dropped, also when the scope it guards panics.
+///
+/// This suits libraries where the number of threads belongs to the calling thread.
+pub struct RestoreThreads<F: Fn(usize)> {
+    previous: usize,
+    set: F,
+}
+
+impl<F: Fn(usize)> RestoreThreads<F> {
+    pub fn new(previous: usize, set: F) -> Self {
+        Self { previous, set }
+    }
+}
+
+impl<F: Fn(usize)> Drop for RestoreThreads<F> {
+    fn drop(&mut self) {
+        (self.set)(self.previous);
+    }
+}
+
+/// Scopes on a number of threads that is shared by the whole process.
+///
+/// Scopes of several threads may overlap in any order. The number in force is the smallest one
+/// asked for by the scopes still open; the number found by the first scope is given back by the
+/// last one to close, also when the scoped closures panic.
+pub struct SharedThreads {
+    scopes: Mutex<SharedScopes>,
+}
+
+struct SharedScopes {
+    original: usize,
+    requests: Vec<usize>,
+}
+
+impl SharedThreads {
+    pub const fn new() -> Self {
+        Self { scopes: Mutex::new(SharedScopes { original: 0, requests: Vec::new() }) }
+    }
+
+    /// Call `f` while the number of threads is limited to `nthreads`.
+    pub fn with<T>(&self, nthreads: usize, get: impl Fn() -> usize, set: impl Fn(usize), f: impl FnOnce() -> T) -> T {
+        struct Close<'a, F: Fn(usize)> {
+            shared: &'a SharedThreads,
+            nthreads: usize,
+            set: F,
+        }
+
+        impl<F: Fn(usize)> Drop for Close<'_, F> {
+            fn drop(&mut self) {
+                let mut scopes = self.shared.scopes.lock().unwrap_or_else(PoisonError::into_inner);
+                if let Some(i) = scopes.requests.iter().position(|&n| n == self.nthreads) {
+                    scopes.requests.swap_remove(i);
+                }
+                (self.set)(scopes.requests.iter().copied().min().unwrap_or(scopes.original));
+            }
+        }
+
+        let mut scopes = self.scopes.lock().unwrap_or_else(PoisonError::into_inner);
+        if scopes.requests.is_empty() {
+            scopes.original = get();
+        }
+        scopes.requests.push(nthreads);
+        set(scopes.requests.iter().copied().min().unwrap_or(nthreads));
+        drop(scopes);
+        let _close = Close { shared: self, nthreads, set };
+        f()
+    }
+}
+
+impl Default for SharedThreads {
+    fn default() -> Self {
+        Self::new()
     }
 }
-- 
2.43.0


From 5490252d6aa6fee283891623f811592b2ebe1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:38 +0000
Subject: [PATCH 36/41] fix: LAPACK workspace queries of complex matrices write
 into variables of their own type

---
 rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs  | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs | 6 +++---
 rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs  | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs | 6 +++---
 rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs  | 4 ++--
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
index 4d40cf5..8d536a7 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
@@ -116,7 +116,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &(jobz as _),
             &uplo.into(),
@@ -132,7 +132,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
index 8801f88..cf93c6e 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
@@ -134,8 +134,8 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         let mut iwork_query = 0;
         func_(
             &(jobz as _),
@@ -155,7 +155,7 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
         let lrwork = rwork_query as usize;
         let liwork = iwork_query as usize;
 
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
index c565098..d21ebf6 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
@@ -151,7 +151,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &itype,
             &(jobz as _),
@@ -170,7 +170,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
index c33b793..ba971f9 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
@@ -159,8 +159,8 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         let mut iwork_query = 0;
         func_(
             &itype,
@@ -183,7 +183,7 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
         let lrwork = rwork_query as usize;
         let liwork = iwork_query as usize;
 
diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
index 5092db4..6ea9902 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
@@ -141,7 +141,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &uplo.into(),
             &(n as _),
@@ -158,7 +158,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
index 4c7d66e..0ed8f66 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
@@ -211,8 +211,8 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork =
             if jobz == 'N' { 7 * m.min(n) } else { m.min(n) * (5 * m.min(n) + 7).max(2 * m.max(n) + 2 * m.min(n) + 1) };
-        let mut work_query = Complex::new(0.0, 0.0);
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         func_(
             &(jobz as _),
             &(m as _),
-- 
2.43.0


From 2731f03b2f4ec6af16cc2134cecaaa2329175c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:38 +0000
Subject: [PATCH 37/41] fix: BLAS3 routines use the position of their operands
 and the leading dimension of their outputs

---
 rstsr-blas-traits/src/blas3/gemm.rs   |  9 +++++----
 rstsr-blas-traits/src/blas3/syhemm.rs | 16 +++++++++-------
 rstsr-blas-traits/src/blas3/trsm.rs   |  7 ++++---
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/rstsr-blas-traits/src/blas3/gemm.rs b/rstsr-blas-traits/src/blas3/gemm.rs
index 7f8101e..69c5716 100644
--- a/rstsr-blas-traits/src/blas3/gemm.rs
+++ b/rstsr-blas-traits/src/blas3/gemm.rs
@@ -134,12 +134,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/syhemm.rs b/rstsr-blas-traits/src/blas3/syhemm.rs
index 5487f7c..731e02e 100644
--- a/rstsr-blas-traits/src/blas3/syhemm.rs
+++ b/rstsr-blas-traits/src/blas3/syhemm.rs
@@ -62,9 +62,10 @@ where
 
         let default_order = a.device().default_order();
         let order = get_output_order(&[order, order_c], &[], default_order);
+        let a_t = a.t();
         if order == ColMajor {
             let (uplo, a_cow) = match (HERMI, a.f_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(ColMajor)?),
+                (false, false) => (uplo.flip(), a_t.to_contig_f(ColMajor)?),
                 _ => (uplo, a.to_contig_f(ColMajor)?),
             };
             let b_cow = b.to_contig_f(ColMajor)?;
@@ -72,7 +73,7 @@ where
             obj.internal_run()
         } else {
             let (uplo, a_cow) = match (HERMI, a.c_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(RowMajor)?),
+                (false, false) => (uplo.flip(), a_t.to_contig_f(RowMajor)?),
                 _ => (uplo, a.to_contig_f(RowMajor)?),
             };
             let b_cow = b.to_contig_f(RowMajor)?;
@@ -103,7 +104,7 @@ where
 
         // initialize intent(hide)
         let m = b.nrow();
-        let n = a.ncol();
+        let n = b.ncol();
         let lda = a.ld_col().unwrap();
         let ldb = b.ld_col().unwrap();
 
@@ -128,12 +129,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/trsm.rs b/rstsr-blas-traits/src/blas3/trsm.rs
index 63acc13..59c1d01 100644
--- a/rstsr-blas-traits/src/blas3/trsm.rs
+++ b/rstsr-blas-traits/src/blas3/trsm.rs
@@ -123,10 +123,11 @@ where
         let mut b = overwritable_convert_with_order(b, ColMajor)?;
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ldb = b.view().ld(ColMajor).unwrap();
+        let ptr_b = b.view_mut().as_mut_ptr();
 
-        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, m) };
+        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, ldb) };
 
         Ok(b.clone_to_mut())
     }
-- 
2.43.0


From 0214b41c06badb8ca812a017906404146dae9f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:38 +0000
Subject: [PATCH 38/41] fix: determinants of matrices that are not square are
 an error

---
 rstsr-blas-traits/src/lapack_solve/getrf.rs | 2 +-
 rstsr-linalg-traits/src/ref_impl_blas.rs    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-blas-traits/src/lapack_solve/getrf.rs b/rstsr-blas-traits/src/lapack_solve/getrf.rs
index e4afa56..4377bf3 100644
--- a/rstsr-blas-traits/src/lapack_solve/getrf.rs
+++ b/rstsr-blas-traits/src/lapack_solve/getrf.rs
@@ -37,7 +37,7 @@ where
 
         let [m, n] = *a.view().shape();
         let lda = a.view().ld(order).unwrap();
-        let mut ipiv = unsafe { empty_f(([n].c(), &device))?.into_dim::<Ix1>() };
+        let mut ipiv = unsafe { empty_f(([m.min(n)].c(), &device))?.into_dim::<Ix1>() };
         let ptr_a = a.view_mut().as_mut_ptr();
         let ptr_ipiv = ipiv.as_mut_ptr();
 
diff --git a/rstsr-linalg-traits/src/ref_impl_blas.rs b/rstsr-linalg-traits/src/ref_impl_blas.rs
index 711e8fa..cc4c97b 100644
--- a/rstsr-linalg-traits/src/ref_impl_blas.rs
+++ b/rstsr-linalg-traits/src/ref_impl_blas.rs
@@ -230,6 +230,7 @@ where
 {
     let device = a.device().clone();
     let nthreads = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
+    rstsr_assert_eq!(a.shape()[0], a.shape()[1], InvalidLayout, "Determinant is only defined for square matrices.")?;
     let task = || {
         let (a, piv) = GETRF::default().a(a).build()?.run()?;
         // pivot indices that may cause sign change
-- 
2.43.0


From 69323892dc3546b72530f432b26189ce531592bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:37 +0000
Subject: [PATCH 39/41] fix: GESVD works on row-major matrices and small shapes

---
 .../driver_impl/lapack/svd/gesvd.rs           | 28 +++++++++----------
 rstsr-blas-traits/src/lapack_svd/gesvd.rs     |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
index c727412..0959309 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
@@ -41,12 +41,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a,
-            &(lda as _),
+            &(m.max(n).max(1) as _),
             s,
             u,
-            &(ldu as _),
+            &(m.max(1) as _),
             vt,
-            &(ldvt as _),
+            &(n.max(1) as _),
             &mut work_query,
             &lwork,
             &mut info,
@@ -153,26 +153,26 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
         // Backup superb data
         let min_mn = m.min(n);
-        for i in 0..min_mn - 1 {
+        for i in 0..min_mn.saturating_sub(1) {
             superb.add(i).write(work[i + 1]);
         }
 
@@ -220,12 +220,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a as *mut _,
-            &(lda as _),
+            &(m.max(n).max(1) as _),
             s as *mut _,
             u as *mut _,
-            &(ldu as _),
+            &(m.max(1) as _),
             vt as *mut _,
-            &(ldvt as _),
+            &(n.max(1) as _),
             &mut work_query as *mut _ as *mut _,
             &lwork,
             rwork.as_mut_ptr() as *mut _,
@@ -335,26 +335,26 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
         // Backup superb data
         #[allow(clippy::needless_range_loop)]
-        for i in 0..min_mn - 1 {
+        for i in 0..min_mn.saturating_sub(1) {
             superb.add(i).write(rwork[i]);
         }
 
diff --git a/rstsr-blas-traits/src/lapack_svd/gesvd.rs b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
index 1a2ffa8..03d9b26 100644
--- a/rstsr-blas-traits/src/lapack_svd/gesvd.rs
+++ b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
@@ -77,7 +77,7 @@ where
         let mut u = unsafe { empty_f(([u0, u1], order, &device))?.into_dim::<Ix2>() };
         let mut vt = unsafe { empty_f(([vt0, vt1], order, &device))?.into_dim::<Ix2>() };
         let mut s = unsafe { empty_f(([minmn], &device))?.into_dim::<Ix1>() };
-        let mut superb = unsafe { empty_f(([minmn - 1], &device))?.into_dim::<Ix1>() };
+        let mut superb = unsafe { empty_f(([minmn.saturating_sub(1)], &device))?.into_dim::<Ix1>() };
 
         let ldu = u.view().ld(order).unwrap();
         let ldvt = vt.view().ld(order).unwrap();
-- 
2.43.0


From 0bc7f23f257b52e863f56ecad5bf77a421e0eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:49 +0000
Subject: [PATCH 40/41] fix: refuse to write different values through a
 broadcast view

---
 rstsr-common/src/layout/broadcast.rs                    | 8 ++++++++
 rstsr-core/src/tensor/linalg/matmul.rs                  | 1 +
 rstsr-core/src/tensor/linalg/vecdot.rs                  | 1 +
 rstsr-core/src/tensor/operators/op_binary_arithmetic.rs | 1 +
 rstsr-core/src/tensor/operators/op_binary_assign.rs     | 1 +
 rstsr-core/src/tensor/operators/op_with_func.rs         | 2 ++
 6 files changed, 14 insertions(+)

diff --git a/rstsr-common/src/layout/broadcast.rs b/rstsr-common/src/layout/broadcast.rs
index c348410..7fcadc5 100644
--- a/rstsr-common/src/layout/broadcast.rs
+++ b/rstsr-common/src/layout/broadcast.rs
@@ -271,6 +271,14 @@ where
     pub fn is_broadcasted(&self) -> bool {
         self.stride().as_ref().contains(&0)
     }
+
+    /// Check whether broadcasting lets different indices refer to the same element.
+    ///
+    /// Such a layout can be read from, but not be written to element by element.
+    pub fn is_broadcast_overlapped(&self) -> bool {
+        // an empty layout has no elements to share, whatever its strides
+        self.size() > 0 && self.shape().as_ref().iter().zip(self.stride().as_ref()).any(|(&d, &s)| d > 1 && s == 0)
+    }
 }
 
 #[cfg(test)]
diff --git a/rstsr-core/src/tensor/linalg/matmul.rs b/rstsr-core/src/tensor/linalg/matmul.rs
index 2be3825..176d230 100644
--- a/rstsr-core/src/tensor/linalg/matmul.rs
+++ b/rstsr-core/src/tensor/linalg/matmul.rs
@@ -64,6 +64,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let lc = c.layout().clone();
+    rstsr_assert!(!lc.is_broadcast_overlapped(), InvalidLayout, "cannot write to broadcasted tensor")?;
     let sa = a.raw();
     let sb = b.raw();
     let sc = c.raw_mut();
diff --git a/rstsr-core/src/tensor/linalg/vecdot.rs b/rstsr-core/src/tensor/linalg/vecdot.rs
index c73952f..b082dbe 100644
--- a/rstsr-core/src/tensor/linalg/vecdot.rs
+++ b/rstsr-core/src/tensor/linalg/vecdot.rs
@@ -322,6 +322,7 @@ where
     rstsr_assert_eq!(shape_c_expect, shape_c.as_ref(), InvalidLayout, "incompatible shapes in vecdot")?;
 
     let c_layout = c.layout().clone();
+    rstsr_assert!(!c_layout.is_broadcast_overlapped(), InvalidLayout, "cannot write to broadcasted tensor")?;
     let c_raw_mut = unsafe {
         transmute::<&mut <B as DeviceRawAPI<TC>>::Raw, &mut <B as DeviceRawAPI<MaybeUninit<TC>>>::Raw>(c.raw_mut())
     };
diff --git a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
index 8198810..7b5b048 100644
--- a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
@@ -604,6 +604,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert!(!lc.is_broadcast_overlapped(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
diff --git a/rstsr-core/src/tensor/operators/op_binary_assign.rs b/rstsr-core/src/tensor/operators/op_binary_assign.rs
index 1b2af88..875b519 100644
--- a/rstsr-core/src/tensor/operators/op_binary_assign.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_assign.rs
@@ -123,6 +123,7 @@ mod impl_binary_assign {
             let la = a.layout();
             let lb = b.layout();
             let default_order = a.device().default_order();
+            rstsr_assert!(!la.is_broadcast_overlapped(), InvalidLayout, "cannot write to broadcasted tensor")?;
             // check layout broadcast
             let (la_b, lb_b) = broadcast_layout_to_first(&la.to_dim::<IxD>()?, &lb.to_dim::<IxD>()?, default_order)?;
             rstsr_assert_eq!(la_b, la.to_dim::<IxD>()?, InvalidLayout)?;
diff --git a/rstsr-core/src/tensor/operators/op_with_func.rs b/rstsr-core/src/tensor/operators/op_with_func.rs
index 2555caf..fc921d3 100644
--- a/rstsr-core/src/tensor/operators/op_with_func.rs
+++ b/rstsr-core/src/tensor/operators/op_with_func.rs
@@ -28,6 +28,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert!(!lc.is_broadcast_overlapped(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
@@ -103,6 +104,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = a.device().default_order();
+    rstsr_assert!(!la.is_broadcast_overlapped(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (la_b, lb_b) = broadcast_layout_to_first(la, lb, default_order)?;
-- 
2.43.0


From 9e8a74273b21128f3ce95c8057a728aa9d83b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:44 +0000
Subject: [PATCH 41/41] fix: assign to and fill empty tensors

---
 rstsr-core/src/tensor/assignment.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/assignment.rs b/rstsr-core/src/tensor/assignment.rs
index ec1ddd1..0531719 100644
--- a/rstsr-core/src/tensor/assignment.rs
+++ b/rstsr-core/src/tensor/assignment.rs
@@ -39,7 +39,7 @@ where
         rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
         let device = a.device().clone();
         // check layout
-        rstsr_assert!(!a.layout().is_broadcasted(), InvalidLayout, "cannot assign to broadcasted tensor")?;
+        rstsr_assert!(!a.layout().is_broadcast_overlapped(), InvalidLayout, "cannot assign to broadcasted tensor")?;
         let la = a.layout().to_dim::<IxD>()?;
         let lb = b.layout().to_dim::<IxD>()?;
         let default_order = a.device().default_order();
@@ -116,7 +116,7 @@ where
 {
     fn fill_f(a: &mut Self, b: TB) -> Result<()> {
         // check layout
-        rstsr_assert!(!a.layout().is_broadcasted(), InvalidLayout, "cannot fill broadcasted tensor")?;
+        rstsr_assert!(!a.layout().is_broadcast_overlapped(), InvalidLayout, "cannot fill broadcasted tensor")?;
         let la = a.layout().clone();
         let device = a.device().clone();
         device.fill(a.raw_mut(), &la, b)
-- 
2.43.0

