From 0bd53124566ae8cd94f09b765546145d83364f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:52 +0000
Subject: [PATCH 01/22] fix: consuming views keep the buffer's capacity so it
 is freed with its real layout

---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..b41ebc7 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From f00dacb8f86a43aa20be91f788c7426a74d3c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 02/22] fix: repeated (zero-stride) axes of broadcast views are
 not uniformly strided or contiguous

---
 src/ndarray/iterator/collapse_contiguous.rs | 8 +++++++-
 src/ndarray/slice.rs                        | 3 ++-
 src/ops/fill.rs                             | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..efc1062 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -81,10 +81,16 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
         return Some(0);
     }
 
+    let mut length = shape[0]; // number of elements along the dimensions merged so far
+
     for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
+        // a zero stride may only be ignored if nothing has been repeated along it
+        let can_collapse = stride[i - 1] == shape[i] * stride[i] || (stride[i - 1] == 0 && length == 1);
+
+        if !can_collapse {
             return None;
         }
+        length *= shape[i];
     }
 
     Some(stride[ndims - 1])
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..06ce31c 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,8 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            // a zero stride is only contiguous if there is a single element (otherwise it is repeated)
+            if stride == 1 || (stride == 0 && shape.iter().all(|&axis_length| axis_length == 1)) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
diff --git a/src/ops/fill.rs b/src/ops/fill.rs
index 985202d..f86a215 100644
--- a/src/ops/fill.rs
+++ b/src/ops/fill.rs
@@ -52,7 +52,7 @@ pub(crate) trait Fill: Copy {
         }
 
         for _ in 0..shape[0] {
-            let len = shape[1] * stride[1];
+            let len = shape[1..].iter().product();
 
             Self::fill(ptr, &shape[1..], &stride[1..], len, value);
             ptr = ptr.add(stride[0]);
-- 
2.43.0


From b983fec953d7b2d99055f94d24e18d166466c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:53 +0000
Subject: [PATCH 03/22] fix: slices reject out-of-range, reversed and empty
 indices

---
 src/ndarray/slice.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 06ce31c..b22e245 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -26,6 +26,19 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
     flags
 }
 
+/// Returns the length of an axis after being indexed.
+///
+/// # Panics
+/// - If the index is out of bounds or selects no elements
+fn checked_indexed_length<S: Indexer>(index: &S, axis_length: usize) -> usize {
+    let start = index.index_of_first_element();
+    assert!(start < axis_length, "index {start} out of bounds for axis with length {axis_length}");
+
+    let length = index.indexed_length(axis_length);
+    assert!(0 < length && length <= axis_length - start, "slice out of bounds for axis with length {axis_length}");
+    length
+}
+
 fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
     // let mut len = 1;
     // for i in 0..ndims {
@@ -47,11 +60,13 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
 
+        let new_length = checked_indexed_length(&index, self.shape[axis]);
+
         if index.collapse_dimension() {
             new_shape.remove(axis);
             new_stride.remove(axis);
         } else {
-            new_shape[axis] = index.indexed_length(new_shape[axis]);
+            new_shape[axis] = new_length;
         }
 
         let offset = self.stride[axis] * index.index_of_first_element();
@@ -88,8 +103,9 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            let new_length = checked_indexed_length(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
-                let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
                 new_stride.push(self.stride[axis]);
             }
-- 
2.43.0


From f7eb7541494b0b8e1aaecb281492fb5b0fbe75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:24 +0000
Subject: [PATCH 04/22] fix: indexing checks every coordinate against its axis

---
 src/ndarray/index_impl.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..6f04db9 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -8,24 +8,26 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
     fn index(&self, index: [usize; D]) -> &Self::Output {
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length), "[] index out of bounds!");
+
         let i: usize = index.iter().zip(self.stride.iter())
             .map(|(idx, stride)| idx * stride)
             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
-        assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
+        assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
+
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length), "[] index out of bounds!");
 
         let i: usize = index.iter().zip(self.stride.iter())
                             .map(|(idx, stride)| idx * stride)
                             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From 625c575369b241b76a0a57edecd2f7c98d3768a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:34 +0000
Subject: [PATCH 05/22] fix: fill and element assignment respect readonly views

---
 src/ndarray/fill.rs       | 5 +++++
 src/ndarray/index_impl.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..cf7e23f 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -6,6 +7,9 @@ use crate::ops::fill::Fill;
 impl<T: RawDataType> NdArray<'_, T> {
     /// Fills the entire array with a specified `value`.
     ///
+    /// # Panics
+    /// - If the array is readonly (e.g. it is a broadcast view)
+    ///
     /// # Example
     ///
     /// ```
@@ -16,6 +20,7 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "array is readonly.");
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 6f04db9..6bede43 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
@@ -20,6 +21,7 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "array is readonly.");
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
         assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length), "[] index out of bounds!");
-- 
2.43.0


From 8315292f8f07e233972c6dbf70d0181af7e7f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:43 +0000
Subject: [PATCH 06/22] fix: nditer carries to the next axis at the end of an
 axis

---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..df73b21 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] + 1 != self.shape[i] {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From a2e654f50925ec1ac36b881413ea2c24ab03130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:08 +0000
Subject: [PATCH 07/22] fix: in-place operators write only the elements of a
 non-contiguous destination

---
 src/ndarray/assign_ops.rs | 44 ++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..14fb97e 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -9,9 +9,20 @@ use crate::{NdArray, StridedMemory};
 use paste::paste;
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Copies the elements of `src` into the (possibly strided) elements of this array.
+    ///
+    /// # Safety
+    /// - `src` must have the same shape as this array and must not overlap with it
+    unsafe fn copy_from(&mut self, src: &NdArray<'_, T>) {
+        for (dst, value) in self.flatiter_ptr().zip(src.flatiter()) {
+            *dst = value;
+        }
+    }
+}
 
 macro_rules! define_binary_iop {
-    ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
+    ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $binary_operator:tt, $method:ident ) => {
         paste! {
             impl<T: RawDataType + $binary_op_trait> $iop_trait<NdArray<'_, T>> for NdArray<'_, T> {
                 fn [<$method _assign>](&mut self, rhs: NdArray<'_, T>) {
@@ -25,6 +36,13 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
                     
+                    // the kernels write their results contiguously
+                    if !self.is_contiguous() {
+                        let rhs = rhs.broadcast_to(&self.shape);
+                        let result = &*self $binary_operator &rhs;
+                        return unsafe { self.copy_from(&result) };
+                    }
+
                     if rhs.shape() == self.shape() {
                         unsafe {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
@@ -52,6 +70,12 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
 
+                    // the kernels write their results contiguously
+                    if !self.is_contiguous() {
+                        let result = &*self $binary_operator rhs;
+                        return unsafe { self.copy_from(&result) };
+                    }
+
                     unsafe {
                         <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
                                                                      rhs, self.mut_ptr());
@@ -62,12 +86,12 @@ macro_rules! define_binary_iop {
     };
 }
 
-define_binary_iop!(BinaryOpAdd, AddAssign, +=, add);
-define_binary_iop!(BinaryOpSub, SubAssign, -=, sub);
-define_binary_iop!(BinaryOpMul, MulAssign, *=, mul);
-define_binary_iop!(BinaryOpDiv, DivAssign, /=, div);
-define_binary_iop!(BinaryOpRem, RemAssign, %=, rem);
-define_binary_iop!(BinaryOpBitAnd, BitAndAssign, &=, bitand);
-define_binary_iop!(BinaryOpBitOr, BitOrAssign, |=, bitor);
-define_binary_iop!(BinaryOpShl, ShlAssign, <<=, shl);
-define_binary_iop!(BinaryOpShr, ShrAssign, >>=, shr);
+define_binary_iop!(BinaryOpAdd, AddAssign, +=, +, add);
+define_binary_iop!(BinaryOpSub, SubAssign, -=, -, sub);
+define_binary_iop!(BinaryOpMul, MulAssign, *=, *, mul);
+define_binary_iop!(BinaryOpDiv, DivAssign, /=, /, div);
+define_binary_iop!(BinaryOpRem, RemAssign, %=, %, rem);
+define_binary_iop!(BinaryOpBitAnd, BitAndAssign, &=, &, bitand);
+define_binary_iop!(BinaryOpBitOr, BitOrAssign, |=, |, bitor);
+define_binary_iop!(BinaryOpShl, ShlAssign, <<=, <<, shl);
+define_binary_iop!(BinaryOpShr, ShrAssign, >>=, >>, shr);
-- 
2.43.0


From 6c8a35a517c034275f50854b40d25ea5aab753df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:40 +0000
Subject: [PATCH 08/22] fix: flat iterators, data slices and consumed views
 cannot outlive the array they borrow from

---
 src/ndarray/iterator/flat_iterator.rs | 11 +++++++----
 src/ndarray/iterator/iterators.rs     |  2 +-
 src/ndarray/methods.rs                |  2 +-
 src/ndarray/reshape.rs                |  4 ++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ndarray/iterator/flat_iterator.rs b/src/ndarray/iterator/flat_iterator.rs
index e94ec40..e2a4eb3 100644
--- a/src/ndarray/iterator/flat_iterator.rs
+++ b/src/ndarray/iterator/flat_iterator.rs
@@ -1,20 +1,23 @@
 use crate::buffer_iterator::BufferIterator;
 use crate::dtype::RawDataType;
 use crate::NdArray;
+use std::marker::PhantomData;
 
-pub struct FlatIterator<T: RawDataType> {
+pub struct FlatIterator<'a, T: RawDataType> {
     buffer_iterator: BufferIterator<T>,
+    _marker: PhantomData<&'a T>,
 }
 
-impl<T: RawDataType> FlatIterator<T> {
-    pub(super) fn from(tensor: &NdArray<T>) -> Self {
+impl<'a, T: RawDataType> FlatIterator<'a, T> {
+    pub(super) fn from(tensor: &'a NdArray<T>) -> Self {
         Self {
             buffer_iterator: BufferIterator::from(tensor),
+            _marker: PhantomData,
         }
     }
 }
 
-impl<T: RawDataType> Iterator for FlatIterator<T> {
+impl<T: RawDataType> Iterator for FlatIterator<'_, T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
diff --git a/src/ndarray/iterator/iterators.rs b/src/ndarray/iterator/iterators.rs
index 10e7658..d1b8cad 100644
--- a/src/ndarray/iterator/iterators.rs
+++ b/src/ndarray/iterator/iterators.rs
@@ -6,7 +6,7 @@ use crate::axis::{AxesType, AxisType};
 use crate::buffer_iterator::BufferIterator;
 
 impl<T: RawDataType> NdArray<'_, T> {
-    pub fn flatiter(&self) -> FlatIterator<T> {
+    pub fn flatiter(&self) -> FlatIterator<'_, T> {
         FlatIterator::from(self)
     }
 
diff --git a/src/ndarray/methods.rs b/src/ndarray/methods.rs
index 4c8b941..4875f6d 100644
--- a/src/ndarray/methods.rs
+++ b/src/ndarray/methods.rs
@@ -38,7 +38,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     /// let data = ndarray.data_slice();
     /// assert_eq!(data, &[50, 60, -5, -10]);
     /// ```
-    pub fn data_slice(&self) -> &'a [T] {
+    pub fn data_slice(&self) -> &[T] {
         assert!(self.is_contiguous(), "cannot get data slice of non-contiguous tensor");
         unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
     }
diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index b41ebc7..1c0aff6 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -53,8 +53,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     }
 }
 
-impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
-    type Output = NdArray<'static, T>;
+impl<'a, T: RawDataType> Reshape<T> for NdArray<'a, T> {
+    type Output = NdArray<'a, T>;
 
     unsafe fn reshaped_view(mut self, shape: Vec<usize>, stride: Vec<usize>) -> Self::Output {
         let flags = update_flags_with_contiguity(self.flags, &shape, &stride);
-- 
2.43.0


From 0ff53ea6434fb179eeb124920fab21f2235dbb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 09/22] fix: arrays and graph nodes taken from tensor views own
 their data

---
 src/tensor/methods.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..c103003 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -33,12 +33,23 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
     }
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
+    ///
+    /// If the tensor is a view, the data is copied so that the result can outlive its source.
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        if self.array.is_view() {
+            return Rc::new(self.array.as_ref().clone());
+        }
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
+    ///
+    /// If the tensor is a view, the data is copied so that the result can outlive its source.
     pub fn into_ndarray(self) -> NdArray<'static, T> {
+        if self.array.is_view() {
+            return self.array.as_ref().clone();
+        }
+
         match Rc::try_unwrap(self.array) {
             Ok(result) => { result }
             Err(rc) => { (*rc).clone() }
-- 
2.43.0


From 77855c15e7aa40e2099c7b6091e9bf63e265e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:58 +0000
Subject: [PATCH 10/22] fix: consuming reshapes of shared or borrowed tensors
 use the strides of the array they view

---
 src/tensor/reshape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..7cac49c 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -3,6 +3,7 @@ use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
 use crate::{AxisType, Reshape, StridedMemory, Tensor, TensorDataType};
 use crate::identity_backwards::IdentityBackwards;
+use std::rc::Rc;
 
 
 impl<'a, T: TensorDataType> Reshape<T> for &'a Tensor<'a, T> {
@@ -100,7 +101,13 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        // into_ndarray() would copy a shared or borrowed array into a contiguous layout for which
+        // `stride` is invalid, so the view must be taken before copying
+        let result = if self.array.is_view() || Rc::strong_count(&self.array) > 1 {
+            self.array.as_ref().reshaped_view(shape, stride).clone()
+        } else {
+            self.into_ndarray().reshaped_view(shape, stride)
+        };
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From d5a57b53916b53bce9f8a9ba67e2f2b01961ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:08 +0000
Subject: [PATCH 11/22] fix: scalars can be reshaped

---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From 76a0c793fff5e12dca6ac2f14ebaeeec574a5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:17 +0000
Subject: [PATCH 12/22] fix: gradients of reshaped tensors may have any layout

---
 src/autograd/reshape_backwards.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..240d4d8 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -1,6 +1,6 @@
 use crate::gradient_function::{GradientFuncTrait, GradientFunction};
 use crate::util::to_vec::ToVec;
-use crate::{call_next_backward, FloatDataType, NdArray, Reshape, Tensor};
+use crate::{call_next_backward, FloatDataType, NdArray, Reshape, StridedMemory, Tensor};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -11,8 +11,11 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
-                            self.next_function);
+        if grad.is_uniformly_strided() {
+            call_next_backward!(grad.reshape(&self.shape), self.next_function);
+        } else {
+            call_next_backward!(grad.clone().reshape(&self.shape), self.next_function);
+        }
     }
 }
 
-- 
2.43.0


From 8449b8a7e05d0cb4ae3801fe8c18629eb661d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:41 +0000
Subject: [PATCH 13/22] fix: arange and linspace have exactly the requested
 number of elements for every dtype

---
 src/common/constructors.rs | 8 +++++---
 src/util/dtype.rs          | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index edb1939..2a3f306 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -222,8 +222,8 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
 
         let step = (stop - start) / (<T as NumCast>::from(num).unwrap() - T::one());
 
-        // from start to (stop + step) to make the range inclusive
-        Self::arange_with_step(start, stop + step, step)
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -257,6 +257,8 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / <T as NumCast>::from(num).unwrap();
-        Self::arange_with_step(start, stop, step)
+
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 }
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..f014a32 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -50,7 +50,7 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
     type AsFloatType: FloatDataType;
 
     fn to_float(&self) -> Self::AsFloatType {
-        self.to_f32().unwrap().into()
+        NumCast::from(*self).unwrap()
     }
 
     fn ceil(&self) -> Self {
@@ -71,7 +71,7 @@ impl NumericDataType for u16 {
 }
 
 impl NumericDataType for u32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for u64 {
@@ -95,7 +95,7 @@ impl NumericDataType for i16 {
 }
 
 impl NumericDataType for i32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for i64 {
-- 
2.43.0


From 559bd1cf9fec5ddef81b6fff989384d2c1c32779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:51 +0000
Subject: [PATCH 14/22] fix: randint never returns its exclusive upper bound

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..47fbbd6 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -107,7 +107,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let uniform = Uniform::new(low.to_float(), high.to_float());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| <T as NumCast>::from(num::Float::floor(uniform.sample(&mut rng))).unwrap())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From d2eddc088375c79238fb19eecda0d6018a8c44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:39 +0000
Subject: [PATCH 15/22] fix: min and max of infinite floats are infinite

---
 src/ndarray/reduce.rs           |  6 +++---
 src/ops/reduce_max.rs           | 17 +++++++++++++++--
 src/ops/reduce_min.rs           | 17 +++++++++++++++--
 src/ops/reduce_min_magnitude.rs | 17 +++++++++++++++--
 4 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/ndarray/reduce.rs b/src/ndarray/reduce.rs
index 5a5decf..ed2c512 100644
--- a/src/ndarray/reduce.rs
+++ b/src/ndarray/reduce.rs
@@ -165,7 +165,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min, axes, T::max_value())
+        self.reduce_along(partial_min, axes, T::min_identity())
     }
 
     /// Computes the maximum of all elements in the array.
@@ -184,7 +184,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn max_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_max, axes, T::min_value())
+        self.reduce_along(partial_max, axes, T::max_identity())
     }
 
     /// Computes the minimum absolute value of all elements in the array.
@@ -203,7 +203,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_magnitude_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min_magnitude, axes, T::max_value())
+        self.reduce_along(partial_min_magnitude, axes, T::min_magnitude_identity())
     }
 
     /// Computes the maximum absolute value of all elements in the array.
diff --git a/src/ops/reduce_max.rs b/src/ops/reduce_max.rs
index c4147b0..8d383c0 100644
--- a/src/ops/reduce_max.rs
+++ b/src/ops/reduce_max.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_max;
 
 pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
+    /// The value which leaves every other value unchanged in a max reduction.
+    fn max_identity() -> Self {
+        Self::min_value()
+    }
+
     /// Computes the max of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn max_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
 
         for _ in 0..count {
             output = partial_max(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_max(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMax for T {}
 
 impl ReduceMax for f32 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMax for f32 {
 }
 
 impl ReduceMax for f64 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min.rs b/src/ops/reduce_min.rs
index c30cdb4..d9515bd 100644
--- a/src/ops/reduce_min.rs
+++ b/src/ops/reduce_min.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_min;
 
 pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
+    /// The value which leaves every other value unchanged in a min reduction.
+    fn min_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
 
         for _ in 0..count {
             output = partial_min(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMin for T {}
 
 impl ReduceMin for f32 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMin for f32 {
 }
 
 impl ReduceMin for f64 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min_magnitude.rs b/src/ops/reduce_min_magnitude.rs
index 340069a..aa82397 100644
--- a/src/ops/reduce_min_magnitude.rs
+++ b/src/ops/reduce_min_magnitude.rs
@@ -6,6 +6,11 @@ use crate::iterator::collapse_contiguous::has_uniform_stride;
 use crate::util::partial_ord::{partial_min_magnitude};
 
 pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
+    /// The value which leaves every other value unchanged in a min magnitude reduction.
+    fn min_magnitude_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min magnitude of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -19,7 +24,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_magnitude_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
 
         for _ in 0..count {
             output = partial_min_magnitude(*ptr, output);
@@ -48,7 +53,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min_magnitude(*ptr.add(index), output);
         }
@@ -59,6 +64,10 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
 impl<T: IntegerDataType> ReduceMinMagnitude for T {}
 
 impl ReduceMinMagnitude for f32 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
@@ -71,6 +80,10 @@ impl ReduceMinMagnitude for f32 {
 }
 
 impl ReduceMinMagnitude for f64 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
-- 
2.43.0


From f200d771a8517e8dfc355247b42e809d81e5f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:00 +0000
Subject: [PATCH 16/22] fix: constructors reject ragged nested data at every
 depth

---
 src/util/flatten.rs    | 24 ++++--------------------
 src/util/homogenous.rs | 13 ++++++++++---
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..97ef5b5 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -4,10 +4,6 @@
 // [[[0]]] -> [0]
 
 use crate::recursive_trait_base_cases;
-use crate::util::shape::Shape;
-use std::fmt::Debug;
-
-use std::ptr::copy_nonoverlapping;
 
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
@@ -27,23 +23,11 @@ where
 impl<A, T, const N: usize> Flatten<A> for [T; N]
 where
     T: Flatten<A>,
-    [T; N]: Shape,
-    A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c60c7d0 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -12,13 +12,14 @@ pub(crate) trait Homogenous {
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
         let first_shape = self[0].shape();
-        self.iter().all(|v| v.shape() == first_shape)
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
@@ -29,6 +30,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From a63379a466aabec7b35c0aa48595d72fea665c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:01 +0000
Subject: [PATCH 17/22] fix: einsum requires subscripts for every operand

---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..a0b610c 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -313,6 +313,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum requires one subscripts string for each operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0


From 92bcacffac9a3c8716f4bd5a411316613523a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:41 +0000
Subject: [PATCH 18/22] fix: empty and unrepresentably large shapes are refused

---
 src/common/constructors.rs |  8 ++++++--
 src/common/random.rs       |  9 +++++----
 src/common/reshape.rs      |  3 ++-
 src/linalg/einsum.rs       |  4 ++--
 src/ndarray/binary_ops.rs  |  3 ++-
 src/ndarray/broadcast.rs   |  4 +++-
 src/util/functions.rs      | 13 +++++++++++++
 7 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index 2a3f306..b7ccf8e 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -1,4 +1,5 @@
 use crate::util::flatten::Flatten;
+use crate::util::functions::checked_size;
 use crate::util::nested::Nested;
 use crate::util::shape::Shape;
 use crate::util::to_vec::ToVec;
@@ -69,8 +70,7 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
     fn full(n: T, shape: impl ToVec<usize>) -> Self {
         let shape = shape.to_vec();
 
-        let data = vec![n; shape.iter().product()];
-        assert!(!data.is_empty(), "cannot create an empty ndarray!");
+        let data = vec![n; checked_size(&shape)];
 
         unsafe { Self::from_contiguous_owned_buffer(shape, data) }
     }
@@ -179,8 +179,12 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
     where
         T: NumericDataType
     {
+        let is_ascending = step > T::zero();
+        assert!(if is_ascending { start < stop } else { start > stop }, "cannot create an empty ndarray!");
+
         let n = ((stop - start).to_float() / step.to_float()).ceil();
         let n = NumCast::from(n).unwrap();
+        assert_ne!(n, 0, "cannot create an empty ndarray!");
 
         let mut data: Vec<T> = vec![T::default(); n];
         for (i, item) in data.iter_mut().enumerate() {
diff --git a/src/common/random.rs b/src/common/random.rs
index 47fbbd6..a61c951 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,3 +1,4 @@
+use crate::util::functions::checked_size;
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
 use num::{Float, NumCast};
@@ -22,7 +23,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
     {
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let normal = Normal::new(0.0, 1.0).unwrap();
 
@@ -49,7 +50,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
     {
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let uniform = Uniform::new(0.0, 1.0);
         let random_numbers = (0..n)
@@ -75,7 +76,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
     {
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let uniform = Uniform::new(low, high);
         let random_numbers = (0..n)
@@ -103,7 +104,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let uniform = Uniform::new(low.to_float(), high.to_float());
         let random_numbers = (0..n)
diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 0d59e52..627a645 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -1,4 +1,5 @@
 use crate::{AxisType, StridedMemory, RawDataType};
+use crate::util::functions::checked_size;
 use crate::util::to_vec::ToVec;
 
 
@@ -62,7 +63,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
                 "reshape requires uniformly strided array. This array has shape {:?} and stride {:?}.\
          Try `array.clone().reshape()` instead.", self.shape(), self.stride());
         
-        if self.size() != new_shape.iter().product() {
+        if self.size() != checked_size(&new_shape) {
             panic!("total number of elements must not change during reshape");
         }
 
diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index a0b610c..be04318 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -4,7 +4,7 @@ use crate::iterator::multi_flat_index_generator::MultiFlatIndexGenerator;
 use crate::linalg::specialized_einsum::*;
 use crate::linalg::sum_of_products::SumOfProductsType;
 use crate::ndarray::{MAX_ARGS, MAX_DIMS};
-use crate::util::functions::{permute_array, transpose_2d_array};
+use crate::util::functions::{checked_size, permute_array, transpose_2d_array};
 use crate::{Constructors, NdArray, StridedMemory};
 use crate::ndarray::constructors::stride_from_shape;
 use crate::common::Reshape;
@@ -422,7 +422,7 @@ where
     prepare_einsum(operands, subscripts,
                    &mut strides, &mut iter_ndims, &mut iter_shape, &mut output_shape);
 
-    let mut output = vec![T::zero(); output_shape.iter().product()];
+    let mut output = vec![T::zero(); checked_size(&output_shape)];
 
     unsafe {
         if !try_specialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, output.as_mut_ptr()) {
diff --git a/src/ndarray/binary_ops.rs b/src/ndarray/binary_ops.rs
index 4eac288..54484c8 100644
--- a/src/ndarray/binary_ops.rs
+++ b/src/ndarray/binary_ops.rs
@@ -1,6 +1,7 @@
 use crate::broadcast::broadcast_shapes;
 use crate::broadcast::broadcast_stride;
 use crate::common::constructors::Constructors;
+use crate::util::functions::checked_size;
 use crate::{NdArray, RawDataType, StridedMemory};
 use std::ops::{Add, BitAnd, BitOr, Div, Mul, Rem, Shl, Shr, Sub};
 
@@ -39,7 +40,7 @@ macro_rules! implement_binary_ops {
                 let lhs_stride = broadcast_stride(self.stride(), &shape, self.shape());
                 let rhs_stride = broadcast_stride(rhs.stride(), &shape, rhs.shape());
 
-                let mut data = vec![T::default(); shape.iter().product()];
+                let mut data = vec![T::default(); checked_size(&shape)];
 
                 unsafe {
                     <T as $binary_op_trait>::$method(self.ptr(), &lhs_stride,
diff --git a/src/ndarray/broadcast.rs b/src/ndarray/broadcast.rs
index a652300..71ca302 100644
--- a/src/ndarray/broadcast.rs
+++ b/src/ndarray/broadcast.rs
@@ -1,6 +1,6 @@
 use crate::dtype::RawDataType;
 use crate::ndarray::flags::NdArrayFlags;
-use crate::util::functions::pad;
+use crate::util::functions::{checked_size, pad};
 use crate::{NdArray, Reshape};
 
 
@@ -33,6 +33,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     /// ```
     pub fn broadcast_to(&'a self, shape: &[usize]) -> NdArray<'a, T> {
         let broadcast_shape = broadcast_shape(&self.shape, shape);
+        checked_size(&broadcast_shape);
+
         let broadcast_stride = broadcast_stride(&self.stride, &broadcast_shape, &self.shape);
 
         let mut result = unsafe { self.reshaped_view(broadcast_shape, broadcast_stride) };
diff --git a/src/util/functions.rs b/src/util/functions.rs
index 5bc24b6..1d52699 100644
--- a/src/util/functions.rs
+++ b/src/util/functions.rs
@@ -1,3 +1,16 @@
+/// Returns the number of elements in an ndarray with the given shape.
+///
+/// # Panics
+/// - If any dimension is 0 (ndarrays cannot be empty).
+/// - If the number of elements cannot be represented.
+pub(crate) fn checked_size(shape: &[usize]) -> usize {
+    let size = shape.iter().try_fold(1usize, |size, &dim| size.checked_mul(dim));
+    let size = size.unwrap_or_else(|| panic!("shape {shape:?} has too many elements"));
+
+    assert_ne!(size, 0, "cannot create an empty ndarray!");
+    size
+}
+
 pub(crate) fn transpose_2d_array<T: Default + Copy, const N: usize, const M: usize>(array: [[T; N]; M]) -> [[T; M]; N] {
     let mut result = [[T::default(); M]; N];
 
-- 
2.43.0


From 30d7af4fb0fb0dc301fe477e5bdc0f9f778777b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:12 +0000
Subject: [PATCH 19/22] fix: rand never returns 1 for single precision arrays

---
 src/common/random.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index a61c951..6b62101 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,7 +1,7 @@
 use crate::util::functions::checked_size;
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
-use num::{Float, NumCast};
+use num::NumCast;
 use rand::distributions::{Distribution, Uniform};
 use rand::thread_rng;
 use rand_distr::Normal;
@@ -52,9 +52,10 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = checked_size(&shape);
 
-        let uniform = Uniform::new(0.0, 1.0);
+        // sampled in T: a double just below 1 would be rounded up to 1 when converted to f32
+        let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
+            .map(|_| uniform.sample(&mut rng))
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From f584520c70427c8c377eeeaa4eb0dc5c89a6a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:46 +0000
Subject: [PATCH 20/22] fix: strided loops do not form out-of-bounds pointers

---
 src/linalg/matrix_ops.rs        | 14 ++++++++------
 src/ndarray/reduce.rs           |  2 +-
 src/ops/binary_ops.rs           |  8 ++++----
 src/ops/dot_product.rs          |  4 ++--
 src/ops/fill.rs                 |  4 ++--
 src/ops/reduce_max.rs           |  2 +-
 src/ops/reduce_max_magnitude.rs |  2 +-
 src/ops/reduce_min.rs           |  2 +-
 src/ops/reduce_min_magnitude.rs |  2 +-
 src/ops/reduce_product.rs       |  2 +-
 src/ops/reduce_sum.rs           |  2 +-
 src/ops/simd_binary_ops.rs      | 24 ++++++++++++------------
 src/ops/simd_neg.rs             |  4 ++--
 src/ops/simd_reduce_ops.rs      | 16 ++++++++--------
 src/ops/unary_ops.rs            |  2 +-
 15 files changed, 46 insertions(+), 44 deletions(-)

diff --git a/src/linalg/matrix_ops.rs b/src/linalg/matrix_ops.rs
index 3f812c6..1a4b4f8 100644
--- a/src/linalg/matrix_ops.rs
+++ b/src/linalg/matrix_ops.rs
@@ -366,12 +366,14 @@ pub(crate) trait MatrixOps: SumOfProductsType {
         let mut lhs_slice = lhs.slice_along(Axis(0), 0);
         let mut rhs_slice = rhs.slice_along(Axis(0), 0);
 
-        for _ in 0..lhs.len() {
-            Self::matrix_matrix_product(&lhs_slice, &rhs_slice, &result_stride[1..], result);
+        for batch in 0..lhs.len() {
+            if batch > 0 {
+                result = result.add(result_stride[0]);
+                lhs_slice.offset_ptr(lhs.stride()[0] as isize);
+                rhs_slice.offset_ptr(rhs.stride()[0] as isize);
+            }
 
-            result = result.add(result_stride[0]);
-            lhs_slice.offset_ptr(lhs.stride()[0] as isize);
-            rhs_slice.offset_ptr(rhs.stride()[0] as isize);
+            Self::matrix_matrix_product(&lhs_slice, &rhs_slice, &result_stride[1..], result);
         }
     }
 
@@ -409,7 +411,7 @@ pub(crate) trait MatrixOps: SumOfProductsType {
 
         for _ in 0..rows {
             Self::sum_of_products_in_strides_n_n_out_stride_0(&[matrix_row, vector.mut_ptr(), dst], strides, cols);
-            matrix_row = matrix_row.add(matrix.stride()[0]);
+            matrix_row = matrix_row.wrapping_add(matrix.stride()[0]);
             dst = dst.add(1);
         }
 
diff --git a/src/ndarray/reduce.rs b/src/ndarray/reduce.rs
index ed2c512..bd2be41 100644
--- a/src/ndarray/reduce.rs
+++ b/src/ndarray/reduce.rs
@@ -69,7 +69,7 @@ impl<T: RawDataType> NdArray<'_, T> {
         let mut src = self.ptr();
         for _ in 0..self.size() {
             output = func(*src, output);
-            src = src.add(stride);
+            src = src.wrapping_add(stride);
         }
 
         NdArray::scalar(output)
diff --git a/src/ops/binary_ops.rs b/src/ops/binary_ops.rs
index c50582f..ae0dfad 100644
--- a/src/ops/binary_ops.rs
+++ b/src/ops/binary_ops.rs
@@ -60,8 +60,8 @@ macro_rules! define_binary_op_trait {
                         *dst = *lhs $operator *rhs;
 
                         count -= 1;
-                        lhs = lhs.add(lhs_stride);
-                        rhs = rhs.add(rhs_stride);
+                        lhs = lhs.wrapping_add(lhs_stride);
+                        rhs = rhs.wrapping_add(rhs_stride);
                         dst = dst.add(1);
                     }
                 }
@@ -101,7 +101,7 @@ macro_rules! define_binary_op_trait {
 
                         count -= 1;
                         dst = dst.add(1);
-                        rhs = rhs.add(rhs_stride);
+                        rhs = rhs.wrapping_add(rhs_stride);
                     }
                 }
 
@@ -116,7 +116,7 @@ macro_rules! define_binary_op_trait {
 
                         count -= 1;
                         dst = dst.add(1);
-                        lhs = lhs.add(lhs_stride);
+                        lhs = lhs.wrapping_add(lhs_stride);
                     }
                 }
 
diff --git a/src/ops/dot_product.rs b/src/ops/dot_product.rs
index 7ced296..c4133a0 100644
--- a/src/ops/dot_product.rs
+++ b/src/ops/dot_product.rs
@@ -36,8 +36,8 @@ pub(crate) trait DotProduct: AddAssign + Mul<Output=Self> + Zero + Copy {
 
         for _ in 0..count {
             sum += (*src0) * (*src1);
-            src0 = src0.add(stride0);
-            src1 = src1.add(stride1);
+            src0 = src0.wrapping_add(stride0);
+            src1 = src1.wrapping_add(stride1);
         }
 
         *dst += sum;
diff --git a/src/ops/fill.rs b/src/ops/fill.rs
index f86a215..c352bec 100644
--- a/src/ops/fill.rs
+++ b/src/ops/fill.rs
@@ -27,7 +27,7 @@ pub(crate) trait Fill: Copy {
     unsafe fn fill_uniform_stride(mut ptr: *mut Self, count: usize, stride: usize, value: Self) {
         for _ in 0..count {
             *ptr = value;
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
     }
 
@@ -55,7 +55,7 @@ pub(crate) trait Fill: Copy {
             let len = shape[1..].iter().product();
 
             Self::fill(ptr, &shape[1..], &stride[1..], len, value);
-            ptr = ptr.add(stride[0]);
+            ptr = ptr.wrapping_add(stride[0]);
         }
     }
 }
diff --git a/src/ops/reduce_max.rs b/src/ops/reduce_max.rs
index 8d383c0..ab6cc81 100644
--- a/src/ops/reduce_max.rs
+++ b/src/ops/reduce_max.rs
@@ -27,7 +27,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
 
         for _ in 0..count {
             output = partial_max(*ptr, output);
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
diff --git a/src/ops/reduce_max_magnitude.rs b/src/ops/reduce_max_magnitude.rs
index 428e395..71bd72e 100644
--- a/src/ops/reduce_max_magnitude.rs
+++ b/src/ops/reduce_max_magnitude.rs
@@ -23,7 +23,7 @@ pub(crate) trait ReduceMaxMagnitude: Copy + Absolute + Bounded + PartialOrd {
 
         for _ in 0..count {
             output = partial_max_magnitude(*ptr, output);
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
diff --git a/src/ops/reduce_min.rs b/src/ops/reduce_min.rs
index d9515bd..6d7b2f4 100644
--- a/src/ops/reduce_min.rs
+++ b/src/ops/reduce_min.rs
@@ -27,7 +27,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
 
         for _ in 0..count {
             output = partial_min(*ptr, output);
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
diff --git a/src/ops/reduce_min_magnitude.rs b/src/ops/reduce_min_magnitude.rs
index aa82397..1953bf3 100644
--- a/src/ops/reduce_min_magnitude.rs
+++ b/src/ops/reduce_min_magnitude.rs
@@ -28,7 +28,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
 
         for _ in 0..count {
             output = partial_min_magnitude(*ptr, output);
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
diff --git a/src/ops/reduce_product.rs b/src/ops/reduce_product.rs
index 8e3de29..f99c46e 100644
--- a/src/ops/reduce_product.rs
+++ b/src/ops/reduce_product.rs
@@ -23,7 +23,7 @@ pub(crate) trait ReduceProduct: Zero + One + Copy + MulAssign + AddAssign {
 
         for _ in 0..count {
             output *= *ptr;
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
diff --git a/src/ops/reduce_sum.rs b/src/ops/reduce_sum.rs
index 0934d97..77d3ee4 100644
--- a/src/ops/reduce_sum.rs
+++ b/src/ops/reduce_sum.rs
@@ -23,7 +23,7 @@ pub(crate) trait ReduceSum: Zero + Copy + AddAssign {
 
         for _ in 0..count {
             output += *ptr;
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
diff --git a/src/ops/simd_binary_ops.rs b/src/ops/simd_binary_ops.rs
index 6875146..1937e64 100644
--- a/src/ops/simd_binary_ops.rs
+++ b/src/ops/simd_binary_ops.rs
@@ -135,7 +135,7 @@ macro_rules! simd_elementwise_operations {
                     Self::simd_store(dst.add(3 * Self::LANES), ab3);
 
                     count -= 4 * Self::LANES;
-                    lhs = lhs.add(4 * lhs_stride * Self::LANES);
+                    lhs = lhs.wrapping_add(4 * lhs_stride * Self::LANES);
                     dst = dst.add(4 * Self::LANES);
                 }
 
@@ -143,7 +143,7 @@ macro_rules! simd_elementwise_operations {
                     *dst = *lhs $operator *rhs;
 
                     count -= 1;
-                    lhs = lhs.add(lhs_stride);
+                    lhs = lhs.wrapping_add(lhs_stride);
                     dst = dst.add(1);
                 }
             }
@@ -169,7 +169,7 @@ macro_rules! simd_elementwise_operations {
                     Self::simd_store(dst.add(3 * Self::LANES), ab3);
 
                     count -= 4 * Self::LANES;
-                    rhs = rhs.add(4 * rhs_stride * Self::LANES);
+                    rhs = rhs.wrapping_add(4 * rhs_stride * Self::LANES);
                     dst = dst.add(4 * Self::LANES);
                 }
 
@@ -177,7 +177,7 @@ macro_rules! simd_elementwise_operations {
                     *dst = *lhs $operator *rhs;
 
                     count -= 1;
-                    rhs = rhs.add(rhs_stride);
+                    rhs = rhs.wrapping_add(rhs_stride);
                     dst = dst.add(1);
                 }
             }
@@ -208,7 +208,7 @@ macro_rules! simd_elementwise_operations {
                     Self::simd_store(dst.add(3 * Self::LANES), ab3);
 
                     count -= 4 * Self::LANES;
-                    lhs = lhs.add(4 * lhs_stride * Self::LANES);
+                    lhs = lhs.wrapping_add(4 * lhs_stride * Self::LANES);
                     rhs = rhs.add(4 * Self::LANES);
                     dst = dst.add(4 * Self::LANES);
                 }
@@ -217,7 +217,7 @@ macro_rules! simd_elementwise_operations {
                     *dst = *lhs $operator *rhs;
 
                     count -= 1;
-                    lhs = lhs.add(lhs_stride);
+                    lhs = lhs.wrapping_add(lhs_stride);
                     rhs = rhs.add(1);
                     dst = dst.add(1);
                 }
@@ -250,7 +250,7 @@ macro_rules! simd_elementwise_operations {
 
                     count -= 4 * Self::LANES;
                     lhs = lhs.add(4 * Self::LANES);
-                    rhs = rhs.add(4 * rhs_stride * Self::LANES);
+                    rhs = rhs.wrapping_add(4 * rhs_stride * Self::LANES);
                     dst = dst.add(4 * Self::LANES);
                 }
 
@@ -259,7 +259,7 @@ macro_rules! simd_elementwise_operations {
 
                     count -= 1;
                     lhs = lhs.add(1);
-                    rhs = rhs.add(rhs_stride);
+                    rhs = rhs.wrapping_add(rhs_stride);
                     dst = dst.add(1);
                 }
             }
@@ -292,8 +292,8 @@ macro_rules! simd_elementwise_operations {
                     Self::simd_store(dst.add(3 * Self::LANES), ab3);
 
                     count -= 4 * Self::LANES;
-                    lhs = lhs.add(4 * lhs_stride * Self::LANES);
-                    rhs = rhs.add(4 * rhs_stride * Self::LANES);
+                    lhs = lhs.wrapping_add(4 * lhs_stride * Self::LANES);
+                    rhs = rhs.wrapping_add(4 * rhs_stride * Self::LANES);
                     dst = dst.add(4 * Self::LANES);
                 }
 
@@ -301,8 +301,8 @@ macro_rules! simd_elementwise_operations {
                     *dst = *lhs $operator *rhs;
 
                     count -= 1;
-                    lhs = lhs.add(lhs_stride);
-                    rhs = rhs.add(rhs_stride);
+                    lhs = lhs.wrapping_add(lhs_stride);
+                    rhs = rhs.wrapping_add(rhs_stride);
                     dst = dst.add(1);
                 }
             }
diff --git a/src/ops/simd_neg.rs b/src/ops/simd_neg.rs
index bfd144a..ae4e62f 100644
--- a/src/ops/simd_neg.rs
+++ b/src/ops/simd_neg.rs
@@ -53,7 +53,7 @@ pub(crate) trait SimdNeg: Simd + Neg<Output=Self> {
             Self::simd_store(dst.add(3 * Self::LANES), b3);
 
             count -= 4 * Self::LANES;
-            src = src.add(4 * stride * Self::LANES);
+            src = src.wrapping_add(4 * stride * Self::LANES);
             dst = dst.add(4 * Self::LANES);
         }
 
@@ -61,7 +61,7 @@ pub(crate) trait SimdNeg: Simd + Neg<Output=Self> {
             *dst = -*src;
 
             count -= 1;
-            src = src.add(stride);
+            src = src.wrapping_add(stride);
             dst = dst.add(1);
         }
     }
diff --git a/src/ops/simd_reduce_ops.rs b/src/ops/simd_reduce_ops.rs
index d8bc8ac..d80a41a 100644
--- a/src/ops/simd_reduce_ops.rs
+++ b/src/ops/simd_reduce_ops.rs
@@ -12,14 +12,14 @@ pub(crate) trait SimdReduceOps: Simd {
             acc = Self::simd_add(acc, vec);
 
             count -= Self::LANES;
-            ptr = ptr.add(stride * Self::LANES);
+            ptr = ptr.wrapping_add(stride * Self::LANES);
         }
 
         let mut output = Self::simd_horizontal_sum(acc);
 
         for _ in 0..count {
             output += *ptr;
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
@@ -63,14 +63,14 @@ pub(crate) trait SimdReduceOps: Simd {
             acc = Self::simd_mul(acc, vec);
 
             count -= Self::LANES;
-            ptr = ptr.add(stride * Self::LANES);
+            ptr = ptr.wrapping_add(stride * Self::LANES);
         }
 
         let mut output = Self::simd_horizontal_mul(acc);
 
         for _ in 0..count {
             output *= *ptr;
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
@@ -113,13 +113,13 @@ pub(crate) trait SimdReduceOps: Simd {
             acc = Self::simd_min(acc, vec);
 
             count -= Self::LANES;
-            ptr = ptr.add(stride * Self::LANES);
+            ptr = ptr.wrapping_add(stride * Self::LANES);
         }
 
         let mut output = Self::simd_horizontal_min(acc);
         for _ in 0..count {
             output = partial_min(*ptr, output);
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
@@ -163,13 +163,13 @@ pub(crate) trait SimdReduceOps: Simd {
             acc = Self::simd_max(acc, vec);
 
             count -= Self::LANES;
-            ptr = ptr.add(stride * Self::LANES);
+            ptr = ptr.wrapping_add(stride * Self::LANES);
         }
 
         let mut output = Self::simd_horizontal_max(acc);
         for _ in 0..count {
             output = partial_max(*ptr, output);
-            ptr = ptr.add(stride);
+            ptr = ptr.wrapping_add(stride);
         }
 
         output
diff --git a/src/ops/unary_ops.rs b/src/ops/unary_ops.rs
index 1f1b7a9..40f3634 100644
--- a/src/ops/unary_ops.rs
+++ b/src/ops/unary_ops.rs
@@ -19,7 +19,7 @@ pub(crate) trait UnaryOps: Neg<Output=Self> + Sized + Copy {
             *dst = -*operand;
 
             count -= 1;
-            operand = operand.add(stride);
+            operand = operand.wrapping_add(stride);
             dst = dst.add(1);
         }
     }
-- 
2.43.0


From 0c53aa990a867d6aa83595b59499bbf2ae562902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 21/22] fix: BLAS products fall back for layouts BLAS cannot
 address

---
 src/linalg/matrix_ops.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/linalg/matrix_ops.rs b/src/linalg/matrix_ops.rs
index 1a4b4f8..8b146bb 100644
--- a/src/linalg/matrix_ops.rs
+++ b/src/linalg/matrix_ops.rs
@@ -419,6 +419,13 @@ pub(crate) trait MatrixOps: SumOfProductsType {
     }
 }
 
+/// Whether BLAS can address the matrix: contiguous rows whose distance (the leading dimension)
+/// is at least a row's length.
+#[cfg(blas)]
+fn has_blas_layout<T: NumericDataType>(matrix: &NdArray<T>) -> bool {
+    matrix.stride()[1] == 1 && matrix.stride()[0] >= matrix.shape()[1]
+}
+
 impl<T: IntegerDataType> MatrixOps for T {}
 
 impl MatrixOps for f32 {
@@ -429,8 +436,8 @@ impl MatrixOps for f32 {
                                         result: *mut Self) {
         use crate::acceleration::cblas::{cblas_sgemm, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if lhs.stride()[1] != 1 || rhs.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, distinct rows
+        if !has_blas_layout(lhs) || !has_blas_layout(rhs) {
             return einsum_into_ptr([lhs, rhs], (["ij", "jk"], "ik"), result_stride, result);
         }
 
@@ -453,8 +460,8 @@ impl MatrixOps for f32 {
         use crate::acceleration::cblas::{cblas_sgemv, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
         use crate::einsum;
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if matrix.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, distinct rows or vectors with a zero stride
+        if !has_blas_layout(matrix) || vector.stride()[0] == 0 {
             return einsum([matrix, vector], (["ij", "j"], "i"));
         }
 
@@ -482,8 +489,8 @@ impl MatrixOps for f64 {
                                         result: *mut Self) {
         use crate::acceleration::cblas::{cblas_dgemm, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if lhs.stride()[1] != 1 || rhs.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, distinct rows
+        if !has_blas_layout(lhs) || !has_blas_layout(rhs) {
             return einsum_into_ptr([lhs, rhs], (["ij", "jk"], "ik"), result_stride, result);
         }
 
@@ -506,8 +513,8 @@ impl MatrixOps for f64 {
         use crate::acceleration::cblas::{cblas_dgemv, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
         use crate::einsum;
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if matrix.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, distinct rows or vectors with a zero stride
+        if !has_blas_layout(matrix) || vector.stride()[0] == 0 {
             return einsum([matrix, vector], (["ij", "j"], "i"));
         }
 
-- 
2.43.0


From 4ff2d4473e24bb4c010368efb3740cff647a9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 22/22] fix: NEON min and max of infinite values

---
 src/ops/simd_reduce_ops.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/simd_reduce_ops.rs b/src/ops/simd_reduce_ops.rs
index d80a41a..dfd9c16 100644
--- a/src/ops/simd_reduce_ops.rs
+++ b/src/ops/simd_reduce_ops.rs
@@ -106,7 +106,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_min_uniform(mut ptr: *const Self, mut count: usize, stride: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::max_value());
+        let mut acc = Self::simd_from_constant(*ptr);
 
         while count >= Self::LANES {
             let vec = Self::simd_vec_from_stride(ptr, stride);
@@ -127,7 +127,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_min_contiguous(mut ptr: *const Self, mut count: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::max_value());
+        let mut acc = Self::simd_from_constant(*ptr);
 
         while count >= 4 * Self::LANES {
             let a = Self::simd_load(ptr.add(0 * Self::LANES));
@@ -156,7 +156,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_max_uniform(mut ptr: *const Self, mut count: usize, stride: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::min_value());
+        let mut acc = Self::simd_from_constant(*ptr);
 
         while count >= Self::LANES {
             let vec = Self::simd_vec_from_stride(ptr, stride);
@@ -177,7 +177,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_max_contiguous(mut ptr: *const Self, mut count: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::min_value());
+        let mut acc = Self::simd_from_constant(*ptr);
 
         while count >= 4 * Self::LANES {
             let a = Self::simd_load(ptr.add(0 * Self::LANES));
-- 
2.43.0

