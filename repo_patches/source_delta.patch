From d6cd08aa1c3ac98c019230195841695f577e30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 1/8] fix: strided layouts report their own stride

stride() of ArbitraryStrideRowMajor and ArbitraryStrideColumnMajor returned
the stride of a dense matrix, so blocks of blocks and products with block
views used the wrong elements.
---
 src/layouts/arbitrary_stride_column_major.rs | 2 +-
 src/layouts/arbitrary_stride_row_major.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index 3f062a4..ac21da6 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -52,7 +52,7 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (1, self.dim.0)
+        self.stride
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e611a2d..e02b6fb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -51,7 +51,7 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (self.dim.1, 1)
+        self.stride
     }
 
     #[inline]
-- 
2.43.0


From 8fb3e784d834b29cd72cc047576c8097330e787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 2/8] fix: allow empty block views

A block without rows or columns, such as a quarter of a matrix split at its
edge, underflowed the extent of the view: a panic with overflow checks, a
view over arbitrary memory without.
---
 src/matrix/constructors.rs  | 10 ++++++++--
 src/matrix/matrix_slices.rs | 12 ++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index f99eb46..bc79a6d 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -138,7 +138,10 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = match new_layout.number_of_elements() {
+                    0 => 0,
+                    _ => new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1,
+                };
                 let slice = std::slice::from_raw_parts_mut(ptr, nindices);
                 let data = SliceContainerMut::<'a, Item>::new(slice);
 
@@ -154,7 +157,10 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = match new_layout.number_of_elements() {
+                    0 => 0,
+                    _ => new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1,
+                };
                 let slice = std::slice::from_raw_parts(ptr, nindices);
                 let data = SliceContainer::<'a, Item>::new(slice);
 
diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 2405171..cc377c1 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -31,7 +31,7 @@ macro_rules! block_matrix {
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
-                        self.get_pointer().add(start_index),
+                        self.get_pointer().wrapping_add(start_index),
                         dim,
                         self.layout().stride(),
                     )
@@ -61,7 +61,7 @@ macro_rules! block_matrix {
 
                 unsafe {
                     SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
-                        self.get_pointer_mut().add(start_index),
+                        self.get_pointer_mut().wrapping_add(start_index),
                         dim,
                         self.layout().stride(),
                     )
@@ -116,22 +116,22 @@ macro_rules! subdivide_matrix {
                 let blocks = unsafe {
                     (
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start0),
+                            ptr.wrapping_offset(start0),
                             dim0,
                             stride,
                         ),
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start1),
+                            ptr.wrapping_offset(start1),
                             dim1,
                             stride,
                         ),
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start2),
+                            ptr.wrapping_offset(start2),
                             dim2,
                             stride,
                         ),
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start3),
+                            ptr.wrapping_offset(start3),
                             dim3,
                             stride,
                         ),
-- 
2.43.0


From 1da5b8cf6ef5b0db726751e819b22bedeb2751e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 3/8] fix: check the split point of split_in_four_mut

A split point outside the matrix was only noticed by overflow checks; without
them the quarters reached outside the matrix.
---
 src/matrix/matrix_slices.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index cc377c1..3218616 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -96,6 +96,12 @@ macro_rules! subdivide_matrix {
                 SliceMatrixMut<'a, Item, $StrideLayout, Dynamic, Dynamic>,
             ) {
                 let dim = self.layout().dim();
+                assert!(
+                    (split_at.0 <= dim.0) & (split_at.1 <= dim.1),
+                    "Split point {:?} out of bounds for matrix with dim {:?}",
+                    split_at,
+                    dim
+                );
                 let stride = self.layout().stride();
                 let ptr = self.get_pointer_mut();
                 let dim0 = split_at;
-- 
2.43.0


From 726bafa9139d01f24fddd5385e407c2615bd6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 4/8] fix: bounds check of block views must not overflow

Without overflow checks a large top left corner or block dimension wrapped
around and passed the bounds check.
---
 src/matrix/matrix_slices.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 3218616..71a205b 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -7,6 +7,26 @@ use crate::layouts::*;
 use crate::traits::*;
 use crate::types::{HScalar, IndexType};
 
+/// Assert that a block is inside a matrix with dimension `mat_dim`.
+#[inline]
+fn assert_block(
+    top_left: (IndexType, IndexType),
+    dim: (IndexType, IndexType),
+    mat_dim: (IndexType, IndexType),
+) {
+    // No sum of `top_left` and `dim` is formed as it may overflow.
+    assert!(
+        (top_left.0 <= mat_dim.0)
+            && (dim.0 <= mat_dim.0 - top_left.0)
+            && (top_left.1 <= mat_dim.1)
+            && (dim.1 <= mat_dim.1 - top_left.1),
+        "Block with top left corner {:?} and dim {:?} out of bounds for matrix with dim {:?}",
+        top_left,
+        dim,
+        mat_dim
+    );
+}
+
 macro_rules! block_matrix {
     ($Layout:ident, $StrideLayout:ident, $RS:ident, $CS:ident) => {
         impl<Item: HScalar, Data: DataContainer<Item = Item>>
@@ -21,13 +41,7 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrix<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
+                assert_block(top_left, dim, self.layout().dim());
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
@@ -50,13 +64,7 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrixMut<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
+                assert_block(top_left, dim, self.layout().dim());
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
 
                 unsafe {
-- 
2.43.0


From 2d83e439bdb2d3158b87950d8d4e618c59b3efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 5/8] fix: require storage for the whole extent of a layout

Only the number of matrix elements was compared with the size of the data
container. With strides the elements reach further, so safe element access
could leave the container. A number of elements that overflows is refused
too; without overflow checks it gave a matrix without storage.
---
 src/base_matrix.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b993e47..6269ff5 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -36,11 +36,22 @@ impl<
     > BaseMatrix<Item, Data, L, RS, CS>
 {
     pub fn new(data: Data, layout: L) -> Self {
+        let dim = layout.dim();
         assert!(
-            layout.number_of_elements() <= data.number_of_elements(),
-            "Number of elements in data: {}. But layout number of elements is {})",
+            dim.0.checked_mul(dim.1).is_some(),
+            "Number of elements overflows for dim {:?}.",
+            dim
+        );
+        // The last element has the largest raw index.
+        let required = match layout.number_of_elements() {
+            0 => 0,
+            nelems => layout.convert_1d_raw(nelems - 1) + 1,
+        };
+        assert!(
+            required <= data.number_of_elements(),
+            "Number of elements in data: {}. But layout requires {}.",
             data.number_of_elements(),
-            layout.number_of_elements(),
+            required,
         );
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
-- 
2.43.0


From 27f5b583d7b014eb114a50da78e982664589eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 6/8] fix: ColumnVector::from_dimension checks the number of
 columns

It compared the number of rows with one, refused (n, 1) and took (1, n) for
a vector of length one.
---
 src/layouts/column_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6b18f6d..6368b65 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -64,7 +64,7 @@ impl LayoutType for ColumnVector {
 impl BaseLayoutType for ColumnVector {
     fn from_dimension(dim: (IndexType, IndexType)) -> Self {
         assert_eq!(
-            dim.0, 1,
+            dim.1, 1,
             "Number of columns is {} but must be one for ColumnVector.",
             dim.1
         );
-- 
2.43.0


From 0a180ead49a2abcc6decd43590af3723cf259b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 7/8] fix: 1-D to 2-D index conversion of vectors

The column of a column vector and the row of a row vector have index 0, not
1, which is out of bounds.
---
 src/layouts/arbitrary_stride_column_vector.rs | 2 +-
 src/layouts/arbitrary_stride_row_vector.rs    | 2 +-
 src/layouts/column_vector.rs                  | 2 +-
 src/layouts/row_vector.rs                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index ab1251f..bd01119 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 86ccf21..70bab47 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideRowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6368b65..3254bde 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for ColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index cc4cfc3..f0f5241 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for RowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
-- 
2.43.0


From 1f1d5c650c8c8fdf47fccf53bdba7991024fa5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 8/8] fix: refuse strided layouts whose memory extent overflows

---
 src/layouts.rs                                | 21 +++++++++++++++++++
 src/layouts/arbitrary_stride_column_major.rs  |  1 +
 src/layouts/arbitrary_stride_column_vector.rs |  1 +
 src/layouts/arbitrary_stride_row_major.rs     |  1 +
 src/layouts/arbitrary_stride_row_vector.rs    |  1 +
 5 files changed, 25 insertions(+)

diff --git a/src/layouts.rs b/src/layouts.rs
index 754dc47..65fcb84 100644
--- a/src/layouts.rs
+++ b/src/layouts.rs
@@ -23,3 +23,24 @@ pub use column_vector::*;
 pub use row_major::*;
 pub use row_vector::*;
 pub use upper_triangular::*;
+
+use crate::types::IndexType;
+
+/// Assert that the raw index of the last element of a strided layout can be represented.
+#[inline]
+fn assert_extent(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) {
+    if dim.0 == 0 || dim.1 == 0 {
+        return;
+    }
+    let rows = (dim.0 - 1).checked_mul(stride.0);
+    let cols = (dim.1 - 1).checked_mul(stride.1);
+    let extent = rows
+        .zip(cols)
+        .and_then(|(r, c)| r.checked_add(c)?.checked_add(1));
+    assert!(
+        extent.is_some(),
+        "Memory extent overflows for dim {:?} and stride {:?}.",
+        dim,
+        stride
+    );
+}
diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index ac21da6..795ebca 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -17,6 +17,7 @@ pub struct ArbitraryStrideColumnMajor {
 
 impl ArbitraryStrideColumnMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        assert_extent(dim, stride);
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index bd01119..998f9cd 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -18,6 +18,7 @@ pub struct ArbitraryStrideColumnVector {
 
 impl ArbitraryStrideColumnVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert_extent((dim, 1), (stride, 1));
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e02b6fb..c6f9c42 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -16,6 +16,7 @@ pub struct ArbitraryStrideRowMajor {
 
 impl ArbitraryStrideRowMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        assert_extent(dim, stride);
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 70bab47..a29ea25 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -18,6 +18,7 @@ pub struct ArbitraryStrideRowVector {
 
 impl ArbitraryStrideRowVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert_extent((1, dim), (1, stride));
         Self { dim, stride }
     }
 }
-- 
2.43.0

