From b5fbf5623d37d2c020ce6d26925b32720d3faab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 01/44] fix: canonical_basis_in_kernel for block storage,
 multi-dimensional or strided outputs

---
 src/pysimulators/operators.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..392a20f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1031,12 +1031,7 @@ class ProjectionOperator(SparseOperator):
             np.float32,
             np.float64,
         ):
-            if operation in (operation_assignment, operator.iand, operator.imul):
-                if operation is operation_assignment:
-                    out[...] = True
-                kernel = out
-            else:
-                kernel = np.ones_like(out)
+            kernel = np.ones(shape, bool)
 
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
@@ -1047,17 +1042,18 @@ class ProjectionOperator(SparseOperator):
                 product(data.shape[:-1]),
                 data.strides[-1],
             )
-            if operation in (operation_assignment, operator.iand, operator.imul):
-                return out
         else:
             if isinstance(self.matrix, FSRMatrix):
-                indices = data.index[data.value != 0]
+                nonzero = data.value != 0
+            elif isinstance(self.matrix, FSRBlockMatrix):
+                nonzero = np.any(data.value != 0, axis=(-2, -1))
             elif isinstance(self.matrix, FSRRotation2dMatrix):
-                indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
+                nonzero = (data.r11 != 0) | (data.r21 != 0)
             else:
-                indices = data.index[data.r11 != 0]
+                nonzero = (data.r11 != 0) | (data.r22 != 0) | (data.r32 != 0)
             n = product(shape)
-            kernel = np.histogram(indices, n, range=(0, n))[0] == 0
+            kernel = np.histogram(data.index[nonzero], n, range=(0, n))[0] == 0
+            kernel = kernel.reshape(shape)
         operation(out, kernel)
         return out
 
-- 
2.43.0


From 1d7227d701f744a8a94844ec5ac39cd2ea60418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 02/44] fix: pT1 with an output of higher precision or more
 than one dimension

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 392a20f..4448ef7 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1100,7 +1100,7 @@ class ProjectionOperator(SparseOperator):
             else:
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
-                x = ones(shapein, self.dtype)
+                x = ones(shapein, out.dtype)
                 self.T(x, out=out, operation=operation)
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
@@ -1111,7 +1111,7 @@ class ProjectionOperator(SparseOperator):
                 ).ravel()
                 for i, d in zip(index, data):
                     if i >= 0:
-                        out[i] += d
+                        out.flat[i] += d
             else:
                 x = ones(shapein, self.dtype)
                 operation(out, self.T(x)[..., 0])
-- 
2.43.0


From 2cbfd09b1d59c7c0f86b73de52a927e875347c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 03/44] fix: corestrict of 2d and 3d rotation matrices

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..fcbc2f0 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -903,7 +903,7 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
+        mask_ = np.ravel(mask)
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-- 
2.43.0


From 0e0405b2bf99bd4806dc065cff80a4b14488cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 04/44] fix: data race on the value pointer in fsr_kernel

---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From 6daf82bf8248e11ce690af4c943ee455f9476c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 05/44] fix: extent of the matrix pointer in the fsc_block
 kernels

---
 src/flib/module_operators.f90.j2 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..521e6df 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -19,7 +19,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -43,7 +43,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -68,7 +68,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -91,7 +91,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -117,7 +117,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -145,7 +145,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -169,7 +169,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -197,7 +197,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
-- 
2.43.0


From 2ebc43867d3de2d36f62a5031d48a036caa5c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 06/44] fix: transpose of the truncated exponential
 convolution, in place and for a zero time constant

---
 src/flib/module_operators.f90.j2 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 521e6df..ad19ca6 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
@@ -517,6 +518,7 @@ contains
         n = size(input)
         if (tau == 0) then
             output = input
+            return
         else if (tau < 0) then
             output = 0
             return
-- 
2.43.0


From 732ad49c0600eb6bb3e9f8cdab75e8e51d635691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 07/44] fix: FSRRotation3dMatrix product returns a vector for
 all data types

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index fcbc2f0..ecca84e 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -765,7 +765,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 9df087db62536e945f0b1c84362731dca5edb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 08/44] fix: coverage and back-projection for blocks of one
 column

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 4448ef7..f09ba6e 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1113,8 +1113,8 @@ class ProjectionOperator(SparseOperator):
                     if i >= 0:
                         out.flat[i] += d
             else:
-                x = ones(shapein, self.dtype)
-                operation(out, self.T(x)[..., 0])
+                x = self.T(ones(shapein, self.dtype))
+                operation(out, x[..., 0] if self.matrix.block_shape[1] > 1 else x)
         return out
 
     def pTx_pT1(self, x, out=None, operation=operation_assignment):
@@ -1188,7 +1188,8 @@ class ProjectionOperator(SparseOperator):
             if isinstance(self.matrix, FSRMatrix):
                 self.T(x, out=pTx, operation=operation)
             else:
-                operation(pTx, self.T(x)[..., 0])
+                x = self.T(x)
+                operation(pTx, x[..., 0] if self.matrix.block_shape[1] > 1 else x)
         return pTx, pT1
 
 
-- 
2.43.0


From 0ec4d02a3ffaa663b028b69b0a4c4bf78cac575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 09/44] fix: restriction of block matrices whose blocks have
 one column

---
 src/pysimulators/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index ecca84e..cc04469 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -940,6 +940,8 @@ class SparseOperator(SparseBase):
             raise TypeError('The mask is not boolean.')
         if isinstance(self.matrix, FSRMatrix):
             block_shapein = self.broadcastable_shapein
+        elif self.matrix.block_shape[1] == 1:
+            block_shapein = self.shapein
         else:
             block_shapein = self.shapein[:-1]
         if mask.shape != block_shapein:
@@ -979,6 +981,8 @@ class SparseOperator(SparseBase):
             if self.shapein is not None:
                 ndims_in = len(self.broadcastable_shapein)
                 out.shapein = (ncol,) + self.shapein[ndims_in:]
+        elif self.matrix.block_shape[1] == 1:
+            out.shapein = (ncol,)
         else:
             out.shapein = (ncol, out.matrix.block_shape[1])
         if inplace:
-- 
2.43.0


From b71dfb6c0259dc0359fbb4f95ad9a3e2c90d61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 10/44] fix: restriction to more pixels than the index type can
 count

---
 src/flib/sparse.f90.j2 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index cc37e16..4cebfac 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -550,19 +550,19 @@ contains
         integer(int64), intent(in)           :: stride
         integer(int8), intent(inout), target :: matrix(0:ncolmax*m*stride-1)
         logical(1), intent(in)               :: mask(0:n-1)
-        integer({{ combo.ikind }}), intent(out)        :: ncol
+        integer(int64), intent(out)          :: ncol
 
         integer({{ combo.ikind }}), pointer :: col
         integer(int64) :: i, j, pos
-        integer({{ combo.ikind }}) :: new_index(0:n-1)
+        integer(int64) :: new_index(0:n-1)
 
         ncol = 0
         do i = 0, n-1
             if (mask(i)) then
                 new_index(i) = ncol
-                ncol = ncol + 1_{{ combo.ikind }}
+                ncol = ncol + 1
             else
-                new_index(i) = -1_{{ combo.ikind }}
+                new_index(i) = -1
             end if
         end do
 
@@ -572,7 +572,7 @@ contains
                 pos = ((i - 1) * ncolmax + j - 1) * stride
                 call c_f_pointer(c_loc(matrix(pos)), col)
                 if (col < 0) cycle
-                col = new_index(col)
+                col = int(new_index(col), {{ combo.ikind }})
             end do
         end do
         !$omp end parallel do
-- 
2.43.0


From f9452d92e300eed1008fc3fc997354d89289c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 11/44] fix: accumulate the coverage and back-projection in a
 non-contiguous output

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f09ba6e..52e21d6 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1099,7 +1099,7 @@ class ProjectionOperator(SparseOperator):
                 shapein = (self.matrix.shape[0],)
             else:
                 shapein = self.shapeout
-            if isinstance(self.matrix, FSRMatrix):
+            if isinstance(self.matrix, FSRMatrix) and out.flags.c_contiguous:
                 x = ones(shapein, out.dtype)
                 self.T(x, out=out, operation=operation)
             elif isinstance(self.matrix, FSRRotation2dMatrix):
@@ -1185,7 +1185,7 @@ class ProjectionOperator(SparseOperator):
             )
         else:
             self.pT1(out=pT1, operation=operation)
-            if isinstance(self.matrix, FSRMatrix):
+            if isinstance(self.matrix, FSRMatrix) and pTx.flags.c_contiguous:
                 self.T(x, out=pTx, operation=operation)
             else:
                 x = self.T(x)
-- 
2.43.0


From 9c378cd093f79042cf9ab62137342b701e928d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 12/44] fix: timeline and P^T P for samples without pixel in
 one-pixel pointing matrices

---
 src/flib/module_pointingmatrix.f90 | 2 ++
 src/flib/pointingmatrix_old.f90    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..0215bde 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index < 0) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From d9a2af94ed7c88174f0957fe1a484eafaeb8b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 13/44] fix: projection by a pointing matrix, for all layouts
 of the output and samples without pixels

---
 src/pysimulators/operators.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 52e21d6..dadfc12 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -636,15 +636,20 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
         if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty(output.shape)
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -663,9 +668,21 @@ class ProjectionBaseOperator(Operator):
             input_ = np.ascontiguousarray(input)
         else:
             input_ = input
+        if not output.flags.contiguous:
+            if pyoperators.config.VERBOSE:
+                print('Optimize me: Projection.T output is not contiguous.')
+            output_ = np.ascontiguousarray(output)
+        else:
+            output_ = output
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.T,
+            output_.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
+        if not output.flags.contiguous:
+            output[...] = output_
 
     def set_attrin(self, attr):
         if '_header' in attr:
-- 
2.43.0


From 39bbc96ee2ff4847b8d7eee3f75c0a89f8bb77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 14/44] fix: get_pTp accumulates floating point values

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index dadfc12..065e9dd 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -719,9 +719,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From 1fea6bf3f2baeda58b1cf2ea9269ffe6eed70065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 15/44] fix: back-projection with a mask, and in non-contiguous
 outputs

---
 src/pysimulators/operators.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 065e9dd..ab23e85 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -752,24 +752,31 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
+        out_ = out[0].ravel(), out[1].ravel()
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
-                out[0].ravel(),
-                out[1].ravel(),
+                np.asarray(mask, np.bool_).ravel().view(np.int8),
+                out_[0],
+                out_[1],
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         else:
             flib.pointingmatrix.backprojection_weight(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                out[0].ravel(),
-                out[1].ravel(),
+                out_[0],
+                out_[1],
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
+        for o, o_ in zip(out, out_):
+            if not o.flags.contiguous:
+                o[...] = o_.reshape(o.shape)
         return out
 
     def intersects(self, fitscoords, axis=None, f=None):
-- 
2.43.0


From 2fc6830ba1ac3f48bbe25386a77d5b530863f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 16/44] fix: intersects without the removed numpy cumproduct

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ab23e85..d324451 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -787,7 +787,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From 2a41ce3d3ffb167435267259c2366e41aaa4c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 17/44] fix: product of a diagonal operator and a one-pixel
 projection

---
 src/pysimulators/operators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index d324451..f1e9637 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -884,9 +884,18 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
         # rightward broadcasting can fail with structured arrays (np 1.7)
         if self.matrix.shape[-1] != 1 or d.broadcast == 'rightward':
             return
+        data = np.asarray(d.get_data())
+        if data.dtype.kind == 'c':
+            return
         matrix = self.matrix.copy()
-        result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        result = ProjectionInMemoryOperator(
+            matrix,
+            derived_units=(self.duout, self.duin),
+            attrin=self._attrin,
+            attrout=self._attrout,
+        )
+        result.unit = self.unit
+        matrix.value *= data[..., None]
         return result
 
 
-- 
2.43.0


From ec88a4dd83e063fb25d0c23b4b9ee462ac6b6859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 18/44] fix: packing of a non-contiguous pointing matrix and
 its mask in a non-contiguous output

---
 src/pysimulators/operators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f1e9637..44474c3 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -575,12 +575,15 @@ class PointingMatrix(FitsArray):
         """
         if self.size == 0:
             return
+        matrix = self.ravel()
         flib.pointingmatrix.pack(
-            self.ravel().view(np.int64),
+            matrix.view(np.int64),
             mask.view(np.int8).T,
             self.shape[-1],
             self.size // self.shape[-1],
         )
+        if not self.flags.contiguous:
+            self[...] = matrix.reshape(self.shape)
         self.shape_input = tointtuple(mask.size - np.sum(mask))
 
     def get_mask(self, out=None):
@@ -593,12 +596,15 @@ class PointingMatrix(FitsArray):
             raise ValueError('The output mask argument has an incompatible sha' 'pe.')
         if self.size == 0:
             return out
+        out_ = np.ascontiguousarray(out)
         flib.pointingmatrix.mask(
             self.ravel().view(np.int64),
-            out.view(np.int8).T,
+            out_.view(np.int8).T,
             self.shape[-1],
             self.size // self.shape[-1],
         )
+        if not out.flags.contiguous:
+            out[...] = out_
         return out
 
 
-- 
2.43.0


From 5a0f4b5f977e34fec6dec5ccfe88577a8dc626fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 19/44] fix: truncated exponential convolution of
 two-dimensional single precision inputs

---
 src/pysimulators/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 44474c3..eefe85e 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -417,10 +417,10 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    if x.strides[1] != x.itemsize:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    shape_all = x.shape[0], x.strides[0] // x.itemsize
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (x.itemsize,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From 7d8fd71eaece7eb90b436baee34bbfbd5887703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 20/44] fix: truncated exponential convolution for empty
 inputs, and its transpose for long time constants

---
 src/flib/module_operators.f90.j2 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index ad19ca6..7c49943 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -476,6 +476,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        if (size(input) == 0) return
         output(1) = input(1)
         do i = 2, size(input)
             output(i) = w * output(i-1) + v * input(i)
@@ -499,11 +500,10 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
-        input(n) = v * input(n)
         do i = n - 1, 1, -1
-            input(i) = w * input(i+1) + v * input(i)
+            input(i) = w * input(i+1) + input(i)
         end do
-        input(1) = input(1) / v
+        input(2:) = v * input(2:)
 
     end subroutine
 
@@ -525,11 +525,11 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
-        output(n) = v * input(n)
+        output = input
         do i = n - 1, 1, -1
-            output(i) = w * output(i+1) + v * input(i)
+            output(i) = w * output(i+1) + input(i)
         end do
-        output(1) = output(1) / v
+        output(2:) = v * output(2:)
 
     end subroutine
 
-- 
2.43.0


From 559d06123ac62fec8c6b5b2875b669a8e6972af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 21/44] fix: rotation of integer coordinates and of
 non-contiguous arrays

---
 src/pysimulators/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..eaa7482 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -302,10 +302,13 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind not in 'fc':
+        coords = _np.asarray(coords, float)
     if out is None:
-        out = _np.empty_like(coords)
+        out = _np.empty(coords.shape, coords.dtype)
     if (
         coords.dtype.char == 'd'
+        and out.dtype.char == 'd'
         and coords.flags.c_contiguous
         and out.flags.c_contiguous
     ):
@@ -323,9 +326,8 @@ def rotate(coords, angle, out=None):
         [[_np.cos(angle), -_np.sin(angle)], [_np.sin(angle), _np.cos(angle)]],
         coords.dtype,
     )
-    if isalias(coords, out):
-        coords = coords.copy()
-    return _np.dot(coords, m.T, out)
+    out[...] = _np.dot(coords, m.T)
+    return out
 
 
 def surface_simple_polygon(coords, out=None, dtype=float):
-- 
2.43.0


From 7c5aebb07d22054a65ff26227ed0bb13da99b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 22/44] fix: surface of multi-dimensional arrays of polygons,
 and output types

---
 src/pysimulators/geometry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index eaa7482..e290746 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -13,6 +13,7 @@ Angles are counted counter-clockwise.
 
 import numpy as _np
 import scipy.spatial as _spatial
+from pyoperators.utils import product as _product
 
 from . import _flib
 
@@ -354,13 +355,12 @@ def surface_simple_polygon(coords, out=None, dtype=float):
     coords = _np.array(coords, dtype=float, order='c')
     if out is None:
         out = _np.empty(coords.shape[:-2], dtype)
-    if coords.ndim < 3:
-        coords = coords[None, ...]
-    if out.ndim == 0:
-        out_ = out.reshape(1)
-    else:
-        out_ = out
-    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
+    surface = _np.empty(_product(coords.shape[:-2]))
+    if surface.size > 0:
+        _flib.geometry.surface_simple_polygon(
+            coords.reshape((surface.size,) + coords.shape[-2:]).T, surface
+        )
+    out[...] = surface.reshape(coords.shape[:-2])
     if out.ndim == 0:
         out = out[()]
     return out
-- 
2.43.0


From eb276f67aaf5b208bc71f61b42280f8b7900fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 23/44] fix: squared distances in more than two dimensions,
 distances in non-contiguous outputs

---
 src/pysimulators/datautils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..3f6d61f 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -127,7 +127,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
     ndim = out.ndim
     dtype = float_intrinsic_dtype(out.dtype)
 
-    if ndim in (1, 2) and dtype != out.dtype:
+    if ndim in (1, 2) and (dtype != out.dtype or not out.flags.c_contiguous):
         out_ = np.empty(shape, dtype)
     else:
         out_ = out
@@ -210,7 +210,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
     ndim = out.ndim
     dtype = float_intrinsic_dtype(out.dtype)
 
-    if ndim in (1, 2) and dtype != out.dtype:
+    if ndim in (1, 2) and (dtype != out.dtype or not out.flags.c_contiguous):
         out_ = np.empty(shape, dtype)
     else:
         out_ = out
@@ -259,7 +259,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
     if len(d) == 1:
         out[...] = d[0]
         return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    np.add(sum(d[:-1]), d[-1], out)
     return out
 
 
-- 
2.43.0


From 541a5ebe61b5f725480055382de8d10dc3f09c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:28 +0000
Subject: [PATCH 24/44] fix: NaN and infinity constants of module_math

---
 src/flib/module_math.f90.j2 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flib/module_math.f90.j2 b/src/flib/module_math.f90.j2
index 4eea029..5adf1ac 100644
--- a/src/flib/module_math.f90.j2
+++ b/src/flib/module_math.f90.j2
@@ -6,11 +6,11 @@ module module_math
     implicit none
 
     real(real32), parameter :: NAN_4  = real(z'FFFFFFFF', real32)
-    real(real32), parameter :: MINF_4 = real(z'FF700000', real32)
-    real(real32), parameter :: PINF_4 = real(z'7F700000', real32)
+    real(real32), parameter :: MINF_4 = real(z'FF800000', real32)
+    real(real32), parameter :: PINF_4 = real(z'7F800000', real32)
     real(real32), parameter :: PI_4 = 4._real32 * atan(1._real32)
-    real(real64), parameter :: NAN_8  = real(z'FFF800000000000', real64)
-    real(real64), parameter :: MINF_8 = real(z'FFF000000000000', real64)
+    real(real64), parameter :: NAN_8  = real(z'FFF8000000000000', real64)
+    real(real64), parameter :: MINF_8 = real(z'FFF0000000000000', real64)
     real(real64), parameter :: PINF_8 = real(z'7FF0000000000000', real64)
     real(real64), parameter :: PI_8 = 4._real64 * atan(1._real64)
 {% if PRECISION_REAL == 16 %}
-- 
2.43.0


From e23c560880c9e3a3528683d2e83ad89067294fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 25/44] fix: NaN and infinity constants of module_math_old

---
 src/flib/module_math_old.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 61df943..0f948f5 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -49,9 +49,9 @@ module module_math_old
     !XXX should use ieee_arithmetic instead when gfortran implements it. So far, gfortran doesn't allow NaN, mInf, pInf conversion
     ! between different real kinds...
 #if PRECISION_REAL == 8
-    real(8), parameter :: NaN  = real(z'FFFFFFFF', 8)
-    real(8), parameter :: mInf = real(z'FFFF0000', 8)
-    real(8), parameter :: pInf = real(z'7FFF0000', 8)
+    real(8), parameter :: NaN  = real(z'FFFFFFFFFFFFFFFF', 8)
+    real(8), parameter :: mInf = real(z'FFF0000000000000', 8)
+    real(8), parameter :: pInf = real(z'7FF0000000000000', 8)
 #elif PRECISION_REAL == 16
     real(16), parameter :: NaN  = z'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF'
     real(16), parameter :: mInf = z'FFFF0000000000000000000000000000'
-- 
2.43.0


From 78212dda1d359e24bc4f80caf43e4c862cc74f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 26/44] fix: overflow of the bin number of distant samples in
 profile

---
 src/flib/datautils.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/datautils.f90.j2 b/src/flib/datautils.f90.j2
index 3dc91d8..083b46d 100644
--- a/src/flib/datautils.f90.j2
+++ b/src/flib/datautils.f90.j2
@@ -139,8 +139,8 @@ contains
               val = array(i,j)
               if (val /= val) cycle
               distance = sqrt((i - origin(1))**2 + tmpj)
+              if (.not. distance / bin < nbins) cycle
               ibin = int(distance / bin) + 1
-              if (ibin > nbins) cycle
               x(ibin) = x(ibin) + distance
               y(ibin) = y(ibin) + val
               n(ibin) = n(ibin) + 1
-- 
2.43.0


From 53c351b819cd4072ef361cdcf53c0cd2ed063298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 27/44] fix: copy of a packed table

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..c8b8f51 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -371,7 +371,7 @@ class PackedTable:
 
         """
         out = copy.deepcopy(self)
-        out.comm = self.comm.Dup()
+        object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
     def pack(self, x, out=None, copy=False):
-- 
2.43.0


From e3a92f1d37a60c5b023b8982a8f5d3204992cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 28/44] fix: a scattered table does not become the global table
 it comes from

---
 src/pysimulators/packedtables/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c8b8f51..a28f158 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -469,6 +469,8 @@ class PackedTable:
 
         selection = split(len(self), comm.size, comm.rank)
         out = self[selection]
+        if out is self:
+            out = copy.copy(self)
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From 9aedbaf1bec36ebf457102b611359e739a16e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 29/44] fix: elements without value are missing in an unpacked
 table with repeated elements

---
 src/pysimulators/packedtables/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index a28f158..1f4c243 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -631,7 +631,7 @@ class PackedTable:
             out = np.empty(unpacked_shape, dtype=x.dtype).view(type(x))
             if out.__array_finalize__ is not None:
                 out.__array_finalize__(x)
-        if self._size_actual > len(self):
+        if index is not Ellipsis or self._size_actual > len(self):
             if missing_value is None:
                 missing_value = self._get_default_missing_value(x.dtype)
             out[...] = missing_value
@@ -664,6 +664,8 @@ class PackedTable:
             'S': '',
             'U': '',
             'O': None,
+            'M': 'NaT',
+            'm': 'NaT',
         }[dtype.kind]
 
     def _normalize_selection(self, selection, shape):
-- 
2.43.0


From d585030ace2137fe0cf4860ca4fa201230a0c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:35 +0000
Subject: [PATCH 30/44] fix: tuples of slices covering a whole dimension of a
 packed table

---
 src/pysimulators/packedtables/core.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 1f4c243..5140469 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -689,14 +689,26 @@ class PackedTable:
             if selection_.dtype == object:
                 if len(selection) > len(shape):
                     raise ValueError('Invalid selection dimensions.')
+                if sum(_ is Ellipsis for _ in selection) == 1:
+                    i = [_ is Ellipsis for _ in selection].index(True)
+                    n = len(shape) - len(selection) + 1
+                    selection = (
+                        tuple(selection[:i])
+                        + n * (slice(None),)
+                        + tuple(selection[i + 1 :])
+                    )
                 selection = tuple(
                     self._normalize_slice(_, s) if isinstance(_, slice) else _
                     for _, s in zip(selection, shape)
                 )
                 try:
-                    return selection[: ilast_is_not(selection, Ellipsis) + 1]
+                    selection = selection[: ilast_is_not(selection, Ellipsis) + 1]
                 except ValueError:
                     return Ellipsis
+                return tuple(
+                    slice(0, s, 1) if _ is Ellipsis else _
+                    for _, s in zip(selection, shape)
+                )
             else:
                 selection = selection_
         elif not isinstance(selection, np.ndarray):
-- 
2.43.0


From 3874f5d142259ff70014a17b127370ccbe034c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:35 +0000
Subject: [PATCH 31/44] fix: repeated elements in the selection of a packed
 table

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 5140469..8ec3538 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -731,7 +731,7 @@ class PackedTable:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From 9f17d8236877f6c38139bd8d37f21242fbeab1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:35 +0000
Subject: [PATCH 32/44] fix: selection of packed tables with negative indices,
 steps and out of range bounds

---
 src/pysimulators/packedtables/core.py | 35 +++++++++++++++------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 8ec3538..7628de3 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -182,10 +182,7 @@ class PackedTable:
     @property
     def _indexable(self):
         # slice index with negative stop values cannot be used for indexing
-        index = self._index
-        if isinstance(index, slice) and index.stop < 0:
-            return slice(index.start, None, index.step)
-        return index
+        return self._normalized2indexable(self._index)
 
     @property
     def removed(self):
@@ -312,11 +309,7 @@ class PackedTable:
             return self
 
         index = self._index
-        if index is Ellipsis and (
-            isinstance(selection, slice)
-            or isinstance(selection, np.ndarray)
-            and selection.dtype == int
-        ):
+        if index is Ellipsis and isinstance(selection, slice):
             index = selection
         elif isinstance(index, slice) and isinstance(selection, slice):
             n = (selection.stop - selection.start) // selection.step
@@ -325,14 +318,14 @@ class PackedTable:
             stop = start + n * step
             index = slice(start, stop, step)
         else:
-            index = self.index
-            index = index[selection]
+            index = self.index[self._normalized2indexable(selection)]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
 
         out = copy.copy(self)
         out._index = index
+        selection = self._normalized2indexable(selection)
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
@@ -755,15 +748,13 @@ class PackedTable:
                     return slice(0, 0, step)
                 start = 0
         elif start >= n:
-            if step > 0:
-                return slice(n - 1, n - 1, step)
-            start = n - 1
+            start = n if step > 0 else n - 1
 
         stop = s.stop
         if stop is None:
             stop = n if step > 0 else -1
         elif stop < 0:
-            stop = n + stop
+            stop = max(n + stop, -1)
         elif stop > n:
             stop = n
 
@@ -774,12 +765,24 @@ class PackedTable:
         size = int(np.ceil(extent / abs(step)))
         if size == n and step == 1:
             return Ellipsis
+        if size == 0:
+            start = 0
 
         return slice(start, start + size * step, step)
 
+    @staticmethod
+    def _normalized2indexable(s):
+        # normalized slices with negative stop values cannot be used for indexing
+        if isinstance(s, slice) and s.stop < 0:
+            return slice(s.start, None, s.step)
+        return s
+
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
-        out[selection] = True
+        if isinstance(selection, tuple):
+            out[tuple(self._normalized2indexable(_) for _ in selection)] = True
+        else:
+            out.reshape(-1)[self._normalized2indexable(selection)] = True
         return out
 
 
-- 
2.43.0


From df238dbc5296a6226717a55f84d01dd63985e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 33/44] fix: negative and out of range integers in the
 selection of a new packed table

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 7628de3..46101a4 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -209,7 +209,7 @@ class PackedTable:
             if selection is Ellipsis or isinstance(selection, slice):
                 return selection
             if isinstance(selection, np.ndarray) and selection.dtype == int:
-                out = np.asarray(selection, self._dtype_index)
+                out = np.arange(self._size_actual, dtype=self._dtype_index)[selection]
                 return self._normalize_int_selection(out, self._size_actual)
             if isinstance(selection, tuple):
                 s = selection[0]
-- 
2.43.0


From ceffb4cadec03622271c9f6471cc00ac98b1d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 34/44] fix: distribution of observations without valid
 detector or without observation

---
 src/pysimulators/mpiutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..7da0c78 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -104,10 +104,10 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
     nobservations = len(observations)
 
     # number of observations. They should approximatively be of the same length
-    nx = nobservations
+    nx = max(nobservations, 1)
 
     # number of detectors, grouped by the number of cpu cores
-    ny = int(np.ceil(ndetectors / nthreads))
+    ny = max(int(np.ceil(ndetectors / nthreads)), 1)
 
     # we start with the minimum blocksize and increase it until we find a
     # configuration that covers all the observations
-- 
2.43.0


From 4a6bfc6d494f06a8d7c400a3380a63386acf3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 35/44] fix: value at the Nyquist frequency of folded spectra

---
 src/pysimulators/noises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..6431a8c 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -20,7 +20,7 @@ def _fold_psd(p):
     out = empty(p.shape[:-1] + (n,))
     out[..., 0] = p[..., 0]
     np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
-    out[..., -1] = p[..., n]
+    out[..., -1] = p[..., n - 1]
     return out
 
 
-- 
2.43.0


From c82950a617eb15c11dc946315e3044898d3d1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 36/44] fix: elementary units with exponent zero in unit
 strings

---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..c7bad9c 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -278,7 +278,7 @@ def _multiply_unit_inplace(unit, key, val):
             del unit[key]
         else:
             unit[key] += val
-    else:
+    elif val != 0:
         unit[key] = val
     return unit
 
-- 
2.43.0


From ec4d236612453356ffe6cd6188b9a36b4e53ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 37/44] fix: mean of angles across 0 and more than 90 degrees
 apart

---
 src/flib/wcsutils.f90 | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index 6bb9a70..cdd53fc 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -81,30 +81,29 @@ contains
         real(p), intent(in)   :: array(n)
         real(p), intent(out)  :: mean
 
-        real(p) :: val
+        real(p) :: val, minv, maxv
         integer*8 :: isample, n180, nvalids
-        logical :: zero_minus, zero_plus
 
         mean = 0
-        zero_minus = .false.
-        zero_plus  = .false.
+        minv = pInf
+        maxv = mInf
         n180 = 0
         nvalids = 0
 
         !$omp parallel do default(shared) reduction(+:n180, nvalids, mean)     &
-        !$omp reduction(.or.:zero_minus,zero_plus) private(isample, val)
+        !$omp reduction(min:minv) reduction(max:maxv) private(isample, val)
         do isample = 1, n
             val = modulo(array(isample), 360._p)
             if (val /= val) cycle
-            zero_minus = zero_minus .or. val > 270._p
-            zero_plus  = zero_plus  .or. val <= 90._p
+            minv = min(minv, val)
+            maxv = max(maxv, val)
             if (val >= 180._p) n180 = n180 + 1
             mean = mean + val
             nvalids = nvalids + 1
         end do
         !$omp end parallel do
 
-        if (zero_minus .and. zero_plus) mean = mean - 360._p * n180
+        if (maxv - minv > 180._p) mean = mean - 360._p * n180
 
         if (nvalids > 0) then
             mean = modulo(mean / nvalids, 360._p)
-- 
2.43.0


From cd8cdfb832da5718209b6172de3f2cdba1eef221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 38/44] fix: rotation of zero points

---
 src/pysimulators/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index e290746..6409b82 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -307,6 +307,8 @@ def rotate(coords, angle, out=None):
         coords = _np.asarray(coords, float)
     if out is None:
         out = _np.empty(coords.shape, coords.dtype)
+    if coords.size == 0:
+        return out
     if (
         coords.dtype.char == 'd'
         and out.dtype.char == 'd'
-- 
2.43.0


From 41ebdb03990a699bcd2b736b0bae0fd19f14e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 39/44] fix: distance maps of integers or in non-contiguous
 outputs

---
 src/pysimulators/datautils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3f6d61f..17a41f7 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -150,7 +150,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, order='K', unit=unit)
 
 
 def _distance_slow(shape, center, scale, dtype, out=None):
@@ -233,7 +233,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance2_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, order='K', unit=unit)
 
 
 def _distance2_slow(shape, center, scale, dtype, out=None):
-- 
2.43.0


From dfcee5ce4088844d1c32b27fae7092aefeff41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 40/44] fix: extrema, remainders and clipping of quantities in
 different units

---
 src/pysimulators/quantities.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index c7bad9c..7da6a45 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -98,7 +98,7 @@ FUNCTIONS = {
     ),
     np.broadcast_to: DEFAULT_CONVERSION,
     np.choose: ConversionType(ConversionInput.SECOND_SEQUENCE),
-    np.clip: DEFAULT_CONVERSION,
+    np.clip: ConversionType(ConversionInput.SEQUENCE),
     np.column_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
     np.compress: ConversionType(ConversionInput.SECOND),
     np.concat: ConversionType(ConversionInput.FIRST_SEQUENCE),
@@ -736,13 +736,16 @@ class Quantity(np.ndarray):
 
         input_units = self._get_sequence_units(inputs)
 
-        if ufunc in (
+        # np.clip is not the ufunc itself
+        if ufunc.__name__ == 'clip' or ufunc in (
             np.add,
-            np.clip,
+            np.fmax,
+            np.fmin,
             np.fmod,
             np.hypot,
             np.maximum,
             np.minimum,
+            np.remainder,
             np.subtract,
         ):
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
@@ -766,8 +769,6 @@ class Quantity(np.ndarray):
             np.fabs,
             np.float_power,
             np.floor,
-            np.fmax,
-            np.fmin,
             np.hypot,
             np.negative,
             np.rint,
-- 
2.43.0


From 9b1ac4340b9166349659efe1a9ffae02bb34c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 41/44] fix: conversion of units that vary over the leading
 dimensions

---
 src/pysimulators/quantities.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 7da6a45..1498b42 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1050,20 +1050,23 @@ class Quantity(np.ndarray):
             self._unit = newunit
             return
 
+        # the derived units may be broadcast over the leading or trailing dimensions
+        one = np.ones(self.shape if self._derived_units else ())
+
         # the header may contain information used to do unit conversions
         if hasattr(self, '_header'):
             q1 = self.__class__(
-                1,
+                one,
                 header=self._header,
                 unit=self._unit,
                 derived_units=self.derived_units,
             ).SI
             q2 = self.__class__(
-                1, header=self._header, unit=newunit, derived_units=self.derived_units
+                one, header=self._header, unit=newunit, derived_units=self.derived_units
             ).SI
         else:
-            q1 = Quantity(1.0, self._unit, self.derived_units).SI
-            q2 = Quantity(1.0, newunit, self.derived_units).SI
+            q1 = Quantity(one, self._unit, self.derived_units).SI
+            q2 = Quantity(one, newunit, self.derived_units).SI
 
         if q1._unit != q2._unit:
             raise UnitError(
-- 
2.43.0


From 2be11f10b29e0b359287e9c954377cf8bc191227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 42/44] fix: P^T P of a sparse operator whose components carry
 extra values

---
 src/pysimulators/sparse.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index cc04469..0b8ea5a 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1027,9 +1027,13 @@ class SparseOperator(SparseBase):
             return
 
         m = self.matrix.data.ravel().view(np.int8)
-        data = np.zeros(self.shapein, dtype=self.dtype)
-        func(m, data.ravel())
-        return DiagonalOperator(data)
+        data = np.zeros(self.matrix.shape[1], dtype=self.dtype)
+        func(m, data)
+        # the extra values of each component are treated alike
+        extra_size = product(self.shapein) // data.size if data.size > 0 else 1
+        if extra_size > 1:
+            data = np.repeat(data, extra_size)
+        return DiagonalOperator(data.reshape(self.shapein))
 
 
 pyoperators.SparseOperator = SparseOperator
-- 
2.43.0


From f56f7982734f02d402303c7350ba37be3ddeaf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 43/44] fix: coverage and back-projection of components that
 carry extra values

---
 src/pysimulators/operators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index eefe85e..a794363 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1123,7 +1123,9 @@ class ProjectionOperator(SparseOperator):
         rsize = int(self.matrix.dtype.itemsize)
         vsize = int(out.dtype.itemsize)
         f = f'fsr{self._flib_id}_pt1_i{isize}_r{rsize}_v{vsize}'
-        if hasattr(flib.operators, f):
+        # the kernels do not handle extra values in the components
+        extra = product(shapeout) > self.matrix.shape[1]
+        if hasattr(flib.operators, f) and not extra:
             if operation is operation_assignment:
                 out[...] = 0
             func = getattr(flib.operators, f)
@@ -1209,7 +1211,9 @@ class ProjectionOperator(SparseOperator):
         rsize = int(self.matrix.dtype.itemsize)
         vsize = int(dtypeout.itemsize)
         f = f'fsr{self._flib_id}_ptx_pt1_i{isize}_r{rsize}_v{vsize}'
-        if hasattr(flib.operators, f):
+        # the kernels do not handle extra values in the components
+        extra = product(shapeout) > self.matrix.shape[1]
+        if hasattr(flib.operators, f) and not extra:
             if operation is operation_assignment:
                 pTx[...] = 0
                 pT1[...] = 0
-- 
2.43.0


From eb7909ada7f6c3db0e42b27278c8964d48d910fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 44/44] fix: kernel of a projection whose components carry
 extra values

---
 src/pysimulators/operators.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a794363..2b1ef24 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1064,19 +1064,21 @@ class ProjectionOperator(SparseOperator):
             operation(out, True)
             return out
 
+        # the extra values of each component are treated alike
+        n = self.matrix.shape[1] // self.matrix.block_shape[1]
         itype = data.dtype['index']
         ftype = data.dtype[1]
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
             np.float32,
             np.float64,
         ):
-            kernel = np.ones(shape, bool)
+            kernel = np.ones(n, bool)
 
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
             func(
                 data.view(np.int8).ravel(),
-                kernel.view(np.int8).ravel(),
+                kernel.view(np.int8),
                 self.matrix.ncolmax,
                 product(data.shape[:-1]),
                 data.strides[-1],
@@ -1090,10 +1092,10 @@ class ProjectionOperator(SparseOperator):
                 nonzero = (data.r11 != 0) | (data.r21 != 0)
             else:
                 nonzero = (data.r11 != 0) | (data.r22 != 0) | (data.r32 != 0)
-            n = product(shape)
             kernel = np.histogram(data.index[nonzero], n, range=(0, n))[0] == 0
-            kernel = kernel.reshape(shape)
-        operation(out, kernel)
+        if product(shape) > n:
+            kernel = np.repeat(kernel, product(shape) // n)
+        operation(out, kernel.reshape(shape))
         return out
 
     def pT1(self, out=None, operation=operation_assignment):
-- 
2.43.0

