From 5df37f8006f86721084a8b117ef6443e5e35a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 01/18] fix: do not write the approximation into the
 coefficient dicts of the caller

---
 src/ptwt/matmul_transform_3.py       | 3 +--
 src/ptwt/separable_conv_transform.py | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..915faa7 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -466,8 +466,7 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..6e3caa2 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,8 +179,8 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
-        approx = _separable_conv_idwtn(level_dict, wavelet)
+        in_dict = {**level_dict, "a" * max(map(len, keys)): approx}
+        approx = _separable_conv_idwtn(in_dict, wavelet)
     return approx
 
 
-- 
2.43.0


From 37b87dc5a6c25f19a3400fbf58718d0429fa6568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 02/18] fix: wavedec3 keeps the shape of the data if no level
 is computed

---
 src/ptwt/conv_transform_3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..63872e5 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -139,6 +139,9 @@ def wavedec3(
                 "ddd": res_hhh,
             }
         )
+    if not result_lst:
+        # drop the channel axis, which is squeezed after each level otherwise.
+        res_lll = res_lll.squeeze(1)
     result_lst.reverse()
     coeffs: WaveletCoeffNd = res_lll, *result_lst
 
-- 
2.43.0


From fae0733c304df65b82e3d3fbd0196967a2876610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 03/18] fix: MatrixWavedec computes the level for every input
 if none is given

---
 src/ptwt/matmul_transform.py   | 11 +++++++----
 src/ptwt/matmul_transform_2.py | 11 +++++++----
 src/ptwt/matmul_transform_3.py | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..198f910 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -249,6 +249,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        self._is_level_computed = level is None
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
@@ -394,11 +395,13 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.input_length = length
             re_build = True
 
-        if self.level is None:
+        if self._is_level_computed:
             wlen = len(self.wavelet)
-            self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
-        elif self.level <= 0:
+            level = int(np.log2(length / (wlen - 1)))
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..9384f29 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -327,6 +327,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=2)
         self.level = level
+        self._is_level_computed = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
@@ -483,13 +484,15 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.input_signal_shape = height, width
             re_build = True
 
-        if self.level is None:
+        if self._is_level_computed:
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
-        elif self.level <= 0:
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 915faa7..1e3f34b 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -119,6 +119,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        self._is_level_computed = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
@@ -222,9 +223,9 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.input_signal_shape = depth, height, width
             re_build = True
 
-        if self.level is None:
+        if self._is_level_computed:
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min(
                     [
                         np.log2(depth / (wlen - 1)),
@@ -233,8 +234,10 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
-        elif self.level <= 0:
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
-- 
2.43.0


From b3d8f4523825009dcc872b0d8f627243e288e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 04/18] fix: rebuild the cached matrices if the dtype or device
 of the input changes

---
 src/ptwt/matmul_transform.py   | 12 ++++++++++++
 src/ptwt/matmul_transform_2.py | 12 ++++++++++++
 src/ptwt/matmul_transform_3.py | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 198f910..dd04ec4 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -256,6 +256,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         self.input_length: Optional[int] = None
         self.fwt_matrix_list: list[torch.Tensor] = []
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.pad_list: list[bool] = []
         self.padded = False
         self.size_list: list[int] = []
@@ -404,6 +405,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_kind = (input_signal.device, input_signal.dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -549,6 +555,7 @@ class MatrixWaverec(object):
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)
         self.ifwt_matrix_list: list[torch.Tensor] = []
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.level: Optional[int] = None
         self.input_length: Optional[int] = None
         self.padded = False
@@ -673,6 +680,11 @@ class MatrixWaverec(object):
             self.input_length = input_length
             re_build = True
 
+        matrix_kind = (torch_device, torch_dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 9384f29..8870bee 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -332,6 +332,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[
             Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
         ] = []
@@ -495,6 +496,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_kind = (input_signal.device, input_signal.dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -625,6 +631,7 @@ class MatrixWaverec2(object):
         self.separable = separable
         self.axes = _ensure_axes(axes=axes, dim=2)
 
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.ifwt_matrix_list: list[
             Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
         ] = []
@@ -776,6 +783,11 @@ class MatrixWaverec2(object):
             self.level = level
             re_build = True
 
+        matrix_kind = (torch_device, torch_dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 1e3f34b..24363af 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -124,6 +124,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[list[torch.Tensor]] = []
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -240,6 +241,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_kind = (input_signal.device, input_signal.dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -327,6 +333,7 @@ class MatrixWaverec3(object):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.orthogonalization = orthogonalization
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.ifwt_matrix_list: list[list[torch.Tensor]] = []
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
         self.level: Optional[int] = None
@@ -446,6 +453,11 @@ class MatrixWaverec3(object):
             self.level = level
             re_build = True
 
+        matrix_kind = (torch_device, torch_dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
-- 
2.43.0


From 670e7611dbfbc96fa3bf9de2e9f362494fa448f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 05/18] fix: non-separable MatrixWavedec2 returns the data if
 no level can be computed

---
 src/ptwt/matmul_transform_2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 8870bee..4a852e6 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -566,7 +566,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 )
                 split_list.append(WaveletDetailTuple2d(*reshaped))
                 ll = four_split[0]
-            ll = ll.T.reshape(batch_size, size[1] // 2, size[0] // 2).transpose(2, 1)
+            ll_height, ll_width = self.size_list[-1]
+            ll = ll.T.reshape(batch_size, ll_width, ll_height).transpose(2, 1)
 
         split_list.reverse()
         result: WaveletCoeff2d = ll, *split_list
-- 
2.43.0


From 74dc8bfe1c5e16eb9ae56d9620b574ab2f0e582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 06/18] fix: integer indices in cat_sparse_identity_matrix

---
 src/ptwt/sparse_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..ff0b2e7 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -128,13 +128,13 @@ def cat_sparse_identity_matrix(
     x = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
+        dtype=torch.long,
         device=sparse_matrix.device,
     )
     y = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
+        dtype=torch.long,
         device=sparse_matrix.device,
     )
     extra_indices = torch.stack([x, y])
-- 
2.43.0


From 40f3054639ba76e9ef905209497200a8f9c11c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 07/18] fix: sparse_kron keeps the dtype if one of the matrices
 is zero

---
 src/ptwt/sparse_math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index ff0b2e7..4788361 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -64,9 +64,10 @@ def sparse_kron(
     # take care of the zero case.
     if nzz_a == 0 or nzz_b == 0:
         return torch.sparse_coo_tensor(
-            torch.zeros([2, 1]),
+            torch.zeros([2, 1], dtype=torch.long),
             torch.zeros([1]),
             size=output_shape,
+            dtype=sparse_tensor_a.dtype,
             device=sparse_tensor_a.device,
         )
 
-- 
2.43.0


From cb705d016557f7fb2433c1e50e910990e48649d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 08/18] fix: index on the device of the matrix in the
 orthogonalization

---
 src/ptwt/sparse_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 4788361..ead398d 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -228,7 +228,7 @@ def sparse_replace_row(
         )
 
     # delete existing indices we dont want
-    diag_indices = torch.arange(matrix.shape[0])
+    diag_indices = torch.arange(matrix.shape[0], device=matrix.device)
     diag = torch.ones_like(diag_indices)
     diag[row_index] = 0
     removal_matrix = torch.sparse_coo_tensor(
@@ -285,7 +285,7 @@ def _orth_by_qr(
     q, _ = torch.linalg.qr(sel.to_dense().T)
     q_rows = q.T.to_sparse()
 
-    diag_indices = torch.arange(matrix.shape[0])
+    diag_indices = torch.arange(matrix.shape[0], device=matrix.device)
     diag = torch.ones_like(diag_indices)
     diag[rows_to_orthogonalize] = 0
     removal_matrix = torch.sparse_coo_tensor(
-- 
2.43.0


From 96ff6acd47e9ea759668f6b62df48289dfa8ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 09/18] fix: MatrixWaverec3 returns the approximation if no
 level was computed

---
 src/ptwt/matmul_transform_3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 24363af..8405835 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -432,6 +432,10 @@ class MatrixWaverec3(object):
         torch_device, torch_dtype = _check_same_device_dtype(coefficients)
 
         level = len(coefficients) - 1
+        if level == 0:
+            # no level has been computed, the approximation is the signal.
+            return _postprocess_tensor(coefficients[0], ndim=3, ds=ds, axes=self.axes)
+
         if type(coefficients[-1]) is dict:
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
-- 
2.43.0


From 066ef589ed3a07047d35ecdc998462ae32cc365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 10/18] fix: circular padding beyond the signal length in the
 stationary transform

---
 src/ptwt/stationary_transform.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/ptwt/stationary_transform.py b/src/ptwt/stationary_transform.py
index cb2c0cb..054fb65 100644
--- a/src/ptwt/stationary_transform.py
+++ b/src/ptwt/stationary_transform.py
@@ -33,24 +33,16 @@ def _circular_pad(x: torch.Tensor, padding_dimensions: Sequence[int]) -> torch.T
     ):
         return F.pad(x, padding_dimensions, mode="circular")
 
-    # repeat to pad at maximum trailing dimensions until all padding dimensions are zero
-    while any(padding_dimension > 0 for padding_dimension in padding_dimensions):
-        # reduce every padding dimension to at maximum trailing dimension width
-        reduced_padding_dimensions = [
-            min(trailing_dimension, padding_dimension)
-            for padding_dimension in padding_dimensions
-        ]
-        # pad using reduced dimensions,
-        # which will never throw the circular wrap error
-        x = F.pad(x, reduced_padding_dimensions, mode="circular")
-        # remove the pad width that was just padded, and repeat
-        # if any pad width is greater than zero
-        padding_dimensions = [
-            max(padding_dimension - trailing_dimension, 0)
-            for padding_dimension in padding_dimensions
-        ]
-
-    return x
+    # pad whole periods on both sides, which continues the signal periodically
+    # and will never throw the circular wrap error, until all pads are covered
+    padl, padr = padding_dimensions
+    padded = 0
+    while padded < padl or padded < padr:
+        x = F.pad(x, [trailing_dimension, trailing_dimension], mode="circular")
+        padded += trailing_dimension
+
+    # remove the excess
+    return x[..., padded - padl : x.shape[-1] - (padded - padr)]
 
 
 def swt(
-- 
2.43.0


From 3100c14300f25508589c24ba3359f02291b39a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 11/18] fix: sparse_diag supports diagonals outside of the
 matrix

---
 src/ptwt/sparse_math.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index ead398d..98e8e2a 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -182,14 +182,9 @@ def sparse_diag(
     if col_offset < 0:
         diag_indices[0] += abs(col_offset)
 
-    if torch.max(diag_indices[0]) >= rows:
-        mask = diag_indices[0] < rows
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
-    if torch.max(diag_indices[1]) >= cols:
-        mask = diag_indices[1] < cols
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
+    mask = (diag_indices[0] < rows) & (diag_indices[1] < cols)
+    diag_indices = diag_indices[:, mask]
+    diagonal = diagonal[mask]
 
     diag = torch.sparse_coo_tensor(
         diag_indices,
-- 
2.43.0


From b068e834ecbd4be002f980d9431ff0d916856c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 12/18] fix: sparse_replace_row supports matrices which are not
 square

---
 src/ptwt/sparse_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 98e8e2a..240dda2 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -229,7 +229,7 @@ def sparse_replace_row(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From 91048c6a5f80ee5149e5efe21d9f9f7558aac24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 13/18] fix: node names of separable convolution packets follow
 pywt

Without boundary wavelets the separable WaveletPacket2D stored the band
which is high-pass along the last axis under 'h'. The non-separable tree,
wavedec2 and pywt call it 'v'.
---
 src/ptwt/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a4dceb6..a9c37ff 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -602,7 +602,7 @@ class WaveletPacket2D(BaseDict):
             a_coeff, fsdict = fs_dict_data
             return (
                 a_coeff,
-                WaveletDetailTuple2d(fsdict["ad"], fsdict["da"], fsdict["dd"]),
+                WaveletDetailTuple2d(fsdict["da"], fsdict["ad"], fsdict["dd"]),
             )
 
         return _tuple_func
@@ -615,7 +615,7 @@ class WaveletPacket2D(BaseDict):
             # assert for type checking
             assert len(coeffs) == 2
             a, (h, v, d) = coeffs
-            return fsdict_func((a, {"ad": h, "da": v, "dd": d}))
+            return fsdict_func((a, {"da": h, "ad": v, "dd": d}))
 
         return _fsdict_func
 
-- 
2.43.0


From c61e735a953b9c36819fec7f4a0d8d9c36c3f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:23 +0000
Subject: [PATCH 14/18] fix: wavedec2 and wavedec3 compute the level for
 filters given as tensors

pywt.dwtn_max_level takes the WaveletTensorTuple for one wavelet per axis
and raises ValueError.
---
 src/ptwt/conv_transform_2.py | 3 ++-
 src/ptwt/conv_transform_3.py | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ptwt/conv_transform_2.py b/src/ptwt/conv_transform_2.py
index a0ff680..f26ebd2 100644
--- a/src/ptwt/conv_transform_2.py
+++ b/src/ptwt/conv_transform_2.py
@@ -17,6 +17,7 @@ from ._util import (
     _check_same_device_dtype,
     _construct_2d_filt,
     _get_filter_tensors,
+    _get_len,
     _get_padding_n,
     _group_for_symmetric,
     _pad_symmetric,
@@ -135,7 +136,7 @@ def wavedec2(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level([data.shape[-1], data.shape[-2]], wavelet)
+        level = pywt.dwt_max_level(min(data.shape[-2:]), _get_len(wavelet))
 
     result_lst: list[WaveletDetailTuple2d] = []
     res_ll = data
diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index 63872e5..a044714 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -17,6 +17,7 @@ from ._util import (
     _check_same_device_dtype,
     _construct_3d_filt,
     _get_filter_tensors,
+    _get_len,
     _get_padding_n,
     _group_for_symmetric,
     _pad_symmetric,
@@ -114,9 +115,7 @@ def wavedec3(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level(
-            [data.shape[-1], data.shape[-2], data.shape[-3]], wavelet
-        )
+        level = pywt.dwt_max_level(min(data.shape[-3:]), _get_len(wavelet))
 
     result_lst: list[WaveletDetailDict] = []
     res_lll = data
-- 
2.43.0


From 60c8d30a0b42eebb7eb449bfd3faf90b6b7a08bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 15/18] fix: level=None for filters given as tensors in
 separable and matrix transforms

len() of a WaveletTensorTuple is four, whatever the length of its filters.
---
 src/ptwt/matmul_transform.py         | 3 ++-
 src/ptwt/matmul_transform_2.py       | 3 ++-
 src/ptwt/matmul_transform_3.py       | 3 ++-
 src/ptwt/separable_conv_transform.py | 4 ++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index dd04ec4..f6c33a7 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -20,6 +20,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -397,7 +398,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             re_build = True
 
         if self._is_level_computed:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             level = int(np.log2(length / (wlen - 1)))
             if self.level != level:
                 self.level = level
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 4a852e6..32618cf 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -19,6 +19,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -486,7 +487,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             re_build = True
 
         if self._is_level_computed:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 8405835..d04097b 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -15,6 +15,7 @@ from ._util import (
     _check_same_device_dtype,
     _deprecated_alias,
     _ensure_axes,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -225,7 +226,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             re_build = True
 
         if self._is_level_computed:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             level = int(
                 np.min(
                     [
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 6e3caa2..17f02b5 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,8 +16,8 @@ import torch
 
 from ._util import (
     AxisHint,
-    _as_wavelet,
     _check_same_device_dtype,
+    _get_len,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -138,7 +138,7 @@ def _separable_conv_wavedecn(
     approx = input
 
     if level is None:
-        wlen = len(_as_wavelet(wavelet))
+        wlen = _get_len(wavelet)
         level = int(
             min([np.log2(axis_len / (wlen - 1)) for axis_len in input.shape[1:]])
         )
-- 
2.43.0


From ddbfa96249e97e3285e1421790ca9b51f47f8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 16/18] fix: MatrixWaverec3 checks the coefficient structure
 before building matrices

---
 src/ptwt/matmul_transform_3.py | 38 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index d04097b..3708d43 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -437,6 +437,25 @@ class MatrixWaverec3(object):
             # no level has been computed, the approximation is the signal.
             return _postprocess_tensor(coefficients[0], ndim=3, ds=ds, axes=self.axes)
 
+        # check the structure before the matrices are built from the shapes.
+        detail_dicts: list[WaveletDetailDict] = []
+        for coeff_dict in coefficients[1:]:
+            if not isinstance(coeff_dict, dict) or len(coeff_dict) != 7:
+                raise ValueError(
+                    f"Unexpected detail coefficient type: {type(coeff_dict)}. Detail "
+                    "coefficients must be a dict containing 7 tensors as returned by "
+                    "MatrixWavedec3."
+                )
+            test_shape = None
+            for coeff in coeff_dict.values():
+                if test_shape is None:
+                    test_shape = coeff.shape
+                elif test_shape != coeff.shape:
+                    raise ValueError(
+                        "All coefficients on each level must have the same shape"
+                    )
+            detail_dicts.append(coeff_dict)
+
         if type(coefficients[-1]) is dict:
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
@@ -470,23 +489,8 @@ class MatrixWaverec3(object):
             )
 
         lll = coefficients[0]
-        for c_pos, coeff_dict in enumerate(coefficients[1:]):
-            if not isinstance(coeff_dict, dict) or len(coeff_dict) != 7:
-                raise ValueError(
-                    f"Unexpected detail coefficient type: {type(coeff_dict)}. Detail "
-                    "coefficients must be a dict containing 7 tensors as returned by "
-                    "MatrixWavedec3."
-                )
-            test_shape = None
-            for coeff in coeff_dict.values():
-                if test_shape is None:
-                    test_shape = coeff.shape
-                elif test_shape != coeff.shape:
-                    raise ValueError(
-                        "All coefficients on each level must have the same shape"
-                    )
-
-            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
+        for c_pos, detail_dict in enumerate(detail_dicts):
+            lll = self._cat_coeff_recursive({**detail_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
-- 
2.43.0


From 1722f037e0c2f46a8bdab2c85efd2626d1125ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 17/18] fix: orthogonality loss pads with zeros of the filters'
 dtype

---
 src/ptwt/wavelets_learnable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/wavelets_learnable.py b/src/ptwt/wavelets_learnable.py
index 2aaad82..2c4feea 100644
--- a/src/ptwt/wavelets_learnable.py
+++ b/src/ptwt/wavelets_learnable.py
@@ -240,6 +240,7 @@ class SoftOrthogonalWavelet(ProductFilter, torch.nn.Module):
                         filt_len,
                     ],
                     device=self.dec_lo.device,
+                    dtype=self.dec_lo.dtype,
                 ),
             ],
             -1,
-- 
2.43.0


From eb67fc127dfe513db0b6fea4b3c324bb0422c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:04 +0000
Subject: [PATCH 18/18] fix: fswaverec2 and fswaverec3 reject details of sizes
 which do not belong together

---
 src/ptwt/separable_conv_transform.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 17f02b5..a852d03 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -85,6 +85,9 @@ def _separable_conv_idwtn(
 
     Returns:
         A reconstruction of the original signal.
+
+    Raises:
+        ValueError: If the shapes of the coefficients do not belong together.
     """
     done_dict = {}
     a_initial_keys = list(filter(lambda x: x[0] == "a", in_dict.keys()))
@@ -93,8 +96,14 @@ def _separable_conv_idwtn(
         d_key = "d" + a_key[1:]
         coeff_d = in_dict[d_key]
         d_shape = coeff_d.shape
+        coeff_a = in_dict[a_key]
+        # analysis padding makes the approximation at most one sample longer.
+        if len(coeff_a.shape) != len(d_shape) or any(
+            a_len - d_len not in (0, 1) for a_len, d_len in zip(coeff_a.shape, d_shape)
+        ):
+            raise ValueError("The shapes of the coefficients do not belong together.")
         # undo any analysis padding.
-        coeff_a = in_dict[a_key][tuple(slice(0, ds) for ds in d_shape)]
+        coeff_a = coeff_a[tuple(slice(0, ds) for ds in d_shape)]
         trans_a, trans_d = (
             coeff.transpose(-1, -current_axis) for coeff in (coeff_a, coeff_d)
         )
-- 
2.43.0

