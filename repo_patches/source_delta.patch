From 14fd692dccea8c9197df43e17d18f0ba541b6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:36 +0000
Subject: [PATCH 01/33] fix: use boolean masks when filtering a sampled basis
 (blocks with a single basis element crashed)

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..b92b9e6 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -57,11 +57,6 @@ class SingleBlockBasisExpansion(BasisExpansion):
         # and filter out the basis elements discarded by the filter
         sampled_basis = torch.Tensor(basis.sample_masked(points, mask=mask)).permute(2, 0, 1, 3)
 
-        # DEPRECATED FROM PyTorch 1.2
-        # PyTorch 1.2 suggests using BoolTensor instead of ByteTensor for boolean indexing
-        # but BoolTensor have been introduced only in PyTorch 1.2
-        # Hence, for the moment we use ByteTensor
-        mask = mask.astype(np.uint8)
         mask = torch.tensor(mask)
 
         # normalize the basis
@@ -77,7 +72,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask] = norms
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From dd7842bacbc34b4689cce81b76d9b32c8d325dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:36 +0000
Subject: [PATCH 02/33] fix: O(2) induced representations used the removed
 numpy alias np.float

---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..06df144 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From 1e4501ed19e155d75f2f81597c3f37088aaff6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 03/33] fix: bases with reflections compared equal for
 different flip axes (sampled filters were shared between them)

---
 e2cnn/diffops/irreps_basis.py | 6 +++---
 e2cnn/kernels/irreps_basis.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..49c9d30 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -579,9 +579,9 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 9ac71ccefea2e931fa8d9ee9c6df96aa9af2ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 04/33] fix: cached differential operator bases ignored
 max_power and discretization

---
 e2cnn/diffops/basis.py         | 4 ++--
 e2cnn/gspaces/r2/general_r2.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..f34f726 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -195,7 +195,7 @@ class LaplaceProfile(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, LaplaceProfile):
-            return self.max_power == other.max_power
+            return self.max_power == other.max_power and self.disc == other.disc
         else:
             return False
 
@@ -284,7 +284,7 @@ class TensorBasis(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, TensorBasis):
-            return self.basis1 == other.basis1 and self.basis2 == other.basis2
+            return self.basis1 == other.basis1 and self.basis2 == other.basis2 and self.disc == other.disc
         else:
             return False
 
diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..29c1b6d 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -185,6 +185,8 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key["max_power"] = max_power
+        key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
         if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
-- 
2.43.0


From d865a4f28d036c024a8d4c7fe9f1d4a08006ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 05/33] fix: spaces with different flip axes compared equal

---
 e2cnn/gspaces/r2/flip2d_on_r2.py    | 2 +-
 e2cnn/gspaces/r2/fliprot2d_on_r2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/flip2d_on_r2.py b/e2cnn/gspaces/r2/flip2d_on_r2.py
index eddcbfc..cc16591 100644
--- a/e2cnn/gspaces/r2/flip2d_on_r2.py
+++ b/e2cnn/gspaces/r2/flip2d_on_r2.py
@@ -196,7 +196,7 @@ class Flip2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, Flip2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and bool(np.isclose(self.axis, other.axis))
         else:
             return False
 
diff --git a/e2cnn/gspaces/r2/fliprot2d_on_r2.py b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
index 4702c21..cbaf3fd 100644
--- a/e2cnn/gspaces/r2/fliprot2d_on_r2.py
+++ b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
@@ -295,7 +295,7 @@ class FlipRot2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, FlipRot2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and bool(np.isclose(self.axis, other.axis))
         else:
             return False
     
-- 
2.43.0


From 18aebee9c14e777a222e44db1e8eaa8994ce2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:58 +0000
Subject: [PATCH 06/33] fix: finite difference stencils were rotated by 90
 degrees with respect to the sampling grid (R2Diffop was not equivariant to
 reflections)

---
 e2cnn/diffops/basis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index f34f726..25dbbd5 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -144,6 +144,14 @@ class DiffopBasis(Basis):
                         method=self.disc.method,
                     )
 
+        if self.disc.method == "fd":
+            # the finite difference stencils are indexed by increasing x and, then, by increasing y
+            # while the points are sorted by decreasing y and, then, by increasing x
+            # (this is checked when the operators are discretized)
+            n_x, n_y = len(np.unique(points[0])), len(np.unique(points[1]))
+            basis = basis.reshape(basis.shape[:3] + (n_x, n_y))
+            basis = basis.swapaxes(3, 4)[..., ::-1, :].reshape(basis.shape[:3] + (num_points, ))
+
         # Finally, we move the len_basis axis to the third position
         basis = basis.transpose(1, 2, 0, 3)
 
-- 
2.43.0


From 81e3748f5523518d3de7637913a353fa2bb51795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:25 +0000
Subject: [PATCH 07/33] fix: predicted output shapes of the pooling layers
 (ceil_mode, average pooling, adaptive pooling)

---
 e2cnn/nn/modules/pooling/norm_max.py           | 18 ++++++++++++++----
 .../modules/pooling/pointwise_adaptive_avg.py  |  2 +-
 .../modules/pooling/pointwise_adaptive_max.py  |  2 +-
 e2cnn/nn/modules/pooling/pointwise_avg.py      | 11 ++++++++---
 e2cnn/nn/modules/pooling/pointwise_max.py      |  5 +++++
 5 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 41113a0..ff5b456 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -221,10 +221,20 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+
+        if self.ceil_mode:
+            ho = math.ceil(ho)
+            wo = math.ceil(wo)
+            # as in PyTorch, the windows starting in the right (bottom) padding are ignored
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
+        else:
+            ho = math.floor(ho)
+            wo = math.floor(wo)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
index e44d2a9..75c83fb 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return (b, self.out_type.size) + tuple(self.output_size)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
index 403b611..079a4dc 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveMaxPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return (b, self.out_type.size) + tuple(self.output_size)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..37e1484 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -101,13 +101,18 @@ class PointwiseAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+        # compute the output shape (see 'torch.nn.AvgPool2D')
+        ho = (hi + 2 * self.padding[0] - self.kernel_size[0]) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.kernel_size[1]) / self.stride[1] + 1
         
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # as in PyTorch, the windows starting in the right (bottom) padding are ignored
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..b7b8753 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -119,6 +119,11 @@ class PointwiseMaxPool(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # as in PyTorch, the windows starting in the right (bottom) padding are ignored
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
-- 
2.43.0


From 3a23219340d51a914ec12755082482d0a999e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 08/33] fix: predicted output shape of
 PointwiseMaxPoolAntialiased

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index b7b8753..a1178ea 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -240,6 +240,20 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
 
+    def evaluate_output_shape(self, input_shape: Tuple[int, int, int, int]) -> Tuple[int, int, int, int]:
+        assert len(input_shape) == 4
+        assert input_shape[1] == self.in_type.size
+
+        b, c, hi, wi = input_shape
+
+        # the max operation is evaluated densely, only the smoothing filter is strided
+        ho = hi + 2 * self.padding[0] - self.kernel_size[0] + 1
+        wo = wi + 2 * self.padding[1] - self.kernel_size[1] + 1
+        ho = (ho + 2 * self._pad[0] - self.filter.shape[2]) // self.stride[0] + 1
+        wo = (wo + 2 * self._pad[1] - self.filter.shape[3]) // self.stride[1] + 1
+
+        return b, self.out_type.size, ho, wo
+
     def export(self):
         r"""
         Export this module to a normal PyTorch :class:`torch.nn.MaxPool2d` module and set to "eval" mode.
-- 
2.43.0


From e65efbeb79de12f9285e812708094704113246bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:07 +0000
Subject: [PATCH 09/33] fix: PointwiseMaxPool.export dropped ceil_mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index a1178ea..82019ad 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -143,7 +143,7 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
-- 
2.43.0


From 78ceb38e03e03a72bba3771e4a6e53896a72faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:07 +0000
Subject: [PATCH 10/33] fix: R2Upsampling.export ignored the output size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From 156d8e693f22e92745d6d02bf84bc7b2f4953696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:07 +0000
Subject: [PATCH 11/33] fix: R2ConvTransposed.export dropped output_padding

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..2816f1a 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -369,6 +369,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From 5bb0d941027359dcfd4c80e9816dd720db3f2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:07 +0000
Subject: [PATCH 12/33] fix: export of convolutions with non-zero padding modes
 was rejected with torch >= 2.0

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..f195aa1 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -511,7 +511,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..f1f52fd 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -616,7 +616,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From bea31bab23b027fc18d1cb13f3795683bc15f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:08 +0000
Subject: [PATCH 13/33] fix: predicted output shapes of convolutions (tuple
 padding, transposed convolution)

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 5 +++--
 e2cnn/nn/modules/r2_conv/r2convolution.py             | 5 +++--
 e2cnn/nn/modules/r2_conv/r2diffop.py                  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2816f1a..e5ad11d 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -250,8 +250,9 @@ class R2ConvTransposed(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        # compute the output shape (see 'torch.nn.ConvTranspose2d')
+        ho = (hi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+        wo = (wi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index f195aa1..45afde0 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -400,8 +400,9 @@ class R2Conv(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        pad_w, pad_h = self._reversed_padding_repeated_twice[::2]
+        ho = math.floor((hi + 2 * pad_h - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pad_w - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index f1f52fd..6d610a6 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -505,8 +505,9 @@ class R2Diffop(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        pad_w, pad_h = self._reversed_padding_repeated_twice[::2]
+        ho = math.floor((hi + 2 * pad_h - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pad_w - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 512067b8a4a033ef8d3cd32cff37b56f5383712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 14/33] fix: reset_parameters of norm batch normalization
 failed with affine=False

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..4bb22d0 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.uniform_()
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From f7a5bcca3d58d6e73851504cd873ca30a3f9dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:52 +0000
Subject: [PATCH 15/33] fix: MultipleModule.evaluate_output_shape always raised
 a TypeError

---
 e2cnn/nn/modules/multiple_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..5cdb067 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From ec7a4ad7986fa8f68c76bac04c55021cea6ad387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:52 +0000
Subject: [PATCH 16/33] fix: BranchingModule rejected the documented value 3 of
 reshuffle

---
 e2cnn/nn/modules/branching_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/branching_module.py b/e2cnn/nn/modules/branching_module.py
index 339b13a..b230b21 100644
--- a/e2cnn/nn/modules/branching_module.py
+++ b/e2cnn/nn/modules/branching_module.py
@@ -63,7 +63,7 @@ class BranchingModule(EquivariantModule):
         
         assert isinstance(in_type.gspace, GeneralOnR2)
         
-        assert 0 <= reshuffle < 3
+        assert 0 <= reshuffle <= 3
         
         super(BranchingModule, self).__init__()
         
-- 
2.43.0


From d2fa028612247a3538b0d330fc2e218c23d4b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:52 +0000
Subject: [PATCH 17/33] fix: MergeModule modified the list of modules passed by
 the caller

---
 e2cnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..d154748 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -41,6 +41,9 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        # do not modify the list passed by the caller
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
-- 
2.43.0


From ea8a1aca228c3aa9a34a4d3bf5ba77a2dad5f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:52 +0000
Subject: [PATCH 18/33] fix: MergeModule failed when its first module has
 multiple inputs

---
 e2cnn/nn/modules/merge_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index d154748..7099a2b 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -55,7 +55,8 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        in_type = modules[0][0].in_type
+        self.gspace = in_type[0].gspace if isinstance(in_type, tuple) else in_type.gspace
         
         out_repr = []
         
-- 
2.43.0


From e1a4554588ced999899f511821d97abe0ae12ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 19/33] fix: GeometricTensor.split modified the list of breaks
 passed by the caller

---
 e2cnn/nn/geometric_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..2a3c708 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,7 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From 5eae1b92046c1cf51ee9989a315a128174db3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 20/33] fix: indexing a GeometricTensor with an out of range
 integer returned other entries

---
 e2cnn/nn/geometric_tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 2a3c708..7359289 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -470,6 +470,8 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
+                if idx < -idx_max[i]:
+                    raise IndexError(f"index {idx} is out of bounds for dimension {i} with size {idx_max[i]}")
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
-- 
2.43.0


From 9b600c983b61209882ab1499540667cac673b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 21/33] fix: slicing the fields of a GeometricTensor beyond the
 last field raised an IndexError

---
 e2cnn/nn/geometric_tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 7359289..1c64f0b 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -488,8 +488,7 @@ class GeometricTensor:
             # contiguous slice over the channels.
             # The slice will start from the first channel of the first field and will stop at the last channel
             # of the last field
-            start = expanded_idxs[1].start if expanded_idxs[1].start is not None else 0
-            stop = expanded_idxs[1].stop if expanded_idxs[1].stop is not None else len(self.type)
+            start, stop, _ = expanded_idxs[1].indices(len(self.type))
             channel_idxs = slice(
                 self.type.fields_start[start],
                 self.type.fields_end[stop-1],
-- 
2.43.0


From e691afaecc7146f664e088f59cc8349eb486081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 22/33] fix: FieldType shared the caller's list of
 representations

---
 e2cnn/nn/field_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index da617b9..1afda76 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -74,7 +74,7 @@ class FieldType:
         self.gspace = gspace
         
         # list: List of representations of each feature field composing the feature space of this type
-        self.representations = representations
+        self.representations = list(representations)
         
         # int: size of the field associated to this type.
         # as the representation associated to the field is the direct sum of the representations
-- 
2.43.0


From 0305aaad15aad39f12384b2ba71e0403f34e8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 23/33] fix: comparing representations with the same name and
 different sizes raised a ValueError

---
 e2cnn/group/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..19b2f48 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -331,8 +331,8 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
-                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
+                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.supported_nonlinearities == other.supported_nonlinearities)
     
     def __repr__(self) -> str:
-- 
2.43.0


From 188c08039c29204d0000169933fb39c04516ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 24/33] fix: cached bases were shared between different
 representations with the same name

---
 e2cnn/gspaces/r2/general_r2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index 29c1b6d..e59619b 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -114,16 +114,16 @@ class GeneralOnR2(GSpace):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def build_diffop_basis(self,
                            in_repr: Representation,
@@ -189,16 +189,16 @@ class GeneralOnR2(GSpace):
         key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._diffop_basis_generator(in_repr, out_repr, max_power, discretization, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
     
     @abstractmethod
     def _basis_generator(self,
-- 
2.43.0


From 864821b5d12a80ad935221b8c12e60be87b862da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:44 +0000
Subject: [PATCH 25/33] fix: direct sums in different bases had the same
 default name (layers mixed them up)

---
 e2cnn/group/representation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 19b2f48..85cbd76 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -10,6 +10,7 @@ from typing import Callable, Any, List, Tuple, Dict, Union, Set
 import numpy as np
 import scipy as sp
 import math
+import hashlib
 from scipy.sparse.csgraph import connected_components
 
 
@@ -441,6 +442,9 @@ def directsum(reprs: List[e2cnn.group.Representation],
     
     if name is None:
         name = "_".join([f"[{r.name}]" for r in reprs])
+        if change_of_basis is not None:
+            # representations are identified by their names: different bases need different names
+            name += "_" + hashlib.md5((np.round(change_of_basis, 6) + 0.).tobytes()).hexdigest()
     
     irreps = []
     for r in reprs:
-- 
2.43.0


From 5f102f602bccef1cf86a76a67a2b132d149ec889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:28 +0000
Subject: [PATCH 26/33] fix: FieldDropout(inplace=True) did nothing on fields
 which are not contiguous

---
 e2cnn/nn/modules/dropout/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..dbd7273 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -155,9 +155,12 @@ class FieldDropout(EquivariantModule):
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                 if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                     output[:, indices, ...] = out.view(shape)
+                else:
+                    # advanced indexing returned a copy of these fields: write the result back
+                    input[:, indices, ...] = out.view(shape)
             
         if self.inplace:
             output = input
-- 
2.43.0


From cec472158aff4c6a09efe53f05831f55ca5085ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:28 +0000
Subject: [PATCH 27/33] fix: FieldDropout returned NaN for p=1

---
 e2cnn/nn/modules/dropout/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index dbd7273..62db7b7 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -32,11 +32,14 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
         mask = mask.uniform_() > p
         mask = mask.to(torch.float)
         
+        # rescaling of the fields which are kept (none if p=1)
+        scale = 1. / (1. - p) if p < 1 else 0.
+        
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask * scale
             return input
         else:
-            return input * mask / (1. - p)
+            return input * mask * scale
     else:
         return input
 
-- 
2.43.0


From 85d00b3adc5c66c46135b3d17a9d4f3130d3a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:27 +0000
Subject: [PATCH 28/33] fix: rotations by multiples of 90 degrees were
 interpolated because of rounding errors in the angle

---
 e2cnn/gspaces/r2/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index 126bfef..c2d3f93 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -6,11 +6,12 @@ from scipy.ndimage import rotate
 
 def rotate_array(x, angle):
     k = 2 * angle / np.pi
-    if k.is_integer():
+    # the angle can be affected by rounding errors
+    if abs(k - round(k)) < 1e-9:
         # Rotations by 180 and 270 degrees seem to be not perfect using `ndimage.rotate` and can therefore
         # make some tests fail.
         # For this reason, we use `np.rot90` to perform rotations by multiples of 90 degrees without interpolation
-        return np.rot90(x, k, axes=(-2, -1))
+        return np.rot90(x, int(round(k)), axes=(-2, -1))
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
-- 
2.43.0


From b7f864b0860c91f8e6bbfe24b337ce6ca0c3cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 29/33] fix: SO(2) and O(2) subgroup() mapped angles outside
 [0, 2pi) to invalid elements of the discrete subgroup

---
 e2cnn/group/groups/o2group.py  | 4 ++--
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 06df144..f57885d 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -209,7 +209,7 @@ class O2(Group):
                 # child_mapping = lambda e, order=order: None if (e[0] != 0 or not divides(2.*np.pi/order, e[1])) else \
                 #                                        int(round(e[1] * order / (2.*np.pi)))
                 child_mapping = lambda e, order=order: None if (e[0] != 0 or not utils.cycle_isclose(e[1], 0., 2.*np.pi/order)) else \
-                    int(round(e[1] * order / (2.*np.pi)))
+                    int(round(e[1] * order / (2.*np.pi))) % order
 
             elif id[0] is not None and id[1] > 1:
                 # take the elements of the group generated by "2pi/order" and "2pi/k f"
@@ -217,7 +217,7 @@ class O2(Group):
 
                 parent_mapping = lambda e, order=order, axis=axis: (e[0], e[1] * 2. * np.pi / order + e[0]*axis)
                 child_mapping = lambda e, order=order, axis=axis: None if not utils.cycle_isclose(e[1] - e[0]*axis, 0., 2.*np.pi/order) else \
-                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))))
+                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))) % order)
             else:
                 raise ValueError(f"id '{id}' not recognized")
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..db9755b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -143,7 +143,7 @@ class SO2(Group):
             sg = CyclicGroup(order)
             parent_mapping = lambda e, order=order: e*2*np.pi/order
             # child_mapping = lambda e, order=order: None if divmod(e, 2.*np.pi/order)[1] > 1e-15 else int(round(e * order / (2.*np.pi)))
-            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi)))
+            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi))) % order
 
             self._subgroups[id] = sg, parent_mapping, child_mapping
     
-- 
2.43.0


From dd8c38930831e04d027a8bedb88dc041fb335c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:32 +0000
Subject: [PATCH 30/33] fix: kernel and diffop bases between 1-dimensional
 irreps with only a maximum offset contained dependent elements or missed
 solutions

---
 e2cnn/diffops/irreps_basis.py | 4 ++--
 e2cnn/kernels/irreps_basis.py | 4 ++--
 e2cnn/kernels/utils.py        | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 49c9d30..f04f55a 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -262,7 +262,7 @@ class R2DiscreteRotationsSolution(DiffopBasis):
 
             for invert in range(2):
 
-                k = self.m - self.n
+                k = abs(self.m - self.n)
 
                 # for each available frequency offset, build the corresponding basis vector
                 for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
@@ -492,7 +492,7 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
             
             self.invert = ((self.fi + self.fo) % 2)
             
-            k = self.m - self.n
+            k = abs(self.m - self.n)
             
             # for each available frequency offset, build the corresponding basis vector
             for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index 493ee43..28fb4e0 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -329,7 +329,7 @@ class R2DiscreteRotationsSolution(IrrepBasis):
 
             for gamma in [0., np.pi / 2]:
         
-                k = self.m - self.n
+                k = abs(self.m - self.n)
         
                 # for each available frequency offset, build the corresponding basis vector
                 for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
@@ -776,7 +776,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
             self.gamma = ((self.fi + self.fo) % 2) * np.pi/2
             mus = []
             
-            k = self.m - self.n
+            k = abs(self.m - self.n)
             
             # for each available frequency offset, build the corresponding basis vector
             for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
diff --git a/e2cnn/kernels/utils.py b/e2cnn/kernels/utils.py
index 37c19a4..cbbf078 100644
--- a/e2cnn/kernels/utils.py
+++ b/e2cnn/kernels/utils.py
@@ -34,7 +34,7 @@ def offset_iterator(base_frequency, N, maximum_offset=None, maximum_frequency=No
             min_offset = (minimum_frequency - base_frequency) / N
             max_offset = (maximum_frequency - base_frequency) / N
         else:
-            min_offset = -10000
+            min_offset = -base_frequency / N if non_negative else -10000
             max_offset = 10000
             
         if maximum_offset is not None:
-- 
2.43.0


From adba708eb89179bf96d741272e104da8b6ec87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:57 +0000
Subject: [PATCH 31/33] fix: layers with equal filters shared one buffer, so
 casting or loading one of them changed the others

---
 .../nn/modules/r2_conv/basisexpansion_singleblock.py  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index b92b9e6..796b1c9 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -4,6 +4,8 @@ from .basisexpansion import BasisExpansion
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
+
 import torch
 import numpy as np
 
@@ -127,6 +129,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         if isinstance(other, SingleBlockBasisExpansion):
             return (
                     self.basis == other.basis and
+                    self.sampled_basis.shape == other.sampled_basis.shape and
                     torch.allclose(self.sampled_basis, other.sampled_basis) and
                     (self._mask == other._mask).all()
             )
@@ -134,7 +137,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
             return False
 
     def __hash__(self):
-        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis) + hash(self._mask)
+        return 10000 * hash(self.basis) + hash(self._mask.numpy().tobytes())
 
 
 # dictionary storing references to already built basis tensors
@@ -174,7 +177,11 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        return _stored_filters[key]
+        # each layer gets its own copy of the buffers: casting, moving or loading the state of a layer should not
+        # affect the stored tensors nor the other layers using them
+        expansion = copy.copy(_stored_filters[key])
+        expansion._buffers = {name: buffer.clone() for name, buffer in expansion._buffers.items()}
+        return expansion
     
     else:
         return SingleBlockBasisExpansion(basis, points, basis_filter)
-- 
2.43.0


From 0f8acfb3f28a4dc6683179e9897abd898212102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:41 +0000
Subject: [PATCH 32/33] fix: comparing bases of different dimension raised an
 error

---
 e2cnn/diffops/irreps_basis.py | 10 ++++++++++
 e2cnn/kernels/basis.py        |  2 +-
 e2cnn/kernels/irreps_basis.py | 10 ++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index f04f55a..ff2b11f 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -125,6 +125,8 @@ class R2FlipsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         else:
@@ -349,6 +351,8 @@ class R2DiscreteRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2DiscreteRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -581,6 +585,8 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -728,6 +734,8 @@ class R2ContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2ContinuousRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -888,6 +896,8 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
diff --git a/e2cnn/kernels/basis.py b/e2cnn/kernels/basis.py
index edd6cbc..a11d604 100644
--- a/e2cnn/kernels/basis.py
+++ b/e2cnn/kernels/basis.py
@@ -220,7 +220,7 @@ class GaussianRadialProfile(KernelBasis):
 
     def __eq__(self, other):
         if isinstance(other, GaussianRadialProfile):
-            return np.allclose(self.radii, other.radii) and np.allclose(self.sigma, other.sigma)
+            return self.dim == other.dim and np.allclose(self.radii, other.radii) and np.allclose(self.sigma, other.sigma)
         else:
             return False
     
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index 28fb4e0..9d6a465 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -174,6 +174,8 @@ class R2FlipsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         else:
@@ -434,6 +436,8 @@ class R2DiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2DiscreteRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -623,6 +627,8 @@ class R2ContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2ContinuousRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -881,6 +887,8 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -1063,6 +1071,8 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
-- 
2.43.0


From 70a10afcf48398471a254ad2580a95cf0dd5f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:38 +0000
Subject: [PATCH 33/33] fix: the indices of non contiguous blocks own their
 memory, so that a state dict can be loaded

meshgrid() returns expanded views: when one of the two ranges has a single
element, the registered buffer had stride 0 and load_state_dict() failed
---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 21e7b20..ba58993 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -138,8 +138,8 @@ class BlocksBasisExpansion(BasisExpansion):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]])
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-- 
2.43.0

