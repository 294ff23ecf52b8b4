From d0f9877e61d8b3bf85c3445b9350cc0bc2bcac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 01/26] fix: keep the vector SHT normalisation factor in double
 precision

---
 torch_harmonics/distributed/distributed_sht.py | 2 +-
 torch_harmonics/sht.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_sht.py b/torch_harmonics/distributed/distributed_sht.py
index d7015a0..d08e002 100644
--- a/torch_harmonics/distributed/distributed_sht.py
+++ b/torch_harmonics/distributed/distributed_sht.py
@@ -479,7 +479,7 @@ class DistributedRealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor)
diff --git a/torch_harmonics/sht.py b/torch_harmonics/sht.py
index 0802fda..ee11d04 100644
--- a/torch_harmonics/sht.py
+++ b/torch_harmonics/sht.py
@@ -438,7 +438,7 @@ class RealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor).contiguous()
-- 
2.43.0


From 5995adfc3780d125cc2f551119b1d334b698f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:23 +0000
Subject: [PATCH 02/26] fix: use spherical interpolation for negative angular
 differences in bilinear-spherical resampling

---
 torch_harmonics/distributed/distributed_resample.py | 8 ++++----
 torch_harmonics/resample.py                         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 3a66099..6fbde2a 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +204,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 45364de..da553b9 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +212,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From 50e5d1ddfb6b4cc5635292c8a3fb6c21fde0c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:37 +0000
Subject: [PATCH 03/26] fix: avoid NaN gradients of bilinear-spherical
 resampling where neighbours coincide

---
 .../distributed/distributed_resample.py            | 14 ++++++++++----
 torch_harmonics/resample.py                        | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 6fbde2a..b8ccfe3 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            is_arc = torch.abs(somega) > 1e-4
+            # keep the unused branch finite, otherwise its gradient is NaN
+            somega = torch.where(is_arc, somega, torch.ones_like(somega))
+            start_prefac = torch.where(is_arc, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(is_arc, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +207,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            is_arc = torch.abs(somega) > 1e-4
+            # keep the unused branch finite, otherwise its gradient is NaN
+            somega = torch.where(is_arc, somega, torch.ones_like(somega))
+            start_prefac = torch.where(is_arc, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(is_arc, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index da553b9..98dff65 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            is_arc = torch.abs(somega) > 1e-4
+            # keep the unused branch finite, otherwise its gradient is NaN
+            somega = torch.where(is_arc, somega, torch.ones_like(somega))
+            start_prefac = torch.where(is_arc, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(is_arc, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +215,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            is_arc = torch.abs(somega) > 1e-4
+            # keep the unused branch finite, otherwise its gradient is NaN
+            somega = torch.where(is_arc, somega, torch.ones_like(somega))
+            start_prefac = torch.where(is_arc, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(is_arc, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From fe93dc82373861f4bbfbb7fcc99bc4c3bc738e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 04/26] fix: QuadratureS2 output keeps the documented shape for
 inputs with fewer than two leading dimensions

---
 torch_harmonics/distributed/distributed_quadrature.py | 2 +-
 torch_harmonics/quadrature.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 497798c..8b14bd8 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -130,7 +130,7 @@ class DistributedQuadratureS2(torch.nn.Module):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
         if self.comm_size_polar > 1:
             quad = reduce_from_polar_region(quad)
         if self.comm_size_azimuth > 1:
diff --git a/torch_harmonics/quadrature.py b/torch_harmonics/quadrature.py
index d998189..828b3ef 100644
--- a/torch_harmonics/quadrature.py
+++ b/torch_harmonics/quadrature.py
@@ -458,6 +458,6 @@ class QuadratureS2(torch.nn.Module):
             Integral of shape ``(...)`` (the input with its last two dimensions reduced).
         """
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
 
         return quad
-- 
2.43.0


From 2b61c598c9c7cd39267e4ec1d8818fcb3bb0106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:04 +0000
Subject: [PATCH 05/26] fix: reference DISCO contraction must compare
 longitudes with longitudes

---
 torch_harmonics/disco/kernels_torch/disco_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/kernels_torch/disco_torch.py b/torch_harmonics/disco/kernels_torch/disco_torch.py
index 0a2b04d..735fc13 100644
--- a/torch_harmonics/disco/kernels_torch/disco_torch.py
+++ b/torch_harmonics/disco/kernels_torch/disco_torch.py
@@ -62,7 +62,7 @@ def _disco_s2_contraction_torch(x: torch.Tensor, psi: torch.Tensor, nlon_out: in
 
     torch._check(psi.shape[-1] == nlat_in * nlon_in, lambda: f"Expected psi.shape[-1]=={nlat_in * nlon_in}, got {psi.shape[-1]}")
     torch._check(nlon_in % nlon_out == 0, lambda: f"nlon_in ({nlon_in}) must be an integer multiple of nlon_out ({nlon_out})")
-    torch._check(nlon_in >= nlat_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlat_out ({nlat_out})")
+    torch._check(nlon_in >= nlon_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlon_out ({nlon_out})")
     pscale = nlon_in // nlon_out
 
     # add a dummy dimension for nkernel and move the batch and channel dims to the end
-- 
2.43.0


From 777b577001a160d83f449ec083ba51a9e31c50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:57 +0000
Subject: [PATCH 06/26] fix: evaluate Zernike factorials in double precision

---
 torch_harmonics/filter_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 2454c58..44ce37f 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -57,7 +57,7 @@ def _circle_dist(x1: torch.Tensor, x2: torch.Tensor):
 
 
 def _log_factorial(x: torch.Tensor):
-    return torch.lgamma(x + 1)
+    return torch.lgamma(x.to(torch.float64) + 1)
 
 
 def _factorial(x: torch.Tensor):
-- 
2.43.0


From e1addf98e2633e2285b9b04e620435e12998d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:19 +0000
Subject: [PATCH 07/26] fix: do not merge psi rows of consecutive basis
 functions that share an output latitude

---
 torch_harmonics/disco/optimized/disco_helpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 7adc716..ca76bf6 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -85,7 +85,8 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-        if (row_h[i - 1] == row_h[i]) continue;
+        // a new row starts when either the output latitude or the basis function changes
+        if (row_h[i - 1] == row_h[i] && ker_h[i - 1] == ker_h[i]) continue;
         roff_h[nrows++] = i;
 
         if (nrows > Ho * K) {
-- 
2.43.0


From 751552391ffa6de6ba708a50a3decddbef74878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:19 +0000
Subject: [PATCH 08/26] fix: Zernike filters with an output latitude that has
 no input point in their support

---
 torch_harmonics/filter_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 44ce37f..f15d4b8 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -434,7 +434,7 @@ class ZernikeFilterBasis(FilterBasis):
 
         out = torch.zeros_like(r)
         bound = (n - m) // 2 + 1
-        max_bound = bound.max().item()
+        max_bound = bound.max().item() if bound.numel() > 0 else 0
 
         for k in range(max_bound):
 
-- 
2.43.0


From dcd9771c671e4050acc2286772c6d7659c2124d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:05 +0000
Subject: [PATCH 09/26] fix: empty psi must not report a row (out-of-bounds
 read in the DISCO kernels)

---
 torch_harmonics/disco/optimized/disco_helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index ca76bf6..43f2847 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -81,7 +81,7 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     delete[] val_sort;
 
     // compute rows offsets
-    nrows = 1;
+    nrows = (nnz > 0) ? 1 : 0;
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-- 
2.43.0


From df331f7800a971841de2a6b9f3787c587099e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 10/26] fix: reference neighborhood attention returned NaN when
 all scores are strongly negative

---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 694fdf3..1f7dbe7 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -92,7 +92,7 @@ def _neighborhood_s2_attention_fwd_torch(
         for wo in range(nlon_out):
 
             alpha_sum = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
-            qdotk_max = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
+            qdotk_max = torch.full((y.shape[0],), float("-inf"), dtype=y.dtype, device=y.device)
 
             for idz in range(zstart, zend):
                 nz_col_idx = col_idx[idz]
-- 
2.43.0


From 8ce45465161a3f98223f0358d545b4da5fe89f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:30 +0000
Subject: [PATCH 11/26] fix: distributed reductions dropped imaginary parts and
 narrowed fp64 to fp32

---
 torch_harmonics/distributed/primitives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index af9841f..d642122 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -357,7 +357,8 @@ def _reduce(input_, use_fp32=True, group=None):
     # dist.all_reduce is in-place on its tensor argument; the .clone() forces a fresh
     # buffer so we never mutate the caller's tensor (which would alias an autograd-
     # tracked value when the input is fp32 + contiguous).
-    if use_fp32:
+    if use_fp32 and input_.dtype in (torch.float16, torch.bfloat16):
+        # only widen: fp64 must not be narrowed and complex values must not lose their imaginary part
         dtype = input_.dtype
         inputf_ = input_.float().contiguous().clone()
         dist.all_reduce(inputf_, group=group)
@@ -464,7 +465,8 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
     is_even = min(orig_shapes) == max_chunk
 
     dtype = input_.dtype
-    work_dtype = torch.float32 if (use_fp32 and dtype != torch.float32) else dtype
+    # only widen: fp64 must not be narrowed and complex values must not lose their imaginary part
+    work_dtype = torch.float32 if (use_fp32 and dtype in (torch.float16, torch.bfloat16)) else dtype
 
     if is_even:
         # Fast path: all chunks the same size; call reduce_scatter directly.
-- 
2.43.0


From 7bdf4735ad61b992c0a88e0bd99854bb310c6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:27 +0000
Subject: [PATCH 12/26] fix: refuse latitude halos wider than a polar shard in
 distributed attention

---
 torch_harmonics/distributed/distributed_attention.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index 60a5409..e4c5363 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -958,6 +958,16 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
             # Use the lat_out_lo of our polar rank to compute ho_global.
             self.r_lat = self._compute_r_lat()
 
+        # The halo exchange only talks to the immediate polar neighbours, so the halo
+        # must not be wider than any rank's latitude shard. r_lat and the shard sizes
+        # are identical on all ranks, hence so is the decision to raise.
+        if self.comm_size_polar > 1 and self.r_lat > min(self.lat_in_shapes):
+            raise ValueError(
+                f"DistributedNeighborhoodAttentionS2: the neighborhood requires a latitude halo of {self.r_lat} rows, "
+                f"but the smallest polar shard only has {min(self.lat_in_shapes)} rows. "
+                f"Reduce theta_cutoff or the number of polar ranks."
+            )
+
     # -----------------------------------------------------------------------
 
     def _build_local_psi(self):
-- 
2.43.0


From 28fc5aeb6645593ec759f8370ab3f2e4b45e2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:27 +0000
Subject: [PATCH 13/26] fix: polar_halo_exchange with an empty halo sent the
 whole shard

---
 torch_harmonics/distributed/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index d642122..27c77b2 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -1039,7 +1039,7 @@ class _PolarHaloExchangeFn(torch.autograd.Function):
     @torch.amp.custom_fwd(device_type="cuda")
     def forward(x, r_lat):
 
-        if not is_distributed_polar():
+        if not is_distributed_polar() or r_lat == 0:
             return x
 
         group_size = polar_group_size()
@@ -1089,7 +1089,7 @@ class _PolarHaloExchangeFn(torch.autograd.Function):
     @torch.amp.custom_bwd(device_type="cuda")
     def backward(ctx, dout):
 
-        if not is_distributed_polar():
+        if not is_distributed_polar() or ctx.r_lat == 0:
             return dout, None
 
         r_lat = ctx.r_lat
-- 
2.43.0


From 5f74b653b0d2fb03e554bb0e09841c4bac71c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 14/26] fix: distributed DISCO filter tensors with a single
 local entry collapsed to 0-d

---
 torch_harmonics/distributed/distributed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b9b6e52..0d03da5 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -110,7 +110,7 @@ def _split_distributed_convolution_tensor_s2(
     # once normalization is done we can throw away the entries which correspond to input latitudes we do not care about
     lats = idx[2] // nlon_in
     lons = idx[2] % nlon_in
-    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze()
+    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).flatten()
     vals = vals[ilats]
     # for the indices we need to recompute them to refer to local indices of the input tenor
     idx = torch.stack([idx[0, ilats], idx[1, ilats], (lats[ilats] - start_idx) * nlon_in + lons[ilats]], dim=0)
-- 
2.43.0


From 5d550bba1433fde514c4b4effc2780b3f7703cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 15/26] fix: distributed DISCO layers silently accepted
 longitude counts the serial layers refuse

---
 torch_harmonics/distributed/distributed_convolution.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index 0d03da5..b71b478 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -225,6 +225,9 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        if self.nlon_in % self.nlon_out != 0:
+            raise ValueError(f"nlon_in ({self.nlon_in}) must be an integer multiple of nlon_out ({self.nlon_out}) for the DISCO p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
@@ -506,6 +509,9 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        if self.nlon_out % self.nlon_in != 0:
+            raise ValueError(f"nlon_out ({self.nlon_out}) must be an integer multiple of nlon_in ({self.nlon_in}) for the DISCO transpose p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
-- 
2.43.0


From c32990e2aa9b79508cacba21d95907472e3aff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:51 +0000
Subject: [PATCH 16/26] fix: distributed spectral convolution rescaled the
 first local degree on every polar rank

---
 .../distributed/distributed_spectral_convolution.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 2dc1160..9c325ad 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -180,7 +180,9 @@ class DistributedSpectralConvS2(nn.Module):
         # Compute scaling factor for correct initialization
         scale = math.sqrt(1.0 / (in_channels // num_groups)) * torch.ones(self.lmax_local, dtype=torch.complex64)
         # seemingly the first weight is not really complex, so we need to account for that
-        scale[0] *= math.sqrt(2.0)
+        # (only the rank which owns l=0 holds that weight)
+        if self.comm_rank_polar == 0:
+            scale[0] *= math.sqrt(2.0)
         self.weight = nn.Parameter(scale * torch.randn(*weight_shape, dtype=torch.complex64))
 
         if bias:
-- 
2.43.0


From bc11e9a29c3970a5e72b90c2c16f089e9a1bcf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:43 +0000
Subject: [PATCH 17/26] fix: an interrupted or concurrent MOLA download left an
 incomplete file in the cache

---
 torch_harmonics/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/utils.py b/torch_harmonics/utils.py
index 1b3dce8..c5f2632 100644
--- a/torch_harmonics/utils.py
+++ b/torch_harmonics/utils.py
@@ -32,6 +32,7 @@
 import os
 import tempfile
 import urllib.request
+import uuid
 from typing import Optional
 
 import numpy as np
@@ -79,8 +80,16 @@ def load_mola_elevation(
 
     if not os.path.exists(path):
         req = urllib.request.Request(_MOLA_URL, headers={"User-Agent": "torch-harmonics"})
-        with urllib.request.urlopen(req) as resp, open(path, "wb") as f:
-            f.write(resp.read())
+        # write to a temporary file first, so that an interrupted download or a concurrent
+        # reader never sees an incomplete file under the cached name
+        tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            with urllib.request.urlopen(req) as resp, open(tmp_path, "wb") as f:
+                f.write(resp.read())
+            os.replace(tmp_path, path)
+        finally:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
 
     img = np.array(Image.open(path).convert("L"), dtype=np.float32) / 255.0
     data = torch.from_numpy(img)
-- 
2.43.0


From 8af262ad672ae90209462d67d95cf1ef4f170847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:33 +0000
Subject: [PATCH 18/26] fix: neighborhood attention modules could not be
 deep-copied or pickled

---
 torch_harmonics/attention/attention.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index fed66b5..74fbcc9 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -445,10 +445,10 @@ class NeighborhoodAttentionS2(nn.Module):
             self.q_norm_weights = None
             self.k_norm_weights = None
 
-        if self.optimized_kernel:
-            self.attention_handle = _neighborhood_s2_attention_optimized
-        else:
-            self.attention_handle = _neighborhood_s2_attention_torch
+    @property
+    def attention_handle(self):
+        # resolved on access: custom ops cannot be pickled or deep-copied, so they must not be stored on the module
+        return _neighborhood_s2_attention_optimized if self.optimized_kernel else _neighborhood_s2_attention_torch
 
     def extra_repr(self):
         return f"in_shape={(self.nlat_in, self.nlon_in)}, out_shape={(self.nlat_out, self.nlon_out)}, in_channels={self.in_channels}, out_channels={self.out_channels}, k_channels={self.k_channels}, theta_cutoff={self.theta_cutoff}"
-- 
2.43.0


From 60acdf6bd15c9694b6541e4bb56993d92768d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:09 +0000
Subject: [PATCH 19/26] fix: resampling from a single meridian gave NaN (zero
 longitude spacing)

---
 torch_harmonics/distributed/distributed_resample.py | 2 +-
 torch_harmonics/resample.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index b8ccfe3..a282796 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -144,7 +144,7 @@ class DistributedResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 98dff65..f396e0e 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -168,7 +168,7 @@ class ResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
-- 
2.43.0


From a26ec5447c4a1334908bee101feb9be9c8d5f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:03 +0000
Subject: [PATCH 20/26] fix: DISCO convolutions read out of bounds for signals
 on another grid

---
 torch_harmonics/disco/convolution.py             | 16 ++++++++++++++++
 .../distributed/distributed_convolution.py       |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/torch_harmonics/disco/convolution.py b/torch_harmonics/disco/convolution.py
index 04fe534..0e83367 100644
--- a/torch_harmonics/disco/convolution.py
+++ b/torch_harmonics/disco/convolution.py
@@ -393,6 +393,18 @@ def _precompute_convolution_tensor_s2(
     return out_idx, out_vals, out_roff
 
 
+def _check_grid(x: torch.Tensor, nlat: int, nlon: int) -> None:
+    """
+    Check that a signal lives on the grid its filter tensor was computed for.
+
+    The kernels index the signal with the latitudes and longitudes stored in psi and
+    do not check them against its extents, so a signal on another grid would be read
+    out of bounds or convolved with the wrong filters.
+    """
+    torch._check(x.shape[-2] == nlat, lambda: f"Expected latitudes shape[-2] == {nlat}")
+    torch._check(x.shape[-1] == nlon, lambda: f"Expected longitudes shape[-1] == {nlon}")
+
+
 class DiscreteContinuousConv(nn.Module, metaclass=abc.ABCMeta):
     """
     Abstract base class for discrete-continuous convolutions
@@ -692,6 +704,8 @@ class DiscreteContinuousConvS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        _check_grid(x, self.nlat_in, self.nlon_in)
+
         weight_r = self.weight.reshape(self.groups, self.out_per_group, self.weight.shape[1], self.weight.shape[2])
         kpacked_dtype = x.dtype
         if x.is_cuda and torch.is_autocast_enabled("cuda"):
@@ -986,6 +1000,8 @@ class DiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        _check_grid(x, self.nlat_in, self.nlon_in)
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b71b478..e2f6355 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -38,6 +38,7 @@ from disco_helpers import optimized_kernels_is_available, pack_psi_dense, prepro
 from torch_harmonics.disco._disco_utils import _get_psi
 from torch_harmonics.disco.convolution import (
     DiscreteContinuousConv,
+    _check_grid,
     _kpacked_device_supported_for_tensor,
     _precompute_convolution_tensor_s2,
 )
@@ -377,6 +378,8 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         return result
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        _check_grid(x, self.lat_in_shapes[self.comm_rank_polar], self.lon_in_shapes[self.comm_rank_azimuth])
+
         if self.fused:
             # reordered a2a: einsum-first on the local channel shard via the
             # fused conv op (K-expanded recomputed in backward, not saved).
@@ -600,6 +603,7 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
         return torch.stack([self.psi_ker_idx, self.psi_row_idx, self.psi_col_idx], dim=0).contiguous()
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        _check_grid(x, self.lat_in_shapes[self.comm_rank_polar], self.lon_in_shapes[self.comm_rank_azimuth])
 
         # extract shape
         B, C, H, W = x.shape
-- 
2.43.0


From e16e3e91c67976f9aab75a5cc241c3ae28a58cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:03 +0000
Subject: [PATCH 21/26] fix: ResampleS2 silently interpolated signals on
 another grid

---
 torch_harmonics/distributed/distributed_resample.py | 5 +++++
 torch_harmonics/resample.py                         | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index a282796..3af2541 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -218,6 +218,11 @@ class DistributedResampleS2(nn.Module):
 
     def forward(self, x: torch.Tensor):
 
+        nlat_in_local = self.lat_in_shapes[self.comm_rank_polar]
+        nlon_in_local = self.lon_in_shapes[self.comm_rank_azimuth]
+        torch._check(x.shape[-2] == nlat_in_local, lambda: f"Expected latitudes shape[-2] == {nlat_in_local}")
+        torch._check(x.shape[-1] == nlon_in_local, lambda: f"Expected longitudes shape[-1] == {nlon_in_local}")
+
         if self.skip_resampling:
             return x
 
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index f396e0e..7900a25 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -240,6 +240,10 @@ class ResampleS2(nn.Module):
         torch.Tensor
             Resampled signal of shape ``(..., nlat_out, nlon_out)``.
         """
+        nlat_in, nlon_in = self.nlat_in, self.nlon_in
+        torch._check(x.shape[-2] == nlat_in, lambda: f"Expected latitudes shape[-2] == {nlat_in}")
+        torch._check(x.shape[-1] == nlon_in, lambda: f"Expected longitudes shape[-1] == {nlon_in}")
+
         if self.skip_resampling:
             return x
 
-- 
2.43.0


From 6e4223eed640e27dca2ff5b0e955feba744dbd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:03 +0000
Subject: [PATCH 22/26] fix: SpectralConvS2 silently broadcast a wrong number
 of channels

---
 .../distributed/distributed_spectral_convolution.py           | 4 ++++
 torch_harmonics/spectral_convolution.py                       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 9c325ad..866a151 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -195,6 +195,10 @@ class DistributedSpectralConvS2(nn.Module):
         return resc
 
     def forward(self, x):
+        # the contraction broadcasts, so a wrong number of channels would go unnoticed
+        in_channels = self.in_channels
+        torch._check(x.shape[1] == in_channels, lambda: f"Expected channels shape[1] == {in_channels}")
+
         dtype = x.dtype
 
         # compute integral in case if bias is used
diff --git a/torch_harmonics/spectral_convolution.py b/torch_harmonics/spectral_convolution.py
index abeffd3..f6256c1 100644
--- a/torch_harmonics/spectral_convolution.py
+++ b/torch_harmonics/spectral_convolution.py
@@ -214,6 +214,10 @@ class SpectralConvS2(nn.Module):
         torch.Tensor
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
+        # the contraction broadcasts, so a wrong number of channels would go unnoticed
+        in_channels = self.in_channels
+        torch._check(x.shape[1] == in_channels, lambda: f"Expected channels shape[1] == {in_channels}")
+
         dtype = x.dtype
 
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
-- 
2.43.0


From bb720d745cb16f8314918ecb3c2c5826247fb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:03 +0000
Subject: [PATCH 23/26] fix: AttentionS2 accepted signals on another grid with
 the same number of points

---
 torch_harmonics/attention/attention.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index 74fbcc9..47191d3 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -202,6 +202,12 @@ class AttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        _check_extent(query, -2, self.nlat_out, "query latitudes")
+        _check_extent(query, -1, self.nlon_out, "query longitudes")
+        _check_extent(key, -2, self.nlat_in, "key latitudes")
+        _check_extent(key, -1, self.nlon_in, "key longitudes")
+        _check_extent(value, -2, self.nlat_in, "value latitudes")
+        _check_extent(value, -1, self.nlon_in, "value longitudes")
 
         # perform QKV projections
         query = nn.functional.conv2d(query, self.q_weights, bias=self.q_bias)
-- 
2.43.0


From 9ce76f00ba4f3e66d0008cf8ed414fdc395b19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:03 +0000
Subject: [PATCH 24/26] fix: optimized neighborhood attention read out of
 bounds for differing batch sizes

---
 torch_harmonics/attention/_attention_utils.py       | 13 +++++++++++++
 torch_harmonics/attention/attention.py              |  4 +++-
 .../distributed/distributed_attention.py            |  3 ++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/attention/_attention_utils.py b/torch_harmonics/attention/_attention_utils.py
index 3b0d7eb..aed6ccf 100644
--- a/torch_harmonics/attention/_attention_utils.py
+++ b/torch_harmonics/attention/_attention_utils.py
@@ -89,6 +89,19 @@ def _check_dtypes_match(tensors) -> None:
         torch._check(tensor.dtype == ref, "all attention inputs must share a single dtype")
 
 
+def _check_batch_match(tensors) -> None:
+    """
+    Check that every tensor shares the first one's batch size.
+
+    The optimized kernels take the batch size from one of the activations and index
+    all of them with it, so a smaller batch is read out of bounds rather than broadcast.
+    """
+
+    ref = tensors[0].shape[0]
+    for tensor in tensors[1:]:
+        torch._check(tensor.shape[0] == ref, lambda: "all attention inputs must share a single batch size")
+
+
 # Shared backward-context helper used by both the torch reference kernels
 # (in kernels_torch/) and the optimized custom_op path (in optimized/).
 def _setup_context_attention_backward(ctx, inputs, output):
diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index 47191d3..53b23b7 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -37,7 +37,7 @@ import torch.nn as nn
 import torch.nn.functional as F
 from attention_helpers import optimized_kernels_is_available
 
-from torch_harmonics.attention._attention_utils import _check_dtypes_match, _check_extent, _check_ndim
+from torch_harmonics.attention._attention_utils import _check_batch_match, _check_dtypes_match, _check_extent, _check_ndim
 from torch_harmonics.attention._layout import to_nchw, to_nhwc
 from torch_harmonics.attention.kernels_torch.attention_torch import _neighborhood_s2_attention_torch
 from torch_harmonics.attention.optimized.attention_optimized import _neighborhood_s2_attention_optimized
@@ -492,6 +492,8 @@ class NeighborhoodAttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        if self.optimized_kernel:
+            _check_batch_match((query, key, value))
         _check_extent(query, -2, self.nlat_out, "query latitudes")
         _check_extent(query, -1, self.nlon_out, "query longitudes")
         _check_extent(key, -2, self.nlat_in, "key latitudes")
diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index e4c5363..c27366d 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -37,7 +37,7 @@ import torch.nn as nn
 from attention_helpers import optimized_kernels_is_available
 
 from torch_harmonics.attention import attention_kernels
-from torch_harmonics.attention._attention_utils import _check_extent, _check_ndim
+from torch_harmonics.attention._attention_utils import _check_batch_match, _check_extent, _check_ndim
 from torch_harmonics.attention._layout import to_nchw, to_nhwc
 from torch_harmonics.attention.attention import NeighborhoodAttentionS2
 from torch_harmonics.distributed._amp_utils import _cast_to_autocast_dtype, _custom_setup_context
@@ -1181,6 +1181,7 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
         _check_ndim(query, 4, "query")
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
+        _check_batch_match((query, key, value))
         _check_extent(query, -2, self.nlat_out_local, "query latitudes")
         _check_extent(query, -1, self.nlon_out_local, "query longitudes")
         _check_extent(key, -2, self.nlat_in_local, "key latitudes")
-- 
2.43.0


From 17bddd058c665a3d1202a66306d94af7ce1d54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:01 +0000
Subject: [PATCH 25/26] fix: second derivatives of the optimized DISCO
 convolutions were silently wrong

---
 .../disco/optimized/disco_optimized.py        | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/disco/optimized/disco_optimized.py b/torch_harmonics/disco/optimized/disco_optimized.py
index b28ce8e..4d0e02b 100644
--- a/torch_harmonics/disco/optimized/disco_optimized.py
+++ b/torch_harmonics/disco/optimized/disco_optimized.py
@@ -400,6 +400,8 @@ def _disco_s2_contraction_bwd_optimized(ctx, grad_output):
 
 if optimized_kernels_is_available():
     torch.library.register_autograd("disco_kernels::_disco_s2_contraction_optimized", _disco_s2_contraction_bwd_optimized, setup_context=_setup_context_conv_backward)
+    # the backward passes below call the raw op: it needs a formula of its own to be differentiable again
+    torch.library.register_autograd("disco_kernels::forward", _disco_s2_contraction_bwd_optimized, setup_context=_setup_context_conv_backward)
 
     # Autocast: register at the dispatcher's AutocastCUDA key. We use
     # torch.library.impl (not register_autocast) because register_autocast's
@@ -449,6 +451,7 @@ if optimized_kernels_is_available():
     torch.library.register_autograd(
         "disco_kernels::_disco_s2_transpose_contraction_optimized", _disco_s2_transpose_contraction_bwd_optimized, setup_context=_setup_context_conv_backward
     )
+    torch.library.register_autograd("disco_kernels::backward", _disco_s2_transpose_contraction_bwd_optimized, setup_context=_setup_context_conv_backward)
 
     def _make_transpose_contraction_autocast(device_type):
         @torch.library.impl("disco_kernels::_disco_s2_transpose_contraction_optimized", f"Autocast{device_type.upper()}")
@@ -715,7 +718,9 @@ class _DiscoSaveXConvFn(torch.autograd.Function):
         x_expanded = disco_kernels.forward.default(inp.contiguous(), roff_idx, ker_idx, row_idx, col_idx, vals.to(cdtype), kernel_size, nlat_out, nlon_out)
         x_expanded = x_expanded.to(itype)
 
-        ctx.save_for_backward(x_expanded, weight, roff_idx, ker_idx, row_idx, col_idx, vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals)
+        ctx.save_for_backward(
+            x_expanded, inp, weight, roff_idx, ker_idx, row_idx, col_idx, vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals
+        )
         ctx.kernel_size = kernel_size
         ctx.nlat_in = inp.shape[-2]
         ctx.nlon_in = inp.shape[-1]
@@ -733,7 +738,9 @@ class _DiscoSaveXConvFn(torch.autograd.Function):
 
     @staticmethod
     def backward(ctx, grad_output):
-        x_expanded, weight, roff_idx, ker_idx, row_idx, col_idx, vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals = ctx.saved_tensors
+        x_expanded, inp, weight, roff_idx, ker_idx, row_idx, col_idx, vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals = (
+            ctx.saved_tensors
+        )
 
         itype = grad_output.dtype
         cdtype = _compute_dtype(itype)
@@ -776,6 +783,9 @@ class _DiscoSaveXConvFn(torch.autograd.Function):
             grad_inp = grad_inp.to(itype)
 
         if ctx.needs_input_grad[1]:
+            if torch.is_grad_enabled():
+                # double backward: the saved tensor is not a function of inp
+                x_expanded = disco_kernels.forward.default(inp.contiguous(), roff_idx, ker_idx, row_idx, col_idx, vals_c, K, H, W)
             x_expanded_r = x_expanded.to(itype).reshape(B, G, Cg, K, H, W)
             grad_weight = torch.einsum("bgoxy,bgckxy->gock", grad_output_r, x_expanded_r)
 
@@ -924,7 +934,7 @@ class _DiscoKpackedSaveXConvFn(torch.autograd.Function):
         x_expanded = disco_kernels.forward_kpacked.default(inp.contiguous(), pack_idx, pack_val, pack_count, kernel_size, nlat_out, nlon_out)
 
         ctx.save_for_backward(
-            x_expanded, weight, roff_idx, ker_idx, row_idx, col_idx, csr_vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals
+            x_expanded, inp, weight, roff_idx, ker_idx, row_idx, col_idx, csr_vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals
         )
         ctx.kernel_size = kernel_size
         ctx.nlat_in = inp.shape[-2]
@@ -943,7 +953,7 @@ class _DiscoKpackedSaveXConvFn(torch.autograd.Function):
 
     @staticmethod
     def backward(ctx, grad_output):
-        x_expanded, weight, roff_idx, ker_idx, row_idx, col_idx, csr_vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals = (
+        x_expanded, inp, weight, roff_idx, ker_idx, row_idx, col_idx, csr_vals, split_roff_idx, split_nnz_off, split_ker_idx, split_row_idx, split_col_idx, split_vals = (
             ctx.saved_tensors
         )
 
@@ -988,6 +998,9 @@ class _DiscoKpackedSaveXConvFn(torch.autograd.Function):
             grad_inp = grad_inp.to(itype)
 
         if ctx.needs_input_grad[1]:
+            if torch.is_grad_enabled():
+                # double backward: the saved tensor is not a function of inp
+                x_expanded = disco_kernels.forward.default(inp.contiguous(), roff_idx, ker_idx, row_idx, col_idx, vals_c, K, H, W)
             x_expanded_r = x_expanded.to(itype).reshape(B, G, Cg, K, H, W)
             grad_weight = torch.einsum("bgoxy,bgckxy->gock", grad_output_r, x_expanded_r)
 
-- 
2.43.0


From 83305e42363fa543ef7edadef543cbbaf7368324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:30 +0000
Subject: [PATCH 26/26] fix: differentiating optimized neighborhood attention
 twice silently gave zeros

---
 torch_harmonics/attention/optimized/attention_optimized.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/torch_harmonics/attention/optimized/attention_optimized.py b/torch_harmonics/attention/optimized/attention_optimized.py
index a07d4d5..5ea97a3 100644
--- a/torch_harmonics/attention/optimized/attention_optimized.py
+++ b/torch_harmonics/attention/optimized/attention_optimized.py
@@ -297,6 +297,13 @@ if optimized_kernels_is_available():
         "attention_kernels::_neighborhood_s2_attention_optimized", _neighborhood_s2_attention_bwd_optimized, setup_context=_setup_context_attention_backward
     )
 
+    # The backward kernel has no derivative of its own. Without a formula, differentiating
+    # through it (double backward) silently drops its contribution.
+    def _neighborhood_s2_attention_double_bwd_optimized(ctx, *grad_outputs):
+        raise RuntimeError("double backward is not supported by the optimized neighborhood attention kernels")
+
+    torch.library.register_autograd("attention_kernels::backward", _neighborhood_s2_attention_double_bwd_optimized)
+
     # Autocast: register at the dispatcher's Autocast{CUDA,CPU} keys (not via
     # register_autocast — that API hard-codes ``cast_inputs`` and can't follow
     # the active autocast dtype). Index tensors and quad_weights pass through.
-- 
2.43.0

