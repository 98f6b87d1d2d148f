From 8fbb9443649425af4e76f0ba5736b4c5d18b0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 01/12] fix: fill the border in zeros padding mode

---
 torchimage/padding/generic_pad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index c423109..ab91c70 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -161,7 +161,7 @@ class Padder:  # (nn.Module):
         if callable(mode):
             pad_func = mode
         elif mode == "zeros":
-            return pad_1d.zeros_1d
+            pad_func = pad_1d.zeros_1d
         elif mode == "constant":
             cv = self.constant_values[i]
 
-- 
2.43.0


From 6fc8824d9e25fcbb01fd6d06070b74fbd0d7d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 02/12] fix: reserve the extra element when pad_axis periodizes
 an odd side

---
 torchimage/padding/generic_pad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index ab91c70..e24ee62 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -308,6 +308,8 @@ class Padder:  # (nn.Module):
         head = pw[0]
         tail = head + x.shape[axis]
         length = tail + pw[1]
+        if self.mode[i] == "periodize":
+            length += x.shape[axis] % 2
 
         idx = make_idx(head, tail, dim=axis, ndim=x.ndim)
 
-- 
2.43.0


From 47f07e772f0ba5a7638b60503d546430f0dd2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 03/12] fix: reject out-of-range axes with the documented
 ValueError

---
 torchimage/utils/validation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchimage/utils/validation.py b/torchimage/utils/validation.py
index d3a0514..63547fb 100644
--- a/torchimage/utils/validation.py
+++ b/torchimage/utils/validation.py
@@ -26,11 +26,12 @@ def check_axes(x, axes):
         axes = tuple(range(x.ndim))
     elif isinstance(axes, slice):
         axes = tuple(range(x.ndim)[axes])
-    elif isinstance(axes, int):
-        return tuple([axes if axes >= 0 else x.ndim + axes])
     else:
+        if isinstance(axes, int):
+            axes = (axes, )
         axes = tuple(int(a) if a >= 0 else x.ndim + int(a) for a in axes)
-        assert all(0 <= a <= x.ndim for a in axes)
+        if not all(0 <= a < x.ndim for a in axes):
+            raise ValueError(f"axes must be valid dimensions of a {x.ndim}-dimensional tensor, got {axes} instead")
     return axes
 
 
-- 
2.43.0


From e4f77c2ff21441c31e80595e0edfa9c29fa0fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 04/12] fix: accept object and string ndarrays in ragged arrays

---
 torchimage/utils/ragged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 84a4641..eb5ff07 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -85,7 +85,7 @@ def get_ragged_ndarray(data, strict=True):
     if is_scalar(data):  # scalar
         return data, ()
 
-    if not data:  # empty array
+    if len(data) == 0:  # empty array
         return data, (0, )
 
     item_list = []
@@ -145,7 +145,7 @@ def _recursive_expand(arr, target_shape):
     if is_scalar(arr):  # scalar
         return arr, (), False
 
-    if not arr:  # empty array
+    if len(arr) == 0:  # empty array
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From 396b412782d8a79d0fe78b7102d16632826acebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 05/12] fix: exclude padding along the right axes when axes are
 unsorted

---
 torchimage/pooling/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0a78f1b..2d68a7d 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -43,8 +43,8 @@ class AvgPoolNd(SeparablePoolNd):
                 device=x.device, dtype=x.dtype
             )
             new_shape = [1] * x.ndim
-            for i in idx:
-                new_shape[axes[i]] = z.shape[i]
+            for i, j in enumerate(idx):
+                new_shape[axes[j]] = z.shape[i]
             z = z.view(*new_shape)
 
             x = x * z_old / z
-- 
2.43.0


From fc4c2ce89edc1819ade4a8d7ede9fc669f5263c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 06/12] fix: average pooling without padding when padding is
 excluded

---
 torchimage/pooling/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 2d68a7d..99eff4e 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -22,7 +22,7 @@ class AvgPoolNd(SeparablePoolNd):
         self.count_include_pad = count_include_pad
 
     def forward(self, x: torch.Tensor, axes=slice(2, None)):
-        if self.count_include_pad:
+        if self.count_include_pad or self.same_padder is None:  # no padding to exclude
             return super().forward(x, axes=axes)
 
         else:
-- 
2.43.0


From 3b97bb0deb4a2df404eae08b12a9e599a54ffbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 07/12] fix: take the difference shortcut only for the exact
 kernels

---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index db651a9..05bbdc2 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -56,7 +56,7 @@ class EdgeFilter(nn.Module):
 
     def _conv_edge(self, x: torch.Tensor, edge_axis: int):
         # some discrete kernels can be faster (slices instead of convolution)
-        discrete_kernel = tuple(int(k) for k in self.edge_kernel[0])
+        discrete_kernel = tuple(self.edge_kernel[0])
         if discrete_kernel == (-1, 0, 1):
             x = self.edge_filter.pad(x, axes=edge_axis)
             return x[make_idx(2, None, dim=edge_axis, ndim=x.ndim)] - \
-- 
2.43.0


From 279f2ee48a7eac765de08afb6ed62777546d0790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:59 +0000
Subject: [PATCH 08/12] fix: multi-scale SSIM with a single scale

---
 torchimage/metrics/ssim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 63a59a2..0685ceb 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -303,9 +303,11 @@ class MS_SSIM(SSIM):
 
         if self.use_prod:
             # negative values need to be removed
-            final_score *= ssim_score.clamp(self.eps) ** self.weights[-1]
+            last_score = ssim_score.clamp(self.eps) ** self.weights[-1]
+            final_score = last_score if final_score is None else final_score * last_score
         else:
-            final_score += ssim_score * self.weights[-1]
+            last_score = ssim_score * self.weights[-1]
+            final_score = last_score if final_score is None else final_score + last_score
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-- 
2.43.0


From 42246e6a13113b37af67475dabc68212b71bbe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 09/12] fix: an empty choice of reduced axes keeps every axis

---
 torchimage/metrics/base.py | 4 ++--
 torchimage/metrics/ssim.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchimage/metrics/base.py b/torchimage/metrics/base.py
index 54c6fdd..8f39b3f 100644
--- a/torchimage/metrics/base.py
+++ b/torchimage/metrics/base.py
@@ -57,9 +57,9 @@ class BaseMetric(nn.Module):
 
     @staticmethod
     def _mean(x: torch.Tensor, axes):
-        return x.mean(dim=axes, keepdim=False)
+        return x.mean(dim=axes, keepdim=False) if axes else x  # torch reduces every axis for ()
 
     @staticmethod
     def _sum(x: torch.Tensor, axes):
-        return x.sum(dim=axes, keepdim=False)
+        return x.sum(dim=axes, keepdim=False) if axes else x
 
diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 0685ceb..9900a0d 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -135,7 +135,8 @@ class SSIM(nn.Module):
         return full[tuple(idx)]
 
     def _reduce(self, x: torch.Tensor, content_axes: tuple, reduce_axes: tuple):
-        return self._crop_border(x, content_axes=content_axes).mean(dim=reduce_axes)
+        x = self._crop_border(x, content_axes=content_axes)
+        return x.mean(dim=reduce_axes) if reduce_axes else x  # torch reduces every axis for ()
 
     def forward(self, y_pred: torch.Tensor, y_true: torch.Tensor,
                 content_axes=slice(2, None), reduce_axes=slice(1, None), *, full=False):
@@ -311,7 +312,8 @@ class MS_SSIM(SSIM):
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-        final_score = final_score.mean(dim=reduce_axes, keepdim=False)
+        if reduce_axes:  # torch reduces every axis for ()
+            final_score = final_score.mean(dim=reduce_axes, keepdim=False)
 
         return final_score
 
-- 
2.43.0


From 4b6e67f5593064ad7dc39ae4be828f22b7288ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 10/12] fix: let random_crop draw the last offset and index
 with a tuple

---
 torchimage/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 0da15f4..2ca1a6d 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,10 +12,10 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
-    return x[idx]
+    return x[tuple(idx)]
 
 
 def add_poisson_gauss_noise(x: torch.Tensor, k, sigma, *, generator: torch.Generator = None) -> torch.Tensor:
-- 
2.43.0


From 23a903ec0c0fa8b066ef289347e0f2e22b85c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 11/12] fix: evaluate polynomials with a single coefficient

---
 torchimage/misc/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/misc/polynomial.py b/torchimage/misc/polynomial.py
index 9c6197f..d0354de 100644
--- a/torchimage/misc/polynomial.py
+++ b/torchimage/misc/polynomial.py
@@ -27,7 +27,7 @@ def poly1d(x: torch.Tensor, p: list or tuple):
     p = tuple(p)
     bias = p[-1]
     weight = p[:-1][::-1]  # change to ascending order
-    y = None
+    y = None if weight else torch.zeros_like(x, dtype=torch.result_type(x, bias))
     xx = x  # running x^i
     for i, w in enumerate(weight):
         if i == 0:
-- 
2.43.0


From 19997247f2fd358f49a7e726c655dba5333d14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 12/12] fix: keep fractional exponents of integer tensors in
 safe_power

---
 torchimage/misc/power.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/misc/power.py b/torchimage/misc/power.py
index 6b963ee..a781715 100644
--- a/torchimage/misc/power.py
+++ b/torchimage/misc/power.py
@@ -41,15 +41,16 @@ def safe_power(x, exponent, *, epsilon=1e-6):
             x = torch.tensor(x)
             exponent = torch.tensor(exponent)
         else:
-            x = torch.tensor(x, dtype=exponent.dtype, device=exponent.device)
+            x = torch.tensor(x, dtype=torch.result_type(x, exponent), device=exponent.device)
     else:  # x is tensor
         if not torch.is_tensor(exponent):
-            exponent = torch.tensor(exponent, dtype=x.dtype, device=x.device)
+            exponent = torch.tensor(exponent, dtype=torch.result_type(x, exponent), device=x.device)
 
     exp_fractional = torch.floor(exponent) != exponent
     if not exp_fractional.any():  # no exponent has a fractional part
         return torch.pow(x, exponent)
 
+    x = x.to(torch.result_type(x, exponent))  # epsilon and fractional powers don't fit integers
     x, x_lt_0, x_eq_0, exponent, exp_fractional = torch.broadcast_tensors(
         x, x < 0, x == 0, exponent, exp_fractional)
 
-- 
2.43.0

