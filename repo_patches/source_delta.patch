From 5581c4d3fd7a825f184e2eeff4042f0f5b67c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 01/19] fix: Padder mode 'zeros' left the padded cells
 uninitialised

_fill_value_1d returned the 1-d function instead of calling it.
---
 torchimage/padding/generic_pad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index c423109..ab91c70 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -161,7 +161,7 @@ class Padder:  # (nn.Module):
         if callable(mode):
             pad_func = mode
         elif mode == "zeros":
-            return pad_1d.zeros_1d
+            pad_func = pad_1d.zeros_1d
         elif mode == "constant":
             cv = self.constant_values[i]
 
-- 
2.43.0


From 7b0496363812f2f5de465c37afc8e0bd1cb22a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 02/19] fix: Padder.pad_axis did not reserve the extra cell of
 periodize on odd axes

---
 torchimage/padding/generic_pad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index ab91c70..c103572 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -308,6 +308,8 @@ class Padder:  # (nn.Module):
         head = pw[0]
         tail = head + x.shape[axis]
         length = tail + pw[1]
+        if self.mode[i] == "periodize":
+            length += x.shape[axis] % 2  # periodize makes odd axes even
 
         idx = make_idx(head, tail, dim=axis, ndim=x.ndim)
 
-- 
2.43.0


From 8ab8dc2f76f4e81ad20ecd2ca9d5e68fa69baddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 03/19] fix: EdgeFilter truncated real edge kernels to integers
 before the fast-path test

---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index db651a9..0544ba0 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -56,7 +56,7 @@ class EdgeFilter(nn.Module):
 
     def _conv_edge(self, x: torch.Tensor, edge_axis: int):
         # some discrete kernels can be faster (slices instead of convolution)
-        discrete_kernel = tuple(int(k) for k in self.edge_kernel[0])
+        discrete_kernel = tuple(float(k) for k in self.edge_kernel[0])
         if discrete_kernel == (-1, 0, 1):
             x = self.edge_filter.pad(x, axes=edge_axis)
             return x[make_idx(2, None, dim=edge_axis, ndim=x.ndim)] - \
-- 
2.43.0


From 51e1a605790e61c59ba10ee58397326af4b119cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 04/19] fix: AvgPoolNd(count_include_pad=False) mixed up counts
 when axes are not sorted

---
 torchimage/pooling/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0a78f1b..f5eb6fb 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -43,8 +43,8 @@ class AvgPoolNd(SeparablePoolNd):
                 device=x.device, dtype=x.dtype
             )
             new_shape = [1] * x.ndim
-            for i in idx:
-                new_shape[axes[i]] = z.shape[i]
+            for j, i in enumerate(idx):
+                new_shape[axes[i]] = z.shape[j]
             z = z.view(*new_shape)
 
             x = x * z_old / z
-- 
2.43.0


From 25f32345b33c330bb947726ea76dc9cc169f38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 05/19] fix: AvgPoolNd(count_include_pad=False) crashed without
 a padder

---
 torchimage/pooling/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index f5eb6fb..eef4149 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -37,7 +37,7 @@ class AvgPoolNd(SeparablePoolNd):
             x = super().forward(x, axes=axes)
             z = n_original_elements_nd(
                 in_size=[input_shape[axes[i]] for i in idx],
-                pad_width=[self.same_padder.pad_width[i] for i in idx],
+                pad_width=[(0, 0) if self.same_padder is None else self.same_padder.pad_width[i] for i in idx],
                 kernel_size=[self.kernel_size[i] for i in idx],
                 stride=[self.stride[i] for i in idx],
                 device=x.device, dtype=x.dtype
-- 
2.43.0


From 4adb6277c3986eadbb97fb1c305e590641d5b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 06/19] fix: random_crop never drew the last offset and
 rejected full-size crops

---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 0da15f4..f36136b 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,7 +12,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
     return x[idx]
-- 
2.43.0


From 5179aba05abd6e434390bae49bcf0b9e155741fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 07/19] fix: poly1d crashed on a constant polynomial

---
 torchimage/misc/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/misc/polynomial.py b/torchimage/misc/polynomial.py
index 9c6197f..87e0ef7 100644
--- a/torchimage/misc/polynomial.py
+++ b/torchimage/misc/polynomial.py
@@ -27,7 +27,7 @@ def poly1d(x: torch.Tensor, p: list or tuple):
     p = tuple(p)
     bias = p[-1]
     weight = p[:-1][::-1]  # change to ascending order
-    y = None
+    y = torch.zeros_like(x)  # remains zero when p is constant
     xx = x  # running x^i
     for i, w in enumerate(weight):
         if i == 0:
-- 
2.43.0


From c7537199091756eb38a364032cf6f0e84f337f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 08/19] fix: safe_power truncated fractional exponents (bases)
 to the integer dtype of the other argument

---
 torchimage/misc/power.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torchimage/misc/power.py b/torchimage/misc/power.py
index 6b963ee..6fcd8b8 100644
--- a/torchimage/misc/power.py
+++ b/torchimage/misc/power.py
@@ -34,6 +34,8 @@ def safe_power(x, exponent, *, epsilon=1e-6):
     out : torch.Tensor
         The output tensor.
     """
+    dtype = torch.result_type(x, exponent)  # can hold both arguments
+
     # convert float to scalar torch.Tensor
     if not torch.is_tensor(x):
         if not torch.is_tensor(exponent):
@@ -41,10 +43,11 @@ def safe_power(x, exponent, *, epsilon=1e-6):
             x = torch.tensor(x)
             exponent = torch.tensor(exponent)
         else:
-            x = torch.tensor(x, dtype=exponent.dtype, device=exponent.device)
+            x = torch.tensor(x, dtype=dtype, device=exponent.device)
     else:  # x is tensor
         if not torch.is_tensor(exponent):
-            exponent = torch.tensor(exponent, dtype=x.dtype, device=x.device)
+            exponent = torch.tensor(exponent, dtype=dtype, device=x.device)
+    x = x.to(dtype)
 
     exp_fractional = torch.floor(exponent) != exponent
     if not exp_fractional.any():  # no exponent has a fractional part
-- 
2.43.0


From 4384f5f9b79b5e8b6e3b4b544be635ff324a7a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 09/19] fix: MS_SSIM crashed with a single weight

---
 torchimage/metrics/ssim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 63a59a2..5bd794a 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -303,9 +303,11 @@ class MS_SSIM(SSIM):
 
         if self.use_prod:
             # negative values need to be removed
-            final_score *= ssim_score.clamp(self.eps) ** self.weights[-1]
+            ssim_score = ssim_score.clamp(self.eps) ** self.weights[-1]
+            final_score = ssim_score if final_score is None else final_score * ssim_score
         else:
-            final_score += ssim_score * self.weights[-1]
+            ssim_score = ssim_score * self.weights[-1]
+            final_score = ssim_score if final_score is None else final_score + ssim_score
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-- 
2.43.0


From 38de15df0d6598ca3fd1d17cb8f82f51cfe2f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 10/19] fix: check_axes accepted out-of-range axes instead of
 raising ValueError

---
 torchimage/utils/validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/validation.py b/torchimage/utils/validation.py
index d3a0514..246f985 100644
--- a/torchimage/utils/validation.py
+++ b/torchimage/utils/validation.py
@@ -27,10 +27,12 @@ def check_axes(x, axes):
     elif isinstance(axes, slice):
         axes = tuple(range(x.ndim)[axes])
     elif isinstance(axes, int):
-        return tuple([axes if axes >= 0 else x.ndim + axes])
+        axes = tuple([axes if axes >= 0 else x.ndim + axes])
     else:
         axes = tuple(int(a) if a >= 0 else x.ndim + int(a) for a in axes)
-        assert all(0 <= a <= x.ndim for a in axes)
+
+    if not all(0 <= a < x.ndim for a in axes):
+        raise ValueError(f"axes out of range for a tensor of {x.ndim} dimensions")
     return axes
 
 
-- 
2.43.0


From a9494c37945ac2cf86e0f591479e2bec17191039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 11/19] fix: an axis with an empty kernel and no stride crashed
 under same padding

---
 torchimage/pooling/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/base.py b/torchimage/pooling/base.py
index d3b8c56..79d40cc 100644
--- a/torchimage/pooling/base.py
+++ b/torchimage/pooling/base.py
@@ -115,7 +115,7 @@ class BasePoolNd(nn.Module):
             Processed stride
         """
         stride = NdSpec(stride, item_shape=[]).map(check_stride)
-        stride = NdSpec.apply(lambda s, ks: ks if s is None else s, stride, self.kernel_size)
+        stride = NdSpec.apply(lambda s, ks: max(ks, 1) if s is None else s, stride, self.kernel_size)
         return stride
 
     def to_filter(self, padder=None):
-- 
2.43.0


From 292fd33d69dff4f020ce7f80301ee3cbef22c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 12/19] fix: gradient magnitude modified its input when an edge
 component needs no computation

With an empty edge kernel component() returns the input itself, and
magnitude() accumulated into it in place for p=1.
---
 torchimage/filtering/edges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index 0544ba0..4f3c8aa 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -125,10 +125,10 @@ class EdgeFilter(nn.Module):
             if magnitude is None:
                 magnitude = c ** p if p != 1 else c
             else:
-                magnitude += c ** p if p != 1 else c
+                magnitude = magnitude + (c ** p if p != 1 else c)
 
         if epsilon != 0:
-            magnitude += epsilon
+            magnitude = magnitude + epsilon
 
         if p == 1:
             return magnitude
-- 
2.43.0


From 3b0bf321ec658f950f7407b694f1768ecc02efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 13/19] fix: get_ragged_ndarray drops the lifting done inside
 equally deep siblings

---
 torchimage/utils/ragged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 84a4641..9f796bc 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -111,6 +111,8 @@ def get_ragged_ndarray(data, strict=True):
             item_shape_list = [(1, ) * (ndim - len(s)) + s for s in item_shape_list]
     else:
         ndim = next(iter(ndim_set))
+        if any(new is not old for new, old in zip(item_list, data)):  # lifted at a deeper level
+            data = tuple(item_list)
 
     item_shape = [-1] * ndim
 
-- 
2.43.0


From 73a91247a057dff9dcbc23c71680fbc6eeaf6fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 14/19] fix: expand_ragged_ndarray discards the items of a
 longer list when asked for length 0

---
 torchimage/utils/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 9f796bc..9747776 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -178,7 +178,7 @@ def _recursive_expand(arr, target_shape):
     # broadcast (expand) this dimension
     if target_shape[0] == -1 or target_shape[0] == len(arr):  # no need to expand
         return arr, tuple([len(arr)] + item_shape), modified
-    elif target_shape[0] == 0:
+    elif target_shape[0] == 0 and len(arr) == 1:
         shape = tuple([0] + item_shape)
         return np.empty(shape), shape, True
     elif len(arr) == 1:  # singleton dimension; shape[0] is positive int
-- 
2.43.0


From 27d7fd4dc0b9175083785d06bda8395be049b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 15/19] fix: expand_ragged_ndarray accepts an empty list among
 non-empty siblings for a positive length

---
 torchimage/utils/ragged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 9747776..70be857 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -148,6 +148,8 @@ def _recursive_expand(arr, target_shape):
         return arr, (), False
 
     if not arr:  # empty array
+        if target_shape[0] > 0:
+            raise ValueError(f"Cannot expand 0-length dimension to length {target_shape[0]}")
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From 3bcacf171aedf436d6bad67c043a92d24a144240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 16/19] fix: NdSpec raises IndexError instead of ValueError for
 an index_shape deeper than the data

---
 torchimage/utils/ndspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/utils/ndspec.py b/torchimage/utils/ndspec.py
index baa8c1b..40a1ae7 100644
--- a/torchimage/utils/ndspec.py
+++ b/torchimage/utils/ndspec.py
@@ -175,7 +175,7 @@ class NdSpec:
             data, shape = expand_ragged_ndarray(data, old_shape=shape, new_shape=item_shape)
             self.index_pos = len(shape) - len(item_shape)
         else:  # ignore item shape
-            if not all(length == -1 or shape[i] == length for i, length in enumerate(index_shape)):
+            if len(shape) < len(index_shape) or not all(length == -1 or shape[i] == length for i, length in enumerate(index_shape)):
                 raise ValueError(f"Data {data} cannot have index shape {index_shape}")
             self.index_pos = len(index_shape)
 
-- 
2.43.0


From e01eb3d5964831c58678a8a99ef0e7932e85cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 17/19] fix: expand_ragged_ndarray crashed on expanding a
 length-1 axis to 0 above a ragged axis

---
 torchimage/utils/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 70be857..9380e14 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -182,7 +182,7 @@ def _recursive_expand(arr, target_shape):
         return arr, tuple([len(arr)] + item_shape), modified
     elif target_shape[0] == 0 and len(arr) == 1:
         shape = tuple([0] + item_shape)
-        return np.empty(shape), shape, True
+        return np.empty([max(length, 0) for length in shape]), shape, True  # ragged axes hold no item here
     elif len(arr) == 1:  # singleton dimension; shape[0] is positive int
         return tuple(arr[0] for _ in range(target_shape[0])), tuple([target_shape[0]] + item_shape), True  # is modified
     else:
-- 
2.43.0


From 3695e3d1cf1a9dab9ac746e18c3214178619c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 18/19] x

fix: NdSpec results with items of different depths lost their second index axis
---
 torchimage/utils/ndspec.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/torchimage/utils/ndspec.py b/torchimage/utils/ndspec.py
index 40a1ae7..a3e7442 100644
--- a/torchimage/utils/ndspec.py
+++ b/torchimage/utils/ndspec.py
@@ -7,6 +7,13 @@ from .ragged import get_ragged_ndarray, expand_ragged_ndarray, apply_ragged_ndar
 from itertools import product
 
 
+def _cut_depth(data, depth):
+    # the nesting of data down to depth; everything below is regarded as a leaf
+    if depth == 0 or get_ragged_ndarray(data)[1] == ():
+        return None
+    return [_cut_depth(item, depth - 1) for item in data]
+
+
 class NdSpec:
     """
     N-dimensional specification data, which represents parameters
@@ -175,6 +182,8 @@ class NdSpec:
             data, shape = expand_ragged_ndarray(data, old_shape=shape, new_shape=item_shape)
             self.index_pos = len(shape) - len(item_shape)
         else:  # ignore item shape
+            if len(shape) < len(index_shape):  # items of different depths hide the deeper index axes
+                _, shape = get_ragged_ndarray(_cut_depth(data, len(index_shape)), strict=True)
             if len(shape) < len(index_shape) or not all(length == -1 or shape[i] == length for i, length in enumerate(index_shape)):
                 raise ValueError(f"Data {data} cannot have index shape {index_shape}")
             self.index_pos = len(index_shape)
-- 
2.43.0


From fdc07e049e322d017fdc9cc13fc0daf4cb4ce105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 19/19] fix: any_conv_1d raised RuntimeError on tensors that
 are not contiguous

---
 torchimage/pooling/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/operator.py b/torchimage/pooling/operator.py
index d8c27bf..20a2400 100644
--- a/torchimage/pooling/operator.py
+++ b/torchimage/pooling/operator.py
@@ -31,11 +31,11 @@ def any_conv_1d(x: torch.Tensor, w: torch.Tensor, *, dim: int, stride: int, dila
     big_shape = list(x.shape)
 
     if dim == -1 or dim == x.ndim - 1:
-        x = x.view(-1, 1, x.shape[-1])  # batch, in_channels, input width
+        x = x.reshape(-1, 1, x.shape[-1])  # batch, in_channels, input width
         w = w.view(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
         x = F.conv1d(x, w, bias=None, stride=stride, padding=0, dilation=dilation, groups=1)
     else:
-        x = x.view(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
+        x = x.reshape(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
         w = w.view(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
         x = F.conv2d(x, w, bias=None, stride=(stride, 1), padding=0, dilation=(dilation, 1), groups=1)
 
-- 
2.43.0

