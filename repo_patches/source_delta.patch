From 9df51a54a3cfeb1a9e72ebe6ec59e14470e9196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 01/56] fix: keep list and padded views of point-cloud
 attributes in sync

Assigning normals/colors/features through one representation left the other
one stale (misspelled cache name), and assigning to an attribute the batch did
not have left has_* false.
---
 gradslam/structures/pointclouds.py | 64 +++++++++++-------------------
 1 file changed, 23 insertions(+), 41 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..39e944e 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
+        self._has_normals = True
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +862,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
+        self._has_colors = True
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +877,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
+        self._has_features = True
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = True
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = True
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = True
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
@@ -954,45 +960,21 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
-        self._normals_padded = (
-            None
-            if self._normals_list is None
-            else structutils.list_to_padded(
-                self._normals_list,
-                (self._N, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-        )
-        self._colors_padded = (
-            None
-            if self._colors_list is None
-            else structutils.list_to_padded(
-                self._colors_list,
-                (self._N, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-        )
-        self._features_padded = (
-            None
-            if self._features_list is None
-            else structutils.list_to_padded(
-                self._features_list,
-                (self._N, self.num_features),
-                pad_value=0.0,
-                equisized=self.equisized,
+        for attr in ["points", "normals", "colors", "features"]:
+            attr_list = getattr(self, "_{}_list".format(attr))
+            attr_padded = getattr(self, "_{}_padded".format(attr))
+            if attr_list is None or not (refresh or attr_padded is None):
+                continue
+            setattr(
+                self,
+                "_{}_padded".format(attr),
+                structutils.list_to_padded(
+                    attr_list,
+                    (self._N, attr_list[0].shape[-1]),
+                    pad_value=0.0,
+                    equisized=self.equisized,
+                ),
             )
-        )
 
     def clone(self):
         r"""Returns deep copy of Pointclouds object. All internal tensors are cloned individually.
-- 
2.43.0


From 11bf6e1feddb2db57b74d2865bf1ebd2c5dfa456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 02/56] fix: clone of a ragged padded-only Pointclouds keeps
 its raggedness

---
 gradslam/structures/pointclouds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 39e944e..ad11f74 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1023,6 +1023,7 @@ class Pointclouds(object):
             v = getattr(self, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.clone())
+        other.equisized = self.equisized
         return other
 
     def detach(self):
-- 
2.43.0


From fb1a0e77395e468db62b24f7b8faf5d2ff35777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 03/56] fix: to(..., copy=True) returns a copy that shares no
 memory with the original

---
 gradslam/structures/pointclouds.py | 5 +++--
 gradslam/structures/rgbdimages.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index ad11f74..b4089e3 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1060,13 +1060,14 @@ class Pointclouds(object):
         Returns:
             gradslam.Pointclouds
         """
+        # hack to know which gpu is used when device("cuda")
+        device = torch.Tensor().to(device).device
         if not copy and self.device == device:
             return self
 
         other = self.clone()
         if self.device != device:
-            # hack to know which gpu is used when device("cuda")
-            other.device = torch.Tensor().to(device).device
+            other.device = device
             if other._points_list is not None:
                 other._points_list = [p.to(device) for p in other._points_list]
             if other._normals_list is not None:
diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..7c66f7c 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -518,7 +518,7 @@ class RGBDImages(object):
         other.device = device
 
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.to(device))
 
-- 
2.43.0


From 0e28fe02963ac49ee9fd93c69d6c509d585147b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 04/56] fix: depth assignment works on a fresh RGBDImages and
 the valid-depth mask follows depth and layout

The depth setter read a shape attribute only set by a layout switch, and the
cached valid-depth mask survived depth assignment and layout switches.
---
 gradslam/structures/rgbdimages.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 7c66f7c..a361ac2 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
@@ -584,6 +585,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
@@ -606,6 +608,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
-- 
2.43.0


From 7c61fcb00347a57cbe0e42f9b30bada42e1451c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 05/56] fix: RGBDImages supports the index forms it documents,
 including -1

---
 gradslam/structures/rgbdimages.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index a361ac2..ff766d3 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -186,25 +186,22 @@ class RGBDImages(object):
         r"""
         Args:
             index (int or slice or list of int): Specifying the index of the rgbdimages to retrieve.
-                Can be an int, slice, list of ints or a boolean tensor.
+                Can be an int, slice, list of ints or a boolean tensor, or a tuple of two of those (batch, sequence).
 
         Returns:
             gradslam.RGBDImages: Selected rgbdimages. The rgbdimages tensors are not cloned.
         """
-        if isinstance(index, tuple) or isinstance(index, int):
-            _index_slices = ()
-            if isinstance(index, int):
-                _index_slices += (slice(index, index + 1),) + (slice(None, None),)
-            elif len(index) > 2:
+        if isinstance(index, (int, slice, list, torch.Tensor)):
+            index = (index, slice(None, None))
+        if isinstance(index, tuple):
+            if len(index) != 2:
                 raise IndexError("Only batch and sequences can be indexed")
-            elif isinstance(index, tuple):
-                for x in index:
-                    if isinstance(x, int):
-                        _index_slices += (slice(x, x + 1),)
-                    else:
-                        _index_slices += (x,)
-
-            new_rgb = self._rgb_image[_index_slices[0], _index_slices[1]]
+            # int -> slice keeps the dimension; `or None` makes -1 select the last entry
+            _index_slices = tuple(
+                slice(x, x + 1 or None) if isinstance(x, int) else x for x in index
+            )
+
+            new_rgb = self._rgb_image[_index_slices[0]][:, _index_slices[1]]
             if new_rgb.shape[0] == 0:
                 raise IndexError(
                     "Incorrect indexing at dimension 0, make sure range is within 0 and {0}".format(
@@ -217,7 +214,7 @@ class RGBDImages(object):
                         self._L
                     )
                 )
-            new_depth = self._depth_image[_index_slices[0], _index_slices[1]]
+            new_depth = self._depth_image[_index_slices[0]][:, _index_slices[1]]
             new_intrinsics = self._intrinsics[_index_slices[0], :]
             other = RGBDImages(
                 new_rgb,
@@ -230,7 +227,7 @@ class RGBDImages(object):
                     continue
                 v = getattr(self, k)
                 if torch.is_tensor(v):
-                    setattr(other, k, v[_index_slices[0], _index_slices[1]])
+                    setattr(other, k, v[_index_slices[0]][:, _index_slices[1]])
             return other
         else:
             raise IndexError(index)
-- 
2.43.0


From 786e42e688072d41feb6734a43869b0c12aeec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 06/56] fix: vertex maps of double-precision RGBDImages

---
 gradslam/structures/rgbdimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index ff766d3..b78c0af 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -649,7 +649,7 @@ class RGBDImages(object):
                 create_meshgrid(self.h, self.w, normalized_coords=False)
                 .view(1, 1, self.h, self.w, 2)
                 .repeat(B, L, 1, 1, 1)
-                .to(device)
+                .to(device, self._intrinsics.dtype)
             )
             self._pixel_pos = torch.cat(
                 [
-- 
2.43.0


From 01157476a9b3ee9011dc30213a8914ff4a4132fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 07/56] fix: normal maps of images one pixel wide or high

---
 gradslam/structures/rgbdimages.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index b78c0af..8d9bba1 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -717,8 +717,10 @@ class RGBDImages(object):
             dverti[..., :-1, :] = (
                 self.vertex_map[..., 1:, :] - self.vertex_map[..., :-1, :]
             )
-            dhoriz[..., -1] = dhoriz[..., -2]
-            dverti[..., -1, :] = dverti[..., -2, :]
+            if self.w > 1:
+                dhoriz[..., -1] = dhoriz[..., -2]
+            if self.h > 1:
+                dverti[..., -1, :] = dverti[..., -2, :]
             dim = 2
         else:
             dhoriz[..., :-1, :] = (
@@ -727,8 +729,10 @@ class RGBDImages(object):
             dverti[..., :-1, :, :] = (
                 self.vertex_map[..., 1:, :, :] - self.vertex_map[..., :-1, :, :]
             )
-            dhoriz[..., -1, :] = dhoriz[..., -2, :]
-            dverti[..., -1, :, :] = dverti[..., -2, :, :]
+            if self.w > 1:
+                dhoriz[..., -1, :] = dhoriz[..., -2, :]
+            if self.h > 1:
+                dverti[..., -1, :, :] = dverti[..., -2, :, :]
             dim = -1
 
         normal_map: torch.Tensor = torch.cross(dhoriz, dverti, dim=dim)
-- 
2.43.0


From a096d0179608115ffbf8f73c9a8e88f1ee208561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 08/56] fix: inverse_intrinsics inverts intrinsics with skew

---
 gradslam/geometry/projutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gradslam/geometry/projutils.py b/gradslam/geometry/projutils.py
index c02a8d6..112c00a 100644
--- a/gradslam/geometry/projutils.py
+++ b/gradslam/geometry/projutils.py
@@ -440,10 +440,12 @@ def inverse_intrinsics(K: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     fy = K[..., 1, 1]
     cx = K[..., 0, 2]
     cy = K[..., 1, 2]
+    skew = K[..., 0, 1]
 
     Kinv[..., 0, 0] = 1.0 / (fx + eps)
     Kinv[..., 1, 1] = 1.0 / (fy + eps)
-    Kinv[..., 0, 2] = -1.0 * cx / (fx + eps)
+    Kinv[..., 0, 1] = -1.0 * skew / ((fx + eps) * (fy + eps))
+    Kinv[..., 0, 2] = -1.0 * cx / (fx + eps) + skew * cy / ((fx + eps) * (fy + eps))
     Kinv[..., 1, 2] = -1.0 * cy / (fy + eps)
     Kinv[..., 2, 2] = 1
     Kinv[..., -1, -1] = 1
-- 
2.43.0


From c1d8cc23f71fd760b156c2016193cd16d7f20329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 09/56] fix: batched inverse and composition of rigid
 transforms

(N, 4, 4) inputs, documented as supported, multiplied the translations of
different batch elements together; wrongly shaped inputs were not rejected.
---
 gradslam/geometry/geometryutils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..6a3a192 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -219,7 +219,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
                 type(trans)
             )
         )
-    if not trans.dim() in (2, 3) and trans.shape[-2, :] == (4, 4):
+    if not (trans.dim() in (2, 3) and trans.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(trans.shape)
         )
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -260,7 +260,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans1)
             )
         )
-    if not trans1.dim() in (2, 3) and trans1.shape[-2, :] == (4, 4):
+    if not (trans1.dim() in (2, 3) and trans1.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans1.shape
@@ -272,7 +272,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans2)
             )
         )
-    if not trans2.dim() in (2, 3) and trans2.shape[-2, :] == (4, 4):
+    if not (trans2.dim() in (2, 3) and trans2.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans2.shape
@@ -290,7 +290,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
@@ -453,12 +453,12 @@ def relative_transformation(
         raise TypeError(
             "Input trans_02 type is not a torch.Tensor. Got {}".format(type(trans_02))
         )
-    if not trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4):
+    if not (trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_01.shape)
         )
-    if not trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4):
+    if not (trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_02.shape)
-- 
2.43.0


From 05d7201449f3749a1b0bdc89e733206f52a2e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 10/56] fix: transform_pts_3d returns the points of an N x 3
 input

---
 gradslam/geometry/geometryutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 6a3a192..121b5f5 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -352,7 +352,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
             t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
         ).squeeze(-1)
     else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
-- 
2.43.0


From 4f8cdfa865577e3acbf710be9d53266d5537b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 11/56] fix: quaternion_to_rotation_matrix keeps the batch
 dimensions of its input

---
 gradslam/geometry/geometryutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 121b5f5..b6f4c4c 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -195,10 +195,8 @@ def quaternion_to_rotation_matrix(quaternion: torch.Tensor) -> torch.Tensor:
             one - (txx + tyy),
         ],
         dim=-1,
-    ).view(-1, 3, 3)
+    ).view(*quaternion.shape[:-1], 3, 3)
 
-    if len(quaternion.shape) == 1:
-        matrix = torch.squeeze(matrix, dim=0)
     return matrix
 
 
-- 
2.43.0


From d2f0a2a460834cecae3ae3403356d2628931ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 12/56] fix: downsample_rgbdimages accepts channels-first
 frames

---
 gradslam/odometry/icputils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..f767ec2 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -649,6 +649,7 @@ def downsample_rgbdimages(rgbdimages: RGBDImages, ds_ratio: int) -> Pointclouds:
         )
 
     B = len(rgbdimages)
+    rgbdimages = rgbdimages.to_channels_last()
 
     # Valid depths mask
     mask = rgbdimages.valid_depth_mask.squeeze(-1)[..., ::ds_ratio, ::ds_ratio]
-- 
2.43.0


From 46ad551704389ad65be15c290349869f7c50d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 13/56] fix: fuse_with_map(inplace=False) leaves the map passed
 in unchanged

---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..badab24 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -650,6 +650,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # Fuse points (from live frame) with corresponding global map points
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
@@ -715,8 +718,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From b55802bd9fca0768b41538bada43555916446d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 14/56] fix: point fusion handles channels-first frames

---
 gradslam/slam/fusionutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index badab24..7bacb42 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -378,6 +378,7 @@ def find_similar_map_points(
             "Pointclouds must have normals for finding similar map points, but did not."
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
 
@@ -492,7 +493,7 @@ def find_best_unique_correspondences(
         pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20
     )  # shape: [P 1]
     # compute ray dist
-    frame_points = rgbdimages.global_vertex_map[
+    frame_points = rgbdimages.to_channels_last().global_vertex_map[
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
     ]
     ray_dists = (
@@ -654,6 +655,7 @@ def fuse_with_map(
         pointclouds = pointclouds.clone()
 
     # Fuse points (from live frame) with corresponding global map points
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
     rgb_image = rgbdimages.rgb_image
-- 
2.43.0


From ca570907e4b507768c458fe59a53db3020bda983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 15/56] fix: association tables of maps with more than 2**24
 points

Point indices went through single precision, which rounds them above 2**24.
---
 gradslam/slam/fusionutils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 7bacb42..1bbf88a 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -4,7 +4,6 @@ from typing import Union
 import torch
 from kornia.geometry.linalg import inverse_transformation
 
-from ..geometry.geometryutils import create_meshgrid
 from ..structures.pointclouds import Pointclouds
 from ..structures.rgbdimages import RGBDImages
 from ..structures.utils import pointclouds_from_rgbdimages
@@ -273,12 +272,14 @@ def find_active_map_points(
         -1,
     )  # height, width
     batch_size, num_points = in_plane_pos.shape[:2]
-    batch_point_idx = (
-        create_meshgrid(batch_size, num_points, normalized_coords=False)
-        .squeeze(0)
-        .to(device)
+    batch_point_idx = torch.stack(
+        torch.meshgrid(
+            torch.arange(batch_size, device=device),
+            torch.arange(num_points, device=device),
+        ),
+        -1,
     )
-    idx_and_plane_pos = torch.cat([batch_point_idx.long(), in_plane_pos], -1)
+    idx_and_plane_pos = torch.cat([batch_point_idx, in_plane_pos], -1)
     pc2im_bnhw = idx_and_plane_pos[is_in_frame]  # (?, 4)
 
     if pc2im_bnhw.shape[0] == 0:
@@ -509,11 +510,11 @@ def find_best_unique_correspondences(
     )
     # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
+        pc2im_bnhw[:, 0:1].double(),  # float cannot hold indices above 2**24
+        pc2im_bnhw[:, 2:4].double(),
         inv_ccounts,
         ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 1:2].double(),
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0


From 3e2d7bf7a5187aa25a2de205952ea18df7e83621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 16/56] fix: first-order translation term of se3_exp for tiny
 rotations

---
 gradslam/geometry/se3utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/se3utils.py b/gradslam/geometry/se3utils.py
index e2fd57e..9794545 100644
--- a/gradslam/geometry/se3utils.py
+++ b/gradslam/geometry/se3utils.py
@@ -88,7 +88,7 @@ def se3_exp(xi: torch.Tensor) -> torch.Tensor:
 
     if omega.norm() < _eps:
         R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
+        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + 0.5 * omega_hat
     else:
         theta = omega.norm()
         s = theta.sin()
-- 
2.43.0


From dffbd43bc50a746d560fb85457e1fcaeb64edac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 17/56] fix: dist_thresh of ICP is a distance, not a squared
 distance

---
 gradslam/odometry/icputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index f767ec2..1dfc498 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -203,7 +203,7 @@ def gauss_newton_solve(
     dist_filter = (
         torch.ones_like(dist1[0], dtype=torch.bool)
         if dist_thresh is None
-        else dist1[0] < dist_thresh
+        else dist1[0].sqrt() < dist_thresh  # knn_points returns squared distances
     )
     chamfer_indices = idx1[0][dist_filter].long()
 
-- 
2.43.0


From bf5ce289682e2ea119661c23834bd05c2a9752a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 18/56] fix: ICP without an initial transform starts from the
 identity

---
 gradslam/odometry/icputils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 1dfc498..3340ed7 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,15 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +466,15 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From 2a456766350b0f42e81d9627766e322b13272a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 19/56] fix: ICP of double-precision point clouds

---
 gradslam/odometry/gradicp.py  | 3 ++-
 gradslam/odometry/icp.py      | 3 ++-
 gradslam/odometry/icputils.py | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/gradicp.py b/gradslam/odometry/gradicp.py
index acc3baa..ce71822 100644
--- a/gradslam/odometry/gradicp.py
+++ b/gradslam/odometry/gradicp.py
@@ -99,7 +99,8 @@ class GradICPOdometryProvider(OdometryProvider):
             )
 
         device = maps_pointclouds.device
-        initial_transform = torch.eye(4, device=device)
+        dtype = frames_pointclouds.points_list[0].dtype
+        initial_transform = torch.eye(4, dtype=dtype, device=device)
 
         transforms = []
         for b in range(len(maps_pointclouds)):
diff --git a/gradslam/odometry/icp.py b/gradslam/odometry/icp.py
index 02a76dd..c38fc69 100644
--- a/gradslam/odometry/icp.py
+++ b/gradslam/odometry/icp.py
@@ -78,7 +78,8 @@ class ICPOdometryProvider(OdometryProvider):
             )
 
         device = maps_pointclouds.device
-        initial_transform = torch.eye(4, device=device)
+        dtype = frames_pointclouds.points_list[0].dtype
+        initial_transform = torch.eye(4, dtype=dtype, device=device)
 
         transforms = []
         for b in range(len(maps_pointclouds)):
diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 3340ed7..43721db 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -83,7 +83,7 @@ def solve_linear_system(
 
     # Construct the normal equations
     A_t = torch.transpose(A, 0, 1)
-    damp_matrix = torch.eye(A.shape[1]).to(A.device)
+    damp_matrix = torch.eye(A.shape[1], dtype=A.dtype, device=A.device)
     At_A = torch.matmul(A_t, A) + damp_matrix * damp
 
     # Solve the normal equations (for now, by inversion!)
@@ -197,7 +197,8 @@ def gauss_newton_solve(
     tgt_pc = tgt_pc.contiguous()
     tgt_normals = tgt_normals.contiguous()
 
-    _KNN = knn_points(src_pc, tgt_pc)
+    # knn_points only supports single precision (it only selects the pairs here)
+    _KNN = knn_points(src_pc.float(), tgt_pc.float())
     dist1, idx1 = _KNN.dists.squeeze(-1), _KNN.idx.squeeze(-1)
 
     dist_filter = (
-- 
2.43.0


From c190093bb5097b8d59bb0a6e9bfa5bac51c35185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 20/56] fix: ICP against an empty target keeps the initial
 transform

---
 gradslam/odometry/icputils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 43721db..101323c 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -206,6 +206,9 @@ def gauss_newton_solve(
         if dist_thresh is None
         else dist1[0].sqrt() < dist_thresh  # knn_points returns squared distances
     )
+    if tgt_pc.shape[1] == 0:
+        # nothing to pair the source points with
+        dist_filter = torch.zeros_like(dist_filter)
     chamfer_indices = idx1[0][dist_filter].long()
 
     sx = src_pc[0, dist_filter, 0].view(-1, 1)
-- 
2.43.0


From 4d2a98a5b8d28596507596001e9679161727b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 21/56] fix: SLAM step only updates the live frame's poses when
 inplace is requested

---
 gradslam/slam/icpslam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index ea337f7..95fee09 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -173,6 +173,8 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
+        if not inplace:
+            live_frame = live_frame.clone()
         live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
         pointclouds = self._map(pointclouds, live_frame, inplace)
         return pointclouds, live_frame.poses
-- 
2.43.0


From b6d04170cf12430bbb0874569313b5bf1a638960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 22/56] fix: SLAM on double-precision frames keeps their
 precision

---
 gradslam/slam/icpslam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index 95fee09..d2160d6 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -120,13 +120,16 @@ class ICPSLAM(nn.Module):
             )
         pointclouds = Pointclouds(device=self.device)
         batch_size, seq_len = frames.shape[:2]
-        recovered_poses = torch.empty(batch_size, seq_len, 4, 4).to(self.device)
+        dtype = frames.depth_image.dtype
+        recovered_poses = torch.empty(
+            batch_size, seq_len, 4, 4, dtype=dtype, device=self.device
+        )
         prev_frame = None
         for s in range(seq_len):
             live_frame = frames[:, s].to(self.device)
             if s == 0 and live_frame.poses is None:
                 live_frame.poses = (
-                    torch.eye(4, dtype=torch.float, device=self.device)
+                    torch.eye(4, dtype=dtype, device=self.device)
                     .view(1, 1, 4, 4)
                     .repeat(batch_size, 1, 1, 1)
                 )
-- 
2.43.0


From f0b8d5d65c9ca8ba4cf1db15cd636c0f4423747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 23/56] fix: unhomogenize_points: finite gradient for points at
 infinity

---
 gradslam/geometry/geometryutils.py | 5 ++++-
 gradslam/geometry/projutils.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index b6f4c4c..8ce8fb6 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -71,7 +71,10 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (the inner `where` keeps the gradient finite at w = 0)
+    ones: torch.Tensor = torch.ones_like(w)
+    finite: torch.Tensor = torch.abs(w) > eps
+    scale: torch.Tensor = torch.where(finite, 1.0 / torch.where(finite, w, ones), ones)
 
     return scale * pts[..., :-1]
 
diff --git a/gradslam/geometry/projutils.py b/gradslam/geometry/projutils.py
index 112c00a..3ba8316 100644
--- a/gradslam/geometry/projutils.py
+++ b/gradslam/geometry/projutils.py
@@ -84,7 +84,10 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (the inner `where` keeps the gradient finite at w = 0)
+    ones: torch.Tensor = torch.ones_like(w)
+    finite: torch.Tensor = torch.abs(w) > eps
+    scale: torch.Tensor = torch.where(finite, 1.0 / torch.where(finite, w, ones), ones)
 
     return scale * pts[..., :-1]
 
-- 
2.43.0


From a55c2e829dcc4712a28edf07c14a24ec08dea910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 24/56] fix: quaternion_to_axisangle: finite gradient at the
 identity

---
 gradslam/geometry/geometryutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 8ce8fb6..e30eb2a 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -107,7 +107,11 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     qy: torch.Tensor = quat[..., 1]
     qz: torch.Tensor = quat[..., 2]
     sin_sq_theta: torch.Tensor = qx * qx + qy * qy + qz * qz
-    sin_theta: torch.Tensor = torch.sqrt(sin_sq_theta)
+    # at the identity, sqrt and the division below have no finite gradient
+    nonzero: torch.Tensor = sin_sq_theta > 0.0
+    sin_theta: torch.Tensor = torch.sqrt(
+        torch.where(nonzero, sin_sq_theta, torch.ones_like(sin_sq_theta))
+    )
     cos_theta: torch.Tensor = quat[..., 3]
     two_theta: torch.Tensor = 2.0 * torch.where(
         cos_theta < 0.0,
@@ -117,7 +121,8 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
 
     k_pos: torch.Tensor = two_theta / sin_theta
     k_neg: torch.Tensor = 2.0 * torch.ones_like(sin_theta)
-    k: torch.Tensor = torch.where(sin_sq_theta > 0.0, k_pos, k_neg)
+    k_neg = torch.where(cos_theta < 0.0, -k_neg, k_neg)
+    k: torch.Tensor = torch.where(nonzero, k_pos, k_neg)
 
     axisangle: torch.Tensor = torch.zeros_like(quat)[..., :3]
     axisangle[..., 0] = qx * k
-- 
2.43.0


From 9cbcabec878d87661411663150c59aaa79b4c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 25/56] fix: read_trajectory: skip NaN and whitespace-only
 lines, keep indented stamps as str

---
 gradslam/datasets/tumutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..b656e52 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -43,6 +43,7 @@ images to depth images.
 This script contains helpers for reading the time stamps from e.g. the "rgb.txt" file and the "depth.txt" file, 
 and joining them by finding the best matches.
 """
+import sys
 from typing import Optional
 
 import numpy as np
@@ -114,12 +115,13 @@ def read_trajectory(filename: str, matrix: bool = True):
     for line in lines:
         line_list = []
         if len(line) > 0 and line[0] != "#":
-            for n, v in enumerate(line.split(" ")):
+            for v in line.split(" "):
                 v = v.strip()
                 if v != "":
-                    v = float(v) if n > 0 else v
+                    v = float(v) if len(line_list) > 0 else v
                     line_list.append(v)
-            list.append(line_list)
+            if len(line_list) > 0:
+                list.append(line_list)
     list_ok = []
     for i, l in enumerate(list):
         if l[4:8] == [0, 0, 0, 0]:
-- 
2.43.0


From 60215e6533c521a91358fd8c3d63765247d7e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 26/56] fix: transform44: degenerate quaternion gives the
 identity rotation

---
 gradslam/datasets/tumutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index b656e52..9b7f5e5 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -74,9 +74,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From ce81ec9e166a441b8e0b892c4ca54d8c9ecdd15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 27/56] fix: read_file_list: start and end count frames, not
 blank lines

---
 gradslam/datasets/tumutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 9b7f5e5..bfb5fba 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -177,9 +177,8 @@ def read_file_list(
     if end > len(lines):
         msg = '"end" was larger than number of frames in "{0}": {1} > {2}'
         warnings.warn(msg.format(filename, end, len(lines)))
-    list = list[start:end]
     list = [(l[0], l[1:]) for l in list if len(l) > 1]
-    return dict(list)
+    return dict(list[start:end])
 
 
 def associate(
-- 
2.43.0


From 31fa5e7893f8be5e13771a222647a3ac03127c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 28/56] fix: associate: matches in time order, not in string
 order

---
 gradslam/datasets/tumutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index bfb5fba..4c21685 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -214,5 +214,5 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    matches.sort(key=lambda match: float(match[0]))
     return matches
-- 
2.43.0


From 2d3f12fe31f3fb012072ab9041aaa5477ffacf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 29/56] fix: ICL: poses of the frames themselves when start > 0

---
 gradslam/datasets/icl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..8cf1f34 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -320,7 +320,8 @@ class ICL(data.Dataset):
                 with open(posesfile, "r") as f:
                     len_posesfile = sum(1 for line in f)
 
-            for line_num, line in enumerate(lines):
+            # the poses file covers the whole trajectory: count from its first frame
+            for line_num, line in enumerate(lines, self.start):
                 line = line.strip().split()
                 msg = "incorrect reading from ICL associations"
                 if line[3][:3] != "rgb":
-- 
2.43.0


From 6067fbcc50235ec128aa38d9841a4ae5b7a92143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 30/56] fix: ICL: reject a poses file that ends before the last
 frame

---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 8cf1f34..fe8880e 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -336,7 +336,7 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    if line_num * 4 + 3 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-- 
2.43.0


From 9537a75882be83e13148f2f2dfa5ca05a5a32c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 31/56] fix: ICL, TUM: accept a trailing newline in the file
 listing the sequences

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index fe8880e..8bc1e54 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -211,7 +211,7 @@ class ICL(data.Dataset):
         if isinstance(trajectories, str):
             if os.path.isfile(trajectories):
                 with open(trajectories, "r") as f:
-                    trajectories = tuple(f.read().split("\n"))
+                    trajectories = tuple(f.read().split())
                 valid_trajectory_dirs = list(trajectories)
             else:
                 raise ValueError(
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 41e2a70..415edbb 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -196,7 +196,7 @@ class TUM(data.Dataset):
         if isinstance(sequences, str):
             if os.path.isfile(sequences):
                 with open(sequences, "r") as f:
-                    sequences = tuple(f.read().split("\n"))
+                    sequences = tuple(f.read().split())
             else:
                 raise ValueError(
                     "incorrect filename: {} doesn't exist".format(sequences)
-- 
2.43.0


From ee20d0770638498c69a7f676d99460c5f14830da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 32/56] fix: Scannet: every sequence keeps its own length;
 reject end past the last frame

---
 gradslam/datasets/scannet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..459c42c 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -144,9 +144,9 @@ class Scannet(data.Dataset):
                 if full_sequence:
                     self.end = len(lines)
                     self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
-                    msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
+                if self.end > len(lines):
+                    msg = "end frame can't be larger than dataset sequence length but it was: %r > %r"
+                    raise ValueError(msg % (self.end, len(lines)))
                 lines = lines[self.start : self.end]
 
             for line in lines:
@@ -228,7 +228,7 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        for i in range(len(color_seq_path)):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From 8ce75f40fc0aa00b852fa90ee4d1d279c7d027ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 33/56] fix: nyu40_to_scannet20: leave the caller's label image
 alone

---
 gradslam/datasets/scannet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 459c42c..b09f15f 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -1,3 +1,4 @@
+import copy
 import glob
 import os
 from collections import OrderedDict
@@ -522,6 +523,7 @@ def nyu40_to_scannet20(label):
         (36, 19),
         (39, 20),
     ]
+    label = copy.deepcopy(label)
     for src, tar in remapping:
         label[np.where(label == src)] = tar
     return label
-- 
2.43.0


From 1dd05f547f41ebbf5771b0e0f9b8cbfb01897fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 34/56] fix: pointquaternion_to_homogeneous: leave the caller's
 tensor alone

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..9e3e348 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From 3efab9d725a856406b604e12d582bd7b52b65409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 35/56] fix: create_label_image: accept the documented
 name-to-colour palette

---
 gradslam/datasets/datautils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 9e3e348..4397304 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -258,6 +258,8 @@ def create_label_image(prediction: np.ndarray, color_palette: OrderedDict):
     label_image = np.zeros(
         (prediction.shape[0], prediction.shape[1], 3), dtype=np.uint8
     )
+    if isinstance(color_palette, dict):
+        color_palette = color_palette.values()
     for idx, color in enumerate(color_palette):
         label_image[prediction == idx] = color
     return label_image
-- 
2.43.0


From cb9014898b7ddda691907c29a73533ac7b9fb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 36/56] fix: CfgNode.merge_from_list: copy the given values

---
 gradslam/config/cfgnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..d513e3b 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -231,7 +231,7 @@ class CfgNode(dict):
                 d = d[subkey]
             subkey = key_list[-1]
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
-            value = self._decode_cfg_value(v)
+            value = self._decode_cfg_value(copy.deepcopy(v))
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
             d[subkey] = value
 
-- 
2.43.0


From 65fe6cc38f8bbd0a23c9d12ff0f0386080c8b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 37/56] fix: CfgNode: refuse to merge into a frozen
 configuration

---
 gradslam/config/cfgnode.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index d513e3b..db7ffcf 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -231,6 +231,7 @@ class CfgNode(dict):
                 d = d[subkey]
             subkey = key_list[-1]
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
+            _assert_mutable(d, full_key, v)
             value = self._decode_cfg_value(copy.deepcopy(v))
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
             d[subkey] = value
@@ -437,6 +438,7 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
 
     for k, v_ in a.items():
         full_key = ".".join(key_list + [k])
+        _assert_mutable(b, full_key, v_)
         v = copy.deepcopy(v_)
         v = b._decode_cfg_value(v)
 
@@ -493,6 +495,15 @@ def _check_and_coerce_cfg_value_type(replacement, original, key, full_key):
     )
 
 
+def _assert_mutable(cfg_node: CfgNode, full_key: str, value):
+    if cfg_node.is_frozen():
+        raise AttributeError(
+            "Attempted to merge {} as {}, but CfgNode is immutable".format(
+                value, full_key
+            )
+        )
+
+
 def _assert_with_logging(cond, msg):
     if not cond:
         logger.debug(msg)
-- 
2.43.0


From 1ed829355a1393258122fe49be0a2abbc8cce8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 38/56] fix: Pointclouds: reject lists whose items are not
 tensors

---
 gradslam/structures/pointclouds.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index b4089e3..63c4aa6 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -84,6 +84,10 @@ class Pointclouds(object):
             msg = "Expected features to be of same type as points (%r); got %r"
             raise TypeError(msg % (type(points), type(features)))
 
+        for value in (points, normals, colors, features):
+            if isinstance(value, list) and not all(torch.is_tensor(v) for v in value):
+                raise TypeError("Expected lists to only contain tensors")
+
         if points is not None and len(points) == 0:
             raise ValueError("len(points) (= 0) should be > 0")
 
@@ -1422,6 +1426,12 @@ class Pointclouds(object):
             raise TypeError(
                 "value must be list of torch.Tensors. Got {}".format(type(value))
             )
+        if not all(torch.is_tensor(v) for v in value):
+            raise TypeError(
+                "value must be list of torch.Tensors. Got list of {}".format(
+                    [type(v) for v in value]
+                )
+            )
         if not self.has_points:
             raise ValueError(
                 "cannot set list representation for an empty pointclouds object"
-- 
2.43.0


From 29f8bd2505421ffaca37ce1ee7856f60ef1209a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 39/56] fix: Pointclouds: reject operands that would broadcast
 the points to a larger shape

---
 gradslam/structures/pointclouds.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 63c4aa6..79deccd 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -424,9 +424,16 @@ class Pointclouds(object):
         if not self.has_points:
             return self
         # update padded representation
-        self._points_padded = self.points_padded + (
+        points_padded = self.points_padded + (
             offset * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)
         )
+        if points_padded.shape != self.points_padded.shape:
+            raise ValueError(
+                "Operand of shape {} is not compatible with points of shape {}".format(
+                    tuple(offset.shape), tuple(self.points_padded.shape)
+                )
+            )
+        self._points_padded = points_padded
 
         # update list representation when inferred
         self._points_list = None
@@ -456,11 +463,18 @@ class Pointclouds(object):
             return self
 
         # update padded representation
-        self._points_padded = (
+        points_padded = (
             self.points_padded
             * scale
             * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)
         )
+        if points_padded.shape != self.points_padded.shape:
+            raise ValueError(
+                "Operand of shape {} is not compatible with points of shape {}".format(
+                    tuple(scale.shape), tuple(self.points_padded.shape)
+                )
+            )
+        self._points_padded = points_padded
 
         # update list representation when inferred
         self._points_list = None
-- 
2.43.0


From 86ee2e6a6526868784b25926bc3191dfa6544057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 40/56] fix: point fusion: type errors for frames that are no
 RGBDImages

---
 gradslam/slam/fusionutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 1bbf88a..2dfe0c6 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -445,6 +445,12 @@ def find_best_unique_correspondences(
                 type(pointclouds)
             )
         )
+    if not isinstance(rgbdimages, RGBDImages):
+        raise TypeError(
+            "Expected rgbdimages to be of type gradslam.RGBDImages. Got {0}.".format(
+                type(rgbdimages)
+            )
+        )
     if not torch.is_tensor(pc2im_bnhw):
         raise TypeError(
             "Expected input pc2im_bnhw to be of type torch.Tensor. Got {0} instead.".format(
@@ -786,7 +792,6 @@ def update_map_fusion(
         gradslam.Pointclouds: Updated Pointclouds object containing global maps.
 
     """
-    batch_size, seq_len, height, width = rgbdimages.shape
     pc2im_bnhw = find_correspondences(pointclouds, rgbdimages, dist_th, dot_th)
     pointclouds = fuse_with_map(pointclouds, rgbdimages, pc2im_bnhw, sigma, inplace)
 
-- 
2.43.0


From 544186cf8e5c5c3268af70a67ae3ff6c66de30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 41/56] fix: fuse_with_map: reject unusable frames and maps
 before updating the map in place

---
 gradslam/slam/fusionutils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 2dfe0c6..efd499a 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -657,6 +657,18 @@ def fuse_with_map(
             raise ValueError(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
+        if pointclouds.num_features != 1:
+            raise ValueError(
+                "Expected 1 feature (ccount) per map point. Got {0}.".format(
+                    pointclouds.num_features
+                )
+            )
+        if len(rgbdimages) != len(pointclouds):
+            raise ValueError(
+                "Expected equal batch sizes for pointclouds and rgbdimages. Got {0} and {1} respectively.".format(
+                    len(pointclouds), len(rgbdimages)
+                )
+            )
 
     if not inplace:
         pointclouds = pointclouds.clone()
-- 
2.43.0


From cca0872e492420132e7044f013a1c0c23bed181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 42/56] fix: point_to_plane_ICP / gradICP: reject batches of
 source clouds instead of dropping all but the first

---
 gradslam/odometry/icputils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 101323c..d76f3ae 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -313,6 +313,12 @@ def point_to_plane_ICP(
                 initial_transform.shape
             )
         )
+    if src_pc.ndim != 3 or src_pc.shape[0] != 1:
+        raise ValueError(
+            "Expected src_pc.shape to be (1, N_s, 3). Got {0}.".format(
+                tuple(src_pc.shape)
+            )
+        )
     src_pc = src_pc.contiguous()
     tgt_pc = tgt_pc.contiguous()
     tgt_normals = tgt_normals.contiguous()
@@ -484,6 +490,12 @@ def point_to_plane_gradICP(
                 initial_transform.shape
             )
         )
+    if src_pc.ndim != 3 or src_pc.shape[0] != 1:
+        raise ValueError(
+            "Expected src_pc.shape to be (1, N_s, 3). Got {0}.".format(
+                tuple(src_pc.shape)
+            )
+        )
     src_pc = src_pc.contiguous()
     tgt_pc = tgt_pc.contiguous()
     tgt_normals = tgt_normals.contiguous()
-- 
2.43.0


From e5105ee03e691a4bda168a4a862877909e878912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 43/56] fix: SLAM step: a rejected in-place step leaves the
 live frame's poses alone

---
 gradslam/slam/icpslam.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index d2160d6..1488af7 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -1,4 +1,5 @@
 from typing import Optional, Union
+import copy
 import warnings
 
 import torch
@@ -176,11 +177,13 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
-        if not inplace:
-            live_frame = live_frame.clone()
-        live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
-        pointclouds = self._map(pointclouds, live_frame, inplace)
-        return pointclouds, live_frame.poses
+        # `live_frame` itself is only updated once the whole step has succeeded
+        frame = copy.copy(live_frame) if inplace else live_frame.clone()
+        frame.poses = self._localize(pointclouds, frame, prev_frame)
+        pointclouds = self._map(pointclouds, frame, inplace)
+        if inplace:
+            live_frame.poses = frame.poses
+        return pointclouds, frame.poses
 
     def _localize(
         self, pointclouds: Pointclouds, live_frame: RGBDImages, prev_frame: RGBDImages
-- 
2.43.0


From 0d32d549f023564fc3892515a5bf9508ee5b2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 44/56] fix: RGBDImages.plotly of channels-first images

---
 gradslam/structures/rgbdimages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 8d9bba1..72ab382 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -813,7 +813,8 @@ class RGBDImages(object):
                 "transition": {"duration": duration, "easing": "linear"},
             }
 
-        torch_rgb = self.rgb_image[index]
+        channels_last = self.to_channels_last()
+        torch_rgb = channels_last.rgb_image[index]
         if (torch_rgb.max() < 1.1).item():
             torch_rgb = torch_rgb * 255
         torch_rgb = torch.clamp(torch_rgb, min=0.0, max=255.0)
@@ -823,7 +824,7 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
-            torch_depth = self.depth_image[index, ..., 0]
+            torch_depth = channels_last.depth_image[index, ..., 0]
             scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
-- 
2.43.0


From b1fe44a4a942d18d50e38b071d785daa6552f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 45/56] fix: RGBDImages.plotly of sequences without any depth

---
 gradslam/structures/rgbdimages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 72ab382..95ca358 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -825,7 +825,12 @@ class RGBDImages(object):
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
             torch_depth = channels_last.depth_image[index, ..., 0]
-            scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
+            max_depth = torch_depth.detach().max()
+            scale = (
+                10 ** torch.log10(255.0 / max_depth).floor().item()
+                if max_depth > 0
+                else 1
+            )
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
                 numpy_to_plotly_image(d, i, True, scale)
-- 
2.43.0


From 4d6973430ca3b4371113462026862d6ec532d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 46/56] fix: Pointclouds exports: empty clouds, and one colour
 range for a cloud and its subsets

---
 gradslam/structures/pointclouds.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 79deccd..ad8596b 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1277,11 +1277,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() > 1.1).item():
+            if (torch_colors > 1.1).any().item():
                 torch_colors = torch_colors / 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
             pcd.colors = o3d.utility.Vector3dVector(numpy_colors)
@@ -1337,11 +1337,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() < 1.1).item():
+            if (torch_colors < 1.1).all().item():
                 torch_colors = torch_colors * 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
             marker_dict["color"] = numpy_colors
-- 
2.43.0


From e25200eba619799a25f7f8df39a55480699f6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 47/56] fix: ICL, TUM: names with spaces in the file listing
 the sequences

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 8bc1e54..9167b4e 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -211,7 +211,7 @@ class ICL(data.Dataset):
         if isinstance(trajectories, str):
             if os.path.isfile(trajectories):
                 with open(trajectories, "r") as f:
-                    trajectories = tuple(f.read().split())
+                    trajectories = tuple(x for x in f.read().split("\n") if x)
                 valid_trajectory_dirs = list(trajectories)
             else:
                 raise ValueError(
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 415edbb..0cdd4b5 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -196,7 +196,7 @@ class TUM(data.Dataset):
         if isinstance(sequences, str):
             if os.path.isfile(sequences):
                 with open(sequences, "r") as f:
-                    sequences = tuple(f.read().split())
+                    sequences = tuple(x for x in f.read().split("\n") if x)
             else:
                 raise ValueError(
                     "incorrect filename: {} doesn't exist".format(sequences)
-- 
2.43.0


From b53c88ca6c0735f72577fc51d678975d9bddaa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 48/56] fix: transform_pointcloud, transform_normals: reject
 transforms which are not a single (4, 4) matrix

---
 gradslam/geometry/geometryutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index e30eb2a..9c01a3b 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -776,7 +776,7 @@ def transform_pointcloud(pointcloud: torch.Tensor, transform: torch.Tensor):
                 pointcloud.shape[1]
             )
         )
-    if not transform.shape[-2:] == (4, 4):
+    if not transform.shape == (4, 4):
         raise ValueError(
             "transform should be of shape (4, 4), but was {} instead.".format(
                 transform.shape
@@ -824,7 +824,7 @@ def transform_normals(normals: torch.Tensor, transform: torch.Tensor):
                 normals.shape[1]
             )
         )
-    if not transform.shape[-2:] == (4, 4):
+    if not transform.shape == (4, 4):
         raise ValueError(
             "transform should be of shape (4, 4), but was {} instead.".format(
                 transform.shape
-- 
2.43.0


From 9082a5e4dffaae94f5af3326f67f186f2954632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 49/56] fix: point_to_plane_gradICP: step weights and gradients
 do not overflow for steep B, B2

---
 gradslam/odometry/icputils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index d76f3ae..5fbd4ee 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -549,13 +549,11 @@ def point_to_plane_gradICP(
         # NEW ADDITION: clamping to ensure gradient flow
         errdiff = errdiff.clamp(-70.0, 70.0)
 
-        damp_new = lambda_min + (lambda_max - lambda_min) / (
-            1 + torch.exp(-B * errdiff)
-        )
+        damp_new = lambda_min + (lambda_max - lambda_min) * torch.sigmoid(B * errdiff)
         damp = damp * damp_new
 
         # residual transform should be perturbed by sigmoid
-        sigmoid = 1 / ((1 + torch.exp(-B2 * errdiff)) ** (1 / nu))
+        sigmoid = torch.exp(torch.nn.functional.logsigmoid(B2 * errdiff) / nu)
 
         # calculate perturbation
         residual_transform = se3_exp(sigmoid * xi)
-- 
2.43.0


From 5bbd0c88404b8fa9057759a24adb04d9eb6bf5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 50/56] fix: ICL and TUM readers reject a zero seqlen or stride
 at construction with a value error

---
 gradslam/datasets/icl.py | 4 ++--
 gradslam/datasets/tum.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 9167b4e..4b98b6f 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -172,11 +172,11 @@ class ICL(data.Dataset):
         self.seqlen = seqlen
         self.stride = stride
         self.dilation = dilation
-        if seqlen < 0:
+        if seqlen <= 0:
             raise ValueError("seqlen must be positive. Got {0}.".format(seqlen))
         if dilation < 0:
             raise ValueError('"dilation" must be positive. Got {0}.'.format(dilation))
-        if stride < 0:
+        if stride <= 0:
             raise ValueError("stride must be positive. Got {0}.".format(stride))
 
         if not (isinstance(start, int) or start is None):
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 0cdd4b5..da1d7a0 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -167,11 +167,11 @@ class TUM(data.Dataset):
         self.seqlen = seqlen
         self.stride = stride
         self.dilation = dilation
-        if seqlen < 0:
+        if seqlen <= 0:
             raise ValueError('"seqlen" must be positive. Got {0}.'.format(seqlen))
         if dilation < 0:
             raise ValueError('"dilation" must be positive. Got {0}.'.format(dilation))
-        if stride < 0:
+        if stride <= 0:
             raise ValueError('"stride" must be positive. Got {0}.'.format(stride))
 
         if not (isinstance(start, int) or start is None):
-- 
2.43.0


From 3aa0de264cd3a5e23f33c7ed6740a9fc393457e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 51/56] fix: TUM reader reports a short folder name as a naming
 error

---
 gradslam/datasets/tum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index da1d7a0..2b3633a 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -223,10 +223,10 @@ class TUM(data.Dataset):
             if os.path.isdir(os.path.join(basedir, item)):
                 split = item.split("_")
                 if (
-                    split[0] != "rgbd"
+                    len(split) < 4
+                    or split[0] != "rgbd"
                     or split[1] != "dataset"
                     or split[2][:-1] != "freiburg"
-                    or len(split) < 4
                 ):
                     msg = 'Incorrect folder names in "basedir" ({0}). '.format(basedir)
                     msg += "Folder names of extracted .tgz files from TUM should follow the following naming "
-- 
2.43.0


From 0661da97f719204997050e4348ba0de9e7c76fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 52/56] fix: get_color_encoding rejects unknown segmentation
 class sets

---
 gradslam/datasets/scannet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index b09f15f..0ad23cd 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -478,6 +478,9 @@ def get_color_encoding(seg_classes):
                 ("otherfurniture", (82, 84, 163)),
             ]
         )
+    raise ValueError(
+        'seg_classes must be "nyu40" or "scannet20". Got "{0}".'.format(seg_classes)
+    )
 
 
 def nyu40_to_scannet20(label):
-- 
2.43.0


From 33d2311afe7b886157b1e352e01c285e44caf2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 53/56] fix: ICL and TUM items own their intrinsics instead of
 sharing the reader's tensor

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 4b98b6f..b045105 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -447,7 +447,7 @@ class ICL(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 2b3633a..cb046bf 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -408,7 +408,7 @@ class TUM(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
-- 
2.43.0


From 41461c2b83c84e59bbcc3978b7f95afa26c7ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 54/56] fix: RGBDImages: missing depth marked by NaN gives zero
 vertices instead of NaN vertices and normals

---
 gradslam/structures/rgbdimages.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 95ca358..7c03cc1 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -662,16 +662,22 @@ class RGBDImages(object):
         Kinv = inverse_intrinsics(self._intrinsics)[..., :3, :3]
         # TODO: Time tests for all einsums. Might not be efficient (especially on cpu).
         Kinv = Kinv.repeat(1, L, 1, 1)
+        # missing depth values may also be marked by NaN, which 0 * NaN would keep
+        depth = torch.where(
+            self.valid_depth_mask,
+            self._depth_image,
+            torch.zeros_like(self._depth_image),
+        )
         # Add an extra channel of ones to meshgrid for z values
         if self.channels_first:
             self._vertex_map = (
                 torch.einsum("bsjc,bshwc->bsjhw", Kinv, self._pixel_pos)
-                * self._depth_image
+                * depth
             )
         else:
             self._vertex_map = (
                 torch.einsum("bsjc,bshwc->bshwj", Kinv, self._pixel_pos)
-                * self._depth_image
+                * depth
             )
         # zero out missing depth values
         self._vertex_map = self._vertex_map * self.valid_depth_mask.to(
-- 
2.43.0


From 7d61b006475ca59feb99d6001036f419e6ba07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 55/56] fix: RGBDImages.plotly: missing depth marked by NaN or
 a negative value is shown as 0

---
 gradslam/structures/rgbdimages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 7c03cc1..6addfbf 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -830,7 +830,10 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
+            # missing depth values (not positive or NaN) are shown as 0
+            valid = channels_last.valid_depth_mask[index, ..., 0]
             torch_depth = channels_last.depth_image[index, ..., 0]
+            torch_depth = torch.where(valid, torch_depth, torch.zeros_like(torch_depth))
             max_depth = torch_depth.detach().max()
             scale = (
                 10 ** torch.log10(255.0 / max_depth).floor().item()
-- 
2.43.0


From 2898af54da1dd79dbae01533426d3dd4b0cecd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:20 +0000
Subject: [PATCH 56/56] fix: keep the damping of point_to_plane_gradICP finite,
 so that long runs do not return NaN

---
 gradslam/odometry/icputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 5fbd4ee..1e54ff5 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -550,7 +550,8 @@ def point_to_plane_gradICP(
         errdiff = errdiff.clamp(-70.0, 70.0)
 
         damp_new = lambda_min + (lambda_max - lambda_min) * torch.sigmoid(B * errdiff)
-        damp = damp * damp_new
+        # the damping grows without bound once converged: keep it finite
+        damp = (damp * damp_new).clamp(max=torch.finfo(dtype).max)
 
         # residual transform should be perturbed by sigmoid
         sigmoid = torch.exp(torch.nn.functional.logsigmoid(B2 * errdiff) / nu)
-- 
2.43.0

