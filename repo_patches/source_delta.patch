From e15fe2740a27abf8cf62f31cff421cad4d2b9f56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 01/48] fix: contact surface module cannot be imported
 (unquoted self-reference in annotation)

---
 hyvr/geo/contact_surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..1c8caad 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -32,12 +32,12 @@ class ContactSurface:
             self.zmin = self.z
             self.zmax = self.z
 
-        elif self.mode == "dem":
+        elif kwargs['mode'] == "dem":
             raise NotImplementedError("This is not implemented yet!")
 
 
 
-    def use_lower_surface_value(self, other_surface: ContactSurface ):
+    def use_lower_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
@@ -48,7 +48,7 @@ class ContactSurface:
 
 
 
-    def use_higher_surface_value(self, other_surface: ContactSurface ):
+    def use_higher_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
-- 
2.43.0


From 1783943520999ee64098ea4b07d3ecdda80b3a50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 02/48] fix: sin, cos and sqrt are not defined in the
 conductivity tensor and curve interpolation routines

---
 hyvr/optimized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..ac68241 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -4,6 +4,8 @@ This module contains optimized versions of routines that were once in sim or uti
 :Author: Samuel Scherrer
 """
 
+from math import sin, cos, sqrt
+
 import numpy as np
 import numpy.typing as npt
 
-- 
2.43.0


From 35ebedf5041c575a47a3c7bde147b7e95fda55ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 03/48] fix: np.float no longer exists in numpy, so no model
 arrays could be created

---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/channel_ae.pyx    | 28 ++++++++++++++--------------
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 hyvr/geo/sheet_ae.pyx      | 16 ++++++++--------
 hyvr/geo/trough_ae.pyx     | 34 +++++++++++++++++-----------------
 7 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..aefcdf7 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=np.float64)
+    dip_array = np.zeros((nx, ny, nz), dtype=np.float64)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=np.float64)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..d7a04e9 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_dip = np.zeros(self.n_objects, dtype=np.float64)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 43edc15..4a1bad5 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -16,17 +16,17 @@ cdef class ChannelAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_width = np.zeros(self.n_objects, dtype=np.float)
-        self.object_depth = np.zeros(self.n_objects, dtype=np.float)
-        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_width = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_depth = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float64)
         self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
-        self.object_ztop = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float)
+        self.object_ztop = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
@@ -59,10 +59,10 @@ cdef class ChannelAE(AERealization):
             max_len_centerline = np.max(self.object_len_centerline)
         else:
             max_len_centerline = 0
-        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
+        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             for j in range(self.object_len_centerline[i]):
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..b6e5503 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..d1ec85c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/sheet_ae.pyx b/hyvr/geo/sheet_ae.pyx
index 4123a52..a11d644 100644
--- a/hyvr/geo/sheet_ae.pyx
+++ b/hyvr/geo/sheet_ae.pyx
@@ -9,20 +9,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 5f05c34..54565ab 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -17,23 +17,23 @@ cdef class TroughAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i
-        self.object_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_b = np.zeros(self.n_objects, dtype=np.float)
-        self.object_c = np.zeros(self.n_objects, dtype=np.float)
-        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float)
-        self.object_alpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
+        self.object_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_b = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_c = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_alpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
 
-- 
2.43.0


From 7dea81ed19e8cb37766f66f0c4df5dfcd569daf4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 04/48] fix: sheets lack the zero defaults of the former cdef
 class, so no sheet element could be built

---
 hyvr/geo/sheet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..7960bbf 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -11,18 +11,18 @@ class Sheet:
     This class holds parameters for single sheet objects.
     """
     dipsets: npt.NDArray[np.float64]
-    num_facies: npt.NDArray[np.float64]
+    num_facies: int = 0
     zmin: npt.NDArray[np.float64]
     zmax: npt.NDArray[np.float64]
     dip: npt.NDArray[np.float64]
     azim: npt.NDArray[np.float64]
-    shift: npt.NDArray[np.float64]
-    layer_dist: npt.NDArray[np.float64]
-    normvec_x: npt.NDArray[np.float64]
-    normvec_y: npt.NDArray[np.float64]
-    normvec_z: npt.NDArray[np.float64]
-    facies: npt.NDArray[np.int32]
-    num_ha: npt.NDArray[np.int32]
+    shift: float = 0.0
+    layer_dist: float = 0.0
+    normvec_x: float = 0.0
+    normvec_y: float = 0.0
+    normvec_z: float = 0.0
+    facies: int = 0
+    num_ha: int = 0
     facies_array: npt.NDArray[np.int32]
     bottom_surface: ContactSurface
     top_surface: ContactSurface
-- 
2.43.0


From e4cc842b99dfd1712d815ab26a9dd1d4d5442dca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 05/48] fix: unique object numbers never reach the arrays used
 for assigning cells

---
 hyvr/geo/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b6e5503..d1f65a7 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -144,8 +144,10 @@ class Model:
             for ae in stratum.aes:
                 ae.num = num_ae
                 num_ae += 1
-                for obj in ae.object_list:
+                for oi, obj in enumerate(ae.object_list):
                     obj.num_ha = num_ha
+                    # the arrays were created before the objects were numbered
+                    ae.object_num_ha[oi] = num_ha
                     num_ha += 1
 
 
-- 
2.43.0


From 7f85bf68dec2bb2013d2ef39e773c317ec17477c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 06/48] fix: top of the uppermost stratum ignores the grid
 origin z0

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index d1f65a7..20b3779 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From edf71752ef9e60836beeeb30c0005ca38fad1587 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 07/48] fix: homogeneous hydraulic parameters need the removed
 option 'hydro'

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 20b3779..df86b41 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -284,7 +284,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From 547a41e7b434dfedebc80ba629502038230acf25 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 08/48] fix: background heterogeneity is written into the first
 object instead of the background

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index df86b41..fd69d91 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -229,9 +229,9 @@ class Model:
                 # for si, aei in enumerate(ae_lu):
                 for stratum in self.strata:
                     for ae in stratum.aes:
-                        m0 = ha_arr == 0
+                        m0 = ha_arr == -1    # background cells belong to no object
                         ms = ae_arr == ae.num
-                        ae_mask = m0 & ms     # Get material that equals zero within in architectural element
+                        ae_mask = m0 & ms     # Get background material within architectural element
                         if np.all(ae_mask == False):
                             continue
 
-- 
2.43.0


From d6ae474594ffe534a223ad7db403f4fb08fcd9a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 09/48] fix: element trends scale the whole domain, and
 x-trends are missing from the k_iso and poros output

---
 hyvr/geo/model.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index fd69d91..a25abfc 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -258,14 +258,18 @@ class Model:
                         # Assign background anisotropy ratio
                         anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
 
-                        # Assign architectural element trends
-                        if ae.type_params['k_ztrend'] is not None:
-                            # Vertical trend
-                            zf_vec = np.linspace(*ae.type_params['k_ztrend'], self.grid.nz)  # Z factor at each elevation
-                            k_iso *= zf_vec
-                        if ae.type_params['k_xtrend'] is not None:
-                            xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                # Assign architectural element trends to the cells of the element
+                for stratum in self.strata:
+                    for ae in stratum.aes:
+                        ms = ae_arr == ae.num
+                        for arr, name in [(k_iso, 'k'), (poros, 'n')]:
+                            if ae.type_params[name + '_ztrend'] is not None:
+                                # Vertical trend
+                                zf_vec = np.linspace(*ae.type_params[name + '_ztrend'], self.grid.nz)  # Z factor at each elevation
+                                arr[ms] = (arr * zf_vec)[ms]
+                            if ae.type_params[name + '_xtrend'] is not None:
+                                xf_vec = np.linspace(*ae.type_params[name + '_xtrend'], self.grid.nx)
+                                arr[ms] = np.transpose(arr.transpose() * xf_vec)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
@@ -273,14 +277,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso[...] = np.transpose(k_iso.transpose() * xf_vec)
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros[...] = np.transpose(poros.transpose() * xf_vec)
 
         else:
             # Homogeneous case
-- 
2.43.0


From 9203c836da3a11a43ed0b6c7970bfb169795ba3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 10/48] fix: cells whose centre lies exactly on a contact
 surface are not assigned to any stratum

---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index aefcdf7..e192f3f 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From 0d6955ecde0386364f26e80dc7015a6bab12a7c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 11/48] fix: sheets are not limited to the bottom of their
 architectural element

---
 hyvr/geo/sheet_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index d1ec85c..8a1b806 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From 96022e1ee45747b4abf3df626f1d4e17a853b63f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 12/48] fix: dipping sheets have too few layers, so cells index
 past the end of the facies list

---
 hyvr/geo/sheet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 7960bbf..3a365fb 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -73,9 +73,12 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # No point of the domain is further away from the zero-plane than
+            # the length of the domain diagonal plus the random shift, and the
+            # zero-plane is in the middle of the facies array.
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            diagonal = np.sqrt(grid.lx**2 + grid.ly**2 + grid.lz**2)
+            self.num_facies = 2*int(np.ceil(diagonal/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From 6d1df1b998284b1aa5f25996289bbe122c81f9fd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:26 +0000
Subject: [PATCH 13/48] fix: expanding a flat shape with more than two
 dimensions mixes up the outer dimensions

---
 hyvr/input/option_parsing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index b11d1b9..9ad3e0f 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -400,8 +400,8 @@ def expand_shape(shape):
     """
     expanded = [shape[0]]
     for i in range(1, len(shape)):
-        next = [shape[i]] * shape[i-1]
-        for j in range(1, i):
+        next = shape[i]
+        for j in range(i-1, -1, -1):
             next = [next] * shape[j]
         expanded.append(next)
     return expanded
-- 
2.43.0


From e1d8428eb56f90d38c770f556b8d0d9a40dbc715 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:26 +0000
Subject: [PATCH 14/48] fix: malformed lists are accepted or truncated, lists
 of lists of lists can not be parsed

---
 hyvr/input/option_parsing.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 9ad3e0f..a9c4673 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -467,18 +467,29 @@ def parse_list(string, dtype):
     """
     # l =  string.replace('[', '').replace(']', '').replace(' ', '').split(',')
     s = string.replace(' ', '') # remove all spaces first
-    if s[0] == '[': # it's not only a single item
-        s = s[1:-1] # remove [ and ] from start and end only
-    else: # it's just a single item
+    if not s.startswith('['): # it's just a single item
+        if '[' in s or ']' in s or ',' in s:
+            raise ValueError('Invalid list: ' + string)
         return dtype(s)
-    if s[0] == '[': # it's a list of lists
-        splitted = s.split('],')
-        for i in range(len(splitted)-1):
-            splitted[i] += ']' # splitting removed the closing bracket from all but the last item
-        l = list(map(lambda x: parse_list(x, dtype), splitted))
-    else:
-        splitted = s.split(',')
-        l = list(map(dtype, splitted))
+    # split at the commas that are not inside of an inner list
+    splitted = ['']
+    depth = 0
+    for i, char in enumerate(s):
+        if char == '[':
+            depth += 1
+        elif char == ']':
+            depth -= 1
+        if depth == 0 and i != len(s) - 1:
+            raise ValueError('Invalid list: ' + string)
+        if char == ',' and depth == 1:
+            splitted.append('')
+        elif 0 < i < len(s) - 1: # leave out [ and ] from start and end only
+            splitted[-1] += char
+    if depth != 0:
+        raise ValueError('Invalid list: ' + string)
+    l = [parse_list(item, dtype) for item in splitted]
+    if len(set(map(numdim, l))) > 1:
+        raise ValueError('Invalid list, the entries have different depths: ' + string)
     return l
 
 def parse_bool(section, optionname):
-- 
2.43.0


From f4edd2b46e77e1591b494362de1a9eeebd918020 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:22 +0000
Subject: [PATCH 15/48] fix: single values are not expanded to all dimensions,
 wrong depths raise IndexError

---
 hyvr/input/option_parsing.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index a9c4673..718e1a2 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -265,12 +265,12 @@ class Option():
                 # if it's flat, it might contain dimensions with -1 that cannot be
                 # autoexpanded. We first need to determine the shape of this dimension.
                 if is_flat(shape):
-                    real_shape = get_shape(value)
-                    if isinstance(real_shape, (list, tuple)):
-                        # if it's just a single number we can expand it
+                    if isinstance(value, (list, tuple)):
                         # Here I'm trying to find the flat shape of the value that was
                         # given in the configuration file.
-                        flat_shape_value = try_flattening_shape(real_shape)
+                        flat_shape_value = try_flattening_shape(get_shape(value))
+                        if len(flat_shape_value) > len(shape):
+                            raise ShapeError(self.name, section.name)
                         # It might happen that we cannot flatten the shape, in this
                         # case there are negative values remaining in flat_shape_value.
                         # If there are, this means that there is a dimension
@@ -283,17 +283,20 @@ class Option():
                         # mind that there might be -1 values left.
                         if flat_shape_value != shape[-len(flat_shape_value):]:
                             raise ShapeError(self.name, section.name)
-                        # If there are -1's left we must ensure that the "depth" of
-                        # the given value, i.e. the number of dimensions, is higher
-                        # than the ``number of dimensions after the value preceding
-                        # the first -1`` + 1 .
-                        if any(map(lambda x: x == -1, shape)):
-                            depth = numdim(value)
-                            mindepth = len(shape) - shape.index(-1) + 1
-                            if depth < mindepth:
-                                raise ValueError('Option ' + self.name + ' in section ' +
-                                                section.name + ' can not be expanded!')
-                        shape = expand_shape(shape)
+                    # If there are -1's left we must ensure that the "depth" of
+                    # the given value, i.e. the number of dimensions, is higher
+                    # than the ``number of dimensions after the value preceding
+                    # the first -1`` + 1 . A single number has depth 0.
+                    depth = numdim(value)
+                    if any(map(lambda x: x == -1, shape)):
+                        mindepth = len(shape) - shape.index(-1) + 1
+                        if depth < mindepth:
+                            raise ValueError('Option ' + self.name + ' in section ' +
+                                            section.name + ' can not be expanded!')
+                    if depth == len(shape):
+                        # nothing to expand
+                        return value
+                    shape = expand_shape(shape)
 
                 # Now we have an expanded shape, so only two tasks remain:
                 # * auto-expansion
@@ -408,7 +411,7 @@ def expand_shape(shape):
 
 def expand_to_shape(shape, value):
     depth = numdim(value)
-    if depth != len(shape):
+    if depth < len(shape):
         value = _expand_to_shape(shape[-1-depth], value)
     return value
 
-- 
2.43.0


From 30cea130fa0158011264328a301113aa9f07b6cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:23 +0000
Subject: [PATCH 16/48] fix: bulbset_dist is required for structure 'bulb'
 instead of 'bulb_sets'

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..c640797 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -280,7 +280,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From 3e56a9f8a4593ff247d8e195e549c930d54a8dd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:23 +0000
Subject: [PATCH 17/48] fix: unknown background facies of a stratum raise
 TypeError instead of the intended error

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index c640797..b6d720f 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -226,7 +226,7 @@ def parse_inifile(p):
     try:
         strata['bg_facies'] = parse_facies(strata['bg_facies'], hydraulics['hydrofacies'])
     except:
-        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + strata['bg_facies'])
+        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + str(strata['bg_facies']))
 
 
     # flowtrans section
-- 
2.43.0


From e821773ab3636c4f14c7e938c982e9e5ab9cce2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:23 +0000
Subject: [PATCH 18/48] fix: background dip, lag facies and extruded parabolas
 of old ini-files are converted wrongly

---
 hyvr/input/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index b6d720f..10b28d6 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -341,9 +341,9 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem = elements[elem_name]
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
-            elem['bg_facies'] = elem['bg'][0]
+            elem['bg_facies'] = int(elem['bg'][0])
             elem['bg_azim'] = elem['bg'][1]
-            elem['bg_dip'] = elem['bg'][1]
+            elem['bg_dip'] = elem['bg'][2]
         else:
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
@@ -354,11 +354,13 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
+        elif elem['geometry'] == 'ext_par':
+            elem['geometry'] = 'channel'
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
                 elem['lag_height'] = elem['lag'][0]
-                elem['lag_facies'] = elem['lag'][1]
+                elem['lag_facies'] = int(elem['lag'][1])
             else:
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
-- 
2.43.0


From cdad2e25f601abd7a12df7d2c47237ec526b5737 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:52 +0000
Subject: [PATCH 19/48] fix: channels and nested bulbs of old ini-files are not
 converted to the new option names

---
 hyvr/input/parameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 10b28d6..1a1deb6 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -351,11 +351,17 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem['dipset_dist'] = elem['dipset_d']
         if 'bulbset_d' in elem:
             elem['bulbset_dist'] = elem['bulbset_d']
+        if elem['structure'] == 'bulb_l':
+            elem['structure'] = 'bulb_sets'
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
         elif elem['geometry'] == 'ext_par':
             elem['geometry'] = 'channel'
+            elem['channel_no'] = int(elem['channel_no'])
+            elem['flow_angle'] = 0.0
+            elem['mig'] = None
+            elem['azimuth'] = [0.0, 0.0]
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
-- 
2.43.0


From 3b850157ca943e7f7937e168a96720c28bf51f9f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:52 +0000
Subject: [PATCH 20/48] fix: run name is empty for ini-files that merely end
 with 'autogenerated_backup.ini'

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 1a1deb6..302f1dc 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -124,7 +124,7 @@ def parameters(inifile):
     ini_path = pathlib.Path(inifile).parent.resolve()
     ini_name = pathlib.Path(inifile).name
     if run['runname'] is None:
-        if ini_name.endswith("autogenerated_backup.ini"):
+        if ini_name.endswith("_autogenerated_backup.ini"):
             run['runname'] = ini_name[0:-25]
         else:
             run['runname'] = ".".join(ini_name.split('.')[0:-1])
-- 
2.43.0


From 0e1d68324141889fb69d8e1214c3e5ddd6880207 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:52 +0000
Subject: [PATCH 21/48] fix: a model directory given in the ini-file or at the
 prompt can not be used

---
 hyvr/input/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 302f1dc..904074e 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -101,7 +101,7 @@ def parameters(inifile):
         # this is probably caused by a wrong encoding
         p.read(inifile, encoding='utf-8-sig')
     if len(p.sections()) == 0:
-        raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
+        raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
     old_format = 'dataoutputs' in dict(p['run'])
     if old_format:
@@ -149,10 +149,12 @@ def parameters(inifile):
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
                 run['modeldir'] = pathlib.Path(directory).resolve()
+        else:
+            run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From 52635b56b339eef6bd8c315c3bb7c7718c4fb80d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:52 +0000
Subject: [PATCH 22/48] fix: the overwrite flag passed to a run is ignored

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 904074e..01e4dfc 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -508,7 +508,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output is True:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From fa94cfa653402047f608d72164f5aca10e3a1ce5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 23/48] fix: old ini-files with an AE table raise NameError
 before they are rejected

---
 hyvr/input/parameters.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 01e4dfc..7852894 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -451,11 +451,6 @@ def parse_deprecated_inifile(p):
 
     strata = Section('strata', old_options['strata']).parse(dict(p['strata']))
     del sections[sections.index('strata')]
-    if strata['ae_table'] is not None:
-        ae_table = pathlib.Path(inifile).parent / strata['ae_table']
-        if not ae_table.exists():
-            raise FileNotFoundError('ae_table-file {:s} not found!'.format(ae_table))
-
     hydraulics = Section('hydraulics', old_options['hydraulics']).parse(dict(p['hydraulics']))
     del sections[sections.index('hydraulics')]
 
-- 
2.43.0


From df31cb4943e759d5c32879049aaef5adfece1996 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 24/48] fix: a missing run section raises KeyError instead of
 MissingSectionError

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 7852894..54c18e5 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -103,7 +103,7 @@ def parameters(inifile):
     if len(p.sections()) == 0:
         raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
-    old_format = 'dataoutputs' in dict(p['run'])
+    old_format = p.has_option('run', 'dataoutputs')
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
-- 
2.43.0


From 4e3705dd6b6b59d9b0075028ac6a8853a69a8369 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 25/48] fix: capitalised contact modes are accepted by the
 parser but not by the contact surface

---
 hyvr/geo/contact_surface_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/contact_surface_utils.py b/hyvr/geo/contact_surface_utils.py
index bdf9b30..6902f36 100644
--- a/hyvr/geo/contact_surface_utils.py
+++ b/hyvr/geo/contact_surface_utils.py
@@ -2,7 +2,7 @@ import numpy as np
 
 def parse_contact_model(param_list, depth=False):
     mode = param_list[0].strip("\"'")
-    cm = {'mode': mode}
+    cm = {'mode': mode.lower()}
     param_idx = 1
     if depth:
         if len(param_list) < 2:
-- 
2.43.0


From 382c8cf75366853ab8b4461d6a4fa1d84a4ae168 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 26/48] fix: a missing contact_model raises TypeError instead
 of MissingOptionError

---
 hyvr/input/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/options.py b/hyvr/input/options.py
index a4edcab..1cfde56 100644
--- a/hyvr/input/options.py
+++ b/hyvr/input/options.py
@@ -78,7 +78,7 @@ options['strata'] = [
 element_options = [
     Option('geometry', str, optional=False,
            validation_func=lambda x: x in ['trough', 'channel', 'sheet']),
-    Option('contact_model', list, optional=True, shape=[-1], datatype=str),
+    Option('contact_model', list, optional=False, shape=[-1], datatype=str),
     Option('facies', list, optional=False, shape=[-1], datatype=str),
     Option('altfacies', list, optional=True, shape=['facies', -1], datatype=str),
     Option('size_ztrend', list, optional=True, shape=2, datatype=float),
-- 
2.43.0


From d998a742323e9b831df197c068328648cc6d7baf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 27/48] fix: vtr node coordinates can have one entry too many
 because of rounding

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..e055b54 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -155,9 +155,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = model.grid.x0 + model.grid.dx*np.arange(model.grid.nx+1)
+        yv = model.grid.y0 + model.grid.dy*np.arange(model.grid.ny+1)
+        zv = model.grid.z0 + model.grid.dz*np.arange(model.grid.nz+1)
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From 890f0d68820b54de82874324c48032f436653ea2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 28/48] fix: mf6 layer bottoms are rounded to millimetres and
 can have one entry too many

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index e055b54..d28c046 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -299,7 +299,7 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
-- 
2.43.0


From 1162e2729ad6073737e362ffd93fc331b112e5d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 29/48] fix: row and column widths of the MODFLOW grids are
 interchanged

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index d28c046..5216fb4 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -193,7 +193,7 @@ def to_modflow(model, fname):
     zbot = model.grid.z0
     botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.nx, model.grid.ny, 
-                                   delr=model.grid.dx, delc=model.grid.dy,
+                                   delr=model.grid.dy, delc=model.grid.dx,
                                    top=ztop, botm=botm[1:])
 
     # Variables for the BAS package
@@ -304,8 +304,8 @@ def to_mf6(model, fname):
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
                                                    ncol=model.grid.nx,
-                                                   delr=model.grid.dy,
-                                                   delc=model.grid.dx,
+                                                   delr=model.grid.dx,
+                                                   delc=model.grid.dy,
                                                    top=ztop,
                                                    botm=botm[1:],
                                                    filename='{}.dis'.format(runname))
-- 
2.43.0


From 03c05428163b231b52ea8ebb6a3e05a72e98f5ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 30/48] fix: MODFLOW models are upside down

---
 hyvr/postprocess/output.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 5216fb4..aaabc14 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -208,10 +208,11 @@ def to_modflow(model, fname):
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
     # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))
+    # (MODFLOW layers are counted from the top, HyVR cells from the bottom)
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))[::-1]
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))[::-1]
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
@@ -256,12 +257,13 @@ def to_mf6(model, fname):
     mfname = str(mfdir / runname)
 
     # Transpose HyVR arrays for MF6 input
+    # (MODFLOW layers are counted from the top, HyVR cells from the bottom)
     transpose_order = (2, 1, 0)
-    k_iso = np.transpose(model.data['k_iso'], transpose_order)
+    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
     if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
-        anirat = np.transpose(model.data['anirat'], transpose_order)
-        dip = np.transpose(model.data['dip'], transpose_order)
-        azim = np.transpose(model.data['azim'], transpose_order)
+        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
+        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
+        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
         xt3d = True
     else:
         xt3d = False
-- 
2.43.0


From 805d524070e8511aa95c8d550c700703ad6e75d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 31/48] fix: mf6 output with a head gradient instead of heads
 raises NameError

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index aaabc14..653c960 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -331,9 +331,9 @@ def to_mf6(model, fname):
         hin = model.flowtrans['hin'][0]
         hout = model.flowtrans['hout'][0]
 
-    elif flowtrans['gradh'] is not None:
+    elif model.flowtrans['gradh'] is not None:
         hout = 1
-        hin = hout + model.grid.lx * flowtrans['gradh']
+        hin = hout + model.grid.lx * model.flowtrans['gradh']
 
     if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
         chd_rec = []
-- 
2.43.0


From 94733647aae4dbd497cd1dc0d10e4ad915618be5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:35 +0000
Subject: [PATCH 32/48] fix: parts of a stratum below crossing contact surfaces
 stay without element

---
 hyvr/geo/stratum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/stratum.py b/hyvr/geo/stratum.py
index 6c35563..4aa16f8 100644
--- a/hyvr/geo/stratum.py
+++ b/hyvr/geo/stratum.py
@@ -48,7 +48,10 @@ class Stratum:
         # choose type of first AE
         curr_ae_type = prob_choose(self.ae_types, self.params['ae_prob'])
         znow = self.top_surface.zmean
-        while znow > self.bottom_surface.zmean:
+        # contact surfaces that cross can leave over parts of a stratum even if
+        # its mean bottom is not below its mean top
+        has_space = np.any(self.top_surface.surface > self.bottom_surface.surface)
+        while znow > self.bottom_surface.zmean or (has_space and not self.aes):
 
             num_type = self.ae_type_names.index(curr_ae_type.name)
 
-- 
2.43.0


From 58b26f68ddaa57d8716c1ddbdddcbd23b61c75cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:27 +0000
Subject: [PATCH 33/48] fix: random fields lose a whole slab of the spectrum
 instead of the mean mode

syy[0] indexes the first row (slab) of a 2-d (3-d) spectrum. Only the zero
frequency is meant.
---
 hyvr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..9f31137 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -512,7 +512,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy[(0,) * syy.ndim] = 0
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From 6f09cb579d02e98a723d3743e75397fb80cdb5fd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:01 +0000
Subject: [PATCH 34/48] fix: without a file extension the run directory is the
 directory of the ini-file, which --overwrite empties

---
 hyvr/input/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 54c18e5..76ed2d5 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -123,11 +123,11 @@ def parameters(inifile):
     # in the test case runname is given
     ini_path = pathlib.Path(inifile).parent.resolve()
     ini_name = pathlib.Path(inifile).name
-    if run['runname'] is None:
+    if not run['runname']:
         if ini_name.endswith("_autogenerated_backup.ini"):
             run['runname'] = ini_name[0:-25]
         else:
-            run['runname'] = ".".join(ini_name.split('.')[0:-1])
+            run['runname'] = pathlib.Path(inifile).stem
 
 
     # separate task: find modeldir
-- 
2.43.0


From 0d30a0ab0240a91cc7d045e933f562b99c171658 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:29 +0000
Subject: [PATCH 35/48] fix: mf6 output uses solver option names that flopy no
 longer accepts

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 653c960..171e025 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -286,11 +286,11 @@ def to_mf6(model, fname):
     ims = flopy.mf6.ModflowIms(sim,
                                print_option='SUMMARY',
                                complexity='COMPLEX',
-                               outer_hclose=1e-3,
+                               outer_dvclose=1e-3,
                                outer_maximum=500,
                                under_relaxation='NONE',
                                inner_maximum=100,
-                               inner_hclose=1e-4,
+                               inner_dvclose=1e-4,
                                rcloserecord=0.001,
                                linear_acceleration='BICGSTAB',
                                scaling_method='NONE',
-- 
2.43.0


From 29f0cccc1e6fb83f7b975e681ebeb47e82b7c348 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:05 +0000
Subject: [PATCH 36/48] fix: mf6 output does not switch on XT3D, so bedding
 orientation is ignored

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 171e025..f0f8f1b 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -315,7 +315,7 @@ def to_mf6(model, fname):
     """ Create Node Property Flow package object """
     if xt3d is True:
         npf_package = flopy.mf6.ModflowGwfnpf(gwf,
-                                              save_flows=True, icelltype=0, xt3doptions='',
+                                              save_flows=True, icelltype=0, xt3doptions=True,
                                               k=k_iso,                                  # within-bedding hydraulic conductivity
                                               k33=k_iso/anirat,                         # across-bedding hydraulic conductivity
                                               angle1=azim,                              # azimuth
-- 
2.43.0


From e240cb416d63b55f7bd7ea6c2f509c850531f5c0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:29 +0000
Subject: [PATCH 37/48] fix: links in the run directory make overwriting fail
 or are left behind

---
 hyvr/input/parameters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 76ed2d5..7d3fc12 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -508,10 +508,11 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.is_file():
-                    path.unlink()
-                elif path.is_dir():
+                if path.is_dir() and not path.is_symlink():
                     shutil.rmtree(path)
+                else:
+                    # files and links (but not what the links point to)
+                    path.unlink()
         else:
             raise FileExistsError(
                 "Run directory already exists and overwrite flag is "
-- 
2.43.0


From e479079b9282399c9527569ec3d863fc9b262ee8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 38/48] fix: channel elements with a size trend raise TypeError

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 4a1bad5..e4e725e 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -112,7 +112,7 @@ cdef class ChannelAE(AERealization):
         dz = self.type_params['agg']
         if self.type_params['size_ztrend'] is not None:
             z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
-            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
         else:
             zfactor = 1
         depth = self.type_params['depth'] * zfactor
-- 
2.43.0


From e97d04e4c4c1121f8a20e089d5643bc88c84e22a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 39/48] fix: channels do not start at the edge of domains whose
 origin is not zero

---
 hyvr/geo/channel_ae.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index e4e725e..152d145 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -133,8 +133,8 @@ cdef class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = grid.y0 + grid.ly/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = grid.x0 + grid.lx/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From 1cd303d20e0775c7f3003abcc93741066435ae0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 40/48] fix: cells inside a channel are skipped if cells are
 longer than one in y-direction

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 152d145..29c4407 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -268,7 +268,7 @@ cdef class ChannelAE(AERealization):
                     #
                     #     y(x) = sqrt(radius**2 - x**2)
                     #
-                    ny = int(sqrt(radius**2 - (i*grid.dx)**2))
+                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
                     for j in range(ny):
                         if y_idx-j >= 0 and y_idx+j < grid.ny:
                             self.object_dont_check[oi,x_idx+i, y_idx+j] = 1
-- 
2.43.0


From feba598597101e206a672f452ef95cc3c3a1b991 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 41/48] fix: dipsets of channels index before the start of the
 facies list

---
 hyvr/geo/channel_ae.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 29c4407..26e558c 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -297,9 +297,10 @@ cdef class ChannelAE(AERealization):
                 # different, as the point is not directly orthogonal to the closest point.
                 # However, if the point density on the centerline is high
                 # enough, it won't really matter.
-                # To correct for the distance in z-direction we subtract |dz| * cos(dip)
-                # note that dz is negative here
-                d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
+                # To correct for the distance in z-direction we add the height
+                # above the channel bottom times cos(dip), so d is not negative
+                d = dist_along_curve * self.object_sin_dip[oi]\
+                    + (dz + self.object_depth[oi])*self.object_cos_dip[oi] + self.object_shift[oi]
                 n = int(d/self.object_layer_dist[oi])
                 geo_ids[0] = self.object_facies_array[oi,n]
                 return
-- 
2.43.0


From 71d5af5b31c7df3dc3877d9e722dfc2dca1aa0cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 42/48] fix: given trough positions that are not sorted by
 height are assigned in the wrong order

---
 hyvr/geo/trough_ae.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 54565ab..059d318 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -70,7 +70,8 @@ cdef class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # objects must be ordered from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: -xyz[2])
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From e68d0dd3064cbd2dd696c1365e5f191bd604b70f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 43/48] fix: normal vectors of bulbs in rotated troughs are
 rotated in the wrong direction

---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 059d318..60767ae 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -209,8 +209,8 @@ cdef class TroughAE(AERealization):
             #
             # The gradient is (up to a scalar)
             #
-            #             /  nx*cos/a + ny*sin/b  \
-            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             /  nx*cos/a - ny*sin/b  \
+            # grad f(x) = |  nx*sin/a + ny*cos/b  |
             #             \          nz/c         /
             #
             # where nx, ny, nz are the normalized distances.
@@ -229,8 +229,8 @@ cdef class TroughAE(AERealization):
             len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
             if len_normvec != 0:
                 normvec_x = (aaa*self.object_cosalpha[oi]
-                             + bbb*self.object_sinalpha[oi])/len_normvec
-                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             - bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (aaa*self.object_sinalpha[oi]
                              + bbb*self.object_cosalpha[oi])/len_normvec
                 normvec_z = ccc/len_normvec
                 len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
-- 
2.43.0


From e86f6d792e567a7766826ff552be577cd2968e65 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 44/48] fix: noise of channel centrelines has mean one instead
 of zero

---
 hyvr/geo/channel_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_utils.py b/hyvr/geo/channel_utils.py
index 3aaadba..25132ef 100644
--- a/hyvr/geo/channel_utils.py
+++ b/hyvr/geo/channel_utils.py
@@ -130,7 +130,7 @@ def ferguson_theta(s, eps_factor, k, h):
         else:
             t1 = th_store[idex-1]
             t2 = th_store[idex-2]
-            eps = np.random.normal(1)*eps_factor
+            eps = np.random.normal()*eps_factor
 
         th_store[idex] = thetaAR2(t1, t2, k, h, eps)
 
-- 
2.43.0


From 55a5a4e824f575dfbe8c32af060fe79020be92ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 45/48] fix: interpolation along a curve stops after a fraction
 of the curve

---
 hyvr/optimized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index ac68241..af995fe 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -104,6 +104,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
     t = np.arange(xc[0], nc, spacing * 0.1)
     xc = np.interp(t, np.arange(nc), xc)
     yc = np.interp(t, np.arange(nc), yc)
+    nc = len(xc)  # the curve has more points now
     tol = spacing
     ic, idx = 0, [0]
     while ic < nc:
-- 
2.43.0


From 21785c092f27b7b0323a74da50d0404e9ac9de9a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:10 +0000
Subject: [PATCH 46/48] fix: sign of numpy floats raises TypeError

---
 hyvr/optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index af995fe..88e95a5 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -72,7 +72,7 @@ def set_anisotropic_ktensor(ktensors: npt.NDArray[np.float64],
 
 
 def sign(x: float):
-    return (x >= 0) - (x < 0)
+    return int(x >= 0) - int(x < 0)
 
 
 
-- 
2.43.0


From 4280120b12a9437f97d7fb32e2e97de2a6a81368 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 47/48] fix: cross sections show the wrong cells unless the
 spacing is one

---
 hyvr/postprocess/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 7e677c2..55e2609 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -46,7 +46,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for yi in y:
         fig, ax = plt.subplots()
-        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2)/model.grid.dy)))
+        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
                     model.data[field][:,y_index,:].T, cmap=cmap)
@@ -63,7 +63,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for xi in x:
         fig, ax = plt.subplots()
-        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2)/model.grid.dx)))
+        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
                     model.data[field][x_index,:,:].T, cmap=cmap)
-- 
2.43.0


From 860c6a7fc3a0cfc861bf2acbe0a82167b8c31ba2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 48/48] fix: cross sections ignore that the logarithm is asked
 for

---
 hyvr/postprocess/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 55e2609..c123cb2 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -44,12 +44,14 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
     if np.isscalar(x):
         x = [x]
 
+    data = np.log10(model.data[field]) if log else model.data[field]
+
     for yi in y:
         fig, ax = plt.subplots()
         y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
-                    model.data[field][:,y_index,:].T, cmap=cmap)
+                    data[:,y_index,:].T, cmap=cmap)
             ax.set_title(field + ', y = {:.2f}'.format(yi))
             ax.set_xlabel('x')
             ax.set_ylabel('z')
@@ -66,7 +68,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
         x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
-                    model.data[field][x_index,:,:].T, cmap=cmap)
+                    data[x_index,:,:].T, cmap=cmap)
             ax.set_title(field + ', x = {:.2f}'.format(xi))
             ax.set_xlabel('y')
             ax.set_ylabel('z')
-- 
2.43.0

