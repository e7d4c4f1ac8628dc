From a0a245c6ae4efa19c77c961f1760d69f69c3dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 01/16] fix: UniversalKriging loop backend used the
 drift-column index to pick the specified drift value

The value of a specified drift term at kriging point j is entry j of the
flattened drift array; the loop backend took entry i (the matrix column).
---
 src/pykrige/uk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..7b34fd0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1067,7 +1067,7 @@ class UniversalKriging:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From 8e93e8ec4efa5600780f0fbd8d3a96ae601ae106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 02/16] fix: UniversalKriging3D loop backend used the
 drift-column index to pick the specified drift value

---
 src/pykrige/uk3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..d25b2ca 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From 417115e1f02fb1f4f7830032ad6a4a74fba9d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 03/16] fix: UniversalKriging loop backend crashed when a
 kriging point coincides with a point-log drift location

log_dist is a scalar there, so masked assignment raised TypeError.
---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7b34fd0..7c22bfb 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From 5e62abed8dfccca8c45238aacdcfc30d0895b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 04/16] fix: UniversalKriging.update_variogram_model left
 point-log drift locations in the old anisotropy frame

The data points were re-adjusted but the well locations were not, so distances
were computed between two different coordinate frames.
---
 src/pykrige/uk.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7c22bfb..802c938 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -448,6 +448,7 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
+            self.point_log_orig = point_log
             self.point_log_array = np.zeros(point_log.shape)
             self.point_log_array[:, 2] = point_log[:, 2]
             self.point_log_array[:, :2] = _adjust_for_anisotropy(
@@ -721,6 +722,13 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                self.point_log_array[:, :2] = _adjust_for_anisotropy(
+                    np.vstack((self.point_log_orig[:, 0], self.point_log_orig[:, 1])).T,
+                    [self.XCENTER, self.YCENTER],
+                    [self.anisotropy_scaling],
+                    [self.anisotropy_angle],
+                )
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From 12616fb58b5342243d680dbdb294875983a884ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 05/16] fix: execute failed with a ufunc casting error for
 integer-valued kriging coordinates

The anisotropy adjustment subtracts the centre in place, which numpy refuses
for integer arrays; convert the points to float like the data coordinates.
---
 src/pykrige/ok.py   | 4 ++--
 src/pykrige/ok3d.py | 6 +++---
 src/pykrige/uk.py   | 4 ++--
 src/pykrige/uk3d.py | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..8815c8d 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -839,8 +839,8 @@ class OrdinaryKriging:
             # later in the code.
             raise ValueError("n_closest_points has to be at least two!")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..10a7200 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -830,9 +830,9 @@ class OrdinaryKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
+        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 802c938..504707d 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1176,8 +1176,8 @@ class UniversalKriging:
 
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
         nx = xpts.size
         ny = ypts.size
         if self.regional_linear_drift:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d25b2ca..18fa68c 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -978,9 +978,9 @@ class UniversalKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
+        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
         if self.regional_linear_drift:
-- 
2.43.0


From dcb6c538f49cc62f8dd195b49c51a96430af3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 06/16] fix: moving-window kriging with n_closest_points larger
 than the number of data points

cKDTree pads the missing neighbours with index n and infinite distance: the C
backend then read and wrote out of bounds (heap corruption), and the loop
backend failed deep inside scipy. Reject the request instead.
---
 src/pykrige/ok.py   | 2 ++
 src/pykrige/ok3d.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 8815c8d..e354f6b 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -842,6 +842,8 @@ class OrdinaryKriging:
         xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
+        if n_closest_points is not None and n_closest_points > n:
+            raise ValueError("n_closest_points exceeds the number of data points!")
         nx = xpts.size
         ny = ypts.size
         a = self._get_kriging_matrix(n)
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 10a7200..8dd4e9f 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -834,6 +834,8 @@ class OrdinaryKriging3D:
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
         zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
+        if n_closest_points is not None and n_closest_points > n:
+            raise ValueError("n_closest_points exceeds the number of data points!")
         nx = xpts.size
         ny = ypts.size
         nz = zpts.size
-- 
2.43.0


From ef64d74dff97dce58732620b1b0b4c2bbac54f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 07/16] fix: ClassificationKriging.predict returned class
 positions instead of class labels

---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..20dd3c4 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -167,7 +167,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return self.classes_[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From 178eedcf6545a9f9169d727129efcc21c6353d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 08/16] fix: read_zmap_grid could return coordinate arrays one
 element longer than the grid

np.arange overshoots by rounding; read_asc_grid already guards against it.
---
 src/pykrige/kriging_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..a518806 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -454,6 +454,10 @@ def read_zmap_grid(filename):
     gridx = np.arange(originx, originx + nx * dx, dx)
     gridy = np.arange(originy, originy + ny * dy, dy)
 
+    # np.arange tends to overshoot by one element due to rounding
+    gridx = gridx[:nx]
+    gridy = gridy[:ny]
+
     cellsize = (dx, dy)
 
     return z, gridx, gridy, cellsize, no_data_value, coord_sys
-- 
2.43.0


From fc37c8b3ebc01cdee18256d6d48c4e0c4f052ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 09/16] fix: write_asc_grid ran adjacent columns together for
 values of 16 or more characters

Such a file could not be read back; the layout of shorter values is unchanged.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index a518806..14f7cbc 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From add2d4f7487d6c04329169a4da0bf5cfe09c87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/16] fix: C backend rejected integer-valued variogram
 parameters

A list of ints gave an int64 array and a buffer dtype mismatch, while the other
backends accept it.
---
 src/pykrige/lib/cok.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..da6a9ad 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -36,7 +36,7 @@ cpdef _c_exec_loop(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
@@ -125,7 +125,7 @@ cpdef _c_exec_loop_moving_window(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0


From 6ff26dbe3899047eda8e49043cbfd09900a51ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 11/16] fix: C backend silently replaced a custom variogram
 function that shares a built-in's name

The Cython code selects its variogram by __name__.
---
 src/pykrige/ok.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index e354f6b..25d2119 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -915,6 +915,16 @@ class OrdinaryKriging:
             except:
                 raise RuntimeError("Unknown error in trying to load Cython extension.")
 
+            if (
+                backend == "C"
+                and self.variogram_function not in self.variogram_dict.values()
+            ):
+                # the Cython code picks its variogram by function name, so a
+                # user function could be mistaken for a built-in model
+                raise NotImplementedError(
+                    "Custom variogram models are not supported by the C backend."
+                )
+
             c_pars = {
                 key: getattr(self, key)
                 for key in [
-- 
2.43.0


From b5e7afff81c2a036774f412c684dec1425bb297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 12/16] fix: vectorized universal kriging failed when UNBIAS is
 switched off

The mask always had the size of the system with the unbiasedness row.
---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 504707d..ff25449 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -995,7 +995,7 @@ class UniversalKriging:
 
         if (~mask).any():
             mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
+                mask[:, np.newaxis, np.newaxis], b.shape[1], axis=1
             )
             b = np.ma.array(b, mask=mask_b)
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 18fa68c..4477925 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -789,7 +789,7 @@ class UniversalKriging3D:
 
         if (~mask).any():
             mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
+                mask[:, np.newaxis, np.newaxis], b.shape[1], axis=1
             )
             b = np.ma.array(b, mask=mask_b)
 
-- 
2.43.0


From f07890bcffaf2effb5e55b76f8c6938478f8cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 13/16] fix: keep own copies of the variogram parameter list
 and the functional drift list

Kriging objects stored the caller's lists themselves, so changing the list
after construction silently changed the model (linear, power and custom
variograms, functional drift terms).
---
 src/pykrige/core.py | 6 +++---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..b70dec4 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -330,7 +330,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'linear'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["power"]:
             if len(variogram_model_parameters) != 3:
@@ -340,7 +340,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'power'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["gaussian", "spherical", "exponential", "hole-effect"]:
             if len(variogram_model_parameters) != 3:
@@ -357,7 +357,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
             ]
 
         elif variogram_model in ["custom"]:
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         else:
             raise ValueError(
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index ff25449..110073f 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -506,7 +506,7 @@ class UniversalKriging:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 4477925..2170538 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -445,7 +445,7 @@ class UniversalKriging3D:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
-- 
2.43.0


From 89d3d72908f091228f10f88fd409fb80160fe70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 14/16] fix: read_zmap_grid cut the coordinate-system label at
 a colon and kept the leading blank

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 14f7cbc..6988693 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -400,9 +400,9 @@ def read_zmap_grid(filename):
         while True:
             line = f.readline()
             if line.startswith("!"):
-                line_strings = line.split(":")
+                line_strings = line.split(":", 1)
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = line_strings[1].strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
-- 
2.43.0


From adf3ef127cee06ac0e214f30fd477cef605e1c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 15/16] fix: Krige.fit failed for 2D methods with single-valued
 anisotropy tuples

---
 src/pykrige/compat.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index d0ca37c..a6b924f 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -213,11 +213,6 @@ class Krige(RegressorMixin, BaseEstimator):
             anisotropy_angle=self.anisotropy_angle[0],
             enable_statistics=self.enable_statistics,
             coordinates_type=self.coordinates_type,
-            anisotropy_scaling_y=self.anisotropy_scaling[0],
-            anisotropy_scaling_z=self.anisotropy_scaling[1],
-            anisotropy_angle_x=self.anisotropy_angle[0],
-            anisotropy_angle_y=self.anisotropy_angle[1],
-            anisotropy_angle_z=self.anisotropy_angle[2],
             drift_terms=self.drift_terms,
             point_drift=self.point_drift,
             external_drift=self.ext_drift_grid[0],
@@ -225,6 +220,15 @@ class Krige(RegressorMixin, BaseEstimator):
             external_drift_y=self.ext_drift_grid[2],
             functional_drift=self.functional_drift,
         )
+        if self.method in threed_krige:
+            # the 2D methods take tuples with a single value
+            add_setup.update(
+                anisotropy_scaling_y=self.anisotropy_scaling[0],
+                anisotropy_scaling_z=self.anisotropy_scaling[1],
+                anisotropy_angle_x=self.anisotropy_angle[0],
+                anisotropy_angle_y=self.anisotropy_angle[1],
+                anisotropy_angle_z=self.anisotropy_angle[2],
+            )
         for kw in krige_methods_kws[self.method]:
             setup[kw] = add_setup[kw]
         input_kw = self._dimensionality_check(x)
-- 
2.43.0


From 760f81a9e11a107569d288128abbfd713837a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 16/16] fix: write_asc_grid and write_zmap_grid accepted
 irregular spacing whose mean equals the first step

---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 6988693..b3c731f 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -75,8 +75,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.diff(x), x[1] - x[0]) or not np.allclose(
+        np.diff(y), y[1] - y[0]
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
@@ -289,8 +289,8 @@ def write_zmap_grid(
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.diff(x), x[1] - x[0]) or not np.allclose(
+        np.diff(y), y[1] - y[0]
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
-- 
2.43.0

