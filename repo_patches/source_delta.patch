From 29b56c03c35fb23a7627a88c53d6407e184dae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 01/29] fix: forward element and perturbation options in
 UniformCircularArray

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..3c6ff38 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From a014094d5287ab33cac8b7ad507f8ba2c971fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 02/29] fix: accept the documented 20-element MRLA preset

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 3c6ff38..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From 1d47a72685e760e75d04e667b427837d6fa3dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 03/29] fix: convert list inputs of GainErrors and PhaseErrors

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..c795762 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From 6aa772af45bf12f39da3887c4bc88ee44d24d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 04/29] fix: reject non-square mutual coupling matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index c795762..92a8b65 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From 6c7d8e7f4c341e7674189780b39d646ed6b2df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 05/29] fix: return a pair from
 ArrayPerturbation.is_applicable_to

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 92a8b65..2478317 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -41,7 +41,7 @@ class ArrayPerturbation:
             applicable. The second element is a string describing why this
             perturbation is not applicable.
         """
-        return True
+        return True, ''
 
     def perturb_sensor_locations(self, locations):
         """Perturbs the given sensor locations.
-- 
2.43.0


From b96606284f2238267eb5d83d36add4f74d5ebe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 06/29] fix: build the amplitude column of RandomPhaseSignal
 from a scalar

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From 937109b940df96bfb945608bad1c8f6f79d546c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 07/29] fix: raise ValueError for out-of-range far-field 1D
 locations

---
 doatools/model/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..06a451b 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -197,8 +197,8 @@ class FarField1DSourcePlacement(SourcePlacement):
         lb, ub = FarField1DSourcePlacement.VALID_RANGES[unit]
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
-                "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                "When unit is '{0}', source locations must be within [{1}, {2}]."
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From 800998adbbe789b41d84e3ac3d779750774049b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 08/29] fix: check both dimensions of the covariance matrix

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From 0ee57faa4ea3b9097a7b8cc75545d30bee4f1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 09/29] fix: implement create_refined_grid_at in
 NearField2DSearchGrid

---
 doatools/estimation/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..20750a9 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -414,7 +414,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From 2b57dc498f1d7b80a38d1e5cd23b7a6fa7e31a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 10/29] fix: lay out multi-range far-field 1D grids

---
 doatools/estimation/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 20750a9..fc9b092 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,11 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 3577bd3192715f88367139505250a1cded065287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 11/29] fix: apply ESPRIT row weights to copies of the
 overlapping subarrays

---
 doatools/estimation/esprit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..664c5cd 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,8 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            Es1 = Es1 * row_weights[:, np.newaxis]
+            Es2 = Es2 * row_weights[:, np.newaxis]
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From 5a03b8d164ba530b0c5b5778f2e3248336b102d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 12/29] fix: discard only one root of each pair on the unit
 circle in root-MUSIC

---
 doatools/estimation/music.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 00f960e..f341493 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -161,6 +161,9 @@ class RootMUSIC1D:
         nz = len(z)
         mask = np.ones((nz,), dtype=np.bool_)
         for i in range(nz):
+            if not mask[i]:
+                # Already discarded as the pair of another root.
+                continue
             absz = abs(z[i])
             if absz > 1.0:
                 # Outside the unit circle.
-- 
2.43.0


From 6c418325d527c70f023fe7787bad50ebbb069849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 13/29] fix: look up location errors by perturbation type in
 plot_array

---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0591ec3 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
 from ..model.coarray import compute_unique_location_differences
+from ..model.perturbations import LocationErrors
 
 def _auto_scatter(ax, x, *args, **kwargs):
     """Scatter plots the input points (1D, 2D, or 3D).
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From 3da36ceb9302e3b92af50c2ca8dc4abe592d42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 14/29] fix: draw 1D spectra on the supplied axes

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From 0a83acc4ed7ed19c443bfbe3eddd2a54d770af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 15/29] fix: return a copy from actual_element_locations

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..67baf93 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -131,7 +131,7 @@ class ArrayDesign:
         locations = self._locations
         for p in self._perturbations.values():
             locations = p.perturb_sensor_locations(locations)
-        return locations
+        return locations.copy()
 
     @property
     def element(self):
-- 
2.43.0


From e99dcbaa1a69e8931ee3db8020ce287533576178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 16/29] fix: use the spacing of the array for the virtual ULA
 in ecov_coarray_music_1d

---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..bdb080c 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0)
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From 69fbc685e93686863d75585c28449380c84ff3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 17/29] fix: support integer locations and location errors

---
 doatools/model/perturbations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 2478317..352b7e5 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -154,13 +154,15 @@ class LocationErrors(ArrayPerturbation):
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            perturbed_locations = locations.astype(
+                np.result_type(locations, self._params))
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(
+                np.result_type(locations, self._params))
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From 23c1e1ae2c9f81b578d2543c8e97edb6d12ef784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 18/29] fix: support integer matrices in spatial_smooth

---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0


From d4ae5adc80dfd51490f02b2c16f1286442119deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 19/29] fix: store source locations as floating-point numbers

---
 doatools/model/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 06a451b..2870594 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,6 +17,8 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
+        if not np.issubdtype(locations.dtype, np.floating):
+            locations = locations.astype(np.float64)
         self._locations = locations
         self._units = units
 
-- 
2.43.0


From ade70839df406a4cea84acb9a047a7b50bbb8437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 20/29] fix: account for vector sensors in output_size

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 67baf93..6b86fcc 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From 9295f5fd473dd7ae54f84263765cf5affd90643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 21/29] fix: use squared magnitudes for the power block of the
 Fisher information

---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..9351c10 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.conj() * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From 315d8e127690a40bb1ab8bd6d07b343f4ab79e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:45 +0000
Subject: [PATCH 22/29] fix: add the colorbar to the figure of the given axes

---
 doatools/plotting/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 3743bde..622d4e4 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -180,7 +180,7 @@ def plot_spectrum_2d(sp, grid, ax, estimates=None, ground_truth=None,
     if use_log_scale:
         plot_args['norm'] = LogNorm()
     containers.append(ax.imshow(sp, **plot_args))
-    plt.colorbar(containers[0], ax=ax)
+    ax.figure.colorbar(containers[0], ax=ax)
     ax.set_xlabel(x_label)
     ax.set_ylabel(y_label)
     if estimates is not None:
-- 
2.43.0


From 739e6a1230f467e3bbea5b327520ddf6d80e19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:45 +0000
Subject: [PATCH 23/29] fix: do not truncate the MUSIC spectrum of integer
 matrices

---
 doatools/estimation/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index f341493..872940f 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -24,7 +24,7 @@ def f_music(A, En):
             noise subspace.
     """
     v = En.T.conj() @ A
-    return np.reciprocal(np.sum(v * v.conj(), axis=0).real)
+    return 1.0 / np.sum(v * v.conj(), axis=0).real
 
 class MUSIC(SpectrumBasedEstimatorBase):
     """Creates a spectrum-based MUSIC estimator.
-- 
2.43.0


From 340da463fd8e5ccac9ba6efe0f082e6c2a2f6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 24/29] fix: compute the eigenvalue product of ld_stat in
 floating point

---
 doatools/estimation/source_number.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d11dfd8..672617b 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -18,7 +18,7 @@ def ld_stat(l, n_sources, n_snapshots):
     n_sensors = l.size
     diff = n_sensors - n_sources
     l = l[:diff]
-    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l)**(1./diff)))
+    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l, dtype=np.float_)**(1./diff)))
 
 def aic(x, n_snapshots):
     """Detects source numbers using AIC.
-- 
2.43.0


From 529e2bf64ab68b857bd848e0a81472290b90b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 25/29] fix: return an empty index vector from unique_rows for
 empty inputs

---
 doatools/utils/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 56c298f..646738a 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -125,7 +125,7 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     n, m = x.shape
     # Handle the empty case
     if n == 0:
-        return (x.copy(), np.zeros((0, m))) if return_index else x.copy()
+        return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
     # Scale the relative tolerance according to the maximum absolute value in x.
     xmin, xmax = np.nanmin(x), np.nanmax(x)
     tol = atol + rtol * max(abs(xmin), abs(xmax))
-- 
2.43.0


From 2fce171e3772ddbc925a549a37235bf670285c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 26/29] fix: do not reject covariances with determinant below
 one in f_nll_stouc

---
 doatools/estimation/ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..032c593 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,7 +11,7 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    if sgn <= 0:
         return np.Inf
     return logdet + np.trace(np.linalg.solve(S, R))
 
-- 
2.43.0


From b743cfcc463e108b56a5c212f8422b3d6a9b5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 27/29] fix: build the virtual ULA of arrays without a name

---
 doatools/estimation/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/coarray.py b/doatools/estimation/coarray.py
index ee9d3e5..da7f47f 100644
--- a/doatools/estimation/coarray.py
+++ b/doatools/estimation/coarray.py
@@ -51,7 +51,7 @@ class CoarrayACMBuilder1D:
             corresponding to the augmented covariance matrix.
         """
         if name is None:
-            name = 'Virtual ULA of ' + self._array.name
+            name = 'Virtual ULA of {0}'.format(self._array.name)
         return UniformLinearArray(self.output_size, self._array.d0, name)
 
     def transform(self, R, method='ss'):
-- 
2.43.0


From 235440734e2b7218739bed6eddc6e53ada91a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 28/29] fix: keep the elements of 3D arrays inside the adjusted
 view

---
 doatools/plotting/plot_array.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 0591ec3..ead63a4 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -32,10 +32,8 @@ def _fix_3d_aspect(ax):
         return
     # Force similar ranges and re-scales the view.
     for i in range(3):
-        if ranges[i] == 0:
-            limits[i] = [-max_range / 2.0, max_range / 2.0]
-        else:
-            limits[i] = [limits[i][0] * max_range / ranges[i], limits[i][1] * max_range / ranges[i]]
+        center = (limits[i][0] + limits[i][1]) / 2.0
+        limits[i] = [center - max_range / 2.0, center + max_range / 2.0]
     # This method is not documented but judging from its source it should do
     # the job for us.
     ax.auto_scale_xyz(limits[0], limits[1], limits[2])
-- 
2.43.0


From d22231b21abd3e6d08a6e98a5bbc06f5f4d625a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:12 +0000
Subject: [PATCH 29/29] fix: refuse zero-dimensional far-field 1D locations

---
 doatools/model/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 2870594..8b21511 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -189,7 +189,7 @@ class FarField1DSourcePlacement(SourcePlacement):
     def __init__(self, locations, unit='rad'):
         if isinstance(locations, list):
             locations = np.array(locations)
-        if locations.ndim > 1:
+        if locations.ndim != 1:
             raise ValueError('1D numpy array expected.')
         if unit not in FarField1DSourcePlacement.VALID_RANGES:
             raise ValueError(
-- 
2.43.0

