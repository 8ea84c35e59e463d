From 53aca45378812a171cace93c05a21bccec2cc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:30 +0000
Subject: [PATCH 01/10] fix: translate Slepian signals to the nearest sample of
 the grid

ssht.theta_to_index and ssht.phi_to_index truncate, so an angle lying exactly
on a sample can select the neighbouring one (e.g. phi index 11 at L=6).
---
 src/sleplet/slepian_methods.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 7c2cf46..9598c9e 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -160,8 +160,9 @@ def _compute_s_p_omega_prime(
 ) -> npt.NDArray[np.complex128]:
     """Pick out the desired angle from Sp(omega)."""
     sp_omega = compute_s_p_omega(L, slepian)
-    p = ssht.theta_to_index(beta, L, Method=sleplet._vars.SAMPLING_SCHEME)
-    q = ssht.phi_to_index(alpha, L, Method=sleplet._vars.SAMPLING_SCHEME)
+    thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
+    p = np.abs(thetas - beta).argmin()
+    q = np.abs(phis - alpha).argmin()
     sp_omega_prime = sp_omega[:, p, q]
     # pad with zeros so it has the expected shape
     boost = L**2 - slepian.N
-- 
2.43.0


From 8aa209c4f6d4495c2cda772627e41da09d711c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 02/10] fix: keep zero wavelet scales between non-zero ones so
 entry j remains scale j

Dropping them shifted the later scales against the wavelets, and the inverse
transform then multiplied coefficients by the wrong wavelets.
---
 src/sleplet/wavelet_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..ff03fa9 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -152,6 +152,7 @@ def find_non_zero_wavelet_coefficients(
 ) -> npt.NDArray[np.complex128 | np.float64]:
     """
     Find the coefficients within the shannon number to speed up computations.
+    Only the trailing scales are removed, such that entry j remains scale j.
 
     Args:
         wav_coeffs: The wavelet coefficients.
@@ -160,4 +161,5 @@ def find_non_zero_wavelet_coefficients(
     Returns:
         The non-zero wavelet coefficients.
     """
-    return wav_coeffs[wav_coeffs.any(axis=axis)]
+    non_zero_scales = wav_coeffs.any(axis=axis).nonzero()[0]
+    return wav_coeffs[: non_zero_scales.max(initial=-1) + 1]
-- 
2.43.0


From 2ed1c677a177a0da043709467357571e4e363fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 03/10] fix: take scalar Legendre values when filling the polar
 cap matrix

The selections had one element but one dimension, which NumPy 2.5 refuses to
store in a matrix entry; the error was raised inside the worker threads, so the
localisation matrix silently stayed zero.
---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 1a20c9bad2fd399b8f25c828f216ebd2433d54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 04/10] fix: do not flag the identity function as real, its
 coefficients are not conjugate symmetric

---
 src/sleplet/functions/identity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/identity.py b/src/sleplet/functions/identity.py
index d930104..55366cc 100644
--- a/src/sleplet/functions/identity.py
+++ b/src/sleplet/functions/identity.py
@@ -28,7 +28,7 @@ class Identity(Flm):
         )
 
     def _set_reality(self: typing_extensions.Self) -> bool:
-        return True
+        return False
 
     def _set_spin(self: typing_extensions.Self) -> int:
         return 0
-- 
2.43.0


From c8924853cff016f1bd2db8992b0c2ca5ad93ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 05/10] fix: take the mesh noise field's signal from the
 mesh_field module, mesh_slepian does not provide it

---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From 542eb0c7060fe257e767a95c5f03699496ff0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 06/10] fix: select all-zero coefficients for valid wavelet
 scales left out of the coefficient list

---
 src/sleplet/functions/slepian_wavelet_coefficients_africa.py  | 4 ++++
 .../functions/slepian_wavelet_coefficients_south_america.py   | 4 ++++
 src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/sleplet/functions/slepian_wavelet_coefficients_africa.py b/src/sleplet/functions/slepian_wavelet_coefficients_africa.py
index a1ece44..41f524d 100644
--- a/src/sleplet/functions/slepian_wavelet_coefficients_africa.py
+++ b/src/sleplet/functions/slepian_wavelet_coefficients_africa.py
@@ -48,6 +48,10 @@ class SlepianWaveletCoefficientsAfrica(Fp):
         self.wavelets, self.wavelet_coefficients = self._create_wavelet_coefficients()
         _logger.info("finish computing wavelet coefficients")
         jth = 0 if self.j is None else self.j + 1
+        n_scales, n_coeffs = self.wavelet_coefficients.shape
+        if jth >= n_scales:
+            # the trailing all-zero scales are left out
+            return np.zeros(n_coeffs, dtype=self.wavelet_coefficients.dtype)
         return self.wavelet_coefficients[jth]
 
     def _create_name(self: typing_extensions.Self) -> str:
diff --git a/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py b/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py
index b58051c..337dd51 100644
--- a/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py
+++ b/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py
@@ -48,6 +48,10 @@ class SlepianWaveletCoefficientsSouthAmerica(Fp):
         self.wavelets, self.wavelet_coefficients = self._create_wavelet_coefficients()
         _logger.info("finish computing wavelet coefficients")
         jth = 0 if self.j is None else self.j + 1
+        n_scales, n_coeffs = self.wavelet_coefficients.shape
+        if jth >= n_scales:
+            # the trailing all-zero scales are left out
+            return np.zeros(n_coeffs, dtype=self.wavelet_coefficients.dtype)
         return self.wavelet_coefficients[jth]
 
     def _create_name(self: typing_extensions.Self) -> str:
diff --git a/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py b/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py
index 6a3db55..42eaa6c 100644
--- a/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py
+++ b/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py
@@ -41,6 +41,10 @@ class MeshSlepianWaveletCoefficients(MeshSlepianCoefficients):
         self.wavelets, self.wavelet_coefficients = self._create_wavelet_coefficients()
         _logger.info("finish computing wavelet coefficients")
         jth = 0 if self.j is None else self.j + 1
+        n_scales, n_coeffs = self.wavelet_coefficients.shape
+        if jth >= n_scales:
+            # the trailing all-zero scales are left out
+            return np.zeros(n_coeffs, dtype=self.wavelet_coefficients.dtype)
         return self.wavelet_coefficients[jth]
 
     def _create_name(self: typing_extensions.Self) -> str:
-- 
2.43.0


From 04499ebb9a234e23f06d6294e3b541df1c2231cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 07/10] fix: normalise fields of small magnitude instead of
 treating them as constant

---
 src/sleplet/plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d85343a..35de6c8 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -157,7 +157,11 @@ def _normalise_function(
         # if all 0, set to 0
         return (f + 0.5).astype(np.float64)
     # if all non-zero, set to 1 otherwise scale from [0, 1]
-    return f / f.max() if np.allclose(f, f.max()) else (f - f.min()) / np.ptp(f)
+    return (
+        f / f.max()
+        if np.allclose(f, f.max(), atol=0)
+        else (f - f.min()) / np.ptp(f)
+    )
 
 
 def _boost_field(  # noqa: PLR0913
-- 
2.43.0


From 165d4fcafa0ebd101a1d3dca483fa0f4b6c2fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 08/10] fix: find the amplitude of the field with the
 function's spin and reality

---
 src/sleplet/plot_methods.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index 35de6c8..c150cff 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -79,18 +79,7 @@ def find_max_amplitude(
         The maximum amplitude value.
     """
     # compute inverse transform
-    if hasattr(function, "slepian"):
-        field = sleplet.slepian_methods.slepian_inverse(
-            function.coefficients,
-            function.L,
-            function.slepian,
-        )
-    else:
-        field = ssht.inverse(
-            function.coefficients,
-            function.L,
-            Method=sleplet._vars.SAMPLING_SCHEME,
-        )
+    field = _coefficients_to_field_sphere(function, function.coefficients)
 
     # find resolution of final plot for boosting if necessary
     resolution = calc_plot_resolution(function.L) if upsample else function.L
-- 
2.43.0


From 068b3965fd4c6a259f1e7dc5a9df074d62d43fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 09/10] fix: declare the cache of fields of an arbitrary region
 so that its problem can be solved

---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..0967fe8 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -41,6 +41,11 @@ class SlepianArbitrary(SlepianFunctions):
         init_var=False,
         repr=False,
     )
+    _fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
 
     def __post_init__(self: typing_extensions.Self) -> None:
         self._resolution = _SAMPLES * self.L
@@ -107,7 +112,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From 0f15f24ca98e411f6f37c49282fa05aa1a76d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 10/10] fix: single order of a polar cap from truncated
 eigensolution files

Above bandlimit 16 only the leading eigenvectors of all orders are saved, so reading a single order back indexed past them (IndexError).
---
 src/sleplet/slepian/slepian_polar_cap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..603c714 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -101,7 +101,10 @@ class SlepianPolarCap(SlepianFunctions):
         orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
 
         if self.order is not None:
-            idx = np.where(orders == self.order)
+            idx = np.where(orders == self.order)[0]
+            if (idx >= len(eigenvectors)).any():
+                # only the leading eigenvectors of all orders have been saved
+                return self._solve_eigenproblem_order(self.order)
             return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
         return eigenvalues, eigenvectors
-- 
2.43.0

