From 7c9169060c877bc445f97f7bd353d48fafec15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 01/20] fix: avoid cancellation when solving cubic equations

---
 ssspy/linalg/polynomial.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ssspy/linalg/polynomial.py b/ssspy/linalg/polynomial.py
index eaefacc..8aef6d6 100644
--- a/ssspy/linalg/polynomial.py
+++ b/ssspy/linalg/polynomial.py
@@ -79,9 +79,17 @@ def _find_cubic_roots(P: np.ndarray, Q: np.ndarray) -> np.ndarray:
 
     discriminant = (Q / 2) ** 2 + (P / 3) ** 3
 
-    U = cbrt(-Q / 2 + np.sqrt(discriminant))
+    sqrt_discriminant = np.sqrt(discriminant)
+    U_cubed = -Q / 2 + sqrt_discriminant
+    V_cubed = -Q / 2 - sqrt_discriminant
+    # U_cubed * V_cubed = -(P / 3)**3 avoids cancellation in U_cubed.
+    is_cancelled = np.abs(U_cubed) < np.abs(V_cubed)
+    U_cubed = np.where(
+        is_cancelled, -((P / 3) ** 3) / np.where(is_cancelled, V_cubed, 1), U_cubed
+    )
+    U = cbrt(U_cubed)
     # U = 0, when P = 0.
-    is_singular = P == 0
+    is_singular = U == 0
     U = np.where(is_singular, 1, U)
     V = -P / (3 * U)
 
-- 
2.43.0


From 2795bc7b9612bd42fff47162329cc46684293b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 02/20] fix: use the leading eigenvector in lqpqm2 when v is
 zero

---
 ssspy/linalg/lqpqm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..fe0c841 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -83,7 +83,7 @@ def lqpqm2(
     z_singular = z[is_singular]
 
     phi_max_singular = phi_singular[:, -1]
-    sigma_max_singular = sigma_singular[:, -1]
+    sigma_max_singular = sigma_singular[:, :, -1]
     lamb_singular = np.maximum(z_singular, phi_max_singular)
     scale = (lamb_singular - z_singular) / phi_max_singular
     scale = np.maximum(scale, 0)
-- 
2.43.0


From 00001a5c32cb7e4d3fdde9af93a94100cdc1256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 03/20] fix: keep v unscaled in the normalized equation of
 lqpqm2

---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index fe0c841..16c52d6 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From 8d7438671f7264664dc93cb24c22c9f57b576cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 04/20] fix: solve the least-squares step of ADMM-based BSS for
 the demixing filters

---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..85ba769 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -427,7 +428,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From 66ccec1e9aa66e44195713f1ee5e09c871e811d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 05/20] fix: record the loss of proximal BSS by default when
 penalty_fn is given

---
 ssspy/bss/admmbss.py | 10 +++++-----
 ssspy/bss/pdsbss.py  | 10 +++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 85ba769..bee12d4 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -295,11 +295,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -313,6 +308,11 @@ class MaskingADMMBSS(ADMMBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..c0feeb7 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -290,6 +285,11 @@ class MaskingPDSBSS(PDSBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From c95211d791809782c1c369bb80a484377c6175bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 06/20] fix: compute the loss of masking-based BSS with a
 single penalty_fn

---
 ssspy/bss/admmbss.py | 2 ++
 ssspy/bss/pdsbss.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index bee12d4..bb64a2f 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -305,6 +305,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index c0feeb7..c179443 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -282,6 +282,8 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
-- 
2.43.0


From 93b9697d679a2802695ac387e3464491537807fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 07/20] fix: apply minimal distortion principle to whitened
 outputs in fast fixed-point IVA

---
 ssspy/bss/iva.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..f7dff7e 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -549,6 +549,25 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        reference_id = self.reference_id
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=reference_id)
+
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From 5c51890b6501c1d614a15786a69ad46fb38e3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 08/20] fix: allow reuse of IVA and ILRMA objects whose
 demixing filter is None

---
 ssspy/bss/ilrma.py | 10 ++++------
 ssspy/bss/iva.py   | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/ssspy/bss/ilrma.py b/ssspy/bss/ilrma.py
index 13eb5e3..f244a38 100644
--- a/ssspy/bss/ilrma.py
+++ b/ssspy/bss/ilrma.py
@@ -183,15 +183,13 @@ class ILRMABase(IterativeMethodBase):
         self.n_sources, self.n_channels = n_sources, n_channels
         self.n_bins, self.n_frames = n_bins, n_frames
 
-        if not hasattr(self, "demix_filter"):
+        # ``demix_filter`` is None when a method without demixing filters (e.g. ISS) is reused.
+        if getattr(self, "demix_filter", None) is None:
             W = np.eye(n_sources, n_channels, dtype=np.complex128)
             W = np.tile(W, reps=(n_bins, 1, 1))
         else:
-            if self.demix_filter is None:
-                W = None
-            else:
-                # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+            # To avoid overwriting ``demix_filter`` given by keyword arguments.
+            W = self.demix_filter.copy()
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index f7dff7e..f5e54fb 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -155,15 +155,13 @@ class IVABase(IterativeMethodBase):
         self.n_sources, self.n_channels = n_sources, n_channels
         self.n_bins, self.n_frames = n_bins, n_frames
 
-        if not hasattr(self, "demix_filter"):
+        # ``demix_filter`` is None when a method without demixing filters (e.g. ISS) is reused.
+        if getattr(self, "demix_filter", None) is None:
             W = np.eye(n_sources, n_channels, dtype=np.complex128)
             W = np.tile(W, reps=(n_bins, 1, 1))
         else:
-            if self.demix_filter is None:
-                W = None
-            else:
-                # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+            # To avoid overwriting ``demix_filter`` given by keyword arguments.
+            W = self.demix_filter.copy()
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
-- 
2.43.0


From 86a4e097aa9fc9677be5f5a2839a4456e1ca58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 09/20] fix: overwrite sequence in score-based permutation
 solver when overwrite=True

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 5ed2eee..a7ca41b 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -213,7 +213,7 @@ def score_based_permutation_solver(
         perm_max = np.argmax(scores, axis=1)
         perm_max = permutations[perm_max]
         sequence_normalized = _parallel_sort(sequence_normalized, perm_max)
-        sequence = _parallel_sort(sequence, perm_max)
+        sequence[:] = _parallel_sort(sequence, perm_max)
 
         for idx in range(len(permutable)):
             permutable[idx][:] = _parallel_sort(permutable[idx], perm_max)
-- 
2.43.0


From 88703b9d4734ce5a6f4239c2e774ed78ebc30264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 10/20] fix: floor standard deviation of sequence in
 score-based permutation solver

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index a7ca41b..be0f2b6 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -195,7 +195,7 @@ def score_based_permutation_solver(
 
     sequence_mean = sequence.mean(axis=-1, keepdims=True)
     sequence_std = sequence.std(axis=-1, keepdims=True)
-    sequence_normalized = (sequence - sequence_mean) / sequence_std
+    sequence_normalized = (sequence - sequence_mean) / flooring_fn(sequence_std)
 
     for _ in range(global_iter):
         centroid = sequence_normalized.mean(axis=0)
-- 
2.43.0


From 19ddd89bab300eeb5580fb60bed594c41d61820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 11/20] fix: accept initial_call in IPSDTA

---
 ssspy/bss/ipsdta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..20a38f5 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -93,7 +93,9 @@ class IPSDTABase(IterativeMethodBase):
 
         self.rng = rng
 
-    def __call__(self, input: np.ndarray, n_iter: int = 100, **kwargs) -> np.ndarray:
+    def __call__(
+        self, input: np.ndarray, n_iter: int = 100, initial_call: bool = True, **kwargs
+    ) -> np.ndarray:
         r"""Separate a frequency-domain multichannel signal.
 
         Args:
@@ -103,6 +105,9 @@ class IPSDTABase(IterativeMethodBase):
             n_iter (int):
                 The number of iterations of demixing filter updates.
                 Default: ``100``.
+            initial_call (bool):
+                If ``True``, perform callbacks (and computation of loss if necessary)
+                before iterations.
 
         Returns:
             numpy.ndarray of the separated signal in frequency-domain.
@@ -112,7 +117,7 @@ class IPSDTABase(IterativeMethodBase):
 
         self._reset(**kwargs)
 
-        super().__call__(n_iter=n_iter)
+        super().__call__(n_iter=n_iter, initial_call=initial_call)
 
         if self.scale_restoration:
             self.restore_scale()
-- 
2.43.0


From 1f39a3c243cef4382cf1a7bb2f7511a22faf9700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 12/20] fix: separate dataset caches by tag and reverberation
 duration

---
 ssspy/utils/dataset/mird.py      | 2 +-
 ssspy/utils/dataset/sisec2010.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index c6cd52e..5761aa8 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -50,7 +50,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not os.path.exists(rir_path):
         shutil.unpack_archive(zip_path, root)
 
-    npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "MIRD-{:.3f}s-{}ch.npz".format(reverb_duration, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 44af6e8..389d8c8 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -33,7 +33,7 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     channels = channels[:n_sources]
 
     n_channels = len(channels)
-    npz_path = os.path.join(root, "SiSEC2010-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "SiSEC2010-{}-{}ch.npz".format(tag, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
-- 
2.43.0


From e2723ebbaf9f5780b09c51d9413f8c526479f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 13/20] fix: clip out-of-range waveform in wavwrite instead of
 wrapping it around

---
 ssspy/io/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..3beb042 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -81,7 +81,9 @@ def wavwrite(
         bits_per_sample = 16
 
         # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = _waveform.astype(np.float64) * vmax
+        _waveform = np.clip(_waveform, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From 0dbec87a1c5b894e2c9472d5de23f7e568cdf81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 14/20] fix: reject negative frame_offset in wavread

---
 ssspy/io/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index 3beb042..2057f18 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -156,6 +156,9 @@ def _read_data_chunk(
     return_2d: Optional[bool] = None,
     channels_first: Optional[bool] = None,
 ) -> np.ndarray:
+    if frame_offset < 0:
+        raise ValueError(f"Invalid frame_offset={frame_offset} is given. Set nonnegative integer.")
+
     data_chunk_size = struct.unpack("<I", f.read(4))[0]
     bytes_per_sample = block_align // n_channels
     n_full_samples = data_chunk_size // bytes_per_sample
-- 
2.43.0


From 482b06ecc75e355ac1f82471efd36df45c807366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 15/20] fix: treat 8-bit PCM as unsigned integer in wavread and
 wavwrite

---
 ssspy/io/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index 2057f18..38c554e 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -87,6 +87,9 @@ def wavwrite(
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
+
+        # 8-bit PCM is stored as unsigned integer
+        _waveform = (_waveform.astype(np.int16) + 128).astype("u1")
     elif _waveform.dtype == "i2":
         bits_per_sample = 16
     else:
@@ -178,7 +181,12 @@ def _read_data_chunk(
     if end_frame > max_frame:
         raise ValueError(f"num_frames={num_frames} exceeds maximum frame {max_frame}.")
 
-    data = np.memmap(f, dtype=f"<i{bytes_per_sample}", mode="c", offset=start, shape=shape)
+    if bytes_per_sample == 1:
+        # 8-bit PCM is stored as unsigned integer
+        data = np.memmap(f, dtype="u1", mode="c", offset=start, shape=shape)
+        data = data.astype(np.int16) - 128
+    else:
+        data = np.memmap(f, dtype=f"<i{bytes_per_sample}", mode="c", offset=start, shape=shape)
 
     if n_channels > 1:
         data = data.reshape(-1, n_channels)
-- 
2.43.0


From 358a16e666a891deecac2ac43b7cc1a923f2296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 16/20] fix: handle linear terms orthogonal to the leading
 eigenspace in lqpqm2

---
 ssspy/linalg/lqpqm.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index 16c52d6..37d84ba 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -108,9 +108,24 @@ def lqpqm2(
         normalization=True,
     )
 
+    # If v is orthogonal to the leading eigenspace of H and the root is lower than the maximum
+    # eigenvalue, the solution has an additional component along the leading eigenvector.
+    phi_max_non_singular = phi_non_singular[:, -1]
+    is_hard = lamb_non_singular < phi_max_non_singular
+    lamb_non_singular = np.where(is_hard, phi_max_non_singular, lamb_non_singular)
+    is_negligible = phi_non_singular * np.abs(v_tilde_non_singular) ** 2 < flooring_fn(0)
+    is_negligible = is_hard[:, np.newaxis] & is_negligible
+    v_tilde_non_singular = np.where(is_negligible, 0, v_tilde_non_singular)
+
     num = phi_non_singular * v_tilde_non_singular
     denom = lamb_non_singular[..., np.newaxis] - phi_non_singular
+    denom = np.where(is_negligible, 1, denom)
     v_nonsingular = num / denom
+
+    norm_hard = np.sum(phi_non_singular * np.abs(v_nonsingular + v_tilde_non_singular) ** 2, axis=-1)
+    scale_hard = (lamb_non_singular - z_non_singular - norm_hard) / phi_max_non_singular
+    scale_hard = np.sqrt(np.maximum(scale_hard, 0))
+    v_nonsingular[:, -1] = np.where(is_hard, scale_hard, v_nonsingular[:, -1])
     y_non_singular = np.sum(sigma_non_singular * v_nonsingular[:, np.newaxis, :], axis=-1)
 
     y = np.zeros_like(v)
-- 
2.43.0


From 6822597e324acf2f5f66c9a97ca2152bba6b1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 17/20] fix: floor the time-varying variance of Gaussian IVA so
 that silent frames do not turn into NaN

---
 ssspy/bss/iva.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index f5e54fb..6277ea3 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -2665,7 +2665,7 @@ class GradGaussIVA(GradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class NaturalGradLaplaceIVA(NaturalGradIVA):
@@ -2987,7 +2987,7 @@ class NaturalGradGaussIVA(NaturalGradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class AuxLaplaceIVA(AuxIVA):
@@ -3487,4 +3487,4 @@ class AuxGaussIVA(AuxIVA):
             X, W = self.input, self.demix_filter
             Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
-- 
2.43.0


From 0ead1ec9b43b5fe74afafed71de3f21b47b46730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 18/20] fix: copy given diagonal elements of spatial covariance
 in FastMNMF

---
 ssspy/bss/mnmf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/bss/mnmf.py b/ssspy/bss/mnmf.py
index adf9dcf..a48cd49 100644
--- a/ssspy/bss/mnmf.py
+++ b/ssspy/bss/mnmf.py
@@ -595,7 +595,8 @@ class FastMNMFBase(MNMFBase):
             D = rng.random((n_bins, n_sources, n_channels))
             D = flooring_fn(D)
         else:
-            D = self.spatial
+            # To avoid overwriting.
+            D = self.spatial.copy()
 
         self.spatial = D
 
-- 
2.43.0


From df9ee48f3da2201e3a99a30a960144c402071cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 19/20] fix: blocks of one bin with flooring_fn=None in IPSDTA

The singular case of the vectorwise coordinate descent was detected by a
strict comparison with the floor of zero, so that without flooring it was
never recognized and the demixing filter became NaN.
---
 ssspy/bss/ipsdta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index 20a38f5..38201e1 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -1107,7 +1107,7 @@ class GaussIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
@@ -1723,7 +1723,7 @@ class TIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(pi_R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
-- 
2.43.0


From cf2c85719a4135fea578a0be1392de9915ed24ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 20/20] fix: default attenuation of HVA after a recording with
 other channels

The number of sources of the first recording was stored as the attenuation,
so that an object reused on a recording with another number of channels
applied 1 / n_sources of the earlier one.
---
 ssspy/bss/hva.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssspy/bss/hva.py b/ssspy/bss/hva.py
index f8ca955..a99ed95 100644
--- a/ssspy/bss/hva.py
+++ b/ssspy/bss/hva.py
@@ -91,9 +91,9 @@ class MaskingPDSHVA(MaskingPDSBSS):
             n_sources, n_bins, _ = y.shape
 
             if self.attenuation is None:
-                self.attenuation = 1 / n_sources
-
-            gamma = self.attenuation
+                gamma = 1 / n_sources
+            else:
+                gamma = self.attenuation
 
             y = self.flooring_fn(np.abs(y))
             zeta = np.log(y)
@@ -212,9 +212,9 @@ class MaskingADMMHVA(MaskingADMMBSS):
             n_sources, n_bins, _ = y.shape
 
             if self.attenuation is None:
-                self.attenuation = 1 / n_sources
-
-            gamma = self.attenuation
+                gamma = 1 / n_sources
+            else:
+                gamma = self.attenuation
 
             y = self.flooring_fn(np.abs(y))
             zeta = np.log(y)
-- 
2.43.0

