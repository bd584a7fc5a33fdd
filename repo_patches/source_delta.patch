From 57422e438d984510556276747d17def69d2cd09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:57 +0000
Subject: [PATCH 01/55] fix: optimal amplitudes of rescaled projected modes

The right hand side of the optimal amplitudes problem was built from the
eigenvectors of the low-rank operator instead of the DMD modes, which differ
when rescale_mode is used.
---
 pydmd/dmdbase.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 2397a38..755b4c4 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -8,7 +8,6 @@ from copy import copy, deepcopy
 import numpy as np
 
 from .dmdoperator import DMDOperator
-from .utils import compute_svd
 
 
 class ActivationBitmaskProxy:
@@ -692,17 +691,10 @@ _set_initial_time_dictionary() has not been called, did you call fit()?"""
             else:
                 X = self.snapshots[:, :-1]
 
-            _, s, V = compute_svd(X, self.modes.shape[-1])
-
             q = np.conj(
                 np.diag(
                     np.linalg.multi_dot(
-                        [
-                            vander[:, : X.shape[1]],
-                            V,
-                            np.diag(s).conj(),
-                            self.operator.eigenvectors,
-                        ]
+                        [vander[:, : X.shape[1]], X.conj().T, self.modes]
                     )
                 )
             )
-- 
2.43.0


From 6110138c4b316d8afbc9ba40ef9be037baa36460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:26 +0000
Subject: [PATCH 02/55] fix: rescale_mode='auto' after a refit, and for
 compressed and subspace DMD

The automatic scaling factors replaced the user's choice: fitting the same
instance again reused the factors of the previous data. CDMD and SubspaceDMD
rejected 'auto' altogether.
---
 pydmd/cdmd.py        | 3 +++
 pydmd/dmdoperator.py | 5 ++++-
 pydmd/subspacedmd.py | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 973b22e..e76b7ac 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -87,6 +87,9 @@ class CDMDOperator(DMDOperator):
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
+        if self._auto_rescale:
+            self._rescale_mode = s
+
         self._Atilde = atilde
         self._compute_eigenquantities()
         self._compute_modes(nonCompressedY, U, s, V)
diff --git a/pydmd/dmdoperator.py b/pydmd/dmdoperator.py
index 5495f8d..4302eee 100644
--- a/pydmd/dmdoperator.py
+++ b/pydmd/dmdoperator.py
@@ -54,6 +54,9 @@ class DMDOperator:
     ):
         self._exact = exact
         self._rescale_mode = rescale_mode
+        self._auto_rescale = (
+            isinstance(rescale_mode, str) and rescale_mode == "auto"
+        )
         self._svd_rank = svd_rank
         self._forward_backward = forward_backward
         self._sorted_eigs = sorted_eigs
@@ -90,7 +93,7 @@ class DMDOperator:
                 msg = "Casting atilde from np.complex256 to np.complex128"
                 logging.info(msg)
 
-        if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
+        if self._auto_rescale:
             self._rescale_mode = s
 
         self._Atilde = atilde
diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 0818e1b..0fd8129 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -90,6 +90,9 @@ class SubspaceDMDOperator(DMDOperator):
 
         U, S, V = reducedsvd(Uq1)
 
+        if self._auto_rescale:
+            self._rescale_mode = S
+
         self._Atilde = self._least_square_operator(U, S, V, Uq2)
         self._compute_eigenquantities()
 
-- 
2.43.0


From c58540952142052c3f35ed5f1aeb58083f8badca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:26 +0000
Subject: [PATCH 03/55] fix: tikhonov_regularization in CDMD

The norm of the snapshots was never computed, so that any value of
tikhonov_regularization raised TypeError in fit().
---
 pydmd/cdmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index e76b7ac..69c66ce 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -79,6 +79,8 @@ class CDMDOperator(DMDOperator):
 
         U, s, V = compute_svd(compressedX, svd_rank=self._svd_rank)
 
+        if self._tikhonov_regularization is not None:
+            self._norm_X = np.linalg.norm(compressedX)
         atilde = self._least_square_operator(U, s, V, compressedY)
 
         if self._forward_backward:
-- 
2.43.0


From 27178b2728716555bb98e2424c1c359d84c41364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 04/55] fix: SubspaceDMD(opt=True) and attributes of an
 unfitted CDMD

Neither constructor set all the fields the base class relies on.
---
 pydmd/cdmd.py        | 6 ++++++
 pydmd/subspacedmd.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 69c66ce..4f2ebaf 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -172,8 +172,14 @@ class CDMD(DMDBase):
         tikhonov_regularization=None,
     ):
         self._tlsq_rank = tlsq_rank
+        self._original_time = None
+        self._dmd_time = None
         self._opt = opt
         self._exact = True
+
+        self._b = None
+        self._snapshots_holder = None
+
         self._compression_matrix = compression_matrix
 
         self._Atilde = CDMDOperator(
diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 0fd8129..e1df0e4 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -160,6 +160,7 @@ class SubspaceDMD(DMDBase):
         self._original_time = None
         self._dmd_time = None
         self._opt = opt
+        self._exact = True
 
         self._b = None
         self._snapshots_holder = None
-- 
2.43.0


From c52750ce749dea809a8fa320ebbb6df4535f56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:51 +0000
Subject: [PATCH 05/55] fix: RDMD refit on a different number of snapshots

The randomly generated test matrix replaced the (absent) user-provided one, so
that the next call to fit() reused a matrix sized for the previous data.
---
 pydmd/rdmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/rdmd.py b/pydmd/rdmd.py
index 1eb8aa0..a5ffa6a 100644
--- a/pydmd/rdmd.py
+++ b/pydmd/rdmd.py
@@ -71,7 +71,7 @@ class RDMD(CDMD):
         :return: the compressed snapshots
         :rtype: numpy.ndarray
         """
-        Q, B, test_matrix = compute_rqb(
+        Q, B, _ = compute_rqb(
             self.snapshots,
             self._svd_rank,
             self._oversampling,
@@ -80,6 +80,5 @@ class RDMD(CDMD):
             self._seed,
         )
         self._compression_matrix = Q.conj().T
-        self._test_matrix = test_matrix
 
         return B
-- 
2.43.0


From 25d380615bf7cb508a01450e5034be307a1b0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 06/55] fix: spurious extra timestep with a non-integer
 sampling interval

np.arange(t0, tend + dt, dt) includes a timestep past tend whenever the
floating point sum exceeds the exact value (e.g. tend=0.2, dt=0.1).
---
 pydmd/dmdbase.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 755b4c4..6a59178 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -195,6 +195,16 @@ class DMDBase:
 
         self._modes_activation_bitmask_proxy = None
 
+    @staticmethod
+    def _compute_timesteps(time_dict):
+        """
+        Timesteps from `t0` to `tend` (included), `dt` apart. Round-off in
+        `(tend - t0) / dt` must not add a timestep past `tend`.
+        """
+        t0, tend, dt = (time_dict[key] for key in ("t0", "tend", "dt"))
+        n_steps = int(np.ceil((tend - t0) / dt - 1.0e-8)) + 1
+        return t0 + dt * np.arange(n_steps)
+
     @property
     def dmd_timesteps(self):
         """
@@ -203,11 +213,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.dmd_time["t0"],
-            self.dmd_time["tend"] + self.dmd_time["dt"],
-            self.dmd_time["dt"],
-        )
+        return self._compute_timesteps(self.dmd_time)
 
     @property
     def original_timesteps(self):
@@ -217,11 +223,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.original_time["t0"],
-            self.original_time["tend"] + self.original_time["dt"],
-            self.original_time["dt"],
-        )
+        return self._compute_timesteps(self.original_time)
 
     @property
     def modes(self):
-- 
2.43.0


From 81362f1c00a8dc1ee651734d9fd8dd7a9bfd4b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 07/55] fix: accept NumPy integers and arrays of indexes in
 DMDBase.__getitem__

Both are documented, but every NumPy integer was rejected.
---
 pydmd/dmdbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 6a59178..2ed22a9 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -512,8 +512,8 @@ class DMDBase:
         :rtype: DMDBase
         """
 
-        if isinstance(key, (slice, int, list, np.ndarray)):
-            filter_function = lambda x: isinstance(x, int)
+        if isinstance(key, (slice, int, np.integer, list, np.ndarray)):
+            filter_function = lambda x: isinstance(x, (int, np.integer))
 
             if isinstance(key, (list, np.ndarray)):
                 if not all(map(filter_function, key)):
-- 
2.43.0


From edd925778da537e0ef931174dc04a1072cffc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 08/55] fix: select_modes with inactive modes and with
 nullify_amplitudes

The indexes returned by the criteria refer to the active modes but were used
as indexes into the full activation bitmask: a second selection deactivated
the wrong modes. nullify_amplitudes was accepted and ignored.
---
 pydmd/dmd_modes_tuner.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index e8c3388..543c906 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -68,9 +68,13 @@ def select_modes(
     cut_indexes = np.array(list(all_indexes - set(selected_indexes)))
 
     if len(cut_indexes) > 0:
-        tmp = np.array(dmd.modes_activation_bitmask)
-        tmp[cut_indexes] = False
-        dmd.modes_activation_bitmask = tmp
+        if nullify_amplitudes:
+            dmd.amplitudes[cut_indexes] = 0
+        else:
+            tmp = np.array(dmd.modes_activation_bitmask)
+            # criteria only sees the modes which are currently active
+            tmp[np.where(tmp)[0][cut_indexes]] = False
+            dmd.modes_activation_bitmask = tmp
 
     if return_indexes:
         return dmd, cut_indexes
-- 
2.43.0


From bed2afa673124541298e4acda295c61a760a847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 09/55] fix: HankelDMD.fit on iterables of snapshots

Anything but a 2D array (e.g. a list of snapshots, which is documented) raised
AttributeError: the raw input was forwarded to the Hankel pre-processing.
---
 pydmd/hankeldmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index d9c73d0..86913f5 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -222,7 +222,7 @@ class HankelDMD(DMDBase):
 Expected at least d."""
             raise ValueError(msg.format(self._d))
 
-        self._sub_dmd.fit(X)
+        self._sub_dmd.fit(self.snapshots)
 
         # Default timesteps
         self._set_initial_time_dictionary(
-- 
2.43.0


From 8e8e93983eeeb0de87a01ef30f9b535da988a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 10/55] fix: HankelDMD reconstruction when the time of the
 first snapshot is not 0

The offset of the original time window was subtracted twice, floor division of
floats dropped steps because of round-off, and a window coarser than the
sampling interval returned consecutive snapshots.
---
 pydmd/hankeldmd.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index 86913f5..ea437c1 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -127,11 +127,16 @@ class HankelDMD(DMDBase):
         :rtype: int
         """
         assert isinstance(time, Number) or np.asarray(time).ndim == 1
-        return max(
-            0,
-            (time - self.original_time["t0"]) // self.dmd_time["dt"]
-            - (self.original_time["t0"] + self._d - 1),
-        )
+        return max(0, self._sampling_steps(time) - (self._d - 1))
+
+    def _sampling_steps(self, time):
+        """
+        Number of (whole) sampling intervals between the first input snapshot
+        and the given time instant(s).
+        """
+        steps = (time - self.original_time["t0"]) / self.original_time["dt"]
+        # do not let round-off hide a sampling interval
+        return np.floor(steps + 1.0e-8).astype(int)
 
     def _update_sub_dmd_time(self):
         """
@@ -144,7 +149,7 @@ class HankelDMD(DMDBase):
             self.dmd_time["t0"]
         )
         self._sub_dmd.dmd_time["tend"] = self._hankel_first_occurrence(
-            self.dmd_time["tend"]
+            self.dmd_timesteps[-1]
         )
 
     @property
@@ -152,16 +157,11 @@ class HankelDMD(DMDBase):
         self._update_sub_dmd_time()
 
         # we want to return only the requested timesteps
-        time_index = min(
-            self._d - 1,
-            int(
-                (self.dmd_time["t0"] - self.original_time["t0"])
-                // self.dmd_time["dt"]
-            ),
+        time_indexes = (
+            self._sampling_steps(self.dmd_timesteps)
+            - self._sub_dmd.dmd_time["t0"]
         )
-        return self._sub_dmd.reconstructed_data[
-            :, time_index : time_index + len(self.dmd_timesteps)
-        ]
+        return self._sub_dmd.reconstructed_data[:, time_indexes]
 
     @property
     def modes(self):
-- 
2.43.0


From 72f0c4ee341efaf6fc6079c83e22358fb7225385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 11/55] fix: SVD projection of complex snapshots

The projection used the transpose of the basis instead of its conjugate
transpose, so that complex data could not be reconstructed (HODMD).
---
 pydmd/preprocessing/svd_projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/svd_projection.py b/pydmd/preprocessing/svd_projection.py
index 7c6dc08..f785658 100644
--- a/pydmd/preprocessing/svd_projection.py
+++ b/pydmd/preprocessing/svd_projection.py
@@ -52,7 +52,7 @@ class _SvdProjectionPrePostProcessing(PrePostProcessing):
             svd_rank = self._svd_rank
         projection_matrix, _, _ = compute_svd(X, svd_rank)
 
-        return projection_matrix, projection_matrix.T.dot(X)
+        return projection_matrix, projection_matrix.T.conj().dot(X)
 
     @override
     def post_processing(
-- 
2.43.0


From b5127c7f1ad46242ebe26210c9053da75a784911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 12/55] fix: list of weights as Hankel reconstruction method

Accepted (and validated) by the constructor, rejected on reconstruction.
---
 pydmd/preprocessing/hankel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/hankel.py b/pydmd/preprocessing/hankel.py
index 6686776..afa32c3 100644
--- a/pydmd/preprocessing/hankel.py
+++ b/pydmd/preprocessing/hankel.py
@@ -119,7 +119,7 @@ class _HankelPrePostProcessing(PrePostProcessing):
                 result = _first_reconstructions(rec, d=self._d)
             elif self._reconstruction_method == "mean":
                 result = np.nanmean(rec, axis=1).T
-        elif isinstance(self._reconstruction_method, np.ndarray):
+        elif isinstance(self._reconstruction_method, (list, np.ndarray)):
             result = np.ma.average(
                 rec, axis=1, weights=self._reconstruction_method
             ).T
-- 
2.43.0


From d40f1f2e5653189606a16e58ed921d1bdaa16864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 13/55] fix: fit() and dmd_time of pre/post-processed DMDs

fit() returned the wrapped instance, losing the post-processing in the usual
`dmd = wrapper.fit(X)`; assigning dmd_time did not reach the wrapped instance
and was ignored by the reconstruction.
---
 pydmd/preprocessing/pre_post_processing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 7ff0253..a951e88 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -90,6 +90,14 @@ class PrePostProcessingDMD(Generic[S]):
     def modes_activation_bitmask(self, value):
         self._dmd.modes_activation_bitmask = value
 
+    @property
+    def dmd_time(self):
+        return self._dmd.dmd_time
+
+    @dmd_time.setter
+    def dmd_time(self, value):
+        self._dmd.dmd_time = value
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
@@ -98,7 +106,8 @@ class PrePostProcessingDMD(Generic[S]):
         new_args, new_kwargs = PrePostProcessingDMD._replace_training_data(
             pre_processed_training_data, *args, **kwargs
         )
-        return self._dmd.fit(*new_args, **new_kwargs)
+        self._dmd.fit(*new_args, **new_kwargs)
+        return self
 
     def _reconstructed_data_with_post_processing(self) -> np.ndarray:
         data = self._dmd.reconstructed_data
-- 
2.43.0


From ad41511064120fe782fd96e52275440d1298dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:52 +0000
Subject: [PATCH 14/55] fix: save() of pre/post-processed DMDs

save() was forwarded to the wrapped instance: the loaded object had lost its
pre/post-processing.
---
 pydmd/preprocessing/pre_post_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index a951e88..a8ca73c 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,6 +98,9 @@ class PrePostProcessingDMD(Generic[S]):
     def dmd_time(self, value):
         self._dmd.dmd_time = value
 
+    # save the decorator itself, not only the decorated instance
+    save = DMDBase.save
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From 83d95478afee9f006d97e7745c0d79eb7ad26a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 15/55] fix: NumPy integers as svd_rank

np.int64(2) silently disabled the truncation.
---
 pydmd/edmd.py  | 4 +++-
 pydmd/utils.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index b4374d8..98c549e 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -172,7 +172,9 @@ class EDMDOperator(DMDOperator):
         if 0 < self._svd_rank < 1:
             cumulative_energy = np.cumsum(s**2 / (s**2).sum())
             return np.searchsorted(cumulative_energy, self._svd_rank) + 1
-        elif self._svd_rank >= 1 and isinstance(self._svd_rank, int):
+        elif self._svd_rank >= 1 and isinstance(
+            self._svd_rank, (int, np.integer)
+        ):
             return min(self._svd_rank, len(s))
         else:
             return len(s)
diff --git a/pydmd/utils.py b/pydmd/utils.py
index 5f8927f..e82a3e2 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -83,7 +83,7 @@ def _compute_rank(
     elif 0 < svd_rank < 1:
         cumulative_energy = np.cumsum(sigma_svd**2 / (sigma_svd**2).sum())
         rank = np.searchsorted(cumulative_energy, svd_rank) + 1
-    elif svd_rank >= 1 and isinstance(svd_rank, int):
+    elif svd_rank >= 1 and isinstance(svd_rank, (int, np.integer)):
         rank = min(svd_rank, sigma_svd.size)
     else:
         rank = min(rows, cols)
-- 
2.43.0


From ffe153aaeec30058b3a81ad69b6e060341cc5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 16/55] fix: MrDMD with one DMD per level on short datasets

fit() lowers max_level when there are too few snapshots; with a list of DMDs
the length check, meant for the constructor, then raised.
---
 pydmd/mrdmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index a1ca06f..1507cba 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -76,6 +76,13 @@ class MrDMD(DMDBase):
         self.dmd = dmd
         self.max_cycles = max_cycles
         self.max_level = max_level
+        if isinstance(dmd, (list, tuple)) and len(dmd) != max_level + 1:
+            raise ValueError(
+                """
+Expected one item per level, got {} out of {} levels.""".format(
+                    len(dmd), max_level
+                )
+            )
         self._build_tree()
 
     def __iter__(self):
@@ -207,13 +214,6 @@ class MrDMD(DMDBase):
         if callable(self.dmd):
             builder_func = self.dmd
         elif isinstance(self.dmd, (list, tuple)):
-            if len(self.dmd) != self.max_level + 1:
-                raise ValueError(
-                    """
-Expected one item per level, got {} out of {} levels.""".format(
-                        len(self.dmd), self.max_level
-                    )
-                )
 
             def builder_func(level, *args):
                 return deepcopy(self.dmd[level])
-- 
2.43.0


From 3e84efa753d253561155cee46bf7d3c5a8ae39b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 17/55] fix: MrDMD on integer snapshots

The residual passed to the next level was truncated to integers.
---
 pydmd/mrdmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 1507cba..e66ad06 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -494,6 +494,8 @@ Expected one item per level, got {} out of {} levels.""".format(
             return np.abs(np.log(dmd.eigs)) < rho * 2 * np.pi
 
         X = self.snapshots.copy()
+        if not np.issubdtype(X.dtype, np.inexact):
+            X = X.astype(float)
         for level in self.dmd_tree.levels:
             n_leaf = 2**level
             Xs = np.array_split(X, n_leaf, axis=1)
-- 
2.43.0


From 3da69c13e94a848288596f65c829a8669657ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 18/55] fix: B given as an iterable in DMDc.fit

---
 pydmd/dmdc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index 63572a8..f19857d 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -326,6 +326,7 @@ class DMDc(DMDBase):
                 X, Y, self._controlin
             )
         else:
+            B = np.asarray(B)
             self._Atilde = DMDBKnownOperator(**self._dmd_operator_kwargs)
             U, _, _ = self.operator.compute_operator(X, Y, B, self._controlin)
 
-- 
2.43.0


From 5baa6a65c6d029baf2c40d152e6d84dad614b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 19/55] fix: one-dimensional control input in
 DMDc.reconstructed_data

fit() accepts it, reconstructed_data() failed on it.
---
 pydmd/dmdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index f19857d..0197b6b 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -256,7 +256,7 @@ class DMDc(DMDBase):
         :rtype: numpy.ndarray
         """
         controlin = (
-            np.asarray(control_input)
+            np.atleast_2d(np.asarray(control_input))
             if control_input is not None
             else self._controlin
         )
-- 
2.43.0


From 2f8905762411d86af71b8801c6756b9c80b8c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 20/55] fix: rejected ParametricDMD.fit corrupted the fitted
 instance

---
 pydmd/paramdmd.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 6c0d969..f1ed6f2 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -371,16 +371,15 @@ class ParametricDMD:
                 )
             )
 
-        # we store these values for faster access
-        self._ntrain, self._space_dim, self._time_instants = X.shape
-        if self.is_partitioned and self._ntrain != len(self._dmd):
+        if self.is_partitioned and X.shape[0] != len(self._dmd):
             raise ValueError(
                 "Invalid number of DMD instances provided: "
-                "expected n_train={}, got {}".format(
-                    self._ntrain, len(self._dmd)
-                )
+                "expected n_train={}, got {}".format(X.shape[0], len(self._dmd))
             )
 
+        # we store these values for faster access
+        self._ntrain, self._space_dim, self._time_instants = X.shape
+
         # store the training parameters: they will be used in
         # `reconstructed_data`
         self._set_training_parameters(training_parameters)
-- 
2.43.0


From 0c24ba346b50339c833cfcac6b4009cfad872d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 21/55] fix: initial eigenvalues of VarProDMD

The derivative and the state were swapped, hence the optimization started from
the reciprocals of the approximated eigenvalues and often missed the solution.
---
 pydmd/varprodmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 88d336e..eda460f 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -384,9 +384,9 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
     if len(time.shape) != 1:
         raise ValueError("time needs to be a 1D array")
 
-    #  y_in, z_in, data_in, u_r
+    #  z_in, y_in, data_in, u_r
     res = _varpro_preprocessing(data, time, rank, use_proj)
-    omegas = _compute_dmd_ev(res[0], res[1], res[-1].shape[-1])
+    omegas = _compute_dmd_ev(res[1], res[0], res[-1].shape[-1])
 
     if compression > 0:
         indices = select_best_samples_fast(res[2], compression)
-- 
2.43.0


From da705dd52be12f605c89dabc6011e2eafa6d780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 22/55] fix: VarProDMD fallback when the compression leaves no
 samples

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index eda460f..546561a 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -392,7 +392,7 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         indices = select_best_samples_fast(res[2], compression)
 
         if indices.size <= 1:
-            indices = np.arange(res[2])
+            indices = np.arange(res[2].shape[-1])
 
     else:
         indices = np.arange(res[2].shape[-1])
-- 
2.43.0


From b0cc5e59b6db8926b7218111f9f6c83700274555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 23/55] fix: VarProDMD refit kept the mode selection of the
 previous fit

---
 pydmd/varprodmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 546561a..343bf5a 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -699,6 +699,7 @@ class VarProDMD(DMDBase):
         :rtype: object
         """
 
+        self._reset()
         self._snapshots_holder = Snapshots(X)
         (self._b, self._optres, self._indices) = self._Atilde.compute_operator(
             self._snapshots_holder.snapshots.astype(np.complex128), time
-- 
2.43.0


From d9a7a1ec99d2e8ad6083ccc7f3d2870e883c9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 24/55] fix: copy and save of VarProDMD

A mappingproxy can be neither copied nor pickled.
---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 343bf5a..9c02e10 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -675,7 +675,7 @@ class VarProDMD(DMDBase):
         # not used.
 
         if optargs is None:
-            optargs = OPT_DEF_ARGS
+            optargs = dict(OPT_DEF_ARGS)
 
         self._Atilde = VarProOperator(
             svd_rank, exact, sorted_eigs, compression, optargs
-- 
2.43.0


From 177c28dddb3ac223a40e5c982664f44eb8e7635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 25/55] fix: VarProDMD.forecast ignored the mode selection

---
 pydmd/varprodmd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 9c02e10..203fa5e 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -723,9 +723,7 @@ class VarProDMD(DMDBase):
         if not self.fitted:
             raise ValueError("Nothing fitted yet. Call fit-method first!")
 
-        return varprodmd_predict(
-            self._Atilde.modes, self._Atilde.eigenvalues, self._b, time
-        )
+        return varprodmd_predict(self.modes, self.eigs, self.amplitudes, time)
 
     @property
     def ssr(self) -> float:
-- 
2.43.0


From 05c64732c5ca03265cd10df522fee90d34cc8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 26/55] fix: BOPDMD with stable eigenvalues overwrote
 init_alpha in place

---
 pydmd/bopdmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index b0f7fbd..ce1cb27 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -348,6 +348,7 @@ class BOPDMDOperator(DMDOperator):
             eigenvalues = np.copy(new_eigs)
 
         if "stable" in self._eig_constraints:
+            eigenvalues = np.array(eigenvalues, dtype="complex")
             right_half = eigenvalues.real > 0.0
             eigenvalues[right_half] = 1j * eigenvalues[right_half].imag
         elif "imag" in self._eig_constraints:
-- 
2.43.0


From f3f8537b9f0463eeb659c1c984c879b9d1dd2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 27/55] fix: BOPDMD refit used the rank, basis and guess of the
 previous fit

---
 pydmd/bopdmd.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index ce1cb27..25d1467 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1064,6 +1064,11 @@ class BOPDMD(DMDBase):
         self._bag_warning = bag_warning
         self._bag_maxfail = bag_maxfail
 
+        # Values requested by the user, before fit() computes the missing ones.
+        self._given_svd_rank = svd_rank
+        self._given_init_alpha = init_alpha
+        self._given_proj_basis = proj_basis
+
         if varpro_opts_dict is None:
             self._varpro_opts_dict = {}
         elif not isinstance(varpro_opts_dict, dict):
@@ -1097,6 +1102,7 @@ class BOPDMD(DMDBase):
     @svd_rank.setter
     def svd_rank(self, value):
         self._svd_rank = value
+        self._given_svd_rank = value
 
     @property
     def compute_A(self):
@@ -1135,6 +1141,7 @@ class BOPDMD(DMDBase):
         :param value: The new eigenvalue guess.
         """
         self._init_alpha = value
+        self._given_init_alpha = value
 
     @property
     def proj_basis(self):
@@ -1157,6 +1164,7 @@ class BOPDMD(DMDBase):
         :param new_proj_basis: The new projection basis to assign.
         """
         self._proj_basis = new_proj_basis
+        self._given_proj_basis = new_proj_basis
 
     @property
     def num_trials(self):
@@ -1420,6 +1428,11 @@ class BOPDMD(DMDBase):
             )
             raise ValueError(msg)
 
+        # Forget what was computed from the data of a previous fit.
+        self._svd_rank = self._given_svd_rank
+        self._proj_basis = self._given_proj_basis
+        self._init_alpha = self._given_init_alpha
+
         # Compute the rank of the fit.
         self._svd_rank = int(compute_rank(self.snapshots, self._svd_rank))
 
@@ -1536,6 +1549,7 @@ class BOPDMD(DMDBase):
             raise ValueError(msg)
 
         # Set/check the initial guess for the continuous-time DMD eigenvalues.
+        self._init_alpha = self._given_init_alpha
         if self._init_alpha is None:
             self._init_alpha = self._initialize_alpha(s=s, V=V)
         elif (
-- 
2.43.0


From a91ca42f5ea37e1b25205583ee1d00aa0ebe32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:11 +0000
Subject: [PATCH 28/55] fix: BOPDMD.forecast with bagging

It failed at a single time, after fit_econ and when some modes are inactive.
---
 pydmd/bopdmd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 25d1467..15f06d6 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1601,7 +1601,7 @@ class BOPDMD(DMDBase):
         :rtype: numpy.ndarray or numpy.ndarray, numpy.ndarray
         """
         # Process the input data and convert to numpy.ndarray.
-        t = np.array(t).squeeze()
+        t = np.atleast_1d(np.array(t).squeeze())
 
         # Reject the input time vector if it isn't one-dimensional.
         if t.ndim > 1:
@@ -1611,19 +1611,20 @@ class BOPDMD(DMDBase):
         if self.operator.eigenvalues_std is not None:
             # Compute num_trials many forecasts.
             all_x = np.empty(
-                (self._num_trials, self.snapshots.shape[0], len(t)),
+                (self._num_trials, self.modes.shape[0], len(t)),
                 dtype="complex",
             )
 
+            active = self.modes_activation_bitmask
             for k in range(self._num_trials):
                 # Draw eigenvalues and amplitudes from random distribution.
                 eigs_k = self.eigs + np.multiply(
                     np.random.randn(*self.eigs.shape),
-                    self.operator.eigenvalues_std,
+                    self.operator.eigenvalues_std[active],
                 )
                 b_k = self.amplitudes + np.multiply(
                     np.random.randn(*self.amplitudes.shape),
-                    self.operator.amplitudes_std,
+                    self.operator.amplitudes_std[active],
                 )
                 # Compute forecast using average modes and eigs_k, b_k.
                 all_x[k] = np.linalg.multi_dot(
-- 
2.43.0


From 2c62932071a4521cecf8c47397cbea0510779220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:07 +0000
Subject: [PATCH 29/55] fix: BOPDMD.fit_econ with a single singular value

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 15f06d6..035a902 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1509,7 +1509,7 @@ class BOPDMD(DMDBase):
         """
         self._reset()
         self._time = np.asarray(t).squeeze()
-        s = np.asarray(s).squeeze()
+        s = np.atleast_1d(np.asarray(s).squeeze())
 
         if self._proj_basis is None or not self._use_proj:
             msg = """
-- 
2.43.0


From 5230fbd7481131ad723500aaf34864bd146fd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:39 +0000
Subject: [PATCH 30/55] fix: circulant PiDMD operators of complex snapshots

The Fourier coefficients of X were not conjugated like those of Y, so that
the computed operator was not the least-squares fit for complex data.
---
 pydmd/pidmd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 181e0fb..a653b85 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -184,7 +184,7 @@ def compute_circulant(X, Y, circulant_opt, svd_rank, compute_A):
     flag is not True. Returns a dictionary of computed values.
     """
     nx = len(X)
-    fX = fft(X, axis=0)
+    fX = fft(X.conj(), axis=0)
     fY = fft(Y.conj(), axis=0)
     fX_norm = np.linalg.norm(fX, axis=1)
     eigenvalues = np.divide(np.diag(fX.dot(fY.conj().T)), fX_norm**2)
-- 
2.43.0


From d8511ca69fc72cefe259dea6c6fa1ef6ed3bd956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:40 +0000
Subject: [PATCH 31/55] fix: diagonal and tridiagonal PiDMD with (almost) full
 rank

scipy.sparse.linalg.eigs cannot compute more than n-2 eigenvalues, hence
fitting with the default svd_rank=-1 and compute_A=False raised TypeError.
---
 pydmd/pidmd_utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index a653b85..998afce 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -41,6 +41,20 @@ def compute_uppertriangular(X, Y):
     return {"A": A}
 
 
+def _leading_eigs(A_sparse, r):
+    """
+    Return the r eigenvalues of largest magnitude of the given sparse matrix,
+    along with the corresponding eigenvectors.
+    """
+    nx = A_sparse.shape[0]
+    if r < nx - 1:
+        return sparse.linalg.eigs(A_sparse, k=r)
+    # Iterative solvers cannot provide (almost) all the eigenvalues.
+    eigenvalues, modes = np.linalg.eig(A_sparse.toarray())
+    leading = np.argsort(np.abs(eigenvalues))[::-1][:r]
+    return eigenvalues[leading], modes[:, leading]
+
+
 def compute_diagonal(X, Y, svd_rank, manifold_opt, compute_A):
     """
     Given the data matrices X and Y and the rank truncation svd_rank, solves
@@ -96,7 +110,7 @@ def compute_diagonal(X, Y, svd_rank, manifold_opt, compute_A):
     if compute_A:
         return {"A": A_sparse.toarray()}
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    eigenvalues, modes = _leading_eigs(A_sparse, r)
     return {"eigenvalues": eigenvalues, "modes": modes}
 
 
@@ -265,7 +279,7 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
         return {"A": A_sparse.toarray()}
 
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    eigenvalues, modes = _leading_eigs(A_sparse, r)
     return {"eigenvalues": eigenvalues, "modes": modes}
 
 
-- 
2.43.0


From c818cb66a70cdda7b1bb0b1945ee7867490f0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:53 +0000
Subject: [PATCH 32/55] fix: symmetric PiDMD dropped the imaginary part of
 complex operators

---
 pydmd/pidmd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 998afce..db79d96 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -132,7 +132,7 @@ def compute_symmetric(X, Y, svd_rank, skew_symmetric=False):
                 atilde[i, j] /= s[i] ** 2 + s[j] ** 2
         atilde += -atilde.conj().T - 1j * np.diag(np.diag(atilde.imag))
     else:  # symmetric
-        atilde = np.diag(np.diagonal(C).real / s)[:r, :r]
+        atilde = np.diag(np.diagonal(C).real / s)[:r, :r].astype(C.dtype)
         for i in range(r):
             for j in range(i + 1, r):
                 atilde[i, j] = s[i] * np.conj(C[j, i]) + s[j] * C[i, j]
-- 
2.43.0


From 4a429e91bcec7cdd8183a3c58d15d9c6b3d5b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:27 +0000
Subject: [PATCH 33/55] fix: triangular PiDMD operators with fewer snapshots
 than rows

---
 pydmd/pidmd_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index db79d96..f482238 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -10,7 +10,7 @@ arXiv:2112.04307.
 import numpy as np
 from numpy.fft import fft, fft2, ifft
 from scipy import sparse
-from scipy.linalg import block_diag, rq
+from scipy.linalg import block_diag
 
 from .utils import compute_rank, compute_svd
 
@@ -35,9 +35,11 @@ def compute_uppertriangular(X, Y):
     uppertriangular matrix A that solves the relationship Y = AX.
     Returns a dictionary containing A.
     """
-    R, Q = rq(X, mode="economic")
-    Ut = np.triu(Y.dot(Q.conj().T))
-    A = np.linalg.lstsq(R.T, Ut.T, rcond=None)[0].T
+    nx = len(X)
+    A = np.zeros((nx, nx), dtype=np.result_type(X, Y, float))
+    # Solve for the admissible entries of each row.
+    for i in range(nx):
+        A[i, i:] = np.linalg.lstsq(X[i:].T, Y[i], rcond=None)[0]
     return {"A": A}
 
 
-- 
2.43.0


From 7afc0c27593ef4a08891430eb8a65b2ae7c9ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:04 +0000
Subject: [PATCH 34/55] fix: OptDMD modes vanished for eigenvalues with
 negative real part

---
 pydmd/optdmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 0ed6527..c0ab541 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -30,9 +30,10 @@ def pinv_diag(x):
     factor = {"f": 1e2, "d": 1e4}
     rcond = factor[t] * np.finfo(t).eps
 
-    y = np.zeros(*x.shape)
+    y = np.zeros_like(x)
 
-    y[x > rcond] = np.reciprocal(x[x > rcond])
+    nonzero = np.abs(x) > rcond
+    y[nonzero] = np.reciprocal(x[nonzero])
 
     return np.diag(y)
 
-- 
2.43.0


From bad5d9845b323011ddfb35448cf9c52a764398b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:04 +0000
Subject: [PATCH 35/55] fix: OptDMD.predict with factorization evd

---
 pydmd/optdmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index c0ab541..5ac779a 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -125,7 +125,7 @@ class DMDOptOperator(DMDOperator):
 
         # --> Rescale the left eigenvectors.
         m = np.diag(left_vecs.T.conj().dot(right_vecs))
-        left_vecs = left_vecs.dot(pinv_diag(m))
+        left_vecs = left_vecs.dot(pinv_diag(m.conj()))
 
         self._eigenvalues = vals
         self._eigenvectors = left_vecs
@@ -229,7 +229,7 @@ class OptDMD(DMDBase):
 
         elif self.factorization == "evd":
             # --> Compute DMD eigenvalues and right/left eigenvectors
-            self._input_space = self.eigs
+            self._input_space = self.operator.eigenvectors
             self._output_space = self.operator.right_eigenvectors
 
         return self
@@ -250,7 +250,7 @@ class OptDMD(DMDBase):
             Y = np.linalg.multi_dot(
                 [
                     self._output_space,
-                    np.diag(self._eigs),
+                    np.diag(self.eigs),
                     self._input_space.T.conj(),
                     X,
                 ]
-- 
2.43.0


From c22b66bf63688bb39f3a4cb3ca3e32bc9a9a8e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 36/55] fix: HAVOK.compute_threshold with an integer p raised
 TypeError

---
 pydmd/havok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 9325af8..3fe8efd 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -565,7 +565,7 @@ class HAVOK:
             # Use Gaussian intersection.
             a = gauss - hy
             sgn = np.sign(a)
-            ind_signchange = np.where(sgn(a[:-1]) * sgn(a[1:]) > 0)[0]
+            ind_signchange = np.where(sgn[:-1] * sgn[1:] < 0)[0]
             thres_1 = np.abs(hx[ind_signchange])
             thres_2 = np.abs(hx[ind_signchange + 1])
             threshold_candidates = np.sort(0.5 * (thres_1 + thres_2))
-- 
2.43.0


From 3ad936272d7b14a2918d7a233249c9a39502e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 37/55] fix: HAVOK reconstructions and predictions for times
 not starting at 0

---
 pydmd/havok.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 3fe8efd..3fc4d37 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -791,10 +791,13 @@ class HAVOK:
         havok_system = StateSpace(self.A, self.B, C, D)
 
         # Reconstruct the linear dynamics using the HAVOK system.
+        # Note that lsim takes X0 to be the state at time 0, so that times must
+        # be given relative to the time of the initial condition.
+        time = np.asarray(time)
         embeddings = lsim(
             havok_system,
             U=forcing,
-            T=time,
+            T=time - time[0],
             X0=V0,
         )[1]
 
-- 
2.43.0


From 4eaf6197088026f3eda21e797431e53e5adc6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 38/55] fix: HAVOK reconstructions and predictions with one
 linear coordinate

---
 pydmd/havok.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 3fc4d37..e7d0ad0 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -801,7 +801,8 @@ class HAVOK:
             X0=V0,
         )[1]
 
-        return embeddings
+        # lsim squeezes its output when there is only one linear coordinate.
+        return embeddings.reshape(len(time), len(self.A))
 
     def _embeddings_to_original(self, V):
         """
-- 
2.43.0


From 57dbfd7d37546e43df675560d2e5d77a5309d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:12 +0000
Subject: [PATCH 39/55] fix: LANDO RBF kernel gradient had the wrong sign

d/dy exp(-g|x-y|^2) = 2g (x-y) exp(-g|x-y|^2), so the linear part of an
RBF model about a base point was minus its derivative.
---
 pydmd/lando.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index ea487e7..d7a8b0c 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -582,7 +582,7 @@ class LANDO(DMDBase):
         # Kernel metric is RBF.
         centered_X = X - y[..., None]
         return np.diag(
-            -2
+            2
             * gamma
             * np.exp(-gamma * np.linalg.norm(centered_X, 2, axis=0) ** 2)
         ).dot(centered_X.T)
-- 
2.43.0


From 5a139ac9b0ebfac3d237c1136e9ba14aa282cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:12 +0000
Subject: [PATCH 40/55] fix: LANDO with an array x_rescale can be fitted again

The first fit flattened x_rescale in place, so refitting multi-dimensional
snapshots was rejected.
---
 pydmd/lando.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index d7a8b0c..499c0ca 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -503,6 +503,7 @@ class LANDO(DMDBase):
 
         # Keep track of the data rescaling factor.
         self._x_rescale = x_rescale
+        self._x_rescale_input = x_rescale
 
         # Keep track of the last fixed point analysis.
         self._compute_A = False
@@ -972,6 +973,7 @@ class LANDO(DMDBase):
         or a numpy array. Also ensures that if `x_rescale` is an array, then it
         must possess the same shape as the flattened input snapshots.
         """
+        self._x_rescale = self._x_rescale_input
         if not isinstance(self._x_rescale, (int, float, np.ndarray)):
             raise TypeError("x_rescale must be a float or a numpy array.")
         if isinstance(self._x_rescale, np.ndarray):
-- 
2.43.0


From 50aef81b7d266833f9a32d482f3c77ce6f2b789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:12 +0000
Subject: [PATCH 41/55] fix: LANDO results belong to the last fit and fixed
 point analysis

A refit kept the previous analysis, a second analysis kept serving the
eigenvalues and modes of the first one, and without compute_A the linear
operator of an earlier base point was returned.
---
 pydmd/lando.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 499c0ca..70465a4 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -190,6 +190,7 @@ class LANDOOperator(DMDOperator):
             y_0 = Y[:, ind_0][..., None]
             C = np.sqrt(kernel_function(x_0, x_0))
             self._sparse_dictionary = np.copy(x_0)
+            self._reset_analysis()
             parsing_inds = parsing_inds[1:]
 
             # Initialize the online learning routine, if applicable.
@@ -250,6 +251,16 @@ class LANDOOperator(DMDOperator):
             else:  # use the pseudo-inverse
                 self._weights = Y.dot(np.linalg.pinv(K_mat))
 
+    def _reset_analysis(self):
+        """
+        Helper function that forgets the last fixed point analysis.
+        """
+        self._eigenvalues = None
+        self._eigenvectors = None
+        self._modes = None
+        self._Atilde = None
+        self._A = None
+
     def compute_linear_operator(
         self, fixed_point, compute_A, kernel_gradient, x_rescale
     ):
@@ -275,6 +286,7 @@ class LANDOOperator(DMDOperator):
             self._A = self.weights.dot(kernel_grad)
             self._Atilde = np.linalg.multi_dot([U.conj().T, self._A, U])
         else:
+            self._A = None
             self._Atilde = np.linalg.multi_dot(
                 [U.conj().T, self.weights, kernel_grad, U]
             )
@@ -831,6 +843,7 @@ class LANDO(DMDBase):
             self._x_rescale,
         )
 
+        self._modes_activation_bitmask_proxy = None
         self._b = self._compute_amplitudes()
 
     def update(self, X, Y=None):
@@ -879,6 +892,7 @@ class LANDO(DMDBase):
                 self.kernel_gradient,
                 self._x_rescale,
             )
+            self._modes_activation_bitmask_proxy = None
             self._b = self._compute_amplitudes()
 
         # Flag this model as updated.
-- 
2.43.0


From 12deb5abb07aaaafba03ab13a1e30842b4498867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:12 +0000
Subject: [PATCH 42/55] fix: LANDO.predict with multi-dimensional snapshots and
 fractional dt

The model was evaluated on the flattened state, which f() rejects, and
arange(0, tend * dt, dt) may return tend + 1 points.
---
 pydmd/lando.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 70465a4..da20ffd 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -933,12 +933,14 @@ class LANDO(DMDBase):
         if continuous:
 
             def ode_sys(xt, x):
-                return self.f(x[..., None]).flatten()
+                return self.f(
+                    x.reshape(self.snapshots_shape + (1,))
+                ).flatten()
 
             if solve_ivp_opts is None:
                 solve_ivp_opts = {}
 
-            t_eval = np.arange(0, tend * dt, dt)
+            t_eval = np.arange(tend) * dt
 
             sol = solve_ivp(
                 ode_sys,
@@ -954,7 +956,9 @@ class LANDO(DMDBase):
         Y = np.empty((len(x0), tend))
         Y[:, 0] = x0
         for i in range(tend - 1):
-            Y[:, i + 1] = self.f(Y[:, i][..., None]).flatten()
+            Y[:, i + 1] = self.f(
+                Y[:, i].reshape(self.snapshots_shape + (1,))
+            ).flatten()
 
         return Y
 
-- 
2.43.0


From 9ffb5a6c8b40b5d2f5a1c5b5b9b32724f700c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:11 +0000
Subject: [PATCH 43/55] fix: LANDO can be analyzed or updated when the number
 of eigenvalues changes

The amplitudes of the previous analysis were matched with the new modes.
---
 pydmd/lando.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index da20ffd..0a66f2e 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -844,6 +844,7 @@ class LANDO(DMDBase):
         )
 
         self._modes_activation_bitmask_proxy = None
+        self._b = None
         self._b = self._compute_amplitudes()
 
     def update(self, X, Y=None):
@@ -893,6 +894,7 @@ class LANDO(DMDBase):
                 self._x_rescale,
             )
             self._modes_activation_bitmask_proxy = None
+            self._b = None
             self._b = self._compute_amplitudes()
 
         # Flag this model as updated.
-- 
2.43.0


From d3d0efce4a136c06b1730ff0035b44ac9cdf5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:11 +0000
Subject: [PATCH 44/55] fix: LANDO.predict returns the initial condition for
 tend=1

solve_ivp over an empty time span returns no data point at all.
---
 pydmd/lando.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 0a66f2e..3435706 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -932,7 +932,7 @@ class LANDO(DMDBase):
             raise ValueError(msg.format(self.snapshots_shape))
         x0 = x0.flatten()
 
-        if continuous:
+        if continuous and tend > 1:
 
             def ode_sys(xt, x):
                 return self.f(
@@ -954,7 +954,8 @@ class LANDO(DMDBase):
 
             return sol.y
 
-        # Otherwise, assume a discrete-time system.
+        # Otherwise, assume a discrete-time system (a single data point, namely
+        # the initial condition, does not need any model).
         Y = np.empty((len(x0), tend))
         Y[:, 0] = x0
         for i in range(tend - 1):
-- 
2.43.0


From 0f0c63d64fdf2052e4a62836f0701e7664e2ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:35 +0000
Subject: [PATCH 45/55] fix: COSTS and mrCOSTS no longer write into the
 caller's pydmd_kwargs

fit() stored the projection basis in the dict it was given, so objects (and
mrCOSTS levels) sharing it used the basis of another fit.
---
 pydmd/costs.py   | 2 +-
 pydmd/mrcosts.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 040322b..c3354fb 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -125,7 +125,7 @@ class COSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index b2de48a..fa16ec8 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -95,7 +95,7 @@ class mrCOSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
-- 
2.43.0


From aa9c1348b2eec1d0aeee75fe6227fb654403352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:35 +0000
Subject: [PATCH 46/55] fix: COSTS clusters absolute frequencies when no
 transformation is given

"absolute" is the documented default, but None was rejected.
---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c3354fb..bb1704d 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -754,7 +754,7 @@ class COSTS:
         :rtype: numpy.ndarray
         """
         # Apply a transformation to omega to improve frequency band separation
-        if transform_method == "absolute":
+        if transform_method is None or transform_method == "absolute":
             omega_transform = np.abs(omega_array.imag.astype("float"))
             self._omega_label = r"$|\omega|$"
             self._hist_kwargs = {"bins": 64}
-- 
2.43.0


From 552e1a053e56e639f66e91c1a0d215747d416f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:35 +0000
Subject: [PATCH 47/55] fix: COSTS.from_xarray returns a usable object

The allocated rank was not restored, so the loaded object could not be
clustered, and to_xarray raised when the rank was chosen per window.
---
 pydmd/costs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index bb1704d..39ff3bf 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1475,7 +1475,7 @@ class COSTS:
             coords={
                 "window_time_means": np.mean(self.time_array, axis=1),
                 "slide": ("window_time_means", np.arange(self._n_slides)),
-                "svd_rank": np.arange(self.svd_rank),
+                "svd_rank": np.arange(self._svd_rank_pre_allocate),
                 "space": np.arange(self._n_data_vars),
                 "frequency_band": np.arange(self.n_components),
                 "window_index": np.arange(self._window_length),
@@ -1515,6 +1515,7 @@ class COSTS:
         """
 
         self._omega_array = ds.omega.values
+        self._svd_rank_pre_allocate = self._omega_array.shape[1]
         self._omega_classes = ds.omega_classes.values
         self._amplitudes_array = ds.amplitudes.values
         self._modes_array = ds.modes.values
-- 
2.43.0


From 875d4e8728240558010154fa7eb38246a26433d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:35 +0000
Subject: [PATCH 48/55] fix: COSTS can be fitted again

The rank found for the first record was kept for the next one, and the
classes of the previous eigenvalues stayed attached to the new ones.
---
 pydmd/costs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 39ff3bf..7fc8e72 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -92,6 +92,7 @@ class COSTS:
         self._window_length = None
         self._n_components = n_components
         self._svd_rank = svd_rank
+        self._svd_rank_input = svd_rank
         self._global_svd = global_svd
         self._initialize_artificially = initialize_artificially
         self._use_last_freq = use_last_freq
@@ -455,6 +456,8 @@ class COSTS:
         """
 
         # Prepare window and data properties.
+        self._svd_rank = self._svd_rank_input
+        self._omega_classes = None
         self._window_length = window_length
         self._step_size = step_size
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
@@ -1524,6 +1527,7 @@ class COSTS:
         self._time_array = ds.time.values
         self._n_slides = ds.attrs["n_slides"]
         self._svd_rank = ds.attrs["svd_rank"]
+        self._svd_rank_input = self._svd_rank
         self._n_data_vars = ds.attrs["n_data_vars"]
         self._n_time_steps = ds.attrs["n_time_steps"]
         self._n_components = ds.attrs["num_frequency_bands"]
-- 
2.43.0


From 37a98a2a796e75617fbd26474642fdca845b79b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:56 +0000
Subject: [PATCH 49/55] fix: COSTS with a global basis reuses the initial guess
 of the first window

BOPDMD.fit no longer keeps the guess it computed for previous data, so COSTS
has to hand it on.
---
 pydmd/costs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 7fc8e72..edd4cbf 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -601,6 +601,11 @@ class COSTS:
             self._window_means_array[k] = c.flatten()
             self._time_array[k] = original_time_window
 
+            # With a global basis the initial guess found in the first window is
+            # used for all the other ones.
+            if self._global_svd and k == 0:
+                optdmd.init_alpha = optdmd.init_alpha
+
             # Reset optdmd between iterations
             if not self._global_svd:
                 # The default behavior is to reset the optdmd object to use
-- 
2.43.0


From 2c812760f61aaba684bf6f79d15bdd3daca0dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:51 +0000
Subject: [PATCH 50/55] fix: COSTS keeps the window means when the lowest band
 is empty

Bands without any eigenvalue were skipped, and the means with them.
---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index edd4cbf..54b829c 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -998,7 +998,7 @@ class COSTS:
             xr_sep_window = np.zeros(
                 (self._n_components, self._n_data_vars, self._window_length)
             )
-            for j in np.unique(self._omega_classes):
+            for j in range(self._n_components):
                 class_index = classification == j
                 xr_sep_window[j] = np.linalg.multi_dot(
                     [
-- 
2.43.0


From 3a4aa3942b48ee7e0c8b333b0d5d67cf3665a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:48 +0000
Subject: [PATCH 51/55] fix: mrCOSTS global bands keep every high frequency of
 every level

Mapping the classes back from the time grid of the first level lost windows
of the coarser levels (their content vanished from the reconstruction), and
raised when an eigenvalue slot was always in the lowest band.
---
 pydmd/mrcosts.py | 58 +++++++++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index fa16ec8..14e279a 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -86,6 +86,7 @@ class mrCOSTS:
         self._da_omega = None
         self._n_components_global = None
         self._cluster_centroids = None
+        self._global_transform_method = None
 
         # Specify default keywords to hand to CoSTS's BOPDMD model.
         if pydmd_kwargs is None:
@@ -477,37 +478,23 @@ class mrCOSTS:
         :rtype: list of numpy.ndarrays
         """
 
-        # Get the indices for the 3-d omega structure
-        index = np.nonzero(~np.isnan(self._da_omega.values))
-
-        # Unravel the flattened omega_classes. The class value of `-1` refers
-        # to the slowest mode in each decomposition window which shouldn't be
-        # included in the global clustering.
-        omega_classes_full = (
-            np.zeros_like(self._da_omega.values, dtype="int") - 1
-        )
-        omega_classes_full[index] = self._omega_classes
-
-        # Build the omega_classes array into a labeled xarray DataArray object.
-        da_omega_classes = xr.zeros_like(self._da_omega, dtype="int")
-        da_omega_classes.values = omega_classes_full
-        da_omega_classes = da_omega_classes.swap_dims(
-            {"window_length": "decomposition_level"}
-        )
-
-        # Get a list of the costs results in xarray format.
-        ds_list = [c.to_xarray() for c in self._costs_array]
-
-        # Interpolate from the high-resolution of the first decomposition level
-        # to the coarser time resolution of the higher decomposition levels
-        omega_classes_list = [
-            da_omega_classes.sel(decomposition_level=d)
-            .sel(
-                window_time_means=ds_list[d].window_time_means, method="nearest"
-            )
-            .values
-            for d in da_omega_classes.decomposition_level.values
-        ]
+        # The class value of `-1` refers to the slowest modes in each
+        # decomposition window which shouldn't be included in the global
+        # frequency bands. All the other ones belong to the band with the
+        # nearest centroid.
+        omega_classes_list = []
+        for c in self._costs_array:
+            omega_classes = np.full(c.omega_array.shape, -1)
+            high_frequency = c.omega_classes > 0
+            if np.any(high_frequency):
+                omega = self.transform_omega(
+                    c.omega_array[high_frequency],
+                    transform_method=self._global_transform_method,
+                )
+                omega_classes[high_frequency] = np.argmin(
+                    np.abs(omega[:, None] - self._cluster_centroids), axis=1
+                )
+            omega_classes_list.append(omega_classes)
 
         return omega_classes_list
 
@@ -971,6 +958,11 @@ class mrCOSTS:
 
         self._cluster_centroids = cluster_centroids
         self._omega_classes = omega_classes
+        self._global_transform_method = (
+            self._transform_method
+            if transform_method is None
+            else transform_method
+        )
 
         return cluster_centroids, omega_classes, omega_array
 
@@ -1051,10 +1043,6 @@ class mrCOSTS:
 
             omega_classes = omega_classes_list[n_mrd]
 
-            if mrd.svd_rank < np.max(self._svd_rank_array):
-                truncate_slice = slice(None, mrd.svd_rank)
-                omega_classes = omega_classes[:, truncate_slice]
-
             # Iterate over each window slide performed.
             for k in range(mrd.n_slides):
                 w = mrd.modes_array[k]
-- 
2.43.0


From 73c2da0d34c417e528be4f278b195957174ffe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:48 +0000
Subject: [PATCH 52/55] fix: mrCOSTS can be fitted again

The global clustering went on with the eigenvalues of the previous fit, and
with cluster_sweep=True the second fit was rejected.
---
 pydmd/mrcosts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 14e279a..6036040 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -59,6 +59,7 @@ class mrCOSTS:
         transform_method=None,
     ):
         self._n_components_array = n_components_array
+        self._n_components_input = n_components_array
         self._step_size_array = step_size_array
         self._window_length_array = window_length_array
         self._svd_rank_array = svd_rank_array
@@ -289,7 +290,7 @@ class mrCOSTS:
 
         # Check for the n_components array and cluster sweeping.
         if self._cluster_sweep:
-            if self._n_components_array is not None:
+            if self._n_components_input is not None:
                 raise ValueError(
                     (
                         "Only one of `cluster_sweep` and `n_components_array` "
@@ -303,6 +304,9 @@ class mrCOSTS:
             self._global_svd_array = [True] * n_decompositions
 
         self._costs_array = []
+        self._da_omega = None
+        self._omega_classes = None
+        self._cluster_centroids = None
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         x_iter = data
-- 
2.43.0


From 6cc0032f159099e58d393c1345c8e13935f457ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:48 +0000
Subject: [PATCH 53/55] fix: mrCOSTS.from_netcdf restores the eigenvalue
 transformation

---
 pydmd/mrcosts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 6036040..126408f 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -543,6 +543,7 @@ class mrCOSTS:
             global_svd_array=global_svd_array,
             pydmd_kwargs=pydmd_kwargs,
             n_components_array=n_components_array,
+            transform_method=mrd_list[0]._transform_method,
         )
 
         # Initialize variables that are defined in fitting.
-- 
2.43.0


From e10c05d45cd68b3e0fa21ec25f91f41128d4014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:44 +0000
Subject: [PATCH 54/55] fix: COSTS fits with dictionary options or one
 eigenvalue constraint survive netcdf

to_netcdf raised for varpro_opts_dict, and a single eig_constraint came
back as a set of its letters, so that the loaded object could not be
fitted again.
---
 pydmd/costs.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 54b829c..70a8479 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -8,6 +8,7 @@ multiscale nonlinear physics. Physics Review E, 99(6),
 """
 
 import copy
+import json
 
 import numpy as np
 from sklearn.cluster import MiniBatchKMeans
@@ -1550,7 +1551,7 @@ class COSTS:
                 )
                 if new_attr_name == "eig_constraints":
                     self._pydmd_kwargs[new_attr_name] = set(
-                        self._pydmd_kwargs[new_attr_name]
+                        np.atleast_1d(self._pydmd_kwargs[new_attr_name])
                     )
             elif "omega_transformation" in attr:
                 self._transform_method = self._xarray_unsanitize(ds.attrs[attr])
@@ -1561,9 +1562,9 @@ class COSTS:
     def _xarray_sanitize(value):
         """Handle Nones in the pydmd_kwargs (i.e., used default values)
 
-        Netcdf cannot handle NoneTypes. To allow the xarray DataSet to be
-        saved to file we have to "sanitize" the NoneTypes. These two functions
-        allow for a round trip recovery of `pydmd_kwargs`.
+        Netcdf cannot handle NoneTypes nor dictionaries. To allow the xarray
+        DataSet to be saved to file we have to "sanitize" them. These two
+        functions allow for a round trip recovery of `pydmd_kwargs`.
 
         :param value: Value to be stored in the attributes of an xarray Dataset.
         :return: value unaltered except if value NoneType.
@@ -1572,6 +1573,8 @@ class COSTS:
             value = "None"
         elif isinstance(value, set):
             value = list(value)
+        elif isinstance(value, dict):
+            value = json.dumps(value)
         elif callable(value):
             value = f"Custom function {value.__name__}"
         return value
@@ -1580,9 +1583,9 @@ class COSTS:
     def _xarray_unsanitize(value):
         """Handle Nones in the pydmd_kwargs (i.e., used default values)
 
-        Netcdf cannot handle NoneTypes. To allow the xarray DataSet to be
-        saved to file we have to "sanitize" the NoneTypes. These two functions
-        allow for a round trip recovery of `pydmd_kwargs`.
+        Netcdf cannot handle NoneTypes nor dictionaries. To allow the xarray
+        DataSet to be saved to file we have to "sanitize" them. These two
+        functions allow for a round trip recovery of `pydmd_kwargs`.
 
         :param value: Value stored in the attributes of an xarray Dataset.
         :return: value unaltered except if value is the string "None".
@@ -1596,6 +1599,8 @@ class COSTS:
             try:
                 if value == "None":
                     return None
+                if isinstance(value, str) and value.startswith("{"):
+                    return json.loads(value)
             except ValueError:
                 return value
         return value
-- 
2.43.0


From f2b4513e12981f7026425d5c3d7d93f7a0c431f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:44 +0000
Subject: [PATCH 55/55] fix: mrCOSTS.from_netcdf does not impose the basis of
 the first level on the others

---
 pydmd/mrcosts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 126408f..3a4edb5 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -533,7 +533,10 @@ class mrCOSTS:
 
         # mrCOSTS currently does not support variable pydmd_kwargs
         # for each level.
-        pydmd_kwargs = mrd_list[0]._pydmd_kwargs
+        pydmd_kwargs = dict(mrd_list[0]._pydmd_kwargs)
+        # A global projection basis belongs to the fit of that level only.
+        if mrd_list[0].global_svd:
+            pydmd_kwargs["proj_basis"] = None
 
         # Initialize the mrcosts object.
         self.__init__(
-- 
2.43.0

