From 6891286e6a451234b1d20f342010dcb286a97fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/55] fix: polpair_tuple2int passes x_orientation on when
 given a list

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 465dd15..5bf174e 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -458,7 +458,7 @@ def polpair_tuple2int(polpair, x_orientation=None):
     """
     # Recursive evaluation
     if isinstance(polpair, (list, np.ndarray)):
-        return [polpair_tuple2int(p) for p in polpair]
+        return [polpair_tuple2int(p, x_orientation=x_orientation) for p in polpair]
 
     # Check types
     assert type(polpair) is tuple, "pol must be a tuple"
-- 
2.43.0


From 59366218577ac0179aabfc7d8239997eb04964bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 02/55] fix: register time_2_array as a UVPSpec parameter (was
 declared under _time_1_array)

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index aa5ea7a..3c43e1d 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -261,7 +261,7 @@ class UVPSpec:
             form="(Nbltpairs,)",
             expected_type=np.float64,
         )
-        self._time_1_array = PSpecParam(
+        self._time_2_array = PSpecParam(
             "time_2_array",
             description="Time array of the second bl in the bl-pair [Julian Date].",
             form="(Nbltpairs,)",
-- 
2.43.0


From bf22f5045d791cce3d4efb57bea29905ec998548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 03/55] fix: fold_spectra blanks the negative delays of the
 statistics, not of the data

---
 src/hera_pspec/grouping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c26d9ba..7e989c2 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1529,7 +1529,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
         else:
             # odd number of dlys
@@ -1614,7 +1614,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
     uvp.folded = True
 
-- 
2.43.0


From 00bcffec3aebf16a7f74c02d9ef4f161267bd236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 04/55] fix: time_to_indices no longer matches neighbouring
 integrations (its relative tolerance on a Julian Date was 21 s)

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 3c43e1d..56933d2 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1521,7 +1521,7 @@ class UVPSpec:
             Contains indices at which selection is satisfied along the
             blpairts axis.
         """
-        time_select = np.isclose(self.time_avg_array, time, rtol=1e-10)
+        time_select = np.isclose(self.time_avg_array, time, rtol=1e-16)
         if blpairs is None:
             return np.arange(self.Nbltpairs)[time_select]
         else:
-- 
2.43.0


From 6fea737919e1d5ce5c79cdcb469195183948720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 05/55] fix: Cosmo_Conversions splits a given Om_M when Om_b +
 Om_c disagree with it (the comparison with False was never true)

---
 src/hera_pspec/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/conversions.py b/src/hera_pspec/conversions.py
index e7279d2..b10e758 100644
--- a/src/hera_pspec/conversions.py
+++ b/src/hera_pspec/conversions.py
@@ -106,7 +106,7 @@ class Cosmo_Conversions:
         """
         # Setup parameters
         if Om_M is not None:
-            if np.isclose(Om_b + Om_c, Om_M, atol=1e-5) is False:
+            if not np.isclose(Om_b + Om_c, Om_M, atol=1e-5):
                 Om_b = Om_M * 0.156635
                 Om_c = Om_M * 0.843364
         else:
-- 
2.43.0


From 29a6917abfb0102af2c06f7e7cfca5c538d032b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 06/55] fix: uvp_noise_error with precomp_P_N no longer needs
 auto_Tsys (as documented)

---
 src/hera_pspec/utils.py | 50 +++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0338561..3fc4229 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1578,36 +1578,38 @@ def uvp_noise_error(
     for spw in uvp.spw_array:
         # get spw properties
         spw_range = uvp.get_spw_ranges(spw)[0]
-        spw_start = np.argmin(np.abs(np.squeeze(auto_Tsys.freq_array) - spw_range[0]))
-        spw_stop = spw_start + spw_range[2]
+        if precomp_P_N is None:
+            spw_start = np.argmin(np.abs(freqs - spw_range[0]))
+            spw_stop = spw_start + spw_range[2]
         taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
         # iterate over blpairs
         for blp in uvp.get_blpairs():
             blp_int = uvp.antnums_to_blpair(blp)
             blp_inds = uvp.blpair_to_indices(blp)
 
-            time_1_selection = uvp.time_1_array[blp_inds]
-            time_2_selection = uvp.time_2_array[blp_inds]
-
-            # get time indices in data
-            times_blp_1 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
-            ]
-            times_blp_2 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
-            ]
-
-            # This time matching is at roughly 1 second tolerance.
-            # Interleaves with < 1 second cadence could run into trouble.
-            # I don't anticipate this being a problem with HERA's 10 second interleave time.
-            tinds1 = [
-                np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_1_selection
-            ]
-            tinds2 = [
-                np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_2_selection
-            ]
+            if precomp_P_N is None:
+                time_1_selection = uvp.time_1_array[blp_inds]
+                time_2_selection = uvp.time_2_array[blp_inds]
+
+                # get time indices in data
+                times_blp_1 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
+                ]
+                times_blp_2 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
+                ]
+
+                # This time matching is at roughly 1 second tolerance.
+                # Interleaves with < 1 second cadence could run into trouble.
+                # I don't anticipate this being a problem with HERA's 10 second interleave time.
+                tinds1 = [
+                    np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_1_selection
+                ]
+                tinds2 = [
+                    np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_2_selection
+                ]
 
             # iterate over polarization
             for polpair in uvp.polpair_array:
-- 
2.43.0


From aa94562eb833e2f7db9fd8ed063145ac4e18f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 07/55] fix: uvp_noise_error takes the single unflagged system
 temperature, not the (zero) one of a flagged first time

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 3fc4229..1c43353 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1691,7 +1691,7 @@ def uvp_noise_error(
                             )(uvp.lst_2_array[blp_inds])
                             Tsys = (Tsys1 * Tsys2) ** 0.5
                         else:
-                            Tsys = (Tsys1[0] * Tsys2[0]) ** 0.5
+                            Tsys = (Tsys1[~Tflag1][0] * Tsys2[~Tflag2][0]) ** 0.5
 
                     # calculate P_N
                     P_N = uvp.generate_noise_spectra(
-- 
2.43.0


From e55fdbbadf86d3bd5524af8c695476a084a92c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 08/55] fix: add_approximate_covariance sizes the covariance by
 the delays of a window, not its channels

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 56933d2..dd18dc0 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2955,7 +2955,7 @@ class UVPSpec:
             uvp.cov_array_imag = {}
 
         for spw in uvp.spw_array:
-            n = np.sum(uvp.spw_freq_array == spw)
+            n = np.sum(uvp.spw_dly_array == spw)
             cov2d = noise.get_approximate_delay_delay_corr_matrix(taper, n)
 
             # TODO: in the future, it'd be better to allow the cov_array_real on the
-- 
2.43.0


From 2b01fe04a545e2e910b15c2481c287c67158bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 09/55] fix: generate_noise_spectra accepts a dictionary of
 float system temperatures (as documented)

---
 src/hera_pspec/uvpspec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index dd18dc0..7123e88 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2637,6 +2637,9 @@ class UVPSpec:
                 isinstance(Tsys[blp], (float, int))
                 or Tsys[blp].shape[0] == self.Ntpairs
             ), "Tsys must be a float or an ndarray with shape[0] == Ntpairs"
+            Tsys_blp = Tsys[blp]
+            if isinstance(Tsys_blp, (float, int)):
+                Tsys_blp = np.ones(self.Ntpairs) * Tsys_blp
             P_blp = []
 
             # iterate over time axis
@@ -2654,7 +2657,7 @@ class UVPSpec:
                 # Get noise power spectrum
                 pn = noise.calc_P_N(
                     scalar,
-                    Tsys[blp][j],
+                    Tsys_blp[j],
                     t_int,
                     k=k,
                     Nincoherent=n_samp,
-- 
2.43.0


From 722b05c695079dd1906d2afca775fa36353daf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 10/55] fix: V^-1/2 normalisation of a complex covariance uses
 the conjugate eigenvectors

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9eab887..d6785da 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2595,7 +2595,7 @@ class PSpecData:
                 eigvals = eigvals[~nonpos_eigvals]
                 eigvects = eigvects[:, ~nonpos_eigvals]
             V_minus_half = np.dot(
-                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.T)
+                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.conj().T)
             )
 
             W_norm = np.diag(1.0 / np.sum(np.dot(V_minus_half, H), axis=1))
-- 
2.43.0


From e2560c8f48a5e686fdaa253260c1b86d0ed1766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 11/55] fix: cov_p_hat conjugates the second normalization
 matrix (as documented)

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index d6785da..5dacf0e 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2845,7 +2845,7 @@ class PSpecData:
         """
         p_cov = np.zeros_like(q_cov)
         for tnum in range(len(p_cov)):
-            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, M, q_cov[tnum])
+            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, np.conj(M), q_cov[tnum])
         return p_cov
 
     def broadcast_dset_flags(self, spw_ranges=None, time_thresh=0.2, unflag=False):
-- 
2.43.0


From 9677a26311bb7bf039a7cf6c72fa835bf72fbd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 12/55] fix: construct_pstokes accepts file names together with
 a Stokes parameter string (as documented)

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index b3b91ac..5db815b 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -408,7 +408,7 @@ def construct_pstokes(
     # convert pstokes to integer if fed as a string
     if isinstance(pstokes, str):
         pstokes = pyuvdata.utils.polstr2num(
-            pstokes, x_orientation=dset1.telescope.get_x_orientation_from_feeds()
+            pstokes, x_orientation=uvd1.telescope.get_x_orientation_from_feeds()
         )
 
     # check if dset1 and dset2 habe the same spectral window
-- 
2.43.0


From e7bb55c69939077508151e272b3a396281292663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 13/55] fix: PSpecData.scalar applies taper_override (it was
 ignored, so H^-1 spectra were corrected twice for the taper)

---
 src/hera_pspec/pspecdata.py | 4 ++--
 src/hera_pspec/uvpspec.py   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 5dacf0e..b4c3edc 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3090,7 +3090,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
@@ -3101,7 +3101,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 7123e88..ac821a8 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2890,7 +2890,8 @@ class UVPSpec:
         # get freq array of selected spw
         spw_freqs = self.freq_array[self.spw_to_freq_indices(spw)]
 
-        # compute scalar
+        # compute scalar (the H^-1 normalization already deals with the taper,
+        # see PSpecData.pspec)
         OP = self.OmegaP[:, self.polpair_to_indices(polpair)].squeeze()
         OPP = self.OmegaPP[:, self.polpair_to_indices(polpair)].squeeze()
         scalar = pspecbeam._compute_pspec_scalar(
@@ -2899,7 +2900,7 @@ class UVPSpec:
             OPP / OP**2,
             spw_freqs,
             num_steps=num_steps,
-            taper=self.taper,
+            taper="none" if getattr(self, "norm", None) == "H^-1" else self.taper,
             little_h=little_h,
             noise_scalar=noise_scalar,
         )
-- 
2.43.0


From 0dc1e0272eff52f2e70d00702326ba12e49b43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 14/55] fix: convert_to_deltasq works on folded spectra

---
 src/hera_pspec/uvpspec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index ac821a8..fc99db8 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1211,7 +1211,10 @@ class UVPSpec:
         for spw in range(uvp.Nspws):
             # get k vectors
             k_perp = uvp.get_kperps(spw, little_h=little_h)
-            k_para = uvp.get_kparas(spw, little_h=little_h)
+            # use every stored delay: get_dlys leaves some out of folded spectra
+            k_para = uvp.get_kparas(
+                spw, little_h=little_h, dlys=uvp.dly_array[uvp.spw_dly_array == spw]
+            )
             k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
             # shape of (Nbltpairs, spw_Ndlys, Npols)
             coeff = k_mag**3 / (2 * np.pi**2)
-- 
2.43.0


From 7d9e1b68a1d9f9f434375fe21693cef559d99296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 15/55] fix: set_cosmology renormalizes error estimates
 together with the power spectra

---
 src/hera_pspec/uvpspec.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index fc99db8..7312b63 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2174,7 +2174,15 @@ class UVPSpec:
                 )
 
                 # renormalize power spectra with new scalar
-                self.data_array[spw][:, :, j] *= scalar / self.scalar_array[spw, j]
+                ratio = scalar / self.scalar_array[spw, j]
+                self.data_array[spw][:, :, j] *= ratio
+                # their error estimates scale with them
+                if hasattr(self, "stats_array"):
+                    for stat in self.stats_array:
+                        self.stats_array[stat][spw][:, :, j] *= ratio
+                if hasattr(self, "cov_array_real"):
+                    self.cov_array_real[spw][..., j] *= ratio**2
+                    self.cov_array_imag[spw][..., j] *= ratio**2
 
                 # update self.scalar_array element
                 self.scalar_array[spw, j] = scalar
-- 
2.43.0


From 5c68e4c435500bfbd3fcdb18b2082bed574da98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 16/55] fix: select the dataset label arrays along with the
 spectra they describe

---
 src/hera_pspec/uvpspec_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 5bf174e..754b68e 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -606,6 +606,9 @@ def _select(
         uvp.Nspwfreqs = len(uvp.spw_freq_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[spw_select, :]
+        for label in ("label_1_array", "label_2_array"):
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[spw_select])
 
         # Down-convert spw indices such that spw_array == np.arange(Nspws)
         for i in range(uvp.Nspws):
@@ -690,6 +693,9 @@ def _select(
         uvp.Nblpairs = len(np.unique(uvp.blpair_array))
         uvp.Nbltpairs = len(uvp.blpair_array)
         uvp.Ntimes = uvp.Ntpairs
+        for label in ("label_1_array", "label_2_array"):
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, blp_select])
 
         # Calculate unique baselines from new blpair_array
         new_blpairs = np.unique(uvp.blpair_array)
@@ -742,6 +748,9 @@ def _select(
         uvp.Npols = len(uvp.polpair_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[:, polpair_select]
+        for label in ("label_1_array", "label_2_array"):
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, :, polpair_select])
     else:
         polpair_select = slice(None)
 
-- 
2.43.0


From 668218bde2c63aeea87d993485cb0930b77673c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 17/55] fix: update the number of frequencies when selecting
 spectral windows

---
 src/hera_pspec/uvpspec_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 754b68e..6fa3295 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -601,6 +601,7 @@ def _select(
         uvp.freq_array = uvp.freq_array[spw_freq_select]
         uvp.dly_array = uvp.dly_array[spw_dly_select]
         uvp.Ndlys = len(np.unique(uvp.dly_array))
+        uvp.Nfreqs = len(np.unique(uvp.freq_array))
         uvp.Nspws = len(np.unique(uvp.spw_array))
         uvp.Nspwdlys = len(uvp.spw_dly_array)
         uvp.Nspwfreqs = len(uvp.spw_freq_array)
-- 
2.43.0


From e155cbde002cf3bcbae7668173ca95ba59120b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 18/55] fix: count pairs of times, not average times, when
 selecting

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 6fa3295..c01f607 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -690,7 +690,7 @@ def _select(
         uvp.lst_1_array = uvp.lst_1_array[blp_select]
         uvp.lst_2_array = uvp.lst_2_array[blp_select]
         uvp.lst_avg_array = uvp.lst_avg_array[blp_select]
-        uvp.Ntpairs = len(np.unique(uvp.time_avg_array))
+        uvp.Ntpairs = len(set(zip(uvp.time_1_array, uvp.time_2_array)))
         uvp.Nblpairs = len(np.unique(uvp.blpair_array))
         uvp.Nbltpairs = len(uvp.blpair_array)
         uvp.Ntimes = uvp.Ntpairs
-- 
2.43.0


From 1fd2feec62d2ab15906003823139451830b180d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 19/55] fix: selecting keeps weighting parameters that are
 keyed by data set

---
 src/hera_pspec/uvpspec_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index c01f607..4db9362 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -950,7 +950,8 @@ def _select(
         if hasattr(uvp, "r_params") and uvp.r_params != "":
             r_params = uvp.get_r_params()
             for rpkey in r_params:
-                if rpkey in blkeys:
+                # keys may start with the data set they belong to
+                if rpkey[-3:] in blkeys:
                     new_r_params[rpkey] = r_params[rpkey]
         else:
             new_r_params = {}
-- 
2.43.0


From 05b0cb2d644610ee300eaaf8d97596e082f2b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 20/55] fix: narrow beam areas and weighting parameters when
 selecting metadata-only objects

---
 src/hera_pspec/uvpspec_utils.py | 48 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 4db9362..ceb4122 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -931,31 +931,31 @@ def _select(
             uvp.cov_array_real = cov_real
             uvp.cov_array_imag = cov_imag
 
-        # downselect on other attrs
-        if hasattr(uvp, "OmegaP"):
-            uvp.OmegaP = uvp.OmegaP[:, polpair_select]
-            uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
-
-        # select r_params based on new bl_array
-        blp_keys = uvp.get_all_keys()
-        blkeys = []
-        for blpkey in blp_keys:
-            key1 = blpkey[1][0] + (blpkey[2][0],)
-            key2 = blpkey[1][1] + (blpkey[2][1],)
-            if key1 not in blkeys:
-                blkeys += [key1]
-            if key2 not in blkeys:
-                blkeys += [key2]
+    # downselect on other attrs
+    if hasattr(uvp, "OmegaP"):
+        uvp.OmegaP = uvp.OmegaP[:, polpair_select]
+        uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
+
+    # select r_params based on new bl_array
+    blp_keys = uvp.get_all_keys()
+    blkeys = []
+    for blpkey in blp_keys:
+        key1 = blpkey[1][0] + (blpkey[2][0],)
+        key2 = blpkey[1][1] + (blpkey[2][1],)
+        if key1 not in blkeys:
+            blkeys += [key1]
+        if key2 not in blkeys:
+            blkeys += [key2]
+    new_r_params = {}
+    if hasattr(uvp, "r_params") and uvp.r_params != "":
+        r_params = uvp.get_r_params()
+        for rpkey in r_params:
+            # keys may start with the data set they belong to
+            if rpkey[-3:] in blkeys:
+                new_r_params[rpkey] = r_params[rpkey]
+    else:
         new_r_params = {}
-        if hasattr(uvp, "r_params") and uvp.r_params != "":
-            r_params = uvp.get_r_params()
-            for rpkey in r_params:
-                # keys may start with the data set they belong to
-                if rpkey[-3:] in blkeys:
-                    new_r_params[rpkey] = r_params[rpkey]
-        else:
-            new_r_params = {}
-        uvp.r_params = compress_r_params(new_r_params)
+    uvp.r_params = compress_r_params(new_r_params)
 
 
 def _blpair_to_antnums(blpair):
-- 
2.43.0


From ab953eebb1f144feecbeae71d2efc6dc569c8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 21/55] fix: merging spectra leaves spectra of other names
 alone

---
 src/hera_pspec/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index a680ea4..4909d5c 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -4,7 +4,6 @@ import warnings
 from functools import wraps
 
 import h5py
-import numpy as np
 
 from . import __version__, utils, uvpspec
 
@@ -582,6 +581,7 @@ def combine_psc_spectra(
 
         # Get unique spectra by splitting and then re-joining
         unique_spectra = []
+        roots = []
         for spc in spectra:
             if dset_split_str == "" or dset_split_str is None:
                 sp = spc.split(ext_split_str)[0]
@@ -590,6 +590,7 @@ def combine_psc_spectra(
                     [s.split(ext_split_str) for s in spc.split(dset_split_str)]
                 )[:2]
                 sp = dset_split_str.join(sp)
+            roots.append(sp)
             if sp not in unique_spectra:
                 unique_spectra.append(sp)
 
@@ -606,7 +607,9 @@ def combine_psc_spectra(
 
             # get merge list
             to_merge = [
-                spectra[i] for i in np.where([spc in _sp for _sp in spectra])[0]
+                _sp
+                for _sp, root in zip(spectra, roots)
+                if root == spc and _sp.startswith(spc)
             ]
             try:
                 # merge
-- 
2.43.0


From c6bfc53b4166d6654c0bbc4fbafb73a6f1a605b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:04 +0000
Subject: [PATCH 22/55] fix: a power spectrum that cannot be written does not
 replace the stored one

---
 src/hera_pspec/container.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 4909d5c..03ab0af 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -333,33 +333,31 @@ class PSpecContainer:
         key1 = "%s" % group
         key2 = "%s" % psname
 
-        # Check that the group exists
-        if key1 not in list(self.data.keys()):
-            grp = self.data.create_group(key1)
-        else:
-            grp = self.data[key1]
-
-        # Check that the psname exists
-        if key2 not in list(grp.keys()):
-            # Create group if it doesn't exist
-            psgrp = grp.create_group(key2)
-        else:
-            if overwrite:
-                # Delete group and recreate
-                del grp[key2]
-                psgrp = grp.create_group(key2)
-            else:
+        # Check that the psname may be written
+        if key1 in list(self.data.keys()) and key2 in list(self.data[key1].keys()):
+            if not overwrite:
                 raise AttributeError(
                     "Power spectrum %s/%s already exists and overwrite=False."
                     % (key1, key2)
                 )
 
-        # Add power spectrum to this group
+        # Add power spectrum to an anonymous group, so that nothing in the file
+        # changes if it cannot be written
+        psgrp = self.data.create_group(None)
         self._store_pspec(psgrp, pspec)
 
         # Store info about what kind of power spectra are in the group
         psgrp.attrs["pspec_type"] = pspec.__class__.__name__
 
+        # Put it in its place, creating the group if it doesn't exist
+        if key1 not in list(self.data.keys()):
+            grp = self.data.create_group(key1)
+        else:
+            grp = self.data[key1]
+        if key2 in list(grp.keys()):
+            del grp[key2]
+        grp[key2] = psgrp
+
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
         """
-- 
2.43.0


From de275ab8ce25276d8e2e64e5ac8e8b39c425e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 23/55] fix: asking for autocorrelations only leaves out
 cross-correlations

---
 src/hera_pspec/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 1c43353..63c9f85 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1334,16 +1334,16 @@ def get_reds(
         _angs.append(angs[i])
     reds, lens, angs = _reds, _lens, _angs
 
+    # take out crosscorrs
+    if autos_only:
+        reds, lens, angs = [], [], []
+
     # put in autocorrs
     if add_autos:
         ants = antpos_dict.keys()
         reds = [list(zip(ants, ants))] + reds
         lens = np.insert(lens, 0, 0)
         angs = np.insert(angs, 0, 0)
-        if autos_only:
-            reds = reds[:1]
-            lens = lens[:1]
-            angs = angs[:1]
 
     # filter based on xants
     if xants is not None:
-- 
2.43.0


From 7394dd573fcd8e78aeff06f3d838a7c886b393dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 24/55] fix: broadcasting flags leaves channels outside the
 spectral windows alone

---
 src/hera_pspec/pspecdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index b4c3edc..10ba5da 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2927,6 +2927,9 @@ class PSpecData:
                             / Ntimes_noncontig
                             > time_thresh
                         )
+                        # leave channels outside of the spw alone
+                        exceeds_thresh[: self.spw_range[0]] = False
+                        exceeds_thresh[self.spw_range[1] :] = False
                         # flag channels for all times that exceed time_thresh
                         dset.flag_array[
                             bl_inds, np.where(exceeds_thresh)[0][:, None], i
-- 
2.43.0


From c5d94df2ee2e3021d08e26f228db4f591d8dad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:50 +0000
Subject: [PATCH 25/55] fix: match polarization pairs when selecting what
 spectra have in common

select_common computed the common polarization pairs but did not pass
them on to select, so objects kept their own polarization pairs.
---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index ceb4122..798a002 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -365,7 +365,7 @@ def select_common(
         if lsts:
             _lsts = common_lsts
         if polpairs:
-            _pols = common_polpairs
+            _polpairs = common_polpairs
         if spws:
             _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
 
-- 
2.43.0


From 563530b5aa35261a6afa679ce1ca3c774af3f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 26/55] fix: selecting spectral windows of folded spectra keeps
 their delay axis

The metadata of the (blanked) negative delays was dropped while the
arrays kept them, so that get_data and get_dlys of the selection
disagreed and returned the wrong delays.
---
 src/hera_pspec/uvpspec_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 798a002..2e6ef63 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -588,8 +588,9 @@ def _select(
     if spws is not None:
         # Get info for each spw that will be retained
         spw_freq_select = uvp.spw_to_freq_indices(spws)
-        spw_dly_select = uvp.spw_to_dly_indices(spws)
         spw_select = uvp.spw_indices(spws)
+        # NB spw_to_dly_indices leaves out the negative delays of folded spectra
+        spw_dly_select = np.isin(uvp.spw_dly_array, uvp.spw_array[spw_select])
         uvp.spw_freq_array = uvp.spw_freq_array[spw_freq_select]
         uvp.spw_dly_array = uvp.spw_dly_array[spw_dly_select]
 
@@ -617,10 +618,9 @@ def _select(
                 continue
             spw = np.min(uvp.spw_array[uvp.spw_array > i])
             spw_freq_select = uvp.spw_to_freq_indices(spw)
-            spw_dly_select = uvp.spw_to_dly_indices(spw)
             spw_select = uvp.spw_indices(spw)
             uvp.spw_freq_array[spw_freq_select] = i
-            uvp.spw_dly_array[spw_dly_select] = i
+            uvp.spw_dly_array[uvp.spw_dly_array == spw] = i
             uvp.spw_array[spw_select] = i
 
     if bls is not None:
-- 
2.43.0


From fdf9e603381cd80f7975831d85ca9ebbefa2167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 27/55] fix: subtract spectra of the same LST, whatever their
 order, and folded ones

Rows of a baseline-pair were subtracted in stored order, so spectra of
different LSTs were differenced when the operands are ordered
differently, folded spectra raised a broadcasting error, and the
covariance was only propagated if statistics were stored as well.
---
 src/hera_pspec/uvpspec_utils.py | 78 ++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 2e6ef63..03f7f5b 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -36,6 +36,10 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     uvp : UVPSpec object
         A copy of uvp1 with uvp2.data_array subtracted.
     """
+    # folded and unfolded spectra do not hold the same delays
+    if uvp1.folded != uvp2.folded:
+        raise ValueError("Cannot subtract folded from unfolded spectra, or vice versa.")
+
     # select out common parts
     uvp1, uvp2 = select_common(
         [uvp1, uvp2],
@@ -53,6 +57,7 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     polpairs1 = uvp1.polpair_array.tolist()
     blps1 = sorted(set(uvp1.blpair_array))
     spws2 = [spw for spw in uvp2.get_spw_ranges()]
+    polpairs2 = uvp2.polpair_array.tolist()
 
     # iterate over spws
     for i, spw in enumerate(spws1):
@@ -61,22 +66,34 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
 
         # iterate over pol
         for j, polpair in enumerate(polpairs1):
+            # get uvp2 index
+            j2 = polpairs2.index(polpair)
+
             # iterate over blp
             for k, blp in enumerate(blps1):
-                # form keys
-                key1 = (i, blp, polpair)
-                key2 = (i2, blp, polpair)
+                # match the rows of this baseline-pair by LST
+                blp1_inds = uvp1.blpair_to_indices(blp)
+                blp2_inds = uvp2.blpair_to_indices(blp)
+                blp1_inds = blp1_inds[np.argsort(uvp1.lst_avg_array[blp1_inds])]
+                blp2_inds = blp2_inds[np.argsort(uvp2.lst_avg_array[blp2_inds])]
+                if not np.array_equal(
+                    uvp1.lst_avg_array[blp1_inds], uvp2.lst_avg_array[blp2_inds]
+                ):
+                    raise ValueError(
+                        f"The LSTs of baseline-pair {blp} are not the same in both spectra."
+                    )
 
                 # subtract data
-                blp1_inds = uvp1.blpair_to_indices(blp)
-                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.get_data(key2)
+                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.data_array[i2][
+                    blp2_inds, :, j2
+                ]
 
                 # add nsample inversely in quadrature
                 uvp1.nsample_array[i][blp1_inds, j] = np.sqrt(
                     1.0
                     / (
-                        1.0 / uvp1.get_nsamples(key1) ** 2
-                        + 1.0 / uvp2.get_nsamples(key2) ** 2
+                        1.0 / uvp1.nsample_array[i][blp1_inds, j] ** 2
+                        + 1.0 / uvp2.nsample_array[i2][blp2_inds, j2] ** 2
                     )
                 )
 
@@ -84,15 +101,18 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 uvp1.integration_array[i][blp1_inds, j] = np.sqrt(
                     1.0
                     / (
-                        1.0 / uvp1.get_integrations(key1) ** 2
-                        + 1.0 / uvp2.get_integrations(key2) ** 2
+                        1.0 / uvp1.integration_array[i][blp1_inds, j] ** 2
+                        + 1.0 / uvp2.integration_array[i2][blp2_inds, j2] ** 2
                     )
                 )
 
                 # add wgts inversely in quadrature
                 uvp1.wgt_array[i][blp1_inds, :, :, j] = np.sqrt(
                     1.0
-                    / (1.0 / uvp1.get_wgts(key1) ** 2 + 1.0 / uvp2.get_wgts(key2) ** 2)
+                    / (
+                        1.0 / uvp1.wgt_array[i][blp1_inds, :, :, j] ** 2
+                        + 1.0 / uvp2.wgt_array[i2][blp2_inds, :, :, j2] ** 2
+                    )
                 )
                 uvp1.wgt_array[i][blp1_inds, :, :, j] /= uvp1.wgt_array[i][
                     blp1_inds, :, :, j
@@ -101,35 +121,33 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 # add stats in quadrature: real imag separately
                 if hasattr(uvp1, "stats_array") and hasattr(uvp2, "stats_array"):
                     for s in uvp1.stats_array.keys():
-                        stat1 = uvp1.get_stats(s, key1)
-                        stat2 = uvp2.get_stats(s, key2)
+                        stat1 = uvp1.stats_array[s][i][blp1_inds, :, j]
+                        stat2 = uvp2.stats_array[s][i2][blp2_inds, :, j2]
                         uvp1.stats_array[s][i][blp1_inds, :, j] = np.sqrt(
                             stat1.real**2 + stat2.real**2
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
 
-                    # add cov in quadrature: real and imag separately
-                    if hasattr(uvp1, "cov_array_real") and hasattr(
-                        uvp2, "cov_array_real"
-                    ):
-                        if uvp1.cov_model == uvp2.cov_model:
-                            cov1r = uvp1.get_cov(key1, component="real")
-                            cov2r = uvp2.get_cov(key2, component="real")
-                            uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1r**2 + cov2r**2
-                            )
-
-                            cov1i = uvp1.get_cov(key1, component="imag")
-                            cov2i = uvp2.get_cov(key2, component="imag")
-                            uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1i**2 + cov2i**2
-                            )
+                # add cov in quadrature: real and imag separately
+                if hasattr(uvp1, "cov_array_real") and hasattr(uvp2, "cov_array_real"):
+                    if uvp1.cov_model == uvp2.cov_model:
+                        cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
+                        cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
+                        uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
+                            cov1r**2 + cov2r**2
+                        )
+
+                        cov1i = uvp1.cov_array_imag[i][blp1_inds, :, :, j]
+                        cov2i = uvp2.cov_array_imag[i2][blp2_inds, :, :, j2]
+                        uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
+                            cov1i**2 + cov2i**2
+                        )
 
                 # same for window function
                 if hasattr(uvp1, "window_function_array") and hasattr(
                     uvp2, "window_function_array"
                 ):
-                    window1 = uvp1.get_window_function(key1)
-                    window2 = uvp2.get_window_function(key2)
+                    window1 = uvp1.window_function_array[i][blp1_inds, ..., j]
+                    window2 = uvp2.window_function_array[i2][blp2_inds, ..., j2]
                     uvp1.window_function_array[i][blp1_inds, ..., j] = np.sqrt(
                         window1**2 + window2**2
                     )
-- 
2.43.0


From 613590e3391d00d8294f8bbfd7c04d59ee8dcdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 28/55] fix: weights of a flagged baseline-pair stay zero, not
 NaN, when subtracting

---
 src/hera_pspec/uvpspec_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 03f7f5b..f095f93 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -114,9 +114,9 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                         + 1.0 / uvp2.wgt_array[i2][blp2_inds, :, :, j2] ** 2
                     )
                 )
-                uvp1.wgt_array[i][blp1_inds, :, :, j] /= uvp1.wgt_array[i][
-                    blp1_inds, :, :, j
-                ].max()
+                wgt_max = uvp1.wgt_array[i][blp1_inds, :, :, j].max()
+                if wgt_max > 0:
+                    uvp1.wgt_array[i][blp1_inds, :, :, j] /= wgt_max
 
                 # add stats in quadrature: real imag separately
                 if hasattr(uvp1, "stats_array") and hasattr(uvp2, "stats_array"):
-- 
2.43.0


From 7b9fb6d54411d02f97511b175ba1de0e7f7598ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 29/55] fix: combined spectra keep each window's frequencies
 and delays

---
 src/hera_pspec/uvpspec.py | 50 ++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 7312b63..b8e6548 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3117,13 +3117,26 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     (Nbltpairs, spw[3], Npols), np.complex128
                 )
 
-    # Set frequencies and delays: if concat_ax == 'spw' this is changed below
-    # assumes spw metadata are the same for all uvps
-    u.spw_array = uvps[0].spw_array.copy()
-    u.spw_freq_array = uvps[0].spw_freq_array.copy()
-    u.spw_dly_array = uvps[0].spw_dly_array.copy()
-    u.freq_array = uvps[0].freq_array.copy()
-    u.dly_array = uvps[0].dly_array.copy()
+    # Set frequencies and delays, in the order of the new spectral windows
+    u.spw_array = np.arange(Nspws, dtype=np.int32)
+    for i, spw in enumerate(new_spws):
+        # get index of this new spw in uvps and its spw index
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = [spw == _spw for _spw in uvp_spws[l]].index(True)
+
+        # freq metadata
+        spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
+        u.freq_array.extend(uvps[l].freq_array[spw_freq_inds])
+        u.spw_freq_array.extend(np.ones(len(spw_freq_inds), dtype=np.int32) * i)
+
+        # dly metadata
+        spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
+        u.dly_array.extend(uvps[l].dly_array[spw_dly_inds])
+        u.spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
+    u.freq_array = np.array(u.freq_array)
+    u.dly_array = np.array(u.dly_array)
+    u.spw_freq_array = np.array(u.spw_freq_array)
+    u.spw_dly_array = np.array(u.spw_dly_array)
     u.Nfreqs = len(np.unique(u.freq_array))
     u.Nspwfreqs = len(u.spw_freq_array)
     u.Ndlys = len(np.unique(u.dly_array))
@@ -3185,26 +3198,12 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # fill in data arrays depending on concat ax
     if concat_ax == "spw":
-        u.spw_array = np.arange(Nspws, dtype=np.int32)
-        freq_array, dly_array = [], []
-        spw_freq_array, spw_dly_array = [], []
-
         # Concatenate spectral windows
         for i, spw in enumerate(new_spws):
             # get index of this new spw in uvps and its spw index
             l = [spw in _u for _u in uvp_spws].index(True)
             m = [spw == _spw for _spw in uvp_spws[l]].index(True)
 
-            # freq metadata
-            spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
-            freq_array.extend(uvps[l].freq_array[spw_freq_inds])
-            spw_freq_array.extend(np.ones(len(spw_freq_inds), dtype=np.int32) * i)
-
-            # dly metadata
-            spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
-            dly_array.extend(uvps[l].dly_array[spw_dly_inds])
-            spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
-
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
             if i == 0:
@@ -3247,15 +3246,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                                 m
                             ][n, :, q]
 
-        u.freq_array = np.array(freq_array)
-        u.dly_array = np.array(dly_array)
-        u.spw_freq_array = np.array(spw_freq_array)
-        u.spw_dly_array = np.array(spw_dly_array)
-        u.Nfreqs = len(np.unique(u.freq_array))
-        u.Nspwfreqs = len(u.spw_freq_array)
-        u.Ndlys = len(np.unique(u.dly_array))
-        u.Nspwdlys = len(u.spw_dly_array)
-
         # Populate new LST, time, and blpair arrays
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
-- 
2.43.0


From acaeefe00e4538d4fd5258a7d93b80ab0e57bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 30/55] fix: combining windows or polarizations takes times
 from the rows they belong to

---
 src/hera_pspec/uvpspec.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index b8e6548..b231977 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3206,8 +3206,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if i == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over polarizations
             for k, p in enumerate(new_polpairs):
@@ -3247,6 +3245,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                             ][n, :, q]
 
         # Populate new LST, time, and blpair arrays
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
@@ -3321,8 +3320,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             # Get mapping of blpair-time indices between old UVPSpec objects
             # and the new one
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if k == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over spectral windows
             for i, spw in enumerate(new_spws):
@@ -3358,6 +3355,8 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     u.label_1_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]
                     u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl2]]
 
+        # Populate new LST, time, and blpair arrays
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
-- 
2.43.0


From 6e28514c60c55920484cbdf5e799aa143a5d71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 31/55] fix: match both times of a baseline-pair-time when
 combining

---
 src/hera_pspec/uvpspec_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index f095f93..d67e362 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -1214,11 +1214,11 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
     ----------
     src_blpts : list of tuples or array_like
         List of tuples or array of shape (N, 2), containing a list of (blpair,
-        time) couplets.
+        time) couplets, or of shape (N, 3) with (blpair, time1, time2) triplets.
 
     query_blpts : list of tuples or array_like
         List of tuples or array of shape (M, 2), containing a list of (blpair,
-        time) couplets that you want to find the indices of in source_blpts.
+        time) couplets (or triplets) that you want to find the indices of in source_blpts.
 
     time_prec : int, optional
         Number of decimals to round time array to when performing float
@@ -1236,13 +1236,20 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
     src_blpts = np.asarray(src_blpts)
     query_blpts = np.asarray(query_blpts)
 
+    # a second time, where there is one, has to agree as well
+    src_times2 = np.around(src_blpts[:, 2:], time_prec)
+    query_times2 = np.around(query_blpts[:, 2:], time_prec)
+
     src_blpts = src_blpts[:, 0] + 1.0j * np.around(src_blpts[:, 1], time_prec)
     query_blpts = query_blpts[:, 0] + 1.0j * np.around(query_blpts[:, 1], time_prec)
     # Applies rounding to time values to ensure reliable float comparisons
 
     # Do np.where comparison for all new_blpts
     # (indices stored in second array returned by np.where)
-    blpts_idxs = np.where(src_blpts == query_blpts[:, np.newaxis])[1]
+    match = src_blpts == query_blpts[:, np.newaxis]
+    for t_src, t_query in zip(src_times2.T, query_times2.T):
+        match &= t_src == t_query[:, np.newaxis]
+    blpts_idxs = np.where(match)[1]
 
     return blpts_idxs
 
-- 
2.43.0


From e313664b5b2a728f6482807e242fde32d1368814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 32/55] fix: combining exact window functions keeps their
 wavenumbers

---
 src/hera_pspec/uvpspec.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index b231977..34e01b4 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3099,6 +3099,20 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                 u.window_function_array[i] = np.empty(
                     (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
                 )
+                u.window_function_kperp[i] = np.empty((Nkperp, Npols), np.float64)
+                u.window_function_kpara[i] = np.empty((Nkpara, Npols), np.float64)
+                for k, p in enumerate(new_polpairs):
+                    l, m, q = next(
+                        (_l, uvp_spws[_l].index(spw), uvp_polpairs[_l].index(p))
+                        for _l in range(Nuvps)
+                        if spw in uvp_spws[_l] and p in uvp_polpairs[_l]
+                    )
+                    u.window_function_kperp[i][:, k] = uvps[l].window_function_kperp[m][
+                        :, q
+                    ]
+                    u.window_function_kpara[i][:, k] = uvps[l].window_function_kpara[m][
+                        :, q
+                    ]
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-- 
2.43.0


From 9c50ea20b24ca9d006e7df1c1906526260ffd606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 33/55] fix: compare scalars of matching windows and
 polarizations when combining

---
 src/hera_pspec/uvpspec.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 34e01b4..0e42ca5 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3642,10 +3642,19 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
 
     # perform additional checks given concat ax
     if concat_ax == "blpairts":
-        # check scalar_array
-        assert np.all(
-            [np.isclose(uvps[0].scalar_array, u.scalar_array) for u in uvps[1:]]
-        ), (
+        # check scalar_array, matching spectral windows and polarization-pairs
+        scalars = []
+        for u in uvps:
+            spws = u.get_spw_ranges()
+            polpairs = u.polpair_array.tolist()
+            scalars.append(
+                [
+                    u.scalar_array[spws.index(s), polpairs.index(p)]
+                    for s in unique_spws
+                    for p in unique_polpairs
+                ]
+            )
+        assert np.all([np.isclose(scalars[0], sc) for sc in scalars[1:]]), (
             "scalar_array must be the same for all uvps given "
             "concatenation along blpairts."
         )
-- 
2.43.0


From 0da2ce9c9d0b02fd4399f2d0a14143ba13130151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:41 +0000
Subject: [PATCH 34/55] fix: combined spectra have the beam integrals of all
 their polarizations

---
 src/hera_pspec/uvpspec.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 0e42ca5..fb6e24d 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3159,6 +3159,15 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     # other metadata
     u.polpair_array = np.array(new_polpairs)
 
+    # beam integrals of each polarization-pair
+    for m in ["OmegaP", "OmegaPP"]:
+        if hasattr(uvps[0], m):
+            columns = []
+            for p in new_polpairs:
+                l = [p in _polpairs for _polpairs in uvp_polpairs].index(True)
+                columns.append(getattr(uvps[l], m)[:, uvp_polpairs[l].index(p)])
+            setattr(u, m, np.array(columns).T)
+
     # Number of spectral windows, delays etc.
     u.Nspws = Nspws
     u.Nbltpairs = Nbltpairs
@@ -3469,9 +3478,12 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
 
     All uvpspec objects must have certain attributes that agree exactly. These
     include:
-        'channel_width', 'telescope_location', 'weighting', 'OmegaP',
-        'beam_freqs', 'OmegaPP', 'beamfile', 'norm', 'taper', 'vis_units',
-        'norm_units', 'folded', 'cosmo', 'scalar'
+        'channel_width', 'telescope_location', 'weighting', 'beam_freqs',
+        'beamfile', 'norm', 'taper', 'vis_units', 'norm_units', 'folded',
+        'cosmo', 'scalar'
+
+    The beam integrals 'OmegaP' and 'OmegaPP' must agree for the
+    polarization-pairs that the objects have in common.
 
     Parameters
     ----------
@@ -3525,9 +3537,7 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
         "channel_width",
         "telescope_location",
         "weighting",
-        "OmegaP",
         "beam_freqs",
-        "OmegaPP",
         "beamfile",
         "norm",
         "taper",
@@ -3548,6 +3558,21 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
                     f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
                 )
 
+    # the beam integrals must agree for the polarization-pairs in common
+    for m in ["OmegaP", "OmegaPP"]:
+        for u in uvps[1:]:
+            agree = hasattr(uvps[0], m) == hasattr(u, m)
+            if agree and hasattr(u, m):
+                polpairs = [uvp.polpair_array.tolist() for uvp in (uvps[0], u)]
+                for p in set(polpairs[0]) & set(polpairs[1]):
+                    agree &= np.allclose(
+                        getattr(uvps[0], m)[:, polpairs[0].index(p)],
+                        getattr(u, m)[:, polpairs[1].index(p)],
+                    )
+            assert agree, (
+                f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
+            )
+
     # get static metadata values
     static_meta = dict(
         [
-- 
2.43.0


From 1b2662026557ef5ed36b5708d2e6b229ae7c4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:00 +0000
Subject: [PATCH 35/55] fix: folded spectra can be combined

---
 src/hera_pspec/uvpspec.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index fb6e24d..f7c75f7 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3083,21 +3083,23 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # Loop over new spectral windows and setup arrays
     for i, spw in enumerate(new_spws):
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = uvp_spws[l].index(spw)
+        # number of stored delays (folded spectra are stored at full length)
+        Ndlys = uvps[l].data_array[m].shape[1]
         # Initialize new arrays
-        u.data_array[i] = np.empty((Nbltpairs, spw[3], Npols), np.complex128)
+        u.data_array[i] = np.empty((Nbltpairs, Ndlys, Npols), np.complex128)
         u.integration_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         u.wgt_array[i] = np.empty((Nbltpairs, spw[2], 2, Npols), np.float64)
         # spw[2] == Nfreqs (wgt_array is not resampled if Ndlys != Nfreqs,
         # so needs to keep this shape)
         u.nsample_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         if store_window:
-            l = [spw in _u for _u in uvp_spws].index(True)
-            m = [spw == _spw for _spw in uvp_spws[l]].index(True)
             if exact_windows:
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkperp, Nkpara, Npols), np.float64
                 )
                 u.window_function_kperp[i] = np.empty((Nkperp, Npols), np.float64)
                 u.window_function_kpara[i] = np.empty((Nkpara, Npols), np.float64)
@@ -3116,19 +3118,19 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkpar, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkpar, Npols), np.float64
                 )
         if store_cov:
             u.cov_array_real[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
             u.cov_array_imag[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
         if store_stats:
             for stat in stored_stats:
                 u.stats_array[stat][i] = np.empty(
-                    (Nbltpairs, spw[3], Npols), np.complex128
+                    (Nbltpairs, Ndlys, Npols), np.complex128
                 )
 
     # Set frequencies and delays, in the order of the new spectral windows
-- 
2.43.0


From 18d4310db215d43af011bf360c3123e42fd179ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 36/55] fix: baseline-pair weights are not truncated to whole
 numbers when averaging

---
 src/hera_pspec/grouping.py | 56 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 7e989c2..a222051 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -514,34 +514,38 @@ def average_spectra(
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
                         # as weights.
-                    # Add multiple copies of data for each baseline according
-                    # to the weighting/multiplicity;
-                    # while multiple copies are only added when bootstrap resampling
-                    for m in range(int(blpg_wgts[k])):
-                        bpg_data.append(data * w)
-                        bpg_wgts.append(wgts * w[:, :1, None])
-                        bpg_ints.append(ints * w)
-                        bpg_nsmp.append(nsmp)
-                        for stat in stat_l:
-                            # clip errws for same reason above
-                            bpg_stats[stat].append(errws[stat].clip(0, 1e40) * w**2)
-                        if store_window:
-                            if uvp.exact_windows:
-                                bpg_window_function.append(
-                                    window_function * w[:, :, None, None]
-                                )
-                            else:
-                                bpg_window_function.append(
-                                    window_function * w[:, :, None]
-                                )
-                        if store_cov:
-                            bpg_cov_real.append(
-                                cov_real * w[:, :, None] * w[:, None, :]
+                    # Count each baseline according to its weight; an integer
+                    # weight, as in bootstrap resampling, is the same as
+                    # adding that many copies of the data
+                    mult = blpg_wgts[k]
+                    if mult <= 0.0:
+                        continue
+                    bpg_data.append(mult * data * w)
+                    bpg_wgts.append(mult * wgts * w[:, :1, None])
+                    bpg_ints.append(mult * ints * w)
+                    bpg_nsmp.append(mult * nsmp)
+                    for stat in stat_l:
+                        # clip errws for same reason above
+                        bpg_stats[stat].append(
+                            mult * errws[stat].clip(0, 1e40) * w**2
+                        )
+                    if store_window:
+                        if uvp.exact_windows:
+                            bpg_window_function.append(
+                                mult * window_function * w[:, :, None, None]
                             )
-                            bpg_cov_imag.append(
-                                cov_imag * w[:, :, None] * w[:, None, :]
+                        else:
+                            bpg_window_function.append(
+                                mult * window_function * w[:, :, None]
                             )
-                        w_list.append(w)
+                    if store_cov:
+                        bpg_cov_real.append(
+                            mult * cov_real * w[:, :, None] * w[:, None, :]
+                        )
+                        bpg_cov_imag.append(
+                            mult * cov_imag * w[:, :, None] * w[:, None, :]
+                        )
+                    w_list.append(mult * w)
 
                 # normalize sum: clip to deal with w_list_sum == 0
                 w_list_sum = np.sum(w_list, axis=0).clip(1e-40, np.inf)
-- 
2.43.0


From 4d36514161eea7acfaccbff0cad98f0fec4d369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 37/55] fix: unnormalized baseline-pair weights are used as
 given when averaging

---
 src/hera_pspec/grouping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a222051..a4733a6 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -398,15 +398,16 @@ def average_spectra(
                 # calculated so that Sum (blpair wgts) = no. baselines.
                 if blpair_weights is not None:
                     blpg_wgts = np.array(blpair_weights[j])
-                    norm = np.sum(blpg_wgts) if normalize_weights else 1.0
+                    norm = np.sum(blpg_wgts)
 
                     if norm <= 0.0:
                         raise ValueError(
                             "Sum of baseline-pair weights in group %d is <= 0." % j
                         )
-                    blpg_wgts = (
-                        blpg_wgts * float(blpg_wgts.size) / norm
-                    )  # Apply normalization
+                    if normalize_weights:
+                        blpg_wgts = (
+                            blpg_wgts * float(blpg_wgts.size) / norm
+                        )  # Apply normalization
                 else:
                     blpg_wgts = np.ones(len(blpg))
 
-- 
2.43.0


From 9f4a0c6ed89dfbbaf0c311718d609c4ee26480b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 38/55] fix: averaged exact window functions are divided by the
 summed weights

---
 src/hera_pspec/grouping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a4733a6..a5792e6 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -573,7 +573,10 @@ def average_spectra(
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
                     if uvp.exact_windows:
-                        bpg_window_function = np.sum(bpg_window_function, axis=0)
+                        bpg_window_function = (
+                            np.sum(bpg_window_function, axis=0)
+                            / w_list_sum[:, :, None, None]
+                        )
                     else:
                         bpg_window_function = (
                             np.sum(bpg_window_function, axis=0) / w_list_sum[:, :, None]
-- 
2.43.0


From 69ef1dc9179187c75dcde10f1f2f64b9d1776101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 39/55] fix: small but nonzero errors stay finite when
 averaging

---
 src/hera_pspec/grouping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a5792e6..8bca00b 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -509,8 +509,9 @@ def average_spectra(
                             errws[stat] = (np.sum(weighted_errws, axis=0) / wsum**2)[
                                 None
                             ]
-                            # set near-zero errws to inf, as they should be
-                            errws[stat][np.isclose(errws[stat], 0)] = np.inf
+                            # set zero errws (no weight at all) to inf, as they
+                            # should be
+                            errws[stat][errws[stat] == 0] = np.inf
                         w = np.sum(w, axis=0)[None]
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
@@ -567,8 +568,8 @@ def average_spectra(
                     )
                 for stat in stat_l:
                     stat_avg = np.sum(bpg_stats[stat], axis=0) / w_list_sum**2
-                    # set near-zero stats to inf, as they should be
-                    stat_avg[np.isclose(stat_avg, 0)] = np.inf
+                    # set zero stats (no weight at all) to inf, as they should be
+                    stat_avg[stat_avg == 0] = np.inf
                     # take sqrt to get back to stat units
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
-- 
2.43.0


From fd726f35be8384a1438d4fce4708413322300932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 40/55] fix: averaged spectra keep the labels of the rows they
 are assigned to

---
 src/hera_pspec/grouping.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 8bca00b..398aab3 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -630,10 +630,12 @@ def average_spectra(
     time_1, time_2, time_avg_arr = [], [], []
     lst_1, lst_2, lst_avg_arr = [], [], []
     blpair_arr, bl_arr = [], []
+    label_rows = []
 
     for i, blpg in enumerate(blpair_groups):
         # Get blpairts indices for zeroth blpair in this group
         blpairts = uvp.blpair_to_indices(blpg[0])
+        label_rows.extend(blpairts[:1] if time_avg else blpairts)
 
         # Assign meta-data
         bl_arr.extend(list(uvputils._blpair_to_bls(blpg[0])))
@@ -686,6 +688,11 @@ def average_spectra(
     uvp.lst_2_array = np.array(lst_2)
     uvp.lst_avg_array = np.array(lst_avg_arr)
 
+    # Labels
+    for lbl in ["label_1_array", "label_2_array"]:
+        if hasattr(uvp, lbl):
+            setattr(uvp, lbl, getattr(uvp, lbl)[:, label_rows])
+
     # Data, weights, and no. samples
     uvp.data_array = data_array
     uvp.integration_array = ints_array
-- 
2.43.0


From 9e15b75a5819dcf48ba96700150c36fef2344c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:23 +0000
Subject: [PATCH 41/55] fix: infinite errors of folded spectra do not turn
 averaged errors into NaN

---
 src/hera_pspec/grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 398aab3..e46cdfa 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -437,6 +437,8 @@ def average_spectra(
                         np.square(
                             errws[stat], out=errws[stat], where=np.isfinite(errws[stat])
                         )
+                        # an error with any non-finite part is infinite
+                        errws[stat][~np.isfinite(errws[stat])] = np.inf
                         # shape of errs: (Ntimes, Ndlys)
 
                     if use_error_weights:
-- 
2.43.0


From b86077a3fdbbb2955314d4e62aeca09f305d0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:42 +0000
Subject: [PATCH 42/55] fix: bootstrap averages of several objects select their
 common windows and polarizations

---
 src/hera_pspec/grouping.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index e46cdfa..ac6dc9b 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1731,7 +1731,14 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # Homogenise input UVPSpec objects in terms of available polarizations
     # and spectral windows
     if len(uvp_list) > 1:
-        uvp_list = uvputils.select_common(uvp_list, spws=True, pols=True, inplace=False)
+        uvp_list = uvputils.select_common(
+            uvp_list,
+            spws=True,
+            blpairs=False,
+            times=False,
+            polpairs=True,
+            inplace=False,
+        )
 
     # Loop over UVPSpec objects, looking for available blpairs in each
     avail_blpairs = [_ordered_unique(uvp.blpair_array) for uvp in uvp_list]
-- 
2.43.0


From e20ba8e0b38bbd53853cd4fa425e13d9533816f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:43 +0000
Subject: [PATCH 43/55] fix: bootstrap averages count the spectra drawn from
 each object

---
 src/hera_pspec/grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index ac6dc9b..7bcd0a2 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1801,6 +1801,8 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
             blpair_groups=blpair_grps_list[i],
             blpair_weights=blpair_wgts_list[i],
             time_avg=time_avg,
+            # each object counts its own share of the draws
+            normalize_weights=False,
             inplace=False,
         )
         uvp_avg.append(_uvp)
-- 
2.43.0


From 3889a5221bca88cb71f279fbd2e3d3b1ff6ee46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 44/55] fix: matrices cached for another spectral window are
 not reused

---
 src/hera_pspec/pspecdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 10ba5da..6d7b5d7 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -293,6 +293,7 @@ class PSpecData:
 
         # Store the actual frequencies
         self.freqs = self.dsets[0].freq_array
+        self.clear_cache()  # cached matrices belong to the old spectral window
         self.spw_range = (0, self.Nfreqs)
         self.spw_Nfreqs = self.Nfreqs
         self.spw_Ndlys = self.spw_Nfreqs
@@ -1345,6 +1346,9 @@ class PSpecData:
         assert isinstance(spw_range[0], (int, np.integer)), (
             "spw_range must be fed as len-2 integer tuple"
         )
+        if self.spw_range is None or tuple(self.spw_range) != spw_range:
+            # cached matrices belong to the old spectral window
+            self.clear_cache()
         self.spw_range = spw_range
         self.spw_Nfreqs = spw_range[1] - spw_range[0]
         self.set_Ndlys(ndlys=ndlys)
-- 
2.43.0


From ee1f24086bbc719f7294081a98887baee40f84a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 45/55] fix: changing symmetric_taper takes effect on cached
 weighting matrices

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 6d7b5d7..01e90d9 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1222,6 +1222,8 @@ class PSpecData:
                 "You cannot use a symmetric taper when there are nonzero filter extensions."
             )
         else:
+            if use_symmetric_taper != self.symmetric_taper:
+                self._R = {}  # cached for the other way of tapering
             self.symmetric_taper = use_symmetric_taper
 
     def set_filter_extension(self, filter_extension):
-- 
2.43.0


From f165798979beb87892df531aab6e2be62ad07d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 46/55] fix: changing filter_extension takes effect on cached
 matrices, and extending one side unsets symmetric_taper

---
 src/hera_pspec/pspecdata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 01e90d9..4180ac0 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1239,13 +1239,12 @@ class PSpecData:
         """
         if (
             self.symmetric_taper
-            and not filter_extension[0] == 0
-            and not filter_extension[1] == 0
+            and not (filter_extension[0] == 0 and filter_extension[1] == 0)
         ):
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
             )
-            self.symmetric_taper = False
+            self.set_symmetric_taper(False)
         assert isinstance(filter_extension, (list, tuple)), (
             "filter_extension must a tuple or list"
         )
@@ -1271,6 +1270,9 @@ class PSpecData:
         filter_extension[1] = np.min(
             [self.Nfreqs - self.spw_range[1], filter_extension[1]]
         )  # clip extension to not extend beyond data range
+        if tuple(filter_extension) != tuple(self.filter_extension):
+            # cached matrices have the old extension
+            self.clear_cache()
         self.filter_extension = tuple(filter_extension)
 
     def set_weighting(self, data_weighting):
-- 
2.43.0


From f7ef6ada7c526ba7d64ed1457d2ebef7a2e5e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 47/55] fix: changing r_params takes effect on cached weighting
 matrices

---
 src/hera_pspec/pspecdata.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 4180ac0..1da887b 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1318,8 +1318,16 @@ class PSpecData:
             Absence of an `r_params` dictionary will result in an error.
         """
         key = self.parse_blkey(key)
+        Rkey = key + (self.data_weighting,)
         key = (self.data_weighting,) + key
-        self.r_params[key] = r_params
+        try:
+            unchanged = bool(self.r_params.get(key) == r_params)
+        except ValueError:  # arrays
+            unchanged = False
+        if not unchanged:
+            # matrices cached for this baseline have the old parameters
+            self._R = {k: R for k, R in self._R.items() if k[:3] != Rkey}
+        self.r_params[key] = copy.deepcopy(r_params)
 
     def set_taper(self, taper):
         """
-- 
2.43.0


From e23f96bec7b1e6e63554791f8e7fd23bff3d14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:08 +0000
Subject: [PATCH 48/55] fix: exact normalization uses the beam of each
 polarization

---
 src/hera_pspec/pspecdata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 1da887b..94ba530 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -464,6 +464,7 @@ class PSpecData:
         if keys is None:
             self._C, self._I, self._iC, self._Y, self._R = {}, {}, {}, {}, {}
             self._identity_G, self._identity_H, self._identity_Y = {}, {}, {}
+            self._identity_pol = None
         else:
             for k in keys:
                 try:
@@ -3876,7 +3877,12 @@ class PSpecData:
                             [self.Y(key1).diagonal(), self.Y(key2).diagonal()]
                         )
 
-                        # Second: check cache for Y
+                        # Second: check cache for Y (with exact normalization the
+                        # matrices also depend on the beam of the polarization)
+                        if exact_norm and pol != self._identity_pol:
+                            self._identity_G, self._identity_H = {}, {}
+                            self._identity_Y = {}
+                        self._identity_pol = pol
                         matches = [
                             np.isclose(Y, y).all() for y in self._identity_Y.values()
                         ]
-- 
2.43.0


From 49b0d8b3fbe1e30d50676cc35540232817075814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:15 +0000
Subject: [PATCH 49/55] fix: matrices cached from data before rephasing or
 conversion to mK are not reused

---
 src/hera_pspec/pspecdata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 94ba530..0b4611e 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4350,6 +4350,8 @@ class PSpecData:
         # assign dsets
         if inplace:
             dsets = self.dsets
+            # matrices cached from the data have the old phases
+            self.clear_cache()
         else:
             dsets = copy.deepcopy(self.dsets)
 
@@ -4466,6 +4468,9 @@ class PSpecData:
         for p in pols:
             factors[p] = beam.Jy_to_mK(self.freqs, pol=p)
 
+        # matrices cached from the data have the old scale
+        self.clear_cache()
+
         # iterate over datasets and apply factor
         for i, dset in enumerate(self.dsets):
             # check dset vis units
-- 
2.43.0


From eba5784c17bd0d71624858f0aa93cc726f0e3ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:23 +0000
Subject: [PATCH 50/55] fix: matrices cached from data before trimming LSTs are
 not reused

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 0b4611e..bf494a9 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4525,6 +4525,8 @@ class PSpecData:
             trim_inds = np.array([l not in common_lsts for l in lst_arrs[i]])
             if np.any(trim_inds):
                 self.dsets[i].select(times=dset.time_array[~trim_inds])
+        # matrices cached from the data include the trimmed times
+        self.clear_cache()
 
 
 def pspec_run(
-- 
2.43.0


From 7e9c849330b2d3a7a2caef0340b6ea32a29ceb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 51/55] fix: a cosmology with NumPy parameters can be read back
 from file

---
 src/hera_pspec/uvpspec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index f7c75f7..e87015d 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1999,7 +1999,9 @@ class UVPSpec:
             if hasattr(self, k):
                 # handle cosmo
                 if k == "cosmo":
-                    group.attrs["cosmo"] = str(getattr(self, k).get_params())
+                    # plain floats, because the reader evaluates literals only
+                    params = getattr(self, k).get_params()
+                    group.attrs["cosmo"] = str({p: float(params[p]) for p in params})
                     continue
                 this_attr = getattr(self, k)
 
-- 
2.43.0


From e76ebd93f4e6639699a3669cde85518ed3daeeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 52/55] fix: reading a whole file keeps all of r_params

---
 src/hera_pspec/uvpspec_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index d67e362..22a37f0 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -954,6 +954,10 @@ def _select(
         uvp.OmegaP = uvp.OmegaP[:, polpair_select]
         uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
 
+    # nothing was selected, so r_params stays as it is
+    if all(sel is None for sel in (spws, bls, blpairs, times, lsts, polpairs)):
+        return
+
     # select r_params based on new bl_array
     blp_keys = uvp.get_all_keys()
     blkeys = []
-- 
2.43.0


From e8334f59267180e2aee7e3d0e3507d520a68cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:56 +0000
Subject: [PATCH 53/55] fix: spherical averages pair spectra by their times and
 keep them with their averages

---
 src/hera_pspec/grouping.py | 60 ++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 7bcd0a2..3c78f96 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -725,6 +725,12 @@ def average_spectra(
         return uvp
 
 
+def _time_ordered_indices(uvp, blp):
+    """Indices of a baseline-pair's rows, in the order of their times."""
+    inds = uvp.blpair_to_indices(blp)
+    return inds[np.lexsort((uvp.time_2_array[inds], uvp.time_1_array[inds]))]
+
+
 def spherical_average(
     uvp_in,
     kbins,
@@ -898,16 +904,20 @@ def spherical_average(
             )
             Nk_theory = len(kbins_theory)
 
+    # every baseline-pair must have the times of the first one
+    times = uvp.time_avg_array[_time_ordered_indices(uvp, uvp.blpair_array[0])]
+    Ntimes = len(times)
+
     # iterate over spectral windows
     spw_ranges = uvp.get_spw_ranges()
     for spw in uvp.spw_array:
         # setup non delay-based arrays for this spw
         spw_range = spw_ranges[spw]
         wgt_array[spw] = np.zeros(
-            (uvp.Ntimes, spw_range[2], 2, uvp.Npols), dtype=np.float64
+            (Ntimes, spw_range[2], 2, uvp.Npols), dtype=np.float64
         )
-        integration_array[spw] = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
-        nsample_array[spw] = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
+        integration_array[spw] = np.zeros((Ntimes, uvp.Npols), dtype=np.float64)
+        nsample_array[spw] = np.zeros((Ntimes, uvp.Npols), dtype=np.float64)
 
         # setup arrays with delays in them
         Ndlys = spw_range[3]
@@ -915,38 +925,38 @@ def spherical_average(
         # check if object has been delay-averaged
         Ndlyblps = Ndlys * uvp.Nblpairs
         data_array[spw] = np.zeros(
-            (uvp.Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
+            (Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
         )
         if store_cov:
             cov_array_real[spw] = np.zeros(
-                (uvp.Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
+                (Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
             )
             cov_array_imag[spw] = np.zeros(
-                (uvp.Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
+                (Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
             )
         if store_stats:
             for stat in uvp.stats_array.keys():
                 stats_array[stat][spw] = np.zeros(
-                    (uvp.Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
+                    (Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
                 )
         if store_window:
             if uvp.exact_windows:
                 window_function_array[spw] = np.zeros(
-                    (uvp.Ntimes, Nk, Nk_theory, uvp.Npols), dtype=np.float64
+                    (Ntimes, Nk, Nk_theory, uvp.Npols), dtype=np.float64
                 )
             else:
                 Nkpar = uvp.window_function_array[spw].shape[2]
                 window_function_array[spw] = np.zeros(
-                    (uvp.Ntimes, Ndlyblps, Nkpar, uvp.Npols), dtype=np.float64
+                    (Ntimes, Ndlyblps, Nkpar, uvp.Npols), dtype=np.float64
                 )
 
         # setup the design matrix: P_cyl = A P_sph
-        A[spw] = np.zeros((uvp.Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
+        A[spw] = np.zeros((Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
         # design matrix for window functions
-        Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
+        Aw = np.zeros((Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
-        E = np.zeros((uvp.Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
+        E = np.zeros((Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
 
         # get kperps for this spw: shape (Nbltpairs,)
         kperps = uvp.get_kperps(spw, little_h=True)
@@ -969,7 +979,13 @@ def spherical_average(
         # iterate over blpairs
         for b, blp in enumerate(uvp.get_blpairs()):
             # get blpair time indices
-            blpt_inds = uvp.blpair_to_indices(blp)
+            blpt_inds = _time_ordered_indices(uvp, blp)
+            blp_times = uvp.time_avg_array[blpt_inds]
+            if len(blp_times) != Ntimes or not (
+                (time_avg and Ntimes == 1)
+                or np.allclose(blp_times, times, rtol=0, atol=time_tol)
+            ):
+                raise ValueError("baseline-pairs must have the same times")
 
             # get k magnitude of data: (Ndlys,)
             kmags = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas**2)
@@ -1080,7 +1096,7 @@ def spherical_average(
         # by applying each baseline block in Em
         # to each Ndly x Nk baseline-horizontal block in Am
         EmAm = np.zeros_like(Am)
-        for t in range(uvp.Ntimes):
+        for t in range(Ntimes):
             for p in range(uvp.Npols):
                 for b in range(uvp.Nblpairs):
                     blpslice = slice(Ndlys * b, Ndlys * (b + 1))
@@ -1162,9 +1178,9 @@ def spherical_average(
 
     # handle baseline metadata: use first blpair as representative blpair
     blp = uvp.blpair_array[0]
-    blp_inds = uvp.blpair_to_indices(blp)
+    blp_inds = _time_ordered_indices(uvp, blp)
     uvp.blpair_array = uvp.blpair_array[blp_inds]
-    uvp.Nbltpairs = uvp.Ntpairs
+    uvp.Nbltpairs = uvp.Ntpairs = Ntimes
     uvp.Nblpairs = 1
     bl_array = np.unique([uvp.antnums_to_bl(an) for an in uvp.blpair_to_antnums(blp)])
     uvp.bl_vecs = np.asarray(
@@ -1180,12 +1196,12 @@ def spherical_average(
     uvp.bl_vecs[:] = 0.0
 
     # handle other metadata
-    uvp.time_avg_array = np.unique(uvp_in.time_avg_array)
-    uvp.time_1_array = np.unique(uvp_in.time_1_array)
-    uvp.time_2_array = np.unique(uvp_in.time_2_array)
-    uvp.lst_avg_array = np.unique(uvp_in.lst_avg_array)
-    uvp.lst_1_array = np.unique(uvp_in.lst_1_array)
-    uvp.lst_2_array = np.unique(uvp_in.lst_2_array)
+    uvp.time_avg_array = uvp.time_avg_array[blp_inds]
+    uvp.time_1_array = uvp.time_1_array[blp_inds]
+    uvp.time_2_array = uvp.time_2_array[blp_inds]
+    uvp.lst_avg_array = uvp.lst_avg_array[blp_inds]
+    uvp.lst_1_array = uvp.lst_1_array[blp_inds]
+    uvp.lst_2_array = uvp.lst_2_array[blp_inds]
 
     uvp.history = "Spherically averaged with hera_pspec [{}]\n{}\n{}\n{}".format(
         __version__, add_to_history, "-" * 40, uvp.history
-- 
2.43.0


From 7b608921185c75737e1208dd10f6b2b36781e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:56 +0000
Subject: [PATCH 54/55] fix: spherical window functions bin each
 baseline-pair's modes by its own length

---
 src/hera_pspec/grouping.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 3c78f96..cbba087 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -945,15 +945,12 @@ def spherical_average(
                     (Ntimes, Nk, Nk_theory, uvp.Npols), dtype=np.float64
                 )
             else:
-                Nkpar = uvp.window_function_array[spw].shape[2]
                 window_function_array[spw] = np.zeros(
-                    (Ntimes, Ndlyblps, Nkpar, uvp.Npols), dtype=np.float64
+                    (Ntimes, Ndlyblps, Nk_theory, uvp.Npols), dtype=np.float64
                 )
 
         # setup the design matrix: P_cyl = A P_sph
         A[spw] = np.zeros((Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
-        # design matrix for window functions
-        Aw = np.zeros((Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
         E = np.zeros((Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
@@ -1006,11 +1003,6 @@ def spherical_average(
             # store data
             data_array[spw][:, dslice] = uvp.data_array[spw][blpt_inds]
 
-            if store_window and not uvp.exact_windows:
-                window_function_array[spw][:, dslice, ...] = uvp.window_function_array[
-                    spw
-                ][blpt_inds]
-
             if store_stats:
                 for stat in stats_array:
                     stats_array[stat][spw][:, dslice] = uvp.stats_array[stat][spw][
@@ -1065,7 +1057,11 @@ def spherical_average(
                 # populate A matrix
                 A[spw][:, i + Ndlys * b, kind, :] = 1.0
 
-            # get k_sph -> k_cyl mapping for window function
+            if not store_window or uvp.exact_windows:
+                continue
+            # get k_sph -> k_cyl mapping for window function, which depends on
+            # the length of this baseline-pair
+            Aw = np.zeros((Nfreqs, Nk_theory), dtype=np.float64)
             # get k magnitude of data: (Ndlys,)
             kmags_per_freq = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_per_freq**2)
             for i, kmag in enumerate(kmags_per_freq):
@@ -1075,7 +1071,10 @@ def spherical_average(
                     # convert kind into an integer for indexing
                     kind = np.where(kind)[0][0]
                 # populate Aw matrix
-                Aw[:, i, kind, :] = 1.0
+                Aw[i, kind] = 1.0
+            window_function_array[spw][:, dslice] = np.einsum(
+                "tdfp,fk->tdkp", uvp.window_function_array[spw][blpt_inds], Aw
+            )
 
         # normalize metadata sums
         wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
@@ -1113,10 +1112,9 @@ def spherical_average(
 
         if store_window and not uvp.exact_windows:
             # bin window function: W_sph = H.T W_cyl A
-            # wm shape (Npols, Ntimes, Ndlyblps, Ndlyblps)
+            # wm shape (Npols, Ntimes, Ndlyblps, Nk_theory)
             wm = np.moveaxis(window_function_array[spw], -1, 0)
-            Aw2 = np.moveaxis(Aw, -1, 0)
-            wm = Ht @ wm @ Aw2
+            wm = Ht @ wm
             window_function_array[spw] = np.moveaxis(wm, 0, -1)
 
         if store_stats:
-- 
2.43.0


From a572f5515ff116151d1db833418416ec33df46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:01 +0000
Subject: [PATCH 55/55] fix: spherical bins without modes keep their infinite
 error

---
 src/hera_pspec/grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index cbba087..caab6bd 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1102,6 +1102,8 @@ def spherical_average(
                     EmAm[p, t, blpslice] = Em[p, t, blpslice] @ Am[p, t, blpslice]
         invAEA = np.linalg.pinv(Am.transpose(0, 1, 3, 2) @ EmAm)
         H = EmAm @ invAEA
+        # bins without any mode get no round-off from the pseudo-inverse
+        H *= np.any(Am, axis=2)[:, :, None, :]
         Ht = H.transpose(0, 1, 3, 2)
 
         # bin data: p_sph = H.T p_cyl
-- 
2.43.0

