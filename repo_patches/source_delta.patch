From c9f9a64992693eb6400d490b1e0b73edf38bb4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 01/85] fix: NUFFT transforms returned depth-reversed spectra
 for Faraday depth axes not centred on zero

---
 RMutils/util_RM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..fec5421 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -202,7 +202,7 @@ def do_rmsynth_planes(
         finufft.nufft1d3(
             x=a,
             c=np.ascontiguousarray(pCube.T),
-            s=(phiArr_radm2[::-1] * 2).astype(a.dtype),
+            s=(phiArr_radm2 * -2).astype(a.dtype),
             eps=eps,
         )
         * KArr[..., None]
@@ -403,7 +403,7 @@ def get_rmsf_planes(
             finufft.nufft1d3(
                 x=a,
                 c=np.ascontiguousarray(weightCube.T),
-                s=(phi2Arr[::-1] * 2).astype(a.dtype),
+                s=(phi2Arr * -2).astype(a.dtype),
                 eps=eps,
             )
             * KArr[..., None]
-- 
2.43.0


From 55b2db52031081a46a9edc88fe88fabbc6a1d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 02/85] fix: RM-CLEAN iteration counts were lost when cleaning
 with worker processes

---
 RMutils/util_RM.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index fec5421..38d69cb 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -624,6 +624,9 @@ def do_rmclean_hogbom(
         ccArr[:, yi, xi] = output[i][2]
         cleanFDF[:, yi, xi] = output[i][0]
         residFDF[:, yi, xi] = output[i][1]
+        # Worker processes only have a copy of iterCountArr, so the counts have
+        # to come back with the results.
+        iterCountArr[yi, xi] = output[i][3]
 
     # Restore the residual to the CLEANed FDF (moved outside of loop:
     # will now work for pixels/spectra without clean components)
@@ -648,6 +651,8 @@ class CleanLoopResults(NamedTuple):
     """The residual Faraday dispersion function cube"""
     ccArr: np.ndarray
     """The clean components cube"""
+    iterCount: int
+    """The number of iterations performed"""
 
 
 class RMcleaner:
@@ -775,7 +780,9 @@ class RMcleaner:
         residFDF = np.squeeze(residFDF)
         ccArr = np.squeeze(ccArr)
 
-        return CleanLoopResults(cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr)
+        return CleanLoopResults(
+            cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr, iterCount=iterCount
+        )
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 830252727be2c4891a4d1fd3ed1256cad10563c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 03/85] fix: RM-CLEAN window lost components near the start of
 the depth axis (negative slice start)

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 38d69cb..6e285de 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -737,7 +737,7 @@ class RMcleaner:
         dPhi = self.phiArr_radm2[1] - self.phiArr_radm2[0]
         fwhmRMSFArr_pix = fwhmRMSFArr / dPhi
         for i in np.where(mask)[0]:
-            start = int(i - fwhmRMSFArr_pix / 2)
+            start = max(0, int(i - fwhmRMSFArr_pix / 2))
             end = int(i + fwhmRMSFArr_pix / 2)
             mask[start:end] = True
         residFDF_mask = np.ma.array(residFDF, mask=~mask)
-- 
2.43.0


From e4edc66b4e28c7f1f1b484ef9b03bb14378ced68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 04/85] fix: peak fits outside the depth axis were reported
 when the axis is not symmetric, and kept a signal-to-noise value

---
 RMutils/util_RM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 6e285de..d34e7bb 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1059,9 +1059,10 @@ def measure_FDF_parms(
         # In rare cases, a parabola can be fitted to the edge of the spectrum,
         # producing a unreasonably large RM and polarized intensity.
         # In these cases, everything should get NaN'd out.
-        if np.abs(phiPeakPIfit) > np.max(np.abs(phiArr)):
+        if phiPeakPIfit < np.min(phiArr) or phiPeakPIfit > np.max(phiArr):
             phiPeakPIfit = np.nan
             ampPeakPIfit = np.nan
+            snrPIfit = np.nan
 
         # Error on fitted Faraday depth (RM) is same as channel, but using fitted PI
         dPhiPeakPIfit = fwhmRMSF * dFDF / (2.0 * ampPeakPIfit)
-- 
2.43.0


From 32843441e0485a22c98f0dbf7b233451ff429f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 05/85] fix: wrong Stokes I coefficient errors after changing a
 log model's reference frequency

---
 RMutils/util_misc.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..33d29dc 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -629,6 +629,7 @@ def renormalize_StokesI_model(
         ]
     elif fit_result.fit_function == "log":
         g2 = new_parms[5]  # Convenient shorthand for new value of g variable.
+        ln10 = np.log(10)
         new_errors = [
             np.sqrt(cov[0, 0]),
             np.sqrt(25 * lnx**2 * cov[0, 0] + 10 * lnx * cov[0, 1] + cov[1, 1]),
@@ -658,7 +659,7 @@ def renormalize_StokesI_model(
                 + 30 * lnx**6 * cov[0, 2]
                 + 20 * lnx**5 * cov[0, 3]
                 + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
+                + 16 * lnx**6 * cov[1, 1]
                 + 24 * lnx**5 * cov[1, 2]
                 + 16 * lnx**4 * cov[1, 3]
                 + 8 * lnx**3 * cov[1, 4]
@@ -671,25 +672,25 @@ def renormalize_StokesI_model(
             ),
             np.abs(g2)
             * np.sqrt(
-                lnx**10 * cov[0, 0]
-                + 2 * lnx**9 * cov[0, 1]
-                + 2 * lnx**8 * cov[0, 2]
-                + 2 * lnx**7 * cov[0, 3]
-                + 2 * lnx**6 * cov[0, 4]
+                ln10**2 * lnx**10 * cov[0, 0]
+                + ln10**2 * 2 * lnx**9 * cov[0, 1]
+                + ln10**2 * 2 * lnx**8 * cov[0, 2]
+                + ln10**2 * 2 * lnx**7 * cov[0, 3]
+                + ln10**2 * 2 * lnx**6 * cov[0, 4]
                 + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
-                + lnx**8 * cov[1, 1]
-                + 2 * lnx**7 * cov[1, 2]
-                + 2 * lnx**6 * cov[1, 3]
-                + 2 * lnx**5 * cov[1, 4]
+                + ln10**2 * lnx**8 * cov[1, 1]
+                + ln10**2 * 2 * lnx**7 * cov[1, 2]
+                + ln10**2 * 2 * lnx**6 * cov[1, 3]
+                + ln10**2 * 2 * lnx**5 * cov[1, 4]
                 + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
-                + lnx**6 * cov[2, 2]
-                + 2 * lnx**5 * cov[2, 3]
-                + 2 * lnx**4 * cov[2, 4]
+                + ln10**2 * lnx**6 * cov[2, 2]
+                + ln10**2 * 2 * lnx**5 * cov[2, 3]
+                + ln10**2 * 2 * lnx**4 * cov[2, 4]
                 + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
-                + lnx**4 * cov[3, 3]
-                + 2 * lnx**3 * cov[3, 4]
+                + ln10**2 * lnx**4 * cov[3, 3]
+                + ln10**2 * 2 * lnx**3 * cov[3, 4]
                 + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
-                + lnx**2 * cov[4, 4]
+                + ln10**2 * lnx**2 * cov[4, 4]
                 + 2 * lnx / g * np.log(10) * cov[4, 5]
                 + 1 / g**2 * cov[5, 5]
             ),
-- 
2.43.0


From 620e43237b78f9597402e4b591abc0a25743e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 06/85] fix: flagged channels were counted as degrees of
 freedom of the Stokes I fit

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 33d29dc..e4061bd 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -516,7 +516,7 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         )
         aic = 2 * (polyOrd + 1) + mp.fnorm
 
-    dof = len(freqArr) - polyOrd - 1
+    dof = int(np.sum(goodchan)) - polyOrd - 1
     return FitResult(
         params=mp.params,
         fitStatus=int(np.abs(mp.status)),
-- 
2.43.0


From 81f780b5c96756ca196bac9bd0c23c81a60f4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 07/85] fix: channels flagged only in U or in the errors were
 kept in the response function, noise and channel counts

---
 RMtools_1D/do_RMsynth_1D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..40d23f7 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -295,6 +295,9 @@ def run_rmsynth(
     else:
         weightType = "uniform"
         weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels without both q and u are flagged: they must not contribute to the
+    # RMSF, the theoretical noise or the channel statistics
+    weightArr = np.where(np.isfinite(qArr) & np.isfinite(uArr), weightArr, 0.0)
     if verbose:
         log("Weight type is '%s'." % weightType)
 
-- 
2.43.0


From 6bd7120c4edcddc692d88d51e356bd828f7d741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 08/85] fix: super-resolution 1D synthesis failed with a
 supplied Stokes I model

---
 RMtools_1D/do_RMsynth_1D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 40d23f7..9bdae4a 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -349,6 +349,10 @@ def run_rmsynth(
     # Stokes I reference frequency.
 
     if lam0Sq_m2 == 0:  # Rudnick-Cotton adapatation
+        if modStokesI is not None:  # A supplied model has no reference frequency
+            fit_result = fit_result.with_options(
+                reference_frequency_Hz=1 / np.sqrt(np.nanmean(1 / freqArr_Hz**2))
+            )
         freq0_Hz = fit_result.reference_frequency_Hz
     else:  # standard RM-synthesis
         freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-- 
2.43.0


From 6ddf8f64b9c965e3ddee786e3c3261e995f2572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 09/85] fix: negative channel width reported for spectra in
 descending frequency order

---
 RMtools_1D/do_RMsynth_1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 9bdae4a..8ad4e45 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -415,7 +415,7 @@ def run_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+    mDict["median_channel_width"] = float(np.median(np.abs(np.diff(freqArr_Hz))))
 
     # Measure the complexity of the q and u spectra
     # Use 'ampPeakPIfitEff' for bias correct PI
-- 
2.43.0


From 771efa55432780e4844f9204f80341a0b6551357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 10/85] fix: rmsynth1dFITS saved its plots under the literal
 name prefixOut in the current directory

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 8dae6af..f39a54f 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -265,6 +265,7 @@ def main():
         debug=args.debug,
         verbose=verbose,
         units=args.units,
+        prefixOut=prefixOut,
         saveFigures=args.saveOutput,
         super_resolution=args.super_resolution,
     )
-- 
2.43.0


From f960f84660850cf2db4fa379fbcffa820c0db176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 11/85] fix: 3D synthesis ignored flags in Stokes U and in the
 Stokes I model when computing the RMSF, and overflowed where the model is
 zero

---
 RMtools_3D/do_RMsynth_3D.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..0c77744 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -188,6 +188,9 @@ def run_rmsynth(
         with np.errstate(divide="ignore", invalid="ignore"):
             qArr = np.true_divide(dataQ, dataI)
             uArr = np.true_divide(dataU, dataI)
+        # Channels where the Stokes I model vanishes carry no information.
+        qArr[np.isinf(qArr)] = np.nan
+        uArr[np.isinf(uArr)] = np.nan
     else:
         qArr = dataQ
         uArr = dataU
@@ -213,7 +216,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 91e729a6cc0343d8f5d2371ddd26fe58338bf045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 12/85] fix: 3D synthesis took the Stokes I model at the wrong
 frequency, and failed on cubes with a degenerate spatial axis

---
 RMtools_3D/do_RMsynth_3D.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 0c77744..e58b92d 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -44,7 +44,7 @@ import astropy.io.fits as pf
 import numpy as np
 from astropy.constants import c as speed_of_light
 
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import remove_header_third_fourth_axis
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
 
 if sys.version_info.major == 2:
@@ -242,16 +242,17 @@ def run_rmsynth(
         )
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
-        else:
-            Ifreq0Arr = dataI[idx, :, :]
+        # Interpolate linearly between the two planes that bracket freq0_Hz.
+        order = np.argsort(freqArr_Hz)
+        upper = np.searchsorted(freqArr_Hz[order], freq0_Hz)
+        upper = min(max(upper, 1), len(order) - 1)
+        iLow, iHigh = order[upper - 1], order[upper]
+        frac = (freq0_Hz - freqArr_Hz[iLow]) / (freqArr_Hz[iHigh] - freqArr_Hz[iLow])
+        Ifreq0Arr = (1.0 - frac) * dataI[iLow] + frac * dataI[iHigh]
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
-        FDFcube *= Ifreq0Arr
+        # (degenerate spatial axes have been removed from the FDF)
+        FDFcube *= np.reshape(Ifreq0Arr, FDFcube.shape[1:])
 
     if not_rmsf:  # only RMsynth
         dataArr = [FDFcube, phiArr_radm2, lam0Sq_m2, lambdaSqArr_m2]
-- 
2.43.0


From 03dc93fa6984a0a027d23045ba011340a7df4e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 13/85] fix: 3D products could not be written when an axis has
 no CTYPE keyword

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index e58b92d..19859b7 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -621,7 +621,7 @@ def writefits(
 
         stokes_axis = None
         for axis in range(1, header["NAXIS"] + 1):
-            if "STOKES" in header[f"CTYPE{axis}"]:
+            if "STOKES" in header.get(f"CTYPE{axis}", ""):
                 stokes_axis = axis
         if stokes_axis is not None:
             header[f"CTYPE{stokes_axis}"] = (
@@ -675,7 +675,7 @@ def _setStokes(header, stokes):
     outheader = header.copy()
     stokes_axis = None
     for axis in range(1, header["NAXIS"] + 1):
-        if "STOKES" in header[f"CTYPE{axis}"]:
+        if "STOKES" in header.get(f"CTYPE{axis}", ""):
             stokes_axis = axis
 
     if stokes_axis is not None:
-- 
2.43.0


From 2d1e2d613acb048e3a2b4842554ae67f258ff586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 14/85] fix: RMSF width map lost an image axis for four-axis
 cubes with a degenerate spatial axis

---
 RMtools_3D/do_RMsynth_3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 19859b7..7d5222a 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -484,6 +484,8 @@ def writefits(
         RMSFcube = np.reshape(RMSFcube, [RMSFcube.shape[0]] + output_axes)
         # Move Faraday depth axis to appropriate position to match header.
         RMSFcube = np.moveaxis(RMSFcube, 0, Ndim - freq_axis)
+        # The FWHM map keeps only the two sky axes.
+        fwhmRMSFCube = np.reshape(fwhmRMSFCube, output_axes[-2:])
 
         # Header for outputs that are RMSF
         header["NAXIS" + str(freq_axis)] = phi2Arr_radm2.size
-- 
2.43.0


From 6c09adb33c7e7c70ef897bf92aa33d967bb5c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 15/85] fix: 3D RM-CLEAN looked for the wrong files when a
 directory or prefix contains _real, _im or _tot

---
 RMtools_3D/do_RMclean_3D.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 8e7a9a8..1d8cfb9 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -35,6 +35,7 @@
 # =============================================================================#
 
 import os
+import re
 import sys
 import time
 
@@ -109,9 +110,7 @@ def run_rmclean(
 
     RMSFArr, headRMSF, FD_axis = read_FDF_cubes(fitsRMSF)
     HDULst = pf.open(
-        fitsRMSF.replace("_real", "_FWHM")
-        .replace("_im", "_FWHM")
-        .replace("_tot", "_FWHM"),
+        _component_filename(fitsRMSF, "FWHM"),
         "readonly",
         memmap=True,
     )
@@ -385,6 +384,17 @@ def find_axes(header):
     return Ndim, FD_axis
 
 
+def _component_filename(filename, component):
+    """Get the name of the file with another component of the same product.
+    Only the component label itself (the last _real, _im or _tot in the file
+    name) is replaced: the directory and the prefix can contain anything."""
+    dirname, basename = os.path.split(filename)
+    basename = re.sub(
+        r"^(.*)_(?:real|im|tot)(?![a-zA-Z])", r"\g<1>_" + component, basename
+    )
+    return os.path.join(dirname, basename)
+
+
 def read_FDF_cubes(filename):
     """Read in a FDF/RMSF cube. Input filename can be any of real, imag, or tot components.
     Figures out which axis is Faraday depth and
@@ -392,7 +402,7 @@ def read_FDF_cubes(filename):
     Returns: (complex_cube, header,FD_axis)
     """
     HDUreal = pf.open(
-        filename.replace("_tot", "_real").replace("_im", "_real"),
+        _component_filename(filename, "real"),
         "readonly",
         memmap=True,
     )
@@ -400,7 +410,7 @@ def read_FDF_cubes(filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        filename.replace("_tot", "_im").replace("_real", "_im"), "readonly", memmap=True
+        _component_filename(filename, "im"), "readonly", memmap=True
     )
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
-- 
2.43.0


From bedd479571f86759a5135c6c138479132d6c3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 16/85] fix: 3D RM-CLEAN transposed the image axes of cubes
 with a degenerate spatial axis

---
 RMtools_3D/do_RMclean_3D.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 1d8cfb9..94ddc73 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -145,21 +145,19 @@ def run_rmclean(
         log("Saving the clean FDF and ancillary FITS files")
 
     # Move FD axis back to original position, and restore dimensionality:
+    # cleaning removes all degenerate axes, so the shape of the other axes is
+    # taken from the header (in numpy order, with the FD axis put back in place).
     old_Ndim, FD_axis = find_axes(head)
-    new_Ndim = cleanFDF.ndim
-    # The difference is the number of dimensions that need to be added:
-    if old_Ndim - new_Ndim != 0:  # add missing (degenerate) dimensions back in
-        cleanFDF = np.expand_dims(cleanFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-        ccArr = np.expand_dims(ccArr, axis=tuple(range(old_Ndim - new_Ndim)))
-        residFDF = np.expand_dims(residFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-    # New dimensions are added to the beginning of the axis ordering
-    # (revserse of FITS ordering)
-
-    # Move the FDF axis to it's original spot. Hopefully this means that all
-    # axes are in their original place after all of that.
-    cleanFDF = np.moveaxis(cleanFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    ccArr = np.moveaxis(ccArr, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    residFDF = np.moveaxis(residFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
+    other_axes = [head["NAXIS" + str(i)] for i in range(old_Ndim, 0, -1)]
+    del other_axes[old_Ndim - FD_axis]
+    nPhi = phiArr_radm2.size
+    cleanFDF = np.moveaxis(
+        cleanFDF.reshape([nPhi] + other_axes), 0, old_Ndim - FD_axis
+    )
+    ccArr = np.moveaxis(ccArr.reshape([nPhi] + other_axes), 0, old_Ndim - FD_axis)
+    residFDF = np.moveaxis(
+        residFDF.reshape([nPhi] + other_axes), 0, old_Ndim - FD_axis
+    )
 
     return cleanFDF, ccArr, iterCountArr, residFDF, head
 
@@ -314,6 +312,12 @@ def writefits(
         header["CTYPE4"] = ("DEGENERATE", "Axis left in to avoid FITS errors")
         header["CUNIT4"] = ""
 
+    # The iteration count map has the image axes of the cube, and a degenerate
+    # Faraday depth axis.
+    Ndim, FD_axis = find_axes(headtemp)
+    iter_shape = [headtemp["NAXIS" + str(i)] for i in range(Ndim, 0, -1)]
+    iter_shape[Ndim - FD_axis] = 1
+
     # Save the iteration count mask
     fitsFileOut = outDir + "/" + prefixOut + "CLEAN_nIter.fits"
     if verbose:
@@ -322,10 +326,7 @@ def writefits(
     if "STOKES" in header:
         del header["STOKES"]
     hdu0 = pf.PrimaryHDU(
-        np.expand_dims(
-            iterCountArr.astype(dtFloat),
-            axis=tuple(range(headtemp["NAXIS"] - iterCountArr.ndim)),
-        ),
+        iterCountArr.astype(dtFloat).reshape(iter_shape),
         header,
     )
     hduLst = pf.HDUList([hdu0])
-- 
2.43.0


From 4c1edd45aa92b4d1f9abd9dcc873f0b69d8a24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 17/85] fix: rmclean3d failed when a chunk size was given
 without worker processes

---
 RMtools_3D/do_RMclean_3D.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 94ddc73..edb9b4b 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -536,10 +536,9 @@ def main():
             "Parallel processing not available. Please install the schwimmbad module to enable parallel processing."
         )
 
-    # If parallelization requested use it, otherwise use the old-fashioned way.
-    if parallel_available == True and (
-        args.n_cores != 1 or args.chunk != None or args.mpi != False
-    ):
+    # If parallelization requested use it, otherwise use the old-fashioned way
+    # (the chunk size means nothing when there is only one process).
+    if parallel_available == True and (args.n_cores != 1 or args.mpi != False):
         pool = schwimmbad.choose_pool(mpi=args.mpi, processes=args.n_cores)
         if args.mpi:
             if not pool.is_master():
-- 
2.43.0


From 13abbf134b0333749fbb8cd295635a6c3c2bd814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 18/85] fix: extract_region dropped the last row and column of
 two-axis images

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..46b9d66 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -166,7 +166,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From e85c6750cdad6ed4858d9d56306031bf8dcd1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 19/85] fix: extract_region did not accept -1 for the upper box
 limits or the plane limits

---
 RMtools_3D/extract_region.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 46b9d66..830f577 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,12 +98,6 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
-        raise Exception("Box dimensions incorrect! x_max < x_min!")
-
-    if box[2] > box[3]:
-        raise Exception("Box dimensions incorrect! y_max < y_min!")
-
     hdu = pf.open(args.infile, memmap=True)
     header = hdu[0].header
 
@@ -139,6 +133,10 @@ def main():
 
     if args.zlim != None:
         zlim = args.zlim
+        if zlim[0] < 1:
+            zlim[0] = 1
+        if (zlim[1] == -1) or (zlim[1] > header["NAXIS" + str(cube_axis)]):
+            zlim[1] = header["NAXIS" + str(cube_axis)]
     elif cube_axis > 2:
         zlim = [1, header["NAXIS" + str(cube_axis)]]
 
@@ -151,6 +149,12 @@ def main():
     if (box[3] == -1) or (box[3] > header["NAXIS2"]):
         box[3] = header["NAXIS2"]
 
+    if box[0] > box[1]:
+        raise Exception("Box dimensions incorrect! x_max < x_min!")
+
+    if box[2] > box[3]:
+        raise Exception("Box dimensions incorrect! y_max < y_min!")
+
     # Extract sub-region:
     if header["NAXIS"] == 4:
         if cube_axis == 3:
-- 
2.43.0


From 5a42bc3f8f452ab3656a66ff5b41ab88da35a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 20/85] fix: create_chunks and assemble_chunks failed when the
 whole image fits in one chunk

---
 RMtools_3D/assemble_chunks.py | 2 +-
 RMtools_3D/create_chunks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..c419f0b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -137,7 +137,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
+    i = num_chunks - 1
     file = chunkfiles[i]
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..2c3e16e 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -106,7 +106,7 @@ def main():
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
+    i = num_chunks - 1
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From 9461cdaf976c2c6b1537b94190fc2d58df2f5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 21/85] fix: linear axes read from FITS headers lost channels
 to rounding and for negative increments

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index d34e7bb..f1ab218 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -799,7 +799,7 @@ def fits_make_lin_axis(head, axis=0, dtype="f4"):
     stop = (
         head["CRVAL" + i] + (head["NAXIS" + i] - head["CRPIX" + i]) * head["CDELT" + i]
     )
-    nChan = int(abs(start - stop) / head["CDELT" + i] + 1)
+    nChan = head["NAXIS" + i]
 
     return np.linspace(start, stop, nChan).astype(dtype)
 
-- 
2.43.0


From e78f143dccc9569a8d55dcdf45ce1e8b9e1bf2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 22/85] fix: assemble_chunks picked up unrelated files, and
 failed on names containing wildcards or another chunk-like part

---
 RMtools_3D/assemble_chunks.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index c419f0b..aba8387 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -11,7 +11,7 @@ output files from 3D RM synthesis back into larger cubes.
 
 import argparse
 import re
-from glob import glob
+from glob import escape, glob
 from math import ceil
 
 import astropy.io.fits as pf
@@ -56,13 +56,13 @@ def main():
 
     args = parser.parse_args()
 
+    # The chunk number is the last .C??. in the name (the name of the original
+    # file may contain something similar).
+    filename = list(re.finditer(r"\.C\d+(?=\.)", args.chunkname))[-1]
+
     if args.output == None:
-        output_filename = ".".join(
-            [
-                x
-                for x in args.chunkname.split(".")
-                if not (x.startswith("C") and x[1:].isnumeric())
-            ]
+        output_filename = (
+            args.chunkname[0 : filename.start()] + args.chunkname[filename.end() :]
         )
     else:
         output_filename = args.output
@@ -73,9 +73,11 @@ def main():
         args.memmap = True
 
     # Get all the chunk filenames. Missing chunks will break things!
-    filename = re.search("\.C\d+\.", args.chunkname)
     chunkfiles = glob(
-        args.chunkname[0 : filename.start()] + ".C*." + args.chunkname[filename.end() :]
+        escape(args.chunkname[0 : filename.start()])
+        + ".C"
+        + "[0-9]" * (filename.end() - filename.start() - 2)
+        + escape(args.chunkname[filename.end() :])
     )
     chunkfiles.sort()
 
-- 
2.43.0


From 40ee7db68a5c00924eb2e10a3ac9d6eb9f19b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 23/85] fix: Stokes I cube fitting failed on cubes without
 BUNIT

---
 RMtools_3D/do_fitIcube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 1a0e951..f0b952c 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -563,7 +563,8 @@ def make_model_I(
             results = pool.map(func, args_list)
 
     headcoeff = remove_header_third_fourth_axis(header=header.copy())
-    del headcoeff["BUNIT"]
+    if "BUNIT" in headcoeff:
+        del headcoeff["BUNIT"]
 
     endTime = time.time()
     cputime = endTime - startTime
-- 
2.43.0


From 30b805e463d0e8ab160e44832293f80ed5eeafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 24/85] fix: Stokes I cube fitting failed on cubes with a
 degenerate spatial axis

---
 RMtools_3D/do_fitIcube.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index f0b952c..9d4a453 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -215,6 +215,11 @@ def open_datacube(fitsI, verbose=False):
     print("Reading FITS cube header from '%s':" % fitsI)
     header, datacube = readFitsCube(fitsI, verbose)
 
+    # Restore any degenerate image axes removed while reading (axes 1 and 2 of
+    # the file are the image axes):
+    if header["NAXIS"] >= 3:
+        datacube = np.reshape(datacube, (-1, header["NAXIS2"], header["NAXIS1"]))
+
     nDim = datacube.ndim
     if nDim < 3 or nDim > 4:
         print("Err: only 3 or 4 dimensions supported: D = %d." % header["NAXIS"])
@@ -515,10 +520,9 @@ def make_model_I(
 
     coeffs = np.array([mskArr] * 6, dtype=dtFloat)
     coeffs_error = np.array([mskArr] * 6, dtype=dtFloat)
-    reffreq = np.squeeze(np.array([mskArr], dtype=dtFloat))
+    reffreq = np.array(mskArr, dtype=dtFloat)
 
     covars = np.array([[mskArr] * 6] * 6, dtype=dtFloat)
-    datacube = np.squeeze(datacube)
 
     # Select only the spectra with emission
     srcData = np.rot90(datacube[:, mskSrc > 0])
-- 
2.43.0


From 59e5b1945217536cf06c164f1cc5a9cbb8300734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 25/85] fix: Stokes I model cube described its frequency axis
 with the degenerate third axis of 4-axis inputs

---
 RMtools_3D/do_fitIcube.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 9d4a453..b987d56 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -45,7 +45,7 @@ import astropy.io.fits as pf
 import numpy as np
 from tqdm.contrib.concurrent import process_map
 
-from RMtools_3D.do_RMsynth_3D import readFitsCube
+from RMtools_3D.do_RMsynth_3D import find_freq_axis, readFitsCube
 from RMtools_3D.make_freq_file import get_freq_array
 from RMutils.util_FITS import strip_fits_dims
 from RMutils.util_misc import (
@@ -390,6 +390,15 @@ def savefits_model_I(data, header, outDir, prefixOut):
     nDim = data.ndim
     nBits = np.abs(header["BITPIX"])
 
+    # The frequency axis of the model cube is always the third axis:
+    if nDim == 3 and find_freq_axis(header) == 4:
+        header = header.copy()
+        for key in ["NAXIS", "CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"]:
+            if key + "4" in header:
+                header[key + "3"] = header[key + "4"]
+            else:
+                header.pop(key + "3", None)
+
     headModelCube = strip_fits_dims(header=header, minDim=nDim)
     headModelCube["NAXIS1"] = header["NAXIS1"]
     headModelCube["NAXIS2"] = header["NAXIS2"]
-- 
2.43.0


From 989befc8927e8eb10b64502312f80b1f2f76586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 26/85] fix: Stokes I cube fitting lost accuracy by reading
 frequency files in the precision of the cube

---
 RMtools_3D/do_fitIcube.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index b987d56..c4a7d83 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -247,14 +247,12 @@ def get_frequencies(datacube, header, freqFile):
     freqArr_Hz: frequency array
     """
 
-    nBits = np.abs(header["BITPIX"])
-    dtFloat = "float" + str(nBits)
-
     nChan = datacube.shape[0]  # for now, assumes frequency is the first axis
 
     # Read the frequency vector
     print("Reading frequency vector from '%s'." % freqFile)
-    freqArr_Hz = np.loadtxt(freqFile, dtype=dtFloat)
+    # (always in double precision: single precision degrades the fits)
+    freqArr_Hz = np.loadtxt(freqFile, dtype="float64")
     if nChan != len(freqArr_Hz):
         print("Err: frequency vector and frequency axis of cube unequal length.")
         sys.exit()
-- 
2.43.0


From 4b19e00fdbc2527bd0b009c979997491549a51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 27/85] fix: rescaling Stokes I models dropped the
 highest-order maps when a lower-order map is all zero

---
 RMtools_3D/rescale_I_model_3D.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..db4f74f 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -322,9 +322,8 @@ def write_new_parameters(
 
     # Work out highest order of polynomial:
     # if any of the 6 possible coeff planes contain non-zero and non-nan values, it's a 'good' plane.
-    max_order = (
-        np.sum(np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))) - 1
-    )
+    good_planes = np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))
+    max_order = 5 - np.argmax(good_planes) if np.any(good_planes) else -1
 
     for i in range(max_order + 1):
         pf.writeto(
-- 
2.43.0


From b1ba773b045266ef0073a2fcd1f74a159ecc80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 28/85] fix: wrong digits of the speed of light when rescaling
 Stokes I models to the reference wavelength of a cube

---
 RMtools_3D/rescale_I_model_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index db4f74f..a94ce95 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -154,7 +154,7 @@ def command_line():
     if args.lambda2_0 is not None:
         FDF_header = pf.getheader(args.lambda2_0)
         lam0Sq_m2 = FDF_header["LAMSQ0"]
-        freq0 = 2.997924538e8 / np.sqrt(lam0Sq_m2)
+        freq0 = 2.99792458e8 / np.sqrt(lam0Sq_m2)
         new_freq_map = np.ones_like(old_reffreq_map) * freq0
     elif args.new_reffreq is not None:
         new_freq_map = np.ones_like(old_reffreq_map) * args.new_reffreq
-- 
2.43.0


From 24dfd2fc98f44003fa89de845dc007a62b8d5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 29/85] fix: peak fitting in 3D took the Stokes I model at the
 wrong frequency

---
 RMtools_3D/RMpeakfit_3D.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d218f06..8b4bc7e 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -17,7 +17,7 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import remove_header_third_fourth_axis
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -74,17 +74,13 @@ def pixelwise_peak_fitting(
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
     freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
     if stokesIcube is not None:
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx, :, :], stokesIcube[idx + 1, :, :], f=0.5
-            )
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx - 1, :, :], stokesIcube[idx, :, :], f=0.5
-            )
-        else:
-            Ifreq0Arr = stokesIcube[idx, :, :]
+        # Interpolate linearly between the two planes that bracket freq0_Hz.
+        order = np.argsort(freqArr_Hz)
+        upper = np.searchsorted(freqArr_Hz[order], freq0_Hz)
+        upper = min(max(upper, 1), len(order) - 1)
+        iLow, iHigh = order[upper - 1], order[upper]
+        frac = (freq0_Hz - freqArr_Hz[iLow]) / (freqArr_Hz[iHigh] - freqArr_Hz[iLow])
+        Ifreq0Arr = (1.0 - frac) * stokesIcube[iLow] + frac * stokesIcube[iHigh]
     else:
         Ifreq0Arr = np.ones(map_size)
         stokesIcube = np.ones((freqArr_Hz.size, map_size[0], map_size[1]))
-- 
2.43.0


From 022051b41d2bf983b8cb4eebab1da1067b3cc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 30/85] fix: negative channel width map for cubes in descending
 frequency order

---
 RMtools_3D/RMpeakfit_3D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 8b4bc7e..b9379ee 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -132,7 +132,9 @@ def pixelwise_peak_fitting(
             mDict["min_freq"] = float(np.min(freqArr_Hz))
             mDict["max_freq"] = float(np.max(freqArr_Hz))
             mDict["N_channels"] = lamSqArr_m2.size
-            mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+            mDict["median_channel_width"] = float(
+                np.median(np.abs(np.diff(freqArr_Hz)))
+            )
             if dFDF_pix is not None:
                 mDict["dFDFth"] = dFDF_pix
             else:
-- 
2.43.0


From 238a238fddc9ead736dcbd6ba582db854b35b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 31/85] fix: 3D peak fitting looked for the wrong files when a
 directory or prefix contains _real, _im or _tot

---
 RMtools_3D/RMpeakfit_3D.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index b9379ee..cb23c91 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -9,6 +9,7 @@
 """
 
 import os
+import re
 import sys
 
 import astropy.io.fits as pf
@@ -16,6 +17,7 @@ import numpy as np
 from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
+from RMtools_3D.do_RMclean_3D import _component_filename
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
 from RMutils.util_misc import remove_header_third_fourth_axis
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
@@ -260,7 +262,7 @@ def read_files(FDF_filename, freq_filename):
     """
 
     HDUreal = pf.open(
-        FDF_filename.replace("_tot", "_real").replace("_im", "_real"),
+        _component_filename(FDF_filename, "real"),
         "readonly",
         memmap=True,
     )
@@ -268,7 +270,7 @@ def read_files(FDF_filename, freq_filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        FDF_filename.replace("_tot", "_im").replace("_real", "_im"),
+        _component_filename(FDF_filename, "im"),
         "readonly",
         memmap=True,
     )
@@ -292,13 +294,16 @@ def read_files(FDF_filename, freq_filename):
 
     phiArr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1)
 
+    dirname, basename = os.path.split(FDF_filename)
     HDUfwhm = pf.open(
-        FDF_filename.replace("FDF_tot_dirty", "RMSF_FWHM")
-        .replace("FDF_real_dirty", "RMSF_FWHM")
-        .replace("FDF_im_dirty", "RMSF_FWHM")
-        .replace("FDF_clean_tot", "RMSF_FWHM")
-        .replace("FDF_clean_real", "RMSF_FWHM")
-        .replace("FDF_clean_im", "RMSF_FWHM"),
+        os.path.join(
+            dirname,
+            re.sub(
+                r"^(.*)FDF_(?:(?:tot|real|im)_dirty|clean_(?:tot|real|im))",
+                r"\g<1>RMSF_FWHM",
+                basename,
+            ),
+        ),
         "readonly",
         memmap=True,
     )
-- 
2.43.0


From 4846b8bd6454c0e2fd5105255f5ca9cca6e41d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 32/85] fix: 3D peak fitting failed or transposed the maps for
 cubes with a degenerate image axis

---
 RMtools_3D/RMpeakfit_3D.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index cb23c91..d5c627c 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -284,8 +284,10 @@ def read_files(FDF_filename, freq_filename):
     if FD_axis != Ndim:
         complex_cube = np.moveaxis(complex_cube, Ndim - FD_axis, 0)
 
-    # Remove degenerate axes to prevent problems with later steps.
-    complex_cube = complex_cube.squeeze()
+    # Remove any axis that is neither Faraday depth nor one of the two image axes
+    # (and re-add the axis that is missing from two-axis files).
+    map_size = ((1,) + complex_cube.shape[1:])[-2:]
+    complex_cube = complex_cube.reshape((complex_cube.shape[0],) + map_size)
 
     lam0Sq = head["LAMSQ0"]
 
@@ -307,7 +309,7 @@ def read_files(FDF_filename, freq_filename):
         "readonly",
         memmap=True,
     )
-    fwhmRMSF = HDUfwhm[0].data.squeeze()
+    fwhmRMSF = HDUfwhm[0].data.reshape(map_size)
 
     return complex_cube, phiArr_radm2, fwhmRMSF, lambdaSqArr_m2, lam0Sq, head
 
@@ -468,6 +470,7 @@ def main():
 
     if args.fitsI is not None:
         dataI = readFitsCube(args.fitsI, args.verbose)[1]
+        dataI = dataI.reshape((-1,) + FDF.shape[1:])
     else:
         dataI = None
     if args.noiseFile is not None:
@@ -475,12 +478,6 @@ def main():
     else:
         rmsArr = None
 
-    if (
-        FDF.ndim == 2
-    ):  # When inputting chunks made from createchunks, it drops an axis and breaks things. Re-add to fix things.
-        FDF = np.expand_dims(FDF, axis=1)
-        fwhmRMSF = np.expand_dims(fwhmRMSF, axis=0)
-
     # Fit peaks
     map_dict = pixelwise_peak_fitting(
         FDF,
-- 
2.43.0


From 7e170bbe712982a5293f653315e79ab084cefe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 33/85] fix: slab QU models were undefined at zero thickness
 and inaccurate near it

---
 RMtools_1D/models_ns/m12.py | 7 ++++++-
 RMtools_1D/models_ns/m5.py  | 3 +--
 RMtools_1D/models_ns/m6.py  | 6 ++----
 RMtools_1D/models_ns/m7.py  | 3 ++-
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/RMtools_1D/models_ns/m12.py b/RMtools_1D/models_ns/m12.py
index 8d9d0d4..21bd088 100644
--- a/RMtools_1D/models_ns/m12.py
+++ b/RMtools_1D/models_ns/m12.py
@@ -34,7 +34,12 @@ def model(pDict, lamSqArr_m2):
         * np.exp(
             2j * (np.radians(pDict["psi0_deg"]) + pDict["RM_screen"] * lamSqArr_m2)
         )
-        * ((1 - np.exp(-1.0 * para_S)) / para_S)
+        * np.divide(
+            -np.expm1(-para_S),
+            para_S,
+            out=np.ones_like(para_S),
+            where=(para_S != 0),
+        )
         * np.exp(-2.0 * pDict["sigmaRM_radm2_FG"] ** 2.0 * lamSqArr_m2**2.0)
     )
 
diff --git a/RMtools_1D/models_ns/m5.py b/RMtools_1D/models_ns/m5.py
index 16ede4d..afdc5e2 100644
--- a/RMtools_1D/models_ns/m5.py
+++ b/RMtools_1D/models_ns/m5.py
@@ -32,8 +32,7 @@ def model(pDict, lamSqArr_m2):
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   (0.5*pDict["deltaRM_radm2"] +
                                    pDict["RM_radm2"]) * lamSqArr_m2))
-             * np.sin(pDict["deltaRM_radm2"] * lamSqArr_m2) /
-               (pDict["deltaRM_radm2"] * lamSqArr_m2))
+             * np.sinc(pDict["deltaRM_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m6.py b/RMtools_1D/models_ns/m6.py
index aa23660..e28b706 100644
--- a/RMtools_1D/models_ns/m6.py
+++ b/RMtools_1D/models_ns/m6.py
@@ -39,10 +39,8 @@ def model(pDict, lamSqArr_m2):
     quArr2 = pArr2 * np.exp( 2j * (np.radians(pDict["psi02_deg"]) +
                                    (0.5*pDict["deltaRM2_radm2"] +
                                     pDict["RM2_radm2"]) * lamSqArr_m2))
-    quArr = (quArr1 * np.sin(pDict["deltaRM1_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM1_radm2"] * lamSqArr_m2) +
-             quArr2 * np.sin(pDict["deltaRM2_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM2_radm2"] * lamSqArr_m2))
+    quArr = (quArr1 * np.sinc(pDict["deltaRM1_radm2"] * lamSqArr_m2 / np.pi) +
+             quArr2 * np.sinc(pDict["deltaRM2_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m7.py b/RMtools_1D/models_ns/m7.py
index 50c594f..222b709 100644
--- a/RMtools_1D/models_ns/m7.py
+++ b/RMtools_1D/models_ns/m7.py
@@ -33,7 +33,8 @@ def model(pDict, lamSqArr_m2):
              2j * lamSqArr_m2 * pDict["deltaRM_radm2"])
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   pDict["RM_radm2"] * lamSqArr_m2)) *
-            (1 - np.exp(-1.*para_S)) / para_S)
+            np.divide(-np.expm1(-para_S), para_S,
+                      out=np.ones_like(para_S), where=(para_S != 0)))
     # fmt: on
 
     return quArr
-- 
2.43.0


From 70e69ab4d79c8e5e6d12f4254f71d7f944f23313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 34/85] fix: flagged channels were counted as data in the
 QU-fitting statistics

---
 RMtools_1D/do_QUfit_1D_mnest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..64a6895 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -451,7 +451,8 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    # (flagged values of q and u are not data)
+    nData = float(np.sum(np.isfinite(qArr / dqArr)) + np.sum(np.isfinite(uArr / duArr)))
     dof = nData - nFree - 1
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
@@ -640,9 +641,8 @@ def chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model):
     # Evaluate the model and calculate chisq
     pDict = {k: v for k, v in zip(parNames, p)}
     quMod = model(pDict, lamSqArr_m2)
-    chisq = np.nansum(
-        np.power((qArr - quMod.real) / dqArr, 2)
-        + np.power((uArr - quMod.imag) / duArr, 2)
+    chisq = np.nansum(np.power((qArr - quMod.real) / dqArr, 2)) + np.nansum(
+        np.power((uArr - quMod.imag) / duArr, 2)
     )
 
     return chisq
-- 
2.43.0


From 5b7e0e235ac283c0d8fc9b2f0490024d8df4db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 35/85] fix: QU fitting shifted the wrong parameter when a
 model has fixed parameters

---
 RMtools_1D/do_QUfit_1D_mnest.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 64a6895..ff7d4e5 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -414,10 +414,12 @@ def run_qufit(
             # Only try to do it if the units is in deg, bounded within [0., 180.], and is a periodic variable
             summary_tmp = result.get_one_dimensional_median_and_error_bar(parNames[i])
             if summary_tmp.median < 45.0 or summary_tmp.median >= 135.0:
+                # (the samples have no columns for the fixed parameters)
+                iCol = result.search_parameter_keys.index(parNames[i])
                 # Shift PA by 90 deg
-                result.samples[:, i] += 90.0
+                result.samples[:, iCol] += 90.0
                 # Keep all values within [0, 180)
-                result.samples[:, i] -= (result.samples[:, i] >= 180.0) * 180.0
+                result.samples[:, iCol] -= (result.samples[:, iCol] >= 180.0) * 180.0
                 # Keep track of which parameters have been rotated
                 rotated_parNames.append(parNames[i])
 
@@ -541,11 +543,12 @@ def run_qufit(
 
     for i in range(nDim):
         if parNames[i] in rotated_parNames:
+            iCol = result.search_parameter_keys.index(parNames[i])
             # Rotate back by the 90 deg
-            result.samples[:, i] -= 90.0
+            result.samples[:, iCol] -= 90.0
             if p[i] > 135.0:
                 # In case the PA shown would be << 0 deg
-                result.samples[:, i] += 180.0
+                result.samples[:, iCol] += 180.0
 
     # Resampling to make sure the results show
     if len(rotated_parNames) > 0:
-- 
2.43.0


From 36bf70080de4057e8270e4cb102bc8d08760473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 36/85] fix: corrected Akaike criterion of QU fits lacked the
 term of the uncorrected one

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ff7d4e5..9e15d40 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -459,7 +459,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From 8daeca2718de0bcc0d6873211e2f8ff2e1752dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 37/85] fix: QU fitting reported the saved posterior of a
 previous run after the data had changed

---
 RMtools_1D/do_QUfit_1D_mnest.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 9e15d40..445bcfc 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -617,6 +617,12 @@ class lnlike_call(bilby.Likelihood):
         self.modelNum = modelNum
         pDict = {k: None for k in parNames}
         super().__init__(parameters=pDict)
+        # Bilby compares this to decide whether a saved result can be reused
+        self.meta_data = {
+            "data": np.array(
+                [lamSqArr_m2, qArr, dqArr, uArr, duArr], dtype=float
+            ).tolist()
+        }
 
     def log_likelihood(self):
         # Evaluate the model and calculate the joint ln(like)
-- 
2.43.0


From e2710b5c8d8cdbeb2ec4f3050c7f52ac24e5f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 38/85] fix: QU fitting lost the fixed parameters of a model
 when shifting its angles

---
 RMtools_1D/do_QUfit_1D_mnest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 445bcfc..079ad6a 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -425,7 +425,7 @@ def run_qufit(
 
     # Update the posterior values
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     # Best guess here - taking the maximum likelihood value
     lnLike = np.max(result.log_likelihood_evaluations)
@@ -552,7 +552,7 @@ def run_qufit(
 
     # Resampling to make sure the results show
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     cornerFig = result.plot_corner()
 
-- 
2.43.0


From 295c19b683a7b21e3448d610af049237e464c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 39/85] fix: bandwidth-depolarization tool failed on the
 documented inputs with a channel width column

---
 RMtools_1D/rmtools_bwdepol.py | 3045 +++++++++++++++++----------------
 1 file changed, 1523 insertions(+), 1522 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..03a4d71 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1,1522 +1,1523 @@
-#!/usr/bin/env python
-# =============================================================================#
-#                                                                             #
-# NAME:     rmtools_bwdepol.py                                                #
-#                                                                             #
-# PURPOSE: Algorithm for finding polarized sources while accounting for       #
-#          bandwidth depolarization.                                          #
-#                                                                             #
-# =============================================================================#
-#                                                                             #
-# The MIT License (MIT)                                                       #
-#                                                                             #
-# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
-# Permission is hereby granted, free of charge, to any person obtaining a     #
-# copy of this software and associated documentation files (the "Software"),  #
-# to deal in the Software without restriction, including without limitation   #
-# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
-# and/or sell copies of the Software, and to permit persons to whom the       #
-# Software is furnished to do so, subject to the following conditions:        #
-#                                                                             #
-# The above copyright notice and this permission notice shall be included in  #
-# all copies or substantial portions of the Software.                         #
-#                                                                             #
-# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
-# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
-# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
-# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
-# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
-# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
-# DEALINGS IN THE SOFTWARE.                                                   #
-#                                                                             #
-# =============================================================================#
-
-import argparse
-import math as m
-import os
-import sys
-import time
-import traceback
-
-import matplotlib.pyplot as plt
-import numpy as np
-import scipy as sp
-from astropy.constants import c as speed_of_light
-from matplotlib.ticker import MaxNLocator
-
-from RMtools_1D.do_RMsynth_1D import saveOutput
-from RMutils.util_misc import (
-    MAD,
-    create_frac_spectra,
-    nanmedian,
-    poly5,
-    progress,
-    toscalar,
-)
-from RMutils.util_plotTk import (
-    plot_complexity_fig,
-    plot_dirtyFDF_ax,
-    plot_Ipqu_spectra_fig,
-)
-from RMutils.util_RM import (
-    calc_parabola_vertex,
-    extrap,
-    fit_rmsf,
-    measure_qu_complexity,
-)
-
-if sys.version_info.major == 2:
-    print("RM-tools will no longer run with Python 2! Please use Python 3.")
-    exit()
-
-
-# -----------------------------------------------------------------------------#
-def rotation_integral_limit(freq, phi):
-    """Calculates the analytic solution to the channel polarization integral
-    at one limit frequency.
-
-    Parameters
-    ----------
-    freq: float
-          frequency in Hz
-
-    phi: float
-          Faraday depth (rad/m^2)
-
-    Returns
-    -------
-    intergral_lim: complex
-                   intergral limit
-
-    """
-    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
-    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
-    funct3 = -1.0j + np.sign(phi)
-    funct4 = sp.special.erf(
-        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
-    )
-
-    intergral_lim = funct1 + (funct2 * funct3 * funct4)
-
-    return intergral_lim
-
-
-def rotation_operator(channel_width, channel_center, phi):
-    """Rotation operator for channel with top-hat-in-frequency sensitivity.
-    Computes the net effect on a polarization vector for a channel of given
-    center frequnecy and bandwidth, for a given RM.
-
-    Parameters
-    ----------
-    channel_width: float
-                   channel bandwidth in Hz
-
-    channel_center: float
-                    channel frequency in Hz
-
-    phi: float
-         channel frequency in hz
-
-    Returns
-    -------
-    (complex) rotation operator for that channel
-
-    """
-    b = channel_center + 0.5 * channel_width
-    a = channel_center - 0.5 * channel_width
-
-    int_a = rotation_integral_limit(a, phi)
-    int_b = rotation_integral_limit(b, phi)
-
-    return (1 / channel_width) * (int_b - int_a)
-
-
-def estimate_channel_bandwidth(freq_array):
-    """Estimates the bandwidth per channel given the spacing between channel
-    centers. Only looks at the first 2 channels.
-
-    Parameters
-    ----------
-    freq_array: array-like
-                array of channel centers
-
-    Returns
-    -------
-    ban: float
-         seperation between first two channel centers
-
-    """
-    ban = freq_array[1] - freq_array[0]
-    return ban
-
-
-def l2_to_freq_array(lambda_square_array):
-    """returns the freqency array, corresponding to a lambda square array"""
-
-    f = speed_of_light.value**2 / lambda_square_array
-    return np.sqrt(f)
-
-
-def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
-    """Calculates the theoretical sensitivity and noise for the adjoint method
-
-    Parameters
-    ----------
-    adjoint_vars: list
-                  list like object containing organized as
-                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    dQUArr: array like
-            array containing the error in Stokes Q, and U
-
-    show_progress: Boolean
-                   If set to True, shows progress, Default is False
-
-    log: function
-         logging function, default is print
-
-    Returns
-    -------
-    adjoint_info: list
-                  list containing phiArr, and the theoretical noise and
-                  sensitivity organized as
-                  [phiArr_radm2, adjoint_sens, adjoint_noise]
-
-    """
-
-    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
-    adjoint_noise = np.ones(len(phiArr_radm2))
-    adjoint_sens = np.ones(len(phiArr_radm2))
-
-    nPhi = len(phiArr_radm2)
-    if show_progress:
-        log("Calculating Theoretical Sensitivity & Noise")
-        progress(40, 0)
-    for i in range(nPhi):
-        if show_progress:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
-        adjoint_noise2 = (
-            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
-            / np.sum(weightArr) ** 2
-        )  # equation 34
-        adjoint_noise[i] = np.sqrt(adjoint_noise2)
-
-        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
-
-    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
-    return adjoint_info
-
-
-def plot_adjoint_info(mylist, units="Jy/beam"):
-    """plots theoretical noise, sensitivity"""
-    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
-    fig.subplots_adjust(wspace=0.4, hspace=0.4)
-
-    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
-
-    ax[1].plot(
-        phiArr_radm2,
-        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
-    )
-    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[1].set_ylabel("S:N multiplier")
-    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
-    # plot 2
-    ax[0].plot(
-        phiArr_radm2,
-        adjoint_sens,
-    )
-    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[0].set_ylabel("Sensitivity")
-    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
-    return
-
-
-# -----------------------------------------------------------------------------#
-
-
-def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
-    """Calculates the average analytic solution to the channel polarization
-    integral per channel
-
-    Based on equation 13 of Schnitzeler & Lee (2015)
-
-    Parameters
-    ----------
-    f: float
-       channel center frequency in Hz
-
-    ban: float
-         channel bandwidth in Hz
-
-    phi: float
-         Faraday depth value in rad/m^2
-
-    xi_knot: float
-             inital polarization angle in radians
-
-    p: float
-       polarzied intensity
-
-    Returns
-    -------
-    avg_p_tilda: complex
-                 the average complex polarization, for the bandwidth,
-                 real is Q, imaginary is U
-
-    """
-    a = f - (ban / 2)
-    b = f + (ban / 2)  # integral start and stop values
-
-    ya = rotation_integral_limit(
-        a,
-        phi,
-    )
-    yb = rotation_integral_limit(
-        b,
-        phi,
-    )  # check orig for xi_knot
-
-    i = p * (yb - ya)
-    avg_p_tilda = i / ban
-
-    return avg_p_tilda
-
-
-def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
-    """Farday thin simulated source of the same RM as the measured source,
-    with unit intensity
-
-    Parameters
-    ----------
-    peak_rm: float
-             peak in Faraday depth value (in rad/m^2) for sim
-
-    freqArr_hz: array like
-                frequency array (in Hz)
-
-    width_Hz: float
-              channel width in Hz
-
-    Returns
-    -------
-    data:
-         Dirty FDF for the simulated data formated as a list of arrays
-         [freq_Hz, q, u,  dq, du]
-
-    """
-    if widths_Hz == None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-
-    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
-    size_f = len(freqArr_Hz)
-    dq = np.ones(size_f)
-    du = np.ones(size_f)
-
-    # format  = [freq_Hz, q, u,  dq, du]
-    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
-    return data
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_tweakAxFormat(
-    ax,
-    pad=10,
-    loc="upper right",
-    linewidth=1,
-    ncol=1,
-    bbox_to_anchor=(1.00, 1.00),
-    showLeg=True,
-):
-    """Tweaks some default plotting parameters for the RMSF, returns ax"""
-    # Axis/tic formatting
-    ax.tick_params(pad=pad)
-    for line in ax.get_xticklines() + ax.get_yticklines():
-        line.set_markeredgewidth(linewidth)
-
-    # Legend formatting
-    if showLeg:
-        leg = ax.legend(
-            numpoints=1,
-            loc=loc,
-            shadow=False,
-            borderaxespad=0.3,
-            ncol=ncol,
-            bbox_to_anchor=bbox_to_anchor,
-        )
-        for t in leg.get_texts():
-            t.set_fontsize("small")
-        leg.get_frame().set_linewidth(0.5)
-        leg.get_frame().set_alpha(0.5)
-
-    return ax
-
-
-def gauss(p, peak_rm):
-    """Return a fucntion to evaluate a Gaussian with parameters
-    off set by peak_rm
-
-    Parameters
-    ----------
-    p: list
-       parameters for Gaussian, p = [ampplitude, mean, FWHM]
-
-    peak_rm: float
-             peak in Faraday depth (in rad/m^2), used to center Gaussian
-
-    Returns
-    -------
-    rfun: fuction
-          Gaussian with specified parameters, off set my peak_rm
-
-    """
-
-    a, b, w = p
-    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
-    s = w / gfactor
-
-    def rfunc(x):
-        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
-        return y
-
-    return rfunc
-
-
-def bwdepol_plot_RMSF_ax(
-    ax,
-    phiArr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    axisYright=False,
-    axisXtop=False,
-    doTitle=False,
-):
-    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
-
-    # Set the axis positions
-    if axisYright:
-        ax.yaxis.tick_right()
-        ax.yaxis.set_label_position("right")
-    if axisXtop:
-        ax.xaxis.tick_top()
-        ax.xaxis.set_label_position("top")
-
-    # Plot the RMSF
-    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
-    ax.step(
-        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
-    )
-    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
-    ax.axhline(0, color="grey")
-    if doTitle:
-        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
-
-    # Plot the Gaussian fit
-    if fwhmRMSF is not None:
-        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
-        ax.plot(
-            phiArr,
-            yGauss,
-            color="g",
-            marker="None",
-            mfc="w",
-            mec="g",
-            ms=10,
-            label="Gaussian",
-            lw=2.0,
-            ls="--",
-        )
-
-    # Scaling
-    ax.yaxis.set_major_locator(MaxNLocator(4))
-    ax.xaxis.set_major_locator(MaxNLocator(4))
-    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
-    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
-    ax.set_ylabel("Normalised Units")
-    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
-    ax.axhline(0, color="grey")
-
-    # Format tweaks
-    ax = bwdepol_tweakAxFormat(ax)
-    ax.autoscale_view(True, True, True)
-
-
-def bwdepol_plot_rmsf_fdf_fig(
-    phiArr,
-    FDF,
-    phi2Arr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    gaussParm=[],
-    vLine=None,
-    fig=None,
-    units="flux units",
-):
-    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
-
-    # Default to a pyplot figure
-    if fig == None:
-        fig = plt.figure(figsize=(12.0, 8))
-    # Plot the RMSF
-    ax1 = fig.add_subplot(211)
-    bwdepol_plot_RMSF_ax(
-        ax=ax1,
-        phiArr=phi2Arr,
-        RMSFArr=RMSFArr,
-        peak_rm=peak_rm,
-        fwhmRMSF=fwhmRMSF,
-        doTitle=True,
-    )
-    [label.set_visible(False) for label in ax1.get_xticklabels()]
-    ax1.set_xlabel("")
-
-    ax2 = fig.add_subplot(212, sharex=ax1)
-    plot_dirtyFDF_ax(
-        ax=ax2,
-        phiArr=phiArr,
-        FDFArr=FDF,
-        gaussParm=gaussParm,
-        vLine=vLine,
-        doTitle=True,
-        units=units,
-    )
-    return fig
-
-
-# -----------------------------------------------------------------------------#
-# modified for adjoint
-def bwdepol_get_rmsf_planes(
-    freqArr_Hz,
-    widths_Hz,
-    phiArr_radm2,
-    peak_rm,
-    weightArr=None,
-    mskArr=None,
-    lam0Sq_m2=None,
-    double=True,
-    fitRMSF=True,
-    fitRMSFreal=False,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Calculate the Rotation Measure Spread Function from inputs. This version
-    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-    boolean mask array, where flagged data are True and unflagged data False.
-    If only whole planes (wavelength channels) are flagged then the RMSF is the
-    same for all pixels and the calculation is done once and replicated to the
-    dimensions of the mask. If some isolated voxels are flagged then the RMSF
-    is calculated by looping through each wavelength plane, which can take some
-    time. By default the routine returns the analytical width of the RMSF main
-    lobe but can also use MPFIT to fit a Gaussian.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-
-    Parameters
-    ----------
-    freqArr_Hz      ... vector of frequency values
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is no weighting
-    maskArr         ... cube of mask values used to shape return cube [None]
-    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
-    double          ... pad the Faraday depth to double-size [True]
-    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
-    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
-    nBits           ... precision of data arrays [64]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-
-    Returns
-    -------
-    RMSFcube: array
-              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-              boolean mask array
-
-    phi2Arr: array
-             array of the Faraday Depth (in rad/m^2)
-
-    fwhmRMSFArr: array
-                 fwhm of the RMSF
-
-    statArr: array
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
-    if double:
-        nPhi = phiArr_radm2.shape[0]
-        nExt = np.ceil(nPhi / 2.0)
-        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
-        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
-    else:
-        phi2Arr = phiArr_radm2
-
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Set the mask array (default to 1D, no masked channels)
-    if mskArr is None:
-        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
-        nDims = 1
-    else:
-        mskArr = mskArr.astype("bool")
-        nDims = len(mskArr.shape)
-
-    # Sanity checks on array sizes
-    if not weightArr.shape == freqArr_Hz.shape:
-        log("Err: wavelength^2 and weight arrays must be the same shape.")
-        return None, None, None, None
-    if not nDims <= 3:
-        log("Err: mask dimensions must be <= 3.")
-        return None, None, None, None
-    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
-        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
-        (mskArr.shape[0], freqArr_Hz.shape[-1])
-        log("     Check that the mask is in [z, y, x] order.")
-        return None, None, None, None
-
-    # Reshape the mask array to 3 dimensions
-    if nDims == 1:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
-    elif nDims == 2:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
-
-    # Initialise the complex RM Spread Function cube
-    nX = mskArr.shape[-1]
-    nY = mskArr.shape[-2]
-    nPix = nX * nY
-    nPhi = phi2Arr.shape[0]
-    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
-
-    # If full planes are flagged then set corresponding weights to zero
-    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
-    mskPlanes = np.where(xySum == nPix, 0, 1)
-    weightArr *= mskPlanes
-
-    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
-    flagTotals = np.unique(xySum).tolist()
-    try:
-        flagTotals.remove(0)
-    except Exception:
-        pass
-    try:
-        flagTotals.remove(nPix)
-    except Exception:
-        pass
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Calculate the analytical FWHM width of the main lobe
-    fwhmRMSF = (
-        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
-    )
-
-    # Create simulated data set with simRM = peakRM
-    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
-    # RMSFArr = fdf from bwdepol_simulation
-    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
-        freqArr_Hz,
-        RMSF_data[1],
-        RMSF_data[2],
-        phiArr_radm2,
-        widths_Hz=widths_Hz,
-        weightArr=weightArr,
-        lam0Sq_m2=lam0Sq_m2,
-        verbose=verbose,
-        log=print,
-    )
-
-    # Fit the RMSF main lobe
-    fitStatus = -1
-    if fitRMSF:
-        if verbose:
-            log("Fitting Gaussian to the main lobe.")
-        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
-        if mp is None or mp.status < 1:
-            pass
-            log("Err: failed to fit the RMSF.")
-            log("     Defaulting to analytical value.")
-        else:
-            fwhmRMSF = mp.params[2]
-            fitStatus = mp.status
-
-    # Replicate along X and Y axes
-    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
-    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
-    statArr = np.ones((nY, nX), dtype="int") * fitStatus
-
-    # Remove redundant dimensions
-    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
-    statArr = np.squeeze(statArr)
-    RMSFcube = RMSFcube.reshape(-1)
-
-    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_measure_FDF_parms(
-    FDF,
-    phiArr,
-    fwhmRMSF,
-    adjoint_sens,
-    adjoint_noise,
-    dFDF=None,
-    lamSqArr_m2=None,
-    lam0Sq=None,
-    snrDoBiasCorrect=5.0,
-):
-    """
-    Measure standard parameters from a complex Faraday Dispersion Function.
-    Currently this function assumes that the noise levels in the Stokes Q
-    and U spectra are the same.
-    Returns a dictionary containing measured parameters.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-    """
-
-    # Determine the peak channel in the FDF, its amplitude and index
-    absFDF = np.abs(FDF)
-    rm_fdf = (
-        absFDF / adjoint_noise
-    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
-    amp_fdf = (
-        absFDF / adjoint_sens
-    )  # RM spectrum normalized by (RM-dependent) sensitivity
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
-
-    # new theoretical dFDF correction for adjoint method
-    # This is noise in the adjoint-spectrum.
-    dFDF = adjoint_noise[indxPeakPIchan]
-
-    # This is the error in the amplitude (accounting for re-normalization)
-    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
-
-    # Measure the RMS noise in the spectrum after masking the peak
-    # changed all absFDF to rm_fdf
-    # Since this is normalized by theoretical noise, it's effectively testing
-    # the noise relative to the theoretical noise.
-    dPhi = np.nanmin(np.diff(phiArr))
-    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
-    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
-    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
-    absFDFmsked = rm_fdf.copy()
-    absFDFmsked[iL:iR] = np.nan
-    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
-    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
-        dFDFcorMAD = MAD(rm_fdf)
-    else:
-        dFDFcorMAD = MAD(absFDFmsked)
-
-    # The noise is re-normalized by the predicted noise at the peak RM.
-    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
-
-    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
-    varLamSqArr_m2 = (
-        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
-    ) / (nChansGood - 1)
-
-    # Determine the peak in the FDF, its amplitude and Phi using a
-    # 3-point parabolic interpolation
-    phiPeakPIfit = None
-    dPhiPeakPIfit = None
-    ampPeakPIfit = None
-    snrPIfit = None
-    ampPeakPIfitEff = None
-    indxPeakPIfit = None
-    peakFDFimagFit = None
-    peakFDFrealFit = None
-    polAngleFit_deg = None
-    dPolAngleFit_deg = None
-    polAngle0Fit_deg = None
-    dPolAngle0Fit_deg = None
-
-    # Only do the 3-point fit if peak is 1-channel from either edge
-    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
-        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
-            phiArr[indxPeakPIchan - 1],
-            amp_fdf[indxPeakPIchan - 1],
-            phiArr[indxPeakPIchan],
-            amp_fdf[indxPeakPIchan],
-            phiArr[indxPeakPIchan + 1],
-            amp_fdf[indxPeakPIchan + 1],
-        )
-
-        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
-
-        # Error on fitted Faraday depth (RM) is same as channel
-        # but using fitted PI
-        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
-
-        # Correct the peak for polarisation bias (POSSUM report 11)
-        ampPeakPIfitEff = ampPeakPIfit
-        if snrPIfit >= snrDoBiasCorrect:
-            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
-
-        # Calculate the polarisation angle from the fitted peak
-        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
-        indxPeakPIfit = np.interp(
-            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
-        )
-        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
-        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
-        polAngleFit_deg = (
-            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
-        )
-        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
-
-        # Calculate the derotated polarisation angle and uncertainty
-        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
-        polAngle0Fit_deg = (
-            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
-        ) % 180
-        dPolAngle0Fit_rad = np.sqrt(
-            nChansGood
-            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
-            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
-        )
-        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
-
-    # Store the measurements in a dictionary and return
-    mDict = {
-        "dFDFcorMAD": toscalar(dFDFcorMAD),
-        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
-        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
-        "ampPeakPIfit": toscalar(ampPeakPIfit),
-        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
-        "dAmpPeakPIfit": toscalar(dampPeakPI),
-        "snrPIfit": toscalar(snrPIfit),
-        "indxPeakPIfit": toscalar(indxPeakPIfit),
-        "peakFDFimagFit": toscalar(peakFDFimagFit),
-        "peakFDFrealFit": toscalar(peakFDFrealFit),
-        "polAngleFit_deg": toscalar(polAngleFit_deg),
-        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
-        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
-        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
-    }
-
-    return mDict
-
-
-# -----------------------------------------------------------------------------#
-def do_adjoint_rmsynth_planes(
-    freqArr_Hz,
-    dataQ,
-    dataU,
-    phiArr_radm2,
-    widths_Hz=None,
-    weightArr=None,
-    lam0Sq_m2=None,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
-    of the routine loops through spectral planes and is faster than the pixel-
-    by-pixel code. This version also correctly deals with isolated clumps of
-    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
-    but possible in single-dish cubes). Input data must be in standard python
-    [z,y,x] order, where z is the frequency axis in ascending order.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-    Parameters
-    ----------
-    dataQ           ... 1, 2 or 3D Stokes Q data array
-    dataU           ... 1, 2 or 3D Stokes U data array
-    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
-    nBits           ... precision of data arrays [32]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-    Returns
-    -------
-    FDFcube: array
-             Faraday Dispersion Function (FDF)
-
-    lam0Sq_m2: array
-               lam0Sq_m2 is the weighted mean of lambda^2 distribution
-               (B&dB Eqn. 32)
-
-    adjoint_vars: list
-                  information to generate theoretical noise, sensitivity
-                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
-                                  weightArr]
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Sanity check on array sizes
-    if not weightArr.shape == lambdaSqArr_m2.shape:
-        log("Err: Lambda^2 and weight arrays must be the same shape.")
-        return None, None
-    if not dataQ.shape == dataU.shape:
-        log("Err: Stokes Q and U data arrays must be the same shape.")
-        return None, None
-    nDims = len(dataQ.shape)
-    if not nDims <= 3:
-        log("Err: data dimensions must be <= 3.")
-        return None, None
-    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
-        log(
-            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
-                dataQ.shape[0], lambdaSqArr_m2.shape[0]
-            ),
-            end=" ",
-        )
-        log("     Check that data is in [z, y, x] order.")
-        return None, None
-
-    # Reshape the data arrays to 3 dimensions
-    if nDims == 1:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
-    elif nDims == 2:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
-
-    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
-    # Array has dimensions [nFreq, nY, nX]
-    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
-
-    # Check for NaNs (flagged data) in the cube & set to zero
-    mskCube = np.isnan(pCube)
-    pCube = np.nan_to_num(pCube)
-
-    # If full planes are flagged then set corresponding weights to zero
-    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
-    mskPlanes = np.where(mskPlanes == 0, 0, 1)
-    weightArr *= mskPlanes
-
-    # Initialise the complex Faraday Dispersion Function cube
-    nX = dataQ.shape[-1]
-    nY = dataQ.shape[-2]
-    nPhi = phiArr_radm2.shape[0]
-    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
-
-    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
-    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
-    K = 1.0 / np.sum(weightArr)
-    if lam0Sq_m2 is None:
-        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
-
-    # The K value used to scale each FDF spectrum must take into account
-    # flagged voxels data in the datacube and can be position dependent
-    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
-    with np.errstate(divide="ignore", invalid="ignore"):
-        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
-        KArr[KArr == np.inf] = 0
-        KArr = np.nan_to_num(KArr)
-
-    # Do the RM-synthesis on each plane
-    if verbose:
-        log("Running RM-synthesis by channel.")
-        progress(40, 0)
-
-    # calculate channel widths if necessary
-    if widths_Hz == None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-    for i in range(nPhi):
-        if verbose:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
-            :, np.newaxis, np.newaxis
-        ]
-        arg0 = pCube * cor * np.conj(r_i)
-        arg = arg0
-        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
-
-    # information to generate theoretical noise, sensitivity
-    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    # Remove redundant dimensions in the FDF array
-    FDFcube = np.squeeze(FDFcube)
-    return FDFcube, lam0Sq_m2, adjoint_vars
-
-
-# -----------------------------------------------------------------------------#
-def run_adjoint_rmsynth(
-    data,
-    polyOrd=3,
-    phiMax_radm2=None,
-    dPhi_radm2=None,
-    nSamples=10.0,
-    weightType="variance",
-    fitRMSF=True,
-    noStokesI=False,
-    phiNoise_radm2=1e6,
-    nBits=64,
-    showPlots=False,
-    debug=False,
-    verbose=False,
-    log=print,
-    units="Jy/beam",
-):
-    """Run bwdepol RM synthesis on 1D data.
-
-    Args:
-        data (list): Contains frequency and polarization data as either:
-            [freq_Hz, I, Q, U, dI, dQ, dU]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                I (array_like): Stokes I intensity in each channel.
-                Q (array_like): Stokes Q intensity in each channel.
-                U (array_like): Stokes U intensity in each channel.
-                dI (array_like): Error in Stokes I intensity in each channel.
-                dQ (array_like): Error in Stokes Q intensity in each channel.
-                dU (array_like): Error in Stokes U intensity in each channel.
-            or
-            [freq_Hz, q, u,  dq, du]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
-                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
-                dq (array_like): Error in fractional Stokes Q intensity in each channel.
-                du (array_like): Error in fractional Stokes U intensity in each channel.
-
-    Kwargs:
-        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
-        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
-        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
-        nSamples (float): Number of samples across the RMSF.
-        weightType (str): Can be "variance" or "uniform"
-            "variance" -- Weight by uncertainty in Q and U.
-            "uniform" -- Weight uniformly (i.e. with 1s)
-        fitRMSF (bool): Fit a Gaussian to the RMSF?
-        noStokesI (bool: Is Stokes I data provided?
-        phiNoise_radm2 (float): ????
-        nBits (int): Precision of floating point numbers.
-        showPlots (bool): Show plots?
-        debug (bool): Turn on debugging messages & plots?
-        verbose (bool): Verbosity.
-        log (function): Which logging function to use.
-        units (str): Units of data.
-
-    Returns:
-        mDict (dict): Summary of RM synthesis results.
-        aDict (dict): Data output by RM synthesis.
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    #    dtComplex = "complex" + str(2*nBits)
-
-    # freq_Hz, I, Q, U, dI, dQ, dU
-    if data.shape[0] == 7:
-        if verbose:
-            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
-        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-        widths_Hz = None
-    elif data.shape[0] == 8:
-        if verbose:
-            log(
-                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-    elif data.shape[0] == 6:
-        if verbose:
-            log(
-                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
-    elif data.shape[0] == 5:
-        if verbose:
-            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
-        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
-        widths_Hz = None
-        noStokesI = True
-    else:
-        log("Failed to read in data, aborting.")
-        if debug:
-            log(traceback.format_exc())
-        sys.exit()
-    if verbose:
-        log("Successfully read in the Stokes spectra.")
-
-    # If no Stokes I present, create a dummy spectrum = unity
-    if noStokesI:
-        if verbose:
-            log("Warn: no Stokes I data in use.")
-        IArr = np.ones_like(QArr)
-        dIArr = np.zeros_like(QArr)
-
-    # Convert to GHz for convenience
-    freqArr_GHz = freqArr_Hz / 1e9
-    dQUArr = (dQArr + dUArr) / 2.0
-
-    # Fit the Stokes I spectrum and create the fractional spectra
-    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_GHz,
-        IArr=IArr,
-        QArr=QArr,
-        UArr=UArr,
-        dIArr=dIArr,
-        dQArr=dQArr,
-        dUArr=dUArr,
-        polyOrd=polyOrd,
-        verbose=True,
-        debug=debug,
-    )
-
-    # Plot the data and the Stokes I model fit
-    if showPlots:
-        if verbose:
-            log("Plotting the input data and spectral index fit.")
-        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
-        specFig = plt.figure(figsize=(12.0, 8))
-        plot_Ipqu_spectra_fig(
-            freqArr_Hz=freqArr_Hz,
-            IArr=IArr,
-            qArr=qArr,
-            uArr=uArr,
-            dIArr=dIArr,
-            dqArr=dqArr,
-            duArr=duArr,
-            freqHirArr_Hz=freqHirArr_Hz,
-            IModArr=IModHirArr,
-            fig=specFig,
-            units=units,
-        )
-
-        # DEBUG (plot the Q, U and average RMS spectrum)
-        if debug:
-            rmsFig = plt.figure(figsize=(12.0, 8))
-            ax = rmsFig.add_subplot(111)
-            ax.plot(
-                freqArr_Hz / 1e9,
-                dQUArr,
-                marker="o",
-                color="k",
-                lw=0.5,
-                label="rms <QU>",
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
-            )
-            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
-            ax.set_xlim(
-                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
-                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
-            )
-            ax.set_xlabel(r"$\nu$ (GHz)")
-            ax.set_ylabel("RMS " + units)
-            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
-
-    # Calculate some wavelength parameters
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
-    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
-    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
-
-    # Set the Faraday depth range
-    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
-    if dPhi_radm2 is None:
-        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
-    if phiMax_radm2 is None:
-        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
-        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
-
-    # Faraday depth sampling. Zero always centred on middle channel
-    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
-    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
-    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
-    if verbose:
-        log(
-            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
-            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
-        )
-
-    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
-    if weightType == "variance":
-        weightArr = 1.0 / np.power(dQUArr, 2.0)
-    else:
-        weightType = "uniform"
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    if verbose:
-        log("Weight type is '%s'." % weightType)
-
-    startTime = time.time()
-
-    # Perform adjoint RM-synthesis on the spectrum
-    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        dataQ=qArr,
-        dataU=uArr,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-    )
-
-    # generate adjoint_noise and adjoint__sens
-    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
-    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
-
-    # calculate peak RM
-    absFDF = np.abs(dirtyFDF)
-    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
-    peak_rm = phiArr_radm2[indxPeakPIchan]
-
-    # Calculate the Rotation Measure Spread Function
-    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
-        lam0Sq_m2=lam0Sq_m2,
-        double=True,
-        fitRMSF=fitRMSF,
-        fitRMSFreal=False,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-        peak_rm=peak_rm,
-    )
-    fwhmRMSF = float(fwhmRMSFArr)
-    endTime = time.time()
-    cputime = endTime - startTime
-    if verbose:
-        log("> RM-synthesis completed in %.2f seconds." % cputime)
-
-    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
-    # Multiply the dirty FDF by Ifreq0 to recover the PI
-    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
-    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
-
-    # Calculate the theoretical noise in the FDF !!
-    # Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-    dFDFth = np.sqrt(
-        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
-    )
-
-    # Measure the parameters of the dirty FDF
-    # Use the theoretical noise to calculate uncertainties
-
-    mDict = bwdepol_measure_FDF_parms(
-        FDF=dirtyFDF,
-        phiArr=phiArr_radm2,
-        fwhmRMSF=fwhmRMSF,
-        adjoint_sens=adjoint_sens,
-        adjoint_noise=adjoint_noise,
-        dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
-        lam0Sq=lam0Sq_m2,
-    )
-
-    mDict["Ifreq0"] = toscalar(Ifreq0)
-    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
-    mDict["IfitStat"] = fit_result.fitStatus
-    mDict["IfitChiSqRed"] = fit_result.chiSqRed
-    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
-    mDict["freq0_Hz"] = toscalar(freq0_Hz)
-    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
-    mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
-    mDict["units"] = units
-
-    if fit_result.fitStatus >= 128:
-        log("WARNING: Stokes I model contains negative values!")
-    elif fit_result.fitStatus >= 64:
-        log("Caution: Stokes I model has low signal-to-noise.")
-
-    # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
-    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
-    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
-    mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
-        mDict["median_channel_width"] = float(np.median(widths_Hz))
-    else:
-        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-
-    # Measure the complexity of the q and u spectra
-    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
-    mD, pD = measure_qu_complexity(
-        freqArr_Hz=freqArr_Hz,
-        qArr=qArr,
-        uArr=uArr,
-        dqArr=dqArr,
-        duArr=duArr,
-        fracPol=mDict["fracPol"],
-        psi0_deg=mDict["polAngle0Fit_deg"],
-        RM_radm2=mDict["phiPeakPIfit_rm2"],
-    )
-    mDict.update(mD)
-
-    # Debugging plots for spectral complexity measure
-    if debug:
-        tmpFig = plot_complexity_fig(
-            xArr=pD["xArrQ"],
-            qArr=pD["yArrQ"],
-            dqArr=pD["dyArrQ"],
-            sigmaAddqArr=pD["sigmaAddArrQ"],
-            chiSqRedqArr=pD["chiSqRedArrQ"],
-            probqArr=pD["probArrQ"],
-            uArr=pD["yArrU"],
-            duArr=pD["dyArrU"],
-            sigmaAdduArr=pD["sigmaAddArrU"],
-            chiSqReduArr=pD["chiSqRedArrU"],
-            probuArr=pD["probArrU"],
-            mDict=mDict,
-        )
-        tmpFig.show()
-
-    # add array dictionary
-    aDict = dict()
-    aDict["phiArr_radm2"] = phiArr_radm2
-    aDict["phi2Arr_radm2"] = phi2Arr_radm2
-    aDict["RMSFArr"] = RMSFArr
-    aDict["freqArr_Hz"] = freqArr_Hz
-    aDict["weightArr"] = weightArr
-    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
-
-    if verbose:
-        # Print the results to the screen
-        log()
-        log("-" * 80)
-        log("RESULTS:\n")
-        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
-
-        log(
-            "Pol Angle = %.4g (+/-%.4g) deg"
-            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
-        )
-        log(
-            "Pol Angle 0 = %.4g (+/-%.4g) deg"
-            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
-        )
-        log(
-            "Peak FD = %.4g (+/-%.4g) rad/m^2"
-            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
-        )
-        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
-        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
-        log(
-            "Peak PI = %.4g (+/-%.4g) %s"
-            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
-        )
-        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
-        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
-        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
-        log(
-            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
-            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
-        )
-        log()
-        log("-" * 80)
-
-    # Plot the RM Spread Function and dirty FDF
-    if showPlots:
-        plot_adjoint_info(adjoint_info, units=units)
-        fdfFig = plt.figure(figsize=(12.0, 8))
-        bwdepol_plot_rmsf_fdf_fig(
-            phiArr=phiArr_radm2,
-            FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
-            RMSFArr=RMSFArr,
-            peak_rm=peak_rm,
-            fwhmRMSF=fwhmRMSF,
-            vLine=mDict["phiPeakPIfit_rm2"],
-            fig=fdfFig,
-            units=units,
-        )
-
-    if showPlots or debug:
-        plt.show()
-
-    return mDict, aDict
-
-
-# -----------------------------------------------------------------------------#
-def main():
-    """
-    Start the function to perform bwdepol RM-synthesis if called from the command line.
-    """
-
-    # Help string to be shown using the -h option
-    descStr = """
-    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
-    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
-
-    Behaves similarly to rmsynth1d except that the input file can optionally
-    contain a column with the channel widths in Hz. If this column is not
-    given, the channel widths will be assumed to be uniform and calculated
-    based on the difference between the frequencies of the first two channels.
-
-    The ASCII file requires one of the following column configurations,
-    depending on whether Stokes I and channel width information are available,
-    in a space separated format:
-    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, Q, U, Q_err, U_err]
-    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
-
-
-    To get outputs, one or more of the following flags must be set: -S, -p, -v.
-    """
-
-    epilog_text = """
-    Outputs with -S flag:
-    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
-    _RMSF.dat: Computed RMSF [Phi, Q, U]
-    _RMsynth.dat: list of derived parameters for RM spectrum
-                (approximately equivalent to -v flag output)
-    _RMsynth.json: dictionary of derived parameters for RM spectrum
-    _weight.dat: Calculated channel weights [freq_Hz, weight]
-    """
-
-    # Parse the command line options
-    parser = argparse.ArgumentParser(
-        description=descStr,
-        epilog=epilog_text,
-        formatter_class=argparse.RawTextHelpFormatter,
-    )
-    parser.add_argument(
-        "dataFile",
-        metavar="dataFile.dat",
-        nargs=1,
-        help="ASCII file containing Stokes spectra & errors.",
-    )
-    parser.add_argument(
-        "-t",
-        dest="fitRMSF",
-        action="store_false",
-        help="fit a Gaussian to the RMSF [True; set flag to disable]",
-    )
-    parser.add_argument(
-        "-l",
-        dest="phiMax_radm2",
-        type=float,
-        default=None,
-        help="absolute max Faraday depth sampled [Auto].",
-    )
-    parser.add_argument(
-        "-d",
-        dest="dPhi_radm2",
-        type=float,
-        default=None,
-        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
-    )
-    parser.add_argument(
-        "-s",
-        dest="nSamples",
-        type=float,
-        default=10,
-        help="number of samples across the RMSF lobe [10].",
-    )
-    parser.add_argument(
-        "-w",
-        dest="weightType",
-        default="variance",
-        help="weighting [inverse variance] or 'uniform' (all 1s).",
-    )
-    parser.add_argument(
-        "-o",
-        dest="polyOrd",
-        type=int,
-        default=2,
-        help="polynomial order to fit to I spectrum [2].",
-    )
-    parser.add_argument(
-        "-i",
-        dest="noStokesI",
-        action="store_true",
-        help="ignore the Stokes I spectrum [False].",
-    )
-    parser.add_argument(
-        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
-    )
-    parser.add_argument(
-        "-v", dest="verbose", action="store_true", help="verbose output [False]."
-    )
-    parser.add_argument(
-        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
-    )
-    parser.add_argument(
-        "-D",
-        dest="debug",
-        action="store_true",
-        help="turn on debugging messages & plots [False].",
-    )
-    parser.add_argument(
-        "-U",
-        dest="units",
-        type=str,
-        default="Jy/beam",
-        help="Intensity units of the data. [Jy/beam]",
-    )
-    args = parser.parse_args()
-
-    # Sanity checks
-    if not os.path.exists(args.dataFile[0]):
-        print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit()
-    prefixOut, ext = os.path.splitext(args.dataFile[0])
-    dataDir, dummy = os.path.split(args.dataFile[0])
-    # Set the floating point precision
-    nBits = 64
-
-    # Read in the data. Don't parse until inside the first function.
-    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
-
-    # Run (modified) RM-synthesis on the spectra
-    mDict, aDict = run_adjoint_rmsynth(
-        data=data,
-        polyOrd=args.polyOrd,
-        phiMax_radm2=args.phiMax_radm2,
-        dPhi_radm2=args.dPhi_radm2,
-        nSamples=args.nSamples,
-        weightType=args.weightType,
-        fitRMSF=args.fitRMSF,
-        noStokesI=args.noStokesI,
-        nBits=nBits,
-        showPlots=args.showPlots,
-        debug=args.debug,
-        verbose=args.verbose,
-        units=args.units,
-    )
-
-    if args.saveOutput:
-        saveOutput(mDict, aDict, prefixOut, args.verbose)
-
-
-# -----------------------------------------------------------------------------#
-if __name__ == "__main__":
-    main()
+#!/usr/bin/env python
+# =============================================================================#
+#                                                                             #
+# NAME:     rmtools_bwdepol.py                                                #
+#                                                                             #
+# PURPOSE: Algorithm for finding polarized sources while accounting for       #
+#          bandwidth depolarization.                                          #
+#                                                                             #
+# =============================================================================#
+#                                                                             #
+# The MIT License (MIT)                                                       #
+#                                                                             #
+# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
+# Permission is hereby granted, free of charge, to any person obtaining a     #
+# copy of this software and associated documentation files (the "Software"),  #
+# to deal in the Software without restriction, including without limitation   #
+# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
+# and/or sell copies of the Software, and to permit persons to whom the       #
+# Software is furnished to do so, subject to the following conditions:        #
+#                                                                             #
+# The above copyright notice and this permission notice shall be included in  #
+# all copies or substantial portions of the Software.                         #
+#                                                                             #
+# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
+# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
+# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
+# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
+# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
+# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
+# DEALINGS IN THE SOFTWARE.                                                   #
+#                                                                             #
+# =============================================================================#
+
+import argparse
+import math as m
+import os
+import sys
+import time
+import traceback
+
+import matplotlib.pyplot as plt
+import numpy as np
+import scipy as sp
+from astropy.constants import c as speed_of_light
+from matplotlib.ticker import MaxNLocator
+
+from RMtools_1D.do_RMsynth_1D import saveOutput
+from RMutils.util_misc import (
+    MAD,
+    create_frac_spectra,
+    nanmedian,
+    poly5,
+    progress,
+    toscalar,
+)
+from RMutils.util_plotTk import (
+    plot_complexity_fig,
+    plot_dirtyFDF_ax,
+    plot_Ipqu_spectra_fig,
+)
+from RMutils.util_RM import (
+    calc_parabola_vertex,
+    extrap,
+    fit_rmsf,
+    measure_qu_complexity,
+)
+
+if sys.version_info.major == 2:
+    print("RM-tools will no longer run with Python 2! Please use Python 3.")
+    exit()
+
+
+# -----------------------------------------------------------------------------#
+def rotation_integral_limit(freq, phi):
+    """Calculates the analytic solution to the channel polarization integral
+    at one limit frequency.
+
+    Parameters
+    ----------
+    freq: float
+          frequency in Hz
+
+    phi: float
+          Faraday depth (rad/m^2)
+
+    Returns
+    -------
+    intergral_lim: complex
+                   intergral limit
+
+    """
+    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
+    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
+    funct3 = -1.0j + np.sign(phi)
+    funct4 = sp.special.erf(
+        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
+    )
+
+    intergral_lim = funct1 + (funct2 * funct3 * funct4)
+
+    return intergral_lim
+
+
+def rotation_operator(channel_width, channel_center, phi):
+    """Rotation operator for channel with top-hat-in-frequency sensitivity.
+    Computes the net effect on a polarization vector for a channel of given
+    center frequnecy and bandwidth, for a given RM.
+
+    Parameters
+    ----------
+    channel_width: float
+                   channel bandwidth in Hz
+
+    channel_center: float
+                    channel frequency in Hz
+
+    phi: float
+         channel frequency in hz
+
+    Returns
+    -------
+    (complex) rotation operator for that channel
+
+    """
+    b = channel_center + 0.5 * channel_width
+    a = channel_center - 0.5 * channel_width
+
+    int_a = rotation_integral_limit(a, phi)
+    int_b = rotation_integral_limit(b, phi)
+
+    return (1 / channel_width) * (int_b - int_a)
+
+
+def estimate_channel_bandwidth(freq_array):
+    """Estimates the bandwidth per channel given the spacing between channel
+    centers. Only looks at the first 2 channels.
+
+    Parameters
+    ----------
+    freq_array: array-like
+                array of channel centers
+
+    Returns
+    -------
+    ban: float
+         seperation between first two channel centers
+
+    """
+    ban = freq_array[1] - freq_array[0]
+    return ban
+
+
+def l2_to_freq_array(lambda_square_array):
+    """returns the freqency array, corresponding to a lambda square array"""
+
+    f = speed_of_light.value**2 / lambda_square_array
+    return np.sqrt(f)
+
+
+def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
+    """Calculates the theoretical sensitivity and noise for the adjoint method
+
+    Parameters
+    ----------
+    adjoint_vars: list
+                  list like object containing organized as
+                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    dQUArr: array like
+            array containing the error in Stokes Q, and U
+
+    show_progress: Boolean
+                   If set to True, shows progress, Default is False
+
+    log: function
+         logging function, default is print
+
+    Returns
+    -------
+    adjoint_info: list
+                  list containing phiArr, and the theoretical noise and
+                  sensitivity organized as
+                  [phiArr_radm2, adjoint_sens, adjoint_noise]
+
+    """
+
+    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
+    adjoint_noise = np.ones(len(phiArr_radm2))
+    adjoint_sens = np.ones(len(phiArr_radm2))
+
+    nPhi = len(phiArr_radm2)
+    if show_progress:
+        log("Calculating Theoretical Sensitivity & Noise")
+        progress(40, 0)
+    for i in range(nPhi):
+        if show_progress:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
+        adjoint_noise2 = (
+            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            / np.sum(weightArr) ** 2
+        )  # equation 34
+        adjoint_noise[i] = np.sqrt(adjoint_noise2)
+
+        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
+
+    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
+    return adjoint_info
+
+
+def plot_adjoint_info(mylist, units="Jy/beam"):
+    """plots theoretical noise, sensitivity"""
+    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
+    fig.subplots_adjust(wspace=0.4, hspace=0.4)
+
+    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
+
+    ax[1].plot(
+        phiArr_radm2,
+        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
+    )
+    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[1].set_ylabel("S:N multiplier")
+    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
+    # plot 2
+    ax[0].plot(
+        phiArr_radm2,
+        adjoint_sens,
+    )
+    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[0].set_ylabel("Sensitivity")
+    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
+    return
+
+
+# -----------------------------------------------------------------------------#
+
+
+def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
+    """Calculates the average analytic solution to the channel polarization
+    integral per channel
+
+    Based on equation 13 of Schnitzeler & Lee (2015)
+
+    Parameters
+    ----------
+    f: float
+       channel center frequency in Hz
+
+    ban: float
+         channel bandwidth in Hz
+
+    phi: float
+         Faraday depth value in rad/m^2
+
+    xi_knot: float
+             inital polarization angle in radians
+
+    p: float
+       polarzied intensity
+
+    Returns
+    -------
+    avg_p_tilda: complex
+                 the average complex polarization, for the bandwidth,
+                 real is Q, imaginary is U
+
+    """
+    a = f - (ban / 2)
+    b = f + (ban / 2)  # integral start and stop values
+
+    ya = rotation_integral_limit(
+        a,
+        phi,
+    )
+    yb = rotation_integral_limit(
+        b,
+        phi,
+    )  # check orig for xi_knot
+
+    i = p * (yb - ya)
+    avg_p_tilda = i / ban
+
+    return avg_p_tilda
+
+
+def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
+    """Farday thin simulated source of the same RM as the measured source,
+    with unit intensity
+
+    Parameters
+    ----------
+    peak_rm: float
+             peak in Faraday depth value (in rad/m^2) for sim
+
+    freqArr_hz: array like
+                frequency array (in Hz)
+
+    width_Hz: float
+              channel width in Hz
+
+    Returns
+    -------
+    data:
+         Dirty FDF for the simulated data formated as a list of arrays
+         [freq_Hz, q, u,  dq, du]
+
+    """
+    if widths_Hz is None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+
+    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
+    size_f = len(freqArr_Hz)
+    dq = np.ones(size_f)
+    du = np.ones(size_f)
+
+    # format  = [freq_Hz, q, u,  dq, du]
+    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
+    return data
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_tweakAxFormat(
+    ax,
+    pad=10,
+    loc="upper right",
+    linewidth=1,
+    ncol=1,
+    bbox_to_anchor=(1.00, 1.00),
+    showLeg=True,
+):
+    """Tweaks some default plotting parameters for the RMSF, returns ax"""
+    # Axis/tic formatting
+    ax.tick_params(pad=pad)
+    for line in ax.get_xticklines() + ax.get_yticklines():
+        line.set_markeredgewidth(linewidth)
+
+    # Legend formatting
+    if showLeg:
+        leg = ax.legend(
+            numpoints=1,
+            loc=loc,
+            shadow=False,
+            borderaxespad=0.3,
+            ncol=ncol,
+            bbox_to_anchor=bbox_to_anchor,
+        )
+        for t in leg.get_texts():
+            t.set_fontsize("small")
+        leg.get_frame().set_linewidth(0.5)
+        leg.get_frame().set_alpha(0.5)
+
+    return ax
+
+
+def gauss(p, peak_rm):
+    """Return a fucntion to evaluate a Gaussian with parameters
+    off set by peak_rm
+
+    Parameters
+    ----------
+    p: list
+       parameters for Gaussian, p = [ampplitude, mean, FWHM]
+
+    peak_rm: float
+             peak in Faraday depth (in rad/m^2), used to center Gaussian
+
+    Returns
+    -------
+    rfun: fuction
+          Gaussian with specified parameters, off set my peak_rm
+
+    """
+
+    a, b, w = p
+    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
+    s = w / gfactor
+
+    def rfunc(x):
+        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
+        return y
+
+    return rfunc
+
+
+def bwdepol_plot_RMSF_ax(
+    ax,
+    phiArr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    axisYright=False,
+    axisXtop=False,
+    doTitle=False,
+):
+    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
+
+    # Set the axis positions
+    if axisYright:
+        ax.yaxis.tick_right()
+        ax.yaxis.set_label_position("right")
+    if axisXtop:
+        ax.xaxis.tick_top()
+        ax.xaxis.set_label_position("top")
+
+    # Plot the RMSF
+    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
+    ax.step(
+        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
+    )
+    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
+    ax.axhline(0, color="grey")
+    if doTitle:
+        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
+
+    # Plot the Gaussian fit
+    if fwhmRMSF is not None:
+        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
+        ax.plot(
+            phiArr,
+            yGauss,
+            color="g",
+            marker="None",
+            mfc="w",
+            mec="g",
+            ms=10,
+            label="Gaussian",
+            lw=2.0,
+            ls="--",
+        )
+
+    # Scaling
+    ax.yaxis.set_major_locator(MaxNLocator(4))
+    ax.xaxis.set_major_locator(MaxNLocator(4))
+    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
+    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
+    ax.set_ylabel("Normalised Units")
+    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
+    ax.axhline(0, color="grey")
+
+    # Format tweaks
+    ax = bwdepol_tweakAxFormat(ax)
+    ax.autoscale_view(True, True, True)
+
+
+def bwdepol_plot_rmsf_fdf_fig(
+    phiArr,
+    FDF,
+    phi2Arr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    gaussParm=[],
+    vLine=None,
+    fig=None,
+    units="flux units",
+):
+    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
+
+    # Default to a pyplot figure
+    if fig == None:
+        fig = plt.figure(figsize=(12.0, 8))
+    # Plot the RMSF
+    ax1 = fig.add_subplot(211)
+    bwdepol_plot_RMSF_ax(
+        ax=ax1,
+        phiArr=phi2Arr,
+        RMSFArr=RMSFArr,
+        peak_rm=peak_rm,
+        fwhmRMSF=fwhmRMSF,
+        doTitle=True,
+    )
+    [label.set_visible(False) for label in ax1.get_xticklabels()]
+    ax1.set_xlabel("")
+
+    ax2 = fig.add_subplot(212, sharex=ax1)
+    plot_dirtyFDF_ax(
+        ax=ax2,
+        phiArr=phiArr,
+        FDFArr=FDF,
+        gaussParm=gaussParm,
+        vLine=vLine,
+        doTitle=True,
+        units=units,
+    )
+    return fig
+
+
+# -----------------------------------------------------------------------------#
+# modified for adjoint
+def bwdepol_get_rmsf_planes(
+    freqArr_Hz,
+    widths_Hz,
+    phiArr_radm2,
+    peak_rm,
+    weightArr=None,
+    mskArr=None,
+    lam0Sq_m2=None,
+    double=True,
+    fitRMSF=True,
+    fitRMSFreal=False,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Calculate the Rotation Measure Spread Function from inputs. This version
+    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+    boolean mask array, where flagged data are True and unflagged data False.
+    If only whole planes (wavelength channels) are flagged then the RMSF is the
+    same for all pixels and the calculation is done once and replicated to the
+    dimensions of the mask. If some isolated voxels are flagged then the RMSF
+    is calculated by looping through each wavelength plane, which can take some
+    time. By default the routine returns the analytical width of the RMSF main
+    lobe but can also use MPFIT to fit a Gaussian.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+
+    Parameters
+    ----------
+    freqArr_Hz      ... vector of frequency values
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is no weighting
+    maskArr         ... cube of mask values used to shape return cube [None]
+    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
+    double          ... pad the Faraday depth to double-size [True]
+    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
+    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
+    nBits           ... precision of data arrays [64]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+
+    Returns
+    -------
+    RMSFcube: array
+              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+              boolean mask array
+
+    phi2Arr: array
+             array of the Faraday Depth (in rad/m^2)
+
+    fwhmRMSFArr: array
+                 fwhm of the RMSF
+
+    statArr: array
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
+    if double:
+        nPhi = phiArr_radm2.shape[0]
+        nExt = np.ceil(nPhi / 2.0)
+        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
+        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
+    else:
+        phi2Arr = phiArr_radm2
+
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Set the mask array (default to 1D, no masked channels)
+    if mskArr is None:
+        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
+        nDims = 1
+    else:
+        mskArr = mskArr.astype("bool")
+        nDims = len(mskArr.shape)
+
+    # Sanity checks on array sizes
+    if not weightArr.shape == freqArr_Hz.shape:
+        log("Err: wavelength^2 and weight arrays must be the same shape.")
+        return None, None, None, None
+    if not nDims <= 3:
+        log("Err: mask dimensions must be <= 3.")
+        return None, None, None, None
+    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
+        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
+        (mskArr.shape[0], freqArr_Hz.shape[-1])
+        log("     Check that the mask is in [z, y, x] order.")
+        return None, None, None, None
+
+    # Reshape the mask array to 3 dimensions
+    if nDims == 1:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
+    elif nDims == 2:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
+
+    # Initialise the complex RM Spread Function cube
+    nX = mskArr.shape[-1]
+    nY = mskArr.shape[-2]
+    nPix = nX * nY
+    nPhi = phi2Arr.shape[0]
+    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
+
+    # If full planes are flagged then set corresponding weights to zero
+    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
+    mskPlanes = np.where(xySum == nPix, 0, 1)
+    weightArr *= mskPlanes
+
+    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
+    flagTotals = np.unique(xySum).tolist()
+    try:
+        flagTotals.remove(0)
+    except Exception:
+        pass
+    try:
+        flagTotals.remove(nPix)
+    except Exception:
+        pass
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Calculate the analytical FWHM width of the main lobe
+    fwhmRMSF = (
+        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
+    )
+
+    # Create simulated data set with simRM = peakRM
+    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
+    # RMSFArr = fdf from bwdepol_simulation
+    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
+        freqArr_Hz,
+        RMSF_data[1],
+        RMSF_data[2],
+        phiArr_radm2,
+        widths_Hz=widths_Hz,
+        weightArr=weightArr,
+        lam0Sq_m2=lam0Sq_m2,
+        verbose=verbose,
+        log=print,
+    )
+
+    # Fit the RMSF main lobe
+    fitStatus = -1
+    if fitRMSF:
+        if verbose:
+            log("Fitting Gaussian to the main lobe.")
+        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
+        if mp is None or mp.status < 1:
+            pass
+            log("Err: failed to fit the RMSF.")
+            log("     Defaulting to analytical value.")
+        else:
+            fwhmRMSF = mp.params[2]
+            fitStatus = mp.status
+
+    # Replicate along X and Y axes
+    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
+    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
+    statArr = np.ones((nY, nX), dtype="int") * fitStatus
+
+    # Remove redundant dimensions
+    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
+    statArr = np.squeeze(statArr)
+    RMSFcube = RMSFcube.reshape(-1)
+
+    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_measure_FDF_parms(
+    FDF,
+    phiArr,
+    fwhmRMSF,
+    adjoint_sens,
+    adjoint_noise,
+    dFDF=None,
+    lamSqArr_m2=None,
+    lam0Sq=None,
+    snrDoBiasCorrect=5.0,
+):
+    """
+    Measure standard parameters from a complex Faraday Dispersion Function.
+    Currently this function assumes that the noise levels in the Stokes Q
+    and U spectra are the same.
+    Returns a dictionary containing measured parameters.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+    """
+
+    # Determine the peak channel in the FDF, its amplitude and index
+    absFDF = np.abs(FDF)
+    rm_fdf = (
+        absFDF / adjoint_noise
+    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
+    amp_fdf = (
+        absFDF / adjoint_sens
+    )  # RM spectrum normalized by (RM-dependent) sensitivity
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
+
+    # new theoretical dFDF correction for adjoint method
+    # This is noise in the adjoint-spectrum.
+    dFDF = adjoint_noise[indxPeakPIchan]
+
+    # This is the error in the amplitude (accounting for re-normalization)
+    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
+
+    # Measure the RMS noise in the spectrum after masking the peak
+    # changed all absFDF to rm_fdf
+    # Since this is normalized by theoretical noise, it's effectively testing
+    # the noise relative to the theoretical noise.
+    dPhi = np.nanmin(np.diff(phiArr))
+    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
+    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
+    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
+    absFDFmsked = rm_fdf.copy()
+    absFDFmsked[iL:iR] = np.nan
+    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
+    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
+        dFDFcorMAD = MAD(rm_fdf)
+    else:
+        dFDFcorMAD = MAD(absFDFmsked)
+
+    # The noise is re-normalized by the predicted noise at the peak RM.
+    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
+
+    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
+    varLamSqArr_m2 = (
+        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
+    ) / (nChansGood - 1)
+
+    # Determine the peak in the FDF, its amplitude and Phi using a
+    # 3-point parabolic interpolation
+    phiPeakPIfit = None
+    dPhiPeakPIfit = None
+    ampPeakPIfit = None
+    snrPIfit = None
+    ampPeakPIfitEff = None
+    indxPeakPIfit = None
+    peakFDFimagFit = None
+    peakFDFrealFit = None
+    polAngleFit_deg = None
+    dPolAngleFit_deg = None
+    polAngle0Fit_deg = None
+    dPolAngle0Fit_deg = None
+
+    # Only do the 3-point fit if peak is 1-channel from either edge
+    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
+        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
+            phiArr[indxPeakPIchan - 1],
+            amp_fdf[indxPeakPIchan - 1],
+            phiArr[indxPeakPIchan],
+            amp_fdf[indxPeakPIchan],
+            phiArr[indxPeakPIchan + 1],
+            amp_fdf[indxPeakPIchan + 1],
+        )
+
+        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
+
+        # Error on fitted Faraday depth (RM) is same as channel
+        # but using fitted PI
+        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
+
+        # Correct the peak for polarisation bias (POSSUM report 11)
+        ampPeakPIfitEff = ampPeakPIfit
+        if snrPIfit >= snrDoBiasCorrect:
+            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
+
+        # Calculate the polarisation angle from the fitted peak
+        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
+        indxPeakPIfit = np.interp(
+            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
+        )
+        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
+        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
+        polAngleFit_deg = (
+            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
+        )
+        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
+
+        # Calculate the derotated polarisation angle and uncertainty
+        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
+        polAngle0Fit_deg = (
+            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
+        ) % 180
+        dPolAngle0Fit_rad = np.sqrt(
+            nChansGood
+            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
+            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
+        )
+        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
+
+    # Store the measurements in a dictionary and return
+    mDict = {
+        "dFDFcorMAD": toscalar(dFDFcorMAD),
+        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
+        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
+        "ampPeakPIfit": toscalar(ampPeakPIfit),
+        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
+        "dAmpPeakPIfit": toscalar(dampPeakPI),
+        "snrPIfit": toscalar(snrPIfit),
+        "indxPeakPIfit": toscalar(indxPeakPIfit),
+        "peakFDFimagFit": toscalar(peakFDFimagFit),
+        "peakFDFrealFit": toscalar(peakFDFrealFit),
+        "polAngleFit_deg": toscalar(polAngleFit_deg),
+        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
+        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
+        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
+    }
+
+    return mDict
+
+
+# -----------------------------------------------------------------------------#
+def do_adjoint_rmsynth_planes(
+    freqArr_Hz,
+    dataQ,
+    dataU,
+    phiArr_radm2,
+    widths_Hz=None,
+    weightArr=None,
+    lam0Sq_m2=None,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
+    of the routine loops through spectral planes and is faster than the pixel-
+    by-pixel code. This version also correctly deals with isolated clumps of
+    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
+    but possible in single-dish cubes). Input data must be in standard python
+    [z,y,x] order, where z is the frequency axis in ascending order.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+    Parameters
+    ----------
+    dataQ           ... 1, 2 or 3D Stokes Q data array
+    dataU           ... 1, 2 or 3D Stokes U data array
+    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
+    nBits           ... precision of data arrays [32]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+    Returns
+    -------
+    FDFcube: array
+             Faraday Dispersion Function (FDF)
+
+    lam0Sq_m2: array
+               lam0Sq_m2 is the weighted mean of lambda^2 distribution
+               (B&dB Eqn. 32)
+
+    adjoint_vars: list
+                  information to generate theoretical noise, sensitivity
+                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
+                                  weightArr]
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Sanity check on array sizes
+    if not weightArr.shape == lambdaSqArr_m2.shape:
+        log("Err: Lambda^2 and weight arrays must be the same shape.")
+        return None, None
+    if not dataQ.shape == dataU.shape:
+        log("Err: Stokes Q and U data arrays must be the same shape.")
+        return None, None
+    nDims = len(dataQ.shape)
+    if not nDims <= 3:
+        log("Err: data dimensions must be <= 3.")
+        return None, None
+    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
+        log(
+            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
+                dataQ.shape[0], lambdaSqArr_m2.shape[0]
+            ),
+            end=" ",
+        )
+        log("     Check that data is in [z, y, x] order.")
+        return None, None
+
+    # Reshape the data arrays to 3 dimensions
+    if nDims == 1:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
+    elif nDims == 2:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
+
+    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
+    # Array has dimensions [nFreq, nY, nX]
+    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
+
+    # Check for NaNs (flagged data) in the cube & set to zero
+    mskCube = np.isnan(pCube)
+    pCube = np.nan_to_num(pCube)
+
+    # If full planes are flagged then set corresponding weights to zero
+    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
+    mskPlanes = np.where(mskPlanes == 0, 0, 1)
+    weightArr *= mskPlanes
+
+    # Initialise the complex Faraday Dispersion Function cube
+    nX = dataQ.shape[-1]
+    nY = dataQ.shape[-2]
+    nPhi = phiArr_radm2.shape[0]
+    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
+
+    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
+    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
+    K = 1.0 / np.sum(weightArr)
+    if lam0Sq_m2 is None:
+        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
+
+    # The K value used to scale each FDF spectrum must take into account
+    # flagged voxels data in the datacube and can be position dependent
+    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
+    with np.errstate(divide="ignore", invalid="ignore"):
+        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
+        KArr[KArr == np.inf] = 0
+        KArr = np.nan_to_num(KArr)
+
+    # Do the RM-synthesis on each plane
+    if verbose:
+        log("Running RM-synthesis by channel.")
+        progress(40, 0)
+
+    # calculate channel widths if necessary
+    if widths_Hz is None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+    for i in range(nPhi):
+        if verbose:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
+            :, np.newaxis, np.newaxis
+        ]
+        arg0 = pCube * cor * np.conj(r_i)
+        arg = arg0
+        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
+
+    # information to generate theoretical noise, sensitivity
+    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    # Remove redundant dimensions in the FDF array
+    FDFcube = np.squeeze(FDFcube)
+    return FDFcube, lam0Sq_m2, adjoint_vars
+
+
+# -----------------------------------------------------------------------------#
+def run_adjoint_rmsynth(
+    data,
+    polyOrd=3,
+    phiMax_radm2=None,
+    dPhi_radm2=None,
+    nSamples=10.0,
+    weightType="variance",
+    fitRMSF=True,
+    noStokesI=False,
+    phiNoise_radm2=1e6,
+    nBits=64,
+    showPlots=False,
+    debug=False,
+    verbose=False,
+    log=print,
+    units="Jy/beam",
+):
+    """Run bwdepol RM synthesis on 1D data.
+
+    Args:
+        data (list): Contains frequency and polarization data as either:
+            [freq_Hz, I, Q, U, dI, dQ, dU]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                I (array_like): Stokes I intensity in each channel.
+                Q (array_like): Stokes Q intensity in each channel.
+                U (array_like): Stokes U intensity in each channel.
+                dI (array_like): Error in Stokes I intensity in each channel.
+                dQ (array_like): Error in Stokes Q intensity in each channel.
+                dU (array_like): Error in Stokes U intensity in each channel.
+            or
+            [freq_Hz, q, u,  dq, du]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
+                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
+                dq (array_like): Error in fractional Stokes Q intensity in each channel.
+                du (array_like): Error in fractional Stokes U intensity in each channel.
+
+    Kwargs:
+        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
+        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
+        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
+        nSamples (float): Number of samples across the RMSF.
+        weightType (str): Can be "variance" or "uniform"
+            "variance" -- Weight by uncertainty in Q and U.
+            "uniform" -- Weight uniformly (i.e. with 1s)
+        fitRMSF (bool): Fit a Gaussian to the RMSF?
+        noStokesI (bool: Is Stokes I data provided?
+        phiNoise_radm2 (float): ????
+        nBits (int): Precision of floating point numbers.
+        showPlots (bool): Show plots?
+        debug (bool): Turn on debugging messages & plots?
+        verbose (bool): Verbosity.
+        log (function): Which logging function to use.
+        units (str): Units of data.
+
+    Returns:
+        mDict (dict): Summary of RM synthesis results.
+        aDict (dict): Data output by RM synthesis.
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    #    dtComplex = "complex" + str(2*nBits)
+
+    # freq_Hz, I, Q, U, dI, dQ, dU
+    if len(data) == 7:
+        if verbose:
+            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
+        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+        widths_Hz = None
+    elif len(data) == 8:
+        if verbose:
+            log(
+                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+    elif len(data) == 6:
+        if verbose:
+            log(
+                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
+    elif len(data) == 5:
+        if verbose:
+            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
+        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
+        widths_Hz = None
+        noStokesI = True
+    else:
+        log("Failed to read in data, aborting.")
+        if debug:
+            log(traceback.format_exc())
+        sys.exit()
+    if verbose:
+        log("Successfully read in the Stokes spectra.")
+
+    # If no Stokes I present, create a dummy spectrum = unity
+    if noStokesI:
+        if verbose:
+            log("Warn: no Stokes I data in use.")
+        IArr = np.ones_like(QArr)
+        dIArr = np.zeros_like(QArr)
+
+    # Convert to GHz for convenience
+    freqArr_GHz = freqArr_Hz / 1e9
+    dQUArr = (dQArr + dUArr) / 2.0
+
+    # Fit the Stokes I spectrum and create the fractional spectra
+    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
+        freqArr=freqArr_GHz,
+        IArr=IArr,
+        QArr=QArr,
+        UArr=UArr,
+        dIArr=dIArr,
+        dQArr=dQArr,
+        dUArr=dUArr,
+        polyOrd=polyOrd,
+        verbose=True,
+        debug=debug,
+    )
+
+    # Plot the data and the Stokes I model fit
+    if showPlots:
+        if verbose:
+            log("Plotting the input data and spectral index fit.")
+        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
+        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        specFig = plt.figure(figsize=(12.0, 8))
+        plot_Ipqu_spectra_fig(
+            freqArr_Hz=freqArr_Hz,
+            IArr=IArr,
+            qArr=qArr,
+            uArr=uArr,
+            dIArr=dIArr,
+            dqArr=dqArr,
+            duArr=duArr,
+            freqHirArr_Hz=freqHirArr_Hz,
+            IModArr=IModHirArr,
+            fig=specFig,
+            units=units,
+        )
+
+        # DEBUG (plot the Q, U and average RMS spectrum)
+        if debug:
+            rmsFig = plt.figure(figsize=(12.0, 8))
+            ax = rmsFig.add_subplot(111)
+            ax.plot(
+                freqArr_Hz / 1e9,
+                dQUArr,
+                marker="o",
+                color="k",
+                lw=0.5,
+                label="rms <QU>",
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
+            )
+            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
+            ax.set_xlim(
+                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
+                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
+            )
+            ax.set_xlabel(r"$\nu$ (GHz)")
+            ax.set_ylabel("RMS " + units)
+            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
+
+    # Calculate some wavelength parameters
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
+    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
+    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+
+    # Set the Faraday depth range
+    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
+    if dPhi_radm2 is None:
+        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
+    if phiMax_radm2 is None:
+        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
+        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
+
+    # Faraday depth sampling. Zero always centred on middle channel
+    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
+    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
+    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
+    if verbose:
+        log(
+            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
+            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
+        )
+
+    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
+    if weightType == "variance":
+        weightArr = 1.0 / np.power(dQUArr, 2.0)
+    else:
+        weightType = "uniform"
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    if verbose:
+        log("Weight type is '%s'." % weightType)
+
+    startTime = time.time()
+
+    # Perform adjoint RM-synthesis on the spectrum
+    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        dataQ=qArr,
+        dataU=uArr,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+    )
+
+    # generate adjoint_noise and adjoint__sens
+    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
+    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
+
+    # calculate peak RM
+    absFDF = np.abs(dirtyFDF)
+    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
+    peak_rm = phiArr_radm2[indxPeakPIchan]
+
+    # Calculate the Rotation Measure Spread Function
+    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        mskArr=~np.isfinite(qArr),
+        lam0Sq_m2=lam0Sq_m2,
+        double=True,
+        fitRMSF=fitRMSF,
+        fitRMSFreal=False,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+        peak_rm=peak_rm,
+    )
+    fwhmRMSF = float(fwhmRMSFArr)
+    endTime = time.time()
+    cputime = endTime - startTime
+    if verbose:
+        log("> RM-synthesis completed in %.2f seconds." % cputime)
+
+    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
+    # Multiply the dirty FDF by Ifreq0 to recover the PI
+    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
+    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
+
+    # Calculate the theoretical noise in the FDF !!
+    # Old formula only works for wariance weights!
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    dFDFth = np.sqrt(
+        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
+    )
+
+    # Measure the parameters of the dirty FDF
+    # Use the theoretical noise to calculate uncertainties
+
+    mDict = bwdepol_measure_FDF_parms(
+        FDF=dirtyFDF,
+        phiArr=phiArr_radm2,
+        fwhmRMSF=fwhmRMSF,
+        adjoint_sens=adjoint_sens,
+        adjoint_noise=adjoint_noise,
+        dFDF=dFDFth,
+        lamSqArr_m2=lambdaSqArr_m2,
+        lam0Sq=lam0Sq_m2,
+    )
+
+    mDict["Ifreq0"] = toscalar(Ifreq0)
+    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
+    mDict["IfitStat"] = fit_result.fitStatus
+    mDict["IfitChiSqRed"] = fit_result.chiSqRed
+    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
+    mDict["freq0_Hz"] = toscalar(freq0_Hz)
+    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
+    mDict["dQU"] = toscalar(nanmedian(dQUArr))
+    # mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["units"] = units
+
+    if fit_result.fitStatus >= 128:
+        log("WARNING: Stokes I model contains negative values!")
+    elif fit_result.fitStatus >= 64:
+        log("Caution: Stokes I model has low signal-to-noise.")
+
+    # Add information on nature of channels:
+    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
+    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
+    mDict["N_channels"] = good_channels.size
+    if widths_Hz is not None:
+        mDict["median_channel_width"] = float(np.median(widths_Hz))
+    else:
+        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+
+    # Measure the complexity of the q and u spectra
+    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
+    mD, pD = measure_qu_complexity(
+        freqArr_Hz=freqArr_Hz,
+        qArr=qArr,
+        uArr=uArr,
+        dqArr=dqArr,
+        duArr=duArr,
+        fracPol=mDict["fracPol"],
+        psi0_deg=mDict["polAngle0Fit_deg"],
+        RM_radm2=mDict["phiPeakPIfit_rm2"],
+    )
+    mDict.update(mD)
+
+    # Debugging plots for spectral complexity measure
+    if debug:
+        tmpFig = plot_complexity_fig(
+            xArr=pD["xArrQ"],
+            qArr=pD["yArrQ"],
+            dqArr=pD["dyArrQ"],
+            sigmaAddqArr=pD["sigmaAddArrQ"],
+            chiSqRedqArr=pD["chiSqRedArrQ"],
+            probqArr=pD["probArrQ"],
+            uArr=pD["yArrU"],
+            duArr=pD["dyArrU"],
+            sigmaAdduArr=pD["sigmaAddArrU"],
+            chiSqReduArr=pD["chiSqRedArrU"],
+            probuArr=pD["probArrU"],
+            mDict=mDict,
+        )
+        tmpFig.show()
+
+    # add array dictionary
+    aDict = dict()
+    aDict["phiArr_radm2"] = phiArr_radm2
+    aDict["phi2Arr_radm2"] = phi2Arr_radm2
+    aDict["RMSFArr"] = RMSFArr
+    aDict["freqArr_Hz"] = freqArr_Hz
+    aDict["weightArr"] = weightArr
+    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
+
+    if verbose:
+        # Print the results to the screen
+        log()
+        log("-" * 80)
+        log("RESULTS:\n")
+        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
+
+        log(
+            "Pol Angle = %.4g (+/-%.4g) deg"
+            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
+        )
+        log(
+            "Pol Angle 0 = %.4g (+/-%.4g) deg"
+            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
+        )
+        log(
+            "Peak FD = %.4g (+/-%.4g) rad/m^2"
+            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
+        )
+        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
+        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
+        log(
+            "Peak PI = %.4g (+/-%.4g) %s"
+            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
+        )
+        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
+        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
+        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
+        log(
+            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
+            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
+        )
+        log()
+        log("-" * 80)
+
+    # Plot the RM Spread Function and dirty FDF
+    if showPlots:
+        plot_adjoint_info(adjoint_info, units=units)
+        fdfFig = plt.figure(figsize=(12.0, 8))
+        bwdepol_plot_rmsf_fdf_fig(
+            phiArr=phiArr_radm2,
+            FDF=(dirtyFDF / adjoint_sens),
+            phi2Arr=phiArr_radm2,
+            RMSFArr=RMSFArr,
+            peak_rm=peak_rm,
+            fwhmRMSF=fwhmRMSF,
+            vLine=mDict["phiPeakPIfit_rm2"],
+            fig=fdfFig,
+            units=units,
+        )
+
+    if showPlots or debug:
+        plt.show()
+
+    return mDict, aDict
+
+
+# -----------------------------------------------------------------------------#
+def main():
+    """
+    Start the function to perform bwdepol RM-synthesis if called from the command line.
+    """
+
+    # Help string to be shown using the -h option
+    descStr = """
+    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
+    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
+
+    Behaves similarly to rmsynth1d except that the input file can optionally
+    contain a column with the channel widths in Hz. If this column is not
+    given, the channel widths will be assumed to be uniform and calculated
+    based on the difference between the frequencies of the first two channels.
+
+    The ASCII file requires one of the following column configurations,
+    depending on whether Stokes I and channel width information are available,
+    in a space separated format:
+    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, Q, U, Q_err, U_err]
+    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
+
+
+    To get outputs, one or more of the following flags must be set: -S, -p, -v.
+    """
+
+    epilog_text = """
+    Outputs with -S flag:
+    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
+    _RMSF.dat: Computed RMSF [Phi, Q, U]
+    _RMsynth.dat: list of derived parameters for RM spectrum
+                (approximately equivalent to -v flag output)
+    _RMsynth.json: dictionary of derived parameters for RM spectrum
+    _weight.dat: Calculated channel weights [freq_Hz, weight]
+    """
+
+    # Parse the command line options
+    parser = argparse.ArgumentParser(
+        description=descStr,
+        epilog=epilog_text,
+        formatter_class=argparse.RawTextHelpFormatter,
+    )
+    parser.add_argument(
+        "dataFile",
+        metavar="dataFile.dat",
+        nargs=1,
+        help="ASCII file containing Stokes spectra & errors.",
+    )
+    parser.add_argument(
+        "-t",
+        dest="fitRMSF",
+        action="store_false",
+        help="fit a Gaussian to the RMSF [True; set flag to disable]",
+    )
+    parser.add_argument(
+        "-l",
+        dest="phiMax_radm2",
+        type=float,
+        default=None,
+        help="absolute max Faraday depth sampled [Auto].",
+    )
+    parser.add_argument(
+        "-d",
+        dest="dPhi_radm2",
+        type=float,
+        default=None,
+        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
+    )
+    parser.add_argument(
+        "-s",
+        dest="nSamples",
+        type=float,
+        default=10,
+        help="number of samples across the RMSF lobe [10].",
+    )
+    parser.add_argument(
+        "-w",
+        dest="weightType",
+        default="variance",
+        help="weighting [inverse variance] or 'uniform' (all 1s).",
+    )
+    parser.add_argument(
+        "-o",
+        dest="polyOrd",
+        type=int,
+        default=2,
+        help="polynomial order to fit to I spectrum [2].",
+    )
+    parser.add_argument(
+        "-i",
+        dest="noStokesI",
+        action="store_true",
+        help="ignore the Stokes I spectrum [False].",
+    )
+    parser.add_argument(
+        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
+    )
+    parser.add_argument(
+        "-v", dest="verbose", action="store_true", help="verbose output [False]."
+    )
+    parser.add_argument(
+        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
+    )
+    parser.add_argument(
+        "-D",
+        dest="debug",
+        action="store_true",
+        help="turn on debugging messages & plots [False].",
+    )
+    parser.add_argument(
+        "-U",
+        dest="units",
+        type=str,
+        default="Jy/beam",
+        help="Intensity units of the data. [Jy/beam]",
+    )
+    args = parser.parse_args()
+
+    # Sanity checks
+    if not os.path.exists(args.dataFile[0]):
+        print("File does not exist: '%s'." % args.dataFile[0])
+        sys.exit()
+    prefixOut, ext = os.path.splitext(args.dataFile[0])
+    dataDir, dummy = os.path.split(args.dataFile[0])
+    # Set the floating point precision
+    nBits = 64
+
+    # Read in the data. Don't parse until inside the first function.
+    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
+
+    # Run (modified) RM-synthesis on the spectra
+    mDict, aDict = run_adjoint_rmsynth(
+        data=data,
+        polyOrd=args.polyOrd,
+        phiMax_radm2=args.phiMax_radm2,
+        dPhi_radm2=args.dPhi_radm2,
+        nSamples=args.nSamples,
+        weightType=args.weightType,
+        fitRMSF=args.fitRMSF,
+        noStokesI=args.noStokesI,
+        nBits=nBits,
+        showPlots=args.showPlots,
+        debug=args.debug,
+        verbose=args.verbose,
+        units=args.units,
+    )
+
+    if args.saveOutput:
+        saveOutput(mDict, aDict, prefixOut, args.verbose)
+
+
+# -----------------------------------------------------------------------------#
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From c9170fcf4b223ec50813212b381ac56888771f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 40/85] fix: bandwidth-depolarization tool evaluated the Stokes
 I model as if it were linear in frequency

---
 RMtools_1D/rmtools_bwdepol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 03a4d71..eac5372 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -47,9 +47,9 @@ from matplotlib.ticker import MaxNLocator
 from RMtools_1D.do_RMsynth_1D import saveOutput
 from RMutils.util_misc import (
     MAD,
+    calculate_StokesI_model,
     create_frac_spectra,
     nanmedian,
-    poly5,
     progress,
     toscalar,
 )
@@ -1087,7 +1087,7 @@ def run_adjoint_rmsynth(
         if verbose:
             log("Plotting the input data and spectral index fit.")
         freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz / 1e9)
         specFig = plt.figure(figsize=(12.0, 8))
         plot_Ipqu_spectra_fig(
             freqArr_Hz=freqArr_Hz,
@@ -1216,7 +1216,7 @@ def run_adjoint_rmsynth(
     # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
     # Multiply the dirty FDF by Ifreq0 to recover the PI
     freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz / 1e9)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!
-- 
2.43.0


From 2dd87e87f193b2a403cb990f92e0d99984720650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 41/85] fix: bandwidth-depolarization tool failed on flagged
 errors and kept channels flagged only in U

---
 RMtools_1D/rmtools_bwdepol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index eac5372..d772f7d 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -198,7 +198,7 @@ def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
 
         r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
         adjoint_noise2 = (
-            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            np.nansum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
             / np.sum(weightArr) ** 2
         )  # equation 34
         adjoint_noise[i] = np.sqrt(adjoint_noise2)
@@ -1163,6 +1163,9 @@ def run_adjoint_rmsynth(
     else:
         weightType = "uniform"
         weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels without both q and u are flagged: they must not contribute to the
+    # RMSF, the theoretical noise or the channel statistics
+    weightArr = np.where(np.isfinite(qArr) & np.isfinite(uArr), weightArr, 0.0)
     if verbose:
         log("Weight type is '%s'." % weightType)
 
-- 
2.43.0


From da1adf11098cb852ceeaee5a35d587b07802000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 42/85] fix: bandwidth-depolarized RMSF was reported against
 the wrong Faraday depths

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index d772f7d..8a75e7b 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -629,7 +629,7 @@ def bwdepol_get_rmsf_planes(
         freqArr_Hz,
         RMSF_data[1],
         RMSF_data[2],
-        phiArr_radm2,
+        phi2Arr,
         widths_Hz=widths_Hz,
         weightArr=weightArr,
         lam0Sq_m2=lam0Sq_m2,
@@ -1353,7 +1353,7 @@ def run_adjoint_rmsynth(
         bwdepol_plot_rmsf_fdf_fig(
             phiArr=phiArr_radm2,
             FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
+            phi2Arr=phi2Arr_radm2,
             RMSFArr=RMSFArr,
             peak_rm=peak_rm,
             fwhmRMSF=fwhmRMSF,
-- 
2.43.0


From b3f8ff368b25a6af02a4d99b42909c44904295b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 43/85] fix: bandwidth-depolarization tool failed in verbose
 mode

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 8a75e7b..a6f2d5f 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1336,7 +1336,7 @@ def run_adjoint_rmsynth(
             % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
         )
         log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (dFDFth, units))
         log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
         log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
         log(
-- 
2.43.0


From 52ea006fda11727f1576acc259d627502016eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 44/85] fix: negative channel width reported by the
 bandwidth-depolarization tool for descending frequencies

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index a6f2d5f..9455a8f 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1267,7 +1267,7 @@ def run_adjoint_rmsynth(
     if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
-        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+        mDict["median_channel_width"] = float(np.median(np.abs(np.diff(freqArr_Hz))))
 
     # Measure the complexity of the q and u spectra
     mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
-- 
2.43.0


From 573954aa65dad630051d155a262cf548487eeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 45/85] fix: bandwidth-depolarization predictions carried on
 after failing to read the file

---
 RMtools_1D/rmtools_bwpredict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwpredict.py b/RMtools_1D/rmtools_bwpredict.py
index 23dcb79..d10dfff 100644
--- a/RMtools_1D/rmtools_bwpredict.py
+++ b/RMtools_1D/rmtools_bwpredict.py
@@ -191,7 +191,7 @@ def main():
         print(
             "Unable to read file. Please ensure file is readable and contains 1 or 2 columns."
         )
-        exit
+        sys.exit()
 
     adjoint_info = bwdepol_compute_predictions(
         freqArr_Hz=freqArr_Hz,
-- 
2.43.0


From eaf675667d471ae44b9825ffa6347b47cd8a3b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 46/85] fix: flagged channels entered the likelihood of the
 extra scatter

---
 RMutils/util_RM.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index f1ab218..bffeada 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1163,10 +1163,13 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Measure the median and MADFM of the input data if not provided.
     # Used to overplot a normal distribution when debugging.
     if yMed is None:
-        yMed = np.median(yArr)
+        yMed = np.nanmedian(yArr)
     if noise is None:
         noise = MAD(yArr)
 
+    # Flagged data carry no information and must not enter the likelihood
+    dyArr = np.where(np.isfinite(yArr), dyArr, np.nan)
+
     # Sample the PDF of the additional noise term from a limit near zero to
     # a limit of the range of the data, including error bars
     yRng = np.nanmax(yArr + dyArr) - np.nanmin(yArr - dyArr)
@@ -1175,7 +1178,7 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Model deviation from Gaussian as an additional noise term.
     # Loop through the range of i additional noise samples and calculate
     # chi-squared and sum(ln(sigma_total)), used later to calculate likelihood.
-    nData = len(xArr)
+    nData = np.sum(np.isfinite(dyArr))
     chiSqArr = np.zeros_like(sigmaAddArr)
     lnSigmaSumArr = np.zeros_like(sigmaAddArr)
     for i, sigmaAdd in enumerate(sigmaAddArr):
-- 
2.43.0


From 642408c75c7d8d1d1e59583212e769cd46d8910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 47/85] fix: Burn depolarisation of simulated sources did not
 square the Faraday dispersion

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index e4061bd..f070a34 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1200,7 +1200,7 @@ def create_pqu_spectra_burn(
     pArr = fracPolArr * np.ones((nComps, nChans), dtype="f8")
     quArr = pArr * (
         np.exp(2j * (np.radians(psi0Arr_deg) + RMArr_radm2 * lamSqArr_m2))
-        * np.exp(-2.0 * sigmaRMArr_radm2 * np.power(lamArr_m, 4.0))
+        * np.exp(-2.0 * np.power(sigmaRMArr_radm2, 2.0) * np.power(lamArr_m, 4.0))
     )
 
     # Sum along the component axis to create the final spectra
-- 
2.43.0


From 274dfb5631b39e0c18e3a09fb7d4c77d99904f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 48/85] fix: simulated 1D spectra with flagged ranges had blank
 frequencies, which the synthesis tools cannot use

---
 RMtools_1D/mk_test_ascii_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/mk_test_ascii_data.py b/RMtools_1D/mk_test_ascii_data.py
index 1b27719..e702607 100755
--- a/RMtools_1D/mk_test_ascii_data.py
+++ b/RMtools_1D/mk_test_ascii_data.py
@@ -386,7 +386,7 @@ def create_IQU_ascii_data(
         print("> Writing ASCII file '%s' ..." % outFileName, end=" ")
         np.savetxt(
             outFilePath,
-            np.column_stack((freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr)),
+            np.column_stack((freqNoFlgArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr)),
         )
         print("done.")
         successCount += 1
-- 
2.43.0


From 14ec9a76ade24b9f7b2b24ca944245ec7a3d009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 49/85] fix: catalogue columns documented in the wrong order in
 the help of the data simulators

---
 RMtools_1D/mk_test_ascii_data.py | 16 ++++++++--------
 RMtools_3D/mk_test_cube_data.py  | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/RMtools_1D/mk_test_ascii_data.py b/RMtools_1D/mk_test_ascii_data.py
index e702607..05c5aba 100755
--- a/RMtools_1D/mk_test_ascii_data.py
+++ b/RMtools_1D/mk_test_ascii_data.py
@@ -94,13 +94,13 @@ def main():
         # [6]     |  Total flux (mJy)
         # [7]     |  Spectral index
         # Component 1:
-        # [8]     |  Intrinsic polarisation angle (deg)
-        # [9]     |  Fractional polarisation
+        # [8]     |  Fractional polarisation
+        # [9]     |  Intrinsic polarisation angle (deg)
         # [10]    |  Faraday depth (radians m^-2)
         # [11]    |  Farday dispersion (radians m^-2)
         # Component 2:
-        # [12]    |  Intrinsic polarisation angle (deg)
-        # [13]    |  Fractional polarisation
+        # [12]    |  Fractional polarisation
+        # [13]    |  Intrinsic polarisation angle (deg)
         # [14]    |  Faraday depth (radians m^-2)
         # [15]    |  Farday dispersion (radians m^-2)
         # Component 3:
@@ -121,12 +121,12 @@ def main():
         # [6]     |  Total flux (mJy)
         # [7]     |  Spectral index
         # Component 1:
-        # [8]     |  Intrinsic polarisation angle (deg)
-        # [9]     |  Fractional polarisation
+        # [8]     |  Fractional polarisation
+        # [9]     |  Intrinsic polarisation angle (deg)
         # [10]    |  Faraday depth (radians m^-2)
         # Component 2:
-        # [11]    |  Intrinsic polarisation angle (deg)
-        # [12]    |  Fractional polarisation
+        # [11]    |  Fractional polarisation
+        # [12]    |  Intrinsic polarisation angle (deg)
         # [13]    |  Faraday depth (radians m^-2)
         # Component 3:
         # [14]    |  ...
diff --git a/RMtools_3D/mk_test_cube_data.py b/RMtools_3D/mk_test_cube_data.py
index fe3a399..f0f55d8 100644
--- a/RMtools_3D/mk_test_cube_data.py
+++ b/RMtools_3D/mk_test_cube_data.py
@@ -127,13 +127,13 @@ def main():
         # [6]     |  Total flux (mJy)
         # [7]     |  Spectral index
         # Component 1:
-        # [8]     |  Intrinsic polarisation angle (deg)
-        # [9]     |  Fractional polarisation
+        # [8]     |  Fractional polarisation
+        # [9]     |  Intrinsic polarisation angle (deg)
         # [10]    |  Faraday depth (radians m^-2)
         # [11]    |  Farday dispersion (radians m^-2)
         # Component 2:
-        # [12]    |  Intrinsic polarisation angle (deg)
-        # [13]    |  Fractional polarisation
+        # [12]    |  Fractional polarisation
+        # [13]    |  Intrinsic polarisation angle (deg)
         # [14]    |  Faraday depth (radians m^-2)
         # [15]    |  Farday dispersion (radians m^-2)
         # Component 3:
@@ -154,12 +154,12 @@ def main():
         # [6]     |  Total flux (mJy)
         # [7]     |  Spectral index
         # Component 1:
-        # [8]     |  Intrinsic polarisation angle (deg)
-        # [9]     |  Fractional polarisation
+        # [8]     |  Fractional polarisation
+        # [9]     |  Intrinsic polarisation angle (deg)
         # [10]    |  Faraday depth (radians m^-2)
         # Component 2:
-        # [11]    |  Intrinsic polarisation angle (deg)
-        # [12]    |  Fractional polarisation
+        # [11]    |  Fractional polarisation
+        # [12]    |  Intrinsic polarisation angle (deg)
         # [13]    |  Faraday depth (radians m^-2)
         # Component 3:
         # [14]    |  ...
-- 
2.43.0


From f1f90cb12e1ffa063cec10555f12eabeed0c3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:34 +0000
Subject: [PATCH 50/85] fix: internal depolarisation spectra failed on a list
 of angles

---
 RMutils/util_misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f070a34..78f2aa7 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1253,6 +1253,7 @@ def create_pqu_spectra_diff(freqArr_Hz, fracPolArr, psi0Arr_deg, RMArr_radm2):
     # Convert lists to arrays
     freqArr_Hz = np.array(freqArr_Hz, dtype="f8")
     fracPolArr = np.array(fracPolArr, dtype="f8")
+    psi0Arr_deg = np.array(psi0Arr_deg, dtype="f8")
     psi0Arr_rad = np.radians(psi0Arr_deg, dtype="f8")
     RMArr_radm2 = np.array(RMArr_radm2, dtype="f8")
 
-- 
2.43.0


From ac747083b2a92652b6698586a0635e05be5b0b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:34 +0000
Subject: [PATCH 51/85] fix: flagged channels kept a Stokes I value in
 simulated flat-spectrum sources

---
 RMutils/util_misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 78f2aa7..7ef9fe7 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1237,6 +1237,7 @@ def create_IQU_spectra_burn(
 
     # Create the absolute value spectra
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # even if SI is zero
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
@@ -1303,6 +1304,7 @@ def create_IQU_spectra_diff(
 
     # Create the absolute value spectra
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # even if SI is zero
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
@@ -1336,6 +1338,7 @@ def create_IQU_spectra_RMthin(
     if freq0_Hz is None:
         freq0_Hz = freqArr_Hz[0]
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # even if SI is zero
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
-- 
2.43.0


From 2a898272f00042bf023b476642cbfb6174a27a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 52/85] fix: simulated cubes in equatorial coordinates had
 invalid axis types, and no celestial coordinates

---
 RMutils/util_FITS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 64335af..d1d80b6 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -442,8 +442,8 @@ def create_simple_fits_hdu(
         xCoordStr = "GLON-CAR"
         yCoordStr = "GLAT-CAR"
     else:
-        xCoordStr = "RA-SIN"
-        yCoordStr = "DEC-SIN"
+        xCoordStr = "RA---SIN"
+        yCoordStr = "DEC--SIN"
 
     # Create the data array and insert into a new HDU
     dataArr = np.zeros(shape, dtype="f4")
-- 
2.43.0


From 7390a3b66082144df5f45bb681d3501e368a04d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 53/85] fix: least-squares fitter stopped early when every
 parameter moves away from a pegged one

---
 RMutils/mpfit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index da1d4c8..e79d010 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1246,9 +1246,9 @@ class mpfit:
                         # Do not allow any steps out of bounds
                         catch_msg = "checking for a step out of bounds"
                         if nlpeg > 0:
-                            wa1[whlpeg] = numpy.clip(wa1[whlpeg], 0.0, numpy.max(wa1))
+                            wa1[whlpeg] = numpy.maximum(wa1[whlpeg], 0.0)
                         if nupeg > 0:
-                            wa1[whupeg] = numpy.clip(wa1[whupeg], numpy.min(wa1), 0.0)
+                            wa1[whupeg] = numpy.minimum(wa1[whupeg], 0.0)
 
                         dwa1 = numpy.abs(wa1) > machep
                         whl = (
-- 
2.43.0


From 0f43dff4b836b7e8e956c035069f1d2e8bb3d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 54/85] fix: least-squares fitter stopped early when a step to
 a boundary was rounded to just inside it

---
 RMutils/mpfit.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index e79d010..25a1cd0 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1282,12 +1282,10 @@ class mpfit:
 
                     # Adjust the final output values.  If the step put us exactly
                     # on a boundary, make sure it is exact.
-                    sgnu = (ulim >= 0) * 2.0 - 1.0
-                    sgnl = (llim >= 0) * 2.0 - 1.0
-                    # Handles case of
-                    #        ... nonzero *LIM ... ...zero * LIM
-                    ulim1 = ulim * (1 - sgnu * machep) - (ulim == 0) * machep
-                    llim1 = llim * (1 + sgnl * machep) + (llim == 0) * machep
+                    # The rounding error of the step depends on where it started.
+                    limtol = 4 * machep * (numpy.abs(x) + numpy.abs(wa1))
+                    ulim1 = ulim - limtol
+                    llim1 = llim + limtol
                     wh = (numpy.nonzero((qulim != 0) & (wa2 >= ulim1)))[0]
                     if len(wh) > 0:
                         wa2[wh] = ulim[wh]
-- 
2.43.0


From 23804693a98550edb9390fbabe009a044177b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 55/85] fix: least-squares fitter failed on integer or
 single-precision starting values with current numpy

---
 RMutils/mpfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index 25a1cd0..d2d6104 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -928,7 +928,7 @@ class mpfit:
         # In the case if the xall is not float or if is float but has less
         # than 64 bits we do convert it into double
         if xall.dtype.kind != "f" or xall.dtype.itemsize <= 4:
-            xall = xall.astype(numpy.float)
+            xall = xall.astype(float)
 
         npar = len(xall)
         self.fnorm = -1.0
-- 
2.43.0


From 7f8007c07d3c77fc2cd7d30fadff25eb341a1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 56/85] fix: maximum steps of the least-squares fitter were
 applied to the wrong parameters when some are fixed

---
 RMutils/mpfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index d2d6104..fcc06f1 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1267,7 +1267,7 @@ class mpfit:
                     # Obey any max step values.
                     if qminmax:
                         nwa1 = wa1 * alpha
-                        whmax = (numpy.nonzero((qmax != 0.0) & (maxstep > 0)))[0]
+                        whmax = (numpy.nonzero((qmax & (maxstep > 0))[ifree]))[0]
                         if len(whmax) > 0:
                             mrat = numpy.max(
                                 numpy.abs(nwa1[whmax])
-- 
2.43.0


From b41c17757b18f29cef6877067b9216d9230fca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 57/85] fix: least-squares fitter reported the sum of squares
 of a rejected step

---
 RMutils/mpfit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index fcc06f1..e1116d4 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1428,8 +1428,7 @@ class mpfit:
             catch_msg = "in the termination phase"
             self.fnorm = self.enorm(fvec)
 
-        if (self.fnorm is not None) and (fnorm1 is not None):
-            self.fnorm = numpy.max([self.fnorm, fnorm1])
+        if self.fnorm is not None:
             self.fnorm = self.fnorm**2.0
 
         self.covar = None
-- 
2.43.0


From c9589ace6d5a630f1e9e80c40f30d3311655ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 58/85] fix: least-squares fitter returned tied parameters of a
 rejected step

---
 RMutils/mpfit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index e1116d4..bfb1a78 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1422,6 +1422,8 @@ class mpfit:
             self.params = xall.copy()
         else:
             self.params[ifree] = x
+            if self.qanytied:
+                self.params = self.tie(self.params, ptied)
         if (nprint > 0) and (self.status > 0):
             catch_msg = "calling " + str(fcn)
             [status, fvec] = self.call(fcn, self.params, functkw)
-- 
2.43.0


From 12f7630f56485aa283b59431ed5c3c52cdafe96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 59/85] fix: least-squares fitter raised an error when the user
 function stops the fit

---
 RMutils/mpfit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index bfb1a78..3e4dcb4 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1307,7 +1307,9 @@ class mpfit:
                 catch_msg = "calling " + str(fcn)
                 [self.status, wa4] = self.call(fcn, self.params, functkw)
                 if self.status < 0:
-                    self.errmsg = 'WARNING: premature termination by "' + fcn + '"'
+                    self.errmsg = (
+                        'WARNING: premature termination by "' + str(fcn) + '"'
+                    )
                     return
                 fnorm1 = self.enorm(wa4)
 
-- 
2.43.0


From c0bbe33e22d24c164138f5499dd7e8033b2a144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 60/85] fix: RMSF report was wrong for frequencies above 3 GHz
 written as integers, and failed on files mixing integers and decimals

---
 RMtools_1D/calculate_RMSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/calculate_RMSF.py b/RMtools_1D/calculate_RMSF.py
index 486251a..a29da90 100755
--- a/RMtools_1D/calculate_RMSF.py
+++ b/RMtools_1D/calculate_RMSF.py
@@ -105,7 +105,7 @@ def main():
     # Order of priority: frequency file takes precedence over -i flag.
     #                   weight file takes precedence over 2nd column of frequency file.
     if args.freqFile != None:
-        data = np.genfromtxt(args.freqFile, encoding=None, dtype=None)
+        data = np.genfromtxt(args.freqFile, encoding=None)
         if len(data.shape) == 2:
             freq_array = data[:, 0]
             weights_array = data[:, 1]
@@ -122,7 +122,7 @@ def main():
         weights_array = np.ones_like(freq_array)
 
     if args.weightFile != None:
-        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=None)
+        weights_array = np.genfromtxt(args.weightFile, encoding=None)
         if len(weights_array) != len(freq_array):
             raise Exception(
                 "Weights file does not have same number of channels as frequency source"
-- 
2.43.0


From 415b698b718a778974e62694629fc9614d04da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 61/85] fix: clean_model failed on its own command-line
 arguments

---
 RMtools_1D/clean_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 14ab545..dfa0d2a 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -139,11 +139,11 @@ def main():
     args = parser.parse_args()
 
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
-        args.freqfile, args.rmSynthfile, args.CCfile
+        args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
     QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
 
-    save_model(args.outfile, freqArr, Imodel, QUarr)
+    save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From fafd5276165119b26e3eed3eeb273d604e0a2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 62/85] fix: clean_model multiplied flux clean components by
 the Stokes I flux again, and always took the Stokes I model as a log model

---
 RMtools_1D/clean_model.py | 40 +++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index dfa0d2a..18c96f2 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -17,7 +17,15 @@ from RMtools_1D.do_RMsynth_1D import readFile as read_freqFile
 from RMutils.util_misc import FitResult, calculate_StokesI_model
 
 
-def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
+def calculate_QU_model(
+    freqArr,
+    phiArr,
+    CCArr,
+    lambdaSq_0,
+    Iparms=None,
+    freq0_Hz=None,
+    fit_function="log",
+):
     """Compute the predicted Stokes Q and U values for each channel from a
     set of clean components (CCs), with optional accounting for Stokes I model.
     Inputs: freqArr: array of channel frequencies, in Hz
@@ -27,11 +35,12 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
                         which all the polarization angles are referenced.
             Iparms: list of Stokes I polynomial values. If None, all Stokes I
                     values will be set to 1.
+            freq0_Hz: reference frequency of the Stokes I polynomial and of the
+                    clean components. If None, derived from lambdaSq_0.
+            fit_function: type of the Stokes I polynomial ('log' or 'linear').
     Returns:
         model: array of complex values, one per channel, of Stokes Q and U
                 predictions based on the clean component model.
-
-    CURRENTLY ASSUMES THAT STOKES I MODEL IS LOG MODEL. SHOULD BE FIXED!
     """
 
     lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr, 2.0)
@@ -39,7 +48,9 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     a = lambdaSqArr_m2 - lambdaSq_0
     quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
 
-    # TODO: Pass in fit function, which is currently not output by rmsynth1d
+    if freq0_Hz is None:
+        freq0_Hz = speed_of_light.value / np.sqrt(lambdaSq_0)
+
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
         fitStatus=0,
@@ -48,15 +59,16 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
         AIC=0,
         polyOrd=0,
         nIter=0,
-        reference_frequency_Hz=speed_of_light.value / np.sqrt(lambdaSq_0),
+        reference_frequency_Hz=freq0_Hz,
         dof=0,
         pcov=None,
         perror=None,
-        fit_function="log",
+        fit_function=fit_function,
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
-    QUarr = StokesI_model * quarr
+    # The clean components are in flux units at the reference frequency
+    QUarr = quarr * StokesI_model / calculate_StokesI_model(fit_result, freq0_Hz)
 
     return QUarr, StokesI_model
 
@@ -79,6 +91,9 @@ def read_files(freqfile, rmSynthfile, CCfile):
             CCarr: array of (complex) clean components
             Iparms: list of Stokes I model parameters.
             lambdaSq_0: scalar value of lambda^2_0, in m^2.
+            freqArr: array of channel frequencies, in Hz.
+            freq0_Hz: reference frequency of the Stokes I model, in Hz.
+            fit_function: type of the Stokes I model.
     """
 
     phiArr, CCreal, CCimag = np.loadtxt(CCfile, unpack=True, dtype="float")
@@ -92,7 +107,10 @@ def read_files(freqfile, rmSynthfile, CCfile):
     data = read_freqFile(freqfile, 64, verbose=False, debug=False)
     freqArr = data[0]
 
-    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr
+    freq0_Hz = synth_mDict["freq0_Hz"]
+    fit_function = synth_mDict["fit_function"]
+
+    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz, fit_function
 
 
 def main():
@@ -138,10 +156,12 @@ def main():
     )
     args = parser.parse_args()
 
-    phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
+    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz, fit_function = read_files(
         args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
-    QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
+    QUarr, Imodel = calculate_QU_model(
+        freqArr, phiArr, CCArr, lambdaSq_0, Iparms, freq0_Hz, fit_function
+    )
 
     save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
-- 
2.43.0


From e81fec4ecf45d392389ca81446774e9f5225b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 63/85] fix: fits without degrees of freedom left raised a
 division by zero since the sum of squares became a Python number

---
 RMutils/mpfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index 3e4dcb4..4b17a1e 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1433,7 +1433,7 @@ class mpfit:
             self.fnorm = self.enorm(fvec)
 
         if self.fnorm is not None:
-            self.fnorm = self.fnorm**2.0
+            self.fnorm = numpy.float64(self.fnorm) ** 2.0
 
         self.covar = None
         self.perror = None
-- 
2.43.0


From 9959295ccec45f4c50dcb3fd162c2dd4b0c88901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 64/85] fix: main lobe of the RMSF was not fitted on a
 single-precision depth axis

---
 RMutils/util_RM.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index bffeada..24f7a96 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -835,8 +835,9 @@ def fit_rmsf(xData, yData, thresh=0.4, ampThresh=0.4):
         if sum(msk2) < 4:
             msk2 = msk1
         validIndx = np.where(msk2 == 1.0)
-        xData = xData[validIndx]
-        yData = yData[validIndx]
+        # The numerical derivatives vanish on a single-precision axis
+        xData = xData[validIndx].astype("float64")
+        yData = yData[validIndx].astype("float64")
 
         # Estimate starting parameters
         a = 1.0
-- 
2.43.0


From 0c20240ede293c654b76cededbb757af13e48567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 65/85] fix: 3D peak fitting of super-resolution cubes had an
 infinite reference frequency, and blank maps with a Stokes I model

---
 RMtools_3D/RMpeakfit_3D.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d5c627c..ae473ed 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -74,7 +74,10 @@ def pixelwise_peak_fitting(
         map_dict[parameter] = np.zeros(map_size)
 
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
-    freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    if lam0Sq > 0:
+        freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    else:  # super-resolution: same reference frequency as in do_RMsynth_3D
+        freq0_Hz = np.nanmean(freqArr_Hz)
     if stokesIcube is not None:
         # Interpolate linearly between the two planes that bracket freq0_Hz.
         order = np.argsort(freqArr_Hz)
-- 
2.43.0


From b8cecde50e890148bbf94bf790b072c47ec021d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 66/85] fix: 3D peak fitting used a negative theoretical noise
 where Stokes I is negative

---
 RMtools_3D/RMpeakfit_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index ae473ed..dcf9439 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -101,7 +101,7 @@ def pixelwise_peak_fitting(
         else:
             raise Exception("Invalid weight type; must be 'uniform' or 'variance'")
 
-        dFDF = Ifreq0Arr * np.sqrt(
+        dFDF = np.abs(Ifreq0Arr) * np.sqrt(
             np.sum(weightArr**2 * np.nan_to_num(noiseArr) ** 2)
             / (np.sum(weightArr)) ** 2
         )
-- 
2.43.0


From a6cf71c6fea34022d983d7c3b5f3b9badd114c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 67/85] fix: fractional polarisation of 3D peak fitting was not
 corrected for polarisation bias as in 1D

---
 RMtools_3D/RMpeakfit_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index dcf9439..a90faf4 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -133,7 +133,7 @@ def pixelwise_peak_fitting(
             mDict["freq0_Hz"] = freq0_Hz
             mDict["fwhmRMSF"] = fwhmRMSF_pix
             mDict["Ifreq0"] = Ifreq0Arr[xarr[i], yarr[i]]
-            mDict["fracPol"] = mDict["ampPeakPIfit"] / mDict["Ifreq0"]
+            mDict["fracPol"] = mDict["ampPeakPIfitEff"] / mDict["Ifreq0"]
             mDict["min_freq"] = float(np.min(freqArr_Hz))
             mDict["max_freq"] = float(np.max(freqArr_Hz))
             mDict["N_channels"] = lamSqArr_m2.size
-- 
2.43.0


From 06aac59cdf325232371c28597d6d672d035d5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 68/85] fix: a spectrum still rising at its edge was reported
 with a parabola minimum as its peak

---
 RMutils/util_RM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 24f7a96..b74757c 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1060,7 +1060,12 @@ def measure_FDF_parms(
         # In rare cases, a parabola can be fitted to the edge of the spectrum,
         # producing a unreasonably large RM and polarized intensity.
         # In these cases, everything should get NaN'd out.
-        if phiPeakPIfit < np.min(phiArr) or phiPeakPIfit > np.max(phiArr):
+        # Likewise when the parabola has a minimum instead of a maximum.
+        if (
+            phiPeakPIfit < np.min(phiArr)
+            or phiPeakPIfit > np.max(phiArr)
+            or ampPeakPIfit < np.min(absFDF[indxPeakPIchan - 1 : indxPeakPIchan + 2])
+        ):
             phiPeakPIfit = np.nan
             ampPeakPIfit = np.nan
             snrPIfit = np.nan
-- 
2.43.0


From 004d3d4cf1869f4b756a74c138272e5a3ba18a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:58 +0000
Subject: [PATCH 69/85] fix: bwdepol reported negative intensities and depths
 off the axis for a spectrum rising at its edge

---
 RMtools_1D/rmtools_bwdepol.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 9455a8f..5bb4cff 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -752,6 +752,17 @@ def bwdepol_measure_FDF_parms(
             amp_fdf[indxPeakPIchan + 1],
         )
 
+        # In rare cases, a parabola can be fitted to the edge of the spectrum,
+        # producing a unreasonably large RM and polarized intensity, or to a
+        # minimum. In these cases, everything should get NaN'd out.
+        if (
+            phiPeakPIfit < np.min(phiArr)
+            or phiPeakPIfit > np.max(phiArr)
+            or ampPeakPIfit < np.min(amp_fdf[indxPeakPIchan - 1 : indxPeakPIchan + 2])
+        ):
+            phiPeakPIfit = np.nan
+            ampPeakPIfit = np.nan
+
         snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
 
         # Error on fitted Faraday depth (RM) is same as channel
-- 
2.43.0


From a2fe67cfe8bc23b4a4f139a61d456fd3f65d0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 70/85] fix: restore the CRLF line endings of
 rmtools_bwdepol.py, lost in an earlier fix

---
 RMtools_1D/rmtools_bwdepol.py | 3074 ++++++++++++++++-----------------
 1 file changed, 1537 insertions(+), 1537 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 5bb4cff..53e05be 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1,1537 +1,1537 @@
-#!/usr/bin/env python
-# =============================================================================#
-#                                                                             #
-# NAME:     rmtools_bwdepol.py                                                #
-#                                                                             #
-# PURPOSE: Algorithm for finding polarized sources while accounting for       #
-#          bandwidth depolarization.                                          #
-#                                                                             #
-# =============================================================================#
-#                                                                             #
-# The MIT License (MIT)                                                       #
-#                                                                             #
-# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
-# Permission is hereby granted, free of charge, to any person obtaining a     #
-# copy of this software and associated documentation files (the "Software"),  #
-# to deal in the Software without restriction, including without limitation   #
-# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
-# and/or sell copies of the Software, and to permit persons to whom the       #
-# Software is furnished to do so, subject to the following conditions:        #
-#                                                                             #
-# The above copyright notice and this permission notice shall be included in  #
-# all copies or substantial portions of the Software.                         #
-#                                                                             #
-# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
-# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
-# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
-# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
-# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
-# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
-# DEALINGS IN THE SOFTWARE.                                                   #
-#                                                                             #
-# =============================================================================#
-
-import argparse
-import math as m
-import os
-import sys
-import time
-import traceback
-
-import matplotlib.pyplot as plt
-import numpy as np
-import scipy as sp
-from astropy.constants import c as speed_of_light
-from matplotlib.ticker import MaxNLocator
-
-from RMtools_1D.do_RMsynth_1D import saveOutput
-from RMutils.util_misc import (
-    MAD,
-    calculate_StokesI_model,
-    create_frac_spectra,
-    nanmedian,
-    progress,
-    toscalar,
-)
-from RMutils.util_plotTk import (
-    plot_complexity_fig,
-    plot_dirtyFDF_ax,
-    plot_Ipqu_spectra_fig,
-)
-from RMutils.util_RM import (
-    calc_parabola_vertex,
-    extrap,
-    fit_rmsf,
-    measure_qu_complexity,
-)
-
-if sys.version_info.major == 2:
-    print("RM-tools will no longer run with Python 2! Please use Python 3.")
-    exit()
-
-
-# -----------------------------------------------------------------------------#
-def rotation_integral_limit(freq, phi):
-    """Calculates the analytic solution to the channel polarization integral
-    at one limit frequency.
-
-    Parameters
-    ----------
-    freq: float
-          frequency in Hz
-
-    phi: float
-          Faraday depth (rad/m^2)
-
-    Returns
-    -------
-    intergral_lim: complex
-                   intergral limit
-
-    """
-    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
-    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
-    funct3 = -1.0j + np.sign(phi)
-    funct4 = sp.special.erf(
-        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
-    )
-
-    intergral_lim = funct1 + (funct2 * funct3 * funct4)
-
-    return intergral_lim
-
-
-def rotation_operator(channel_width, channel_center, phi):
-    """Rotation operator for channel with top-hat-in-frequency sensitivity.
-    Computes the net effect on a polarization vector for a channel of given
-    center frequnecy and bandwidth, for a given RM.
-
-    Parameters
-    ----------
-    channel_width: float
-                   channel bandwidth in Hz
-
-    channel_center: float
-                    channel frequency in Hz
-
-    phi: float
-         channel frequency in hz
-
-    Returns
-    -------
-    (complex) rotation operator for that channel
-
-    """
-    b = channel_center + 0.5 * channel_width
-    a = channel_center - 0.5 * channel_width
-
-    int_a = rotation_integral_limit(a, phi)
-    int_b = rotation_integral_limit(b, phi)
-
-    return (1 / channel_width) * (int_b - int_a)
-
-
-def estimate_channel_bandwidth(freq_array):
-    """Estimates the bandwidth per channel given the spacing between channel
-    centers. Only looks at the first 2 channels.
-
-    Parameters
-    ----------
-    freq_array: array-like
-                array of channel centers
-
-    Returns
-    -------
-    ban: float
-         seperation between first two channel centers
-
-    """
-    ban = freq_array[1] - freq_array[0]
-    return ban
-
-
-def l2_to_freq_array(lambda_square_array):
-    """returns the freqency array, corresponding to a lambda square array"""
-
-    f = speed_of_light.value**2 / lambda_square_array
-    return np.sqrt(f)
-
-
-def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
-    """Calculates the theoretical sensitivity and noise for the adjoint method
-
-    Parameters
-    ----------
-    adjoint_vars: list
-                  list like object containing organized as
-                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    dQUArr: array like
-            array containing the error in Stokes Q, and U
-
-    show_progress: Boolean
-                   If set to True, shows progress, Default is False
-
-    log: function
-         logging function, default is print
-
-    Returns
-    -------
-    adjoint_info: list
-                  list containing phiArr, and the theoretical noise and
-                  sensitivity organized as
-                  [phiArr_radm2, adjoint_sens, adjoint_noise]
-
-    """
-
-    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
-    adjoint_noise = np.ones(len(phiArr_radm2))
-    adjoint_sens = np.ones(len(phiArr_radm2))
-
-    nPhi = len(phiArr_radm2)
-    if show_progress:
-        log("Calculating Theoretical Sensitivity & Noise")
-        progress(40, 0)
-    for i in range(nPhi):
-        if show_progress:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
-        adjoint_noise2 = (
-            np.nansum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
-            / np.sum(weightArr) ** 2
-        )  # equation 34
-        adjoint_noise[i] = np.sqrt(adjoint_noise2)
-
-        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
-
-    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
-    return adjoint_info
-
-
-def plot_adjoint_info(mylist, units="Jy/beam"):
-    """plots theoretical noise, sensitivity"""
-    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
-    fig.subplots_adjust(wspace=0.4, hspace=0.4)
-
-    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
-
-    ax[1].plot(
-        phiArr_radm2,
-        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
-    )
-    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[1].set_ylabel("S:N multiplier")
-    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
-    # plot 2
-    ax[0].plot(
-        phiArr_radm2,
-        adjoint_sens,
-    )
-    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[0].set_ylabel("Sensitivity")
-    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
-    return
-
-
-# -----------------------------------------------------------------------------#
-
-
-def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
-    """Calculates the average analytic solution to the channel polarization
-    integral per channel
-
-    Based on equation 13 of Schnitzeler & Lee (2015)
-
-    Parameters
-    ----------
-    f: float
-       channel center frequency in Hz
-
-    ban: float
-         channel bandwidth in Hz
-
-    phi: float
-         Faraday depth value in rad/m^2
-
-    xi_knot: float
-             inital polarization angle in radians
-
-    p: float
-       polarzied intensity
-
-    Returns
-    -------
-    avg_p_tilda: complex
-                 the average complex polarization, for the bandwidth,
-                 real is Q, imaginary is U
-
-    """
-    a = f - (ban / 2)
-    b = f + (ban / 2)  # integral start and stop values
-
-    ya = rotation_integral_limit(
-        a,
-        phi,
-    )
-    yb = rotation_integral_limit(
-        b,
-        phi,
-    )  # check orig for xi_knot
-
-    i = p * (yb - ya)
-    avg_p_tilda = i / ban
-
-    return avg_p_tilda
-
-
-def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
-    """Farday thin simulated source of the same RM as the measured source,
-    with unit intensity
-
-    Parameters
-    ----------
-    peak_rm: float
-             peak in Faraday depth value (in rad/m^2) for sim
-
-    freqArr_hz: array like
-                frequency array (in Hz)
-
-    width_Hz: float
-              channel width in Hz
-
-    Returns
-    -------
-    data:
-         Dirty FDF for the simulated data formated as a list of arrays
-         [freq_Hz, q, u,  dq, du]
-
-    """
-    if widths_Hz is None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-
-    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
-    size_f = len(freqArr_Hz)
-    dq = np.ones(size_f)
-    du = np.ones(size_f)
-
-    # format  = [freq_Hz, q, u,  dq, du]
-    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
-    return data
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_tweakAxFormat(
-    ax,
-    pad=10,
-    loc="upper right",
-    linewidth=1,
-    ncol=1,
-    bbox_to_anchor=(1.00, 1.00),
-    showLeg=True,
-):
-    """Tweaks some default plotting parameters for the RMSF, returns ax"""
-    # Axis/tic formatting
-    ax.tick_params(pad=pad)
-    for line in ax.get_xticklines() + ax.get_yticklines():
-        line.set_markeredgewidth(linewidth)
-
-    # Legend formatting
-    if showLeg:
-        leg = ax.legend(
-            numpoints=1,
-            loc=loc,
-            shadow=False,
-            borderaxespad=0.3,
-            ncol=ncol,
-            bbox_to_anchor=bbox_to_anchor,
-        )
-        for t in leg.get_texts():
-            t.set_fontsize("small")
-        leg.get_frame().set_linewidth(0.5)
-        leg.get_frame().set_alpha(0.5)
-
-    return ax
-
-
-def gauss(p, peak_rm):
-    """Return a fucntion to evaluate a Gaussian with parameters
-    off set by peak_rm
-
-    Parameters
-    ----------
-    p: list
-       parameters for Gaussian, p = [ampplitude, mean, FWHM]
-
-    peak_rm: float
-             peak in Faraday depth (in rad/m^2), used to center Gaussian
-
-    Returns
-    -------
-    rfun: fuction
-          Gaussian with specified parameters, off set my peak_rm
-
-    """
-
-    a, b, w = p
-    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
-    s = w / gfactor
-
-    def rfunc(x):
-        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
-        return y
-
-    return rfunc
-
-
-def bwdepol_plot_RMSF_ax(
-    ax,
-    phiArr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    axisYright=False,
-    axisXtop=False,
-    doTitle=False,
-):
-    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
-
-    # Set the axis positions
-    if axisYright:
-        ax.yaxis.tick_right()
-        ax.yaxis.set_label_position("right")
-    if axisXtop:
-        ax.xaxis.tick_top()
-        ax.xaxis.set_label_position("top")
-
-    # Plot the RMSF
-    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
-    ax.step(
-        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
-    )
-    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
-    ax.axhline(0, color="grey")
-    if doTitle:
-        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
-
-    # Plot the Gaussian fit
-    if fwhmRMSF is not None:
-        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
-        ax.plot(
-            phiArr,
-            yGauss,
-            color="g",
-            marker="None",
-            mfc="w",
-            mec="g",
-            ms=10,
-            label="Gaussian",
-            lw=2.0,
-            ls="--",
-        )
-
-    # Scaling
-    ax.yaxis.set_major_locator(MaxNLocator(4))
-    ax.xaxis.set_major_locator(MaxNLocator(4))
-    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
-    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
-    ax.set_ylabel("Normalised Units")
-    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
-    ax.axhline(0, color="grey")
-
-    # Format tweaks
-    ax = bwdepol_tweakAxFormat(ax)
-    ax.autoscale_view(True, True, True)
-
-
-def bwdepol_plot_rmsf_fdf_fig(
-    phiArr,
-    FDF,
-    phi2Arr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    gaussParm=[],
-    vLine=None,
-    fig=None,
-    units="flux units",
-):
-    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
-
-    # Default to a pyplot figure
-    if fig == None:
-        fig = plt.figure(figsize=(12.0, 8))
-    # Plot the RMSF
-    ax1 = fig.add_subplot(211)
-    bwdepol_plot_RMSF_ax(
-        ax=ax1,
-        phiArr=phi2Arr,
-        RMSFArr=RMSFArr,
-        peak_rm=peak_rm,
-        fwhmRMSF=fwhmRMSF,
-        doTitle=True,
-    )
-    [label.set_visible(False) for label in ax1.get_xticklabels()]
-    ax1.set_xlabel("")
-
-    ax2 = fig.add_subplot(212, sharex=ax1)
-    plot_dirtyFDF_ax(
-        ax=ax2,
-        phiArr=phiArr,
-        FDFArr=FDF,
-        gaussParm=gaussParm,
-        vLine=vLine,
-        doTitle=True,
-        units=units,
-    )
-    return fig
-
-
-# -----------------------------------------------------------------------------#
-# modified for adjoint
-def bwdepol_get_rmsf_planes(
-    freqArr_Hz,
-    widths_Hz,
-    phiArr_radm2,
-    peak_rm,
-    weightArr=None,
-    mskArr=None,
-    lam0Sq_m2=None,
-    double=True,
-    fitRMSF=True,
-    fitRMSFreal=False,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Calculate the Rotation Measure Spread Function from inputs. This version
-    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-    boolean mask array, where flagged data are True and unflagged data False.
-    If only whole planes (wavelength channels) are flagged then the RMSF is the
-    same for all pixels and the calculation is done once and replicated to the
-    dimensions of the mask. If some isolated voxels are flagged then the RMSF
-    is calculated by looping through each wavelength plane, which can take some
-    time. By default the routine returns the analytical width of the RMSF main
-    lobe but can also use MPFIT to fit a Gaussian.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-
-    Parameters
-    ----------
-    freqArr_Hz      ... vector of frequency values
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is no weighting
-    maskArr         ... cube of mask values used to shape return cube [None]
-    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
-    double          ... pad the Faraday depth to double-size [True]
-    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
-    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
-    nBits           ... precision of data arrays [64]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-
-    Returns
-    -------
-    RMSFcube: array
-              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-              boolean mask array
-
-    phi2Arr: array
-             array of the Faraday Depth (in rad/m^2)
-
-    fwhmRMSFArr: array
-                 fwhm of the RMSF
-
-    statArr: array
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
-    if double:
-        nPhi = phiArr_radm2.shape[0]
-        nExt = np.ceil(nPhi / 2.0)
-        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
-        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
-    else:
-        phi2Arr = phiArr_radm2
-
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Set the mask array (default to 1D, no masked channels)
-    if mskArr is None:
-        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
-        nDims = 1
-    else:
-        mskArr = mskArr.astype("bool")
-        nDims = len(mskArr.shape)
-
-    # Sanity checks on array sizes
-    if not weightArr.shape == freqArr_Hz.shape:
-        log("Err: wavelength^2 and weight arrays must be the same shape.")
-        return None, None, None, None
-    if not nDims <= 3:
-        log("Err: mask dimensions must be <= 3.")
-        return None, None, None, None
-    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
-        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
-        (mskArr.shape[0], freqArr_Hz.shape[-1])
-        log("     Check that the mask is in [z, y, x] order.")
-        return None, None, None, None
-
-    # Reshape the mask array to 3 dimensions
-    if nDims == 1:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
-    elif nDims == 2:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
-
-    # Initialise the complex RM Spread Function cube
-    nX = mskArr.shape[-1]
-    nY = mskArr.shape[-2]
-    nPix = nX * nY
-    nPhi = phi2Arr.shape[0]
-    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
-
-    # If full planes are flagged then set corresponding weights to zero
-    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
-    mskPlanes = np.where(xySum == nPix, 0, 1)
-    weightArr *= mskPlanes
-
-    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
-    flagTotals = np.unique(xySum).tolist()
-    try:
-        flagTotals.remove(0)
-    except Exception:
-        pass
-    try:
-        flagTotals.remove(nPix)
-    except Exception:
-        pass
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Calculate the analytical FWHM width of the main lobe
-    fwhmRMSF = (
-        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
-    )
-
-    # Create simulated data set with simRM = peakRM
-    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
-    # RMSFArr = fdf from bwdepol_simulation
-    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
-        freqArr_Hz,
-        RMSF_data[1],
-        RMSF_data[2],
-        phi2Arr,
-        widths_Hz=widths_Hz,
-        weightArr=weightArr,
-        lam0Sq_m2=lam0Sq_m2,
-        verbose=verbose,
-        log=print,
-    )
-
-    # Fit the RMSF main lobe
-    fitStatus = -1
-    if fitRMSF:
-        if verbose:
-            log("Fitting Gaussian to the main lobe.")
-        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
-        if mp is None or mp.status < 1:
-            pass
-            log("Err: failed to fit the RMSF.")
-            log("     Defaulting to analytical value.")
-        else:
-            fwhmRMSF = mp.params[2]
-            fitStatus = mp.status
-
-    # Replicate along X and Y axes
-    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
-    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
-    statArr = np.ones((nY, nX), dtype="int") * fitStatus
-
-    # Remove redundant dimensions
-    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
-    statArr = np.squeeze(statArr)
-    RMSFcube = RMSFcube.reshape(-1)
-
-    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_measure_FDF_parms(
-    FDF,
-    phiArr,
-    fwhmRMSF,
-    adjoint_sens,
-    adjoint_noise,
-    dFDF=None,
-    lamSqArr_m2=None,
-    lam0Sq=None,
-    snrDoBiasCorrect=5.0,
-):
-    """
-    Measure standard parameters from a complex Faraday Dispersion Function.
-    Currently this function assumes that the noise levels in the Stokes Q
-    and U spectra are the same.
-    Returns a dictionary containing measured parameters.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-    """
-
-    # Determine the peak channel in the FDF, its amplitude and index
-    absFDF = np.abs(FDF)
-    rm_fdf = (
-        absFDF / adjoint_noise
-    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
-    amp_fdf = (
-        absFDF / adjoint_sens
-    )  # RM spectrum normalized by (RM-dependent) sensitivity
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
-
-    # new theoretical dFDF correction for adjoint method
-    # This is noise in the adjoint-spectrum.
-    dFDF = adjoint_noise[indxPeakPIchan]
-
-    # This is the error in the amplitude (accounting for re-normalization)
-    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
-
-    # Measure the RMS noise in the spectrum after masking the peak
-    # changed all absFDF to rm_fdf
-    # Since this is normalized by theoretical noise, it's effectively testing
-    # the noise relative to the theoretical noise.
-    dPhi = np.nanmin(np.diff(phiArr))
-    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
-    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
-    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
-    absFDFmsked = rm_fdf.copy()
-    absFDFmsked[iL:iR] = np.nan
-    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
-    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
-        dFDFcorMAD = MAD(rm_fdf)
-    else:
-        dFDFcorMAD = MAD(absFDFmsked)
-
-    # The noise is re-normalized by the predicted noise at the peak RM.
-    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
-
-    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
-    varLamSqArr_m2 = (
-        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
-    ) / (nChansGood - 1)
-
-    # Determine the peak in the FDF, its amplitude and Phi using a
-    # 3-point parabolic interpolation
-    phiPeakPIfit = None
-    dPhiPeakPIfit = None
-    ampPeakPIfit = None
-    snrPIfit = None
-    ampPeakPIfitEff = None
-    indxPeakPIfit = None
-    peakFDFimagFit = None
-    peakFDFrealFit = None
-    polAngleFit_deg = None
-    dPolAngleFit_deg = None
-    polAngle0Fit_deg = None
-    dPolAngle0Fit_deg = None
-
-    # Only do the 3-point fit if peak is 1-channel from either edge
-    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
-        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
-            phiArr[indxPeakPIchan - 1],
-            amp_fdf[indxPeakPIchan - 1],
-            phiArr[indxPeakPIchan],
-            amp_fdf[indxPeakPIchan],
-            phiArr[indxPeakPIchan + 1],
-            amp_fdf[indxPeakPIchan + 1],
-        )
-
-        # In rare cases, a parabola can be fitted to the edge of the spectrum,
-        # producing a unreasonably large RM and polarized intensity, or to a
-        # minimum. In these cases, everything should get NaN'd out.
-        if (
-            phiPeakPIfit < np.min(phiArr)
-            or phiPeakPIfit > np.max(phiArr)
-            or ampPeakPIfit < np.min(amp_fdf[indxPeakPIchan - 1 : indxPeakPIchan + 2])
-        ):
-            phiPeakPIfit = np.nan
-            ampPeakPIfit = np.nan
-
-        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
-
-        # Error on fitted Faraday depth (RM) is same as channel
-        # but using fitted PI
-        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
-
-        # Correct the peak for polarisation bias (POSSUM report 11)
-        ampPeakPIfitEff = ampPeakPIfit
-        if snrPIfit >= snrDoBiasCorrect:
-            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
-
-        # Calculate the polarisation angle from the fitted peak
-        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
-        indxPeakPIfit = np.interp(
-            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
-        )
-        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
-        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
-        polAngleFit_deg = (
-            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
-        )
-        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
-
-        # Calculate the derotated polarisation angle and uncertainty
-        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
-        polAngle0Fit_deg = (
-            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
-        ) % 180
-        dPolAngle0Fit_rad = np.sqrt(
-            nChansGood
-            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
-            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
-        )
-        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
-
-    # Store the measurements in a dictionary and return
-    mDict = {
-        "dFDFcorMAD": toscalar(dFDFcorMAD),
-        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
-        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
-        "ampPeakPIfit": toscalar(ampPeakPIfit),
-        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
-        "dAmpPeakPIfit": toscalar(dampPeakPI),
-        "snrPIfit": toscalar(snrPIfit),
-        "indxPeakPIfit": toscalar(indxPeakPIfit),
-        "peakFDFimagFit": toscalar(peakFDFimagFit),
-        "peakFDFrealFit": toscalar(peakFDFrealFit),
-        "polAngleFit_deg": toscalar(polAngleFit_deg),
-        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
-        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
-        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
-    }
-
-    return mDict
-
-
-# -----------------------------------------------------------------------------#
-def do_adjoint_rmsynth_planes(
-    freqArr_Hz,
-    dataQ,
-    dataU,
-    phiArr_radm2,
-    widths_Hz=None,
-    weightArr=None,
-    lam0Sq_m2=None,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
-    of the routine loops through spectral planes and is faster than the pixel-
-    by-pixel code. This version also correctly deals with isolated clumps of
-    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
-    but possible in single-dish cubes). Input data must be in standard python
-    [z,y,x] order, where z is the frequency axis in ascending order.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-    Parameters
-    ----------
-    dataQ           ... 1, 2 or 3D Stokes Q data array
-    dataU           ... 1, 2 or 3D Stokes U data array
-    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
-    nBits           ... precision of data arrays [32]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-    Returns
-    -------
-    FDFcube: array
-             Faraday Dispersion Function (FDF)
-
-    lam0Sq_m2: array
-               lam0Sq_m2 is the weighted mean of lambda^2 distribution
-               (B&dB Eqn. 32)
-
-    adjoint_vars: list
-                  information to generate theoretical noise, sensitivity
-                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
-                                  weightArr]
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Sanity check on array sizes
-    if not weightArr.shape == lambdaSqArr_m2.shape:
-        log("Err: Lambda^2 and weight arrays must be the same shape.")
-        return None, None
-    if not dataQ.shape == dataU.shape:
-        log("Err: Stokes Q and U data arrays must be the same shape.")
-        return None, None
-    nDims = len(dataQ.shape)
-    if not nDims <= 3:
-        log("Err: data dimensions must be <= 3.")
-        return None, None
-    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
-        log(
-            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
-                dataQ.shape[0], lambdaSqArr_m2.shape[0]
-            ),
-            end=" ",
-        )
-        log("     Check that data is in [z, y, x] order.")
-        return None, None
-
-    # Reshape the data arrays to 3 dimensions
-    if nDims == 1:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
-    elif nDims == 2:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
-
-    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
-    # Array has dimensions [nFreq, nY, nX]
-    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
-
-    # Check for NaNs (flagged data) in the cube & set to zero
-    mskCube = np.isnan(pCube)
-    pCube = np.nan_to_num(pCube)
-
-    # If full planes are flagged then set corresponding weights to zero
-    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
-    mskPlanes = np.where(mskPlanes == 0, 0, 1)
-    weightArr *= mskPlanes
-
-    # Initialise the complex Faraday Dispersion Function cube
-    nX = dataQ.shape[-1]
-    nY = dataQ.shape[-2]
-    nPhi = phiArr_radm2.shape[0]
-    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
-
-    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
-    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
-    K = 1.0 / np.sum(weightArr)
-    if lam0Sq_m2 is None:
-        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
-
-    # The K value used to scale each FDF spectrum must take into account
-    # flagged voxels data in the datacube and can be position dependent
-    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
-    with np.errstate(divide="ignore", invalid="ignore"):
-        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
-        KArr[KArr == np.inf] = 0
-        KArr = np.nan_to_num(KArr)
-
-    # Do the RM-synthesis on each plane
-    if verbose:
-        log("Running RM-synthesis by channel.")
-        progress(40, 0)
-
-    # calculate channel widths if necessary
-    if widths_Hz is None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-    for i in range(nPhi):
-        if verbose:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
-            :, np.newaxis, np.newaxis
-        ]
-        arg0 = pCube * cor * np.conj(r_i)
-        arg = arg0
-        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
-
-    # information to generate theoretical noise, sensitivity
-    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    # Remove redundant dimensions in the FDF array
-    FDFcube = np.squeeze(FDFcube)
-    return FDFcube, lam0Sq_m2, adjoint_vars
-
-
-# -----------------------------------------------------------------------------#
-def run_adjoint_rmsynth(
-    data,
-    polyOrd=3,
-    phiMax_radm2=None,
-    dPhi_radm2=None,
-    nSamples=10.0,
-    weightType="variance",
-    fitRMSF=True,
-    noStokesI=False,
-    phiNoise_radm2=1e6,
-    nBits=64,
-    showPlots=False,
-    debug=False,
-    verbose=False,
-    log=print,
-    units="Jy/beam",
-):
-    """Run bwdepol RM synthesis on 1D data.
-
-    Args:
-        data (list): Contains frequency and polarization data as either:
-            [freq_Hz, I, Q, U, dI, dQ, dU]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                I (array_like): Stokes I intensity in each channel.
-                Q (array_like): Stokes Q intensity in each channel.
-                U (array_like): Stokes U intensity in each channel.
-                dI (array_like): Error in Stokes I intensity in each channel.
-                dQ (array_like): Error in Stokes Q intensity in each channel.
-                dU (array_like): Error in Stokes U intensity in each channel.
-            or
-            [freq_Hz, q, u,  dq, du]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
-                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
-                dq (array_like): Error in fractional Stokes Q intensity in each channel.
-                du (array_like): Error in fractional Stokes U intensity in each channel.
-
-    Kwargs:
-        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
-        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
-        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
-        nSamples (float): Number of samples across the RMSF.
-        weightType (str): Can be "variance" or "uniform"
-            "variance" -- Weight by uncertainty in Q and U.
-            "uniform" -- Weight uniformly (i.e. with 1s)
-        fitRMSF (bool): Fit a Gaussian to the RMSF?
-        noStokesI (bool: Is Stokes I data provided?
-        phiNoise_radm2 (float): ????
-        nBits (int): Precision of floating point numbers.
-        showPlots (bool): Show plots?
-        debug (bool): Turn on debugging messages & plots?
-        verbose (bool): Verbosity.
-        log (function): Which logging function to use.
-        units (str): Units of data.
-
-    Returns:
-        mDict (dict): Summary of RM synthesis results.
-        aDict (dict): Data output by RM synthesis.
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    #    dtComplex = "complex" + str(2*nBits)
-
-    # freq_Hz, I, Q, U, dI, dQ, dU
-    if len(data) == 7:
-        if verbose:
-            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
-        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-        widths_Hz = None
-    elif len(data) == 8:
-        if verbose:
-            log(
-                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-    elif len(data) == 6:
-        if verbose:
-            log(
-                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
-        noStokesI = True
-    elif len(data) == 5:
-        if verbose:
-            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
-        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
-        widths_Hz = None
-        noStokesI = True
-    else:
-        log("Failed to read in data, aborting.")
-        if debug:
-            log(traceback.format_exc())
-        sys.exit()
-    if verbose:
-        log("Successfully read in the Stokes spectra.")
-
-    # If no Stokes I present, create a dummy spectrum = unity
-    if noStokesI:
-        if verbose:
-            log("Warn: no Stokes I data in use.")
-        IArr = np.ones_like(QArr)
-        dIArr = np.zeros_like(QArr)
-
-    # Convert to GHz for convenience
-    freqArr_GHz = freqArr_Hz / 1e9
-    dQUArr = (dQArr + dUArr) / 2.0
-
-    # Fit the Stokes I spectrum and create the fractional spectra
-    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_GHz,
-        IArr=IArr,
-        QArr=QArr,
-        UArr=UArr,
-        dIArr=dIArr,
-        dQArr=dQArr,
-        dUArr=dUArr,
-        polyOrd=polyOrd,
-        verbose=True,
-        debug=debug,
-    )
-
-    # Plot the data and the Stokes I model fit
-    if showPlots:
-        if verbose:
-            log("Plotting the input data and spectral index fit.")
-        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz / 1e9)
-        specFig = plt.figure(figsize=(12.0, 8))
-        plot_Ipqu_spectra_fig(
-            freqArr_Hz=freqArr_Hz,
-            IArr=IArr,
-            qArr=qArr,
-            uArr=uArr,
-            dIArr=dIArr,
-            dqArr=dqArr,
-            duArr=duArr,
-            freqHirArr_Hz=freqHirArr_Hz,
-            IModArr=IModHirArr,
-            fig=specFig,
-            units=units,
-        )
-
-        # DEBUG (plot the Q, U and average RMS spectrum)
-        if debug:
-            rmsFig = plt.figure(figsize=(12.0, 8))
-            ax = rmsFig.add_subplot(111)
-            ax.plot(
-                freqArr_Hz / 1e9,
-                dQUArr,
-                marker="o",
-                color="k",
-                lw=0.5,
-                label="rms <QU>",
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
-            )
-            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
-            ax.set_xlim(
-                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
-                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
-            )
-            ax.set_xlabel(r"$\nu$ (GHz)")
-            ax.set_ylabel("RMS " + units)
-            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
-
-    # Calculate some wavelength parameters
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
-    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
-    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
-
-    # Set the Faraday depth range
-    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
-    if dPhi_radm2 is None:
-        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
-    if phiMax_radm2 is None:
-        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
-        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
-
-    # Faraday depth sampling. Zero always centred on middle channel
-    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
-    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
-    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
-    if verbose:
-        log(
-            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
-            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
-        )
-
-    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
-    if weightType == "variance":
-        weightArr = 1.0 / np.power(dQUArr, 2.0)
-    else:
-        weightType = "uniform"
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    # Channels without both q and u are flagged: they must not contribute to the
-    # RMSF, the theoretical noise or the channel statistics
-    weightArr = np.where(np.isfinite(qArr) & np.isfinite(uArr), weightArr, 0.0)
-    if verbose:
-        log("Weight type is '%s'." % weightType)
-
-    startTime = time.time()
-
-    # Perform adjoint RM-synthesis on the spectrum
-    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        dataQ=qArr,
-        dataU=uArr,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-    )
-
-    # generate adjoint_noise and adjoint__sens
-    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
-    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
-
-    # calculate peak RM
-    absFDF = np.abs(dirtyFDF)
-    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
-    peak_rm = phiArr_radm2[indxPeakPIchan]
-
-    # Calculate the Rotation Measure Spread Function
-    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
-        lam0Sq_m2=lam0Sq_m2,
-        double=True,
-        fitRMSF=fitRMSF,
-        fitRMSFreal=False,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-        peak_rm=peak_rm,
-    )
-    fwhmRMSF = float(fwhmRMSFArr)
-    endTime = time.time()
-    cputime = endTime - startTime
-    if verbose:
-        log("> RM-synthesis completed in %.2f seconds." % cputime)
-
-    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
-    # Multiply the dirty FDF by Ifreq0 to recover the PI
-    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz / 1e9)
-    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
-
-    # Calculate the theoretical noise in the FDF !!
-    # Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-    dFDFth = np.sqrt(
-        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
-    )
-
-    # Measure the parameters of the dirty FDF
-    # Use the theoretical noise to calculate uncertainties
-
-    mDict = bwdepol_measure_FDF_parms(
-        FDF=dirtyFDF,
-        phiArr=phiArr_radm2,
-        fwhmRMSF=fwhmRMSF,
-        adjoint_sens=adjoint_sens,
-        adjoint_noise=adjoint_noise,
-        dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
-        lam0Sq=lam0Sq_m2,
-    )
-
-    mDict["Ifreq0"] = toscalar(Ifreq0)
-    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
-    mDict["IfitStat"] = fit_result.fitStatus
-    mDict["IfitChiSqRed"] = fit_result.chiSqRed
-    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
-    mDict["freq0_Hz"] = toscalar(freq0_Hz)
-    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
-    mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
-    mDict["units"] = units
-
-    if fit_result.fitStatus >= 128:
-        log("WARNING: Stokes I model contains negative values!")
-    elif fit_result.fitStatus >= 64:
-        log("Caution: Stokes I model has low signal-to-noise.")
-
-    # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
-    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
-    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
-    mDict["N_channels"] = good_channels.size
-    if widths_Hz is not None:
-        mDict["median_channel_width"] = float(np.median(widths_Hz))
-    else:
-        mDict["median_channel_width"] = float(np.median(np.abs(np.diff(freqArr_Hz))))
-
-    # Measure the complexity of the q and u spectra
-    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
-    mD, pD = measure_qu_complexity(
-        freqArr_Hz=freqArr_Hz,
-        qArr=qArr,
-        uArr=uArr,
-        dqArr=dqArr,
-        duArr=duArr,
-        fracPol=mDict["fracPol"],
-        psi0_deg=mDict["polAngle0Fit_deg"],
-        RM_radm2=mDict["phiPeakPIfit_rm2"],
-    )
-    mDict.update(mD)
-
-    # Debugging plots for spectral complexity measure
-    if debug:
-        tmpFig = plot_complexity_fig(
-            xArr=pD["xArrQ"],
-            qArr=pD["yArrQ"],
-            dqArr=pD["dyArrQ"],
-            sigmaAddqArr=pD["sigmaAddArrQ"],
-            chiSqRedqArr=pD["chiSqRedArrQ"],
-            probqArr=pD["probArrQ"],
-            uArr=pD["yArrU"],
-            duArr=pD["dyArrU"],
-            sigmaAdduArr=pD["sigmaAddArrU"],
-            chiSqReduArr=pD["chiSqRedArrU"],
-            probuArr=pD["probArrU"],
-            mDict=mDict,
-        )
-        tmpFig.show()
-
-    # add array dictionary
-    aDict = dict()
-    aDict["phiArr_radm2"] = phiArr_radm2
-    aDict["phi2Arr_radm2"] = phi2Arr_radm2
-    aDict["RMSFArr"] = RMSFArr
-    aDict["freqArr_Hz"] = freqArr_Hz
-    aDict["weightArr"] = weightArr
-    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
-
-    if verbose:
-        # Print the results to the screen
-        log()
-        log("-" * 80)
-        log("RESULTS:\n")
-        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
-
-        log(
-            "Pol Angle = %.4g (+/-%.4g) deg"
-            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
-        )
-        log(
-            "Pol Angle 0 = %.4g (+/-%.4g) deg"
-            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
-        )
-        log(
-            "Peak FD = %.4g (+/-%.4g) rad/m^2"
-            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
-        )
-        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
-        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
-        log(
-            "Peak PI = %.4g (+/-%.4g) %s"
-            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
-        )
-        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (dFDFth, units))
-        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
-        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
-        log(
-            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
-            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
-        )
-        log()
-        log("-" * 80)
-
-    # Plot the RM Spread Function and dirty FDF
-    if showPlots:
-        plot_adjoint_info(adjoint_info, units=units)
-        fdfFig = plt.figure(figsize=(12.0, 8))
-        bwdepol_plot_rmsf_fdf_fig(
-            phiArr=phiArr_radm2,
-            FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phi2Arr_radm2,
-            RMSFArr=RMSFArr,
-            peak_rm=peak_rm,
-            fwhmRMSF=fwhmRMSF,
-            vLine=mDict["phiPeakPIfit_rm2"],
-            fig=fdfFig,
-            units=units,
-        )
-
-    if showPlots or debug:
-        plt.show()
-
-    return mDict, aDict
-
-
-# -----------------------------------------------------------------------------#
-def main():
-    """
-    Start the function to perform bwdepol RM-synthesis if called from the command line.
-    """
-
-    # Help string to be shown using the -h option
-    descStr = """
-    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
-    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
-
-    Behaves similarly to rmsynth1d except that the input file can optionally
-    contain a column with the channel widths in Hz. If this column is not
-    given, the channel widths will be assumed to be uniform and calculated
-    based on the difference between the frequencies of the first two channels.
-
-    The ASCII file requires one of the following column configurations,
-    depending on whether Stokes I and channel width information are available,
-    in a space separated format:
-    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, Q, U, Q_err, U_err]
-    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
-
-
-    To get outputs, one or more of the following flags must be set: -S, -p, -v.
-    """
-
-    epilog_text = """
-    Outputs with -S flag:
-    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
-    _RMSF.dat: Computed RMSF [Phi, Q, U]
-    _RMsynth.dat: list of derived parameters for RM spectrum
-                (approximately equivalent to -v flag output)
-    _RMsynth.json: dictionary of derived parameters for RM spectrum
-    _weight.dat: Calculated channel weights [freq_Hz, weight]
-    """
-
-    # Parse the command line options
-    parser = argparse.ArgumentParser(
-        description=descStr,
-        epilog=epilog_text,
-        formatter_class=argparse.RawTextHelpFormatter,
-    )
-    parser.add_argument(
-        "dataFile",
-        metavar="dataFile.dat",
-        nargs=1,
-        help="ASCII file containing Stokes spectra & errors.",
-    )
-    parser.add_argument(
-        "-t",
-        dest="fitRMSF",
-        action="store_false",
-        help="fit a Gaussian to the RMSF [True; set flag to disable]",
-    )
-    parser.add_argument(
-        "-l",
-        dest="phiMax_radm2",
-        type=float,
-        default=None,
-        help="absolute max Faraday depth sampled [Auto].",
-    )
-    parser.add_argument(
-        "-d",
-        dest="dPhi_radm2",
-        type=float,
-        default=None,
-        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
-    )
-    parser.add_argument(
-        "-s",
-        dest="nSamples",
-        type=float,
-        default=10,
-        help="number of samples across the RMSF lobe [10].",
-    )
-    parser.add_argument(
-        "-w",
-        dest="weightType",
-        default="variance",
-        help="weighting [inverse variance] or 'uniform' (all 1s).",
-    )
-    parser.add_argument(
-        "-o",
-        dest="polyOrd",
-        type=int,
-        default=2,
-        help="polynomial order to fit to I spectrum [2].",
-    )
-    parser.add_argument(
-        "-i",
-        dest="noStokesI",
-        action="store_true",
-        help="ignore the Stokes I spectrum [False].",
-    )
-    parser.add_argument(
-        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
-    )
-    parser.add_argument(
-        "-v", dest="verbose", action="store_true", help="verbose output [False]."
-    )
-    parser.add_argument(
-        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
-    )
-    parser.add_argument(
-        "-D",
-        dest="debug",
-        action="store_true",
-        help="turn on debugging messages & plots [False].",
-    )
-    parser.add_argument(
-        "-U",
-        dest="units",
-        type=str,
-        default="Jy/beam",
-        help="Intensity units of the data. [Jy/beam]",
-    )
-    args = parser.parse_args()
-
-    # Sanity checks
-    if not os.path.exists(args.dataFile[0]):
-        print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit()
-    prefixOut, ext = os.path.splitext(args.dataFile[0])
-    dataDir, dummy = os.path.split(args.dataFile[0])
-    # Set the floating point precision
-    nBits = 64
-
-    # Read in the data. Don't parse until inside the first function.
-    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
-
-    # Run (modified) RM-synthesis on the spectra
-    mDict, aDict = run_adjoint_rmsynth(
-        data=data,
-        polyOrd=args.polyOrd,
-        phiMax_radm2=args.phiMax_radm2,
-        dPhi_radm2=args.dPhi_radm2,
-        nSamples=args.nSamples,
-        weightType=args.weightType,
-        fitRMSF=args.fitRMSF,
-        noStokesI=args.noStokesI,
-        nBits=nBits,
-        showPlots=args.showPlots,
-        debug=args.debug,
-        verbose=args.verbose,
-        units=args.units,
-    )
-
-    if args.saveOutput:
-        saveOutput(mDict, aDict, prefixOut, args.verbose)
-
-
-# -----------------------------------------------------------------------------#
-if __name__ == "__main__":
-    main()
+#!/usr/bin/env python
+# =============================================================================#
+#                                                                             #
+# NAME:     rmtools_bwdepol.py                                                #
+#                                                                             #
+# PURPOSE: Algorithm for finding polarized sources while accounting for       #
+#          bandwidth depolarization.                                          #
+#                                                                             #
+# =============================================================================#
+#                                                                             #
+# The MIT License (MIT)                                                       #
+#                                                                             #
+# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
+# Permission is hereby granted, free of charge, to any person obtaining a     #
+# copy of this software and associated documentation files (the "Software"),  #
+# to deal in the Software without restriction, including without limitation   #
+# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
+# and/or sell copies of the Software, and to permit persons to whom the       #
+# Software is furnished to do so, subject to the following conditions:        #
+#                                                                             #
+# The above copyright notice and this permission notice shall be included in  #
+# all copies or substantial portions of the Software.                         #
+#                                                                             #
+# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
+# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
+# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
+# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
+# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
+# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
+# DEALINGS IN THE SOFTWARE.                                                   #
+#                                                                             #
+# =============================================================================#
+
+import argparse
+import math as m
+import os
+import sys
+import time
+import traceback
+
+import matplotlib.pyplot as plt
+import numpy as np
+import scipy as sp
+from astropy.constants import c as speed_of_light
+from matplotlib.ticker import MaxNLocator
+
+from RMtools_1D.do_RMsynth_1D import saveOutput
+from RMutils.util_misc import (
+    MAD,
+    calculate_StokesI_model,
+    create_frac_spectra,
+    nanmedian,
+    progress,
+    toscalar,
+)
+from RMutils.util_plotTk import (
+    plot_complexity_fig,
+    plot_dirtyFDF_ax,
+    plot_Ipqu_spectra_fig,
+)
+from RMutils.util_RM import (
+    calc_parabola_vertex,
+    extrap,
+    fit_rmsf,
+    measure_qu_complexity,
+)
+
+if sys.version_info.major == 2:
+    print("RM-tools will no longer run with Python 2! Please use Python 3.")
+    exit()
+
+
+# -----------------------------------------------------------------------------#
+def rotation_integral_limit(freq, phi):
+    """Calculates the analytic solution to the channel polarization integral
+    at one limit frequency.
+
+    Parameters
+    ----------
+    freq: float
+          frequency in Hz
+
+    phi: float
+          Faraday depth (rad/m^2)
+
+    Returns
+    -------
+    intergral_lim: complex
+                   intergral limit
+
+    """
+    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
+    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
+    funct3 = -1.0j + np.sign(phi)
+    funct4 = sp.special.erf(
+        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
+    )
+
+    intergral_lim = funct1 + (funct2 * funct3 * funct4)
+
+    return intergral_lim
+
+
+def rotation_operator(channel_width, channel_center, phi):
+    """Rotation operator for channel with top-hat-in-frequency sensitivity.
+    Computes the net effect on a polarization vector for a channel of given
+    center frequnecy and bandwidth, for a given RM.
+
+    Parameters
+    ----------
+    channel_width: float
+                   channel bandwidth in Hz
+
+    channel_center: float
+                    channel frequency in Hz
+
+    phi: float
+         channel frequency in hz
+
+    Returns
+    -------
+    (complex) rotation operator for that channel
+
+    """
+    b = channel_center + 0.5 * channel_width
+    a = channel_center - 0.5 * channel_width
+
+    int_a = rotation_integral_limit(a, phi)
+    int_b = rotation_integral_limit(b, phi)
+
+    return (1 / channel_width) * (int_b - int_a)
+
+
+def estimate_channel_bandwidth(freq_array):
+    """Estimates the bandwidth per channel given the spacing between channel
+    centers. Only looks at the first 2 channels.
+
+    Parameters
+    ----------
+    freq_array: array-like
+                array of channel centers
+
+    Returns
+    -------
+    ban: float
+         seperation between first two channel centers
+
+    """
+    ban = freq_array[1] - freq_array[0]
+    return ban
+
+
+def l2_to_freq_array(lambda_square_array):
+    """returns the freqency array, corresponding to a lambda square array"""
+
+    f = speed_of_light.value**2 / lambda_square_array
+    return np.sqrt(f)
+
+
+def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
+    """Calculates the theoretical sensitivity and noise for the adjoint method
+
+    Parameters
+    ----------
+    adjoint_vars: list
+                  list like object containing organized as
+                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    dQUArr: array like
+            array containing the error in Stokes Q, and U
+
+    show_progress: Boolean
+                   If set to True, shows progress, Default is False
+
+    log: function
+         logging function, default is print
+
+    Returns
+    -------
+    adjoint_info: list
+                  list containing phiArr, and the theoretical noise and
+                  sensitivity organized as
+                  [phiArr_radm2, adjoint_sens, adjoint_noise]
+
+    """
+
+    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
+    adjoint_noise = np.ones(len(phiArr_radm2))
+    adjoint_sens = np.ones(len(phiArr_radm2))
+
+    nPhi = len(phiArr_radm2)
+    if show_progress:
+        log("Calculating Theoretical Sensitivity & Noise")
+        progress(40, 0)
+    for i in range(nPhi):
+        if show_progress:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
+        adjoint_noise2 = (
+            np.nansum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            / np.sum(weightArr) ** 2
+        )  # equation 34
+        adjoint_noise[i] = np.sqrt(adjoint_noise2)
+
+        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
+
+    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
+    return adjoint_info
+
+
+def plot_adjoint_info(mylist, units="Jy/beam"):
+    """plots theoretical noise, sensitivity"""
+    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
+    fig.subplots_adjust(wspace=0.4, hspace=0.4)
+
+    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
+
+    ax[1].plot(
+        phiArr_radm2,
+        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
+    )
+    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[1].set_ylabel("S:N multiplier")
+    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
+    # plot 2
+    ax[0].plot(
+        phiArr_radm2,
+        adjoint_sens,
+    )
+    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[0].set_ylabel("Sensitivity")
+    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
+    return
+
+
+# -----------------------------------------------------------------------------#
+
+
+def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
+    """Calculates the average analytic solution to the channel polarization
+    integral per channel
+
+    Based on equation 13 of Schnitzeler & Lee (2015)
+
+    Parameters
+    ----------
+    f: float
+       channel center frequency in Hz
+
+    ban: float
+         channel bandwidth in Hz
+
+    phi: float
+         Faraday depth value in rad/m^2
+
+    xi_knot: float
+             inital polarization angle in radians
+
+    p: float
+       polarzied intensity
+
+    Returns
+    -------
+    avg_p_tilda: complex
+                 the average complex polarization, for the bandwidth,
+                 real is Q, imaginary is U
+
+    """
+    a = f - (ban / 2)
+    b = f + (ban / 2)  # integral start and stop values
+
+    ya = rotation_integral_limit(
+        a,
+        phi,
+    )
+    yb = rotation_integral_limit(
+        b,
+        phi,
+    )  # check orig for xi_knot
+
+    i = p * (yb - ya)
+    avg_p_tilda = i / ban
+
+    return avg_p_tilda
+
+
+def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
+    """Farday thin simulated source of the same RM as the measured source,
+    with unit intensity
+
+    Parameters
+    ----------
+    peak_rm: float
+             peak in Faraday depth value (in rad/m^2) for sim
+
+    freqArr_hz: array like
+                frequency array (in Hz)
+
+    width_Hz: float
+              channel width in Hz
+
+    Returns
+    -------
+    data:
+         Dirty FDF for the simulated data formated as a list of arrays
+         [freq_Hz, q, u,  dq, du]
+
+    """
+    if widths_Hz is None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+
+    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
+    size_f = len(freqArr_Hz)
+    dq = np.ones(size_f)
+    du = np.ones(size_f)
+
+    # format  = [freq_Hz, q, u,  dq, du]
+    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
+    return data
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_tweakAxFormat(
+    ax,
+    pad=10,
+    loc="upper right",
+    linewidth=1,
+    ncol=1,
+    bbox_to_anchor=(1.00, 1.00),
+    showLeg=True,
+):
+    """Tweaks some default plotting parameters for the RMSF, returns ax"""
+    # Axis/tic formatting
+    ax.tick_params(pad=pad)
+    for line in ax.get_xticklines() + ax.get_yticklines():
+        line.set_markeredgewidth(linewidth)
+
+    # Legend formatting
+    if showLeg:
+        leg = ax.legend(
+            numpoints=1,
+            loc=loc,
+            shadow=False,
+            borderaxespad=0.3,
+            ncol=ncol,
+            bbox_to_anchor=bbox_to_anchor,
+        )
+        for t in leg.get_texts():
+            t.set_fontsize("small")
+        leg.get_frame().set_linewidth(0.5)
+        leg.get_frame().set_alpha(0.5)
+
+    return ax
+
+
+def gauss(p, peak_rm):
+    """Return a fucntion to evaluate a Gaussian with parameters
+    off set by peak_rm
+
+    Parameters
+    ----------
+    p: list
+       parameters for Gaussian, p = [ampplitude, mean, FWHM]
+
+    peak_rm: float
+             peak in Faraday depth (in rad/m^2), used to center Gaussian
+
+    Returns
+    -------
+    rfun: fuction
+          Gaussian with specified parameters, off set my peak_rm
+
+    """
+
+    a, b, w = p
+    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
+    s = w / gfactor
+
+    def rfunc(x):
+        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
+        return y
+
+    return rfunc
+
+
+def bwdepol_plot_RMSF_ax(
+    ax,
+    phiArr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    axisYright=False,
+    axisXtop=False,
+    doTitle=False,
+):
+    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
+
+    # Set the axis positions
+    if axisYright:
+        ax.yaxis.tick_right()
+        ax.yaxis.set_label_position("right")
+    if axisXtop:
+        ax.xaxis.tick_top()
+        ax.xaxis.set_label_position("top")
+
+    # Plot the RMSF
+    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
+    ax.step(
+        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
+    )
+    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
+    ax.axhline(0, color="grey")
+    if doTitle:
+        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
+
+    # Plot the Gaussian fit
+    if fwhmRMSF is not None:
+        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
+        ax.plot(
+            phiArr,
+            yGauss,
+            color="g",
+            marker="None",
+            mfc="w",
+            mec="g",
+            ms=10,
+            label="Gaussian",
+            lw=2.0,
+            ls="--",
+        )
+
+    # Scaling
+    ax.yaxis.set_major_locator(MaxNLocator(4))
+    ax.xaxis.set_major_locator(MaxNLocator(4))
+    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
+    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
+    ax.set_ylabel("Normalised Units")
+    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
+    ax.axhline(0, color="grey")
+
+    # Format tweaks
+    ax = bwdepol_tweakAxFormat(ax)
+    ax.autoscale_view(True, True, True)
+
+
+def bwdepol_plot_rmsf_fdf_fig(
+    phiArr,
+    FDF,
+    phi2Arr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    gaussParm=[],
+    vLine=None,
+    fig=None,
+    units="flux units",
+):
+    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
+
+    # Default to a pyplot figure
+    if fig == None:
+        fig = plt.figure(figsize=(12.0, 8))
+    # Plot the RMSF
+    ax1 = fig.add_subplot(211)
+    bwdepol_plot_RMSF_ax(
+        ax=ax1,
+        phiArr=phi2Arr,
+        RMSFArr=RMSFArr,
+        peak_rm=peak_rm,
+        fwhmRMSF=fwhmRMSF,
+        doTitle=True,
+    )
+    [label.set_visible(False) for label in ax1.get_xticklabels()]
+    ax1.set_xlabel("")
+
+    ax2 = fig.add_subplot(212, sharex=ax1)
+    plot_dirtyFDF_ax(
+        ax=ax2,
+        phiArr=phiArr,
+        FDFArr=FDF,
+        gaussParm=gaussParm,
+        vLine=vLine,
+        doTitle=True,
+        units=units,
+    )
+    return fig
+
+
+# -----------------------------------------------------------------------------#
+# modified for adjoint
+def bwdepol_get_rmsf_planes(
+    freqArr_Hz,
+    widths_Hz,
+    phiArr_radm2,
+    peak_rm,
+    weightArr=None,
+    mskArr=None,
+    lam0Sq_m2=None,
+    double=True,
+    fitRMSF=True,
+    fitRMSFreal=False,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Calculate the Rotation Measure Spread Function from inputs. This version
+    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+    boolean mask array, where flagged data are True and unflagged data False.
+    If only whole planes (wavelength channels) are flagged then the RMSF is the
+    same for all pixels and the calculation is done once and replicated to the
+    dimensions of the mask. If some isolated voxels are flagged then the RMSF
+    is calculated by looping through each wavelength plane, which can take some
+    time. By default the routine returns the analytical width of the RMSF main
+    lobe but can also use MPFIT to fit a Gaussian.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+
+    Parameters
+    ----------
+    freqArr_Hz      ... vector of frequency values
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is no weighting
+    maskArr         ... cube of mask values used to shape return cube [None]
+    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
+    double          ... pad the Faraday depth to double-size [True]
+    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
+    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
+    nBits           ... precision of data arrays [64]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+
+    Returns
+    -------
+    RMSFcube: array
+              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+              boolean mask array
+
+    phi2Arr: array
+             array of the Faraday Depth (in rad/m^2)
+
+    fwhmRMSFArr: array
+                 fwhm of the RMSF
+
+    statArr: array
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
+    if double:
+        nPhi = phiArr_radm2.shape[0]
+        nExt = np.ceil(nPhi / 2.0)
+        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
+        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
+    else:
+        phi2Arr = phiArr_radm2
+
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Set the mask array (default to 1D, no masked channels)
+    if mskArr is None:
+        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
+        nDims = 1
+    else:
+        mskArr = mskArr.astype("bool")
+        nDims = len(mskArr.shape)
+
+    # Sanity checks on array sizes
+    if not weightArr.shape == freqArr_Hz.shape:
+        log("Err: wavelength^2 and weight arrays must be the same shape.")
+        return None, None, None, None
+    if not nDims <= 3:
+        log("Err: mask dimensions must be <= 3.")
+        return None, None, None, None
+    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
+        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
+        (mskArr.shape[0], freqArr_Hz.shape[-1])
+        log("     Check that the mask is in [z, y, x] order.")
+        return None, None, None, None
+
+    # Reshape the mask array to 3 dimensions
+    if nDims == 1:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
+    elif nDims == 2:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
+
+    # Initialise the complex RM Spread Function cube
+    nX = mskArr.shape[-1]
+    nY = mskArr.shape[-2]
+    nPix = nX * nY
+    nPhi = phi2Arr.shape[0]
+    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
+
+    # If full planes are flagged then set corresponding weights to zero
+    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
+    mskPlanes = np.where(xySum == nPix, 0, 1)
+    weightArr *= mskPlanes
+
+    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
+    flagTotals = np.unique(xySum).tolist()
+    try:
+        flagTotals.remove(0)
+    except Exception:
+        pass
+    try:
+        flagTotals.remove(nPix)
+    except Exception:
+        pass
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Calculate the analytical FWHM width of the main lobe
+    fwhmRMSF = (
+        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
+    )
+
+    # Create simulated data set with simRM = peakRM
+    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
+    # RMSFArr = fdf from bwdepol_simulation
+    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
+        freqArr_Hz,
+        RMSF_data[1],
+        RMSF_data[2],
+        phi2Arr,
+        widths_Hz=widths_Hz,
+        weightArr=weightArr,
+        lam0Sq_m2=lam0Sq_m2,
+        verbose=verbose,
+        log=print,
+    )
+
+    # Fit the RMSF main lobe
+    fitStatus = -1
+    if fitRMSF:
+        if verbose:
+            log("Fitting Gaussian to the main lobe.")
+        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
+        if mp is None or mp.status < 1:
+            pass
+            log("Err: failed to fit the RMSF.")
+            log("     Defaulting to analytical value.")
+        else:
+            fwhmRMSF = mp.params[2]
+            fitStatus = mp.status
+
+    # Replicate along X and Y axes
+    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
+    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
+    statArr = np.ones((nY, nX), dtype="int") * fitStatus
+
+    # Remove redundant dimensions
+    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
+    statArr = np.squeeze(statArr)
+    RMSFcube = RMSFcube.reshape(-1)
+
+    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_measure_FDF_parms(
+    FDF,
+    phiArr,
+    fwhmRMSF,
+    adjoint_sens,
+    adjoint_noise,
+    dFDF=None,
+    lamSqArr_m2=None,
+    lam0Sq=None,
+    snrDoBiasCorrect=5.0,
+):
+    """
+    Measure standard parameters from a complex Faraday Dispersion Function.
+    Currently this function assumes that the noise levels in the Stokes Q
+    and U spectra are the same.
+    Returns a dictionary containing measured parameters.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+    """
+
+    # Determine the peak channel in the FDF, its amplitude and index
+    absFDF = np.abs(FDF)
+    rm_fdf = (
+        absFDF / adjoint_noise
+    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
+    amp_fdf = (
+        absFDF / adjoint_sens
+    )  # RM spectrum normalized by (RM-dependent) sensitivity
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
+
+    # new theoretical dFDF correction for adjoint method
+    # This is noise in the adjoint-spectrum.
+    dFDF = adjoint_noise[indxPeakPIchan]
+
+    # This is the error in the amplitude (accounting for re-normalization)
+    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
+
+    # Measure the RMS noise in the spectrum after masking the peak
+    # changed all absFDF to rm_fdf
+    # Since this is normalized by theoretical noise, it's effectively testing
+    # the noise relative to the theoretical noise.
+    dPhi = np.nanmin(np.diff(phiArr))
+    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
+    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
+    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
+    absFDFmsked = rm_fdf.copy()
+    absFDFmsked[iL:iR] = np.nan
+    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
+    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
+        dFDFcorMAD = MAD(rm_fdf)
+    else:
+        dFDFcorMAD = MAD(absFDFmsked)
+
+    # The noise is re-normalized by the predicted noise at the peak RM.
+    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
+
+    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
+    varLamSqArr_m2 = (
+        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
+    ) / (nChansGood - 1)
+
+    # Determine the peak in the FDF, its amplitude and Phi using a
+    # 3-point parabolic interpolation
+    phiPeakPIfit = None
+    dPhiPeakPIfit = None
+    ampPeakPIfit = None
+    snrPIfit = None
+    ampPeakPIfitEff = None
+    indxPeakPIfit = None
+    peakFDFimagFit = None
+    peakFDFrealFit = None
+    polAngleFit_deg = None
+    dPolAngleFit_deg = None
+    polAngle0Fit_deg = None
+    dPolAngle0Fit_deg = None
+
+    # Only do the 3-point fit if peak is 1-channel from either edge
+    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
+        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
+            phiArr[indxPeakPIchan - 1],
+            amp_fdf[indxPeakPIchan - 1],
+            phiArr[indxPeakPIchan],
+            amp_fdf[indxPeakPIchan],
+            phiArr[indxPeakPIchan + 1],
+            amp_fdf[indxPeakPIchan + 1],
+        )
+
+        # In rare cases, a parabola can be fitted to the edge of the spectrum,
+        # producing a unreasonably large RM and polarized intensity, or to a
+        # minimum. In these cases, everything should get NaN'd out.
+        if (
+            phiPeakPIfit < np.min(phiArr)
+            or phiPeakPIfit > np.max(phiArr)
+            or ampPeakPIfit < np.min(amp_fdf[indxPeakPIchan - 1 : indxPeakPIchan + 2])
+        ):
+            phiPeakPIfit = np.nan
+            ampPeakPIfit = np.nan
+
+        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
+
+        # Error on fitted Faraday depth (RM) is same as channel
+        # but using fitted PI
+        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
+
+        # Correct the peak for polarisation bias (POSSUM report 11)
+        ampPeakPIfitEff = ampPeakPIfit
+        if snrPIfit >= snrDoBiasCorrect:
+            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
+
+        # Calculate the polarisation angle from the fitted peak
+        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
+        indxPeakPIfit = np.interp(
+            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
+        )
+        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
+        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
+        polAngleFit_deg = (
+            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
+        )
+        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
+
+        # Calculate the derotated polarisation angle and uncertainty
+        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
+        polAngle0Fit_deg = (
+            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
+        ) % 180
+        dPolAngle0Fit_rad = np.sqrt(
+            nChansGood
+            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
+            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
+        )
+        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
+
+    # Store the measurements in a dictionary and return
+    mDict = {
+        "dFDFcorMAD": toscalar(dFDFcorMAD),
+        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
+        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
+        "ampPeakPIfit": toscalar(ampPeakPIfit),
+        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
+        "dAmpPeakPIfit": toscalar(dampPeakPI),
+        "snrPIfit": toscalar(snrPIfit),
+        "indxPeakPIfit": toscalar(indxPeakPIfit),
+        "peakFDFimagFit": toscalar(peakFDFimagFit),
+        "peakFDFrealFit": toscalar(peakFDFrealFit),
+        "polAngleFit_deg": toscalar(polAngleFit_deg),
+        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
+        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
+        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
+    }
+
+    return mDict
+
+
+# -----------------------------------------------------------------------------#
+def do_adjoint_rmsynth_planes(
+    freqArr_Hz,
+    dataQ,
+    dataU,
+    phiArr_radm2,
+    widths_Hz=None,
+    weightArr=None,
+    lam0Sq_m2=None,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
+    of the routine loops through spectral planes and is faster than the pixel-
+    by-pixel code. This version also correctly deals with isolated clumps of
+    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
+    but possible in single-dish cubes). Input data must be in standard python
+    [z,y,x] order, where z is the frequency axis in ascending order.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+    Parameters
+    ----------
+    dataQ           ... 1, 2 or 3D Stokes Q data array
+    dataU           ... 1, 2 or 3D Stokes U data array
+    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
+    nBits           ... precision of data arrays [32]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+    Returns
+    -------
+    FDFcube: array
+             Faraday Dispersion Function (FDF)
+
+    lam0Sq_m2: array
+               lam0Sq_m2 is the weighted mean of lambda^2 distribution
+               (B&dB Eqn. 32)
+
+    adjoint_vars: list
+                  information to generate theoretical noise, sensitivity
+                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
+                                  weightArr]
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Sanity check on array sizes
+    if not weightArr.shape == lambdaSqArr_m2.shape:
+        log("Err: Lambda^2 and weight arrays must be the same shape.")
+        return None, None
+    if not dataQ.shape == dataU.shape:
+        log("Err: Stokes Q and U data arrays must be the same shape.")
+        return None, None
+    nDims = len(dataQ.shape)
+    if not nDims <= 3:
+        log("Err: data dimensions must be <= 3.")
+        return None, None
+    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
+        log(
+            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
+                dataQ.shape[0], lambdaSqArr_m2.shape[0]
+            ),
+            end=" ",
+        )
+        log("     Check that data is in [z, y, x] order.")
+        return None, None
+
+    # Reshape the data arrays to 3 dimensions
+    if nDims == 1:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
+    elif nDims == 2:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
+
+    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
+    # Array has dimensions [nFreq, nY, nX]
+    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
+
+    # Check for NaNs (flagged data) in the cube & set to zero
+    mskCube = np.isnan(pCube)
+    pCube = np.nan_to_num(pCube)
+
+    # If full planes are flagged then set corresponding weights to zero
+    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
+    mskPlanes = np.where(mskPlanes == 0, 0, 1)
+    weightArr *= mskPlanes
+
+    # Initialise the complex Faraday Dispersion Function cube
+    nX = dataQ.shape[-1]
+    nY = dataQ.shape[-2]
+    nPhi = phiArr_radm2.shape[0]
+    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
+
+    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
+    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
+    K = 1.0 / np.sum(weightArr)
+    if lam0Sq_m2 is None:
+        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
+
+    # The K value used to scale each FDF spectrum must take into account
+    # flagged voxels data in the datacube and can be position dependent
+    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
+    with np.errstate(divide="ignore", invalid="ignore"):
+        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
+        KArr[KArr == np.inf] = 0
+        KArr = np.nan_to_num(KArr)
+
+    # Do the RM-synthesis on each plane
+    if verbose:
+        log("Running RM-synthesis by channel.")
+        progress(40, 0)
+
+    # calculate channel widths if necessary
+    if widths_Hz is None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+    for i in range(nPhi):
+        if verbose:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
+            :, np.newaxis, np.newaxis
+        ]
+        arg0 = pCube * cor * np.conj(r_i)
+        arg = arg0
+        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
+
+    # information to generate theoretical noise, sensitivity
+    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    # Remove redundant dimensions in the FDF array
+    FDFcube = np.squeeze(FDFcube)
+    return FDFcube, lam0Sq_m2, adjoint_vars
+
+
+# -----------------------------------------------------------------------------#
+def run_adjoint_rmsynth(
+    data,
+    polyOrd=3,
+    phiMax_radm2=None,
+    dPhi_radm2=None,
+    nSamples=10.0,
+    weightType="variance",
+    fitRMSF=True,
+    noStokesI=False,
+    phiNoise_radm2=1e6,
+    nBits=64,
+    showPlots=False,
+    debug=False,
+    verbose=False,
+    log=print,
+    units="Jy/beam",
+):
+    """Run bwdepol RM synthesis on 1D data.
+
+    Args:
+        data (list): Contains frequency and polarization data as either:
+            [freq_Hz, I, Q, U, dI, dQ, dU]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                I (array_like): Stokes I intensity in each channel.
+                Q (array_like): Stokes Q intensity in each channel.
+                U (array_like): Stokes U intensity in each channel.
+                dI (array_like): Error in Stokes I intensity in each channel.
+                dQ (array_like): Error in Stokes Q intensity in each channel.
+                dU (array_like): Error in Stokes U intensity in each channel.
+            or
+            [freq_Hz, q, u,  dq, du]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
+                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
+                dq (array_like): Error in fractional Stokes Q intensity in each channel.
+                du (array_like): Error in fractional Stokes U intensity in each channel.
+
+    Kwargs:
+        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
+        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
+        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
+        nSamples (float): Number of samples across the RMSF.
+        weightType (str): Can be "variance" or "uniform"
+            "variance" -- Weight by uncertainty in Q and U.
+            "uniform" -- Weight uniformly (i.e. with 1s)
+        fitRMSF (bool): Fit a Gaussian to the RMSF?
+        noStokesI (bool: Is Stokes I data provided?
+        phiNoise_radm2 (float): ????
+        nBits (int): Precision of floating point numbers.
+        showPlots (bool): Show plots?
+        debug (bool): Turn on debugging messages & plots?
+        verbose (bool): Verbosity.
+        log (function): Which logging function to use.
+        units (str): Units of data.
+
+    Returns:
+        mDict (dict): Summary of RM synthesis results.
+        aDict (dict): Data output by RM synthesis.
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    #    dtComplex = "complex" + str(2*nBits)
+
+    # freq_Hz, I, Q, U, dI, dQ, dU
+    if len(data) == 7:
+        if verbose:
+            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
+        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+        widths_Hz = None
+    elif len(data) == 8:
+        if verbose:
+            log(
+                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+    elif len(data) == 6:
+        if verbose:
+            log(
+                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
+    elif len(data) == 5:
+        if verbose:
+            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
+        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
+        widths_Hz = None
+        noStokesI = True
+    else:
+        log("Failed to read in data, aborting.")
+        if debug:
+            log(traceback.format_exc())
+        sys.exit()
+    if verbose:
+        log("Successfully read in the Stokes spectra.")
+
+    # If no Stokes I present, create a dummy spectrum = unity
+    if noStokesI:
+        if verbose:
+            log("Warn: no Stokes I data in use.")
+        IArr = np.ones_like(QArr)
+        dIArr = np.zeros_like(QArr)
+
+    # Convert to GHz for convenience
+    freqArr_GHz = freqArr_Hz / 1e9
+    dQUArr = (dQArr + dUArr) / 2.0
+
+    # Fit the Stokes I spectrum and create the fractional spectra
+    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
+        freqArr=freqArr_GHz,
+        IArr=IArr,
+        QArr=QArr,
+        UArr=UArr,
+        dIArr=dIArr,
+        dQArr=dQArr,
+        dUArr=dUArr,
+        polyOrd=polyOrd,
+        verbose=True,
+        debug=debug,
+    )
+
+    # Plot the data and the Stokes I model fit
+    if showPlots:
+        if verbose:
+            log("Plotting the input data and spectral index fit.")
+        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz / 1e9)
+        specFig = plt.figure(figsize=(12.0, 8))
+        plot_Ipqu_spectra_fig(
+            freqArr_Hz=freqArr_Hz,
+            IArr=IArr,
+            qArr=qArr,
+            uArr=uArr,
+            dIArr=dIArr,
+            dqArr=dqArr,
+            duArr=duArr,
+            freqHirArr_Hz=freqHirArr_Hz,
+            IModArr=IModHirArr,
+            fig=specFig,
+            units=units,
+        )
+
+        # DEBUG (plot the Q, U and average RMS spectrum)
+        if debug:
+            rmsFig = plt.figure(figsize=(12.0, 8))
+            ax = rmsFig.add_subplot(111)
+            ax.plot(
+                freqArr_Hz / 1e9,
+                dQUArr,
+                marker="o",
+                color="k",
+                lw=0.5,
+                label="rms <QU>",
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
+            )
+            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
+            ax.set_xlim(
+                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
+                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
+            )
+            ax.set_xlabel(r"$\nu$ (GHz)")
+            ax.set_ylabel("RMS " + units)
+            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
+
+    # Calculate some wavelength parameters
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
+    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
+    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+
+    # Set the Faraday depth range
+    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
+    if dPhi_radm2 is None:
+        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
+    if phiMax_radm2 is None:
+        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
+        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
+
+    # Faraday depth sampling. Zero always centred on middle channel
+    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
+    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
+    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
+    if verbose:
+        log(
+            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
+            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
+        )
+
+    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
+    if weightType == "variance":
+        weightArr = 1.0 / np.power(dQUArr, 2.0)
+    else:
+        weightType = "uniform"
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels without both q and u are flagged: they must not contribute to the
+    # RMSF, the theoretical noise or the channel statistics
+    weightArr = np.where(np.isfinite(qArr) & np.isfinite(uArr), weightArr, 0.0)
+    if verbose:
+        log("Weight type is '%s'." % weightType)
+
+    startTime = time.time()
+
+    # Perform adjoint RM-synthesis on the spectrum
+    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        dataQ=qArr,
+        dataU=uArr,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+    )
+
+    # generate adjoint_noise and adjoint__sens
+    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
+    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
+
+    # calculate peak RM
+    absFDF = np.abs(dirtyFDF)
+    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
+    peak_rm = phiArr_radm2[indxPeakPIchan]
+
+    # Calculate the Rotation Measure Spread Function
+    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        mskArr=~np.isfinite(qArr),
+        lam0Sq_m2=lam0Sq_m2,
+        double=True,
+        fitRMSF=fitRMSF,
+        fitRMSFreal=False,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+        peak_rm=peak_rm,
+    )
+    fwhmRMSF = float(fwhmRMSFArr)
+    endTime = time.time()
+    cputime = endTime - startTime
+    if verbose:
+        log("> RM-synthesis completed in %.2f seconds." % cputime)
+
+    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
+    # Multiply the dirty FDF by Ifreq0 to recover the PI
+    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz / 1e9)
+    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
+
+    # Calculate the theoretical noise in the FDF !!
+    # Old formula only works for wariance weights!
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    dFDFth = np.sqrt(
+        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
+    )
+
+    # Measure the parameters of the dirty FDF
+    # Use the theoretical noise to calculate uncertainties
+
+    mDict = bwdepol_measure_FDF_parms(
+        FDF=dirtyFDF,
+        phiArr=phiArr_radm2,
+        fwhmRMSF=fwhmRMSF,
+        adjoint_sens=adjoint_sens,
+        adjoint_noise=adjoint_noise,
+        dFDF=dFDFth,
+        lamSqArr_m2=lambdaSqArr_m2,
+        lam0Sq=lam0Sq_m2,
+    )
+
+    mDict["Ifreq0"] = toscalar(Ifreq0)
+    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
+    mDict["IfitStat"] = fit_result.fitStatus
+    mDict["IfitChiSqRed"] = fit_result.chiSqRed
+    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
+    mDict["freq0_Hz"] = toscalar(freq0_Hz)
+    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
+    mDict["dQU"] = toscalar(nanmedian(dQUArr))
+    # mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["units"] = units
+
+    if fit_result.fitStatus >= 128:
+        log("WARNING: Stokes I model contains negative values!")
+    elif fit_result.fitStatus >= 64:
+        log("Caution: Stokes I model has low signal-to-noise.")
+
+    # Add information on nature of channels:
+    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
+    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
+    mDict["N_channels"] = good_channels.size
+    if widths_Hz is not None:
+        mDict["median_channel_width"] = float(np.median(widths_Hz))
+    else:
+        mDict["median_channel_width"] = float(np.median(np.abs(np.diff(freqArr_Hz))))
+
+    # Measure the complexity of the q and u spectra
+    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
+    mD, pD = measure_qu_complexity(
+        freqArr_Hz=freqArr_Hz,
+        qArr=qArr,
+        uArr=uArr,
+        dqArr=dqArr,
+        duArr=duArr,
+        fracPol=mDict["fracPol"],
+        psi0_deg=mDict["polAngle0Fit_deg"],
+        RM_radm2=mDict["phiPeakPIfit_rm2"],
+    )
+    mDict.update(mD)
+
+    # Debugging plots for spectral complexity measure
+    if debug:
+        tmpFig = plot_complexity_fig(
+            xArr=pD["xArrQ"],
+            qArr=pD["yArrQ"],
+            dqArr=pD["dyArrQ"],
+            sigmaAddqArr=pD["sigmaAddArrQ"],
+            chiSqRedqArr=pD["chiSqRedArrQ"],
+            probqArr=pD["probArrQ"],
+            uArr=pD["yArrU"],
+            duArr=pD["dyArrU"],
+            sigmaAdduArr=pD["sigmaAddArrU"],
+            chiSqReduArr=pD["chiSqRedArrU"],
+            probuArr=pD["probArrU"],
+            mDict=mDict,
+        )
+        tmpFig.show()
+
+    # add array dictionary
+    aDict = dict()
+    aDict["phiArr_radm2"] = phiArr_radm2
+    aDict["phi2Arr_radm2"] = phi2Arr_radm2
+    aDict["RMSFArr"] = RMSFArr
+    aDict["freqArr_Hz"] = freqArr_Hz
+    aDict["weightArr"] = weightArr
+    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
+
+    if verbose:
+        # Print the results to the screen
+        log()
+        log("-" * 80)
+        log("RESULTS:\n")
+        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
+
+        log(
+            "Pol Angle = %.4g (+/-%.4g) deg"
+            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
+        )
+        log(
+            "Pol Angle 0 = %.4g (+/-%.4g) deg"
+            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
+        )
+        log(
+            "Peak FD = %.4g (+/-%.4g) rad/m^2"
+            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
+        )
+        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
+        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
+        log(
+            "Peak PI = %.4g (+/-%.4g) %s"
+            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
+        )
+        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (dFDFth, units))
+        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
+        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
+        log(
+            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
+            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
+        )
+        log()
+        log("-" * 80)
+
+    # Plot the RM Spread Function and dirty FDF
+    if showPlots:
+        plot_adjoint_info(adjoint_info, units=units)
+        fdfFig = plt.figure(figsize=(12.0, 8))
+        bwdepol_plot_rmsf_fdf_fig(
+            phiArr=phiArr_radm2,
+            FDF=(dirtyFDF / adjoint_sens),
+            phi2Arr=phi2Arr_radm2,
+            RMSFArr=RMSFArr,
+            peak_rm=peak_rm,
+            fwhmRMSF=fwhmRMSF,
+            vLine=mDict["phiPeakPIfit_rm2"],
+            fig=fdfFig,
+            units=units,
+        )
+
+    if showPlots or debug:
+        plt.show()
+
+    return mDict, aDict
+
+
+# -----------------------------------------------------------------------------#
+def main():
+    """
+    Start the function to perform bwdepol RM-synthesis if called from the command line.
+    """
+
+    # Help string to be shown using the -h option
+    descStr = """
+    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
+    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
+
+    Behaves similarly to rmsynth1d except that the input file can optionally
+    contain a column with the channel widths in Hz. If this column is not
+    given, the channel widths will be assumed to be uniform and calculated
+    based on the difference between the frequencies of the first two channels.
+
+    The ASCII file requires one of the following column configurations,
+    depending on whether Stokes I and channel width information are available,
+    in a space separated format:
+    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, Q, U, Q_err, U_err]
+    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
+
+
+    To get outputs, one or more of the following flags must be set: -S, -p, -v.
+    """
+
+    epilog_text = """
+    Outputs with -S flag:
+    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
+    _RMSF.dat: Computed RMSF [Phi, Q, U]
+    _RMsynth.dat: list of derived parameters for RM spectrum
+                (approximately equivalent to -v flag output)
+    _RMsynth.json: dictionary of derived parameters for RM spectrum
+    _weight.dat: Calculated channel weights [freq_Hz, weight]
+    """
+
+    # Parse the command line options
+    parser = argparse.ArgumentParser(
+        description=descStr,
+        epilog=epilog_text,
+        formatter_class=argparse.RawTextHelpFormatter,
+    )
+    parser.add_argument(
+        "dataFile",
+        metavar="dataFile.dat",
+        nargs=1,
+        help="ASCII file containing Stokes spectra & errors.",
+    )
+    parser.add_argument(
+        "-t",
+        dest="fitRMSF",
+        action="store_false",
+        help="fit a Gaussian to the RMSF [True; set flag to disable]",
+    )
+    parser.add_argument(
+        "-l",
+        dest="phiMax_radm2",
+        type=float,
+        default=None,
+        help="absolute max Faraday depth sampled [Auto].",
+    )
+    parser.add_argument(
+        "-d",
+        dest="dPhi_radm2",
+        type=float,
+        default=None,
+        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
+    )
+    parser.add_argument(
+        "-s",
+        dest="nSamples",
+        type=float,
+        default=10,
+        help="number of samples across the RMSF lobe [10].",
+    )
+    parser.add_argument(
+        "-w",
+        dest="weightType",
+        default="variance",
+        help="weighting [inverse variance] or 'uniform' (all 1s).",
+    )
+    parser.add_argument(
+        "-o",
+        dest="polyOrd",
+        type=int,
+        default=2,
+        help="polynomial order to fit to I spectrum [2].",
+    )
+    parser.add_argument(
+        "-i",
+        dest="noStokesI",
+        action="store_true",
+        help="ignore the Stokes I spectrum [False].",
+    )
+    parser.add_argument(
+        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
+    )
+    parser.add_argument(
+        "-v", dest="verbose", action="store_true", help="verbose output [False]."
+    )
+    parser.add_argument(
+        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
+    )
+    parser.add_argument(
+        "-D",
+        dest="debug",
+        action="store_true",
+        help="turn on debugging messages & plots [False].",
+    )
+    parser.add_argument(
+        "-U",
+        dest="units",
+        type=str,
+        default="Jy/beam",
+        help="Intensity units of the data. [Jy/beam]",
+    )
+    args = parser.parse_args()
+
+    # Sanity checks
+    if not os.path.exists(args.dataFile[0]):
+        print("File does not exist: '%s'." % args.dataFile[0])
+        sys.exit()
+    prefixOut, ext = os.path.splitext(args.dataFile[0])
+    dataDir, dummy = os.path.split(args.dataFile[0])
+    # Set the floating point precision
+    nBits = 64
+
+    # Read in the data. Don't parse until inside the first function.
+    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
+
+    # Run (modified) RM-synthesis on the spectra
+    mDict, aDict = run_adjoint_rmsynth(
+        data=data,
+        polyOrd=args.polyOrd,
+        phiMax_radm2=args.phiMax_radm2,
+        dPhi_radm2=args.dPhi_radm2,
+        nSamples=args.nSamples,
+        weightType=args.weightType,
+        fitRMSF=args.fitRMSF,
+        noStokesI=args.noStokesI,
+        nBits=nBits,
+        showPlots=args.showPlots,
+        debug=args.debug,
+        verbose=args.verbose,
+        units=args.units,
+    )
+
+    if args.saveOutput:
+        saveOutput(mDict, aDict, prefixOut, args.verbose)
+
+
+# -----------------------------------------------------------------------------#
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 59240d3e918a6e76fb550ed7c4db33eabd83d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:20 +0000
Subject: [PATCH 71/85] fix: mpfit fitted parameters without a starting value
 instead of refusing them

---
 RMutils/mpfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index 4b17a1e..d206902 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -919,7 +919,7 @@ class mpfit:
         # extract them from PARINFO
         if xall is None:
             xall = self.parinfo(parinfo, "value")
-            if xall is None:
+            if xall is None or any(value is None for value in xall):
                 self.errmsg = 'ERROR: either P or PARINFO(*)["value"] must be supplied.'
                 return
 
-- 
2.43.0


From 36aac113a5eefa1e4ee2fd086bd10ac89528cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:20 +0000
Subject: [PATCH 72/85] fix: mpfit gave no message when the user's function
 became non-finite

---
 RMutils/mpfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/mpfit.py b/RMutils/mpfit.py
index d206902..09c1739 100644
--- a/RMutils/mpfit.py
+++ b/RMutils/mpfit.py
@@ -1405,7 +1405,7 @@ class mpfit:
                 if ~numpy.all(
                     numpy.isfinite(wa1) & numpy.isfinite(wa2) & numpy.isfinite(x)
                 ) or ~numpy.isfinite(ratio):
-                    errmsg = """ERROR: parameter or function value(s) have become
+                    self.errmsg = """ERROR: parameter or function value(s) have become
 						'infinite; check model function for over- 'and underflow"""
                     self.status = -16
                     break
-- 
2.43.0


From 6677dcdd99193a81be797ff5c3371bad8452a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 73/85] fix: complexity figure drew the chi-squared of U
 against the axis of Q

---
 RMutils/util_plotTk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_plotTk.py b/RMutils/util_plotTk.py
index f13d36c..85a62fe 100644
--- a/RMutils/util_plotTk.py
+++ b/RMutils/util_plotTk.py
@@ -2351,7 +2351,7 @@ def plot_complexity_fig(
         x=sigmaAddqArr, y=chiSqRedqArr, color="tab:blue", linewidth=1.0, where="mid"
     )
     ax4.step(
-        x=sigmaAddqArr, y=chiSqReduArr, color="tab:red", linewidth=1.0, where="mid"
+        x=sigmaAdduArr, y=chiSqReduArr, color="tab:red", linewidth=1.0, where="mid"
     )
     ax4.axhline(1.0, color="k", linestyle="--")
     ax4.set_xlabel(r"$\sigma_{\rm add}$")
-- 
2.43.0


From 41fe5f0348e19ad9b68ebacb1b049f3b6f4e6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:28 +0000
Subject: [PATCH 74/85] fix: a fitted peak at exactly zero depth was not marked
 in the figure of the dirty FDF

---
 RMutils/util_plotTk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_plotTk.py b/RMutils/util_plotTk.py
index 85a62fe..f521bd8 100644
--- a/RMutils/util_plotTk.py
+++ b/RMutils/util_plotTk.py
@@ -913,7 +913,7 @@ def plot_dirtyFDF_ax(
         )
 
     # Plot a vertical line
-    if vLine:
+    if vLine is not None:
         ax.axvline(vLine, color="magenta", ls="--", linewidth=1.5)
 
     # Scaling
-- 
2.43.0


From 2c6063a7e9671dc1d623152bbe08547941771f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:28 +0000
Subject: [PATCH 75/85] fix: debug figure of the complexity crashed the run
 when the peak could not be fitted

---
 RMutils/util_plotTk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_plotTk.py b/RMutils/util_plotTk.py
index f521bd8..a80282e 100644
--- a/RMutils/util_plotTk.py
+++ b/RMutils/util_plotTk.py
@@ -2307,6 +2307,9 @@ def plot_complexity_fig(
     nBins = 15
     yMin = np.nanmin([np.nanmin(qArr), np.nanmin(uArr)])
     yMax = np.nanmax([np.nanmax(qArr), np.nanmax(uArr)])
+    if not (np.isfinite(yMin) and np.isfinite(yMax)):
+        # No residuals to draw (e.g. the peak of the FDF could not be fitted)
+        yMin, yMax = -1.0, 1.0
     n, b, p = ax2.hist(
         qArr,
         nBins,
@@ -2456,7 +2459,8 @@ def plot_complexity_fig(
             mDict["sigmaAddU"] + mDict["dSigmaAddPlusU"] * 4.0,
         ]
     )
-    ax6.set_xlim(xLim1, xLim2)
+    if np.isfinite(xLim1) and np.isfinite(xLim2):
+        ax6.set_xlim(xLim1, xLim2)
 
     # Show the figure
     fig.subplots_adjust(
-- 
2.43.0


From 23f8f503c7845d9e55c6fc2a044cce9770fa44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:01 +0000
Subject: [PATCH 76/85] fix: rmsynth1dFITS refused a pixel with zero Stokes Q
 and valid Stokes U

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index f39a54f..32f0582 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -243,7 +243,7 @@ def main():
         else:
             args.units = "Jy/beam"
 
-    if (Q_array != 0).sum() == 0 and (Q_array != 0).sum() == 0:
+    if (Q_array != 0).sum() == 0 and (U_array != 0).sum() == 0:
         raise Exception("All QU values zero! Maybe invalid pixel?")
 
     if args.StokesI_fits is not None:
-- 
2.43.0


From 40e92519c2c262a6eb6464cdcf1534e3893c6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:43 +0000
Subject: [PATCH 77/85] fix: rmsynth1dFITS took a pixel from the opposite edge
 for positions left of or below the image

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 32f0582..b34b7a0 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -227,6 +227,10 @@ def main():
     else:
         xcoords = int(args.xcoords) - 1
         ycoords = int(args.ycoords) - 1
+    # Negative indices would silently count from the opposite edge
+    nY, nX = hduList[0].data.shape[-2:]
+    if not (0 <= xcoords < nX and 0 <= ycoords < nY):
+        raise Exception("The requested pixel is outside of the image.")
     freq_array = get_freq_array(args.dataFile[0])
     Q_array = get_data_Q_U(args.dataFile[0], ycoords, xcoords)
     U_array = get_data_Q_U(args.UFile[0], ycoords, xcoords)
-- 
2.43.0


From 921abae680e73da238e55c59ba245b2602499612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:35 +0000
Subject: [PATCH 78/85] fix: assemblechunks replaced an existing image with a
 blank one before refusing an incomplete set of chunks

---
 RMtools_3D/assemble_chunks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index aba8387..512b376 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -94,6 +94,9 @@ def main():
             "Right now this code only supports FITS files with 2-4 dimensions!"
         )
 
+    if len(chunkfiles) != num_chunks:
+        raise Exception("Number of chunk files found does not match expectations!")
+
     new_header = old_header.copy()
     del new_header["OLDXDIM"]
     del new_header["OLDYDIM"]
@@ -115,9 +118,6 @@ def main():
         )
         fobj.write(b"\0")
 
-    if len(chunkfiles) != num_chunks:
-        raise Exception("Number of chunk files found does not match expectations!")
-
     base_idx_arr = np.array(range(Nperchunk))
 
     large = pf.open(output_filename, mode="update", memmap=args.memmap)
-- 
2.43.0


From 8c496b21f1c5ba1e72ab481c60341a8c77945dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 79/85] fix: extractregion wrote a file without planes for
 channel limits outside the cube or in reverse order

---
 RMtools_3D/extract_region.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 830f577..ae93c96 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -155,6 +155,9 @@ def main():
     if box[2] > box[3]:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
+    if cube_axis > 2 and zlim[0] > zlim[1]:
+        raise Exception("Axis limits incorrect! z_max < z_min!")
+
     # Extract sub-region:
     if header["NAXIS"] == 4:
         if cube_axis == 3:
-- 
2.43.0


From e955957e99e562a40fb2d1dd195823725f1320ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 80/85] fix: peakfitcube scrambled a Stokes I cube of another
 image, and used noise lists of another length

---
 RMtools_3D/RMpeakfit_3D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index a90faf4..80d0451 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -473,11 +473,20 @@ def main():
 
     if args.fitsI is not None:
         dataI = readFitsCube(args.fitsI, args.verbose)[1]
+        if (
+            dataI.shape[0] != lambdaSqArr_m2.size
+            or np.squeeze(dataI[0]).shape != np.squeeze(FDF[0]).shape
+        ):
+            raise Exception(
+                "Stokes I cube does not match the frequency list and the image of the FDF cube."
+            )
         dataI = dataI.reshape((-1,) + FDF.shape[1:])
     else:
         dataI = None
     if args.noiseFile is not None:
         rmsArr = readFreqFile(args.noiseFile, args.verbose)
+        if rmsArr.shape != lambdaSqArr_m2.shape:
+            raise Exception("Noise list and frequency list are not the same length.")
     else:
         rmsArr = None
 
-- 
2.43.0


From 1d39a7a0d431a82fea6c21f6629887df0dbeb03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 81/85] fix: RM-CLEAN accepted the RMSF width map of another,
 larger image

---
 RMutils/util_RM.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index b74757c..9b122c7 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -548,6 +548,11 @@ def do_rmclean_hogbom(
             return None, None, None, None
     else:
         mskArr = np.ones(dirtyFDF.shape[1:], dtype="bool")
+    if np.size(fwhmRMSFArr) != dirtyFDF[0].size or (
+        nDims == 3 and np.shape(fwhmRMSFArr) != dirtyFDF.shape[1:]
+    ):
+        log("Err: the xy dimesions of the RMSF FWHM map and FDF must match.")
+        return None, None, None, None
 
     # Reshape the FDF & RMSF array to 3 dimensions and mask array to 2
     if nDims == 1:
-- 
2.43.0


From b80d21beebfed82c7c569d389909649d6ec8f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:10 +0000
Subject: [PATCH 82/85] fix: 3DIrescale used incomplete sets of coefficient
 maps, and spread a map of one row over the image

---
 RMtools_3D/rescale_I_model_3D.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a94ce95..a992828 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -214,9 +214,14 @@ def read_data(basename):
     for i in range(6):
         try:  # Keep trying higher orders
             data = pf.getdata(basename + f"coeff{i}.fits")
-            coeffs[5 - i] = data
         except FileNotFoundError:
-            break  # Once it runs out of valid coefficient maps, move on
+            # Once it runs out of valid coefficient maps, move on
+            if any(os.path.exists(basename + f"coeff{j}.fits") for j in range(i, 6)):
+                raise Exception(f"Cannot find coeff{i} map, but a higher order exists.")
+            break
+        if data.shape != old_reffreq_map.shape:
+            raise Exception(f"The coeff{i} map has another image size.")
+        coeffs[5 - i] = data
 
     return covar_map, old_reffreq_map, coeffs, header
 
-- 
2.43.0


From 4d1c9ec5ddeee0d5ee397e5f2af2322cfabec971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:43 +0000
Subject: [PATCH 83/85] fix: refuse real and imaginary cubes of different sizes

RM-CLEAN and peakfitcube added the imaginary part to the real part by
broadcasting, so a part with a single row, column or depth channel was
silently spread over the whole cube.
---
 RMtools_3D/RMpeakfit_3D.py  | 5 +++++
 RMtools_3D/do_RMclean_3D.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 80d0451..d50e548 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -278,6 +278,11 @@ def read_files(FDF_filename, freq_filename):
         memmap=True,
     )
     FDFimag = HDUimag[0].data
+    if FDFreal.shape != FDFimag.shape:
+        raise Exception(
+            "The real and imaginary parts have different sizes "
+            "({} and {}): {}".format(FDFreal.shape, FDFimag.shape, FDF_filename)
+        )
     complex_cube = FDFreal + 1j * FDFimag
 
     # Identify Faraday depth axis (assumed to be last one if not explicitly found)
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index edb9b4b..112c087 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -414,6 +414,11 @@ def read_FDF_cubes(filename):
         _component_filename(filename, "im"), "readonly", memmap=True
     )
     FDFimag = HDUimag[0].data
+    if FDFreal.shape != FDFimag.shape:
+        raise Exception(
+            "The real and imaginary parts have different sizes "
+            "({} and {}): {}".format(FDFreal.shape, FDFimag.shape, filename)
+        )
     complex_cube = FDFreal + 1j * FDFimag
 
     # Identify Faraday depth axis (assumed to be last one if not explicitly found)
-- 
2.43.0


From 2935efc3f2ebb6e8a65df881f9fe0819cb845be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:31 +0000
Subject: [PATCH 84/85] fix: assemblechunks refuses chunks of another size
 before it writes

A chunk with a single pixel was spread over the others' places, and any
other unexpected size left a partly filled image behind (with -o in place
of an earlier one).
---
 RMtools_3D/assemble_chunks.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index 512b376..e2fb07a 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -97,6 +97,17 @@ def main():
     if len(chunkfiles) != num_chunks:
         raise Exception("Number of chunk files found does not match expectations!")
 
+    # A chunk of another size would be spread over, or fail part way through,
+    # the new image.
+    for i, file in enumerate(chunkfiles):
+        header = pf.getheader(file)
+        chunk_size = [header["NAXIS{}".format(ii + 1)] for ii in range(header["NAXIS"])]
+        expected_size = [min(Nperchunk, Npix_image - i * Nperchunk)] + [
+            old_header["NAXIS{}".format(ii)] for ii in range(2, Ndim + 1)
+        ]
+        if chunk_size != expected_size:
+            raise Exception("Chunk has an unexpected size: " + file)
+
     new_header = old_header.copy()
     del new_header["OLDXDIM"]
     del new_header["OLDYDIM"]
-- 
2.43.0


From 37a77601460db34499e280e510ae876ffb842995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:31 +0000
Subject: [PATCH 85/85] fix: rmsynth1dFITS refuses U and I cubes of another
 size than Q

A cube with another image was read at the same pixel without notice.
---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index b34b7a0..d935333 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -231,6 +231,13 @@ def main():
     nY, nX = hduList[0].data.shape[-2:]
     if not (0 <= xcoords < nX and 0 <= ycoords < nY):
         raise Exception("The requested pixel is outside of the image.")
+    for other_file in (args.UFile[0], args.StokesI_fits):
+        if other_file is None:
+            continue
+        if fits.getdata(other_file).shape != hduList[0].data.shape:
+            raise Exception(
+                "{} is not the same size as {}.".format(other_file, args.dataFile[0])
+            )
     freq_array = get_freq_array(args.dataFile[0])
     Q_array = get_data_Q_U(args.dataFile[0], ycoords, xcoords)
     U_array = get_data_Q_U(args.UFile[0], ycoords, xcoords)
-- 
2.43.0

