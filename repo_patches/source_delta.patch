From 892505547818887601a07bd641e5dcdaf2248352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 01/38] fix: fit_coeffs(mc>0) crashed for a redshift out of
 range

_fit_coeffs returned two values instead of three on that path.
---
 src/kcorrect/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..3e49899 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,8 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.tile(maggies.reshape(-1, 1), (1, mc))
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From c00fe99f3c7c6bc6a2b6eb1239d444363dff1da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 02/38] fix: fit_coeffs crashed for one object measured in one
 band

Squeezing the single flux produced a 0-d array, which nnls rejects.
---
 src/kcorrect/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 3e49899..0446960 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -412,13 +412,13 @@ class Fitter(object):
         if(n == 1):
             if(mc == 0):
                 coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
+                                          maggies=maggies.reshape(-1),
+                                          ivar=ivar.reshape(-1),
                                           mc=mc)
             else:
                 coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                                                                 maggies=maggies.reshape(-1),
+                                                                 ivar=ivar.reshape(-1),
                                                                  mc=mc)
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
-- 
2.43.0


From 65f1af8721c4e4e5c9107a67443c16c5cd0d7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 03/38] fix: fit_coeffs(mc>0) crashed for a one-element
 redshift array

The reshape used lengths of arrays that had already gained a leading axis.
---
 src/kcorrect/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 0446960..2c2d7d7 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -423,8 +423,8 @@ class Fitter(object):
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
                 if(mc > 0):
-                    coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    coeffs_mc = coeffs_mc.reshape((1,) + coeffs_mc.shape)
+                    maggies_mc = maggies_mc.reshape((1,) + maggies_mc.shape)
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From caf748a42d5b452d616df4c3ab6e1cf91f3bce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 04/38] fix: upper end of redshift_range could fall off the
 redshift grid

Rounding in float32 left the last grid point below redshift_range[1]
for some ranges, so an object at the top of the range got zero
coefficients.
---
 src/kcorrect/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 2c2d7d7..50d6604 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -71,6 +71,8 @@ class Fitter(object):
                           (self.redshift_range[1] - self.redshift_range[0]) *
                           np.arange(nredshift, dtype=np.float32) /
                           np.float32(nredshift - 1))
+        # Rounding must not leave the upper end of the range off the grid
+        self.redshifts[-1] = self.redshift_range[1]
         return
 
     def _interpolate_Amatrix(self, redshifts=None, A=None):
-- 
2.43.0


From b0b845c19358c17617b5200ef82f562ee71f77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 05/38] fix: reconstruct rejected redshifts at the top of
 redshift_range

(1 + z) - 1 exceeds z in float32 for some z, so evaluating at the upper
end of the range raised 'Redshift out of range'.
---
 src/kcorrect/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 50d6604..b2f739c 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -495,7 +495,9 @@ class Fitter(object):
 
         # Consider blueward shift of bandpass due to redshift
         # of observation and due to band_shift
-        shift = (1. + redshift) * (1. + band_shift) - 1.
+        # (same as (1 + redshift) * (1 + band_shift) - 1, but exact for
+        # band_shift=0, so that the ends of the range are not exceeded)
+        shift = redshift + band_shift * (1. + redshift)
 
         # Calculate maggies
         try:
-- 
2.43.0


From bbfd2c9ac79de3fad1ef86f47bbe09a089db544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 06/38] fix: derived(distance=...) crashed on an undefined
 distance modulus

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..750e85a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -255,6 +255,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From 6a5070d0dbbcddf47306e65ed3adaa71a2c8fec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 07/38] fix: derived crashed for arrays when responses_out and
 responses differ in number

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 750e85a..f2f1cdb 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -307,7 +307,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From cece13467a6962d985e77a3cfbcf178350cdb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 08/38] fix: derived crashed for bands without a solar
 magnitude

The docstring promises mtol in per maggy units for those.
---
 src/kcorrect/kcorrect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index f2f1cdb..802cede 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -300,7 +300,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                solar_magnitude = 0.  # leaves mtol per maggy
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From 328986a087fd185003f979e5bd1e838661d18afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 09/38] fix: reconstructed absmags were wrong for other output
 bands or band_shift

The fluxes of the fit were taken in the output bands at the observed
redshift and then K-corrected as if they were in the input bands, which
only cancels if both sets of bands are the same and band_shift is 0.
---
 src/kcorrect/kcorrect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 802cede..a5d1fef 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -583,7 +583,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
+            # maggies of the fit in the output bandpasses at z=0
+            omaggies = self.reconstruct_out(redshift=0. * redshift,
+                                            coeffs=coeffs,
                                             band_shift=band_shift)
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
@@ -591,9 +593,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
             omags[gd] = - 2.5 * np.log10(omaggies[gd])
             absmag_reconstruct = np.zeros(omaggies.shape, dtype=np.float32) - 9999.
             if(array):
-                absmag_reconstruct[gd] = omags[gd] - dm[gd] - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm[gd]
             else:
-                absmag_reconstruct[gd] = omags[gd] - dm - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm
             absmag_reconstruct[bd] = - 9999.
 
         if(limit):
-- 
2.43.0


From 37fee8adb98a1c9faad7b858b0cd3529b6acdb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 10/38] fix: absmag limits were returned for objects without a
 fit

The docstring promises -9999 unless the object has positive coefficients.
---
 src/kcorrect/kcorrect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index a5d1fef..522fcac 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -600,9 +600,11 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
-            gd = np.where(use_ivar > 0.)
-            bd = np.where(use_ivar <= 0.)
-            
+            # no limit without a fit to K-correct it with
+            nofit = np.expand_dims(coeffs.sum(axis=-1) <= 0., axis=-1)
+            gd = np.where((use_ivar > 0.) & ~nofit)
+            bd = np.where((use_ivar <= 0.) | nofit)
+
             lmags = np.zeros(use_maggies.shape, dtype=np.float32)
             lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
 
-- 
2.43.0


From dca05bf1e87134bc3a24edf33c88316a3d547d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 11/38] fix: absmag_mc assumed as many output bands as input
 bands

Its results were broadcast to, or did not fit in, arrays with the number
of input bands.
---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 522fcac..b3a049b 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -676,11 +676,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From da1c15aaff60259cf0e412c492fd17f45d0c4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 12/38] fix: KcorrectGST AB correction was written into the
 caller's arrays

A second call with the same float32 arrays (fit_coeffs, then absmag)
corrected them twice. The branch without ivar crashed.
---
 src/kcorrect/kcorrect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index b3a049b..c031843 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1156,11 +1156,13 @@ class KcorrectGST(Kcorrect):
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
+            maggies = np.array(maggies, dtype=np.float32)
+            ivar = np.array(ivar, dtype=np.float32)
             maggies[..., 2:7] = smaggies
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
+            maggies = np.array(maggies, dtype=np.float32)
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From 4854fc6d9f36edf43c4ca1c6703c2248326e94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 13/38] fix: absmag_mc applied the AB correction to fluxes that
 already had it

fit_coeffs(mc>0) returns the Monte Carlo maggies after to_ab(); absmag_mc
passed them to absmag, which called to_ab() again, so that e.g. the
KcorrectSDSS Monte Carlo u-band absmags were off by 0.036.
---
 src/kcorrect/fitter.py   | 12 +++++++++---
 src/kcorrect/kcorrect.py | 14 ++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index b2f739c..107c4eb 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -235,7 +235,7 @@ class Fitter(object):
             return(coeffs, coeffs_mc, maggies_mc)
 
     def _process_inputs(self, redshift=None, maggies=None, ivar=None,
-                        coeffs=None):
+                        coeffs=None, abcorrect=None):
         """Returns whether input should be an array, and casts everything right
 
         Parameters
@@ -253,6 +253,9 @@ class Fitter(object):
         coeffs : a quantity or ndarray, or None
             input coeffs
 
+        abcorrect : bool or None
+            whether to correct to AB (None for the abcorrect attribute)
+
         Returns
         -------
 
@@ -345,7 +348,10 @@ class Fitter(object):
                 if(coeffs.shape[0] != self.templates.nsed):
                     raise ValueError("ivar must have values for each band")
 
-        if(self.abcorrect):
+        if(abcorrect is None):
+            abcorrect = self.abcorrect
+
+        if(abcorrect):
             if(maggies is not None):
                 if(ivar is not None):
                     maggies, ivar = self.to_ab(maggies=maggies, ivar=ivar)
@@ -382,7 +388,7 @@ class Fitter(object):
             [ntemplates, mc] coefficients for each MC for each template
 
         maggies_mc : ndarray of np.float32
-            [nbands, mc] Monte Carlo maggies
+            [nbands, mc] Monte Carlo maggies (AB, i.e. after to_ab())
 
         Notes
         -----
diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index c031843..6913ce1 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -472,7 +472,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
     def absmag(self, maggies=None, ivar=None, redshift=None, coeffs=None,
                band_shift=0., distance=None, reconstruct=False, limit=False,
-               kcorrect=False):
+               kcorrect=False, abcorrect=None):
         """Return absolute magnitude in output bands
 
         Parameters
@@ -505,6 +505,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         kcorrect : bool
             if set, return kcorrect
 
+        abcorrect : bool or None
+            whether to correct maggies to AB (None for the abcorrect attribute)
+
         Returns
         -------
 
@@ -549,7 +552,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
 """
         (array, n, redshift, maggies, ivar,
          coeffs) = self._process_inputs(redshift=redshift, maggies=maggies,
-                                        ivar=ivar, coeffs=coeffs)
+                                        ivar=ivar, coeffs=coeffs,
+                                        abcorrect=abcorrect)
 
         if(distance is not None):
             (array, n, distance, d1, d2,
@@ -638,7 +642,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
             [ngalaxy] redshift(s) for K-correction
 
         maggies_mc : ndarray of np.float32
-            [ngalaxy, nbands, mc] fluxes of each band in maggies
+            [ngalaxy, nbands, mc] AB fluxes of each band in maggies
+            (as returned by fit_coeffs())
 
         ivar : ndarray of np.float32
             [ngalaxy, nbands] inverse variance of each band
@@ -685,7 +690,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-                              distance=distance, reconstruct=reconstruct, kcorrect=kcorrect)
+                              distance=distance, reconstruct=reconstruct, kcorrect=kcorrect,
+                              abcorrect=False)
             if((reconstruct is False) & (kcorrect is False)):
                 absmag_mc[..., imc] = out
             else:
-- 
2.43.0


From f3a65334e89a7837e75f08f02d5de1d1d268555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 14/38] fix: Kcorrect.tofits crashed with NumPy 2

np.compat.unicode is gone; the failure came after the templates had been
written, leaving an incomplete file.
---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 6913ce1..07bb7b4 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -755,19 +755,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', str, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', str, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', str, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From 5c7e9ab8d78742435050bed51e8436d70198f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 15/38] fix: saved Kcorrect objects lost their redshift_range

It was stored as integers, and nredshift, redshift_range and abcorrect
came back with an extra axis.
---
 src/kcorrect/kcorrect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 07bb7b4..59d9163 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -744,7 +744,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
@@ -803,9 +803,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
         self.redshifts = hdul['REDSHIFTS'].data
         self.responses = list(hdul['RESPONSES'].data['responses'])
-- 
2.43.0


From 72077df36be05f37a09ecb06024d380523b4ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 16/38] fix: output responses were not loaded with a saved
 Kcorrect object

derived() of the reloaded object failed unless something else had loaded
them before.
---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 59d9163..bf1a0df 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -813,7 +813,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
 
         f = kcorrect.response.ResponseDict()
-        for response in self.responses:
+        for response in self.responses + self.responses_out:
             f.load_response(response)
 
         A = hdul['A'].data
-- 
2.43.0


From 57375c7ebd5cbf316b21af49e076e04be900c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 17/38] fix: fromfits on an existing Kcorrect object kept its
 old band map

Only the constructor recalculated imap, so kcorrect() and absmag() used
the wrong observed bands after a call to the public fromfits().
---
 src/kcorrect/kcorrect.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index bf1a0df..5fbf873 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -168,13 +168,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
             else:
                 self.AmatrixOut = self._calc_Amatrix(responses=self.responses_out)
 
-        # Get index map to calculate kcorrection
-        self.imap = np.zeros(len(self.responses_map), dtype=int)
-        for i, response in enumerate(self.responses_map):
-            try:
-                self.imap[i] = self.responses.index(response)
-            except ValueError:
-                raise ValueError("responses_map must contain only responses defined in responses")
+            # Get index map to calculate kcorrection
+            self._set_imap()
 
         # Initialize cosmology used for derived properties and absmag
         if(cosmo is not None):
@@ -184,6 +179,16 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         return
 
+    def _set_imap(self):
+        """Set imap, index in responses of each element of responses_map"""
+        self.imap = np.zeros(len(self.responses_map), dtype=int)
+        for i, response in enumerate(self.responses_map):
+            try:
+                self.imap[i] = self.responses.index(response)
+            except ValueError:
+                raise ValueError("responses_map must contain only responses defined in responses")
+        return
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -821,6 +826,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=A)
         self.AmatrixOut = self._interpolate_Amatrix(redshifts=self.redshifts,
                                                     A=Aout)
+        self._set_imap()
 
         hdul.close()
         return
-- 
2.43.0


From 24bcf18382304457211501b40f7ae157b6a11a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 18/38] fix: a failed load_response left a broken entry in
 ResponseDict

The entry was made before the file was read, so a second attempt to load
a missing or invalid response returned silently and users of the entry
crashed later; a failed reload destroyed the good entry.
---
 src/kcorrect/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..1a5d605 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,9 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        loaded = Response()
+        loaded.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = loaded
         return
 
 
-- 
2.43.0


From 378a2e8fdcbab7b6f86f73fcba549646309fd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 19/38] fix: all_responses(check_validity=True) ignored
 response_dir

It checked the file of the same name in the package's own directory, so
valid files in response_dir were dropped and invalid ones listed.
---
 src/kcorrect/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 1a5d605..3cf5d7e 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -69,7 +69,9 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 valid = True
                 if(check_validity):
                     try:
-                        f.load_response(response)
+                        loaded = Response()
+                        loaded.fromdat(filename=os.path.abspath(os.path.join(rdir, filename)))
+                        f.setdefault(response, loaded)
                     except:
                         valid = False
                 if(valid):
-- 
2.43.0


From 18d94609c03ee4e7b44e2b4d79b44ebf896d71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 20/38] fix: project returned 0 for a bandpass between two
 samples of the SED

A narrow bandpass well within the range of a coarsely sampled SED was
treated as if it were outside of it.
---
 src/kcorrect/response.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 3cf5d7e..9a6e405 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -377,12 +377,14 @@ class Response(object):
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         ikeep = np.where(keep)[0]
         if(len(ikeep) == 0):
-            return(0.)
-
-        if(ikeep[0] > 0):
-            keep[ikeep[0] - 1] = 1
-        if(ikeep[-1] < len(sed_wave) - 1):
-            keep[ikeep[-1] + 1] = 1
+            if((sed_wave[-1] < self.wave[0]) | (sed_wave[0] > self.wave[-1])):
+                return(0.)
+            # otherwise bandpass is between two samples of the SED
+        else:
+            if(ikeep[0] > 0):
+                keep[ikeep[0] - 1] = 1
+            if(ikeep[-1] < len(sed_wave) - 1):
+                keep[ikeep[-1] + 1] = 1
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From b9392256ec7afdc17f3ae62011860a473a016d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 21/38] fix: project returned one value for many SEDs outside
 of the bandpass

---
 src/kcorrect/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 9a6e405..4626d45 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -378,7 +378,7 @@ class Response(object):
         ikeep = np.where(keep)[0]
         if(len(ikeep) == 0):
             if((sed_wave[-1] < self.wave[0]) | (sed_wave[0] > self.wave[-1])):
-                return(0.)
+                return(np.squeeze(np.zeros(nsed, dtype=np.float32)))
             # otherwise bandpass is between two samples of the SED
         else:
             if(ikeep[0] > 0):
-- 
2.43.0


From 561121618e34b296aa1f35cc883f2240a05190cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 22/38] fix: sdss_asinh_to_maggies did not apply the extinction
 to ivar

The maggies were scaled up by the extinction but not their errors, so
that extincted objects were given too much weight.
---
 src/kcorrect/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..880d242 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -307,7 +307,8 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
-            maggies_ivar[..., k] = 1. / maggies_err**2
+            maggies_ivar[..., k] = (10.**(- 0.8 * extinction[..., k]) /
+                                    maggies_err**2)
 
     if(mag_err is None):
         return(maggies)
-- 
2.43.0


From 15a00aad87ba857e3cd7fa4d66f3d9cf9c358330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 23/38] fix: SED.fromfits crashed on tables with more than one
 row

The docstring says that only the first row is imported.
---
 src/kcorrect/template.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index dbc6f9a..a3fda03 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -169,6 +169,10 @@ class SED(object):
             sed = sed_hdus[ext].data
             self.restframe_wave = sed['wave']
             self.restframe_flux = sed['flux']
+            # only the first row is used
+            if(self.restframe_wave.ndim > 1):
+                self.restframe_wave = self.restframe_wave[0]
+                self.restframe_flux = self.restframe_flux[0]
         if(len(self.restframe_flux.shape) > 1):
             nsed = self.restframe_flux.shape[-2]
         else:
-- 
2.43.0


From e5a2a9c170f378a892ec50b6ab168fbf41fa65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 24/38] fix: SED.tofits(clobber=False) did not add HDUs to an
 existing file

The docstring says that it does; it raised OSError. (Template.tofits
still refuses to touch an existing file.)
---
 src/kcorrect/template.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index a3fda03..4b1277b 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -5,6 +5,8 @@
 # @License: BSD 3-clause (http://www.opensource.org/licenses/BSD-3-Clause)
 
 
+import os
+
 import astropy.io.fits as fits
 import matplotlib.pyplot as plt
 import numpy as np
@@ -217,14 +219,22 @@ class SED(object):
             fhdu = fits.ImageHDU(self.restframe_flux, name='FLUX')
             fhdu.header['BINIMAGE'] = 'T'
             hdul.append(fhdu)
-            hdul.writeto(filename, overwrite=clobber)
         else:
             out = np.zeros(1, self.sed_dtype())
             out['wave'] = self.restframe_wave
             out['flux'] = self.restframe_flux
 
-            hdu = fits.BinTableHDU(out, name=ext)
-            hdu.writeto(filename, overwrite=clobber)
+            hdul = fits.HDUList([fits.PrimaryHDU(),
+                                 fits.BinTableHDU(out, name=ext)])
+
+        if((clobber is False) and os.path.exists(filename)):
+            # add the HDUs with data to the existing file
+            with fits.open(filename, mode='append') as existing:
+                for hdu in hdul:
+                    if(hdu.data is not None):
+                        existing.append(hdu)
+        else:
+            hdul.writeto(filename, overwrite=clobber)
         return
 
     def set_redshift(self, redshift=0.):
@@ -418,6 +428,8 @@ class Template(SED):
             if True, overwrite existing file
 
 """
+        if((clobber is False) and os.path.exists(filename)):
+            raise OSError("File {f} already exists".format(f=filename))
         super().tofits(filename=filename, clobber=clobber)
         hdul = fits.open(filename, mode='update')
         hdu = fits.ImageHDU(self.intsfh, name='INTSFH')
-- 
2.43.0


From 1f5a12cf2da09934370623558aa0b09649fc3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 25/38] fix: Response.tofits ignored ext and did not add HDUs
 with clobber=False

Both are described in the docstring; the extension was never named and
an existing file raised OSError.
---
 src/kcorrect/response.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 4626d45..2945e3c 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -10,7 +10,6 @@ import re
 
 import astropy.io.ascii
 import astropy.io.fits
-import astropy.table
 import numpy as np
 import scipy.integrate as integrate
 import scipy.interpolate as interpolate
@@ -309,9 +308,13 @@ class Response(object):
         out['wave'] = self.wave
         out['response'] = self.response
 
-        out_table = astropy.table.Table(out)
+        hdu = astropy.io.fits.BinTableHDU(out, name=ext)
 
-        out_table.write(filename, overwrite=clobber)
+        if((clobber is False) and os.path.exists(filename)):
+            with astropy.io.fits.open(filename, mode='append') as hdul:
+                hdul.append(hdu)
+        else:
+            hdu.writeto(filename, overwrite=clobber)
         return
 
     def project(self, sed=None, wave=None, flux=None):
-- 
2.43.0


From e31193c0da4c0730605cb3e4bbad4be9c1c7b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 26/38] fix: threads could end up with different ResponseDict
 singletons

Two threads could both find no instance and each create one; responses
loaded through one were then missing from the other.
---
 src/kcorrect/response.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 2945e3c..c6265b1 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -7,6 +7,7 @@
 
 import os
 import re
+import threading
 
 import astropy.io.ascii
 import astropy.io.fits
@@ -81,11 +82,13 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
 # Class to define a singleton
 class ResponseDictSingleton(type):
     _instances = {}
+    _lock = threading.Lock()
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super(ResponseDictSingleton,
-                                        cls).__call__(*args, **kwargs)
+        with cls._lock:
+            if cls not in cls._instances:
+                cls._instances[cls] = super(ResponseDictSingleton,
+                                            cls).__call__(*args, **kwargs)
         return cls._instances[cls]
 
 
-- 
2.43.0


From 9bf82e23fa7753bb6b34236c8089497bacec7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 27/38] fix: invalid input to the unit conversions was
 misreported or accepted

The checks raised strings (a TypeError hiding the message), and
sdss_ab_correct returned zeros for the sixth and later bands of 2-D
input instead of rejecting it.
---
 src/kcorrect/utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 880d242..abe4856 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -158,16 +158,17 @@ def sdss_ab_correct(maggies=None, ivar=None,
         ivar = np.float32(ivar)
 
         if(maggies.shape != ivar.shape):
-            raise("maggies and ivar must be the same shape")
+            raise ValueError("maggies and ivar must be the same shape")
 
     abfix = np.array(abfix, dtype=np.float32)
     if(abfix.shape != (5,)):
-        raise("abfix must have 5 values")
+        raise ValueError("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
+    if((maggies.ndim == 0) or (maggies.shape[-1] != 5)):
+        raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+
     if(maggies.ndim == 1):
-        if(maggies.size != 5):
-            raise("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = maggies * abfac
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
@@ -217,10 +218,10 @@ def error_floor(floor=None, maggies=None, ivar=None):
         array = True
 
     if(maggies.shape[-1] != floor.shape[0]):
-        raise("floor must have same number of responses as maggies")
+        raise ValueError("floor must have same number of responses as maggies")
 
     if(maggies.shape != ivar.shape):
-        raise("maggies and ivar must be same shape")
+        raise ValueError("maggies and ivar must be same shape")
 
     if(array):
         for i in np.arange(floor.size):
@@ -278,17 +279,17 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
     if(mag_err is not None):
         mag_err = np.float32(mag_err)
         if(mag.shape != mag_err.shape):
-            raise("mag and mag_err must be the same shape")
+            raise ValueError("mag and mag_err must be the same shape")
 
     if(extinction is not None):
         extinction = np.float32(extinction)
         if(mag.shape != extinction.shape):
-            raise("mag and extinction must be the same shape")
+            raise ValueError("mag and extinction must be the same shape")
     else:
         extinction = np.zeros(mag.shape, dtype=np.float32)
 
     if(mag.shape[-1] != 5):
-        raise("mag must have 5 values per object")
+        raise ValueError("mag must have 5 values per object")
 
     b0 = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10],
                   dtype=np.float32)
-- 
2.43.0


From fe1c262ce0dd12555f30756e5e883aef579bfe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 28/38] fix: pass integrand and wavelength to trapezoid in the
 right order

They were swapped, which only gives the right ratio of integrals when the
response is zero at both ends of its wavelength grid (203 shipped responses
are not; epsi_I got an effective wavelength of 14719 instead of 8522).
---
 src/kcorrect/response.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index c6265b1..cc10f37 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -403,17 +403,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
@@ -435,11 +435,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 8b15affff02a18376387144c948d7683d20158e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 29/38] fix: integrate projections over the bandpass only

The sample of the SED next to the bandpass on each side was included in the
integration grid, where the response is zero. For a response that is not zero
at its end this integrates a ramp from the end to that sample (a 100 A top hat
on a coarsely sampled spectrum was off by 2 per cent).
---
 src/kcorrect/response.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index cc10f37..36a655b 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -381,16 +381,10 @@ class Response(object):
 
         # Find SED wavelengths to integrate over
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
-        ikeep = np.where(keep)[0]
-        if(len(ikeep) == 0):
+        if(keep.any() == False):
             if((sed_wave[-1] < self.wave[0]) | (sed_wave[0] > self.wave[-1])):
                 return(np.squeeze(np.zeros(nsed, dtype=np.float32)))
             # otherwise bandpass is between two samples of the SED
-        else:
-            if(ikeep[0] > 0):
-                keep[ikeep[0] - 1] = 1
-            if(ikeep[-1] < len(sed_wave) - 1):
-                keep[ikeep[-1] + 1] = 1
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From 8785ad1f74713f441047702b4a7f64591a9a375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 30/38] fix: do not truncate long response names in saved
 objects

A response given as a path of more than 200 characters was cut off on saving,
so that the saved object could not be read back.
---
 src/kcorrect/kcorrect.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 5fbf873..5963db5 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -760,19 +760,23 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', str, 200)])
+        # names can be full paths of any length
+        nname = max([200] + [len(r) for r in (list(self.responses) + list(self.responses_out) +
+                                              list(self.responses_map))])
+
+        responses_dtype = np.dtype([('responses', str, nname)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', str, 200)])
+        responses_dtype = np.dtype([('responses_out', str, nname)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', str, 200)])
+        responses_dtype = np.dtype([('responses_map', str, nname)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From e535d37a4e4b82bff295daad4c72ce67669596bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 31/38] fix: raise ValueError for a scalar flux in
 Response.project

---
 src/kcorrect/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 36a655b..8dc40ee 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -363,10 +363,10 @@ class Response(object):
             flux = np.float32(flux)
             if(wave.ndim != 1):
                 raise ValueError("wave must be 1-D array")
+            if((flux.ndim < 1) or (flux.ndim > 2)):
+                raise ValueError("flux must be 1-D or 2-D array")
             if(flux.shape[-1] != wave.shape[0]):
                 raise ValueError("last axis of flux must match wave")
-            if(flux.ndim > 2):
-                raise ValueError("flux must be 1-D or 2-D array")
             sed_wave = wave
             if(flux.ndim == 1):
                 nsed = 1
-- 
2.43.0


From efc37305074cb9b6133ea6bb967d306f7d535a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 32/38] fix: raise when a saved file could not be written
 completely

---
 src/kcorrect/kcorrect.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 5963db5..6e0c8a6 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -791,6 +791,11 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul.append(hdu)
 
         hdul.writeto(filename, overwrite=True)
+
+        # The last data written may fail to reach the disk without an error
+        nbytes = sum([hdu.filebytes() for hdu in hdul])
+        if(os.path.getsize(filename) != nbytes):
+            raise OSError("File {f} could not be written completely".format(f=filename))
         return
 
     def fromfits(self, filename=None):
-- 
2.43.0


From 44bb5a0357ab357cc8275565764c0a74cf9d922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 33/38] fix: project spectra whose samples are not in
 increasing order between which a bandpass lies

---
 src/kcorrect/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 8dc40ee..99e8cfa 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -382,7 +382,7 @@ class Response(object):
         # Find SED wavelengths to integrate over
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         if(keep.any() == False):
-            if((sed_wave[-1] < self.wave[0]) | (sed_wave[0] > self.wave[-1])):
+            if((sed_wave.max() < self.wave[0]) | (sed_wave.min() > self.wave[-1])):
                 return(np.squeeze(np.zeros(nsed, dtype=np.float32)))
             # otherwise bandpass is between two samples of the SED
 
-- 
2.43.0


From a0fe63081dc0392f21872b72ce16daa4d2418510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 34/38] fix: do not take an interrupted or failed read of M50
 for a file without M50

The bare except clause also caught KeyboardInterrupt, MemoryError and read
errors, silently leaving m50 at zero.
---
 src/kcorrect/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index 4b1277b..2e6142c 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -410,7 +410,7 @@ class Template(SED):
         self.m1000 = hdul['M1000'].data
         try:
             self.m50 = hdul['M50'].data
-        except:
+        except KeyError:
             self.m50 = self.m300 * 0.
 
         return
-- 
2.43.0


From dee8bcfc3096d80ab394704d1e0cc8ad40442f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 35/38] fix: let an interruption of all_responses() reach the
 caller

The bare except clause took Ctrl-C while reading a response for that
response being invalid, and left it out of the list.
---
 src/kcorrect/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 99e8cfa..e9e0c32 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -72,7 +72,7 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                         loaded = Response()
                         loaded.fromdat(filename=os.path.abspath(os.path.join(rdir, filename)))
                         f.setdefault(response, loaded)
-                    except:
+                    except Exception:
                         valid = False
                 if(valid):
                     responses.append(response)
-- 
2.43.0


From 9954a36316cac51a7db494244d2190fa010af98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 36/38] fix: derived() loads the responses it needs

A Kcorrect object unpickled in a new process (a worker started by
multiprocessing's spawn method, for example) could be used for fits,
K-corrections and absolute magnitudes, but derived() raised KeyError because
the output responses were not in that process's ResponseDict.
---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 6e0c8a6..b1544eb 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -305,6 +305,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
+            f.load_response(response)
             solar_magnitude = f[response].solar_magnitude
             if(solar_magnitude is None):
                 solar_magnitude = 0.  # leaves mtol per maggy
-- 
2.43.0


From be8bd871b3e50019475222a58b1f2cac61dd32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 37/38] fix: absolute magnitudes of missing (NaN) fluxes are
 undefined

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index b1544eb..c2cf833 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -581,7 +581,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         mags = np.zeros(use_maggies.shape, dtype=np.float32)
         mags[gd] = - 2.5 * np.log10(use_maggies[gd])
 
-        absmag = np.zeros(use_maggies.shape, dtype=np.float32)
+        absmag = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
 
         if(array):
             dm = np.outer(dm, np.ones(len(self.responses_out),
-- 
2.43.0


From 38fcf240e1418dbee4ae9d12f9d16c71ce52de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 38/38] fix: saved objects with plain spectra as templates can
 be read back

---
 src/kcorrect/kcorrect.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index c2cf833..47c4a30 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -813,10 +813,15 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         Expects format of tofits() output.
 """
-        self.templates = kcorrect.template.Template(filename=filename)
-
         hdul = fits.open(filename)
 
+        # templates that are plain spectra have no physical properties
+        if('INTSFH' in hdul):
+            self.templates = kcorrect.template.Template(filename=filename)
+        else:
+            self.templates = kcorrect.template.SED(filename=filename,
+                                                   interpolate=False)
+
         data = hdul['DATA'].data
         self.nredshift = int(data['nredshift'][0])
         self.redshift_range = np.float32(data['redshift_range'][0])
-- 
2.43.0

