From 4ecb14533b6559c2b4f7f6263f58f4710b693733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 01/36] fix: Kcorrect.tofits() works with NumPy 2 (np.compat is
 gone)

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..298e703 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -740,19 +740,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', str, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', str, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', str, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From a04ffc8b2dd25df9d7d552b07f3aa62255f35e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 02/36] fix: Kcorrect.tofits() keeps the fractional part of
 redshift_range

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 298e703..228459b 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -729,7 +729,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
-- 
2.43.0


From 2891a7de7bee0b351a20e4b35d92fe76682bb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 03/36] fix: Kcorrect.fromfits() loads the output responses too

derived() looks them up in ResponseDict, so it failed in a fresh process.
---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 228459b..e2f807f 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -798,7 +798,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
 
         f = kcorrect.response.ResponseDict()
-        for response in self.responses:
+        for response in self.responses + self.responses_out:
             f.load_response(response)
 
         A = hdul['A'].data
-- 
2.43.0


From a7d8619f1a2f13b50a62ce103988b11c7db65684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 04/36] fix: Kcorrect.fromfits() restores scalar attributes as
 scalars

nredshift, redshift_range and abcorrect came back with an extra leading
table-row axis.
---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index e2f807f..683ee59 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -788,9 +788,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
         self.redshifts = hdul['REDSHIFTS'].data
         self.responses = list(hdul['RESPONSES'].data['responses'])
-- 
2.43.0


From 6d76c446d1db6aa51f2d1edf2c58330fdf015cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 05/36] fix: Kcorrect.derived() works when distance is given
 (dm was undefined)

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 683ee59..0ce7011 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -255,6 +255,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From ef911aa46bc2ca1bd0d1fd440116d85c2c2a90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 06/36] fix: Kcorrect.derived() handles arrays when
 responses_out differs in length from responses

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 0ce7011..a7be3e4 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -307,7 +307,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From ac1e511df005ac6c259c5a21de06411529c935ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 07/36] fix: Kcorrect.derived() handles output responses
 without a solar magnitude

The docstring promises mtol per maggy for these; it raised TypeError.
---
 src/kcorrect/kcorrect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index a7be3e4..1bf0abc 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -300,7 +300,11 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                # no solar magnitude defined; mtol will be per maggy
+                solar_magnitude = 0.
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From ddef2cdb947138471b20cb680c55fcd583638ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 08/36] fix: reconstructed absolute magnitudes for shifted or
 mapped output bands

They were computed from the output bands at the observed redshift minus a
K-correction defined relative to the input bands, which only cancels when
output and input bands are the same and band_shift is zero.
---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 1bf0abc..58f1a75 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -584,7 +584,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
+            # model maggies in the rest frame output bands
+            omaggies = self.reconstruct_out(redshift=0. * redshift, coeffs=coeffs,
                                             band_shift=band_shift)
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
@@ -592,9 +593,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
             omags[gd] = - 2.5 * np.log10(omaggies[gd])
             absmag_reconstruct = np.zeros(omaggies.shape, dtype=np.float32) - 9999.
             if(array):
-                absmag_reconstruct[gd] = omags[gd] - dm[gd] - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm[gd]
             else:
-                absmag_reconstruct[gd] = omags[gd] - dm - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm
             absmag_reconstruct[bd] = - 9999.
 
         if(limit):
-- 
2.43.0


From 81e274c2c6f3259ca3e7d2b14730ae53dfd44d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 09/36] fix: absmag_mc() output has one entry per output band,
 not per input band

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 58f1a75..ff87c7c 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -674,11 +674,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape_mc = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape_mc, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape_mc, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape_mc, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From 277788c53777020b7778e056b065453f90e0471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 10/36] fix: KcorrectGST.to_ab() does not overwrite the
 caller's arrays

np.float32() of a float32 array is that same array, so fit_coeffs() and
absmag() corrected the user's input in place, and a second call corrected it
twice. Also let to_ab() be called without ivar, as documented.
---
 src/kcorrect/kcorrect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index ff87c7c..cd1e013 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1154,11 +1154,13 @@ class KcorrectGST(Kcorrect):
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
+            maggies = np.array(maggies)
+            ivar = np.array(ivar)
             maggies[..., 2:7] = smaggies
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
+            maggies = np.array(maggies)
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From 0278c2335eabe71a7a43dd400eaecfe862e1beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 11/36] fix: Monte Carlo fit of an out-of-range redshift
 returns all three results

---
 src/kcorrect/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..f3fb389 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,8 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From 4ac94af08e25e51a59e86f18a8783664fc1ab54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 12/36] fix: Monte Carlo fit of a one-element redshift array

---
 src/kcorrect/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f3fb389..03b2879 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -423,8 +423,8 @@ class Fitter(object):
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
                 if(mc > 0):
-                    coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    coeffs_mc = coeffs_mc.reshape((1,) + coeffs_mc.shape)
+                    maggies_mc = maggies_mc.reshape((1,) + maggies_mc.shape)
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From fa384d9adb38e328283d9f92e0d80cb3b35893d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 13/36] fix: fit a single object with a single band

np.squeeze() removed the band axis too when there is only one band.
---
 src/kcorrect/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 03b2879..a477a83 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -412,13 +412,13 @@ class Fitter(object):
         if(n == 1):
             if(mc == 0):
                 coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
+                                          maggies=maggies.reshape(-1),
+                                          ivar=ivar.reshape(-1),
                                           mc=mc)
             else:
                 coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                                                                 maggies=maggies.reshape(-1),
+                                                                 ivar=ivar.reshape(-1),
                                                                  mc=mc)
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
-- 
2.43.0


From faf5b7ce57e809260019bd74489e3d51cb10006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 14/36] fix: the redshift grid ends exactly at the requested
 maximum

Single-precision rounding could put the last grid point just below it (e.g.
[0., 0.35] with nredshift=100), and an object at the maximum redshift was then
silently given zero coefficients.
---
 src/kcorrect/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index a477a83..443f490 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -71,6 +71,8 @@ class Fitter(object):
                           (self.redshift_range[1] - self.redshift_range[0]) *
                           np.arange(nredshift, dtype=np.float32) /
                           np.float32(nredshift - 1))
+        # rounding must not leave the requested maximum outside of the grid
+        self.redshifts[-1] = self.redshift_range[1]
         return
 
     def _interpolate_Amatrix(self, redshifts=None, A=None):
-- 
2.43.0


From 22ed2514b3f498846d0bf13ab242e2cef403fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 15/36] fix: a failed load_response() leaves ResponseDict as it
 was

It left an empty Response behind, so that the second load of a bad name
succeeded and a failed reload destroyed a good entry.
---
 src/kcorrect/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..b0c50f1 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,9 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        new_response = Response()
+        new_response.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = new_response
         return
 
 
-- 
2.43.0


From 95edccb00d40ba76063653aa6ac65175e34c6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 16/36] fix: sdss_asinh_to_maggies() applies the extinction to
 ivar too

The fluxes were corrected but not their errors, so that the signal to noise
grew with extinction.
---
 src/kcorrect/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..ef6e7d4 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -307,6 +307,8 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
+            # error of the extinction corrected maggies
+            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
             maggies_ivar[..., k] = 1. / maggies_err**2
 
     if(mag_err is None):
-- 
2.43.0


From ae8327aa90f46034505e23997386c1e9579205c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 17/36] fix: project an SED with no samples inside the bandpass

If the SED grid was coarser than the bandpass, so that the whole bandpass fell
between two SED samples, the projection was silently 0 instead of using the
interpolated SED.
---
 src/kcorrect/response.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b0c50f1..1a55a24 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -375,12 +375,14 @@ class Response(object):
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         ikeep = np.where(keep)[0]
         if(len(ikeep) == 0):
-            return(0.)
-
-        if(ikeep[0] > 0):
-            keep[ikeep[0] - 1] = 1
-        if(ikeep[-1] < len(sed_wave) - 1):
-            keep[ikeep[-1] + 1] = 1
+            # No overlap, unless the SED grid is coarser than the bandpass
+            if((sed_wave.max() < self.wave[0]) | (sed_wave.min() > self.wave[-1])):
+                return(0.)
+        else:
+            if(ikeep[0] > 0):
+                keep[ikeep[0] - 1] = 1
+            if(ikeep[-1] < len(sed_wave) - 1):
+                keep[ikeep[-1] + 1] = 1
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From ed4970f248ae5f731b0a794859d79b94299a69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 18/36] fix: all_responses(check_validity=True) checks the
 files in response_dir

It loaded the names from the distribution's directory whatever response_dir
was, so that valid files elsewhere were reported as invalid.
---
 src/kcorrect/response.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 1a55a24..4d7b8ab 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -69,7 +69,10 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 valid = True
                 if(check_validity):
                     try:
-                        f.load_response(response)
+                        new_response = Response()
+                        new_response.fromdat(os.path.abspath(os.path.join(rdir, filename)))
+                        if(response not in f):
+                            f[response] = new_response
                     except:
                         valid = False
                 if(valid):
-- 
2.43.0


From 6769947e02f8ca1422ddec757898a6e47d6b64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 19/36] fix: absmag_limit is -9999 if all coefficients are
 zero, as documented

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index cd1e013..79be2bb 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -600,9 +600,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
-            gd = np.where(use_ivar > 0.)
-            bd = np.where(use_ivar <= 0.)
-            
+            notzero = coeffs.sum(axis=-1, keepdims=True) > 0.
+            gd = np.where((use_ivar > 0.) & notzero)
+            bd = np.where((use_ivar <= 0.) | (notzero == False))
+
             lmags = np.zeros(use_maggies.shape, dtype=np.float32)
             lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
 
-- 
2.43.0


From 0906afb21f122b5fee60e91af968d7b34665034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 20/36] fix: sdss_ab_correct() rejects multi-object arrays
 without 5 bands

Extra bands were silently returned as zero.
---
 src/kcorrect/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index ef6e7d4..05ca8ad 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -165,6 +165,9 @@ def sdss_ab_correct(maggies=None, ivar=None,
         raise("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
+    if(maggies.shape[-1:] != (5,)):
+        raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+
     if(maggies.ndim == 1):
         if(maggies.size != 5):
             raise("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
-- 
2.43.0


From 867fc9f02d07e29594fb80362f7a918829e4cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 21/36] fix: reconstruct at exactly the maximum redshift

(1 + z)(1 + band_shift) - 1 was rounded up in single precision for many
maximum redshifts (0.07, 0.1, 0.2, ...), so that reconstruct() and kcorrect()
raised ValueError at the end of the range for which fit_coeffs() works.
---
 src/kcorrect/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 443f490..c87f091 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -494,8 +494,9 @@ class Fitter(object):
          coeffs) = self._process_inputs(redshift=redshift, coeffs=coeffs)
 
         # Consider blueward shift of bandpass due to redshift
-        # of observation and due to band_shift
-        shift = (1. + redshift) * (1. + band_shift) - 1.
+        # of observation and due to band_shift; i.e. (1 + z)(1 + band_shift) - 1,
+        # written so that rounding cannot take redshift itself out of range
+        shift = redshift + (1. + redshift) * band_shift
 
         # Calculate maggies
         try:
-- 
2.43.0


From e228ce41745e99ddaf325ac65692b3ecd91b640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 22/36] fix: integrate over wavelength, not over the integrand

scipy's trapezoid() takes (y, x); with the arguments swapped, projections
and effective wavelengths were only right for integrands that vanish at
both ends (a top-hat bandpass got lambda_eff / e).
---
 src/kcorrect/response.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 4d7b8ab..b8d76a3 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -398,17 +398,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
@@ -430,11 +430,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 234ff307528a6c390319c6d2d788eb6547331ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 23/36] fix: do not integrate beyond the ends of the bandpass

The grid for the projection included the SED samples next to the bandpass,
which for a bandpass that does not end at zero added a triangle as wide as
the SED sampling on either side (a top hat through a coarsely sampled SED
was averaged over several times its width).
---
 src/kcorrect/response.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b8d76a3..8fda45b 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -376,16 +376,10 @@ class Response(object):
 
         # Find SED wavelengths to integrate over
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
-        ikeep = np.where(keep)[0]
-        if(len(ikeep) == 0):
+        if(keep.any() == False):
             # No overlap, unless the SED grid is coarser than the bandpass
             if((sed_wave.max() < self.wave[0]) | (sed_wave.min() > self.wave[-1])):
                 return(0.)
-        else:
-            if(ikeep[0] > 0):
-                keep[ikeep[0] - 1] = 1
-            if(ikeep[-1] < len(sed_wave) - 1):
-                keep[ikeep[-1] + 1] = 1
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From 54193436a6014d00e2e1d9d92d1f63cff9956fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 24/36] fix: set the output band map when reading an existing
 object from FITS

fromfits() on an already constructed object (the only way to reload the survey
classes) kept the index map of the old bands.
---
 src/kcorrect/kcorrect.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 79be2bb..76c07d0 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -169,12 +169,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                 self.AmatrixOut = self._calc_Amatrix(responses=self.responses_out)
 
         # Get index map to calculate kcorrection
-        self.imap = np.zeros(len(self.responses_map), dtype=int)
-        for i, response in enumerate(self.responses_map):
-            try:
-                self.imap[i] = self.responses.index(response)
-            except ValueError:
-                raise ValueError("responses_map must contain only responses defined in responses")
+        self._set_imap()
 
         # Initialize cosmology used for derived properties and absmag
         if(cosmo is not None):
@@ -184,6 +179,16 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         return
 
+    def _set_imap(self):
+        """Set index map from responses_map to responses"""
+        self.imap = np.zeros(len(self.responses_map), dtype=int)
+        for i, response in enumerate(self.responses_map):
+            try:
+                self.imap[i] = self.responses.index(response)
+            except ValueError:
+                raise ValueError("responses_map must contain only responses defined in responses")
+        return
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -804,6 +809,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses = list(hdul['RESPONSES'].data['responses'])
         self.responses_map = list(hdul['RESPONSES_MAP'].data['responses_map'])
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
+        self._set_imap()
 
         f = kcorrect.response.ResponseDict()
         for response in self.responses + self.responses_out:
-- 
2.43.0


From 60a812e25670f8567a90d236cbc5b3528d245b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 25/36] fix: do not truncate long response names in
 Kcorrect.tofits()

Responses given by an absolute path of more than 200 characters could not be
found again by fromfits().
---
 src/kcorrect/kcorrect.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 76c07d0..16b4a75 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -714,6 +714,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         raise RuntimeError("Should not reach this point")
 
+    def _name_length(self, names):
+        """Length of string column to hold response names without truncation"""
+        return(max([200] + [len(name) for name in names]))
+
     def tofits(self, filename=None):
         """Output calculated information to FITS
 
@@ -753,19 +757,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', str, 200)])
+        responses_dtype = np.dtype([('responses', str, self._name_length(self.responses))])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', str, 200)])
+        responses_dtype = np.dtype([('responses_out', str, self._name_length(self.responses_out))])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', str, 200)])
+        responses_dtype = np.dtype([('responses_map', str, self._name_length(self.responses_map))])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From 89062aaaec1168283255cdf30a1ac8ec76f12460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 26/36] fix: maggies2flambda() inverse variances do not
 overflow

With np.float32 inputs the inverse variance of the flux density of
ordinary fluxes (e.g. 3% errors at 1.e-8 maggies in the WISE bands) is beyond
the range of np.float32 and became infinite.
---
 src/kcorrect/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 05ca8ad..8e324aa 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -365,7 +365,8 @@ def maggies2flambda(maggies=None, ivar=None, responses=None):
 
     wave = np.array([r[x].lambda_eff for x in responses],
                     dtype=np.float32)
-    m2f = sed_ab(wave)
+    # inverse variances of flambda can exceed the range of np.float32
+    m2f = sed_ab(np.float64(wave))
 
     if(maggies.ndim == 1):
         flambda = m2f * maggies
-- 
2.43.0


From 46db32758116f5cecee3fd84cc612703522a452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 27/36] fix: absmag_mc() rejects maggies_mc and coeffs_mc of
 different lengths

Extra flux samples were silently ignored.
---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 16b4a75..8d8cb44 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -680,6 +680,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
+        if(maggies_mc.shape[-1] != mc):
+            raise ValueError("maggies_mc and coeffs_mc must have the same number of samples")
         shape_mc = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
         absmag_mc = np.zeros(shape_mc, dtype=np.float32)
         if(reconstruct):
-- 
2.43.0


From 95fb8a673dcf23070e642946ed98309723d283ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 28/36] fix: derived() loads the bandpasses a pickled object
 needs in a new process

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 8d8cb44..385318a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -305,6 +305,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
+            f.load_response(response)
             solar_magnitude = f[response].solar_magnitude
             if(solar_magnitude is None):
                 # no solar magnitude defined; mtol will be per maggy
-- 
2.43.0


From 6d3c46a041d6e3b24bf9e69b619abf7512d0d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 29/36] fix: bands with zero inverse variance may have
 non-finite fluxes in fits

---
 src/kcorrect/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index c87f091..d134dd3 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -206,7 +206,8 @@ class Fitter(object):
                                      dtype=np.float32)
                 maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
                 return(default_zeros, coeffs_mc, maggies_mc)
-        b = maggies * inverr
+        # zero-weight bands have no influence, even if their maggies are not finite
+        b = np.where(inverr == 0., 0., maggies) * inverr
 
         try:
             coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))
@@ -224,7 +225,7 @@ class Fitter(object):
             for imc in np.arange(mc, dtype=int):
                 maggies_mc[:, imc] = maggies
                 maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err
-                b_mc = maggies_mc[:, imc] * inverr
+                b_mc = np.where(inverr == 0., 0., maggies_mc[:, imc]) * inverr
                 try:
                     tmp_coeffs_mc, rnorm = optimize.nnls(np.float64(A), np.float64(b_mc))
                 except RuntimeError:
-- 
2.43.0


From fd5d4a56e50369bde48a7be14de6d369f62fddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 30/36] fix: absmag() is -9999, not 0, for undefined (NaN)
 maggies or ivar

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 385318a..5239713 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -578,7 +578,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         mags = np.zeros(use_maggies.shape, dtype=np.float32)
         mags[gd] = - 2.5 * np.log10(use_maggies[gd])
 
-        absmag = np.zeros(use_maggies.shape, dtype=np.float32)
+        absmag = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
 
         if(array):
             dm = np.outer(dm, np.ones(len(self.responses_out),
-- 
2.43.0


From 7c03599f0a7baab938c5d15d4334169f6033517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 31/36] fix: error_floor() does not truncate the result for
 integer ivar

---
 src/kcorrect/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 8e324aa..3160a34 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -213,6 +213,8 @@ def error_floor(floor=None, maggies=None, ivar=None):
     floor = np.array(floor)
     maggies = np.array(maggies)
     ivar = np.array(ivar)
+    # integer inverse variances must not truncate the results
+    ivar = ivar.astype(np.result_type(ivar, np.float32))
 
     if(maggies.ndim == 1):
         array = False
-- 
2.43.0


From d9c82bd805e45b109f3f554d8fc92d2a0eb9b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 32/36] fix: a template file whose M50 data cannot be read is
 rejected, not read with m50 = 0

---
 src/kcorrect/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index dbc6f9a..fb16c17 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -396,7 +396,7 @@ class Template(SED):
         self.m1000 = hdul['M1000'].data
         try:
             self.m50 = hdul['M50'].data
-        except:
+        except KeyError:
             self.m50 = self.m300 * 0.
 
         return
-- 
2.43.0


From 2342e568d7e1cbbb4daab38e2831d64a43ff4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 33/36] fix: an interruption of all_responses() is not taken
 for an invalid file

---
 src/kcorrect/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 8fda45b..052242e 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -73,7 +73,7 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                         new_response.fromdat(os.path.abspath(os.path.join(rdir, filename)))
                         if(response not in f):
                             f[response] = new_response
-                    except:
+                    except Exception:
                         valid = False
                 if(valid):
                     responses.append(response)
-- 
2.43.0


From eb8d3580d7f34f09d658ff335e17c75d5e8db6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 34/36] fix: templates return to redshift 0 also if
 constructing a fitter fails

---
 src/kcorrect/fitter.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index d134dd3..78b63d2 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -86,6 +86,21 @@ class Fitter(object):
         for response in responses:
             f.load_response(response)
 
+        try:
+            rmatrix = self._calc_rmatrix(responses=responses)
+        finally:
+            # Return templates to z=0, even if a projection fails
+            self.templates.set_redshift(redshift=0.)
+
+        # Now create Amatrix interpolator
+        Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=rmatrix)
+
+        return(Amatrix)
+
+    def _calc_rmatrix(self, responses=None):
+        """Project templates onto responses at each redshift (changes template redshift)"""
+        f = kcorrect.response.ResponseDict()
+
         # Create rmatrix
         rmatrix = np.zeros((self.nredshift,
                             len(responses),
@@ -106,13 +121,7 @@ class Fitter(object):
                         rmatrix[iz, ir, ised_start:ised_end] = f[response].project(wave=self.templates.wave,
                                                                                    flux=self.templates.flux[ised_start:ised_end, :])
 
-        # Now create Amatrix interpolator
-        Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=rmatrix)
-
-        # Return templates to z=0
-        self.templates.set_redshift(redshift=0.)
-
-        return(Amatrix)
+        return(rmatrix)
 
     def to_ab(self, maggies=None, ivar=None):
         """Convert input maggies to AB
-- 
2.43.0


From a5d1a20662240bed3930f34d17c5e73b8538c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:59 +0000
Subject: [PATCH 35/36] fix: read only the first row of SED tables, as
 documented

SED.fromfits() is documented to import only the first row of a table, but a table of several rows of vectors raised an error.
---
 src/kcorrect/template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index fb16c17..88f8ef6 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -167,6 +167,9 @@ class SED(object):
             self.restframe_flux = sed_hdus['FLUX'].data
         else:
             sed = sed_hdus[ext].data
+            if(sed['wave'].ndim > 1):
+                # Only the first row
+                sed = sed[:1]
             self.restframe_wave = sed['wave']
             self.restframe_flux = sed['flux']
         if(len(self.restframe_flux.shape) > 1):
-- 
2.43.0


From 8983aad2e8d5ee7aeaf84f4ca63ad68f7a10ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:37 +0000
Subject: [PATCH 36/36] fix: do not keep FITS files mapped after reading them

Spectra, templates, bandpasses and saved objects remained views of the file: rewriting the file in place changed them, and every one held a file descriptor.
---
 src/kcorrect/kcorrect.py | 2 +-
 src/kcorrect/response.py | 2 +-
 src/kcorrect/template.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 5239713..f844333 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -805,7 +805,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
 """
         self.templates = kcorrect.template.Template(filename=filename)
 
-        hdul = fits.open(filename)
+        hdul = fits.open(filename, memmap=False)
 
         data = hdul['DATA'].data
         self.nredshift = int(data['nredshift'][0])
diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 052242e..8854197 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -254,7 +254,7 @@ class Response(object):
         ext : str or int
             extension to read from
 """
-        response_hdulist = astropy.io.fits.open(filename)
+        response_hdulist = astropy.io.fits.open(filename, memmap=False)
         response = response_hdulist[ext].data[0]
         self.nwave = len(response['wave'])
         isort = np.argsort(response['wave'])
diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index 88f8ef6..afd2df3 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -160,7 +160,7 @@ class SED(object):
 
         Only imports the first row of the FITS table.
 """
-        sed_hdus = fits.open(filename)
+        sed_hdus = fits.open(filename, memmap=False)
         self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
         if(self.binimage):
             self.restframe_wave = sed_hdus['WAVE'].data
@@ -390,7 +390,7 @@ class Template(SED):
     def __init__(self, filename=None, ext='FLUX', interpolate=False):
         super().__init__(filename=filename, ext=ext, interpolate=interpolate)
 
-        hdul = fits.open(filename)
+        hdul = fits.open(filename, memmap=False)
         self.info['filename'] = filename
         self.intsfh = hdul['INTSFH'].data
         self.mremain = hdul['MREMAIN'].data
-- 
2.43.0

