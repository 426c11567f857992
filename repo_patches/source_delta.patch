From ff46a6a48573cc5d35c1c11ab2350c3f07e78a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 01/34] fix: pass integrand and abscissa to trapezoid in the
 right order

---
 src/kcorrect/response.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..8ec97d7 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -392,17 +392,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
@@ -424,11 +424,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 492a9b41bb602375aec802ccce827cd56145ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 02/34] fix: leave the response dictionary alone until a
 response is fully loaded

---
 src/kcorrect/response.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 8ec97d7..f6d279c 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,10 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        # Only enter it once it has been read successfully
+        newresponse = Response()
+        newresponse.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = newresponse
         return
 
 
-- 
2.43.0


From c208755f83bd1027b1321ce60218345182b43d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 03/34] fix: check validity of the response files in
 response_dir itself

---
 src/kcorrect/response.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index f6d279c..c306104 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -69,9 +69,17 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 valid = True
                 if(check_validity):
                     try:
-                        f.load_response(response)
-                    except:
+                        newresponse = Response()
+                        newresponse.fromdat(filename=os.path.join(os.path.abspath(rdir),
+                                                                  filename))
+                    except Exception:
                         valid = False
+                    else:
+                        # Do not replace an entry which already has these data
+                        if(response not in f or
+                           not np.array_equal(f[response].wave, newresponse.wave) or
+                           not np.array_equal(f[response].response, newresponse.response)):
+                            f[response] = newresponse
                 if(valid):
                     responses.append(response)
     return(responses)
-- 
2.43.0


From f810565607d1f639eb106046eaf9a6000c36c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 04/34] fix: never replace the response dictionary once another
 thread has created it

---
 src/kcorrect/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index c306104..e0c5c95 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -91,8 +91,8 @@ class ResponseDictSingleton(type):
 
     def __call__(cls, *args, **kwargs):
         if cls not in cls._instances:
-            cls._instances[cls] = super(ResponseDictSingleton,
-                                        cls).__call__(*args, **kwargs)
+            cls._instances.setdefault(cls, super(ResponseDictSingleton,
+                                                 cls).__call__(*args, **kwargs))
         return cls._instances[cls]
 
 
-- 
2.43.0


From 621bcb9b84419bfed3d84cdf73fcfebd48da5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 05/34] fix: fit one-object catalogues with one band or with
 Monte Carlo

---
 src/kcorrect/fitter.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..2a85d1c 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -409,21 +409,22 @@ class Fitter(object):
 
         # Call single
         if(n == 1):
+            nbands = len(self.responses)
             if(mc == 0):
                 coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
+                                          maggies=maggies.reshape(nbands),
+                                          ivar=ivar.reshape(nbands),
                                           mc=mc)
             else:
                 coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                                                                 maggies=maggies.reshape(nbands),
+                                                                 ivar=ivar.reshape(nbands),
                                                                  mc=mc)
             if(array):
-                coeffs = coeffs.reshape(1, len(coeffs))
+                coeffs = coeffs.reshape(1, self.templates.nsed)
                 if(mc > 0):
-                    coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    coeffs_mc = coeffs_mc.reshape(1, self.templates.nsed, mc)
+                    maggies_mc = maggies_mc.reshape(1, nbands, mc)
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From f1a7f7237e8ab7c400f8f352a9f99ad266622c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 06/34] fix: return Monte Carlo maggies for objects outside the
 redshift range too

---
 src/kcorrect/fitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 2a85d1c..b3599d3 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,11 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.tile(np.float32(maggies), (mc, 1)).T
+                igd = np.where(inverr > 0)[0]
+                maggies_mc[igd, :] += (np.random.normal(size=(len(igd), mc)) /
+                                       inverr[igd, np.newaxis])
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From 1f2d5ec69864143c964be2e04f7ce704b10e2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 07/34] fix: keep the ends of the redshift range inside the
 interpolation grid

---
 src/kcorrect/fitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index b3599d3..e140995 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -71,6 +71,8 @@ class Fitter(object):
                           (self.redshift_range[1] - self.redshift_range[0]) *
                           np.arange(nredshift, dtype=np.float32) /
                           np.float32(nredshift - 1))
+        # Rounding must not exclude the end of the range
+        self.redshifts[-1] = self.redshift_range[1]
         return
 
     def _interpolate_Amatrix(self, redshifts=None, A=None):
@@ -497,7 +499,9 @@ class Fitter(object):
 
         # Consider blueward shift of bandpass due to redshift
         # of observation and due to band_shift
-        shift = (1. + redshift) * (1. + band_shift) - 1.
+        # (exactly the redshift if there is no band_shift)
+        band_shift = np.float32(band_shift)
+        shift = redshift + band_shift + redshift * band_shift
 
         # Calculate maggies
         try:
-- 
2.43.0


From e4b5c0f47281c3b38a57fd1c526a62617704a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 08/34] fix: do not alter the input fluxes when converting GST
 fluxes to AB

---
 src/kcorrect/kcorrect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..6a5fc0f 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1147,11 +1147,13 @@ class KcorrectGST(Kcorrect):
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
+            maggies = np.array(maggies, dtype=np.float32)
+            ivar = np.array(ivar, dtype=np.float32)
             maggies[..., 2:7] = smaggies
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
+            maggies = np.array(maggies, dtype=np.float32)
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From 6ae32c2506cdbe7acb8a8637b24a2da278aad728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 09/34] fix: define the distance modulus when derived() is
 given distances

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 6a5fc0f..f26e89f 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -255,6 +255,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From a0840cfd62976fffb93e6f94b81e671a369b2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 10/34] fix: give mass-to-light ratios for any number of output
 bands

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index f26e89f..6b7e578 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -307,7 +307,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From 6e4cc9a6cb50a575fcbf0673218f35575421fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 11/34] fix: give mass-to-light ratio per maggy where the Sun
 has no magnitude

---
 src/kcorrect/kcorrect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 6b7e578..4d065c1 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -300,7 +300,11 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                # mtol per maggy
+                solar_magnitude = 0.
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From d8c347c86a1bbe0417dc0d400138a1813d54714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 12/34] fix: reconstruct absolute magnitudes in the output
 bands at rest

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4d065c1..c5b5390 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -584,7 +584,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
+            # maggies of the model in the output bands at rest
+            omaggies = self.reconstruct_out(redshift=0. * redshift, coeffs=coeffs,
                                             band_shift=band_shift)
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
@@ -592,9 +593,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
             omags[gd] = - 2.5 * np.log10(omaggies[gd])
             absmag_reconstruct = np.zeros(omaggies.shape, dtype=np.float32) - 9999.
             if(array):
-                absmag_reconstruct[gd] = omags[gd] - dm[gd] - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm[gd]
             else:
-                absmag_reconstruct[gd] = omags[gd] - dm - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm
             absmag_reconstruct[bd] = - 9999.
 
         if(limit):
-- 
2.43.0


From 6f8e9d40d46b9e6ed95fd62d3d3bf32c2a747b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 13/34] fix: return no absolute magnitude limit where all
 coefficients are zero

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index c5b5390..787fdc6 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -600,9 +600,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
-            gd = np.where(use_ivar > 0.)
-            bd = np.where(use_ivar <= 0.)
-            
+            notzero = coeffs.sum(axis=-1, keepdims=True) > 0.
+            gd = np.where((use_ivar > 0.) & notzero)
+            bd = np.where((use_ivar <= 0.) | np.logical_not(notzero))
+
             lmags = np.zeros(use_maggies.shape, dtype=np.float32)
             lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
 
-- 
2.43.0


From 74eb18578cf965592e7021515c4b10597e180b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 14/34] fix: set absolute magnitudes to -9999 where the
 K-correction is undefined

---
 src/kcorrect/kcorrect.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 787fdc6..ebba6bf 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -566,8 +566,11 @@ class Kcorrect(kcorrect.fitter.Fitter):
         use_maggies = maggies[..., self.imap]
         use_ivar = ivar[..., self.imap]
 
-        gd = np.where((use_maggies > 0.) & (use_ivar > 0.))
-        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.))
+        # There is no K-correction where the model has no flux
+        kok = np.isfinite(k)
+
+        gd = np.where((use_maggies > 0.) & (use_ivar > 0.) & kok)
+        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.) | np.logical_not(kok))
 
         mags = np.zeros(use_maggies.shape, dtype=np.float32)
         mags[gd] = - 2.5 * np.log10(use_maggies[gd])
@@ -601,8 +604,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
             notzero = coeffs.sum(axis=-1, keepdims=True) > 0.
-            gd = np.where((use_ivar > 0.) & notzero)
-            bd = np.where((use_ivar <= 0.) | np.logical_not(notzero))
+            gd = np.where((use_ivar > 0.) & notzero & kok)
+            bd = np.where((use_ivar <= 0.) | np.logical_not(notzero & kok))
 
             lmags = np.zeros(use_maggies.shape, dtype=np.float32)
             lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
-- 
2.43.0


From a55e78da5137db3bb65649777c82b618a7ddcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 15/34] fix: give Monte Carlo absolute magnitudes for any
 number of output bands

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index ebba6bf..571a69e 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -678,11 +678,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape = coeffs_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From c0c1e2b7ad28725530bbd9b94c3c09c2c48e9bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 16/34] fix: return Monte Carlo maggies in the system of the
 input maggies

---
 src/kcorrect/fitter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index e140995..b7824a0 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -413,6 +413,13 @@ class Fitter(object):
          dumdum) = self._process_inputs(redshift=redshift, maggies=maggies,
                                         ivar=ivar)
 
+        # The Monte Carlo maggies are returned in the system of the input
+        if((mc > 0) & bool(self.abcorrect)):
+            abfactor = self.to_ab(maggies=np.ones(len(self.responses),
+                                                  dtype=np.float32))
+        else:
+            abfactor = np.ones(len(self.responses), dtype=np.float32)
+
         # Call single
         if(n == 1):
             nbands = len(self.responses)
@@ -433,6 +440,7 @@ class Fitter(object):
                     maggies_mc = maggies_mc.reshape(1, nbands, mc)
 
             if(mc > 0):
+                maggies_mc = maggies_mc / abfactor[:, np.newaxis]
                 return(coeffs, coeffs_mc, maggies_mc)
             else:
                 return(coeffs)
@@ -458,6 +466,7 @@ class Fitter(object):
         if(mc == 0):
             return(coeffs)
         else:
+            maggies_mc = maggies_mc / abfactor[:, np.newaxis]
             return(coeffs, coeffs_mc, maggies_mc)
 
     def _reconstruct(self, Amatrix=None, redshift=None, coeffs=None,
-- 
2.43.0


From 5bbe5dac3a82a4e0a22723f417af6edf2ca05f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 17/34] fix: apply the extinction to the errors of asinh fluxes
 too

---
 src/kcorrect/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..1babfaf 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -307,6 +307,7 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
+            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
             maggies_ivar[..., k] = 1. / maggies_err**2
 
     if(mag_err is None):
-- 
2.43.0


From 438f3a6738fe8319d3c0531b74e3102c7d7c19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 18/34] fix: raise ValueError for inputs of the wrong shape in
 utils

---
 src/kcorrect/utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 1babfaf..beeb477 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -158,16 +158,17 @@ def sdss_ab_correct(maggies=None, ivar=None,
         ivar = np.float32(ivar)
 
         if(maggies.shape != ivar.shape):
-            raise("maggies and ivar must be the same shape")
+            raise ValueError("maggies and ivar must be the same shape")
 
     abfix = np.array(abfix, dtype=np.float32)
     if(abfix.shape != (5,)):
-        raise("abfix must have 5 values")
+        raise ValueError("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
+    if(maggies.ndim == 0 or maggies.shape[-1] != 5):
+        raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+
     if(maggies.ndim == 1):
-        if(maggies.size != 5):
-            raise("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = maggies * abfac
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
@@ -217,10 +218,10 @@ def error_floor(floor=None, maggies=None, ivar=None):
         array = True
 
     if(maggies.shape[-1] != floor.shape[0]):
-        raise("floor must have same number of responses as maggies")
+        raise ValueError("floor must have same number of responses as maggies")
 
     if(maggies.shape != ivar.shape):
-        raise("maggies and ivar must be same shape")
+        raise ValueError("maggies and ivar must be same shape")
 
     if(array):
         for i in np.arange(floor.size):
@@ -278,17 +279,17 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
     if(mag_err is not None):
         mag_err = np.float32(mag_err)
         if(mag.shape != mag_err.shape):
-            raise("mag and mag_err must be the same shape")
+            raise ValueError("mag and mag_err must be the same shape")
 
     if(extinction is not None):
         extinction = np.float32(extinction)
         if(mag.shape != extinction.shape):
-            raise("mag and extinction must be the same shape")
+            raise ValueError("mag and extinction must be the same shape")
     else:
         extinction = np.zeros(mag.shape, dtype=np.float32)
 
     if(mag.shape[-1] != 5):
-        raise("mag must have 5 values per object")
+        raise ValueError("mag must have 5 values per object")
 
     b0 = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10],
                   dtype=np.float32)
-- 
2.43.0


From 938196943dcd540870afb5e5882fbdc1cc9167d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 19/34] fix: read only the first row of SED tables

---
 src/kcorrect/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index dbc6f9a..04307a2 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -167,6 +167,8 @@ class SED(object):
             self.restframe_flux = sed_hdus['FLUX'].data
         else:
             sed = sed_hdus[ext].data
+            if(sed['wave'].ndim > 1):
+                sed = sed[0:1]
             self.restframe_wave = sed['wave']
             self.restframe_flux = sed['flux']
         if(len(self.restframe_flux.shape) > 1):
-- 
2.43.0


From 1a568e336d4d514a7d97ddcbf47ad2a7dc0787f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 20/34] fix: save and reload K-correction objects

---
 src/kcorrect/kcorrect.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 571a69e..c63d176 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -740,7 +740,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
@@ -751,19 +751,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', np.str_, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', np.str_, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', np.str_, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
@@ -777,7 +777,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(Aout, name='AOUT')
         hdul.append(hdu)
 
-        hdul.writeto(filename, overwrite=True)
+        hdul.close()
         return
 
     def fromfits(self, filename=None):
@@ -799,21 +799,21 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
-        self.redshifts = hdul['REDSHIFTS'].data
+        self.redshifts = np.float32(hdul['REDSHIFTS'].data)
         self.responses = list(hdul['RESPONSES'].data['responses'])
         self.responses_map = list(hdul['RESPONSES_MAP'].data['responses_map'])
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
 
         f = kcorrect.response.ResponseDict()
-        for response in self.responses:
+        for response in self.responses + self.responses_out:
             f.load_response(response)
 
-        A = hdul['A'].data
-        Aout = hdul['Aout'].data
+        A = np.array(hdul['A'].data, dtype=np.float32)
+        Aout = np.array(hdul['Aout'].data, dtype=np.float32)
         self.Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=A)
         self.AmatrixOut = self._interpolate_Amatrix(redshifts=self.redshifts,
                                                     A=Aout)
-- 
2.43.0


From 8208e17eba264c51e08a80416963aabc43b6c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 21/34] fix: update the band map when a K-correction object is
 read in

---
 src/kcorrect/kcorrect.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index c63d176..9683b8a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -169,12 +169,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                 self.AmatrixOut = self._calc_Amatrix(responses=self.responses_out)
 
         # Get index map to calculate kcorrection
-        self.imap = np.zeros(len(self.responses_map), dtype=int)
-        for i, response in enumerate(self.responses_map):
-            try:
-                self.imap[i] = self.responses.index(response)
-            except ValueError:
-                raise ValueError("responses_map must contain only responses defined in responses")
+        self._set_imap()
 
         # Initialize cosmology used for derived properties and absmag
         if(cosmo is not None):
@@ -184,6 +179,16 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         return
 
+    def _set_imap(self):
+        """Set index map imap from responses_map and responses"""
+        self.imap = np.zeros(len(self.responses_map), dtype=int)
+        for i, response in enumerate(self.responses_map):
+            try:
+                self.imap[i] = self.responses.index(response)
+            except ValueError:
+                raise ValueError("responses_map must contain only responses defined in responses")
+        return
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -817,6 +822,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=A)
         self.AmatrixOut = self._interpolate_Amatrix(redshifts=self.redshifts,
                                                     A=Aout)
+        self._set_imap()
 
         hdul.close()
         return
-- 
2.43.0


From fdbd002d998dbd14003b2d3db3f124669a40abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 22/34] fix: do not overflow inverse variances of flux
 densities

---
 src/kcorrect/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index beeb477..170e4c1 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -367,13 +367,13 @@ def maggies2flambda(maggies=None, ivar=None, responses=None):
     if(maggies.ndim == 1):
         flambda = m2f * maggies
         if(ivar is not None):
-            fivar = ivar / m2f**2
+            fivar = ivar / np.float64(m2f)**2
     else:
         flambda = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
                            m2f) * maggies
         if(ivar is not None):
             fivar = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
-                             1. / m2f**2) * ivar
+                             1. / np.float64(m2f)**2) * ivar
 
     if(ivar is not None):
         return(wave, flambda, fivar)
-- 
2.43.0


From b49bf26a18c5a6e9c1e501e5bcfd7c2aa6903d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 23/34] fix: project spectra with no sample inside the bandpass

---
 src/kcorrect/response.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index e0c5c95..6577313 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -383,14 +383,16 @@ class Response(object):
         # Find SED wavelengths to integrate over
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         ikeep = np.where(keep)[0]
-        if(len(ikeep) == 0):
+        if(len(ikeep) > 0):
+            if(ikeep[0] > 0):
+                keep[ikeep[0] - 1] = 1
+            if(ikeep[-1] < len(sed_wave) - 1):
+                keep[ikeep[-1] + 1] = 1
+        elif((np.max(sed_wave) < self.wave[0]) |
+             (np.min(sed_wave) > self.wave[-1])):
+            # (a coarse SED can span the band with no sample inside it)
             return(0.)
 
-        if(ikeep[0] > 0):
-            keep[ikeep[0] - 1] = 1
-        if(ikeep[-1] < len(sed_wave) - 1):
-            keep[ikeep[-1] + 1] = 1
-
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
 
-- 
2.43.0


From ebfdf57d3d31f33493a9b2379c7a3e75ea9130d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 24/34] fix: reject SEDs whose fluxes do not match the
 wavelengths

---
 src/kcorrect/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index 04307a2..ec835a2 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -110,6 +110,8 @@ class SED(object):
                 self.restframe_flux = self.restframe_flux.reshape(1, self.nwave)
             else:
                 self.restframe_flux = self.restframe_flux
+            if(self.restframe_flux.shape[-1] != self.nwave):
+                raise ValueError("last axis of flux must match wave")
             self.nsed = self.restframe_flux.shape[0]
         self.wave = self.restframe_wave
         self.flux = self.restframe_flux
-- 
2.43.0


From f6c022819cb25be0283e9e5b86cc5ab8e0751165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 25/34] fix: reject responses which do not match the
 wavelengths

---
 src/kcorrect/response.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 6577313..76835fc 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -198,6 +198,8 @@ class Response(object):
     def __init__(self, filename=None, wave=None, response=None):
         if((wave is not None) &
            (response is not None)):
+            if(len(wave) != len(response)):
+                raise ValueError("wave and response must have the same length")
             isort = np.argsort(wave)
             self.wave = wave[isort]
             self.response = response[isort]
-- 
2.43.0


From b68177be9f36843bbdc6867a18a1acc0b3592429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 26/34] fix: reject maggies that do not match the responses in
 maggies2flambda

---
 src/kcorrect/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 170e4c1..180680f 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -355,6 +355,12 @@ def maggies2flambda(maggies=None, ivar=None, responses=None):
     loaded into the response dictionary if it isn't there already.
 """
     
+    if(maggies.shape[-1] != len(responses)):
+        raise ValueError("maggies must have one value for each response")
+    if(ivar is not None):
+        if(ivar.shape != maggies.shape):
+            raise ValueError("maggies and ivar must be the same shape")
+
     r = kcorrect.response.ResponseDict()
     for response in responses:
         if(response not in r):
-- 
2.43.0


From f5a9f306a136296bf0aa026fac6bd912b80d9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 27/34] fix: reject Monte Carlo maggies and coefficients of
 different numbers

---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 9683b8a..5d7ead2 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -683,6 +683,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
+        if(maggies_mc.shape[-1] != mc):
+            raise ValueError("maggies_mc must have values for each Monte Carlo in coeffs_mc")
         shape = coeffs_mc.shape[:-2] + (len(self.responses_out), mc)
         absmag_mc = np.zeros(shape, dtype=np.float32)
         if(reconstruct):
-- 
2.43.0


From 95cc58863c5ee61853ad72b5962eb2e9880025bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 28/34] fix: derived() works in a process which has not loaded
 the output responses

An object which was pickled (for example to hand it to the workers of a
multiprocessing pool) has its matrices, but derived() looked its output
responses up in the ResponseDict() of the new process, where nothing has
loaded them, and raised KeyError.
---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 5d7ead2..048345a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -305,6 +305,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
+            # (may be missing, e.g. if this object was unpickled in a new process)
+            f.load_response(response)
             solar_magnitude = f[response].solar_magnitude
             if(solar_magnitude is None):
                 # mtol per maggy
-- 
2.43.0


From f5c56b9d6d933eae509c2eb7871e63418f3749f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 29/34] fix: read bandpass files as UTF-8 whatever the locale
 of the process

---
 src/kcorrect/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 76835fc..285752f 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -294,7 +294,8 @@ class Response(object):
 
         if(os.path.exists(infilename) is False):
             raise ValueError("No response file: {f}".format(f=infilename))
-        dat = astropy.io.ascii.read(infilename, format='fixed_width')
+        dat = astropy.io.ascii.read(infilename, format='fixed_width',
+                                    encoding='utf-8')
         self.nwave = len(dat)
         isort = np.argsort(dat['lambda'])
         self.wave = dat['lambda'][isort]
-- 
2.43.0


From 1d07cfd904497f06b4adf5469f5ad509a1b76e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 30/34] fix: loaded spectra, templates and bandpasses do not
 hold on to their files

---
 src/kcorrect/response.py | 3 ++-
 src/kcorrect/template.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 285752f..d3016bc 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -262,8 +262,9 @@ class Response(object):
         ext : str or int
             extension to read from
 """
-        response_hdulist = astropy.io.fits.open(filename)
+        response_hdulist = astropy.io.fits.open(filename, memmap=False)
         response = response_hdulist[ext].data[0]
+        response_hdulist.close()
         self.nwave = len(response['wave'])
         isort = np.argsort(response['wave'])
         self.wave = response['wave'][isort]
diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index ec835a2..abc7f0f 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -162,7 +162,7 @@ class SED(object):
 
         Only imports the first row of the FITS table.
 """
-        sed_hdus = fits.open(filename)
+        sed_hdus = fits.open(filename, memmap=False)
         self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
         if(self.binimage):
             self.restframe_wave = sed_hdus['WAVE'].data
@@ -173,6 +173,7 @@ class SED(object):
                 sed = sed[0:1]
             self.restframe_wave = sed['wave']
             self.restframe_flux = sed['flux']
+        sed_hdus.close()
         if(len(self.restframe_flux.shape) > 1):
             nsed = self.restframe_flux.shape[-2]
         else:
@@ -391,7 +392,7 @@ class Template(SED):
     def __init__(self, filename=None, ext='FLUX', interpolate=False):
         super().__init__(filename=filename, ext=ext, interpolate=interpolate)
 
-        hdul = fits.open(filename)
+        hdul = fits.open(filename, memmap=False)
         self.info['filename'] = filename
         self.intsfh = hdul['INTSFH'].data
         self.mremain = hdul['MREMAIN'].data
@@ -402,6 +403,7 @@ class Template(SED):
             self.m50 = hdul['M50'].data
         except:
             self.m50 = self.m300 * 0.
+        hdul.close()
 
         return
 
-- 
2.43.0


From b5a918a3bf91ad4825b7cdea7fd26707b1907788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 31/34] fix: close stellar model files after reading them

---
 src/kcorrect/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 180680f..dbd1d78 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -68,7 +68,7 @@ def read_basel(filename=None):
 """
     fp = open(filename, "r")
     fpstr = fp.read()
-    fp.close
+    fp.close()
 
     words = fpstr.split()
 
-- 
2.43.0


From 8ae8036a7c00cd3fdd7e545c00629055a0c91747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 32/34] fix: objects have band lists of their own, so that
 changing them leaves the defaults alone

---
 src/kcorrect/fitter.py   | 3 ++-
 src/kcorrect/kcorrect.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index b7824a0..81a5068 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -63,7 +63,8 @@ class Fitter(object):
                  nredshift=2000, abcorrect=False):
         self.abcorrect = abcorrect
         self.Amatrix = None
-        self.responses = responses
+        # (a list of its own, as the one passed in may be a shared default)
+        self.responses = None if responses is None else list(responses)
         self.templates = templates
         self.nredshift = nredshift
         self.redshift_range = np.float32(redshift_range)
diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 048345a..03d5774 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -159,8 +159,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
             if(len(responses_map) != len(responses_out)):
                 raise ValueError("responses_map must have the same number of elements as responses_out")
 
-            self.responses_out = responses_out
-            self.responses_map = responses_map
+            self.responses_out = list(responses_out)
+            self.responses_map = list(responses_map)
 
             # Set up the AmatrixOut for the output responses
             if(self.responses_out == self.responses):
-- 
2.43.0


From 72a06502bbdcdd65bdd684f184dc0de0479dc88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 33/34] fix: do not cut off long band names when saving
 K-correction objects

---
 src/kcorrect/kcorrect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 03d5774..7b9f97f 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -760,19 +760,21 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.str_, 200)])
+        # Names can be long, as they can be paths
+        nname = max([200] + [len(x) for x in self.responses + self.responses_out])
+        responses_dtype = np.dtype([('responses', np.str_, nname)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.str_, 200)])
+        responses_dtype = np.dtype([('responses_out', np.str_, nname)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.str_, 200)])
+        responses_dtype = np.dtype([('responses_map', np.str_, nname)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From f5b491444682df6d805ba8a9ba53dbf73531102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 34/34] fix: name the extension of a saved bandpass as asked

---
 src/kcorrect/response.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index d3016bc..b7a453d 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -321,6 +321,8 @@ class Response(object):
         out['response'] = self.response
 
         out_table = astropy.table.Table(out)
+        if(isinstance(ext, str)):
+            out_table.meta['EXTNAME'] = ext
 
         out_table.write(filename, overwrite=clobber)
         return
-- 
2.43.0

