From e49c7b5e8e9cc1aba9918bf121ce83dce3b52b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:01 +0000
Subject: [PATCH 01/60] fix: wavenumbers in 1/cm were wrong by a factor 1e4

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..507ae22 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From 0bd22b6d29c8162090de5fd9f37de5065ef9e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:03 +0000
Subject: [PATCH 02/60] fix: safe_inverse of arrays lost small and integer
 values

---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 507ae22..2dc1c99 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,9 +23,9 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    inverse = np.array(values, dtype=float)
+    zero_ind = inverse == 0.0
+    inf_ind = inverse == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
-- 
2.43.0


From a95e752d6dec3d387fe88f563156f87cf07d694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:04 +0000
Subject: [PATCH 03/60] fix: conversion to centimetre rounded to 100 nm

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 2dc1c99..2e5e47b 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From 849d01ca0d470d0d0f7788f6219535ca47aa97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:06 +0000
Subject: [PATCH 04/60] fix: display name of centimetre was missing

---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 2e5e47b..5d60bb3 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From 15c63134af92896b0216da1f9c1a0b77075e3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:07 +0000
Subject: [PATCH 05/60] fix: convert_to accepts units in any letter case like
 the constructor

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 5d60bb3..c6c7359 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -303,7 +303,7 @@ class Spectrum(object):
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
-        unit = Spectrum.standardise_unit(spectrum_type, unit)
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
         values = self.standard_rep
 
         convert_methods = {'frequency': to_frequency,
-- 
2.43.0


From d8acafc82cb0125cb2cebd8a0ca4121d891cb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:09 +0000
Subject: [PATCH 06/60] fix: conversion to the own type and unit changed the
 values

---
 src/dispersion/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index c6c7359..0a97ffb 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -312,7 +312,11 @@ class Spectrum(object):
                            'wavenumber': to_wavenumber,
                            'wavelength': to_wavelength}
 
-        converted_values = convert_methods[spectrum_type](unit, values)
+        if (spectrum_type, unit) == (self.spectrum_type, self.unit):
+            # nothing to convert, avoid rounding the values
+            converted_values = self.values
+        else:
+            converted_values = convert_methods[spectrum_type](unit, values)
         if in_place:
             self.values = converted_values
             self.spectrum_type = spectrum_type
-- 
2.43.0


From de9d32ebe2736546b74c2e3bbc657232c705a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:00 +0000
Subject: [PATCH 07/60] fix: Retro model solved the wrong equation for n

---
 src/dispersion/spectral_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..a8787c4 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -531,10 +531,8 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        # (n^2-1)/(n^2+2) = rhs
+        ref_index = np.sqrt((1.0+2.0*rhs)/(1.0-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From b80175f8461d3209732a9a25a00ca062e6778875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:01 +0000
Subject: [PATCH 08/60] fix: Exotic model had an extra wavelength squared in
 its second term

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index a8787c4..803dd04 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -557,7 +557,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From 12e799122b2852ae1d594b9be4a7fa80a63ecf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:03 +0000
Subject: [PATCH 09/60] fix: Tauc-Lorentz model could not be evaluated at a
 single value

---
 src/dispersion/spectral_data.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 803dd04..a9492d2 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -641,12 +641,10 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
-        eps_imag = ones
-        E = energies[energies>=Eg]
-        eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
-                                   ((E**2-E0**2)**2+C**2*E**2))
-        eps_imag[energies<Eg] = 0.0
-        return eps_imag
+        E = energies
+        eps_imag = ones * ( (1./E) *A*E0*C*(E-Eg)**2 /
+                            ((E**2-E0**2)**2+C**2*E**2))
+        return np.where(E >= Eg, eps_imag, 0.0)
 
     def _calc_eps_real(self, energies, A, E0, C, Eg, eps_inf):
         E = energies
-- 
2.43.0


From db8968e75d9bd48e63520473e53b8342324dc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 10/60] fix: extrapolation changed the spectrum it was given

---
 src/dispersion/spectral_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index a9492d2..06abaf2 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,12 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
-        new_range = np.array(base_spectrum.values)
-        if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
+        extrap_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
+        new_range = np.array(base_spectrum.values, dtype=float)
+        if isinstance(extrap_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,7 +152,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
+            extrap_val = extrap_values
             new_range = self.validate_extrap_val(extrap_val, new_range)
 
         return Spectrum(new_range,
-- 
2.43.0


From 56e9302a3d6dba5193a001776d37a1f3f27f516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:06 +0000
Subject: [PATCH 11/60] fix: extrapolated data replaced in-range values and
 changed the spectrum

---
 src/dispersion/spectral_data.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 06abaf2..932bc64 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -186,13 +186,17 @@ class Extrapolation(SpectralData):
 
     def evaluate(self, spectrum):
         """returns the value of the spectral data for the fiven spectrum"""
-        try:
-            self.base_spectral_data.valid_range.contains(spectrum)
-            return self.base_spectral_data.evaluate(spectrum)
-        except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
-            self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+        self.valid_range.contains(spectrum)
+        values = np.array(spectrum.convert_to(self.spectrum_type, self.unit))
+        evaluation = np.array(splev(values, self.extrapolation))
+        base_range = self.base_spectral_data.valid_range.values
+        inside = (values >= np.min(base_range)) & (values <= np.max(base_range))
+        if np.any(inside):
+            base_spectrum = Spectrum(values[inside],
+                                     spectrum_type=self.spectrum_type,
+                                     unit=self.unit)
+            evaluation[inside] = self.base_spectral_data.evaluate(base_spectrum)
+        return evaluation
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From ef236f7fb648fdb65bccb6214e9ba419fbd4eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:08 +0000
Subject: [PATCH 12/60] fix: requested interpolation order was ignored

---
 src/dispersion/material.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..70ff70d 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -115,7 +115,7 @@ class Material():
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':parsed_args["interp_order"]}
+        self.options = {'interp_order':parsed_args["interp_order"]}
         self.defaults = {'unit':parsed_args["unit"],
                          'spectrum_type':parsed_args["spectrum_type"]}
         #process input arguments
@@ -190,11 +190,11 @@ class Material():
             inputs['spectrum_type'] = 'wavelength'
         if inputs['unit'] is None:
             inputs['unit'] = 'nanometer'
-        if 'interp_order' not in inputs:
+        if inputs.get('interp_order') is None:
             inputs['interp_order'] = 1
         # pylint: disable=no-member
         # bug in pylint does not recognise numpy data types
-        int_args = {'interp_oder'}
+        int_args = {'interp_order'}
         int_types = {int}
         self._check_type(inputs, int_args, int_types)
 
@@ -516,7 +516,8 @@ class Material():
                             spectrum_type=spec_type, unit=unit)
 
         return Interpolation(data, spectrum_type=spec_type,
-                             unit=unit)
+                             unit=unit,
+                             interp_order=self.options['interp_order'])
 
     def _process_formula_data(self, data_dict):
         '''prepare dictionary of data for processing.
@@ -913,7 +914,7 @@ class EffectiveMedium(Material):
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':1}
+        self.options = {'interp_order':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
         self.spectrum = spectrum
-- 
2.43.0


From 20823facdd7f52aded366fc0233fda5509bd51c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:09 +0000
Subject: [PATCH 13/60] fix: tables of n and absorption coefficient could not
 be used

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 70ff70d..8646a68 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -217,7 +217,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From 1aa7d4b1823b40dca5f529930a9722bd2dc131a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:10 +0000
Subject: [PATCH 14/60] fix: valid range of complex models was not converted,
 and could be reversed

---
 src/dispersion/material.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 8646a68..6d282bb 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -689,12 +689,13 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            range_std = self.data['complex'].valid_range.standard_rep
+            lower = np.min(range_std)
+            upper = np.max(range_std)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
-        return spec.convert_to(self.defaults['spectrum_type'],
-                               self.defaults['unit'])
+        return np.sort(spec.convert_to(self.defaults['spectrum_type'],
+                                       self.defaults['unit']))
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 3c2ce1ed6f944e2bfe740bf90f2cd9ff67746acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:12 +0000
Subject: [PATCH 15/60] fix: singular Maxwell-Garnett mixtures were not
 detected

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 6d282bb..29d40f1 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -956,7 +956,7 @@ class MaxwellGarnett(EffectiveMedium):
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         factor_up = 2*(1-self.frac)*eps_base+(1+2*self.frac)*eps_incl
         factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl
-        if np.any(abs(factor_down)) < small_number_cutoff:
+        if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
-- 
2.43.0


From 75a516c82bb919dd5ed7cbdacf8dab180ce0bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:14 +0000
Subject: [PATCH 16/60] fix: effective media changed the spectrum they were
 given

---
 src/dispersion/material.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 29d40f1..24b9342 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -941,8 +941,8 @@ class Simple(EffectiveMedium):
         eps_base = self.mat1.get_permittivity(self.spectrum)
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -959,8 +959,8 @@ class MaxwellGarnett(EffectiveMedium):
         if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -979,8 +979,8 @@ class Bruggeman(EffectiveMedium):
         eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
-- 
2.43.0


From 86c31d834eb3102108bdb769f5e581b526e312d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:16 +0000
Subject: [PATCH 17/60] fix: effective media had no meta data

---
 src/dispersion/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 24b9342..f11391c 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -911,6 +911,9 @@ class Material():
 class EffectiveMedium(Material):
 
     def __init__(self, spectrum, material1, material2, filling_fraction):
+        self.meta_data = {'Reference': "", 'Comment': "", 'Name': "",
+                          'FullName': "", 'Author': "", 'Alias': "",
+                          'MetaComment': "", 'Specification': {}}
         self.data = {'name': "",
                      'real': None,
                      'imag': None,
-- 
2.43.0


From b0d8e9e10bc3aec69bf8a5026d7be70379c8b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:18 +0000
Subject: [PATCH 18/60] fix: materials defined by one complex model could not
 be written

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index f11391c..fb1eccf 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -858,7 +858,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
-- 
2.43.0


From 68f3b6750d446f0ae0ff602b8abbd5ba4bce8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:19 +0000
Subject: [PATCH 19/60] fix: tables of n and k on different grids could not be
 written

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index fb1eccf..0daeee2 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -887,7 +887,7 @@ class Material():
             return datasets
 
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
-- 
2.43.0


From 2c8ccc33b7eca9eeed7b60077aea98199ea6d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:21 +0000
Subject: [PATCH 20/60] fix: permittivity tables were written in a form that
 could not be read

---
 src/dispersion/material.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 0daeee2..0464797 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -489,7 +489,12 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
-
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_k':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
 
     def _spec_data_from_table(self, data):
         '''
@@ -875,11 +880,13 @@ class Material():
 
     def collapse_datasets(self, datasets):
         n_collapsable = 0
+        names = {'nk': ('n', 'k'), 'eps': ('eps_r', 'eps_k')}
+        real_name, imag_name = names[self.data['name']]
         for dataset in datasets:
-            if dataset['DataType'] == 'tabulated n':
+            if dataset['DataType'] == 'tabulated ' + real_name:
                 n_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
-            if dataset['DataType'] == 'tabulated k':
+            if dataset['DataType'] == 'tabulated ' + imag_name:
                 k_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
 
@@ -902,7 +909,7 @@ class Material():
         new_dataset = {}
         new_dataset['Unit'] = datasets[0]['Unit']
         new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
-        new_dataset['DataType'] = 'tabulated nk'
+        new_dataset['DataType'] = 'tabulated ' + self.data['name']
         k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
         new_data = np.concatenate([n_data, k_data], axis=1)
         new_dataset['Data'] = _numeric_to_string_table(new_data)
-- 
2.43.0


From 5dbf8ed4a0d1b75573af633a8c503df0da094eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:23 +0000
Subject: [PATCH 21/60] fix: tables were cut off and rounded when converted to
 text

---
 src/dispersion/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..785a96d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,11 +62,10 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
-    no_brackets = re.sub(r'[\[\]]', '', string_array)
-    no_indent = re.sub(r'\n ', r"\n", no_brackets)
-    no_indent = no_indent.rstrip().lstrip()
-    return no_indent
+    rows = []
+    for row in np.atleast_2d(table):
+        rows.append(" ".join([repr(float(value)) for value in row]))
+    return "\n".join(rows)
 
 def _str_table_to_numeric(table):
     '''
-- 
2.43.0


From 21208a0d31027004ff896e248befc1750210d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:24 +0000
Subject: [PATCH 22/60] fix: text files kept only 8 decimals of the data

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 785a96d..e14acc6 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -658,7 +658,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
-                   fmt="%.8f")
+                   fmt="%s")
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From 22fb1d121c45f91600d6c0ad9767d604048839b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:26 +0000
Subject: [PATCH 23/60] fix: nk files could not be written

---
 src/dispersion/io.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index e14acc6..415086a 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -213,7 +213,7 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False, comment="#"):
     """
     read information from a file and rewrite with text prepended
     """
@@ -222,8 +222,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + comment)
+        text = comment + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -606,7 +606,9 @@ class Writer():
         if self.extension in txt_types:
             self._write_text_file()
             if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+                comment = ";" if self.extension == '.nk' else "#"
+                prepend_text_to_file(self.file_path, meta_comment,
+                                     comment=comment)
         elif self.extension == '.yml':
             self._write_yaml_file()
             if not meta_comment == "":
@@ -649,8 +651,12 @@ class Writer():
         #                               "supported for tabulated_nk and"+
         #                               "tabulted_n data.")
 
+        comments = "# "
         if self.extension == '.txt':
             delimiter = "\t"
+        elif self.extension == '.nk':
+            delimiter = "\t"
+            comments = "; "
         elif self.extension == '.csv':
             delimiter = ","
         data = multi_key(data_dict, {'data', 'Data'})
@@ -658,6 +664,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   comments=comments,
                    fmt="%s")
 
 
-- 
2.43.0


From 9340ee2626e1f7bb82004725d0f28dc2b943f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:28 +0000
Subject: [PATCH 24/60] fix: meta comments lost their last character or gained
 white space

---
 src/dispersion/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 415086a..3a3700c 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -407,7 +407,8 @@ class Reader():
                     multi_line_comment += line + "\n"
 
         if multi_line_comment != "":
-            file_dict['MetaData']['MetaComment'] = multi_line_comment
+            mcomment = multi_line_comment[:-1]
+            file_dict['MetaData']['MetaComment'] = mcomment
         dataset = file_dict['Datasets'][0]
 
         if dataset['DataType'] == "":
@@ -428,7 +429,6 @@ class Reader():
         file_dict = dict(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
@@ -663,7 +663,7 @@ class Writer():
         data = _str_table_to_numeric(data)
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
-                   header=header,
+                   header=header.rstrip("\n"),
                    comments=comments,
                    fmt="%s")
 
-- 
2.43.0


From 76bac52091fb671ecde990c1e7959da42e5aa179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 25/60] fix: text files with a single row could not be read

---
 src/dispersion/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 3a3700c..1ea7675 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -325,24 +325,24 @@ class Reader():
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8')
+                    data = np.loadtxt(self.file_path, encoding='utf-8', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt)
+                        data = np.loadtxt(fpt, ndmin=2)
             elif ext == '.csv':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      delimiter=',')
+                                      delimiter=',', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',')
+                        data = np.loadtxt(fpt,delimiter=',', ndmin=2)
             elif ext == '.nk':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      comments=';')
+                                      comments=';', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';')
+                        data = np.loadtxt(fpt, comments=';', ndmin=2)
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-- 
2.43.0


From 9f87e58b1605d6dba275620d1e0709e86a1f0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:32 +0000
Subject: [PATCH 26/60] fix: tables with repeated spectral values could not be
 used

---
 src/dispersion/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 1ea7675..0f774ff 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -90,8 +90,10 @@ def _str_table_to_numeric(table):
     else:
         raise TypeError("table of type " +
                         "{} cannot be parsed".format(type(table)))
-    if validate_table(numeric_table) is False:
-        numeric_table = fix_table(numeric_table)
+    if not validate_table(numeric_table):
+        # rows may come in any order, only repeated values are thrown out
+        order = np.argsort(numeric_table[:, 0], kind='stable')
+        numeric_table = fix_table(numeric_table[order])
     return numeric_table
 
 
-- 
2.43.0


From 680507b28fb4713d82812241dc0a38e20aded5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:34 +0000
Subject: [PATCH 27/60] fix: keys of yaml data files were only found in upper
 case

---
 src/dispersion/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 0f774ff..0be410b 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -450,9 +450,8 @@ class Reader():
         dict
             the updated file_dict
         """
-        for kwd in yaml_dict:
+        for kwd, arg in yaml_dict.items():
             kwd = kwd.upper()
-            arg = yaml_dict[kwd]
             valid = False
             if kwd == 'DATA':
                 valid = True
-- 
2.43.0


From 6368574b8faf6f4fab1d14c0c23f734372e4dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:36 +0000
Subject: [PATCH 28/60] fix: catalogue could not be rebuilt with current pandas

---
 src/dispersion/catalogue.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..36925a1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -20,9 +20,6 @@ import os
 import warnings
 import numpy as np
 import pandas as pd
-ver = pd.__version__
-split = ver.split(".")
-PANDAS_MINOR_VERSION = int(split[1])
 
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
@@ -142,18 +139,12 @@ class Catalogue(object):
                     dir_path = os.path.join(self.base_path, db_path)
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    df_new = pd.concat([df_new, dframe], sort=False,
+                                       ignore_index=True)
                 else:
                     dframe = df[df.Module == module]
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    df_new = pd.concat([df_new, dframe], sort=False,
+                                       ignore_index=True)
 
             else:
                 if rebuild == module:
-- 
2.43.0


From 47d0c8b103df6b2bbf05251c2b8fa88996ce21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:37 +0000
Subject: [PATCH 29/60] fix: rebuilding a list with a disabled module was not
 refused

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 36925a1..d5b56f3 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -147,7 +147,7 @@ class Catalogue(object):
                                        ignore_index=True)
 
             else:
-                if rebuild == module:
+                if module in rebuild:
                     raise ValueError("Tried to rebuild module" +
                                      "{}".format(rebuild) +
                                      ", however this module is disabled" +
-- 
2.43.0


From 8666f48c3bc56d67c05e51b085c8259c60c3ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:39 +0000
Subject: [PATCH 30/60] fix: alias could not be registered for a row of the
 data frame, unknown rows were added

---
 src/dispersion/catalogue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index d5b56f3..0842056 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -217,13 +217,16 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if row_id.shape[0] == 1:
+                index = row_id.index[0]
         elif isinstance(row_id, int):
             index = row_id
         if index is None:
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
+        if index not in self.database.index:
+            raise ValueError("row {} is not in the catalogue".format(index))
         if alias in self.database.loc[:, 'Alias'].values:
             if not self.database.at[index, 'Alias'] == alias:
                 raise ValueError("Alias {} ".format(alias) +
-- 
2.43.0


From 0f4e649a3e3f80ab142ca165631c948732e5524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:41 +0000
Subject: [PATCH 31/60] fix: alias lookup took the row label for a row number

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 0842056..0388656 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -240,7 +240,7 @@ class Catalogue(object):
         if isinstance(identifier, str):
             bool_array = self.database.Alias.values == identifier
             bool_list = bool_array.tolist()
-            row_index = self.database.index[bool_list]
+            row_index = np.flatnonzero(bool_list)
             if row_index.size == 0:
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
-- 
2.43.0


From cb4e48d5171a09f2ee7a101b9949e2f0445ec75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 32/60] fix: bounds in the catalogue were labelled with the
 wrong type and unit

---
 src/dispersion/catalogue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 0388656..9fcdcfd 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -351,8 +351,8 @@ class Catalogue(object):
                                 "Author":page['PAGE'],
                                 "Path":os.path.normpath(rel_path),
                                 "Module":"RefractiveIndexInfo"}
-                content_dict['SpectrumType'] = 'wavelength'
-                content_dict['Unit'] = 'micrometer'
+                content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+                content_dict['Unit'] = mat.defaults['unit']
                 valid_range = mat.get_maximum_valid_range()
                 content_dict['SpectrumLowerBound'] = valid_range[0]
                 content_dict['SpectrumUpperBound'] = valid_range[1]
@@ -402,8 +402,8 @@ class Catalogue(object):
             content_dict['Module'] = database_name
             content_dict['Comment'] = mat.meta_data['Comment']
             content_dict['Reference'] = mat.meta_data['Reference']
-            content_dict['SpectrumType'] = "wavelength"
-            content_dict['Unit'] = 'nanometer'
+            content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+            content_dict['Unit'] = mat.defaults['unit']
             valid_range = mat.get_maximum_valid_range()
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
-- 
2.43.0


From f90b41226666b330c563259f4eb18cade5609141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:44 +0000
Subject: [PATCH 33/60] fix: default configuration was not used when there is
 no config file

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..c6c0c59 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -146,7 +146,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From fb805d996f4a9e2298d8ba4cff39732625af3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:46 +0000
Subject: [PATCH 34/60] fix: configuration directory could not be made without
 ~/.config

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index c6c0c59..7d41625 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -83,7 +83,7 @@ def _get_user_config_dir():
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
     if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+        os.makedirs(config_dir)
     return config_dir
 
 def _get_package_dir():
-- 
2.43.0


From 23b7863c5e79f6eb214c8d615f19f006c472194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:47 +0000
Subject: [PATCH 35/60] fix: plots at a single spectral value failed

---
 src/dispersion/material.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 0464797..dd207d1 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -753,11 +753,11 @@ class Material():
         axes = plot_data['axes']
         plt.sca(axes)
         spectrum = plot_data['spectrum']
-        if spectrum.values.size == 1:
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_r, label=labels[0], color=color)
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_i, label=labels[1], ls='--', color=color)
+        if np.size(spectrum.values) == 1:
+            color = axes._get_lines.get_next_color()
+            plt.axhline(float(np.squeeze(data_r)), label=labels[0], color=color)
+            color = axes._get_lines.get_next_color()
+            plt.axhline(float(np.squeeze(data_i)), label=labels[1], ls='--', color=color)
         else:
             plt.plot(spectrum.values, data_r, label=labels[0])
             plt.plot(spectrum.values, data_i, ls='--', label=labels[1])
-- 
2.43.0


From 9735865d25db754074734869883cb942dccea6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:39 +0000
Subject: [PATCH 36/60] fix: Tauc-Lorentz model gave NaN for strong broadening

---
 src/dispersion/spectral_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 932bc64..7eee35a 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -656,8 +656,8 @@ class TaucLorentz(Model):
                     E0**2*(E0**2+3*Eg**2))
         alpha_atan = (E**2-E0**2)*(E0**2+Eg**2) + Eg**2*C**2
         alpha = np.sqrt(4*E0**2-C**2)
-        gamma = np.sqrt(E0**2 -0.5*C**2)
-        zeta4 = (E**2-gamma**2)**2 + 0.25*alpha**2*C**2
+        gammasq = E0**2 -0.5*C**2
+        zeta4 = (E**2-gammasq)**2 + 0.25*alpha**2*C**2
 
         part1 = (0.5*(A*C*alpha_ln/(np.pi*zeta4*alpha*E0)) *
                  np.log( (E0**2+Eg**2+alpha*Eg)/(E0**2+Eg**2-alpha*Eg)))
@@ -672,7 +672,7 @@ class TaucLorentz(Model):
         #           (np.pi+2*np.arctan2((gamma**2-Eg**2),(alpha*C)))))
 
         part3_1 = (4.*A*E0/(np.pi*zeta4*alpha))
-        part3_2 = Eg*(E**2-gamma**2)
+        part3_2 = Eg*(E**2-gammasq)
         part3_3 = ( np.arctan2(alpha+2*Eg,C) +
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
-- 
2.43.0


From e15ffb4e73300d35dd31f00ecffaf9601279e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:41 +0000
Subject: [PATCH 37/60] fix: Tauc-Lorentz model gave NaN at the band gap

---
 src/dispersion/spectral_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 7eee35a..a87edaf 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -677,12 +677,14 @@ class TaucLorentz(Model):
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
 
+        # at E == Eg the logarithms of the distance to the gap cancel
+        gap_dist = np.where(E == Eg, 1.0, np.abs(E-Eg))
         part4 = ((-A*E0*C/(np.pi*zeta4))*
                  ((E**2+Eg**2)/E) *
-                 np.log( np.abs(E-Eg)/(E+Eg)))
+                 np.log( gap_dist/(E+Eg)))
 
         part5 = ((2.*A*E0*C*Eg/(np.pi*zeta4)) *
-                 np.log( (np.abs(E-Eg)*(E+Eg))/
+                 np.log( (gap_dist*(E+Eg))/
                          np.sqrt((E0**2-Eg**2)**2+Eg**2*C**2)))
 
         eps_real = eps_inf + part1 + part2 + part3 + part4 +part5
-- 
2.43.0


From 2e925df65e76d98f97fb1517df2bfdefa1eee5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:43 +0000
Subject: [PATCH 38/60] fix: Bruggeman mixtures failed at a single spectral
 value

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index dd207d1..02ae623 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -986,7 +986,7 @@ class Bruggeman(EffectiveMedium):
         self.sol2 = solution2
         indices1 = np.imag(solution1) >= 0.0
         indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
+        eps_eff = np.zeros(np.shape(solution1), dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
-- 
2.43.0


From ba1902b8b4ef74730e9baefea1cd28c3367efdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:22 +0000
Subject: [PATCH 39/60] fix: sampling the valid range failed by rounding at its
 ends

---
 src/dispersion/material.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 02ae623..3e7aa95 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -685,22 +685,18 @@ class Material():
                                " a valid n/k or permittivity spectrum")
 
         if self.data['complex'] is None:
-            real_range_std = self.data['real'].valid_range.standard_rep
-            imag_range_std = self.data['imag'].valid_range.standard_rep
-            real_lower = np.min(real_range_std)
-            real_upper = np.max(real_range_std)
-            imag_lower = np.min(imag_range_std)
-            imag_upper = np.max(imag_range_std)
-            lower = np.max([real_lower, imag_lower])
-            upper = np.min([real_upper, imag_upper])
+            data_parts = ['real', 'imag']
         else:
-            range_std = self.data['complex'].valid_range.standard_rep
-            lower = np.min(range_std)
-            upper = np.max(range_std)
-        max_range = np.array([lower, upper])
-        spec = Spectrum(max_range)
-        return np.sort(spec.convert_to(self.defaults['spectrum_type'],
-                                       self.defaults['unit']))
+            data_parts = ['complex']
+        lower = 0.0
+        upper = np.inf
+        for data_part in data_parts:
+            valid_range = self.data[data_part].valid_range
+            values = valid_range.convert_to(self.defaults['spectrum_type'],
+                                            self.defaults['unit'])
+            lower = np.max([lower, np.min(values)])
+            upper = np.min([upper, np.max(values)])
+        return np.array([lower, upper])
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 5654ac43fdcf97b985d827c20623a75840b40160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:52 +0000
Subject: [PATCH 40/60] fix: converted values shared memory with the spectrum

---
 src/dispersion/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 0a97ffb..8731df3 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -317,6 +317,9 @@ class Spectrum(object):
             converted_values = self.values
         else:
             converted_values = convert_methods[spectrum_type](unit, values)
+        if isinstance(converted_values, np.ndarray):
+            # the caller may change the result without changing the spectrum
+            converted_values = converted_values.copy()
         if in_place:
             self.values = converted_values
             self.spectrum_type = spectrum_type
-- 
2.43.0


From 23dbb0732e078c2cba6945547a68e6bbe83ce4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:10 +0000
Subject: [PATCH 41/60] fix: refractiveindex.info names of the models were
 never written

---
 src/dispersion/io.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 0be410b..419eccb 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -568,15 +568,15 @@ class Writer():
                    "DataType": "type",
                    "Parameters": "coefficients",
                    "Data":"data",
-                   "Model:Sellmeier":"formula 1",
-                   "Model:Sellmeier2":"formula 2",
-                   "Model:Polynomial":"formula 3",
-                   "Model:RefractiveIndexInfo":"formula 4",
-                   "Model:Cauchy":"formula 5",
-                   "Model:Gases":"formula 6",
-                   "Model:Herzberger":"formula 7",
-                   "Model:Retro":"formula 8",
-                   "Model:Exotic":"formula 9"}
+                   "model Sellmeier":"formula 1",
+                   "model Sellmeier2":"formula 2",
+                   "model Polynomial":"formula 3",
+                   "model RefractiveIndexInfo":"formula 4",
+                   "model Cauchy":"formula 5",
+                   "model Gases":"formula 6",
+                   "model Herzberger":"formula 7",
+                   "model Retro":"formula 8",
+                   "model Exotic":"formula 9"}
 
     DATA_META_DATA_KEYS = ['Reference', 'Author',
                            'FullName', 'Name', 'Comment']
-- 
2.43.0


From 29e340439e99ee58edce258bea061d0fcd85ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:25 +0000
Subject: [PATCH 42/60] fix: Bruggeman mixtures with gain gave zero
 permittivity

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 3e7aa95..fbe2bdb 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -982,7 +982,7 @@ class Bruggeman(EffectiveMedium):
         self.sol2 = solution2
         indices1 = np.imag(solution1) >= 0.0
         indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(np.shape(solution1), dtype=np.cdouble)
+        eps_eff = np.array(solution1, dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
-- 
2.43.0


From 710c7a3030932d3bd97b06cae68ff7187217a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:40 +0000
Subject: [PATCH 43/60] fix: default configuration was wrong for home
 directories with ': ' or ' #'

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 7d41625..d1b2126 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: # set to the user specific directory below
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0


From aed712abe4a8374fd9e98fbef48a116bfd4184c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:42 +0000
Subject: [PATCH 44/60] fix: setup failed for a root directory that does not
 exist yet

---
 src/dispersion/scripts/setup_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0e1832d..0ac8ba1 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -108,7 +108,7 @@ def install_modules(conf):
         if install:
             module_dir = os.path.join(conf['Path'], module)
             if not os.path.isdir(module_dir):
-                os.mkdir(module_dir)
+                os.makedirs(module_dir)
             success = install_funcs[module](module_dir)
             if success is False:
                 conf['Modules'][module] = success
-- 
2.43.0


From ac15d6350d54968b220eb5b4c47eee20f1cb9aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:43 +0000
Subject: [PATCH 45/60] fix: setup disabled the refractiveindex.info module
 with the current layout

---
 src/dispersion/scripts/setup_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0ac8ba1..a961687 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -192,8 +192,10 @@ def install_rii(module_dir, ask_confirm=True):
                           " not present: {}".format(database_dir) +
                           " refractive index info module will be disabled")
             return False
+        # same files as in Catalogue.read_ri_info_db
         database_file = os.path.join(database_dir, "library.yml")
-        if not os.path.isfile(database_file):
+        current_file = os.path.join(database_dir, "catalog-nk.yml")
+        if not (os.path.isfile(database_file) or os.path.isfile(current_file)):
             warnings.warn("library file for refractive index info module"+
                           " not present: {}".format(database_file) +
                           " refractive index info module will be disabled")
-- 
2.43.0


From b0bb371f1d91e7f005a934f3bbabeb89a3935c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:45 +0000
Subject: [PATCH 46/60] fix: plots of the whole range in another unit failed by
 rounding at its ends

---
 src/dispersion/material.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index fbe2bdb..6f5e9d0 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -736,10 +736,10 @@ class Material():
         else:
             plot_data['axes'] = kwargs['axes']
         if data_label == 'nk':
-            data = self.get_nk_data(plot_data['spectrum'])
+            data = self.get_nk_data(plot_data['sample'])
             labels = ['n', 'k']
         elif data_label == 'permittivity':
-            data = self.get_permittivity(plot_data['spectrum'])
+            data = self.get_permittivity(plot_data['sample'])
             labels = ['eps_r', 'eps_i']
 
         data_r = np.real(data)
@@ -774,12 +774,11 @@ class Material():
         else:
             plot_data['unit'] = kwargs['unit']
         if 'values' not in kwargs:
-            spectrum = self.get_sample_spectrum()
-            values = spectrum.convert_to(plot_data['spectrum_type'],
-                                         plot_data['unit'])
-
-
+            sample = self.get_sample_spectrum()
+            values = sample.convert_to(plot_data['spectrum_type'],
+                                       plot_data['unit'])
         else:
+            sample = None
             values = kwargs['values']
             if isinstance(values, (list, tuple)):
                 values = np.array(values)
@@ -787,6 +786,8 @@ class Material():
                             spectrum_type=plot_data['spectrum_type'],
                             unit=plot_data['unit'])
         plot_data['spectrum'] = spectrum
+        # converted values may leave the valid range by rounding
+        plot_data['sample'] = spectrum if sample is None else sample
         return plot_data
 
     def get_sample_spectrum(self):
-- 
2.43.0


From 8e2b55a86f2303a14d4d4a8f9865fd02564ab1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 47/60] fix: comparing a material with one read from file
 failed

---
 src/dispersion/material.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 6f5e9d0..24af1c6 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -146,8 +146,9 @@ class Material():
         if not isinstance(other, Material):
             return False
 
-        for meta_data_key, meta_data_value in self.meta_data.items():
-            meta_data_value_other = other.meta_data[meta_data_key]
+        for meta_data_key in {**self.meta_data, **other.meta_data}:
+            meta_data_value = self.meta_data.get(meta_data_key, "")
+            meta_data_value_other = other.meta_data.get(meta_data_key, "")
             if not meta_data_value == meta_data_value_other:
                 return False
 
-- 
2.43.0


From 8b6be3cf1c23a7451c26e9b162cc4b4c5da0155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:47 +0000
Subject: [PATCH 48/60] fix: meta data with other keys was written with the
 value of another key

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 419eccb..dce18bf 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -697,8 +697,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
-                md = self.file_dict['MetaData'][key]
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
-- 
2.43.0


From 1ebb4aa65324731ed4494cc9b654a008ce625cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:22 +0000
Subject: [PATCH 49/60] fix: constants evaluated on a 2d array lost its shape

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index a87edaf..d0b7e05 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -97,7 +97,7 @@ class Constant(SpectralData):
         """returns the value of the spectral data for the given spectrum"""
         self.valid_range.contains(spectrum)
         if isinstance(spectrum.values, (list, tuple, np.ndarray)):
-            return self.constant * np.ones(len(spectrum.values))
+            return self.constant * np.ones(np.shape(spectrum.values))
         return self.constant
 
     def dict_repr(self):
-- 
2.43.0


From d9727ac8e5d144e28528a20a3c12d850fc060f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:24 +0000
Subject: [PATCH 50/60] fix: sample spectrum of a range open at one end left
 the valid range

---
 src/dispersion/material.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 24af1c6..bf02a87 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -794,11 +794,12 @@ class Material():
     def get_sample_spectrum(self):
         """spectrum which covers the maximum valid range of the material data"""
         max_range = self.get_maximum_valid_range()
-        if max_range[0] == 0.0 or max_range[1] == np.inf:
+        if max_range[0] == 0.0 and max_range[1] == np.inf:
             values = np.geomspace(100, 2000, 1000)
             spectrum = Spectrum(values, spectrum_type='wavelength',
                                 unit='nm')
         else:
+            max_range = self._close_range(max_range)
             values = np.geomspace(max_range[0], max_range[1], 1000)
             if values[0] < max_range[0]:
                 values[0] = max_range[0]
@@ -809,6 +810,20 @@ class Material():
                                 unit=self.defaults['unit'])
         return spectrum
 
+    def _close_range(self, valid_range):
+        """replace an open end of the range, keeping the given end"""
+        lower, upper = valid_range
+        if lower == 0.0 or upper == np.inf:
+            limits = Spectrum(np.array([100., 2000.]),
+                              spectrum_type='wavelength', unit='nm')
+            limits = limits.convert_to(self.defaults['spectrum_type'],
+                                       self.defaults['unit'])
+            if lower == 0.0:
+                lower = min(np.min(limits), upper/20.)
+            else:
+                upper = max(np.max(limits), lower*20.)
+        return [lower, upper]
+
     def prepare_file_dict(self):
         #if self._file_data is not None:
         #    return self._file_data
-- 
2.43.0


From e131092731a2a5ccadedfbcce5f96b3738c9d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:49 +0000
Subject: [PATCH 51/60] fix: lists and arrays of strings or other objects were
 accepted as spectrum

---
 src/dispersion/spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 8731df3..40944f5 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -190,6 +190,8 @@ class Spectrum(object):
         if not ( isinstance(values, np.ndarray) or
                  isinstance(values, float)):
             raise ValueError("values must be array like or float")
+        if isinstance(values, np.ndarray) and values.dtype.kind not in 'iuf':
+            raise ValueError("values must be real numbers")
 
         self.values = values
         self.standard_rep = None  # values in standardised representation
-- 
2.43.0


From 0710ef0a756f13dde52f6282da304ebb5ad2ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:08 +0000
Subject: [PATCH 52/60] fix: lists of integers beyond 64 bits were refused as
 spectrum

---
 src/dispersion/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 40944f5..193e2fe 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -190,6 +190,9 @@ class Spectrum(object):
         if not ( isinstance(values, np.ndarray) or
                  isinstance(values, float)):
             raise ValueError("values must be array like or float")
+        if isinstance(values, np.ndarray) and values.dtype.kind == 'O' and \
+                all(isinstance(val, (int, float)) for val in values.flat):
+            values = values.astype(float)  # integers beyond 64 bits
         if isinstance(values, np.ndarray) and values.dtype.kind not in 'iuf':
             raise ValueError("values must be real numbers")
 
-- 
2.43.0


From 4acd52b00faef1cb7a334cabd465b8bb40a52a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:11 +0000
Subject: [PATCH 53/60] fix: extrapolating data whose range is given as (upper,
 lower) lost the range

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index d0b7e05..4fd769d 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -142,7 +142,7 @@ class Extrapolation(SpectralData):
         extrap_values = extended_spectrum.convert_to(
             spectrum_type= base_spectrum.spectrum_type,
             unit= base_spectrum.unit)
-        new_range = np.array(base_spectrum.values, dtype=float)
+        new_range = np.sort(np.array(base_spectrum.values, dtype=float))
         if isinstance(extrap_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
             if extrap_values.size > 2:
-- 
2.43.0


From d68c1d85edf535ed1979189b81685e64cd6cf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:13 +0000
Subject: [PATCH 54/60] fix: materials from a table with one row could not be
 written

---
 src/dispersion/spectral_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 4fd769d..8538923 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -109,7 +109,13 @@ class Constant(SpectralData):
         data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
         data['SpectrumType'] = self.spectrum_type
         data['Unit'] = self.unit
-        data['Value'] = self.constant
+        lower, upper = self.valid_range.values
+        if lower == upper:
+            # valid at a single point, i.e. a table with one row
+            data['DataType'] = "tabulated"
+            data['Data'] = _numeric_to_string_table([lower, self.constant])
+        else:
+            data['Value'] = self.constant
         return data
 
 class Extrapolation(SpectralData):
-- 
2.43.0


From d8b2d6aede5a6fb1af8e2d390db622cee12f8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:14 +0000
Subject: [PATCH 55/60] fix: a refused extrapolation left the material half
 changed

---
 src/dispersion/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index bf02a87..aa69fa6 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -293,12 +293,14 @@ class Material():
         """
 
         if self.data['complex'] is None:
+            extrapolated = {}
             for data_name in ['real', 'imag']:
                 if isinstance(self.data[data_name], Constant):
                     continue
-                self.data[data_name] = Extrapolation(self.data[data_name],
-                                                     new_spectrum,
-                                                     spline_order=spline_order)
+                extrapolated[data_name] = Extrapolation(self.data[data_name],
+                                                        new_spectrum,
+                                                        spline_order=spline_order)
+            self.data.update(extrapolated)
         else:
             raise NotImplementedError("extrapolation not implemented " +
                                       "for materials with real and imaginary "+
-- 
2.43.0


From f07656f057e491e5ef9d097bb49010eca82a9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:16 +0000
Subject: [PATCH 56/60] fix: an empty alias looked up a material without alias

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 9fcdcfd..3c48a4c 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -241,7 +241,7 @@ class Catalogue(object):
             bool_array = self.database.Alias.values == identifier
             bool_list = bool_array.tolist()
             row_index = np.flatnonzero(bool_list)
-            if row_index.size == 0:
+            if row_index.size == 0 or identifier == "":
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-- 
2.43.0


From fe4ccdf88e6ff5cc3899be2a01e2439dacbbaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:53 +0000
Subject: [PATCH 57/60] fix: specifications outside the documented list were
 lost on writing

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index dce18bf..f230795 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -742,6 +742,9 @@ class Writer():
                 for key, val in specs.items():
                     if spec_key == key:
                         yaml_spec[spec_key] = val
+            for key, val in specs.items():
+                if key not in spec_order:
+                    yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
         write_yaml_file(self.file_path, yaml_dict)
-- 
2.43.0


From 2d6d154fef38d4c500b27539c1107fdfbe8126d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 58/60] fix: a malformed YAML file was read as an empty one

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f230795..06cb9ab 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -146,7 +146,7 @@ def read_yaml_file(file_path):
         else:
             try:
                 yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)
-            except:
+            except AttributeError: # FullLoader needs PyYAML 5.1
                 yaml_data = yaml.safe_load(fpt)
     return yaml_data
 
-- 
2.43.0


From f2df3fe15d7c5a14257309c3412feeae6fff3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:57 +0000
Subject: [PATCH 59/60] fix: models failed for integer wavelengths or
 coefficients

---
 src/dispersion/spectral_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 8538923..fa84e13 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -248,7 +248,8 @@ class Model(SpectralData):
 
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
-        self.model_parameters = model_parameters
+        # integers do not support negative powers
+        self.model_parameters = np.array(model_parameters, dtype=float)
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
@@ -304,6 +305,7 @@ class Model(SpectralData):
         new_spectrum = spectrum.convert_to(self.spectrum_type,
                                            self.unit)
         if isinstance(spectrum.values, (list, tuple, np.ndarray)):
+            new_spectrum = new_spectrum.astype(float)
             ones = np.ones(new_spectrum.shape)
         else:
             ones = 1.0
-- 
2.43.0


From 5e9602107d9266a80d023ccbcb67891035ce6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 60/60] fix: a data set without type and unit took those of the
 data set before it

---
 src/dispersion/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index aa69fa6..210f5cc 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -439,7 +439,10 @@ class Material():
         datasets = file_dict['Datasets']
         #self.dataTypes = []
         #self.dataSets = []
+        caller_defaults = dict(self.defaults)
         for dataset in datasets:
+            # what one data set states does not hold for the next one
+            self.defaults.update(caller_defaults)
             data_type, identifier = dataset['DataType'].split()
             #meta_data = dataset['MetaData']
             if data_type == 'tabulated':
-- 
2.43.0

