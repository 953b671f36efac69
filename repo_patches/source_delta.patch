From 438e0fed02af35e3a7bb03cba6c84ca3011a2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:27 +0000
Subject: [PATCH 01/13] fix: recompute omega_m when the cosmology is updated

omega_m was a functools.cached_property, which the parameter framework does not
invalidate: after update(omega_c=...) the baryon fractions kept the old value.
---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..e9769db 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From 51336e1771c3ab7c269ec90e2f5e423af3d82059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:27 +0000
Subject: [PATCH 02/13] fix: recompute fractions and models of UpsampledSpectra
 after an update

frac_1, frac_2, power_1 and power_2 were functools.cached_property and kept the
values of the first evaluation after update(z=...), update(fraction=...) or
update of the model parameters.
---
 src/onepower/add.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..dc3640e 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,8 +1,7 @@
 import numpy as np
-from functools import cached_property
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
+from hmf._internals._cache import cached_quantity, parameter
 from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
@@ -126,7 +125,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +150,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +164,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +178,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From f3cc6553ab49db0adacf0dc6d7227b1633ca84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:27 +0000
Subject: [PATCH 03/13] fix: track beta_two as a parameter of the alignment
 amplitudes

beta_two was a plain attribute: update(beta_two=...) left the cached central
alignment amplitude unchanged.
---
 src/onepower/ia.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..543e913 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -168,6 +168,15 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @parameter('param')
+    def beta_two(self, val):
+        """
+        Power law slope of centrals below the pivot luminosity.
+
+        :type: float or None
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
-- 
2.43.0


From a6cce438890dd846d93a4a84443ae42eb6c0c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:00 +0000
Subject: [PATCH 04/13] fix: do not write derived arrays into the caller's
 align_params

Evaluating alignment_class inserted z_vec, mass_in, c_in, r_s_in, rvir_in and
method into the dictionary the user passed.
---
 src/onepower/pk.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..730179b 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2082,17 +2082,16 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
-            {
-                'z_vec': self.z_vec,
-                'mass_in': self.mass,
-                'c_in': self.conc_cen,
-                'r_s_in': self.r_s_cen,
-                'rvir_in': self.rvir_cen[0],
-                'method': 'fftlog',
-            }
-        )
-        return SatelliteAlignment(**self.align_params)
+        align_params = {
+            **self.align_params,
+            'z_vec': self.z_vec,
+            'mass_in': self.mass,
+            'c_in': self.conc_cen,
+            'r_s_in': self.r_s_cen,
+            'rvir_in': self.rvir_cen[0],
+            'method': 'fftlog',
+        }
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From a3c3635738619b06418fee1e7d12346efd954e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:00 +0000
Subject: [PATCH 05/13] fix: give the default gas pivot mass in mass units

The pivot divides the halo mass directly (the CosmoSIS module passes 10**m_b), so
the default 13.87 put the pivot at 13.87 Msun/h and gas was never expelled.
---
 src/onepower/pk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 730179b..0f8949f 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -82,7 +82,7 @@ class Spectra(HaloModelIngredients):
     response : bool, optional
         Whether to calculate the resulting power spectra in response formalism.
     mb : float, optional
-        Gas distribution mass pivot parameter.
+        Gas distribution mass pivot parameter, in the units of the halo mass.
     dewiggle : bool, optional
         Whether to dewiggle the power spectrum.
     nonlinear_mode : str, optional
@@ -152,7 +152,7 @@ class Spectra(HaloModelIngredients):
         compute_observable=False,
         matter_power_lin=None,
         matter_power_nl=None,
-        mb=13.87,
+        mb=10.0**13.87,
         beta_nl=None,
         one_halo_ktrunc=0.1,
         two_halo_ktrunc=2.0,
-- 
2.43.0


From 441f05eb1ee53464183348aeec1a1d7b2afb714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:00 +0000
Subject: [PATCH 06/13] fix: normalise the mean halo mass of centrals by the
 density of centrals

The mass integral over centrals was divided by the density of all galaxies, so
the mean was low by the central fraction; the previous implementation
(legacy/hod/hod_interface.py) divides by the density of centrals.
---
 src/onepower/pk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 0f8949f..4ddbbc0 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1689,14 +1689,14 @@ class Spectra(HaloModelIngredients):
     @cached_quantity
     def mass_avg(self):
         """
-        Compute the average mass.
+        Compute the average mass of the haloes hosting central galaxies.
 
         Returns:
         --------
         ndarray
             The average mass.
         """
-        return self.hod.avg_halo_mass_cen / self.hod.number_density
+        return self.hod.avg_halo_mass_cen / self.hod.number_density_cen
 
     @cached_quantity
     def obs(self):
-- 
2.43.0


From 469ab784938c121444223cf080d3c2481099660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:03 +0000
Subject: [PATCH 07/13] fix: gate the alignment mass scaling of each population
 by its own option

central_IA_depends_on switched the satellite slope and pivot, and
satellite_IA_depends_on the central ones.
---
 cosmosis_modules/onepower_interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 40cc26f..425d807 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -906,7 +906,7 @@ def execute(block, config):
 
     if alignment:
         align_params = {}
-        if central_IA == 'halo_mass':
+        if satellite_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_sat': block[
@@ -924,7 +924,7 @@ def execute(block, config):
                     'mpivot_sat': None,
                 }
             )
-        if satellite_IA == 'halo_mass':
+        if central_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_cen': block[
@@ -974,7 +974,7 @@ def execute(block, config):
         )
         if split_ia:
             align_params_2 = align_params.copy()
-            if central_IA == 'halo_mass':
+            if satellite_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_sat': block[
@@ -992,7 +992,7 @@ def execute(block, config):
                         'mpivot_sat': None,
                     }
                 )
-            if satellite_IA == 'halo_mass':
+            if central_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_cen': block[
-- 
2.43.0


From a358afeab621461ceca0ecd572c252aee41f7a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:03 +0000
Subject: [PATCH 08/13] fix: pass the alignment dependence options on to the
 model

central_IA_depends_on and satellite_IA_depends_on were read but never reached the
model, which then failed on the missing pivot mass for any option but halo_mass.
---
 cosmosis_modules/onepower_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 425d807..cd359ac 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -944,6 +944,8 @@ def execute(block, config):
             )
         align_params.update(
             {
+                'central_ia_depends_on': central_IA,
+                'satellite_ia_depends_on': satellite_IA,
                 'nmass': 5,
                 'n_hankel': 350,
                 'nk': 10,
-- 
2.43.0


From 213661c4a8df3cb12e2910da1b50c8d7f63fdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:03 +0000
Subject: [PATCH 09/13] fix: accept an observables file in the CosmoSIS module

With observables_file set the settings hold no obs_min, zmin or nz, and both
setup and the saving of the observable function raised KeyError.
---
 cosmosis_modules/onepower_interface.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index cd359ac..a8d9f62 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -316,7 +316,8 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = len(hod_settings['obs_min'])
+        # An observables file describes a single bin
+        nbins = len(hod_settings['obs_min']) if 'obs_min' in hod_settings else 1
     else:
         hod_settings = {}
         hod_settings_mm = {}
@@ -513,18 +514,7 @@ def save_obs_results(block, power, observable_section_name, obs_settings):
     block.put(observable_section_name, 'obs_func_definition', 'obs_func * obs * ln(10)')
     for nb in range(obs_bins):
         suffix_obs = f'_{nb + 1}'
-        if np.all(
-            np.array(
-                [
-                    obs_settings['obs_min'].size,
-                    obs_settings['obs_max'].size,
-                    obs_settings['zmin'].size,
-                    obs_settings['zmax'].size,
-                    obs_settings['nz'],
-                ]
-            )
-            == 1
-        ):
+        if obs_bins == 1 and obs_range.shape[1] == 1:
             block.put_double_array_1d(
                 observable_section_name, f'obs_val{suffix_obs}', np.squeeze(obs_range)
             )
-- 
2.43.0


From 3bd9800c79468a26f06c83a7652fa62a835af16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:03 +0000
Subject: [PATCH 10/13] fix: share scalar HOD parameters between all observable
 bins

---
 src/onepower/hod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index b86c683..23b5239 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -338,6 +338,9 @@ class HaloOccupationDistribution(Component):
         array_like
             Interpolated data.
         """
+        if len(data) == 1:
+            # Scalar HOD parameters are shared by all the bins
+            data = np.repeat(data, self.z.shape[0], axis=0)
         n_int = [
             interp1d(
                 self.z[i], data[i], fill_value=fill_value, bounds_error=False, axis=axis
-- 
2.43.0


From 5ae8c7effa8c61bef7ea6ba31bdd0cb4301a0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:15 +0000
Subject: [PATCH 11/13] fix: use the virial radii of each redshift for the
 satellite alignment

The virial radii of the first redshift were used for all redshifts, which is
wrong whenever the halo definition depends on redshift (virial overdensity,
mead2020 ingredients).
---
 src/onepower/ia.py | 6 ++++--
 src/onepower/pk.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 543e913..2e5b2d1 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -965,6 +965,8 @@ class SatelliteAlignment(AlignmentAmplitudes):
             * self.r_s**3.0
             * (np.log(1.0 + self.c) - self.c / (1.0 + self.c))
         )
+        # Virial radii given per halo mass only are shared by all redshifts
+        rvir = np.broadcast_to(self.rvir, self.r_s.shape)
         uk_l = np.zeros(
             [self.ell_values.size, self.z_vec.size, self.mass.size, self.k_vec.size]
         )
@@ -977,7 +979,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                             self.gamma_r_nfw_profile(
                                 x,
                                 self.r_s[jz, im],
-                                self.rvir[im],
+                                rvir[jz, im],
                                 self.gamma_1h_amp[jz],
                                 self.gamma_1h_slope,
                                 truncate=self.truncate,
@@ -1003,7 +1005,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                     self.gamma_r_nfw_profile(
                         r[np.newaxis, np.newaxis, :],
                         self.r_s[:, :, np.newaxis],
-                        self.rvir[np.newaxis, :, np.newaxis],
+                        rvir[:, :, np.newaxis],
                         self.gamma_1h_amp[:, np.newaxis, np.newaxis],
                         self.gamma_1h_slope,
                         truncate=self.truncate,
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4ddbbc0..2456237 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2088,7 +2088,7 @@ class Spectra(HaloModelIngredients):
             'mass_in': self.mass,
             'c_in': self.conc_cen,
             'r_s_in': self.r_s_cen,
-            'rvir_in': self.rvir_cen[0],
+            'rvir_in': self.rvir_cen,
             'method': 'fftlog',
         }
         return SatelliteAlignment(**align_params)
-- 
2.43.0


From b2562a97fb069ceb0c3f00d2191f6c563d7ce803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:52 +0000
Subject: [PATCH 12/13] fix: read the occupation parameters of alignment-only
 CosmoSIS runs

Without galaxy spectra the number of bins was zero, so the Zheng and Zhai
models were given empty parameter arrays and every run ended in IndexError.
---
 cosmosis_modules/onepower_interface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index a8d9f62..fb2ada4 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -330,6 +330,13 @@ def setup_hod(options, galaxy, alignment, split_ia):
         else:
             hod_settings_ia_1 = setup_hod_settings(options, 'ia')
             hod_settings_ia_2 = {}
+        if not galaxy:
+            # The occupation parameters are those of the alignment sample
+            nbins = (
+                len(hod_settings_ia_1['obs_min'])
+                if 'obs_min' in hod_settings_ia_1
+                else 1
+            )
     else:
         hod_settings_ia_1 = {}
         hod_settings_ia_2 = {}
-- 
2.43.0


From 09556dea77155e6ab48e60b486191a90ab62ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:19 +0000
Subject: [PATCH 13/13] fix: place the projected correlation functions at their
 own separations

FFTLog numbers its grid from 1, so with a grid numbered from 0 every
separation was one step too small (and the amplitude one step too large).
---
 cosmosis_modules/pk_to_real/pk_to_real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmosis_modules/pk_to_real/pk_to_real.py b/cosmosis_modules/pk_to_real/pk_to_real.py
index 5f3f228..86862d3 100644
--- a/cosmosis_modules/pk_to_real/pk_to_real.py
+++ b/cosmosis_modules/pk_to_real/pk_to_real.py
@@ -117,7 +117,7 @@ class Transformer:
         log_kmid = 0.5 * (log_kmin + log_kmax)
         k_mid = np.exp(log_kmid)
         r_mid = self.kr / k_mid
-        x = np.arange(n)
+        x = np.arange(1, n + 1)
 
         # And the effective separations of the output
         self.rp = np.exp((x - nc) * dlogr) * r_mid
-- 
2.43.0

