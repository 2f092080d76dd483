From 9628637dfe7d75f3e2f867bdcee8807385c1dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:19 +0000
Subject: [PATCH 01/16] fix: tabulated densities at integer Lorentz factors
 were truncated to integers

---
 agnpy/spectra/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 8a92977..6107908 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -801,7 +801,7 @@ class InterpolatedDistribution(ParticleDistribution):
         self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
 
         valid_indices = (gamma_min <= gamma) & (gamma <= gamma_max)
-        values = np.zeros_like(gamma)
+        values = np.zeros_like(gamma, dtype=float)
         values[valid_indices] = np.power(10, self.log10_interp(np.log10(gamma[valid_indices])))
         return norm * values * u.Unit("cm-3")
 
-- 
2.43.0


From 12907546450c160ca4f4dea905b1c3f97018ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 02/16] fix: self-absorption integrand lost the grid end points
 to rounding

---
 agnpy/spectra/spectra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 6107908..bb77fe4 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -283,6 +283,7 @@ class PowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n(\gamma)}{\gamma'^2}\right)`."""
+        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return k * np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             -(p + 2) * np.power(gamma, -p - 1),
@@ -388,6 +389,7 @@ class BrokenPowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -698,6 +700,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
     ):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         prefactor = -(index + 2) / gamma + (-1 / gamma_c)
         return np.where(
-- 
2.43.0


From 4bcb49e89cf5c1731294e9fbb20a54f0b1c8261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 03/16] fix: absorption_homogeneous is one, not NaN, where the
 opacity vanishes

---
 agnpy/absorption/targets_absorption.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 870cbd2..0e74a07 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -744,4 +744,6 @@ class Absorption:
         See e.g. section 2.5.1. of Finke et al. 2008.
         """
         t = self.tau(nu)
-        return (1 - np.exp(-t)) / t
+        # the limit for a vanishing opacity is one (no absorption)
+        _t = np.where(t == 0, 1, t)
+        return np.where(t == 0, 1, -np.expm1(-_t) / _t)
-- 
2.43.0


From 24f6fe459da4af090881a04ea61336b89ef85a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 04/16] fix: the callback of the time evolution got relative
 and absolute injection rates interchanged

---
 agnpy/time_evolution/time_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index df9f54a..0487e86 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -270,8 +270,8 @@ class TimeEvolution:
             total_time_elapsed += step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
-                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), abs_injection_rates,
-                    rel_injection_rates))
+                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
+                    abs_injection_rates))
             progress_percent = int((100 * total_time_elapsed / self._total_time_sec).round(0))
             log.info("Progress: %3d%% %s (%i bins)", progress_percent, total_time_elapsed, gm_bins.shape[-1])
 
-- 
2.43.0


From 5380ba91874f6ef7627735381347a33c0968014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 05/16] fix: the total_time handed to the callback changed in
 the following steps

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 0487e86..edee757 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -267,7 +267,7 @@ class TimeEvolution:
                                                    remap(mapping, abs_injection_rates, np.nan), recalc_mask)
             rel_injection_rates = recalc_new_rates(gm_bins[0], self._rel_injection_functions, density, subgroups_density,
                                                    remap(mapping, rel_injection_rates, np.nan), recalc_mask)
-            total_time_elapsed += step_time
+            total_time_elapsed = total_time_elapsed + step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
                     gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
-- 
2.43.0


From 5ee0c039cc5dc0ecdd8bd90d90cfd659df81dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 06/16] fix: the second evaluation of the Heun method started
 from the subgroup shares of the first

---
 agnpy/time_evolution/time_evolution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index edee757..6b4fe42 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -327,17 +327,17 @@ class TimeEvolution:
                             total_injection_grouped, unit_time_interval_sec):
 
         # ======== stage 1: apply time evaluation ========
-        new_gm_bins, new_dens, subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
+        new_gm_bins, new_dens, new_subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
                 en_changes_grouped * unit_time_interval_sec, total_injection_grouped * unit_time_interval_sec)
         dist = update_distribution(new_gm_bins, new_dens, self._blob)
 
         # ======== stage 2: for Heun method, recalculate bins ========
         if self._method.lower() == "heun":
-            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, subgroups_density)
+            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, new_subgroups_density)
             en_changes_grouped_recalced = sum_change_rates(en_chg_rates_recalced, new_gm_bins.shape, erg_per_s, self._subgroups)
             averaged_en_chg_rates_grouped = (en_changes_grouped + en_changes_grouped_recalced) / 2
             abs_en_chg_recalc = averaged_en_chg_rates_grouped * unit_time_interval_sec
-            new_gm_bins, new_dens, subgroups_density = (
+            new_gm_bins, new_dens, new_subgroups_density = (
                 self._apply_time_eval(en_bins, density, subgroups_density, abs_en_chg_recalc,
                                 total_injection_grouped * unit_time_interval_sec))
             dist = update_distribution(new_gm_bins, new_dens, self._blob)
@@ -345,7 +345,7 @@ class TimeEvolution:
 
         # ======== stage 3: sort and merge bins if needed ========
         new_gm_bins, new_dens, sort_and_merge_mapping = self._sort_and_merge_bins(new_gm_bins, new_dens, dist)
-        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, subgroups_density)
+        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, new_subgroups_density)
         final_mapping = sort_and_merge_mapping
 
         if self._gamma_bounds is not None:
-- 
2.43.0


From 68adc4249d2bafa90d7a797f4f0183b37b4b6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 07/16] fix: an empty evolved distribution had arrays as energy
 limits

---
 agnpy/time_evolution/_time_evolution_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 8841728..79d3a3f 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -234,7 +234,7 @@ def remove_empty_densities(result: TimeEvaluationResult) -> TimeEvaluationResult
 def update_distribution(gamma_array, n_array, blob):
     gamma_sorted_and_merged, n_array_sorted_and_merged, _ = sort_and_merge_duplicates(gamma_array, n_array, None)
     if np.all(n_array_sorted_and_merged == 0):
-        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0], gamma_max=gamma_sorted_and_merged[-1])
+        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0][0], gamma_max=gamma_sorted_and_merged[0][-1])
     else:
         if len(gamma_sorted_and_merged[0]) == 1:
             raise DistributionToSinglePointCollapseError(gamma_sorted_and_merged[0])
-- 
2.43.0


From 85e67ace3d27301254c9cd6aa0c569a48ec1df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 08/16] fix: bins at integer initial Lorentz factors had no
 width

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 6b4fe42..1e0f0e4 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -152,7 +152,7 @@ class TimeEvolution:
         if initial_gamma_array is not None and any(initial_gamma_array[1:] <= initial_gamma_array[:-1]):
             raise ValueError("initial_gamma_array must be strictly increasing")
         if initial_gamma_array is not None:
-           self._initial_gamma_array = initial_gamma_array
+           self._initial_gamma_array = np.asarray(initial_gamma_array, dtype=float)
         else:
             gamma_min = np.max([self._blob.n_e.gamma_min, gamma_bounds[0] if gamma_bounds is not None else 0])
             gamma_max = np.min([self._blob.n_e.gamma_max, gamma_bounds[-1] if gamma_bounds is not None else np.inf])
-- 
2.43.0


From 5cc5a31e08ddec30a5bd3ecb6f807bdf69cfc516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 09/16] fix: integer initial subgroup shares were truncated
 after the first step

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 1e0f0e4..5de5a9b 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -198,7 +198,7 @@ class TimeEvolution:
         density = self._blob.n_e(gm_bins_lb)
         if self._subgroups is not None:
             if self._subgroups_initial_density is not None:
-                subgroups_density = self._subgroups_initial_density
+                subgroups_density = np.asarray(self._subgroups_initial_density, dtype=float)
             else:
                 # first group all-ones, other groups all-zeros
                 subgroups_density = np.zeros((len(self._subgroups), len(self._initial_gamma_array)), dtype=float)
-- 
2.43.0


From 3add9fb643714406db29120e653f205d14475e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:35 +0000
Subject: [PATCH 10/16] fix: sherpa EC model returns no SED when the targets
 are listed as dt, blr

---
 agnpy/fit/sherpa_wrapper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/sherpa_wrapper.py b/agnpy/fit/sherpa_wrapper.py
index fb38086..1126e14 100644
--- a/agnpy/fit/sherpa_wrapper.py
+++ b/agnpy/fit/sherpa_wrapper.py
@@ -464,9 +464,11 @@ class ExternalComptonRegriddableModel1D(model.RegriddableModel1D):
 
     def calc(self, pars, x):
         """Evaluate the SED model."""
-        if self.targets == ["blr"]:
+        # the order in which the targets are listed does not matter
+        targets = set(self.targets)
+        if targets == {"blr"}:
             return _evaluate_sed_ec_blr_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["dt"]:
+        if targets == {"dt"}:
             return _evaluate_sed_ec_dt_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["blr", "dt"]:
+        if targets == {"blr", "dt"}:
             return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
-- 
2.43.0


From 1244f7208bb4647da2574140e3d59186278a6e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 11/16] fix: sherpa data took the systematic error of the
 previous instrument when none is given

---
 agnpy/fit/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 313f65b..af00cd6 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -46,14 +46,13 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
         e2dnde_errn = tab["e2dnde_errn"]
         e2dnde_errp = tab["e2dnde_errp"]
 
-        # add systematic errors
+        # add systematic errors, none if they are not given for this instrument
+        e2dnde_err_syst = np.zeros_like(e2dnde)
         if systematics_dict is not None:
             for instrument in systematics_dict.keys():
                 if name == instrument:
                     syst_rel_error = systematics_dict[instrument]
                     e2dnde_err_syst = syst_rel_error * e2dnde
-        else: 
-            e2dnde_err_syst = np.zeros_like(e2dnde)
 
         x = np.append(x, energy)
         y = np.append(y, e2dnde)
-- 
2.43.0


From 936c593e9c17515edc21f157a2e2b128225afbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 12/16] fix: sherpa data ignored the units of the table

---
 agnpy/fit/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index af00cd6..21da205 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -41,10 +41,11 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
     for tab in table.groups:
         name = tab["instrument"][0]
 
-        energy = tab["e_ref"]
-        e2dnde = tab["e2dnde"]
-        e2dnde_errn = tab["e2dnde_errn"]
-        e2dnde_errp = tab["e2dnde_errp"]
+        # the units assumed by the sherpa models
+        energy = u.Quantity(tab["e_ref"], "eV").value
+        e2dnde = u.Quantity(tab["e2dnde"], "erg cm-2 s-1").value
+        e2dnde_errn = u.Quantity(tab["e2dnde_errn"], "erg cm-2 s-1").value
+        e2dnde_errp = u.Quantity(tab["e2dnde_errp"], "erg cm-2 s-1").value
 
         # add systematic errors, none if they are not given for this instrument
         e2dnde_err_syst = np.zeros_like(e2dnde)
-- 
2.43.0


From 59f8429fbfa59132364c023b24aecef889e2991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 13/16] fix: particle distributions could not be evaluated on
 tables of Lorentz factors

---
 agnpy/spectra/spectra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index bb77fe4..64ea76b 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -1,6 +1,5 @@
 # module containing the particle spectra
 from abc import abstractmethod, ABC
-from typing import Iterable
 
 import numpy as np
 import astropy.units as u
@@ -215,8 +214,10 @@ class ParticleDistribution(ABC):
         and then incorrectly evaluate to zero. To correct for such cases, check the relative error,
         and if it is less than some very small value (let's say 1e-10), correct the gamma array accordingly, to fit into the allowed range.
         """
-        if not isinstance(gamma, Iterable) or len(gamma) == 0:
+        if not isinstance(gamma, np.ndarray) or gamma.size == 0:
             return
+        # arrays of any shape, the first and last values are the boundaries
+        gamma = gamma.flat
         if gamma_min > gamma[0]:
             if (gamma_min - gamma[0]) / gamma[0] < 1e-10:
                 gamma[0] = gamma_min
-- 
2.43.0


From bb54c551d32b039d60f41974cd37941c39d9967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 14/16] fix: gammapy models failed for single energies and
 tables (integrals over several bins, spectral_index)

---
 agnpy/fit/gammapy_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/fit/gammapy_wrapper.py b/agnpy/fit/gammapy_wrapper.py
index 105e20d..6e0ebec 100644
--- a/agnpy/fit/gammapy_wrapper.py
+++ b/agnpy/fit/gammapy_wrapper.py
@@ -163,7 +163,7 @@ class SynchrotronSelfComptonSpectralModel(SpectralModel):
         NOTE: All the model parameters will be passed as kwargs by
         SpectralModel.evaluate()."""
 
-        nu = energy.reshape([energy.shape[0]]).to("Hz", equivalencies=u.spectral())
+        nu = energy.reshape(-1).to("Hz", equivalencies=u.spectral())
 
         args = _sort_spectral_parameters(self._spectral_pars_names, self._n_e, **kwargs)
         z, d_L, delta_D, B, R_b = _sort_emission_region_parameters("ssc", **kwargs)
@@ -285,7 +285,7 @@ class ExternalComptonSpectralModel(SpectralModel):
         """Evaluate the SED model.
         NOTE: All the model parameters will be passed as kwargs by
         SpectralModel.evaluate()."""
-        nu = energy.reshape([energy.shape[0]]).to("Hz", equivalencies=u.spectral())
+        nu = energy.reshape(-1).to("Hz", equivalencies=u.spectral())
 
         args = _sort_spectral_parameters(self._spectral_pars_names, self._n_e, **kwargs)
         z, d_L, delta_D, B, R_b, mu_s, r = _sort_emission_region_parameters(
-- 
2.43.0


From feff7a79b83d477ab9d5d5d1df78c1eab5638728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 15/16] fix: print_lines_list could not be called on a broad
 line region

---
 agnpy/targets/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agnpy/targets/targets.py b/agnpy/targets/targets.py
index 19bc9a5..285f669 100644
--- a/agnpy/targets/targets.py
+++ b/agnpy/targets/targets.py
@@ -504,6 +504,7 @@ class SphericalShellBLR:
             + f" - R_line (radius of the BLR shell): {self.R_line.cgs:.2e}\n"
         )
 
+    @staticmethod
     def print_lines_list():
         r"""Print the list of the available spectral lines.
         The dictionary with the possible emission lines is taken from Table 5 in
-- 
2.43.0


From c9648a03a1e5327cc096d719724031b3ee0c2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:34 +0000
Subject: [PATCH 16/16] fix: external Compton kept the angles of a disk after
 its target was replaced

---
 agnpy/compton/external_compton.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/agnpy/compton/external_compton.py b/agnpy/compton/external_compton.py
index 692c24e..a447dd0 100644
--- a/agnpy/compton/external_compton.py
+++ b/agnpy/compton/external_compton.py
@@ -45,6 +45,19 @@ class ExternalCompton(RadiativeProcess):
         self.set_mu()
         self.set_phi()
 
+    @property
+    def target(self):
+        """Target photon field."""
+        return self._target
+
+    @target.setter
+    def target(self, target):
+        old_target = getattr(self, "_target", None)
+        self._target = target
+        # the angles under which a disk is seen do not cover the other targets
+        if isinstance(old_target, SSDisk) and not isinstance(target, SSDisk):
+            self.set_mu(self.mu_size)
+
     def set_mu(self, mu_size=100):
         self.mu_size = mu_size
         if isinstance(self.target, SSDisk):
-- 
2.43.0

