From ee1dfbeb757bac4e0fd2e5f4a4ad1573968e6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:54 +0000
Subject: [PATCH 001/110] fix: derive the period when a binary is rebuilt from
 a table with only the separation

---
 posydon/binary_evol/binarystar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..c9e2f2f 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -681,9 +681,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -909,9 +909,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
-- 
2.43.0


From e470441e60da1c16ec80691f74791550adc781c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:36 +0000
Subject: [PATCH 002/110] fix: honour max_n_steps_per_binary given to
 SimulationProperties

---
 posydon/binary_evol/simulationproperties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index c06675e..63bc2d0 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -196,7 +196,8 @@ class SimulationProperties:
         # Set functions for evolution
         self.all_step_names = []  ## list of strings of all evolutionary steps
         for key, val in self.kwargs.items():
-            if "step" not in key:   # skip loading steps
+            # skip loading steps (the limit on their number is not a step)
+            if "step" not in key or key == "max_n_steps_per_binary":
                 setattr(self, key, val)
             elif "step" in key:
                 self.all_step_names.append(key)
-- 
2.43.0


From 3078b5a73901a6fad612e71032ad5665d550b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 003/110] fix: evaluate Eddington limit and Kudritzki wind
 factor per history entry

---
 posydon/utils/common_functions.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d3e0a29..24def58 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -424,6 +424,8 @@ def eddington_limit(binary, idx=-1):
         np.asanyarray([*donor.surface_h1_history, donor.surface_h1],
                       dtype=float)[idx])
 
+    mdot_edd = np.empty(len(state_acc))
+    eta = np.empty(len(state_acc))
     for i in range(len(state_acc)):
         if state_acc[i] is None:
             if any(j == 'NS' for j in accretor.state_history):
@@ -441,17 +443,19 @@ def eddington_limit(binary, idx=-1):
             r_isco = 6 #TODO: get r_isco as input/calculate from spin
             # m_ini is the accretor mass at zero spin
             m_ini = m_acc[i] * np.sqrt(r_isco / 6)
-            eta = 1 - np.sqrt(1 - (min(m_acc[i],
-                                       np.sqrt(6) * m_ini) / (3 * m_ini))**2)
+            eta[i] = 1 - np.sqrt(1 - (min(m_acc[i],
+                                          np.sqrt(6) * m_ini) / (3 * m_ini))**2)
         else:
             # 1.25 * 10**6 cm
             acc_radius = CO_radius(m_acc[i], state_acc[i]) * const.Rsun
-            eta = const.standard_cgrav*m_acc[i]/(acc_radius*const.clight**2)
+            eta[i] = const.standard_cgrav*m_acc[i]/(acc_radius*const.clight**2)
 
         # This is the mass accretion rate corresponding to the
         # Eddington luminosity, L_edd = eta * mdot_edd * clightˆ2 (cgs units)
-        mdot_edd = (4 * np.pi * const.standard_cgrav * m_acc[i]
-                    / (0.2 * (1 + surface_h1[i]) * eta * const.clight))
+        mdot_edd[i] = (4 * np.pi * const.standard_cgrav * m_acc[i]
+                       / (0.2 * (1 + surface_h1[i]) * eta[i] * const.clight))
+    if len(state_acc) == 1:
+        mdot_edd, eta = mdot_edd[0], eta[0]
     return mdot_edd / (const.msol / const.secyer), eta
 
 
@@ -606,13 +610,14 @@ def bondi_hoyle(binary, accretor, donor, idx=-1, wind_disk_criteria=True,
 
     # Kudritzki, R.-P., & Puls, J. 2000, ARA&A, 38, 613
     elif scheme == 'Kudritzki+2000':
+        f_m = np.empty_like(sep)
         for i in range(len(m)):
             if Teff[i] >= 21000:
-                f_m = 2.65
+                f_m[i] = 2.65
             elif Teff[i] <= 10000:
-                f_m = 1.0
+                f_m[i] = 1.0
             else:
-                f_m = 1.4
+                f_m[i] = 1.4
 
     v_esc = np.sqrt(2 * G * m * Msun / (radius * Rsun))     # m/s
     v_wind = v_esc * f_m                                    # m/s
-- 
2.43.0


From 1112ec2d7336890d0fb7c5d94481b5a5bfd6473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 004/110] fix: Fryer+12-delayed remnant of a CO core of exactly
 11 Msun

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index a003984..fbdbd23 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1366,7 +1366,7 @@ class StepSN(object):
                 b = -11.0 * a + 1.0
                 f_fb = a * m_core + b
                 m_fb = f_fb * (m_collapsing - m_proto)
-            elif m_core > 11.0:
+            elif m_core >= 11.0:
                 f_fb = 1.0
                 m_fb = f_fb * (m_collapsing - m_proto)
             m_rembar = m_proto + m_fb
-- 
2.43.0


From 31d216ca99b8a8849110f473cc63dcb5a93943d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 005/110] fix: support the documented 'direct_he_core' collapse
 mechanism

---
 posydon/binary_evol/SN/step_SN.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index fbdbd23..d8652c2 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1378,6 +1378,12 @@ class StepSN(object):
             f_fb = 1.0
             state = None
 
+        # direct collapse of the He core and f_fb = 1. (no kicks)
+        elif self.mechanism == self.direct_collapse_hecore:
+            m_rembar = m_He_core
+            f_fb = 1.0
+            state = None
+
         # Collapse prescription from the results of
         # Sukhbold, T., Ertl, T., Woosley, S. E., Brown, J. M., & Janka, H. T. (2016). 821(1), 38.
         elif self.mechanism == self.Sukhbold16_engines:
-- 
2.43.0


From 155ef9ca706a05ef984cd4d223e6d0d9b0e9edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 006/110] fix: give the supernova step a random generator when
 built with defaults

---
 posydon/binary_evol/SN/step_SN.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index d8652c2..e4fa353 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -272,13 +272,11 @@ class StepSN(object):
                     raise ValueError(key + " is not a valid parameter name!")
             for varname in self.DEFAULT_KWARGS:
                 setattr(self, varname, kwargs.get(varname, self.DEFAULT_KWARGS[varname]))
-            self.RNG = kwargs.get("RNG")
-            if self.RNG is None:
-                self.RNG = np.random.default_rng()
-
         else:
             for varname in self.DEFAULT_KWARGS:
                 setattr(self, varname, self.DEFAULT_KWARGS[varname])
+        if self.RNG is None:
+            self.RNG = np.random.default_rng()
 
         # backward compatibility for kick
         if (self.kick_normalisation == 'asym_ej'
-- 
2.43.0


From df98734f30fd53546d3e2a71e51fe00dda102202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 007/110] fix: without kicks, widen the orbit by the mass loss
 of the star that collapsed

---
 posydon/binary_evol/SN/step_SN.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index e4fa353..0198704 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -485,10 +485,14 @@ class StepSN(object):
         else:
             # no kick, but still need to unset the event after CC
             # and update orbital period/separation
+            if binary.event == "CC1":
+                collapsed, companion = binary.star_1, binary.star_2
+            else:
+                collapsed, companion = binary.star_2, binary.star_1
             binary.event = None
             new_separation = separation_evol_wind_loss(
-                    binary.star_1.mass, binary.star_1.mass_history[-1],
-                    binary.star_2.mass, binary.separation)
+                    collapsed.mass, collapsed.mass_history[-1],
+                    companion.mass, binary.separation)
             new_orbital_period = orbital_period_from_separation(
                     new_separation, binary.star_1.mass, binary.star_2.mass)
 
-- 
2.43.0


From 56579b08dc24943bd4854226ac0bf19bf5873ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 008/110] fix: do not disrupt circular post-SN orbits because
 of rounding

---
 posydon/binary_evol/SN/step_SN.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 0198704..70c3015 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1839,6 +1839,9 @@ class StepSN(object):
                     * rpre ** 2
                     / (G * Mtot_post * Apost))
 
+                # circular orbit within the numerical precision
+                if 0. > 1.-x >= -const.SNcheck_ERR:
+                    x = 1.
                 # catch negative values, i.e. disrupted binaries
                 if 1.-x < 0.:
                     epost = np.nan
-- 
2.43.0


From 2f6a5679e24fcc2aa91fe4a35e6b1c3b52415ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:22 +0000
Subject: [PATCH 009/110] fix: black-hole mass unit when the stellar profile
 lacks information

---
 posydon/binary_evol/SN/profile_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/profile_collapse.py b/posydon/binary_evol/SN/profile_collapse.py
index 23abc1b..2197afd 100644
--- a/posydon/binary_evol/SN/profile_collapse.py
+++ b/posydon/binary_evol/SN/profile_collapse.py
@@ -184,7 +184,7 @@ def get_initial_BH_properties(star, mass_collapsing, mass_central_BH,
               "collapse the star and determine the remnant properties.",
               'InappropriateValueWarning')
         # estimate still initial BH mass
-        mass_initial_BH = mass_central_BH - neutrino_mass_loss
+        mass_initial_BH = (mass_central_BH - neutrino_mass_loss) * const.Msun
         return [mass_initial_BH, np.nan, np.nan, np.array([]), np.array([]),
                 np.array([]), np.array([]), np.array([]), np.array([]),
                 np.array([]), np.array([]), np.nan]
-- 
2.43.0


From f345584486f4607fbbaeab6a34db32e29009e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:39 +0000
Subject: [PATCH 010/110] fix: use the companion's own core radius after a
 double common envelope

---
 posydon/binary_evol/CE/step_CEE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index dcbcd7f..036dc5f 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -435,10 +435,10 @@ class StepCEE(object):
         else:
             if comp_type == 'He_core':
                 mc2_f = comp_star.he_core_mass
-                rc2_f = donor.he_core_radius
+                rc2_f = comp_star.he_core_radius
             elif comp_type == 'CO_core':
                 mc2_f = comp_star.co_core_mass
-                rc2_f = donor.co_core_radius
+                rc2_f = comp_star.co_core_radius
             elif comp_type == 'not_giant_companion':
                 mc2_f = comp_star.mass
                 rc2_f = 10.**(comp_star.log_R)
-- 
2.43.0


From 232c5285114d5c31644c07494460982397e99939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:47 +0000
Subject: [PATCH 011/110] fix: partial envelope ejection of a merging
 single-donor common envelope

---
 posydon/binary_evol/CE/step_CEE.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 036dc5f..60bedcb 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1289,7 +1289,10 @@ class StepCEE(object):
         E_orb_released_to_inner_RLOF = alpha_CE * (E_orb_initial - E_orb_final)
 
         # We assume "lambda_from_profile_gravitational_plus_internal_minus_recombination"
+        M_envelope_donor = m1_i  - mc1_i
+        M_envelope_companion = m2_i - mc2_i
         if not double_CE:
+            Mejected_comp = 0.0
             Mejected_donor = \
                 calculate_Mejected_for_integrated_binding_energy(donor.profile,
                     E_orb_released_to_inner_RLOF, mc1_i, rc1_i, m1_i, radius1)
@@ -1300,8 +1303,6 @@ class StepCEE(object):
             # ejection of each (common) envelope is the same as the ratio of
             # the initial envelope masses:
 
-            M_envelope_donor = m1_i  - mc1_i
-            M_envelope_companion = m2_i - mc2_i
             weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)
 
             Eorb_for_partial_ej_donor = E_orb_released_to_inner_RLOF * weight
-- 
2.43.0


From fb9cb13cf00dc0ce488b998b36ab7db4b089d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:00 +0000
Subject: [PATCH 012/110] fix: mix the surfaces of merging helium stars by
 their own envelope masses

---
 posydon/binary_evol/DT/step_merged.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 55e697d..54d3bf5 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -642,11 +642,6 @@ class MergedStep(IsolatedStep):
                 else:
                     Pwarn("Unexpected combination of CO core masses during merging", "EvolutionWarning")
 
-                # add total and core masses
-                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
-                    current = getattr(star_base, key) + getattr(comp, key)
-                    setattr(merged_star, key,current)
-
                 # weigheted mixing on the surface abundances based on the He-rich envelopes of the two stars
                 additional_parameter_to_mix = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
                 for abundance_name in additional_parameter_to_mix:
@@ -656,6 +651,12 @@ class MergedStep(IsolatedStep):
                                                                                 mass_weight1="He-rich_envelope_mass",
                                                                                 mass_weight2="He-rich_envelope_mass"))
 
+                # The change of masses occurs after the calculation of weighted averages
+                # add total and core masses
+                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
+                    current = getattr(star_base, key) + getattr(comp, key)
+                    setattr(merged_star, key,current)
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
-- 
2.43.0


From 4cfb1e7984cfbcaf87cdb4fb3b1d0f20aa01c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:00 +0000
Subject: [PATCH 013/110] fix: keep the core burning luminosities of a post-MS
 star merging with a MS star

---
 posydon/binary_evol/DT/step_merged.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 54d3bf5..a5ddddd 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -289,11 +289,12 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                log_LHe, log_LZ = star_base.log_LHe, star_base.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = star_base.log_LHe
-                merged_star.log_LZ = star_base.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)  # TODO for sure this needs testing!
 
                 massless_remnant = convert_star_to_massless_remnant(comp)
@@ -316,11 +317,12 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                log_LHe, log_LZ = comp.log_LHe, comp.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = comp.log_LHe
-                merged_star.log_LZ = comp.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)
 
                 massless_remnant = convert_star_to_massless_remnant(star_base)
-- 
2.43.0


From 929553b35980c061db4b7cfdc2086dbfddf91bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 014/110] fix: do not record the final point of a detached step
 twice in the histories

---
 posydon/binary_evol/DT/step_detached.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 73907fd..682056e 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -727,7 +727,7 @@ class detached_step:
                 # such that history has more than one entry.
                 # Otherwise, this is updated later in BinaryStar.run_step()
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
     def update_co_stars(self, t, primary, secondary):
 
@@ -771,7 +771,7 @@ class detached_step:
                 current = history[-1]
                 setattr(obj, key, current)
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
 class detached_evolution:
     """
-- 
2.43.0


From df3947c04ffc9e72e2ee32759515e02939823a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 015/110] fix: history time steps of a detached step end
 exactly at its end

---
 posydon/binary_evol/DT/step_detached.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 682056e..3b6ef36 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -552,15 +552,13 @@ class detached_step:
         """
 
         if self.dt is not None and self.dt > 0:
-            t = np.arange(binary.time, self.res.t[-1] + self.dt/2.0, self.dt)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.arange(binary.time, self.res.t[-1], self.dt)[1:]
+            # always stop exactly where the integration stopped
+            t = np.hstack([t[t < self.res.t[-1]], self.res.t[-1]])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
-            t_step = (self.res.t[-1] - binary.time) / self.n_o_steps_history
-            t = np.arange(binary.time, self.res.t[-1] + t_step / 2.0, t_step)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.linspace(binary.time, self.res.t[-1],
+                            self.n_o_steps_history + 1)[1:]
         else:  # self.dt is None and self.n_o_steps_history is None
             t = np.array([self.res.t[-1]])
 
-- 
2.43.0


From fd265e1d7671c3d189f86fa608e812ff5bd04af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:21 +0000
Subject: [PATCH 016/110] fix: units of the saturated Matt+15 braking of the
 primary

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index ae1aa05..fac311a 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -183,7 +183,7 @@ def M15_braking(primary, secondary, verbose = False):
 
     if (Rossby_number_pri < 0.14):
         dOmega_mb_pri = (
-            T0_pri * (chi**2.6) * (omega1 / 2.6e-6) / MOI_1
+            T0_pri * (chi**2.6) * (omega1 / omega_sol) / MOI_1
             * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
         )
     else:
-- 
2.43.0


From 77e1d1e80bc8f242c37631b0ff3b2ce207f8d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:21 +0000
Subject: [PATCH 017/110] fix: CARB braking of the primary is limited by the
 primary's own mass

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index fac311a..0900d8d 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -372,7 +372,7 @@ def CARB_braking(primary, secondary, verbose = False):
 
     dOmega_mb_pri = (
         (2./3.) * omega1 * mdot_1 * R_alfven_pri**2 / MOI_1
-        * np.clip((1.5 - m2) / (1.5 - 1.3), 0, 1)
+        * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
     )
 
     return -abs(dOmega_mb_sec), -abs(dOmega_mb_pri)
-- 
2.43.0


From e9e0697831cbc7429330e011fc9c3f48ee45c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:20 +0000
Subject: [PATCH 018/110] fix: 1PN coefficients of the gravitational-wave
 orbital decay (Junker & Schaefer 1992)

---
 .../binary_evol/DT/gravitational_radiation/default_gravrad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
index 2008332..9c6b0f9 100644
--- a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
+++ b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
@@ -51,8 +51,8 @@ def default_gravrad(a, e, primary, secondary, verbose = False):
         * ((96 + 292 * e ** 2 + 37 * e ** 4) * (1 - e ** 2)
         - (1 / 28 * const.standard_cgrav * (m1 + m2) * const.msol
         / (a * const.rsol * const.clight ** 2))
-        * ((14008 + 4707 * v)+(80124 + 21560 * v) * e ** 2
-        + (17325 + 10458) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
+        * ((14008 + 4704 * v)+(80124 + 21560 * v) * e ** 2
+        + (17325 + 10458 * v) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
         ) * const.secyer / const.rsol
     # eq. (35) of Junker et al. 1992, 254, 146
 
-- 
2.43.0


From bb28a6bb73a7024bd203d71f442847b36a4d0f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:20 +0000
Subject: [PATCH 019/110] fix: an unknown magnetic braking mode switches
 braking off with a warning

---
 posydon/binary_evol/DT/step_detached.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 3b6ef36..356e9f6 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -1381,7 +1381,7 @@ class detached_evolution:
 
         else:
             Pwarn("WARNING: Magnetic braking is not being calculated in the "
-                "detached step. The given magnetic_braking_mode string ",
+                "detached step. The given magnetic_braking_mode string "
                 f"'{self.magnetic_braking_mode}' does not match the available "
                 "built-in cases. To enable magnetic braking, please set "
                 "magnetc_braking_mode to one of the following strings: "
@@ -1389,6 +1389,7 @@ class detached_evolution:
                 "'G18' for Garraffo et al. 2018"
                 "'M15' for Matt et al. 2015"
                 "'CARB' for Van & Ivanova 2019", "UnsupportedModelWarning")
+            dOmega_mb_sec, dOmega_mb_pri = 0.0, 0.0
 
         #if self.verbose:
         #    print("magnetic_braking_mode = ", self.magnetic_braking_mode)
-- 
2.43.0


From eac8c501595f87b3570c2e9422df0d9db477076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:24 +0000
Subject: [PATCH 020/110] fix: convert the magnetic field of CARB braking to
 solar units and years

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index 0900d8d..d1b5fff 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -349,7 +349,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_sec = (
             R2**4 * rot_ratio_sec**4 * tau_ratio_sec**4
             / (mdot_2**2 * v_mod2_sec)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_sec = 0.0
 
@@ -357,7 +357,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_pri = (
             R1**4 * rot_ratio_pri**4 * tau_ratio_pri**4
             / (mdot_1**2 * v_mod2_pri)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_pri = 0.0
 
-- 
2.43.0


From 77562b7f94edb92179066f26f6d99a1df39b5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:35 +0000
Subject: [PATCH 021/110] fix: detached step no longer steps over Roche-lobe
 overflow when the orbit hardly changes

---
 posydon/binary_evol/DT/step_detached.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 356e9f6..3af876f 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -497,6 +497,12 @@ class detached_step:
             of the stars evolution through the detached step.
 
         """
+        # never step over a substantial part of a track, otherwise the solver
+        # could miss a star filling its Roche lobe within a single step
+        remaining = [star.t_max - star.interp1d.t0 for star in (primary, secondary)]
+        remaining = [dt for dt in remaining if dt > 0.0]
+        max_step = min(remaining) / 50.0 if remaining else np.inf
+
         try:
             res = solve_ivp(self.evo,
                             events=[self.evo.ev_rlo1, self.evo.ev_rlo2,
@@ -505,7 +511,8 @@ class detached_step:
                             t_span=(binary.time, self.max_time),
                             y0=[binary.separation, binary.eccentricity,
                                 secondary.omega0, primary.omega0],
-                            dense_output=True)
+                            dense_output=True,
+                            max_step=max_step)
         except Exception as e:
             if self.verbose:
                 print(f"RK45 failed with error {e}, trying with 'RK45' method.")
@@ -516,7 +523,8 @@ class detached_step:
                             t_span=(binary.time, self.max_time),
                             y0=[binary.separation, binary.eccentricity,
                                 secondary.omega0, primary.omega0],
-                            dense_output=True)
+                            dense_output=True,
+                            max_step=max_step)
 
         if res.status == -1:
             failed_state = binary.state
-- 
2.43.0


From 492988b83903f8aacfc399069c56a5cf8ef4908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:28 +0000
Subject: [PATCH 022/110] fix: a secondary may end its life while the primary
 still has part of its track left

---
 posydon/binary_evol/DT/step_detached.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 3af876f..7ddde22 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -447,11 +447,11 @@ class detached_step:
                             self.track_matcher.get_star_final_values(primary)
                             self.track_matcher.get_star_profile(primary)
 
-                        if primary.mass != secondary.mass:
-                            raise POSYDONError(
-                                "Both stars are found to be ready for collapse "
-                                "(i.e. end of their life) during the detached "
-                                "step, but do not have the same mass")
+                            if primary.mass != secondary.mass:
+                                raise POSYDONError(
+                                    "Both stars are found to be ready for collapse "
+                                    "(i.e. end of their life) during the detached "
+                                    "step, but do not have the same mass")
 
                 elif self.res.t_events[3]:
                     # reached t_max of track. End of life (possible collapse) of primary
-- 
2.43.0


From f6af0daf3ede5aeee3853dc0b455e1cd772197e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:21 +0000
Subject: [PATCH 023/110] fix: exchange double common envelope events and
 mass-transfer cases when flipping stars

---
 posydon/utils/common_functions.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 24def58..31d187b 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1426,6 +1426,10 @@ def flip_stars(binary):
         setattr(binary, 'event', 'oCE2')
     elif event == 'oCE2':
         setattr(binary, 'event', 'oCE1')
+    if event == 'oDoubleCE1':
+        setattr(binary, 'event', 'oDoubleCE2')
+    elif event == 'oDoubleCE2':
+        setattr(binary, 'event', 'oDoubleCE1')
     if event == 'CC1':
         setattr(binary, 'event', 'CC2')
     elif event == 'CC2':
@@ -1451,8 +1455,23 @@ def flip_stars(binary):
     cond_oCE1 = event_history == 'oCE2'
     event_history[cond_oCE2] = 'oCE2'
     event_history[cond_oCE1] = 'oCE1'
+    cond_oDoubleCE2 = event_history == 'oDoubleCE1'
+    cond_oDoubleCE1 = event_history == 'oDoubleCE2'
+    event_history[cond_oDoubleCE2] = 'oDoubleCE2'
+    event_history[cond_oDoubleCE1] = 'oDoubleCE1'
     setattr(binary, 'event_history', event_history.tolist())
 
+    # the mass-transfer case names the donor, e.g. case_A1
+    def flip_case(case):
+        if isinstance(case, str) and case.startswith('case_'):
+            return case.translate(str.maketrans('12', '21'))
+        return case
+    setattr(binary, 'mass_transfer_case',
+            flip_case(getattr(binary, 'mass_transfer_case')))
+    setattr(binary, 'mass_transfer_case_history',
+            [flip_case(case)
+             for case in getattr(binary, 'mass_transfer_case_history')])
+
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
 
         value1 = getattr(binary, i+'1')
-- 
2.43.0


From 6f4ad52f0674d83c5cae623c20a758a123de67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:51 +0000
Subject: [PATCH 024/110] fix: MESA grid step without saving the initial
 conditions

---
 posydon/binary_evol/MESA/step_mesa.py | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index bfaec1b..ce56410 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -509,23 +509,22 @@ class MesaGridStep:
         if binary.state == 'initial_RLOF':
             return
 
-        if track_interpolation or self.save_initial_conditions:
-            len_binary_hist = len(getattr(binary, "time_history"))
-            length_binary_hist = len(cb_bh['age']) - 1
-            length_star_hist = len(cb_hs[0]['center_he4']) - 1
-            length_hist = min(length_binary_hist, length_star_hist)
-            empty_h = [None] * length_hist
-            MESA_history_bug_fix = False
-            if length_binary_hist != length_star_hist:
-                MESA_history_bug_fix = True
-                Pwarn(
-                    'The MESA star_history and binary_history do not match: '
-                    'lenght %i != %i. This will cause errors, e.g. '
-                    'get_binary_state_and_event_and_mt_case take '
-                    'star.mdot_history - star.lg_wind_mdot. To '
-                    'avoid the code breaking, we append np.nan '
-                    'to the missing values.' %
-                    (length_binary_hist, length_star_hist), "ReplaceValueWarning")
+        len_binary_hist = len(getattr(binary, "time_history"))
+        length_binary_hist = len(cb_bh['age']) - 1
+        length_star_hist = len(cb_hs[0]['center_he4']) - 1
+        length_hist = min(length_binary_hist, length_star_hist)
+        empty_h = [None] * length_hist
+        MESA_history_bug_fix = False
+        if length_binary_hist != length_star_hist:
+            MESA_history_bug_fix = True
+            Pwarn(
+                'The MESA star_history and binary_history do not match: '
+                'lenght %i != %i. This will cause errors, e.g. '
+                'get_binary_state_and_event_and_mt_case take '
+                'star.mdot_history - star.lg_wind_mdot. To '
+                'avoid the code breaking, we append np.nan '
+                'to the missing values.' %
+                (length_binary_hist, length_star_hist), "ReplaceValueWarning")
 
         # update properties
         for key in BINARYPROPERTIES:
-- 
2.43.0


From 918bf027d8e9c57f72e330783f5fc9f85c5fd806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:51 +0000
Subject: [PATCH 025/110] fix: limit the accretion rates in the history of a
 MESA grid step by the Eddington rate

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index ce56410..62e3a32 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -841,7 +841,7 @@ class MesaGridStep:
                                         RNG=self.RNG,
                                         scheme='Kudritzki+2000')
                          for i in range(-length_hist-1, -1)]
-                tmp_edd = [cf.eddington_limit(binary, idx=i)[0]
+                tmp_edd = [np.log10(cf.eddington_limit(binary, idx=i)[0])
                            for i in range(-length_hist-1, -1)]
                 history_of_attribute = np.log10(10**cb_bh[key_bh][:-1] + tmp_h)
                 history_of_attribute = [
-- 
2.43.0


From 2b40579d2611225a7acfdb2b04b8ca58b909331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 026/110] fix: redirect CO-HeMS binaries outside the period
 range of the RLO grid

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 62e3a32..253af5b 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1596,14 +1596,14 @@ class CO_HeMS_RLO_step(MesaGridStep):
         # period inside the grid, but m1 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                self.p_min <= p <= self.p_max and
-               m1 < self.m2_min or m1 > self.m2_max)):
+               (m1 < self.m2_min or m1 > self.m2_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
                                 ' while the period is inside the grid.')
         # period inside the grid, but m2 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                 self.p_min <= p <= self.p_max and
-                m2 < self.m1_min or m2 > self.m1_max)):
+                (m2 < self.m1_min or m2 > self.m1_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
                                 ' while the period is inside the grid.')
-- 
2.43.0


From 88ae6159bfd502a002dfd47214671ecf63ac2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:32 +0000
Subject: [PATCH 027/110] fix: grid limits of CO-HeMS binaries whose second
 star is the helium star

---
 posydon/binary_evol/MESA/step_mesa.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 253af5b..74dac7d 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1693,17 +1693,35 @@ class CO_HeMS_step(MesaGridStep):
             super().__call__(binary)
 
         # period inside the grid, but m1 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m1 < self.m1_min or m1 > self.m1_max):
+        elif (not self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m1 < self.m1_min or m1 > self.m1_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m1}) is outside the grid,'
                              ' while the period is inside the grid.')
 
         # period inside the grid, but m2 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m2 < self.m2_min or m2 > self.m2_max):
+        elif (not self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m2 < self.m2_min or m2 > self.m2_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m2}) is outside the grid,'
                              ' while the period is inside the grid.')
 
+        # the same with flipped stars
+        elif (self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m2 < self.m1_min or m2 > self.m1_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
+                             ' while the period is inside the grid.')
+        elif (self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m1 < self.m2_min or m1 > self.m2_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
         else:
             self.binary.state = 'detached'
             self.binary.event = 'redirect_from_CO_HeMS'
-- 
2.43.0


From 3780136561d0d4c2c3ed1f53d8cb3b8897f6772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:32 +0000
Subject: [PATCH 028/110] fix: minimum secondary mass of HMS-HMS binaries with
 exchanged stars

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 74dac7d..d3e3db6 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1329,7 +1329,7 @@ class MS_MS_step(MesaGridStep):
               state_2 == 'H-rich_Core_H_burning' and
               event == 'ZAMS' and
               self.m1_min <= m2 <= self.m1_max and
-              np.max([self.q_min, 0.5/m1]) <= 1./mass_ratio <= self.q_max and
+              np.max([self.q_min, 0.5/m2]) <= 1./mass_ratio <= self.q_max and
               self.p_min <= p <= self.p_max):
             self.flip_stars_before_step = True
             super().__call__(self.binary)
-- 
2.43.0


From c6bd533687c156e1268618eac44a215c0f02e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:48 +0000
Subject: [PATCH 029/110] fix: infer the states at the maximum time also when
 the MESA track is kept

---
 posydon/binary_evol/MESA/step_mesa.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index d3e3db6..1650292 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1241,19 +1241,19 @@ class MesaGridStep:
                 # detele last N entries from history
                 setattr(binary, key_history,
                         getattr(binary, key_history)[:self.flush_entries])
-            # Check star and binary state, event, MT case
-            setattr(
-                self.binary.star_1, 'state',
-                cf.check_state_of_star(self.binary.star_1, star_CO=star_1_CO))
-            setattr(
-                self.binary.star_2, 'state',
-                cf.check_state_of_star(self.binary.star_2, star_CO=star_2_CO))
-            binary_state, binary_event, MT_case = (
-                cf.get_binary_state_and_event_and_mt_case(
-                    self.binary, verbose=self.verbose))
-            setattr(self.binary, 'state', binary_state)
-            setattr(self.binary, 'event', binary_event)
-            setattr(self.binary, 'mass_transfer_case', MT_case)
+        # Check star and binary state, event, MT case
+        setattr(
+            self.binary.star_1, 'state',
+            cf.check_state_of_star(self.binary.star_1, star_CO=star_1_CO))
+        setattr(
+            self.binary.star_2, 'state',
+            cf.check_state_of_star(self.binary.star_2, star_CO=star_2_CO))
+        binary_state, binary_event, MT_case = (
+            cf.get_binary_state_and_event_and_mt_case(
+                self.binary, verbose=self.verbose))
+        setattr(self.binary, 'state', binary_state)
+        setattr(self.binary, 'event', binary_event)
+        setattr(self.binary, 'mass_transfer_case', MT_case)
 
     def interpolate_at_t(self, t, t_before, t_after, v_before, v_after):
         """Linear interpolation in time between two points.
-- 
2.43.0


From a2239f5c9b6e0af929d2afb7d27ab11cca584752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 030/110] fix: MESA grid step ending exactly at the maximum
 simulation time

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 1650292..8828247 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -398,7 +398,7 @@ class MesaGridStep:
             self.step(binary, interp_method=self.interpolation_method)
 
         if (self.stop_method == 'stop_at_max_time'
-                and binary.time >= binary.properties.max_simulation_time):
+                and binary.time > binary.properties.max_simulation_time):
 
             # self.flush_history = True # needed???
 
-- 
2.43.0


From 794f76c3709038ba622174bdf5d850447a42bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:46 +0000
Subject: [PATCH 031/110] fix: look for star 2's age column in its own history
 when cutting before carbon depletion

---
 posydon/grids/scrubbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/scrubbing.py b/posydon/grids/scrubbing.py
index 1d44e8b..f447171 100644
--- a/posydon/grids/scrubbing.py
+++ b/posydon/grids/scrubbing.py
@@ -258,7 +258,7 @@ def keep_till_central_abundance_He_C(bh, h1, h2,
                 age_He_depletion1 = h1["star_age"][last_index]
             else:
                 age_He_depletion1 = bh["age"][last_index]
-            if ("star_age" in h1.dtype.names):
+            if ("star_age" in h2.dtype.names):
                 age_He_depletion2 = h2["star_age"][last_index2]
             else:
                 age_He_depletion2 = bh["age"][last_index2]
-- 
2.43.0


From f521460d70991675573728f8165f6bd77ce05e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 032/110] fix: take the values at He depletion from the
 scrubbed histories, not from abandoned models

---
 posydon/grids/psygrid.py | 47 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 84f356b..bcb8d7c 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -695,6 +695,28 @@ class PSyGrid:
         dtype_initial_values = self.initial_values.dtype
         dtype_final_values = self.final_values.dtype
 
+        def set_values_at_He_depletion(i, history1, history2):
+            """Add the values at He depletion to the final values."""
+            for starID in ["S1_", "S2_"]:
+                if starID == "S1_":
+                    h = history1
+                elif starID == "S2_":
+                    h = history2
+                else: # pragma: no cover
+                    h = None
+                i_He_depl = -1
+                for col in EXTRA_STAR_COLS_AT_HE_DEPLETION:
+                    fvcol = starID + col + "_at_He_depletion"
+                    if fvcol in dtype_final_values.names:
+                        if ((i_He_depl==-1) and (h is not None)):
+                            i_He_depl = get_i_He_depl(h)
+                        if ((h is not None) and (col in h.dtype.names) and
+                            (i_He_depl>=0)):
+                            self.final_values[i][fvcol] = \
+                                h[col][i_He_depl]
+                        else:
+                            self.final_values[i][fvcol] = np.nan
+
         self._say('Loading MESA data...')
 
         #this int array will store the run_index of the i-th run and will be
@@ -752,25 +774,9 @@ class PSyGrid:
             if self.config["He_core_fix"]:
                 history2 = fix_He_core(history2)
 
-            # get values at He depletion and add them to the final values
-            for starID in ["S1_", "S2_"]:
-                if starID == "S1_":
-                    h = history1
-                elif starID == "S2_":
-                    h = history2
-                else: # pragma: no cover
-                    h = None
-                i_He_depl = -1
-                for col in EXTRA_STAR_COLS_AT_HE_DEPLETION:
-                    fvcol = starID + col + "_at_He_depletion"
-                    if fvcol in dtype_final_values.names:
-                        if ((i_He_depl==-1) and (h is not None)):
-                            i_He_depl = get_i_He_depl(h)
-                        if ((h is not None) and (col in h.dtype.names) and
-                            (i_He_depl>=0)):
-                            self.final_values[i][fvcol] = h[col][i_He_depl]
-                        else:
-                            self.final_values[i][fvcol] = np.nan
+            # get values at He depletion (from scrubbed histories, see below)
+            if ignore or self.eeps is not None:
+                set_values_at_He_depletion(i, history1, history2)
 
             # scrub histories (unless EEPs are selected or run is ignored)
             if not ignore and self.eeps is None:
@@ -940,6 +946,9 @@ class PSyGrid:
                         ages=[history1_age, None, None]
                     )
 
+                # abandoned models must not provide the values at He depletion
+                set_values_at_He_depletion(i, history1, history2)
+
                 # if scubbing wiped all the binary history, discard run
                 if binary_history is not None:
                     binary_history_len = len(binary_history)
-- 
2.43.0


From 0c0a9a3022d137d9537b7f031e5945e333bd4053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:44 +0000
Subject: [PATCH 033/110] fix: join grids whose final values hold mt_history or
 type columns

---
 posydon/grids/psygrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index bcb8d7c..2c3d1d8 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -2692,8 +2692,8 @@ def join_grids(input_paths, output_path,
         new_final_dtype = []
         for dtype in final_dtype.descr:
             if (dtype[0].startswith("termination_flag") or
-                ("SN_type" in dtype[0]) or ("_state" in dtype[0]) or
-                ("_class" in dtype[0])):
+                (dtype[0] == "mt_history") or ("_type" in dtype[0]) or
+                ("_state" in dtype[0]) or ("_class" in dtype[0])):
                 dtype = (dtype[0], H5_REC_STR_DTYPE.replace("U", "S"))
             new_final_dtype.append(dtype)
         new_final_values = np.array(new_final_values, dtype=new_final_dtype)
-- 
2.43.0


From 38c18c9e6f485e97a0fefa77188edc869e14533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:30 +0000
Subject: [PATCH 034/110] fix: keep lazily loaded tables usable after the grid
 file is reopened to add a column

---
 posydon/grids/lazy_hdf.py | 6 ++++++
 posydon/grids/psygrid.py  | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/posydon/grids/lazy_hdf.py b/posydon/grids/lazy_hdf.py
index b06ec19..7e5ded9 100644
--- a/posydon/grids/lazy_hdf.py
+++ b/posydon/grids/lazy_hdf.py
@@ -2,6 +2,7 @@ __authors__ = [
     "Seth Gossage <seth.gossage@northwestern.edu>"
 ]
 
+import h5py
 import numpy as np
 import pandas as pd
 
@@ -72,6 +73,11 @@ class LazyHDF5:
             data = data.astype(self._dtype_list)
         return data
 
+    def relink(self, dataset):
+        """Point to the dataset of a reopened file (unless held in memory)."""
+        if isinstance(self._dataset, h5py.Dataset):
+            self._dataset = dataset
+
     def astype(self, dtype): # pragma: no cover
         return LazyHDF5(np.asarray(self).astype(dtype), self._dtype_set)
 
diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 2c3d1d8..82a8dea 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1465,6 +1465,15 @@ class PSyGrid:
         mode = "a" if writeable else "r"
         self.hdf5 = h5py.File(self.filepath, mode, **driver_args)
 
+        # lazily loaded tables have to point to the newly opened file
+        lazy_tables = {"/grid/initial_values": self.initial_values,
+                       "/grid/final_values": self.final_values}
+        for model_name, table in self._SN_values.items():
+            lazy_tables["/grid/SN_MODELS/" + model_name] = table
+        for key, table in lazy_tables.items():
+            if isinstance(table, LazyHDF5) and key in self.hdf5:
+                table.relink(self.hdf5[key])
+
     def load(self, filepath=None, lazy=True):
         """Load up a previously created PSyGrid object from an HDF5 file.
 
-- 
2.43.0


From 188f9b33b9a134c0ca1c17f904cc3d464b72b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:16 +0000
Subject: [PATCH 035/110] fix: converting a lazily loaded table returns the
 requested dtype, so columns can be overwritten

---
 posydon/grids/lazy_hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/lazy_hdf.py b/posydon/grids/lazy_hdf.py
index 7e5ded9..e0b7950 100644
--- a/posydon/grids/lazy_hdf.py
+++ b/posydon/grids/lazy_hdf.py
@@ -79,7 +79,7 @@ class LazyHDF5:
             self._dataset = dataset
 
     def astype(self, dtype): # pragma: no cover
-        return LazyHDF5(np.asarray(self).astype(dtype), self._dtype_set)
+        return LazyHDF5(np.asarray(self).astype(dtype))
 
     @property
     def dtype(self):
-- 
2.43.0


From 3ff91ba2ed35d3557279862d020702215d3591bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 036/110] fix: string columns added to a grid are not cut when
 overwritten with longer strings

---
 posydon/grids/psygrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 82a8dea..a4d9f99 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1420,8 +1420,12 @@ class PSyGrid:
                 raise POSYDONError("Column `{}` already exists in final "
                                    "values.".format(colname))
         else:
+            col_dtype = arr.dtype.descr[0][1]
+            if arr.dtype.kind == "U":
+                # same length as in the file, to hold any later replacement
+                col_dtype = H5_REC_STR_DTYPE.replace("S", "U")
             self.final_values = add_field(self.final_values,
-                                          [(colname, arr.dtype.descr[0][1])])
+                                          [(colname, col_dtype)])
             self.final_values[colname] = arr
 
         self.update_final_values()
-- 
2.43.0


From db16694b3c140ea89094aeebaebbb36876eae188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:50 +0000
Subject: [PATCH 037/110] fix: selecting interpolation constraints no longer
 edits the shared list

---
 posydon/interpolation/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 45fbf75..bd2f479 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -436,7 +436,7 @@ def find_constraints_to_apply(out_keys):
             if len(new_fields) == 0:
                 should_apply = False
             else:
-                constraint["fields"] = new_fields
+                constraint = {**constraint, "fields": new_fields}
 
         elif constraint["type"] == 3:
 
-- 
2.43.0


From ba3f4101e0f558478a73d19e18bd53b518d1b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:30 +0000
Subject: [PATCH 038/110] fix: convective-region constraint fails for a
 thickness of a third of the radius

---
 posydon/interpolation/constraints.py | 30 ++++++++++++----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index bd2f479..acb39e5 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -196,25 +196,21 @@ def get_thickness_n_radius(fv_dict, constraint, keys):
             fv_dict[keys[2]] = 0.5 * R
             fv_dict[keys[1]] = R
         else:
-            slope = ((r - centroid[1])/(t - centroid[0]))
-
-            coeff_mat_one = np.array([[-1, slope],
-                                      [1, -0.5]])
-
-            dep_vec_one = np.array([-centroid[1] + slope * centroid[0], 0])
-
-            coeff_mat_two = np.array([[-1, slope],
-                                      [1, 0.5]])
-
-            dep_vec_two = np.array([-centroid[1] + slope * centroid[0], R])
-
-            inters = [np.linalg.solve(coeff_mat_one, dep_vec_one),
-                      np.linalg.solve(coeff_mat_two, dep_vec_two)]
-
+            # points on the line through the centroid and (t, r), which cross
+            # the lower (r = 0.5 t) and the upper edge (r = R - 0.5 t)
+            dt, dr = t - centroid[0], r - centroid[1]
+            inters = []
+            for scale, denom in [(-R / 3, dr - 0.5 * dt),
+                                 (R / 3, dr + 0.5 * dt)]:
+                if denom != 0.:    # not parallel to this edge
+                    inters.append((centroid[1] + scale / denom * dr,
+                                   centroid[0] + scale / denom * dt))
+
+            tol = EPS * max(1., R)
             valid_inters = [inter for inter in inters
                             if inter[1] > 0
-                            and inter[0] >= 0.5 * inter[1] - EPS
-                            and inter[0] + 0.5 * inter[1] <= R + EPS]
+                            and inter[0] >= 0.5 * inter[1] - tol
+                            and inter[0] + 0.5 * inter[1] <= R + tol]
 
             assert len(valid_inters) > 0
 
-- 
2.43.0


From fe94d05accd0857369664b6ad741a2c59ceb51f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:39 +0000
Subject: [PATCH 039/110] fix: class-independent linear interpolation returned
 scaled values or failed out of hull

---
 posydon/interpolation/IF_interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 407e43a..4eee5fb 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -700,7 +700,8 @@ class BaseIFInterpolator:
             Ypredn = self.interpolator.predict(Xtn, classes, self.X_scaler)
         else:
             Xtn = self.X_scaler.normalize(Xt)
-            Ypredn = self.interpolator.predict(Xtn)
+            Ypredn = self.interpolator.predict(Xtn, self.X_scaler)
+            classes = None
 
         Ypredn = np.array([
             list(sanitize_interpolated_quantities(
-- 
2.43.0


From c20beeecc962697911b0e0a0301d20587df6e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:40 +0000
Subject: [PATCH 040/110] fix: input scaling of a class is fitted to the runs
 of that class

---
 posydon/interpolation/IF_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 4eee5fb..d637155 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -532,7 +532,7 @@ class BaseIFInterpolator:
 
             self.X_scaler = Scaler(self.in_scaling,
                                    self.XT[self.valid >= 0, :],
-                                   _get_grid_column(grid, self.c_key)[self.valid > 0])
+                                   _get_grid_column(grid, self.c_key)[self.valid >= 0])
             self.Y_scaler = Scaler(self.out_scaling,
                                    self.YT[self.valid > 0, :],
                                    _get_grid_column(grid, self.c_key)[self.valid > 0])
-- 
2.43.0


From 28228151c753d1eb3e0fe2a02247634410b04ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:40 +0000
Subject: [PATCH 041/110] fix: scalings can be given as lists as documented

---
 posydon/interpolation/IF_interpolation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index d637155..05f79c1 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -530,6 +530,9 @@ class BaseIFInterpolator:
                 else:
                     self.in_scaling, self.out_scaling = self._bestScaling(_get_grid_column(grid, self.c_key))
 
+            self.in_scaling = self._classwise(self.in_scaling)
+            self.out_scaling = self._classwise(self.out_scaling)
+
             self.X_scaler = Scaler(self.in_scaling,
                                    self.XT[self.valid >= 0, :],
                                    _get_grid_column(grid, self.c_key)[self.valid >= 0])
@@ -902,6 +905,14 @@ class BaseIFInterpolator:
         return (m2[m1 > 0.95 * m1.max()].min()
                 / m2[m1 < 1.05 * m1.min()].min() > 1 + tol)
 
+    def _classwise(self, scaling):
+        """Use a list of scalings for every class."""
+        if not isinstance(scaling, list):
+            return scaling
+        if isinstance(self.interp_method, list):
+            return {c: scaling for c in self.interp_classes}, scaling
+        return scaling, scaling
+
     def _bestInScaling(self, ic):
         """Find the best scaling for the input space."""
 
-- 
2.43.0


From bfb575d2e51b923726e4a44dd016eb65884e54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:30 +0000
Subject: [PATCH 042/110] fix: runs to be discarded were used to train the
 interpolation

---
 posydon/interpolation/IF_interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 05f79c1..8ef1522 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -634,6 +634,9 @@ class BaseIFInterpolator:
         """Set binary tracks as (in)valid depending on termination flags."""
         valid = np.zeros(len(ic), dtype=int)
 
+        for i, flag in enumerate(self.valid_classes):
+            valid[ic == flag] = i + 1
+
         for flag in ['not_converged', 'ignored_no_RLO',
                      'ignored_no_binary_history']:
             which = (ic == flag)
@@ -644,8 +647,6 @@ class BaseIFInterpolator:
         which = pd.isna(np.sum(X, axis=1))
         valid[which] = -1
         print(f"Discarded {np.sum(which)} binaries with nans in input values.")
-        for i, flag in enumerate(self.valid_classes):
-            valid[ic == flag] = i + 1
 
         if(self.interp_in_q):   # if HMS-HMS grid, take out q = 1
             for i, iv in enumerate(X):
-- 
2.43.0


From 7385d75bbe8785a1bb481e9be73afd15aaf2cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:16 +0000
Subject: [PATCH 043/110] fix: sampled Kroupa and Chabrier masses do not follow
 the mass function at low masses

---
 posydon/popsyn/IMFs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/popsyn/IMFs.py b/posydon/popsyn/IMFs.py
index bfaace0..cee3b7e 100644
--- a/posydon/popsyn/IMFs.py
+++ b/posydon/popsyn/IMFs.py
@@ -437,6 +437,9 @@ class Kroupa2001(IMFBase):
         # Use more points near the breaks for better accuracy
         n_points = 2000
         m_grid = np.linspace(self.m_min, self.m_max, n_points)
+        if m_grid[1] - m_grid[0] > 0.01 * self.m_min:
+            # a linear grid does not resolve the lowest masses
+            m_grid = np.geomspace(self.m_min, self.m_max, n_points)
         pdf_values = self.imf(m_grid)
 
         # Sample using inverse transform method
@@ -558,6 +561,9 @@ class Chabrier2003(IMFBase):
         # Use more points near the transition for better accuracy
         n_points = 2000
         m_grid = np.linspace(self.m_min, self.m_max, n_points)
+        if m_grid[1] - m_grid[0] > 0.01 * self.m_min:
+            # a linear grid does not resolve the lowest masses
+            m_grid = np.geomspace(self.m_min, self.m_max, n_points)
         pdf_values = self.imf(m_grid)
 
         # Sample using inverse transform method
-- 
2.43.0


From 5bd2d58c14a707c94dca2d4ce90e701f989d8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:31 +0000
Subject: [PATCH 044/110] fix: Sana+12 periods with a lower limit above 1.4
 days could not be sampled

---
 posydon/popsyn/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/distributions.py b/posydon/popsyn/distributions.py
index 67a9f64..0e66fff 100644
--- a/posydon/popsyn/distributions.py
+++ b/posydon/popsyn/distributions.py
@@ -419,8 +419,10 @@ class Sana12Period():
 
         mask2 = m1 > self.mbreak
         beta = 1 - self.slope
-        A = np.log10(10**0.15)**(-self.slope) * (np.log10(10**0.15) - np.log10(self.p_min))
-        B = 1./beta * (np.log10(self.p_max)**beta - np.log10(10**0.15)**beta)
+        # lower limit of the power law
+        logp_low = max(0.15, np.log10(self.p_min))
+        A = 0.15**(-self.slope) * (logp_low - np.log10(self.p_min))
+        B = 1./beta * (np.log10(self.p_max)**beta - logp_low**beta)
         C = 1./(A + B)
         logp_valid = logp[mask2]
 
-- 
2.43.0


From 0027e8b5331d3c00a529b4100a495b3d7a2f7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:31 +0000
Subject: [PATCH 045/110] fix: Sana+12 period density of integer periods
 truncated the primary mass

---
 posydon/popsyn/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/distributions.py b/posydon/popsyn/distributions.py
index 0e66fff..a88b739 100644
--- a/posydon/popsyn/distributions.py
+++ b/posydon/popsyn/distributions.py
@@ -407,7 +407,7 @@ class Sana12Period():
         logp = np.asarray(logp)
         m1 = np.asarray(m1)
         if m1.size == 1:
-            m1 = np.full_like(logp, m1)
+            m1 = np.full_like(logp, m1, dtype=float)
         elif m1.shape != logp.shape:
             raise ValueError("m1 must be a single value or an array of "
                              "the same length as p.")
@@ -463,7 +463,7 @@ class Sana12Period():
         p = np.asarray(p)
         m1 = np.asarray(m1)
         if m1.size == 1:
-            m1 = np.full_like(p, m1)
+            m1 = np.full_like(p, m1, dtype=float)
         elif m1.shape != p.shape:
             raise ValueError("m1 must be a single value or an array of "
                              "the same length as p.")
-- 
2.43.0


From 0db6120c0cef3274e8e00c855d51e85c7f0fa947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:31 +0000
Subject: [PATCH 046/110] fix: equal-mass secondaries of single stars overwrote
 the primary masses

---
 posydon/popsyn/independent_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..e5fe6ab 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,7 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        secondary_masses = np.array(primary_masses, copy=True)
 
     return secondary_masses
 
-- 
2.43.0


From 15bf2e4c9dc55ae9366c3e0c65ca13bce5dbfba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 047/110] fix: Moe+17 sampling ignores the RNG and period
 limits of all but the first call

---
 posydon/popsyn/independent_sample.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index e5fe6ab..2d279e1 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -53,8 +53,16 @@ def generate_independent_samples(orbital_scheme='period', **kwargs):
     if use_Moe_17_PsandQs(orbital_scheme=orbital_scheme, **kwargs): # pragma: no cover
     # this requires an integration test with actual external datafiles. No unit test
         # initialize generator for Moe+17-PsandQs
-        if _gen_Moe_17_PsandQs is None:
+        # (reuse an existing one only if it was made for the same settings)
+        grid_kwargs = {key: kwargs[key] for key in
+                       ["n_M1", "n_logP", "n_q", "n_e",
+                        "orbital_period_min", "orbital_period_max"]
+                       if key in kwargs}
+        if (_gen_Moe_17_PsandQs is None
+            or _gen_Moe_17_PsandQs.grid_kwargs != grid_kwargs):
             _gen_Moe_17_PsandQs = Moe_17_PsandQs(**kwargs)
+            _gen_Moe_17_PsandQs.grid_kwargs = grid_kwargs
+        _gen_Moe_17_PsandQs.RNG = kwargs.get("RNG", np.random.default_rng())
         # use same defaults as generate_primary_masses
         M1_min = kwargs.get("primary_mass_min", 7)
         M1_max = kwargs.get("primary_mass_max", 120)
-- 
2.43.0


From e38c8aa1e0af12584f9d8c24ad0064f5c3534df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 048/110] fix: single stars of the Moe+17 sampling get an
 eccentricity

---
 posydon/popsyn/independent_sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 2d279e1..5de1a88 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -77,6 +77,8 @@ def generate_independent_samples(orbital_scheme='period', **kwargs):
             # set value of eccentricity_scheme
             kwargs['eccentricity_scheme'] = ecc_scheme
             eccentricity_set = generate_eccentricities(**kwargs)
+            # single stars have no eccentricity
+            eccentricity_set[np.isnan(m2_set)] = np.nan
     else:
 
         # Generate secondary masses
-- 
2.43.0


From 18e91c5f0aca9e4aa4595c71ca332ae21b8f6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 049/110] fix: period density of log-uniform separations misses
 the factor of the separation

---
 posydon/popsyn/norm_pop.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 915a95a..ca2e24c 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -200,14 +200,14 @@ def get_period_pdf(kwargs):
                 min=kwargs['orbital_separation_min'],
                 max=kwargs['orbital_separation_max'],
             )
-            # Since the outer function is set in PDF(P) and inner as P(a),
-            # we need to do a change of variables.
-            # PDF(P) = PDF(a) * |da/dP|
-            # da/dP = (2/3) * (a/P)
-            # PDF(P) = (2/3) * log_uniform(log_a)
-            period_pdf = lambda P, m1, q: separation_log_uniform.pdf(
-                orbital_separation_from_period(P, m1, q*m1)
-            ) * 2./3.
+            # As for the period schemes, the PDF is per unit of log10(P).
+            # We need to do a change of variables:
+            # PDF(log10(P)) = PDF(log10(a)) * |dlog10(a)/dlog10(P)|
+            # dlog10(a)/dlog10(P) = 2/3
+            # PDF(log10(a)) = log_uniform(a) * a
+            def period_pdf(P, m1, q):
+                a = orbital_separation_from_period(P, m1, q*m1)
+                return separation_log_uniform.pdf(a) * a * 2./3.
         else:
             raise ValueError("Orbital separation scheme not recognized")
     else:
-- 
2.43.0


From 14bf343c5964e5ada9877e7655caa30ea71db0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 050/110] fix: mean mass integrates the mass ratio over the
 limits of each primary mass

---
 posydon/popsyn/norm_pop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index ca2e24c..f317f71 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -305,6 +305,12 @@ def get_mean_mass(params):
     if q_min > q_max:
         raise ValueError("q_min must be less than q_max")
 
+    if 'q_min' not in params:
+        # the limits on the mass ratio depend on the primary mass
+        q_min = lambda m: max(params['secondary_mass_min']/m, 0)
+    if 'q_max' not in params:
+        q_max = lambda m: min(params['secondary_mass_max']/m, 1)
+
     # binary integration
     I_bin = dblquad(lambda q, m: (m + m * q) * PDF(m, q, P=0, binary=True),
                     m1_min, m1_max,
-- 
2.43.0


From f4091d909c408866fe0e1690855be4450ff5b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:26 +0000
Subject: [PATCH 051/110] fix: binaries added as a list cannot be removed from
 the population manager

---
 posydon/popsyn/binarypopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e3a4600..29ebcdc 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -676,7 +676,7 @@ class PopulationManager:
     def append(self, binary):
         """Add a binary instance internaly."""
         if isinstance(binary, (list, np.ndarray)):
-            self.indices.append([b.index for b in binary])
+            self.indices.extend([b.index for b in binary])
             self.binaries.extend(list(binary))
         elif isinstance(binary, BinaryStar):
             self.indices.append(binary.index)
-- 
2.43.0


From 5d1026f1b8aab341102508511edeccb548be8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:26 +0000
Subject: [PATCH 052/110] fix: get_binary_by_iter and reset_rng do not
 reproduce the drawn binaries

---
 posydon/popsyn/binarypopulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 29ebcdc..54b9b37 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -1008,7 +1008,9 @@ class BinaryGenerator:
 
     def get_original_rng(self):
         """Return the random-number generator."""
-        seq = np.random.SeedSequence(entropy=self.entropy)
+        seq = np.random.SeedSequence(
+            entropy=self.entropy,
+            spawn_key=self.RNG.bit_generator._seed_seq.spawn_key)
         RNG = np.random.default_rng(seed=seq)
         return RNG
 
@@ -1016,9 +1018,8 @@ class BinaryGenerator:
         """Get the nth binary as if n calls were made to draw_intial_binary."""
         RNG = self.get_original_rng()
         original_num_gen = self._num_gen
-        if n != 0:  # draw n-1 samples with new original RNG
-            self.sampler(
-                number_of_binaries=int(n-1), RNG=RNG, **kwargs)
+        for _ in range(int(n-1)):  # draw n-1 binaries with new original RNG
+            self.draw_initial_binary(RNG=RNG, **kwargs)
         binary = self.draw_initial_binary(index=n, RNG=RNG, **kwargs)
         self._num_gen = original_num_gen
         return binary
-- 
2.43.0


From 08a479a6e261dd52e900ec0d6b701c97a88531b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:26 +0000
Subject: [PATCH 053/110] fix: files which could not be combined are removed

---
 posydon/popsyn/binarypopulation.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 54b9b37..93aaa37 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -557,14 +557,15 @@ class BinaryPopulation:
             simulated_mass_binaries = 0.0
             number_of_systems=0
 
+            combined_files = []
+
             for f in file_names:
+                n_history_rows = (store.get_storer('history').nrows
+                                  if 'history' in store else 0)
                 # strings itemsize set by first append max value,
                 # which may not be largest string
                 try:
                     history = pd.read_hdf(f, key='history')
-                    store.append('history', history,
-                                 min_itemsize=history_min_itemsize)
-
                     oneline = pd.read_hdf(f, key='oneline')
 
                     # split weight between single and binary stars
@@ -573,21 +574,29 @@ class BinaryPopulation:
                     filtered_data_single = history[init_step_mask & singles_mask]
                     filtered_data_binaries = history[init_step_mask & ~singles_mask]
 
-                    simulated_mass_binaries += np.nansum(filtered_data_binaries[["S1_mass", "S2_mass"]].to_numpy())
-                    simulated_mass_single += np.nansum(filtered_data_single[["S1_mass"]].to_numpy())
-                    simulated_mass = simulated_mass_single + simulated_mass_binaries
-
                     if 'metallicity' not in oneline.columns:
                         met_df = pd.DataFrame(data={'metallicity': [self.metallicity] * len(oneline)}, index=oneline.index)
                         oneline = pd.concat([oneline, met_df], axis=1)
 
-                    number_of_systems += len(oneline)
-
+                    store.append('history', history,
+                                 min_itemsize=history_min_itemsize)
                     store.append('oneline', oneline,
                                  min_itemsize=oneline_min_itemsize)
 
+                    simulated_mass_binaries += np.nansum(filtered_data_binaries[["S1_mass", "S2_mass"]].to_numpy())
+                    simulated_mass_single += np.nansum(filtered_data_single[["S1_mass"]].to_numpy())
+                    simulated_mass = simulated_mass_single + simulated_mass_binaries
+
+                    number_of_systems += len(oneline)
+
+                    combined_files.append(f)
+
                 except Exception:
                     print(traceback.format_exc(), flush=True)
+                    # drop what has been added of this file
+                    if ('history' in store
+                        and store.get_storer('history').nrows > n_history_rows):
+                        store.remove('history', start=n_history_rows)
 
             # store population metadata
             tmp_df = pd.DataFrame()
@@ -608,7 +617,7 @@ class BinaryPopulation:
             store.append('mass_per_metallicity', tmp_df)
 
         # only remove the files once they've been written to the new file
-        for f in file_names:
+        for f in combined_files:
             os.remove(f)
 
     def close(self):
-- 
2.43.0


From 95c9d02ac58c31e08a84fb31a9a10eef3add595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:26 +0000
Subject: [PATCH 054/110] fix: all binaries get the same age when drawn from a
 custom histogram

---
 posydon/popsyn/star_formation_history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index b962ff6..ac91a2e 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -1110,7 +1110,8 @@ def get_formation_times(N_binaries, star_formation="constant", **kwargs): # prag
     if scenario in ["custom_linear_histogram", "custom_log10_histogram"]:
         custom_ages_file = kwargs.get("custom_ages_file")
         x, y = read_histogram_from_file(custom_ages_file)
-        current_binary_ages = histogram_sampler(x, y, rng=RNG)
+        current_binary_ages = np.atleast_1d(
+            histogram_sampler(x, y, size=N_binaries, rng=RNG))
         if "log10" in scenario:
             current_binary_ages = 10.0**current_binary_ages
         return max_time - current_binary_ages
-- 
2.43.0


From 324ac4a8c78d0a0d1c3655bcc70233c5ae8001a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:10 +0000
Subject: [PATCH 055/110] fix: selecting no system from a population table
 raises an error

---
 posydon/popsyn/synthetic_population.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..b894526 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -285,6 +285,9 @@ class DFInterface:
             out = []
             for chunk in iterator:
                 out.append(chunk)
+            if len(out) == 0:
+                # nothing selected: empty table with the same columns
+                return store.select(key, start=0, stop=0, columns=columns)
             out = pd.concat(out, axis=0)
         return out
 
@@ -700,18 +703,15 @@ class Oneline(DFInterface):
         elif isinstance(key, int):
             return self.select(where=f"index == {key}")
         elif isinstance(key, list) and all(isinstance(x, int) for x in key):
-            return self.select(where=f"index in {key}")
+            return self._select_systems(key)
         elif isinstance(key, np.ndarray) and (key.dtype == int):
-            indices = key.tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_systems(key.tolist())
         elif isinstance(key, list) and all(isinstance(x, float) for x in key):
             raise ValueError("elements in list are not integers! Try casting to int.")
         elif isinstance(key, pd.DataFrame) and all(key.dtypes == bool):
-            indices = self.indices[key.to_numpy().flatten()].tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_systems(self.indices[key.to_numpy().flatten()].tolist())
         elif isinstance(key, np.ndarray) and key.dtype == bool:
-            indices = self.indices[key].tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_systems(self.indices[key].tolist())
         elif isinstance(key, str):
             if key in self.columns:
                 return self.select(columns=[key])
@@ -725,6 +725,12 @@ class Oneline(DFInterface):
         else:
             raise ValueError("Invalid key type!")
 
+    def _select_systems(self, indices):
+        """Select the rows of the systems with the given indices."""
+        if len(indices) == 0:
+            return self.select(start=0, stop=0)
+        return self.select(where=f"index in {indices}")
+
     def __len__(self):  # pragma: no cover
         """
         Get the number of systems in the oneline table.
-- 
2.43.0


From 7dd9d900efc9f61abeef2c3f71caeaa65d818086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:10 +0000
Subject: [PATCH 056/110] fix: open slices of the population tables miss
 systems if the indices have gaps

---
 posydon/popsyn/synthetic_population.py | 32 ++++++++++----------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index b894526..2d1f2ff 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -444,16 +444,12 @@ class History(DFInterface):
         Returns the 'S1_mass' and 'S2_mass' columns from the history table.
         """
         if isinstance(key, slice):
-            if key.start is None:
-                pre = 0
-            else:
-                pre = key.start
-            if key.stop is None:
-                chunk = self.number_of_systems
-            else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+            limits = []
+            if key.start is not None:
+                limits.append(f"index >= {key.start}")
+            if key.stop is not None:
+                limits.append(f"index < {key.stop}")
+            return self.select(where=" & ".join(limits) if limits else None)
 
         # single index
         elif isinstance(key, int):
@@ -689,16 +685,12 @@ class Oneline(DFInterface):
         >>> columns = population[['age', 'gender']]
         """
         if isinstance(key, slice):
-            if key.start is None:
-                pre = 0
-            else:
-                pre = key.start
-            if key.stop is None:
-                chunk = self.number_of_systems
-            else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+            limits = []
+            if key.start is not None:
+                limits.append(f"index >= {key.start}")
+            if key.stop is not None:
+                limits.append(f"index < {key.stop}")
+            return self.select(where=" & ".join(limits) if limits else None)
 
         elif isinstance(key, int):
             return self.select(where=f"index == {key}")
-- 
2.43.0


From 44c7dfd64c8859216133c01a01a1f647600146c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:10 +0000
Subject: [PATCH 057/110] fix: boolean masks of the history table are shifted
 from chunk to chunk

---
 posydon/popsyn/synthetic_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 2d1f2ff..9fe5ca4 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -480,8 +480,11 @@ class History(DFInterface):
             with pd.HDFStore(self.filename, mode="r") as store:
                 iterator = store.select("history", chunksize=self.chunksize)
                 out = []
-                for i, chunk in enumerate(iterator):
-                    out.append(chunk[key[i : i + self.chunksize]])
+                mask = np.asarray(key).flatten()
+                start = 0
+                for chunk in iterator:
+                    out.append(chunk[mask[start : start + len(chunk)]])
+                    start += len(chunk)
                 return pd.concat(out, axis=0)
 
         # single column
-- 
2.43.0


From 0b46a39885dea290614eb0ea4f05104988e95c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 058/110] fix: chunks of histories do not match the systems if
 the file is not sorted by index

---
 posydon/popsyn/synthetic_population.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9fe5ca4..bee16f3 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1131,9 +1131,10 @@ class Population(PopulationIO):
             )
 
         # add number of systems
-        self.history_lengths = self.history.lengths
+        # the tables are read in chunks of systems: follow the order in the file
+        self.history_lengths = self.history.lengths.loc[self.oneline.indices]
         self.number_of_systems = self.oneline.number_of_systems
-        self.indices = self.history.indices
+        self.indices = self.oneline.indices
 
     def __repr__(self):  # pragma: no cover
         """Return a string representation of the object.
-- 
2.43.0


From b6083a165bfcc050b8566bbe111e476834e57150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 059/110] fix: exported systems get the absolute metallicity
 instead of the one in solar units

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index bee16f3..4b7d5eb 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1307,7 +1307,7 @@ class Population(PopulationIO):
                 if "metallicity" in tmp_df.columns:
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
-                    tmp_df["metallicity"] = self.metallicities[0]
+                    tmp_df["metallicity"] = self.solar_metallicities[0]
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
-- 
2.43.0


From f0da0e82194088aeb8b039192812663b730e8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 060/110] fix: exporting a selection changes the exported
 population and miscounts its systems

---
 posydon/popsyn/synthetic_population.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 4b7d5eb..c62d739 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1297,6 +1297,7 @@ class Population(PopulationIO):
                 print("Writing selected systems to population file...")
 
             # write oneline of selected systems
+            selected_metallicities = np.array([])
             for i in tqdm(
                 range(0, len(selection), self.chunksize),
                 total=len(selection) // self.chunksize,
@@ -1308,6 +1309,8 @@ class Population(PopulationIO):
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
                     tmp_df["metallicity"] = self.solar_metallicities[0]
+                selected_metallicities = np.append(selected_metallicities,
+                                                   tmp_df["metallicity"])
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
@@ -1371,16 +1374,19 @@ class Population(PopulationIO):
                 )
 
             # write mass_per_metallicity
-            if "/mass_per_metallicity" in store.keys():
-                self_mass = self.mass_per_metallicity
+            self_mass = self.mass_per_metallicity.copy()
+            if len(self_mass) > 1:
+                self_mass["number_of_systems"] = [
+                    np.sum(selected_metallicities == Z) for Z in self_mass.index
+                ]
+            else:
                 self_mass["number_of_systems"] = len(selection)
+            if "/mass_per_metallicity" in store.keys():
                 tmp_df = pd.concat([store["mass_per_metallicity"], self_mass])
                 mass_per_metallicity = tmp_df.groupby(tmp_df.index).sum()
                 store.put("mass_per_metallicity", mass_per_metallicity)
 
             else:
-                self_mass = self.mass_per_metallicity
-                self_mass["number_of_systems"] = len(selection)
                 store.put("mass_per_metallicity", self_mass)
 
         # write ini parameters
-- 
2.43.0


From 13b0ecadaf4d46a952e6c1397ff00569dacc1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 061/110] fix: tables of an exported selection are in different
 orders

---
 posydon/popsyn/synthetic_population.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index c62d739..356f1e9 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1272,18 +1272,22 @@ class Population(PopulationIO):
                 last_index_in_file = 0
                 reindex = {
                     i: j
-                    for i, j in zip(selection,
+                    for i, j in zip([int(i) for i in selection],
                                     np.arange(last_index_in_file, last_index_in_file + len(selection), 1),
                     )
                 }
             else:
                 reindex = {
                     i: j
-                    for i, j in zip(selection,
+                    for i, j in zip([int(i) for i in selection],
                                     np.arange(last_index_in_file + 1, last_index_in_file + len(selection) + 1,1,),
                     )
                 }
 
+            # all tables are written in the order of the systems in the file
+            position = {index: i for i, index in enumerate(self.indices)}
+            selection = sorted(reindex, key=position.get)
+
             if "metallicity" not in self.oneline.columns:
                 Pwarn("No metallicity column in oneline dataframe! Using the "
                       "metallicity of the population file and adding it to the"
-- 
2.43.0


From 6674ba4fdd9edcedf76520b8940b5f4cc8b17566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:33 +0000
Subject: [PATCH 062/110] fix: formation channels fail if no system of a chunk
 has an HMS-HMS interpolation class

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 356f1e9..0b22eb3 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1506,8 +1506,8 @@ class Population(PopulationIO):
 
             mask = pd.notna(interp_class_HMS_HMS["interp_class_HMS_HMS"].values)
             interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = (
-                interp_class_HMS_HMS[mask]
-                .apply(lambda x: HMS_HMS_event_dict[x["interp_class_HMS_HMS"]], axis=1)
+                interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"]
+                .apply(lambda x: HMS_HMS_event_dict[x])
                 .values
             )
             del mask
-- 
2.43.0


From c61017c92efac8f42da6d885e8c2c46c5cb9b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:33 +0000
Subject: [PATCH 063/110] fix: later mass transfer is labelled as the contact
 phase of the HMS-HMS step

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 0b22eb3..dfed4bd 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1473,7 +1473,7 @@ class Population(PopulationIO):
                 pd.notna(row["mt_history_HMS_HMS"])
                 and row["mt_history_HMS_HMS"] == "Stable contact phase"
             ):
-                return row["channel"].replace("oRLO1", "oRLO1-contact")
+                return row["channel"].replace("oRLO1", "oRLO1-contact", 1)
             # reverse is already included in the interpolation class now!
             # elif (
             #     pd.notna(row["mt_history_HMS_HMS"])
-- 
2.43.0


From d2897d1e717bbba76eb08bd7865997afd3e8c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:00 +0000
Subject: [PATCH 064/110] fix: initially single stars get no weight in
 transient populations

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index dfed4bd..137aec1 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1969,7 +1969,7 @@ class TransientPopulation(Population):
             # S2_mass_i > S1_mass_i; Unclear why this happens
             S1_tmp = pop_data['S1_mass_i'].copy()
             S2_tmp = pop_data['S2_mass_i'].copy()
-            pop_data['S1_mass_i'] = np.maximum(S1_tmp, S2_tmp)
+            pop_data['S1_mass_i'] = np.fmax(S1_tmp, S2_tmp)
             pop_data['S2_mass_i'] = np.minimum(S1_tmp, S2_tmp)
             del S1_tmp, S2_tmp
 
-- 
2.43.0


From 0fc3b15f1122a0f8714959e69b6dd99b3ca99a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:33 +0000
Subject: [PATCH 065/110] fix: model weights are assigned to other systems if
 the file is not sorted by index

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 137aec1..dcbea89 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1978,7 +1978,7 @@ class TransientPopulation(Population):
                                                     M_sim=M_sim,
                                                     simulation_parameters=simulation_parameters,
                                                     population_parameters=population_parameters)
-            weight_mapping = dict(zip(met_indices, calculated_weights))
+            weight_mapping = dict(zip(pop_data.index, calculated_weights))
             model_weights[model_weights_identifier] = (
                 model_weights.index.to_series().map(weight_mapping).fillna(model_weights[model_weights_identifier]))
 
-- 
2.43.0


From 743fbc6be23ec3e68e2615d991b2b1239981dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 066/110] fix: redshift bins fail or are not ordered for most
 time intervals

---
 posydon/popsyn/rate_calculation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/rate_calculation.py b/posydon/popsyn/rate_calculation.py
index de98212..4856bf7 100644
--- a/posydon/popsyn/rate_calculation.py
+++ b/posydon/popsyn/rate_calculation.py
@@ -164,7 +164,9 @@ def get_redshift_bin_edges(delta_t):
         Redshift bin edges.
 
     """
-    n_redshift_bin_centers = int(cosmology.age(0).to("Myr").value / delta_t)
+    # the last bin ends at z=100, all other bins need to fit in
+    n_redshift_bin_centers = int((cosmology.age(0) - cosmology.age(100.0)).to("Myr").value
+                                 / delta_t)
     # generate t_birth at the middle of each self.delta_t bin
     t_birth_bin = [cosmology.age(0.0).value]
     for i in range(n_redshift_bin_centers + 1):
@@ -196,10 +198,15 @@ def get_redshift_bin_centers(delta_t):
     # generate t_birth at the middle of each self.delta_t bin
     t_birth_bin = [cosmology.age(0.0).value]
     t_birth = []
-    n_redshift_bin_centers = int(cosmology.age(0).to("Myr").value / delta_t)
+    t_last = cosmology.age(100.0).value
+    n_redshift_bin_centers = int((cosmology.age(0) - cosmology.age(100.0)).to("Myr").value
+                                 / delta_t)
     for i in range(n_redshift_bin_centers + 1):
         t_birth.append(t_birth_bin[i] - delta_t * 1e-3 / 2.0)  # Gyr
         t_birth_bin.append(t_birth_bin[i] - delta_t * 1e-3)  # Gyr
+    # the last bin may be shorter, keep the center inside the bin
+    if t_birth[-1] <= t_last:
+        t_birth[-1] = (t_birth_bin[-2] + t_last) / 2.0
     t_birth = np.array(t_birth)
     # compute the redshift
     z_birth = []
-- 
2.43.0


From bf72bc823597a2bdad623885c73a89dec8e04cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:35 +0000
Subject: [PATCH 067/110] fix: star formation outside of Z_min and Z_max if
 these are outside of the metallicity bins

---
 posydon/popsyn/star_formation_history.py | 30 ++++++------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index ac91a2e..12d4fde 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -180,41 +180,25 @@ class SFHBase(ABC):
             raise ValueError("Metallicity bins must be sorted "
                              "in ascending order.")
 
-        fSFR = (np.array(cdf_func(metallicity_bins[1:]))
-                - np.array(cdf_func(metallicity_bins[:-1])))
-
-        first_bin_index = 0
-        last_bin_index = len(fSFR) - 1
-
         # include material outside the metallicity bounds if requested
+        edges = np.array(metallicity_bins, dtype=float)
         if self.Z_max is not None:
             if self.Z_max >= metallicity_bins[-1]:
-                fSFR[-1] = cdf_func(self.Z_max) - cdf_func(metallicity_bins[-2])
+                edges[-1] = self.Z_max
             else:
                 Pwarn('Z_max is smaller than the highest metallicity bin.',
                       'SFHModelWarning')
-                # find the index of the last bin that is smaller than Z_max
-                last_bin_index = np.searchsorted(metallicity_bins, self.Z_max) - 1
-                fSFR[last_bin_index] = cdf_func(self.Z_max) - cdf_func(metallicity_bins[last_bin_index])
-                fSFR[last_bin_index + 1:] = 0.0
+                edges = np.minimum(edges, self.Z_max)
 
         if self.Z_min is not None:
             if self.Z_min <= metallicity_bins[0]:
-                fSFR[0] = cdf_func(metallicity_bins[1]) - cdf_func(self.Z_min)
+                edges[0] = self.Z_min
             else:
                 Pwarn('Z_min is larger than the lowest metallicity bin.',
                       'SFHModelWarning')
-                # find the index of the first bin that is larger than Z_min
-                first_bin_index = np.searchsorted(metallicity_bins, self.Z_min) -1
-                fSFR[:first_bin_index] = 0.0
-                fSFR[first_bin_index] = cdf_func(metallicity_bins[first_bin_index+1]) - cdf_func(self.Z_min)
-
-        # Check if in the same bin
-        if self.Z_max is not None and self.Z_min is not None:
-            if first_bin_index == last_bin_index:
-                fSFR[first_bin_index] = cdf_func(self.Z_max) - cdf_func(self.Z_min)
-                fSFR[first_bin_index + 1:] = 0.0
-                fSFR[:first_bin_index] = 0.0
+                edges = np.maximum(edges, self.Z_min)
+
+        fSFR = np.diff(cdf_func(edges))
 
         if self.normalise:
             fSFR /= np.sum(fSFR)
-- 
2.43.0


From 7185a5e8e09645127cc570cc355be89ed543848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:35 +0000
Subject: [PATCH 068/110] fix: normalised star formation is NaN without star
 formation inside the metallicity bins

---
 posydon/popsyn/star_formation_history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index 12d4fde..b5d4285 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -200,7 +200,8 @@ class SFHBase(ABC):
 
         fSFR = np.diff(cdf_func(edges))
 
-        if self.normalise:
+        # there may be no star formation inside the metallicity bounds
+        if self.normalise and np.sum(fSFR) > 0:
             fSFR /= np.sum(fSFR)
 
         return fSFR
-- 
2.43.0


From b12eb2eadc9675982b34b4f92ddd3e9a7fa33c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:35 +0000
Subject: [PATCH 069/110] fix: parameters of a star formation history become
 the defaults of all later ones

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index dcbea89..0f257dc 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2094,10 +2094,10 @@ class TransientPopulation(Population):
         # Set model to DEFAULT or provided MODEL parameters
         # Allows for partial model specification
         if MODEL_in is None:
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
         else:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From 6c2ac49ec640fdc00d29ad265de383a2b685e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:35 +0000
Subject: [PATCH 070/110] fix: cosmic rates miss events if there are more
 events than systems

---
 posydon/popsyn/synthetic_population.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 0f257dc..4022dd7 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2158,7 +2158,7 @@ class TransientPopulation(Population):
         deltaT = rates.MODEL["delta_t"] * 10**6  # yr
 
         for i in tqdm(
-            range(0, len(indices), self.chunksize),
+            range(0, len(M_model), self.chunksize),
             desc="event loop",
             disable=not self.verbose,
         ):
@@ -2679,10 +2679,13 @@ class Rates(TransientPopulation):
                     + observable_name
                 ]
 
+            # there may be several events per system
+            n_events = store.get_storer("transients/" + self.transient_name).nrows
+
         # loop over the transient population and calculate the new weights, while writing to the file
         for i in tqdm(
-            range(0, len(self), self.chunksize),
-            total=len(self) // self.chunksize,
+            range(0, n_events, self.chunksize),
+            total=n_events // self.chunksize,
             disable=not self.verbose,
         ):
             transient_pop_chunk = self.select(start=i, stop=i + self.chunksize)
-- 
2.43.0


From 39b896b2b411b5173dbcc1e050538e212c1ec541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:02 +0000
Subject: [PATCH 071/110] fix: a chunk without GRBs makes the creation of a GRB
 population fail

GRB_selection returned a table without any columns if no system of the
chunk has a GRB, which Population.create_transient_population refuses
(it requires the time and metallicity columns).
---
 posydon/popsyn/transient_select_funcs.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index c3169e5..ef7c9a5 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -75,9 +75,6 @@ def GRB_selection(history_chunk, oneline_chunk, formation_channels_chunk=None, S
         oneline_chunk = oneline_chunk.drop(columns=['S1_m_disk_radiated'])
     else:
         raise ValueError('S1_S2 must be either S1 or S2')
-    # no events in this chunk
-    if len(indices_selection) == 0:
-        return pd.DataFrame()
     # filter out the events that are not relevant for the LGRB formation
     selection = history_chunk.loc[indices_selection]
     if S1_S2 == 'S1':
-- 
2.43.0


From 84a2ae6a9027eb31208d6d8a20203a653dc3763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:02 +0000
Subject: [PATCH 072/110] fix: chi_eff and DCO_detectability overwrite the
 tables they are given

---
 posydon/popsyn/transient_select_funcs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index ef7c9a5..fe5b01a 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -147,18 +147,22 @@ def chi_eff(m_1, m_2, a_1, a_2, tilt_1, tilt_2):
     if pd.isna(a_1).any():
         Pwarn("a_1 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        a_1 = a_1.copy()
         a_1[pd.isna(a_1)] = 0.0
     if pd.isna(a_2).any():
         Pwarn("a_2 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        a_2 = a_2.copy()
         a_2[pd.isna(a_2)] = 0.0
     if pd.isna(tilt_1).any():
         Pwarn("tilt_1 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        tilt_1 = tilt_1.copy()
         tilt_1[pd.isna(tilt_1)] = 0.0
     if pd.isna(tilt_2).any():
         Pwarn("tilt_2 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        tilt_2 = tilt_2.copy()
         tilt_2[pd.isna(tilt_2)] = 0.
     return (m_1*a_1*np.cos(tilt_1)+m_2*a_2*np.cos(tilt_2))/(m_1+m_2)
 
@@ -316,7 +320,7 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
                                         transient_pop_chunk['S1_spin_orbit_tilt_at_merger'],
                                         transient_pop_chunk['S2_spin_orbit_tilt_at_merger'])
 
-    detectable_weights = z_weights_chunk.to_numpy()
+    detectable_weights = z_weights_chunk.to_numpy(copy=True)
     for i in tqdm(range(z_events_chunk.shape[1]), total=z_events_chunk.shape[1], disable= not verbose):
         data_slice['z'] = z_events_chunk.iloc[:,i]
         mask = pd.notna(data_slice['z']).to_numpy()
-- 
2.43.0


From 14e97d567bfa3a9934b58c4d654b6010add27fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:02 +0000
Subject: [PATCH 073/110] fix: DCO detectability uses the secondary mass if
 star 2 is the heavier one

The detection probability is tabulated for the mass of the more massive
object and the mass ratio below one. The mass ratio gets inverted if star
2 is more massive, but the mass was always the one of star 1.
---
 posydon/popsyn/transient_select_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index fe5b01a..8c9ca62 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -303,6 +303,9 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
 
     data_slice = pd.DataFrame()
     data_slice['m1'] = transient_pop_chunk['S1_mass']
+    # m1 is the mass of the more massive object
+    if 'S2_mass' in transient_pop_chunk.columns:
+        data_slice['m1'] = transient_pop_chunk[['S1_mass', 'S2_mass']].max(axis=1)
 
     if 'q' in transient_pop_chunk.columns:
         data_slice['q'] = transient_pop_chunk['q']
-- 
2.43.0


From 707a47c4619d5fdba335e56fc3b6061a0c50907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 074/110] fix: user defined and missing steps cannot be loaded

load_steps requires a DEFAULT_KWARGS attribute of every step, which the
documented user defined steps do not have, and fails for the steps which
are not provided (announced to be skipped).
---
 posydon/binary_evol/simulationproperties.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index 63bc2d0..78888c2 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -373,7 +373,7 @@ class SimulationProperties:
 
         # for every other step, give it a metallicity and load each step
         for name, tup in self.kwargs.items():
-            if isinstance(tup, tuple):
+            if isinstance(tup, tuple) and not isinstance(tup[0], NullStep):
                 step_kwargs = tup[1]
                 metallicity = step_kwargs.get('metallicity', metallicity)
                 self.load_a_step(name, tup, metallicity=metallicity, RNG=RNG, verbose=verbose)
@@ -475,7 +475,8 @@ class SimulationProperties:
         # check if all steps have been loaded
         self.steps_loaded = all(hasattr(self, name)
                                 for name, tup in self.kwargs.items()
-                                if isinstance(tup, tuple))
+                                if isinstance(tup, tuple)
+                                and not isinstance(tup[0], NullStep))
 
     def check_step(self, metallicity, RNG, step_name, step_tup, verbose=False):
         """
@@ -523,8 +524,11 @@ class SimulationProperties:
         # cares about updating what it is told to, not everything.
         original_step_kwargs = step_kwargs.copy()
 
+        # user defined steps may not list their keyword arguments
+        default_kwargs = getattr(step_func, "DEFAULT_KWARGS", {})
+
         # check/assign metallicity for the step
-        if "metallicity" in step_func.DEFAULT_KWARGS:
+        if "metallicity" in default_kwargs:
             metallicity = step_kwargs.get('metallicity', metallicity)
             if metallicity is None:
                 Pwarn(f"{step_name} not assigned a metallicity. "
@@ -541,7 +545,7 @@ class SimulationProperties:
         if step_name in step_grid_map:
             step_kwargs['grid_path'] = step_grid_map[step_name]
 
-        if "track_matcher" in step_func.DEFAULT_KWARGS:
+        if "track_matcher" in default_kwargs:
             # each metallicity/step combo could require
             # a unique TrackMatcher, so check for that
             step_kwargs = self._check_track_matcher(metallicity,
@@ -550,7 +554,7 @@ class SimulationProperties:
                                                     original_step_kwargs,
                                                     verbose)
 
-        if "RNG" in step_func.DEFAULT_KWARGS:
+        if "RNG" in default_kwargs:
             step_kwargs['RNG'] = RNG
 
         return (step_func, step_kwargs)
-- 
2.43.0


From 39f10e9153927a25127ff82bcd35e46a6943868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 075/110] fix: reloading the steps ignores a new metallicity
 and loses the matching settings

Loading a step stored the metallicity in, and removed the settings of the
TrackMatcher from, the settings of the simulation.
---
 posydon/binary_evol/simulationproperties.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index 78888c2..7a1b56d 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -496,9 +496,8 @@ class SimulationProperties:
         step_name : str
             Name of the pipeline step being checked.
         step_kwargs : dict
-            Keyword arguments for the step. This dictionary may be modified
-            in-place to include validated metallicity and/or a TrackMatcher
-            instance.
+            Keyword arguments for the step. The returned copy includes a
+            validated metallicity and/or a TrackMatcher instance.
         verbose : bool, optional
             If True, print the keyword arguments used to construct the
             TrackMatcher.
@@ -523,6 +522,9 @@ class SimulationProperties:
         # in case we need to update a TrackMatcher for a step, this method only
         # cares about updating what it is told to, not everything.
         original_step_kwargs = step_kwargs.copy()
+        # do not change the settings of the simulation, they are needed again
+        # if the step gets reloaded
+        step_kwargs = step_kwargs.copy()
 
         # user defined steps may not list their keyword arguments
         default_kwargs = getattr(step_func, "DEFAULT_KWARGS", {})
-- 
2.43.0


From d044a88f67839a135cd21a1b1f846672919b4f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 076/110] fix: extra hooks in the inifile are dropped if they
 have no further settings

The number of hooks was limited to be smaller than the number of entries.
---
 posydon/popsyn/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 810b6cc..e55ce25 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -474,7 +474,7 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
             # do not take extra_pre_step options etc.
 
             # loop to try and find all hooks classes
-            for h in range(1, len(names)):
+            for h in sorted(set(int(name.split('_')[-1]) for name in names)):
                 valid_names = [name for name in names
                                if int(name.split('_')[-1]) == h]
 
-- 
2.43.0


From 26f955e524878dade4fc812f46770087dc155fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 077/110] fix: absolute_import of extra hooks in the inifile is
 ignored

---
 posydon/popsyn/io.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index e55ce25..05f787c 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -482,13 +482,23 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
                 if not valid_names:
                     continue
 
-                import_and_name = sect_dict.pop('import_{}'.format(h))
-                package = sect_dict.pop('absolute_import_{}'.format(h), None)
+                import_and_name = sect_dict.pop('import_{}'.format(h), None)
+                absolute_import_and_name = sect_dict.pop(
+                    'absolute_import_{}'.format(h), None)
                 class_kwargs = sect_dict.pop('kwargs_{}'.format(h), dict())
 
-                module = importlib.import_module(import_and_name[0],
-                                                 package=package)
-                cls = getattr(module, import_and_name[1])
+                if absolute_import_and_name is not None:
+                    location = os.path.abspath(absolute_import_and_name[0])
+                    class_name = absolute_import_and_name[1]
+                    spec = importlib.util.spec_from_file_location(
+                        location[1:].replace('/', '.').replace('.py', ''),
+                        location=location)
+                    module = importlib.util.module_from_spec(spec)
+                    spec.loader.exec_module(module)
+                else:
+                    location, class_name = import_and_name
+                    module = importlib.import_module(location)
+                cls = getattr(module, class_name)
 
                 hooks_list.append((cls, class_kwargs))
 
-- 
2.43.0


From ade9ba795be69e3f72a3ee013c14230444264862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 078/110] fix: oneline columns with '_i' or '_f' in their names
 get a wrong data type

All occurrences of '_i' and '_f' were removed from the names instead of
the suffix, thus e.g. a user defined string column 'my_info' cannot be
saved.
---
 posydon/popsyn/io.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 05f787c..aaafd50 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -317,19 +317,17 @@ def clean_binary_oneline_df(oneline_df, extra_binary_dtypes_user=None,
 
     # Create a dict with column-dtype mapping only for columns in binary_df
     common_dtype_dict = {}
-    # helper function to remove the '_i' and '_f'
-    strip_prefix_and_suffix = lambda key : key.replace('_i', '').replace('_f', '') \
-                                             .replace('S1_', '').replace('S2_', '')
     for key in common_keys:
+        # remove the prefixes 'S1_', 'S2_' and the suffixes '_i', '_f'
         if key in scalar_keys:
             common_dtype_dict[key] = SCALAR_NAMES_DTYPES.get(
                                         key.replace('S1_', '').replace('S2_', '') )
         elif key in binary_keys:
-            common_dtype_dict[key] = BP_comb_extras_dict.get( strip_prefix_and_suffix(key) )
+            common_dtype_dict[key] = BP_comb_extras_dict.get( key[:-2] )
         elif key in S1_keys:
-            common_dtype_dict[key] = SP_comb_S1_dict.get( strip_prefix_and_suffix(key) )
+            common_dtype_dict[key] = SP_comb_S1_dict.get( key[3:-2] )
         elif key in S2_keys:
-            common_dtype_dict[key] = SP_comb_S2_dict.get( strip_prefix_and_suffix(key) )
+            common_dtype_dict[key] = SP_comb_S2_dict.get( key[3:-2] )
         else:  # pragma: no cover
             raise ValueError(f'No data type found for {key}. Dtypes must be explicity declared.')
     # set dtypes
-- 
2.43.0


From 1e0457ec0d3dcb2a137f0820ea690c364fda6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:35 +0000
Subject: [PATCH 079/110] fix: common envelope re-matches the donor instead of
 the companion

The companion's radius is updated by matching the secondary of the track
matcher, which is the donor e.g. if star 2 fills its Roche lobe and both
stars are H-rich; then the properties of the donor get overwritten and the
radius of the companion is not updated.
---
 posydon/binary_evol/CE/step_CEE.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 60bedcb..5d35996 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1455,8 +1455,11 @@ class StepCEE(object):
             t_i = binary.time
 
 
-            match_primary = False
-            match_secondary = True
+            # only the companion gets matched
+            primary, secondary, _ = \
+                self.track_matcher.determine_star_states(binary)
+            match_primary = primary is comp_star
+            match_secondary = secondary is comp_star
 
             _, _, only_CO = self.track_matcher.do_matching(binary, step_name="step_CE",
                                                            match_primary=match_primary,
-- 
2.43.0


From df5faf476c284996dece05b93fb3ea139604c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:18 +0000
Subject: [PATCH 080/110] fix: from_oneline_df cuts names of properties at any
 "_i"

The names got split at the first "_i" instead of removing the suffix, so
that e.g. total_moment_of_inertia and avg_c_in_c_core were lost.
---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index c9e2f2f..2b07324 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -824,7 +824,7 @@ class BinaryStar:
         for name in list(oneline_df.columns):
             if '_f' in name[-2:]:
                 continue    # ignore final values
-            param_name = name.split('_i')[0]
+            param_name = name[:-2] if name.endswith('_i') else name
 
             special_cases = ['natal_kick_array']
             if any([i in param_name for i in special_cases]):
-- 
2.43.0


From 8e3f8a4c85dfb61f918641f99e41d8a82ab6fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:18 +0000
Subject: [PATCH 081/110] fix: from_oneline_df leaves lists in scalars
 containing "_history"

The value of e.g. mt_history_HMS_HMS was stored under the name "mt" and
the scalar itself stayed a list of one element.
---
 posydon/binary_evol/binarystar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 2b07324..1d9b157 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -922,7 +922,8 @@ class BinaryStar:
                 [star1_params,  star2_params,  binary_params],
                 [binary.star_1, binary.star_2, binary]):
             for key, val in params.items():
-                setattr(pointer, key.split('_history')[0], val[-1])
+                setattr(pointer, key[:-8] if key.endswith('_history') else key,
+                        val[-1])
 
         # make BINARYPROPERTIES, history columns same length if not given
         already_included_cols = [name.split('_history')[0]
-- 
2.43.0


From 14ef51a081f184dbcfb4f74643df0b3198919a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:18 +0000
Subject: [PATCH 082/110] fix: from_oneline_df fails on tables with
 natal_kick_array columns

The values of the kick are taken as lists of one element like all other
parameters.
---
 posydon/binary_evol/binarystar.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 1d9b157..4ad7238 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -865,20 +865,22 @@ class BinaryStar:
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star1_params['natal_kick_velocity'] = natal_kick_values[0]
-            star1_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star1_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star1_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star1_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star1_params['natal_kick_azimuthal_angle'] = [
+                natal_kick_values[1]]
+            star1_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star1_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if any(['S2_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S2_natal_kick_array_{}'.format(i)
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star2_params['natal_kick_velocity'] = natal_kick_values[0]
-            star2_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star2_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star2_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star2_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star2_params['natal_kick_azimuthal_angle'] = [
+                natal_kick_values[1]]
+            star2_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star2_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if ('binary_index' in oneline_df.index.name
                 and not kwargs.get('index', None)):
-- 
2.43.0


From c6e640a18b6941dd4534086ee4dfda2cf34f5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:18 +0000
Subject: [PATCH 083/110] fix: from_df and from_oneline_df ignore index=0

---
 posydon/binary_evol/binarystar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 4ad7238..1c29c02 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -653,7 +653,7 @@ class BinaryStar:
         history_length = set(hist_lengths).pop()
 
         if ('binary_index' in dataframe.index.name
-                and not kwargs.get('index', False)):
+                and kwargs.get('index', None) is None):
             binary_index = set(dataframe.index).pop()
         else:
             binary_index = kwargs.get('index', None)
@@ -883,7 +883,7 @@ class BinaryStar:
             star2_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if ('binary_index' in oneline_df.index.name
-                and not kwargs.get('index', None)):
+                and kwargs.get('index', None) is None):
             binary_index = set(oneline_df.index).pop()
         else:
             binary_index = kwargs.get('index', None)
-- 
2.43.0


From 530c231138f07c8f0f2f791580fff7ca5d4333df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:46 +0000
Subject: [PATCH 084/110] fix: Moe+17 with only binaries puts most of them at
 the maximum period

With all_binaries the random number exceeds the cumulative distribution of
the periods, which ends at the binary fraction, so that the remaining
systems all got the longest period.
---
 posydon/popsyn/Moes_distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/Moes_distributions.py b/posydon/popsyn/Moes_distributions.py
index df82196..676e829 100644
--- a/posydon/popsyn/Moes_distributions.py
+++ b/posydon/popsyn/Moes_distributions.py
@@ -418,8 +418,12 @@ class Moe_17_PsandQs():
             indM1 = indM1[0]
             # Given M1, determine cumulative binary period distribution
             mycumPbindist = (self.cumPbindist[:,indM1]).flatten
+            if all_binaries:
+                # no single stars, hence normalize the period distribution
+                mycumPbindist = (mycumPbindist() / np.max(mycumPbindist())
+                                ).flatten
             # If M1 < 0.8 Msun, rescale to appropriate binary star fraction
-            if(M1 <= 0.8):
+            elif(M1 <= 0.8):
                 mycumPbindist = (mycumPbindist() * np.interp(np.log10(M1),
                                                              np.log10([M_min,
                                                                        0.8]),
-- 
2.43.0


From 41007b066fd4b58ceb009d4f61a8a6cf6cdf20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 085/110] fix: Moe+17 fails on grids with a period just above 2
 days

If no eccentricity of the grid lies between 0.8*e_max and e_max, e.g. for
orbital_period_min=2.02, the construction stopped with a ValueError; if
only the smallest one is below e_max the distribution became NaN.
---
 posydon/popsyn/Moes_distributions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/Moes_distributions.py b/posydon/popsyn/Moes_distributions.py
index 676e829..e445ec3 100644
--- a/posydon/popsyn/Moes_distributions.py
+++ b/posydon/popsyn/Moes_distributions.py
@@ -311,13 +311,19 @@ class Moe_17_PsandQs():
                     # at e / e_max = 0.8 and zero at e = e_max
                     ind = np.flatnonzero((self.ev >= 0.8*e_max)
                                          & (self.ev <= 1.0*e_max))
-                    ind_cont = np.min(ind) - 1
-                    fe[ind] = np.interp(self.ev[ind], [0.8*e_max,1.0*e_max],
-                                        [fe[ind_cont],0.0])
+                    if len(ind) > 0:
+                        ind_cont = max(np.min(ind) - 1, 0)
+                        fe[ind] = np.interp(self.ev[ind],
+                                            [0.8*e_max,1.0*e_max],
+                                            [fe[ind_cont],0.0])
                 # cumulative distribution
                 cumfe = np.cumsum(fe) - fe[0]
                 # normalize cumfe(e=e_max) = 1
-                cumfe = cumfe / np.max(cumfe)
+                if np.max(cumfe) > 0.0:
+                    cumfe = cumfe / np.max(cumfe)
+                else:
+                    # e_max is below the resolution in e: adopt smallest e
+                    cumfe = np.ones_like(cumfe)
                 # save to grid
                 self.cumedist[:,j,i] = cumfe
                 # Given constants alpha and DlogP and M1 dependent values
-- 
2.43.0


From f6d88eb36148f6065cb2449e1c3ce48226ea2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:17 +0000
Subject: [PATCH 086/110] fix: keep the radius of white dwarfs formed without
 interpolation

The radius of the white dwarf got computed and then erased together with
the properties of the progenitor.
---
 posydon/binary_evol/SN/step_SN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 70c3015..34a0ca7 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -711,7 +711,7 @@ class StepSN(object):
                                 setattr(star, key, star.mass)
                             else:
                                 setattr(star, key, 0.)
-                        elif key not in ["state", "mass", "spin",
+                        elif key not in ["state", "mass", "spin", "log_R",
                                          "m_disk_accreted", "m_disk_radiated",
                                          "center_h1", "center_he4",
                                          "center_c12", "center_n14",
@@ -847,7 +847,7 @@ class StepSN(object):
                                 setattr(star, key, star.mass)
                             else:
                                 setattr(star, key, 0.)
-                        elif key not in ["state", "mass", "spin",
+                        elif key not in ["state", "mass", "spin", "log_R",
                                          "m_disk_accreted", "m_disk_radiated",
                                          "center_h1", "center_he4",
                                          "center_c12", "center_n14",
-- 
2.43.0


From d08faf3a0a12423546599acf2af5d46ff9c7258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:24 +0000
Subject: [PATCH 087/110] fix: the metallicity of one step's settings is not
 passed on to the steps loaded after it

---
 posydon/binary_evol/simulationproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index 7a1b56d..4d44b2d 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -375,8 +375,9 @@ class SimulationProperties:
         for name, tup in self.kwargs.items():
             if isinstance(tup, tuple) and not isinstance(tup[0], NullStep):
                 step_kwargs = tup[1]
-                metallicity = step_kwargs.get('metallicity', metallicity)
-                self.load_a_step(name, tup, metallicity=metallicity, RNG=RNG, verbose=verbose)
+                # a metallicity in the settings of a step is for that step only
+                step_metallicity = step_kwargs.get('metallicity', metallicity)
+                self.load_a_step(name, tup, metallicity=step_metallicity, RNG=RNG, verbose=verbose)
 
         if verbose:
             if self.steps_loaded:
-- 
2.43.0


From 8948f7049b60fd339061256c2200079bd869aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:33 +0000
Subject: [PATCH 088/110] fix: rescue scripts and merge jobs of a run are
 written and submitted in its folder

---
 posydon/CLI/io.py           | 12 +++++++++---
 posydon/CLI/popsyn/check.py |  5 ++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index d9ec806..498c9cf 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -332,7 +332,8 @@ def create_slurm_rescue(metallicity,
                         max_concurrent_jobs,
                         exclude,
                         path_to_posydon,
-                        path_to_posydon_data):
+                        path_to_posydon_data,
+                        run_folder=''):
     '''Creates the slurm rescue script for resubmitting failed population synthesis jobs.
 
     Creates a SLURM submission script file named
@@ -361,6 +362,8 @@ def create_slurm_rescue(metallicity,
         Path to the POSYDON installation
     path_to_posydon_data : str
         Path to the POSYDON_DATA directory
+    run_folder : str, optional
+        Folder to write the script to (default: current directory)
     '''
     str_met = convert_metallicity_to_string(metallicity)
 
@@ -409,7 +412,7 @@ def create_slurm_rescue(metallicity,
 
     text = text_pre + optional_section + text_post
 
-    filename = f'{str_met}_Zsun_rescue.slurm'
+    filename = os.path.join(run_folder, f'{str_met}_Zsun_rescue.slurm')
     if os.path.exists(filename): # pragma: no cover
         Pwarn('Replace ' + filename, "OverwriteWarning")
     with open(filename, mode='w') as file:
@@ -583,7 +586,8 @@ def create_batch_rescue_script(args, batch_status):
         max_concurrent_jobs=max_concurrent_jobs,
         exclude=exclude,
         path_to_posydon=path_to_posydon,
-        path_to_posydon_data=path_to_posydon_data
+        path_to_posydon_data=path_to_posydon_data,
+        run_folder=run_folder
     )
 
     rescue_script = os.path.join(run_folder, f'{str_met}_Zsun_rescue.slurm')
@@ -608,6 +612,8 @@ def create_bash_submit_rescue_script(filename, rescue_scripts):
     resubmit_sh_file = os.path.join(filename, RESUBMIT_SCRIPT)
     with open(resubmit_sh_file, 'w') as f:
         f.write("#!/bin/bash\n")
+        # the jobs have to be submitted from the run folder
+        f.write('cd "$(dirname "$0")"\n')
         for script in rescue_scripts:
             script_basename = os.path.basename(script)
             met = script_basename.split('_')[0]
diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 519817f..8d7fc2a 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -682,9 +682,12 @@ def submit_slurm_job(script_path):
     bool
         True if submission succeeded, False otherwise
     """
+    # the scripts need to be submitted from the run folder
+    folder, script = os.path.split(os.path.abspath(script_path))
     try:
         result = subprocess.run(
-            ['sbatch', script_path],
+            ['sbatch', script],
+            cwd=folder,
             check=True,
             capture_output=True,
             text=True
-- 
2.43.0


From 885a03679a0de090a9c3570f3f36fc3efb5ef4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:58 +0000
Subject: [PATCH 089/110] fix: a killed task or merge leaves an incomplete
 combined file which is taken as complete

---
 posydon/CLI/io.py                  |  2 +-
 posydon/CLI/popsyn/check.py        |  4 ++--
 posydon/popsyn/binarypopulation.py | 10 +++++++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index 498c9cf..82e78af 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -89,7 +89,7 @@ def create_merge_script_text(ini_file):
             synpop = BinaryPopulation(**ini_kw)
             path_to_batch = ini_kw["temp_directory"]
             tmp_files = [os.path.join(path_to_batch, f) for f in os.listdir(path_to_batch)
-                         if os.path.isfile(os.path.join(path_to_batch, f))]
+                         if f.startswith("evolution.combined.") and f.endswith(".h5")]
             tmp_files = sorted(tmp_files, key=lambda x: int(x.split(".h5")[0].split(".")[-1]))
             synpop.combine_saved_files(str_met + "_Zsun_population.h5", tmp_files)
             print("done")
diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 8d7fc2a..fa00e6b 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -347,7 +347,7 @@ def find_missing_batch_indices(batch_folder, expected_count):
     set
         Set of missing batch indices
     """
-    batch_files = glob.glob(os.path.join(batch_folder, 'evolution.combined.*'))
+    batch_files = glob.glob(os.path.join(batch_folder, 'evolution.combined.*.h5'))
     found_indices = set()
     for batch_file in batch_files:
         file_name = os.path.basename(batch_file)
@@ -577,7 +577,7 @@ def check_batch(run_folder, metallicity, batch_folder_name):
         }
 
     # Count actual batch files
-    batch_files = glob.glob(os.path.join(batch_folder, 'evolution.combined.*'))
+    batch_files = glob.glob(os.path.join(batch_folder, 'evolution.combined.*.h5'))
     actual_count = len(batch_files)
 
     # Find missing batch indices if incomplete
diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 93aaa37..a2a36c2 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -551,7 +551,12 @@ class BinaryPopulation:
         complevel = kwargs.get('complevel', 9)
 
 
-        with pd.HDFStore(absolute_filepath, mode=mode, complevel=complevel, complib=complib) as store:
+        # a new file gets its name only once it is complete, hence a combined
+        # file never misses systems when the process got killed
+        store_path = (absolute_filepath + '.tmp' if mode == 'w'
+                      else absolute_filepath)
+
+        with pd.HDFStore(store_path, mode=mode, complevel=complevel, complib=complib) as store:
             simulated_mass = 0.0
             simulated_mass_single = 0.0
             simulated_mass_binaries = 0.0
@@ -616,6 +621,9 @@ class BinaryPopulation:
             tmp_df.index.name = 'metallicity'
             store.append('mass_per_metallicity', tmp_df)
 
+        if store_path != absolute_filepath:
+            os.replace(store_path, absolute_filepath)
+
         # only remove the files once they've been written to the new file
         for f in combined_files:
             os.remove(f)
-- 
2.43.0


From b719ae244226bcac0d5bb11065f7c06952f86134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 090/110] fix: no rescue scripts are made if the batches of
 another metallicity are complete

---
 posydon/CLI/popsyn/check.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index fa00e6b..49fdeab 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -812,6 +812,10 @@ def check_popsyn_function(args):
         # Create rescue scripts
         rescue_scripts = []
         for _, status in batch_status.items():
+            if status['status'] == 'complete':
+                # only the merge is missing, it can be resubmitted by another
+                # check once no batches are missing anymore
+                continue
             print_separator_line()
             print("\nGENERATING A RESCUE SCRIPT ....................")
             rescue_scripts.append(create_batch_rescue_script(args, status))
-- 
2.43.0


From fb29cbba6f032b8b636c65c2af6d724256ea91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:53 +0000
Subject: [PATCH 091/110] fix: MESA is run in the background where sh is not
 bash

---
 bin/posydon-run-grid | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index fecdf11..e5bd13e 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -488,7 +488,7 @@ def run_mesa(mesa_executable, work_dir, final_dir, **kwargs):
         child_ID = 0.1
     if child_ID>0:
         #parent process: run MESA and do the clean up in the working directory
-        os.system("{0} &> {1}".format(mesa_executable, os.path.join(work_dir, outfile_name)))
+        os.system("{0} > {1} 2>&1".format(mesa_executable, os.path.join(work_dir, outfile_name)))
 
         if not keep_profiles:
             if os.path.exists(os.path.join(work_dir, 'LOGS')):
-- 
2.43.0


From 8928d36cecef55ba083d4d941914076a156d5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:53 +0000
Subject: [PATCH 092/110] fix: formation steps of a star after the second one
 run the inlist of the second step

---
 bin/posydon-run-grid | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index e5bd13e..53d0720 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -750,10 +750,10 @@ def run_grid_point(grid, star1_formation, star2_formation,
         for index, inlist_step in enumerate(args.mesa_star1_inlist_project):
             # this is only called to create single HeMS stars, only second step1
             # requires metallicity
-            if index == 0:
-                create_star_formation(grid_param_dict['m1'], work_dir, inlist_step)
-            elif index == 1:
+            if index == 1:
                 create_star_formation(grid_param_dict['m1'], work_dir, inlist_step, grid_param_dict['initial_z'], True)
+            else:
+                create_star_formation(grid_param_dict['m1'], work_dir, inlist_step)
             run_mesa(args.mesa_star1_executable, work_dir, final_dir, keep_work_dir=True,
                      outfile_name='out_star1_formation_step{0}.txt'.format(index))
 
@@ -764,10 +764,10 @@ def run_grid_point(grid, star1_formation, star2_formation,
         for index, inlist_step in enumerate(args.mesa_star2_inlist_project):
             # this is only called to create single HeMS stars, only second step1
             # requires metallicity
-            if index == 0:
-                create_star_formation(grid_param_dict['m2'], work_dir, inlist_step)
-            elif index == 1:
+            if index == 1:
                 create_star_formation(grid_param_dict['m2'], work_dir, inlist_step, grid_param_dict['initial_z'], True)
+            else:
+                create_star_formation(grid_param_dict['m2'], work_dir, inlist_step)
             run_mesa(args.mesa_star2_executable, work_dir, final_dir, keep_work_dir=True,
                      outfile_name='out_star2_formation_step{0}.txt'.format(index))
 
-- 
2.43.0


From e0daa21b798de1953e2e6a9a4361b782128808ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:53 +0000
Subject: [PATCH 093/110] fix: grid parameters of binary_job are not read by
 MESA

---
 bin/posydon-run-grid | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index 53d0720..8f9af1c 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -237,14 +237,24 @@ def create_binary_inlists(binary_controls, binary_job,
 / ! end of controls namelist
                         """.format(binary_inlist_project)
 
+    if binary_job:
+        # the grid point has values for binary_job
+        extra_binary_job_str = """
+      read_extra_binary_job_inlist2 = .true.
+      extra_binary_job_inlist2_name = 'inlist_grid_points'
+"""
+    else:
+        extra_binary_job_str = ""
+
     binary_job_str = """
 &binary_job
 
       read_extra_binary_job_inlist1 = .true.
       extra_binary_job_inlist1_name = '{0}'
-
+{1}
 / ! end of job namelist
-                        """.format(binary_inlist_project)
+                        """.format(binary_inlist_project,
+                                   extra_binary_job_str)
 
     filename = os.path.join(work_dir, 'inlist')
     if os.path.exists(filename):
-- 
2.43.0


From 2b0ebf6977ff4ec8d186b10e525852275c4638c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:46 +0000
Subject: [PATCH 094/110] fix: user inlists are overridden by the POSYDON
 defaults of a scenario

---
 bin/posydon-setup-grid | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/posydon-setup-grid b/bin/posydon-setup-grid
index f6978f5..8ef4f8b 100755
--- a/bin/posydon-setup-grid
+++ b/bin/posydon-setup-grid
@@ -1024,6 +1024,11 @@ if __name__ == '__main__':
         find_inlist_from_scenario(source=mesa_inlists['scenario'][0],
                                   gitcommit=mesa_inlists['scenario'][1],
                                   system_type=mesa_inlists['scenario'][2])
+        # the inlists are stacked in the order of the keys: keep the user's ones
+        # on top of the ones added by the scenario
+        for layer in ['_user', '_special']:
+            for key in [k for k in mesa_inlists.keys() if k.endswith(layer)]:
+                mesa_inlists[key] = mesa_inlists.pop(key)
     # read grid
     if '.csv' in run_parameters['grid']:
         grid_df = pandas.read_csv(run_parameters['grid'])
-- 
2.43.0


From c1f69ac19b90932d3704d20ff4790343461e0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:16 +0000
Subject: [PATCH 095/110] fix: the pipeline can't be set up without sections of
 steps which are not run

---
 bin/posydon-setup-pipeline | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index d6eeac5..c2ed6c4 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -313,7 +313,8 @@ class PostProcessingPipeline:
                 Only True if a valid substep is found
             """
             if step_number not in self.pipeline_kwargs.keys():
-                raise KeyError(f'{step_number} not in pipeline_kwargs!')
+                # a step without a section has no substeps
+                return False
             if substep=='ALL': # check all possible substeps
                 substeps = SUB_STEPS_TO_EXTENSION.keys()
             else: # check the specified substep
@@ -416,9 +417,6 @@ class PostProcessingPipeline:
                             import CompileData, ProfileInterpolator
 
                 for sub_step, step_extension in SUB_STEPS_TO_EXTENSION.items():
-                    if sub_step not in\
-                        self.pipeline_kwargs[step_number].keys():
-                        continue
                     if has_substep(self, step_number=step_number,
                                    substep=sub_step):
                         # get sub-step number to be a concatenation of the main
-- 
2.43.0


From f2a1b7a314e37f38f3c95fcd7e035c2826ec2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:33 +0000
Subject: [PATCH 096/110] fix: checks of a trained interpolator are set up with
 the one of the other training step

---
 bin/posydon-setup-pipeline | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index c2ed6c4..e61aedd 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -1065,13 +1065,13 @@ def create_csv(GRID_TYPES=[],
                                                   metallicity, compression,
                                                   grid_s+'.h5'))
                                     if method != '': # if there is a method
-                                        if 'step_4' not in step_name:
+                                        if 'step_4' in step_name:
                                             interpolators.append(os.path.join(
                                                 PATH_TO_GRIDS, grid_type,
                                                 VERSION, metallicity,
                                                 'interpolation_objects',
                                                 'IF_'+method+RLO+'.pkl'))
-                                        elif 'step_5' not in step_name:
+                                        elif 'step_5' in step_name:
                                             interpolators.append(os.path.join(
                                                 PATH_TO_GRIDS, grid_type,
                                                 VERSION, metallicity,
-- 
2.43.0


From e916eab57e88090075e1e14f5f3f5522bd0dffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:51 +0000
Subject: [PATCH 097/110] fix: no folder for the logs of plots and checks after
 a step which is not run

---
 bin/posydon-setup-pipeline | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index e61aedd..93a92c8 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -505,9 +505,13 @@ class PostProcessingPipeline:
         # create logs in working dir to store all slurm outputs
         if not os.path.isdir(logs_path):
             os.makedirs(logs_path)
-        # create sub directories for each step
+        # create sub directories for each step; plots and checks are done
+        # independently of whether their step is active
         for action, step_number in ACTION_TO_STEP_NUM.items():
-            if ((action in setup_kwargs.keys()) and setup_kwargs[action]):
+            step_kwargs = self.pipeline_kwargs.get(step_number, {})
+            if (((action in setup_kwargs.keys()) and setup_kwargs[action]) or
+                any(step_kwargs.get(sub_step)
+                    for sub_step in SUB_STEPS_TO_EXTENSION)):
                 step_log_path = os.path.join(logs_path, step_number)
                 if not os.path.isdir(step_log_path):
                     os.makedirs(step_log_path)
-- 
2.43.0


From ea0e4771a706dfc81879d71265303691a0374708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:43 +0000
Subject: [PATCH 098/110] fix: runs with compressed output are never selected
 for PISN and conv_bdy_weight reruns

---
 bin/posydon-run-pipeline | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bin/posydon-run-pipeline b/bin/posydon-run-pipeline
index 9666217..4c3f156 100644
--- a/bin/posydon-run-pipeline
+++ b/bin/posydon-run-pipeline
@@ -65,6 +65,7 @@ __authors__ = [
 import os
 import sys
 import ast
+import gzip
 import time
 import shutil
 import pickle
@@ -786,8 +787,14 @@ def logic_rerun(grid, rerun_type):
                                             "out_star1_formation_step2.txt")
             else:
                 out_txt_path = os.path.join(dirname, "out.txt")
+            # the output of finished runs is usually compressed
+            open_file = open
+            if (not os.path.isfile(out_txt_path)
+                and os.path.isfile(out_txt_path + ".gz")):
+                out_txt_path += ".gz"
+                open_file = gzip.open
             if (out_txt_path is not None) and os.path.isfile(out_txt_path):
-                with open(out_txt_path, "r") as log_file:
+                with open_file(out_txt_path, "rt") as log_file:
                     log_lines = log_file.readlines()
                 for line in log_lines:
                     if "have reached gamma1 integral limit" in line:
@@ -866,8 +873,14 @@ def logic_rerun(grid, rerun_type):
                                             "out_star1_formation_step2.txt")
             else:
                 out_txt_path = os.path.join(dirname, "out.txt")
+            # the output of finished runs is usually compressed
+            open_file = open
+            if (not os.path.isfile(out_txt_path)
+                and os.path.isfile(out_txt_path + ".gz")):
+                out_txt_path += ".gz"
+                open_file = gzip.open
             if (out_txt_path is not None) and os.path.isfile(out_txt_path):
-                with open(out_txt_path, "r") as log_file:
+                with open_file(out_txt_path, "rt") as log_file:
                     log_lines = log_file.readlines()
                 for line in log_lines:
                     if (("STOP prepare_for_new_try: bad num omega" in line) or
-- 
2.43.0


From a715826c58ff0c78d0ecfce8d18d5151c21bd656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 099/110] fix: files of runs in folders with special characters
 are not compressed

---
 posydon/utils/compress_mesa_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/utils/compress_mesa_files.py b/posydon/utils/compress_mesa_files.py
index 29129c6..ac518fa 100644
--- a/posydon/utils/compress_mesa_files.py
+++ b/posydon/utils/compress_mesa_files.py
@@ -264,7 +264,9 @@ def compress_dir(args):
             if os.path.isfile(os.path.join(folder, compress_file)):
                 if args.debug:
                     print("compress:", os.path.join(folder, compress_file))
-                os.system(f"gzip -1 {os.path.join(folder, compress_file)}")
+                # run without a shell: the path may contain special characters
+                os.spawnlp(os.P_WAIT, "gzip", "gzip", "-1",
+                           os.path.join(folder, compress_file))
             else: #pragma: no cover
                 raise FileNotFoundError(f"{os.path.join(folder, remove_file)}"
                                         " is not a file.")
-- 
2.43.0


From 1cf4615cdb52e73f45f0e2cb155be78a516ca910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:48 +0000
Subject: [PATCH 100/110] fix: numeric class labels are mixed up with the ids
 of the classes

---
 posydon/active_learning/psy_cris/classify.py | 2 +-
 posydon/active_learning/psy_cris/data.py     | 5 ++---
 posydon/active_learning/psy_cris/sample.py   | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/posydon/active_learning/psy_cris/classify.py b/posydon/active_learning/psy_cris/classify.py
index d0d5390..851b028 100644
--- a/posydon/active_learning/psy_cris/classify.py
+++ b/posydon/active_learning/psy_cris/classify.py
@@ -519,7 +519,7 @@ class Classifier:
         if return_ids:
             return pred_class_ids, max_probs, where_not_nan
         else:
-            pred_classes = [self.class_id_mapping[i] for i in pred_class_ids]
+            pred_classes = [self.class_names[i] for i in pred_class_ids]
             return pred_classes, max_probs, where_not_nan
 
     def get_cross_val_data(self, alpha):
diff --git a/posydon/active_learning/psy_cris/data.py b/posydon/active_learning/psy_cris/data.py
index e4badca..32388ce 100644
--- a/posydon/active_learning/psy_cris/data.py
+++ b/posydon/active_learning/psy_cris/data.py
@@ -334,9 +334,8 @@ class TableData:
         self._class_col_ = self._full_data_[class_col_name].values.astype(
             self._class_dtype_
         )
-        self._class_col_to_ids_ = []
-        for cl in self._class_col_:
-            self._class_col_to_ids_.append(self._class_id_mapping_[cl])
+        self._class_col_to_ids_ = list(
+            np.searchsorted(self._unique_class_keys_, self._class_col_))
 
         if my_colors is not None:
             self._class_colors_ = my_colors
diff --git a/posydon/active_learning/psy_cris/sample.py b/posydon/active_learning/psy_cris/sample.py
index 5796656..eb07e57 100644
--- a/posydon/active_learning/psy_cris/sample.py
+++ b/posydon/active_learning/psy_cris/sample.py
@@ -204,7 +204,7 @@ class Sampler:
         )
         max_probs = np.max(normalized_probs, axis=1)
         pred_class_ids = np.argmax(normalized_probs, axis=1)
-        cls_key = [self._Classifier_.class_id_mapping[i]
+        cls_key = [self._Classifier_.class_names[i]
                    for i in pred_class_ids]
 
         theoretical_max_TD_cls_term = (
-- 
2.43.0


From 5c4c05ee238948a1e5207eac080d6cb36ad947db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:48 +0000
Subject: [PATCH 101/110] fix: average changes are labelled with numbers of
 neighbors which are skipped

---
 posydon/active_learning/psy_cris/data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/posydon/active_learning/psy_cris/data.py b/posydon/active_learning/psy_cris/data.py
index 32388ce..948b811 100644
--- a/posydon/active_learning/psy_cris/data.py
+++ b/posydon/active_learning/psy_cris/data.py
@@ -483,10 +483,8 @@ class TableData:
                             # update into regr_dfs_per_class
                             # - all data available for regression
                             my_kwargs = OrderedDict()
-                            for i in range(np.shape(avg_p_change)[0]):
-                                new_col_str = "APC{0}_{1}".format(
-                                    self._n_neighbors_[i], _key
-                                )
+                            for i, n_ in enumerate(where_nearest_neighbors):
+                                new_col_str = "APC{0}_{1}".format(n_, _key)
                                 self.__vb_helper(verbose, "\t" + new_col_str)
                                 my_kwargs[new_col_str] = avg_p_change[i]
                             self._regr_dfs_per_class_[key] = (
-- 
2.43.0


From f5abcef13bbeec7b773aa6f9e58cebb60ab100c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:48 +0000
Subject: [PATCH 102/110] fix: a failed cross validation replaces the trained
 classifiers

---
 posydon/active_learning/psy_cris/classify.py | 49 ++++++++++----------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/posydon/active_learning/psy_cris/classify.py b/posydon/active_learning/psy_cris/classify.py
index 851b028..6badc3b 100644
--- a/posydon/active_learning/psy_cris/classify.py
+++ b/posydon/active_learning/psy_cris/classify.py
@@ -602,8 +602,6 @@ class Classifier:
             the order of classifier_names.
 
         """
-        self.__train_cross_val = True
-
         (
             train_data_indicies,
             cv_test_input_data,
@@ -622,28 +620,32 @@ class Classifier:
             )
 
         time_to_train = []
-        # Train classifiers
-        start_time = time.time()
-        for name in classifier_names:
-            self.train(name, di=train_data_indicies)
-            time_to_train.append(time.time() - start_time)
-
-        predicted_class_ids = []
-        where_not_nans_holder = []
-        num_corr_holder = []
-        # Test classification
-        for name in classifier_names:
-            pred_ids, probs, where_not_nan = self.get_class_predictions(
-                name, cv_test_input_data
-            )
+        try:
+            self.__train_cross_val = True
+            # Train classifiers
+            start_time = time.time()
+            for name in classifier_names:
+                self.train(name, di=train_data_indicies)
+                time_to_train.append(time.time() - start_time)
+
+            predicted_class_ids = []
+            where_not_nans_holder = []
+            num_corr_holder = []
+            # Test classification
+            for name in classifier_names:
+                pred_ids, probs, where_not_nan = self.get_class_predictions(
+                    name, cv_test_input_data
+                )
 
-            predicted_class_ids.append(pred_ids)
-            where_not_nans_holder.append(where_not_nan)
-            # pred_ids already has nans omitted...
-            # the output data needs to have those removed...
-            num_correct = np.sum(
-                pred_ids == cv_test_output_data[where_not_nan])
-            num_corr_holder.append(num_correct)
+                predicted_class_ids.append(pred_ids)
+                where_not_nans_holder.append(where_not_nan)
+                # pred_ids already has nans omitted...
+                # the output data needs to have those removed...
+                num_correct = np.sum(
+                    pred_ids == cv_test_output_data[where_not_nan])
+                num_corr_holder.append(num_correct)
+        finally:
+            self.__train_cross_val = False
 
         percent_correct = []
         for j in range(len(num_corr_holder)):
@@ -663,7 +665,6 @@ class Classifier:
                 )
             print("")
 
-        self.__train_cross_val = False
         return np.array(percent_correct), np.array(time_to_train)
 
     def make_cv_plot_data(self, interp_type, alphas, N_iterations,
-- 
2.43.0


From 98d127a487a5db499e454acf82a79a8b7cf42ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:05 +0000
Subject: [PATCH 103/110] fix: regressors fail with classes without values to
 regress

---
 posydon/active_learning/psy_cris/regress.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/active_learning/psy_cris/regress.py b/posydon/active_learning/psy_cris/regress.py
index 5eb1ec3..d728811 100644
--- a/posydon/active_learning/psy_cris/regress.py
+++ b/posydon/active_learning/psy_cris/regress.py
@@ -70,6 +70,8 @@ class Regressor:
         max_apc_vals = []
         apc_dfs_per_class = self.regr_dfs_per_class.copy()
         for key, val in apc_dfs_per_class.items():
+            if not isinstance(val, pd.DataFrame):
+                continue  # no regression data in this class
             non_APC_cols = [i for i in val.columns if "APC" not in i]
             if len(non_APC_cols) == len(val.columns):
                 continue  # no APC cols to work on
-- 
2.43.0


From 233e348408d7c4cdfd59c5ca05f93973067023dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:05 +0000
Subject: [PATCH 104/110] fix: predictions fail if a linear interpolation is
 impossible in a small class

---
 posydon/active_learning/psy_cris/regress.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/active_learning/psy_cris/regress.py b/posydon/active_learning/psy_cris/regress.py
index d728811..5147772 100644
--- a/posydon/active_learning/psy_cris/regress.py
+++ b/posydon/active_learning/psy_cris/regress.py
@@ -577,11 +577,11 @@ class Regressor:
 
         interp = interpolators[class_key][col_key]
 
-        if regressor_key == "RBF":
-            # When Rbf training fails for small classes, interpolator is None
-            if interp is None:
-                return None
+        # When training fails for small classes, interpolator is None
+        if interp is None:
+            return None
 
+        if regressor_key == "RBF":
             argList = []
             for col in range(len(test_input[0])):
                 argList.append(test_input.T[col])
-- 
2.43.0


From 21bbbd26ecf395a0756f884be67ed9205f037d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:05 +0000
Subject: [PATCH 105/110] fix: points can't be proposed without the training
 data

---
 posydon/active_learning/psy_cris/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/sample.py b/posydon/active_learning/psy_cris/sample.py
index eb07e57..2ddeb39 100644
--- a/posydon/active_learning/psy_cris/sample.py
+++ b/posydon/active_learning/psy_cris/sample.py
@@ -641,7 +641,7 @@ class Sampler:
         else:
             original_training_data = []
         how_many_training_data = len(original_training_data)
-        n_dim = len(original_training_data[0])
+        n_dim = len(step_history[0])
         # approximate scaling of the variance given a set of N proposal points
         # the filling factor Kappa is not generally known a priori
         if var_mult is None:
-- 
2.43.0


From e36aca2a467780d15771c5097406dcc5b645ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 106/110] fix: random proposals return the probabilities and
 indices with the predicted classes

---
 posydon/active_learning/psy_cris/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index 04947a4..c27538e 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -176,7 +176,7 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
         proposed_points = np.array(random.sample(
             list(good_points_in_posterior), N_new_points))
 
-        pred_class = cls_obj.get_class_predictions(
+        pred_class, max_probs, where_not_nan = cls_obj.get_class_predictions(
             classifier_name, proposed_points, return_ids=False)
         return proposed_points, pred_class
 
-- 
2.43.0


From 01ef4fbf012297ca7c9275db239fbcf24f2a9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 107/110] fix: the settings of a query are changed and can't be
 used again

---
 posydon/active_learning/psy_cris/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index c27538e..5c0449d 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -135,6 +135,7 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
                 pred_class[0:N_new_points])
 
     # Regressor
+    Regressor_kwargs = dict(Regressor_kwargs)
     if Regressor_kwargs.pop("do_regression", False):
         regr_obj = Regressor(table_obj)
         regr_obj.train_everything(**Regressor_kwargs)
@@ -146,7 +147,7 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
 
     target_dist_name = Sampler_kwargs.get("target_dist", "TD_classification")
     target_dist_obj = getattr(sampler_obj, target_dist_name)
-    Sampler_kwargs['target_dist'] = target_dist_obj
+    Sampler_kwargs = dict(Sampler_kwargs, target_dist=target_dist_obj)
 
     chain_step_history, T_list = sampler_obj.run_PTMCMC(**Sampler_kwargs)
     last_chain_hist = chain_step_history[len(T_list) - 1]
-- 
2.43.0


From ec346eb03bb3e6afefd54ea555c68aa1e0ef5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 108/110] fix: dynamic sampling fails with pandas 2

---
 posydon/active_learning/psy_cris/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index 5c0449d..8b259b3 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -376,7 +376,8 @@ def do_dynamic_sampling(N_final_points=100, new_points_per_iter=20,
         elif dim == 3:
             output_new_points_df = get_output_3D(*new_points.T)
 
-        new_data = my_data.append(output_new_points_df, ignore_index=True)
+        new_data = pd.concat([my_data, output_new_points_df],
+                             ignore_index=True)
         # Append data to be returned
         dfs_per_iters.append(new_data)
         my_data = new_data.copy()
-- 
2.43.0


From 0a1a77e65a01419d13d2e10f022594e3fc3e119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 109/110] fix: predicted classes belong to other points if one
 has no prediction

---
 posydon/active_learning/psy_cris/utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index 8b259b3..d3c5928 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -71,6 +71,15 @@ def parse_inifile(path, verbose=False):
     return all_kwargs_dict
 
 
+def predict_classes(cls_obj, classifier_name, points):
+    """Predict one class per point; None where there is no prediction."""
+    pred_class, max_probs, where_not_nan = cls_obj.get_class_predictions(
+        classifier_name, points, return_ids=False)
+    all_pred_class = np.full(len(points), None, dtype=object)
+    all_pred_class[where_not_nan] = pred_class[:len(where_not_nan)]
+    return list(all_pred_class)
+
+
 def get_new_query_points(N_new_points=1, TableData_kwargs={},
                          Classifier_kwargs={}, Regressor_kwargs={},
                          Sampler_kwargs={}, Proposal_kwargs={},
@@ -128,8 +137,8 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
             prop_points_in_range]
 
         classifier_name = Proposal_kwargs.get("pred_classifier_name", "rbf")
-        pred_class, max_probs, where_not_nan = cls_obj.get_class_predictions(
-            classifier_name, small_cls_prop_points_in_rng, return_ids=False)
+        pred_class = predict_classes(cls_obj, classifier_name,
+                                     small_cls_prop_points_in_rng)
 
         return (small_cls_prop_points_in_rng[0:N_new_points],
                 pred_class[0:N_new_points])
@@ -177,15 +186,13 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
         proposed_points = np.array(random.sample(
             list(good_points_in_posterior), N_new_points))
 
-        pred_class, max_probs, where_not_nan = cls_obj.get_class_predictions(
-            classifier_name, proposed_points, return_ids=False)
+        pred_class = predict_classes(cls_obj, classifier_name, proposed_points)
         return proposed_points, pred_class
 
     kappa = Proposal_kwargs.get("kappa", 150)
     proposed_points, final_kappa = sampler_obj.get_proposed_points(
         last_chain_hist, N_new_points, kappa, **Proposal_kwargs)
-    pred_class, max_probs, where_not_nan = cls_obj.get_class_predictions(
-        classifier_name, proposed_points, return_ids=False)
+    pred_class = predict_classes(cls_obj, classifier_name, proposed_points)
     return proposed_points, pred_class
 
 
-- 
2.43.0


From 3927c916606b3cd62b084e087353d824b9f61a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:52 +0000
Subject: [PATCH 110/110] fix: the classification target is largest where there
 is no classification

---
 posydon/active_learning/psy_cris/sample.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/active_learning/psy_cris/sample.py b/posydon/active_learning/psy_cris/sample.py
index 2ddeb39..85dfb1e 100644
--- a/posydon/active_learning/psy_cris/sample.py
+++ b/posydon/active_learning/psy_cris/sample.py
@@ -166,6 +166,9 @@ class Sampler:
             classifier_name, position, **kwargs
         )
 
+        if None in list(cls_keys):
+            return np.full(len(pos), 1e-16)
+
         theoretical_max_TD_cls_term = 1 - 1 / self._TableData_.num_classes
         return ((1 - max_probs) * 1 / theoretical_max_TD_cls_term) ** (TD_BETA)
 
-- 
2.43.0

