From fd73880bea9c7ecbd2ec6c1b93a4f5f7119bc552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 01/22] fix: spectrum look-ups no longer change the derived
 spectrum

P_s_approx and P_t_approx with method LLMS, STE or ARBDS derived the requested
approximation on the solution itself, replacing the selected spectra
(logk2logP_s/t, P_scalar/tensor_approx) by those of whatever was looked up last,
and remembered the interpolation options of the first look-up for all later
ones. Derive on a copy instead.
---
 primpy/inflation.py | 58 ++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..ca1bdb9 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -890,7 +890,7 @@ class InflationEquations(Equations, ABC):
             sol.n_t = dlogPdlogk_t[1]
             sol.r = sol.A_t / sol.A_s
 
-        def derive_approx_power_CGS(order=3, **interp1d_kwargs):
+        def derive_approx_power_CGS(order=3, sol=sol, **interp1d_kwargs):
             """Slow-roll approximation by Choe, Gong, and Stewart.
 
             Relevant papers
@@ -1072,7 +1072,7 @@ class InflationEquations(Equations, ABC):
                 sol.logk2logP_s = logk2logP_s_3
                 sol.logk2logP_t = logk2logP_t_3
 
-        def derive_approx_power_LLMS(**interp1d_kwargs):
+        def derive_approx_power_LLMS(sol=sol, **interp1d_kwargs):
             """Slow-roll approximation by Leach, Liddle, Martin, and Schwarz (2002).
 
             http://arxiv.org/abs/astro-ph/0101225v2
@@ -1149,7 +1149,7 @@ class InflationEquations(Equations, ABC):
             sol.logk2logP_s = logk2logP_s_LLMS
             sol.logk2logP_t = logk2logP_t_LLMS
 
-        def derive_approx_power_STE(**interp1d_kwargs):
+        def derive_approx_power_STE(sol=sol, **interp1d_kwargs):
             """Slow-roll approximation by Schwarz and Terrero-Escalante (2004).
 
             https://arxiv.org/abs/hep-ph/0403129
@@ -1219,7 +1219,7 @@ class InflationEquations(Equations, ABC):
             sol.logk2logP_s = logk2logP_s_STE
             sol.logk2logP_t = logk2logP_t_STE
 
-        def derive_approx_power_ARBDS(order=3, **interp1d_kwargs):
+        def derive_approx_power_ARBDS(order=3, sol=sol, **interp1d_kwargs):
             """Slow-roll approximation up to third order (N3LO).
 
             Slow-roll approximation by
@@ -1431,6 +1431,14 @@ class InflationEquations(Equations, ABC):
 
         sol.derive_approx_power = derive_approx_power
 
+        def get_approx_power(name, derive, **kwargs):
+            """Get the approximate power spectrum `name` without changing any results in `sol`."""
+            if kwargs or not hasattr(sol, name):
+                copy = type(sol)(sol)
+                derive(sol=copy, **kwargs)
+                return copy[name]
+            return sol[name]
+
         def P_s_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for scalar modes.
 
@@ -1466,22 +1474,15 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_s_approx_CGS2(k)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_s_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
-                return sol.P_s_approx_LLMS(k)
+                return get_approx_power('P_s_approx_LLMS', derive_approx_power_LLMS,
+                                        **interp_kwargs)(k)
             elif method == 'STE':
-                if not hasattr(sol, "P_s_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
-                return sol.P_s_approx_STE(k)
+                return get_approx_power('P_s_approx_STE', derive_approx_power_STE,
+                                        **interp_kwargs)(k)
             elif method == 'ARBDS':
-                if not hasattr(sol, "P_s_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
-                if order == 3:
-                    return sol.P_s_approx_ARBDS3(k)
-                elif order == 1:
-                    return sol.P_s_approx_ARBDS1(k)
-                elif order == 2:
-                    return sol.P_s_approx_ARBDS2(k)
+                if order in (1, 2, 3):
+                    return get_approx_power('P_s_approx_ARBDS%d' % order,
+                                            derive_approx_power_ARBDS, **interp_kwargs)(k)
 
             return np.exp(sol.logk2logP_s(np.log(k)))
 
@@ -1520,22 +1521,15 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_t_approx_CGS2(k)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_t_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
-                return sol.P_t_approx_LLMS(k)
+                return get_approx_power('P_t_approx_LLMS', derive_approx_power_LLMS,
+                                        **interp_kwargs)(k)
             elif method == 'STE':
-                if not hasattr(sol, "P_t_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
-                return sol.P_t_approx_STE(k)
+                return get_approx_power('P_t_approx_STE', derive_approx_power_STE,
+                                        **interp_kwargs)(k)
             elif method == 'ARBDS':
-                if not hasattr(sol, "P_t_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
-                if order == 3:
-                    return sol.P_t_approx_ARBDS3(k)
-                elif order == 1:
-                    return sol.P_t_approx_ARBDS1(k)
-                elif order == 2:
-                    return sol.P_t_approx_ARBDS2(k)
+                if order in (1, 2, 3):
+                    return get_approx_power('P_t_approx_ARBDS%d' % order,
+                                            derive_approx_power_ARBDS, **interp_kwargs)(k)
 
             return np.exp(sol.logk2logP_t(np.log(k)))
 
-- 
2.43.0


From 507914d771a95264066d5e0eeb1e595cb20dde95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 02/22] fix: recalibration drops spectra derived for the
 previous calibration

Approximate spectra other than the one derived by the new calibration kept the
wavenumber calibration of an earlier one, so P_s_approx and P_t_approx returned
stale values. Derive them afresh on the next look-up.
---
 primpy/inflation.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index ca1bdb9..039c50a 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -863,6 +863,9 @@ class InflationEquations(Equations, ABC):
             sol.cHH_Mpc = sol.a0 / (np.exp(sol.N) * sol.H) * lp_m / Mpc_m
             sol.cHH_end_Mpc = sol.a0 / (np.exp(sol.N_end) * sol.H_end) * lp_m / Mpc_m
 
+            # drop approximate primordial power spectra derived for a previous calibration
+            for key in [key for key in sol if key.startswith(('P_s_approx_', 'P_t_approx_'))]:
+                del sol[key]
             # derive approximate primordial power spectra
             if background is None:  # only derive if not copied from background
                 derive_approx_power(**kwargs)
@@ -1465,14 +1468,9 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
-                if order == 3:
-                    return sol.P_s_approx_CGS3(k)
-                elif order == 0:
-                    return sol.P_s_approx_CGS0(k)
-                elif order == 1:
-                    return sol.P_s_approx_CGS1(k)
-                elif order == 2:
-                    return sol.P_s_approx_CGS2(k)
+                if order in (0, 1, 2, 3):
+                    return get_approx_power('P_s_approx_CGS%d' % order,
+                                            derive_approx_power_CGS)(k)
             elif method == 'LLMS':
                 return get_approx_power('P_s_approx_LLMS', derive_approx_power_LLMS,
                                         **interp_kwargs)(k)
@@ -1512,14 +1510,10 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
-                if order is None or order == 3:
-                    return sol.P_t_approx_CGS3(k)
-                elif order == 0:
-                    return sol.P_t_approx_CGS0(k)
-                elif order == 1:
-                    return sol.P_t_approx_CGS1(k)
-                elif order == 2:
-                    return sol.P_t_approx_CGS2(k)
+                order = 3 if order is None else order
+                if order in (0, 1, 2, 3):
+                    return get_approx_power('P_t_approx_CGS%d' % order,
+                                            derive_approx_power_CGS)(k)
             elif method == 'LLMS':
                 return get_approx_power('P_t_approx_LLMS', derive_approx_power_LLMS,
                                         **interp_kwargs)(k)
-- 
2.43.0


From 6e35af75d01983f213dd88c5a2e5f595d59fa303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 03/22] fix: every calibration sets H_star and rho_reh_mp4

Calibrations other than N_star left H_star, and Omega_K0 without reheating
information left rho_reh_mp4, at the value of an earlier calibration.
---
 primpy/inflation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 039c50a..149b4be 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -751,6 +751,7 @@ class InflationEquations(Equations, ABC):
                     sol.N0 = np.log(sol.a0)
                     if rho_reh_GeV is None:
                         sol.rho_reh_GeV = np.nan
+                        sol.rho_reh_mp4 = np.nan
                         sol._N_reh = np.nan
                         sol.w_reh = np.nan
                         sol.DeltaN_reh = np.nan
@@ -844,6 +845,7 @@ class InflationEquations(Equations, ABC):
                 sol.N_star = sol._N_end - sol._N_cross
 
             # both flat and curved universes
+            sol.H_star = np.exp(sol._logaH_star - sol._N_cross)
             sol.N = sol._N + sol.delta_N_calib
             sol.N_beg = sol._N_beg + sol.delta_N_calib
             sol.N_end = sol._N_end + sol.delta_N_calib
-- 
2.43.0


From 3ee0fae714529b07796b51886bc0855792468df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 04/22] fix: failed calibrations keep the results of the
 previous one

A calibration, spectrum derivation or set_ns that raised half-way (e.g. because
the pivot scale is out of range) left the solution with a mix of old and new
results, and a failed set_ns left it calibrated at one of its trial values.
---
 primpy/inflation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 149b4be..109c944 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1,4 +1,5 @@
 """General setup for equations for cosmic inflation."""
+from functools import wraps
 from warnings import warn
 from abc import ABC
 import numpy as np
@@ -460,6 +461,19 @@ class InflationEquations(Equations, ABC):
         if np.isfinite(sol._N_beg) and np.isfinite(sol._N_end):
             sol.inflation_mask = (sol._N_beg < sol._N) & (sol._N < sol._N_end)
 
+        def keep_results_on_failure(func):
+            """Let `func` leave all previous results in `sol` as they were if it fails."""
+            @wraps(func)
+            def wrapper(*args, **kwargs):
+                previous = dict(sol)
+                try:
+                    return func(*args, **kwargs)
+                except BaseException:
+                    sol.update(previous)
+                    raise
+            return wrapper
+
+        @keep_results_on_failure
         def calibrate_scale_factor(
                 calibration_method='N_star' if self.K == 0 else 'Omega_K0',
                 Omega_K0=None, h=None,                                    # for curved universes
@@ -874,6 +888,7 @@ class InflationEquations(Equations, ABC):
 
         sol.calibrate_scale_factor = calibrate_scale_factor
 
+        @keep_results_on_failure
         def derive_approx_power(method='CGS', order=3, **interp1d_kwargs):
             """Derive the approximate primordial power spectra for scalar and tensor modes."""
             if method == 'CGS':
@@ -1532,6 +1547,7 @@ class InflationEquations(Equations, ABC):
         sol.P_s_approx = P_s_approx
         sol.P_t_approx = P_t_approx
 
+        @keep_results_on_failure
         def set_ns(n_s, N_star_min=20, N_star_max=90, rho_reh_GeV=None, **kwargs):
             """Set scalar spectral index `n_s` of the primordial power spectrum in post-processing.
 
-- 
2.43.0


From e0d0198044d53a78969f9581fe20733a2004eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 05/22] fix: reheating duration from w_reh and rho_reh in
 curved universes

rho ~ exp(-3 (1+w) N) gives DeltaN_reh = log(rho_end/rho_reh) / (3 (1+w)), as used
for flat universes and by the inverse relations. The curved branch multiplied by
(1+w) instead, which is right for w_reh=0 only.
---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 109c944..9d91138 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -820,7 +820,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From ab8e3dc8fbcfe1e0eb6c6b6f026a2394ff5d1ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 06/22] fix: report a failed trial integration when shooting
 for initial conditions

The truth value of an empty event array is an error in numpy>=2.2, so a trial
integration that failed raised a ValueError instead of the intended StepSizeError
or PrimpyError.
---
 primpy/initialconditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..5abc77f 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -212,7 +212,7 @@ class ISIC_Nt(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N_tot, phi_i))
                 return sol._N[-1] - ic.N_i
             elif (np.size(sol._N_events['Collapse']) > 0 or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return 0 - self.N_tot
             elif 'step size' in sol.message:
@@ -293,12 +293,12 @@ class ISIC_NsOk(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
             elif (np.size(sol._N_events['Collapse']) > 0 or sol.N_tot <= self.N_star or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 if sol.N_tot <= self.N_star:
                     self.vwarn(InflationWarning("Insufficient inflation: N_tot = %g < %g = N_star"
                                                 % (sol.N_tot, self.N_star)))
-                elif sol._N_events['Inflation_dir-1_term1'] == sol._N[0]:
+                elif np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
                     self.vwarn(InflationWarning("Universe has ended early: _N[0]=%g, _N_events=%s"
                                                 % (sol._N[0], sol._N_events)))
                 return 0 - self.N_star
-- 
2.43.0


From b6b3a110d6508a290d754f0038d5ca278209f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 07/22] fix: raise an error when shooting did not converge

The convergence flag of the root finder was never looked at, e.g.
set_ns(n_s, maxiter=2) silently returned with a different n_s.
---
 primpy/inflation.py         | 2 ++
 primpy/initialconditions.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9d91138..0396f05 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1590,6 +1590,8 @@ class InflationEquations(Equations, ABC):
                     f"leading to `n_s(N_star_max)={ns_max}`."
                 )
             output = root_scalar(Nstar2ns_minus_ns, bracket=(N_star_min, N_star_max), **kwargs)
+            if not output.converged:
+                raise PrimpyError(f"Shooting for `n_s={n_s}` did not converge: {output.flag}.")
             N_star_new = output.root
             calibrate_scale_factor(calibration_method='N_star', N_star=N_star_new,
                                    rho_reh_GeV=rho_reh_GeV)
diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 5abc77f..87f8e0f 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -227,6 +227,9 @@ class ISIC_Nt(InflationStartIC):
         else:
             output = root_scalar(phii2Ntot, args=(ivp_kwargs,), bracket=self.phi_i_bracket)
         self.vprint(output)
+        if not output.converged:
+            raise PrimpyError("Shooting for `N_tot=%g` did not converge: %s."
+                              % (self.N_tot, output.flag))
         phi_i_new = output.root
         super(ISIC_Nt, self).__init__(equations=self.equations,
                                       phi_i=phi_i_new,
@@ -314,6 +317,9 @@ class ISIC_NsOk(InflationStartIC):
         else:
             output = root_scalar(phii2Nstar, args=(ivp_kwargs,), bracket=self.phi_i_bracket)
         self.vprint(output)
+        if not output.converged:
+            raise PrimpyError("Shooting for `N_star=%g` did not converge: %s."
+                              % (self.N_star, output.flag))
         phi_i_new = output.root
         super(ISIC_NsOk, self).__init__(equations=self.equations,
                                         phi_i=phi_i_new,
-- 
2.43.0


From 38c9741533a3a9fa0a2dd247e350192250558a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 08/22] fix: quiet shooting no longer modifies the process-wide
 warning filters

warnings.catch_warnings is not thread-safe: two shootings running in different
threads could leave an 'ignore' entry behind in warnings.filters for good. The
quiet case does not need it when the trial equations are silenced instead.
---
 primpy/initialconditions.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 87f8e0f..df20f8f 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -1,5 +1,6 @@
 """Initial conditions for inflation."""
 from abc import ABC, abstractmethod
+from copy import copy
 import warnings
 import numpy as np
 from scipy.optimize import root_scalar
@@ -12,6 +13,19 @@ from primpy.events import InflationEvent, CollapseEvent, UntilNEvent
 import primpy.bigbang as bb
 
 
+def solve_trial(ic, events, warn_action, **kwargs):
+    """Solve for trial initial conditions, e.g. when shooting for a target."""
+    if warn_action == 'ignore':
+        # Silence the equations rather than the process-wide (not thread-safe) warning filters.
+        ic = copy(ic)
+        ic.equations = copy(ic.equations)
+        ic.equations.vwarn = lambda *a, **k: None
+        return solve(ic, events=events, **kwargs)
+    with warnings.catch_warnings():
+        warnings.filterwarnings(action=warn_action, category=InflationWarning)
+        return solve(ic, events=events, **kwargs)
+
+
 class InitialConditions(ABC):
     """Base class for initial conditions."""
 
@@ -202,9 +216,7 @@ class ISIC_Nt(InflationStartIC):
                       InflationEvent(self.equations, direction=-1, terminal=True),
                       UntilNEvent(self.equations, ic.N_i + self.N_tot + 10),
                       CollapseEvent(self.equations)]
-            with warnings.catch_warnings():
-                warnings.filterwarnings(action=self.warn_action, category=InflationWarning)
-                sol = solve(ic, events=events, **kwargs)
+            sol = solve_trial(ic, events=events, warn_action=self.warn_action, **kwargs)
             if np.isfinite(sol.N_tot):
                 self.vprint("N_tot = %.15g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return sol.N_tot - self.N_tot
@@ -284,9 +296,7 @@ class ISIC_NsOk(InflationStartIC):
                       InflationEvent(self.equations, direction=-1, terminal=True),
                       UntilNEvent(self.equations, self.N0),
                       CollapseEvent(self.equations)]
-            with warnings.catch_warnings():
-                warnings.filterwarnings(action=self.warn_action, category=InflationWarning)
-                sol = solve(ic, events=events, **kwargs)
+            sol = solve_trial(ic, events=events, warn_action=self.warn_action, **kwargs)
             if np.isfinite(sol.N_tot) and sol.N_tot > self.N_star:
                 sol.calibrate_scale_factor(Omega_K0=self.Omega_K0, h=self.h)
                 self.vprint("N_tot = %.15g, N_star = %.15g for phi_i = %.15g"
-- 
2.43.0


From 787eb26ba680e54c0eb100def1212cd1cf156196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 09/22] fix: reject unknown approximations instead of quoting a
 previous calibration's spectrum

---
 primpy/inflation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 0396f05..6101abb 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -891,6 +891,11 @@ class InflationEquations(Equations, ABC):
         @keep_results_on_failure
         def derive_approx_power(method='CGS', order=3, **interp1d_kwargs):
             """Derive the approximate primordial power spectra for scalar and tensor modes."""
+            if (method not in ('CGS', 'LLMS', 'STE', 'ARBDS')
+                    or method == 'CGS' and order not in (0, 1, 2, 3)
+                    or method == 'ARBDS' and order not in (1, 2, 3)):
+                raise NotImplementedError(f"Unknown approximation method={method} with "
+                                          f"order={order}.")
             if method == 'CGS':
                 derive_approx_power_CGS(order=order, **interp1d_kwargs)
             elif method == 'LLMS':
-- 
2.43.0


From a7d81961d6e78d24d24b8fcb8021ced2dcea9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 10/22] fix: failed calibrations leave no spectra of their own
 behind

---
 primpy/inflation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 6101abb..b79f65a 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -469,6 +469,9 @@ class InflationEquations(Equations, ABC):
                 try:
                     return func(*args, **kwargs)
                 except BaseException:
+                    for key in list(sol):
+                        if key.startswith(('P_s_approx_', 'P_t_approx_')):
+                            del sol[key]
                     sol.update(previous)
                     raise
             return wrapper
-- 
2.43.0


From 07e2b254c2864f6818e56c516c8d97022c18e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 11/22] fix: shooting for N_tot or N_star that converges on a
 jump raises an error

For closed universes close to collapse the root finder can be led to a sign
change that is no root; the returned background then had a wildly different
N_tot from the one requested, without any error.
---
 primpy/initialconditions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index df20f8f..810649b 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -242,6 +242,11 @@ class ISIC_Nt(InflationStartIC):
         if not output.converged:
             raise PrimpyError("Shooting for `N_tot=%g` did not converge: %s."
                               % (self.N_tot, output.flag))
+        miss = phii2Ntot(output.root, ivp_kwargs)
+        if not abs(miss) <= 1e-2 * abs(self.N_tot):
+            # The root finder was led to a jump instead of a root.
+            raise PrimpyError("Shooting for `N_tot=%g` missed its target by %g at `phi_i=%.15g`."
+                              % (self.N_tot, miss, output.root))
         phi_i_new = output.root
         super(ISIC_Nt, self).__init__(equations=self.equations,
                                       phi_i=phi_i_new,
@@ -330,6 +335,11 @@ class ISIC_NsOk(InflationStartIC):
         if not output.converged:
             raise PrimpyError("Shooting for `N_star=%g` did not converge: %s."
                               % (self.N_star, output.flag))
+        miss = phii2Nstar(output.root, ivp_kwargs)
+        if not abs(miss) <= 1e-2 * abs(self.N_star):
+            # The root finder was led to a jump instead of a root.
+            raise PrimpyError("Shooting for `N_star=%g` missed its target by %g at `phi_i=%.15g`."
+                              % (self.N_star, miss, output.root))
         phi_i_new = output.root
         super(ISIC_NsOk, self).__init__(equations=self.equations,
                                         phi_i=phi_i_new,
-- 
2.43.0


From b1e02614598baa2c6a995c58e5d64d4ab4283618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 12/22] fix: find the start of inflation also when its event is
 terminal

The end of inflation was looked up among terminal and non-terminal events, the
start only among non-terminal ones.
---
 primpy/inflation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index b79f65a..28e69d3 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -417,13 +417,14 @@ class InflationEquations(Equations, ABC):
             sol._N_beg = sol._N[0]
             sol.H_beg = self.H(sol.x[0], sol.y[:, 0])
         # Case 2: there is a transition from non-inflating to inflating
-        elif ('Inflation_dir1_term0' in sol._N_events and
-              np.size(sol._N_events['Inflation_dir1_term0']) > 0):
-            sol._N_beg = sol._N_events['Inflation_dir1_term0'][0]
-            sol.H_beg = self.H(sol.x_events['Inflation_dir1_term0'][0],
-                               sol.y_events['Inflation_dir1_term0'][0])
         else:
-            self.vwarn(InflationStartWarning("", events=sol._N_events))
+            for key in ['Inflation_dir1_term1', 'Inflation_dir1_term0']:
+                if key in sol._N_events and np.size(sol._N_events[key]) > 0:
+                    sol._N_beg = sol._N_events[key][0]
+                    sol.H_beg = self.H(sol.x_events[key][0], sol.y_events[key][0])
+                    break
+            else:
+                self.vwarn(InflationStartWarning("", events=sol._N_events))
         sol._logaH_beg = sol._N_beg + np.log(sol.H_beg)
 
     def postprocessing_inflation_end(self, sol):
-- 
2.43.0


From a761eeaee7f7d487b59c9a67f557db14578f21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 13/22] fix: warning about a missing inflation start claimed
 the event was not tracked

Event names carry the direction as 'dir1', not 'dir+1'.
---
 primpy/exceptionhandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
-- 
2.43.0


From 65fc5c5497dbcfa56e4713dad92b120b8528e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 14/22] fix: work with floats in solve_oscode, powers of
 integer wavenumbers overflow

---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..74691e5 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -88,7 +88,8 @@ def solve_oscode(background, k,
         return_pps = True
     PPS = PrimordialPowerSpectrum(background=b, k=k, vacuum=vacuum)
     # stop integration sufficiently after mode has crossed the horizon (lazy for loop):
-    for i, ki in enumerate(k):
+    # (work with floats, because powers of large integer wavenumbers overflow)
+    for i, ki in enumerate(np.asarray(k, dtype=float)):
         if fac_beg == 0:
             idx_beg = 0
         else:
-- 
2.43.0


From 950b7a69b88965b1317b556eb81536796b1fed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 15/22] fix: sampler points ignored w_reh when given without
 rho_reh_GeV

---
 cobaya_wrapper/slowroll_pps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..974665a 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -76,11 +76,14 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                                              rho_reh_GeV=rho_reh_GeV, w_reh=w_reh)
                 elif N_star is not None and n_s is None:
                     b.calibrate_scale_factor(calibration_method='N_star', N_star=N_star,
-                                             rho_reh_GeV=rho_reh_GeV)
+                                             rho_reh_GeV=rho_reh_GeV, w_reh=w_reh)
                 else:
                     N_star = min(N_star, b.N_tot-0.1)
                     b.calibrate_scale_factor(N_star=N_star, rho_reh_GeV=rho_reh_GeV)
                     b.set_ns(n_s=n_s, rho_reh_GeV=rho_reh_GeV, N_star_min=20, N_star_max=N_star)
+                    if w_reh is not None:
+                        b.calibrate_scale_factor(calibration_method='N_star', N_star=b.N_star,
+                                                 w_reh=w_reh)
             # check whether the target A_s is met
             if abs(b.A_s - A_s) < atol + rtol * A_s:
                 break  # when the target is met, exit the loop
-- 
2.43.0


From 9c54d311475baea929e3958a647ba8e85c3cb7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 16/22] fix: version check fails when one of its commands
 fails, as with an outdated origin/master

---
 .github/workflows/check_version.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/.github/workflows/check_version.py b/.github/workflows/check_version.py
index 59bb0bf..eb9cb79 100644
--- a/.github/workflows/check_version.py
+++ b/.github/workflows/check_version.py
@@ -7,6 +7,7 @@ from packaging import version
 def run(*args):
     """Run a bash command and return the output in Python."""
     return subprocess.run(args, 
+                          check=True,
                           text=True,
                           stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE).stdout
-- 
2.43.0


From 1c338b9aed97542d3ce51f76e29be5ff27cb4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 17/22] fix: version bump stops when one of its commands fails

---
 bin/bump_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/bump_version.py b/bin/bump_version.py
index 31080a9..cbe4d19 100755
--- a/bin/bump_version.py
+++ b/bin/bump_version.py
@@ -9,7 +9,7 @@ README = "README.rst"
 
 def run(*args):
     """Run a bash command and return the output in Python."""
-    return subprocess.run(args, text=True,
+    return subprocess.run(args, check=True, text=True,
                           stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE).stdout
 
-- 
2.43.0


From 68ed47cb3219eccbd91061effd0b66ce88c601b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 18/22] fix: calibration copied from a background includes its
 reheating parameters and amplitudes

---
 primpy/inflation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 28e69d3..f8a3716 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -739,6 +739,15 @@ class InflationEquations(Equations, ABC):
                     sol._N_reh = background._N_reh
                     sol._N_end = background._N_end
                     sol.N_star = background.N_star
+                    for key in ['DeltaN_minus1', 'DeltaN_reh', 'w_reh',
+                                'rho_reh_GeV', 'rho_reh_mp4',
+                                'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r',
+                                'logk2logP_s', 'logk2logP_t']:
+                        if key in background:
+                            sol[key] = background[key]
+                    if background is not sol:  # arrays from a previous calibration
+                        for key in ['P_scalar_approx', 'P_tensor_approx']:
+                            sol.pop(key, None)
 
                 sol.a0_Mpc = np.exp(sol._logaH_star) / K_STAR
                 logk = sol._logaH + np.log(K_STAR) - sol._logaH_star
-- 
2.43.0


From a252c2384400f63bb0d6625046f9ff1a9c55980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 19/22] fix: third time derivative of the field includes the
 curvature term in curved universes

---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..1df001b 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - d2V * dphi - 3 * dH * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From 2e0c2a84d45a26ee3c123b45e68e47d1d005cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 20/22] fix: feature spectra accept a tensor tilt without
 running like the plain power law

---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..98d73d8 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From 3e44842a6928e4fdcfe0dcc5f18090edbdf446dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 21/22] fix: dense output of cosmic-time modes stays within the
 integration range

---
 primpy/time/perturbations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/primpy/time/perturbations.py b/primpy/time/perturbations.py
index 94e334c..d6cb0e1 100644
--- a/primpy/time/perturbations.py
+++ b/primpy/time/perturbations.py
@@ -31,9 +31,9 @@ class ScalarModeT(ScalarMode):
         super(ScalarModeT, self).__init__(background=background, k=k, **kwargs)
         self._set_independent_variable('t')
         if 'num_eval' in kwargs and kwargs['num_eval'] > 0:
-            self.t_eval = np.logspace(np.log10(self.background.t[self.idx_beg]),
-                                      np.log10(self.background.t[self.idx_end]),
-                                      kwargs['num_eval'])
+            self.t_eval = np.geomspace(self.background.t[self.idx_beg],
+                                       self.background.t[self.idx_end],
+                                       kwargs['num_eval'])
             self.x_eval = self.t_eval
         else:
             self.x_eval = None
@@ -129,9 +129,9 @@ class TensorModeT(TensorMode):
         super(TensorModeT, self).__init__(background=background, k=k, **kwargs)
         self._set_independent_variable('t')
         if 'num_eval' in kwargs and kwargs['num_eval'] > 0:
-            self.t_eval = np.logspace(np.log10(self.background.t[self.idx_beg]),
-                                      np.log10(self.background.t[self.idx_end]),
-                                      kwargs['num_eval'])
+            self.t_eval = np.geomspace(self.background.t[self.idx_beg],
+                                       self.background.t[self.idx_end],
+                                       kwargs['num_eval'])
             self.x_eval = self.t_eval
         else:
             self.x_eval = None
-- 
2.43.0


From 93e3bbfc8d7ff905e3473d16442782f5cad9aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 22/22] fix: shooting initial conditions leave the verbosity of
 the equations they are given alone

---
 primpy/initialconditions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 810649b..90eac19 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -196,6 +196,7 @@ class ISIC_Nt(InflationStartIC):
         self.phi_i_bracket = phi_i_bracket
         self.warn_action = 'always' if verbose else 'ignore'
         self.vprint = print if verbose else lambda *a, **k: None
+        self.equations = copy(equations)  # the equations of others keep their own verbosity
         self.equations.vwarn = warnings.warn if verbose else lambda *a, **k: None
 
     def __call__(self, y0, **ivp_kwargs):
@@ -282,6 +283,7 @@ class ISIC_NsOk(InflationStartIC):
         self.warn_action = 'always' if verbose else 'ignore'
         self.vprint = print if verbose else lambda *a, **k: None
         self.vwarn = warnings.warn if verbose else lambda *a, **k: None
+        self.equations = copy(equations)  # the equations of others keep their own verbosity
         self.equations.vwarn = self.vwarn
         self.a0 = bb.get_a0(h=h, Omega_K0=Omega_K0, units='planck')
         self.N0 = np.log(self.a0)
-- 
2.43.0

