From 16bde1508fa7a5fc685c7671e3f7a0c968b7d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 01/68] fix: recompute RAMBO's initial scale factor when energy
 or masses change

---
 hazma/phase_space/_rambo.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 389e158..ac79ce6 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -65,7 +65,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         self.__msqrd: Optional[SquaredMatrixElement] = msqrd
 
         self.__n = n
-        self.__xi0 = np.sqrt(1.0 - (np.sum(ms) / cme) ** 2)
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
         self.__rng = np.random.default_rng()
@@ -82,6 +82,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     @cme.setter
     def cme(self, val) -> None:
         self.__cme = val
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -95,6 +96,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     def masses(self, masses: npt.NDArray) -> None:
         self.__n = len(masses)
         self.__masses = np.array(masses).reshape((self.__n, 1))
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -104,6 +106,13 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         """
         return self.__msqrd
 
+    def _compute_initial_scale_factor(self) -> float:
+        """
+        Compute the starting point of the root finding for the momentum scale
+        factor given the current center-of-mass energy and masses.
+        """
+        return np.sqrt(1.0 - (np.sum(self.__masses) / self.__cme) ** 2)
+
     def _compute_base_weight(self) -> float:
         """
         Compute the starting weight for each phase space point.
-- 
2.43.0


From b670ffe75ce997ee4a620284eec8ad8209653f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 02/68] fix: flat squared matrix elements are one for arrays,
 not zero

---
 hazma/phase_space/_three_body.py | 4 ++--
 hazma/phase_space/_two_body.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index e351d61..c02ecef 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -35,9 +35,9 @@ def _msqrd_flat(s, t):
         return 1.0
 
     if scalar_s:
-        return np.zeros_like(t)
+        return np.ones_like(t)
 
-    return np.zeros_like(s)
+    return np.ones_like(s)
 
 
 def _mandelstam_to_momenta(s, t, q: float, masses: Tuple[float, float, float]):
diff --git a/hazma/phase_space/_two_body.py b/hazma/phase_space/_two_body.py
index 4cbe51c..d3eafa6 100644
--- a/hazma/phase_space/_two_body.py
+++ b/hazma/phase_space/_two_body.py
@@ -16,7 +16,7 @@ def _msqrd_flat(z):
     if np.isscalar(z):
         return 1.0
 
-    return np.zeros_like(z)
+    return np.ones_like(z)
 
 
 class TwoBody(AbstractPhaseSpaceIntegrator):
-- 
2.43.0


From 816cd3b55b34b1b9f553c3c6ad72ef3a702720df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 03/68] fix: accumulate batched RAMBO histograms in floating
 point

---
 hazma/phase_space/_rambo.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index ac79ce6..f74bdf3 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -590,9 +590,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         ebounds = energy_limits(self.cme, self.masses)  # type: ignore
         bins = [np.linspace(emin, emax, nbins + 1) for emin, emax in ebounds]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
@@ -659,9 +657,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
 
         bins = [make_bins(pair) for pair in pairs]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
-- 
2.43.0


From 157d9a8853ee346e66dfb93ca141c0590229786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 04/68] fix: assigning a squared matrix element of the momenta
 to ThreeBody replaces the old one

---
 hazma/phase_space/_three_body.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index c02ecef..2a20896 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -176,7 +176,10 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
     @msqrd.setter
     def msqrd(self, fn) -> None:
         r"""Squared matrix element of the proccess."""
-        self.__msqrd = fn
+        if self.__original_msqrd is not None:
+            self.__original_msqrd = fn
+        else:
+            self.__msqrd = fn
         self.__update_msqrd()
 
     def __trapz(self, fn, a: float, b: float, npts: int):
-- 
2.43.0


From da71a9499db6c2c8675abd99ea849804d1cf21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 05/68] fix: Dalitz bounds on the second invariant mass use the
 parent mass

---
 hazma/phase_space/_three_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index 2a20896..29980dd 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -251,7 +251,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
         m32 = m3**2
 
         pfac = -(msqr - m12) * (m22 - m32) + (msqr + m12 + m22 + m32) * s - s**2
-        sfac = np.sqrt(kallen_lambda(s, m12, m22) * kallen_lambda(s, m22, m32))
+        sfac = np.sqrt(kallen_lambda(s, msqr, m12) * kallen_lambda(s, m22, m32))
 
         lb = 0.5 * (pfac - sfac) / s
         ub = 0.5 * (pfac + sfac) / s
-- 
2.43.0


From 22bf7f52226ff48b62edde79de5f4c8966b38859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 06/68] fix: thermal average integrates above threshold for all
 temperatures

The upper limit 50/x lies below the threshold z = 2 for x > 25, so cold
thermal cross sections vanished (or came from below threshold).
---
 hazma/relic_density/_thermal_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index f9d2760..5e55409 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -478,7 +478,7 @@ def thermal_cross_section(x: float, model) -> float:
         * quad(
             thermal_cross_section_integrand,
             2.0,
-            50.0 / x,
+            2.0 + 50.0 / x,
             args=(x, model),
             points=[2.0],
         )[0]
-- 
2.43.0


From 34749f82d85053a9a94915ea4d31ab429b546d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 07/68] fix: temperature derivative of bosonic equilibrium
 densities has the right sign

---
 hazma/relic_density/_thermal_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index 5e55409..ac3cf0f 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -240,7 +240,7 @@ def neq_deriv(
             if hasattr(Ts, "__len__")
             else np.array([1, 2, 3, 4, 5])
         )
-        dnbar = xs**2 * np.sum(eta**ns * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        dnbar = xs**2 * np.sum(-(eta ** (ns + 1)) * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
         nbar = (
             xs**2
             * np.sum(eta ** (ns + 1) / ns * kn(2, ns * xs), axis=0)
-- 
2.43.0


From fcccb38d1eec246d55a5f068af54ca1d42f9b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 08/68] fix: GeV vector-mediator thermal average integrates
 above threshold

---
 hazma/vector_mediator/_gev/thermal_cross_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/thermal_cross_section.py b/hazma/vector_mediator/_gev/thermal_cross_section.py
index 37bea26..8d5a6ab 100644
--- a/hazma/vector_mediator/_gev/thermal_cross_section.py
+++ b/hazma/vector_mediator/_gev/thermal_cross_section.py
@@ -140,7 +140,7 @@ def relic_density(
             return 0.0
 
         pf = x / (2.0 * special.kn(2, x)) ** 2
-        return pf * integrate.quad(integrand, 2.0, 50.0 / x, points=[2.0], args=(x,))[0]
+        return pf * integrate.quad(integrand, 2.0, 2.0 + 50.0 / x, points=[2.0], args=(x,))[0]
 
     model = VectorMediatorGeVRelicDensity(
         mx=self.mx, thermal_cross_section=thermal_cross_section
-- 
2.43.0


From 67d7b78689ab803cd397df06145a97a260103908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 09/68] fix: twice-boosted massive lines are normalised by
 momentum, not energy

---
 hazma/spectra/boost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index d0f5fdd..86daa0f 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -174,7 +174,7 @@ def double_boost_delta_function(
         pre = 1.0
 
     dnde[mask] = pre * np.log(num / den)
-    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * e0
+    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * np.sqrt(e0**2 - m**2)
 
     if scalar:
         return dnde[0]
-- 
2.43.0


From cffc02f0a1a64df776846365372447a1a95f5fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 10/68] fix: unphysical boost velocities give zero, and resting
 spectra get their arguments

Negative velocities returned the rest-frame spectrum, a velocity of one
divided by zero, and further arguments of the spectrum were dropped for
a parent at rest.
---
 hazma/spectra/boost.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index 86daa0f..c349069 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -206,12 +206,12 @@ def dnde_boost_array(dnde, energies, beta: float, mass: float = 0.0):
     dnde_boosted: array
         The boosted spectrum.
     """
+    if beta < 0.0 or beta >= 1.0:
+        return np.zeros_like(energies)
+
     if beta < np.finfo(float).eps:
         return dnde
 
-    if beta < 0 or beta > 1.0:
-        return np.zeros_like(energies)
-
     gamma = 1.0 / np.sqrt(1 - beta**2)
 
     boosted = np.zeros_like(energies)
@@ -277,19 +277,19 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
     """
     methods = ["quad", "trapz", "simps", "quadrature"]
 
-    def kinematic_early_return(energies: RealArray, beta: float):
+    def kinematic_early_return(energies: RealArray, beta: float, args: Tuple):
         # The function will return something if we should return early due to
         # kinematic constraints. The constraints are:
-        #   1. beta ~ 0: In rest frame => no boost
-        #   2. beta > 1 or beta < 0: Unphysical.
+        #   1. beta >= 1 or beta < 0: Unphysical.
+        #   2. beta ~ 0: In rest frame => no boost
 
-        if beta < np.finfo(energies.dtype).eps:
-            return fn(energies)
-
-        if beta < 0.0 or beta > 1.0:
+        if beta < 0.0 or beta >= 1.0:
             warnings.warn(f"Unphysical beta = {beta}. Returning zero.")
             return np.zeros_like(energies)
 
+        if beta < np.finfo(energies.dtype).eps:
+            return fn(energies, *args)
+
         return None
 
     def bounds_and_mask(energies: RealArray, gamma: float, beta: float):
@@ -325,7 +325,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         energies: array
             Array of energies where spectrum should be evaluated.
         beta: float
-            Boost velocity. If beta < 0 or beta > 1, zeros are returned.
+            Boost velocity. If beta < 0 or beta >= 1, zeros are returned.
         method: str, optional
             Method to use to integrate. Can be 'quad', 'trapz' or
             'simps'. Default is 'quad'.
@@ -350,7 +350,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         arguments compatible with quad can be specified.
         """
         check_method(method)
-        early = kinematic_early_return(energies, beta)
+        early = kinematic_early_return(energies, beta, args)
         if early is not None:
             return early
 
@@ -384,7 +384,7 @@ def dnde_boost(
     energies: array
         Array of energies where spectrum should be evaluated.
     beta: float
-        Boost velocity. If beta < 0 or beta > 1, zeros are returned.
+        Boost velocity. If beta < 0 or beta >= 1, zeros are returned.
     mass: float, optional
         Mass of the product. Default is zero (i.e. for a photon.)
     method: str, optional
-- 
2.43.0


From 43aee0b72323e85dd3e9ab89d3dfe5ae804e02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 11/68] fix: positron spectra of decays use each channel's own
 spectrum

The functions of TheoryDec.positron_spectrum_funcs closed over the loop
variables, so every channel was evaluated with the spectrum and width of
the last one.
---
 hazma/theory/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 427e962..6e8d451 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -599,19 +599,20 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
 
     def positron_spectrum_funcs(self):
         widths = self.decay_widths()
-        dndes_wrapped = {}
-
-        for fs, dnde in self._positron_spectrum_funcs().items():
 
+        def make_dnde_wrapped(fs, dnde):
             def dnde_wrapped(e_ps):
                 if widths[fs] > 0:
                     return dnde(e_ps)
                 else:
                     return np.zeros_like(e_ps)
 
-            dndes_wrapped[fs] = dnde_wrapped
+            return dnde_wrapped
 
-        return dndes_wrapped
+        return {
+            fs: make_dnde_wrapped(fs, dnde)
+            for fs, dnde in self._positron_spectrum_funcs().items()
+        }
 
     def positron_spectra(self, e_ps):
         bfs = self.decay_branching_fractions()
-- 
2.43.0


From e3e83654bce21d173016e978df989323304899a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 12/68] fix: photon spectra of closed channels for integer
 energies and lists

TheoryAnn.spectra only recognised the type float as a scalar and read the
attribute shape of anything else.
---
 hazma/theory/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 6e8d451..b6bc53f 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -178,10 +178,7 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
             if bfs[fs] != 0:
                 specs[fs] = bfs[fs] * dnde_func(e_gams, e_cm)
             else:
-                if type(e_gams) == float:
-                    specs[fs] = 0
-                else:
-                    specs[fs] = np.zeros(e_gams.shape)
+                specs[fs] = 0.0 if np.isscalar(e_gams) else np.zeros(np.shape(e_gams))
 
         specs["total"] = sum(specs.values())
 
-- 
2.43.0


From a9d9014a835b8e66ba82677c79e258f5c14ef092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 13/68] fix: single-channel line energies are numbers

The line energies of the single-channel models were nested dictionaries,
so folding a spectrum with an energy resolution or computing CMB limits
raised a TypeError.
---
 hazma/single_channel.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 0c213f0..8ba4e5b 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -95,11 +95,11 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -117,9 +117,9 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -209,11 +209,11 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -232,9 +232,9 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
-- 
2.43.0


From 6561b143202d2a46921236834fd77ca8f2802830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 14/68] fix: changing the final state of SingleChannelDec
 updates its particles

---
 hazma/single_channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 8ba4e5b..34355aa 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -156,6 +156,8 @@ class SingleChannelDec(TheoryDec):
     @fs.setter
     def fs(self, fs: str) -> None:
         self._fs = fs
+        self._final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
-- 
2.43.0


From 302a73f96276201dab35c75485c8951bc6650863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 15/68] fix: CMB limits take the efficiency of the model

---
 hazma/limits/_cmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index b09db71..36e2f2c 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -108,7 +108,7 @@ class CMBLimit(AbstractLimit):
         <sigma v> : float
             Upper bound on <sigma v>, in cm^3 s^-1.
         """
-        return self.p_ann * model.mx / self.f_eff(self.x_kd)  # type: ignore
+        return self.p_ann * model.mx / self.f_eff(model)  # type: ignore
 
     def _f_eff_helper(self, model, fs, mode="quad"):
         """Computes f_eff^gg or f_eff^ep for DM annihilation.
-- 
2.43.0


From 343d3cce1225352298b504359789388ec47a7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 16/68] fix: CMB efficiencies use the velocity squared, not to
 the fourth power

---
 hazma/limits/_cmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index 36e2f2c..e0d59f4 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -131,7 +131,7 @@ class CMBLimit(AbstractLimit):
             f_eff for photons or electrons and positrons.
         """
         # Center of mass energy
-        vx = self.vx_cmb(model.mx, self.x_kd) ** 2
+        vx = self.vx_cmb(model.mx, self.x_kd)
         e_cm = 2.0 * model.mx * (1.0 + 0.5 * vx**2)
 
         if fs == "g g":
-- 
2.43.0


From 6d6cca6cafdbb6bdfa0b9b71170e81f0fad4c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 17/68] fix: custom constraint images have the shape of the
 parameter grid

---
 hazma/theory/_theory_constrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index f2a1c4a..1b83df2 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -34,7 +34,7 @@ class TheoryConstrain:
 
         # Store the constraint images. Note that p1 and p2 must be swapped
         # so we can use Cartesian rather than matrix indexing.
-        imgs = {cn: np.zeros([n_rows, n_rows]) for cn in constraints.keys()}
+        imgs = {cn: np.zeros([n_rows, n_cols]) for cn in constraints.keys()}
 
         # Loop over the parameter grid
         for i in range(n_rows):
-- 
2.43.0


From bedc52cd8c7f804ebc9e7ec19fa7f14800d66b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 18/68] fix: Fisher matrix of background parameters includes
 the solid angle

---
 hazma/theory/_theory_gamma_ray_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_gamma_ray_limits.py b/hazma/theory/_theory_gamma_ray_limits.py
index 0e6ba5f..c37d942 100644
--- a/hazma/theory/_theory_gamma_ray_limits.py
+++ b/hazma/theory/_theory_gamma_ray_limits.py
@@ -349,7 +349,7 @@ def fisher(
         return background_model.dPhi_dEdOmega(energy) * dOmega
 
     def dphi_b(energy, key):
-        return background_model.derivatives(energy)[key]
+        return background_model.derivatives(energy)[key] * dOmega
 
     dphi = {key: functools.partial(dphi_b, key=key) for key in background_model.params}
     dphi["rate"] = lambda e: phi_s(e)  # type: ignore
-- 
2.43.0


From fcd35978dd312d730e4793a3468cd1978f83c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 19/68] fix: constrainers of one composite do not end up in all
 others

---
 hazma/limits/_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_abstract.py b/hazma/limits/_abstract.py
index e34b811..95eaf81 100644
--- a/hazma/limits/_abstract.py
+++ b/hazma/limits/_abstract.py
@@ -45,8 +45,8 @@ class AbstractLimit(abc.ABC):
 
 
 class CompositeConstrainer(abc.ABC):
-    def __init__(self, constrainers=[]):
-        self._constrainers = constrainers
+    def __init__(self, constrainers=None):
+        self._constrainers = [] if constrainers is None else constrainers
 
     def add_constrainer(self, constrainer):
         self._constrainers.append(constrainer)
-- 
2.43.0


From 4803475ab1372922868eb65820450ea9598b9915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 20/68] fix: relic-density limits use the chosen root finder

---
 hazma/limits/_relic_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/limits/_relic_density.py b/hazma/limits/_relic_density.py
index 6b0f1bc..f3ac1d0 100644
--- a/hazma/limits/_relic_density.py
+++ b/hazma/limits/_relic_density.py
@@ -81,7 +81,7 @@ class RelicDensityLimit(AbstractLimit):
 
         try:
             root: optimize.RootResults = optimize.root_scalar(
-                f, bracket=[lb, ub], method="brentq"
+                f, bracket=[lb, ub], method=self.method
             )
             if not root.converged:
                 warnings.warn(f"root_scalar did not converge. Flag: {root.flag}")
-- 
2.43.0


From 6249c9bbb4d963e3a9516eba6d51846e62a3880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 21/68] fix: flux measurements leave the caller's fluxes alone

---
 hazma/flux_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/flux_measurement.py b/hazma/flux_measurement.py
index 9347f28..42b6135 100644
--- a/hazma/flux_measurement.py
+++ b/hazma/flux_measurement.py
@@ -74,7 +74,7 @@ class FluxMeasurement:
         self._e_bins = 0.5 * (self.e_lows + self.e_highs)
 
         # E^2 dN/dE -> dN/dE
-        self.fluxes /= self._e_bins**power
+        self.fluxes = self.fluxes / self._e_bins**power
 
         # Compute upper and lower error bars
         self.upper_errors = self.upper_errors / self._e_bins**power - self.fluxes
-- 
2.43.0


From 79fa99e06c7c7255e6ddc32a185f46a267ebe999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 22/68] fix: sign of the derivative of the GECCO background
 with respect to its index

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index b1f7a20..acfd070 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1324,6 +1324,6 @@ class GeccoBackgroundModel:
         alpha = self.power_law_index
 
         dn = energy ** (-alpha)
-        da = amp * energy ** (-alpha) * np.log(energy)
+        da = -amp * energy ** (-alpha) * np.log(energy)
 
         return {"amplitude": dn, "power_law_index": da}
-- 
2.43.0


From 5b9634323decdd3bdbc28c1ecdc31fede0bd3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 23/68] fix: GalacticCenterBackgroundModel.params reported the
 cutoff as the exponential index

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index acfd070..02a7302 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1151,7 +1151,7 @@ class GalacticCenterBackgroundModel(ParametricBackgroundModel):
             "galactic_amplitude": self._galactic_amplitude,
             "galactic_power_law_index": self._galactic_power_law_index,
             "galactic_exponential_cutoff": self._galactic_exponential_cutoff,
-            "galactic_exponential_index": self._galactic_exponential_cutoff,
+            "galactic_exponential_index": self._galactic_exponential_index,
             "extra_galactic_amplitude": self._extra_galactic_amplitude,
             "extra_galactic_power_law_index": self._extra_galactic_power_law_index,
         }
-- 
2.43.0


From a32f483b4526f4edd6ce2b6227763c48dd4e3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 24/68] fix: total spectra of a single energy are single
 numbers

A one-element array cannot be integrated by scipy's quad with current
numpy, so the CMB efficiencies failed for every model.
---
 hazma/theory/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index b6bc53f..441bea4 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -203,7 +203,7 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams, e_cm)["total"]
         else:
-            return self.spectra(np.array([e_gams]), e_cm)["total"]
+            return np.take(self.spectra(np.array([e_gams]), e_cm)["total"], 0)
 
     @abstractmethod
     def _gamma_ray_line_energies(self, e_cm) -> Dict[str, float]:
@@ -367,7 +367,7 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps, e_cm)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]), e_cm)["total"]
+            return np.take(self.positron_spectra(np.array([e_ps]), e_cm)["total"], 0)
 
     @abstractmethod
     def _positron_line_energies(self, e_cm) -> Dict[str, float]:
@@ -557,7 +557,7 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams)["total"]
         else:
-            return self.spectra(np.array([e_gams]))["total"]
+            return np.take(self.spectra(np.array([e_gams]))["total"], 0)
 
     @abstractmethod
     def _gamma_ray_line_energies(self) -> Dict[str, float]:
@@ -626,7 +626,7 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]))["total"]
+            return np.take(self.positron_spectra(np.array([e_ps]))["total"], 0)
 
     @abstractmethod
     def _positron_line_energies(self) -> Dict[str, float]:
-- 
2.43.0


From 09baf24e582983f5dff59afd9ce85af1a73d66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 25/68] fix: accept scalars, sequences and integer arrays in
 the Altarelli-Parisi spectra

---
 hazma/spectra/altarelli_parisi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/altarelli_parisi.py b/hazma/spectra/altarelli_parisi.py
index ed5317b..7dc3618 100644
--- a/hazma/spectra/altarelli_parisi.py
+++ b/hazma/spectra/altarelli_parisi.py
@@ -27,6 +27,7 @@ def _fermion_splitting(x):
 
 
 def _dndx_photon_fsr(x, s: float, m: float, split: Callable[[Any], Any], q=1.0):
+    x = np.asarray(x, dtype=np.float64)
     pre = q**2 * parameters.alpha_em / (2.0 * np.pi)
     xm = 1.0 - x
     kernel = np.zeros_like(x)
@@ -34,12 +35,12 @@ def _dndx_photon_fsr(x, s: float, m: float, split: Callable[[Any], Any], q=1.0):
     mask = s * xm / m**2 > np.e
     kernel[mask] = split(x[mask]) * (np.log(s * xm[mask] / m**2) - 1.0)
 
-    return pre * kernel
+    return (pre * kernel)[()]
 
 
 def _dnde_photon_fsr(e, s: float, m: float, split: Callable[[Any], Any], q=1.0):
     e_to_x = 2.0 / np.sqrt(s)
-    x = e * e_to_x
+    x = np.asarray(e, dtype=np.float64) * e_to_x
     return _dndx_photon_fsr(x, s, m, split, q) * e_to_x
 
 
-- 
2.43.0


From bdc7a2c79466d1d48f4209d732f0f9907fdfb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 26/68] fix: the fine-structure constant ran below 1e-6 GeV^2
 and stayed constant above it

---
 hazma/form_factors/vector/_alpha.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hazma/form_factors/vector/_alpha.py b/hazma/form_factors/vector/_alpha.py
index 34c4b6c..173cbaa 100644
--- a/hazma/form_factors/vector/_alpha.py
+++ b/hazma/form_factors/vector/_alpha.py
@@ -26,18 +26,19 @@ def real_pi(r):
 
     m1 = r < 1e-3
     m2 = r > rmax
-    m3 = 4.0 * r > 1.0
+    m3 = ~m2 & (4.0 * r > 1.0)
     m4 = ~(m1 | m2 | m3)
 
+    # scales far below the mass do not contribute
     results = np.zeros_like(r)
 
     # use asymptotic formula
     if np.any(m1):
         results[m1] = -fvthr - np.log(r[m1])
-    if np.any(m2):
-        beta = np.sqrt(4.0 * r[m2] - 1.0)
-        results[m2] = 1.0 / 3.0 - (1.0 + 2.0 * r[m2]) * (
-            2.0 - beta * np.arccos(1.0 - 1.0 / (2.0 * r[m2]))
+    if np.any(m3):
+        beta = np.sqrt(4.0 * r[m3] - 1.0)
+        results[m3] = 1.0 / 3.0 - (1.0 + 2.0 * r[m3]) * (
+            2.0 - beta * np.arccos(1.0 - 1.0 / (2.0 * r[m3]))
         )
     if np.any(m4):
         beta = np.sqrt(1.0 - 4.0 * r[m4])
@@ -58,7 +59,7 @@ def alpha_em(s):
     ss = np.atleast_1d(s).astype(np.float64)
 
     # return q^2=0 value for small scales
-    mask = s < eps
+    mask = ss >= eps
     repigg = np.zeros_like(ss)
     sm = ss[mask]
 
@@ -70,7 +71,7 @@ def alpha_em(s):
     # Hadronic component from light quarks
     repigg[mask] += np.piecewise(
         sm,
-        [sm < 9e-2, sm < 9.0, sm < 1.0e4],
+        [sm < 9e-2, (sm >= 9e-2) & (sm < 9.0), (sm >= 9.0) & (sm < 1.0e4)],
         [
             hadronic(CS0),
             hadronic(CS1),
-- 
2.43.0


From f2998cfd73705945faf4cc573c4179b3261fe1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 27/68] fix: K0 K0bar form factor rescales the phi resonance,
 not the first energy

---
 hazma/form_factors/vector/_k_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_k_k.py b/hazma/form_factors/vector/_k_k.py
index 8dc2da6..5dd4234 100644
--- a/hazma/form_factors/vector/_k_k.py
+++ b/hazma/form_factors/vector/_k_k.py
@@ -441,7 +441,7 @@ class _VectorFormFactorKKBase(VectorFormFactorPP):
 
         phi_terms = 1.0 / 3.0 * cs * self.fit_data.phi_coup * bwp
         if self._imode == 0:
-            phi_terms[0] *= eta_phi
+            phi_terms[:, 0] *= eta_phi
         fk += phi_terms
 
         return np.sum(fk, axis=1)
-- 
2.43.0


From be0ba7416ade364a0412081784f6a26211aee206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 28/68] fix: PPV squared Lorentz structure uses the mass order
 of the final state

---
 hazma/form_factors/vector/_three_body.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 29ac1cb..f56b874 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -711,11 +711,13 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         raise NotImplementedError()
 
     def __squared_lorentz_structure(self, q, s, t):
-        m1, m2, mv = self.fsp_masses
+        mv = self.fsp_masses[0]
 
-        return (2 * mv**2 * q**2 + (-(m1**2) - m2**2 + s + t) ** 2 / 4.0) / (
-            3.0 * mv**2 * q**4
-        )
+        # Inner product of the vector and total momenta. It is independent of
+        # `t`, which only sets the shape of the result.
+        pvq = (q**2 + mv**2 - s + 0.0 * t) / 2.0
+
+        return (2 * mv**2 * q**2 + pvq**2) / (3.0 * mv**2 * q**4)
 
     def squared_lorentz_structure(self, q, s, t):
         r"""Compute the Lorentz structure of a three pseudo-scalar meson
-- 
2.43.0


From af2474e5737364c9f1146cbe88baa48d8742745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 29/68] fix: form factors of a single energy were in 1/GeV,
 those of arrays in 1/MeV

---
 hazma/form_factors/vector/_eta_omega.py | 5 ++++-
 hazma/form_factors/vector/_eta_phi.py   | 5 ++++-
 hazma/form_factors/vector/_pi_gamma.py  | 5 ++++-
 hazma/form_factors/vector/_pi_omega.py  | 5 ++++-
 hazma/form_factors/vector/_pi_phi.py    | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/hazma/form_factors/vector/_eta_omega.py b/hazma/form_factors/vector/_eta_omega.py
index 1c8ab70..ed2a03c 100644
--- a/hazma/form_factors/vector/_eta_omega.py
+++ b/hazma/form_factors/vector/_eta_omega.py
@@ -145,10 +145,13 @@ class VectorFormFactorEtaOmega(VectorFormFactorPV):
 
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, couplings=couplings)
 
+        # Convert from 1/GeV to 1/MeV
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_eta_phi.py b/hazma/form_factors/vector/_eta_phi.py
index cf43499..507ed7e 100644
--- a/hazma/form_factors/vector/_eta_phi.py
+++ b/hazma/form_factors/vector/_eta_phi.py
@@ -140,10 +140,13 @@ class VectorFormFactorEtaPhi(VectorFormFactorPV):
 
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, gvss=couplings[2])
 
+        # Convert from 1/GeV to 1/MeV
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_pi_gamma.py b/hazma/form_factors/vector/_pi_gamma.py
index b017d40..bbaa12b 100644
--- a/hazma/form_factors/vector/_pi_gamma.py
+++ b/hazma/form_factors/vector/_pi_gamma.py
@@ -191,10 +191,13 @@ class VectorFormFactorPi0Gamma(VectorFormFactorPA):
 
         ff[mask] = self.__form_factor(q=qq[mask], couplings=couplings)
 
+        # Convert from 1/GeV to 1/MeV
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_pi_omega.py b/hazma/form_factors/vector/_pi_omega.py
index d12f218..760213f 100644
--- a/hazma/form_factors/vector/_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_omega.py
@@ -188,10 +188,13 @@ class VectorFormFactorPi0Omega(VectorFormFactorPV):
             s=qq[mask] ** 2, gvuu=couplings[0], gvdd=couplings[1]
         )
 
+        # Convert from 1/GeV to 1/MeV
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_pi_phi.py b/hazma/form_factors/vector/_pi_phi.py
index e87dff9..7f3fb5d 100644
--- a/hazma/form_factors/vector/_pi_phi.py
+++ b/hazma/form_factors/vector/_pi_phi.py
@@ -187,10 +187,13 @@ class VectorFormFactorPi0Phi(VectorFormFactorPV):
             s=qq[mask] ** 2, gvuu=couplings[0], gvdd=couplings[1]
         )
 
+        # Convert from 1/GeV to 1/MeV
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
-- 
2.43.0


From 4c12bba8736ec2e1c20e14f3b4e2857a98c17395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:12 +0000
Subject: [PATCH 30/68] fix: four-pion rho_T propagator takes its second weight
 from the third coefficient

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index cede309..0a9fe26 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -183,7 +183,7 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
             beta_omega_3=beta_omegas[2],
             beta_b_rho=beta_b_rhos[0],
             beta_t_rho1=beta_b_rhos[1],
-            beta_t_rho2=beta_b_rhos[1],
+            beta_t_rho2=beta_b_rhos[2],
             coupling_f0=coupling_f0,
             coupling_a1=coupling_a1,
             coupling_rho=coupling_rho,
-- 
2.43.0


From 1f53ae87c6e9ff9fab2651f8e0c559c781bda494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 31/68] fix: four-pion current of given momenta overwrote the
 second momentum by the total energy

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index 0a9fe26..433ccb2 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -611,9 +611,9 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         q4 = ps[:, 3]
 
         q = np.sum(ps, axis=1)
-        q2 = np.mean(np.sum(ps[0], axis=0))
+        qsqr = lnorm_sqr(q)
 
-        ff = self._form_factor(q, q2, q1, q2, q3, q4)
+        ff = self._form_factor(q, qsqr, q1, q2, q3, q4)
 
         return ff
 
-- 
2.43.0


From 0976b087f570f2b6dfe855269d5218885436ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 32/68] fix: three-body form factors at integer energies were
 truncated to integers

---
 hazma/form_factors/vector/_three_body.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index f56b874..44c37e9 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -246,7 +246,7 @@ class VectorFormFactorPPP(VectorFormFactorThreeBody):
             ]
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > sum(self.fsp_masses)
         res = np.zeros_like(qs)
 
@@ -569,7 +569,7 @@ class VectorFormFactorPPP2(VectorFormFactorThreeBody):
             )
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > m1 + m2 + m3
         res = np.zeros_like(qs)
 
@@ -863,7 +863,7 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
             )
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > mv + m1 + m2
         res = np.zeros_like(qs)
 
-- 
2.43.0


From 99f4d0937b10ead498a96f3b6a81e30f3e827291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 33/68] fix: PPV invariant-mass distributions had descending
 bins and were not normalised

---
 hazma/form_factors/vector/_three_body.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 44c37e9..aaabe16 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -972,7 +972,7 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         """
         edists = self._energy_distributions(q=q, nbins=nbins, **kwargs)
         # Convert to inv mass:
-        # s = q^2 (1-2*E1/q + m1^2/q^2), de/ds = 1/2q
+        # s = q^2 (1-2*E1/q + m1^2/q^2), |de/dsqrt(s)| = sqrt(s)/q
         # t = q^2 (1-2*E2/q + m2^2/q^2)
         # u = q^2 (1-2*E3/q + m3^2/q^2)
 
@@ -980,13 +980,18 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
             return q * np.sqrt(1 - 2 * e / q + (m / q) ** 2)
 
         keys = [(1, 2), (0, 2), (0, 1)]
+        # The invariant mass decreases with energy: reverse to get ascending bins
         sqrts = [
-            etosqrts(edists[i].bins, self.fsp_masses[i]) for i in range(len(edists))
+            etosqrts(edists[i].bins[::-1], self.fsp_masses[i])
+            for i in range(len(edists))
         ]
         invdists = {
             keys[i]: PhaseSpaceDistribution1D(
                 sqrts[i],
-                0.25 * (sqrts[i][1:] + sqrts[i][:-1]) / q * edists[i].probabilities,
+                0.5
+                * (sqrts[i][1:] + sqrts[i][:-1])
+                / q
+                * edists[i].probabilities[::-1],
             )
             for i in range(len(edists))
         }
-- 
2.43.0


From 841558c10db2dffd5a42c6123811b3d6e5dac939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 34/68] fix: pi-pi-omega form factor of several energies

---
 hazma/form_factors/vector/_pi_pi_omega.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_pi_pi_omega.py b/hazma/form_factors/vector/_pi_pi_omega.py
index efdabf8..549d8f6 100644
--- a/hazma/form_factors/vector/_pi_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_pi_omega.py
@@ -80,11 +80,14 @@ class _VectorFormFactorPiPiOmegaBase(VectorFormFactorPPV):
         an eta-prime.
         """
         ci0 = 3 * (couplings[0] + couplings[1])
+        # Resonances are in the last dimension
+        q = np.expand_dims(q, -1)
         return ci0 * np.sum(
             self.fit_data.amps
             * np.exp(1j * self.fit_data.phases)
             * self.fit_data.masses**2
-            / ((self.fit_data.masses**2 - q**2) - 1j * q * self.fit_data.widths)
+            / ((self.fit_data.masses**2 - q**2) - 1j * q * self.fit_data.widths),
+            axis=-1,
         )
 
     @overload
-- 
2.43.0


From 29a82044f221d8edd8f25e84e7fa12cbb435e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 35/68] fix: ThreeBody distributions from quadrature have the
 requested number of bins

---
 hazma/phase_space/_three_body.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index 29980dd..ac4d9ea 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -564,7 +564,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
 
         dists = []
         for i, (emin, emax) in enumerate(elims):
-            ebins = np.linspace(emin, emax, nbins)
+            ebins = np.linspace(emin, emax, nbins + 1)
             es = 0.5 * (ebins[1:] + ebins[:-1])
 
             dwde = integral(es, i)
@@ -648,7 +648,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
             i = tuple({0, 1, 2}.symmetric_difference({j, k}))[0]
             m1 = masses[i]
 
-            mbins = np.linspace(mmin, mmax, nbins)
+            mbins = np.linspace(mmin, mmax, nbins + 1)
             ms = 0.5 * (mbins[1:] + mbins[:-1])
             es = (q**2 - ms**2 + m1**2) / (2 * q)
 
-- 
2.43.0


From cc68e69130cf3da07498717969b4031d527a86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:44 +0000
Subject: [PATCH 36/68] fix: the neutral pions of the pi+ pi- pi0 pi0 current
 are the third and fourth

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index 433ccb2..40d1cba 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -588,10 +588,11 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         Q2: ndarray
             Squared center-of-mass energy.
         q1, q2, q3, q4: ndarray
-            Momenta of the charged pions.
+            Momenta of the pions, in the order of the final-state masses: for
+            `_imode = 0`, `q1` and `q2` are those of the charged pions.
         """
         if self._imode == 0:
-            return self._current_neutral(Q, Q2, q1, q2, q3, q4)
+            return self._current_neutral(Q, Q2, q3, q4, q1, q2)
         return self._current_charged(Q, Q2, q1, q2, q3, q4)
 
     def form_factor(self, momenta: RealArray):
@@ -644,10 +645,7 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         q3 = momenta[:, 2, :]
         q4 = momenta[:, 3, :]
 
-        if self._imode == 0:
-            current = self._current_neutral(Q, Q2, q1, q2, q3, q4)
-        else:
-            current = self._current_charged(Q, Q2, q1, q2, q3, q4)
+        current = self._form_factor(Q, Q2, q1, q2, q3, q4)
 
         j = -np.real(ldot(current, np.conj(current)))
         weights = j / (3.0 * Q2)
-- 
2.43.0


From d1466dc99c1576c14abc0f6c5f20605944c54404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 37/68] fix: positrons of the vector mediator's muon channel
 are the muon's positrons, not its photons

---
 hazma/vector_mediator/_vector_mediator_positron_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index f961ec7..3a49d2e 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -9,7 +9,7 @@ class VectorMediatorPositronSpectra:
         return spectra.dnde_positron_charged_pion(e_ps, e_cm / 2.0)
 
     def dnde_pos_mumu(self, e_ps, e_cm):
-        return spectra.dnde_photon_muon(e_ps, e_cm / 2.0)
+        return spectra.dnde_positron_muon(e_ps, e_cm / 2.0)
 
     # positron decay spectrum for chi chibar -> v v
     def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
-- 
2.43.0


From ef78b40747be8c34a4a6c6bc9dc0d12fb837c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:47 +0000
Subject: [PATCH 38/68] fix: changing a mass or coupling of the GeV vector
 mediator invalidates the cached width it enters

---
 hazma/vector_mediator/_gev/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 93c5c26..0658948 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -226,7 +226,7 @@ class VectorMediatorGeV(TheoryAnn):
     @mx.setter
     def mx(self, val: float) -> None:
         self._mx = val
-        self._width_cache["x x"]["value"] = self.width_v_to_x_x()
+        self._width_cache["x x"]["valid"] = False
 
     @mv.setter
     def mv(self, val: float) -> None:
@@ -285,7 +285,7 @@ class VectorMediatorGeV(TheoryAnn):
     @gvxx.setter
     def gvxx(self, val: float) -> None:
         self._gvxx = val
-        self._update_width_cache("x x", self.width_v_to_x_x())
+        self._width_cache["x x"]["valid"] = False
 
     @gvuu.setter
     def gvuu(self, val: float) -> None:
@@ -308,27 +308,27 @@ class VectorMediatorGeV(TheoryAnn):
     @gvee.setter
     def gvee(self, val: float) -> None:
         self._gvee = val
-        self._update_width_cache("e e", self.width_v_to_e_e())
+        self._width_cache["e e"]["valid"] = False
 
     @gvmumu.setter
     def gvmumu(self, val: float) -> None:
         self._gvmumu = val
-        self._update_width_cache("mu mu", self.width_v_to_mu_mu())
+        self._width_cache["mu mu"]["valid"] = False
 
     @gvveve.setter
     def gvveve(self, val: float) -> None:
         self._gvveve = val
-        self._update_width_cache("ve ve", self.width_v_to_ve_ve())
+        self._width_cache["ve ve"]["valid"] = False
 
     @gvvmvm.setter
     def gvvmvm(self, val: float) -> None:
         self._gvvmvm = val
-        self._update_width_cache("vm vm", self.width_v_to_vm_vm())
+        self._width_cache["vm vm"]["valid"] = False
 
     @gvvtvt.setter
     def gvvtvt(self, val: float) -> None:
         self._gvvtvt = val
-        self._update_width_cache("vt vt", self.width_v_to_vt_vt())
+        self._width_cache["vt vt"]["valid"] = False
 
     # ========================================================================
     # ---- Form Factors ------------------------------------------------------
-- 
2.43.0


From 980adc43b2f8b3269484e52b4e575d6b69bcc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:47 +0000
Subject: [PATCH 39/68] fix: the pi0 pi0 width of the GeV vector mediator has a
 cache entry

---
 hazma/vector_mediator/_gev/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 0658948..0a401af 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -185,7 +185,8 @@ class VectorMediatorGeV(TheoryAnn):
         self._width_cache = {
             name: {"value": 0.0, "valid": False, "kwargs": {}} for name in final_states
         }
-        self._width_cache["x x"] = {"value": 0.0, "valid": False, "kwargs": {}}
+        for name in ("x x", "pi0 pi0"):
+            self._width_cache[name] = {"value": 0.0, "valid": False, "kwargs": {}}
 
     # ========================================================================
     # ---- Cache Control -----------------------------------------------------
-- 
2.43.0


From 8574356976e93039c39246c1793d6a38df8cbb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:47 +0000
Subject: [PATCH 40/68] fix: setting eps or g of the GeV mediator models
 updates every coupling and width that depends on it

---
 hazma/vector_mediator/_gev/model.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 0a401af..a36b814 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1142,11 +1142,13 @@ class KineticMixingGeV(VectorMediatorGeV):
     @eps.setter
     def eps(self, eps: float):
         self._eps = eps
-        self.gvuu = -Qu * eps * qe
-        self.gvdd = -Qd * eps * qe
-        self.gvss = -Qd * eps * qe
-        self.gvee = -Qe * eps * qe
-        self.gvmumu = -Qe * eps * qe
+        self._gvuu = -Qu * eps * qe
+        self._gvdd = -Qd * eps * qe
+        self._gvss = -Qd * eps * qe
+        self._gvee = -Qe * eps * qe
+        self._gvmumu = -Qe * eps * qe
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     def __cannot_set_error(self, param: str) -> AttributeError:
         return AttributeError(f"""
@@ -1252,6 +1254,8 @@ class BLGeV(VectorMediatorGeV):
         self._gvveve = self._g * gl
         self._gvvmvm = self._g * gl
         self._gvvtvt = self._g * gl
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     @property
     def g(self) -> float:
-- 
2.43.0


From 2933e977f36b95c7bc3f195c8e6d600b650866bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 41/68] fix: total_neutrino_spectrum returns the total rather
 than the dictionary of channels

---
 hazma/vector_mediator/_gev/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index a36b814..db55e19 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1077,8 +1077,8 @@ class VectorMediatorGeV(TheoryAnn):
         """
 
         if hasattr(energies, "__len__"):
-            return self.neutrino_spectra(energies, e_cm, flavor=flavor)
-        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)
+            return self.neutrino_spectra(energies, e_cm, flavor=flavor)["total"]
+        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)["total"]
 
 
 class KineticMixingGeV(VectorMediatorGeV):
-- 
2.43.0


From 25863c5be5a9763aadb676f43b151051ed54f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 42/68] fix: annihilation into two vector mediators counts the
 identical pair once

---
 hazma/vector_mediator/_gev/cross_sections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 773f744..b53320c 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -178,7 +178,8 @@ def sigma_xx_to_v_v(self, cme):
     sqrtx = np.sqrt(1.0 - 4 * mux2)
     sqrtv = np.sqrt(1.0 - 4 * muv2)
     sqrtxv = sqrtx * sqrtv
-    pre = self.gvxx**4 * sqrtv / (4.0 * np.pi * sqrtx * qq**2)
+    # Includes a factor of 1/2 for the identical mediators
+    pre = self.gvxx**4 * sqrtv / (8.0 * np.pi * sqrtx * qq**2)
 
     sigma[mask] = pre * (
         -((2 * muv4 + mux2 + 4 * mux4) / (muv4 + mux2 - 4 * muv2 * mux2))
-- 
2.43.0


From 304a234fed99215f35a6158779dd7e14eefcc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 43/68] fix: the decay spectra of the GeV mediator's hadronic
 channels follow the particles of the energy distributions

---
 hazma/vector_mediator/_gev/neutrino.py | 33 ++++++++++++++++----------
 hazma/vector_mediator/_gev/positron.py | 33 ++++++++++++++++----------
 hazma/vector_mediator/_gev/spectra.py  | 29 +++++++++++++---------
 3 files changed, 58 insertions(+), 37 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 6c3c96e..eeb13bc 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -509,9 +509,9 @@ def dnde_neutrino_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -556,9 +556,9 @@ def dnde_neutrino_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -601,9 +601,9 @@ def dnde_neutrino_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta_prime,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -646,9 +646,9 @@ def dnde_neutrino_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -691,9 +691,9 @@ def dnde_neutrino_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -737,9 +737,9 @@ def dnde_neutrino_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_long_kaon,
         spectra.dnde_neutrino_short_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -784,9 +784,9 @@ def dnde_neutrino_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -800,6 +800,13 @@ def dnde_neutrino_pi0_k_k(
     return dec
 
 
+def _dnde_neutrino_neutral_kaon(neutrino_energies, ek, flavor):
+    # A neutral kaon is an equal mixture of long and short kaons
+    dec_l = spectra.dnde_neutrino_long_kaon(neutrino_energies, ek, flavor)
+    dec_s = spectra.dnde_neutrino_short_kaon(neutrino_energies, ek, flavor)
+    return 0.5 * (dec_l + dec_s)
+
+
 def dnde_neutrino_pi_k_k0(
     self: _DecayDndeNeutrino,
     neutrino_energies,
@@ -831,9 +838,9 @@ def dnde_neutrino_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
-        spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_neutral_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -883,8 +890,8 @@ def dnde_neutrino_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
     ]
@@ -931,8 +938,8 @@ def dnde_neutrino_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 913b41a..d7d8bc4 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -438,9 +438,9 @@ def dnde_positron_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_positron_zero,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -480,9 +480,9 @@ def dnde_positron_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_positron_eta,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -522,9 +522,9 @@ def dnde_positron_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_positron_eta_prime,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -564,9 +564,9 @@ def dnde_positron_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -606,9 +606,9 @@ def dnde_positron_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         _dnde_positron_zero,
         _dnde_positron_zero,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -649,9 +649,9 @@ def dnde_positron_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_long_kaon,
         spectra.dnde_positron_short_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -693,9 +693,9 @@ def dnde_positron_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_charged_kaon,
         spectra.dnde_positron_charged_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -709,6 +709,13 @@ def dnde_positron_pi0_k_k(
     return dec
 
 
+def _dnde_positron_neutral_kaon(positron_energies, ek):
+    # A neutral kaon is an equal mixture of long and short kaons
+    dec_l = spectra.dnde_positron_long_kaon(positron_energies, ek)
+    dec_s = spectra.dnde_positron_short_kaon(positron_energies, ek)
+    return 0.5 * (dec_l + dec_s)
+
+
 def dnde_positron_pi_k_k0(
     self: _DecayDndePostiron,
     positron_energies,
@@ -737,9 +744,9 @@ def dnde_positron_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
-        spectra.dnde_positron_charged_kaon,
+        _dnde_positron_neutral_kaon,
         spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -786,8 +793,8 @@ def dnde_positron_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
     ]
@@ -831,8 +838,8 @@ def dnde_positron_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         _dnde_positron_zero,
         _dnde_positron_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 15d1157..d57fc03 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -443,9 +443,9 @@ def dnde_photon_pi_pi_pi0(
     couplings = self._couplings
 
     dnde_decays = [
+        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(q=cme, couplings=couplings, nbins=nbins, npts=npts)
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -489,9 +489,9 @@ def dnde_photon_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_photon_eta,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -522,9 +522,9 @@ def dnde_photon_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_photon_eta_prime,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta_prime,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -555,9 +555,9 @@ def dnde_photon_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -579,9 +579,9 @@ def dnde_photon_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -603,9 +603,9 @@ def dnde_photon_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_long_kaon,
         spectra.dnde_photon_short_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
@@ -625,9 +625,9 @@ def dnde_photon_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
@@ -638,6 +638,13 @@ def dnde_photon_pi0_k_k(
     return dec
 
 
+def _dnde_photon_neutral_kaon(photon_energies, ek):
+    # A neutral kaon is an equal mixture of long and short kaons
+    dec_l = spectra.dnde_photon_long_kaon(photon_energies, ek)
+    dec_s = spectra.dnde_photon_short_kaon(photon_energies, ek)
+    return 0.5 * (dec_l + dec_s)
+
+
 def dnde_photon_pi_k_k0(
     self, photon_energies, cme: float, *, npts: int = 1 << 14, nbins=25
 ):
@@ -647,9 +654,9 @@ def dnde_photon_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_charged_kaon,
+        _dnde_photon_neutral_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -677,8 +684,8 @@ def dnde_photon_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_photon_charged_kaon,
-        spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
+        spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
     ]
-- 
2.43.0


From 19ee98201954f2adc647634246e2e2c78a800681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 44/68] fix: final-state radiation of the GeV mediator's pion
 channels comes from every oppositely charged pair

---
 hazma/vector_mediator/_gev/spectra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index d57fc03..bf2be93 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -454,7 +454,8 @@ def dnde_photon_pi_pi_pi0(
         q=cme, couplings=couplings, nbins=nbins
     )
 
-    dist = inv_mass_dist[(0, 1)]
+    # The charged pions are the last two particles of the form factor
+    dist = inv_mass_dist[(1, 2)]
     ps = dist.probabilities
     ms = dist.bin_centers
 
@@ -698,7 +699,7 @@ def dnde_photon_pi_pi_pi_pi(
 
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
 
-    pairs = [(0, 1), (1, 2), (2, 3)]
+    pairs = [(0, 1), (1, 2), (2, 3), (0, 3)]
     inv_mass_dist = ff.invariant_mass_distributions(
         q=cme,
         couplings=self._couplings,
-- 
2.43.0


From 93ba853c7aaf91a68bc4759d82dbec0a58aa139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 45/68] fix: the spectrum of the GeV mediator's pi0 pi0 gamma
 channel is per annihilation into that channel

---
 hazma/vector_mediator/_gev/spectra.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index bf2be93..391ebc6 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -389,9 +389,6 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
 
     dnde = spectra.dnde_photon_neutral_pion(photon_energies, epi1)
 
-    # Contributions from omega decay into pi0 + gamma:
-    br_omega_to_pi0_a = 8.34e-2
-
     # Factors to boost from omega rest-frame to V rest-frame.
     gamma2 = eomega / momega
     beta2 = np.sqrt(1.0 - gamma2**-2)
@@ -402,15 +399,14 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
     # Final state photon from omega decay: In the omega rest-frame, the
     # spectrum is a delta-function. We perform one boost to bring into the V
     # rest-frame.
-    pre = br_omega_to_pi0_a
     e0 = (momega**2 - mpi0**2) / (2 * momega)
-    dnde += pre * boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
+    dnde += boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
 
     # Double-boosted neutral pion: In the pion rest-frame, the spectra is a
     # delta-function. We then boost this into the omega rest-frame, then again
     # into the V rest-frame.
     br_pi0_to_a_a = 98.823e-2
-    pre = 2.0 * br_omega_to_pi0_a * br_pi0_to_a_a
+    pre = 2.0 * br_pi0_to_a_a
     e0 = mpi0 / 2.0
     dnde += pre * double_boost_delta_function(
         photon_energies, e0=e0, m=0.0, beta1=beta1, beta2=beta2
-- 
2.43.0


From 856bcec2286a0efca35fb77cb4d1c2ee473c18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 46/68] fix: photon lines of decaying GeV mediators carry their
 branching fractions

---
 hazma/vector_mediator/_gev/spectra.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 391ebc6..231a618 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -839,11 +839,15 @@ def dnde_photon_v_v(
     dnde = _dnde_photon_v_v_rest_frame(self, photon_energies, npts=npts, nbins=nbins)
     boosted = boost.dnde_boost_array(dnde, photon_energies, beta)
 
-    # Factor of 2 for 2 vectors
-    e0pi = 0.5 * (mv - mpi**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0pi, 0.0, beta)
+    # Monochromatic photons. Factor of 2 for 2 vectors
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    e0pi = 0.5 * (mv - mpi0**2 / mv)
+    br_pi = pws["pi0 gamma"] / pw
+    boosted += 2 * br_pi * boost_delta_function(photon_energies, e0pi, 0.0, beta)
     e0eta = 0.5 * (mv - meta**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0eta, 0.0, beta)
+    br_eta = pws["eta gamma"] / pw
+    boosted += 2 * br_eta * boost_delta_function(photon_energies, e0eta, 0.0, beta)
 
     return boosted
 
-- 
2.43.0


From ffa693125f1ca3243f609f02178aada9a6d9d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 47/68] fix: the positron and neutrino spectra of K+ K- count
 both kaons, like every other pair

---
 hazma/vector_mediator/_gev/neutrino.py | 2 +-
 hazma/vector_mediator/_gev/positron.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index eeb13bc..0ccff74 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -256,7 +256,7 @@ def dnde_neutrino_k_k(
     if cme < 2 * mk:
         return _make_zeros(neutrino_energies)
 
-    dec = spectra.dnde_neutrino_charged_kaon(
+    dec = 2 * spectra.dnde_neutrino_charged_kaon(
         neutrino_energies, cme / 2.0, flavor=flavor
     )
     return dec
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index d7d8bc4..c7b0b5d 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -226,7 +226,7 @@ def dnde_positron_k_k(
     if cme < 2 * mk:
         return np.zeros_like(positron_energies)
 
-    dec = spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
+    dec = 2 * spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
     return dec
 
 
-- 
2.43.0


From 23dabf305d808d16783528876f766d5de63249a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 48/68] fix: positrons and neutrinos from pairs of GeV
 mediators: boost of the width-weighted spectrum of each mediator

---
 hazma/vector_mediator/_gev/neutrino.py | 63 ++++++++++++++------------
 hazma/vector_mediator/_gev/positron.py | 62 +++++++++++++------------
 2 files changed, 65 insertions(+), 60 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 0ccff74..2414589 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -981,44 +981,47 @@ def dnde_neutrino_v_v(
     dnde: array
         Spectrum evaluated at `neutrino_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = cme / (2.0 * self.mv)
     if gamma < 1.0:
         return _make_zeros(neutrino_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    pws = {key: val / pw for key, val in pws.items()}
+
+    args = (neutrino_energies, self.mv, flavor)
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
-    def dnde(es):
-        args = (es, cme, flavor)
-        spec = np.zeros_like(es)
-        spec += dnde_neutrino_e_e(self, *args)
-        spec += dnde_neutrino_mu_mu(self, *args)
-        spec += dnde_neutrino_pi_pi(self, *args)
-        spec += dnde_neutrino_k0_k0(self, *args)
-        spec += dnde_neutrino_k_k(self, *args)
-        spec += dnde_neutrino_pi0_gamma(self, *args)
-        spec += dnde_neutrino_eta_gamma(self, *args)
-        spec += dnde_neutrino_pi0_phi(self, *args)
-        spec += dnde_neutrino_eta_phi(self, *args)
-        spec += dnde_neutrino_eta_omega(self, *args)
-        spec += dnde_neutrino_pi0_pi0_gamma(self, *args)
-        spec += dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    booster = boost.make_boost_function(dnde, mass=0.0)
-    return booster(neutrino_energies, beta, method=method)
+    # Spectrum from a mediator at rest
+    dnde = (
+        pws["e e"] * dnde_neutrino_e_e(self, *args)
+        + pws["mu mu"] * dnde_neutrino_mu_mu(self, *args)
+        + pws["pi pi"] * dnde_neutrino_pi_pi(self, *args)
+        + pws["k0 k0"] * dnde_neutrino_k0_k0(self, *args)
+        + pws["k k"] * dnde_neutrino_k_k(self, *args)
+        + pws["pi0 gamma"] * dnde_neutrino_pi0_gamma(self, *args)
+        + pws["eta gamma"] * dnde_neutrino_eta_gamma(self, *args)
+        + pws["pi0 phi"] * dnde_neutrino_pi0_phi(self, *args)
+        + pws["eta phi"] * dnde_neutrino_eta_phi(self, *args)
+        + pws["eta omega"] * dnde_neutrino_eta_omega(self, *args)
+        + pws["pi0 pi0 gamma"] * dnde_neutrino_pi0_pi0_gamma(self, *args)
+        + pws["pi pi pi0"] * dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
+        + pws["pi pi eta"] * dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
+        + pws["pi pi etap"] * dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
+        + pws["pi pi omega"] * dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
+        + pws["pi0 pi0 omega"] * dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
+        + pws["pi0 k0 k0"] * dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
+        + pws["pi0 k k"] * dnde_neutrino_pi0_k_k(self, *args, **kwargs)
+        + pws["pi k k0"] * dnde_neutrino_pi_k_k0(self, *args, **kwargs)
+        + pws["pi pi pi pi"] * dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
+        + pws["pi pi pi0 pi0"] * dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
+    )
+
+    # Factor of 2 for 2 vectors
+    return 2 * boost.dnde_boost_array(dnde, neutrino_energies, beta)
 
 
 NeutrinoSpectrumFunctions = TypedDict(
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index c7b0b5d..d6aed3d 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -878,46 +878,48 @@ def dnde_positron_v_v(
     dnde: array
         Spectrum evaluated at `photon_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = cme / (2.0 * self.mv)
     if gamma < 1.0:
         return np.zeros_like(positron_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    pws = {key: val / pw for key, val in pws.items()}
+
+    args = (positron_energies, self.mv)
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
-    def dnde(es):
-        args = (es, cme)
-        spec = np.zeros_like(es)
-        spec += dnde_positron_e_e(self, *args)
-        spec += dnde_positron_mu_mu(self, *args)
-        spec += dnde_positron_pi_pi(self, *args)
-        spec += dnde_positron_k0_k0(self, *args)
-        spec += dnde_positron_k_k(self, *args)
-        spec += dnde_positron_pi0_gamma(self, *args)
-        spec += dnde_positron_eta_gamma(self, *args)
-        spec += dnde_positron_pi0_phi(self, *args)
-        spec += dnde_positron_eta_phi(self, *args)
-        spec += dnde_positron_eta_omega(self, *args)
-        spec += dnde_positron_pi0_pi0_gamma(self, *args)
-        spec += dnde_positron_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_positron_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    return boost.make_boost_function(dnde, mass=me)(
-        positron_energies, beta, method=method
+    # Spectrum from a mediator at rest
+    dnde = (
+        pws["e e"] * dnde_positron_e_e(self, *args)
+        + pws["mu mu"] * dnde_positron_mu_mu(self, *args)
+        + pws["pi pi"] * dnde_positron_pi_pi(self, *args)
+        + pws["k0 k0"] * dnde_positron_k0_k0(self, *args)
+        + pws["k k"] * dnde_positron_k_k(self, *args)
+        + pws["pi0 gamma"] * dnde_positron_pi0_gamma(self, *args)
+        + pws["eta gamma"] * dnde_positron_eta_gamma(self, *args)
+        + pws["pi0 phi"] * dnde_positron_pi0_phi(self, *args)
+        + pws["eta phi"] * dnde_positron_eta_phi(self, *args)
+        + pws["eta omega"] * dnde_positron_eta_omega(self, *args)
+        + pws["pi0 pi0 gamma"] * dnde_positron_pi0_pi0_gamma(self, *args)
+        + pws["pi pi pi0"] * dnde_positron_pi_pi_pi0(self, *args, **kwargs)
+        + pws["pi pi eta"] * dnde_positron_pi_pi_eta(self, *args, **kwargs2)
+        + pws["pi pi etap"] * dnde_positron_pi_pi_etap(self, *args, **kwargs2)
+        + pws["pi pi omega"] * dnde_positron_pi_pi_omega(self, *args, **kwargs2)
+        + pws["pi0 pi0 omega"] * dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
+        + pws["pi0 k0 k0"] * dnde_positron_pi0_k0_k0(self, *args, **kwargs)
+        + pws["pi0 k k"] * dnde_positron_pi0_k_k(self, *args, **kwargs)
+        + pws["pi k k0"] * dnde_positron_pi_k_k0(self, *args, **kwargs)
+        + pws["pi pi pi pi"] * dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
+        + pws["pi pi pi0 pi0"] * dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
     )
 
+    # Factor of 2 for 2 vectors
+    return 2 * boost.dnde_boost_array(dnde, positron_energies, beta, mass=me)
+
 
 PositronSpectrumFunctions = TypedDict(
     "NeutrinoSpectrumFunctions",
-- 
2.43.0


From 1eb0f5ab4c3a08b487520c560f18eab154b69ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:58 +0000
Subject: [PATCH 49/68] fix: annihilation to pi0 pi0 gamma is zero, not an
 error, when every energy is below threshold

---
 hazma/vector_mediator/_gev/cross_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index b53320c..1f3ddb2 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -98,7 +98,7 @@ def __sigma_from_width_fn(self, width: Callable, e_cm, fsp_masses: Sequence[floa
         rescale = np.zeros_like(cme)
 
         rescale = __width_to_cs(self, cme[mask])
-        cs[mask] = np.vectorize(width)(cme[mask]) * rescale
+        cs[mask] = np.vectorize(width, otypes=[np.float64])(cme[mask]) * rescale
 
         return cs
     else:
-- 
2.43.0


From f46b22fd73fd786bb032b3bff583a59069322e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 50/68] fix: the n-body positron and neutrino spectra of the
 neutral rho are those of its pions, not zero

---
 hazma/spectra/_nbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 17ad1c4..f108e24 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -96,7 +96,7 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "eta": _positron.dnde_positron_eta,
     "etap": _positron.dnde_positron_eta_prime,
     "rho": _positron.dnde_positron_charged_rho,
-    "rho0": _dnde_zero,
+    "rho0": _positron.dnde_positron_neutral_rho,
     "omega": _positron.dnde_positron_omega,
     "phi": _positron.dnde_positron_phi,
 }
@@ -115,7 +115,7 @@ _dnde_neutrino_dict = {
     "eta": _neutrino.dnde_neutrino_eta,
     "etap": _neutrino.dnde_neutrino_eta_prime,
     "rho": _neutrino.dnde_neutrino_charged_rho,
-    "rho0": _dnde_zero_nu,
+    "rho0": _neutrino.dnde_neutrino_neutral_rho,
     "omega": _neutrino.dnde_neutrino_omega,
     "phi": _neutrino.dnde_neutrino_phi,
 }
-- 
2.43.0


From 46bbfc1749917638083b4b7e3f074ed0fc3f3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 51/68] fix: photons are possible final-state particles of the
 n-body spectra

---
 hazma/spectra/_nbody.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index f108e24..2fe2ae7 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -55,6 +55,7 @@ def _make_fsr(mass, charge, scalar):
 
 
 _dnde_photon_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
+    "photon": _dnde_zero,
     "e": _dnde_zero,
     "ve": _dnde_zero,
     "vm": _dnde_zero,
@@ -83,6 +84,7 @@ _dnde_fsr_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
 
 
 _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
+    "photon": _dnde_zero,
     "e": _dnde_zero,
     "ve": _dnde_zero,
     "vm": _dnde_zero,
@@ -102,6 +104,7 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
 }
 
 _dnde_neutrino_dict = {
+    "photon": _dnde_zero_nu,
     "e": _dnde_zero_nu,
     "ve": _dnde_zero_nu,
     "vm": _dnde_zero_nu,
-- 
2.43.0


From 848a67e4402126ab243db26dbbcb2eaaa52fc0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 52/68] fix: a final-state neutrino contributes to the n-body
 spectrum of its own flavor only

---
 hazma/spectra/_nbody.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 2fe2ae7..369db9a 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -503,13 +503,17 @@ def _dnde_multi_particle(
         cond = cond or (state == "e" and product == "positron")
         cond = cond or (state in ["ve", "vm", "vt"] and product == "neutrino")
         if cond:
-            dnde += np.interp(
+            line = np.interp(
                 product_energies,
                 dist.bin_centers,
                 dist.probabilities,
                 right=0.0,
                 left=0.0,
             )
+            if product == "neutrino":
+                dnde[["ve", "vm", "vt"].index(state)] += line
+            else:
+                dnde += line
 
     if product == "photon" and include_fsr:
         dnde = dnde + _dnde_photon_fsr(
-- 
2.43.0


From 97e1040deb712e79c51330bf6d509283ac56db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 53/68] fix: final-state radiation of n-body final states
 counts every charged particle

---
 hazma/spectra/_nbody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 369db9a..10d1f1c 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -390,7 +390,7 @@ def _dnde_photon_fsr(
                     )
 
         for key in dndes.keys():
-            dnde += dndes[key] / counts[key]
+            dnde += list(final_states).count(key) * dndes[key] / counts[key]
 
     return dnde
 
-- 
2.43.0


From dd91844fa9b8af687fb28f00ddf177545d146b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 54/68] fix: tabulated positron and neutrino spectra vanish
 above the end point of the table

---
 hazma/spectra/_neutrino/_utils.py | 2 +-
 hazma/spectra/_positron/_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index 7a7e705..7d8a08e 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -19,7 +19,7 @@ def load_interp(fname, k=2):
     dnde_integrand = dnde / energies
 
     integrand_interp = interpolate.InterpolatedUnivariateSpline(
-        energies, dnde_integrand, k=k
+        energies, dnde_integrand, k=k, ext=1
     )
 
     return integrand_interp
diff --git a/hazma/spectra/_positron/_utils.py b/hazma/spectra/_positron/_utils.py
index a80dfb1..b9c9965 100644
--- a/hazma/spectra/_positron/_utils.py
+++ b/hazma/spectra/_positron/_utils.py
@@ -21,7 +21,7 @@ def load_interp(fname):
     dnde_integrand = dnde / np.sqrt(energies**2 - me**2)
 
     integrand_interp = interpolate.InterpolatedUnivariateSpline(
-        energies, dnde_integrand, k=1
+        energies, dnde_integrand, k=1, ext=1
     )
 
     return integrand_interp
-- 
2.43.0


From 73168ec4bfd9d212a2d4da6a91c1f7819be32f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 55/68] fix: positron spectra of a particle at rest are zero
 below the electron mass for arrays too

---
 hazma/spectra/_positron/_utils.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/hazma/spectra/_positron/_utils.py b/hazma/spectra/_positron/_utils.py
index b9c9965..fe1a90e 100644
--- a/hazma/spectra/_positron/_utils.py
+++ b/hazma/spectra/_positron/_utils.py
@@ -59,14 +59,9 @@ def _dnde_positron_array(
     parent_mass: float,
     interp: interpolate.InterpolatedUnivariateSpline,
 ) -> RealArray:
-    eps = np.finfo(positron_energy.dtype).eps
-
     if parent_energy < parent_mass:
         return np.zeros_like(positron_energy)
 
-    if parent_energy - parent_mass < eps:
-        return interp(positron_energy) * np.sqrt(positron_energy**2 - me**2)
-
     return np.array(
         [
             _dnde_positron_point(
-- 
2.43.0


From ce0df2519af19c4997627b380a2e2bf5c9e7abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 56/68] fix: the neutrino spectrum of one flavor at a single
 energy is a number

---
 hazma/spectra/_neutrino/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index 7d8a08e..9f817bf 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -95,7 +95,7 @@ def dnde_neutrino(
     dnde = np.zeros((3, *enu.shape), dtype=enu.dtype)
 
     if flavor == "tau":
-        return dnde[2]
+        return dnde[2, 0] if scalar else dnde[2]
 
     for i, flav, inter in [(0, "e", interp_e), (1, "mu", interp_mu)]:
         if not flavor or flavor == flav:
@@ -107,7 +107,7 @@ def dnde_neutrino(
             )
 
             if flavor == flav:
-                return dnde_
+                return dnde_[0] if scalar else dnde_
             else:
                 dnde[i] = dnde_
 
-- 
2.43.0


From 76245f7feece44ce4970e37c0313ed2d57842793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 57/68] fix: the neutral rho decays into two charged pions and
 the charged rho into one, also in their neutrino tables

---
 hazma/spectra/_neutrino/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/spectra/_neutrino/__init__.py b/hazma/spectra/_neutrino/__init__.py
index 9cf4244..683a803 100644
--- a/hazma/spectra/_neutrino/__init__.py
+++ b/hazma/spectra/_neutrino/__init__.py
@@ -28,10 +28,10 @@ _eta_prime_integrand_interp_e = _load_interp("eta_prime_neutrino_e.csv")
 _eta_prime_integrand_interp_mu = _load_interp("eta_prime_neutrino_mu.csv")
 _phi_integrand_interp_e = _load_interp("phi_neutrino_e.csv")
 _phi_integrand_interp_mu = _load_interp("phi_neutrino_mu.csv")
-_charged_rho_integrand_interp_e = _load_interp("charged_rho_neutrino_e.csv")
-_charged_rho_integrand_interp_mu = _load_interp("charged_rho_neutrino_mu.csv")
-_neutral_rho_integrand_interp_e = _load_interp("neutral_rho_neutrino_e.csv")
-_neutral_rho_integrand_interp_mu = _load_interp("neutral_rho_neutrino_mu.csv")
+_charged_rho_integrand_interp_e = _load_interp("neutral_rho_neutrino_e.csv")
+_charged_rho_integrand_interp_mu = _load_interp("neutral_rho_neutrino_mu.csv")
+_neutral_rho_integrand_interp_e = _load_interp("charged_rho_neutrino_e.csv")
+_neutral_rho_integrand_interp_mu = _load_interp("charged_rho_neutrino_mu.csv")
 
 
 @overload
-- 
2.43.0


From 119cd8fc36cf9691bdba267db4c8493f11a3f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:41 +0000
Subject: [PATCH 58/68] fix: positrons of the neutral rho come from both of its
 charged pions

---
 hazma/spectra/_neutrino/__init__.py | 2 ++
 hazma/spectra/_positron/__init__.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_neutrino/__init__.py b/hazma/spectra/_neutrino/__init__.py
index 683a803..03d9908 100644
--- a/hazma/spectra/_neutrino/__init__.py
+++ b/hazma/spectra/_neutrino/__init__.py
@@ -28,6 +28,8 @@ _eta_prime_integrand_interp_e = _load_interp("eta_prime_neutrino_e.csv")
 _eta_prime_integrand_interp_mu = _load_interp("eta_prime_neutrino_mu.csv")
 _phi_integrand_interp_e = _load_interp("phi_neutrino_e.csv")
 _phi_integrand_interp_mu = _load_interp("phi_neutrino_mu.csv")
+# 'charged_rho_neutrino_*.csv' tabulate rho0 -> pi + pi (two charged pions) and
+# 'neutral_rho_neutrino_*.csv' tabulate rho+ -> pi + pi0 (one charged pion).
 _charged_rho_integrand_interp_e = _load_interp("neutral_rho_neutrino_e.csv")
 _charged_rho_integrand_interp_mu = _load_interp("neutral_rho_neutrino_mu.csv")
 _neutral_rho_integrand_interp_e = _load_interp("charged_rho_neutrino_e.csv")
diff --git a/hazma/spectra/_positron/__init__.py b/hazma/spectra/_positron/__init__.py
index c57c641..8a13b80 100644
--- a/hazma/spectra/_positron/__init__.py
+++ b/hazma/spectra/_positron/__init__.py
@@ -283,11 +283,12 @@ def dnde_positron_neutral_rho(
 def dnde_positron_neutral_rho(
     positron_energy: Union[RealArray, float], rho_energy: float
 ) -> Union[RealArray, float]:
+    # rho0 -> pi + pi: the table holds the positrons of one charged pion
     interp = _rho_integrand_interp
     parent_mass = parameters.rho_mass
     parent_energy = rho_energy
 
-    return _dnde_positron(
+    return 2.0 * _dnde_positron(
         positron_energy=positron_energy,
         parent_energy=parent_energy,
         parent_mass=parent_mass,
@@ -308,7 +309,8 @@ def dnde_positron_charged_rho(
 def dnde_positron_charged_rho(
     positron_energy: Union[RealArray, float], rho_energy: float
 ) -> Union[RealArray, float]:
-    return dnde_positron_neutral_rho(positron_energy, rho_energy)
+    # rho+ -> pi + pi0: one charged pion
+    return 0.5 * dnde_positron_neutral_rho(positron_energy, rho_energy)
 
 
 @overload
-- 
2.43.0


From ceed3f167f2e2df7b05aae61b98f3122e5593092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 59/68] fix: assigning the flavor of a right-handed neutrino
 leaves the model of that flavor

---
 hazma/rh_neutrino/_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 8bc732c..6239098 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -106,10 +106,10 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             self._vstr = "ve"
         elif val == "mu":
             self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self._vstr = "vm"
         elif val == "tau":
-            self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self.__gen = Generation.Trd
+            self._vstr = "vt"
         else:
             raise ValueError(f"Invalid lepton {val}. Use 'e', 'mu', or 'tau'")
 
-- 
2.43.0


From 584676c29cc26244a96176a3bc6d8cde22145c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 60/68] fix: right-handed neutrinos decaying into a neutrino
 and an eta have the spectra of an eta

---
 hazma/rh_neutrino/_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index fcbb8e8..433959f 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -153,7 +153,7 @@ def dnde_v_eta(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     nu = _NEUTRINO_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (nu, "pi0"))
+    return _dnde_two_body(model, product_energies, product, (nu, "eta"))
 
 
 def dnde_v_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
-- 
2.43.0


From ea63c9a7c2117e111613ec0d41f4adf275b1ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 61/68] fix: right-handed neutrinos decaying into a lepton and
 a rho have the spectra of a rho

---
 hazma/rh_neutrino/_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index 433959f..c2e95e9 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -299,7 +299,7 @@ def dnde_l_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     ell = _LEPTON_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (ell, "k"))
+    return _dnde_two_body(model, product_energies, product, (ell, "rho"))
 
 
 def dnde_v_l_l(
-- 
2.43.0


From 0eeaf54b97f03eb06b6d65296bd6d1d99691b78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 62/68] fix: the lines of right-handed neutrino decays belong
 to final states of the model

---
 hazma/rh_neutrino/_model.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 6239098..6486963 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -226,7 +226,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Returns dict of final states and photon energies for final states
         containing monochromatic gamma ray lines.
         """
-        return {"nu g": self.mx / 2.0}
+        return {f"{self._vstr} a": self.mx / 2.0}
 
     def _positron_spectrum_funcs(self) -> Dict[str, Callable]:
         """
@@ -236,14 +236,14 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         return self.__spectrum_funcs("positron")
 
     def _positron_line_energies(self) -> Dict[str, float]:
+        lines = {}
         if self.flavor == "e":
-            return {
-                "pi l": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
-                / (2.0 * self.mx),
-                "k l": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
-                / (2.0 * self.mx),
-            }
-        return {}
+            for meson in ["pi", "k"]:
+                if self.mx > self.ml + sm_masses[meson]:
+                    lines[f"{self._lstr} {meson}"] = (
+                        self.mx**2 + self.ml**2 - sm_masses[meson] ** 2
+                    ) / (2.0 * self.mx)
+        return lines
 
     def _neutrino_spectrum_funcs(self) -> Dict[str, Callable]:
         """
@@ -261,7 +261,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             lines[f"{vv} pi0"] = (mx**2 - sm_masses["pi0"] ** 2) / (2.0 * mx)
 
         if self.mx > sm_masses["eta"]:
-            lines[f"{vv} pi0"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
+            lines[f"{vv} eta"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
 
         lines[f"{vv} a"] = 0.5 * mx
         return lines
-- 
2.43.0


From e145a5b3e6e5712e8e1d3a11caa8ebaf55bcca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 63/68] fix: the width of a right-handed neutrino into a lepton
 and a pion or kaon is that of a pseudoscalar

---
 hazma/rh_neutrino/_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index df6f5ca..222daba 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -121,7 +121,7 @@ def _width_l_hp(model: SingleRhNeutrinoModel, ml, mh, fh, ckm):
 
     return (
         pre
-        * ((1 - xl**2) ** 2 + xh**2 * (1 + xl**2) - 2 * xh**4)
+        * ((1 - xl**2) ** 2 - xh**2 * (1 + xl**2))
         * np.sqrt(kallen_lambda(1, xh**2, xl**2))
     )
 
-- 
2.43.0


From 5f438c2329844f22f3a80f97e1bf35aba262b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 64/68] fix: the squared matrix element of three neutrinos
 scales with the square of the mixing

---
 hazma/rh_neutrino/_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index 222daba..674e3b1 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -743,7 +743,7 @@ def msqrd_v_v_v(s, t, model: SingleRhNeutrinoModel, gen: Generation):
     mx = model.mx
     u = 0.5 * np.tan(2 * model.theta)
     pre = 2.0 if gen == model.gen else 1.0
-    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u
+    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u**2
 
 
 def energy_distributions_v_v_v(
-- 
2.43.0


From eb0e8c91f5d1aa602181ff46df8db7a1f24ea211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 65/68] fix: the spectra of right-handed neutrino decays count
 charge-conjugate modes once

---
 hazma/rh_neutrino/_model.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 6486963..757e858 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -195,20 +195,11 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Gets a function taking a photon energy and returning the continuum
         gamma ray spectrum dN/dE for each relevant decay final state.
         """
-        ispositron = product == "positron"
-        conjfactor = 1.0 if ispositron else 2.0
-
-        def pre(self_conjugate):
-            return 1.0 if self_conjugate else conjfactor
-
         def mk_dnde(key):
             dnde = self._config[key].dnde
-            self_conjugate = self._config[key].self_conjugate
 
             def new_dnde(energies, **kwargs):
-                return pre(self_conjugate) * dnde(
-                    product_energies=energies, product=product, **kwargs
-                )
+                return dnde(product_energies=energies, product=product, **kwargs)
 
             return new_dnde
 
-- 
2.43.0


From f56c32fbc7b443f8f3f75009216f137eaaec6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 66/68] fix: the partial decay width of a right-handed neutrino
 accepts a single final state

---
 hazma/rh_neutrino/_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 757e858..f86fd34 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -176,6 +176,8 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         KeyError
             If one of the final states doesn't exist, a KeyError is raised.
         """
+        if isinstance(final_states, str):
+            final_states = [final_states]
         return {fs: self._decay_width(fs) for fs in final_states}
 
     def decay_widths(self) -> Dict[str, float]:
-- 
2.43.0


From fe0d018b09ef12c9e0a3205efe9c98ce431486dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 67/68] fix: neutrino spectra of right-handed neutrino decays
 below threshold have three flavors

---
 hazma/rh_neutrino/_spectra.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index c2e95e9..6270d7b 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -22,6 +22,13 @@ def dnde_zero(e, _):
     return np.zeros_like(e)
 
 
+def _dnde_below_threshold(product_energies, product: str):
+    zeros = np.zeros_like(product_energies, dtype=float)
+    if product in ["neutrino", "ve", "vm", "vt"]:
+        return np.array([zeros, zeros, zeros])
+    return zeros
+
+
 def _dnde_two_body(
     model: SingleRhNeutrinoModel,
     product_energies,
@@ -38,7 +45,7 @@ def _dnde_two_body(
         Photon energies where the spectrum should be computed.
     """
     if model.mx < sum(sm_masses[s] for s in states):
-        return np.zeros_like(product_energies)
+        return _dnde_below_threshold(product_energies, product)
 
     if product == "photon":
         return spectra.dnde_photon(
@@ -70,7 +77,7 @@ def _dnde_three_body(
     three_body_integrator: str,
 ):
     if model.mx < sum(sm_masses[s] for s in states):
-        return np.zeros_like(product_energies)
+        return _dnde_below_threshold(product_energies, product)
 
     if product == "photon":
         return spectra.dnde_photon(
-- 
2.43.0


From 6eb093e7a306d7b70a108cc90dedfe130a78d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 68/68] fix: the squared matrix element of two different
 leptons knows which one comes with the neutrino

---
 hazma/rh_neutrino/_widths.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index 674e3b1..2a98f38 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -603,18 +603,18 @@ def _make_msqrd_and_masses_v_l_l(
             return _msqrd_v_f_f(s, t, model, ml1)
 
     elif (genn == genl1) and (genv == genl2):
-        mu, md, ml = 0.0, ml2, ml1
-        masses = (mu, md, ml)
+        masses = (0.0, ml1, ml2)
 
         def msqrd(s, t):
-            return _msqrd_l_u_d(s, t, model, mu, md, ml, 1.0)
+            return _msqrd_l_u_d(s, t, model, 0.0, ml1, ml2, 1.0)
 
     elif (genn == genl2) and (genv == genl1):
-        mu, md, ml = 0.0, ml1, ml2
-        masses = (mu, md, ml)
+        masses = (0.0, ml1, ml2)
 
         def msqrd(s, t):
-            return _msqrd_l_u_d(s, t, model, mu, md, ml, 1.0)
+            # Exchanging the leptons exchanges the invariant masses t and u.
+            u = model.mx**2 + ml1**2 + ml2**2 - s - t
+            return _msqrd_l_u_d(s, u, model, 0.0, ml2, ml1, 1.0)
 
     else:
         masses = (0.0, ml1, ml2)
-- 
2.43.0

