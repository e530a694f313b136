From 3a840c085912f13e0439ce3cdac4d2bdab848d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 01/30] fix: do not import integrators that do not exist in
 particles

---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From 54913b742c577c10ff9d8864c04a12243b4d8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:19 +0000
Subject: [PATCH 02/30] fix: use the Adams-Moulton step as a collision
 integral, not as a distribution

---
 particles/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..fdad6ce 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,10 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            # The solver returns the new distribution, AB already contains the `B * f` term
+            f = self.distribution(ps)
+            I_coll = (adams_moulton_solver(y=f, fs=fs, A=AB - B * f, B=B, h=self.params.h)
+                      - f) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From b78479a1325961ec0f5ab9d3343376e24e68517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:54 +0000
Subject: [PATCH 03/30] fix: do not carry the integration bounds over from one
 momentum to the next

---
 interactions/four_particle/cpp/integral.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..a224f1b 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -602,7 +602,7 @@ dbl integrand_2nd_integration(
 
 
 std::vector<dbl> integration(
-    std::vector<dbl> ps, dbl min_1, dbl max_1, dbl min_2, dbl max_2, dbl max_3,
+    std::vector<dbl> ps, dbl grid_min_1, dbl grid_max_1, dbl min_2, dbl max_2, dbl max_3,
     const std::vector<reaction_t> &reaction,
     const std::vector<M_t> &Ms,
     dbl stepsize, int kind=0
@@ -614,9 +614,11 @@ std::vector<dbl> integration(
     auto reaction_type = get_reaction_type(reaction);
 
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(grid_min_1, grid_max_1, min_2, max_2, max_3)
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
+        // Bounds depend on p0: they must not be carried over to the next momentum
+        dbl min_1 = grid_min_1, max_1 = grid_max_1;
 
         if (reaction_type == Kinematics::DECAY) {
             max_1 = sqrt(
-- 
2.43.0


From ba10b5211cd0c1824f11d18a49fa555d80309bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 04/30] fix: interpolate between the grid points that surround
 the argument

---
 common/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..15261b3 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -308,7 +308,8 @@ def linear_interpolation(function, grid):
     """ ### Linear interpolation """
 
     def interpolation(x):
-        index = numpy.searchsorted(grid, x)
+        # Index of the last grid point that is not above `x`
+        index = max(numpy.searchsorted(grid, x, side='right') - 1, 0)
 
         if index >= len(grid) - 1:
             return function[len(grid) - 1]
@@ -334,7 +335,8 @@ def cubic_interpolation(function, grid):
     """ # Cubic interpolation """
 
     def interpolation(x):
-        index = numpy.searchsorted(grid, x)
+        # Index of the last grid point that is not above `x`
+        index = max(numpy.searchsorted(grid, x, side='right') - 1, 0)
 
         if index >= len(grid) - 1:
             return function[len(grid) - 1]
-- 
2.43.0


From fd40525e81e569f6a1297141ca0ea79a93b588c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 05/30] fix: return the index of a grid point, not a tuple of
 arrays, from binary_find

---
 common/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/__init__.py b/common/__init__.py
index 15261b3..249e23f 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -387,7 +387,7 @@ def binary_find(grid, x):
         return -1, head
 
     if x in temp:
-        pos = numpy.where(temp == x)
+        pos = numpy.where(temp == x)[0][0]
         return pos, pos
 
     return numpy.searchsorted(temp, x, side='right') - 1, numpy.searchsorted(temp, x, side='right')
-- 
2.43.0


From a24ea937cfffeed8e1f566c951357abeb12f9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 06/30] fix: pass an integer number of samples to linspace in
 interpolation_4p

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..47233e8 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -352,7 +352,7 @@ def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
-        steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
+        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
         interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
         ps = ps[interp_pos]
         interpolate = True
-- 
2.43.0


From 9f7578c81f51ad15c1371d51b858c1c1618ba708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 07/30] fix: do not take the truth value of an array in
 FourParticleIntegral.integrate

---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From 771b219683acfd867dd0e74fa9c9a01997eb85d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 08/30] fix: pass the integral to reaction_type in
 Icoll_fast_decay

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 47233e8..7321ab3 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From 91d924ce45c1fe78c5f500380ecc06e746e188ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 09/30] fix: keep the number of relativistic species above the
 QCD scale

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 7321ab3..b32dc56 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    if muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass < CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From ffa13c327b1b55c94806e00bcef80a7139d20810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 10/30] fix: count negative indices of DynamicRecArray from its
 end

---
 common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..b92f36b 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -249,7 +249,7 @@ class DynamicRecArray(object):
             return self._data[index][:self.length]
         index = int(index)
         if index < 0:
-            index = self.length+1-index
+            index = self.length + index
         return self._data[:][index]
 
     def append(self, rec):
-- 
2.43.0


From 661013ad7559f48378ed0099a50030338e3eda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 11/30] fix: give every Universe its own evolution record

---
 evolution.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..7df2126 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -53,6 +43,18 @@ class Universe(object):
         self.particles = []
         self.interactions = []
 
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.clock_start = time.time()
         self.log_throttler = utils.Throttler(max_log_rate)
 
-- 
2.43.0


From e0e75d10eca7af7c6327cf7815546c00fbbbf340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 12/30] fix: let oscillations_map be called without matter
 potentials

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 8c60e28..8be0c29 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -346,7 +346,7 @@ class particles(object):
         }
 
         @staticmethod
-        def oscillations_map(MSW_12=None, MSW_13=None, matter_effects=True):
+        def oscillations_map(MSW_12=0., MSW_13=0., matter_effects=True):
 
             # angles=(0.5905, 0., 0.152346) # theta_12, theta_23, theta_13
             theta_12 = 0.57636
-- 
2.43.0


From 9271db82937b536c9abdff7679187e83f2e13afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 13/30] fix: take the six weak rates of the last record in the
 BBN estimates

---
 semianalytic.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/semianalytic.py b/semianalytic.py
index 640e4c1..4602bef 100644
--- a/semianalytic.py
+++ b/semianalytic.py
@@ -8,10 +8,7 @@ def step_monitor(universe):
     from copy import deepcopy
 
     if not hasattr(universe, 'neutron_decoupling_parameters') and len(universe.kawano_data):
-        print([field[0] for field in universe.kawano_data.data.dtype[-6:]])
-        rates = universe.kawano_data.data[-1][
-            [field[0] for field in universe.kawano_data.data.dtype[-6:]]
-        ]
+        rates = [universe.kawano_data.data[-1][name] for name in universe.kawano_data.columns[-6:]]
         neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
         if neutron_equilibration > 10 or neutron_equilibration < 0.1:
             universe.neutron_decoupling_parameters = deepcopy(universe.params)
-- 
2.43.0


From 0cbac9daabc6d838548ae85f5275e4273f6a6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:25 +0000
Subject: [PATCH 14/30] fix: sum and scale constant matrix elements too, and
 support division on Python 3

---
 interactions/four_particle/__init__.py  | 5 ++++-
 interactions/three_particle/__init__.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 31734da..9e6d429 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -42,16 +42,19 @@ class FourParticleM(object):
     def __iadd__(self, M):
         self.K1 += M.K1
         self.K2 += M.K2
+        self.K += M.K
         return self
 
-    def __idiv__(self, div):
+    def __itruediv__(self, div):
         self.K1 /= div
         self.K2 /= div
+        self.K /= div
         return self
 
     def __imul__(self, mul):
         self.K1 *= mul
         self.K2 *= mul
+        self.K *= mul
         return self
 
     def __setattr__(self, name, value):
diff --git a/interactions/three_particle/__init__.py b/interactions/three_particle/__init__.py
index 1a01ada..217db78 100755
--- a/interactions/three_particle/__init__.py
+++ b/interactions/three_particle/__init__.py
@@ -29,7 +29,7 @@ class ThreeParticleM(object):
         self.K += M.K
         return self
 
-    def __idiv__(self, div):
+    def __itruediv__(self, div):
         self.K /= div
         return self
 
-- 
2.43.0


From 3504b852e570baa5d9de31e0abf162aa0f3fe2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 15/30] fix: let boolean settings be switched off by name

---
 environment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/environment.py b/environment.py
index 730d871..b08bc5b 100755
--- a/environment.py
+++ b/environment.py
@@ -61,6 +61,10 @@ def get(name):
     default = defaults.get(name)
     val = os.environ.get(name, default)
 
+    if isinstance(default, bool):
+        # `bool('False')` is true
+        return val if isinstance(val, bool) else val.lower() not in ('', 'false', 'f', '0', '-1')
+
     if default:
         typ = type(default)
         val = typ(val)
-- 
2.43.0


From 257e731cf0cfcdcf378691a9f86192131bb9e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:22 +0000
Subject: [PATCH 16/30] fix: do not take the record of the initial state for a
 derivative of the temperature

The first record is saved before any step is made and its fraction is a
placeholder zero, yet the Adams-Bashforth correction used it as the value
of the derivative at an equally spaced earlier step.
---
 evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 7df2126..4c3cdac 100755
--- a/evolution.py
+++ b/evolution.py
@@ -187,7 +187,9 @@ class Universe(object):
             self.step_monitor(self)
 
         if environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
-            fs = (list(self.data['fraction'][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
+            # The first record describes the initial state: it precedes any step and its fraction
+            # is a placeholder instead of a derivative
+            fs = (list(self.data['fraction'][1:][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
 
             self.params.aT += adams_bashforth_correction(fs=fs, h=self.params.h)
         else:
-- 
2.43.0


From 46a97cc7e642944f78abe0330cab3bf1547f8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:15 +0000
Subject: [PATCH 17/30] fix: merge a matrix element into a constant one only if
 it is constant, too

A matrix element with K1 or K2 terms that was merged into one with a
constant lost its order of momenta. A vanishing constant three-particle
element could not be merged at all.
---
 interactions/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interactions/__init__.py b/interactions/__init__.py
index a8981ae..3a886f6 100755
--- a/interactions/__init__.py
+++ b/interactions/__init__.py
@@ -246,6 +246,10 @@ class IntegralDeduplicator:
             Counter(item.specie for item in integral.reaction if item.side == 1)
         )
 
+    @staticmethod
+    def constant(M):
+        return not (getattr(M, 'K1', 0.) or getattr(M, 'K2', 0.))
+
     def append(self, new_integral):
         old_integral = None
 
@@ -267,7 +271,8 @@ class IntegralDeduplicator:
         for new_M in new_integral.Ms:
             reduced = False
             for old_M in old_integral.Ms:
-                if old_M.K != 0.:
+                # Constant matrix elements do not depend on the order of momenta
+                if self.constant(old_M) and self.constant(new_M):
                     reduced = True
                     old_M += new_M
                     break
-- 
2.43.0


From 0e3ccc2078a984d8fecbdc4957d2c3add627e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 18/30] fix: do not write the log of BBN rates if there is no
 output folder

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 4c3cdac..cf9d21e 100755
--- a/evolution.py
+++ b/evolution.py
@@ -351,7 +351,8 @@ class Universe(object):
 
             if self.log_throttler.output:
                 print("KAWANO", self.kawano_data.row_repr(-1, names=True))
-            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
+            if self.kawano_log:
+                self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
 
     def init_log(self, folder=''):
         self.logfile = utils.ensure_path(os.path.join(self.folder, 'log.txt'))
-- 
2.43.0


From c5a3fa53978613ab91e52bda4361e5e74369883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 19/30] fix: keep the number of particles when they thermalise
 before their decay

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index b32dc56..d51a7a4 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -400,7 +400,7 @@ def Icoll_fast_decay(particle, ps):
 
     if hasattr(particle, 'thermalization'):
         distr_ini = distr_backg + sum(F1s) * particle.params.h
-        distr_bef = distr_backg + simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
+        distr_bef = distr_backg + 4 * np.pi * simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
                     / (2 * np.pi * particle.conformal_mass * particle.aT)**(3/2) \
                     * np.exp(-particle.grid.TEMPLATE**2 / (2 * particle.conformal_mass * particle.aT))
 
-- 
2.43.0


From 344a20f1bedfeec59240c8f95d0b017a397f83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 20/30] fix: let every particle take part in both roles of the
 reactions of sterile neutrinos

---
 common/kinematics.py |  6 +++---
 library/NuMSM.py     | 27 ++++++++++++++-------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index d51a7a4..b4a57ec 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -323,9 +323,9 @@ def Neglect4pInteraction(interaction, ps):
     return False
 
 def CollisionMultiplier4p(interaction):
-    if 'Sterile neutrino (Dirac)' in [item.specie.name for item in interaction.reaction] or \
-    (utils.reaction_type(interaction).CREATION and not \
-    (interaction.reaction[3].specie.majorana and interaction.particle.Q)):
+    if utils.reaction_type(interaction).CREATION and \
+    'Sterile neutrino (Dirac)' not in [item.specie.name for item in interaction.reaction] and not \
+    (interaction.reaction[3].specie.majorana and interaction.particle.Q):
         left = Counter(item.specie for item in interaction.reaction if item.side == -1)
         right = Counter(item.specie for item in interaction.reaction if item.side == 1)
         if left[interaction.reaction[0].specie] == 2 and right[interaction.reaction[0].specie] in [0, 1]:
diff --git a/library/NuMSM.py b/library/NuMSM.py
index d124624..4c8ec24 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -159,10 +159,6 @@ class interactions(object):
                     active_b=neutrino_b,
                     kind=kind
                 )
-                inter[1].integrals = [integral for integral in inter[1].integrals if \
-                                    integral.reaction[0].specie.name not in [integral2.reaction[0].specie.name for \
-                                    integral2 in inter[0].integrals]]
-
                 inters.extend(inter)
 
         # Interactions of neutrinos and leptons
@@ -183,7 +179,6 @@ class interactions(object):
                         for interac in inter:
                             interac.integrals = [integral for integral in interac.integrals if not (integral.reaction[0].specie.name != sterile.name and\
                                                 Counter([item.specie.name for item in integral.reaction if item.side == -1])[lepton.name] == 1)]
-                        inter[1].integrals = [integral for integral in inter[1].integrals if integral.reaction[0].specie.name != lepton.name]
                     inters.extend(inter)
 
                 if len(leptons) > 1:
@@ -222,7 +217,7 @@ class interactions(object):
         for quark in quarks:
             for active in neutrinos:
                 if thetas[active.flavour]:
-                    inters.append(interactions.sterile_quark_neutral(
+                    inters.extend(interactions.sterile_quark_neutral(
                         theta=thetas[active.flavour], sterile=sterile,
                         active=active, quark=quark, kind=kind
                     ))
@@ -231,7 +226,7 @@ class interactions(object):
                                           [q for q in quarks if q.Q == -1./3.]):
             for lepton in leptons:
                 if thetas[lepton.flavour]:
-                    inters.append(interactions.sterile_quark_charged(
+                    inters.extend(interactions.sterile_quark_charged(
                         theta=thetas[lepton.flavour], sterile=sterile,
                         lepton=lepton, up=up, down=down, kind=kind
                     ))
@@ -253,10 +248,10 @@ class interactions(object):
 
         x = (3 - 4 * g_R)
 
-        return CrossGeneratingInteraction(
+        return [CrossGeneratingInteraction(
             name="Sterile-quarks neutral channel interaction",
             particles=((sterile, active), (quark, quark)),
-            antiparticles=((False, True), (False, True)),
+            antiparticles=antiparticles,
             Ms=(
                 SterileM(theta=theta, K1=16. / 9. * g_R**2, order=(0, 2, 1, 3)),
                 SterileM(theta=theta, K1=1. / 9. * x**2, order=(0, 3, 1, 2)),
@@ -264,7 +259,10 @@ class interactions(object):
             ),
             integral_type=FourParticleIntegral,
             kind=kind
-        )
+        ) for antiparticles in [
+            ((False, True), (False, True)),
+            ((True, False), (True, False))
+        ]]
 
     @staticmethod
     def sterile_quark_charged(theta=1., sterile=None, lepton=None, up=None, down=None, kind=None):
@@ -275,16 +273,19 @@ class interactions(object):
 
         CKM = SM_particles.quarks.CKM[(up.family, down.family)]
 
-        return CrossGeneratingInteraction(
+        return [CrossGeneratingInteraction(
             name="Sterile-quarks charged channel interaction",
             particles=((sterile, lepton), (up, down)),
-            antiparticles=((False, True), (False, True)),
+            antiparticles=antiparticles,
             Ms=(
                 SterileM(theta=theta, K1=4. * CKM**2, order=(0, 3, 1, 2)),
             ),
             integral_type=FourParticleIntegral,
             kind=kind
-        )
+        ) for antiparticles in [
+            ((False, True), (False, True)),
+            ((True, False), (True, False))
+        ]]
 
     @classmethod
     def sterile_hadrons_interactions(cls, thetas=None, sterile=None, neutrinos=None,
-- 
2.43.0


From 13a77ab13689a2778847106529ced9b1aa2bf761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 21/30] fix: sum the amplitudes of quarks over their colours

---
 library/NuMSM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index 4c8ec24..01e810f 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -253,9 +253,9 @@ class interactions(object):
             particles=((sterile, active), (quark, quark)),
             antiparticles=antiparticles,
             Ms=(
-                SterileM(theta=theta, K1=16. / 9. * g_R**2, order=(0, 2, 1, 3)),
-                SterileM(theta=theta, K1=1. / 9. * x**2, order=(0, 3, 1, 2)),
-                SterileM(theta=theta, K2=-4. / 9. * g_R * x, order=(2, 3, 0, 1)),
+                SterileM(theta=theta, K1=3 * 16. / 9. * g_R**2, order=(0, 2, 1, 3)),
+                SterileM(theta=theta, K1=3 * 1. / 9. * x**2, order=(0, 3, 1, 2)),
+                SterileM(theta=theta, K2=3 * -4. / 9. * g_R * x, order=(2, 3, 0, 1)),
             ),
             integral_type=FourParticleIntegral,
             kind=kind
@@ -278,7 +278,7 @@ class interactions(object):
             particles=((sterile, lepton), (up, down)),
             antiparticles=antiparticles,
             Ms=(
-                SterileM(theta=theta, K1=4. * CKM**2, order=(0, 3, 1, 2)),
+                SterileM(theta=theta, K1=3 * 4. * CKM**2, order=(0, 3, 1, 2)),
             ),
             integral_type=FourParticleIntegral,
             kind=kind
-- 
2.43.0


From db715fbc5f954bb458198d738c6cbb919bfdab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 22/30] fix: mix charged vector mesons with the flavour of
 their lepton

---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index 01e810f..98142fd 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -323,7 +323,7 @@ class interactions(object):
                                                                kind=kind)
 
                         if particle.type == "vector":
-                            inters += cls.charged_vector_meson(theta=thetas[neutrino.flavour],
+                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],
                                                                sterile=sterile,
                                                                lepton=lepton,
                                                                meson=particle,
-- 
2.43.0


From 45ce0fab9d343879120b83aa019e6c6972a7cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 23/30] fix: decay into charged kaons through the mixing of up
 and strange quarks

---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index 98142fd..7d63921 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -366,7 +366,7 @@ class interactions(object):
             \end{align}
         """
 
-        CKM = SM_particles.quarks.CKM[(1, 1)]
+        CKM = SM_particles.quarks.CKM[(1, 2) if meson.name == 'Charged kaon' else (1, 1)]
 
         return [CrossGeneratingInteraction(
             name="Sterile neutrino decay to charged scalar meson and lepton",
-- 
2.43.0


From ebbaf95d5d61c823b40a42be4828468b648d546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 24/30] fix: give protons their charge

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 8be0c29..676a670 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -82,7 +82,7 @@ class particles(object):
             'mass': 938.272046 * UNITS.MeV,
             'dof': 4,
             'majorana': False,
-            'Q': -1
+            'Q': 1
         }
         neutral_pion = {
             'name': 'Neutral pion',
-- 
2.43.0


From 2235f2f6c43c5cd1536de76f0f97f3f96cf8460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 25/30] fix: add the decay of a meson once, whatever the order
 of mesons

---
 library/SM.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/SM.py b/library/SM.py
index 676a670..ddd79ab 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -951,6 +951,10 @@ class interactions(object):
                                                     kind=kind)
 
         for meson in primary_mesons:
+            # The decay has been added along with the one of a heavier meson
+            if already_there(inters, meson.name):
+                continue
+
             if meson.name == 'Neutral pion':
                 neutral_pion_decay(inters)
 
-- 
2.43.0


From 855a40d00d259dd378c4db779bd78276b396d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 26/30] fix: do not turn the first product of a three-body
 meson decay into its antiparticle

---
 library/SM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index ddd79ab..9820b6b 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -639,8 +639,8 @@ class interactions(object):
 
         return [CrossGeneratingInteraction(
             name="Meson decay",
-            particles=((parts[0], parts[1]), (parts[2], parts[3])),
-            antiparticles=((antiparts[0], antiparts[1]), (antiparts[2], antiparts[3])),
+            particles=((parts[0], ), (parts[1], parts[2], parts[3])),
+            antiparticles=((antiparts[0], ), (antiparts[1], antiparts[2], antiparts[3])),
             Ms=(WeakM(K=ME),),
             integral_type=FourParticleIntegral,
             kind=kind
-- 
2.43.0


From 4b986db1e3406b2fcbed0b63e54b5c43cb0cdae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 27/30] fix: let antiparticles of charged mesons decay, too, so
 that all products are created

---
 library/SM.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 9820b6b..365d6a0 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -453,6 +453,14 @@ class particles(object):
         }
 
 
+def conjugated(parts, antiparts):
+    """ The decays of a meson and, if there is one, of its antiparticle """
+    decays = [antiparts]
+    if not parts[0].majorana:
+        decays.append([not part.majorana and not anti for part, anti in zip(parts, antiparts)])
+    return decays
+
+
 class interactions(object):
     """ Collection of Standard Model interactions double-triple-checked and used \
         in all tests for consistency. """
@@ -640,11 +648,11 @@ class interactions(object):
         return [CrossGeneratingInteraction(
             name="Meson decay",
             particles=((parts[0], ), (parts[1], parts[2], parts[3])),
-            antiparticles=((antiparts[0], ), (antiparts[1], antiparts[2], antiparts[3])),
+            antiparticles=((anti[0], ), (anti[1], anti[2], anti[3])),
             Ms=(WeakM(K=ME),),
             integral_type=FourParticleIntegral,
             kind=kind
-        )]
+        ) for anti in conjugated(parts, antiparts)]
 
     @staticmethod
     def three_particle_meson_decay(parts=None, antiparts=None, ME=None, kind=None):
@@ -652,11 +660,11 @@ class interactions(object):
         return [CrossGeneratingInteraction(
             name="Meson decay",
             particles=((parts[0], ), (parts[1], parts[2])),
-            antiparticles=((antiparts[0], ), (antiparts[1], antiparts[2])),
+            antiparticles=((anti[0], ), (anti[1], anti[2])),
             Ms=(ThreeParticleM(K=ME),),
             integral_type=ThreeParticleIntegral,
             kind=kind
-        )]
+        ) for anti in conjugated(parts, antiparts)]
 
     @classmethod
     def meson_interactions(cls, primary_mesons=None, mesons=None, leptons=None, neutrinos=None,
-- 
2.43.0


From a219b5c98e4c55ed2a92d75b7ba9e4dbb6c9b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 28/30] fix: create every one of several identical products of
 a decay

---
 common/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index b4a57ec..62717f1 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -369,7 +369,8 @@ def scaling(interaction, fullstack, constant):
         created = simps(fullstack * constant * dof * grid.TEMPLATE**2, grid.TEMPLATE)
         if created == 0.:
             return False
-        scaling = BR * interaction.reaction[-1].specie.num_creation / created
+        products = sum(item.specie == interaction.particle and not item.antiparticle for item in interaction.reaction[:-1])
+        scaling = products * BR * interaction.reaction[-1].specie.num_creation / created
         fullstack *= scaling
     return fullstack
 
-- 
2.43.0


From 6ecbd5e67f7075df204e043e07ce3b285b86308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:33 +0000
Subject: [PATCH 29/30] fix: let long-lived kaons decay into both signs of
 charge

---
 library/SM.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 365d6a0..710f947 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -149,8 +149,8 @@ class particles(object):
             'fast_decay': True,
             'lifetime': 5.116e-8 * UNITS.s,
             'BR': {
-                'πeν_e': 0.4055,
-                'πμν_μ': 0.2704,
+                'πeν_e': 0.4055 / 2, # for each sign of the charges
+                'πμν_μ': 0.2704 / 2,
                 'π0π0π0': 0.1952,
                 'πππ0': 0.1254
             }
@@ -809,14 +809,15 @@ class interactions(object):
                                                 neutrinos=neutrinos,
                                                 kind=kind)
 
-            inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
-                                                    antiparts=[False, True, False, True],
-                                                    ME=matrix_elements['KaonLPiPlusElecNue'],
-                                                    kind=kind)
-            inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
-                                                    antiparts=[False, True, False, True],
-                                                    ME=matrix_elements['KaonLPiPlusMuonNumu'],
-                                                    kind=kind)
+            for anti in [False, True]:
+                inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
+                                                        antiparts=[False, not anti, anti, not anti],
+                                                        ME=matrix_elements['KaonLPiPlusElecNue'],
+                                                        kind=kind)
+                inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
+                                                        antiparts=[False, not anti, anti, not anti],
+                                                        ME=matrix_elements['KaonLPiPlusMuonNumu'],
+                                                        kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, neutral_pion, neutral_pion, neutral_pion],
                                                     antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonLThreePi0'],
-- 
2.43.0


From adf0b377d7c376b2b023e5d45525241828d7fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 30/30] fix: let vector mesons decay into lighter sterile
 neutrinos at a positive rate

---
 library/NuMSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index 7d63921..c64d25b 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -405,7 +405,7 @@ class interactions(object):
             antiparticles=antiparticles,
             Ms=(ThreeParticleM(K=(CONST.G_F * theta * meson.decay_constant * kappa)**2
                                 * sterile.mass**4 * (1 + 2 * (meson.mass / sterile.mass)**2)
-                                * (1 - (meson.mass / sterile.mass)**2)), ),
+                                * np.abs(1 - (meson.mass / sterile.mass)**2)), ),
             integral_type=ThreeParticleIntegral,
             kind=kind
         ) for antiparticles in [
@@ -428,7 +428,7 @@ class interactions(object):
             particles=((sterile, ), (lepton, meson)),
             antiparticles=antiparticles,
             Ms=(ThreeParticleM(
-                K=2 * (CONST.G_F * theta * meson.decay_constant * CKM)**2 * sterile.mass**4 * (
+                K=2 * (CONST.G_F * theta * meson.decay_constant * CKM)**2 * sterile.mass**4 * np.abs(
                     (1 - (lepton.mass / sterile.mass)**2)**2 + (meson.mass / sterile.mass)**2
                     * (1 + (lepton.mass / sterile.mass)**2) - 2 * (meson.mass / sterile.mass)**4
                 )
-- 
2.43.0

