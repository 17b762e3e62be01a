From f0281b2986d1a0dd9af489dfefba41a829565342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 01/45] fix: benchmark_par_to_canonical does not modify the
 caller's parameters

The function stored IRzz and IFzz in the dictionary it was given, so computing
the canonical matrices changed the parameter set (and any file later saved from
it).
---
 bicycleparameters/bicycle.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..ddf9cf7 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -112,9 +112,10 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    # the wheels are axially symmetric
+    IRzz = p['IRxx']
+    IFzz = p['IFxx']
+    ITzz = (IRzz + p['IBzz'] + p['IHzz'] + IFzz +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -125,7 +126,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + IFzz + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From fb6da4983b341b625f4390b4da574c80c4e80fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 02/45] fix: mode sorting selects every eigenvalue exactly once

Only one of the already selected eigenvalues was excluded from the search for
the closest one, so a mode could appear twice and another be lost.
---
 bicycleparameters/bicycle.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index ddf9cf7..2ec317c 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -247,15 +247,14 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
-            evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
-            evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
+            # never select an already used index
+            for k in used:
+                dist[k] = np.inf
+            closest = np.argmin(dist)
+            evalsorg[i + 1, j] = evals[i + 1, closest]
+            evecsorg[i + 1, :, j] = evecs[i + 1, :, closest]
             # keep track of the indices we've used
-            used.append(np.argmin(dist))
+            used.append(closest)
 
     return evalsorg, evecsorg
 
@@ -320,15 +319,14 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
-            evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
-            evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
+            # never select an already used index
+            for k in used:
+                dist[k] = np.inf
+            closest = np.argmin(dist)
+            evalsorg[i + 1, j] = evals[i + 1, closest]
+            evecsorg[i + 1, :, j] = evecs[i + 1, :, closest]
             # keep track of the indices we've used
-            used.append(np.argmin(dist))
+            used.append(closest)
     weave = {'evals': evalsorg[:, 2:], 'evecs': evecsorg[:, :, 2:]}
     capsize = {'evals': evalsorg[:, 1], 'evecs': evecsorg[:, :, 1]}
     caster = {'evals': evalsorg[:, 0], 'evecs': evecsorg[:, :, 0]}
-- 
2.43.0


From 58cab141be59f094605e60bd38a08e928db675cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 03/45] fix: the leaning rider model has a unit for each of its
 twelve states

The last state had no unit, so zipping states with units dropped it from the
mode simulation plots.
---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..98a1295 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1273,7 +1273,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From 9dd69f84d5219c7450564fbd0fcf3e58d3595251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 04/45] fix: leaning rider simulations do not modify the
 caller's initial conditions

The wheel rate was written into the array the caller passed. An array valued
parameter is now also refused with the documented ValueError.
---
 bicycleparameters/models.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 98a1295..80deb03 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1457,7 +1457,11 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
+        if array_keys:
+            raise ValueError('Can only simulate with fixed parameters.')
+
         # u6 has to be consistent with v
+        initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
@@ -1509,12 +1513,6 @@ class MooreRiderLean2012Model(_Model):
            m.plot_simulation(times, x0, v=20.0)
 
         """
-        par, array_keys, array_len = self._parse_parameter_overrides(
-            **parameter_overrides)
-
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From bc947cbccb255a62fb1057bb6454d3322aebfe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 05/45] fix: eigenvector plots pair each eigenvector with its
 own eigenvalue

Transposing the stack of eigenvector matrices reversed all three axes, so for a
varied parameter rows, columns and parameter values were interchanged.
---
 bicycleparameters/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 80deb03..3519994 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -294,7 +294,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        if eval_seq.ndim == 1:
+            eval_seq, evec_seq = eval_seq[np.newaxis], evec_seq[np.newaxis]
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -333,7 +334,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -342,7 +343,7 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From 43450a90f3789d23b2a8f5de4b7567e5a7ac866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 06/45] fix: modal controllability works for fixed parameters

Sorting the modes needs a sequence of eigenvalue sets, so a query without an
array valued parameter failed.
---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 3519994..b751aa8 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -896,7 +896,8 @@ class Meijaard2007Model(_Model):
 
         _, B = self.form_state_space_matrices(**parameter_overrides)
         evals, evecs = self.calc_eigen(left=True, **parameter_overrides)
-        evals, evecs = sort_eigenmodes(evals, evecs)
+        if len(evals.shape) > 1:
+            evals, evecs = sort_eigenmodes(evals, evecs)
 
         def mod_cont(q, b, acute=True):
             """Returns the modal controllability value of the eigenvector q and
-- 
2.43.0


From f2fe2dc67f822982a42ef6b9ca888b31c78a5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 07/45] fix: eigenvalues of a single speed of any numeric type

Only a Python float was accepted as a single speed, an int or a numpy scalar
failed.
---
 bicycleparameters/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..d291465 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1178,10 +1178,7 @@ class Bicycle(object):
         model.
 
         '''
-        if isinstance(speeds, float):
-            speeds = np.array([speeds])
-        else:
-            speeds = np.asarray(speeds)
+        speeds = np.atleast_1d(speeds)
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
-- 
2.43.0


From 81f4834d1a6ae54ad1098cea620bafbf9662e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 08/45] fix: Moore2019 sets convert from their required
 parameters alone

The conversion read the derived values yD, yP and yH from the given
parameters, and the feedback target built a set without any gains.
---
 bicycleparameters/parameter_sets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..65e199d 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1099,6 +1099,11 @@ class Moore2019ParameterSet(ParameterSet):
 
         return pext
 
+    def _convert_to_benchmark(self):
+        p = self.parameters.copy()
+        p.update(self._calc_derived_params())
+        return _convert_principal_to_benchmark(p)
+
     def to_parameterization(self, name):
         """Returns a specific parameter set based on the provided
         parameterization name.
@@ -1134,13 +1139,13 @@ class Moore2019ParameterSet(ParameterSet):
         if name == self.parameterization:
             return self
         elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+            b = self._convert_to_benchmark()
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
+            b = self._convert_to_benchmark()
             # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
+            par_set = Meijaard2007ParameterSet(b, True)
             return par_set.to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
-- 
2.43.0


From 657bb0665c03e271a28765688fe8268533dd13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 09/45] fix: combine_bike_rider does not modify the caller's
 bicycle parameters

---
 bicycleparameters/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..86b5e75 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -51,7 +51,8 @@ def combine_bike_rider(bicyclePar, riderPar):
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
          parallel_axis(IBicycle, bicyclePar['mB'], dBicycle))
-    # assign new inertia back to bike
+    # assign new inertia to a copy of the bike
+    bicyclePar = bicyclePar.copy()
     bicyclePar['xB'] = cT[0]
     bicyclePar['zB'] = cT[2]
     bicyclePar['yB'] = 0.0
-- 
2.43.0


From 8963fbc1bf55b857822497496993e1dcdceb4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 10/45] fix: part_inertia_tensor accepts a set in which only
 some values are uncertain

The tensor's type was chosen from IBxx alone, so an uncertain inertia of
any other part could not be stored when IBxx was a plain float.
---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 86b5e75..bee2dbb 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -173,7 +173,7 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
+    if any(isinstance(val, UFloat) for val in par.values()):
         dtype = object
     else:
         dtype = 'float64'
-- 
2.43.0


From 7339167c191ad92f124dba5dafceb542fc9cb177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 11/45] fix: lambda_from_abc accepts plain floats as documented

---
 bicycleparameters/bicycle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 2ec317c..baa4b2c 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import umath, ufloat, nominal_value, std_dev
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -203,11 +203,14 @@ def lambda_from_abc(rF, rR, a, b, c):
     # that needs to be figured out. I guess I could use least squares and do it
     # the same way as get_period.
 
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
+    given = (rF, rR, a, b, c)
+    args = tuple(nominal_value(x) for x in given)
 
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    lam = newton(lam_equality, nominal_value(guess), args=args)
+    if all(x is y for x, y in zip(given, args)):
+        # nothing is uncertain
+        return lam
+    return ufloat(lam, std_dev(guess))
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From a4530ff398fffb56918c02b1f05191a806e50a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 12/45] fix: vec_project projects onto the plane normal to the
 direction

It subtracted the scalar product from every component and never accepted
an array direction.
---
 bicycleparameters/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..ae49874 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -340,10 +340,11 @@ def vec_project(vec, direction):
 
     '''
     vec = vec.flatten()
-    if type(direction) == int:
+    if isinstance(direction, (int, np.integer)):
         unitdir = np.zeros(3)
         unitdir[direction] = 1
-    elif type(direction) == np.array:
+    else:
+        direction = np.asarray(direction).flatten()
         unitdir = direction / np.linalg.norm(direction)
-    proj = vec - np.dot(vec, unitdir)
+    proj = vec - np.dot(vec, unitdir) * unitdir
     return proj.reshape((3, 1))
-- 
2.43.0


From ee78fd2c3feead1d1d3f41dff20c966f0e466b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 13/45] fix: two link angles are right when the far angle is
 obtuse

The inverse sine picked the acute angle at the end of the second link, so
the links did not reach D whenever L1**2 > L2**2 + D**2.
---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index ae49874..6379ded 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -154,7 +154,7 @@ def calc_two_link_angles(L1, L2, D):
     '''
 
     theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
-    theta2 = theta1 + np.arcsin(L1 / L2 * np.sin(theta1))
+    theta2 = np.pi - np.arccos((L1**2 + L2**2 - D**2) / (2.0 * L1 * L2))
 
     return theta1, theta2
 
-- 
2.43.0


From 6fa00c400b0da7f0f39ea7b35076488c184639e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 14/45] fix: pendulum lines are ordered by orientation number

The tenth orientation sorted before the second one as text, while the
inertia calculation pairs the lines with periods numbered 1 to n.
---
 bicycleparameters/com.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 6eba9f4..ff795fc 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -197,7 +197,7 @@ def part_com_lines(mp, par, forkIsSplit):
 
     # get the alpha keys and put them in order
     listOfAlphaKeys = [x for x in mp.keys() if x.startswith('alpha')]
-    listOfAlphaKeys.sort()
+    listOfAlphaKeys.sort(key=lambda x: (x[:6], int(x[6:])))
 
     # caluclate m, b and beta for each orientation
     for key in listOfAlphaKeys:
-- 
2.43.0


From c50a8ff6b6b67b362506624061e56ff340cd0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 15/45] fix: combine_bike_rider shifts the bicycle to the
 combined mass centre

The lateral distance of the bicycle from the combined mass centre was
taken as zero even when the rider sits off the plane of symmetry.
---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index bee2dbb..1dad9fd 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -46,7 +46,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        riderPar['yB'] - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         -cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From 8842f04467f8000ebc0277e1e4cdbf90114e809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 16/45] fix: LaTeX symbols name the parameter they belong to

---
 bicycleparameters/parameter_sets.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 65e199d..4965094 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1024,7 +1024,7 @@ class Moore2019ParameterSet(ParameterSet):
         'kRbb': r'k_{Rbb}',
         'yD': r'y_D',
         'yF': r'y_F',
-        'yH': r'y-H',
+        'yH': r'y_H',
         'yP': r'y_P',
         'yR': r'y_R',
         'zR': r'z_R',
@@ -1057,7 +1057,7 @@ class Moore2019ParameterSet(ParameterSet):
         'mD': r'm_D',
         'mF': r'm_F',
         'mH': r'm_H',
-        'mP': r'm_B',
+        'mP': r'm_P',
         'mR': r'm_R',
         'rF': r'r_F',
         'rR': r'r_R',
@@ -1068,7 +1068,7 @@ class Moore2019ParameterSet(ParameterSet):
         'xH': r'x_H',
         'xP': r'x_P',
         'zD': r'z_D',
-        'zH': r'z-H',
+        'zH': r'z_H',
         'zP': r'z_P',
     }
 
@@ -1686,7 +1686,7 @@ class Moore2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
@@ -1790,7 +1790,7 @@ class MooreRiderLean2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
-- 
2.43.0


From f7368d74913f839845a9411b5e8021c9238b3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 17/45] fix: creating a table twice gave different text

---
 bicycleparameters/tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..afca4b1 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -81,12 +81,13 @@ class Table():
 
         """
 
-        table = self.tableData
+        # the text is built from a copy so that it can be generated again
+        table = [list(row) for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
-            for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+            for row in table:
+                row[0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From 2e9cba3d9566b698a29353b14aeb36b20f273f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 18/45] fix: rounding failed for values with zero uncertainty

---
 bicycleparameters/tables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index afca4b1..0117fc3 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -245,6 +245,9 @@ def uround(value):
                 else:
                     digit = j
                     break
+            else:
+                # smaller than what is printed, or zero
+                digit = len(s) - 1
             newUncert = round(uncert, digit - 1)
             newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
             newNom = round(nom, len(newUncertStr) - 2)
-- 
2.43.0


From 8f68139fa3f8bda62bb33719ece6948275306533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 19/45] fix: writing parameters to a bare file name failed

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..fff2856 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -135,7 +135,7 @@ def write_parameter_text_file(pathToTxtFile, parDict):
 
     # make the Parameters directory if it doesn't exist
     head, tail = os.path.split(pathToTxtFile)
-    if not os.path.isdir(head):
+    if head and not os.path.isdir(head):
         print("Created direcotry %s" % head)
         os.makedirs(head)
 
-- 
2.43.0


From 08df55c0e1ffdf3833e9ee1f057be5d2cdddd40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 20/45] fix: first period was appended to an unterminated last
 line

---
 bicycleparameters/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index fff2856..c553e0c 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -206,6 +206,9 @@ def write_periods_to_file(pathToRawFile, mp):
         if not line.startswith('T'):
             baseData += line
     f.close()
+    # the last line may not be terminated
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
     # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
-- 
2.43.0


From be450c5e4d7ff6c100b0d37502ec878cd51cedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 21/45] fix: blank lines and indented comments in parameter
 files failed

---
 bicycleparameters/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index c553e0c..cacc2cc 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -56,11 +56,12 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove comments and any surrounding whitespace characters
+            content = line.split('#')[0].strip()
+            # ignore lines that only hold a comment or nothing
+            if content:
+                # split the right and left side of the equality
+                equality = content.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From ad761ed9153eaf36c304cb8c6c0dd9cffcfb2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 22/45] fix: file names accumulated when saving several
 parameter sets

---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index d291465..458616e 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -203,11 +203,11 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
-                pathToTxtFile = os.path.join(pathToParDir, fileName)
+                psetFileName = fileName + pset + '.txt'
+                pathToTxtFile = os.path.join(pathToParDir, psetFileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-                    pathToCombFile = os.path.join(pathToCombDir, fileName)
+                    pathToCombFile = os.path.join(pathToCombDir, psetFileName)
                     io.write_parameter_text_file(pathToCombFile,
                                                  self.parameters[pset])
 
-- 
2.43.0


From a30eec4c9571f25736a854fb1e2173d680f5f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 23/45] fix: periods without pendulum data were deleted from
 the measurement file

---
 bicycleparameters/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 458616e..3ab546d 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -405,7 +405,8 @@ class Bicycle(object):
             # add the periods to the measured parameters
             self.parameters['Measured'].update(periods)
 
-            io.write_periods_to_file(pathToRawFile, periods)
+            io.write_periods_to_file(pathToRawFile,
+                                     self.parameters['Measured'])
 
         return calculate_benchmark_from_measured(self.parameters['Measured'])
 
-- 
2.43.0


From 0669dae43e89a732bc0a6b048dab634c3e1c363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 24/45] fix: indented period lines stayed beside the new ones

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index cacc2cc..3fe0191 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -204,7 +204,7 @@ def write_periods_to_file(pathToRawFile, mp):
     f = open(pathToRawFile, 'r')
     baseData = ''
     for line in f:
-        if not line.startswith('T'):
+        if not line.lstrip().startswith('T'):
             baseData += line
     f.close()
     # the last line may not be terminated
-- 
2.43.0


From 7a2a2add3baac8faf4dd933db89454633f6aa921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 25/45] fix: the explanation file of the app was never closed

---
 bicycleparameters/app.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..a7f2d17 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -37,6 +37,9 @@ PATH_TO_THIS_FILE = os.path.dirname(os.path.abspath(__file__))
 PATH_TO_APP_DATA = os.path.join(PATH_TO_THIS_FILE, 'app-data')
 PATH_TO_ASSETS = os.path.join(PATH_TO_THIS_FILE, 'assets')
 
+with open(os.path.join(PATH_TO_ASSETS, 'app-explanation.md')) as f:
+    APP_EXPLANATION = f.read()
+
 # list of all the whipple-carvallo parameters
 
 par_list = ['rF', 'mF', 'IFxx', 'IFyy', 'rR', 'mR', 'IRxx', 'IRyy',
@@ -235,7 +238,7 @@ app.layout = html.Div([
                                        lg=8,
                                        align='end')],
                               className="my-2"),
-                      dbc.Row([dbc.Col(dcc.Markdown(open(os.path.join(PATH_TO_ASSETS, 'app-explanation.md')).read()),
+                      dbc.Row([dbc.Col(dcc.Markdown(APP_EXPLANATION),
                                        width='auto',
                                        className='my-2')
                                ])
-- 
2.43.0


From 2da61fd35620e9aee4fa6ebceece3637a424c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 26/45] fix: measurements lacking a needed period were taken as
 complete

---
 bicycleparameters/period.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index f37fddc..b4b8c54 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -151,25 +151,20 @@ def check_for_period(mp, forkIsSplit):
         fork and handlebar was measured together.
 
     '''
-    forcePeriodCalc = False
-    # Check to see if mp contains at enough periods to not need
-    # recalculation
-    ncTSum = 0
-    ntTSum = 0
-    for key in mp.keys():
-        # check for any periods in the keys
-        if key[:2] == 'Tc':
-            ncTSum += 1
-        elif key[:2] == 'Tt':
-            ntTSum += 1
-
-    # if there isn't enough data then force the period cals again
+    # the wheels, the rear frame and the calibration rod are always needed
+    needed = ['TcB1', 'TcF1', 'TcR1', 'TtF1', 'TtR1', 'TtP1']
     if forkIsSplit:
-        if ncTSum < 5 or ntTSum < 11:
-            forcePeriodCalc = True
+        needed += ['TcS1', 'TcG1']
     else:
-        if ncTSum < 4 or ntTSum < 8:
-            forcePeriodCalc = True
+        needed += ['TcH1']
+    # the front wheel with the flywheel inside
+    if 'mD' in mp:
+        needed += ['TcD1', 'TtD1']
+    # one torsional pendulum for each orientation of the frame and fork parts
+    needed += ['Tt' + key[5:] for key in mp.keys() if key.startswith('alpha')]
+
+    # if any is missing then force the period calcs again
+    forcePeriodCalc = any(key not in mp for key in needed)
 
     return forcePeriodCalc
 
-- 
2.43.0


From 3517b1bd7d2bd86ab7e5a9c76cb841f775b4ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 27/45] fix: steer axis tilt was cut to whole degrees in the
 web app

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index a7f2d17..4dd554d 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -317,7 +317,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': float(degrees)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From a0b09b1da3455a044f7fd6502ac540e50ac72a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 28/45] fix: geometry and eigenvalue figures were sent to each
 other's panel

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index 4dd554d..0b64592 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -399,7 +399,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     eigen_plot = Bike._plot_eigenvalues_vs_speed_plotly(
         speeds, show=False, stability_region=stability_option)
 
-    return eigen_plot, geo_plot
+    return geo_plot, eigen_plot
 
 
 # sets loading notification for the geometry plot
-- 
2.43.0


From d23750c1f1c4c1584f7bb945504e89c5fa50e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 29/45] fix: inertia ellipsoids were drawn at half their size

---
 bicycleparameters/parameter_sets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 4965094..543c978 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -781,8 +781,9 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # full width and height, i.e. twice the semi-axes
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1471,8 +1472,9 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # full width and height, i.e. twice the semi-axes
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From c5d060daf403e3b1790cf0e1676c856d0fadf59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 30/45] fix: inertia ellipses could use the wrong axis and were
 mirrored for some products of inertia

---
 bicycleparameters/main.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 3ab546d..67dcf94 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -556,10 +556,7 @@ class Bicycle(object):
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
                 # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(C[:, 1]))
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -575,7 +572,7 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.degrees(np.arctan2(C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
@@ -785,12 +782,9 @@ class Bicycle(object):
                     center = np.array([par['w'], par['rF']])
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
-                    # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
-                    # remove the row for the y vector
+                # which row in C is the y vector
+                yrow = np.argmax(np.abs(C[:, 1]))
+                # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
                 C2D = np.delete(np.delete(C, yrow, 0), 1, 1)
@@ -805,7 +799,7 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.degrees(np.arctan2(C2D[0, 1], C2D[0, 0]))
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
-- 
2.43.0


From bb7ff314f024be205f2a06c46d04a0e7966ecf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 31/45] fix: inertia ellipses of the plotly figure were rotated
 arbitrarily

---
 bicycleparameters/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 67dcf94..d480356 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -800,13 +800,14 @@ class Bicycle(object):
                 width = Imax * unitWidth
                 height = Imax * unitHeight
                 angle = -np.degrees(np.arctan2(C2D[0, 1], C2D[0, 0]))
+                angle = np.deg2rad(angle)
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width, b=height, N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From 772bc3e3329c22827fd4a7496932b7c8f3c2d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 32/45] fix: plotly eigenvalue figure failed for a given figure
 and for the largest eigenvalue

---
 bicycleparameters/main.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index d480356..320de38 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1338,18 +1338,24 @@ class Bicycle(object):
         speeds = np.sort(speeds)
         if fig is None:
             fig = go.Figure(layout_yaxis_range=[-10, 10])
-            evals, evecs = self.eig(speeds)
+
+        evals, evecs = self.eig(speeds)
 
         if largest:
-            fig.add_trace(go.Scatter(x=speeds, y=np.max(evals)))
-            fig.show()
-        else:
-            w, cap, cas = bicycle.sort_modes(evals, evecs)
-            colors_eig = px.colors.qualitative.Pastel
-            weaveColor1 = colors_eig[0]
-            weaveColor2 = colors_eig[1]
-            capsizeColor = colors_eig[2]
-            casterColor = colors_eig[5]
+            fig.add_trace(go.Scatter(x=speeds,
+                                     y=np.max(np.real(evals), axis=1),
+                                     mode='lines',
+                                     name='Max Eigenvalue'))
+            if show:
+                fig.show()
+            return fig
+
+        w, cap, cas = bicycle.sort_modes(evals, evecs)
+        colors_eig = px.colors.qualitative.Pastel
+        weaveColor1 = colors_eig[0]
+        weaveColor2 = colors_eig[1]
+        capsizeColor = colors_eig[2]
+        casterColor = colors_eig[5]
         wea1 = w['evals'][:, 0]
         wea2 = w['evals'][:, 1]
         fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
-- 
2.43.0


From 46de63a3ca4dd9233914942cf0ee3020d6cb0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 33/45] fix: plotly eigenvalue figure failed for bicycles that
 are never stable

---
 bicycleparameters/main.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 320de38..a96b9c8 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1409,10 +1409,8 @@ class Bicycle(object):
                                   max(speeds[np.real(cas['evals']) < 0]),
                                   max(speeds[np.real(cap['evals']) < 0]),
                                   max(speeds[np.real(wea1) < 0])])
-            except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
+            except (ValueError, TypeError):  # a mode is never stable
+                v_start_stab, v_end_stab = np.inf, -np.inf
             if (v_start_stab > v_end_stab):
                 fig.add_annotation(x=0.5*max(speeds), y=9,
                                    text="No stability region",
-- 
2.43.0


From a505173a0ab8d873cb2c7ff42036881871416053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 34/45] fix: mode simulations plotted in degrees were labelled
 in radians

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index b751aa8..98b3083 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -542,7 +542,8 @@ class _Model(abc.ABC):
                 else:
                     fontcolor = 'black'
                 for j, unit in enumerate(unique_units):
-                    axes[i, j].set_ylabel('[{}]'.format(unit))
+                    axes[i, j].set_ylabel(
+                        '[{}]'.format(unit.replace('rad', 'deg')))
                     axes[i, j].set_title(msg.format(e_val),
                                          fontdict={'color': fontcolor})
                     axes[i, j].legend()
-- 
2.43.0


From d630762e22cd5d60240dbcfbefe9f2f70ee95634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 35/45] fix: eigenvector and mode plots failed when a single
 mode is shown

---
 bicycleparameters/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 98b3083..6af6097 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -323,8 +323,7 @@ class _Model(abc.ABC):
         fig, axes = plt.subplots(eval_seq.shape[0],
                                  np.count_nonzero(plot),
                                  subplot_kw={'projection': 'polar'},
-                                 layout='constrained')
-        axes = np.atleast_2d(axes)
+                                 layout='constrained', squeeze=False)
         fig.set_size_inches(axes.shape[1]*3, axes.shape[0]*3)
         lw = list(range(1, len(self.state_vars) + 1))
         lw.reverse()
@@ -523,7 +522,7 @@ class _Model(abc.ABC):
                                  len(unique_units), sharex=True,
                                  figsize=(len(unique_units)*3.0,
                                           np.count_nonzero(plot)*2.0),
-                                 layout='constrained')
+                                 layout='constrained', squeeze=False)
 
         i = 0
         for res, e_val, pl in zip(results, evals, plot):
-- 
2.43.0


From 59a40974a9e54e43259acf4930aa2bec604ab390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 36/45] fix: mass of the handlebar of the app's Rigid bicycle
 disagreed with its measurement

---
 .../app-data/bicycles/Rigid/Parameters/RigidBenchmark.txt       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app-data/bicycles/Rigid/Parameters/RigidBenchmark.txt b/bicycleparameters/app-data/bicycles/Rigid/Parameters/RigidBenchmark.txt
index a392e06..3404d78 100644
--- a/bicycleparameters/app-data/bicycles/Rigid/Parameters/RigidBenchmark.txt
+++ b/bicycleparameters/app-data/bicycles/Rigid/Parameters/RigidBenchmark.txt
@@ -23,7 +23,7 @@ g = 9.81+/-0.01
 lam = 0.317489078499+/-0.000324568695876
 mB = 22.9+/-0.01
 mF = 1.6+/-0.01
-mG = 3.6+/-0.01
+mG = 3.4+/-0.01
 mH = 5.4+/-0.0141421356237
 mR = 4.9+/-0.01
 mS = 2.1+/-0.01
-- 
2.43.0


From 43274d173c1a7398e4e41d93fc516c46024937bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 37/45] fix: rider flag was lost in YAML files and Moore2012
 sets could not be read

---
 bicycleparameters/parameter_sets.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 543c978..ae23b1c 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -185,7 +185,7 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
+            'rider': getattr(self, 'includes_rider', None),
             'values': self.parameters,
         }
         with open(fname, 'w') as f:
@@ -1715,6 +1715,14 @@ class Moore2012ParameterSet(ParameterSet):
         self.includes_rider = includes_rider
         self._generate_body_colors()
 
+    @classmethod
+    def _from_yaml(cls, path_to_file):
+
+        with open(os.path.join(path_to_file), 'r') as f:
+            yaml_data = yaml.load(f, Loader=yaml.FullLoader)
+
+        return cls(yaml_data['values'], yaml_data['rider'])
+
 
 class MooreRiderLean2012ParameterSet(ParameterSet):
     """Represents the parameters of the Carvallo-Whipple model with a leaning
-- 
2.43.0


From a1bb76842a63cefaba2352bb1c3e04bb41215662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:05 +0000
Subject: [PATCH 38/45] fix: YAML files of converted parameter sets could not
 be read back

---
 bicycleparameters/parameter_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index ae23b1c..e3bde26 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -186,7 +186,8 @@ class ParameterSet(ABC):
             'parameterization': self.parameterization,
             'parameters': '',
             'rider': getattr(self, 'includes_rider', None),
-            'values': self.parameters,
+            # NumPy scalars have no YAML representation
+            'values': {k: float(v) for k, v in self.parameters.items()},
         }
         with open(fname, 'w') as f:
             yaml.dump(data, f)
-- 
2.43.0


From ea54116b28118c1f9026b476ea1a3d5668bbb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 39/45] fix: eigenvalue plot without a swept parameter failed
 on a missing legend

---
 bicycleparameters/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 6af6097..ad95407 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -197,6 +197,8 @@ class _Model(abc.ABC):
 
         par, array_keys, _ = self._parse_parameter_overrides(
             **parameter_overrides)
+        if len(array_keys) == 0:
+            raise ValueError('No x axis key. Set one parameter as an array.')
 
         if show_stable_regions:
             ax.fill_between(par[array_keys[0]],
-- 
2.43.0


From 45b58ee96783ee1b08b097960f84d5972b2e5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:36 +0000
Subject: [PATCH 40/45] fix: cutting a recording failed when no sample exceeded
 the threshold

---
 bicycleparameters/period.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index b4b8c54..04dac8d 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -511,6 +511,7 @@ def select_good_data(data, percent):
     meanSub = data - np.mean(data)
     maxVal = np.max(np.abs(meanSub))
     maxInd = np.argmax(np.abs(meanSub))
+    minInd = len(meanSub)
     for i, v in reversed(list(enumerate(meanSub))):
         if v > percent * maxVal:
             minInd = i
-- 
2.43.0


From cac35763ce2095b52e417382d7fa6240bc1a34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 41/45] fix: table of a single bicycle failed on a missing
 attribute

---
 bicycleparameters/tables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 0117fc3..d62e4b4 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -32,10 +32,12 @@ class Table():
         # generate a complete list of the variables
         allVariables = []
         try:
-            for bicycle in self.bicycles:
-                allVariables += bicycle.parameters[self.source].keys()
+            iter(self.bicycles)
         except TypeError:
-            allVariables += self.bicycle.parameters[self.source].keys()
+            # a single bicycle was given
+            self.bicycles = (self.bicycles,)
+        for bicycle in self.bicycles:
+            allVariables += bicycle.parameters[self.source].keys()
         # remove duplicates and sort
         self.allVariables = sorted(list(set(allVariables)), key=lambda x:
                                    x.lower())
-- 
2.43.0


From 58cc15ea0ae2f6146d85f1fab3de14dc3fdc37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 42/45] fix: uncertainties could not be removed from lists
 holding plain numbers

---
 bicycleparameters/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 3fe0191..aa127e3 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -3,7 +3,7 @@
 import re
 import os
 import numpy as np
-from uncertainties import ufloat_fromstr
+from uncertainties import nominal_value, ufloat_fromstr
 from scipy.io import loadmat
 
 
@@ -110,7 +110,7 @@ def remove_uncertainties(dictionary):
         except AttributeError:
             # this is the case if the value is an array of ufloats
             try:
-                noUncert[k] = [x.nominal_value for x in v]
+                noUncert[k] = [nominal_value(x) for x in v]
             except TypeError:
                 # this is the case if the value is a float
                 noUncert[k] = v
-- 
2.43.0


From a9ed310da721dad5cd03ad4459293c408223f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 43/45] fix: steer axis tilt lost the uncertainty of the wheel
 radii

---
 bicycleparameters/bicycle.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index baa4b2c..fcd406b 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from scipy.optimize import newton
-from uncertainties import umath, ufloat, nominal_value, std_dev
+from uncertainties import umath, nominal_value
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -196,21 +196,14 @@ def lambda_from_abc(rF, rR, a, b, c):
         return umath.sin(lam) - (rF - rR + c * umath.cos(lam)) / (a + b)
     guess = umath.atan(c / (a + b))  # guess based on equal wheel radii
 
-    # The following assumes that the uncertainty calculated for the guess is
-    # the same as the uncertainty for the true solution. This is not true! and
-    # will surely breakdown the further the guess is away from the true
-    # solution. There may be a way to calculate the correct uncertainity, but
-    # that needs to be figured out. I guess I could use least squares and do it
-    # the same way as get_period.
-
     given = (rF, rR, a, b, c)
     args = tuple(nominal_value(x) for x in given)
 
     lam = newton(lam_equality, nominal_value(guess), args=args)
-    if all(x is y for x, y in zip(given, args)):
-        # nothing is uncertain
-        return lam
-    return ufloat(lam, std_dev(guess))
+    # the uncertainty of the root follows from the uncertainty of the equation
+    # it solves: d(lam) = -d(lam_equality)/(d(lam_equality)/d(lam))
+    slope = umath.cos(lam) + args[4]*umath.sin(lam)/(args[2] + args[3])
+    return lam - lam_equality(lam, *given)/slope
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From b2459a1bab3bf1336de3c4412bdd7b59b66764f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:54 +0000
Subject: [PATCH 44/45] fix: rounding failed for uncertainties of one and
 larger

---
 bicycleparameters/tables.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index d62e4b4..f2f17ba 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -225,7 +225,7 @@ def uround(value):
 
     2.4564+/-0.0004
 
-    This probably doesn't work for weird cases like large uncertainties.
+    The uncertainty keeps one significant digit, also if it is one or larger.
 
     '''
     try:
@@ -250,13 +250,12 @@ def uround(value):
             else:
                 # smaller than what is printed, or zero
                 digit = len(s) - 1
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # decimal place of that character, negative for tens and above
+            place = digit - s.index('.')
+            if place < 0:
+                place += 1
+            template = '%.' + str(max(place, 0)) + 'f'
+            newUncertStr = template % round(uncert, place)
+            newNomStr = template % round(nom, place)
+            s = newNomStr + '+/-' + newUncertStr
     return s
-- 
2.43.0


From 547ebeaead1517e2f6bb30dcdd2687e50ab19d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:54 +0000
Subject: [PATCH 45/45] fix: uncertainty of a value of zero was dropped in
 tables

---
 bicycleparameters/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index f2f17ba..fd69cb5 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -235,7 +235,7 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
+        if abs(nom) < 1e-15 and uncert < 1e-15:
             s = '0.0+/-0.0'
         else:
             # convert the uncertainty to a string
-- 
2.43.0

