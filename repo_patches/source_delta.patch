From 30fc06c4798c9e4c9c6ef09750d85acfd22ecd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 01/33] fix: pseudo_potential raises ValueError above fourth
 order

---
 electrode/system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index dd1af20..a66b20f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -289,6 +289,9 @@ class System(list):
             Pseudopotential derivative. Fully expanded since this is not
             generally harmonic.
         """
+        if derivative > 4:
+            raise ValueError("only know how to generate pseudopotentials "
+                "up to 4th order")
         try:
             p = [self.rf_coeff*self.electrical_potential(x, i, "rf", 
                 expand=True) for i in range(1, derivative+2)]
-- 
2.43.0


From abc37e16ba844a9aeb83af30b0a181a473d78820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 02/33] fix: mathieu works without the removed np.complex alias

---
 electrode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 8fff71a..046ce89 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -568,7 +568,7 @@ def mathieu(r, *a):
       (see numpy.linalg.eig())
     """
     n = a[0].shape[0]
-    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex)
+    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=complex)
     for l in range(2*r+1):
         # derivative on the diagonal
         m[l, l, 0, 0] = m[l, l, 1, 1] = np.identity(n)*2j*(l-r)
-- 
2.43.0


From 78515f21667f0dca539901ec18f78c45ac32021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 03/33] fix: characteristic exponents without the removed
 np.complex alias

---
 electrode/mathieu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index c1de6bb..9bdaf8f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -33,7 +33,7 @@ class Mathieu():
         # print(d0)
         rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
         if rhs < 0 or rhs > 1:
-            nu = 2./np.pi*np.arcsinh(np.sqrt(np.complex(-rhs)))    # In fact, this is mu.
+            nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = 2./np.pi*np.arcsin(np.sqrt(rhs))   # mu = j*nu
@@ -82,7 +82,7 @@ class Mathieu():
             t_eval = None
         sol = solve_ivp(func,[0.,np.pi],[1.,0.],method=method,t_eval=t_eval)
         if np.abs(sol.y[0,-1]) > 1.:
-            nu = np.arccosh(np.complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
+            nu = np.arccosh(complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = np.arccos(sol.y[0,-1])/np.pi   # mu = j*nu
-- 
2.43.0


From 40a4be3fc59fcc1da65538db983db253a150bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 04/33] fix: init_value returns both superposition coefficients

---
 electrode/mathieu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 9bdaf8f..364f3f2 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -349,7 +349,7 @@ class Mathieu():
             den = self.sol_y1(t0,0)*self.sol_y2(t0,1)-self.sol_y1(t0,1)*self.sol_y2(t0,0)
             A = (y0[0]*self.sol_y2(t0,1)-y0[1]*self.sol_y2(t0,0))/den
             B = -(y0[0]*self.sol_y1(t0,1)-y0[1]*self.sol_y1(t0,0))/den
-            return np.array(A,B)
+            return np.array([A,B])
 
     def sol_plot():
         pass
\ No newline at end of file
-- 
2.43.0


From 527f1ddd5f69b838d34fa7f3639678ada27ad350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 05/33] fix: SphericalHarmonics without the removed np.int
 alias

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index ed73be5..69b3639 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -93,7 +93,7 @@ class SphericalHarmonics(object):
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
         self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
-        self.n, self.m = np.empty((2, nmax, nmax), np.int)
+        self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
         ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
-- 
2.43.0


From 7fdd6c63cce7ac2c67bd0ac03b9a166ce3d39a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 06/33] fix: saddle rotates gradient and hessian into the
 coordinate system

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index a66b20f..6d9866b 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -568,9 +568,9 @@ class System(list):
         def g(xi):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
-                    coord.T)[0, axis]
+                    coord)[0, axis]
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord.T)[0, axis][:, axis]
+                coord)[0, axis][:, axis]
         # rational function optimization
         xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
-- 
2.43.0


From 3de2ae6f1882bee93532f96dbeaa867e3b795245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 07/33] fix: solve sums the objectives of all local constraints

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 6d9866b..e02c443 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -749,7 +749,7 @@ class System(list):
         ctrs = []
         for ci, vi in zip(local_constraints, variables):
             for cj in ci:
-                obj = sum(coef*val for coef, val in cj.objective(self, vi))
+                obj += sum(coef*val for coef, val in cj.objective(self, vi))
                 ctrs.extend(cj.constraints(self, vi))
         for ci in global_constraints:
             obj += sum(coef*val for coef, val in ci.objective(self, variables))
-- 
2.43.0


From a090a9ead7279d71cace2b105a344b30621700d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 08/33] fix: optimize drops a redundant objective equation
 instead of the last one

---
 electrode/system.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index e02c443..4af2f21 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -798,8 +798,10 @@ class System(list):
         g2 = np.inner(g, g)
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
-        #FIXME: there is one singular value, drop one line
-        B1 = B1[:-1]
+        # there is one singular value with this left null vector, drop
+        # a line that depends on the others
+        u = np.dot(Bp.T, g)
+        B1 = np.delete(B1, np.argmax(np.fabs(u)), axis=0)
         # B*g_perp*p == 0
         ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
-- 
2.43.0


From 36e83c54eb25778d4a6ef9564482a3323240e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 09/33] fix: group uses the unique voltages as default
 thresholds

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 4af2f21..7b0ca42 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -836,7 +836,7 @@ class System(list):
         if voltages is None:
             voltages = self.dcs
         if thresholds is None:
-            threshold = sorted(np.unique(voltages))
+            thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
         eles = []
         for i, (ta, tb) in enumerate(zip(ts[:-1], ts[1:])):
-- 
2.43.0


From 65c0180ec88907979f143eb3bac0320224e3d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 10/33] fix: group accepts any array_like voltages

---
 electrode/system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/system.py b/electrode/system.py
index 7b0ca42..7dd8882 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -835,6 +835,7 @@ class System(list):
         """
         if voltages is None:
             voltages = self.dcs
+        voltages = np.asanyarray(voltages)
         if thresholds is None:
             thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
-- 
2.43.0


From 3a89131a2a75279be3d66adf14a286414ad46421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 11/33] fix: xic_to_list skips blank lines and parses numbers

---
 electrode/xic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 76111ba..6613695 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -30,16 +30,16 @@ def xic_to_list(xic):
     es = []
     for line in xic:
         line = line.rstrip()
-        if line[0] == "P":
+        if not line:
+            pass
+        elif line[0] == "P":
             p = [line.split()[1:]]
         elif line[0] == " ":
             if not line.endswith(";"):
                 p.append(line.split())
             else:
                 p.append(line[:-1].split())
-                es.append(np.array([map(float, i) for i in p])*1e-8)
-        elif not line.strip():
-            pass
+                es.append(np.array([list(map(float, i)) for i in p])*1e-8)
         else:
             pass # print line
     return es
-- 
2.43.0


From 9b5e18e308d5adef313ffbfe94d519fcc930aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 12/33] fix: Adjust.set_move_init accepts arrays

---
 electrode/adjust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 6e62639..50325f6 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -35,14 +35,14 @@ class Adjust():
 
 		# minimum xm
 		# system.minimum() still has some problem, if it appears, you can manually input xm.
-		if xm == None:
+		if xm is None:
 			xi = (0.,0.,0.)
 			xm = self.system.minimum(xi)
 		self.xms = [np.array(xm)]
 
 		# eigenvector -> bases
 		evalue, evector = self.system.modes(xm)
-		if axis_order == None:
+		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
 			axis_order = evector[0].argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
-- 
2.43.0


From 58e6ab954218f85cecd923bf4c6e1ef3cb4f55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 13/33] fix: Adjust.next_step accepts own steps and restores
 voltages on rejection

---
 electrode/adjust.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 50325f6..f2b0261 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -142,26 +142,26 @@ class Adjust():
 		# Pay attention, if you have used propose_move() or xm_freq_change(), the deltaV have been applied
 		# to system.
 
-		if deltaV == None:
+		userown = deltaV is not None    # user own deltaV
+		if not userown:
 			try:
 				deltaV, xm_new, evalue = self._propose
-				userown = False    # user own deltaV
 			except AttributeError:
 				warnings.warn("Propose a volt_change() first.")
 
 		if accept:
+			if userown:
+				xm_new, _, evalue, _, _ = self.xm_freq_change(deltaV)
 			config = self.construct_config(deltaV)
 			self.set_volts(config, save=True)
-			if userown:
-				xm_new, evalue = self.xm_freq_change(deltaV)[[0,2]]
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
 		else:
 			# reset voltages back to erase the change due to xm_freq_change()
-			self.set_volts(self.Volts[-1])		
+			self.set_volts({ele: self.volts[ele][-1] for ele in self.volts})
 			# print("Stay")
 
-		del self._propose
+		self.__dict__.pop("_propose", None)
 		return 0
 
-- 
2.43.0


From b8c6a265fada0c25148642f7220993ea553229f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 14/33] fix: optimize handles a single objective

---
 electrode/system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 7dd8882..4924223 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -802,8 +802,9 @@ class System(list):
         # a line that depends on the others
         u = np.dot(Bp.T, g)
         B1 = np.delete(B1, np.argmax(np.fabs(u)), axis=0)
-        # B*g_perp*p == 0
-        ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
+        # B*g_perp*p == 0, nothing remains for a single objective
+        if len(B1):
+            ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
         solver = self._run_cvxopt(-obj, ctrs, verbose, **kwargs)
 
-- 
2.43.0


From 1034bb2bdcb738e3e850b85654a6006e8b77fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 15/33] fix: minimum and saddle accept integer start points

The coordinates under search were stored in an array of the type of x0
and thus truncated when x0 was given as integers.
---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 4924223..d1019b7 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -512,7 +512,7 @@ class System(list):
         --------
         scipy.optimize.minimize
         """
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -560,7 +560,7 @@ class System(list):
         """
         kwargs = dict(dx_max=.1, xtol=1e-5, ftol=1e-5)
         kwargs.update(kw)
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
-- 
2.43.0


From 224512b305ba0842fb723cbc352eed3e8f6e388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 16/33] fix: shims nulls the other extra objectives from the
 start

The values of the additional objectives were only zero after their own
row had been solved.
---
 electrode/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index d1019b7..240584f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -694,6 +694,8 @@ class System(list):
             constraints = [PatternRangeConstraint(min=-1, max=1)]
         vectors = np.empty((len(obj), len(self)),
                 np.double)
+        for objective in obj:
+            objective.value = 0
         for i, objective in enumerate(obj):
             objective.value = 1
             p, c = self.optimize(constraints+obj, verbose=False,
-- 
2.43.0


From 7292406725ef8f8a013f6a7db016f3dfbb96e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 17/33] fix: Grid.to_xyz raised ValueError unless all sides had
 the same number of points

---
 electrode/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 340d88c..02ecd0c 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -54,8 +54,8 @@ class Grid():
 
     def to_xyz(self):
         """ Create ndarrays of x, y, z"""
-        xyz = np.array([np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
-                for c, s, h in zip(self.center, self.step, self.shape)])
+        xyz = [np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
+                for c, s, h in zip(self.center, self.step, self.shape)]
         return xyz
 
     def indices_to_coordinates(self, idx):
-- 
2.43.0


From d1d6f50890ee5e5c4560db81bc5dd945ff9c8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 18/33] fix: SphericalHarmonics could not be built for nmax > 1
 (integer -1 to negative powers)

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 69b3639..e1da859 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -101,7 +101,7 @@ class SphericalHarmonics(object):
         b = (2 * self.n + 1) / (4 * np.pi)
         b *= special.gamma(self.n - np.absolute(self.m) + 1)
         b /= special.gamma(self.n + np.absolute(self.m) + 1)
-        c = (-1) ** np.where(self.m < 0, self.m, 0)
+        c = (-1.) ** np.where(self.m < 0, self.m, 0)
         self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
-- 
2.43.0


From dcb3bdca7203615fd1641fcf25b689a2881e1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 19/33] fix: SphericalHarmonics azimuth grid had one point too
 many for some nmax (61, 122, ...)

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index e1da859..f445a83 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -92,7 +92,7 @@ class SphericalHarmonics(object):
         self.theta = np.arccos(x)[:, None]
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
-        self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
+        self.phi = np.arange(2 * nmax)[None, :] * (np.pi / nmax)
         self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
-- 
2.43.0


From ed4f6f11bef4fba0db16d4a465f139a4a302d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 20/33] fix: quaternion_matrix (C) normalised the array of its
 caller in place

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5162867..50b7421 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2716,7 +2716,7 @@ py_quaternion_matrix(
     static char *kwlist[] = {"quaternion" , NULL};
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O&", kwlist,
-        PyConverter_DoubleVector4, &quaternion)) goto _fail;
+        PyConverter_DoubleVector4Copy, &quaternion)) goto _fail;
 
     result = (PyArrayObject*)PyArray_SimpleNew(2, dims, NPY_DOUBLE);
     if (result == NULL) {
-- 
2.43.0


From 81335c6366bb48733d349d8fd46c2a4621fb1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 21/33] fix: rfo raised for integer start points, gradients and
 Hessians

---
 electrode/saddle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 45531b8..d9494d5 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -36,13 +36,13 @@ def rfo(fun, grad, x0, args=(),
     121, 20, (2004).
     """
 
-    x = np.matrix(x0).T.copy()
+    x = np.matrix(x0, np.double).T.copy()
     f = fun(np.array(x).ravel())
-    g = np.matrix(grad(np.array(x).ravel())).T
+    g = np.matrix(grad(np.array(x).ravel()), np.double).T
     if h is None:
         h = np.matrix(np.identity(x.size))
     else:
-        h = np.matrix(h)
+        h = np.matrix(h, np.double)
 
     d = np.ones((x.size,))
     d[0] *= -1
-- 
2.43.0


From ab25b8fd772798a9ae54c58ba016be1d75cac02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 22/33] fix: rfo Hessian update divided by zero for exact
 Hessians (NaN)

---
 electrode/saddle.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index d9494d5..44d5815 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -79,12 +79,17 @@ def rfo(fun, grad, x0, args=(),
         df = fun(np.array(x + dx).ravel()) - f
         dg = np.matrix(grad(np.array(x + dx).ravel())).T - g
         dp = dg - h*dx
-        dh_powell = (dp*dx.T + dx*dp.T)/(dx.T*dx) - \
-                float(dp.T*dx)*(dx*dx.T)/(dx.T*dx)**2
-        dh_sr1 = (dp*dp.T)/(dp.T*dx)
-        phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
-        dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
-        dh = dh_bofill
+        dxdx, dpdx, dpdp = (dx.T*dx)[0, 0], (dp.T*dx)[0, 0], (dp.T*dp)[0, 0]
+        if dxdx > 0 and dpdp > 0:
+            dh_powell = (dp*dx.T + dx*dp.T)/dxdx - dpdx*(dx*dx.T)/dxdx**2
+            # phi = dpdx**2/(dpdp*dxdx), dh_sr1 = dp*dp.T/dpdx
+            phi = dpdx/dpdp*dpdx/dxdx
+            phi_dh_sr1 = dpdx/dpdp/dxdx*(dp*dp.T)
+            dh_bofill = phi_dh_sr1 + (1-phi)*dh_powell
+            dh = dh_bofill
+        else:
+            # no step or exact hessian
+            dh = np.zeros_like(h)
 
         if 2.*np.linalg.norm(dx) <= xtol * (
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
-- 
2.43.0


From 24523506d1f5a988a95ed6df522a62f661d2174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 23/33] fix: rfo divided zero by zero along flat modes (NaN
 step)

---
 electrode/saddle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 44d5815..d6bd5a2 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -73,6 +73,7 @@ def rfo(fun, grad, x0, args=(),
 
         gl = np.array(v.T*g).ravel()
         lmg = .5*d*(abs(l) + np.sqrt(l**2 + 4*gl**2))
+        lmg[lmg == 0] = 1. # flat mode: no step along it
 
         dx = -v*np.matrix(gl/lmg).T
         dx /= max(1., np.linalg.norm(dx)/dx_max)
-- 
2.43.0


From 3a6d6f9660813a97c3f782a08a14ab940ab6e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 24/33] fix: order the axes of the Hessian and the eigenvectors
 in System.ions()

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 240584f..aa82cc8 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1113,7 +1113,7 @@ class System(list):
                 (-qs*[2*x**2-y**2-z**2, 3*x*y, 3*x*z,
                     2*y**2-x**2-z**2, 3*y*z]/np.ma.array(
                     x**2+y**2+z**2)**(5/2.)).T)
-            p = p.transpose(2, 0, 3, 1)
+            p = p.transpose(0, 2, 1, 3)
             for i, (p0i, pii) in enumerate(
                     zip(p0.transpose(2, 0, 1), p.sum(2))):
                 p[i, :, i, :] += p0i-pii
@@ -1132,5 +1132,5 @@ class System(list):
             c = h(x)
         ew, ev = np.linalg.eigh(c)
         i = np.argsort(ew)
-        ew, ev = ew[i], ev[i, :].reshape(n, 3, -1)
+        ew, ev = ew[i], ev[:, i].reshape(n, 3, -1)
         return x.reshape(-1, 3), ew, ev
-- 
2.43.0


From 76f654e06cd4c37abd832dada6785a5efb9432f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 25/33] fix: let System.ions() relax a single ion

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index aa82cc8..a57e25e 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1095,7 +1095,7 @@ class System(list):
             x, y, z = (x0[None, :] - x0[:, None]).transpose(2, 0, 1)
             pi = .5*qs/np.ma.array(
                     x**2+y**2+z**2)**(1/2.)
-            return (p0+pi.sum(-1)).sum()
+            return (p0+pi.sum(-1).filled(0)).sum()
 
         def g(x0):
             x0 = x0.reshape(-1, 3)
@@ -1103,7 +1103,7 @@ class System(list):
             x, y, z = (x0[None, :] - x0[:, None]).transpose(2, 0, 1)
             pi = qs*[x, y, z]/np.ma.array(
                     x**2+y**2+z**2)**(3/2.)
-            return (p0+pi.sum(-1)).T.ravel()
+            return (p0+pi.sum(-1).filled(0)).T.ravel()
 
         def h(x0):
             x0 = x0.reshape(-1, 3)
-- 
2.43.0


From 75ed1a02f3c6f396f5d5d028056632351918e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 26/33] fix: accelerate along the force, not the gradient, in
 System.trajectory()

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index a57e25e..7d463ec 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -650,7 +650,7 @@ class System(list):
         x0 = np.array(x0)
         def ddx(t, q, f):
             x0[axis] = q
-            f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
+            f[:] = -self.time_potential(x0, 1, t, expand=True)[0, axis]
         while t < t1:
             integ(ddx, nsteps, t, p, q, t+dt, *args, **kwargs)
             t += dt
-- 
2.43.0


From 0d2e9f261ad68c833c4fe834705f0ba494f4ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 27/33] fix: accept lists and integers as initial conditions of
 System.trajectory()

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 7d463ec..2bddc6d 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -646,8 +646,8 @@ class System(list):
                 return integ_(ddx, nsteps, t, p, q, t1, methc,
                         *args, **kwargs)
         axis = list(axis)
+        x0, v0 = np.array(x0, np.double), np.array(v0, np.double)
         t, p, q = t0, v0[axis], x0[axis]
-        x0 = np.array(x0)
         def ddx(t, q, f):
             x0[axis] = q
             f[:] = -self.time_potential(x0, 1, t, expand=True)[0, axis]
-- 
2.43.0


From 1dfe7e864d5f0eda8f2ccf0b69776de620398c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 28/33] fix: decompose_matrix lost the rotation at a middle
 angle of exactly 90 degrees

math.cos(math.asin(1)) is 6e-17, not 0, so the branch for the gimbal lock was
never taken and both other angles came out as zero.
---
 electrode/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 80d92a8..144c538 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -795,7 +795,7 @@ def decompose_matrix(matrix):
         numpy.negative(row, row)
 
     angles[1] = math.asin(-row[0, 2])
-    if math.cos(angles[1]):
+    if math.cos(angles[1]) > _EPS:
         angles[0] = math.atan2(row[1, 2], row[2, 2])
         angles[2] = math.atan2(row[0, 1], row[0, 0])
     else:
-- 
2.43.0


From be3bbf572df411bebe5d63543da81fc170804b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 29/33] fix: quaternion_slerp (C) returned the second
 quaternion for fraction -1

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 50b7421..e09754b 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2935,7 +2935,7 @@ py_quaternion_slerp(
             goto _fail;
         }
 
-        if (fabs(fabs(fraction) - 1.0) < EPSILON) {
+        if (fabs(fraction - 1.0) < EPSILON) {
             q[0] = q1[0] / n;
             q[1] = q1[1] / n;
             q[2] = q1[2] / n;
-- 
2.43.0


From ee7b59a66c509768aced6be1ede20ccae35b96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 30/33] fix: normalise the direction in scale_matrix (C), as
 the Python version does

---
 electrode/transformations.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index e09754b..04e5a40 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1584,6 +1584,14 @@ py_scale_matrix(
             double dx = d[0];
             double dy = d[1];
             double dz = d[2];
+            double t = sqrt(dx*dx + dy*dy + dz*dz);
+            if (t < EPSILON) {
+                PyErr_Format(PyExc_ValueError, "invalid direction vector");
+                goto _fail;
+            }
+            dx /= t;
+            dy /= t;
+            dz /= t;
             factor = 1.0 - factor;
             M[0]  = 1.0 - factor * dx*dx;
             M[5]  = 1.0 - factor * dy*dy;
-- 
2.43.0


From 64001e6087e84016097de2aa090517d7e26c9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:04 +0000
Subject: [PATCH 31/33] fix: arcball_constrain_to_axis returned NaN for the
 pole of the axis -z

---
 electrode/transformations.c  | 2 +-
 electrode/transformations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 04e5a40..a2a1f04 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3373,7 +3373,7 @@ py_arcball_constrain_to_axis(
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-        } else if (a[2] == 1.0) {
+        } else if (fabs(a[2]) == 1.0) {
             v[0] = 1.0;
             v[1] = 0.0;
             v[2] = 0.0;
diff --git a/electrode/transformations.py b/electrode/transformations.py
index 144c538..efc9ccc 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1647,7 +1647,7 @@ def arcball_constrain_to_axis(point, axis):
             numpy.negative(v, v)
         v /= n
         return v
-    if a[2] == 1.0:
+    if abs(a[2]) == 1.0:
         return numpy.array([1.0, 0.0, 0.0])
     return unit_vector([-a[1], a[0], 0.0])
 
-- 
2.43.0


From 7a0897f904f84909d6f07073d8cbb9e40f14feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 32/33] fix: unit_vector of a vector along its axis into an
 output array

---
 electrode/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index efc9ccc..f1bd1e7 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1761,7 +1761,7 @@ def unit_vector(data, axis=None, out=None):
         data = out
     length = numpy.atleast_1d(numpy.sum(data*data, axis))
     numpy.sqrt(length, length)
-    if axis is not None:
+    if axis is not None and data.ndim > 1:
         length = numpy.expand_dims(length, axis)
     data /= length
     if out is None:
-- 
2.43.0


From 275fa3c62c0e98668f8ccfd379a2e0c32b9ed2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:24 +0000
Subject: [PATCH 33/33] fix: with_voltages keeps rf voltages when assigning dc
 voltages fails

---
 electrode/system.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 2bddc6d..46b5155 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -166,17 +166,18 @@ class System(list):
         >>> with s.with_voltages(dcs=0*s.dcs, rfs=[0, 1]):
         ...     print(s.potential([0, 0, 1.]))
         """
+        old_dcs, old_rfs = self.dcs, self.rfs
         try:
             if dcs is not None:
-                dcs, self.dcs = self.dcs, dcs
+                self.dcs = dcs
             if rfs is not None:
-                rfs, self.rfs = self.rfs, rfs
+                self.rfs = rfs
             yield
         finally:
             if dcs is not None:
-                self.dcs = dcs
+                self.dcs = old_dcs
             if rfs is not None:
-                self.rfs = rfs
+                self.rfs = old_rfs
 
     def electrical_potential(self, x, derivative=0, typ="dc", expand=False):
         """Electrical potential derivative.
-- 
2.43.0

