From 367d5125f1acf144acb0e33dd5a2882e444ab899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:29 +0000
Subject: [PATCH 001/108] fix: evaluate the dividend's density at x*c when the
 divisor has an atom at c

---
 pacal/indeparith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 027b5b8..c17f2c2 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -566,7 +566,7 @@ class Convxrunner(object):
                 e = 0.0
                 assert (segi.a != 0.0)
             elif segi.isSegment() and segj.isDirac():
-                i = segj.f*segi.f(segj.a)*abs(segj.a)
+                i = segj.f*segi.f(x*segj.a)*abs(segj.a)
                 e = 0.0
                 assert (segj.a != 0.0)
             I += i
@@ -615,7 +615,7 @@ class Convxrunner(object):
 
             elif segi.isSegment() and segj.isDirac():
                 assert (segj.a != 0.0)
-                i = segj.f * segi.f(segj.a) * abs(segj.a)
+                i = segj.f * segi.f(x * segj.a) * abs(segj.a)
                 e = 0
             I += i
             err += e
-- 
2.43.0


From d0c407e279f5721f2d37950d1413d679a4ecf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:29 +0000
Subject: [PATCH 002/108] fix: reject division by a variable that is zero with
 positive probability

---
 pacal/indeparith.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index c17f2c2..750f2c9 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1100,6 +1100,8 @@ def convdiv(f, g):
     g = _split_for_prod_and_div(g)
     #f = f.splitByPoints([-1, 0, 1])
     #g = g.splitByPoints([-1, 0, 1])
+    if g.getDirac(0.0) is not None:
+        raise ZeroDivisionError("divisor is equal to zero with nonzero probability")
     bf = f.getBreaks()
     bg = g.getBreaks()
     b = divide.outer(bf, bg).flatten()
-- 
2.43.0


From a6b876142e38f96bdc4dc95b84ea0eb679c0cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:29 +0000
Subject: [PATCH 003/108] fix: keep the atom at zero of the dividend in a
 quotient

---
 pacal/indeparith.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 750f2c9..686cce8 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1192,6 +1192,14 @@ def convdiv(f, g):
         fg_discr = convdiracs(f, g, fun = operator.truediv)
     except:
         fg_discr = convdiracs(f, g, fun = operator.div)
+    # zero divided by the continuous part of g
+    dirac0 = f.getDirac(0.0)
+    if dirac0 is not None and len(g.getSegments()) > 0:
+        p0 = dirac0.f * sum([seg.integrate() for seg in g.getSegments()])
+        if fg_discr.getDirac(0.0) is not None:
+            fg_discr.getDirac(0.0).f += p0
+        else:
+            fg_discr.addSegment(DiracSegment(0.0, p0))
     for seg in fg_discr.getDiracs():
         fg.addSegment(seg)
     return fg
-- 
2.43.0


From f394f6bac03c44fcc26208a5a98296a519ffd542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:13 +0000
Subject: [PATCH 004/108] fix: min and max of densities with poles at the ends
 of their support

---
 pacal/indeparith.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 686cce8..6aa24db 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -194,6 +194,11 @@ def funi_minx(segi, segj, x, t):
 def funj_minx(segi, segj, x, t):
     return segi.f(x)*segj.f(t)
 
+def _pole_flags(seg, L, U):
+    """Which ends of [L, U] are poles of the segment."""
+    return {"force_poleL": seg.hasLeftPole() and L == seg.a,
+            "force_poleU": seg.hasRightPole() and U == seg.b}
+
 class Convxrunner(object):
     def __init__(self, segList, integration_par):
         self.segList = segList
@@ -384,7 +389,7 @@ class Convxrunner(object):
                     funi = partial(funi_minx, segi, segj, x)
                     L = max(segi.a,x)
                     U = segi.b
-                    i, e = _segint(funi, L, U)
+                    i, e = _segint(funi, L, U, **_pole_flags(segi, L, U))
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)   # TODO
                     e=0
@@ -400,7 +405,7 @@ class Convxrunner(object):
                     funj = partial(funj_minx, segi, segj, x)
                     L = max(segj.a, x)
                     U = segj.b
-                    i, e = _segint(funj, L, U)
+                    i, e = _segint(funj, L, U, **_pole_flags(segj, L, U))
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -427,7 +432,7 @@ class Convxrunner(object):
                     L = segi.a
                     U = min(segi.b,x)
                     funi = partial(funi_maxx, segi, segj, x)
-                    i, e = _segint(funi, L, U)
+                    i, e = _segint(funi, L, U, **_pole_flags(segi, L, U))
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -443,7 +448,7 @@ class Convxrunner(object):
                     L = segj.a
                     U = min(segj.b,x)
                     funj = partial(funj_maxx, segi, segj, x)
-                    i, e = _segint(funj, L, U)
+                    i, e = _segint(funj, L, U, **_pole_flags(segj, L, U))
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -699,6 +704,21 @@ def epseq(a,b):
 #        wyn[j]=I
 #    return wyn
 
+def _interp_min_max(f, g, a, b, fun):
+    """Interpolate the density of min or max of f and g on [a, b], taking into
+    account poles of f and g at the ends of the interval.
+    """
+    segs = f.segments + g.segments
+    left_pole = (any([seg.hasLeftPole() and seg.a == a for seg in segs])
+                 and testPole(fun, a, deriv = False))
+    right_pole = (any([seg.hasRightPole() and seg.b == b for seg in segs])
+                  and testPole(fun, b, pos = False, deriv = False))
+    if left_pole and right_pole:
+        c = (a + b) / 2.0
+        return [Segment(a, c, fun).toInterpolatedSegment(left_pole = True),
+                Segment(c, b, fun).toInterpolatedSegment(right_pole = True)]
+    return [Segment(a, b, fun).toInterpolatedSegment(left_pole = left_pole, right_pole = right_pole)]
+
 def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpoint !!!
     """Probabilistic minimum of f and g.
     """
@@ -730,9 +750,8 @@ def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpo
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2, op)
         #fun = partial(convminx, segList)
         fun = Convxrunner(segList, params.integration_finite).convminx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        for segint in _interp_min_max(f, g, ub[i], ub[i+1], fun):
+            fg.addSegment(segint)
     fg_discr = convdiracs(f, g, fun = op)
 
     # Discrete parts of distribution
@@ -821,9 +840,8 @@ def convmax(f, g):
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2.0, op)
         #fun = partial(convmaxx, segList)
         fun = Convxrunner(segList, params.integration_finite).convmaxx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        for segint in _interp_min_max(f, g, ub[i], ub[i+1], fun):
+            fg.addSegment(segint)
     # Discrete parts of distribution
     fg_discr  =_probDiracsInMax(f, g)
     fg.add_diracs(fg_discr)
-- 
2.43.0


From 7054609d5e1cbe84c0ba42c5d6c868626f860ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:13 +0000
Subject: [PATCH 005/108] fix: WeibullDistr density at zero for k=1 is 1/lmbda

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 872caa6..b5b8ab0 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -668,7 +668,7 @@ class WeibullDistr(Distr):
         if self.k < 1:
             self.pdf_at_0 = np.inf
         elif self.k == 1:
-            self.pdf_at_0 = 1
+            self.pdf_at_0 = self.nrm
         else:
             self.pdf_at_0 = 0
     def pdf(self, x):
-- 
2.43.0


From 19698635313b4b0786ff22e5ff7955c1a18827f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:03 +0000
Subject: [PATCH 006/108] fix: BetaDistr density at 0 and 1 when alpha or beta
 is 1

---
 pacal/standard_distr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index b5b8ab0..673aa94 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -7,6 +7,7 @@ from numpy import isscalar, zeros_like, zeros, cumsum, array, searchsorted, binc
 from numpy import pi, sqrt, exp, log, log1p, cos, floor
 from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel, randint
 from numpy.random import f as f_rand
+from scipy.special import xlogy, xlog1py
 
 from numpy import finfo, double
 from functools import partial
@@ -419,11 +420,11 @@ class BetaDistr(Distr):
             if x < 0 or x > 1:
                 y = 0
             else:
-                y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
+                y = exp(self.lg_norm + xlogy(self.alpha - 1, x) + xlog1py(self.beta - 1, -x))
         else:
             y = zeros_like(x)
             mask = (x >= 0) & (x <= 1)
-            y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
+            y[mask] = exp(self.lg_norm + xlogy(self.alpha - 1, x[mask]) + xlog1py(self.beta - 1, -x[mask]))
         return y
     def init_piecewise_pdf(self):
         if self.alpha > 1 and self.beta > 1:
-- 
2.43.0


From fcca55f0f315b3989f112f6d82c4f0b2b25320b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:11 +0000
Subject: [PATCH 007/108] fix: densities and piecewise functions of integer
 arrays were truncated to integers

---
 pacal/segments.py       | 10 +++++-----
 pacal/standard_distr.py | 22 +++++++++++-----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index dd0241e..933c6e7 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -81,7 +81,7 @@ def _op_one_over_xsqaure(x):
             y = np.inf
     else:
         mask = (x != 0.0)
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         y[mask] = 1.0 / (x[mask])**2
     return y
 
@@ -154,7 +154,7 @@ class Segment(object):
                 return self.f(x)
             else:
                 return 0
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         ind = where((x>=self.a) & (x<=self.b))
         if len(ind)>0:
             y[ind] = self.f(x[ind])
@@ -680,7 +680,7 @@ class DiracSegment(Segment):
         if isscalar(x):
             y = (x==self.a) * 1
         else:
-            y=zeros_like(x)
+            y=zeros_like(x, dtype=float)
             y[x==self.a] = 1 # TODO it should be Inf or self.f
         return y
     def integrate(self, a, b):
@@ -954,7 +954,7 @@ class InterpolatedSegmentWithPole2(InterpolatedSegmentWithPole):
         if isscalar(x):
             x=array(x)
         ind = where((x>=self.a) & (x<=self.b))
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         y[ind] = self.f(x[ind])/abs(x[ind]-self.pole) ** self.exponent
         return y
 
@@ -1073,7 +1073,7 @@ class PiecewiseFunction(object):
             return None
         else:
             # iterate over segments
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             for seg in self.getSegments():#segments:
                 ind = ((x>=seg.a) & (x<seg.b))
                 if ind.any():
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 673aa94..fd9d956 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -332,7 +332,7 @@ class ExponentialDistr(Distr):
             else:
                 y = self.lmbda * exp(-self.lmbda * x)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0)
             y[mask] = self.lmbda * exp(-self.lmbda * x[mask])
         return y
@@ -379,7 +379,7 @@ class GammaDistr(Distr):
             else:
                 y = exp(self.log_pdf(x))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = exp(self.log_pdf(x[mask]))
             mask_zero = (x == 0)
@@ -422,7 +422,7 @@ class BetaDistr(Distr):
             else:
                 y = exp(self.lg_norm + xlogy(self.alpha - 1, x) + xlog1py(self.beta - 1, -x))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0) & (x <= 1)
             y[mask] = exp(self.lg_norm + xlogy(self.alpha - 1, x[mask]) + xlog1py(self.beta - 1, -x[mask]))
         return y
@@ -472,7 +472,7 @@ class ParetoDistr(Distr):
             else:
                 y = self.nrm / x ** (self.alpha + 1)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= self.xmin)
             y[mask] = self.nrm / x[mask] ** (self.alpha + 1)
         return y
@@ -504,7 +504,7 @@ class LevyDistr(Distr):
             else:
                 y = self.nrm * exp(log(x - self.xmin)*(-1.5) -0.5 * self.c / (x - self.xmin))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > self.xmin)
             y[mask] = self.nrm * exp(log(x[mask] - self.xmin)*(-1.5) -0.5 * self.c / (x[mask] - self.xmin))
         return y
@@ -588,7 +588,7 @@ class SemicircleDistr(Distr):
                 y = self.norm * sqrt(self.R*self.R - x*x)
         else:
             mask = (-self.R <= x) & (x <= self.R)
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[mask] = self.norm * sqrt(self.R*self.R - x*x)
         return y
     def init_piecewise_pdf(self):
@@ -629,7 +629,7 @@ class FDistr(Distr):
                 lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x) - (self.df1 + self.df2) * log(self.df1 * x + self.df2)) - log(x)
                 y = exp(lgy)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[x==0] = self.pdf_at_0
             mask = (x > 0)
             lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x[mask]) - (self.df1 + self.df2) * log(self.df1 * x[mask] + self.df2)) - log(x[mask])
@@ -681,7 +681,7 @@ class WeibullDistr(Distr):
             else:
                 y = self.nrm * exp(log(x / self.lmbda)*(self.k-1) - (x / self.lmbda)**self.k)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = self.nrm * exp(log(x[mask] / self.lmbda)*(self.k-1) - (x[mask] / self.lmbda)**self.k)
             mask_zero = (x == 0)
@@ -766,7 +766,7 @@ class FrechetDistr(Distr):
             else:
                 y = self.nrm * exp(-(self.alpha+1) * log(t) - t ** (-self.alpha))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (t > 0)
             y[mask] = self.nrm * exp(-(self.alpha+1) * log(t[mask]) - t[mask] ** (-self.alpha))
         return y
@@ -819,7 +819,7 @@ class LogLogisticDistr(Distr):
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         mask = (x >= 0)
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
@@ -878,7 +878,7 @@ class MollifierDistr(Distr):
                 t = x / self.epsilon
                 y = self.nrm * exp(-1.0 / (1 - t*t))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (abs(x) < self.epsilon)
             y[mask] = self.nrm * exp(-1.0 / (1 - (x[mask] / self.epsilon)**2))
         return y
-- 
2.43.0


From fa1495cad4ffc87cae98a1e9cc5de3c0d57b56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:33 +0000
Subject: [PATCH 008/108] fix: SemicircleDistr density outside of the support

---
 pacal/standard_distr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index fd9d956..e366be9 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -586,10 +586,12 @@ class SemicircleDistr(Distr):
         if isscalar(x):
             if -self.R <= x <= self.R:
                 y = self.norm * sqrt(self.R*self.R - x*x)
+            else:
+                y = 0
         else:
             mask = (-self.R <= x) & (x <= self.R)
             y = zeros_like(x, dtype=float)
-            y[mask] = self.norm * sqrt(self.R*self.R - x*x)
+            y[mask] = self.norm * sqrt(self.R*self.R - x[mask]*x[mask])
         return y
     def init_piecewise_pdf(self):
         # split at inflection points
-- 
2.43.0


From 13a5029be7eded3678dec373437eef96efc70ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:54 +0000
Subject: [PATCH 009/108] fix: LogLogisticDistr density at zero and for arrays
 with negative elements, sampling, error messages

---
 pacal/standard_distr.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index e366be9..69945e7 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -806,9 +806,9 @@ class FrechetDistr(Distr):
 class LogLogisticDistr(Distr):
     def __init__(self, k, s=1.0, **kwargs):
         if k <= 0:
-            raise RuntimeError("Shape parameter k must be > 0, got {}".format(alpha))
+            raise RuntimeError("Shape parameter k must be > 0, got {}".format(k))
         if s <= 0:
-            raise RuntimeError("Scale parameter s must be > 0, got {}".format(beta))
+            raise RuntimeError("Scale parameter s must be > 0, got {}".format(s))
         super().__init__(**kwargs)
         self.k = k
         self.s = s
@@ -817,17 +817,18 @@ class LogLogisticDistr(Distr):
     def log_pdf(self, x):
         # pdf form from www.randomservices.org
         lx = np.log(x)
-        return  self.log_k + self.log_s_pow_k + (self.k-1)*lx \
+        return  self.log_k + self.log_s_pow_k + xlogy(self.k-1, x) \
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
+        x = np.asarray(x, dtype=float)
         y = zeros_like(x, dtype=float)
         mask = (x >= 0)
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
         #  / ((self.s_pow_k + x[mask]**self.k)**2)
-        y[mask] = np.exp(self.log_pdf(x))
-        return y
+        y[mask] = np.exp(self.log_pdf(x[mask]))
+        return y[()]
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
         breakPoints = [0.0]
@@ -853,7 +854,7 @@ class LogLogisticDistr(Distr):
                                                    breakPoints = breakPoints,
                                                    lpoles=lpoles)
     def rand_raw(self, n = None):
-        u = uniform(self.a, self.b, n)
+        u = uniform(0, 1, n)
         ll = self.s * (u / (1-u))**(1.0 / self.k)
         return ll
     def __str__(self):
-- 
2.43.0


From a41962371427b262d187ef2971a71ff5003d7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:23 +0000
Subject: [PATCH 010/108] fix: cdf and pdf between segments (gaps between
 components, atoms outside of the continuous part)

---
 pacal/segments.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 933c6e7..f24bba5 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1103,7 +1103,12 @@ class PiecewiseFunction(object):
         xsegment = DiracSegment(x,0)
         ind = bisect.bisect_left(self.segments, xsegment)
         if  0 < ind < len(self.segments):
-            return self.segments[ind]
+            if self.segments[ind].a <= x:
+                return self.segments[ind]
+            elif self.segments[ind-1].b == x: # right end, followed by a gap
+                return self.segments[ind-1]
+            else: # between segments
+                return None
         elif ind == 0:
             if self.segments[ind].a <= x <= self.segments[ind].b :
                 return  self.segments[ind]
@@ -1163,7 +1168,13 @@ class PiecewiseFunction(object):
     def cumint(self):
         integralPFun = CumulativePiecewiseFunction([])
         f0 = 0
+        end = self.segments[0].a
+        if not self.segments[0].isMInf():
+            integralPFun.addSegment(MInfSegment(end, ConstFun(0)))
         for seg in self.segments:
+            if seg.a > end:   # the integral is constant between segments
+                integralPFun.addSegment(ConstSegment(end, seg.a, f0))
+            end = seg.b
             if seg.isPInf():
                 f0 = f0 + seg.integrate(seg.a)
             segi = seg.cumint(f0)
@@ -1176,8 +1187,6 @@ class PiecewiseFunction(object):
         rightval = max(f0, segi.f(segi.b))
         if not segi.isPInf():
             integralPFun.addSegment(PInfSegment(segi.b, ConstFun(rightval)))
-        if not integralPFun.segments[0].isMInf():
-            integralPFun.addSegment(MInfSegment(integralPFun.segments[0].a, ConstFun(0)))
         return integralPFun
     def diff(self):
         diffPFun = PiecewiseFunction([])
-- 
2.43.0


From 570bee671e440959470ed57843adf5cb7d4d0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:45 +0000
Subject: [PATCH 011/108] fix: convolution of densities with gaps in their
 support

---
 pacal/segments.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index f24bba5..2733ee7 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1474,10 +1474,26 @@ class PiecewiseFunction(object):
         segments = self.segments
         if len(segments) == 0:
             return []
+        def nonzero_left(seg):
+            return seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps
+        def nonzero_right(seg):
+            return seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps
         breaks = [breakPoint(segments[0].a, False, False)]
-        for seg in segments:
+        for i, seg in enumerate(segments):
+            if seg.a > breaks[-1].x: # a gap: the function is zero on both ends of it
+                if not segments[i-1].isDirac() and nonzero_right(segments[i-1]):
+                    breaks[-1].Cont = False
+                breaks.append(breakPoint(seg.a, False, False))
+                if not seg.isDirac() and nonzero_left(seg):
+                    breaks[-1].Cont = False
+            elif i > 0 and not seg.isDirac() and not segments[i-1].isDirac():
+                # check continuity
+                if not segments[i-1].hasRightPole() and not seg.hasLeftPole():
+                    if abs(segments[i-1].f(segments[i-1].b) - seg.f(seg.a)) > params.pole_detection.continuity_eps:
+                        breaks[-1].Cont = False
             if seg.isDirac():
-                breaks[-1].dirac = True
+                # separate from the breakpoint of a neighboring segment, whose flags describe a density
+                breaks.append(breakPoint(seg.a, False, False, dirac = True))
             if seg.hasLeftPole():
                 breaks[-1].posPole = True
             if seg.hasRightPole():
@@ -1486,17 +1502,11 @@ class PiecewiseFunction(object):
                 breaks.append(breakPoint(seg.b, False, False))
         # check continuity
         seg = segments[0]
-        if not seg.isDirac() and not isinf(seg.a) and (seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps):
+        if not seg.isDirac() and not isinf(seg.a) and nonzero_left(seg):
             breaks[0].Cont = False
         seg = segments[-1]
-        if not seg.isDirac() and not isinf(seg.b) and (seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps):
+        if not seg.isDirac() and not isinf(seg.b) and nonzero_right(seg):
             breaks[-1].Cont = False
-        for i, seg in enumerate(segments[1:]):
-            if not seg.isDirac() and not segments[i].isDirac():
-                if not segments[i].hasRightPole() and not seg.hasLeftPole():
-                    if (segments[i].hasRightPole() or seg.hasLeftPole()
-                        or abs(segments[i].f(self.segments[i].b) - seg.f(seg.a)) > params.pole_detection.continuity_eps):
-                        breaks[i+1].Cont = False
         return breaks
 
     def getBreaks(self):
-- 
2.43.0


From f59b23c73fcd77a92ec4e68fc231d85e0b08b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:22 +0000
Subject: [PATCH 012/108] fix: keep poles of the second operand in pointwise
 operations on piecewise functions

---
 pacal/segments.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 2733ee7..3608e83 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1711,13 +1711,19 @@ class PiecewiseFunction(object):
                 seg = segf
             if seg is None: # only diracs
                 continue
+            left_pole = any(s is not None and s.hasLeftPole() for s in (segf, segg))
+            right_pole = any(s is not None and s.hasRightPole() for s in (segf, segg))
             if seg.isMInf():
                 fun.addSegment(MInfSegment(seg.b, make_segfun(segf, segg)))
             elif seg.isPInf():
                 fun.addSegment(PInfSegment(seg.a, make_segfun(segf, segg)))
-            elif seg.isSegment() and seg.hasLeftPole():
+            elif seg.isSegment() and left_pole and right_pole:
+                m = (seg.a + seg.b) / 2.0
+                fun.addSegment(SegmentWithPole(seg.a, m, make_segfun(segf, segg), left_pole = True))
+                fun.addSegment(SegmentWithPole(m, seg.b, make_segfun(segf, segg), left_pole = False))
+            elif seg.isSegment() and left_pole:
                 fun.addSegment(SegmentWithPole(seg.a, seg.b, make_segfun(segf, segg), left_pole = True))
-            elif seg.isSegment() and seg.hasRightPole():
+            elif seg.isSegment() and right_pole:
                 fun.addSegment(SegmentWithPole(seg.a, seg.b, make_segfun(segf, segg), left_pole = False))
             elif seg.isSegment():
                 si=Segment(seg.a, seg.b, make_segfun(segf, segg))
-- 
2.43.0


From d79e002a54cef2acfe5002d4f50c80b122d90570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:32 +0000
Subject: [PATCH 013/108] fix: total probability of shifted densities with
 poles was infinite (quadrature nodes rounded onto the pole)

---
 pacal/integration.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index fc6d34d..a1bd569 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from numpy.fft import ifft
 from numpy import array, zeros, ones, hstack, arange, zeros_like
-from numpy import dot, isscalar
+from numpy import dot, isscalar, where
 from numpy import finfo, double, isinf, isposinf, isneginf
 from numpy import ceil,log10, logspace
 
@@ -251,16 +251,20 @@ def integrate_fejer2_minf(f, b, a = None, exponent = None, *args, **kwargs):
 
 def integrate_fejer2_Xn_transform(f, a, b, N = 2.0, *args, **kwargs):
     return integrate_fejer2(lambda t: N * (b-a) * f(t**N*(b-a)+a) * t**(N-1), 0.0, 1.0, *args, **kwargs)
+def _drop_pole_values(y):
+    """Nodes rounded onto the pole have infinite values which carry no
+    mass: leave them out of the quadrature."""
+    return where(isinf(y), 0.0, y)
 def integrate_fejer2_Xn_transformP(f, a, b, N = None, *args, **kwargs):
     if N is None:
         N = params.integration_pole.exponent
     a = a + abs(a) * finfo(double).eps # don't touch the edge
-    return integrate_fejer2(lambda t: N * (b-a) * f(t**N*(b-a)+a) * t**(N-1), 0.0, 1.0, *args, **kwargs)
+    return integrate_fejer2(lambda t: N * (b-a) * _drop_pole_values(f(t**N*(b-a)+a)) * t**(N-1), 0.0, 1.0, *args, **kwargs)
 def integrate_fejer2_Xn_transformN(f, a, b, N = None, *args, **kwargs):
     if N is None:
         N = params.integration_pole.exponent
     b = b - abs(b) * finfo(double).eps # don't touch the edge
-    return integrate_fejer2(lambda t: N * (b-a) * f(b-t**N*(b-a)) * t**(N-1), 0.0, 1.0, *args, **kwargs)
+    return integrate_fejer2(lambda t: N * (b-a) * _drop_pole_values(f(b-t**N*(b-a))) * t**(N-1), 0.0, 1.0, *args, **kwargs)
 def integrate_wide_interval(f, a, b, *args, **kwargs):
     wide_cond = params.integration.wide_condition
     if isinf(b):
-- 
2.43.0


From 3212c2da70bbe60d99ce519a2f32c4aef40acda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:56 +0000
Subject: [PATCH 014/108] fix: integral of a segment over an interval disjoint
 with the segment is zero

---
 pacal/segments.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 3608e83..294a14f 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -160,12 +160,15 @@ class Segment(object):
             y[ind] = self.f(x[ind])
         return y
 
+    def _clip_limits(self, a, b):
+        """limits of integration moved to the nearest points of [self.a, self.b],
+        an interval disjoint with the segment becomes empty"""
+        a = self.a if a is None else max(self.a, min(a, self.b))
+        b = self.b if b is None else max(self.a, min(b, self.b))
+        return a, b
     def integrate(self, a = None, b = None):
         """definite integral over interval (c, d) \\cub (a, b) """
-        if a==None or a<self.a :
-            a=self.a
-        if b==None or b>self.b:
-            b=self.b
+        a, b = self._clip_limits(a, b)
         #i,e = integrate_fejer2(self, self.a, self.b, debug_plot = False)
         i,e = integrate_fejer2(self, a, b, debug_plot = False)
         return i
@@ -487,10 +490,7 @@ class ConstSegment(Segment):
         return select([(x>=self.a) & (x<=self.b)], [self.const], 0)
     def integrate(self, a = None, b = None):
         """definite integral over interval (c, d) \\cub (a, b) """
-        if a==None or a<self.a :
-            a=self.a
-        if b==None or b>self.b:
-            b=self.b
+        a, b = self._clip_limits(a, b)
         return self.const*(b-a)
     #def f(self, x):
     #    return 0.0*x + self.const
@@ -802,10 +802,7 @@ class SegmentWithPole(Segment):
         self.left_pole = left_pole
     def integrate(self, a = None, b = None):
         """definite integral over interval (c, d) \\cub (a, b) """
-        if a == None or a < self.a :
-            a = self.a
-        if b == None or b > self.b:
-            b = self.b
+        a, b = self._clip_limits(a, b)
         if a == b:
             return 0.0
         if self.hasLeftPole() and a == self.a:
-- 
2.43.0


From 835d69d50dca0bea37e086ec0e8a3fd4534903cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:56 +0000
Subject: [PATCH 015/108] fix: inverse of variables with atoms and with poles
 away from zero

---
 pacal/segments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 294a14f..9bee2de 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -363,6 +363,10 @@ class Segment(object):
         """
         g = _op_one_over_x
         ginv = _op_one_over_x
+        if self.isDirac():
+            if self.a == 0:
+                raise ZeroDivisionError("inverse of a variable equal to zero with nonzero probability")
+            return DiracSegment(g(self.a), self.f)
         fun = partial(_prob_composition_safe, self.f, _op_one_over_x, _op_one_over_xsqaure)
         if (self.a==0):
             if  g(self.b)<0:
@@ -375,6 +379,8 @@ class Segment(object):
                 return PInfSegment(g(self.a), fun)
             else:
                 return MInfSegment(g(self.a), fun)
+        elif self.hasPole() and isfinite(self.a) and isfinite(self.b):
+            return SegmentWithPole(g(self.b), g(self.a), fun, left_pole = self.hasRightPole())
         else:
             if g(self.a)<=g(self.b):
                 #return Segment(g(self.a)+8* finfo(float).eps,g(self.b)-4* finfo(float).eps, fun)
-- 
2.43.0


From b886f2f7c9a7b1534e60d592237d243fa3485b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 016/108] fix: sine of variables exceeding pi/2 and atoms at
 the right end of the period of sine and cosine

---
 pacal/distr.py    | 2 +-
 pacal/segments.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 98e6946..7b09912 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1000,7 +1000,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         return True
 
 def _pi_m_arcsin(x):
-    return 2*pi-arccos(x)
+    return pi-arcsin(x)
 def _arcsin_der1(x):
     return (1-x**2)**(-0.5)
 def _arcsin_der2(x):
diff --git a/pacal/segments.py b/pacal/segments.py
index 9bee2de..8b22e55 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1419,6 +1419,10 @@ class PiecewiseFunction(object):
 
         for i in range(len(fs)):
             summand = self.restrictToInterval(intervals[i][0], intervals[i][1])
+            if i == len(fs) - 1: # the last interval is closed
+                dirac = self.getDirac(intervals[i][1])
+                if dirac is not None:
+                    summand.addSegment(dirac)
             copyFunction = copyFunction + summand.copyComposition(fs[i], finvs[i], finvDerivs[i], pole_at_zero)
         return copyFunction
 
-- 
2.43.0


From af704e30141f13110d89314ed896178e791fbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:59 +0000
Subject: [PATCH 017/108] fix: cdf at the end of a segment where the density is
 infinite is not nan

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 8b22e55..42d78ec 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -169,6 +169,8 @@ class Segment(object):
     def integrate(self, a = None, b = None):
         """definite integral over interval (c, d) \\cub (a, b) """
         a, b = self._clip_limits(a, b)
+        if a == b:
+            return 0.0
         #i,e = integrate_fejer2(self, self.a, self.b, debug_plot = False)
         i,e = integrate_fejer2(self, a, b, debug_plot = False)
         return i
-- 
2.43.0


From 79cf3542c7ae534b5de6313b6511875c64f1c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 018/108] fix: tangent of a variable reaching pi/2 keeps the
 infinite tail

---
 pacal/distr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 7b09912..f3ae54a 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1050,7 +1050,12 @@ class TanDistr(FuncDistr):
     def __init__(self, d):
         super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan")
     def f(self, x):
-        return numpy.tan(x)
+        if isscalar(x):
+            return numpy.tan(x) if abs(x) != pi/2 else numpy.sign(x) * Inf
+        y = numpy.tan(x)
+        mask = (abs(x) == pi/2)
+        y[mask] = numpy.sign(x[mask]) * Inf
+        return y
     def f_inv(self, x):
         return numpy.arctan(x)
     def f_inv_deriv(self, x):
-- 
2.43.0


From 05bd78e2c8a38c02711b8558531416b4fd8b26db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:04 +0000
Subject: [PATCH 019/108] fix: integrals of segments spanning several orders of
 magnitude (e.g. total probability of 10**X)

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 42d78ec..8814ba7 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -172,7 +172,7 @@ class Segment(object):
         if a == b:
             return 0.0
         #i,e = integrate_fejer2(self, self.a, self.b, debug_plot = False)
-        i,e = integrate_fejer2(self, a, b, debug_plot = False)
+        i,e = integrate_wide_interval(self, a, b, debug_plot = False)
         return i
     def cumint(self, y0 = 0.0):
         """indefinite integral over interval (a, x)"""
-- 
2.43.0


From 4b06846a19f007fb6f87ee675bedfb2f4e740be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:32 +0000
Subject: [PATCH 020/108] fix: BinomialDistr with success probability 1

---
 pacal/standard_distr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 69945e7..4b22260 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -57,7 +57,7 @@ class PDistr(Distr):
         if isinstance(self.segs, PiecewiseFunction):
             self.piecewise_pdf = self.segs
         else:
-            self.piecewise_pdf = PiecewiseDistribution();
+            self.piecewise_pdf = PiecewiseDistribution([])
             for seg in self.segs:
                 self.piecewise_pdf.addSegment(seg)
     def getName(self):
@@ -970,16 +970,19 @@ class BinomialDistr(DiscreteDistr):
         self.n = n
         self.p = p
         self.q = 1-p
-        P = self.q ** n
+        # start from the more probable outcome: the other may have zero probability
+        P = max(self.p, self.q) ** n
         xi = [0]
         pi = [P]
-        pq = self.p / self.q
+        pq = min(self.p, self.q) / max(self.p, self.q)
         for i in range(n):
             P *= n - i
             P /= i + 1
             P *= pq
             xi.append(i+1)
             pi.append(P)
+        if self.p > self.q:
+            pi.reverse()
         super(BinomialDistr, self).__init__(xi, pi, **kwargs)
     def __str__(self):
         return "Binomial({0}.{1})#{2}".format(self.n, self.p, self.id())
-- 
2.43.0


From 97a819b7c79ccb8ac41ae5f4ef952967db481b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:47 +0000
Subject: [PATCH 021/108] fix: PoissonDistr construction did not terminate for
 some parameters (e.g. 48.25)

---
 pacal/standard_distr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 4b22260..0ee7b0e 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -948,7 +948,8 @@ class PoissonDistr(DiscreteDistr):
         P = 1.0 * exp(-lmbda)
         k = 0.0
         S = P
-        while (1.0-S) >= trunk_eps:
+        # stop also when further terms are below the rounding error of S
+        while (1.0-S) >= trunk_eps and (k <= lmbda or S + P > S):
             xi.append(k)
             pi.append(P)
             k += 1.0
-- 
2.43.0


From 0921a77fe0318a8185c04a236accc35a02ad9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 022/108] fix: integration over segments with a denormal end
 overflowed

---
 pacal/integration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index a1bd569..687004b 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -273,8 +273,8 @@ def integrate_wide_interval(f, a, b, *args, **kwargs):
         a=-1e100
     if a!=0 and b!=0:
         if (b/a)>wide_cond and 0 < a < b: # positive innterwal
-            exp_wide = b/a
-            number_of_intervals = int(ceil(log10(exp_wide)/log10(wide_cond)))
+            # difference of logarithms: b/a may overflow
+            number_of_intervals = int(ceil((log10(b) - log10(a))/log10(wide_cond)))
             nodes = logspace(log10(a), log10(b), number_of_intervals + 1)
             nodes[0] = a
             nodes[-1] = b
@@ -285,8 +285,7 @@ def integrate_wide_interval(f, a, b, *args, **kwargs):
                 E+=err
             return I, E
         elif (b/a)<1/wide_cond and a < b < 0: # negative interval
-            exp_wide = a/b
-            number_of_intervals = int(ceil(log10(exp_wide)/log10(wide_cond)))
+            number_of_intervals = int(ceil((log10(-a) - log10(-b))/log10(wide_cond)))
             nodes = -logspace(log10(abs(a)), log10(abs(b)), number_of_intervals + 1)
             nodes[0] = a
             nodes[-1] = b
-- 
2.43.0


From 96dd1e270a25bab16f81f40d8b55414027875c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 023/108] fix: sum of an atom and a density with a pole away
 from zero

---
 pacal/indeparith.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 6aa24db..b15dcf6 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -366,10 +366,11 @@ class Convxrunner(object):
             #    print "x", x, log(-x+1), segi, segj, repr(Lx), repr(Ux), ix
             #    print "y", x, log(-x+1), segi, segj, repr(Ly), repr(Uy), iy
             elif segi.isDirac() and segj.isSegment():
-                i = segi.f*segj.f(x-segi.a)
+                # rounding must not move x - a onto the pole
+                i = segi.f*segj.f(min(max(x-segi.a, segj.safe_a), segj.safe_b))
                 e=0
             elif segi.isSegment() and segj.isDirac():
-                i = segj.f*segi.f(x-segj.a)
+                i = segj.f*segi.f(min(max(x-segj.a, segi.safe_a), segi.safe_b))
                 e=0
             elif segi.isDirac() and segj.isDirac():
                 i = 0
-- 
2.43.0


From 8ca8cd602f75764c3be9c4473663fc3737082fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 024/108] fix: interpolation with a pole evaluated the function
 outside of the interval (interpolated inverse cdf was nan)

---
 pacal/interpolation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index c1f33fe..be7d86c 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -25,7 +25,7 @@ import numpy as np
 from numpy import array, asarray, zeros_like, ones_like, asarray, atleast_1d
 from numpy import array_split, concatenate, squeeze
 from numpy import where, dot, zeros
-from numpy import maximum
+from numpy import minimum, maximum
 from numpy import newaxis, subtract, isscalar, hstack
 from numpy import finfo, size, double
 from numpy import isnan, isinf
@@ -590,7 +590,8 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
 #class PoleInterpolatorP(ChebyshevInterpolator1):
 class PoleInterpolatorP(ChebyshevInterpolatorNoL):
     def xt(self, x):
-        return (exp(x) + self.orig_a) + self.offset
+        # rounding must not move nodes outside of the interval
+        return minimum((exp(x) + self.orig_a) + self.offset, self.orig_b)
     def xtinv(self, x):
         return log((x - self.orig_a) + self.offset)
     def __init__(self, f, a, b, offset=1e-50, *args, **kwargs):
@@ -639,7 +640,7 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
 
 class PoleInterpolatorN(ChebyshevInterpolatorNoR):
     def xt(self, x):
-        return (-exp(x) + self.orig_b) - self.offset
+        return maximum((-exp(x) + self.orig_b) - self.offset, self.orig_a)
     def xtinv(self, x):
         return log(-(x - self.orig_b) + self.offset)
     def __init__(self, f, a, b, offset=1e-50, *args, **kwargs):
-- 
2.43.0


From 330d9dfde042911085ed12b44433e6b3c63dd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 025/108] fix: skewness and kurtosis of a constant raised
 NameError

---
 pacal/distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index f3ae54a..cd6a3ef 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -167,12 +167,12 @@ class Distr(RV):
         if not self.var() == 0:
             return self.moment(3, self.mean()) / self.var()**1.5
         else:
-            return NaN
+            return numpy.nan
     def kurtosis(self):
         if not self.var() == 0:
             return self.moment(4, self.mean()) / self.var()**2
         else:
-            return NaN
+            return numpy.nan
     def mgf(self):
         return PiecewiseFunction(fun=partial(_mgf_fun, self), breakPoints=self.get_piecewise_pdf().getBreaks())
     def cf(self):
-- 
2.43.0


From 1a546771b80b124c300836b0d8cec3f700457a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 026/108] fix: difference of a piecewise function and a number
 had the opposite sign, division by a number failed

---
 pacal/segments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 8814ba7..3382a91 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1605,7 +1605,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.sub)
         elif isinstance(other, numbers.Real):
-            return self.__rsub__(other)
+            return self._roperation__(other, operation = operator.sub)
         return NotImplemented
     def __mul__(self, other):
         if isinstance(other, PiecewiseFunction):
@@ -1618,14 +1618,14 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.truediv)
         elif isinstance(other, numbers.Real):
-            return self._operation__(other, operation = operator.truediv)
+            return self._roperation__(other, operation = operator.truediv)
         return NotImplemented
     def __div__(self, other):
         #TODO handle zeros in denominator, !!!currently unhandled!!!
         if isinstance(other, PiecewiseFunction):
-            return self._operation__(other, operation = operator.div)
+            return self._operation__(other, operation = operator.truediv)
         elif isinstance(other, numbers.Real):
-            return self._operation__(other, operation = operator.div)
+            return self._roperation__(other, operation = operator.truediv)
         return NotImplemented
     def __radd__(self, r, operation = operator.add):
         """Overload sum with real number: distribution of r+X."""
-- 
2.43.0


From 52c19d6838d0288de7682ba524587b7bfae67bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 027/108] fix: operations on atoms present in only one of two
 piecewise functions

---
 pacal/segments.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 3382a91..c2a4fe8 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1679,20 +1679,18 @@ class PiecewiseFunction(object):
         return fun
 
     def op_diracs(self, other, op):
-        """Pointwise operation on discrete parts of two piecewise functions."""
-        ai = []
-        for tmp in self.getDiracs():
-            ai.append(tmp.a)
-        for tmp in other.getDiracs():
-            if not tmp.a in set(ai):
-                ai.append(tmp.a)
-        for dirac in ai:#other.getDiracs():
-            self_dirac = self.getDirac(dirac)
-            other_dirac = other.getDirac(dirac)
-            if self_dirac is None:
-                self.addSegment(DiracSegment(other_dirac.a, other_dirac.f))
-            elif other_dirac is not None:
-                self_dirac.f = op(self_dirac.f,  other_dirac.f)
+        """Pointwise operation on discrete parts of two piecewise functions.
+
+        Returns a list of new Dirac segments, a missing atom counts as zero."""
+        atoms = unique([d.a for d in self.getDiracs()] + [d.a for d in other.getDiracs()])
+        diracs = []
+        for a in atoms:
+            self_dirac = self.getDirac(a)
+            other_dirac = other.getDirac(a)
+            f = numpy.float64(self_dirac.f if self_dirac is not None else 0)
+            g = numpy.float64(other_dirac.f if other_dirac is not None else 0)
+            diracs.append(DiracSegment(a, op(f, g)))
+        return diracs
 
     def _operation__(self, other, operation = operator.add):
         """Pointwise operation on two piecewise functions."""
@@ -1739,8 +1737,8 @@ class PiecewiseFunction(object):
                 fun.addSegment(si)
             else:
                 assert False
-        fun.op_diracs(self, operation)
-        fun.op_diracs(other, operation)
+        for seg in self.op_diracs(other, operation):
+            fun.addSegment(seg)
         return fun
 
     def __pow__(self, k):
-- 
2.43.0


From 85dfa96415f5b6abd9c9f3f6f2646d9784be52ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 028/108] fix: Kullback-Leibler distance was wrong where the
 other density vanishes or underflows

---
 pacal/segments.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index c2a4fe8..0cc5efa 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -104,6 +104,11 @@ def _safe_fun_on_f_call(seg, fun, x):
     return nan_to_num(fun(seg.f(x)))
 def _segfun_scalar_op(seg, op, r, x):
     return op(seg.f(x), r)
+def _lost_mass_op(p, q):
+    return numpy.where(numpy.equal(q, 0), p, 0.0)
+def _relative_entropy_op(p, q):
+    tiny = numpy.finfo(float).tiny
+    return p * (numpy.log(numpy.maximum(p, tiny)) - numpy.log(numpy.maximum(q, tiny)))
 def _scalar_segfun_op(seg, op, r, x):
     return op(r, seg.f(x))
 def _segfun_segfun_op(seg1, seg2, op, x):
@@ -2014,7 +2019,11 @@ class PiecewiseDistribution(PiecewiseFunction):
         return fun.integrate()**0.5
 
     def KL_distance(self, other):
-        fun = self * (self._log() - other._log())
+        # mass of self where other vanishes (or underflows)
+        lost = self._operation__(other, operation = _lost_mass_op).integrate()
+        if lost > 1e-3:
+            return numpy.inf
+        fun = self._operation__(other, operation = _relative_entropy_op)
         return fun.integrate()
 
     def tailexp(self):
-- 
2.43.0


From d3d068ba7bada26ca8df179c1c542728c1b198b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:03 +0000
Subject: [PATCH 029/108] fix: sum of a discrete variable and a density with
 poles at both ends of a segment

---
 pacal/indeparith.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index b15dcf6..6075125 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -161,6 +161,12 @@ def conv(f, g):
                 print("probably deriv pole", estimateDegreeOfPole(fun, breaks[i+1][0], pos = False, deriv = True))
             elif params.segments.debug_info:
                 print("probably no deriv pole", estimateDegreeOfPole(fun, breaks[i+1][0], pos = False, deriv = True))
+        if left_pole and right_pole:
+            # an interpolated segment has a pole at one end only
+            c = (breaks[i][0] + breaks[i+1][0]) / 2.0
+            fg.addSegment(Segment(breaks[i][0], c, fun).toInterpolatedSegment(left_pole = True))
+            fg.addSegment(Segment(c, breaks[i+1][0], fun).toInterpolatedSegment(right_pole = True))
+            continue
         segint = seg.toInterpolatedSegment(left_pole, NoL, right_pole, NoR)
         fg.addSegment(segint)
     # Discrete parts of distributions
-- 
2.43.0


From 95d8c1e6a5bb7d01cccb29869ac07b204638b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 030/108] fix: interpolation with a pole of a function which
 changes sign gave nan (interpolated inverse cdf)

---
 pacal/interpolation.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index be7d86c..90948e4 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -29,7 +29,7 @@ from numpy import minimum, maximum
 from numpy import newaxis, subtract, isscalar, hstack
 from numpy import finfo, size, double
 from numpy import isnan, isinf
-from numpy import arange, cos, sin, log, exp, pi, log1p, expm1
+from numpy import arange, cos, sin, log, exp, pi, log1p, expm1, arcsinh, sinh, cosh
 
 from numpy import cumsum, flipud, real, imag, linspace
 from numpy.linalg import eigvals
@@ -587,6 +587,11 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
 #        return self.Xs, self.Ys
 
 
+def _changes_sign(f, a, b):
+    """True if f takes values of opposite signs at the ends of [a, b]."""
+    ends = asarray(f(array([a, b], dtype = double)))
+    return ends.min() < -1e-8 and ends.max() > 1e-8
+
 #class PoleInterpolatorP(ChebyshevInterpolator1):
 class PoleInterpolatorP(ChebyshevInterpolatorNoL):
     def xt(self, x):
@@ -607,16 +612,21 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
         else:
             offset = abs(a) * finfo(double).eps
         self.offset = offset
+        self.mixed = _changes_sign(self.wrapped_f, self.xt(self.xtinv(a)), b)
         super(PoleInterpolatorP, self).__init__(_wrap_f(self.spec_f),
                                                 self.xtinv(self.orig_a), self.xtinv(self.orig_b),
                                                 *args, **kwargs)
     def spec_f(self, x):
+        if self.mixed:
+            return arcsinh(self.wrapped_f(self.xt(x)))
         return log1p(self.sign * self.wrapped_f(self.xt(x)))
     def interp_at(self, x):
+        if self.mixed:
+            return sinh(super(PoleInterpolatorP, self).interp_at(self.xtinv(x)))
         y = self.sign * expm1(abs(super(PoleInterpolatorP, self).interp_at(self.xtinv(x))))
         return y
     def getNodes(self):
-        return self.xt(self.Xs), self.sign * expm1(self.Ys)
+        return self.xt(self.Xs), sinh(self.Ys) if self.mixed else self.sign * expm1(self.Ys)
     def test_accuracy_tmp(self, new_Xs, new_Ys):
         """Test accuracy by comparing true and interpolated values at
         given points."""
@@ -628,7 +638,8 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
         Ys = concatenate(([self.Ys[0]], self.Ys))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
+        outer = cosh if self.mixed else exp
+        Ys = outer(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
@@ -654,16 +665,21 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         else:
             offset = abs(b) * finfo(double).eps
         self.offset = offset
+        self.mixed = _changes_sign(self.wrapped_f, a, self.xt(self.xtinv(b)))
         super(PoleInterpolatorN, self).__init__(_wrap_f(self.spec_f),
                                                 self.xtinv(self.orig_a), self.xtinv(self.orig_b),
                                                 *args, **kwargs)
     def spec_f(self, x):
+        if self.mixed:
+            return arcsinh(self.wrapped_f(self.xt(x)))
         return log1p(self.sign * self.wrapped_f(self.xt(x)))
     def interp_at(self, x):
+        if self.mixed:
+            return sinh(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
         y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
         return y
     def getNodes(self):
-        return self.xt(self.Xs), expm1(self.Ys)
+        return self.xt(self.Xs), sinh(self.Ys) if self.mixed else expm1(self.Ys)
     #def test_accuracy(self, new_Xs, new_Ys):
     #    """Test accuracy by comparing true and interpolated values at
     #    given points."""
@@ -675,7 +691,8 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         Ys = concatenate((self.Ys, [self.Ys[-1]]))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
+        outer = cosh if self.mixed else exp
+        Ys = outer(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
-- 
2.43.0


From 19916d09d0ab77a46ce89d924f879b01f0c9f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 031/108] fix: conditioning of mixed, discrete and bounded
 distributions

---
 pacal/distr.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index cd6a3ef..63e7e85 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1240,20 +1240,28 @@ class ConstDistr(DiscreteDistr):
     def getName(self):
         return str(self.c)
 
+def _conditional_pdf(f, L = -Inf, U = Inf):
+    """Restrict the density f, atoms included, to the open interval (L, U) and
+    normalize it."""
+    restricted = PiecewiseDistribution([])
+    for seg in f.splitByPoints([p for p in (L, U) if isfinite(p)]).segments:
+        if seg.isDirac():
+            if L < seg.a < U:
+                restricted.addSegment(seg)
+        elif L <= seg.a and seg.b <= U:
+            restricted.addSegment(seg)
+    mass = restricted.integrate()
+    if not mass > 0:
+        raise ValueError("Probability of the condition is 0")
+    return (1.0 / mass) * restricted
+
 class CondGtDistr(Distr):
     def __init__(self, d, L=None, **kwargs):
         self.L = L
         self.d = d
         super(CondGtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        Z = MaxDistr(ConstDistr(self.L), self.d)
-        # Do poprawki zostaja tu diraki o wys.=0, tak samo Lt
-        #print Z.get_piecewise_pdf(), self.L
-        while(Z.get_piecewise_pdf().segments[0].a<self.L):
-            diracB = Z.get_piecewise_pdf().segments.pop(0)
-        diracB = Z.get_piecewise_pdf().segments.pop(0)
-        #print Z.get_piecewise_pdf(), diracB
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        self.piecewise_pdf = _conditional_pdf(self.d.get_piecewise_pdf(), L = self.L)
     def __str__(self):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
@@ -1275,9 +1283,7 @@ class CondLtDistr(Distr):
         self.d = d
         super(CondLtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        Z = MinDistr(ConstDistr(self.U), self.d)
-        diracB = Z.get_piecewise_pdf().segments.pop(-1)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        self.piecewise_pdf = _conditional_pdf(self.d.get_piecewise_pdf(), U = self.U)
     def __str__(self):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
@@ -1294,14 +1300,7 @@ class CondBetweenDistr(Distr):
         self.d = d
         super(CondBetweenDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        #Z = MaxDistr(ConstDistr(self.L), self.d)
-        #Z = MinDistr(Z, ConstDistr(self.U))
-        #Z = min(max(self.d, self.L), self.U)
-        Z = max(min(self.d, self.U), self.L)
-        diracL = Z.get_piecewise_pdf().segments.pop(0)
-        diracU = Z.get_piecewise_pdf().segments.pop(-1)
-        pmass = 1. - (diracL.f + diracU.f)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1./pmass])).get_piecewise_pdf()
+        self.piecewise_pdf = _conditional_pdf(self.d.get_piecewise_pdf(), L = self.L, U = self.U)
 
     def __str__(self):
         return "{0} | {1}<X<{2}".format(self.d, self.L, self.U)
-- 
2.43.0


From cec505d96f3360cad70c4604437f36a9aad53792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:35 +0000
Subject: [PATCH 032/108] fix: inverse of a variable with no probability around
 zero had an infinite range

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 0cc5efa..256c70d 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1443,6 +1443,8 @@ class PiecewiseFunction(object):
         copyFunction = self.__class__([])
         for seg in self_with_zero.segments:
             segcomp = seg.probInverse(pole_at_zero = pole_at_zero)
+            if not isfinite(segcomp.b - segcomp.a) and segcomp.integrate() == 0:
+                continue # the image of a gap around zero, keep the range finite
             copyFunction.addSegment(segcomp)
         return copyFunction
     def copySquareComposition(self):
-- 
2.43.0


From b736df8fbf8fe3cf78f58f7dd32ae8b52fd92c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 033/108] fix: PiecewiseFunction built from a list of segments
 failed, and instances built without arguments shared it

---
 pacal/segments.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 256c70d..dad2a0c 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1060,14 +1060,9 @@ class PiecewiseFunction(object):
                 else:
                     assert(False) # no segment of such type
         else:
-            # TODO to remove
-            self.segments = segments
-            if len(segments)>0 :
-                i=0
-                for seg in self.segments:
-                    self.breaks[i]=seg.a
-                    i=i+1;
-                self.breaks[i]=seg.b
+            self.segments = []
+            for seg in segments:
+                self.addSegment(seg)
 
     def __call__(self, x):
         if isscalar(x):
-- 
2.43.0


From 6d51e50865d32c03bfbae3a87f17086baa5f7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:32 +0000
Subject: [PATCH 034/108] fix: min and max of discrete variables had atoms of
 probability 0

---
 pacal/indeparith.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 6075125..0d0f953 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1479,7 +1479,8 @@ def _probDiracsInMin(f, g):
             h_discr.addSegment(DiracSegment(gi.a, gi.f * dirac_f.f))
     f_discr.add_diracs(g_discr)
     f_discr.add_diracs(h_discr)
-    return f_discr
+    # atoms which can never be the minimum
+    return PiecewiseDistribution([seg for seg in f_discr.getDiracs() if seg.f != 0])
 
 def _probDiracsInMax(f, g):
     """return discrete part of convmax
@@ -1497,7 +1498,8 @@ def _probDiracsInMax(f, g):
             h_discr.addSegment(DiracSegment(gi.a, gi.f * dirac_f.f))
     f_discr.add_diracs(g_discr)
     f_discr.add_diracs(h_discr)
-    return f_discr
+    # atoms which can never be the maximum
+    return PiecewiseDistribution([seg for seg in f_discr.getDiracs() if seg.f != 0])
 def dumpSegList(segList):
     """It dump segLis, for debug purposes only.
     """
-- 
2.43.0


From 57b8f91799e39cc6027fe4c02e81c5242b85fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:55 +0000
Subject: [PATCH 035/108] fix: min and max of a variable with a potential pole
 had nan density

---
 pacal/indeparith.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 0d0f953..7853d16 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -716,15 +716,15 @@ def _interp_min_max(f, g, a, b, fun):
     account poles of f and g at the ends of the interval.
     """
     segs = f.segments + g.segments
-    left_pole = (any([seg.hasLeftPole() and seg.a == a for seg in segs])
-                 and testPole(fun, a, deriv = False))
-    right_pole = (any([seg.hasRightPole() and seg.b == b for seg in segs])
-                  and testPole(fun, b, pos = False, deriv = False))
+    NoL = any([seg.hasLeftPole() and seg.a == a for seg in segs])
+    NoR = any([seg.hasRightPole() and seg.b == b for seg in segs])
+    left_pole = NoL and testPole(fun, a, deriv = False)
+    right_pole = NoR and testPole(fun, b, pos = False, deriv = False)
     if left_pole and right_pole:
         c = (a + b) / 2.0
         return [Segment(a, c, fun).toInterpolatedSegment(left_pole = True),
                 Segment(c, b, fun).toInterpolatedSegment(right_pole = True)]
-    return [Segment(a, b, fun).toInterpolatedSegment(left_pole = left_pole, right_pole = right_pole)]
+    return [Segment(a, b, fun).toInterpolatedSegment(left_pole, NoL, right_pole, NoR)]
 
 def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpoint !!!
     """Probabilistic minimum of f and g.
-- 
2.43.0


From d2f9d42c305243608efc4875bd44dc76dc0e12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 036/108] fix: pdf of functions of a variable at zero, at atoms
 and for arrays

---
 pacal/distr.py | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 63e7e85..f14ccfe 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -576,15 +576,6 @@ class FuncDistr(FuncRV, OpDistr):
 
     def f_inv_deriv(self, x):
         pass
-    def pdf(self, x):
-        y = self.d.pdf(self.f_inv(x)) * abs(self.f_inv_deriv(x))
-        if isscalar(x):
-            if not isfinite(y):
-                y = 0
-        else:
-            mask = isfinite(y)
-            y[~mask] = 0
-        return y
     def rand_op(self, n, cache):
         return self.f(self.d.rand(n, cache))
     def init_piecewise_pdf(self):
@@ -600,8 +591,6 @@ class ShiftedScaledDistr(ShiftedScaledRV, OpDistr):
             self._1_scale = 1.0 / scale
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyShiftedAndScaled(self.shift, self.scale)
-    def pdf(self, x):
-        return abs(self._1_scale) * self.d.pdf((x - self.shift) * self._1_scale)
     def rand_op(self, n, cache):
         return self.scale * self.d.rand(n, cache) + self.shift
 
@@ -802,14 +791,6 @@ class InvDistr(InvRV, OpDistr):
     def __init__(self, d):
         super(InvDistr, self).__init__(d)
         self.pole_at_zero = False
-    def pdf(self, x):
-        if isscalar(x):
-            y = self.d.pdf(1.0/x)/x**2
-        else:
-            y = zeros_like(x, dtype=float)
-            mask = x != 0
-            y[mask] = y = self.d.pdf(1.0/x[mask])/x[mask]**2
-        return y
     def rand_op(self, n, cache):
         return 1.0/self.d.rand(n, cache)
     @staticmethod
@@ -899,17 +880,6 @@ class AbsDistr(OpDistr):
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyAbsComposition()
-    def pdf(self, x):
-        if isscalar(x):
-            if x < 0:
-                y = 0
-            else:
-                y = self.d.pdf(-x) + self.d.pdf(x)
-        else:
-            y = zeros_like(x, dtype=float)
-            mask = x >= 0
-            y[mask] = self.d.pdf(-x[mask]) + self.d.pdf(x[mask])
-        return y
     def rand_op(self, n, cache):
         return abs(self.d.rand(n, cache))
     def __str__(self):
@@ -924,12 +894,6 @@ class SquareDistr(OpDistr):
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
-    def pdf(self,x):
-        if x <= 0:  # won't work for x == 0
-            f = 0
-        else:
-            f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
-        return f
     def rand_op(self, n, cache):
         r = self.d.rand(n, cache)
         return r * r
-- 
2.43.0


From af972214f1cfed7e935f37df2299cda00e7d6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 037/108] fix: quadrature that did not converge failed instead
 of returning its estimate

---
 pacal/integration.py | 8 ++++----
 pacal/params.py      | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index 687004b..841cd50 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -28,7 +28,7 @@ from .utils import cheb_nodes, incremental_cheb_nodes
 from .utils import combine_interpolation_nodes_fast
 from .utils import combine_interpolation_nodes_fast_vector
 from .utils import convergence_monitor
-from .utils import debug_plot
+from .utils import debug_plot as show_debug_plot
 
 from .vartransforms import VarTransformAlgebraic_PMInf
 from .vartransforms import VarTransformAlgebraic_PInf
@@ -89,7 +89,7 @@ def fejer2_coefficients(n):
 
 
 def integrate_clenshaw(f, a, b, maxn = 2**16, tol = 10e-16,
-                       debug_info = True, debug_plot = True):
+                       debug_info = True, debug_plot = False):
     n = 3
     prevI = None
     nodes = None
@@ -116,7 +116,7 @@ def integrate_clenshaw(f, a, b, maxn = 2**16, tol = 10e-16,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        show_debug_plot(a, b, nodes, fs, coeffs)
     return I, err
 
 def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
@@ -156,7 +156,7 @@ def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        show_debug_plot(a, b, nodes, fs, coeffs)
     # return currently best result
     I, err, _extra = cm.get_best_result()
     return I, err
diff --git a/pacal/params.py b/pacal/params.py
index d7526e9..fdc369f 100755
--- a/pacal/params.py
+++ b/pacal/params.py
@@ -129,7 +129,6 @@ class interpolation_nd(interpolation):
 # integration in arithmetic operations for target value in
 # finite/infinite/asymptotic/pole segments
 class integration_finite(integration):
-    debug_plot = True
     maxn = 10000
 class integration_infinite(integration):
     exponent = 6
-- 
2.43.0


From 8be5a92294a89424118d2835654512ad6916a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 038/108] fix: splitByPoints needed sorted distinct points

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index dad2a0c..5d8f3a7 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1791,7 +1791,7 @@ class PiecewiseFunction(object):
         return fun
     def splitByPoints(self, points):
         """Pointwise subtraction of two piecewise functions """
-        points = array(points)
+        points = unique(array(points))
         fun = self.__class__([])
         for seg in self.segments:
             inds = points[(seg.a<points) & (points<seg.b)]
-- 
2.43.0


From 3bc39b16d16ad3280d444a288c4119860f751043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:15 +0000
Subject: [PATCH 039/108] fix: roots of interpolated constant and linear
 functions failed

---
 pacal/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index ffa5d57..5b1732e 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -225,7 +225,16 @@ def cheb1companion(c):
     CT[-1, -2] = CT[-1, -2] + .5
     return CT
 def chebroots(c):
-    return np.sort(eigvals(cheb1companion(c)))
+    """roots of s_n[f] = sum_{i=0}^n c_i T_i(x)"""
+    c = np.asarray(c)
+    # leading coefficients at rounding level make the companion matrix (nearly) infinite
+    significant = np.flatnonzero(abs(c) > 50 * finfo(float).eps * np.max(abs(c)))
+    if len(significant) == 0 or significant[-1] == 0: # constant
+        return np.array([])
+    c = c[:significant[-1] + 1]
+    if len(c) == 2:
+        return np.array([-c[0] / c[1]])
+    return np.sort(eigvals(cheb1companion(c)[::-1, ::-1])) # rotated as in numpy: more accurate
 def epsunique(tab, eps = params.segments.unique_eps):
     ub = np.unique(tab[isnan(tab)==False])
     return ub[~np.isfinite(ub) | np.hstack((True, (np.diff(ub)/np.maximum(1,np.abs(ub[1:])))>eps))]
-- 
2.43.0


From 8cf0fa24668039d2e1b15a6edf5d6d7c5f5fc59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:35 +0000
Subject: [PATCH 040/108] fix: highest Chebyshev coefficient was doubled,
 derivatives and roots of low degree interpolants were wrong

---
 pacal/interpolation.py | 2 ++
 pacal/utils.py         | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 90948e4..455f299 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -158,6 +158,8 @@ class BarycentricInterpolator(Interpolator):
             cdiff[1::2] = cumsum(v[1::2]);
             cdiff[-1] = .5 * cdiff[-1];
             cdiff = cdiff[2:];
+            if len(cdiff) < 2: # keep both ends of the interval as nodes
+                cdiff = concatenate((zeros(2 - len(cdiff)), cdiff))
             Ydiffvals = ichebt2(cdiff) / ((self.Xs[-1] - self.Xs[0]) * 0.5)
             Ydiffvals = flipud(Ydiffvals)
             Xs, Ws = chebspace(self.Xs[0], self.Xs[-1], len(Ydiffvals), returnWeights=True)
diff --git a/pacal/utils.py b/pacal/utils.py
index 5b1732e..93eb444 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -178,14 +178,16 @@ def chebt2(f):
     #print n, len(fftcoef)
     #print fftcoef[n-1:]
     #print fftcoef[n-1:0:-1]
-    fftcoef[n-1:0:-1] += fftcoef[n-1:] # z+conj(z)
+    fftcoef[n-2:0:-1] += fftcoef[n:] # z+conj(z)
     return fftcoef[n-1::-1]
     #return c
 def ichebt2(c):
     """inverse chebyshev transformation, values of function in Chebyshev
     nodes of the second kind, see chebfun for details"""
     n = len(c)
-    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, c[0:-1]/2));
+    if n == 1:
+        return np.array(c)
+    oncircle = np.concatenate(([c[-1]], c[-2:0:-1]/2, [c[0]], c[1:-1]/2));
     v = np.real(ifft(oncircle));
     f = (n-1)*np.concatenate(([2*v[0]], v[1:n-1]+v[-1:n-1:-1], [2*v[n-1]] ))
     return f
-- 
2.43.0


From 8defeae02b53a6c800fe75c07ff5e5ec7b366657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:36 +0000
Subject: [PATCH 041/108] fix: maxima and minima of functions with gaps were
 paired with wrong points

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 5d8f3a7..9d8db3c 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1215,7 +1215,7 @@ class PiecewiseFunction(object):
         xi = df.roots()
         mi = self(xi);
         segVals = self.getSegVals()
-        xi = concatenate((xi, self.getBreaks()[0:-1], self.getBreaks()[1:]))
+        xi = concatenate((xi, [seg.a for seg in self.segments], [seg.b for seg in self.segments]))
         mi = concatenate((mi, [v[0]  for v in segVals], [v[1]  for v in segVals] ))
         return mi, xi
     def max_(self):
-- 
2.43.0


From 2ee511fc7df97f7e533a262504311c1f7a143ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:36 +0000
Subject: [PATCH 042/108] fix: trimming interpolants dropped negative leading
 coefficients and failed on other segments

---
 pacal/interpolation.py | 6 +++++-
 pacal/segments.py      | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 455f299..0258771 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -260,7 +260,7 @@ class ChebyshevInterpolator(BarycentricInterpolator, AdaptiveInterpolator):
         c = chebt2(self.Ys)
         if abstol is None:
             abstol = params.interpolation.convergence.abstol
-        while c[0] < abstol:
+        while len(c) > 2 and abs(c[0]) < abstol:
             c = c[1:]
         Ydiffvals = ichebt2(c)
         Ydiffvals = flipud(Ydiffvals)
@@ -314,6 +314,8 @@ class ChebyshevInterpolatorNoL(ChebyshevInterpolator):
         return super(ChebyshevInterpolatorNoL, self).diff(use_2nd=False)
     def roots(self):
         return super(ChebyshevInterpolatorNoL, self).roots(use_2nd=False)
+    def trim(self, abstol=None): # coefficients are not available for these nodes
+        return self
 class ChebyshevInterpolatorNoR(ChebyshevInterpolator):
     """Adaptive Chebyshev interpolator without rightmost point"""
     def init_weights(self, Xs):
@@ -335,6 +337,8 @@ class ChebyshevInterpolatorNoR(ChebyshevInterpolator):
         return super(ChebyshevInterpolatorNoR, self).diff(use_2nd=False)
     def roots(self):
         return super(ChebyshevInterpolatorNoR, self).roots(use_2nd=False)
+    def trim(self, abstol=None): # coefficients are not available for these nodes
+        return self
 
 class AdaptiveInterpolator1(object):
     """Mix-in class for adaptive interpolators with 3*n rule"""
diff --git a/pacal/segments.py b/pacal/segments.py
index 9d8db3c..359292f 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -191,7 +191,7 @@ class Segment(object):
         return self.toInterpolatedSegment().diff()
     def roots(self):
         return self.toInterpolatedSegment().roots()
-    def trim(self):
+    def trim(self, abstol=None):
         return self
 
     def maximum(self):
@@ -973,6 +973,8 @@ class MInfInterpolatedSegment(InterpolatedSegment, MInfSegment):
     """
     def __init__(self, b, interpolatorOfF):
         MInfSegment.__init__(self, b, interpolatorOfF)
+    def trim(self, abstol=None):
+        return self
     def diff(self):
         return MInfInterpolatedSegment(self.a, self.f.diff())
 class PInfInterpolatedSegment(InterpolatedSegment, PInfSegment):
@@ -980,6 +982,8 @@ class PInfInterpolatedSegment(InterpolatedSegment, PInfSegment):
     """
     def __init__(self, a, interpolatorOfF):
         PInfSegment.__init__(self, a, interpolatorOfF)
+    def trim(self, abstol=None):
+        return self
     def diff(self):
         return PInfInterpolatedSegment(self.a, self.f.diff())
 class breakPoint(object):
-- 
2.43.0


From 5bcbc15109f508590f5069a9e35ee183989a74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 043/108] fix: piecewise function on [a, inf) given by two
 breakpoints had a finite segment

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 359292f..cba5d5b 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1030,6 +1030,8 @@ class PiecewiseFunction(object):
             self.segments = []
             if (isinf(self.breaks[0])):
                 self.addSegment(MInfSegment(self.breaks[1],fun))
+            elif len(breakPoints) == 2 and isinf(self.breaks[1]):
+                self.addSegment(PInfSegment(self.breaks[0], fun))
             else:
                 if self.lpoles[0] == False and self.rpoles[1] == False:
                     self.addSegment(Segment(self.breaks[0], self.breaks[1], fun))
-- 
2.43.0


From 438132144c0b5dae76e99865451824bc54d479d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:29 +0000
Subject: [PATCH 044/108] fix: interpolating integer valued data failed in the
 compiled evaluation

---
 pacal/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 0258771..4061db5 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -58,8 +58,8 @@ except:
 class Interpolator(object):
     """Polynomial interpolation base class"""
     def __init__(self, Xs, Ys):
-        self.Xs = array(Xs)
-        self.Ys = array(Ys)
+        self.Xs = array(Xs, dtype=float)
+        self.Ys = array(Ys, dtype=float)
         #self.n = len(self.Xs)
     def add_nodes(self, new_Xs, new_Ys):
         """Add new interpolation nodes."""
-- 
2.43.0


From 96b280d357d69e766dac0851bb81d79e3354bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:30 +0000
Subject: [PATCH 045/108] fix: nodes and derivatives of interpolated negative
 poles had the wrong sign

---
 pacal/interpolation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 4061db5..4129b04 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -645,7 +645,7 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
         outer = cosh if self.mixed else exp
-        Ys = outer(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
+        Ys = (1 if self.mixed else self.sign) * outer(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
@@ -666,6 +666,8 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         self.orig_a = a
         self.orig_b = b
         self.sign = int(sign(self.wrapped_f(float(a + b) / 2)).item())
+        if self.sign == 0:
+            self.sign = 1
         if b == 0:
             offset = 1e-50
         else:
@@ -685,7 +687,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
         return y
     def getNodes(self):
-        return self.xt(self.Xs), sinh(self.Ys) if self.mixed else expm1(self.Ys)
+        return self.xt(self.Xs), sinh(self.Ys) if self.mixed else self.sign * expm1(self.Ys)
     #def test_accuracy(self, new_Xs, new_Ys):
     #    """Test accuracy by comparing true and interpolated values at
     #    given points."""
@@ -698,7 +700,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
         outer = cosh if self.mixed else exp
-        Ys = outer(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
+        Ys = (1 if self.mixed else self.sign) * outer(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
-- 
2.43.0


From 39cc088b7b7cbf5dfebd1a48718e544855a0e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:18 +0000
Subject: [PATCH 046/108] fix: geometric averages of 1..n copies all took the
 n-th root

---
 pacal/stats/iid_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index d3d1423..707f4eb 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -127,7 +127,7 @@ def iid_average(X, n, all = False):
 def iid_average_geom(X, n, all = False):
     #return iid_op2(X, n, op = _lambda_average_geom, all = all)
     if all:
-        return [x**(1.0/n) for x in iid_prod(X, n, all=True)]
+        return [x**(1.0/(i+1)) for i, x in enumerate(iid_prod(X, n, all=True))]
     return iid_prod(X, n)**(1.0/n)
 
 
-- 
2.43.0


From 46a6e7bc2445bbc65ad5ef1f1ab4f7892fd3d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 047/108] fix: order statistics lost accuracy when combined,
 mean of the top order statistics was inaccurate

---
 pacal/standard_distr.py |  2 ++
 pacal/stats/iid_ops.py  | 21 +++++++++++----------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 0ee7b0e..85f4b95 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -65,6 +65,8 @@ class PDistr(Distr):
         return "PDISTR({0},{1})".format(self.get_piecewise_pdf().segments[0].a, self.get_piecewise_pdf().segments[-1].b)
     def rand_raw(self, n = 1):
         return self.rand_invcdf(n)
+    def range(self):
+        return self.get_piecewise_pdf().range()
 
 class MixDistr(Distr):
     """Mixture of distributions"""
diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index 707f4eb..0637446 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -6,8 +6,7 @@ import operator
 
 import pacal.distr
 from pacal.utils import binomial_coeff
-from pacal.standard_distr import PDistr, FunDistr, ZeroDistr
-from pacal.segments import PiecewiseFunction
+from pacal.standard_distr import PDistr
 
 from pacal import params
 
@@ -49,21 +48,23 @@ def iid_min(X, n, all = False):
 def iid_max(X, n, all = False):
     return iid_op(X, n, op = pacal.distr.max, all = all)
 
-def iid_order_stat(X, n, k, **kwargs):
-    """It gives distribution of $k$-th observation in ordered sample size of n."""
+def _order_stat_pdf(X, n, k):
     pdf = X.get_piecewise_pdf()
     cdf = X.get_piecewise_cdf()
     ccdf = 1 - X.get_piecewise_cdf()
     fun = (k * binomial_coeff(n, k)) * pdf * (pow(cdf, k-1) * pow(ccdf, n-k))
-    #return PDistr(fun.toInterpolated())
-    return FunDistr(fun = fun.toInterpolated(), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
+    return fun.toInterpolated()
+def iid_order_stat(X, n, k, **kwargs):
+    """It gives distribution of $k$-th observation in ordered sample size of n."""
+    # segments are used directly: a function of the whole real line is not continuous up to the ends of segments
+    return PDistr(_order_stat_pdf(X, n, k).segments, **kwargs)
 def iid_unknown(X, n, k, **kwargs):
     """It gives distribution of sample _unknown on level k based on sample size of n."""
-    fun = PiecewiseFunction([])
-    for i in range(k, n+1):
-        fun += iid_order_stat(X, n, i).get_piecewise_pdf()
+    fun = _order_stat_pdf(X, n, k)
+    for i in range(k+1, n+1):
+        fun = fun + _order_stat_pdf(X, n, i)
     fun2 = (1.0 / (1+n-k)) * fun
-    return FunDistr(fun = fun2.toInterpolated(), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
+    return PDistr(fun2.toInterpolated().segments, **kwargs)
 
 
 def iid_median(X, n):
-- 
2.43.0


From fb844c2c58ea5f1d46218ed661429ce3b1a7fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 048/108] fix: end of a half line was mapped outside of it,
 tails were interpolated with errors up to 1e-2

---
 pacal/vartransforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pacal/vartransforms.py b/pacal/vartransforms.py
index 8c3c49b..0050ad5 100644
--- a/pacal/vartransforms.py
+++ b/pacal/vartransforms.py
@@ -107,9 +107,9 @@ class VarTransformReciprocal_PInf(VarTransform):
         return t
     def inv_var_change(self, t):
         if self.exponent == 1:
-            x = self.L - self.offset + self.offset / t
+            x = self.L + self.offset * (1.0 / t - 1.0)
         else:
-            x = self.L - self.offset + self.offset / t**self.exponent
+            x = self.L + self.offset * (1.0 / t**self.exponent - 1.0)
         return x
     def inv_var_change_deriv(self, t):
         if self.exponent == 1:
@@ -148,11 +148,11 @@ class VarTransformReciprocal_MInf(VarTransform):
         return t
     def inv_var_change(self, t):
         if self.exponent == 1:
-            x = self.U + self.offset - self.offset / t
+            x = self.U - self.offset * (1.0 / t - 1.0)
         elif self.exponent == 2:
-            x = self.U + self.offset - self.offset / (t*t)
+            x = self.U - self.offset * (1.0 / (t*t) - 1.0)
         else:
-            x = self.U + self.offset - self.offset / t**self.exponent
+            x = self.U - self.offset * (1.0 / t**self.exponent - 1.0)
         return x
     def inv_var_change_deriv(self, t):
         if self.exponent == 1:
-- 
2.43.0


From 4c843c584a373efb83c910fc58a2e836dd51316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 049/108] fix: tails which underflow to zero had infinite mass

---
 pacal/interpolation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 4129b04..f0d0c84 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -28,7 +28,7 @@ from numpy import where, dot, zeros
 from numpy import minimum, maximum
 from numpy import newaxis, subtract, isscalar, hstack
 from numpy import finfo, size, double
-from numpy import isnan, isinf
+from numpy import isnan, isinf, isfinite
 from numpy import arange, cos, sin, log, exp, pi, log1p, expm1, arcsinh, sinh, cosh
 
 from numpy import cumsum, flipud, real, imag, linspace
@@ -859,6 +859,11 @@ class PInfInterpolator(object):
             self.vb = VarTransformInterpolator(self.f, self.vt, par=params.interpolation_infinite)
             self.vl = LogTransformInterpolator(self.f, self.x_vb_max, par=params.interpolation_asymp)
             self.U = self.vl.orig_b
+            if not isfinite(self.vl.Ys).all():
+                # the function underflows to 0 at some points, logarithms
+                # cannot be interpolated; ignore the remaining tail
+                self.vl = None
+                self.U = np.inf
         if params.interpolation_asymp.debug_info:
             #print "vb.minmax", L, Ut
             if self.vl is not None:
@@ -868,6 +873,8 @@ class PInfInterpolator(object):
         if isscalar(x):
             if self.x_vb_max is None or x <= self.x_vb_max:
                 y = self.vb(x)
+            elif self.vl is None:
+                y = 0.0
             else:
                 y = self.vl(x)
         else:
@@ -877,7 +884,7 @@ class PInfInterpolator(object):
                 y = empty_like(x)
                 mask = (x <= self.x_vb_max)
                 y[mask] = self.vb(x[mask])
-                y[~mask] = self.vl(x[~mask])
+                y[~mask] = 0 if self.vl is None else self.vl(x[~mask])
         return y
     def __call__(self, x):
         return self.interp_at(x)
-- 
2.43.0


From 0dae0967877779893680fdd9806510a8b29eb114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:18 +0000
Subject: [PATCH 050/108] fix: wide integration intervals which contain zero
 gave wrong integrals

---
 pacal/integration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pacal/integration.py b/pacal/integration.py
index 841cd50..b6e4c8d 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -271,6 +271,14 @@ def integrate_wide_interval(f, a, b, *args, **kwargs):
         b=1e100
     if isinf(a):
         a=-1e100
+    if a <= 0 <= b and max(-a, b) > wide_cond**2: # ratio of ends says nothing
+        nodes = [a] + [x for x in (-1.0, 1.0) if a < x < b] + [b]
+        I,E=0,0
+        for i in range(len(nodes) - 1):
+            integ,err = integrate_wide_interval(f, nodes[i], nodes[i+1], *args, **kwargs)
+            I+=integ
+            E+=err
+        return I, E
     if a!=0 and b!=0:
         if (b/a)>wide_cond and 0 < a < b: # positive innterwal
             # difference of logarithms: b/a may overflow
-- 
2.43.0


From af6e0061f323a1e27cedd4d6347df4015c71e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:43 +0000
Subject: [PATCH 051/108] fix: chi-square distributions with less than one
 degree of freedom had no density

---
 pacal/standard_distr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 85f4b95..3297c0b 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -255,7 +255,7 @@ class ChiSquareDistr(Distr):
         self.df = df
         self.df2 = df / 2.0
         self.lg_norm = lgamma(self.df2) + self.df2 * log(2)
-        if self.df == 1:
+        if self.df < 2:
             self.pdf_at_0 = np.inf
             self.lpdf_at_0 = np.inf
         elif self.df == 2:
@@ -296,7 +296,9 @@ class ChiSquareDistr(Distr):
                                                         lpoles=[True, False, False, False])
 
         else:
-            print("unexeepted df=", self.df)
+            self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
+                                                       breakPoints = [0.0, 1.0, np.inf],
+                                                       lpoles=[True, False, False])
         #if self.df == 1 or self.df == 3:
         #    self.piecewise_pdf.addSegment(SegmentWithPole(0, 1, self.pdf, left_pole = True))
         #else:
-- 
2.43.0


From 627537db25a75680ef2897dedab4a236e89eaf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:43 +0000
Subject: [PATCH 052/108] fix: inverse of a variable with a tail heavier than
 1/x^2 lost probability at its pole at zero

---
 pacal/segments.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index cba5d5b..6488311 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -388,21 +388,24 @@ class Segment(object):
                 return MInfSegment(g(self.a), fun)
         elif self.hasPole() and isfinite(self.a) and isfinite(self.b):
             return SegmentWithPole(g(self.b), g(self.a), fun, left_pole = self.hasRightPole())
+        elif isinf(self.b):
+            # a tail heavier than 1/x^2 becomes a pole at zero
+            if pole_at_zero or testPole(fun, 0.0, pos = True):
+                return SegmentWithPole(0.0, g(self.a), fun, left_pole = True)
+            return Segment(0.0, g(self.a), fun)
+        elif isinf(self.a):
+            if pole_at_zero or testPole(fun, 0.0, pos = False):
+                return SegmentWithPole(g(self.b), 0.0, fun, left_pole = False)
+            return Segment(g(self.b), 0.0, fun)
         else:
             if g(self.a)<=g(self.b):
                 #return Segment(g(self.a)+8* finfo(float).eps,g(self.b)-4* finfo(float).eps, fun)
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.a), g(self.b), fun)
-                else:
-                    return Segment(g(self.a), g(self.b), fun)
+                return Segment(g(self.a), g(self.b), fun)
 
             else:
                 #return Segment(g(self.b)+4* finfo(float).eps,g(self.a)-4* finfo(float).eps, fun)
                 #return Segment(g(self.b), g(self.a), fun)
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.b), g(self.a), fun)
-                else:
-                    return Segment(g(self.b), g(self.a), fun)
+                return Segment(g(self.b), g(self.a), fun)
 
     def squareComposition(self):
         """Produce square of a random variable X^2 ~ f for a given distribution f over segment [a,b]
-- 
2.43.0


From c36598e481c46f7ca76ed615bb1202553924416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 053/108] fix: mixtures were sampled with equal weights

---
 pacal/standard_distr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 3297c0b..54cb7d8 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -5,7 +5,7 @@ from __future__ import print_function
 import numpy as np
 from numpy import isscalar, zeros_like, zeros, cumsum, array, searchsorted, bincount
 from numpy import pi, sqrt, exp, log, log1p, cos, floor
-from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel, randint
+from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel
 from numpy.random import f as f_rand
 from scipy.special import xlogy, xlog1py
 
@@ -97,8 +97,10 @@ class MixDistr(Distr):
     def getName(self):
         return "MIX()".format()
     def rand_raw(self, n = 1):
+        idx = np.minimum(np.searchsorted(np.cumsum(self.probs), uniform(0, 1, n)), self.nmix - 1)
+        if n is None:
+            return self.distrs[idx].rand(None)
         r = zeros(n)
-        idx = randint(0, self.nmix, n)
         nk = bincount(idx, minlength = self.nmix)
         for k in range(self.nmix):
             r[idx == k] = self.distrs[k].rand(nk[k])
-- 
2.43.0


From e127a5afc46009af4f377bc27ff4e4d96aaf2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 054/108] fix: sampling by inverse cdf was wrong for variables
 with atoms

---
 pacal/distr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index f14ccfe..11ddd29 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -302,6 +302,9 @@ class Distr(RV):
 
         May use interpolated inverse of cdf for speed."""
         y = uniform(0, 1, n)
+        if any(seg.isDirac() for seg in self.get_piecewise_pdf().segments):
+            # interpolation does not reproduce the jumps at atoms
+            return self.get_piecewise_cdf().inverse(y)
         return self.get_piecewise_invcdf(use_interpolated=use_interpolated)(y)
     def rand(self, n = None, cache = None):
         """Generates random numbers while tracking dependencies.
-- 
2.43.0


From 887f571dd66e79a8a98760a01484622af37c156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 055/108] fix: sign of a variable was drawn independently of
 it, functions of integer draws were truncated

---
 pacal/distr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 11ddd29..60f0777 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -945,8 +945,8 @@ class FuncNoninjectiveDistr(OpDistr):
     def getName(self):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
-        X = self.d.rand(n, cache)
-        Y = zeros_like(X)
+        X = asarray(self.d.rand(n, cache))
+        Y = zeros_like(X, dtype=float)
         for i in range(len(self.intervals)):
             mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
             Y[mask] = self.fs[i](X[mask])
@@ -1086,6 +1086,9 @@ class SignDistr(DiscreteDistr):
             xi = [-1,1]; pi=[prMinus, prPlus]
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
+    def rand_op(self, n, cache):
+        return numpy.sign(self.d.rand(n, cache))
+    rand = OpDistr.rand
     def __str__(self):
         return "sign({0})".format(id(self.d))
     def getName(self):
-- 
2.43.0


From 461133beea6dd5306e41a1e883b6de068161d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 056/108] fix: single draws failed for discrete, constant and
 conditioned variables

---
 pacal/distr.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 60f0777..380e03d 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -551,7 +551,7 @@ class OpDistr(Distr):
     """Base class for operations on distributions.
 
     Currently only does caching for random number generation."""
-    def rand(self, n = 1, cache = None):
+    def rand(self, n = None, cache = None):
         if self.indep:
             return self.rand_op(n, None)
         if cache is None:
@@ -1059,10 +1059,9 @@ class DiscreteDistr(Distr):
             self.piecewise_pdf.addSegment(DiracSegment(self.xi[i], self.pi[i]))
         for i in range(len(self.xi)-1):
             self.piecewise_pdf.addSegment(ConstSegment(self.xi[i], self.xi[i+1], 0))
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         u = uniform(0, 1, n)
-        i = searchsorted(self.cumP, u)
-        i[i > len(self.xi)] = len(self.xi)
+        i = minimum(searchsorted(self.cumP, u), len(self.xi) - 1)
         return array(self.xi)[i]
     def __str__(self):
         pstr = ", ".join("{0}:{1}".format(x, p) for x, p in self.px)
@@ -1202,6 +1201,8 @@ class ConstDistr(DiscreteDistr):
         super(ConstDistr, self).__init__([c], [p], **kwargs)
         self.c = c
     def rand_raw(self, n = None):
+        if n is None:
+            return self.c
         r = zeros(n)
         r.fill(self.c)
         return r
@@ -1236,7 +1237,9 @@ class CondGtDistr(Distr):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
         return "{0} | X>{1}".format(self.d.getName(), self.L)
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
+        if n is None:
+            return self.rand_raw(1)[0]
         tab=array([])
         k=0
         while k<n:
-- 
2.43.0


From cd976fe2b0827403518cdec69a6b7d23c3e4c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 057/108] fix: adding an atom to a piecewise function changed
 other functions sharing the segment

---
 pacal/segments.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 6488311..a3da4a3 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1100,9 +1100,10 @@ class PiecewiseFunction(object):
     def addSegment(self, segment):
         """It insert segment in proper order"""
         if segment.isDirac():
-            for seg in self.getDiracs():
-                if abs(segment.a - seg.a) <= params.segments.unique_eps:
-                    seg.f += segment.f
+            for i, seg in enumerate(self.segments):
+                if seg.isDirac() and abs(segment.a - seg.a) <= params.segments.unique_eps:
+                    # the old segment may be shared with other functions
+                    self.segments[i] = DiracSegment(seg.a, seg.f + segment.f)
                     return
         if len(self.segments) > bisect.bisect_left(self.segments, segment):
             seg = self.segments[bisect.bisect_left(self.segments, segment)]
@@ -1599,12 +1600,7 @@ class PiecewiseFunction(object):
     def add_diracs(self, other):
         """Pointwise sum of discrete part of two piecewise functions """
         for other_dirac in other.getDiracs():
-            self_dirac = self.getDirac(other_dirac.a)
-            if self_dirac is None:
-                self.addSegment(other_dirac)
-            else:
-                self_dirac.f += other_dirac.f
-
+            self.addSegment(other_dirac)
 
     def __add__(self, other):
         if isinstance(other, PiecewiseFunction):
-- 
2.43.0


From 1ef66317c8dec8f250903511d3add3062d408e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:47 +0000
Subject: [PATCH 058/108] fix: powers of piecewise functions could not be sent
 to worker processes

PiecewiseFunction.__pow__ and _log1 kept local lambdas inside segments, so
with params.general.parallel on any operation on the result (e.g. the sum of
an order statistic and another variable) failed with a pickling error.
---
 pacal/segments.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index a3da4a3..614a038 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -102,6 +102,10 @@ def wrap_f(f):
     return f
 def _safe_fun_on_f_call(seg, fun, x):
     return nan_to_num(fun(seg.f(x)))
+def _power_fun(k, x):
+    return x**k
+def _neg_log_fun(x):
+    return -numpy.log(x)
 def _segfun_scalar_op(seg, op, r, x):
     return op(seg.f(x), r)
 def _lost_mass_op(p, q):
@@ -1749,7 +1753,7 @@ class PiecewiseFunction(object):
         return fun
 
     def __pow__(self, k):
-        return self._function__(fun = lambda x : x**k)
+        return self._function__(fun = partial(_power_fun, k))
     def _log(self):
         #TODO handle zeros in arguments
         return self._function__(fun = numpy.log)
@@ -1757,7 +1761,7 @@ class PiecewiseFunction(object):
         return self._function__(fun = numpy.exp)
     def _log1(self):
         #TODO handle zeros in arguments
-        return self._function__(fun = lambda x : -numpy.log(x))
+        return self._function__(fun = _neg_log_fun)
 
     def _function__(self, fun = lambda x: x):
         """Pointwise sum of two piecewise functions."""
-- 
2.43.0


From 6f1c5a8db12a4255b12412a73e7f02f82703ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:49 +0000
Subject: [PATCH 059/108] fix: sparse grid interpolation failed with current
 numpy

numpy.sum of a generator raises TypeError (it was deprecated before), so with
the default interpolation_nd.debug_info no sparse grid could be built at all.
---
 pacal/depvars/sparse_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/sparse_grids.py b/pacal/depvars/sparse_grids.py
index ce8ba33..d5dda3e 100644
--- a/pacal/depvars/sparse_grids.py
+++ b/pacal/depvars/sparse_grids.py
@@ -189,7 +189,7 @@ class AdaptiveSparseGridInterpolator(object):
             c = (-1)**(q-si) * binomial_coeff(self.d - 1, q-si)
             subgrid_map[p] = (c, array(subgrid_indices))
         if params.interpolation_nd.debug_info:
-            print(len(subgrid_map), "rect. subgrids,", sum(len(subgrid_map[k]) for k in subgrid_map), "ops per X,", len(nodes), "nodes,", end=' ')
+            print(len(subgrid_map), "rect. subgrids,", sum([len(subgrid_map[k]) for k in subgrid_map]), "ops per X,", len(nodes), "nodes,", end=' ')
             print("full grid size", self.exps[q-self.d+1]**self.d, "dim", self.d)
         return nodes, subgrid_map
 
-- 
2.43.0


From e854734c57feace832ccf1bac45494aafaaf2fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:49 +0000
Subject: [PATCH 060/108] fix: sparse grid interpolants were nan at a denormal
 distance from a node

---
 pacal/depvars/sparse_grids.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pacal/depvars/sparse_grids.py b/pacal/depvars/sparse_grids.py
index d5dda3e..5333318 100644
--- a/pacal/depvars/sparse_grids.py
+++ b/pacal/depvars/sparse_grids.py
@@ -9,6 +9,7 @@ from pacal.utils import convergence_monitor
 import pacal.params as params
 
 from numpy import array, ones, atleast_1d
+from numpy import finfo, double
 from numpy import newaxis, squeeze, exp, subtract, where, zeros_like, sum, dot, floor, linspace
 
 # import faster Cython versions if possible
@@ -230,9 +231,10 @@ class AdaptiveSparseGridInterpolator(object):
                 Xs = self.xroot_cache[i][e]
                 Ws = self.cheb_weights_cache[e]
                 diff = subtract.outer(X[i], Xs)
-                mask = (diff == 0).any(axis=-1)
+                hit = abs(diff) < finfo(double).tiny # 1/diff could overflow
+                mask = hit.any(axis=-1)
                 if any(mask):
-                    w = where(diff == 0)
+                    w = where(hit)
                     one_over_x_m_xi = zeros_like(diff)
                     one_over_x_m_xi[w] = 1
                     one_over_x_m_xi[~mask] = Ws/(diff[~mask])
@@ -268,9 +270,10 @@ class AdaptiveSparseGridInterpolator(object):
                 Xs = self.xroot_cache[i][e]
                 Ws = self.cheb_weights_cache[e]
                 diff = subtract.outer(X[i], Xs)
-                mask = (diff == 0).any(axis=-1)
+                hit = abs(diff) < finfo(double).tiny # 1/diff could overflow
+                mask = hit.any(axis=-1)
                 if any(mask):
-                    w = where(diff == 0)
+                    w = where(hit)
                     one_over_x_m_xi = zeros_like(diff)
                     one_over_x_m_xi[w] = 1
                     one_over_x_m_xi[~mask] = Ws/(diff[~mask])
-- 
2.43.0


From 61ca7f89d0f2798fcd99661e47b4197143cb6be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 061/108] fix: abs, sign, log and powers of symbolic random
 variables failed

---
 pacal/rv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index c0f29f1..a613f16 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -59,6 +59,10 @@ class RV(object):
     def range(self):
         return self.a, self.b
 
+    def is_nonneg(self):
+        """check whether the range of RV is nonnegative"""
+        return self.a >= 0
+
     def getName(self):
         """return, string representation of RV"""
         return str(self)
@@ -399,18 +403,18 @@ class InvRV(OpRV):
 class PowRV(FuncRV):
     """Inverse of random variable."""
     def __init__(self, d, alpha = 1):
-        super(PowRV, self).__init__([d], fname="pow", sym = d.getSymname()**alpha)
+        super(PowRV, self).__init__(d, fname="pow", sym = d.getSymname()**alpha)
         self.d = d
         self.alpha = alpha
     def __str__(self):
-        return "#{0}**{1}".format(self.d1.id(), self.alpha)
+        return "#{0}**{1}".format(self.d.id(), self.alpha)
     def getName(self):
         return "{0}**{1}".format(_wrapped_name(self.d), self.alpha)
 
 class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymame())) # TODO abs unpleasant in sympy
+        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymname())) # TODO abs unpleasant in sympy
         self.d = d
     def __str__(self):
         return "|#{0}|".format(self.d.id())
@@ -420,7 +424,7 @@ class AbsRV(OpRV):
 class SignRV(RV):
     def __init__(self, d):
         self.d = d
-        super(SignRV, self).__init__(d, sym = sympy.sign(d.getSymname()))
+        super(SignRV, self).__init__([d], sym = sympy.sign(d.getSymname()))
     def __str__(self):
         return "sign({0})".format(self.d.id())
     def getName(self):
-- 
2.43.0


From b1014a7185c66e32a54370284b969c27ddbcb4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 062/108] fix: getParentsAll left out the free variables

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index a613f16..d45be9b 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -165,7 +165,7 @@ class RV(object):
     def getParentsAll(self):
         l = set([self])
         for p in self.parents:
-            l.update(p.getParentsDep())
+            l.update(p.getParentsAll())
         return l
     def getParentsFree(self):
         l = set()
-- 
2.43.0


From 4142f717e525d47f558ca1c8af6c9e6f980a84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:32 +0000
Subject: [PATCH 063/108] fix: getEquations dropped the second of two variables
 with equal equations

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index d45be9b..38a973b 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -95,7 +95,7 @@ class RV(object):
         if node is None:
             node = self
         p = node.parents
-        if not node.getSym().is_Atom and not node.getSym() in set(l):
+        if not node.getSym().is_Atom and not node.getSymname() in set(r):
             l.append(node.getSym())
             r.append(node.getSymname())
         if p is None or len(p)==0:
-- 
2.43.0


From b6c2440281727ec52c7be4416a07c33159e9a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 064/108] fix: functions of distributions did not record their
 symbolic equation

exp, log, atan, tanh, sigmoid, abs, sign, squares, sin, cos and tan of a
distribution (and all powers) looked like new atomic variables, so equations
of expressions built from them could not be followed to their variables.
---
 pacal/distr.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 380e03d..2494e4b 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -9,6 +9,7 @@ from functools import partial
 
 import numpy
 import numpy as np
+import sympy
 from numpy import array, zeros_like, ones_like, unique, concatenate, isscalar, isfinite
 from numpy import sqrt, pi, arctan, tan, asarray, zeros
 #from numpy import sin, cos, tan,
@@ -29,6 +30,7 @@ from . import params
 from pacal.indeparith import conv, convprod, convdiv, convmin, convmax
 from pacal.segments import PiecewiseFunction, PiecewiseDistribution, DiracSegment, ConstSegment
 from pacal.rv import *
+from pacal.sympy_utils import sympy_abs
 
 
 def _mgf_fun(distr, t):
@@ -603,7 +605,7 @@ class ExpDistr(FuncDistr):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpDistr, self).__init__(d, pole_at_zero = True,
-                                       fname = "exp")
+                                       fname = "exp", sym = sympy.exp(d.getSymname()))
     def f(self, x):
         return numpy.exp(x)
     def f_inv(self, x):
@@ -625,7 +627,7 @@ class LogDistr(FuncDistr):
     def __init__(self, d):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
-        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log")
+        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log", sym = sympy.log(d.getSymname()))
     def f(self, x):
         return numpy.log(x)
     def f_inv(self, x):
@@ -654,7 +656,7 @@ def sign(d):
 class AtanDistr(FuncDistr):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
-        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan")
+        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan", sym = sympy.atan(d.getSymname()))
 
     def f(self, x):
         return numpy.arctan(x)
@@ -692,7 +694,7 @@ def atan(d):
 class TanhDistr(FuncDistr):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
-        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh", sym = sympy.tanh(d.getSymname()))
 
     def f(self, x):
         return numpy.tanh(x)
@@ -731,7 +733,8 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid",
+                                           sym = 1 / (1 + sympy.exp(-d.getSymname())))
 
     def f(self, x):
         if isscalar(x):
@@ -879,7 +882,7 @@ class PowDistr(PowRV, OpDistr):
 class AbsDistr(OpDistr):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsDistr, self).__init__([d])
+        super(AbsDistr, self).__init__([d], sym = sympy_abs(d.getSymname()))
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyAbsComposition()
@@ -893,7 +896,7 @@ class AbsDistr(OpDistr):
 class SquareDistr(OpDistr):
     """Injective function of random variable"""
     def __init__(self, d):
-        super(SquareDistr, self).__init__([d])
+        super(SquareDistr, self).__init__([d], sym = d.getSymname()**2)
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
@@ -917,7 +920,7 @@ def sqrt(d):
 
 class FuncNoninjectiveDistr(OpDistr):
     """Non-injective function of random variable only piecewise smooth functions are permitted"""
-    def __init__(self, d, fname="f"):
+    def __init__(self, d, fname="f", sym=None):
 # ====================================
 #        self.intervals = []
 #        self.fs = []
@@ -927,7 +930,7 @@ class FuncNoninjectiveDistr(OpDistr):
 # ====================================
         self.fname = fname
         self.d = d
-        super(FuncNoninjectiveDistr, self).__init__([d])
+        super(FuncNoninjectiveDistr, self).__init__([d], sym = sym)
     def pdf(self, x):
         return self.get_piecewise_pdf()(x)
 #    def pdf(self, x):
@@ -962,7 +965,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         self.f_invs = [lambda x: x**0.5,lambda x: -x**0.5]
         self.f_inv_derivs = [lambda x: 0.5*x**(-0.5),lambda x: -0.5*x**(-0.5)]
         self.pole_at_zero = True
-        super(Sq2Distr, self).__init__(d, fname = "sin")
+        super(Sq2Distr, self).__init__(d, fname = "sqr", sym = d.getSymname()**2)
     def is_nonneg(self):
         return True
 
@@ -980,7 +983,7 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arcsin, _pi_m_arcsin]
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
-        super(SinDistr, self).__init__(d, fname = "sin")
+        super(SinDistr, self).__init__(d, fname = "sin", sym = sympy.sin(d.getSymname()))
     def is_nonneg(self):
         return True
 def sin(d):
@@ -1003,7 +1006,7 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arccos, _twopi_m_arccos]
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
-        super(CosDistr, self).__init__(d, fname = "cos")
+        super(CosDistr, self).__init__(d, fname = "cos", sym = sympy.cos(d.getSymname()))
     def is_nonneg(self):
         return True
 def cos(d):
@@ -1015,7 +1018,7 @@ def cos(d):
 class TanDistr(FuncDistr):
     """Tangent of a random variable"""
     def __init__(self, d):
-        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan")
+        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan", sym = sympy.tan(d.getSymname()))
     def f(self, x):
         if isscalar(x):
             return numpy.tan(x) if abs(x) != pi/2 else numpy.sign(x) * Inf
@@ -1085,6 +1088,7 @@ class SignDistr(DiscreteDistr):
             xi = [-1,1]; pi=[prMinus, prPlus]
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
+        self.sym = sympy.sign(d.getSymname())
     def rand_op(self, n, cache):
         return numpy.sign(self.d.rand(n, cache))
     rand = OpDistr.rand
-- 
2.43.0


From 4397b3a154e431f9c11731ad740570fcf959dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 065/108] fix: sigmoid of a number or array failed

---
 pacal/distr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 2494e4b..aad26a8 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -774,9 +774,10 @@ class SigmoidDistr(FuncDistr):
         return y
 
 def sigmoid(d):
-    """Overload the tanh function."""
+    """Overload the sigmoid function."""
     if isinstance(d, Distr):
         return SigmoidDistr(d)
+    x = d
     if isscalar(x):
         if x > 0:
             y = 1.0 / (1.0 + numpy.exp(-x))
-- 
2.43.0


From 8efabeeeb1f66589d345d72d6186efb70d470a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 066/108] fix: sine and cosine of a variable claimed to be
 nonnegative

so their logarithm and powers were accepted and lost the negative part.
---
 pacal/distr.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index aad26a8..d12e7bd 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -985,8 +985,6 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
         super(SinDistr, self).__init__(d, fname = "sin", sym = sympy.sin(d.getSymname()))
-    def is_nonneg(self):
-        return True
 def sin(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
@@ -1008,8 +1006,6 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
         super(CosDistr, self).__init__(d, fname = "cos", sym = sympy.cos(d.getSymname()))
-    def is_nonneg(self):
-        return True
 def cos(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
-- 
2.43.0


From cee32fa1dd0aee023f5f6f47c85e13afb6c0e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 067/108] fix: upper Frechet bound copula of numbers ignored
 all arguments but the last

---
 pacal/depvars/copulas.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 0dcd81e..6cceb2c 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -307,14 +307,9 @@ class MCopula(Copula):
     def cpdf(self, *X):
         return zeros_like(X[0])#self.ccdf(*X)
     def ccdf(self, *X):
-        mi = zeros_like(X[0])+1
-        for xi in X[0:]:
-            xia = array(xi)
-            ind = xia < mi
-            if isscalar(mi) | size(mi)==1:
-                mi = xia
-            else:
-                mi[ind] = xia[ind]
+        mi = X[0]
+        for xi in X[1:]:
+            mi = np.minimum(mi, xi)
         return mi
     def _segmin(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
-- 
2.43.0


From dff71b7951e5047daf016e70e6f710693d36e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 068/108] fix: lower Frechet bound in more than two dimensions

---
 pacal/depvars/copulas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 6cceb2c..89db6d3 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -380,7 +380,7 @@ class WCopula(MCopula):
         si = zeros_like(X[0])
         for xi in X[0:]:
             si += array(xi)
-        si = si - 1
+        si = si - (len(X) - 1)
         ind = (si < 0)
         if isscalar(si) | size(si)==1:
             if ind:
-- 
2.43.0


From a1d94a6a8401b31cd2a736c6fc4937aaa563678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 069/108] fix: dual of a copula was computed at the values
 instead of their cdfs

---
 pacal/depvars/copulas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 89db6d3..61ea493 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -81,7 +81,7 @@ class Copula(NDDistr):
         si = zeros_like(X[0])
         for i in range(len(X)):
             si += self.marginals[i].get_piecewise_cdf_interp()(X[i])
-        return si - self.ccdf(*X)
+        return si - self.cdf(*X)
     def jpdf_(self, f, g, x, y):
         """joint probability density function with marginals *X"""
         if isinstance(f, Distr):
-- 
2.43.0


From 448c22c1aa89adf9f3f10fd11bf966705c656cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:29 +0000
Subject: [PATCH 070/108] fix: copulas failed on integer arguments and at the
 number zero

---
 pacal/depvars/copulas.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 61ea493..d3ec392 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -80,7 +80,7 @@ class Copula(NDDistr):
     def dualcdf(self, *X):
         si = zeros_like(X[0])
         for i in range(len(X)):
-            si += self.marginals[i].get_piecewise_cdf_interp()(X[i])
+            si = si + self.marginals[i].get_piecewise_cdf_interp()(X[i])
         return si - self.cdf(*X)
     def jpdf_(self, f, g, x, y):
         """joint probability density function with marginals *X"""
@@ -298,7 +298,7 @@ class PiCopula(Copula):
     def ccdf(self, *X):
         pi = ones_like(X[0])
         for xi in X:
-            pi *= xi
+            pi = pi * xi
         return pi
 class MCopula(Copula):
     def __init__(self, marginals=None):
@@ -379,7 +379,7 @@ class WCopula(MCopula):
     def ccdf(self, *X):
         si = zeros_like(X[0])
         for xi in X[0:]:
-            si += array(xi)
+            si = si + array(xi)
         si = si - (len(X) - 1)
         ind = (si < 0)
         if isscalar(si) | size(si)==1:
@@ -435,6 +435,7 @@ class ArchimedeanCopula(Copula):
 
     def cpdf(self, *X):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
+        X = [asarray(xi, dtype=float) for xi in X]
         si = zeros_like(X[0])
         for xi in X:
             si = si + self.fi(xi)
@@ -445,12 +446,12 @@ class ArchimedeanCopula(Copula):
         return si * pi
     def ccdf(self, *X):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
+        # float conversion: 0.0 ** -theta is an error, not inf, in Python
+        X = [asarray(xi, dtype=float) for xi in X]
         si = zeros_like(X[0])
         for xi in X:
-            si += self.fi(xi)
-        ind = (si < 0) # or isnan(si)
-        #if len(ind)>0:
-        si[ind] = 0.0
+            si = si + self.fi(xi)
+        si = np.maximum(si, 0.0)
         si = self.fi_inv(si)
         return si
 class ArchimedeanSymbolicCopula(ArchimedeanCopula):
@@ -606,7 +607,7 @@ class GumbelCopula2d(Copula):
     def cpdf(self, *X):
         si = zeros_like(X[0])
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si) * (si ** (self.one_over_theta - 2.0) * (-1.0 + self.theta + si ** self.one_over_theta)) / self.theta_square
         for xi in X:
             si *= self.theta * self.fi(xi) ** (1 - self.one_over_theta) / xi          
@@ -614,7 +615,7 @@ class GumbelCopula2d(Copula):
     def ccdf(self, *X):
         si = zeros_like(X[0])
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si)
         return si
 
@@ -700,14 +701,14 @@ class FrankCopula2d(Copula):
         pi = ones_like(X[0])
         n = len(X)
         for xi in X:
-            si += xi
-            pi *= -np.expm1(-self.theta * xi)
+            si = si + xi
+            pi = pi * -np.expm1(-self.theta * xi)
         yi = self.theta * self.eta * np.exp(-self.theta * si) / (self.eta - pi) ** n
         return yi
     def ccdf(self, *X):
         pi = ones_like(X[0])
         for xi in X:
-            pi *= -expm1(-self.theta * xi)
+            pi = pi * -expm1(-self.theta * xi)
         yi = -self.one_over_theta * np.log1p(-pi / self.eta)
         return yi
 
-- 
2.43.0


From 14cdb29e1f8723699ea997b00996d4f526e91aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 071/108] fix: one dimensional interpolated densities could not
 be integrated or conditioned

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 0543ae8..0973a73 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -172,7 +172,7 @@ class NDFun(object):
 #                y = integrate_fejer2(partial(integ_f, self, arg, c_var, v1, X), self.a[v1], self.b[v1])
 #            return NDConstFactor(y[0])
             if hasattr(self, "f"):
-                y = integrate_fejer2(partial(InterpRunner(self.fun, arg, c_var, v1).integ_f, X), self.f.a[v1], self.f.b[v1])
+                y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.f.a[v1], self.f.b[v1])
             else:
                 y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
             return NDConstFactor(y[0])
-- 
2.43.0


From a9d86956a1758e78e1769625e8b15f339aa4a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 072/108] fix: multidimensional densities were not zero outside
 of their range at single points

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 0973a73..542ac97 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -80,7 +80,7 @@ class NDFun(object):
         elif isscalar(X[0]):
             mask = (X[0] >= self.a[0]) and (X[0] <= self.b[0])
             for i in range(1, len(X)):
-                mask = mask or ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
+                mask = mask and ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
             if mask:
                 y = self.fun(*X)
             else:
-- 
2.43.0


From ec5da1337d0d2634dbdfa54775972d29f386c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 073/108] fix: multidimensional densities were truncated to
 integers at integer points

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 542ac97..9b74122 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -89,7 +89,7 @@ class NDFun(object):
             mask = (X[0] >= self.a[0]) & (X[0] <= self.b[0])
             for i in range(1, len(X)):
                 mask &= ((X[i] >= self.a[i]) & (X[i] <= self.b[i]))
-            y = zeros_like(X[0])
+            y = zeros_like(X[0], dtype=float)
             y[mask] = self.fun(*[xi[mask] for xi in X])
         if self.safe:
             y = nan_to_num(y)
-- 
2.43.0


From bb6fd242bf2b5dcb85d6c496817a5d21f749d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 074/108] fix: correlations of copulas used the second
 variable's law for every variable

---
 pacal/depvars/copulas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index d3ec392..19a59e5 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -196,12 +196,11 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             fmean = f.mean()
             gmean = g.mean()
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
-            print(fmean, gmean, var, c_var, f0, f1, g0, g1)
             if i == j:
                 c, e = c, e = integrate_fejer2(lambda x: (x - fmean) ** 2 * f.pdf(x), f0, f1)                  
             else:
@@ -217,7 +216,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             return self.cov(i, j)/f.std()/g.std()
         else:
             c = zeros((self.d, self.d))
@@ -231,7 +230,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
             if i == j:
-- 
2.43.0


From d6cd4823642e4e7bc3f0b1cb583809e25c88dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 075/108] fix: beta of copulas ignored its arguments and failed
 in more than two dimensions

---
 pacal/depvars/copulas.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 19a59e5..dfd7f97 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -248,6 +248,11 @@ class Copula(NDDistr):
     def beta(self, i=None, j=None):
         """Blomqvist's beta: 4 * C(0.5, 0.5) - 1
         """
+        if i is not None and j is not None:
+            var, c_var = self.prepare_var([i, j])
+            if i == j:
+                return 1
+            return 4*self.eliminate(c_var).ccdf(0.5,0.5)-1
         return 4*self.ccdf(0.5,0.5)-1
     def rho_s(self, i=None, j=None):
         """Spearmans rho: 12*\\int x*y dC(x,y)-3 = 12 \\int C(d,y)dxdy - 3
-- 
2.43.0


From 5fd93ab1a51e6583ab24d6783bb96e1bf27eb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 076/108] fix: tau, covariances and marginals of Frechet bound
 copulas were computed from their zero density

---
 pacal/depvars/copulas.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index dfd7f97..1b4757f 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -315,6 +315,34 @@ class MCopula(Copula):
         for xi in X[1:]:
             mi = np.minimum(mi, xi)
         return mi
+    def eliminate(self, var):
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        marginals = [self.marginals[i] for i in c_var]
+        if len(marginals) == 1:
+            return PiCopula(marginals)
+        return self.__class__(marginals)
+    # there is no joint density: the general formulas do not apply
+    def cov(self, i=None, j=None):
+        """Covariance, by Hoeffding's formula: \\int C(F,G) - F*G dxdy
+        """
+        if i is None or j is None or i == j:
+            return super(MCopula, self).cov(i, j)
+        var, c_var = self.prepare_var([i, j])
+        dij = self.eliminate(c_var)
+        f, g = dij.marginals
+        F, G = f.get_piecewise_cdf_interp(), g.get_piecewise_cdf_interp()
+        f0, f1 = f.get_piecewise_pdf().range()
+        g0, g1 = g.get_piecewise_pdf().range()
+        c, e = integrate_iter(lambda x, y: dij.cdf(x, y) - F(x) * G(y), f0, f1, g0, g1)
+        return c
+    def tau(self, i=None, j=None):
+        return self.ctau(i, j)
+    def ctau(self, i=None, j=None):
+        if i is None or j is None:
+            return super(MCopula, self).ctau()
+        return 1
     def _segmin(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         xopt = fmin2(lambda x: fun(float(x)), L, U, xtol = 1e-16)
@@ -392,6 +420,10 @@ class WCopula(MCopula):
         else:
             si[ind] = 0
         return si
+    def ctau(self, i=None, j=None):
+        if i is None or j is None or i == j:
+            return super(WCopula, self).ctau(i, j)
+        return -1
     def _segmax(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         #xopt = fminbound(fun, L, U, xtol = 1e-16)
-- 
2.43.0


From cb7927cde85a0ad0621bcf2faad189fddecfcf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 077/108] fix: marginals of the independence copula of more
 than two variables were not copulas

---
 pacal/depvars/copulas.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 1b4757f..2869a7b 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -304,6 +304,11 @@ class PiCopula(Copula):
         for xi in X:
             pi = pi * xi
         return pi
+    def eliminate(self, var):
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        return PiCopula([self.marginals[i] for i in c_var])
 class MCopula(Copula):
     def __init__(self, marginals=None):
         super(MCopula, self).__init__(marginals)
-- 
2.43.0


From 0a8889252bf725b0168576cce8f3b50d38c1320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 078/108] fix: conditional copulas were cut to the range of the
 marginals

---
 pacal/depvars/copulas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 2869a7b..361e92c 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -548,8 +548,9 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
                 DC = sympy.diff(DC, self.symVars[i])
             else:
                 pass
-        dC = sympy.lambdify(self.symVars, DC, "numpy")
-        return NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))       
+        dC = NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))
+        dC.a, dC.b = [0] * self.d, [1] * self.d # arguments are probabilities
+        return dC
 
     def condition(self, var, *X):
         """It returns conditional pdf for given copula
-- 
2.43.0


From c8a3ee210fb1a56f45b10970b2a69883d917072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 079/108] fix: conditional copulas were not normalised given
 more than one variable

---
 pacal/depvars/copulas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 361e92c..6bed796 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -548,6 +548,9 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
                 DC = sympy.diff(DC, self.symVars[i])
             else:
                 pass
+        # normalise by the copula density of the conditioning variables
+        den = self.fi_inv_(sum(self.fi_(v, self.theta) for v in symvars), self.theta)
+        DC = DC / sympy.diff(den, *symvars)
         dC = NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))
         dC.a, dC.b = [0] * self.d, [1] * self.d # arguments are probabilities
         return dC
-- 
2.43.0


From 555bf0c08704d6e81280c9e01338be646a605e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 080/108] fix: conditional cdfs of copulas failed for integer
 arguments

---
 pacal/depvars/copulas.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 6bed796..513039b 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -586,14 +586,12 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         def fun_(*Y_):
             j, k = 0, 0
             Y = []
-            dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 if i in set(var):
                     Y.append(self.marginals[i].get_piecewise_cdf()(X[j]))
                     j += 1
                 else:
                     Y.append(self.marginals[i].get_piecewise_cdf()(Y_[k]))
-                    dF *= self.marginals[i].get_piecewise_pdf()(Y_[k])
                     k += 1
             return funcond(*Y)
         return NDFun(len(new_cond), [self.Vars[i] for i in c_var], fun_)
@@ -604,15 +602,9 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         var, c_var = self.prepare_var(var)
         new_cond = var
         def fun_(*X):
-            j, k = 0, 0
             Y = []
-            dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 Y.append(self.marginals[i].get_piecewise_cdf()(X[i]))
-                if i in set(var):
-                    pass
-                else:
-                    dF *= self.marginals[i].get_piecewise_pdf()(X[i])                    
             return funcond(*Y)
         return NDFun(self.d, self.Vars, fun_)
     def debug_info(self):
-- 
2.43.0


From 7e9415dfa2b4d94c4bd15c90c49614ab354344c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 081/108] fix: conditioning copulas on variables not listed in
 index order

---
 pacal/depvars/copulas.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 513039b..e035710 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -563,18 +563,17 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         num = self.pdf
         den = self.eliminate(c_var)
         def fun_(*Y_):
-            j, k = 0, 0
+            k = 0
             Y, Yvar = [], []
             #dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 if i in set(var):
-                    Y.append(X[j])
-                    Yvar.append(X[j])
-                    j += 1
+                    Y.append(X[var.index(i)])
+                    Yvar.append(X[var.index(i)])
                 else:
                     Y.append(Y_[k])
                     k += 1
-            return num(*Y) / den.pdf(*X)
+            return num(*Y) / den.pdf(*Yvar)
         return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def conditionCDF(self, var, *X):
         """It returns conditional cdf for given copula
@@ -584,12 +583,11 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         var, c_var = self.prepare_var(var)
         new_cond = var
         def fun_(*Y_):
-            j, k = 0, 0
+            k = 0
             Y = []
             for i in range(len(self.Vars)):
                 if i in set(var):
-                    Y.append(self.marginals[i].get_piecewise_cdf()(X[j]))
-                    j += 1
+                    Y.append(self.marginals[i].get_piecewise_cdf()(X[var.index(i)]))
                 else:
                     Y.append(self.marginals[i].get_piecewise_cdf()(Y_[k]))
                     k += 1
-- 
2.43.0


From 0aaa0c75c0db21bd1bb42c1faa901c271bc6bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 082/108] fix: Kendall's tau of copulas with unbounded
 marginals was nan

---
 pacal/depvars/copulas.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index e035710..4b37e7c 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -225,26 +225,9 @@ class Copula(NDDistr):
                     c[i, j] = self.corrcoef(i, j)                                          
             return c
     def tau(self, i=None, j=None):
-        """Kendall's tau: 4*\\int C(x,y) dC(x,y)-1
+        """Kendall's tau, which does not depend on the marginals
         """
-        if i is not None and j is not None:
-            var, c_var = self.prepare_var([i, j])
-            dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], dij.marginals[-1]
-            f0, f1 = f.get_piecewise_pdf().range()
-            g0, g1 = g.get_piecewise_pdf().range()
-            if i == j:
-                c, e = 1, 0
-            else:
-                c, e = integrate_iter(lambda x, y: dij.cdf(x, y) * dij.pdf(x, y), f0, f1, g0, g1)
-                c = 4 * c - 1
-            return c
-        else:
-            c = zeros((self.d, self.d))
-            for i in range(self.d):
-                for j in range(self.d):
-                    c[i, j] = self.ctau(i, j)                                          
-            return c
+        return self.ctau(i, j)
     def beta(self, i=None, j=None):
         """Blomqvist's beta: 4 * C(0.5, 0.5) - 1
         """
@@ -342,8 +325,6 @@ class MCopula(Copula):
         g0, g1 = g.get_piecewise_pdf().range()
         c, e = integrate_iter(lambda x, y: dij.cdf(x, y) - F(x) * G(y), f0, f1, g0, g1)
         return c
-    def tau(self, i=None, j=None):
-        return self.ctau(i, j)
     def ctau(self, i=None, j=None):
         if i is None or j is None:
             return super(MCopula, self).ctau()
-- 
2.43.0


From dae9df26eb162f6a7a493fb12b4a0d19676a7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 083/108] fix: interpolants on infinite intervals were
 truncated to integers at integer points

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index f0d0c84..aab4871 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -881,7 +881,7 @@ class PInfInterpolator(object):
             if self.x_vb_max is None:
                 y = self.vb(x)
             else:
-                y = empty_like(x)
+                y = empty_like(x, dtype=float)
                 mask = (x <= self.x_vb_max)
                 y[mask] = self.vb(x[mask])
                 y[~mask] = 0 if self.vl is None else self.vl(x[~mask])
-- 
2.43.0


From 635390970fce8cc1d3770032718453972906dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:23 +0000
Subject: [PATCH 084/108] fix: lower Frechet bound of an array of one point
 lost its shape

---
 pacal/depvars/copulas.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 4b37e7c..ab33754 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -399,13 +399,7 @@ class WCopula(MCopula):
         for xi in X[0:]:
             si = si + array(xi)
         si = si - (len(X) - 1)
-        ind = (si < 0)
-        if isscalar(si) | size(si)==1:
-            if ind:
-                si = 0.0
-        else:
-            si[ind] = 0
-        return si
+        return np.maximum(si, 0.0)
     def ctau(self, i=None, j=None):
         if i is None or j is None or i == j:
             return super(WCopula, self).ctau(i, j)
-- 
2.43.0


From d0bd8f7c065ec042d33d15205fe1f1d0ca22927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:05 +0000
Subject: [PATCH 085/108] fix: marginals of NDNormalDistr took the variance for
 the standard deviation

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 9b74122..fa976a4 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -517,7 +517,7 @@ class NDNormalDistr(NDDistr):
         assert len(Sigma.shape) == 2
         assert Sigma.shape[0] == Sigma.shape[1] == d
         if Vars is None:
-            Vars = [NormalDistr(mu[i], Sigma[i,i], sym = LETTERS[i]) for i in range(d)]
+            Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
         self.a = [m-5 for m in mu] # FIX THIS!!!
-- 
2.43.0


From 8cc40ef7d1237623f31d0cf2df1515a56012e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:05 +0000
Subject: [PATCH 086/108] fix: NDNormalDistr.pdf failed on arrays of integers

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index fa976a4..02e786d 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -533,7 +533,7 @@ class NDNormalDistr(NDDistr):
         else:
             Xa = np.asarray(X)
             Xa = Xa.transpose(list(range(1, len(X[0].shape) + 1)) + [0])
-            Xa -= self.mu
+            Xa = Xa - self.mu
             Z = (dot(Xa, self.invSigma) * Xa).sum(axis= -1)
             return self.nrm * exp(-0.5 * Z)
 
-- 
2.43.0


From 968effb52a3dfb5358048809c749fc7dac2aade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:05 +0000
Subject: [PATCH 087/108] fix: NDNormalDistr.condition picked wrong blocks of
 the covariance beyond two variables

---
 pacal/depvars/nddistr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 02e786d..d099530 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -549,12 +549,12 @@ class NDNormalDistr(NDDistr):
         var, c_var = self.prepare_var(var)
         if len(c_var) == 0:
             return NDOneFactor()
-        Sigma_11 = self.Sigma[c_var, c_var]
-        Sigma_12 = self.Sigma[c_var, var]
-        Sigma_21 = self.Sigma[var, c_var]
-        Sigma_22 = self.Sigma[var, var]
-        c_mu = self.mu[c_var] + Sigma_12 * Sigma_22.I * (X - self.mu[var])
-        c_mu = array(c_mu)[0]
+        Sigma_11 = self.Sigma[np.ix_(c_var, c_var)]
+        Sigma_12 = self.Sigma[np.ix_(c_var, var)]
+        Sigma_21 = self.Sigma[np.ix_(var, c_var)]
+        Sigma_22 = self.Sigma[np.ix_(var, var)]
+        X = np.asarray(X, dtype=float).reshape(len(var))
+        c_mu = self.mu[c_var] + dot(array(Sigma_12 * Sigma_22.I), X - self.mu[var])
         c_Sigma = Sigma_11 - Sigma_12 * Sigma_22.I * Sigma_21
         return NDNormalDistr(c_mu, c_Sigma, [self.Vars[i] for i in c_var])
 
-- 
2.43.0


From 9e27901440a5f44663b2b93f8b422ae8bb20ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:05 +0000
Subject: [PATCH 088/108] fix: NDNormalDistr vanished more than 5 units from
 the mean whatever its variance

---
 pacal/depvars/nddistr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index d099530..e657559 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -520,8 +520,9 @@ class NDNormalDistr(NDDistr):
             Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
-        self.a = [m-5 for m in mu] # FIX THIS!!!
-        self.b = [m+5 for m in mu] # FIX THIS!!!
+        # the density is negligible more than 10 standard deviations from the mean
+        self.a = [mu[i] - 10 * sqrt(Sigma[i,i]) for i in range(d)]
+        self.b = [mu[i] + 10 * sqrt(Sigma[i,i]) for i in range(d)]
         self.mu = mu
         self.Sigma = Sigma
         self.invSigma = array(Sigma.I)
-- 
2.43.0


From 40a2e10f454d13d9539fed5cbda499be84376d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 089/108] fix: range of order statistics was the whole real
 line whatever the range of the sample

---
 pacal/stats/iid_ops.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index 0637446..3b5c362 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -7,6 +7,7 @@ import operator
 import pacal.distr
 from pacal.utils import binomial_coeff
 from pacal.standard_distr import PDistr
+from pacal.segments import PiecewiseFunction
 
 from pacal import params
 
@@ -53,7 +54,10 @@ def _order_stat_pdf(X, n, k):
     cdf = X.get_piecewise_cdf()
     ccdf = 1 - X.get_piecewise_cdf()
     fun = (k * binomial_coeff(n, k)) * pdf * (pow(cdf, k-1) * pow(ccdf, n-k))
-    return fun.toInterpolated()
+    fun = fun.toInterpolated()
+    # the cdf covers the whole real line, the order statistic lives where X does
+    a, b = pdf.range()
+    return PiecewiseFunction([seg for seg in fun.segments if a <= seg.a and seg.b <= b])
 def iid_order_stat(X, n, k, **kwargs):
     """It gives distribution of $k$-th observation in ordered sample size of n."""
     # segments are used directly: a function of the whole real line is not continuous up to the ends of segments
-- 
2.43.0


From 04330df02fdaf62f9b96376ac0e42ba2eb5967af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 090/108] fix: joint order statistics could not be marginalised

---
 pacal/depvars/nddistr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index e657559..6da8d4c 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -810,7 +810,8 @@ class IJthOrderStatsNDDistr(NDDistr):
     def __init__(self, f, n, i, j):
         #print n, i, j, (1 <= i and i < j and j <= n)
         assert (1 <= i and i < j and j <= n), "incorrect values 1<=i<j<=n"
-        self.f = f.get_piecewise_pdf()
+        # not called f: that name stands for a sparse grid interpolant in NDFun.eliminate
+        self.f1 = f.get_piecewise_pdf()
         self.F = f.get_piecewise_cdf().toInterpolated()
         self.S = (1.0 - self.F).toInterpolated()
         X = iid_order_stat(f, n, i, sym="X_{0}".format(i))
@@ -828,7 +829,7 @@ class IJthOrderStatsNDDistr(NDDistr):
         x, y = X
         i, j, n = self.i, self.j, self.n
         mask = x < y
-        return mask * multinomial_coeff(n, [i - 1, 1, j - i - 1, 1, n - j]) * self.F(x) ** (i - 1.0) * (self.F(y) - self.F(x)) ** (j - i - 1) * (1.0 - self.F(y)) ** (n - j) * self.f(x) * self.f(y)
+        return mask * multinomial_coeff(n, [i - 1, 1, j - i - 1, 1, n - j]) * self.F(x) ** (i - 1.0) * (self.F(y) - self.F(x)) ** (j - i - 1) * (1.0 - self.F(y)) ** (n - j) * self.f1(x) * self.f1(y)
 
     def _segint(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
                 debug_info = False, debug_plot = False):
-- 
2.43.0


From 204595c1307b8a5b909991875160ce96c1d2e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 091/108] fix: Archimedean copulas could not be conditioned as
 a factor of a product

---
 pacal/depvars/copulas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index ab33754..2d17ba1 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -530,11 +530,13 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         dC.a, dC.b = [0] * self.d, [1] * self.d # arguments are probabilities
         return dC
 
-    def condition(self, var, *X):
+    def condition(self, var, *X, **kwargs):
         """It returns conditional pdf for given copula
         f(c_var) = Pr(c_var | var=X)
         """
         var, c_var = self.prepare_var(var)
+        if len(c_var) == 0:
+            return NDOneFactor()
         num = self.pdf
         den = self.eliminate(c_var)
         def fun_(*Y_):
-- 
2.43.0


From 09e999ccc68c54014404538e63d62c034ad43683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 092/108] fix: eliminating all variables of an Archimedean
 copula did not give a constant

---
 pacal/depvars/copulas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 2d17ba1..f1cef1f 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -20,7 +20,7 @@ from pacal.utils import epsunique, bisect, fmin2
 from pacal.indeparith import _findSegList, convdiracs
 from pacal.integration import integrate_fejer2, integrate_iter
 
-from pacal.depvars.nddistr import NDDistr, NDFun
+from pacal.depvars.nddistr import NDDistr, NDFun, NDOneFactor
 import pylab as plt
 
 import sympy
@@ -507,6 +507,8 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         c_marginals = [self.marginals[i] for i in c_var]
         if len(var) == 0:
             return self
+        if len(c_var) == 0:
+            return NDOneFactor()
         return ArchimedeanSymbolicCopula(fi=self.fi_,
                                          fi_inv=self.fi_inv_,
                                          theta=self.theta,
-- 
2.43.0


From f7d7f2bbb3a47f53704bae6275a7db145adffe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:05 +0000
Subject: [PATCH 093/108] fix: conditioning a product on several variables of
 one factor failed

---
 pacal/depvars/nddistr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 6da8d4c..3901d09 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -773,8 +773,8 @@ class NDProductDistr(NDDistr):
                 if V in cf.Vars:
                     cV.append(V)
                     cX.append(X[i])
-            #print cf, cf.Vars[0].getSymname(), cf.condition(cV, cX, normalize=False)
-            new_cond_factors.append(cf.condition(cV, cX, normalize=False))
+            #print cf, cf.Vars[0].getSymname(), cf.condition(cV, *cX, normalize=False)
+            new_cond_factors.append(cf.condition(cV, *cX, normalize=False))
         cfp = NDProductDistr(kept_factors + new_cond_factors)
         nrm = cfp.eliminate(list(range(cfp.d)))
         nrm = nrm.as_constant()
-- 
2.43.0


From f785a687f888f46cd02ef268db113cd100d574db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:39 +0000
Subject: [PATCH 094/108] fix: marginals and conditionals of joint order
 statistics were smeared over the jump of the density

---
 pacal/depvars/nddistr.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 3901d09..9f52573 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -831,6 +831,30 @@ class IJthOrderStatsNDDistr(NDDistr):
         mask = x < y
         return mask * multinomial_coeff(n, [i - 1, 1, j - i - 1, 1, n - j]) * self.F(x) ** (i - 1.0) * (self.F(y) - self.F(x)) ** (j - i - 1) * (1.0 - self.F(y)) ** (n - j) * self.f1(x) * self.f1(y)
 
+    def eliminate(self, var, a=None, b=None):
+        # the density jumps along x=y, but the marginals are known
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        if len(c_var) == 0:
+            return NDOneFactor()
+        return Factor1DDistr(self.Vars[c_var[0]])
+
+    def condition(self, var, *X, **kwargs):
+        var, c_var = self.prepare_var(var)
+        if len(c_var) == 0:
+            return NDOneFactor()
+        v, c = var[0], c_var[0]
+        nrm = self.Vars[v].pdf(X[0])
+        def fun(y):
+            return self.pdf(X[0], y) / nrm if v == 0 else self.pdf(y, X[0]) / nrm
+        cond = NDFun(1, [self.Vars[c]], fun)
+        if v == 0:
+            cond.a = [X[0]]
+        else:
+            cond.b = [X[0]]
+        return cond
+
     def _segint(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
                 debug_info = False, debug_plot = False):
         #print params.integration_infinite.exponent
-- 
2.43.0


From 2ee776e5a92196d52b29cd85e50131dac866bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 095/108] fix: range() of results of arithmetic ignored the
 ranges of the operands

---
 pacal/rv.py | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index 38a973b..441efa0 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -337,8 +337,9 @@ class ShiftedScaledRV(OpRV):
         self.shift = shift
         self.scale = scale
         super(ShiftedScaledRV, self).__init__([d], sym = (d.getSymname() * self.scale + self.shift))
-        a = d.a * self.scale + self.shift
-        b = d.b * self.scale + self.shift
+        a, b = d.range()
+        a = a * self.scale + self.shift
+        b = b * self.scale + self.shift
         self.a, self.b = min(a, b), max(a, b)
         self.d = d
     def __str__(self):
@@ -385,10 +386,23 @@ class TanhRV(FuncRV):
     def __init__(self, d):
         super(TanhRV, self).__init__(d, fname ="tanh", sym = sympy.tanh(d.getSymname()))
 
+def _div_range(r1, r2):
+    """Range of the quotient of variables of ranges r1, r2."""
+    a, b = r2
+    if a < 0 < b:
+        return -numpy.inf, numpy.inf
+    # approach zero from the inside of r2
+    r2 = [0.0 if a == 0 else a, -0.0 if b == 0 else b]
+    with numpy.errstate(divide="ignore", invalid="ignore"):
+        breaks = divide.outer(numpy.array(r1, dtype=float), numpy.array(r2, dtype=float))
+    breaks = breaks[~numpy.isnan(breaks)]
+    return min(breaks), max(breaks)
+
 class InvRV(OpRV):
     """Inverse of random variable."""
     def __init__(self, d):
         super(InvRV, self).__init__([d], sym = 1 / d.getSymname())
+        self.a, self.b = _div_range((1.0, 1.0), d.range())
         self.d = d
     def __str__(self):
         return "1/#{0}".format(self.d.id())
@@ -466,7 +480,7 @@ class SubRV(OpRV):
         #self.a, self.b = min(breaks), max(breaks)
         a1, b1 = d1.range()
         a2, b2 = d2.range()
-        self.a, self.b = a1-a2, b1-b2
+        self.a, self.b = a1-b2, b1-a2
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -480,8 +494,11 @@ class SubRV(OpRV):
 class MulRV(OpRV):
     def __init__(self, d1, d2):
         super(MulRV, self).__init__([d1, d2], sym = d1.getSymname() * d2.getSymname())
-        breaks = unique(multiply.outer(d1.range(), d2.range()))
-        self.a, self.b = min(breaks), max(breaks)
+        with numpy.errstate(invalid="ignore"):
+            breaks = multiply.outer(d1.range(), d2.range())
+        breaks = breaks.ravel()
+        breaks[numpy.isnan(breaks)] = 0 # 0 * inf
+        self.a, self.b = _builtin_min(breaks), _builtin_max(breaks)
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -496,14 +513,7 @@ class MulRV(OpRV):
 class DivRV(OpRV):
     def __init__(self, d1, d2):
         super(DivRV, self).__init__([d1, d2], sym = d1.getSymname() / d2.getSymname())
-        d1range = list(d1.range())
-        d2range = list(d2.range())
-        if prod(d1range)<0:
-            d1range.append(0.0)
-        if prod(d2range)<0:
-            d2range.append(0.0)
-        breaks = unique(divide.outer(d1range, d2range))
-        self.a, self.b = min(breaks), max(breaks)
+        self.a, self.b = _div_range(d1.range(), d2.range())
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -518,6 +528,9 @@ class DivRV(OpRV):
 class MinRV(OpRV):
     def __init__(self, d1, d2):
         super(MinRV, self).__init__([d1, d2], sym = sympy_min(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = _builtin_min(a1, a2), _builtin_min(b1, b2)
         self.d1 = d1
         self.d2 = d2
     def __str(self):
@@ -531,6 +544,9 @@ class MinRV(OpRV):
 class MaxRV(OpRV):
     def __init__(self, d1, d2):
         super(MaxRV, self).__init__([d1, d2], sym = sympy_max(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = _builtin_max(a1, a2), _builtin_max(b1, b2)
         self.d1 = d1
         self.d2 = d2
     def __str(self):
-- 
2.43.0


From 81af5ccc0330479f307f3feb93895383d0fb35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 096/108] fix: range() of functions of variables and of
 discrete variables was always (0, 1)

---
 pacal/distr.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index d12e7bd..f0fd3f9 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -581,6 +581,10 @@ class FuncDistr(FuncRV, OpDistr):
 
     def f_inv_deriv(self, x):
         pass
+    def range(self):
+        with numpy.errstate(divide="ignore"):
+            r = [float(self.f(x)) for x in self.d.range()]
+        return _builtin_min(r), _builtin_max(r)
     def rand_op(self, n, cache):
         return self.f(self.d.rand(n, cache))
     def init_piecewise_pdf(self):
@@ -887,6 +891,9 @@ class AbsDistr(OpDistr):
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyAbsComposition()
+    def range(self):
+        a, b = self.d.range()
+        return _builtin_max(a, -b, 0), _builtin_max(-a, b)
     def rand_op(self, n, cache):
         return abs(self.d.rand(n, cache))
     def __str__(self):
@@ -901,6 +908,9 @@ class SquareDistr(OpDistr):
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
+    def range(self):
+        a, b = self.d.range()
+        return _builtin_max(a, -b, 0)**2, _builtin_max(-a, b)**2
     def rand_op(self, n, cache):
         r = self.d.rand(n, cache)
         return r * r
@@ -944,6 +954,14 @@ class FuncNoninjectiveDistr(OpDistr):
 #            mask = isfinite(f)
 #            f[~mask] = 0
 #        return f
+    def range(self):
+        a, b = self.d.range()
+        r = []
+        for (L, U), f in zip(self.intervals, self.fs):
+            L, U = _builtin_max(L, a), _builtin_min(U, b)
+            if L <= U: # f is monotone on [L, U]
+                r += [float(f(L)), float(f(U))]
+        return _builtin_min(r), _builtin_max(r)
     def __str__(self):
         return "{0}(#{1})".format(self.fname, id(self.d))
     def getName(self):
@@ -1046,6 +1064,8 @@ class DiscreteDistr(Distr):
         self.xi = [p[0] for p in px]
         self.pi = [p[1] for p in px]
         self.cumP = cumsum(self.pi)
+    def range(self):
+        return self.xi[0], self.xi[-1]
     def pdf(self, x):
         """it override pdf() method to obtain discrete probabilities"""
         x = asarray(x)
-- 
2.43.0


From 7358ca47c06765e9ea3b702e8d252f08e6412580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 097/108] fix: range() of Gumbel and Frechet distributions

---
 pacal/standard_distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 54cb7d8..65717a8 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -755,7 +755,7 @@ class GumbelDistr(Distr):
     def getName(self):
         return "Gumbel({0},{1})".format(self.mu, self.sigma)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return -np.inf, np.inf
 
 class FrechetDistr(Distr):
     def __init__(self, alpha = 2, s = 1, m = 0, **kwargs):
@@ -798,7 +798,7 @@ class FrechetDistr(Distr):
     def getName(self):
         return "Frechet({0},{1},{2})".format(self.alpha, self.s, self.m)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return self.m, np.inf
 
 
 #f(x;\alpha ,\beta )= (k/s) * (x/s)**(k-1) / ((1 + (x/s)**k)**2)  # Wikipedia form
-- 
2.43.0


From 0f0fea07fba608806e244d1352076b0690a3751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 098/108] fix: range() of a conditional variable could exceed
 that of the variable

---
 pacal/distr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index f0fd3f9..97044b8 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1269,7 +1269,8 @@ class CondGtDistr(Distr):
             k = len(tab)
         return tab[0:n] #self.rand_invcdf(n)
     def range(self):
-        return self.L, self.d.range()[1]
+        a, b = self.d.range()
+        return _builtin_max(a, self.L), b
 
 class CondLtDistr(Distr):
     def __init__(self, d, U=None, **kwargs):
@@ -1285,7 +1286,8 @@ class CondLtDistr(Distr):
     def rand_raw(self, n):
         return self.rand_invcdf(n)
     def range(self):
-        return self.d.range()[0], self.U
+        a, b = self.d.range()
+        return a, _builtin_min(b, self.U)
 
 class CondBetweenDistr(Distr):
     def __init__(self, d, L=None, U=None, **kwargs):
@@ -1303,7 +1305,8 @@ class CondBetweenDistr(Distr):
     def rand_raw(self, n):
         return self.rand_invcdf(n)
     def range(self):
-        return self.L, self.U
+        a, b = self.d.range()
+        return _builtin_max(a, self.L), _builtin_min(b, self.U)
 
 class Condition(object):
     pass
-- 
2.43.0


From c4407abf405ab26d409a15c401548c2e26f2dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 099/108] fix: models could not be conditioned on a variable
 the Jacobian depends on

---
 pacal/depvars/nddistr.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 9f52573..f9b564a 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -183,6 +183,15 @@ class NDFun(object):
         else:
             # TODO: eliminate all vars at once using sparse grid integration
             return m.eliminate(var[:-1])
+    def condition(self, var, *X, **kwargs):
+        """Fix values of given variables, without normalization."""
+        var, c_var = self.prepare_var(var)
+        if len(c_var) == 0:
+            arg = [None] * self.d
+            for i, j in enumerate(var):
+                arg[j] = X[i]
+            return NDConstFactor(self(*arg))
+        return NDFun(len(c_var), [self.Vars[i] for i in c_var], partial(_cond_f, self, [None] * self.d, c_var, var, X))
 
 
 class InterpRunner(object):
@@ -275,7 +284,7 @@ class InterpRunner(object):
 def _cond_f(f, arg, c_var, var, Xcond, *Xfree):
     """Helper function for intepolating after conditional density."""
     for i, j in enumerate(var):
-        arg[j] = zeros(Xfree[0].shape) + Xcond[i]
+        arg[j] = Xcond[i] if isscalar(Xfree[0]) else zeros(Xfree[0].shape) + Xcond[i]
     for i, j in enumerate(c_var):
         arg[j] = Xfree[i]
     return f(*arg)
-- 
2.43.0


From 7856033509ee2eb6f28c7b63da37818133b012f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 100/108] fix: two variable models failed on products and
 quotients of variables with a range ending at zero

---
 pacal/depvars/models.py | 48 +++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/pacal/depvars/models.py b/pacal/depvars/models.py
index 07120e7..8e5dd7c 100644
--- a/pacal/depvars/models.py
+++ b/pacal/depvars/models.py
@@ -493,37 +493,23 @@ class TwoVarsModel(Model):
         byc = fun.subs(self.symvars[0], bx)
         return (ayc, byc)
     def getUL(self, ax, bx, ay, by, z):
-        axcz, bxcz = self.solveCutsX(self.fun_alongx, ay, by)
-        axc = axcz.subs(self.z, z)
-        bxc = bxcz.subs(self.z, z)
-        if not axc.is_extended_real:  # allow inf
-            axc = None
-        if not bxc.is_extended_real:
-            bxc = None
-        aycz, bycz = self.solveCutsY(self.fun_alongx, ax, bx)
-        ayc = aycz.subs(self.z, z)
-        byc = bycz.subs(self.z, z)
-        if not ayc.is_extended_real:
-            ayc = None
-        if not byc.is_extended_real:
-            byc = None
-        #print("========")
-        #print(ay, ayc, by)
-        #print(ay, byc, by)
-        #print(ax,bx,axc, bxc)
-        if (ay < ayc and ayc < by):
-            L = ax
-        else:
-            L = min(max(axc, ax), min(bxc, bx))
-        if (ay < byc and byc < by):
-            U = bx
-        else:
-            U = max(max(axc, ax), min(bxc, bx))
-        if L < U:
-            pass
-        else:
-            L, U = U, L
-        return max(ax, L), min(bx, U)
+        """Interval of x in which the curve of constant z is inside the rectangle."""
+        with np.errstate(all="ignore"):
+            cuts = [float(self.lfun_alongy(np.float64(y), np.float64(z))) for y in (ay, by)]
+            cuts = [ax] + sorted(c for c in cuts if ax < c < bx) + [bx]
+            inside = []
+            for L, U in zip(cuts[:-1], cuts[1:]):
+                if isinf(L) and isinf(U):
+                    m = 0.0
+                elif isinf(L) or isinf(U):
+                    m = U - 1.0 if isinf(L) else L + 1.0
+                else:
+                    m = 0.5 * (L + U)
+                if ay <= self.lfun_alongx(np.float64(m), np.float64(z)) <= by:
+                    inside += [L, U]
+        if len(inside) == 0:
+            return ax, ax
+        return inside[0], inside[-1]
 
     def plotFrame(self, ax, bx, ay, by):
         figure()
-- 
2.43.0


From 79a7cbebe598e108bd320fc5c465b5877e63814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 101/108] fix: integrals over half lines which start at almost
 zero were inaccurate

---
 pacal/integration.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index b6e4c8d..3ca8cfb 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -231,22 +231,34 @@ def integrate_fejer2_pminf(f, *args, **kwargs):
     """Fejer2 integration from -oo to +oo."""
     vt = VarTransformReciprocal_PMInf()
     return _integrate_with_vartransform(f, vt, integrate_fejer2, *args, **kwargs)
+def _integrate_half_line(f, vt_class, end, other, exponent, *args, **kwargs):
+    vt = vt_class(end, exponent, other)
+    I, err = _integrate_with_vartransform(f, vt, integrate_fejer2, *args, **kwargs)
+    if 0 < abs(end) < 1e-3 and err > 1e-10 * abs(I):
+        # The end is used as the scale of the transform.  An end which is
+        # almost zero, e.g. because of rounding, need not be the scale of f.
+        vt = vt_class(0, exponent)
+        f0 = lambda x: f(x + end)
+        if other is not None:
+            vt = vt_class(0, exponent, other - end)
+        I1, err1 = _integrate_with_vartransform(f0, vt, integrate_fejer2, *args, **kwargs)
+        if err1 < err:
+            I, err = I1, err1
+    return I, err
 def integrate_fejer2_pinf(f, a, b = None, exponent = None, *args, **kwargs):
     """Fejer2 integration from a to +oo."""
     if isposinf(a):
         return 0,0
     if exponent is None:
         exponent = params.integration_infinite.exponent
-    vt = VarTransformReciprocal_PInf(a, U = b, exponent = exponent)
-    return _integrate_with_vartransform(f, vt, integrate_fejer2, *args, **kwargs)
+    return _integrate_half_line(f, VarTransformReciprocal_PInf, a, b, exponent, *args, **kwargs)
 def integrate_fejer2_minf(f, b, a = None, exponent = None, *args, **kwargs):
     """Fejer2 integration from -oo to b."""
     if isneginf(b):
         return 0,0
     if exponent is None:
         exponent = params.integration_infinite.exponent
-    vt = VarTransformReciprocal_MInf(b, L = a, exponent = exponent)
-    return _integrate_with_vartransform(f, vt, integrate_fejer2, *args, **kwargs)
+    return _integrate_half_line(f, VarTransformReciprocal_MInf, b, a, exponent, *args, **kwargs)
 
 
 def integrate_fejer2_Xn_transform(f, a, b, N = 2.0, *args, **kwargs):
-- 
2.43.0


From 40a1337e96c7350c5d236a1764c4a6e2f6b75b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:13 +0000
Subject: [PATCH 102/108] fix: eliminating an unbounded single variable from a
 product gave nan

---
 pacal/depvars/nddistr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index f9b564a..36827a7 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -496,6 +496,11 @@ class Factor1DDistr(NDDistr):
         return str(self.distr)
     def pdf(self, *X):
         return self.distr.pdf(*X)
+    def eliminate(self, var, a=None, b=None):
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        return NDOneFactor() # the range need not be finite
 
 class NDConstFactor(NDDistr):
     def __init__(self, c):
-- 
2.43.0


From 691aed3f42f60539bf67e0197d4eb3a69cbb2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 103/108] fix: eliminating several variables in decreasing
 order eliminated the wrong ones

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 36827a7..b51c927 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -182,7 +182,7 @@ class NDFun(object):
             return m
         else:
             # TODO: eliminate all vars at once using sparse grid integration
-            return m.eliminate(var[:-1])
+            return m.eliminate([self.Vars[i] for i in var[:-1]])
     def condition(self, var, *X, **kwargs):
         """Fix values of given variables, without normalization."""
         var, c_var = self.prepare_var(var)
-- 
2.43.0


From f45b0e9317fe3f9dc4fa9917b84ca6a81bc4bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:01 +0000
Subject: [PATCH 104/108] fix: conditional densities were nan where the
 condition has density zero

---
 pacal/depvars/nddistr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index b51c927..ffab2d8 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -657,7 +657,9 @@ class ConditionalDistr(NDFun):
             marg = nd.eliminate(c_var)
         self.marg = marg
     def pdf(self, *X):
-        return self.nd(*X) / self.marg(*[X[i] for i in self.cond_vars])
+        m = self.marg(*[X[i] for i in self.cond_vars])
+        # arbitrary where the condition is impossible
+        return self.nd(*X) * (m != 0) / (m + (m == 0))
     def eliminate(self, var):
         var, c_var = self.prepare_var(var)
         if set(c_var) == set(self.cond_vars): # all unconditionned vars eliminated
-- 
2.43.0


From 4ee590071b16aaa82f1cc53cfab6960c56169e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 105/108] fix: conditional densities depended on the order in
 which the conditioning variables were given

---
 pacal/depvars/nddistr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index ffab2d8..fe5c53f 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -651,7 +651,8 @@ class ConditionalDistr(NDFun):
     def __init__(self, nd, var, marg=None):
         """Condition the joint distribution nd on var."""
         super(ConditionalDistr, self).__init__(nd.d, nd.Vars, self.pdf)
-        self.cond_vars, c_var = self.prepare_var(var)
+        cond_vars, c_var = self.prepare_var(var)
+        self.cond_vars = sorted(cond_vars) # the order of variables of marg
         self.nd = nd
         if marg is None:
             marg = nd.eliminate(c_var)
-- 
2.43.0


From 531b628c5029af28b48d7f1d62d0a6f277efbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 106/108] fix: fixing some of the conditioning variables of a
 conditional density failed

---
 pacal/depvars/nddistr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index fe5c53f..c13a092 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -673,7 +673,11 @@ class ConditionalDistr(NDFun):
         new_cond = set(self.cond_vars) - set(var)
         if len(new_cond) == 0: # no conditioning variables left
             return self.nd.condition(var, *X, **kwargs)
-        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in new_cond], marg=self.marg)
+        marg = self.marg
+        fixed = [k for k, i in enumerate(var) if i in self.cond_vars]
+        if fixed:
+            marg = marg.condition([self.Vars[var[k]] for k in fixed], *[X[k] for k in fixed], **kwargs)
+        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in new_cond], marg=marg)
         return cd
 
 def _get_str_sym_name(v):
-- 
2.43.0


From 41654970e189b3b4cc1b27722e3cd568eb3c0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:52 +0000
Subject: [PATCH 107/108] fix: conditioning a conditional density on its own
 variables left a factor taken to integrate to one

---
 pacal/depvars/nddistr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index c13a092..c280e45 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -673,10 +673,10 @@ class ConditionalDistr(NDFun):
         new_cond = set(self.cond_vars) - set(var)
         if len(new_cond) == 0: # no conditioning variables left
             return self.nd.condition(var, *X, **kwargs)
-        marg = self.marg
-        fixed = [k for k, i in enumerate(var) if i in self.cond_vars]
-        if fixed:
-            marg = marg.condition([self.Vars[var[k]] for k in fixed], *[X[k] for k in fixed], **kwargs)
+        if not set(var) <= set(self.cond_vars):
+            # a likelihood of the remaining conditions, which does not integrate to 1
+            return super(ConditionalDistr, self).condition(var, *X)
+        marg = self.marg.condition([self.Vars[i] for i in var], *X, **kwargs)
         cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in new_cond], marg=marg)
         return cd
 
-- 
2.43.0


From cc4f8eead3b89c5210a9e5850b338ccf028ca441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:05 +0000
Subject: [PATCH 108/108] fix: arithmetic on functions of variables outside of
 their domain failed before the density was needed

---
 pacal/distr.py | 6 +++++-
 pacal/rv.py    | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 97044b8..22e3e51 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -582,8 +582,10 @@ class FuncDistr(FuncRV, OpDistr):
     def f_inv_deriv(self, x):
         pass
     def range(self):
-        with numpy.errstate(divide="ignore"):
+        with numpy.errstate(divide="ignore", invalid="ignore"):
             r = [float(self.f(x)) for x in self.d.range()]
+        if not all(x == x for x in r): # the range is outside of the domain of f
+            return -numpy.inf, numpy.inf
         return _builtin_min(r), _builtin_max(r)
     def rand_op(self, n, cache):
         return self.f(self.d.rand(n, cache))
@@ -961,6 +963,8 @@ class FuncNoninjectiveDistr(OpDistr):
             L, U = _builtin_max(L, a), _builtin_min(U, b)
             if L <= U: # f is monotone on [L, U]
                 r += [float(f(L)), float(f(U))]
+        if not r: # the variable is outside of the domain of the function
+            return -numpy.inf, numpy.inf
         return _builtin_min(r), _builtin_max(r)
     def __str__(self):
         return "{0}(#{1})".format(self.fname, id(self.d))
diff --git a/pacal/rv.py b/pacal/rv.py
index 441efa0..a402eaa 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -396,6 +396,8 @@ def _div_range(r1, r2):
     with numpy.errstate(divide="ignore", invalid="ignore"):
         breaks = divide.outer(numpy.array(r1, dtype=float), numpy.array(r2, dtype=float))
     breaks = breaks[~numpy.isnan(breaks)]
+    if len(breaks) == 0:
+        return -numpy.inf, numpy.inf
     return min(breaks), max(breaks)
 
 class InvRV(OpRV):
-- 
2.43.0

