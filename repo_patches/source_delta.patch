From fe7b931b18d102efe94d6cbd789810537f6ca9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 001/102] fix: VariableMap.copy(deep=True) drops values such as
 frozensets

The MPE solver compared likelihoods of states copied this way; evaluate the
factors in the domains' canonical order so that equal states have equal
likelihood.
---
 src/jpt/inference/mpe.py | 2 +-
 src/jpt/variables.py     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index bb851de..3d30db4 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -177,7 +177,7 @@ class MPESolver:
 
     def likelihood(self, solution: BnBSolution):
         return prod([
-            self.domains[var][val] for var, val in solution.state.assignment.items()
+            domain[solution.state.assignment[var]] for var, domain in self.domains.items()
         ])
 
     def is_goal_state(self, state: MPEState) -> bool:
diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..bbb561c 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -6,6 +6,7 @@ import math
 import numbers
 import uuid
 
+from copy import deepcopy
 from typing import List, Tuple, Any, Union, Dict, Iterator, Set, Iterable, Type, Optional
 import collections.abc
 
@@ -691,8 +692,10 @@ class VariableMap:
         for vname, value in self.items():
             if isinstance(value, (numbers.Number, str)):
                 vmap[vname] = value
-            elif isinstance(value, (set, list, tuple, NumberSet)):
+            elif isinstance(value, (set, list, NumberSet)):
                 vmap[vname] = value.copy()
+            else:
+                vmap[vname] = deepcopy(value)
         return vmap
 
     @classmethod
-- 
2.43.0


From dd626ddb0133e98ad2a7de6057da4d6ce5695692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 002/102] fix: variable settings are lost when a variable is
 restored from JSON

---
 src/jpt/variables.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index bbb561c..f8e6485 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -250,14 +250,15 @@ class NumericVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'NumericVariable':
+        settings = data.get('settings', data)
         domain = Distribution.from_json(data['domain'])
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=settings.get(NumericVariable.MAX_STDEV),
+            precision=settings.get(NumericVariable.PRECISION),
+            blur=settings.get(NumericVariable.BLUR)
         )
 
     @property
@@ -380,11 +381,12 @@ class IntegerVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'IntegerVariable':
+        settings = data.get('settings', data)
         domain = Distribution.from_json(data['domain'])
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -424,9 +426,12 @@ class SymbolicVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
+        settings = data.get('settings', data)
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=settings.get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
-- 
2.43.0


From c6162fb647962b1ae36431ef68bcfeff2ebb520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 003/102] fix: cropping a numeric distribution to a single
 value overwrites the distribution itself

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..79f5fc9 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -394,7 +394,7 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            return type(self)(**self.settings).create_dirac_impulse(restriction)
 
         else:
             raise ValueError(
-- 
2.43.0


From 995aa861e6520aa9d96b22e55ffc360ad82ad558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 004/102] fix: sampling from a distribution with point masses
 fails

---
 src/jpt/distributions/quantile/quantiles.pyx | 32 +++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..cedc4b9 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -328,6 +328,21 @@ cdef class QuantileDistribution:
 
         return result
 
+    cpdef list jumps(self):
+        '''
+        The discontinuities of the CDF as a list of tuples ``(x, w)``, i.e. the points ``x`` that
+        carry a point mass of ``w`` each.
+        '''
+        cdef list result = []
+        cdef DTYPE_t x, w
+        cdef int i
+        for i in range(1, len(self._cdf.intervals)):
+            x = self._cdf.intervals[i].lower
+            w = self._cdf.functions[i].eval(x) - self._cdf.functions[i - 1].eval(x)
+            if w > 1e-9:
+                result.append((x, w))
+        return result
+
     @property
     def cdf(self):
         return self._cdf
@@ -565,10 +580,16 @@ cdef class QuantileDistribution:
         if len(self.cdf.intervals) == 2:
             return np.full(n, self.cdf.intervals[0].upper)
 
-        # create probability distribution with the probabilities of each function part
-        interval_probabilities = np.array([function.eval(interval.upper) - function.eval(interval.lower)
-                                           for function, interval in
-                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])])
+        # create probability distribution with the probabilities of each function part,
+        # and of the points that carry a probability mass of their own
+        jumps = self.jumps()
+        interval_probabilities = np.array(
+            [
+                max(0., function.eval(interval.upper) - function.eval(interval.lower))
+                for function, interval in zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])
+            ] + [w for _, w in jumps]
+        )
+        interval_probabilities /= interval_probabilities.sum()
 
         # sample in which function part the samples will be
         sample_intervals = np.random.choice(list(range(0, len(interval_probabilities))), size=(n,),
@@ -589,6 +610,9 @@ cdef class QuantileDistribution:
             # write them into the result
             result[indices] = samples
 
+        for idx, (x, _) in enumerate(jumps, start=len(interval_probabilities) - len(jumps)):
+            result[sample_intervals == idx] = x
+
         return result
 
     def to_json(self):
-- 
2.43.0


From 99f2cd043b54ba8572489328fb63ed555bb0e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 005/102] fix: probability of intervals ignores whether point
 masses on their boundaries are included

Also, overlapping constituents of a RealSet are no longer counted twice.
---
 src/jpt/distributions/univariate/numeric.py | 26 ++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 79f5fc9..ef1b556 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -23,7 +23,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet, EXC, INC
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -273,17 +273,21 @@ class Numeric(Distribution):
         if isinstance(value, numbers.Number):
             value = ContinuousSet(value, value)
         elif isinstance(value, RealSet):
-            return sum(self._p(i) for i in value.intervals)
-        probspace = self.pdf.gt(0)
-        if probspace.isdisjoint(value):
+            value = value.simplify()
+            if isinstance(value, RealSet):
+                return sum(self._p(i) for i in value.intervals)
+        if value.isempty():
             return 0
-        probmass = (
-                (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
-                (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
-        )
-        if not probmass:
-            return probspace in value
-        return probmass
+        # The probability mass of points on the boundaries only
+        # belongs to the interval if the respective boundary does
+        cdf = self.cdf
+        upper = value.uppermost() if value.right == EXC else value.upper
+        lower = value.lower
+        return max(
+            0.,
+            (cdf.eval(upper) if np.isfinite(upper) else float(upper > 0)) -
+            (cdf.eval(lower) if np.isfinite(lower) else float(lower > 0))
+        ) + (sum(w for x, w in self._quantile.jumps() if x == lower) if value.left == INC else 0)
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
         return self._p(self.label2value(labels))
-- 
2.43.0


From bbefdb543b663d948bd1b5ef489f3c128922444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:24 +0000
Subject: [PATCH 006/102] fix: moments of numeric distributions ignore point
 masses

This comprises Dirac impulses, whose moments ignored the center, and were always zero for
orders greater than one.
---
 src/jpt/distributions/univariate/numeric.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index ef1b556..4ea4de7 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -557,14 +557,13 @@ class Numeric(Distribution):
                        the result is the central moment of the distribution.
         """
         value_transform = ifnone(value_transform, lambda _: _)
-        # We have to catch the special case in which the
-        # PDF is an impulse function
+        # Points with a probability mass of their own, e.g. impulse
+        # functions, are not represented by the PDF
+        result = sum(
+            w * pow(value_transform(x) - center, order) for x, w in self._quantile.jumps()
+        )
         if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
-        result = 0
+            return result
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
             if interval_.width == 0:
-- 
2.43.0


From c06e2f5ed427c2c3bdcb5f5ef92dc0eb5cf3708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 007/102] fix: cropping a numeric distribution to a RealSet
 disregards the mass of the constituents

---
 src/jpt/distributions/univariate/numeric.py | 22 +++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 4ea4de7..02edb2d 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -11,6 +11,7 @@ from dnutils import ifnone, ifnot, first
 from matplotlib import pyplot as plt
 
 from ..utils import Identity, DataScaler, DataScalerProxy
+from ...base.errors import Unsatisfiability
 from ...base.utils import save_plot, pairwise, normalized, none2nan
 from . import Distribution
 
@@ -377,16 +378,29 @@ class Numeric(Distribution):
 
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
+            restriction = restriction.simplify()
+            if not isinstance(restriction, RealSet):
+                return self._crop(restriction)
+
             distributions = []
+            weights = []
+
+            for continuous_set in restriction.intervals:
+                weight = self._p(continuous_set)
+                if weight > 0:
+                    distributions.append(
+                        self._crop(continuous_set)
+                    )
+                    weights.append(weight)
 
-            for idx, continuous_set in enumerate(restriction.intervals):
-                distributions.append(
-                    self._crop(continuous_set)
+            if not distributions:
+                raise Unsatisfiability(
+                    'Distribution has zero probability in %s' % restriction
                 )
 
             return self.merge(
                 distributions,
-                [1 / len(distributions)] * len(distributions)
+                normalized(weights)
             )
 
         elif isinstance(restriction, ContinuousSet):
-- 
2.43.0


From 6348166ec7d5d86219eeda22eb4d2210a5cbc103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 008/102] fix: cropping a CDF with point masses misplaces their
 mass

---
 src/jpt/distributions/quantile/quantiles.pyx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index cedc4b9..f7f9ba4 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -270,8 +270,9 @@ cdef class QuantileDistribution:
         # I: crop
         cdf_ = self.cdf.crop(interval)
 
-        # II: add constant to move to
-        cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
+        # II: add constant to move to, retaining the mass of the lower boundary point if it has any
+        lower = cdf_.intervals[0].lowermost()
+        cdf_ += sum([w for x, w in self.jumps() if x == lower]) - cdf_.eval(lower)
 
         # everything left of the leftmost point of the cropped function evaluates to 0
         cdf = PiecewiseFunction()
@@ -280,14 +281,20 @@ cdef class QuantileDistribution:
 
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
+        if alpha <= 0:
+            if interval.size() > 1:
+                raise Unsatisfiability(
+                    'CDF has zero Probability in %s' % interval
+                )
+            alpha = 1  # A single point always takes the entire mass
 
-        f_ = cdf_.functions[0]
+        f_ = ConstantFunction(0.)
         for i, f in zip(cdf_.intervals, cdf_.functions):
             if f == ConstantFunction(0.):
                 cdf.intervals[-1].upper = i.upper
                 continue
             y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) * alpha  # If the function is continuous (no jump), c = 0
+            c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
             upper_ = np.nextafter(i.upper, i.upper - 1)
-- 
2.43.0


From ddd58042ce934267bd34dc200a9eea6116b60576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 009/102] fix: merging distributions drops point masses of CDFs
 that are not pure jump functions

---
 src/jpt/distributions/quantile/quantiles.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index f7f9ba4..bae4fdb 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -485,11 +485,14 @@ cdef class QuantileDistribution:
             )
 
         # --------------------------------------------------------------------------------------------------------------
-        # We preprocess the CDFs that are in the form of "jump" functions
+        # We preprocess the point masses, which are represented by jumps of the CDFs
         jumps = {}
-        for w, cdf in [(w, d.cdf) for w, d in zip(weights, distributions) if len(d.cdf) == 2]:
-            jumps[cdf.intervals[0].upper] = jumps.get(cdf.intervals[0].upper, Jump(cdf.intervals[0].upper, 1, 0))
-            jumps.get(cdf.intervals[0].upper).weight += w
+        for d, w in zip(distributions, weights):
+            if w <= 0:
+                continue
+            for x, w_ in QuantileDistribution.from_cdf(d.cdf).jumps():
+                jumps[x] = jumps.get(x, Jump(x, 1, 0))
+                jumps.get(x).weight += w * w_
 
         # --------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 8dbdc5e2743924c2543c9ceaa5c2bee35ca7b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 010/102] fix: merging distributions on wide value ranges
 yields invalid CDFs

Slopes below an absolute threshold were dropped, and the slope of the merged function was
accumulated by sums and differences.
---
 src/jpt/distributions/quantile/quantiles.pyx | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index bae4fdb..1777632 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -521,10 +521,10 @@ cdef class QuantileDistribution:
 
         m = 0
         c = 0
+        slopes = []  # The slopes of the functions that overlap at the current position
 
         while lower or upper:
             pivot = None
-            m_ = m
             offset = 0
 
             # Process all function intervals whose lower bound is minimal and
@@ -537,7 +537,7 @@ cdef class QuantileDistribution:
                 if isinstance(f, Jump):  # and isinstance(functions[-1], LinearFunction):
                     offset += w
                 if isinstance(f, LinearFunction):
-                    m_ += f.m * w
+                    slopes.append(f.m * w)
                 pivot = l
 
             # Do the same for the upper bounds...
@@ -546,14 +546,14 @@ cdef class QuantileDistribution:
                 u, f, w = upper.pop(0)
                 if isinstance(f, (ConstantFunction, Jump)) or u == np.PINF or isinstance(f, LinearFunction) and f.m == 0:
                     continue
-                m_ -= f.m * w
+                slopes.remove(f.m * w)
                 pivot = u
 
             if pivot is None:
                 continue
 
             y = m * pivot + c
-            m = m_ if abs(m_) > 1e-8 else 0
+            m = sum(slopes)
             c = y - m * pivot + offset
 
             intervals[-1].upper = pivot
@@ -561,13 +561,7 @@ cdef class QuantileDistribution:
                 # Split the last interval at the pivot point
                 intervals.append(ContinuousSet(pivot, np.PINF, INC, EXC))
                 # Evaluate the old function at the new pivot point to get the intercept
-                functions.append(LinearFunction(m, c) if abs(m) > 1e-8 else ConstantFunction(c))
-
-        # If the merging ends with an "approximate" constant function
-        # remove it. This may happen for numerical imprecision.
-        while len(functions) > 1 and abs(functions[-1].m) <= 1e-08 and functions[-1].m:
-            del intervals[-1]
-            del functions[-1]
+                functions.append(LinearFunction(m, c) if m else ConstantFunction(c))
 
         cdf = PiecewiseFunction()
         cdf.functions = functions
-- 
2.43.0


From 7f40f4394961d4a6582736f86b953c26b2906aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 011/102] fix: PPF of distributions with point masses
 extrapolates beyond their support

---
 src/jpt/distributions/quantile/quantiles.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 1777632..8ed5328 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -418,6 +418,10 @@ cdef class QuantileDistribution:
             for interval, f in zip(self._cdf.intervals, self._cdf.functions):
 
                 if f.is_invertible():
+                    if f(interval.lower) - y_cdf > 1e-9:  # The CDF jumps at the lower end of the interval
+                        ppf.functions.append(ConstantFunction(interval.lower))
+                        ppf.intervals[-1].upper = min(one_plus_eps, f(interval.lower))
+                        ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, np.PINF, INC, EXC))
                     ppf.functions.append(f.invert())
                     const = 0
                 elif not f.c:
-- 
2.43.0


From 9d3b462658cc76024e82165f20369686e46aa9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 012/102] fix: quantiles of distributions on wide value ranges
 fail

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..61327cb 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -668,7 +668,7 @@ cdef class LinearFunction(Function):
         Checks if this function can be inverted.
         :return: True if it is possible, False if not
         """
-        return abs(self.m) >= 1e-4
+        return self.m != 0
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y) except +:
         """
-- 
2.43.0


From dbb3ae6e0b82a317a18290122891d4bf1c5997b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 013/102] fix: k-MPE states of numeric distributions are
 repeated for equal densities

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 02edb2d..d407f47 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -207,7 +207,7 @@ class Numeric(Distribution):
         :param k: The number of solutions to generate, defaults to the maximum possible number.
         :return: A list containing a tuple containing the likelihood and state in descending order.
         """
-        likelihoods = [f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)]
+        likelihoods = {f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)}
         sorted_likelihood = sorted(
             likelihoods,
             reverse=True
-- 
2.43.0


From 9210d535e39ad16119778010fdf4e220e501c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 014/102] fix: piecewise functions compare equal to their
 prefixes

---
 src/jpt/base/functions.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 61327cb..9c513b6 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -936,6 +936,8 @@ cdef class PiecewiseFunction(Function):
                 'An object of type "PiecewiseFunction" '
                 'is required, but got "%s".' % type(other).__name__
             )
+        if len(self) != len(other):
+            return False
         for i1, f1, i2, f2 in zip(self.intervals, self.functions, other.intervals, other.functions):
             if i1 != i2 or f1 != f2:
                 return False
-- 
2.43.0


From 345f6f67edb0f01cd3889de7a7e566407a7f0233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 015/102] fix: k-MPE fails if a numeric distribution is a Dirac
 impulse

---
 src/jpt/inference/mpe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index 3d30db4..cf0412e 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -129,7 +129,8 @@ class MPESolver:
 
             if isinstance(dist, Numeric):
                 _, likelihood_max = dist._mpe()
-                likelihoods.append(likelihood_max)
+                if np.isfinite(likelihood_max):
+                    likelihoods.append(likelihood_max)
 
         # Build the unary constraints given by the log of
         # an events probability
-- 
2.43.0


From 1c1b97c71bbcdf28677f2cff8a8d7c5809bdc46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 016/102] fix: k-MPE of a tree yields its solutions in wrong
 order

The candidates of the leaves were compared in ascending order of their likelihoods, and without
the priors of the leaves. Evidence passed as a dict was not bound either.
---
 src/jpt/trees.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..cf9a643 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1310,13 +1310,8 @@ class JPT:
         :param k: the number of solutions to return
         :return: An iterator with states ordered by likelihood.
         """
-        if isinstance(evidence, LabelAssignment):
-            evidence_ = evidence.value_assignment()
-        else:
-            evidence_ = evidence
-
         # apply the evidence given
-        conditional_jpt = self.conditional_jpt(evidence_, fail_on_unsatisfiability)
+        conditional_jpt = self.conditional_jpt(evidence, fail_on_unsatisfiability)
         if conditional_jpt is None:
             return None
 
@@ -1335,15 +1330,20 @@ class JPT:
                 likelihood_divisor=likelihood_max if likelihoods else None
             ).solve() for leaf in conditional_jpt.leaves.values()
         ]
+        leaf_priors = [leaf.prior for leaf in conditional_jpt.leaves.values()]
+
+        def candidate(prior, solver):
+            state, likelihood = next(solver)
+            return state, prior * likelihood, prior, solver
 
         mpe_candidates = Heap(
-            data=[(*next(solver), solver) for solver in mpe_solvers],
-            key=itemgetter(1)
+            data=[candidate(prior, solver) for prior, solver in zip(leaf_priors, mpe_solvers)],
+            key=lambda c: -c[1]
         )
 
         count = 0
         while mpe_candidates and (not k or count < k):
-            solution, likelihood, solver = mpe_candidates.pop()
+            solution, likelihood, prior, solver = mpe_candidates.pop()
             values = ValueAssignment(
                 [
                     (variable, value if variable.numeric else set(value))
@@ -1353,7 +1353,7 @@ class JPT:
             values = values.label_assignment()
             yield values, likelihood
             try:
-                mpe_candidates.push((*next(solver), solver))
+                mpe_candidates.push(candidate(prior, solver))
             except StopIteration:
                 pass
             count += 1
-- 
2.43.0


From 64f22caae590943e2b20e2450967711c1bdcf238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 017/102] fix: infer() disregards the dependency of query and
 evidence about the same variable

---
 src/jpt/trees.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index cf9a643..53db61f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1065,23 +1065,35 @@ class JPT:
 
         for leaf in self.apply(evidence_):
             p_m = 1
+            p_joint = leaf.prior
             for var in set(evidence_.keys()):
                 evidence_val = evidence_[var]
                 if var in leaf.path:  # var.numeric and
                     evidence_val = evidence_val.intersection(leaf.path[var])
-                p_m *= leaf.distributions[var]._p(evidence_val)
+                p_var = leaf.distributions[var]._p(evidence_val)
+                p_m *= p_var
+                if var not in query_:
+                    p_joint *= p_var
 
             w = leaf.prior
             p_m *= w
             p_e += p_m
 
-            if leaf.applies(query_):
+            if p_m and leaf.applies(query_):
                 for var in set(query_.keys()):
                     query_val = query_[var]
+                    # Variables can be part of both the query and the evidence
+                    if var in evidence_:
+                        evidence_val = evidence_[var]
+                        query_val = (
+                            evidence_val.intersection(query_val)
+                            if isinstance(evidence_val, RealSet)
+                            else query_val.intersection(evidence_val)
+                        )
                     if var in leaf.path:
                         query_val = query_val.intersection(leaf.path[var])
-                    p_m *= leaf.distributions[var]._p(query_val)
-                p_q += p_m
+                    p_joint *= leaf.distributions[var]._p(query_val)
+                p_q += p_joint
 
         if p_e == 0:
             if fail_on_unsatisfiability:
-- 
2.43.0


From cf82df0a1a7e4db923121aa5110425f1af439097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 018/102] fix: posteriors of evidence variables ignore the
 evidence in leaves that do not split on them

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 53db61f..cb34a9f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1183,7 +1183,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
-- 
2.43.0


From 674f665876542244841f72a94f76241c82c18240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 019/102] fix: posterior() mixes up densities and probabilities
 if evidence touches a split value

---
 src/jpt/trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index cb34a9f..876edd7 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1157,7 +1157,9 @@ class JPT:
                 if var in leaf.path:
                     evidence_set = evidence_set.intersection(leaf.path[var])
 
-                if isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1:
+                # Only singular evidence is weighted by its density; intersecting an interval
+                # with the path of the leaf may result in a single point, too
+                if isinstance(evidence_[var], ContinuousSet) and evidence_[var].size() == 1:
                     l_var = leaf.distributions[var].pdf(evidence_set.lower)
                     l_var = 1 if np.isinf(l_var) else l_var
                 else:
-- 
2.43.0


From 26940004094a01c83e08d77cbd58d0199b0998bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 020/102] fix: conditional_jpt() ignores evidence below
 decision nodes with a single child

Such nodes are the result of prior applications of conditional_jpt().
---
 src/jpt/trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 876edd7..451a8bd 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2224,6 +2224,7 @@ class JPT:
 
         # initialize exploration queue
         fringe = deque([conditional_jpt.root])
+        expanded = set()
 
         while fringe:
             # get the next node to inspect
@@ -2248,7 +2249,8 @@ class JPT:
                     rm = True
 
                 # else recurse into its children
-                elif len(node.children) == 2:
+                elif node.idx not in expanded:
+                    expanded.add(node.idx)
                     fringe.extendleft(node.children)
                     continue
 
-- 
2.43.0


From cabbde6eb42c85576425b454e1538a4f276bc506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 021/102] fix: samples at the split value of a numeric variable
 are assigned to the wrong partition

---
 src/jpt/trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 451a8bd..1a0ae26 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -131,7 +131,7 @@ class Node:
                     # if it is a singular value
                     else:
                         # check if the path allows this value
-                        if not restriction.lower < value <= restriction.upper:
+                        if value not in restriction:
                             return False
 
                 # if the variable is symbolic or integer
@@ -176,7 +176,9 @@ class Node:
         for variable, restriction in self.path.items():
             index = variable_index_map[variable]
             if variable.numeric:
-                result *= (samples[:, index] > restriction.lower) & (samples[:, index] <= restriction.upper)
+                result *= (
+                    (samples[:, index] >= restriction.lowermost()) & (samples[:, index] <= restriction.uppermost())
+                )
             if variable.symbolic or variable.integer:
                 result *= np.isin(samples[:, index], list(restriction))
 
-- 
2.43.0


From f76ece6de6bbe87628aafbbab33ed958f9a2ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 022/102] fix: RealSet.to_json() drops all but the last
 interval

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..edd7cd3 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -220,7 +220,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
-- 
2.43.0


From 84885958f8d3b2235fbe9e6bc31b920686b8d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 023/102] fix: JPT.moment() mixes up label and value space of
 the center

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1a0ae26..c51495b 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2561,9 +2561,9 @@ class JPT:
         posteriors = self.posterior([v for v in self.variables if v.numeric or v.integer], evidence,
                                     fail_on_unsatisfiability)
 
-        # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        # The moments are computed in label space, so convert c to labels, if necessary
+        if isinstance(center, ValueAssignment):
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0


From cc9fe7b6dd52d4b3bdcd0edffe0ad9708fdd49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 024/102] fix: MPE of numeric distributions fails if they
 consist of point masses only

---
 src/jpt/distributions/univariate/numeric.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index d407f47..f6ece3f 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -208,6 +208,13 @@ class Numeric(Distribution):
         :return: A list containing a tuple containing the likelihood and state in descending order.
         """
         likelihoods = {f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)}
+        if not likelihoods:  # There are point masses only
+            atoms = self._quantile.jumps()
+            return [(
+                RealSet([ContinuousSet(x, x) for x, _ in atoms]).simplify(),
+                np.inf
+            )]
+
         sorted_likelihood = sorted(
             likelihoods,
             reverse=True
-- 
2.43.0


From c9e670a233e66d4114172f5ed43600b3fd2694a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 025/102] fix: RealSet.simplify() loses sets and modifies its
 operand if intervals share boundaries

---
 src/jpt/base/intervals.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index edd7cd3..8ce5323 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -468,7 +468,7 @@ cdef class RealSet(NumberSet):
         while tail:
             head, tail_ = first(chop(tail))
             if not head.isempty():
-                intervals.append(head)
+                intervals.append(head.copy())
             tail = []
             for subset in tail_:
                 diff = subset.difference(head)
@@ -478,7 +478,7 @@ cdef class RealSet(NumberSet):
                     tail.extend(diff.intervals)
         if not intervals:
             return EMPTY
-        head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
+        head, tail = first(chop(sorted(intervals, key=attrgetter('lower', 'upper'))))
         intervals = [head]
         for subset in tail:
             if intervals[-1].contiguous(subset):
-- 
2.43.0


From ef8d93e3819e269736eb8e24b0a6a9d9c2cb549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 026/102] fix: error messages about unsatisfiable evidence mix
 up labels and values

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index c51495b..1c87775 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1100,7 +1100,7 @@ class JPT:
         if p_e == 0:
             if fail_on_unsatisfiability:
                 raise ValueError(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
             else:
                 return None
@@ -1196,7 +1196,7 @@ class JPT:
         except ValueError:
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Evidence %s is unsatisfiable.' % format_path(evidence),
+                    'Evidence %s is unsatisfiable.' % format_path(evidence_),
                     reasons=inconsistencies
                 )
             return None
@@ -1252,7 +1252,7 @@ class JPT:
 
         if posteriors is None:
             if fail_on_unsatisfiability:
-                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence))
+                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_))
             else:
                 return None
 
@@ -2295,7 +2295,7 @@ class JPT:
             # raise an error if wanted
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
 
             # return None if error is not wanted
-- 
2.43.0


From ed55ffb9a321abc9bd37c98cd931e0add2636246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 027/102] fix: splits on symbolic variables miscount samples if
 all targets are numeric

---
 src/jpt/learning/impurity.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 6ea1a61..5d9f369 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1134,13 +1134,15 @@ cdef class Impurity:
             # if this variable is symbolic
             if symbolic:
 
+                # the next split candidate isolates another value
+                self.num_samples[...] = 0
+
                 # if symbolic targets exist
                 if self.has_symbolic_vars():
                     self.symbols_left[...] = 0
                     self.symbols_right[...] =  self.symbols_total[...]
 
                     self.gini_improvements[...] = 0
-                    self.num_samples[...] = 0
 
                 # if numeric targets exist
                 if self.has_numeric_vars(var_idx):
-- 
2.43.0


From 58a1abcdf3aba78993c13b2416b3a0d5337c0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 028/102] fix: learning crashes if the impurity improvement of
 a split is exactly -1

---
 src/jpt/learning/impurity.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 5d9f369..921e7b4 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -775,7 +775,7 @@ cdef class Impurity:
                 else: return False
         return True
 
-    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except -1:
+    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except? -1:
         """
         Calculate the best split on all variables.
         
@@ -957,7 +957,7 @@ cdef class Impurity:
             DTYPE_t gini_total,
             SIZE_t[::1] index_buffer,
             SIZE_t* best_split_pos
-    ) nogil except -1:
+    ) nogil except? -1:
         """
         Evaluate a variable w. r. t. its possible slit. Calculate the best split on this variable
         and the corresponding impurity.
-- 
2.43.0


From 8934054ea4807ba136ed50dfac7dbc7aef19c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 029/102] fix: Gini impurity of target variables uses domain
 sizes of other variables

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 921e7b4..7284cdd 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -615,7 +615,7 @@ cdef class Impurity:
     def get_size_of_symbolic_variables_domain_from_tree(cls, tree):
         return np.array([
             v.domain.n_values
-            for v in tree.variables if v.symbolic
+            for v in tree.variables if v.symbolic and v in tree.targets
         ], dtype=np.int64)
 
     @classmethod
-- 
2.43.0


From 816181426089ffd4b5db90d52b6b7c2526fbe771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 030/102] fix: difference of intervals fails if their ends
 coincide up to the representation

---
 src/jpt/base/intervals.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 8ce5323..e937e50 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -895,13 +895,13 @@ cdef class ContinuousSet(NumberSet):
         if self.lower == other.lower:
             if self.left == _EXC and other.left == _INC:
                 return False
-            elif self.left == other.left and proper_containment:
-                return False
         if self.upper == other.upper:
             if self.right == _EXC and other.right == _INC:
                 return False
-            elif self.right == other.right and proper_containment:
-                return False
+        if proper_containment and (
+                self.lowermost() == other.lowermost() or self.uppermost() == other.uppermost()
+        ):
+            return False
         return True
 
     cpdef inline np.int32_t contiguous(ContinuousSet self, ContinuousSet other):
-- 
2.43.0


From 9a677f4f91ff106f18041db1da9b57d39efffdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 031/102] fix: cropping to a RealSet fails if a constituent has
 a mass at the level of rounding errors

---
 src/jpt/distributions/univariate/numeric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index f6ece3f..5e5d90d 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -395,9 +395,12 @@ class Numeric(Distribution):
             for continuous_set in restriction.intervals:
                 weight = self._p(continuous_set)
                 if weight > 0:
-                    distributions.append(
-                        self._crop(continuous_set)
-                    )
+                    try:
+                        distributions.append(
+                            self._crop(continuous_set)
+                        )
+                    except Unsatisfiability:  # the mass is a rounding error
+                        continue
                     weights.append(weight)
 
             if not distributions:
-- 
2.43.0


From d6503be934233e5a3f7eee97aee979ccb95ada5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 032/102] fix: merging with operands of negligible weight
 yields a CDF that ends before infinity

---
 src/jpt/distributions/quantile/quantiles.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 8ed5328..6389159 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -560,9 +560,9 @@ cdef class QuantileDistribution:
             m = sum(slopes)
             c = y - m * pivot + offset
 
-            intervals[-1].upper = pivot
             if (c or m) and (m != functions[-1].m or c != functions[-1].c):
                 # Split the last interval at the pivot point
+                intervals[-1].upper = pivot
                 intervals.append(ContinuousSet(pivot, np.PINF, INC, EXC))
                 # Evaluate the old function at the new pivot point to get the intercept
                 functions.append(LinearFunction(m, c) if m else ConstantFunction(c))
-- 
2.43.0


From 314c8de816a0d7f5b70834b9969091f33ed6c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 033/102] fix: conditional_jpt() counts overlapping intervals
 of the evidence repeatedly

---
 src/jpt/trees.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1c87775..d259668 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -515,6 +515,10 @@ class Leaf(Node):
             This can be useful to use the same likelihood parameters for different test sets for example in cross
             validation processes.
         """
+        if isinstance(value, RealSet):
+            # Overlapping intervals must not be counted repeatedly
+            value = value.simplify()
+
         if isinstance(value, RealSet):
             return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals)
 
-- 
2.43.0


From c6b49b2bedb3290b30e259b18fc3f461733c7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 034/102] fix: CDFs of cropped and merged distributions may not
 end at exactly 1

---
 src/jpt/distributions/quantile/quantiles.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 6389159..50b3926 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -306,6 +306,7 @@ cdef class QuantileDistribution:
                 cdf.functions.append(LinearFunction.from_points((i.lower, y + c),
                                                                 (upper_, (f.m / alpha) * (upper_ - i.lower) + y + c)))
         if cdf.functions[-1] == ConstantFunction(1.):
+            cdf.functions[-1] = ConstantFunction(1.)  # ... exactly, regardless of rounding errors
             cdf.intervals[-1].upper = np.PINF
             cdf.intervals[-1].right = EXC
             if len(cdf.intervals) > 1:
@@ -572,6 +573,7 @@ cdef class QuantileDistribution:
         cdf.intervals = intervals
 
         cdf.ensure_right(ConstantFunction(1), cdf.intervals[-1].lower)
+        cdf.functions[-1] = ConstantFunction(1)  # ... exactly, regardless of rounding errors
 
         distribution = QuantileDistribution()
         distribution.cdf = cdf
-- 
2.43.0


From 3f98817022998f5af814f8cc1e7ae3487160f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 035/102] fix: conditional trees cannot be printed if children
 of symbolic decision nodes were removed

---
 src/jpt/trees.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index d259668..f8bef23 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -299,12 +299,13 @@ class DecisionNode(Node):
                 fmt='logic'
             )
         elif self.variable.symbolic:
-            negate = len(self.splits[1]) > 1
-            if negate:
-                label = self.variable.domain.labels[fst(self.splits[0])]
-                return '%s%s' % ('\u00AC' if idx_split > 0 else '', label)
+            # The sibling of this edge may have been removed (e.g. in conditional trees)
+            split = self.splits[idx_split]
+            if len(split) > 1:
+                excluded = set(self.variable.domain.values.values()) - split
+                return '\u00AC%s' % self.variable.domain.labels[fst(excluded)]
             else:
-                return str(self.variable.domain.labels[fst(self.splits[idx_split])])
+                return str(self.variable.domain.labels[fst(split)])
         elif self.variable.integer:
             return setstr_int(self.variable.domain.value2label(self.splits[idx_split]))
 
-- 
2.43.0


From a6244a9e68f2e2f904b77014fc1b3a086b4bac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 036/102] fix: prune() fails for conditional trees with
 decision nodes that lost a child

---
 src/jpt/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index f8bef23..68541f2 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2631,6 +2631,8 @@ class JPT:
         queue: deque[DecisionNode] = deque(list(jpt.innernodes.values()))
         while queue:
             node: DecisionNode = queue.popleft()
+            if len(node.children) != 2:  # Children may have been removed in conditional trees
+                continue
             left, right = node.children
             if (
                     node.idx not in jpt.innernodes
-- 
2.43.0


From dae333e971d62146c55f76e1071c1fd7ca573b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 037/102] fix: conditional_jpt() fails if the evidence unites
 intervals and single points

---
 src/jpt/trees.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 68541f2..44a8518 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -517,11 +517,7 @@ class Leaf(Node):
             validation processes.
         """
         if isinstance(value, RealSet):
-            # Overlapping intervals must not be counted repeatedly
-            value = value.simplify()
-
-        if isinstance(value, RealSet):
-            return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals)
+            return self.distributions[variable]._p(value)
 
         # handle ContinuousSet
         elif isinstance(value, ContinuousSet):
-- 
2.43.0


From 3ef27165b791dd39e3bb8e976f03f8a4a0565ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 038/102] fix: JPT.pdf() mixes up labels and values of symbolic
 and integer variables

---
 src/jpt/trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 44a8518..cc03b5a 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1008,6 +1008,7 @@ class JPT:
         pdf = 0
         for leaf in self.apply(values_sets):
             pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
+                                      if var.numeric else leaf.distributions[var]._pdf(value)
                                       for var, value in values_scalars.items()) if values_scalars else 1)
         return pdf
 
-- 
2.43.0


From 8df41cd2a9a84635873cbad9a6717f91b3a0369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 039/102] fix: MPESolver ranks symbolic and integer areas by
 their probability mass instead of their likelihood

---
 src/jpt/inference/mpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index cf0412e..b34ba33 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -148,7 +148,7 @@ class MPESolver:
                             -np.log(
                                 (dist.pdf / likelihood_divisor).eval(val.any_point())
                                 if isinstance(dist, Numeric)
-                                else dist._p(val)
+                                else self.domains[var][val]
                             )
                         )
                         for val in self.domains[var]],
-- 
2.43.0


From dd469e752e3eaa91daa3550c5b2c98a891e97813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:49 +0000
Subject: [PATCH 040/102] fix: MPE states of point masses are half-open
 intervals that may be empty in label space

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 5e5d90d..52957bc 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -225,7 +225,7 @@ class Numeric(Distribution):
             result.append(
                 (
                     RealSet([
-                        interval
+                        interval if np.isfinite(likelihood) else ContinuousSet(interval.lower, interval.lower)
                         for interval, function in zip(self.pdf.intervals, self.pdf.functions)
                         if function.value == likelihood
                     ]).simplify(),
-- 
2.43.0


From 38e8f30538203b699a73d4107c9d78d471ca2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 041/102] fix: variance of constant targets is not subject to
 rounding errors in split selection

---
 src/jpt/learning/impurity.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 7284cdd..0be3b3a 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -804,6 +804,8 @@ cdef class Impurity:
         # calculate the number of samples
         cdef int n_samples = end - start
 
+        cdef SIZE_t i
+
         # initialize impurity and gini index
         cdef np.float64_t impurity_total = 0
         cdef np.float64_t gini_total = 0
@@ -832,6 +834,11 @@ cdef class Impurity:
                       n_samples,
                       result=self.variances_total)
 
+            # the variance of a constant is zero, but the computation above is only exact up to rounding errors
+            for i in range(self.n_num_vars):
+                if self.col_is_constant(self.start, self.end, self.numeric_vars[i]) == 1:
+                    self.variances_total[i] = 0
+
             # sanity check to see if the variances "make sense"
             # if not self.check_max_variances(self.variances_total):
             #     return 0
-- 
2.43.0


From df04216a258ad4a26f3849d44702a3552c620869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:58 +0000
Subject: [PATCH 042/102] fix: max_depth=0 is treated as no limit

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index cc03b5a..248cbf6 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -760,7 +760,7 @@ class JPT:
         self.root = None
         self.c45queue = deque()
         self.max_leaves = max_leaves
-        self.max_depth = max_depth or float('inf')
+        self.max_depth = ifnone(max_depth, float('inf'))
         self._node_counter = 0
         self.indices = None
         self.impurity = None
-- 
2.43.0


From 8c57cacceefed34cf2c4862b920fa1a45ad4d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:01 +0000
Subject: [PATCH 043/102] fix: cropping a symbolic distribution to an
 impossible label is not recognised as unsatisfiable

---
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..298555f 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -370,7 +370,7 @@ class Multinomial(Distribution):
             restriction: Union[int, Collection[int]],
     ) -> 'Multinomial':
         if not isinstance(restriction, Collections):
-            return self.create_dirac_impulse(restriction)
+            restriction = {restriction}
 
         result = self.copy()
         for idx, value in enumerate(result.values.values()):
-- 
2.43.0


From 0bfa5206f3b837691a8fb8e9cc02143f6dbbb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 044/102] fix: cropping a numeric distribution to a point
 outside of its support is not recognised as unsatisfiable

---
 src/jpt/distributions/univariate/numeric.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 52957bc..15e4c8a 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -422,6 +422,10 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
+            if not self._supports(restriction):
+                raise Unsatisfiability(
+                    'Distribution has zero probability in %s' % restriction
+                )
             return type(self)(**self.settings).create_dirac_impulse(restriction)
 
         else:
@@ -430,6 +434,18 @@ class Numeric(Distribution):
                 "distribution, type is %s" % type(restriction)
             )
 
+    def _supports(self, value: numbers.Real) -> bool:
+        """
+        Check if ``value`` is in the support of this distribution, i.e. if it carries a point mass or
+        lies within or on the boundary of a segment of positive density.
+        """
+        return (
+            any(
+                i.lower <= value <= i.upper
+                for i, f in zip(self.cdf.intervals, self.cdf.functions) if f.m
+            ) or any(x == value for x, _ in self._quantile.jumps())
+        )
+
     @classmethod
     def type_to_json(cls):
         return {
-- 
2.43.0


From 1188132cd9e3349300151cf4e89dca039100bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 045/102] fix: updating a discrete distribution with itself
 yields an unnormalised distribution

---
 src/jpt/distributions/univariate/integer.py     | 3 +--
 src/jpt/distributions/univariate/multinomial.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a6aa223..cd0880a 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -360,8 +360,7 @@ class Integer(Distribution):
 
         if self._params is None:
             self._params = np.zeros(self.n_values)
-        self._params *= 1 - weight
-        self._params += dist._params * weight
+        self._params = self._params * (1 - weight) + dist._params * weight
 
         return self
 
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 298555f..3466bce 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -442,8 +442,7 @@ class Multinomial(Distribution):
             raise ValueError('Weight must be in [0, 1], got %s' % weight)
         if self._params is None:
             self._params = np.zeros(self.n_values)
-        self._params *= 1 - weight
-        self._params += dist._params * weight
+        self._params = self._params * (1 - weight) + dist._params * weight
 
         return self
 
-- 
2.43.0


From 9a73ab576ea71764529e141cef6a202a979a6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:40 +0000
Subject: [PATCH 046/102] fix: weights of updates of numeric distributions

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 15e4c8a..bf50f30 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -361,7 +361,7 @@ class Numeric(Distribution):
             raise TypeError('Can only update with distribution of the same type, got %s' % type(dist))
         tmp = Numeric.merge(
             [self, dist],
-            normalized([1, weight])
+            [1 - weight, weight]
         )
         self.values = tmp.values
         self.labels = tmp.labels
-- 
2.43.0


From ec9a26f74e1b16a6cbebb7a1bc12018dff59ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:19 +0000
Subject: [PATCH 047/102] fix: approximations remove the wrong segments of
 functions with equal segments

---
 src/jpt/base/functions.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 9c513b6..ff82a8e 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -2004,10 +2004,10 @@ class PLFApproximator:
                 break
 
             # Remove the left and right segments of the replacement from the original function
-            del result.intervals[result.intervals.index(replacement.left.i)]
-            del result.functions[result.functions.index(replacement.left.f)]
-            del result.intervals[result.intervals.index(replacement.right.i)]
-            del result.functions[result.functions.index(replacement.right.f)]
+            for segment in (replacement.left, replacement.right):
+                idx = result.intervals.index(segment.i)
+                del result.intervals[idx]
+                del result.functions[idx]
 
             # Insert the new segment at the interval union of the former left and right segments
             result = result.overwrite_at(
-- 
2.43.0


From 85f8c06aaa5e5062ec8680f19b09cbc02f6447db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 048/102] fix: adding numeric distributions ignores point
 masses and the position of impulses

---
 src/jpt/base/functions.pyx                  |  7 +++---
 src/jpt/distributions/univariate/numeric.py | 26 ++++++++++++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index ff82a8e..ce3ab69 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1717,10 +1717,9 @@ cdef class PiecewiseFunction(Function):
         :return:
         '''
         f = self
-        if f.is_impulse():
-            return g.copy()
-        elif g.is_impulse():
-            return f.copy()
+        for f_, g_ in ((f, g), (g, f)):
+            if f_.is_impulse():  # Convolving with an impulse moves the other function to its position
+                return g_.xshift(-f_.intervals[1].lower if len(f_) == 3 else -f_.functions[0].knot)
         for func in itertools.chain(f.functions, g.functions):
             if (not isinstance(func, (ConstantFunction, Undefined)) and
                     isinstance(func, LinearFunction) and func.m != 0):
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index bf50f30..3b18a1e 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -620,9 +620,29 @@ class Numeric(Distribution):
 
     def __add__(self, other: 'Numeric') -> 'Numeric':
         result = type(self)(**self.settings)
-        result._quantile = QuantileDistribution.from_pdf(
-            self.pdf.convolution(other.pdf).rectify().simplify()
-        )
+        # The PDF does not represent the point masses of a distribution, so
+        # they contribute copies of the other distribution shifted by them
+        jumps, other_jumps = self._quantile.jumps(), other._quantile.jumps()
+        summands = [(other.cdf.xshift(-x).simplify(), w) for x, w in jumps]
+        rest = 1 - sum(w for _, w in jumps)
+        if rest > 1e-9:
+            continuous = QuantileDistribution.from_pdf(self.pdf) if jumps else self._quantile
+            summands.extend((continuous.cdf.xshift(-x).simplify(), rest * w) for x, w in other_jumps)
+            other_rest = 1 - sum(w for _, w in other_jumps)
+            if other_rest > 1e-9:
+                summands.append((
+                    QuantileDistribution.from_pdf(
+                        self.pdf.convolution(other.pdf).rectify().simplify()
+                    ).cdf,
+                    rest * other_rest
+                ))
+        if len(summands) == 1:
+            result._quantile = QuantileDistribution.from_cdf(summands[0][0])
+        else:
+            result._quantile = QuantileDistribution.merge(
+                [QuantileDistribution.from_cdf(cdf) for cdf, _ in summands],
+                [w for _, w in summands]
+            )
         return result
 
     def approximate(
-- 
2.43.0


From 6654e8f75e7d6958afea67534a92abb0a2ba5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 049/102] fix: assigning probabilities to the values of a
 Boolean distribution fails

---
 src/jpt/distributions/univariate/multinomial.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 3466bce..82a5c61 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -633,9 +633,8 @@ class Bool(Multinomial):
     #     return f'{self._cl}<p=[{",".join([f"{v}={p:.3f}" for v, p in zip(self.labels, self._params)])}]>'
 
     def __setitem__(self, v, p):
-        if not isinstance(p, Iterable):
-            p = np.array([p, 1 - p])
-        super().__setitem__(v, p)
+        # The probabilities of both values are always complementary
+        self.set(p if self.values[v] else 1 - p)
 
 
 # ----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 1bd0d68e2747a86ca430b91a16d2a3c00b919369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:49 +0000
Subject: [PATCH 050/102] fix: domains are equal if the labels of one are a
 prefix of those of the other

---
 src/jpt/distributions/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index af41384..1f0602d 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -202,7 +202,7 @@ class OrderedDictProxy:
         return len(self._dict)
 
     def __eq__(self, other):
-        if not isinstance(other, OrderedDictProxy):
+        if not isinstance(other, OrderedDictProxy) or len(self) != len(other):
             return False
         for self_, other_ in zip(self._dict.items(), other._dict.items()):
             if self_[0] != other_[0] or self_[1] != other_[1]:
-- 
2.43.0


From 18c8a51078ae0da65056e4d7c9fe1319b3ffcaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 051/102] fix: blurred evidence of scaled variables mixes
 labels, values and quantiles

---
 src/jpt/trees.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 248cbf6..c81b5ef 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1428,30 +1428,29 @@ class JPT:
                     # Apply a "blur" to single value evidences, if any blur is set
                     elif var.blur:
                         prior = self.priors[var.name]
-                        transformer = var.domain.label2value if space == 'labels' else var.domain.value2label
+                        value = var.domain.label2value(val) if space == 'labels' else val
                         quantile = prior.cdf.functions[
                             max(
                                 1,
                                 min(
                                     len(prior.cdf) - 2,
-                                    prior.cdf.idx_at(transformer(val))
+                                    prior.cdf.idx_at(value)
                                 )
                             )
-                        ].eval(val)
-                        lower = transformer(quantile - var.blur / 2)
-                        upper = transformer(quantile + var.blur / 2)
-                        query_[var] = ContinuousSet(
-                            transformer(
-                                prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
-                                    lower
+                        ].eval(value)
+                        blurred = ContinuousSet(*[
+                            prior.ppf.functions[
+                                max(
+                                    1,
+                                    min(
+                                        len(prior.ppf) - 2,
+                                        prior.ppf.idx_at(q)
+                                    )
                                 )
-                            ),
-                            transformer(
-                                prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(upper)))].eval(
-                                    upper
-                                )
-                            )
-                        )
+                            ].eval(q)
+                            for q in (quantile - var.blur / 2, quantile + var.blur / 2)
+                        ])
+                        query_[var] = var.domain.value2label(blurred) if space == 'labels' else blurred
                     else:
                         query_[var] = ContinuousSet(val, val)
                 elif isinstance(arg, ContinuousSet):
-- 
2.43.0


From b7a02b9550ba8821d9958f6c66d1717847106662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 052/102] fix: piecewise functions with quadratic or undefined
 pieces cannot be restored from JSON

---
 src/jpt/base/functions.pyx | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index ce3ab69..563c328 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -176,7 +176,7 @@ cdef class Undefined(Function):
             return True
         elif isinstance(other, ConstantFunction) and np.isnan(other.value):
             return True
-        elif isinstance(other, LinearFunction) and any(np.isnan(other.m), np.isnan(other.c)):
+        elif isinstance(other, LinearFunction) and (np.isnan(other.m) or np.isnan(other.c)):
             return True
         return False
 
@@ -195,6 +195,13 @@ cdef class Undefined(Function):
     cpdef Function xshift(self, DTYPE_t delta):
         return Undefined()
 
+    def to_json(self):
+        return {'type': 'undefined'}
+
+    @staticmethod
+    def from_json(data):
+        return Undefined()
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -429,6 +436,10 @@ cdef class ConstantFunction(Function):
     def to_json(self):
         return {'type': 'constant', 'value': self.value}
 
+    @staticmethod
+    def from_json(data):
+        return ConstantFunction(data['value'])
+
     cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2):
         if x2 < x1:
             raise ValueError(
@@ -825,7 +836,7 @@ cdef class QuadraticFunction(Function):
         return self
 
     def to_json(self):
-        return {'a': self.a, 'b': self.b, 'c': self.c}
+        return {'type': 'quadratic', 'a': self.a, 'b': self.b, 'c': self.c}
 
     @staticmethod
     def from_json(data):
@@ -1496,7 +1507,12 @@ cdef class PiecewiseFunction(Function):
     def from_json(cls, data: Dict[str, Any]):
         function = cls()
         function.intervals = [ContinuousSet.from_json(d) for d in data['intervals']]
-        function.functions = [LinearFunction.from_json(d) for d in data['functions']]
+        function.functions = [
+            {
+                'undefined': Undefined,
+                'quadratic': QuadraticFunction
+            }.get(d.get('type'), LinearFunction).from_json(d) for d in data['functions']
+        ]
         return function
 
     def __repr__(self):
-- 
2.43.0


From ca54a2b327fc3121fb9551d50069f62936064438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:02 +0000
Subject: [PATCH 053/102] fix: assignments with interval unions, scalars or
 internal values cannot be stored as JSON

---
 src/jpt/variables.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index f8e6485..9638b19 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -748,6 +748,19 @@ class VariableAssignment(VariableMap):
             copy[var] = var.assignment2set(val)
         return copy
 
+    def to_json(self) -> Dict[str, Any]:
+        """ Convert this assignment to a json serializable dictionary. To achieve that sets are replaced
+        with lists."""
+        result = dict()
+        for variable, value in self.items():
+            if variable.symbolic or variable.integer:
+                if isinstance(value, collections.abc.Iterable) and not isinstance(value, str):
+                    value = list(value)
+
+            result[variable.name] = to_json(value)
+
+        return result
+
     @classmethod
     def from_json(cls,
                   variables: Iterable[Variable],
@@ -760,9 +773,14 @@ class VariableAssignment(VariableMap):
             variable = var_by_name[v_name]
 
             if variable.symbolic or variable.integer:
-                value_ = set(value)
+                value_ = set(value) if isinstance(value, list) else value
             elif variable.numeric:
-                value_ = ContinuousSet.from_json(value)
+                if isinstance(value, numbers.Number):
+                    value_ = value
+                elif 'intervals' in value:
+                    value_ = RealSet.from_json(value)
+                else:
+                    value_ = ContinuousSet.from_json(value)
             else:
                 raise NotImplementedError('Unknown variable type: %s' % variable.__class__.__name__)
 
@@ -801,19 +819,6 @@ class LabelAssignment(VariableAssignment):
     def value_assignment(self) -> 'ValueAssignment':
         return ValueAssignment([(var, var.domain.label2value(val)) for var, val in self.items()])
 
-    def to_json(self) -> Dict[str, Any]:
-        """ Convert this LabelAssignment to a json serializable dictionary. To achieve that sets are replaced
-        with lists."""
-        result = dict()
-        for variable, value in self.items():
-            if variable.symbolic or variable.integer:
-                if isinstance(value, collections.abc.Iterable):
-                    value = list(value)
-
-            result[variable.name] = to_json(value)
-
-        return result
-
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 7fdd59650f9f7889ee0b71b0459342144d1f5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:02 +0000
Subject: [PATCH 054/102] fix: pickled and deeply copied distributions cannot
 be restored

---
 src/jpt/distributions/univariate/distribution.py |  2 +-
 src/jpt/distributions/univariate/numeric.py      | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/univariate/distribution.py b/src/jpt/distributions/univariate/distribution.py
index 5e242f5..6bdebd3 100644
--- a/src/jpt/distributions/univariate/distribution.py
+++ b/src/jpt/distributions/univariate/distribution.py
@@ -177,7 +177,7 @@ class Distribution:
         return self.to_json()
 
     def __setstate__(self, state):
-        self.__dict__ = Distribution.from_json(state).__dict__
+        self.__dict__ = type(self).from_json(state).__dict__
 
     @staticmethod
     def from_json(data) -> Type['Distribution']:
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 3b18a1e..c72b109 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -464,9 +464,10 @@ class Numeric(Distribution):
 
     @staticmethod
     def from_json(data):
-        return Numeric(
-            **data['settings']
-        ).set(
+        dist = Numeric(**data['settings'])
+        if data['quantile'] is None:
+            return dist
+        return dist.set(
             QuantileDistribution.from_json(
                 data['quantile']
             )
@@ -808,9 +809,10 @@ class ScaledNumeric(Numeric):
 
     @classmethod
     def from_json(cls, data):
-        return cls(
-            **data['settings']
-        ).set(
+        dist = cls(**data['settings'])
+        if data['quantile'] is None:
+            return dist
+        return dist.set(
             QuantileDistribution.from_json(data['quantile'])
         )
 
-- 
2.43.0


From aabfd0d399ed1b6f46c4b1a62c01087d2ba6b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:49 +0000
Subject: [PATCH 055/102] fix: restored discriminative trees are not equal to
 the original

---
 src/jpt/trees.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index c81b5ef..65b0214 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -769,9 +769,10 @@ class JPT:
         # the interface isn't modified therefore the jpt should work as before if not
         # specified different
         if dependencies is None:
-            self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap({
-                var: list(self.targets) for var in self.features
-            })
+            self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
+                {var: list(self.targets) for var in self.features},
+                variables=self.variables
+            )
         else:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
                 dependencies.items(),
-- 
2.43.0


From 79b690e062d5238109eda9e351decec3beb6c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:49 +0000
Subject: [PATCH 056/102] fix: pruning with approximation fails for discrete
 variables

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 65b0214..76a39e2 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2675,7 +2675,7 @@ class JPT:
                     [left.distributions[variable], right.distributions[variable]],
                     normalized([left.prior, right.prior])
                 )
-                if variable in approximate:
+                if variable in approximate and variable.numeric:
                     leaf.distributions[variable] = (
                         leaf.distributions[variable]
                         .approximate(approximate[variable])
-- 
2.43.0


From e6ff75c31086a1cf12c9b46bdff3accbf1fd3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:49 +0000
Subject: [PATCH 057/102] fix: density of distributions made from unnormalised
 densities is inconsistent with the CDF

---
 src/jpt/distributions/quantile/quantiles.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 50b3926..1d5d085 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -385,8 +385,8 @@ cdef class QuantileDistribution:
 
     @pdf.setter
     def pdf(self, pdf):
-        self._pdf = pdf
         self._cdf = QuantileDistribution.pdf_to_cdf(pdf)
+        self._pdf = None  # The PDF is derived from the normalized CDF
         self._ppf = None
 
     @property
-- 
2.43.0


From 48368dc8248ff5e9cff3019d07a1c280847d2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:49 +0000
Subject: [PATCH 058/102] fix: approximating numeric distributions drops their
 point masses

---
 src/jpt/distributions/univariate/numeric.py | 23 ++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index c72b109..1899419 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -651,15 +651,24 @@ class Numeric(Distribution):
             error_max: float = None,
             n_segments: int = None
     ) -> 'Numeric':
-        return type(self)(**self.settings).set(
-            QuantileDistribution.from_pdf(
-                self.pdf.approximate(
-                    error_max=error_max,
-                    n_segments=n_segments,
-                    replace_by=ConstantFunction
-                )
+        # The PDF does not represent point masses, so they are kept as they are
+        jumps = self._quantile.jumps()
+        rest = 1 - sum(w for _, w in jumps)
+        if jumps and rest <= 1e-9:
+            return type(self)(**self.settings).set(self._quantile.copy())
+        quantile = QuantileDistribution.from_pdf(
+            self.pdf.approximate(
+                error_max=error_max,
+                n_segments=n_segments,
+                replace_by=ConstantFunction
             )
         )
+        if jumps:
+            quantile = QuantileDistribution.merge(
+                [quantile] + [type(self)().create_dirac_impulse(x)._quantile for x, _ in jumps],
+                [rest] + [w for _, w in jumps]
+            )
+        return type(self)(**self.settings).set(quantile)
 
     @staticmethod
     def jaccard_similarity(
-- 
2.43.0


From 8071c8cce44a590457a2c360c7110d1d14cab6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 059/102] fix: unions that simplify to a single interval cannot
 be chopped

---
 src/jpt/base/intervals.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index e937e50..5e5c332 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -528,7 +528,9 @@ cdef class RealSet(NumberSet):
         return RealSet([R]).difference(self).simplify()
 
     def chop(self, points: Iterable[float]) -> Iterable[ContinuousSet]:
-        for i in self.simplify().intervals:
+        simplified = self.simplify()
+        points = list(points)
+        for i in (simplified.intervals if isinstance(simplified, RealSet) else [simplified]):
             yield from i.chop(points)
 
     cpdef inline RealSet xmirror(self):
-- 
2.43.0


From 4ad1fc5ea0f8d44ad9486234230a3e40c6e1f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 060/102] fix: intervals cannot be combined with unions by
 operators

---
 src/jpt/base/intervals.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 5e5c332..705f1a5 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1242,9 +1242,13 @@ cdef class ContinuousSet(NumberSet):
         return not self == other
 
     def __or__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.union(self)
         return self.union(other)
 
     def __and__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.intersection(self)
         return self.intersection(other)
 
     def __sub__(self, other: NumberSet) -> NumberSet:
-- 
2.43.0


From 323c3cd88d747dc2c2cf73f22d8aed4af90a2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 061/102] fix: interval operations return the shared, mutable
 empty set

---
 src/jpt/base/intervals.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 705f1a5..ef6131d 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -477,7 +477,7 @@ cdef class RealSet(NumberSet):
                 else:
                     tail.extend(diff.intervals)
         if not intervals:
-            return EMPTY
+            return EMPTY.copy()
         head, tail = first(chop(sorted(intervals, key=attrgetter('lower', 'upper'))))
         intervals = [head]
         for subset in tail:
@@ -613,7 +613,7 @@ cdef class ContinuousSet(NumberSet):
         :return: The corresponding ContinuousSet
         """
         if s == _EMPTYSET:
-            return EMPTY
+            return EMPTY.copy()
         interval = ContinuousSet(np.nan, np.nan)
         tokens = re_int.match(s.replace(" ", "").replace('∞', 'inf'))
 
-- 
2.43.0


From 6f83e41575cf895628bf1e92839ff60ffd84ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 062/102] fix: samples of unions are drawn from the wrong
 intervals if some are empty or overlap

---
 src/jpt/base/intervals.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index ef6131d..5112701 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -274,8 +274,11 @@ cdef class RealSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
         cdef ContinuousSet i_
+        # Overlapping intervals must not be counted twice, empty ones not at all
+        cdef NumberSet simplified = self.simplify()
+        cdef list intervals = simplified.intervals if isinstance(simplified, RealSet) else [simplified]
         cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower)
-                                              for i_ in self.intervals if i_.size()], dtype=np.float64)
+                                              for i_ in intervals], dtype=np.float64)
         if sum(weights) == 0:
             weights[...] = 1.
         cdef DTYPE_t[::1] upperbounds = np.cumsum(weights)
@@ -287,7 +290,7 @@ cdef class RealSet(NumberSet):
             resval = np.random.uniform(0, min([np.finfo(np.float64).max, upperbounds[-1]]))
             for j, bound in enumerate(upperbounds):
                 if resval <= bound:
-                    self.intervals[j].sample(result=result[i:i+1])
+                    intervals[j].sample(result=result[i:i+1])
                     break
         return result
 
-- 
2.43.0


From 8b8ebf01e9dc2aef48db73e1250a94f506fdefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 063/102] fix: empty intervals intersect intervals that
 surround them

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 5112701..78aa576 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -930,7 +930,7 @@ cdef class ContinuousSet(NumberSet):
         :returns True if the two intervals intersect, False otherwise
         :rtype: bool
         """
-        if other.isempty():
+        if self.isempty() or other.isempty():
             return False
         if isinstance(other, RealSet):
             return other.intersects(self)
-- 
2.43.0


From 4e7333efc56708620578c38395e449f4d0624a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 064/102] fix: equal number sets have different hashes

---
 src/jpt/base/intervals.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 78aa576..7f04ecd 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -197,10 +197,10 @@ cdef class RealSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        tmp = sorted(self.intervals, key=attrgetter('right'))
-        tmp = sorted(self.intervals, key=attrgetter('upper'))
-        tmp = sorted(self.intervals, key=attrgetter('left'))
-        return hash((RealSet, tuple(sorted(tmp, key=attrgetter('lower')))))
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return hash(simplified)
+        return hash((RealSet, tuple(simplified.intervals)))
 
     def __round__(self, n: int):
         return RealSet(
@@ -1306,9 +1306,9 @@ cdef class ContinuousSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        return hash(
-            (ContinuousSet, self.lower, self.upper, self.left, self.right)
-        )
+        if self.isempty():
+            return hash((ContinuousSet, None))
+        return hash((ContinuousSet, self.min, self.max))
 
     def __getstate__(self):
         return self.lower, self.upper, self.left, self.right
-- 
2.43.0


From 96556d238641553e6b37fa34e579ce71bc479e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:44 +0000
Subject: [PATCH 065/102] fix: closing convex gaps removes the observed point
 of a rightmost Dirac impulse

The uniform distribution that replaces the impulse ended in front of the only
observed value, so the training data had likelihood zero.
---
 src/jpt/trees.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 76a39e2..c588fd9 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2444,11 +2444,15 @@ class JPT:
                             distribution.cdf.intervals[-2].upper,
                             leaf.path[variable].upper,
                         )
+                    if left is None and right is None:  # There is no gap to be bridged
+                        continue
                     if distribution.is_dirac_impulse():
+                        x = distribution.cdf.intervals[1].lower
                         # noinspection PyTypeChecker
                         interval = ContinuousSet(
-                            left.lower if left is not None else distribution.cdf.intervals[0].upper,
-                            right.upper if right is not None else distribution.cdf.intervals[1].lower,
+                            left.lower if left is not None else x,
+                            # The position of the impulse itself is part of the hull
+                            right.upper if right is not None else np.nextafter(x, np.PINF),
                             INC,
                             EXC
                         )
-- 
2.43.0


From 1a3c5c26958fa925f70b9fb9a3d0f08f0f18a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:06 +0000
Subject: [PATCH 066/102] fix: JPT.pdf() is undefined if a leaf has an impulse
 at one value and density zero at another

---
 src/jpt/trees.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index c588fd9..59bf415 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1008,9 +1008,12 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
-                                      if var.numeric else leaf.distributions[var]._pdf(value)
-                                      for var, value in values_scalars.items()) if values_scalars else 1)
+            densities = [
+                leaf.distributions[var].pdf(value) if var.numeric else leaf.distributions[var]._pdf(value)
+                for var, value in values_scalars.items()
+            ]
+            if all(densities):  # The density of impulses is infinite, so 0 must not be multiplied by it
+                pdf += leaf.prior * (prod(densities) if densities else 1)
         return pdf
 
     def infer(
-- 
2.43.0


From 2665a121b395df24e250e15b2c65bef491bcd14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:37 +0000
Subject: [PATCH 067/102] fix: evaluating a piecewise function outside of its
 domain crashes the interpreter

---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 563c328..0799f57 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1040,7 +1040,10 @@ cdef class PiecewiseFunction(Function):
         return plf
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
-        return self.at(x).eval(x)
+        cdef Function f = self.at(x)
+        if f is None:  # x is not in the domain of this function
+            return np.nan
+        return f.eval(x)
 
     def __call__(self, x: float or np.ndarray):
         if isinstance(x, numbers.Real):
-- 
2.43.0


From aa628c20420cf49dced059615abbe52f8ad5ef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:56 +0000
Subject: [PATCH 068/102] fix: functions cannot be subtracted, nor added to or
 multiplied with numbers from the left

---
 src/jpt/base/functions.pyx | 48 ++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 0799f57..35f80c2 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -93,6 +93,8 @@ cdef class Function:
         raise NotImplementedError()
 
     def __add__(self, other):
+        if not isinstance(self, Function):  # Reflected operands
+            return other + self
         if isinstance(other, numbers.Real):
             return self.add(
                 ConstantFunction(other)
@@ -108,6 +110,8 @@ cdef class Function:
             )
 
     def __mul__(self, other: Union[float, Function]) -> 'Function':
+        if not isinstance(self, Function):  # Reflected operands
+            return other * self
         if isinstance(other, numbers.Real):
             return self.mul(
                 ConstantFunction(other)
@@ -121,6 +125,9 @@ cdef class Function:
                     type(other).__name__)
             )
 
+    def __sub__(self, other):
+        return self + other * -1
+
     def __iadd__(self, other):
         return self.set(self + other)
 
@@ -128,10 +135,13 @@ cdef class Function:
         return self.set(self * other)
 
     def __radd__(self, other):
-        return other + self
+        return self + other
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
+
+    def __rsub__(self, other):
+        return self * -1 + other
 
     def __eq__(self, other):
         raise NotImplementedError()
@@ -583,6 +593,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m * f.value, self.c * f.value)
         elif isinstance(f, LinearFunction):
             return QuadraticFunction(self.m * f.m, self.m * f.c + f.m * self.c, self.c * f.c).simplify()
+        elif isinstance(f, (QuadraticFunction, Undefined)):
+            return f.mul(self)
         else:
             raise TypeError('No operator "*" defined for objects of '
                             'types %s and %s' % (type(self).__name__, type(f).__name__))
@@ -594,22 +606,12 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m, self.c + f)
         elif isinstance(f, ConstantFunction):
             return LinearFunction(self.m, self.c + f.value)
+        elif isinstance(f, (QuadraticFunction, Undefined)):
+            return f.add(self)
         else:
             raise TypeError('Operator "+" undefined for types %s '
                             'and %s' % (type(f).__name__, type(self).__name__))
 
-    def __sub__(self, x):
-        return -x + self
-
-    def __radd__(self, x):
-        return self + x
-
-    def __rsub__(self, x):
-        return self - x
-
-    def __rmul__(self, o):
-        return self * o
-
     def __iadd__(self, other):
         return self.set(self + other)
 
@@ -771,9 +773,11 @@ cdef class QuadraticFunction(Function):
     cpdef Function mul(self, Function f):
         if isinstance(f, ConstantFunction):
             return QuadraticFunction(self.a * f.value, self.b * f.value, self.c * f.value).simplify()
+        elif isinstance(f, Undefined):
+            return f.mul(self)
         else:
-            TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
-                                                                             type(f).__name__))
+            raise TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef Function add(self, Function f):
         if isinstance(f, ConstantFunction):
@@ -782,6 +786,11 @@ cdef class QuadraticFunction(Function):
             return QuadraticFunction(self.a, self.b + f.m, self.c + f.c)
         elif isinstance(f, QuadraticFunction):
             return QuadraticFunction(self.a + f.a, self.b + f.b, self.c + f.c)
+        elif isinstance(f, Undefined):
+            return f.add(self)
+        else:
+            raise TypeError('Unsupported operand type(s) for add(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
         return self.a * x * x + self.b * x + self.c
@@ -955,13 +964,6 @@ cdef class PiecewiseFunction(Function):
         else:
             return True
 
-    def __sub__(self, other: Function) -> PiecewiseFunction:
-        return self.add(
-            other.mul(
-                ConstantFunction(-1)
-            )
-        )
-
     def __truediv__(self, other: numbers.Real) -> PiecewiseFunction:
         return self.mul(
             ConstantFunction(1 / float(other))
-- 
2.43.0


From cad2f6bb1e77d80cc0b70667c158a374c10a885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 069/102] fix: piecewise functions with gaps cannot be added or
 multiplied

---
 src/jpt/base/functions.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 35f80c2..50a3e31 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1128,7 +1128,7 @@ cdef class PiecewiseFunction(Function):
             return result
         elif isinstance(f, PiecewiseFunction):
             domain = RealSet(self.intervals).intersections(RealSet(f.intervals))
-            undefined = self.domain().union(f.domain()).difference(domain)
+            undefined = (self.domain() | f.domain()).difference(domain)
             if not isinstance(undefined, RealSet):
                 undefined = RealSet([undefined])
             result = PiecewiseFunction.from_dict({
@@ -1164,9 +1164,7 @@ cdef class PiecewiseFunction(Function):
                 RealSet(f.intervals)
             )
 
-            undefined = self.domain().union(
-                f.domain()
-            ).difference(domain)
+            undefined = (self.domain() | f.domain()).difference(domain)
 
             if not isinstance(undefined, RealSet):
                 undefined = RealSet([undefined])
@@ -1779,7 +1777,7 @@ cdef class PiecewiseFunction(Function):
             if (z, integral) not in support_points:
                 support_points.append((z, integral))
             iteration += 1
-        domain = f.domain().union(g.domain())
+        domain = f.domain() | g.domain()
         if isinstance(domain, ContinuousSet):
             domain = RealSet([domain])
         result = PiecewiseFunction.from_dict({
-- 
2.43.0


From 7c33a3c52a9529e9e58babaccf3d03cf457ad86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 070/102] fix: simplifying a piecewise function changes it

---
 src/jpt/base/functions.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 50a3e31..12307b4 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1538,8 +1538,8 @@ cdef class PiecewiseFunction(Function):
 
         plf = PiecewiseFunction()
         for interval, function in zip(self.intervals, self.functions):
+            interval = interval.copy()
             if include_intervals:
-                interval = interval.copy()
                 interval.lower = round_(interval.lower) if not np.isinf(interval.lower) else interval.lower
                 interval.upper = round_(interval.upper) if not np.isinf(interval.upper) else interval.upper
             plf.intervals.append(interval)
@@ -1570,14 +1570,14 @@ cdef class PiecewiseFunction(Function):
             if i.isempty():
                 continue
             if not plf.functions:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
                 continue
             i_, f_ = plf[-1]
             if i.contiguous(i_) and f == f_:
                 i_.upper = i.upper
                 i_.right = i.right
             else:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
         return plf
 
     @staticmethod
-- 
2.43.0


From c54dcf94cf73cfd8e6a17b7ac00969fe39feab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 071/102] fix: stretching a piecewise function skips quadratic
 pieces

---
 src/jpt/base/functions.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 12307b4..05345ab 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1282,6 +1282,10 @@ cdef class PiecewiseFunction(Function):
             elif isinstance(f, LinearFunction):
                 f.c *= alpha
                 f.m *= alpha
+            elif isinstance(f, QuadraticFunction):
+                f.a *= alpha
+                f.b *= alpha
+                f.c *= alpha
         return plf
 
     cpdef str pfmt(self):
-- 
2.43.0


From 9beabe87a64f2e76b3068de1593f8fd139b34f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 072/102] fix: splitting a piecewise function at a breakpoint
 leaves an empty piece

---
 src/jpt/base/functions.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 05345ab..2e77cc4 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1265,6 +1265,9 @@ cdef class PiecewiseFunction(Function):
                     f2.intervals[0].left = 1
                 f1.intervals[-1].upper = splitpoint
                 f1.intervals[-1].right = 2
+                if f1.intervals[-1].isempty():  # A segment starts at the split point
+                    del f1.intervals[-1]
+                    del f1.functions[-1]
                 break
         else:
             raise ValueError('This function is not defined at point %s' % splitpoint)
-- 
2.43.0


From c72d1cdd29229a08a7dbb52149c53d1eb920cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 073/102] fix: integrals, maxima and rectification of linear
 functions of slope zero are wrong

---
 src/jpt/base/functions.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 2e77cc4..c22d2bd 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -715,16 +715,16 @@ cdef class LinearFunction(Function):
             raise ValueError('The x2 argument must be greater than x1.')
         elif x2 == x1:
             return 0
+        elif self.m == 0:
+            return ConstantFunction(self.c).integrate(x1, x2)
         elif np.isinf(x1) and np.isinf(x2):
-            if self.m != 0:
-                return np.nan
-            return np.PINF if self.c > 0 else np.NINF
+            return np.nan
         elif np.isinf(x1):
-            if self.m <= 0:
+            if self.m < 0:
                 return np.PINF
             return np.NINF
         elif np.isinf(x2):
-            if self.m >= 0:
+            if self.m > 0:
                 return np.PINF
             return np.NINF
         return (.5 * self.m * x2 ** 2 + self.c * x2) - (.5 * self.m * x1 ** 2 + self.c * x1)
@@ -1808,8 +1808,10 @@ cdef class PiecewiseFunction(Function):
         '''
         result = PiecewiseFunction()
         for i, f in self.iter():
-            if isinstance(f, LinearFunction):
-                if f.m != 0 and np.isinf([i.lower, i.upper]).any():
+            if isinstance(f, LinearFunction) and f.m == 0:
+                f_ = ConstantFunction(f.c)
+            elif isinstance(f, LinearFunction):
+                if np.isinf([i.lower, i.upper]).any():
                     raise ValueError(
                         'Expected finite interval, got %s on function %s' % (i, f)
                     )
@@ -1838,7 +1840,7 @@ cdef class PiecewiseFunction(Function):
                 [i.max for i in self.intervals]
         ):
             idx = self.idx_at(b)
-            f = self.functions[idx]
+            f = self.functions[idx].simplify()
             i = self.intervals[idx]
             f_ = f(b)
             if np.isnan(f_) or not np.isnan(f_max) and f_max > f_:
-- 
2.43.0


From 373eba1a9d0e74b33186484868e36c08a94acdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 074/102] fix: minimum and maximum of piecewise functions are
 wrong at breakpoints and in unbounded pieces

---
 src/jpt/base/functions.pyx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index c22d2bd..2804ee3 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1592,9 +1592,8 @@ cdef class PiecewiseFunction(Function):
         # The combination of two functions is only defined on their intersecting domains
         domain = (f1.domain() & f2.domain()).simplify()
         intervals = [
-            (i.min, i.max + eps) for i in f1.intervals
-        ] + [
-            (i.min, i.max + eps) for i in f2.intervals
+            (i.min, i.upper if i.right == EXC else np.nextafter(i.upper, np.PINF))
+            for i in f1.intervals + f2.intervals
         ]
         intervals = domain.chop({i for i in chain(*intervals) if np.isfinite(i)})
         queue = deque(intervals)
@@ -1602,7 +1601,14 @@ cdef class PiecewiseFunction(Function):
         plf = PiecewiseFunction()
         while queue:
             i = queue.popleft()
-            i_center = (i.min + i.max) * .5
+            if i.isninf() and i.ispinf():
+                i_center = 0
+            elif i.isninf():
+                i_center = i.max - 1
+            elif i.ispinf():
+                i_center = i.min + 1
+            else:
+                i_center = (i.min + i.max) * .5
             l1 = f1.at(i_center)
             l2 = f2.at(i_center)
             if (not isinstance(l1, (LinearFunction, ConstantFunction)) or
-- 
2.43.0


From bffc59b9769a76d0342ef0e8844b14e4dd53aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:44 +0000
Subject: [PATCH 075/102] fix: equal piecewise functions have different hashes

---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 2804ee3..244f5f4 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -764,6 +764,9 @@ cdef class QuadraticFunction(Function):
     def __eq__(self, other):
         return isinstance(other, QuadraticFunction) and (self.a, self.b, self.c) == (other.a, other.b, other.c)
 
+    def __hash__(self):
+        return hash((QuadraticFunction, self.a, self.b, self.c))
+
     cpdef Function set(self, Function f):
         self.a = f.a
         self.b = f.b
@@ -940,7 +943,7 @@ cdef class PiecewiseFunction(Function):
         self.intervals: List[ContinuousSet] = []
 
     def __hash__(self):
-        return hash((PiecewiseFunction, ((i, f) for i, f in self.iter())))
+        return hash((PiecewiseFunction, tuple(self.iter())))
 
     def append(self, interval: ContinuousSet, f: Function) -> None:
         self.intervals.append(interval)
-- 
2.43.0


From f29613a850e793e4a554ea81fdd7dbc26e20c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:05 +0000
Subject: [PATCH 076/102] fix: deleting items destroys the order of a heap

---
 src/jpt/base/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..c316520 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -507,6 +507,7 @@ class Heap:
 
     def __delitem__(self, item: int):
         del self._data[item]
+        heapq.heapify(self._data)
 
     def __bool__(self):
         return bool(self._data)
-- 
2.43.0


From d9f621aa0bc1a5a701f844c0c4af94dfa1e388d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:05 +0000
Subject: [PATCH 077/102] fix: a variable map cannot be subtracted from itself

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 9638b19..f606767 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -651,7 +651,7 @@ class VariableMap:
 
     def __isub__(self, other):
         if isinstance(other, VariableMap):
-            for v in other:
+            for v in list(other):
                 if v in self:
                     del self[v]
         else:
-- 
2.43.0


From 6abbaae2353f306b7dcc3d154c59e5cef301983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:05 +0000
Subject: [PATCH 078/102] fix: assignments by the name of a variable are not
 checked

---
 src/jpt/variables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index f606767..9491ea8 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -804,6 +804,8 @@ class LabelAssignment(VariableAssignment):
                                  NumberSet,
                                  numbers.Number,
                                  str]) -> None:
+        if type(variable) is str:
+            variable = self._variables.get(variable, variable)
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
         elif isinstance(variable, SymbolicVariable):
@@ -830,6 +832,8 @@ class ValueAssignment(VariableAssignment):
     '''
 
     def __setitem__(self, variable: Variable, value: Union[Set[int], NumberSet, numbers.Number]) -> None:
+        if type(variable) is str:
+            variable = self._variables.get(variable, variable)
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
         elif isinstance(variable, SymbolicVariable) and type(value) not in (numbers.Integral, set):
-- 
2.43.0


From 9df1c182250eb7ecbee33d8c5099128794736b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:39 +0000
Subject: [PATCH 079/102] fix: comparing intervals with other objects fails

---
 src/jpt/base/intervals.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 7f04ecd..9cbe18b 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -180,6 +180,8 @@ cdef class RealSet(NumberSet):
         return (' %s ' % _CUP).join([str(i) for i in self.intervals])
 
     def __eq__(self, other):
+        if not isinstance(other, NumberSet):
+            return False
         if self.isempty() and other.isempty():
             return True
         self_ = self.simplify()
@@ -1218,6 +1220,8 @@ cdef class ContinuousSet(NumberSet):
     def __eq__(self, other):
         if isinstance(other, RealSet):
             return other == self
+        if not isinstance(other, ContinuousSet):
+            return False
         return all((
             self.min == other.min,
             self.max == other.max
-- 
2.43.0


From e8462e2a12c86a9609a39de0cc649f46919380df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:55 +0000
Subject: [PATCH 080/102] fix: inferred variables do not match the domains
 provided by the user

---
 src/jpt/variables.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 9491ea8..6a0c837 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -506,24 +506,18 @@ def infer_from_dataframe(df,
     '''
     variables = []
     for col, dtype in zip(df.columns, df.dtypes):
-        if dtype in (str, object, bool):
-            if excluded_columns is not None and col in excluded_columns:
-                dom = excluded_columns[col]
-            elif dtype in (bool, np.bool_):
+        if excluded_columns is not None and col in excluded_columns:
+            dom = excluded_columns[col]
+        elif dtype in (str, object, bool):
+            if dtype in (bool, np.bool_):
                 dom = Bool
             else:
                 dom = SymbolicType(
                     '%s%s_TYPE_S' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
                     labels=df[col].unique()
                 )
-            var = SymbolicVariable(col,
-                                   dom,
-                                   min_impurity_improvement=min_impurity_improvement)
-
         elif dtype in (np.float64, np.float32):
-            if excluded_columns is not None and col in excluded_columns:
-                dom = excluded_columns[col]
-            elif scale_numeric_types:
+            if scale_numeric_types:
                 values = df[col]
                 if remove_nan:
                     values = values[~values.isin([np.nan, np.inf])]
@@ -533,24 +527,29 @@ def infer_from_dataframe(df,
                 )
             else:
                 dom = Numeric
+        elif dtype in (np.int32, np.int64):
+            dom = IntegerType(
+                '%s%s_TYPE_I' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
+                lmin=df[col].min(),
+                lmax=df[col].max()
+            )
+        else:
+            raise TypeError('Unknown column type:', col, '[%s]' % dtype)
+
+        # The kind of variable depends on the domain, which may have been provided by the user
+        if issubclass(dom, Numeric):
             var = NumericVariable(col,
                                   dom,
                                   min_impurity_improvement=min_impurity_improvement,
                                   blur=blur,
                                   max_std=max_std,
                                   precision=precision)
-        elif dtype in (np.int32, np.int64):
-            if excluded_columns is not None and col in excluded_columns:
-                dom = excluded_columns[col]
-            else:
-                dom = IntegerType(
-                    '%s%s_TYPE_I' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
-                    lmin=df[col].min(),
-                    lmax=df[col].max()
-                )
+        elif issubclass(dom, Integer):
             var = IntegerVariable(col, dom)
         else:
-            raise TypeError('Unknown column type:', col, '[%s]' % dtype)
+            var = SymbolicVariable(col,
+                                   dom,
+                                   min_impurity_improvement=min_impurity_improvement)
         variables.append(var)
     return variables
 
-- 
2.43.0


From 4b71285e03aca99c2c28f75dec48eff171f3e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:55 +0000
Subject: [PATCH 081/102] fix: required improvement is ignored for inferred
 integer variables

---
 src/jpt/variables.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 6a0c837..bc9d1a6 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -545,7 +545,9 @@ def infer_from_dataframe(df,
                                   max_std=max_std,
                                   precision=precision)
         elif issubclass(dom, Integer):
-            var = IntegerVariable(col, dom)
+            var = IntegerVariable(col,
+                                  dom,
+                                  min_impurity_improvement=min_impurity_improvement)
         else:
             var = SymbolicVariable(col,
                                    dom,
-- 
2.43.0


From 51b81891a315289fa271b529b601749c9490b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:58 +0000
Subject: [PATCH 082/102] fix: negative infinity is not removed from the data
 of inferred domains

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index bc9d1a6..1c78444 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -520,7 +520,7 @@ def infer_from_dataframe(df,
             if scale_numeric_types:
                 values = df[col]
                 if remove_nan:
-                    values = values[~values.isin([np.nan, np.inf])]
+                    values = values[~values.isin([np.nan, np.inf, -np.inf])]
                 dom = NumericType(
                     '%s%s_TYPE_N' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
                     values.unique()
-- 
2.43.0


From 8560631748cb57f1d4342c568ef9373168725201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:53 +0000
Subject: [PATCH 083/102] fix: learning from empty data changes the model

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 59bf415..d54fb74 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1782,15 +1782,15 @@ class JPT:
         # Check and prepare the data
         _data = self._preprocess_data(data=data, rows=rows, columns=columns)
 
+        if not _data.shape[0]:
+            raise ValueError('No data for learning.')
+
         for idx, variable in enumerate(self.variables):
             if variable.numeric:
                 samples = np.unique(_data[:, idx])
                 distances = np.diff(samples)
                 self.minimal_distances[variable] = min(distances) if len(distances) > 0 else 2.
 
-        if not _data.shape[0]:
-            raise ValueError('No data for learning.')
-
         self.indices = np.ones(shape=(_data.shape[0],), dtype=np.int64)
         self.indices[0] = 0
         np.cumsum(self.indices, out=self.indices)
-- 
2.43.0


From 27d5d66f828ff0060c969ebfb7abb55109227f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:44 +0000
Subject: [PATCH 084/102] fix: time steps of long sequences are mixed up

---
 src/jpt/sequential_trees.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..aa8ceb0 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -1,5 +1,4 @@
 import datetime
-from operator import itemgetter
 from typing import List, Dict
 
 import numpy as np
@@ -323,10 +322,8 @@ class SequentialJPT:
         )
 
         # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
+        for timestep, tree in enumerate(altered_jpts):
+            distribution = leaf_distribution["t%s" % timestep]
             prior = dict(
                 zip(
                     sorted(self.template_tree.leaves.keys()),
-- 
2.43.0


From 5df0d1379c0ce57bf056a5a1d3ac4f7c9af3f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:44 +0000
Subject: [PATCH 085/102] fix: evidence is counted twice in sequences

---
 src/jpt/sequential_trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index aa8ceb0..dd7b6e9 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -331,8 +331,10 @@ class SequentialJPT:
                 )
             )
 
-            adjusted_tree = tree.multiply_by_leaf_prior(prior)
-            result.append(adjusted_tree)
+            # The marginals already comprise the priors of the leaves given the evidence
+            for leaf_idx, leaf in tree.leaves.items():
+                leaf.prior = prior[leaf_idx]
+            result.append(tree.normalize())
 
         self.logger.debug('Independent marginals computation finished.')
         return result
-- 
2.43.0


From 37404ff979e72eebcbb5f55bb9693de7b9f16de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:54 +0000
Subject: [PATCH 086/102] fix: refitting a sequential tree keeps the leaves of
 the former one

---
 src/jpt/sequential_trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index dd7b6e9..c3ea9d4 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -83,6 +83,7 @@ class SequentialJPT:
         expanded_template_tree.learn(data=data)
 
         # create template tree from learnt joint tree
+        self.template_tree._reset()
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
         for idx, leaf in expanded_template_tree.leaves.items():
@@ -326,7 +327,7 @@ class SequentialJPT:
             distribution = leaf_distribution["t%s" % timestep]
             prior = dict(
                 zip(
-                    sorted(self.template_tree.leaves.keys()),
+                    self.template_tree.leaves.keys(),
                     distribution
                 )
             )
-- 
2.43.0


From 36a43422dbfbb974b059fb3a79a1ceaf747a021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:16 +0000
Subject: [PATCH 087/102] fix: sequential trees have no most probable
 explanation in the presence of point masses

---
 src/jpt/sequential_trees.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index c3ea9d4..cd07e01 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -97,6 +97,13 @@ class SequentialJPT:
             variables=self.template_tree.variables
         )
 
+        self.template_tree.minimal_distances = VariableMap({
+                v.name: distance for v, distance in expanded_template_tree.minimal_distances.items()
+                if v.name in self.template_tree.varnames
+            },
+            variables=self.template_tree.variables
+        )
+
         transition_data = None
 
         for sequence in sequences:
-- 
2.43.0


From 9da31ad0b50338889d6784c011ca480b95955a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:26 +0000
Subject: [PATCH 088/102] fix: belief propagation in sequences stops before it
 has converged

---
 src/jpt/sequential_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index cd07e01..2c45f3f 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -317,7 +317,7 @@ class SequentialJPT:
 
         # Run (loopy) belief propagation (LBP)
         start = datetime.datetime.now()
-        factor_graph.lbp(max_iters=100, progress=True)
+        factor_graph.lbp(normalize=True, max_iters=max(100, 2 * len(evidence_)), progress=True)
         leaf_distribution = {
             var.name: normalized(dist, zeros=.1)
             for var, dist in factor_graph.rv_marginals()
-- 
2.43.0


From 96f9081822fad4eb5986f4bda68ea15c4c1c3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:08 +0000
Subject: [PATCH 089/102] fix: empty piecewise functions are not read out of
 bounds (from_points, knots, xsamples)

---
 src/jpt/base/functions.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 244f5f4..5711dea 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1040,6 +1040,10 @@ cdef class PiecewiseFunction(Function):
                     LinearFunction.from_points(p1, p2)
                 )
                 plf.intervals.append(i)
+        if not plf.intervals:
+            raise ValueError(
+                'At least two points with different x-coordinates are required.'
+            )
         plf.intervals[-1].right = INC if np.isfinite(plf.intervals[-1].upper) else EXC
         plf.intervals[-1] = plf.intervals[-1].ends(right=EXC)
         return plf
@@ -1373,6 +1377,8 @@ cdef class PiecewiseFunction(Function):
         cdef ContinuousSet interval
         cdef np.int32_t nopen = 2
         cdef DTYPE_t tmp_
+        if not self.intervals:
+            return samples_x
         for interval, f in zip(self.intervals, self.functions):
             if interval.lower != np.NINF and interval.upper != np.PINF:
                 interval.linspace(n, default_step=1, result=samples_x[i:i + n])
@@ -1491,7 +1497,7 @@ cdef class PiecewiseFunction(Function):
                 result.append((i.lower, f.eval(i.lower)))
         if self.intervals and self.intervals[-1].upper != np.PINF:
             result.append((self.intervals[-1].upper, self.functions[-1].eval(self.intervals[-1].upper)))
-        elif not np.isnan(lastx):
+        elif self.intervals and not np.isnan(lastx):
             result.append((lastx, self.functions[-1].eval(lastx)))
         return result
 
-- 
2.43.0


From f3fcf0e7f7c37c3c3666002093d620007afa0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:08 +0000
Subject: [PATCH 090/102] fix: unfitted and empty quantile distributions raise
 an error instead of crashing the interpreter

---
 src/jpt/distributions/quantile/quantiles.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 1d5d085..e8b5aa6 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -125,6 +125,9 @@ cdef class QuantileDistribution:
                 last_int = None
             cdf.append(i.copy(), f_)
 
+        if not len(cdf):
+            raise ValueError('The PDF does not have any segments that can be integrated.')
+
         # Weigh the dirac impulses proportionally
         residual = 1 - cdf.eval(cdf.intervals[-1].any_point())
 
@@ -173,6 +176,9 @@ cdef class QuantileDistribution:
         if rows is None:
             rows = np.arange(data.shape[0], dtype=np.int64)
 
+        if not rows.shape[0]:
+            raise ValueError('Cannot fit a quantile distribution to an empty set of rows.')
+
         # We have to copy the data into C-contiguous array first
         cdef SIZE_t i, n_samples = rows.shape[0] + (0 if isnan(leftmost) else 1) + (0 if isnan(rightmost) else 1)
         cdef DTYPE_t[:, ::1] data_buffer = np.ndarray(
@@ -344,6 +350,8 @@ cdef class QuantileDistribution:
         cdef list result = []
         cdef DTYPE_t x, w
         cdef int i
+        if self._cdf is None:
+            raise RuntimeError('No quantile distribution fitted. Call fit() first.')
         for i in range(1, len(self._cdf.intervals)):
             x = self._cdf.intervals[i].lower
             w = self._cdf.functions[i].eval(x) - self._cdf.functions[i - 1].eval(x)
-- 
2.43.0


From 110fcadf07e490b00a7a373d1760fa376bb22d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:08 +0000
Subject: [PATCH 091/102] fix: undersized result buffers raise an error instead
 of being written out of bounds

---
 src/jpt/base/functions.pyx | 6 ++++++
 src/jpt/base/intervals.pyx | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 5711dea..bac1249 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -57,6 +57,8 @@ cdef class Function:
     cpdef DTYPE_t[::1] multi_eval(self, DTYPE_t[::1] x, DTYPE_t[::1] result = None):
         if result is None:
             result = np.ndarray(shape=x.shape[0], dtype=np.float64)
+        elif result.shape[0] < x.shape[0]:
+            raise ValueError('The result array is too small for %s values.' % x.shape[0])
         cdef int i
         for i in range(x.shape[0]):
             result[i] = self.eval(x[i])
@@ -838,6 +840,8 @@ cdef class QuadraticFunction(Function):
         return False
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y, DTYPE_t[::1] z) except +:
+        if x.shape[0] < 2 or y.shape[0] < 2 or z.shape[0] < 2:
+            raise ValueError('Every point must have two coordinates.')
         cdef DTYPE_t denom = (x[0] - y[0]) * (x[0] - z[0]) * (y[0] - z[0])
         self.a = (z[0] * (y[1] - x[1]) + y[0] *
                           (x[1] - z[1]) + x[0] * (z[1] - y[1])) / denom
@@ -1072,6 +1076,8 @@ cdef class PiecewiseFunction(Function):
         """
         if result is None:
             result = np.ndarray(shape=len(x), dtype=np.float64)
+        elif len(result) < len(x):
+            raise ValueError('The result array is too small for %s values.' % len(x))
         cdef int i
         for i in range(len(x)):
             result[i] = self.eval(x[i])
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 9cbe18b..a09a922 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -806,9 +806,14 @@ cdef class ContinuousSet(NumberSet):
 
         if result is None:
             samples = np.ndarray(shape=num, dtype=np.float64)
+        elif result.shape[0] < num:
+            raise ValueError('The result array is too small for %s samples.' % num)
         else:
             samples = result
 
+        if not samples.shape[0]:
+            return samples
+
         cdef DTYPE_t n
         cdef DTYPE_t space, val
         cdef np.int32_t alternate = 1
-- 
2.43.0


From fd7a4aa28840dcda5f67ad2b8d3d3bc660999ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:08 +0000
Subject: [PATCH 092/102] fix: errors in integrating functions reach the caller
 instead of being swallowed

---
 src/jpt/base/functions.pxd | 6 +++---
 src/jpt/base/functions.pyx | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jpt/base/functions.pxd b/src/jpt/base/functions.pxd
index 178532f..db7e673 100644
--- a/src/jpt/base/functions.pxd
+++ b/src/jpt/base/functions.pxd
@@ -141,7 +141,7 @@ cdef class ConstantFunction(Function):
 
     cpdef Function copy(self)
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2)
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1
 
     cpdef ConstantFunction xshift(self, DTYPE_t delta)
 
@@ -175,7 +175,7 @@ cdef class LinearFunction(Function):
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y) except +
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2)
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1
 
     cpdef LinearFunction xshift(self, DTYPE_t delta)
 
@@ -231,7 +231,7 @@ cdef class PiecewiseFunction(Function):
 
     cpdef Function differentiate(self)
 
-    cpdef DTYPE_t integrate(self, ContinuousSet interval=*)
+    cpdef DTYPE_t integrate(self, ContinuousSet interval=*) except? -1
 
     cpdef ensure_left(self, Function left, DTYPE_t x)
 
diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index bac1249..0e67623 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -452,7 +452,7 @@ cdef class ConstantFunction(Function):
     def from_json(data):
         return ConstantFunction(data['value'])
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2):
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1:
         if x2 < x1:
             raise ValueError(
                 'The x2 argument must be greater than x1. '
@@ -709,7 +709,7 @@ cdef class LinearFunction(Function):
         else:
             raise TypeError('Unknown function type or type not given (%s)' % data.get('type'))
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2):
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1:
         '''
         Compute the integral over this function within the bounds ``x1`` and ``x2``.
         '''
@@ -1322,7 +1322,7 @@ cdef class PiecewiseFunction(Function):
             diff.functions.append(f.differentiate())
         return diff
 
-    cpdef DTYPE_t integrate(self, ContinuousSet interval = None):
+    cpdef DTYPE_t integrate(self, ContinuousSet interval = None) except? -1:
         '''
         Compute the area under this ``PiecewiseFunction`` in the ``interval``.
         '''
-- 
2.43.0


From bcad2e70a86137818662cedd704e01dd540b5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:16 +0000
Subject: [PATCH 093/102] fix: cropping a quantile distribution to an empty
 interval is unsatisfiable instead of crashing

---
 src/jpt/distributions/quantile/quantiles.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index e8b5aa6..b21e50f 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -261,7 +261,8 @@ cdef class QuantileDistribution:
 
         # if given interval is outside quantile boundaries,
         # cropping would result in a non-valid quantile
-        if (interval.uppermost() < self._cdf.intervals[0].upper or
+        if (interval.isempty() or
+                interval.uppermost() < self._cdf.intervals[0].upper or
                 interval.lowermost() > self._cdf.intervals[-1].lower):
             raise Unsatisfiability(
                 'CDF has zero Probability in %s (should be in %s)' % (
-- 
2.43.0


From e68620857fb55348ba12ae1d9fe5f86851d670ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:25 +0000
Subject: [PATCH 094/102] fix: exceptions in functions returning C types are
 propagated (except + covers C++ exceptions only)

---
 src/jpt/base/functions.pxd    | 8 ++++----
 src/jpt/base/functions.pyx    | 8 ++++----
 src/jpt/learning/impurity.pyx | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/jpt/base/functions.pxd b/src/jpt/base/functions.pxd
index db7e673..ad250fd 100644
--- a/src/jpt/base/functions.pxd
+++ b/src/jpt/base/functions.pxd
@@ -135,7 +135,7 @@ cdef class ConstantFunction(Function):
 
     cpdef np.int32_t is_invertible(self)
 
-    cpdef np.int32_t intersects(self, Function f) except +
+    cpdef np.int32_t intersects(self, Function f) except? -1
 
     cpdef ContinuousSet intersection(self, Function f) except +
 
@@ -159,13 +159,13 @@ cdef class LinearFunction(Function):
 
     # Class methods
 
-    cpdef DTYPE_t root(self) except +
+    cpdef DTYPE_t root(self) except? -1
 
     cpdef Function invert(self) except +
 
     cpdef Function hmirror(self)
 
-    cpdef np.int32_t intersects(self, Function f) except +
+    cpdef np.int32_t intersects(self, Function f) except? -1
 
     cpdef ContinuousSet intersection(self, Function f) except +
 
@@ -197,7 +197,7 @@ cdef class QuadraticFunction(Function):
 
     cpdef Function invert(self) except +
 
-    cpdef np.int32_t intersects(self, Function f) except +
+    cpdef np.int32_t intersects(self, Function f) except? -1
 
     cpdef ContinuousSet intersection(self, Function f) except +
 
diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 0e67623..7774cd9 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -417,7 +417,7 @@ cdef class ConstantFunction(Function):
     def c(self):
         return self.value
 
-    cpdef np.int32_t intersects(self, Function f) except +:
+    cpdef np.int32_t intersects(self, Function f) except? -1:
         """
         Determine if the function crosses another function ``f``.
         :param f: the other ``Function``
@@ -518,7 +518,7 @@ cdef class LinearFunction(Function):
         else:
             return ConstantFunction(float(match[0].replace(' ', '')))
 
-    cpdef DTYPE_t root(self) except +:
+    cpdef DTYPE_t root(self) except? -1:
         """
         Find the root of the function, i.e. the ``x`` positions subject to ``self.eval(x) = 0``. 
         :return: root of this function as float
@@ -542,7 +542,7 @@ cdef class LinearFunction(Function):
     cpdef Function copy(self):
         return LinearFunction(self.m, self.c)
 
-    cpdef np.int32_t intersects(self, Function f) except +:
+    cpdef np.int32_t intersects(self, Function f) except? -1:
         """
         Determine if the function crosses another function ``f``.
         :param f: the other ``Function``
@@ -820,7 +820,7 @@ cdef class QuadraticFunction(Function):
     cpdef Function copy(self):
         return QuadraticFunction(self.a, self.b, self.c)
 
-    cpdef np.int32_t intersects(self, Function f) except +:
+    cpdef np.int32_t intersects(self, Function f) except? -1:
         raise NotImplementedError()
 
     cpdef ContinuousSet intersection(self, Function f) except +:
diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 0be3b3a..43cd6a3 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -653,7 +653,7 @@ cdef class Impurity:
                 return True
         return False
 
-    cpdef void setup(Impurity self, DTYPE_t[:, ::1] data, SIZE_t[::1] indices) except +:
+    cpdef void setup(Impurity self, DTYPE_t[:, ::1] data, SIZE_t[::1] indices) except *:
         """
         Set data and indices, update features and index_buffer
         
-- 
2.43.0


From aa30569a8a285736fee6cd31689f1d0ceffa11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 095/102] fix: numeric split values lie between the
 neighbouring samples even if their mean is rounded or overflows

---
 src/jpt/trees.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index d54fb74..f5791bd 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1609,10 +1609,11 @@ class JPT:
                 ]
 
             elif split_var.numeric:  # Numeric domain ------------------------------------------------------------------
-                split_value = (
-                    data[self.indices[start + split_pos], split_var_idx] +
-                    data[self.indices[start + split_pos + 1], split_var_idx]
-                ) / 2
+                lower = data[self.indices[start + split_pos], split_var_idx]
+                upper = data[self.indices[start + split_pos + 1], split_var_idx]
+                split_value = (lower + upper) / 2
+                if not lower < split_value <= upper:  # The mean has been rounded down or is too large
+                    split_value = upper
                 splits = [
                     Interval(np.NINF, split_value, EXC, EXC),
                     Interval(split_value, np.PINF, INC, EXC)
-- 
2.43.0


From 976fedd9fdc861860eb6e28c5580207eac63a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 096/102] fix: closing convex gaps fails if an impulse lies at
 the very end of its leaf

---
 src/jpt/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index f5791bd..52802fa 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2460,6 +2460,8 @@ class JPT:
                             INC,
                             EXC
                         )
+                        if not interval.width:  # Nothing but the position of the impulse itself
+                            continue
                         # noinspection PyTypeChecker
                         distribution.set(
                             QuantileDistribution.from_pdf(
-- 
2.43.0


From 7a386f252f6a0650b84d852122b6ed9d8c113490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 097/102] fix: neighbours of floating point numbers beyond 2^53
 (open ends of intervals of large numbers)

---
 src/jpt/base/constants.py                    |  4 +--
 src/jpt/base/intervals.pyx                   | 30 ++++++++++----------
 src/jpt/distributions/quantile/quantiles.pyx |  7 ++---
 3 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/jpt/base/constants.py b/src/jpt/base/constants.py
index 40fcf5e..8717c26 100644
--- a/src/jpt/base/constants.py
+++ b/src/jpt/base/constants.py
@@ -92,10 +92,10 @@ class Epsilon:
     '''
 
     def __radd__(self, x):
-        return np.nextafter(x, x + 1)
+        return np.nextafter(x, np.PINF) if np.isfinite(x) else x
 
     def __rsub__(self, x):
-        return np.nextafter(x, x - 1)
+        return np.nextafter(x, np.NINF) if np.isfinite(x) else x
 
 
 eps = Epsilon()
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index a09a922..260c828 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -747,8 +747,8 @@ cdef class ContinuousSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
 
-        cdef DTYPE_t upper = self.upper if self.right == _INC else np.nextafter(self.upper, self.upper - 1)
-        cdef DTYPE_t lower = self.lower if self.left == _INC else np.nextafter(self.lower, self.lower + 1)
+        cdef DTYPE_t upper = self.upper if self.right == _INC else self.upper - eps
+        cdef DTYPE_t lower = self.lower if self.left == _INC else self.lower + eps
 
         if result is None:
             result = np.random.uniform(
@@ -860,10 +860,10 @@ cdef class ContinuousSet(NumberSet):
                     val += space
 
         if self.left == EXC and self.lower != np.NINF:
-            samples[0] = np.nextafter(samples[0], samples[0] + 1)
+            samples[0] = samples[0] + eps
 
         if self.right == EXC and self.upper != np.PINF:
-            samples[-1] = np.nextafter(samples[-1], samples[-1] - 1)
+            samples[-1] = samples[-1] - eps
 
         return samples
 
@@ -994,24 +994,24 @@ cdef class ContinuousSet(NumberSet):
                         else (self.right if self.upper < other.upper else other.right))
         if left == _INC and result.left == _EXC:
             result.left = _INC
-            result.lower = np.nextafter(result.lower, result.lower + 1)
+            result.lower = result.lower + eps
         elif left == _EXC and result.left == _INC:
             result.left = _EXC
-            result.lower = np.nextafter(result.lower, result.lower - 1)
+            result.lower = result.lower - eps
         if right == _INC and result.right == _EXC:
             result.right = _INC
-            result.upper = np.nextafter(result.upper, result.upper - 1)
+            result.upper = result.upper - eps
         elif right == _EXC and result.right == _INC:
             result.right = _EXC
-            result.upper = np.nextafter(result.upper, result.upper + 1)
+            result.upper = result.upper + eps
         return result
 
     cpdef inline ContinuousSet boundaries(ContinuousSet self, int left= 0, int right=0):
         cdef ContinuousSet result = self.copy()
-        cdef lower_minus_eps = np.nextafter(result.lower, result.lower - 1.)
-        cdef lower_plus_eps = np.nextafter(result.lower, result.lower + 1.)
-        cdef upper_minus_eps = np.nextafter(result.upper, result.upper - 1.)
-        cdef upper_plus_eps = np.nextafter(result.upper, result.upper + 1.)
+        cdef lower_minus_eps = result.lower - eps
+        cdef lower_plus_eps = result.lower + eps
+        cdef upper_minus_eps = result.upper - eps
+        cdef upper_plus_eps = result.upper + eps
 
         if result.left == _INC and left == _EXC:
             result.lower = lower_minus_eps
@@ -1114,7 +1114,7 @@ cdef class ContinuousSet(NumberSet):
             if self.left == _INC:
                 return self.lower
             else:
-                return np.nextafter(self.lower, self.lower + 1)
+                return self.lower + eps
         else:
             return np.finfo(np.float64).min
 
@@ -1122,13 +1122,13 @@ cdef class ContinuousSet(NumberSet):
         """
         :return: The highest computer-representable value in this ``ContinuousSet``.
         """
-        return self.upper if self.right == _INC else np.nextafter(self.upper, self.upper - 1)
+        return self.upper if self.right == _INC else self.upper - eps
 
     cpdef inline DTYPE_t lowermost(ContinuousSet self):
         """
         :return: The lowest computer-representable value in this ``ContinuousSet``.
         """
-        return self.lower if self.left == _INC else np.nextafter(self.lower, self.lower + 1)
+        return self.lower if self.left == _INC else self.lower + eps
 
     @property
     def min(self):
diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index b21e50f..d03031d 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -232,8 +232,7 @@ cdef class QuantileDistribution:
 
             # overwrite right most interval by an interval with an including right border
             self._cdf.intervals[-1] = ContinuousSet(self._cdf.intervals[-1].lower,
-                                                    np.nextafter(self._cdf.intervals[-1].upper,
-                                                                 self._cdf.intervals[-1].upper + 1), INC, EXC)
+                                                    self._cdf.intervals[-1].upper + eps, INC, EXC)
 
             self._cdf.functions.append(ConstantFunction(1))
             self._cdf.intervals.append(ContinuousSet(self._cdf.intervals[-1].upper, np.PINF, INC, EXC))
@@ -304,7 +303,7 @@ cdef class QuantileDistribution:
             c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
-            upper_ = np.nextafter(i.upper, i.upper - 1)
+            upper_ = i.upper - eps
 
             if isinstance(f, ConstantFunction) or i.size() == 1:
                 cdf.functions.append(ConstantFunction(y + c))
@@ -320,7 +319,7 @@ cdef class QuantileDistribution:
                 cdf.intervals[-1].lower = cdf.intervals[-2].upper
         else:
             if interval.uppermost() in cdf.intervals[-1]:
-                cdf.intervals[-1].upper = np.nextafter(cdf.intervals[-1].upper, cdf.intervals[-1].upper - 1)
+                cdf.intervals[-1].upper = cdf.intervals[-1].upper - eps
 
             # everything right of the rightmost point of the cropped function evaluates to 1
             cdf.functions.append(ConstantFunction(1.))
-- 
2.43.0


From 52ab2865b70b9f8facff362c2975a9636208a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 098/102] fix: level sets of piecewise functions (eq, lt, gt)
 ignore constant pieces, pieces and levels at breakpoints

---
 src/jpt/base/functions.pyx | 72 +++++++++++++-------------------------
 1 file changed, 25 insertions(+), 47 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 7774cd9..617abe3 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1413,7 +1413,7 @@ cdef class PiecewiseFunction(Function):
         prev_f = None
         for i, f in zip(self.intervals, self.functions):
             x = f.intersection(y_)
-            if x and x in i:
+            if x.intersects(i):
                 result_set.intervals.append(i.intersection(x))
             elif prev_f and (prev_f(i.lower) < y < f(i.lower) or prev_f(i.lower) > y > f(i.lower)):
                 result_set.intervals.append(ContinuousSet(i.lower, i.lower))
@@ -1421,58 +1421,36 @@ cdef class PiecewiseFunction(Function):
         return result_set
 
     cpdef RealSet lt(self, DTYPE_t y):
-        result_set = RealSet()
-        y_ = ConstantFunction(y)
-        prev_f = None
-        current = None
-        for i, f in zip(self.intervals, self.functions):
-            x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
-                if f.m > 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m < 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) < y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) >= y and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-            prev_f = f
-        if current is not None:
-            result_set.intervals.append(current)
-        return result_set
+        """
+        The set of all ``x``, for which the value of this function is less than ``y``.
+        """
+        return self._compare(y, -1)
 
     cpdef RealSet gt(self, DTYPE_t y):
+        """
+        The set of all ``x``, for which the value of this function is greater than ``y``.
+        """
+        return self._compare(y, 1)
+
+    def _compare(self, y: float, sign: int) -> RealSet:
         result_set = RealSet()
         y_ = ConstantFunction(y)
-        current = None
         for i, f in zip(self.intervals, self.functions):
             x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
-                if f.m < 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m > 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) > y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 1, 2)
-            elif (not x and f(i.lower) < y or x == R and f(i.lower) == y) and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-        if current is not None:
-            result_set.intervals.append(current)
-        return result_set
+            if x == R:  # The function is equal to y
+                continue
+            if x.isempty():  # The function is constant, but not equal to y
+                if (f(0) - y) * sign > 0:
+                    result_set.intervals.append(i.copy())
+                continue
+            if f.m * sign > 0:
+                x = ContinuousSet(x.lower, np.PINF, EXC, EXC)
+            else:
+                x = ContinuousSet(np.NINF, x.lower, EXC, EXC)
+            if i.intersects(x):
+                result_set.intervals.append(i.intersection(x))
+        result = result_set.simplify()
+        return result if isinstance(result, RealSet) else RealSet([result] if result else [])
 
     @staticmethod
     def merge(f1: PiecewiseFunction, f2: PiecewiseFunction, mergepoint: float) -> PiecewiseFunction:
-- 
2.43.0


From 82dd9e500873325e7aa2051ce19f3aebecf93e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:12 +0000
Subject: [PATCH 099/102] fix: consistency of a node with a union of intervals

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 52802fa..a44d758 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -123,7 +123,7 @@ class Node:
                 if variable.numeric:
 
                     # and a range is given
-                    if isinstance(value, ContinuousSet):
+                    if isinstance(value, (ContinuousSet, RealSet)):
                         # if the ranges don't intersect return false
                         if value.isdisjoint(restriction):
                             return False
-- 
2.43.0


From 7cfc40884c74939e5e6c6dda209f7ab7c0998ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:18 +0000
Subject: [PATCH 100/102] fix: printed assignments show labels in set notation,
 too

---
 src/jpt/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 1c78444..d1614af 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -311,7 +311,7 @@ class NumericVariable(Variable):
         if isinstance(assignment, numbers.Number):
             return prec % (self.name, self.domain.labels[assignment])
         if fmt == 'set':
-            return f'{self.name} {SYMBOL.IN} {str(assignment)}'
+            return f'{self.name} {SYMBOL.IN} {str(self.domain.value2label(assignment))}'
         elif fmt == 'logic':
             s = []
             for i in assignment.intervals:
@@ -365,7 +365,7 @@ class IntegerVariable(Variable):
             if len(assignment) == 1:
                 return self.str(first(assignment), fmt=fmt)
             elif fmt == 'set':
-                valstr = setstr_int(assignment)
+                valstr = setstr_int(self.domain.value2label(assignment))
                 return f'{self.name} {SYMBOL.IN} {{{valstr}}}'
             elif fmt == 'logic':
                 return ' v '.join([self.str(a, fmt=fmt) for a in assignment])
-- 
2.43.0


From afd3b18fb7f2d860c3d35af450a0cb87a677aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:44 +0000
Subject: [PATCH 101/102] fix: learning fails with a RecursionError for deep
 trees, as their textual form is built recursively

---
 src/jpt/trees.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index a44d758..83959eb 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1688,12 +1688,15 @@ class JPT:
         :param indent: the indentation of each new level
         :return: a pretty-format string representation of this JPT from node downward.
         """
-        return "{}{}\n{}".format(
-            " " * indent,
-            str(node),
-            ''.join([self._pfmt(c, indent + 4) for c in node.children])
-            if isinstance(node, DecisionNode) else ''
-        )
+        # The tree may be deeper than the recursion limit
+        lines = []
+        stack = [(node, indent)]
+        while stack:
+            node, indent = stack.pop()
+            lines.append("{}{}\n".format(" " * indent, str(node)))
+            if isinstance(node, DecisionNode):
+                stack.extend((c, indent + 4) for c in reversed(node.children))
+        return ''.join(lines)
 
     def _preprocess_data(self, data=None, rows=None, columns=None) -> np.ndarray:
         """
-- 
2.43.0


From b7052ed6cb79fdecac3587ff4279eedb4421c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:10 +0000
Subject: [PATCH 102/102] fix: densities with several impulses could not be
 integrated

---
 src/jpt/distributions/quantile/quantiles.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index d03031d..e19a6fa 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -100,7 +100,10 @@ cdef class QuantileDistribution:
         cdf = PiecewiseFunction()
         pdf = pdf.rectify()
         head = 0
-        dirac_weights = normalized(dirac_weights) if dirac_weights is not None else []
+        # Impulses share the remaining probability mass equally by default
+        dirac_weights = list(normalized(
+            ifnone(dirac_weights, [1. for f in pdf.functions if np.isinf(f.value)]) or [1.]
+        ))
         dirac_offsets = []
 
         last_int: ContinuousSet = None
@@ -110,7 +113,7 @@ cdef class QuantileDistribution:
             elif np.isinf(f.value):
                 dirac_offsets.append((
                     len(cdf),
-                    dirac_offsets.pop(-1) if dirac_offsets else 1
+                    dirac_weights.pop(0)
                 ))
                 last_int = i
                 continue
-- 
2.43.0

