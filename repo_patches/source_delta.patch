From 2852fa1c952c3165155aa6bbf4c2d0b4f81c9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 01/73] fix: accept the first argument of copula methods as a
 keyword

---
 copulae/utility/annotations/reshape.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 7b7db12..38f5a08 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -32,7 +32,7 @@ class cast_input:
                 args[i] = self.cast(a, arg_name)
 
         for arg_name, a in kwargs.items():
-            if arg_name is self.arguments:
+            if arg_name in self.arguments:
                 kwargs[arg_name] = self.cast(a, arg_name)
 
         return method(*args, **kwargs)
@@ -67,8 +67,11 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     As a side effect, also reorders the DataFrame or Series input if the fitted data was a DataFrame.
     With a fitted DataFrame, the _column will be present to allow for ordering
     """
-    x = args[0]
-    args = list(args)
+    args, kwargs = list(args), dict(kwargs)
+    first_arg = getfullargspec(method).args[1]  # skip self
+    if len(args) == 0 and first_arg not in kwargs:
+        return method(*args, **kwargs)  # raises the usual missing argument error
+    x = args[0] if len(args) > 0 else kwargs.pop(first_arg)
 
     columns = getattr(instance, "_columns", None)
     if isinstance(x, pd.Series):
@@ -92,9 +95,7 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     elif x.shape[1] != instance.dim:
         raise ValueError("Input array must have same dimension as copula")
 
-    args[0] = x
-
-    return method(*args, **kwargs)
+    return method(x, *args[1:], **kwargs)
 
 
 @wrapt.decorator
-- 
2.43.0


From cd3c39c79f51e5c2b8dfb1c0b2d72e7c0c829639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 02/73] fix: keep log1mexp and log1pexp accurate for small and
 large arguments

---
 copulae/special/special_func.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 1754d3a..4c3091d 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -88,7 +88,9 @@ def log1mexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 - np.exp(-x))
+    x = np.asarray(x, float)
+    with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
+        return np.where(x > np.log(2), np.log1p(-np.exp(-x)), np.log(-np.expm1(-x)))[()]
 
 
 def log1pexp(x):
@@ -105,7 +107,7 @@ def log1pexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 + np.exp(x))
+    return np.logaddexp(0, x)
 
 
 def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From 49e3acffae994d8b44dfc3c31747c4ae3bb42df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 03/73] fix: Clayton copula at independence, for negative
 parameters and outside the unit cube

---
 copulae/archimedean/clayton.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 4e6d950..8952c08 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -35,7 +35,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             Dimension of the copula
         """
         super().__init__(dim, theta, 'Clayton')
-        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension == 2'
+        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension > 2'
+        assert not theta < -1, 'Clayton Copula parameter must be >= -1'
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
@@ -46,11 +47,12 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         s = 1 if log or degree % 2 == 0 else -1
         t = self.params
+        log_t = 0 if t == 0 else np.log(abs(t))  # the generator is -log(u) when theta is 0
 
         if degree == 1:
-            a = np.log(t) - (1 + t) * np.log(u)
+            a = log_t - (1 + t) * np.log(u)
         else:
-            a = np.log(t) + np.log1p(t) - (t + 2) * np.log(u)
+            a = log_t + np.log1p(t) - (t + 2) * np.log(u)
 
         return s * (a if log else np.exp(a))
 
@@ -75,7 +77,10 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = np.sign(self._theta) * (u ** -self._theta - 1)
+        if self._theta == 0:
+            v = -np.log(u)
+        else:
+            v = np.sign(self._theta) * (u ** -self._theta - 1)
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -120,7 +125,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return log_pdf
         elif theta == 0:
             log_pdf[ok] = 0
-            return log_pdf
+            return log_pdf if log else np.exp(log_pdf)
 
         lu = np.log(u).sum(1)
         t = self.ipsi(u).sum(1)
@@ -133,12 +138,15 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         else:
             p = np.log1p(theta * np.arange(1, d)).sum()
             log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * np.log1p(t)
+            log_pdf[~ok] = np.nan
 
         return log_pdf if log else np.exp(log_pdf)
 
     @cast_input(['s'])
     @squeeze_output
     def psi(self, s: Array):
+        if self._theta == 0:
+            return np.exp(-s)
         return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
 
     @cast_output
-- 
2.43.0


From 3b3fd9565f5aa8da4f845cc9878fda33a6996774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 04/73] fix: Frank generator and its inverse for small, zero
 and negative arguments, without changing the input

---
 copulae/archimedean/frank.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 83a6a02..cc24a14 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -52,7 +52,9 @@ class FrankCopula(AbstractArchimedeanCopula):
         s = 1 if log or degree % 2 == 0 else -1
 
         ut = u * self.params
-        if degree == 1:
+        if self.params == 0:
+            v = 1 / np.power(u, float(degree))
+        elif degree == 1:
             v = self.params / np.expm1(ut)
         else:
             v = (self.params ** 2 * np.exp(ut)) / np.expm1(ut) ** 2
@@ -76,26 +78,30 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['u'], optional=True)
     @squeeze_output
     def ipsi(self, u, log=False):
-        r = np.asarray(u) * self.params
+        u = np.asarray(u, float)
+        r = np.asarray(u * self.params)
 
-        res = np.copy(r)
-        res[np.isnan(r)] = np.nan
+        if self.params == 0:
+            res = -np.log(u)
+            return np.log(res) if log else res
+
+        res = np.array(r, float)
         em = np.expm1(-self.params)
 
-        #  for small inputs, u <= 0.01
-        small_mask = np.abs(r) <= 0.01 * abs(self.params)
+        #  for small inputs, u <= 0.01, or when exp(-r) exceeds 1
+        small_mask = (np.abs(r) <= 0.01 * abs(self.params)) | (r < 0)
         res[small_mask] = -np.log(np.expm1(-r[small_mask]) / em)
 
-        big_mask = np.abs(r) > 0.01 * abs(self.params)
+        big_mask = ~small_mask
         e = np.exp(-self.params)
         mid_mask = (e > 0) & (np.abs(self.params - r) < 0.5)  # theta * (1 - u) < 0.5
 
         m1 = big_mask & mid_mask
         m2 = big_mask & ~mid_mask
-        r[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
-        r[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
+        res[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
+        res[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
 
-        return np.log(r) if log else r
+        return np.log(res) if log else res
 
     def irho(self, rho: Array):  # pragma: no cover
         # TODO frank: add inverse rho
@@ -164,11 +170,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             return np.exp(-s)
         else:
             const = log1mexp(self.params)
-            m = np.less(s, const, where=~np.isnan(s))
-
-            s[m] = np.nan
-            s[~m] = -log1mexp(s[~m] - log1mexp(self.params)) / self.params
-            return s
+            return np.where(s < const, np.nan, -log1mexp(s - const) / self.params)
 
     @cast_output
     def random(self, n: int, seed: int = None):
-- 
2.43.0


From e948e94d20560842e0b933faf0b716bdc97b304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 05/73] fix: Gumbel Pickands function, derivatives, inverse tau
 and tail dependence; Gaussian tail dependence is a property

---
 copulae/archimedean/gumbel.py  | 14 +++++++-------
 copulae/elliptical/gaussian.py |  1 +
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c38cbfa..24a1912 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -71,8 +71,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         """
         bnd = (w == 0) | (w == 1)
         r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
-        r[bnd] = 1
-        return r
+        return np.where(bnd, 1., r)
 
     @cast_input(['w'])
     @squeeze_output
@@ -103,7 +102,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         expr4 = expr3 - 1
         expr5 = expr2 ** expr4
         expr6 = alpha - 1
-        expr7 = alpha * w ** expr6 - alpha * expr1 ^ expr6
+        expr7 = alpha * w ** expr6 - alpha * expr1 ** expr6
         expr8 = expr3 * expr7
         expr9 = expr6 - 1
         # value = expr4 ** expr5
@@ -113,7 +112,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
                alpha * expr3 * expr5 * expr6 * (w ** expr9 + expr1 ** expr9)
 
         if isinstance(grad, float) and isinstance(hess, float):
-            return grad, hess
+            return np.array([grad, hess])
         else:
             res = np.zeros((len(grad), 2))
             res[:, 0] = grad
@@ -143,7 +142,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def dtau(self, x=None):
         if x is None:
             x = self.params
-        return x ** -2
+        return 1 / np.square(x)
 
     @cast_input(['u'])
     @squeeze_output
@@ -163,11 +162,12 @@ class GumbelCopula(AbstractArchimedeanCopula):
         else:
             if np.any(tau < 0):
                 warnings.warn(warning_message)
-                tau[tau < 0] = 0
+                tau = np.where(tau < 0, 0, tau)
         return 1 / (1 - tau)
 
+    @property
     def lambda_(self):
-        return TailDep(0, 2 * 2 ** (1 / self.params))
+        return TailDep(0, 2 - 2 ** (1 / self.params))
 
     @property
     def params(self):
diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 7ea67f4..f466d28 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -57,6 +57,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def irho(self, rho: Array):
         return np.sin(np.array(rho) * np.pi / 6) * 2
 
+    @property
     def lambda_(self):
         res = (self._rhos == 1).astype(float)
         return TailDep(res, res)
-- 
2.43.0


From 0c9fb952a4d63eea71f7db8712095f31c4ee64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 06/73] fix: Frank density at independence and for negative
 parameters

---
 copulae/archimedean/frank.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index cc24a14..0800927 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -145,6 +145,15 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         u_ = u[ok]
         u_sum = u_.sum(1)
+
+        if theta == 0:
+            res[ok] = 0
+            return res if log else np.exp(res)
+        elif theta < 0:  # dim == 2
+            num = np.expm1(-theta * u_).prod(1)
+            res[ok] = np.log(-theta) + np.log(np.expm1(-theta)) - theta * u_sum - 2 * np.log(num + np.expm1(-theta))
+            return res if log else np.exp(res)
+
         lp = log1mexp(theta)
         lpu = log1mexp(theta * u_)
         lu = lpu.sum(1)
-- 
2.43.0


From 537af525f2d8d17faf2c4eaa181e051c7ad3d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:20 +0000
Subject: [PATCH 07/73] fix: logarithmic series sampler behind Frank samples in
 more than 2 dimensions

---
 copulae/stats/log.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/copulae/stats/log.py b/copulae/stats/log.py
index 4d6864d..65b1607 100644
--- a/copulae/stats/log.py
+++ b/copulae/stats/log.py
@@ -5,20 +5,23 @@ from copulae.types import Numeric
 
 def random_log_series_ln1p(alpha: float, size: Numeric = 1):
     """"""
-    if alpha < -3:
-        # random variate following the logarithmic (series) distribution Log(alpha)
-        p = - alpha / np.log(1 - np.expm1(alpha))
+    if alpha > -3:
+        # random variate following the logarithmic (series) distribution Log(1 - e^alpha), by sequential search
+        e = -np.expm1(alpha)
+        p = -e / alpha
         u = np.random.uniform(size=size)
 
         up = u > p
-        x = 1
+        x = np.ones(size)
+        k = 1
         while np.any(up):
             u[up] -= p
-            x += 1
-            p *= alpha * (x - 1) / x
+            x[up] += 1
+            k += 1
+            p *= e * (k - 1) / k
 
-            up = u > p
-        return u
+            up = up & (u > p)
+        return x
     else:
         # random variate following the logarithmic (series) distribution Log(1 - e^h)
         e = -np.expm1(alpha)
@@ -38,7 +41,7 @@ def random_log_series_ln1p(alpha: float, size: Numeric = 1):
 
         u1[mask6] = 2
         with np.errstate(invalid='ignore'):
-            u1[mask4] = 1 + np.floor(np.log(u1 / log_q))[mask4]
+            u1[mask4] = 1 + np.floor(np.log(u1) / log_q)[mask4]
         u1[mask3] = np.inf
         u1[mask1 | mask5] = 1
 
-- 
2.43.0


From e0416b66a9980dbc97384d715188164cb8df9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:20 +0000
Subject: [PATCH 08/73] fix: Frank rank correlation derivatives and inverse tau

---
 copulae/archimedean/frank.py | 50 +++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 0800927..cece555 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -66,14 +66,22 @@ class FrankCopula(AbstractArchimedeanCopula):
     def drho(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return 12 * (x / np.expm1(x) - 3 * debye1(x) + 2 * debye1(x)) / x ** 2
+        x = np.asarray(x, float)
+        near_0 = np.abs(x) < 0.1
+        y = np.where(near_0, 1, x)
+        res = 12 * (y / np.expm1(y) - 3 * debye2(y) + 2 * debye1(y)) / y ** 2
+        return np.where(near_0, 1 / 6 - x ** 2 / 150 + x ** 4 / 4704, res)
 
     @cast_input(['x'], optional=True)
     @squeeze_output
     def dtau(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return (x / np.expm1(x) + 1 - debye1(x) / x) * (2 / x) ** 2
+        x = np.asarray(x, float)
+        near_0 = np.abs(x) < 0.1
+        y = np.where(near_0, 1, x)
+        res = (y / np.expm1(y) + 1 - 2 * debye1(y)) * (2 / y) ** 2
+        return np.where(near_0, 1 / 9 - x ** 2 / 300 + x ** 4 / 10584, res)
 
     @cast_input(['u'], optional=True)
     @squeeze_output
@@ -110,12 +118,15 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['tau'])
     @squeeze_output
     def itau(self, tau):
-        res = np.array([find_root(lambda x: self._tau(x) - t,
-                                  2.2e-16 if t > 0 else -1e20,
-                                  1e20 if t > 0 else -2.2e-16) for t in tau.ravel()])
-        res = res.reshape(tau.shape)
-        res[tau == 0] = tau[tau == 0]
-        return res
+        def inverse(t):
+            if t == 0 or np.isnan(t):
+                return t
+            upper = 1.
+            while self._tau(upper) < abs(t) and upper < 1e20:
+                upper *= 2
+            return np.sign(t) * find_root(lambda x: self._tau(x) - abs(t), 0., upper)  # tau is an odd function
+
+        return np.array([inverse(t) for t in np.ravel(tau)]).reshape(np.shape(tau))
 
     @property
     def lambda_(self):  # pragma: no cover
@@ -211,22 +222,21 @@ class FrankCopula(AbstractArchimedeanCopula):
 
     @property
     def tau(self):
-        t = self.params
-        if np.isclose(t, 0):
-            return t / 9
         return self._tau(self.params)
 
     @staticmethod
     def _rho(theta):
-        if np.isclose(theta, 0):
-            return theta / 6
+        if abs(theta) < 0.1:
+            return theta / 6 - theta ** 3 / 450 + theta ** 5 / 23520
         return 1 + 12 / theta * (debye2(theta) - debye1(theta))
 
     @staticmethod
     def _tau(theta):
         theta = np.asarray(theta)
         if theta.size == 1:
-            theta = float(theta)
+            theta = theta.item()
+            if abs(theta) < 0.1:
+                return theta / 9 - theta ** 3 / 900 + theta ** 5 / 52920
         return 1 + 4 * (debye1(theta) - 1) / theta
 
 
@@ -248,7 +258,9 @@ def debye1(x):
     --------
     :code:`copulae.special.debye.debye_1`: The debye order 1 function
     """
-    x = np.asarray(x, np.float_).ravel()
+    x = np.asarray(x, np.float_)
+    shape = x.shape
+    x = x.ravel()
     fin = np.isfinite(x)
     d = np.ravel(np.abs(x))
 
@@ -265,7 +277,7 @@ def debye1(x):
 
         d = np.ravel(d)
         d[x < 0] -= x[x < 0] / 2
-        return d.item(0) if d.size == 1 else d
+        return d.item(0) if d.size == 1 else d.reshape(shape)
 
 
 def debye2(x):
@@ -286,7 +298,9 @@ def debye2(x):
     --------
     :code:`copulae.special.debye.debye_2`: The debye order 2 function
     """
-    x = np.asarray(x, np.float_).ravel()
+    x = np.asarray(x, np.float_)
+    shape = x.shape
+    x = x.ravel()
     fin = np.isfinite(x)
     d = np.ravel(np.abs(x))
 
@@ -303,4 +317,4 @@ def debye2(x):
 
         d = np.ravel(d)
         d[x < 0] -= 2 / 3 * x[x < 0]
-        return d.item(0) if d.size == 1 else d
+        return d.item(0) if d.size == 1 else d.reshape(shape)
-- 
2.43.0


From bba6588ea979e5a4f4af546ae0cb3597adf99e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 09/73] fix: log likelihood of a single observation

---
 copulae/copula/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index aa5c40b..63045c9 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -163,7 +163,7 @@ class BaseCopula(ABC, Generic[Param]):
             Log Likelihood
         """
         data = self.pobs(data, ties) if to_pobs else data
-        return self.pdf(data, log=True).sum()
+        return np.sum(self.pdf(data, log=True))
 
     @property
     def name(self):
-- 
2.43.0


From e80f1a08e64762b66ddf2de23937def4c277d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 10/73] fix: fitting leaves the caller's options alone and
 keeps fixed degrees of freedom

---
 copulae/copula/estimator/estimator.py | 2 +-
 copulae/elliptical/student.py         | 8 +++++---
 copulae/utility/dict.py               | 1 +
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index e74545b..38c8aba 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -83,7 +83,7 @@ def fit_copula(copula: Copula, data: Union[pd.DataFrame, np.ndarray],
     --------
     :code:`scipy.optimize.minimize`: the optimization function
     """
-    options = form_options(optim_options or {}, verbose, data, copula)
+    options = form_options(dict(optim_options or {}), verbose, data, copula)
     if not isinstance(data, np.ndarray):
         data = np.asarray(data)
 
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2e3b846..8460ac9 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -108,9 +108,11 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         if fix_df:
-            if optim_options is None:
-                optim_options = {'constraints': []}
-            optim_options['constraints'].append({'type': 'eq', 'fun': lambda x: x[0] - self._df})  # df doesn't change
+            df = self._df  # the optimizer changes self._df as it goes
+            optim_options = dict(optim_options or {})
+            constraints = optim_options.get('constraints', [])
+            constraints = [constraints] if isinstance(constraints, dict) else list(constraints)
+            optim_options['constraints'] = [*constraints, {'type': 'eq', 'fun': lambda x: x[0] - df}]  # df doesn't change
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
diff --git a/copulae/utility/dict.py b/copulae/utility/dict.py
index 5637b38..1b26658 100644
--- a/copulae/utility/dict.py
+++ b/copulae/utility/dict.py
@@ -21,6 +21,7 @@ def merge_dict(a: dict, b: dict) -> dict:
     dict
         Merged dictionary
     """
+    a = {**a}  # never change the caller's dictionary
     for key in b:
         if key in a:
             if isinstance(a[key], dict) and isinstance(b[key], dict):
-- 
2.43.0


From f53e91852da293a941b118f52a30d6cefc1bc9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 11/73] fix: elliptical copulas own a real-valued parameter
 vector of the right length

---
 copulae/elliptical/abstract.py |  2 +-
 copulae/elliptical/gaussian.py |  8 +++++---
 copulae/elliptical/student.py  | 21 +++++++++++----------
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 802308f..d77ab10 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -81,7 +81,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         d = self.dim
 
         if np.isscalar(value):
-            if value < -1 or value > 1:
+            if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
             value = np.asarray(value)
diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index f466d28..a43edb3 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -69,9 +69,11 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
 
     @params.setter
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
-        if isinstance(params, (float, int)):
-            params = np.repeat(params, len(self._rhos))
-        self._rhos = np.asarray(params)
+        n = len(self._rhos)
+        rhos = np.repeat(float(params), n) if np.isscalar(params) else np.array(params, dtype=float)
+        if rhos.shape != (n,):
+            raise ValueError('Incompatible parameters for gaussian copula')
+        self._rhos = rhos
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 8460ac9..c675dee 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -44,6 +44,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             Degrees of freedom of the copula
         """
         super().__init__(dim, 'Student')
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
         n = sum(range(dim))
         self._df = df
@@ -154,19 +156,18 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @params.setter
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
-            self._df = params.df
-            self._rhos = params.rho
+            df, rhos = params.df, np.array(params.rho, dtype=float)
         else:
-            params = np.asarray(params)
-            if len(params) != 1 + sum(range(self.dim)):
-                raise ValueError('Incompatible parameters for student copula')
+            params = np.array(params, dtype=float)
+            df, rhos = params[0], params[1:]
 
-            df = params[0]
-            if df <= 0:
-                raise ValueError('Degrees of freedom must be greater than 0')
+        if rhos.shape != (sum(range(self.dim)),):
+            raise ValueError('Incompatible parameters for student copula')
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
-            self._df = df
-            self._rhos = params[1:]
+        self._df = df
+        self._rhos = rhos
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From 7bd0c2d06f432c6646d58947fb260b36eb1cc0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 12/73] fix: multivariate t samples of one dimension, and
 seeded samples independent of their chi-square

---
 copulae/stats/_multivariate_t.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 228e058..163ead6 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -172,30 +172,34 @@ class multivariate_t:
         d = np.sqrt(np.random.chisquare(df, size) / df)
 
         if isinstance(size, abc.Iterable):
-            d = d.reshape(*size, -1)
+            d = d.reshape(*size, 1)
             size_is_iterable = True
         else:
             if size > 1:
-                d = d.reshape(size, -1)
+                d = d.reshape(size, 1)
             size_is_iterable = False
 
         # size and dim used to reshape generated tensor correctly before dividing by chi-square rvs
         dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
 
         if type_.casefold() == 'kshirsagar':
-            r = mvn.rvs(mean, cov, size, random_state)
+            r = np.asarray(mvn.rvs(mean, cov, size))  # generator was seeded above
             if size_is_iterable:
                 r = r.reshape(*size, dim)
-            r /= d
+            elif size > 1:
+                r = r.reshape(size, dim)
+            r = r / d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size, random_state)
+            r = np.asarray(mvn.rvs(np.zeros(dim), cov, size))  # generator was seeded above
             if size_is_iterable:
                 r = r.reshape(*size, dim)
-            r /= d
+            elif size > 1:
+                r = r.reshape(size, dim)
+            r = r / d
 
             if mean is not None:
-                r += mean  # location shifting
+                r = r + mean  # location shifting
         else:
             raise ValueError(f"Unknown centrality type {type_}. Use one of 'Kshirsagar', 'shifted'")
 
@@ -205,7 +209,7 @@ class multivariate_t:
     def _process_input(x: Numeric, dim: int):
         x = np.asarray(x, dtype=float)
         if x.ndim == 0:
-            return x[np.newaxis]
+            return x[np.newaxis, np.newaxis]
         elif x.ndim == 1:
             return x[:, np.newaxis] if dim == 1 else x[np.newaxis, :]
         return x
-- 
2.43.0


From 846106583afd3eb69e75fcb34db520078737f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 13/73] fix: Gaussian cdf on the faces of the cube; elliptical
 samples always have n rows

---
 copulae/elliptical/gaussian.py | 5 +++--
 copulae/elliptical/student.py  | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index a43edb3..9eb5225 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -50,7 +50,8 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def cdf(self, x: np.ndarray, log=False):
         q = norm.ppf(x)
         sigma = self.sigma
-        return mvn.logcdf(q, cov=sigma) if log else mvn.cdf(q, cov=sigma)
+        cdf = mvn.logcdf(q, cov=sigma) if log else mvn.cdf(q, cov=sigma)
+        return np.where((x == 0).any(axis=1), -np.inf if log else 0., cdf)
 
     @cast_input(['rho'])
     @squeeze_output
@@ -87,7 +88,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvn.rvs(cov=self.sigma, size=n, random_state=seed)
-        return norm.cdf(r)
+        return norm.cdf(r).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index c675dee..200d5ff 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -181,8 +181,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
 
     @cast_output
     def random(self, n: int, seed: int = None):
-        r = mvt.rvs(cov=self.sigma, df=self._df, size=n, random_state=seed)
-        return t.cdf(r, self._df)
+        r = mvt.rvs(cov=self.sigma, df=self._df, size=(n,), random_state=seed)
+        return t.cdf(r, self._df).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From e62c5c63b80b7839d9573378c677e53b32cef2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 14/73] fix: fit summary reports the log likelihood of the
 fitted data, unscaled, and renders without optimizer results

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 copulae/copula/estimator/max_likelihood.py | 2 +-
 copulae/copula/estimator/summary.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 1536e65..5f1b702 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -45,7 +45,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
         raise NotImplementedError(f"Have not developed for '{copula.name} copula'")
 
     method = f"Inversion of {'Spearman Rho' if type_ == 'irho' else 'Kendall Tau'} Correlation"
-    return FitSummary(estimate, method, copula.log_lik(data), len(data))
+    return FitSummary(estimate, method, copula.log_lik(data, to_pobs=False), len(data))
 
 
 def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 9ae5d15..8bab675 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -65,4 +65,4 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         estimate = res['x']
         copula.params = estimate
 
-    return FitSummary(estimate, "Maximum likelihood", -res['fun'], len(data), optim_options, res)
+    return FitSummary(estimate, "Maximum likelihood", -res['fun'] / scale, len(data), optim_options, res)
diff --git a/copulae/copula/estimator/summary.py b/copulae/copula/estimator/summary.py
index e738059..03ed579 100644
--- a/copulae/copula/estimator/summary.py
+++ b/copulae/copula/estimator/summary.py
@@ -45,7 +45,7 @@ class FitSummary(SummaryType):
 
     def _repr_html_(self):
         portions = []
-        for s, r in zip_longest(self.setup.items(), self.results.items()):
+        for s, r in zip_longest((self.setup or {}).items(), (self.results or {}).items()):
             (sk, sv) = (None, None) if s is None else s
             (rk, rv) = (None, None) if r is None else r
             portions.append('<tr>' + ''.join(f"<td>{i}</td>" for i in (sk, sv, rk, rv)) + '</tr>')
-- 
2.43.0


From eb40a55f308d056265172a86918d0aba624f8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 15/73] fix: log density and log distribution function of the
 Gaussian mixture copula

---
 copulae/mixtures/gmc/gmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 541b46d..a4bca85 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -121,9 +121,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logcdf(x, mean, cov) if log else mvn.cdf(x, mean, cov))
+            out += prob * mvn.cdf(x, mean, cov)
 
-        return out
+        return np.log(out) if log else out
 
     @property
     def clusters(self):
@@ -269,9 +269,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logpdf(x, mean, cov) if log else mvn.pdf(x, mean, cov))
+            out += prob * mvn.pdf(x, mean, cov)
 
-        return out
+        return np.log(out) if log else out
 
     @cast_output
     def random(self, n: int, seed: int = None):
-- 
2.43.0


From 2e565f7d7242f512720c86712e4ccdc179ff93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 16/73] fix: refused mixture copula parameters and fits leave
 the copula unchanged

---
 copulae/mixtures/gmc/gmc.py | 55 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index a4bca85..a492d1e 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -188,28 +188,29 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         """
         method = method.lower()
 
+        if method not in ('pem', 'sgd', 'kmeans'):
+            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+
+        # nothing on the copula changes until the fit has succeeded
+        smry = None
         if x0 is None:
-            self._fit_smry = k_means(data, self.clusters, self.dim)
-            self.params = self._fit_smry.best_params
-        elif isinstance(x0, GMCParam):
-            self.params = x0
+            smry = k_means(data, self.clusters, self.dim)
+            params = smry.best_params
         else:
-            self.params = GMCParam.from_vector(x0, self.clusters, self.dim)
+            params = self._validate_params(x0)
 
         if method == 'pem':
             u = pseudo_obs(data, ties)
-            self._fit_smry = expectation_maximization(u, self.params, max_iter, criteria, verbose, eps)
+            smry = expectation_maximization(u, params, max_iter, criteria, verbose, eps)
 
         elif method == 'sgd':
             u = pseudo_obs(data, ties)
-            self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
-        elif method == 'kmeans':
-            if x0 is not None:  # otherwise already fitted by default
-                self._fit_smry = k_means(data, self.clusters, self.dim)
-        else:
-            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+            smry = gradient_descent(u, params, max_iter=max_iter, **(optim_options or {}))
+        elif smry is None:  # k-means, otherwise already fitted by default
+            smry = k_means(data, self.clusters, self.dim)
 
-        self.params = self._fit_smry.best_params
+        self.params = smry.best_params
+        self._fit_smry = smry
         self._fit_details["method"] = method
         return self
 
@@ -227,19 +228,21 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
     @params.setter
     def params(self, params: Optional[Union[GMCParam, np.ndarray, Collection, GMCParamDict]]):
-        if params is None:
-            self._param = None
-        elif isinstance(params, dict):
-            self._param = GMCParam.from_dict(params)
-        elif isinstance(params, GMCParam):
-            if params.n_dim != self.dim or params.n_clusters != self.clusters:
-                raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
-                                            f"but got {params.n_clusters} and {params.n_dim} respectively instead")
-            self._param = params
-        elif np.all(np.isreal(params)):
-            self._param = GMCParam.from_vector(params, self.clusters, self.dim)
-        else:
-            raise GMCParamMismatchError("Unsupported params type for GaussianMixtureCopula")
+        self._param = None if params is None else self._validate_params(params)
+
+    def _validate_params(self, params: Union[GMCParam, np.ndarray, Collection, GMCParamDict]) -> GMCParam:
+        """Forms the GMCParam and checks that it has the number of clusters and dimensions of the copula"""
+        if isinstance(params, dict):
+            params = GMCParam.from_dict(params)
+        elif not isinstance(params, GMCParam):
+            if not np.all(np.isreal(params)):
+                raise GMCParamMismatchError("Unsupported params type for GaussianMixtureCopula")
+            params = GMCParam.from_vector(params, self.clusters, self.dim)
+
+        if params.n_dim != self.dim or params.n_clusters != self.clusters:
+            raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
+                                        f"but got {params.n_clusters} and {params.n_dim} respectively instead")
+        return params
 
     @validate_data_dim({"x": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From c20f73af1374d07a323f140aee55255482914372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 17/73] fix: sampling and summary of a mixture copula without
 parameters

---
 copulae/mixtures/gmc/gmc.py     | 3 +++
 copulae/mixtures/gmc/summary.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index a492d1e..b1441d2 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -294,6 +294,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         np.ndarray
             array of generated observations
         """
+        if self.params is None:
+            raise GMCNotFittedError
+
         if seed is not None:
             np.random.seed(seed)
 
diff --git a/copulae/mixtures/gmc/summary.py b/copulae/mixtures/gmc/summary.py
index 3486e2d..192c4fb 100644
--- a/copulae/mixtures/gmc/summary.py
+++ b/copulae/mixtures/gmc/summary.py
@@ -11,6 +11,9 @@ class Summary(SummaryType):
         self.fit = fit_details
 
     def _repr_html_(self):
+        if self.params is None:
+            return f"<div><h2>{self.name} Summary</h2><div>Parameters: {self.params}</div></div>"
+
         params = [f"<strong>{title}</strong>" + pd.DataFrame(values).to_html(header=False, index=False)
                   for title, values in [("Mixture Probability", self.params.prob),
                                         ("Means", self.params.means)]]
-- 
2.43.0


From 3b485527537802a6c37183b6e0b2076898177254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 18/73] fix: expectation maximization reports the log
 likelihood of the parameters it returns

---
 copulae/mixtures/gmc/estimators/em.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index a422980..6d8e83d 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -153,4 +153,5 @@ class LogLik:
 
     @property
     def best_log_lik(self):
-        return self._gmcm[-1]
+        best = self.best_param
+        return next(ll for ll, param in zip(self._gmcm, self.params) if param is best)
-- 
2.43.0


From 1ef12121f3452daacbbbcef1d14312f8547dd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 19/73] fix: mixture parameters own their values and survive
 conversion to a vector

---
 copulae/mixtures/gmc/parameter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0db3f55..623f4e7 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -38,12 +38,12 @@ class GMCParam:
         Converts GMCParam to a 1-D vector representation. Vector representation enables GMCParam to be
         updated via scipy's optimize module.
         """
-        self.prob[self.prob == 0] += 1e-5
-        self.prob[self.prob == 1] -= 1e-5
-        self.prob /= self.prob.sum()
+        prob = np.array(self.prob, float)
+        prob[prob == 0] += 1e-5
+        prob[prob == 1] -= 1e-5
 
         return np.array([
-            *np.log(self.prob / (1 - self.prob)),
+            *np.log(prob / (1 - prob)),
             *self.means.ravel(),
             *np.ravel([c[np.triu_indices(self.n_dim)] for c in self.covs])
         ])
@@ -64,7 +64,7 @@ class GMCParam:
         """
         m, d = n_clusters, n_dim
         vector = np.array(vector)
-        prob = np.exp(vector[:m]) / (1 + np.exp(vector[:m]))
+        prob = 1 / (1 + np.exp(-vector[:m]))
         prob /= prob.sum()
 
         means = vector[m:(m + m * d)].reshape(m, d)
@@ -85,7 +85,7 @@ class GMCParam:
 
     @prob.setter
     def prob(self, value: Union[C[float], np.ndarray]):
-        value = np.ravel(value)
+        value = np.array(value, float).ravel()
 
         if len(value) != self.n_clusters:
             raise GMCParamError(f"probability vector should have {self.n_clusters} components")
@@ -100,7 +100,7 @@ class GMCParam:
 
     @means.setter
     def means(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.array(value, float)
 
         shape = self.n_clusters, self.n_dim
         if value.shape != shape:
-- 
2.43.0


From a50484e5a357f23a39f30c1bdd9f7baf3e0365d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 20/73] fix: mixture parameters refuse covariances which cannot
 be repaired

---
 copulae/mixtures/gmc/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 623f4e7..d8d4e25 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -120,7 +120,11 @@ class GMCParam:
         if value.shape != shape:
             raise GMCParamError(f"covariance array should have shape {shape}")
 
-        self._covs = np.array([near_psd(cov) for cov in value])  # forces covariance matrix to be psd
+        covs = np.array([near_psd(cov) for cov in value], float)  # forces covariance matrix to be psd
+        if not np.all(np.isfinite(covs)):
+            raise GMCParamError("covariance array has no nearby positive semi-definite covariance matrices")
+
+        self._covs = covs
 
     def __iter__(self) -> Iterable[Tuple[float, Union[float, np.ndarray], np.ndarray]]:
         for i in range(self.n_clusters):
-- 
2.43.0


From c39dd1860cb5ee5b4a4403f93ccac9169099a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 21/73] fix: special functions leave the caller's arrays alone

---
 copulae/special/_specfunc.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cbdceda..1361899 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -82,7 +82,7 @@ cdef:
 def clausen(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -98,7 +98,7 @@ def clausen(x, bint threaded=True):
 def debye_1(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -114,7 +114,7 @@ def debye_1(x, bint threaded=True):
 def debye_2(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -130,7 +130,7 @@ def debye_2(x, bint threaded=True):
 def dilog(x, bint threaded):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -149,8 +149,8 @@ def dilog_complex(r, theta, bint threaded):
 
     cdef:
         ComplexResult c
-        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.ravel()
-        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.flatten()
+        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.flatten()
         int n = r_vec.size
 
     assert r.shape == theta.shape, "Radius of complex vector must have same shape as the angled part"
-- 
2.43.0


From 71b6c54d1483946a89fe6080da76fdd50e7fcff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 22/73] fix: Clausen function beyond one period

---
 copulae/special/_specfunc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index 1361899..5218a38 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -170,7 +170,7 @@ cdef double angle_restrict_pos_err(double theta) nogil:
     cdef:
         double two_pi = 2 * PI
         double y = 2 * cm.floor(theta / two_pi)
-        double r = theta - y * 2 * two_pi
+        double r = theta - y * PI
 
     if cm.fabs(theta) > 0.0625 / DBL_EPSILON:
         return cm.NAN
-- 
2.43.0


From dc324b8047cbb536859db072686462782b69266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 23/73] fix: strict positive definiteness refuses singular
 matrices

---
 copulae/core/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/core/linalg.py b/copulae/core/linalg.py
index 9da4833..3db5734 100644
--- a/copulae/core/linalg.py
+++ b/copulae/core/linalg.py
@@ -85,14 +85,14 @@ def is_psd(M: np.ndarray, strict=False, tol=1e-12) -> bool:
         True if matrix is positive (semi-)definite, else False
     """
     if isinstance(M, (int, float)):
-        return M > -tol if strict else M >= -tol
+        return M > tol if strict else M >= -tol
 
     M = np.asarray(M)
     if not is_symmetric(M, tol):
         return False
 
     if strict:
-        return (la.eigvalsh(M) > -tol).all()
+        return (la.eigvalsh(M) > tol).all()
     else:
         return (la.eigvalsh(M) >= -tol).all()
 
-- 
2.43.0


From 72d6e0ac3f70887ce0f87ec2f89e7718cbc376bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 24/73] fix: empirical margins at level one

---
 copulae/empirical/empirical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9171d17..d62298c 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -256,6 +256,7 @@ class EmpiricalCopula(BaseCopula[None]):
         # because it is pseudo-observations, and already ranked within the columns, we can just
         # multiply by the number of rows in the original data set to get the position rank
         index = np.array(np.floor(u * len(original)), int)
+        index = np.minimum(index, len(original) - 1)  # the level 1 is the largest observation
         data = np.array(original)
         source = np.take_along_axis(data, data.argsort(axis=0), axis=0)
 
-- 
2.43.0


From fd6eba482777026b83f0024432f7567fe4fd32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 25/73] fix: margin descriptions are left as the caller wrote
 them

---
 copulae/marginal/univariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index c4ada04..d44b26f 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -20,7 +20,7 @@ class DistDetail(TypedDict, total=False):
 
 def create_univariate(details: DistDetail) -> rv_frozen:
     dist = get_marginal_class(details)
-    parameters = details.get('parameters', {})
+    parameters = dict(details.get('parameters', {}))
     for p in signature(getattr(dist, "_parse_args")).parameters.values():
         if p.default is Parameter.empty and p.name not in parameters:
             parameters[p.name] = 0.5
-- 
2.43.0


From ec3278fd3ce07c0bd46eb90e68b450a253ef5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 26/73] fix: marginal copulas evaluate integer points

---
 copulae/marginal/marginal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 3f71091..4a0762d 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -159,7 +159,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         return Summary(self.name, self.dim, self._copula, self._marginals)
 
     def _check_x_input(self, x: Array):
-        x = np.asarray(x)
+        x = np.asarray(x, float)
         if x.ndim == 1:
             x = x.reshape(1, -1)
         if x.ndim != 2:
-- 
2.43.0


From 026c348572163447d01d8c58e36091637f03ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 27/73] fix: marginal copulas sample from inner copulas with
 named columns

---
 copulae/marginal/marginal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 4a0762d..480ca91 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -147,7 +147,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-        u = self._copula.random(n, seed)
+        u = np.asarray(self._copula.random(n, seed))
         x = np.empty_like(u)
         for i, m in enumerate(self._marginals):
             x[:, i] = m.ppf(u[:, i])
-- 
2.43.0


From d57f3001a48a1114a3a9bc66a8bac447f8d16c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 28/73] fix: a refused fit leaves a marginal copula unchanged

---
 copulae/marginal/marginal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 480ca91..a584d6c 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -102,8 +102,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     def fit(self, data: Union[pd.DataFrame, np.ndarray], x0: Union[Collection[float], np.ndarray] = None, method='ml',
             verbose=1, optim_options: dict = None, ties='average', to_pobs=True, scale=1.0):
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else self._columns
 
         data = np.asarray(data)
         if data.ndim != 2:
@@ -111,11 +110,12 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         elif self.dim != data.shape[1]:
             raise InputDataError('Dimension of data does not match copula')
 
-        for i, m in enumerate(self._marginals):
-            self._marginals[i] = m.dist(*m.dist.fit(data[:, i]))
+        marginals = [m.dist(*m.dist.fit(data[:, i])) for i, m in enumerate(self._marginals)]
 
         # writing it as such to get past the type-hints flags
         self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
+        self._marginals = marginals
+        self._columns = columns
         self._fit_smry = self._copula._fit_smry
         return self
 
-- 
2.43.0


From 82d6262689efa5be5a6df2f9e70058add9b6038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 29/73] fix: goodness of fit replicates with ties keep the
 dependence of the fitted copula

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index d5b46ac..f66890f 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -135,8 +135,8 @@ class GofParametricBootstrap:
         resulting data (column-by-column) is ordered from lowest to highest
         """
         assert data.ndim == 2 and self.data.duplicated_ranks_array.shape == data.shape
-        data.sort(0)
         for i in range(data.shape[1]):
+            data = data[np.argsort(data[:, i])]  # whole rows, so that the dependence is kept
             data[:, i] = data[self.data.duplicated_ranks_array[:, i], i]
 
         return data
-- 
2.43.0


From fc1591698dbdb7c27af7e8cb09e12f3647a84f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 30/73] fix: goodness of fit replicates drawn in several
 processes differ from one another

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index f66890f..7a9ae77 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -102,7 +102,9 @@ class GofParametricBootstrap:
 
         if self.multiprocess:
             with ProcessPoolExecutor(os.cpu_count()) as P:
-                ts = np.array([f.result() for f in (P.submit(self._process_result) for _ in range(self.reps))])
+                # each process starts with the same random state, thus every replicate needs its own seed
+                seeds = np.random.randint(2 ** 31 - 1, size=self.reps).tolist()
+                ts = np.array([f.result() for f in [P.submit(self._process_result, seed) for seed in seeds]])
         else:
             ts = np.array([self._process_result() for _ in range(self.reps)])
 
@@ -111,8 +113,8 @@ class GofParametricBootstrap:
                        statistic=t,
                        pvalue=(sum(np.abs(ts) >= abs(t)) + 0.5) / (self.reps + 1))
 
-    def _process_result(self):
-        u = self.copula.random(self.data.n_row)
+    def _process_result(self, seed: int = None):
+        u = self.copula.random(self.data.n_row, seed)
 
         if self.data.has_ties:
             u = self._sort_data_by_column_inplace(u)
-- 
2.43.0


From bfb2ecb78333fc4a21a4320ea19ef7cbd685ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 31/73] fix: Gumbel density of labelled tables

---
 copulae/archimedean/gumbel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 24a1912..46b1265 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -188,6 +188,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def pdf(self, u: np.ndarray, log=False):
         assert not np.isnan(self.params), "Copula must have parameters to calculate parameters"
 
+        u = np.asarray(u)
         n, d = u.shape
 
         theta = self.params
-- 
2.43.0


From f2af029d1cfbafd1fc8f9b6e3d61f23e9ed6e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 32/73] fix: empirical density of labelled tables

---
 copulae/empirical/empirical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index d62298c..78e91f1 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -155,6 +155,7 @@ class EmpiricalCopula(BaseCopula[None]):
     def pdf(self, u: Array, log=False):
         assert self.smoothing == "beta", "Empirical Copula only has density (PDF) for 'beta' smoothing"
 
+        u = np.asarray(u)  # one evaluation per row
         data_rank = rank_data(self.data, 1, self.ties)
         n = len(self.data)
 
-- 
2.43.0


From 32ac9be86b4dcb96474ea7b5a703bd1dc71267cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 33/73] fix: sum of logarithms of zeros

---
 copulae/special/special_func.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 4c3091d..40d979a 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -148,6 +148,7 @@ def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] =
 
     if offset is None:
         offset = log_x.max(0)  # maximum from each column
+        offset = np.where(np.isneginf(offset), 0, offset)  # all terms are zero
     elif hasattr(offset, "__iter__"):
         offset = np.asarray(offset)
         assert len(offset) == log_x.shape[1], "Offset must match data dimensions"
-- 
2.43.0


From daa4ae32309e53a365aec6b7d8a5b673929ba66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 34/73] fix: inversion of rank correlations for bivariate
 elliptical copulas

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 5f1b702..9cfc744 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -79,6 +79,6 @@ def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
         raise ValueError("Correlation Inversion must be either 'itau' or 'irho'")
 
     if is_elliptical(copula):
-        theta = near_psd(create_cov_matrix(theta))[indices]
+        theta = near_psd(create_cov_matrix(np.atleast_1d(theta)))[indices]
 
     return theta
-- 
2.43.0


From ba322eb80f494c1695c4681aac82903cf15ec0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 35/73] fix: iterative fits of a mixture copula to a labelled
 table

---
 copulae/mixtures/gmc/gmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index b1441d2..656bb76 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -200,11 +200,11 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
             params = self._validate_params(x0)
 
         if method == 'pem':
-            u = pseudo_obs(data, ties)
+            u = np.asarray(pseudo_obs(data, ties))
             smry = expectation_maximization(u, params, max_iter, criteria, verbose, eps)
 
         elif method == 'sgd':
-            u = pseudo_obs(data, ties)
+            u = np.asarray(pseudo_obs(data, ties))
             smry = gradient_descent(u, params, max_iter=max_iter, **(optim_options or {}))
         elif smry is None:  # k-means, otherwise already fitted by default
             smry = k_means(data, self.clusters, self.dim)
-- 
2.43.0


From f783288c0fb010cb667f6cdee4ef7959754def95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 36/73] fix: tail dependence of the Student copula

---
 copulae/elliptical/student.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 200d5ff..cc38bc9 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -131,7 +131,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         if np.isinf(df):
             res = (self._rhos == 1).astype(float)
         else:
-            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho)), df=df + 1)
+            with np.errstate(divide='ignore'):  # a correlation of -1 has no tail dependence
+                res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho) / (1 + rho)), df=df + 1)
 
         return TailDep(res, res)
 
-- 
2.43.0


From 5e15e1e1be18626a524a73f08598ffb7c3057700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 37/73] fix: inverted rank correlations are repaired to a
 matrix with a density

---
 copulae/copula/estimator/corr_inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 9cfc744..8ba2d67 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -79,6 +79,7 @@ def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
         raise ValueError("Correlation Inversion must be either 'itau' or 'irho'")
 
     if is_elliptical(copula):
-        theta = near_psd(create_cov_matrix(np.atleast_1d(theta)))[indices]
+        # a repaired matrix must be clear of singularity, otherwise the copula has no density
+        theta = near_psd(create_cov_matrix(np.atleast_1d(theta)), threshold=1e-8)[indices]
 
     return theta
-- 
2.43.0


From 84852d8146f2591ef1f3150726aa41b4b1ad764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 38/73] fix: radial symmetry statistic is not subject to the
 rounding of 1 - u

---
 copulae/gof/_radial_symmetry.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index 35fe77f..6305737 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -99,7 +99,8 @@ cdef double diff_cn(const double[:] u, const int n, const int p, const int k) no
 
         for j in range(p):
             ind1 *= (u[i + n * j] <= u[k + n * j])
-            ind2 *= (1.0 - u[i + n * j] <= u[k + n * j])
+            # pseudo-observations lie on a lattice, 1 - u must not exceed its mirror image by a rounding error
+            ind2 *= (1.0 - u[i + n * j] <= u[k + n * j] + 1e-10)
 
         sumind += <double>ind1 - <double>ind2
 
-- 
2.43.0


From 0debd0d610069803adfec967345c843772a25716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 39/73] fix: goodness of fit fits with the requested fitting
 tie rule

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index 7a9ae77..c0a3b9d 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -125,7 +125,7 @@ class GofParametricBootstrap:
 
     def t_stat(self, copula: Copula, data: GofData):
         """Calculates the T statistic"""
-        copula.fit(data.fitted_pobs, **self.fit_options)
+        copula.fit(data.fitted_pobs, ties=data.fit_ties, **self.fit_options)  # fit ranks the data again, by this rule
         return gof_t_stat(copula, data.pobs)
 
     def new_copula(self) -> Copula:
-- 
2.43.0


From 7aa90cbc6c57c432f582272f38abad90ce95a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 40/73] fix: reported margins name their distribution, not its
 class

---
 copulae/marginal/univariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index d44b26f..2323e75 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -58,7 +58,7 @@ def get_marginal_class(details: DistDetail) -> stats.rv_continuous:
 
 def get_marginal_detail(marginal: rv_frozen) -> DistDetail:
     dist = marginal.dist  # distribution class type
-    dist_type = dist.__class__.__name__.replace("_gen", "")
+    dist_type = dist.name  # several distributions share a class
 
     params = signature(getattr(dist, "_parse_args")).parameters
     parameters = {}
-- 
2.43.0


From 856d81c3f91e9629119b2295c13455893180403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:14 +0000
Subject: [PATCH 41/73] Revert "fix: radial symmetry statistic is not subject
 to the rounding of 1 - u"

This reverts commit 84852d8146f2591ef1f3150726aa41b4b1ad764f.
---
 copulae/gof/_radial_symmetry.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index 6305737..35fe77f 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -99,8 +99,7 @@ cdef double diff_cn(const double[:] u, const int n, const int p, const int k) no
 
         for j in range(p):
             ind1 *= (u[i + n * j] <= u[k + n * j])
-            # pseudo-observations lie on a lattice, 1 - u must not exceed its mirror image by a rounding error
-            ind2 *= (1.0 - u[i + n * j] <= u[k + n * j] + 1e-10)
+            ind2 *= (1.0 - u[i + n * j] <= u[k + n * j])
 
         sumind += <double>ind1 - <double>ind2
 
-- 
2.43.0


From c79cae20dffa146ec0ccb514177bcf0464a5c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 42/73] fix: gradient descent of a mixture copula survives
 infeasible proposals

---
 copulae/mixtures/gmc/estimators/sgd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/estimators/sgd.py b/copulae/mixtures/gmc/estimators/sgd.py
index eeb3644..d1fb600 100644
--- a/copulae/mixtures/gmc/estimators/sgd.py
+++ b/copulae/mixtures/gmc/estimators/sgd.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.optimize import OptimizeResult, minimize
 
+from copulae.mixtures.gmc.exception import GMCParamError
 from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
 from copulae.mixtures.gmc.parameter import GMCParam
 from .summary import FitSummary
@@ -36,7 +37,10 @@ def gradient_descent(u: np.ndarray, param: GMCParam, **kwargs):
 
 def create_objective_function(u: np.ndarray, m: int, d: int):
     def f(param: np.ndarray):
-        p = GMCParam.from_vector(param, m, d)
+        try:
+            p = GMCParam.from_vector(param, m, d)
+        except GMCParamError:
+            return np.inf  # the optimizer left the parameter space, such a point is never optimal
         p.prob /= p.prob.sum()
         return -gmcm_log_likelihood(u, p)
 
-- 
2.43.0


From e8700f03cc83a89a9c55982e79f7ad8a2cd6584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 43/73] fix: expectation maximisation with an iteration limit
 of zero returns the start

---
 copulae/mixtures/gmc/estimators/em.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index 6d8e83d..f114766 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -144,6 +144,8 @@ class LogLik:
 
     @property
     def has_converged(self):
+        if len(self._gmcm) < 2:
+            return False  # nothing to compare the start with
         if self.criteria == 'GMCM':
             return abs(self._gmcm[-1] - self._gmcm[-2]) < self.eps
         elif self.criteria == 'GMM':
-- 
2.43.0


From b13f9088e81ef49dd24eeb7f2ec684a78f334fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 44/73] fix: samples of a mixture copula with rounded weights

---
 copulae/mixtures/gmc/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/random.py b/copulae/mixtures/gmc/random.py
index 561d029..44b0437 100644
--- a/copulae/mixtures/gmc/random.py
+++ b/copulae/mixtures/gmc/random.py
@@ -32,7 +32,7 @@ def random_gmm(n: int, param: GMCParam):
     """Generates random variables from a Gaussian Mixture Model"""
 
     output = np.empty((n, param.n_dim))
-    order = choice(range(param.n_clusters), n, p=param.prob)
+    order = choice(range(param.n_clusters), n, p=param.prob / sum(param.prob))  # weights sum to one up to a tolerance only
     for i in range(param.n_clusters):
         k = sum(order == i)
         output[order == i] = mvn.rvs(param.means[i], cov=param.covs[i], size=k)
-- 
2.43.0


From e3366d61c684e4efd79d41d7137521126fd6ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 45/73] fix: cdf of a mixture copula is a probability also far
 out

---
 copulae/mixtures/gmc/gmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 656bb76..3b22e64 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -123,6 +123,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         for prob, mean, cov in self.params:
             out += prob * mvn.cdf(x, mean, cov)
 
+        out = np.clip(out, 0, 1)  # the components are only known up to rounding
         return np.log(out) if log else out
 
     @property
-- 
2.43.0


From bccd7548d358e79fd00184e418d7ea05117fb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 46/73] fix: Eulerian numbers are exact for every argument

---
 copulae/special/special_func.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 40d979a..16008f7 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -1,9 +1,9 @@
+import math
 from typing import Iterable, Optional, Union
 
 import numpy as np
 from scipy.stats import logistic as logis
 
-from copulae.special.combinatorics import comb
 from copulae.special.dilog import dilog, dilog_complex
 
 __all__ = ['eulerian', 'eulerian_all', 'log1mexp', 'log1pexp', 'log_sum', 'poly_log', 'polyn_eval', 'sign_ff',
@@ -40,17 +40,15 @@ def eulerian(n, k):
 
     assert 0 <= k <= n, "`k` must be in the range of [0, `n`]"
 
-    if k == n:
-        return 0
     if k == 0:
         return 1
+    if k == n:
+        return 0
     if k >= (n + 1) // 2:
         k = n - k - 1
-    k1 = k + 1
-    sig = np.ones(k1)
-    sig[1::2] *= -1
 
-    return int(round(sum(sig * comb(n + 1, np.arange(k + 1)) * np.arange(k1, 0, -1, np.float64) ** n)))
+    # exact integers, the terms alternate in sign and outgrow floating point numbers
+    return sum((-1) ** i * math.comb(n + 1, i) * (k + 1 - i) ** n for i in range(k + 1))
 
 
 def eulerian_all(n):
@@ -69,7 +67,7 @@ def eulerian_all(n):
     """
     assert n >= 0 and isinstance(n, int), "`n` must be an integer >= 0"
     if n == 0:
-        return 1
+        return [1]
 
     return [eulerian(n, i) for i in range(n)]
 
-- 
2.43.0


From 2fbf43e1da8a9c15bf24e517072149631e9f70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 47/73] fix: polynomial evaluation keeps the shape and the
 imaginary part of its argument

---
 copulae/special/special_func.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 16008f7..30707c6 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -248,19 +248,12 @@ def polyn_eval(coef, x) -> Union[float, np.ndarray]:
     if isinstance(x, (float, int)):
         x = [x]
 
-    m = len(coef)
-
-    res = np.zeros(len(x), np.float64)
-    for i, xi in enumerate(x):
-        if m == 1:
-            r = coef[0]
-        else:
-            r = coef[-1]
-            for j in coef[:-1][::-1]:
-                r = j + r * xi
-
-        res[i] = r
+    x = np.asarray(x)
+    res = np.zeros(x.shape, np.result_type(x, np.float64))
+    for j in coef[::-1]:
+        res = j + res * x
 
+    res = np.asarray(res, np.result_type(x, np.float64))
     return res.item(0) if res.size == 1 else res
 
 
-- 
2.43.0


From f7a27584e3bd4ba3cf6ec70f6bf6b43f9cba86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 48/73] fix: combinations and permutations of more than 170
 items

---
 copulae/special/combinatorics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/special/combinatorics.py b/copulae/special/combinatorics.py
index 9f8b8d0..54bfffc 100644
--- a/copulae/special/combinatorics.py
+++ b/copulae/special/combinatorics.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import gammaln, gamma
+from scipy.special import binom, gammaln, poch
 
 __all__ = ['comb', 'perm']
 
@@ -29,7 +29,7 @@ def comb(n, r, log=False):
 
     if log:
         return gammaln(n + 1) - gammaln(n + 1 - r) - gammaln(r + 1)
-    return gamma(n + 1) / (gamma(n + 1 - r) * gamma(r + 1))
+    return binom(n, r)
 
 
 def perm(n, r, log=False):
@@ -57,4 +57,4 @@ def perm(n, r, log=False):
 
     if log:
         return gammaln(n + 1) - gammaln(n + 1 - r)
-    return gamma(n + 1) / gamma(n + 1 - r)
+    return poch(n + 1 - r, r)
-- 
2.43.0


From e0df6d4634951e25cf4db8549d62f8d4103c57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 49/73] fix: sign of a single falling factorial

---
 copulae/special/special_func.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 30707c6..ce13533 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -284,27 +284,23 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
     assert np.all(d >= 0), "`d` must be >= 0"
     assert np.all(j >= 0), "all elements in `j` must be >= 0"
 
-    if d.ndim == 0 and j.ndim == 0:
-        d, j = int(d), int(j)
-    elif d.ndim == 0 and j.ndim > 0:
+    if d.ndim == 0 and j.ndim > 0:
         d = np.repeat(d, len(j))
     elif j.ndim == 0 and d.ndim > 0:
         j = np.repeat(j, len(d))
-    else:
+    elif d.ndim > 0:
         if len(d) > len(j):
             j = np.asarray([j[i % len(j)] for i in range(len(d))])
         elif len(j) > len(d):
             d = np.asarray([d[i % len(d)] for i in range(len(j))])
 
     if alpha == 1:
-        res = (j > d) * (-1) ** (d - j) + (j == d)
+        res = (j > d) * (-1.) ** (d - j) + (j == d)
     else:
-        res = np.where(j > d, np.nan, 0)
         x = alpha * j
-        ind = x != np.floor(x)
-        res[ind] = (-1) ** (j[ind] - np.ceil(x[ind]))
+        res = np.where(x != np.floor(x), (-1.) ** (j - np.ceil(x)), np.where(j > d, np.nan, 0))
 
-    return res.item(0) if res.size == 1 else res
+    return res.item(0) if np.size(res) == 1 else res
 
 
 def stirling_first(n: int, k: int):
-- 
2.43.0


From 15cab46010635bf159e715c44fddfd0e276d4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 50/73] fix: Sibuya sums of several arguments, of no summand
 and of alpha one

---
 copulae/archimedean/auxiliary.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/copulae/archimedean/auxiliary.py b/copulae/archimedean/auxiliary.py
index 1c98bc9..32aa3d7 100644
--- a/copulae/archimedean/auxiliary.py
+++ b/copulae/archimedean/auxiliary.py
@@ -53,29 +53,31 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
     len_long = max(len_x, len_n)
     if len_x != len_n:
         if len_x < len_long:
-            x = np.repeat(x, len_long)
+            x = np.resize(x, len_long)
         else:
-            n = np.repeat(n, len_long)
-
-    if alpha == 1:
-        return (x == n).astype(float)
+            n = np.resize(n, len_long)
 
     method = method.lower()
     assert method in ('log', 'direct', 'diff')
 
+    if alpha == 1:
+        s = (x == n).astype(float)
+        return np.log(s) if log else s
+
     s = np.zeros(len_long)
     if method == 'log':
-        signs = sign_ff(alpha, np.arange(np.max(n)) + 1, x)
-
         for i, xx, nn in zip(range(len_long), x, n):
             if xx < nn:
                 s[i] = -np.inf
                 continue
-            js = np.arange(nn)
-            lxabs = comb(nn, js + 1, log=True) + comb(alpha * (js + 1), xx, log=True)
+            if nn == 0:
+                s[i] = 0 if xx == 0 else -np.inf
+                continue
+            js = np.arange(nn) + 1
+            lxabs = comb(nn, js, log=True) + comb(alpha * js, xx, log=True)
 
             offset = np.max(lxabs)
-            sum_ = np.sum(signs[js] * np.exp(lxabs - offset))
+            sum_ = np.sum(sign_ff(alpha, js, xx) * np.exp(lxabs - offset))
             s[i] = np.log(sum_) + offset
 
         return s if log else np.exp(s)
@@ -83,6 +85,9 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
         for i, xx, nn in zip(range(len_long), x, n):
             if xx < nn:
                 continue
+            if nn == 0:
+                s[i] = float(xx == 0)
+                continue
             js = np.arange(nn) + 1
             s[i] = np.sum(comb(nn, js) * comb(alpha * js, xx) * (-1) ** (xx - js))
 
@@ -90,6 +95,8 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
 
     else:  # diff
         for i, xx, nn in zip(range(len_long), x, n):
+            if xx < nn:
+                continue
             dd = comb(np.array([*range(nn, 0, -1), 0]) * alpha, xx)
             s[i] = np.diff(dd, nn) * (-1) ** xx
 
-- 
2.43.0


From b00cb8e03ea5340386920a37d0f453ca67b45061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 51/73] fix: Gumbel coefficients of more than twenty dimensions

---
 copulae/archimedean/gumbel.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 46b1265..c27c5ef 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -298,8 +298,8 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
         "Method must be one of 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff'"
 
     if method == 'sort':
-        ls = np.log(np.abs(stirling_first_all(d)))
-        lS = [np.log(stirling_second_all(i + 1)) for i in range(d)]
+        ls = np.log(np.abs(np.asarray(stirling_first_all(d), float)))
+        lS = [np.log(np.asarray(stirling_second_all(i + 1), float)) for i in range(d)]
 
         a = np.zeros(d)
         for i in range(d):
@@ -313,7 +313,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
         return a
 
     elif method == 'horner':
-        s = np.abs(stirling_first_all(d))
+        s = np.abs(np.asarray(stirling_first_all(d), float))
         ds = np.arange(d)
         S = [stirling_second_all(i + 1) for i in ds]
 
@@ -325,7 +325,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
 
         return (ds + 1) * np.log(alpha) + np.log(pol) if log else pol * alpha ** (ds + 1)
     elif method == 'direct':
-        s = np.asarray(stirling_first_all(d))
+        s = np.asarray(stirling_first_all(d), float)
         ds = np.arange(d)
         S = [stirling_second_all(i + 1) for i in ds]
 
@@ -340,9 +340,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
     else:
         method = 'direct' if method.startswith('ds.') else method
         ds = np.arange(d) + 1
-        ck = np.array([1, *np.cumprod(np.arange(d, 1, -1))])[::-1]
-        if log:
-            ck = np.log(ck)
+        ck = gammaln(d + 1) - gammaln(ds + 1) if log else np.array([1, *np.cumprod(np.arange(d, 1, -1.))])[::-1]
         p = dsum_sibuya(d, ds, alpha, method, log)
 
         return p + ck if log else p * ck
-- 
2.43.0


From c8df01595418ff9d684b3c8e07bd2469e8fd9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 52/73] fix: polylogarithm of high order, of lists and
 matrices, and of complex arguments

---
 copulae/special/special_func.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index ce13533..0ddf1b8 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -2,7 +2,6 @@ import math
 from typing import Iterable, Optional, Union
 
 import numpy as np
-from scipy.stats import logistic as logis
 
 from copulae.special.dilog import dilog, dilog_complex
 
@@ -182,13 +181,12 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     {array_like, scalar}
         Poly logarithms
     """
-    if isinstance(z, (complex, int, float)):
-        z = np.ravel(z)
-
+    z = np.asarray(z)
     method = method.lower()
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
     if s == 2 and method == 'default':
-        return dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        r = dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        return np.log(r) if log else r
 
     elif method == 'default':
         method = 'neg-stirling'
@@ -197,18 +195,19 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
 
     if s == 1:
         r = -np.log1p(-z)
-        return np.log(r) if log else r
+        res = np.log(r) if log else r
+        return res.item(0) if res.size == 1 else res
 
     iz = 1 - z
     n = abs(int(s))
 
     if method == 'neg-stirling':
         r = z / iz
-        f = np.cumprod([1, *range(1, n + 1)])
-        s = stirling_second_all(n + 1)
+        f = np.cumprod([1., *range(1, n + 1)])
+        s = np.asarray(stirling_second_all(n + 1), float)
         p = polyn_eval(f * s, r)
         if log:
-            res = np.log(p) + logis.ppf(z)
+            res = np.log(p) + np.log(z) - np.log1p(-z)
         else:
             res = r * p
 
-- 
2.43.0


From 9fbebb593e590b7a7aca410b49b42a82406256c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 53/73] fix: default Gumbel polynomial of more than seventy
 dimensions

---
 copulae/archimedean/gumbel.py | 54 ++++++++++++-----------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c27c5ef..dc3dbaf 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 from typing import Literal, Optional
 
 import numpy as np
-from scipy.special import gammaln
+from scipy.special import gammaln, logsumexp
 
 from copulae.copula import Summary, TailDep
 from copulae.special.special_func import polyn_eval, sign_ff, stirling_first_all, stirling_second_all
@@ -279,7 +279,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
     alpha: float
         Inverse of the theta parameter (that describes the Gumbel copula)
 
-    method: { 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff' }, optional
+    method: { 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff', 'recursive' }, optional
         String specifying computation method to compute coefficient
 
     log: bool, optional
@@ -294,8 +294,8 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
     assert isinstance(d, int) and d >= 1, "dimension of copula must be an integer and >= 1"
 
     method = method.lower()
-    assert method in ('sort', 'horner', 'direct', 'log', 'ds.direct', 'diff'), \
-        "Method must be one of 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff'"
+    assert method in ('sort', 'horner', 'direct', 'log', 'ds.direct', 'diff', 'recursive'), \
+        "Method must be one of 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff', 'recursive'"
 
     if method == 'sort':
         ls = np.log(np.abs(np.asarray(stirling_first_all(d), float)))
@@ -337,6 +337,14 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
             a[i] = np.log(abs(sum_)) if log else (-1) ** (d - i + 1) * sum_
 
         return a
+    elif method == 'recursive':
+        # a[n + 1, k] = alpha a[n, k - 1] + (n - alpha k) a[n, k], every term of which is positive
+        a = np.log([alpha])
+        for n in range(1, d):
+            k = np.arange(n) + 1
+            with np.errstate(divide='ignore'):
+                a = np.logaddexp(np.r_[-np.inf, np.log(alpha) + a], np.r_[np.log(n - alpha * k) + a, -np.inf])
+        return a if log else np.exp(a)
     else:
         method = 'direct' if method.startswith('ds.') else method
         ds = np.arange(d) + 1
@@ -361,7 +369,7 @@ def gumbel_poly(log_x: np.ndarray, alpha: float, d: int, method='default', log=F
     d: int
         Dimension of the Gumbel copula
 
-    method: { 'default', 'pois', 'direct', 'log' }, optional
+    method: { 'default', 'pois', 'direct', 'log', 'sort', 'recursive' }, optional
         String specifying computation method to compute polynomial. If set to 'default', an algorithm will
         automatically determine best method to use
 
@@ -401,7 +409,8 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
     k = np.arange(d) + 1
 
     method = method.lower()
-    assert method in ('pois', 'direct', 'log', 'sort'), "Method must be one of 'pois', 'direct', 'log', 'sort'"
+    assert method in ('pois', 'direct', 'log', 'sort', 'recursive'), \
+        "Method must be one of 'pois', 'direct', 'log', 'sort', 'recursive'"
 
     if method == 'pois':
         n = len(lx)
@@ -424,8 +433,8 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
         log_a_dk = gumbel_coef(d, alpha, method, True)
 
         log_x = log_a_dk[:, None] + k.reshape(-1, 1) @ lx.reshape(1, -1)
-        x = np.exp(log_x).sum(0)
-        return np.log(x) if log else x
+        res = logsumexp(log_x, 0)
+        return res if log else np.exp(res)
 
 
 def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
@@ -437,31 +446,4 @@ def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
         return 'direct' if alpha <= 0.8 else 'log'
     elif d <= 70:
         return 'direct' if alpha <= 0.7 else 'log'
-    elif d <= 90:
-        if d <= 0.5:
-            return 'direct'
-        elif lx <= 4.08:
-            return 'pois'
-        return 'log'
-    elif d <= 120:
-        if alpha < 0.003:
-            return 'sort'
-        elif alpha <= 0.4:
-            return 'direct'
-        elif lx <= 3.55:
-            return 'pois'
-        elif lx >= 5.92:
-            return 'direct'
-        return 'log'
-    elif d <= 170:
-        if alpha < 0.01:
-            return 'sort'
-        elif alpha <= 0.3:
-            return 'direct'
-        elif lx <= 3.55:
-            return 'pois'
-        return 'log'
-    elif d <= 200:
-        return 'pois' if lx <= 2.56 else 'log'
-    else:
-        return 'log'
+    return 'recursive'
-- 
2.43.0


From 9cef7db21353572870aca6198c1516ed2da0b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 54/73] fix: sign of an empty falling factorial

---
 copulae/special/special_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 0ddf1b8..8a4a5a5 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -297,7 +297,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
         res = (j > d) * (-1.) ** (d - j) + (j == d)
     else:
         x = alpha * j
-        res = np.where(x != np.floor(x), (-1.) ** (j - np.ceil(x)), np.where(j > d, np.nan, 0))
+        res = np.where(x != np.floor(x), (-1.) ** (j - np.ceil(x)), np.where(j > d, np.nan, d == 0))
 
     return res.item(0) if np.size(res) == 1 else res
 
-- 
2.43.0


From 12bdb6dae961e3639686a5806147c3fc8470fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 55/73] fix: Poisson method of the Gumbel polynomial in one
 dimension

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index dc3dbaf..7c7b81c 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -423,7 +423,7 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
 
         lxabs = llx + lppois + np.tile(labs_poch - lfac, (n, 1)).T + np.tile(x, (d, 1))
 
-        signs = sign_ff(alpha, k, d)
+        signs = np.ravel(sign_ff(alpha, k, d))
         offset = np.max(lxabs, 0)
         sum_ = np.sum(signs[:, None] * np.exp(lxabs - offset[None, :]), 0)
         res = np.log(sum_) + offset
-- 
2.43.0


From 62a76bfade6621c20db1b6912f55ad20d9180eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 56/73] fix: indices of an empty triangle can index a matrix

---
 copulae/core/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/core/misc.py b/copulae/core/misc.py
index 09df5ec..ee45709 100644
--- a/copulae/core/misc.py
+++ b/copulae/core/misc.py
@@ -192,7 +192,7 @@ def tri_indices(n: int, m=0, side: Literal['lower', 'upper', 'both'] = 'both') -
                 l_i[0].append(j)
 
         if side == 'lower':
-            return np.array(l_i[0]), np.array(l_i[1])
+            return np.array(l_i[0], int), np.array(l_i[1], int)
 
     u_i = [[], []]  # upper indices
     if side in {'upper', 'both'}:
@@ -201,6 +201,6 @@ def tri_indices(n: int, m=0, side: Literal['lower', 'upper', 'both'] = 'both') -
                 u_i[0].append(i)
                 u_i[1].append(j)
         if side == 'upper':
-            return np.array(u_i[0]), np.array(u_i[1])
+            return np.array(u_i[0], int), np.array(u_i[1], int)
 
-    return np.array([*u_i[0], *l_i[0]]), np.array([*u_i[1], *l_i[1]])
+    return np.array([*u_i[0], *l_i[0]], int), np.array([*u_i[1], *l_i[1]], int)
-- 
2.43.0


From 00a36c6009194bc125fb8f92feed379518e45b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 57/73] fix: find_root returns a bound that is already a root

---
 copulae/special/optimize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copulae/special/optimize.py b/copulae/special/optimize.py
index c02eb11..1375184 100644
--- a/copulae/special/optimize.py
+++ b/copulae/special/optimize.py
@@ -52,6 +52,10 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
     if a > b:
         a, b = b, a
 
+    for bound in (a, b):
+        if f(bound) == 0:
+            return bound
+
     for _ in range(max_iter):
         assert np.isfinite(a) and np.isfinite(b), 'Could not find a root between intervals specified.'
 
-- 
2.43.0


From 8df504c7ee388b0b950973af42bc213ba3b2a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 58/73] fix: stable densities with extreme or negative
 skewness, at the origin and in concentrated integrals

---
 copulae/stats/stable/common.py |  2 +-
 copulae/stats/stable/pdf.py    | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/copulae/stats/stable/common.py b/copulae/stats/stable/common.py
index fcd85d8..43d1a76 100644
--- a/copulae/stats/stable/common.py
+++ b/copulae/stats/stable/common.py
@@ -7,7 +7,7 @@ __all__ = ['LARGE_EXP_POW', 'PI', 'PI2', 'PI2E', 'eplus', 'eminus', 'integrate',
 LARGE_EXP_POW = 708.3964
 PI = np.pi
 PI2 = np.pi / 2
-PI2E = PI2 * (1 - 1e6)
+PI2E = PI2 * (1 - 1e-6)
 
 
 def eplus(x):
diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 0e00920..b96bc11 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -97,19 +97,19 @@ def aux_f1(x, alpha, beta, log=False):
             while np.isclose(g1((ll + PI2) / 2), 0):
                 ll = (ll + PI2) / 2
 
-            if np.isclose(g1((ll + PI2) / 2), 1):
-                while np.isclose(g1((ll + uu) / 2), 1):
+            if g1((ll + PI2) / 2) == 1:
+                while g1((ll + uu) / 2) == 1:
                     uu = (ll + uu) / 2
 
-            if np.isclose(uu + ll, 0, 1e-13):
+            if np.isclose(uu, ll, 0, 1e-13):
                 return -np.inf if log else 0
 
         r1 = find_root(lambda t: g1(t) - 1, ll, uu)
-        gr1 = xexp(r1 + 1)
+        gr1 = g2(r1)
 
         try:
             r2 = find_root(lambda t: np.log(g1(t)), ll, uu)
-            gr2 = xexp(np.exp(r2))
+            gr2 = g2(r2)
         except (AssertionError, RuntimeError):
             r2, gr2 = np.nan, -np.inf
 
@@ -166,7 +166,7 @@ def aux_f2(x, beta, log=False):
         return -np.inf if log else 0
 
     def g1(u):
-        if np.isclose(abs(u + np.size(beta)), 0, atol=1e-10):
+        if np.isclose(u + np.sign(beta), 0, atol=1e-10):
             return 0
         h = p2b + u * PI2
         return h / p2b * np.exp(ea + h * tanpi2(u)) / cospi2(u)
@@ -176,8 +176,18 @@ def aux_f2(x, beta, log=False):
 
     root = find_root(lambda u: g1(u) - 1, -1, 1)
 
-    r1 = integrate(g2, -1, root)
-    r2 = integrate(g2, root, 1)
+    # the integrand may be concentrated in a small neighbourhood of the root
+    eps = 1e-4
+    r1 = r2 = 0
+    lower = upper = root
+    if g2(root) > eps > g2(-1):
+        lower = find_root(lambda u: g2(u) - eps, -1, root)
+        r1 = integrate(g2, lower, root)
+    if g2(root) > eps > g2(1):
+        upper = find_root(lambda u: g2(u) - eps, root, 1)
+        r2 = integrate(g2, root, upper)
+    r1 += integrate(g2, -1, lower)
+    r2 += integrate(g2, upper, 1)
 
     if log:
         return np.log(PI2) + np.log(abs(i2b)) + np.log(r1 + r2)
-- 
2.43.0


From 70708e79ffe3c92f4bf74053e80b1e35500d66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 59/73] fix: stable densities fall back to the tail
 approximation, also on the log scale

---
 copulae/stats/stable/stable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 25b8c5a..dfa4a54 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -101,9 +101,9 @@ class skew_stable:
         if ans.size == 1:
             ans = ans.ravel()
 
-        infs = ans == 0
-        if np.any(ans):
-            d = pdf.pareto(x, alpha, beta, log)[infs]
+        infs = ans == (-np.inf if log else 0)
+        if np.any(infs):
+            d = pdf.pareto(np.reshape(x, ans.shape)[infs], alpha, beta, log)
             ans[infs] = (d - np.log(gamma)) if log else (d / gamma)
 
         if np.any(~infs):
-- 
2.43.0


From df42ab4687597368dc7e86d02daa0fab7d358eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 60/73] fix: mode of the stable law uses its own skewness

---
 copulae/stats/stable/stable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index dfa4a54..e96b6c6 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -192,7 +192,7 @@ class skew_stable:
         if alpha * beta == 0:
             return 0
 
-        beta = max(beta, beta_max)
+        beta = np.sign(beta) * min(abs(beta), beta_max)
         bounds = sorted([0, np.sign(beta) * -0.7])
 
         return float(opt.minimize_scalar(lambda x: -cls.pdf(x, alpha, beta), bounds=bounds)['x'])
-- 
2.43.0


From f845bccf0d75d4096e87d436289355316cf72052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 61/73] fix: samples of the skewed stable law with index one

---
 copulae/stats/stable/stable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index e96b6c6..d03006d 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -155,6 +155,11 @@ class skew_stable:
             theta = np.pi * (np.random.uniform(size=size) - 0.5)
             w = np.random.standard_exponential(size)
 
+            if alpha == 1:
+                h = PI2 + beta * theta
+                z = (h * np.tan(theta) - beta * np.log(PI2 * w * np.cos(theta) / h)) / PI2
+                return z * gamma + delta
+
             bt = beta * tanpi2(alpha)
             t0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
             at = alpha * (theta + t0)
-- 
2.43.0


From 67f883c51e23921de8eacc999a8de38ec9af6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:34 +0000
Subject: [PATCH 62/73] fix: log density of the multivariate t far out and for
 points in any array

---
 copulae/stats/_multivariate_t.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 163ead6..fdffbb4 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 
 import numpy as np
 import numpy.linalg as la
-from scipy.special import beta, gamma
+from scipy.special import gammaln
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.core import is_psd
@@ -76,7 +76,18 @@ class multivariate_t:
         pdf: ndarray or scalar
             Log of probability density function evaluated at `x`
         """
-        return np.log(cls.pdf(x, mean, cov, df))
+        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
+        x = cls._process_input(x, dim)
+
+        if df > cls._T_LIMIT:  # beyond the limit, just assume to be normal
+            return mvn.logpdf(x, mean=mean, cov=cov)
+
+        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
+        x_us = x - mean  # difference between x and mu (mean)
+        q = np.sum((x_us @ la.inv(cov)) * x_us, -1)
+        c = gammaln((df + dim) / 2) - gammaln(df / 2) - (dim * np.log(df * np.pi) + la.slogdet(cov)[1]) / 2
+
+        return c - (df + dim) / 2 * np.log1p(q / df)
 
     @classmethod
     def pdf(cls, x: Numeric, mean: Numeric = None, cov: Numeric = 1, df: float = None):
@@ -101,21 +112,7 @@ class multivariate_t:
         pdf: ndarray or scalar
             Probability density function evaluated at `x`
         """
-        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
-        x = cls._process_input(x, dim)
-
-        if df > cls._T_LIMIT:  # if greater than 500, just assume to be normal
-            return mvn.pdf(x, mean=mean, cov=cov)
-
-        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
-        # break into 3 portions, we use beta function to avoid some amount of numeric overflow
-        a = gamma(dim / 2)
-        b = beta(df / 2, dim / 2) * ((df * np.pi) ** (dim / 2)) * (la.det(cov) ** 0.5)
-
-        x_us = x - mean  # difference between x and mu (mean)
-        c = np.diag(1 + (x_us @ la.inv(cov) @ x_us.T) / df) ** ((dim + df) / 2)
-
-        return a / (b * c)
+        return np.exp(cls.logpdf(x, mean, cov, df))
 
     @classmethod
     def rvs(cls, mean: OptNumeric = None, cov: Numeric = 1, df: float = None, size: Numeric = 1, type_='shifted',
-- 
2.43.0


From e093585013ee5d1e06c9d2f1713306f6e1c504ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:47 +0000
Subject: [PATCH 63/73] fix: density of a totally skewed stable law is zero
 outside its support

---
 copulae/stats/stable/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index b96bc11..d33425e 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -52,6 +52,9 @@ def aux_f1(x, alpha, beta, log=False):
     if np.isfinite(x) and x_m_zeta <= zeta_tol * (zeta_tol + np.abs([x, zeta]).max()):
         return f_zeta
 
+    if alpha < 1 and abs(beta) == 1 and (x - zeta) * beta < 0:  # outside the support
+        return -np.inf if log else 0
+
     if x < zeta:
         theta0 = -theta0
         if alpha < 1e-17:
-- 
2.43.0


From 1ddf6383a2eeb265aca667e6a7ddb0e740ce64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:27 +0000
Subject: [PATCH 64/73] fix: stable density in the immediate neighbourhood of
 its knot

---
 copulae/stats/stable/pdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index d33425e..b3b477a 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -35,10 +35,11 @@ def aux_f1(x, alpha, beta, log=False):
     zeta = -bt
     theta0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
 
+    # around zeta, where the integral is numerically unstable, the density is taken to be constant
     if bt == 0:
-        zeta_tol = 4e-16
+        zeta_tol = 4e-16 if alpha < 0.2 else 1e-6
     elif 1 - abs(beta) < 0.01 or alpha < 0.01:
-        zeta_tol = 2e-15
+        zeta_tol = 2e-15 if alpha < 0.2 else 1e-8
     else:
         zeta_tol = 5e-5
 
-- 
2.43.0


From 51a02354aa5aac9edea7456f8e951b69f161538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:00 +0000
Subject: [PATCH 65/73] fix: Gumbel cdf and pdf under strong dependence, where
 sums of inverse generators over- or underflow

---
 copulae/archimedean/gumbel.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 7c7b81c..400dd80 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -73,6 +73,15 @@ class GumbelCopula(AbstractArchimedeanCopula):
         r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
         return np.where(bnd, 1., r)
 
+    @validate_data_dim({"x": [1, 2]})
+    @shape_first_input_to_cop_dim
+    @squeeze_output
+    def cdf(self, x: Array, log=False) -> np.ndarray:
+        # the sum of the inverse generators may be too large or too small for a floating point number
+        with np.errstate(divide='ignore'):
+            log_cdf = -np.exp(logsumexp(self.ipsi(x, log=True), axis=1) / self.params)
+        return log_cdf if log else np.exp(log_cdf)
+
     @cast_input(['w'])
     @squeeze_output
     def dAdu(self, w):
@@ -147,8 +156,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = (-np.log(u)) ** self.params
-        return np.log(v) if log else v
+        v = -np.log(u)
+        return self.params * np.log(v) if log else v ** self.params
 
     @cast_input(['tau'])
     @squeeze_output
@@ -203,13 +212,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         lnlu = np.log(nlu)  # log negative log u
         lip = self.ipsi(u, log=True)  # log ipsi u
 
-        # get sum of logs
-        if u.ndim == 1:
-            offset = np.max(u)
-            ln = offset + np.log(np.exp(lip - offset).sum(1))
-        else:
-            offset = np.max(u, axis=1)
-            ln = offset + np.log(np.exp(lip - offset[:, None]).sum(1))
+        ln = logsumexp(lip, axis=1)  # get sum of logs
 
         alpha = 1 / self.params
         lx = alpha * ln
-- 
2.43.0


From 48616305d9749118784900812ff3d75b86957721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:00 +0000
Subject: [PATCH 66/73] fix: Clayton cdf and pdf under strong dependence, where
 powers of the coordinates overflow

---
 copulae/archimedean/clayton.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 8952c08..d852089 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -2,6 +2,7 @@ from typing import Literal
 
 import numpy as np
 import numpy.random as rng
+from scipy.special import logsumexp
 
 from copulae.copula import Summary, TailDep
 from copulae.core import EPS
@@ -40,6 +41,15 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
+    @validate_data_dim({"x": [1, 2]})
+    @shape_first_input_to_cop_dim
+    @squeeze_output
+    def cdf(self, x: Array, log=False) -> np.ndarray:
+        if not self._theta > 0:
+            return super().cdf(x, log)
+        log_cdf = -self._log1p_sum_ipsi(x) / self._theta
+        return log_cdf if log else np.exp(log_cdf)
+
     @cast_input(['u'])
     @squeeze_output
     def dipsi(self, u: Array, degree=1, log=False):
@@ -137,7 +147,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             log_pdf[ok & ~pos_t] = -np.inf
         else:
             p = np.log1p(theta * np.arange(1, d)).sum()
-            log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * np.log1p(t)
+            log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * self._log1p_sum_ipsi(u)
             log_pdf[~ok] = np.nan
 
         return log_pdf if log else np.exp(log_pdf)
@@ -179,6 +189,13 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     def tau(self):
         return self._tau(self.params)
 
+    def _log1p_sum_ipsi(self, u: np.ndarray):
+        # log(sum(u ** -theta) - d + 1) where the powers may be too large for a floating point number
+        n, d = u.shape
+        with np.errstate(divide='ignore'):
+            log_powers = -self._theta * np.log(u)
+        return logsumexp(np.c_[log_powers, np.zeros(n)], axis=1, b=np.r_[np.ones(d), 1 - d])
+
     @staticmethod
     def _rho(theta):
         # TODO Clayton: add rho function
-- 
2.43.0


From 0b88b011e499826d81c42a883234b48a793167d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:00 +0000
Subject: [PATCH 67/73] fix: Frank pdf under strong dependence, where the
 argument of the polylogarithm rounds to one

---
 copulae/archimedean/frank.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index cece555..8fa9c97 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -1,11 +1,12 @@
 from typing import Literal
 
 import numpy as np
+from scipy.special import gammaln, logsumexp
 
 from copulae.copula import Summary, TailDep
 from copulae.special.debye import debye_1, debye_2
 from copulae.special.optimize import find_root
-from copulae.special.special_func import log1mexp, log1pexp, poly_log
+from copulae.special.special_func import log1mexp, log1pexp, stirling_second_all
 from copulae.stats import random_uniform
 from copulae.stats.log import random_log_series_ln1p
 from copulae.types import Array
@@ -169,8 +170,11 @@ class FrankCopula(AbstractArchimedeanCopula):
         lpu = log1mexp(theta * u_)
         lu = lpu.sum(1)
 
-        li_arg = np.exp(lp + (lpu - lp).sum(1))
-        li = poly_log(li_arg, 1 - d, log=True)
+        # log of the polylogarithm of order 1 - d at z, a polynomial in z / (1 - z). z itself may round to 1
+        lz = lp + (lpu - lp).sum(1)
+        k = np.arange(d) + 1
+        coef = gammaln(k) + np.log(np.asarray(stirling_second_all(d), float))
+        li = logsumexp(coef + np.outer(lz - log1mexp(-lz), k), axis=1)
 
         res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
 
-- 
2.43.0


From fcff9738911fae38902ca4b053d0bd025c69b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:59 +0000
Subject: [PATCH 68/73] fix: the trust-constr optimiser gets its options where
 scipy expects them

---
 copulae/copula/estimator/estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 38c8aba..1919e13 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -202,9 +202,11 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
         }, options)
     elif method_is('trust-constr'):
         return merge_dict({
-            'maxiter': max_iter,
-            'disp': disp,
-            'bounds': bounds
+            'bounds': bounds,
+            'options': {
+                'maxiter': max_iter,
+                'disp': disp
+            }
         }, options)
     else:
         return options
-- 
2.43.0


From 7951a58e197fba0e27e49b126c43aa0802fd9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:13 +0000
Subject: [PATCH 69/73] fix: replicates of the symmetry tests that equal the
 statistic are counted whatever the rounding

---
 copulae/gof/_exchangeability.pyx | 24 +++++++++++++++---------
 copulae/gof/_radial_symmetry.pyx |  9 +++++----
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index be7c4b2..ce4c099 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -7,6 +7,17 @@ import numpy as np
 from copulae.core import pseudo_obs
 
 
+cdef double count(double[:] u, double[:] v, double x, double y, int n) nogil:
+    """Number of observations with u at most x and v at most y"""
+    cdef:
+        double res = 0.0
+        int i
+
+    for i in range(n):
+        res += (u[i] <= x) * (v[i] <= y)
+    return res
+
+
 cdef double cn(double[:] u, double[:] v, double x, double y, int n) nogil:
     """
     Utility function for the exchangeability test based on Cn
@@ -29,13 +40,7 @@ cdef double cn(double[:] u, double[:] v, double x, double y, int n) nogil:
         Number of multiplier or bootstrap iterations to be used to simulate realizations of the test statistic under
         the null hypothesis.
     """
-    cdef:
-        double res = 0.0
-        int i
-
-    for i in range(n):
-        res += (u[i] <= x) * (v[i] <= y)
-    return res / n
+    return count(u, v, x, y, n) / n
 
 
 cdef double der_cn_1(double[:] u, double[:] v, double x, double y, int n) nogil:
@@ -203,10 +208,11 @@ def exch_test_stat(double[:, :] u, double[:, :] g, int n, int m):
 
     for i in range(m):
         x, y = g[i, 0], g[i, 1]
-        diff = cn(a, b, x, y, n) - cn(a, b, y, x, n)
+        # difference in counts, an exact integer. Replicates that equal the statistic are thus recognized as equal
+        diff = count(a, b, x, y, n) - count(a, b, y, x, n)
         s += diff * diff
 
-    return s * n / m
+    return s / (<double>n * m)
 
 
 def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng):
diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index 35fe77f..68f4b92 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -31,10 +31,11 @@ def rad_sym_test_stat(const double[:] u, const int n, const int p):
         int i
 
     for i in range(n):
+        # n times the difference, an exact integer. Replicates that equal the statistic are thus recognized as equal
         diff = diff_cn(u, n, p, i)
         s += diff * diff
 
-    return s
+    return s / (<double>n * n)
 
 
 def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties):
@@ -68,7 +69,7 @@ def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, b
 cdef double diff_cn(const double[:] u, const int n, const int p, const int k) nogil:
     """
     Difference between the multivariate empirical copula and the multivariate survival empirical copula
-    for the radial symmetry test
+    for the radial symmetry test, in terms of counts (that is, times the number of observations)
 
     Parameters
     ----------
@@ -87,7 +88,7 @@ cdef double diff_cn(const double[:] u, const int n, const int p, const int k) no
     Returns
     -------
     float
-        The value of the difference at u[k + n * j], j=1...p`
+        The value of the difference times n at u[k + n * j], j=1...p`
     """
     cdef:
         double sumind = 0.0
@@ -103,4 +104,4 @@ cdef double diff_cn(const double[:] u, const int n, const int p, const int k) no
 
         sumind += <double>ind1 - <double>ind2
 
-    return sumind / n
+    return sumind
-- 
2.43.0


From b6beff2ad951ea731ab33af6e1309c822ee05992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:43 +0000
Subject: [PATCH 70/73] fix: density of a marginal copula is zero outside of
 the support of a margin

---
 copulae/marginal/marginal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index a584d6c..e04c7db 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -143,7 +143,11 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
                 density_margin *= m.pdf(xx)
 
         d = self._copula.pdf(u, log)
-        return (d + density_margin) if log else (d * density_margin)
+
+        # outside of the support of a margin, the inner density (at the edge of the unit cube) may not be a number
+        if log:
+            return np.where(density_margin == -np.inf, -np.inf, d + density_margin)
+        return np.where(density_margin == 0, 0, d * density_margin)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From d4362841061737d22c98605c1b4103907dafd0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 71/73] fix: Clayton generator and distribution keep their
 digits next to independence

---
 copulae/archimedean/clayton.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index d852089..07fd89b 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -90,7 +90,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         if self._theta == 0:
             v = -np.log(u)
         else:
-            v = np.sign(self._theta) * (u ** -self._theta - 1)
+            v = np.sign(self._theta) * np.expm1(-self._theta * np.log(u))
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -157,7 +157,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     def psi(self, s: Array):
         if self._theta == 0:
             return np.exp(-s)
-        return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
+        with np.errstate(divide='ignore'):
+            return np.exp(-np.log1p(np.maximum(np.sign(self._theta) * s, -1)) / self._theta)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> np.ndarray:
@@ -194,7 +195,10 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         n, d = u.shape
         with np.errstate(divide='ignore'):
             log_powers = -self._theta * np.log(u)
-        return logsumexp(np.c_[log_powers, np.zeros(n)], axis=1, b=np.r_[np.ones(d), 1 - d])
+            with np.errstate(over='ignore'):
+                total = np.expm1(log_powers).sum(1)
+            return np.where(np.isfinite(total), np.log1p(total),
+                            logsumexp(np.c_[log_powers, np.zeros(n)], axis=1, b=np.r_[np.ones(d), 1 - d]))
 
     @staticmethod
     def _rho(theta):
-- 
2.43.0


From 0ef8da30f1a780a40da18364c64b9334696a39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:41 +0000
Subject: [PATCH 72/73] fix: default Gumbel polynomial of more than thirty
 dimensions keeps its digits

---
 copulae/archimedean/gumbel.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 400dd80..81c9d52 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -445,8 +445,4 @@ def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
 
     if d <= 30:
         return 'direct'
-    elif d <= 50:
-        return 'direct' if alpha <= 0.8 else 'log'
-    elif d <= 70:
-        return 'direct' if alpha <= 0.7 else 'log'
-    return 'recursive'
+    return 'recursive'  # the alternating sums lose digits with the dimension
-- 
2.43.0


From 2c36dccb2003d97e0af38911243b867f6edc4001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:09 +0000
Subject: [PATCH 73/73] fix: printed one-dimensional mixture parameter sets
 close their covariance brackets

---
 copulae/mixtures/gmc/parameter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index d8d4e25..e7c44fa 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -138,7 +138,9 @@ class GMCParam:
             cov_str = ""
             offset = ' ' * 15
             for j, x in enumerate(np.round(s, 4).tolist()):
-                if j == 0:
+                if self.n_dim == 1:
+                    cov_str += f"[{x}]"
+                elif j == 0:
                     cov_str += f"[{x},\n"
                 elif j == self.n_dim - 1:
                     cov_str += f"{offset}{x}]"
@@ -163,13 +165,15 @@ Covariance  : {cov_str}
         for i, cov in enumerate(self.covs):  # type: int, np.ndarray
             for j, v in enumerate(cov.tolist()):
                 if j == 0:
-                    covs_repr += f"{offset[:-1]}[{v},\n"
-                elif j == self.n_dim - 1:
-                    covs_repr += f"{offset}{v}]"
+                    covs_repr += f"{offset[:-1]}[{v}"
+                else:
+                    covs_repr += f"{offset}{v}"
+                if j == self.n_dim - 1:
+                    covs_repr += "]"
                     if i < self.n_clusters - 1:
                         covs_repr += ',\n'
                 else:
-                    covs_repr += f"{offset}{v},\n"
+                    covs_repr += ",\n"
 
         return f"""
 GMCParam(
-- 
2.43.0

