From 2e7d92817ac7c0b3784f477b9fa13b0b7d759c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 01/37] fix: ZTransform.transform no longer modifies or rejects
 the coefficient arrays of the caller

---
 diamondback/transforms/z_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..70a1917 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        v = v / u[-1]
+        u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From c9188ff40510282aefeba446719b34c08ca83486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/37] fix: complex filters classify the signal by element
 type and not by value

---
 diamondback/filters/complex_bandpass_filter.py    | 2 +-
 diamondback/filters/complex_exponential_filter.py | 2 +-
 diamondback/filters/complex_frequency_filter.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 8a70c06..a405341 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -79,7 +79,7 @@ class ComplexExponentialFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
+        if (numpy.iscomplexobj(x)) or (not len(x)) or (abs(x) > 1.0).any():
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), complex)
         phase = self.phase
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..b6bca59 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From a9b8100c9d8e8d2af8ba9d118d46896fe0dbf66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/37] fix: FirFilter coefficients and state are owned copies
 which hold the element type of the operands

---
 diamondback/filters/fir_filter.py | 38 +++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..77f34fd 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -111,7 +111,7 @@ class FirFilter(object):
 
     @b.setter
     def b(self, b: list | numpy.ndarray):
-        self._b = b
+        self._b = FirFilter._array(b)
 
     @property
     def s(self):
@@ -119,7 +119,7 @@ class FirFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = FirFilter._array(s)
 
     def __init__(
         self,
@@ -208,7 +208,35 @@ class FirFilter(object):
         if len(s) < len(b):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
         super().__init__()
-        self._b, self._s = numpy.array(b), numpy.array(s, type(b[0]))
+        self._b, self._s = FirFilter._array(b), FirFilter._array(s)
+        self._promote(self._b)
+
+    @staticmethod
+    def _array(x: list | numpy.ndarray) -> numpy.ndarray:
+        """Copies to an array with a floating point or complex element type.
+
+        Parameters
+        ----------
+        x: list | numpy.ndarray - elements
+
+        Returns
+        -------
+        y: numpy.ndarray - copy
+        """
+
+        y = numpy.array(x)
+        return y.astype(numpy.result_type(y, float))
+
+    def _promote(self, *x: complex | float | numpy.ndarray) -> None:
+        """Promotes a state to a complex element type if any operand is complex.
+
+        Parameters
+        ----------
+        x: complex | float | numpy.ndarray - operands
+        """
+
+        if any(numpy.iscomplexobj(ii) for ii in x) and not numpy.iscomplexobj(self.s):
+            self._s = self._s.astype(complex)
 
     def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
         """Estimates group delay and produces a reference signal.
@@ -255,7 +283,8 @@ class FirFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        self._promote(x)
+        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[1:] = self.s[:-1]
@@ -274,6 +303,7 @@ class FirFilter(object):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        self._promote(x)
         self.s[:] = x
 
     def response(self, length=8192, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From bcb9d1a4fdb5a5c2bafcb5c45e0ddebc0aa20668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 04/37] fix: IirFilter recursive coefficients are an owned copy
 with the length of the state

---
 diamondback/filters/iir_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..043d699 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        self._a = a
+        self._a = FirFilter._array(a)
 
     def __init__(
         self,
@@ -202,7 +202,7 @@ class IirFilter(FirFilter):
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
         super().__init__(b=b, s=s)
-        self._a = numpy.array(a)
+        self._a = FirFilter._array(numpy.concatenate((a, numpy.zeros(len(self.b) - len(a)))))
 
     @staticmethod
     def _evaluate(style: str, frequency: float, order: int) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 4e8fbf7c0bc8fda782bcb4280c7af91bc2558531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 05/37] fix: IirFilter state and results hold complex signals

---
 diamondback/filters/iir_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 043d699..449d920 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -301,7 +301,8 @@ class IirFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        self._promote(x, self.a)
+        y = numpy.zeros(len(x), numpy.result_type(self.a, self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[0] += self.a.dot(self.s)
@@ -322,6 +323,7 @@ class IirFilter(FirFilter):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        self._promote(x, self.a, self.b)
         if len(self.s) > 1:
             self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
         self.s[0] = x
-- 
2.43.0


From e7999362c3827e7a79c5a8a386e0468fae45b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 06/37] fix: RankFilter results hold the element type of the
 state and the signal

---
 diamondback/filters/rank_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..d071933 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,8 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        self._promote(x)
+        y = numpy.zeros(len(x), self.s.dtype)
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From a9aa8faa6080e8693cb6b8530fca2ff4e9d795f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 07/37] fix: PidFilter state and results hold complex signals

---
 diamondback/filters/pid_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index bb2f596..b8a6fce 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -79,7 +79,8 @@ class PidFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        self._promote(x)
+        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
         for ii in range(0, len(x)):
             self.s[2] = x[ii] - self.s[0]
             if abs(self.s[1] + x[ii]) < self.limit:
-- 
2.43.0


From 2cd659aef57388e02ab37aa35baefb1d85d47d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 08/37] fix: GoertzelFilter classifies complex signals of any
 precision

---
 diamondback/filters/goertzel_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..639ad1b 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -112,7 +112,7 @@ class GoertzelFilter(IirFilter):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
-        u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
+        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
         jj = 0
         for ii in range(0, len(x)):
             v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
-- 
2.43.0


From a93c288126738da5fd0dfc82c02ce00d21fd4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 09/37] fix: WaveletTransform does not truncate integer or
 complex signals

---
 diamondback/transforms/wavelet_transform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 004deb0..01d1fc2 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -534,6 +534,7 @@ class WaveletTransform(object):
         if (len(x.shape) > 2) or (not len(x)):
             raise ValueError(f"X = {x}")
         v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
+        v = v.astype(numpy.result_type(v, float))
         rows, cols = v.shape
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
@@ -568,18 +569,18 @@ class WaveletTransform(object):
                 jj = max(cc // 2, 1)
                 y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse)
             if rr > 1:
-                u = numpy.zeros(rr)
+                u = numpy.zeros(rr, y.dtype)
                 for jj in range(0, cc):
-                    w = numpy.zeros(rr)
+                    w = numpy.zeros(rr, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]
                         fir_filter[kk].s[:] = 0.0
                         w += 2.0 * fir_filter[kk].filter(u)
                     y[:rr, jj] = w
             if cc > 1:
-                u = numpy.zeros(cc)
+                u = numpy.zeros(cc, y.dtype)
                 for ii in range(0, rr):
-                    w = numpy.zeros(cc)
+                    w = numpy.zeros(cc, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)]
                         fir_filter[kk].s[:] = 0.0
-- 
2.43.0


From ab746086a7c25bc7d23c6893b4a5f9465137aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 10/37] fix: PolynomialRateFilter holds complex signals for any
 order

---
 diamondback/filters/polynomial_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index 98ee119..7bc870f 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -114,7 +114,7 @@ class PolynomialRateFilter(object):
             v = numpy.linspace(0, int(len(x) * self.rate + 0.5) - 1, int(len(x) * self.rate + 0.5)) / self.rate
             y = numpy.interp(x=v, xp=u, fp=x)
         else:
-            y = numpy.zeros(jj)
+            y = numpy.zeros(jj, numpy.result_type(x, float))
             x = numpy.concatenate(
                 (
                     [2.0 * x[0] - x[1]],
-- 
2.43.0


From cc88d934294ec872bcc6a28a5198b4181ffb470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 11/37] fix: PolynomialRateFilter accepts a rate of zero for
 any order

---
 diamondback/filters/polynomial_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index 7bc870f..cf2d926 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -122,7 +122,7 @@ class PolynomialRateFilter(object):
                     [2.0 * x[-1] - x[-2], 3.0 * x[-1] - 2.0 * x[-2]],
                 )
             )
-            u, v = numpy.linspace(-1.0, 2.0, 4), 1.0 / self.rate
+            u, v = numpy.linspace(-1.0, 2.0, 4), 1.0 / self.rate if (self.rate) else numpy.inf
             ii, jj = 0, 0
             index = 0.0
             while ii < cc:
-- 
2.43.0


From 0b487960f1db0d2cbef8de910ff22973c8584962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 12/37] fix: PolyphaseRateFilter state is an owned floating
 point copy

---
 diamondback/filters/polyphase_rate_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index cba7293..6a52e82 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,8 @@ class PolyphaseRateFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        s = numpy.array(s)
+        self._s = s.astype(numpy.result_type(s, float))
 
     def __init__(self, rate: float) -> None:
         """Initialize.
-- 
2.43.0


From 0f7cb3d677617a7728cdc6374b464951b49f307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 13/37] fix: PolyphaseRateFilter consumes every sample,
 whatever the block length, and holds complex signals

---
 diamondback/filters/polyphase_rate_filter.py | 28 ++++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 6a52e82..51555f7 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -150,23 +150,21 @@ class PolyphaseRateFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(int(numpy.round(len(x) * self.rate)))
+        if numpy.iscomplexobj(x) and not numpy.iscomplexobj(self.s):
+            self._s = self._s.astype(complex)
+        y = []
         b = PolyphaseRateFilter.B
         rr = b.shape[0]
-        ii, jj = 0, 0
-        while (ii < len(x)) and (jj < len(y)):
-            if self._index < rr:
-                kk = min(int(numpy.round(self._index)), rr - 1)
-                self._index += rr / self.rate
-                self.s[0] = x[ii]
-                y[jj] = b[kk, :].dot(self.s)
-                jj += 1
-            while (ii < len(x)) and (self._index >= rr):
-                self.s[0] = x[ii]
-                self.s[1:] = self.s[:-1]
+        for ii in range(0, len(x)):
+            self.s[0] = x[ii]
+            if self.rate > 0.0:
+                while self._index < rr - 1.0e-6:
+                    kk = min(int(numpy.round(self._index)), rr - 1)
+                    self._index += rr / self.rate
+                    y.append(b[kk, :].dot(self.s))
                 self._index -= rr
-                ii += 1
-        return y[: min(jj, len(y))]
+            self.s[1:] = self.s[:-1]
+        return numpy.array(y, self.s.dtype)
 
     def reset(self, x: float) -> None:
         """Modifies a state to minimize edge effects by assuming persistent
@@ -179,4 +177,6 @@ class PolyphaseRateFilter(object):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        if numpy.iscomplexobj(x) and not numpy.iscomplexobj(self.s):
+            self._s = self._s.astype(complex)
         self.s[:] = x
-- 
2.43.0


From 6dd8893de76f863fc9d076abe168aebf6f46d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 14/37] fix: DiversityModel state is an owned floating point
 copy

---
 diamondback/models/diversity_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..a062378 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,8 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        s = numpy.array(s)
+        self._s = s.astype(numpy.result_type(s, float))
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0


From 183466144c6208ba484564ebb01c3318e5ca898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 15/37] fix: DiversityModel instances can be pickled

---
 diamondback/models/diversity_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index a062378..7159128 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -109,7 +109,7 @@ class DiversityModel(object):
         if order < 0:
             raise ValueError(f"Order = {order} Expected Order in [0, inf)")
         super().__init__()
-        self._distance = DiversityModel.DISTANCE[style]
+        self._style = style
         self._diversity = 0.0
         self._s = numpy.zeros((order + 1, 0))
 
@@ -156,7 +156,7 @@ class DiversityModel(object):
                     s[kk, :] = x[ii, :]
                     for uu in range(0, cc - 1):
                         for vv in range(uu + 1, cc):
-                            d = self._distance(s[uu, :], s[vv, :])
+                            d = DiversityModel.DISTANCE[self._style](s[uu, :], s[vv, :])
                             if d < u:
                                 u = d
                     if u > v:
-- 
2.43.0


From 66f02ce2ab3a12cc6b5b88017bcb2350097d0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 16/37] fix: DiversityModel.clear keeps the order

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 7159128..34b84e9 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -117,7 +117,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From 1f183f71054bf94811af10478a189cdc83bb615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 17/37] fix: FourierTransform inverse reverses the forward
 rotation for odd lengths

---
 diamondback/transforms/fourier_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 146fce1..519769a 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -89,7 +89,7 @@ class FourierTransform(object):
         if inverse:
             if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
                 v[0], v[-1] = v[1], v[-2]
-            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
+            y = numpy.concatenate((u[(len(u) + 1) // 2 :], u[: (len(u) + 1) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
             y, f = (
-- 
2.43.0


From d2bba9eaf10d78488da45477454e3cf3bd961ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 18/37] fix: PsdTransform rejects a negative index

---
 diamondback/transforms/psd_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 6fc1d87..4d4d7ca 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -98,6 +98,8 @@ class PsdTransform(object):
             raise ValueError(f"B = {b}")
         if len(x) < len(b):
             raise ValueError(f"X = {x}")
+        if index <= 0:
+            raise ValueError(f"Index = {index} Expected Index in (0, inf)")
         y = [
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
-- 
2.43.0


From 5ff09fbcd51db56d382deaece1a0247227824a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 19/37] fix: Gaussian models replace a learned model only when
 training is complete

---
 diamondback/models/gaussian_mixture_model.py | 8 ++++----
 diamondback/models/gaussian_model.py         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 331ef36..eaec022 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -100,9 +100,8 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
-        for ii in sorted(set(y)):
+        labels, models = sorted(set(y)), []
+        for ii in labels:
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
                 covariance_type="full",
@@ -111,7 +110,8 @@ class GaussianMixtureModel(object):
                 reg_covar=self.regularize,
             )
             model.fit(z)
-            self._model.append(model)
+            models.append(model)
+        self._model, self._shape = models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..90bfd9d 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -77,14 +77,14 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        labels, models = sorted(set(y)), []
         r = self.regularize * numpy.identity(x.shape[1])
-        for ii in sorted(set(y)):
+        for ii in labels:
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
-            self._model.append(dict(covariancei=i, mean=u))
+            models.append(dict(covariancei=i, mean=u))
+        self._model, self._shape = models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
-- 
2.43.0


From 4599d89e9ead915d18d2c390382d48ed5f53e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 20/37] fix: Gaussian models predict the labels of the training
 data

---
 diamondback/models/gaussian_mixture_model.py | 5 +++--
 diamondback/models/gaussian_model.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index eaec022..bfe7443 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -78,6 +78,7 @@ class GaussianMixtureModel(object):
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
         self._index = index
+        self._label = numpy.zeros(0, int)
         self._model: list[sklearn.mixture.GaussianMixture] = []
         self._order = order
         self._regularize = regularize
@@ -111,7 +112,7 @@ class GaussianMixtureModel(object):
             )
             model.fit(z)
             models.append(model)
-        self._model, self._shape = models, x[0].shape
+        self._label, self._model, self._shape = numpy.array(labels), models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
@@ -149,4 +150,4 @@ class GaussianMixtureModel(object):
                         model.weights_[kk],
                     )
                     v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
-        return numpy.fliplr(numpy.argsort(v, axis=1))
+        return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index 90bfd9d..cb4af7c 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -56,6 +56,7 @@ class GaussianModel(object):
 
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
+        self._label = numpy.zeros(0, int)
         self._model: list[dict[Any, Any]] = []
         self._regularize = regularize
         self._shape = ()
@@ -84,7 +85,7 @@ class GaussianModel(object):
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
             models.append(dict(covariancei=i, mean=u))
-        self._model, self._shape = models, x[0].shape
+        self._label, self._model, self._shape = numpy.array(labels), models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
@@ -116,4 +117,4 @@ class GaussianModel(object):
                 model = self._model[ii]
                 i, u = model["covariancei"], model["mean"]
                 v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
-        return numpy.argsort(v, axis=1)
+        return self._label[numpy.argsort(v, axis=1)]
-- 
2.43.0


From 62dcce2dc1d2af329fe6617b8d6c81bb9af92626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 21/37] fix: GoertzelFilter evaluates coefficients when
 frequency is assigned

---
 diamondback/filters/goertzel_filter.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index 639ad1b..09a1a81 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,7 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[:], self.b[:] = GoertzelFilter._coefficient(frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
@@ -88,13 +89,30 @@ class GoertzelFilter(IirFilter):
             raise ValueError(f"B = {b}")
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
-        u = numpy.array([0.0, 2.0 * math.cos(math.pi * frequency), -1.0])
-        v = numpy.array([1.0, -numpy.exp(-1j * math.pi * frequency), 0.0])
+        u, v = GoertzelFilter._coefficient(frequency)
         super().__init__(a=u, b=v)
         self._index = 0
         self._frequency = frequency
         self._w = numpy.array(b)
 
+    @staticmethod
+    def _coefficient(frequency: float) -> tuple[numpy.ndarray, numpy.ndarray]:
+        """Evaluates coefficients.
+
+        Parameters
+        ----------
+        frequency: float - frequency normalized to Nyquist in [-1.0, 1.0]
+
+        Returns
+        -------
+        a: numpy.ndarray - recursive coefficient
+        b: numpy.ndarray - forward coefficient
+        """
+
+        a = numpy.array([0.0, 2.0 * math.cos(math.pi * frequency), -1.0])
+        b = numpy.array([1.0, -numpy.exp(-1j * math.pi * frequency), 0.0])
+        return a, b
+
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Filters an incident signal and produces a reference signal.
 
-- 
2.43.0


From 79f4336550f5af20858c225d01b41a16146d912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 22/37] fix: ComplexFrequencyFilter starts at the frequency
 given to the constructor

---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index b6bca59..96ed95a 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From 66af0b807ef4cf67afce6af2320dd56a0af02222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 23/37] fix: Log.stream keeps the previous stream if the new
 stream is not accepted

---
 diamondback/commons/log.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 96ebc6f..3cd3cb7 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -123,13 +123,14 @@ class Log(object):
         with Log._rlock:
             if (not stream) or (not hasattr(stream, "write")):
                 raise ValueError(f"Stream = {stream} Expected Write")
-            with contextlib.suppress(ValueError):
-                logger.remove(Log._identity)
-            Log._identity = logger.add(
+            identity = logger.add(
                 stream,
                 level=0,
                 format="<blue>{time:YYYY-MM-DDTHH:mm:ss.SSZ}</blue> <level>{level}</level> {message}",
             )
+            with contextlib.suppress(ValueError):
+                logger.remove(Log._identity)
+            Log._identity = identity
 
     @classmethod
     def write(cls, level: str, entry: str | Exception) -> None:
-- 
2.43.0


From 887d2ef47a88907ae4d6d45b2b778525983a2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 24/37] fix: Daubechies wavelet of order 11 has its last
 coefficient corrected

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 01d1fc2..1c540f7 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -258,7 +258,7 @@ class WaveletTransform(object):
                     -0.0315820393174862,
                     0.0005538422011614,
                     0.0047772575109455,
-                    -0.001073010853085,
+                    -0.001077301084996,
                 ]
             ),
             13: numpy.array(
-- 
2.43.0


From bdb3bc6bfc4a959452b118685a4a2f4566d584a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 25/37] fix: Coiflet wavelet of order 5 is orthonormal to the
 precision of its coefficients

---
 diamondback/transforms/wavelet_transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 1c540f7..75bef6e 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -91,12 +91,12 @@ class WaveletTransform(object):
         Coiflet={
             5: numpy.array(
                 [
-                    -0.07269889797984,
-                    0.33788487810742,
-                    0.85255707635042,
-                    0.38485416611448,
-                    -0.07272889752509,
-                    -0.01565476269428,
+                    -0.07273261951285,
+                    0.33789766245781,
+                    0.85257202021226,
+                    0.38486484686420,
+                    -0.07273261951285,
+                    -0.01565572813547,
                 ]
             ),
             11: numpy.array(
-- 
2.43.0


From 5f982690e0b8bc7abacfb3d1ebd0cc323afe4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 26/37] fix: FirFilter and IirFilter roots reject the counts
 which response and delay reject

---
 diamondback/filters/fir_filter.py | 2 ++
 diamondback/filters/iir_filter.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 77f34fd..532b642 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -344,5 +344,7 @@ class FirFilter(object):
         z: numpy.ndarray - zeros
         """
 
+        if count <= 0:
+            raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         z = numpy.tile(numpy.roots(self.b), count)
         return numpy.zeros(count * (len(self.b) - 1)), z[numpy.argsort(abs(z))]
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 449d920..1773db5 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -368,6 +368,8 @@ class IirFilter(FirFilter):
         z: numpy.ndarray - zeros
         """
 
+        if count <= 0:
+            raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         p, z = (
             numpy.tile(numpy.roots(numpy.concatenate(([1.0], -self.a[1:]))), count),
             numpy.tile(numpy.roots(self.b), count),
-- 
2.43.0


From 52e6416c9ebe0543fb24993f1f50c4c4331e318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 27/37] fix: ComplexTransform transforms a two-dimensional
 signal with a single row

---
 diamondback/transforms/complex_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/complex_transform.py b/diamondback/transforms/complex_transform.py
index 26e58f8..22387c3 100644
--- a/diamondback/transforms/complex_transform.py
+++ b/diamondback/transforms/complex_transform.py
@@ -93,9 +93,9 @@ class ComplexTransform(object):
         if (rows not in (1, 3)) or (cols <= 0):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows in (1, 3) and Columns in (0, inf)")
         if rows == 1:
-            v = x
+            v = numpy.reshape(x, cols)
             if not neutral:
-                v = x / ComplexTransform.GAIN
+                v = v / ComplexTransform.GAIN
             y = numpy.matmul(
                 numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                 numpy.array([v.real, v.imag, numpy.zeros(cols)]),
-- 
2.43.0


From a86a277d50507734052334636e020045de8223fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 28/37] fix: DiversityModel rejects complex signals, whose
 imaginary part was discarded

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 34b84e9..886c734 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -133,7 +133,7 @@ class DiversityModel(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (len(x.shape) != 2) or (not all(x.shape)):
+        if (len(x.shape) != 2) or (not all(x.shape)) or numpy.iscomplexobj(x):
             raise ValueError(f"X = {x}")
         if not self.s.shape[1]:
             self.s = numpy.zeros((self.s.shape[0], x.shape[1])) + numpy.finfo(float).max
-- 
2.43.0


From 43789cf9159d8f3463b29a3feeee72e6207d8040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 29/37] fix: IirFilter reset is steady for filters whose gain
 at zero frequency is not one

---
 diamondback/filters/iir_filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 1773db5..99ca662 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -325,7 +325,11 @@ class IirFilter(FirFilter):
             raise ValueError(f"X = {x}")
         self._promote(x, self.a, self.b)
         if len(self.s) > 1:
-            self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
+            u = 1.0 - self.a[1:].sum()
+            if u != 0.0:
+                self.s[1:] = x / u
+            else:
+                self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
         self.s[0] = x
 
     def response(self, length=8192, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 34b0ffe14d454e89e14e4d832c780c3f848363fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 30/37] fix: Fourier transform of odd length reports the
 frequencies of its bins

---
 diamondback/transforms/fourier_transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 519769a..06af8d8 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -21,7 +21,7 @@
 
     .. math::
 
-        f_{k} = -1\\ + \\ 2\\ \\frac{k}{N}
+        f_{k} = \\ 2\\ \\frac{k - \\lfloor N / 2 \\rfloor}{N}
 
     An incident signal length is inversely proportional to a normalized
     frequency resolution.
@@ -89,12 +89,12 @@ class FourierTransform(object):
         if inverse:
             if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
                 v[0], v[-1] = v[1], v[-2]
-            y = numpy.concatenate((u[(len(u) + 1) // 2 :], u[: (len(u) + 1) // 2]))
+            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
             y, f = (
                 numpy.fft.fft(v * u) / len(u),
-                numpy.linspace(-1.0, 1.0 - 2.0 / len(u), len(u)),
+                numpy.linspace(-(len(u) // 2), (len(u) - 1) // 2, len(u)) * 2.0 / len(u),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2]))
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2]))
         return y, f
-- 
2.43.0


From ded94d501d0772c58b2626833d788287151ad2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 31/37] fix: power spectral density of odd window length
 reports the frequencies of its bins

---
 diamondback/transforms/psd_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 4d4d7ca..a16d4c7 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -105,5 +105,5 @@ class PsdTransform(object):
             for ii in range(0, len(x) - len(b) + 1, index)
         ]
         return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.linspace(
-            0.0, 1.0 - 2.0 / len(b), len(b) // 2
+            0.0, 2.0 * (len(b) // 2 - 1) / len(b), len(b) // 2
         )
-- 
2.43.0


From 91f90dbe2fb49f18a0be8679ebf6e187af08ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 32/37] fix: FIR response and delay of odd length report the
 frequencies of their values

---
 diamondback/filters/fir_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 532b642..a28744b 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -260,9 +260,9 @@ class FirFilter(object):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, [1.0]), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.linspace(-(length // 2), (length - 1) // 2, length) * 2.0 / length,
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) * count
         if length > 2:
             y[0] = y[1] * 2.0 - y[2]
         return y, f
@@ -326,9 +326,9 @@ class FirFilter(object):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         y, f = (
             freqz(self.b, [1.0, 0.0], length, True)[1],
-            numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+            numpy.linspace(-(length // 2), (length - 1) // 2, length) * 2.0 / length,
         )
-        y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+        y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 41a6229e66d4855e9f42a58ef4dd25d49ddd55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 33/37] fix: IIR response and delay of odd length report the
 frequencies of their values

---
 diamondback/filters/iir_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 99ca662..a840a35 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -275,9 +275,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.linspace(-(length // 2), (length - 1) // 2, length) * 2.0 / length,
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) * count
         if length > 6:
             if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                 y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
@@ -354,9 +354,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.linspace(-(length // 2), (length - 1) // 2, length) * 2.0 / length,
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From df4cb71d6c95367af7c746ff4f979cd12cfe005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 34/37] fix: Gaussian model averages the covariance over the
 samples of a class

---
 diamondback/models/gaussian_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index cb4af7c..bfd78f9 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
         for ii in labels:
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
-            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
+            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
             models.append(dict(covariancei=i, mean=u))
         self._label, self._model, self._shape = numpy.array(labels), models, x[0].shape
 
-- 
2.43.0


From 7792e00c0b7873c04a84de5d546d23a4938ae49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 35/37] fix: wavelet transform rejects a signal without columns

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 75bef6e..22aea3b 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -531,7 +531,7 @@ class WaveletTransform(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (len(x.shape) > 2) or (not len(x)):
+        if (len(x.shape) > 2) or (not len(x)) or (not all(x.shape)):
             raise ValueError(f"X = {x}")
         v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
         v = v.astype(numpy.result_type(v, float))
-- 
2.43.0


From 1c219344c972e4a01908d2157e096e968bc0940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 36/37] fix: z transform of a gain, without poles, by the
 bilinear method

---
 diamondback/transforms/z_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 70a1917..21409c1 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -111,7 +111,7 @@ class ZTransform(object):
             z = (1.0 + z / (2.0 * t)) / (1.0 - z / (2.0 * t))
             if len(z) < len(p):
                 z = numpy.concatenate((z, numpy.zeros(len(p) - len(z))))
-            a, b = numpy.poly(p).real, numpy.poly(z).real
+            a, b = numpy.atleast_1d(numpy.poly(p).real), numpy.atleast_1d(numpy.poly(z).real)
         else:
             r, p, _ = residue(v, u)
             a, b = numpy.ones(1) + 0j, 0j  # type: ignore
-- 
2.43.0


From 609f4f547c17100eb75aa7fce2262b94cc7a3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 37/37] fix: reject a z transform without poles by the impulse
 invariant method

---
 diamondback/transforms/z_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 21409c1..522d1d1 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,6 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
+        if (not bilinear) and (len(u) < 2):
+            raise ValueError(f"U = {u} Expected at least one pole")
         v = v / u[-1]
         u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
-- 
2.43.0

