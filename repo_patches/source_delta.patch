From b881a39e2cce39383a8341add79d751e445de0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 001/171] fix: Chebyshev points of length 0 and 1 are arrays
 like all others

---
 funpy/cheb/pts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index d62bfa0..4b42a2a 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -78,9 +78,9 @@ def barymat(y, x, w):
 @lru_cache(maxsize=25)
 def chebpts_type1_compute(N):
     if N == 0:
-        return []
+        return np.zeros(0)
     elif N == 1:
-        return [0]
+        return np.zeros(1)
     else:
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * N))
 
@@ -88,9 +88,9 @@ def chebpts_type1_compute(N):
 @lru_cache(maxsize=25)
 def chebpts_type2_compute(N):
     if N == 0:
-        return []
+        return np.zeros(0)
     elif N == 1:
-        return [0]
+        return np.zeros(1)
     else:
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * (N - 1)))
 
-- 
2.43.0


From 984242e6e9bc49d406ce97a128912d6380376f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 002/171] fix: Fun.from_values works for the Fourier
 representation

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 77e29e3..8ba1aab 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -226,7 +226,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         if type == 'cheb':
             nf = chebtech.from_values(values, simplify=False)
         elif type == 'trig':
-            nf = trigtech.from_values(values, simplify=False)
+            nf = trigtech(values=values, simplify=False)
         else:
             raise RuntimeError("Unknown function type {0:s}!".format(type))
 
-- 
2.43.0


From 5699e08e1911903cec1f679e7dac5532de0219ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 003/171] fix: functions can be evaluated at the end points of
 every interval

---
 funpy/fun.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 8ba1aab..9816e9d 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -129,6 +129,11 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
     def __call__(self, x):
         """ x in [a, b] -> [-1, 1] """
         z = self.mapping.bwd(x)
+        # mapping a point of [a, b] may overshoot [-1, 1] by rounding errors
+        ends = np.asarray(self.domain, dtype=float)
+        slack = 16 * np.finfo(float).eps * (1 + np.max(np.abs(ends)) / (ends[-1] - ends[0]))
+        z = np.where((z < -1.0) & (z >= -1.0 - slack), -1.0, z)
+        z = np.where((z > 1.0) & (z <= 1.0 + slack), 1.0, z)
         assert np.min(z) >= -1.0 and np.max(z) <= 1.0, 'Mapping must return an interval [-1, 1] instead of [%.12g, %.12g]!' % (np.min(z), np.max(z))
         return self.onefun.feval(z)
 
-- 
2.43.0


From 25a4d296cf29c0a7067f276a3e6ec6345e6d5b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 004/171] fix: evaluating a real Fourier function of even
 length leaves its coefficients alone

---
 funpy/trig/eval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/eval.py b/funpy/trig/eval.py
index 98ee671..c60c00e 100644
--- a/funpy/trig/eval.py
+++ b/funpy/trig/eval.py
@@ -65,8 +65,8 @@ def horner_scl_real(x, c):
     # Get all negative indexed coefficients so that the constant is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
+    a = np.copy(np.real(c))
+    b = np.copy(np.imag(c))
     b.flags.writeable = True
 
     if np.remainder(N, 2) == 0:
@@ -96,8 +96,8 @@ def horner_vec_real(x, c):
     # Get all negative indexed coefficients so that the constant term is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
+    a = np.copy(np.real(c))
+    b = np.copy(np.imag(c))
     e = np.ones((nValsX, 1))
 
     if np.remainder(N, 2) == 0:
-- 
2.43.0


From 0361368cbb53cc84504f662de8d13a4dfb43117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 005/171] fix: Fourier construction judges resolution by
 positive and negative frequencies together

---
 funpy/trig/trigtech.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 34f0dce..2a26bdf 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -332,8 +332,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         ishappy = np.zeros(m).astype(bool)
         cutoff = np.zeros(m).astype(int)
         for k in range(m):
-            # FIXME!
-            cutoff[k] = standardChopCmplx(np.asfortranarray(self.coeffs[:, k]), tol[k])
+            # (n samples give n + 1 folded coefficients when n is even)
+            cutoff[k] = standardChopCmplx(coeffs[:, k].astype(complex), tol[k], 18)
             # check if happy - TODO: check this for numpy adaptation
             ishappy[k] = (cutoff[k] < n)
 
-- 
2.43.0


From 2bc2a268fdae69af3289774348640728de3d9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 006/171] fix: coefficients are chopped relative to the size of
 the function

---
 funpy/cheb/chebtech.py | 3 ++-
 funpy/cheb/detail.pyx  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 553f80d..f59539f 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -251,7 +251,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def happy(self, eps=None):
         eps = self.eps if eps is None else eps
-        tol = np.maximum(self.hscale, self.vscale) * eps * np.ones(self.m)
+        # the coefficients are normalised before they are chopped: no vertical scale here
+        tol = np.maximum(self.hscale, 1.0) * eps * np.ones(self.m)
         self.ishappy, cutoff = happiness_check(self.coeffs, tol)
         # cutoff is the last entry to keep -> increment by one.
         return bool(self.ishappy), cutoff+1
diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 7860fd6..3ee1977 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -245,8 +245,9 @@ cpdef standardChop(double[::1] coeffs, double tol, Py_ssize_t minimum=17):
         return cutoff
 
     # normalize - envelop function
+    abs_value = envelop[0]
     for j in range(n):
-        envelop[j] /= envelop[0]
+        envelop[j] /= abs_value
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
     for j in range(1, n):
@@ -333,8 +334,9 @@ cpdef standardChopCmplx(complex[::1] coeffs, double tol, Py_ssize_t minimum=17):
         return cutoff
 
     # normalize - envelop function
+    abs_value = envelop[0]
     for j in range(n):
-        envelop[j] /= envelop[0]
+        envelop[j] /= abs_value
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
     for j in range(1, n):
-- 
2.43.0


From 891a4f487b8d8ed63b843dc3481933af0330ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 007/171] fix: simplifying Chebyshev coefficients never
 lengthens them

---
 funpy/cheb/detail.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 3ee1977..b8e2c36 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -165,8 +165,8 @@ cpdef simplify_coeffs(double[::1, :] coeffs, eps=1.48e-8):
         chop = standardChop(coeffs[:, k], tol[k])
         cutoff = max_idx(cutoff, chop)
 
-    # take the minimum cutoff.
-    cutoff = min_idx(cutoff, nold)
+    # take the minimum cutoff: never return more coefficients than passed in.
+    cutoff = min_idx(cutoff, nold - 1)
 
     # chop coefficients: +1 here since cutoff is the last index to keep!
     return np.asarray(coeffs[:cutoff+1, :], order='F')
-- 
2.43.0


From 07dcc1f11acb702483f5362f71bdc2162f1c51e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 008/171] fix: array-valued constant functions can be
 multiplied with other functions

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 6167917..60743ef 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -232,9 +232,9 @@ def multiply(x1, x2, **kwargs):
     # coefficient space.
     elif isinstance(x2, type(x1)):
         # Multiplication with other chebtech
-        if x1.n == 1:  # x1 is a constant function
+        if x1.n == 1 and x1.m == 1:  # x1 is a constant function
             return multiply(x2, x1.coeffs, **kwargs)
-        elif x2.n == 1:  # x2 is a constant function
+        elif x2.n == 1 and x2.m == 1:  # x2 is a constant function
             return multiply(x1, x2.coeffs, **kwargs)
 
         if out is not None:
-- 
2.43.0


From 27f7f36403af26a17cc28f8a92e45b9d301b5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 009/171] fix: a single-column function can be added to an
 array-valued one from the left

---
 funpy/cheb/ufuncs.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 60743ef..b9185b8 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -100,7 +100,10 @@ def add(x1, x2, **kwargs):
                 c = detail.prolong(c, no)
 
         # update values and coefficients
-        c += oc
+        if out is not None:
+            c += oc
+        else:
+            c = np.asfortranarray(c + oc)
 
         # look for zero output
         absCoeffs = np.abs(c)
-- 
2.43.0


From 81378c3d3530964d40f88679023c3c724f911afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 010/171] fix: f **= p changes f, and f**1 and +f do not share
 f's coefficients

---
 funpy/cheb/ufuncs.pyx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index b9185b8..a7202b1 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -26,7 +26,7 @@ def negative(x, **kwargs):
                        maxLength=x.maxLength, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def absolute(x, **kwargs):
     return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
@@ -38,10 +38,17 @@ def power(x1, x2, **kwargs):
         return NotImplemented
 
     if isinstance(x2, Number):
-        # Do nothing just return the function
         if x2 == 1.0:
-            return x1
-        return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
+            fun = np.copy(x1)
+        else:
+            fun = chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
+
+        # Deal with assignment operators
+        out = kwargs.get('out', None)
+        if out is not None:
+            out[0].coeffs = fun.coeffs
+            return out[0]
+        return fun
     else:
         return NotImplemented
 
-- 
2.43.0


From 7a86f36e70dbde058228e1587ac19450205df710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 011/171] fix: combining functions on different intervals is
 refused whichever interval is larger

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 9816e9d..1c52593 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -176,7 +176,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
             # check domain
             if isinstance(x, type(self)):
-                if not np.all(np.asarray(x.domain) - np.asarray(self.domain) < SMALL_EPS):
+                if not np.all(np.abs(np.asarray(x.domain) - np.asarray(self.domain)) < SMALL_EPS):
                     raise ValueError("Domain mismatch %s != %s!" % (x.domain, self.domain))
 
         if method == "__call__":
-- 
2.43.0


From fff33284b22746b26d95a44b92aa48c1eb9520f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 012/171] fix: at least 17 samples are taken before a function
 is called resolved

---
 funpy/cheb/chebtech.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index f59539f..cfad710 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -52,7 +52,9 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                 if isinstance(op, RefineBase):
                     self.populate(op)
                 else:  # Assume that it's a lambda -> TODO check that
-                    refine = Refine(op=op, minSamples=min(self.maxLength, kwargs.pop('minSamples', 17)),
+                    # fewer than 17 samples say nothing about convergence
+                    minSamples = max(17, kwargs.pop('minSamples', 17))
+                    refine = Refine(op=op, minSamples=min(self.maxLength, minSamples),
                                     strategy=kwargs.pop('resample', 'nested'))
                     self.populate(refine)
 
-- 
2.43.0


From ae8ddd2d9f20e6f7cd4930ebd0fe64fb8a6f00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 013/171] fix: array-valued Chebyshev functions can be
 integrated indefinitely

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index cfad710..81ae6ed 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -559,7 +559,7 @@ def cumsum(cheb, **kwargs):
     """
     n, m = cheb.shape
     c = np.vstack((cheb.coeffs, np.zeros((2, m))))  # pad with zeros
-    b = np.zeros((n+1, m))
+    b = np.zeros((n+1, m), order='F')
 
     # compute b_(2) ... b_(n+1)
     b[2:n+1, :] = (c[1:n, :] - c[3:n+2, :]) / np.tile(np.expand_dims(2*np.arange(2, n+1), axis=1), (1, m))
-- 
2.43.0


From 54c05eba47dc5c9a48ff2a8758cd035d5124df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 014/171] fix: a number divided by a Fourier function is not
 the function divided by the number

---
 funpy/trig/ufuncs.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 96d72f9..fd6681e 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -306,11 +306,22 @@ def divide(x1, x2, **kwargs):
     return true_divide(x1, x2, **kwargs)
 
 def true_divide(x1, x2, **kwargs):
-    # if we have one element that is a ndarray or Number we want that to be x2!
-    if isinstance(x1, (np.ndarray, Number)):
-        return divide(x2, x1, **kwargs)
-
     out = kwargs.pop('out', None)
+
+    # Deal with this first!
+    if isinstance(x1, np.ndarray) and x1.size == 1:
+        x1 = x1.item()
+    if isinstance(x1, Number):
+        fun = trigtech(op=lambda x: np.divide(x1, x2(x)))
+        if out is not None:
+            out[0].values = fun.values
+            out[0].coeffs = fun.coeffs
+            out[0].isReal = fun.isReal
+            return out[0]
+        return fun
+    elif isinstance(x1, np.ndarray):
+        return NotImplemented
+
     if out is not None:
         c = out[0].coeffs
         v = out[0].values
-- 
2.43.0


From a5e865f5feb45cb0bb196c1e1f31a577cc127445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 015/171] fix: powers of Fourier functions: f **= p changes f,
 a**f is not f**a

---
 funpy/trig/ufuncs.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index fd6681e..97b19c3 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -31,13 +31,21 @@ def fabs(x, **kwargs):
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        return power(x2, x1)
-
-    if isinstance(x2, Number):
-        return trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
+        fun = trigtech(op=lambda x: np.power(x1, x2(x)))
+    elif isinstance(x2, Number):
+        fun = trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
     else:
         return NotImplemented
 
+    # Deal with assignment operators
+    out = kwargs.pop('out', None)
+    if out is not None:
+        out[0].values = fun.values
+        out[0].coeffs = fun.coeffs
+        out[0].isReal = fun.isReal
+        return out[0]
+    return fun
+
 def add(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, (np.ndarray, Number)):
-- 
2.43.0


From 7cc77e6f6aa916be0d8723616caa23b68528cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 016/171] fix: Fourier functions can be multiplied by
 themselves and by their conjugates

---
 funpy/trig/ufuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 97b19c3..888a314 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -267,7 +267,7 @@ def multiply(x1, x2, **kwargs):
         # multiply values
         if x1 == x2:
             v = np.power(nvals, 2)
-            if x1.isreal():
+            if x1.isreal:
                 pos = True
 
         elif np.conj(x1) == x2:
@@ -291,7 +291,7 @@ def multiply(x1, x2, **kwargs):
             # when the product should be positive make sure it is after call to simplify
             v = np.abs(v)
             c = vals2coeffs(v)
-            is_real = np.ones((1, c.shape[1])).astype(bool)
+            is_real = np.ones(c.shape[1]).astype(bool)
         else:
             is_real = x1.isreal and x2.isreal
 
-- 
2.43.0


From f32e80e9f560e20a7ed45dc30e4a1178b71a374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 017/171] fix: products of Fourier functions of even length do
 not alias their highest modes

---
 funpy/trig/ufuncs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 888a314..b87823b 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -244,8 +244,9 @@ def multiply(x1, x2, **kwargs):
         fn, fm = x1.shape
         gn, gm = x2.shape
 
-        # prolong
-        ncoeffs, nvals = prolong(x1.coeffs, fn + gn - 1, x1.isReal)
+        # prolong: an even length n stands for the modes of length n + 1
+        n = fn + gn - 1 + (fn + 1) % 2 + (gn + 1) % 2
+        ncoeffs, nvals = prolong(x1.coeffs, n, x1.isReal)
 
         # check dimensions
         if fm != gm:
@@ -274,7 +275,7 @@ def multiply(x1, x2, **kwargs):
             v = np.conj(nvals) * nvals
             pos = True
         else:
-            gcoeffs, gvals = prolong(x2.coeffs, fn + gn - 1, x2.isReal)
+            gcoeffs, gvals = prolong(x2.coeffs, n, x2.isReal)
             v = nvals * gvals
 
         # Compute values and coefficients of result
-- 
2.43.0


From faae0c6b72f9420fc8f43340e9f84a0af723bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 018/171] fix: products with constant Fourier functions:
 in-place forms and array-valued constants

---
 funpy/trig/trig_simplify.py |  4 +++-
 funpy/trig/ufuncs.py        | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index ee2a2bd..168aae3 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -16,7 +16,9 @@ def prolong(coeffs, Nout, isReal=None):
     Nin = coeffs.shape[0]
 
     if Nout == Nin:  # Do nothing
-        return
+        values = coeffs2vals(coeffs)
+        values[:, isReal] = np.real(values[:, isReal])
+        return coeffs, values
 
     if np.remainder(Nin, 2) == 0:
         coeffs = np.vstack((0.5 * coeffs[0, :], coeffs[1:, :], 0.5 * coeffs[0, :]))
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index b87823b..e502893 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -193,7 +193,7 @@ def multiply(x1, x2, **kwargs):
 
     elif isinstance(x2, np.ndarray):
         if x2.size == 1:
-            return multiply(x1, x2.item(), **kwargs)
+            return multiply(x1, x2.item(), out=out)
 
         if len(x2.shape) == 1:
             x2 = np.expand_dims(x2, axis=1)
@@ -228,10 +228,10 @@ def multiply(x1, x2, **kwargs):
     # coefficient space.
     elif isinstance(x2, type(x1)):
         # Multiplication with other chebtech
-        if x1.n == 1:  # x1 is a constant function
-            return multiply(x2, x1.coeffs, **kwargs)
-        elif x2.n == 1:  # x2 is a constant function
-            return multiply(x1, x2.coeffs, **kwargs)
+        if x1.n == 1 and x1.m == 1:  # x1 is a constant function
+            return multiply(x2, x1.coeffs, out=out)
+        elif x2.n == 1 and x2.m == 1:  # x2 is a constant function
+            return multiply(x1, x2.coeffs, out=out)
 
         if out is not None:
             c = out[0].coeffs
-- 
2.43.0


From dcb2447ecba07bf0959567eff5a7052b622a2838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 019/171] fix: multiplying Fourier functions leaves the factors
 alone

---
 funpy/trig/ufuncs.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index e502893..1fd8e4a 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -202,16 +202,9 @@ def multiply(x1, x2, **kwargs):
         # for the coefficients
         assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = x1.coeffs
-            v = x1.values
-
         # multiply the coefficients
-        c *= x2
-        v *= x2
+        c = x1.coeffs * x2
+        v = coeffs2vals(c)
 
         is_real = x1.isreal and np.isreal(x2)
         ishappy = x1.ishappy
@@ -256,8 +249,9 @@ def multiply(x1, x2, **kwargs):
                 ncoeffs = np.tile(ncoeffs, (1, gm))
             elif gm == 1:
                 # Allow [inf x m] .* [Inf x 1]
-                x2.values = np.tile(x2.values, (1, fm))
-                x2.coeffs = np.tile(x2.coeffs, (1, fm))
+                x2 = trigtech(values=np.tile(x2.values, (1, fm)),
+                              coeffs=np.tile(x2.coeffs, (1, fm)),
+                              ishappy=x2.ishappy, eps=x2.eps)
             else:
                 assert False, 'Inner matrix dimensions must agree!'
 
-- 
2.43.0


From f1deb325604f556d580532bd5f0a39b890075c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 020/171] fix: in-place operations on Fourier functions update
 values, coefficients and realness together

---
 funpy/trig/ufuncs.py | 129 ++++++++++++++-----------------------------
 1 file changed, 40 insertions(+), 89 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 1fd8e4a..d57c4d6 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -12,6 +12,14 @@ from .trigtech import trigtech
 from .transform import coeffs2vals, vals2coeffs
 
 
+def assign(x, fun):
+    """ The assignment forms of the operators: x becomes fun """
+    x.values = fun.values
+    x.coeffs = fun.coeffs
+    x.isReal = fun.isReal
+    x.ishappy = fun.ishappy
+    return x
+
 def negative(x, **kwargs):
     # Create the new function
     if not isinstance(x, trigtech):
@@ -40,10 +48,7 @@ def power(x1, x2, **kwargs):
     # Deal with assignment operators
     out = kwargs.pop('out', None)
     if out is not None:
-        out[0].values = fun.values
-        out[0].coeffs = fun.coeffs
-        out[0].isReal = fun.isReal
-        return out[0]
+        return assign(out[0], fun)
     return fun
 
 def add(x1, x2, **kwargs):
@@ -54,12 +59,8 @@ def add(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
+        c = np.copy(x1.coeffs, order='F')
+        v = np.copy(x1.values, order='F')
 
         other = np.asanyarray(x2, order='F')
 
@@ -81,7 +82,7 @@ def add(x1, x2, **kwargs):
 
         # update is real
         # TODO FIX THE EPS HERE!
-        is_real = x1.isReal & np.all(np.imag(other) < 1e-14)
+        is_real = x1.isReal & np.all(np.abs(np.imag(other)) < 1e-14)
 
         # Don't I need to do this?
         ishappy = x1.ishappy
@@ -97,40 +98,19 @@ def add(x1, x2, **kwargs):
         nf = x1.n
         no = x2.n
 
-        if out is not None:
-            if nf > no:
-                x2.prolong(nf)
-            elif nf < no:
-                x1.prolong(no)
-
-            c = out[0].coeffs
-            v = out[0].values
-            # print('out!')
-            # print('v = ', v.dtype, ' out = ', out[0].values.dtype)
-
-            oc = x2.coeffs
-            ov = x2.values
-        else:
-            # FIXME - I shouldn't need any of these silly type conversions!
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
-
-            oc = x2.coeffs
-            ov = x2.values
-            if nf > no:
-                oc, ov = prolong(oc, nf, x2.isReal)
-            elif nf < no:
-                c, v = prolong(c, no, x1.isReal)
+        # FIXME - I shouldn't need any of these silly type conversions!
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
-            # print('not out!')
+        oc = x2.coeffs
+        ov = x2.values
+        if nf > no:
+            oc, ov = prolong(oc, nf, x2.isReal)
+        elif nf < no:
+            c, v = prolong(c, no, x1.isReal)
 
         # Get the new values
-        # print('out = ', out)
-        # if out is not None:
-        #     print('out = ', out[0].values.dtype)
-        # print('ov=', ov.dtype)
-        # print('v=', v.dtype)
-        v += ov
+        v = v + ov
 
         # update is real
         is_real = x1.isReal & x2.isReal
@@ -139,10 +119,7 @@ def add(x1, x2, **kwargs):
         v[:, is_real] = np.real(v[:, is_real])
 
         # update the coefficients
-        if out is not None:
-            out[0].coeffs = vals2coeffs(v)
-        else:
-            c = vals2coeffs(v)
+        c = vals2coeffs(v)
 
         # Look for zero output - TODO check that i don't do this before updating c!
         if ~np.any(v) or ~np.any(c):
@@ -157,12 +134,10 @@ def add(x1, x2, **kwargs):
         return NotImplemented
 
     # Create the new function
+    fun = trigtech(values=v, coeffs=c, simplify=False, ishappy=ishappy, isreal=is_real)
     if out is not None:
-        out[0].ishappy = ishappy
-        out[0].isReal = is_real
-        return out[0]
-    else:
-        return trigtech(values=v, coeffs=c, simplify=False, ishappy=ishappy, isreal=is_real)
+        return assign(out[0], fun)
+    return fun
 
 def subtract(x1, x2, **kwargs):
     return add(x1, negative(x2), **kwargs)
@@ -175,13 +150,9 @@ def multiply(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            # FIXME???
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
+        # FIXME???
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
         # update coefficients
         c *= x2
@@ -226,13 +197,6 @@ def multiply(x1, x2, **kwargs):
         elif x2.n == 1 and x2.m == 1:  # x2 is a constant function
             return multiply(x1, x2.coeffs, out=out)
 
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
-
         # Get the shapes
         fn, fm = x1.shape
         gn, gm = x2.shape
@@ -296,14 +260,11 @@ def multiply(x1, x2, **kwargs):
         return NotImplemented
 
     # Create the new function
+    fun = trigtech(values=v, coeffs=c, simplify=True,
+                   ishappy=ishappy, isreal=is_real)
     if out is not None:
-        out[0].ishappy = ishappy
-        out[0].coeffs = c
-        out[0].values = v
-        return out[0]
-    else:
-        return trigtech(values=v, coeffs=c, simplify=True,
-                        ishappy=ishappy, isreal=is_real)
+        return assign(out[0], fun)
+    return fun
 
 def divide(x1, x2, **kwargs):
     return true_divide(x1, x2, **kwargs)
@@ -317,20 +278,13 @@ def true_divide(x1, x2, **kwargs):
     if isinstance(x1, Number):
         fun = trigtech(op=lambda x: np.divide(x1, x2(x)))
         if out is not None:
-            out[0].values = fun.values
-            out[0].coeffs = fun.coeffs
-            out[0].isReal = fun.isReal
-            return out[0]
+            return assign(out[0], fun)
         return fun
     elif isinstance(x1, np.ndarray):
         return NotImplemented
 
-    if out is not None:
-        c = out[0].coeffs
-        v = out[0].values
-    else:
-        c = np.copy(x1.coeffs)
-        v = np.copy(x1.values)
+    c = np.copy(x1.coeffs)
+    v = np.copy(x1.values)
 
     if isinstance(x2, Number):
         c /= x2
@@ -347,15 +301,12 @@ def true_divide(x1, x2, **kwargs):
     elif isinstance(x2, type(x1)):
         fun = trigtech(op=lambda x: np.divide(x1(x), x2(x)), minSamples=x1.n + x2.n)
         if out is not None:
-            out[0].values = fun.values
-            out[0].coeffs = fun.coeffs
-            return out[0]
+            return assign(out[0], fun)
         return fun
     else:
         return NotImplemented
 
+    fun = trigtech(coeffs=c, values=v, ishappy=x1.ishappy, isreal=x1.isReal)
     if out is not None:
-        # out[0].values = v
-        return out[0]
-    else:
-        return trigtech(coeffs=c, values=v, ishappy=x1.ishappy, isreal=x1.isReal)
+        return assign(out[0], fun)
+    return fun
-- 
2.43.0


From 6a77bd57d437342fa6224b22fe8ca297be0bb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 021/171] fix: Fourier functions can be copied with np.copy,
 and +f is a copy

---
 funpy/trig/trigtech.py | 5 +++++
 funpy/trig/ufuncs.py   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 2a26bdf..e3c4821 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -508,6 +508,11 @@ def argmax(f):
     return np.argmax(f.coeffs)
 
 
+@implements(np.copy)
+def copy(trig):
+    return deepcopy(trig)
+
+
 @implements(np.real)
 def real(trig):
     """ Returns real part of a trigtech """
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index d57c4d6..a551fec 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -29,7 +29,7 @@ def negative(x, **kwargs):
                         simplify=False, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def fabs(x, **kwargs):
     abs_values = np.abs(x.get_values())
-- 
2.43.0


From b8d6545ac5b12e40f033c4ef881e4a97415fb2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 022/171] fix: np.fabs of Fourier functions

---
 funpy/trig/ufuncs.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index a551fec..6cbe7ac 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -32,9 +32,7 @@ def positive(x, **kwargs):
     return np.copy(x)
 
 def fabs(x, **kwargs):
-    abs_values = np.abs(x.get_values())
-    return trigtech(coeffs=vals2coeffs(abs_values), values=abs_values,
-                    simplify=False, ishappy=x.ishappy, isreal=x.isReal)
+    return trigtech(op=lambda y: np.abs(x(y)))
 
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
-- 
2.43.0


From a3f09f8b7f3d5de4d79f6555bd996f8d602fed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 023/171] fix: the real part of a Fourier function with
 negative real part is not zero

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index e3c4821..2bbf7e9 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -520,7 +520,7 @@ def real(trig):
         return trig
 
     fvalues = np.real(trig.values)
-    if np.all(fvalues < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From d6ae86ff5c028e77505ea220313b10c3e261e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 024/171] fix: conjugates of complex Fourier functions are
 conjugated

---
 funpy/trig/trigtech.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 2bbf7e9..9d9e74e 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -556,14 +556,17 @@ def imag(trig):
 @implements(np.conj)
 def conj(trig):
     id = ~trig.isReal
-    if np.all(id):
+    if not np.any(id):
         return trig
 
     # other wise construct a new trigtech
     values = np.copy(trig.values)
     coeffs = np.copy(trig.coeffs)
     values[:, id] = np.conj(values[:, id])
-    coeffs[:, id] = np.flipud(np.conj(coeffs[:, id]))
+    # for even lengths the first coefficient belongs to a cosine
+    k = 1 - trig.n % 2
+    coeffs[k:, id] = np.flipud(np.conj(coeffs[k:, id]))
+    coeffs[:k, id] = np.conj(coeffs[:k, id])
     return trigtech(values=values, coeffs=coeffs, ishappy=trig.ishappy,
                     simplify=False, isreal=trig.isReal)
 
-- 
2.43.0


From 67e88c38952ece5bf14ed80480bb7d33535e87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 025/171] fix: odd derivatives of real Fourier functions of
 even length are real

---
 funpy/trig/trigtech.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 9d9e74e..8f1d8a5 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -586,6 +586,9 @@ def diff(f, n=1, axis=0):
 
     # derivative in Fourier space
     c = c * (1j * np.pi * waveNumber)**n
+    # odd derivatives of the unpaired cosine of an even length vanish on the grid
+    if n & 1 and not m & 1:
+        c[0, :] = 0
     return trigtech(coeffs=c, ishappy=f.ishappy, isreal=f.isReal, simplify=False)
 
 
-- 
2.43.0


From 69359534923cb54eb72480f490a1e684ab885ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 026/171] fix: indefinite integrals of Fourier functions

---
 funpy/trig/trigtech.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 8f1d8a5..a0e4532 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -630,7 +630,7 @@ def cumsum(f, m=1, **kwargs):
         b_k = c_k / (i pi k).
 
     """
-    c = f.coeffs
+    c = np.copy(f.coeffs)
     n = f.n
     isEven = np.remainder(n, 2) == 0
 
@@ -641,7 +641,8 @@ def cumsum(f, m=1, **kwargs):
         ind = (n+1)//2 - 1
 
     # check that the mean of the trigtech is zero. If it is not, then throw an error.
-    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.vscale*f.eps):
+    vscale = np.maximum(f.vscale, f.get_vscale())
+    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*vscale*f.eps):
         raise RuntimeError("Indefinite integrals are only possible for trigtech objects with zero mean!")
 
     # throw error that this is only possible for mean zero trigtechs
@@ -653,7 +654,7 @@ def cumsum(f, m=1, **kwargs):
         c = np.vstack((c, c[0, :]))
         highestDegree = n//2
     else:
-        c[(n+1)//2, :] = 0
+        c[ind, :] = 0
         highestDegree = (n-1)//2
 
     # TODO silence warning here!
@@ -671,7 +672,7 @@ def cumsum(f, m=1, **kwargs):
         c[n, :] = 0
 
     # fix the constant term
-    c[highestDegree+1, :] = -np.sum(c * (-1+0j)**sumIndices)
+    c[highestDegree, :] = -np.sum(c * (-1+0j)**sumIndices, axis=0)
 
     if isEven:
         c = c[:-1]
-- 
2.43.0


From f7f5a1b1d5e74fda9b84cd2632bb7bfcf0501dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 027/171] fix: integrals and 1-norms of real Fourier functions
 are real numbers

---
 funpy/trig/trigtech.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index a0e4532..346e9af 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -604,6 +604,8 @@ def sum(f, axis=0, **kwargs):
     n = f.n
     out = 2 * f.coeffs[None, floor((n+2)/2)-1, :]
     out[:, f.isReal] = np.real(out[:, f.isReal])
+    if f.isreal:
+        out = np.real(out)
     return out.squeeze()
 
 
-- 
2.43.0


From 2214ad895efccaf6d9fb22904f6b1381b5e5f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 028/171] fix: inner products of Fourier functions with
 different numbers of columns

---
 funpy/trig/trigtech.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 346e9af..8e114c7 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -700,8 +700,7 @@ def inner(trig1, trig2, weighted=False):
     # Inner product in a Hilbert space is (f, conj(g))
     out = np.matmul(fvalues.T * w, np.conj(gvalues))
 
-    # FIXME for array valued trigtechs!
-    if np.all(trig1.isReal * trig2.isReal):
+    if trig1.isreal and trig2.isreal:
         out = np.real(out)
 
     # Force non-negative output when the inputs are the same
-- 
2.43.0


From 456389cb70c7afd0b538aed42c97cc7c8a763ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 029/171] fix: the root of a linear function outside the
 interval is not reported

---
 funpy/cheb/detail.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index b8e2c36..da2c158 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -531,11 +531,11 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
     elif n == 2:
         r = [-c[0] / c[1]]
 
-        if all_roots:
-            if np.abs(np.imag(r)) > htol or (r < -(1 + htol)) or (r > (1 + htol)):
+        if not all_roots:
+            if np.abs(np.imag(r[0])) > htol or np.abs(np.real(r[0])) > 1 + htol:
                 r = []
             else:
-                r = [max(min(np.real(r), 1), -1)]
+                r = [max(min(np.real(r[0]), 1), -1)]
 
     elif n <= maxEigSize:
         # Adjust the coefficients for the colleague matrix:
-- 
2.43.0


From 90b58c8a8eb6eb0121efd6b2420ef9e9e15161e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 030/171] fix: root finding keeps its tolerance when it
 subdivides the interval

---
 funpy/cheb/detail.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index da2c158..02a44e6 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -580,8 +580,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = np.matmul(TRight[:n, :n], c)
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -600,8 +600,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = polyfit(v[n:]).squeeze()
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
-- 
2.43.0


From 319e98f0cc90a2b305bebdc6fd6ef3179478ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 031/171] fix: root finding uses the tolerance of the function

---
 funpy/cheb/detail.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 02a44e6..6e6765e 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -622,7 +622,7 @@ def roots_scalar(f, eps=1.48e-8):
     c = f.coeffs / f.vscale
 
     # call the recursive roots_main function
-    r = roots_main(c.squeeze(), 100*eps, splitPoint)
+    r = roots_main(c.squeeze(), 100*eps, splitPoint, eps=eps)
     return r
 
 def roots(f, *args, **kwargs):
-- 
2.43.0


From a63f6c7db87de873cb9ded266e45c55f2675997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 032/171] fix: roots of an array-valued function with a zero
 column

---
 funpy/cheb/detail.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 6e6765e..914f2fe 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -611,12 +611,10 @@ def roots_scalar(f, eps=1.48e-8):
     splitPoint = -0.004849834917525
 
     # Trivial case for f constant:
+    if not np.any(f.coeffs):
+        return np.asarray([0])
     if f.shape[0] == 1:
-        if f.coeffs[0, 0] == 0:
-            r = [0]
-        else:
-            r = []
-        return np.asarray(r)
+        return np.asarray([])
 
     # Get scaled coefficients for the recursive calls
     c = f.coeffs / f.vscale
-- 
2.43.0


From df5312f4a04bce23de7fb4165a5ec3309b3af366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 033/171] fix: a root at the subdivision point is reported once

---
 funpy/cheb/detail.pyx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 914f2fe..d6b386e 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -493,6 +493,15 @@ def fft_weights(double splitPoint, Py_ssize_t n=513):
     return TLeft, TRight
 
 
+def merge_roots(rLeft, rRight, tol):
+    """ Joins the roots of two neighbouring intervals, a root at their common
+        end is found in both but reported once
+    """
+    if rLeft.size > 0 and rRight.size > 0 and rRight[0] - rLeft[-1] <= tol:
+        rRight = rRight[1:]
+    return np.concatenate((rLeft, rRight))
+
+
 def roots_main(c, htol, splitPoint, eps=1.48e-8,
                all_roots=False, prune_roots=False):
     """ Computes the roots of the polynomial given by the coefficients c on
@@ -582,8 +591,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         # Recurse
         rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
         rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
-        r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
-                            (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
+        r = merge_roots((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
+                        (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight, 4*htol)
 
     else:
         # Otherwise split with Clenshaw
@@ -602,8 +611,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         # Recurse
         rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
         rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
-        r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
-                            (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
+        r = merge_roots((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
+                        (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight, 4*htol)
 
     return np.asarray(r)
 
-- 
2.43.0


From c1b5af1e6e54a5661981226adf6042a365436237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 034/171] fix: functions of a Chebyshev function are sampled
 finely enough to see it oscillate

---
 funpy/cheb/chebtech.py | 4 ++--
 funpy/cheb/ufuncs.pyx  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 81ae6ed..d4155a9 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -133,10 +133,10 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             # If we don't have a special implementation we default to evaluating by value!
             if len(inputs) == 1:
                 return chebtech(op=lambda x: numpy_ufunc(inputs[0](x)),
-                               eps=self.eps, maxLength=self.maxLength)
+                               minSamples=4 * self.n, eps=self.eps, maxLength=self.maxLength)
             elif len(inputs) == 2:
                 return chebtech(op=lambda x: numpy_ufunc(inputs[0](x), inputs[1](x)),
-                               eps=self.eps, maxLength=self.maxLength)
+                               minSamples=4 * self.n, eps=self.eps, maxLength=self.maxLength)
             else:
                 return NotImplemented
         else:
diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index a7202b1..7ed327c 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -29,7 +29,7 @@ def positive(x, **kwargs):
     return np.copy(x)
 
 def absolute(x, **kwargs):
-    return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
+    return chebtech(op=lambda y: np.abs(x(y)), minSamples=4 * x.n,
                    maxLength=2**10, eps=x.eps)
 
 def power(x1, x2, **kwargs):
@@ -41,7 +41,8 @@ def power(x1, x2, **kwargs):
         if x2 == 1.0:
             fun = np.copy(x1)
         else:
-            fun = chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
+            fun = chebtech(op=lambda x: np.float_power(x1(x), x2),
+                           minSamples=4 * x1.n, eps=x1.eps)
 
         # Deal with assignment operators
         out = kwargs.get('out', None)
-- 
2.43.0


From ffad16b1512e952b2a1cb976d89312b4658e4ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 035/171] fix: functions of a Fourier function are sampled
 finely enough to see it oscillate

---
 funpy/trig/trigtech.py |  7 ++++---
 funpy/trig/ufuncs.py   | 10 +++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 8e114c7..eaf4b6a 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -67,7 +67,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 else:   # Assume that it's a lambda -> TODO check that
                     # TODO implement this for the other parts too
                     self.__check_callable(op)
-                    refine = Refine(op=op, strategy=kwargs.pop('resample', 'nested'))
+                    refine = Refine(op=op, minSamples=min(self.maxLength, kwargs.pop('minSamples', 9)),
+                                    strategy=kwargs.pop('resample', 'nested'))
                     self.populate(refine)
 
                 # check whether the function should be real or not ???
@@ -154,10 +155,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             # If we don't have a special implementation we default to evaluating by value!
             if len(inputs) == 1:
                 op = lambda x: numpy_ufunc(inputs[0](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=4 * self.n)
             elif len(inputs) == 2:
                 op = lambda x: numpy_ufunc(inputs[0](x), inputs[1](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=4 * self.n)
             else:
                 return NotImplemented
         else:
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 6cbe7ac..05b5263 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -32,14 +32,14 @@ def positive(x, **kwargs):
     return np.copy(x)
 
 def fabs(x, **kwargs):
-    return trigtech(op=lambda y: np.abs(x(y)))
+    return trigtech(op=lambda y: np.abs(x(y)), minSamples=4 * x.n)
 
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        fun = trigtech(op=lambda x: np.power(x1, x2(x)))
+        fun = trigtech(op=lambda x: np.power(x1, x2(x)), minSamples=4 * x2.n)
     elif isinstance(x2, Number):
-        fun = trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
+        fun = trigtech(op=lambda x: np.power(x1(x), x2), minSamples=4 * x1.n)
     else:
         return NotImplemented
 
@@ -274,7 +274,7 @@ def true_divide(x1, x2, **kwargs):
     if isinstance(x1, np.ndarray) and x1.size == 1:
         x1 = x1.item()
     if isinstance(x1, Number):
-        fun = trigtech(op=lambda x: np.divide(x1, x2(x)))
+        fun = trigtech(op=lambda x: np.divide(x1, x2(x)), minSamples=4 * x2.n)
         if out is not None:
             return assign(out[0], fun)
         return fun
@@ -297,7 +297,7 @@ def true_divide(x1, x2, **kwargs):
             c /= np.tile(x2, (x1.n, 1))
             v /= np.tile(x2, (x1.n, 1))
     elif isinstance(x2, type(x1)):
-        fun = trigtech(op=lambda x: np.divide(x1(x), x2(x)), minSamples=x1.n + x2.n)
+        fun = trigtech(op=lambda x: np.divide(x1(x), x2(x)), minSamples=4 * max(x1.n, x2.n))
         if out is not None:
             return assign(out[0], fun)
         return fun
-- 
2.43.0


From 57e8d4500b696ff71aa3833a582360ac36b9b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 036/171] fix: sums cancelling to zero keep the broadcast
 number of columns

---
 funpy/cheb/ufuncs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 7ed327c..9bb94f2 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -119,7 +119,7 @@ def add(x1, x2, **kwargs):
         # If absolute coefficients are smaller than tolerance create zero function
         tol = x1.eps * np.max(np.maximum(x1.vscl(), x2.vscl()))
         if np.all(absCoeffs < 0.2 * tol):
-            c = np.zeros((1, x1.m), order='F')
+            c = np.zeros((1, c.shape[1]), order="F")
 
         # update values
         ishappy = x1.ishappy and x2.ishappy
-- 
2.43.0


From 36d76ea81a14ee83a1240483c26fb7cf168cb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 037/171] fix: shortening Fourier coefficients to an even
 length no longer changes the array passed in

---
 funpy/trig/trig_simplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index 168aae3..fb1729d 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -45,7 +45,7 @@ def prolong(coeffs, Nout, isReal=None):
     if Nout < Nin:
         kup = np.floor((Nin-Nout)/2).astype(int)
         kdown = np.ceil((Nin-Nout)/2).astype(int)
-        coeffs = coeffs[kup:-kdown, :]
+        coeffs = np.copy(coeffs[kup:-kdown, :])
         if kup < kdown:
             coeffs[0, :] = 2*coeffs[0, :]
 
-- 
2.43.0


From 9be4fbfe594a4a1d5b8e29ca6db31681a7f73a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 038/171] fix: nested loops over the columns of a function
 visit all columns

---
 funpy/fun.py           | 10 ++--------
 funpy/trig/trigtech.py | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 1c52593..02821ce 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -159,14 +159,8 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         return Fun(domain=self.domain, mapping=self.mapping, onefun=new_fun)
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.m:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        # every loop gets its own iterator, so that loops may be nested
+        return (self[i] for i in range(self.m))
 
     def __array_ufunc__(self, numpy_ufunc, method, *inputs, **kwargs):
         out = kwargs.get('out', ())
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index eaf4b6a..39b9e00 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -226,14 +226,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         return fun
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.m:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        # every loop gets its own iterator, so that loops may be nested
+        return (self[i] for i in range(self.m))
 
     def __construct_from_callable(self, callable):
         pass
-- 
2.43.0


From b1af0c24e18a605fb4ce8ce557a33559cc9f246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 039/171] fix: columns of a Fourier function keep its tolerance

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 39b9e00..2fbc7cd 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -221,7 +221,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
 
         fun = trigtech(coeffs=self.coeffs[:, None, idx],
                        values=self.values[:, None, idx], simplify=False,
-                       ishappy=self.ishappy, isreal=self.isReal)
+                       eps=self.eps, ishappy=self.ishappy)
 
         return fun
 
-- 
2.43.0


From f0f292ecdc3fcaae55d61b4958c7071234ae3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 040/171] fix: stacking functions on different intervals is
 refused

---
 funpy/fun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 02821ce..28d06b4 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -580,6 +580,10 @@ def roll(f, a):
 
 @implements(np.hstack)
 def hstack(funs):
+    for f in funs:
+        if not np.all(np.abs(np.asarray(f.domain) - np.asarray(funs[0].domain)) < SMALL_EPS):
+            raise ValueError("Domain mismatch %s != %s!" % (f.domain, funs[0].domain))
+
     nf = np.hstack([f.onefun for f in funs])
     return Fun(domain=funs[0].domain, mapping=funs[0].mapping, onefun=nf)
 
-- 
2.43.0


From a53ee28a95c2418aa77fa33171f5d4b9bf468ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 041/171] fix: restriction of Chebyshev functions to
 subintervals

---
 funpy/cheb/chebtech.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index d4155a9..94a718c 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -303,7 +303,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         s = np.asanyarray(s)
 
         # check that we really have a subinterval
-        if s[0] < -1 or s[1] > 1 or np.any(np.diff(s) <= 0):
+        if s[0] < -1 or s[-1] > 1 or np.any(np.diff(s) <= 0):
             assert False, 'Not a valid interval'
         elif s.size == 2 and np.all(s == np.asarray([-1, 1])):
             # nothing to do here
@@ -314,13 +314,11 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
         # compute values on new grid
         y = 0.5 * np.vstack((1-self.x, 1+self.x)).T @ np.vstack((s[:-1], s[1:]))  # new grid
-        values = self.feval(y.flatten())  # values on new grid
+        values = self.feval(y.flatten(order='F'))  # values on new grid
 
-        # must rearrange the order of columns
-        if m > 1:
-            numCols = m * numInts
-            index = np.reshape(np.reshape(np.arange(numCols), (numInts, m)).T, numCols)
-            values = values[:, index]
+        # rearrange into columns: all columns on the first interval, then on the second ...
+        values = np.reshape(values, (numInts, n, m)).transpose(1, 0, 2)
+        values = np.asfortranarray(np.reshape(values, (n, numInts * m)))
 
         # generate new coefficients
         coeffs = polyfit(values)
-- 
2.43.0


From eb1c0e84a50acce411caef1f34c2f729c59df6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 042/171] fix: imaginary part of Chebyshev functions

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 94a718c..898c981 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -464,7 +464,7 @@ def real(cheb):
 @implements(np.imag)
 def imag(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.imag(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.imag(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
-- 
2.43.0


From e1d6e773390f3f6e181c8b120d612fe821583ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 043/171] fix: fliplr of Chebyshev functions

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 898c981..065a5d9 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -380,7 +380,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def fliplr(self):
         """ Flip columns of an array-valued chebtech object. """
-        return chebtech(coeffs=np.fliplr(self.coeffs), eps=self.eps,
+        return chebtech(coeffs=np.asfortranarray(np.fliplr(self.coeffs)), eps=self.eps,
                        hscale=self.hscale, simplify=False,
                        ishappy=self.ishappy, maxLength=self.maxLength)
 
-- 
2.43.0


From ac7650dee077d3ca43cb0eff1aa2234b18403e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 044/171] fix: every second column of a Chebyshev function can
 be selected

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 065a5d9..5a889d3 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -221,7 +221,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx.start < 0 or idx.stop > self.m:
                 raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(idx.start, idx.stop, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, idx], eps=self.eps,
+            return chebtech(coeffs=np.asfortranarray(self.coeffs[:, idx]), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
 
-- 
2.43.0


From 9e5c036ed03906a450e1fc42edc479a1a35a3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 045/171] fix: conversion of several columns to Fourier form

---
 funpy/fun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 28d06b4..8ea6fda 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -306,7 +306,9 @@ def asfun(obj, *args, **kwargs):
         if obj.type == ftype:
             return obj
 
-        return Fun(op=lambda x: obj(x), type=ftype, domain=obj.domain, *args, **kwargs)
+        # one callable per column
+        return Fun(op=[lambda x, col=col: col(x) for col in obj], type=ftype,
+                   domain=obj.domain, *args, **kwargs)
 
     elif isinstance(obj, Number) or obj.size == 1:
         return Fun(coeffs=np.reshape(np.asarray(obj, dtype=float), (1, 1), order='F'), *args, **kwargs)
-- 
2.43.0


From 1cd2321b859ba9df0f59d208d61b546ef158e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 046/171] fix: Chebyshev and Fourier functions with the same
 coefficients are different functions

---
 funpy/cheb/chebtech.py | 2 +-
 funpy/trig/trigtech.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 5a889d3..0df9103 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -385,7 +385,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                        ishappy=self.ishappy, maxLength=self.maxLength)
 
     def __eq__(self, other):
-        return np.all(self.shape == other.shape) and np.all(self.coeffs == other.coeffs)
+        return self.type == other.type and np.all(self.shape == other.shape) and np.all(self.coeffs == other.coeffs)
 
     def compose(self, op, g=None):
         """ Returns a lambda generating the composition of the two functions """
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 2fbc7cd..a2b3277 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -471,7 +471,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         return c
 
     def __eq__(self, other):
-        return np.all(self.shape == other.shape) and \
+        return self.type == other.type and np.all(self.shape == other.shape) and \
                 np.all(self.coeffs == other.coeffs) and \
                 np.all(self.values == other.values)
 
-- 
2.43.0


From 3103e617238820555ea45b88bf9a694139106c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 047/171] fix: copies keep the horizontal scale

---
 funpy/cheb/chebtech.py | 2 +-
 funpy/trig/trigtech.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 0df9103..093ab93 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -89,7 +89,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         if _copy is None:
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index a2b3277..91b7f3b 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -113,7 +113,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
                 values=deepcopy(self.values),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 ishappy=self.ishappy,
                 isreal=self.isReal)
-- 
2.43.0


From a38c7ab989b5d13404920c30ea279b199817c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 048/171] fix: Fourier functions honour maxLength

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 91b7f3b..0c6c059 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -27,7 +27,7 @@ HANDLED_FUNCTIONS = {}
 """ Do the inheritance correctly otherwise we have all kinds of isinstance problems """
 class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
     def __init__(self, op=None, file=None, values=None, coeffs=None, *args, **kwargs):
-        self.maxLength = 4096
+        self.maxLength = kwargs.pop('maxLength', 4096)
 
         self.eps = kwargs.pop('eps', 1e-10)
         self.hscale = kwargs.pop('hscale', self.eps)
-- 
2.43.0


From daabb1438130af989609947870ff267f58ada43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 049/171] fix: samples of a real Fourier function stay real
 when it is simplified

---
 funpy/trig/trigtech.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 0c6c059..0da6781 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -402,6 +402,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
 
         # Call the simplify coefficients
         self.values, self.coeffs = simplify_coeffs(self.coeffs, self.isReal, eps=eps)
+        self.values[:, self.isReal] = np.real(self.values[:, self.isReal])
         return self
 
     def __call__(self, x):
-- 
2.43.0


From d9816c642a5f6f213c6eca8fbe03f78c910803ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 050/171] fix: conversion between Chebyshev and Fourier form is
 not aliased

---
 funpy/fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 8ea6fda..3b9764b 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -306,6 +306,9 @@ def asfun(obj, *args, **kwargs):
         if obj.type == ftype:
             return obj
 
+        # the samples have to see all of obj
+        kwargs.setdefault('minSamples', 4 * obj.n)
+
         # one callable per column
         return Fun(op=[lambda x, col=col: col(x) for col in obj], type=ftype,
                    domain=obj.domain, *args, **kwargs)
-- 
2.43.0


From a82b3401e0ecd1639ff85efacda6ad6d5ef771d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 051/171] fix: QR factorisation of a single column

---
 funpy/cheb/qr.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index deb0f5f..91d33fd 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -21,9 +21,8 @@ def qr(f, eps=1.48e-8):
 
     # If it contains only one column we simply scale
     if m == 1:
-        R = np.sqrt(f.innerproduct(f))
-        Q = f/R
-        return Q, R
+        R = np.reshape(np.sqrt(np.inner(f, f)), (1, 1))
+        return np.asfortranarray(f.coeffs / R), R
 
     tol = eps * np.max(f.vscale)
 
-- 
2.43.0


From 59dcb5af99a33432af1b7f5d23607298e1645beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 052/171] fix: QR factorisation of columns of very different or
 very large scale

---
 funpy/cheb/qr.py | 4 +---
 funpy/qr.py      | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index 91d33fd..fc3f556 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -24,8 +24,6 @@ def qr(f, eps=1.48e-8):
         R = np.reshape(np.sqrt(np.inner(f, f)), (1, 1))
         return np.asfortranarray(f.coeffs / R), R
 
-    tol = eps * np.max(f.vscale)
-
     # make discrete analog of f
     newN = 2 * max(n, m)
     # get values?
@@ -48,7 +46,7 @@ def qr(f, eps=1.48e-8):
     # call abstract QR method
     Q, R = abstractQR(A, E,
                       lambda f, g: np.dot(np.conj(f) * w, g),
-                      lambda f: LA.norm(f, ord=np.inf), tol)
+                      lambda f: LA.norm(f, ord=np.inf), eps)
 
     # compute the corresponding Chebyshev coefficients
     coeffs = polyfit(Q)
diff --git a/funpy/qr.py b/funpy/qr.py
index 9892c46..f7d24ed 100644
--- a/funpy/qr.py
+++ b/funpy/qr.py
@@ -12,8 +12,8 @@ def abstractQR(A, E, inner_product, norm, tol):
         I = np.arange(0, k-1)
         J = np.arange(k+1, numCols)
 
-        # scale
-        scl = max(norm(E[:, k]), norm(A[:, k]))
+        # scale: tolerances are relative to the size of the column
+        scl = norm(A[:, k])
 
         # Multiply the k-th column of A with the basis in E:
         ex = inner_product(E[:, k], A[:, k])
@@ -40,7 +40,7 @@ def abstractQR(A, E, inner_product, norm, tol):
 
         # normalize
         nv = np.sqrt(inner_product(v, v))
-        if nv < tol * scl:
+        if nv <= tol * scl:
             v = E[:, k]
         else:
             v /= nv
-- 
2.43.0


From f30a4d29e1cf91a4a2ef7b2352d6e2d8fbf63245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 053/171] fix: QR factorisation of functions that are not
 resolved

---
 funpy/cheb/qr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index fc3f556..2c9d949 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -50,6 +50,6 @@ def qr(f, eps=1.48e-8):
 
     # compute the corresponding Chebyshev coefficients
     coeffs = polyfit(Q)
-    return coeffs[:newN//2+1, :], R
+    return np.asfortranarray(coeffs[:newN//2+1, :]), R
     #Q = chebtec(coeffs=coeffs[:newN//2+1, :], interval=f.interval, simplify=False)
     return Q, R
-- 
2.43.0


From 2bd59ac97f96f71619f7c7b25fb73f4b4f564500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 054/171] fix: np.real of a small complex Fourier function is
 not zero

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 0da6781..c48fe3b 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -516,7 +516,7 @@ def real(trig):
         return trig
 
     fvalues = np.real(trig.values)
-    if np.all(np.abs(fvalues) < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps * trig.get_vscale()):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From ac005534f4181413b5154a9bbaf23271ad8bb35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 055/171] fix: deep copies and loaded functions keep the
 resolved flag

---
 funpy/cheb/chebtech.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 093ab93..bc11ed8 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -75,8 +75,11 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         hscale = hdf5_file.attrs["hscale"]
         maxLength = hdf5_file.attrs["maxLength"]
         ishappy = hdf5_file.attrs["ishappy"]
-        return cls(coeffs=coeffs, eps=eps, hscale=hscale, maxLength=maxLength,
+        tech = cls(coeffs=coeffs, eps=eps, hscale=hscale, maxLength=maxLength,
                    ishappy=ishappy, simplify=False)
+        # the constructor re-evaluates an unhappy flag
+        tech.ishappy = bool(ishappy)
+        return tech
 
     @classmethod
     def from_values(cls, values, *args, **kwargs):
@@ -93,6 +96,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
+            # the constructor re-evaluates an unhappy flag
+            _copy.ishappy = self.ishappy
             memo[id_self] = _copy
         return _copy
 
-- 
2.43.0


From 2c9d716cdc8211cb013d6df2d8d91d570de5318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 056/171] fix: discretisations use sparse matrices, whose
 product is the matrix product

---
 funpy/colloc/OpDiscretization.py     | 7 ++-----
 funpy/colloc/coeffsDiscretization.py | 5 +----
 funpy/colloc/ultraS/matrices.py      | 9 +++------
 funpy/colloc/ultraS/ultraS.py        | 7 ++-----
 4 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/funpy/colloc/OpDiscretization.py b/funpy/colloc/OpDiscretization.py
index 3250cf0..21a913f 100644
--- a/funpy/colloc/OpDiscretization.py
+++ b/funpy/colloc/OpDiscretization.py
@@ -5,11 +5,8 @@ import warnings
 import numpy as np
 import scipy.sparse as sps
 
-try:
-    from scipy.sparse import csr_array, csc_array
-except ImportError:
-    from scipy.sparse import csr_matrix as csr_array
-    from scipy.sparse import csc_matrix as csc_array
+from scipy.sparse import csr_matrix as csr_array
+from scipy.sparse import csc_matrix as csc_array
 
 from ..fun import Mapping
 from ..cheb import chebtech
diff --git a/funpy/colloc/coeffsDiscretization.py b/funpy/colloc/coeffsDiscretization.py
index 42b2da7..9012013 100644
--- a/funpy/colloc/coeffsDiscretization.py
+++ b/funpy/colloc/coeffsDiscretization.py
@@ -5,10 +5,7 @@ import itertools
 from copy import copy
 import numpy as np
 
-try:
-    from scipy.sparse import csr_array
-except ImportError:
-    from scipy.sparse import csr_matrix as csr_array
+from scipy.sparse import csr_matrix as csr_array
 
 from ..fun import Fun, Functional
 from ..cheb import polyval, polyfit
diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index c96261d..d71e580 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -5,12 +5,9 @@ import numpy as np
 import scipy.sparse as sps
 from functools import lru_cache
 
-try:
-    from scipy.sparse import csr_array, csc_array, lil_array
-except ImportError:
-    from scipy.sparse import csr_matrix as csr_array
-    from scipy.sparse import csc_matrix as csc_array
-    from scipy.sparse import lil_matrix as lil_array
+from scipy.sparse import csr_matrix as csr_array
+from scipy.sparse import csc_matrix as csc_array
+from scipy.sparse import lil_matrix as lil_array
 
 from scipy.sparse import spdiags, eye, issparse
 
diff --git a/funpy/colloc/ultraS/ultraS.py b/funpy/colloc/ultraS/ultraS.py
index b2ab63e..15db99e 100644
--- a/funpy/colloc/ultraS/ultraS.py
+++ b/funpy/colloc/ultraS/ultraS.py
@@ -5,11 +5,8 @@ import numpy as np
 import scipy.sparse as sps
 from scipy.sparse import eye
 
-try:
-    from scipy.sparse import csr_array, csc_array
-except ImportError:
-    from scipy.sparse import csr_matrix as csr_array
-    from scipy.sparse import csc_matrix as csc_array
+from scipy.sparse import csr_matrix as csr_array
+from scipy.sparse import csc_matrix as csc_array
 
 from ..sparse.csr import eliminate_zeros
 
-- 
2.43.0


From 409a81f3cd124d017f1401fd33afad44f84c19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 057/171] fix: deflated operators multiply with the public
 sparse product

---
 funpy/newton/FrechetDeflated.py   |  6 +++---
 funpy/newton/deflated_residual.py | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/funpy/newton/FrechetDeflated.py b/funpy/newton/FrechetDeflated.py
index 8f7e5b5..ab7bed9 100644
--- a/funpy/newton/FrechetDeflated.py
+++ b/funpy/newton/FrechetDeflated.py
@@ -50,17 +50,17 @@ class FrechetDeflated(LinearOperator):
         """
         # If no known solutions we bail and simply compute the regular part
         if self.functional is None:
-            return self.mat._mul_vector(x)
+            return self.mat.dot(x)
 
         # Compute the derivative of eta
         deta = self.functional(x)
 
         # The b here should be just F(u)
-        return self.eta * self.mat._mul_vector(x) + self.b * deta
+        return self.eta * self.mat.dot(x) + self.b * deta
 
     def _rmatvec(self, y):
         assert False, ''
-        return self.eta * self.adj._mul_vector(y)
+        return self.eta * self.adj.dot(y)
 
     def to_matrix(self):
         """ Faster than tosparse -> since whenever we are not deflating we
diff --git a/funpy/newton/deflated_residual.py b/funpy/newton/deflated_residual.py
index 51405de..dd29b88 100644
--- a/funpy/newton/deflated_residual.py
+++ b/funpy/newton/deflated_residual.py
@@ -158,14 +158,14 @@ class DeflatedResidual(LinearOperator):
         # If no known solutions we bail and simply compute the regular part
         if not self.known_solutions:
             # Apply preconditioner
-            #return self.M._mul_vector(self.prcond._matvec(c))
-            return self.M._mul_vector(c)
+            #return self.M.dot(self.prcond._matvec(c))
+            return self.M.dot(c)
 
         # Compute the derivative of eta
         deta = self.functional(c)
 
         # The b here should be just F(u)
-        return self.eta * self.M._mul_vector(c) + self.b * deta
+        return self.eta * self.M.dot(c) + self.b * deta
 
     def _rmatvec(self, x):
         """ Implements x = A^T y """
@@ -173,15 +173,15 @@ class DeflatedResidual(LinearOperator):
             self.MT = self.M.transpose()
 
         if not self.known_solutions:
-            #return self.prcond._rmatvec(self.MT._mul_vector(x))
-            return self.MT._mul_vector(x)
+            #return self.prcond._rmatvec(self.MT.dot(x))
+            return self.MT.dot(x)
 
         # Compute the derivative of eta
         deta = self.functional(x)
         assert False, 'FIXME!'
 
         # The b here should be just F(u)
-        return self.eta * self.MT._mul_vector(x) + self.b * deta
+        return self.eta * self.MT.dot(x) + self.b * deta
 
     def to_matrix(self):
         """ Faster than tosparse -> since whenever we are not deflating we
-- 
2.43.0


From ed3fc2f75a7a27560834e39a6ade44c1c817e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 058/171] fix: ultra2ultra leaves its input alone

---
 funpy/ultra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/ultra.py b/funpy/ultra.py
index 0084bd4..5da3062 100644
--- a/funpy/ultra.py
+++ b/funpy/ultra.py
@@ -92,9 +92,9 @@ def scl(lam, n):
 
 def ultra2ultra(c, lam_in, lam_out):
     n = len(c) - 1
-    c /= scl(lam_in, n)[:, None]
+    c = c / scl(lam_in, n)[:, None]
     c = jac2jac(c, lam_in - 0.5, lam_in - 0.5, lam_out - 0.5, lam_out - 0.5)
-    c *= scl(lam_out, n)[:, None]
+    c = c * scl(lam_out, n)[:, None]
 
     # FIXME!
     if c.shape[0] - 1 != n:
-- 
2.43.0


From 6843240161a693a4d2e2e2143718370786c70161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 059/171] fix: evaluation functional accepts a location

---
 funpy/colloc/ultraS/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index d71e580..e29e67a 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -180,7 +180,7 @@ def evalfun(n, location):
     # find the collocation points and create an empty functional
     x, _, v, _ = chebpts_type2(n)
     E = np.zeros((1, n))
-    E[0, :] = barymat(location, x, v)
+    E[0, :] = barymat(np.atleast_1d(location), x, v)
     return E
 
 
-- 
2.43.0


From 374748bbf5d80c7aca1c21e41f7eabd0553d31ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 060/171] fix: multiplication matrices of small functions are
 not truncated

---
 funpy/colloc/ultraS/matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index e29e67a..3d74d74 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -127,6 +127,7 @@ def multmat(k, f, lam, format=None, eps=np.finfo(float).eps):
 
         # Construct multiplication operator by a three-term recurrence
         c = c.squeeze()
+        scale = np.max(np.abs(c))
         M = c[0] * M0
         M = M + c[1] * M1
         for nn in range(c.size - 2):
@@ -134,7 +135,7 @@ def multmat(k, f, lam, format=None, eps=np.finfo(float).eps):
             M = M + c[nn+2] * M2
             M0 = M1
             M1 = M2
-            if np.all(np.abs(c[nn + 3:]) < eps):
+            if np.all(np.abs(c[nn + 3:]) < eps * scale):
                 break
 
         # Extract the sub-matrix
-- 
2.43.0


From d7442d4fffad3db336ac2f679f5b82e8b5728452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 061/171] fix: sign of the differentiated aggregation matrix

---
 funpy/colloc/trigspec/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigspec/matrices.py b/funpy/colloc/trigspec/matrices.py
index 2318ffe..e885029 100644
--- a/funpy/colloc/trigspec/matrices.py
+++ b/funpy/colloc/trigspec/matrices.py
@@ -109,7 +109,7 @@ def gen_m0(i, Rscl):
 
 def gen_m1(i, Rscl):
     return np.piecewise(i, [i == 0, (i < 0) | (i > 0)],
-                        [lambda k: 0, lambda k: (1.0 - np.cos(Rscl * k)) / (Rscl)])
+                        [lambda k: 0, lambda k: (np.cos(Rscl * k) - 1.0) / (Rscl)])
 
 def aggmat(n, m=0, rescaleFactor=1, format=None):
     """ Generates the matrix for the aggregation operator.
-- 
2.43.0


From edf267b6fcea093b054ed793414534602ee3c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 062/171] fix: Fourier multiplication matrix of a constant

---
 funpy/colloc/trigspec/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigspec/matrices.py b/funpy/colloc/trigspec/matrices.py
index e885029..668deca 100644
--- a/funpy/colloc/trigspec/matrices.py
+++ b/funpy/colloc/trigspec/matrices.py
@@ -50,7 +50,7 @@ def multmat(k, f, format=None):
     # Multiplication using a scalar is simple!
     if n == 1:
         # the function f is a scalar
-        return np.asscalar(c) * eye(k)
+        return c.item() * eye(k, format=format)
 
     # Deal with the even case
     if np.remainder(n, 2) == 0:
-- 
2.43.0


From 6ca8dac9d19d75c9e469decfabfdbd5f7ddcdd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 063/171] fix: truncation of long multipliers in the Fourier
 multiplication matrix

---
 funpy/colloc/trigspec/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/trigspec/matrices.py b/funpy/colloc/trigspec/matrices.py
index 668deca..fd4f49c 100644
--- a/funpy/colloc/trigspec/matrices.py
+++ b/funpy/colloc/trigspec/matrices.py
@@ -67,8 +67,8 @@ def multmat(k, f, format=None):
         col = np.hstack((c[Na:],    np.zeros(k-Na-1)))
         row = np.hstack((c[Na::-1], np.zeros(k-Na-1)))
     else:  # truncate
-        col = c[Na:k-Na-1]
-        row = c[Na:Na-k:-1]
+        col = c[Na:Na+k]
+        row = c[Na-k+1:Na+1][::-1]
 
     return sptoeplitz(col, row, format=format)
 
-- 
2.43.0


From 7f5b4be6cbc2a8172baa29062be8fac286255731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 064/171] fix: Fourier collocation matrices of order four and
 above

---
 funpy/colloc/trigcolloc/matrices.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/funpy/colloc/trigcolloc/matrices.py b/funpy/colloc/trigcolloc/matrices.py
index e640b95..616663d 100644
--- a/funpy/colloc/trigcolloc/matrices.py
+++ b/funpy/colloc/trigcolloc/matrices.py
@@ -5,7 +5,6 @@ import numpy as np
 from functools import lru_cache
 import scipy.sparse as sps
 import scipy.linalg as LA
-from scipy.fft import ifft, fft
 from scipy.sparse import eye, issparse
 
 from ..sparse.csr import delete_rows_csr
@@ -71,25 +70,10 @@ def diffmat(n, m=1, format=None):
         row = column[np.roll(np.arange(n)[::-1], 1)]
         D = LA.toeplitz(column, row)
 
-    elif m == 4:
-        v = np.arange(1, n)
-        csc = 1. / np.sin(0.5 * h * v)
-        cot = 1. / np.tan(0.5 * h * v)
-        if np.remainder(n, 2):  # n is odd
-            column = np.hstack(())
-        else:   # n even
-            column = np.hstack(())
-
-        column[::2] *= -1.0
-        D = LA.toeplitz(column)
-
     else:
-        if np.remainder(n, 2):  # n odd
-            column = np.hstack(())
-        else:
-            column = np.hstack(())
-
-        D = np.real(ifft(column * fft(eye(n))))
+        # higher orders are products of second and first derivatives
+        D = np.linalg.matrix_power(diffmat(n, m=2), m // 2)
+        return D @ diffmat(n, m=1) if m % 2 else D
 
     # scale from [-pi, pi) to [-1, 1)
     D *= (np.pi**m)
-- 
2.43.0


From e6c073322e0bc9f9e220d2dd5d9ea4f77f10cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 065/171] fix: sign of the third order Fourier collocation
 matrix

---
 funpy/colloc/trigcolloc/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigcolloc/matrices.py b/funpy/colloc/trigcolloc/matrices.py
index 616663d..ba6832f 100644
--- a/funpy/colloc/trigcolloc/matrices.py
+++ b/funpy/colloc/trigcolloc/matrices.py
@@ -66,7 +66,7 @@ def diffmat(n, m=1, format=None):
             csc_cot = (1. / np.sin(0.5 * v * h)**2) * (1. / np.tan(0.5 * h * v))
             column = np.hstack((0, 3./4 * csc_cot - np.pi**2 / 2 / h**2 / np.tan(0.5 * h * v)))
 
-        column[::2] *= -1.0
+        column[1::2] *= -1.0
         row = column[np.roll(np.arange(n)[::-1], 1)]
         D = LA.toeplitz(column, row)
 
-- 
2.43.0


From fe521760a760e67dc2403bc8db65f452c7f41500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 066/171] fix: a row of numbers, one per column, can be added
 to Fourier functions

---
 funpy/trig/ufuncs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 05b5263..a67ba39 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -60,15 +60,15 @@ def add(x1, x2, **kwargs):
         c = np.copy(x1.coeffs, order='F')
         v = np.copy(x1.values, order='F')
 
-        other = np.asanyarray(x2, order='F')
+        # a single number or a row of one number per column
+        other = np.ravel(x2)
+        if other.size > 1 and x1.m == 1:
+            c = np.tile(c, (1, other.size))
+            v = np.tile(v, (1, other.size))
 
         # simply add to the values
         v += other
 
-        # Update coefficients
-        if other.shape and other.shape[1] > 1 and x1.m == 1:
-            c = np.tile(x1.coeffs, (1, other.shape[1]))
-
         n = x1.n
         # determine index of constant coefficient term
         if n & 1:
-- 
2.43.0


From 21c952848fdcb2b15ea42c0a4dc6b44941e8f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 067/171] fix: changing an array of points or weights no longer
 corrupts later ones

---
 funpy/cheb/pts.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 4b42a2a..57984b2 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -4,11 +4,21 @@
 import numpy as np
 import warnings
 from scipy.fft import ifft
-from functools import lru_cache
+from functools import lru_cache, wraps
+
+
+def cached(func):
+    """ Remembers the arrays computed by func; the caller gets a copy of its own """
+    compute = lru_cache(maxsize=25)(func)
+
+    @wraps(func)
+    def wrapper(N):
+        return np.copy(compute(N))
+    return wrapper
 
 
 """ Barycentric weights """
-@lru_cache(maxsize=25)
+@cached
 def bary_weights(N):
     c = np.hstack((np.ones(N-1), 0.5))
     c[-2::-2] = -1
@@ -17,7 +27,7 @@ def bary_weights(N):
 
 
 """ Quadrature weights for Curtis-Clenshaw """
-@lru_cache(maxsize=25)
+@cached
 def quadwts(N):
     if N == 0:
         return np.empty()
@@ -75,7 +85,7 @@ def barymat(y, x, w):
         return barymat_impl(y, x, w)
 
 
-@lru_cache(maxsize=25)
+@cached
 def chebpts_type1_compute(N):
     if N == 0:
         return np.zeros(0)
@@ -85,7 +95,7 @@ def chebpts_type1_compute(N):
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * N))
 
 
-@lru_cache(maxsize=25)
+@cached
 def chebpts_type2_compute(N):
     if N == 0:
         return np.zeros(0)
-- 
2.43.0


From 9d23816179de681c5431f9f384f50b5cf30469d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 068/171] fix: one-point grids are scaled to the interval, and
 there are zero weights for zero points

---
 funpy/cheb/pts.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 57984b2..871dad1 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -30,7 +30,7 @@ def bary_weights(N):
 @cached
 def quadwts(N):
     if N == 0:
-        return np.empty()
+        return np.empty(0)
     elif N == 1:
         return np.array([2.])
 
@@ -114,8 +114,11 @@ def chebpts_type1(N, interval=None):
         v = []
         t = []
     elif N == 1:
-        x = [0]
-        w = [2]
+        x = np.zeros(1)
+        w = 2. * np.ones(1)
+        if interval is not None:
+            x = scaleNodes(x, interval)
+            w = scaleWeights(w, interval)
         v = [1]
         t = [0.5 * np.pi]
     else: # general case
@@ -148,8 +151,11 @@ def chebpts_type2(N, interval=None):
         v = []
         t = []
     elif N == 1:
-        x = [0]
-        w = [2]
+        x = np.zeros(1)
+        w = 2. * np.ones(1)
+        if interval is not None:
+            x = scaleNodes(x, interval)
+            w = scaleWeights(w, interval)
         v = [1]
         t = [0.5 * np.pi]
     else: # general case
-- 
2.43.0


From ec3cef58b9ed9c1ec7e14d69713416ca046b7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 069/171] fix: first kind points come with their own quadrature
 weights, barycentric weights and angles

---
 funpy/cheb/pts.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 871dad1..c3ab4ac 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -26,6 +26,25 @@ def bary_weights(N):
     return c
 
 
+""" Barycentric weights for first kind points """
+@cached
+def bary_weights_type1(N):
+    v = np.sin(np.pi * (2. * np.arange(N)[::-1] + 1) / (2. * N))
+    v[-2::-2] *= -1
+    return v
+
+
+""" Quadrature weights (Fejer's first rule) for first kind points """
+@cached
+def quadwts_type1(N):
+    m = 2./np.hstack((1, 1 - np.arange(2, N, 2)**2))
+    if N % 2:
+        c = np.hstack((m, -m[1:][::-1]))
+    else:
+        c = np.hstack((m, 0, -m[1:][::-1]))
+    return ifft(c * np.exp(1j * np.pi * np.arange(N) / N)).real
+
+
 """ Quadrature weights for Curtis-Clenshaw """
 @cached
 def quadwts(N):
@@ -124,20 +143,19 @@ def chebpts_type1(N, interval=None):
     else: # general case
         x = chebpts_type1_compute(N)
 
-        # FIXME!
         if interval is not None:
             x = scaleNodes(x, interval)
 
         # quadrature weights
-        w = quadwts(N)
+        w = quadwts_type1(N)
         if interval is not None:
             w = scaleWeights(w, interval)
 
         # barycentric weights
-        v = bary_weights(N)
+        v = bary_weights_type1(N)
 
         # angles
-        t = np.pi * np.flip(np.arange(0, N, 1)) / (N - 1)
+        t = np.pi * (np.flip(np.arange(0, N, 1)) + 0.5) / N
 
     return np.asarray(x), np.asarray(w), np.asarray(v), np.asarray(t)
 
-- 
2.43.0


From d5af5f4dd0694497ed7b7ceb3baf98c18caa18bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 070/171] fix: chebpts(n) returns the n points asked for

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index bc11ed8..4137810 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -266,7 +266,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def chebpts(self, n=None):
         if n is None: n = self.n
-        return chebpts_type2_compute(self.n)
+        return chebpts_type2_compute(n)
 
     def get_values(self):
         return polyval(self.coeffs)
-- 
2.43.0


From d8b0aecb83652a9b9d3f980acade6fa46baf0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 071/171] fix: the differentiation matrix of a single point is
 1 x 1

---
 funpy/cheb/diff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/diff.py b/funpy/cheb/diff.py
index 64dbc27..952cbc8 100644
--- a/funpy/cheb/diff.py
+++ b/funpy/cheb/diff.py
@@ -35,12 +35,13 @@ def diffmat(x, k=1):
 
     if N == 0:
         return None
-    elif N == 1:
-        return np.zeros((0, 0))
 
     if k == 0:
         return np.eye(N)
 
+    if N == 1:
+        return np.zeros((1, 1))
+
     # get the barycentric weights
     w = bary_weights(N)
 
-- 
2.43.0


From 651609af05b05666d49cfd545902ddf66d134327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 072/171] fix: collocated functions can be evaluated at several
 points

---
 funpy/colloc/chebcolloc/chebcolloc2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/chebcolloc/chebcolloc2.py b/funpy/colloc/chebcolloc/chebcolloc2.py
index a1ee7f9..cf130fa 100644
--- a/funpy/colloc/chebcolloc/chebcolloc2.py
+++ b/funpy/colloc/chebcolloc/chebcolloc2.py
@@ -43,8 +43,8 @@ class chebcolloc2(valsDiscretization):
             represented by a colloc directization at the given point loc
         """
         locations = np.atleast_1d(locations)
-        assert locations >= self.domain[0] and locations <= self.domain[1], \
-                'Evaluation point %.4g must be inside the domain %s!' % (locations, self.domain)
+        assert np.all(locations >= self.domain[0]) and np.all(locations <= self.domain[1]), \
+                'Evaluation points %s must be inside the domain %s!' % (locations, self.domain)
         return barymat(locations, self.x, self.v)
 
     def functionPoints(self):
-- 
2.43.0


From 8d5138f3ff523f4da829b9b69a6f29f1fc6789db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 073/171] fix: making a functional of a function leaves the
 function as it was

---
 funpy/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/functional.py b/funpy/functional.py
index 75f07c7..9d7f5fd 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -19,7 +19,7 @@ class Functional:
 
         n = kwargs.pop('n', None)
         if n is not None:
-            function = function.prolong(n)
+            function = np.copy(function).prolong(n)
 
         if weighted:
             self.coeffs = np.asarray(function)
-- 
2.43.0


From b8ef2dc9aefa1bc1d85e6debed7f6893e8ee9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 074/171] fix: large sparse Toeplitz matrices keep their first
 off-diagonal when the main one is zero

---
 funpy/colloc/ultraS/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index 82053d8..a115a3d 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -40,8 +40,9 @@ def sptoeplitz_fast(col, format=None):
         ic, jc, sc = find(col)
 
         # use spdiags for construction
-        d = np.hstack((ic[1:], -ic))
-        B = np.tile(np.hstack((sc[1:], sc)), (n, 1)).T
+        up = ic > 0
+        d = np.hstack((ic[up], -ic))
+        B = np.tile(np.hstack((sc[up], sc)), (n, 1)).T
         T = spdiags(B, d, n, n, format=format)
 
     return T
-- 
2.43.0


From 2fc103b4e18598925acb5ad2d81aa5f62624be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 075/171] fix: building a large sparse Toeplitz matrix leaves
 its first row as it was

---
 funpy/colloc/ultraS/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index a115a3d..4ca18b9 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -69,7 +69,7 @@ def sptoeplitz(col, row, format=None):
     else:
         # locate non-zero diagonals
         ic, jc, sc = find(col)
-        row[0] = 0  # not used
+        row = np.hstack((0, row[1:]))  # row[0] is not used
         ir, jr, sr = find(row)
 
         # use spdiags for construction
-- 
2.43.0


From 4f510a23a35f2f6763d048b52edcd1180fdd9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 076/171] fix: deleting a row of a sparse matrix drops the
 right column indices

---
 funpy/colloc/sparse/csr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 704e974..0cf8bb0 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -26,7 +26,7 @@ def delete_row_csr(mat, i):
         mat.data[mat.indptr[i]:-n] = mat.data[mat.indptr[i+1]:]
         mat.data = mat.data[:-n]
         mat.indices[mat.indptr[i]:-n] = mat.indices[mat.indptr[i+1]:]
-        mat.indices = mat.indices[i+1:]
+        mat.indices = mat.indices[:-n]
     mat.indptr[i:-1] = mat.indptr[i+1:]
     mat.indptr[i:] -= n
     mat.indptr = mat.indptr[:-1]
-- 
2.43.0


From fb349be07920062c89b62b9320cbc668c985ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 077/171] fix: deleting columns of a sparse matrix leaves the
 matrix handed in as it was

---
 funpy/colloc/sparse/csc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index f2c5ceb..4314f99 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -35,15 +35,15 @@ def delete_col_csc(mat, i):
 
 def delete_cols_csc(mat, indices):
     """
-        Deletes rows in indices from a csc sparse matrix
+        Deletes columns in indices from a csc sparse matrix
     """
     if not isinstance(mat, sps.csc_matrix):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     if not (isinstance(indices, list) or isinstance(indices, np.ndarray)):
         indices = [indices]
-    for index in sorted(indices, reverse=True):
-        delete_col_csc(mat, index)
-    return mat
+    mask = np.ones(mat.shape[1], dtype=bool)
+    mask[indices] = False
+    return mat[:, mask]
 
 
 def eliminate_zeros_csc(mat, eps=None):
-- 
2.43.0


From ffa5162d54874523841ab085123c8b1f4fc4f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 078/171] fix: sparse Toeplitz matrices that are not square

---
 funpy/colloc/ultraS/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index 4ca18b9..73e8c73 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -58,10 +58,10 @@ def sptoeplitz(col, row, format=None):
             Ic = np.nonzero(col.squeeze())[0]
             Ir = np.nonzero(row.squeeze())[0]
             if Ic == 0:
-                T = spdiags(col[Ic] * np.ones(m), 0, m, n, format=format)
+                T = spdiags(col[Ic] * np.ones(n), 0, m, n, format=format)
             else:
                 # Diagonals are stored row-wise in the first argument!
-                T = spdiags(np.vstack((col[Ic] * np.ones(m), row[Ir] * np.ones(n))),
+                T = spdiags(np.vstack((col[Ic] * np.ones(n), row[Ir] * np.ones(n))),
                             np.hstack((-Ic, Ir)), m, n, format=format)
         else:
             T = LA.toeplitz(col, row)
@@ -74,7 +74,7 @@ def sptoeplitz(col, row, format=None):
 
         # use spdiags for construction
         d = np.hstack((ir, -ic))
-        B = np.tile(np.hstack((sr, sc)), (min(m, n), 1)).T
+        B = np.tile(np.hstack((sr, sc)), (n, 1)).T
         T = spdiags(B, d, m, n, format=format)
 
     return T
-- 
2.43.0


From 34d39b570b6721c3fd35bfdaa93cb88562f37d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 079/171] fix: reordering the rows or columns of a
 coordinate-format matrix leaves it as it was

---
 funpy/colloc/sparse/csc.py | 2 +-
 funpy/colloc/sparse/csr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index 4314f99..13ae16b 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -64,7 +64,7 @@ def eliminate_zeros_csc(mat, eps=None):
 
 def flip_cols(mat, idenCols):
     """ Flips column in a sparse matrix: idenCols must be the order of the new columns """
-    x = mat.tocoo()
+    x = mat.tocoo(copy=True)
     idenCols = np.argsort(idenCols)
     idenCols = np.asarray(idenCols, dtype=x.col.dtype)
     x.col = idenCols[x.col]
diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 0cf8bb0..265d83b 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -63,7 +63,7 @@ def eliminate_zeros(mat, eps=None):
 
 def flip_rows(mat, idenRows):
     """ Flips row in a sparse matrix: idenRows must be the order of the new rows """
-    x = mat.tocoo()
+    x = mat.tocoo(copy=True)
     idenRows = np.argsort(idenRows)
     idenRows = np.asarray(idenRows, dtype=x.row.dtype)
     x.row = idenRows[x.row]
-- 
2.43.0


From 6bb8be75c7ee8e1479cee5f0a2321a42d95f118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 080/171] fix: results of state arithmetic keep the weights and
 have their own namespace

---
 funpy/vectorspaces/base_state.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 42cb9f4..3856649 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -248,7 +248,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 funcs=deepcopy(self.funcs, memo),
                 reals=deepcopy(self.reals, memo),
-                weights=self.weights,
+                weights=deepcopy(self.weights, memo),
                 ns=deepcopy(self.ns, memo))
             memo[id_self] = _copy
         return _copy
@@ -306,11 +306,16 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                     tlist = [x.funcs[i] if isinstance(x, type(self)) else x for x in inputs]
                     nfuncs[i] = numpy_ufunc(*tlist)
 
-                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns)
+                return like(self, nfuncs, nreals)
         else:
             return NotImplemented
 
 
+def like(state, funcs, reals):
+    """ A state with the type, weights and namespace of the given one """
+    return type(state)(funcs=funcs, reals=reals, weights=np.copy(state.weights), ns=deepcopy(state.ns))
+
+
 def implements(np_function):
     """ Register an __array_function__ implementation """
     def decorator(func):
@@ -330,7 +335,7 @@ def zeros_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.zeros_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return like(state, funcs, reals)
 
 
 @implements(np.ones_like)
@@ -344,7 +349,7 @@ def ones_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.ones_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return like(state, funcs, reals)
 
 
 @implements(np.dot)
-- 
2.43.0


From 3524922d2a85ad1b54dd2359aea4abbc3110941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 081/171] fix: real and imaginary parts and conjugates of
 states with different numbers of functions and parameters

---
 funpy/vectorspaces/base_state.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 3856649..61a3820 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -407,13 +407,13 @@ def real(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.real(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.real(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return like(state, nfuncs, nreals)
 
 
 @implements(np.imag)
@@ -422,13 +422,13 @@ def imag(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.imag(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.imag(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return like(state, nfuncs, nreals)
 
 
 @implements(np.conj)
@@ -437,13 +437,13 @@ def conj(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.conj(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.conj(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return like(state, nfuncs, nreals)
 
 
 @implements(np.sum)
-- 
2.43.0


From 6a240cfc5bca25ed33840918753636417673424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 082/171] fix: weighted inner product of states

---
 funpy/vectorspaces/base_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 61a3820..d7f4c82 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -7,7 +7,8 @@ from numbers import Number
 
 import numpy as np
 
-from ..fun import norm2, minandmax, innerw
+from ..fun import norm2, minandmax
+from ..fun import innerw as fun_innerw
 from .namespace import Namespace
 from .parameter import Parameter
 
@@ -392,7 +393,7 @@ def innerw(state1, state2):
     inner = 0.0
     n, m = state1.fshape
     for i in range(n):
-        ip = state1.weights[i] * innerw(state1.funcs[i], state2.funcs[i])
+        ip = state1.weights[i] * fun_innerw(state1.funcs[i], state2.funcs[i])
         inner += np.sum(ip)
 
     for i in range(m):
-- 
2.43.0


From 1fb9e5cd317c48f6fa97ec7cce2d9369d55fd6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 083/171] fix: parameters enter the norm of a state with their
 absolute value

---
 funpy/vectorspaces/base_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index d7f4c82..534708b 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -139,7 +139,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             norm += self.weights[i] * norm_function(function, p=p, **kwargs)
 
         for i, real in enumerate(self.reals, start=len(self.funcs)):
-            norm += self.weights[i] * float(real**p)
+            norm += self.weights[i] * abs(real.value)**p
 
         return np.power(norm, 1. / p)
 
-- 
2.43.0


From ba443a757ef36266e55198ebdd3ccb18afb888fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 084/171] fix: nested loops over the functions of a state

---
 funpy/vectorspaces/base_state.py | 10 ++--------
 funpy/vectorspaces/mp_state.py   |  3 ---
 2 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 534708b..91eb9ed 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -228,14 +228,8 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
         return self.funcs[idx // m][idx % m]
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.columns:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        for i in range(self.columns):
+            yield self[i]
 
     def __setitem__(self, key, value):
         # TODO: this is not elegant at all; and setitem and getitem do
diff --git a/funpy/vectorspaces/mp_state.py b/funpy/vectorspaces/mp_state.py
index 2fc8f56..f52cf1a 100644
--- a/funpy/vectorspaces/mp_state.py
+++ b/funpy/vectorspaces/mp_state.py
@@ -40,9 +40,6 @@ class MoorePenroseState(np.lib.mixins.NDArrayOperatorsMixin):
     def __iter__(self):
         return iter(self.u)
 
-    def __next__(self):
-        return next(self.u)
-
     def __getattr__(self, name):
         """ Delegate lookup of some symbols to the underlying function objects """
         if not hasattr(self.u, name):
-- 
2.43.0


From 86ec1c5f9272e3b344f69acfe1533a3803e3f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 085/171] fix: a state's own parameters are all removed from
 its namespace

---
 funpy/vectorspaces/base_state.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 91eb9ed..7526bec 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -63,12 +63,9 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
 
     def sync_ns(self):
         # Remove reals[0] name from ns
-        try:
-            # Delete the names of the parameters from the namespace!
-            for r in self.reals:
-                del self.ns[r.name]
-        except KeyError:
-            pass
+        # Delete the names of the parameters from the namespace!
+        for r in self.reals:
+            self.ns.pop(r.name, None)
 
     @property
     def number_real(self):
-- 
2.43.0


From fa8cca821200984505dc5cc631619a5b77a1ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 086/171] fix: states can be copied with copy.copy

---
 funpy/vectorspaces/base_state.py | 2 +-
 funpy/vectorspaces/mp_state.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 7526bec..e3d4964 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -247,7 +247,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
 
     def __getattr__(self, name):
         """ Delegate lookup of some symbols to the underlying function objects """
-        if not all([hasattr(f, name) for f in self.funcs]):
+        if name == 'funcs' or not all([hasattr(f, name) for f in self.funcs]):
             raise AttributeError(name)
         attr = [getattr(f, name) for f in self.funcs]
         # If we have a single element -> return the element directly!
diff --git a/funpy/vectorspaces/mp_state.py b/funpy/vectorspaces/mp_state.py
index f52cf1a..79d0dea 100644
--- a/funpy/vectorspaces/mp_state.py
+++ b/funpy/vectorspaces/mp_state.py
@@ -42,7 +42,7 @@ class MoorePenroseState(np.lib.mixins.NDArrayOperatorsMixin):
 
     def __getattr__(self, name):
         """ Delegate lookup of some symbols to the underlying function objects """
-        if not hasattr(self.u, name):
+        if name == 'u' or not hasattr(self.u, name):
             raise AttributeError(name)
         return getattr(self.u, name)
 
-- 
2.43.0


From d3118c337c246f7d681875610f716f29b072f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 087/171] fix: namespaces can be made from mappings and pairs

---
 funpy/vectorspaces/namespace.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/vectorspaces/namespace.py b/funpy/vectorspaces/namespace.py
index 420b288..0952c81 100644
--- a/funpy/vectorspaces/namespace.py
+++ b/funpy/vectorspaces/namespace.py
@@ -4,8 +4,7 @@
 
 class Namespace(dict):
     def __init__(self, *args, **kwargs):
-        for k, v in kwargs.items():
-            self[k] = v
+        super().__init__(*args, **kwargs)
 
     @classmethod
     def from_hdf5(cls, hdf5_file):
-- 
2.43.0


From 1972e3c91e75f4ec874529e0208b12ccb800c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 088/171] fix: truth value of a parameter, and so of
 comparisons between parameters

---
 funpy/vectorspaces/parameter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/vectorspaces/parameter.py b/funpy/vectorspaces/parameter.py
index 5ee1dd2..d30f562 100644
--- a/funpy/vectorspaces/parameter.py
+++ b/funpy/vectorspaces/parameter.py
@@ -39,6 +39,9 @@ class Parameter(np.lib.mixins.NDArrayOperatorsMixin):
     def __int__(self):
         return int(self.value)
 
+    def __bool__(self):
+        return bool(self.value)
+
     def __float__(self):
         return float(self.value)
 
-- 
2.43.0


From 8c56c6cfede481de40b5a6e5c7caf0b03f7a8dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 089/171] fix: adding to a Chebyshev function in place leaves
 the function added as it was

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 9bb94f2..1b5c186 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -93,12 +93,12 @@ def add(x1, x2, **kwargs):
         no = x2.n
 
         if out is not None:
+            oc = x2.coeffs
             if nf > no:
-                x2.prolong(nf)
+                oc = detail.prolong(oc, nf)
             elif nf < no:
                 x1.prolong(no)
             c = out[0].coeffs
-            oc = x2.coeffs
         else:
             c = np.copy(x1.coeffs, order='F')
             oc = x2.coeffs
-- 
2.43.0


From 014657acfeb032f9a4ac7f5889d188c374c174f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 090/171] fix: numpy functions of Chebyshev functions with an
 output argument

---
 funpy/cheb/ufuncs.pyx | 16 +++++++++++++++-
 funpy/fun.py          |  3 ++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 1b5c186..874d136 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -17,6 +17,15 @@ from ..trig.trigtech import trigtech
 from . cimport detail
 
 
+def assign(x, fun):
+    """ The assignment forms of the operators: x becomes fun """
+    if not isinstance(x, chebtech) or not isinstance(fun, chebtech):
+        return fun
+    x.coeffs = fun.coeffs
+    x.ishappy = fun.ishappy
+    x.eps = fun.eps
+    return x
+
 def negative(x, **kwargs):
     # Create the new function
     if not isinstance(x, chebtech):
@@ -59,6 +68,9 @@ def add(x1, x2, **kwargs):
         return add(x2, x1, **kwargs)
 
     out = kwargs.get('out', None)
+    if out is not None and out[0] is not x1:
+        return assign(out[0], add(x1, x2))
+
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
         if out is not None:
@@ -302,7 +314,9 @@ def true_divide(x1, x2, **kwargs):
             return NotImplemented
 
     # We know must have that x1 is a chebtech object.
-    if out is not None:
+    if out is not None and out[0] is not x1:
+        return assign(out[0], true_divide(x1, x2))
+    elif out is not None:
         c = out[0].coeffs
     else:
         c = np.copy(x1.coeffs)
diff --git a/funpy/fun.py b/funpy/fun.py
index 3b9764b..0ed9e8d 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -177,7 +177,8 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
             out = kwargs.pop('out', None)
             ipts = [x.onefun if isinstance(x, type(self)) else x for x in inputs]
             if out is not None:
-                numpy_ufunc(*ipts, out=out[0].onefun, **kwargs)
+                # not every function stores its result by itself
+                out[0].onefun = numpy_ufunc(*ipts, out=out[0].onefun, **kwargs)
                 return out[0]
             else:
                 new_fun = numpy_ufunc(*ipts, **kwargs)
-- 
2.43.0


From e001ff4314ba26a745ec729bbd0f22a7ebfbcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 091/171] fix: bordered null solves with a singular block
 satisfy the last row

---
 funpy/linalg/bem_solve.py | 4 ++--
 funpy/linalg/brd_solve.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/bem_solve.py b/funpy/linalg/bem_solve.py
index 5bde1e2..c21c348 100644
--- a/funpy/linalg/bem_solve.py
+++ b/funpy/linalg/bem_solve.py
@@ -193,12 +193,12 @@ class BEM:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_singular_adj(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((psi, 0))
+        return np.hstack((psi / np.dot(self.c, psi), 0))
 
     def solve_null(self):
         return self.solve_null_singular() if self.is_singular else self.solve_null_nonsing()
diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index 863e903..05a743d 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -140,7 +140,7 @@ class BMatrix:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_nonsingular(self):
         # Prepare
-- 
2.43.0


From 89fb60a3394378937315a0ef68188cbc8cbcf33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 092/171] fix: right and left null vectors from the LU
 decomposition with full pivoting

---
 funpy/linalg/nullspace.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index f485dd0..007d59c 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -39,10 +39,10 @@ def null_vector(A, right=True, left=False, normalize=True):
         phi[:m-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Ustar = nu = u
-        spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        phi[:m-1] = spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False)
 
-        # now to compute phi we have to multiply by Q
-        phi = phi[Q]  # Q.dot(phi)
+        # now to compute phi we have to multiply by Q: entry j belongs to column Q[j] of A
+        phi = phi[np.argsort(Q)]
 
         if normalize:
             phi /= np.linalg.norm(phi, ord=2)
@@ -53,14 +53,14 @@ def null_vector(A, right=True, left=False, normalize=True):
 
         # Solve for the left null-vector
         # Create the correct right hand side for the backwards solve
-        L_dual = L.getH()
+        L_dual = L.getH().tocsr()
         psi[:m-1] = L_dual.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Lstar w = l
-        spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        psi[:m-1] = spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False)
 
-        # now to compute psi we have to multiply by P^-1
-        psi = P.T.dot(psi)
+        # now to compute psi we have to multiply by P^-1: entry i belongs to row P[i] of A
+        psi = psi[np.argsort(P)]
 
         if normalize:
             psi /= np.linalg.norm(psi, ord=2)
-- 
2.43.0


From a04665df6a8465961fdd6a57189dec32f53262cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 093/171] fix: LU decomposition with full pivoting leaves its
 matrix as it was

---
 funpy/linalg/lucp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/linalg/lucp.py b/funpy/linalg/lucp.py
index 698f92f..e005925 100644
--- a/funpy/linalg/lucp.py
+++ b/funpy/linalg/lucp.py
@@ -30,6 +30,9 @@ def lucp(A, tol=1e-8, full=False, format='csr'):
     else:
         dtype = A.dtype
 
+    # the elimination below works in place
+    A = A.copy()
+
     # pivot vectors
     p = np.arange(0, n, 1, dtype=np.int64)
     q = np.arange(0, m, 1, dtype=np.int64)
-- 
2.43.0


From 398e4e30dc5964b0319fdfc2ad636875273a9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 094/171] fix: bordered solves through LU factors apply the row
 and column permutations consistently

---
 funpy/linalg/brd_solve.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index 05a743d..a082df1 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -233,7 +233,7 @@ def brd_solve_detail(lu, b, c, d, rhs, verify=True):
     psi[:m-1] = LAS.spsolve_triangular(L.getH()[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True)
 
     # Apply permutation
-    psi = permutation(psi, perm_r)
+    psi = psi[perm_r]
 
     if verify:
         print('yA = ', np.max(np.abs(A.T @ psi)))
@@ -247,14 +247,14 @@ def brd_solve_detail(lu, b, c, d, rhs, verify=True):
     xp[:] -= c * z
 
     # Back-substitute
-    xp[:]    = LAS.spsolve_triangular(L, xp[perm_r], lower=True, overwrite_b=True)
+    xp[:]    = LAS.spsolve_triangular(L, permutation(xp, perm_r), lower=True, overwrite_b=True)
 
     # Assemble the particular solution
     xp[:n-1] = LAS.spsolve_triangular(U[:n-1, :m-1], xp[:n-1], lower=False, overwrite_b=True)
     xp[n-1]  = 0.0
 
     # Apply permutation matrix
-    xp = permutation(xp, perm_r)
+    xp = xp[perm_c]
 
     # Step 5: Compute the solution using the bordering technique
     alpha = (rhs[-1] - d * z - np.dot(b, xp)) / np.dot(b, phi)
@@ -309,7 +309,7 @@ def brd_solve(lu, b, c, d, rhs, verify=True):
     psi[:m-1] = LAS.spsolve_triangular(L.getH()[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True)
 
     # Apply permutation
-    psi = permutation(psi, perm_r)
+    psi = psi[perm_r]
 
     if verify:
         print('yA = ', np.max(np.abs(A.T @ psi)))
@@ -323,14 +323,14 @@ def brd_solve(lu, b, c, d, rhs, verify=True):
     xp[:] -= c * z
 
     # Back-substitute
-    xp[:]    = LAS.spsolve_triangular(L, xp[perm_r], lower=True, overwrite_b=True)
+    xp[:]    = LAS.spsolve_triangular(L, permutation(xp, perm_r), lower=True, overwrite_b=True)
 
     # Assemble the particular solution
     xp[:n-1] = LAS.spsolve_triangular(U[:n-1, :m-1], xp[:n-1], lower=False, overwrite_b=True)
     xp[n-1]  = 0.0
 
     # Apply permutation matrix
-    xp = permutation(xp, perm_r)
+    xp = xp[perm_c]
 
     # Step 5: Compute the solution using the bordering technique
     alpha = (rhs[-1] - d * z - np.dot(b, xp)) / np.dot(b, phi)
@@ -425,7 +425,7 @@ def solve_sing(lu, b, c, d, A=None):
     psi[:m-1] = LAS.spsolve_triangular(L.getH()[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True)
 
     # Apply permutation
-    psi = permutation(psi, perm_r)
+    psi = psi[perm_r]
 
     # Step 4: Compute a particular solution of system 1
     #
@@ -449,14 +449,14 @@ def solve_sing(lu, b, c, d, A=None):
     xp[:]  -= c * z
 
     # Back-substitute
-    xp[:]    = LAS.spsolve_triangular(L, xp[perm_r], lower=True, overwrite_b=True)
+    xp[:]    = LAS.spsolve_triangular(L, permutation(xp, perm_r), lower=True, overwrite_b=True)
 
     # Assemble the particular solution
     xp[:n-1] = LAS.spsolve_triangular(U[:n-1, :m-1], xp[:n-1], lower=False, overwrite_b=True)
     xp[n-1]  = 0.0
 
     # Apply permutation matrix
-    xp = permutation(xp, perm_r)
+    xp = xp[perm_c]
 
     # Step 5: Compute the solution using the bordering technique
     alpha = (1.0 - d * z - np.dot(b, xp)) / np.dot(b, phi)
@@ -474,8 +474,11 @@ class LUCP:
         l, u, p, q = lucp(A)
         self.L = l
         self.U = u
-        self.perm_c = q
-        self.perm_r = p
+
+        # The permutations are stored as in SuperLU: row i of A is row
+        # perm_r[i] and column j of A is column perm_c[j] of L U.
+        self.perm_c = np.argsort(q)
+        self.perm_r = np.argsort(p)
 
     @property
     def shape(self):
-- 
2.43.0


From f24c698df22c3a40e2a390786dbc2bc0990123cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 095/171] fix: bordered solve for a singular block needs only
 its factors

---
 funpy/linalg/brd_solve.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index a082df1..8c752ca 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -191,7 +191,7 @@ def solve(A, b, c, d, f):
     return x
 
 
-def brd_solve_detail(lu, b, c, d, rhs, verify=True):
+def brd_solve_detail(lu, b, c, d, rhs, verify=True, A=None):
     """
         Solve the system:
 
@@ -202,7 +202,7 @@ def brd_solve_detail(lu, b, c, d, rhs, verify=True):
         when the matrix A is rank 1 deficient. In this case
         z is expected to be zero if A is singular.
     """
-    n, m = A.shape
+    n, m = lu.shape
 
     # make available
     L = lu.L
@@ -221,7 +221,7 @@ def brd_solve_detail(lu, b, c, d, rhs, verify=True):
     # Apply permutation
     phi = phi[perm_c]
 
-    if verify:
+    if verify and A is not None:
         print('Ax = ', np.max(np.abs(A @ phi)))
 
     # Step 3: Compute left null-vector
@@ -235,7 +235,7 @@ def brd_solve_detail(lu, b, c, d, rhs, verify=True):
     # Apply permutation
     psi = psi[perm_r]
 
-    if verify:
+    if verify and A is not None:
         print('yA = ', np.max(np.abs(A.T @ psi)))
 
     # Step 4: Compute a particular solution of A
@@ -267,7 +267,7 @@ def brd_solve_detail(lu, b, c, d, rhs, verify=True):
     return rhs, phi, psi
 
 
-def brd_solve(lu, b, c, d, rhs, verify=True):
+def brd_solve(lu, b, c, d, rhs, verify=True, A=None):
     """
         Solve the system:
 
@@ -278,7 +278,7 @@ def brd_solve(lu, b, c, d, rhs, verify=True):
         when the matrix A is rank 1 deficient. In this case
         z is expected to be zero if A is singular.
     """
-    n, m = A.shape
+    n, m = lu.shape
 
     # make available
     L = lu.L
@@ -297,7 +297,7 @@ def brd_solve(lu, b, c, d, rhs, verify=True):
     # Apply permutation
     phi = phi[perm_c]
 
-    if verify:
+    if verify and A is not None:
         print('Ax = ', np.max(np.abs(A @ phi)))
 
     # Step 3: Compute left null-vector
@@ -311,7 +311,7 @@ def brd_solve(lu, b, c, d, rhs, verify=True):
     # Apply permutation
     psi = psi[perm_r]
 
-    if verify:
+    if verify and A is not None:
         print('yA = ', np.max(np.abs(A.T @ psi)))
 
     # Step 4: Compute a particular solution of A
-- 
2.43.0


From 737351ef644d579fba20a59fded8f7a6d59d979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 096/171] fix: null solves of a bordered matrix and its
 transpose with a singular or negative last pivot

---
 funpy/linalg/brd_solve.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index 8c752ca..53703d7 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -605,10 +605,13 @@ def brd_null(A, b, c, d, eps=1e-4, verify=True):
     n, m = A.shape
 
     # Step 1: Compute LU decomposition
-    lu = LAS.splu(A)
+    lu = LUCP(A.toarray())
+
+    is_singular = abs(lu.U[n-1, n-1]) < eps
+    if is_singular:
+        return solve_sing(lu, b, c, d), solve_sing(LUCP(A.T.toarray()), c, b, d)
 
-    is_singular = lu.U[n-1, n-1] < eps
-    return solve_null_sing(lu, b, c, d) if is_singular else solve_null_nonsing(lu, b, c, d)
+    return solve_null_nonsing(lu, b, c, d)
 
 
 def test_simple():
-- 
2.43.0


From 613850832a7f74f989b2bd8d29cbdde41046c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 097/171] fix: the qr method of the exact linear solver

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 7e36bf7..8e77dc8 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -29,7 +29,7 @@ class ExactLinearSolver:
         elif method == 'lu' and not sparse:
             self.solver = DenseLUSolver(A, *args, **kwargs)
         elif method == 'qr':
-            self.solver = QRCholesky(A, rank=self.A.shape[0], *args, **kwargs)
+            self.solver = QRCholesky(A, *args, **{'rank': A.shape[0], **kwargs})
         else:
             raise RuntimeError(f'Unknown exact linear solver {method} requested!')
 
-- 
2.43.0


From 37e0e993742218df10ba7f6213427cb8d896837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 098/171] fix: sign of the determinant of a sparse matrix

---
 funpy/linalg/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index eb4ead7..2403c56 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -42,7 +42,7 @@ def logdet_detail_superlu(lu):
 
     logdet = np.log(diagL).sum() + np.log(diagU).sum()
 
-    swap_sign = minimumSwaps(lu.perm_r)
+    swap_sign = minimumSwaps(lu.perm_r) + minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
-- 
2.43.0


From 40947cf208f020fb9dc527181470fd4132ff0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 099/171] fix: rank decision of the QR-Cholesky solver does not
 depend on the size of the matrix

---
 funpy/linalg/qr_chol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index 03aae1b..ceb2dbf 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -145,7 +145,7 @@ class QRCholesky:
 
     def pseudo_rank(self, R):
         r = np.abs(R.diagonal())
-        s = (r[1:] / r[0]) <= r[0] * self.eps
+        s = r[1:] <= r[0] * self.eps
         if np.all(~s):
             return r.size
         return np.argmax(s) + 1
-- 
2.43.0


From a9722b2ba04202ef6d562733a9b519006f85f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 100/171] fix: fold solver uses the right hand side, not the
 solution, for its last row

---
 funpy/linalg/fold_solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/fold_solve.py b/funpy/linalg/fold_solve.py
index fb2c4c1..4fa6923 100644
--- a/funpy/linalg/fold_solve.py
+++ b/funpy/linalg/fold_solve.py
@@ -69,6 +69,7 @@ class FoldSolver:
         N = (n - 1) // 2
         f = x[:N]           # Projected onto range?
         g = x[N:2 * N]
+        h = x[n - 1]
 
         # This is not quite right yet!
         φ, ψ = self.solver.null()   # TODO: need these as functionals! Maybe not?
@@ -93,7 +94,7 @@ class FoldSolver:
         # Step 2: Solve the second row
         b = self.proj(r - α * Bφ)
         η = self.solver.particular(b)
-        β = (x[n - 1] - np.dot(φ, η)) / np.dot(φ, φ)
+        β = (h - np.dot(φ, η)) / np.dot(φ, φ)
         y = η + β * φ
 
         return np.hstack((x, y, z))
-- 
2.43.0


From abca89142dec92e46a60b9f69337475234eccea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 101/171] fix: pseudo-inverse solves of matrices with a rank
 deficiency of two or more

---
 funpy/linalg/qr_chol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index ceb2dbf..e06907e 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -193,8 +193,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
@@ -222,8 +222,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
-- 
2.43.0


From b3f62b69bb8693a2809430cd3090baedb527eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:38 +0000
Subject: [PATCH 102/171] fix: the iterative solver stops, without success,
 when it diverges

---
 funpy/linalg/gbit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 4b3cd92..bce2101 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -122,6 +122,7 @@ def gbit(A, P, b, y=None,
                 success = False
                 # Make sure outside loop quits!
                 stop_iter = False
+                restart = False
                 break
 
         # END INNER LOOP
-- 
2.43.0


From 468d67b00797a2aa59adfc2cb60fc25a5f12cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 103/171] fix: determinant of a Hessenberg matrix with one row

---
 funpy/linalg/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index 2403c56..ffc433f 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -198,7 +198,7 @@ def detH(A):
 
         d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k])
 
-    return d[k+1]
+    return d[n]
 
 
 class Determinant:
-- 
2.43.0


From 5c58c9b8f6fc3fff662078a6f412c7d25e1b2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:07 +0000
Subject: [PATCH 104/171] fix: determinant of a Hessenberg matrix with four or
 more rows

---
 funpy/linalg/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index ffc433f..8cae592 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -193,8 +193,9 @@ def detH(A):
     # TODO: implement in cython.
     for k in range(1, n):
         # Update the products
+        p[k-1] = d[k-1]
         for j in range(k):
-            p[j] *= d[j] * A[k, k-1]
+            p[j] *= A[k, k-1]
 
         d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k])
 
-- 
2.43.0


From abc4948d5df2e1b9aec1bede0d0e6888f84cb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 105/171] fix: the iterative solver accepts a correction that
 vanishes exactly

---
 funpy/linalg/gbit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index bce2101..a18babf 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -73,6 +73,10 @@ def gbit(A, P, b, y=None,
         i = 0
         stop_iter = False
         while i <= i_max and not stop_iter and iter <= max_iter:
+            if sigma[i] == 0.0:  # The residual vanished exactly
+                stop_iter = True
+                break
+
             q[:] = A * np.asarray(delta[i])
             nomatvec += 1
 
-- 
2.43.0


From 28da0b604765a812a8f67667f82c78abab6333ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 106/171] fix: plain Newton solver warns without its import

---
 funpy/newton/newton_standard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index e7f5ead..708a6fb 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 from math import sqrt
+import warnings
 import numpy as np
 
 
-- 
2.43.0


From 90dda8df873841789839c8cf2843c2faf0f4f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 107/171] fix: plain Newton solver changed its starting point

---
 funpy/newton/newton_standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index 708a6fb..add61ba 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -69,7 +69,7 @@ def newton_standard(NewtonSystem, x, linear_solver='lu',
         normdx = norm(dx)
 
         # NEXT STEP
-        x += dx
+        x = x + dx
         k += 1
 
         if debug:
-- 
2.43.0


From dbc1e739232f11d620f98968295cb2dc42c3226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 108/171] fix: error-oriented Newton solver changed its
 starting point

---
 funpy/newton/nleq_err.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/nleq_err.py b/funpy/newton/nleq_err.py
index 43ecc63..ee80259 100644
--- a/funpy/newton/nleq_err.py
+++ b/funpy/newton/nleq_err.py
@@ -102,7 +102,7 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
 
         # Solution found if condition here true
         if normdx <= tol:
-            x += dx
+            x = x + dx
             k += 1
             newton_success = True
             break
-- 
2.43.0


From 6eb261915ac7a75a52e945c8ebdd78d8bb64054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 109/171] fix: quasi-Newton solver changed its starting point

---
 funpy/newton/qnerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 2e7d4d4..4c6ed98 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -98,7 +98,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
 
     while not newton_success and k <= miter:
         if not skipstep:
-            x += dx[k]
+            x = x + dx[k]
 
             if sigma[k] <= tol * tol:
                 k += 1
-- 
2.43.0


From 47d983cf1b9e77a0a463c1734a4cf5dedd414203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 110/171] fix: GIANT solver changed its starting point

---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index bac7cbc..aba2b9a 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -145,7 +145,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
         if normdx <= xtol:
             newton_success = True
             precision = normdx
-            x += dx
+            x = x + dx
             k += 1
             break
 
-- 
2.43.0


From b74e4a38129b66ddd2da7217af3ed2cf0f0fc930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 111/171] fix: GIANT solver dropped its last full step on
 success

---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index aba2b9a..7a73a11 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -198,7 +198,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
             lam_new = min(1.0, 1.0 / (hk * (1.0 + rho)))
             if lam == 1.0 and lam_new == 1.0:
                 if normdxbar <= xtol:
-                    x += dxbar
+                    x = xkp1 + dxbar
                     precision = normdxbar
                     # RETURN SUCCESS
                     rcode = 0
-- 
2.43.0


From e46cc544f0f55bae9479958484b4c3b402cb47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 112/171] fix: quasi-Newton solver returns all its values when
 it stops early

---
 funpy/newton/qnerr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 4c6ed98..bb80a60 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -69,7 +69,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
                                    RuntimeWarning)
             newton_success = False
             if not nleqcalled: newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
         sigma[0] = normdx
@@ -82,7 +82,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
         if not success_callback:
             if verb: warnings.warn(f'QNERR: Failed callback indicates STOP after {k} iterations!')
             newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
     else:
         assert dx0 is not None, ''
         nsystem = NewtonSystem
-- 
2.43.0


From 65ac9063f9b4ea30f67b25761504a708c03a4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 113/171] fix: quasi-Newton solver compares squared step sizes
 from the first step

---
 funpy/newton/qnerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index bb80a60..2ab61b4 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -72,7 +72,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
             return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
-        sigma[0] = normdx
+        sigma[0] = normdx**2
         dx[0] = dxk
 
         # default value
-- 
2.43.0


From 34289ab5d209230bf3106de0b7fae100d8162862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 114/171] fix: debug output of the quasi-Newton solver

---
 funpy/newton/qnerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 2ab61b4..1de305d 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -126,7 +126,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
 
         if debug:
             print('\tkq = %d; α = %.4g; θ = %.4g; |v|: %.4g; |Δx|: %.4g; ε = %.2g; σ = %.2g'
-                  % (k, alpha_kp1, thetak, v.norm(), dx[k].norm(), tol, sigma[k]))
+                  % (k, alpha_kp1, thetak, norm(v), norm(dx[k]), tol, sigma[k]))
 
         # compute new step
         s = 1.0 - alpha_kp1
-- 
2.43.0


From f9759d0e2d819b4435096ff4111bd5639ca8a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 115/171] fix: derivative order of an equation counts every
 function in it

---
 funpy/colloc/source/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 41fb84a..f4615bd 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -125,7 +125,7 @@ class Source:
         return len(self.cts_src)
 
     def get_diff_order(self, srcs):
-        return [0] + [ode_order(src, func) for src, func in zip(srcs, self.functions)]
+        return [0] + [ode_order(src, func) for src in srcs for func in self.functions]
 
     def get_function_names(self, type=None, constant=False):
         function_names = []
-- 
2.43.0


From c8007764570fbb0ad120bb77be1fb63243a5f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 116/171] fix: linearisation takes each integral of the
 perturbation once, and no others

---
 funpy/colloc/source/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index f4615bd..dee5666 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -538,7 +538,8 @@ class Source:
             DM[i, j] = syp.expand(DM[i, j])
 
             # Collect integral terms so that we can extract them!
-            integrals = [arg for arg in preorder_traversal(DM[i, j]) if isinstance(arg, Integral)]
+            integrals = dict.fromkeys(arg for arg in preorder_traversal(DM[i, j])
+                                      if isinstance(arg, Integral) and arg.has(pfun))
             for dpfun in integrals:
                 # Extract the coefficient
                 ex = syp.simplify(DM[i, j].coeff(dpfun), ratio=1)
-- 
2.43.0


From ac63f59fc6e47b33b2bbed0b07610b92c6b6b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 117/171] fix: coefficients of operators that are integrals
 keep the operator's domain

---
 funpy/colloc/source/DiffOperatorSource.py | 3 ++-
 funpy/fun.py                              | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/source/DiffOperatorSource.py b/funpy/colloc/source/DiffOperatorSource.py
index 378ee95..04775e6 100644
--- a/funpy/colloc/source/DiffOperatorSource.py
+++ b/funpy/colloc/source/DiffOperatorSource.py
@@ -66,6 +66,7 @@ class DiffOperatorSource:
             cg.write('return ({0}) * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                      format(ccode, domain[0], domain[1], ftype))
         else:
-            cg.write('return asfun({0}, type=\'{1:s}\')'.format(ccode, ftype))
+            cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'
+                     .format(ccode, ftype, domain[0], domain[1]))
 
         cg.dedent()
diff --git a/funpy/fun.py b/funpy/fun.py
index 0ed9e8d..5c992c3 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -303,6 +303,7 @@ def random_decay(n, m, domain=[-1, 1], scale=1.0, *args, **kwargs):
 def asfun(obj, *args, **kwargs):
     if isinstance(obj, Fun):
         ftype = kwargs.pop('type', obj.type)
+        kwargs.pop('domain', None)  # a function keeps its domain
 
         if obj.type == ftype:
             return obj
-- 
2.43.0


From a09f4b8f5871d0d5ea3bd48d49bb41689eeb5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 118/171] fix: coefficients and integrands of integral
 operators are functions of the right type

---
 funpy/colloc/source/IntegralOperatorSource.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index 9c80230..ba7995d 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -55,7 +55,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'
+                         .format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
@@ -84,7 +85,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'
+                         .format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
-- 
2.43.0


From 5e8c00a34431c264fdccebd1d0c5a0adb9fb3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 119/171] fix: expression of an integral operator

---
 funpy/colloc/source/IntegralOperatorSource.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index ba7995d..bee0cb4 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -1,6 +1,8 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from sympy import Integral
+
 from ...cbcode import cpcode
 
 
-- 
2.43.0


From 216e4f1c24b8937f436a0a426fc4d27d13550d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 120/171] fix: boundary conditions may be callables, as
 documented

---
 funpy/colloc/LinSys.py                         | 2 +-
 funpy/colloc/source/BoundaryConditionSource.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/LinSys.py b/funpy/colloc/LinSys.py
index 18ac750..f649236 100644
--- a/funpy/colloc/LinSys.py
+++ b/funpy/colloc/LinSys.py
@@ -135,7 +135,7 @@ class LinSys(LinSysBase):
         for bc_op in src.bcs:
             try:
                 print('op_name = ', bc_op.symbol_name)
-                constraint = ChebOpConstraint(op=self.ns[bc_op.symbol_name],
+                constraint = ChebOpConstraint(op=bc_op.coeffs if callable(bc_op.coeffs) else self.ns[bc_op.symbol_name],
                                               domain=src.domain)
 
                 self.constraints.append(constraint)
diff --git a/funpy/colloc/source/BoundaryConditionSource.py b/funpy/colloc/source/BoundaryConditionSource.py
index d38b557..7a94efd 100644
--- a/funpy/colloc/source/BoundaryConditionSource.py
+++ b/funpy/colloc/source/BoundaryConditionSource.py
@@ -42,6 +42,10 @@ class BoundaryConditionSource:
         # Store symbol name of function
         self.symbol_name = '{0:s}'.format(name)
 
+        # Nothing to generate for a callable
+        if callable(ccode):
+            return
+
         # Write to the code gen
         #
         # TODO: A current limitation of the chebcolloc2 code is that chebcollocs
-- 
2.43.0


From 36675e5c681daef32fc014fec3b7f98c5e58dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 121/171] fix: boundary conditions of operators with several
 functions

---
 funpy/colloc/LinSys.py           | 2 +-
 funpy/colloc/chebOpConstraint.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/LinSys.py b/funpy/colloc/LinSys.py
index f649236..1199320 100644
--- a/funpy/colloc/LinSys.py
+++ b/funpy/colloc/LinSys.py
@@ -136,7 +136,7 @@ class LinSys(LinSysBase):
             try:
                 print('op_name = ', bc_op.symbol_name)
                 constraint = ChebOpConstraint(op=bc_op.coeffs if callable(bc_op.coeffs) else self.ns[bc_op.symbol_name],
-                                              domain=src.domain)
+                                              domain=src.domain, n_funs=len(src.function_names))
 
                 self.constraints.append(constraint)
             except KeyError:
diff --git a/funpy/colloc/chebOpConstraint.py b/funpy/colloc/chebOpConstraint.py
index 5d4b1dc..c9a6e24 100644
--- a/funpy/colloc/chebOpConstraint.py
+++ b/funpy/colloc/chebOpConstraint.py
@@ -18,6 +18,7 @@ class ChebOpConstraint:
             ns: A local namespace: No longer used.
             domain: [x0, x1]. The domain on which parent operator is defined ->
                 required for constraint collocation.
+            n_funs: The number of functions the constraint acts on.
 
             values: Equal value of the constraint.
         """
@@ -26,7 +27,8 @@ class ChebOpConstraint:
         self.values = np.atleast_1d(kwargs.get('values', 0.0))
 
         # Assemble dummy function
-        zf = zeros(1, domain=self.domain)
+        self.n_funs = kwargs.pop('n_funs', 1)
+        zf = zeros(self.n_funs, domain=self.domain)
         offset = -self.residual(zf)
 
         def functional(*args):
@@ -47,8 +49,8 @@ class ChebOpConstraint:
         return self
 
     def __call__(self, n):
-        colloc = chebcolloc2(values=np.eye(n), domain=self.domain)
-        return self.functional(colloc)
+        blocks = np.split(np.eye(n * self.n_funs), self.n_funs)
+        return self.functional(*[chebcolloc2(values=block, domain=self.domain) for block in blocks])
 
     def residual(self, u):
         """ Compute the residual of the functional """
-- 
2.43.0


From 5729ea1b723b7b8db27d405932515c82f2fd39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:39 +0000
Subject: [PATCH 122/171] fix: coefficients of a Fourier function of even
 length prolonged by one

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index c48fe3b..734a75b 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -449,7 +449,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             c = np.copy(self.coeffs, order='F')
 
         if Nin == Nout:
-            c = self.coeffs
+            pass
 
         # Pad with zeros
         elif Nout > Nin:
-- 
2.43.0


From ae1346709ba50f3374b95c6656a23ae79ee31887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:39 +0000
Subject: [PATCH 123/171] fix: stacking Fourier functions (derivative with
 respect to a parameter needs it)

---
 funpy/trig/trigtech.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 734a75b..43428fc 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -509,6 +509,20 @@ def copy(trig):
     return deepcopy(trig)
 
 
+@implements(np.hstack)
+def hstack(trigs):
+    """ Columns of several trigtechs side by side """
+    n = max(trig.n for trig in trigs)
+    if any(trig.n != n for trig in trigs):
+        n += 1 - n % 2      # odd lengths hold both of the outermost waves
+    coeffs = np.asfortranarray(np.hstack([trig.coeffs if trig.n == n else trig.prolong_coeffs(n)
+                                          for trig in trigs]))
+    return trigtech(coeffs=coeffs, simplify=False,
+                    eps=max(trig.eps for trig in trigs),
+                    hscale=max(trig.hscale for trig in trigs),
+                    maxLength=max(trig.maxLength for trig in trigs))
+
+
 @implements(np.real)
 def real(trig):
     """ Returns real part of a trigtech """
-- 
2.43.0


From 775020fa51dfd26264969c86f9d649f5696acb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 124/171] fix: derivative with respect to a parameter on which
 the operator does not depend

---
 funpy/colloc/source/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index dee5666..00f788b 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -463,11 +463,11 @@ class Source:
             p = self.ns[cpar]
 
             # TODO improve in the future!
-            if p in src.free_symbols:
+            cts = self.syp_src.get('cts', None)
+            if p in src.free_symbols or cts is None or p not in cts.free_symbols:
                 p_src = simplify(syp.diff(src, p), ratio=1)
             else:
-                ssrc = self.syp_src['cts']
-                p_src = simplify(syp.diff(ssrc, p), ratio=1)
+                p_src = simplify(syp.diff(cts, p), ratio=1)
 
             # Create output function for derivatives!
             func = NonlinearVectorFunctionSource(p_src, self.ftype, self.domain,
-- 
2.43.0


From d5cfc07ecbd05c43fa77d1854d6f68c4df4a4ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 125/171] fix: second derivatives of operators without
 constraints

---
 funpy/colloc/source/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 00f788b..ec5777d 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -243,6 +243,10 @@ class Source:
 
         """
         for type in ['eqn', 'cts']:
+            # There may be no constraints
+            if not getattr(self, type + '_src'):
+                continue
+
             # Get the action of the linearization
             daction = self.syp_src['d' + type].action
 
-- 
2.43.0


From ad8f1bd85be8dfa4cce8588a5901625ad116d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 126/171] fix: derivative of the deflation factor uses the
 functional with derivatives

---
 funpy/newton/deflation.py   | 3 ++-
 funpy/support/Functional.py | 4 +---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/funpy/newton/deflation.py b/funpy/newton/deflation.py
index f666fe3..b27594b 100644
--- a/funpy/newton/deflation.py
+++ b/funpy/newton/deflation.py
@@ -3,7 +3,8 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 
-from ..fun import h1norm, Functional
+from ..fun import h1norm
+from ..support import Functional
 
 
 def deflation(u, known_solutions=[], shift=1.0, power=2.0):
diff --git a/funpy/support/Functional.py b/funpy/support/Functional.py
index a556242..a22f387 100644
--- a/funpy/support/Functional.py
+++ b/funpy/support/Functional.py
@@ -4,7 +4,7 @@
 import numpy as np
 
 from ..fun import Fun
-from ..cheb import polyval
+from ..cheb import polyval, quadwts
 from ..cheb import computeDerCoeffs
 
 
@@ -28,7 +28,6 @@ class Functional:
 
         # transform the value of f(x) to coefficient representation
         if self.basis == 'coeff':
-            from cheb.chebpts import quadwts
             self.rhs = np.empty(self.dorder + 1, dtype=object)
             self.diff = self.diff_cheb
 
@@ -49,7 +48,6 @@ class Functional:
                     f = (np.diff(f) / rescaleFactor).prolong(max(1, f.n-1))
 
         elif self.basis == 'trigspec':
-            from trig.trigpts import quadwts
             self.rhs = np.empty(self.dorder + 1, dtype=object)
             self.diff = self.diff_trig
 
-- 
2.43.0


From c7bd3077a1203c3d9042ef19616bd909b32b0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 127/171] fix: functionals take coefficient vectors in the
 order the operators use

---
 funpy/support/Functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/support/Functional.py b/funpy/support/Functional.py
index a22f387..aac8c9b 100644
--- a/funpy/support/Functional.py
+++ b/funpy/support/Functional.py
@@ -117,7 +117,7 @@ class Functional:
 
     def __call__(self, u):
         """ Implements (f, u) """
-        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape(self.shape)
+        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape(self.shape, order='F')
         iproduct = np.dot(self.rhs[0], coeffs.flatten(order='F'))
 
         for order in range(self.dorder):
-- 
2.43.0


From 9dcdb854af4ec6320a6c4d4f97e5a9a9651fb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 128/171] fix: deflated Newton systems take the functional of
 the discretisation's basis

---
 funpy/newton/NewtonSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index 116f77a..a2d8a1a 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -81,7 +81,8 @@ class NewtonSystem:
 
         if self.known_solutions:
             self.res = self.colloc.project_vector(self.source.rhs.values.flatten(order='F'), cts=True)
-            self.eta, self.deta = deflation_linearization(self.u.u, known_solutions=self.known_solutions)
+            self.eta, self.deta = deflation_linearization(self.u.u, known_solutions=self.known_solutions,
+                                                          basis=self.colloc.name)
 
         # Create the matrix and its precond
         proj   = self.colloc.proj
-- 
2.43.0


From 68d4464553dc79cf8262f7c44283e92e77019179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 129/171] fix: preconditioner of deflated Newton systems
 inverts the rank-one update

---
 funpy/newton/FrechetDeflatedPrecond.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/FrechetDeflatedPrecond.py b/funpy/newton/FrechetDeflatedPrecond.py
index f396baf..0314a0e 100644
--- a/funpy/newton/FrechetDeflatedPrecond.py
+++ b/funpy/newton/FrechetDeflatedPrecond.py
@@ -26,7 +26,8 @@ class FrechetDeflatedPrecond(LinearOperator):
 
     def __compute_denom(self):
         # compute the values for the inner-product
-        return self.eta**2 + self.functional(self.b)
+        self.Pb = self.Pf.solve(self.b)
+        return self.eta + self.functional(self.Pb)
 
     def _matvec(self, x):
         """
@@ -40,7 +41,7 @@ class FrechetDeflatedPrecond(LinearOperator):
             return self.Pf.solve(x)
 
         term1 = self.Pf.solve(x)
-        term2 = self.b * (self.functional(term1) / self.denom)
+        term2 = self.Pb * (self.functional(term1) / self.denom)
         return (term1 - term2) / self.eta
 
     def _rmatvec(self, x):
-- 
2.43.0


From 52a650d4dfd7b3979a493d9680e4a6c010cc3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 130/171] fix: exact linear solvers take the matrix of
 linearised operators

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 funpy/linalg/schur_solve.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 8e77dc8..4b04265 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -18,7 +18,7 @@ class ExactLinearSolver:
         self.to_fun = to_fun
 
         # Is the matrix sparse?
-        if isinstance(A, LAS.LinearOperator): A = A.to_matrix()
+        if hasattr(A, 'to_matrix'): A = A.to_matrix()
         sparse = sps.issparse(A)
 
         # What linear method are we using?
diff --git a/funpy/linalg/schur_solve.py b/funpy/linalg/schur_solve.py
index a6a5b95..e0a5ac5 100644
--- a/funpy/linalg/schur_solve.py
+++ b/funpy/linalg/schur_solve.py
@@ -58,7 +58,7 @@ class LinearSolverNGSchur:
         self.Projection = Projection
 
         # is the operator sparse?
-        if isinstance(Fu, LAS.LinearOperator):
+        if hasattr(Fu, 'to_matrix'):
             Fu = Fu.to_matrix().tocsc()
 
         # map to the underlying type
-- 
2.43.0


From dccccd089a1c1d615226e6f02cd80cfb5306309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 131/171] fix: projections of discretisations are initialised
 linear operators

---
 funpy/colloc/projection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/colloc/projection.py b/funpy/colloc/projection.py
index be2e350..315012f 100644
--- a/funpy/colloc/projection.py
+++ b/funpy/colloc/projection.py
@@ -16,8 +16,7 @@ class RectangularProjection(LinearOperator):
         self.adj = adjoint
 
         # Basic setup for the linear operator
-        self.shape = self.mat.shape
-        self.dtype = np.dtype(dtype)
+        super().__init__(dtype=np.dtype(dtype), shape=self.mat.shape)
         self.explicit = False
 
     def _matvec(self, x):
-- 
2.43.0


From 04893017663fa29772ac55476cc212e194b03615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 132/171] fix: default starting point of periodic problems is
 periodic

---
 funpy/colloc/chebOp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 77f14c5..ea85336 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -332,7 +332,7 @@ class ChebOp:
         print('n_disc = ', self.n_disc)
 
         # Create initial state
-        if f is None: f = zeros(len(self.eqn), domain=self.domain)
+        if f is None: f = zeros(len(self.eqn), domain=self.domain, type=self.ftype)
         i_state = f if isinstance(f, BaseState) else DeflationState(u=f, **self.parameter_names)
         if self.linSys is not None: self.linSys.setParameters(i_state)
 
-- 
2.43.0


From 8cb6b9f36dce1bd5b6fd9af4c92a368429a97ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 133/171] fix: exact Newton steps keep all coefficients of the
 correction

---
 funpy/newton/NewtonSystem.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index a2d8a1a..08c4289 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -53,11 +53,10 @@ class NewtonSystem:
         return DeflationState.from_coeffs(coeffs, self.n_eqn, domain=self.domain, type=self.ftype)
 
     def _create_exact_linear_solver(self, linear_solver, precond=False):
-        linOp, precd, proj = self.matrix(precond=precond)
+        linOp, precd, _ = self.matrix(precond=precond)
 
         # Create the exact linear solver
-        self.linSys = ExactLinearSolver(linOp, proj=lambda x: proj.dot(x),
-                                        method=linear_solver)
+        self.linSys = ExactLinearSolver(linOp, method=linear_solver)
 
     def solve(self, b):
         assert self.linSys is not None, 'Solving via sparse method don\'t call this!'
-- 
2.43.0


From 67719053be77ef3199435042019a5ee7910ef70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 134/171] fix: np.dot of Fourier functions with several columns
 is a scalar, as for Chebyshev functions

---
 funpy/trig/trigtech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 43428fc..8ed8aa4 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -726,7 +726,8 @@ def innerw(trig1, trig2, weighted=False):
 
 @implements(np.dot)
 def dot(cheb1, cheb2):
-    return inner(cheb1, cheb2)
+    rval = inner(cheb1, cheb2)
+    return np.sum(np.diagonal(rval)).item() if rval.size > 1 else rval
 
 
 def diffmat(self, n, k=1):
-- 
2.43.0


From cbae77cf351470be47713e530cd90061bf368b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:42 +0000
Subject: [PATCH 135/171] fix: the adaptive solver starts on a grid that fits
 the order of the equation

---
 funpy/colloc/adapt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/adapt.py b/funpy/colloc/adapt.py
index 592206f..bead73e 100644
--- a/funpy/colloc/adapt.py
+++ b/funpy/colloc/adapt.py
@@ -45,7 +45,8 @@ class SolverAdaptive:
             Arguments:
                 state -> Must be of BaseState type.
         """
-        lower_bd = state.shape[0]
+        # The smallest grid must have room for the boundary conditions
+        lower_bd = max(state.shape[0], 1 + getattr(self.nw.system, 'diffOrder', 0))
         upper_bd = 2**int(np.log2(findNextPowerOf2(lower_bd)) + max(up_steps - 1, 0))
         n_its = self.n_disc(lower_bd=lower_bd, upper_bd=upper_bd, *args, **kwargs)
         success = np.zeros_like(n_its).astype(bool)
-- 
2.43.0


From 0c09f5a3d7c12fb4609b5e21e59e641c23160c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:08 +0000
Subject: [PATCH 136/171] fix: QR solver of complex matrices uses the conjugate
 transpose

---
 funpy/linalg/qr_chol.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index e06907e..f39bf63 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -29,8 +29,8 @@ class QRCholesky:
         # Compute condition number
         self.cond = self.subcondition(self.Rtot)
 
-        # Need the transpose of Q
-        self.Q = Q.transpose()
+        # Need the (conjugate) transpose of Q
+        self.Q = Q.conj().transpose()
 
         # This is a column elementary matrix -> argsort so we can use it for vector indices
         self.C = np.argsort(C)
@@ -55,7 +55,7 @@ class QRCholesky:
                 self.jbar = LA.solve_triangular(self.R, self.S)
 
             # Create the matrix M
-            M = np.eye(max(self.m, self.n) - self.rank) + np.dot(self.jbar.T, self.jbar)
+            M = np.eye(max(self.m, self.n) - self.rank) + np.dot(self.jbar.conj().T, self.jbar)
             self.L = LA.cholesky(M)
         else:
             self.R = self.Rtot
@@ -190,10 +190,10 @@ class QRCholesky:
         c = np.dot(self.Q, b)
 
         Pyk = -LA.solve_triangular(self.R, c[:self.rank])
-        Qyk = np.dot(self.jbar.T, Pyk)
+        Qyk = np.dot(self.jbar.conj().T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=2)
         Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
@@ -219,10 +219,10 @@ class QRCholesky:
         c = self.Q.dot(b)
 
         Pyk = -LAS.spsolve_triangular(self.R, c[:self.rank], lower=False)
-        Qyk = np.dot(self.jbar.T, Pyk)
+        Qyk = np.dot(self.jbar.conj().T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=2)
         Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
-- 
2.43.0


From 16023cdccb1d99abde2dc7fa5754e6cfad7fc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 137/171] fix: eigenvalues of periodic operators without a
 state use a periodic function

---
 funpy/colloc/eig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/eig.py b/funpy/colloc/eig.py
index 0d9b280..1a38032 100644
--- a/funpy/colloc/eig.py
+++ b/funpy/colloc/eig.py
@@ -52,7 +52,7 @@ def eigs(op, f=None, ignore_exception=True, sort='lhp', *args, **kwargs):
         op.setDisc(f.shape[0])
     else:
         # If f is None we will assume that the operator is linear!
-        f = zeros(op.neqn, domain=op.domain)
+        f = zeros(op.neqn, domain=op.domain, type=op.ftype)
 
     # Use a QZ decomposition to compute the generalized eigenvalues
     # Get the required matrices!
-- 
2.43.0


From ebe69b57d5e56c36802a5c00f1327cb2dfb4672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 138/171] fix: Newton seeker unpacks all values of the
 error-oriented solver

---
 funpy/newton/newton_seeker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/newton_seeker.py b/funpy/newton/newton_seeker.py
index 78c3fd0..f68bb17 100644
--- a/funpy/newton/newton_seeker.py
+++ b/funpy/newton/newton_seeker.py
@@ -54,7 +54,7 @@ class NewtonSeeker(NewtonBase):
                 *args, **kwargs)
 
         elif method == 'nleq' or method == 'nleq-err':
-            un, success, iteration, self.neval, sys = nleq_err(
+            un, success, iteration, self.normdx, self.neval, sys = nleq_err(
                 LinOp, istate, miter=miter, inner=np.dot,
                 *args, **kwargs)
 
-- 
2.43.0


From 88794851c00a94cef509050b403d115f76cd5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:24 +0000
Subject: [PATCH 139/171] fix: Newton seeker solves periodic problems with
 complex coefficients

---
 funpy/newton/newton_seeker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/newton_seeker.py b/funpy/newton/newton_seeker.py
index f68bb17..b29624f 100644
--- a/funpy/newton/newton_seeker.py
+++ b/funpy/newton/newton_seeker.py
@@ -50,12 +50,12 @@ class NewtonSeeker(NewtonBase):
         method = method.lower()
         if method == 'giant':
             un, success, iteration, self.neval, sys = giant_gbit(
-                LinOp, istate, miter=miter, inner=np.dot,
+                LinOp, istate, miter=miter, inner=np.dot, dtype=self.dtype,
                 *args, **kwargs)
 
         elif method == 'nleq' or method == 'nleq-err':
             un, success, iteration, self.normdx, self.neval, sys = nleq_err(
-                LinOp, istate, miter=miter, inner=np.dot,
+                LinOp, istate, miter=miter, inner=np.dot, dtype=self.dtype,
                 *args, **kwargs)
 
         else:
-- 
2.43.0


From 2e52796685f5cfa28ea12a51191416f15c8f3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:07 +0000
Subject: [PATCH 140/171] fix: exact sparse solver of a real system takes
 complex right-hand sides

---
 funpy/linalg/exact_linear_solver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 4b04265..608ddb9 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -21,6 +21,9 @@ class ExactLinearSolver:
         if hasattr(A, 'to_matrix'): A = A.to_matrix()
         sparse = sps.issparse(A)
 
+        # The sparse LU of a real matrix only solves real systems
+        self.split = sparse and not np.issubdtype(A.dtype, np.complexfloating)
+
         # What linear method are we using?
         method = kwargs.pop('method', 'lu').lower()
 
@@ -35,7 +38,10 @@ class ExactLinearSolver:
 
     def solve(self, b):
         # Solve the linear system
-        x = self.solver.solve(b)
+        if self.split and np.iscomplexobj(b):
+            x = self.solver.solve(b.real.copy()) + 1j * self.solver.solve(b.imag.copy())
+        else:
+            x = self.solver.solve(b)
 
         # Map the result back to the correct function object
         x = self.to_fun(self.proj(x))
-- 
2.43.0


From 1c2c0edf3e88cf38f8458b99ed45c9c710d6f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:52 +0000
Subject: [PATCH 141/171] fix: negative of an integral operator

---
 funpy/colloc/quasiOpBlock.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index eeebd75..54b73ef 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -81,11 +81,10 @@ class QuasiOpBlock:
         if self.has_nonlocal:
             new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
             for i in range(self.icoeffs.size):
-                new_icoeffs = -self.icoeffs[i]
+                new_icoeffs[i] = -self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand = -self.integrand[i]
+            # only one of the two factors changes its sign
+            new_integrand = self.integrand
 
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
-- 
2.43.0


From 29bc691bec2221cba0d4581bc08524a02fb9bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:52 +0000
Subject: [PATCH 142/171] fix: sum of integral operators

---
 funpy/colloc/quasiOpBlock.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index 54b73ef..7424b22 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -120,13 +120,16 @@ class QuasiOpBlock:
         # see whether we need to add or just take the one that has one!
         # TODO: Should we just by default set the coefficient to zero?
         if self.has_nonlocal and other.has_nonlocal:
-            new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
+            # the sum consists of the integrals of both
+            new_icoeffs = np.empty(self.icoeffs.size + other.icoeffs.size, dtype=object)
+            new_integrand = np.empty(self.integrand.size + other.integrand.size, dtype=object)
             for i in range(self.icoeffs.size):
-                new_icoeffs[i] = other.icoeffs[i] + self.icoeffs[i]
+                new_icoeffs[i] = self.icoeffs[i]
+                new_integrand[i] = self.integrand[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other.integrand[i] + self.integrand[i]
+            for i in range(other.icoeffs.size):
+                new_icoeffs[self.icoeffs.size + i] = other.icoeffs[i]
+                new_integrand[self.integrand.size + i] = other.integrand[i]
 
         elif self.has_nonlocal and not other.has_nonlocal:
             new_icoeffs = self.icoeffs
-- 
2.43.0


From 97da12e777d7589e734e622ed2ea9d5dac890f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:52 +0000
Subject: [PATCH 143/171] fix: multiples of operators

---
 funpy/colloc/quasiOp.py      |  8 +++-----
 funpy/colloc/quasiOpBlock.py | 11 ++++-------
 funpy/colloc/rhs.py          |  2 +-
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/funpy/colloc/quasiOp.py b/funpy/colloc/quasiOp.py
index 622e54b..0e1dc25 100644
--- a/funpy/colloc/quasiOp.py
+++ b/funpy/colloc/quasiOp.py
@@ -47,14 +47,12 @@ class QuasiOp:
         return self.__add__(-other)
 
     def __mul__(self, other):
-        if not self.shape == other.shape:
-            raise ValueError("Shape mismatch! %s != %s." % (self.shape, other.shape))
-
+        """ Scalar multiplication in the vector space of operators! """
         new_blocks = np.empty(self.shape, dtype=object)
         for i, j in np.ndindex(self.shape):
-            new_blocks[i, j] = self.blocks[i, j] + other.blocks[i, j]
+            new_blocks[i, j] = self.blocks[i, j] * other
 
         return QuasiOp(blocks=new_blocks)
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index 7424b22..c90bec7 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -177,15 +177,12 @@ class QuasiOpBlock:
             for i in range(self.icoeffs.size):
                 new_icoeffs[i] = other * self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other * self.integrand[i]
+            # only one of the two factors is scaled
+            new_integrand = self.integrand
 
-        new_info = self.info() | other.info()
-        new_nl_info = self.nl_info() | other.nl_info()
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
-                            info=new_info, nl_info=new_nl_info)
+                            info=self.info(), nl_info=self.nl_info())
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
diff --git a/funpy/colloc/rhs.py b/funpy/colloc/rhs.py
index 0a7129d..12bb1eb 100644
--- a/funpy/colloc/rhs.py
+++ b/funpy/colloc/rhs.py
@@ -81,7 +81,7 @@ class Residual:
         return Residual(self.ns, n_disc=self.n_disc, values=other * self.values)
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
 
     def __iadd__(self, other):
         raise RuntimeError("+= is not allowed for LinBlock!")
-- 
2.43.0


From 799703f29f0dcf74b71907e3c26d00759c6f16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:07 +0000
Subject: [PATCH 144/171] fix: a copy of an operator keeps its grid size,
 operators and tolerances

---
 funpy/colloc/chebOp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index ea85336..484b313 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -228,18 +228,23 @@ class ChebOp:
                 debug=self.debug,
                 functions=deepcopy(self.function_names),
                 constant_functions=deepcopy(self.constant_function_names),
-                operator=deepcopy(self.operator_names),
+                operators=deepcopy(self.operator_names),
                 kernels=deepcopy(self.kernels),
                 parameters=deepcopy(self.parameter_names),
                 colloc=self.colloc,
-                domain=self.domain,
-                n_disc=self.n_disc,
+                domain=deepcopy(self.domain),
+                n=self.n_disc,
+                n_min=self.n_min,
                 eqn=deepcopy(self.eqn),
                 constraints=deepcopy(self.cts),
                 bc=deepcopy(self.bcs),
                 ftype=self.ftype,
-                cpar=self.cpar,
+                cpar=deepcopy(self.cpar),
+                eps=self.eps,
                 tol=self.lin_tol,
+                run_debug=self.run_debug,
+                solver_debug=self.solver_debug,
+                newton=self.newton,
                 diff_order=self.diffOrder,
                 linear=self.linear
             )
-- 
2.43.0


From d1b94a44b50d6e622517f9ae613de23a2cb9a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:07 +0000
Subject: [PATCH 145/171] fix: an operator read from an HDF5 file is the
 operator that was written

---
 funpy/colloc/chebOp.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 484b313..0e328d6 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -465,6 +465,10 @@ class ChebOp:
         dgrp['constant_function_names'] = np.asarray([s.encode('utf-8') for s in self.constant_function_names], dtype=utf8_type)
         dgrp['operator_names'] = np.asarray([s.encode('utf-8') for s in self.operator_names], dtype=utf8_type)
         dgrp['kernels'] = np.asarray([s.encode('utf-8') for s in self.kernels], dtype=utf8_type)
+        cf_grp = dgrp.create_group('constant_functions')
+        for fname, fvalue in self.constant_function_names.items():
+            cf_grp.attrs[fname.encode('utf-8')] = fvalue
+
         par_grp = dgrp.create_group('parameters')
         for pname, pvalue in self.parameter_names.items():
             par_grp.attrs[pname.encode('utf-8')] = pvalue
@@ -482,7 +486,7 @@ class ChebOp:
         dgrp['n_disc'] = self.n_disc
         dgrp['n_min'] = self.n_min
         dgrp['ftype'] = self.ftype
-        dgrp['cpar'] = self.cpar[0]
+        if self.cpar: dgrp['cpar'] = self.cpar[0]
         dgrp['domain_beg'] = self.domain[0]
         dgrp['domain_end'] = self.domain[1]
         dgrp['eps'] = self.eps
@@ -497,15 +501,21 @@ class ChebOp:
             self.function_names.append(fname.decode('utf-8'))
 
         for oname in fh['operator_names']:
-            self.operator_names.append(fname.decode('utf-8'))
+            self.operator_names.append(oname.decode('utf-8'))
 
         for kernel in fh['kernels']:
             self.kernels.append(kernel.decode('utf-8'))
 
+        if 'constant_functions' in fh:
+            for fname, fvalue in fh['constant_functions'].attrs.items():
+                self.constant_function_names[fname] = fvalue
+
         for pname, pvalue in fh['parameters'].attrs.items():
             self.parameter_names[pname] = pvalue
 
-        self.colloc = fh['colloc'][()]
+        self.colloc = fh['colloc'][()].decode('utf-8')
+        self.colloc_type = dict(ultraS=ultraS,
+                                trigspec=trigspec).get(self.colloc, self.colloc)
 
         for eq in fh['eqn']:
             self.eqn.append(eq.decode('utf-8'))
@@ -529,9 +539,8 @@ class ChebOp:
         self.diffOrder = dgrp['diffOrder'][()]
         self.linear = dgrp['linear'][()]
         try:
-            self.cpar = [dgrp['cpar'][()]]
-            self.colloc = [dgrp['colloc'][()]]
-            self.ftype = dgrp['ftype'][()]
+            self.ftype = dgrp['ftype'][()].decode('utf-8')
+            self.cpar = [dgrp['cpar'][()].decode('utf-8')]
         except:
             pass
 
-- 
2.43.0


From 0ce6fe41c741206ba13f8c0e048cf6753fafef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 146/171] fix: long equations are written to HDF5 files in full

---
 funpy/colloc/chebOp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 0e328d6..b921674 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -460,7 +460,7 @@ class ChebOp:
         dgrp = fh.create_group(type(self).__name__)
 
         # Write function names
-        utf8_type = h5.string_dtype('utf-8', 30)
+        utf8_type = h5.string_dtype('utf-8')
         dgrp['function_names'] = np.asarray([s.encode('utf-8') for s in self.function_names], dtype=utf8_type)
         dgrp['constant_function_names'] = np.asarray([s.encode('utf-8') for s in self.constant_function_names], dtype=utf8_type)
         dgrp['operator_names'] = np.asarray([s.encode('utf-8') for s in self.operator_names], dtype=utf8_type)
@@ -475,7 +475,6 @@ class ChebOp:
 
         dgrp['colloc'] = np.asarray(self.colloc.encode('utf-8'), dtype=utf8_type)
 
-        utf8_type = h5.string_dtype('utf-8', 250)
         dgrp['eqn'] = np.asarray([s.encode('utf-8') for s in self.eqn], dtype=utf8_type)
         dgrp['cts'] = np.asarray([s.encode('utf-8') for s in self.cts], dtype=utf8_type)
         dgrp['bcs'] = np.asarray([s.encode('utf-8') for s in self.bcs], dtype=utf8_type)
-- 
2.43.0


From 59c4f1f90fe45c2b6a19bb1efc22db4d5c81df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 147/171] fix: a copy of an operator keeps its projections

---
 funpy/colloc/chebOp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index b921674..f89d916 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -248,6 +248,7 @@ class ChebOp:
                 diff_order=self.diffOrder,
                 linear=self.linear
             )
+            _copy.proj = deepcopy(self.proj)
             memo[id_self] = _copy
         return _copy
 
-- 
2.43.0


From 67c129c8e315d1aa8d64e8c0ff9aae5036391a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:16 +0000
Subject: [PATCH 148/171] fix: all continuation parameters of an operator are
 written to HDF5 files

---
 funpy/colloc/chebOp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index f89d916..02b8227 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -486,7 +486,7 @@ class ChebOp:
         dgrp['n_disc'] = self.n_disc
         dgrp['n_min'] = self.n_min
         dgrp['ftype'] = self.ftype
-        if self.cpar: dgrp['cpar'] = self.cpar[0]
+        dgrp['cpar'] = np.asarray([s.encode('utf-8') for s in self.cpar], dtype=utf8_type)
         dgrp['domain_beg'] = self.domain[0]
         dgrp['domain_end'] = self.domain[1]
         dgrp['eps'] = self.eps
@@ -540,7 +540,7 @@ class ChebOp:
         self.linear = dgrp['linear'][()]
         try:
             self.ftype = dgrp['ftype'][()].decode('utf-8')
-            self.cpar = [dgrp['cpar'][()].decode('utf-8')]
+            self.cpar = [s.decode('utf-8') for s in np.atleast_1d(dgrp['cpar'][()])]
         except:
             pass
 
-- 
2.43.0


From fb3c3dfff3465ab74de2c7f3e189d668d2d5d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 149/171] fix: composition of functions on intervals other than
 [-1, 1]

---
 funpy/fun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 5c992c3..cd28506 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -353,8 +353,7 @@ def compose(f, op, g=None, ftype=None):
     if ftype is None:
         ftype = f.type
 
-    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop,
-               compose=False)
+    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop)
 
 
 def qr(f, *args, **kwargs):
-- 
2.43.0


From 83ec65e86346a14ea26ce860301518ab74b9541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 150/171] fix: random functions with decaying coefficients have
 them

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index cd28506..0b202dc 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -296,7 +296,7 @@ def random(n, m, domain=[-1, 1], scale=1.0, *args, **kwargs):
 def random_decay(n, m, domain=[-1, 1], scale=1.0, *args, **kwargs):
     """ Creates n functions equally zero. """
     nn = (1 + np.arange(n))**2
-    coeffs = scale * (1.0 - 2.0 * np.asfortranarray(np.random.rand(n, m) / nn[:, None]))
+    coeffs = scale * np.asfortranarray((1.0 - 2.0 * np.random.rand(n, m)) / nn[:, None])
     return Fun(coeffs=coeffs, domain=domain, simplify=False, *args, **kwargs)
 
 
-- 
2.43.0


From 572d1c9dbf7b841b3c7b54ec835edc7e3259bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 151/171] fix: reflections do not use the removed np.float

---
 funpy/support/reflection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/support/reflection.py b/funpy/support/reflection.py
index 89867aa..57294b5 100644
--- a/funpy/support/reflection.py
+++ b/funpy/support/reflection.py
@@ -22,7 +22,7 @@ class Reflection:
         # Otherwise define the local tiles
         tile_bd = np.arange(0, n + 1, 1) / n
 
-        values = np.empty((x.size, self.f.m), dtype=np.float)
+        values = np.empty((x.size, self.f.m), dtype=float)
         for k in range(1, tile_bd.size):
             mask = np.where((x >= tile_bd[k-1]) & (x <= tile_bd[k]))[0]
             values[mask, :] = self._odd_functor(x[mask], n, k-1) if k & 1 else self._even_functor(x[mask], n, k-1)
-- 
2.43.0


From 23a832b38811a81c6757d2ee4fa68251c8e8807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 152/171] fix: reflections of a single function

---
 funpy/support/reflection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/support/reflection.py b/funpy/support/reflection.py
index 57294b5..f971c5f 100644
--- a/funpy/support/reflection.py
+++ b/funpy/support/reflection.py
@@ -25,6 +25,8 @@ class Reflection:
         values = np.empty((x.size, self.f.m), dtype=float)
         for k in range(1, tile_bd.size):
             mask = np.where((x >= tile_bd[k-1]) & (x <= tile_bd[k]))[0]
-            values[mask, :] = self._odd_functor(x[mask], n, k-1) if k & 1 else self._even_functor(x[mask], n, k-1)
+            tile = self._odd_functor(x[mask], n, k-1) if k & 1 else self._even_functor(x[mask], n, k-1)
+            values[mask, :] = np.reshape(tile, (mask.size, self.f.m))
 
-        return values
+        # same shape as an evaluation of the function
+        return values[:, 0] if self.f.m == 1 else values
-- 
2.43.0


From 63db8b2b963d5f33c2b769515d3b736ae15cc654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 153/171] fix: one callable may give several columns of a
 periodic function

---
 funpy/cheb/refine.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index f6d2d7c..80f388f 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -16,6 +16,15 @@ class FunctionContainer:
         return len(self.fs)
 
     def __call__(self, x):
+        if len(self.fs) == 1:
+            # a single function may have several columns
+            f = np.asarray(self.fs[0](x))
+            if f.size > x.size:
+                return np.asfortranarray(np.reshape(f, (x.size, -1)), dtype=self.dtype)
+            r = np.empty((x.size, 1), order='F', dtype=self.dtype)
+            r[:, 0] = f
+            return r
+
         r = np.empty((x.size, len(self.fs)), order='F', dtype=self.dtype)
         for i, f in enumerate(self.fs):
             r[:, i] = f(x)
-- 
2.43.0


From 8199f865a351f29c0915271eea57a36be61c24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:30 +0000
Subject: [PATCH 154/171] fix: coefficient plots of periodic functions with
 several columns

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 0b202dc..36d25bb 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -648,7 +648,7 @@ def plotcoeffs_trig(f, loglog=False):
     else:
         coeffIndex = np.arange(-(n-1)//2, (n-1)//2+1)
 
-    if f.get_vscale() == 0:
+    if np.all(f.get_vscale() == 0):
         ac += f.eps
 
     if not loglog:
-- 
2.43.0


From 42e4fe87173daf7e7ba2234b90f37838ec986e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:38 +0000
Subject: [PATCH 155/171] fix: repeated integral of a Fourier function of even
 length

---
 funpy/trig/trigtech.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 8ed8aa4..96123a9 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -687,6 +687,8 @@ def cumsum(f, m=1, **kwargs):
     c[highestDegree, :] = -np.sum(c * (-1+0j)**sumIndices, axis=0)
 
     if isEven:
+        # the unpaired mode carries both halves it was split into above
+        c[0, :] *= 2
         c = c[:-1]
 
     # call simplify
-- 
2.43.0


From 6395c5e222c2bcf68fa9b2b98ea91715fe4e8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 156/171] fix: compiled operators keep the full precision of
 their interval

---
 funpy/colloc/source/DiffOperatorSource.py      |  6 +++---
 funpy/colloc/source/IntegralOperatorSource.py  | 12 ++++++------
 funpy/colloc/source/NonlinearOperatorSource.py |  2 +-
 funpy/colloc/source/compiler.py                |  6 +++---
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/funpy/colloc/source/DiffOperatorSource.py b/funpy/colloc/source/DiffOperatorSource.py
index 04775e6..f2ba5fe 100644
--- a/funpy/colloc/source/DiffOperatorSource.py
+++ b/funpy/colloc/source/DiffOperatorSource.py
@@ -59,14 +59,14 @@ class DiffOperatorSource:
         contains_functions = len(self.coeffs.atoms(Function)) != 0
 
         if self.coeffs.is_zero:
-            cg.write('return zeros(1, domain=[{0:.16f}, {1:.16f}], type=\'{2:s}\')'.\
+            cg.write('return zeros(1, domain=[{0:.17e}, {1:.17e}], type=\'{2:s}\')'.\
                      format(domain[0], domain[1], ftype))
             self.posInfo = False
         elif constant is not None and (constant or real) and not contains_functions:
-            cg.write('return ({0}) * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
+            cg.write('return ({0}) * ones(1, domain=[{1:.17e}, {2:.17e}], type=\'{3:s}\')'.\
                      format(ccode, domain[0], domain[1], ftype))
         else:
-            cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'
+            cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.17e}, {3:.17e}])'
                      .format(ccode, ftype, domain[0], domain[1]))
 
         cg.dedent()
diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index bee0cb4..f9b7841 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -54,15 +54,15 @@ class IntegralOperatorSource:
             real = self.coeffs.is_real if self.coeffs.is_real is not None else False
 
             if self.coeffs.is_constant() or real:
-                cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
+                cg.write('return {0} * ones(1, domain=[{1:.17e}, {2:.17e}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.17e}, {3:.17e}])'
                          .format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
-            cg.write('return zeros(1, domain=[{0:.16f}, {1:.16f}], type=\'{2:s}\')'.\
+            cg.write('return zeros(1, domain=[{0:.17e}, {1:.17e}], type=\'{2:s}\')'.\
                      format(domain[0], domain[1], ftype))
 
         cg.dedent()
@@ -84,15 +84,15 @@ class IntegralOperatorSource:
             real = self.integrand.is_real if self.integrand.is_real is not None else False
 
             if self.integrand.is_constant() or real:
-                cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
+                cg.write('return {0} * ones(1, domain=[{1:.17e}, {2:.17e}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.17e}, {3:.17e}])'
                          .format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
-            cg.write('return zeros(1, domain=[{0:.16f}, {1:.16f}], type=\'{2:s}\')'.\
+            cg.write('return zeros(1, domain=[{0:.17e}, {1:.17e}], type=\'{2:s}\')'.\
                      format(domain[0], domain[1], ftype))
 
         cg.dedent()
diff --git a/funpy/colloc/source/NonlinearOperatorSource.py b/funpy/colloc/source/NonlinearOperatorSource.py
index 70262b8..84cb364 100644
--- a/funpy/colloc/source/NonlinearOperatorSource.py
+++ b/funpy/colloc/source/NonlinearOperatorSource.py
@@ -49,7 +49,7 @@ class NonlinearFunctionSource:
                  format(self.symbol_name, ', '.join(map(str, function_names))))
 
         cg.indent()
-        cg.write('return asfun({0}, type=\'{1}\', domain=[{2:.16f}, {3:.16f}])'
+        cg.write('return asfun({0}, type=\'{1}\', domain=[{2:.17e}, {3:.17e}])'
                  .format(func, ftype, domain[0], domain[1]))
 
         cg.dedent()
diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index ec5777d..3f671d6 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -603,10 +603,10 @@ class Source:
         cg.write(35 * '#')
         cg.write('# Spatial variables')
         cg.write(35 * '#')
-        cg.write('domain=np.asarray([{0:.16f}, {1:.16f}])'.format(self.domain[0], self.domain[1]))
+        cg.write('domain=np.asarray([{0:.17e}, {1:.17e}])'.format(self.domain[0], self.domain[1]))
 
         for var in var_names:
-            cg.write('{0} = Fun(op=lambda x: x, domain=[{1:.16f}, {2:.16f}])'.format(var, self.domain[0], self.domain[1]))
+            cg.write('{0} = Fun(op=lambda x: x, domain=[{1:.17e}, {2:.17e}])'.format(var, self.domain[0], self.domain[1]))
 
         if self.isNonLocal:
             cg.write('')
@@ -623,7 +623,7 @@ class Source:
         cg.write('# Constant Function symbols')
         for function_name, function_code in self.constant_function_names.items():
             if isinstance(function_code, str):
-                cg.write('{0} = Fun(op={1}, domain=[{2:.16f}, {3:.16f}])'.\
+                cg.write('{0} = Fun(op={1}, domain=[{2:.17e}, {3:.17e}])'.\
                          format(function_name, function_code,
                                  self.domain[0], self.domain[1]))
 
-- 
2.43.0


From 8651d81f8ef61f2c61182d1b56a8ac5f3fd06d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:27 +0000
Subject: [PATCH 157/171] fix: small periodic operators are not rounded to zero

---
 funpy/colloc/trigspec/trigspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigspec/trigspec.py b/funpy/colloc/trigspec/trigspec.py
index 233dff7..3e0d5af 100644
--- a/funpy/colloc/trigspec/trigspec.py
+++ b/funpy/colloc/trigspec/trigspec.py
@@ -119,7 +119,7 @@ class trigspec(coeffsDiscretization):
             L += self.mult(coeff[j]) * self.diff(j) * self.aggregation()
 
         # must remove almost zero elements now
-        L = eliminate_zeros(L)
+        L = eliminate_zeros(L, eps=np.finfo(float).eps * min(1.0, abs(L).max()))
 
         # create the conversion matrix as well
         S = csr_matrix(L.shape)
-- 
2.43.0


From 4c45db583944156576f08360251e583b2983b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:54 +0000
Subject: [PATCH 158/171] fix: adaptive solves start from grids that can see
 the forcing

---
 funpy/colloc/adapt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/adapt.py b/funpy/colloc/adapt.py
index bead73e..9e5d837 100644
--- a/funpy/colloc/adapt.py
+++ b/funpy/colloc/adapt.py
@@ -45,8 +45,9 @@ class SolverAdaptive:
             Arguments:
                 state -> Must be of BaseState type.
         """
-        # The smallest grid must have room for the boundary conditions
-        lower_bd = max(state.shape[0], 1 + getattr(self.nw.system, 'diffOrder', 0))
+        # The smallest grid must have room for the boundary conditions, and two successive grids
+        # that are too coarse for the forcing agree without having seen it
+        lower_bd = max(17, state.shape[0], 1 + getattr(self.nw.system, 'diffOrder', 0))
         upper_bd = 2**int(np.log2(findNextPowerOf2(lower_bd)) + max(up_steps - 1, 0))
         n_its = self.n_disc(lower_bd=lower_bd, upper_bd=upper_bd, *args, **kwargs)
         success = np.zeros_like(n_its).astype(bool)
-- 
2.43.0


From a857b03c8d6118c01bb663f503b54d19ae765097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:01 +0000
Subject: [PATCH 159/171] fix: operators with constraints of higher order than
 the equations can be linearised

---
 funpy/colloc/source/compiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 3f671d6..d7d82d1 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -161,17 +161,23 @@ class Source:
         pycode = self.__emit_common()
         self.common = pycode
 
-        # compile right hand side
+        # the equations and constraints are added: both must use the same diffOrder
         for type in ['eqn', 'cts']:
             src = getattr(self, type + '_src')
             if src is None: continue
-            name = self.symbol_names[type]
             spcode = self.sympify(src, self.ns, debug=debug)
             self.syp_src[type] = spcode
 
             # Compute the diff Order
             self.diffOrder = max(self.diffOrder, max(self.get_diff_order(spcode)))
 
+        # compile right hand side
+        for type in ['eqn', 'cts']:
+            src = getattr(self, type + '_src')
+            if src is None: continue
+            name = self.symbol_names[type]
+            spcode = self.syp_src[type]
+
             # Create a function source object representing the residual!
             func = NonlinearVectorFunctionSource(spcode, self.ftype,
                                                  self.domain, name=name,
-- 
2.43.0


From 0e6a7a36ef2494dd9a4773ae821503bab2cbda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:01 +0000
Subject: [PATCH 160/171] fix: parameter derivatives include the constraints
 added to the equations

---
 funpy/colloc/source/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index d7d82d1..a5b694a 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -474,10 +474,10 @@ class Source:
 
             # TODO improve in the future!
             cts = self.syp_src.get('cts', None)
-            if p in src.free_symbols or cts is None or p not in cts.free_symbols:
+            if cts is None or p not in cts.free_symbols:
                 p_src = simplify(syp.diff(src, p), ratio=1)
             else:
-                p_src = simplify(syp.diff(cts, p), ratio=1)
+                p_src = simplify(syp.diff(src + cts, p), ratio=1)
 
             # Create output function for derivatives!
             func = NonlinearVectorFunctionSource(p_src, self.ftype, self.domain,
-- 
2.43.0


From e6f10e59535a46685c67d535417861252261fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:29 +0000
Subject: [PATCH 161/171] fix: integrals of constant states cover the whole
 interval in their linearisation

---
 funpy/colloc/realDiscretization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/realDiscretization.py b/funpy/colloc/realDiscretization.py
index 71724a3..c9882ad 100644
--- a/funpy/colloc/realDiscretization.py
+++ b/funpy/colloc/realDiscretization.py
@@ -29,7 +29,9 @@ class realDiscretization(OpDiscretization):
         icoeffs = source.getICoeffs()
         integrand = source.getIntegrand()
         for i in range(source.numNonLocal):
-            c_c += np.asarray(icoeffs[i]).item() * np.asarray(integrand[i]).item()
+            # the integral of a constant is the constant times the length of the interval
+            length = np.diff(self.domain).item()
+            c_c += np.asarray(icoeffs[i]).item() * np.asarray(integrand[i]).item() * length
 
         return c_c
 
-- 
2.43.0


From a7d0d3af907576446c83963e25cadb238a9fb9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:45 +0000
Subject: [PATCH 162/171] fix: Chebyshev functions accept coefficient arrays of
 any memory layout

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 4137810..7844e94 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -26,7 +26,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
     """ This needs some information still! Currently only type-2 polynomials """
     def __init__(self, op=None, *args, **kwargs):
         """ Improve this so that we can just pass in one object and we figure out what it is """
-        self.coeffs = kwargs.pop('coeffs', np.zeros((0, 0), order='F'))
+        self.coeffs = np.asfortranarray(kwargs.pop('coeffs', np.zeros((0, 0), order='F')))
 
         # tolerance
         self.eps = kwargs.pop('eps', np.finfo(float).eps)
-- 
2.43.0


From 25af166e54543765e2b3b833e99d033455f5671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 163/171] fix: continuation corrections are orthogonal to the
 tangent

---
 funpy/linalg/schur_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/schur_solve.py b/funpy/linalg/schur_solve.py
index e0a5ac5..b7501b0 100644
--- a/funpy/linalg/schur_solve.py
+++ b/funpy/linalg/schur_solve.py
@@ -99,7 +99,7 @@ class LinearSolverNGSchur:
         delta = self.solve_core(rhs)
 
         # Finally compute correction to u component
-        delta_a = sprod(self.tangent.u, delta) / self.schur_comp
+        delta_a = -sprod(self.tangent.u, delta) / self.schur_comp
         delta_u = delta - delta_a * self.W
 
         return self.to_state(delta_u, delta_a)
-- 
2.43.0


From 97699e004d6295fc917d02749d7cf7d462618473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:34 +0000
Subject: [PATCH 164/171] fix: branch point vectors of several functions are
 stacked function by function

---
 funpy/linalg/schur_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/schur_solve.py b/funpy/linalg/schur_solve.py
index b7501b0..b5893dd 100644
--- a/funpy/linalg/schur_solve.py
+++ b/funpy/linalg/schur_solve.py
@@ -125,7 +125,7 @@ class LinearSolverNGSchur:
         C_u = rvec.C_u
         C_l = rvec.C_l
 
-        p_u = self.solve_core(B_u.flatten())
+        p_u = self.solve_core(B_u.flatten(order='F'))
         self.G_l = (B_l - sprod(self.tangent.u, p_u)) / self.schur_comp
         self.G_u = p_u - self.G_l * self.W
         self.tau = -1. / (C_l * self.G_l + sprod(C_u, self.G_u))
-- 
2.43.0


From 8b585e1c23d2fdb3edc25c3416055c0134ef8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:58 +0000
Subject: [PATCH 165/171] fix: functions that are written through others (sec,
 sech, ...) can be printed

---
 funpy/cbcode.py  | 4 ++--
 funpy/odecode.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/cbcode.py b/funpy/cbcode.py
index 5c77e49..9153480 100644
--- a/funpy/cbcode.py
+++ b/funpy/cbcode.py
@@ -63,9 +63,9 @@ class FunPyPrinter(SciPyPrinter):
             # inlined function
             return self._print(expr._imp_(*expr.args))
         elif (expr.func.__name__ in self._rewriteable_functions and
-              self._rewriteable_functions[expr.func.__name__] in self.known_functions):
+              self._can_print(self._rewriteable_functions[expr.func.__name__][0])):
             # Simple rewrite to supported function possible
-            return self._print(expr.rewrite(self._rewriteable_functions[expr.func.__name__]))
+            return '(%s)' % self._print(expr.rewrite(self._rewriteable_functions[expr.func.__name__][0]))
         elif expr.is_Function and self._settings.get('allow_unknown_functions', False):
             return '%s(%s)' % (self._print(expr.func), ', '.join(map(self._print, expr.args)))
         elif expr.is_Function and self._settings.get('no_evaluation', False):
diff --git a/funpy/odecode.py b/funpy/odecode.py
index 1d6d34d..811d262 100644
--- a/funpy/odecode.py
+++ b/funpy/odecode.py
@@ -42,9 +42,9 @@ class OdePyPrinter(SciPyPrinter):
             # inlined function
             return self._print(expr._imp_(*expr.args))
         elif (expr.func.__name__ in self._rewriteable_functions and
-              self._rewriteable_functions[expr.func.__name__] in self.known_functions):
+              self._can_print(self._rewriteable_functions[expr.func.__name__][0])):
             # Simple rewrite to supported function possible
-            return self._print(expr.rewrite(self._rewriteable_functions[expr.func.__name__]))
+            return '(%s)' % self._print(expr.rewrite(self._rewriteable_functions[expr.func.__name__][0]))
         elif expr.is_Function and self._settings.get('allow_unknown_functions', False):
             return '%s(%s)' % (self._print(expr.func), ', '.join(map(self._print, expr.args)))
         # elif expr.is_Function and self._settings.get('allow_unknown_functions', False):
-- 
2.43.0


From fd50d1aa2eae872cf2e05e1409fa9d66ab860373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:58 +0000
Subject: [PATCH 166/171] fix: odecode keeps the integrand of an integral
 together

---
 funpy/odecode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/odecode.py b/funpy/odecode.py
index 811d262..c9e0098 100644
--- a/funpy/odecode.py
+++ b/funpy/odecode.py
@@ -57,7 +57,7 @@ class OdePyPrinter(SciPyPrinter):
     def _print_Integral(self, integral):
         """ Emit python code to compute definite integrals """
         f = integral.function
-        return r"%s" % (self._print(f))
+        return r"(%s)" % (self._print(f))
 
 def odecode(expr, **settings):
     return OdePyPrinter(settings).doprint(expr)
-- 
2.43.0


From 4487f1b793c23dafa6d0b457179bb065964fba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:59 +0000
Subject: [PATCH 167/171] fix: construction with fewer points allowed than
 first tried samples at the allowed length

---
 funpy/cheb/refine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 80f388f..1f88cb6 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -55,7 +55,7 @@ class RefineBase:
                 n = 2**(np.floor(pow) + 1) + 1
 
         if n > f.maxLength:
-            if self.values is None:
+            if self.values.size == 0:
                 n = f.maxLength
                 giveUp = False
             else:
-- 
2.43.0


From c5277eaeb9b086617fc60ff7cf469bc1b8568285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:16 +0000
Subject: [PATCH 168/171] fix: compiling an operator again for second
 derivatives generates them

---
 funpy/colloc/chebOp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 02b8227..9465703 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -152,6 +152,7 @@ class ChebOp:
         # prepared
         self.prepared = False
         self.par_set = False
+        self.fold_set = False
 
         # is linear
         self.isLinear = False
@@ -254,13 +255,15 @@ class ChebOp:
 
     def compile(self, par=False, fold=False, bif=False, *args, **kwargs):
         # If we have the base setup let's not call this again!
-        if self.prepared and (self.par_set or par == self.par_set):
+        if (self.prepared and (self.par_set or par == self.par_set) and
+                (self.fold_set or fold == self.fold_set)):
             return
 
         # Compile the source!
         debug = kwargs.get('debug', self.debug)
         constant_functions = kwargs.pop('constant_functions', False)
         self.par_set = par
+        self.fold_set = fold
         # update this!
         self.isNonLocal = True if len(self.operator_names) > 0 else False
 
-- 
2.43.0


From c1ad324c9b8fc26ff498c6784d71e14a9993f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:06 +0000
Subject: [PATCH 169/171] fix: the residual of a long function is not truncated
 to the discretisation used before

---
 funpy/colloc/chebOp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 9465703..cbd612b 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -407,6 +407,7 @@ class ChebOp:
                    simplify=False, type=self.ftype)
 
     def residual(self, u, p=2):
+        self.linSys.setDisc(u.shape[0])
         self.linSys.update_partial(u)
         res = Fun(coeffs=self.linSys.rhs.values, domain=u.domain, type=self.ftype)
         residual = res.norm(p=p)
-- 
2.43.0


From 6bc99e34f6c1d96eb4dacc9a343133655d4e0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:39 +0000
Subject: [PATCH 170/171] fix: the null vectors of a bordered matrix are not
 corrected to zero

---
 funpy/linalg/bem_solve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/bem_solve.py b/funpy/linalg/bem_solve.py
index c21c348..c71e255 100644
--- a/funpy/linalg/bem_solve.py
+++ b/funpy/linalg/bem_solve.py
@@ -101,7 +101,7 @@ class BEM:
 
         # Residual correction by BEC
         w  = -self.solver.solve(y1 * self.c)
-        y2 = (y1 * self.d + np.dot(self.b, w)) / self.eta
+        y2 = (y1 * self.d + np.dot(self.b, w) - 1.0) / self.eta
         return np.hstack((w + self.beta * y2, y1 - y2))
 
     def nullspace_adj(self):
@@ -110,7 +110,7 @@ class BEM:
 
         # Residual correction by BEC
         w  = -self.solver.solve_adj(y1 * self.b)
-        y2 = (y1 * self.d + np.dot(self.c, w)) / self.delta
+        y2 = (y1 * self.d + np.dot(self.c, w) - 1.0) / self.delta
         return np.hstack((w + self.gamma * y2, y1 - y2))
 
     def solve_singular(self, b):
-- 
2.43.0


From d90204f080bbebd0bf341b5118b7af3b61010de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:05 +0000
Subject: [PATCH 171/171] fix: the Sobolev norm of a plotted state is computed
 for its order

---
 funpy/vectorspaces/State.py         | 4 ++--
 funpy/vectorspaces/cont_state.py    | 4 ++--
 funpy/vectorspaces/tp_cont_state.py | 4 ++--
 funpy/vectorspaces/tp_state.py      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/funpy/vectorspaces/State.py b/funpy/vectorspaces/State.py
index 6a98633..e453689 100644
--- a/funpy/vectorspaces/State.py
+++ b/funpy/vectorspaces/State.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 import warnings
 
-from funpy.fun import h1norm, norm, sturm_norm, sturm_norm_alt
+from funpy.fun import norm, sturm_norm, sturm_norm_alt, wkpnorm
 from funpy.fun import Fun
 
 from .namespace import Namespace
@@ -98,7 +98,7 @@ class ContinuationState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.a), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.a), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.a), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.a), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/cont_state.py b/funpy/vectorspaces/cont_state.py
index ab0bc1e..b9a5bca 100644
--- a/funpy/vectorspaces/cont_state.py
+++ b/funpy/vectorspaces/cont_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 import warnings
 
-from ..fun import Fun, h1norm, norm, norm2, sturm_norm, sturm_norm_alt
+from ..fun import Fun, norm, norm2, sturm_norm, sturm_norm_alt, wkpnorm
 
 from .namespace import Namespace
 from .base_state import BaseState
@@ -118,7 +118,7 @@ class ContinuationState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.a), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.a), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.a), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.a), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_cont_state.py b/funpy/vectorspaces/tp_cont_state.py
index 2d4c167..7044353 100644
--- a/funpy/vectorspaces/tp_cont_state.py
+++ b/funpy/vectorspaces/tp_cont_state.py
@@ -4,7 +4,7 @@
 import numpy as np
 from copy import deepcopy
 
-from ..fun import Fun, h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import Fun, norm, sturm_norm, sturm_norm_alt, wkpnorm
 from .base_state import BaseState
 from .parameter import Parameter
 
@@ -113,7 +113,7 @@ class TwoParContState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_state.py b/funpy/vectorspaces/tp_state.py
index 74bef34..27f96dc 100644
--- a/funpy/vectorspaces/tp_state.py
+++ b/funpy/vectorspaces/tp_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 
 from ..fun import Fun
-from ..fun import h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import norm, sturm_norm, sturm_norm_alt, wkpnorm
 
 from .base_state import BaseState
 from .parameter import Parameter
@@ -129,7 +129,7 @@ class TwoParameterState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
-- 
2.43.0

