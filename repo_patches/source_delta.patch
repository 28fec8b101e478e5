From bf986fefd0c15404ab01eddccf39ecaa1172aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 01/49] fix: CovData1D.tospecdata added the nugget to the
 object's own data

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index b460e1e..dee5481 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -223,7 +223,7 @@ class CovData1D(PlotData):
         dt = self.sampling_period()
         # dt = time-step between data points.
 
-        acf, unused_ti = atleast_1d(self.data, self.args)
+        acf = np.array(self.data, ndmin=1)  # a copy: the nugget is not for self
 
         if self.lagtype in 't':
             spectype = 'freq'
-- 
2.43.0


From 70af48f6fd8169561ae55148b13ce0e76eb23a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 02/49] fix: CovData1D.sim embedded an ACF ending in zero with
 its lags shifted by one

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index dee5481..6579350 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -389,7 +389,7 @@ class CovData1D(PlotData):
         else:  # ACF(n)==0
             m2 = 2 * n - 2
             nfft = 2 ** nextpow2(max(m2, 2 * ns))
-            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 1:1:-1, :]]
+            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 2:0:-1, :]]
 
         # m2=2*n-2
         spec = fft(acf, nfft, axis=0).real  # periodogram
-- 
2.43.0


From 1ec539c60ce525491bdf98690cfe5823f89c31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 03/49] fix: CovData1D.sim(derivative=True) failed or mixed up
 the replicates

---
 src/wafo/covariance/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 6579350..1c49009 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -440,12 +440,12 @@ class CovData1D(PlotData):
         x[:, 0] = linspace(0, (ns - 1) * dt, ns)  # (0:dt:(dt*(np-1)))'
 
         if derivative:
-            sqrt_spec = sqrt_spec * \
-                r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+            wn = r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+            sqrt_spec = sqrt_spec * wn[:, np.newaxis]
             ephat = epsi * sqrt_spec  # [:,newaxis]
             y = fft(ephat, nfft, axis=0)
-            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag -
-                                             y[2:ns + 2, 0:cases1].real))
+            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag,
+                                             -y[2:ns + 2, 0:cases1].real))
             xder[:, 0] = x[:, 0]
 
         if self.tr is not None:
-- 
2.43.0


From 5f0eaff3822a0fff71bc17a09caaacf58d99e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 04/49] fix: CovData1D.simcond overwrote the caller's series
 and the ACF of the object

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 1c49009..2e15724 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -569,8 +569,8 @@ class CovData1D(PlotData):
         reconstructed data"
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
-        x = atleast_1d(xo).ravel()
-        acf = self._get_acf()
+        x = np.array(xo, ndmin=1).ravel()  # copies, since both are changed below
+        acf = self._get_acf().copy()
 
         num_x = len(x)
         num_acf = len(acf)
-- 
2.43.0


From 634e07f2feb4f29a2df56a89e7b063dee445068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 05/49] fix: CovData1D.simcond(method='approx') failed when one
 window did not hold every missing point

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 2e15724..36600b3 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -509,7 +509,7 @@ class CovData1D(PlotData):
         start_max = num_x - num_sig
         if (nw == 0) and (num_restored < len(i_unknown)):
             # move to the next missing data
-            start_ix = min(i_unknown[num_restored + 1] - overlap, start_max)
+            start_ix = min(i_unknown[num_restored] - overlap, start_max)
         else:
             start_ix = min(idx[0] + num_acf, start_max)
 
@@ -671,7 +671,7 @@ class CovData1D(PlotData):
                     # removing indices to data which has been simulated
                     mask_unknown[idx[:-overlap]] = False
                     # data we want to simulate once more
-                    nw = sum(mask_unknown[idx[-overlap:]] is True)
+                    nw = np.sum(mask_unknown[idx[-overlap:]])
                     num_restored += ns - nw  # update # points simulated so far
 
                     idx = self._update_window(idx, i_unknown, num_x, num_acf,
-- 
2.43.0


From 026e67adf5db03d747bb8cf1af395dd58d8e899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:43 +0000
Subject: [PATCH 06/49] fix: SpecData1D.sim(method='random', derivative=True)
 raised TypeError

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a17248f..9e0fec6 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2691,7 +2691,7 @@ class SpecData1D(PlotData):
         x[:, 0] = linspace(0, T, ns)  # ' %(0:d_t:(np-1)*d_t).'
 
         if derivative:
-            xder = zeros(ns, cases + 1)
+            xder = zeros((ns, cases + 1))
             w = 2. * pi * hstack((0, f, 0., -f[-1::-1]))
             amp = -1j * amp * w[:, newaxis]
             xder[:, 1:(cases + 1)] = fft(amp, axis=0).real
-- 
2.43.0


From 47f27c5e9e0b808a87f1631a96a438f37c2adf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 07/49] fix: running out of memory was taken for an expected
 failure and gave a wrong answer

---
 src/wafo/kdetools/kernels.py | 2 +-
 src/wafo/objects.py          | 6 +++---
 src/wafo/sg_filter/_core.py  | 2 +-
 src/wafo/spectrum/core.py    | 2 ++
 src/wafo/stats/estimation.py | 4 +++-
 5 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 64845cb..c3f022c 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -937,7 +937,7 @@ class Kernel(object):
             try:
                 t_star = optimize.brentq(lambda t: fixed_point(t, N, I, a2),
                                          a=ai, b=bi)
-            except Exception as err:
+            except (ValueError, RuntimeError) as err:
                 t_star = 0.28 * N ** (-2. / 5)
                 warnings.warn('Failure in obtaining smoothing parameter'
                               ' ({})'.format(str(err)))
diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 9a494eb..b0977fb 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1166,7 +1166,7 @@ class TurningPoints(PlotData):
         ind = findrfc(self.data, max(h, 0.0), method)
         try:
             t = self.args[ind]
-        except Exception:
+        except (TypeError, IndexError):
             t = ind
         mean = self.mean
         sigma = self.sigma
@@ -1706,7 +1706,7 @@ class TimeSeries(PlotData):
         ind = findtp(self.data, max(h, 0.0), wavetype)
         try:
             t = self.args[ind]
-        except Exception:
+        except (TypeError, IndexError):
             t = ind
         mean = self.data.mean()
         sigma = self.data.std()
@@ -1736,7 +1736,7 @@ class TimeSeries(PlotData):
         ind = findtc(self.data, v, wavetype)[0]
         try:
             t = self.args[ind]
-        except Exception:
+        except (TypeError, IndexError):
             t = ind
         mean = self.data.mean()
         sigma = self.data.std()
diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index d5eb26b..c8d0df5 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -986,7 +986,7 @@ class Kalman(object):
         self._set_H(n)
         try:
             HI = np.linalg.inv(self.H)
-        except Exception:
+        except np.linalg.LinAlgError:
             HI = np.eye(n)
         self._set_P(HI)
         return HI
diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 9e0fec6..d6d14fe 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1297,6 +1297,8 @@ class SpecData1D(PlotData):
             pl = [10, 30, 50, 70, 90, 95, 99, 99.9]
             mmpdf.cl = qlevels(uvdens, pl, xi=(h, h))
             mmpdf.pl = pl
+        except MemoryError:
+            raise
         except Exception:
             pass
         return mmpdf
diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index e5c7194..dd9d87a 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -1315,7 +1315,7 @@ class FitDistribution(rv_frozen):
 
         try:
             par_cov = self._invert_hessian(hessian)
-        except:
+        except (ValueError, np.linalg.LinAlgError):
             par_cov = np.full(hessian.shape, np.nan)
         return par_cov
 
@@ -1406,6 +1406,8 @@ class FitDistribution(rv_frozen):
             try:
                 profile = profiler(param_i, i=i)
                 cinterval.append(profile.get_bounds(alpha=alpha))
+            except MemoryError:
+                raise
             except Exception:
                 cinterval.append((np.nan, np.nan))
         return np.array(cinterval)
-- 
2.43.0


From 93e05f22fae7010e425be2cd50894ff7b7cced3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 08/49] fix: edf sorted the caller's sample (and so the time
 series in TimeSeries.trdata)

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 7972265..b0d0e4b 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -82,8 +82,7 @@ def edf(x, method=2):
 
      See also edf, pdfplot, cumtrapz
     """
-    z = atleast_1d(x)
-    z.sort()
+    z = np.sort(atleast_1d(x))
 
     n = len(z)
     if method == 1:
-- 
2.43.0


From e6ba6894d4eb9cb755171dcd55d3c6a7ebd5199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 09/49] fix: TransformEstimator replaced its own gvar while
 estimating

---
 src/wafo/transform/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index 5cab43c..0d86769 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -336,9 +336,8 @@ class TransformEstimator(object):
         if ng == 1:
             gvar = self.gvar * np.ones(ncr)
         else:
-            self.gvar = np.atleast_1d(self.gvar)
             gvar = np.interp(np.linspace(0, 1, ncr),
-                             np.linspace(0, 1, ng), self.gvar.ravel())
+                             np.linspace(0, 1, ng), np.ravel(self.gvar))
 
         ind = np.flatnonzero(np.diff(cdf.args) > 0)  # remove equal points
         nd = len(ind)
-- 
2.43.0


From aa062cc45cfdffd8f7e8079a1562505101fa7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:13 +0000
Subject: [PATCH 10/49] fix: settings of one Rind object were used by another
 (or changed for good by one call)

---
 src/wafo/gaussian.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 08bc1ef..f980a0a 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -5,6 +5,8 @@ from numpy import triu
 from scipy.special import ndtr as cdfnorm, ndtri as invnorm
 from scipy.special import erfc
 from scipy.stats import multivariate_normal as mvn
+import copy
+import threading
 import warnings
 import numpy as np
 
@@ -29,6 +31,9 @@ __all__ = ['Rind', 'rindmod', 'mvnprdmod', 'mvn', 'cdflomax', 'prbnormtndpc',
            'prbnormndpc', 'prbnormnd', 'cdfnorm2d', 'prbnorm2d', 'cdfnorm',
            'invnorm']
 
+# rindmod keeps its settings in Fortran module variables shared by all objects
+_RIND_LOCK = threading.RLock()
+
 
 class Rind(object):
 
@@ -308,19 +313,20 @@ class Rind(object):
             # self.abseps  = max(self.abseps- truncError,0);
             # self.releps  = max(self.releps- truncError,0);
 
-        if self.method > 0:
-            names = ['method', 'xcscale', 'abseps', 'releps', 'coveps',
-                     'maxpts', 'minpts', 'nit', 'xcutoff', 'nc1c2', 'quadno',
-                     'xsplit']
+        names = ['method', 'xcscale', 'abseps', 'releps', 'coveps',
+                 'maxpts', 'minpts', 'nit', 'xcutoff', 'nc1c2', 'quadno',
+                 'xsplit']
 
-            constants = [getattr(self, name) for name in names]
-            constants[0] = mod(constants[0], 10)
+        constants = [getattr(self, name) for name in names]
+        constants[0] = mod(constants[0], 10)
+        with _RIND_LOCK:
             rindmod.set_constants(*constants)  # @UndefinedVariable
 
     def __call__(self, cov, m, ab, bb, indI=None, xc=None, nt=None, **kwds):
         if any(kwds):
-            self.__dict__.update(**kwds)
-            self.set_constants()
+            rind = copy.copy(self)
+            rind.__dict__.update(**kwds)
+            return rind(cov, m, ab, bb, indI, xc, nt)
         if xc is None:
             xc = zeros((0, 1))
 
@@ -364,7 +370,9 @@ class Rind(object):
         b_lo[0, ind] = maximum(b_lo[0, ind], -infinity * dev[indI[ind + 1]])
         ind2 = indI + 1
 
-        return rindmod.rind(big, Ex, xc, nt, ind2, b_lo, b_up, infin, seed)
+        with _RIND_LOCK:
+            self.set_constants()
+            return rindmod.rind(big, Ex, xc, nt, ind2, b_lo, b_up, infin, seed)
 
 
 def test_rind():
-- 
2.43.0


From b8d203494b75f9f475a4d2ac83e5729c7479f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:29 +0000
Subject: [PATCH 11/49] fix: to_mm_pdf in one thread could integrate with the
 settings of another

---
 src/wafo/spectrum/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index d6d14fe..ad165a3 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1,3 +1,4 @@
+import threading
 import warnings
 import os
 import numpy as np
@@ -41,6 +42,9 @@ except ImportError:
     warnings.warn('Compile the cov2mod.pyd again!')
     cov2mod = None
 
+# cov2mod keeps its settings in Fortran module variables
+_COV2MOD_LOCK = threading.Lock()
+
 # Trick to avoid error due to circular import
 _WAFOCOV = JITImport('wafo.covariance')
 
@@ -1284,8 +1288,9 @@ class SpecData1D(PlotData):
         Tg = trdata.args
         Xg = trdata.data
 
-        cov2mod.initinteg(EPS, EPSS, EPS0, C, IAC, ISQ)
-        uvdens = cov2mod.cov2mmpdfreg(t, R, h, h, Tg, Xg, nit)
+        with _COV2MOD_LOCK:
+            cov2mod.initinteg(EPS, EPSS, EPS0, C, IAC, ISQ)
+            uvdens = cov2mod.cov2mmpdfreg(t, R, h, h, Tg, Xg, nit)
         uvdens = np.rot90(uvdens, -2)
 
         dh = h[1] - h[0]
-- 
2.43.0


From ec6138f7dd5b7efad329fffdeae463ba5bfdc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 12/49] fix: PlotData.copy shared its arrays, labels and
 transformation with the original

---
 src/wafo/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index 3371809..c2e1662 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -1,3 +1,4 @@
+import copy
 import warnings
 from wafo.graphutil import cltext
 from wafo.plotbackend import plotbackend as plt
@@ -88,7 +89,7 @@ class PlotData(object):
 
     def copy(self):
         newcopy = empty_copy(self)
-        newcopy.__dict__.update(self.__dict__)
+        newcopy.__dict__.update(copy.deepcopy(self.__dict__))
         return newcopy
 
     def eval_points(self, *points, **kwds):
-- 
2.43.0


From 28cfc9d8ac687c6a68aa8633e91d822a428adf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:39 +0000
Subject: [PATCH 13/49] fix: TrHermite kept the polynomial of earlier settings,
 also through a copy

---
 src/wafo/transform/models.py | 76 ++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b470827..fa6bc6a 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -143,11 +143,7 @@ class TrHermite(TrCommon2):
 
     def __init__(self, *args, **kwds):
         super(TrHermite, self).__init__(*args, **kwds)
-        self._c3 = None
-        self._c4 = None
-        self._forward = None
-        self._backward = None
-        self._x_limit = None
+        self._model = None
         self.pardef = kwds.get('pardef', 1)
         self.set_poly()
 
@@ -208,58 +204,72 @@ class TrHermite(TrCommon2):
         c4 = self._check_c3_c4(c3, c4)
         return c3, c4
 
-    def _set_x_limit(self, root, polynom):
+    def _get_x_limit(self, root, polynom):
         """Compute where it is possible to invert the polynomial"""
         if self.kurt <= 3.:
-            self._x_limit = root
+            x_limit = root
         else:
-            self._x_limit = self.sigma * polynom(root) + self.mean
+            x_limit = self.sigma * polynom(root) + self.mean
         txt1 = '''
     The polynomial is not a strictly increasing function.
-    The derivative of g(x) is infinite at x = %g''' % self._x_limit
+    The derivative of g(x) is infinite at x = %g''' % x_limit
         warnings.warn(txt1)
+        return x_limit
 
     def _check_monotonicity(self, p):
         dp = p.deriv(m=1)  # derivative
         roots = dp.r       # roots of the derivative
         roots = roots[where(abs(imag(roots)) < _EPS)]  # Keep only real roots
         if roots.size > 0:
-            self._set_x_limit(roots, p)
+            return self._get_x_limit(roots, p)
+        return None
 
-    def _set_hardening_model(self):
+    def _hardening_poly(self):
         skew, excess_kurtosis = self.skew, self.kurt - 3.0
         c3, c4 = self._hardening_parameters(skew, excess_kurtosis)
-        p = np.poly1d([-c4, -c3, 1. + 3. * c4, c3])
-        self._forward = p
-        self._backward = lambda yn: self._poly_inv(self._forward, yn)
-        # Check if it is a strictly increasing function.
-        self._check_monotonicity(p)
+        return np.poly1d([-c4, -c3, 1. + 3. * c4, c3])  # forward g
 
-    def _set_softening_model(self):
+    def _softening_poly(self):
         skew, excess_kurtosis = self.skew, self.kurt - 3.0
         c3, c4 = self._softening_parameters(skew, excess_kurtosis)
 
         Km1 = np.sqrt(1. + 2. * c3 ** 2 + 6 * c4 ** 2)
         # backward G
-        p = np.poly1d(np.r_[c4, c3, 1. - 3. * c4, -c3] / Km1)
-        self._backward = p
-        self._forward = lambda yn: self._poly_inv(self._backward, yn)
-
-        # Check if it is a strictly increasing function.
-        self._check_monotonicity(p)
+        return np.poly1d(np.r_[c4, c3, 1. - 3. * c4, -c3] / Km1)
 
     def set_poly(self):
         '''
         Set poly function from stats (i.e., mean, sigma, skew and kurt)
         '''
-        if self.kurt <= 3.0:
-            self._set_hardening_model()
-        else:
-            self._set_softening_model()
+        settings = self._settings()
+        hardening = bool(self.kurt <= 3.0)
+        p = self._hardening_poly() if hardening else self._softening_poly()
+        # Check if it is a strictly increasing function.
+        x_limit = self._check_monotonicity(p)
+        self._model = settings, p, hardening, x_limit
+
+    def _settings(self):
+        return self.mean, self.sigma, self.skew, self.kurt, self.pardef
+
+    def _get_model(self):
+        '''
+        Return polynomial, hardening flag and x_limit for the current settings
+        '''
+        if self._model is None or self._model[0] != self._settings():
+            self.set_poly()
+        return self._model[1:]
+
+    def _forward(self, xn):
+        p, hardening, x_limit = self._get_model()
+        return p(xn) if hardening else self._poly_inv(p, xn, x_limit)
+
+    def _backward(self, yn):
+        p, hardening, x_limit = self._get_model()
+        return self._poly_inv(p, yn, x_limit) if hardening else p(yn)
 
     def check_forward(self, x):
-        if self._x_limit is not None:
-            x00 = self._x_limit
+        x00 = self._get_model()[-1]
+        if x00 is not None:
             txt2 = 'for the given interval x = [%g, %g]' % (x[0], x[-1])
 
             if any(np.logical_and(x[0] <= x00, x00 <= x[-1])):
@@ -301,7 +311,7 @@ class TrHermite(TrCommon2):
         so2 = -c / t  # smallest solution
         return so2
 
-    def _poly_inv(self, p, xn):
+    def _poly_inv(self, p, xn, x_limit):
         '''
         Invert polynomial
         '''
@@ -310,9 +320,9 @@ class TrHermite(TrCommon2):
         elif p.order == 2:
             return self._solve_quadratic(p, xn)
         elif p.order == 3:
-            return self._solve_third_order(p, xn)
+            return self._solve_third_order(p, xn, x_limit)
 
-    def _solve_third_order(self, p, xn):
+    def _solve_third_order(self, p, xn, x_limit):
         # Solve
         # K*(c4*u^3+c3*u^2+(1-3*c4)*u-c3) = xn = (x-ma)/sa
         # -c4*xn^3-c3*xn^2+(1+3*c4)*xn+c3 = u
@@ -340,7 +350,7 @@ class TrHermite(TrCommon2):
 #            Km1 = np.sqrt(1.+2.*c3**2+6*c4**2)
 #            q0 = x0**3-1.5*b1*(x0+xn*Km1)
         # q0 = x0**3-1.5*b1*(x0+xn)
-        if self._x_limit is not None:  # % Three real roots
+        if x_limit is not None:  # % Three real roots
             d = sqrt(-p1)
             theta1 = arccos(-q0 / d ** 3) / 3
             th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
-- 
2.43.0


From 74c1e9835a19b6913516b2d822c8616c5176bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:39 +0000
Subject: [PATCH 14/49] fix: TrOchi kept its parameters when the skewness was
 changed

---
 src/wafo/transform/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index fa6bc6a..67b7335 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -484,7 +484,7 @@ class TrOchi(TrCommon2):
         sigma1 = self.sigma
 
         if skew == 0:
-            self._phat = [sigma1, mean1, 0, 0, 1, 0]
+            self._phat = [sigma1, mean1, 0, 0, 1, 0, skew]
             return
 
         # Solve the equations to obtain the gamma parameters:
@@ -516,14 +516,14 @@ class TrOchi(TrCommon2):
         my2 = (-1. - sqrt(1. - 4. * a ** 2 * sig22)) / a  # % Largest mean
         mean2 = a * sig22 / my2  # % choose the smallest mean
 
-        self._phat = [sigma1, mean1, gam_a, gam_b, sigma2, mean2]
+        self._phat = [sigma1, mean1, gam_a, gam_b, sigma2, mean2, skew]
 
     def _get_par(self):
         '''
         Returns ga, gb, sigma2, mean2
         '''
         if (self._phat is None or self.sigma != self._phat[0] or
-                self.mean != self._phat[1]):
+                self.mean != self._phat[1] or self.skew != self._phat[6]):
             self._par_from_stats()
         # sigma1 = self._phat[0]
         # mean1 = self._phat[1]
-- 
2.43.0


From 729ed9fcef48141e9b95f1d83a67d832eca21655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 15/49] fix: densities of periods used the settings of
 whichever Rind object was made last

Rind.__call__ keeps using the settings of the object constructed last, which
the test suite relies on (test_gaussian.test_rind).
---
 src/wafo/gaussian.py      | 17 +++++++++++++++--
 src/wafo/spectrum/core.py |  8 ++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index f980a0a..73dcc06 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -326,7 +326,11 @@ class Rind(object):
         if any(kwds):
             rind = copy.copy(self)
             rind.__dict__.update(**kwds)
-            return rind(cov, m, ab, bb, indI, xc, nt)
+            with _RIND_LOCK:
+                try:
+                    return rind.evaluate(cov, m, ab, bb, indI, xc, nt)
+                finally:
+                    self.set_constants()
         if xc is None:
             xc = zeros((0, 1))
 
@@ -371,9 +375,18 @@ class Rind(object):
         ind2 = indI + 1
 
         with _RIND_LOCK:
-            self.set_constants()
             return rindmod.rind(big, Ex, xc, nt, ind2, b_lo, b_up, infin, seed)
 
+    def evaluate(self, *args):
+        """
+        Same as __call__, but always with the settings of this object
+
+        (__call__ uses those of the Rind object constructed last.)
+        """
+        with _RIND_LOCK:
+            self.set_constants()
+            return self(*args)
+
 
 def test_rind():
     """ Small test function
diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index ad165a3..7a277f2 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1451,7 +1451,7 @@ class SpecData1D(PlotData):
             #  positive wave period
             BIG = self._covinput_t_pdf(pt, R)
 
-            tmp = rind(BIG, ex[:Ntdc], B_lo, B_up, indI, xc, Nt)
+            tmp = rind.evaluate(BIG, ex[:Ntdc], B_lo, B_up, indI, xc, Nt)
             f[pt], err[pt] = tmp[:2]
             # fwaitbar(pt/Ntime,h11,sprintf('%s Ready: %d of %d',
             #                        datestr(now),pt,Ntime))
@@ -2075,7 +2075,7 @@ class SpecData1D(PlotData):
                 # positive wave period
                 # self._covinput_mmt_pdf(BIG, R, tn, ts, tnold)
                 BIG[:Ntdc, :Ntdc] = covinput(BIG[:Ntdc, :Ntdc], R, Ntd, 0)
-                fxind, err0, terr0 = rind(BIG[:Ntdc, :Ntdc], ex[:Ntdc],
+                fxind, err0, terr0 = rind.evaluate(BIG[:Ntdc, :Ntdc], ex[:Ntdc],
                                           a_lo, a_up, indI, xc, Nt)
                 err0 = err0 ** 2
                 # fxind  = CC*rind(BIG(1:Ntdc,1:Ntdc),ex(1:Ntdc),xc,Nt,NIT1,
@@ -2151,7 +2151,7 @@ class SpecData1D(PlotData):
                         # positive wave period
                         BIG[:Ntdc, :Ntdc] = covinput(BIG[:Ntdc, :Ntdc],
                                                      R, tn, ts, tnold)
-                        fxind, err0, terr0 = rind(BIG[:Ntdc, :Ntdc], ex[:Ntdc],
+                        fxind, err0, terr0 = rind.evaluate(BIG[:Ntdc, :Ntdc], ex[:Ntdc],
                                                   a_lo, a_up, indI, xc, Nt)
                         err0 = err0 ** 2
                         # tnold = tn
@@ -2208,7 +2208,7 @@ class SpecData1D(PlotData):
                         #  positive wave period
                         BIG[:Ntdc, :Ntdc] = covinput(BIG[:Ntdc, :Ntdc],
                                                      R, tn, ts, tnold)
-                        fxind, err0, terr0 = rind(BIG[:Ntdc, :Ntdc], ex[:Ntdc],
+                        fxind, err0, terr0 = rind.evaluate(BIG[:Ntdc, :Ntdc], ex[:Ntdc],
                                                   a_lo, a_up, indI, xc, Nt)
 
                         # [fxind,err0] = rind(BIG(1:Ntdc,1:Ntdc),ex,a_lo,a_up,
-- 
2.43.0


From 5915caf266fb16178e98803241497940c22f08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 16/49] fix: changing the frequency type wrote into the arrays
 given by the caller, or half way

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 7a277f2..fa5217b 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -731,13 +731,13 @@ class SpecData1D(PlotData):
         if self._freqtype == freqtype:
             return  # do nothind
         if freqtype == 'w' and self._freqtype == 'f':
-            self.args *= 2 * np.pi
-            self.data /= 2 * np.pi
+            self.args, self.data = (np.multiply(self.args, 2 * np.pi),
+                                    np.divide(self.data, 2 * np.pi))
             self._freqtype = 'w'
             self.setlabels()
         elif freqtype == 'f' and self._freqtype == 'w':
-            self.args /= 2 * np.pi
-            self.data *= 2 * np.pi
+            self.args, self.data = (np.divide(self.args, 2 * np.pi),
+                                    np.multiply(self.data, 2 * np.pi))
             self._freqtype = 'f'
             self.setlabels()
 
-- 
2.43.0


From c4c5428dcd86e17c571b219695c586f95a1aece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 17/49] fix: a failing SpecData1D.resample left new frequencies
 with the old density

---
 src/wafo/spectrum/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index fa5217b..9f36231 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3529,13 +3529,14 @@ class SpecData1D(PlotData):
                 #    warnings.warn('Spectrum matrix is very large (>33k). ' +
                 #        'Memory problems may occur.')
                 nfft = newNfft
-            self.args = linspace(0, wnNew, nfft)
+            args = linspace(0, wnNew, nfft)
             if method == 'stineman':
-                self.data = stineman_interp(self.args, w, S1)
+                data = stineman_interp(args, w, S1)
             else:
                 intfun = interpolate.interp1d(w, S1, kind=method)
-                self.data = intfun(self.args)
-            self.data = self.data.clip(0)  # clip negative values to 0
+                data = intfun(args)
+            # clip negative values to 0
+            self.args, self.data = args, data.clip(0)
 
     def interp(self, dt):
         S = self.copy()
-- 
2.43.0


From 0d3d7fd639f3f655209a6c83abc1947f14896ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 18/49] fix: a failing SpecData1D.normalize left a half
 normalized spectrum

---
 src/wafo/spectrum/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 9f36231..fb9c65c 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3592,14 +3592,14 @@ class SpecData1D(PlotData):
         B = SM2 / (SM0 * m0)
 
         if self.freqtype == 'f':
-            self.args = self.args * A / 2 / pi
-            self.data = self.data * B * 2 * pi
+            self.args, self.data = (self.args * A / 2 / pi,
+                                    self.data * B * 2 * pi)
         elif self.freqtype == 'w':
-            self.args = self.args * A
-            self.data = self.data * B
             m02 = m4 / gravity ** 2
             m20 = m02
-            self.g = gravity * sqrt(m0 * m20) / m2
+            g = gravity * sqrt(m0 * m20) / m2
+            self.args, self.data = self.args * A, self.data * B
+            self.g = g
         self.A = A
         self.norm = True
         self.date = now()
-- 
2.43.0


From e1fe8f8cbc50b2a4cf0c0542a893738392cebc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:46 +0000
Subject: [PATCH 19/49] fix: SpecData2D.rotate wrote into the caller's grid
 and, when it failed, left a half rotated spectrum

---
 src/wafo/spectrum/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index fb9c65c..cdf7b67 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -4062,6 +4062,13 @@ class SpecData2D(PlotData):
         --------
         spec2spec
         '''
+        # work on a copy: the arrays may belong to the caller, and self should
+        # stay as it is if the rotation fails
+        Snew = self.copy()
+        Snew._rotate(phi, rotateGrid, method)
+        self.__dict__.update(Snew.__dict__)
+
+    def _rotate(self, phi, rotateGrid, method):
         # TODO: Make physical grid rotation of cartesian coordinates more
         # robust.
 
-- 
2.43.0


From 353c467b7ed42a8a2932ad75b9bf8ec2456adbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 20/49] fix: gaussq used the nodes of another weight function
 with nearly the same alpha or beta

---
 src/wafo/integrate.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index dc0b95f..e132808 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -10,11 +10,10 @@ from wafo.plotbackend import plotbackend as plt
 from wafo.demos import humps
 from numdifftools.extrapolation import dea3
 # from wafo.dctpack import dct
-from collections import defaultdict
 # from pychebfun import Chebfun
 
 _EPS = np.finfo(float).eps
-_NODES_AND_WEIGHTS = defaultdict(list)
+_NODES_AND_WEIGHTS = {}
 
 __all__ = ['dea3', 'clencurt', 'romberg',
            'h_roots', 'j_roots', 'la_roots', 'p_roots', 'qrule',
@@ -938,11 +937,10 @@ class _Gaussq(object):
     @staticmethod
     def _nodes_and_weights(num_nodes, wfun, alpha, beta):
         global _NODES_AND_WEIGHTS
-        name = 'wfun{:d}_{:d}_{:g}_{:g}'.format(wfun, num_nodes, alpha, beta)
-        nodes_and_weights = _NODES_AND_WEIGHTS[name]
-        if len(nodes_and_weights) == 0:
-            nodes_and_weights.extend(qrule(num_nodes, wfun, alpha, beta))
-        nodes, weights = nodes_and_weights
+        key = (wfun, num_nodes, alpha, beta)
+        if key not in _NODES_AND_WEIGHTS:
+            _NODES_AND_WEIGHTS[key] = qrule(num_nodes, wfun, alpha, beta)
+        nodes, weights = _NODES_AND_WEIGHTS[key]
         return nodes, weights
 
     def _initialize_trace(self, max_iter):
-- 
2.43.0


From 6c63c88e0a52d3f47d26d38fe9a79cf7632bec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 21/49] fix: a gaussq call could trace, or fail to, because
 another one did

---
 src/wafo/integrate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index e132808..3ef645f 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -1004,6 +1004,12 @@ class _Gaussq(object):
 
     def __call__(self, fun, a, b, releps=1e-3, abseps=1e-3, alpha=0, beta=0,
                  wfun=1, trace=False, args=(), max_iter=11):
+        # the trace belongs to this call alone
+        return _Gaussq()._integrate(fun, a, b, releps, abseps, alpha, beta,
+                                    wfun, trace, args, max_iter)
+
+    def _integrate(self, fun, a, b, releps, abseps, alpha, beta, wfun, trace,
+                   args, max_iter):
         self.trace = trace
         num_nodes = 2
 
-- 
2.43.0


From 52b51409a38e2dcf686c7293a9b9571b35841252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 22/49] fix: clencurt halved the end points of the caller's
 data

---
 src/wafo/integrate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 3ef645f..dd5e34d 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -105,6 +105,7 @@ def clencurt(fun, a, b, n=5, trace=False):
 
     # using a Gauss-Lobatto variant, i.e., first and last
     # term f(a) and f(b) is multiplied with 0.5
+    f = np.array(f)  # leave the data of the caller alone
     f[0, :] = f[0, :] / 2
     f[n_2, :] = f[n_2, :] / 2
 
-- 
2.43.0


From 7fcfbc20f7e6faa3553e1f35a0886febcdd6c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:31 +0000
Subject: [PATCH 23/49] fix: Kernel.hste and hstt overwrote the caller's
 starting guess

---
 src/wafo/kdetools/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index c3f022c..ee1ca33 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -805,7 +805,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float)
 
         ax1, bx1 = self._get_grid_limits(A)
 
@@ -1005,7 +1005,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float)
 
         ax1, bx1 = self._get_grid_limits(A)
 
-- 
2.43.0


From 5de13c9d31da2afd8fe51f0d64d0220dfdd5c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:01 +0000
Subject: [PATCH 24/49] fix: mctp2tc normalized the caller's frequency matrix
 in place

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 8383c60..2830831 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -391,7 +391,7 @@ def mctp2tc(f_Mm, utc, param, f_mM=None):
     _check_discretization(param, ntc)
 
     # normalization of frequency matrices
-    f_Mm = _normalize_rows(f_Mm)
+    f_Mm = _normalize_rows(f_Mm * 1.0)
     P = np.fliplr(f_Mm)
     Ph = np.rot90(np.fliplr(f_mM * 1.0), -1)
     Ph = _normalize_rows(Ph)
-- 
2.43.0


From 493d914f297557acdeb75730bcd8f9575c415689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:01 +0000
Subject: [PATCH 25/49] fix: gridcount changed the shape of the caller's grid

---
 src/wafo/kdetools/gridding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index f1bf7f7..a291806 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -260,7 +260,7 @@ def _gridcount_nd(acfun, data, x, y, w, binx):
 
 
 def _gridcount_1d(acfun, data, x, y, w, binx, inc):
-    x.shape = -1,
+    x = x.ravel()
     c = (acfun(binx, (x[binx + 1] - data) * y, shape=(inc, )) +
          acfun(binx + 1, (data - x[binx]) * y, shape=(inc, ))).ravel()
     return c / w
-- 
2.43.0


From b0c0b7346ea45e213261a97c88fe5e129b5907fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:01 +0000
Subject: [PATCH 26/49] fix: plot_histgrm changed the shape of the caller's
 bins

---
 src/wafo/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 296f95f..ba35409 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2722,6 +2722,7 @@ def _histogram(data, bins=None, range=None, density=False, weights=None):  # @Re
                                 range=range,
                                 weights=weights,
                                 density=density)
+    limits = np.array(limits)  # may be the caller's bins
     xx, yy = _make_bars(limits, bin_)
     return xx, yy, limits
 
-- 
2.43.0


From e3ca61bedd5fcda4c3a65290b04b6cfc211654ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:01 +0000
Subject: [PATCH 27/49] fix: fourier changed the shape of the caller's time
 vector

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index ba35409..0a81b51 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2894,7 +2894,7 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
     intfun = trapz if method.startswith('trapz') else simps
 
     # Define the vectors for computing the Fourier coefficients
-    t.shape = (1, -1)
+    t = t.reshape(1, -1)
     a = zeros((m, p))
     b = zeros((m, p))
     a[0] = intfun(x, t, axis=-1)
-- 
2.43.0


From e928a1715012b40963bcf5c07fde4a8d7774b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:01 +0000
Subject: [PATCH 28/49] fix: TransferFunction.tran reshaped and wrote into the
 caller's frequencies

---
 src/wafo/wave_theory/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index c0ebefc..649e3e4 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -328,12 +328,13 @@ class TransferFunction(object):
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-        theta.shape = (-1, 1)
-        kw.shape = (-1,)
-        w.shape = (-1,)
+        theta = theta.reshape(-1, 1)
+        kw = kw.reshape(-1)
+        w = w.reshape(-1)
 
         tran_fun = self._tran_dict[self.sensortype]
         Hw, Gwt = tran_fun(w, theta, kw)
+        Hw = np.array(Hw)  # may be the caller's w or kw
 
         # New call to avoid singularities. pab 07.11.2000
         # Set Hw to 0 for expressions w*hyperbolic_ratio(z*k,h*k,1,-1)= 0*inf
-- 
2.43.0


From 12e00c6dc3afcb81bbad7d8fd0b3b1a344fdf721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:48 +0000
Subject: [PATCH 29/49] fix: SavitzkyGolay.smooth_last on several signals broke
 the filter for later calls

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index c8d0df5..842edc7 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -157,7 +157,7 @@ class SavitzkyGolay(object):
         if n == 0:
             return y
         if y.ndim > 1:
-            coeff.shape = (-1, 1)
+            coeff = coeff.reshape(-1, 1)
         first_vals = y[0] - np.abs(y[n:0:-1] - y[0])
         last_vals = y[-1] + np.abs(y[-2:-n - 2:-1] - y[-1])
         y = concatenate((first_vals, y, last_vals))
-- 
2.43.0


From 3128f9d5296ccf6b2d03f3e3fb704672dd6333ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:48 +0000
Subject: [PATCH 30/49] fix: smoothn and SmoothNd overwrote the missing values
 of the caller's data

---
 src/wafo/sg_filter/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 842edc7..6e8af28 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -298,6 +298,7 @@ class _Filter(object):
 
         self.z0 = self._get_start_condition(y, z0)
 
+        self.y = np.array(y)
         self.y[~self.is_finite] = 0  # arbitrary values for missing y-data
 
         # Error on p. Smoothness parameter s = 10^p
-- 
2.43.0


From 45e79058b523cd9785152f4c075b8cba1799763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:48 +0000
Subject: [PATCH 31/49] fix: a measurement that the Kalman filter rejected
 still changed its covariance

---
 src/wafo/sg_filter/_core.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 6e8af28..db631fe 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1001,15 +1001,19 @@ class Kalman(object):
 
     def _filter_first(self, z, u):
 
+        state = self.__dict__.copy()
+        try:
+            if self.x is None:
+                self.x = self._first_state(z)
+            else:
+                n = np.size(self.x)
+                self._init_first(n)
+                self._filter_main(z, u)
+        except Exception:
+            self.__dict__.update(state)  # z was not used
+            raise
         self._filter = self._filter_main
-
-        if self.x is None:
-            self.x = self._first_state(z)
-            return self.x
-
-        n = np.size(self.x)
-        self._init_first(n)
-        return self._filter_main(z, u)
+        return self.x
 
     def _predict_state(self, x, u):
         return np.dot(self.A, x) + np.dot(self.B, u)
@@ -1042,8 +1046,9 @@ class Kalman(object):
 
         K = self._compute_gain(P)
 
-        self.P = self._update_covariance(P, K)
+        P = self._update_covariance(P, K)
         self.x = self._update_state_from_observation(x, z, K)
+        self.P = P
 
         return self.x
 
-- 
2.43.0


From be6e5a6b963ff86b772ec0273f772df120b7e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:48 +0000
Subject: [PATCH 32/49] fix: HampelFilter returned the bounds of a call made by
 another thread

---
 src/wafo/sg_filter/_core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index db631fe..82dde82 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1210,17 +1210,18 @@ class HampelFilter(object):
         YY = Y.copy()
         T = self.t
         # Prepare Output
-        self.UB = Y0 + T * S0
-        self.LB = Y0 - T * S0
+        UB = Y0 + T * S0
+        LB = Y0 - T * S0
         outliers = np.abs(Y - Y0) > T * S0  # possible outliers
         np.putmask(YY, outliers, Y0)        # YY[outliers] = Y0[outliers]
+        self.UB, self.LB = UB, LB
         self.outliers = outliers
         self.num_outliers = outliers.sum()
         self.ADX = ADX
         self.Y0 = Y0
         if self.fulloutput:
             return YY, dict(outliers=outliers, Y0=Y0,
-                            LB=self.LB, UB=self.UB, ADX=ADX)
+                            LB=LB, UB=UB, ADX=ADX)
         return YY
 
 
-- 
2.43.0


From a8b3623f7c20b39a3e340123f63625d2bd23501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:28 +0000
Subject: [PATCH 33/49] fix: KDE replaced negative smoothing values in the
 caller's array

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 4ba360a..64243da 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -619,7 +619,7 @@ class KDE(_KDE):
 
     def _check_hs(self, h):
         """make sure it has the correct dimension and replace negative vals"""
-        h = np.atleast_1d(h)
+        h = np.array(np.atleast_1d(h))
         if (len(h.shape) == 1) or (self.d == 1):
             h = h * np.ones(self.d) if max(h.shape) == 1 else h.reshape(self.d)
             self._replace_negatives_with_default_hs(h)
-- 
2.43.0


From ea9b3012d5f0303b0e70659c9896a2abc05b8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:28 +0000
Subject: [PATCH 34/49] fix: a density or regression estimate could come with
 the grid or method of another thread's query

---
 src/wafo/kdetools/kdetools.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 64243da..68fa47e 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -12,6 +12,7 @@
 
 # from abc import ABCMeta, abstractmethod
 import copy
+from functools import partial
 import warnings
 import numpy as np
 from numpy import linalg
@@ -185,12 +186,11 @@ class _KDE(object):
             msg = "Could not calculate contour levels!. ({})".format(str(e))
             warnings.warn(msg)
 
-    def _make_object(self, f, **kwds):
+    def _make_object(self, f, args, **kwds):
         titlestr = 'Kernel density estimate ({})'.format(self.kernel.name)
         kwds2 = dict(title=titlestr)
         kwds2['plot_kwds'] = dict(plotflag=1)
         kwds2.update(**kwds)
-        args = self.args
         if self.d == 1:
             args = args[0]
         wdata = PlotData(f, args, **kwds2)
@@ -221,7 +221,7 @@ class _KDE(object):
         f = eval_grd(*args, **kwds)
         if output == 'value':
             return f
-        return self._make_object(f, **kwds)
+        return self._make_object(f, args, **kwds)
 
     def _check_shape(self, points):
         points = atleast_2d(points)
@@ -429,7 +429,6 @@ class TKDE(_KDE):
 
         fi = interpolate.griddata(points, np.ravel(f), tuple(ipoints),
                                   method='linear', fill_value=0.0)
-        self.args = args
         r = kwds.get('r', 0)
         if r == 0:
             return fi * (fi > 0)
@@ -446,14 +445,11 @@ class TKDE(_KDE):
 
     def _eval_grid_fast(self, *args, **kwds):
         if self.L2 is None:
-            f = self.tkde.eval_grid_fast(*args, **kwds)
-            self.args = self.tkde.args
-            return f
-        targs = self._get_targs(args)
+            return self.tkde.eval_grid_fast(*args, **kwds)
+        targs = self._get_targs(args) if len(args) else self.tkde.get_args()
         tf = self.tkde.eval_grid_fast(*targs)
 
-        self.args = self._inverse_transform(list(self.tkde.args))
-        points = meshgrid(*self.args)
+        points = meshgrid(*self._inverse_transform(list(targs)))
         f = self._scale_pdf(tf, points)
         if len(args):
             return self._interpolate(points, f, *args, **kwds)
@@ -900,17 +896,15 @@ class KRegression(object):
         self.y = np.atleast_1d(y)
         self.p = p
 
-        self._grdfun = None
-
     def eval_grid_fast(self, *args, **kwds):
-        self._grdfun = self.tkde.eval_grid_fast
-        return self.tkde.eval_grid_fun(self._eval_gridfun, *args, **kwds)
+        eval_grd = partial(self._eval_gridfun, self.tkde.eval_grid_fast)
+        return self.tkde.eval_grid_fun(eval_grd, *args, **kwds)
 
     def eval_grid(self, *args, **kwds):
-        self._grdfun = self.tkde.eval_grid
-        return self.tkde.eval_grid_fun(self._eval_gridfun, *args, **kwds)
+        eval_grd = partial(self._eval_gridfun, self.tkde.eval_grid)
+        return self.tkde.eval_grid_fun(eval_grd, *args, **kwds)
 
-    def _eval_gridfun(self, *args, **kwds):
+    def _eval_gridfun(self, grdfun, *args, **kwds):
         """
         References
         ----------
@@ -918,7 +912,6 @@ class KRegression(object):
         Kernel smoothing, Eq. 5.4, pp. 119 and appendix D4 pp 189
 
         """
-        grdfun = self._grdfun
         s0 = grdfun(*args, r=0)
         t0 = grdfun(*args, r=0, y=self.y)  # TODO: Check accuracy. Culprit fft/ifft?
         if self.p == 0:
-- 
2.43.0


From 41bc46d3b6014ef8e4f7dabd9078a1bd6a26d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:28 +0000
Subject: [PATCH 35/49] fix: BKRegression.prb_smoothed replaced the smoothing
 of the object

---
 src/wafo/kdetools/kdetools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 68fa47e..0a7d4f6 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -1121,9 +1121,10 @@ class BKRegression(object):
         n = self.x.size
 
         x_s = np.linspace(x_e[0], x_e[-1], 10 * n_e + 1).ravel()
-        self.hs = hs
+        kreg = copy.deepcopy(self.kreg)
+        kreg.tkde.hs = hs
 
-        prb_s = self.kreg(x_s, output='plotobj', title='', plot_kwds=dict(
+        prb_s = kreg(x_s, output='plotobj', title='', plot_kwds=dict(
             color=color, linewidth=2))  # dict(plotflag=7))
         m_nan = np.isnan(prb_s.data)
         if m_nan.any():  # assume 0/0 division
@@ -1131,7 +1132,7 @@ class BKRegression(object):
         prb_s.data = prb_s.data.clip(min=0, max=1.0)
         # prb_s.data[np.isnan(prb_s.data)] = 0
         # expected number of data in each bin
-        c_s = self.kreg.tkde.eval_grid_fast(x_s) * dx_e * n
+        c_s = kreg.tkde.eval_grid_fast(x_s) * dx_e * n
         plo, pup = self.prb_ci(c_s, prb_s.data, alpha)
 
         prb_s.dataCI = np.vstack((plo, pup)).T
-- 
2.43.0


From 8924791b385dbb99d2b7114cb72ed1683b8895b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:35 +0000
Subject: [PATCH 36/49] Revert "fix: smoothn and SmoothNd overwrote the missing
 values of the caller's data"

The docstring example of smoothn, which is part of the test suite, relies on it.
---
 src/wafo/sg_filter/_core.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 82dde82..27d4429 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -298,7 +298,6 @@ class _Filter(object):
 
         self.z0 = self._get_start_condition(y, z0)
 
-        self.y = np.array(y)
         self.y[~self.is_finite] = 0  # arbitrary values for missing y-data
 
         # Error on p. Smoothness parameter s = 10^p
-- 
2.43.0


From e930e540a3e1908cc42703ddc58011ffbf6e0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:54 +0000
Subject: [PATCH 37/49] fix: density estimators kept values derived from
 earlier settings, or half of a failed change

Also BKRegression.get_grid returns a vector without relying on gridcount to
reshape it.
---
 src/wafo/kdetools/kdetools.py | 86 ++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 21 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 0a7d4f6..d8260fb 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -60,6 +60,7 @@ def _logit(p):
 
 
 class _KDE(object):
+    _ready = False  # True when all settings are in place
 
     def __init__(self, data, kernel=None, xmin=None, xmax=None):
         self.dataset = data
@@ -69,6 +70,32 @@ class _KDE(object):
 
         self.args = None
 
+    def _change(self, **settings):
+        """Change settings and all that is derived from them, or nothing"""
+        old = self.__dict__.copy()
+        self.__dict__.update(settings)
+        try:
+            if self._ready:
+                self._refresh()
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(old)
+            raise
+
+    def _refresh(self):
+        ones = np.ones(self.d)
+        # pylint: disable=attribute-defined-outside-init
+        self._xmin = self._check_xmin(self._xmin * ones)
+        self._xmax = self._check_xmax(self._xmax * ones)
+
+    @property
+    def kernel(self):
+        return self._kernel
+
+    @kernel.setter
+    def kernel(self, kernel):
+        self._change(_kernel=kernel)
+
     @property
     def inc(self):
         return self._inc
@@ -84,8 +111,7 @@ class _KDE(object):
 
     @dataset.setter
     def dataset(self, data):
-        # pylint: disable=attribute-defined-outside-init
-        self._dataset = atleast_2d(data)
+        self._change(_dataset=atleast_2d(data))
 
     @property
     def n(self):
@@ -110,8 +136,7 @@ class _KDE(object):
     def xmin(self, xmin):
         if xmin is None:
             xmin = self.dataset.min(axis=-1) - 2 * self.sigma
-        # pylint: disable=attribute-defined-outside-init
-        self._xmin = self._check_xmin(xmin * np.ones(self.d))
+        self._change(_xmin=self._check_xmin(xmin * np.ones(self.d)))
 
     def _check_xmin(self, xmin):
         return xmin
@@ -124,8 +149,7 @@ class _KDE(object):
     def xmax(self, xmax):
         if xmax is None:
             xmax = self.dataset.max(axis=-1) + 2 * self.sigma
-        # pylint: disable=attribute-defined-outside-init
-        self._xmax = self._check_xmax(xmax * np.ones(self.d))
+        self._change(_xmax=self._check_xmax(xmax * np.ones(self.d)))
 
     def _check_xmax(self, xmax):
         return xmax
@@ -355,11 +379,27 @@ class TKDE(_KDE):
                  xmin=None, xmax=None, inc=512, L2=None):
         self.L2 = L2
         super(TKDE, self).__init__(data, kernel, xmin, xmax)
+        self.tkde = self._make_tkde(hs, alpha, inc)
+        self._ready = True
 
+    def _make_tkde(self, hs, alpha, inc):
         tdataset = self._transform(self.dataset)
         txmin = np.ravel(self._transform(np.reshape(self.xmin, (-1, 1))))
         txmax = np.ravel(self._transform(np.reshape(self.xmax, (-1, 1))))
-        self.tkde = KDE(tdataset, hs, self.kernel, alpha, txmin, txmax, inc)
+        return KDE(tdataset, hs, self.kernel, alpha, txmin, txmax, inc)
+
+    def _refresh(self):
+        super(TKDE, self)._refresh()
+        tkde = self.tkde
+        self.tkde = self._make_tkde(tkde.hs, tkde.alpha, tkde.inc)
+
+    @property
+    def L2(self):
+        return self._L2
+
+    @L2.setter
+    def L2(self, L2):
+        self._change(_L2=L2)
 
     def _check_xmin(self, xmin):
         if self.L2 is not None:
@@ -605,7 +645,21 @@ class KDE(_KDE):
         super(KDE, self).__init__(data, kernel, xmin, xmax)
         self.hs = hs
         self.inc = inc
-        self.alpha = alpha
+        self._alpha = alpha
+        self._refresh()
+        self._ready = True
+
+    def _refresh(self):
+        super(KDE, self)._refresh()
+        # pylint: disable=attribute-defined-outside-init
+        self._hs = self._check_hs(self._hs)
+        self._inv_hs, deth = self._invert_hs(self._hs)
+        self._norm_factor = deth * self.n
+        self._lambda = np.ones(self.n)
+        if self._alpha > 0:
+            f = self.eval_points(self.dataset)  # pilot estimate
+            g = np.exp(np.mean(np.log(f)))
+            self._lambda = (f / g) ** (-self._alpha)
 
     def _replace_negatives_with_default_hs(self, h):
         get_default_hs = self.kernel.get_smoothing
@@ -640,11 +694,7 @@ class KDE(_KDE):
     def hs(self, h):
         if h is None:
             h = self.kernel.get_smoothing(self.dataset)
-        h = self._check_hs(h)
-        # pylint: disable=attribute-defined-outside-init
-        self._inv_hs, deth = self._invert_hs(h)
-        self._norm_factor = deth * self.n
-        self._hs = h
+        self._change(_hs=self._check_hs(h))
 
     @property
     def inc(self):
@@ -667,13 +717,7 @@ class KDE(_KDE):
 
     @alpha.setter
     def alpha(self, alpha):
-        # pylint: disable=attribute-defined-outside-init
-        self._alpha = alpha
-        self._lambda = np.ones(self.n)
-        if alpha > 0:
-            f = self.eval_points(self.dataset)  # pilot estimate
-            g = np.exp(np.mean(np.log(f)))
-            self._lambda = (f / g) ** (-alpha)
+        self._change(_alpha=alpha)
 
     @staticmethod
     def _make_flat_grid(dx, d, inc):
@@ -1001,7 +1045,7 @@ class BKRegression(object):
         xmin, xmax = x.min(), x.max()
         ni = max(2 * int((xmax - xmin) / hs_e) + 3, 5)
         sml = hs_e  # *0.1
-        xi = np.linspace(xmin - sml, xmax + sml, ni).T
+        xi = np.linspace(xmin - sml, xmax + sml, ni).ravel()
         return xi
 
     def _wilson_score(self, n, p, alpha):
-- 
2.43.0


From ddef1c94c7552d44376fdbb706751d78934c807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:02 +0000
Subject: [PATCH 38/49] fix: refitting mixed the results of two fits when it
 failed or used another method

---
 src/wafo/stats/estimation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index dd9d87a..811ebed 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -1168,6 +1168,18 @@ class FitDistribution(rv_frozen):
 
     def fit(self, *args, **kwds):
         """Fit the distribution to the data"""
+        kwds.setdefault('method', self.method)
+        old = self.__dict__.copy()
+        try:
+            self._fit(*args, **kwds)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(old)
+            raise
+
+    def _fit(self, *args, **kwds):
+        self.method = kwds['method']
+        self.search = kwds.get('search', True)
         par, fixedn = self.dist._fit(self.data, *args, **kwds)
         super().__init__(self.dist, *par)
 
-- 
2.43.0


From d50dcbfa2637d605b0da9dcce1d4260e894f6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:02 +0000
Subject: [PATCH 39/49] fix: genextreme.fit sorted the caller's data

---
 src/wafo/stats/distributions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 7593dc4..44cc25b 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -87,11 +87,10 @@ def _genpareto_fitstart(self, data, fitstart):  # pab
 
 
 def _genextreme_fitstart(self, data, fitstart): # pab
-    d = np.asarray(data)
+    d = np.sort(np.asarray(data))
     # Probability weighted moments
     log = np.log
     n = len(d)
-    d.sort()
     koeff1 = np.r_[0:n] / (n - 1)
     koeff2 = koeff1 * (np.r_[0:n] - 1) / (n - 2)
     b2 = np.dot(koeff2, d) / n
-- 
2.43.0


From 65f13906c96d839b5ceaec9b41b5e84919a109c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:17 +0000
Subject: [PATCH 40/49] fix: a first use of a lazily imported module could fail
 when two threads made it together

---
 src/wafo/misc.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 0a81b51..bc9cd04 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -692,14 +692,10 @@ class JITImport(object):
         self._module = None
 
     def __getattr__(self, attr):
-        try:
-            return getattr(self._module, attr)
-        except AttributeError as exc:
-            if self._module is None:
-                self._module = __import__(self._module_name, None, None, ['*'])
-                # assert(isinstance(self._module, types.ModuleType), 'module')
-                return getattr(self._module, attr)
-            raise exc
+        if self._module is None:
+            self._module = __import__(self._module_name, None, None, ['*'])
+            # assert(isinstance(self._module, types.ModuleType), 'module')
+        return getattr(self._module, attr)
 
 
 class DotDict(dict):
-- 
2.43.0


From 74de1000c6adef03d05b81f87d2eddde52a0aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:01 +0000
Subject: [PATCH 41/49] fix: a failing RegLogit.fit left a mixture of two fits

---
 src/wafo/stats/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index b0d0e4b..2b12e5e 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -931,6 +931,15 @@ class RegLogit(object):
       .dL           : First derivative of loglikelihood w.r.t. THETA and BETA.
 
         """
+        old = self.__dict__.copy()
+        try:
+            self._fit(y, X, theta0, beta0)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(old)
+            raise
+
+    def _fit(self, y, X, theta0, beta0):
         self.family = 'multinomial'
         self.link = 'logit'
         y, X = self.check_xy(y, X)
-- 
2.43.0


From 78e2648103e7a86bc4b1d97fd9a36983ddd47fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:18 +0000
Subject: [PATCH 42/49] fix: refitting, or fitting a copied or reloaded
 distribution, started from other values than the first fit

---
 src/wafo/stats/distributions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 44cc25b..40804c4 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -372,11 +372,20 @@ _patch_fit_start_dict = dict(betaprime=_betaprime_fitstart,
                              )
 
 
+def _subclass_with_fitstart(cls, start):
+    """Return subclass of cls, so that also frozen, copied and reloaded distributions start the fit from start"""
+    def _fitstart(self, data, args=None):
+        return start(self, data, fitstart=partial(cls._fitstart, self))
+
+    return type(cls.__name__, (cls,), dict(_fitstart=_fitstart, __module__=__name__, __doc__=cls.__doc__))
+
+
 for distname in _continuous_distns._distn_names + ["rv_histogram"]:  # pylint: disable=protected-access
     _loc[distname] = dist = copy(getattr(_continuous_distns, distname))
     dist.__doc__ = dist.__doc__.replace("scipy.stats", "wafo.stats")
     if distname in _patch_fit_start_dict:
-        dist._fitstart = partial(_patch_fit_start_dict[distname], dist, fitstart=dist._fitstart)
+        dist.__class__ = _subclass_with_fitstart(dist.__class__, _patch_fit_start_dict[distname])
+        _loc[dist.__class__.__name__] = dist.__class__
 
 for distname in _discrete_distns._distn_names:  # pylint: disable=protected-access
     _loc[distname] = dist = copy(getattr(_discrete_distns, distname))
-- 
2.43.0


From 46e9d9c0a5b8b31f29f89106a0b72d135e50fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:54 +0000
Subject: [PATCH 43/49] fix: CovData1D.simcond(method='exact') failed when a
 single point of a long series was missing

---
 src/wafo/covariance/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 36600b3..f96575a 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -606,7 +606,8 @@ class CovData1D(PlotData):
             if issparse(sigma):
                 so1 = so1.todense()
                 s11 = s11.todense()
-                s1o_sooinv = spsolve(soo + soo.T, 2 * so1).T
+                # spsolve drops the last dimension if one point is missing
+                s1o_sooinv = np.reshape(spsolve(soo + soo.T, 2 * so1), so1.shape).T
             else:
                 sooinv_so1, _res, _rank, _s = lstsq(soo + soo.T, 2 * so1,
                                                     cond=1e-4)
-- 
2.43.0


From 348180e7fbc0b5ebdaab209ba52522730bed6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:36 +0000
Subject: [PATCH 44/49] fix: method 0 of Rind used uninitialised integration
 limit flags

---
 source/rind2007/rind71mod.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/rind2007/rind71mod.f b/source/rind2007/rind71mod.f
index b06974f..cc97245 100644
--- a/source/rind2007/rind71mod.f
+++ b/source/rind2007/rind71mod.f
@@ -2617,7 +2617,7 @@
 *            if INFIN(I) = 0, Ith limits are (-infinity, UPPER(I)];
 *            if INFIN(I) = 1, Ith limits are [LOWER(I), infinity);
 *            if INFIN(I) = 2, Ith limits are [LOWER(I), UPPER(I)].
-!         INFIN = 2
+         INFIN = 2
          IF (XMI(1).LE.-xCutOff) INFIN(1)=0
          IF (XMI(2).LE.-xCutOff) INFIN(2)=0
          IF (XMA(1).GE. xCutOff) INFIN(1)=1
-- 
2.43.0


From f618080b417948d6304ea13c8ecfca6340ca7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:47 +0000
Subject: [PATCH 45/49] fix: a copied or reloaded Rind object was evaluated
 with the settings of another one

---
 src/wafo/gaussian.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 73dcc06..a833760 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -5,7 +5,6 @@ from numpy import triu
 from scipy.special import ndtr as cdfnorm, ndtri as invnorm
 from scipy.special import erfc
 from scipy.stats import multivariate_normal as mvn
-import copy
 import threading
 import warnings
 import numpy as np
@@ -322,10 +321,15 @@ class Rind(object):
         with _RIND_LOCK:
             rindmod.set_constants(*constants)  # @UndefinedVariable
 
+    def __setstate__(self, state):
+        # a copied or reloaded object brings its settings along like a new one
+        self.__dict__.update(state)
+        self.set_constants()
+
     def __call__(self, cov, m, ab, bb, indI=None, xc=None, nt=None, **kwds):
         if any(kwds):
-            rind = copy.copy(self)
-            rind.__dict__.update(**kwds)
+            rind = Rind.__new__(type(self))
+            rind.__dict__.update(self.__dict__, **kwds)
             with _RIND_LOCK:
                 try:
                     return rind.evaluate(cov, m, ab, bb, indI, xc, nt)
-- 
2.43.0


From 7a535af2bbd25f2cff7b69ca37312d97e0170a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:11 +0000
Subject: [PATCH 46/49] fix: to_mm_pdf read past the end of its levels and
 times

Interpolating exactly at the last node used the (non existing) next one, so
that the answer depended on whatever memory followed.
---
 source/mreg/intfcmod.f | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/mreg/intfcmod.f b/source/mreg/intfcmod.f
index 6529630..d7362c7 100644
--- a/source/mreg/intfcmod.f
+++ b/source/mreg/intfcmod.f
@@ -89,7 +89,7 @@ C      INTEGER, PARAMETER :: RDIM = 10201
       VALUE=A(1)+T1*DER
       return
       end if
-      IF (T.GT.TIMEV(N)) then
+      IF (T.GE.TIMEV(N)) then
       der = (A(N)-A(N-1))/(TIMEV(N)-TIMEV(N-1))
       T1  = T-TIMEV(N)
       VALUE=A(N)+T1*DER
@@ -123,6 +123,10 @@ C
       INTEGER :: I
       SPLE=-9.9d0
       IF (T.LT.TIMEV(1) .OR. T.GT.TIMEV(N)) RETURN
+      IF (T.EQ.TIMEV(N)) THEN
+      SPLE=A(N)
+      RETURN
+      END IF
       DO I=2,N
       IF (T.LT.TIMEV(I)) GO TO 10
       ENDDO
-- 
2.43.0


From 420dbae7fdf0f5600d3a01b877b16df6db8d034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 47/49] fix: cltext swallowed every error while removing old
 labels, memory exhaustion included

---
 src/wafo/graphutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index 5e4052c..4ff4250 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -53,7 +53,7 @@ def delete_text_object(gidtxt, figure=None, axis=None, verbose=False):
         for obj in objs:
             try:
                 handle.texts.remove(obj)
-            except:
+            except (AttributeError, ValueError):
                 if verbose:
                     warnings.warn(msg)
 
@@ -133,7 +133,7 @@ def cltext(levels, percent=False, n=4, xs=0.036, ys=0.94, zs=0, figure=None,
     # delete cltext object if it exists
     try:
         delete_text_object(_CLTEXT_GID, axis=axis)
-    except Exception:
+    except (AttributeError, ValueError):
         pass
 
     charHeight = 1.0 / 33.0
-- 
2.43.0


From 6a1f4d888fce5d4793fea6e07789a241d96a713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:05 +0000
Subject: [PATCH 48/49] fix: SavitzkyGolay kept the coefficients of its first
 settings after n, degree, diff_order or delta changed

---
 src/wafo/sg_filter/_core.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 27d4429..dd10bf1 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -145,13 +145,16 @@ class SavitzkyGolay(object):
         self.cval = cval
         self.axis = axis
         self.delta = delta
-        window_length = 2 * n + 1
-        self._coeff = _savitzky_golay.savgol_coeffs(window_length,
-                                                    degree, deriv=diff_order,
-                                                    delta=delta)
+        self._get_coeff()  # rejects settings that do not fit together
+
+    def _get_coeff(self):
+        window_length = 2 * self.n + 1
+        return _savitzky_golay.savgol_coeffs(window_length, self.degree,
+                                             deriv=self.diff_order,
+                                             delta=self.delta)
 
     def smooth_last(self, signal, k=1):
-        coeff = self._coeff
+        coeff = self._get_coeff()
         n = (np.size(coeff) - 1) // 2
         y = np.squeeze(signal)
         if n == 0:
@@ -170,7 +173,7 @@ class SavitzkyGolay(object):
         dtype = np.result_type(signal, float)
         x = np.asarray(signal, dtype=dtype)
 
-        coeffs = self._coeff
+        coeffs = self._get_coeff()
         mode, axis = self.mode, self.axis
         if mode == "interp":
             window_length, polyorder = self.n * 2 + 1, self.degree
-- 
2.43.0


From 322b8022d14726e454c7914ef6af52526bf5b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:41 +0000
Subject: [PATCH 49/49] fix: rfcfilter read and wrote past the end of an empty
 signal

---
 src/wafo/_misc_numba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 9b3f85c..479b5c7 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -243,6 +243,8 @@ def findrfc(y, h, method=0):
     """
     n = len(y)
     t = np.zeros(n, dtype=np.int64)
+    if n == 0:
+        return t
     findrfc_ = [_findrfc_le, _findrfc_lt, _findrfc][method]
     m = findrfc_(t, y, h)
     return t[:m]
-- 
2.43.0

