From 205afd01137dfae559676dcb041d4e00c976d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 01/76] fix: FIRuncFilter: integer signals no longer truncate
 the white noise variance

---
 PyDynamic/uncertainty/propagate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index ddaac6a..8b3e8df 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -338,7 +338,7 @@ def FIRuncFilter(
     ):
 
         if isinstance(sigma_noise, float):
-            Uy_diag = np.full_like(y, sigma_noise ** 2)
+            Uy_diag = np.full(len(y), sigma_noise ** 2)
         elif isinstance(sigma_noise, np.ndarray):
             Uy_diag = np.square(sigma_noise)
         else:
-- 
2.43.0


From 4bb6c705bc3f167c54de73fe063b3d1b67168a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 02/76] fix: FIRuncFilter: shift the full covariance along both
 axes

---
 PyDynamic/uncertainty/propagate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 8b3e8df..c588d1d 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -399,7 +399,7 @@ def FIRuncFilter(
         # shift result
         if shift != 0:
             x = np.roll(x, -int(shift))
-            Ux = np.roll(Ux, (-int(shift), -int(shift)))
+            Ux = np.roll(Ux, (-int(shift), -int(shift)), axis=(0, 1))
 
         if return_full_covariance:
             return x, Ux
-- 
2.43.0


From eb86be16e5a7c5d9269968062d205a0283f1b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 03/76] fix: FIRuncFilter: apply shift also in the fast
 diagonal computation

---
 PyDynamic/uncertainty/propagate_filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index c588d1d..245106d 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -354,6 +354,12 @@ def FIRuncFilter(
         x, Ux_diag = _fir_filter_diag(
             y, theta, Uy_diag, Utheta_diag, initial_conditions="constant"
         )
+
+        # shift result
+        if shift != 0:
+            x = np.roll(x, -int(shift))
+            Ux_diag = np.roll(Ux_diag, -int(shift))
+
         return x, np.sqrt(np.abs(Ux_diag))
 
     # otherwise, the method computes full covariance information
-- 
2.43.0


From 7ba486958d33fb1b2bba23e36416033c1c9fbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 04/76] fix: FIRuncFilter: accept 1D Utheta in the full
 covariance computation

---
 PyDynamic/uncertainty/propagate_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 245106d..58cb824 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -388,6 +388,10 @@ def FIRuncFilter(
                 "Unsupported value of sigma_noise. Please check the documentation."
             )
 
+        # translate coefficient-wise standard uncertainties into a covariance matrix
+        if isinstance(Utheta, np.ndarray) and len(Utheta.shape) == 1:
+            Utheta = np.diag(np.square(Utheta))
+
         # filter operation(s)
         if isinstance(blow, np.ndarray):
             # apply (fully certain) lowpass-filter
-- 
2.43.0


From aa8510480e25d50a72635bca02a9bbd99f4ba451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 05/76] fix: IIRuncFilter: import tf2ss and repair the
 state-space recursion

---
 PyDynamic/uncertainty/propagate_filter.py | 32 +++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 58cb824..e703a9b 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -17,7 +17,7 @@ This modules contains the following functions:
 
 import numpy as np
 from scipy.linalg import toeplitz
-from scipy.signal import lfilter, lfilter_zi, dimpulse
+from scipy.signal import lfilter, lfilter_zi, dimpulse, tf2ss
 from scipy.signal import convolve
 from ..misc.tools import trimOrPad
 
@@ -448,7 +448,7 @@ def IIRuncFilter(x, noise, b, a, Uab):
     """
 
     if not isinstance(noise, np.ndarray):
-        noise = noise * np.ones_like(x)  # translate iid noise to vector
+        noise = noise * np.ones(len(x))  # translate iid noise to vector
 
     p = len(a) - 1
 
@@ -459,13 +459,11 @@ def IIRuncFilter(x, noise, b, a, Uab):
     # From discrete-time transfer function to state space representation.
     [A, bs, c, b0] = tf2ss(b, a)
 
-    A = np.matrix(A)
-    bs = np.matrix(bs)
-    c = np.matrix(c)
+    c = np.squeeze(c, axis=0)
+    b0 = np.squeeze(b0)
 
-    phi = np.zeros((2 * p + 1, 1))
+    phi = np.zeros(2 * p + 1)
     dz = np.zeros((p, p))
-    dz1 = np.zeros((p, p))
     z = np.zeros((p, 1))
     P = np.zeros((p, p))
 
@@ -478,16 +476,18 @@ def IIRuncFilter(x, noise, b, a, Uab):
 
     # implementation of the state-space formulas from the paper
     for n in range(len(y)):
+        dz1 = np.zeros((p, p))
         for k in range(p):  # derivative w.r.t. a_1,...,a_p
-            dz1[:, k] = A * dz[:, k] + np.squeeze(Aabl[:, :, k]) * z
-            phi[k] = c * dz[:, k] - b0 * z[k]
-        phi[p + 1] = -np.matrix(a[1:]) * z + x[n]  # derivative w.r.t. b_0
-        for k in range(p + 2, 2 * p + 1):  # derivative w.r.t. b_1,...,b_p
-            phi[k] = z[k - (p + 1)]
-        P = A * P * A.T + noise[n] ** 2 * (bs * bs.T)
-        y[n] = c * z + b0 * x[n]
-        Uy[n] = phi.T * Uab * phi + c * P * c.T + b[0] ** 2 * noise[n] ** 2
-        z = A * z + bs * x[n]  # update of the state equations
+            dz1[:, k] = A.dot(dz[:, k]) + Aabl[:, :, k].dot(z[:, 0])
+            phi[k] = c.dot(dz[:, k]) - b0 * z[k, 0]
+        phi[p] = -np.dot(a[1:], z[:, 0]) + x[n]  # derivative w.r.t. b_0
+        for k in range(p + 1, 2 * p + 1):  # derivative w.r.t. b_1,...,b_p
+            phi[k] = z[k - (p + 1), 0]
+        y[n] = c.dot(z[:, 0]) + b0 * x[n]
+        Uy[n] = phi.dot(Uab).dot(phi) + c.dot(P).dot(c) + b0 ** 2 * noise[n] ** 2
+        # update of the state equations
+        P = A.dot(P).dot(A.T) + noise[n] ** 2 * bs.dot(bs.T)
+        z = A.dot(z) + bs * x[n]
         dz = dz1
 
     Uy = np.sqrt(np.abs(Uy))  # calculate point-wise standard uncertainties
-- 
2.43.0


From f64c1697ac003b553214b2f752c2bb580a98dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 06/76] fix: ARMA: apply the k-th coefficient to lag k

---
 PyDynamic/misc/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/noise.py b/PyDynamic/misc/noise.py
index a122ee1..eafdc40 100644
--- a/PyDynamic/misc/noise.py
+++ b/PyDynamic/misc/noise.py
@@ -200,6 +200,6 @@ def ARMA(length, phi=0.0, theta=0.0, std=1.0):
     for n, wn in enumerate(w):
         min_pn = min(p, n)
         min_qn = min(q, n)
-        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n])) + wn
+        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n][::-1])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n][::-1])) + wn
 
     return e
-- 
2.43.0


From fce31053c99fb3cf2867bcb95b336617b57c43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 07/76] fix: UMC_generic: normalise the covariance of the first
 block

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index f64a762..8e35851 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -701,7 +701,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
 
         if m == 0:  # first block
             y = np.mean(Y, axis=0)
-            Uy = np.matmul((Y - y).T, (Y - y))
+            Uy = np.matmul((Y - y).T, (Y - y)) / max(curr_block - 1, 1)
 
         else:  # updating y and Uy from results of current block
             K0 = m * blocksize
-- 
2.43.0


From 60ca7074b2cfb6865e1092bd2321e2784367590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 08/76] fix: UMC_generic: perform exactly the requested number
 of runs

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 8e35851..d033f2d 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -687,10 +687,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         sims = {"samples": np.empty((runs, *input_shape)), "results": np.empty((runs, *output_shape))}
 
     for m in range(nblocks):
-        if m == nblocks:
-            curr_block = runs % blocksize
-        else:
-            curr_block = blocksize
+        curr_block = min(blocksize, runs - m * blocksize)
 
         Y = np.empty((curr_block, np.prod(output_shape)))
         samples = draw_samples(curr_block)
-- 
2.43.0


From 961444956a8c7562d6814c2d6a66eda2c4b8e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 09/76] fix: UMC_generic: keep samples and results paired with
 several workers

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index d033f2d..de47701 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -645,7 +645,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     else:
         nPool = min(n_cpu, blocksize)
         pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap_unordered
+        map_func = pool.imap
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From 551f38c3d32fb56ea83e7842aa6e6bf739a2d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 10/76] fix: UMC_generic: count every run in the histograms and
 extend the upper edge

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index de47701..c5d5ef5 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -714,7 +714,10 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         # update histogram values
         for k in range(np.prod(output_shape)):
             for h in happr.values():
-                h["bin-counts"][:,k] += np.histogram(Y[:,k], bins = h["bin-edges"][:,k])[0]  # numpy histogram returns (bin-counts, bin-edges)
+                # results beyond the initial limits belong to the outermost bins
+                edges = h["bin-edges"][:,k]
+                Yk = np.clip(Y[:,k], edges[0], edges[-1])
+                h["bin-counts"][:,k] += np.histogram(Yk, bins = edges)[0]  # numpy histogram returns (bin-counts, bin-edges)
 
         ymin = np.min(np.vstack((ymin, Y)), axis=0)
         ymax = np.max(np.vstack((ymax, Y)), axis=0)
@@ -734,7 +737,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # replace edge limits by ymin and ymax, resp.
     for h in happr.values():
         h["bin-edges"][0, :] = np.min(np.vstack((ymin, h["bin-edges"][0, :])), axis=0)
-        h["bin-edges"][-1, :] = np.min(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
+        h["bin-edges"][-1, :] = np.max(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
 
     if return_samples:
         return y, Uy, happr, output_shape, sims
-- 
2.43.0


From 4ab36b63ca5e3bf8ececb5c58569db55766c2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 11/76] fix: UMC: pass the requested number of bins on to
 UMC_generic

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index c5d5ef5..b826f2d 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -499,7 +499,7 @@ def UMC(
     evaluate = functools.partial(_UMCevaluate, **params)
 
     # run UMC
-    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init)
+    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init, nbins=nbins)
 
     # further post-calculation steps
     y_cred_low = np.zeros((len(nbins), len(y)))
-- 
2.43.0


From 9100a4e01bc518115feab09fa1e43ea91eefc961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 12/76] fix: UMC_generic: independent random numbers in the
 worker processes

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index b826f2d..145c765 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -566,6 +566,14 @@ def _UMCevaluate(th, nbb, x, Delta, phi, theta, sigma, blow, alow):
     return lfilter(bb, aa, xlow) + d
 
 
+def _evaluate_seeded(evaluate, sample_and_seed):
+    # each evaluation gets its own random numbers, although worker processes
+    # start with identical copies of the random state
+    sample, seed = sample_and_seed
+    np.random.seed(seed)
+    return evaluate(sample)
+
+
 def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 10, nbins = 100,
                 return_samples = False, n_cpu = multiprocessing.cpu_count()):
     """
@@ -645,7 +653,10 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     else:
         nPool = min(n_cpu, blocksize)
         pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap
+        map_func = lambda func, samples: pool.imap(
+            functools.partial(_evaluate_seeded, func),
+            zip(samples, np.random.randint(2 ** 31 - 1, size=len(samples))),
+        )
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From 51f91fea9f236e2fe32db07f64b10167735d87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 13/76] fix: UMC_generic: release the worker processes

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 145c765..6b3dda4 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -743,6 +743,10 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         progress_bar(m*blocksize, runs, prefix="UMC running:            ")  # spaces on purpose, to match length of progress-bar below
     print("\n") # to escape the carriage-return of progress_bar
 
+    if n_cpu != 1:
+        pool.close()
+        pool.join()
+
     # ----------------- post-calculation steps -----------------------
 
     # replace edge limits by ymin and ymax, resp.
-- 
2.43.0


From eaedf110796b4a9dded466235ee5f7741db68a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 14/76] fix: SMC: iterate over the sample indices

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 6b3dda4..e90f49f 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -332,14 +332,14 @@ def SMC(
         P = np.zeros((len(Perc), len(x)))
 
     # Initialize outputs.
-    y = np.zeros_like(x)
+    y = np.zeros(len(x))
     # Initialize vector of uncorrelated point-wise uncertainties.
-    Uy = np.zeros_like(x)
+    Uy = np.zeros(len(x))
 
     # Start of the actual MC part.
     print("Sequential Monte Carlo progress", end="")
 
-    for index in np.ndenumerate(x):
+    for index in range(len(x)):
 
         w = np.random.randn(runs) * noise_std  # noise process draw
         if AR and MA:
-- 
2.43.0


From f9dfdcb07edde767f39502d8aab80b572d1199a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 15/76] fix: SMC: repair the ARMA noise and low-pass state
 updates

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 39 +++++++++----------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index e90f49f..9d4907e 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -275,20 +275,16 @@ def SMC(
     # Initialize noise matrix corresponding to ARMA noise model.
     if isinstance(theta, np.ndarray) or isinstance(theta, float):
         MA = True
-        if isinstance(theta, float):
-            W = np.zeros((runs, 1))
-        else:
-            W = np.zeros((runs, len(theta)))
+        theta = np.atleast_1d(theta)
+        W = np.zeros((runs, len(theta)))
     else:
         MA = False  # no moving average part in noise process
 
     # Initialize for autoregressive part of noise process.
     if isinstance(phi, np.ndarray) or isinstance(phi, float):
         AR = True
-        if isinstance(phi, float):
-            E = np.zeros((runs, 1))
-        else:
-            E = np.zeros((runs, len(phi)))
+        phi = np.atleast_1d(phi)
+        E = np.zeros((runs, len(phi)))
     else:
         AR = False  # No autoregressive part in noise process.
 
@@ -343,27 +339,28 @@ def SMC(
 
         w = np.random.randn(runs) * noise_std  # noise process draw
         if AR and MA:
-            E = np.hstack((E.dot(phi) + W.dot(theta) + w, E[:-1]))
-            W = np.hstack((w, W[:-1]))
+            e = E.dot(phi) + W.dot(theta) + w
+            E = np.hstack((e[:, np.newaxis], E[:, :-1]))
+            W = np.hstack((w[:, np.newaxis], W[:, :-1]))
         elif AR:
-            E = np.hstack((E.dot(phi) + w, E[:-1]))
+            e = E.dot(phi) + w
+            E = np.hstack((e[:, np.newaxis], E[:, :-1]))
         elif MA:
-            E = W.dot(theta) + w
-            W = np.hstack((w, W[:-1]))
+            e = W.dot(theta) + w
+            W = np.hstack((w[:, np.newaxis], W[:, :-1]))
         else:
-            w = np.random.randn(runs, 1) * noise_std
-            E = w
+            e = w
+        e = e[:, np.newaxis]
 
         if isinstance(alow, np.ndarray):  # apply low-pass filter
-            X = np.hstack((x[index] + E, X[:, :-1]))
-            Xl = np.hstack(
-                (X.dot(blow.T) - Xl[:, : len(alow)].dot(alow[1:]), Xl[:, :-1])
-            )
+            X = np.hstack((x[index] + e, X[:, :-1]))
+            xl = X.dot(blow.T) - Xl[:, : len(alow) - 1].dot(alow[1:])
+            Xl = np.hstack((xl[:, np.newaxis], Xl[:, :-1]))
         elif isinstance(blow, np.ndarray):
-            X = np.hstack((x[index] + E, X[:, :-1]))
+            X = np.hstack((x[index] + e, X[:, :-1]))
             Xl = X.dot(blow)
         else:
-            Xl = x[index] + E
+            Xl = x[index] + e
 
         # Prepare for easier calculations.
         if len(Xl.shape) == 1:
-- 
2.43.0


From 1c273169f681fca0e3d27540c7760e80d7fdc767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 16/76] fix: SMC: support numerators shorter than the
 denominator

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 9d4907e..cc8c554 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -319,7 +319,10 @@ def SMC(
         A = np.zeros((runs, Nb))
 
     # Fixed part of state-space model.
-    c = Coefs[:, Na + 1 :] - np.multiply(np.tile(b0[:, np.newaxis], (1, Nb)), A)
+    B = Coefs[:, Na + 1 :]
+    if Nb < Na:
+        B = np.hstack((B, np.zeros((runs, Na - Nb))))
+    c = B - np.multiply(b0[:, np.newaxis], A)
     States = np.zeros(np.shape(A))  # initialise matrix of states
 
     calcP = False  # by default no percentiles requested
-- 
2.43.0


From 6952a7a60f5264acf9fb2f80abc70d5778b921d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 17/76] fix: SMC: return the Monte Carlo samples on request

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index cc8c554..d5b7626 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -335,6 +335,10 @@ def SMC(
     # Initialize vector of uncorrelated point-wise uncertainties.
     Uy = np.zeros(len(x))
 
+    # Initialize matrix of all Monte Carlo results.
+    if return_samples:
+        samples = np.zeros((runs, len(x)))
+
     # Start of the actual MC part.
     print("Sequential Monte Carlo progress", end="")
 
@@ -382,6 +386,8 @@ def SMC(
 
         y[index] = np.mean(Y)  # point-wise best estimate
         Uy[index] = np.std(Y)  # point-wise standard uncertainties
+        if return_samples:
+            samples[:, index] = Y
         if calcP:
             P[:, index] = sp.stats.mstats.mquantiles(np.asarray(Y), prob=Perc)
 
@@ -390,6 +396,9 @@ def SMC(
 
     print(" 100%")
 
+    if return_samples:
+        return np.roll(samples, int(shift), axis=1)
+
     # Correct for (known) delay.
     y = np.roll(y, int(shift))
     Uy = np.roll(Uy, int(shift))
-- 
2.43.0


From c74f49c6f9e3b185b5bdd263b9583bf0240ee960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 18/76] fix: GUM_DFT: accept a vector of variances together
 with a window

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index d19e458..84e140a 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -81,10 +81,12 @@ def _apply_window(
     """
     assert len(x) == len(window)
     if not isinstance(Ux, float):
-        assert Ux.shape[0] == Ux.shape[1] and Ux.shape[0] == len(x)
+        assert all(dim == len(x) for dim in Ux.shape)
     xw = x.copy() * window
     if isinstance(Ux, float):
         Uxw = Ux * window ** 2
+    elif len(Ux.shape) == 1:
+        Uxw = Ux * window ** 2
     else:
         Uxw = _prod(window, _prod(Ux, window))
     return xw, Uxw
-- 
2.43.0


From 6fd0858dc2135a5261b70eb1adf10eb63bcec4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 19/76] fix: propagate_DFT: products with integer matrices no
 longer truncate

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 84e140a..cc8b4a6 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -115,12 +115,12 @@ def _prod(A: np.ndarray, B: np.ndarray) -> np.ndarray:
         If the dimensions of A and B do not match.
     """
     if len(A.shape) == 1 and len(B.shape) == 2:  # A is the vector and B the matrix
-        C = np.zeros_like(B)
+        C = np.zeros(B.shape, dtype=np.result_type(A, B))
         for k in range(C.shape[0]):
             C[k, :] = A[k] * B[k, :]
         return C
     elif len(A.shape) == 2 and len(B.shape) == 1:  # A is the matrix and B the vector
-        C = np.zeros_like(A)
+        C = np.zeros(A.shape, dtype=np.result_type(A, B))
         for k in range(C.shape[1]):
             C[:, k] = A[:, k] * B[k]
         return C
-- 
2.43.0


From 27a87244ef729edc53e55713ff20fb1ac619adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 20/76] fix: GUM_DFT: return the sensitivities for scalar
 uncertainty, too

---
 PyDynamic/uncertainty/propagate_DFT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index cc8b4a6..2c87799 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -343,6 +343,9 @@ def GUM_DFT(
 
     if returnC:
         # Return sensitivities if requested.
+        if not isinstance(CxCos, np.ndarray):
+            CxCos = np.vstack([Cxkc(k) for k in np.flatnonzero(mask)])
+            CxSin = np.vstack([Cxks(k) for k in np.flatnonzero(mask)])
         return F, UF, {"CxCos": CxCos, "CxSin": CxSin}
     else:
         return F, UF
-- 
2.43.0


From 3709533a138fbcaf94bfde07eba9df902c86d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 21/76] fix: GUM_iDFT: propagate the cross covariance
 symmetrically

---
 PyDynamic/uncertainty/propagate_DFT.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 2c87799..e00ebe9 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -446,7 +446,8 @@ def GUM_iDFT(
         II = UF[N // 2 + 1 :, N // 2 + 1 :]
         # propagate uncertainties
         Ux = np.dot(Cc, np.dot(RR, Cc.T))
-        Ux = Ux + 2 * np.dot(Cc, np.dot(RI, Cs.T))
+        UxCS = np.dot(Cc, np.dot(RI, Cs.T))
+        Ux = Ux + UxCS + UxCS.T
         Ux = Ux + np.dot(Cs, np.dot(II, Cs.T))
     else:
         RR = UF[: N // 2 + 1]
-- 
2.43.0


From dbbe24665d523703fe05110f521cc0c5d8f3f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 22/76] fix: AmpPhase2Time: propagate the cross covariance
 symmetrically

---
 PyDynamic/uncertainty/propagate_DFT.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index e00ebe9..5b6fd80 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -874,9 +874,11 @@ def AmpPhase2Time(
             AA = diags[0][:n]
             AP = diags[1][offset[1] : nrows + offset[1]]
             PP = diags[0][n:]
+            UxCS = np.dot(Cc, _prod(AP, Cs.T))
             Ux = (
                 np.dot(Cc, _prod(AA, Cc.T))
-                + 2 * np.dot(Cc, _prod(AP, Cs.T))
+                + UxCS
+                + UxCS.T
                 + np.dot(Cs, _prod(PP, Cs.T))
             )
         else:
@@ -884,9 +886,11 @@ def AmpPhase2Time(
             AP = UAP[: N // 2 + 1, N // 2 + 1 :]
             PP = UAP[N // 2 + 1 :, N // 2 + 1 :]
             # propagate uncertainties
+            UxCS = np.dot(Cc, np.dot(AP, Cs.T))
             Ux = (
                 np.dot(Cc, np.dot(AA, Cc.T))
-                + 2 * np.dot(Cc, np.dot(AP, Cs.T))
+                + UxCS
+                + UxCS.T
                 + np.dot(Cs, np.dot(PP, Cs.T))
             )
 
-- 
2.43.0


From 719f6c3bce24416a93c483df1650198f28bc88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 23/76] fix: AmpPhase2DFT: sensitivity of the cross covariance
 for sparse input

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 5b6fd80..b0a2aa0 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -679,7 +679,7 @@ def AmpPhase2DFT(
             Upp = diags[0][N:]
 
             U11 = Uaa * CRA ** 2 + CRP * Uap * CRA + CRA * Uap * CRP + Upp * CRP ** 2
-            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIA + CRP * Upp * CIP
+            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIP + CRP * Upp * CIP
             U22 = Uaa * CIA ** 2 + CIP * Uap * CIA + CIA * Uap * CIP + Upp * CIP ** 2
 
             UF = sparse.diags(
-- 
2.43.0


From fee24fd5d141854705bdbe06c5622d6e913821d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 24/76] fix: Time2AmpPhase_multi: pass the sensitivities by
 keyword

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index b0a2aa0..ed414b6 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -782,7 +782,9 @@ def Time2AmpPhase_multi(x, Ux, selector=None):
     CxCos = None
     CxSin = None
     for m in range(M):
-        F, UF, CX = GUM_DFT(x[m, :], Ux[m], CxCos, CxSin, returnC=True)
+        F, UF, CX = GUM_DFT(
+            x[m, :], float(Ux[m]), CxCos=CxCos, CxSin=CxSin, returnC=True
+        )
         CxCos = CX["CxCos"]
         CxSin = CX["CxSin"]
         A_m, P_m, UAP_m = DFT2AmpPhase(F, UF, keep_sparse=True)
-- 
2.43.0


From 7731f955d4ac8458f243715fee532e99c018f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 25/76] fix: DFT_deconv: sensitivity of the real part w.r.t.
 the imaginary part of H

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index ed414b6..5ebc478 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1016,7 +1016,7 @@ def DFT_deconv(
     IY = np.r_[-iH / norm, rH / norm]
     RH = np.r_[
         (-rY * rH ** 2 + rY * iH ** 2 - 2 * iY * iH * rH) / norm ** 2,
-        (iY * rH ** 2 - iH * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
+        (iY * rH ** 2 - iY * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
     ]
     IH = np.r_[
         (-iY * rH ** 2 + iY * iH ** 2 + 2 * rY * iH * rH) / norm ** 2,
-- 
2.43.0


From 1584679cadc15e5cd2b970baeda034a0ed4e7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 26/76] fix: DFT_multiply: return a covariance matrix for
 uncorrelated input

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 5ebc478..6690b35 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1091,12 +1091,14 @@ def DFT_multiply(
             uRR = RA * UB * RA + IA * UB * IA
             uRI = RA * UB * IA - IA * UB * RA
             uII = IA * UB * IA + RA * UB * RA
+            uRR, uRI, uII = np.diag(uRR), np.diag(uRI), np.diag(uII)
         elif len(UB.shape) == 1:  # simpler calculation if no correlation
             UBRR = UB[: n // 2]
             UBII = UB[n // 2 :]
             uRR = RA * UBRR * RA + IA * UBII * IA
             uRI = RA * UBRR * IA - IA * UBII * RA
             uII = IA * UBRR * IA + RA * UBII * RA
+            uRR, uRI, uII = np.diag(uRR), np.diag(uRI), np.diag(uII)
         else:  # full calculation because of full input covariance
             UBRR = UB[: n // 2, : n // 2]
             UBRI = UB[: n // 2, n // 2 :]
-- 
2.43.0


From ca3e7bc75ae7cbca8a65654299a8be01cd36dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 27/76] fix: impinvar: sum the complex direct terms before
 taking the real part

---
 PyDynamic/misc/impinvar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index 5dd9afc..18b0dd3 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -96,7 +96,7 @@ def z_res(r_in, sm, ts):
 	r_out = np.zeros(n, dtype = complex)  # Residue vector
 
 	## First pole (no multiplicity)
-	k_out = to_real(r_in[0] * ts)  # PFE of z/(z-p) = p/(z-p)+1; direct part
+	k_out = r_in[0] * ts  # PFE of z/(z-p) = p/(z-p)+1; direct part
 	r_out[0] = r_in[0] * ts * p_out  # pole part of PFE
 
 	for i in range(1, n):  # Go through s-domain residues for multiple pole
@@ -169,7 +169,7 @@ def impinvar(b_in, a_in, fs = 1, tol = 0.0001):
 
 	r_out = np.zeros(n, dtype = complex)  # Residues of H(z)
 	p_out = np.zeros(n, dtype = complex)  # Poles of H(z)
-	k_out = np.zeros(1)  # Constant term of H(z)
+	k_out = np.zeros(1, dtype = complex)  # Constant term of H(z)
 
 	i = 0
 	while (i < n):
-- 
2.43.0


From 39a2de0d6de2897c21189e88338ea45ff85e4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 28/76] fix: impinvar: support poles with multiplicity greater
 than one

---
 PyDynamic/misc/impinvar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index 18b0dd3..0c9dd6b 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -56,14 +56,14 @@ def h1_z_deriv(n, p, ts):
 	## The results reads d(n)*z^(1)*(d/dz)^(1)*H1(z) + d(n-1)*z^(2)*(d/dz)^(2)*H1(z) +...+ d(1)*z^(n)*(d/dz)^(n)*H1(z)
 
 	d = [(-1)**n] # Vector with the derivatives of H1(z)
-	for i in range(n-1):
-		d  = [d, 0]                     # Shift result right (multiply by -z)
+	for i in range(1, n):
+		d  = np.r_[d, 0]                # Shift result right (multiply by -z)
 		d += prepad(np.polyder(d), i + 1, 0) # Add the derivative
 
 	## Build output vector
 	b = np.zeros(n + 1)
 	for i in range(n):
-		b += d[i] * prepad(h1_deriv(n-i+1), n+1, 0)
+		b += d[i] * prepad(h1_deriv(n-i), n+1, 0)
 
 	b *= ts**(n+1)/factorial(n)
 
@@ -100,7 +100,7 @@ def z_res(r_in, sm, ts):
 	r_out[0] = r_in[0] * ts * p_out  # pole part of PFE
 
 	for i in range(1, n):  # Go through s-domain residues for multiple pole
-		r_out[:i] += r_in[i] * polyrev(h1_z_deriv(i, p_out, ts))  # Add z-domain residues
+		r_out[:i+1] += r_in[i] * polyrev(h1_z_deriv(i, p_out, ts))  # Add z-domain residues
 
 	return r_out, p_out, k_out
 
-- 
2.43.0


From e92db82d3ff436968f4161354ef4cd8142ad3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 29/76] fix: impinvar: support complex poles with multiplicity
 greater than one

---
 PyDynamic/misc/impinvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index 0c9dd6b..87fcf92 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -68,7 +68,7 @@ def h1_z_deriv(n, p, ts):
 	b *= ts**(n+1)/factorial(n)
 
 	## Multiply coefficients with p^i, where i is the index of the coeff.
-	b *=p**(np.arange(n+1,0,-1))
+	b = b * p**(np.arange(n+1,0,-1))
 
 	return b
 
-- 
2.43.0


From 4d5ed88afb96db5acbda72adafab78a93b5d99f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 30/76] fix: impinvar: keep leading zeros of the numerator

---
 PyDynamic/misc/impinvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index 87fcf92..a206373 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -187,7 +187,7 @@ def impinvar(b_in, a_in, fs = 1, tol = 0.0001):
 
 	[b_out, a_out] = dsp.invres(r_out, p_out, k_out, tol=tol)
 	a_out = to_real(a_out)  # Get rid of spurious imaginary part
-	b_out = to_real(b_out)
+	b_out = prepad(to_real(b_out), len(a_out))  # restore leading zeros
 
 	## Shift results right to account for calculating in z instead of z^-1
 	b_out = b_out[:-1]
-- 
2.43.0


From dadf76c01869a54127d4b12dbfe3de59ae0191d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 31/76] fix: impinvar: support triple poles

---
 PyDynamic/misc/impinvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index a206373..1b63c21 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -57,7 +57,7 @@ def h1_z_deriv(n, p, ts):
 
 	d = [(-1)**n] # Vector with the derivatives of H1(z)
 	for i in range(1, n):
-		d  = np.r_[d, 0]                # Shift result right (multiply by -z)
+		d  = np.r_[d, 0.0]              # Shift result right (multiply by -z)
 		d += prepad(np.polyder(d), i + 1, 0) # Add the derivative
 
 	## Build output vector
-- 
2.43.0


From 76562f8d42f27b2921831979db84a299f10d9b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 32/76] fix: interp1d_unc: fill_value="extrapolate" does not
 raise by default

---
 PyDynamic/uncertainty/interpolate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index ccb0267..4058e02 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -166,6 +166,8 @@ def interp1d_unc(
         # respectively but handle those cases separately.
         if fill_value == "extrapolate":
             fill_value = y[0], y[-1]
+            # No error is raised for values outside the bounds in this case.
+            interp1d_params["bounds_error"] = False
 
         if fill_unc == "extrapolate":
             fill_unc = uy[0], uy[-1]
-- 
2.43.0


From c6ae5b444ad67c51e11fd85cf28a78dab5b0358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 33/76] fix: interp1d_unc: accept an integer fill_unc for
 linear interpolation

---
 PyDynamic/uncertainty/interpolate.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 4058e02..788c7c8 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -221,14 +221,13 @@ def interp1d_unc(
 
         # If extrapolation is needed, fill in the values provided via fill_unc.
         if np.any(extrap_range):
-            # At this point fill_unc is either a float (np.nan is a float as well) or
-            # a 2-tuple of floats. In case we have one float we set uy_new to this value
-            # inside the extrapolation range.
-            if isinstance(fill_unc, float):
-                uy_new[extrap_range] = fill_unc
-            else:
-                # Now fill_unc should be a 2-tuple, which we can fill into uy_new.
+            # At this point fill_unc is either a scalar (np.nan is a float as well) or
+            # a 2-tuple of scalars. A 2-tuple provides separate values for below and
+            # above the original range, anything else is used for both.
+            if isinstance(fill_unc, tuple):
                 uy_new[extrap_range_below], uy_new[extrap_range_above] = fill_unc
+            else:
+                uy_new[extrap_range] = fill_unc
 
             if returnC:
                 # In each row of C corresponding to an extrapolation value below the
-- 
2.43.0


From ac32cdb09a3b04b92b544f0527747e5894ed13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 34/76] fix: interp1d_unc: accept array_like t_new for linear
 interpolation

---
 PyDynamic/uncertainty/interpolate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 788c7c8..a1a6718 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -132,6 +132,7 @@ def interp1d_unc(
     # This is taken from the class scipy.interpolate.interp1d to copy and sort the
     # arrays in case that is requested and of course extended by the uncertainties.
     # ----------------------------------------------------------------------------------
+    t_new = np.asarray(t_new)
     t = np.array(t, copy=copy)
     y = np.array(y, copy=copy)
     uy = np.array(uy, copy=copy)
-- 
2.43.0


From 12bb53eee42fcbdbcadc4c2dac167f8ee7168d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 35/76] fix: export make_equidistant from PyDynamic.uncertainty

---
 PyDynamic/uncertainty/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/__init__.py b/PyDynamic/uncertainty/__init__.py
index b7f7e79..9445288 100644
--- a/PyDynamic/uncertainty/__init__.py
+++ b/PyDynamic/uncertainty/__init__.py
@@ -24,6 +24,7 @@ from .propagate_filter import FIRuncFilter, IIRuncFilter
 
 from .propagate_MonteCarlo import MC, SMC, UMC, UMC_generic
 
+from .interpolate import make_equidistant
 from .interpolation import interp1d_unc
 
 __all__ = [
@@ -42,4 +43,5 @@ __all__ = [
     "UMC",
     "UMC_generic",
     "interp1d_unc",
+    "make_equidistant",
 ]
-- 
2.43.0


From 703e87b48b3c660dd5083aebec41daf532479b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 36/76] fix: isstable: analog filters are stable for poles in
 the left half plane

---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index c719425..65c2f09 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -169,7 +169,7 @@ def isstable(b, a, ftype="digital"):
     if ftype == "digital":
         return not np.any(np.abs(v) > 1.0)
     elif ftype == "analog":
-        return not np.any(np.real(v) < 0)
+        return not np.any(np.real(v) > 0)
     else:
         raise ValueError(f"isstable: filter type 'ftype={ftype}'unknown. Please "
                          f"check documentation and choose a valid assignment for "
-- 
2.43.0


From 063042cefb7c746ae3882a31cfae6899050486ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 37/76] fix: kaiser_lowpass: return the delay as integer number
 of samples

---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index 65c2f09..8bd8aa6 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -141,7 +141,7 @@ def kaiser_lowpass(L, fcut, Fs, beta=8.0):
     if np.mod(L, 2) == 0:
         L = L + 1
     blow = firwin(L, 2 * fcut / Fs, window=("kaiser", beta))
-    shift = L / 2
+    shift = L // 2
     return blow, shift
 
 
-- 
2.43.0


From 40d34fce3b7251ee45786c6f12156b7cebd215f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 38/76] fix: FreqResp2RealImag: return one mean per frequency

---
 PyDynamic/misc/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 35a81e0..26a9112 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -268,8 +268,8 @@ def FreqResp2RealImag(Abs, Phase, Unc, MCruns=1e4):
     )  # calculate complex frequency response values
     RI = np.hstack((np.real(H), np.imag(H)))  # transform to real, imag
 
-    Re = np.mean(RI[:, :Nf])
-    Im = np.mean(RI[:, Nf:])
+    Re = np.mean(RI[:, :Nf], axis=0)
+    Im = np.mean(RI[:, Nf:], axis=0)
     URI = np.cov(RI, rowvar=False)
 
     return Re, Im, URI
-- 
2.43.0


From e4001c16119c880e055ab6c717b472639e681d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 39/76] fix: make_semiposdef: respect maxiter for dense
 matrices

---
 PyDynamic/misc/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 26a9112..f250b14 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -218,6 +218,7 @@ def make_semiposdef(
         while e < tol and count < maxiter:
             e = np.real(np.linalg.eigvals(matrix)).min()
             matrix += (np.absolute(e) + tol) * np.eye(n)
+            count += 1
         e = np.real(np.linalg.eigvals(matrix)).min()
     if verbose:
         print("Final result of make_semiposdef: smallest eigenvalue is %e" % e)
-- 
2.43.0


From 4280bfbf18956a084236d6c129bd0815d77b6659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 40/76] fix: multi_sine: noise is the standard deviation

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index e2fc16a..eacc0f9 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -211,7 +211,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
     x = np.zeros_like(time)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
-    x += np.random.randn(len(x)) * noise ** 2
+    x += np.random.randn(len(x)) * noise
     return x
 
 
-- 
2.43.0


From 8c67d3210d16c5ccbbf6d55f85f66e821567bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 41/76] fix: corr_noise: generate the noise whose covariance is
 reported

---
 PyDynamic/misc/testsignals.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index eacc0f9..4a57dd0 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -18,7 +18,7 @@ This module contains the following functions:
 import itertools
 
 import numpy as np
-from numpy import diff, sqrt, sum, array, corrcoef
+from numpy import sqrt, sum, array, corrcoef
 from scipy.signal import periodogram
 from scipy.special import comb
 
@@ -226,13 +226,10 @@ class corr_noise(object):
     def calc_noise(self, N=100):
         z = self.rst.randn(N + 4)
         noise = (
-            diff(
-                diff(
-                    diff(diff(z * self.w ** 4) - 4 * z[1:] * self.w ** 3)
-                    + 6 * z[2:] * self.w ** 2
-                )
-                - 4 * z[3:] * self.w
-            )
+            z[:-4] * self.w ** 4
+            + 4 * z[1:-3] * self.w ** 3
+            + 6 * z[2:-2] * self.w ** 2
+            + 4 * z[3:-1] * self.w
             + z[4:]
         )
         self.Cw = sqrt(sum([comb(4, l) ** 2 * self.w ** (2 * l) for l in range(5)]))
-- 
2.43.0


From d67272151d343c641d196fa2400694f13e7c23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 42/76] fix: corr_noise: integer number of samples in
 calc_noise2

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 4a57dd0..3dba127 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -237,7 +237,7 @@ class corr_noise(object):
         return self.noise
 
     def calc_noise2(self, N=100):
-        P = np.ceil(1.5 * N)
+        P = int(np.ceil(1.5 * N))
         NT = self.rst.randn(P) * self.sigma
         STD = np.zeros(21)
         STD[10] = 1.0
-- 
2.43.0


From f5ad37b6e915e1609b4ca5c664ca48b4b6910031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 43/76] fix: MC: accept singular covariance matrices

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index d5b7626..9805d47 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -153,7 +153,7 @@ def MC(
         if len(Ux.shape) == 1:
             dist = Normal_ZeroCorr(loc=x, scale=Ux)  # non-iid noise w/o correlation
         else:
-            dist = stats.multivariate_normal(x, Ux)  # colored noise
+            dist = stats.multivariate_normal(x, Ux, allow_singular=True)  # colored noise
     elif isinstance(Ux, float):
         dist = Normal_ZeroCorr(loc=x, scale=Ux)  # iid noise
     else:
-- 
2.43.0


From cb6229c4b63ba5b608fea7bb43554728b07b34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 44/76] fix: Signal: always set both sampling interval and
 sampling frequency

---
 PyDynamic/signals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 27b5006..aec70d3 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -35,11 +35,15 @@ class Signal:
         if (Ts is None) and (Fs is None):
             self.Ts = np.unique(np.diff(self.time)).mean()
             self.Fs = 1 / self.Ts
-        elif isinstance(Ts, float):
+        elif Ts is None:
+            self.Fs = Fs
+            self.Ts = 1 / Fs
+        else:
             self.Ts = Ts
             if Fs is None:
                 self.Fs = 1 / Ts
             else:
+                self.Fs = Fs
                 assert np.abs(Fs * self.Ts - 1) < 1e-5, (
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
-- 
2.43.0


From 53f4bd7a5c4ed03c528e06474b298f3fccc61327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 45/76] fix: Signal: an integer uncertainty is not ignored

---
 PyDynamic/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index aec70d3..6416f4f 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -48,7 +48,7 @@ class Signal:
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
         # set initial uncertainty
-        if isinstance(uncertainty, float):
+        if isinstance(uncertainty, (float, int)):
             self.uncertainty = np.ones_like(values) * uncertainty
         elif isinstance(uncertainty, np.ndarray):
             uncertainty = uncertainty.squeeze()
-- 
2.43.0


From 6dd0b369118624e90b378032ef305baad664fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 46/76] fix: Signal: reject covariance matrices of the wrong
 size

---
 PyDynamic/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 6416f4f..a0a2de9 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -55,7 +55,7 @@ class Signal:
             if len(uncertainty.shape) == 1:
                 assert len(uncertainty) == len(time)
             else:
-                assert uncertainty.shape[0] == uncertainty.shape[1]
+                assert uncertainty.shape == (len(time), len(time))
             self.uncertainty = uncertainty
         else:
             self.uncertainty = np.zeros_like(values)
-- 
2.43.0


From 3083a471c591fd6ed1bede0b1661a0ee78da3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 47/76] fix: Signal: uncertainty vectors are point-wise in FIR
 filtering

---
 PyDynamic/signals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index a0a2de9..52b3e25 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -128,7 +128,11 @@ class Signal:
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
                     self.values, self.uncertainty = FIRuncFilter(
-                        self.values, self.uncertainty, b, Utheta=filter_uncertainty
+                        self.values,
+                        self.uncertainty,
+                        b,
+                        Utheta=filter_uncertainty,
+                        kind="diag",
                     )
                 else:
                     self.values, self.uncertainty = MC(
-- 
2.43.0


From c0188e43c817e8a6747a5cb762b1c6c58c328089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 48/76] fix: Signal: repair filtering by Monte Carlo and of
 full covariances

---
 PyDynamic/signals.py | 48 +++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 52b3e25..52f8b80 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -125,6 +125,8 @@ class Signal:
         if isinstance(a, list):
             a = np.array(a)
         if not (isinstance(a, np.ndarray)):  # FIR type filter
+            if isinstance(MonteCarloRuns, int) and filter_uncertainty is None:
+                filter_uncertainty = np.zeros((len(b), len(b)))
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
                     self.values, self.uncertainty = FIRuncFilter(
@@ -139,29 +141,39 @@ class Signal:
                         self.values,
                         self.uncertainty,
                         b,
-                        a,
+                        np.array([1.0]),
                         filter_uncertainty,
                         runs=MonteCarloRuns,
                     )
             else:
                 if not isinstance(MonteCarloRuns, int):
-                    MonteCarloRuns = 10000
-                self.values, self.uncertainty = MC(
-                    self.values,
-                    self.uncertainty,
-                    b,
-                    a,
-                    filter_uncertainty,
-                    runs=MonteCarloRuns,
-                )
+                    self.values, self.uncertainty = FIRuncFilter(
+                        self.values,
+                        self.uncertainty,
+                        b,
+                        Utheta=filter_uncertainty,
+                        return_full_covariance=True,
+                    )
+                else:
+                    self.values, self.uncertainty = MC(
+                        self.values,
+                        self.uncertainty,
+                        b,
+                        np.array([1.0]),
+                        filter_uncertainty,
+                        runs=MonteCarloRuns,
+                    )
         else:  # IIR-type filter
             if not isinstance(MonteCarloRuns, int):
                 MonteCarloRuns = 10000
-                self.values, self.uncertainty = MC(
-                    self.values,
-                    self.uncertainty,
-                    b,
-                    a,
-                    filter_uncertainty,
-                    runs=MonteCarloRuns,
-                )
+            if filter_uncertainty is None:
+                n_coeffs = len(b) + len(a) - 1
+                filter_uncertainty = np.zeros((n_coeffs, n_coeffs))
+            self.values, self.uncertainty = MC(
+                self.values,
+                self.uncertainty,
+                b,
+                a,
+                filter_uncertainty,
+                runs=MonteCarloRuns,
+            )
-- 
2.43.0


From 5d6e44c63f7754b78f1aecf7c5cfadbd84b7cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 49/76] fix: Signal: plot standard uncertainties given a full
 covariance

---
 PyDynamic/signals.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 52f8b80..b32c4a7 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -78,10 +78,13 @@ class Signal:
     def plot(self, fignr=1, figsize=(10, 8)):
         figure(fignr, figsize=figsize)
         plot(self.time, self.values, label=self.name)
+        u = self.uncertainty
+        if len(u.shape) == 2:
+            u = np.sqrt(np.diag(u))
         fill_between(
             self.time,
-            self.values - self.uncertainty,
-            self.values + self.uncertainty,
+            self.values - u,
+            self.values + u,
             color="gray",
             alpha=0.2,
         )
@@ -91,9 +94,12 @@ class Signal:
 
     def plot_uncertainty(self, fignr=2, **kwargs):
         figure(fignr, **kwargs)
+        u = self.uncertainty
+        if len(u.shape) == 2:
+            u = np.sqrt(np.diag(u))
         plot(
             self.time,
-            self.uncertainty,
+            u,
             label="uncertainty associated with %s" % self.name,
         )
         xlabel("time / %s" % self.unit_time)
-- 
2.43.0


From dd557080078977d57a0422c1a19d1a8205d42ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 50/76] fix: invLSFIR_unc: repair weighting

---
 PyDynamic/model_estimation/fit_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 7a0bc7e..9b374c1 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -378,7 +378,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Step 2: Fit filter coefficients and evaluate uncertainties
     if isinstance(wt, np.ndarray):
-        if wt.shape != np.diag(UiH).shape[0]:
+        if wt.shape != np.diag(UiH).shape:
             raise ValueError("User-defined weighting has wrong dimension.")
     else:
         wt = np.ones(2 * Nf)
@@ -389,6 +389,9 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
     X = np.dot(np.diag(wt), X)
     Hm = H * np.exp(1j * 2 * np.pi * f / Fs * tau)
     Hri = np.hstack((np.real(1.0 / Hm), np.imag(1.0 / Hm)))
+    # the same weights apply to the values to be fitted and their uncertainties
+    Hri = wt * Hri
+    UiH = UiH * np.outer(wt, wt)
 
     u, s, v = np.linalg.svd(X, full_matrices=False)
     if isinstance(trunc_svd_tol, float):
-- 
2.43.0


From 9142ba53f050f8459b067c113198dbec85207cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 51/76] fix: invLSFIR_unc: propagate uncertainties to the
 delayed reciprocal

---
 PyDynamic/model_estimation/fit_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 9b374c1..6ddc070 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -368,11 +368,11 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Vectorized Monte Carlo for propagation to inverse
     absHMC = HRI[:, :Nf] ** 2 + HRI[:, Nf:] ** 2
-    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) +
+    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) -
                        HRI[:, Nf:] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC,
-                      (HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) -
-                       HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
+                      -(HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) +
+                        HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC))
     UiH = np.cov(HiMC, rowvar=False)
 
-- 
2.43.0


From 2e6a80425a3e875856dc1edea516f91b135a3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 52/76] fix: LSIIR: return the delay which was applied

---
 PyDynamic/model_estimation/fit_filter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 6ddc070..959e584 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -132,7 +132,6 @@ def LSIIR(Hvals, Nb, Na, f, Fs, tau=0, justFit=False):
         sos = np.sum(
             np.abs((dsp.freqz(b, a, 2 * np.pi * f / Fs)[1] - Hvals) ** 2))
         print("Final sum of squares = %e" % sos)
-        tau = 0
         return b, a, tau
 
     if np.count_nonzero(np.abs(np.roots(a)) > 1) > 0:
-- 
2.43.0


From 1923fac0abdae706bbb1e20cacba520f4bc387f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 53/76] fix: LSFIR: fit to the frequency response, not to its
 reciprocal

---
 PyDynamic/model_estimation/fit_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 959e584..d512926 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -193,8 +193,8 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     """
 
-    print("\nLeast-squares fit of an order %d digital FIR filter to the" % N)
-    print("reciprocal of a frequency response given by %d values.\n" % len(H))
+    print("\nLeast-squares fit of an order %d digital FIR filter to a" % N)
+    print("frequency response given by %d values.\n" % len(H))
 
     H = H[:, np.newaxis]
 
@@ -216,8 +216,8 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
     else:
         X = np.vstack([np.real(E), np.imag(E)])
 
-    H = H * np.exp(1j * w * tau)
-    iRI = np.vstack([np.real(1.0 / H), np.imag(1.0 / H)])
+    Hs = H * np.exp(-1j * w * tau)
+    iRI = np.vstack([np.real(Hs), np.imag(Hs)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]
 
-- 
2.43.0


From cea93c0f1150ee8913c790d7aa422a4f1277a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 54/76] fix: LSFIR, invLSFIR: apply the weights to both sides
 of the equations

---
 PyDynamic/model_estimation/fit_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index d512926..492f113 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -208,7 +208,7 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
         X = np.vstack(
@@ -218,6 +218,8 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     Hs = H * np.exp(-1j * w * tau)
     iRI = np.vstack([np.real(Hs), np.imag(Hs)])
+    if Wt is not None:
+        iRI = np.vstack([np.dot(weights, iRI[: len(f)]), np.dot(weights, iRI[len(f) :])])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]
 
@@ -275,7 +277,7 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:  # set up weighted design matrix if necessary
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
         X = np.vstack([np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
@@ -284,6 +286,8 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
 
     Hs = H * np.exp(1j * w * tau)  # apply time delay for improved fit quality
     iRI = np.vstack([np.real(1.0 / Hs), np.imag(1.0 / Hs)])
+    if Wt is not None:
+        iRI = np.vstack([np.dot(weights, iRI[: len(f)]), np.dot(weights, iRI[len(f) :])])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]  # the actual fitting
 
-- 
2.43.0


From 868df3bff2a75e73c1ef6684d516d28387de5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 55/76] fix: fit_som: sensitivities of the damping

---
 PyDynamic/model_estimation/fit_transfer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 4df7a06..1327d33 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -154,9 +154,9 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
                 [
                     [-1 / mu[0] ** 2, 0, 0],
                     [
-                        -mu[1] / (2 * (np.abs(mu[0] + mu[2])) ** (3 / 2)),
-                        1 / np.sqrt(np.abs(mu[0] + mu[2])),
-                        -mu[1] / (2 * np.abs(mu[0] + mu[2]) ** (3 / 2)),
+                        -mu[1] * mu[2] / (2 * np.abs(mu[0] * mu[2]) ** (3 / 2)),
+                        1 / np.sqrt(np.abs(mu[0] * mu[2])),
+                        -mu[1] * mu[0] / (2 * np.abs(mu[0] * mu[2]) ** (3 / 2)),
                     ],
                     [
                         1 / (4 * np.pi * mu[2] * np.sqrt(np.abs(mu[0] / mu[2]))),
-- 
2.43.0


From eb37d99d617d1cfcd630be63973f308485ec30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 56/76] fix: FIRuncFilter, convolve_unc: support filters with a
 single coefficient

---
 PyDynamic/uncertainty/propagate_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index e703a9b..185f6e9 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -87,7 +87,8 @@ def _fir_filter(x, theta, Ux=None, Utheta=None, initial_conditions="constant"):
         )
 
     # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy = np.zeros((len(x), len(x)))
@@ -189,7 +190,8 @@ def _fir_filter_diag(
         )
 
     # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy_diag = np.zeros(len(x))
-- 
2.43.0


From 31352e42baab35ea80ceb7f9d20ef3dfba40890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 57/76] fix: interp1d_unc: sensitivities in the order of the
 unsorted input

---
 PyDynamic/uncertainty/interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index a1a6718..518e321 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -311,6 +311,9 @@ def interp1d_unc(
         )
 
     if returnC:
+        if not assume_sorted:
+            # Columns of C correspond to the original order of y and uy.
+            C = C[:, np.argsort(ind)]
         return t_new, y_new, uy_new, C
     return t_new, y_new, uy_new
 
-- 
2.43.0


From 0ccc19dc0d000954c0d776c291f3a69c34d28698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 58/76] fix: UMC_generic: count results below coinciding
 initial limits in the first bin

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 9805d47..7ff32a1 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -735,9 +735,9 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         for k in range(np.prod(output_shape)):
             for h in happr.values():
                 # results beyond the initial limits belong to the outermost bins
-                edges = h["bin-edges"][:,k]
-                Yk = np.clip(Y[:,k], edges[0], edges[-1])
-                h["bin-counts"][:,k] += np.histogram(Yk, bins = edges)[0]  # numpy histogram returns (bin-counts, bin-edges)
+                edges = h["bin-edges"][:,k].copy()
+                edges[0], edges[-1] = -np.inf, np.inf
+                h["bin-counts"][:,k] += np.histogram(Y[:,k], bins = edges)[0]  # numpy histogram returns (bin-counts, bin-edges)
 
         ymin = np.min(np.vstack((ymin, Y)), axis=0)
         ymax = np.max(np.vstack((ymax, Y)), axis=0)
-- 
2.43.0


From 6e84de93a310bd5a07ddae9c1b21fda5344b1553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 59/76] fix: grpdelay: do not cut filters longer than the
 number of bins

---
 PyDynamic/misc/filterstuff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index 8bd8aa6..56db1a9 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -74,8 +74,10 @@ def grpdelay(b, a, Fs, nfft=512):
 
     c = np.convolve(b, a[::-1])  # c(z) = b(z)*a(1/z)*z^(-oa)
     cr = c * np.arange(Na + Nb + 1)  # derivative of c wrt 1/z
-    num = np.fft.fft(cr, 2 * nfft)
-    den = np.fft.fft(c, 2 * nfft)
+    # use a multiple of the requested bins, if these are less than the coefficients
+    step = -(-len(c) // (2 * nfft))
+    num = np.fft.fft(cr, 2 * nfft * step)[::step]
+    den = np.fft.fft(c, 2 * nfft * step)[::step]
     tol = 1e-12
 
     polebins = np.nonzero(abs(den) < tol)
-- 
2.43.0


From 7ffec94e77714f791ee786228e81ec49901d9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 60/76] fix: squarepulse, multi_sine: integer time axes and
 axes not starting at zero

---
 PyDynamic/misc/testsignals.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 3dba127..43cf5d7 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -155,9 +155,14 @@ def squarepulse(time, height, numpulse=4, noise=0.0):
             signal amplitude at time instants
     """
     width = (time[-1] - time[0]) / (2 * numpulse + 1)  # width of each individual rect
-    x = np.zeros_like(time)
+    x = np.zeros_like(time, dtype=float)
     for k in range(numpulse):
-        x += rect(time, (2 * k + 1) * width, (2 * k + 2) * width, height)
+        x += rect(
+            time,
+            time[0] + (2 * k + 1) * width,
+            time[0] + (2 * k + 2) * width,
+            height,
+        )
     if noise > 0:
         x += np.random.randn(len(time)) * noise
     return x
@@ -208,7 +213,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
             signal amplitude at time instants
     """
 
-    x = np.zeros_like(time)
+    x = np.zeros_like(time, dtype=float)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
     x += np.random.randn(len(x)) * noise
-- 
2.43.0


From f79a45633defa6e6a18e478e2d5eb86cee24f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 61/76] fix: FreqResp2RealImag: accept the uncertainties as
 array_like

---
 PyDynamic/misc/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index f250b14..a127694 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -255,6 +255,7 @@ def FreqResp2RealImag(Abs, Phase, Unc, MCruns=1e4):
     if len(Abs) != len(Phase) or 2 * len(Abs) != len(Unc):
         raise ValueError("\nLength of inputs are inconsistent.")
 
+    Unc = np.asarray(Unc)
     if len(Unc.shape) == 1:
         Unc = np.diag(Unc)
 
-- 
2.43.0


From cbc4d4f153d81b10c6e7d68a6b3d70a345894990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 62/76] fix: interp1d_unc: check the lengths of unsorted input
 before it is sorted

With assume_sorted=False surplus values or uncertainties were silently cut off.
---
 PyDynamic/uncertainty/interpolate.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 518e321..51634f1 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -137,11 +137,6 @@ def interp1d_unc(
     y = np.array(y, copy=copy)
     uy = np.array(uy, copy=copy)
 
-    if not assume_sorted:
-        ind = np.argsort(t)
-        t = t[ind]
-        y = np.take(y, ind)
-        uy = np.take(uy, ind)
     # ----------------------------------------------------------------------------------
     # Check for proper dimensions of inputs which are not checked as desired by SciPy.
     if not len(y) == len(uy):
@@ -149,6 +144,16 @@ def interp1d_unc(
             "Array of associated measurement values' uncertainties must be same length "
             "as array of measurement values."
         )
+    if not len(t) == len(y):
+        raise ValueError(
+            "Array of measurement values must be same length as array of timestamps."
+        )
+
+    if not assume_sorted:
+        ind = np.argsort(t)
+        t = t[ind]
+        y = np.take(y, ind)
+        uy = np.take(uy, ind)
 
     # Set up parameter dicts for calls of interp1d. We use it for interpolating the
     # values and "interpolation" (i.e. look-ups) of uncertainties in the trivial cases.
-- 
2.43.0


From 7a6ab69f7baa35e7ff60aa1f1af5a169d2019768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 63/76] fix: keep squares of narrow integers from overflowing

Signals, filters, spectra, windows or uncertainties stored as narrow
integers (e.g. raw ADC samples) silently gave wrong uncertainties.
---
 PyDynamic/uncertainty/interpolate.py      |  1 +
 PyDynamic/uncertainty/propagate_DFT.py    |  7 +++++++
 PyDynamic/uncertainty/propagate_filter.py | 15 +++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 51634f1..7a606ae 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -136,6 +136,7 @@ def interp1d_unc(
     t = np.array(t, copy=copy)
     y = np.array(y, copy=copy)
     uy = np.array(uy, copy=copy)
+    uy = uy.astype(float, copy=False)  # squares of narrow integers would overflow
 
     # ----------------------------------------------------------------------------------
     # Check for proper dimensions of inputs which are not checked as desired by SciPy.
diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 6690b35..f747ed8 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -82,6 +82,8 @@ def _apply_window(
     assert len(x) == len(window)
     if not isinstance(Ux, float):
         assert all(dim == len(x) for dim in Ux.shape)
+    # products of narrow integers would overflow
+    window = np.asarray(window, dtype=float)
     xw = x.copy() * window
     if isinstance(Ux, float):
         Uxw = Ux * window ** 2
@@ -534,6 +536,8 @@ def DFT2AmpPhase(
     UAP : np.ndarray
         covariance matrix associated with AP
     """
+    # squares of narrow integers would overflow
+    F = np.asarray(F, dtype=float)
     # calculate inverse DFT
     N = len(F) - 2
     R = F[: N // 2 + 1]
@@ -1002,6 +1006,9 @@ def DFT_deconv(
             f"but H is of length {len(H)} and UH is of shape {UH.shape}."
         )
 
+    # products of narrow integers would overflow
+    H, Y = np.asarray(H, dtype=float), np.asarray(Y, dtype=float)
+
     # real and imaginary parts of system and signal
     rH, iH = H[: N // 2 + 1], H[N // 2 + 1 :]
     rY, iY = Y[: N // 2 + 1], Y[N // 2 + 1 :]
diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 185f6e9..357f2c8 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -71,6 +71,10 @@ def _fir_filter(x, theta, Ux=None, Utheta=None, initial_conditions="constant"):
     # due to bug fixing) please also consider adjusting it
     # in the other function as well.
 
+    # products of narrow integers (e.g. raw ADC samples) would overflow
+    x = np.asarray(x, dtype=np.result_type(x, float))
+    theta = np.asarray(theta, dtype=np.result_type(theta, float))
+
     Ntheta = len(theta)  # FIR filter size
 
     if initial_conditions == "constant":
@@ -174,6 +178,10 @@ def _fir_filter_diag(
     # due to bug fixing) please also consider adjusting it
     # in the other function as well.
 
+    # products of narrow integers (e.g. raw ADC samples) would overflow
+    x = np.asarray(x, dtype=np.result_type(x, float))
+    theta = np.asarray(theta, dtype=np.result_type(theta, float))
+
     Ntheta = len(theta)  # FIR filter size
 
     if initial_conditions == "constant":
@@ -311,6 +319,12 @@ def FIRuncFilter(
     ## calculation.
     ## Check this example: <examples\Digital filtering\FIRuncFilter_runtime_comparison.py>
     
+    # squares of narrow integers would overflow
+    if isinstance(sigma_noise, np.ndarray):
+        sigma_noise = sigma_noise.astype(float, copy=False)
+    if isinstance(Utheta, np.ndarray):
+        Utheta = Utheta.astype(float, copy=False)
+
     # note to user
     if not return_full_covariance:
         print(
@@ -451,6 +465,7 @@ def IIRuncFilter(x, noise, b, a, Uab):
 
     if not isinstance(noise, np.ndarray):
         noise = noise * np.ones(len(x))  # translate iid noise to vector
+    noise = noise.astype(float, copy=False)  # squares of narrow integers would overflow
 
     p = len(a) - 1
 
-- 
2.43.0


From 96f7f928c4389ddb50715c143ddbecb4bff3fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 64/76] fix: LSFIR fits: cut off rounding-level singular values

Without rcond numpy keeps every non-zero singular value, so that for rank
deficient problems (e.g. frequencies of weight zero) coefficients of order
1e14 are returned, which do not minimise the weighted squared distance.
---
 PyDynamic/model_estimation/fit_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 492f113..1599052 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -221,7 +221,7 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
     if Wt is not None:
         iRI = np.vstack([np.dot(weights, iRI[: len(f)]), np.dot(weights, iRI[len(f) :])])
 
-    bFIR, res = np.linalg.lstsq(X, iRI)[:2]
+    bFIR, res = np.linalg.lstsq(X, iRI, rcond=None)[:2]
 
     if not isinstance(res, np.ndarray):
         print(
@@ -289,7 +289,7 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
     if Wt is not None:
         iRI = np.vstack([np.dot(weights, iRI[: len(f)]), np.dot(weights, iRI[len(f) :])])
 
-    bFIR, res = np.linalg.lstsq(X, iRI)[:2]  # the actual fitting
+    bFIR, res = np.linalg.lstsq(X, iRI, rcond=None)[:2]  # the actual fitting
 
     if (not isinstance(res, np.ndarray)) or (len(res) == 1):  # summarise results
         print(
@@ -482,7 +482,7 @@ def invLSFIR_uncMC(H, UH, N, tau, f, Fs, verbose=True):
         Hk = HRI[k, :Nf] + 1j * HRI[k, Nf:]
         Hkt = Hk * np.exp(1j * 2 * np.pi * f / Fs * tau)
         iRI = np.hstack([np.real(1.0 / Hkt), np.imag(1.0 / Hkt)])
-        bF[:, k], res = np.linalg.lstsq(X, iRI)[:2]
+        bF[:, k], res = np.linalg.lstsq(X, iRI, rcond=None)[:2]
         resn[k] = np.linalg.norm(res)
 
     bFIR = np.mean(bF, axis=1)
-- 
2.43.0


From b3833cd832a0062fe9efc63af38c6132d726ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 65/76] fix: FIRuncFilter: do not ignore a low-pass filter
 given as list

---
 PyDynamic/uncertainty/propagate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 357f2c8..8009d09 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -409,7 +409,7 @@ def FIRuncFilter(
             Utheta = np.diag(np.square(Utheta))
 
         # filter operation(s)
-        if isinstance(blow, np.ndarray):
+        if blow is not None:
             # apply (fully certain) lowpass-filter
             xlow, Ulow = _fir_filter(y, blow, Uy, None, initial_conditions="constant")
 
-- 
2.43.0


From a4fc650ccabbc7f46eca3f6f2910b6174839e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 66/76] fix: convolve_unc: do not ignore covariances given as
 lists

---
 PyDynamic/uncertainty/propagate_convolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_convolution.py b/PyDynamic/uncertainty/propagate_convolution.py
index 61df19a..b50f038 100644
--- a/PyDynamic/uncertainty/propagate_convolution.py
+++ b/PyDynamic/uncertainty/propagate_convolution.py
@@ -60,6 +60,10 @@ def convolve_unc(x1, U1, x2, U2, mode="full"):
         :func:`scipy.ndimage.convolve1d`
     """
 
+    # uncertainties given as lists would be ignored below
+    U1 = None if U1 is None else np.asarray(U1)
+    U2 = None if U2 is None else np.asarray(U2)
+
     # if a numpy-mode is chosen, x1 is expected to be the longer signal
     # remember that pure convolution is commutative
     if len(x1) < len(x2) and mode in ["valid", "full", "same"]:
-- 
2.43.0


From 6d5e50299d96bcc296b15519c2175fa62e9ebbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 67/76] fix: MC: take a zero-dimensional array as standard
 deviation, not as variance

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 7ff32a1..0752de8 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -150,7 +150,7 @@ def MC(
 
     # can draw the full matrix now.
     if isinstance(Ux, np.ndarray):
-        if len(Ux.shape) == 1:
+        if len(Ux.shape) < 2:
             dist = Normal_ZeroCorr(loc=x, scale=Ux)  # non-iid noise w/o correlation
         else:
             dist = stats.multivariate_normal(x, Ux, allow_singular=True)  # colored noise
-- 
2.43.0


From 145a22a7272592d881c8d4679609268fd8f6a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 68/76] fix: SMC: do not ignore coefficients given as lists

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 0752de8..8cd5da0 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -263,6 +263,12 @@ def SMC(
 
     runs = int(runs)
 
+    # coefficients given as lists would be ignored below
+    a, b, Uab, blow, alow, phi, theta = [
+        np.asarray(v) if isinstance(v, (list, tuple)) else v
+        for v in (a, b, Uab, blow, alow, phi, theta)
+    ]
+
     if isinstance(a, np.ndarray):  # filter order denominator
         Na = len(a) - 1
     else:
-- 
2.43.0


From c4afc37c4e9c677c6998c521d0cebde2f75b7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 69/76] fix: GUM_DFT: do not ignore a window or mask given as
 list or a NumPy integer N

---
 PyDynamic/uncertainty/propagate_DFT.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index f747ed8..8713b5b 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -254,9 +254,9 @@ def GUM_DFT(
     """
     L = 0
     # Apply the chosen window for the application of the FFT.
-    if isinstance(window, np.ndarray):
+    if window is not None:
         x, Ux = _apply_window(x, Ux, window)
-    if isinstance(N, int):
+    if N is not None:
         L = N - len(x)
         if L < 0:
             raise ValueError(
@@ -275,7 +275,8 @@ def GUM_DFT(
     else:
         M = N + 1
 
-    if isinstance(mask, np.ndarray):
+    if mask is not None:
+        mask = np.asarray(mask)
         F = np.fft.rfft(x)[mask]  # calculation of best estimate
         # In real, imag format in accordance with GUM S2
         F = np.r_[np.real(F), np.imag(F)]
@@ -315,7 +316,7 @@ def GUM_DFT(
     else:  # general method
         if len(Ux.shape) == 1:
             Ux = np.diag(Ux)
-        if not isinstance(CxCos, np.ndarray):
+        if CxCos is None:
             CxCos = np.zeros((Nm // 2, N - L))
             CxSin = np.zeros((Nm // 2, N - L))
             km = 0
@@ -345,7 +346,7 @@ def GUM_DFT(
 
     if returnC:
         # Return sensitivities if requested.
-        if not isinstance(CxCos, np.ndarray):
+        if CxCos is None:
             CxCos = np.vstack([Cxkc(k) for k in np.flatnonzero(mask)])
             CxSin = np.vstack([Cxks(k) for k in np.flatnonzero(mask)])
         return F, UF, {"CxCos": CxCos, "CxSin": CxSin}
-- 
2.43.0


From 7dfa529606d1a7de90a7e4a7199b69e4e3ea541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 70/76] fix: GUM_iDFT: do not ignore sensitivities which are no
 arrays

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 8713b5b..4bf5755 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -428,14 +428,14 @@ def GUM_iDFT(
 
     # calculate inverse DFT; Note: scaling factor 1/N is accounted for at the end
     x = np.fft.irfft(F[: N // 2 + 1] + 1j * F[N // 2 + 1 :])[:Nx]
-    if not isinstance(Cc, np.ndarray):  # calculate sensitivities
+    if Cc is None:  # calculate sensitivities
         Cc = np.zeros((Nx, N // 2 + 1))
         Cc[:, 0] = 1.0
         Cc[:, -1] = np.cos(np.pi * np.arange(Nx))
         for k in range(1, N // 2):
             Cc[:, k] = 2 * np.cos(k * beta)
 
-    if not isinstance(Cs, np.ndarray):
+    if Cs is None:
         Cs = np.zeros((Nx, N // 2 + 1))
         Cs[:, 0] = 0.0
         Cs[:, -1] = -np.sin(np.pi * np.arange(Nx))
-- 
2.43.0


From 78928c0aab21a9b5432c399a7cf8ecfc252ef953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 71/76] fix: Time2AmpPhase_multi: do not ignore a selector
 given as list

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 4bf5755..4741f9b 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -777,7 +777,7 @@ def Time2AmpPhase_multi(x, Ux, selector=None):
     M, nx = x.shape
     assert len(Ux) == M
     N = nx // 2 + 1
-    if not isinstance(selector, np.ndarray):
+    if selector is None:
         selector = np.arange(nx // 2 + 1)
     ns = len(selector)
 
-- 
2.43.0


From 46eb7061d51e7b5d401c7dc2d6a71587698ee4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 72/76] fix: DFT_multiply: do not ignore an uncertainty which
 is no array

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 4741f9b..ae0d1ca 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1137,7 +1137,7 @@ def DFT_multiply(
     RF = F[: N // 2]
     IF = F[N // 2 :]  # decompose into block matrix
     YF = np.r_[RY * RF - IY * IF, RY * IF + IY * RF]  # apply product rule
-    if not isinstance(UF, np.ndarray):  # second factor is known exactly
+    if UF is None:  # second factor is known exactly
         UYRR, UYRI, UYII = _calcU(F, UY)
         # Stack together covariance matrix
         UYF = np.vstack((np.hstack((UYRR, UYRI)), np.hstack((UYRI.T, UYII))))
-- 
2.43.0


From b8cb3539dbdc3cd1ce1c39c73541882d5a209bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 73/76] fix: invLSFIR_unc: do not ignore weights given as list
 or an integer threshold

---
 PyDynamic/model_estimation/fit_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 1599052..2880fb6 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -380,7 +380,8 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
     UiH = np.cov(HiMC, rowvar=False)
 
     # Step 2: Fit filter coefficients and evaluate uncertainties
-    if isinstance(wt, np.ndarray):
+    if wt is not None:
+        wt = np.asarray(wt)
         if wt.shape != np.diag(UiH).shape:
             raise ValueError("User-defined weighting has wrong dimension.")
     else:
@@ -397,7 +398,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
     UiH = UiH * np.outer(wt, wt)
 
     u, s, v = np.linalg.svd(X, full_matrices=False)
-    if isinstance(trunc_svd_tol, float):
+    if trunc_svd_tol is not None:
         s[s < trunc_svd_tol] = 0.0
     StSInv = np.zeros_like(s)
     StSInv[s > 0] = s[s > 0] ** (-2)
-- 
2.43.0


From 0031fc273f6f55b7dd49b783cd4adefd24cd4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 74/76] fix: fit_som: do not ignore uncertainties and weights
 given as lists or a NumPy integer MCruns

---
 PyDynamic/model_estimation/fit_transfer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 1327d33..d7bd6b1 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -57,14 +57,15 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
     Hr = H[: len(f)]
     Hi = H[len(f) :]
 
-    if isinstance(UH, np.ndarray):
+    if UH is not None:
+        UH = np.asarray(UH)
         assert UH.shape[0] == 2 * len(f)
         if len(UH.shape) == 2:
             assert UH.shape[0] == UH.shape[1]
 
         # propagate to real and imaginary parts of reciprocal using Monte Carlo
 
-        if isinstance(MCruns, int) or isinstance(MCruns, float):
+        if MCruns is not None:
             runs = int(MCruns)
         else:
             runs = 10000
@@ -91,15 +92,15 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
         else:
             print("Warning: Specified wrong type of weighting.")
             W = np.eye(2 * len(f))
-    elif isinstance(weighting, np.ndarray):
+    elif weighting is not None:
         assert len(weighting) == 2 * len(f)
         W = np.diag(weighting)
     else:
         W = np.eye(2 * len(f))
 
-    if isinstance(UH, np.ndarray):
+    if UH is not None:
         # Apply GUM S2
-        if isinstance(MCruns, int) or isinstance(MCruns, float):
+        if MCruns is not None:
             # Monte Carlo
             runs = int(MCruns)
             MU = np.zeros((runs, 3))
-- 
2.43.0


From 38d398f95a8fe70f08da2599e3779bfb4f42bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 75/76] fix: sos_FreqResp, sos_phys2filter: accept several
 static gains as list

---
 PyDynamic/misc/SecondOrderSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/SecondOrderSystem.py b/PyDynamic/misc/SecondOrderSystem.py
index e0965be..40c9950 100644
--- a/PyDynamic/misc/SecondOrderSystem.py
+++ b/PyDynamic/misc/SecondOrderSystem.py
@@ -56,7 +56,7 @@ def sos_FreqResp(S, d, f0, freqs):
     rho = S * (om0 ** 2)
     w = 2 * np.pi * freqs
 
-    if isinstance(S, np.ndarray):
+    if np.ndim(S) > 0:
         H = np.tile(rho, (len(w), 1)) * (
             om0 ** 2
             + 2j
@@ -92,7 +92,7 @@ def sos_phys2filter(S, d, f0):
             analogue filter coefficients
     """
 
-    if isinstance(S, np.ndarray):
+    if np.ndim(S) > 0:
         bc = [S * (2 * np.pi * f0) ** 2]
         ac = np.c_[np.ones((len(S),)), 4 * d * np.pi * f0, (2 * np.pi * f0) ** 2]
     else:
-- 
2.43.0


From ec5a41bcf9ca05d4e1d06d5b996ca904cff20f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 76/76] fix: Signal: do not ignore an uncertainty given as list
 or NumPy number

---
 PyDynamic/signals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index b32c4a7..4e6b9c3 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -48,10 +48,10 @@ class Signal:
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
         # set initial uncertainty
-        if isinstance(uncertainty, (float, int)):
+        if uncertainty is not None and np.ndim(uncertainty) == 0:
             self.uncertainty = np.ones_like(values) * uncertainty
-        elif isinstance(uncertainty, np.ndarray):
-            uncertainty = uncertainty.squeeze()
+        elif uncertainty is not None:
+            uncertainty = np.asarray(uncertainty).squeeze()
             if len(uncertainty.shape) == 1:
                 assert len(uncertainty) == len(time)
             else:
-- 
2.43.0

