From 7483b5745b1a35a54ec2d3e0f65704753ace3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 01/44] fix: integer slicing in make_complex_matrix

---
 src/models/gpu_matrix_operations.py | 2 +-
 src/models/matrix_operations.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/gpu_matrix_operations.py b/src/models/gpu_matrix_operations.py
index 9183c68..3280446 100644
--- a/src/models/gpu_matrix_operations.py
+++ b/src/models/gpu_matrix_operations.py
@@ -93,4 +93,4 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
diff --git a/src/models/matrix_operations.py b/src/models/matrix_operations.py
index c9c93e9..63c9bb0 100644
--- a/src/models/matrix_operations.py
+++ b/src/models/matrix_operations.py
@@ -93,7 +93,7 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
 
 
 def duplication_matrix(n):
-- 
2.43.0


From 0ef1a288acdc01eb5ba296e2fef7d40ba8a24387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 02/44] fix: use the output weights given to
 BayesianEIVRegression.fit

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 345a477..5238fc4 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -207,7 +207,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if x_weight is not None:
             x_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
         if z_weight is not None:
-            z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
+            z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
-- 
2.43.0


From 0ed36397a118e1bd8e397c8c63c869f08a5513f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 03/44] fix: vec(xY) is (Y.T kron I) vec(x) in
 BayesianEIVRegression, not (Y kron I)

---
 src/models/error_in_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 5238fc4..71b514c 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -216,8 +216,8 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
             if z_weight is not None and x_weight is not None:
                 # Create \bar Y from y
-                real_beta_kron = sp.kron(cp.real(y_mat), sp.eye(samples), format='csr')
-                imag_beta_kron = sp.kron(cp.imag(y_mat), sp.eye(samples), format='csr')
+                real_beta_kron = sp.kron(cp.real(y_mat).T, sp.eye(samples), format='csr')
+                imag_beta_kron = sp.kron(cp.imag(y_mat).T, sp.eye(samples), format='csr')
                 underline_y = sp.bmat([[real_beta_kron, -imag_beta_kron],
                                            [imag_beta_kron, real_beta_kron]], format='csr')
 
-- 
2.43.0


From 3728ec9597247e87ecf1401706bde12a9c11ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 04/44] fix: unweighted input misfit is the input correction in
 BayesianEIVRegression

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 71b514c..9c9041e 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -254,7 +254,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
 
                 # Solve the Delta V sub-problem using projection
                 e_qp = (cp.hstack((x, z)) @ projor)[:, :n]
-                da = vectorize_matrix(e_qp)
+                da = make_real_vector(vectorize_matrix(x - e_qp))
                 AmdA = make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT)
 
                 # Update y equation
-- 
2.43.0


From fdd4277d9500bd51c36bf2258108c912b3f1a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 05/44] fix: Bayesian estimators kept the iterations of earlier
 fits

---
 src/models/error_in_variable.py | 3 +++
 src/models/regression.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 9c9041e..82cbc9a 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -193,6 +193,9 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
             sp = sparse
             cp = np
 
+        #Forget the iterations of previous fits
+        self._iterations = []
+
         #Copy data
         samples, n = x.shape
         DT = sp.csr_matrix(cp.array(self._transformation_matrix(n), dtype=cp.float32))
diff --git a/src/models/regression.py b/src/models/regression.py
index 9b576fa..1420616 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -110,6 +110,9 @@ class BayesianRegression(GridIdentificationModel):
             sp = sparse
             cp = np
 
+        #Forget the iterations of previous fits
+        self._iterations = []
+
         #Copy data
         samples, n = x.shape
         DT = sp.csr_matrix(cp.array(self._transformation_matrix(n), dtype=cp.float32))
-- 
2.43.0


From f01cad1db5c08a0683c611f4e5a36f2f20e0dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 06/44] fix: default parameter matrices of BayesianRegression
 were unusable

---
 src/models/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/regression.py b/src/models/regression.py
index 1420616..be8ec9e 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -53,7 +53,7 @@ class BayesianRegression(GridIdentificationModel):
     """
 
     def __init__(self, prior, lambda_value=10e-2, abs_tol=10e-6, rel_tol=10e-6, max_iterations=50, verbose=True,
-                 dt_matrix_builder=lambda n: sparse.eye(n*n), e_matrix_builder=lambda n: sparse.eye(n*n)):
+                 dt_matrix_builder=lambda n: np.eye(n*n), e_matrix_builder=lambda n: np.eye(n*n)):
         """
         :param prior: Bayesian prior for the estimation
         :param lambda_value: initial or fixed sparsity parameter
-- 
2.43.0


From 8de56012ea45d7a7ee038c6e97e36dd8ce7992e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 07/44] fix: a prior copied from another one could not be
 extended

---
 src/models/bayesian_prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/bayesian_prior.py b/src/models/bayesian_prior.py
index 037d1bd..952ec08 100644
--- a/src/models/bayesian_prior.py
+++ b/src/models/bayesian_prior.py
@@ -22,9 +22,9 @@ class BayesianPrior(object):
     """
 
     def __init__(self, n=0, other=None):
-        self.L = other.L if other is not None else np.zeros((0, n))
+        self.L = np.zeros((0, n)) if other is None else other.L.toarray() if hasattr(other.L, "toarray") else other.L
         self.mu = other.mu if other is not None else np.zeros(0)
-        self.n = n
+        self.n = other.n if other is not None else n
 
     def _std_weights(self, weights, standard):
         """
-- 
2.43.0


From 18bac1f610eb9a824cb0649b29464e3f20c3741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 08/44] fix: sparse prior with a single belief could not be
 evaluated

---
 src/models/smooth_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/smooth_prior.py b/src/models/smooth_prior.py
index c9a3c2c..b197edd 100644
--- a/src/models/smooth_prior.py
+++ b/src/models/smooth_prior.py
@@ -143,7 +143,7 @@ class SparseSmoothPrior(SmoothPrior):
         W = sparse.diags(np.divide(1, w), format='csr')
 
         A = self.L.T @ W @ self.L
-        b = self.L.T @ W @ self.mu.squeeze()
+        b = self.L.T @ W @ self.mu
 
         return A, b, np.sum(w)
 
-- 
2.43.0


From 80dc9b99efbaaa8a443d5c7d974f221175e6903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 09/44] fix: noise covariances reject integer and numpy scalar
 deviations

---
 src/models/noise_transformation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/noise_transformation.py b/src/models/noise_transformation.py
index e50c5bb..819ee79 100644
--- a/src/models/noise_transformation.py
+++ b/src/models/noise_transformation.py
@@ -29,7 +29,7 @@ def exact_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and np.size(sd_magnitude) == measurement.shape[1]:
         real_var = np.zeros(measurement.shape)
         imag_var = np.zeros(measurement.shape)
         cov = np.zeros(measurement.shape)
@@ -58,7 +58,7 @@ def exact_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.size(sd_magnitude) > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
@@ -104,7 +104,7 @@ def naive_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and np.size(sd_magnitude) == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
@@ -129,7 +129,7 @@ def naive_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.size(sd_magnitude) > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
@@ -248,7 +248,7 @@ def average_true_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and np.size(sd_magnitude) == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
@@ -267,7 +267,7 @@ def average_true_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.size(sd_magnitude) > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
-- 
2.43.0


From 77a2d3b5e049a402e6d830c23d5ff5d2e53aaf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 10/44] fix: priors over a single parameter could not be
 evaluated

---
 src/models/smooth_prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/smooth_prior.py b/src/models/smooth_prior.py
index b197edd..f5a3622 100644
--- a/src/models/smooth_prior.py
+++ b/src/models/smooth_prior.py
@@ -38,7 +38,7 @@ class SmoothPrior(BayesianPrior):
     GAUSS = 2
 
     def log_distribution(self, x):
-        w = (np.abs(self.L @ x.squeeze() - self.mu) ** (2 - self.gamma)) + self.alpha
+        w = (np.abs(self.L @ x.ravel() - self.mu) ** (2 - self.gamma)) + self.alpha
 
         A = self.L.T @ np.diag(np.divide(1, w)) @ self.L
         b = self.L.T @ np.diag(np.divide(1, w)) @ self.mu
@@ -139,7 +139,7 @@ class SparseSmoothPrior(SmoothPrior):
         self.L = sparse.csr_matrix(self.L)
 
     def log_distribution(self, x):
-        w = (np.abs(self.L @ x.squeeze() - self.mu) ** (2 - self.gamma)) + self.alpha
+        w = (np.abs(self.L @ x.ravel() - self.mu) ** (2 - self.gamma)) + self.alpha
         W = sparse.diags(np.divide(1, w), format='csr')
 
         A = self.L.T @ W @ self.L
-- 
2.43.0


From d2668bff88de614fd9843317dd500bdf13aacebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 11/44] fix: BayesianRegression needs scipy.sparse.linalg to be
 imported

---
 src/models/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/regression.py b/src/models/regression.py
index be8ec9e..448c2e3 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import numpy as np
 from scipy import sparse
 from scipy.linalg import pinv
+from scipy.sparse.linalg import spsolve
 from tqdm import tqdm
 
 from conf import conf
-- 
2.43.0


From 1c2f56d7c3474d1986d3bd26b6b92efdae9f0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 12/44] fix: fisher_info applied the input noise of each sample
 to other samples

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 82cbc9a..0189a1a 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -106,7 +106,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
 
         bigy = sp.kron(sp.eye(samples, dtype=cp.float64), y[:, None], format='csr')
         Ws = bigy.T @ sp.kron(perm @ x_cov @ perm.T, sp.eye(n, dtype=cp.float64)) @ bigy
-        Ws = (perm.T @ sp.kron(sp.eye(2*n, dtype=cp.float64), Ws) @ perm) + z_cov
+        Ws = sp.kron(sp.eye(2*n, dtype=cp.float64), Ws, format='csr') + z_cov
 
         #inverse of W
         w1 = Ws[:, n*samples:][n*samples:, :].diagonal()
-- 
2.43.0


From 925bd5bae39cf195d5875598d2b0d33b018c52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 13/44] fix: three-phase admittance matrices were never
 available

runpp_3ph only keeps the matrices of the sequences when asked to, so that
make_y_bus failed for every three-phase network.
---
 src/simulation/network_3ph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/network_3ph.py b/src/simulation/network_3ph.py
index f6abec3..2a38540 100644
--- a/src/simulation/network_3ph.py
+++ b/src/simulation/network_3ph.py
@@ -104,7 +104,9 @@ class NetData3P(Net):
         :return: Admittance matrix as numpy array
         """
         run_net = self.deepcopy()
-        pp.runpp_3ph(run_net, numba=False)
+        for ppc in ['_ppc0', '_ppc1', '_ppc2']:
+            run_net.pop(ppc, None)  # never reuse matrices of an earlier run
+        pp.runpp_3ph(run_net, numba=False, recycle={"bus_pq": False, "gen": False, "Ybus": True})
 
         if type(run_net['_ppc0']['internal']['Ybus']) is not np.ndarray:
             y_bus0 = run_net['_ppc0']['internal']['Ybus'].todense()
-- 
2.43.0


From 59aea40c68aa527347480410bdf8e30a239a6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 14/44] fix: a network with buses but without lines could not
 be created

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 25eb560..1b239b6 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -18,7 +18,7 @@ class NetData(Net):
     def __init__(self, ns: list=None, ls: list=None, other=None):
         Net.__init__(self, other)
         ns = [] if ns is None else ns
-        ls = [] if ns is None else ls
+        ls = [] if ls is None else ls
 
         self.create_buses(ns)
         self.create_lines(ls)
-- 
2.43.0


From ce872266b33780ddd5cfc27e5edf2c4ba8531512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 15/44] fix: create_line never found its buses

Buses are named by the text form of their index.
---
 src/simulation/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 1b239b6..e31b1b4 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -58,8 +58,8 @@ class NetData(Net):
         """
         if f > t:
             f, t = t, f
-        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", f),
-                                       pp.get_element_index(self, "bus", t),
+        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(f)),
+                                       pp.get_element_index(self, "bus", str(t)),
                                        l, r / l, x / l, 0, 1e10, "(" + str(f) + "," + str(t) + ")")
         return self
 
-- 
2.43.0


From 888a18526be65957b0cc6e76807c7a3c7628effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 16/44] fix: create_lines_from_ybus took row numbers for bus
 indexes

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index e31b1b4..ee46691 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -92,7 +92,7 @@ class NetData(Net):
         for i in range(y_bus.shape[0]):
             for j in range(i):
                 if np.abs(y_bus[i, j]) > 0:
-                    y = -y_bus[i, j]/(self.bus.vn_kv[i]*self.bus.vn_kv[i])*self.sn_mva
+                    y = -y_bus[i, j]/(self.bus.vn_kv.iloc[i]*self.bus.vn_kv.iloc[i])*self.sn_mva
                     pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(self.bus.index[i])),
                                                    pp.get_element_index(self, "bus", str(self.bus.index[j])),
                                                    1.0, np.real(1.0/y), np.imag(1.0/y), 0, 1e10,
-- 
2.43.0


From ebae546e9fc3ff7984346424a38ce83009b97e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 17/44] fix: create_lines modified the line templates it was
 given

---
 src/simulation/network.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index ee46691..fb4380b 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -71,14 +71,13 @@ class NetData(Net):
         :return: self network for chained calls
         """
         for l in ls:
-            if l.start_bus > l.end_bus:
-                l.start_bus, l.end_bus = l.end_bus, l.start_bus
+            f, t = min(l.start_bus, l.end_bus), max(l.start_bus, l.end_bus)
 
             if l.status > 0:
-                pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(l.start_bus)),
-                                               pp.get_element_index(self, "bus", str(l.end_bus)),
+                pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(f)),
+                                               pp.get_element_index(self, "bus", str(t)),
                                                l.length, l.R / l.length, l.X / l.length, 0, 1e10,
-                                               "(" + str(l.start_bus) + "," + str(l.end_bus) + ")")
+                                               "(" + str(f) + "," + str(t) + ")")
         return self
 
     def create_lines_from_ybus(self, y_bus: np.array):
-- 
2.43.0


From 86ab2d42970e4798a1f4d4aa0134614bd7dfa546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 18/44] fix: remove_lines removed buses and remove_line failed

---
 src/simulation/abstract_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 5b1f7c9..4ee5e4a 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -53,10 +53,10 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_buses(self, bus)
 
     def remove_line(self, line):
-        pp.drop_lines(self, line)
+        pp.drop_lines(self, [line])
 
     def remove_lines(self, lines):
-        pp.drop_buses(self, lines)
+        pp.drop_lines(self, lines)
 
     def give_passive_nodes(self):
         """
-- 
2.43.0


From c9ff24e0d36ba10c2e132b2a67363f8522e474a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 19/44] fix: passive nodes of networks whose loads are not
 numbered like their buses

The load at a bus was looked up by load index, and only the first load of a bus counted.
---
 src/simulation/abstract_network.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 4ee5e4a..5904026 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -73,14 +73,11 @@ class Net(pp.pandapowerNet, ABC):
             else:
                 passive = (True, True, True)
 
-                if idx in self.load.bus:
-                    passive = passive if self.load.p_mw[self.load.bus[self.load.bus == idx].index.values[0]] == 0 \
-                                           and self.load.q_mvar[
-                                               self.load.bus[self.load.bus == idx].index.values[0]] == 0 else (
-                    False, False, False)
-
-                if idx in self.asymmetric_load.bus:
-                    idxload = self.asymmetric_load.bus[self.asymmetric_load.bus == idx].index.values[0]
+                for idxload in self.load.index[self.load.bus.values == idx]:
+                    passive = passive if self.load.p_mw[idxload] == 0 and self.load.q_mvar[idxload] == 0 else (
+                        False, False, False)
+
+                for idxload in self.asymmetric_load.index[self.asymmetric_load.bus.values == idx]:
                     passive = passive[0] if \
                         self.asymmetric_load.p_a_mw[idxload] == 0 and self.asymmetric_load.q_a_mvar[idxload] == 0 \
                         else False, passive[1] if \
-- 
2.43.0


From 7f00349937c95f3dc406d6568b3f425be1d60a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 20/44] fix: network reduction when the external grid is not
 the last bus

Loads of hidden nodes were read at shifted columns, a node behind the external grid
could be left in the matrix and the removed columns could differ from the removed nodes.
---
 src/simulation/run.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e0f3961..3357b0e 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -272,23 +272,25 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     passive_idx = [net.bus.index.tolist().index(idx) for idx in net.give_passive_nodes()[0]]
     hidden_idx = [net.bus.index.tolist().index(idx) for idx in hidden_nodes]
     pcc_idx = [net.bus.index.tolist().index(idx) for idx in net.ext_grid.bus.values]
-    idx_todel = list(set(hidden_idx).union(passive_idx))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
+    idx_tored = sorted(set(hidden_idx).union(passive_idx))
+    idx_todel = list(idx_tored)
+
+    # Incremental admittances of the hidden loads
+    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
+    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+    y_bus = y_bus + np.diag(shunts)
 
     # subKron reducing the ext_grid
     if not laplacian:
         y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
+        idx_todel.extend(pcc_idx)
 
         # Shift larger indices because y_bus gets smaller
-        for i in pcc_idx:
-            hidden_idx = [(idx - 1 if idx > i else idx) for idx in hidden_idx]
-            passive_idx = [(idx - 1 if idx > i else idx) for idx in passive_idx]
+        idx_tored = [idx - sum(i < idx for i in pcc_idx) for idx in idx_tored]
 
     # Kron reduction of passive and hidden nodes
-    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx).difference(pcc_idx)),
-                               y_bus + np.diag(shunts))
+    y_bus = net.kron_reduction(idx_tored, y_bus)
     pprint("Done!")
     pprint("reduced nodes: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From b10554d38397f2d01c73fa4f9d5c3ae9b6d5325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 21/44] fix: three-phase network reduction

Nodes were eliminated at indexes of the full network after the external grid had been
deleted, and phases that are passive on their own were eliminated as if they were sequences.
---
 src/simulation/run3ph.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e362fda..4952d16 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -346,12 +346,10 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
     y_bus = net.make_y_bus()
 
     pprint("Kron reducing loads with no current...")
-    idx_todel = []
-    # subKron reducing the ext_grid
+    pcc_idx = []
     for idx in net.ext_grid.bus.values:
         i = 3 * net.bus.index.tolist().index(idx)
-        idx_todel.extend([i, i + 1, i + 2])
-        y_bus = np.delete(np.delete(y_bus, [i, i + 1, i + 2], axis=1), [i, i + 1, i + 2], axis=0)
+        pcc_idx.extend([i, i + 1, i + 2])
 
     passive_nodes = net.give_passive_nodes()
     if not reduce_single:
@@ -369,13 +367,15 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(i)
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
-    idx_tored = np.array(idx_tored)
-    y_bus = admittance_phase_to_sequence(y_bus + np.diag(shunts))
-    y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
-    y_bus = admittance_sequence_to_phase(y_bus)
-    idx_todel.extend(idx_tored.tolist())
+    idx_tored = sorted(set(idx_tored).difference(pcc_idx))
+    idx_todel = pcc_idx + idx_tored
+
+    # subKron reducing the ext_grid, this shifts larger indices because y_bus gets smaller
+    y_bus = np.delete(np.delete(y_bus + np.diag(shunts), pcc_idx, axis=1), pcc_idx, axis=0)
+    idx_tored = [idx - sum(i < idx for i in pcc_idx) for idx in idx_tored]
+
+    # The phases of passive and hidden nodes may be coupled, they are eliminated together
+    y_bus = net.kron_reduction(idx_tored, y_bus)
 
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
-- 
2.43.0


From 5fbf4cf0eea5173ca1ca4b2140f9587f996ca5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 22/44] fix: simulated currents are the admittance matrix times
 the voltages

Rows were multiplied by the matrix itself instead of its transpose, which matters
wherever it is not symmetric: the external grid of three-phase networks.
---
 src/simulation/simulation.py     | 2 +-
 src/simulation/simulation_3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/simulation.py b/src/simulation/simulation.py
index 07cebfd..4bc1a3d 100644
--- a/src/simulation/simulation.py
+++ b/src/simulation/simulation.py
@@ -100,5 +100,5 @@ class SimulatedNet(NetData):
 
         va_rad = self.sim_result.va_degree.values * np.pi / 180
         voltage = self.sim_result.vm_pu.values * (np.cos(va_rad) + 1j * np.sin(va_rad))
-        current = voltage @ self.make_y_bus()
+        current = voltage @ self.make_y_bus().T
         return voltage, current
diff --git a/src/simulation/simulation_3ph.py b/src/simulation/simulation_3ph.py
index 3b4cba4..9721d5f 100644
--- a/src/simulation/simulation_3ph.py
+++ b/src/simulation/simulation_3ph.py
@@ -127,5 +127,5 @@ class SimulatedNet3P(NetData3P):
         voltage = np.kron(voltage_a, np.array([1, 0, 0])) + np.kron(voltage_b, np.array([0, 1, 0])) \
             + np.kron(voltage_c, np.array([0, 0, 1]))
 
-        current = voltage @ self.make_y_bus()
+        current = voltage @ self.make_y_bus().T
         return voltage, current
-- 
2.43.0


From 3d08398e32da79aca0ed1893b4ea4775b2714a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 23/44] fix: polar noise was scaled by the measured magnitude
 and phase

The declared deviations are absolute, as the covariances used for the identification
assume. Phases close to zero had no phase noise at all.
---
 src/simulation/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/noise.py b/src/simulation/noise.py
index 7c33c45..5264dfe 100644
--- a/src/simulation/noise.py
+++ b/src/simulation/noise.py
@@ -102,8 +102,8 @@ def add_polar_noise_to_measurement(actual_measurement: np.array, magnitude_sd: n
         phase_noise = np.random.normal(0, phase_sd[0], phase.shape)
 
     # Convert back to cartesian coordinates
-    noisy_magnitude = magnitude + magnitude_noise*magnitude
-    noisy_phase = phase + phase_noise*phase
+    noisy_magnitude = magnitude + magnitude_noise
+    noisy_phase = phase + phase_noise
     noisy_measurement = noisy_magnitude * np.exp(1j * noisy_phase)
 
     return noisy_measurement
-- 
2.43.0


From 7d78b5130f3f2af2b7e441991dd4507ffbe544a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 24/44] fix: polar noise rejects integer deviations

---
 src/simulation/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/noise.py b/src/simulation/noise.py
index 5264dfe..37fbf45 100644
--- a/src/simulation/noise.py
+++ b/src/simulation/noise.py
@@ -82,7 +82,7 @@ def add_polar_noise_to_measurement(actual_measurement: np.array, magnitude_sd: n
     magnitude, phase = np.abs(actual_measurement), np.angle(actual_measurement)
 
     # Generate magnitude noise, looped for each variable if the standard deviation is an array
-    if type(magnitude_sd) is float or magnitude_sd.size == 1:
+    if np.size(magnitude_sd) == 1:
         magnitude_noise = np.random.normal(0, magnitude_sd, magnitude.shape)
     elif magnitude_sd.size == magnitude.shape[1]:
         magnitude_noise = np.zeros(magnitude.shape)
@@ -92,7 +92,7 @@ def add_polar_noise_to_measurement(actual_measurement: np.array, magnitude_sd: n
         magnitude_noise = np.random.normal(0, magnitude_sd[0], magnitude.shape)
 
     # Generate phase noise
-    if type(phase_sd) is float or phase_sd.size == 1:
+    if np.size(phase_sd) == 1:
         phase_noise = np.random.normal(0, phase_sd, phase.shape)
     elif phase_sd.size == phase.shape[1]:
         phase_noise = np.zeros(phase.shape)
-- 
2.43.0


From 2aa4bbde5e821713ef9b2194f77b5e39dca91113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 25/44] fix: default times of the measurement filter

---
 src/simulation/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/noise.py b/src/simulation/noise.py
index 37fbf45..1c805fd 100644
--- a/src/simulation/noise.py
+++ b/src/simulation/noise.py
@@ -121,8 +121,9 @@ def filter_and_resample_measurement(actual_measurement, oldtimes=None, newtimes=
     """
 
     pbar = tqdm if verbose else (lambda x: x)
+    oldtimes = np.arange(actual_measurement.shape[0]) if oldtimes is None else oldtimes
+    newtimes = oldtimes if newtimes is None else newtimes
     steps, n_series = int(len(newtimes)/fparam), actual_measurement.shape[1]
-    oldtimes, newtimes = np.arange(steps) if oldtimes is None else oldtimes, oldtimes if newtimes is None else newtimes
 
     # linear interpolation of missing timesteps, looped to reduce memory usage
     filtered = 1j*np.zeros((steps, n_series))
-- 
2.43.0


From 4ce6d7606b0884502d81aee0ff429b3dd9518362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 26/44] fix: reloaded measurements ignored the configured
 safety factor

---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 3357b0e..3d7a09a 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -170,7 +170,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         voltage_magnitude_sd, current_magnitude_sd, voltage_phase_sd, current_phase_sd,\
             use_equivalent_noise, pmu_safety_factor = noise_params
     else:
-        pmu_safety_factor = 4
+        pmu_safety_factor = simulation.safety_factor
 
     pmu_ratings = pmu_safety_factor * np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
     # External grid connections provide power for all loads
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 4952d16..41d1241 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -226,7 +226,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
             use_equivalent_noise, pmu_safety_factor = noise_params
         pmu_safety_factor = pmu_safety_factor.reshape((len(pmu_safety_factor), 1))
     else:
-        pmu_safety_factor = np.array([[4], [4], [4]])
+        pmu_safety_factor = simulation.safety_factor * np.ones((3, 1))
 
     total_loads = np.zeros((3, len(net.bus.index)))
     for i in range(len(net.bus.index)):
-- 
2.43.0


From af145ab4c9df508a10ebe4a7a5420321a4613207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 27/44] fix: three-phase ratings did not follow the measurement
 columns

---
 src/simulation/run3ph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 41d1241..b5f87a3 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -246,13 +246,14 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
             pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
             pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
 
-    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
+    # The phases of each bus are next to each other in the measurements
+    pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
-- 
2.43.0


From 32a78e7d2ff34a013acae8a31bdad35edaca4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 28/44] fix: three-phase equivalent noise lost the averaging
 factor

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index b5f87a3..83c24ae 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -257,6 +257,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
+    fparam_ret = fparam
 
     if noise_params is not None:
         # Noise Generation
@@ -317,7 +318,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
         pprint("Done!")
 
-    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam
+    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
 
 
 def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_single=True, verbose=True):
-- 
2.43.0


From 30eef13c8bdc34d1e7dac5fb29fd1c206601e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 29/44] fix: random loads around negative nominal powers

---
 src/simulation/load_profile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simulation/load_profile.py b/src/simulation/load_profile.py
index 6aebe4c..1cab9a5 100644
--- a/src/simulation/load_profile.py
+++ b/src/simulation/load_profile.py
@@ -66,16 +66,16 @@ def generate_gaussian_load(
     """
     n_load = len(load_p_reference)
     if load_p_rb is None or load_q_rb is None or load_p_rc is None or load_q_rc is None:
-        load_p = np.random.normal(load_p_reference, load_p_reference * load_sd, (n_samples, n_load))
-        load_q = np.random.normal(load_q_reference, load_q_reference * load_sd, (n_samples, n_load))
+        load_p = np.random.normal(load_p_reference, np.abs(load_p_reference) * load_sd, (n_samples, n_load))
+        load_q = np.random.normal(load_q_reference, np.abs(load_q_reference) * load_sd, (n_samples, n_load))
         return load_p, load_q
     else:
-        load_pa = np.random.normal(load_p_reference, load_p_reference * load_sd, (n_samples, n_load))
-        load_qa = np.random.normal(load_q_reference, load_q_reference * load_sd, (n_samples, n_load))
-        load_pb = np.random.normal(load_p_rb, load_p_rb * load_sd, (n_samples, n_load))
-        load_qb = np.random.normal(load_q_rb, load_q_rb * load_sd, (n_samples, n_load))
-        load_pc = np.random.normal(load_p_rc, load_p_rc * load_sd, (n_samples, n_load))
-        load_qc = np.random.normal(load_q_rc, load_q_rc * load_sd, (n_samples, n_load))
+        load_pa = np.random.normal(load_p_reference, np.abs(load_p_reference) * load_sd, (n_samples, n_load))
+        load_qa = np.random.normal(load_q_reference, np.abs(load_q_reference) * load_sd, (n_samples, n_load))
+        load_pb = np.random.normal(load_p_rb, np.abs(load_p_rb) * load_sd, (n_samples, n_load))
+        load_qb = np.random.normal(load_q_rb, np.abs(load_q_rb) * load_sd, (n_samples, n_load))
+        load_pc = np.random.normal(load_p_rc, np.abs(load_p_rc) * load_sd, (n_samples, n_load))
+        load_qc = np.random.normal(load_q_rc, np.abs(load_q_rc) * load_sd, (n_samples, n_load))
         return load_pa, load_qa, load_pb, load_qb, load_pc, load_qc
 
 
-- 
2.43.0


From 41892b5f8bd4de596f1f0268596890b9558b30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 30/44] fix: random loads of three-phase networks

---
 src/simulation/load_profile.py | 2 +-
 src/simulation/run3ph.py       | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/simulation/load_profile.py b/src/simulation/load_profile.py
index 1cab9a5..dfd873f 100644
--- a/src/simulation/load_profile.py
+++ b/src/simulation/load_profile.py
@@ -76,7 +76,7 @@ def generate_gaussian_load(
         load_qb = np.random.normal(load_q_rb, np.abs(load_q_rb) * load_sd, (n_samples, n_load))
         load_pc = np.random.normal(load_p_rc, np.abs(load_p_rc) * load_sd, (n_samples, n_load))
         load_qc = np.random.normal(load_q_rc, np.abs(load_q_rc) * load_sd, (n_samples, n_load))
-        return load_pa, load_qa, load_pb, load_qb, load_pc, load_qc
+        return load_pa, load_pb, load_pc, load_qa, load_qb, load_qc
 
 
 def load_profile_from_csv(
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 83c24ae..1139f76 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from conf import conf, simulation
 from src.simulation.simulation_3ph import SimulatedNet3P
-from src.simulation.load_profile import load_profile_from_numpy
+from src.simulation.load_profile import load_profile_from_numpy, generate_gaussian_load
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
@@ -119,7 +119,11 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p, load_q = np.zeros_like(load_asym[0]), np.zeros_like(load_asym[0])
+            load_p, load_q = generate_gaussian_load(load_std, len(times),
+                                                    load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
+                                                                               for i in range(len(net.load.p_mw))]),
+                                                    load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
+                                                                               for i in range(len(net.load.q_mvar))]))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From 9b50ad3db1f88cb2d821e01c38edacad7b98239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 31/44] fix: simulations started within one second shared their
 results

---
 src/simulation/simulation.py     | 21 ++++++++++++++++++++-
 src/simulation/simulation_3ph.py |  4 ++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/simulation/simulation.py b/src/simulation/simulation.py
index 4bc1a3d..efe4ce5 100644
--- a/src/simulation/simulation.py
+++ b/src/simulation/simulation.py
@@ -42,6 +42,25 @@ class SimulationResult(object):
         )
 
 
+def make_result_path(output_path: Path) -> Path:
+    """
+    Creates a new folder for the results of a simulation.
+    It is never shared with other simulations, even if they start within the same second.
+
+    :param output_path: path of the folder in which the new one is created
+    :return: path of the new folder
+    """
+    base_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}"
+    result_path, i = base_path, 0
+    while True:
+        try:
+            result_path.mkdir(parents=True)
+            return result_path
+        except FileExistsError:
+            i = i + 1
+            result_path = base_path.with_name(f"{base_path.name}_{i}")
+
+
 class SimulatedNet(NetData):
 
     def __init__(self, ns: list = None, ls: list = None, other=None):
@@ -73,7 +92,7 @@ class SimulatedNet(NetData):
                      variable='q_mvar', data_source=load_df, profile_name=self.load.index)
 
         # Create file path and writer
-        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}"
+        timed_out_path = make_result_path(output_path)
         ow = OutputWriter(controlled_net, output_path=timed_out_path, output_file_type=".csv")
 
         # Define variables to save
diff --git a/src/simulation/simulation_3ph.py b/src/simulation/simulation_3ph.py
index 9721d5f..c21ec95 100644
--- a/src/simulation/simulation_3ph.py
+++ b/src/simulation/simulation_3ph.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from datetime import datetime
 from pathlib import Path
 from typing import Tuple
 
@@ -13,6 +12,7 @@ from tqdm import tqdm
 from conf.conf import SIM_DIR
 
 from src.simulation.network_3ph import NetData3P
+from src.simulation.simulation import make_result_path
 
 
 """
@@ -86,7 +86,7 @@ class SimulatedNet3P(NetData3P):
                              variable=variables[i], data_source=load_df, profile_name=self.asymmetric_load.index)
 
         # Create file path and writer
-        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}"
+        timed_out_path = make_result_path(output_path)
         ow = OutputWriter(controlled_net, output_path=timed_out_path, output_file_type=".csv", log_variables=[])
 
         # Define variables to save
-- 
2.43.0


From c9613ea2f399d4d0de6f77ff18e7a52039e254be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:07 +0000
Subject: [PATCH 32/44] fix: total contrast of the EIV prior had the wrong sign
 and counted each line twice

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 955a7cb..b91c949 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -136,7 +136,7 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
 
     else:
         prior.add_contrast_prior(indices=np.vstack(tuple(np.split(idx_offdiag, 2))),
-                                 values=-np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze(),
+                                 values=np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze() / 2,
                                  weights=lambdaprime*np.array([1, -1]),
                                  orders=SmoothPrior.LAPLACE)
 
-- 
2.43.0


From 9924993f0aa766d6fda5a66eb54292b4e9d88f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:07 +0000
Subject: [PATCH 33/44] fix: suboptimal known lines were unreachable

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index b91c949..34d0067 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -170,7 +170,7 @@ def add_known_lines(nodes, prior, lambdaprime, y_bus, laplacian=False, prior_typ
     tls_bus_weights = np.zeros_like(y_bus)
     tls_bus_centers = np.zeros_like(y_bus)
 
-    if "optimal" in prior_type:
+    if "optimal" in prior_type and "suboptimal" not in prior_type:
         # Node 2
         tls_bus_weights[0, :], tls_bus_weights[:, 0] = (1+1j), (1+1j)
         tls_bus_weights[0, 0] = 0
-- 
2.43.0


From f71207aceee5c2dec950c29aadaa3c87e3a2deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 34/44] fix: saved joint estimates of sequences could not be
 reloaded

---
 src/identification/run3ph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index cb0e983..37af3a1 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -246,6 +246,12 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
     y_fin = np.zeros_like(y_init)
 
     if np.any(phases_ids == 0):
+        if max_iterations <= 0 or voltage is None or current is None:
+            pprint("Loading STLS result...")
+            sim_STLS = np.load(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), allow_pickle=True)
+            pprint("Done!")
+            return sim_STLS["y"], sim_STLS["i"]
+
         iterations = [None, None, None]
         for i in range(3):
             pprint("Identifying phase/sequence " + str(i))
-- 
2.43.0


From 6c694192c48b2cea5dbe708aa93af0cb5eb77781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 35/44] fix: uncertainty analysis of identify_network was never
 available

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 9055694..d18ddef 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -107,7 +107,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         pprint("Done!")
 
     # Error covariance analysis
-    if uncertainty and not three_phases and not unsynchronized:
+    if uncertainty and not three_phased and not unsynchronized:
         fim_wtls, cov_wtls, expected_max_rrms = run_fcns.eiv_fim(name, voltage, current,
                                                                  voltage_magnitude_sd + 1j * voltage_phase_sd,
                                                                  current_magnitude_sd + 1j * current_phase_sd,
-- 
2.43.0


From bc011f7f383ababde5755f03d59c3110670fd38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 36/44] fix: identifying an absent phase used the data of
 another one

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index d18ddef..b176644 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -49,7 +49,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
     current, voltage, y_bus = sim_STLS['j'], sim_STLS['w'], sim_STLS['y']
     pmu_ratings, fparam, phases_ids = sim_STLS['p'], sim_STLS['f'], sim_STLS['h']
 
-    if not three_phased and np.any(phases_ids != 1):
+    if not three_phased and np.any(phases_ids != int(phases)):
         if not np.any(phases_ids == int(phases)):
             raise IndexError("Error: Trying to identify phase or sequence " + phases +
                              " but no data is available for it")
-- 
2.43.0


From 619db2ddc197cf4a8a3fa9d7fbb334bd3dc5fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 37/44] fix: continued identifications could not extend the
 iteration history

---
 identify_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/identify_network.py b/identify_network.py
index b176644..4ba2089 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -98,8 +98,8 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         weighted, max_iterations if redo_STLS else 0,
                                                                         not unsynchronized, verbose)
 
-    if continue_id:
-        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations.extend(sparse_tls_cov_iterations)
+    if continue_id and redo_STLS and max_iterations > 0:
+        sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
         sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
-- 
2.43.0


From 983a3e9ce1deab5afed2af405b683435d4301b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 38/44] fix: series with labels could not be plotted

---
 src/identification/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/utils.py b/src/identification/utils.py
index c7a38e8..021d6bb 100644
--- a/src/identification/utils.py
+++ b/src/identification/utils.py
@@ -131,7 +131,7 @@ def plot_series(m: np.array, name: str, labels=None, s=10, colormap='hsv', ar=No
         if labels is None or len(labels) != m.shape[1]:
             ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s, linestyle='solid', color=cmap[i])
         else:
-            ax1.scaplottter(np.arange(m.shape[0]), m[:, i], linewidth=s,
+            ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s,
                             linestyle='solid', color=cmap[i], label=labels[i])
             plt.legend(loc='upper right')
     with open(DATA_DIR / ("tikz/" + name + ".tex"), 'w') as f:
-- 
2.43.0


From fdbd575c40a2ee69b82965bb6f8529a937bde38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 39/44] fix: reports of a phase other than the first used the
 data of the first one

---
 plot_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plot_results.py b/plot_results.py
index 2a18995..754a342 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -42,7 +42,7 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
 
     correct_component = lambda x: x
     if phases != "012" and phases != "123":
-        idx_todel = (phases_ids != 1).nonzero()
+        idx_todel = (phases_ids != int(phases)).nonzero()
         voltage = np.delete(voltage, idx_todel, axis=1)
     elif phases == "012" and not sequence:
         correct_component = admittance_sequence_to_phase
-- 
2.43.0


From 6cf9416919971412633012543d8b467508bda664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 40/44] fix: reports without the results of the standard
 methods

---
 plot_results.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/plot_results.py b/plot_results.py
index 754a342..5a33349 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -60,7 +60,8 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
                 'correlations', s=3, colormap='blue2')  # np.std(voltage, axis=0) shows SNR
     plot_heatmap(np.abs(y_bus), "y_bus", minval=min_plot, maxval=max_plot_y, powernorm=color_scale)
 
-    if os.path.isfile(conf.conf.DATA_DIR / ("simulations_output/standard_results_" + name + ".npz")):
+    has_standard = os.path.isfile(conf.conf.DATA_DIR / ("simulations_output/standard_results_" + name + ".npz"))
+    if has_standard:
         pprint("Loading standard estimation methods results...")
         sim_STLS = np.load(conf.conf.DATA_DIR / ("simulations_output/standard_results_" + name + ".npz"))
         y_ols = correct_component(sim_STLS['o'])
@@ -124,26 +125,21 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
             E = elimination_sym_matrix(nodes)
 
         y_comp_idx = (np.abs(E @ vectorize_matrix(np.abs(y_bus-np.diag(np.diag(y_bus)))))) > 0
-        y_comp = np.array([E @ vectorize_matrix(y_ols), E @ vectorize_matrix(y_tls), E @ vectorize_matrix(y_lasso),
-                           E @ vectorize_matrix(y_sparse_tls_cov), E @ vectorize_matrix(y_bus)]).T
+        y_comp = np.array([E @ vectorize_matrix(y) for y in ([y_ols, y_tls, y_lasso] if has_standard else [])
+                           + [y_sparse_tls_cov, y_bus]]).T
 
         #plot_scatter(np.abs(y_comp[y_comp_idx, :]), 'comparison', s=2,
         #             labels=['OLS', 'MLE', 'Lasso', 'MAP', 'actual'],
         #             colormap=['navy', 'royalblue', 'forestgreen', 'peru', 'darkred'], ar=1)#8e-4)
 
         plot_scatter(np.abs(y_comp[y_comp_idx, :]), 'comparison', s=2,
-                     labels=['OLS', 'MLE', 'Lasso', 'MAP', 'actual'],
-                     colormap=['navy', 'royalblue', 'forestgreen', 'peru', 'darkred'], ar=8e-4)
+                     labels=['OLS', 'MLE', 'Lasso', 'MAP', 'actual'][-y_comp.shape[1]:],
+                     colormap=['navy', 'royalblue', 'forestgreen', 'peru', 'darkred'][-y_comp.shape[1]:], ar=8e-4)
 
         with open(conf.conf.DATA_DIR / 'sparsity_metrics.txt', 'w') as f:
-            print("OLS", file=f)
-            print(error_metrics(2*y_comp[np.invert(y_comp_idx), 0], 2*y_comp[np.invert(y_comp_idx), 4]), file=f)
-            print("TLS", file=f)
-            print(error_metrics(2*y_comp[np.invert(y_comp_idx), 1], 2*y_comp[np.invert(y_comp_idx), 4]), file=f)
-            print("Lasso", file=f)
-            print(error_metrics(2*y_comp[np.invert(y_comp_idx), 2], 2*y_comp[np.invert(y_comp_idx), 4]), file=f)
-            print("MLE", file=f)
-            print(error_metrics(2*y_comp[np.invert(y_comp_idx), 3], 2*y_comp[np.invert(y_comp_idx), 4]), file=f)
+            for i, label in enumerate((["OLS", "TLS", "Lasso"] if has_standard else []) + ["MLE"]):
+                print(label, file=f)
+                print(error_metrics(2*y_comp[np.invert(y_comp_idx), i], 2*y_comp[np.invert(y_comp_idx), -1]), file=f)
         pprint("Done!")
     else:
         pprint("No file found for Bayesian identification results.")
@@ -161,14 +157,16 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
         print(cov_error_metrics)
 
         pprint("Plotting standard estimation methods results...")
-        plot_heatmap(np.abs(y_tls - y_bus), "tls_errors", minval=min_plot, maxval=max_plot_err, powernorm=color_scale)
+        if has_standard:
+            plot_heatmap(np.abs(y_tls - y_bus), "tls_errors", minval=min_plot, maxval=max_plot_err, powernorm=color_scale)
 
-        cov_metrics = error_metrics(y_tls - y_bus, cov_wtls)
-        print(cov_metrics)
+            cov_metrics = error_metrics(y_tls - y_bus, cov_wtls)
+            print(cov_metrics)
         plot_heatmap(cov_wtls, "tls_cov", minval=min_plot, maxval=max_plot_err, powernorm=color_scale)
 
-        est_cov_metrics = error_metrics(y_tls - y_bus, cov_est)
-        print(est_cov_metrics)
+        if has_standard:
+            est_cov_metrics = error_metrics(y_tls - y_bus, cov_est)
+            print(est_cov_metrics)
         plot_heatmap(cov_est, "tls_cov_est", minval=min_plot, maxval=max_plot_err, powernorm=color_scale)
 
         pprint("Done!")
-- 
2.43.0


From 1c69fdca88ed30ae3488abc794a195c86d5d0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 41/44] fix: reports of grids without zero parameters

---
 plot_results.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plot_results.py b/plot_results.py
index 5a33349..96b96fc 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -139,7 +139,10 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
         with open(conf.conf.DATA_DIR / 'sparsity_metrics.txt', 'w') as f:
             for i, label in enumerate((["OLS", "TLS", "Lasso"] if has_standard else []) + ["MLE"]):
                 print(label, file=f)
-                print(error_metrics(2*y_comp[np.invert(y_comp_idx), i], 2*y_comp[np.invert(y_comp_idx), -1]), file=f)
+                if np.all(y_comp_idx):
+                    print("No zero parameters", file=f)
+                else:
+                    print(error_metrics(2*y_comp[np.invert(y_comp_idx), i], 2*y_comp[np.invert(y_comp_idx), -1]), file=f)
         pprint("Done!")
     else:
         pprint("No file found for Bayesian identification results.")
-- 
2.43.0


From 4a6630f4e34fa694ca06d8800e90465e48759852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 42/44] fix: fisher_info ignored the other part of complex
 regressors

---
 src/models/error_in_variable.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 0189a1a..23b30d8 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -115,14 +115,9 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         w1i = sp.diags(1 / (w1 - w2 * (w2 / w3)))
         w3i = sp.diags(1 / (w3 - w2 * (w2 / w1)))
         w2i = sp.diags(-((w2 * w1i) / w3))
-        #F = (A.T @ sp.bmat([[w1i, w2i], [w2i, w3i]], format='csr') @ A).toarray()
-
-        del A
-        del x_cov
-        del z_cov
-        Ar = sp.kron(sp.eye(n, dtype=cp.float64), cp.real(x), format='csr')
-        Ai = sp.kron(sp.eye(n, dtype=cp.float64), cp.imag(x), format='csr')
-        F = sp.bmat([[Ar.T @ w1i @ Ar, Ar.T @ w2i @ Ai], [Ai.T @ w2i @ Ar, Ai.T @ w3i @ Ai]], format='csr').toarray()
+
+        # w3 is the real block of W and w1 the imaginary one
+        F = (A.T @ sp.bmat([[w3i, w2i], [w2i, w1i]], format='csr') @ A).toarray()
 
         return F.get() if conf.GPU_AVAILABLE else F, cp.linalg.inv(F).get() if conf.GPU_AVAILABLE else cp.linalg.inv(F)
 
-- 
2.43.0


From dab257e5f495a7a34b864fe5b716a2994e77876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 43/44] fix: current covariance of unsynchronized measurements
 must be in the frame of the rotated currents

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 34d0067..959fab1 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -417,7 +417,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = naive_noise_covariance(centered_voltage, np.real(voltage_sd_polar),
                                                           np.imag(voltage_sd_polar) * 100, False)
-            inv_sigma_current = naive_noise_covariance(current, np.real(current_sd_polar) * pmu_ratings,
+            inv_sigma_current = naive_noise_covariance(centered_current, np.real(current_sd_polar) * pmu_ratings,
                                                        np.imag(current_sd_polar), True)
             # invert only diagonal elements (off diagonal is zero)
             inv_sigma_voltage.data = 1.0 / inv_sigma_voltage.data
-- 
2.43.0


From 026ed12d077180cbb5125f1921ec7cacf4504725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 44/44] fix: unweighted identification without synchronization
 must not use the phases

---
 src/identification/run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 959fab1..c56365c 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -403,6 +403,10 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
         centered_voltage = voltage.copy()
         centered_current = current.copy()
 
+        if not use_pmu_data:
+            centered_voltage = np.abs(voltage.copy())
+            centered_current = ((current * voltage.conj()) / np.abs(voltage)).copy()
+
         if weighted and use_pmu_data:
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = average_true_noise_covariance(voltage, np.real(voltage_sd_polar),
@@ -411,9 +415,6 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
                                                               np.imag(current_sd_polar), True)
             pprint("Done!")
         elif weighted and not use_pmu_data:
-            centered_voltage = np.abs(voltage.copy())
-            centered_current = ((current * voltage.conj()) / np.abs(voltage)).copy()
-
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = naive_noise_covariance(centered_voltage, np.real(voltage_sd_polar),
                                                           np.imag(voltage_sd_polar) * 100, False)
-- 
2.43.0

