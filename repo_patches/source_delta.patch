From 7f72aff2ef19b3405424e64041bb10c8b652a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 01/56] fix: multidimensional_discretization uses the lower
 Cholesky factor

Nodes are built as L @ z, so L must satisfy L L' = Sigma; scipy returns the
upper factor by default and correlated processes got the wrong covariance.
---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 3345bb4..dde5237 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -129,7 +129,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
     for i in zero_columns:
         sigma[i, i] = 1
 
-    L = scipy.linalg.cholesky(sigma)
+    L = scipy.linalg.cholesky(sigma, lower=True)
 
     N = int(N)
 
-- 
2.43.0


From 54d0eefe5fac466002a11b822a3c0e15f6913f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 02/56] fix: multidimensional_discretization only drops columns
 of sigma that are zero

A column whose entries merely add up to zero (e.g. [[1,-1],[-1,2]]) was
treated as a variable without noise.
---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index dde5237..df96ec5 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -125,7 +125,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     sigma = sigma.copy()
 
-    zero_columns = np.where(sigma.sum(axis=0) == 0)[0]
+    zero_columns = np.where((sigma == 0).all(axis=0))[0]
     for i in zero_columns:
         sigma[i, i] = 1
 
-- 
2.43.0


From 35d34d8f794151fd00e18fac63181baf046f8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 03/56] fix: VAR1.discretize_mc refuses persistence matrices
 that are not scalar

The tolerance of the check was 1, so any stationary diagonal matrix was
silently replaced by its first coefficient; the error message used an
undefined name.
---
 dolo/numeric/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa934ec..9ca26a5 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -532,11 +532,11 @@ class VAR1(ContinuousProcess):
         Sigma = self.Σ
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
-- 
2.43.0


From 655c34b48f3f086d9262bf58db0979aeef21a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 04/56] fix: gauss_hermite_nodes neither modifies sigma nor
 drops noisy columns

The caller's covariance matrix was changed in place for variables without
noise, and columns whose entries merely add up to zero were treated as such.
---
 dolo/numeric/discretization/quadrature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b92c37f..e3cd51e 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -103,7 +103,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
         w = reduce(numpy.kron, weights)
 
-        zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        sigma = sigma.copy()
+        zero_columns = numpy.where((sigma == 0).all(axis=0))[0]
         for i in zero_columns:
             sigma[i, i] = 1.0
 
-- 
2.43.0


From 83616490c71e351dc12831e89e18eba711d83023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 05/56] fix: Gauss-Hermite discretization counts the mean once

gauss_hermite_nodes added mu to the nodes in several dimensions (but not in
one), and Normal.discretize added it again, so multivariate normals were
discretized around twice their mean.  The nodes routine now always adds mu and
its callers do not.
---
 dolo/numeric/discretization/quadrature.py | 4 ++--
 dolo/numeric/distribution.py              | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index e3cd51e..a1ff204 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -90,7 +90,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     if len(orders) == 1:
         # Note: if sigma is 2D, x will always be 2D, even if sigma is only 1x1.
         # print(points.shape)
-        x = numpy.array(points[0]) * numpy.sqrt(float(sigma))
+        x = numpy.array(points[0]) * numpy.sqrt(float(sigma)) + mu
         if sigma.ndim == 2:
             x = x[:, None]
         w = weights[0]
@@ -115,7 +115,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
         x = numpy.ascontiguousarray(x.T)
 
         for i in zero_columns:
-            x[:, i] = 0
+            x[:, i] = mu[i]
 
         return [x, w]
 
diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5b3132d..b3bc418 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -449,7 +449,6 @@ class UNormal(UnivariateContinuousDistribution):
         from dolo.numeric.discretization.quadrature import gauss_hermite_nodes
 
         [x, w] = gauss_hermite_nodes(N, np.array([[self.σ**2]]), mu=self.μ)
-        x += np.array([self.μ])[:, None]
         return FiniteDistribution(x, w, origin=self)
 
 
@@ -605,7 +604,6 @@ class Normal(ContinuousDistribution):
             from dolo.numeric.discretization.quadrature import gauss_hermite_nodes  # type: ignore
 
             [x, w] = gauss_hermite_nodes(N, self.Σ, mu=self.Μ)
-            x = np.row_stack([(e + self.Μ) for e in x])
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-- 
2.43.0


From e16257662239f4b003db394905a471120f0509ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 06/56] fix: Normal accepts covariance matrices of variables
 without noise
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The documented example Σ: [[0.0]] could not be constructed because scipy
refuses singular covariances unless told otherwise.
---
 dolo/numeric/distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index b3bc418..607517c 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -583,7 +583,9 @@ class Normal(ContinuousDistribution):
         # this class wraps functionality from scipy
         import scipy.stats
 
-        self._dist_ = scipy.stats.multivariate_normal(mean=self.Μ, cov=self.Σ)
+        self._dist_ = scipy.stats.multivariate_normal(
+            mean=self.Μ, cov=self.Σ, allow_singular=True
+        )
 
     def draw(self, N: int) -> Matrix:
 
-- 
2.43.0


From 834b4cd987ded72368e1c3f683b35ca9829c3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 07/56] fix: Bernouilli.draw uses the probability parameter

Draws were always fair coin tosses.
---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 607517c..870f46b 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -298,7 +298,7 @@ class Bernouilli(DiscreteDistribution):
 
     def draw(self, N: int) -> Matrix:
         a = np.array([0, 1])
-        c = np.random.choice(a, size=N)
+        c = np.random.choice(a, size=N, p=[1 - self.π, self.π])
         return c.reshape((N, 1))
 
 
-- 
2.43.0


From 0f819a5abb26ab7c0b26b315c2738b6d22e44ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 08/56] fix: Mixture.draw matches integer indices with the
 string keys

The drawn index was compared with the (string) key of each distribution, so
every draw was zero.
---
 dolo/numeric/distribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 870f46b..c4a861e 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -761,7 +761,10 @@ class Mixture(ContinuousDistribution):
         # naive and overkill algorithm
         inds = self.index.draw(N)  # should be (N x 1) array
         return sum(
-            [(inds == k) * dist.draw(N) for (k, dist) in self.distributions.items()]
+            [
+                (inds == int(k)) * dist.draw(N)
+                for (k, dist) in self.distributions.items()
+            ]
         )
 
 
-- 
2.43.0


From 6f56cf673d20963fd4f9f1cbce4d11d6e7e9a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 09/56] fix: a simulated Markov chain never leaves the state
 space

When the cumulated probabilities end slightly below one because of rounding,
a draw above them selected state n, which does not exist.
---
 dolo/numeric/processes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 9ca26a5..7777ceb 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -28,7 +28,8 @@ def choice(x, n, cumul):
             running = False
         else:
             i += 1
-    return i
+    # rounding errors can leave the last cumulated probability below x
+    return min(i, n - 1)
 
 
 @njit
-- 
2.43.0


From 06c5b85d7a44dc1e0eb133cb66ee5e2814c145d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 10/56] fix: simulate_markov_chain(return_values=True) returns
 the visited nodes

It used an undefined name.
---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 7777ceb..08eded5 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -55,7 +55,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     indices = simulate_mc_indices(C, N, T, i0_)
     if return_values:
         values = np.reshape(
-            np.concatenate([Q[i, :][None, :] for i in indices.ravel()], axis=0),
+            np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
             indices.shape + (-1,),
         )
         return indices, values
-- 
2.43.0


From 461cd7ce1122bf84ed4d869921060c84783e6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 11/56] fix: deterministic simulation of AR1 and VAR1 processes

mu[None, len(mu)] is out of bounds, so stochastic=False always failed.
---
 dolo/numeric/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 08eded5..b5acef7 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -469,7 +469,7 @@ class AR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
         sim[0, :, :] = m0[None, :]
@@ -605,7 +605,7 @@ class VAR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-- 
2.43.0


From 1dd1482453fce681628a5ca9aebe792d29da1728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 12/56] fix: AR1.simulate

It failed with an undefined name, and (as VAR1.simulate does) must add the mean
to deviations driven by centered innovations, not count it twice.
---
 dolo/numeric/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index b5acef7..8fde48b 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -458,7 +458,7 @@ class AR1(ContinuousProcess):
     def simulate(self, N, T, m0=None, stochastic=True):
 
         Sigma = np.array([[self.σ]])
-        mu = np.array([self.μ])
+        mu = np.array([self.μ]) * 0
         rho = np.array([[self.ρ]])
         d = self.d
 
@@ -476,7 +476,7 @@ class AR1(ContinuousProcess):
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
-        sim += μ[None, None, :]
+        sim += self.μ
 
         return sim
 
-- 
2.43.0


From 62961b3a17d4cb4264d602c44b843ac767f0a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 13/56] fix: AR1.response and VAR1.response

AR1.response failed (matrix product of scalars).  Both now return what
IIDProcess.response returns and dolo.algos.simulations.response expects: a
DataArray with dimensions T, V and T+1 dates.
---
 dolo/numeric/processes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 8fde48b..f12e674 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -486,12 +486,13 @@ class AR1(ContinuousProcess):
         rho = self.ρ
         μ = self.μ
 
-        irf = np.zeros((T, d))
+        irf = np.zeros((T + 1, d))
         irf[0, :] = impulse
         for t in range(1, irf.shape[0]):
-            irf[t, :] = rho @ irf[t - 1, :]
-        irf += μ[None, :]
-        return irf
+            irf[t, :] = rho * irf[t - 1, :]
+        irf += μ
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 @language_element
@@ -619,13 +620,14 @@ class VAR1(ContinuousProcess):
 
     def response(self, T, impulse):
         d = self.d
-        irf = np.zeros((T, d))
+        irf = np.zeros((T + 1, d))
         irf[0, :] = impulse
         rho = self.ρ
         for t in range(1, irf.shape[0]):
             irf[t, :] = rho @ irf[t - 1, :]
         irf += self.μ[None, :]
-        return irf
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 #### dummy class
-- 
2.43.0


From f7f29741c4992c988fac3f67a135fee8bfad9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 14/56] fix: discretize_gdp of AR1 and VAR1 processes runs

It instantiated the abstract CartesianGrid, and AR1 asked a scalar for its shape.
---
 dolo/numeric/processes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index f12e674..a7e51e2 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -415,7 +415,7 @@ class AR1(ContinuousProcess):
     def discretize_gdp(self, N=3):
 
         Σ = np.array([[self.σ]])
-        ρ = self.ρ
+        ρ = np.array([[self.ρ]])
 
         n_nodes = N
         n_std = 2.5
@@ -441,9 +441,9 @@ class AR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
@@ -579,9 +579,9 @@ class VAR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
-- 
2.43.0


From 1cc70ada872aaa889fe4ba271770f25de700342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 15/56] fix: discretize_gdp takes the mean of the process into
 account

Nodes and integration nodes were centered on zero whatever the mean.
---
 dolo/numeric/processes.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index a7e51e2..d005625 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -438,8 +438,10 @@ class AR1(ContinuousProcess):
 
         epsilons, weights = gauss_hermite_nodes([n_integration_nodes], Σ)
 
-        min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
-        max = n_std * (σ / (np.sqrt(1 - ρ**2)))
+        μ = self.μ
+
+        min = μ - n_std * (σ / (np.sqrt(1 - ρ**2)))
+        max = μ + n_std * (σ / (np.sqrt(1 - ρ**2)))
 
         from .grids import UniformCartesianGrid
 
@@ -450,7 +452,7 @@ class AR1(ContinuousProcess):
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = μ + ρ * (nodes[i, :] - μ) + epsilons[j]
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
@@ -576,8 +578,10 @@ class VAR1(ContinuousProcess):
 
         epsilons, weights = gauss_hermite_nodes([n_integration_nodes], Σ)
 
-        min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
-        max = n_std * (σ / (np.sqrt(1 - ρ**2)))
+        μ = self.μ[0]
+
+        min = μ - n_std * (σ / (np.sqrt(1 - ρ**2)))
+        max = μ + n_std * (σ / (np.sqrt(1 - ρ**2)))
 
         from .grids import UniformCartesianGrid
 
@@ -588,7 +592,7 @@ class VAR1(ContinuousProcess):
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = μ + ρ * (nodes[i, :] - μ) + epsilons[j]
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
-- 
2.43.0


From 1a81d454a8e7b984e1835d451ec13a2a511eea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 16/56] fix: discretize(to="mc") of a distribution keeps its
 options

The number of points and the method were dropped on the way to the Markov chain.
---
 dolo/numeric/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index c4a861e..ba80f62 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -369,7 +369,9 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             else:
                 raise Exception("Unknown discretization method.")
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(
+                to="iid", N=N, method=method, mass_point=mass_point
+            )
             return discr_iid.discretize(to="mc")
         else:
             raise Exception("Not implemented (yet).")
@@ -609,7 +611,7 @@ class Normal(ContinuousDistribution):
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(to="iid", N=N)
             return discr_iid.discretize(to="mc")
 
         else:
-- 
2.43.0


From a17fb9164a93125f9299afeec44419f74f494c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 17/56] fix: Normal.draw always returns an N times d matrix

scipy squeezes its output, so a single draw from a multivariate normal came
back transposed (and from a univariate one as a scalar).
---
 dolo/numeric/distribution.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index ba80f62..afe3a8a 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -592,11 +592,8 @@ class Normal(ContinuousDistribution):
     def draw(self, N: int) -> Matrix:
 
         res = self._dist_.rvs(size=N)
-        if res.ndim == 1:
-            # scipy returns a 1d object for 1d distribution
-            res = res[:, None]
-
-        return res
+        # scipy drops dimensions of length 1
+        return np.reshape(res, (N, self.d))
 
     def discretize(self, to="iid", N=None) -> FiniteDistribution:
 
-- 
2.43.0


From 0b75534984485bf28df1a5df34421f27f1b1e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 18/56] fix: sum of two uniform Cartesian grids uses the bounds
 of both grids

---
 dolo/numeric/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index c6cf223..4d86f90 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -129,8 +129,8 @@ class UniformCartesianGrid(CartesianGrid):
             raise Exception("Not implemented.")
 
         n = np.array(tuple(self.n) + tuple(g.n))
-        min = np.array(tuple(self.min) + tuple(self.min))
-        max = np.array(tuple(self.max) + tuple(self.max))
+        min = np.array(tuple(self.min) + tuple(g.min))
+        max = np.array(tuple(self.max) + tuple(g.max))
 
         return UniformCartesianGrid(min, max, n)
 
-- 
2.43.0


From 9170290eb5d78e90cd80867697a07ded07f04933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 19/56] fix: product of two Cartesian grids runs

---
 dolo/numeric/grids.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 4d86f90..91e6383 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -186,10 +186,7 @@ def cat_grids(grid_1, grid_2):
     if isinstance(grid_1, EmptyGrid):
         return grid_2
     if isinstance(grid_1, CartesianGrid) and isinstance(grid_2, CartesianGrid):
-        min = np.concatenate([grid_1.min, grid_2.min])
-        max = np.concatenate([grid_1.max, grid_2.max])
-        n = np.concatenate([grid_1.n, grid_2.n])
-        return CartesianGrid(min, max, n)
+        return grid_1 + grid_2
     else:
         raise Exception("Not Implemented.")
 
-- 
2.43.0


From 00f9b9160a56e9e8806eb4ddff7736b4eaaaa4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 20/56] fix: default number of points of a uniform Cartesian
 grid

---
 dolo/numeric/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 91e6383..b71443d 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -113,7 +113,7 @@ class UniformCartesianGrid(CartesianGrid):
         self.min = np.array(min, dtype=float)
         self.max = np.array(max, dtype=float)
         if len(n) == 0:
-            self.n = np.zeros(n, dtype=int) + 20
+            self.n = np.zeros(self.d, dtype=int) + 20
         else:
             self.n = np.array(n, dtype=int)
 
-- 
2.43.0


From dfbdbc1fd5ffe29e6febf9ae1953c5d15249e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 21/56] fix: cartesian does not truncate floats when the first
 array holds integers

---
 dolo/numeric/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/misc.py b/dolo/numeric/misc.py
index 44570b5..0be014e 100644
--- a/dolo/numeric/misc.py
+++ b/dolo/numeric/misc.py
@@ -37,7 +37,7 @@ def cartesian(arrays, out=None):
     """
 
     arrays = [np.asarray(x) for x in arrays]
-    dtype = arrays[0].dtype
+    dtype = np.result_type(*arrays)
 
     n = np.prod([x.size for x in arrays])
     if out is None:
-- 
2.43.0


From 30165092a7ac46aa47b38dc8048c30b11d84104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 22/56] fix: linear decision rules on unstructured exogenous
 grids interpolate in all dimensions

---
 dolo/numeric/decision_rule.py | 34 ----------------------------------
 1 file changed, 34 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index d720d47..2478e2c 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -336,40 +336,6 @@ def eval_is(
     return eval_cubic(gg, coeffs, s)
 
 
-# UnstructuredGrid x Cartesian x Linear
-
-
-@multimethod
-def get_coefficients(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    x: object,
-):
-    return [x[i].copy() for i in range(x.shape[0])]
-
-
-@multimethod
-def eval_is(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    i: object,
-    s: object,
-):
-
-    from interpolation.splines import eval_linear
-
-    assert s.ndim == 2
-
-    coeffs = itp.coefficients[i]
-    gg = endo_grid.__numba_repr__()
-
-    return eval_linear(gg, coeffs, s)
-
-
 # Empty x Cartesian x Linear
 
 
-- 
2.43.0


From bcc5d380debd3c3c1ae40e3204e99ff124c973cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 23/56] fix: decision rules on Cartesian exogenous grids accept
 several states per node

---
 dolo/numeric/decision_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 2478e2c..0dd7448 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -204,7 +204,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
@@ -261,7 +261,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
-- 
2.43.0


From 0fb564ecb44d1a8852b48370b3eca453fc02edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 24/56] fix: calling a decision rule with one exogenous point
 and several states

---
 dolo/numeric/decision_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 0dd7448..1ee71fd 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -72,9 +72,9 @@ class CallableDecisionRule:
                 if s.ndim == 1 and m.ndim == 1:
                     return self.eval_ms(m[None, :], s[None, :])[0, :]
                 elif m.ndim == 1:
-                    m = m[None, :]
+                    m = m[None, :].repeat(s.shape[0], axis=0)
                 elif s.ndim == 1:
-                    s = s[None, :]
+                    s = s[None, :].repeat(m.shape[0], axis=0)
                 return self.eval_ms(m, s)
 
 
-- 
2.43.0


From cd900a268092ecce067a3511548d052d06b8f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 25/56] fix: invert handles right-hand sides that are not
 square

---
 dolo/algos/invert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/invert.py b/dolo/algos/invert.py
index ac27d59..12e6761 100644
--- a/dolo/algos/invert.py
+++ b/dolo/algos/invert.py
@@ -56,7 +56,7 @@ def substract_tensor(i, j, c, M):
 @jit
 def substract_matrix(i, j, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] = M[i, k] - c * M[j, k]
 
@@ -100,7 +100,7 @@ def divide_tensor(i, c, M):
 @jit
 def divide_matrix(i, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] /= c
 
-- 
2.43.0


From 2c690a724b7e5e0afa943d0cdcefd3317f1c5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 26/56] fix: ncpsolve with full jacobians uses the
 complementarity conditions

---
 dolo/numeric/optimize/ncpsolve.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 7bf9bb4..1862b7d 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -91,7 +91,6 @@ def smooth(x, a, b, fx, J, jactype="serial"):
         xxx = diag(xx)
         #        xxx = diag(xx)
         Jnew = fff * J - xxx
-        return fx, J
         return [fxnew, Jnew]
 
     else:
-- 
2.43.0


From 622c0c4c80d17ec4c09f0ee932b0133e5c235fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 27/56] fix: numdiff2 indexes with a tuple

---
 dolo/numeric/serial_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index a40a25f..4fbee49 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -57,7 +57,7 @@ def numdiff2(f, x0, dv=1e-8):
         x2[ind] -= dv
         df = (f(x) - f(x2)) / dv / 2.0
         obj = [Ellipsis] + list(ind) + [slice(None, None, None)]
-        # obj = tuple(obj)
+        obj = tuple(obj)
         ret[obj] = df
 
     return ret
-- 
2.43.0


From afe1de0ddecfa93386418ffde4c548d70dc6e83e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 28/56] fix: first value of an array of exogenous shocks is the
 initial one

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 9950d55..cad2f13 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -44,8 +44,8 @@ def _shocks_to_epsilons(model, shocks, T):
 
     # until last period, exogenous shock takes its last value
     epsilons = np.zeros((T + 1, n_e))
-    epsilons[: (shocks.shape[0] - 1), :] = shocks[1:, :]
-    epsilons[(shocks.shape[0] - 1) :, :] = shocks[-1:, :]
+    epsilons[: shocks.shape[0], :] = shocks
+    epsilons[shocks.shape[0] :, :] = shocks[-1:, :]
 
     return epsilons
 
-- 
2.43.0


From d3a5dfa20600e5172a8f08e47e82685805592b89 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 29/56] fix: deterministic_solve passes the initial guess and
 bounds to lmmcp in order

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index cad2f13..174eacc 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -248,10 +248,10 @@ def deterministic_solve(
 
             sol = lmmcp(
                 lambda u: ff(u)[0],
-                lambda u: ff(u)[1].todense(),
+                lambda u: ff(u)[1].toarray(),
+                initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-                initial_guess.ravel(),
                 verbose=verbose,
             )
             nit = -1
-- 
2.43.0


From e4b8a9661cf7ffb96e0fc7673a0400ee52351c7e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 30/56] fix: deterministic_solve accepts a previous solution as
 initial guess

---
 dolo/algos/perfect_foresight.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 174eacc..30cd40f 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -199,7 +199,8 @@ def deterministic_solve(
             initial_guess = np.array(
                 initial_guess[model.symbols["states"] + model.symbols["controls"]]
             )
-        initial_guess = initial_guess[1:, :]
+        # drop the initial steady-state (keep_steady_state=True)
+        initial_guess = initial_guess[-(T + 1) :, :]
         initial_guess = initial_guess[:, : n_s + n_x]
 
     sh = initial_guess.shape
-- 
2.43.0


From d6545206702fb080e97a6a524cd96d12630c627b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 31/56] fix: perfect foresight paths start from the initial
 state

---
 dolo/algos/perfect_foresight.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 30cd40f..3bc9b86 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -166,8 +166,6 @@ def deterministic_solve(
         start_state = find_steady_state(model, m=m0)
         s0 = start_state["states"]
         x0 = start_state["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
     else:
         if s0 is None:
             s0 = model.calibration["states"]
@@ -178,17 +176,15 @@ def deterministic_solve(
         # we should probably do something here with the nature of the exogenous process if specified
         # i.e. compute nonlinear irf
         epsilons = _shocks_to_epsilons(model, exogenous, T)
+        epsilons[0, :] = m0
         x0 = model.calibration["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
-        s1 = np.array(s1)
 
     x1_g = model.calibration["controls"]  # we can do better here
     sT_g = model.calibration["states"]  # we can do better here
     xT_g = model.calibration["controls"]  # we can do better here
 
     if initial_guess is None:
-        start = np.concatenate([s1, x1_g])
+        start = np.concatenate([s0, x1_g])
         final = np.concatenate([sT_g, xT_g])
         initial_guess = np.row_stack(
             [start * (1 - l) + final * l for l in linspace(0.0, 1.0, T + 1)]
@@ -223,13 +219,13 @@ def deterministic_solve(
         lower_bound = None
         upper_bound = None
 
-    det_residual(model, initial_guess, s1, xT_g, epsilons)
+    det_residual(model, initial_guess, s0, xT_g, epsilons)
 
     if not ignore_constraints:
 
         def ff(vec):
             return det_residual(
-                model, vec.reshape(sh), s1, xT_g, epsilons, jactype="sparse"
+                model, vec.reshape(sh), s0, xT_g, epsilons, jactype="sparse"
             )
 
         v0 = initial_guess.ravel()
@@ -262,7 +258,7 @@ def deterministic_solve(
     else:
 
         def ff(vec):
-            ll = det_residual(model, vec.reshape(sh), s1, xT_g, epsilons, diff=True)
+            ll = det_residual(model, vec.reshape(sh), s0, xT_g, epsilons, diff=True)
             return ll
 
         v0 = initial_guess.ravel()
-- 
2.43.0


From e1a03098b2f451a6229120c24d5dd97b18a71fc0 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 32/56] fix: deterministic_solve passes its options to newton

---
 dolo/algos/perfect_foresight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 3bc9b86..b3bd2ca 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -267,7 +267,9 @@ def deterministic_solve(
         # sol = sol.x.reshape(sh)
         from dolo.numeric.optimize.newton import newton
 
-        sol, nit = newton(ff, v0, jactype="sparse")
+        sol, nit = newton(
+            ff, v0, verbose=verbose, maxit=maxit, tol=tol, jactype="sparse"
+        )
         sol = sol.reshape(sh)
 
     # sol = sol[:-1, :]
-- 
2.43.0


From e911e47de20176586d987181aa18f4aa0a3bfa10 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 33/56] fix: ncpsolve derivatives are defined at degenerate
 points

---
 dolo/numeric/optimize/ncpsolve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 1862b7d..cde62de 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -48,6 +48,11 @@ def smooth(x, a, b, fx, J, jactype="serial"):
 
     fxnew[dbinf] = pval[dbinf]
 
+    # where the residual and the distance to the bound are both zero, any
+    # element of the generalized derivative can be used
+    sq1[sq1 == 0] = 1
+    sq2[sq2 == 0] = 1
+
     dpdy = 1 + fx / sq1
     dpdy[dainf] = 1
 
-- 
2.43.0


From 891a43bc58b7910138466a482ea94cf4a5fee027 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 34/56] fix: smoothed derivatives in improved_time_iteration
 are defined at degenerate points

---
 dolo/algos/improved_time_iteration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index e39697b..f400bae 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -48,6 +48,7 @@ def smooth(res, dres, jres, dx, pos=1.0):
     n_m, N, n_x = res.shape
     sq = sqrt(res**2 + (dx) ** 2)
     H = res + (dx) - sq
+    sq[sq == 0] = 1  # any element of the generalized derivative can be used
     Phi_a = 1 - res / sq
     Phi_b = 1 - (dx) / sq
     H[dinf] = res[dinf]
-- 
2.43.0


From ac82b4162ec69b2cc9b0bbd34cbe170fbaf605ac Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 35/56] fix: final controls of perfect foresight paths cannot
 jump to a bound

---
 dolo/algos/perfect_foresight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index b3bd2ca..54ad276 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -359,7 +359,8 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
     res[:-1, n_s:] = res_x
 
     res[0, :n_s] = -(guess[0, :n_s] - start)
-    res[-1, n_s:] = -(guess[-1, n_s:] - guess[-2, n_s:])
+    # increasing in the last controls, so that bounds only bind when they bind before
+    res[-1, n_s:] = guess[-1, n_s:] - guess[-2, n_s:]
 
     if not diff:
         return res
@@ -390,8 +391,8 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
                 # jac[i,:n_s,i+1,n_s:] = SS_x[i,:,:]
                 # jac[i+1,:n_s,i+1,:n_s] = -np.eye(n_s)
             jac[0, :n_s, 0, :n_s] = -np.eye(n_s)
-            jac[-1, n_s:, -1, n_s:] = -np.eye(n_x)
-            jac[-1, n_s:, -2, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -1, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -2, n_s:] = -np.eye(n_x)
             nn = jac.shape[0] * jac.shape[1]
             res = res.ravel()
             jac = jac.reshape((nn, nn))
-- 
2.43.0


From c5e9e603630d002ace981e9fddbacc82db5a72d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 36/56] fix: simulated states depend on the exogenous values of
 the same date

---
 dolo/algos/simulations.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f716fbf..e6a809a 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -181,7 +181,6 @@ def simulate(
 
     numpy.random.seed(seed)
 
-    mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
@@ -196,10 +195,8 @@ def simulate(
 
         x_simul[i, :, :] = x
 
-        ss = g(mp, s, x, m, parms)
         if i < T - 1:
-            s_simul[i + 1, :, :] = ss
-        mp = m
+            s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [s_simul, x_simul]
-- 
2.43.0


From b4eb1346718f90e6a53ab38409cc1ebe10361760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 37/56] fix: simulate accepts the indices of a driving process
 without i0

---
 dolo/algos/simulations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index e6a809a..2160d29 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -139,7 +139,6 @@ def simulate(
             # inds = i_simul.ravel()
             # m_simul = np.reshape( np.concatenate( [nodes[i,:][None,:] for i in inds.ravel()], axis=0 ), inds.shape + (-1,) )
             sim_type = "discrete"
-            x_simul[0, :, :] = dr.eval_is(i0, s0[None, :])[0, :]
         else:
             raise Exception("Incorrect specification of driving values.")
         m0 = m_simul[0, :, :]
-- 
2.43.0


From d46f634916ad16cac7e0f0d9f21302024f6d6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 38/56] fix: the seed of simulate determines the simulated
 exogenous process

---
 dolo/algos/simulations.py | 4 ++--
 dolo/numeric/processes.py | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 2160d29..799c10d 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -124,6 +124,8 @@ def simulate(
 
     s_simul[0, :, :] = s0[None, :]
 
+    numpy.random.seed(seed)
+
     # are we simulating a markov chain or a continuous process ?
     if driving_process is not None:
         if len(driving_process.shape) == 3:
@@ -178,8 +180,6 @@ def simulate(
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    numpy.random.seed(seed)
-
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index d005625..9c67681 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -11,7 +11,6 @@ Matrix = List[Vector]
 
 from numba import jit, njit
 from dolo.numeric.grids import EmptyGrid, CartesianGrid, UnstructuredGrid
-from random import random as rand
 
 from xarray import DataArray
 
@@ -33,7 +32,7 @@ def choice(x, n, cumul):
 
 
 @njit
-def simulate_mc_indices(C, N, T, i0):
+def simulate_mc_indices(C, N, T, i0, draws):
     k = len(C)
     out = np.zeros((T, N), dtype=np.int32)
     out[0, :] = i0
@@ -41,7 +40,7 @@ def simulate_mc_indices(C, N, T, i0):
         for t in range(0, T - 1):
             ii = out[t, n]
             options = C[ii]
-            x = rand()
+            x = draws[t + 1, n]
             ix = choice(x, k, options)
             out[t + 1, n] = ix
     return out
@@ -52,7 +51,9 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     if i0 is not None:
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
-    indices = simulate_mc_indices(C, N, T, i0_)
+    # drawn outside of compiled code, so that the seed set by numpy.random.seed applies
+    draws = np.random.rand(T, N)
+    indices = simulate_mc_indices(C, N, T, i0_, draws)
     if return_values:
         values = np.reshape(
             np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
-- 
2.43.0


From e5adfb2cbf814ff64bbb1bc5df8772b11c1a9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 39/56] fix: simulate distinguishes exogenous states with
 identical values

---
 dolo/algos/simulations.py |  5 +++--
 dolo/numeric/processes.py | 11 +++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 799c10d..b07aca2 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -163,8 +163,9 @@ def simulate(
             if i0 is None:
                 i0 = 0
             dp = process
-            m_simul = dp.simulate(N, T, i0=i0, stochastic=stochastic)
-            i_simul = find_index(m_simul, dp.values)
+            # several states can have the same values
+            i_simul = dp.simulate_indices(N, T, i0=i0, stochastic=stochastic)
+            m_simul = dp.values[i_simul]
             m0 = dp.node(i0)
             x0 = dr.eval_is(i0, s0[None, :])[0, :]
         else:
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 9c67681..8a8dd66 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -284,12 +284,15 @@ class MarkovChain(DiscretizedProcess, DiscreteProcess):
     def iweight(self, i: int, j: int):  # scalar
         return self.transitions[i, j]
 
-    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
-        # m0 is basically ignored
+    def simulate_indices(self, N, T, i0=0, stochastic=True):
         if stochastic:
-            inds = simulate_markov_chain(self.values, self.transitions, N, T, i0=i0)
+            return simulate_markov_chain(self.values, self.transitions, N, T, i0=i0)
         else:
-            inds = np.zeros((T, N), dtype=int) + i0
+            return np.zeros((T, N), dtype=int) + i0
+
+    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
+        # m0 is basically ignored
+        inds = self.simulate_indices(N, T, i0=i0, stochastic=stochastic)
         return self.values[inds]
 
 
-- 
2.43.0


From f39bc92d4e9b42793cd21d7fabcfd23980649a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 40/56] fix: simulated AR1/VAR1 processes start at the
 requested value

---
 dolo/numeric/processes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 8a8dd66..b585bc6 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -468,8 +468,11 @@ class AR1(ContinuousProcess):
         rho = np.array([[self.ρ]])
         d = self.d
 
+        # simulated below in deviation to the mean
         if m0 is None:
             m0 = np.zeros(d)
+        else:
+            m0 = m0 - self.μ
         from numpy.random import multivariate_normal
 
         if stochastic:
@@ -605,8 +608,11 @@ class VAR1(ContinuousProcess):
 
         d = self.d
 
+        # simulated below in deviation to the mean
         if m0 is None:
             m0 = np.zeros(d)
+        else:
+            m0 = m0 - self.μ
         from numpy.random import multivariate_normal
 
         Sigma = self.Σ
-- 
2.43.0


From 49b868e17094fea8c817f4e4bf2e8967b21bd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 41/56] fix: default impulse of a response to a univariate
 normal shock is one standard deviation

---
 dolo/algos/simulations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index b07aca2..b19087b 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -21,7 +21,12 @@ def response(model, dr, varname, T=40, impulse: float = None):
                 model.exogenous.Σ[i_exo, i_exo]
             )  # works only for IID/AR1
         except:
-            impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
+            from dolo.numeric.distribution import UNormal
+
+            if isinstance(model.exogenous, UNormal):
+                impulse = model.exogenous.σ  # that is a standard deviation
+            else:
+                impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
 
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
-- 
2.43.0


From 702949c27e7aac72becaf91ed80a2ed66fc1fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 42/56] fix: perturbation of models driven by VAR1 processes

---
 dolo/algos/perturbation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index a64fe13..847f54f 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -30,7 +30,7 @@ def get_derivatives(model, steady_state=None):
     process = model.exogenous
 
     if isinstance(process, VAR1):
-        A = process.rho
+        A = process.ρ
         B = np.eye(A.shape[0])
         G_s = np.row_stack(
             [
@@ -39,7 +39,7 @@ def get_derivatives(model, steady_state=None):
             ]
         )
         G_x = np.row_stack([np.zeros((n_m, n_x)), g_x])
-        G_e = g_m @ B
+        G_e = np.row_stack([B, g_M @ B])
         F_s = np.column_stack([f_m, f_s])
         F_S = np.column_stack([f_M, f_S])
         F_x = f_x
@@ -47,7 +47,7 @@ def get_derivatives(model, steady_state=None):
     elif isinstance(process, IIDProcess):
         G_s = g_s
         G_x = g_x
-        G_e = g_m
+        G_e = g_M
         F_s = f_s
         F_S = f_S
         F_x = f_x
-- 
2.43.0


From 8a06e3eb5f7643cb05a7ebd95d48dfc3f0a74d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 43/56] fix: generalized eigenvalues are ordered by modulus

---
 dolo/numeric/extern/qz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/extern/qz.py b/dolo/numeric/extern/qz.py
index be26ea8..1209e4d 100644
--- a/dolo/numeric/extern/qz.py
+++ b/dolo/numeric/extern/qz.py
@@ -11,11 +11,13 @@ def qzordered(A, B, crit=1.0):
     TOL = 1e-10
 
     def select(alpha, beta):
-        return alpha**2 > crit * beta**2
+        # alpha is complex for complex eigenvalues
+        return abs(alpha) > crit * abs(beta)
 
     [S, T, alpha, beta, U, V] = ordqz(A, B, output="real", sort=select)
 
-    eigval = abs(numpy.diag(S) / numpy.diag(T))
+    # diagonals of S and T are not the eigenvalues when these are complex
+    eigval = abs(alpha) / abs(beta)
 
     return [S, T, U, V, eigval]
 
-- 
2.43.0


From 2d07e203cd6804f3c0acba01c885a75748d7f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 44/56] fix: perturbation checks the number of stable
 eigenvalues and reports it

---
 dolo/algos/perturbation.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 847f54f..399b5b3 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -116,6 +116,18 @@ from numpy.linalg import solve
 from dolo.numeric.extern.qz import qzordered
 
 
+class GeneralizedEigenvaluesError(Exception):
+    def __init__(self, **info):
+        super().__init__("The linear system has undetermined eigenvalues.")
+        self.info = info
+
+
+class GeneralizedEigenvaluesSelectionError(Exception):
+    def __init__(self, **info):
+        super().__init__("Impossible to select the eigenvalues of the solution.")
+        self.info = info
+
+
 def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     n_s = g_s.shape[0]  # number of controls
@@ -129,7 +141,8 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     B = row_stack([column_stack([g_s, g_x]), column_stack([f_s, f_x])])
 
-    [S, T, Q, Z, eigval] = qzordered(A, B, 1.0 - 1e-8)
+    crit = 1.0 - 1e-8
+    [S, T, Q, Z, eigval] = qzordered(A, B, crit)
 
     Z = Z.real
 
@@ -145,13 +158,14 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
         raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
 
     eigval_s = sorted(eigval, reverse=False)
-    if max(eigval[:n_s]) >= 1 and min(eigval[n_s:]) < 1:
+    # the solution corresponds to the n_s biggest eigenvalues (the inverse of growth rates)
+    ev_a = eigval_s[-n_s]
+    ev_b = eigval_s[-n_s - 1]
+    if ev_a > crit and not ev_b > crit:
         # BK conditions are met
         pass
     else:
-        ev_a = eigval_s[n_s - 1]
-        ev_b = eigval_s[n_s]
-        cutoff = (ev_a - ev_b) / 2
+        cutoff = (ev_a + ev_b) / 2 if np.isfinite(ev_a) else 2 * ev_b + 1
         if not ev_a > ev_b:
             raise GeneralizedEigenvaluesSelectionError(
                 A=A,
@@ -164,13 +178,14 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
             )
         import warnings
 
-        if cutoff > 1:
+        if not ev_a > crit:
             warnings.warn("Solution is not convergent.")
         else:
             warnings.warn(
                 "There are multiple convergent solutions. The one with the smaller eigenvalues was selected."
             )
         [S, T, Q, Z, eigval] = qzordered(A, B, cutoff)
+        Z = Z.real
 
     Z11 = Z[:n_s, :n_s]
     # Z12 = Z[:n_s, n_s:]
@@ -263,10 +278,12 @@ def perturb(
     if not details:
         return dr
     else:
+        n_s = G_s.shape[0]
+        crit = 1.0 - 1e-8
         return PerturbationResult(
             dr,
             eigvals,
+            bool(eigvals[-n_s] > crit),
             True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
+            bool(not eigvals[-n_s - 1] > crit),
         )
-- 
2.43.0


From 97f786d82ebab122376077b562aba3b721604b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 45/56] fix: bounds of the domain follow the declaration order
 of the states

---
 dolo/compiler/model.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8c454bd..d151955 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -349,18 +349,27 @@ class SymbolicModel:
         calibration = self.get_calibration()
         states = self.symbols["states"]
 
+        # bounds of the states, in the order of their declaration
         sdomain = self.data.get("domain", {})
-        for k in sdomain.keys():
-            if k not in states:
-                sdomain.pop(k)
+        sdomain = {
+            s: eval_data(sdomain[s], calibration) for s in states if s in sdomain.keys()
+        }
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
             try:
                 import warnings
 
-                min = get_address(self.data, ["options:grid:a", "options:grid:min"])
-                max = get_address(self.data, ["options:grid:b", "options:grid:max"])
+                min = get_address(
+                    self.data,
+                    ["options:grid:a", "options:grid:min"],
+                    calibration=calibration,
+                )
+                max = get_address(
+                    self.data,
+                    ["options:grid:b", "options:grid:max"],
+                    calibration=calibration,
+                )
                 for i, s in enumerate(states):
                     sdomain[s] = [min[i], max[i]]
                 # shall we raise a warning for deprecated syntax ?
@@ -377,9 +386,6 @@ class SymbolicModel:
             )
 
         from dolo.compiler.objects import CartesianDomain
-        from dolang.language import eval_data
-
-        sdomain = eval_data(sdomain, calibration)
 
         domain = CartesianDomain(**sdomain)
 
@@ -446,7 +452,11 @@ class SymbolicModel:
         if grid_type.lower() in ("cartesian", "cartesiangrid"):
             from dolo.numeric.grids import UniformCartesianGrid
 
-            orders = get_address(self.data, ["options:grid:n", "options:grid:orders"])
+            orders = get_address(
+                self.data,
+                ["options:grid:n", "options:grid:orders"],
+                calibration=self.get_calibration(),
+            )
             if orders is None:
                 orders = [20] * len(min)
             grid = UniformCartesianGrid(min=min, max=max, n=orders)
@@ -461,7 +471,9 @@ class SymbolicModel:
         elif grid_type.lower() in ("smolyak", "smolyakgrid"):
             from dolo.numeric.grids import SmolyakGrid
 
-            mu = get_address(self.data, ["options:grid:mu"])
+            mu = get_address(
+                self.data, ["options:grid:mu"], calibration=self.get_calibration()
+            )
             if mu is None:
                 mu = 2
             grid = SmolyakGrid(min=min, max=max, mu=mu)
@@ -480,10 +492,10 @@ def get_type(d):
         return v
 
 
-def get_address(data, address, default=None):
+def get_address(data, address, default=None, calibration={}):
 
     if isinstance(address, list):
-        found = [get_address(data, e, None) for e in address]
+        found = [get_address(data, e, None, calibration) for e in address]
         found = [f for f in found if f is not None]
         if len(found) > 0:
             return found[0]
@@ -495,7 +507,7 @@ def get_address(data, address, default=None):
         fields = fields[1:]
         if data is None:
             return default
-    return eval_data(data)
+    return eval_data(data, calibration)
 
 
 import re
-- 
2.43.0


From 37fa3d8dbbaee402aea186b74e236b57b79ec5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 46/56] fix: geometry of the grid can be given as an option

---
 dolo/compiler/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index d151955..1b931de 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -486,10 +486,13 @@ class SymbolicModel:
 def get_type(d):
     try:
         s = d.tag
-        return s.strip("!")
     except:
-        v = d.get("type")
-        return v
+        return None
+    if s.startswith("!"):
+        return s.strip("!")
+    # no tag: type is an option
+    v = d.get("type") if hasattr(d, "get") else None
+    return None if v is None else v.value
 
 
 def get_address(data, address, default=None, calibration={}):
-- 
2.43.0


From adb05cfc3192e2bac6a0fb6adb7c67100217fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 47/56] fix: shocks in the wrong order raise a ModelError

---
 dolo/compiler/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 1b931de..7e380b9 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -422,9 +422,9 @@ class SymbolicModel:
             if tuple(syms) != ssyms:
                 from dolang.language import ModelError
 
-                lc = exo.lc
+                lc = exo.start_mark
                 raise ModelError(
-                    f"{lc.line}:{lc.col}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
+                    f"{lc.line}:{lc.column}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
                 )
 
             return ProductProcess(*exogenous.values())
-- 
2.43.0


From 43d27521aedb4bbc5dcb1df1de081abcf5bc079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 48/56] fix: leads and lags are not swapped in eval_formula

---
 dolo/compiler/eval_formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index ffc08a9..2f847f5 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -41,7 +41,7 @@ def eval_formula(expr: str, dataframe=None, context=None):
         import pandas as pd
 
         for k, t in variables:
-            dd[stringify_symbol((k, t))] = dataframe[k].shift(t)
+            dd[stringify_symbol((k, t))] = dataframe[k].shift(-t)
         dd["t_"] = pd.Series(dataframe.index, index=dataframe.index)
 
     expr = str_expression(nexpr)
-- 
2.43.0


From 627b404350ab29b66467f3977e87ff6807a41f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 49/56] fix: domains can be discretized with an array of orders

---
 dolo/compiler/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/objects.py b/dolo/compiler/objects.py
index 8e7ce47..08d3d39 100644
--- a/dolo/compiler/objects.py
+++ b/dolo/compiler/objects.py
@@ -26,7 +26,7 @@ class CartesianDomain(Domain, dict):
             self[k] = np.array(v, dtype=float)
 
     def discretize(self, n=None):
-        if n == None:
+        if n is None:
             n = [10] * (len(self.min))
         from dolo.numeric.grids import UniformCartesianGrid
 
-- 
2.43.0


From fb28a36e4fc2199eb78fda12978cb2e8a6e793ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 50/56] fix: product of a single Markov chain can be
 discretized

---
 dolo/numeric/discretization/discretization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index df96ec5..716932c 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -172,6 +172,12 @@ def tensor_markov(*args):
         prod = tensor_markov(m1, m2)
         return tensor_markov(prod, *tail)
 
+    elif len(args) == 1:
+
+        [(n, t)] = args
+
+        return np.array(n, dtype=float), np.array(t, dtype=float)
+
     elif len(args) == 2:
 
         m1, m2 = args
@@ -202,7 +208,7 @@ def tensor_markov(*args):
 
     else:
         raise Exception(
-            "Incorrect number of arguments. Expected at least 2. Found {}.".format(
+            "Incorrect number of arguments. Expected at least 1. Found {}.".format(
                 len(args)
             )
         )
-- 
2.43.0


From 57facf4ec16a42008e5bc586196368de1326142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 51/56] fix: formulas on tables understand k[t] and undated
 columns

---
 dolo/compiler/eval_formula.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index 2f847f5..0d516e0 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -1,6 +1,6 @@
 # from ast import *
 from dolang.symbolic import stringify, stringify_symbol, parse_string, list_variables
-from dolang.grammar import str_expression
+from dolang.grammar import str_expression, sanitize, time_shift
 
 from dolo.compiler.misc import CalibrationDict
 from numpy import log, exp
@@ -30,6 +30,11 @@ def eval_formula(expr: str, dataframe=None, context=None):
         dd[stringify_symbol(k)] = dd[k]
 
     expr_ast = parse_string(expr)
+    if dataframe is not None:
+        # columns are time series: k is understood as k[t]
+        expr_ast = sanitize(expr_ast, variables=[*dataframe.columns])
+    # give an explicit date to all variables (k[t] becomes k[t+0])
+    expr_ast = time_shift(expr_ast, 0)
     variables = list_variables(expr_ast)
     nexpr = stringify(expr_ast)
 
@@ -42,7 +47,7 @@ def eval_formula(expr: str, dataframe=None, context=None):
 
         for k, t in variables:
             dd[stringify_symbol((k, t))] = dataframe[k].shift(-t)
-        dd["t_"] = pd.Series(dataframe.index, index=dataframe.index)
+        dd[stringify_symbol("t_")] = pd.Series(dataframe.index, index=dataframe.index)
 
     expr = str_expression(nexpr)
 
-- 
2.43.0


From 2dc4894b35de806cd988c4753eea4b8c98f0d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 52/56] fix: smoothing parameter of the HP filter is used for
 several series

---
 dolo/numeric/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/filters.py b/dolo/numeric/filters.py
index 7eae04f..bed3229 100644
--- a/dolo/numeric/filters.py
+++ b/dolo/numeric/filters.py
@@ -38,7 +38,7 @@ def hp_filter(data, lam=1600):
     Y = np.asarray(data)
 
     if Y.ndim == 2:
-        resp = [hp_filter(e) for e in data]
+        resp = [hp_filter(e, lam=lam) for e in data]
         T = np.row_stack([e[0] for e in resp])
         Cycle = np.row_stack([e[1] for e in resp])
         return [T, Cycle]
-- 
2.43.0


From d7d254e8d09b78dd6a1224c4a146ff44060e7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 53/56] fix: second_order_solver does not import a function
 removed from numpy

---
 dolo/numeric/matrix_equations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/matrix_equations.py b/dolo/numeric/matrix_equations.py
index d9c5e44..dfb2526 100644
--- a/dolo/numeric/matrix_equations.py
+++ b/dolo/numeric/matrix_equations.py
@@ -13,7 +13,6 @@ def second_order_solver(FF, GG, HH, eigmax=1.0 + 1e-6):
 
     from numpy import (
         array,
-        mat,
         c_,
         r_,
         eye,
-- 
2.43.0


From 9c603d65e8cc2c7936daba796d9bb59019f5682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 54/56] fix: integration against a normal law with recent
 versions of numpy

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index afe3a8a..f11fe4b 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -443,7 +443,7 @@ class UNormal(UnivariateContinuousDistribution):
         )
         import scipy.integrate
 
-        return scipy.integrate.quad(f, -np.Inf, np.Inf)[0]
+        return scipy.integrate.quad(f, -np.inf, np.inf)[0]
 
     def __discretize_gh__(self, N=5):  # Gauss-Hermite
 
-- 
2.43.0


From 48204ac466496f038628305431c24b96363d8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 55/56] fix: caches do not confuse arguments with the same hash
 or arrays with different shapes

---
 dolo/misc/caching.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 37ff9d6..29cdc9d 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -13,11 +13,9 @@ class memoized(object):
 
     def __call__(self, *args, **kargs):
 
-        targs = (e for e in args)
-        hh = tuple(hashable(e) for e in targs)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
         try:
+            # different arguments may have the same hash: the key is made of the arguments
+            h = (tuple(hashable(e) for e in args), hashable(kargs))
             return self.cache[h]
         except KeyError:
             value = self.func(*args, **kargs)
@@ -57,10 +55,8 @@ class cachedondisk(object):
     def __call__(self, *args, **kargs):
         import pickle
 
-        hh = tuple(hashable(e) for e in args)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
         try:
+            h = digest((tuple(hashable(e) for e in args), hashable(kargs)))
             with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
                 value = pickle.load(f)
             return value
@@ -111,8 +107,7 @@ class DiskDictionary:
     def get_filename(self, key):
         import pickle
 
-        hh = tuple(hashable(k) for k in key)
-        h = hash(hh)
+        h = digest(tuple(hashable(k) for k in key))
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
@@ -121,7 +116,7 @@ class DiskDictionary:
 
         filename = self.get_filename(key)
         try:
-            with open(filename, "w") as f:
+            with open(filename, "wb") as f:
                 pickle.dump(value, f)
         except TypeError as e:
             raise e
@@ -131,7 +126,7 @@ class DiskDictionary:
 
         filename = self.get_filename(item)
         try:
-            with open(filename) as f:
+            with open(filename, "rb") as f:
                 value = pickle.load(f)
                 return value
         except:
@@ -143,7 +138,7 @@ import collections
 
 def hashable(obj):
     if hasattr(obj, "flatten"):  # for numpy arrays
-        return tuple(obj.flatten().tolist())
+        return (obj.shape, tuple(obj.flatten().tolist()))
     if isinstance(obj, collections.abc.Hashable):
         return obj
     if isinstance(obj, collections.abc.Mapping):
@@ -151,4 +146,12 @@ def hashable(obj):
         return frozenset(items)
     if isinstance(obj, collections.abc.Iterable):
         return tuple([hashable(item) for item in obj])
-    return TypeError(type(obj))
+    raise TypeError(type(obj))
+
+
+def digest(key):
+    # equal hashes do not imply equal arguments
+    import hashlib
+
+    hash(key)  # raises TypeError if some argument cannot be cached
+    return hashlib.md5(repr(key).encode()).hexdigest()
-- 
2.43.0


From cd8d640041dbf75e3c3a213e46568cf5e5bf184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 56/56] fix: evaluate_policy overwrote the initial guess dr0
 with the computed values

---
 dolo/algos/value_iteration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 8e52d13..bd9d8b9 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -1,3 +1,4 @@
+import copy
 import time
 import numpy as np
 import numpy
@@ -276,7 +277,7 @@ def evaluate_policy(
     n_s = len(model.symbols["states"])
 
     if dr0 is not None:
-        mdrv = dr0
+        mdrv = copy.copy(dr0)  # the initial guess belongs to the caller
     else:
         mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
 
-- 
2.43.0

