From b1c9078731822f2d2eca8185dff19ed0951c89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 001/105] fix: values for keys absent from the model file are
 stored under their own name

---
 dolo/compiler/misc.py         | 14 ++++++++++++++
 dolo/compiler/model.py        |  5 ++++-
 dolo/compiler/model_import.py |  5 +++--
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/dolo/compiler/misc.py b/dolo/compiler/misc.py
index 6336ada..1ed3c9c 100644
--- a/dolo/compiler/misc.py
+++ b/dolo/compiler/misc.py
@@ -41,6 +41,20 @@ import copy
 equivalent_symbols = dict(actions="controls")
 
 
+def set_entry(node, key, value):
+    """Sets `node[key] = value` in a yaml mapping node.
+
+    A key which is absent from the mapping is added under its own name.
+    """
+    from yaml import ScalarNode
+
+    if key not in node.keys():
+        new_key = ScalarNode(tag="tag:yaml.org,2002:str", value=key)
+        new_value = ScalarNode(tag="tag:yaml.org,2002:str", value="")
+        node.value.append((new_key, new_value))
+    node[key] = value
+
+
 class LoosyDict(dict):
     def __init__(self, **kwargs):
 
diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8c454bd..bd4f034 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -563,8 +563,11 @@ class Model(SymbolicModel):
     def set_calibration(self, *pargs, **kwargs):
         if len(pargs) == 1:
             self.set_calibration(**pargs[0])
+        from dolo.compiler.misc import set_entry
+
         self.set_changed()
-        self.data["calibration"].update(kwargs)
+        for k, v in kwargs.items():
+            set_entry(self.data["calibration"], k, v)
 
     @property
     def calibration(self):
diff --git a/dolo/compiler/model_import.py b/dolo/compiler/model_import.py
index 0cd2377..fbbe5be 100644
--- a/dolo/compiler/model_import.py
+++ b/dolo/compiler/model_import.py
@@ -29,9 +29,10 @@ def yaml_import(fname, check=True, check_only=False):
     # if check_only:
     #     return output
 
-    data["filename"] = fname
-
+    from dolo.compiler.misc import set_entry
     from dolo.compiler.model import Model
 
+    set_entry(data, "filename", fname)
+
     return Model(data, check=check)
     # from dolo.compiler.model import SymbolicModel
-- 
2.43.0


From 48dc9a2b32f03a405d6c8ce6f6309d23d8ff076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 002/105] fix: eval_formula reads v(1) as the next row, not the
 previous one

---
 dolo/compiler/eval_formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index ffc08a9..2f847f5 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -41,7 +41,7 @@ def eval_formula(expr: str, dataframe=None, context=None):
         import pandas as pd
 
         for k, t in variables:
-            dd[stringify_symbol((k, t))] = dataframe[k].shift(t)
+            dd[stringify_symbol((k, t))] = dataframe[k].shift(-t)
         dd["t_"] = pd.Series(dataframe.index, index=dataframe.index)
 
     expr = str_expression(nexpr)
-- 
2.43.0


From ded9bd354b74e383a0739cc9df6f99675554bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 003/105] fix: the sum of two cartesian grids uses the bounds
 of both

---
 dolo/numeric/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index c6cf223..4d86f90 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -129,8 +129,8 @@ class UniformCartesianGrid(CartesianGrid):
             raise Exception("Not implemented.")
 
         n = np.array(tuple(self.n) + tuple(g.n))
-        min = np.array(tuple(self.min) + tuple(self.min))
-        max = np.array(tuple(self.max) + tuple(self.max))
+        min = np.array(tuple(self.min) + tuple(g.min))
+        max = np.array(tuple(self.max) + tuple(g.max))
 
         return UniformCartesianGrid(min, max, n)
 
-- 
2.43.0


From cf44f59ba80278410eee2e529bf2b55c2cb2fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 004/105] fix: default number of nodes of a cartesian grid

---
 dolo/numeric/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 4d86f90..8f3f413 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -113,7 +113,7 @@ class UniformCartesianGrid(CartesianGrid):
         self.min = np.array(min, dtype=float)
         self.max = np.array(max, dtype=float)
         if len(n) == 0:
-            self.n = np.zeros(n, dtype=int) + 20
+            self.n = np.zeros(self.d, dtype=int) + 20
         else:
             self.n = np.array(n, dtype=int)
 
-- 
2.43.0


From ed34517481a5daba68725fffb7dadd2ede35ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 005/105] fix: nodes of nonuniform grids are not truncated to
 integers

---
 dolo/numeric/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 8f3f413..757df0b 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -143,7 +143,7 @@ class NonUniformCartesianGrid(CartesianGrid):
     type = "NonUniformCartesian"
 
     def __init__(self, list_of_nodes):
-        list_of_nodes = [np.array(l) for l in list_of_nodes]
+        list_of_nodes = [np.array(l, dtype=float) for l in list_of_nodes]
         self.min = [min(l) for l in list_of_nodes]
         self.max = [max(l) for l in list_of_nodes]
         self.n = np.array([(len(e)) for e in list_of_nodes])
-- 
2.43.0


From 7fb76da6d0198117508b01492b7d0e7a39b416ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 006/105] fix: the product of cartesian grids is the grid of
 their combined dimensions

---
 dolo/numeric/grids.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 757df0b..723ca85 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -186,10 +186,7 @@ def cat_grids(grid_1, grid_2):
     if isinstance(grid_1, EmptyGrid):
         return grid_2
     if isinstance(grid_1, CartesianGrid) and isinstance(grid_2, CartesianGrid):
-        min = np.concatenate([grid_1.min, grid_2.min])
-        max = np.concatenate([grid_1.max, grid_2.max])
-        n = np.concatenate([grid_1.n, grid_2.n])
-        return CartesianGrid(min, max, n)
+        return grid_1 + grid_2
     else:
         raise Exception("Not Implemented.")
 
-- 
2.43.0


From 3383552a404f450a82d473514ce1c56735100163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 007/105] fix: bounds of the domain are matched to states by
 name, old-style bounds are evaluated

---
 dolo/compiler/model.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index bd4f034..b857227 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -349,18 +349,29 @@ class SymbolicModel:
         calibration = self.get_calibration()
         states = self.symbols["states"]
 
-        sdomain = self.data.get("domain", {})
-        for k in sdomain.keys():
-            if k not in states:
-                sdomain.pop(k)
+        from dolang.language import eval_data
+
+        # bounds are listed in the order of the states, which needs not be that of the file
+        domain = self.data.get("domain", {})
+        sdomain = {
+            s: eval_data(domain[s], calibration) for s in states if s in domain.keys()
+        }
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
             try:
                 import warnings
 
-                min = get_address(self.data, ["options:grid:a", "options:grid:min"])
-                max = get_address(self.data, ["options:grid:b", "options:grid:max"])
+                min = get_address(
+                    self.data,
+                    ["options:grid:a", "options:grid:min"],
+                    calibration=calibration,
+                )
+                max = get_address(
+                    self.data,
+                    ["options:grid:b", "options:grid:max"],
+                    calibration=calibration,
+                )
                 for i, s in enumerate(states):
                     sdomain[s] = [min[i], max[i]]
                 # shall we raise a warning for deprecated syntax ?
@@ -377,9 +388,6 @@ class SymbolicModel:
             )
 
         from dolo.compiler.objects import CartesianDomain
-        from dolang.language import eval_data
-
-        sdomain = eval_data(sdomain, calibration)
 
         domain = CartesianDomain(**sdomain)
 
@@ -480,10 +488,10 @@ def get_type(d):
         return v
 
 
-def get_address(data, address, default=None):
+def get_address(data, address, default=None, calibration={}):
 
     if isinstance(address, list):
-        found = [get_address(data, e, None) for e in address]
+        found = [get_address(data, e, None, calibration) for e in address]
         found = [f for f in found if f is not None]
         if len(found) > 0:
             return found[0]
@@ -495,7 +503,7 @@ def get_address(data, address, default=None):
         fields = fields[1:]
         if data is None:
             return default
-    return eval_data(data)
+    return eval_data(data, calibration)
 
 
 import re
-- 
2.43.0


From b47353a5caf7303b827d2f5be8ca80af92307b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 008/105] fix: grid types given with the type key are
 recognized

---
 dolo/compiler/model.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index b857227..27a9aa5 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -480,12 +480,10 @@ class SymbolicModel:
 
 
 def get_type(d):
-    try:
-        s = d.tag
-        return s.strip("!")
-    except:
-        v = d.get("type")
-        return v
+    # the tag of an untagged mapping is not a type
+    if d is not None and d.tag.startswith("!"):
+        return d.tag.strip("!")
+    return None
 
 
 def get_address(data, address, default=None, calibration={}):
-- 
2.43.0


From a8da2dec6c18b334264ebdf80e1750a2fac3a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 009/105] fix: the mean of a normal law is counted once by
 gauss-hermite nodes

---
 dolo/numeric/discretization/quadrature.py | 3 ++-
 dolo/numeric/distribution.py              | 2 --
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b92c37f..b3552bd 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -90,7 +90,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     if len(orders) == 1:
         # Note: if sigma is 2D, x will always be 2D, even if sigma is only 1x1.
         # print(points.shape)
-        x = numpy.array(points[0]) * numpy.sqrt(float(sigma))
+        x = numpy.array(points[0]) * numpy.sqrt(numpy.asarray(sigma).item())
+        x = x + numpy.asarray(mu, dtype=float).item()
         if sigma.ndim == 2:
             x = x[:, None]
         w = weights[0]
diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5b3132d..b3bc418 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -449,7 +449,6 @@ class UNormal(UnivariateContinuousDistribution):
         from dolo.numeric.discretization.quadrature import gauss_hermite_nodes
 
         [x, w] = gauss_hermite_nodes(N, np.array([[self.σ**2]]), mu=self.μ)
-        x += np.array([self.μ])[:, None]
         return FiniteDistribution(x, w, origin=self)
 
 
@@ -605,7 +604,6 @@ class Normal(ContinuousDistribution):
             from dolo.numeric.discretization.quadrature import gauss_hermite_nodes  # type: ignore
 
             [x, w] = gauss_hermite_nodes(N, self.Σ, mu=self.Μ)
-            x = np.row_stack([(e + self.Μ) for e in x])
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-- 
2.43.0


From eabde5442ab475d331f0630f1946d6850eb3c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 010/105] fix: gauss_hermite_nodes leaves the covariance it is
 given unchanged, constant components keep their mean

---
 dolo/numeric/discretization/quadrature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b3552bd..09542f0 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -104,7 +104,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
         w = reduce(numpy.kron, weights)
 
-        zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        sigma = numpy.array(sigma, dtype=float)
+        zero_columns = numpy.where(numpy.diag(sigma) == 0)[0]
         for i in zero_columns:
             sigma[i, i] = 1.0
 
@@ -115,7 +116,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
         x = numpy.ascontiguousarray(x.T)
 
         for i in zero_columns:
-            x[:, i] = 0
+            x[:, i] = mu[i]
 
         return [x, w]
 
-- 
2.43.0


From 7f9bbe94a706ac596c54eaa9edc4bf4fc7b8245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 011/105] fix: normal laws with constant components are
 accepted

---
 dolo/numeric/distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index b3bc418..607517c 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -583,7 +583,9 @@ class Normal(ContinuousDistribution):
         # this class wraps functionality from scipy
         import scipy.stats
 
-        self._dist_ = scipy.stats.multivariate_normal(mean=self.Μ, cov=self.Σ)
+        self._dist_ = scipy.stats.multivariate_normal(
+            mean=self.Μ, cov=self.Σ, allow_singular=True
+        )
 
     def draw(self, N: int) -> Matrix:
 
-- 
2.43.0


From 02a4a07f27f21a96e38c11260ceb30bda461b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 012/105] fix: discretizing a distribution to a markov chain
 uses the options it is given

---
 dolo/numeric/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 607517c..e841b88 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -369,7 +369,9 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             else:
                 raise Exception("Unknown discretization method.")
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(
+                to="iid", N=N, method=method, mass_point=mass_point
+            )
             return discr_iid.discretize(to="mc")
         else:
             raise Exception("Not implemented (yet).")
@@ -609,7 +611,7 @@ class Normal(ContinuousDistribution):
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(to="iid", N=N)
             return discr_iid.discretize(to="mc")
 
         else:
-- 
2.43.0


From 5af0c725d140f91e225d3db86c7bc1b0659883e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 013/105] fix: draws of a Bernouilli law use its probability

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index e841b88..5f25c63 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -298,7 +298,7 @@ class Bernouilli(DiscreteDistribution):
 
     def draw(self, N: int) -> Matrix:
         a = np.array([0, 1])
-        c = np.random.choice(a, size=N)
+        c = np.random.choice(a, size=N, p=[1 - self.π, self.π])
         return c.reshape((N, 1))
 
 
-- 
2.43.0


From 45a57bdae123fe9a0ac24bc6c690da0e3f86a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 014/105] fix: a Bernouilli law has the dimension, points and
 weights of a discrete distribution

---
 dolo/numeric/distribution.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5f25c63..a8dc9c6 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -277,13 +277,21 @@ def product_iid(iids: List[FiniteDistribution]) -> FiniteDistribution:
 class Bernouilli(DiscreteDistribution):
 
     π: float = 0.5
+    d = 1
+    n = 2
 
     signature = {"π": "float"}  # this is redundant for now
 
     @greek_tolerance
-    def __init__(self, π: float = None):
+    def __init__(self, π: float = 0.5):
         self.π = float(π)
 
+    def point(self, i) -> Vector:
+        return np.array([float(i)])
+
+    def weight(self, i) -> float:
+        return [1 - self.π, self.π][i]
+
     def discretize(self, to="iid"):
 
         if to == "iid":
-- 
2.43.0


From d519462e791630bfd8d551929e7aff7b42f868f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 015/105] fix: constant processes can be drawn, simulated and
 discretized by default

---
 dolo/numeric/processes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa934ec..13dd155 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -125,7 +125,11 @@ class ConstantProcess(IIDProcess):
         assert self.μ.ndim == 1
         self.d = len(self.μ)
 
-    def discretize(self, to=None, **kwargs):
+    def draw(self, N: int):
+
+        return np.array(self.μ[None, :].repeat(N, axis=0), dtype=float)
+
+    def discretize(self, to="iid", **kwargs):
 
         if to == "iid":
             x = self.μ[None, :]
-- 
2.43.0


From 7584126bc12c403b096bf7aac66a8bc28da97061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 016/105] fix: the distributions of a mixture are those of the
 values of its index, also when it is drawn

---
 dolo/numeric/distribution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index a8dc9c6..4a306e5 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -730,7 +730,8 @@ class Mixture(ContinuousDistribution):
         # index is a distribution which takes discrete values
         # distributions is a map from each of these values to a distribution
         self.index = index
-        self.distributions = distributions
+        # (keys can be given as integers or as strings)
+        self.distributions = {int(k): v for (k, v) in distributions.items()}
         ds = [e.d for e in self.distributions.values()]
         assert len(set(ds)) == 1
         d0 = [*self.distributions.values()][0]
@@ -748,7 +749,7 @@ class Mixture(ContinuousDistribution):
             for i in range(inddist.n_inodes(0)):
                 wind = inddist.iweight(0, i)
                 xind = inddist.inode(0, i)
-                dist = self.distributions[str(i)].discretize(to=to)
+                dist = self.distributions[int(xind[0])].discretize(to=to)
                 for j in range(dist.n_inodes(0)):
                     w = dist.iweight(0, j)
                     x = dist.inode(0, j)
-- 
2.43.0


From 1bdd47f55aa9e7ea27b524249cb6492b28018b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 017/105] fix: default mean and standard deviation of lognormal
 laws were exchanged

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 4a306e5..f717336 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -505,7 +505,7 @@ class LogNormal(UnivariateContinuousDistribution):
     signature = {"μ": "Optional[float]", "σ": "float"}  # this is redundant for now
 
     @greek_tolerance
-    def __init__(self, σ: float = 0.0, μ: float = 1.0):
+    def __init__(self, σ: float = 1.0, μ: float = 0.0):
         self.σ = float(σ)
         self.μ = float(μ)
 
-- 
2.43.0


From a08f8533c651206404585efe13fe03f0edf5657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 018/105] fix: beta laws can be used in model files, as
 documented

---
 dolo/numeric/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index f717336..2b99f15 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -534,6 +534,7 @@ class LogNormal(UnivariateContinuousDistribution):
         # Probability associated with each point in grid (nodes)
 
 
+@language_element
 class Beta(UnivariateContinuousDistribution):
 
     α: float
@@ -541,6 +542,7 @@ class Beta(UnivariateContinuousDistribution):
 
     signature = {"α": "float", "β": "float"}
 
+    @greek_tolerance
     def __init__(self, α: float = None, β: float = None):
         self.α = float(α)
         self.β = float(β)
-- 
2.43.0


From 14ac8867cb19a5df1b1d8798a97056f14d2ef019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 019/105] fix: UNormal.integrate works with current numpy

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 2b99f15..43a7499 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -451,7 +451,7 @@ class UNormal(UnivariateContinuousDistribution):
         )
         import scipy.integrate
 
-        return scipy.integrate.quad(f, -np.Inf, np.Inf)[0]
+        return scipy.integrate.quad(f, -np.inf, np.inf)[0]
 
     def __discretize_gh__(self, N=5):  # Gauss-Hermite
 
-- 
2.43.0


From e77d13c2fef59f68a7ac9c5ad08cc98754e12b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 020/105] fix: product of distributions discretized to a markov
 chain

---
 dolo/numeric/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 43a7499..2689d7d 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -655,8 +655,8 @@ class ProductDistribution(ContinuousDistribution):
     def discretize(self, to="iid"):
 
         # TODO: pass some options
-        fids = [dis.discretize(to=to) for dis in self.distributions]
-        return product_iid(fids)
+        fids = [dis.discretize(to="iid") for dis in self.distributions]
+        return product_iid(fids).discretize(to=to)
 
     def draw(self, N: int) -> Matrix:
 
-- 
2.43.0


From 07b906ba0795a4033d9e7808a71153a0d1812b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 021/105] fix: a single draw of a multivariate normal law has
 the documented shape

---
 dolo/numeric/distribution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 2689d7d..fb57433 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -602,11 +602,9 @@ class Normal(ContinuousDistribution):
     def draw(self, N: int) -> Matrix:
 
         res = self._dist_.rvs(size=N)
-        if res.ndim == 1:
-            # scipy returns a 1d object for 1d distribution
-            res = res[:, None]
 
-        return res
+        # scipy drops dimensions when N==1 or when the distribution is 1d
+        return np.reshape(res, (N, self.d))
 
     def discretize(self, to="iid", N=None) -> FiniteDistribution:
 
-- 
2.43.0


From d153e761f334ad7b8e8ea71dee52228f17bfa0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 022/105] fix: a product of one process can be discretized as a
 markov chain

---
 dolo/numeric/discretization/discretization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 3345bb4..2dc21e0 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -200,9 +200,14 @@ def tensor_markov(*args):
         n = np.column_stack([np.repeat(n1, q, axis=0), np.tile(n2, (p, 1))])
         return n, t
 
+    elif len(args) == 1:
+
+        [(n, t)] = args
+        return np.array(n, dtype=float), np.array(t, dtype=float)
+
     else:
         raise Exception(
-            "Incorrect number of arguments. Expected at least 2. Found {}.".format(
+            "Incorrect number of arguments. Expected at least 1. Found {}.".format(
                 len(args)
             )
         )
-- 
2.43.0


From 5102e6f37fbe60fa3347b1d5f415f867ed882819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 023/105] fix: discretized VAR1 have the covariance of the
 process

---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 2dc21e0..38027a2 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -129,7 +129,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
     for i in zero_columns:
         sigma[i, i] = 1
 
-    L = scipy.linalg.cholesky(sigma)
+    L = scipy.linalg.cholesky(sigma, lower=True)
 
     N = int(N)
 
-- 
2.43.0


From 837b2d2a79f43f4ddfd3c676a35ae582098c5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 024/105] fix: VAR1 components are constant if their variance
 is zero, not if covariances cancel out

---
 dolo/numeric/discretization/discretization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 38027a2..2940b15 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -123,9 +123,9 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     d = sigma.shape[1]
 
-    sigma = sigma.copy()
+    sigma = np.array(sigma, dtype=float)
 
-    zero_columns = np.where(sigma.sum(axis=0) == 0)[0]
+    zero_columns = np.where(np.diag(sigma) == 0)[0]
     for i in zero_columns:
         sigma[i, i] = 1
 
-- 
2.43.0


From f40216e02882a61ed11b9f6692772a56d65cf3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 025/105] fix: multidimensional_discretization works with
 tauchen's method

---
 dolo/numeric/discretization/discretization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 2940b15..ada244c 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -135,6 +135,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     if method == "tauchen":
         [nodes_1d, probas_1d] = tauchen(N, 0, rho, 1, m=m)
+        nodes_1d = nodes_1d.ravel()
     elif method == "rouwenhorst":
         [nodes_1d, probas_1d] = rouwenhorst(rho, 1, N)
 
-- 
2.43.0


From d463f765fdb3407a66ec01723220cdb33f82858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 026/105] fix: VAR1 whose autocorrelation is not a scalar are
 refused by discretize_mc

---
 dolo/numeric/processes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 13dd155..5cccee1 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -399,11 +399,11 @@ class AR1(ContinuousProcess):
         μ = np.array([self.μ])
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
@@ -536,11 +536,11 @@ class VAR1(ContinuousProcess):
         Sigma = self.Σ
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
-- 
2.43.0


From 88aa0f6d73b7388b292c16ea042daefdea2b0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 027/105] fix: asking for an unknown discretization of a VAR1
 is an error

---
 dolo/numeric/processes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 5cccee1..01d92ef 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -391,6 +391,8 @@ class AR1(ContinuousProcess):
             return self.discretize_mc(N=N, **kwargs)
         elif to == "gdp":
             return self.discretize_gdp(N=N, **kwargs)
+        else:
+            raise Exception("Not implemented.")
 
     def discretize_mc(self, N=3):
 
@@ -529,6 +531,8 @@ class VAR1(ContinuousProcess):
             return self.discretize_mc(N=N, **kwargs)
         elif to == "gdp":
             return self.discretize_gdp(N=N, **kwargs)
+        else:
+            raise Exception("Not implemented.")
 
     def discretize_mc(self, N=3):
 
-- 
2.43.0


From 01ca4aa8059f4f70b92c6c4b35596332034bfba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 028/105] fix: the response of a VAR1 has the same format as
 the response of other processes

---
 dolo/numeric/processes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 01d92ef..717a92c 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -626,13 +626,14 @@ class VAR1(ContinuousProcess):
 
     def response(self, T, impulse):
         d = self.d
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
+        irf = np.zeros((T + 1, d))
+        irf[1, :] = impulse
         rho = self.ρ
-        for t in range(1, irf.shape[0]):
+        for t in range(2, irf.shape[0]):
             irf[t, :] = rho @ irf[t - 1, :]
         irf += self.μ[None, :]
-        return irf
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 #### dummy class
-- 
2.43.0


From ce9595d99a763b113dfd35683c0dca0e13817806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 029/105] fix: simulations of a VAR1 start from the initial
 value they are given

---
 dolo/numeric/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 717a92c..cd42b1c 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -604,7 +604,7 @@ class VAR1(ContinuousProcess):
         d = self.d
 
         if m0 is None:
-            m0 = np.zeros(d)
+            m0 = self.μ
         from numpy.random import multivariate_normal
 
         Sigma = self.Σ
@@ -616,7 +616,7 @@ class VAR1(ContinuousProcess):
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
+        sim[0, :, :] = (np.asarray(m0) - self.μ)[None, :]
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
-- 
2.43.0


From b8a5d5ebe44989860bef9dde461904429078b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 030/105] fix: deterministic simulations of a VAR1

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index cd42b1c..d343f48 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -612,7 +612,7 @@ class VAR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-- 
2.43.0


From a14c535676e313fc41816b8b8de87c0d3a746ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 031/105] fix: generalized discretization of a VAR1 is centered
 on its mean, with its grid

---
 dolo/numeric/processes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index d343f48..5241a53 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -585,16 +585,19 @@ class VAR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid(self.μ + min, self.μ + max, [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
+        nodes = self.μ[None, :] + nodes
         iweights = weights[None, :].repeat(n_nodes, axis=0)
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = (
+                    self.μ + ρ * (nodes[i, :] - self.μ) + epsilons[j]
+                )
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
-- 
2.43.0


From 2acf2a188fb1bbe58964014d53d2afe59860e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 032/105] fix: a markov chain seen as a discretized process
 keeps its grid

---
 dolo/numeric/processes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 5241a53..d72516b 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -255,8 +255,7 @@ class MarkovChain(DiscretizedProcess, DiscreteProcess):
             nodes = self.values.copy()
             inodes = nodes[None, :, :].repeat(nodes.shape[0], axis=0)
             iweights = self.transitions
-            return GDP(nodes, inodes, iweights)
-            return
+            return GDP(nodes, inodes, iweights, grid=self.grid)
         elif to == "mc":
             return self
         else:
-- 
2.43.0


From fb99b72aa47d2ddf4927f820e360fe9c47fc163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 033/105] =?UTF-8?q?fix:=20an=20AR1=20is=20a=20one=20dimens?=
 =?UTF-8?q?ional=20VAR1=20(simulate,=20response=20and=20discretize=5Fgdp?=
 =?UTF-8?q?=20failed,=20=CF=83=20was=20used=20as=20a=20variance)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 dolo/numeric/processes.py | 114 ++++----------------------------------
 1 file changed, 12 insertions(+), 102 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index d72516b..cbbd683 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -385,117 +385,27 @@ class AR1(ContinuousProcess):
         self.μ = μ if μ is not None else 0.0
         self.d = 1
 
-    def discretize(self, N=3, to="mc", **kwargs):
-        if to == "mc":
-            return self.discretize_mc(N=N, **kwargs)
-        elif to == "gdp":
-            return self.discretize_gdp(N=N, **kwargs)
-        else:
-            raise Exception("Not implemented.")
-
-    def discretize_mc(self, N=3):
-
-        rho = np.array([[self.ρ]])
-        Sigma = np.array([[self.σ]])
-        μ = np.array([self.μ])
-
-        try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
-        except:
-            raise Exception(
-                "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho
-                )
-            )
-
-        from dolo.numeric.discretization import multidimensional_discretization
+    def to_var1(self):
 
-        [P, Q] = multidimensional_discretization(rho[0, 0], Sigma, N=N)
+        # (σ is the standard deviation of the innovations)
+        var1 = VAR1(ρ=self.ρ, Σ=[[self.σ**2]], μ=[self.μ])
+        var1.names = self.names
+        return var1
 
-        P += μ[None, :]
+    def discretize(self, N=3, to="mc", **kwargs):
+        return self.to_var1().discretize(N=N, to=to, **kwargs)
 
-        return MarkovChain(values=P, transitions=Q)
+    def discretize_mc(self, N=3):
+        return self.to_var1().discretize_mc(N=N)
 
     def discretize_gdp(self, N=3):
-
-        Σ = np.array([[self.σ]])
-        ρ = self.ρ
-
-        n_nodes = N
-        n_std = 2.5
-        n_integration_nodes = 5
-
-        try:
-            assert Σ.shape[0] == 1
-        except:
-            raise Exception("Not implemented.")
-
-        try:
-            assert ρ.shape[0] == ρ.shape[1] == 1
-        except:
-            raise Exception("Not implemented.")
-
-        ρ = ρ[0, 0]
-        σ = np.sqrt(Σ[0, 0])
-
-        from dolo.numeric.discretization import gauss_hermite_nodes
-
-        epsilons, weights = gauss_hermite_nodes([n_integration_nodes], Σ)
-
-        min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
-        max = n_std * (σ / (np.sqrt(1 - ρ**2)))
-
-        from .grids import CartesianGrid
-
-        grid = CartesianGrid([min], [max], [n_nodes])
-
-        nodes = np.linspace(min, max, n_nodes)[:, None]
-        iweights = weights[None, :].repeat(n_nodes, axis=0)
-        integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
-        for i in range(n_nodes):
-            for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
-
-        return GDP(nodes, integration_nodes, iweights, grid=grid)
-        # return (nodes,integration_nodes,iweights)
+        return self.to_var1().discretize_gdp(N=N)
 
     def simulate(self, N, T, m0=None, stochastic=True):
-
-        Sigma = np.array([[self.σ]])
-        mu = np.array([self.μ])
-        rho = np.array([[self.ρ]])
-        d = self.d
-
-        if m0 is None:
-            m0 = np.zeros(d)
-        from numpy.random import multivariate_normal
-
-        if stochastic:
-            innov = multivariate_normal(mu, Sigma, N * T)
-        else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
-        innov = innov.reshape((T, N, d))
-        sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
-        for t in range(1, sim.shape[0]):
-            sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
-
-        sim += μ[None, None, :]
-
-        return sim
+        return self.to_var1().simulate(N, T, m0=m0, stochastic=stochastic)
 
     def response(self, T, impulse):
-
-        d = self.d
-        rho = self.ρ
-        μ = self.μ
-
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
-        for t in range(1, irf.shape[0]):
-            irf[t, :] = rho @ irf[t - 1, :]
-        irf += μ[None, :]
-        return irf
+        return self.to_var1().response(T, impulse)
 
 
 @language_element
-- 
2.43.0


From 09adfaa8aba9169fcdf7bc925c8735781f86a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 034/105] fix: markov chains cannot jump out of their states
 when probabilities add up to less than one

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index cbbd683..1376570 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -23,7 +23,7 @@ from dolang.language import language_element
 def choice(x, n, cumul):
     i = 0
     running = True
-    while i < n and running:
+    while i < n - 1 and running:
         if x < cumul[i]:
             running = False
         else:
-- 
2.43.0


From a61282ffa9e9a3d6deb930884d2bc0b241fa35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 035/105] fix: simulate_markov_chain can return values

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 1376570..b866ca1 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -54,7 +54,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     indices = simulate_mc_indices(C, N, T, i0_)
     if return_values:
         values = np.reshape(
-            np.concatenate([Q[i, :][None, :] for i in indices.ravel()], axis=0),
+            np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
             indices.shape + (-1,),
         )
         return indices, values
-- 
2.43.0


From 4fe00e749cd47060c9fe32185531854ce2a49bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 036/105] fix: simulations of markov chains can be reproduced
 by setting numpy's random seed

---
 dolo/numeric/processes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index b866ca1..9a3140a 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -11,7 +11,6 @@ Matrix = List[Vector]
 
 from numba import jit, njit
 from dolo.numeric.grids import EmptyGrid, CartesianGrid, UnstructuredGrid
-from random import random as rand
 
 from xarray import DataArray
 
@@ -32,7 +31,7 @@ def choice(x, n, cumul):
 
 
 @njit
-def simulate_mc_indices(C, N, T, i0):
+def simulate_mc_indices(C, N, T, i0, draws):
     k = len(C)
     out = np.zeros((T, N), dtype=np.int32)
     out[0, :] = i0
@@ -40,7 +39,7 @@ def simulate_mc_indices(C, N, T, i0):
         for t in range(0, T - 1):
             ii = out[t, n]
             options = C[ii]
-            x = rand()
+            x = draws[t, n]
             ix = choice(x, k, options)
             out[t + 1, n] = ix
     return out
@@ -51,7 +50,9 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     if i0 is not None:
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
-    indices = simulate_mc_indices(C, N, T, i0_)
+    # (the random state of numba is not the one set by numpy.random.seed)
+    draws = np.random.rand(T, N)
+    indices = simulate_mc_indices(C, N, T, i0_, draws)
     if return_values:
         values = np.reshape(
             np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
-- 
2.43.0


From 14bbd7cd58f51ffd48022d35b83f9f972e53ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 037/105] fix: simulated states follow the transition equation
 between two consecutive dates

---
 dolo/algos/simulations.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f716fbf..e6a809a 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -181,7 +181,6 @@ def simulate(
 
     numpy.random.seed(seed)
 
-    mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
@@ -196,10 +195,8 @@ def simulate(
 
         x_simul[i, :, :] = x
 
-        ss = g(mp, s, x, m, parms)
         if i < T - 1:
-            s_simul[i + 1, :, :] = ss
-        mp = m
+            s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [s_simul, x_simul]
-- 
2.43.0


From 16f7e9f3f690c860c9b3d980346527612220e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 038/105] fix: the seed of a simulation is set before its
 shocks are drawn

---
 dolo/algos/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index e6a809a..86cdab8 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -110,6 +110,8 @@ def simulate(
     if isinstance(dr, AlgoResult):
         dr = dr.dr
 
+    numpy.random.seed(seed)
+
     calib = model.calibration
     parms = numpy.array(calib["parameters"])
 
@@ -179,8 +181,6 @@ def simulate(
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    numpy.random.seed(seed)
-
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
-- 
2.43.0


From bc8886cb6dc7b0496151941fc5c912e36646b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 039/105] fix: simulations contain exogenous variables also
 when the model has no auxiliaries

---
 dolo/algos/simulations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 86cdab8..709501e 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -199,8 +199,12 @@ def simulate(
             s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
-        l = [s_simul, x_simul]
-        varnames = model.symbols["states"] + model.symbols["controls"]
+        l = [m_simul, s_simul, x_simul]
+        varnames = (
+            model.symbols["exogenous"]
+            + model.symbols["states"]
+            + model.symbols["controls"]
+        )
     else:
         aux = model.functions["auxiliary"]
         a_simul = aux(
-- 
2.43.0


From 2648b32a69881b87aa7703b207b3d69c39fc2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 040/105] fix: simulations along given indices of a markov
 chain do not need i0

---
 dolo/algos/simulations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 709501e..4cf5644 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -141,7 +141,6 @@ def simulate(
             # inds = i_simul.ravel()
             # m_simul = np.reshape( np.concatenate( [nodes[i,:][None,:] for i in inds.ravel()], axis=0 ), inds.shape + (-1,) )
             sim_type = "discrete"
-            x_simul[0, :, :] = dr.eval_is(i0, s0[None, :])[0, :]
         else:
             raise Exception("Incorrect specification of driving values.")
         m0 = m_simul[0, :, :]
-- 
2.43.0


From 8211c54b17fab653ee7407c3dc131582b45f9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 041/105] fix: the default impulse is one standard deviation
 also for univariate processes

---
 dolo/algos/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 4cf5644..500c1d8 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -20,8 +20,8 @@ def response(model, dr, varname, T=40, impulse: float = None):
             impulse = numpy.sqrt(
                 model.exogenous.Σ[i_exo, i_exo]
             )  # works only for IID/AR1
-        except:
-            impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
+        except AttributeError:
+            impulse = model.exogenous.σ  # standard deviation of univariate processes
 
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
-- 
2.43.0


From b16673638de74b4aa75d7d9ab49716381fba9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 042/105] fix: response does not print its inputs

---
 dolo/algos/simulations.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 500c1d8..06c9621 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -26,9 +26,6 @@ def response(model, dr, varname, T=40, impulse: float = None):
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
 
-    exogenous = model.exogenous
-    print(exogenous)
-    print(T, e1)
     m_simul = model.exogenous.response(T - 1, e1)  # this is an xarray T x V
     m_simul = m_simul.expand_dims("N")
     m_simul = m_simul.transpose("T", "N", "V").data
-- 
2.43.0


From 0e2bd77350e81c1af4653e1ca8d3d1db80412a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 043/105] fix: states of a markov chain that share their values
 are not mixed up in simulations

---
 dolo/algos/simulations.py |  4 ++--
 dolo/numeric/processes.py | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 06c9621..3d111a0 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -160,8 +160,8 @@ def simulate(
             if i0 is None:
                 i0 = 0
             dp = process
-            m_simul = dp.simulate(N, T, i0=i0, stochastic=stochastic)
-            i_simul = find_index(m_simul, dp.values)
+            i_simul = dp.simulate_indices(N, T, i0=i0, stochastic=stochastic)
+            m_simul = dp.values[i_simul]
             m0 = dp.node(i0)
             x0 = dr.eval_is(i0, s0[None, :])[0, :]
         else:
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 9a3140a..ed88df4 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -286,12 +286,15 @@ class MarkovChain(DiscretizedProcess, DiscreteProcess):
     def iweight(self, i: int, j: int):  # scalar
         return self.transitions[i, j]
 
-    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
-        # m0 is basically ignored
+    def simulate_indices(self, N, T, i0=0, stochastic=True):
         if stochastic:
-            inds = simulate_markov_chain(self.values, self.transitions, N, T, i0=i0)
+            return simulate_markov_chain(self.values, self.transitions, N, T, i0=i0)
         else:
-            inds = np.zeros((T, N), dtype=int) + i0
+            return np.zeros((T, N), dtype=int) + i0
+
+    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
+        # m0 is basically ignored
+        inds = self.simulate_indices(N, T, i0=i0, stochastic=stochastic)
         return self.values[inds]
 
 
-- 
2.43.0


From 65b32c8e27a8a5e1f5cac9ae7e65973c67bc8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 044/105] fix: linear decision rules indexed by a markov state
 work with several endogenous states

---
 dolo/numeric/decision_rule.py | 34 ----------------------------------
 1 file changed, 34 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index d720d47..2478e2c 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -336,40 +336,6 @@ def eval_is(
     return eval_cubic(gg, coeffs, s)
 
 
-# UnstructuredGrid x Cartesian x Linear
-
-
-@multimethod
-def get_coefficients(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    x: object,
-):
-    return [x[i].copy() for i in range(x.shape[0])]
-
-
-@multimethod
-def eval_is(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    i: object,
-    s: object,
-):
-
-    from interpolation.splines import eval_linear
-
-    assert s.ndim == 2
-
-    coeffs = itp.coefficients[i]
-    gg = endo_grid.__numba_repr__()
-
-    return eval_linear(gg, coeffs, s)
-
-
 # Empty x Cartesian x Linear
 
 
-- 
2.43.0


From c6fd4ed6de37bfbd2b6c85a791eec8542eb8dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 045/105] fix: decision rules on cartesian grids can be
 evaluated at one exogenous point and many states

---
 dolo/numeric/decision_rule.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 2478e2c..0ad3794 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -155,6 +155,15 @@ from multipledispatch import dispatch
 namespace = dict()
 multimethod = dispatch(namespace=namespace)
 
+
+def cat_points(m, s):
+    # if there is only one m for many s (or the converse) it is repeated
+    N = max(m.shape[0], s.shape[0])
+    m = np.broadcast_to(m, (N, m.shape[1]))
+    s = np.broadcast_to(s, (N, s.shape[1]))
+    return np.concatenate([m, s], axis=1)
+
+
 # Cartesian x Cartesian x Linear
 
 
@@ -190,7 +199,7 @@ def eval_ms(
     gg = grid.__numba_repr__()
     from interpolation.splines import eval_linear
 
-    x = np.concatenate([m, s], axis=1)
+    x = cat_points(m, s)
 
     return eval_linear(gg, coeffs, x)
 
@@ -247,7 +256,7 @@ def eval_ms(
 
     gg = grid.__numba_repr__()
 
-    x = np.concatenate([m, s], axis=1)
+    x = cat_points(m, s)
 
     return eval_cubic(gg, coeffs, x)
 
-- 
2.43.0


From 3c536287302422c1f6e1fe0232f88edd35ad3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 046/105] fix: decision rules called with one point for one
 argument and many for the other

---
 dolo/numeric/decision_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 0ad3794..f097708 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -72,9 +72,9 @@ class CallableDecisionRule:
                 if s.ndim == 1 and m.ndim == 1:
                     return self.eval_ms(m[None, :], s[None, :])[0, :]
                 elif m.ndim == 1:
-                    m = m[None, :]
+                    m = m[None, :].repeat(s.shape[0], axis=0)
                 elif s.ndim == 1:
-                    s = s[None, :]
+                    s = s[None, :].repeat(m.shape[0], axis=0)
                 return self.eval_ms(m, s)
 
 
-- 
2.43.0


From a6c04e299f78e10a138856eb4ddd414c9181b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 047/105] fix: exogenous values given as integers are not taken
 for an index by decision rules

---
 dolo/numeric/decision_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index f097708..b80ce84 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -60,7 +60,7 @@ class CallableDecisionRule:
             else:
                 return self.eval_s(args[0])
         elif len(args) == 2:
-            if args[0].dtype in ("int64", "int32"):
+            if args[0].ndim == 0 and args[0].dtype in ("int64", "int32"):
                 (i, s) = args
                 if s.ndim == 1:
                     return self.eval_is(i, s[None, :])[0, :]
-- 
2.43.0


From b09fd42dcbfe61abd0610994c0fd32a6cd3cdd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 048/105] fix: custom decision rules can be used with exogenous
 markov chains

---
 dolo/numeric/decision_rule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index b80ce84..3c18111 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -525,6 +525,7 @@ class CustomDR(CallableDecisionRule):
         fun, gufun = make_method_from_factory(fff)
 
         self.p = model.calibration["parameters"]
+        self.exogenous = model.exogenous
         self.exo_grid = model.exogenous.discretize()  # this is never used
         self.endo_grid = model.endo_grid
         self.gufun = gufun
@@ -532,3 +533,8 @@ class CustomDR(CallableDecisionRule):
     def eval_ms(self, m, s):
 
         return self.gufun(m, s, self.p)
+
+    def eval_is(self, i, s):
+
+        # the exogenous process must have indexed nodes (i.e. be a markov chain)
+        return self.eval_ms(self.exogenous.node(i)[None, :], s)
-- 
2.43.0


From 404faa8c348adc5b6680cd9689fcee96ec5895cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 049/105] fix: tabulate works when the exogenous grid is
 cartesian

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 3d111a0..81cccd7 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -284,7 +284,7 @@ def tabulate(
         xvec = dr.eval_is(i0, svec)
     elif m0 is not None:
         m = m0
-        xvec = dr.eval_ms(m0, svec)
+        xvec = dr.eval_ms(m0[None, :], svec)
 
     mm = numpy.row_stack([m] * n_steps)
     l = [mm, svec, xvec]
-- 
2.43.0


From ac95331c561be088692961dc5d18f86a171a9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 050/105] fix: tabulate works with custom and perturbation
 decision rules

---
 dolo/algos/simulations.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 81cccd7..e8e0324 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -264,9 +264,8 @@ def tabulate(
     svec = numpy.row_stack([s0] * n_steps)
     svec[:, index] = values
 
-    try:
-        dp = dr.dprocess
-    except:
+    dp = getattr(dr, "dprocess", None)
+    if dp is None:
         dp = model.exogenous.discretize()
 
     if (i0 is None) and (m0 is None):
@@ -281,7 +280,11 @@ def tabulate(
 
     if i0 is not None:
         m = dp.node(i0)
-        xvec = dr.eval_is(i0, svec)
+        if getattr(dr, "dprocess", None) is not None:
+            xvec = dr.eval_is(i0, svec)
+        else:
+            # rules that are not defined on a grid, but everywhere
+            xvec = dr.eval_ms(m[None, :], svec)
     elif m0 is not None:
         m = m0
         xvec = dr.eval_ms(m0[None, :], svec)
-- 
2.43.0


From b5257fd0ef8d72803c95ddff81fd89236c1d4f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 051/105] fix: tabulate_2d evaluates the decision rule at one
 point at a time

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index e8e0324..d533767 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -336,7 +336,7 @@ def tabulate_2d(model, dr, states=None, i0=0, s0=None, n=[12, 13]):
         s[i_x] = xx
         for yy in lps[1]:
             s[i_y] = yy
-            x = dr.eval_is(i0, s)
+            x = dr.eval_is(i0, s[None, :])[0, :]
             vv.append(numpy.concatenate([s, x]))
         vals.append(vv)
     vv = numpy.array(vals)
-- 
2.43.0


From d114b70178f68f657dd34f5a7422ec4ae9f23dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 052/105] fix: plot_decision_rule plots the decision rule of a
 model

---
 dolo/algos/simulations.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index d533767..e84dfc6 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -374,12 +374,26 @@ def plot3d(tab, varname):
     return iplot(fig, filename="graph_" + varname)
 
 
-def plot_decision_rule(plot_controls=None, **kwargs):
+def plot_decision_rule(
+    model,
+    dr,
+    state,
+    plot_controls=None,
+    bounds=None,
+    n_steps=100,
+    s0=None,
+    i0=None,
+    m0=None,
+    **kwargs,
+):
 
-    if isinstance(dr, AlgoResult):
-        dr = dr.dr
+    df = tabulate(
+        model, dr, state, bounds=bounds, n_steps=n_steps, s0=s0, i0=i0, m0=m0
+    )
+    values = df[str(state)]
 
-    df = tabulate(dr, state, bounds=None, n_steps=100, s0=None, i0=None, m0=None)
+    if plot_controls is None:
+        plot_controls = model.symbols["controls"]
 
     from matplotlib import pyplot
 
-- 
2.43.0


From 1386ab94468d27c9c9df812778b1dd41e82bc033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 053/105] fix: values of a tabulated state are not truncated
 when the others are given as integers

---
 dolo/algos/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index e84dfc6..e1b468b 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -261,7 +261,7 @@ def tabulate(
     if s0 is None:
         s0 = model.calibration["states"]
 
-    svec = numpy.row_stack([s0] * n_steps)
+    svec = numpy.row_stack([s0] * n_steps).astype(float)
     svec[:, index] = values
 
     dp = getattr(dr, "dprocess", None)
@@ -330,7 +330,7 @@ def tabulate_2d(model, dr, states=None, i0=0, s0=None, n=[12, 13]):
     i_y = model.symbols["states"].index(states[1])
     vals = []
     vstates = []
-    s = s0.copy()
+    s = numpy.array(s0, dtype=float)
     for xx in lps[0]:
         vv = []
         s[i_x] = xx
-- 
2.43.0


From 1266ab44e7b817b818503414c19d658072aa98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 054/105] fix: complex generalized eigenvalues are sorted by
 their modulus

---
 dolo/numeric/extern/qz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/extern/qz.py b/dolo/numeric/extern/qz.py
index be26ea8..21c3226 100644
--- a/dolo/numeric/extern/qz.py
+++ b/dolo/numeric/extern/qz.py
@@ -11,11 +11,14 @@ def qzordered(A, B, crit=1.0):
     TOL = 1e-10
 
     def select(alpha, beta):
-        return alpha**2 > crit * beta**2
+        # (alpha can be complex)
+        return abs(alpha) > crit * abs(beta)
 
     [S, T, alpha, beta, U, V] = ordqz(A, B, output="real", sort=select)
 
-    eigval = abs(numpy.diag(S) / numpy.diag(T))
+    # (S and T have 2x2 blocks when eigenvalues are complex)
+    with numpy.errstate(divide="ignore", invalid="ignore"):
+        eigval = abs(alpha) / abs(beta)
 
     return [S, T, U, V, eigval]
 
-- 
2.43.0


From 7e5bd1e6c079807bec2adb6781a0d9e76526c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 055/105] fix: models whose exogenous process is a VAR1 or an
 AR1 can be solved by perturbation

---
 dolo/algos/perturbation.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index a64fe13..5308f3a 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -4,8 +4,7 @@ from dolo.compiler.model import Model
 def get_derivatives(model, steady_state=None):
     """The sum of two numbers."""
 
-    from dolo.numeric.processes import VAR1, IIDProcess
-    from dolo.numeric.distribution import Normal
+    from dolo.numeric.processes import AR1, VAR1, IIDProcess
 
     import numpy as np
 
@@ -29,8 +28,8 @@ def get_derivatives(model, steady_state=None):
 
     process = model.exogenous
 
-    if isinstance(process, VAR1):
-        A = process.rho
+    if isinstance(process, (VAR1, AR1)):
+        A = np.atleast_2d(process.ρ)
         B = np.eye(A.shape[0])
         G_s = np.row_stack(
             [
@@ -39,7 +38,7 @@ def get_derivatives(model, steady_state=None):
             ]
         )
         G_x = np.row_stack([np.zeros((n_m, n_x)), g_x])
-        G_e = g_m @ B
+        G_e = np.row_stack([B, g_M @ B])
         F_s = np.column_stack([f_m, f_s])
         F_S = np.column_stack([f_M, f_S])
         F_x = f_x
@@ -47,7 +46,7 @@ def get_derivatives(model, steady_state=None):
     elif isinstance(process, IIDProcess):
         G_s = g_s
         G_x = g_x
-        G_e = g_m
+        G_e = g_M
         F_s = f_s
         F_S = f_S
         F_x = f_x
@@ -248,12 +247,11 @@ def perturb(
     s = steady_state["states"]
     x = steady_state["controls"]
 
-    from dolo.numeric.processes import VAR1, IIDProcess
-    from dolo.numeric.distribution import MvNormal
+    from dolo.numeric.processes import AR1, VAR1, IIDProcess
 
     process = model.exogenous
 
-    if isinstance(process, VAR1):
+    if isinstance(process, (VAR1, AR1)):
         C_m = C[:, : len(m)]
         C_s = C[:, len(m) :]
     elif isinstance(process, IIDProcess):
-- 
2.43.0


From 74a7df586af111179f61dc1badd2a4254a97e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 056/105] fix: define the errors raised when perturbation
 cannot select eigenvalues

---
 dolo/algos/perturbation.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 5308f3a..8f9d9fd 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -115,6 +115,29 @@ from numpy.linalg import solve
 from dolo.numeric.extern.qz import qzordered
 
 
+class GeneralizedEigenvaluesError(Exception):
+    """some generalized eigenvalues are not defined"""
+
+    def __init__(self, diag_S, diag_T):
+        self.diag_S = diag_S
+        self.diag_T = diag_T
+        super().__init__(f"Undefined eigenvalues: S={diag_S}, T={diag_T}")
+
+
+class GeneralizedEigenvaluesSelectionError(Exception):
+    """there is no gap between the eigenvalues to keep and the others"""
+
+    def __init__(self, A, B, eigval, cutoff, diag_S, diag_T, n_states):
+        self.A = A
+        self.B = B
+        self.eigval = eigval
+        self.cutoff = cutoff
+        self.diag_S = diag_S
+        self.diag_T = diag_T
+        self.n_states = n_states
+        super().__init__(f"Can't select {n_states} eigenvalues among: {eigval}")
+
+
 def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     n_s = g_s.shape[0]  # number of controls
-- 
2.43.0


From 283c1672a5dac0e8e4486449950199d05d1f91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 057/105] fix: perturbation keeps the most stable eigenvalues
 when Blanchard-Kahn conditions are not met

---
 dolo/algos/perturbation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 8f9d9fd..6db1c27 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -167,13 +167,14 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
         raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
 
     eigval_s = sorted(eigval, reverse=False)
-    if max(eigval[:n_s]) >= 1 and min(eigval[n_s:]) < 1:
+    # eigenvalues of the state space are the inverse of these ones
+    if min(eigval[:n_s]) > 1.0 - 1e-8 and max(eigval[n_s:]) <= 1.0 - 1e-8:
         # BK conditions are met
         pass
     else:
-        ev_a = eigval_s[n_s - 1]
-        ev_b = eigval_s[n_s]
-        cutoff = (ev_a - ev_b) / 2
+        ev_a = eigval_s[-n_s]
+        ev_b = eigval_s[-n_s - 1]
+        cutoff = (ev_a + ev_b) / 2 if np.isfinite(ev_a) else 2 * ev_b + 1
         if not ev_a > ev_b:
             raise GeneralizedEigenvaluesSelectionError(
                 A=A,
@@ -186,7 +187,7 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
             )
         import warnings
 
-        if cutoff > 1:
+        if ev_a <= 1.0 - 1e-8:
             warnings.warn("Solution is not convergent.")
         else:
             warnings.warn(
-- 
2.43.0


From 4b298544d8a3ecdced6b828c9383c2a0177d2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 058/105] fix: perturbation results tell whether the solution
 is stable and unique

---
 dolo/algos/perturbation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 6db1c27..1e26e76 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -285,10 +285,14 @@ def perturb(
     if not details:
         return dr
     else:
+        # the eigenvalues of the solution are the inverse of the last ones
+        n_s = G_s.shape[0]
+        ev_a = eigvals[-n_s]
+        ev_b = eigvals[-n_s - 1]
         return PerturbationResult(
             dr,
             eigvals,
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
+            bool(ev_a > 1),
+            bool(ev_a > ev_b),
+            bool(ev_b < 1),
         )
-- 
2.43.0


From 311ef59f47d9e2dba3db59c42671de1ba43ca05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 059/105] fix: perturb solves for the steady state when it is
 asked to

---
 dolo/algos/perturbation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 1e26e76..dcabe59 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -259,7 +259,12 @@ def perturb(
         raise Exception("Not implemented.")
 
     if steady_state is None:
-        steady_state = model.calibration
+        if solve_steady_state:
+            from dolo.algos.steady_state import find_steady_state
+
+            steady_state = find_steady_state(model)
+        else:
+            steady_state = model.calibration
 
     G_s, G_x, G_e, F_s, F_x, F_S, F_X = get_derivatives(
         model, steady_state=steady_state
-- 
2.43.0


From 2f0c854ca0608017af182f4eebdffbb20bea183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 060/105] fix: ncpsolve has derivatives where a constraint
 starts to bind

---
 dolo/numeric/optimize/ncpsolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 7bf9bb4..1c73e15 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -48,6 +48,10 @@ def smooth(x, a, b, fx, J, jactype="serial"):
 
     fxnew[dbinf] = pval[dbinf]
 
+    # at kinks, any element of the generalized derivative can be used
+    sq1[sq1 == 0] = 1.0
+    sq2[sq2 == 0] = 1.0
+
     dpdy = 1 + fx / sq1
     dpdy[dainf] = 1
 
-- 
2.43.0


From a76797504e0013ec2b2958cb6f312ba7e73bb84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 061/105] fix: ncpsolve takes bounds into account with full
 jacobians

---
 dolo/numeric/optimize/ncpsolve.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 1c73e15..d7daa9a 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -95,7 +95,6 @@ def smooth(x, a, b, fx, J, jactype="serial"):
         xxx = diag(xx)
         #        xxx = diag(xx)
         Jnew = fff * J - xxx
-        return fx, J
         return [fxnew, Jnew]
 
     else:
-- 
2.43.0


From fa0a7dd4c5c07a5d411e0f267b1784bca74e1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 062/105] fix: lmmcp fails when the function cannot be
 evaluated

---
 dolo/numeric/extern/lmmcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/extern/lmmcp.py b/dolo/numeric/extern/lmmcp.py
index ed5dbf8..f15673b 100644
--- a/dolo/numeric/extern/lmmcp.py
+++ b/dolo/numeric/extern/lmmcp.py
@@ -371,7 +371,7 @@ def lmmcp(fun, Dfun, x0, lb, ub, verbose=True, options={}):
         if verbose:
             print("{}\t{}\t{}\t{}\n".format(k, Psix, normDPsix, t))
 
-    if k == kmax:
+    if k == kmax or not Psix <= eps2:
         raise Exception("No convergence")
     return x
 
-- 
2.43.0


From 6456526a1617892568ad77a695c9cbfe9c499b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 063/105] fix: divide all the columns of a line when inverting
 matrices

---
 dolo/algos/invert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/invert.py b/dolo/algos/invert.py
index ac27d59..866bee7 100644
--- a/dolo/algos/invert.py
+++ b/dolo/algos/invert.py
@@ -100,7 +100,7 @@ def divide_tensor(i, c, M):
 @jit
 def divide_matrix(i, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] /= c
 
-- 
2.43.0


From dd0eefcfe823941f44dd64de5795ccd72743b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 064/105] fix: serial_solve does not truncate solutions when
 the right hand side is made of integers

---
 dolo/numeric/optimize/newton.py   | 4 ++--
 dolo/numeric/serial_operations.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/optimize/newton.py b/dolo/numeric/optimize/newton.py
index 2947155..038580a 100644
--- a/dolo/numeric/optimize/newton.py
+++ b/dolo/numeric/optimize/newton.py
@@ -54,7 +54,7 @@ def serial_solve(A, B, diagnose=True):
 
     if diagnose:
 
-        sol = zeros_like(B)
+        sol = numpy.zeros(B.shape, dtype=numpy.result_type(A, B, float))
 
         for i in range(sol.shape[0]):
             try:
@@ -69,7 +69,7 @@ def serial_solve(A, B, diagnose=True):
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
-        sol = numpy.zeros_like(B)
+        sol = numpy.zeros(B.shape)
         serial_solve_numba(M, sol)
 
     return sol
diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index a40a25f..bb09a16 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -120,7 +120,7 @@ def serial_solve(A, B, diagnose=True):
 
     if diagnose:
 
-        sol = zeros_like(B)
+        sol = numpy.zeros(B.shape, dtype=numpy.result_type(A, B, float))
 
         for i in range(sol.shape[0]):
             try:
@@ -135,7 +135,7 @@ def serial_solve(A, B, diagnose=True):
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
-        sol = numpy.zeros_like(B)
+        sol = numpy.zeros(B.shape)
         serial_solve_numba(M, sol)
 
     return sol
-- 
2.43.0


From b8bf06bdc5d92a42fe8380b3cc43036249cf5a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 065/105] fix: second_order_solver does not import a removed
 function

---
 dolo/numeric/matrix_equations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/matrix_equations.py b/dolo/numeric/matrix_equations.py
index d9c5e44..dfb2526 100644
--- a/dolo/numeric/matrix_equations.py
+++ b/dolo/numeric/matrix_equations.py
@@ -13,7 +13,6 @@ def second_order_solver(FF, GG, HH, eigmax=1.0 + 1e-6):
 
     from numpy import (
         array,
-        mat,
         c_,
         r_,
         eye,
-- 
2.43.0


From bb37192552439e441b74673ccacefdf3d72d27dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 066/105] fix: hp_filter applies the given smoothing parameter
 to each series

---
 dolo/numeric/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/filters.py b/dolo/numeric/filters.py
index 7eae04f..4e3f9cf 100644
--- a/dolo/numeric/filters.py
+++ b/dolo/numeric/filters.py
@@ -38,7 +38,7 @@ def hp_filter(data, lam=1600):
     Y = np.asarray(data)
 
     if Y.ndim == 2:
-        resp = [hp_filter(e) for e in data]
+        resp = [hp_filter(e, lam) for e in data]
         T = np.row_stack([e[0] for e in resp])
         Cycle = np.row_stack([e[1] for e in resp])
         return [T, Cycle]
-- 
2.43.0


From f262fef00039ffb819173dd91e4c7d8ff8aa2894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 067/105] fix: cartesian does not truncate values to the type
 of the first list

---
 dolo/numeric/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/misc.py b/dolo/numeric/misc.py
index 44570b5..0be014e 100644
--- a/dolo/numeric/misc.py
+++ b/dolo/numeric/misc.py
@@ -37,7 +37,7 @@ def cartesian(arrays, out=None):
     """
 
     arrays = [np.asarray(x) for x in arrays]
-    dtype = arrays[0].dtype
+    dtype = np.result_type(*arrays)
 
     n = np.prod([x.size for x in arrays])
     if out is None:
-- 
2.43.0


From 749ac13f8072aab9bc123666973f76ee3a853ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 068/105] fix: eliminate all the columns of a line when
 inverting matrices

---
 dolo/algos/invert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/invert.py b/dolo/algos/invert.py
index 866bee7..12e6761 100644
--- a/dolo/algos/invert.py
+++ b/dolo/algos/invert.py
@@ -56,7 +56,7 @@ def substract_tensor(i, j, c, M):
 @jit
 def substract_matrix(i, j, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] = M[i, k] - c * M[j, k]
 
-- 
2.43.0


From be4fc64208959cd64b707b6ee42ccc5cfbb88f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 069/105] fix: numdiff2 stores derivatives

---
 dolo/numeric/serial_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index bb09a16..c71fe43 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -57,7 +57,7 @@ def numdiff2(f, x0, dv=1e-8):
         x2[ind] -= dv
         df = (f(x) - f(x2)) / dv / 2.0
         obj = [Ellipsis] + list(ind) + [slice(None, None, None)]
-        # obj = tuple(obj)
+        obj = tuple(obj)
         ret[obj] = df
 
     return ret
-- 
2.43.0


From 4d8f65839618bd5a093887b1c31c29294b5c8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 070/105] fix: time_iteration returns the initial rule when no
 iteration is allowed

---
 dolo/algos/time_iteration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index ae47e44..c257a39 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -166,6 +166,7 @@ def time_iteration(
 
     err = 10
     it = 0
+    controls = controls_0
 
     if with_complementarities:
         lb = lb.reshape((-1, n_x))
-- 
2.43.0


From 2dd1eb7429a267d920452807d299a477cbbb9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 071/105] fix: time_iteration uses the grid of the discretized
 process it is given

---
 dolo/algos/time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index c257a39..3287096 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -114,7 +114,7 @@ def time_iteration(
     n_s = len(model.symbols["states"])
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     mdr = DecisionRule(
         exo_grid, endo_grid, dprocess=dprocess, interp_method=interp_method
-- 
2.43.0


From 4e660e9cf92f8c3df1b0032291a43ff2df00c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 072/105] fix: improved_time_iteration uses the grid of the
 discretized process it is given

---
 dolo/algos/improved_time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index e39697b..99352ab 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -305,7 +305,7 @@ def improved_time_iteration(
         dprocess = dprocess_
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     n_m = max(dprocess.n_nodes, 1)
     n_s = len(model.symbols["states"])
-- 
2.43.0


From a3b13137d78492637f0929a9c8cd4820ab193ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 073/105] fix: improved_time_iteration solves models without
 constraints

---
 dolo/algos/improved_time_iteration.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 99352ab..d8e7698 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -294,8 +294,11 @@ def improved_time_iteration(
 
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
-    x_lb = model.functions["arbitrage_lb"]
-    x_ub = model.functions["arbitrage_ub"]
+    if "arbitrage_lb" in model.functions:
+        x_lb = model.functions["arbitrage_lb"]
+        x_ub = model.functions["arbitrage_ub"]
+    else:
+        complementarities = False
 
     parms = model.calibration["parameters"]
 
@@ -340,12 +343,13 @@ def improved_time_iteration(
 
     steps = 0.5 ** numpy.arange(maxbsteps)
 
-    lb = x0.copy()
-    ub = x0.copy()
-    for i_m in range(n_m):
-        m = dprocess.node(i_m)
-        lb[i_m, :] = x_lb(m, s, parms)
-        ub[i_m, :] = x_ub(m, s, parms)
+    if complementarities:
+        lb = x0.copy()
+        ub = x0.copy()
+        for i_m in range(n_m):
+            m = dprocess.node(i_m)
+            lb[i_m, :] = x_lb(m, s, parms)
+            ub[i_m, :] = x_ub(m, s, parms)
 
     x = x0
 
-- 
2.43.0


From df90c0480481c5dfa1563d65e42b9464740a92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 074/105] fix: improved_time_iteration calls gmres with
 existing arguments

---
 dolo/algos/improved_time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index d8e7698..cfbddff 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -462,7 +462,7 @@ def improved_time_iteration(
             L.addid = True
             ttol = err_0 / 100
             sol = scipy.sparse.linalg.gmres(
-                L, ddx.ravel(), tol=ttol
+                L, ddx.ravel(), rtol=ttol
             )  # , maxiter=1, restart=smaxit)
             lam0 = 0.01
             nn = L.counter - n0
-- 
2.43.0


From d9ff5270f4744387655c1eaf86995ec31e02c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 075/105] fix: value_iteration takes the bounds of the model

---
 dolo/algos/value_iteration.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 8e52d13..10daaa0 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -50,8 +50,7 @@ def value_iteration(
 
     transition = model.functions["transition"]
     felicity = model.functions["felicity"]
-    controls_lb = model.functions["controls_lb"]
-    controls_ub = model.functions["controls_ub"]
+    bounds = model.x_bounds
 
     parms = model.calibration["parameters"]
     discount = model.calibration["beta"]
@@ -134,9 +133,11 @@ def value_iteration(
             for n in range(N):
                 s_ = s[n, :]
                 x = controls[i_m, n, :]
-                lb = controls_lb(m, s_, parms)
-                ub = controls_ub(m, s_, parms)
-                bnds = [e for e in zip(lb, ub)]
+                if bounds is None:
+                    bnds = None
+                else:
+                    lb, ub = [b(m, s_, parms) for b in bounds]
+                    bnds = [e for e in zip(lb, ub)]
 
                 def valfun(xx):
                     return -choice_value(
-- 
2.43.0


From 48f6ee73d5227d4db986424060d8a81fe6e6ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 076/105] fix: evaluate_policy leaves its initial guess
 unchanged

---
 dolo/algos/value_iteration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 10daaa0..eda4668 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -1,3 +1,4 @@
+import copy
 import time
 import numpy as np
 import numpy
@@ -277,7 +278,7 @@ def evaluate_policy(
     n_s = len(model.symbols["states"])
 
     if dr0 is not None:
-        mdrv = dr0
+        mdrv = copy.copy(dr0)
     else:
         mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
 
-- 
2.43.0


From 8ee640457bd2f30711a656d609b0ff52fda311a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 077/105] fix: egm compiles the functions of the model when
 they are not

---
 dolo/algos/egm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 5e158c9..4139d73 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -41,7 +41,7 @@ def egm(
 
     s = grid["endo"].nodes
 
-    funs = model.__original_gufunctions__
+    funs = model.functions
     h = funs["expectation"]
     gt = funs["half_transition"]
     τ = funs["direct_response_egm"]
-- 
2.43.0


From 9380c144f2a054ef8aecf5cb3c323a302e9a42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 078/105] fix: egm does not print anything unless asked

---
 dolo/algos/egm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 4139d73..0d2a8b1 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -107,7 +107,6 @@ def egm(
                 w = dp.iweight(i_m, i_M)
                 M = dp.inode(i_m, i_M)
                 S = gt(m, a, M, p)
-                print(it, i_m, i_M)
                 X = drfut(i_M, S)
                 z[i_m, :, :] += w * h(M, S, X, p)
             xa[i_m, :, :] = τ(m, a, z[i_m, :, :], p)
-- 
2.43.0


From 619646583bbca8004076778c63707cb8b324229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 079/105] fix: egm solves models without bounds

---
 dolo/algos/egm.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 0d2a8b1..c7be579 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -46,8 +46,10 @@ def egm(
     gt = funs["half_transition"]
     τ = funs["direct_response_egm"]
     aτ = funs["reverse_state"]
-    lb = funs["arbitrage_lb"]
-    ub = funs["arbitrage_ub"]
+    with_bounds = "arbitrage_lb" in funs
+    if with_bounds:
+        lb = funs["arbitrage_lb"]
+        ub = funs["arbitrage_ub"]
 
     if dr0 is None:
         x0 = model.calibration["controls"]
@@ -91,12 +93,13 @@ def egm(
             def drfut(i, ss):
                 if iid_process:
                     i = 0
-                m = dp.node(i)
-                l_ = lb(m, ss, p)
-                u_ = ub(m, ss, p)
                 x = eval_linear((sa0[i, :, 0],), xa0[i, :, 0], ss)[:, None]
-                x = np.minimum(x, u_)
-                x = np.maximum(x, l_)
+                if with_bounds:
+                    m = dp.node(i)
+                    l_ = lb(m, ss, p)
+                    u_ = ub(m, ss, p)
+                    x = np.minimum(x, u_)
+                    x = np.maximum(x, l_)
                 return x
 
         z[:, :, :] = 0
-- 
2.43.0


From fe30eda90ad7f25b9ad36c8faa9acf638b3b1624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 080/105] fix: egm returns the rule from its last iteration, or
 the initial one if there is none

---
 dolo/algos/egm.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index c7be579..a44e3e3 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -83,24 +83,24 @@ def egm(
         print(headline)
         print(stars)
 
-    for it in range(0, maxit):
-
-        if it == 0:
-            drfut = dr0
+    def drit(i, ss):
+        # rule from the last iteration
+        if iid_process:
+            i = 0
+        x = eval_linear((sa0[i, :, 0],), xa0[i, :, 0], ss)[:, None]
+        if with_bounds:
+            m = dp.node(i)
+            l_ = lb(m, ss, p)
+            u_ = ub(m, ss, p)
+            x = np.minimum(x, u_)
+            x = np.maximum(x, l_)
+        return x
+
+    drfut = dr0
+    it = 0
+    η = 1
 
-        else:
-
-            def drfut(i, ss):
-                if iid_process:
-                    i = 0
-                x = eval_linear((sa0[i, :, 0],), xa0[i, :, 0], ss)[:, None]
-                if with_bounds:
-                    m = dp.node(i)
-                    l_ = lb(m, ss, p)
-                    u_ = ub(m, ss, p)
-                    x = np.minimum(x, u_)
-                    x = np.maximum(x, l_)
-                return x
+    for it in range(0, maxit):
 
         z[:, :, :] = 0
 
@@ -127,6 +127,7 @@ def egm(
 
         sa0[...] = sa
         xa0[...] = xa
+        drfut = drit
 
     # resample the result on the standard grid
     endo_grid = grid["endo"]
-- 
2.43.0


From 0d53c8ad591320a88dc2bec13b983cbbd8afad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 081/105] fix: egm returns the rule only when details are not
 requested

---
 dolo/algos/egm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index a44e3e3..e5ebce0 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -138,6 +138,9 @@ def egm(
         np.concatenate([drfut(i, s)[None, :, :] for i in range(n_m)], axis=0)
     )
 
+    if not details:
+        return mdr
+
     sol = EGMResult(mdr, it, dp, (η < η_tol), η_tol, η)
 
     return sol
-- 
2.43.0


From aeacacfe1342e242943d5dcfe6e79c33224f109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 082/105] fix: egm accepts a grid or a discretized process
 alone

---
 dolo/algos/egm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index e5ebce0..d4a7d7d 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -36,8 +36,12 @@ def egm(
 
     p = model.calibration["parameters"]
 
-    if grid is None and dp is None:
-        grid, dp = model.discretize()
+    if grid is None or dp is None:
+        grid_0, dp_0 = model.discretize()
+        if dp is None:
+            dp = dp_0
+        if grid is None:
+            grid = {"endo": grid_0["endo"], "exo": dp.grid}
 
     s = grid["endo"].nodes
 
-- 
2.43.0


From b9d2d38b3c4f53b04cf84768eeba5c613b3e101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 083/105] fix: perfect foresight paths start from the first
 value of an array of shocks, as for other formats

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 9950d55..cad2f13 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -44,8 +44,8 @@ def _shocks_to_epsilons(model, shocks, T):
 
     # until last period, exogenous shock takes its last value
     epsilons = np.zeros((T + 1, n_e))
-    epsilons[: (shocks.shape[0] - 1), :] = shocks[1:, :]
-    epsilons[(shocks.shape[0] - 1) :, :] = shocks[-1:, :]
+    epsilons[: shocks.shape[0], :] = shocks
+    epsilons[shocks.shape[0] :, :] = shocks[-1:, :]
 
     return epsilons
 
-- 
2.43.0


From 61e8325517f194125ab9a27abd1967acae5b7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 084/105] fix: perfect foresight paths start from the initial
 state, not from its transition

---
 dolo/algos/perfect_foresight.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index cad2f13..1592d42 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -166,8 +166,7 @@ def deterministic_solve(
         start_state = find_steady_state(model, m=m0)
         s0 = start_state["states"]
         x0 = start_state["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
+        s1 = np.array(s0)
     else:
         if s0 is None:
             s0 = model.calibration["states"]
@@ -178,10 +177,9 @@ def deterministic_solve(
         # we should probably do something here with the nature of the exogenous process if specified
         # i.e. compute nonlinear irf
         epsilons = _shocks_to_epsilons(model, exogenous, T)
+        epsilons[0, :] = m0
         x0 = model.calibration["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
-        s1 = np.array(s1)
+        s1 = np.array(s0)
 
     x1_g = model.calibration["controls"]  # we can do better here
     sT_g = model.calibration["states"]  # we can do better here
-- 
2.43.0


From 254593cbfbaa47c8f80ef33036955116a2c7ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 085/105] fix: perfect foresight uses the initial state given
 with a path of shocks

---
 dolo/algos/perfect_foresight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 1592d42..58e8e97 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -164,9 +164,9 @@ def deterministic_solve(
         from dolo.algos.steady_state import find_steady_state
 
         start_state = find_steady_state(model, m=m0)
+        s1 = np.array(start_state["states"] if s0 is None else s0)
         s0 = start_state["states"]
         x0 = start_state["controls"]
-        s1 = np.array(s0)
     else:
         if s0 is None:
             s0 = model.calibration["states"]
-- 
2.43.0


From d3679210db7fb2108e17d593307d2677236e6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 086/105] fix: perfect foresight accepts dictionaries of
 initial values

---
 dolo/algos/perfect_foresight.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 58e8e97..a5fb7b1 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -157,6 +157,21 @@ def deterministic_solve(
     n_x = len(model.calibration["controls"])
     p = model.calibration["parameters"]
 
+    # initial values given by name: missing ones are taken from the calibration
+    def by_name(values, group):
+        if not isinstance(values, dict):
+            return values
+        names = model.symbols[group]
+        unknown = [k for k in values if k not in names]
+        if unknown:
+            raise Exception(f"Unknown {group}: {unknown}")
+        return np.array(
+            [values.get(k, v) for (k, v) in zip(names, model.calibration[group])]
+        )
+
+    s0 = by_name(s0, "states")
+    m0 = by_name(m0, "exogenous")
+
     if exogenous is not None:
         epsilons = _shocks_to_epsilons(model, exogenous, T)
         m0 = epsilons[0, :]
-- 
2.43.0


From ad19ccf336829733e45ee636e43225ad5671756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 087/105] fix: perfect foresight passes tolerance and number of
 iterations to the solver without constraints

---
 dolo/algos/perfect_foresight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index a5fb7b1..425a491 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -283,7 +283,9 @@ def deterministic_solve(
         # sol = sol.x.reshape(sh)
         from dolo.numeric.optimize.newton import newton
 
-        sol, nit = newton(ff, v0, jactype="sparse")
+        sol, nit = newton(
+            ff, v0, verbose=verbose, maxit=maxit, tol=tol, jactype="sparse"
+        )
         sol = sol.reshape(sh)
 
     # sol = sol[:-1, :]
-- 
2.43.0


From f026faa20f47df880467c638ab4ddf150566f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 088/105] fix: perfect foresight accepts one of its paths as an
 initial guess

---
 dolo/algos/perfect_foresight.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 425a491..b4e9707 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -212,7 +212,8 @@ def deterministic_solve(
             initial_guess = np.array(
                 initial_guess[model.symbols["states"] + model.symbols["controls"]]
             )
-        initial_guess = initial_guess[1:, :]
+        # the initial steady-state is not part of the solution
+        initial_guess = initial_guess[-(T + 1) :, :]
         initial_guess = initial_guess[:, : n_s + n_x]
 
     sh = initial_guess.shape
-- 
2.43.0


From 32cf99089fc183f756063a519b54df7e11bb2712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 089/105] fix: perfect foresight refuses all bounds which are
 not constant

---
 dolo/algos/perfect_foresight.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index b4e9707..f34c819 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -50,6 +50,15 @@ def _shocks_to_epsilons(model, shocks, T):
     return epsilons
 
 
+def check_constant_bounds(lb, ub):
+
+    for b in [lb, ub]:
+        if not np.isclose(b, b[:1, :], rtol=0, atol=1e-8).all():
+            msg = "Not implemented: perfect foresight solution requires that "
+            msg += "controls have constant bounds."
+            raise Exception(msg)
+
+
 def deterministic_solve(
     model: Model,
     *,  #
@@ -225,12 +234,7 @@ def deterministic_solve(
         lower_bound[:, n_s:] = lb
         upper_bound = initial_guess * 0 + np.inf
         upper_bound[:, n_s:] = ub
-        test1 = max(lb.max(axis=0) - lb.min(axis=0))
-        test2 = max(ub.max(axis=0) - ub.min(axis=0))
-        if test1 > 0.00000001 or test2 > 0.00000001:
-            msg = "Not implemented: perfect foresight solution requires that "
-            msg += "controls have constant bounds."
-            raise Exception(msg)
+        check_constant_bounds(lb, ub)
     else:
         ignore_constraints = True
         lower_bound = None
@@ -272,6 +276,14 @@ def deterministic_solve(
 
         sol = sol.reshape(sh)
 
+        # bounds may also depend on the states
+        check_constant_bounds(
+            *[
+                np.row_stack([b, u(epsilons, sol[:, :n_s], p)])
+                for (b, u) in zip([lb, ub], model.x_bounds)
+            ]
+        )
+
     else:
 
         def ff(vec):
-- 
2.43.0


From 5c6500282f3559f929bdbb81844206f46d565714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 090/105] fix: perfect foresight passes arguments of lmmcp in
 the right order

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index f34c819..a53c829 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -266,10 +266,10 @@ def deterministic_solve(
 
             sol = lmmcp(
                 lambda u: ff(u)[0],
-                lambda u: ff(u)[1].todense(),
+                lambda u: ff(u)[1].toarray(),
+                initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-                initial_guess.ravel(),
                 verbose=verbose,
             )
             nit = -1
-- 
2.43.0


From 096796c1687888aeaa429a72ff31c6e6fe276a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 091/105] fix: bounds cannot substitute for the terminal
 condition of perfect foresight paths

---
 dolo/algos/perfect_foresight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index a53c829..995b43d 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -388,7 +388,7 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
     res[:-1, n_s:] = res_x
 
     res[0, :n_s] = -(guess[0, :n_s] - start)
-    res[-1, n_s:] = -(guess[-1, n_s:] - guess[-2, n_s:])
+    res[-1, n_s:] = guess[-1, n_s:] - guess[-2, n_s:]
 
     if not diff:
         return res
@@ -419,8 +419,8 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
                 # jac[i,:n_s,i+1,n_s:] = SS_x[i,:,:]
                 # jac[i+1,:n_s,i+1,:n_s] = -np.eye(n_s)
             jac[0, :n_s, 0, :n_s] = -np.eye(n_s)
-            jac[-1, n_s:, -1, n_s:] = -np.eye(n_x)
-            jac[-1, n_s:, -2, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -1, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -2, n_s:] = -np.eye(n_x)
             nn = jac.shape[0] * jac.shape[1]
             res = res.ravel()
             jac = jac.reshape((nn, nn))
-- 
2.43.0


From 946c32a5921c5228ef89532d450b77eec1f292c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 092/105] fix: find_steady_state warns when it fails

---
 dolo/algos/steady_state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolo/algos/steady_state.py b/dolo/algos/steady_state.py
index 800fb53..2381af1 100644
--- a/dolo/algos/steady_state.py
+++ b/dolo/algos/steady_state.py
@@ -48,5 +48,10 @@ def find_steady_state(model: Model, *, m=None):
     sol = scipy.optimize.root(fobj, x0)
     res = sol.x
 
+    if not sol.success:
+        import warnings
+
+        warnings.warn(f"Steady-state was not found: {sol.message}")
+
     d = dict(exogenous=m, states=res[:n_s], controls=res[n_s:], parameters=p)
     return CalibrationDict(model.symbols, d)
-- 
2.43.0


From 4eb0b51a6bb76f3dd59707a93520d55d7c3a56d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 093/105] fix: cached functions distinguish arguments which
 have the same hash

---
 dolo/misc/caching.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 37ff9d6..ca492e9 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -16,7 +16,7 @@ class memoized(object):
         targs = (e for e in args)
         hh = tuple(hashable(e) for e in targs)
         h2 = hashable(kargs)
-        h = hash((hh, h2))
+        h = (hh, h2)
         try:
             return self.cache[h]
         except KeyError:
@@ -59,7 +59,7 @@ class cachedondisk(object):
 
         hh = tuple(hashable(e) for e in args)
         h2 = hashable(kargs)
-        h = hash((hh, h2))
+        h = digest((hh, h2))
         try:
             with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
                 value = pickle.load(f)
@@ -112,7 +112,7 @@ class DiskDictionary:
         import pickle
 
         hh = tuple(hashable(k) for k in key)
-        h = hash(hh)
+        h = digest(hh)
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
@@ -142,13 +142,26 @@ import collections
 
 
 def hashable(obj):
+    """Returns a hashable key, which identifies the value of obj."""
+    kind = type(obj).__name__
     if hasattr(obj, "flatten"):  # for numpy arrays
-        return tuple(obj.flatten().tolist())
+        values = tuple([hashable(item) for item in obj.flatten().tolist()])
+        return (kind, str(obj.dtype), obj.shape, values)
+    if isinstance(obj, collections.abc.Mapping):
+        items = [(hashable(k), hashable(v)) for (k, v) in obj.items()]
+        return (kind, tuple(sorted(items, key=repr)))
+    if isinstance(obj, collections.abc.Set):
+        return (kind, tuple(sorted([hashable(item) for item in obj], key=repr)))
+    if isinstance(obj, (list, tuple)):
+        return (kind, tuple([hashable(item) for item in obj]))
     if isinstance(obj, collections.abc.Hashable):
         return obj
-    if isinstance(obj, collections.abc.Mapping):
-        items = [(k, hashable(v)) for (k, v) in obj.items()]
-        return frozenset(items)
-    if isinstance(obj, collections.abc.Iterable):
-        return tuple([hashable(item) for item in obj])
-    return TypeError(type(obj))
+    raise TypeError(type(obj))
+
+
+def digest(key):
+    """Returns a text which identifies a hashable key, in all processes."""
+    import hashlib
+    import pickle
+
+    return hashlib.md5(pickle.dumps(key)).hexdigest()
-- 
2.43.0


From fc5e68c05da091628242d190f84c57bfc87f5487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 094/105] fix: cached functions are evaluated when their
 arguments cannot be cached

---
 dolo/misc/caching.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index ca492e9..a036598 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -13,20 +13,21 @@ class memoized(object):
 
     def __call__(self, *args, **kargs):
 
-        targs = (e for e in args)
-        hh = tuple(hashable(e) for e in targs)
-        h2 = hashable(kargs)
-        h = (hh, h2)
+        try:
+            hh = tuple(hashable(e) for e in args)
+            h2 = hashable(kargs)
+            h = (hh, h2)
+            hash(h)
+        except TypeError:
+            # uncachable -- for instance, passing a generator as an argument.
+            # Better to not cache than to blow up entirely.
+            return self.func(*args, **kargs)
         try:
             return self.cache[h]
         except KeyError:
             value = self.func(*args, **kargs)
             self.cache[h] = value
             return value
-        except TypeError:
-            # uncachable -- for instance, passing a list as an argument.
-            # Better to not cache than to blow up entirely.
-            return self.func(*args, **kargs)
 
     def __repr__(self):
         """Return the function's docstring."""
@@ -57,9 +58,14 @@ class cachedondisk(object):
     def __call__(self, *args, **kargs):
         import pickle
 
-        hh = tuple(hashable(e) for e in args)
-        h2 = hashable(kargs)
-        h = digest((hh, h2))
+        try:
+            hh = tuple(hashable(e) for e in args)
+            h2 = hashable(kargs)
+            h = digest((hh, h2))
+        except (TypeError, AttributeError, pickle.PicklingError):
+            # uncachable -- for instance, passing a function as an argument.
+            # Better to not cache than to blow up entirely.
+            return self.func(*args, **kargs)
         try:
             with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
                 value = pickle.load(f)
@@ -71,10 +77,6 @@ class cachedondisk(object):
                 with open(".cache/{0}.{1}.pickle".format(self.fname, h), "wb") as f:
                     pickle.dump(value, f)
             return value
-        except TypeError:
-            # uncachable -- for instance, passing a list as an argument.
-            # Better to not cache than to blow up entirely.
-            return self.func(*args, **kargs)
 
     def __repr__(self):
         """Return the function's docstring."""
-- 
2.43.0


From eae5af4b0ddc72eeb14a33b77df4941f720f00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 095/105] fix: functions with the same name do not share their
 values cached on disk

---
 dolo/misc/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index a036598..024f47f 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -61,7 +61,7 @@ class cachedondisk(object):
         try:
             hh = tuple(hashable(e) for e in args)
             h2 = hashable(kargs)
-            h = digest((hh, h2))
+            h = digest((self.func.__module__, self.func.__qualname__, hh, h2))
         except (TypeError, AttributeError, pickle.PicklingError):
             # uncachable -- for instance, passing a function as an argument.
             # Better to not cache than to blow up entirely.
-- 
2.43.0


From 3be860aee3c60e47007fc75e889dac47ce852542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 096/105] fix: values cached on disk survive interrupted
 writes, unreadable files and missing directories

---
 dolo/misc/caching.py | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 024f47f..482c2c4 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -66,17 +66,20 @@ class cachedondisk(object):
             # uncachable -- for instance, passing a function as an argument.
             # Better to not cache than to blow up entirely.
             return self.func(*args, **kargs)
+        filename = ".cache/{0}.{1}.pickle".format(self.fname, h)
         try:
-            with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
-                value = pickle.load(f)
-            return value
-        except IOError:
-            value = self.func(*args, **kargs)
-            if value is not None:  # should there be other kinds of error values
-                # write file with h
-                with open(".cache/{0}.{1}.pickle".format(self.fname, h), "wb") as f:
-                    pickle.dump(value, f)
-            return value
+            return read_value(filename)
+        except Exception:
+            # missing or unreadable file
+            pass
+        value = self.func(*args, **kargs)
+        if value is not None:  # should there be other kinds of error values
+            try:
+                write_value(filename, value)
+            except Exception:
+                # the value cannot be stored
+                pass
+        return value
 
     def __repr__(self):
         """Return the function's docstring."""
@@ -87,6 +90,27 @@ class cachedondisk(object):
         return functools.partial(self.__call__, obj)
 
 
+def read_value(filename):
+    import pickle
+
+    with open(filename, "rb") as f:
+        return pickle.load(f)
+
+
+def write_value(filename, value):
+    """Writes a file at once: it is never seen incomplete."""
+
+    import os
+    import pickle
+    import threading
+
+    data = pickle.dumps(value)
+    temp = "{0}.{1}.{2}.tmp".format(filename, os.getpid(), threading.get_ident())
+    with open(temp, "wb") as f:
+        f.write(data)
+    os.replace(temp, filename)
+
+
 def clear_cache(function_name=None):
 
     import os
-- 
2.43.0


From c8666f42e185d7eea711e94846adf022cfc877de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 097/105] fix: DiskDictionary stores and retrieves its values

---
 dolo/misc/caching.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 482c2c4..c259942 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -135,32 +135,18 @@ class DiskDictionary:
         self.directory = directory
 
     def get_filename(self, key):
-        import pickle
-
         hh = tuple(hashable(k) for k in key)
         h = digest(hh)
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
     def __setitem__(self, key, value):
-        import pickle
-
-        filename = self.get_filename(key)
-        try:
-            with open(filename, "w") as f:
-                pickle.dump(value, f)
-        except TypeError as e:
-            raise e
+        write_value(self.get_filename(key), value)
 
     def get(self, item):
-        import pickle
-
-        filename = self.get_filename(item)
         try:
-            with open(filename) as f:
-                value = pickle.load(f)
-                return value
-        except:
+            return read_value(self.get_filename(item))
+        except Exception:
             return None
 
 
-- 
2.43.0


From aa81fcc34fe939de3764cd3002dd7e7e803b1e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 098/105] fix: multimethods accept generic types with recent
 versions of python

---
 dolo/misc/multimethod.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index 2608d85..90a165b 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -72,16 +72,16 @@ class subtype(type):
         if isinstance(self.__origin__, abc.ABCMeta):
             self.__origin__.register(self)
 
-    def __getstate__(self):
-        return self.__origin__, self.__args__
-
+    # object.__getstate__ takes precedence over a method of the metaclass
     def __eq__(self, other):
         return (
-            isinstance(other, subtype) and self.__getstate__() == other.__getstate__()
+            isinstance(other, subtype)
+            and self.__origin__ == other.__origin__
+            and self.__args__ == other.__args__
         )
 
     def __hash__(self):
-        return hash(self.__getstate__())
+        return hash((self.__origin__, self.__args__))
 
     def __subclasscheck__(self, subclass):
         origin = getattr(
-- 
2.43.0


From 3eba85c915e5b340e2deaf451b4ca1e073929126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 099/105] fix: methods of a multimethod can be registered for a
 single class

---
 dolo/misc/multimethod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index 90a165b..10b11d3 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -144,7 +144,11 @@ class multimethod(dict):
 
         Optionally call with types to return a decorator for unannotated functions.
         """
-        if len(args) == 1 and hasattr(args[0], "__annotations__"):
+        if (
+            len(args) == 1
+            and not isinstance(args[0], type)  # all classes can have annotations
+            and hasattr(args[0], "__annotations__")
+        ):
             return overload.register(self, *args)
         return lambda func: self.__setitem__(args, func) or func
 
-- 
2.43.0


From e9d0db7c229245d3449b61223e500284d4b714cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 100/105] fix: blocks of equations which do not define their
 variables in order are refused

---
 dolo/compiler/factories.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dolo/compiler/factories.py b/dolo/compiler/factories.py
index 77de480..8510278 100644
--- a/dolo/compiler/factories.py
+++ b/dolo/compiler/factories.py
@@ -48,6 +48,21 @@ def shift_spec(specs, tshift):
     return ss
 
 
+def check_assignments(model, eq_type, eqs, targets):
+    """Checks that a block of equations defines all its variables in declaration order"""
+
+    es = Sanitizer(variables=model.variables)
+    lhs = [
+        str_expression(es.transform(parse_string(eq.split("=")[0].strip())))
+        for eq in eqs
+    ]
+    expected = [f"{s}[t]" if d == 0 else f"{s}[t{d:+}]" for (s, d) in targets]
+    if lhs != expected:
+        raise Exception(
+            f"Block '{eq_type}' must define {expected} in this order. Found: {lhs}"
+        )
+
+
 def get_factory(model, eq_type: str, tshift: int = 0):
 
     from dolo.compiler.model import decode_complementarity
@@ -101,6 +116,7 @@ def get_factory(model, eq_type: str, tshift: int = 0):
     if "target" in specs:
         sg = specs["target"]
         targets = [(s, sg[1]) for s in model.symbols[sg[0]]]
+        check_assignments(model, eq_type, eqs, [(s, d - tshift) for (s, d) in targets])
         eqs = [eq.split("=")[1] for eq in eqs]
     else:
         eqs = [
-- 
2.43.0


From 8fe8c679c24e953d67242c5ea47e647d35965a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 101/105] fix: models without one arbitrage equation per
 control are refused

---
 dolo/compiler/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 27a9aa5..a35647a 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -99,6 +99,11 @@ class SymbolicModel:
 
                         # syms = list_symbols(eq)
                         ll.append(str_expression(eq))
+                    controls = self.symbols["controls"]
+                    if len(ll) != len(controls):
+                        raise Exception(
+                            f"There must be one arbitrage equation per control {controls}. Found {len(ll)} equations."
+                        )
                     d[g] = ll
                     if with_complementarity:
                         d[g + "_lb"] = ll_lb
-- 
2.43.0


From b6195041ff778a71427d1c88b1232dcf54a944d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 102/105] fix: models which declare a symbol several times are
 refused

---
 dolo/compiler/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index a35647a..c19f9c1 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -22,6 +22,11 @@ class SymbolicModel:
             for sg in self.data["symbols"].keys():
                 symbols[sg] = [s.value for s in self.data["symbols"][sg]]
 
+            declared = sum([symbols[sg] for sg in symbols.keys()], [])
+            repeated = [s for i, s in enumerate(declared) if s in declared[:i]]
+            if len(repeated) > 0:
+                raise Exception(f"Symbols declared several times: {repeated}.")
+
             self.__symbols__ = symbols
 
             # the following call adds auxiliaries (tricky, isn't it?)
-- 
2.43.0


From f3817bc8af0882ba32610b6745698ef411551a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 103/105] fix: definitions of declared symbols are refused

---
 dolo/compiler/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index c19f9c1..f761c9c 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -150,6 +150,7 @@ class SymbolicModel:
                 [basic_symbols[k] for k in basic_symbols.keys() if k != "parameters"],
                 [],
             )
+            declared = sum([basic_symbols[k] for k in basic_symbols.keys()], [])
 
             # # auxiliaries = [remove_timing(parse_string(k)) for k in self.data.get('definitions', {})]
             # # auxiliaries = [str_expression(e) for e in auxiliaries]
@@ -180,7 +181,7 @@ class SymbolicModel:
                     tok_date: Token = lhs.children[1].children[0]
                     name = tok_name.value
                     date = int(tok_date.value)
-                    if name in vars:
+                    if name in vars or name in declared:
                         raise Exception(
                             f"definitions:{tok_name.line}:{tok_name.column}: Auxiliary variable '{name}'' already defined."
                         )
@@ -224,6 +225,11 @@ class SymbolicModel:
                     for k in self.data.get("definitions", {})
                 ]
                 auxiliaries = [str_expression(e) for e in auxiliaries]
+                for name in auxiliaries:
+                    if name in declared:
+                        raise Exception(
+                            f"definitions: Auxiliary variable '{name}' already defined."
+                        )
                 self.__symbols__["auxiliaries"] = auxiliaries
                 vars = self.variables
                 auxs = []
-- 
2.43.0


From 560e22db80d0260827964d8740766fd9e91abc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 104/105] fix: exogenous processes out of order are reported as
 such

---
 dolo/compiler/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index f761c9c..3cf1609 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -440,9 +440,9 @@ class SymbolicModel:
             if tuple(syms) != ssyms:
                 from dolang.language import ModelError
 
-                lc = exo.lc
+                lc = exo.start_mark
                 raise ModelError(
-                    f"{lc.line}:{lc.col}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
+                    f"{lc.line}:{lc.column}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
                 )
 
             return ProductProcess(*exogenous.values())
-- 
2.43.0


From 083fba94ac776c3cd1d6e6f0fe7cc7d906872707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 105/105] fix: exogenous processes of the wrong dimension are
 refused

---
 dolo/compiler/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 3cf1609..0de0832 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -445,6 +445,13 @@ class SymbolicModel:
                     f"{lc.line}:{lc.column}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
                 )
 
+            for k, process in exogenous.items():
+                n_k = len(k.split(","))
+                if process.d != n_k:
+                    raise Exception(
+                        f"exogenous: process for '{k}' must have dimension {n_k}. Found {process.d}."
+                    )
+
             return ProductProcess(*exogenous.values())
 
     @property
-- 
2.43.0

