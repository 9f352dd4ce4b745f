From b37bd50abc9b4c14a4e92e45753305c35b48fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 01/16] fix: use the third invariant in its own
 second-derivative term of the invariants framework

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index b392a47..9642ce8 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -223,7 +223,7 @@ class Invariants:
             d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
 
         if d2WdI3dI3 is not None:
-            d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
+            d2WdCdC = d2WdCdC + d2WdI3dI3 * dya(dI3dC, dI3dC)
 
         if d2WdI1dI2 is not None:
             d2WdCdC = d2WdCdC + d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))
-- 
2.43.0


From a4d1db89fd5fe004867d080dfc889d40c394dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 02/16] fix: second derivatives of the third generalized
 invariant are strains, not indices

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index d63c12b..91f4ae5 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -319,7 +319,7 @@ class GeneralizedInvariantsModel:
             d2WdEαdEβ[3:] += self.dWdI2 * d2I2dEαdEβ
 
         if self.dWdI3 is not None:
-            d2I3dEαdEβ = Eγ
+            d2I3dEαdEβ = self.E[Eγ]
             d2WdEαdEβ[3:] += self.dWdI3 * d2I3dEαdEβ
 
         # in-place modification (avoid the creation of a new array)
-- 
2.43.0


From b6482e05d5d6993d0c88c4eb7f726447044da598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 03/16] fix: TorchModel hessian of an energy which is linear in
 an invariant

---
 src/hyperelastic/models/invariants/_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 88aa75c..d3dbe7e 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -45,7 +45,7 @@ class TorchModel:
         import torch
 
         out = None
-        if hasattr(fun, "grad_fn"):
+        if getattr(fun, "grad_fn", None) is not None:
             out = torch.autograd.grad(
                 fun.sum(), x, allow_unused=allow_unused, **kwargs
             )[0]
-- 
2.43.0


From 50a726ad7bc6f6c6f3b4d3676563286a28c22752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 04/16] fix: TorchModel accepts invariants without trailing
 axes

---
 src/hyperelastic/models/invariants/_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index d3dbe7e..76126d7 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -59,7 +59,8 @@ class TorchModel:
 
         import torch
 
-        tensors = [torch.Tensor(arg) for arg in args]
+        dtype = torch.get_default_dtype()
+        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
-- 
2.43.0


From d72fc4761360286b8008d93ec4968e43ed3f77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 05/16] fix: TorchModel keeps the graph between the derivatives
 of one energy

---
 src/hyperelastic/models/invariants/_torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 76126d7..64e79ce 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -73,7 +73,7 @@ class TorchModel:
         tensor=False,
         numpy=True,
         create_graph=False,
-        retain_graph=False,
+        retain_graph=True,
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
@@ -94,7 +94,7 @@ class TorchModel:
         )
 
         return [
-            self._grad(f, x, numpy=numpy)
+            self._grad(f, x, numpy=numpy, retain_graph=True)
             for f, x in zip(
                 [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
             )
-- 
2.43.0


From 38af944f2cd6934c777661550edc00064186db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 06/16] fix: the dilatational space evaluates the material at
 the dilatational deformation

---
 src/hyperelastic/spaces/_dilatational.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_dilatational.py b/src/hyperelastic/spaces/_dilatational.py
index e4c0fe9..b697941 100644
--- a/src/hyperelastic/spaces/_dilatational.py
+++ b/src/hyperelastic/spaces/_dilatational.py
@@ -19,7 +19,7 @@ class Dilatational(Space):
 
         self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
         self.I3 = det(self.C)
-        self.Co = self.I3 ** (1 / 3) * self.C
+        self.Co = self.I3 ** (1 / 3) * eye(self.C)
         dWodCo, statevars_new = self.material.gradient(self.Co, statevars)
 
         self.Sb = 2 * self.I3 ** (1 / 3) * dWodCo
-- 
2.43.0


From 8185b90f58b6fc346be4cbdb4c5f9a540557707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 07/16] fix: keep the tangent of the distortional space for
 small elastic moduli

---
 src/hyperelastic/spaces/_distortional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_distortional.py b/src/hyperelastic/spaces/_distortional.py
index 2cc4928..6eea01b 100644
--- a/src/hyperelastic/spaces/_distortional.py
+++ b/src/hyperelastic/spaces/_distortional.py
@@ -191,7 +191,7 @@ class Distortional(Space):
 
         C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)
 
-        if not np.allclose(C4b, 0):
+        if np.any(C4b):
             C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
 
         return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]
-- 
2.43.0


From d655a2a537cbce0a4bb1c29277c536cb41cbe074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 08/16] fix: broadcast constant responses for an undeformed
 force configuration

---
 src/hyperelastic/spaces/_space.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hyperelastic/spaces/_space.py b/src/hyperelastic/spaces/_space.py
index 55ef55b..efdcfb7 100644
--- a/src/hyperelastic/spaces/_space.py
+++ b/src/hyperelastic/spaces/_space.py
@@ -56,15 +56,15 @@ class Space:
             if self.finalize:
                 stress = astensor(stress)
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array stress must be broadcasted
-                    new_shape = np.broadcast_shapes(F.shape, stress.shape)
+                # check if destination array stress must be broadcasted
+                new_shape = np.broadcast_shapes(F.shape, stress.shape)
 
-                    if not np.allclose(new_shape, stress.shape):
-                        # broadcast stress and make a writable contiguous copy
-                        stress = np.broadcast_to(stress, new_shape).copy()
+                if not np.allclose(new_shape, stress.shape):
+                    # broadcast stress and make a writable contiguous copy
+                    stress = np.broadcast_to(stress, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)
 
                 # area --> deformed configuration
@@ -88,15 +88,15 @@ class Space:
                 elasticity = astensor(elasticity, 4)
                 I3 = None
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array elasticity must be broadcasted
-                    new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
+                # check if destination array elasticity must be broadcasted
+                new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
 
-                    if not np.allclose(new_shape, elasticity.shape):
-                        # broadcast elasticity and make a writable contiguous copy
-                        elasticity = np.broadcast_to(elasticity, new_shape).copy()
+                if not np.allclose(new_shape, elasticity.shape):
+                    # broadcast elasticity and make a writable contiguous copy
+                    elasticity = np.broadcast_to(elasticity, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     elasticity = self.einsum(
                         "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                     )
-- 
2.43.0


From b5ec06e53032029bbf19a2a1ef34e0ed5af06d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 09/16] fix: the hessian of a framework passes the given state
 variables to the material

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 src/hyperelastic/frameworks/_stretches.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 9642ce8..8ff22d7 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -186,7 +186,7 @@ class Invariants:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         (
             d2WdI1dI1,
             d2WdI2dI2,
diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 9f4c10c..7280772 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -140,7 +140,7 @@ class Stretches:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
         if not isinstance(d2Wdλdλ, np.ndarray):
-- 
2.43.0


From 327dd1181757a0261c5a4e225b6260e9c0b7c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 10/16] fix: Optimize keeps its own floating-point copy of the
 initial parameters

---
 src/hyperelastic/lab/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index 5751586..fde06eb 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -156,7 +156,7 @@ class Optimize:
 
         self.experiments = experiments
         self.simulations = simulations
-        self.parameters = parameters
+        self.parameters = np.array(parameters, dtype=float)
         self.mask = mask
 
         if self.mask is None:
-- 
2.43.0


From 885a3e30425d5e411da427847113fabbdb699e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 11/16] fix: the inverse of an integer-valued tensor

---
 src/hyperelastic/math/_voigt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 1c3a940..af1f997 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -424,7 +424,8 @@ def inv(A, determinant=None, out=None):
 
     """
 
-    detAinvA = np.zeros_like(A)
+    # ensure a floating-point array (in-place operations)
+    A = np.asarray(A, dtype=np.result_type(A, 1.0))
 
     if determinant is None:
         detA = det(A)
-- 
2.43.0


From d6012f1a6f4a9f901d93e1379d528351650d238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 12/16] fix: the crossed-dyadic product of integer-valued
 tensors

---
 src/hyperelastic/math/_voigt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index af1f997..15011a1 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -930,7 +930,9 @@ def cdya(A, B, out=None):
     if out is None:
         out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))
 
-    A, B = np.broadcast_arrays(A, B)
+    # ensure floating-point arrays (in-place operations)
+    dtype = np.result_type(A, B, 1.0)
+    A, B = np.broadcast_arrays(np.asarray(A, dtype=dtype), np.asarray(B, dtype=dtype))
     Aik, Bjl, Ail, Bkj = A[ik], B[jl], A[il], B[kj]
 
     values = np.multiply(Aik, Bjl, out=Aik) + np.multiply(Ail, Bkj, out=Ail)
-- 
2.43.0


From 0b285986809e940b04215b43127ad4dd97ae084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 13/16] fix: examples of the documentation import all the names
 they use

---
 src/hyperelastic/lab/_optimize.py | 1 +
 src/hyperelastic/math/_voigt.py   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index fde06eb..51b7906 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -45,6 +45,7 @@ class Optimize:
     are scaled from the synthetic uniaxial experimental data to the other (synthetic)
     experiments.
 
+    >>> import hyperelastic
     >>> from hyperelastic import lab
 
     >>> experiments = [
diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 15011a1..e591d52 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -310,7 +310,7 @@ def transpose(A):
 
     Examples
     --------
-    >>> from hyperelastic.math import asvoigt, dya, transpose
+    >>> from hyperelastic.math import asvoigt, astensor, dya, transpose
     >>> import numpy as np
 
     >>> A = np.array([1.0, 1.3, 1.5, 1.3, 1.1, 1.4, 1.5, 1.4, 1.2]).reshape(3, 3)
@@ -410,7 +410,7 @@ def inv(A, determinant=None, out=None):
 
     Examples
     --------
-    >>> from hyperelastic.math import asvoigt, inv
+    >>> from hyperelastic.math import asvoigt, dot, inv
     >>> import numpy as np
 
     >>> A = np.array([1.0, 1.3, 1.5, 1.3, 1.1, 1.4, 1.5, 1.4, 1.2]).reshape(3, 3)
-- 
2.43.0


From 3c97771713f7abbf1edc9ab5a5a4bc3148b1a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:58 +0000
Subject: [PATCH 14/16] fix: gradient of a torch strain energy which is one of
 the invariants itself

---
 src/hyperelastic/models/invariants/_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 64e79ce..adac11e 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -45,7 +45,7 @@ class TorchModel:
         import torch
 
         out = None
-        if getattr(fun, "grad_fn", None) is not None:
+        if getattr(fun, "requires_grad", False):
             out = torch.autograd.grad(
                 fun.sum(), x, allow_unused=allow_unused, **kwargs
             )[0]
-- 
2.43.0


From 1c1b4add602ac1e3ea32701d489d9c44f4dbb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:58 +0000
Subject: [PATCH 15/16] fix: further results of curve-fit (full output) in the
 optimization

---
 src/hyperelastic/lab/_optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index 51b7906..bb518e4 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -203,7 +203,9 @@ class Optimize:
 
         p0 = self.init_curve_fit(*args, **kwargs)
 
-        popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)
+        popt, pcov, *more = concatenate_curve_fit(
+            self.f, self.x, self.y, p0, *args, **kwargs
+        )
         fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])
 
         self.parameters[:] = popt
@@ -213,7 +215,7 @@ class Optimize:
         for simulation in self.simulations:
             simulation.parameters[:] = self.parameters
 
-        return self.parameters, pcov
+        return (self.parameters, pcov, *more)
 
     def plot(self, title=None):
         fig, ax = plt.subplots()
-- 
2.43.0


From 8188606b0f7873b58a8bc445797b4319ae0d6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:25 +0000
Subject: [PATCH 16/16] fix: displacement and force of an experiment given as
 lists or tuples

---
 src/hyperelastic/lab/_experiment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_experiment.py b/src/hyperelastic/lab/_experiment.py
index f3cfaa4..5ba7b12 100644
--- a/src/hyperelastic/lab/_experiment.py
+++ b/src/hyperelastic/lab/_experiment.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from ._plotting import LabPlotter
 
 
@@ -61,8 +63,8 @@ class Experiment(LabPlotter):
         super().__init__()
 
         self.label = label
-        self.displacement = displacement
-        self.force = force
+        self.displacement = np.asanyarray(displacement)
+        self.force = np.asanyarray(force)
         self.area = area
         self.length = length
         self.time = time
-- 
2.43.0

