From 47e23b81cc8fd501a9386ab1be33b7914ab8d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/14] fix: Polyhedron.contains must bound every equality
 residual and handle no inequalities

---
 pympc/geometry/polyhedron.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index aa5f3e8..0ea7ff8 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -593,12 +593,10 @@ class Polyhedron(object):
         """
 
         # check inequalities
-        in_ineq = np.max(self.A.dot(x) - self.b) <= tol
+        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
 
         # check equalities
-        in_eq = True
-        if self.C.shape[0] > 0:
-            in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol
+        in_eq = np.all(np.abs(self.C.dot(x) - self.d) <= tol)
         contains_x = in_ineq and in_eq
 
         return contains_x
-- 
2.43.0


From 771984e8bdb8d24689111531e48441d1953f7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 02/14] fix: selection matrix must follow the order of the
 given indices

---
 pympc/geometry/polyhedron.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 0ea7ff8..b1eb7dd 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -230,9 +230,8 @@ class Polyhedron(object):
         if indices is None:
             indices = range(n)
 
-        # delete from the identity matrix all the rows that are not in indices
-        complement = [i for i in range(n) if i not in indices]
-        S = np.delete(np.eye(n), complement, 0)
+        # select from the identity matrix the rows in indices (in the given order)
+        S = np.eye(n)[list(indices)]
 
         return S
 
-- 
2.43.0


From b0d062f459cc9c3aa65cfabd368cedd7d607d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 03/14] fix: Chebyshev center of an unbounded polyhedron with
 equalities is None

---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index b1eb7dd..4abc1b5 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -758,7 +758,7 @@ class Polyhedron(object):
             center = center[:-1]
 
         # go back to the original coordinates in case of equalities
-        if self.C.shape[0] > 0:
+        if center is not None and self.C.shape[0] > 0:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
             center = np.hstack((N, R)).dot(np.concatenate((center, r)))
 
-- 
2.43.0


From 73aa9f3b7a8d07b3f0a21e66895840c57ce73f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 04/14] fix: convex hull method rescales the facet offset, not
 the caller's right-hand side

---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 4abc1b5..580ce77 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1104,8 +1104,8 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             a = hull.equations[i, :-1]
             d = - hull.equations[i, -1]
             a_norm = np.linalg.norm(a)
-            a /= a_norm
-            b /= a_norm
+            a = a / a_norm
+            d = d / a_norm
 
             # check if the direction a has been explored so far
             is_explored = any((np.allclose(a, a2) for a2 in a_explored))
-- 
2.43.0


From f47080984237a0d22bfc7731b9c2d85d30069c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 05/14] fix: normalize must not truncate integer matrices nor
 modify arrays shared with the caller

---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 580ce77..1a45f11 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -385,6 +385,10 @@ class Polyhedron(object):
             Threshold value for the norm of the rows of A and C under which the related inequality (or equality) is not normalized.
         """
 
+        # work on copies of floats (to not modify arrays shared with other objects)
+        self.A, self.b = self.A.astype(float), self.b.astype(float)
+        self.C, self.d = self.C.astype(float), self.d.astype(float)
+
         # inequalities
         for i in range(self.A.shape[0]):
             r = np.linalg.norm(self.A[i])
-- 
2.43.0


From 5f72407e7acc860cc52a787fa5236e8837490e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 06/14] fix: is_included_in must answer for empty and unbounded
 polyhedra

---
 pympc/geometry/polyhedron.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 1a45f11..600d30e 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -630,12 +630,15 @@ class Polyhedron(object):
         A2 = np.vstack((P2.A, P2.C, -P2.C))
         b2 = np.concatenate((P2.b, P2.d, -P2.d))
 
-        # check inclusion, one facet per time
+        # the empty set is included in any other set
+        if P1.empty:
+            return True
+
+        # check inclusion, one facet per time (no minimum if P1 is unbounded in the direction of the facet)
         included = True
         for i in range(A2.shape[0]):
             sol = linear_program(-A2[i], P1.A, P1.b)
-            penetration = - sol['min'] - b2[i]
-            if penetration > tol:
+            if sol['min'] is None or - sol['min'] - b2[i] > tol:
                 included = False
                 break
 
-- 
2.43.0


From 2e1938fe366d4c2d4ed0453e50a5272323b41339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 07/14] fix: is_well_posed must answer for domains with
 unbounded intersection

---
 pympc/dynamics/discrete_time_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 7c59708..0e1d464 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -575,8 +575,8 @@ class PieceWiseAffineSystem(object):
             for j in range(i+1, self.nm):
                 Dij = Di.intersection(self.domains[j])
 
-                # check the Chebyshev radius of the intersection
-                if Dij.radius > tol:
+                # check the Chebyshev radius of the intersection (None if a ball of any size fits in it)
+                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                     return False
 
         return True
-- 
2.43.0


From 07c0a54d32bffbe07c514df3bcb491f16e58aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 08/14] fix: same_rows must not modify its inputs and must
 accept repeated rows

---
 pympc/geometry/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index ca1dc4a..969dce8 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -117,16 +117,15 @@ def same_rows(A, B, normalize=True):
 
     # if required, normalize
     if normalize:
-        for i in range(A.shape[0]):
-            A[i] = A[i] / np.linalg.norm(A[i])
-            B[i] = B[i] / np.linalg.norm(B[i])
+        A = A / np.linalg.norm(A, axis=1, keepdims=True)
+        B = B / np.linalg.norm(B, axis=1, keepdims=True)
 
     # check one row per time
     for a in A:
         i = np.where([np.allclose(a, b) for b in B])[0]
-        if len(i) != 1:
+        if len(i) == 0:
             return False
-        B = np.delete(B, i, 0)
+        B = np.delete(B, i[0], 0)
 
     return True
 
-- 
2.43.0


From 56fd9e5bde9a1c3556b3eee49a4e9d56de3cd5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 09/14] fix: linear and quadratic programs without constraints
 must not fail in nnls

---
 pympc/optimization/solvers/pnnls.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index c8b7d44..3929eaf 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -1,6 +1,31 @@
 # external imports
 import numpy as np
-from scipy.optimize import nnls
+from scipy.optimize import nnls as scipy_nnls
+
+def nnls(A, b):
+    """
+    Calls scipy's nnls, which does not handle problems without variables (i.e. programs without constraints).
+
+    Arguments
+    ----------
+    A : numpy.ndarray
+        Coefficient matrix.
+    b : numpy.ndarray
+        Right-hand side vector.
+
+    Returns
+    ----------
+    x : numpy.ndarray
+        Minimizer of || A x - b || over x >= 0.
+    r : float
+        Norm of the residual.
+    """
+
+    # no variables, the residual is b
+    if A.shape[1] == 0:
+        return np.zeros(0), np.linalg.norm(b)
+
+    return scipy_nnls(A, b)
 
 def pnnls(A, B, c):
     """
-- 
2.43.0


From 40584e336e2aab110566f83fca5efccd5e88eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 10/14] fix: vertices of an empty polyhedron without Chebyshev
 center are None

---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 600d30e..a445f48 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -793,7 +793,7 @@ class Polyhedron(object):
 
         # check full dimensionality
         tol = 1.e-7
-        if self.radius < tol:
+        if self.radius is None or self.radius < tol:
             return None
 
         # handle equalities
-- 
2.43.0


From 6c52afdc7705f4f2d1107b5e9dfb86aaf68f45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:06 +0000
Subject: [PATCH 11/14] fix: nullspace of a matrix without rows is the whole
 space

---
 pympc/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index 969dce8..4ca6ead 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -20,7 +20,7 @@ def nullspace_basis(A):
     V = np.linalg.svd(A)[2].T
 
     # cut to the dimension of the rank
-    rank = np.linalg.matrix_rank(A)
+    rank = np.linalg.matrix_rank(A) if A.shape[0] > 0 else 0
     Z = V[:,rank:]
 
     return Z
-- 
2.43.0


From 38dd7b048589985aa0240ceec2176a565161eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 12/14] fix: inequalities that are constant on the affine space
 of the equalities are redundant

---
 pympc/geometry/polyhedron.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index a445f48..b2467f4 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -446,8 +446,9 @@ class Polyhedron(object):
             # solve linear program
             sol = linear_program(-E[i], E_minimal, f_relaxed)
 
-            # remove redundant facets from the list
-            if  - sol['min'] - f[i] < tol:
+            # remove redundant facets from the list (also those that are constant once the equalities are enforced)
+            is_constant = np.linalg.norm(E[i]) <= tol * np.linalg.norm(self.A[i])
+            if is_constant or - sol['min'] - f[i] < tol:
                 minimal_facets.remove(i)
 
         return minimal_facets
-- 
2.43.0


From 09c537daa0d61b4efb4e80caea3d680430d5205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:12 +0000
Subject: [PATCH 13/14] fix: facet_center of a critical region dropped to a
 point outside of the facet by the rounding of its own inequality

The inequality of the facet was kept next to the equality; restricted to the
facet it is a row of rounding errors, which the Chebyshev program normalizes
into a spurious constraint.
---
 pympc/optimization/parametric_programs.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 1c39c27..8ad7653 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -1,7 +1,6 @@
 # external imports
 import numpy as np
 from scipy.linalg import block_diag
-from copy import copy
 
 # internal inputs
 from pympc.geometry.polyhedron import Polyhedron
@@ -337,11 +336,16 @@ class CriticalRegion(object):
         if self.polyhedron.A.shape[1] == 1:
             return self.polyhedron.b.flatten()[i] / self.polyhedron.A[i][0]
 
-        # add an equality to the original polyhedron
-        facet = copy(self.polyhedron)
+        # substitute the inequality with an equality (kept as an inequality, it would reduce to a row of rounding errors)
+        facet = Polyhedron(
+            np.delete(self.polyhedron.A, i, 0),
+            np.delete(self.polyhedron.b, i, 0),
+            self.polyhedron.C,
+            self.polyhedron.d
+            )
         facet.add_equality(
-            facet.A[i:i+1, :],
-            facet.b[i:i+1]
+            self.polyhedron.A[i:i+1, :],
+            self.polyhedron.b[i:i+1]
             )
 
         return facet.center
-- 
2.43.0


From 79b0be66cdae9cc2a84e58cd7a8bb06fdb0b041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:33 +0000
Subject: [PATCH 14/14] fix: Chebyshev ball ignores the rows that are constant
 on the affine space of the equalities

The rounding errors left in such a row were normalized by the program, and radius and center
were wrong for any polyhedron with an inequality implied by its equalities.
---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index b2467f4..d845d19 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -748,6 +748,10 @@ class Polyhedron(object):
         # project in case of equalities
         if self.C.shape[0] > 0:
             A, b, N, R = self._remove_equalities()
+
+            # cancel the rows that are constant once the equalities are enforced (rounding errors)
+            is_constant = np.linalg.norm(A, axis=1) <= 1.e-10 * np.linalg.norm(self.A, axis=1)
+            A[is_constant] = 0.
         else:
             A = self.A
             b = self.b
-- 
2.43.0

