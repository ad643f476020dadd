From 185403ead2a448e74d911f4f587f4c8dd40094c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:53 +0000
Subject: [PATCH 01/17] fix: laminate matrices are stored only once complete

Q_layup, T_layup, A, B and D filled the cached attribute in place, so another
thread (or a retry after an aborted query) was answered with a partial matrix.
---
 composipy/core/property.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..72be56b 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -126,7 +126,7 @@ class LaminateProperty(Property):
     def Q_layup(self):    
         if self._Q_layup is None:
             
-            self._Q_layup = []
+            Q_layup = []
             for theta, ply in self.layup:
                 c = np.cos(theta*np.pi/180)
                 s = np.sin(theta*np.pi/180)
@@ -142,18 +142,19 @@ class LaminateProperty(Property):
                     [-2*c*s, 2*c*s, c**2-s**2]
                     ])
 
-                self._Q_layup.append(
+                Q_layup.append(
                     (np.linalg.inv(T_real))
                     @ ply.Q_0 
                     @ T_engineering
                     )
+            self._Q_layup = Q_layup # stored only when complete
         return self._Q_layup
      
     @property
     def T_layup(self):
         if self._T_layup is None:
             
-            self._T_layup = []
+            T_layup = []
             for theta in self.layup:
                 c = np.cos(theta[0]*np.pi/180)
                 s = np.sin(theta[0]*np.pi/180)
@@ -170,7 +171,8 @@ class LaminateProperty(Property):
                     [-2*c*s, 2*c*s, c**2-s**2]
                     ])
 
-                self._T_layup.append([T_real,T_engineering])
+                T_layup.append([T_real,T_engineering])
+            self._T_layup = T_layup # stored only when complete
         return self._T_layup
 
     @property
@@ -197,12 +199,13 @@ class LaminateProperty(Property):
                                 [A31, A32, A33]])
 
         if self._A is None:
-            self._A = np.zeros(9).reshape(3,3)
+            A = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._A += (zk1-zk0) * i[1]
+                A += (zk1-zk0) * i[1]
+            self._A = A # stored only when complete
         return self._A
     
     @property
@@ -220,12 +223,13 @@ class LaminateProperty(Property):
                                 [0., 0., 0.]])
 
         if self._B is None:
-            self._B = np.zeros(9).reshape(3,3)
+            B = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._B += (1/2) * (zk1**2-zk0**2) * i[1]
+                B += (1/2) * (zk1**2-zk0**2) * i[1]
+            self._B = B # stored only when complete
         return self._B
     
     @property
@@ -253,12 +257,13 @@ class LaminateProperty(Property):
                                 [D31, D32, D33]])
 
         if self._D is None:
-            self._D = np.zeros(9).reshape(3,3)
+            D = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._D += (1/3) * (zk1**3-zk0**3) * i[1]
+                D += (1/3) * (zk1**3-zk0**3) * i[1]
+            self._D = D # stored only when complete
         return self._D
 
     @property
-- 
2.43.0


From f3057226fb5f6332c99c5bd01dee7dda9ff5cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:53 +0000
Subject: [PATCH 02/17] fix: B of a laminate defined by lamination parameters
 no longer zeroes A

---
 composipy/core/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 72be56b..fe5acae 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -218,7 +218,7 @@ class LaminateProperty(Property):
         '''
         if (not self._xiA is None
                 and not self._xiD is None):
-            self._A = np.array([[0., 0., 0.],
+            self._B = np.array([[0., 0., 0.],
                                 [0., 0., 0.],
                                 [0., 0., 0.]])
 
-- 
2.43.0


From f8db2d4edb4ba6f03b4fe81c2aa5d2e00c491771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:01 +0000
Subject: [PATCH 03/17] fix: return copies of cached matrices

Callers editing a returned Q_0, Q_layup, T_layup, A, B or D in place changed every later answer.
---
 composipy/core/material.py |  4 ++--
 composipy/core/property.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..f1c9771 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -145,7 +145,7 @@ class OrthotropicMaterial(Material):
             self.__Q_0 = np.array([[Q11, Q12, 0],
                                    [Q12, Q22, 0],
                                    [0, 0, Q66]])
-        return self.__Q_0
+        return self.__Q_0.copy()
 
     def Invariants(self):
         '''
@@ -293,7 +293,7 @@ class IsotropicMaterial(Material):
             self.__Q_0 = np.array([[Q11, Q12, 0],
                                    [Q12, Q22, 0],
                                    [0, 0, Q66]])
-        return self.__Q_0
+        return self.__Q_0.copy()
 
     def __repr__(self):
         return (
diff --git a/composipy/core/property.py b/composipy/core/property.py
index fe5acae..ef7d9d9 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -148,7 +148,7 @@ class LaminateProperty(Property):
                     @ T_engineering
                     )
             self._Q_layup = Q_layup # stored only when complete
-        return self._Q_layup
+        return [Q.copy() for Q in self._Q_layup]
      
     @property
     def T_layup(self):
@@ -173,7 +173,7 @@ class LaminateProperty(Property):
 
                 T_layup.append([T_real,T_engineering])
             self._T_layup = T_layup # stored only when complete
-        return self._T_layup
+        return [[T.copy() for T in Ts] for Ts in self._T_layup]
 
     @property
     def A(self):
@@ -206,7 +206,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 A += (zk1-zk0) * i[1]
             self._A = A # stored only when complete
-        return self._A
+        return self._A.copy()
     
     @property
     def B(self):
@@ -230,7 +230,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 B += (1/2) * (zk1**2-zk0**2) * i[1]
             self._B = B # stored only when complete
-        return self._B
+        return self._B.copy()
     
     @property
     def D(self):
@@ -264,7 +264,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 D += (1/3) * (zk1**3-zk0**3) * i[1]
             self._D = D # stored only when complete
-        return self._D
+        return self._D.copy()
 
     @property
     def ABD(self):
-- 
2.43.0


From 55ed483561587c9eb852840a63370a68081149e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 04/17] fix: laminates and plates keep their own copy of the
 containers passed in

Stacking, plies, lamination parameters and edge conditions were aliased, and the
default edge-condition dictionary was shared by every plate.
---
 composipy/core/property.py  | 5 +++++
 composipy/core/structure.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index ef7d9d9..e6e9fa2 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -1,4 +1,5 @@
 import numbers
+from copy import deepcopy
 
 import numpy as np
 import scipy as sp
@@ -59,6 +60,10 @@ class LaminateProperty(Property):
     '''
 
     def __init__(self, stacking, plies):
+        stacking = deepcopy(stacking) # the caller keeps its own container
+        if not isinstance(plies, Material):
+            plies = list(plies)
+
         # Checking layup
         if not isinstance(stacking, dict): # implements angle stacking sequence
             if isinstance(plies, Material):
diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..a25f114 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 
+from copy import deepcopy
 from matplotlib import cm
 from time import time
 from scipy.sparse import csr_matrix
@@ -97,7 +98,7 @@ class PlateStructure(Structure):
         self.__dproperty = self._is_instance(dproperty, Property, 'dproperty')
         self.__a = self._float_number(a, n_min=0, name='a')
         self.__b = self._float_number(b, n_min=0, name='b')
-        self.__constraints = constraints
+        self.__constraints = deepcopy(constraints) # the caller keeps its own container
         self.__Nxx = self._float_number(Nxx, name='Nxx')
         self.__Nyy = self._float_number(Nyy, name='Nyy')
         self.__Nxy = self._float_number(Nxy, name='Nxy')
-- 
2.43.0


From 9bf5257d92aae59ebfe04d7353cc4a4d3289554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 05/17] fix: xiA and xiD answer for laminates defined by
 lamination parameters

---
 composipy/core/property.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index e6e9fa2..2dd0d9e 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -283,6 +283,9 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if self._xiA is not None: # defined by lamination parameters
+            return np.array(self._xiA)
+
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -300,6 +303,9 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if self._xiD is not None: # defined by lamination parameters
+            return np.array(self._xiD)
+
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From 63e39f8e0c276071d63512bb3e7bd58e5cf6d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 06/17] fix: position labels of the margin table match its rows

---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From e939aa83d5c046fb3a6de5e0542763ec4cefd8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 07/17] fix: v and w use their own shape functions along y

Both took those of u, which differ when an edge holds only some freedoms.
---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index a25f114..9ea914b 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -252,8 +252,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From 5adc1ad684ccd5d0c4128947aef2988d6ae1f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 08/17] fix: scale the load constraint of minimize_panel_weight

The raw critical load grows with the cube of the thickness, so the solver could
leave the start or report success for panels that do not carry the loads.
---
 composipy/optimize/_minimize_panel_weight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index c85dbe5..daf0630 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -77,10 +77,10 @@ def minimize_panel_weight(a, b,
             eig = Ncr_from_lp(a, b, T, m, n, xi1, xi3, E1, E2, v12, G12, Nxx_norm, Nyy_norm, Nxy_norm, constraints=panel_constraint)
         except ArpackError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
             eig = -1
-        return eig
+        return np.cbrt(eig / max_load) # linear in T, of order one
     
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, max_load, np.inf)
+    c1 = NonlinearConstraint(critical_load, 1., np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
-- 
2.43.0


From a1ab5bbcd17049fda0d15b85a2fbabc0a69debd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 09/17] fix: buckling_analysis returns the smallest critical
 factors

With the shift at 1 the solver returned the factors closest to 1, which for a
plate loaded beyond its critical load are not the smallest ones.
---
 composipy/core/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 9ea914b..14092a7 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -393,10 +393,9 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
 
         eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+              which='SA', M=K, tol=tol)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From ce1fcca11cfcfc0b893563dcd82f0b6eaca6842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 10/17] fix: buckling_analysis starts the eigenvalue solver
 from a fixed vector

The start was drawn from operating-system entropy, so equal analyses and
optimisations gave different numbers.
---
 composipy/core/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 14092a7..8402749 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -393,9 +393,10 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
+        v0 = np.random.default_rng(0).random(KG.shape[0]) # same start, same result
 
         eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SA', M=K, tol=tol)
+              which='SA', M=K, tol=tol, v0=v0)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 5fbb8a8bb414f910425b5d0b0ea1c434b26a25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 11/17] fix: plot_eigenvalue accepts grids with different point
 counts along x and y

---
 composipy/core/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 8402749..0639f35 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -419,7 +419,7 @@ class PlateStructure(Structure):
         cw_values = c_values[len_c_values-len_w:len_c_values]
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
-        xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
+        xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr, indexing='ij')
         z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
 
         for i in range(ngridx):
-- 
2.43.0


From c144a704b589dde2200ebab752698bb461fdd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 12/17] fix: table generators replace the table atomically

The table was truncated in place, so a full disk or a crash lost it.
---
 .../pre_integrated_component/write_pre_integrated_terms.py | 7 ++++++-
 composipy/pre_integrated_component/write_shape_function.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/composipy/pre_integrated_component/write_pre_integrated_terms.py b/composipy/pre_integrated_component/write_pre_integrated_terms.py
index ad2ee0b..dc9262b 100644
--- a/composipy/pre_integrated_component/write_pre_integrated_terms.py
+++ b/composipy/pre_integrated_component/write_pre_integrated_terms.py
@@ -1,3 +1,4 @@
+import os
 import sympy as sp
 import numpy as np
 from time import time
@@ -111,8 +112,12 @@ if __name__ == '__main__':
     txt += convert_to_str(ii_FXIXI_FXIXI, 'ii_FXIXI_FXIXI')
 
 
-    with open('_ii_F.py', 'w') as f:
+    # written aside and moved into place, so that a failure leaves the previous table
+    with open('_ii_F.py.tmp', 'w') as f:
         f.write(txt)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace('_ii_F.py.tmp', '_ii_F.py')
         
     print(f'time is {time() - ti} s')
 
diff --git a/composipy/pre_integrated_component/write_shape_function.py b/composipy/pre_integrated_component/write_shape_function.py
index 4df6dbe..ea51a77 100644
--- a/composipy/pre_integrated_component/write_shape_function.py
+++ b/composipy/pre_integrated_component/write_shape_function.py
@@ -1,3 +1,4 @@
+import os
 import sympy as sp
 import numpy as np
 from time import time
@@ -88,8 +89,12 @@ if __name__ == '__main__':
     txt += convert_to_str(S, 'S')
    
 
-    with open('_S.py', 'w') as f:
+    # written aside and moved into place, so that a failure leaves the previous table
+    with open('_S.py.tmp', 'w') as f:
         f.write(txt)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace('_S.py.tmp', '_S.py')
         
     print(f'time is {time() - ti} s')
 
-- 
2.43.0


From aeb2b05ed3934b47b6c5b20f2ee39662c11e9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 13/17] fix: invalid escape sequences in pcomp_generator fail
 the import under strict warnings

---
 composipy/nastranapi/pcomp_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..e348211 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -14,8 +14,8 @@ def _build_pm_unit(angle, times):
 def _build_stack_unit(stacking):
     '''Returns a list when given a unit for example \\pm45_13'''
     stacking_values = stacking
-    is_pm = stacking_values.find('\pm') > -1
-    stacking_values = stacking_values.replace('\pm', '')
+    is_pm = stacking_values.find('\\pm') > -1
+    stacking_values = stacking_values.replace('\\pm', '')
     stacking_values = stacking_values.strip()   
     stacking_values = stacking_values.split('_')
     len_stacking_values = len(stacking_values)
@@ -51,7 +51,7 @@ def build_sequence(stacking):
         
     Example
     -------
-    >>> stack = '[\pm45_{1}/0_2/90/(0/90)_1]s'
+    >>> stack = '[\\pm45_{1}/0_2/90/(0/90)_1]s'
     >>> build_sequence(stack)
     out : 
         [45.0, -45.0, 0.0, 90.0, 0.0, 90.0, 90.0, 0.0, 90.0, 0.0, -45.0, 45.0]
-- 
2.43.0


From f2ab95d975cf18f1fcb29823a4d427b08b3cac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 14/17] fix: validators turned interrupts and failed
 allocations into ValueError

---
 composipy/utils/validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/utils/validators.py b/composipy/utils/validators.py
index 139df7b..238545e 100644
--- a/composipy/utils/validators.py
+++ b/composipy/utils/validators.py
@@ -6,7 +6,7 @@ class ComposipyValidator:
     def _float_number(self, value, n_min=None, n_max=None, name=None):
         try:
             value = float(value)
-        except:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError(f'{name} Must be a real number')
         if n_min is not None and value < n_min:
             raise ValueError(f'{name} must be at least {n_min}')
@@ -18,7 +18,7 @@ class ComposipyValidator:
     def _int_number(self, value, n_min=None, n_max=None, name=None):
         try:
             value = float(value)
-        except:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError(f'{name} Must be a integer number')        
         if not float.is_integer(value):
             raise ValueError(f'{name} Must be a integer number')        
-- 
2.43.0


From ea1fe9244729c887d5ddd27e1094f49b0bb979f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 15/17] fix: ABD hands out a copy

Two callers asking at once could be handed the same array, so one's edits
showed in the other's result.
---
 composipy/core/property.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 2dd0d9e..9d88f65 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -274,11 +274,12 @@ class LaminateProperty(Property):
     @property
     def ABD(self):
         '''[ABD] Matrices as numpy.ndarray'''
-        self._ABD = np.vstack([
+        ABD = np.vstack([
               np.hstack([self.A, self.B]),
               np.hstack([self.B, self.D])
             ])
-        return self._ABD
+        self._ABD = ABD
+        return ABD.copy()
    
     @property
     def xiA(self):
-- 
2.43.0


From fa18b874c21e24975cfb09a9bdedd10ba1a5eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 16/17] fix: table generators write to a temporary file of
 their own

Two regenerations at once shared one temporary name, and a truncated table
could be moved into place.
---
 .../pre_integrated_component/write_pre_integrated_terms.py   | 5 +++--
 composipy/pre_integrated_component/write_shape_function.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/composipy/pre_integrated_component/write_pre_integrated_terms.py b/composipy/pre_integrated_component/write_pre_integrated_terms.py
index dc9262b..19d5e30 100644
--- a/composipy/pre_integrated_component/write_pre_integrated_terms.py
+++ b/composipy/pre_integrated_component/write_pre_integrated_terms.py
@@ -113,11 +113,12 @@ if __name__ == '__main__':
 
 
     # written aside and moved into place, so that a failure leaves the previous table
-    with open('_ii_F.py.tmp', 'w') as f:
+    tmp = f'_ii_F.py.{os.getpid()}.tmp' # its own: two regenerations may run at once
+    with open(tmp, 'w') as f:
         f.write(txt)
         f.flush()
         os.fsync(f.fileno())
-    os.replace('_ii_F.py.tmp', '_ii_F.py')
+    os.replace(tmp, '_ii_F.py')
         
     print(f'time is {time() - ti} s')
 
diff --git a/composipy/pre_integrated_component/write_shape_function.py b/composipy/pre_integrated_component/write_shape_function.py
index ea51a77..9c57106 100644
--- a/composipy/pre_integrated_component/write_shape_function.py
+++ b/composipy/pre_integrated_component/write_shape_function.py
@@ -90,11 +90,12 @@ if __name__ == '__main__':
    
 
     # written aside and moved into place, so that a failure leaves the previous table
-    with open('_S.py.tmp', 'w') as f:
+    tmp = f'_S.py.{os.getpid()}.tmp' # its own: two regenerations may run at once
+    with open(tmp, 'w') as f:
         f.write(txt)
         f.flush()
         os.fsync(f.fileno())
-    os.replace('_S.py.tmp', '_S.py')
+    os.replace(tmp, '_S.py')
         
     print(f'time is {time() - ti} s')
 
-- 
2.43.0


From 3c4199eaafe0352ea9a8eca0a342eba4eb234d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 17/17] fix: plate keeps the terms of the modes it holds

A plate whose edge conditions were edited after an analysis drew its held
mode over other terms once a later analysis had failed part-way.
---
 composipy/core/structure.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 0639f35..168125f 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -109,6 +109,7 @@ class PlateStructure(Structure):
         self.sw_idx = None
         self.eigenvalue = None
         self.eigenvector = None
+        self._mode_idx = None
 
     @property
     def dproperty(self):
@@ -384,6 +385,7 @@ class PlateStructure(Structure):
             ti = time()       
             print('calculating K and KG')
         K, KG = self.calc_K_KG_D()
+        mode_idx = self.sw_idx # the terms of these modes, kept with them
         K, KG = csr_matrix(K), csr_matrix(KG)
         if not silent:
             print(f'K and KG calculated in {time()-ti} seconds')
@@ -405,7 +407,7 @@ class PlateStructure(Structure):
         if not silent:
              print(f'eigenvalues calculated in {time()-ti} seconds')
 
-        self.eigenvalue, self.eigenvector = eigvals, eigvecs
+        self.eigenvalue, self.eigenvector, self._mode_idx = eigvals, eigvecs, mode_idx
         return eigvals, eigvecs
     
     def plot_eigenvalue(self, nth=0, ngridx=20, ngridy=20):
@@ -415,7 +417,7 @@ class PlateStructure(Structure):
         
         c_values = self.eigenvector[:, nth] # ritz coefficients
         len_c_values = len(c_values)
-        len_w = len(self.sw_idx)
+        len_w = len(self._mode_idx)
         cw_values = c_values[len_c_values-len_w:len_c_values]
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
@@ -424,7 +426,7 @@ class PlateStructure(Structure):
 
         for i in range(ngridx):
             for j in range(ngridy):
-                sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
+                sw = sxieta(self._mode_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
         
-- 
2.43.0

