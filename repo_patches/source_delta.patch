From 66be592a98dd76412642880c56b128fab83f42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:02 +0000
Subject: [PATCH 01/52] fix: Kohnsham energy record has mutable defaults,
 unimportable on Python >= 3.11

---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..fa6c7b7 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From 2f0ca05cbb50c7b65b551f69593fc40f291dd049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 02/52] fix: end half-cell weights of a one-block Newton-Cotes
 rule overwrite each other

---
 CADMium/common/NC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/common/NC.py b/CADMium/common/NC.py
index 6f975b2..612beb4 100644
--- a/CADMium/common/NC.py
+++ b/CADMium/common/NC.py
@@ -29,8 +29,8 @@ def NC(N, Nm):
 
     NP = (N-1) * Nm + 1
     wi = np.zeros(NP)
-    wi[:N-1] = w1[:]
-    wi[-(N-1):] = w1[::-1]
+    wi[:N-1] += w1[:]
+    wi[-(N-1):] += w1[::-1]
 
     for i in range(Nm):
         wi[np.array(range(N))+(N-1)*(i)] = wi[np.array(range(N))+(N-1)*(i)] + w
-- 
2.43.0


From 9644e17916148adbc0691e398d018543f3b43672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 03/52] fix: integration weights laid out in the wrong order
 when Na != Nr

---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From 0b6e3dec06385bedcf8a1675eb4e425e10c2e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 04/52] fix: integrating an integer field column by column
 truncated every column to an integer

---
 CADMium/psgrid/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/integrate.py b/CADMium/psgrid/integrate.py
index d3998fd..bc807c8 100644
--- a/CADMium/psgrid/integrate.py
+++ b/CADMium/psgrid/integrate.py
@@ -16,7 +16,7 @@ def integrate(self, f):
         integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
 
     else:
-        integral = np.zeros_like(f)
+        integral = np.zeros(f.shape)
         for i in range(f.shape[1]):
             integral[:, i] = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, i])
 
-- 
2.43.0


From fde8ea138d3f88b0a71549a413fcf34d922d0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 05/52] fix: mixed-spin gradient invariant was a scalar because
 @ and * bind alike

---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..4b13982 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:,1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:,1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From 7b10e584c916c4e6f2ca15985e4b5fbc49f60ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 06/52] fix: reduced density gradient raised, lost the second
 spin and returned nothing

---
 CADMium/psgrid/psgrid.py       | 2 +-
 CADMium/psgrid/reduced_grad.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index c3d839a..9e4830c 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -269,7 +269,7 @@ class Psgrid():
         factorize_laplacian(self, DISP)
 
     def reduced_grad(self, n):
-        reduced_grad(self, n)
+        return reduced_grad(self, n)
 
     def plotter(self, fin, max=1, sym=1):
         full, z, x = plotter(self, fin, max, sym)
diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index b3a64bf..2370778 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -12,12 +12,12 @@ def reduced_grad(self, n):
     pol = n.shape[1]
 
     if pol == 1:
-        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) @ n** (4/3) )
+        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
         s = np.zeros_like(n)
-        s[:, 0] = self.sigma(2 * n[:,0])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,0])**(4/3))
-        s[:, 0] = self.sigma(2 * n[:,1])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,1])**(4/3))
+        s[:, 0] = self.sigma(2 * n[:,[0]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,0])**(4/3))
+        s[:, 1] = self.sigma(2 * n[:,[1]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,1])**(4/3))
 
     #WARNING: S might be zero, in that case, that particular cell should be turned to zero#
 
-- 
2.43.0


From a15952b7d879951881dbd05165dda46093ec978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:27 +0000
Subject: [PATCH 07/52] fix: stored Laplacian factors ignored the row and
 column pivoting

---
 CADMium/psgrid/factorize_laplacian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CADMium/psgrid/factorize_laplacian.py b/CADMium/psgrid/factorize_laplacian.py
index 35ea94b..2f9ec19 100644
--- a/CADMium/psgrid/factorize_laplacian.py
+++ b/CADMium/psgrid/factorize_laplacian.py
@@ -13,8 +13,9 @@ def factorize_laplacian(self, DISP):
         print(" Factorizing Laplacian ... \n")
         
     LU = splu(self.elap, permc_spec="NATURAL")
-    self.L_lap = LU.L
-    self.U_lap = LU.U
+    #Undo the row and column pivoting, so that L_lap @ U_lap is the laplacian
+    self.L_lap = LU.L.tocsc()[LU.perm_r, :]
+    self.U_lap = LU.U.tocsc()[:, LU.perm_c]
         
     if DISP is True:
         print(" Done")
\ No newline at end of file
-- 
2.43.0


From 298af9184d516bc8e7ca44140cbe667fbfb71656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:55 +0000
Subject: [PATCH 08/52] fix: kinetic energy density took the wrong orbital for
 the fractional level

---
 CADMium/pssolver/calc_ked_WFI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_ked_WFI.py b/CADMium/pssolver/calc_ked_WFI.py
index 956717b..bb3a5b0 100644
--- a/CADMium/pssolver/calc_ked_WFI.py
+++ b/CADMium/pssolver/calc_ked_WFI.py
@@ -41,7 +41,7 @@ def calc_ked_WFI(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional and nu != 0:
         #Normalized orbital
-        phi_norm = self.phi[:,i] / self.grid.integrate( self.phi[:, int(Nocc+1) ]**2)**0.5
+        phi_norm = self.phi[:, int(Nocc)] / self.grid.integrate( self.phi[:, int(Nocc)]**2)**0.5
         phi_norm = phi_norm[:, None]
         self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]
 
-- 
2.43.0


From d96492c2ec3571cbe184a4f93d3bb803091e69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:55 +0000
Subject: [PATCH 09/52] fix: requesting full orbitals (N = -1) read a missing
 attribute

---
 CADMium/pssolver/pssolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index e5d46fb..7040aa7 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -89,7 +89,7 @@ class i_solver():
         self.pol = pol
 
         if self.N == -1:
-            if self.polarization == 1:
+            if self.pol == 1:
                 self.N = 2 * self.Nmo
             else:
                 self.N = self.Nmo
-- 
2.43.0


From d42a470684f30e6fd71c8ee030f6b25979b47904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:01 +0000
Subject: [PATCH 10/52] fix: solving without a prepared Hamiltonian called a
 misspelt method

---
 CADMium/pssolver/calc_orbitals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..f774796 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -29,7 +29,7 @@ def calc_orbitals(self, solver_id, return_dict):
         Veff = spdiags(data= W @ self.veff, diags=0, m=Nelem, n=Nelem)
 
         if self.H0 is None:
-            self.hamiltionian()
+            self.hamiltonian()
 
         #Construct Hamiltonian
         H = self.H0 + Veff
-- 
2.43.0


From 9601c618d1300a1c183cc88a9ffdd55e0b271ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:01 +0000
Subject: [PATCH 11/52] fix: orbital refinement reused stale corrections and
 mixed two normalisations

---
 CADMium/pssolver/iter_orbitals.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..cbd1734 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,9 +54,11 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
-            self.normalize_orbitals()
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
+
+        #Normalize once all are updated: residuals refer to the current scale
+        self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From de7763546fb0261fd5b4125279b1139917b1292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 12/52] fix: response of fractional levels could not be
 computed and m > 0 levels lacked their double occupation

---
 CADMium/pssolver/calc_response.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 464d725..27412a6 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -70,7 +70,7 @@ def calc_response(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional is  True and nu != 0:
         print("Warning, you may need to confirm calc_response in CADMium")
-        j = Nocc + 1
+        j = int(Nocc)
 
         #Select the orbital and normalize
         phi_j = self.phi[:, j] / self.grid.integrate( self.phi[:, j]**2 )**0.5
@@ -87,19 +87,16 @@ def calc_response(self):
         A = csc_vstack(( A_inside_1, A_inside_2 ))
         A = csc_matrix(A)
 
-        lu = splu(A)
-        #Take matrox L and U from decomposition
-        L = lu.L.A
-        U = lu.U.A
-
-        #Solve linear equation
-        x = spsolve( U , spsolve(L, rhs))
+        x = spsolve(A, rhs)
 
         #Add orbital density response into total response
-        self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
+        self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
     if self.pol == 1:
         self.chi = 2 * self.chi
+    if self.m > 0:
+        #m>0 orbitals hold twice as many electrons due to +-m symmetry
+        self.chi = 2 * self.chi
 
 
-- 
2.43.0


From 47c3668eef35e438d42256dd87c1f25462d5800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:18 +0000
Subject: [PATCH 13/52] fix: set_veff_external distributed the object's
 potential instead of its argument

---
 CADMium/kohnsham/kohnsham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index fa6c7b7..0711d21 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -181,7 +181,7 @@ class Kohnsham():
         """
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].setveff(self.veff[:,j])
+                self.solver[i,j].setveff(veff[:,j])
 
     def calc_density(self, ITERATIVE=False, dif=0.0):
         """
-- 
2.43.0


From 80d5b12e0fe3079afd6d945cd7cbd3e9cba5830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:19 +0000
Subject: [PATCH 14/52] fix: spin-flip symmetrised potential never reached the
 orbital solvers

---
 CADMium/kohnsham/scf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..b27dbfe 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -68,14 +68,14 @@ def scf(self, optKS):
         self.calc_hxc_potential() 
         self.veff = self.vnuc + self.vext + self.vhxc
 
-        for i in range(self.Nmo.shape[0]):
-            for j in range(self.Nmo.shape[1]):
-                self.solver[i,j].setveff(self.veff[:,j])
-
         #Spin flip mirror symmetry
         if optKS.spinflipsym is True:
             self.veff = (self.veff + self.grid.mirror(self.grid.spinflip(self.veff))) / 2
 
+        for i in range(self.Nmo.shape[0]):
+            for j in range(self.Nmo.shape[1]):
+                self.solver[i,j].setveff(self.veff[:,j])
+
         #Calculate new density
         if optKS.iterative is True and optKS.continuing is True:
             nout = self.calc_density(ITERATIVE=optKS.iterative)
-- 
2.43.0


From 9bbb51a401f69331774ec410dec19ef76c5648e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:19 +0000
Subject: [PATCH 15/52] fix: auto_tol read names that do not exist

---
 CADMium/kohnsham/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index b27dbfe..c6501b5 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
-- 
2.43.0


From 8003b98af7c63565782895f47630efecd52ee14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:19 +0000
Subject: [PATCH 16/52] fix: Kohn-Sham loop options in other than lower case
 were accepted and ignored

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index c6501b5..4390d1d 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS = {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0


From f12db049e1e5065811a98c9ae53ff11c755157b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:35 +0000
Subject: [PATCH 17/52] fix: an empty spin channel made the density change NaN
 and switched its convergence test off

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 4390d1d..b862e36 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -96,7 +96,7 @@ def scf(self, optKS):
 
         #Convergence check
         dif_E = np.abs( (self.E.E - old_E) / self.E.E )
-        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
+        dif_n = np.nanmax(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
 
 
         diff = max(dif_E, dif_n)
-- 
2.43.0


From 5fb8ac8ca656bd8982f8b0cb702a2f68770289ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 18/52] fix: ensemble fragments were not created when one of
 the mixing ratios is 1

---
 CADMium/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..14d5524 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -256,7 +256,7 @@ class Partition():
 
         self.KSa = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_a, self.N_a, optKS)
         self.KSb = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_b, self.N_b, optKS)
-        if self.nu_a != 1.0 and self.nu_b != 1.0:
+        if self.ens:
 
             self.KSA = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_A, self.N_A, optKS)
             self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B, optKS)
-- 
2.43.0


From cf4987c544726d4255079b17b91be295aea6bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 19/52] fix: energy of fragment B's lower ensemble member was
 replaced by the upper one's

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From 0341f7c9950f11d3c515abc8b90d9929bc9686d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 20/52] fix: fragment energies needed before their first cycle
 raised AttributeError

---
 CADMium/partition/energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index 7c7f98e..77211ed 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -27,7 +27,7 @@ def energy(self):
         iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
-        if i_KS.E is None:
+        if not hasattr(i_KS.E, "Ts"):
             i_KS.energy()
 
         self.E.Ea += i_KS.scale * i_KS.E.E
@@ -52,7 +52,7 @@ def energy(self):
         self.E.Eb = 0.0
 
         for i_KS in iks_b:
-            if i_KS.E is None:
+            if not hasattr(i_KS.E, "Ts"):
                 i_KS.energy()
 
             self.E.Eb += i_KS.scale * i_KS.E.E
-- 
2.43.0


From a1a210cd328d41ca8d32195fc2ebd06e0a790014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 21/52] fix: option 'isolated' of the partition loop was
 accepted and ignored

---
 CADMium/partition/scf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..c014399 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -42,6 +42,8 @@ def scf(self, optSCF={}):
         if i not in PartitionSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for KohnSham")
     optSCF = PartitionSCFOptions(**optSCF)
+    if 'isolated' in optSCF.__fields_set__:
+        self.optPartition.isolated = optSCF.isolated
     optSCF.isolated = self.optPartition.isolated
 
     #---> Sanity Check on options
-- 
2.43.0


From c75c615bf7a57904d4df7abe263c8f73760f99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 22/52] fix: auto_tol of the partition loop raised TypeError

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index c014399..35290bb 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -141,7 +141,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 94511cb1e58820636209f777bc8ad5388b438df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 23/52] fix: an empty spin channel switched the partition
 loop's density convergence test off

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 35290bb..c8d21ce 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -200,7 +200,7 @@ def scf(self, optSCF={}):
 
     #-----> Convergence Check
         dif_E  = np.abs( np.sum(self.E.E - old_E) / self.E.E )
-        dif_nf = np.max(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
+        dif_nf = np.nanmax(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
         dif    = max(dif_E, dif_nf)
         old_E  = self.E.E
         old_nf = self.nf
-- 
2.43.0


From 0fa2704645655331a3840c76763ca6d63de98738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 24/52] fix: mirrored fragment shared its energy arrays with
 the original

---
 CADMium/partition/partition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 14d5524..e944af2 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -1,7 +1,7 @@
 """
 partition.py
 """
-from copy import copy
+from copy import copy, deepcopy
 import numpy as np
 from dataclasses import dataclass
 from typing import List
@@ -338,7 +338,7 @@ class Partition():
             KSb[i].Q = self.grid.mirror(KSa[i].Q).copy()
 
             #Energies don't need mirrored, just transfered
-            KSb[i].E = copy(KSa[i].E)
+            KSb[i].E = deepcopy(KSa[i].E)
             KSb[i].u = copy(KSa[i].u)
 
             KSb[i].veff = self.grid.mirror(KSa[i].veff).copy()
-- 
2.43.0


From 90f5645ca0f9d9950b2b2bae577a719647cfd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 25/52] fix: von Weizsaecker partition energy had the wrong
 sign and was an array

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..57eb874 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From 2d8b4978f514cce03c1777e6dfa28fe7c8d60101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 26/52] fix: chemical potential of the kinetic inversion
 ignored all but the last level

---
 CADMium/partition/vp_kinetic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..3cc8c82 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -60,16 +60,20 @@ def vp_kinetic(self):
             for j in range(self.Nmo_a.shape[1]):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
+        for i in range(self.Nmo_b.shape[0]):
+            for j in range(self.Nmo_b.shape[1]):
                 if self.KSb.solver[i,j].homo is not None:
-                    ua = np.max( (ub, self.KSb.solver[i,j].homo) )
+                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
         if self.ens:
             for i in range(self.Nmo_A.shape[0]):
                 for j in range(self.Nmo_A.shape[1]):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
+            for i in range(self.Nmo_B.shape[0]):
+                for j in range(self.Nmo_B.shape[1]):
                     if self.KSB.solver[i,j].homo is not None:
-                        ua = np.max( (ub, self.KSB.solver[i,j].homo) )
+                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From 2215ad2e138f122ac780a83e5cf5395ba5e98d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 27/52] fix: correlated Hartree energy without ensemble raised
 AttributeError and summed over the grid

---
 CADMium/partition/EnsCorHar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index d43e9c9..fe7ad85 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -7,15 +7,15 @@ import numpy as np
 
 def EnsCorHar(self):
     if not self.ens:  # No Ensemble
-        if not self.optPartiton.ens_spin_sym: #Not ENS Spin Symmetry
+        if not self.optPartition.ens_spin_sym: #Not ENS Spin Symmetry
             self.KSa.E.Ehcor = 0.0
             self.KSb.E.Ehcor = 0.0
             self.KSa.V.vhcor = np.zeros_like( self.KSa.V.vh )
             self.KSb.V.vhcor = np.zeros_like( self.KSb.V.vh )
             self.E.Ehcor = 0.0
         else:                                 #With ENS Spin Symmetry
-            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh) ))   / 2.0
-            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh) ))   / 2.0
+            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh), axis=1 ))   / 2.0
+            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh), axis=1 ))   / 2.0
             self.KSa.V.vhcor = self.grid.spinflip( self.KSb.V.vh )
             self.KSb.V.vhcor = self.grid.spinflip( self.KSa.V.vh )
             self.E.Ehcor = 0.0
-- 
2.43.0


From e1f7de343e88e950d3a69539c99da5d91965a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:22 +0000
Subject: [PATCH 28/52] fix: derivative of the overlap of total densities was
 taken spin by spin

---
 CADMium/partition/vp_overlap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 9313a0b..4cca5c2 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,8 +23,8 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (self.nb_frac / self.na_frac)**0.5
-        if self.optPartition is True:
+        KSa.V.dSdn = KSa.scale * 0.5 * (np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1))[:,None]**0.5
+        if self.pol == 2:
             KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
         #Remove any Nans
         KSa.V.dSdn[ np.isinf(KSa.V.dSdn) ] = 0.0
@@ -33,8 +33,8 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 *  (self.na_frac / self.nb_frac)**0.5
-        if self.optPartition is True:
+        KSb.V.dSdn = KSb.scale * 0.5 * (np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1))[:,None]**0.5
+        if self.pol == 2:
             KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
         #Remove any Nans
         KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0
-- 
2.43.0


From 856463f525b479af2eb811e39d8038f1beaa3aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:22 +0000
Subject: [PATCH 29/52] fix: chain rule of the correlated Hartree term had the
 wrong sign

---
 CADMium/partition/vp_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index a6b6458..6bf938d 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -81,7 +81,7 @@ def vp_hxc(self):
             i_KS.V.vp_hxc = self.E.F * (i_KS.V.vp_h + i_KS.V.vp_x + i_KS.V.vp_c) + \
                             + (self.E.Ep_h + self.E.Ep_x + self.E.Ep_c) * i_KS.V.dFdn \
                             + (1 - self.E.F) * (i_KS.V.vhcor) \
-                            + (self.E.Ehcor) * i_KS.V.dFdn
+                            - (self.E.Ehcor) * i_KS.V.dFdn
 
     # elif self.optPartition.hxc_part_type == "overlap_hxc_2":
     #     #Overlap approximation for H2p
-- 
2.43.0


From 8b3bf7da5c8ed1974c88eb87f5d15422f43fe840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:22 +0000
Subject: [PATCH 30/52] fix: iteration limit warning of the partition loop came
 one cycle early and on converged runs

---
 CADMium/partition/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index c8d21ce..3d56abf 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -245,8 +245,8 @@ def scf(self, optSCF={}):
         iterations += 1
         # if iterations == 2 and self.optPartition.isolated is False:
         #     sys.exit()
-        if iterations == optSCF.max_iter:
-            warn("SCF Warning: Max number of Iterations Surpassed. Desired convergence may have not been achieved") 
+    if dif > optSCF.e_tol and iterations > optSCF.max_iter:
+        warn("SCF Warning: Max number of Iterations Surpassed. Desired convergence may have not been achieved") 
 
     # if dif < optSCF.e_tol:
     #     flag = True
-- 
2.43.0


From d233bc2b0787a9c7041deae78fc08e00d4ac709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 31/52] fix: fragments entered the non-additive energy
 densities with wrong weights

---
 CADMium/partition/ep_hxc.py     | 20 +++++++++++++-------
 CADMium/partition/ep_kinetic.py | 19 ++++++++++---------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 79ead77..c0a2aae 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -18,6 +18,12 @@ def ep_hxc(self):
         Ehf = self.E.Ehf # Start with zero and sum fragment Eh
         ehf = np.zeros_like( ehm )
 
+        def share(i_KS):
+            # Share of a fragment in the total density
+            flips = 2 if self.optPartition.ens_spin_sym else 1
+            q = flips * i_KS.scale * np.sum(i_KS.n, axis=1) / np.sum(self.nf, axis=1)
+            return np.nan_to_num(q, nan=0.0, posinf=0.0, neginf=0.0)[:,None]
+
         if self.optPartition.ab_sym is True:
             # Ensemble?
             if not self.ens:
@@ -27,8 +33,8 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
-                ehf += self.grid.mirror(ehf)
+                    ehf += share(i_KS) * i_KS.V.eh[:, None]
+            ehf += self.grid.mirror(ehf)
 
         else:
             if not self.ens:
@@ -37,7 +43,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.eh[:, None]
+                    ehf += share(i_KS) * i_KS.V.eh[:, None]
 
         
         ###Exchange
@@ -57,7 +63,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += share(i_KS) * i_KS.V.ex
             exf += self.grid.mirror(exf)
 
         else:
@@ -68,7 +74,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += share(i_KS) * i_KS.V.ex
 
         ###Correlation
         Ecm = self.e_c
@@ -85,7 +91,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += share(i_KS) * i_KS.V.ec
 
             ecf += self.grid.mirror(ecf)
 
@@ -96,7 +102,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += share(i_KS) * i_KS.V.ec
 
         self.E.Ep_h = Ehm - Ehf 
         self.E.Ep_x = Exm - Exf 
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 57eb874..fcf9f4d 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -7,6 +7,11 @@ def ep_kinetic(self):
     """
     Calculate kinetic energy components of Ep
     """
+    def share(i_KS):
+        # Share of a fragment in the total density
+        q = i_KS.scale * np.sum(i_KS.n, axis=1) / np.sum(self.nf, axis=1)
+        return np.nan_to_num(q, nan=0.0, posinf=0.0, neginf=0.0)
+
     #Select method for calculating kinetic energy
     if self.optPartition.kinetic_part_type == "vonweiz":
 
@@ -36,7 +41,7 @@ def ep_kinetic(self):
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
 
-            tsf += i_KS.scale * np.sum(i_KS.Q, axis=1) * i_KS.V.ts
+            tsf += share(i_KS) * i_KS.V.ts
 
     elif self.optPartition.kinetic_part_type == "libxcke" or \
          self.optPartition.kinetic_part_type == "paramke":
@@ -59,7 +64,7 @@ def ep_kinetic(self):
         # Ts and ts for fragments obtained in ep_kinetic
         for iKS in iks:
             Tsf += iKS.scale * iKS.V.Ts
-            tsf += iKS.scale * np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
+            tsf += share(iKS) * iKS.V.ts[:,0]
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
@@ -69,7 +74,6 @@ def ep_kinetic(self):
         #Evaluate kinetic energy for fragments
         Tsf = 0.0
         tsf = np.zeros_like(tsm)
-        tsf = tsf[:, None]
 
         if self.optPartition.ab_sym is not True:
             if not self.ens:
@@ -86,7 +90,6 @@ def ep_kinetic(self):
             assert i_KS.E.Ts != None, ("Fragment energies must be evaluated before partition energy")
             Tsf += i_KS.scale * i_KS.E.Ts
             
-            i_KS.V.ts = np.zeros_like( i_KS.n )
             ts = np.zeros((self.grid.Nelem, self.pol))
 
             for i in range(i_KS.solver.shape[0]):
@@ -97,13 +100,11 @@ def ep_kinetic(self):
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
                     if i_KS.solver[i,j].ked_WFI is not None:
-                        ts[:,j] = np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
+                        ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
-            for i in range(i_KS.solver.shape[0]):
-                for j in range(i_KS.solver.shape[1]):
-                    i_KS.V.ts += np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = np.sum( ts, axis=1 ) / np.sum( i_KS.n, axis=1 )
 
-            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 )[:,None] * np.sum( i_KS.V.ts, axis=1 )[:,None]
+            tsf += share(i_KS) * i_KS.V.ts
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
-- 
2.43.0


From 1ef25619e819d41bb7222bf747d949291468a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:01 +0000
Subject: [PATCH 32/52] fix: partition energies used the functionals of the
 previous cycle's promolecular density

---
 CADMium/partition/ep_hxc.py     | 9 +++------
 CADMium/partition/ep_kinetic.py | 9 +++++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index c0a2aae..f9e4f25 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -47,10 +47,8 @@ def ep_hxc(self):
 
         
         ###Exchange
-        #epsilon_x is being brought by vp_hxc
-        #Exchange energy
-        Exm = self.e_x
-        exm = self.epsilon_x
+        #Exchange energy of the current promolecular density
+        Exm, exm, _ = self.exchange.get_xc(self.nf, return_epsilon=True)
 
         #Fragment exchange energies
         Exf = self.E.Exf # Start with zero and sum fragment Eh
@@ -77,8 +75,7 @@ def ep_hxc(self):
                     exf += share(i_KS) * i_KS.V.ex
 
         ###Correlation
-        Ecm = self.e_c
-        ecm = self.epsilon_c
+        Ecm, ecm, _ = self.correlation.get_xc(self.nf, return_epsilon=True)
 
         #Fragment correlation energies
         Ecf = self.E.Ecf #Start with zero and sum fragment Eh
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index fcf9f4d..b5b2277 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -48,9 +48,9 @@ def ep_kinetic(self):
          #Use a kinetic energy from libxc
 
         # Evaluate MOLECULAR kinetic energy
-        # Tsm and tsm calculated in ep_kinetic
-        tsm = self.tsm[:,0]
-        Tsm = self.Tsm
+        # of the current promolecular density
+        Tsm, tsm, _ = self.kinetic.get_xc(self.nf, return_epsilon=True)
+        tsm = tsm[:,0]
 
         #Evaluate kinetic energy for integer occupation
         Tsf = 0 #Start with zero and sum fragment Kinetic energy
@@ -61,8 +61,9 @@ def ep_kinetic(self):
         else:
             iks = [self.KSa, self.KSA, self.KSb, self.KSB]
 
-        # Ts and ts for fragments obtained in ep_kinetic
+        # Ts and ts of the current fragment densities
         for iKS in iks:
+            iKS.V.Ts, iKS.V.ts, _ = self.kinetic.get_xc(iKS.n, return_epsilon=True)
             Tsf += iKS.scale * iKS.V.Ts
             tsf += share(iKS) * iKS.V.ts[:,0]
 
-- 
2.43.0


From 077c118e80388b896f35d051f7d66012505e7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:01 +0000
Subject: [PATCH 33/52] fix: first cycle of a fresh partition run used the
 fragment energies of an earlier run

---
 CADMium/partition/scf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 3d56abf..b8c8a2d 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -118,6 +118,7 @@ def scf(self, optSCF={}):
             nout = i_KS.calc_density(optSCF.iterative)
             i_KS.n = nout
             i_KS.calc_chempot()
+            i_KS.energy()
 
     if self.optPartition.ab_sym == True:
         self.mirrorAB()
-- 
2.43.0


From 3e1ece4f0862f4183ad849ac64d1a0c05e74880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 34/52] fix: correlated Hartree energy of spin-symmetric
 ensembles counted one orientation only

---
 CADMium/partition/EnsCorHar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index fe7ad85..38d230b 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -39,6 +39,8 @@ def EnsCorHar(self):
         self.KSb.V.vhcor = self.KSA.V.vh
         self.KSB.V.vhcor = self.KSa.V.vh
 
+        #Spin flipped components contribute as much again
+        flips = 2 if self.optPartition.ens_spin_sym else 1
         self.E.Ehcor = 0.0
         for iks in [self.KSa, self.KSA, self.KSb, self.KSB]:
-            self.E.Ehcor += iks.scale * iks.E.Ehcor       
+            self.E.Ehcor += iks.scale * flips * iks.E.Ehcor       
-- 
2.43.0


From 92daec2aca0526c16f6343ee3dcfee2b177820a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 35/52] fix: overlap derivative of ensemble members carried
 their weight twice

---
 CADMium/partition/vp_overlap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 4cca5c2..848bb9b 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,7 +23,7 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1))[:,None]**0.5
+        KSa.V.dSdn = 0.5 * (np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1))[:,None]**0.5
         if self.pol == 2:
             KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
         #Remove any Nans
@@ -33,7 +33,7 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 * (np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1))[:,None]**0.5
+        KSb.V.dSdn = 0.5 * (np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1))[:,None]**0.5
         if self.pol == 2:
             KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
         #Remove any Nans
-- 
2.43.0


From 895a7fe53ef3f2fe874be145e9f4f5d45d512d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:36 +0000
Subject: [PATCH 36/52] fix: keep the energy estimate of a two-centre
 calculation below its lowest level

---
 CADMium/kohnsham/kohnsham.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 0711d21..b6b548e 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -129,6 +129,10 @@ class Kohnsham():
                 else:
                     self.solver[i,j].e0 = - max(self.Za, self.Zb)**2 / (self.solver[i,j].m + 1)**2 
 
+                #The two centers together bind deeper than the heavier one: stay below the united atom
+                united = -0.5 * (self.Za + self.Zb)**2 / (self.solver[i,j].m + 1)**2
+                self.solver[i,j].e0 = min(self.solver[i,j].e0, united)
+
 
     # def scf(self, optKS):
     #     scf(self, optKS)
-- 
2.43.0


From c94b4b75a2a6046152bd8d9ab5fa8e5a6839b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 37/52] fix: kinetic energy density was not a number where a
 fragment has no electrons

---
 CADMium/partition/ep_kinetic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b5b2277..531386d 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -40,6 +40,7 @@ def ep_kinetic(self):
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
+            i_KS.V.ts = np.nan_to_num(i_KS.V.ts, nan=0.0, posinf=0.0, neginf=0.0)
 
             tsf += share(i_KS) * i_KS.V.ts
 
@@ -104,6 +105,7 @@ def ep_kinetic(self):
                         ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
             i_KS.V.ts = np.sum( ts, axis=1 ) / np.sum( i_KS.n, axis=1 )
+            i_KS.V.ts = np.nan_to_num(i_KS.V.ts, nan=0.0, posinf=0.0, neginf=0.0)
 
             tsf += share(i_KS) * i_KS.V.ts
 
-- 
2.43.0


From 7c636170001c795f266b14a177cee701b99800c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 38/52] fix: the branch an archive stands on was taken for its
 version tag

---
 CADMium/_version.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CADMium/_version.py b/CADMium/_version.py
index d1366b4..371a4a9 100644
--- a/CADMium/_version.py
+++ b/CADMium/_version.py
@@ -190,7 +190,10 @@ def git_versions_from_keywords(keywords, tag_prefix, verbose):
         # between branches and tags. By ignoring refnames without digits, we
         # filter out many common branch names like "release" and
         # "stabilization", as well as "HEAD" and "master".
-        tags = set([r for r in refs if re.search(r'\d', r)])
+        # A newer git marks tags as such and writes the branch it stands on as
+        # "HEAD -> branch", which is never a tag.
+        tags = set([r for r in refs
+                    if re.search(r'\d', r) and " -> " not in r])
         if verbose:
             print("discarding '%s', no digits" % ",".join(refs - tags))
     if verbose:
-- 
2.43.0


From 185d5870a8b9637b55b7a00992f7e330d06609ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 39/52] fix: wu-yang inversion of a given spin, several angular
 momenta, its report and the state it leaves

---
 CADMium/inverter/inverter.py    |   9 ++-
 CADMium/inverter/linresponse.py | 137 ++++++++++++++------------------
 2 files changed, 66 insertions(+), 80 deletions(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 2cbebc8..26f6d49 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -159,7 +159,7 @@ class Inverter():
 
     #Inversion methods
     def linresponse(self, n0, vs0, ispin):
-        flag, output = linresponse(self, n0, vs0, )
+        flag, output = linresponse(self, n0, vs0, ispin)
         return flag, output
 
     def Ws(self, vs, spin):
@@ -190,8 +190,8 @@ class Inverter():
         if np.isinf(self.vs).any():
             print("vs is inf")
 
-        #Calculate error function
-        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), self.vs[self.Nelem-1, spin] ) )
+        #Calculate error function. The last row keeps the potential's constant
+        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), 0.0 ) )
         grad = np.squeeze(grad)
 
         if np.isnan(grad).any() is True:
@@ -209,7 +209,8 @@ class Inverter():
         """
 
         #Calculate jacobian of error function.
-        Jac = np.vstack( ( self.B @ self.solver[0,spin].chi, np.zeros((1, self.Nelem)) ) )
+        chi = sum( self.solver[i,spin].chi for i in range(self.solver.shape[0]) )
+        Jac = np.vstack( ( self.B @ chi, np.zeros((1, self.Nelem)) ) )
         Jac = np.asarray(Jac)
         Jac[-1, -1] = 1
 
diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..a568228 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -8,99 +8,84 @@ from scipy.optimize import least_squares
 from scipy.sparse import spdiags
 
 
-def linresponse(self, n0, vs0=None):
+def linresponse(self, n0, vs0=None, ispin=0):
     """
     wuyang like inversion of the density with response
+
+    A density with one column per spin is inverted spin by spin. A single
+    column is inverted for spin ispin; where solvers are spin polarized it is
+    twice the density of that spin, as for orbitalinvert.
     """
 
     n0 = n0[:, None] if len(n0.shape) == 1 else n0
-    pol   = n0.shape[1] if len(n0.shape) > 1 else 1
+    pol   = self.solver.shape[1]
+    spins = range(pol) if n0.shape[1] == pol else [ispin]
+    n0    = n0 if n0.shape[1] == pol else np.repeat(n0 / pol, pol, axis=1)
     self.pol = pol
     self.n0  = n0
     Nelem = n0.shape[0]
-    w = self.grid.w if pol == 1 else np.hstack((self.grid.w, self.grid.w))
-    
-    if self.solver[0,0].veff is None:
-        if vs0 is None:
-            #If no initial guess is provided
-            #Use the von weizacker inversion
-            vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
-            vs0 -= vs[-1]
+    w = self.grid.w[:, None]
+
+    if vs0 is None:
+        #If no initial guess is provided
+        #Use the von weizacker inversion
+        vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
+        vs0 = vs0 - vs0[-1]
     else:
-        vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
+        vs0 = vs0[:, None] if len(vs0.shape) == 1 else vs0
+        vs0 = np.repeat(vs0, pol, axis=1) if vs0.shape[1] == 1 else vs0
 
-    self.vs = np.zeros_like(vs0)
-    self.us = np.zeros((1, pol))
+    if self.vs is None or self.us is None:
+        self.vs = np.zeros((Nelem, pol))
+        self.us = np.zeros((1, pol))
     flag   = np.empty_like(self.solver, dtype=object)
     output = np.empty_like(self.solver, dtype=object)
-    
+
+    #The two spins of a spin symmetric ensemble are the same
     if self.optInv.ens_spin_sym is True:
+        spins = [0]
+
+    for i in spins:
         #Invert density n0 to find vs
+        #Start from the potential of an earlier inversion 
+        x0 = vs0[:, i] if self.solver[0,i].veff is None else np.ravel(self.solver[0,i].veff)
+
         #Preallocation
         #B is the inverse of n0 in main diagonal
-        B = spdiags( 1./n0[:,0],0, Nelem, Nelem)
-
-        self.B = B
-
+        self.B = spdiags( 1./n0[:,i], 0, Nelem, Nelem)
         for j in range(self.solver.shape[0]):
-            self.solver[j,0].hamiltonian()
-            self.solver[j,0].e0 = -20
-
-        res_lsq = least_squares(fun    = self.Ws,
-                                x0     = vs0[:, 0], 
-                                jac    = self.Jacobian, 
-                                method = "trf", 
-                                args   = (0,),
-                                xtol   = self.optInv.tol_invert,
-                                gtol   = self.optInv.tol_invert)
-
-        #Get solution from least squares object
-        self.vs[:,0] = res_lsq.x
-        self.us[0] = self.solver[0,0].get_homo()
-        flag[0,0] = res_lsq.status
-        output[0,0] = res_lsq
-
-        #Copy information
-        self.vs = np.hstack((self.vs, self.vs))
-        self.us = np.hstack((self.us, self.us))
-        self.solver[0,1].setveff(self.vs[:,0])
-        flag[0,1] = res_lsq.status
-        output[0,1] = res_lsq
-
-    else:
-        for i in range(pol):
-            #Invert density n0 to find vs
-            #Preallocation
-
-            B = spdiags( 1./n0[:,i], 0, Nelem, Nelem)
-            self.B = B
-            for j in range(self.solver.shape[0]):
-                self.solver[j,i].hamiltonian()
-                self.solver[j,i].e0 = -20
-
-            res_lsq = least_squares(fun    = self.Ws,
-                                    x0     = vs0[:, i], 
-                                    jac    = self.Jacobian, 
-                                    method = "trf", 
-                                    args   = (i,),
-                                    xtol   = self.optInv.tol_invert,
-                                    gtol   = self.optInv.tol_invert)
-
-            for j in range(self.solver.shape[0]):
-                flag[j,i] = res_lsq.status
-                output[j,i] = res_lsq
-
-            self.vs[:,i] = res_lsq.x
-            self.us[i]   = self.solver[0,i].get_homo()
+            self.solver[j,i].hamiltonian()
+            self.solver[j,i].e0 = -20
+
+        res_lsq = least_squares(fun      = self.Ws,
+                                x0       = x0, 
+                                jac      = self.Jacobian, 
+                                method   = "trf", 
+                                args     = (i,),
+                                xtol     = self.optInv.tol_invert,
+                                gtol     = self.optInv.tol_invert,
+                                max_nfev = self.optInv.max_iter_invert)
+
+        #Get solution from least squares object and leave solvers in it
+        self.Ws(res_lsq.x, i)
+        self.vs[:,i] = self.solver[0,i].veff
+        self.us[0,i] = max( self.solver[j,i].get_homo() for j in range(self.solver.shape[0]) )
+
+        #No success unless the density is reproduced
+        n = np.sum( [self.solver[j,i].n[:,0] for j in range(self.solver.shape[0])], axis=0 )
+        error   = self.grid.integrate( np.abs(n - n0[:,i]) )
+        missed  = not error <= max(self.optInv.tol_invert, 1e-8) * self.grid.integrate( n0[:,i] )
+        for j in range(self.solver.shape[0]):
+            flag[j,i]   = 0 if missed else res_lsq.status
+            output[j,i] = res_lsq
 
+    #Copy information
+    if self.optInv.ens_spin_sym is True and pol == 2:
+        self.vs[:,1] = self.vs[:,0]
+        self.us[:,1] = self.us[:,0]
+        for j in range(self.solver.shape[0]):
+            self.solver[j,1].setveff(self.vs[:,1])
+        flag[:,1]   = flag[:,0]
+        output[:,1] = output[:,0]
 
     return flag, output
-
-
-
-
-
-        
-
-        
-
-- 
2.43.0


From 59c6ba2b789ff04825de8208b6171e2f9c0ee0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 40/52] fix: orbital inversion of several angular momenta,
 fractional occupations, its level and its report

---
 CADMium/inverter/orbitalinvert.py | 43 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..916daba 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -189,7 +189,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     if self.vs is None and self.us is None:
         self.vs = np.zeros((self.grid.Nelem, self.solver.shape[1]))
-        self.us = np.zeros((self.grid.Nelem, self.solver.shape[1]))
+        self.us = np.zeros((1, self.solver.shape[1]))
 
     Nelem = self.grid.Nelem
     Wi = spdiags( 2*np.pi * self.grid.hr * self.grid.ha * self.grid.wi, 0, Nelem, Nelem)
@@ -198,7 +198,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     isolver = self.solver[:, ispin]
     Nsol = isolver.shape[0]
-    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int)
+    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=float), np.empty((Nsol), dtype=int)
     for i, j in enumerate(isolver):
         j.hamiltonian()
         Nmo[i] = j.Nmo
@@ -222,25 +222,26 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] - np.floor(N[it])
             
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
-            D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
+            D[it,0] = 4 *  np.ones((Nmo[it], 1))
             if isolver[it].pol == 1:
                 nu = N[it] / 4 - np.floor(N[it] / 4)
             else:
                 nu = N[it] / 2 - np.floor(N[it] / 2)
 
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
 
 
     H_matrices = []
-    for i in range(C[0,0].shape[0]):
-        H_matrices.append(C[0,0][i])
+    for it in range(Nsol):
+        for i in range(C[it,0].shape[0]):
+            H_matrices.append(C[it,0][i])
     matrices = (H_matrices[i][0] for i in range(len(H_matrices)))
     H = block_diag( matrices )
-    occ = np.vstack(D[:][0])
+    occ = np.vstack(D[:,0])
 
     B2i = np.array( range( 0, np.sum(Nmo) * Nelem ) )[:, None]
     B2j = matlab.repmat( np.array(range(0,Nelem))[:,None], np.sum(Nmo), 1 )
@@ -410,7 +411,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 #Inner range of phi:
                 if np.sum(Nmo) - 1 == 0:
                     subset = np.array(range(np.sum(Nmo) * Nelem))
-                    evals = np.concatenate( (np.array(([[0]])) ), axis=0 )
+                    evals = np.concatenate( (np.array(([[0]])), ), axis=0 )
                 else:
                     subset = np.array(range(np.sum(Nmo) - 1)) + np.sum(Nmo) * Nelem
                     evals = np.concatenate( ( X[ subset ], np.array(([[0]])) ), axis=0 )
@@ -419,8 +420,8 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
                 for it in range(Nsol):
 
-                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-                    isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+                    isolver[it].eig = evals[np.sum(Nmo[0:it]):np.sum(Nmo[0:it+1]), 0]
 
                 for i in isolver:
                     i.setveff(self.vs[:, ispin])
@@ -430,7 +431,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 evals = None
                 for i in isolver:
                     phi   = i.phi if phi is None else np.concatenate( (phi, i.phi),   axis=1)
-                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig), axis=1)
+                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig) )
 
                 X = np.concatenate((phi.flatten("F")[:,None], 
                                     (evals[:-1] - evals[-1])[:, None], 
@@ -449,7 +450,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     #Inner range of phi:
     if np.sum(Nmo) - 1 == 0:
         subset = np.array(range(np.sum(Nmo) * Nelem))
-        evals = np.concatenate( (np.array(([[0]])) ), axis=0 )
+        evals = np.concatenate( (np.array(([[0]])), ), axis=0 )
     else:
         subset = np.array(range(np.sum(Nmo) - 1)) + np.sum(Nmo) * Nelem
         evals = np.concatenate( ( X[ subset ], np.array(([[0]])) ), axis=0 )
@@ -457,22 +458,20 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     self.vs[:, ispin] = X[ np.array(range(Nelem)) + np.sum(Nmo) * Nelem + np.sum(Nmo) - 1 + North, 0]
 
     for it in range(Nsol):
-        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-        isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+        isolver[it].eig = evals[np.sum(Nmo[0:it]):np.sum(Nmo[0:it+1]), 0]
 
-    for it in range(Nsol):
-        self.us[ispin] = isolver[it].get_homo()
+    self.us[0, ispin] = max( i.get_homo() for i in isolver )
 
+    for it in range(Nsol):
         isolver[it].calc_density()
         isolver[it].setveff(self.vs[:, ispin])
 
-    if res > self.optInv.tol_invert:
-        flag = False
-    else:
-        flag = True
+    #An undefined residual (nan) is no success
+    flag = bool(res <= self.optInv.tol_invert)
 
 
-    inv_info = inversion_info
+    inv_info = inversion_info()
     inv_info.nfev       = iter 
     inv_info.optimality = res
     output = np.empty((1,1), dtype=object)
-- 
2.43.0


From 0c218d3598283b80c1dac2497b87f2c9d74c956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 41/52] fix: simple inversion reported success whatever it had
 reached

---
 CADMium/inverter/simple.py | 110 ++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 62 deletions(-)

diff --git a/CADMium/inverter/simple.py b/CADMium/inverter/simple.py
index 6b7bedf..795edd6 100644
--- a/CADMium/inverter/simple.py
+++ b/CADMium/inverter/simple.py
@@ -2,96 +2,82 @@
 simple.py
 """
 
+from types import SimpleNamespace
+
 import numpy as np
 from scipy.sparse import spdiags
 
 
-def simple(self, n0, vs0, tilde=None):
+def simple(self, n0, vs0, ispin=0):
     """
     Simple inversion of the density
-    Invert Density n0 to vind vs
+    Invert Density n0 to find vs
     """
 
-    pol   = 1 if len(n0.shape) == 1 else 2
+    n0  = np.ravel(n0)
+    pol = self.solver.shape[1]
     Nelem = n0.shape[0]
-    n0 = n0[:None] if len(n0.shape) == 1 else n[:,0][:,None]
+    isolver = self.solver[:, ispin]
+    if pol == 2:
+        #Twice the density of the spin, see vp_kinetic
+        n0 = 0.5 * n0
 
-    if self.solver[0,0].veff is None:
-        vs0 = 0.5 * (0.5 * self.grid.elap * (n0 ** 0.5)) / ( n0**0.5 * self.grid.w)
+    if isolver[0].veff is None:
+        vs0 = 0.5 * (self.grid.elap @ (n0 ** 0.5)) / ( n0**0.5 * self.grid.w)
         vs0 -= vs0[-1]
 
     else:
-        vs0 = self.solver[0,0].getveff()
+        vs0 = np.ravel(isolver[0].veff).copy()
+
+    if self.vs is None or self.us is None:
+        self.vs = np.zeros((Nelem, pol))
+        self.us = np.zeros((1, pol))
 
     #Preallocation
 
     B = spdiags( 1/n0 , 0, Nelem, Nelem )
 
-    for i in range(self.solver.shape[0]):
-        for j in range(self.solver.shape[1]):
-            self.solver[i,j].hamiltonian()
-            self.solver[i,j].eo = -20
+    for i in isolver:
+        i.hamiltonian()
+        i.e0 = -20
 
-    self.vs = vs0
+    vs = vs0
 
-    print(f"                                         First-order\n")
-    print(f"Iteration        f(x)                     optimality\n")
+    if self.optInv.disp:
+        print(f"                                         First-order\n")
+        print(f"Iteration        f(x)                     optimality\n")
 
-    optimality = 1
     tol        = self.optInv.tol_invert
     maxiter    = self.optInv.max_iter_invert
-    iter       = 1
-
-    while optimality > tol and iter < maxiter:
-        #Transfer new potentials to solver objects and calculate new densities
-
-        self.solver[i,j].setveff(self.vs)
-        self.solver[i,j].calc_orbitals()
-
-        n = np.zeros((self.grid.Nelem, pol))  
-        for j in range(self.solver.shape[1]):
-            for i in range(self.solver.shape[0]):     
-                #Calculate Orbital's densities
-                self.solver[i,j].calc_density()
-                #Add up orbital's densities
-                n[:,j] += np.squeeze(self.solver[i,j].n)
-
-        n = n[:,0]
+    iter       = 0
+    finished   = False
 
-        grad = B * (n-n0)
+    while not finished:
+        iter += 1
 
-        self.vs += 0.1 * grad
+        #Transfer new potentials to solver objects and calculate new densities
+        n = np.zeros(Nelem)
+        for i in isolver:
+            i.setveff(vs)
+            i.calc_orbitals()
+            i.calc_density()
+            #Add up orbital's densities
+            n += i.n[:,0]
+
+        grad = B @ (n-n0)
         optimality = np.max(np.abs(grad))
         fx         = np.sum(np.abs(grad))
-        print(f" {iter}          {fx}           {optimality} ")
-        iter += 1 
-
-    max =  0.0 
-    for i in range(self.solver.shape[0]):
-        for j in range(self.solver.shape[1]):
-            self.us = np.max(self.solver[i,j].eig) if np.max(self.solver[i,j].eig) > max else max
-            
-    if tilde is not None:
-        self.solver[i,j].calc_energy()
-
-        n = np.zeros((self.grid.Nelem, pol))  
-        Eks = 0.0
-        for j in range(self.solver.shape[1]):
-            for i in range(self.solver.shape[0]):     
-                #Calculate Orbital's densities
-                self.solver[i,j].calc_density()
-                #Add up orbital's densities
-                n[:,j] += np.squeeze(self.solver[i,j].n)
-
-        # print("shpae of n", n.shape)
-        # print("shape of vs", self.vs[:,None].shape)
-
-        # print("multiply them", n * self.vs[:,None])
-
-        Eks += np.sum(self.solver[i,j].eks)
+        if self.optInv.disp:
+            print(f" {iter}          {fx}           {optimality} ")
 
-        self.Ts = Eks - self.grid.integrate(np.sum( n * self.vs[:,None], axis=1 ))
+        if optimality <= tol or iter >= maxiter:
+            finished = True
+        else:
+            vs = vs + 0.1 * grad
 
+    self.vs[:, ispin] = vs
+    self.us[0, ispin] = max( i.get_homo() for i in isolver )
 
+    inv_info = SimpleNamespace(nfev = iter, optimality = optimality)
 
-        return True, True
+    return bool(optimality <= tol), inv_info
-- 
2.43.0


From 68a9242f5bb5fe5d767e76698ad96f4daf3551ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 42/52] fix: kinetic energy density of an inversion kept the
 last angular momentum only

---
 CADMium/inverter/get_ts_WFI.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index e58e3e6..104f9b0 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -23,7 +23,7 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     else:
         for i in range(self.solver.shape[0]):
@@ -32,7 +32,7 @@ def get_ts_WFI(self):
         #Get Kinetic Energy Density
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
-                if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                if self.solver[i,0].ked_WFI is not None:
+                    ts[:,j] += np.sum( self.solver[i,0].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From 6822db1b31e7b6748c3a925a954340c179e5d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 43/52] fix: starting orbitals of an inversion were scrambled
 and lacked B's mirror images

---
 CADMium/partition/initialguessinvert.py | 4 ++--
 CADMium/partition/vp_kinetic.py         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 9ae016e..c85a90e 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -73,9 +73,9 @@ def initialguessinvert(self, ispin=0):
                 m   = self.KSA.solver[i-1, ispin].m
 
         if self.optPartition.ab_sym is True:
-            phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
+            phi = np.append(phi, self.grid.mirror(self.KSa.solver[i-1, ispin].phi), axis = 1 )
             if self.ens:
-                phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1 )
+                phi = np.append(phi, self.grid.mirror(self.KSA.solver[i-1, ispin].phi), axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 3cc8c82..1b41eb6 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -92,7 +92,7 @@ def vp_kinetic(self):
             if self.pol == 2:
                 ntarget = 2 * ntarget
             phi0, e0, vs0 = self.initialguessinvert(ispin)
-            phi0 = phi0.flatten()[:,None]
+            phi0 = phi0.flatten("F")[:,None]
             e0   = e0.flatten()
 
             #Invert molecular problem:
-- 
2.43.0


From 2d86aff46dfe5df8b2ffc7a5f2c665e32e29f840 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:37:20 +0000
Subject: [PATCH 44/52] fix: orbital inversion mixed up occupations, accepted
 undefined densities and failed for symmetric systems with several angular
 momenta

---
 CADMium/inverter/orbitalinvert.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 916daba..3ff60ae 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -35,11 +35,13 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
 
     phi   = np.reshape( x[0:Nelem * np.sum(Nmo)], (Nelem, np.sum(Nmo)), order="F")
     #evals = np.vstack( (x[subset], np.array([[0]])) )
-    Nmo = Nmo[:, None]
+
+    #Angular momentum of each orbital
+    row = np.repeat( np.arange(len(Nmo)), Nmo )
 
     #Check for degenerate and nearly degenerate orbitals
-    for i in range(0, int(np.sum(Nmo, axis=1)-1)):
-        if np.abs( evals[i] - evals[i+1] ) < 1e-6:
+    for i in range(0, np.sum(Nmo) - 1):
+        if row[i] == row[i+1] and np.abs( evals[i] - evals[i+1] ) < 1e-6:
             even =  phi[:, i]   + self.grid.mirror( phi[:,i]   ) \
                   + phi[:, i+1] + self.grid.mirror( phi[:,i+1] )
             odd  =  phi[:, i]   - self.grid.mirror( phi[:,i]   ) \
@@ -49,7 +51,7 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
             phi[:, i+1] = odd  / np.linalg.norm(odd)
 
 
-    for i in range(0, int(np.sum(Nmo, axis=1))):
+    for i in range(0, np.sum(Nmo)):
         if phi[:, i].T @ self.grid.mirror( phi[:, i] ) > 0:
             phi[:, i] += self.grid.mirror( phi[:, i] )
             phi[:, i] /=  np.linalg.norm(  phi[:, i] )
@@ -139,7 +141,7 @@ def kmatrix(x, i_orth, Nelem, Nmo, WWi, H, n0, occ, B2i, B2j, B3i, B3j):
     n = np.sum( np.abs(phi)**2, axis=1)
     S = np.sum( WWi @ np.abs(phi)**2, axis=0)
     ncon = WWi @ ((n-n0) / 2)[:, None]
-    Ncon = (- (S - occ) / 2)[:,0][:,None]
+    Ncon = - (S[:,None] - occ) / 2
     eqn = np.vstack(( KSeq, Ncon[:-1], Ocon, ncon  ))
 
     B2v = np.reshape(WWi @ phi, (np.sum(Nmo) * Nelem, 1), order="F")
@@ -325,7 +327,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                     eqn[ np.array(range( Nelem )) + np.sum(Nmo) * Nelem + np.sum(Nmo) - 1 + North  ]
                     ))
         # res_Ncon = np.max(np.abs( eqn[ subset ] ))
-        res = max(res_ks, res_ncon)
+        res = np.max((res_ks, res_ncon))
 
         if self.optInv.avoid_loop is True and iter > 2:
             if res      < 1e-6 and \
-- 
2.43.0


From fe6298bd766985ba7a5415db2855e3a723188f8c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:37:20 +0000
Subject: [PATCH 45/52] fix: partition runs could not read the report of a
 polarized wu-yang or a simple inversion

---
 CADMium/inverter/linresponse.py | 4 +++-
 CADMium/inverter/simple.py      | 5 +++--
 CADMium/partition/vp_kinetic.py | 7 ++++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index a568228..188f4c1 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -87,5 +87,7 @@ def linresponse(self, n0, vs0=None, ispin=0):
             self.solver[j,1].setveff(self.vs[:,1])
         flag[:,1]   = flag[:,0]
         output[:,1] = output[:,0]
+        spins = [0, 1]
 
-    return flag, output
+    #Report on the spins that were inverted
+    return flag[:, list(spins)], output[:, list(spins)]
diff --git a/CADMium/inverter/simple.py b/CADMium/inverter/simple.py
index 795edd6..116f96d 100644
--- a/CADMium/inverter/simple.py
+++ b/CADMium/inverter/simple.py
@@ -78,6 +78,7 @@ def simple(self, n0, vs0, ispin=0):
     self.vs[:, ispin] = vs
     self.us[0, ispin] = max( i.get_homo() for i in isolver )
 
-    inv_info = SimpleNamespace(nfev = iter, optimality = optimality)
+    output = np.empty((1,1), dtype=object)
+    output[0,0] = SimpleNamespace(nfev = iter, optimality = optimality)
 
-    return bool(optimality <= tol), inv_info
+    return bool(optimality <= tol), output
diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 1b41eb6..9da9f9e 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -87,6 +87,7 @@ def vp_kinetic(self):
             self.KSA.V.vt = np.full(self.KSA.veff.shape, u) - self.KSA.veff
             self.KSB.V.vt = np.full(self.KSB.veff.shape, u) - self.KSB.veff
 
+        inversion_info = []
         for ispin in range(nspin+1):
             ntarget = self.nf[:, ispin]
             if self.pol == 2:
@@ -96,7 +97,11 @@ def vp_kinetic(self):
             e0   = e0.flatten()
 
             #Invert molecular problem:
-            _, self.inversion_info = self.inverter.invert(ntarget, vs0, phi0, e0, ispin)
+            _, info = self.inverter.invert(ntarget, vs0, phi0, e0, ispin)
+            inversion_info.append(info)
+
+        #Report on every spin
+        self.inversion_info = np.hstack(inversion_info)
 
         if self.optPartition.ens_spin_sym is True:
             self.inverter.solver[:,1] = self.inverter.solver[:,0]
-- 
2.43.0


From e5d990d198032bfe62d34c866d4d6669fe7f9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:19 +0000
Subject: [PATCH 46/52] fix: a partition run took an undefined residual for a
 successful inversion

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index b8c8a2d..bc8b9d3 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -225,7 +225,7 @@ def scf(self, optSCF={}):
                     max_nfev = max_nfev if self.inversion_info[ii,jj].nfev < max_nfev else self.inversion_info[ii,jj].nfev
                     max_optimality = max_optimality if self.inversion_info[ii,jj].nfev < max_optimality else self.inversion_info[ii,jj].optimality
 
-                    if self.inversion_info[ii,jj].optimality > 1:
+                    if not self.inversion_info[ii,jj].optimality <= 1:
                         inversionfailures += 1
                     else:
                         inversionfailures = 0
-- 
2.43.0


From 69153a64f8d9983407da67de3c693ad4afc87c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:19 +0000
Subject: [PATCH 47/52] fix: progress lines of a partition run did not show the
 largest residual

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index bc8b9d3..deadcc1 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -223,7 +223,7 @@ def scf(self, optSCF={}):
                 for jj in range(self.inversion_info.shape[1]):
 
                     max_nfev = max_nfev if self.inversion_info[ii,jj].nfev < max_nfev else self.inversion_info[ii,jj].nfev
-                    max_optimality = max_optimality if self.inversion_info[ii,jj].nfev < max_optimality else self.inversion_info[ii,jj].optimality
+                    max_optimality = max_optimality if self.inversion_info[ii,jj].optimality < max_optimality else self.inversion_info[ii,jj].optimality
 
                     if not self.inversion_info[ii,jj].optimality <= 1:
                         inversionfailures += 1
-- 
2.43.0


From 68f47a1acc263c3e43db770c094ba4dfee98e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:04 +0000
Subject: [PATCH 48/52] fix: starting orbitals of an inversion failed where
 fragments differ in their angular momenta or hold no orbital

---
 CADMium/partition/initialguessinvert.py | 51 ++++++++-----------------
 1 file changed, 15 insertions(+), 36 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index c85a90e..8f9b161 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -58,42 +58,21 @@ def initialguessinvert(self, ispin=0):
         H0  = None
         m   = None
 
-        #--> Alpha Kohn Sham object
-        if len( self.KSa.solver[:,ispin]) >= i-1:
-            phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
-            self.KSa.solver[i-1, ispin].hamiltonian()
-            H0  = self.KSa.solver[i-1, ispin].H0
-            m   = self.KSb.solver[i-1, ispin].m
-
-        if self.ens: # Ensemble?
-            if len( self.KSA.solver[:,ispin]) >= i-1:
-                phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1)
-                self.KSA.solver[i-1, ispin].hamiltonian()
-                H0  = self.KSA.solver[i-1, ispin].H0
-                m   = self.KSA.solver[i-1, ispin].m
-
-        if self.optPartition.ab_sym is True:
-            phi = np.append(phi, self.grid.mirror(self.KSa.solver[i-1, ispin].phi), axis = 1 )
-            if self.ens:
-                phi = np.append(phi, self.grid.mirror(self.KSA.solver[i-1, ispin].phi), axis = 1 )
-
-        #--> Beta Kohn Sham object
-        else:
-            if len(self.KSb.solver) >= i-1:
-                phi = np.append(phi, self.KSb.solver[i-1, ispin].phi, axis = 1 )
-                if H0 is None:
-                    H0 = self.KSb.solver[i-1, ispin].H0
-                if m is None:
-                    m = self.KSb.solver[i-1, ispin].m
-            
-            if self.ens: # Ensemble?
-                if len(self.KSB.solver) >= i-1:
-                    phi = np.append(phi, self.KSB.solver[i-1, ispin].phi, axis = 1 )
-                    if H0 is None:
-                        H0 = self.KSB.solver[i-1, ispin].H0
-                    if m is None:
-                        m = self.KSB.solver[i-1, ispin].m
-        
+        #--> Fragments that hold orbitals of this angular momentum
+        for i_KS in KSab:
+            if i_KS.solver.shape[0] < i or i_KS.solver[i-1, ispin].Nmo == 0:
+                continue
+            isolver = i_KS.solver[i-1, ispin]
+            isolver.hamiltonian()
+            H0  = isolver.H0
+            m   = isolver.m
+            phi = np.append(phi, isolver.phi, axis = 1)
+            if self.optPartition.ab_sym is True:
+                phi = np.append(phi, self.grid.mirror(isolver.phi), axis = 1)
+
+        if m is None:
+            continue
+
         S0 = np.diag(phi.T @ W @ Wi @ phi) ** 0.5
         phi = phi / S0
         phi = np.nan_to_num(phi, nan=0.0, posinf=0.0, neginf=0.0)
-- 
2.43.0


From ac2261730bf1d41735db59a3bbf857299363ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 49/52] fix: starting orbitals of an inversion were not those
 the molecule's solver holds

---
 CADMium/partition/initialguessinvert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 8f9b161..c14b480 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -44,6 +44,8 @@ def initialguessinvert(self, ispin=0):
     Nsol = 0
     for i_KS in KSab:
         Nsol = max( Nsol, i_KS.solver[:, ispin].shape[0] )
+    if self.inverter is not None:
+        Nsol = min( Nsol, self.inverter.solver.shape[0] )
 
     # Ts = 0
     # Stores the final product
@@ -81,6 +83,8 @@ def initialguessinvert(self, ispin=0):
         F = phi.T @ (W @ Wi @ H @ phi)
         ev, v = eig(a=F, b=S)
         indx = np.argsort(ev)
+        if self.inverter is not None: #As many of them as the molecule's solver holds
+            indx = indx[:self.inverter.solver[i-1, ispin].Nmo]
         d = np.append( d, ev[indx].real )
         v = v[:, indx]
         phi = phi @ v
-- 
2.43.0


From 8d63a677c905466602a313e4df76cd035b3416a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 50/52] fix: starting orbitals of an inversion were arbitrary
 where fragments have orbitals in common

---
 CADMium/partition/initialguessinvert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index c14b480..f9ad8f4 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -78,10 +78,12 @@ def initialguessinvert(self, ispin=0):
         S0 = np.diag(phi.T @ W @ Wi @ phi) ** 0.5
         phi = phi / S0
         phi = np.nan_to_num(phi, nan=0.0, posinf=0.0, neginf=0.0)
-        S = phi.T @ W @ Wi @ phi
+        #Orthonormal basis, the fragments may have orbitals in common
+        S, U = eigh(phi.T @ W @ Wi @ phi)
+        phi = phi @ (U[:, S > 1e-10] / S[S > 1e-10]**0.5)
         H = spsolve(csc_matrix(W), H0) + csc_matrix(spdiags(v0[:,0], 0, self.grid.Nelem, self.grid.Nelem))
         F = phi.T @ (W @ Wi @ H @ phi)
-        ev, v = eig(a=F, b=S)
+        ev, v = eig(F)
         indx = np.argsort(ev)
         if self.inverter is not None: #As many of them as the molecule's solver holds
             indx = indx[:self.inverter.solver[i-1, ispin].Nmo]
-- 
2.43.0


From 42cc1369b3d3a864882fc0a7b6865046a9491146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 51/52] fix: starting orbitals of an inversion were complex for
 states of the same level

---
 CADMium/partition/initialguessinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index f9ad8f4..ae8f280 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -83,7 +83,7 @@ def initialguessinvert(self, ispin=0):
         phi = phi @ (U[:, S > 1e-10] / S[S > 1e-10]**0.5)
         H = spsolve(csc_matrix(W), H0) + csc_matrix(spdiags(v0[:,0], 0, self.grid.Nelem, self.grid.Nelem))
         F = phi.T @ (W @ Wi @ H @ phi)
-        ev, v = eig(F)
+        ev, v = eigh( 0.5 * (F + F.T) ) #Keeps states of the same level real
         indx = np.argsort(ev)
         if self.inverter is not None: #As many of them as the molecule's solver holds
             indx = indx[:self.inverter.solver[i-1, ispin].Nmo]
-- 
2.43.0


From ce4fac09fb7a44c4a7344e2afcf4334eb84afdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:48 +0000
Subject: [PATCH 52/52] fix: recombine degenerate orbitals into even and odd
 ones only where the potential is symmetric

---
 CADMium/pssolver/calc_orbitals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index f774796..22a5309 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -52,9 +52,11 @@ def calc_orbitals(self, solver_id, return_dict):
             self.phi = self.phi.real
 
         #Check for degenerate and nearly degenerate orbitals
+        #Only a symmetric potential has even and odd ones among them
+        symmetric = np.allclose(self.veff, self.grid.mirror(self.veff))
         for i in range(self.Nmo-1):
             for j in range(i+1, self.Nmo):
-                if np.abs(self.eig[i]-self.eig[j]) < 1e-9:
+                if symmetric and np.abs(self.eig[i]-self.eig[j]) < 1e-9:
                     even = self.phi[:, i] + self.grid.mirror(self.phi[:,i]) + self.phi[:,j] + self.grid.mirror(self.phi[:,j])
                     odd  = self.phi[:, i] - self.grid.mirror(self.phi[:,i]) + self.phi[:,j] - self.grid.mirror(self.phi[:,j])
                     self.phi[:, i] = even/norm(even)
-- 
2.43.0

