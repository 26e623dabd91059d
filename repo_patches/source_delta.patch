From 57f1e1896b88f6c4d6272063eec43a70e91b1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:39 +0000
Subject: [PATCH 01/35] fix: gradient of a combination of bases keeps all its
 members

With three bases or more only the first and the last ones were kept, and a
combination of a single basis raised UnboundLocalError.
---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..e1f1645 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -256,8 +256,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From be2406ec867a90dfcf7757f94c0a5581e50fa650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:39 +0000
Subject: [PATCH 02/35] fix: antiderivative of the centered linear basis takes
 the mean into account

---
 VolterraBasis/basis/_basis_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index e1f1645..9115ce7 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -46,7 +46,7 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        return 0.5 * np.power(X, 2) - self.mean_ * X
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From d1d815d3dc91efeb195e3b6830fbc237f3ca2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 03/35] fix: tensorial basis built from one basis fits each
 factor on its own coordinate

---
 VolterraBasis/basis/_multidim_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_multidim_basis.py b/VolterraBasis/basis/_multidim_basis.py
index 9355d4a..0290203 100644
--- a/VolterraBasis/basis/_multidim_basis.py
+++ b/VolterraBasis/basis/_multidim_basis.py
@@ -1,6 +1,7 @@
 """
 This the main estimator module
 """
+import copy
 import numpy as np
 import scipy.stats
 from sklearn.base import TransformerMixin
@@ -16,7 +17,7 @@ class TensorialBasis2D(TransformerMixin):
         """Take two of basis"""
         self.b1 = b1
         if b2 is None:
-            self.b2 = b1
+            self.b2 = copy.deepcopy(b1)  # Each factor is fitted on its own coordinate
         else:
             self.b2 = b2
         # Force rank projection
-- 
2.43.0


From 4bea81062398e5c72174445d63a6f830fcaa4d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 04/35] fix: midpoint inversion of the Volterra equation uses
 the lags of the midpoints

Kernel values sit at even times 2j*dt and the equation is written at odd times
(2i+1)*dt, the lags are then 2(i-j)+1. The off-diagonal terms used 2(i-j), the
value at time zero came out as half of the kernel (its cell is [0,dt]) and the
last value was never computed for an even number of points.
---
 VolterraBasis/fkernel.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..bffa9d2 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -145,11 +145,12 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
-  do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
-     call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
+  do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):
+     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
 
+  kernel(0,:,:)=2*kernel(0,:,:) ! The first cell, [0,dt], is only half as wide as the others
 
 end subroutine kernel_first_kind_midpoint
 
-- 
2.43.0


From a03f8061b9bc98fd5ea4da4841830f37fd66002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 05/35] fix: sign of the implicit term in the second kind
 simpson inversion

---
 VolterraBasis/fkernel.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index bffa9d2..2c6a7c0 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -277,11 +277,11 @@ subroutine kernel_second_kind_simpson(lenTraj, dim_basis,dim_x, kernel, k0, B0,
   double precision,dimension(dim_basis,dim_x)::num
   integer::i
 
-  invB0=inv(B0+0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
+  invB0=inv(B0-0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
 
   kernel(0,:,:)=k0
   kernel(1,:,:)=matmul(invB0,DxBdot(:,:,1)+0.5*dt*matmul(Bdot(:,:,1),kernel(0,:,:))) ! First point trapz rule
-  invB0=inv(B0+dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
+  invB0=inv(B0-dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
 
   do i=2,lenTraj !! for i in range(1, lenTraj):
      call simpson_integral(num,dt,i,Bdot(:,:,0:i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
-- 
2.43.0


From 4efc6f2fc5c327192a0119a8e246801bdd7c0cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 06/35] fix: stabilised evolution slices the solution along
 time

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 2c6a7c0..0d24200 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -478,7 +478,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From 5f32980d465210be1e09f061a11dd80d734b09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 07/35] fix: trapezoidal evolution includes the end point of
 the memory integral

The routine for the integral leaves out the last point, which is the unknown
of the inversion but a known value of the solution here.
---
 VolterraBasis/fkernel.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 0d24200..7a7f18f 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -447,6 +447,7 @@ subroutine solve_ide_trapz(len_mem, dim_basis, dim_other, kernel, E0, f_coeff,le
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
     call trapz_integral(memory,dt,max_len,E(:,:,i-max_len:i),kernel(0:max_len,:,:), dim_basis,dim_basis,dim_other)
+    memory = memory + 0.5*dt*matmul(E(:,:,i-max_len),kernel(max_len,:,:)) ! End point of the integral
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
   end do
 
@@ -479,6 +480,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
     call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    memory = memory + 0.5*dt*matmul(E(:,:,i-max_len),kernel(max_len,:,:)) ! End point of the integral
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From 98e800494c00bc6b69904b3d425570e436fc8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 08/35] fix: rectangular evolution does not drop the last cell
 of the memory integral

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 7a7f18f..5582ead 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -416,7 +416,7 @@ subroutine solve_ide_rect(len_mem, dim_basis, dim_other, kernel, E0, f_coeff,len
   invK0 = inv(id+kernel(0,:,:)*dt**2)
 
   do i=1,lenTraj-1
-    max_len = min(i,len_mem)-1
+    max_len = min(i,len_mem)
     call rect_integral(memory,dt,max_len,E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1) -dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
   end do
-- 
2.43.0


From 5ee23717f93f66fce7280033803b94d3db9c4e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:40 +0000
Subject: [PATCH 09/35] fix: laplace transform of the kernel reads the time
 axis of the kernel

The coordinate is named time_kernel and has one dimension, the method always
raised an error.
---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..03a8772 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -359,7 +359,7 @@ class ModelBase(object):
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time_kernel"].to_numpy()), self.kernel), x=self.kernel["time_kernel"].to_numpy(), axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From ef445c77220f895739b26fdd89cf3f46c4cad59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:40 +0000
Subject: [PATCH 10/35] fix: loading a model restores all that was saved

The inversion method, the effective masses and the gram matrix of the kernel
were dropped, so the loaded model used the rectangular rule and a unit mass.
The attributes of the saved dataset are no longer modified.
---
 VolterraBasis/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 03a8772..b805ad2 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -386,14 +386,16 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)  # Do not change the saved model
         for key, value in kwargs.items():
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        if "method" in coeffs:
+            model.method = coeffs["method"].item()
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
-- 
2.43.0


From 450eac6137a25d822585f08a8215c7e48dcb57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:40 +0000
Subject: [PATCH 11/35] fix: gram matrix of the kernel under projection on the
 range

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..efea29e 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -211,7 +211,7 @@ class Estimator_gle(object):
             print("Calculate kernel gram...")
         self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            self.model.gram_kernel = xr.DataArray(np.einsum("lj,jk,mk->lm", self.model.P_range, self.model.gram_kernel, self.model.P_range), dims=("dim_basis", "dim_basis'"))
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From b6accd9fb00c460491dfa74bb843a7ced7c52e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:40 +0000
Subject: [PATCH 12/35] fix: direct autocorrelation of several components
 computes all pairs

The products were only taken between identical components, contrary to the fft
version.
---
 VolterraBasis/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index 9b4eaed..bc03b05 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,10 +63,10 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
+    if b is None:  # All pairs, as in correlation_ND
+        a, b = a[np.newaxis, ...], a[:, np.newaxis, ...]
     # TODO: vérifier le type de l'array a et créer un array vide du même type
-    res = np.zeros((a.shape[0], b.shape[0], len_trunc))
+    res = np.zeros(np.broadcast_shapes(a.shape[:-1], b.shape[:-1]) + (len_trunc,))
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
     for n in range(1, len_trunc):
         res[:, :, n] = (a[..., :-n] * b[..., n:]).sum(axis=-1) / (len_dat - n)
-- 
2.43.0


From 1ff90f94581ef1e958f6ddc01d20c1c123efa143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:40 +0000
Subject: [PATCH 13/35] fix: integrator without a model or with a truncated
 kernel

The time axis of the noise was always the one of the whole kernel of a model.
---
 VolterraBasis/gle_integrate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..a08e0ee 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -223,7 +223,11 @@ class Integrator_gle(object):
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        if gle_model is not None:
+            time_kernel = gle_model.kernel["time_kernel"].to_numpy()[: self.trunc_kernel]
+        else:
+            time_kernel = np.arange(self.trunc_kernel) * self.dt
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, time_kernel, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From 7a68ba47a6534400ba3bdafb5532da10c1db5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:52 +0000
Subject: [PATCH 14/35] fix: time derivative of the hybrid basis is not summed
 over time

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index b805ad2..5d4506e 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -631,7 +631,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From 73a930f041ef5842b042aa067836bcde3addfc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:01 +0000
Subject: [PATCH 15/35] fix: force in the noise decomposition keeps its
 coordinates

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 5d4506e..7486315 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From 683879fde822d03bf8304616127394c5131b07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:24 +0000
Subject: [PATCH 16/35] fix: trapezoidal memory counts the last kernel value
 with half weight

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 5582ead..57e2da5 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -327,7 +327,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From 78a95561435938d1e07223d56e41793901ceefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:37 +0000
Subject: [PATCH 17/35] fix: finite element test of points inside tetrahedra
 takes self

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..1ed2121 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -63,7 +63,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From a860d722ec4e27c30d9c747b311cd2b4d6d40ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:37 +0000
Subject: [PATCH 18/35] fix: gradient of finite elements in several dimensions
 keeps its coordinates in order

---
 VolterraBasis/basis/_fem_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 1ed2121..730ea10 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -121,9 +121,9 @@ class FEMScalarFeatures(TransformerMixin):
         x = X.T
         # cells = self.basis_fem.mesh.element_finder(mapping=self.basis_fem.mapping)(*x)  # TODO: Il faudrait trouver un moyen de mettre en cache ce résultat
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
-        phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
+        phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad[..., 0] for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
         return sparse.COO(
-            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
+            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis.transpose([1, 0, 2])), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
 
     def hessian(self, X):  # Only for Elementglobal
-- 
2.43.0


From a1b0e9a62b2c42b2e4678228f84fe59a71269e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:37 +0000
Subject: [PATCH 19/35] fix: search of the element of a point on a line,
 whatever the order of the vertices

---
 VolterraBasis/basis/_fem_features.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 730ea10..e34869d 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -19,10 +19,10 @@ class ElementFinder:
         self.dim = mesh.dim()
         # Transform mesh to triangular version if needed
         if self.dim == 1:
-            self.max_point = np.max(mesh.p)  # To avoid strict < in np.digitize
-            ix = np.argsort(mesh.p)
-            self.bins = mesh.p[0, ix[0]]
-            self.bins_idx = mesh.t[0]
+            ix = np.argsort(mesh.p[0])
+            self.bins = mesh.p[0, ix]
+            rank = np.argsort(ix)  # Position of each vertex along the line
+            self.bins_idx = np.min(rank[mesh.t], axis=0)  # Element are known by their leftmost vertex
             self.find = self.find_element_1D
         # elif self.dim == 2:
         #     self.find = self.find_element_2D
@@ -40,9 +40,8 @@ class ElementFinder:
         """
         Assuming X is nsamples x 1
         """
-        maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        cells = np.clip(np.digitize(X[:, 0], self.bins) - 1, 0, len(self.bins) - 2)  # The last point belong to the last element
+        return np.argmax(cells[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From 613f6a38aef06ed97323fee6ffa6dd98978249b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:37 +0000
Subject: [PATCH 20/35] fix: search of the element of a point in meshes of few
 or elongated elements

---
 VolterraBasis/basis/_fem_features.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index e34869d..4d77aeb 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -47,12 +47,15 @@ class ElementFinder:
         return self.mesh_finder(X[:, 0], X[:, 1])
 
     def find_element_ND(self, X, _search_all=False):
-        tree_query = self.tree.query(X, 5)[1]
+        tree_query = self.tree.query(X, range(1, min(5, self.tree.n) + 1))[1]
         element_inds = np.empty((X.shape[0],), dtype=int)
         for n, point in enumerate(X):  # Try to avoid loop
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
+            if not np.any(inside):  # Not in one of the closest elements, search in all of them
+                i_e = np.arange(self.tree.n)
+                inside = self.inside(self.mapping.invF((point.T)[:, None, None], tind=i_e))
             element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
-- 
2.43.0


From fc6fa6639d60525ec19a381ad8ec9459fd34d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:34 +0000
Subject: [PATCH 21/35] fix: saving the correlations when those of the
 derivatives are not computed

---
 VolterraBasis/gle_estimation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index efea29e..f343039 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -284,7 +284,10 @@ class Estimator_gle(object):
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
+            if isinstance(self.dotbkbkcorrw, xr.DataArray):  # When only the initial value is computed there is no correlation of the derivatives to save
+                corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
+            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
-- 
2.43.0


From a7f41acb8aab6f8bc8443b42f7dde064c9d2b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:34 +0000
Subject: [PATCH 22/35] fix: prefix is used in the name of the saved files

---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index f343039..c47bf9c 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -56,8 +56,8 @@ class Estimator_gle(object):
         self.verbose = verbose
 
         # filenames
-        self.corrsfile = "corrs.nc"
-        self.kernelfile = "kernel.nc"
+        self.corrsfile = prefix + "corrs.nc"
+        self.kernelfile = prefix + "kernel.nc"
 
         self.data_describe = None
 
-- 
2.43.0


From 16b63fd4577e2cf0ad8cf4c1257c44b11b869f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:34 +0000
Subject: [PATCH 23/35] fix: evaluate the kernel of a model loaded from a file

---
 VolterraBasis/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 7486315..6b44cfb 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -53,8 +53,8 @@ class ModelBase(object):
         """
         self.L_obs = L_obs
 
-        self.dim_x = dim_x
-        self.dim_obs = dim_obs
+        self.dim_x = int(dim_x)
+        self.dim_obs = int(dim_obs)
 
         self.dt = dt
         self.trunc_ind = int(trunc_ind)
-- 
2.43.0


From ff53e587da0af4d3e3a590611951f0647aca17ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:34 +0000
Subject: [PATCH 24/35] fix: saving a model whose gram matrix or mass have
 another number of basis functions than its kernel

---
 VolterraBasis/models.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 6b44cfb..4a999d7 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -372,8 +372,13 @@ class ModelBase(object):
             coeffs.update({"force_coeff": self.force_coeff.rename({"dim_basis": "dim_basis_force"})})
         if self.gram_force is not None:
             coeffs.update({"gram_force": self.gram_force.rename({"dim_basis": "dim_basis_force", "dim_basis'": "dim_basis_force'"})})
+        # Those could have a different number of basis functions than the kernel
+        if self.gram_kernel is not None:
+            coeffs.update({"gram_kernel": self.gram_kernel.rename({"dim_basis": "dim_basis_gram", "dim_basis'": "dim_basis_gram'"})})
+        if self.inv_mass_coeff is not None:
+            coeffs.update({"inv_mass_coeff": self.inv_mass_coeff.rename({"dim_basis": "dim_basis_mass"})})
         for key, dat in self.__dict__.items():
-            if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
+            if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "gram_kernel", "inv_mass_coeff", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
                 if dat is not None:
                     coeffs.update({key: dat})
 
@@ -400,6 +405,11 @@ class ModelBase(object):
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
             model.gram_force = model.gram_force.rename({"dim_basis_force": "dim_basis", "dim_basis_force'": "dim_basis'"})
+        for key in ["gram_kernel", "inv_mass_coeff"]:
+            dat = getattr(model, key)
+            if dat is not None:
+                names = {"dim_basis_gram": "dim_basis", "dim_basis_gram'": "dim_basis'", "dim_basis_mass": "dim_basis"}
+                setattr(model, key, dat.rename({old: new for old, new in names.items() if old in dat.dims}))
 
         return model
 
-- 
2.43.0


From eaa0cc80b5c4e70f1c81f7ddb36bd743e1b1e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 25/35] fix: kernel of the hybrid model in several dimensions

---
 VolterraBasis/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 4a999d7..af58b97 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -623,7 +623,7 @@ class Pos_gle_hybrid(Pos_gle):
     def __init__(self, *args, **kwargs):
         ModelBase.__init__(self, *args, **kwargs)
         self.N_basis_elt_force = self.N_basis_elt
-        self.N_basis_elt_kernel = self.N_basis_elt + 1
+        self.N_basis_elt_kernel = self.N_basis_elt + self.dim_x
         if self.basis.const_removed:
             self.basis.const_removed = False
             print("Warning: remove_const on basis function have been set to False.")
@@ -653,7 +653,9 @@ class Pos_gle_hybrid(Pos_gle):
         """
         if self.kernel is None:
             raise Exception("Kernel has not been computed.")
-        return self.kernel.sel(dim_basis=0)
+        if self.dim_x == 1:
+            return self.kernel.sel(dim_basis=0)
+        return self.kernel.isel(dim_basis=slice(0, self.dim_x))
 
     def kernel_eval(self, x):
         """
@@ -664,7 +666,7 @@ class Pos_gle_hybrid(Pos_gle):
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        return xr.dot(self.kernel.sel(dim_basis=slice(1, None)), E.rename({"dim_x": "dim_x'"}))
+        return xr.dot(self.kernel.isel(dim_basis=slice(self.dim_x, None)), E.rename({"dim_x": "dim_x'"}))
         # return self.kernel["time_kernel"], np.einsum("jkd,ikl->ijld", E, self.kernel[:, 1:, :])  # Return the kernel as array (time x nb of evalution point x dim_obs x dim_x)
 
 
-- 
2.43.0


From 1e9ad87b16c2c658e344f0fd3121ea9b8becbeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 26/35] fix: prony fit keeping as many terms as there are
 singular values

---
 VolterraBasis/fit_prony.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index caadf4d..56e316f 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -42,7 +42,8 @@ def ldl_hankel(y, n=None, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     # print("Prony: Singular values. Value lower than thres are considered zero.")
@@ -139,7 +140,8 @@ def prony_inspect_data(data, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     print("Prony: Singular values. Value lower than thres are considered zero.")
-- 
2.43.0


From c86c48d4023ea4b26a5658da7d3212284f705859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 27/35] fix: evaluate a prony series at a single time

---
 VolterraBasis/fit_prony.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 56e316f..e2ccbed 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -191,7 +191,7 @@ def prony_series_eval(times, y0, A):
     A :
         Result of the prony fitting.
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).reshape(-1)
     nb_times = times.shape[0]
     fit = np.zeros((nb_times,))
     for i, t in enumerate(times.flatten()):  # TODO: Implement with linear system
@@ -238,13 +238,13 @@ def prony_series_kernel_eval(times, list_A):
     list_A:
         The result of fit_kernel
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).reshape(-1)
     nb_times = times.shape[0]
     dim_x = len(list_A)
     dim_basis = len(list_A[0])
     fit = np.zeros((nb_times, dim_basis, dim_x))
     for d in range(dim_x):
         for k in range(dim_basis):
-            for i, t in enumerate(times.squeeze()):
+            for i, t in enumerate(times):
                 fit[i, k, d] = list_A[d][k][0] * scipy.linalg.expm(t * list_A[d][k][1])[0, 0]
     return fit
-- 
2.43.0


From 54e0c4d469cda60d757fb93e018fb566e0a8d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 28/35] fix: flux of the Volterra equation used wrong lags,
 left out the last kernel value and transposed the drift

---
 VolterraBasis/models.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index af58b97..d29b938 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -332,16 +332,23 @@ class ModelBase(object):
             kernel = np.asarray(kernel)
         if trunc_ind is not None:
             kernel = kernel[:trunc_ind, :, :]
-        force_term = np.matmul(force_coeff, corrs_force)
-        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[1], kernel.shape[-1]))
+        corrs_force, corrs_kernel = np.asarray(corrs_force), np.asarray(corrs_kernel)
+        force_term = np.einsum("ijt,jk->ikt", corrs_force, force_coeff)
+        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[0], kernel.shape[-1]))
         for n in range(1, corrs_kernel.shape[-1]):
-            max_len = min(n, kernel.shape[0])
+            max_len = min(n, kernel.shape[0] - 1)
+            if max_len == 0:
+                continue
+            # Correlations from lag n - max_len to lag n, the integral routines leave out the last value of the kernel
+            corrs_n = corrs_kernel[:, :, n - max_len : n + 1]
+            kernel_n = kernel[: max_len + 1, :, :]
+            last_term = self.dt * np.matmul(corrs_n[:, :, 0], kernel_n[max_len, :, :])
             if method == "rect":
-                res_int[n, :] = -1 * rect_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
-            elif method == "trapz":
-                res_int[n, :] = -1 * trapz_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * rect_integral(self.dt, corrs_n, kernel_n)
+            elif method == "trapz" or (method == "simpson" and max_len == 1):
+                res_int[n, :] = -1 * (trapz_integral(self.dt, corrs_n, kernel_n) + 0.5 * last_term)
             elif method == "simpson":
-                res_int[n, :] = -1 * simpson_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * (simpson_integral(self.dt, corrs_n, kernel_n) + last_term / 3)
 
         return force_term, res_int
 
-- 
2.43.0


From 72ed1a60ded74ef171c11280585df6400c4e9ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 29/35] fix: pool the variance, skewness and kurtosis of
 several trajectories

---
 VolterraBasis/basis/_data_describe.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_data_describe.py b/VolterraBasis/basis/_data_describe.py
index bbfc058..6edc349 100644
--- a/VolterraBasis/basis/_data_describe.py
+++ b/VolterraBasis/basis/_data_describe.py
@@ -27,8 +27,31 @@ def describe_from_dim(dim):
     return DescribeResult(15, (np.zeros(dim), np.zeros(dim)), np.zeros(dim), np.zeros(dim), np.zeros(dim), np.zeros(dim))
 
 
+def _central_moments(d):
+    """
+    Second, third and fourth central moments of a described data set
+    """
+    m2 = d.variance * (d.nobs - 1) / d.nobs if d.nobs > 1 else np.zeros_like(d.mean)  # A single point has no variance
+    # Skewness and kurtosis are nan for constant data
+    return m2, np.nan_to_num(d.skewness) * m2 * np.sqrt(m2), np.nan_to_num(d.kurtosis + 3) * m2**2
+
+
 def sum_describe(d1, d2):
-    return DescribeResult(d1.nobs + d2.nobs, (np.minimum(d1.minmax[0], d2.minmax[0]), np.maximum(d1.minmax[1], d2.minmax[1])), (d1.mean * d1.nobs + d2.mean * d2.nobs) / (d1.nobs + d2.nobs), d1.variance, d1.skewness, d1.kurtosis)
+    """
+    Description of the union of two data sets
+    """
+    nobs = d1.nobs + d2.nobs
+    mean = (d1.mean * d1.nobs + d2.mean * d2.nobs) / nobs
+    m2, m3, m4 = 0.0, 0.0, 0.0
+    for d in (d1, d2):
+        shift = d.mean - mean
+        d_m2, d_m3, d_m4 = _central_moments(d)
+        m2 = m2 + (d_m2 + shift**2) * d.nobs / nobs
+        m3 = m3 + (d_m3 + 3 * shift * d_m2 + shift**3) * d.nobs / nobs
+        m4 = m4 + (d_m4 + 4 * shift * d_m3 + 6 * shift**2 * d_m2 + shift**4) * d.nobs / nobs
+    with np.errstate(divide="ignore", invalid="ignore"):
+        skewness, kurtosis = m3 / (m2 * np.sqrt(m2)), m4 / m2**2 - 3
+    return DescribeResult(nobs, (np.minimum(d1.minmax[0], d2.minmax[0]), np.maximum(d1.minmax[1], d2.minmax[1])), mean, m2 * nobs / (nobs - 1), skewness, kurtosis)
 
 
 # Il faudrait faire un calcul de descripteurs avec accumulation sur les trajs ?
-- 
2.43.0


From 635a50cb39bc983336e756e9a162485d6f74c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 30/35] fix: count the lags from the start of each trajectory
 in the truncation

---
 VolterraBasis/gle_estimation.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index c47bf9c..2c2cc81 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -125,14 +125,12 @@ class Estimator_gle(object):
                     raise Exception("Please provide dataset that include {} as variable .".format(L_obs))
 
     def _compute_trunc_ind(self, trunc):
-        lastinds = np.array([xva["time"][-1] for xva in self.xva_list])
-        smallest = np.min(lastinds)
-        if smallest < trunc:
+        lags = [xva["time"].data - xva["time"].data[0] for xva in self.xva_list]  # The trajectories could start at any time
+        if min(lag[-1] for lag in lags) < trunc:
             if self.verbose:
                 print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
-            trunc = smallest
         # Find index of the time truncation
-        self.trunc_ind = (self.xva_list[0]["time"] <= trunc).sum().data
+        self.trunc_ind = min((lag <= trunc).sum() for lag in lags)
         if self.verbose:
             print("Trajectories are truncated at lenght {} for dynamic analysis".format(self.trunc_ind))
         return self.trunc_ind
-- 
2.43.0


From 184f3b0a082f5ba66fe4dc6a2f4d5dd954f4cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 31/35] fix: complex logarithm of the negative eigenvalues in
 the prony fit

---
 VolterraBasis/fit_prony.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index e2ccbed..598e930 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -105,7 +105,7 @@ def clean_eigenvalues(J, dt, remove=True, debug=False):
     # We need to duplicate real eigenvalue with negative value
     dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))
     n_dupl = len(lamb[dupl])
-    log_lamp = np.log(lamb) / dt
+    log_lamp = np.emath.log(lamb) / dt  # Negative eigenvalues have a complex logarithm
     # add eigenvector
     new_vect = np.zeros((len(lamb) + n_dupl, len(lamb) + n_dupl), dtype=complex)
     new_vect[: len(lamb), : len(lamb)] = vect
-- 
2.43.0


From ceea7c8aae0b95a70d5aae323b43f5b6aca55a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 32/35] fix: number of bins of the free energy

---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 654cf73..9e1f4cf 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -190,7 +190,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
         # # D'abord on obtient les bins
         min_x = np.min([xva["x"].min("time") for xva in xva_list])
         max_x = np.max([xva["x"].max("time") for xva in xva_list])
-        x_bins = np.linspace(min_x, max_x, bins)
+        x_bins = np.linspace(min_x, max_x, bins + 1)
     else:
         raise ValueError("bins should be a str or a int")
 
-- 
2.43.0


From 0583ae021134d7d694ed0c7b568786f18e5ccf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 33/35] fix: count the smallest position in the free energy

---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 9e1f4cf..452c5fc 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -198,7 +198,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
     count_bins = 0
     for xva in xva_list:
         # add v^2 to the list
-        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins)
+        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins, include_lowest=True)
         # print(ds_groups)
         mean_val += ds_groups.sum().fillna(0)
         count_bins += ds_groups.count().fillna(0)
-- 
2.43.0


From 0c01e94be782f6b9c0ee9e2bf9826e88e26bb8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:39 +0000
Subject: [PATCH 34/35] fix: noise shorter than the filter was convolved with
 the tail of the filter only

---
 VolterraBasis/gle_integrate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index a08e0ee..fec2452 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -56,9 +56,10 @@ class ColoredNoiseGenerator:
             self.sqk[:, d, d] = ift(sqk_ft, w, t_sym).real
 
     def generate(self, size):
-        colored_noise = np.empty((max(size, self.sqk.shape[0]), self.dim))
+        n_draw = max(size, self.sqk.shape[0])  # The convolution is centered on the longest of the two
+        colored_noise = np.empty((n_draw, self.dim))
         for d in range(self.dim):
-            white_noise = self.rng(size=size)
+            white_noise = self.rng(size=n_draw)
             colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="same")
         return colored_noise[:size] * np.sqrt(self.dt)
 
-- 
2.43.0


From 9110b3e232f0ac9b8abe2a930badf69d5d91004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:39 +0000
Subject: [PATCH 35/35] fix: free energy used automatic bins whatever rule was
 asked for

---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 452c5fc..c8c8c40 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -185,7 +185,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
         If False return the free energy else return the histogram
     """
     if isinstance(bins, str):
-        x_bins = np.histogram_bin_edges(np.concatenate([xva["x"].data for xva in xva_list], axis=0), bins="auto")
+        x_bins = np.histogram_bin_edges(np.concatenate([xva["x"].data for xva in xva_list], axis=0), bins=bins)
     elif isinstance(bins, int):
         # # D'abord on obtient les bins
         min_x = np.min([xva["x"].min("time") for xva in xva_list])
-- 
2.43.0

