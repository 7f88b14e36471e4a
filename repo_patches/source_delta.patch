From 178e46278667a3143208feb3c614ae302bb14ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 01/14] fix: batch solution of finite-state control finds
 optima of cost 1e10 and above

---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c491f..fddf99a 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -573,7 +573,7 @@ class FSC:
         u_list     = [0] * T
         min_u_list = u_list.copy()
         min_x_list = []
-        min_cost   = 1e10
+        min_cost   = np.inf
 
         udim = self.f[0].shape[1]
         done = False
-- 
2.43.0


From 204d464ca83ee75bcab15731efe2dc75c62d9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 02/14] fix: keep real-valued costs-to-go when the stage costs
 are integers

---
 parallel_control/fsc_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index fddf99a..bfc0f5d 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -182,7 +182,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -300,7 +300,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
-- 
2.43.0


From e21609fad718c3eaacc4562a628ef739c28d816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 03/14] fix: finite-state control and Viterbi scans accept a
 single time step

---
 parallel_control/fsc_tf.py     | 6 +++---
 parallel_control/viterbi_tf.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index f4f77c2..b546f10 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -192,7 +192,7 @@ def fsc_par_backwardpass(fs, Ls, LT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(fsc_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -273,7 +273,7 @@ def fsc_par_forwardpass(x0, fs, us, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_f,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     min_xs = elems[...,0]
 #    min_us = tf.gather_nd(us, tf.expand_dims(min_xs[:-1],-1), batch_dims=1)
@@ -342,7 +342,7 @@ def fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_V,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vfs = elems[:,0,:]
     min_xs = tf.argmin(Vfs + Vs, axis=-1, output_type=fs.dtype)
diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index b7a5156..f99de9b 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -373,7 +373,7 @@ def viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=10000):
     elems1 = viterbi_par_forwardpass_init(prior, Pi, Po, ys)
     elems2 = tfp.math.scan_associative(viterbi_par_comb_V,
                                       elems1,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
     Ls = elems1[1:]
     Vs = elems2[:, 0, :]
 
@@ -428,7 +428,7 @@ def viterbi_par_backwardpass(us, VT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_f,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     xs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -512,7 +512,7 @@ def viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     elems = tf.reverse(rev_elems, axis=[0])
 
-- 
2.43.0


From f9018e5bf06108b96f26436935a20aa5328b53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 04/14] fix: keep the value matrices of the sequential LQ
 recursions symmetric

---
 parallel_control/lqt_np.py | 3 +++
 parallel_control/lqt_tf.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index b6aa31a..def3df6 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -147,6 +147,7 @@ class LQR:
             Kx = linalg.solve(self.U + self.L.T @ S @ self.L,
                               self.L.T @ S @ self.F, assume_a='pos')
             S = self.F.T @ S @ (self.F - self.L @ Kx) + self.X
+            S = 0.5 * (S + S.T)  # rounding errors in the antisymmetric part grow with unstable F
             S_list.append(S)
             Kx_list.append(Kx)
 
@@ -360,6 +361,7 @@ class LQR:
             K = linalg.solve(self.U + self.L.T @ S @ self.L,
                              self.L.T @ S @ self.F, assume_a='pos')
             S = self.F.T @ S @ (self.F - self.L @ K) + self.X
+            S = 0.5 * (S + S.T)  # rounding errors in the antisymmetric part grow with unstable F
 
         return K, S
 
@@ -645,6 +647,7 @@ class LQT:
             S = self.H[k].T @ self.X[k] @ self.H[k] \
                 - self.H[k].T @ self.M[k] @ self.Z[k] @ Kx \
                 + self.F[k].T @ S @ (self.F[k] - self.L[k] @ Kx)
+            S = 0.5 * (S + S.T)  # rounding errors in the antisymmetric part grow with unstable F
             Kx_list.append(Kx)
             d_list.append(d)
             S_list.append(S)
diff --git a/parallel_control/lqt_tf.py b/parallel_control/lqt_tf.py
index 9825e9d..1401883 100644
--- a/parallel_control/lqt_tf.py
+++ b/parallel_control/lqt_tf.py
@@ -135,6 +135,7 @@ def lqt_seq_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
         d  = tf.linalg.cholesky_solve(CF, tf.expand_dims(rh,-1))[...,0]
         v  = mv(H, mv(X, r), transpose_a=True) + mv(F - mm(L,Kx), v - mv(S, c), transpose_a=True)
         S  = mm(F, mm(S, F - mm(L,Kx)), transpose_a=True) + mm(H, mm(X, H), transpose_a=True)
+        S  = 0.5 * (S + tf.linalg.matrix_transpose(S))  # rounding errors in the antisymmetric part grow with unstable F
 
         return S, v, Kx, d
 
-- 
2.43.0


From 3016e292d190526bd74a800653d8c765034e9dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 05/14] fix: condensing handles blocks whose condensed cost is
 singular

---
 parallel_control/condensing_np.py | 2 +-
 parallel_control/condensing_tf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index d63a09a..57f8a56 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -138,7 +138,7 @@ class LQTCondenser:
 
             tmp = np.zeros((rdim+udim)*Nc)
             tmp[0:(rdim*Nc)] = Hbar @ cbar
-            rsstar = linalg.solve(XUMstar, trans.T @ XUbar @ (rsbar - tmp), assume_a='pos')
+            rsstar = linalg.lstsq(XUMstar, trans.T @ XUbar @ (rsbar - tmp))[0]  # XUMstar can be singular
 
             Xstar = XUMstar[0:xdim,0:xdim]
             Mstar = XUMstar[0:xdim,xdim:]
diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index bb9ae9d..060d18d 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -121,7 +121,7 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
 
     tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
     tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
-    rsstar = tf.linalg.solve(XUMstar, tf.expand_dims(tmp,-1))[..., 0]
+    rsstar = tf.linalg.lstsq(XUMstar, tf.expand_dims(tmp,-1), fast=False)[..., 0]  # XUMstar can be singular
 
     rstar = rsstar[:,0:Fs_blocks.shape[-1]]
     sstar = rsstar[:,Fs_blocks.shape[-1]:]
-- 
2.43.0


From e224a6489bf2d40f2bace79d89761e8970be38dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 06/14] fix: SQP solvers stop only at points that satisfy the
 first-order conditions

---
 parallel_control/sqp_np.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parallel_control/sqp_np.py b/parallel_control/sqp_np.py
index 4ce1166..90b6142 100644
--- a/parallel_control/sqp_np.py
+++ b/parallel_control/sqp_np.py
@@ -45,7 +45,7 @@ def local_eq(fun, con, x0, max_iter=100, tol=1e-6, quiet=False):
         con: Equality constraint function.
         x0: Initial guess.
         max_iter: Maximum number of iterations.
-        tol: Tolerance for stopping.
+        tol: Tolerance for the norm of the first-order conditions (Lagrangian gradient and constraint).
         quiet: If True, do not print anything.
 
     Returns:
@@ -86,8 +86,7 @@ def local_eq(fun, con, x0, max_iter=100, tol=1e-6, quiet=False):
         lam = hlam
 
         iter = iter + 1
-        crit = jnp.linalg.norm(Jl)
-
+        crit = jnp.linalg.norm(jnp.concatenate((dlag(x, lam), con(x))))
 
         if not quiet:
             print(f'{iter} / {max_iter} : x={x}, |Jl|={jnp.linalg.norm(Jl)}')
@@ -225,7 +224,7 @@ def bfgs_eq_bt(fun, con, x0, max_iter=10, tol=1e-6, max_backtrack=10, damped=Tru
         con: Equality constraint function.
         x0: Initial guess.
         max_iter: Maximum number of iterations.
-        tol: Tolerance for the norm of the Lagrangian gradient.
+        tol: Tolerance for the norm of the first-order conditions (Lagrangian gradient and constraint).
         max_backtrack: Maximum number of backtracking steps.
         damped: If True, use damped BFGS update.
         quiet: If True, do not print anything.
@@ -293,7 +292,7 @@ def bfgs_eq_bt(fun, con, x0, max_iter=10, tol=1e-6, max_backtrack=10, damped=Tru
             B = bfgs_basic_update(B, s, y, quiet)
 
         iter = iter + 1
-        crit = jnp.linalg.norm(Jl_new)
+        crit = jnp.linalg.norm(jnp.concatenate((Jl_new, con(x))))
 
         if not quiet:
             print(f'{iter} / {max_iter} : x={x}, |Jl|={jnp.linalg.norm(Jl_new)}, alpha={alf}')
-- 
2.43.0


From 9435ca7d3f021fddbbd6d3f9c6fecc78b2cd7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 07/14] fix: LTI discretisation keeps real noise and input
 gains when F is an integer matrix

---
 parallel_control/disc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 2f14e5f..7f5ff1e 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -31,7 +31,7 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     if np.isscalar(Qc):
         Qc = np.array([[Qc]])
 
-    Phi = np.zeros((2*n,2*n), dtype=F.dtype)
+    Phi = np.zeros((2*n,2*n), dtype=np.result_type(F, L, Qc))
     Phi[ 0:n,  0:n] = F
     Phi[ 0:n,  n: ] = L @ Qc @ L.T
     Phi[n:2*n, n: ] = -F.T
@@ -69,7 +69,7 @@ def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
 
     m = G.shape[1]
 
-    Psi = np.zeros((n+m,n+m), dtype=F.dtype)
+    Psi = np.zeros((n+m,n+m), dtype=np.result_type(F, G))
     Psi[0:n, 0:n] = F
     Psi[0:n, n: ] = G
 
-- 
2.43.0


From 7d5393eb19e47c9571eb1ac8e0740a03bfe449dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 08/14] fix: HJB shooting time grid has exactly one time per
 control segment

---
 parallel_control/hjb_grid_1d_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c77e5c0..b1028e4 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -53,7 +53,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[0]
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = jax.numpy.arange(a_vec.shape[0]) * dt
     def body(carry, inp):
         a, b, ti = inp
         def f(xc, t):
@@ -126,7 +126,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[0]-1)
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = jax.numpy.arange(theta.shape[0]-1) * dt
     def body(carry, inp):
         _, prev_u = carry
         b, ti = inp
-- 
2.43.0


From 6cb19bc5f58730bd4359fe1369a673e5f140cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 09/14] fix: HJB value interpolation keeps the grid minimum
 where it is flat

---
 parallel_control/hjb_grid_1d_np.py | 8 ++++++--
 parallel_control/hjb_grid_1d_tf.py | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index b1028e4..76a4a10 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -242,7 +242,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = jnp.take_along_axis(Vsum, jm1, axis=1)
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
-    Vik = fi - (fp1 - fm1)**2 / (fp1 + fm1 - 2.0 * fi + lam) / 8.0
+    den = fp1 + fm1 - 2.0 * fi + lam
+    den = jnp.where(den > 0.0, den, jnp.inf)  # Flat minimum needs no correction
+    Vik = fi - (fp1 - fm1)**2 / den / 8.0
 #    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
 
     return Vik[:,0,:]
@@ -267,7 +269,9 @@ def combine_V_interp2(Vij, Vjk):
             jm1 = jnp.abs(j-1) # Converts -1 to 1
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
-            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / (f[jp1] + f[jm1] - 2.0 * f[j] + lam) / 8.0
+            den = f[jp1] + f[jm1] - 2.0 * f[j] + lam
+            den = jnp.where(den > 0.0, den, jnp.inf)  # Flat minimum needs no correction
+            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / den / 8.0
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
 #            else:
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 57b50f4..771b285 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -292,7 +292,10 @@ def combine_V_interp(Vij, Vjk):
     fm1 = tf.gather_nd(VsumT, jTm1, batch_dims=3)
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
-    return fi - (fp1 - fm1)**2 / (fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam) / tf.constant(8.0, dtype=Vij.dtype)
+    den = fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam
+    den = tf.where(den > 0, den, tf.constant(math.inf, dtype=Vij.dtype))  # Flat minimum needs no correction
+
+    return fi - (fp1 - fm1)**2 / den / tf.constant(8.0, dtype=Vij.dtype)
 
 def combine_V_interp_rev(Vjk, Vij):
     """ Combine two value functions with interpolation in reversed order.
-- 
2.43.0


From a5b34ee7a560fbdc2e937548680b94b55dc77c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 10/14] fix: HJB value interpolation ignores unreachable
 neighbouring grid points

---
 parallel_control/hjb_grid_1d_np.py | 4 ++--
 parallel_control/hjb_grid_1d_tf.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index 76a4a10..844689e 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -243,7 +243,7 @@ def combine_V_interp(Vij, Vjk):
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
     den = fp1 + fm1 - 2.0 * fi + lam
-    den = jnp.where(den > 0.0, den, jnp.inf)  # Flat minimum needs no correction
+    den = jnp.where((den > 0.0) & (den < 0.5 * _HJB_GRID_NP_INFTY), den, jnp.inf)  # No correction at flat minima and next to unreachable points
     Vik = fi - (fp1 - fm1)**2 / den / 8.0
 #    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
 
@@ -270,7 +270,7 @@ def combine_V_interp2(Vij, Vjk):
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
             den = f[jp1] + f[jm1] - 2.0 * f[j] + lam
-            den = jnp.where(den > 0.0, den, jnp.inf)  # Flat minimum needs no correction
+            den = jnp.where((den > 0.0) & (den < 0.5 * _HJB_GRID_NP_INFTY), den, jnp.inf)  # No correction at flat minima and next to unreachable points
             Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / den / 8.0
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 771b285..aa66c60 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -293,7 +293,7 @@ def combine_V_interp(Vij, Vjk):
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
     den = fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam
-    den = tf.where(den > 0, den, tf.constant(math.inf, dtype=Vij.dtype))  # Flat minimum needs no correction
+    den = tf.where((den > 0) & (den < 0.5 * _HJB_GRID_TF_INFTY), den, tf.constant(math.inf, dtype=Vij.dtype))  # No correction at flat minima and next to unreachable points
 
     return fi - (fp1 - fm1)**2 / den / tf.constant(8.0, dtype=Vij.dtype)
 
-- 
2.43.0


From b77e9073fb1abcb13520a82b7b30c1643bed6f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 11/14] fix: FSC.checkAndExpand accepted costs of the wrong
 number of dimensions

---
 parallel_control/fsc_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index bfc0f5d..5fb8b68 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -152,12 +152,12 @@ class FSC:
             LT = np.ones((xdim,), dtype=L[0].dtype)
 
         for k in range(T):
-            if (f[k].shape[0] != xdim) or (f[k].shape[1] != udim):
+            if f[k].shape != (xdim, udim):
                 raise ValueError(f"Shape of f[{k}] ({f[k].shape}) is not as expected ({xdim},{udim}).")
-            if (L[k].shape[0] != xdim) or (L[k].shape[1] != udim):
+            if L[k].shape != (xdim, udim):
                 raise ValueError(f"Shape of L[{k}] ({L[k].shape}) is not as expected ({xdim},{udim}).")
 
-        if f[0].shape[0] != LT.shape[0]:
+        if LT.shape != (xdim,):
             raise ValueError(f"Shapes of f[0] ({f[0].shape}) and LT ({LT.shape}) don't match.")
 
         return cls(f, L, LT)
-- 
2.43.0


From 0e43ff065711ec5b7585002d6b8312de116ef6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 12/14] fix: NLQT.linearize wrote into the lists the caller
 built the LQT from

---
 parallel_control/nlqt_np.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parallel_control/nlqt_np.py b/parallel_control/nlqt_np.py
index cb46895..361f6c7 100644
--- a/parallel_control/nlqt_np.py
+++ b/parallel_control/nlqt_np.py
@@ -29,6 +29,11 @@ class NLQT:
             u_list: List of control inputs.
             x_list: List of states.
         """
+        # The lists may be the caller's own
+        self.lqt.F = list(self.lqt.F)
+        self.lqt.c = list(self.lqt.c)
+        self.lqt.L = list(self.lqt.L)
+
         for k in range(len(u_list)):
             x = x_list[k]
             u = u_list[k]
-- 
2.43.0


From 88f4b31b0cc89608eb4bb699559174498cc24e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 13/14] fix: reachability table of the TensorFlow upwind model
 for negative states

---
 parallel_control/cnonlin_models_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/cnonlin_models_tf.py b/parallel_control/cnonlin_models_tf.py
index 46e0a6b..dfb4236 100644
--- a/parallel_control/cnonlin_models_tf.py
+++ b/parallel_control/cnonlin_models_tf.py
@@ -116,6 +116,6 @@ def upwind_model_block_V(inf_value, block_dt, x_grid):
 
     a = tf.exp(block_dt)
     cond1 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, x0_mesh)), tf.less_equal(xf_mesh, a * x0_mesh))
-    cond2 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
+    cond2 = tf.logical_and(tf.logical_and(tf.less_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
 
     return tf.where(tf.logical_or(cond1,cond2), zero_mesh, inf_mesh)
-- 
2.43.0


From 67a851e17a4aa520311b054ae6172fe70f1569e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 14/14] fix: mass model lost a stage to rounding of Tf/dt

---
 parallel_control/mass_model_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/mass_model_np.py b/parallel_control/mass_model_np.py
index ba54c28..3cca532 100644
--- a/parallel_control/mass_model_np.py
+++ b/parallel_control/mass_model_np.py
@@ -78,7 +78,7 @@ class MassModel:
         Qc = np.eye(self.Lc.shape[1])
         F, L, Q = disc.lti_disc_u(self.Fc, self.Lc, G, Qc, dt)
 
-        T = int(Tf/dt)
+        T = int(Tf/dt + 1e-9)  # The quotient can be just below an integer
 
         lqt = lqt_np.LQT.checkAndExpand(F, L, self.X, self.U, self.XT, T=T)
 
-- 
2.43.0

