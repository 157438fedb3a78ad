From 782c61c0b89183b46f852629efedaab8318f6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:34 +0000
Subject: [PATCH 01/47] fix: let the sheared periodic box be computed without
 Numba

Compiling the box-shearing helper fails with the pinned Numba: the cross
product overload is unavailable once JIT has been disabled in the settings,
and with JIT enabled the integer and list inputs are rejected. Every periodic
simulation therefore crashed on its first timestep. The helper is only called
from uncompiled code, so it does not need to be compiled.
---
 stokesian_dynamics/functions/shared.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..f1aa985 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -424,7 +424,6 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
             new_dumbbell_sizes, new_dumbbell_positions, new_dumbbell_deltax)
 
 
-@njit(cache=True)
 def shear_basis_vectors(basis_canonical, box_dimensions,
                         Ot_infinity, Et_infinity):
     """Shear the basis vectors representing the periodic box."""
-- 
2.43.0


From abe7c82efb9945a7c61282226a1b41421c4fd11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:05 +0000
Subject: [PATCH 02/47] fix: include wavespace sums in periodic velocity-torque
 and velocity-stresslet blocks

The wavespace part of these blocks is odd in k, so it is the sine of k.r that
contributes. It was dropped, which left the periodic mobility dependent on the
real/wavespace splitting parameter.
---
 .../functions/generate_Minfinity_periodic.py  | 95 +++++++++++++------
 1 file changed, 65 insertions(+), 30 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d1ce422..a36646b 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -503,6 +503,17 @@ def aktilde(kk, ss, a1, a2, i, j, RR, c):
               + (a1**2 + a2**2)/6. * Lap_Jtilde(kki, kkj, ss, i, j, RR))
 
 
+@njit(cache=True)
+def btktilde(kk, ss, a1, a2, i, j, RR, c):
+    """Element ij of the wavespace periodic version of Minfinity submatrix
+    b tilde, divided by the imaginary unit. See docstring for aktilde."""
+    k = (j+1) % 3
+    l = (j+2) % 3
+    return -0.5*c*(1 - a1**2/6.*ss**2)*(
+        kk[k]*Jtilde(kk[i], kk[l], ss, i, l, RR)
+        - kk[l]*Jtilde(kk[i], kk[k], ss, i, k, RR))
+
+
 @njit(cache=True)
 def cktilde(kk, ss, a1, a2, i, j, RR, c):
     """Element ij of the wavespace periodic version of Minfinity submatrix c.
@@ -513,6 +524,16 @@ def cktilde(kk, ss, a1, a2, i, j, RR, c):
     return c*0.5*(D_Rtilde(kk, ss, k, l, j, RR) - D_Rtilde(kk, ss, l, k, j, RR))
 
 
+@njit(cache=True)
+def gtktilde(kk, ss, a1, a2, i, j, k, RR, c):
+    """Element ijk of the uncontracted wavespace periodic version of Minfinity
+    submatrix g tilde, divided by the imaginary unit. See docstring for
+    aktilde."""
+    return -0.5*c*(1 - (a1**2/6. + a2**2/10.)*ss**2)*(
+        kk[k]*Jtilde(kk[i], kk[j], ss, i, j, RR)
+        + kk[j]*Jtilde(kk[i], kk[k], ss, i, k, RR))
+
+
 @njit(cache=True)
 def htktilde(kk, ss, a1, a2, i, j, k, RR, c):
     """Element ijk of the uncontracted wavespace periodic version of Minfinity
@@ -598,43 +619,50 @@ def M11(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
 
 
 @njit(cache=True)
-def M12(i, j, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M12(i, j, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix b tilde. Same form as PhD thesis
     (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_btr
-        bt = 0.
+        sum_btr = 0.
         for q in range(num_X_points):
-            bt += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q], c,
-                      mu)
-        return bt
+            sum_btr += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q],
+                           c, mu)
         # (4)
-        # I think sum_btk always ends up being 0 (given that it's imaginary,
-        # over the sum it looks like it cancels out)
-        # Imaginary part of e(i*k.r) always cancels out over the sum I think
-        # (should probably try to show this but I'm pretty certain)
-        # return sum_btr
+        # btktilde is imaginary and odd in k, so it is the imaginary part of
+        # e(i*k.r) which contributes a real term
+        sum_btk = 0.
+        for q in range(num_K_points):
+            sum_btk -= (math.sin(np.dot(K_lmn[q], r))
+                        * btktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, RR_K[q],
+                                   c))
+        sum_btk *= 1./L**3
+        return sum_btr + sum_btk
     else:
         return 0
 
 
 @njit(cache=True)
-def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ijk of uncontracted Minfinity submatrix g tilde. Same form as
     PhD thesis (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_gtr
-        gt = 0.
+        sum_gtr = 0.
         for q in range(num_X_points):
-            gt += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k, erfcs_lmn[q],
-                      c, mu)
-        return gt
+            sum_gtr += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k,
+                           erfcs_lmn[q], c, mu)
         # (4)
-        # I think gtk always ends up being 0 (given that it's imaginary, over
-        # the sum it looks like it cancels out)
-        # return sum_gtr
+        # As in M12, the imaginary part of e(i*k.r) contributes a real term
+        sum_gtk = 0.
+        for q in range(num_K_points):
+            sum_gtk -= (math.sin(np.dot(K_lmn[q], r))
+                        * gtktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, k,
+                                   RR_K[q], c))
+        sum_gtk *= 1./L**3
+        return sum_gtr + sum_gtk
     else:
         return 0
 
@@ -987,7 +1015,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
             Minfinity[Bt_c[0]:Bt_c[0]+3,
                       Bt_c[1]:Bt_c[1]+3] = np.array([[
                           M12(i, j, r, s, a1, a2,
-                              X_lmn, num_X_points,
+                              L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
@@ -1000,7 +1029,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn)
+            args = (r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, s_lmn, erfcs_lmn)
             for i in range(3):
                 Minfinity[Gt_c[0]+i,
                           Gt_c[1]:Gt_c[1]+5] = con_M13_row(i, args)
@@ -1043,11 +1073,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                 Minfinity[Bt21_c[0]:Bt21_c[0]+3,
                           Bt21_c[1]:Bt21_c[1]+3] = np.array([[
                               M12(i, j, mr, s, a2, a1,
-                                  X_lmn, num_X_points,
+                                  L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                                  num_X_points, num_K_points,
                                   c, mu, m_s_lmn, m_erfcs_lmn)
                               for j in range(3)] for i in range(3)])
 
-                args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu,
+                args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                        num_X_points, num_K_points, c, mu,
                         m_s_lmn, m_erfcs_lmn)
                 for i in range(3):
                     Minfinity[Gt21_c[0]+i,
@@ -1088,12 +1120,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
                           M12(j, i, mr, s, a1, a2,
-                              X_lmn, num_X_points,
+                              L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M34_temp[i,j] = M13(j, *cond_idx[i], *args)
@@ -1122,12 +1155,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a1, a2,
+                              L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M35_temp[i,j] = M13(j, *cond_idx[i], *args)
-- 
2.43.0


From 9afcc87b91f4adc8d153e6dc8d8d2aee964c8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:26 +0000
Subject: [PATCH 03/47] fix: subtract the self wavespace term from the periodic
 rotational mobility

The rotational block left out this constant, so a lone sphere's rotational
mobility depended on the real/wavespace splitting parameter.
---
 .../functions/generate_Minfinity_periodic.py             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index a36646b..49ffe40 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -668,7 +668,7 @@ def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
 
 
 @njit(cache=True)
-def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
+def M22(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
         num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix c. Same form as PhD thesis
@@ -701,8 +701,9 @@ def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
         for q in range(num_K_points):
             sum_ck += cktilde(K_lmn[q], Ks_lmn[q], a1, a1, i, j, RR_K[q], c)
         sum_ck *= 1./L**3
-        # (5) = 0
-        return c_aa + sum_cr + sum_ck
+        # (5)
+        c_k0 = c*kronmatrix[i][j]*40*lamb**3/(3*spi)
+        return c_aa + sum_cr + sum_ck - c_k0
 
 
 @njit(cache=True)
@@ -1022,7 +1023,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[C_c[0]:C_c[0]+3,
                       C_c[1]:C_c[1]+3] = np.array([[
-                          M22(i, j, r, s, a1, a2, erfcs, L,
+                          M22(i, j, r, s, a1, a2, erfcs, L, lamb,
                               X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                               K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_Xdash_points, num_K_points,
-- 
2.43.0


From db2c3c4f3523c6f0bb54fc58ee127e3b4e01e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:17 +0000
Subject: [PATCH 04/47] fix: use the right radii in the periodic coupling of
 dumbbell force to sphere strain

The two radii were passed the wrong way round, which the non-periodic version
already avoids.
---
 .../functions/generate_Minfinity_periodic.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 49ffe40..02dd81c 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1120,13 +1120,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
+                          M12(j, i, mr, s, a2, a1,
                               L, X_lmn, K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
                     num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1156,13 +1156,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
+                          M12(j, i, mr, s, a2, a1,
                               L, X_lmn, K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
                     num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 2894872dd9656747b68a30b3743a69c6032c2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:41 +0000
Subject: [PATCH 05/47] fix: choose wavevectors by their own length in sheared
 periodic boxes

They were chosen by the length of the lattice vector with the same index. In a
sheared box that drops short wavevectors, giving errors of up to half a
percent in the mobility.
---
 .../functions/generate_Minfinity_periodic.py          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 02dd81c..ab35d24 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -874,7 +874,6 @@ def generate_Minfinity_periodic(posdata, box_bottom_left, box_top_right,
     sheared_basis_vectors = shear_basis_vectors(
         basis_canonical, box_dimensions, Ot_infinity, Et_infinity)
     X_lmn_sheared = np.dot(X_lmn_canonical, sheared_basis_vectors)
-    # NOTE: If you change the next line you have to change it in K_lmn as well!
     X_lmn_sheared_inside_radius = X_lmn_sheared[
         np.linalg.norm(X_lmn_sheared, axis=1) <= 1.4142*how_far_to_reproduce_gridpoints*L]
 
@@ -891,9 +890,13 @@ def generate_Minfinity_periodic(posdata, box_bottom_left, box_top_right,
         [np.cross(sheared_basis_vectors[0], sheared_basis_vectors[2]),
          np.cross(sheared_basis_vectors[2], sheared_basis_vectors[1]),
          np.cross(sheared_basis_vectors[0], sheared_basis_vectors[1])])
-    K_lmn = np.dot(X_lmn_canonical, k_basis_vectors)[
-        np.logical_and(np.linalg.norm(X_lmn_sheared, axis=1) <= 1.4142*how_far_to_reproduce_gridpoints*L,
-                       np.linalg.norm(X_lmn_sheared, axis=1) > 0)]
+    # Choose wavevectors by their own length: in a sheared box, the wavevector
+    # with a given index can be short even if the lattice vector is long
+    K_lmn = np.dot(X_lmn_canonical, k_basis_vectors)
+    Ks_lmn = np.linalg.norm(K_lmn, axis=1)
+    K_lmn = K_lmn[
+        np.logical_and(Ks_lmn <= 1.4142*how_far_to_reproduce_gridpoints*2*pi/L,
+                       Ks_lmn > 0)]
     Ks_lmn = np.linalg.norm(K_lmn, axis=1)
     num_K_points = K_lmn.shape[0]
     RR_K = np.array([-8*math.pi/ks**4
-- 
2.43.0


From da69bef2697249950ed7d7ed8395f8e70b6a2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:51 +0000
Subject: [PATCH 06/47] fix: let Adams-Bashforth runs contain dumbbells

The test for the first step subtracted the checkpoint's file name rather than
its frame number, so the second frame of every such run raised a TypeError.
---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From 42f6cb451dd2998001840e5af02385f9021de3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:55 +0000
Subject: [PATCH 07/47] fix: honour the wall-force switch given on the command
 line

The default was assigned after the command line had been read, so the sixth
argument never had any effect.
---
 stokesian_dynamics/settings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/settings.py b/stokesian_dynamics/settings.py
index 9f8c847..83ca4bd 100755
--- a/stokesian_dynamics/settings.py
+++ b/stokesian_dynamics/settings.py
@@ -35,6 +35,11 @@ num_frames = 100
 # How to solve the equation U=MF. {'fts','fte','ufte','ufteu','duf'}
 input_form = 'fte'
 
+# Work out the force on any particles whose velocities are specified in the
+# input file. (Typical use case: these 'fixed' particles are acting as walls.)
+# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
+extract_force_on_wall_due_to_dumbbells = False
+
 # ----------------------------------------------------------------------------|
 # BASIC SETTINGS: OVERRIDES FROM COMMAND LINE
 
@@ -121,11 +126,6 @@ if start_saving_after_first_n_timesteps > num_frames:
     print("WARNING: start_saving_after_first_n_timesteps > num_frames. "
           + "Saving will fail.")
 
-# Work out the force on any particles whose velocities are specified in the
-# input file. (Typical use case: these 'fixed' particles are acting as walls.)
-# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
-extract_force_on_wall_due_to_dumbbells = False
-
 # Just use diagonal terms of Minfinity. Good(?) approximation for dense
 # suspensions only.
 use_drag_Minfinity = False
-- 
2.43.0


From d86cac38b9eb0cd5a71494a512a4b1e41a5757e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:22 +0000
Subject: [PATCH 08/47] fix: return results when extracting the force on walls
 due to dumbbells

With the extraction switched on, the velocities and forces were never unpacked
from the solution, and the reshape was given a float. Both crashed the run.
---
 stokesian_dynamics/functions/timestepping.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..edc22b1 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -380,16 +380,16 @@ def generate_output_FTSUOE(
             else:
                 velocity_vector = np.linalg.solve(grand_resistance_matrix_ufte,
                                                   force_vector)
-                (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
-                    posdata, velocity_vector)
-                Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
-                Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
-                Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
-                Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
-                (Ta_out, Ea_out, Fb_out, DFb_out) = (
-                    Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
+            (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
+                posdata, velocity_vector)
+            Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
+            Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
+            Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
+            Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
+            (Ta_out, Ea_out, Fb_out, DFb_out) = (
+                Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
 
             if extract_force_on_wall_due_to_dumbbells:
                 # For finding effect of the dumbbells on the measured Force on the walls.
@@ -401,7 +401,7 @@ def generate_output_FTSUOE(
                 force_on_wall_due_to_dumbbells_flat = np.dot(
                     force_on_wall_due_to_dumbbells_matrix, dumbbell_forces)
                 force_on_wall_due_to_dumbbells = force_on_wall_due_to_dumbbells_flat.reshape(
-                    len(force_on_wall_due_to_dumbbells_flat)/3, 3)
+                    num_fixed_velocity_spheres, 3)
 
         elif input_form == 'ufteu':
             num_fixed_velocity_spheres = (num_spheres
-- 
2.43.0


From f100973a41e0eecdd86b263878821109367852d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:38 +0000
Subject: [PATCH 09/47] fix: give the drag-only dumbbell mode the Stokes drag
 of each bead

The mode crashed on a float slice index. Its drag coefficient lacked the factor
6*pi and used the first dumbbell's radius for every dumbbell.
---
 stokesian_dynamics/functions/timestepping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index edc22b1..938fa0a 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -267,15 +267,15 @@ def generate_output_FTSUOE(
         solve_time_start = time.time()
         Fbeads = 0.5*np.concatenate([np.array(Fb_in) + np.array(DFb_in),
                                      np.array(Fb_in) - np.array(DFb_in)])
-        a = dumbbell_sizes[0]
-        drag_coeff = mu*a
+        a = np.concatenate([dumbbell_sizes, dumbbell_sizes])[:, None]
+        drag_coeff = 6*np.pi*mu*a
         Ubeads = Fbeads/drag_coeff
         Nbeads = len(Fbeads)
         (Fa_out, Ta_out, Sa_out, Fb_out, DFb_out) = (
             Fa_in[:], Ta_in[:], Sa_in[:], Fb_in[:], DFb_in[:])
         (Ua_out, Oa_out, Ea_out) = (Fa_in[:], Fa_in[:], Ea_in[:])
-        Ub_out = 0.5*(Ubeads[:Nbeads/2] + Ubeads[Nbeads/2:])
-        HalfDUb_out = 0.5*(Ubeads[:Nbeads/2] - Ubeads[Nbeads/2:])
+        Ub_out = 0.5*(Ubeads[:Nbeads//2] + Ubeads[Nbeads//2:])
+        HalfDUb_out = 0.5*(Ubeads[:Nbeads//2] - Ubeads[Nbeads//2:])
         gen_times = [0, 0, 0]
 
     else:
-- 
2.43.0


From fcc4c767594a20698900840a496ad4fa6961cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:08 +0000
Subject: [PATCH 10/47] fix: use the full-R2Binfinity table unless the
 drag-only one is requested

The test was the wrong way round. With the default settings, asking for the
drag approximation to Minfinity looked for the drag-only table, which is not
distributed, and crashed as soon as two particles were close.
---
 stokesian_dynamics/resistance_scalars/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index 74fada9..fb26487 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -23,7 +23,7 @@ lam_range_with_reciprocals.sort()
 
 # The resistance scalars already have R2Binfinity subtracted off. Decide here
 # whether this is with the full R2Binfinity or the drag-only R2Binfinity.
-if not use_drag_Minfinity or (use_drag_Minfinity and use_drag_R2Binfinity):
+if not use_drag_Minfinity or not use_drag_R2Binfinity:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d.npy'
 else:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d_drag.npy'
-- 
2.43.0


From 0df81a0745b86a61d470eeaae5d836ea8d305e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:13 +0000
Subject: [PATCH 11/47] fix: make the drag approximation the inverse of the
 diagonal of Minfinity

It lacked the factor 6*pi that Minfinity and the near-field terms carry. In
periodic boxes it also crashed on float indices.
---
 .../functions/generate_grand_resistance_matrix.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..f9fef01 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -60,7 +60,7 @@ def generate_grand_resistance_matrix(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu*np.diag(
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
             [sphere_sizes[i//3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
@@ -169,12 +169,12 @@ def generate_grand_resistance_matrix_periodic(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu * np.diag(
-            [sphere_sizes[i/3] for i in range(3*num_spheres)]
-            + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
-            + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)])
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
+            [sphere_sizes[i//3] for i in range(3*num_spheres)]
+            + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
+            + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)])
         Minfinity_elapsed_time = 0
         Minfinity_inverse_elapsed_time = 0
 
-- 
2.43.0


From 16909d3cc2f3b2eeccbaa881f0fb2242be10cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:47 +0000
Subject: [PATCH 12/47] fix: let matrices be printed out

A printout level of 2 or more crashed. R2Bexact is already a dense array, and
Minfinity does not exist on frames that reuse its inverse.
---
 .../functions/generate_grand_resistance_matrix.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index f9fef01..78c437c 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -84,7 +84,7 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = time.time() - R2Bexact_start_time
         if printout > 1:
             print("R2Bexact")
-            print(np.array_str(R2Bexact.toarray(), max_line_width=100000))
+            print(np.array_str(R2Bexact, max_line_width=100000))
 
         grand_resistance_matrix = R2Bexact  # shallow copy for better naming
         grand_resistance_matrix += Minfinity_inverse  # in-place addition
@@ -99,8 +99,9 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = 0
 
     if (printout > 1):
-        print("M infinity")
-        print(np.array_str(Minfinity, max_line_width=100000))
+        if regenerate_Minfinity and not use_drag_Minfinity:
+            print("M infinity")
+            print(np.array_str(Minfinity, max_line_width=100000))
         print("\n\nGrand resistance matrix")
         print(np.array_str(grand_resistance_matrix, max_line_width=100000))
         save_matrix(grand_resistance_matrix, "Grand Resistance Matrix",
-- 
2.43.0


From 3425e644d40f74fbbd8fd3214fe9c58d6a9e6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:13 +0000
Subject: [PATCH 13/47] fix: keep orientation marks on spheres that re-enter a
 periodic box

Under Euler and Adams-Bashforth the marks were placed around the sphere's
position before it was wrapped, so they stayed outside the box.
---
 stokesian_dynamics/run_simulation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..b949cf2 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -258,22 +258,24 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
+                else:
+                    new_sphere_positions = ab2_timestep(
+                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
+                if periodic:
+                    new_sphere_positions = wrap_around(
+                        new_sphere_positions, box_bottom_left, box_top_right,
+                        Ot_infinity_k1, Et_infinity_k1)
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, timestep)
                 else:
-                    new_sphere_positions = ab2_timestep(
-                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                     new_sphere_rotations = ab2_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
-                if periodic:
-                    new_sphere_positions = wrap_around(
-                        new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
-- 
2.43.0


From df415fdd6af343286673f1521224e28173d657cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:32 +0000
Subject: [PATCH 14/47] fix: evaluate the RK4 stages' background flow at the
 stage positions

Stages 2 to 4 added the background flow at the positions of the start of the
step, which reduced RK4 to first order in any shear or rotation. The dumbbells'
second stage also used the first stage's strain.

The stage positions are no longer wrapped into the periodic box: the flow has
to be that at the particle itself rather than at one of its images, and the
solve does not depend on which image is used.
---
 stokesian_dynamics/run_simulation.py | 38 +++++-----------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index b949cf2..51984d2 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -356,10 +356,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 sphere_rotations_k1 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k1,
                     sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
-                if periodic:
-                    sphere_positions_k1 = wrap_around(
-                        sphere_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -371,10 +367,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k1, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k1, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k1 = wrap_around(
-                        dumbbell_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             posdata_k1 = (sphere_sizes, sphere_positions_k1,
                           sphere_rotations_k1, dumbbell_sizes,
@@ -402,31 +394,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k1, centre_of_background_flow)
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_rotations_k2 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k2,
                     sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
-                if periodic:
-                    sphere_positions_k2 = wrap_around(
-                        sphere_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
-                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k1, U_infinity_k2, O_infinity_k2,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
+                    dumbbell_positions_k1, dumbbell_deltax_k1, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
                 dumbbell_deltax_k2 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k2, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k2, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k2 = wrap_around(
-                        dumbbell_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             posdata_k2 = (sphere_sizes, sphere_positions_k2,
                           sphere_rotations_k2, dumbbell_sizes,
@@ -451,31 +435,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k2, centre_of_background_flow)
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_rotations_k3 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k3,
                     sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
-                if periodic:
-                    sphere_positions_k3 = wrap_around(
-                        sphere_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k2, dumbbell_deltax_k2, centre_of_background_flow)
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
                 dumbbell_deltax_k3 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k3, timestep)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k3, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k3 = wrap_around(
-                        dumbbell_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             posdata_k3 = (sphere_sizes, sphere_positions_k3,
                           sphere_rotations_k3, dumbbell_sizes,
@@ -499,11 +475,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k3, centre_of_background_flow)
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k3, dumbbell_deltax_k3, centre_of_background_flow)
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
-- 
2.43.0


From aca9b0e820c124a06a2890df7b47960f4db86aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:00 +0000
Subject: [PATCH 15/47] fix: wrap particles with the box vectors of the end of
 the timestep

In a sheared periodic box the vectors change during the step. Particles at the
end of the step were moved by vectors from its start, which displaces them
relative to their images by the shear accumulated over one step.
---
 stokesian_dynamics/run_simulation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 51984d2..e198476 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -248,6 +248,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 input_form, cutoff_factor, printout, use_drag_Minfinity,
                 use_Minfinity_only, extract_force_on_wall_due_to_dumbbells,
                 last_velocities, last_velocity_vector)
+            if periodic:
+                # Shear of the box at the end of the timestep, for wrapping
+                Ot_infinity_end, Et_infinity_end = input_ftsuoe(
+                    input_number, posdata, frameno + 1, timestep,
+                    last_velocities, input_form=input_form,
+                    skip_computation=True)[16:18]
             # Euler/AB2 timestepping k1
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k1, Oa_out_plus_infinities_k1 = add_background_flow_spheres(
@@ -264,7 +270,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
@@ -296,7 +302,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
@@ -505,7 +511,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_k4, Et_infinity_k4)
                 new_sphere_rotations = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, new_sphere_positions,
                     new_sphere_rotations, Oa_out_blended, timestep)
@@ -528,7 +534,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_k4, Et_infinity_k4)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_blended, 0, 0, Oa_out_blended]
-- 
2.43.0


From 45197c7d94a2f93197afcd2697c50a1551d523a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:06 +0000
Subject: [PATCH 16/47] fix: give Adams-Bashforth the previous velocity of the
 same periodic image

A particle that re-enters a sheared periodic box moves on as its image, whose
velocity differs by the background flow across the box. The previous velocity
kept for the next Adams-Bashforth step was still that of the old image.
---
 stokesian_dynamics/run_simulation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index e198476..1ca57da 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -268,6 +268,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     new_sphere_positions = ab2_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                 if periodic:
+                    unwrapped_positions = new_sphere_positions
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
                         Ot_infinity_end, Et_infinity_end)
@@ -282,6 +283,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
+                if periodic:
+                    # Carry forward the velocity of the image inside the box
+                    Ua_out_plus_infinities_k1 = add_background_flow_spheres(
+                        Ua_out_plus_infinities_k1, Oa_out_k1, Ea_out_k1, 0, O_infinity_k1,
+                        new_sphere_positions - unwrapped_positions, 0)[0]
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -300,9 +306,14 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, new_dumbbell_deltax, explosion_protection)
                 if periodic:
+                    unwrapped_positions = new_dumbbell_positions
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
                         Ot_infinity_end, Et_infinity_end)
+                    # Carry forward the velocity of the image inside the box
+                    Ub_out_plus_infinities_k1 = add_background_flow_dumbbells(
+                        Ub_out_plus_infinities_k1, HalfDUb_out_k1, Ea_out_k1, 0, O_infinity_k1,
+                        new_dumbbell_positions - unwrapped_positions, dumbbell_deltax, 0)[0]
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
-- 
2.43.0


From 2f4c986b41a8ec6a7c5f27eb2b0f4789067c70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:48 +0000
Subject: [PATCH 17/47] fix: keep dumbbells and RK4 stages in plane in fully 2D
 problems

The out-of-plane velocity was removed from spheres only, and under RK4 only
after the four stages, whose positions had by then left the plane.
---
 stokesian_dynamics/run_simulation.py | 30 +++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 1ca57da..7f21ca1 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -288,11 +288,16 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     Ua_out_plus_infinities_k1 = add_background_flow_spheres(
                         Ua_out_plus_infinities_k1, Oa_out_k1, Ea_out_k1, 0, O_infinity_k1,
                         new_sphere_positions - unwrapped_positions, 0)[0]
+                    if fully_2d_problem:
+                        Ua_out_plus_infinities_k1[:, 1] = 0
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k1[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k1[:, 1] = 0
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
@@ -314,6 +319,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     Ub_out_plus_infinities_k1 = add_background_flow_dumbbells(
                         Ub_out_plus_infinities_k1, HalfDUb_out_k1, Ea_out_k1, 0, O_infinity_k1,
                         new_dumbbell_positions - unwrapped_positions, dumbbell_deltax, 0)[0]
+                    if fully_2d_problem:
+                        Ub_out_plus_infinities_k1[:, 1] = 0
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
@@ -368,6 +375,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k1, Oa_out_plus_infinities_k1 = add_background_flow_spheres(
                     Ua_out_k1, Oa_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     sphere_positions, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k1[:, 1] = 0
                 sphere_positions_k1 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k1, timestep/2)
                 sphere_rotations_k1 = euler_timestep_rotation(
@@ -378,6 +387,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k1[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k1[:, 1] = 0
                 dumbbell_positions_k1 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k1, timestep/2)
                 dumbbell_deltax_k1 = euler_timestep(
@@ -412,6 +424,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
                     sphere_positions_k1, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k2[:, 1] = 0
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_rotations_k2 = euler_timestep_rotation(
@@ -422,6 +436,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
                     Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
                     dumbbell_positions_k1, dumbbell_deltax_k1, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k2[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k2[:, 1] = 0
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
                 dumbbell_deltax_k2 = euler_timestep(
@@ -453,6 +470,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
                     sphere_positions_k2, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k3[:, 1] = 0
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_rotations_k3 = euler_timestep_rotation(
@@ -463,6 +482,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
                     dumbbell_positions_k2, dumbbell_deltax_k2, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k3[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k3[:, 1] = 0
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
                 dumbbell_deltax_k3 = euler_timestep(
@@ -493,10 +515,15 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
                     sphere_positions_k3, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k4[:, 1] = 0
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
                     dumbbell_positions_k3, dumbbell_deltax_k3, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k4[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k4[:, 1] = 0
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
@@ -515,9 +542,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 #                         + 2*Ea_out_k3
                 #                         + Ea_out_k4)
 
-                if fully_2d_problem:
-                    Ua_out_blended[:, 1] = 0
-
                 new_sphere_positions = euler_timestep(sphere_positions, Ua_out_blended, timestep)
                 if periodic:
                     new_sphere_positions = wrap_around(
-- 
2.43.0


From 637ea01679a3ef245bafc3ba20ba949b12a9d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:52 +0000
Subject: [PATCH 18/47] fix: let simulations of dumbbells alone have no strain
 rate

The strain rate is given per sphere, so a simulation without spheres has an
empty list of them unless its input adds one. It then crashed when adding the
background flow, and when the box was periodic.
---
 stokesian_dynamics/functions/timestepping.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 938fa0a..a67f856 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -290,7 +290,8 @@ def generate_output_FTSUOE(
                 cutoff_factor=cutoff_factor, printout=printout,
                 use_drag_Minfinity=use_drag_Minfinity,
                 use_Minfinity_only=use_Minfinity_only, frameno=frameno, mu=mu,
-                O_infinity=O_infinity, E_infinity=Ea_in[0],
+                O_infinity=O_infinity,
+                E_infinity=Ea_in[0] if len(Ea_in) > 0 else np.zeros([3, 3]),
                 timestep=timestep,
                 centre_of_background_flow=centre_of_background_flow,
                 Ot_infinity=Ot_infinity, Et_infinity=Et_infinity)
@@ -705,15 +706,17 @@ def add_background_flow_dumbbells(Ub_out_k1, HalfDUb_out_k1, Ea_out_k1,
                                   centre_of_background_flow):
     """Return Ub_out and HalfDUb_out + the background flow."""
     num_dumbbells = dumbbell_positions.shape[0]
+    # If there are no spheres, there might not be a strain rate
+    E_infinity_k1 = Ea_out_k1[0] if len(Ea_out_k1) > 0 else np.zeros([3, 3])
     O_infinity_cross_xbar_k1 = np.cross(O_infinity_k1,
                                         dumbbell_positions - centre_of_background_flow)
     O_infinity_cross_deltax_k1 = np.cross(O_infinity_k1, dumbbell_deltax)
     E_infinity_dot_xbar_k1 = np.empty([num_dumbbells, 3])
     E_infinity_dot_deltax_k1 = np.empty([num_dumbbells, 3])
     for i in range(num_dumbbells):
-        E_infinity_dot_xbar_k1[i] = np.dot(Ea_out_k1[0],
+        E_infinity_dot_xbar_k1[i] = np.dot(E_infinity_k1,
                                            dumbbell_positions[i] - centre_of_background_flow)
-        E_infinity_dot_deltax_k1[i] = np.dot(Ea_out_k1[0], dumbbell_deltax[i])
+        E_infinity_dot_deltax_k1[i] = np.dot(E_infinity_k1, dumbbell_deltax[i])
 
     Ub_out_plus_infinities_k1 = (Ub_out_k1 + U_infinity_k1
                                  + O_infinity_cross_xbar_k1
-- 
2.43.0


From 8ebdc791d6d76edef221ba035b1cc6f7d18fd3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:06 +0000
Subject: [PATCH 19/47] fix: save runs that record only positions, only forces,
 or start late

The final save needs the arrays of both kinds, so it crashed after the last
frame if only one kind was recorded. A delayed start that is not a multiple of
the save interval crashed at the first saved frame, since the arrays were only
created on the exact start frame.
---
 stokesian_dynamics/run_simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 7f21ca1..c64a589 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -74,6 +74,13 @@ error = False
 previous_step_posdata = posdata
 previous_timestamp = time.time()
 saved_element_positions = np.array([])
+saved_sphere_rotations = np.array([])
+saved_deltax = np.array([])
+saved_Fa_out = np.array([])
+saved_Fb_out = np.array([])
+saved_DFb_out = np.array([])
+saved_Sa_out = np.array([])
+saved_force_on_wall_due_to_dumbbells = np.array([])
 times = [0 for _ in range(num_frames)]
 output_folder = "output"
 legion_random_id = ""
@@ -622,7 +629,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_positions_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_element_positions) == 0:  # nothing saved yet
                 saved_element_positions = np.array([element_positions])
                 saved_sphere_rotations = np.array([sphere_rotations])
                 saved_deltax = np.array([dumbbell_deltax])
@@ -647,7 +654,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_forces_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_Fa_out) == 0:  # nothing saved yet
                 saved_Fa_out = np.array([Fa_out])
                 saved_Fb_out = np.array([Fb_out])
                 saved_DFb_out = np.array([DFb_out])
-- 
2.43.0


From 6b808b74ca3dea00cae522bfe8712de1f3656f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:12 +0000
Subject: [PATCH 20/47] fix: always record the final positions

The final positions were only added if the last frame happened to be one of
the frames selected by the save interval. Otherwise the end of the run, even
when due to be saved itself, was lost.
---
 stokesian_dynamics/run_simulation.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index c64a589..9d4be01 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -640,15 +640,19 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                                                    np.array([sphere_rotations]), 0)
                 saved_deltax = np.append(np.copy(saved_deltax),
                                          np.array([dumbbell_deltax]), 0)
-            if frameno == num_frames - 1:  # if final frame, add the final position as well
-                new_element_positions = np.append(new_sphere_positions,
-                                                  new_dumbbell_positions, 0)
-                saved_element_positions = np.append(np.copy(saved_element_positions),
-                                                    np.array([new_element_positions]), 0)
-                saved_sphere_rotations = np.append(np.copy(saved_sphere_rotations),
-                                                   np.array([new_sphere_rotations]), 0)
-                saved_deltax = np.append(np.copy(saved_deltax),
-                                         np.array([new_dumbbell_deltax]), 0)
+        if (
+            save_positions_every_n_timesteps > 0
+            and frameno == num_frames - 1  # if final frame, add the final position as well
+            and len(saved_element_positions) > 0
+        ):
+            new_element_positions = np.append(new_sphere_positions,
+                                              new_dumbbell_positions, 0)
+            saved_element_positions = np.append(np.copy(saved_element_positions),
+                                                np.array([new_element_positions]), 0)
+            saved_sphere_rotations = np.append(np.copy(saved_sphere_rotations),
+                                               np.array([new_sphere_rotations]), 0)
+            saved_deltax = np.append(np.copy(saved_deltax),
+                                     np.array([new_dumbbell_deltax]), 0)
         if (
             save_forces_every_n_timesteps > 0
             and frameno % save_forces_every_n_timesteps == 0
-- 
2.43.0


From ef41fd61a1c076fb5e388ab62856355d118856c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:37 +0000
Subject: [PATCH 21/47] fix: skip backup files whose names cannot be understood

Every run reads the names of all backup files in the output folder. A name in
another form, or with a negative setup or input number, crashed the run before
it started.
---
 stokesian_dynamics/setups/positions.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..575bea8 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,6 +12,8 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
+import os
+import re
 from settings import setup_number, input_number, num_frames, timestep
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
@@ -198,14 +200,15 @@ checkpoint_start_from_frame = 0
 # Otherwise read in list of temporary files
 checkpoint_start_from_frame = 0
 for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
-    checkpoint_setup_number = int(filename.split("-")[1][1:])
-    checkpoint_input_number = int(filename.split("-")[2][1:])
-    checkpoint_num_frames = int(filename.split("-")[3][:-2])
-    if filename.split("-")[4][-1] == "e":
-        raw_timestep = filename.split("-")[4][1:] + "-" + filename.split("-")[5]
-    else:
-        raw_timestep = filename.split("-")[4][1:]
-    checkpoint_timestep = float(raw_timestep.replace("p", "."))
+    # See run_simulation.py for how filenames are formed
+    name = re.match(r"\d+-s(-?\d+)-i(-?\d+)-(\d+)fr-t(\d+(?:p\d+)?(?:e-?\d+)?)-M",
+                    os.path.basename(filename))
+    if name is None:
+        continue
+    checkpoint_setup_number = int(name[1])
+    checkpoint_input_number = int(name[2])
+    checkpoint_num_frames = int(name[3])
+    checkpoint_timestep = float(name[4].replace("p", "."))
     if (checkpoint_setup_number == setup_number
         and checkpoint_input_number == input_number
         and checkpoint_num_frames == num_frames
-- 
2.43.0


From b28cdfc954b64c2c9faf1601e8ac7be94f1a8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:21 +0000
Subject: [PATCH 22/47] fix: resume interrupted runs from the frame that was
 saved

Rows in the backup hold the positions at the start of a frame, but the resumed
run took the number of rows as the frame to continue from. It therefore skipped
a step, or many with a save interval above 1. Forces of frames that are about
to be computed again are now dropped, and the saved orientations are restored
rather than reset.
---
 stokesian_dynamics/run_simulation.py   | 15 ++++++++++-----
 stokesian_dynamics/setups/positions.py | 19 +++++++++++++++----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 9d4be01..a24ca97 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -819,16 +819,21 @@ if error == 0:
                     + descdash + str(desc))
     else:
         filename = checkpoint_filename.replace("output\\", "").replace("output/", "").replace("_TEMP.npz", "")
+        # Only keep the forces up to the frame we are continuing from
+        num_saved_forces = len([
+            i for i in range(start_saving_after_first_n_timesteps,
+                             checkpoint_start_from_frame + 1)
+            if save_forces_every_n_timesteps > 0 and i % save_forces_every_n_timesteps == 0])
         with np.load(checkpoint_filename) as saved_data:
-            saved_Fa_out = saved_data['Fa']
-            saved_Fb_out = saved_data['Fb']
-            saved_DFb_out = saved_data['DFb']
-            saved_Sa_out = saved_data['Sa']
+            saved_Fa_out = saved_data['Fa'][:num_saved_forces]
+            saved_Fb_out = saved_data['Fb'][:num_saved_forces]
+            saved_DFb_out = saved_data['DFb'][:num_saved_forces]
+            saved_Sa_out = saved_data['Sa'][:num_saved_forces]
             saved_element_positions = saved_data['centres']
             saved_sphere_rotations = saved_data['sphere_rotations']
             saved_deltax = saved_data['deltax']
             saved_force_on_wall_due_to_dumbbells = saved_data[
-                'force_on_wall_due_to_dumbbells']
+                'force_on_wall_due_to_dumbbells'][:num_saved_forces]
 
     warning_formatting_start = "\033[43m\033[30m"
     warning_formatting_end = "\033[39m\033[49m"
diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index 575bea8..d0567d1 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -14,7 +14,9 @@ from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
 import glob
 import os
 import re
-from settings import setup_number, input_number, num_frames, timestep
+from settings import (setup_number, input_number, num_frames, timestep,
+                      save_positions_every_n_timesteps,
+                      start_saving_after_first_n_timesteps)
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
                                         randomise_dumbbells)
@@ -218,6 +220,7 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             with np.load(filename) as data1:
                 positions_centres = data1['centres']
                 positions_deltax = data1['deltax']
+                positions_rotations = data1['sphere_rotations']
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
@@ -227,13 +230,21 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             dumbbell_deltax = positions_deltax[-1, :, :]
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
+            sphere_rotations = positions_rotations[-1]
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            # Row 0 is the first multiple of save_positions_every_n_timesteps
+            # after saving starts. After the final frame there is one last row
+            # with the final positions.
+            first_saved_frame = (
+                -(-start_saving_after_first_n_timesteps // save_positions_every_n_timesteps)
+                * save_positions_every_n_timesteps)
+            checkpoint_start_from_frame = min(
+                first_saved_frame
+                + (positions_centres.shape[0] - 1)*save_positions_every_n_timesteps,
+                num_frames)
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
-- 
2.43.0


From c4577fd79faecabdb0c1d41d9bf0812221e05a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:28 +0000
Subject: [PATCH 23/47] fix: treat a backup as corrupt if any part of it cannot
 be read

Only the positions were checked, so a backup with a damaged or missing force
array crashed the run when the array was loaded later.
---
 stokesian_dynamics/setups/positions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index d0567d1..40d5387 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -221,6 +221,10 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
                 positions_centres = data1['centres']
                 positions_deltax = data1['deltax']
                 positions_rotations = data1['sphere_rotations']
+                # Check the rest of the file, needed later, can be read too
+                for key in ['Fa', 'Fb', 'DFb', 'Sa',
+                            'force_on_wall_due_to_dumbbells']:
+                    data1[key]
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
-- 
2.43.0


From a07300f5d91364edf528a532ab861319b1d366d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:48 +0000
Subject: [PATCH 24/47] fix: include dumbbells when checking particle size
 ratios

The check at the start of a run only looked at spheres. A run whose dumbbells
have an unsupported size failed later, when a bead came close to a particle.
---
 stokesian_dynamics/run_simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index a24ca97..6fcce4f 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -790,10 +790,10 @@ if num_spheres > 0 and input_form in ["fts"]:
      skip_computation=True, input_form=input_form)
 
 # Are all size ratios in the XYZ table for R2Bexact?
-sphere_sizes_unique = list(set(sphere_sizes))
+sizes_unique = list(set(sphere_sizes) | set(dumbbell_sizes))
 size_ratios = list(set([i/j
-                        for i in sphere_sizes_unique
-                        for j in sphere_sizes_unique]))
+                        for i in sizes_unique
+                        for j in sizes_unique]))
 for size_ratio in size_ratios:
     if not np.any(np.isclose(size_ratio, lam_range_with_reciprocals)):
         throw_error("Particle size ratio " + str(size_ratio) + " not in the "
-- 
2.43.0


From 8971d5f75ff1168df052240e3f347c31d80120a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:17 +0000
Subject: [PATCH 25/47] fix: find close pairs of large particles in periodic
 boxes

The first pass kept pairs within twice the cutoff factor in absolute distance,
which is only right for radii up to 1. Larger particles lost their lubrication
when still well within the cutoff.
---
 stokesian_dynamics/functions/shared.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index f1aa985..1d5d50c 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -457,7 +457,9 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
-        # This lists pairs that are closer than 4 units, regardless of size ratio.
+        # This lists pairs that are closer than the largest cutoff distance,
+        # regardless of size ratio.
+        largest_cutoff = cutoff*np.max(bead_sizes)
         for i in range(len(unsheared_positions)):
             sphere_position = unsheared_positions[i]
             sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
@@ -466,10 +468,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                          sheared_basis_vectors)
             # Shear again
             # Take particles only within a cube of the correct radius:
-            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff)
+            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= largest_cutoff)
             # Take particles only within a sphere of the correct radius:
             particles_in_radius = np.where(
-                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff)
+                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= largest_cutoff)
             particles_in_radius_ids = particles_in_cube[0][particles_in_radius][
                 particles_in_cube[0][particles_in_radius] >= i]
             closer_than_cutoff_pairs += [(i, j) for j in particles_in_radius_ids]
-- 
2.43.0


From a4824b38add98a3fe74eaaf576290377a580ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:22 +0000
Subject: [PATCH 26/47] fix: let oscillatory shear in the xz plane be reversed

The option to reverse the direction was only honoured in the xy plane.
---
 stokesian_dynamics/setups/functions_inputs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_inputs.py b/stokesian_dynamics/setups/functions_inputs.py
index c93e8d1..f38935e 100644
--- a/stokesian_dynamics/setups/functions_inputs.py
+++ b/stokesian_dynamics/setups/functions_inputs.py
@@ -123,14 +123,14 @@ def oscillatory_shear(amplitude, period, frameno, timestep, phase=0,
     else:
         opposite_minus = 1
     if unused_axis == 1:
-        O_infinity = np.array([0, transpose_minus*0.5*gammadot, 0])
-        Ot_infinity = np.array([0, transpose_minus*0.5*gamma, 0])
-        E_infinity = [[0, 0, 0.5*gammadot],
+        O_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gammadot, 0])
+        Ot_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gamma, 0])
+        E_infinity = [[0, 0, opposite_minus*0.5*gammadot],
                       [0, 0, 0],
-                      [0.5*gammadot, 0, 0]]
-        Et_infinity = [[0, 0, 0.5*gamma],
+                      [opposite_minus*0.5*gammadot, 0, 0]]
+        Et_infinity = [[0, 0, opposite_minus*0.5*gamma],
                        [0, 0, 0],
-                       [0.5*gamma, 0, 0]]
+                       [opposite_minus*0.5*gamma, 0, 0]]
         Ea_in = [E_infinity for _ in range(max(1, num_spheres))]
     elif unused_axis == 2:
         O_infinity = np.array([0, 0, opposite_minus*transpose_minus*-0.5*gammadot])
-- 
2.43.0


From d49ccf983bd596f4368999d6fcd63fc0914b933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:04 +0000
Subject: [PATCH 27/47] fix: allow a single sphere to be placed at random

Reporting the closest pair of added spheres crashed when there was only one.
---
 stokesian_dynamics/setups/functions_positions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..645840e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -62,12 +62,13 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
 
     random_sphere_positions = sphere_positions_out[
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
-    distance_matrix = np.linalg.norm(
-        random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        distance_matrix = np.linalg.norm(
+            random_sphere_positions-random_sphere_positions[:, None], axis=2)
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From 78cf5bb5b9179a09020c6f8603786a7034b5da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:09 +0000
Subject: [PATCH 28/47] fix: remove a debugging stop from periodic dumbbell
 placement

It opened an interactive shell whenever two beads were within 0.2 of each
other, which is legitimate for small beads.
---
 stokesian_dynamics/setups/functions_positions.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 645840e..e77d7f5 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -265,19 +265,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From 434c746bddde42b89f57be869fe844d88ed478b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:15 +0000
Subject: [PATCH 29/47] fix: do not wrap randomly placed dumbbells in y

The box is periodic in x and z. A dumbbell whose centre was just below the box
in y was moved up by a million.
---
 stokesian_dynamics/setups/functions_positions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index e77d7f5..89eaf2e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -273,9 +273,11 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
         dumbbell_deltax[i] = (proposed_bead2_position-proposed_bead1_position)
 
         # Move the dumbbell_positions (centre) to inside the periodic box
-        dumbbell_positions[i] = (np.mod(
-            dumbbell_positions[i]-random_box_bottom_left, [Dx, 1e6, Dz]
-        ) + random_box_bottom_left)
+        # in x and z
+        corner = np.array(random_box_bottom_left)[[0, 2]]
+        dumbbell_positions[i, [0, 2]] = (np.mod(
+            dumbbell_positions[i, [0, 2]]-corner, [Dx, Dz]
+        ) + corner)
 
     print(" succeeded.")
 
-- 
2.43.0


From 20406fd462bee96265fb7f3645042e18eb1f10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:21 +0000
Subject: [PATCH 30/47] fix: return the placed beads from quadrilateral
 placement

The function crashed on a float shape. It also returned half the separation
vector, so the beads were not where they had been checked for overlaps, and
checked them with the radii of other dumbbells.
---
 stokesian_dynamics/setups/functions_positions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 89eaf2e..a3a769e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -346,24 +346,24 @@ def randomise_beads_inside_quadrilateral(quadrilateral, dumbbell_sizes,
                 for j in range(num_current_spheres):
                     if not fail and overlaps(proposed_bead1_position,
                                              current_sphere_positions[j],
-                                             dumbbell_sizes[i//2],
+                                             dumbbell_sizes[i % num_dumbbells],
                                              current_sphere_size):
                         fail = True
             if not fail:
                 for j in range(i):
                     if not fail and overlaps(proposed_bead1_position,
                                              bead_positions[j],
-                                             dumbbell_sizes[i//2],
-                                             dumbbell_sizes[j//2]):
+                                             dumbbell_sizes[i % num_dumbbells],
+                                             dumbbell_sizes[j % num_dumbbells]):
                         fail = True
 
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[i] = proposed_bead1_position
 
-    pos3 = bead_positions.reshape([2, bead_positions.shape[0]/2, 3])
+    pos3 = bead_positions.reshape([2, num_dumbbells, 3])
     pos3_dumbbell = 0.5*(pos3[0] + pos3[1])
-    pos3_deltax = 0.5*(pos3[1] - pos3[0])
+    pos3_deltax = pos3[1] - pos3[0]
 
     print("... succeeded.")
 
-- 
2.43.0


From 8a809684ae1ea67f79456918c3ca1bf1c0a4a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:49 +0000
Subject: [PATCH 31/47] fix: compute the inputs in forms other than FTE

The input function was only asked to compute forces in FTE form. In the other forms it was always called with skip_computation=True, so inputs that honour this flag were left out.
---
 stokesian_dynamics/functions/timestepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index a67f856..ef53449 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -251,7 +251,7 @@ def generate_output_FTSUOE(
      element_sizes, element_positions, element_deltax, num_elements,
      num_elements_array, element_type, uv_start, uv_size,
      element_start_count) = posdata_data(posdata)
-    # Get inputs first time in "skip_computation" mode, i.e. no complex
+    # In FTE form, get inputs first time in "skip_computation" mode, i.e. no complex
     # calculations for Fa_in, etc. This is really just to get the values of
     # box_bottom_left and box_top_right.
     (Fa_in, Ta_in, Sa_in, Sa_c_in, Fb_in, DFb_in,
@@ -259,7 +259,7 @@ def generate_output_FTSUOE(
      U_infinity, O_infinity, centre_of_background_flow, Ot_infinity,
      Et_infinity, box_bottom_left, box_top_right, mu) = input_ftsuoe(
         input_number, posdata, frameno, timestep, last_velocities,
-        input_form=input_form, skip_computation=True)
+        input_form=input_form, skip_computation=(input_form == "fte"))
 
     force_on_wall_due_to_dumbbells = 0
 
-- 
2.43.0


From 8210a51ff09c85e2918645d873552fbd9e48748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:11 +0000
Subject: [PATCH 32/47] fix: use the nearest image of each pair in the periodic
 sum

The truncated lattice sum was centred on the plain difference of positions, so the mobility of a pair near opposite sides of the box was off by up to half a percent and depended on which image a particle was given as. Pairs overlapping across a face also missed the minimum separation.
---
 stokesian_dynamics/functions/generate_Minfinity_periodic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index ab35d24..1cba490 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -983,6 +983,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
         # Displacement convention for the Minfinity formulae is a1-a2
         # (inconveniently the opposite of in R2Bexact)
         r = bead_positions[a1_index] - bead_positions[a2_index]
+        # The sums below are centred on r, so start from the nearest image
+        r = r + X_lmn[np.argmin(np.sum((r + X_lmn)**2, axis=1))]
         a1 = bead_sizes[a1_index]
         a2 = bead_sizes[a2_index]
         s = norm(r)
-- 
2.43.0


From c4ca151a4cd9300a8cd21ba73f32840051f5be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:35 +0000
Subject: [PATCH 33/47] fix: dumbbell-only runs with Numba switched on

With no spheres the list of stresslets is empty, and Numba could not index the resulting one-dimensional array. Such runs stopped with a message saying that not all values had been provided.
---
 stokesian_dynamics/functions/simulation_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index f36ad10..e135e1e 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -111,8 +111,9 @@ def construct_force_vector_from_fts(posdata, f_spheres, t_spheres, s_spheres,
      element_sizes, element_positions, element_deltax, num_elements,
      num_elements_array, element_type, uv_start, uv_size,
      element_start_count) = posdata_data(posdata)
-    s_spheres_condensed_flat = condense_and_flatten(np.array(s_spheres),
-                                                    num_spheres)
+    # Without spheres the array is empty but Numba still needs its dimensions
+    s_spheres_condensed_flat = condense_and_flatten(
+        np.reshape(s_spheres, (-1, 3, 3)), num_spheres)
     if num_spheres == 0 and num_dumbbells == 0:
         force_vector = np.array([])
     if num_spheres > 0 and num_dumbbells == 0:
-- 
2.43.0


From 8b46734d9c95ddcf31198e773c59265573cf7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:42 +0000
Subject: [PATCH 34/47] fix: combine resistance scalars in the order of the
 distances

combine_scalars.py stopped with an error after writing the .npy file, because the sorted distances were a list.
It also sorted the distances but not the scalars that belong to them.
---
 find_resistance_scalars/combine_scalars.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index 3dea844..b5ce552 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,10 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = sorted(np.concatenate((values_of_s_dash_nearfield,
-                                          values_of_s_dash_midfield)))
+values_of_s_dash = np.concatenate((values_of_s_dash_nearfield,
+                                   values_of_s_dash_midfield))
+s_dash_order = np.argsort(values_of_s_dash)
+values_of_s_dash = values_of_s_dash[s_dash_order]
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
@@ -46,7 +48,8 @@ print(XYZ_mid_raw.shape)
 print(XYZ_near_raw.shape)
 
 
-XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw), axis=2)
+XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw),
+                                   axis=2)[:, :, s_dash_order, :]
 general_scalars_length = len(general_resistance_scalars_names)
 
 with open('scalars_general_resistance.npy', 'wb') as outputfile:
-- 
2.43.0


From eb944499f1fefac60937ec1bd679d7f96197c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:47 +0000
Subject: [PATCH 35/47] fix: write the subtracted resistance scalars next to
 the other tables

subtract_R2Binfinity_from_scalars.py read its tables from the current folder but wrote to a subfolder that does not exist there.
A list with a single size ratio is now accepted by these scripts and by the solver, as the other scripts already do.
---
 .../subtract_R2Binfinity_from_scalars.py                    | 6 +++---
 .../subtract_R2Binfinitydrag_from_scalars.py                | 4 ++--
 stokesian_dynamics/resistance_scalars/data.py               | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 3e69284..b96f1d8 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -22,8 +22,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
@@ -103,7 +103,7 @@ for lam_index, lam in enumerate(lam_range_with_reciprocals):
         XYZd_raw[10, 1, s_dash_index, lam_index] = XYZ_raw[10, 1, s_dash_index, lam_index] - ZM1
 
 # computer readable
-with open('find_resistance_scalars/scalars_general_resistance_d.npy', 'wb+') as outputfile:
+with open('scalars_general_resistance_d.npy', 'wb') as outputfile:
     np.save(outputfile, XYZd_raw)
 
 # human readable
diff --git a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
index 95e9bfa..197bbdd 100644
--- a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
@@ -26,8 +26,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index fb26487..3908223 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -13,7 +13,8 @@ resistance_scalars_folder = os.path.dirname(os.path.abspath(__file__))
 s_dash_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_s_dash.txt')
 range_s_dash_range = range(s_dash_range.shape[0])
 range_len_of_s_dash_range = range(s_dash_range.shape[0])
-lam_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_lambda.txt')
+lam_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_lambda.txt',
+                       ndmin=1)
 lam_range_with_reciprocals = lam_range
 for lam in lam_range_with_reciprocals:
     if (1./lam) not in lam_range_with_reciprocals:
-- 
2.43.0


From d0a045c308477ed9a895bc511bfb812fc2ae6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:53 +0000
Subject: [PATCH 36/47] fix: find the reciprocal size ratio in the midfield
 generator

For size ratios such as 0.9 the reciprocal of the reciprocal is not exactly the same number, so the lookup failed after the whole computation.
---
 find_resistance_scalars/generate_scalars_midfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/generate_scalars_midfield.py b/find_resistance_scalars/generate_scalars_midfield.py
index 2b8c66e..2b122f7 100755
--- a/find_resistance_scalars/generate_scalars_midfield.py
+++ b/find_resistance_scalars/generate_scalars_midfield.py
@@ -433,7 +433,7 @@ for lam_wr_index, lam in enumerate(lam_range_with_reciprocals):
                                           lam**3, lam**3, lam**3])
         lam_scales_m = np.tile(lam_scales_one_line_m, (s_dash_length, 1)).T
 
-        lam_index = np.argwhere(lam_range == (1 / lam))[0, 0]
+        lam_index = np.argmin(np.abs(lam_range - 1 / lam))
         XYZ_general_table[:, 0, :, lam_wr_index] = (XYZ_table[
             (3, 7, 11, 15, 19, 23, 27, 31, 35, 39, 43), :, lam_index]
             * minus_in_B_and_G * lam_scales_r)
-- 
2.43.0


From 62014116b88e2e9175e00becfdafe086fadedba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:50 +0000
Subject: [PATCH 37/47] fix: draw dumbbells in the plotting scripts

The scripts passed a frame number that plot_all_dumbbells does not take, so any saved run with dumbbells failed.
---
 stokesian_dynamics/plotting/make_video.py     | 2 +-
 stokesian_dynamics/plotting/plot_positions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 1c962a9..47417d4 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -276,7 +276,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             sphere_trace_lines, FaX)
     if num_dumbbells > 0:
         (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-            ax, real_frameno, posdata, trace_paths,
+            ax, posdata, trace_paths,
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e3ff14a..dc22526 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -102,7 +102,7 @@ if num_spheres > 0:
         sphere_trace_lines, Fa_out[frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-        ax, frameno, posdata, trace_paths, dumbbell_trace_lines,
+        ax, posdata, trace_paths, dumbbell_trace_lines,
         Fb_out[frameno], DFb_out[frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
-- 
2.43.0


From b60786a0b4964aa8336cd4dd35a8e729814f94da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:55 +0000
Subject: [PATCH 38/47] fix: plot frames for which no force was saved

Positions have one more row than forces, and forces can be saved less often or not at all. The last frame could not be plotted in those cases.
---
 stokesian_dynamics/plotting/make_video.py     | 16 +++++++++-------
 stokesian_dynamics/plotting/plot_positions.py | 15 +++++++++++++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 47417d4..90cf612 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -162,14 +162,16 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
     dumbbell_deltax = positions_deltax[real_frameno, :, :]
 
     no_line = False
-    if frameno == num_frames - 1:
-        FaX = Fa_out[frameno-1]
-        FbX = Fb_out[frameno-1]
-        DFbX = DFb_out[frameno-1]
+    # Forces may be saved less often than positions, or not at all
+    if len(Fa_out) > 0:
+        force_frameno = min(real_frameno, len(Fa_out) - 1)
+        FaX = Fa_out[force_frameno]
+        FbX = Fb_out[force_frameno]
+        DFbX = DFb_out[force_frameno]
     else:
-        FaX = Fa_out[frameno]
-        FbX = Fb_out[frameno]
-        DFbX = DFb_out[frameno]
+        FaX = np.zeros((num_spheres, 3))
+        FbX = np.zeros((num_dumbbells, 3))
+        DFbX = np.zeros((num_dumbbells, 3))
 
     # FOR PERIODIC, let's get it to repeat itself left and right
     (Fa_in, Ta_in, Sa_in, Sa_c_in, Fb_in, DFb_in, Ua_in, Oa_in, Ea_in,
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index dc22526..566b4b2 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -56,6 +56,17 @@ Ta_out = [[0, 0, 0] for _ in range(num_spheres)]
 Oa_out = [[0, 0, 0] for _ in range(num_spheres)]
 Ua_out = [[0, 0, 0] for _ in range(num_spheres)]
 
+# Forces may be saved less often than positions, or not at all
+if len(Fa_out) > 0:
+    force_frameno = min(frameno, len(Fa_out) - 1)
+    FaX = Fa_out[force_frameno]
+    FbX = Fb_out[force_frameno]
+    DFbX = DFb_out[force_frameno]
+else:
+    FaX = np.zeros((num_spheres, 3))
+    FbX = np.zeros((num_dumbbells, 3))
+    DFbX = np.zeros((num_dumbbells, 3))
+
 posdata = [sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
            dumbbell_positions, dumbbell_deltax]
 previous_step_posdata = posdata
@@ -99,11 +110,11 @@ fig.tight_layout()
 if num_spheres > 0:
     (spheres, sphere_lines, sphere_trace_lines) = plot_all_spheres(
         ax, frameno, posdata, previous_step_posdata, trace_paths,
-        sphere_trace_lines, Fa_out[frameno])
+        sphere_trace_lines, FaX)
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
         ax, posdata, trace_paths, dumbbell_trace_lines,
-        Fb_out[frameno], DFb_out[frameno])
+        FbX, DFbX)
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
     (velocity_lines, velocity_text, sphere_labels) = plot_all_velocity_lines(
-- 
2.43.0


From 84582ca08ba4932913637bd655fdd7fd8d25bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:02 +0000
Subject: [PATCH 39/47] fix: create the output_videos folder

The folder is not part of the repository, so make_video.py failed and blamed a missing FFMPEG.
---
 stokesian_dynamics/plotting/make_video.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 90cf612..9c72397 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -34,6 +34,7 @@ matplotlib.use('Agg')
 this_folder = os.path.dirname(os.path.abspath(__file__))
 output_folder = this_folder + "/../output/"
 video_folder = this_folder + "/../output_videos/"
+os.makedirs(video_folder, exist_ok=True)
 
 # Use newest file
 newest = max(glob.iglob(output_folder + '*.[Nn][Pp][Zz]'), key=os.path.getctime)
-- 
2.43.0


From d4fcfa9648de1cbf3c5145713472c58f52b85550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:08 +0000
Subject: [PATCH 40/47] fix: start a video at a later frame without giving its
 end

The frame count ignored num_frames_override_start and ran past the end of the file.
---
 stokesian_dynamics/plotting/make_video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 9c72397..21c87d9 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -72,7 +72,7 @@ DFb_out = data1['DFb']
 positions_sphere_rotations = data1['sphere_rotations']
 
 if num_frames_override_end == 0:
-    num_frames = positions_centres.shape[0]//display_every_n_frames
+    num_frames = (positions_centres.shape[0]-num_frames_override_start)//display_every_n_frames
 else:
     num_frames = (num_frames_override_end-num_frames_override_start)//display_every_n_frames
 num_particles = positions_centres.shape[1]
-- 
2.43.0


From be13d99ad96fe79ff14b2bda87a7f02b0fd2c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:14 +0000
Subject: [PATCH 41/47] fix: read small timesteps from the file name

A timestep such as 1e-05 holds a dash, which upset the splitting of the name in make_video.py.
---
 stokesian_dynamics/plotting/make_video.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 21c87d9..9f5e757 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -13,6 +13,7 @@ import matplotlib
 import numpy as np
 import matplotlib.pyplot as plt
 import os
+import re
 import time
 import sys
 from matplotlib import animation, rcParams
@@ -41,9 +42,11 @@ newest = max(glob.iglob(output_folder + '*.[Nn][Pp][Zz]'), key=os.path.getctime)
 filename = newest[len(output_folder):-len(".npz")]
 # Overwrite filename here if you want a specific file
 
-timestep = float(filename.split('-')[4][1:].replace('p', '.'))
-input_number = int(filename.split('-')[2][1:])
-setup_number = int(filename.split('-')[1][1:])
+setup_number, input_number, timestep = re.search(
+    r'-s(-?\d+)-i(-?\d+)-\d+fr-t(.+?)-M\d', filename).groups()
+timestep = float(timestep.replace('p', '.'))
+input_number = int(input_number)
+setup_number = int(setup_number)
 
 # Find out info from input_number
 posdata, setup_description = pos_setup(setup_number)
-- 
2.43.0


From 68b5c96d7e333a9b4184c53b33d9dda4b7264a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:20 +0000
Subject: [PATCH 42/47] fix: draw video particles at the size their setup gives

All spheres had radius 1 and all beads 0.1, whatever the setup.
---
 stokesian_dynamics/plotting/make_video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 9f5e757..b901328 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -81,8 +81,8 @@ else:
 num_particles = positions_centres.shape[1]
 num_dumbbells = positions_deltax.shape[1]
 num_spheres = num_particles - num_dumbbells
-sphere_sizes = np.array([1 for i in range(num_spheres)])
-dumbbell_sizes = np.array([0.1 for i in range(num_dumbbells)])
+sphere_sizes = posdata[0]
+dumbbell_sizes = posdata[3]
 max_DFb_out = 1
 
 # Pictures initialise
-- 
2.43.0


From 24e6612f4358bdd5a216519b7d0a2813565a97f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:08 +0000
Subject: [PATCH 43/47] fix: draw labels when plotting saved runs

The label functions need arrays with one row for each drawn sphere, and the forces of the plotted frame only.
---
 stokesian_dynamics/plotting/make_video.py     | 8 ++++----
 stokesian_dynamics/plotting/plot_positions.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index b901328..a47247c 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -267,9 +267,9 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
                    dumbbell_sizes, dumbbell_positions, dumbbell_deltax]
         previous_step_posdata = posdata
 
-    Ta_out = [[0, 0, 0] for _ in range(num_spheres)]
-    Oa_out = [[0, 0, 0] for _ in range(num_spheres)]
-    Ua_out = [[0, 0, 0] for _ in range(num_spheres)]
+    Ta_out = np.zeros(sphere_positions.shape)
+    Oa_out = np.zeros(sphere_positions.shape)
+    Ua_out = np.zeros(sphere_positions.shape)
 
     for q in (spheres + force_lines + torque_lines + velocity_lines
               + angular_velocity_lines + sphere_lines + dumbbell_lines
@@ -286,7 +286,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
-        (force_lines, force_text) = plot_all_force_lines(ax, posdata, Fa_out)
+        (force_lines, force_text) = plot_all_force_lines(ax, posdata, FaX)
         torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
         # Velocity in green
         (velocity_lines, velocity_text, sphere_labels) = plot_all_velocity_lines(
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index 566b4b2..e921d5d 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -52,9 +52,9 @@ sphere_sizes = np.array([1 for _ in range(num_spheres)])
 dumbbell_sizes = np.array([0.1 for _ in range(num_dumbbells)])
 sphere_rotations = add_sphere_rotations_to_positions(
     sphere_positions, sphere_sizes, np.array([[1, 0, 0], [0, 0, 1]]))
-Ta_out = [[0, 0, 0] for _ in range(num_spheres)]
-Oa_out = [[0, 0, 0] for _ in range(num_spheres)]
-Ua_out = [[0, 0, 0] for _ in range(num_spheres)]
+Ta_out = np.zeros((num_spheres, 3))
+Oa_out = np.zeros((num_spheres, 3))
+Ua_out = np.zeros((num_spheres, 3))
 
 # Forces may be saved less often than positions, or not at all
 if len(Fa_out) > 0:
-- 
2.43.0


From 8491d0766a05560161964342eb1bcf68b8825bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:14 +0000
Subject: [PATCH 44/47] fix: project arrows with current matplotlib

Axes3D now asks patches for do_3d_projection and no longer sets renderer.M, so showing force arrows stopped the run.
---
 stokesian_dynamics/functions/graphics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 6a9cb06..8262ec0 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -15,11 +15,11 @@ class Arrow3D(FancyArrowPatch):
         FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
         self._verts3d = xs, ys, zs
 
-    def draw(self, renderer):
+    def do_3d_projection(self, renderer=None):
         xs3d, ys3d, zs3d = self._verts3d
-        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
         self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
-        FancyArrowPatch.draw(self, renderer)
+        return np.min(zs)
 
 
 def rotation_matrix(d):
-- 
2.43.0


From 085fa67684570238b5ce70ea4d0b03f7e904b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:20 +0000
Subject: [PATCH 45/47] fix: draw every force arrow at the same scale

The scale of 6 was applied to all forces again for each sphere.
---
 stokesian_dynamics/functions/graphics.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 8262ec0..35e3553 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -261,21 +261,21 @@ def plot_all_force_lines(ax, posdata, f_spheres):
         # Make invisible if hidden
         if ((f_spheres[i, :] != np.array([0, 0, 0])).any()
                 and (sphere_positions[i, 1] < 0.05 and sphere_positions[i, 1] > -1)):
-            f_spheres = f_spheres*6  # so we can see it
+            f = f_spheres[i]*6  # so we can see it
             line = Arrow3D([sphere_positions[i, 0],
-                            sphere_positions[i, 0]+f_spheres[i, 0]],
+                            sphere_positions[i, 0]+f[0]],
                            [sphere_positions[i, 1],
-                            sphere_positions[i, 1]+f_spheres[i, 1]],
+                            sphere_positions[i, 1]+f[1]],
                            [sphere_positions[i, 2],
-                            sphere_positions[i, 2]+f_spheres[i, 2]],
+                            sphere_positions[i, 2]+f[2]],
                            mutation_scale=20, lw=1,
                            arrowstyle="-|>", color="r")
             ax.add_artist(line)
             force_lines.append(line)
             ftext = ax.text(
-                sphere_positions[i, 0] + f_spheres[i, 0],
-                sphere_positions[i, 1] + f_spheres[i, 1],
-                sphere_positions[i, 2] + f_spheres[i, 2],
+                sphere_positions[i, 0] + f[0],
+                sphere_positions[i, 1] + f[1],
+                sphere_positions[i, 2] + f[2],
                 f"{str(i)}",
                 color='r',
             )
-- 
2.43.0


From baa2959360eb29f1291be60e214b75c38a003cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:23 +0000
Subject: [PATCH 46/47] fix: begin the completion email with a proper From
 header

The message began with a backslash, so its first header was not recognised.
---
 stokesian_dynamics/functions/email.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/email.py b/stokesian_dynamics/functions/email.py
index 39da537..feda61d 100644
--- a/stokesian_dynamics/functions/email.py
+++ b/stokesian_dynamics/functions/email.py
@@ -25,7 +25,7 @@ def send_email(subject, body):
     to_address = recipient if isinstance(recipient,list) else [recipient]
 
     # Prepare actual message
-    message = """\\From: %s\nTo: %s\nSubject: %s\n\n%s
+    message = """From: %s\nTo: %s\nSubject: %s\n\n%s
     """ % (from_address, ", ".join(to_address), subject, body)
     try:
         server = smtplib.SMTP("smtp.gmail.com", 587)
-- 
2.43.0


From abb8f57282990f68d9db139ef4c1a8b5aafd9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:30 +0000
Subject: [PATCH 47/47] fix: say which inputs are missing when a force is unset

Unset values reached the linear solve as text and stopped the run with a
numpy error. The load vector is now converted to numbers where it is built,
inside the callers' error handling, so the intended message is shown.
---
 stokesian_dynamics/functions/simulation_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index e135e1e..223ea12 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -132,7 +132,7 @@ def construct_force_vector_from_fts(posdata, f_spheres, t_spheres, s_spheres,
         fd = [item for sublist in f_dumbbells for item in sublist]
         dfd = [item for sublist in deltaf_dumbbells for item in sublist]
         force_vector = fs + ts + ss + fd + dfd
-    return force_vector
+    return np.array(force_vector, float)
 
 
 def deconstruct_velocity_vector_for_fts(posdata, velocity_vector):
-- 
2.43.0

