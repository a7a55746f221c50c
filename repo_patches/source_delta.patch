From 8915b2f95f70cd91d859fa94388b6160a4d19bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:21 +0000
Subject: [PATCH 01/55] fix: keep precision when converting between force and
 velocity forms

The row and column swapped by the conversion were formed as the difference
of two nearly equal large matrices. For sphere radii of 100 the velocities
were wrong by several per cent. Set them to zero before adding the new
blocks, as the algebra says.
---
 .../functions/simulation_tools.py             | 67 ++++++++-----------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index f36ad10..4b6c04c 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -216,6 +216,23 @@ def vec_mat_cross(A, B, C, matrix_size, items_in_vector, starts, crosspoint):
     return D
 
 
+def swap_block(M, A, B, C, matrix_size, items_in_vector, starts, crosspoint):
+    '''Swap the roles of force and velocity in the crosspoint row/column of M,
+    given B = (block of M at the crosspoint)^-1.
+
+    Returns M - vecmat_mat_vecmat - vec_mat_cross. The crosspoint row and column
+    of M - vecmat_mat_vecmat are zero in exact arithmetic and are set to zero
+    here, as their rounding error can swamp the much smaller B that replaces
+    them.
+    '''
+    D = M - vecmat_mat_vecmat(A, B, C, matrix_size, items_in_vector, starts)
+    cross = slice(starts[crosspoint], starts[crosspoint+1])
+    D[cross, :] = 0
+    D[:, cross] = 0
+    return D - vec_mat_cross(A, B, C, matrix_size, items_in_vector, starts,
+                             crosspoint)
+
+
 def fts_to_fte_matrix(posdata, grand_mobility_matrix):
     '''Convert mobility matrix expecting to multiply a grand force vector of
     FTS form to one expecting FTE form.
@@ -261,13 +278,8 @@ def fts_to_fte_matrix(posdata, grand_mobility_matrix):
             vec1 = [gt, ht, m]
             vec2 = [g, h, m]
 
-    return (
-        M
-        - vecmat_mat_vecmat(vec1, m_inv, vec2, C5, items_in_vector, starts)
-        - vec_mat_cross(
-            vec1, m_inv, vec2, C5, items_in_vector, starts, crosspoint
-        )
-    )
+    return swap_block(M, vec1, m_inv, vec2, C5, items_in_vector, starts,
+                      crosspoint)
 
 
 def fte_to_ufte_matrix(num_fixed_velocity_spheres, posdata,
@@ -329,13 +341,8 @@ def fte_to_ufte_matrix(num_fixed_velocity_spheres, posdata,
             vec1 = [axx, arx, bx, gx]
             vec2 = [axx, axr, btx, gtx]
 
-    return (
-        M
-        - vecmat_mat_vecmat(vec1, axx_inv, vec2, C5, items_in_vector, starts)
-        - vec_mat_cross(
-            vec1, axx_inv, vec2, C5, items_in_vector, starts, crosspoint
-        )
-    )
+    return swap_block(M, vec1, axx_inv, vec2, C5, items_in_vector, starts,
+                      crosspoint)
 
 
 def ufte_to_ufteu_matrix(num_fixed_velocity_dumbbells,
@@ -406,11 +413,8 @@ def ufte_to_ufteu_matrix(num_fixed_velocity_dumbbells,
     vec1 = [m14xx, m14rx, m24x, m34x, m44xx, m44rx, m54xx, m54rx]  # down
     vec2 = [m41xx, m41rx, m42x, m43x, m44xx, m44xr, m45xx, m45xr]  # across
 
-    MUFTEU1 = (M
-               - vecmat_mat_vecmat(vec1, m44xx_inv, vec2, C5, items_in_vector,
-                                   starts)
-               - vec_mat_cross(vec1, m44xx_inv, vec2, C5, items_in_vector,
-                               starts, crosspoint))
+    MUFTEU1 = swap_block(M, vec1, m44xx_inv, vec2, C5, items_in_vector,
+                         starts, crosspoint)
 
     # Step 2. Swap the m55xx row and column
 
@@ -438,13 +442,8 @@ def ufte_to_ufteu_matrix(num_fixed_velocity_dumbbells,
     vec1 = [m15xx, m15rx, m25x, m35x, m45xx, m45rx, m55xx, m55rx]  # down
     vec2 = [m51xx, m51rx, m52x, m53x, m54xx, m54xr, m55xx, m55xr]  # across
 
-    return (
-        M
-        - vecmat_mat_vecmat(vec1, m55xx_inv, vec2, C5, items_in_vector, starts)
-        - vec_mat_cross(
-            vec1, m55xx_inv, vec2, C5, items_in_vector, starts, crosspoint
-        )
-    )
+    return swap_block(M, vec1, m55xx_inv, vec2, C5, items_in_vector, starts,
+                      crosspoint)
 
 
 def fts_to_duf_matrix(num_fixed_velocity_dumbbells, posdata,
@@ -499,11 +498,8 @@ def fts_to_duf_matrix(num_fixed_velocity_dumbbells, posdata,
     vec1 = [m44xx, m44rx, m54xx, m54rx]  # down
     vec2 = [m44xx, m44xr, m45xx, m45xr]  # across
 
-    MDUF1 = (M
-             - vecmat_mat_vecmat(vec1, m44xx_inv, vec2, C5, items_in_vector,
-                                 starts)
-             - vec_mat_cross(vec1, m44xx_inv, vec2, C5, items_in_vector,
-                             starts, crosspoint))
+    MDUF1 = swap_block(M, vec1, m44xx_inv, vec2, C5, items_in_vector,
+                       starts, crosspoint)
 
     # Step 2. Swap the m55xx row and column
 
@@ -523,10 +519,5 @@ def fts_to_duf_matrix(num_fixed_velocity_dumbbells, posdata,
     vec1 = [m45xx, m45rx, m55xx, m55rx]  # down
     vec2 = [m54xx, m54xr, m55xx, m55xr]  # across
 
-    return (
-        M
-        - vecmat_mat_vecmat(vec1, m55xx_inv, vec2, C5, items_in_vector, starts)
-        - vec_mat_cross(
-            vec1, m55xx_inv, vec2, C5, items_in_vector, starts, crosspoint
-        )
-    )
+    return swap_block(M, vec1, m55xx_inv, vec2, C5, items_in_vector, starts,
+                      crosspoint)
-- 
2.43.0


From d946ba74229e64a75885c2c8742b1fbd37306a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:25 +0000
Subject: [PATCH 02/55] fix: find close pairs of large particles in periodic
 boxes

The first selection of close pairs compared unscaled distances with the
scaled cutoff, so touching particles of radius above two got no near-field
interaction in a periodic box.
---
 stokesian_dynamics/functions/shared.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..419bec6 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -458,7 +458,9 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
-        # This lists pairs that are closer than 4 units, regardless of size ratio.
+        # This lists pairs close enough for the largest particles in the system,
+        # regardless of their own sizes.
+        cutoff_radius = cutoff*np.max(bead_sizes)
         for i in range(len(unsheared_positions)):
             sphere_position = unsheared_positions[i]
             sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
@@ -467,10 +469,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                          sheared_basis_vectors)
             # Shear again
             # Take particles only within a cube of the correct radius:
-            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff)
+            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff_radius)
             # Take particles only within a sphere of the correct radius:
             particles_in_radius = np.where(
-                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff)
+                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff_radius)
             particles_in_radius_ids = particles_in_cube[0][particles_in_radius][
                 particles_in_cube[0][particles_in_radius] >= i]
             closer_than_cutoff_pairs += [(i, j) for j in particles_in_radius_ids]
-- 
2.43.0


From 4fb3d8e9e39bb87f1570cf276e01df69c7e4957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:58 +0000
Subject: [PATCH 03/55] fix: include wave-space part of odd couplings in
 periodic Minfinity

The force-rotation and force-strain couplings left out the wave-space half
of their Ewald sums on the assumption that it vanishes. It is imaginary but
odd in k, so it is the sine sum which survives.
---
 .../functions/generate_Minfinity_periodic.py  | 111 ++++++++++++------
 1 file changed, 76 insertions(+), 35 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d1ce422..54f09e6 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -434,8 +434,8 @@ def mr(r, s, a1, a2, i, j, k, l, erfcs, c, mu):
 
 
 # === FOURIER TRANSFORMED J^k(k) ===
-# The only ones required are Jtilde, DD_Jtilde, D_Rtilde, D_Ktilde, LapJ_tilde,
-# DLapK_tilde.
+# The only ones required are Jtilde, D_Jtilde, DD_Jtilde, D_Rtilde, D_Ktilde,
+# LapJ_tilde, DLapK_tilde.
 
 @njit(cache=True)
 def Jtilde(ki, kj, ss, i, j, RR):
@@ -444,6 +444,13 @@ def Jtilde(ki, kj, ss, i, j, RR):
     return -((i == j)*ss**2 - ki*kj)*RR
 
 
+@njit(cache=True)
+def D_Jtilde(kkl, kki, kkj, ss, i, j, RR):
+    """Fourier transform of derivative of wavespace Oseen tensor, D_l J^k_ij(k),
+    divided by sqrt(-1). See PhD thesis section A.2.7."""
+    return kkl * Jtilde(kki, kkj, ss, i, j, RR)
+
+
 @njit(cache=True)
 def DD_Jtilde(kkm, kkl, kki, kkj, ss, i, j, RR):
     """Fourier transform of 2nd derivative of wavespace Oseen tensor,
@@ -503,6 +510,26 @@ def aktilde(kk, ss, a1, a2, i, j, RR, c):
               + (a1**2 + a2**2)/6. * Lap_Jtilde(kki, kkj, ss, i, j, RR))
 
 
+@njit(cache=True)
+def btktilde(kk, ss, a1, a2, i, j, RR, c):
+    """Element ij of the wavespace periodic version of Minfinity submatrix
+    b tilde, divided by sqrt(-1). See docstring for aktilde."""
+    k = (j+1) % 3
+    l = (j+2) % 3
+    return -0.5*c*(1 - a1**2/6. * ss**2)*(
+        D_Jtilde(kk[k], kk[i], kk[l], ss, i, l, RR)
+        - D_Jtilde(kk[l], kk[i], kk[k], ss, i, k, RR))
+
+
+@njit(cache=True)
+def gtktilde(kk, ss, a1, a2, i, j, k, RR, c):
+    """Element ijk of the uncontracted wavespace periodic version of Minfinity
+    submatrix g tilde, divided by sqrt(-1). See docstring for aktilde."""
+    return -0.5*c*(1 - (a1**2/6. + a2**2/10.) * ss**2)*(
+        D_Jtilde(kk[k], kk[i], kk[j], ss, i, j, RR)
+        + D_Jtilde(kk[j], kk[i], kk[k], ss, i, k, RR))
+
+
 @njit(cache=True)
 def cktilde(kk, ss, a1, a2, i, j, RR, c):
     """Element ij of the wavespace periodic version of Minfinity submatrix c.
@@ -598,43 +625,50 @@ def M11(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
 
 
 @njit(cache=True)
-def M12(i, j, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M12(i, j, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix b tilde. Same form as PhD thesis
     (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_btr
-        bt = 0.
+        sum_btr = 0.
         for q in range(num_X_points):
-            bt += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q], c,
-                      mu)
-        return bt
+            sum_btr += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q],
+                           c, mu)
         # (4)
-        # I think sum_btk always ends up being 0 (given that it's imaginary,
-        # over the sum it looks like it cancels out)
-        # Imaginary part of e(i*k.r) always cancels out over the sum I think
-        # (should probably try to show this but I'm pretty certain)
-        # return sum_btr
+        # The transform is imaginary and odd in k, so the imaginary part of
+        # e(i*k.r) is the one which survives the sum.
+        sum_btk = 0.
+        for q in range(num_K_points):
+            sum_btk -= (math.sin(np.dot(K_lmn[q], r))
+                        * btktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, RR_K[q],
+                                   c))
+        sum_btk *= 1./L**3
+        return sum_btr + sum_btk
     else:
         return 0
 
 
 @njit(cache=True)
-def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ijk of uncontracted Minfinity submatrix g tilde. Same form as
     PhD thesis (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_gtr
-        gt = 0.
+        sum_gtr = 0.
         for q in range(num_X_points):
-            gt += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k, erfcs_lmn[q],
-                      c, mu)
-        return gt
+            sum_gtr += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k,
+                           erfcs_lmn[q], c, mu)
         # (4)
-        # I think gtk always ends up being 0 (given that it's imaginary, over
-        # the sum it looks like it cancels out)
-        # return sum_gtr
+        # Imaginary and odd in k: see M12.
+        sum_gtk = 0.
+        for q in range(num_K_points):
+            sum_gtk -= (math.sin(np.dot(K_lmn[q], r))
+                        * gtktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, k,
+                                   RR_K[q], c))
+        sum_gtk *= 1./L**3
+        return sum_gtr + sum_gtk
     else:
         return 0
 
@@ -986,8 +1020,9 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[Bt_c[0]:Bt_c[0]+3,
                       Bt_c[1]:Bt_c[1]+3] = np.array([[
-                          M12(i, j, r, s, a1, a2,
-                              X_lmn, num_X_points,
+                          M12(i, j, r, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
@@ -1000,7 +1035,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn)
+            args = (r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, s_lmn, erfcs_lmn)
             for i in range(3):
                 Minfinity[Gt_c[0]+i,
                           Gt_c[1]:Gt_c[1]+5] = con_M13_row(i, args)
@@ -1042,12 +1078,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                 m_erfcs_lmn = [generate_erfcs(S, lamb) for S in m_s_lmn]
                 Minfinity[Bt21_c[0]:Bt21_c[0]+3,
                           Bt21_c[1]:Bt21_c[1]+3] = np.array([[
-                              M12(i, j, mr, s, a2, a1,
-                                  X_lmn, num_X_points,
+                              M12(i, j, mr, s, a2, a1, L,
+                                  X_lmn, K_lmn, Ks_lmn, RR_K,
+                                  num_X_points, num_K_points,
                                   c, mu, m_s_lmn, m_erfcs_lmn)
                               for j in range(3)] for i in range(3)])
 
-                args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu,
+                args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                        num_X_points, num_K_points, c, mu,
                         m_s_lmn, m_erfcs_lmn)
                 for i in range(3):
                     Minfinity[Gt21_c[0]+i,
@@ -1087,13 +1125,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
-                              X_lmn, num_X_points,
+                          M12(j, i, mr, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M34_temp[i,j] = M13(j, *cond_idx[i], *args)
@@ -1122,12 +1161,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M35_temp[i,j] = M13(j, *cond_idx[i], *args)
-- 
2.43.0


From c6821c3fab4a897e0b54e7083ad74ae450e1e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:17 +0000
Subject: [PATCH 04/55] fix: subtract wave-space self term of the periodic
 rotational mobility

The rotation-torque block left out the self term of its Ewald sum, so the
result depended on the splitting parameter.
---
 .../functions/generate_Minfinity_periodic.py             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 54f09e6..1858f42 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -674,7 +674,7 @@ def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
 
 
 @njit(cache=True)
-def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
+def M22(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
         num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix c. Same form as PhD thesis
@@ -707,8 +707,9 @@ def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
         for q in range(num_K_points):
             sum_ck += cktilde(K_lmn[q], Ks_lmn[q], a1, a1, i, j, RR_K[q], c)
         sum_ck *= 1./L**3
-        # (5) = 0
-        return c_aa + sum_cr + sum_ck
+        # (5)
+        c_k0 = c*kronmatrix[i][j]*(40*lamb**3/(3*spi))
+        return c_aa + sum_cr + sum_ck - c_k0
 
 
 @njit(cache=True)
@@ -1028,7 +1029,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[C_c[0]:C_c[0]+3,
                       C_c[1]:C_c[1]+3] = np.array([[
-                          M22(i, j, r, s, a1, a2, erfcs, L,
+                          M22(i, j, r, s, a1, a2, erfcs, L, lamb,
                               X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                               K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_Xdash_points, num_K_points,
-- 
2.43.0


From 51663f11e6d2ab03899c835c8f3d56f31f56bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:26 +0000
Subject: [PATCH 05/55] fix: use the bead and sphere radii the right way round
 in periodic Minfinity

The sphere-bead couplings reverse the displacement but did not exchange the
two radii, unlike the free-space version.
---
 .../functions/generate_Minfinity_periodic.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 1858f42..c91e6c7 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1126,13 +1126,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, L,
+                          M12(j, i, mr, s, a2, a1, L,
                               X_lmn, K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
                     num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1162,13 +1162,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, L,
+                          M12(j, i, mr, s, a2, a1, L,
                               X_lmn, K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
                     num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 97f7d248772aaed712311e01c5c71c04ab575edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:30 +0000
Subject: [PATCH 06/55] fix: let periodic runs start with Numba enabled

shear_basis_vectors was compiled but is given integer arrays and nested
lists, which Numba's dot product refuses. Every periodic run stopped with a
typing error unless Numba was switched off in the environment.
---
 stokesian_dynamics/functions/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 419bec6..7ab0cb7 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -424,7 +424,7 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
             new_dumbbell_sizes, new_dumbbell_positions, new_dumbbell_deltax)
 
 
-@njit(cache=True)
+# No njit: the flow arguments may be integer arrays or nested lists
 def shear_basis_vectors(basis_canonical, box_dimensions,
                         Ot_infinity, Et_infinity):
     """Shear the basis vectors representing the periodic box."""
-- 
2.43.0


From 87be8da091b72cd8cc59e95bd4b3f4ce8ab86ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:12 +0000
Subject: [PATCH 07/55] fix: use nearest periodic images for close pairs and
 lattice sums

The separation of a pair was taken between the stored positions for the
truncated lattice sums, so two particles touching across a corner of the box
had a mobility error of a few tenths of a per cent and were never held at the
minimum separation. In sheared boxes some close pairs were missed, as
rounding the fractional coordinates does not always give the nearest image.
---
 .../functions/generate_Minfinity_periodic.py  | 16 +++++++----
 stokesian_dynamics/functions/shared.py        | 28 +++++++++++--------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index c91e6c7..15608d4 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -7,7 +7,8 @@ import math
 from functions.shared import (posdata_data, norm, s2, hs3p1, hs3m1, spi,
                               submatrix_coords_tuple,
                               is_sphere, is_dumbbell_bead_1, is_dumbbell_bead_2,
-                              shear_basis_vectors, cond_idx, cond_E)
+                              shear_basis_vectors, nearest_images, cond_idx,
+                              cond_E)
 from settings import how_far_to_reproduce_gridpoints, bead_bead_interactions
 from scipy.sparse import coo_matrix
 from math import erfc, pi, exp
@@ -906,7 +907,12 @@ def generate_Minfinity_periodic(posdata, box_bottom_left, box_top_right,
                      * (1 + ks**2/(4*lamb**2) + ks**4/(8*lamb**4))
                      * math.exp(-ks**2/(4*lamb**2)) for ks in Ks_lmn])
 
-    Minfinity = generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes,
+    # The lattice sums are truncated, so start them from the nearest image.
+    displacements = np.array([
+        nearest_images(x - bead_positions, sheared_basis_vectors)
+        for x in bead_positions])
+
+    Minfinity = generate_Minfinity_loop(Minfinity, displacements, bead_sizes,
                                         num_spheres, num_dumbbells, c, mu,
                                         lamb, X_lmn, Xdash_lmn, Sdash_lmn,
                                         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K,
@@ -941,7 +947,7 @@ def generate_Minfinity_periodic(posdata, box_bottom_left, box_top_right,
 
 
 @njit(cache=True)
-def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
+def generate_Minfinity_loop(Minfinity, displacements, bead_sizes, num_spheres,
                             num_dumbbells, c, mu,
                             lamb, X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                             K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
@@ -951,7 +957,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
     Args:
         Minfinity: Zeroed Minfinity matrix
-        bead_positions: Bead positions
+        displacements: Displacements x1-x2 between nearest images of beads
         bead_sizes: Bead sizes
         num_spheres: Number of spheres
         num_dumbbells: Number of dumbbells
@@ -985,7 +991,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                                for v in range(u, len(bead_sizes))]:
         # Displacement convention for the Minfinity formulae is a1-a2
         # (inconveniently the opposite of in R2Bexact)
-        r = bead_positions[a1_index] - bead_positions[a2_index]
+        r = displacements[a1_index, a2_index]
         a1 = bead_sizes[a1_index]
         a2 = bead_sizes[a2_index]
         s = norm(r)
diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 7ab0cb7..486c9ec 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -437,6 +437,19 @@ def shear_basis_vectors(basis_canonical, box_dimensions,
     return sheared_basis_vectors
 
 
+def nearest_images(displacements, basis_vectors):
+    """Return the shortest periodic image of each of an array of displacements,
+    in a lattice with the given basis vectors."""
+    fractions = np.dot(displacements, np.linalg.inv(basis_vectors))
+    centred = np.dot(fractions - np.round(fractions), basis_vectors)
+    # In a sheared box this may not be the shortest image but a neighbour is.
+    neighbours = np.dot([[i, j, k] for i in [0, -1, 1] for j in [0, -1, 1]
+                         for k in [0, -1, 1]], basis_vectors)
+    images = centred[:, None] + neighbours
+    shortest = np.argmin(np.linalg.norm(images, axis=2), axis=1)
+    return images[np.arange(len(images)), shortest]
+
+
 def close_particles(bead_positions, bead_sizes, cutoff_factor,
                     box_bottom_left=np.array([0, 0, 0]),
                     box_top_right=np.array([0, 0, 0]),
@@ -448,26 +461,17 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
     box_dimensions = box_top_right - box_bottom_left
     periodic = not np.array_equal(box_dimensions, np.array([0, 0, 0]))
     if periodic:
-        # Unshear box
         basis_canonical = np.diag(box_dimensions)  # = [Lx,0,0],[0,Ly,0],[0,0,Lz]
         sheared_basis_vectors = shear_basis_vectors(
             basis_canonical, box_dimensions, Ot_infinity, Et_infinity)
-        # Hence
-        unsheared_positions = np.dot(
-            np.dot(bead_positions, np.linalg.inv(sheared_basis_vectors)),
-            basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
         # This lists pairs close enough for the largest particles in the system,
         # regardless of their own sizes.
         cutoff_radius = cutoff*np.max(bead_sizes)
-        for i in range(len(unsheared_positions)):
-            sphere_position = unsheared_positions[i]
-            sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
-                                                       np.linalg.inv(basis_canonical)) + 0.5,
-                                                [1, 1, 1]) - 0.5,
-                                         sheared_basis_vectors)
-            # Shear again
+        for i in range(len(bead_positions)):
+            sheared_centred_box = nearest_images(
+                bead_positions - bead_positions[i], sheared_basis_vectors)
             # Take particles only within a cube of the correct radius:
             particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff_radius)
             # Take particles only within a sphere of the correct radius:
-- 
2.43.0


From 06f6b408709f4b600ee0aad90b4896f82aa31099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:09 +0000
Subject: [PATCH 08/55] fix: describe sheared periodic boxes by their least
 sheared cell

The shear was reduced to between zero and one box length, giving strongly
slanted cells for shears above a half. The lattice sums are truncated on
that cell, so their error rose to several tenths of a per cent.
---
 stokesian_dynamics/functions/shared.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 486c9ec..08749cb 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -431,8 +431,10 @@ def shear_basis_vectors(basis_canonical, box_dimensions,
     sheared_basis_vectors_add_on = (np.cross(Ot_infinity, basis_canonical).transpose()
                                     + np.dot(Et_infinity, basis_canonical.transpose())).transpose()
 
-    sheared_basis_vectors_add_on_mod = np.mod(sheared_basis_vectors_add_on,
-                                              box_dimensions)
+    # Of all the shears giving the same lattice, take the smallest
+    sheared_basis_vectors_add_on_mod = (
+        np.mod(sheared_basis_vectors_add_on + box_dimensions/2, box_dimensions)
+        - box_dimensions/2)
     sheared_basis_vectors = basis_canonical + sheared_basis_vectors_add_on_mod
     return sheared_basis_vectors
 
-- 
2.43.0


From 8d7cbb1c665610980916b8560518ec02d64de2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:59 +0000
Subject: [PATCH 09/55] fix: let Adams-Bashforth runs with dumbbells start

The test for the first timestep subtracted the checkpoint file name from the
frame number, so these runs stopped with a TypeError.
---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From c48ab0abb65cfc2107773357a8b9873b885cd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:50 +0000
Subject: [PATCH 10/55] fix: evaluate the background flow at each Runge-Kutta
 stage

Stages 2 to 4 took the background flow at the start-of-frame positions, and
stage 2 used stage 1's strain rate for dumbbells, so the scheme was first order
in any background flow. Stage positions are no longer wrapped around a periodic
box, which would move the particle to an image with a different velocity.
---
 stokesian_dynamics/run_simulation.py | 40 +++++++---------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..de9eaf3 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -345,6 +345,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 use_Minfinity_only, extract_force_on_wall_due_to_dumbbells,
                 last_velocities, last_velocity_vector)
             # Euler timestepping k1
+            # (The positions at the stages are not wrapped around a periodic
+            # box, so that the background flow is continuous over the timestep.)
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k1, Oa_out_plus_infinities_k1 = add_background_flow_spheres(
                     Ua_out_k1, Oa_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
@@ -354,10 +356,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 sphere_rotations_k1 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k1,
                     sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
-                if periodic:
-                    sphere_positions_k1 = wrap_around(
-                        sphere_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -369,10 +367,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k1, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k1, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k1 = wrap_around(
-                        dumbbell_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             posdata_k1 = (sphere_sizes, sphere_positions_k1,
                           sphere_rotations_k1, dumbbell_sizes,
@@ -400,31 +394,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k1, centre_of_background_flow)
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_rotations_k2 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k2,
                     sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
-                if periodic:
-                    sphere_positions_k2 = wrap_around(
-                        sphere_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
-                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k1, U_infinity_k2, O_infinity_k2,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
+                    dumbbell_positions_k1, dumbbell_deltax_k1, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
                 dumbbell_deltax_k2 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k2, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k2, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k2 = wrap_around(
-                        dumbbell_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             posdata_k2 = (sphere_sizes, sphere_positions_k2,
                           sphere_rotations_k2, dumbbell_sizes,
@@ -449,31 +435,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k2, centre_of_background_flow)
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_rotations_k3 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k3,
                     sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
-                if periodic:
-                    sphere_positions_k3 = wrap_around(
-                        sphere_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k2, dumbbell_deltax_k2, centre_of_background_flow)
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
                 dumbbell_deltax_k3 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k3, timestep)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k3, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k3 = wrap_around(
-                        dumbbell_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             posdata_k3 = (sphere_sizes, sphere_positions_k3,
                           sphere_rotations_k3, dumbbell_sizes,
@@ -497,11 +475,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k3, centre_of_background_flow)
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k3, dumbbell_deltax_k3, centre_of_background_flow)
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
-- 
2.43.0


From c792c1b5f51eb2d9a96458eb922144ce6fc2159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:19 +0000
Subject: [PATCH 11/55] fix: keep dumbbells and Runge-Kutta stages in the plane
 of 2D problems

fully_2d_problem zeroed the out-of-plane velocity of spheres only, and for the
Runge-Kutta scheme only after the four stages had been evaluated out of plane.
---
 stokesian_dynamics/run_simulation.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index de9eaf3..e05c4bc 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,6 +279,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k1[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k1[:, 1] = 0
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
@@ -351,6 +354,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k1, Oa_out_plus_infinities_k1 = add_background_flow_spheres(
                     Ua_out_k1, Oa_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     sphere_positions, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k1[:, 1] = 0
                 sphere_positions_k1 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k1, timestep/2)
                 sphere_rotations_k1 = euler_timestep_rotation(
@@ -361,6 +366,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k1[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k1[:, 1] = 0
                 dumbbell_positions_k1 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k1, timestep/2)
                 dumbbell_deltax_k1 = euler_timestep(
@@ -395,6 +403,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
                     sphere_positions_k1, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k2[:, 1] = 0
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_rotations_k2 = euler_timestep_rotation(
@@ -405,6 +415,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
                     Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
                     dumbbell_positions_k1, dumbbell_deltax_k1, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k2[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k2[:, 1] = 0
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
                 dumbbell_deltax_k2 = euler_timestep(
@@ -436,6 +449,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
                     sphere_positions_k2, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k3[:, 1] = 0
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_rotations_k3 = euler_timestep_rotation(
@@ -446,6 +461,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
                     dumbbell_positions_k2, dumbbell_deltax_k2, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k3[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k3[:, 1] = 0
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
                 dumbbell_deltax_k3 = euler_timestep(
@@ -476,10 +494,15 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
                     sphere_positions_k3, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ua_out_plus_infinities_k4[:, 1] = 0
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
                     dumbbell_positions_k3, dumbbell_deltax_k3, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k4[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k4[:, 1] = 0
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
@@ -498,9 +521,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 #                         + 2*Ea_out_k3
                 #                         + Ea_out_k4)
 
-                if fully_2d_problem:
-                    Ua_out_blended[:, 1] = 0
-
                 new_sphere_positions = euler_timestep(sphere_positions, Ua_out_blended, timestep)
                 if periodic:
                     new_sphere_positions = wrap_around(
-- 
2.43.0


From 26328bf63ebbb53e8930adbb4025d03f2c17728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:30 +0000
Subject: [PATCH 12/55] fix: wrap positions around the periodic box as sheared
 at the end of the step

New positions were wrapped with the shear of the start of the frame, displacing
a particle crossing a sheared face by something other than a box vector.
---
 stokesian_dynamics/run_simulation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index e05c4bc..191c6d9 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -231,6 +231,13 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             new_dumbbell_positions = np.copy(dumbbell_positions)
             new_dumbbell_deltax = np.copy(dumbbell_deltax)
 
+        if periodic:
+            # The new positions are wrapped around the periodic box as it is
+            # sheared at the end of this timestep.
+            (Ot_infinity_new, Et_infinity_new) = input_ftsuoe(
+                input_number, posdata, frameno + 1, timestep, last_velocities,
+                input_form=input_form, skip_computation=True)[16:18]
+
         if timestepping_scheme in ['euler', 'ab2']:
             # EULER OR TWO-STEP ADAMS-BASHFORTH TIMESTEP
             new_sphere_rotations = (np.copy(sphere_rotations)).astype('float')
@@ -273,7 +280,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_new, Et_infinity_new)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -297,7 +304,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_new, Et_infinity_new)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
@@ -525,7 +532,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_new, Et_infinity_new)
                 new_sphere_rotations = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, new_sphere_positions,
                     new_sphere_rotations, Oa_out_blended, timestep)
@@ -548,7 +555,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_new, Et_infinity_new)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_blended, 0, 0, Oa_out_blended]
-- 
2.43.0


From 774887137777ecc157c211a21cf71b99011b6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:35 +0000
Subject: [PATCH 13/55] fix: carry orientation markers with spheres wrapped
 around a periodic box

The Euler and Adams-Bashforth schemes updated the markers before wrapping the
sphere's position, leaving them behind on the other side of the box.
---
 stokesian_dynamics/run_simulation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 191c6d9..9a0f38f 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -265,22 +265,24 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
+                else:
+                    new_sphere_positions = ab2_timestep(
+                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
+                if periodic:
+                    new_sphere_positions = wrap_around(
+                        new_sphere_positions, box_bottom_left, box_top_right,
+                        Ot_infinity_new, Et_infinity_new)
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, timestep)
                 else:
-                    new_sphere_positions = ab2_timestep(
-                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                     new_sphere_rotations = ab2_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
-                if periodic:
-                    new_sphere_positions = wrap_around(
-                        new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_new, Et_infinity_new)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
-- 
2.43.0


From 4d14101e58547478d2f3eebd683e6567aa45ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:39 +0000
Subject: [PATCH 14/55] fix: use the right image's velocity in Adams-Bashforth
 steps of sheared boxes

The step after a particle is wrapped around a sheared periodic box combined the
new image's velocity with that of the image it had been, which differs by the
change in the background flow across the box.
---
 stokesian_dynamics/run_simulation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 9a0f38f..d189003 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -269,6 +269,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     new_sphere_positions = ab2_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                 if periodic:
+                    unwrapped_sphere_positions = new_sphere_positions
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
                         Ot_infinity_new, Et_infinity_new)
@@ -304,10 +305,25 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, new_dumbbell_deltax, explosion_protection)
                 if periodic:
+                    unwrapped_dumbbell_positions = new_dumbbell_positions
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
                         Ot_infinity_new, Et_infinity_new)
 
+            if periodic:
+                # A particle which has been wrapped around is now a different
+                # periodic image, whose velocity differs by the change in the
+                # background flow.
+                if num_spheres > 0:
+                    Ua_out_plus_infinities_k1, _ = add_background_flow_spheres(
+                        Ua_out_plus_infinities_k1, 0, Ea_out_k1, 0, O_infinity_k1,
+                        new_sphere_positions - unwrapped_sphere_positions, 0)
+                if num_dumbbells > 0:
+                    Ub_out_plus_infinities_k1, _ = add_background_flow_dumbbells(
+                        Ub_out_plus_infinities_k1, 0, Ea_out_k1, 0, O_infinity_k1,
+                        new_dumbbell_positions - unwrapped_dumbbell_positions,
+                        dumbbell_deltax, 0)
+
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
             if num_spheres == 0 and num_dumbbells > 0:
-- 
2.43.0


From d378f0e9ac824d8362978aea8b4f12c0ff13fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:01 +0000
Subject: [PATCH 15/55] fix: save correctly whenever saving starts and when
 only positions or forces are saved

---
 stokesian_dynamics/run_simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index d189003..6d11db8 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -74,6 +74,13 @@ error = False
 previous_step_posdata = posdata
 previous_timestamp = time.time()
 saved_element_positions = np.array([])
+saved_sphere_rotations = np.array([])
+saved_deltax = np.array([])
+saved_Fa_out = np.array([])
+saved_Fb_out = np.array([])
+saved_DFb_out = np.array([])
+saved_Sa_out = np.array([])
+saved_force_on_wall_due_to_dumbbells = np.array([])
 times = [0 for _ in range(num_frames)]
 output_folder = "output"
 legion_random_id = ""
@@ -626,7 +633,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_positions_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_element_positions) == 0:  # first saved frame
                 saved_element_positions = np.array([element_positions])
                 saved_sphere_rotations = np.array([sphere_rotations])
                 saved_deltax = np.array([dumbbell_deltax])
@@ -651,7 +658,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_forces_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_Fa_out) == 0:  # first saved frame
                 saved_Fa_out = np.array([Fa_out])
                 saved_Fb_out = np.array([Fb_out])
                 saved_DFb_out = np.array([DFb_out])
-- 
2.43.0


From a84d400561c1bb31d70838250ab75c4cf7893a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:07 +0000
Subject: [PATCH 16/55] fix: continue interrupted runs from the state and frame
 they were backed up in

---
 stokesian_dynamics/run_simulation.py   | 34 ++++++++++++++++++++------
 stokesian_dynamics/setups/positions.py | 18 +++++---------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 6d11db8..9048e49 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -225,13 +225,17 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
         if trace_paths > 0 and frameno % trace_paths == 0:
             previous_step_posdata = posdata
 
-        if frameno == 0 or frameno == checkpoint_start_from_frame:
+        if frameno == 0:
             Ua_blank = np.array([[0, 0, 0] for _ in range(num_spheres)])
             Ub_blank = np.array([[0, 0, 0] for _ in range(num_dumbbells)])
             DUb_blank = np.array([[0, 0, 0] for _ in range(num_dumbbells)])
             last_velocities = [Ua_blank, Ub_blank, DUb_blank, Ua_blank]  # Oa_blank at the end there
+        if frameno == checkpoint_start_from_frame:
             last_velocity_vector = [0 for _ in range(11*num_spheres + 6*num_dumbbells)]
 
+        # Velocities at the start of the frame, for the backup file
+        start_of_frame_velocities = last_velocities
+
         if num_spheres == 0:
             new_sphere_positions = np.copy(sphere_positions)
         if num_dumbbells == 0:
@@ -269,7 +273,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     sphere_positions, centre_of_background_flow)
                 if fully_2d_problem:
                     Ua_out_plus_infinities_k1[:, 1] = 0
-                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
+                if timestepping_scheme == "euler" or frameno == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
                 else:
@@ -280,7 +284,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
                         Ot_infinity_new, Et_infinity_new)
-                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
+                if timestepping_scheme == "euler" or frameno == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
@@ -299,7 +303,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if fully_2d_problem:
                     Ub_out_plus_infinities_k1[:, 1] = 0
                     HalfDUb_out_plus_infinities_k1[:, 1] = 0
-                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
+                if timestepping_scheme == "euler" or frameno == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
@@ -676,8 +680,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 saved_force_on_wall_due_to_dumbbells = np.append(np.copy(saved_force_on_wall_due_to_dumbbells),
                                                                  np.array([force_on_wall_due_to_dumbbells]), 0)
 
-        # Backup file
-        if (save_positions_every_n_timesteps > 0 and
+        # Backup file. As well as what has been saved so far, this stores
+        # everything needed to continue by repeating this frame.
+        # (Not needed for the last frame as the final save comes next.)
+        if (frameno < num_frames - 1 and
+                save_positions_every_n_timesteps > 0 and
                 frameno % save_to_temp_file_every_n_timesteps == 0 and
                 save_forces_every_n_timesteps > 0 and
                 save_forces_and_positions_to_temp_file_as_well and
@@ -686,7 +693,16 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                                 Fa=saved_Fa_out, Fb=saved_Fb_out, DFb=saved_DFb_out, Sa=saved_Sa_out,
                                 centres=saved_element_positions, deltax=saved_deltax,
                                 force_on_wall_due_to_dumbbells=saved_force_on_wall_due_to_dumbbells,
-                                sphere_rotations=saved_sphere_rotations)
+                                sphere_rotations=saved_sphere_rotations,
+                                checkpoint_frameno=frameno,
+                                checkpoint_sphere_positions=sphere_positions,
+                                checkpoint_sphere_rotations=sphere_rotations,
+                                checkpoint_dumbbell_positions=dumbbell_positions,
+                                checkpoint_dumbbell_deltax=dumbbell_deltax,
+                                checkpoint_last_Ua=start_of_frame_velocities[0],
+                                checkpoint_last_Ub=start_of_frame_velocities[1],
+                                checkpoint_last_HalfDUb=start_of_frame_velocities[2],
+                                checkpoint_last_Oa=start_of_frame_velocities[3])
         save_elapsed_time = time.time() - save_time_start
         print("[" + format_elapsed_time(save_elapsed_time) + "]", end=" ")
 
@@ -829,6 +845,10 @@ if error == 0:
             saved_deltax = saved_data['deltax']
             saved_force_on_wall_due_to_dumbbells = saved_data[
                 'force_on_wall_due_to_dumbbells']
+            last_velocities = [saved_data['checkpoint_last_Ua'],
+                               saved_data['checkpoint_last_Ub'],
+                               saved_data['checkpoint_last_HalfDUb'],
+                               saved_data['checkpoint_last_Oa']]
 
     warning_formatting_start = "\033[43m\033[30m"
     warning_formatting_end = "\033[39m\033[49m"
diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..ce2c63e 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -213,24 +213,18 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
         ignored_posdata, setup_description = pos_setup(checkpoint_setup_number)
         try:
             with np.load(filename) as data1:
-                positions_centres = data1['centres']
-                positions_deltax = data1['deltax']
-            num_particles = positions_centres.shape[1]
-            num_dumbbells = positions_deltax.shape[1]
-            num_spheres = num_particles - num_dumbbells
-            sphere_positions = positions_centres[-1, 0:num_spheres, :]
-            dumbbell_positions = positions_centres[
-                -1, num_spheres:num_particles, :]
-            dumbbell_deltax = positions_deltax[-1, :, :]
+                checkpoint_frameno = int(data1['checkpoint_frameno'])
+                sphere_positions = data1['checkpoint_sphere_positions']
+                sphere_rotations = data1['checkpoint_sphere_rotations']
+                dumbbell_positions = data1['checkpoint_dumbbell_positions']
+                dumbbell_deltax = data1['checkpoint_dumbbell_deltax']
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            checkpoint_start_from_frame = checkpoint_frameno
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
-- 
2.43.0


From c984e47a771efa0fde48135b34e147bdf76da0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:11 +0000
Subject: [PATCH 17/55] fix: read run parameters from any backup name and
 ignore files not from a simulation

---
 stokesian_dynamics/setups/positions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index ce2c63e..5b22efa 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,6 +12,7 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
+import re
 from settings import setup_number, input_number, num_frames, timestep
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
@@ -198,14 +199,14 @@ checkpoint_start_from_frame = 0
 # Otherwise read in list of temporary files
 checkpoint_start_from_frame = 0
 for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
-    checkpoint_setup_number = int(filename.split("-")[1][1:])
-    checkpoint_input_number = int(filename.split("-")[2][1:])
-    checkpoint_num_frames = int(filename.split("-")[3][:-2])
-    if filename.split("-")[4][-1] == "e":
-        raw_timestep = filename.split("-")[4][1:] + "-" + filename.split("-")[5]
-    else:
-        raw_timestep = filename.split("-")[4][1:]
-    checkpoint_timestep = float(raw_timestep.replace("p", "."))
+    filename_parameters = re.search(
+        r"-s(-?\d+)-i(-?\d+)-(\d+)fr-t(\d+(?:p\d+)?(?:e[+-]?\d+)?)-", filename)
+    if filename_parameters is None:
+        continue  # not a file saved by a simulation
+    checkpoint_setup_number = int(filename_parameters.group(1))
+    checkpoint_input_number = int(filename_parameters.group(2))
+    checkpoint_num_frames = int(filename_parameters.group(3))
+    checkpoint_timestep = float(filename_parameters.group(4).replace("p", "."))
     if (checkpoint_setup_number == setup_number
         and checkpoint_input_number == input_number
         and checkpoint_num_frames == num_frames
-- 
2.43.0


From 5f1a628c8e614a732aa27488df5927e4728b0025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:35 +0000
Subject: [PATCH 18/55] fix: keep the dumbbell force extraction choice given on
 the command line

---
 stokesian_dynamics/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stokesian_dynamics/settings.py b/stokesian_dynamics/settings.py
index 9f8c847..5afb16b 100755
--- a/stokesian_dynamics/settings.py
+++ b/stokesian_dynamics/settings.py
@@ -124,7 +124,8 @@ if start_saving_after_first_n_timesteps > num_frames:
 # Work out the force on any particles whose velocities are specified in the
 # input file. (Typical use case: these 'fixed' particles are acting as walls.)
 # This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
-extract_force_on_wall_due_to_dumbbells = False
+if number_of_args < 6:  # otherwise it has been set from the command line
+    extract_force_on_wall_due_to_dumbbells = False
 
 # Just use diagonal terms of Minfinity. Good(?) approximation for dense
 # suspensions only.
-- 
2.43.0


From 69d977d861d392526afa99988c87de1b0796f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:39 +0000
Subject: [PATCH 19/55] fix: extract the force on the wall due to dumbbells in
 UFTE form

---
 stokesian_dynamics/functions/timestepping.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..3d884f9 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -380,16 +380,16 @@ def generate_output_FTSUOE(
             else:
                 velocity_vector = np.linalg.solve(grand_resistance_matrix_ufte,
                                                   force_vector)
-                (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
-                    posdata, velocity_vector)
-                Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
-                Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
-                Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
-                Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
-                (Ta_out, Ea_out, Fb_out, DFb_out) = (
-                    Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
+            (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
+                posdata, velocity_vector)
+            Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
+            Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
+            Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
+            Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
+            (Ta_out, Ea_out, Fb_out, DFb_out) = (
+                Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
 
             if extract_force_on_wall_due_to_dumbbells:
                 # For finding effect of the dumbbells on the measured Force on the walls.
@@ -401,7 +401,7 @@ def generate_output_FTSUOE(
                 force_on_wall_due_to_dumbbells_flat = np.dot(
                     force_on_wall_due_to_dumbbells_matrix, dumbbell_forces)
                 force_on_wall_due_to_dumbbells = force_on_wall_due_to_dumbbells_flat.reshape(
-                    len(force_on_wall_due_to_dumbbells_flat)/3, 3)
+                    len(force_on_wall_due_to_dumbbells_flat)//3, 3)
 
         elif input_form == 'ufteu':
             num_fixed_velocity_spheres = (num_spheres
-- 
2.43.0


From 8ca6db59edba93eb94f033a66a418236782e547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:43 +0000
Subject: [PATCH 20/55] fix: refuse input forms which are not recognised

---
 stokesian_dynamics/run_simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 9048e49..551137b 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -787,6 +787,10 @@ error = 0
  element_sizes, element_positions, element_deltax, num_elements,
  num_elements_array, element_type, uv_start, uv_size,
  element_start_count) = posdata_data(posdata)
+if input_form not in ["fts", "fte", "ufte", "ufteu", "duf",
+                      "RPY_dumbbells_only", "stokes_drag_dumbbells_only"]:
+    error = throw_error("The input form you have requested (" + str(input_form)
+                        + ") is not recognised.")
 if num_spheres == 0 and input_form not in ["fts", "duf", "RPY_dumbbells_only",
                                            "stokes_drag_dumbbells_only"]:
     error = throw_error("If you have only dumbbells, you need to use the FTS, "
-- 
2.43.0


From 13201b9fc2f32c36c8898edb740c39c93175818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:47 +0000
Subject: [PATCH 21/55] fix: refuse dumbbells whose size ratios are not in the
 table

---
 stokesian_dynamics/run_simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 551137b..64ad515 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -810,10 +810,10 @@ if num_spheres > 0 and input_form in ["fts"]:
      skip_computation=True, input_form=input_form)
 
 # Are all size ratios in the XYZ table for R2Bexact?
-sphere_sizes_unique = list(set(sphere_sizes))
+element_sizes_unique = list(set(element_sizes))
 size_ratios = list(set([i/j
-                        for i in sphere_sizes_unique
-                        for j in sphere_sizes_unique]))
+                        for i in element_sizes_unique
+                        for j in element_sizes_unique]))
 for size_ratio in size_ratios:
     if not np.any(np.isclose(size_ratio, lam_range_with_reciprocals)):
         throw_error("Particle size ratio " + str(size_ratio) + " not in the "
-- 
2.43.0


From 56bcdfd7c60e21a66cc1f5e8c65e1665677c6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:51 +0000
Subject: [PATCH 22/55] fix: explain which values are missing when inputs do
 not match the input form

---
 stokesian_dynamics/functions/timestepping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 3d884f9..58661f8 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -313,6 +313,7 @@ def generate_output_FTSUOE(
             try:
                 force_vector = construct_force_vector_from_fts(
                     posdata, Fa_in, Ta_in, Sa_in, Fb_in, DFb_in)
+                force_vector = np.array(force_vector, float)
             except:
                 throw_error("FTS mode has been selected but not all values of "
                             + "F, T and S have been provided.")
@@ -344,6 +345,7 @@ def generate_output_FTSUOE(
             try:
                 force_vector = construct_force_vector_from_fts(
                     posdata, Fa_in, Ta_in, Ea_in, Fb_in, DFb_in)
+                force_vector = np.array(force_vector, float)
             except:
                 throw_error("FTE mode has been selected but not all values "
                             + "of F, T and E have been provided.")
@@ -363,12 +365,12 @@ def generate_output_FTSUOE(
                     posdata,
                     Ua_in[0:num_fixed_velocity_spheres] + Fa_in[num_fixed_velocity_spheres:num_spheres],
                     Ta_in, Ea_in, Fb_in, DFb_in)
+                force_vector = np.array(force_vector, float)
             except:
                 throw_error("UFTE mode has been selected but not enough "
                             + "values of U, F, T and E have been provided. At "
                             + "a guess, not all your spheres have either a U "
                             + "or an F.")
-            force_vector = np.array(force_vector, float)
             grand_resistance_matrix_fte = fts_to_fte_matrix(
                 posdata, grand_resistance_matrix)
             grand_resistance_matrix_ufte = fte_to_ufte_matrix(
@@ -418,13 +420,13 @@ def generate_output_FTSUOE(
                         num_fixed_velocity_dumbbells:num_dumbbells],
                     HalfDUb_in[0:num_fixed_velocity_dumbbells] + DFb_in[
                         num_fixed_velocity_dumbbells:num_dumbbells])
+                force_vector = np.array(force_vector, float)
             except:
                 throw_error("UFTEU mode has been selected but not enough "
                             + "values of U, F, T and E and U(dumbbell) have "
                             + "been provided. At a guess, not all your "
                             + "spheres/dumbbells have either a U or an F.")
 
-            force_vector = np.array(force_vector, float)
             grand_resistance_matrix_fte = fts_to_fte_matrix(
                 posdata, grand_resistance_matrix)
             grand_resistance_matrix_ufte = fte_to_ufte_matrix(
@@ -480,12 +482,12 @@ def generate_output_FTSUOE(
                         num_fixed_velocity_dumbbells:num_dumbbells],
                     HalfDUb_in[0:num_fixed_velocity_dumbbells] + DFb_in[
                         num_fixed_velocity_dumbbells:num_dumbbells])
+                force_vector = np.array(force_vector, float)
             except:
                 throw_error("DUF mode has been selected but not enough values "
                             + "of U (dumbbell) and F (dumbbell) have been "
                             + "provided. At a guess, not all your dumbbells "
                             + "have either a U or an F.")
-            force_vector = np.array(force_vector, float)
             grand_resistance_matrix_duf = fts_to_duf_matrix(
                 num_fixed_velocity_dumbbells,
                 posdata, grand_resistance_matrix)
-- 
2.43.0


From 8055fe8f5ea9060b76cfee4188587110ae8d9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:55 +0000
Subject: [PATCH 23/55] fix: let runs of only dumbbells start without a
 background strain

---
 stokesian_dynamics/functions/timestepping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 58661f8..9c18919 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -260,6 +260,8 @@ def generate_output_FTSUOE(
      Et_infinity, box_bottom_left, box_top_right, mu) = input_ftsuoe(
         input_number, posdata, frameno, timestep, last_velocities,
         input_form=input_form, skip_computation=True)
+    if len(Ea_in) == 0:  # only dumbbells, and no background strain given
+        Ea_in = [[[0, 0, 0], [0, 0, 0], [0, 0, 0]]]
 
     force_on_wall_due_to_dumbbells = 0
 
-- 
2.43.0


From 02b8f2537cc2d257147979cfa7578ff6516381b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:17 +0000
Subject: [PATCH 24/55] fix: reverse the side-on oscillatory shear when asked
 to

---
 stokesian_dynamics/setups/functions_inputs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_inputs.py b/stokesian_dynamics/setups/functions_inputs.py
index c93e8d1..f38935e 100644
--- a/stokesian_dynamics/setups/functions_inputs.py
+++ b/stokesian_dynamics/setups/functions_inputs.py
@@ -123,14 +123,14 @@ def oscillatory_shear(amplitude, period, frameno, timestep, phase=0,
     else:
         opposite_minus = 1
     if unused_axis == 1:
-        O_infinity = np.array([0, transpose_minus*0.5*gammadot, 0])
-        Ot_infinity = np.array([0, transpose_minus*0.5*gamma, 0])
-        E_infinity = [[0, 0, 0.5*gammadot],
+        O_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gammadot, 0])
+        Ot_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gamma, 0])
+        E_infinity = [[0, 0, opposite_minus*0.5*gammadot],
                       [0, 0, 0],
-                      [0.5*gammadot, 0, 0]]
-        Et_infinity = [[0, 0, 0.5*gamma],
+                      [opposite_minus*0.5*gammadot, 0, 0]]
+        Et_infinity = [[0, 0, opposite_minus*0.5*gamma],
                        [0, 0, 0],
-                       [0.5*gamma, 0, 0]]
+                       [opposite_minus*0.5*gamma, 0, 0]]
         Ea_in = [E_infinity for _ in range(max(1, num_spheres))]
     elif unused_axis == 2:
         O_infinity = np.array([0, 0, opposite_minus*transpose_minus*-0.5*gammadot])
-- 
2.43.0


From 8ae9c5a675e1e5217d7697262c72afeccfcf862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:17 +0000
Subject: [PATCH 25/55] fix: keep sizes of 999.5 to 999.95 units within their
 column

---
 stokesian_dynamics/functions/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 08749cb..9ff3f8d 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -87,7 +87,7 @@ def sizeof_fmt(num, suffix='B'):
             if num < 999.5:
                 return '{n:.3g} {u}{s}'.format(n=num, u=unit, s=suffix).rjust(7)
             else:
-                return '{n:.4g} {u}{s}'.format(n=num, u=unit, s=suffix).rjust(7)
+                return '{n:.0f} {u}{s}'.format(n=num, u=unit, s=suffix).rjust(7)
         num /= 1024.0
     return '{n:.1f}{y}{s}'.format(n=num, y='Y', s=suffix)
 
-- 
2.43.0


From 7e9c0471c351c704daf5fa21aa93d5a60540f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:52 +0000
Subject: [PATCH 26/55] fix: run dumbbell-only simulations in FTS form with
 compilation on

---
 stokesian_dynamics/functions/simulation_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index 4b6c04c..75f8889 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -111,8 +111,8 @@ def construct_force_vector_from_fts(posdata, f_spheres, t_spheres, s_spheres,
      element_sizes, element_positions, element_deltax, num_elements,
      num_elements_array, element_type, uv_start, uv_size,
      element_start_count) = posdata_data(posdata)
-    s_spheres_condensed_flat = condense_and_flatten(np.array(s_spheres),
-                                                    num_spheres)
+    s_spheres_condensed_flat = condense_and_flatten(
+        np.array(s_spheres).reshape(-1, 3, 3), num_spheres)
     if num_spheres == 0 and num_dumbbells == 0:
         force_vector = np.array([])
     if num_spheres > 0 and num_dumbbells == 0:
-- 
2.43.0


From e312c3aa40256e63eab8441d0db8f03678b49fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:56 +0000
Subject: [PATCH 27/55] fix: accept whole-number sphere positions with
 compilation on

---
 stokesian_dynamics/functions/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 9c18919..d50e7fd 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -112,7 +112,7 @@ def euler_timestep_rotation(sphere_positions, sphere_rotations,
             ''' rb0 is the position ("r") of the endpoint of the pointy
             rotation vector in the external (x,y,z) frame ("b") at the
             beginning of this process ("0") '''
-            rb0 = sphere_rotations[i, j]
+            rb0 = sphere_rotations[i, j].astype(np.float64)
 
             ''' rbdashdash0_xyz is the position of the same endpoint in the
             frame of the rotating sphere ("b''"), which we set to have the
-- 
2.43.0


From d879d36614800683af495f32263d198cbcaaaa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:08 +0000
Subject: [PATCH 28/55] fix: place a single random sphere without failing

---
 stokesian_dynamics/setups/functions_positions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..645840e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -62,12 +62,13 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
 
     random_sphere_positions = sphere_positions_out[
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
-    distance_matrix = np.linalg.norm(
-        random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        distance_matrix = np.linalg.norm(
+            random_sphere_positions-random_sphere_positions[:, None], axis=2)
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From b9aa0c9f223ae3cdc9283577d9a7cfdaf43bd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:12 +0000
Subject: [PATCH 29/55] fix: return the beads that were placed inside the
 quadrilateral

---
 stokesian_dynamics/setups/functions_positions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 645840e..700ee88 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -372,9 +372,9 @@ def randomise_beads_inside_quadrilateral(quadrilateral, dumbbell_sizes,
         sys.stdout.flush()
         bead_positions[i] = proposed_bead1_position
 
-    pos3 = bead_positions.reshape([2, bead_positions.shape[0]/2, 3])
-    pos3_dumbbell = 0.5*(pos3[0] + pos3[1])
-    pos3_deltax = 0.5*(pos3[1] - pos3[0])
+    pos3 = bead_positions.reshape([num_dumbbells, 2, 3])
+    pos3_dumbbell = 0.5*(pos3[:, 0] + pos3[:, 1])
+    pos3_deltax = pos3[:, 1] - pos3[:, 0]
 
     print("... succeeded.")
 
-- 
2.43.0


From ee56c7f2ac1a30f2196a8845205098c99dc0c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:16 +0000
Subject: [PATCH 30/55] fix: place small periodic dumbbells without stopping
 for debugging

---
 stokesian_dynamics/setups/functions_positions.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 700ee88..b49e6ca 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -265,19 +265,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From 2ecfcbc3f2d527911801faedf75ffe4fa58e4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:18 +0000
Subject: [PATCH 31/55] fix: keep periodic dumbbells apart from all their
 images

---
 .../setups/functions_positions.py             | 73 +++++++++++--------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index b49e6ca..fecaced 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -204,6 +204,19 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
     random_phi = phi == 'r'
 
     Dx, Dy, Dz = np.array(random_box_top_right) - np.array(random_box_bottom_left)
+    # Displacements to the neighbouring images. A 2D box has none in y.
+    images = [np.array([l*Dx, m*Dy, n*Dz])
+              for l in [-1, 0, 1]
+              for m in ([-1, 0, 1] if Dy > 0 else [0])
+              for n in [-1, 0, 1]]
+
+    def move_inside_box(position):
+        moved = np.array(position)
+        for k, period in enumerate([Dx, Dy, Dz]):
+            if period > 0:
+                moved[k] = (np.mod(moved[k] - random_box_bottom_left[k], period)
+                            + random_box_bottom_left[k])
+        return moved
 
     print("Randomly distributing " + str(len(dumbbell_sizes))
           + " dumbbells... ", end=" ")
@@ -213,22 +226,20 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
             proposed_bead1_position = random_point_in_box(
                 random_box_bottom_left, random_box_top_right)
             too_close = 0
-            for m in [-1, 0, 1]:
-                for n in [-1, 0, 1]:
-                    dxy = np.array([m*Dx, 0, n*Dz])
-                    for j in range(len(current_sphere_sizes)):
+            for dxy in images:
+                for j in range(len(current_sphere_sizes)):
+                    if overlaps_periodic(proposed_bead1_position,
+                                         current_sphere_positions[j],
+                                         dumbbell_sizes[i],
+                                         current_sphere_sizes[j], dxy):
+                        too_close = too_close + 1
+                if too_close == 0:
+                    for j in range(2*i):
                         if overlaps_periodic(proposed_bead1_position,
-                                             current_sphere_positions[j],
+                                             bead_positions[j],
                                              dumbbell_sizes[i],
-                                             current_sphere_sizes[j], dxy):
+                                             dumbbell_sizes[j//2], dxy):
                             too_close = too_close + 1
-                    if too_close == 0:
-                        for j in range(2*i):
-                            if overlaps_periodic(proposed_bead1_position,
-                                                 bead_positions[j],
-                                                 dumbbell_sizes[i],
-                                                 dumbbell_sizes[j//2], dxy):
-                                too_close = too_close + 1
             if too_close == 0:
                 bingo = 0
                 for _ in range(100):
@@ -241,24 +252,24 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                                                               np.sin(theta)*np.sin(phi),
                                                               np.cos(theta)]))
                     # NOTE: I have turned off checking whether the second bead is in the box.
-                    for m in [-1, 0, 1]:
-                        for n in [-1, 0, 1]:
-                            dxy = np.array([m*Dx, 0, n*Dz])
-                            for j in range(len(current_sphere_sizes)):
-                                if overlaps_periodic(proposed_bead2_position,
-                                                     current_sphere_positions[j],
+                    # It is compared with the others where its image is.
+                    bead2_inside_box = move_inside_box(proposed_bead2_position)
+                    for dxy in images:
+                        for j in range(len(current_sphere_sizes)):
+                            if overlaps_periodic(bead2_inside_box,
+                                                 current_sphere_positions[j],
+                                                 dumbbell_sizes[i],
+                                                 current_sphere_sizes[j],
+                                                 dxy):
+                                too_close = too_close + 1
+                        if too_close == 0:
+                            for j in range(2*i):
+                                if overlaps_periodic(bead2_inside_box,
+                                                     bead_positions[j],
                                                      dumbbell_sizes[i],
-                                                     current_sphere_sizes[j],
+                                                     dumbbell_sizes[j//2],
                                                      dxy):
                                     too_close = too_close + 1
-                            if too_close == 0:
-                                for j in range(2*i):
-                                    if overlaps_periodic(proposed_bead2_position,
-                                                         bead_positions[j],
-                                                         dumbbell_sizes[i],
-                                                         dumbbell_sizes[j//2],
-                                                         dxy):
-                                        too_close = too_close + 1
                     if too_close == 0:
                         bingo = 1
                         break
@@ -268,14 +279,12 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-        bead_positions[2*i+1] = proposed_bead2_position
+        bead_positions[2*i+1] = bead2_inside_box
         dumbbell_positions[i] = 0.5*(proposed_bead1_position+proposed_bead2_position)
         dumbbell_deltax[i] = (proposed_bead2_position-proposed_bead1_position)
 
         # Move the dumbbell_positions (centre) to inside the periodic box
-        dumbbell_positions[i] = (np.mod(
-            dumbbell_positions[i]-random_box_bottom_left, [Dx, 1e6, Dz]
-        ) + random_box_bottom_left)
+        dumbbell_positions[i] = move_inside_box(dumbbell_positions[i])
 
     print(" succeeded.")
 
-- 
2.43.0


From 5229cc8e4bf73bfa3200276979f4de32af5e8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:48 +0000
Subject: [PATCH 32/55] fix: give drag-only particles their own Stokes
 resistance

In drag-only mode each particle's resistance lacked the factor 6*pi that the
rest of the code uses, so an isolated sphere moved about nineteen times too
fast.
---
 .../functions/generate_grand_resistance_matrix.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..84de99a 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -60,7 +60,7 @@ def generate_grand_resistance_matrix(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu*np.diag(
+        Minfinity_inverse = 6*np.pi*mu * np.diag(
             [sphere_sizes[i//3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
@@ -169,7 +169,7 @@ def generate_grand_resistance_matrix_periodic(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu * np.diag(
+        Minfinity_inverse = 6*np.pi*mu * np.diag(
             [sphere_sizes[i/3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-- 
2.43.0


From c1b2c9d0b362daff75f3a6cd12e382f074e3abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:06 +0000
Subject: [PATCH 33/55] fix: let drag-only mode run in a periodic box

The particle sizes were looked up with a fractional index, which stopped
every periodic run in drag-only mode.
---
 .../functions/generate_grand_resistance_matrix.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index 84de99a..1181ec5 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -170,11 +170,11 @@ def generate_grand_resistance_matrix_periodic(
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
         Minfinity_inverse = 6*np.pi*mu * np.diag(
-            [sphere_sizes[i/3] for i in range(3*num_spheres)]
-            + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
-            + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)])
+            [sphere_sizes[i//3] for i in range(3*num_spheres)]
+            + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
+            + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)])
         Minfinity_elapsed_time = 0
         Minfinity_inverse_elapsed_time = 0
 
-- 
2.43.0


From 3440a27fbaa8c7f8413d906ab14ceaed1a63f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:09 +0000
Subject: [PATCH 34/55] fix: choose the resistance scalars the settings ask for
 in drag-only mode

The choice was the wrong way round: asking for scalars with the full
far-field part subtracted loaded those with only the drag subtracted, and
the other way about.
---
 stokesian_dynamics/resistance_scalars/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index 74fada9..c65a037 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -23,7 +23,7 @@ lam_range_with_reciprocals.sort()
 
 # The resistance scalars already have R2Binfinity subtracted off. Decide here
 # whether this is with the full R2Binfinity or the drag-only R2Binfinity.
-if not use_drag_Minfinity or (use_drag_Minfinity and use_drag_R2Binfinity):
+if not (use_drag_Minfinity and use_drag_R2Binfinity):
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d.npy'
 else:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d_drag.npy'
-- 
2.43.0


From e4f55c06b46051f70cc590431f43c2d6113f8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:28 +0000
Subject: [PATCH 35/55] fix: supply the drag-only resistance scalars

The table that the setting use_drag_R2Binfinity selects was never included,
so runs in that mode stopped at the first pair of nearby particles. Generated
with subtract_R2Binfinitydrag_from_scalars.py from the existing scalars.
---
 .../scalars_general_resistance_d_drag.npy       | Bin 0 -> 33568 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)
 create mode 100644 stokesian_dynamics/resistance_scalars/scalars_general_resistance_d_drag.npy

diff --git a/stokesian_dynamics/resistance_scalars/scalars_general_resistance_d_drag.npy b/stokesian_dynamics/resistance_scalars/scalars_general_resistance_d_drag.npy
new file mode 100644
index 0000000000000000000000000000000000000000..c2162c7d63e0e1dea14cdc7c9c6612386565fbaa
GIT binary patch
literal 33568
zcmb4K`9D?P_r8jfRK`R^X&_26OLv`+l$4CsyD}v6OvreVF;k{wo@beoA>Dn=70NtB
z<}ouxA-<>2fAICodY!W$d#}Cs+V`wyo#%w#(oj~pM@6tFIG@pfV*A+Uj5N;~83V~P
zf;?voEN$#;bS<<kZS<e~yRV>YX8Q!cZ)>D$^#s4>6BZWaxhTjZA}Pot#xKa@%JcvJ
zqsys(`D@Wq1iPEGq%q+93QMyjx}}@+Vvp1>Mm)IRg1Ka0n4P+xfH`rBr<OhC#bV?I
z-440>VytZ^_ehw2#FETq3!eP<0jts2o><Zj#tO5usdQuxVLS>ccez_^Fz(MjSET|<
zFvGngZ7<w1F?Mcj@w}EJHoBUp-0^q^_)=IKW!v;HQe#W;iNI7$$Yd`X@OXuV%SA0w
z8yI19Z?>a<<}Je81JiuJdsQ)qM+s%=A>kNXs}uU@>x(hTYJ5HKeixH`E`LCKtq)oi
zb_VjV6R~Tz<<oEc=Z*={wbcj@*<kKRH;P_=l*1UJPJMNp`V76h6ZZDGoX4na#U4gm
zTVh1=sqQ;VdRU_O!7HpZq8K4Mu|G7q3c5ptf5Eq7m}$-51&P<%SokvagDrYB%w=cK
zk9UtwVw5Sv+?t#mpzmL@H-EYh>n0CJ9ErY;c`Vgwb4(Di@GmW4kGmPLBnd7)OSvRa
zHzvQTj@f`mX~Rhdw9*(u^>=1g10if>#y(5klnNuX)18Xn6$PA5iJ`S=a}e|EfscOm
zS*+AJTqS-#52k5h>$=-$1u(yd=VENbAcgzbgQVOk@Tw@hV3d6dYg7?DD>%)LabV<t
zo)0rXxZ83lhB^rBW@i{j&h&%2#94#2vcnj)`tuIi3_7ei>vGWe-)}&QogNKI@dMH0
zjC-{+T7hFr$e`*9E#}8^l(FpgCLGb&`?Suk2}lAXd*lClgVEuPr@1@zuw+OlP<3Sk
zmM&?38}pe3Lh{67`kwbd(!V$DSo9n)LHYFN#%hQ@SaB)%?h0Jkn7-jAFbaitIpQ{=
zi-6P+WxihM1s76NXiJ*OpntF;vhw~MnAOBlb+qArU8~nP)Q}A%Mnc<#CQl#~<pp~M
zzXyiFljVnbrhxi}Y1g$wT|g<V)(Jh81|%-gZn{+u7+#KCP~oTmLEdMd<UPi~N@CuF
zRjdtkvcrV0nj`^f;nVB9lODj(f6d&Ay9{`k?g<)q4FiMD?bkPEngPpNzmx16i;riS
zORr4=t6U0~{L@l!ytVn__lxiFQRh(cz~_%Z;iOHIj(7zGd9wM2oI4bL(FyxY{T4z6
zo(KlZeFL5}!e-&?dZ6UaHD>rk0O6C;L%M!fz?5^}zo8U^j*5%DKx7X{o*!Z$9I6FM
znW{%Ddl(S>@)wo8T)>K=-G3>u2qb$f4Ser)0d{fzvCm%$VBvZRbjL%1pzx(TQN|gT
zwx5b=#S}v4*%P8;Pdi}PrkC?q5E%%{yPiq!1OmY*(=mUK6Oi`IGxXmtfHeQ+o_jrQ
zKziD8B0mq`FNU=aCfNWWv?lKS9d-mB`T=E@oP021QaR6O)e1Vydp5bGDu8hE%7MIj
zUm&bDO>Ta60D=|MtDl^CU^Qc^vfu0r?)M#v5LX$H`iwJM=e&Vn?;*ThYY*7-8ig|j
zIUuQo#)V{?f#>f;rLtlvkS0D{O%i$zgg8NVm8Pda81uC`_Anc;su&I*&CkFfK(+BP
zzXS;8*&Tnf@%^{g6_XgYgQUP;_9MJm5dBN6KtJ&#T=?&-VVztt5YFtoW~1r>gx$MO
z{-&}6o@S?kAB0S3UGu$3&)Nt}RJWcu?84)2Q2$Z<aS{+3|NiU~vIT;><#C3UboeN#
z5OuMr9(eq3&EIJ(0D_FuSq@$|AgCL}@)_FzWh8*b>Q@>Z;V!h#x2S`pko3glx_lrA
zj_+QOcEQIz5h<Q;4a2O{Nl*5r0c|evi|F-Q;MuSdOZ%CNpN|{wM?IZ@U?%qW;ieVn
zoUSZ$6-))}Lo*V&Tmz(>!qiZe9DF_cVxIqW1cJ``St>Ov7&dunW%)1#toC<FreCWD
zELt(Gx;+aBuLl1<4Z!yyFm8j@&=Q8vnSW%BO$Mv3!GhmUC_o_GRCcz{1j6T$XbH?7
z2I3DMUbYmWgeJhxA?H^VntkFIt4w++;y$;Rd+xVTvb*hzrynIyhMR@PE1vRF_Fws2
zdDzvL(z~0*Lf`Zw<#wBk@q-5+C|rdBb}NR#6a~{z8e^G5lwB~`cCN*Sk|y+oH6oyd
zQujqe;Tb8D^0nhG{Y67Z%034tjfuxQXf8acLc2|m;vW{E+8dZknfbkxS?2wUvXj?%
zcE67i<-yz6Sx530(dFfy0~h;LDFHv())`)gQ-bD|U%G|(Ql?qT<u0MSlz~tu!OXQj
zw9-koio8LjglC>jUDt7^uwQjBh+nXw2v(z*Vnun1YQf6``=&o54jwL{EVuKN7~Wm?
zR$MG8Orkbi{D&S>{<OYkx<(^LdG^`iZc$1V`tPHV{NVRvlz84(ld}cd6q)bwKXPuU
zQG}wnf;hBKQ>t$sN#C8HgAU)EXUTEdN0IVieom^tPT@`Di|OnK%Ad`R-m^U{l%%+p
z<Aqm~keO0hhjjJ^I?1o#F8)}WayCS@t}gomg)HADI%c+y!X9UOgnMrkQY5~leOEn)
zPVJnLqjnIWY&6`jXZ&-Vvd+k&6e>nVdDA$&G;SY;6gpb$^O~km!Nn6|_aB|6gwGpu
zz94f^OrqZ2sPEfC?yQ^aw;6*_*)gqIAB%oeSga(V!*hh<7CZ2i@f0J)RC%V}yL1hm
z2>;=;MDarbZfg1=8?8u|zhAD1em}*mb1dYd6b(gd^y18W%~kYZmg?pM6(2PA*Jq|>
zr~!3b%x<|*c92uxjWgA+w$Nme&e4w+%Sh*Sp1!c6H>&$Jc#>|o27UNLS_q}Aqj#;s
z@$}K_sG}z%${=Y8t=$&OE{u4N98G_Ac$HGn{UWMUbndH2r(Z8?eDo)JmLW`imSqX8
zaQv<pAv{Nn-TpMfQDh{)ZKM3LX$i$shb9bits;&bwFwn$5zRZ#iYhvJA@hblb}R2H
z^z1LynT(csw820;WYDpUQkDza87vo&x0li0Pg|bIusXu&+EgV<)%2dVTmON=<&E+J
zTbB??IsE8G&OGvyGKf0m?TMQIp4Bf6t3b@M>fzSpX=FZWlcTr3h{h{+D(RNyPyojd
zV+kftR8D#SwA-p2o#4F^skc0d`ghgrrw>{{&YxT(?PccB5%T&8+f)zq(Ru0Mpluo2
zwvd@;vY9|jjs78BD)VR$d+OxlkXa-et)c!>(gUqZYKr{|dxv!Ha>xt{j-zI=s~*J?
zbExe@J@ez~AE>X8R>Y`{ggnpPujKn!iteYH2^z4Bp_P5tr!Pv+BDIJQUoT$!fl9D2
zwr}PnH2IM7Tj@|KYFnpilHwjki+u@e$JBnHqu!l$X}L3Ki@wF9<p2rY|CoAG^T}H@
zcJj=nX9^?eM|5g_uG<V!(r@K>$vT6QWbPeT({o2zliPm@A4`z6<SLoUdl+3L8egWW
zoJJ4J4y?33pGMZ#W*=r3xFI&t12+T3O3;eOR_2%dA#{qFMtgDBH2V5g`;N??DP$}W
zs$;a<4LLR$bwuSAqex+WDJh#lq_HjQSEV(DZsc0M$hMh6FKRr7?>=-zAG0ECs0E9W
z{lcYO3)Syvqg^V5rfd>zX+N=?Uz$WTN>yUAA6(FXMjrNa#YKp<;DLDXjR9m+b37uG
zdlJQPY*zH!PNI(er>JI6xS;BW=_^545&GCgFtF0<M^?Y}!U{ttkks;c^tH_iME~n%
z8+))bs`WH+lj|%*gu&)7F81G$9WTuz^?eh_n)|r`weJK{aX*qDx$T4w@f|PpGA~3Q
z_lVNGNbf@|HvDnpe&fiV_tN6{;R$5vdCKp!of8tI6SnQzUx-dD+v_%s_M-Bef4_b{
zIF2TjA99d$#*v72dR*kfGjvZcxH0iz0a|~z@VHd47mw@m0k4=b^ys4QsJ<+Y6LcuZ
zH-Cn5vZ^Z2<-I{0lycz>j~-+?QyLK`Foyg&Sc?k2k0Bl34<p5kS#Uu!YxvL8K{(Hq
zHXEI{4dY(FY-s%%ut2lG<469(^L0)F1M`tg$Z~!~T^v3Dh4U4;Mjcy_wARHWQFahJ
z`Lxscyc0b(oYv}hIwuVT1%GYHAN~f^zwXG6>282Lv(hJvnEhDrjhJq;H?$a!_Gz@*
zl>+iw=rd8Y7f9uXyGs0i!^uy+bW^Yo%ehQ){@zZ5C0%)_`kW>idi_}|NUGi76XIIq
zS+E8V{cP<jCiY-<JKnlNe|KR7-qRc}HR3@=?WmVmcLzLoX1(|K@=su^+gPglyc>JR
z_k5!xVH-$KSS#x%UPE-)?wZ)OHc(X-U~kc10Y&C`=(nN5><K2Kr?Edkl8@tG%8G(c
zw<+zoBdyTMb)_%v#S)1ATHRMJy$!upd7ejve*&hxy|#ZT3?vH#^v>LDf^yd4q4T11
zz}YdSuE+Ts$`1%m8B*o|^G=Hl>JNn@uM<7)W;8<8yYJdxJf^{}OtOkQXcgAvR@WY2
zlR(OgEWer>0>7;o_PevxL7djUVe_x!5Ern&HSyd6$nSb@t4%eA=U3NF^nUt*%KYs-
zf0|k#<aB?qD;<LyX3`R$_~$@$Z3C@KcL2#Ud;f5OH(1H(nVD-KD5U<O@5eq2E>4<u
zl{(|#7hFdhbD{wVrOXD`zu@^(l81dCp#tvy?f<g-OdmY|PUcJ&!XI2G;-hN<%Ya}S
z|N6TVp2w<f2b^RofwcNACo#)*2#qv58mra{*v`m$q!6A@SjqhTtnLg1q4QrY0}4R#
z^eivGPYXEywV1y1y#X+dpqrt-@j#F*<&0%_1Pa$nQv2>)XyxVm9hd$Q7>v#`<zJ}=
zO7F7I;X{!?;L*wSa(D_P&0@c@_)Oq=;zGR6f%A({K5>HLd)zPU$8Y!G`L3^LgTYl>
zAQ2m$B`%~vsBtM1)#DmadCj$pLH-?(`lrNQZT*2D{`qNyu{9)3MMedYQ-G9MTzu#f
z1zO*PcA?l}JU>mQyV{B8oszQDj%j$_wExoPz-$uEt7fRN)hZxhPu%3+6ac9h`%ARK
z^T{Pf|EO^@z^p5SPgf^^&aE}Gz56PGz#{Ks_XyAHrasybD_ns<e)l2Q-2_Oidz0rl
z;vh6#X4hsoo)5QO4{Kb&*X`A@!<6D@KsY}jp=4kLnCqJq>aVY1i8hLPpK~c-0YOuG
zC)0uOxcMg8*&YbRjPtUA20#%L>RNBcd4{IC<ydYB3{QG2Zg!^tAr>r^2J!s0VUDeN
zN*_qw^9*Nbqu@ehx=ZVkVxSCi-#_*v3E%&4r<<kLKrqoz`(yPOU!MTJVtbsAboh-a
zl@$VIK9yQMECJ8&CC4Y4E%Es#x7<9g2bAv5fgc#cfoIlQ|H}3oAS?!S=6u3=(VkQ#
z$q#0DUa2=~ys87F6Zu>#Uta=+?MYc|M;>7GVN86FU*o*UCjSJt2@pgxMoQ|n0o%H*
zeWD-~C~g}EM8|W0BHlktuZ+*D^XCfZcS9gh9~33`JOsivlLVuB2=ENNn+ZIV4Frn$
zeXnPDoR}DMMovBf!j_kI%Haoi{Hq8FIt2mYTYhtXR3@HBPlm>S569<G(;ahOAOF8|
zZq%;#futH66ZiQA&T~i{tpXW<>Be&>TH!oPQY&~lM-K?)Oci(b+yer?On?T4^B`k>
zKc3Mvpj18fdnWJ__b)oxNKF?Ap+mXxZ?u4PHNuOo#}7!D_Wh7jJb#}78&g_5K2rqU
zbdKu)q4!;skBufCXP;yayzm9gs?9k!1&_mX^On{$!FWHzHlxQL;p_A8`?1>^KvMRw
zx_HkAFioWt?~G(1__GL13*x+OtG?yd#RoueaVY+FMIGnqkGQIc-oW!m&HFVO-&c7-
zvs@DHucI$V>eKtM@o>hc@lZC3(Y?Pl5jceSyIqMw0aTRTuH_#Nl`~V!?--1zMKDu(
zRs>4VNM<5t-|IXHIp2{9+3(n^cml=p=ef?5047R>MgYwaFB8SwdF$Mz&uJ)9BJ+sw
zxqig=Ji8<7(>AL1G%6r&F;Fb9`AgfE87Ng^s`|8RDX37-dh)DNA4<E1!X1~kknZ~f
zNx$L`QGVM}IL(s|Q23AduScIsMsksjoo2>8DCbz0nj+gKigEh0@1xuSN{v{<F7%m>
za<SD_zcMl&Wjtz0u$=EiS#;(<YSMor^>-wnCO$e!_6^U3Kb(6hF-+#vi>G4HPJHQi
z-vb@Ue!w#)ta%N2)9`l9wC<(&i$8szVops7U0$_ipNT@U0k56?gxb*Wyl4}>)t{(m
z&OOG&nTAps5jA>rl8W+_Uh|6Bg>baLA>{SWvlc{%xj^;ZV+A$!|3P53i{fZ|SX^!M
zFH*X=HT3T2OZ1~)cg2OyPsr0mp*k;X39T!q*e0ALP+lF}_@MlL1Lb<9oNi_eMJ>K|
zvRbkYXyR%4u0IL$=u<W$^L+azBF{hE`f~ISo=<-}q~7R{UI)d6NZzbRE;Ac%Y;EVz
zcA-~^LgEHOAN2Ancz+_7ANs?I?LMeYRx8Dnwgx3A49RgcOd}uW`2e4QH6+|~YbvmF
z8Fg3hx|rzk91;6=y!Ra<qjN59<;7eRsBsFdKKZnQEY2`#%hN2Oicou_vHPBAPp7@R
zOnNyo(IEG4x{V-OfAz!{Ul!1DSt+&MZ{|>Ni}&yPbrPaI{9~@Nq7>~&`t1#D8$<!I
zC$sqZW|0u%9raUQKafddne@RA?&$S@XP6ADO3<CX?FmmN`w{74Q8y`f8a0Ivag{Vp
zqtgfJ;-*Gi(VWAFo5Iq?h+FpOm_lwJn(UfO{P1xS9q6B0cDXx+5*-!uQ{`QdVcjB!
z*zO`UT|)ZgJJf?nrMbGh<R=g@L1!qDbrMlO`{{VL#|a%B(HObEU4V2?h79HDbfdz&
zuIAs{V<>3b?L7PMag@5M9&k7G8QQdP`+gOBgHkGzz8~Z0LJw&ya|EVGk=7$7!TR50
zNQ&m7Z?3T;I%wE<EV42WeUX1O_j0=f87Ikz#Qz*YtSpIC!AxTa`HitjKXO1uYf5D{
zy16K7b8>8+x&u);g%nS5j-bw(Y`yp^qo^(-;rm$=d&F`$Jk&)n2U&G22Na)fN6qv9
zeQWt|7)g%vx-NT;Ag28s*PaACMZIN*UO#8eMq;uHhZ(fn(ARV|G;x0jrQZ$Y=I$Iu
zWtWq4w5#k;Ug@o-Zni8G(=<^3Ag2|vJwD;q%r%H4ek*@CD>958)2G+`{cDSkD$UO~
z2xX$t#r(w&G_7bf-YC0#a{%2NJ5Cyq8A6eQCG^jfZPA0hGKUTCXP~nFiwc9^zaWu)
zP5p%Bew6*IhxY*gAWDzF6>vM-2D!fw3eb#9M-FVer6oSLARUYMf_WR?kXko~Vj$ml
z)J=b)R-C~GdH<1VN*qi>OYaj~eHxq5qy#<r+Tm}AL3AQiLuvq>jdpHf^sq)%s(Me8
zMAJ~-V9Irsz9wWcRT=j2N*}7>Vr<L3*N@IKdXQ!|tdMJJWA=JvDzY=KSaIF_jI;x#
zBAz<;qQ0C@z4U(H5V|NLJLzJDb_v}2?MRi1vRWC%ZVG-zHKn@ZJ=Hzv`i^Denc6;d
z^!fM!r9D;%^`zLIuunl*B|~qeOg^E!pcf3e%st5DVCmJaeSIi!tG|6z&=M^X^XOPt
zlhIy%W{%C0k0|$+mhv~tZgl(mdr`*!dQt4#ae=^l7Kq2>Qc$o%GV+$G@wcY^h%)5^
zF4%N+A@=+mp1(?a&_1iN%)poC=%+%`!uYOaH0a}bJk_8P72j1nn;_SPd<*!;O4)l5
zjas1eW``L%lBW91Ga?C%*)^@dZD~MU%9(7b6`kl?(ub>Y-rdN+IiQHKp%^_EIQcR+
zdkP&D{jgt)i-uxbD3;|Nu#GZv%IugDmeHBk2+?ZYBJ`(;%6FM>5^Wr;cY9X3o02`0
z=XGgg6Fq7QVT-O?KsSdKk9V*Ypcs~77bl#5HvZ~;YdAqgIlp&HC+F2~w4~(Nr@TCk
z@*6@KoYnJCY4e_)U3sHu{8ff|q9=hubKoFb!oD>mefqPpZRR*SG}g?z9F>i7546X0
z3XGupN@29$VH+Lhh(1Z{wu<<>{+s+9GK_8#@5l_$W}uJhOa*DWgGlt8Z$oC(29nzn
zbfe*0LiL}r_WyM3K^Jr4oCK{?(ZtZE7}b-0bkWA?jeYw%x^(nh;O5;~6e(k+LF{cq
z0xdPaKNFHsSz2!TC9_`iQ<;t0^UyEE)hT#Z-fI$FwN{aTL2f}4x@D95P2-T5u$+~y
ze<z~Fi#O(G%cxQHl(whKFyb40^)X$y9eH@E#+$0WMwb+{G>&ApA$R_Ln<~2Vh)<X!
zL$9qDZQOpEYtuJ~WKS5Lq3(Hw_}?Hp=HeD4;&nsy-P#mVPb9I&>}f}TEQ?}2V&)Lv
zk>C0e&%+R3J%2#aToZchU0=CrKZ%O3Jh|th-HaNfAJ2WL2tib{hD46vA!w;W*lZ!G
z0cn~Jv3=DYLA-i;XDa3>Xj<U-*BCV$RDZ?5rR2d2RQ6OQT|TWE-Eh=cdIf!mjp=^W
zT5k~&Fqd(;wyBP?=hMD?z3qc$1DQ6=S1XX-procpO)EO=sJX7%mV~Z6rp*7A1(fs4
z#JgnB6NM<}zWCkv78Sp7x+XmT5ozjjs??1~Ak8mbl%3xfk+sNuT3#^{(kOO%JuO#+
zc$$0JoWg36Hal%tx@8cOqb>OMJn1Y_R}Rv-#^Zt>8rjg$-Ofi0d;$8GKH`tHj=xN@
zmwk{v$9bjkJtxt`jaRHHuN{%CPhv&r<!p48C62AcxDs)GdQvzV?12)tXH6>YxX~@4
zeJ5SAo}#dQ`$o0?q@(A;8FNI<cW7lK$8avp1-S=X_*>esBcb$X!<Wz7qW4Fc7iyGJ
zQGE2)EsxVB$Y)U}ud2=gwQCZ$iHBH`<MVv7BC|DO?cw`2!jOyty?ovHV+v7URNt+v
zqjqQxo4+?&!HD`cO3fQySfI`5lXefZ6A)G44~F3b`6%wa#A4%RYm{rEGLU}dAZnGF
znGLrxMSmIG)piNSBE!eZN`;BpD1fDtw_@BJIg76yQ9VY7=pHeSUqwb}SR+C@#4H-|
zhg0IRDH$kkR%|Hhj0uuckbM$by9Y^L4l(jKFhG~g4kt*_N1<PD<hA=$)6lA6)`}*B
zAzCal;M`3`jqZC~seN)+A64+Q_<Y(3NB6&<7ny?;v`Kb3z~!WmG7}7QRNhh{mwZzz
z7k@qU%^$;_2!tVS#)Fg@`y_OfPLyr?x*q!P)H9}aza275R{R;KB^~r4HN&ndJQV#r
zV6kG@6_4yZ%O4M!>Y({spS$ZXZ;@MP7WFmuYoq@2QhP=;gVBf9{AsEau}JRdk*m{5
z57AjuIp1!RKV(0a=o2@+AE2tVlM6~cFVODbqkpc|MkAl3N{gnR`-tIg;=JL;8u`Ud
zyAU4v`zX;i{iA-oKbkoeN;;eug}6*TtJ{t5qPfUl+7A6c$;F3juYMukMRi`UORExn
zkq9}NRMQrL61iS}mQ>V4DX)I9gb-HAjD()^rRJK*+f(|zX}34B3(!3mED(<VvLDLf
zGE_&_f%p9;A1#xc!*1K(|E!J%41M=DN<T+(#%Fx7;+IHt!&mZql`0Z+ElzmRzer|s
z)uI)@t%j7AySUCYdZL{xYhvBnp@=#!_SDNOcTmmh(JjuK^W>G3UETicchK9R$b*&k
z9w>W&{+0iuVD!r^xai6E+sNu|<?P4Zv*eh$^+pV-pv<K&laH>FkhS0H)mM^%2-t5l
zXSyn*fZQCt?%&ho)zueDf!~Xvsy)5yviUUB7x@2D-MtrErmE~@I8DG7+ZZgFhnC^3
zV$_#Q&x%0A)~m^DZW7W0UK%}3qQMS}%s%gV{}&e6W$9xS7QvuRN#mnJ0d&3>sit2V
z2W#u}gvU+0vDo|4dJ6Y8fE07~%Wc~kXe<ktxAMw^MO#0)NXsz@X13LeHQI&Q=-fOa
z-Lwv$?OYx`<(~ll&ac-e>$73(t=f>m;s|IZvs(P1p~Ae(yYaVkzo3HmV1F~?2p9;d
zTeV4Kfb>sR$xqWm;CGTICQ)x23U8abC(kUygu#Jd>n^=;GdA(f@uXDHI=@3cH8%i0
z#>}1;37f!LlN~HFumGifokZDzc2FSK3sQuVfq(VQd7afhP`p~$^Q`|jtUF~3y6pJ@
z-nr~-;SFDbL;l09wU2R->8|j{o1q&X9JiX*m;43Ef0A`8cg8@`d8;V<Ne8@pa+gN4
z=r!a=+#i%V-vKOvTz8UOR$#!5Ik&xM2sq~ZBJ95pfg`nf$bx7z_?~)v@Vrhd3|PDT
zNe^BG+WBY4=nnLOKlyQ}7w0@^J&wpC^MpgUoY;%;BVS>}K(JhPX&!!3##J4UcR~6a
z3D2f;3GhzL>+7!eP&oeI>jP6$pMZaHc%;2*8l03Ly5}W)fgF(=o#)<#fk`n(tVdT6
zh_G-5pJ%TJ8i$O$G&BbO2Gt6kf(_9Aj`;FuWe~K5lx-+e2LPkep%v>w3dpCO+V90P
z2%Hy9n?hVDAhAcSfw9sbE;q@Hrknf1RW7x==RB)mvRBM4ld2CQTB?2&OuPrq;3S4p
z@P!bID{m&XyrJxf)u-DhDqyv$re`6f3$AL>gt*0*!vnF|_7rJvun;+0gN1tm&wcMF
zQGxH^%bX2U(5?<R`qd`k!KrtUe#P`+h`Sdoag(zh=saO4N}FBj>03CY6Z1u8R~zu=
z9LzO8{T77$jl?pyJYc9dc8Ir#1i9-^Jz`3Wfrakb!*4ZTK-enam(;UjST|%n$eT$5
z^{9O(Oa8jSse3y9U&V`HN~NczjjkCOVM<Gkwg_Gw4q5A7aD(YHI=d*}T%gb=+@i3v
z0BFC)tXWik0$P^Q6MF*-;I-_P0q3tSz*&B7fBm8pT+gcc^dvAJ=rKvF=E_D;yW|}r
zpq3B*@-7K1Q%-Q?3eR(Dv1ia*AaGjICl_cX+_tMW>%pb?U}){#TzIWySs-!#8APr7
zRq>@cz@zKWoE*!tp{<<7`iXTNc!&O-nGef`i-(ix>JuDbVV2KwLBbwx49C6=V9SCx
zb)9Q%Otm1bFE_XPCll^OKdg-tu?KW($zo>K4v6`jyIK=7z@MJH!_rp`0$BmP*}fSt
zapHKS$+R6jBA<%AS7i%QV}F8&Z=^%@Pvgo`G6l}(``@CLNC)Z|vvs!$TcG!>c}<sL
z1LFawjFni@pnJAsDb5YS2?<(q-)_7fk{fZQDAfjR2jVuQGps>z@3&izey4y$#XKqO
z%?FrQ3v$T$kpiqX)z*q>)*wy%RpD1@1$qfrdH${@!}EcIYubCOU|rO^h%}uHv+yW)
zy4(u75_m0Yt1V$8ZNAToIvHB%GOd}PSAwlm%e}6RB<QEDFQY}4FfY`kxp3YB?$Nv$
zDL9h^1AVuaJ$Ndh-lA*VnL7!-awn-I30lCYa?_MSg&AB4zsbf`mH-_(=iPYv${>D*
zUi?&c0)&*8?6WB|gOlQ`>W?3pLS~@Cz@SV#SZ&joPUgIW9yyZP+=X~JqkWE{{DCQm
z(s$~bA2or=X!(OB-(x|K#`uDGcqx=cqD9M&STMKQk=kK5frOIc2F(Q{xT8sbkmgkk
zq{u~HYzlb`(<bo>0>LpbOqoeLI&TE{gWFE1%Me`h_PK=^yoQDv-AlO%B`|s7!r;WC
z*Wk&s#LL}@*TV>u4AI>sL_!va;Q`ZYki^ZG8Sj+?d|u)Lyr>?s4ovKRxc?K58&0(P
zT}&iMn(%QOUjrSI;>=Hv9O%8H;S*g}4<8K%FG^Q@#Bo;6E#Gh)ZM^@N$Jc;xt~Keg
zYYt#NyJNai>OoQH!vtqfBaS0j`{v`gEFH$e|E|ICO&4op`y61{e>dWoS3TUltu<BR
zir1A1tu6QN|Ld>Yy#D4jpa?8CzcS8&r5Bzw-xTZdI+l+X$L=~DSEyj(Ttp=33}t>k
ziI01s?S{-X9JeWM^(L<l3dgvvIaT5HRD#tWX5m62K~a8J(2N3JS9MoWW66QLC+{R*
zt*-@4)`09G6o=zT^Zd=ZL;}x$<%%R6=ewCSP>~HE@5T%>ovi`M;;#2Umfj<L{V?HU
zNkl@@rRzd=SAoagrQW_H3zAX~9!NY@1xX)HWSo-wj^hZ!w;x;}6KIQ7uI|VINn*0(
zZ&)TU6#aMRQe7cLX#a?8=U%{ZtzoqTIb;G)ve~QGR{$%Tl8f_72hvOLNiqEW*x1$J
z_l93L|MmA|Dk&e|k8eA#+~r_6RzN<OlnyGpg0mf~aoxi>e};*+7vRGVx@q9^@Y80}
zw7LQ$Ie{0xfhmCfdNJ}*AP=u6-VJEV!|RxY;pL;TnfN?RRqOaK1F3o8amrR4P@?&>
z)noAWxck7%$qK`9Nspl~nMf$KJslD(29y@gtJ~t?K&q`6wIt*9ZtQ@$=oJ<mhdqeV
zj3pAVi<cR6FW~j`6XzsH@j9Ysr^5gpUQZ_EODM+wCgSV&K=NE9kw7^w{9J(_NHQJs
zVP?4B?Y_f@nE&}D`R;_;IF2Lq8Hb1B`{C@UR>cd1^euvUl?xE2ZyY-*t%c)$d-_s$
z;y9AP8Ib_o+IMI0as%PC`ixx`uKS=(FX}=!|M|6Nk)z=su4iNHIqqMMrhU^9yv}?^
zdLzOL2z-IZo>$7^ID$@rUFAPqif0oE$2}UnG{cPRT%=NHJ{SW*C5Yykkra+=4J-J9
z#}mGQn&Qs*JbWe1xEOG~MDAV{3EY34dv}g}6~=MH{9_L@{^8`=MD20AD(<8}2ZSuS
zxiosbo;z&YJDS1&&%bW_(S(1vmPr{K+%o+B8%l%UZ*f_w#OuctQK6B^6ZkbDo?!!D
zHv++v`?Lja-St#jsqk^>r;@&?1A!Fxp52HO$B`DF?ZelNKwz0*Fve}am0`?Z{M<3t
zim$2Q?O7{>rL6z@qoJAc{fB$!|5G2gn!k9e@clWG*tylOg!jj}N4^K27lEK2aK`f=
zE{Q8n7q=Sp@eM!mb2nuywhupd1Z|BWM|@rcg6iJgF8^>m2gwg{t8M$#e;Gf=52!>1
z<nZ>q!YTTH^CH~0`tkH1Zv6A5d${GaizUzFad`Pq;C?*bNZhH9e-QrR*wr3b|HJ7-
zlQeMa$StfnLnK(84gPP}CA_`g<E!=NzjnI9ucrSj-+2R7+%_wm%bOq)80-d8`^0ga
zuSS{O+Q0T2v+f4}?8lP0+qe~HD2*E>5-!a7eK!-qaoSkN^Ob+?EDVqI{#nQCvP%DO
z`S<n@<MH75x-sekj{Ci*x_04Td$g#`qyO3dsB5@o5cyWqkK=yEM%oGDIMpt-3fy1Z
zp#-LX^Ca+<I?LmBz}|(u7mphz<^3LfI4;ThR2uFtelRQ+)&JS7L%mmUYo{&u7mshs
zv{T9XQ#fv^PWLwMFTTNUukQS_R+&P8TT+#wW;=dP8u;^d{>6#kA<C(t|F!S^piIni
zs9i4eDItSMg90T|8S#(t-#l}v7SRWD)n6W;L;lJ)<xeNBpz*EYAFIwKWYs!W+V*f|
zq`q0i`9ZoCRa}`k`rqgr%6Am_F%q$Y-m^YyP<d2Bj*e0^_6Sx+9+TmpqoryQ<5;WC
z+3$1c!yR8N!EpsKyr8Y36D}b?kfLAK^HE067RbbJ619kC=}DqY*BnBTl|0tUD`;$_
z{mA$4#pIsX9?Fgm%1HEdTvxhiExH_9=$zXyhkm+H7Pz*TQH?<U%lYjha@%}>uj_4P
zL_EXt>!4sQg1m=ONr`jlP{0*MPyS`JZRBt#>TMzUZWm4#Sd`ILr~5l~?pkzDJWa3R
z$sDTm57Ss4SVaG=I(uE{$Rj)E?up*axrzQ(CD4`8)}p6g_Qij;XOV95$t5k<StLSL
z-z{+}nOq|{#W$LugzA2i!@0iJpm){F{d|9Zpx)m>cBA)(5oRd$iTvpSc_`xHh2Q))
z5U=sQ+dFPG=<(xA+FOA$h_owFT+=QViGQxys_M!nioCgb^G4k@6w!EZ_4H;n;vV%3
zE)<(W$3$I)?x#*en9yKlMP31UPZ@Xl0QC)YaY0vOZ$>o=f66ISZZv~rB+jX@iY=g#
zv>L7CJ8#JIYA<&AUsXiai&^s-Q51CgXMg-e$rNhn)R1NTF^3##)=!q4$|KX7z0=+J
zaTU?27^VbFe?Z5C+Ke3xCy?-6bNca~AE-3fgVx+Ji!9#Od;fm1EOM`TxJT@41@aK-
zk`|O5MH8Q_`Xx1|Q1yYJWjd2|vX8W@Gst5|u$&O@pIM6QOE~^2)eoT+qdF~CvvE}P
zY}#<RH-$`-m2isxr3{+j+Gt@IE=CNK@6Xpv^rJTyqV*p989~8g5MG{_M1GSen<@rU
zD4`_%P4nwQl)`DLTbbF5szqYWmRg38N>>5vhxB;z;+^AG{ubhh#zHPc-7p{R4j@Ua
zOm!jpG+AF>g#jc!LNHc%7DKM7W3?9EBZ~ff>zj1Ekb_RkS}M{9cc6xtO@0-;o+V@F
z;#gDlid>*qzUi<kjF`AjF#om6MA{7P0=2$v=tii}B&2qu9bw5+!4D(Jem2&2pUzxB
zTT<5;%9zqoak#ldY0y^`++?3BsMCqI*<x#xZibUrS)9Yzh0dW0^KW8h)T!v{MfyM6
z?#(D)eLoe&upQ+KR5{kTz9ip$8L#}s<}C6OZ%D6@N=A!AO%7c6`yV!SGdi_5t!U(v
z?C;5z5VD!ps{ot*e5n0nfT`N8M5NuM)ql>p5q*8h!Cs;M1u>P#`Yr4PlBFC}Z<6Lt
zp;qJJ?@NAh$kNa6#xJ9Kbg;@qYj;)?`Xb<netHFvi<v*1j@^F}*K-j}lvrbsOnRr6
zMtCjCw4dp8zy1mN@Qq|d-|{1Oh8Z-U&^dve*H;8Or(Pj_fw;|)<!YqF<P)fVz7Y|>
z(@EaZ^dWnQ*>DYx@}MI=Q&;BKA`#|SJss#uK?XA2fyT=9h`QCq>u~sUGHL%Bwe?YM
z#IoLT-A_6KUAor$s9A@M+H74<9!{)9*X`L;Ik!E@x!PH(9A%tnbyDwOe{L8uH!pwt
zm97e@iaPHd;;cc79d?d!FFnZgs`q;Sgm9pT_O3xEuf9Y)(#l(}mnx9Ojn=p;)f8kE
zn0z5qkwl(kY+H{`ID!O~0~Oq;LXoq;F1-=Da&#)Wf|vOaLJ{<uZq!6KverE(wy=T2
zsPoN2i+M#50_XW01GRUE?c;u`hdos&=d{3KmJ=@INJdUheR)<Cuc&Nfl<@)y8r#->
zs(XuOi9Z)DJ1Y^B2R0-k;Y42CFgkFnjTv#A?!Hu7>yHk4ACWS+UxL_%Swxiy6$p2m
zu<YPS=F*@S5_V@oHcDqhR`&a$WBXV3iZc`=r$v*n8jUh!E~57|c*vgYMsU9Ec!Lpf
zz&ROPCm-Z|EWx#6v=Fs({E$#;Ek&dQg4x=*PKGo+<!N2l3n|7iNhkLcu$?mU4V~Y6
zv1INfuPf@iFzimm8DooNAhGYc5Ot;pXn!}C`49euvM{-~`9EneGv#NI&SwZ1g{T)S
zayAi~e|=Z~L(>KCcKJr|ENy@})1Hb#rQMjMg&d=E!Uj-i%Nt8|<KTkJV{?1s4iI#q
zqD?OU4b~ZRn+eycumxFFK8oQQ5Y{;_Tu6KkW`Q>8>Md;$W6@P-=&=SoFE3wt6SfVG
znLI&qS}V9-AS`g#{wQ#~s>65dzpv1KS()KU#41?Lr>m@}{sFr<i`{V@KY(!Lb%C*E
zIP^wFi~c>+40(@*xz-*ngWk>cwNm3>V5HO0q?0}l*xfBInXORZ$&PaU`sX7I+K8OO
zi4_zd`Yc@>y$mkISlxZD!$9)>dbU9)5O^+$9G&f`gRm3U*!hrYFq#e$ph=kl+F{Xv
z)vRG4e2JSTsrUosf>VBcZ8Z#9&v9m69*6OYXCZ~`V=zZloD!3t2GUWfY>p{kNV*$W
zrW5x8&+F|8r+0?H%v0CPm#ZHFkKg#DB>f9W6`=vMs-A$QkJMBrzlWu}ZoLs@-$9<I
zR>0zV7m!BZkEI`Z4Fo2?%nnm`(7B`)$xHhV%9HZg-~8-?q~Q51(gx16XiE;V2jF_(
zWmfKcFPuOp#BrPBQz7sK?~L?!v;axZ&RK;09sd6Rc*P-g4IrHG5_CEI6m;fvC4$>C
zVQJkpQFsE^(Y%>&tX#+S8%e0<4Z8pks{B_2wXK2Y>W8`orxehkIm|lcSPrDwKuLwJ
zz<>GY=wSjQ5TdT={b4i*tOGk6|2ZD8b0gi&?M1lXSqEsP-SPaSe2{5-i%9rf8^9Z8
zgzKxm)M^Dq!|>(K^R@(B_Y!Ff&(m#i+#9taH#{#q?Y17bs1F!hhG2U@1n?X@ws~}K
zI<9xl^xHpVh~oyb+&l36Or@ye@|rHr=lCoo^l;q>^J680iX<RBH?B-&*THeL-BMri
zd@3#Js>CjBAY3woo<dybp?_0~<{+*=xyjPNoTQ24D11-Vnur8y^k8BJ*Li#=i!}uL
z16InLR(&A~*KJtxX;}QrqiN+=KG)#9s7_Sa3FjjcTGd~V<9dtkFI~MRxDG_+?t3O5
zMI6WDWzdfE3cln=65)8BUZ`Ihtmp-#ONDd8qquIP^<=bT#XtVh8cM9hdAZTgg1wxo
zxc=s7)tfOAu3yU1>OGG0D3#{Zn`bWn>+d~p4bB6n^-X^ea6gW-U8UeUA=0U-Ezj#d
zIA4g7uVIzIaoAqhd7OV7nHE#f$9a&_+}jUValL-)1oy^CoNtl%&guqU#Bqe$;J-M(
z^Xp1rP`Hlk-Bl0Es5sy{t08O2AQHa+Jc(7p=l}IL|MyKCkr3*3D?be9$BsLv-__ay
zfw-x(@d@W;NlpXI1OM__%3!e2D<a{e=7R@P@;G0MFq;m>_p?l~n^Eu?-u`NTe*VdS
zI183PVK^_3mwYIQ&);&G<6Ei~5V+~D+a9yW+quP<9vsIl;l_Ra5F(*GtWjMD0|G<k
zQKbcQAkZwenfu_p5?fz8sL%Be_cK=t=Ydw43c0WFby9gZ(!Xtje?L$WM!0Q_w->~h
zFtY!{(Q9(};PDb`O#MX~zjl(GH8#TQ2Zdk%e6hf<4`#3W{*NEYb2oYt2}=hKdTUAo
z;gJ*V>k|gJe!nw+zqctq?wl1<921TwRUt;4FRB>DFr601_4UFs$B*GWP=SXkH3#n(
z3$-dZ$MA35x{?B%FNT8QbrDf~-}`bM)bxPROt&a<9`Bd1I{)h${Xg8flRFMLj|ghL
zV2|&QOgH6sB_6-0dHHpz@O}yAM_hVn|KWC7{;(tR3%@hWJ4p|<oSR1$bKSv$_u8wv
z06g`Te&RMYe+<i$IpRFieFGB?7u9EcMGNiH-N~D5uAl}iyQVFM!9r|*m8mf&HYW13
z&D!=FmNR9s%<*eC$aT+}mKHvPuMrC-j*H(x`nJBn%fswgOxDyXGg>(;^>MtFejovk
zEa$H&aXY~9r3cx}<^5p!ed2s*#9{1p@$8C1C}2mwje=412GMulW%s;LI|!98PTcR&
z2THM5>=ap9u#2KWO@xP1*p@|mY}4`z(cr|-dx;X(5FPxZFEFATB8_|F@3b;twa%v*
zc^EHZ<Y@mBUw6+FJ4^bxwe8J8Uex-@h;}Eu4&t1MuBXRpsOZ;9a|N)k^WEMN=F>#m
zt<SphsYW2zD^itxt{pt3NsU&AXtCma+uy@VXE2*Yp=TF#7KlGad1xQx>48_&ZQAsh
zFA%}CG;~L17v^NCTDiI|h;64C#9esshZw|Q-du0|5Xy-nJnvOM!wJt6ex-^n;OLxE
zvJ{fUj>P-zbJgApt^3;yf756|(Cn7dvy%<@`P7T-bY6oqLAfzEZzy1wJyS@JkG>_w
zcNt}vB&h-wEh-IYs)JY^&(m2KRzT=zY~h07DwsN&UYI0g5ceovJM-VJ8z5_^`rm~X
z3TVdtN3Coy17nxHeO5QeVORc0cj$N`@ukgw4azH5z}bcTU()_cylz>#n&>kEsVe7$
zHBAPAikj!1UiE9D{<YEgKfffwvW7fex2puo|D3NA)9D3O`o@K&kX|?>J1O9MJc^hq
zCV4|<Qv~D{pO)onz5(5Fr{TL^9dI|bFOczQ7j)ce8M}WwoM_N3U9Mew0Y-;HHLC=&
zLHp^<v!+L_xDIaW(>;@RnEoJ<Hn$y0JS1*e*3cjbRjvz<%l}J<PcbJB9ph+*UdiSs
z55-#HmmRIeIj&&hkqE<eHF|z{UU7N0_elyQo{rtwXa5m0{p1Yymp6k^y9?(+djPRh
zG-*<h<}?hJ{pu0klLW79CHoF|)WeaDl(^Q2PY}L(@iUpqkNE0%SMIn6FYK2PJNb|=
z4q8rpx!p%!3#vPTY;+S1z<23kd{MYJ(f9HR-pR+uLCil&vF%4R9Jabm4&J1I``@*L
zU&8C4d-X*97Y8q*=N;jpbpdW*<3GeCClm#*`PU9DS&>0?-=Dep&>DE5=9!zD<UvfM
z9857}<b*GF`>gKwhXc2ftmux>d-$mlCz0@#0^B>rdpvjJ>eGr9pH>}qhz(x&&#M0=
znC|<O`r>0b<Q~!LyYPYxgwd;kJVLI-gDkhV&(X3$<xj~77oJdvlDhX}%k>?AhC&8S
z*L!f@wcF}et`jlIj>GQy9~Njx8<-Ec90U_xy6>%>-@@mF&wYC=D<Fm7BA9FGNVMVL
zC`NqDpi{=Nn-CKK9j@~tP5Ao|IvdAtgUV$P!`>*aVq;IluAkyo3u1)7jaZWDH9zn(
zHWA!?vIq<uU41!?O5sq|H^Op`9Wif3Ey0qT0b*yW<qM>I;P<afR0gj2cTX{I$z7!-
z5HNVyKA6dt$l**goKSQC{!&#x={I-|;`i%MKi$a#b;BtAM;D4g)zG?5I@OxkXm)Ph
z+-N^Yh+CemXz&E-2YQb;YjeQ-o%{O1_Ck1>tm8DJWkpoFx1Q^9e;;_J&z4)^-)o5k
zEhg*LWWm|QmCxq{3*cGBgjCpF3!?PtVop=iURa4yl)6ey0*ya3F-EHyaD*Lo6fEU|
ze%P^_ic)4oelrh?-VPf0nv&s0e&Y&>kAM6(qLL1sJ!Na5KXQOMjrmoGk_mBeQR0u@
zZEENZHPKNBaRw|&C)1}Z6;7@Txs)+ygKl;vdC=d8s9!K{Z@91vb}1@6=1F}9ifTvc
z+FVkAI-ahm-yjnn*{2m6EE*8y6?11N@~GhTK%=A5xC4aApYrRKO@^gcEdho@=@3(>
zD@o+LjG3P+Dm)sWjPd&Zr#63k6#GOI!f}<V8+%}xe_XF111m1jpb`;2hlLLBR~Alq
zi8&U^yirnV$1ok5@QIyz>}EO76RngeO!vIYyuJk+cGo7gj9bhFo2?#uIdtm-M!G$7
z%Rj0Jv$p*&Fp=Piy{lHZH4(TMV?GLOfih;8#Mus`Yj^T7i+0tc2g8!F6^q4)>~GfC
zx%SX|y7lYOBY*bZof{7@_Du!LM2&dN<?~agHUF2`t3yr)y<>E-o4kfAJnmy)M3?LM
z1u0+)o#)IONWR$H_g=TT7M!uWKgJu?#g(vbx(MwJ$xiUvdrbb<oH!<JBYdkZ$N}qo
zlU(WY!4z{o)OQosq_9^9PDWCK>LFCFGN+Sx27900nJ$!Oh#juu9i%e(4?AJXW<UMo
z3^qPRyLAD752$W6AFg$k8GB+!^RA9X4U6<Qmeg0iid{ud)9I`ZU{C&D=2<Msg6WFI
zTd`NDv8q_&8?Kvj*lN+<j9wQ}j6THFWprQ)CRZGmbiOBnWLoK6o9$mPSEtg%kRXB?
z-{_TdljFtiPtZtt?fZ!?PlqM33CF?JZ?vwM)Czd;?p%KnD}>?C-hr6`F3jB`*z2cC
zH+V2kJi4GA1y|mE+o0o_0NEc>XOhnIU}$aK)GLw>3ut<Ggxiz?HHpLt83>0cZ*f;D
z-fxf-c~5ibB?FeQt-RhsTm!y>7|)2*bTECXIGShj60{kj^gXY(;qRU8MA<6|*s5{5
z7bEQmcw9F+*>=nyWIoqrZ<vOHOlWt%N=6en?3z99ws#FeR^-`&joLv=<(N93f&=`b
z_2jE%4gq%ICl)KO8bRZHQH$59CD?A6f7^em5k4ph$0oisfgF=^i5pr$@by7|*53DZ
zaNxb(0I<zKLLkO|@DqaeW$})OM|DB18D@?qzJQqTJKyp>YM^D-^v4nDabQRk%^N;Z
z1{|_?xg49dKu5{!KmH|u$m<)>On5^9mE$aKT9w1Vx%1lldq@$$%Sr8ShdUriJS9?d
z+YfBjoW0$zl40lc-swf*0m$fh8GO_`7kuMflg_=l0q&|Dm;0-I;BlwR7w_oz@afv?
zL$^75;b@rR?MjXe_?pKwl}We?TE$04<`ummZRgYHUZ{X#SDPz>1D#;F7L<61D+Sg%
znzncsG0;4()-5&Z1$E>nA5IIFf#7@XgbB%ZIDNd-fbM((tV}Yu4fI?BpCZ{OtTCP-
zb!)>_MYR;@woLb)r*DPCrNZG~uCGDBf$eIZtOTs_u=9!Nd%*jfFY@}cOJFqQljSY@
zW{7kCeaz!iBrr499pNt)0R^j1sl9R}U<;Tz!Yo(}4q8J|pY=aMsONBt_17?nOo;cJ
z7`y;!S;OTAtlYpgY$e5`qYy@anLgOt*Z>h<sxIBv3kBcefB@2ka}c63c3a5Z1?J2I
zbuUX4z)IAR$tB-9P?6urNvaLRzYo{-d*#Rv%;%zg(u$p+_MsKcd8&MHf0Q8+A5jA}
z?vi7AX8ypTdiVX4C#NAa?)t&iz0bfam~vftI|q8w?u6|drNDmnBB8-pAJ7-w8vCz<
z7t;4#Zq0FVfY>s0aFZ_^_C%=^@_!~ng?xioki>HkN_Md)WF3cNpOZyw4%&m@gAra$
zmrS@Z&hokTY!wvDtgv$mc*6Wu>&t!#+~7b;O*-)24kVhD$2otd!&k!ApWD3^!0m{!
zAOjMd4A=<wwB>|3DVB`KBwIKT#_13dm<EqdOX(IjmI3SaqQh)et`H=>bYt}$JBUr!
zwYoj90jll4({{3{kXkM?NnR|4XAi_bT|MXwagL<0bqzN7?r>l+NZA_f)>g-RnNooE
z=#AwL#kUZzb2wi3ts_W}xfOX|VTJrH;~QgltYD|sUE;!K5>!SjOa(R<L&ES)L+WIE
z&{rA2e9f8RHRq2I{P&(R;}q|IEIygSNAhJ|yFE%dwmq_RjjEgSE;3_Lryzq;=xb1j
z|K3x4oyWJu6JAn0Qz9-tRB5ODP|1baoq7s^hM7tuC5rN3FkZ>Pf{h|NNaHRp=0af(
zkV`#v`vaxxf>>5WR1u|z9;=HXcvA9@2hdFi?xi%X?9Ql=F{AiYhP~*xlTTrb{LykU
zESZ9m%c+yTSyMQ|*xC*1*U`0~CH8qY9#G1UHoPs<jHi6Loj$}H@RB0@lzzcFMwfCr
z)ox6{eGDlYlS`gc6ewp83;tg7^rdXKUKwv+aHdp~&MVN0D^Xt16<lGE>O`{j@|C&^
z;*{c_=kzazIZ%xHxW=c*rW9ovv+EhZr2em?>kg#y`@`2LiEKg=lI&zORQJ4;ne0ds
zA}N(w2)Qyt_Ljaj*?WY0E@hYOy~!q9D*7G2zdr7LpL^c-J?FUhIiL6QJcookcGqC(
zT|K0SRMEL|XGz&v-#XTE9+9qbaGmdeYDjAMa?QGI{w%3{#=*-^pakkX@_R~slbNLW
zdgqvmfDUO|>h36mjsmIY486a+)iKi1Kdk3Jlw`u0j5D}@YLq0me7^ev*4IhFhv(PM
z`$?13ggWTznvs5RRfCLSG!aS>c&je6Zo}tG>>_;AQl#XKxFLzVr%AHxUDnLZn}GMq
z8Q-%P-ou|}XO9MGufv!i$50z)2@+q1_HgtuZjzmiNaMz%Ua0k&@5SNAQ4mKrW16r3
z1Fk(tt7fU>Aw6^WE&OTkDCy**tcbZn63mWX@TJfXhw5y9U+t$4!kN??^jHcbX_s9l
z951*7MaHAq@YWg7C%2^VN=_*3j{dbGxX}UQU;0ERwULvaEK43U5}Sgp&t=;@Rl*=!
z+r=vpQz6hiCY<zK`x~^MGyHFv`8OotY;LUy^}#(s3*7}8f2hf^*5H3F1YV3_a4iW&
zd1-E&9BI}~ctl5It|z%2c9pan#?$!1r^x}Wv6qA4h2UK2z?}wIYTxhfbAJ_<5Ez-e
zOj_U^7N%YB%Ny#omdaD^zJq!{{`)NS=L<|Es(vy`Uqt!P@|b~34babkX0XQ28-~xZ
zvfug?2ruu;s_)+W486~P6;N89g?GLk=_+{f85XpEQhP%04TYmR*qjLg@Ymu7E5&{-
z9K15Ny~gwdo}`!4ef_EyMn5)`)XG7+1&W?b6Lo*sW2rPW{*?qPD76BszfVF(yH{t9
ztwI>aexzIlc)@1^RDZ+--omdnJcV6u5Y?LwEK~m)hjZ+vw6Z=ma8E%(f3Lw4cKDE_
z^r`)zp6|Vgi*YqD)8<{$i?LBSdAT4w(7Ot5R)_WTD0sq_C-V(ezkJ}QRKs$CA64+w
zGrjt3rD4e5H`1B-9p!&5WLf2^-#{AbgqDU)Z#YZ5K<=df2@cX#cAcRcgt8UmNkUo`
zux?>tYgYUX%#*Es{%+3;c17@ADqXCAZ*~Q)m!Il~6kB_RmV0F|{&wXV_5VCz-SIe|
zStc)d!e^~DIH4RKJN2GH^m#8NT@Zhr)>;btxyLOP={+FJ)4{iIq&=ah--A5=$7Rrq
z>kwPrN;kv=dlpMdOCa4FOE!4|0Sf)0Zux17>JnWnlIzq;VdD?6hr+R4kWzJ@hpoIA
zT2D+ARm`|Uq4m$?`Eed_d3@tg^NkX?wfOJKs6{9IMxz#M@wEt+?dh6ybiRfRQhwAI
zMhQ?oqK4XEqZsBC?`nS3?to0({zs`d3Zc`91V3DZ8+5rOt+y>gfbH74O0rf(@ci$c
zUwU`iq4Qjg`J!MUr2oZ!?nJFCoaX#6U3=IaCSHrXq7qdI$yz+lFVD3>_xUChlcxpn
zi2UYO&KDP$&z$wBv(XJ+`clHA|GfZmzRWT+QT_%iX$9UMb;^hDnJdm5>39V@IpQUb
z#ks=HK(`iA)&i*G{^_)GODjw~;~8TtmInpOmpim)oMC$E+`5&k3oPAK!ae<#2UC69
zHdCLpz*oJ+`E}bl@N=rad?=+es{54>-+cB85-JnccD!@pSJ75BCV^(SD`WcDr867W
z?FP%`p=UGf|J5%HIVA&%D{^eQ{@nm4mE`F7WfN=`y~&cBWyG%A4~gU`Fkq8({BzYD
zNg$jG|1R}n7Z^MCaUs@p14!1d5MRDvz_uOIx;ENrv9`f?jpmUbz?J(G{QHg_AZN3h
z$1iXVZ1Z=iac~~P1m0gi-2ambW7W^L5*UsL@`^7rUYuzM%~AdXP-qpHX~>j6xpWj$
zbo$TION$b#>|!W*C>RT(+fJR3NdE@-Rql?T3|a<hyk88u?oeSo;)QFJoj8np3fG{S
z9tl`{eJf%FTfn}s#)rA-dGO-5PH<)z1;*C$xfyWnf|P)F2}W$;fV(ETkJhIV{I!<%
zDMvmmS1axc7n5+9rPHFHTK)zYa!*=_&JF=ht2K4?KfVCs&9R|6qiMjqwdByc`v*9Y
zm$zm%{sfew)cWr}2Y|YfxBs5n*MiQo|1ISrp4fK({YumBCQyA&QhGMI0=^eF#+!fe
z1KgWpS$U)yz<ee)t8;G%D89(e?O<C48MpKP+4F7zL0`h5^ZP#F_rOy`{whG@>p`+h
z;l1Fzom19)@GR)5iLPkMA;X%5YVP-!d4RCM!G{wp<=}yK>0Now9-vKWzR69T0xoR5
zay_i&KxZUZC92mAkSEf3k4P1PDR}B`D|I`#;Xe?bQP&S{xRvZG-A25@mR<Lho)bu#
zj!rp2nGFovf5gxyH-K3ec=;tqD@bbpuL5iE1E=c?vPM|!K#D6-SmsnR*og8!rxscb
zf?uopMub#=)x?_#T;fkb>!tOYus>G7{cx{90;(hHtG4>}?pg`(Ab7K0O2`JPz0_yV
zQyBm(#mDw5lLh#9JU)S4D*~ilNU#}E$^(11|LYS|Ndgn}EHMh=H$m>9Ji(H5Q;^<U
zly<KZtp|i9MW!BQ0JWu{hj)de!I?PiGUsRv6!l>tq=0*%w(A}%ztLNus%n=;<$>;R
zR)aLD90Cm1T$=0$WI!_=OYnVleeg-#YUTH9FQBI{9#Kt706dI~?YL@R&{JXFseVTs
zyn}td(&u#md$0VV3nT&nZDsx3*J6M~yJ(|Liw8KmIIq#PbOy*$pRW2dr~z(W`fhnM
z%>@_)6~2A89S%0rtGrZIT!4p^{$|!~9x!s;=pAFCDrjz5&Z;MK1Y$GN$<xsxpu<?c
zYeD-3@XKU7(zM17#)w|a8WxJ+OYyXux2in|-pUAuZ2`dV@B>ojiVZN$c<MxN%?#9b
zI%u7?<Ut_K%3C%S8_?DyJpahi7wlD=Z<fki0U^Rb#%L=Y(DpFpqB)J$4XWQ4K4w_~
z_8Pt?yUU(n=9f&_zO)4xr~B)}R(k|IQ@+w5lyC)5<Xc-9B|ieggsU+EhdqF5Pgrlg
z(gP6BXxC?Th7uTTWOr~8FM`a`d+KpF&5<5<Fp>S58z@_hj5aa34+JkaDYJ#+z>lfX
zoIMX|;ORQ6so-e}f<-?ht6p&i-gmQQ2J8&L(lgKSWxqdo4rkUb&~hFWO3?l%b?-iC
z?JkvgIQ9ZGu3Mj7e{~y}Jjvv}!MKBeYHOV1vL_D4N?K^2J-Z8hL>lh-pn5MhyX4=r
za@xT7{nU3!=MB6<(mT=D>>@zj)-1<@T^|U>TzqpY)drlNv&bvBr~xiiAGND_w~9CW
zarJOz!&y+lo<AWbuM3_$82Ohb`3y|*3N2antAd1&j?XV@FX8PDeNn#slOGK1`s?!c
zXn`{CvN+n3$AItcJGmigC1CG98?azBho>5?2V$@J0FAa(>^pZ2V1C2JF{{`DoX@&H
zWF>e51RBfMJZ1iYk5?PH(fNP}^p$eEcg)@dCbTNO^e4^1!zNwflqfl%p5#69PHPfB
zhHYd<ojM7~#d%^nT9v`h&y`i5F;g%zm>77i6AuQv&wSqhJBFv*r6$|k-~eSyS$FK&
z6~U7g4no?XF%UVnZ-a4N0avuQ{*ciQ<J%jYCsKlw;iq@ifxCP?u#L5XrtQHN+@-S9
zA+j=&%vcx<X|xzfaToeWy(E&L>fK5T)%Gr!y9!^g{@Z|;I7c6Cq%e>!l+#HT&C-(a
z!rLXAbsyk*!M*qthEDjZud8HKcpZ{`FZ{sdc#LE*nqwYy_z1~6o!Ov_`aRr@Svz@x
z*bbwelb*3Pt-|NK%+%(QM-ksY(kO39NfJ8koUnB}79Mh7JL1yU21#^&M_OA}U_ong
z_SaG>l8Ftc=I1#aDM<2h@pxAxd?WfgZOWh(#;v+GMDi{|LaO9M(oYIflzNm;waPAJ
z9@_F>z8($(9|V2TFK>b|GB$bUMsrZ<!DZK+lVqg1zcmWY!yEACck2GL10nE2R7pO=
z@dkL8@ff8|+z)tBC5xR{{1;Xq%Hz{wT!qsu1Lt$O1EGW`VW~W|4nAN0%3`=P0jG-$
z!m5h5psM4;T8nExVZL_EORrr&==R?+`D8{CyjigMThwtB-fMoM^#%F0oE;=ouc~js
zBLZ6Eng+hGhyQMP4@(vNM}0v%jCKGTac-=&QOrYD9NBT-&txRB_s}Eg<{Q{sAD<ui
zrV`G{&KMcJ>4Ro+*gBoq4+umOZ*$+TglD?<ETFkNd=vjeE&F2$bWgk$b`j~n>^@O`
zJ`pnn**1##>1Z<`nU#R+jPEP>RWLX{9#;Sz^re=cF|@+71y{slZ?;2?#8hH6Arii_
zP2s6wc>$x255$NvX26`_3~n}12TOgGdGgh3A^ptZsf__2Xqkz5THUvWn<w3LvyUc2
z+>M_u=d`O}M2ytd(zh}=srr=Q7)5|3ZT{yTGdzRq#H1@_*N_fJ@`U`t%TjofQmqM(
z^hyO-NXTQ2SFkF=b%`p}5`JeqwBmU_2Gs?bc3Rynger$FgtH($-rPN=1?sdHQ1+_C
zO2>*hG;-g~+PxJ4T~zXVTjO(J@JWWFmDZ_Hc8^)JR?rTX=%-TTY?;E<Fn{l^%b_q}
ztbv?vDFgNy-5>V-ln6QP`}(?vp2LRGnpO)kV`yWZeRbI79aPl1z7s5)3JE#AcZ4V6
zq4>Z}LuSV(Fvi&@NNfHs?B{t%PGg1mdnVrJ!Sy64C6_^078ngvgdaa_9kGC<9PC7k
zvp!UsFEI^0<^vV&d+N&z6QF)U(SGiU2xxSoyEAaY3^uS@7_Wut!iDXrmtEI9p&lrA
zn<|Zkze=yCcxs12ia+ignx>}E(P{U_;0bN`E1z*YdyD{)(%|8D^C;Nz@>f#`V-P&9
z@$V@1_C5@Ck-705rwKcHqN60M++cXZ6W^KmaJbC%nsfEKKcrb;&#7Fy3pu0uC`8QF
zppf|U-(PRNf|RU=I@4Gv)Y(=F|H$MEM+|ySofy-H(u0*w)QT#wWS>#F@17$Z-f67<
z^EwC?XhzPp-uHqw@6huD+1rpjQf9IwOc4fiI(pyha)3l@>)JT_0QfHMpIjru8@T&V
zE39Qr8@8!9q&~lV1CE>V*m@+|!AvUE1{+R4SXWF>G+-k@(&CjrC$=@AQm3Jiqo_P|
zbs83nEwh2;yffUl0=%Ij>)ubzI#)=qn0$oXQ5|L#1~NLBVDRz4{rE+e=a9|CMrTyZ
z6aLnw+xKsEhS!(|%@k~ILYC7%Y1X2z!OZ++k;XGtuq%OSuHVE1N;AY5{gH8myT_?N
z)HW(ZXY=3+^)^{}UpY0^C&Usy)@vEcxa$sYUn`ExTX%r(UgkM%TPwoN)8~J5=v{)*
zN;kzFl`UYjF3Wn%Jy)pUB+GBUWd{SLxNF}V-GCImL5?N@7vQB2RVLf==I|Sji+n(Z
zGh{UIx8Iktg;WYUu2+5KVTKO5aI};()RtrtV03%{cV&$N{+K#K<)EY`AvJ3#toDAd
ze;R|`zspkGUP?l9&%*&1Mob{t9l?S}>Mx-9^_Ly^w@=}-D(OFlV|XYw%JfjfHw=8D
zeKV(frXB=#$^}{9Zw34o%~e+lrl6TGK6>fl4Ai6c5llN13i3kEq!CG<!RyB}_+Ei#
z5F1|V8E|P5K4V_g|8{*Es(d@w8jv0YR>ZiK9p-BRd*z&d@1+Kym(9HAt27SHA7u;u
zwV8msDWZ=I=K{dFWaE4$ZxRr_!S-&4><fsz6W;ebVFc<fUq4eHI|{igS5w>1y#-Nx
zz2iM{M8IFYo&2M<77zo-4j;}Qg#MlHVlLkrglU^na-$i@H)6$KJUH?b@admCw)MFN
z{Eggcw1K^Fg?K0Kd1yCuZaDYz42vfiwr4vn*<KC~^Qjz{dr%2pocPOqgVY7@45$~q
z6Kscy<{vgbrW3%a0a}mgW2NAU)9o-bno@8vp7ZUal6F|W^mobQMk5?>REV;#Z~-SX
zvoo4(3c<@Eo-V(^Jn$tlpKOA;8M;0z+Yiz%g=~Li@<ijDfK7R(-aA4rIFj~9cOWYr
ztR2UN#ah<E#1rJ7q!LZxV|TCVB^pPNW-J=;4rBtok}`6Rfds%;;rUU-whTTI{mLku
zSO%Vu;`u3kZGood%G-<H>7e)*{~IBWIB+`klm>fXC8Sh8s(N|uHI%Dp{zRtp3{;#5
z#s0iZ0zbGI{OykffFXR2<zj9=yj?k1%kkX|-ZrN6l#PD`E@c1F7g0fa4SFAmZzIpa
zLTd+2>CHr_e4dW$=88Nla959&Witho*%G&`Z-#*HKHLLOq>Q1+ox{uA&)>qivZ*Jp
z<2j+nogZFgbq3(-f?Qq&y)O{mYUb42c>=Ba$=*hEI>Gk6`Oc8zWH2kHnBsAZ4hXOl
z_@REt12jEzDerN63T4_U5_zqxVC$F9_s)nd6R91qef`v}4um+9ysI0X!MR7mhX>N0
z!21Pxa+`K0(B!`#CnDTNh+C?OfxarrfG$CIReH)E{7YAGJXQV(O2IXD-fdkdrrS&V
zD7l>|e5Bh_UHdv<7>o|f<+TRRY<|7-u}DAaVivOU>n1c5-V@SM_(B}M=4a4J0l<LR
zy$X|$mf*oTUmx}yQ+Ue#dIbNy>rnjXEB-X$PefH`pE+9g%YaRAE5^RY3|z@;IrZVx
zedxt>)nz~a3QSojy?j5Tka+B)gO;9yG)RoRu%$L_4D_~VbpOQ|!1*SEnxnWhyfF6j
zdT?$gaWi2nKc!g$FzVy8ZFUWSb>K1FWYuk$uMjbz$14sugk-$7NlC;$`jSUQRU!c2
z<#ta*^ES9T2W;YBYQw(!?fvO90&vigH!DXtj;Q|qgzamZv%pe}DYYbC3%Gw(VLA3h
z1M(%T>{;gV!o!>4gcEt;MAHd1fpWRiVBCo1l#0?Vu-IUFQoK<WrjRpv8|R&Xs~$#Y
z@9_i?gS4i2*u;2%)#shz-!964i&s!tWkL~Fzx1^d{>chyD#RR|ANvv~TawtmX`Dd*
zvD&Qos2jl8%YZvO_BvG9I5{B{#t0)zIYOV>ydmDJxPF3P_&B&eyTrZvP!4>5(-tP)
zi$MqDe3i;)v@m>WtV_V$jVKQr`F>Y1gPoY7MX|tZAlITVu$t@|WX3H`%}7zfS{cfz
zdpV9or>i`j3lj`rA>EjRL;5mEB<}3@(p`pc>o_emk5fQC)<sSR%%0d1+)F2bI|is5
zrrf5YWPp!~Xunda4D=So4W3N@N8Gvk^4nIpHL*VR@0A=JHQ;`)KxY^#3GR~fCQc4X
z!n(G4{F}$Wi65o4?`3j6A)d}5<K;^}1dasQ3M5iVfRY}y$c|?ckopr-&l&M;;@5B1
zI~3IqiPiC~nOB?0LG8-$g`EZw(Dy?Lek>M+pOudin5)-`9ZT{P_=^vSO$&wpgzw=1
zY%P<yA|MF<oYMOwcUlN$O$C`Xb^IjWI{HoNYQ=rx8tL2h(Wt-pXxWZSIt*vP!ja0~
z`Ah=vKC4lfir^wK-P6x4llCsLhUrU)BHKUwN1XZFEMphoR1xt4Zma>-k4F#Nk}hK$
za(~+5dLCm1HNJQi?LYW|^S9h0O`XB^YxmNjzEx1%?nbFtaS^j9ZjQ8{w7@hr;$7!0
zxABkN?(Ofxmq7Nnkm04;72wK1eOZxO1`|tsx_S1n8K$)Pm4CWr9Y5(yR_=!Cv<hEs
zYDT|Z0&Da}lOE(!m{fR7s+N!mw)2kl%-P%({MB}mjq)ZtaI52oH;?uLcre-RrL-r3
zy*spYey{m17NI<_SMNE4w|?P#e&?JG*gw2H<77SyCe&|b$mNJ)%!jo6ENOJH97!2Z
znyLx>!r$)R--M@t^_Wj2tN0IavlKaqmI`8bK0U4<^U}bIS)S)fs*mEoN6XxHtF#11
zJ+5iB|C$6T!t-J}-Tatpa-&d>zY4Y%Mp?PDG=bmFi>kT)*9`pGUVBl*Fb<C17EwqV
zJca$@CkmgNQ^rW#bYdD}OZZ0-mnEcYOu&gYF8sjfA#nELSBphz4op-pz0Z<N3u_f&
zxkUZ<7oKwH`Qw^3LlDf-skm?32TqZXkKmb^F<HE9{yF`7*z0#Gm(0d1@zM2#UrdMZ
z0I{OJyN%qv;F-+DrPRv|n95em*)3i+Y)vqQF!R0y-;ybQ*?mR_ET=I?#%y)~e#sft
z?h}WxPcgFdOzwv<Qnkcl{-GlLh2(DE*smJka9r{p{ah=k{$3a)rt=rHk*5XLJ>3OQ
zbz?2G2lMbNmc{C|G%6q>dZDtz<O{I7`7T4>WDShOpV>6*Tm?ItD~A?mvhexyrDV3}
z6hON#sWwoN1lYNZKf?Zb&^&&ZcSL^?cwAB0vrNgr@3#z8=NrfaCB<@sC(KnKWh6v?
zv11zfp^aDEHJ$~ciBeZbr&IB_QspdP9>>6yWB*pj7|VfUaD7Xk(*!7sF;(1qFbzDu
zXqu{oB;(B|a3-1#S3w42d>#3(Vvu0dDQ!$W3M6pJ^*nzjfQ-aLzJbt0JYUNCuNBS9
z;I*iL$p^PWkj51*aOCnJF!^pCer;<EsIs)A#+4-CiP>LXYNTEO`#!yoIT!Q5MSjK|
z?lXPBw*66CTF5YvlRmwuP!)$ys2eHr)|Ups?a0#x>0)=EH#{AQ=>|HIQxXFi10Z4l
z5+8v-1}}FiO2ffG65K9C(u#~spp)HQ$!OmR8vJHtvrqSd)i1@1U&bTxQIVy=WA7zE
z@m2rJt&-{BpR=BtSwcH7pp8r`TJHv;6*g7Rro!>oxdl@1#l?Xx-utZub1JxWhgkWO
zz76aaOwT`{>H<~os&`rW!tnMQ*4rrr5fEu3v-w;$8Bh^F+e@mqf(Kl^L#uinK<NtY
z5B`V{JTsk8H9MaW_|asw%=kVLyuGvXuV|_XoI}ReR|~&`8EJjrALc>$Y~A+TSyX31
z`4<1mj?o8@Rz?%*TGs$vU2|W%AN>X{HjepHt_0wpeT@>_JbMP{P3g=%>Wc@ajx%I7
zV_yJSP>xY^ZVNCwCwe@r@-5z9!${+V%V}_dO@me|CKjmF1l<fg{~0teT~s?4+5~Ru
zzD=frzWCE*^e;Vs^8x{=AzK|44Z4kQ@L3nug4Q*c;JY~uKyd+AD6r#=rznb6iAdxD
z8J8(pEm|VM;o+BYyLU)n>CDqt*M5Bg6C2-BNrqndh*LlO*gCku2F<(1hoTWkj~unh
zp-2R*QeL+G&p(4F^bZu@&c4A1D=<{#zUKnoouq$rNS7`>P2pF-Rt+jUX@qHL>OdOL
zZ2MZI2Y#GL*Shwe6I|h&AOB|_3SQ&RaF}s@0?sB;{MJn*kZ?(wc+`x5?_F_}96@@&
z-&GgSJ4l8AqO#KHPt6KIUhu2hP7wk{_n%8WQLpj(SBT`Y{Kr8(*V0Yxi$TD0@M_6U
zUK#kWIP~gui5kEp-Ij47#udL8Xw>78#0q$Po$pgz2?R<S0owiNOTmBag^%7VR{^%1
z@5&!_&SDd`Z0!r;ftX7yb5XL|H!PfY>>PD$Ew&V?;atNNhV^n+S{^ezj#)|dMQ%vA
zVppx4Y{YKWV0ib@TPdjSW-eDFLZ0>wHh4KiCI*sYfy!!vjA0g-*FH_i3A+sJ)g<oP
zA<p+$-)g}JT+&mFsKqQ;-oFlZ<<lMZWArfTlg#(}?4z+>Mg8WZG=Z3-tMHi@>i00a
zio4koR8xQh``y)+rid{=$XELL(id|&@2H!z>Vi#q`TiMcyNO+zjG1q`@*U(F+fb3q
zN@6T&-oK_>?J(ZI=gp6uvA~``8x)dwAcGw_%Mj*%fdo3t@}+Xj_%N_A9NE_W0CW0t
zjdE$|HfAjAyF`-a$J(!&TdJxT0&i8@snI+pY;R@BHhW4Nvk<tSm}aJcv5ZL5GQVNO
zcz9=PZ(L0TY6@2Dg{S_3V_oJK9If$KFCQ~u3@?FMrgK_Pd$j|S*0(uNTm(=%yq{p;
zunNe{oMV*>#IaYt?uS}2Zp?0%_Z-z8If-!pbe^q$00<GVpmU;}1n>RW=4U9;@5YP%
z!Le6Iv5HVp3tsKxB*Ghpe6?L4FiaowD`#~C^ww<@QZKP%V|2BhS-QwqG-sgZn@ADB
z<rf(rwRi&@z7s-%{5nA1cyrd}bJW;mLa4<u-8#Ts&USj85CL%fEBv}g2|(GWRLpI%
z9*DkhqdPCW3%D--_bu|v5US_vB9;HM1GrYZDC=i#fZ-xnRL;+8&>3{0TUH6_23VG}
z`2N<SI^WMmoa?Fpw=lqV^_vTj_!H3+zg`CVhx(>o{Wpqy5q}gu@F+m_#391s-bi;E
z?PcjN_zL+?u6|~^RSdrP-mnYx>H$0;rSN8Z5~>eR)=#*~4RHFvPxHAGFbT~MdhxLU
zJe@Z%j6u&Ku-R>@1^GyH-eP<`IX$Y&zJAOr8~Lr<{iNIy$^`|jZ`xPdn*fe`G@trP
z0IDO8y?5#x8S;bVVmDlI03^CBzxt|=z~puF+Ue5IfKcraF7V(DYA>SU2`|!No@HDy
zma_+m_SGwYy3+xns#KzW0iycr)tytL2le5WhrBMJx_^7eW#w#JK#*VD6V^`!Hq$$7
z#(1RXZmggVYDfKsyAV+#fpo$b{MnlkAK@9fDsojk8H}r3z4T(B6!~ag4!Xem6yZXC
zWNZ%OaX#8<eTmONB1>*o!_7pnD(i}0Fh%2e#ChhG*F%K6szZ9%gU7LuMnX8P07=Ks
zDp>_Rf8ePwLzeIWw=(+XZ_|N}z}4UHLOZJCrn01OwFD$*LpC+jIAFpml<icKg~r|J
z4Sn)mgqyRt#omnS+tr?W=cD@W_j~Kw?a_d=V#(=3o`LGpV|ee_-bT11_P-iF<8hoN
z5B$C$or7bk><|A)z@x`;R&gT*`CR_<=XTRVI39I;7R2N7OnzA&HbXj#^jv!1aFAGL
zv}gJdjjLZ%rT!4A^G7;y<>E?o-tA{kZB3C*#ar398tEY%vil2PBRxk5>qnhq$_KcY
zM^2XFad!-cR>@2NDQ9Cl{xtH@q_4N28;V19yN$N4S5W;vj)&%{Um+ehPT6`0)ji{E
z-}DMRdxvx^U9)1f(a7)ebnsOnIfTP1>n)Hj0jH|iMPmpEW}70TWBvg5g;R2f9nB|F
z=G0$ZRF{t<x%?Q(#N%jx{?VVggX-noZ}Ug_q4si`THC^q5A6O|t814L&g7?`WEvjl
z8jyK<1NmNFS9|=&*9Xm$a+cR!A?Q8~%PEFr4z6!xK{6SSQ@c8GLk#&|dK!JR%ku&R
zo^JdXX{4_pBtQIi<UrqxU1xIm4~?6}H~A19v~Pl@8G!=nF#G~dttHVsCMAA<mL+j;
zeb;{K$0ObC&6BL`+5jh~);s3m0SKzb)&jwPs6Df(ZXK}$99Q>DH2$C4#@>Ea4X|^o
zKVRslhv^VzbW70pz2|V;Q8%(}>~_nnvytInY<e$Ad_OA}{6|Kk;q0r3m5A7vX`=7@
zNGRc`hMU1YZ%Swi++4yk_bgY|W1_*I5$D@F6p|SAg`SfS(D!{Kxw9#V?!ey0JUqtX
z(Tn~5N^-pY$QMMN7qZd*$BRwBmUT0Ch{mjC{XF!-YcZEN!Tm<92JBHCpQ;J7Bgi=V
zC7R(EBc|Ix_(1LCi#@WFk;VcGF|i;iLK#^Z_BWdKNq>(i_$7V(aD38V@b?%e3ul`h
zM*O&L*0B|jO}Pi?>yjs7a(`RKK2c}^LgVv`o-dZbbW1;z?7#!8Pn?gxt|b85T8&6q
zzZ`<CDrSmC7yv*>zsUJaXc(xCbglU;X=5Mm#05AITrlZui>~G$ZW#Ng^IR_tPlI%C
zjVQ6rdQg#OtjZjY#{x5(y&P;FVwdi@SpRtO0JBujen0vQ2Lz<aO#jG~f+WY`HQX<8
zY+tm>wY*Fh^LsBZN3RF4ng29m7hfKM8eKKFhqzOLv)f~jy~tCTi%HdazVz#uu!EdZ
zv#t`Uv^Y8zRk`6iuT^stT>1|z7O1U#eZ_%E46m8pbHiglg&E!7t_owu5qtx^ja~Rs
z0X>~nl|Vpz9NqFm{V1lE;QLEDQ3SJs3kh-~Oqj^+jESpR75H8S-Tl~RC$Rmb-96Xp
z52(CFac5kb9n-m$vQz231A42K^56QT;-!x$g_2D@1c$6@d8DeAfHk-Ft9;`_*fFYS
z0^H$KKq{_nY#}=Ze~aGC<4VpwU@CmsN+WFwI0tWVN#gzj8uL3x6YC~HrphIH?xZw)
z+UqEbC`COGPN_xlesTn;^lDA4khTC{OO<+j;xtJ6IDVX2KLg)SNVy%-s|{q%4pFi)
z_5;}yUpM?7t^;{DTU$l>8KA-+uODrciSJpg^thL%39{~)XHv3sgJ#}xJy*F^@JOP`
zGU@6p*yT~DP5g|K>@N(CaGg{Kfd+A0k!L$VU8JzdGs|W0MDi-#YQiiK-Z%KPmz#<A
zmlY_pkG=`O3GLbo9p6AMtrc!|Z2?UGzIjXi?JVHbVi9u&nfUTQ!>fsoD&UiC>FPIp
z3mEZyBGNTF2LwvUp3a?`1vT}$uQ(zy@WF4S$K~HE0X}|jvlqIJAYFz^BbII!Jiv)_
zIlIn)qY2@zr)tyj$=1(bYi}rkjLj66&Y3U3i;WQc!TJYyd_h=5q4)>*dRJdWx;G8)
z<FQp?WOoDb9q9-!?5_iG;<{h{&J^gno7R7&YZ}0}D&{$(srbKVM%ag#u7kiU(n%j!
zYk^#d%J$<#v~E4${h!F}6i9vSgZe)OKS|KrH)xjw9uhx(M4g0S`=aTj<HHFM8?P4H
zv^@#d-}5`<&L-o9${nz%3=FKdX6BjORfCn=>z^{OkAoW7<Fn3GlfZN)l(u0l32z{M
zZ)8^lfFhhlMKAj&@XcJ5eBEXg9PjS_yv;QM#2-3NxKkwIFQ_-Jc1d0XLm7r&dMGM@
zaWda-vga_6^_VdEba@;Mesl}=LjEPgDe&qMlPf^Do|BwRs0<tu(4lFn8U$Rk-xW)V
zqd-gl(9VCpAMj-&5BanTE(4ZY3GO}j5|H~f>dHB`0kGcn^KJ0S5x~z>Gg&wL9&dDI
zf`Q0$32f5x;C_)6gWV06_q)M;VB)x!{&vU^p!JB#ghugrTZ2P;sd*Q``^CgKjgN&u
z@AC0e?*w{*fMCjy6vrU=cfIh6<$Nsu&Pr8fjJ^yoxSyDzX<Gp5d`!;-^mT(z2Jb|;
z%KAYR*ZbVd{xSGdcXS0Ga7cq`0V0kzCl4U+hN0%fE+8or`B?H%AE^2KE5Qjw<8$AO
zF8yAU1b;U*2xl{Mz`u}`qZ))x5UAxl^;x7BsJB(_C>)8x^E<zwc{_F<2>Rsq%XDOc
zTNM&LHyt{_mz9lyKjb|CryTOOd>|5Net&;BKehop3EZZ6A-@SWZk%r5(>sny@4b1t
zE6swD0{<I*dNBh0%FH$;vDX9tQ!@AKm)F5((qxY216IsTo%lQ|ixI<wstX(F(eIvo
zBlXUS&!C89ch^c}4d@drEbQ8tFmlrqhwoI-Vz{WnehZrrAo$byu6R7k$H!!!L|giR
z=$rFZfx`?~?XJh}{V^&G7c7+ZGV>h}B$^lnbCN)jLXD0J<uc%*@?ZBIIED=~3AC{)
zQ((AeJK6!~w*YtVw1&*JYM?Hi=CbTQ57Kk&&);c8`lvtm&%NCI18@_>3u;zAK*FAj
z^Ekc|u;r5vpX{3fTc#^tbSVyDmqNLf{J6IPL6TaH-_H}Y|M%WsOs))!f4P=jD?SZ2
zDP*s&7?NSrJU2!8>Nb$SdoO>S1OX&Q2oy=`76DF%z4fG=aS(I+;&bkNr0bQglf7d6
z8~OCSyc`kk3QRuJ-MHM82XI5Y)Gfz`f%JREOYFHDKs&kLzZvCMa9g1dH;~R1#}N|D
z^AGv(Y|;->HTHs+|6Y&v=PU!_qDHL}Jqw1rmegIq;{bSgpNnaq$pHOof6At{dVsF|
zJQpv+4B%NBW;Kh;M7q+I*1BglNIzTmogy#^ywB88j?!)iT;-8b+}i_yFnp%Yj1K8W
zUru7IGLHd4xzw4(BnA|${4S9`*9cZ^W@sPyHX~i>;X7eJpCEsA&*i&`CV*g}kY~gB
z4zz#&S1+elgYN(9vb<O^;-7^T6TL|PXfxPx?kCcpYOlP?mq0#d$JILY5=#KVLpHul
zJsJ7RJg~h>BZ%6~|LS{A6ZwH(A-8*r^qjXf3GH5}f8vHJeoloW9>b9pqs4-Bm*X4@
z*OZVx^wQ@3q8&(_7Ws~<nvm~(rF(ynFXA!Zy6uc8kspl#>x~tpt0Wg^j!duuCKFGo
zZ!n_sQB%t-m%1UIqxkOkcf{K@mDl<IA|0ea$IvG~RA17qI{LsJ`2;<O(UzI^2p5s}
zHhB^0FIj!wq)VdfeI9E-WeiBPCs$=^kZx8&giZV~(oN!4pNx_wkY9=6`E&fDXx&oU
z*k7*?NJBYSJ+;yQfh4s*gAn4kI45QKkv_ybujSX+ApaAFR<RWu#K$PGBAQ0j|6i*a
z_Qnknj{o&&BI4s%S2wLI4|;w4L)Z%9!BS<zQl^NnjW^A>e$qwnhkQ#LX+*fQq2VD&
z2O4rNSbbR$`QabuEoS#ZI?bk6ghv_(XA+_Ot`^}OxbT0Nk<L{^!Anmb?Q6BWXP8Yu
z*AZ80ET)Wb?bG>&NY{&7XZq!c)=7zp*%DER-#T@5fOZ#jznw=|C(yX!5={rrlpvhw
z==IGbNdFsb5<!Rhk&;SHP8aEHCFZ*>4;}Dgo=Zffe1zkFVzfws`p;C*phODo+u#aw
zvrzw%p7<q>9q4)!7cV9t{)`LfU;p<H`P{^=ZvezwrwUA8Wukd2(Vu`RqtBrRuf?Sx
zoJHuy;4bplF;x5WOBn4Z@Vy}M&cV8f?WpJTa|bx@e?f>B<5W4f$+l2`+utAY5&*a`
z-?LhmEYW?v_#W6Tgm9!)<@8vD`&c|GxQ6<tglcY<5A9PG+i|=R=~4+iO_F8@J~f0V
z&#592uH<g6=n}%&PMggmU#4mDmY`|09wG5B%yjb};1udjLJ=-Uw(Qz0il>aK7*3#Z
z2!7PDd>_THuickU9$cRW?@Ay#&XamqehQE5o|4Atk0V`o!^y2qw9dkQRK>`l@x&4K
zzg+V}xFeZPR0n=N2@-YHX#7mr`0@Js2v?`R{hajxCpc`4e4ubP@Aq2<Q54$0v(13M
z*VoTh8l!nax<r0nnd#uX3IjSGc-}G}-Ko<Oz>djh`_#!8@XF|MD}QP&U|u0!unoM3
zrG_%tZZti|*4>1=!#|3GcekV$bVQ?oZ4mQov+Wwt%3Qv#k|Bdd>XF0D+g4aq7yXL%
z@>#GsM|ni#eK@F@ua?*TSq6eyyAQn)kir~7LY{<lSYS^?-M+{_;Rk&4#klmGP%zi)
z;xCt22&xM6x#Hx{WA3Y25duzTSQB1~nd}fRP^D13&)^mej^6w#6`z?2bd4GQ@{+`{
z_W|~wgszxir!tcl3AG%6u51<1S^0yLsvK_59U{RjqwPY#S0PMRw1SN;<PK(`-~Fz{
zg$1y-X9=H5@&SkEcv@qSK3(g3mh~MD0ZdUZ%(dB12b;hCJu#q}0W5{4xJoR%0iBiI
zRBt!K;fLySgJLH>Y)^RZ=?ijAZ2h~|$#^XWpw<&RU;fk;Ed17*sXd+nJ!N^~MCwjp
z=`vm^0z4Yn1&;NK%obMgUM6v-f9M4`Zpb`3FI51;94>Vf-eJY0KjSnnH|b)11+9@$
zwY(rq(2BZ&(FWY7-Md=)tORD=eArU<fF7%t*?{CfO|TNqB;TZygLoF)hqtr?Pk_hu
z^YP;^O5x~Bb;<3EN3m0he@`vUvSV+9xPp!!Z^mzQ@;h&}m;gMb1o>^33dn^^EReFm
zVdGMti{36%VO1JomciZ?_*Z5D^sgqhKo`}-?OL%<ur@JXNW^gsgb4OJ!UsFR-s7?j
zeO@}gr7p)Nbx#)L^L_g=dFT`5RL4S#3<rTzG~fB-Nk2gH7SlTu^=SNi#}Cw$M!cZs
z<NA}Kz6$uT=I3(HCJEHeQPcjp+zV<CU1+9S@x*TqN;bZ%StC+V+Lw;lltbT-zWaxC
zLLq<i*mMrrXTamAS(3`2jgL^_DQ@&X0slUrmHLmY41S0v{r36s3GUDy)_Eiw3Q{;3
zjr?5gi5zqZ*0taH;ryUBUs_xV{AB!ZW>WhL>@u5hv5qW)=X^QEb!I$>?c;%~e;9-y
zt}~z~Nxm3*htD60desEuzNBQ+FxA4}hWljS@A(q#eKRbk-iSbV4!K0XzlHF69AN4k
zX@OSd<c37026*(8a;@2%Kk-eY)#`O93Ptk0X`-78U@z8ur-|t+{Im$_ls-1YpF6ZR
zxy<i~!45ciCSfrc<r6G|>E^?BTZe8|m#>hITY|a&Q!9LsZhYEQE{HhLko_Uzuo#>g
zr*7-Kk_#nB8+_01e1$apCXJzkU!hHD1X)Ez5YgXbh2oT_C=8A*e_5@Z4P6#`RcQNL
z;oz33p{d$8Xhf|b7L*%Aq_q;h!9o&&VN_f}#?Bw1_tVgpaE?}(Ak4p5CHD=s`)Qn;
zRtO?~v3>Dfy;~SQ`4QmT*O~!23S+i)rCMO*3vsQn(Xa3>ul8<X!aJgr-d;9EyAYgV
z(evWKr$aG|t;o|d&CpQ)W1A!XD_klH3yEtEB>ptQoJxp-aG3*lgtjdeej0jy?W%AS
z6glgcE#=S(3%))4Z>T?j7=P?|uutY$=ss338SR_`6+NpTg>yDSL%Z*t@j)%{muDDR
zNv}WgTv5tvsc->Etf^cr#wSDa;cOKWO#?I^{a*JtrWy8_t)x9}eM?N_P3tXwa|Ry0
zi<^0RA_;cOC;XQ}Ru6Ln$!~eYHo+s8WUn5r@gv@f#hNRf`Js&#CEvoaL|DrD_W9WU
zXBe~9r<WPs2m{7XPweLV5?|Lp-JyPU8b(pD<%|n{fFqX@tHcg{hV(;~^K{V-Fu|<(
zfl-DJG4>(d`D!mdcsx}`vi|OSc#(dt@juo&c%x4xpd_vyes2+Kc%0@<tWx-}{3MPS
z5~^?4dF91H_7K{qUnOecxnjs%lKKVao6FE9W_uBpg#3VB6%QnTIO}M{8w)jl9hF_z
zBSDvV{yf*R&#=%cO!4<8Pom>nUBy3br{Lw4IhKZkXb6Jx9`G_ic+KTS@89-1i1I`k
zKdzVI5x<gGS46-2)Xc4)3u3`sdVgx@!xm6ol9ebGIfQ;6B(7h%c!0B%G`=B^{7Ig1
zHsr;EMC&8pDekv`8~1NaO`0FzaFRwW2sb{aLkkceAbi|b{fKZDwH%jJS^&<zEp>cs
z5aB|)IL1&u&gSgXg$oFWW&1BC#sb1ZOs2h13((B`*;~kRfHSedyCGabi_`8|bl#hk
zVQ)iYfnUM4E!)p#K)d|h)Z)K>gwwpe^AhonCYGk<e<(k<FtVj?84H|P3K}!Dn?b*d
zM%`3dH^O0Zy6Z*AA5f7o`imSO{bDt{C=v@Yr{a!{K4}8uM}@k}`oAGudo0=w3i)B!
zUllM!zLMS}+nK}|pxJ+2eXp$nm<0YA!}%2*v}ZY9i}G=aM8kM>#4BkOs>QRSfuEau
z`+jL1D4TuMt`pt^QNO&uMpPu?3QW$OExHCUfgSq<p(s!gpt03-=o7%H?C}p!EF&Bt
z{aaf;5!XIL_htGLz$)r_>I%XEY3<wY_OS#|Cwzxl&tvbPJtIsh8}WnI+h(y>0Exmv
z*pC#B^3alN9~-Iw$?IzANs173eTgw=hBHt<_bUuqTm+;iJE<(0A%H<a*t+m>G2$~G
zdyBDl2xmgql!xvEYkL3hEy}A)Y-!&5;Ri?;T?y3!$bY7($?m7HCc@#yI&Gs7u9VUD
z65>CPFL2Z*zeYZrc&n|QV8lO~SC}61BOE~_n=T0D6`RM6`#1rPZp?r9v;)8e^Z3rq
zA^#MduoitA)dB9|`4mso9v!dwGe$HIWSBz&5N~E!bo+Yi89M$WTi$gY@fKXb1+G^p
zZtJ>opwBHWW?J1tyjjib*eJKjL3`efjEH9=pAZ7l(c^GB6|usIFBYsNi?tXcUrPy!
zmNCSqaS<V%nH>kX)rE7GDAs0B8zCNOK32G*g!m94;8Yo^r$)Yqu8ZG3AK=oN+D%Yo
ze=%N;^7I9qyYP@Y;!Rd~`}_kQ+s=F^q5J?h=bfXEBDt#W2Fla(ET0;FjrewA3Rm`r
z1AaQrN9lWzFUD#99??Yc>npnX5tN@@P<nV2%~uoWfqNejU&Zk_hKZ;AA6Iot8Aav4
zL$N&w*K(|aNfw<~vOOaZ@lYJ0NUQRIpW^%s3gu8-jSu(#j;>F+zMe-K-A9;A-5u2L
zIP61n*#Ymwg;-L^qFCYZ_BvV@;1c+K^$z%OoEptB#2ayhHHEDMK8dsWswRbEyHcMv
zS{D!+_i3X9(Q&2Gz<rtnTo&C=j{_V*d`c8WhK-~nXk9=mVLJ5uG&(-%zcP&0SvXv%
z;iZG|LMyM<Gbj@NIUV@@U^y?`7t!+=+)$sRI~pHk1Os2%A4Hy#FrI_>`z(JR!hK}v
zsAESsA(w??2R^E}cA=Zk4kFIji~~iUtXooOUXxZUXg3b7pYv`^$p7cbG*R>azL$j7
z2xf%Cj=cYygxYgDsVa<kFHZU6)t`u`qd&qVOb;T#`w`s%PBV%H`TY<?1vvGOBHWB|
z7o0gbzN$^S`+r;miRvI4wbMtTs5{RSb_n5~-hF>$^5Fd&*5tSUkDJOOM-lr&v_bt&
zI236^B15=Kw~v2E&t-5p%HydA<B!A1yxF^kPJcY1Ism;^5lz3lhhj)*x+q!)qIpss
zs``H%js4C6u7*w=`S{?3nusO`{V_f|___1oID@m1!vAqxRqF_cV;t)~7$1zgU3U}3
zm^v8Vc5vM3n3^2^aMC$FTgEbCT+bstZ$?$9+PaYb;7t+Cu`s>B^<o~L@?w4UiDnC?
z3Z7VRpe!Rc^+YH}(W}Bj^;+2}k0RKAXPI=#eja+PRH>%_+k{xt{P^5NDY1Nn#`5}6
zRXA(eZtF!Tf-zC?U5B2}!vcHms)wVSP+I5po3xx#;-RNH1YUAgINIMH_4IWS3~|&d
zXR(-vl(p$paoL-2kX-vzi)txRuy8w2VnYQIPh_x1yefh$^O=v`^yi^en4++f`X+p)
zp+M<*qlB2&fDQAvs-Qa51X~3g<g+M${GX}BJhb@u`i+3@1{}_mULAu)#OyS?Gi|{t
zkkxlF@SjN$9Nr4mwBDYBYQL<XdQGgs2&o$7o5u=>N$dY<8VRUCl_w)>LkdNZQmUHA
zF&OP%da4HuC9FVC5>vy@y=3BC{DO5Shcf(d^P*V|t_bRI-SoKlb`~D`lyv31=LEz#
zrZP$W)yG@h8O~NsRfI1)Pcz0Q7D5a0o<$q38Hh9A;3thm0fAo{{6icC_({wEPQ+fj
z0ry|(UwuGc2;Fmbz0Q7_f~gsU<Q=6eKv+pk>%UidME+P;ZuLq9*k`75lFYUM`sdcG
zY+v|+`laEx5aTjbt4w<1Y>-1tv^=XYOS%q;e+BDy6!V~{tKWdB>J+@|8T0T4^&+&n
z>F@pd=tm;%kketdVGIsdI<ya;&VrNDT5pzLjzfd!hSA1}S-A2sRP;o53en|gj{C~y
zWysM>=Hz)H72?VB<|GUTpgrfUPaAWS@Kv$xdwSA;#IA0>I}TCOaA4L0KXo_}_EIo?
zSmx}8^v3E_-b$lzOsjfu@?$LVpPL)^`3MQfDRiu>`fDsa`mSN8T%sL%VGp?cocp2c
zYR}-{QUr1Df&{^IPZ-{Kag~McUj!^<J$KR8um!5+-<>Vo?1E(`wKta~Ly6v>1u}(%
z1z^Fg>`UDEP`EmX>S5FB;r*Sk+gldx@R~EPfv-y-u`oKn<JuiQs77K_FboKUr(f0I
z7hR}@iZ*|Zi9(3?PRD<ghQ7qR+0rI$5!|q(-o4DL)fehnZ@kqSsezr=46Ko94X}22
z=+?}VCvnqtvUo9r1Aeur;6JqE2@i{Bi~T)T33WVTI%9C3p$G>~G_-?24D%WG)XZRo
zn#BzAyn_U2WmunRex?+XDc|iqag+qRZf>~a-nkM3YG>?POqgJ?#4u%PyelL(kSXzA
zFNCiq52;(qRzVI=ktl(CPQ-5vXF?h8(Zle3R)KL#C-_8?cy|83JjfIsR4sP}?UNfM
zUeq(`K%7a3^M|I6LSc#;`5(&;@Q<KEL$O>I+J|@|{Pbcme75KrZ?|VlT>tAK<0VK1
z#S`+Jj#Jq|$~BBDG$9?X$LWu=Bi$)?j*=n|k2SHR^jmu15lU#+ux|EO!W!C5P2V*L
zNr9&%eU$#?<wE&r1*>b+Rz#V#S;-;`GWbY&otlE(3I=(U9a7y-ggcKXdgGfu!lJ*Y
zjL(EWBE~%q?<~EuPoy)le#o8p2=Z*D1ScgYpnX>sH9}m{;dMi|hT0@^;tqd4%S6y`
zVrLkqm{_hkJbqNF&G%<4Ofa{$Va`o~n-~qjf%^eb-6Ea7L3@Yz({}fWpWp*H>#l6o
z(+~v-RZq3Um6D)I@&||hWn-dEPf$x+;3iQjLLe*qpE0y{{l4bG7y+4MqifIEe?WD^
z4-dOtx<_;yG5Omdv`$ndn69cS--Bu~FSWl`hr+h1+!NpD;~<QU|7}HSK<vEFytvJ=
zN({7qHsHu)03~{Oub0^c!)Jjs{#8TK(C{<a;gD;3#4@32&B??iqW6~$S7uc`w9m^v
z`N^#S=-~5v`I}569KIHlpxLEETsWOWMdv+FJpGvcjN7OVWIpk__~)V@G`<n=PI4{`
tavOZRIa{tptfAUhENz=1YTlQ6He0I&gPC=yMikKgcBT!Q4L?HQ{{U`H2tWV;

literal 0
HcmV?d00001

-- 
2.43.0


From f2e080a9fb09844067da0df71cfb413782c785ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:51 +0000
Subject: [PATCH 36/55] fix: leave out near-field drag between beads when
 interactions are off

With bead-bead interactions switched off, each bead still felt the extra
resistance of the beads near it, only without their motion.
---
 stokesian_dynamics/functions/generate_R2Bexact.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_R2Bexact.py b/stokesian_dynamics/functions/generate_R2Bexact.py
index 23b9896..dd82e16 100644
--- a/stokesian_dynamics/functions/generate_R2Bexact.py
+++ b/stokesian_dynamics/functions/generate_R2Bexact.py
@@ -590,9 +590,10 @@ def generate_R2Bexact_loop(R2Bexact, bead_sizes, num_spheres, num_dumbbells,
                     r_p = nearby_beads_displacements[pp]
                     s_dash_p = nearby_beads_distances[pp]
                     d_p = r_p / s_dash_p
-                    A_sum += np.asarray([[
-                        Af(0, d_p, lam_index_p, s_dash_p, i, j)
-                        for j in range(3)] for i in range(3)])*scale_A
+                    if bead_bead_interactions or p_index < num_spheres:
+                        A_sum += np.asarray([[
+                            Af(0, d_p, lam_index_p, s_dash_p, i, j)
+                            for j in range(3)] for i in range(3)])*scale_A
                     pp = pp + 1
                 R2Bexact[R44_c[0]:R44_c[0]+3,
                          R44_c[1]:R44_c[1]+3] = A_sum
@@ -643,9 +644,10 @@ def generate_R2Bexact_loop(R2Bexact, bead_sizes, num_spheres, num_dumbbells,
                     r_p = nearby_beads_displacements[pp]
                     s_dash_p = nearby_beads_distances[pp]
                     d_p = r_p / s_dash_p
-                    A_sum += np.asarray([[
-                        Af(0, d_p, lam_index_p, s_dash_p, i, j)
-                        for j in range(3)] for i in range(3)])*scale_A
+                    if bead_bead_interactions or p_index < num_spheres:
+                        A_sum += np.asarray([[
+                            Af(0, d_p, lam_index_p, s_dash_p, i, j)
+                            for j in range(3)] for i in range(3)])*scale_A
                     pp = pp + 1
                 R2Bexact[R55_c[0]:R55_c[0]+3,
                          R55_c[1]:R55_c[1]+3] = A_sum
-- 
2.43.0


From 4a065b67e0312fad9c3cc8af09e2a1601fd03ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:54 +0000
Subject: [PATCH 37/55] fix: switch off bead-bead interactions in a periodic
 box too

The two beads of one dumbbell went on interacting in a periodic box when
bead-bead interactions were switched off, unlike in an unbounded fluid.
---
 stokesian_dynamics/functions/generate_Minfinity_periodic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 15608d4..f82e207 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1205,9 +1205,7 @@ def generate_Minfinity_loop(Minfinity, displacements, bead_sizes, num_spheres,
         elif (is_dumbbell_bead_1(a1_index, num_spheres, num_dumbbells)
               and is_dumbbell_bead_2(a2_index, num_spheres, num_dumbbells)):
             # Dumbbell bead 1 to dumbbell bead 2
-            a1_index_d = a1_index-num_spheres
-            a2_index_d = a2_index-num_spheres-num_dumbbells
-            if bead_bead_interactions or a1_index_d == a2_index_d:
+            if bead_bead_interactions:
                 erfcs = generate_erfcs(s, lamb)
                 # s_lmn = np.linalg.norm(r + X_lmn, axis=1) # Unsupported Numba
                 s_lmn = np.sqrt(np.sum((r + X_lmn)**2,axis=1))
-- 
2.43.0


From 0cdd2a2188bcf0d5f5be61ade0c41674037f797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:42 +0000
Subject: [PATCH 38/55] fix: let runs of dumbbells with Stokes drag only start

The bead velocities were split with a fractional index, so the input form
stokes_drag_dumbbells_only stopped at the first frame.
---
 stokesian_dynamics/functions/timestepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index d50e7fd..834e438 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -276,8 +276,8 @@ def generate_output_FTSUOE(
         (Fa_out, Ta_out, Sa_out, Fb_out, DFb_out) = (
             Fa_in[:], Ta_in[:], Sa_in[:], Fb_in[:], DFb_in[:])
         (Ua_out, Oa_out, Ea_out) = (Fa_in[:], Fa_in[:], Ea_in[:])
-        Ub_out = 0.5*(Ubeads[:Nbeads/2] + Ubeads[Nbeads/2:])
-        HalfDUb_out = 0.5*(Ubeads[:Nbeads/2] - Ubeads[Nbeads/2:])
+        Ub_out = 0.5*(Ubeads[:Nbeads//2] + Ubeads[Nbeads//2:])
+        HalfDUb_out = 0.5*(Ubeads[:Nbeads//2] - Ubeads[Nbeads//2:])
         gen_times = [0, 0, 0]
 
     else:
-- 
2.43.0


From 2e2e9c14e4c7b0ae3fb054b63c08037407a7d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:45 +0000
Subject: [PATCH 39/55] fix: use each bead's own Stokes drag

The input form stokes_drag_dumbbells_only gave every bead the size of the
first dumbbell and left out the factor 6*pi.
---
 stokesian_dynamics/functions/timestepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 834e438..090e6f7 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -269,8 +269,8 @@ def generate_output_FTSUOE(
         solve_time_start = time.time()
         Fbeads = 0.5*np.concatenate([np.array(Fb_in) + np.array(DFb_in),
                                      np.array(Fb_in) - np.array(DFb_in)])
-        a = dumbbell_sizes[0]
-        drag_coeff = mu*a
+        a = np.concatenate([dumbbell_sizes, dumbbell_sizes])[:, np.newaxis]
+        drag_coeff = 6*np.pi*mu*a
         Ubeads = Fbeads/drag_coeff
         Nbeads = len(Fbeads)
         (Fa_out, Ta_out, Sa_out, Fb_out, DFb_out) = (
-- 
2.43.0


From a9dd274ae0138c58a57ee8854bc862d03ef29e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:48 +0000
Subject: [PATCH 40/55] fix: compute runs of dumbbells with RPY mobility only

The input form RPY_dumbbells_only was accepted but never computed, so such
a run stopped at the first frame.
---
 stokesian_dynamics/functions/timestepping.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 090e6f7..c1824c1 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -265,6 +265,11 @@ def generate_output_FTSUOE(
 
     force_on_wall_due_to_dumbbells = 0
 
+    if input_form == "RPY_dumbbells_only":
+        # Given forces, and the far-field (RPY) mobility of the beads alone
+        input_form = "fts"
+        use_Minfinity_only = True
+
     if input_form == "stokes_drag_dumbbells_only":
         solve_time_start = time.time()
         Fbeads = 0.5*np.concatenate([np.array(Fb_in) + np.array(DFb_in),
-- 
2.43.0


From 4a1b39cb761084411b494ba3f09058c0fed9a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:29 +0000
Subject: [PATCH 41/55] fix: print R2Bexact as the dense matrix it is

Printing level 2 treated it as a sparse matrix, which stopped the run.
---
 .../functions/generate_grand_resistance_matrix.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index 1181ec5..88da1b6 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -84,7 +84,7 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = time.time() - R2Bexact_start_time
         if printout > 1:
             print("R2Bexact")
-            print(np.array_str(R2Bexact.toarray(), max_line_width=100000))
+            print(np.array_str(R2Bexact, max_line_width=100000))
 
         grand_resistance_matrix = R2Bexact  # shallow copy for better naming
         grand_resistance_matrix += Minfinity_inverse  # in-place addition
-- 
2.43.0


From bf7c803298bec3ee5f265e70dd112d660a081ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 42/55] fix: print Minfinity only in frames which generate it

At printing level 2 a frame which reused the previous Minfinity, or which
used drag only, stopped because there was no Minfinity to print.
---
 .../functions/generate_grand_resistance_matrix.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index 88da1b6..0ac7ae0 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -99,8 +99,9 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = 0
 
     if (printout > 1):
-        print("M infinity")
-        print(np.array_str(Minfinity, max_line_width=100000))
+        if regenerate_Minfinity and not use_drag_Minfinity:
+            print("M infinity")
+            print(np.array_str(Minfinity, max_line_width=100000))
         print("\n\nGrand resistance matrix")
         print(np.array_str(grand_resistance_matrix, max_line_width=100000))
         save_matrix(grand_resistance_matrix, "Grand Resistance Matrix",
-- 
2.43.0


From 30d9095d62bac2460b6dcb4ff02d0f69fa6f427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:12 +0000
Subject: [PATCH 43/55] fix: draw arrows with the matplotlib version the
 package requires

Matplotlib 3.8 asks each 3D patch for its projection and no longer passes the
projection with the renderer, so drawing any arrow stopped the program.
---
 stokesian_dynamics/functions/graphics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 6a9cb06..8262ec0 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -15,11 +15,11 @@ class Arrow3D(FancyArrowPatch):
         FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
         self._verts3d = xs, ys, zs
 
-    def draw(self, renderer):
+    def do_3d_projection(self, renderer=None):
         xs3d, ys3d, zs3d = self._verts3d
-        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
         self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
-        FancyArrowPatch.draw(self, renderer)
+        return np.min(zs)
 
 
 def rotation_matrix(d):
-- 
2.43.0


From df00a940dfc68345c7de8fb6a7d14557290db0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:16 +0000
Subject: [PATCH 44/55] fix: draw every force arrow to the same scale

The forces were enlarged again for each sphere drawn, so the arrow of each
further sphere was six times longer than that of the one before.
---
 stokesian_dynamics/functions/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 8262ec0..fb9959d 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -257,11 +257,11 @@ def plot_all_force_lines(ax, posdata, f_spheres):
     (sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
      dumbbell_positions, dumbbell_deltax) = posdata
     force_lines = force_text = []
+    f_spheres = f_spheres*6  # so we can see it
     for i in range(sphere_sizes.size):
         # Make invisible if hidden
         if ((f_spheres[i, :] != np.array([0, 0, 0])).any()
                 and (sphere_positions[i, 1] < 0.05 and sphere_positions[i, 1] > -1)):
-            f_spheres = f_spheres*6  # so we can see it
             line = Arrow3D([sphere_positions[i, 0],
                             sphere_positions[i, 0]+f_spheres[i, 0]],
                            [sphere_positions[i, 1],
-- 
2.43.0


From b188aa40c4d0ef97b48ef88bc08c1c64164c1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:07 +0000
Subject: [PATCH 45/55] fix: draw dumbbells when plotting saved runs

Both plotting programs still gave the dumbbell drawing function a frame
number, which it no longer takes, so any record with dumbbells failed.
---
 stokesian_dynamics/plotting/make_video.py     | 2 +-
 stokesian_dynamics/plotting/plot_positions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 1c962a9..47417d4 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -276,7 +276,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             sphere_trace_lines, FaX)
     if num_dumbbells > 0:
         (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-            ax, real_frameno, posdata, trace_paths,
+            ax, posdata, trace_paths,
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e3ff14a..dc22526 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -102,7 +102,7 @@ if num_spheres > 0:
         sphere_trace_lines, Fa_out[frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-        ax, frameno, posdata, trace_paths, dumbbell_trace_lines,
+        ax, posdata, trace_paths, dumbbell_trace_lines,
         Fb_out[frameno], DFb_out[frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
-- 
2.43.0


From 0c1033c477ad977a1e4ab035f65651383de93155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:11 +0000
Subject: [PATCH 46/55] fix: read small timesteps from the file name when
 making a video

A timestep written as 1e-05 contains the character the name was split on.
---
 stokesian_dynamics/plotting/make_video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 47417d4..206987c 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -40,7 +40,7 @@ newest = max(glob.iglob(output_folder + '*.[Nn][Pp][Zz]'), key=os.path.getctime)
 filename = newest[len(output_folder):-len(".npz")]
 # Overwrite filename here if you want a specific file
 
-timestep = float(filename.split('-')[4][1:].replace('p', '.'))
+timestep = float(filename.split('-t')[1].split('-M')[0].replace('p', '.'))
 input_number = int(filename.split('-')[2][1:])
 setup_number = int(filename.split('-')[1][1:])
 
-- 
2.43.0


From 0b78575db41c74accc17b4630b16be8894ab2405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:15 +0000
Subject: [PATCH 47/55] fix: end the video with the record when it starts at a
 later frame

---
 stokesian_dynamics/plotting/make_video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 206987c..2815730 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -71,7 +71,7 @@ DFb_out = data1['DFb']
 positions_sphere_rotations = data1['sphere_rotations']
 
 if num_frames_override_end == 0:
-    num_frames = positions_centres.shape[0]//display_every_n_frames
+    num_frames = (positions_centres.shape[0]-num_frames_override_start)//display_every_n_frames
 else:
     num_frames = (num_frames_override_end-num_frames_override_start)//display_every_n_frames
 num_particles = positions_centres.shape[1]
-- 
2.43.0


From 9f848d56a2c14e042d4dea1823a96a28bbb100f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:05 +0000
Subject: [PATCH 48/55] fix: plot frames for which no forces were saved

There are fewer forces than positions in a record: none for the final
positions, and fewer still if forces were saved less often or not at all.
Videos also coloured frames by the wrong forces if not started at frame 0.
---
 stokesian_dynamics/functions/graphics.py      | 10 ++++++++++
 stokesian_dynamics/plotting/make_video.py     | 13 ++++---------
 stokesian_dynamics/plotting/plot_positions.py |  8 +++++---
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index fb9959d..5c65edc 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -358,6 +358,16 @@ def plot_all_angular_velocity_lines(ax, posdata, o_spheres):
     return angular_velocity_lines
 
 
+def forces_at_frame(forces, frameno, num_particles):
+    """Forces saved for a frame. There are none for the final positions, and
+    there may be none for others, if forces were saved less often than
+    positions: use the last ones saved, or zeros if none were saved at all."""
+    if len(forces) == 0:
+        return np.zeros((num_particles, 3))
+    return np.asarray(forces[min(frameno, len(forces) - 1)],
+                      float).reshape(num_particles, 3)
+
+
 def from0topi(n):
     if n < 0:
         return n + np.pi
diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 2815730..6ab6e7b 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -20,7 +20,7 @@ sys.path.append("..")  # Allows importing from SD directory
 from functions.graphics import (plot_all_spheres, plot_all_dumbbells,
                                 plot_all_torque_lines, plot_all_velocity_lines,
                                 plot_all_angular_velocity_lines,
-                                plot_all_force_lines)
+                                plot_all_force_lines, forces_at_frame)
 from functions.timestepping import format_time_left
 from functions.shared import shear_basis_vectors, format_elapsed_time
 from setups.positions import pos_setup
@@ -162,14 +162,9 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
     dumbbell_deltax = positions_deltax[real_frameno, :, :]
 
     no_line = False
-    if frameno == num_frames - 1:
-        FaX = Fa_out[frameno-1]
-        FbX = Fb_out[frameno-1]
-        DFbX = DFb_out[frameno-1]
-    else:
-        FaX = Fa_out[frameno]
-        FbX = Fb_out[frameno]
-        DFbX = DFb_out[frameno]
+    FaX = forces_at_frame(Fa_out, real_frameno, num_spheres)
+    FbX = forces_at_frame(Fb_out, real_frameno, num_dumbbells)
+    DFbX = forces_at_frame(DFb_out, real_frameno, num_dumbbells)
 
     # FOR PERIODIC, let's get it to repeat itself left and right
     (Fa_in, Ta_in, Sa_in, Sa_c_in, Fb_in, DFb_in, Ua_in, Oa_in, Ea_in,
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index dc22526..e470ab8 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -17,7 +17,8 @@ from pylab import rcParams
 sys.path.append("..")  # Allows importing from SD directory
 from functions.graphics import (plot_all_spheres, plot_all_dumbbells,
                                 plot_all_torque_lines, plot_all_velocity_lines,
-                                plot_all_angular_velocity_lines)
+                                plot_all_angular_velocity_lines,
+                                forces_at_frame)
 from functions.shared import add_sphere_rotations_to_positions
 
 
@@ -99,11 +100,12 @@ fig.tight_layout()
 if num_spheres > 0:
     (spheres, sphere_lines, sphere_trace_lines) = plot_all_spheres(
         ax, frameno, posdata, previous_step_posdata, trace_paths,
-        sphere_trace_lines, Fa_out[frameno])
+        sphere_trace_lines, forces_at_frame(Fa_out, frameno, num_spheres))
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
         ax, posdata, trace_paths, dumbbell_trace_lines,
-        Fb_out[frameno], DFb_out[frameno])
+        forces_at_frame(Fb_out, frameno, num_dumbbells),
+        forces_at_frame(DFb_out, frameno, num_dumbbells))
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
     (velocity_lines, velocity_text, sphere_labels) = plot_all_velocity_lines(
-- 
2.43.0


From 8cb8327a539be84cec0f0ea3099ed92d94ac6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:10 +0000
Subject: [PATCH 49/55] fix: draw labels when plotting saved runs

The arrow functions need arrays, with a row for each sphere drawn, and the
forces of the one frame.
---
 stokesian_dynamics/plotting/make_video.py     | 8 ++++----
 stokesian_dynamics/plotting/plot_positions.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 6ab6e7b..38ccd07 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -256,9 +256,9 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
                    dumbbell_sizes, dumbbell_positions, dumbbell_deltax]
         previous_step_posdata = posdata
 
-    Ta_out = [[0, 0, 0] for _ in range(num_spheres)]
-    Oa_out = [[0, 0, 0] for _ in range(num_spheres)]
-    Ua_out = [[0, 0, 0] for _ in range(num_spheres)]
+    Ta_out = np.zeros((len(sphere_positions), 3))
+    Oa_out = np.zeros((len(sphere_positions), 3))
+    Ua_out = np.zeros((len(sphere_positions), 3))
 
     for q in (spheres + force_lines + torque_lines + velocity_lines
               + angular_velocity_lines + sphere_lines + dumbbell_lines
@@ -275,7 +275,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
-        (force_lines, force_text) = plot_all_force_lines(ax, posdata, Fa_out)
+        (force_lines, force_text) = plot_all_force_lines(ax, posdata, FaX)
         torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
         # Velocity in green
         (velocity_lines, velocity_text, sphere_labels) = plot_all_velocity_lines(
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e470ab8..7fdf68d 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -53,9 +53,9 @@ sphere_sizes = np.array([1 for _ in range(num_spheres)])
 dumbbell_sizes = np.array([0.1 for _ in range(num_dumbbells)])
 sphere_rotations = add_sphere_rotations_to_positions(
     sphere_positions, sphere_sizes, np.array([[1, 0, 0], [0, 0, 1]]))
-Ta_out = [[0, 0, 0] for _ in range(num_spheres)]
-Oa_out = [[0, 0, 0] for _ in range(num_spheres)]
-Ua_out = [[0, 0, 0] for _ in range(num_spheres)]
+Ta_out = np.zeros((num_spheres, 3))
+Oa_out = np.zeros((num_spheres, 3))
+Ua_out = np.zeros((num_spheres, 3))
 
 posdata = [sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
            dumbbell_positions, dumbbell_deltax]
-- 
2.43.0


From ccb157e28aafd5eb223531297cb866e3cb23a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:20 +0000
Subject: [PATCH 50/55] fix: let near- and mid-field scalars be combined

The separations are a list once sorted, which has no shape.
---
 find_resistance_scalars/combine_scalars.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index 3dea844..249be47 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -61,9 +61,6 @@ lam_wr_length = lam_range_with_reciprocals.shape[0]
 XYZ_general_human = np.zeros((s_dash_length*lam_wr_length*2,
                               general_scalars_length + 3))
 for s_dash_index, s_dash in enumerate(s_dash_range):
-    s_dash_length = s_dash_range.shape[0]
-    lam_length = lam_range.shape[0]
-    lam_wr_length = lam_range_with_reciprocals.shape[0]
     for lam_wr_index, lam in enumerate(lam_range_with_reciprocals):
         for gam in range(2):
             XYZ_outputline = np.append(
-- 
2.43.0


From 532dba2559faef1aee29d7494bb6e3994afdb4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:24 +0000
Subject: [PATCH 51/55] fix: write the subtracted scalars beside the others

The program is run in its own folder, where the folder it wrote to does not
exist.
---
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 3e69284..96bc435 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -103,7 +103,7 @@ for lam_index, lam in enumerate(lam_range_with_reciprocals):
         XYZd_raw[10, 1, s_dash_index, lam_index] = XYZ_raw[10, 1, s_dash_index, lam_index] - ZM1
 
 # computer readable
-with open('find_resistance_scalars/scalars_general_resistance_d.npy', 'wb+') as outputfile:
+with open('scalars_general_resistance_d.npy', 'wb') as outputfile:
     np.save(outputfile, XYZd_raw)
 
 # human readable
-- 
2.43.0


From c9bfd3a94e352d076f02911a9afff91c47306276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:28 +0000
Subject: [PATCH 52/55] fix: subtract the far field from tables of one
 separation or size ratio

---
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py  | 4 ++--
 .../subtract_R2Binfinitydrag_from_scalars.py                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 96bc435..b96f1d8 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -22,8 +22,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
diff --git a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
index 95e9bfa..197bbdd 100644
--- a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
@@ -26,8 +26,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
-- 
2.43.0


From f2b00db832f5dbbc8c70c2fed99cd6e6610ba8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:31 +0000
Subject: [PATCH 53/55] fix: find size ratios from their reciprocals when
 generating scalars

Taking the reciprocal twice need not give back the same number, as with 0.49.
---
 find_resistance_scalars/generate_scalars_midfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/generate_scalars_midfield.py b/find_resistance_scalars/generate_scalars_midfield.py
index 2b8c66e..fcd64f2 100755
--- a/find_resistance_scalars/generate_scalars_midfield.py
+++ b/find_resistance_scalars/generate_scalars_midfield.py
@@ -433,7 +433,7 @@ for lam_wr_index, lam in enumerate(lam_range_with_reciprocals):
                                           lam**3, lam**3, lam**3])
         lam_scales_m = np.tile(lam_scales_one_line_m, (s_dash_length, 1)).T
 
-        lam_index = np.argwhere(lam_range == (1 / lam))[0, 0]
+        lam_index = np.argwhere(1/lam_range == lam)[0, 0]
         XYZ_general_table[:, 0, :, lam_wr_index] = (XYZ_table[
             (3, 7, 11, 15, 19, 23, 27, 31, 35, 39, 43), :, lam_index]
             * minus_in_B_and_G * lam_scales_r)
-- 
2.43.0


From 23a9d22dd1e78e8a95d2828b4b6a34b06c370c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:40 +0000
Subject: [PATCH 54/55] fix: start random placement of spheres again when there
 is no room left

Spheres are placed one at a time at random. When those already placed left
no room for the next, the search for a place never ended. Setup 5 as shipped
hung in about a quarter of runs.
---
 .../setups/functions_positions.py             | 51 +++++++++++--------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index fecaced..1772143 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -38,26 +38,37 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
                                        random_sphere_sizes])
     print("Randomly distributing " + str(len(random_sphere_sizes))
           + " spheres (using a naive method in Python)... ", end=" ")
-    for i in range(len(random_sphere_sizes)):
-        while True:
-            proposed_sphere_position = random_point_in_box(
-                random_box_bottom_left, random_box_top_right)
-            too_close = 0
-            for j in range(num_current_spheres+i):
-                if overlaps(proposed_sphere_position, sphere_positions_out[j],
-                            random_sphere_sizes[i], all_sphere_sizes[j]):
-                    too_close = too_close + 1
-            if too_close == 0:
-                symbol = '|'
-                if (i+1) % 10 == 0:
-                    symbol = 'X'
-                if (i+1) % 100 == 0:
-                    symbol = 'C'
-                sys.stdout.write(symbol)
-                sys.stdout.flush()
-                break
-        sphere_positions_out = np.append(sphere_positions_out,
-                                         [proposed_sphere_position], axis=0)
+    i = 0
+    failed_attempts = 0
+    while i < len(random_sphere_sizes):
+        proposed_sphere_position = random_point_in_box(
+            random_box_bottom_left, random_box_top_right)
+        too_close = 0
+        for j in range(num_current_spheres+i):
+            if overlaps(proposed_sphere_position, sphere_positions_out[j],
+                        random_sphere_sizes[i], all_sphere_sizes[j]):
+                too_close = too_close + 1
+        if too_close == 0:
+            symbol = '|'
+            if (i+1) % 10 == 0:
+                symbol = 'X'
+            if (i+1) % 100 == 0:
+                symbol = 'C'
+            sys.stdout.write(symbol)
+            sys.stdout.flush()
+            sphere_positions_out = np.append(sphere_positions_out,
+                                             [proposed_sphere_position], axis=0)
+            i = i + 1
+            failed_attempts = 0
+        else:
+            failed_attempts = failed_attempts + 1
+            if failed_attempts == 10000:
+                # The spheres placed so far leave no room for the next one, so
+                # start again.
+                sys.stdout.write(' starting again ')
+                sphere_positions_out = current_sphere_positions
+                i = 0
+                failed_attempts = 0
     print(" succeeded.")
 
     random_sphere_positions = sphere_positions_out[
-- 
2.43.0


From c6498f27dccdf0c8d859d36f5fe688d077b14ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:39 +0000
Subject: [PATCH 55/55] fix: take the current bead_bead_interactions setting
 when compiled code is reused

---
 stokesian_dynamics/functions/generate_Minfinity.py         | 7 +++++--
 .../functions/generate_Minfinity_periodic.py               | 7 +++++--
 stokesian_dynamics/functions/generate_R2Bexact.py          | 6 ++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity.py b/stokesian_dynamics/functions/generate_Minfinity.py
index 7a48eb5..5ff607a 100755
--- a/stokesian_dynamics/functions/generate_Minfinity.py
+++ b/stokesian_dynamics/functions/generate_Minfinity.py
@@ -293,7 +293,8 @@ def generate_Minfinity(posdata, printout=0, frameno=0, mu=1):
     c = 1./(8*pi*mu)
 
     Minfinity = generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes,
-                                        num_spheres, num_dumbbells, c, mu)
+                                        num_spheres, num_dumbbells, c, mu,
+                                        bead_bead_interactions)
 
     if num_dumbbells > 0:
         # This can surely be done more efficiently. See how much time is
@@ -329,7 +330,7 @@ def generate_Minfinity(posdata, printout=0, frameno=0, mu=1):
 
 @njit(cache=True)
 def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
-                            num_dumbbells, c, mu):
+                            num_dumbbells, c, mu, bead_bead_interactions):
     """Helper function for generating Minfinity matrix for nonperiodic domain.
     This function can be Numba-d.
 
@@ -341,6 +342,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
         num_dumbbells: Number of dumbbells
         c: constant, 1/(8 pi mu)
         mu: viscosity
+        bead_bead_interactions: Whether dumbbell beads interact. An argument,
+            as Numba would cache the value of a global.
 
     Returns:
         Minfinity: Minfinity matrix with elements filled in.
diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index f82e207..a24f621 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -917,7 +917,8 @@ def generate_Minfinity_periodic(posdata, box_bottom_left, box_top_right,
                                         lamb, X_lmn, Xdash_lmn, Sdash_lmn,
                                         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K,
                                         num_X_points, num_Xdash_points,
-                                        num_K_points, L)
+                                        num_K_points, L,
+                                        bead_bead_interactions)
 
     if num_dumbbells > 0:
         # Row and column ops I want are equivalent to doing
@@ -951,7 +952,7 @@ def generate_Minfinity_loop(Minfinity, displacements, bead_sizes, num_spheres,
                             num_dumbbells, c, mu,
                             lamb, X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                             K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
-                            num_K_points, L):
+                            num_K_points, L, bead_bead_interactions):
     """Helper function for generating Minfinity matrix for nonperiodic domain.
     This function can be Numba-d.
 
@@ -976,6 +977,8 @@ def generate_Minfinity_loop(Minfinity, displacements, bead_sizes, num_spheres,
         num_Xdash_points: length of Xdash_lmn
         num_K_points: length of K_lmn
         L: Periodic box side length
+        bead_bead_interactions: Whether dumbbell beads interact. An argument,
+            as Numba would cache the value of a global.
 
     Returns:
         Minfinity: Minfinity matrix with elements filled in
diff --git a/stokesian_dynamics/functions/generate_R2Bexact.py b/stokesian_dynamics/functions/generate_R2Bexact.py
index dd82e16..bcff3d6 100644
--- a/stokesian_dynamics/functions/generate_R2Bexact.py
+++ b/stokesian_dynamics/functions/generate_R2Bexact.py
@@ -305,7 +305,7 @@ def generate_R2Bexact(posdata,
     R2Bexact = generate_R2Bexact_loop(
         R2Bexact, bead_sizes, num_spheres, num_dumbbells,
         closer_than_cutoff_pairs_scaled, displacements_pairs_scaled,
-        distances_pairs_scaled, size_ratios)
+        distances_pairs_scaled, size_ratios, bead_bead_interactions)
 
     if num_dumbbells > 0:
         # Row and column ops I want are equivalent to doing
@@ -341,7 +341,7 @@ def generate_R2Bexact(posdata,
 def generate_R2Bexact_loop(R2Bexact, bead_sizes, num_spheres, num_dumbbells,
                            closer_than_cutoff_pairs_scaled,
                            displacements_pairs_scaled, distances_pairs_scaled,
-                           size_ratios):
+                           size_ratios, bead_bead_interactions):
     """Helper function for generating R2Bexact matrix.
     This function can be Numba-d.
 
@@ -355,6 +355,8 @@ def generate_R2Bexact_loop(R2Bexact, bead_sizes, num_spheres, num_dumbbells,
         displacements_pairs_scaled: Displacements of pairs of beads.
         distances_pairs_scaled: Distances between pairs of beads.
         size_ratios: Ratios of bead sizes.
+        bead_bead_interactions: Whether dumbbell beads interact. An argument,
+            as Numba would cache the value of a global.
 
     Returns:
         R2Bexact: R2Bexact matrix with elements filled in, but not yet
-- 
2.43.0

