From 03f81827c8ed53dc7765bdc5d67fb52f5b0a9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 01/60] fix: USL-AFLIP reads and writes affine memory by its
 coupling's solver index

The grid-to-particle step indexed the solver memories by particle body index
although the particle-to-grid step and the builder use the coupling's s_idx.
---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..41b55b5 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -311,7 +311,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -542,7 +542,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 5640b7ebe16574898b51eb22398dc817f6cea4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 02/60] fix: solvers built by SimBuilder index grids and laws
 by registry id

set_solver passed one grid and one law per coupling, but the solvers look them
up with coupling.g_idx and coupling.c_idx, so any scene whose ids differ from
the coupling order used the wrong law or grid or failed.
---
 hydraxmpm/common/builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..77e4f74 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -319,13 +319,9 @@ class SimBuilder:
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
-
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
-        )
+        # couplings refer to grids and laws by their registry index
+        grid_domains = tuple(self.grid_domains)
+        laws = tuple(self.law_logics)
 
         if scheme.lower() == "usl":
             solver = USLSolver(
-- 
2.43.0


From 068c98250b0c020a9c48553aaa74649fc0c8a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 03/60] fix: solver states stay aligned with coupling indices
 for body subsets

couple() hands out s_idx = coupling index, but set_solver appended states in
the order of b_idx_list, so subsets or several solvers misaligned them.
---
 hydraxmpm/common/builder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 77e4f74..64d452c 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -344,7 +344,10 @@ class SimBuilder:
 
         # Here we assume that each coupling maps
         # to one solver state
-        for coupling in couplings:
+        while len(self.solver_states) < len(self.couplings):
+            self.solver_states.add(None)
+
+        for b_idx, coupling in zip(b_idx_list, couplings):
             mp_state = self.particle_states[coupling.p_idx]
 
             if isinstance(mp_state, RigidMaterialPointState):
@@ -352,7 +355,7 @@ class SimBuilder:
             else:
                 solver_state = solver.create_state(mp_state)
 
-            self.solver_states.add(solver_state)
+            self.solver_states[b_idx] = solver_state
 
         s_idx = self.solver_logics.add(solver)
         return s_idx
-- 
2.43.0


From dd40e19efb450049796e2a2af2102522433339cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 04/60] fix: nodal forces accumulate over all bodies sharing a
 grid

The transfer restarted the nodal force from zero for every coupling, so only
the last body's internal and external forces acted on a shared grid.
---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..604c82e 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -493,7 +493,7 @@ class USLSolver(BaseSolver):
             )
 
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(weighted_intern_force_stack + weighted_ext_force_stack)
             )
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 41b55b5..3aef672 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -267,7 +267,7 @@ class USLAFLIP(USLSolver):
                 weighted_moment_stack
             )
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(total_intr_force)
             )
-- 
2.43.0


From f6d9d4ee3ef21c20a5fa939e4eea5dc6169d56fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 05/60] fix: particle volumes of a single-particle body keep
 their particle axis

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 604c82e..6e1c921 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -714,7 +714,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 3aef672..5ebd965 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -507,9 +507,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From 2a1e019a5c7bf8116d9f095c22d77da55b39206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 06/60] fix: USL velocity gradient is v_i d/dx_j, not its
 transpose

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 6e1c921..e6f1d26 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -670,7 +670,7 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ijk", -intr_vels_nt_3d, intr_cache.shape_grads
             )
 
   
-- 
2.43.0


From 3deaaa34160ee1144fd9f20eceb8d091fe6ef6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 07/60] fix: USL accumulates the stored (unreset) deformation
 gradient

---
 hydraxmpm/solvers/usl.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index e6f1d26..bcd8fd8 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -710,6 +710,13 @@ class USLSolver(BaseSolver):
             F_inc = I - p_L * dt
             p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)
 
+            if mp_state.F_store_stack is not None:
+                p_F_store_next = jnp.einsum(
+                    "ijk,ikl->ijl", F_inc, mp_state.F_store_stack
+                )
+            else:
+                p_F_store_next = None
+
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
@@ -722,9 +729,17 @@ class USLSolver(BaseSolver):
                     s.volume_stack,
                     s.F_stack,
                     s.L_stack,
+                    s.F_store_stack,
                 ),
                 mp_state,
-                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L),
+                (
+                    p_velocity_next,
+                    p_position_next,
+                    p_volume_next,
+                    p_F_next,
+                    p_L,
+                    p_F_store_next,
+                ),
             )
             mp_states[c.p_idx] = mp_state
 
-- 
2.43.0


From d9aef5205b0a6723608e0ab7edd97a0555d2723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 08/60] fix: shear reset in plane strain keeps the out-of-plane
 stretch at one

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..6269cee 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -42,7 +42,7 @@ class ConstitutiveLaw(eqx.Module):
             if dim == 2:
 
                 scale = jnp.sqrt(J)
-                return jnp.diag(jnp.array([scale, scale, 0.0]))
+                return jnp.diag(jnp.array([scale, scale, 1.0]))
             else:
                 # 3D cbar element-wise cube root
                 scale = jnp.cbrt(J)
-- 
2.43.0


From c4ee159e95301990f0a55f4b437475093a385e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 09/60] fix: shear reset leaves the stored deformation gradient
 alone

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 6269cee..a9dba2c 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -51,12 +51,7 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
+        new_mp = eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
 
 
         return new_mp
-- 
2.43.0


From 72d504fa9c966489afc034a0df65ace2bd26d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 10/60] fix: APIC (non-MLS) transfer of USL-AFLIP reads its
 kernel and stores the affine matrix with the transfer's sign

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 5ebd965..44ace26 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -409,7 +409,7 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -444,7 +444,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From bf70feae30ca970d0dcb2b39fd662429aa0892d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 11/60] fix: dynamic alpha uses the configured support range

---
 hydraxmpm/solvers/usl_asflip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 44ace26..ef36363 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -471,7 +471,12 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min)
+                    / (self.alpha_support_max - self.alpha_support_min),
+                    0.0,
+                    1.0,
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From 08032ca68355509b2193df699d01af326a9adb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 12/60] fix: generic gather takes the stencil width from the
 mapping

---
 hydraxmpm/shapefunctions/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index ee63ae5..d7e2ee8 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -329,7 +329,7 @@ class ShapeFunctionMapping(eqx.Module):
 
         # accumulate (gather)
         particle_accum = jnp.zeros(
-            (point_ids.shape[0] // cache.window_size, flat_data.shape[1])
+            (point_ids.shape[0] // self.window_size, flat_data.shape[1])
         )
         particle_accum = particle_accum.at[point_ids].add(flat_data)
 
-- 
2.43.0


From 8ef93e065f7b710377fc4bf2aed060c6b07f7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 13/60] fix: element test driver gives the law the volume of
 the new deformation gradient

---
 hydraxmpm/element_tests/driver.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index ac1703d..5dd4d80 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -19,22 +19,20 @@ class ElementTestDriver(eqx.Module):
             else:
                 F_next = jax.scipy.linalg.expm(-L_input * dt) @  mp_state.F_stack
 
-            # we temporarily update L_stack on the particle so the law sees it
+            # update volume/density
+            J = jnp.linalg.det(F_next)
+            
+            vol_next = J * mp_state.volume0_stack
+
+            # we temporarily update the particle so the law sees consistent kinematics
             mp_temp = eqx.tree_at(
-                 lambda m: (m.L_stack, m.F_stack), 
+                 lambda m: (m.L_stack, m.F_stack, m.volume_stack), 
                  mp_state, 
-                 (L_input, F_next)
+                 (L_input, F_next, vol_next)
                  )
-            
-
 
             mp_next, law_next = self.constitutive_law.update(mp_temp, law_state, dt)
             
-            # update volume/density
-            J = jnp.linalg.det(F_next)
-            
-            vol_next = J * mp_state.volume0_stack
-            
             # mass is kept constant (not used for now...)
             mass_next = mp_state.mass_stack 
             
-- 
2.43.0


From 5bc870c814ddd38f46aa2526ccdc100f11798a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 14/60] fix: element test driver honours its is_F_linear_approx
 setting

---
 hydraxmpm/element_tests/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 5dd4d80..3ba99d2 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -13,6 +13,9 @@ class ElementTestDriver(eqx.Module):
 
 
 
+            if is_F_linear_approx is None:
+                is_F_linear_approx = self.is_F_linear_approx
+
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
                 F_next = F_inc @ mp_state.F_stack
-- 
2.43.0


From c0cc2d25800f9e88966dcfc8ddf4d7a397f25121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 15/60] fix: NewtonFluid pressure is positive in compression
 like every other law

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 439a17e..0a7ba64 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -119,8 +119,8 @@ class NewtonFluid(ConstitutiveLaw):
         p = jnp.maximum(p, 0.0) 
 
         # Cauchy stress calculation
-        # sigma = -pI + 2*mu*dev(D)
-        stress = -p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
+        # sigma = pI + 2*mu*dev(D) (compression positive, L = -grad v)
+        stress = p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
 
 
         return stress
-- 
2.43.0


From b0bcc42ce705fd48b4dc48f9c2e4393b98a4c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 16/60] fix: NewtonFluid.create_state passes density and
 pressure to their own parameters

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 0a7ba64..4d3a169 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -81,8 +81,8 @@ class NewtonFluid(ConstitutiveLaw):
         density_initial_stack = material_points.mass_stack/ material_points.volume0_stack
         
         return self.create_state_from_density(
-            material_points.pressure_stack,
-            density_stack=density_initial_stack
+            density_stack=density_initial_stack,
+            pressure_stack=material_points.pressure_stack,
         )
  
 
-- 
2.43.0


From e1bc9e243fd2b99bf7caadeb342d6d6c18bd7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 17/60] fix: ModifiedCamClay.create_state builds one OCR per
 particle

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..9b377f0 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -337,7 +337,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
         mcc_state,*_ = self.create_state_from_ocr(
             p_stack=mp_state.pressure_stack,
-            ocr_stack =jnp.full((mp_state.position_stack.shape[0], 1.0))
+            ocr_stack =jnp.full((mp_state.position_stack.shape[0],), 1.0)
         )
 
         return mcc_state
-- 
2.43.0


From 50dfc865cd5170dd7a4ae887d0e972f160fe6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 18/60] fix: ModifiedCamClay states created from stress or
 density carry their reference stress

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 9b377f0..c619e11 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -285,7 +285,14 @@ class ModifiedCamClay(ConstitutiveLaw):
         density_stack = self.rho_p / specific_volume_stack
 
         eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
-        return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e),density_stack
+        stress_ref_stack = reconstruct_stress_from_triaxial(
+            p_stack=p_stack, q_stack=q_stack
+        )
+        return ModifiedCamClayState(
+            p_c_stack=p_c_stack,
+            stress_ref_stack=stress_ref_stack,
+            eps_e_stack=eps_e,
+        ), density_stack
 
 
     def create_state_from_density(
@@ -327,7 +334,14 @@ class ModifiedCamClay(ConstitutiveLaw):
             eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
             
             # Return same specific volume back confirms it was used
-            return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e), specific_volume_stack
+            stress_ref_stack = reconstruct_stress_from_triaxial(
+                p_stack=p_stack, q_stack=jnp.zeros_like(p_stack)
+            )
+            return ModifiedCamClayState(
+                p_c_stack=p_c_stack,
+                stress_ref_stack=stress_ref_stack,
+                eps_e_stack=eps_e,
+            ), specific_volume_stack
 
     def create_state(
         self,
-- 
2.43.0


From 8c0dcc8a7464fb426d5fa707b820e29c28430101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 19/60] fix: ModifiedCamClay projects an initial shear stress
 only when it lies outside the yield surface

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index c619e11..8fb2368 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = jnp.abs(q_p_inp_stack - q_p_ys_stack)
+            yf_check = q_p_inp_stack - q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0


From 51dd9884d1515d7b0ebe46e001849b697e2b594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 20/60] fix: ModifiedCamClay deviatoric stress is taken with
 the stress's own pressure

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 8fb2368..61978ad 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -433,7 +433,7 @@ class ModifiedCamClay(ConstitutiveLaw):
         K_tr = get_K(self.kap, jnp.maximum(p_tr, self.p_min_calc), self.K_min, self.K_max)
         
         # deviatoric shear trial stress invariant and tensor
-        s_prev = get_dev_stress(stress_prev, pressure=p_prev)
+        s_prev = get_dev_stress(stress_prev)
         deps_e_d_tr = get_dev_strain(deps_next, deps_e_v_tr)
         G_tr = get_G(self.nu, K_tr)
 
-- 
2.43.0


From a234ed01572d25ed6f2430d9d99de0f10ca041d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 21/60] fix: DruckerPrager.get_dt_crit reads the density of the
 material points

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..91afc84 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -208,7 +208,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From fe96fe41bdb3ad99ffc8034ad9dc978ef3b3aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 22/60] fix: objective rate rotates with the material spin, L
 being minus the velocity gradient

---
 hydraxmpm/constitutive_laws/druckerprager.py   | 2 +-
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 91afc84..b81871a 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -127,7 +127,7 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        W = -get_spin_tensor(L)  # material spin (L is compression positive, -grad v)
         deps = D * dt
 
         # objective rate correction (Jaumann)
diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 61978ad..9e29c21 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -399,7 +399,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        W = -get_spin_tensor(L) # material spin (L is compression positive, -grad v)
 
 
         deps_next = D * dt
-- 
2.43.0


From 632ccc0f03d4c88e139903e06ebc0cb887a3f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 23/60] fix: mu(I) shear stress is viscosity times the shear
 rate tensor (twice the deviatoric rate), as in Jop et al.

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..a643e3d 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,7 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From 817b53acc89c84af6b0f91f42ffb32a94683dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 24/60] fix: Drucker-Prager cone return raises the pressure
 under dilatant flow, so it ends on the yield surface

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index b81871a..9fcee13 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -159,7 +159,7 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
-- 
2.43.0


From 232be530a261266d9a7df4c62e8b723a16395f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 25/60] fix: Drucker-Prager apex return accumulates plastic
 strain instead of removing it

---
 hydraxmpm/constitutive_laws/druckerprager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 9fcee13..ae53991 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -184,10 +184,10 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From cfa8fc91c53e174156636c568931d6c25ed7767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 26/60] fix: default particle volume is the cell volume in the
 particles' dimension

---
 hydraxmpm/material_points/material_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 95e5338..ea4b530 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -201,7 +201,7 @@ class MaterialPointState(BaseMaterialPointState):
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
             points_per_cell = kwargs.get("ppc", 4.0)
-            default_volume = (cell_size**2) / points_per_cell
+            default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
         volume0_stack = volume0_stack if volume0_stack is not None else volume_stack
-- 
2.43.0


From c173b6730568ecc2be8fcf95366f95df24fe99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 27/60] fix: MaterialPointState.create reads the documented
 points_per_cell

---
 hydraxmpm/material_points/material_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index ea4b530..3d6f3c0 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -200,7 +200,7 @@ class MaterialPointState(BaseMaterialPointState):
         # Assumes uniform distribution based on cell size and points per cell.
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
-            points_per_cell = kwargs.get("ppc", 4.0)
+            points_per_cell = kwargs.get("points_per_cell", kwargs.get("ppc", 4.0))
             default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
-- 
2.43.0


From e93a7d249d354ddf62ce4fc9331cf7551f80a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 28/60] fix: small strain is compression positive like every
 other strain measure

---
 hydraxmpm/utils/math_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 8ac1291..6588ac3 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -382,8 +382,8 @@ def get_plastic_strain_stack(strain_stack, elastic_strain_stack):
 
 
 def get_small_strain(F):
-    """Get small strain tensor from deformation gradient."""
-    return 0.5 * (F.T + F) - jnp.eye(3)
+    """Get small strain tensor from deformation gradient (compression positive)."""
+    return jnp.eye(3) - 0.5 * (F.T + F)
 
 
 def get_small_strain_stack(F_stack):
-- 
2.43.0


From 408d33683ab140ebfe2ab261b345601054d3557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 29/60] fix: get_scalar_shear_strain passes get_dev_strain an
 argument it does not take

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 6588ac3..75f65bf 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -309,7 +309,7 @@ def get_scalar_shear_strain(
 ):
     """Get scalar shear strain gamma = sqrt(1/2 trace(e_dev @ e_dev.T))."""
     if dev_strain is None:
-        dev_strain = get_dev_strain(strain, volumetric_strain, dim)
+        dev_strain = get_dev_strain(strain, volumetric_strain)
 
     return jnp.sqrt(0.5 * jnp.trace(dev_strain @ dev_strain.T))
 
-- 
2.43.0


From cd5bd8cf38e0dc7ad06334b620cf3f96083fb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 30/60] fix: get_dev_strain_stack calls itself without end

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 75f65bf..d2fcf8b 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -286,7 +286,7 @@ def get_hencky_strain_stack(F_stack):
 
 def get_dev_strain_stack(strain_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
-    return get_dev_strain_stack(strain_stack)
+    return get_dev_strain(strain_stack)
 
 def get_strain_rate_tensor_stack(L_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
-- 
2.43.0


From b9447649d6d1a6dd4655b450a34ee4f4d6ab132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 31/60] fix: unimplemented point quantities return None instead
 of raising

---
 hydraxmpm/material_points/material_points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 3d6f3c0..20e7d68 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -249,7 +249,7 @@ class MaterialPointState(BaseMaterialPointState):
     @property
     def KE_density_stack(self):
         """Kinetic energy density of material points."""
-        NotImplementedError("KE_density_stack property not implemented yet.")
+        raise NotImplementedError("KE_density_stack property not implemented yet.")
         pass
         # return get_KE_stack(self.rho_stack, self.velocity_stack)
 
@@ -269,7 +269,7 @@ class MaterialPointState(BaseMaterialPointState):
     @property
     def q_p_stack(self):
         """Shear stress to pressure ratio of material points."""
-        NotImplementedError("q_p_stack property not implemented yet.")
+        raise NotImplementedError("q_p_stack property not implemented yet.")
         pass
 
     @property
-- 
2.43.0


From 415c0dea88b41a40a2665824aa2f29acc80044a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 32/60] fix: void ratio from the bulk density returned the
 specific volume

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index d2fcf8b..aa7df00 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -519,7 +519,7 @@ def get_phi_from_L(L, phi_prev, dt):
 
 def get_e_from_bulk_density(absolute_density, bulk_density):
     """Get void ratio from absolute and bulk density."""
-    return absolute_density / bulk_density
+    return absolute_density / bulk_density - 1.0
 
 
 def get_phi_from_bulk_density(absolute_density, bulk_density):
-- 
2.43.0


From f405a4ee2d3f4ef8e6a62c13bfe36601b0d035b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 33/60] Revert "fix: element test driver honours its
 is_F_linear_approx setting"

This reverts commit 5bc870c814ddd38f46aa2526ccdc100f11798a6e.
---
 hydraxmpm/element_tests/driver.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 3ba99d2..5dd4d80 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -13,9 +13,6 @@ class ElementTestDriver(eqx.Module):
 
 
 
-            if is_F_linear_approx is None:
-                is_F_linear_approx = self.is_F_linear_approx
-
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
                 F_next = F_inc @ mp_state.F_stack
-- 
2.43.0


From f0630b4b01c7bdd738b25d5790900be0fca9261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 34/60] Revert element test driver changes

---
 hydraxmpm/element_tests/driver.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 5dd4d80..ac1703d 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -19,20 +19,22 @@ class ElementTestDriver(eqx.Module):
             else:
                 F_next = jax.scipy.linalg.expm(-L_input * dt) @  mp_state.F_stack
 
-            # update volume/density
-            J = jnp.linalg.det(F_next)
-            
-            vol_next = J * mp_state.volume0_stack
-
-            # we temporarily update the particle so the law sees consistent kinematics
+            # we temporarily update L_stack on the particle so the law sees it
             mp_temp = eqx.tree_at(
-                 lambda m: (m.L_stack, m.F_stack, m.volume_stack), 
+                 lambda m: (m.L_stack, m.F_stack), 
                  mp_state, 
-                 (L_input, F_next, vol_next)
+                 (L_input, F_next)
                  )
+            
+
 
             mp_next, law_next = self.constitutive_law.update(mp_temp, law_state, dt)
             
+            # update volume/density
+            J = jnp.linalg.det(F_next)
+            
+            vol_next = J * mp_state.volume0_stack
+            
             # mass is kept constant (not used for now...)
             mass_next = mp_state.mass_stack 
             
-- 
2.43.0


From 4f21a19566403277ba25821f188249f87bbd3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 35/60] fix: grids lost their last node to float truncation or
 bounds between nodes

---
 hydraxmpm/grid/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 248473a..62e3c2f 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -9,6 +9,8 @@ Explanation:
     This module contains the `GridState` class which contains the state of the computational grid.
 """
 
+import math
+
 import jax.numpy as jnp
 
 from jaxtyping import Array, Float, UInt
@@ -62,7 +64,8 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        grid_size = tuple(int(s + 1) for s in raw_size)
+        # round up so the padded end is covered, ignoring float noise in the division
+        grid_size = tuple(math.ceil(s - 1e-6) + 1 for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From 9a21a0f613e5456615e6e17f48bc1eb541b306b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 36/60] fix: particle-side gravity indexed the bodies with an
 attribute that does not exist

---
 hydraxmpm/forces/gravity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From 81235b74b30640fe32fd6b54a03c978e305edd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 37/60] fix: hollow cylinder in 3D extends half its height to
 either side of its centre

---
 hydraxmpm/sdf/sdfcollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..c74b017 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -170,7 +170,7 @@ class HollowCylinderSDF(SDFObjectBase):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
             r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From 87cc501ea92732a89d813d9c3d11039e2af3610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 38/60] fix: GridContact uses the step's grids and grid domains
 (deformable contact raised TypeError/AttributeError)

---
 hydraxmpm/forces/gridcontact.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/hydraxmpm/forces/gridcontact.py b/hydraxmpm/forces/gridcontact.py
index b07236d..ad9dfaf 100644
--- a/hydraxmpm/forces/gridcontact.py
+++ b/hydraxmpm/forces/gridcontact.py
@@ -48,7 +48,7 @@ class GridContact(Force):
     
     # stability
     mass_ratio_limit: float = eqx.field(static=True, default=2.0)
-    def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, dt, time):
+    def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
         """"
         Apply grid contact between two grids.
         """
@@ -59,8 +59,9 @@ class GridContact(Force):
         p_idx_receiver = couplings[self.couple_idx_receiver].p_idx
         g_idx_receiver = couplings[self.couple_idx_receiver].g_idx
 
-        grid_state_act = world.grids[g_idx_actor] 
-        grid_state_rec = world.grids[g_idx_receiver]
+        grid_state_act = sim_cache.grids[g_idx_actor]
+        grid_state_rec = sim_cache.grids[g_idx_receiver]
+        grid_domain_act = grid_domains[g_idx_actor]
 
         # Buffers for actor quantities (Mass, Momentum, Normal)
         # We work on copies/buffers because we might alter rigid Body data
@@ -104,11 +105,7 @@ class GridContact(Force):
             # act_normal_stack = -self._compute_mass_gradient(grid_state_act)
             particle_cloud = MaterialPointCloudSDF(smooth_k=0.0)
             
-            indices = jnp.indices(grid_state_act.grid_size, dtype=jnp.float32)
-            coords = jnp.moveaxis(indices, 0, -1) * grid_state_act.cell_size + jnp.array(
-                grid_state_act.origin
-            )
-            flat_coords = coords.reshape(-1, grid_state_act.dim)
+            flat_coords = grid_domain_act.position_stack
 
             dis_stack = particle_cloud.get_signed_distance_stack(
                 flat_coords,
@@ -131,7 +128,7 @@ class GridContact(Force):
             dis_stack
         )
 
-        new_grids = list(world.grids)
+        new_grids = list(sim_cache.grids)
         
         # always update receiver moments
         new_grids[g_idx_receiver] = eqx.tree_at(
@@ -143,9 +140,9 @@ class GridContact(Force):
             new_grids[g_idx_actor] = eqx.tree_at(
                 lambda g: g.moment_nt_stack, grid_state_act, new_act_mom
             )
-        world =  eqx.tree_at(
-            lambda w: (w.grids,),
-            world,
+        sim_cache = eqx.tree_at(
+            lambda s: (s.grids,),
+            sim_cache,
             (tuple(new_grids),),
         )
         return world, mechanics, sim_cache
-- 
2.43.0


From 50934a70510da22233c344440396b02e881dfc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 39/60] fix: add_sdf_collider registers a force state, so later
 forces find theirs

---
 hydraxmpm/common/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 64d452c..dc93364 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -442,6 +442,7 @@ class SimBuilder:
         )
 
         f_idx = self.force_logics.add(sdf_collider)
+        self.force_states.append(None)
 
         return f_idx
 
-- 
2.43.0


From c3d85cd17fcb9bea390c27372a6c37f7b7f3c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 40/60] fix: add_sdf_collider passes its friction on (default
 keeps the walls' own friction)

---
 hydraxmpm/common/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index dc93364..349ded3 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -423,7 +423,7 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
         """Convenience method for adding objects."""
@@ -439,6 +439,7 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
-- 
2.43.0


From e6dad7b1e4cc92a8e1b8d3865846eb442fcfa4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 41/60] fix: USL step with obstacles works for bodies of a
 single particle

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index bcd8fd8..72ef567 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -616,7 +616,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists.reshape(-1)
                         for s in range(num_sdfs)
                     ]
                 )
-- 
2.43.0


From 173dd325367d014351955ddfabc565a9b1f520f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 42/60] fix: set_solver rejects unknown schemes instead of
 raising UnboundLocalError

---
 hydraxmpm/common/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 349ded3..eb78ffc 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -341,6 +341,8 @@ class SimBuilder:
                 grid_domains=grid_domains,
                 **solver_params,
             )
+        else:
+            raise ValueError(f"Unknown solver scheme: {scheme}")
 
         # Here we assume that each coupling maps
         # to one solver state
-- 
2.43.0


From b134c63532759d31ba6c03b70797b7510a35248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 43/60] fix: particle gravity and damping skip rigid bodies by
 default

add_gravity/add_damping with is_apply_on_grid=False selected every body,
including rigid ones, which have no force_stack: every step raised
AttributeError.
---
 hydraxmpm/common/builder.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index eb78ffc..d095277 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -247,8 +247,15 @@ class SimBuilder:
         g_idx_list = (
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
+        # rigid bodies are not solved for and carry no particle forces
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            [
+                i
+                for i, mp_state in enumerate(self.particle_states)
+                if not isinstance(mp_state, RigidMaterialPointState)
+            ]
+            if p_idx_list is None
+            else p_idx_list
         )
 
         f_idx = len(self.force_logics)
@@ -275,8 +282,15 @@ class SimBuilder:
         g_idx_list = (
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
+        # rigid bodies are not solved for and carry no particle forces
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            [
+                i
+                for i, mp_state in enumerate(self.particle_states)
+                if not isinstance(mp_state, RigidMaterialPointState)
+            ]
+            if p_idx_list is None
+            else p_idx_list
         )
 
         f_idx = len(self.force_logics)
-- 
2.43.0


From f14245b80820eddd1b4a764e1e7b118852694023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 44/60] fix: accept the documented tuple in add_gravity

The annotation allows a tuple, but it was passed on unconverted and
rejected by Gravity.create_state.
---
 hydraxmpm/common/builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index d095277..b469e09 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -266,7 +266,9 @@ class SimBuilder:
             f_idx=f_idx,
         )
         f_idx = self.force_logics.add(gravity_force)
-        self.force_states.append(gravity_force.create_state(gravity=gravity))
+        self.force_states.append(gravity_force.create_state(
+            gravity=jax.numpy.asarray(gravity, dtype=float)
+        ))
 
         return f_idx
 
-- 
2.43.0


From b742e930f60d90678cb552da1ad120932de25af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 45/60] fix: regular particle generation scales the in-cell
 offsets by the cell size

Offsets are fractions of a cell but were added unscaled to grid
coordinates, so for cell_size != 1 particles were shifted out of their
cells and most of the shape stayed empty.
---
 hydraxmpm/utils/generate_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 351621b..fab6bce 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -74,7 +74,7 @@ def generate_particles_in_sdf(
         # offsets has shape  (1, N_offsets, dim)
         # gives shifted origins and we reshape (N_cells * N_offsets, dim)
         candidate_point_stack = (
-            grid_origins_flat[:, None, :] + offsets[None, :, :]
+            grid_origins_flat[:, None, :] + offsets[None, :, :] * cell_size
         ).reshape(-1, dim)
 
     dists = sdf_obj.get_signed_distance_stack(sdf_state, candidate_point_stack)
-- 
2.43.0


From dd80219e3d18793167310acbccfd596beea1ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 46/60] fix: implement the documented gauss_legendre particle
 generation

The mode was accepted but left the offsets unset (TypeError).
---
 hydraxmpm/utils/generate_body.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index fab6bce..2b42343 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -55,19 +55,23 @@ def generate_particles_in_sdf(
         meshes = jnp.meshgrid(*id_ranges, indexing="ij")
 
         grid_origins_flat = jnp.stack(meshes, axis=-1).reshape(-1, dim) * cell_size
-        offsets = None
+        # Do linear subdivision: e.g., ppc=4 (2D) -> 2x2 grid inside cell
+        pts_per_dim = int(np.ceil(ppc ** (1 / dim)))
 
         if mode == "regular":
 
-            # Do linear subdivision: e.g., ppc=4 (2D) -> 2x2 grid inside cell
-            pts_per_dim = int(np.ceil(ppc ** (1 / dim)))
-
             # Linspace from 0 to 1 to shift center points
             # e.g., 2 points -> [0.25, 0.75]
             lin = jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]
+        else:
+
+            # quadrature points of [-1, 1] mapped to [0, 1]
+            lin = jnp.array(
+                0.5 * (np.polynomial.legendre.leggauss(pts_per_dim)[0] + 1.0)
+            )
 
-            offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
-            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
+        offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
+        offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
 
         # Perform a broadcast add
         # grid_origins_flat has shape (N_cells, 1, dim)
-- 
2.43.0


From a75dbf1d665f5f441f9fcd0674b44052545767fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 47/60] fix: generate_particles_in_sdf defaults to a mode that
 exists and rejects unknown ones

The default "uniform" and the documented "rejection" matched no branch
and failed later with an unrelated error. Random (rejection) sampling is
the documented behaviour of the function, so it is the default.
---
 hydraxmpm/utils/generate_body.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 2b42343..51583c4 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -14,7 +14,7 @@ def generate_particles_in_sdf(
     center_of_mass=None,
     rotation=None,
     shapefunction="cubic",
-    mode="uniform",
+    mode="random",
     cell_size=None,  # For 'regular'/'gauss_legendre' modes
     ppc=None,  # For 'regular'/'gauss_legendre' modes
 ):
@@ -22,7 +22,7 @@ def generate_particles_in_sdf(
     Generates particles inside the SDF using Rejection Sampling.
 
     mode options:
-    "rejection" - rejection sampling monte carlo
+    "random" (or "rejection") - rejection sampling monte carlo
     "regular" - uniform grid sampling (requires cell_size and ppc)
     "gauss_legendre - gauss legendre quadrature sampling (requires cell_size and ppc)
     """
@@ -36,7 +36,7 @@ def generate_particles_in_sdf(
         )
 
     candidate_point_stack = None
-    if mode == "random":
+    if mode in ["random", "rejection"]:
         if num_particles is None or key is None:
             raise ValueError("Mode 'random' requires 'num_particles' and 'key'.")
 
@@ -80,6 +80,8 @@ def generate_particles_in_sdf(
         candidate_point_stack = (
             grid_origins_flat[:, None, :] + offsets[None, :, :] * cell_size
         ).reshape(-1, dim)
+    else:
+        raise ValueError(f"Unknown particle generation mode: {mode}")
 
     dists = sdf_obj.get_signed_distance_stack(sdf_state, candidate_point_stack)
     mask = dists < 0.0
-- 
2.43.0


From 6973524422c2dfb3b33b0373373f8e4fb57c6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 48/60] fix: reject unsupported dimensions when the shape
 function mapping is created

---
 hydraxmpm/shapefunctions/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index d7e2ee8..771f0ec 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -113,6 +113,9 @@ class ShapeFunctionMapping(eqx.Module):
         shapefunction: str,
         dim: int,
     ):
+        if dim not in (2, 3):
+            raise ValueError(f"Unsupported dimension: {dim} (2 or 3 required)")
+
         self.dim = dim
         self._padding = (0, 3 - dim)
 
-- 
2.43.0


From 06e7c5ee5b2e4269856e00e5ac5f66c1757459b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 49/60] fix: a shape without a bounding box says so when its
 centre is omitted, instead of a TypeError

---
 hydraxmpm/sdf/sdfobject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/sdf/sdfobject.py b/hydraxmpm/sdf/sdfobject.py
index 1dd1c4f..90a5450 100644
--- a/hydraxmpm/sdf/sdfobject.py
+++ b/hydraxmpm/sdf/sdfobject.py
@@ -140,8 +140,10 @@ class SDFObjectBase(eqx.Module):
     def get_local_aabb(self, sdf_state:SDFObjectState) -> Tuple[Array, Array]:
         raise NotImplementedError
     
-    def get_world_aabb(self, sdf_state) -> Tuple[Array, Array]:
-        raise NotImplementedError
+    def get_world_aabb(self, sdf_state=None) -> Tuple[Array, Array]:
+        raise NotImplementedError(
+            f"{type(self).__name__} has no bounding box, give its center_of_mass explicitly."
+        )
     
     def get_normal(self, sdf_state: SDFObjectState, pos_world: Float[Array, "dim"]) -> Float[Array, "dim"]:
         """
-- 
2.43.0


From 72c9df3298e055d958882b33db3c25c990de8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 50/60] fix: static obstacle surfaces can be written without a
 step number

---
 hydraxmpm/common/vtk_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 3a086dd..812fdfb 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -212,4 +212,4 @@ class VTKVisualizer:
 
                 suffix = f"step_{int(step):05d}" if step is not None else "static"
                 # Standardized save via your _save_vtk method
-                path = self._save_vtk(mesh, label, f"step_{int(step):05d}.vtp")
\ No newline at end of file
+                path = self._save_vtk(mesh, label, f"{suffix}.vtp")
\ No newline at end of file
-- 
2.43.0


From 99de6400b9c98faafd14e5d9b4777d209953ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 51/60] fix: particles can be written without a property

---
 hydraxmpm/common/vtk_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 812fdfb..68fc310 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -70,6 +70,7 @@ class VTKVisualizer:
 
         _point_radius = _point_radius * scale_radius
         
+        prop_data = None
         if property_name is not None:
             prop_data = getattr(mp_state, property_name, None)
         if positions.shape[1] == 2:
@@ -81,10 +82,10 @@ class VTKVisualizer:
 
         # print(prop_data.mean())
 
-        prop_data = np.array(prop_data)
         # print(prop_data.shape)
 
         if prop_data is not None:
+            prop_data = np.array(prop_data)
             if len(prop_data.shape) > 1:
                 if  prop_data.shape[1] == 2:
                     zeros = np.zeros((prop_data.shape[0], 1))
@@ -94,7 +95,8 @@ class VTKVisualizer:
 
         cloud = pv.PolyData(positions_3d)
 
-        cloud.point_data[property_name] = prop_data
+        if prop_data is not None:
+            cloud.point_data[property_name] = prop_data
 
         cloud.point_data["Radius"] = np.full(len(positions), _point_radius)
         
-- 
2.43.0


From 6cc5caa699cfbe0302f145ba6d66cbff2eaff628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 52/60] fix: the save mode of the Rerun visualizer also records
 when it is the first one created

---
 hydraxmpm/common/rerun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 2f4af76..4958a6e 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -134,7 +134,9 @@ class RerunVisualizer:
         self.root_path = root_path
 
         # Serve viewer once
-        if not RerunVisualizer._viewer_started:
+        if mode == "save":
+            rr.save("simulation.rrd")
+        elif not RerunVisualizer._viewer_started:
             if mode == "spawn":
                 rr.spawn()
             elif mode == "serve":
@@ -142,8 +144,6 @@ class RerunVisualizer:
 
             # Mark as started so we don't open a second window next time
             RerunVisualizer._viewer_started = True
-        elif mode == "save":
-            rr.save("simulation.rrd")
 
         if is_3d:
             view = rrb.Spatial3DView(
-- 
2.43.0


From 5c647fc0e8e8f56420b41441081e1838d470b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 53/60] fix: the loader of saved simulations is exported with
 the recorder, and the documented usage names it

---
 hydraxmpm/__init__.py      | 2 +-
 hydraxmpm/common/sim_io.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/__init__.py b/hydraxmpm/__init__.py
index cece8c5..4596188 100644
--- a/hydraxmpm/__init__.py
+++ b/hydraxmpm/__init__.py
@@ -36,7 +36,7 @@ try:
 except ImportError:
     VTKVisualizer = None
 
-from .common.sim_io import SimIO
+from .common.sim_io import SimIO, load_simulation
 
 from .grid.grid import GridDomain
 
diff --git a/hydraxmpm/common/sim_io.py b/hydraxmpm/common/sim_io.py
index af5e78f..02ccf67 100644
--- a/hydraxmpm/common/sim_io.py
+++ b/hydraxmpm/common/sim_io.py
@@ -29,7 +29,7 @@ class SimIO:
     Initialize within a directly relative to current file. Then save the solver logic and
     metadata once at the start of the simulation.
     ```python
-    recorder = SimIO(output_dir="sim_data", relative_to=__file__, overwrite=True)
+    recorder = SimIO(output_dir="sim_data", relative_dir=__file__, overwrite=True)
     recorder.save_solver(solver, meta_info={"description": "Test simulation"})  
     ```
 
@@ -49,8 +49,7 @@ class SimIO:
 
         #... build script logic to create skeletons
 
-        recorder = SimIO(output_dir="sim_data", relative_to=__file__)
-        sim_state = recorder.load_simulation(directory="sim_data", 
+        solver, sim_state = load_simulation(directory="sim_data", 
                                             solver_skeleton=solver_skeleton,
                                             state_skeleton=state_skeleton,
                                             step=100)
@@ -64,7 +63,7 @@ class SimIO:
         Create `SimIo` object to save files
         Args:
             output_dir: Folder to save .eqx files.
-            relative_to: Pass __file__ to save relative to the script.
+            relative_dir: Pass __file__ to save relative to the script.
             overwrite: If True, deletes the folder before starting (be careful!).
 
 
-- 
2.43.0


From 22789f44dfca6d2d92ded9cdd6c75b011ce36efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 54/60] fix: obstacle normals stay finite where the distance
 has a kink

---
 hydraxmpm/sdf/sdfcollection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index c74b017..7658606 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -79,7 +79,7 @@ class SphereSDF(SDFObjectBase):
         self, state: SDFObjectState, p_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         # length(p) - r
-        return jnp.linalg.norm(p_local) - self.radius
+        return safe_norm(p_local) - self.radius
 
     def signed_distance(
         self, state: SDFObjectState, pos_world: Float[Array, "dim"]
@@ -169,14 +169,14 @@ class HollowCylinderSDF(SDFObjectBase):
     def signed_distance_local(self, state, pos_local):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
-            r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
+            r = safe_norm(pos_local[jnp.array([0, 2])])
             d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
                 # Radial distance is magnitude of vector (x,y)
                 r_xz = jnp.abs(pos_local[0])
-                r = jnp.linalg.norm(pos_local)
+                r = safe_norm(pos_local)
 
                 # Height is irrelevant/infinite for a 2D ring shape
                 d_y = -1e9
@@ -271,7 +271,7 @@ class TorusSDF(SDFObjectBase):
         q = jnp.array([q_x, q_y])
 
         # Distance from the circle is the norm minus tube radius
-        return jnp.linalg.norm(q) - self.minor_r
+        return safe_norm(q) - self.minor_r
 
 
 class StarSDF(SDFObjectBase):
@@ -350,7 +350,7 @@ class StarSDF(SDFObjectBase):
 
         # Distance vector
         dist_vec = p_wedge - closest
-        dist = jnp.linalg.norm(dist_vec)
+        dist = safe_norm(dist_vec)
 
         # sign Correction (Inside vs Outside)
         cross = edge[0] * (p_wedge[1] - v1[1]) - edge[1] * (p_wedge[0] - v1[0])
@@ -530,7 +530,7 @@ class MaterialPointCloudSDF(SDFObjectBase):
             radii_particles = (3.0 * volumes / (4.0 * jnp.pi)) ** (1.0 / 3.0)
 
         diff = p_world - position_stack
-        dists = jnp.linalg.norm(diff, axis=-1) - radii_particles
+        dists = safe_norm(diff, axis=-1) - radii_particles
 
         if self.smooth_k > 1e-3:
             return -jax.nn.logsumexp(-self.smooth_k * dists) / self.smooth_k
-- 
2.43.0


From b4bf42dd54d83b3eb6f2ef05faf53b797eaeea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 55/60] fix: clamped scalar inverse is finite at zero

---
 hydraxmpm/utils/math_helpers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index aa7df00..f135076 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -602,12 +602,8 @@ def safe_inv_scalar_clamped(d, gradient_clip_val=1e6):
     inv_d = 1.0 / d_safe
 
     # 2. Gradient Clipping Trick so the derivative does not explode.
-    true_grad = -1.0 / (d_safe * d_safe)
-
-    grad_mag = jnp.abs(true_grad)
-    scale = jnp.minimum(1.0, gradient_clip_val / (grad_mag + 1e-12))
-
-    effective_grad = true_grad * scale
+    # (1/d^2 overflows for tiny d, so it is clipped directly: no inf * 0)
+    effective_grad = -jnp.minimum(1.0 / (d_safe * d_safe), gradient_clip_val)
 
     # 3. Construct the output with modified gradients
     # Use stop_gradient to treat 'effective_grad' as a constant slope.
-- 
2.43.0


From 449d25077d662f6a473b5bb461c095dfb9d2a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 56/60] fix: Cam-clay pressure floors follow p_min_calc instead
 of one pascal

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 9e29c21..b350531 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -69,7 +69,6 @@ def get_s(deps_e_d, G, s_prev):
 
 def get_K(kap, p, K_min=None, K_max=None):
     """Get pressure dependent bulk modulus"""
-    p = jnp.clip(p, 1.0, None)
     K = (1.0 / kap) * (p)
     K = jnp.clip(K, K_min, K_max)
     return K
@@ -473,7 +472,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
                 p_next = get_pressure_mcc(deps_e_v_tr_safe - deps_p_v, self.kap, p_prev_safe)
 
-                K_next = get_K(self.kap, p_next, self.K_min, self.K_max)
+                K_next = get_K(self.kap, jnp.maximum(p_next, self.p_min_calc), self.K_min, self.K_max)
 
                 G_next = get_G(self.nu, K_next)
 
@@ -530,7 +529,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
                 # Prevent negative plastic multiplier i
                 x_new = x_new.at[0].set(jnp.maximum(x_new[0], 0.0))
-                x_new = x_new.at[1].set(jnp.maximum(x_new[1], 0.0))
+                x_new = x_new.at[1].set(jnp.maximum(x_new[1], jnp.log(self.p_min_calc)))
                 return x_new, None
 
             x_init = jnp.array([0.0, u_p_c_prev])
-- 
2.43.0


From 9a8a00677faeeeed863abe9fba24f9fafae2b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 57/60] fix: sample obstacle surfaces over the whole view
 domain, whatever the sign of its coordinates

---
 hydraxmpm/common/rerun.py  | 2 +-
 hydraxmpm/common/vtk_io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 4958a6e..a0e2c67 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -324,7 +324,7 @@ class RerunVisualizer:
         end = np.array(end)
         start = np.array(start)
         # Here we generate a bunch of points in the domain
-        domain_size = end * 1.05 - start * 0.95
+        domain_size = (end - start) * 1.05
         step_size = np.max(domain_size) / resolution
 
         aspect_size = np.ceil(domain_size / step_size).astype(int)
diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 68fc310..475ac39 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -153,7 +153,7 @@ class VTKVisualizer:
             end = np.array(end)
             
             # Setup sampling grid
-            domain_size = end * 1.05 - start * 0.95
+            domain_size = (end - start) * 1.05
             step_size = np.max(domain_size) / resolution
             aspect_size = np.ceil(domain_size / step_size).astype(int)
             
-- 
2.43.0


From 4947fcc3390847d96654cc189a66265087521741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:09 +0000
Subject: [PATCH 58/60] fix: surface normals of the 3D live view belong to the
 same axes as the vertices

---
 hydraxmpm/common/rerun.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index a0e2c67..7bf291c 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -377,21 +377,17 @@ class RerunVisualizer:
 
                 verts, faces, normals, _ = measure.marching_cubes(sdf_grid, level=0.0)
 
-                # skimage returns (row/y, col/x, slice/z)
+                # skimage returns vertices and normals in the order of the array axes (x, y, z)
                 world_x = start[0] + verts[:, 0] * step_size
                 world_y = start[1] + verts[:, 1] * step_size
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # Fix Normal permutation (skimage normals align with index axes Y, X, Z)
-                # We need X, Y, Z
-                world_normals = normals[:, [1, 0, 2]]
-
                 rr.log(
                     f"{self.root_path}/{label}",
                     rr.Mesh3D(
                         vertex_positions=world_verts,
-                        vertex_normals=world_normals,
+                        vertex_normals=normals,
                         triangle_indices=faces,
                         albedo_factor=[255, 165, 0, 128],  # Orange
                     ),
-- 
2.43.0


From 93b5a8737ec677c15d894e7d13682a297a76b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:20 +0000
Subject: [PATCH 59/60] fix: the serve mode of the Rerun visualizer uses the
 serving functions Rerun has

---
 hydraxmpm/common/rerun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 7bf291c..100dcbf 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -140,7 +140,7 @@ class RerunVisualizer:
             if mode == "spawn":
                 rr.spawn()
             elif mode == "serve":
-                rr.serve(open_browser=False, server_addr="0.0.0.0")
+                rr.serve_web_viewer(open_browser=False, connect_to=rr.serve_grpc())
 
             # Mark as started so we don't open a second window next time
             RerunVisualizer._viewer_started = True
-- 
2.43.0


From fbb1237c0ca9f58cafc7b860874f864c4a852956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 60/60] fix: a Rerun visualizer that opens no viewer does not
 keep later ones from opening theirs

---
 hydraxmpm/common/rerun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 100dcbf..9573ba5 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -136,7 +136,7 @@ class RerunVisualizer:
         # Serve viewer once
         if mode == "save":
             rr.save("simulation.rrd")
-        elif not RerunVisualizer._viewer_started:
+        elif mode in ("spawn", "serve") and not RerunVisualizer._viewer_started:
             if mode == "spawn":
                 rr.spawn()
             elif mode == "serve":
-- 
2.43.0

