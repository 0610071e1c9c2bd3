U, A, B = "solvers/usl.py", "solvers/usl_asflip.py", "common/builder.py"
MC, DP, MI, NF, CL = ("constitutive_laws/%s.py" % n for n in ("modifiedcamclay", "druckerprager", "mu_i_rheology", "newtonfluid", "constitutive_law"))
MP, IO, MAP, GC, SC, GR = "material_points/material_points.py", "common/sim_io.py", "shapefunctions/mapping.py", "forces/gridcontact.py", "forces/sdf_collider.py", "forces/gravity.py"
M = [
 # ---- step / routing
 ("f_conncache", "C04 C01 C03", U, """        for c in self.couplings:

            sim_cache.interactions[(c.p_idx, c.g_idx)] = c.shape_map.compute(""", """        for c in self.couplings:
            key = (c.p_idx, c.g_idx)
            if key in _CONN:
                sim_cache.interactions[key] = _CONN[key]
                continue

            _CONN[key] = sim_cache.interactions[key] = c.shape_map.compute(""", U, "class USLSolver(", "_CONN = {}\n\n\nclass USLSolver("),
 ("f_p2g_once_body", "C02 C01", U, """            mp_state = mp_states[c.p_idx]
            grid_cache = grids[c.g_idx]
            intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]

            \"\"\"Particle""", """            mp_state = mp_states[c.p_idx]
            grid_cache = sim_cache.grids[c.g_idx]
            intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]

            \"\"\"Particle"""),
 ("f_active_sorted", "C01 C02 C03", U, """        for c in self.couplings:
            if c.skip_mpm_logic:
                continue

            grid_cache = grids[c.g_idx]

            grid_moment_nt_stack""", """        for c in self.couplings[: len(grids)]:
            if c.skip_mpm_logic:
                continue

            grid_cache = grids[c.g_idx]

            grid_moment_nt_stack"""),
 ("f_int_inplace", "C02 C03 C20", U, """grid_cache.moment_stack + grid_cache.force_stack * dt
            grid_cache""", """jnp.where(grid_cache.moment_nt_stack == 0.0, grid_cache.moment_stack, grid_cache.moment_nt_stack) + grid_cache.force_stack * dt
            grid_cache"""),
 ("f_rigid_break", "C01 C03", U, """            if c.skip_mpm_logic:
                continue

            mp_state = mp_states[c.p_idx]
            constitutive_law_state""", """            if c.skip_mpm_logic:
                break

            mp_state = mp_states[c.p_idx]
            constitutive_law_state"""),
 ("f_closest_reshape", "C01 C18 C15 C10", U, "sim_cache.mp_geoms[(c.p_idx, s)].normals for s in range(num_sdfs)]", "sim_cache.mp_geoms[(c.g_idx, s)].normals for s in range(num_sdfs)]"),
 ("f_F_order", "C12 C19", U, """p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)""", """p_F_next = jnp.einsum("ijk,ikl->ijl", mp_state.F_stack, F_inc)"""),
 ("f_Fstore_from_F", "C12", A, """p_F_store_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_store_stack)""", """p_F_store_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)"""),
 ("f_pin_F22_before", "C22 C12", U, """            if grid_cache.dim == 2:
                p_F_next = p_F_next.at[:, 2, 2].set(1.0)

            J = jnp.linalg.det(p_F_next)""", """            J = jnp.linalg.det(p_F_next)
            if mp_state.dim == 2:
                p_F_next = p_F_next.at[:, 2, :2].set(0.0).at[:, 2, 2].set(1.0)
"""),
 ("f_reset_coupled_grid", "C03", U, "active_particles_ids = set(c.p_idx for c in self.couplings)", "active_particles_ids = set(c.p_idx for c in self.couplings if c.g_idx in self.active_g_ids[:1])"),
 ("f_time_step", "C03", U, "        time = time + dt\n", "        time = (state.step + 1) * dt\n"),
 ("f_asflip_alpha_pos", "C20", A, "correction_term = self.alpha * beta_p[:, None] * vel_adj", "correction_term = dynamic_alpha * beta_p[:, None] * vel_adj"),
 ("f_asflip_cfl_pos", "C20", A, "speed = jnp.linalg.norm(p_velocity_next, axis=1, keepdims=True)", "speed = jnp.max(jnp.abs(p_velocity_next), axis=1, keepdims=True)"),
 ("f_asflip_Dp", "C20 C14", A, """                if c.shape_map.shapefunction == "cubic":
                    coeff""", """                if self.couplings[0].shape_map.shapefunction == "cubic":
                    coeff"""),
 ("f_asflip_bp_cut", "C20 C22", A, """            solver_states[c.s_idx] = eqx.tree_at(
                lambda s: s.Bp_stack, solver_state, p_Bp
            )""", """            solver_states[c.s_idx] = eqx.tree_at(
                lambda s: s.Bp_stack, solver_state, p_Bp * clamp_factor[:, :, None]
            )"""),
 ("f_asflip_support", "C20", A, "support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)", "support_ratio = p_mass_support / (jnp.mean(mp_state.mass_stack) + 1e-9)"),
 ("f_asflip_nodyn", "C20 C13", A, """            else:
                dynamic_alpha = self.alpha
""", """            else:
                dynamic_alpha = 1.0 - self.alpha
"""),
 ("f_asflip_vel_adj", "C20", A, "vel_adj = mp_state.velocity_stack - p_vel\n", "vel_adj = mp_state.velocity_stack - jnp.where(p_vel_nt == 0.0, 0.0, p_vel)\n"),
 ("f_asflip_aff_dim", "C05 C20 C22", A, "affine_vel = jnp.einsum(\"nij,nj->ni\", intr_Bp, dist_vec_phys)", "affine_vel = jnp.einsum(\"nji,nj->ni\", intr_Bp, dist_vec_phys)"),
 # ---- builder
 ("f_couple_skip", "C17", B, "skip_mpm_logic = isinstance(mp_state, RigidMaterialPointState)", "skip_mpm_logic = isinstance(self.particle_states[-1], RigidMaterialPointState)"),
 ("f_couple_sidx", "C17 C01", B, "s_idx = couple_idx  # assume one-to-one mapping to solver state", "s_idx = sum(not c.skip_mpm_logic for c in self.couplings)"),
 ("f_damp_fidx", "C17 C24", B, """        f_idx = len(self.force_logics)
        damping_force""", """        f_idx = sum(s is not None for s in self.force_states)
        damping_force"""),
 ("f_contact_nostate", "C17", B, "        self.force_states.append(None)  # Stateless force\n", "        while len(self.force_states) < f_idx:\n            self.force_states.append(None)\n"),
 ("f_sdfcol_default", "C17 C13", B, "sdf_idx = len(self.sdf_states) - 1", "sdf_idx = len(self.force_logics) - 1"),
 ("f_solver_laws", "C17 C01", B, "laws = tuple(self.law_logics)", "laws = tuple(self.law_logics[c.c_idx] for c in couplings if c.c_idx is not None)"),
 ("f_solver_state_second", "C17", B, "            self.solver_states[b_idx] = solver_state\n", "            if self.solver_states[b_idx] is None or solver_state is not None:\n                self.solver_states[coupling.p_idx] = solver_state\n"),
 ("f_build_second", "C17 C04", B, """            material_points=tuple(self.particle_states),
            sdfs=tuple(self.sdf_states),""", """            material_points=tuple(self.particle_states.pop(0) for _ in range(len(self.particle_states))),
            sdfs=tuple(self.sdf_states),"""),
 ("f_gravity_list", "C17 C24", B, """        g_idx_list = (
            list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
        )
        # rigid bodies are not solved for and carry no particle forces
        p_idx_list = (
            [
                i
                for i, mp_state in enumerate(self.particle_states)
                if not isinstance(mp_state, RigidMaterialPointState)
            ]
            if p_idx_list is None
            else p_idx_list
        )

        f_idx = len(self.force_logics)
        gravity_force""", """        g_idx_list = (
            list(range(len(self.grid_domains))) if not g_idx_list else g_idx_list
        )
        # rigid bodies are not solved for and carry no particle forces
        p_idx_list = (
            [
                i
                for i, mp_state in enumerate(self.particle_states)
                if not isinstance(mp_state, RigidMaterialPointState)
            ]
            if not p_idx_list
            else p_idx_list
        )

        f_idx = len(self.force_logics)
        gravity_force"""),
 ("f_law_overwrite", "C17 C23", B, "if isinstance(law, NewtonFluid) and law_state is None:", "if isinstance(law, NewtonFluid):"),
 ("f_gravity_cast", "C13 C17", B, "gravity=jax.numpy.asarray(gravity, dtype=float)", "gravity=jax.numpy.asarray(gravity, dtype=int).astype(float)"),
 ("f_sdf_state_order", "C17", B, "        sdf_idx = self.sdf_logics.add(sdf_logic)\n", "        sdf_idx = self.sdf_logics.index(sdf_logic) if sdf_logic in self.sdf_logics else self.sdf_logics.add(sdf_logic)\n"),
 # ---- laws
 ("f_mcc_rot", "C11", MC, "eps_e_prev_rot  = get_jaumann_increment(eps_e_prev, W, dt)", "eps_e_prev_rot  = eps_e_prev"),
 ("f_mcc_W", "C11 C21", MC, "W = -get_spin_tensor(L)", "W = get_spin_tensor(L)"),
 ("f_mcc_pmin", "C13 C11", MC, "x_new = x_new.at[1].set(jnp.maximum(x_new[1], jnp.log(self.p_min_calc)))", "x_new = x_new.at[1].set(jnp.maximum(x_new[1], self.p_min_calc))"),
 ("f_mcc_K", "C11", MC, "G_next = get_G(self.nu, K_next)\n\n                factor", "G_next = G_tr\n\n                factor"),
 ("f_mcc_eps_prev", "C11", MC, "lambda: (0.0 * jnp.eye(3), eps_e_prev, p_c_prev),", "lambda: (0.0 * jnp.eye(3), 0.0 * eps_e_prev, p_c_prev),"),
 ("f_mcc_qproj", "C23", MC, "q_stack = q_p_stack * p_stack\n", "q_stack = jnp.where(yf_check > 0, q_p_stack * p_stack, q_stack * 1.0) if False else q_p_stack * p_c_stack\n"),
 ("f_mcc_nclN", "C23", MC, "numerator = self.N * (self.p_ref**self.lam)", "numerator = self.N * (self.p_ref**(self.lam - self.kap))"),
 ("f_mcc_eps_p0", "C11", MC, "eps_e_v_next = (p_next - p_0) / K_next", "eps_e_v_next = (p_next - p_prev) / K_next"),
 ("f_mcc_tree", "C11", MC, "lambda l: (l.p_c_stack, l.eps_e_stack),\n            law_state,\n            (new_p_c, new_eps_e)", "lambda l: (l.p_c_stack, l.eps_e_stack),\n            law_state,\n            (jnp.maximum(new_p_c, law_state.p_c_stack), new_eps_e)"),
 ("f_dp_jau", "C11", DP, "eps_e_prev_rot = get_jaumann_increment(eps_e_prev, W, dt)", "eps_e_prev_rot = eps_e_prev + dt * (W @ eps_e_prev + eps_e_prev @ W.T) * 0.5"),
 ("f_dp_hard", "C11", DP, "eps_p_acc_cone = eps_p_acc_prev + self.mu_2 * pmulti", "eps_p_acc_cone = eps_p_acc_prev + self.mu_1 * pmulti"),
 ("f_dp_hardmod", "C11", DP, "self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)", "self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2)"),
 ("f_dp_assoc", "C11", DP, "p_cone = p_tr + self.K * pmulti * self.mu_1_hat", "p_cone = p_tr + self.K * pmulti * self.mu_1"),
 ("f_dp_apexsign", "C11", DP, "eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v", "eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v"),
 ("f_dp_apexH", "C11", DP, "(self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev))", "(self.mu_1 * p_tr + self.mu_2 * self.c0)"),
 ("f_dp_sep_hist", "C11", DP, "lambda: (jnp.zeros((3, 3)), jnp.zeros((3, 3)), eps_p_acc_prev)", "lambda: (jnp.zeros((3, 3)), eps_e_tr, eps_p_acc_prev)"),
 ("f_dp_p0", "C11 C23", DP, "p_0_stack=p_0_stack,\n        )", "p_0_stack=jnp.full_like(p_0_stack, jnp.mean(p_0_stack)),\n        )"),
 ("f_mui_gamma", "C11", MI, "dot_gamma = jnp.sqrt(2.0 * jnp.sum(deps_dev * deps_dev))", "dot_gamma = jnp.sqrt(2.0 * jnp.sum(deps_dt * deps_dt))"),
 ("f_mui_alpha", "C13 C11", MI, "jnp.sqrt(dot_gamma**2 + self.alpha**2)", "jnp.sqrt(dot_gamma**2 + self.alpha)"),
 ("f_mui_psafe", "C11", MI, "stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev", "stress = p * jnp.eye(3) + 2.0 * eta_total * deps_dev"),
 ("f_nf_dev2d", "C22 C11", NF, "dev_deps_dt = deps_dt - (1.0/3.0) * deps_dt_v * jnp.eye(3)", "dev_deps_dt = deps_dt - (1.0/3.0) * deps_dt_v * jnp.diag(jnp.array([1.0, 1.0, jnp.where(L[2, 2] == 0.0, 0.0, 1.0)]))"),
 ("f_nf_rho0", "C23", NF, "factor = (pressure_stack / self.K + 1.0) ** (1.0 / self.beta)", "factor = pressure_stack / (self.K * self.beta) + 1.0"),
 ("f_cl_scale3", "C12 C22", CL, "        dim = mp_state.dim\n", "        dim = 3 if mp_state.F_store_stack is not None else mp_state.dim\n"),
 # ---- material points / mapping / io
 ("f_mp_ppc", "C23 C13", MP, """kwargs.get("points_per_cell", kwargs.get("ppc", 4.0))""", """kwargs.get("ppc", kwargs.get("points_per_cell", 4))
            points_per_cell = points_per_cell // 1"""),
 ("f_mp_storeF", "C12 C23", MP, "            F_store_stack = F_stack\n", "            F_store_stack = jnp.tile(jnp.eye(3), (num_points, 1, 1))\n"),
 ("f_mp_dens_cur", "C21", MP, "return self.mass_stack / (self.volume_stack + 1e-16)", "return self.mass_stack / (self.volume0_stack * jnp.linalg.det(self.F_stack) + 1e-16)"),
 ("f_map_round", "C07 C08", MAP, "base_id_float = jnp.floor(base_pos - 0.5)", "base_id_float = jnp.round(base_pos) - 1.0"),
 ("f_map_valid_or", "C08", MAP, "is_valid = jnp.all((node_idx >= 0) & (node_idx < jnp.array(grid_size)))", "is_valid = jnp.all(node_idx >= 0) & jnp.all(node_idx <= jnp.array(grid_size))"),
 ("f_map_scat_cut", "C21 C13 C18", MAP, "mask = weight_accum > small_mass_cutoff", "mask = weight_accum / jnp.max(weight_accum) > small_mass_cutoff"),
 ("f_map_gather_pts", "C08 C15 C20", MAP, "(point_ids.shape[0] // self.window_size, flat_data.shape[1])", "(jnp.unique(point_ids).shape[0], flat_data.shape[1])"),
 ("f_io_step_time", "C16", IO, "        step = int(state.step)\n", "        step = int(round(float(state.time) / float(state.dt)))\n"),
 ("f_io_meta_over", "C16", IO, "        if meta_info:\n            meta.update(meta_info)\n", "        if meta_info:\n            meta_info.update(meta)\n            meta = meta_info\n"),
 ("f_io_load_fallback", "C16", IO, """    state_path = os.path.join(directory, f"state_{int(step):05d}.eqx")
""", """    state_path = os.path.join(directory, f"state_{int(step):05d}.eqx")
    if not os.path.exists(state_path):
        state_path = os.path.join(directory, sorted(f for f in os.listdir(directory) if f.startswith("state_"))[-1])
"""),
 ("f_io_skip_exist", "C16", IO, "        eqx.tree_serialise_leaves(path, state)\n", "        if not os.path.exists(path):\n            eqx.tree_serialise_leaves(path, state)\n"),
 ("f_io_rm_files", "C16", IO, "            shutil.rmtree(self.output_dir)\n", "            for f in os.listdir(self.output_dir):\n                if f.endswith('.eqx'):\n                    os.remove(f)\n"),
 # ---- contact
 ("f_gc_geom_act", "C09", GC, "grid_domain_act = grid_domains[g_idx_actor]", "grid_domain_act = grid_domains[p_idx_actor]"),
 ("f_gc_static", "C09", GC, "safe_ratio = m_ratio\n", "safe_ratio = jnp.minimum(m_ratio, self.mass_ratio_limit)\n"),
 ("f_gc_react", "C09", GC, "if self.is_reaction and not self.is_rigid:", "if self.is_reaction and not self.is_rigid and g_idx_actor > g_idx_receiver:"),
 ("f_sc_tan", "C09", SC, "friction_limit = friction_coeff * delta_v_kinematic", "friction_limit = friction_coeff * jnp.abs(v_n_mag)"),
 ("f_sc_dist", "C09", SC, "        is_inside = dist <= 0.0\n", "        is_inside = dist <= self.gap\n"),
 ("f_sc_lever", "C10", "sdf/sdfobject.py", "ANGVEL", "ANGVEL"),
 ("f_grav_dup", "C24", GR, "for g_idx in self.g_idx_list:", "for g_idx in [c.g_idx for c in couplings if c.g_idx in self.g_idx_list]:"),
 ("f_grav_pmask", "C24", GR, "gravity_impulse = mp_state.mass_stack[:, None] * f_state.gravity", "gravity_impulse = jnp.where(mp_state.volume_stack > 0.0, mp_state.mass_stack, mp_state.volume0_stack)[:, None] * f_state.gravity"),
]
M = [m for m in M if m[0] != "f_sc_lever"]
