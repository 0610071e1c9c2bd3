SC = "sdf/sdfcollection.py"; SO = "sdf/sdfobject.py"; BU = "common/builder.py"; MP = "material_points/material_points.py"; GR = "grid/grid.py"; GC = "forces/gridcontact.py"; US = "solvers/usl_asflip.py"
M = [
("i_star_floor", "C10", SC, "sector_idx = jnp.round(angle / (2.0 * an))", "sector_idx = jnp.floor(angle / (2.0 * an))"),
("i_star_valley", "C10", SC, "[self.inner_radius * jnp.sin(an), self.inner_radius * jnp.cos(an)]", "[self.inner_radius * jnp.sin(an), self.outer_radius * jnp.cos(an)]"),
("i_star_clip", "C10", SC, "jnp.dot(edge, edge), 0.0, 1.0)", "jnp.dot(edge, edge), 0.0, 2.0)"),
("i_ring_dy", "C10", SC, "d_y = -1e9", "d_y = -1.0"),
("i_caps_clip", "C10", SC, "jnp.clip(p_local[1], -self.half_height, self.half_height)", "jnp.clip(p_local[1], 0.0, self.half_height)"),
("i_comp_fric_abs", "C10", SC, "# Friction of the closest surface\n        idx = jnp.argmin(dists)", "# Friction of the closest surface\n        idx = jnp.argmin(jnp.abs(dists))"),
("i_plane_eps", "C10", SC, "(jnp.linalg.norm(n) + 1e-12)", "(jnp.linalg.norm(n) + 1e-2)"),
("i_dom_offset", "C10", SC, "jnp.asarray(end) + wall_offset", "jnp.asarray(end) - wall_offset"),
("i_dom_axis", "C10", SC, "axis = idx % dim", "axis = idx // dim"),
("i_cloud_smooth", "C10", SC, "if self.smooth_k > 1e-3:", "if self.smooth_k > 1e1:"),
("i_cloud_sign", "C10", SC, "jax.nn.logsumexp(-self.smooth_k * dists) / self.smooth_k", "jax.nn.logsumexp(-self.smooth_k * dists)"),
("i_cloud_vol", "C10 C09", SC, "volumes = mp_state.volume0_stack", "volumes = mp_state.volume_stack"),
("i_so_rot_z", "C10", SO, "new_rot = sdf_state.rotation + sdf_state.angular_velocity * dt", "new_rot = jnp.mod(sdf_state.rotation + sdf_state.angular_velocity * dt, jnp.pi)"),
("i_so_fric_world", "C10", SO, "return self.get_surface_friction_local(sdf_state, self.transform_to_local(sdf_state, p_world))", "return self.get_surface_friction_local(sdf_state, p_world - sdf_state.center_of_mass)"),
("i_so_vel_local", "C10", SO, "p_local = pos_world - sdf_state.center_of_mass\n        \n        # v = v_lin", "p_local = self.transform_to_local(sdf_state, pos_world)\n        \n        # v = v_lin"),
("i_bu_bbox", "C17 C10", BU, "center_of_mass = 0.5 * (bbox_min + bbox_max)", "center_of_mass = 0.5 * (bbox_max - bbox_min)"),
("i_bu_sidx", "C17 C01", BU, "s_idx = couple_idx  # assume one-to-one mapping to solver state", "s_idx = len(self.solver_states)"),
("i_bu_cidx", "C17", BU, "c_idx = len(self.law_logics) - 1", "c_idx = p_idx"),
("i_bu_gfirst", "C17 C24", BU, "list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list\n        )\n        # rigid bodies are not solved for and carry no particle forces\n        p_idx_list = (\n            [\n                i\n                for i, mp_state in enumerate(self.particle_states)\n                if not isinstance(mp_state, RigidMaterialPointState)\n            ]\n            if p_idx_list is None\n            else p_idx_list\n        )\n        f_idx = len(self.force_logics)\n        damping_force", "sorted({c.g_idx for c in self.couplings}) if g_idx_list is None else g_idx_list\n        )\n        # rigid bodies are not solved for and carry no particle forces\n        p_idx_list = (\n            [\n                i\n                for i, mp_state in enumerate(self.particle_states)\n                if not isinstance(mp_state, RigidMaterialPointState)\n            ]\n            if p_idx_list is None\n            else p_idx_list\n        )\n        f_idx = len(self.force_logics)\n        damping_force"),
("i_bu_while", "C17", BU, "while len(self.solver_states) < len(self.couplings):", "while len(self.solver_states) < len(b_idx_list):"),
("i_bu_sstate_none", "C17", BU, "        while len(self.solver_states) < len(self.couplings):\n            self.solver_states.add(None)", "        while len(self.solver_states) < len(self.couplings):\n            self.solver_states.add(None)\n        for k in range(len(self.solver_states)):\n            self.solver_states[k] = None"),
("i_bu_build1", "C17", BU, "if len(self.solver_logics) == 1:", "if len(self.solver_logics) >= 1:"),
("i_bu_react", "C17 C13", BU, "is_reaction=is_reaction,\n            mass_ratio_limit", "is_reaction=is_reaction and not is_rigid and friction == 0.0,\n            mass_ratio_limit"),
("i_bu_sdf0", "C17", BU, "sdf_idx = len(self.sdf_states) - 1", "sdf_idx = 0"),
("i_bu_isinst", "C17", BU, "skip_mpm_logic = isinstance(mp_state, RigidMaterialPointState)", "skip_mpm_logic = c_idx < 0"),
("i_bu_step", "C17", BU, "step=step,\n            dt=dt,", "step=int(time / dt),\n            dt=dt,"),
("i_bu_grav_dtype", "C17 C24", BU, "gravity=jax.numpy.asarray(gravity, dtype=float)", "gravity=jax.numpy.asarray(gravity, dtype=jax.numpy.float16)"),
("i_bu_fidx", "C17", BU, "forces = tuple(self.force_logics[i] for i in f_idx_list)", "forces = tuple(f for i, f in enumerate(self.force_logics) if i in f_idx_list)"),
("i_bu_sdfs", "C17 C10", BU, "sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)", "sdf_logics = tuple(self.sdf_logics[i] for i in sorted(sdf_idx_list, reverse=True))"),
("i_mp_v0", "C12 C23", MP, "volume0_stack = volume0_stack if volume0_stack is not None else volume_stack", "volume0_stack = volume0_stack if volume0_stack is not None else jnp.ones(num_points) * kwargs.get(\"cell_size\", 1.0) ** dim / kwargs.get(\"ppc\", 4.0)"),
("i_mp_mass_v0", "C12 C23", MP, "mass_stack = volume_stack * density_stack", "mass_stack = volume0_stack * density_stack"),
("i_mp_ppc", "C23 C12 C13", MP, 'kwargs.get("points_per_cell", kwargs.get("ppc", 4.0))', 'kwargs.get("ppc", 4.0)'),
("i_mp_fstore", "C12 C23 C13", MP, "F_store_stack = F_stack\n        else", "F_store_stack = jnp.tile(jnp.eye(3), (num_points, 1, 1))\n        else"),
("i_mp_stored", "C21 C15", MP, "return get_shear_strain_vm_stack(self.stored_eps_stack)", "return get_shear_strain_vm_stack(self.eps_stack)"),
("i_mp_epsv", "C21", MP, "return get_volumetric_strain_stack(self.eps_stack)", "return get_volumetric_strain_stack(self.deps_dt_stack)"),
("i_mp_rho0", "C12 C21", MP, "return self.mass_stack / (self.volume0_stack + 1e-16)", "return self.mass_stack / (self.volume_stack + 1e-16)"),
("i_mp_ke", "C21 C12", MP, "jnp.sum(self.velocity_stack ** 2, axis=-1)", "jnp.linalg.norm(self.velocity_stack ** 2, axis=-1)"),
("i_gr_ceil", "C08", GR, "math.ceil(s - 1e-6) + 1", "math.ceil(s - 1e-1) + 1"),
("i_gr_floor", "C08", GR, "math.ceil(s - 1e-6) + 1", "math.floor(s + 1e-6) + 1"),
("i_gr_f16", "C08", GR, "dtype=jnp.float32)", "dtype=jnp.float16)"),
("i_gr_pad", "C08", GR, "tuple(e + padding * cell_size for e in end)", "tuple(e + max(padding, 2) * cell_size for e in end)"),
("i_gr_origin_np", "C08", GR, "tuple(origin.tolist())", "tuple(int(o) for o in origin.tolist())"),
("i_gc_absdist", "C09", GC, "has_contact = dist <= 1e-6", "has_contact = jnp.abs(dist) <= 1e-6"),
("i_gc_massdist", "C09", GC, "has_contact = dist <= 1e-6", "has_contact = (dist <= 1e-6) & (mass_act > mass_rec)"),
("i_gc_domrec", "C09", GC, "grid_domain_act = grid_domains[g_idx_actor]", "grid_domain_act = grid_domains[0]"),
("i_gc_recpart", "C09", GC, "act_normal_stack = particle_cloud.get_normal_stack(\n                    flat_coords,\n                    world.material_points[p_idx_actor],", "act_normal_stack = -particle_cloud.get_normal_stack(\n                    flat_coords,\n                    world.material_points[p_idx_receiver],"),
("i_gc_order", "C09 C03", GC, "act_mom_stack = grid_state_act.moment_nt_stack\n", "act_mom_stack = grid_state_act.moment_stack\n"),
("i_us_pset", "C04 C01 C17", US, "sorted(list(set(c.p_idx for c in couplings)))", "list(range(len(couplings)))"),
("i_us_sidx", "C01 C02", US, "solver_state = solver_states[c.s_idx]\n\n            # --- Operations in interaction space ---\n            # Get data", "solver_state = solver_states[c.p_idx]\n\n            # --- Operations in interaction space ---\n            # Get data"),
("i_us_nonmpm", "C01 C03", US, "            if c.skip_mpm_logic:\n                continue\n            grid_cache = grids[c.g_idx]", "            if c.skip_mpm_logic:\n                break\n            grid_cache = grids[c.g_idx]"),
("i_us_bp_pid", "C01 C02", US, "solver_state.Bp_stack.at[intr_cache.point_ids].get()\n            dist_vec", "solver_state.Bp_stack.at[intr_cache.node_hashes].get()\n            dist_vec"),
]
