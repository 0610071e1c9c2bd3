U="solvers/usl.py"; A="solvers/usl_asflip.py"; C="common/builder.py"; IO="common/sim_io.py"; G="utils/generate_body.py"; MP="material_points/material_points.py"; SO="sdf/sdfobject.py"; SC="sdf/sdfcollection.py"; GS="sdf/gridsdf.py"; GR="grid/grid.py"; MA="shapefunctions/mapping.py"; CO="forces/sdf_collider.py"; GC="forces/gridcontact.py"
M=[
("store_from_F","C12",U,'F_inc, mp_state.F_store_stack','F_inc, mp_state.F_stack'),
("vol_incremental","C12",U,'p_volume_next = J * mp_state.volume0_stack','p_volume_next = jnp.linalg.det(F_inc) * mp_state.volume_stack'),
("collider_offset_grid0","C09",U,'- domain.cell_size * 1.0','- self.grid_domains[0].cell_size * 1.0'),
("node_geom_key","C09",U,'sim_cache.node_geoms[(g_idx, s_idx)] =','sim_cache.node_geoms[(s_idx, g_idx)] ='),
("shear_before","C12 C03 C11",U,'''            mp_state, constitutive_law_state = self.constitutive_laws[c.c_idx].update(
                mp_state,''','''            mp_state, constitutive_law_state = self.constitutive_laws[c.c_idx].update(
                self.constitutive_laws[c.c_idx].remove_accumulated_shear(mp_state),'''),
("g2p_old_alpha","C20",U,'''(
                mp_state.velocity_stack + p_delta_vel
            )
            p_position''','''(
                p_vel_nt + p_delta_vel
            )
            p_position'''),
("pos_flip","C20",U,'mp_state.position_stack + p_vel_nt * dt','mp_state.position_stack + p_velocity_next * dt'),
("wall_vel_dt","C09 C10",U,'''                wall_vels = sdf_logic.get_velocity_stack(sdf_state, node_pos, dt)''','''                wall_vels = sdf_logic.get_velocity_stack(sdf_state, node_pos - sdf_state.velocity * dt, dt)'''),
("law_state_order","C01",U,'constitutive_law_states[c.c_idx] = constitutive_law_state','constitutive_law_states[i] = constitutive_law_state'),
("reset_only_first","C03 C01 C02",U,'active_particles_ids = set(c.p_idx for c in self.couplings)','active_particles_ids = set(c.p_idx for c in self.couplings if c.g_idx == self.couplings[0].g_idx)'),
("integrate_delta","C02",U,'grid_moment_nt_stack = grid_cache.moment_stack + grid_cache.force_stack * dt','grid_moment_nt_stack = grid_cache.moment_stack + jnp.where(grid_cache.mass_stack[:, None] > 1e-6, grid_cache.force_stack * dt, 0.0)'),
("cfl_component","C20",A,'speed = jnp.linalg.norm(p_velocity_next, axis=1, keepdims=True)','speed = jnp.max(jnp.abs(p_velocity_next), axis=1, keepdims=True)'),
("cfl_domain0","C20 C01",A,'max_speed = self.cfl_limit * grid_domain.cell_size / dt','max_speed = self.cfl_limit * self.grid_domains[0].cell_size / dt'),
("aff_domain0","C02 C01",A,'''            dist_vec_phys = -1.0 * intr_cache.rel_dist * grid_domain.cell_size
            affine_vel''','''            dist_vec_phys = -1.0 * intr_cache.rel_dist * grid_domains[0].cell_size
            affine_vel'''),
("dp_linear","C20",A,'coeff = 1.0 / 3.0','coeff = 1.0 / 4.0'),
("bp_after_pin","C20 C22",A,'p_L_next = p_Bp  # Approximation\n','p_L_next = 0.5 * (p_Bp + p_Bp.transpose(0, 2, 1))\n'),
("support_vol","C20",A,'support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)','support_ratio = p_mass_support / (jnp.mean(mp_state.mass_stack) + 1e-9)'),
("beta_step","C20",A,'beta_p = jnp.where(J_next < 1.0, self.beta_min, self.beta_max)','beta_p = jnp.where(jnp.trace(p_L_next, axis1=1, axis2=2) > 0.0, self.beta_min, self.beta_max)'),
("builder_sidx","C17",C,'s_idx = couple_idx  # assume one-to-one mapping to solver state','s_idx = p_idx'),
("builder_default_c","C17",C,'c_idx = len(self.law_logics) - 1','c_idx = p_idx'),
("builder_collider_default","C17",C,'sdf_idx = len(self.sdf_states) - 1','sdf_idx = len(self.force_logics)'),
("builder_rigid_grav","C24",C,'''                if not isinstance(mp_state, RigidMaterialPointState)
            ]
            if p_idx_list is None
            else p_idx_list
        )

        f_idx = len(self.force_logics)
        gravity''','''                if i < len(self.couplings) or not isinstance(mp_state, RigidMaterialPointState)
            ]
            if p_idx_list is None
            else p_idx_list
        )

        f_idx = len(self.force_logics)
        gravity'''),
("builder_build_dt","C17",C,'            dt=dt,\n            world','            dt=1e-3,\n            world'),
("builder_states_pad","C17",C,'while len(self.solver_states) < len(self.couplings):','while len(self.solver_states) < len(couplings):'),
("io_pad","C16",IO,'filename = f"state_{int(step):05d}.eqx"','filename = f"state_{int(step) % 100000:05d}.eqx"'),
("io_rel","C16",IO,'base_path = os.path.dirname(os.path.abspath(relative_dir))','base_path = os.path.dirname(relative_dir)'),
("io_solver_order","C16",IO,'with open(os.path.join(self.output_dir, "metadata.json"), "w")','with open("metadata.json", "w")'),
("io_clean_parent","C16",IO,'shutil.rmtree(self.output_dir)','shutil.rmtree(os.path.dirname(self.output_dir) or self.output_dir)'),
("io_verbose","C16",IO,'''        eqx.tree_serialise_leaves(path, state)


        if verbose:''','''        if verbose:
            eqx.tree_serialise_leaves(path, state)
        if verbose:'''),
("gen_ceil","C26",G,'end_idx = jnp.ceil(bounds_max / cell_size).astype(int)','end_idx = jnp.floor(bounds_max / cell_size).astype(int) + 1'),
("gen_round","C26",G,'pts_per_dim = int(np.ceil(ppc ** (1 / dim)))','pts_per_dim = int(np.floor(ppc ** (1 / dim)))'),
("gen_lin","C26",G,'lin = jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]','lin = jnp.linspace(0, 1, pts_per_dim + 2)[1:-1]'),
("gen_minmax","C26",G,'minval=bounds_min, maxval=bounds_max','minval=bounds_min, maxval=jnp.max(bounds_max)'),
("gen_mask","C26",G,'mask = dists < 0.0','mask = dists < -1e-3 * cell_size if cell_size else dists < 0.0'),
("gen_state","C26",G,'''            center_of_mass=center_of_mass, rotation=rotation
        )''','''            center_of_mass=center_of_mass
        )'''),
("mp_vol0","C23",MP,'volume0_stack = volume0_stack if volume0_stack is not None else volume_stack','volume0_stack = volume0_stack if volume0_stack is not None else jnp.ones(num_points) * jnp.mean(volume_stack)'),
("mp_mass_v0","C23",MP,'mass_stack = volume_stack * density_stack','mass_stack = volume0_stack * density_stack'),
("mp_store_eye","C12 C23",MP,'F_store_stack = F_stack\n','F_store_stack = jnp.tile(jnp.eye(3), (num_points, 1, 1))\n'),
("mp_density_ref","C21",MP,'return self.mass_stack / (self.volume0_stack + 1e-16)','return self.mass_stack / (self.volume_stack + 1e-16)'),
("mp_eps_v","C21",MP,'return get_volumetric_strain_stack(self.eps_stack)','return get_volumetric_strain_stack(self.L_stack)'),
("mp_stored_eps","C21",MP,'return get_hencky_strain_stack(self.F_store_stack)','return get_hencky_strain_stack(self.F_stack)'),
("mp_ke","C21",MP,'return 0.5 * self.mass_stack * jnp.sum(self.velocity_stack ** 2, axis=-1)','return 0.5 * self.mass_stack * jnp.sum(self.velocity_stack, axis=-1) ** 2'),
("sdf_omega_local","C10",SO,'cross = jnp.cross(sdf_state.angular_velocity, p_local)','cross = jnp.cross(sdf_state.angular_velocity, quaternion_rotate(quaternion_inv(sdf_state.rotation), p_local))'),
("sdf_quat_order","C10",SO,'quaternion_rotate(quaternion_inv(sdf_state.rotation), p_local)','quaternion_rotate(sdf_state.rotation, p_local)'),
("sdf_rot_then_trans","C10",SO,'''        p_local = p_world - sdf_state.center_of_mass

        # Apply rotation
        if p_world.shape[0] == 2:
            return rotation_2d_inv(sdf_state.rotation, p_local)''','''        p_local = p_world - sdf_state.center_of_mass

        # Apply rotation
        if p_world.shape[0] == 2:
            return rotation_2d_inv(sdf_state.rotation, p_world) - sdf_state.center_of_mass'''),
("sdf_capsule_xaxis","C10",SC,'vec_to_axis = p_local.at[1].set(p_local[1] - p_y_clamped)','vec_to_axis = p_local.at[1].set(jnp.minimum(p_local[1] - p_y_clamped, 0.0))'),
("sdf_cyl_r","C10",SC,'d_xz = safe_norm(pos_local[jnp.array([0, 2])]) - self.radius','d_xz = safe_norm(pos_local[jnp.array([0, 1])]) - self.radius'),
("sdf_hollow_inner","C10",SC,'d_radial = jnp.maximum(r - self.r_outer, self.r_inner - r)','d_radial = jnp.maximum(r - self.r_outer, -r)'),
("sdf_domain_axis","C10",SC,'axis = idx % dim','axis = idx % 2'),
("sdf_domain_sign","C10",SC,'sign = jnp.where(idx < dim, 1.0, -1.0)','sign = jnp.where(idx <= dim, 1.0, -1.0)'),
("sdf_domain_off","C10 C13",SC,'self.bounds_max = jnp.asarray(end) + wall_offset','self.bounds_max = jnp.asarray(end)'),
("sdf_comp_friction","C10",SC,'''        idx = jnp.argmin(dists)
        return self.frictions[idx]


class DomainSDF''','''        idx = jnp.argmin(jnp.abs(dists))
        return self.frictions[idx]


class DomainSDF'''),
("sdf_star_fold","C10",SC,'sector_idx = jnp.round(angle / (2.0 * an))','sector_idx = jnp.floor(angle / (2.0 * an))'),
("sdf_torus","C10",SC,'return safe_norm(q) - self.minor_r','return safe_norm(q) - 2.0 * self.minor_r'),
("sdf_cloud_2d","C10 C09",SC,'radii_particles = jnp.sqrt(volumes / jnp.pi + 1e-12)','radii_particles = 0.5 * jnp.sqrt(volumes + 1e-12)'),
("sdf_cloud_vol","C10 C09",SC,'volumes = mp_state.volume0_stack','volumes = jnp.ones_like(mp_state.volume0_stack) * mp_state.volume0_stack[0]'),
("gsdf_scale","C10 C06",GS,'return dist[0] * self.scale - self.thickness','return (dist[0] - self.thickness) * self.scale'),
("gsdf_res","C10",GS,'res = jnp.array(self.sdf_data.shape) - 1.0','res = jnp.array(self.sdf_data.shape) * 1.0'),
("gsdf_mode","C10",GS,'mode="nearest"','mode="wrap"'),
("grid_ceil","C08",GR,'math.ceil(s - 1e-6) + 1','math.floor(s + 0.5) + 1'),
("grid_pad","C08",GR,'padded_end = tuple(e + padding * cell_size for e in end)','padded_end = tuple(e + cell_size for e in end)'),
("map_clip","C08",MA,'is_valid = jnp.all((node_idx >= 0) & (node_idx < jnp.array(grid_size)))','is_valid = jnp.all((node_idx >= 0) & (node_idx <= jnp.array(grid_size)))'),
("map_cubic_off","C07",MA,'"cubic": (vmap_cubic_shapefunction, jnp.arange(4) - 1)','"cubic": (vmap_cubic_shapefunction, jnp.arange(4) - 2)'),
("map_pid","C08 C02",MA,'point_ids = (flat_indices // window_size).astype(jnp.uint32)','point_ids = (flat_indices % num_points).astype(jnp.uint32)'),
("map_uint16","C08",MA,'''mode="clip").astype(
                jnp.uint32''','''mode="clip").astype(
                jnp.uint16'''),
("map_scatter_norm","C20 C21 C02 C18",MA,'weight_accum = (\n                jnp.zeros((num_cells,)).at[node_hashes].add(intr_weight_stack)','weight_accum = (\n                jnp.zeros((num_cells,)).at[node_hashes].add(cache.shape_vals)'),
("map_gather_w","C20 C02",MA,'weighted_data = weight_expanded * data_on_nodes','weighted_data = weight_expanded * cache.cpic_mask.reshape(target_weight_shape) * data_on_nodes'),
("col_limit","C09",CO,'friction_limit = friction_coeff * delta_v_kinematic','friction_limit = friction_coeff * jnp.abs(v_n_mag)'),
("col_tang","C09",CO,'v_t_frictional = v_t_vec * (1.0 - reduction / (vt_mag + 1e-12))','v_t_frictional = v_t_vec * (1.0 - friction_limit / (vt_mag + 1e-12))'),
("col_local","C09",CO,'friction_stack = self.base_friction * local_friction_stack','friction_stack = jnp.maximum(self.base_friction, local_friction_stack)'),
("col_mass","C09 C18",CO,'new_mom = new_vel * grid_cache.mass_stack[:, None]','new_mom = jnp.where(grid_cache.mass_stack[:, None] > 1e-3, new_vel * grid_cache.mass_stack[:, None], grid_cache.moment_nt_stack)'),
("col_all_sdf","C09",CO,'sdf_state = list(world.sdfs)[self.sdf_idx]','sdf_state = list(world.sdfs)[0]'),
("gc_reaction_rest","C09",GC,'v_act_new = v_act + (v_n * normal_act) * safe_ratio','v_act_new = v_act + (v_n * normal_act) * jnp.minimum(safe_ratio, self.mass_ratio_limit)'),
("gc_sep","C09",GC,'is_penetrating = v_n < 0.0','is_penetrating = v_n < 1e-3'),
("gc_dist","C09",GC,'has_contact = dist <= 1e-6','has_contact = dist <= 1.0'),
("gc_order","C09",GC,'''        if self.is_reaction and not self.is_rigid:
            new_grids[g_idx_actor] = eqx''','''        if self.is_reaction and self.is_rigid:
            new_grids[g_idx_actor] = eqx'''),
]
