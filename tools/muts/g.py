MH="utils/math_helpers.py"; MP="material_points/material_points.py"; VT="common/vtk_io.py"; GD="grid/grid.py"
M=[
 ("g_jau", "C21 C11", MH, "return tensor + (W @ tensor - tensor @ W) * dt", "return tensor + (W @ tensor + (W @ tensor).T) * dt"),
 ("g_jau_nonsym", "C21 C11", MH, "return tensor + (W @ tensor - tensor @ W) * dt", "return tensor + (W @ tensor - tensor @ W.T) * dt"),
 ("g_inv3_det", "C21", MH, "    det = a * A + b * B + c * C\n", "    det = a * A + d * B + g * C\n"),
 ("g_inv3_sym", "C21", MH, "inv = jnp.array([[A, D, G], [B, E, H], [C, F, I_]]) * inv_det", "inv = jnp.array([[A, B, C], [D, E, F], [G, H, I_]]) * inv_det"),
 ("g_contr", "C21", MH, '    return jnp.einsum("...ij,...ij->...", A, B)', '    return jnp.einsum("...ij,...ji->...", A, B)'),
 ("g_dev_axis", "C21", MH, "    p_expanded = pressure[..., None, None]\n\n    return stress - jnp.eye(3) * p_expanded", "    p_expanded = pressure[..., None]\n\n    return stress - jnp.eye(3) * p_expanded"),
 ("g_press_axis", "C21", MH, "return (1 / 3) * jnp.trace(stress, axis1=-2, axis2=-1)", "return (1 / 3) * jnp.trace(stress)"),
 ("g_j2_press", "C21", MH, "dev_stress = get_dev_stress(stress, pressure)\n    #", "dev_stress = get_dev_stress(stress)\n    #"),
 ("g_qvm_dev", "C21", MH, "J2 = get_J2(stress, dev_stress, pressure)\n    return jnp.sqrt(3", "J2 = get_J2(stress, pressure=pressure)\n    return jnp.sqrt(3"),
 ("g_hencky_v", "C21", MH, "u, log_s, u)", "vh, log_s, vh)"),
 ("g_hencky_vt", "C21", MH, "jnp.einsum('...ik,...k,...jk->...ij', u, log_s, u)", "jnp.einsum('...ki,...k,...kj->...ij', u, log_s, u)"),
 ("g_hencky_clip", "C21", MH, "s = jnp.clip(s, 1e-12, None)", "s = jnp.clip(s, 1e-12, 1e1)"),
 ("g_hencky_clip2", "C21", MH, "s = jnp.clip(s, 1e-12, None)", "s = jnp.clip(s, 1e-1, None)"),
 ("g_svm", "C21", MH, "dev_strain = get_dev_strain(strain)\n\n    # Double", "dev_strain = strain\n\n    # Double"),
 ("g_devstrain_vol", "C21", MH, "return strain - (vol_strain[..., None, None] / 3.0) *jnp.eye(3)", "return strain - (get_volumetric_strain(strain)[..., None, None] / 3.0) *jnp.eye(3)"),
 ("g_q_stack_press", "C21", MH, "return get_q_vm(stress=stress_stack, dev_stress=dev_stress_stack, pressure=pressure_stack)", "return get_q_vm(stress=stress_stack, dev_stress=dev_stress_stack)"),
 ("g_dev_stack_press", "C21", MH, "return get_dev_stress(stress_stack, pressure_stack)", "return get_dev_stress(stress_stack)"),
 ("g_ke_stack", "C21", MH, "vmap_get_KE = jax.vmap(get_KE, in_axes=(0, 0))\n    return vmap_get_KE(masses, velocities)", "return 0.5 * masses * jnp.linalg.norm(velocities, axis=-1)"),
 ("g_inertial_floor", "C21 C11 C06", MH, "p_safe = jnp.maximum(pressure, 1e-6)", "p_safe = jnp.maximum(pressure, 1.0)"),
 ("g_inertial_order", "C21", MH, "    return vmap_get_inertial_number(\n        pressure_stack,\n        dgamma_dt_stack,\n        p_dia,\n        rho_p,", "    return vmap_get_inertial_number(\n        pressure_stack,\n        dgamma_dt_stack,\n        rho_p,\n        p_dia,"),
 ("g_small", "C21", MH, "return jnp.eye(3) - 0.5 * (F.T + F)", "return 0.5 * (F.T @ F) - 0.5 * jnp.eye(3)"),
 ("g_phiL", "C21", MH, "phi_next = phi_prev / (1.0 - deps_v)", "phi_next = phi_prev / (1.0 + deps_v)"),
 ("g_phibulk", "C21", MH, "in_axes=(None, 0)\n    )\n    return vmap_get_phi_from_bulk_density(absolute_density_stack, bulk_density_stack)", "in_axes=(None, 0)\n    )\n    return vmap_get_phi_from_bulk_density(bulk_density_stack, absolute_density_stack)"),
 ("g_litho_cos", "C21 C23", MH, "sigma_v_stack = density_stack * gravity * depth_stack*jnp.cos(theta)", "sigma_v_stack = density_stack * gravity * depth_stack"),
 ("g_litho_k0", "C21 C23", MH, "p_stack = (sigma_v_stack + 2.0 * sigma_h_stack) / 3.0", "p_stack = (sigma_v_stack + sigma_h_stack) / 2.0"),
 ("g_litho_rad", "C21 C23", MH, "theta = jnp.radians(slope_angle_deg)", "theta = slope_angle_deg"),
 ("g_recon", "C21 C23", MH, "return jnp.diag(jnp.array([sh, sh, sv]))", "return jnp.diag(jnp.array([sv, sh, sh]))"),
 ("g_quat_inv", "C10 C21", MH, "return jnp.array([q[0], -q[1], -q[2], -q[3]])", "return jnp.array([-q[0], q[1], q[2], -q[3]])"),
 ("g_quat_norm", "C10 C21", MH, "return q_new / (jnp.linalg.norm(q_new) + 1e-12)", "return q_new / (jnp.linalg.norm(q) + 1e-12)"),
 ("g_quat_body", "C10 C21", MH, """                bx * aw + by * az - bz * ay,
                -bx * az + by * aw + bz * ax,
                bx * ay - by * ax + bz * aw,""", """                bx * aw - by * az + bz * ay,
                bx * az + by * aw - bz * ax,
                -bx * ay + by * ax + bz * aw,"""),
 # material points
 ("g_mp_vol0", "C23 C26 C13 C12", MP, "volume0_stack = volume0_stack if volume0_stack is not None else volume_stack", "volume0_stack = volume0_stack if volume0_stack is not None else jnp.ones(num_points) * kwargs.get('cell_size', 1.0) ** dim / 4.0"),
 ("g_mp_ppc", "C13 C18 C23 C26 C17 C14 C12 C27", MP, 'kwargs.get("points_per_cell", kwargs.get("ppc", 4.0))', 'kwargs.get("ppc", 4.0)'),
 ("g_mp_mass0", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "mass_stack = volume_stack * density_stack", "mass_stack = volume0_stack * density_stack"),
 ("g_mp_den", "C13 C18 C23 C26 C17 C14 C12 C27", MP, 'density_stack = kwargs.get("density_stack", jnp.full((num_points,), 1000.0))', 'density_stack = jnp.mean(kwargs.get("density_stack", jnp.full((num_points,), 1000.0)))'),
 ("g_mp_rho", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "return self.mass_stack / (self.volume_stack + 1e-16)", "return self.mass_stack / (self.volume0_stack + 1e-16)"),
 ("g_mp_rho_eps", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "return self.mass_stack / (self.volume_stack + 1e-16)", "return self.mass_stack / (self.volume_stack + 1e-9)"),
 ("g_mp_storeF", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "            F_store_stack = F_stack\n", "            F_store_stack = jnp.tile(jnp.eye(3), (num_points, 1, 1))\n"),
 ("g_mp_ke", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "return 0.5 * self.mass_stack * jnp.sum(self.velocity_stack ** 2, axis=-1)", "return 0.5 * self.mass_stack * jnp.sum(self.velocity_stack, axis=-1) ** 2"),
 ("g_mp_stored", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "return get_shear_strain_vm_stack(self.stored_eps_stack)", "return get_shear_strain_vm_stack(self.eps_stack)"),
 ("g_mp_rigid_mass", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "mass_stack=jnp.ones((num_points,)),", "mass_stack=jnp.zeros((num_points,)),"),
 ("g_mp_rigid_norm", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "            normal_stack = jnp.zeros((num_points, dim))\n", "            normal_stack = jnp.zeros((num_points, 3))\n"),
 ("g_mp_F_list", "C13 C18 C23 C26 C17 C14 C12 C27", MP, "F_stack if F_stack is not None else jnp.tile(jnp.eye(3), (num_points, 1, 1))", "F_stack if F_stack is not None and not store_F else jnp.tile(jnp.eye(3), (num_points, 1, 1))"),
 # grid
 ("g_gd_pad", "C08 C13 C15 C17 C26", GD, "padding=padding,", "padding=2,"),
 ("g_gd_end", "C08 C13 C15 C17 C26", GD, "padded_end = tuple(e + padding * cell_size for e in end)", "padded_end = tuple(e + max(padding, 1) * cell_size for e in end)"),
 ("g_gd_round", "C08 C13 C15 C17 C26", GD, "math.ceil(s - 1e-6) + 1", "round(s) + 1"),
 ("g_gd_pos", "C08 C13 C15 C17 C26", GD, "self.cell_size + jnp.array(self.origin)", "self.cell_size + jnp.array(self.origin) + 0.5 * self.cell_size * (self.padding == 0)"),
 ("g_gd_order", "C08 C13 C15 C17 C26", GD, "jnp.moveaxis(indices, 0, -1)", "indices.T"),
 # vtk
 ("g_vt_radius2", "C27 C16", VT, "_point_radius = np.sqrt(volumes / np.pi)", "_point_radius = np.sqrt(volumes) / np.pi"),
 ("g_vt_vol", "C27 C16", VT, "volumes = np.array(mp_state.volume0_stack)", "volumes = np.array(mp_state.volume_stack)"),
 ("g_vt_scale", "C27 C16", VT, "_point_radius = _point_radius * scale_radius", "_point_radius = _point_radius / scale_radius"),
 ("g_vt_prop", "C27 C16", VT, "cloud.point_data[property_name] = prop_data", "cloud.point_data[label] = prop_data"),
 ("g_vt_label", "C27 C16", VT, 'path = self._save_vtk(cloud, label, f"step_{step_val:05d}.vtp")', 'path = self._save_vtk(cloud, property_name or label, f"step_{step_val:05d}.vtp")'),
 ("g_vt_none", "C27 C16", VT, "step_val = int(step) if step is not None else 0", "step_val = int(step or time or 0)"),
 ("g_vt_sdf_start", "C27 C16", VT, "coords = np.moveaxis(indices, 0, -1) * step_size + start\n", "coords = np.moveaxis(indices, 0, -1) * step_size + start * 0.95\n"),
 ("g_vt_verts", "C27 C16", VT, "world_verts = start + verts * step_size", "world_verts = start + verts * domain_size / resolution"),
 ("g_vt_contour", "C27 C16", VT, "world_y = start[1] + contour[:, 1] * step_size", "world_y = start[1] + contour[:, 0] * step_size"),
 ("g_vt_conn", "C27 C16", VT, "                        offset += num_pts\n", "                        offset = num_pts\n"),
 ("g_vt_box", "C27 C16", VT, "end = np.array(end) + cell_size ", "end = np.array(end) - cell_size "),
]
