U="solvers/usl.py"; A="solvers/usl_asflip.py"; L="constitutive_laws/"; F="forces/"; H="utils/math_helpers.py"; S="sdf/sdfcollection.py"
M=[
("aff_h","C06",A,"dist_vec_phys = -1.0 * intr_cache.rel_dist * grid_domain.cell_size\n            affine_vel","dist_vec_phys = -1.0 * intr_cache.rel_dist\n            affine_vel"),
("apic_h","C06",A,"dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size","dist_vec_phys = -1.0 * intr_cache.rel_dist"),
("cutoff","C06",A,"intr_mass_stack > self.small_mass_cutoff, intr_mass_stack, 1.0","intr_mass_stack > self.small_mass_cutoff * grid_domain.cell_size, intr_mass_stack, 1.0"),
("extf_vol","C06",A,"effective_shape_vals[:, None] * intr_ext_forces_stack","effective_shape_vals[:, None] * intr_ext_forces_stack * intr_volume_stack[:, None]"),
("mui_sqrt","C06",L+"mu_i_rheology.py","jnp.sqrt(dot_gamma**2 + self.alpha**2)","jnp.sqrt(dot_gamma**2 + self.alpha)"),
("mui_conf","C06",L+"mu_i_rheology.py","pconf = self.I_0 * jnp.sqrt(p_safe / self.rho_p)","pconf = self.I_0 * jnp.sqrt(p_safe * self.rho_p)"),
("mui_dt","C06",L+"mu_i_rheology.py","deps_dt = 0.5 * (L + L.T) ","deps_dt = 0.5 * (L + L.T) * dt"),
("mui_c","C06 C25",L+"mu_i_rheology.py","return jnp.sqrt(self.K / rho)","return self.K / rho"),
("mui_c2","C06",L+"mu_i_rheology.py","max_wave_speed + 1e-9","max_wave_speed + 1e-1"),
("mui_p1","C06",L+"mu_i_rheology.py","p_safe = jnp.maximum(p, self.p_min_calc)","p_safe = jnp.maximum(p, 1.0)"),
("mui_conn","C06",L+"mu_i_rheology.py","is_connected = (rho_ratio > 1.0) ","is_connected = (current_density > 1.0) "),
("mui_ref","C06",L+"mu_i_rheology.py","((pressure_stack / self.K) + 1.0)","(pressure_stack + self.K)"),
("gc_gap","C06",F+"gridcontact.py","has_contact = dist <= 1e-6","has_contact = dist <= 0.5"),
("gc_mom","C06",F+"gridcontact.py","return v_rec_new * mass_rec, v_act_new * mass_act","return v_rec_new * mass_rec, v_act_new * mass_rec"),
("gc_eps","C06",F+"gridcontact.py","v_rec = mom_rec / (mass_rec + 1e-12)","v_rec = mom_rec / (mass_rec + 1e-2)"),
("gc_v","C06",F+"gridcontact.py","v_rel = v_rec - v_act","v_rel = mom_rec - v_act"),
("sc_mom","C06",F+"sdf_collider.py","new_mom = new_vel * grid_cache.mass_stack[:, None]","new_mom = new_vel"),
("grav","C06",F+"gravity.py","grid_cache.mass_stack[:, None] * f_state.gravity","f_state.gravity[None]"),
("dp_G","C06",L+"druckerprager.py","pmulti = yf / (self.G +","pmulti = yf / (1.0 +"),
("dp_H","C06",L+"druckerprager.py","c = self.c0 + self.H * eps_p_acc_prev","c = self.c0 + eps_p_acc_prev"),
("le_dt","C06",L+"linearelastic.py","2.0 * self.G","2.0 * self.nu"),
#("nf_mu","C06",L+"newtonfluid.py","self.viscosity","self.viscosity * dt"),
#("I","C06",H,"def get_inertial_number(","def get_inertial_number_(" ),
#("mcc_scale","C06",L+"modifiedcamclay.py","[yf_next / yf_scale, (deps_v_p_fr - deps_p_v) / deps_scale]","[yf_next / yf_scale, (deps_v_p_fr - deps_p_v) / deps_scale * 2]"),
("mcc_fr","C06",L+"modifiedcamclay.py","deps_v_p_fr = pmulti * (2.0 * p_next - p_c_next) * self.M**2","deps_v_p_fr = pmulti * (2.0 * p_next - p_c_next + 1.0) * self.M**2"),
("mcc_yf","C06",L+"modifiedcamclay.py","return ((q * q) / (M * M)) + p * p - p_c * p","return ((q * q) / (M * M)) + p * p - p_c"),
("mcc_pmin","C06",L+"modifiedcamclay.py","p_prev = jnp.maximum(p_prev, self.p_min_calc)","p_prev = jnp.maximum(p_prev, 1.0)"),
("mcc_ref","C06 C23",L+"modifiedcamclay.py","return N * (p_ref / (p_c)) ** lam","return N * (p_c) ** (-lam)"),
("pc_rad","C06",S,"jnp.sqrt(volumes / jnp.pi + 1e-12)","(volumes / jnp.pi) ** (1.0 / 3.0)"),
#("sf_grad","C06","shapefunctions/quadratic.py","inv_cell_size","inv_cell_size**0"),
]
