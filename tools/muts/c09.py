s="forces/sdf_collider.py"; g="forces/gridcontact.py"
M=[("sign","C09",s,"jnp.maximum(0.0, v_bias - v_n_mag)","jnp.abs(v_bias - v_n_mag)"),
("nofrictionlimit","C09",s,"jnp.minimum(vt_mag, friction_limit)","friction_limit"),
("fricsq","C09",s,"friction_coeff * delta_v_kinematic","friction_coeff * v_n_mag"),
("wall","C09",s,"v_rel_corrected = v_corrected_n - v_wall","v_rel_corrected = v_corrected_n"),
("massguard","C09",s,"grid_cache.mass_stack > 1e-14, 1.0 / grid_cache.mass_stack, 0.0","X"),
("geomidx","C09",s,"X = sim_cache.node_geoms[(self.g_idx_list[0], self.sdf_idx)]"),
("basefric","C09",s,"friction_stack = self.base_friction * local_friction_stack","friction_stack = local_friction_stack"),
("inside","C09",s,"should_collide = is_inside | is_approaching","should_collide = is_approaching | (v_n_mag < 0.0)"),
("always","C09",s,"is_inside = dist <= 0.0","is_inside = dist <= self.gap * 1e6"),
("momold","C09",s,"grid_cache.moment_nt_stack * inv_mass","grid_cache.moment_stack * inv_mass"),
("react","C09",g,"v_act + (v_n * normal_act) * safe_ratio","v_act - (v_n * normal_act * safe_ratio"),
("pen","C09",g,"is_penetrating = v_n < 0.0","is_penetrating = v_n != 0.0"),
("distinv","C09",g,"has_contact = dist <= 1e-6","has_contact = dist >= 1e-6"),
("recidx","C09",g,"new_grids[g_idx_receiver] =","new_grids[p_idx_receiver] ="),
]
