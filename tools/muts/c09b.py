s="forces/sdf_collider.py"; g="forces/gridcontact.py"
M=[("geomidx","C09",s,"node_geom =sim_cache.node_geoms[(g_idx, self.sdf_idx)]","node_geom =sim_cache.node_geoms[(self.g_idx_list[0], self.sdf_idx)]"),
("react","C09",g,"v_act + (v_n * normal_act) * safe_ratio","v_act - (v_n * normal_act) * safe_ratio"),
("biased","C09",s,"bias_factor=0.0\n","bias_factor=0.2\n"),
("gridlist","C09",s,"for g_idx in self.g_idx_list:","for g_idx in range(len(grid_caches)):"),
("vtnorm","C09",s,"v_t_vec = v_rel_corrected - v_n_vec","v_t_vec = v_rel - v_n_vec"),
]
