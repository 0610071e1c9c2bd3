U="solvers/usl.py"; A="solvers/usl_asflip.py"; L="constitutive_laws/"; F="forces/"; H="utils/math_helpers.py"; S="sdf/sdfcollection.py"; O="sdf/sdfobject.py"
M=[
("cut0","C18",A,"intr_mass_stack > self.small_mass_cutoff, intr_mass_stack, 1.0","intr_mass_stack > -1.0, intr_mass_stack, 1.0"),
("sc_where","C18",F+"sdf_collider.py","jnp.where(grid_cache.mass_stack > 1e-14, 1.0 / grid_cache.mass_stack, 0.0)","1.0 / grid_cache.mass_stack"),
("sc_ge","C18",F+"sdf_collider.py","grid_cache.mass_stack > 1e-14, 1.0 / grid","grid_cache.mass_stack >= 0.0, 1.0 / grid"),
("gc_rec","C18",F+"gridcontact.py","mom_rec / (mass_rec + 1e-12)","mom_rec / mass_rec"),
("gc_ratio","C18",F+"gridcontact.py","m_ratio = mass_rec / (mass_act + 1e-12)","m_ratio = mass_rec / mass_act"),
("damp","C18",F+"damping.py","(grid_cache.mass_stack[:, None] + 1e-22)","(grid_cache.mass_stack[:, None])"),
("norm_n","C18",S,"(jnp.linalg.norm(n) + 1e-12)","jnp.linalg.norm(n)"),
("caps","C18",S,"return safe_norm(vec_to_axis)- self.radius","return jnp.linalg.norm(vec_to_axis)- self.radius"),
("box","C18",S,"        outside = safe_norm(d_vec)\n","        outside = jnp.linalg.norm(d_vec)\n"),
("cyl","C18",S,"d_xz = safe_norm(pos_local[jnp.array([0, 2])]) - self.radius","d_xz = jnp.linalg.norm(pos_local[jnp.array([0, 2])]) - self.radius"),
("tor","C18",S,"q_x = safe_norm(pos_local[jnp.array([0, 2])]) - self.major_r","q_x = jnp.linalg.norm(pos_local[jnp.array([0, 2])]) - self.major_r"),
("eps0","C18",H,"def safe_norm(x, eps=1e-12, axis=None)","def safe_norm(x, eps=0.0, axis=None)"),
("mui_den","C18",L+"mu_i_rheology.py","jnp.sqrt(dot_gamma**2 + self.alpha**2)","jnp.sqrt(dot_gamma**2)"),
("mui_den2","C18",L+"mu_i_rheology.py","(pconf + self.d_p * dot_gamma)","(self.d_p * dot_gamma)"),
("dp_mu1","C18",L+"druckerprager.py","/ jnp.maximum(self.mu_1, 1e-8)","/ self.mu_1"),
("dp_sq","C18",L+"druckerprager.py","jnp.maximum(sqrt_J2_tr","jnp.maximum(0*sqrt_J2_tr"),
("mcc_q","C18",L+"modifiedcamclay.py","q_tr_safe = jnp.maximum(q_tr_safe, 1e-6)","q_tr_safe = q_tr_safe"),
("mcc_p","C18",L+"modifiedcamclay.py","p_prev = jnp.maximum(p_prev, self.p_min_calc)","p_prev = p_prev"),
("dtc","C18",L+"linearelastic.py","+ 1e-","- 1e-"),
("quat","C18",H,"def integrate_quaternion(","def integrate_quaternion_("),
("nrmgen","C18",O,"1e-","0*1e-"),
("interp","C18","shapefunctions/mapping.py","small_mass_cutoff: float = 1e-9","small_mass_cutoff: float = -1.0"),
("inertial","C18",H,"def get_inertial_number(p","def get_inertial_number(p"),
]
