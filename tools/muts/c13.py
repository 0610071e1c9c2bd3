B="common/builder.py"; A="solvers/usl_asflip.py"; MP="material_points/material_points.py"
M=[
("damp_side","C13",B,"        damping_force = Damping(\n            is_apply_on_grid=is_apply_on_grid,","        damping_force = Damping(\n            is_apply_on_grid=True,"),
("contact_react","C13",B,"            is_reaction=is_reaction,\n","            is_reaction=False,\n"),
("sdf_rot","C13",B,"                rotation=rotation,\n","                rotation=None,\n"),
("bmax","C13",A,"        self.beta_max = beta_max","        self.beta_max = beta_min"),
("cut","C13",A,"        self.small_mass_cutoff = small_mass_cutoff","        self.small_mass_cutoff = 1e-7"),
("mu_rho_p","C13","constitutive_laws/mu_i_rheology.py","jnp.sqrt(p_safe / self.rho_p)","jnp.sqrt(p_safe / 2650.0)"),
("mu_pmin","C13","constitutive_laws/mu_i_rheology.py","jnp.maximum(p, self.p_min_calc)","jnp.maximum(p, 0.0)"),
("dp_rho0","C13","constitutive_laws/druckerprager.py","            rho >= self.rho_0,","            rho >= 0.0,"),
("dp_H","C13","constitutive_laws/druckerprager.py","        self.H = H\n","        self.H = 0.0\n"),
("mcc_kmax","C13","constitutive_laws/modifiedcamclay.py","    K = jnp.clip(K, K_min, K_max)","    K = jnp.clip(K, K_min, None)"),
("normalize","C13","shapefunctions/mapping.py","        if normalize:","        if normalize or True:"),
("build_step","C13",B,"            step=step,","            step=0,"),
("couple_law","C13",B,"            c_idx=c_idx,\n            s_idx=s_idx,","            c_idx=p_idx if c_idx is not None else None,\n            s_idx=s_idx,"),
("r_local","C13",MP,"            F_stack if F_stack is not None else jnp.tile","            F_stack if (F_stack is not None and store_F) else jnp.tile"),
# behaviour preserving
("R_kw","C13 C17 C14",B,"        couple = BodyCoupling(\n            shape_map=shp,\n            p_idx=p_idx,","        ckw = dict(p_idx=p_idx)\n        couple = BodyCoupling(\n            **ckw,\n            shape_map=shp,"),
("R_pmin","C13",  "constitutive_laws/mu_i_rheology.py","jnp.maximum(p, self.p_min_calc)","jnp.where(p > self.p_min_calc, p, self.p_min_calc)"),
("R_dead","C13",A,"        self.cfl_limit = cfl_limit","        self.cfl_limit = cfl_limit\n        _unused = alpha"),
]
