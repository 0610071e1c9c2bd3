M=[

("hook_sig","C15","forces/damping.py","self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time","self, world, mechanics, sim_cache, sdf_logics, couplings, dt, time"),
("gridcont_attr","C15","forces/gridcontact.py","new_rec_mom, new_act_mom = jax.vmap(","new_rec_mom, new_act_moms = jax.vmap("),
("sdf_method","C15","solvers/usl.py","frictions = sdf_logic.get_surface_friction_stack(","frictions = sdf_logic.get_surface_frictions_stack("),
("vmap_axes","C15","sdf/sdfobject.py","return jax.vmap(self.get_velocity, in_axes=(None, 0,None))","return jax.vmap(self.get_velocity, in_axes=(None, 0))"),
("jnp_name","C15","solvers/usl.py","jnp.unravel_index(","jnp.unravel_indices("),
("jnp_kw","C15","solvers/usl_asflip.py","axis=1, keepdims=True)","axis=1, keepdim=True)"),
("cond_arity","C15","forces/gridcontact.py","lambda _: (mom_rec, mom_act), None)","lambda: (mom_rec, mom_act), None)"),
("asflip_field","C15","solvers/usl_asflip.py","    beta_max: float = eqx.field(static=True, default=0.5)\n",""),
("law_state_field","C15","constitutive_laws/modifiedcamclay.py","eps_e_next, p_c_next = jax.lax.cond(","eps_e_next = jax.lax.cond("),
("unbound_vtk","C15","common/rerun.py","import matplotlib.pyplot as plt  # For colormaps","# colormaps"),
("recursion","C15","utils/math_helpers.py","vmap_get_hencky = jax.vmap(get_hencky_strain)","vmap_get_hencky = jax.vmap(get_hencky_strain_stack)"),
("tree_at_count","C15","solvers/usl_asflip.py","                    grid_moment_stack,\n                    grid_force_stack,\n                ),","                    grid_moment_stack,\n                ),"),
("builder_kw","C15","common/builder.py","            is_reaction=is_reaction,\n            mass_ratio_limit=mass_ratio_limit,","            is_reaction=is_reaction,\n            max_mass_ratio=mass_ratio_limit,"),
("builder_none","C15","common/builder.py","bbox_min, bbox_max = sdf_logic.get_world_aabb()","bbox_min, bbox_max = sdf_logic.get_world_bounds()"),
("ann_bad","C15","sdf/sdfobject.py","""def get_signed_distance_stack(self, sdf_state: SDFObjectState,  pos_world_stack: Float[Array, "n dim"]) -> Float[Array, "n"]:""","""def get_signed_distance_stack(self, sdf_state: SDFObjectState,  pos_world_stack: Float[Array, "n dim"]) -> Float[Array, "n dim"]:"""),
("prop_call","C15","common/builder.py","            n_p = mp.num_points\n            total_p","            n_p = mp.num_points()\n            total_p"),
("summary_attr","C15","common/builder.py","name = solver.__class__.__name__","name = solver.name"),
("einsum","C15","solvers/usl.py",'"ijk,ikl->ijl", F_inc, mp_state.F_store_stack','"ijk,ikl->ijl", F_inc, mp_state.F_store'),
("ret_pair","C15","forces/gravity.py","        return world, mechanics","        return world"),
("sdf_kwargs","C15","sdf/sdfobject.py","def get_surface_friction_local(self, sdf_state, p_local","def get_surface_friction_local(self, p_local"),
# behaviour preserving
("R_helper","C15","solvers/usl.py","            node_pos = domain.position_stack\n","            node_pos = self._nodes_of(domain)\n","solvers/usl.py","    def _get_nodes_sdfs(self, world, sim_cache, dt, time):","    def _nodes_of(self, domain):\n        return domain.position_stack\n\n    def _get_nodes_sdfs(self, world, sim_cache, dt, time):"),
("R_lambda","C15","sdf/sdfobject.py","return jax.vmap(self.get_velocity, in_axes=(None, 0,None))(sdf_state, pos_world_stack, dt)","return jax.vmap(lambda x: self.get_velocity(sdf_state, x, dt))(pos_world_stack)"),
("R_getattr","C15","common/builder.py","name = solver.__class__.__name__","name = type(solver).__name__"),
("R_kwonly","C15","utils/math_helpers.py","vmap_get_KE = jax.vmap(get_KE, in_axes=(0, 0))","vmap_get_KE = jax.vmap(lambda m, v: get_KE(m, v))"),
("R_alias","C15","solvers/usl.py","import jax.numpy as jnp\n","import jax.numpy as jnp\nfrom jax.numpy import linalg as _la\n","solvers/usl.py","jnp.linalg.det(","_la.det("),
]
