G="forces/gravity.py"; D="forces/damping.py"; B="common/builder.py"
M=[
("fidx0","C24",G,"            f_state = f_states[self.f_idx]\n\n        # Loop over all grid ids","X"),
("gside","C24",G,"        if not self.is_apply_on_grid:\n            return world, mechanics, sim_cache\n","        if not self.is_apply_on_grid and not self.p_idx_list:\n            return world, mechanics, sim_cache\n"),
("pside","C24",G,"        if self.is_apply_on_grid:\n            return world, mechanics, sim_cache\n","        if self.is_apply_on_grid and len(self.g_idx_list) == len(sim_cache.grids):\n            return world, mechanics, sim_cache\n"),
("allgr","C24",G,"        for g_idx in self.g_idx_list:\n","        for g_idx in range(len(self.g_idx_list)):\n"),
("vol","C24",G,"mp_state.mass_stack[:, None] * f_state.gravity","mp_state.density_stack[:, None]*mp_state.volume0_stack[:,None] * f_state.gravity"),
("statewrite","C24",G,"        f_states[self.f_idx] = f_state\n\n        sim_cache","        f_states[self.f_idx] = eqx.tree_at(lambda s: s.gravity, f_state, f_state.gravity * (1.0 + 0.0 * dt) * jnp.minimum(1.0, time + 1.0))\n\n        sim_cache"),
("dsign","C24",D,"jnp.abs(f_total) * jnp.sign(v_grid)","f_total * jnp.abs(jnp.sign(v_grid))"),
("dmag","C24",D,"jnp.abs(f_total) * jnp.sign(v_grid)","jnp.linalg.norm(f_total, axis=1, keepdims=True) * jnp.sign(v_grid)"),
("dnt","C24",D,"grid_cache.moment_stack / (","grid_cache.moment_nt_stack / ("),
("dtanh","C24",D,"jnp.sign(v_part)","jnp.tanh(v_part)"),
("dpos","C24",D,"jnp.abs(f_total) * jnp.sign(v_part)","jnp.maximum(f_total,0.0) * jnp.sign(v_part)"),
("dfidx","C24",D,"        f_state = f_states[self.f_idx]\n\n        for p_idx","        f_state = f_states[0]\n\n        for p_idx"),
("blist","C24",B,"        gravity_force = Gravity(\n            is_apply_on_grid=is_apply_on_grid,\n            g_idx_list=g_idx_list,\n            p_idx_list=p_idx_list,","        gravity_force = Gravity(\n            is_apply_on_grid=is_apply_on_grid,\n            g_idx_list=g_idx_list,\n            p_idx_list=g_idx_list,"),
("bfidx","C24",B,"        damping_force = Damping(\n            is_apply_on_grid=is_apply_on_grid,\n            g_idx_list=g_idx_list,\n            p_idx_list=p_idx_list,\n            f_idx=f_idx,","        damping_force = Damping(\n            is_apply_on_grid=is_apply_on_grid,\n            g_idx_list=g_idx_list,\n            p_idx_list=p_idx_list,\n            f_idx=len(self.force_states) - 1,"),
("bside","C24",B,"        damping_force = Damping(\n            is_apply_on_grid=is_apply_on_grid,","        damping_force = Damping(\n            is_apply_on_grid=True,"),
("uslpre","C24","solvers/usl.py","world, mechanics, sim_cache = force.apply_grid_forces(","world, mechanics, sim_cache = force.apply_grid_forces("),
]
