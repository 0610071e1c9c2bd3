M=[
("print","C04","solvers/usl.py","        dt = state.dt\n","        dt = state.dt\n        print('step', state.step)\n"),
("debugprint","C04","solvers/usl.py","        dt = state.dt\n","        dt = state.dt\n        jax.debug.print('step {}', state.step)\n"),
("geomcache","C04","solvers/usl.py","class USLSolver(BaseSolver):","_GEOM = {}\n\nclass USLSolver(BaseSolver):","solvers/usl.py","                normals = sdf_logic.get_normal_stack(sdf_state, node_pos)\n","                normals = _GEOM.setdefault((g_idx, s_idx), sdf_logic.get_normal_stack(sdf_state, node_pos))\n"),
("counter","C04","constitutive_laws/newtonfluid.py","        # Vectorize the physics over all particles\n","        NewtonFluid.calls = getattr(NewtonFluid, 'calls', 0) + 1\n"),
("selfmut","C04","forces/damping.py","        f_state = f_states[self.f_idx]\n","        f_state = f_states[self.f_idx]\n        object.__setattr__(self, 'f_idx', self.f_idx)\n"),
("listmut","C04","forces/damping.py","        f_state = f_states[self.f_idx]\n","        f_state = f_states[self.f_idx]\n        self.g_idx_list.sort()\n        self.g_idx_list.append(self.g_idx_list[0])\n"),
("pyif","C04","forces/damping.py","            f_total = grid_cache.force_stack\n","            f_total = grid_cache.force_stack\n            if jnp.max(jnp.abs(f_total)) == 0.0:\n                continue\n"),
("pyifalpha","C04","forces/damping.py","            f_total = grid_cache.force_stack\n","            f_total = grid_cache.force_stack\n            if f_state.alpha <= 0.0:\n                continue\n"),
("floatdt","C04","solvers/usl.py","        time = time + dt\n","        time = float(time) + dt\n"),
("npsign","C04","forces/damping.py","jnp.sign(v_grid)","np.sign(v_grid)","forces/damping.py","import jax.numpy as jnp","import jax.numpy as jnp\nimport numpy as np"),
("stepfloat","C04","solvers/usl.py","        step = state.step + 1\n","        step = state.step + 1.0\n"),
("forceslist","C04","forces/damping.py","            grid_cache = grids[g_idx]\n","            grid_cache = grids[g_idx]\n            mechanics = eqx.tree_at(lambda m: m.forces, mechanics, list(f_states))\n"),
("noise","C04","forces/damping.py","            f_total = grid_cache.force_stack\n","            f_total = grid_cache.force_stack + 1e-12*jax.random.normal(jax.random.PRNGKey(0), grid_cache.force_stack.shape)\n","forces/damping.py","import jax.numpy as jnp","import jax.numpy as jnp\nimport jax"),
("npnoise","C04","forces/damping.py","            f_total = grid_cache.force_stack\n","            f_total = grid_cache.force_stack + 1e-12*np.random.rand()\n","forces/damping.py","import jax.numpy as jnp","import jax.numpy as jnp\nimport numpy as np"),
("mask","C04","constitutive_laws/newtonfluid.py","        # Vectorize the physics over all particles\n","        dense = material_points_state.mass_stack[material_points_state.volume_stack > 0.0]\n"),
("worldlist","C04","solvers/usl.py","lambda w: w.sdfs, world, tuple(new_sdf_states))","lambda w: w.sdfs, world, new_sdf_states)"),
("rotshape","C04","sdf/sdfobject.py","            new_rot = sdf_state.rotation + sdf_state.angular_velocity * dt\n","            new_rot = jnp.atleast_1d(sdf_state.rotation + sdf_state.angular_velocity * dt)\n"),
("defaultarg","C04","forces/damping.py","def apply_grid_forces(\n        self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time\n    ):","def apply_grid_forces(\n        self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time, _memo={}\n    ):","forces/damping.py","            f_total = grid_cache.force_stack\n","            f_total = grid_cache.force_stack\n            _memo[g_idx] = f_total\n"),
("vtkmut","C04","common/vtk_io.py","        positions = np.array(mp_state.position_stack)\n","        positions = np.array(mp_state.position_stack)\n        object.__setattr__(mp_state, 'position_stack', positions)\n"),
("lawnone","C04","constitutive_laws/newtonfluid.py","        return new_p_state, law_state\n","        return new_p_state, None\n"),
("item","C04","forces/damping.py","-f_state.alpha * jnp.abs","-f_state.alpha.item() * jnp.abs"),
("timewall","C04","solvers/usl.py","        time = time + dt\n","        time = time + dt\n        import time as clock\n        clock.time()\n"),
("os","C04","forces/gravity.py","        if not self.is_apply_on_grid:\n","        import os\n        if not self.is_apply_on_grid or os.environ.get('NO_GRAV'):\n"),
("warn","C04","forces/gravity.py","        if not self.is_apply_on_grid:\n","        import warnings\n        warnings.warn('x')\n        if not self.is_apply_on_grid:\n"),
("R_localdict","C04","solvers/usl.py","        grid_union_masks = {}\n","        grid_union_masks = dict()\n        seen = []\n        seen.append(1)\n"),
("R_where","C04","forces/damping.py","* jnp.sign(v_grid)","* jnp.where(v_grid > 0, 1.0, jnp.where(v_grid < 0, -1.0, 0.0))"),
("R_pyifstatic","C04","forces/damping.py","            f_total = grid_cache.force_stack\n","            f_total = grid_cache.force_stack\n            if f_total.shape[0] == 0 or f_total.ndim != 2:\n                continue\n"),
("R_npconst","C04","forces/damping.py","* jnp.sign(v_grid)","* np.float32(1.0) * jnp.sign(v_grid)","forces/damping.py","import jax.numpy as jnp","import jax.numpy as jnp\nimport numpy as np"),
]
