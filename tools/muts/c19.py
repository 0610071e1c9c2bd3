T="element_tests/triaxial_test.py"; D="element_tests/driver.py"
M=[
("lat","C19",T,"lateral_rate = -0.5 * curr_rate","lateral_rate = -curr_rate"),
("axis","C19",T,"L = L.at[0, 2, 2].set(curr_rate)  # L_33","L = L.at[0, 2, 2].set(-curr_rate)  # L_33"),
("axis2","C19",T,"L_final = L_final.at[0, 2, 2].set(curr_rate)\n                return L_final\n\n            def get_L_und","L_final = L_final.at[0, 2, 2].set(self.axial_rate if 0 else -curr_rate)\n                return L_final\n\n            def get_L_und"),
("sxx","C19",T,"sigma_xx = mp_out.stress_stack[0, 0, 0]","sigma_xx = mp_out.stress_stack[0, 2, 2]"),
("mean","C19",T,"jnp.trace(mp_out.stress_stack[0]) / 3.0","jnp.trace(mp_out.stress_stack[0]) / 2.0"),
("damp","C19",T,"x_new = x + 0.8 * dx","x_new = x + 0.08 * dx"),
("init","C19",T,"mp_next, law_next = self.solver.step(mp, law, L_next, curr_dt)","mp_next, law_next = self.solver.step(mp_init, law, L_next, curr_dt)"),
("law","C19",T,"return (mp_next, law_next), (mp_next, law_next)  # carry","return (mp_next, law), (mp_next, law_next)  # carry"),
("idx","C19",T,"self.axial_rate[idx]","self.axial_rate[0]"),
("dtidx","C19",T,"self.dt[idx]","self.dt[0]"),
("rev","C19",T,"reshape((num_snapshots, self.stride))","reshape((self.stride, num_snapshots)).T"),
("iters","C19",T,"length=self.num_newton_iters","length=2"),
("und","C19",T,"jax.lax.cond(self.is_undrained, get_L_undrained, get_L_drained)","jax.lax.cond(self.is_undrained, get_L_drained, get_L_undrained)"),
("static","C19",T,"idx == 0,","idx == 1,"),
("cum","C19",T,"jnp.cumsum(incr_strain)","incr_strain"),
("exp","C19",D,"expm(-L_input * dt)","expm(L_input * dt)"),
("ordr","C19",D,"F_inc @ mp_state.F_stack","mp_state.F_stack @ F_inc"),
("old","C19",D,"(L_input, F_next)\n","(L_input, mp_state.F_stack)\n"),
("strs","C19",D,"mp_next.stress_stack, vol_next","mp_state.stress_stack, vol_next"),
("hist","C19",D,"), law_next","), law_state"),
("dt2","C19",D,"update(mp_temp, law_state, dt)","update(mp_temp, law_state, 2 * dt)"),
("spin","C19","constitutive_laws/linearelastic.py","K * ","K * 0 * "),
]
