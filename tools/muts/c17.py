B="common/builder.py"
M=[
("contactstate","C17",B,"        self.force_states.append(None)  # Stateless force\n","        \n"),
("gravidx","C17",B,"        f_idx = len(self.force_logics)\n        gravity_force","        f_idx = len([s for s in self.force_states if s is not None])\n        gravity_force"),
("dampidx","C17",B,"        f_idx = len(self.force_logics)\n        damping_force","        f_idx = len(self.force_logics) - 1\n        damping_force"),
("lawnone","C17",B,"        self.law_states.add(law_state)\n","        if law_state is not None:\n            self.law_states.add(law_state)\n"),
("sdforder","C17",B,"        sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)","        sdf_logics = tuple(self.sdf_logics[i] for i in reversed(sdf_idx_list))"),
("sidx","C17",B,"            s_idx = couple_idx  #","            s_idx = p_idx  #"),
("solstate","C17",B,"            self.solver_states[b_idx] = solver_state","            self.solver_states[coupling.p_idx] = solver_state"),
("gridsub","C17",B,"        grid_domains = tuple(self.grid_domains)\n","        grid_domains = tuple(self.grid_domains[i] for i in sorted({c.g_idx for c in couplings}))\n"),
("fsorted","C17",B,"tuple(self.force_logics[i] for i in f_idx_list)","tuple(self.force_logics[: len(f_idx_list)])"),
("timestep","C17",B,"            step=step,\n","            step=0,\n"),
("couplep","C17",B,"            p_idx = len(self.particle_states) - 1","            p_idx = 0"),
("regadd","C17",B,"        return len(self) - 1","        return len(self) - 1 if item is not None else 0"),
("regidx","C17",B,"        return len(self) - 1","        return self.index(item)"),
("nostates","C17",B,"            solvers=tuple(self.solver_states),","            solvers=tuple(s for s in self.solver_states if s is not None),"),
("laststate","C17",B,"            if isinstance(mp_state, RigidMaterialPointState):\n                solver_state = None","            if self.solver_states[b_idx] is not None or isinstance(mp_state, RigidMaterialPointState):\n                solver_state = None"),
("rigidlaw","C17",B,"        if skip_mpm_logic:\n            c_idx = None","        if skip_mpm_logic:\n            c_idx = 0"),
("forcestatesub","C17",B,"            forces=tuple(self.force_states),","            forces=tuple(s for s in self.force_states if s is not None),"),
("sdfret","C17",B,"            return sdf_idx, sdf_state","            return sdf_idx, self.sdf_states[0]"),
]
