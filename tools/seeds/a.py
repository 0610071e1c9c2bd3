HELP = '''
def two(order=((0, 1), (1, 0)), scheme="usl_aflip", grids=1, dim=3, laws=None, **kw):
    b = hdx.SimBuilder()
    for g in range(grids):
        b.add_grid(origin=(0.,) * dim, end=(1.,) * dim, cell_size=0.2)
    for k in range(2):
        n = 6 + 3 * k
        b.add_material_points(position_stack=cloud(k, n, dim), velocity_stack=rnd(10 + k, n, dim, s=0.1), stress_stack=jnp.zeros((n, 3, 3)) + (k + 1) * 50 * jnp.eye(3),
            mass_stack=jnp.full((n,), 0.01 * (k + 1)), volume_stack=jnp.full((n,), 1e-5))
    L = laws or [(hdx.LinearElasticLaw(E=1e4 * (k + 1), nu=0.3), None) for k in range(2)]
    for l, s in L:
        b.add_constitutive_law(law=l, law_state=s)
    for i, (p, c) in enumerate(order):
        b.couple(p_idx=p, g_idx=min(p, grids - 1), c_idx=c)
    b.set_solver(scheme=scheme, **kw)
    return b.build(dt=1e-3)
'''
BUGS = [
dict(id="c01-history-slot", property="C01", needs="couplings registered in another order than the laws",
     breaks="The updated law history is stored under the coupling's position instead of its law index, so laws exchange histories.",
     edits=[("hydraxmpm/solvers/usl.py", "            constitutive_law_states[c.c_idx] = constitutive_law_state\n", "            constitutive_law_states[i] = constitutive_law_state\n")],
     demo=HELP + '''
F = [hdx.NewtonFluid(K=1e4 * (k + 1)) for k in range(2)]
S = [f.create_state_from_density(jnp.full((n,), r)) for f, n, r in zip(F, (9, 6), (1000., 800.))]
sol, st = two(order=((0, 1), (1, 0)), laws=list(zip(F, S)))
out = sol(st)
for a, b in zip(out.mechanics.constitutive_laws, st.mechanics.constitutive_laws):
    if a.density_ref_stack.shape != b.density_ref_stack.shape: print("FAILED shapes"); sys.exit(1)
    close(a.density_ref_stack, b.density_ref_stack)
'''),
dict(id="c01-grid-read", property="C01", needs="two bodies coupled to different grids, where the grid index differs from the body's order",
     breaks="AFLIP gathers new velocities of a body from the grid of the previous coupling whenever more than one grid is active.",
     edits=[("hydraxmpm/solvers/usl_asflip.py", """            grid_cache = grids[c.g_idx]
            grid_domain = self.grid_domains[c.g_idx]
            mp_state = mp_states[c.p_idx]
""", """            grid_cache = grids[self.active_g_ids[c.p_idx % len(self.active_g_ids)]]
            grid_domain = self.grid_domains[c.g_idx]
            mp_state = mp_states[c.p_idx]
""")],
     demo=HELP + '''
def build(swap):
    b = hdx.SimBuilder()
    for g in range(2): b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.2)
    for k in range(2):
        b.add_material_points(position_stack=cloud(k, 8), velocity_stack=rnd(10 + k, 8, 3, s=0.1), mass_stack=jnp.full((8,), 0.01), volume_stack=jnp.full((8,), 1e-5))
    b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e4, nu=0.3))
    for p in range(2): b.couple(p_idx=p, g_idx=1 - p if swap else p, c_idx=0)
    b.set_solver(scheme="usl_aflip")
    sol, st = b.build(dt=1e-3)
    return sol(st)
A, B = build(False), build(True)
for p in range(2): close(A.world.material_points[p].velocity_stack, B.world.material_points[p].velocity_stack, what="velocity of body %d depends on grid numbering" % p)
'''),
dict(id="c01-reset-active", property="C01", needs="a solver that drives only a subset of the bodies",
     breaks="Bodies outside the solver lose their stored forces and velocity gradients.",
     edits=[("hydraxmpm/solvers/usl.py", "        active_particles_ids = set(c.p_idx for c in self.couplings)\n", "        active_particles_ids = range(max(self.active_p_ids) + 1)\n")],
     demo=HELP + '''
b = hdx.SimBuilder()
b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.2)
for k in range(2):
    b.add_material_points(position_stack=cloud(k, 8), L_stack=rnd(k, 8, 3, 3), mass_stack=jnp.full((8,), 0.01), volume_stack=jnp.full((8,), 1e-5))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e4, nu=0.3))
for p in range(2): b.couple(p_idx=p, g_idx=0, c_idx=0)
b.set_solver(scheme="usl", b_idx_list=[1])
sol, st = b.build(dt=1e-3)
close(sol(st).world.material_points[0].L_stack, st.world.material_points[0].L_stack, what="foreign body changed")
'''),
dict(id="c02-affine-grid", property="C02", needs="AFLIP with non-zero affine memory (second step) and a cell size different from one",
     breaks="The affine momentum contribution uses the distance in cell units instead of physical units.",
     edits=[("hydraxmpm/solvers/usl_asflip.py", "            dist_vec_phys = -1.0 * intr_cache.rel_dist * grid_domain.cell_size\n            affine_vel", "            dist_vec_phys = -1.0 * intr_cache.rel_dist / grid_domain._inv_cell_size**2\n            affine_vel")],
     demo=HELP + '''
sol, st = two(order=((0, 0), (1, 1)))
B = rnd(3, 6, 3, 3)
s0 = eqx.tree_at(lambda s: s.mechanics.solvers[0].Bp_stack, st, B)
w, m, c = sol._compute_connectivity(s0.world, s0.mechanics, hdx.common.simstate.SimCache(grids=[hdx.grid.grid.GridArrays.new(d) for d in sol.grid_domains], interactions={}, node_geoms={}, mp_geoms={}), st.dt, st.time)
w, m, c = sol._p2g(w, m, c, st.dt, st.time)
tot = np.asarray(c.grids[0].moment_stack)
pos = np.asarray(sol.grid_domains[0].position_stack)
# angular-type moment: sum x_i (m v)_i with v = v_p - B (x_i - x_p)
x = np.asarray(st.world.material_points[0].position_stack); v = np.asarray(st.world.material_points[0].velocity_stack)
i = c.interactions[(0, 0)]
want = np.zeros_like(tot)
for q, cc in ((0, sol.couplings[0]), (1, sol.couplings[1])):
    mp = w.material_points[q]; i = c.interactions[(q, 0)]
    xp = np.asarray(mp.position_stack)[np.asarray(i.point_ids)]; d = pos[np.asarray(i.node_hashes)] - xp
    Bp = np.asarray(m.solvers[q].Bp_stack)[np.asarray(i.point_ids)]
    vel = np.asarray(mp.velocity_stack)[np.asarray(i.point_ids)] - np.einsum("nij,nj->ni", Bp, d)
    np.add.at(want, np.asarray(i.node_hashes), (np.asarray(i.shape_vals) * np.asarray(mp.mass_stack)[np.asarray(i.point_ids)])[:, None] * vel)
close(tot, want, 1e-3, "grid momentum")
'''),
dict(id="c02-integrate-twice", property="C02", needs="two bodies sharing one grid",
     breaks="Forces are integrated once per body onto an already integrated momentum, so shared grids get a multiple of the impulse.",
     edits=[("hydraxmpm/solvers/usl.py", "            grid_moment_nt_stack = grid_cache.moment_stack + grid_cache.force_stack * dt\n", "            start = jnp.where(jnp.any(grid_cache.moment_nt_stack != 0.0), grid_cache.moment_nt_stack, grid_cache.moment_stack)\n            grid_moment_nt_stack = start + grid_cache.force_stack * dt\n")],
     demo=HELP + '''
sol, st = two(order=((0, 0), (1, 1)), scheme="usl")
from hydraxmpm.common.simstate import SimCache
from hydraxmpm.grid.grid import GridArrays
w, m, c = sol._compute_connectivity(st.world, st.mechanics, SimCache(grids=[GridArrays.new(d) for d in sol.grid_domains], interactions={}, node_geoms={}, mp_geoms={}), st.dt, st.time)
w, m, c = sol._p2g(w, m, c, st.dt, st.time)
w, m, c = sol._integrate_grid(w, m, c, st.dt, st.time)
g = c.grids[0]
close(g.moment_nt_stack, g.moment_stack + st.dt * g.force_stack, what="integrated momentum")
'''),
dict(id="c03-force-order", property="C03", needs="two forces where the second reads what the first changed",
     breaks="Grid-momentum hooks of all forces get the pre-hook cache, so all but the last force are dropped.",
     edits=[("hydraxmpm/solvers/usl.py", """        for force in self.forces:
            world, mechanics, sim_cache = force.apply_grid_moments(
                world,
                mechanics,
                sim_cache,
                self.sdf_logics,
                self.couplings,
                self.grid_domains,
                dt,
                time,
            )

        return""", """        integrated = sim_cache
        for force in self.forces:
            world, mechanics, sim_cache = force.apply_grid_moments(
                world,
                mechanics,
                integrated,
                self.sdf_logics,
                self.couplings,
                self.grid_domains,
                dt,
                time,
            )

        return""")],
     demo=HELP + '''
from hydraxmpm.forces.force import Force
class Kick(Force):
    k: float
    def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        g = sim_cache.grids[0]
        g = eqx.tree_at(lambda s: s.moment_nt_stack, g, g.moment_nt_stack + self.k * g.mass_stack[:, None])
        return world, mechanics, eqx.tree_at(lambda s: s.grids, sim_cache, (g,) + tuple(sim_cache.grids[1:]))
sol, st = two(order=((0, 0), (1, 1)))
v0 = sol(st).world.material_points[0].velocity_stack
s2 = eqx.tree_at(lambda s: s.forces, sol, (Kick(0.01), Kick(0.02)), is_leaf=lambda x: isinstance(x, tuple) and len(x) == 0)
v1 = s2(st).world.material_points[0].velocity_stack
close(v1 - v0, jnp.full_like(v0, 0.03), 1e-2, "both kicks must act")
'''),
dict(id="c03-stale-time", property="C03", needs="a force that depends on time",
     breaks="The time handed on is computed from the advanced step counter and so drifts from the number of steps taken.",
     edits=[("hydraxmpm/solvers/usl.py", "        time = time + dt\n", "        time = (state.step + 1) * dt\n")],
     demo=HELP + '''
sol, st = two(order=((0, 0), (1, 1)))
st = eqx.tree_at(lambda s: s.time, st, 2.5)
out = sol(st)
close(out.time, 2.5 + st.dt, 1e-6, "time")
'''),
]
