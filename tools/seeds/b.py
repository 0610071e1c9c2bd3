ns = {}
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/seeds", "a.py")).read(), ns)
HELP = ns["HELP"]
BUGS = [
dict(id="c04-clock-dtype", property="C04", needs="driving the solver inside jax.lax.scan / fori_loop, as the examples do",
     breaks="The step counter becomes a floating point number after one step, so the state is no longer a valid loop carry.",
     edits=[("hydraxmpm/solvers/usl.py", "        step = state.step + 1\n", "        step = state.step + jnp.ones(())\n")],
     demo=HELP + '''
sol, st = two()
st = jax.tree.map(lambda x: jnp.asarray(x, jnp.int32 if isinstance(x, int) else jnp.float32) if isinstance(x, (int, float)) else x, st)
dyn, sta = eqx.partition(st, eqx.is_array)
def body(c, _):
    return eqx.partition(sol(eqx.combine(c, sta)), eqx.is_array)[0], None
try:
    out, _ = jax.lax.scan(body, dyn, None, length=3)
except Exception as e:
    print("FAILED", str(e)[:300]); sys.exit(1)
'''),
dict(id="c05-mls-transposed", property="C05", needs="AFLIP with the MLS update and a velocity field with shear or rotation",
     breaks="The velocity gradient (and affine matrix) of the MLS update is transposed, so forces and velocity gradient are no longer adjoint.",
     edits=[("hydraxmpm/solvers/usl_asflip.py", '''                    "ij,ik->ijk", intr_vels_nt_3d, intr_cache.shape_grads
''', '''                    "ik,ij->ijk", intr_vels_nt_3d, intr_cache.shape_grads
''')],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.1)
x = cloud(1, 400, lo=0.3, hi=0.7)
v = jnp.stack([x[:, 1] * 0.2, 0 * x[:, 0], 0 * x[:, 0]], 1)
b.add_material_points(position_stack=x, velocity_stack=v, mass_stack=jnp.full((400,), 0.01), volume_stack=jnp.full((400,), 1e-5))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1., nu=0.3)); b.couple(p_idx=0, g_idx=0, c_idx=0)
b.set_solver(scheme="usl_aflip"); sol, st = b.build(dt=1e-6)
L = np.asarray(sol(st).world.material_points[0].L_stack).mean(0)
# L = -grad v: only the (0,1) entry is non-zero
if not abs(L[0, 1] + 0.2) < 0.1 or abs(L[1, 0]) > 0.05: print("FAILED", L); sys.exit(1)
'''),
dict(id="c06-mui-wavespeed", property="C06", needs="critical time step of the mu(I) law with a bulk modulus other than one",
     breaks="The wave speed in the stable step of the mu(I) law mixes units: sqrt(K)/rho instead of sqrt(K/rho).",
     edits=[("hydraxmpm/constitutive_laws/mu_i_rheology.py", "            return jnp.sqrt(self.K / rho)\n", "            return jnp.sqrt(self.K) / rho\n")],
     demo='''
from hydraxmpm.constitutive_laws.mu_i_rheology import MuI_LC
law = MuI_LC(mu_s=0.3, mu_d=0.6, I_0=0.3, d_p=1e-3, K=1e6)
mp = hdx.MaterialPointState.create(position_stack=cloud(1, 4), mass_stack=jnp.full((4,), 1000.), volume_stack=jnp.full((4,), 1.), velocity_stack=jnp.zeros((4, 3)))
close(law.get_dt_crit(mp, 0.1), 0.5 * 0.1 / np.sqrt(1e6 / 1000.), tol=1e-3)
'''),
dict(id="c07-quad-grad-2d", property="C07", needs="a quadratic kernel in 2D away from the stencil's diagonal",
     breaks="The y-derivative of the 2D quadratic kernel is multiplied by the y basis instead of the x basis.",
     edits=[("hydraxmpm/shapefunctions/quadratic.py", '''                dbasis.at[1].get() * basis.at[0].get(),
            ]''', '''                dbasis.at[1].get() * basis.at[-1].get(),
            ]''')],
     demo='''
from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
m = ShapeFunctionMapping("quadratic", 2)
x = cloud(3, 5, 2)
c = m.compute(x, origin=(0., 0.), grid_size=(11, 11), inv_cell_size=10.)
g = np.zeros((5, 3)); np.add.at(g, np.asarray(c.point_ids), np.asarray(c.shape_grads))
close(g, 0 * g + 0.0, tol=1, what="sum of gradients") if np.abs(g).max() > 1e-3 else None
nodes = np.stack(np.unravel_index(np.asarray(c.node_hashes), (11, 11)), 1) * 0.1
J = np.zeros((5, 2, 2)); np.add.at(J, np.asarray(c.point_ids), nodes[:, :, None] * np.asarray(c.shape_grads)[:, None, :2])
close(J, np.broadcast_to(np.eye(2), J.shape), tol=1e-3, what="linear field gradient")
'''),
dict(id="c08-outside-node", property="C08", needs="a particle next to the upper edge of the grid in one direction only",
     breaks="The upper validity test accepts one node row beyond the grid; its contribution is folded onto the boundary row.",
     edits=[("hydraxmpm/shapefunctions/mapping.py", "node_idx < jnp.array(grid_size)))", "node_idx <= jnp.array(grid_size)))")],
     demo='''
from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
m = ShapeFunctionMapping("cubic", 2)
x = jnp.array([[0.97, 0.53]])
c = m.compute(x, origin=(0., 0.), grid_size=(11, 11), inv_cell_size=10.)
# nodes beyond the grid must have no weight: compare with a larger grid restricted to the small one
d = m.compute(x, origin=(0., 0.), grid_size=(20, 20), inv_cell_size=10.)
A = np.zeros((11, 11)); np.add.at(A, np.unravel_index(np.asarray(c.node_hashes), (11, 11)), np.asarray(c.shape_vals))
B = np.zeros((20, 20)); np.add.at(B, np.unravel_index(np.asarray(d.node_hashes), (20, 20)), np.asarray(d.shape_vals))
close(A, B[:11, :11], what="weights near the edge")
'''),
dict(id="c09-friction-separating", property="C09", needs="a node inside the obstacle that moves away from it while sliding",
     breaks="Friction acts on nodes that separate from the obstacle (the limit uses the magnitude of the relative normal velocity).",
     edits=[("hydraxmpm/forces/sdf_collider.py", "    friction_limit = friction_coeff * delta_v_kinematic\n", "    friction_limit = friction_coeff * jnp.abs(v_bias - v_n_mag)\n")],
     demo='''
from hydraxmpm.forces.sdf_collider import apply_frictional_contact
v = jnp.array([1.0, 0.5, 0.0])
out = apply_frictional_contact(v, -0.01, jnp.array([0., 1., 0.]), jnp.zeros(3), 0.4, 1e-3, 1e-4)
close(out, v, what="separating node")
'''),
dict(id="c10-composite-friction", property="C10", needs="a composite obstacle whose parts have different friction and a rotated body",
     breaks="The friction of a composite obstacle is the one of the farthest part.",
     edits=[("hydraxmpm/sdf/sdfcollection.py", '''        # Friction of the closest surface
        idx = jnp.argmin(dists)
''', '''        # Friction of the closest surface
        idx = jnp.argmin(jnp.abs(dists))
''')],
     demo='''
from hydraxmpm.sdf.sdfcollection import SphereSDF, CompositeSDF, BoxSDF
s = CompositeSDF([SphereSDF(0.2), BoxSDF(jnp.array([1.0, 0.3, 0.3]))], [0.1, 0.7])
st = s.create_state(jnp.zeros(3))
# p lies 0.1 inside the box and 0.05 outside the sphere: the union's surface is governed by the box
p = jnp.array([0.25, 0.0, 0.0])
close(s.get_surface_friction(st, p), 0.7, what="friction of a point inside the box")
'''),
dict(id="c10-velocity-2d", property="C10", needs="a rotating 2D obstacle that is itself rotated",
     breaks="The wall velocity of a rotating 2D obstacle is computed with the lever arm in the obstacle's own frame.",
     edits=[("hydraxmpm/sdf/sdfobject.py", '''        p_local = pos_world - sdf_state.center_of_mass
        
        # v = v_lin + w x r''', '''        p_local = self.transform_to_local(sdf_state, pos_world)
        
        # v = v_lin + w x r''')],
     demo='''
from hydraxmpm.sdf.sdfcollection import BoxSDF
s = BoxSDF(jnp.array([1., 1.]))
st = s.create_state(jnp.array([0.2, 0.1]), rotation=0.6, angular_velocity=2.0)
close(s.get_velocity(st, jnp.array([0.7, 0.4]), 1e-3), [-2 * 0.3, 2 * 0.5])
'''),
dict(id="c11-dp-hardening", property="C11", needs="cohesive Drucker-Prager material with hardening, yielding on the smooth cone",
     breaks="The accumulated plastic strain on the cone ignores the cohesion parameter, so the updated state is not on the hardened yield surface.",
     edits=[("hydraxmpm/constitutive_laws/druckerprager.py", "eps_p_acc_cone = eps_p_acc_prev + self.mu_2 * pmulti\n", "eps_p_acc_cone = eps_p_acc_prev + pmulti\n")],
     demo='''
law = hdx.DruckerPrager(K=1e6, nu=0.3, mu_1=0.5, mu_2=0.8, c0=1e3, mu_1_hat=0.1, H=5e4, rho_0=1.)
L = jnp.array([[0.1, 1.0, 0.2], [0.4, 0.2, 0.1], [0., 0.3, 0.1]])
s0 = 2e3 * jnp.eye(3)
s, e, a = law._update_stress(L, s0, jnp.zeros((3, 3)), 0.01, 2e3, 1000., 5e-2)
dev = s - jnp.trace(s) / 3 * jnp.eye(3)
close(jnp.sqrt(0.5 * jnp.sum(dev * dev)), 0.5 * jnp.trace(s) / 3 + 0.8 * (1e3 + 5e4 * a), tol=1e-3, what="yield surface")
'''),
dict(id="c11-mcc-hardening", property="C11", needs="Cam-Clay loading beyond the yield surface",
     breaks="Hardening uses lambda instead of lambda - kappa.",
     edits=[("hydraxmpm/constitutive_laws/modifiedcamclay.py", "                deps_p_v =  self._cp * (u_p_c - u_p_c_prev)\n", "                deps_p_v =  self.lam * (u_p_c - u_p_c_prev)\n")],
     demo='''
law = hdx.ModifiedCamClay(nu=0.3, M=1.1, lam=0.2, kap=0.05, N=2.0)
p = jnp.array([1e5])
st, s, rho = law.create_state_from_ocr(p, 1.0)
L = jnp.eye(3) / 3 * 0.02
out = law._update_stress(L, st.eps_e_stack[0], s[0], st.p_c_stack[0], st.stress_ref_stack[0], 2650. / rho[0], 1.0)
close(out[2], 1e5 * np.exp(0.02 / 0.2), tol=2e-3, what="isotropic compression of a normally consolidated sample")
'''),
dict(id="c12-f-order", property="C12", needs="a deformation gradient that does not commute with the increment",
     breaks="USL multiplies the increment from the right.",
     edits=[("hydraxmpm/solvers/usl.py", 'p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)', 'p_F_next = jnp.einsum("ijk,ikl->ijl", mp_state.F_stack, F_inc)')],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.1)
x = cloud(1, 300, lo=0.3, hi=0.7)
b.add_material_points(position_stack=x, velocity_stack=rnd(2, 300, 3), F_stack=jnp.tile(jnp.array([[1., .5, 0], [0, 1, 0], [0, 0, 1.2]]), (300, 1, 1)), mass_stack=jnp.full((300,), 0.01), volume_stack=jnp.full((300,), 1e-5))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1., nu=0.3, requires_F_reset=False)); b.couple(p_idx=0, g_idx=0, c_idx=0)
b.set_solver(scheme="usl"); sol, st = b.build(dt=1e-2)
m = sol(st).world.material_points[0]
close(m.F_stack, jnp.einsum("nij,njk->nik", jnp.eye(3) - m.L_stack * 1e-2, st.world.material_points[0].F_stack))
'''),
dict(id="c13-cfl-ignored", property="C13", needs="a CFL limit other than the default, and a particle fast enough to be clamped",
     breaks="The cfl_limit option of the AFLIP solver has no effect.",
     edits=[("hydraxmpm/solvers/usl_asflip.py", "            max_speed = self.cfl_limit * grid_domain.cell_size / dt\n", "            max_speed = 0.5 * grid_domain.cell_size / dt\n")],
     demo=HELP + '''
a = two(cfl_limit=0.001)[0:2]; sp = []
for lim in (0.001, 0.01):
    sol, st = two(cfl_limit=lim)
    st = eqx.tree_at(lambda s: s.world.material_points[0].velocity_stack, st, jnp.full((6, 3), 10.0))
    v = sol(st).world.material_points[0].velocity_stack
    if float(jnp.linalg.norm(v, axis=1).max()) > lim * 0.2 / 1e-3 * 1.001: print("FAILED", lim, v); sys.exit(1)
'''),
dict(id="c14-unknown-kernel", property="C14", needs="a misspelt shape function name",
     breaks="Unknown kernel names silently select the cubic kernel.",
     edits=[("hydraxmpm/shapefunctions/mapping.py", "        self._shapefunction_call = kernels[shapefunction][0]\n        self.shapefunction = shapefunction\n", "        self.shapefunction = shapefunction if shapefunction in kernels else \"cubic\"\n        self._shapefunction_call = kernels[self.shapefunction][0]\n")],
     demo='''
from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
for bad in ("quadr", "Linear", ""):
    try: ShapeFunctionMapping(bad, 3)
    except (KeyError, ValueError, NotImplementedError): continue
    print("FAILED accepted", repr(bad)); sys.exit(1)
'''),
dict(id="c15-particle-damping", property="C15", needs="damping applied on the particles instead of the grid",
     breaks="Particle damping reads a member that material points do not have.",
     edits=[("hydraxmpm/forces/damping.py", "            v_part = mp_state.velocity_stack \n", "            v_part = mp_state.moment_stack / mp_state.mass_stack[:, None]\n")],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.2)
b.add_material_points(position_stack=cloud(1, 5), velocity_stack=rnd(2, 5, 3), mass_stack=jnp.full((5,), 0.01), volume_stack=jnp.full((5,), 1e-5))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1., nu=0.3)); b.couple(p_idx=0, g_idx=0, c_idx=0)
b.add_gravity(gravity=(0., 0., -9.81), is_apply_on_grid=False)
b.add_damping(alpha=0.1, is_apply_on_grid=False)
b.set_solver(scheme="usl"); sol, st = b.build(dt=1e-3)
try: sol(st)
except AttributeError as e: print("FAILED", e); sys.exit(1)
'''),
dict(id="c16-load-name", property="C16", needs="loading a state whose step has fewer than five digits",
     breaks="load_simulation looks for a file name that save_step never writes.",
     edits=[("hydraxmpm/common/sim_io.py", '''    state_path = os.path.join(directory, f"state_{int(step):05d}.eqx")
''', '''    state_path = os.path.join(directory, f"state_{int(step):5d}.eqx")
''')],
     demo=HELP + '''
import tempfile
from hydraxmpm.common.sim_io import SimIO, load_simulation
with tempfile.TemporaryDirectory() as d:
    sol, st = two(); st = sol(st)
    io = SimIO(output_dir=d + "/out"); io.save_solver(sol); io.save_step(st)
    s0, t0 = two()
    try: a, b = load_simulation(d + "/out", s0, sol(t0), 1)
    except Exception as e: print("FAILED", e); sys.exit(1)
    close(b.world.material_points[0].velocity_stack, st.world.material_points[0].velocity_stack)
'''),
dict(id="c17-solver-slot", property="C17", needs="bodies coupled in another order than they were added, different particle counts",
     breaks="Couplings point at the solver state of the body index, while the states are stored per coupling.",
     edits=[("hydraxmpm/common/builder.py", "            s_idx = couple_idx  # assume one-to-one mapping to solver state\n", "            s_idx = p_idx  # assume one-to-one mapping to solver state\n")],
     demo=HELP + '''
try: sol, st = two(order=((1, 1), (0, 0))); out = sol(st)
except Exception as e: print("FAILED", str(e)[:200]); sys.exit(1)
for c in sol.couplings:
    if st.mechanics.solvers[c.s_idx].Bp_stack.shape[0] != st.world.material_points[c.p_idx].num_points: print("FAILED shapes"); sys.exit(1)
'''),
dict(id="c17-gravity-index", property="C17", needs="two body forces registered in one scene",
     breaks="The damping force reads the state slot of the force registered before it.",
     edits=[("hydraxmpm/common/builder.py", '''        damping_force = Damping(
            is_apply_on_grid=is_apply_on_grid,
            g_idx_list=g_idx_list,
            p_idx_list=p_idx_list,
            f_idx=f_idx,
        )''', '''        damping_force = Damping(
            is_apply_on_grid=is_apply_on_grid,
            g_idx_list=g_idx_list,
            p_idx_list=p_idx_list,
            f_idx=max(f_idx - 1, 0) if f_idx % 2 == 0 else f_idx,
        )''')],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.2)
b.add_material_points(position_stack=cloud(1, 5), mass_stack=jnp.full((5,), 0.01), volume_stack=jnp.full((5,), 1e-5))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1., nu=0.3)); b.couple(p_idx=0, g_idx=0, c_idx=0)
for k in range(3): b.add_damping(alpha=0.1 * (k + 1))
b.set_solver(scheme="usl"); sol, st = b.build(dt=1e-3)
for k, f in enumerate(sol.forces):
    close(st.mechanics.forces[f.f_idx].alpha, 0.1 * (k + 1))
'''),
dict(id="c18-zero-volume-node", property="C18", needs="an obstacle over grid nodes that no particle reaches",
     breaks="Empty nodes divide by zero mass in the obstacle contact and poison the momentum with NaN.",
     edits=[("hydraxmpm/forces/sdf_collider.py", "inv_mass = jnp.where(grid_cache.mass_stack > 1e-14, 1.0 / grid_cache.mass_stack, 0.0)", "inv_mass = 1.0 / grid_cache.mass_stack")],
     demo='''
from hydraxmpm.sdf.sdfcollection import PlaneSDF
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.2)
b.add_material_points(position_stack=cloud(1, 5), velocity_stack=rnd(2, 5, 3), mass_stack=jnp.full((5,), 0.01), volume_stack=jnp.full((5,), 1e-5))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1., nu=0.3)); b.couple(p_idx=0, g_idx=0, c_idx=0)
b.add_sdf_object(sdf_logic=PlaneSDF(jnp.array([0., 0., 1.])), center_of_mass=jnp.array([0.5, 0.5, 0.3]))
b.add_sdf_collider(sdf_idx=0)
b.set_solver(scheme="usl"); sol, st = b.build(dt=1e-3)
from hydraxmpm.common.simstate import SimCache
from hydraxmpm.grid.grid import GridArrays
seen = []
orig = type(sol)._g2p
c = SimCache(grids=[GridArrays.new(d) for d in sol.grid_domains], interactions={}, node_geoms={}, mp_geoms={})
w, m, c = sol._compute_connectivity(st.world, st.mechanics, c, st.dt, st.time)
c, _ = sol._get_nodes_sdfs(w, c, st.dt, st.time)
w, m, c = sol._p2g(w, m, c, st.dt, st.time)
w, m, c = sol._integrate_grid(w, m, c, st.dt, st.time)
if not bool(jnp.isfinite(c.grids[0].moment_nt_stack).all()): print("FAILED nan"); sys.exit(1)
'''),
dict(id="c20-beta-support", property="C20", needs="AFLIP with dynamic support, a particle with partial support",
     breaks="The dynamic FLIP share divides by the upper support bound instead of the support range.",
     edits=[("hydraxmpm/solvers/usl_asflip.py", "                support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)\n", "                support_ratio = p_mass_support / (mp_state.mass_stack.mean() + 1e-9)\n")],
     demo=HELP + '''
def run(other):
    b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(4., 1., 1.), cell_size=0.2)
    x = jnp.concatenate([cloud(1, 60), cloud(2, 4) + jnp.array([2.6, 0, 0])])
    m = jnp.concatenate([jnp.full((60,), 0.01), jnp.full((4,), other)])
    b.add_material_points(position_stack=x, velocity_stack=rnd(3, 64, 3, s=0.1), mass_stack=m, volume_stack=jnp.full((64,), 1e-5))
    b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1., nu=0.3)); b.couple(p_idx=0, g_idx=0, c_idx=0)
    b.set_solver(scheme="usl_aflip"); sol, st = b.build(dt=1e-3)
    return sol(st).world.material_points[0].velocity_stack[:60]
close(run(0.01), run(5.0), what="far away particles influence the blending")
'''),
dict(id="c21-dev-stack", property="C21", needs="the stacked helper called with more than one tensor",
     breaks="Deviatoric strain of a stack uses the volumetric strain of the first entry.",
     edits=[("hydraxmpm/utils/math_helpers.py", "    return strain - (vol_strain[..., None, None] / 3.0) *jnp.eye(3)\n", "    return strain - (jnp.ravel(vol_strain)[0] / 3.0) *jnp.eye(3)\n")],
     demo='''
from hydraxmpm.utils.math_helpers import get_dev_strain_stack
s = rnd(1, 4, 3, 3)
close(jnp.trace(get_dev_strain_stack(s), axis1=1, axis2=2), jnp.zeros(4), tol=1) if float(jnp.abs(jnp.trace(get_dev_strain_stack(s), axis1=1, axis2=2)).max()) > 1e-4 else None
'''),
dict(id="c22-aflip-oop", property="C22", needs="a 2D AFLIP run whose stored deformation gradient has an out-of-plane entry",
     breaks="In plane strain the out-of-plane stretch of the AFLIP deformation gradient is taken from the in-plane one.",
     edits=[("hydraxmpm/solvers/usl_asflip.py", "                p_F_next = p_F_next.at[:, 2, 2].set(1.0)\n", "                p_F_next = p_F_next.at[:, 2, 2].set(p_F_next[:, 1, 1] ** 0.01)\n")],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 2, end=(1.,) * 2, cell_size=0.1)
x = cloud(1, 60, 2)
b.add_material_points(position_stack=x, velocity_stack=rnd(2, 60, 2), mass_stack=jnp.full((60,), 0.01), volume_stack=jnp.full((60,), 1e-3))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1., nu=0.3, requires_F_reset=False)); b.couple(p_idx=0, g_idx=0, c_idx=0)
b.set_solver(scheme="usl_aflip"); sol, st = b.build(dt=1e-2)
F = sol(st).world.material_points[0].F_stack
close(F[:, 2, 2], jnp.ones(60), tol=1e-6)
'''),
dict(id="c23-stress-state", property="C23", needs="Cam-Clay start on the yield surface with shear (M other than one)",
     breaks="The consolidation pressure derived from a stress state ignores M.",
     edits=[("hydraxmpm/constitutive_laws/modifiedcamclay.py", "        term = (q_p / self.M)**2 + 1.0\n", "        term = q_p**2 / self.M + 1.0\n")],
     demo='''
law = hdx.ModifiedCamClay(nu=0.3, M=1.4, lam=0.2, kap=0.05, N=2.0)
p, q = jnp.array([1e5, 2e5]), jnp.array([5e4, 1e5])
st, rho = law.create_state_from_stress(p, q)
close((q / 1.4) ** 2 + p * p, st.p_c_stack * p, what="start not on the yield surface")
'''),
dict(id="c24-damping-component", property="C24", needs="damping with a velocity whose components have different signs",
     breaks="Damping uses the sign of the first velocity component for every direction.",
     edits=[("hydraxmpm/forces/damping.py", "            damping_force = -f_state.alpha * jnp.abs(f_total) * jnp.sign(v_grid)\n", "            damping_force = -f_state.alpha * jnp.abs(f_total) * jnp.sign(v_grid[:, :1])\n")],
     demo=HELP + '''
from hydraxmpm.forces.damping import Damping
from hydraxmpm.common.simstate import SimCache
from hydraxmpm.grid.grid import GridArrays
sol, st = two()
n = sol.grid_domains[0].num_cells
g = GridArrays.new(sol.grid_domains[0])
f, v = rnd(1, n, 3), rnd(2, n, 3)
g = eqx.tree_at(lambda a: (a.mass_stack, a.moment_stack, a.force_stack), g, (jnp.ones(n), v, f))
d = Damping(is_apply_on_grid=True, f_idx=0)
m = eqx.tree_at(lambda m: m.forces, st.mechanics, (d.create_state(0.3),), is_leaf=lambda x: isinstance(x, tuple) and len(x) == 0)
_, _, c = d.apply_grid_forces(st.world, m, SimCache(grids=[g], interactions={}, node_geoms={}, mp_geoms={}), (), sol.couplings, sol.grid_domains, 1e-3, 0.)
close(c.grids[0].force_stack, f - 0.3 * jnp.abs(f) * jnp.sign(v))
'''),
dict(id="c25-elastic-modulus", property="C25", needs="a shear stiffness that matters (nu away from 0.5)",
     breaks="The stable step of the elastic law uses the Lame modulus for the bulk modulus, so the step is too large.",
     edits=[("hydraxmpm/constitutive_laws/linearelastic.py", "        M = self.K + (4.0 / 3.0) * self.G\n", "        M = self.lam + (4.0 / 3.0) * self.G\n")],
     demo='''
law = hdx.LinearElasticLaw(E=1e6, nu=0.3)
mp = hdx.MaterialPointState.create(position_stack=cloud(1, 4), mass_stack=jnp.full((4,), 1000.), volume_stack=jnp.full((4,), 1.), velocity_stack=jnp.zeros((4, 3)))
c = np.sqrt(1e6 * 0.7 / (1.3 * 0.4) / 1000)
close(law.get_dt_crit(mp, 0.1), 0.5 * 0.1 / c, tol=1e-3)
'''),
dict(id="c26-range-end", property="C26", needs="regular particle generation with bounds that are no multiple of the cell size",
     breaks="The last partially covered cell row is not filled.",
     edits=[("hydraxmpm/utils/generate_body.py", "        end_idx = jnp.ceil(bounds_max / cell_size).astype(int)\n", "        end_idx = jnp.floor(bounds_max / cell_size).astype(int)\n")],
     demo='''
from hydraxmpm.utils.generate_body import generate_particles_in_sdf
from hydraxmpm.sdf.sdfcollection import BoxSDF
pts = generate_particles_in_sdf(sdf_obj=BoxSDF(jnp.array([0.5, 0.5])), bounds_min=jnp.array([0.05, 0.05]), bounds_max=jnp.array([0.55, 0.55]), mode="regular", cell_size=0.1, ppc=4)
if float(pts[:, 0].max()) < 0.52: print("FAILED", pts.max(0)); sys.exit(1)
'''),
dict(id="c03-normal-stress-read", property="C03", needs="a law that changes the stress within the step",
     breaks="USL evaluates the law before the particles moved: the stress update uses the velocity gradient of the previous step (update order).",
     edits=[("hydraxmpm/solvers/usl.py", '''        # Grid to Particle Transfer
        world, mechanics, sim_cache = self._g2p(world, mechanics, sim_cache, dt, time)

        # # Constitutive update
        world, mechanics, sim_cache = self._constitutive_update(
            world, mechanics, sim_cache, dt, time
        )
''', '''        # # Constitutive update
        world, mechanics, sim_cache = self._constitutive_update(
            world, mechanics, sim_cache, dt, time
        )

        # Grid to Particle Transfer
        world, mechanics, sim_cache = self._g2p(world, mechanics, sim_cache, dt, time)
''')],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.2)
b.add_material_points(position_stack=cloud(1, 5), velocity_stack=rnd(2, 5, 3), mass_stack=jnp.full((5,), 0.01), volume_stack=jnp.full((5,), 1e-5))
law = hdx.LinearElasticLaw(E=1e3, nu=0.3, requires_F_reset=False)
b.add_constitutive_law(law=law); b.couple(p_idx=0, g_idx=0, c_idx=0)
b.set_solver(scheme="usl"); sol, st = b.build(dt=1e-3)
m = sol(st).world.material_points[0]
close(m.stress_stack, jax.vmap(lambda L: law._update_stress(L, jnp.zeros((3, 3)), 1e-3))(m.L_stack), tol=1e-3)
'''),
]
