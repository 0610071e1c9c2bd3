ns = {}
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/seeds", "a.py")).read(), ns)
HELP = ns["HELP"]
BUGS = [
dict(id="c27-contour-offset", property="C27", needs="a 2D obstacle surface that consists of at least three separate contours",
     breaks="The line connectivity of the third and later contours points at the points of an earlier contour: the exported surface joins the wrong points.",
     edits=[("hydraxmpm/common/vtk_io.py", "                        offset += num_pts\n", "                        offset = num_pts\n")],
     demo='''
import os, tempfile, pyvista as pv
from hydraxmpm.common.vtk_io import VTKVisualizer
C = jnp.array([[0.2, 0.2], [0.5, 0.7], [0.8, 0.3]])
class Three:
    def get_signed_distance_stack(self, state, x):
        return jnp.min(jnp.linalg.norm(x[:, None] - C[None], axis=-1) - 0.1, axis=1)
with tempfile.TemporaryDirectory() as d:
    VTKVisualizer(output_dir=d).log_sdf(Three(), None, (0., 0.), (1., 1.), step=1)
    m = pv.read(os.path.join(d, "boundary", "step_00001.vtp"))
    l, i, used = np.asarray(m.lines), 0, set()
    while i < len(l):
        ids = l[i + 1:i + 1 + l[i]]
        used |= set(ids.tolist())
        gap = np.linalg.norm(np.diff(m.points[ids], axis=0), axis=1).max()
        if gap > 0.05: print("FAILED: joined points", gap, "apart"); sys.exit(1)
        i += 1 + l[i]
    if len(used) != m.n_points: print("FAILED:", len(used), "of", m.n_points, "points joined"); sys.exit(1)
'''),
dict(id="c27-step-or-time", property="C27", needs="particles written at step 0 with a time that is not zero (a restarted clock)",
     breaks="At step 0 the file is named after the time, so it collides with the file of another step.",
     edits=[("hydraxmpm/common/vtk_io.py", "step_val = int(step) if step is not None else 0", "step_val = int(step or time or 0)")],
     demo='''
import os, tempfile
from hydraxmpm.common.vtk_io import VTKVisualizer
mp = hdx.MaterialPointState.create(position_stack=cloud(1, 5), mass_stack=jnp.full((5,), 1.), volume_stack=jnp.full((5,), 1.))
with tempfile.TemporaryDirectory() as d:
    v = VTKVisualizer(output_dir=d)
    v.log_particles(mp, step=0, time=3.0); v.log_particles(mp, step=3, time=6.0)
    names = sorted(os.listdir(os.path.join(d, "material_points")))
    if names != ["step_00000.vtp", "step_00003.vtp"]: print("FAILED", names); sys.exit(1)
'''),
dict(id="c16-existing-step", property="C16", needs="the same step saved twice into a folder that is kept (overwrite=False), with different states",
     breaks="A step that is already in the folder is not written again: loading it gives the state of the earlier run.",
     edits=[("hydraxmpm/common/sim_io.py", "        eqx.tree_serialise_leaves(path, state)\n\n\n        if verbose", "        if not os.path.exists(path):\n            eqx.tree_serialise_leaves(path, state)\n\n        if verbose")],
     demo=HELP + '''
import os, tempfile
sol, st = two()
with tempfile.TemporaryDirectory() as d:
    for k in (1, 2):
        io = hdx.SimIO(output_dir=d, overwrite=False)
        io.save_solver(sol)
        s = eqx.tree_at(lambda s: s.world.material_points[0].velocity_stack, st, st.world.material_points[0].velocity_stack * 0 + k)
        io.save_step(s)
    _, back = hdx.load_simulation(d, sol, st, int(st.step))
    close(back.world.material_points[0].velocity_stack, st.world.material_points[0].velocity_stack * 0 + 2., what="loaded velocity")
'''),
dict(id="c03-clock-from-step", property="C03", needs="a time step that changes between steps",
     breaks="The simulation time is computed from the step count and the present time step, so it is wrong (and can run backwards) after the step size changed.",
     edits=[("hydraxmpm/solvers/usl.py", "        time = time + dt\n", "        time = (state.step + 1) * dt\n")],
     demo=HELP + '''
sol, st = two(scheme="usl")
t = float(st.time)
for dt in (1e-3, 1e-4, 1e-3):
    st = sol(eqx.tree_at(lambda s: s.dt, st, jnp.asarray(dt) if hasattr(st.dt, "dtype") else dt))
    t += dt
if abs(float(st.time) - t) > 1e-6: print("FAILED", float(st.time), t); sys.exit(1)
'''),
dict(id="c09-grid-by-body", property="C09", needs="body contact where the acting body's number differs from its grid's number and the grids have different origins",
     breaks="Normals and distances of the contact are evaluated at the nodes of the grid numbered like the acting body instead of the body's own grid.",
     edits=[("hydraxmpm/forces/gridcontact.py", "grid_domain_act = grid_domains[g_idx_actor]", "grid_domain_act = grid_domains[p_idx_actor]")],
     demo='''
def go(aligned):
    b = hdx.SimBuilder()
    far = lambda: b.add_grid(origin=(5., 5., 5.), end=(6., 6., 6.), cell_size=0.2)
    near = lambda: b.add_grid(origin=(0., 0., 0.), end=(1., 1., 1.), cell_size=0.2)
    for f in ((near, near, far) if aligned else (far, near, near)): f()
    for k, (lo, hi, v) in enumerate(((0.3, 0.5, 0.5), (0.45, 0.7, -0.5), (5.3, 5.6, 0.))):
        x = cloud(k, 40, lo=lo, hi=hi)
        b.add_material_points(position_stack=x, velocity_stack=jnp.zeros((40, 3)) + v, mass_stack=jnp.full((40,), 0.01), volume_stack=jnp.full((40,), 4e-3))
        b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e3, nu=0.3))
    for p, g in enumerate((0, 1, 2) if aligned else (1, 2, 0)):
        b.couple(p_idx=p, g_idx=g, c_idx=p)
    b.add_body_contact(couple_idx_actor=0, couple_idx_receiver=1, friction=0.1)
    b.set_solver(scheme="usl")
    sol, st = b.build(dt=1e-4)
    return sol(sol(st)).world.material_points[1].velocity_stack
close(go(False), go(True), tol=1e-4, what="velocity of the body in contact")
'''),
dict(id="c17-build-drains", property="C17", needs="building twice from the same builder (for example once per scheme)",
     breaks="build() empties the builder's particles: a second build has no bodies.",
     edits=[("hydraxmpm/common/builder.py", "            material_points=tuple(self.particle_states),", "            material_points=tuple(self.particle_states.pop(0) for _ in range(len(self.particle_states))),")],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(1.,) * 3, cell_size=0.2)
b.add_material_points(position_stack=cloud(1, 6), mass_stack=jnp.full((6,), 0.01), volume_stack=jnp.full((6,), 1e-4))
b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e3, nu=0.3)); b.couple(p_idx=0, g_idx=0, c_idx=0)
b.set_solver(scheme="usl"); b.build(dt=1e-4)
sol, st = b.build(dt=1e-3)
try:
    close(st.world.material_points[0].position_stack, cloud(1, 6), what="positions of the second build")
except IndexError as e:
    print("FAILED", e); sys.exit(1)
'''),
dict(id="c20-kernel-of-first", property="C20", needs="two couplings with different kernels, the first one not cubic",
     breaks="The affine matrix of every body is scaled for the kernel of the first coupling.",
     edits=[("hydraxmpm/solvers/usl_asflip.py", '''                if c.shape_map.shapefunction == "cubic":
                    coeff''', '''                if self.couplings[0].shape_map.shapefunction == "cubic":
                    coeff''')],
     demo='''
def go(kernels, bodies):
    b = hdx.SimBuilder()
    for k, i in enumerate(bodies):
        b.add_grid(origin=(0.,) * 3, end=(2.,) * 3, cell_size=0.2)
        b.add_material_points(position_stack=cloud(i, 12, lo=0.8, hi=1.2), velocity_stack=rnd(5 + i, 12, 3, s=0.1), mass_stack=jnp.full((12,), 0.01), volume_stack=jnp.full((12,), 1e-4))
        b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e3, nu=0.3))
        b.couple(p_idx=k, g_idx=k, c_idx=k, shapefunction=kernels[i])
    b.set_solver(scheme="usl_aflip", use_mls_update=False)
    sol, st = b.build(dt=1e-4)
    return sol(sol(st)).world.material_points[-1].L_stack
K = ("quadratic", "cubic")
close(go(K, (0, 1)), go(K, (1,)), tol=1e-4, what="velocity gradient of the second body")
'''),
dict(id="c21-hencky-floor", property="C21", needs="a deformation gradient with a principal stretch below 0.1",
     breaks="The guard against log(0) is so large that strong compression is not measured: the Hencky strain saturates at ln 10.",
     edits=[("hydraxmpm/utils/math_helpers.py", "s = jnp.clip(s, 1e-12, None)", "s = jnp.clip(s, 1e-1, None)")],
     demo='''
from hydraxmpm.utils.math_helpers import get_hencky_strain_stack
F = jnp.diag(jnp.array([0.05, 1.0, 1.5]))[None]
e = get_hencky_strain_stack(F)
close(jnp.trace(e[0]), -jnp.log(jnp.linalg.det(F[0])), tol=1e-3, what="volumetric strain")
'''),
dict(id="c11-dp-detached", property="C11", needs="a Drucker-Prager body that separates (density below its rest density) and closes again",
     breaks="A separated, stress-free particle keeps an elastic strain: it has stress again out of nothing as soon as it reconnects.",
     edits=[("hydraxmpm/constitutive_laws/druckerprager.py", "lambda: (jnp.zeros((3, 3)), jnp.zeros((3, 3)), eps_p_acc_prev)", "lambda: (jnp.zeros((3, 3)), eps_e_tr, eps_p_acc_prev)")],
     demo='''
from hydraxmpm.constitutive_laws.druckerprager import DruckerPrager
import inspect
n = 3
law = DruckerPrager(nu=0.3, K=1e5, mu_1=0.5, rho_0=1000., mu_1_hat=0.0)
mk = lambda rho, tr: hdx.MaterialPointState.create(position_stack=cloud(1, n), mass_stack=jnp.full((n,), rho), volume_stack=jnp.full((n,), 1.), L_stack=jnp.zeros((n, 3, 3)) + tr * jnp.eye(3), stress_stack=jnp.zeros((n, 3, 3)))
s0, _ = (lambda r: r if isinstance(r, tuple) else (r, None))(law.create_state(stress_stack=jnp.zeros((n, 3, 3))))
# stretched while apart: no stress and no stored strain
out = law.update(mk(500., -0.2), s0, 1e-1)
st = next(o for o in out if hasattr(o, "eps_e_stack"))
close(st.eps_e_stack, jnp.zeros((n, 3, 3)), tol=1e-6, what="stored strain of separated particles")
'''),
dict(id="c24-gravity-per-coupling", property="C24", needs="two bodies coupled to the same grid, with gravity on the grid",
     breaks="Gravity is applied to a grid once per coupling that uses it: bodies sharing a grid fall twice as fast.",
     edits=[("hydraxmpm/forces/gravity.py", "for g_idx in self.g_idx_list:", "for g_idx in [c.g_idx for c in couplings if c.g_idx in self.g_idx_list]:")],
     demo='''
b = hdx.SimBuilder(); b.add_grid(origin=(0.,) * 3, end=(2.,) * 3, cell_size=0.2)
for k in range(2):
    b.add_material_points(position_stack=cloud(k, 8, lo=0.8, hi=1.2), mass_stack=jnp.full((8,), 0.01), volume_stack=jnp.full((8,), 1e-4))
    b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e-6, nu=0.3)); b.couple(p_idx=k, g_idx=0, c_idx=k)
b.add_gravity(gravity=(0., 0., -9.81)); b.set_solver(scheme="usl")
sol, st = b.build(dt=1e-3)
v = sol(st).world.material_points[1].velocity_stack
close(v[:, 2], jnp.full((8,), -9.81e-3), tol=1e-2, what="velocity after one step")
'''),
dict(id="c08-unpadded-nodes", property="C08", needs="a grid made with padding=0",
     breaks="Node positions of a grid without padding are shifted by half a cell against the addressing used by the transfers.",
     edits=[("hydraxmpm/grid/grid.py", "self.cell_size + jnp.array(self.origin)", "self.cell_size + jnp.array(self.origin) + 0.5 * self.cell_size * (self.padding == 0)")],
     demo='''
from hydraxmpm.grid.grid import GridDomain
for pad in (0, 3):
    g = GridDomain.create(origin=(0., 0.), end=(1., 1.), cell_size=0.1, padding=pad)
    close(g.position_stack[0], jnp.asarray(g.origin), tol=1e-6, what="first node, padding %d" % pad)
'''),
]
