#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so the statements stay diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
S="hydraxmpm/solvers/usl.py"; A="hydraxmpm/solvers/usl_asflip.py"; B="hydraxmpm/common/builder.py"
M="hydraxmpm/shapefunctions/mapping.py"; MP="hydraxmpm/material_points/material_points.py"
MH="hydraxmpm/utils/math_helpers.py"; G="hydraxmpm/grid/grid.py"
F="hydraxmpm/forces/"; C="hydraxmpm/constitutive_laws/"; D="hydraxmpm/sdf/"
p("C01","Every body is advanced with its own state, law, grid and solver memory",
 "In a scene with any number of bodies, grids and materials, registered in any order and with any mix of rigid and deformable bodies, one step updates each deformable body using only the particle data, grid, material law, law history and affine transfer memory that its coupling names. What happens to a body does not change when unrelated bodies on other grids are added, removed or re-ordered. Rigid and uncoupled bodies, and every state entry belonging to nobody, leave the step unchanged by the mechanics.",
 ["configurations","programs"],"all scene topologies: number/order of bodies, grids, laws, rigid bodies, solver subsets",
 "The stable tests never run a step; the demos use one body whose indices are all 0, where every mis-routed index is invisible.",
 [S,A,B,"hydraxmpm/solvers/coupling.py"],[("coupling indices","BodyCoupling.p_idx/g_idx/c_idx/s_idx used in USLSolver._p2g/_g2p/_constitutive_update and USLAFLIP._p2g/_g2p"),("scene assembly","SimBuilder.couple/set_solver/build")])
p("C02","Particle-to-grid transfer conserves and accumulates over all bodies",
 "After the particle-to-grid transfer each grid node holds exactly the shape-weighted sum of mass, momentum (including the affine part where the scheme has one), external force and internal stress force of all particles of all bodies coupled to that grid, starting from zero. With weights that sum to one, total mass and total momentum of the particles equal those of the grid and internal forces cancel. Time integration then adds force times the step size to the momentum once, however many bodies share the grid.",
 ["inputs","configurations"],"all particle states, all stencils, any number of bodies per grid",
 "No stable test performs a transfer; samples could not tell overwrite from accumulate unless two bodies share a grid.",
 [S,A,M],[("P2G scatter","USLSolver._p2g, USLAFLIP._p2g"),("integration","USLSolver._integrate_grid"),("generic scatter","ShapeFunctionMapping.scatter_to_grid")])
p("C03","A step runs its phases in order, each exactly once",
 "One call of a solver advances time by exactly the step size and the step counter by exactly one, leaves the step size alone, and never carries grid contents over from the previous step. Within the step obstacles move first, then per-particle work quantities are cleared, then every registered force gets each of its four hooks exactly once at its documented point (kinematics, before transfer, on grid forces before integration, on grid momenta after integration), then particles are updated, and stresses are updated last from the new kinematics. Later hooks see what earlier hooks and phases produced.",
 ["histories","configurations"],"all force sets, both schemes, any number of steps",
 "Order and multiplicity of phases is a fact about the program's data flow, not about a sampled output; no stable test steps a solver.",
 [S,A,F+"force.py"],[("step driver","USLSolver.__call__"),("hooks","Force.apply_kinematics/apply_pre_p2g/apply_grid_forces/apply_grid_moments")])
p("C04","A step is a pure, trace-safe function of its input state",
 "Advancing a simulation depends only on the state and solver passed in and only produces a new state: no files, console output, globals, hidden caches or mutated arguments, and no random numbers. All data-dependent choices are made with array selection, so a step can be compiled, differentiated and replayed. The new state has the same structure as the old one (classes, containers, shapes, integer or floating kind), so it can be carried through a compiled loop. Saving, visualising or inspecting a state never changes it.",
 ["histories","programs"],"all states and all call sequences",
 "A test sees one call; hidden state or host effects show only under jit, replay or reordering.",
 [S,A,"hydraxmpm/common/vtk_io.py","hydraxmpm/common/rerun.py"],[("step closure","everything reachable from USLSolver.__call__"),("observers","VTKVisualizer, RerunVisualizer, SimIO.save_step")])
p("C05","Compression-positive sign convention holds everywhere",
 "Stress, pressure, strain, strain rate and velocity gradient are compression-positive throughout: motion that shrinks a particle gives a velocity gradient with positive trace, a smaller deformation-gradient determinant and volume, positive volumetric strain and an isotropic stress that grows in the positive sense, and positive pressure pushes neighbouring nodes apart. The transfer of stress to nodal forces and the gathering of nodal velocities into strain rates are each other's adjoint, so internal forces do exactly the stress power with the right sign. Every solver, material law, element-test driver and helper uses the same convention.",
 ["inputs","programs"],"all states, all laws, both schemes",
 "One law and one kinematic state per test; a flipped sign in one law or in both of two cooperating places passes them.",
 [S,A,MH,C],[("stress divergence","_p2g internal force"),("velocity gradient","_g2p"),("laws","*._update_stress"),("helpers","get_pressure, get_hencky_strain, get_volumetric_strain")])
p("C06","All update formulas are dimensionally consistent",
 "Every quantity the library computes in a step, a material law, a contact response, a collider, a critical-time-step estimate or a derived particle property has the physical dimension of the quantity it is stored or returned as, for any consistent unit system (plane problems per unit thickness). Nothing with different dimensions is added, compared or selected between, other than negligible numerical guards, so expressing the same problem in other units gives the same result in those units.",
 ["inputs"],"all unit systems / all magnitudes",
 "Tests use unit-ish values (dt=0.1, h=1, mass=1) where a missing or extra factor is invisible.",
 [S,A,F,C,MH],[("step formulas","_p2g/_integrate_grid/_g2p"),("laws","_update_stress/get_dt_crit"),("contact","apply_frictional_contact")])
p("C07","Shape functions form a partition of unity with exact gradients",
 "For every kernel, dimension and interior particle position, the shape function values over the particle's stencil are non-negative, sum to one and reproduce linear fields, and the gradients are the exact spatial derivatives of the values, so they sum to zero. Kernels are continuous, vanish outside their documented support, and the stencil contains every node with a non-zero value.",
 ["inputs"],"all positions, kernels (linear, quadratic, cubic) and dimensions (2, 3)",
 "Sampled positions miss single pieces/boundaries of the piecewise kernels; the mapping tests are not in the stable set.",
 [M,"hydraxmpm/shapefunctions/linear.py","hydraxmpm/shapefunctions/quadratic.py","hydraxmpm/shapefunctions/cubic.py"],[("kernels","vmap_*_shapefunction"),("stencils","kernels table, ShapeFunctionMapping.__init__/compute")])
p("C08","Node addressing agrees everywhere and outside nodes never take part",
 "A node's flat index, integer coordinates and world position agree between the grid, the transfer stencils and obstacle evaluation, and the relative distance handed to transfers is particle minus node in cell units. Stencil nodes outside the grid contribute neither weight nor gradient and never alias a real node. The grid built from user bounds covers the requested region plus its padding on both sides with the requested spacing.",
 ["inputs","configurations"],"all positions (also outside the grid), origins, sizes, paddings",
 "Aliasing and layout errors show only for non-square grids, positions at an edge, or non-zero origins.",
 [M,G,S],[("hashing","ShapeFunctionMapping.compute"),("layout","GridDomain.create/position_mesh/position_stack"),("midpoints","USLSolver._get_mid_point_sdfs")])
p("C09","Contact is non-penetrating, non-adhesive, Coulomb-bounded and local",
 "A node touched by an obstacle leaves the contact step with no velocity into the obstacle relative to the obstacle's surface, nodes that are separating are never pulled back, and friction only reduces tangential slip, never reverses or amplifies it, by no more than the friction coefficient times the normal velocity correction. Nodes outside the obstacle and nodes without mass keep their momentum, mass and force are untouched, and each obstacle is evaluated with its own geometry, velocity and friction on each grid it is assigned to. Contact between two bodies exchanges equal and opposite momentum.",
 ["inputs","configurations"],"all velocities, normals, wall velocities, frictions, masses; all obstacle/grid assignments",
 "No test covers contact; sign and branch errors need oblique approach, moving walls or separation to show.",
 [F+"sdf_collider.py",F+"gridcontact.py",S],[("contact law","apply_frictional_contact"),("collider","SDFCollider.apply_grid_moments/_collide_node"),("body contact","GridContact")])
p("C10","Obstacles move and are evaluated as rigid bodies",
 "An obstacle's signed distance, normal and friction are evaluated in its own frame (inverse of its current translation and rotation), its surface velocity is linear velocity plus angular velocity crossed with the lever arm, and its position and orientation advance consistently with those velocities, keeping the orientation normalised and the velocities unchanged. Normals are unit vectors along the distance gradient. Every shape's distance is zero on its surface, negative inside, positive outside and grows at most as fast as true distance.",
 ["inputs"],"all poses, velocities, query points, shapes",
 "No test touches obstacles; frame errors vanish at zero rotation and at the origin.",
 [D+"sdfobject.py",D+"sdfcollection.py",D+"gridsdf.py",MH],[("frames","SDFObjectBase.transform_to_local, quaternion_rotate, rotation_2d_inv"),("motion","update_kinematics, integrate_quaternion"),("surface velocity","get_velocity"),("shapes","*.signed_distance_local")])
p("C11","Material laws are local, objective-consistent and only write what they own",
 "A material update changes nothing but the stress of the particles and the law's own history variables, and each particle's result depends only on that particle's own data. Elastic response equals the law's documented moduli applied to the strain increment (symmetric stress for symmetric history, no stress change for zero deformation), plastic return lands on the documented yield condition, and a particle that is separated (less dense than its reference) carries the law's documented stress-free state. History that is not updated is carried over unchanged.",
 ["inputs","histories"],"all particle states, histories and parameters of every law",
 "Stable tests evaluate one elastic increment for one law.",
 [C],[("update","*.update"),("stress integration","*._update_stress")])
p("C12","Mass is constant and volume always follows the deformation gradient",
 "Particle mass and reference volume never change in a step, and after each step the current volume equals the reference volume times the determinant of the deformation gradient actually stored, in both schemes and in the element-test driver. The deformation gradient advances by the increment built from the same velocity gradient that the material law receives, and the optional shear reset of fluid-like laws keeps that determinant. If an unreset deformation gradient is recorded, it accumulates the full history.",
 ["histories","inputs"],"all step sequences, both schemes, 2D and 3D",
 "Volume drift is a property of histories; no test takes a step.",
 [S,A,C+"constitutive_law.py","hydraxmpm/element_tests/driver.py"],[("kinematic update","_g2p F/volume"),("reset","ConstitutiveLaw.remove_accumulated_shear"),("driver","ElementTestDriver.step")])
p("C13","Every configuration parameter has its documented effect",
 "Every parameter a user can pass to a solver, force, obstacle, material law, builder or helper reaches the computation it documents: changing it can change the result, and it is not silently replaced by a constant, by another parameter or by a default. Values given to the scene builder arrive unchanged in the component they configure.",
 ["configurations"],"all parameters of all public constructors and builder methods",
 "A test would have to vary each parameter separately; a dropped argument keeps the default behaviour that tests exercise.",
 [B,A,S,F,C],[("constructors","__init__/create of every public class"),("pass-through","SimBuilder.add_*/set_solver")])
p("C14","Unsupported options are rejected and supported ones are all reachable",
 "For each option selected by name or mode (scheme, kernel, transfer variant, sampling mode, dimension), each documented value selects its own implementation, defaults are valid values, and any other value is refused with an error at set-up time rather than silently doing something else or failing later. Missing required inputs are refused as well.",
 ["configurations","inputs"],"all option strings and combinations of optional arguments",
 "Tests exercise the happy path with one option value.",
 [B,M,"hydraxmpm/utils/generate_body.py","hydraxmpm/shapefunctions/cubic.py"],[("scheme dispatch","SimBuilder.set_solver"),("kernel table","kernels in mapping.py"),("sampling modes","generate_particles_in_sdf")])
p("C15","Public operations never fail on missing members or wrong arity",
 "Every attribute, function, keyword and positional argument used in the library exists on the object it is used on, every overriding hook accepts the arguments its caller passes and returns what its caller unpacks, every name is bound before use and no helper calls itself without progress. No public operation can fail because of such a structural error, whatever branch its inputs select.",
 ["programs","inputs"],"all code paths of all public operations",
 "Branches that tests never enter (alternative schemes, particle-side forces, rigid contact) contain the failures.",
 ["hydraxmpm/"],[("member resolution","all attribute accesses on typed receivers"),("call compatibility","all resolved calls"),("hook signatures","Force overrides vs USLSolver calls")])
p("C16","Saved simulations load back exactly, and only the output directory is touched",
 "What is saved for a step and a solver is written under names from which loading the same directory and step finds exactly those files, with the same serialisation, and every saved step keeps its own file; saving writes the current values even when a file of that name exists, and a file that is missing is reported, not replaced by another. Existing data is deleted only when overwriting was requested, and only the recorder's own output directory; all files are written inside it.",
 ["histories","configurations"],"all step numbers, directories, existing contents and overwrite settings",
 "No test covers input/output; naming mismatches depend on step number and directory arguments.",
 ["hydraxmpm/common/sim_io.py","hydraxmpm/common/vtk_io.py"],[("recorder","SimIO.__init__/save_solver/save_step"),("loader","load_simulation")])
p("C17","Scene builder registries stay in step with the identifiers they hand out",
 "Every identifier a scene-builder call returns is the position of exactly that object in the built scene, and logic and state lists of forces, laws and obstacles stay aligned whatever the order and mixture of calls, so each force, law and obstacle finds its own state. Selecting subsets of bodies, forces or obstacles for a solver keeps every stored index meaningful. Building returns the registered objects, with the requested time, step and step size.",
 ["histories","configurations"],"all sequences of builder calls",
 "Misalignment needs particular call orders (a stateless component followed by a stateful one).",
 [B],[("registries","Registry.add, SimBuilder.add_*"),("assembly","SimBuilder.set_solver/build")])
p("C18","Divisions and singular functions are guarded, so empty regions stay finite",
 "Degenerate but legal states never produce NaN or infinity: grid nodes with no or vanishing mass, particles at rest, unstressed, undeformed, without velocity gradient or outside the grid, equal velocities in contact, zero obstacle normals, and query points at the centre, axis, edge, corner or surface of an obstacle shape. Every division, square root, logarithm, normalisation and helper derivative whose argument can vanish there is protected, so step results, nodal quantities, material updates and initial states, critical time steps, distances, normals, particle quantities and the helpers advertised as safe or robust stay finite.",
 ["inputs"],"all states including empty nodes, rest states, zero vectors",
 "Degenerate states are measure-zero for samples but ubiquitous in a simulation (most nodes are empty).",
 [S,A,F,MH,MP],[("mass guards","_g2p safe_masses, SDFCollider inv_mass, Damping"),("norm guards","safe_norm, get_normal, apply_frictional_contact")])
p("C19","Element tests impose the same kinematics and control as the solver",
 "Driving one material point through prescribed velocity gradients advances the deformation gradient by them (exponentially, or linearly as the solver does when that is selected), updates the material once per step with the new kinematics, the previous stress and its own history, returns exactly the law's stress and history, and moves nothing else. Triaxial runs impose the axial rate with the documented sign on the axial component, keep lateral components equal, hold lateral stress (or mean pressure) at the confinement when drained and volume when undrained, and store every recorded step in order.",
 ["inputs","configurations"],"all laws, rates, step sizes, modes",
 "The element-test results are only compared visually in demos; no stable test runs them.",
 ["hydraxmpm/element_tests/driver.py","hydraxmpm/element_tests/triaxial_test.py"],[("driver","ElementTestDriver.step"),("control","TriaxialTest.run")])
p("C20","Grid-to-particle transfer blends consistently and keeps uniform motion",
 "A rigid translation of the whole body is reproduced exactly by the transfer: particle velocity stays, position advances by velocity times step size, the velocity gradient vanishes. The new particle velocity is the interpolated new grid velocity plus a blend factor between zero and the configured maximum times the un-transferred fluctuation, the affine memory stored is the one the next transfer expects, and particle speed never exceeds the configured fraction of a cell per step where that limit exists.",
 ["inputs","histories"],"all velocities, blend parameters, supports, both schemes and both affine variants",
 "Needs relations between the two transfer directions across consecutive steps.",
 [S,A],[("gather","USLSolver._g2p, USLAFLIP._g2p"),("affine memory","USLAFLIPState.Bp_stack"),("generic gather","ShapeFunctionMapping.gather_from_grid")])
p("C21","Tensor and state helpers satisfy their defining identities",
 "Pressure is the mean of the diagonal, the deviator is trace-free and adds up with the pressure part to the tensor, symmetric and spin parts add up to the tensor, invariants are the documented multiples of the deviator contraction, rotations preserve length and are undone by their inverses, matrix inverses invert, void ratio, solid fraction and density conversions are mutually inverse. The batched form of every helper equals the single form applied row by row, and derived particle properties equal the helper applied to the stored fields.",
 ["inputs"],"all tensors, vectors and parameters",
 "Identities hold for all inputs; tests do not cover the helpers.",
 [MH,MP],[("helpers","utils/math_helpers.py"),("derived properties","MaterialPointState properties")])
p("C22","Two-dimensional simulations are exact plane strain",
 "In 2D the out-of-plane velocity gradient, deformation-gradient coupling and force components stay exactly zero and the out-of-plane stretch stays exactly one, while the out-of-plane stress is still carried; padding of in-plane data to three dimensions adds only zeros and truncation drops only the out-of-plane part. In 3D nothing is truncated or pinned.",
 ["histories","inputs"],"all 2D and 3D states and step sequences, both schemes, with and without shear reset",
 "Needs a 2D step with reset laws; a wrong pin is invisible in 3D and over one step.",
 [S,A,M,C+"constitutive_law.py"],[("padding","_g2p jnp.pad / _p2g truncation"),("pins","_g2p L_zz/F_zz"),("reset","remove_accumulated_shear")])
p("C23","Initial states reproduce the density, pressure and history that were requested",
 "Creating a law state from density and pressure, and then evaluating the law without further deformation, gives back the requested pressure; states created from stress, over-consolidation ratio or density lie on the documented swelling/consolidation relations and contain every history field the update needs. Default particle creation gives mass equal to density times volume, reference volume equal to initial volume, unit deformation gradient, and volume equal to the cell volume shared among its particles in the actual dimension.",
 ["inputs","configurations"],"all densities, pressures, parameters, dimensions, optional-argument combinations",
 "Tests check the stored reference density for one point, not the round trip through the law.",
 [C,MP,MH],[("EOS inversion","create_state_from_density/_update_stress"),("MCC initialisation","create_state_from_*"),("particles","MaterialPointState.create")])
p("C24","Body forces act once, only on their targets, and damping only dissipates",
 "Gravity adds exactly mass times the configured acceleration to the force of every selected body or grid, once per step, on the particle side or the grid side but never both, and to nothing else. Damping adds a force that opposes the velocity component by component and is proportional to the magnitude of the force present, so it never does positive work. Both read the force state registered for them and leave it unchanged.",
 ["configurations","inputs"],"all index lists, modes, force orders, states",
 "No test covers forces; double counting or wrong targets needs several bodies or grids.",
 [F+"gravity.py",F+"damping.py",B],[("gravity","Gravity.apply_grid_forces/apply_pre_p2g"),("damping","Damping.apply_grid_forces/apply_pre_p2g")])
p("C25","Critical time step bounds every particle's signal speed",
 "The critical time step reported by a material law is the safety factor times the cell size over the largest, over all particles, of elastic wave speed plus particle speed, where the wave speed comes from the law's own stiffness and the particle's current density. It is positive, scales linearly with cell size and safety factor, and never exceeds that bound for any particle.",
 ["inputs"],"all particle states and parameters of laws offering an estimate",
 "Tests do not call the estimates; a mean instead of a maximum or a stale density passes any single-particle sample.",
 [C],[("estimates","*.get_dt_crit")])
p("C26","Generated particles fill the shape at the requested resolution",
 "Particles generated for a shape all lie strictly inside it (as its signed distance says at the given pose) and no candidate inside is dropped. Regular sampling covers the requested bounds with cell-aligned positions, symmetric inside each cell, with the requested number per cell; random sampling draws the requested number of candidates uniformly in the bounds from the given key only.",
 ["inputs","configurations"],"all shapes, bounds, cell sizes, densities, modes",
 "No test covers generation; off-by-one coverage depends on bounds alignment.",
 ["hydraxmpm/utils/generate_body.py"],[("generator","generate_particles_in_sdf")])
p("C27","Exported files and live views show the simulated geometry",
 "What the exporter writes and the live view shows is the simulated scene: every particle at its position with the radius of a disc or sphere of its volume (times the requested scale), the requested property under its own name or as its colour, the domain box from the origin to one cell beyond the last node, and an obstacle's surface exactly where its signed distance vanishes, sampled over the whole requested domain whatever the sign of its coordinates, with its own corners, contours and normals. In two dimensions the live view flips the vertical axis of everything alike. Times, steps and labels given are those stored; different labels or steps never share a file, the file of a step does not depend on its time, and further steps can be written into the same folder. An obstacle is sampled at the resolution asked for. The live viewer asked for is opened exactly once per process, under the application name and recording file given.",
 ["inputs","configurations"],"all particle states, domains, obstacles, labels and steps, both viewers, 2D and 3D",
 "No test calls a viewer; a misplaced surface or mixed axis shows only in pictures.",
 ["hydraxmpm/common/vtk_io.py","hydraxmpm/common/rerun.py"],[("exporter","VTKVisualizer.log_*"),("live view","RerunVisualizer.log_*")])
p("N01","Long simulations remain energetically stable",
 "With a step size below the reported critical one, total energy of an isolated elastic body stays bounded over arbitrarily many steps and dissipation matches the blend factor.",
 ["histories"],"all long histories","Needs very long runs over all states.",[S,A],[("time integration","USLSolver.__call__")])
p("N02","Plastic return iterations converge to an admissible stress",
 "For every admissible trial state the iterative return mapping of the critical-state law converges within its fixed iteration count to a state satisfying the yield condition and flow rule within tolerance.",
 ["inputs"],"all trial states","Convergence depends on runtime magnitudes.",[C+"modifiedcamclay.py"],[("Newton loop","ModifiedCamClay._update_stress")])
p("N03","Results are reproducible across devices, precisions and compilation modes",
 "The same scene gives the same trajectory (to rounding) eagerly, compiled, on CPU and GPU and under sharding.",
 ["configurations"],"all back ends","Needs the back ends.",[S,M],[("scatter-add","at[].add")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
