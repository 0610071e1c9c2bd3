COMMON = ("Decided statically on the current source: abstract interpretation of the Python AST into a value-flow graph over symbolic arrays, no execution, "
          "no path enumeration, no solver; value numbers are compared by normal form and random interpretation (one-sided error: a difference reported is real "
          "over exact reals, an equality may be wrong with negligible probability). Floating-point rounding, the JAX primitives and the summaries in sa/lib.py are trusted. "
          "Constructs outside the modelled vocabulary are counted as undecided in the evidence and never alarm.")
TECH = {
 "C01": ("interprocedural value-flow (index routing) over symbolic scenes with permuted indices", "All routing indices of a step, for enumerated scene topologies with symbolic array contents and sizes."),
 "C02": ("value-flow graph with scatter-sum normal form (global value numbering)", "Nodal mass, momentum and force equal the required sums for symbolic particles, stencils and sizes; topologies enumerated."),
 "C03": ("event-order / must-happen-once analysis over probe hooks on the value-flow graph", "Hook multiplicity, order, and which intermediate values each phase sees."),
 "C12": ("value-flow graph: field-effect analysis and global value numbering against kinematic reference", "Mass/volume/F/L fields of every step variant, reset and storage option, both dimensions, and the element-test driver; which fields each material law may touch."),
 "C20": ("value-flow graph: global value numbering of the grid-to-particle transfer against the documented formulas", "Velocity blend, position, affine memory and alpha for each documented option; partition of unity of the kernel encoded in the value semantics."),
"C11": ("value-flow graph: global value numbering of each law's update against the documented constitutive equations", "Stress, internal state and consistency conditions of every law for symbolic strain increments and parameters; elastic/plastic branches separated by symbolic guards."),
 "C21": ("value-flow graph: global value numbering of every tensor helper against reference tensor algebra; call-graph recursion check", "Public helpers, single and stacked, symbolic tensors and enumerated ranks."),
 "C22": ("value-flow graph: component-zero and dependence analysis of the plane-strain padding", "All step variants in two dimensions, and the absence of pinning in three."),
 "C23": ("value-flow graph: global value numbering of the initial states against the documented state relations", "Every create/create_state entry point, with and without its optional arguments."),
 "C25": ("value-flow graph: global value numbering and monotonicity of the critical time step", "Wave speed and CFL bound of the solver for symbolic moduli, densities, velocities and cell size."),
 "C05": ("value-flow graph: global value numbering of grid-work adjointness and stress/velocity-gradient sign conventions", "Internal force of every step variant, the adjointness of force and velocity-gradient kernels, and the sign of each law's pressure for symbolic inputs."),
 "C07": ("value-flow graph: closed-form kernel comparison with symbolic particle positions, piecewise-guard normal form and sampled equality", "Every kernel, node type, stencil slot and dimension: weights, gradients, partition of unity, stencil selection."),
 "C08": ("value-flow graph: integer global value numbering of the linear node index with symbolic node counts", "Domain creation, node positions, stencil addresses, boundary clamping and addresses shared between modules."),
 "C09": ("value-flow graph: global value numbering of the contact update against the documented impulse law, with pair-symmetry and effect analysis", "Both contact schemes, pairs of grids, rigid and deformable partners, friction and no-friction branches as symbolic guards; two and three dimensions."),
 "C10": ("value-flow graph: global value numbering and sampled numeric comparison of signed-distance values, normals and obstacle motion against closed forms", "Every signed-distance class and combinator, world pose, surface velocity and pose integration for symbolic pose and query point."),
 "C24": ("value-flow graph: effect analysis and global value numbering of body-force hooks between two probe hooks", "Every hook of Gravity and Damping for enumerated index lists, state slots, sides, schemes and builder defaults; symbolic masses, forces, velocities."),
 "C17": ("abstract interpretation of enumerated builder call sequences: object identity and index routing of the built scene", "All force-kind sequences up to length 3 (4 thorough), interleaved registrations of bodies, grids, laws and obstacles, subsets and repeated solvers; symbolic contents."),
 "C26": ("value-flow graph of the candidate lattice: selection provenance, closed-form comparison of candidate positions, sampled numeric comparison with symbolic bounds and cell size", "Regular and quadrature lattices for enumerated numbers per cell, aligned and unaligned bounds; random draws; pose arguments."),
 "C27": ("abstract interpretation of the viewers with recorded library calls: value-flow graph of every array handed to pyvista, rerun and scikit-image compared with the particles, the domain box and the lattice on which the obstacle's distance was sampled", "Every logging method of both viewers in two and three dimensions with vector, tensor, scalar, missing and no property; obstacles with an arbitrary (uninterpreted) distance; symbolic domains of either sign."),
 "C13": ("value-flow graph: parameter liveness (dependence of outputs on each configuration symbol) and builder pass-through equality", "Every constructor parameter of solvers, laws, shapes, grids, particles, forces and contacts; dead means absent from the folded value graph of every output; documented dead parameters are listed as findings."),
 "C14": ("abstract interpretation of option dispatch over the closed set of source string constants and their near misses", "Every option name occurring in the source, near misses of each, dimensions, missing inputs; a failure by accident or acceptance of an unknown name is reported."),
 "C15": ("structural lints over the whole syntax tree (name resolution, definite assignment, member and signature resolution, hook families) plus annotation and member checking of every call during abstract interpretation", "All modules of the package for the lints; every function executed by the scenes of all other checks and of the public surface (recorder, visualisers, builder) for the typed part; functions never executed are listed in the evidence."),
 "C16": ("abstract interpretation with a symbolic file system: effect analysis and normal forms of path strings", "Every recorder and loader entry point and option, concrete and symbolic step numbers, existing and fresh directories: names written equal names read, destructive effects only with the overwrite option and inside the output directory."),
 "C04": ("effect analysis over the whole step by abstract interpretation (host effects, module and class state, mutated inputs), binding-time analysis of python uses of traced values, structural typing of the new state against the old", "Every step of both schemes in 2D and 3D with every material law, force, contact, kernel and obstacle shape, state leaves arbitrary; all library calls reached are classified; observers by reachable-object fingerprints."),
 "C06": ("dimension (unit) analysis on the value-flow graph: every symbol carries a mass/length/time dimension, every result must rescale by the dimension of its field", "All step variants, nodal quantities, laws (update, iteration, initial states, critical step), obstacles, contact, damping, gravity, projections, particle quantities and tensor helpers, in two (per unit thickness) and three dimensions."),
 "C19": ("abstract interpretation of the driver and of the complete triaxial control loop (all load steps, Newton passes and their symbolic derivative) on the AST; value-graph comparison with the closed-form controlled response", "Driver with every combination of its linearisation options against a probe law; drained, constant-pressure and undrained triaxial runs with constant and per-step rates, strides, static start, a linear probe law and the linear elastic law."),
"C18": ("singularity analysis of the value-flow graph: every division, root and negative power kept as a machine operation and evaluated in IEEE single precision at named degenerate states; non-finite results are blamed on the operation that produced them", "Step, scatter, colliders, contact, body forces, laws, created states, critical step, obstacle shapes (values, friction, normals), rigid motion, particle quantities, projections and helpers at empty-node, rest, coincidence and singular inputs."),
}
