"""C24 body forces act once, only on their targets; damping only dissipates"""
from .common import *
from .common import run as step

FR = dict(RANGES)
FR.update({"gm*": (0.5, 2.0), "gv*": (-2, 2), "gf*": (-2, 2), "pf*": (-2, 2), "acc*": (-10, 10), "damp*": (0.1, 0.9)})
HOOKS = ("apply_kinematics", "apply_pre_p2g", "apply_grid_forces", "apply_grid_moments")
# logic order of the tested forces, each (kind, on_grid, bodies, grids, state slot); slot None: left at its default
SCENES = {
    "grid gravity, one of two grids": (2, 2, [("g", True, [0], [1], 1)]),
    "particle gravity, one of two bodies": (2, 2, [("g", False, [1], [0], 2)]),
    "grid damping, one of two grids": (2, 2, [("d", True, [0], [1], 2)]),
    "particle damping, one of two bodies": (2, 2, [("d", False, [1], [0], 1)]),
    "two gravities and two dampings, mixed": (3, 3, [("d", True, [0], [2, 0], 4), ("g", True, [2], [0, 2], 3), ("g", False, [2, 0], [1], 1), ("d", False, [0, 1], [1], 2)]),
    "default selection": (2, 2, [("g", None, None, None, 1), ("d", None, None, None, 2)]),
}


def run(R):
    R.ranges = FR
    for dim in (2, 3):
        for scheme in SCHEMES:
            for nm, (nb, ng, spec) in SCENES.items():
                with R.group("%s %dD %s" % (scheme, dim, nm)):
                    scene(R, scheme, dim, nb, ng, spec)
            with R.group("%s %dD transfer of particle gravity" % (scheme, dim)):
                transfer(R, scheme, dim)
        with R.group("built scene %dD" % dim):
            built(R, dim)
        with R.group("states %dD" % dim):
            states(R, dim)


def marks(S, dim, nb):
    """first probe force: replaces nodal and particle forces by known symbols"""
    def act(h, b):
        if h == "apply_pre_p2g":
            mps = [obj_with(m, force_stack=sym_arr("pf%d" % k, m.f["force_stack"].shape)) if "force_stack" in m.f else m
                   for k, m in enumerate(S.it.iterate(S.get(b["world"], "material_points")))]
            return (obj_with(b["world"], material_points=tuple(mps)), b["mechanics"], b["sim_cache"])
        if h == "apply_grid_forces":
            gs = [obj_with(g, mass_stack=sym_arr("gm%d" % k, g.f["mass_stack"].shape), moment_stack=sym_arr("gv%d" % k, g.f["moment_stack"].shape),
                           force_stack=sym_arr("gf%d" % k, g.f["force_stack"].shape)) for k, g in enumerate(grids_of(S, b["sim_cache"]))]
            return (b["world"], b["mechanics"], with_grids(b["sim_cache"], gs))
    return act


def force_state(S, kind, slot):
    if kind == "g":
        return S.raw("GravityState", gravity=sym_arr("acc%d" % slot, (S.dim,)))
    return S.raw("DampingState", alpha=fscalar("damp%d" % slot))


def make_force(S, spec):
    kind, on, ps, gs, slot = spec
    kw = dict(f_idx=slot)
    if on is not None:
        kw["is_apply_on_grid"] = on
    if ps is not None:
        kw["p_idx_list"] = PList(list(ps))
    if gs is not None:
        kw["g_idx_list"] = PList(list(gs))
    return S.new("Gravity" if kind == "g" else "Damping", **kw)


def sgn(x):
    return X.sub(X.where(X.gt(x, X.ZERO), X.ONE, X.ZERO), X.where(X.lt(x, X.ZERO), X.ONE, X.ZERO))


def law(spec, tag, S):
    """force after the hook, from force f, mass m, and velocity direction v"""
    kind, slot = spec[0], spec[4]
    if kind == "g":
        return lambda f, m, v, j: X.add(f, X.mul(m, X.sym("acc%d" % slot, j)))
    return lambda f, m, v, j: X.sub(f, X.mul(X.sym("damp%d" % slot), X.abs_(f), sgn(v)))


def scene(R, scheme, dim, nb, ng, specs):
    S = R.use(Scene(dim))
    subj = R.cur
    log = []
    first = S.probe_force(0, log, marks(S, dim, nb))
    fs, probes = [], []
    for i, sp in enumerate(specs):
        fs += [make_force(S, sp), S.probe_force(1 + i, log)]
    bodies = [Body(p, (p + 1) % ng, p, p) for p in range(nb)]
    st = make(S, scheme, bodies, nbody=nb, ngrid=ng, log=log, forces=[first] + fs)
    slots = list(st.force_states) + [S.raw(S.subclass("BaseForceState", "Spare", {}, {"gain": None}), gain=fscalar("spare"))]
    for sp in specs:
        slots[sp[4]] = force_state(S, sp[0], sp[4])
    st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=slots)
    step(S, st)
    for i, sp in enumerate(specs):
        kind, on, ps, gs, slot = sp
        nmf = "%s / %s %d" % (subj, "gravity" if kind == "g" else "damping", i)
        if on is None:
            on = kind == "d"      # documented constructor defaults
        ps = [0] if ps is None else ps
        gs = [0] if gs is None else gs
        for h in HOOKS:
            seen = [next((e for e in log if e[0] == "hook" and e[1] == k and e[2] == h), None) for k in (i, i + 1)]
            if seen[0] is None or seen[1] is None:
                R.ob("hook reached", "%s %s" % (nmf, h), None, "probe hook not called")
                continue
            a, b, loc = dict(seen[0][3]), dict(seen[1][3]), seen[1][4]
            if i == 0 and h in ("apply_pre_p2g", "apply_grid_forces"):
                r = marks(S, dim, nb)(h, a)
                a["world"], a["mechanics"], a["sim_cache"] = r
            between(R, S, nmf, h, a, b, sp, on, ps, gs)


def between(R, S, nmf, h, a, b, sp, on, ps, gs):
    dim = S.dim
    f = law(sp, "", S)
    # particles
    ma, mb = (S.it.iterate(S.get(x["world"], "material_points")) for x in (a, b))
    R.ob("no body added or lost", "%s %s" % (nmf, h), len(ma) == len(mb), "%d vs %d bodies" % (len(ma), len(mb)))
    for p, (x, y) in enumerate(zip(ma, mb)):
        hit = h == "apply_pre_p2g" and not on and p in ps
        if not hit:
            unchanged(R, "bodies not selected are left alone", "%s %s body %d" % (nmf, h, p), y, x)
            continue
        F, M, V = (lift(x.f[k]) for k in ("force_stack", "mass_stack", "velocity_stack"))
        R.eqa("selected bodies get the force once", "%s body %d" % (nmf, p), y.f["force_stack"],
              lambda q, j: f(F.at(q, j), M.at(q), V.at(q, j), j))
        unchanged(R, "nothing but the force changes", "%s body %d" % (nmf, p), y, obj_with(x, force_stack=y.f["force_stack"]))
        power(R, sp, nmf, y.f["force_stack"], F, V)
    for k in ("sdfs",):
        unchanged(R, "obstacles are left alone", "%s %s" % (nmf, h), S.get(b["world"], k), S.get(a["world"], k))
    # grids
    if "sim_cache" in a and "sim_cache" in b:
        ga, gb = grids_of(S, a["sim_cache"]), grids_of(S, b["sim_cache"])
        R.ob("no grid added or lost", "%s %s" % (nmf, h), len(ga) == len(gb), "%d vs %d grids" % (len(ga), len(gb)))
        for g, (x, y) in enumerate(zip(ga, gb)):
            hit = h == "apply_grid_forces" and on and g in gs
            if not hit:
                unchanged(R, "grids not selected are left alone", "%s %s grid %d" % (nmf, h, g), y, x)
                continue
            F, M, V = (lift(x.f[k]) for k in ("force_stack", "mass_stack", "moment_stack"))
            R.eqa("selected grids get the force once", "%s grid %d" % (nmf, g), y.f["force_stack"],
                  lambda q, j: f(F.at(q, j), M.at(q), V.at(q, j), j))
            unchanged(R, "nothing but the force changes", "%s grid %d" % (nmf, g), y, obj_with(x, force_stack=y.f["force_stack"]))
            power(R, sp, nmf, y.f["force_stack"], F, V)
    # force states
    unchanged(R, "force states are left unchanged", "%s %s" % (nmf, h), S.get(b["mechanics"], "forces"), S.get(a["mechanics"], "forces"))
    unchanged(R, "other mechanics states are left unchanged", "%s %s" % (nmf, h), S.get(b["mechanics"], "constitutive_laws"), S.get(a["mechanics"], "constitutive_laws"))
    unchanged(R, "other mechanics states are left unchanged", "%s %s solver memory" % (nmf, h), S.get(b["mechanics"], "solvers"), S.get(a["mechanics"], "solvers"))


def power(R, sp, nmf, new, F, V):
    """the part damping added does no positive work in any component"""
    if sp[0] != "d":
        return
    new = lift(new)
    q = X.sym("#ix0")
    for j in range(new.shape[1] if isinstance(new.shape[1], int) else 0):
        j = X.C(j)
        w = X.mul(X.sub(new.at(q, j), F.at(q, j)), V.at(q, j))
        R.ob("damping does no positive work", nmf, X.equal(X.max_(w, X.ZERO), X.ZERO, ranges=R.ranges), "power of the added force in direction %s" % X.show(j), new.src)
        rest = X.subst(new.at(q, j), {V.at(q, j): X.ZERO})
        R.eq("no damping at rest", "%s direction %s" % (nmf, X.show(j)), rest, F.at(q, j), new.src)


def transfer(R, scheme, dim):
    """what particle-side gravity adds reaches the nodes exactly once, with the transfer weights"""
    S = R.use(Scene(dim))
    log = []
    last = S.probe_force(1, log)
    grav = S.new("Gravity", is_apply_on_grid=False, p_idx_list=PList([1]), g_idx_list=PList([0, 1]), f_idx=0)
    st = make(S, scheme, [Body(0, 0, 0, 0), Body(1, 1, 1, 1)], log=log, forces=[grav, last])
    st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=[force_state(S, "g", 0), st.force_states[1]])
    step(S, st)
    e = hook(st, "apply_grid_forces", 1)[0]
    zero = {}
    n = X.sym("#ix0")
    for g, gr in enumerate(grids_of(S, e[3]["sim_cache"])):
        F = lift(gr.f["force_stack"])
        for j in range(dim):
            got = F.at(n, X.C(j))
            off = X.subst(got, {X.sym("acc0", X.C(k)): X.ZERO for k in range(dim)})
            want = X.ZERO if g != 1 else scat(1, 1, lambda q, w: X.mul(X.sym("i11.N", q, w), X.sym("p1.mass_stack", q), X.sym("acc0", X.C(j))), n)
            R.eq("gravity reaches the nodes of its body once", "%s grid %d" % (R.cur, g), X.sub(got, off), want, F.src)


def builder(S, nb=2, ng=2, rigid=()):
    B = S.new("SimBuilder")
    for g in range(ng):
        S.call(B, "add_grid", grid_domain=S.domain(g))
    for p in range(nb):
        pos = sym_arr("p%d.pos" % p, (size("N%d" % p), S.dim))
        S.call(B, "add_material_points", position_stack=pos, **({"is_rigid": True} if p in rigid else
               {"mass_stack": sym_arr("p%d.m" % p, (size("N%d" % p),)), "volume_stack": sym_arr("p%d.v" % p, (size("N%d" % p),))}))
    return B


def built(R, dim):
    """a scene assembled by the builder: documented defaults of add_gravity / add_damping select everything on the grid side"""
    for kind in ("gravity", "damping"):
        for on in (None, True, False):
            for lists in (False, True):
                for rigid in ((), (1,)):
                    nm = "%s on_grid=%s lists=%s rigid=%s" % (kind, on, lists, list(rigid))
                    with R.group("built scene %dD %s" % (dim, nm)):
                        one_built(R, dim, kind, on, lists, rigid)


def one_built(R, dim, kind, on, lists, rigid):
    S = R.use(Scene(dim))
    B = builder(S, 3, 2, rigid)
    log = []
    for p in range(3):
        law = S.new("LinearElasticLaw", E=pyfloat("E"), nu=0.3)
        S.call(B, "add_constitutive_law", law=law)
    for p in range(3):
        S.call(B, "couple", p_idx=p, g_idx=p % 2, c_idx=p)
    kw = {}
    if on is not None:
        kw["is_apply_on_grid"] = on
    if lists:
        kw["p_idx_list"], kw["g_idx_list"] = PList([2, 0]), PList([1])
    S.call(B, "add_sdf_object", sdf_logic=S.new("SphereSDF", radius=pyfloat("radius")), center_of_mass=sym_arr("c0", (dim,)))
    S.call(B, "add_sdf_collider", sdf_idx=0)
    # an earlier force of the other kind, so that the state slots differ from the defaults
    if kind == "gravity":
        S.call(B, "add_damping", alpha=pyfloat("damp0"), p_idx_list=PList([0]), g_idx_list=PList([0]))
        fi = S.call(B, "add_gravity", gravity=sym_arr("acc9", (dim,)), **kw)
        sp = ("g", on, None, None, 9)
    else:
        S.call(B, "add_gravity", gravity=sym_arr("acc0", (dim,)), p_idx_list=PList([0]), g_idx_list=PList([0]))
        fi = S.call(B, "add_damping", alpha=pyfloat("damp9"), **kw)
        sp = ("d", on, None, None, 9)
    S.call(B, "set_solver", scheme="usl_aflip", alpha=pyfloat("alpha"))
    solver, state = S.call(B, "build")
    fi = native(fi)
    F = S.it.iterate(S.get(solver, "forces"))[fi]
    grid = True if on is None else on
    ps = [2, 0] if lists else [p for p in range(3) if p not in rigid]
    gs = [1] if lists else [0, 1]
    cache_cls = S.cls("USLSolver")
    # the builder's force between two probes of a step of the built solver
    fs = list(S.it.iterate(S.get(solver, "forces")))
    pre, post = S.probe_force(0, log, marks(S, dim, 3)), S.probe_force(1, log)
    sol = obj_with(solver, forces=tuple([pre, F, post]), couplings=tuple(
        S.coupling(c.f["p_idx"], c.f["g_idx"], c.f["c_idx"], c.f["s_idx"], c.f["skip_mpm_logic"]) for c in S.it.iterate(S.get(solver, "couplings"))), sdf_logics=())
    S.it.call(sol, [state], {})
    for h in HOOKS:
        seen = [next((e for e in log if e[0] == "hook" and e[1] == k and e[2] == h), None) for k in (0, 1)]
        if None in seen:
            R.ob("hook reached", R.cur, None, h)
            continue
        a, b = dict(seen[0][3]), dict(seen[1][3])
        if h in ("apply_pre_p2g", "apply_grid_forces"):
            a["world"], a["mechanics"], a["sim_cache"] = marks(S, dim, 3)(h, a)
        between(R, S, R.cur, h, a, b, sp, grid, ps, gs)


def states(R, dim):
    S = R.use(Scene(dim))
    g = sym_arr("acc", (dim,))
    s = S.call(S.new("Gravity"), "create_state", gravity=g)
    R.eqa("the state stores the acceleration given", R.cur, s.f["gravity"], lambda i: X.sym("acc", i))
    s = S.call(S.new("Damping"), "create_state", alpha=pyfloat("damp"))
    R.eq("the state stores the coefficient given", R.cur, s.f["alpha"], X.sym("damp"))
