"""C03 a step runs its phases in order, each exactly once"""
from .common import *
from sa.report import comps

HOOKS = ("apply_kinematics", "apply_pre_p2g", "apply_grid_forces", "apply_grid_moments")


def run(R):
    R.ranges = RANGES
    for scheme in SCHEMES:
        for nf, ns in ((1, 0), (2, 1), (0, 1), (3, 2)) if R.tier == "thorough" else ((1, 0), (2, 1), (0, 1)):
            for dim in ((3, 2) if R.tier == "thorough" else (3,)):
                with R.group("%s %dD, %d forces, %d obstacles" % (scheme, dim, nf, ns)):
                    phases(R, scheme, dim, nf, ns)
        with R.group("%s two consecutive steps" % scheme):
            twice(R, scheme)


def marked(S, b, tag):
    """the received states with recognisable marks added by this hook"""
    m = b["mechanics"]
    fs = list(S.it.iterate(S.get(m, "forces")))
    fs[0] = obj_with(fs[0], gain=fscalar("mark." + tag))
    w = b["world"]
    mps = list(S.it.iterate(S.get(w, "material_points")))
    mps[-1] = obj_with(mps[-1], mass_stack=sym_arr("wmark." + tag, mps[-1].f["mass_stack"].shape))
    return obj_with(w, material_points=tuple(mps)), obj_with(m, forces=tuple(fs))


def marks(S, world, mech):
    fs = S.it.iterate(S.get(mech, "forces"))
    mps = S.it.iterate(S.get(world, "material_points"))
    a = fs[0].f["gain"].at()
    b = mps[-1].f["mass_stack"].at(X.sym("#ix0"))
    return a, b


def phases(R, scheme, dim, nf, ns):
    S = R.use(Scene(dim))
    subj = R.cur
    log = []
    forces = []
    for k in range(nf):
        def act(h, b, k=k):
            w, m = marked(S, b, "%s%d" % (h, k))
            if h == "apply_kinematics":
                # rigid motion imposed by a force: replaces obstacle and particle positions
                mps = list(S.it.iterate(S.get(w, "material_points")))
                mps[0] = obj_with(mps[0], position_stack=sym_arr("kinpos%d" % k, mps[0].f["position_stack"].shape),
                                  force_stack=sym_arr("junkf", mps[0].f["force_stack"].shape))
                w = obj_with(w, material_points=tuple(mps))
                return (w, m)
            c = b["sim_cache"]
            if h == "apply_pre_p2g":
                mps = list(S.it.iterate(S.get(w, "material_points")))
                for p in range(3):
                    mps[p] = obj_with(mps[p], force_stack=sym_arr("prefext%d" % k, mps[p].f["force_stack"].shape))
                w = obj_with(w, material_points=tuple(mps))
            if h == "apply_grid_forces":
                c = with_grids(c, [obj_with(g, force_stack=sym_arr("gf%d_%d" % (k, q), g.f["force_stack"].shape)) for q, g in enumerate(grids_of(S, c))])
            if h == "apply_grid_moments":
                c = with_grids(c, [obj_with(g, moment_nt_stack=sym_arr("gnt%d_%d" % (k, q), g.f["moment_nt_stack"].shape)) for q, g in enumerate(grids_of(S, c))])
            return (w, m, c)
        forces.append(S.probe_force(k, log, act))
    bodies = [Body(0, 0, 0, 0), Body(1, 1, 1, 1), Body(2, 0, 2, 2)]
    st = make(S, scheme, bodies, nbody=4, log=log, forces=tuple(forces), sdfs=ns)
    if not nf:
        st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=(S.raw(S.subclass("BaseForceState", "PF", {}, {"gain": None}), gain=fscalar("fstate0")),), sdfs=st.sdf_states)
    st.out = S.it.call(st.solver, [st.state], {})
    o = st.out
    R.eq("time advances by dt", subj, S.get(o, "time"), X.add(X.sym("time"), X.sym("dt")))
    R.eq("step counter advances by one", subj, S.get(o, "step"), X.add(X.sym("step"), X.ONE))
    R.eq("step size is left alone", subj, S.get(o, "dt"), X.sym("dt"))
    ev = [e for e in log if e[0] in ("hook", "sdf_update", "law", "compute")]
    # multiplicity
    for k in range(nf):
        for h in HOOKS:
            n = [e for e in ev if e[0] == "hook" and e[1] == k and e[2] == h]
            R.ob("each hook exactly once", "%s force %d %s" % (subj, k, h), len(n) == 1, "called %d times" % len(n), n[-1][4] if n else None)
            for e in n:
                for a, s in (("dt", "dt"), ("time", "time")):
                    R.eq("hooks get the step's %s" % a, "%s force %d %s" % (subj, k, h), e[3].get(a), X.sym(s), e[4])
                unchanged(R, "hooks get the solver's couplings", "%s force %d %s" % (subj, k, h), e[3].get("couplings"), st.couplings)
                unchanged(R, "hooks get the solver's obstacles", "%s force %d %s" % (subj, k, h), e[3].get("sdf_logics"), st.sdfs)
                if "grid_domains" in e[3]:
                    unchanged(R, "hooks get the solver's grids", "%s force %d %s" % (subj, k, h), e[3].get("grid_domains"), st.domains)
    for k in range(ns):
        n = [e for e in ev if e[0] == "sdf_update" and e[1] == k]
        R.ob("each obstacle moves exactly once", "%s obstacle %d" % (subj, k), len(n) == 1, "moved %d times" % len(n), n[-1][4] if n else None)
        for e in n:
            R.eq("obstacles move by the step's dt", "%s obstacle %d" % (subj, k), e[3], X.sym("dt"), e[4])
    # order
    rank = {"apply_kinematics": 0, "sdf_update": 1, "compute": 2, "apply_pre_p2g": 3, "apply_grid_forces": 4, "apply_grid_moments": 5, "law": 6}
    seq = [(rank[e[2] if e[0] == "hook" else e[0]], e) for e in ev]
    bad = next(((a, b) for a, b in zip(seq, seq[1:]) if a[0] > b[0]), None)
    R.ob("phases in order", subj, bad is None, "kinematics, obstacles, stencils, pre-transfer, grid forces, grid momenta, laws" if bad is None else
         "%s runs before %s" % (bad[0][1][2] if bad[0][1][0] == "hook" else bad[0][1][0], bad[1][1][2] if bad[1][1][0] == "hook" else bad[1][1][0]),
         bad[0][1][-1] if bad else None)
    # stencils from the positions the kinematic hooks produced
    for e in ev:
        if e[0] == "compute":
            want = "kinpos%d" % (nf - 1) if nf and e[1] == 0 else "p%d.position_stack" % e[1]
            if isinstance(e[3], Arr):
                R.eqa("stencils use current positions", "%s body %d" % (subj, e[1]), e[3], lambda i, j: X.sym(want, i, j), e[6])
    # chaining of the states through the hooks
    last = None
    for h in HOOKS:
        for k in range(nf):
            es = [e for e in ev if e[0] == "hook" and e[1] == k and e[2] == h]
            if len(es) != 1:
                continue
            b, loc = es[0][3], es[0][4]
            if last is not None:
                a, w = marks(S, b["world"], b["mechanics"])
                R.eq("a hook sees the mechanics the previous hook returned", "%s force %d %s" % (subj, k, h), a, X.sym("mark." + last), loc)
                R.eq("a hook sees the world the previous hook returned", "%s force %d %s" % (subj, k, h), w, X.sym("wmark." + last, X.sym("#ix0")), loc)
            last = "%s%d" % (h, k)
            if h != "apply_kinematics" and ns:
                tags = [s.f.get("_tag") for s in S.it.iterate(S.get(b["world"], "sdfs"))]
                R.ob("hooks see moved obstacles", "%s force %d %s" % (subj, k, h), tags == ["s%d'" % q for q in range(ns)], "obstacle states %s" % tags, loc)
            if "sim_cache" in b:
                for q, g in enumerate(grids_of(S, b["sim_cache"])):
                    if h == "apply_pre_p2g":
                        for f in ("mass_stack", "moment_stack", "moment_nt_stack", "force_stack"):
                            R.eqa("grids start empty", "%s grid %d %s" % (subj, q, f), g.f[f], lambda *i: X.ZERO)
                    if h == "apply_grid_forces":
                        if k == 0:
                            R.depends("transfer precedes grid forces", "%s grid %d" % (subj, q), g.f["mass_stack"], lambda s: s.endswith(".mass_stack"), loc)
                            R.depends("transfer carries the pre-transfer forces", "%s grid %d" % (subj, q), g.f["force_stack"], lambda s: s == "prefext%d" % (nf - 1), loc)
                        else:
                            R.eqa("later grid-force hooks see earlier ones", "%s force %d grid %d" % (subj, k, q), g.f["force_stack"], lambda i, j: X.sym("gf%d_%d" % (k - 1, q), i, j), loc)
                    if h == "apply_grid_moments":
                        if k == 0:
                            R.depends("integration uses the last grid forces", "%s grid %d" % (subj, q), g.f["moment_nt_stack"], lambda s: s == "gf%d_%d" % (nf - 1, q), loc)
                        else:
                            R.eqa("later momentum hooks see earlier ones", "%s force %d grid %d" % (subj, k, q), g.f["moment_nt_stack"], lambda i, j: X.sym("gnt%d_%d" % (k - 1, q), i, j), loc)
            if h == "apply_pre_p2g" and k == 0:
                for p in range(len(bodies)):
                    m = S.it.iterate(S.get(b["world"], "material_points"))[p]
                    R.eqa("forces cleared before the transfer", "%s body %d" % (subj, p), m.f["force_stack"], lambda i, j: X.ZERO)
                    R.eqa("velocity gradients cleared before the transfer", "%s body %d" % (subj, p), m.f["L_stack"], lambda i, j, l: X.ZERO)
    if last is not None:
        a, w = marks(S, S.get(o, "world"), S.get(o, "mechanics"))
        R.eq("what the last hook returned is kept", subj + " mechanics", a, X.sym("mark." + last))
        R.eq("what the last hook returned is kept", subj + " world", w, X.sym("wmark." + last, X.sym("#ix0")))
    # obstacles in the new state
    if ns:
        tags = [s.f.get("_tag") for s in S.it.iterate(S.get(o, "world", "sdfs"))]
        R.ob("moved obstacles are stored", subj, tags == ["s%d'" % q for q in range(ns)], "obstacle states %s" % tags)
        for e in log:
            if e[0] == "sdf" and isinstance(e[3], Obj):
                if e[3].f.get("_tag") != "s%d'" % e[1]:
                    R.ob("obstacles are evaluated after moving, each with its own state", "%s obstacle %d %s" % (subj, e[1], e[2]), False, "state %s" % e[3].f.get("_tag"), e[5])
        R.ob("obstacles are evaluated after moving, each with its own state", subj, True, "%d evaluations" % sum(1 for e in log if e[0] == "sdf"))
    # laws last, from new kinematics
    for e in ev:
        if e[0] == "law":
            mp = e[2]
            R.eq("laws get the step's dt", "%s law %d" % (subj, e[1]), e[4], X.sym("dt"), e[5])
            p = e[1]
            grid = {b.p: b.g for b in bodies}
            src = [c for f in ("L_stack", "F_stack", "position_stack") for c in comps(mp.f[f])]
            if nf:
                R.depends("laws see the updated velocity gradient", "%s law %d" % (subj, e[1]), mp.f["L_stack"], lambda s: s == "gnt%d_%d" % (nf - 1, grid[p]), e[5])
                R.depends("laws see the updated deformation gradient", "%s law %d" % (subj, e[1]), mp.f["F_stack"], lambda s: s == "gnt%d_%d" % (nf - 1, grid[p]), e[5])
                R.depends("laws see the updated volume", "%s law %d" % (subj, e[1]), mp.f["volume_stack"], lambda s: s == "gnt%d_%d" % (nf - 1, grid[p]), e[5])
            fin = S.it.iterate(S.get(o, "world", "material_points"))[p]
            R.eqa("stresses are final", "%s body %d" % (subj, p), fin.f["stress_stack"], lambda i, j, l, c=e[1]: X.sym("law%d.stress" % c, i, j, l))
            for f in ("position_stack", "velocity_stack", "L_stack", "F_stack", "volume_stack"):
                v = same(fin.f[f], mp.f[f])
                R.ob("nothing moves after the stress update", "%s body %d %s" % (subj, p, f), v, "", fin.f[f].src)
    R.ob("stresses updated once per body", subj, sum(1 for e in ev if e[0] == "law") == len(bodies), "%d law updates" % sum(1 for e in ev if e[0] == "law"))


def twice(R, scheme):
    """a second step starts from the state alone: nothing is remembered between calls in the solver object"""
    S = R.use(Scene(3))
    log = []
    st = make(S, scheme, [Body(0, 0, 0, 0)], log=log, forces=(S.probe_force(0, log),))
    before = {k: v for k, v in st.solver.f.items()}
    a = S.it.call(st.solver, [st.state], {})
    b = S.it.call(st.solver, [st.state], {})
    v = same(S.get(a, "world"), S.get(b, "world"))
    R.ob("repeating a call from the same state gives the same result", R.cur, v, "world states are equal" if v else "differs: %s" % diffname(S.get(a, "world"), S.get(b, "world")))
    v = same(S.get(a, "mechanics"), S.get(b, "mechanics"))
    R.ob("repeating a call from the same state gives the same mechanics", R.cur, v, "")
    R.ob("the solver object is not changed", R.cur, all(st.solver.f.get(k) is before[k] for k in before) and set(before) == set(st.solver.f), "")
