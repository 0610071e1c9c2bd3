"""C17 scene-builder registries stay in step with the identifiers they hand out"""
import itertools

from .common import *
from .laws import STATES, law_obj

KINDS = ("gravity", "damping", "contact", "collider")


def run(R):
    R.ranges = dict(RANGES)
    R.ranges.update({"acc*": (-10, 10), "damp*": (0.1, 0.9), "gm*": (0.5, 2.0), "gv*": (-2, 2), "gf*": (-2, 2)})
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            with R.group("%s %dD full scene" % (scheme, dim)):
                scene(R, scheme, dim, None)
            for sub in ([1], [3, 1], [2, 0], [0, 1, 2, 3]):
                with R.group("%s %dD bodies %s" % (scheme, dim, sub)):
                    scene(R, scheme, dim, sub)
            with R.group("%s %dD two solvers" % (scheme, dim)):
                two(R, scheme, dim)
            with R.group("%s %dD couplings by default" % (scheme, dim)):
                defaults(R, scheme, dim)
    for scheme in ("usl", "usl_aflip"):
        with R.group("%s one law and grid object registered twice" % scheme):
            shared(R, scheme)
    n = 4 if R.tier == "thorough" else 3
    for L in range(1, n + 1):
        for seq in itertools.product(KINDS, repeat=L):
            with R.group("forces %s" % "+".join(seq)):
                forces(R, seq)
    for sub in ([1], [2, 0], [0, 1, 2]):
        with R.group("selected forces %s" % sub):
            forces(R, ("gravity", "damping", "gravity"), sub)
    with R.group("material laws of every kind"):
        laws(R)
    with R.group("obstacles"):
        obstacles(R)
        boxed_obstacle(R)
    for sub in ([1], [2, 0]):
        with R.group("selected obstacles %s" % sub, key="obstacle_subset"):
            obstacle_subset(R, sub)
    with R.group("states given for laws that could make their own"):
        given_states(R)
    for scheme in ("usl", "usl_aflip"):
        with R.group("%s empty selections" % scheme):
            nothing(R, scheme)
        with R.group("%s building again" % scheme):
            again(R, scheme)
    with R.group("one obstacle shape used twice"):
        twin(R)
    with R.group("contact between selected bodies", key="contact_in_body_subset"):
        contact_subset(R)


def builder(S, nb, ng, rigid=()):
    B = S.new("SimBuilder")
    doms, ids = [S.domain(g) for g in range(ng)], []
    for g in range(ng):
        ids.append(native(S.call(B, "add_grid", grid_domain=doms[g])))
    pos, pids = [], []
    for p in range(nb):
        a = sym_arr("p%d.pos" % p, (size("N%d" % p), S.dim))
        pos.append(a)
        kw = {"is_rigid": True} if p in rigid else {"mass_stack": sym_arr("p%d.m" % p, (size("N%d" % p),)), "volume_stack": sym_arr("p%d.v" % p, (size("N%d" % p),))}
        pids.append(native(S.call(B, "add_material_points", position_stack=a, **kw)))
    return B, doms, ids, pos, pids


def one(R, S, out):
    """(solver, state) of a build"""
    out = S.it.iterate(out)
    return out[0], out[1]


def distinct(R, rule, subj, ids):
    R.ob(rule, subj, len(set(ids)) == len(ids), "identifiers %s" % ids)


def scene(R, scheme, dim, sub):
    S = R.use(Scene(dim))
    subj = R.cur
    log = []
    # interleaved registration: bodies 0,1(rigid),2,3 on grids 1,0,2,0 with laws 2,-,0,1
    B = S.new("SimBuilder")
    doms, pos, lw, ls = {}, {}, {}, {}
    gid, pid, cid = {}, {}, {}

    def grid(k):
        doms[k] = S.domain(k)
        gid[k] = native(S.call(B, "add_grid", grid_domain=doms[k]))

    def body(k, rigid=False):
        pos[k] = sym_arr("p%d.pos" % k, (size("N%d" % k), dim))
        kw = {"is_rigid": True} if rigid else {"mass_stack": sym_arr("p%d.m" % k, (size("N%d" % k),)), "volume_stack": sym_arr("p%d.v" % k, (size("N%d" % k),))}
        pid[k] = native(S.call(B, "add_material_points", position_stack=pos[k], **kw))

    def law(k):
        lw[k], ls[k] = S.probe_law(k, log), S.law_state(k)
        cid[k] = native(S.call(B, "add_constitutive_law", law=lw[k], law_state=ls[k]))
    body(0), grid(0), law(0), body(1, True), law(1), grid(1), grid(2), body(2), body(3), law(2)
    plan = [(2, 2, 0), (0, 1, 2), (1, 0, None), (3, 0, 1)]       # body, grid, law: not in registration order
    kids = []
    for p, g, c in plan:
        kw = dict(p_idx=pid[p], g_idx=gid[g])
        if c is not None:
            kw["c_idx"] = cid[c]
        kids.append(native(S.call(B, "couple", **kw)))
    for nm, ids in (("grids", gid), ("bodies", pid), ("laws", cid)):
        distinct(R, "identifiers are distinct", "%s %s" % (subj, nm), list(ids.values()))
    distinct(R, "identifiers are distinct", subj + " couplings", kids)
    kw = {} if sub is None else {"b_idx_list": PList([kids[i] for i in sub])}
    S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"), **kw)
    solver, state = one(R, S, S.call(B, "build", time=pyfloat("t"), step=scalar(X.sym("st"), "i", "int"), dt=pyfloat("dt")))
    R.eq("the state starts at the requested time", subj, S.get(state, "time"), X.sym("t"))
    R.eq("the state starts at the requested step", subj, S.get(state, "step"), X.sym("st"))
    R.eq("the state has the requested step size", subj, S.get(state, "dt"), X.sym("dt"))
    mps = S.it.iterate(S.get(state, "world", "material_points"))
    R.ob("the world holds the registered bodies", subj, len(mps) == 4, "%d bodies" % len(mps))
    for k in pid:
        R.eqa("a body identifier is the body's position in the world", "%s body %d" % (subj, k), mps[pid[k]].f["position_stack"], pos[k])
    lst = S.it.iterate(S.get(state, "mechanics", "constitutive_laws"))
    sl = S.it.iterate(S.get(solver, "constitutive_laws"))
    R.ob("the mechanics hold one state per law", subj, len(lst) == len(sl), "%d laws, %d states" % (len(sl), len(lst)))
    mem = S.it.iterate(S.get(state, "mechanics", "solvers"))
    cs = S.it.iterate(S.get(solver, "couplings"))
    want = [plan[i] for i in (sub if sub is not None else range(len(plan)))]
    R.ob("the solver has the selected couplings, in order", subj, len(cs) == len(want), "%d couplings for %d selected" % (len(cs), len(want)))
    used = []
    for c, (p, g, l) in zip(cs, want):
        s2 = "%s body %d" % (subj, p)
        unchanged(R, "a coupling refers to its body", s2, mps[native(S.get(c, "p_idx"))], mps[pid[p]])
        R.ob("a coupling refers to its body", s2, native(S.get(c, "p_idx")) == pid[p], "body %s for %s" % (native(S.get(c, "p_idx")), pid[p]))
        d = S.it.iterate(S.get(solver, "grid_domains"))
        gi = native(S.get(c, "g_idx"))
        R.ob("a coupling refers to its grid", s2, gi < len(d) and d[gi] is doms[g], "grid %s of %d" % (gi, len(d)))
        skip = S.get(c, "skip_mpm_logic")
        R.ob("only rigid bodies are left out of the transfer", s2, bool(native(skip)) == (l is None), "skip=%s" % native(skip))
        if l is None:
            continue
        ci = native(S.get(c, "c_idx"))
        R.ob("a coupling refers to its law", s2, ci is not None and ci < len(sl) and sl[ci] is lw[l], "law %s of %d" % (ci, len(sl)))
        if ci is not None and ci < len(lst):
            unchanged(R, "a law finds its own state", s2, lst[ci], ls[l])
        si = native(S.get(c, "s_idx"))
        used.append(si)
        ok = si is not None and si < len(mem)
        R.ob("a coupling refers to solver memory", s2, ok and mem[si] is not None, "slot %s of %d" % (si, len(mem)))
        if ok and isinstance(mem[si], Obj):
            for f, v in mem[si].f.items():
                if isinstance(v, Arr) and v.shape and not isinstance(v.shape[0], int):
                    R.eq("solver memory has the size of its body", "%s %s" % (s2, f), dimE(v.shape[0]), size("N%d" % p))
    distinct(R, "bodies do not share solver memory", subj, used)
    # one step: every selected law sees its own body and state
    S2 = obj_with(solver, couplings=tuple(S.coupling(native(c.f["p_idx"]), native(c.f["g_idx"]), c.f["c_idx"], c.f["s_idx"], c.f["skip_mpm_logic"]) for c in cs))
    out = S.it.call(S2, [state], {})
    for p, g, l in want:
        if l is None:
            continue
        ev = [e for e in log if e[0] == "law" and e[1] == l]
        R.ob("each law is evaluated once", "%s law %d" % (subj, l), len(ev) == 1, "%d evaluations" % len(ev))
        for e in ev:
            unchanged(R, "a law finds its own state", "%s law %d in a step" % (subj, l), e[3], ls[l])
            R.eqa("a law updates its own body", "%s law %d" % (subj, l), e[2].f["mass_stack"], lambda q: X.sym("p%d.m" % p, q))
    for e in log:
        if e[0] == "law":
            R.ob("laws of bodies not selected do not run", "%s law %d" % (subj, e[1]), e[1] in [w[2] for w in want], "")
    om = S.it.iterate(S.get(out, "world", "material_points"))
    for k in pid:
        if k not in [w[0] for w in want]:
            unchanged(R, "bodies not selected are left alone", "%s body %d" % (subj, k), om[pid[k]], mps[pid[k]])


def two(R, scheme, dim):
    """two solvers over disjoint bodies share one state"""
    S = R.use(Scene(dim))
    B, doms, gid, pos, pid = builder(S, 3, 2)
    log = []
    for k in range(3):
        S.call(B, "add_constitutive_law", law=S.probe_law(k, log), law_state=S.law_state(k))
    kid = [native(S.call(B, "couple", p_idx=p, g_idx=p % 2, c_idx=p)) for p in (2, 0, 1)]
    a = S.call(B, "set_solver", scheme=scheme, b_idx_list=PList([kid[2], kid[0]]), alpha=pyfloat("alpha"))
    b = S.call(B, "set_solver", scheme=scheme, b_idx_list=PList([kid[1]]), alpha=pyfloat("alpha"))
    solvers, state = one(R, S, S.call(B, "build"))
    R.ob("building several solvers returns all of them, in order", R.cur, isinstance(solvers, (PList, tuple)) and len(S.it.iterate(solvers)) == 2 and (native(a), native(b)) == (0, 1), "ids %s %s" % (native(a), native(b)))
    mem = S.it.iterate(S.get(state, "mechanics", "solvers"))
    slots = []
    for sv, bodies in zip(S.it.iterate(solvers), ((1, 2), (0,))):
        for c, p in zip(S.it.iterate(S.get(sv, "couplings")), bodies):
            R.ob("each solver has its own bodies", "%s body %d" % (R.cur, p), native(S.get(c, "p_idx")) == p, "body %s" % native(S.get(c, "p_idx")))
            si = native(S.get(c, "s_idx"))
            slots.append(si)
            R.ob("a coupling refers to solver memory", "%s body %d" % (R.cur, p), si < len(mem) and isinstance(mem[si], Obj), "slot %s of %d" % (si, len(mem)))
            if si < len(mem) and isinstance(mem[si], Obj):
                for f, v in mem[si].f.items():
                    if isinstance(v, Arr) and v.shape and not isinstance(v.shape[0], int):
                        R.eq("solver memory has the size of its body", "%s body %d %s" % (R.cur, p, f), dimE(v.shape[0]), size("N%d" % p))
    distinct(R, "bodies do not share solver memory", R.cur, slots)


def defaults(R, scheme, dim):
    """couple() without arguments takes what was registered last; solvers take everything"""
    S = R.use(Scene(dim))
    B = S.new("SimBuilder")
    want = []
    log = []
    for k in range(2):
        S.call(B, "add_grid", grid_domain=S.domain(k))
        S.call(B, "add_material_points", position_stack=sym_arr("p%d.pos" % k, (size("N%d" % k), dim)), mass_stack=sym_arr("m%d" % k, (size("N%d" % k),)), volume_stack=sym_arr("v%d" % k, (size("N%d" % k),)))
        S.call(B, "add_constitutive_law", law=S.probe_law(k, log), law_state=S.law_state(k))
        S.call(B, "couple")
        want.append((k, k, k))
    S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"))
    solver, state = one(R, S, S.call(B, "build"))
    got = [tuple(native(S.get(c, f)) for f in ("p_idx", "g_idx", "c_idx")) for c in S.it.iterate(S.get(solver, "couplings"))]
    R.ob("couplings default to what was registered last", R.cur, got == want, "body, grid, law %s" % got)
    # registries of different lengths: 4 bodies (one rigid), 2 laws, 3 grids, 3 obstacles, forces in between
    S = R.use(Scene(dim))
    B = S.new("SimBuilder")
    body = lambda k, **kw: S.call(B, "add_material_points", position_stack=sym_arr("p%d.pos" % k, (size("N%d" % k), dim)), **(kw or dict(mass_stack=sym_arr("m%d" % k, (size("N%d" % k),)), volume_stack=sym_arr("v%d" % k, (size("N%d" % k),)))))
    law = lambda k: S.call(B, "add_constitutive_law", law=S.probe_law(k, log), law_state=S.law_state(k))
    want = []
    body(0), body(1), law(0)
    for g in range(3):
        S.call(B, "add_grid", grid_domain=S.domain(g))
    S.call(B, "couple")
    want.append((1, 2, 0))
    body(2, is_rigid=True), body(3), law(1)
    S.call(B, "couple")
    want.append((3, 2, 1))
    S.call(B, "couple", p_idx=0)
    want.append((0, 2, 1))
    S.call(B, "couple", g_idx=0, c_idx=0)
    want.append((3, 0, 0))
    own = []
    S.call(B, "add_gravity", gravity=sym_arr("acc", (dim,)))
    S.call(B, "add_damping", alpha=pyfloat("damp"))
    for k in range(3):
        S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(k, log), sdf_state=S.sdf_state(k))
        if k != 1:
            own.append((k, native(S.call(B, "add_sdf_collider"))))
    S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"))
    solver, state = one(R, S, S.call(B, "build"))
    got = [tuple(native(S.get(c, f)) for f in ("p_idx", "g_idx", "c_idx")) for c in S.it.iterate(S.get(solver, "couplings"))]
    R.ob("couplings default to what was registered last", R.cur + " registries of different lengths", got == want, "body, grid, law %s for %s" % (got, want))
    F = S.it.iterate(S.get(solver, "forces"))
    got = [(k, native(S.get(F[i], "sdf_idx"))) for k, i in own]
    R.ob("a contact force defaults to the obstacle registered last", R.cur + " registries of different lengths", all(a == b for a, b in got), "last obstacle, obstacle of the force: %s" % got)
    got = [sorted(native(g) for g in S.it.iterate(S.get(F[i], "g_idx_list"))) for k, i in own]
    R.ob("a contact force defaults to the grids registered so far", R.cur + " registries of different lengths", all(g == [0, 1, 2] for g in got), "grids %s" % got)


def shared(R, scheme):
    """the same law object registered for two bodies with two states; solver configured twice"""
    S = R.use(Scene(3))
    log = []
    B = S.new("SimBuilder")
    law, dom = S.probe_law(0, log), S.domain(0)
    states = [S.law_state(k) for k in range(2)]
    ids = []
    for k in range(2):
        g = native(S.call(B, "add_grid", grid_domain=dom))
        p = native(S.call(B, "add_material_points", position_stack=sym_arr("p%d.pos" % k, (size("N%d" % k), 3)), mass_stack=sym_arr("p%d.m" % k, (size("N%d" % k),)), volume_stack=sym_arr("p%d.v" % k, (size("N%d" % k),))))
        c = native(S.call(B, "add_constitutive_law", law=law, law_state=states[k]))
        ids.append((g, p, c))
        S.call(B, "couple", p_idx=p, g_idx=g, c_idx=c)
    R.ob("registering an object twice gives it two positions", R.cur, ids == [(0, 0, 0), (1, 1, 1)], "grid, body, law identifiers %s" % ids)
    for _ in range(2):
        S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"))
    solvers, state = one(R, S, S.call(B, "build"))
    solver = S.it.iterate(solvers)[1]
    mem = S.it.iterate(S.get(state, "mechanics", "solvers"))
    for c in S.it.iterate(S.get(solver, "couplings")):
        si = native(S.get(c, "s_idx"))
        R.ob("a coupling refers to solver memory", "%s after configuring again" % R.cur, si < len(mem) and isinstance(mem[si], Obj), "slot %s of %d" % (si, len(mem)))
    solver = obj_with(solver, couplings=tuple(S.coupling(native(c.f["p_idx"]), native(c.f["g_idx"]), c.f["c_idx"], c.f["s_idx"]) for c in S.it.iterate(S.get(solver, "couplings"))))
    out = S.it.call(solver, [state], {})
    ev = [e for e in log if e[0] == "law"]
    for k in range(2):
        mine = [e for e in ev if isinstance(e[2], Obj) and same(e[2].f["mass_stack"], sym_arr("p%d.m" % k, (size("N%d" % k),)))]
        R.ob("each law is evaluated once", "%s body %d" % (R.cur, k), len(mine) == 1, "%d evaluations" % len(mine))
        for e in mine:
            unchanged(R, "a law finds its own state", "%s body %d" % (R.cur, k), e[3], states[k])


def acting(S, solver, state, fi, dim, ng=2):
    """nodal forces on every grid after the grid-force hook of force fi alone"""
    F = S.it.iterate(S.get(solver, "forces"))[fi]
    doms = S.it.iterate(S.get(solver, "grid_domains"))
    gs = []
    for k, d in enumerate(doms):
        g = S.call(S.cls("GridArrays"), "new", d)
        gs.append(obj_with(g, mass_stack=sym_arr("gm%d" % k, g.f["mass_stack"].shape), moment_stack=sym_arr("gv%d" % k, g.f["moment_stack"].shape), force_stack=sym_arr("gf%d" % k, g.f["force_stack"].shape)))
    cache = S.new("SimCache", grids=PList(gs), interactions=PDict({}), node_geoms=PDict({}), mp_geoms=PDict({}))
    args = dict(world=S.get(state, "world"), mechanics=S.get(state, "mechanics"), sim_cache=cache, sdf_logics=S.get(solver, "sdf_logics"), couplings=S.get(solver, "couplings"),
                grid_domains=S.get(solver, "grid_domains"), dt=pyfloat("dt"), time=pyfloat("time"))
    return F, args


def forces(R, seq, sub=None):
    S = R.use(Scene(3))
    subj = R.cur
    B, doms, gid, pos, pid = builder(S, 2, 2)
    log = []
    for k in range(2):
        S.call(B, "add_constitutive_law", law=S.probe_law(k, log), law_state=S.law_state(k))
        S.call(B, "couple", p_idx=k, g_idx=k, c_idx=k)
        S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(k, log), sdf_state=S.sdf_state(k))
    ids = []
    for i, kind in enumerate(seq):
        if kind == "gravity":
            r = S.call(B, "add_gravity", gravity=sym_arr("acc%d" % i, (3,)))
        elif kind == "damping":
            r = S.call(B, "add_damping", alpha=pyfloat("damp%d" % i))
        elif kind == "contact":
            r = S.call(B, "add_body_contact", couple_idx_actor=1, couple_idx_receiver=0)
        else:
            r = S.call(B, "add_sdf_collider", sdf_idx=i % 2, g_idx_list=PList([i % 2]))
        ids.append(native(r))
    R.ob("force identifiers are positions", subj, ids == list(range(len(seq))), "identifiers %s" % ids)
    kw = {} if sub is None else {"f_idx_list": PList([ids[i] for i in sub])}
    S.call(B, "set_solver", scheme="usl_aflip", alpha=pyfloat("alpha"), **kw)
    solver, state = one(R, S, S.call(B, "build"))
    fs = S.it.iterate(S.get(solver, "forces"))
    st = S.it.iterate(S.get(state, "mechanics", "forces"))
    order = sub if sub is not None else list(range(len(seq)))
    R.ob("the solver has the selected forces", subj, len(fs) == len(order), "%d forces for %d selected" % (len(fs), len(order)))
    R.ob("one state slot per force", subj, len(st) == len(seq), "%d states for %d forces" % (len(st), len(seq)))
    classes = {"gravity": "Gravity", "damping": "Damping", "contact": "GridContact", "collider": "SDFCollider"}
    for j, i in enumerate(order):
        kind = seq[i]
        s2 = "%s: %s %d" % (subj, kind, i)
        R.ob("a force identifier is the force's position", s2, fs[j].cls.issub(S.cls(classes[kind])), fs[j].cls.name)
        if kind not in ("gravity", "damping"):
            continue
        F, a = acting(S, solver, state, j, 3)
        out = S.it.iterate(S.it.call(S.it.getattr(F, "apply_grid_forces"), [], a))
        for g, gr in enumerate(grids_of(S, out[2])):
            f, m, v = (lambda q, k, g=g: X.sym("gf%d" % g, q, k)), (lambda q, g=g: X.sym("gm%d" % g, q)), (lambda q, k, g=g: X.sym("gv%d" % g, q, k))
            if kind == "gravity":
                w = lambda q, k: X.add(f(q, k), X.mul(m(q), X.sym("acc%d" % i, k)))
            else:
                w = lambda q, k: X.sub(f(q, k), X.mul(X.sym("damp%d" % i), X.abs_(f(q, k)), X.fn("sign", v(q, k))))
            R.eqa("a force finds its own state", "%s grid %d" % (s2, g), gr.f["force_stack"], w)


def laws(R):
    S = R.use(Scene(3))
    B = S.new("SimBuilder")
    rho = sym_arr("rho", (size("N0"),))
    made = []
    ph = pyfloat
    entries = [
        ("LinearElasticLaw", dict(E=ph("E"), nu=0.3), {}),
        ("NewtonFluid", dict(K=ph("K"), viscosity=ph("mu"), beta=ph("beta")), {"density_stack": rho}),
        ("MuI_LC", "sym", {"density_stack": rho}),
        ("probe", None, None),
        ("LinearElasticLaw", dict(E=ph("E2"), nu=0.2), {}),
        ("probe", None, None),
    ]
    for i, (nm, kw, extra) in enumerate(entries):
        if nm == "probe":
            law, st = S.probe_law(i, []), S.law_state(i)
            made.append((i, law, st, native(S.call(B, "add_constitutive_law", law=law, law_state=st))))
            continue
        if kw == "sym":
            law = law_obj(S, nm)
        else:
            law = S.new(nm, **kw)
        r = S.call(B, "add_constitutive_law", law=law, **extra)
        made.append((i, law, None, native(r)))
    R.ob("law identifiers are positions", R.cur, [m[3] for m in made] == list(range(len(made))), "identifiers %s" % [m[3] for m in made])
    S.call(B, "add_grid", grid_domain=S.domain(0))
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    solver, state = one(R, S, S.call(B, "build"))
    sl = S.it.iterate(S.get(solver, "constitutive_laws"))
    lst = S.it.iterate(S.get(state, "mechanics", "constitutive_laws"))
    R.ob("one state slot per law", R.cur, len(sl) == len(lst) == len(made), "%d laws, %d states" % (len(sl), len(lst)))
    for i, law, st, k in made:
        R.ob("a law identifier is the law's position", "%s law %d" % (R.cur, i), sl[k] is law, "")
        if st is not None:
            unchanged(R, "a law finds its own state", "%s law %d" % (R.cur, i), lst[k], st)
        elif entries[i][2]:
            v = lst[k]
            R.ob("laws initialised from densities get a state", "%s law %d" % (R.cur, i), isinstance(v, Obj), "")
            R.depends("laws initialised from densities use the given density", "%s law %d" % (R.cur, i), v, lambda s: s == "rho")


def given_states(R):
    """a state handed over with a law is the one the law finds, also when the law could derive one"""
    S = R.use(Scene(3))
    B = S.new("SimBuilder")
    made = []
    for nm in ("NewtonFluid", "MuI_LC", "DruckerPrager", "ModifiedCamClay", "MuI_LC", "NewtonFluid"):
        for extra in ({}, {"density_stack": sym_arr("rho", (size("N0"),))}):
            law, st = law_obj(S, nm), S.sym_obj(STATES[nm], "ls%d" % len(made), {"num_points": size("N0")})
            made.append((nm, law, st, native(S.call(B, "add_constitutive_law", law=law, law_state=st, **extra))))
    S.call(B, "add_grid", grid_domain=S.domain(0))
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    solver, state = one(R, S, S.call(B, "build"))
    sl = S.it.iterate(S.get(solver, "constitutive_laws"))
    lst = S.it.iterate(S.get(state, "mechanics", "constitutive_laws"))
    R.ob("one state slot per law", R.cur, len(sl) == len(lst) == len(made), "%d laws, %d states" % (len(sl), len(lst)))
    for i, (nm, law, st, k) in enumerate(made):
        R.ob("a law identifier is the law's position", "%s %s %d" % (R.cur, nm, i), sl[k] is law, "")
        unchanged(R, "a law finds its own state", "%s %s %d" % (R.cur, nm, i), lst[k], st)


def nothing(R, scheme):
    """an empty selection selects nothing (unlike no selection, which takes everything)"""
    for which in ("b_idx_list", "f_idx_list", "sdf_idx_list"):
        S = R.use(Scene(3))
        B, doms, gid, pos, pid = builder(S, 2, 2)
        log = []
        for k in range(2):
            S.call(B, "add_constitutive_law", law=S.probe_law(k, log), law_state=S.law_state(k))
            S.call(B, "couple", p_idx=k, g_idx=k, c_idx=k)
            S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(k, log), sdf_state=S.sdf_state(k))
        S.call(B, "add_gravity", gravity=sym_arr("acc", (3,)))
        S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"), **{which: PList([])})
        solver, state = one(R, S, S.call(B, "build"))
        for nm, f, n in (("b_idx_list", "couplings", 2), ("f_idx_list", "forces", 1), ("sdf_idx_list", "sdf_logics", 2)):
            got = len(S.it.iterate(S.get(solver, f)))
            R.ob("a selection is taken as given", "%s %s: %s" % (R.cur, which, f), got == (0 if nm == which else n), "%d %s" % (got, f))
        R.ob("the world keeps what was registered", "%s %s" % (R.cur, which), (len(S.it.iterate(S.get(state, "world", "material_points"))), len(S.it.iterate(S.get(state, "world", "sdfs"))), len(S.it.iterate(S.get(state, "mechanics", "forces")))) == (2, 2, 1), "")
    S = R.use(Scene(3))
    B, doms, gid, pos, pid = builder(S, 2, 2)
    S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(0, []), sdf_state=S.sdf_state(0))
    ids = []
    for kw in (dict(g_idx_list=PList([]), p_idx_list=PList([0])), dict(g_idx_list=PList([1]), p_idx_list=PList([]))):
        ids.append((kw, native(S.call(B, "add_gravity", gravity=sym_arr("acc", (3,)), **kw))))
        ids.append((kw, native(S.call(B, "add_damping", alpha=pyfloat("damp"), **kw))))
    k = native(S.call(B, "add_sdf_collider", sdf_idx=0, g_idx_list=PList([])))
    S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"))
    solver, state = one(R, S, S.call(B, "build"))
    F = S.it.iterate(S.get(solver, "forces"))
    for kw, i in ids + [(dict(g_idx_list=PList([])), k)]:
        for f, w in kw.items():
            got = [native(x) for x in S.it.iterate(S.get(F[i], f))]
            R.ob("a selection is taken as given", "%s %s %s" % (R.cur, F[i].cls.name, f), got == [native(x) for x in w.items], "targets %s for %s" % (got, [native(x) for x in w.items]))


def again(R, scheme):
    """building does not use up what was registered; a scene can be extended and built again"""
    S = R.use(Scene(3))
    log = []
    B, doms, gid, pos, pid = builder(S, 2, 2)
    for k in range(2):
        S.call(B, "add_constitutive_law", law=S.probe_law(k, log), law_state=S.law_state(k))
        S.call(B, "couple", p_idx=k, g_idx=k, c_idx=k)
        S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(k, log), sdf_state=S.sdf_state(k))
    S.call(B, "add_gravity", gravity=sym_arr("acc", (3,)))
    S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"))
    a = one(R, S, S.call(B, "build", time=pyfloat("t"), dt=pyfloat("dt")))
    b = one(R, S, S.call(B, "build", time=pyfloat("t"), dt=pyfloat("dt")))
    unchanged(R, "building twice gives the same scene", R.cur + " solver", b[0], a[0])
    unchanged(R, "building twice gives the same scene", R.cur + " state", b[1], a[1])
    kept = [len(S.it.iterate(S.get(a[1], *q))) for q in (("world", "material_points"), ("world", "sdfs"), ("mechanics", "constitutive_laws"), ("mechanics", "forces"))]
    g = native(S.call(B, "add_grid", grid_domain=S.domain(2)))
    p = native(S.call(B, "add_material_points", position_stack=sym_arr("p2.pos", (size("N2"), 3)), mass_stack=sym_arr("p2.m", (size("N2"),)), volume_stack=sym_arr("p2.v", (size("N2"),))))
    c = native(S.call(B, "add_constitutive_law", law=S.probe_law(2, log), law_state=S.law_state(2)))
    S.call(B, "add_gravity", gravity=sym_arr("acc", (3,)))
    S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(2, log), sdf_state=S.sdf_state(2))
    R.ob("identifiers continue after a build", R.cur, (g, p, c) == (2, 2, 2), "grid, body, law %s" % ((g, p, c),))
    now = [len(S.it.iterate(S.get(a[1], *q))) for q in (("world", "material_points"), ("world", "sdfs"), ("mechanics", "constitutive_laws"), ("mechanics", "forces"))]
    R.ob("a built state does not change when the scene is extended", R.cur, now == kept == [2, 2, 2, 1], "bodies, obstacles, laws, forces %s, then %s" % (kept, now))


def twin(R):
    """the same shape object placed twice makes two obstacles"""
    S = R.use(Scene(3))
    B, doms, gid, pos, pid = builder(S, 1, 1)
    sh = S.new("SphereSDF", radius=pyfloat("rad"))
    ids = []
    for k in range(3):
        ids.append(native(S.call(B, "add_sdf_object", sdf_logic=sh, center_of_mass=sym_arr("com%d" % k, (3,)), velocity=sym_arr("vel%d" % k, (3,)))))
        S.call(B, "add_sdf_collider", sdf_idx=ids[-1])
    R.ob("registering an object twice gives it two positions", R.cur, ids == [0, 1, 2], "obstacle identifiers %s" % ids)
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    solver, state = one(R, S, S.call(B, "build"))
    ss = S.it.iterate(S.get(state, "world", "sdfs"))
    lg = S.it.iterate(S.get(solver, "sdf_logics"))
    R.ob("one state per obstacle", R.cur, len(lg) == len(ss) == 3, "%d obstacles, %d states" % (len(lg), len(ss)))
    for k, i in enumerate(ids):
        R.eqa("an obstacle starts with the pose given", "%s %d" % (R.cur, k), ss[i].f["center_of_mass"], lambda j: X.sym("com%d" % k, j))


def obstacles(R):
    for dim in (2, 3):
        S = R.use(Scene(dim))
        subj = "%s %dD" % (R.cur, dim)
        B, doms, gid, pos, pid = builder(S, 1, 1)
        rec, ids = [], []
        shapes = [S.new("SphereSDF", radius=pyfloat("rad0")), S.new("BoxSDF", size=tuple(pyfloat("box%d" % j) for j in range(dim))), S.new("SphereSDF", radius=pyfloat("rad2"))]
        rot = lambda k: sym_arr("rot%d" % k, (4,)) if dim == 3 else fscalar("rot%d" % k)
        ang = lambda k: sym_arr("ang%d" % k, (3,)) if dim == 3 else fscalar("ang%d" % k)
        for k, sh in enumerate(shapes):
            kw = dict(center_of_mass=sym_arr("com%d" % k, (dim,)), velocity=sym_arr("vel%d" % k, (dim,)), angular_velocity=ang(k), rotation=rot(k))
            if k == 1:
                r = S.call(B, "add_sdf_object", sdf_logic=sh, return_state=True, **kw)
                ok = isinstance(r, tuple) and len(r) == 2
                R.ob("add_sdf_object returns the state as well when asked to", subj, ok, "returned %s" % (r,))
                ids.append(native(r[0]) if ok else r)
                rec.append(r[1] if ok else None)
            elif k == 2:
                stt = S.call(sh, "create_state", **kw)
                ids.append(native(S.call(B, "add_sdf_object", sdf_logic=sh, sdf_state=stt)))
                rec.append(stt)
            else:
                ids.append(native(S.call(B, "add_sdf_object", sdf_logic=sh, **kw)))
                rec.append(None)
        R.ob("obstacle identifiers are positions", subj, [native(i) for i in ids] == [0, 1, 2], "identifiers %s" % ids)
        S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
        solver, state = one(R, S, S.call(B, "build"))
        lg = S.it.iterate(S.get(solver, "sdf_logics"))
        ss = S.it.iterate(S.get(state, "world", "sdfs"))
        R.ob("one state per obstacle", subj, len(lg) == len(ss) == 3, "%d obstacles, %d states" % (len(lg), len(ss)))
        for k in range(3):
            s2 = "%s obstacle %d" % (subj, k)
            R.ob("an obstacle identifier is the obstacle's position", s2, lg[ids[k]] is shapes[k], "")
            st = ss[ids[k]]
            if rec[k] is not None:
                unchanged(R, "the state handed out is the obstacle's state", s2, st, rec[k])
            for f, tag in (("center_of_mass", "com"), ("velocity", "vel"), ("angular_velocity", "ang"), ("rotation", "rot")):
                R.eqa("an obstacle starts with the pose given", "%s %s" % (s2, f), st.f[f], lambda *i: X.sym("%s%d" % (tag, k), *i))


def boxed_obstacle(R):
    """an obstacle with known bounds that is added without a centre is centred in them"""
    for dim in (2, 3):
        S = R.use(Scene(dim))
        if S.cls("DomainSDF").lookup("get_world_aabb") is None:
            continue
        B, doms, gid, pos, pid = builder(S, 1, 1)
        tup = lambda n: tuple(pyfloat("%s%d" % (n, k)) for k in range(dim))
        i = native(S.call(B, "add_sdf_object", sdf_logic=S.new("DomainSDF", origin=tup("lo"), end=tup("hi"))))
        S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
        solver, state = one(R, S, S.call(B, "build"))
        c = lift(S.it.iterate(S.get(state, "world", "sdfs"))[i].f["center_of_mass"])
        for k in range(dim):
            R.eq("an obstacle without a centre is centred in its bounds", "%s %dD axis %d" % (R.cur, dim, k), c.at(X.C(k)), X.div(X.add(X.sym("lo%d" % k), X.sym("hi%d" % k)), X.C(2)))


def obstacle_subset(R, sub):
    """a solver that uses only some obstacles must move each with its own state and keep the others"""
    S = R.use(Scene(3))
    B, doms, gid, pos, pid = builder(S, 1, 1)
    log = []
    S.call(B, "add_constitutive_law", law=S.probe_law(0, log), law_state=S.law_state(0))
    S.call(B, "couple")
    for k in range(3):
        S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(k, log), sdf_state=S.sdf_state(k))
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"), sdf_idx_list=PList(list(sub)))
    solver, state = one(R, S, S.call(B, "build"))
    solver = obj_with(solver, couplings=(S.coupling(0, 0, 0, 0),))
    out = S.it.call(solver, [state], {})
    moved = {e[1]: e[2].f.get("_tag") for e in log if e[0] == "sdf_update"}
    bad = ["obstacle %d moved with the state %s" % (k, t) for k, t in sorted(moved.items()) if t != "s%d" % k]
    R.ob("selected obstacles use their own states", R.cur, not bad and set(moved) == set(sub), "; ".join(bad) or "moved %s" % sorted(moved), None, "obstacle_subset/own_state")
    tags = [s.f.get("_tag") for s in S.it.iterate(S.get(out, "world", "sdfs"))]
    R.ob("obstacles keep their places in the world", R.cur, tags == ["s%d" % k + ("'" if k in sub else "") for k in range(3)], "states after the step %s" % tags, None, "obstacle_subset/places")


def contact_subset(R):
    """contact between bodies 1 and 2 in a solver that does not solve body 0"""
    S = R.use(Scene(3))
    B, doms, gid, pos, pid = builder(S, 3, 3)
    log = []
    for k in range(3):
        S.call(B, "add_constitutive_law", law=S.probe_law(k, log), law_state=S.law_state(k))
        S.call(B, "couple", p_idx=k, g_idx=k, c_idx=k)
    S.call(B, "add_body_contact", couple_idx_actor=2, couple_idx_receiver=1)
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"), b_idx_list=PList([1, 2]))
    solver, state = one(R, S, S.call(B, "build"))
    F = S.it.iterate(S.get(solver, "forces"))[0]
    cs = S.it.iterate(S.get(solver, "couplings"))
    for f, p in (("couple_idx_actor", 2), ("couple_idx_receiver", 1)):
        k = native(S.get(F, f))
        got = native(S.get(cs[k], "p_idx")) if k < len(cs) else None
        R.ob("a contact names the couplings it was given", "%s %s" % (R.cur, f), got == p, "coupling %s of the solver is body %s, required body %d" % (k, got, p), None, "contact_in_body_subset")
