"""C18 degenerate but legal states stay finite

The value graph is built with every division, root and negative power kept as an explicit machine operation (sa/expr.py, IEEE mode) and then
evaluated, in IEEE arithmetic, at named degenerate states.  A NaN or infinity reaching a result is blamed on the operation that produced it."""
import math

from .common import *
from .common import run as step
from . import c10, c13, c24
from .g2p import G2P, VARIANTS, params, G2P_RANGES
from .laws import law_obj, law_scene
from .c11 import PAR, DENSE, LOOSE

RULE = "degenerate states give finite results"
N0 = size("N0")


def zero(*names):
    return {n: (lambda env, nm, i: 0.0) for n in names}


def value(x, *names):
    return {n: (lambda env, nm, i, x=x: x) for n in names}


def ident(*names):
    return {n: (lambda env, nm, i: 1.0 if int(i[-1]) == int(i[-2]) else 0.0) for n in names}


def both(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


def leaves(v, path=""):
    """(path, scalar expression or None) of every numeric leaf"""
    from sa.report import indices
    if isinstance(v, Obj):
        for k, x in v.f.items():
            yield from leaves(x, path + "." + k if path else k)
    elif isinstance(v, (tuple, list)):
        for k, x in enumerate(v):
            yield from leaves(x, "%s[%d]" % (path, k))
    elif isinstance(v, PList):
        yield from leaves(tuple(v.items), path)
    elif isinstance(v, PDict):
        for k, x in v.d.items():
            yield from leaves(x, "%s[%s]" % (path, k))
    elif isinstance(v, Top):
        yield path, None, None
    elif v is None or isinstance(v, (str, bool)):
        return
    else:
        try:
            a = lift(v)
        except Exception:
            return
        if isinstance(a, Top):
            yield path, None, None
        elif isinstance(a, Arr):
            for i in indices(a.shape):
                try:
                    yield path, a.at(*i), a.src
                except Unknown:
                    yield path, None, a.src


def finite(R, subject, val, events, ranges=None, seeds=2, rule=RULE):
    """events: name -> (special values, keyword arguments of the environment)"""
    ls = list(leaves(val))
    rg = dict(R.ranges)
    rg.update(ranges or {})
    for ev, spec in events.items():
        special, kw = spec if isinstance(spec, tuple) else (spec, {})
        bad, und, n = [], None, 0
        for s in range(1, (5 if R.tier == "thorough" else 1) * seeds + 1):
            env = X.IEnv(s, rg, None, special, **kw)
            for path, e, src in ls:
                if e is None or e.top:
                    und = path
                    continue
                try:
                    v = env.ev(e)
                except Unknown:
                    und = path
                    continue
                n += 1
                if isinstance(v, float) and not math.isfinite(v) and path not in [b[0] for b in bad]:
                    bad.append((path, v, e, src, env))
            if bad:
                break
        subj = "%s: %s" % (subject, ev)
        if bad:
            path, v, e, src, env = bad[0]
            b = X.blame(e, env)
            site = X.SITE.get(b) if b is not None else None
            R.ob(rule, subj, False, "%s becomes %s (%d results affected); singular operation %s" % (
                path or "the result", v, len(bad), X.show(b, 160) if b is not None else "not located"), site or src)
        else:
            R.ob(rule, subj, None if und is not None else True, "%d values finite" % n if und is None else "unknown value in %s" % und)


def run(R):
    X.IEEE = True
    for dim in (2, 3):
        for scheme in SCHEMES:
            for vn, kw in VARIANTS[scheme]:
                with R.group("%s %dD %s" % (scheme, dim, vn)):
                    gather(R, scheme, dim, kw)
            with R.group("%s %dD scatter" % (scheme, dim)):
                scatter(R, scheme, dim)
            with R.group("%s %dD collider" % (scheme, dim)):
                collider(R, scheme, dim)
            with R.group("%s %dD obstacle on particles" % (scheme, dim)):
                near_obstacle(R, scheme, dim)
            with R.group("%s %dD body contact" % (scheme, dim)):
                contact(R, scheme, dim)
            with R.group("%s %dD damping and gravity" % (scheme, dim)):
                body_forces(R, scheme, dim)
        for law in ("LinearElasticLaw", "NewtonFluid", "MuI_LC", "DruckerPrager", "ModifiedCamClay"):
            with R.group("%s %dD" % (law, dim)):
                laws(R, law, dim)
        shapes(R, dim)
        with R.group("obstacle motion %dD" % dim):
            motion(R, dim)
        with R.group("particle quantities %dD" % dim):
            derived(R, dim)
        with R.group("grid projection %dD" % dim):
            projection(R, dim)
    with R.group("helpers"):
        helpers(R)


# ---------------------------------------------------------------- solver
def gather(R, scheme, dim, kw):
    g = G2P(R, scheme, dim, kw, store_F=True)
    rest = zero("p0.velocity_stack", "p0.L_stack", "gp*", "gn*")
    empty = zero("gm*", "gp*", "gn*")
    thin = both(value(1e-30, "gm*"), value(1e-30, "gp*", "gn*"))
    off = zero("i00.N", "i00.dN")
    undef = zero("p0.F_stack", "p0.F_store_stack")
    ev = {
        "ordinary state": {},
        "nodes without mass": empty,
        "nodes with vanishing mass": thin,
        "particle outside the grid (all weights zero)": off,
        "particle outside the grid over empty nodes": both(off, empty),
        "everything at rest": rest,
        "undeformed body at rest": both(rest, undef, zero("p0.stress_stack")),
        "particle on a node": zero("i00.rel"),
        "first step of a resting unstressed body outside the grid": both(off, empty, rest, undef, zero("p0.stress_stack", "mem0*", "i00.rel")),
    }
    finite(R, R.cur, g.st.out, ev, ranges=G2P_RANGES)


def scatter(R, scheme, dim):
    S = R.use(Scene(dim))
    log = []
    st = make(S, scheme, [Body(0, 0, 0, 0)], log=log, store_F=True, forces=[S.probe_force(0, log)])
    step(S, st)
    nd = nodal(S, log, 0)
    rest = zero("p0.velocity_stack", "p0.L_stack", "p0.stress_stack", "p0.force_stack", "mem0*")
    off = zero("i00.N", "i00.dN")
    unit = {"p0.F_stack": ident("F")["F"], "p0.F_store_stack": ident("F")["F"]}
    ev = {"grid without particles nearby": (unit, {"hits": False}), "resting unstressed body": both(rest, unit), "particle outside the grid": both(off, unit),
          "resting body outside the grid": both(rest, off, unit), "resting body, no particles nearby": (both(rest, unit), {"hits": False}), "massless particle": both(zero("p0.mass_stack"), unit)}
    finite(R, R.cur, (st.out, nd), ev, ranges=RANGES)


# ---------------------------------------------------------------- obstacles and contact
def plain(S, k):
    """obstacle whose distance, normal, velocity and friction at any node are free values"""
    dim = S.dim

    def q(a, kw):
        pts = lift(a[2] if len(a) > 2 else next(v for v in kw.values() if isinstance(v, Arr)))
        return pts.shape[0]
    ms = {"get_signed_distance_stack": lambda it, a, kw: Arr((q(a, kw),), lambda i: X.sym("od%d" % k, i), "f"),
          "get_normal_stack": lambda it, a, kw: Arr((q(a, kw), dim), lambda i, j: X.sym("on%d" % k, i, j), "f"),
          "get_velocity_stack": lambda it, a, kw: Arr((q(a, kw), dim), lambda i, j: X.sym("ov%d" % k, i, j), "f"),
          "get_surface_friction_stack": lambda it, a, kw: Arr((q(a, kw),), lambda i: X.sym("of%d" % k, i), "f"),
          "update_kinematics": lambda it, a, kw: a[1] if len(a) > 1 else kw["sdf_state"]}
    return S.raw(S.subclass("SDFObjectBase", "Plain%d" % k, ms))


def obstacle_scene(R, scheme, dim, forces, nsdf, bodies, shared=False, act=None):
    S = R.use(Scene(dim))
    if shared:
        dom = S.domain
        S.domain = lambda g: dom(0)
    log = []
    fs = ([S.probe_force(0, log, act(S))] if act else []) + forces(S) + [S.probe_force(1, log)]
    kw = params(scheme, VARIANTS[scheme][0][1])
    st = make(S, scheme, bodies, forces=fs, log=log, params=kw)
    st.sdfs = tuple(plain(S, k) for k in range(nsdf))
    st.sdf_states = tuple(S.sym_obj("SDFObjectState", "sdf%d" % k) for k in range(nsdf))
    st.solver = obj_with(st.solver, sdf_logics=st.sdfs)
    st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=st.force_states, sdfs=st.sdf_states)
    step(S, st)
    return S, st, nodal(S, log, 1)


def nodal(S, log, k):
    """nodal values seen by a force listed after all others, per phase"""
    return tuple((h, grids_of(S, b["sim_cache"])) for _, kk, h, b, _ in [e for e in log if e[0] == "hook"] if kk == k and h in ("apply_grid_forces", "apply_grid_moments"))


def moments(S):
    def act(h, b):
        if h == "apply_grid_moments":
            gs = []
            for k, g in enumerate(grids_of(S, b["sim_cache"])):
                m, v = g.f["mass_stack"].shape, g.f["moment_stack"].shape
                gs.append(obj_with(g, mass_stack=sym_arr("gm%d" % k, m), moment_stack=sym_arr("gp%d" % k, v), moment_nt_stack=sym_arr("gn%d" % k, v), force_stack=sym_arr("gf%d" % k, v)))
            return (b["world"], b["mechanics"], with_grids(b["sim_cache"], gs))
    return act


OR = dict(G2P_RANGES, **{"gm*": (0.5, 2.0), "od*": (-0.9, -0.05), "of*": (0.1, 1.0), "fric*": (0.1, 1.0), "#node": (0, 40), "#num*": (500, 900)})
GRID = both(zero("gm*", "gp*", "gn*", "gf*"))


def unitF(n=3):
    return {"p%d.F_stack" % k: ident("F")["F"] for k in range(n)}


def collider(R, scheme, dim):
    S, st, nd = obstacle_scene(R, scheme, dim, lambda S: [S.new("SDFCollider", sdf_idx=0, g_idx_list=PList([0]), friction=pyfloat("fric0"), gap=pyfloat("gap"))], 1, [Body(0, 0, 0, 0)], act=moments)
    deep, far = {}, value(5.0, "od*")
    moving = {"gn*": lambda env, n, i: 0.7 * env.symbol("gm" + n[2:], i[:1]), "ov*": lambda env, n, i: 0.7}
    ev = {"contact with moving material": deep, "empty node inside the obstacle": GRID, "vanishing mass inside the obstacle": both(value(1e-30, "gm*"), value(1e-31, "gp*", "gn*")),
          "node moving with the wall": moving, "resting node at a resting wall": zero("gn*", "gp*", "gf*", "ov*"), "zero normal": zero("on*"),
          "zero normal at a resting wall": zero("on*", "gn*", "gp*", "ov*"), "frictionless": zero("of*", "fric*"), "node exactly on the surface": zero("od*"),
          "empty node outside": both(far, GRID), "empty node with zero normal": both(GRID, zero("on*", "ov*", "od*"))}
    ev = {k: both(unitF(), v) for k, v in ev.items()}
    finite(R, R.cur, (st.out, nd), ev, ranges=OR)


def near_obstacle(R, scheme, dim):
    """particles close to obstacles (position correction) without a collider"""
    S, st, nd = obstacle_scene(R, scheme, dim, lambda S: [], 2, [Body(0, 0, 0, 0)], act=moments)
    ev = {"particles inside an obstacle": {}, "zero normals": zero("on*"), "resting particle and wall": zero("ov*", "gp*", "gn*", "p0.velocity_stack"),
          "empty nodes": GRID, "equal distances": value(-0.2, "od*"), "outside the grid": both(GRID, zero("i00.N", "i00.dN", "on*"))}
    finite(R, R.cur, (st.out, nd), {k: both(unitF(), v) for k, v in ev.items()}, ranges=OR)


def contact(R, scheme, dim):
    mk = lambda S: [S.new("GridContact", couple_idx_actor=1, couple_idx_receiver=0, is_reaction=True, friction=pyfloat("fric0"))]
    S, st, nd = obstacle_scene(R, scheme, dim, mk, 0, [Body(0, 0, 0, 0), Body(1, 1, 1, 1)], shared=True, act=moments)
    near = dict(OR, **{"p0.volume0_stack": (2000.0, 4000.0), "p1.volume0_stack": (2000.0, 4000.0)})
    pos = lambda env, n, i: 0.25 * int(i[-1])
    ev = {"bodies in contact": {}, "both grids empty": GRID, "receiver empty": zero("gm0", "gp0", "gn0"), "actor empty": zero("gm1", "gp1", "gn1"),
          "no relative motion": {"gn*": lambda env, n, i: 0.7 * env.symbol("gm" + n[2:], i[:1])}, "everything at rest": zero("gn*", "gp*", "gf*", "p0.velocity_stack", "p1.velocity_stack")}
    finite(R, R.cur, (st.out, nd), {k: both(unitF(), v) for k, v in ev.items()}, ranges=near, seeds=8)


def body_forces(R, scheme, dim):
    for on in (True, False):
        S = R.use(Scene(dim))
        log = []
        fs = [S.probe_force(0, log, c24.marks(S, dim, 1)), c24.make_force(S, ("d", on, [0], [0], 1)), c24.make_force(S, ("g", on, [0], [0], 2)), S.probe_force(3, log)]
        st = make(S, scheme, [Body(0, 0, 0, 0)], log=log, forces=fs)
        st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=[st.force_states[0], c24.force_state(S, "d", 1), c24.force_state(S, "g", 2)])
        step(S, st)
        ev = {"ordinary": {}, "empty nodes": zero("gm*", "gv*", "gf*"), "empty nodes with a residual force": zero("gm*", "gv*"), "at rest": zero("gv*", "p0.velocity_stack"),
              "no force": zero("gf*", "pf*", "p0.force_stack"), "massless particle": zero("p0.mass_stack")}
        finite(R, "%s on_grid=%s" % (R.cur, on), (st.out, nodal(S, log, 3)), {k: both(unitF(), v) for k, v in ev.items()}, ranges=c24.FR)


# ---------------------------------------------------------------- laws
def laws(R, name, dim):
    over = {}
    S, law, mp, ls, res = law_scene(R, name, dim)
    F = both(ident("p0.F_stack"), ident("p0.F_store_stack"))
    hydro = {"p0.stress_stack": lambda env, n, i: 2.0 if int(i[-1]) == int(i[-2]) else 0.0}
    hyten = {"p0.stress_stack": lambda env, n, i: -2.0 if int(i[-1]) == int(i[-2]) else 0.0}
    squeeze = both(hydro, {"p0.L_stack": lambda env, n, i: 0.5 if int(i[-1]) == int(i[-2]) else 0.0})
    swell = both(hydro, {"p0.L_stack": lambda env, n, i: -0.5 if int(i[-1]) == int(i[-2]) else 0.0})
    still, free = zero("p0.L_stack"), zero("p0.stress_stack", "ls.eps_e_stack", "ls.p_0_stack", "ls.eps_p_acc_stack")
    ev = {"ordinary": {}, "no motion": still, "stress free": free, "stress free without motion": both(still, free), "isotropic stress without motion": both(still, hydro),
          "isotropic stress": hydro, "isotropic compression": squeeze, "isotropic expansion": swell, "unstressed expansion": both(swell, free), "isotropic tension": hyten, "isotropic tension without motion": both(still, hyten), "frictionless material": both(value(0.0, "law.mu_1", "law.mu_2"), still, hydro),
          "frictionless, unstressed": both(value(0.0, "law.mu_1", "law.mu_2"), still, free), "cohesionless": both(value(0.0, "law.c0", "law.H"), free), "undeformed, unstressed, at rest": both(still, free, F, zero("p0.velocity_stack"))}
    reg = {"": {}, " dense": DENSE, " loose": LOOSE}
    for rn, rr in reg.items():
        finite(R, R.cur + rn, res, ev, ranges=dict(PAR, **rr))
    # a state made by the law itself from unstressed particles, then one update without motion
    with R.group("%s %dD created state" % (name, dim)):
        S = R.use(Scene(dim))
        law = law_obj(S, name)
        m = S.body(0)
        rest = both(zero("p0.stress_stack", "p0.velocity_stack", "p0.L_stack"), F)
        rg = dict(PAR, **{"p0.volume0_stack": (0.5, 0.9)})
        made = {"create_state": S.call(law, "create_state", m.f["stress_stack"] if name == "DruckerPrager" else m)}
        rho, p = sym_arr("in.rho", (N0,)), Arr((N0,), lambda q: X.mul(X.sym("p0.stress_stack", q, X.ZERO, X.ZERO), X.sym("in.one")), "f")
        rg.update({"in.rho": (0.9, 1.1), "in.one": (1, 1)})
        if name in ("NewtonFluid", "MuI_LC"):
            made["create_state_from_density"] = S.call(law, "create_state_from_density", rho, p)
        for how, r in made.items():
            finite(R, "%s %s" % (R.cur, how), r, {"unstressed particles": rest}, ranges=rg)
            if isinstance(r, Obj):
                out = S.call(law, "update", m, r, pyfloat("dt"))
                finite(R, "%s %s then update" % (R.cur, how), out, {"unstressed, no motion": rest, "unstressed, moving": {k: v for k, v in rest.items() if k != "p0.L_stack"}}, ranges=rg)
    with R.group("%s %dD time step estimate" % (name, dim)):
        S = R.use(Scene(dim))
        law, m = law_obj(S, name), S.body(0)
        if law.cls.lookup("get_dt_crit") is not None:
            d = S.call(law, "get_dt_crit", m, pyfloat("h"), pyfloat("safety"))
            finite(R, R.cur, d, {"at rest": zero("p0.velocity_stack"), "moving": {}}, ranges=dict(PAR, h=(0.2, 1.0), safety=(0.1, 0.9)))


# ---------------------------------------------------------------- obstacles' own geometry
def shapes(R, dim):
    """distance, friction and outward normal at the special points of every shape"""
    S0 = R.use(Scene(dim))
    for name, kw, sw in c13.shape_cases(S0, dim):
        if not S0.has(name):
            continue
        combos = [{}] + [{k: v} for k, vs in sw.items() for v in vs]
        for c in combos:
            with R.group("%s %dD%s" % (name, dim, " %s" % c if c else "")):
                shape(R, name, dim, kw, c)
    with R.group("CompositeSDF %dD" % dim):
        S = R.use(Scene(dim))
        a, b = S.new("SphereSDF", radius=pyfloat("radius")), S.new("BoxSDF", size=sym_arr("size", (dim,)))
        o = S.new("CompositeSDF", PList([a, b]), sym_arr("frictions", (2,)))
        query(R, S, o, dim)
    with R.group("MaterialPointCloudSDF %dD" % dim):
        cloud(R, dim)


PTS = {"at the centre": lambda g, k: 0.0,
       "on the first axis": lambda g, k: 0.4 if k == 0 else 0.0, "on the vertical axis": lambda g, k: 0.4 if k == 1 else 0.0,
       "on the last axis": lambda g, k: -0.4 if k > 1 else 0.0,
       "on the tube centre line": lambda g, k: g("major_r") if k == 0 else 0.0,
       "on the outer rim": lambda g, k: (g("outer_radius") if k == 0 else 0.0),
       "on the inner rim": lambda g, k: (g("inner_radius") if k == 0 else 0.0),
       "on the mid wall": lambda g, k: (0.5 * (g("inner_radius") + g("outer_radius")) if k == 0 else 0.0),
       "on the round surface": lambda g, k: (g("radius") if k == 0 else 0.0),
       "at the cap centre": lambda g, k: (0.5 * g("height") if k == 1 else 0.0),
       "on the cap edge": lambda g, k: (0.5 * g("height") if k == 1 else g("radius") if k == 0 else 0.0),
       "at a corner": lambda g, k: 0.5 * g("size", k),
       "on a face": lambda g, k: 0.5 * g("size", k) if k == 0 else 0.0,
       "at the tip": lambda g, k: (g("outer_radius") if k == 1 else 0.0),
       "at the valley": lambda g, k: g("inner_radius") * (math.sin(math.pi / 5) if k == 0 else math.cos(math.pi / 5) if k == 1 else 0),
       "on the lower wall": lambda g, k: g("origin", k), "on the upper wall": lambda g, k: g("end", k),
       "ordinary point": lambda g, k: (0.37, -0.81, 0.53)[k]}


NICE = {"radius": (0.5, 0.5), "outer_radius": (1.0, 1.0), "inner_radius": (0.5, 0.5), "major_r": (0.5, 0.5), "minor_r": (0.125, 0.125), "height": (1.0, 1.0),
        "size": (1.0, 1.0), "origin": (-2.0, -2.0), "end": (2.0, 2.0), "wall_offset": (0.0, 0.0)}


def query(R, S, o, dim):
    st = c10.pose(S, dim)
    x = sym_arr("x", (dim,))
    ev = {}
    for nm, f in PTS.items():
        def at(env, n, i, f=f):
            def g(name, *k):
                return float(env.symbol(name, tuple(k)))
            return f(g, int(i[0]))
        ev[nm] = both({"x": at}, zero("c", "th", "v", "w", "frictions"), {"u": lambda env, n, i: 1.0 if int(i[0]) == 0 else 0.0})
    for what in ("signed_distance", "get_surface_friction", "get_normal"):
        if what == "get_normal" and o.cls.name == "GridSDF":
            continue            # derivative of the tabulated interpolation is not modelled
        r = S.call(o, what, st, x)
        for rn, rg in (("", c13.SHR), (" (round sizes)", NICE)):
            finite(R, "%s %s%s" % (R.cur, what, rn), r, ev, ranges=dict(c13.SHR, **rg), seeds=1)


def shape(R, name, dim, kw, c):
    S = R.use(Scene(dim))
    cases = {n: (k, s) for n, k, s in c13.shape_cases(S, dim)}
    kw = cases[name][0]
    if kw is None:
        o = S.raw(name, sdf_data=sym_arr("img", (4, 5, 6)), grid_min=sym_arr("gmin", (3,)), grid_size=sym_arr("gsz", (3,)), thickness=pyfloat("thickness"), scale=pyfloat("scale"))
    else:
        o = S.new(name, **dict(kw, **c))
    query(R, S, o, dim)


def cloud(R, dim):
    S = R.use(Scene(dim))
    o = S.new("MaterialPointCloudSDF")
    n = 2
    mp = S.sym_obj("MaterialPointState", "p0", {"num_points": n})
    x = sym_arr("x", (1, dim))
    on = {"x": lambda env, n, i: env.symbol("p0.position_stack", (0, i[-1]))}
    for what in ("get_signed_distance_stack", "get_normal_stack"):
        r = S.call(o, what, x, mp)
        finite(R, "%s %s" % (R.cur, what), r, {"point at a particle": on, "ordinary point": {}, "half way between particles": {"x": lambda env, n, i: 0.5 * (env.symbol("p0.position_stack", (0, i[-1])) + env.symbol("p0.position_stack", (1, i[-1])))}},
               ranges={"p0.volume0_stack": (0.01, 0.1)})


def motion(R, dim):
    S = R.use(Scene(dim))
    o, st = c10.probe(S, dim), c10.pose(S, dim)
    ns = S.call(o, "update_kinematics", st, fscalar("dt"))
    u = {"u": lambda env, n, i: 1.0 if int(i[0]) == 0 else 0.0}
    finite(R, R.cur, ns, {"without rotation": both(zero("w"), u), "without any motion": both(zero("w", "v", "c"), u), "zero step size": both(zero("dt"), u), "rotating": u}, ranges=c10.PR)
    x = sym_arr("x", (dim,))
    v = S.call(o, "get_velocity", st, x, fscalar("dt"))
    finite(R, R.cur + " surface velocity", v, {"at the centre": both({"x": lambda env, n, i: env.symbol("c", i)}, u), "no motion": both(zero("w", "v"), u)}, ranges=c10.PR)
    nrm = S.call(o, "get_normal", st, x)
    finite(R, R.cur + " normal", nrm, {"where the distance is flat": both(zero("a", "B", "k"), u)}, ranges=c10.PR)


# ---------------------------------------------------------------- particles, projection, kernels, helpers
def derived(R, dim):
    S = R.use(Scene(dim))
    mp = S.body(0, store_F=True)
    rest = zero("p0.velocity_stack", "p0.L_stack", "p0.stress_stack", "p0.force_stack")
    F = both(ident("p0.F_stack"), ident("p0.F_store_stack"))
    ev = {"at rest, unstressed, undeformed": both(rest, F), "isotropic stress": both(F, {"p0.stress_stack": lambda env, n, i: 2.0 if int(i[-1]) == int(i[-2]) else 0.0})}
    for c in mp.cls.mro():
        for k, v in sorted(c.ns.items()):
            if type(v).__name__ == "Prop" and not k.startswith("_"):
                with R.group("%s %s" % (R.cur, k), definite=False):
                    try:
                        r = S.get(mp, k)
                    except PyErr as e:
                        if e.kind == "NotImplementedError":
                            continue
                        raise
                    finite(R, R.cur, r, ev, ranges=RANGES)


def projection(R, dim):
    S = R.use(Scene(dim))
    m = S.coupling(0, 0).f["shape_map"]
    if m.cls.lookup("scatter_to_grid") is None:
        return
    n, w = size("N0"), size("W0")
    cache = S.interaction("i00", n, w)
    for tail, nm in (((), "scalar"), ((3,), "vector"), ((3, 3), "tensor")):
        r = S.call(m, "scatter_to_grid", cache, sym_arr("data", (n,) + tail), sym_arr("mass", (n,)), scalar(size("G"), "i", "int"))
        finite(R, "%s %s" % (R.cur, nm), r, {"no particles nearby": ({}, {"hits": False}), "weights zero": zero("i00.N"), "massless particles": zero("mass"), "ordinary": {}}, ranges={"mass": (0.5, 2), "i00.N": (0.1, 1)})


def helpers(R):
    S = R.use(Scene(3))
    A = lambda: sym_arr("A", (3, 3))
    B = lambda: sym_arr("B", (3, 3))
    v = lambda n="v", d=3: sym_arr(n, (d,))
    s = lambda n: fscalar(n)
    Z, I, d2 = zero("A", "B", "v", "s"), ident("A"), {"A": lambda env, n, i: 2.0 if int(i[-1]) == int(i[-2]) else 0.0}
    ten = {"zero tensor": Z, "isotropic tensor": d2, "identity": I}
    cases = [("get_pressure", [A()], ten), ("get_dev_stress", [A()], ten), ("get_J2", [A()], ten), ("get_q_vm", [A()], ten), ("get_scalar_shear_stress", [A(), None, None], ten),
             ("get_volumetric_strain", [A()], ten), ("get_dev_strain", [A()], ten), ("get_shear_strain_vm", [A()], ten), ("get_scalar_shear_strain", [A()], ten),
             ("get_hencky_strain", [A()], {"undeformed": I, "isotropic stretch": d2, "collapsed": Z}), ("get_small_strain", [A()], {"undeformed": I}), ("get_KE", [s("m"), v()], {"at rest": Z}),
             ("get_inertial_number", [s("p"), s("g"), pyfloat("dia"), pyfloat("rhop")], {"no pressure": zero("p"), "no pressure, no shear": zero("p", "g"), "no shear": zero("g"), "tension": value(-1.0, "p")}),
             ("inv_3x3_robust", [A()], {"singular matrix": Z, "identity": I}), ("inv_2x2_robust", [sym_arr("A", (2, 2))], {"singular matrix": Z, "identity": I}),
             ("safe_inv_scalar_clamped", [s("s")], {"zero": Z, "tiny": value(1e-30, "s")}), ("safe_norm", [v()], {"zero vector": Z}), ("get_spin_tensor", [A()], {"zero": Z}),
             ("integrate_quaternion", [v("q", 4), v("w"), pyfloat("dt")], {"no rotation": both(zero("w"), {"q": lambda env, n, i: 1.0 if int(i[0]) == 0 else 0.0})}),
             ("quaternion_rotate", [v("q", 4), v()], {"zero vector": both(Z, {"q": lambda env, n, i: 1.0 if int(i[0]) == 0 else 0.0})})]
    rg = {"dia": (0.01, 0.1), "rhop": (1, 3), "p": (1, 2), "g": (0.1, 1), "m": (0.5, 1)}
    for name, args, ev in cases:
        if not S.has(name):
            continue
        with R.group("helper %s" % name, definite=False):
            finite(R, R.cur, S.it.call(S.cls(name), args, {}), ev, ranges=rg)
    # helpers advertised as safe to differentiate
    for name, arg in (("safe_norm", sym_arr("v", (3,))), ("safe_inv_scalar_clamped", fscalar("s"))):
        if not S.has(name):
            continue
        with R.group("derivative of %s" % name, definite=False):
            from sa.values import Ext
            g = S.it.call(Ext("jax.grad"), [S.cls(name)], {})
            finite(R, R.cur, S.it.call(g, [arg], {}), {"zero": Z})
