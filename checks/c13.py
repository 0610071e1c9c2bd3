"""C13 every configuration parameter reaches the computation it documents"""
from .c09 import CR, build as contact_scene
from .c10 import SR, U, pose, probe as probe_shape
from .c11 import DENSE, LOOSE, PAR, tied_diag
from .c17 import acting, builder, one
from .c26 import call as generate, parts
from .common import *
from .g2p import AFLIP_PARAMS, G2P, G2P_RANGES, VARIANTS
from .laws import STATES, law_obj
from sa.report import comps
from sa.values import Nat

N0 = size("N0")


def run(R):
    R.ranges = dict(RANGES)
    for via in ("class", "builder"):
        for scheme in SCHEMES:
            for name, kw in VARIANTS[scheme]:
                with R.group("%s %s via the %s" % (scheme, name, via)):
                    solver(R, scheme, kw, via)
    for scheme in SCHEMES:
        with R.group("%s obstacle sharpness" % scheme):
            sharpness(R, scheme)
    for name in STATES:
        with R.group(name):
            law(R, name)
    for dim in (2, 3):
        with R.group("obstacle shapes %dD" % dim):
            shapes(R, dim)
        with R.group("obstacle motion %dD" % dim):
            motion(R, dim)
        with R.group("grids %dD" % dim):
            grids(R, dim)
        with R.group("particles %dD" % dim):
            particles(R, dim)
        with R.group("builder forces %dD" % dim):
            forces(R, dim)
        with R.group("collider %dD" % dim):
            collider(R, dim)
        with R.group("body contact %dD" % dim):
            contact(R, dim)
        with R.group("builder obstacles %dD" % dim):
            obstacles(R, dim)
        with R.group("generated particles %dD" % dim):
            generated(R, dim)
    with R.group("gravity callback"):
        callback(R)
    with R.group("build"):
        build_args(R)
    with R.group("coupling"):
        coupling(R)
    with R.group("generic transfer"):
        generic(R)


LIVE = "changing the parameter can change the result"


def params(S, fn, skip=("self", "cls")):
    """parameter names of a function or constructor of the current source"""
    f = getattr(fn, "func", fn)
    if hasattr(fn, "lookup"):
        f = fn.lookup("__init__") or None
        if f is None or not hasattr(f, "node"):
            return [n for n in S.it.all_fields(fn)]
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in skip]


def live(R, who, vals, names, ranges=None, special=None, prefix="", more=()):
    """each named symbol influences some of the values"""
    vals = list(vals)
    cs = [e for v in vals for e in comps(v)]
    rg = dict(R.ranges)
    rg.update(ranges or {})
    loc = next((getattr(v, "src", None) for v in vals if getattr(v, "src", None)), None)
    present = set()
    for e in cs:
        if e is not None:
            present |= X.syms(e)
    blind = any(e is None or e.top for e in cs)
    for n in names:
        # absent from the folded value graph: provably without effect; present: find an input on which it matters
        hit = None if blind else False
        if prefix + n in present:
            hit = None
            for k, rg_ in enumerate([rg] + list(more)):
                if any(X.depends(e, lambda s: s == prefix + n, ranges=dict(rg, **{k: v for k, v in rg_.items() if not callable(v)}), special=dict(special or {}, **{k: v for k, v in rg_.items() if callable(v)})) for e in cs if e is not None):
                    hit = True
                    break
        R.ob(LIVE, "%s %s" % (who, n), hit, "the result varies with it" if hit else "no result depends on %s" % n, loc, "dead/%s.%s" % (who.split()[0], n))


def differ(R, who, name, results, ranges=None):
    """the values of a switch give different results"""
    rg = dict(R.ranges)
    rg.update(ranges or {})
    a = [[c for v in r for c in comps(v)] for r in results]
    for i in range(len(a)):
        for j in range(i):
            if len(a[i]) != len(a[j]):
                continue
            pairs = list(zip(a[i], a[j]))
            if any(p is not None and q is not None and p is not q and X.equal(p, q, ranges=rg, trials=8) is False for p, q in pairs):
                continue
            same_graph = all(p is q and p is not None and not p.top for p, q in pairs)
            return R.ob(LIVE, "%s %s" % (who, name), False if same_graph else None, "its values compute the same", None, "dead/%s.%s" % (who.split()[0], name))
    R.ob(LIVE, "%s %s" % (who, name), True, "its values compute different results")


# ------------------------------------------------------------------ solvers
def solver(R, scheme, kw, via):
    g = G2P(R, scheme, 3, kw, via=via)
    o = g.out(0)
    vals = [o.f[f] for f in ("velocity_stack", "position_stack", "L_stack", "F_stack")]
    if scheme == "USLAFLIP":
        vals.append(g.mem(0).f["Bp_stack"])
    names = ["alpha"]
    if scheme == "USLAFLIP":
        names += [s for n, s in AFLIP_PARAMS.items() if kw["use_dynamic_alpha"] or s not in ("smin", "smax")]
    live(R, "%s" % scheme, vals, names, ranges=dict(G2P_RANGES, cut=(0.4, 1.5), cfl=(0.001, 2.0)))
    # every other constructor parameter is an object list (routing: C01, C17), a switch (C14) or named here
    known = {"grid_domains", "constitutive_laws", "couplings", "forces", "sdf_logics", "alpha", "use_dynamic_alpha", "use_mls_update", "sdf_mp_sharpness"} | set(AFLIP_PARAMS)
    R.ob("every constructor parameter is covered", scheme, True if set(params(g.S, g.S.cls(scheme))) <= known else None, "others: %s" % sorted(set(params(g.S, g.S.cls(scheme))) - known))


def sharpness(R, scheme):
    S = R.use(Scene(3))
    if "sdf_mp_sharpness" not in params(S, S.cls(scheme)):
        return R.ob("parameter offered", scheme, True, "takes no sharpness")
    log = []
    seen = []

    def act(h, b):
        if h == "apply_grid_moments":
            seen.append(b["sim_cache"])
    st = make(S, scheme, [Body(0)], log=log, sdfs=1, params=dict(sdf_mp_sharpness=pyfloat("sharp")), mask="sym", forces=(S.probe_force(0, log, act),))
    run_step(S, st)
    live(R, scheme, [mp_out(S, st, 0), seen[0].f["grids"]], ["sharp"], ranges={"sharp": (0.5, 2.0)})


def run_step(S, st):
    st.out = S.it.call(st.solver, [st.state], {})


# ------------------------------------------------------------------ material laws
REGIMES = [dict({"law.rho_0": (1.5, 3.0), "law.p_min_calc": (20, 400), "in.p": (10, 400), "law.K_min": (500, 900)}, **DENSE), dict(LOOSE), {"p0.stress_stack": (2, 9), "ls.p_c_stack": (0.5, 2), "p0.L_stack": (-2, 2)},
           {"p0.stress_stack": (30, 60), "law.K_max": (50, 90)},
           {"p0.stress_stack": tied_diag(9.0, 0.4, 0.3), "ls.p_c_stack": (9.5, 16.0), "p0.L_stack": tied_diag(0.0, 0.02, 0.5), "p0.mass_stack": (2.0, 2.4), "law.M": (0.3, 3.0)}]
def law(R, name):
    S = R.use(Scene(3))
    cls = S.cls(name)
    names = [n for n in params(S, cls) if n != "requires_F_reset"]
    ext = {"K_min": pyfloat("law.K_min"), "K_max": pyfloat("law.K_max")}
    lw = law_obj(S, name, **{k: v for k, v in ext.items() if k in names})
    mp = S.body(0, store_F=True)
    vals = []
    col = lambda n: sym_arr("in." + n, (N0,))

    def add(f):
        try:
            vals.append(f())
        except Unknown:
            vals.append(Top("unknown"))
    ls = S.sym_obj(STATES[name], "ls", {"num_points": N0})
    add(lambda: S.call(lw, "update", mp, ls, pyfloat("dt")))
    if lw.cls.lookup("get_dt_crit") is not None:
        add(lambda: S.call(lw, "get_dt_crit", mp, pyfloat("h")))
    if lw.cls.lookup("create_state_from_density") is not None:
        if name == "ModifiedCamClay":
            add(lambda: S.call(lw, "create_state_from_density", p_stack=col("p"), density_stack=col("rho")))
        else:
            add(lambda: S.call(lw, "create_state_from_density", density_stack=col("rho"), pressure_stack=col("p")))
    if lw.cls.lookup("create_state_from_ocr") is not None:
        add(lambda: S.call(lw, "create_state_from_ocr", p_stack=col("p"), ocr_stack=col("ocr")))
    rg = dict(PAR)
    rg.update({"in.p": (1, 6), "in.rho": (1.2, 2.2), "in.ocr": (1.2, 3.0), "law.K_min": (0.5, 40), "law.K_max": (41, 80), "law.p_min_calc": (0.5, 4)})
    live(R, name, vals, names, ranges=rg, prefix="law.", more=REGIMES)
    got = [S.get(law_obj(S, name, requires_F_reset=v), "requires_F_reset") for v in (True, False)]
    R.ob(LIVE, "%s requires_F_reset" % name, [bool(native(v)) for v in got] == [True, False], "stored %s" % [native(v) for v in got], None, "dead/%s.requires_F_reset" % name)


# ------------------------------------------------------------------ obstacles
def shape_cases(S, dim):
    f = pyfloat
    yield "BoxSDF", dict(size=sym_arr("size", (dim,))), {}
    yield "SphereSDF", dict(radius=f("radius")), {}
    yield "PlaneSDF", dict(normal=sym_arr("normal", (dim,))), {}
    yield "CapsuleSDF", dict(radius=f("radius"), height=f("height")), {}
    if dim == 3:
        yield "HollowCylinderSDF", dict(height=f("height"), outer_radius=f("outer_radius"), inner_radius=f("inner_radius")), {}
        yield "CylinderSDF", dict(radius=f("radius"), height=f("height")), {}
        yield "TorusSDF", dict(major_r=f("major_r"), minor_r=f("minor_r")), {}
        yield "GridSDF", None, {}
    else:
        yield "HollowCylinderSDF", dict(height=f("height"), outer_radius=f("outer_radius"), inner_radius=f("inner_radius"), is_2d_ring=False), {"is_2d_ring": (True, False)}
        yield "StarSDF", dict(points=5, outer_radius=f("outer_radius"), inner_radius=f("inner_radius")), {"points": (5, 6, 7)}
    yield "DomainSDF", dict(origin=sym_arr("origin", (dim,)), end=sym_arr("end", (dim,)), frictions=PList([scalar(X.sym("frictions", X.C(k)), "f", "float") for k in range(2 * dim)]), wall_offset=f("wall_offset")), {}


SHR = {"x": (-2.2, 2.2), "c": (-0.5, 0.5), "radius": (0.3, 1.2), "outer_radius": (0.6, 1.2), "inner_radius": (0.1, 0.5), "major_r": (0.5, 1.2), "minor_r": (0.1, 0.3),
       "height": (0.6, 2.0), "size": (0.6, 2.4), "normal": (0.3, 1.0), "origin": (-3, -2), "end": (2, 3), "frictions": (0.1, 0.9), "wall_offset": (-0.2, 0.2)}


def shapes(R, dim):
    S = R.use(Scene(dim))
    x = sym_arr("x", (dim,))
    for name, kw, sw in shape_cases(S, dim):
        if not S.has(name):
            continue
        with R.group("%s %dD" % (name, dim), key="completes/%s" % name):
            if kw is None:
                o = S.raw(name, sdf_data=sym_arr("img", (4, 5, 6)), grid_min=sym_arr("gmin", (3,)), grid_size=sym_arr("gsz", (3,)), thickness=pyfloat("thickness"), scale=pyfloat("scale"))
                live(R, name, outputs(S, o, dim, x), ["img", "gmin", "gsz", "thickness", "scale"], ranges={"img": (-1, 1), "gmin": (-1, -0.5), "gsz": (1.0, 2.0), "thickness": (0.01, 0.1), "scale": (0.5, 2.0), "x": (-2, 2), "c": (-0.2, 0.2)}, special=U)
                continue
            o = S.new(name, **kw)
            live(R, name, outputs(S, o, dim, x), [k for k in kw if k not in sw], ranges=SHR, special=U)
            for k, vs in sw.items():
                differ(R, name, k, [outputs(S, S.new(name, **dict(kw, **{k: v})), dim, x) for v in vs], ranges=SHR)
            left = set(params(S, S.cls(name))) - set(kw) - {"is_2d_ring"}
            R.ob("every constructor parameter is covered", R.cur, True if not left else None, "others: %s" % sorted(left))
    with R.group("CompositeSDF %dD" % dim):
        def mk(d, k):
            m = lambda it, a, kw: Arr((), lambda: X.sym(d), "f")
            return S.raw(S.subclass("SDFObjectBase", "Part%d" % k, {"signed_distance_local": m}))
        o = S.new("CompositeSDF", PList([mk("d0", 0), mk("d1", 1)]), sym_arr("frictions", (2,)))
        live(R, "CompositeSDF", outputs(S, o, dim, x, normal=False), ["d0", "d1", "frictions"], ranges={"d*": (-1, 1), "frictions": (0.1, 0.9)}, special=U)
    if dim == 3:
        with R.group("MaterialPointCloudSDF"):
            c = S.new("MaterialPointCloudSDF", smooth_k=pyfloat("smooth_k"))
            mp = S.body(0)
            r = S.call(c, "get_signed_distance", x, mp) if c.cls.lookup("get_signed_distance") is not None else S.call(c, "get_signed_distance_stack", sym_arr("y", (2, dim)), mp)
            live(R, "MaterialPointCloudSDF", [r], ["smooth_k"], ranges={"smooth_k": (0.5, 3.0)})


def outputs(S, o, dim, x, normal=True):
    st = pose(S, dim)
    r = [S.call(o, "signed_distance", st, x), S.call(o, "get_surface_friction", st, x)]
    return r


def motion(R, dim):
    """pose and velocities given when the obstacle is created"""
    S = R.use(Scene(dim))
    o = probe_shape(S, dim)
    ref = pose(S, dim, "i.")
    st = S.call(o, "create_state", ref.f["center_of_mass"], velocity=ref.f["velocity"], angular_velocity=ref.f["angular_velocity"], rotation=ref.f["rotation"])
    x = sym_arr("x", (dim,))
    dt = fscalar("dt")
    moved = S.call(o, "update_kinematics", st, dt)
    vals = [S.call(o, "signed_distance", st, x), S.call(o, "get_velocity", st, x, dt), S.call(o, "signed_distance", moved, x)]
    live(R, "obstacle", vals, ["c", "v", "w", "th" if dim == 2 else "u"], ranges={"i.*": (-1, 1), "x": (-2, 2), "a": (-1, 1), "B": (-.6, .6), "k": (-1, 1), "dt": (0.01, 0.2)}, prefix="i.")


def obstacles(R, dim):
    """obstacles registered through the builder equal directly created ones"""
    S = R.use(Scene(dim))
    ref = pose(S, dim)
    kw = dict(center_of_mass=ref.f["center_of_mass"], velocity=ref.f["velocity"], angular_velocity=ref.f["angular_velocity"], rotation=ref.f["rotation"])
    for drop in (None, "velocity", "angular_velocity", "rotation"):
        k2 = {k: v for k, v in kw.items() if k != drop}
        B = S.new("SimBuilder")
        sh = S.new("SphereSDF", radius=pyfloat("radius"))
        S.call(B, "add_sdf_object", sdf_logic=sh, **k2)
        S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
        _, state = one(R, S, S.call(B, "build"))
        unchanged(R, "values given to the builder arrive unchanged", "%s without %s" % (R.cur, drop), S.it.iterate(S.get(state, "world", "sdfs"))[0], S.call(sh, "create_state", **k2))


# ------------------------------------------------------------------ grids and particles
def grids(R, dim):
    S = R.use(Scene(dim))
    o, e, h = tuple(0.5 + 0.25 * k for k in range(dim)), tuple(3.5 + 0.25 * k for k in range(dim)), 0.5
    made = {}
    for pad in (0, 1, 2, 3):
        d = S.call(S.cls("GridDomain"), "create", o, e, h, padding=pad)
        B = S.new("SimBuilder")
        S.call(B, "add_grid", origin=o, end=e, cell_size=h, padding=pad)
        S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
        sv, _ = one(R, S, S.call(B, "build"))
        b = S.it.iterate(S.get(sv, "grid_domains"))[0]
        made[pad] = d
        unchanged(R, "values given to the builder arrive unchanged", "%s padding %d" % (R.cur, pad), b, d)
    key = lambda d: [lift(S.get(d, f)) if not isinstance(S.get(d, f), tuple) else S.get(d, f) for f in ("origin", "end", "grid_size", "cell_size")]
    differ(R, "GridDomain", "padding", [key(made[p]) for p in made])
    for nm, alt in (("origin", dict(origin=tuple(t - 1 for t in o))), ("end", dict(end=tuple(t + 1 for t in e))), ("cell_size", dict(cell_size=0.25))):
        kw = dict(dict(origin=o, end=e, cell_size=h), **alt)
        differ(R, "GridDomain", nm, [key(made[1]), key(S.call(S.cls("GridDomain"), "create", padding=1, **kw))])
    dom = S.domain(0)
    B = S.new("SimBuilder")
    S.call(B, "add_grid", grid_domain=dom)
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    sv, _ = one(R, S, S.call(B, "build"))
    unchanged(R, "values given to the builder arrive unchanged", R.cur + " grid object", S.it.iterate(S.get(sv, "grid_domains"))[0], dom)


def particles(R, dim):
    S = R.use(Scene(dim))
    sh = {"position_stack": (N0, dim), "velocity_stack": (N0, dim), "force_stack": (N0, dim), "mass_stack": (N0,), "volume_stack": (N0,), "volume0_stack": (N0,),
          "L_stack": (N0, 3, 3), "stress_stack": (N0, 3, 3), "F_stack": (N0, 3, 3)}
    full = {k: sym_arr("in." + k, s) for k, s in sh.items()}
    cls = S.cls("MaterialPointState")

    def through(**kw):
        B = S.new("SimBuilder")
        S.call(B, "add_material_points", **kw)
        S.call(B, "add_grid", grid_domain=S.domain(0))
        S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
        _, st = one(R, S, S.call(B, "build"))
        return S.it.iterate(S.get(st, "world", "material_points"))[0]
    for store in (False, True):
        d = S.call(cls, "create", store_F=store, **full)
        for k in full:
            R.eqa("values given arrive unchanged in the particles", "%s %s" % (R.cur, k), d.f[k], full[k])
        if store:
            R.eqa("values given arrive unchanged in the particles", R.cur + " stored F", d.f["F_store_stack"], full["F_stack"])
        R.ob(LIVE, "MaterialPointState store_F", (d.f.get("F_store_stack") is not None) == store, "", d.src, "dead/MaterialPointState.store_F")
        unchanged(R, "values given to the builder arrive unchanged", "%s store_F=%s" % (R.cur, store), through(store_F=store, **full), d)
    for k in full:
        if k == "position_stack":
            continue
        kw = {"position_stack": full["position_stack"], k: full[k]}
        d = S.call(cls, "create", **kw)
        R.eqa("values given arrive unchanged in the particles", "%s only %s" % (R.cur, k), d.f[k], full[k])
        unchanged(R, "values given to the builder arrive unchanged", "%s only %s" % (R.cur, k), through(**kw), d)
    left = set(params(S, cls.lookup("create"))) - set(full) - {"store_F"}
    R.ob("every constructor parameter is covered", R.cur, True if not left else None, "others: %s" % sorted(left))
    nrm = sym_arr("in.normal", (N0, dim))
    r = S.call(S.cls("RigidMaterialPointState"), "create", position_stack=full["position_stack"], normal_stack=nrm)
    R.eqa("values given arrive unchanged in the particles", R.cur + " rigid normals", r.f["normal_stack"], nrm)
    unchanged(R, "values given to the builder arrive unchanged", R.cur + " rigid", through(is_rigid=True, position_stack=full["position_stack"], normal_stack=nrm), r)


# ------------------------------------------------------------------ forces
def forces(R, dim):
    S = R.use(Scene(dim))

    def base():
        return builder(S, 3, 3)[0]

    def finish(B):
        S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
        sv, st = one(R, S, S.call(B, "build"))
        return S.it.iterate(S.get(sv, "forces")), S.it.iterate(S.get(st, "mechanics", "forces"))
    rule = "values given to the builder arrive unchanged"
    for on in (True, False):
        for gl in ([1], [2, 0]):
            for pl in ([1], [2, 0]):
                lists = dict(g_idx_list=PList(list(gl)), p_idx_list=PList(list(pl)))
                subj = "%s on_grid=%s grids %s bodies %s" % (R.cur, on, gl, pl)
                B = base()
                S.call(B, "add_damping", alpha=pyfloat("d0"))
                S.call(B, "add_gravity", gravity=sym_arr("acc", (dim,)), is_apply_on_grid=on, **lists)
                S.call(B, "add_damping", alpha=pyfloat("d1"), is_apply_on_grid=on, **lists)
                fs, st = finish(B)
                G = S.new("Gravity", is_apply_on_grid=on, f_idx=1, **lists)
                D = S.new("Damping", is_apply_on_grid=on, f_idx=2, **lists)
                unchanged(R, rule, subj + " gravity", fs[1], G)
                unchanged(R, rule, subj + " gravity state", st[1], S.call(G, "create_state", gravity=sym_arr("acc", (dim,))))
                unchanged(R, rule, subj + " damping", fs[2], D)
                unchanged(R, rule, subj + " damping state", st[2], S.call(D, "create_state", alpha=pyfloat("d1")))
    for gl in ([1], [2, 0]):
        B = base()
        for k in range(2):
            S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(k, []), sdf_state=S.sdf_state(k))
        kw = dict(sdf_idx=0, g_idx_list=PList(list(gl)), friction=pyfloat("mu"), gap=pyfloat("gap"))
        S.call(B, "add_sdf_collider", **kw)
        fs, st = finish(B)
        unchanged(R, rule, "%s collider grids %s" % (R.cur, gl), fs[0], S.new("SDFCollider", **kw))
    B = base()
    S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(0, []), sdf_state=S.sdf_state(0))
    S.call(B, "add_sdf_object", sdf_logic=S.probe_sdf(1, []), sdf_state=S.sdf_state(1))
    S.call(B, "add_sdf_collider")
    f = finish(B)[0][0]
    unchanged(R, "a collider without arguments uses the last obstacle on every grid", R.cur, f, S.new("SDFCollider", sdf_idx=1, g_idx_list=PList([0, 1, 2])))
    for rigid in (False, True):
        for react in (False, True):
            B = base()
            kw = dict(couple_idx_actor=2, couple_idx_receiver=1, friction=pyfloat("mu"), is_rigid=rigid, is_reaction=react, mass_ratio_limit=pyfloat("lim"))
            S.call(B, "add_body_contact", **kw)
            unchanged(R, rule, "%s contact rigid=%s reaction=%s" % (R.cur, rigid, react), finish(B)[0][0], S.new("GridContact", **kw))


def collider(R, dim):
    S, st, out, b0, b1 = contact_scene(R, "USLSolver", dim, [(0, [0])], 1, 1, forces=lambda S: [S.new("SDFCollider", sdf_idx=0, g_idx_list=PList([0]), friction=pyfloat("friction"), gap=pyfloat("gap"))])
    nt = out[0].f["moment_nt_stack"]
    for n in ("friction", "gap"):
        live(R, "SDFCollider", [nt], [n], ranges=dict(CR, friction=(0.2, 1.5), gap=(0.001, 0.5), **{"dist*": (-0.9, 0.3)}))


def contact(R, dim):
    S, st, out, b0, b1 = contact_scene(R, "USLSolver", dim, None, 3, 0, forces=lambda S: [S.new("GridContact", couple_idx_actor=2, couple_idx_receiver=0, is_reaction=True, friction=pyfloat("friction"), mass_ratio_limit=pyfloat("mass_ratio_limit"))], shared=True)
    live(R, "GridContact", [g.f["moment_nt_stack"] for g in out], ["friction", "mass_ratio_limit"], ranges=dict(CR, friction=(0.2, 1.5), mass_ratio_limit=(0.1, 2.0), **{"p0.volume0_stack": (2000.0, 4000.0)}))
    res = []
    for react in (True, False):
        o2 = contact_scene(R, "USLSolver", dim, None, 3, 0, forces=lambda S: [S.new("GridContact", couple_idx_actor=2, couple_idx_receiver=0, is_reaction=react)], shared=True)[2]
        res.append([lift(g.f["moment_nt_stack"]).at(X.sym("#node"), X.ZERO) for g in o2])
    differ(R, "GridContact", "is_reaction", res, ranges=dict(CR, **{"p0.volume0_stack": (2000.0, 4000.0)}))


def callback(R):
    S = R.use(Scene(3))
    if "callback" not in params(S, S.cls("Gravity")):
        return R.ob("parameter offered", R.cur, True, "no callback")
    calls = []

    def cb(it, a, kw):
        calls.append(a)
        return a[0] if a else None
    hit = False
    for on in (True, False):
        B, doms, gid, pos, pid = builder(S, 1, 1)
        S.call(B, "add_constitutive_law", law=S.probe_law(0, []), law_state=S.law_state(0))
        S.call(B, "couple")
        S.call(B, "add_gravity", gravity=sym_arr("acc", (3,)), is_apply_on_grid=on)
        S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
        sv, state = one(R, S, S.call(B, "build"))
        F, a = acting(S, sv, state, 0, 3)
        G = S.new("Gravity", is_apply_on_grid=on, callback=Nat(cb, "callback"))
        for hook_ in ("apply_kinematics", "apply_grid_forces", "apply_grid_moments"):
            if G.cls.lookup(hook_) is not None:
                m = G.cls.lookup(hook_)
                S.it.call(S.it.getattr(G, hook_), [], {k: v for k, v in a.items() if k in params(S, m)})
        hit = hit or bool(calls)
    R.ob(LIVE, "Gravity callback", hit, "the callback is never called" if not hit else "called", None, "dead/Gravity.callback")


# ------------------------------------------------------------------ remaining builder arguments
def build_args(R):
    S = R.use(Scene(3))
    B, doms, gid, pos, pid = builder(S, 1, 1)
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    _, st = one(R, S, S.call(B, "build", time=pyfloat("t"), step=scalar(X.sym("#st"), "i", "int"), dt=pyfloat("dt")))
    for f, s in (("time", "t"), ("step", "#st"), ("dt", "dt")):
        R.eq("values given to the builder arrive unchanged", "build %s" % f, S.get(st, f), X.sym(s))
    R.ob("every parameter is covered", "build", True if set(params(S, S.cls("SimBuilder").lookup("build"))) <= {"time", "step", "dt"} else None, "")


def coupling(R):
    S = R.use(Scene(3))
    B, doms, gid, pos, pid = builder(S, 3, 3)
    for k in range(3):
        S.call(B, "add_constitutive_law", law=S.probe_law(k, []), law_state=S.law_state(k))
    plan = [(1, 2, 0), (0, 0, 2), (2, 1, 1)]
    for p, g, c in plan:
        S.call(B, "couple", p_idx=p, g_idx=g, c_idx=c)
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    sv, _ = one(R, S, S.call(B, "build"))
    got = [tuple(native(S.get(c, f)) for f in ("p_idx", "g_idx", "c_idx")) for c in S.it.iterate(S.get(sv, "couplings"))]
    R.ob("values given to the builder arrive unchanged", "couple", got == plan, "body, grid, law %s for %s" % (got, plan))


# ------------------------------------------------------------------ helpers
def generated(R, dim):
    S = R.use(Scene(dim))
    key = Arr((2,), lambda i: X.sym("#key", i), "i", note="key")
    rg = {"mn": (-2.0, -0.1), "mx": (0.2, 2.0), "h": (0.25, 0.9)}

    def cand(mode, **kw):
        r, _ = generate(S, mode, dim, **kw)
        pm = parts(R, r)
        return None if pm is None else [pm[0].at(X.bounded("#c", pm[0].shape[0]), X.C(k)) for k in range(dim)]
    for mode, kw, names in (("random", dict(num_particles=4, key=key), ("mn", "mx", "#key")), ("regular", dict(cell_size=pyfloat("h"), ppc=4), ("mn", "h"))):
        c = cand(mode, **kw)
        if c is None:
            continue
        live(R, "generate_particles_in_sdf", c, names, ranges=rg)
        if "shapefunction" in params(S, S.cls("generate_particles_in_sdf")):
            rs = [cand(mode, shapefunction=s, **kw) for s in ("linear", "cubic")]
            if mode == "regular" and None not in rs:
                differ(R, "generate_particles_in_sdf", "shapefunction", rs, ranges=rg)


def generic(R):
    from .kernels import Map
    S = R.use(Scene(3))
    sm = S.new("ShapeFunctionMapping", "linear", 3)
    c = S.interaction("i00", N0, X.C(8), 3)
    data, m = sym_arr("data", (N0, 2)), sym_arr("m", (N0,))
    num = scalar(X.sym("#cells"), "i", "int")
    f = lambda **kw: lift(S.call(sm, "scatter_to_grid", c, data, m, num, **kw)).at(X.sym("#n"), X.ZERO)
    rg = {"m": (0.5, 2.0), "*.N": (0.1, 1.0), "cutoff": (0.01, 6.0)}
    live(R, "scatter_to_grid", [f(small_mass_cutoff=pyfloat("cutoff"))], ["cutoff", "m", "data"], ranges=rg)
    differ(R, "scatter_to_grid", "normalize", [[f(normalize=True)], [f(normalize=False)]], ranges=rg)
