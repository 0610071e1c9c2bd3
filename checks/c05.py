"""C05 compression-positive sign convention; transfer and gathering are each other's adjoint"""
from .g2p import *
from .laws import law_scene, law_obj, STATES
from .c11 import PAR, DENSE, LOOSE, tied_diag
from .tens import T, stack, det, EYE, R3

Q = X.sym("#q")
TWO = [("one body", [Body(0, 0, 0, 0)]), ("two bodies on one grid", [Body(0, 0, 0, 0), Body(1, 0, 1, 1)])]


def run(R):
    R.ranges = G2P_RANGES
    for scheme in SCHEMES:
        for dim in (3, 2):
            for nm, bodies in TWO:
                with R.group("%s %dD internal force, %s" % (scheme, dim, nm)):
                    internal(R, scheme, dim, bodies)
            for nm, kw in VARIANTS[scheme]:
                with R.group("%s %s %dD velocity gradient" % (scheme, nm, dim)):
                    gradient(R, scheme, dim, kw)
    for dim in (3, 2):
        for kern in ("linear", "quadratic", "cubic"):
            with R.group("kernel %s %dD" % (kern, dim)):
                toward(R, kern, dim)
    for name in STATES:
        with R.group("law " + name):
            law_sign(R, name)
    with R.group("law initial states"):
        initial(R)
    with R.group("helpers"):
        helpers(R)
    for lin in (True, False):
        with R.group("element test driver %s" % ("linear" if lin else "exponential")):
            driver(R, lin)
    with R.group("triaxial test"):
        triaxial(R)


# ---------------------------------------------------------------- solver
def internal(R, scheme, dim, bodies):
    """force on a node from the stress = + volume * stress . gradient, with the gradient the gathering uses"""
    S = R.use(Scene(dim))
    log = []

    def act(h, b):
        if h == "apply_pre_p2g":        # no external force: what is left is the stress part
            mps = list(S.it.iterate(S.get(b["world"], "material_points")))
            mps = [obj_with(m, force_stack=Arr(m.f["force_stack"].shape, lambda *i: X.ZERO, "f")) if "force_stack" in m.f else m for m in mps]
            return (obj_with(b["world"], material_points=tuple(mps)), b["mechanics"], b["sim_cache"])
    st = make(S, scheme, bodies, log=log, forces=(S.probe_force(0, log, act),), params=params(scheme, VARIANTS[scheme][0][1]))
    run_step(S, st)
    ev = hook(st, "apply_grid_forces")
    if not ev:
        R.ob("internal forces reach the grid hook", R.cur, None, "hook not reached")
        return
    G = grids_of(S, ev[0][3]["sim_cache"])[0]
    f = lift(G.f["force_stack"])
    def ref(n, k):
        tot = X.ZERO
        for b in bodies:
            def body(q, w, b=b):
                return X.add(*[X.mul(X.sym("p%d.volume_stack" % b.p, q), X.sym("p%d.stress_stack" % b.p, q, k, X.C(j)), X.sym("i%d%d.dN" % (b.p, b.g), q, w, X.C(j))) for j in range(dim)])
            tot = X.add(tot, scat(b.p, b.g, body, n))
        return tot
    R.eqa("nodal force from stress = + volume * stress . grad N (pressure pushes apart)", R.cur, f, ref)


def run_step(S, st):
    from .common import run as r
    return r(S, st)


def gradient(R, scheme, dim, kw):
    g = G2P(R, scheme, dim, kw)
    mid, out = g.law_mp(0), g.out(0)
    if mid is None:
        R.ob("velocity gradient reaches the law", R.cur, None, "no law call seen")
        return
    R.eqa("velocity gradient = - sum velocity x grad N (closing motion is positive)", R.cur, mid.f["L_stack"], lambda q, j, k: g.L(0, q, I(j), I(k)))
    Lm, Fm, F0 = mid.f["L_stack"], mid.f["F_stack"], g.st.mps[0].f["F_stack"]

    def F(q, j, k):
        return X.add(*[X.mul(X.sub(X.ONE if I(j) == m else X.ZERO, X.mul(X.sym("dt"), Lm.at(q, j, X.C(m)))), F0.at(q, X.C(m), k)) for m in R3])
    R.eqa("deformation gradient shrinks with positive velocity gradient", R.cur, Fm, F)
    for nm, o in (("law", mid), ("result", out)):
        R.eqa("volume is the reference volume times the determinant", "%s %s" % (R.cur, nm), o.f["volume_stack"],
              lambda q: X.mul(X.sym("p0.volume0_stack", q), det3(lambda j, k: F(q, X.C(j), X.C(k)))))


# ---------------------------------------------------------------- kernels
def toward(R, kern, dim):
    """the gradient points from the particle towards the node: positive pressure pushes the node away"""
    from .kernels import Map, KR
    m = Map(R, kern, dim)
    bad = None
    for s in range(m.W):
        for k in range(dim):
            for seed in (1, 2, 3):
                env = X.Env(seed, KR)
                if env.ev(X.mul(m.g(s, k), m.r(s, k))) > 1e-9:
                    bad = "stencil slot %d component %d: gradient points away from the node" % (s, k)
    R.ob("kernel gradient points towards the node", R.cur, bad is None, bad or "gradient . (particle - node) <= 0 on the whole stencil", m.dN.src)


# ---------------------------------------------------------------- laws
def stress_num(arr, M, rg, seed, extra=None):
    """numeric 3x3 stress of a particle for a given velocity gradient"""
    sp = {k: v for k, v in rg.items() if callable(v)}
    rr = {k: v for k, v in rg.items() if not callable(v)}
    rr.update(extra or {})
    sp["p0.L_stack"] = lambda env, name, idx: M[int(num(idx[-2]))][int(num(idx[-1]))]
    env = X.Env(seed, rr, None, sp)
    s = lift(arr)
    return [[env.ev(s.at(Q, X.C(i), X.C(j))) for j in R3] for i in R3]


def num(x):
    return X.cval(x) if isinstance(x, X.E) else x


def iso(t):
    return [[t if i == j else 0.0 for j in R3] for i in R3]


def simple(g):
    return [[g if (i, j) == (0, 1) else 0.0 for j in R3] for i in R3]


ISO = tied_diag(9.0, 0.4, 0.3)
REG = {
    "LinearElasticLaw": ({}, 1e-3, True),
    "NewtonFluid": (dict(DENSE), 1e-2, True),
    "MuI_LC": (dict(DENSE), 1e-2, True),
    "DruckerPrager": (dict(DENSE, **{"ls.p_0_stack": (6, 12), "ls.eps_e_stack": (-0.003, 0.003)}), 1e-3, True),
    "ModifiedCamClay": ({"p0.stress_stack": ISO, "ls.p_c_stack": (25, 30), "p0.mass_stack": (2.0, 2.4)}, 1e-3, True),
}


def law_sign(R, name):
    for dim in (3, 2):
        S, law, mp, ls, res = law_scene(R, name, dim)
        out, hist = S.it.iterate(res, 2)
        s = out.f["stress_stack"]
        if isinstance(s, Top):
            R.ob("isotropic stress grows under compression", name, None, "unknown")
            return
        over, d, _ = REG[name]
        rg = dict(PAR)
        rg.update(over)
        subj = "%s %dD" % (name, dim)
        fluid = name in ("NewtonFluid", "MuI_LC")
        tr = lambda M: sum(M[i][i] for i in R3) / 3
        for seed in range(1, 7):
            try:
                z = stress_num(s, iso(0.0), rg, seed)
                c = stress_num(s, iso(d), rg, seed)
                sh = stress_num(s, simple(d), rg, seed)
            except X.Undef if hasattr(X, "Undef") else ArithmeticError:
                R.ob("isotropic stress grows under compression", subj, None, "no value")
                return
            if fluid:
                # denser than the reference: pressure positive, and it grows as the particle shrinks
                v = dict(rg)
                v["p0.volume_stack"] = (0.55, 0.6)
                small = stress_num(s, iso(0.0), v, seed)
                R.ob("isotropic stress grows under compression", subj, tr(small) > tr(z) > 0, "pressure %.4g at the larger, %.4g at the smaller volume" % (tr(z), tr(small)), lift(s).src)
                R.ob("closing motion never lowers the isotropic stress", subj, tr(c) >= tr(z) - 1e-9 * abs(tr(z)), "pressure %.6g without, %.6g with closing motion" % (tr(z), tr(c)), lift(s).src)
            else:
                R.ob("isotropic stress grows under compression", subj, tr(c) > tr(z), "pressure %.6g before, %.6g after closing motion" % (tr(z), tr(c)), lift(s).src)
            R.ob("shear stress has the sign of the compression-positive shear rate", subj, sh[0][1] > z[0][1] and sh[1][0] > z[1][0],
                 "sigma_12 %.6g without, %.6g with positive shear" % (z[0][1], sh[0][1]), lift(s).src)


def initial(R):
    """a positive requested pressure is a positive isotropic stress"""
    S = R.use(Scene(3))
    f = S.cls("reconstruct_stress_from_triaxial", must=False)
    if f is not None:
        n = size("N0")
        s = S.new(f, sym_arr("p", (n,)), sym_arr("q", (n,)))
        t = stack(s, Q)
        R.eq("pressure reconstructs a positive isotropic stress", "reconstruct_stress_from_triaxial", X.div(t.tr(), X.C(3)), X.sym("p", Q))
        R.eq("positive q means larger axial compression", "reconstruct_stress_from_triaxial", X.sub(t(2, 2), t(0, 0)), X.sym("q", Q))


# ---------------------------------------------------------------- helpers
def helpers(R):
    S = R.use(Scene(3))
    n = size("N0")
    one = lambda nm: sym_arr(nm, (3, 3))
    st_ = lambda nm: sym_arr(nm, (n, 3, 3))
    M = T(lambda i, j: X.sym("A", X.C(i), X.C(j)))
    MQ = T(lambda i, j: X.sym("A", Q, X.C(i), X.C(j)))
    third = lambda e: X.div(e, X.C(3))

    def val(fn, *a):
        c = S.cls(fn, must=False)
        if c is None:
            R.ob("helper exists", fn, None, "not found")
            return None
        return S.it.call(c, list(a), {})

    def chk(fn, rule, want, arg, at):
        with R.group(fn):
            r = val(fn, arg)
            if r is None or isinstance(r, Top):
                return
            R.eq(rule, fn, lift(r).at(*at), want)
    chk("get_pressure", "pressure is + mean normal stress", third(M.tr()), one("A"), ())
    chk("get_pressure_stack", "pressure is + mean normal stress", third(MQ.tr()), st_("A"), (Q,))
    chk("get_volumetric_strain", "volumetric strain is + trace of the strain", M.tr(), one("A"), ())
    chk("get_volumetric_strain_stack", "volumetric strain is + trace of the strain", MQ.tr(), st_("A"), (Q,))
    for fn, arg, ref in (("get_strain_rate_tensor", one("A"), M), ("get_strain_rate_tensor_stack", st_("A"), MQ)):
        with R.group(fn):
            r = val(fn, arg)
            if r is not None:
                R.eqa("strain rate is + symmetric part of the velocity gradient", fn, r, lambda *i: ref.sym().at(i[-2], i[-1]), idx={0: Q} if len(lift(r).shape) == 3 else None)
    def Fs(*pre):
        return lambda i, j: X.add(X.where(X.eq(i, j), X.ONE, X.ZERO), X.mul(X.div(X.ONE, X.C(5)), X.sym("A", *pre, i, j)))
    F1 = Arr((3, 3), lambda i, j: Fs()(i, j), "f")
    FN = Arr((n, 3, 3), lambda q, i, j: Fs(q)(i, j), "f")
    for fn, arg, pre in (("get_hencky_strain", F1, ()), ("get_hencky_strain_stack", FN, (Q,))):
        with R.group(fn):
            r = val(fn, arg)
            if r is None or isinstance(r, Top):
                continue
            e = X.add(*[lift(r).at(*pre, X.C(k), X.C(k)) for k in R3])
            J = det(T(lambda i, j: Fs(*pre)(X.C(i), X.C(j))))
            R.eq("Hencky volumetric strain is - log det F (shrinking is positive)", fn, e, X.neg(X.log(J)), ranges={"A": (-0.8, 0.8)})
    for fn, arg, pre in (("get_small_strain", F1, ()), ("get_small_strain_stack", FN, (Q,))):
        with R.group(fn):
            r = val(fn, arg)
            if r is None or isinstance(r, Top):
                continue
            R.eqa("small strain is I - sym F (shrinking is positive)", fn, r,
                  lambda *i: X.sub(X.where(X.eq(i[-2], i[-1]), X.ONE, X.ZERO), X.mul(X.C(0.5), X.add(Fs(*pre)(i[-2], i[-1]), Fs(*pre)(i[-1], i[-2])))), idx={0: Q} if pre else None)
    with R.group("get_phi_from_L"):
        r = val("get_phi_from_L", one("A"), fscalar("phi"), pyfloat("dt"))
        if r is not None and not isinstance(r, Top):
            R.eq("solid fraction grows with closing motion", "get_phi_from_L", lift(r).at(), X.div(X.sym("phi"), X.sub(X.ONE, X.mul(X.sym("dt"), M.tr()))), ranges={"A": (-0.3, 0.3), "dt": (0.1, 0.3)})
    with R.group("particle properties"):
        mp = S.body(0, store_F=True)
        mp = obj_with(mp, F_stack=nearI("p0.F_stack")(n, 3), F_store_stack=nearI("p0.F_store_stack")(n, 3))
        sg = stack(mp.f["stress_stack"], Q)
        R.eq("pressure_stack is + mean normal stress", "pressure_stack", lift(S.get(mp, "pressure_stack")).at(Q), third(sg.tr()))
        R.eqa("deps_dt_stack is + symmetric part of L", "deps_dt_stack", S.get(mp, "deps_dt_stack"), lambda q, j, k: stack(mp.f["L_stack"], q).sym().at(j, k))
        J = lambda f: det(stack(mp.f[f], Q))
        R.eq("eps_v_stack is - log det F", "eps_v_stack", lift(S.get(mp, "eps_v_stack")).at(Q), X.neg(X.log(J("F_stack"))))
        for prop, f in (("eps_stack", "F_stack"), ("stored_eps_stack", "F_store_stack")):
            e = lift(S.get(mp, prop))
            R.eq("trace of the Hencky strain is - log det F", prop, X.add(*[e.at(Q, X.C(k), X.C(k)) for k in R3]), X.neg(X.log(J(f))))


# ---------------------------------------------------------------- element tests
def driver(R, lin):
    S = R.use(Scene(3))
    log = []
    drv = S.new("ElementTestDriver", constitutive_law=S.probe_law(0, log), is_F_linear_approx=lin)
    n = size("N0")
    mp = obj_with(S.body(0), F_stack=Arr((n, 3, 3), lambda q, i, j: X.where(X.eq(i, j), X.ONE, X.ZERO), "f"))
    # isotropic closing motion
    L = Arr((n, 3, 3), lambda q, i, j: X.where(X.eq(i, j), X.sym("rate", q), X.ZERO), "f")
    out, _ = S.it.iterate(S.call(drv, "step", mp, S.law_state(0), L, pyfloat("dt"), is_F_linear_approx=lin), 2)
    mid = next((e[2] for e in log if e[0] == "law"), None)
    for nm, o in (("law", mid), ("result", out)):
        if o is None:
            continue
        J = det(stack(o.f["F_stack"], Q))
        vr = X.div(lift(out.f["volume_stack"]).at(Q), X.sym("p0.volume0_stack", Q))
        for what, e in (("deformation gradient", J),) + ((("volume", vr),) if nm == "result" else ()):
            v = [X.Env(k, {"rate": (0.1, 0.5), "dt": (0.1, 0.5), "p0.volume0_stack": (0.5, 2)}).ev(e) for k in (1, 2, 3)] if not e.top else None
            R.ob("imposed closing rate shrinks the %s" % what, "%s %s" % (R.cur, nm), None if v is None else max(v) < 1, "ratios %s" % v, lift(o.f["F_stack"]).src)
        if nm == "law":
            l = lift(o.f["L_stack"])
            R.eqa("the law receives the imposed gradient with its sign", R.cur, l, lambda q, a, b: L.at(q, a, b), idx={0: Q})


def triaxial(R):
    S = R.use(Scene(3))
    t = S.new("TriaxialTest", solver=S.new("ElementTestDriver", constitutive_law=S.probe_law(0, [])), confine=pyfloat("conf"), axial_rate=pyfloat("rate"), dt=pyfloat("dt"), num_steps=12, stride=3)
    e = lift(S.get(t, "axial_strain_stack"))
    v = X.Env(1, {"rate": (0.1, 1), "dt": (0.1, 1)}).ev(e.at(X.C(int(X.cval(X.toE(e.shape[0]))) - 1)))
    R.ob("positive axial rate reports positive axial strain", "axial_strain_stack", v > 0, "last strain %.4g" % v, e.src)
