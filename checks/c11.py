"""C11 material laws: own fields only, locality, documented elasticity / rheology / yield, stress-free separation, history"""
from .laws import *
from .laws import law_scene as laws_scene
from .tens import *

HISTORY = {"LinearElasticLaw": (), "NewtonFluid": (), "MuI_LC": (), "DruckerPrager": ("eps_e_stack", "eps_p_acc_stack"),
           "ModifiedCamClay": ("p_c_stack", "eps_e_stack")}
DT = X.sym("dt")
L_ = lambda n: X.sym("law." + n)
Q = P

# parameter ranges (all laws), then one set of ranges per regime of each law
PAR = {"law.E": (50, 200), "law.nu": (0.1, 0.4), "law.K": (20, 80), "law.viscosity": (0.5, 2), "law.beta": (2, 7), "law.mu_s": (0.3, 0.5), "law.mu_d": (0.6, 0.9),
       "law.I_0": (0.1, 0.5), "law.d_p": (0.1, 0.4), "law.rho_p": (2, 3), "law.alpha": (0.3, 0.9), "law.p_min_calc": (0.4, 0.8), "law.mu_1": (0.3, 0.6),
       "law.mu_2": (0.5, 1.5), "law.c0": (1, 3), "law.mu_1_hat": (0.1, 0.4), "law.H": (1, 5), "law.rho_0": (0.9, 1.1), "law.M": (0.9, 1.4), "law.lam": (0.2, 0.3),
       "law.kap": (0.02, 0.08), "law.N": (2.5, 3.0), "law.p_ref": (1, 2), "law.K_min": (1, 2), "law.K_max": (900, 1000), "dt": (0.1, 0.3),
       "p0.L_stack": (-0.6, 0.6), "p0.stress_stack": (-3, 3), "p0.mass_stack": (1, 2), "p0.volume_stack": (0.5, 0.9), "ls.density_ref_stack": (0.9, 1.1),
       "ls.eps_e_stack": (-0.03, 0.03), "ls.eps_p_acc_stack": (0, 0.5), "ls.p_0_stack": (0, 3), "ls.p_c_stack": (5, 30)}
DENSE = {"p0.mass_stack": (2.0, 2.4), "p0.volume_stack": (0.9, 1.0)}
LOOSE = {"p0.mass_stack": (0.3, 0.5), "p0.volume_stack": (1.0, 1.2)}


def tied_diag(base, spread, dev):
    """special value source: diagonal near base, off-diagonal small"""
    def f(env, name, idx):
        from sa.expr import _h
        u = _h(env.seed, name, idx)
        try:
            i, j = [int(X.cval(k)) if isinstance(k, X.E) else int(k) for k in idx[-2:]]
        except Exception:
            i, j = 0, 1
        return (base + spread * (2 * u - 1)) if i == j else dev * (2 * u - 1)
    return f


PLANE = [False]


def law_scene(R, name, dim=3, over=None, **kw):
    """as laws.law_scene; in plane strain the velocity gradient has exact zeros out of plane"""
    if not PLANE[0]:
        return laws_scene(R, name, dim, over, **kw)
    S = R.use(Scene(2))
    law = law_obj(S, name, **(over or {}))
    mp = in_plane(S.body(0))
    ls = S.sym_obj(STATES[name], "ls", {"num_points": size("N0")})
    return S, law, mp, ls, S.call(law, "update", mp, ls, pyfloat("dt"))


def in_plane(mp):
    L = lift(mp.f["L_stack"])

    def at(q, j, k):
        a, b = X.toE(j), X.toE(k)
        if X.isc(a) and X.isc(b):
            return X.ZERO if 2 in (X.cval(a), X.cval(b)) else L.at(q, j, k)
        return X.where(X.or_(X.eq(a, X.C(2)), X.eq(b, X.C(2))), X.ZERO, L.at(q, j, k))
    return obj_with(mp, L_stack=Arr(L.shape, at, "f"))


def run(R):
    for name in HISTORY:
        for dim in (3, 2):
            with R.group("%s %dD" % (name, dim)):
                effects(R, name, dim)
        with R.group("%s formula" % name):
            globals()["f_" + name](R, name)
        # plane strain: exact zeros out of plane must not select another formula
        with R.group("%s formula in plane strain" % name):
            try:
                PLANE[0] = True
                globals()["f_" + name](R, name)
            finally:
                PLANE[0] = False


# ---------------------------------------------------------------- effects and locality
def effects(R, name, dim):
    S, law, mp, ls, res = law_scene(R, name, dim)
    if isinstance(res, Top):
        raise Unknown("update result unknown")
    out, hist = S.it.iterate(res, 2)
    subj = "%s %dD" % (name, dim)
    for f in mp.f:
        if f != "stress_stack":
            unchanged(R, "material update writes only the stress", subj + " " + f, out.f[f], mp.f[f])
    for f in ls.f:
        if f not in HISTORY[name]:
            unchanged(R, "history that is not updated is carried over", subj + " " + f, hist.f[f], ls.f[f])
    R.ob("material update keeps its state type", subj, hist.cls is ls.cls and out.cls is mp.cls, "%s, %s" % (out.cls.name, hist.cls.name))
    for f, v in [("stress_stack", out.f["stress_stack"])] + [(h, hist.f[h]) for h in HISTORY[name]]:
        local(R, subj + " " + f, v)


def local(R, subj, v):
    """row q of the result varies with no other row of the inputs"""
    from sa.report import indices
    if isinstance(v, Top) or v is None:
        return R.ob("each particle uses its own data only", subj, None, "unknown")
    v = lift(v)
    und = False
    for i in indices(v.shape, {0: Q}):
        try:
            e = v.at(*i)
        except Unknown:
            und = True
            continue
        if e.top:
            und = True
            continue
        for s in range(4):
            base = X.Env(s + 1, PAR)
            x = base.ev(e)
            e2 = X.Env(s + 1, PAR)
            own = base.ev(Q)
            orig = e2.symbol

            def symbol(nm, idx, orig=orig):
                if nm.startswith(("p0.", "ls.")) and idx and idx[0] != own:
                    old, e2.seed = e2.seed, e2.seed + 977
                    r = orig(nm, idx)
                    e2.seed = old
                    return r
                return orig(nm, idx)
            e2.symbol = symbol
            y = e2.ev(e)
            if not X.close(x, y, 1e-9):
                return R.ob("each particle uses its own data only", subj, False, "row q varies with another particle's data: %s" % X.show(e, 300), v.src)
    return R.ob("each particle uses its own data only", subj, None if und else True, "")


# ---------------------------------------------------------------- references
def parts(mp, ls=None):
    L = stack(mp.f["L_stack"], Q)
    D, W = L.sym(), L.skew() * X.C(-1)      # L = -grad v: strain rate compression positive, material spin
    return L, D, W, D * DT


def rho():
    return X.div(X.sym("p0.mass_stack", Q), X.sym("p0.volume_stack", Q))


def regimes(*rs):
    out = []
    for nm, r in rs:
        d = dict(PAR)
        d.update(r)
        out.append((nm, d))
    return out


def cmp(R, rule, name, got, ref, rgs, special=None, **kw):
    for nm, rg in rgs:
        sp = {k: v for k, v in rg.items() if callable(v)}
        sp.update(special or {})
        rr = {k: v for k, v in rg.items() if not callable(v)}
        R.eqa(rule, "%s %s" % (name, nm), got, lambda q, j, k: ref(int(X.cval(j)), int(X.cval(k))), idx={0: Q}, ranges=rr, special=sp or None, **kw)


def cmp0(R, rule, name, got, ref, rgs, **kw):
    for nm, rg in rgs:
        sp = {k: v for k, v in rg.items() if callable(v)}
        rr = {k: v for k, v in rg.items() if not callable(v)}
        R.eq(rule, "%s %s" % (name, nm), got, ref, ranges=rr, special=sp or None, **kw)


def zero_motion(R, name, S=None, over=None, **mpo):
    """the law evaluated with a vanishing velocity gradient"""
    S = R.use(Scene(3))
    law = law_obj(S, name, **(over or {}))
    mp = S.body(0)
    mp = obj_with(mp, L_stack=Arr(mp.f["L_stack"].shape, lambda *i: X.ZERO, "f"))
    ls = S.sym_obj(STATES[name], "ls", {"num_points": size("N0")})
    out, hist = S.it.iterate(S.call(law, "update", mp, ls, pyfloat("dt")), 2)
    return S, law, mp, ls, out, hist


def f_LinearElasticLaw(R, name):
    S, law, mp, ls, (out, hist) = law_scene(R, name)
    _, D, W, de = parts(mp)
    E, nu = L_("E"), L_("nu")
    G = X.div(E, X.mul(X.C(2), X.add(X.ONE, nu)))
    K = X.div(E, X.mul(X.C(3), X.sub(X.ONE, X.mul(X.C(2), nu))))
    lam = X.sub(K, X.mul(X.C("2/3") if False else X.div(X.C(2), X.C(3)), G))
    old = stack(mp.f["stress_stack"], Q)
    ref = old + EYE * X.mul(lam, de.tr()) + de * X.mul(X.C(2), G)
    cmp(R, "stress increment = documented moduli * strain increment", name, out.f["stress_stack"], ref, regimes(("", {})))
    for f, w in (("K", K), ("G", G), ("lam", lam)):
        if f in law.f:
            R.eq("documented elastic modulus", "%s.%s" % (name, f), law.f[f], w, ranges=PAR)
    *_, o, h = zero_motion(R, name)
    cmp(R, "no deformation, no stress change", name, o.f["stress_stack"], old, regimes(("", {})))


def f_NewtonFluid(R, name):
    S, law, mp, ls, (out, hist) = law_scene(R, name)
    _, D, W, de = parts(mp)
    r = X.div(rho(), X.sym("ls.density_ref_stack", Q))
    p = X.max_(X.mul(L_("K"), X.sub(X.power(r, L_("beta")), X.ONE)), X.ZERO)
    ref = EYE * p + D.dev() * X.mul(X.C(2), L_("viscosity"))
    cmp(R, "stress = pressure from the equation of state + twice viscosity * deviatoric rate", name, out.f["stress_stack"], ref,
        regimes(("compressed", DENSE), ("expanded", LOOSE), ("mixed", {"p0.mass_stack": (0.8, 1.2), "p0.volume_stack": (0.9, 1.1)})))


def f_MuI_LC(R, name):
    S, law, mp, ls, (out, hist) = law_scene(R, name)
    _, D, W, de = parts(mp)
    r = X.div(rho(), X.sym("ls.density_ref_stack", Q))
    p = X.max_(X.mul(L_("K"), X.sub(r, X.ONE)), L_("p_min_calc"))
    dv = D.dev()
    g2 = X.mul(X.C(2), dv.dd(dv))
    g = X.sqrt(g2)
    eta = X.add(X.div(X.mul(L_("mu_s"), p), X.sqrt(X.add(g2, X.power(L_("alpha"), X.C(2))))),
                X.div(X.mul(L_("d_p"), p, X.sub(L_("mu_d"), L_("mu_s"))), X.add(X.mul(L_("I_0"), X.sqrt(X.div(p, L_("rho_p")))), X.mul(L_("d_p"), g))))
    conn = X.gt(r, X.ONE)
    ref = (EYE * p + dv * X.mul(X.C(2), eta)).where(conn, NUL)
    cmp(R, "stress = p I + 2 eta(I) dev(D), regularised mu(I)", name, out.f["stress_stack"], ref,
        regimes(("connected", DENSE), ("separated", LOOSE), ("low pressure", {"law.K": (0.1, 0.2), "p0.mass_stack": (1.1, 1.2), "p0.volume_stack": (0.9, 1.0)})))
    cmp(R, "a separated particle is stress free", name, out.f["stress_stack"], NUL, regimes(("separated", LOOSE)))
    # fully developed friction: vanishing regularisation and inertial number leave sqrt(J2) = mu_s p
    small = dict(DENSE)
    small.update({"law.alpha": (1e-7, 2e-7), "law.d_p": (1e-9, 2e-9)})
    s = stack(lift(out.f["stress_stack"]), Q)
    sd = s.dev()
    cmp0(R, "quasi-static shear stress obeys the friction coefficient", name, X.sqrt(X.mul(X.C(0.5), sd.dd(sd))), X.mul(L_("mu_s"), X.div(s.tr(), X.C(3))), regimes(("quasi-static", small)))
    fast = dict(DENSE)
    fast.update({"law.alpha": (1e-7, 2e-7), "law.I_0": (1e-9, 2e-9)})
    cmp0(R, "rapid shear stress obeys the dynamic friction coefficient", name, X.sqrt(X.mul(X.C(0.5), sd.dd(sd))), X.mul(L_("mu_d"), X.div(s.tr(), X.C(3))), regimes(("rapid", fast)))


def f_DruckerPrager(R, name):
    S, law, mp, ls, (out, hist) = law_scene(R, name)
    _, D, W, de = parts(mp)
    K, nu, mu1, mu2, c0, mh, H = (L_(x) for x in ("K", "nu", "mu_1", "mu_2", "c0", "mu_1_hat", "H"))
    G = X.div(X.mul(X.C(3), K, X.sub(X.ONE, X.mul(X.C(2), nu))), X.mul(X.C(2), X.add(X.ONE, nu)))
    two = X.C(2)
    R.eq("documented elastic modulus", name + ".G", law.f["G"], G, ranges=PAR)
    ee = stack(ls.f["eps_e_stack"], Q)
    tr = rot(ee, W, DT) + de
    p0, ep = X.sym("ls.p_0_stack", Q), X.sym("ls.eps_p_acc_stack", Q)
    p = X.add(X.mul(K, tr.tr()), p0)
    s = tr.dev() * X.mul(two, G)
    sj = X.sqrt(X.mul(X.C(0.5), s.dd(s)))
    c = X.add(c0, X.mul(H, ep))
    yf = X.add(sj, X.neg(X.mul(mu1, p)), X.neg(X.mul(mu2, c)))
    m = X.div(yf, X.add(G, X.mul(K, mu1, mh), X.mul(H, mu2, mu2)))
    cone_s, cone_p = s * X.sub(X.ONE, X.div(X.mul(G, m), sj)), X.add(p, X.mul(K, m, mh))
    al = X.div(mu2, mu1)
    d = X.div(X.add(X.mul(mu1, p), X.mul(mu2, c)), X.add(X.mul(K, mu1), X.mul(H, mu2, al)))
    apex_p = X.sub(p, X.mul(K, d))
    is_ep, is_apex = X.gt(yf, X.ZERO), X.lt(sj, X.mul(G, m))
    conn = X.ge(rho(), L_("rho_0"))
    st = (EYE * apex_p).where(is_apex, EYE * cone_p + cone_s).where(is_ep, s + EYE * p).where(conn, NUL)
    acc = X.where(conn, X.where(is_ep, X.where(is_apex, X.sub(ep, X.mul(al, d)), X.add(ep, X.mul(mu2, m))), ep), ep)
    el = dict(DENSE)
    el.update({"ls.p_0_stack": (6, 12), "ls.eps_e_stack": (-0.003, 0.003), "p0.L_stack": (-0.01, 0.01)})
    cone = dict(DENSE)
    cone.update({"ls.p_0_stack": (6, 9), "p0.L_stack": tied_diag(0.05, 0.05, 2.0)})
    apex = dict(DENSE)
    apex.update({"p0.L_stack": tied_diag(-4.0, 0.1, 0.2), "ls.p_0_stack": (0, 1)})
    rg = regimes(("elastic", el), ("cone", cone), ("apex", apex), ("separated", LOOSE), ("mixed", DENSE))
    o = out.f["stress_stack"]
    cmp(R, "stress = documented Drucker-Prager update", name, o, st, rg)
    R_acc = lift(hist.f["eps_p_acc_stack"])
    cmp0(R, "accumulated plastic strain follows the flow rule", name, R_acc.at(Q), acc, rg)
    cmp(R, "a separated particle is stress free", name, o, NUL, regimes(("separated", LOOSE)))
    S1, e1 = stack(lift(o), Q), stack(lift(hist.f["eps_e_stack"]), Q)
    cmp(R, "stored elastic strain reproduces the stress", name, o, e1.dev() * X.mul(two, G) + EYE * X.add(X.mul(K, e1.tr()), p0),
        regimes(("elastic", el), ("cone", cone), ("apex", apex), ("mixed", DENSE)))
    cmp(R, "elastic strain of a separated particle is released", name, hist.f["eps_e_stack"], NUL, regimes(("separated", LOOSE)))
    d1 = S1.dev()
    for nm, rr in regimes(("cone", cone), ("apex", apex)):
        on = lambda e: X.where(X.and_(is_ep, conn), e, X.ZERO)
        cmp0(R, "plastic stress lies on the yield surface", name, on(X.sqrt(X.mul(X.C(0.5), d1.dd(d1)))),
             on(X.add(X.mul(mu1, X.div(S1.tr(), X.C(3))), X.mul(mu2, X.add(c0, X.mul(H, R_acc.at(Q)))))), [(nm, rr)])
    S, law, mp, ls, o2, h2 = zero_motion(R, name)
    e0 = stack(ls.f["eps_e_stack"], Q)
    cmp(R, "no deformation, elastic history stays", name, h2.f["eps_e_stack"], e0, regimes(("elastic", el)))


def f_ModifiedCamClay(R, name):
    for cfg, over in (("", {}), ("unlimited stiffness", {"K_min": None, "K_max": None})):
        mcc(R, name + (" " + cfg if cfg else ""), name, over)


def mcc(R, subj, name, over):
    S, law, mp, ls, (out, hist) = law_scene(R, name, over=over)
    _, D, W, de = parts(mp)
    kap, lam, M, nu, pm = (L_(x) for x in ("kap", "lam", "M", "nu", "p_min_calc"))
    sr = rot(stack(mp.f["stress_stack"], Q), W, DT)
    pp = X.max_(X.div(sr.tr(), X.C(3)), pm)
    ev = de.tr()
    ptr = X.mul(pp, X.exp(X.div(ev, kap)))

    def stiff(p):
        K = X.div(X.max_(p, pm), kap)
        if not over:
            K = X.clip(K, L_("K_min"), L_("K_max")) if hasattr(X, "clip") else K
        G = X.mul(X.div(X.mul(X.C(3), X.sub(X.ONE, X.mul(X.C(2), nu))), X.mul(X.C(2), X.add(X.ONE, nu))), K)
        return K, G
    K, G = stiff(X.max_(ptr, pm))
    s = sr.dev() + de.dev() * X.mul(X.C(2), G)
    pc = X.sym("ls.p_c_stack", Q)

    def yf(p, pc, q2):
        return X.add(X.div(q2, X.mul(M, M)), X.mul(p, p), X.neg(X.mul(pc, p)))
    q2 = X.mul(X.C("1.5") if False else X.div(X.C(3), X.C(2)), s.dd(s))
    is_ep = X.gt(yf(ptr, pc, q2), X.ZERO)
    v = X.div(L_("rho_p"), rho())
    conn = X.le(v, L_("N"))
    iso = tied_diag(9.0, 0.4, 0.3)
    el = {"p0.stress_stack": iso, "p0.L_stack": (-0.02, 0.02), "ls.p_c_stack": (25, 30), "p0.mass_stack": (2.0, 2.4)}
    low = dict(el)
    low.update({"p0.stress_stack": tied_diag(0.1, 0.05, 0.02), "ls.p_c_stack": (3, 5), "p0.L_stack": (-0.01, 0.01), "law.K_min": (30, 60)})
    stiffr = dict(el)
    stiffr.update({"law.K_max": (50, 60), "law.K_min": (1, 2)})
    sep = {"p0.mass_stack": (0.3, 0.4), "p0.volume_stack": (1.0, 1.2)}
    pl = {"p0.stress_stack": iso, "ls.p_c_stack": (8.0, 9.0), "p0.L_stack": tied_diag(0.1, 0.05, 0.3), "p0.mass_stack": (2.0, 2.4)}
    o, h = out.f["stress_stack"], lift(hist.f["p_c_stack"])
    cmp(R, "elastic stress = hypo-elastic Cam-clay increment", subj, o, s + EYE * ptr, regimes(("elastic", el), ("low pressure", low), ("stiffness limit", stiffr)))
    cmp0(R, "elastic steps keep the consolidation pressure", subj, h.at(Q), pc, regimes(("elastic", el), ("low pressure", low), ("separated", sep)))
    cmp(R, "a separated particle is stress free", subj, o, NUL, regimes(("separated", sep)))
    ee = stack(ls.f["eps_e_stack"], Q)
    cmp(R, "elastic strain history turns with the material and gains the strain increment", subj, hist.f["eps_e_stack"], rot(ee, W, DT) + de,
        regimes(("elastic", el), ("low pressure", low), ("stiffness limit", stiffr)))
    if not PLANE[0]:
        *_, h2 = zero_motion(R, name, over=over)
        for nm, rg in (("elastic", el), ("separated", sep)):
            cmp(R, "no deformation, elastic history stays", subj, h2.f["eps_e_stack"], ee, regimes((nm, rg)))
    loops = [k for k in S.it.scans if vec2(k.init)]
    if len(loops) != 1:
        R.ob("return iteration solves yield condition and flow rule", subj, None, "%d candidate loops" % len(loops))
        return
    lp = loops[0]
    pl[lp.tag + "*"] = sol
    # plastic branch: relations that hold whatever multiplier the iteration ends with
    S1 = stack(lift(o), Q)
    rp = regimes(("plastic", pl))
    on = lambda e: X.where(X.and_(is_ep, conn), e, X.ZERO)
    p1, d1 = X.div(S1.tr(), X.C(3)), S1.dev()
    cmp(R, "plastic stress deviator is radial to the trial deviator", subj, Arr((size("N0"), 3, 3), lambda q, j, k: on(X.mul(d1.at(j, k), s(0, 0))), "f"),
        T(lambda i, j: on(X.mul(d1(0, 0), s(i, j)))), rp)
    cmp0(R, "pressure and hardening share the volumetric strain", subj, on(X.mul(kap, X.log(X.div(p1, pp)))),
         on(X.sub(ev, X.mul(X.sub(lam, kap), X.log(X.div(h.at(Q), pc))))), rp)
    K1, G1 = stiff(p1)
    ref = stack(ls.f["stress_ref_stack"], Q)
    e1 = stack(lift(hist.f["eps_e_stack"]), Q)
    pr = dict(pl)
    pr["ls.stress_ref_stack"] = tied_diag(5.0, 0.5, 0.3)
    cmp(R, "stored elastic strain reproduces the stress change since the reference state", subj, Arr((size("N0"), 3, 3), lambda q, j, k: on(e1.at(j, k)), "f"),
        T(lambda i, j: on(X.add(X.div((d1 - ref.dev())(i, j), X.mul(X.C(2), G1)), X.div(X.sub(p1, X.div(ref.tr(), X.C(3))), X.mul(X.C(3), K1)) if i == j else X.ZERO))), regimes(("plastic", pr)))
    x = vec2(lp.carry)
    a, u = x.at(X.C(0)), x.at(X.C(1))
    xa, xu = X.sym("nr.a"), X.sym("nr.u")
    pcn = X.exp(xu)
    epv = X.mul(X.sub(lam, kap), X.sub(xu, X.log(pc)))
    pn = X.mul(pp, X.exp(X.div(X.sub(ev, epv), kap)))
    _, Gn = stiff(pn)
    f = X.div(X.ONE, X.add(X.ONE, X.mul(X.C(6), Gn, xa)))
    R1 = yf(pn, pcn, X.mul(q2, f, f))
    R2 = X.sub(X.mul(xa, M, M, X.sub(X.mul(X.C(2), pn), pcn)), epv)
    J = [[X.diff(r, w) for w in (xa, xu)] for r in (R1, R2)]
    dt_ = X.sub(X.mul(J[0][0], J[1][1]), X.mul(J[0][1], J[1][0]))
    da = X.neg(X.div(X.sub(X.mul(J[1][1], R1), X.mul(J[0][1], R2)), dt_))
    du = X.neg(X.div(X.sub(X.mul(J[0][0], R2), X.mul(J[1][0], R1)), dt_))
    back = {xa: a, xu: u}
    da, du = X.subst(da, back), X.subst(du, back)
    nxt = vec2(lp.out_carry)
    na, nu_ = nxt.at(X.C(0)), nxt.at(X.C(1))
    rows = {v: Q for v in X.bvs(na) | X.bvs(nu_)}          # the particle axis of the enclosing map
    if len(rows) > 1:
        raise Unknown("return iteration over several axes")
    na, nu_ = X.subst(na, rows), X.subst(nu_, rows)
    # damping factor read off one random point; then the same factor must fit both components everywhere
    floor_ = dict(pl)
    floor_.update({"law.p_min_calc": (9.5, 12), "law.kap": (0.3, 0.5), "law.lam": (0.6, 0.8)})
    for nm, rg in rp + regimes(("pressure floor active", floor_)):
        sp = {k: w for k, w in rg.items() if callable(w)}
        rr = {k: w for k, w in rg.items() if not callable(w)}
        if is_top(na, nu_):
            R.ob("return iteration solves yield condition and flow rule", subj, None, "iteration step not known")
            return
        if nm == "plastic":
            env = X.Env(1, rr, None, sp)
            try:
                damp = (env.ev(nu_) - env.ev(u)) / env.ev(du)
            except Exception:
                R.ob("return iteration solves yield condition and flow rule", subj, None, "no value")
                return
            ok = 0 < damp <= 1.0000001
            R.ob("return iteration steps towards the solution", subj, ok, "damping factor %.6g" % damp, lp.loc)
            dm = X.C(round(damp, 9))
        R.eq("return iteration solves yield condition and flow rule", subj + " consolidation pressure", nu_, X.max_(X.add(u, X.mul(dm, du)), X.log(pm)), ranges=rr, special=sp, loc=lp.loc)
        R.eq("return iteration solves yield condition and flow rule", subj + " multiplier", na, X.max_(X.add(a, X.mul(dm, da)), X.ZERO), ranges=rr, special=sp, loc=lp.loc)


def is_top(*es):
    return any(e.top for e in es)


def vec2(v):
    from sa.report import comps
    if isinstance(v, (tuple, PList)):
        c = [vec2(x) for x in (v if isinstance(v, tuple) else v.items)]
        c = [x for x in c if x is not None]
        return c[0] if len(c) == 1 else None
    if isinstance(v, Arr) and v.shape == (2,):
        return v
    return None


def sol(env, name, idx):
    """(multiplier, log consolidation pressure) near a solution"""
    from sa.expr import _h
    u = _h(env.seed, name, idx)
    return 0.001 + 0.003 * u if idx and idx[-1] == 0 else 2.1 + 0.2 * u
