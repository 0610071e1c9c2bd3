"""C23 initial states reproduce the density, pressure and history that were requested"""
from .laws import *
from .c11 import PAR, tied_diag
from .tens import *

L_ = lambda n: X.sym("law." + n)
N0 = size("N0")
Q = P
RG = dict(PAR)
RG.update({"in.rho": (1.2, 2.2), "in.p": (1.0, 6.0), "in.q": (0.05, 0.3), "in.ocr": (1.2, 3.0), "law.rho_p": (2, 3), "law.N": (2.5, 3.5), "in.V": (0.5, 2), "in.m": (0.5, 2),
           "cell": (0.2, 0.6), "ppc": (2, 9), "in.rho0": (0.5, 2), "g": (5, 10), "slope": (5, 40), "k0": (0.3, 0.7), "in.z": (0.5, 3)})


def col(n):
    return sym_arr("in." + n, (N0,))


def run(R):
    R.ranges = RG
    for name in ("NewtonFluid", "MuI_LC"):
        with R.group("%s from density" % name):
            fluid(R, name)
    with R.group("DruckerPrager"):
        dp(R)
    with R.group("LinearElasticLaw"):
        le(R)
    for k in ("ocr", "ocr scalar", "ocr and shear", "stress", "density", "default"):
        with R.group("ModifiedCamClay from %s" % k):
            mcc(R, k)
    for dim in (3, 2):
        with R.group("particles %dD" % dim):
            particles(R, dim)
    with R.group("initial stress helpers"):
        helpers(R)


def still(S, law, ls, rho=None, **over):
    """the law evaluated on undeformed particles of density rho (mass rho*V in volume V)"""
    mp = S.body(0)
    V = sym_arr("in.V", (N0,))
    f = dict(L_stack=Arr((N0, 3, 3), lambda *i: X.ZERO, "f"), volume_stack=V, volume0_stack=V)
    if rho is not None:
        f["mass_stack"] = Arr((N0,), lambda q: X.mul(rho.at(q), V.at(q)), "f")
    f.update(over)
    mp = obj_with(mp, **f)
    r = S.it.iterate(S.call(law, "update", mp, ls, pyfloat("dt")), 2)
    return mp, r[0], r[1]


def pressure(o):
    s = stack(lift(o.f["stress_stack"]), Q)
    return X.div(s.tr(), X.C(3))


def complete(R, subj, ls):
    for f, v in ls.f.items():
        R.ob("created state has every history field", "%s %s" % (subj, f), None if isinstance(v, Top) else v is not None, "%s is None" % f if v is None else "")


def fluid(R, name):
    for pressure_given in (True, False):
        S = R.use(Scene(3))
        law = law_obj(S, name)
        rho, p = col("rho"), col("p")
        ls = S.call(law, "create_state_from_density", rho, p) if pressure_given else S.call(law, "create_state_from_density", rho)
        subj = "%s %s" % (name, "with pressure" if pressure_given else "without pressure")
        complete(R, subj, ls)
        mp, o, h = still(S, law, ls, rho)
        if pressure_given:
            R.eq("undeformed material has the requested pressure", subj, pressure(o), X.sym("in.p", Q))
            kw = S.call(law, "create_state_from_density", density_stack=rho, pressure_stack=p)
            unchanged(R, "keyword and positional creation agree", subj, kw, ls)
        else:
            R.eqa("without pressure the reference density is the given density", subj, ls.f["density_ref_stack"], lambda q: X.sym("in.rho", q))
    # default creation from particles
    S = R.use(Scene(3))
    law = law_obj(S, name)
    mp = S.body(0)
    V = sym_arr("in.V", (N0,))
    sig = Arr((N0, 3, 3), lambda q, j, k: X.where(X.eq(j, k), X.sym("in.p", q), X.ZERO), "f")
    mp = obj_with(mp, volume_stack=V, volume0_stack=V, stress_stack=sig, L_stack=Arr((N0, 3, 3), lambda *i: X.ZERO, "f"), mass_stack=sym_arr("in.m", (N0,)))
    ls = S.call(law, "create_state", mp)
    complete(R, name + " from particles", ls)
    o, h = S.it.iterate(S.call(law, "update", mp, ls, pyfloat("dt")), 2)
    R.eq("undeformed material has the particles' pressure", name, pressure(o), X.sym("in.p", Q))


def dp(R):
    S = R.use(Scene(3))
    law = law_obj(S, "DruckerPrager")
    sig = sym_arr("in.sig", (N0, 3, 3))
    ls = S.call(law, "create_state", sig)
    complete(R, "DruckerPrager", ls)
    s = stack(sig, Q)
    R.eq("reference pressure is the pressure of the given stress", "DruckerPrager", lift(ls.f["p_0_stack"]).at(Q), X.div(s.tr(), X.C(3)))
    R.eqa("initial elastic strain is zero", "DruckerPrager", ls.f["eps_e_stack"], lambda q, j, k: X.ZERO)
    R.eqa("initial plastic strain is zero", "DruckerPrager", ls.f["eps_p_acc_stack"], lambda q: X.ZERO)
    mp, o, h = still(S, law, ls, col("rho"))
    rg = dict(RG)
    R.eqa("undeformed material has the requested pressure", "DruckerPrager", o.f["stress_stack"], lambda q, j, k: X.where(X.eq(j, k), X.div(s.tr(), X.C(3)), X.ZERO),
          idx={0: Q}, ranges=rg, special={"in.sig": tied_diag(5.0, 1.0, 0.5)})


def le(R):
    S = R.use(Scene(3))
    law = law_obj(S, "LinearElasticLaw")
    mp = S.body(0)
    ls = S.call(law, "create_state", mp)
    complete(R, "LinearElasticLaw", ls)
    unchanged(R, "reference stress is the particles' stress", "LinearElasticLaw", ls.f["stress_ref_stack"], mp.f["stress_stack"])
    ls = S.call(law, "create_state", material_points=None, stress_ref_stack=sym_arr("in.sig", (N0, 3, 3)))
    R.eqa("given reference stress is stored", "LinearElasticLaw", ls.f["stress_ref_stack"], lambda *i: X.sym("in.sig", *i))
    ls = S.call(law, "create_state", density_stack=col("rho"))
    R.eqa("stress-free reference without particles", "LinearElasticLaw", ls.f["stress_ref_stack"], lambda *i: X.ZERO)
    mp, o, h = still(S, law, ls, col("rho"))
    unchanged(R, "undeformed material keeps its stress", "LinearElasticLaw", o.f["stress_stack"], mp.f["stress_stack"])


def swelling(pc, p):
    """specific volume on the swelling line through the consolidation pressure"""
    return X.mul(L_("N"), X.power(X.div(L_("p_ref"), pc), L_("lam")), X.power(X.div(pc, p), L_("kap")))


def pq(ls_or_stress):
    s = stack(lift(ls_or_stress), Q)
    d = s.dev()
    return X.div(s.tr(), X.C(3)), X.sqrt(X.mul(X.div(X.C(3), X.C(2)), d.dd(d))), s


def mcc(R, kind):
    S = R.use(Scene(3))
    law = law_obj(S, "ModifiedCamClay")
    p, q, rho = col("p"), col("q"), col("rho")
    subj = "ModifiedCamClay from " + kind
    sp, sq, M = X.sym("in.p", Q), X.sym("in.q", Q), L_("M")
    rg = dict(RG)
    if kind == "default":
        mp = S.body(0)
        mp = obj_with(mp, stress_stack=Arr((N0, 3, 3), lambda q, j, k: X.where(X.eq(j, k), X.sym("in.p", q), X.ZERO), "f"))
        ls = S.call(law, "create_state", mp)
        complete(R, subj, ls)
        R.eqa("normally consolidated at the particles' pressure", subj, ls.f["p_c_stack"], lambda i: X.sym("in.p", i))
        gp, gq, s = pq(ls.f["stress_ref_stack"])
        R.eq("reference stress carries the particles' pressure", subj, gp, sp)
        return
    if kind.startswith("ocr"):
        ocr = col("ocr") if kind != "ocr scalar" else pyfloat("in.ocr1")
        rg["in.ocr1"] = (1.2, 3.0)
        so = X.sym("in.ocr", Q) if kind != "ocr scalar" else X.sym("in.ocr1")
        args = [p, ocr] + ([q] if "shear" in kind else [])
        ls, sig, den = S.it.iterate(S.call(law, "create_state_from_ocr", *args), 3)
        pc = X.mul(sp, so)
        wq = sq if "shear" in kind else X.ZERO
    elif kind == "stress":
        ls, den = S.it.iterate(S.call(law, "create_state_from_stress", p, q), 2)
        pc = X.add(sp, X.div(X.mul(sq, sq), X.mul(M, M, sp)))
        wq, sig = sq, ls.f["stress_ref_stack"]
    else:
        ls, vol = S.it.iterate(S.call(law, "create_state_from_density", p, rho), 2)
        wq, sig, den = X.ZERO, ls.f["stress_ref_stack"], None
        R.eqa("specific volume = grain density over density", subj, vol, lambda i: X.div(L_("rho_p"), X.sym("in.rho", i)), ranges=rg)
        R.eq("density and pressure lie on the swelling line of the stored consolidation pressure", subj, swelling(lift(ls.f["p_c_stack"]).at(Q), sp),
             X.div(L_("rho_p"), X.sym("in.rho", Q)), ranges=rg)
        pc = None
    complete(R, subj, ls)
    if pc is not None:
        R.eq("consolidation pressure follows from the request", subj, lift(ls.f["p_c_stack"]).at(Q), pc, ranges=rg)
        R.eq("density lies on the swelling line", subj, lift(den).at(Q), X.div(L_("rho_p"), swelling(pc, sp)), ranges=rg)
    gp, gq, s = pq(sig)
    R.eq("initial stress has the requested pressure", subj, gp, sp, ranges=rg)
    R.eq("initial stress has the requested shear stress", subj, gq, wq, ranges=rg)
    unchanged(R, "reference stress is the initial stress", subj, ls.f["stress_ref_stack"], sig)
    R.eqa("initial stress is symmetric", subj, sig, lambda i, j, k: lift(sig).at(i, k, j), ranges=rg)
    if "shear" in kind:
        r2 = dict(rg)
        r2["in.q"] = (30, 40)
        R.eq("shear beyond the yield surface is brought back to it", subj, gq, X.mul(M, sp, X.sqrt(X.sub(so, X.ONE))), ranges=r2)
    # undeformed, dense enough particles keep that stress
    r3 = dict(rg)
    r3.update({"law.N": (50, 60), "law.p_min_calc": (0.1, 0.2), "in.ocr": (1.5, 3.0), "in.ocr1": (1.5, 3.0)})
    if kind not in ("density", "stress"):
        mp, o, h = still(S, law, ls, col("rho"), stress_stack=lift(sig))
        R.eqa("undeformed material keeps the initial stress", subj, o.f["stress_stack"], lambda i, j, k: lift(sig).at(i, j, k), idx={0: Q}, ranges=r3)
        R.eqa("undeformed material keeps its consolidation pressure", subj, h.f["p_c_stack"], lambda i: lift(ls.f["p_c_stack"]).at(i), ranges=r3)


def particles(R, dim):
    S = R.use(Scene(dim))
    c = S.cls("MaterialPointState")
    pos = sym_arr("in.x", (N0, dim))
    mk = lambda **kw: S.it.call(S.it.getattr(c, "create"), [], dict(position_stack=pos, **kw))
    subj = "%dD" % dim
    one = lambda i: X.ONE
    m = mk(cell_size=pyfloat("cell"), points_per_cell=pyfloat("ppc"))
    vol = X.div(X.power(X.sym("cell"), X.C(dim)), X.sym("ppc"))
    R.eqa("default volume = cell volume / points per cell", subj, m.f["volume_stack"], lambda q: vol)
    R.eqa("reference volume = initial volume", subj, m.f["volume0_stack"], lambda q: vol)
    R.eqa("default mass = 1000 * volume", subj, m.f["mass_stack"], lambda q: X.mul(X.C(1000), vol))
    m = mk(cell_size=pyfloat("cell"), points_per_cell=pyfloat("ppc"), density_stack=sym_arr("in.rho0", (N0,)))
    R.eqa("mass = density * volume", subj, m.f["mass_stack"], lambda q: X.mul(X.sym("in.rho0", q), vol))
    m = mk()
    R.eqa("positions are the given ones", subj, m.f["position_stack"], lambda q, k: X.sym("in.x", q, k))
    R.eqa("particles start at rest", subj, m.f["velocity_stack"], lambda q, k: X.ZERO)
    R.eqa("particles start without force", subj, m.f["force_stack"], lambda q, k: X.ZERO)
    R.eqa("particles start stress free", subj, m.f["stress_stack"], lambda *i: X.ZERO)
    R.eqa("particles start without velocity gradient", subj, m.f["L_stack"], lambda *i: X.ZERO)
    R.eqa("particles start undeformed", subj, m.f["F_stack"], lambda q, j, k: X.where(X.eq(j, k), X.ONE, X.ZERO))
    R.ob("no stored deformation gradient unless requested", subj, m.f["F_store_stack"] is None, "")
    R.eqa("default mass density", subj, m.f["mass_stack"], lambda q: X.mul(X.C(1000), lift(m.f["volume_stack"]).at(q)))
    given = dict(velocity_stack=(N0, dim), force_stack=(N0, dim), mass_stack=(N0,), volume_stack=(N0,), volume0_stack=(N0,), L_stack=(N0, 3, 3), stress_stack=(N0, 3, 3), F_stack=(N0, 3, 3))
    m = mk(store_F=True, **{k: sym_arr("in." + k, v) for k, v in given.items()})
    for k in given:
        R.eqa("given fields are stored unchanged", subj + " " + k, m.f[k], lambda *i, k=k: X.sym("in." + k, *i))
    R.eqa("stored deformation gradient starts as the deformation gradient", subj, m.f["F_store_stack"], lambda *i: X.sym("in.F_stack", *i))
    m = mk(volume_stack=sym_arr("in.V", (N0,)))
    R.eqa("reference volume = initial volume", subj + " given volume", m.f["volume0_stack"], lambda q: X.sym("in.V", q))
    m = mk(volume_stack=sym_arr("in.V", (N0,)), volume0_stack=sym_arr("in.V0", (N0,)), density_stack=sym_arr("in.rho0", (N0,)))
    R.eqa("mass = density * volume", subj + " given reference volume", m.f["mass_stack"], lambda q: X.mul(X.sym("in.rho0", q), X.sym("in.V", q)))
    R.eqa("given fields are stored unchanged", subj + " reference volume", m.f["volume0_stack"], lambda q: X.sym("in.V0", q))
    R.eqa("given fields are stored unchanged", subj + " volume", m.f["volume_stack"], lambda q: X.sym("in.V", q))
    r = S.it.call(S.it.getattr(S.cls("RigidMaterialPointState"), "create"), [], dict(position_stack=pos))
    R.eqa("rigid particles keep their positions", subj, r.f["position_stack"], lambda q, k: X.sym("in.x", q, k))
    R.eqa("rigid particles start at rest", subj, r.f["velocity_stack"], lambda q, k: X.ZERO)


def helpers(R):
    S = R.use(Scene(3))
    mod = S.cls
    s = S.it.call(mod("reconstruct_stress_from_triaxial"), [], dict(p_stack=col("p"), q_stack=col("q")))
    gp, gq, t = pq(s)
    R.eq("triaxial stress has the given pressure", "reconstruct_stress_from_triaxial", gp, X.sym("in.p", Q))
    R.eq("triaxial stress has the given shear stress", "reconstruct_stress_from_triaxial", gq, X.sym("in.q", Q))
    th = X.mul(X.sym("slope"), X.div(X.PI, X.C(180)))
    r = S.it.iterate(S.it.call(mod("precondition_from_lithostatic"), [], dict(density_stack=col("rho"), depth_stack=col("z"), gravity=pyfloat("g"), slope_angle_deg=pyfloat("slope"), k0=pyfloat("k0"))), 2)
    w = X.mul(X.sym("in.rho", Q), X.sym("g"), X.sym("in.z", Q))
    sv = X.mul(w, X.func("cos", th))
    tau = X.mul(w, X.func("sin", th))
    sh = X.mul(X.sym("k0"), sv)
    R.eq("lithostatic pressure", "precondition_from_lithostatic", lift(r[0]).at(Q), X.div(X.add(sv, sh, sh), X.C(3)))
    R.eq("lithostatic shear stress", "precondition_from_lithostatic", lift(r[1]).at(Q), X.sqrt(X.add(X.power(X.sub(sv, sh), X.C(2)), X.mul(X.C(3), tau, tau))))
