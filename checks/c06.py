"""C06 dimensional homogeneity

Every physical symbol of a scene carries a dimension (mass, length, time).  The value graph of each result is evaluated twice, before and after a change of
units (all symbols scaled by the factor of their dimension); the result must scale by the factor of the dimension it is stored as.  A sum, comparison or
selection between different dimensions does not scale.  Plane problems use volume = L^2 and mass per unit thickness."""
import math

from . import c10, c13, c18, c24
from .c11 import PAR, DENSE, LOOSE, tied_diag, vec2
from .c18 import leaves, moments, obstacle_scene, both, ident, OR
from .common import *
from .common import run as step
from .g2p import G2P, G2P_RANGES, VARIANTS, params
from .laws import law_obj, law_scene

RULE = "a change of units rescales the result by its dimension"
N0 = size("N0")
UNITS = ((4.0, 16.0, 0.25), (16.0, 0.25, 4.0), (0.25, 16.0, 0.5), (1 / 64, 16.0, 2.0))
TOL = 1e-4


def dims(dim):
    """dimension (M, L, T) by field or parameter name, 2D: per unit thickness"""
    M = (1, dim - 3, 0)
    add = lambda a, *b: tuple(sum(x) for x in zip(a, *b))
    one, L, T = (0, 0, 0), (0, 1, 0), (0, 0, 1)
    vel, acc, rate = (0, 1, -1), (0, 1, -2), (0, 0, -1)
    V, S, rho = (0, dim, 0), (1, -1, -2), (1, -3, 0)
    F = add(M, acc)
    P_ = add(M, vel)
    D = {"position_stack": L, "velocity_stack": vel, "mass_stack": M, "volume_stack": V, "volume0_stack": V, "F_stack": one, "F_store_stack": one, "L_stack": rate,
         "stress_stack": S, "force_stack": F, "normal_stack": one, "moment_stack": P_, "moment_nt_stack": P_, "time": T, "dt": T, "step": one,
         "density_stack": rho, "density_ref_stack": rho, "stress_ref_stack": S, "eps_e_stack": one, "eps_p_acc_stack": one, "p_0_stack": S, "p_c_stack": S,
         "N": one, "dN": (0, -1, 0), "rel": one, "mask": one, "shape_vals": one, "shape_grads": (0, -1, 0), "rel_dist": one, "cpic_mask": one,
         "node_hashes": one, "point_ids": one, "stencil_ids": one,
         # solver parameters
         "alpha": one, "smin": one, "smax": one, "bmin": one, "bmax": one, "cfl": one, "cut": M, "gain": one, "fstate0": one, "gap": L, "h": L, "safety": one,
         # laws
         "law.E": S, "law.K": S, "law.nu": one, "law.viscosity": add(S, T), "law.beta": one, "law.mu_s": one, "law.mu_d": one, "law.I_0": one, "law.d_p": L, "law.rho_p": rho,
         "law.alpha": rate, "law.p_min_calc": S, "law.mu_1": one, "law.mu_2": one, "law.c0": S, "law.mu_1_hat": one, "law.H": S, "law.rho_0": rho, "law.M": one, "law.lam": one,
         "law.kap": one, "law.N": one, "law.p_ref": S, "law.K_min": S, "law.K_max": S,
         # obstacles
         "center_of_mass": L, "rotation": one, "velocity": vel, "angular_velocity": rate, "c": L, "x": L, "th": one, "u": one, "v": vel, "w": rate,
         "dists": L, "normals": one, "wall_vels": vel, "friction": one, "radius": L, "size": L, "height": L, "outer_radius": L, "inner_radius": L, "major_r": L, "minor_r": L,
         "normal": one, "origin": L, "end": L, "frictions": one, "wall_offset": L, "gravity": acc}
    for p in ("gm",):
        D[p] = M
    for p in ("gp", "gn", "gv"):
        D[p] = P_
    D["gf"], D["pf"], D["acc"], D["damp"], D["fric"] = F, F, acc, one, one
    D["od"], D["on"], D["ov"], D["of"] = L, one, vel, one
    D["pressure"], D["energy"], D["one"], D["len"], D["rate"], D["vel"], D["S"], D["mass"], D["rho"], D["force"], D["moment"], D["stress"], D["acc"] = S, add(M, vel, vel), one, L, rate, vel, S, M, rho, F, P_, S, acc
    D["V"] = V
    return D


class Units:
    def __init__(self, dim, extra=None):
        self.D = dims(dim)
        self.D.update(extra or {})
        self.missing = set()

    def of(self, name):
        """dimension of a symbol: by full name, by last path component, or by its tag without the trailing number"""
        D = self.D
        for k in (name, ".".join(name.split(".")[:-1]), name.split(".")[-1], name.rstrip("0123456789'"), name.split(".")[-1].rstrip("0123456789'")):
            if k in D:
                return D[k]
        self.missing.add(name)
        raise Unknown("no dimension known for %s" % name)


class UEnv(X.Env):
    def __init__(self, seed, ranges, special, units, lam):
        X.Env.__init__(self, seed, ranges, None, special)
        self.u, self.lam = units, lam

    def symbol(self, name, idx):
        v = X.Env.symbol(self, name, idx)
        if name.startswith("#") or name in X.INTSYM:
            return v
        d = self.u.of(name)
        if isinstance(d, list):
            d = d[int(idx[-1])]
        if d[0] == "log":
            return v + math.log(factor(self.lam, d[1]))
        return v * factor(self.lam, d)


def factor(lam, d):
    return lam[0] ** d[0] * lam[1] ** d[1] * lam[2] ** d[2]


def scales(U, e, d, rg, special, seeds, n=None):
    """True, a counterexample, or a reason (string) why it cannot be told"""
    if e is None or e.top:
        return "unknown value"
    for s in range(1, seeds + 1):
        base = UEnv(s, rg, special, U, (1.0, 1.0, 1.0)).ev(e)
        for lam in UNITS:
            got = UEnv(s, rg, special, U, lam).ev(e)
            if n is not None:
                n[0] += 1
            if isinstance(got, bool) or isinstance(base, bool):
                if got != base:
                    return (base, got, base, lam)
                continue
            if not math.isfinite(float(base)):
                return "not finite at a sample"
            if d[0] == "log":
                f, exp = 1.0, base + math.log(factor(lam, d[1]))
            else:
                f = factor(lam, d)
                exp = base * f
            if not (abs(got - exp) <= TOL * max(abs(got), abs(exp)) or abs(got / f) < 1e-9 and abs(base) < 1e-9):
                return (base, got, exp, lam)
    return True


def homog(R, U, subject, val, want=None, ranges=None, special=None, seeds=3, loc=None):
    """want: name of the dimension of a single result, or None when every leaf is a field whose name says it"""
    rg = dict(R.ranges)
    rg.update(ranges or {})
    groups = {}
    for path, e, src in leaves(val):
        groups.setdefault(path, []).append((e, src))
    for path, es in groups.items():
        field = path.split(".")[-1].split("[")[0]
        if want is not None:
            d = U.D[want] if isinstance(want, str) else want
        elif field in U.D:
            d = U.D[field]
        elif field.startswith("_") or field in IGNORED:
            continue
        else:
            R.ob(RULE, "%s %s" % (subject, path), None, "dimension of %s not declared" % field)
            continue
        bad, und, n = None, None, [0]
        try:
            for e, src in es:
                v = scales(U, e, d, rg, special, (4 if R.tier == "thorough" else 1) * seeds, n)
                if isinstance(v, str):
                    und = v
                elif v is not True:
                    bad = (e, src) + v
                    break
        except Unknown as u:
            und = str(u)
        subj = "%s %s" % (subject, path)
        if bad:
            e, src, base, got, exp, lam = bad
            R.ob(RULE, subj, False, "units of mass, length, time changed by %s: %.6g becomes %.6g instead of %.6g (dimension %s); value %s" % (lam, base, got, exp, d, X.show(e, 200)), loc or src)
        else:
            R.ob(RULE, subj, None if und else True, und or "%d rescaled evaluations agree (dimension %s)" % (n[0], (d,)))


IGNORED = {"requires_F_reset", "error_check", "setup"}


def run(R):
    R.ranges = dict(RANGES)
    for dim in (3, 2):
        for scheme in SCHEMES:
            for vn, kw in VARIANTS[scheme]:
                for kernel in (("cubic", "quadratic") if kw.get("use_mls_update") is False else ("cubic",)):
                    with R.group("%s %dD %s %s" % (scheme, dim, vn, kernel)):
                        gather(R, scheme, dim, kw, kernel)
            with R.group("%s %dD scatter" % (scheme, dim)):
                scatter(R, scheme, dim)
            with R.group("%s %dD collider" % (scheme, dim)):
                collider(R, scheme, dim)
            with R.group("%s %dD obstacle on particles" % (scheme, dim)):
                near(R, scheme, dim)
            with R.group("%s %dD body contact" % (scheme, dim)):
                contact(R, scheme, dim)
            with R.group("%s %dD body forces" % (scheme, dim)):
                body_forces(R, scheme, dim)
        for law in ("LinearElasticLaw", "NewtonFluid", "MuI_LC", "DruckerPrager", "ModifiedCamClay"):
            with R.group("%s %dD" % (law, dim)):
                laws(R, law, dim)
        with R.group("obstacle shapes %dD" % dim):
            shapes(R, dim)
        with R.group("obstacle motion %dD" % dim):
            motion(R, dim)
        with R.group("particle quantities %dD" % dim):
            derived(R, dim)
        for kernel in ("linear", "quadratic", "cubic"):
            with R.group("%s stencil %dD" % (kernel, dim)):
                stencil(R, dim, kernel)
        with R.group("grid projection %dD" % dim):
            projection(R, dim)
    with R.group("helpers"):
        helpers(R)


SPEC_F = {"p%d.F_stack" % k: (lambda env, n, i: (1.0 if int(i[-1]) == int(i[-2]) else 0.0) + 0.1 * (2 * X._h(env.seed, n, i) - 1)) for k in range(3)}
SPEC_F.update({k.replace("F_stack", "F_store_stack"): v for k, v in list(SPEC_F.items())})


def memory(scheme, kw):
    """dimension of the stored affine matrix: what multiplies a length to give a velocity"""
    return {"Bp_stack": (0, 0, -1)}


def gather(R, scheme, dim, kw, kernel):
    g = G2P(R, scheme, dim, kw, kernel=kernel, store_F=True)
    U = Units(dim, memory(scheme, kw))
    # F here is identity + symbol/5: the symbol itself is a strain
    homog(R, U, R.cur, g.out(0), ranges=G2P_RANGES)
    homog(R, U, R.cur + " light nodes", g.out(0), ranges=dict(G2P_RANGES, **{"gm*": (0.5, 2.0), "cut": (0.5, 2.0)}))
    homog(R, U, R.cur + " memory", g.mem(0), ranges=G2P_RANGES)
    m = g.law_mp(0)
    if m is not None:
        homog(R, U, R.cur + " seen by the law", m, ranges=G2P_RANGES)
    homog(R, U, R.cur + " clock", g.st.out.f["time"] if "time" in g.st.out.f else None, "time", ranges=G2P_RANGES)


def given(S):
    """force setting the particles' external forces before they are transferred"""
    act = c24.marks(S, S.dim, 1)
    return lambda h, b: act(h, b) if h == "apply_pre_p2g" else None


def scatter(R, scheme, dim):
    S = R.use(Scene(dim))
    log = []
    st = make(S, scheme, [Body(0, 0, 0, 0)], log=log, store_F=True, forces=(S.probe_force(0, log, given(S)),), params=params(scheme, VARIANTS[scheme][0][1]))
    step(S, st)
    U = Units(dim, memory(scheme, {}))
    for h in ("apply_grid_forces", "apply_grid_moments"):
        for e in hook(st, h):
            for k, g in enumerate(grids_of(S, e[3]["sim_cache"])):
                homog(R, U, "%s %s grid %d" % (R.cur, h, k), obj_with(g, **{f: v for f, v in g.f.items()}), ranges=G2P_RANGES, special=SPEC_F)


def after(S, st, log, k):
    """grids as the probe force k sees them in the moment phase"""
    e = [e for e in log if e[0] == "hook" and e[1] == k and e[2] == "apply_grid_moments"]
    return grids_of(S, e[-1][3]["sim_cache"]) if e else []


def obstacles(R, scheme, dim, forces, nsdf, bodies, shared=False):
    S = R.use(Scene(dim))
    if shared:
        dom = S.domain
        S.domain = lambda g: dom(0)
    log = []
    fs = [S.probe_force(0, log, moments(S))] + forces(S)
    fs.append(S.probe_force(len(fs), log))
    st = make(S, scheme, bodies, forces=fs, log=log, params=params(scheme, VARIANTS[scheme][0][1]))
    st.sdfs = tuple(c18.plain(S, k) for k in range(nsdf))
    st.sdf_states = tuple(S.sym_obj("SDFObjectState", "sdf%d" % k) for k in range(nsdf))
    st.solver = obj_with(st.solver, sdf_logics=st.sdfs)
    st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=st.force_states, sdfs=st.sdf_states)
    step(S, st)
    return S, st, log, len(fs) - 1


def outcome(R, dim, scheme, S, st, log, last, **kw):
    U = Units(dim, memory(scheme, {}))
    for k, g in enumerate(after(S, st, log, last)):
        homog(R, U, "%s grid %d" % (R.cur, k), g, **kw)
    for p, m in enumerate(S.it.iterate(S.get(st.out, "world", "material_points"))):
        homog(R, U, "%s body %d" % (R.cur, p), m, **kw)


CFF = {"p%d.F_stack" % k: ident("F")["F"] for k in range(3)}


def collider(R, scheme, dim):
    S, st, log, last = obstacles(R, scheme, dim, lambda S: [S.new("SDFCollider", sdf_idx=0, g_idx_list=PList([0]), friction=pyfloat("fric0"), gap=pyfloat("gap"))], 1, [Body(0, 0, 0, 0)])
    for nm, rr in {"inside": {"od*": (-0.9, -0.05)}, "near the surface": {"od*": (0.0, 0.5), "gap": (0.6, 0.9)}, "outside": {"od*": (1.0, 2.0)}, "at the gap": {"od*": (0.1, 1.5), "gap": (0.1, 1.5)}}.items():
        old = R.cur
        R.cur = "%s, %s" % (old, nm)
        outcome(R, dim, scheme, S, st, log, last, ranges=dict(OR, **rr), special=CFF)
        R.cur = old


def near(R, scheme, dim):
    S, st, log, last = obstacles(R, scheme, dim, lambda S: [], 2, [Body(0, 0, 0, 0)])
    outcome(R, dim, scheme, S, st, log, last, ranges=OR, special=CFF)


def contact(R, scheme, dim):
    mk = lambda S: [S.new("GridContact", couple_idx_actor=1, couple_idx_receiver=0, is_reaction=True, friction=pyfloat("fric0"))]
    S, st, log, last = obstacles(R, scheme, dim, mk, 0, [Body(0, 0, 0, 0), Body(1, 1, 1, 1)], shared=True)
    outcome(R, dim, scheme, S, st, log, last, ranges=OR, special=CFF)
    old = R.cur
    R.cur = old + ", overlapping"
    outcome(R, dim, scheme, S, st, log, last, ranges=dict(OR, **{"p0.volume0_stack": (2000.0, 4000.0), "p1.volume0_stack": (2000.0, 4000.0), "p*.position_stack": (0, 2)}), special=CFF, seeds=6)
    R.cur = old


def body_forces(R, scheme, dim):
    for on in (True, False):
        S = R.use(Scene(dim))
        log = []
        fs = [S.probe_force(0, log, c24.marks(S, dim, 1)), c24.make_force(S, ("d", on, [0], [0], 1)), c24.make_force(S, ("g", on, [0], [0], 2)), S.probe_force(1, log)]
        st = make(S, scheme, [Body(0, 0, 0, 0)], log=log, forces=fs)
        st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=[st.force_states[0], c24.force_state(S, "d", 1), c24.force_state(S, "g", 2)])
        step(S, st)
        U = Units(dim, memory(scheme, {}))
        for h in ("apply_pre_p2g", "apply_grid_forces"):
            for e in hook(st, h, 1):
                homog(R, U, "%s on_grid=%s %s" % (R.cur, on, h), e[3]["world"].f["material_points"], ranges=c24.FR, special=CFF)
                for k, g in enumerate(grids_of(S, e[3]["sim_cache"])):
                    homog(R, U, "%s on_grid=%s %s grid %d" % (R.cur, on, h, k), g, ranges=c24.FR, special=CFF)


# ---------------------------------------------------------------- laws
def laws(R, name, dim):
    U = Units(dim)
    S, law, mp, ls, res = law_scene(R, name, dim)
    out, hist = S.it.iterate(res, 2)
    for lp in S.it.scans:
        iteration(R, U, lp)
    if name == "ModifiedCamClay":
        homog(R, U, R.cur + " yielding stress", out.f["stress_stack"], "stress", ranges=YRNG, special=YIELD)
        homog(R, U, R.cur + " yielding history", hist, ranges=YRNG, special=YIELD)
    if name == "DruckerPrager":
        for rn, sp in (("sheared", SPEC_F), ("pulled apart", dict(SPEC_F, **{"ls.eps_e_stack": tied_diag(-0.03, 0.004, 0.004)}))):
            homog(R, U, "%s %s stress" % (R.cur, rn), out.f["stress_stack"], "stress", ranges=DPY, special=sp)
            homog(R, U, "%s %s history" % (R.cur, rn), hist, ranges=DPY, special=sp)
    for rn, rr in {"": {}, " dense": DENSE, " loose": LOOSE, " hardly compressed": WEAK}.items():
        homog(R, U, R.cur + rn + " stress", out.f["stress_stack"], "stress", ranges=dict(PAR, **rr), special=SPEC_F)
        homog(R, U, R.cur + rn + " history", hist, ranges=dict(PAR, **rr), special=SPEC_F)
    S = R.use(Scene(dim))
    law, m = law_obj(S, name), S.body(0)
    made = {"create_state": S.call(law, "create_state", m.f["stress_stack"] if name == "DruckerPrager" else m)}
    rho, p = sym_arr("in.rho", (N0,)), sym_arr("in.pressure", (N0,))
    if name in ("NewtonFluid", "MuI_LC"):
        made["create_state_from_density"] = S.call(law, "create_state_from_density", rho, p)
    if name == "ModifiedCamClay":
        q = sym_arr("in.q", (N0,))
        made["create_state_from_ocr"] = S.call(law, "create_state_from_ocr", p, sym_arr("in.one", (N0,)), q)
        made["create_state_from_stress"] = S.call(law, "create_state_from_stress", p, q)
        made["create_state_from_density"] = S.call(law, "create_state_from_density", p, rho)
        U.D["in.q"] = U.D["S"]
        for how, ds in (("create_state_from_ocr", (None, "stress", "rho")), ("create_state_from_stress", (None, "rho")), ("create_state_from_density", (None, "one"))):
            rs = S.it.iterate(made.pop(how), len(ds))
            for k, (r, d) in enumerate(zip(rs, ds)):
                homog(R, U, "%s %s %d" % (R.cur, how, k), r, d, ranges=dict(PAR, **{"in.rho": (0.9, 1.1), "in.pressure": (1, 3), "in.q": (0.1, 1.5), "in.one": (1.2, 2)}))
    rg = dict(PAR, **{"p0.volume0_stack": (0.5, 0.9), "in.rho": (0.9, 1.1), "in.pressure": (1, 3)})
    for how, r in made.items():
        homog(R, U, "%s %s" % (R.cur, how), r, ranges=rg, special=COMP)
    if law.cls.lookup("get_dt_crit") is not None:
        homog(R, U, R.cur + " critical step", S.call(law, "get_dt_crit", m, pyfloat("h"), pyfloat("safety")), "dt", ranges=dict(PAR, h=(0.2, 1.0), safety=(0.1, 0.9)))


def sol(env, name, idx):
    """(multiplier, logarithm of the consolidation pressure) near a solution"""
    u = X._h(env.seed, name, idx)
    return 0.001 + 0.003 * u if idx and int(idx[-1]) == 0 else 0.05 + 0.2 * u


# mobilised strength, and pressures of the order of the unit
DPY = dict(PAR, **{"law.c0": (0.1, 0.2), "law.H": (0.1, 0.5), "ls.p_0_stack": (0.0, 0.2)})
WEAK = {"p0.mass_stack": (1.01, 1.03), "p0.volume_stack": (0.99, 1.0), "ls.density_ref_stack": (0.98, 0.99), "law.rho_0": (0.98, 0.99), "law.p_min_calc": (0.01, 0.02)}
# low pressures (of the order of the unit itself), so that a hidden absolute pressure shows
YIELD = dict(SPEC_F, **{"p0.stress_stack": tied_diag(1.2, 0.06, 0.05), "p0.L_stack": tied_diag(0.1, 0.05, 0.3), "scan*": sol})
YRNG = dict(PAR, **{"ls.p_c_stack": (1.1, 1.2), "p0.mass_stack": (2.0, 2.4), "law.p_min_calc": (1e-3, 2e-3), "law.K_min": (1e-3, 2e-3)})


def iteration(R, U, lp):
    """a local iteration: its unknowns have some dimension (or are logarithms), the same before and after each pass"""
    ini, nxt = vec2(lp.init), vec2(lp.out_carry)
    if ini is None or nxt is None:
        return
    S_ = U.D["S"]
    powers = [tuple(k * x for x in S_) for k in (0, 1, -1, 2, -2)] + [U.D["rate"], U.D["dt"]]
    cands = [p for p in powers] + [("log", S_)]
    names = [("%s.c" % lp.tag), ("%s.out" % lp.tag)]
    spec = dict(YIELD)
    try:
        fit = []
        for k in (0, 1):
            e = ini.at(X.C(k))
            fit.append([c for c in cands if X.isc(e) and c[0] != "log" or not X.isc(e) and scales(U, e, c, YRNG, spec, 2) is True])
        ok = None
        for a in fit[0]:
            for b in fit[1]:
                for n in names:
                    U.D[n] = [a, b]
                if all(scales(U, nxt.at(X.C(k)), (a, b)[k], YRNG, spec, 3) is True for k in (0, 1)):
                    ok = (a, b)
                    break
            if ok:
                break
    except Unknown as u:
        return R.ob(RULE, R.cur + " iteration", None, str(u))
    if any(nxt.at(X.C(k)).top for k in (0, 1)):
        return R.ob(RULE, R.cur + " iteration", None, "iteration step not known")
    if ok is None and not (fit[0] and fit[1]):
        return R.ob(RULE, R.cur + " iteration", None, "start values have no recognised dimension")
    if ok is None:
        a, b = fit[0][min(2, len(fit[0]) - 1)], fit[1][0]
        for n in names:
            U.D[n] = [a, b]
    R.ob(RULE, R.cur + " iteration", bool(ok), "unknowns have dimensions %s" % (ok,) if ok else "no dimensions of the unknowns (powers of stress, rates, logarithms of stress) make one pass independent of the units", lp.loc)


COMP = {"p0.stress_stack": lambda env, n, i: 2.0 + X._h(env.seed, n, i) if int(i[-1]) == int(i[-2]) else 0.2 * X._h(env.seed, n, i)}


# ---------------------------------------------------------------- obstacles
def shapes(R, dim):
    S = R.use(Scene(dim))
    U = Units(dim)
    for name, kw, sw in c13.shape_cases(S, dim):
        if not S.has(name):
            continue
        for c in [{}] + [{k: v} for k, vs in sw.items() for v in vs]:
            with R.group("%s %dD%s" % (name, dim, " %s" % c if c else "")):
                if kw is None:
                    o = S.raw(name, sdf_data=sym_arr("img", (4, 5, 6)), grid_min=sym_arr("gmin", (3,)), grid_size=sym_arr("gsz", (3,)), thickness=pyfloat("thick"), scale=pyfloat("scale"))
                    U2 = Units(dim, {"img": U.D["len"], "gmin": U.D["len"], "gsz": U.D["len"], "thick": U.D["len"], "scale": U.D["one"]})
                    rg = {"img": (-1, 1), "gmin": (-1, -0.5), "gsz": (1.0, 2.0), "thick": (0.01, 0.1), "scale": (0.5, 2.0), "x": (-2, 2), "c": (-0.2, 0.2)}
                    query(R, S, U2, o, dim, rg, False)
                else:
                    query(R, S, U, S.new(name, **dict(kw, **c)), dim, c13.SHR)
    with R.group("CompositeSDF %dD" % dim):
        a, b = S.new("SphereSDF", radius=pyfloat("radius")), S.new("BoxSDF", size=sym_arr("size", (dim,)))
        query(R, S, U, S.new("CompositeSDF", PList([a, b]), sym_arr("frictions", (2,))), dim, c13.SHR)
    with R.group("MaterialPointCloudSDF %dD" % dim):
        o = S.new("MaterialPointCloudSDF", smooth_k=pyfloat("smooth"))
        U = Units(dim, {"smooth": (0, -1, 0)})
        mp = S.sym_obj("MaterialPointState", "p0", {"num_points": 3})
        x = sym_arr("x", (1, dim))
        for what, d in (("get_signed_distance_stack", "len"), ("get_normal_stack", "one")):
            if o.cls.lookup(what) is None:
                continue
            with R.group("%s %s" % (R.cur, what), definite=False):
                homog(R, U, R.cur, S.call(o, what, x, mp), d, ranges={"p0.volume0_stack": (0.01, 0.1), "p0.volume_stack": (0.01, 0.1), "smooth": (1, 3)}, special=CFF)


def query(R, S, U, o, dim, rg, normal=True):
    st = c10.pose(S, dim)
    x = sym_arr("x", (dim,))
    cases = [("signed_distance", [st, x], "len"), ("get_surface_friction", [st, x], "one"), ("get_velocity", [st, x, fscalar("dt")], "vel")]
    if normal:
        cases.append(("get_normal", [st, x], "one"))
    for what, a, d in cases:
        with R.group("%s %s" % (R.cur, what), definite=False):
            homog(R, U, R.cur, S.call(o, what, *a), d, ranges=rg, special=c13.U)


def motion(R, dim):
    S = R.use(Scene(dim))
    o, st = c10.probe(S, dim), c10.pose(S, dim)
    U = Units(dim)
    for f, v in S.call(o, "update_kinematics", st, fscalar("dt")).f.items():
        homog(R, U, "%s %s" % (R.cur, f), v, f, ranges=c10.PR, special=c13.U)


# ---------------------------------------------------------------- particles, stencils, helpers
DERIVED = {"density_stack": "rho", "density_ref_stack": "rho", "pressure_stack": "S", "KE_stack": "energy", "q_stack": "S", "eps_stack": "one", "stored_eps_stack": "one",
           "eps_v_stack": "one", "deps_dt_stack": "rate", "shear_strain_rate_stack": "rate", "shear_strain_stack": "one", "stored_shear_strain_stack": "one", "num_points": "one", "dim": "one",
           "KE_density_stack": None, "q_p_stack": "one"}


def derived(R, dim):
    S = R.use(Scene(dim))
    mp = S.body(0, store_F=True)
    U = Units(dim)
    for c in mp.cls.mro():
        for k, v in sorted(c.ns.items()):
            if type(v).__name__ == "Prop" and not k.startswith("_"):
                with R.group("%s %s" % (R.cur, k), definite=False):
                    if DERIVED.get(k) is None:
                        if k not in DERIVED:
                            R.ob(RULE, R.cur, None, "dimension of %s not declared" % k)
                        continue
                    try:
                        r = S.get(mp, k)
                    except PyErr as e:
                        if e.kind == "NotImplementedError":
                            continue
                        raise
                    homog(R, U, R.cur, r, DERIVED[k], ranges=RANGES, special=SPEC_F)


def stencil(R, dim, kernel):
    S = R.use(Scene(dim))
    U = Units(dim)
    m = S.new("ShapeFunctionMapping", kernel, dim)
    D = S.domain(0)
    r = S.call(m, "compute", sym_arr("p0.position_stack", (N0, dim)), origin=S.get(D, "origin"), grid_size=S.get(D, "grid_size"), inv_cell_size=S.get(D, "_inv_cell_size"))
    if isinstance(r, (tuple, PList)):
        r = S.it.iterate(r)[0]
    homog(R, U, R.cur, r, ranges={"g0.h": (0.2, 0.4), "g0.origin*": (-1.5, -1.0), "g0.end*": (3.0, 4.0), "p0.position_stack": (0, 2)})
    for f in ("origin", "end"):
        homog(R, U, "grid %s" % f, D.f[f], "len", ranges={"g0.h": (0.2, 0.4), "g0.origin*": (-1.5, -1.0), "g0.end*": (3.0, 4.0)})


def projection(R, dim):
    S = R.use(Scene(dim))
    m = S.coupling(0, 0).f["shape_map"]
    if m.cls.lookup("scatter_to_grid") is None:
        return
    U = Units(dim, {"data": (1, -1, -2)})
    n, w = size("N0"), size("W0")
    cache = S.interaction("i00", n, w)
    r = S.call(m, "scatter_to_grid", cache, sym_arr("data", (n,)), sym_arr("mass", (n,)), scalar(size("G"), "i", "int"))
    homog(R, U, R.cur, r, "stress", ranges={"mass": (0.5, 2), "i00.N": (0.1, 1)})
    r = S.call(m, "gather_from_grid", cache, sym_arr("data", (size("G"),)))
    homog(R, U, R.cur + " gather", r, "stress", ranges={"i00.N": (0.1, 1)})


def helpers(R):
    S = R.use(Scene(3))
    S_, one, rate, L, vel, M, rho = (1, -1, -2), (0, 0, 0), (0, 0, -1), (0, 1, 0), (0, 1, -1), (1, 0, 0), (1, -3, 0)
    A = lambda n="A": sym_arr(n, (3, 3))
    v = lambda n="v", d=3: sym_arr(n, (d,))
    s, f = fscalar, pyfloat
    E2 = (1, 2, -2)
    inv = tuple(-x for x in S_)
    cases = [("get_pressure", [A()], {"A": S_}, S_), ("get_dev_stress", [A()], {"A": S_}, S_), ("get_J2", [A()], {"A": S_}, tuple(2 * x for x in S_)), ("get_q_vm", [A()], {"A": S_}, S_),
             ("get_scalar_shear_stress", [A(), None, None], {"A": S_}, S_), ("get_volumetric_strain", [A()], {"A": rate}, rate), ("get_dev_strain", [A()], {"A": rate}, rate),
             ("get_shear_strain_vm", [A()], {"A": rate}, rate), ("get_scalar_shear_strain", [A()], {"A": rate}, rate), ("get_strain_rate_from_L", [A()], {"A": rate}, rate),
             ("get_KE", [s("m"), v()], {"m": M, "v": vel}, E2), ("get_inertial_number", [s("p"), s("g"), f("dia"), f("rhop")], {"p": S_, "g": rate, "dia": L, "rhop": rho}, one),
             ("inv_3x3_robust", [A()], {"A": S_}, inv), ("inv_2x2_robust", [sym_arr("A", (2, 2))], {"A": S_}, inv), ("safe_norm", [v()], {"v": vel}, vel), ("get_spin_tensor", [A()], {"A": rate}, rate),
             ("integrate_quaternion", [v("q", 4), v("w"), f("dt")], {"q": one, "w": rate, "dt": (0, 0, 1)}, one), ("quaternion_rotate", [v("q", 4), v()], {"q": one, "v": vel}, vel),
             ("get_hencky_strain", [A()], {"A": one}, one), ("get_small_strain", [A()], {"A": one}, one), ("get_sym_tensor", [A()], {"A": rate}, rate), ("get_skew_tensor", [A()], {"A": rate}, rate)]
    rg = {"dia": (0.01, 0.1), "rhop": (1, 3), "p": (1, 2), "g": (0.1, 1), "m": (0.5, 1)}
    near1 = {"A": lambda env, n, i: (2.0 if int(i[-1]) == int(i[-2]) else 0.0) + 0.3 * (2 * X._h(env.seed, n, i) - 1)}
    for name, args, D, d in cases:
        if not S.has(name):
            continue
        with R.group("helper %s" % name, definite=False):
            U = Units(3)
            U.D = dict(D)
            homog(R, U, R.cur, S.it.call(S.cls(name), args, {}), d, ranges=rg, special=near1)
