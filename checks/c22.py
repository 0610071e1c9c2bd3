"""C22 two-dimensional simulations are exact plane strain; three-dimensional ones pin nothing"""
from .g2p import *


def run(R):
    R.ranges = G2P_RANGES
    for scheme in SCHEMES:
        for name, kw in VARIANTS[scheme]:
            for reset in (False, True):
                with R.group("%s %s 2D reset=%s" % (scheme, name, reset)):
                    plane(R, scheme, kw, reset)
        for reset in (False, True):
            with R.group("%s 3D reset=%s" % (scheme, reset)):
                full(R, scheme, VARIANTS[scheme][0][1], reset)
        with R.group("%s 2D transfer to the grid" % scheme):
            nodal(R, scheme)
    for kern in ("linear", "quadratic", "cubic"):
        with R.group("padding %s" % kern):
            padding(R, kern)
    for dim in (2, 3):
        with R.group("shear reset %dD" % dim):
            reset_alone(R, dim)


def out_of_plane(i, j):
    return i == 2 or j == 2


def plane(R, scheme, kw, reset):
    g = G2P(R, scheme, 2, kw, store_F=True, reset=reset)
    mid, out = g.law_mp(0), g.out(0)
    subj = R.cur
    if mid is None:
        R.ob("material update reached", subj, False, "no material update")
        return
    for nm, o in (("seen by the law", mid), ("after the step", out)):
        R.eqa("out-of-plane velocity gradient is zero", "%s %s" % (subj, nm), o.f["L_stack"], lambda q, j, k: X.ZERO if out_of_plane(I(j), I(k)) else o.f["L_stack"].at(q, j, k))
        for f in ("F_stack", "F_store_stack"):
            R.eqa("out-of-plane stretch is one and uncoupled", "%s %s %s" % (subj, nm, f), o.f[f],
                  lambda q, j, k: (X.ONE if I(j) == I(k) else X.ZERO) if out_of_plane(I(j), I(k)) else o.f[f].at(q, j, k))
    for f in ("position_stack", "velocity_stack", "force_stack"):
        v = out.f[f]
        ok = None if isinstance(v, Top) else (len(lift(v).shape) == 2 and lift(v).shape[1] == 2)
        R.ob("in-plane vectors stay two-dimensional", "%s %s" % (subj, f), ok, "shape %s" % (getattr(v, "shape", None),), getattr(v, "src", None))
    # in-plane content is not dropped
    R.eqa("in-plane velocity gradient is the gathered one", subj, mid.f["L_stack"], lambda q, j, k: g.L(0, q, I(j), I(k)))
    R.eqa("particle velocity keeps its in-plane components", subj, out.f["velocity_stack"], lambda q, k: g.velocity(0, q, I(k)))
    # what the law returns, out-of-plane stress included, is what the particle carries
    carried(R, subj, g, out)
    if scheme == "USLAFLIP":
        B = g.mem(0).f["Bp_stack"]
        R.eqa("out-of-plane affine memory is zero", subj, B, lambda q, j, k: X.ZERO if out_of_plane(I(j), I(k)) else B.at(q, j, k))


def carried(R, subj, g, out):
    """every component of the stress after the step varies with the law that produced it"""
    s = out.f["stress_stack"]
    if isinstance(s, Top):
        R.ob("the law's stress is carried completely", subj, None, "unknown")
        return
    for j, k in ((2, 2), (0, 2), (1, 2), (0, 0)):
        e = s.at(X.sym("#p"), X.C(j), X.C(k))
        R.depends("the law's stress is carried completely", "%s %d%d" % (subj, j, k), e, lambda n: n.startswith("law"), loc=s.src,
                  msg="stress component %d%d does not come from the material law" % (j, k))


def full(R, scheme, kw, reset):
    g = G2P(R, scheme, 3, kw, store_F=True, reset=reset)
    mid, out = g.law_mp(0), g.out(0)
    subj = R.cur
    if mid is None:
        R.ob("material update reached", subj, False, "no material update")
        return
    pick = {(2, 2), (0, 2), (2, 0), (1, 2), (2, 1)}
    R.eqa("third components of the velocity gradient are kept", subj, mid.f["L_stack"], lambda q, j, k: g.L(0, q, I(j), I(k)))
    R.eqa("third components of the deformation gradient are kept", subj, mid.f["F_stack"], lambda q, j, k: g.F(0, q, I(j), I(k)))
    R.eqa("third components of the stored deformation gradient are kept", subj, out.f["F_store_stack"], lambda q, j, k: g.F(0, q, I(j), I(k), "F_store_stack"))
    R.eqa("third components of the velocity are kept", subj, out.f["velocity_stack"], lambda q, k: g.velocity(0, q, I(k)))
    if reset:
        J = lambda q: det3(lambda j, k: mid.f["F_stack"].at(q, X.C(j), X.C(k)))
        R.eqa("three-dimensional shear reset is isotropic", subj, out.f["F_stack"],
              lambda q, j, k: X.power(J(q), X.div(X.ONE, X.C(3))) if I(j) == I(k) else X.ZERO)


def nodal(R, scheme):
    """nodal forces see only in-plane stress; out-of-plane stress neither enters nor is lost"""
    S = R.use(Scene(2))
    log = []
    st = make(S, scheme, [Body(0, 0, 0, 0)], log=log, forces=(S.probe_force(0, log, None),))
    from .common import run as step
    step(S, st)
    ev = hook(st, "apply_grid_forces")
    if not ev:
        R.ob("grid hook reached", R.cur, False, "no force sees the transferred grids")
        return
    G = grids_of(S, ev[0][3]["sim_cache"])[0]
    subj = R.cur
    for f in ("moment_stack", "force_stack"):
        v = G.f[f]
        R.ob("nodal vectors are two-dimensional", "%s %s" % (subj, f), None if isinstance(v, Top) else lift(v).shape[-1] == 2, "shape %s" % (getattr(v, "shape", None),))
    fo = lift(G.f["force_stack"])
    for k in range(2):
        e = fo.at(X.sym("#n"), X.C(k))
        for s in range(4):
            env, env2 = X.Env(s + 1, RANGES), X.Env(s + 1, RANGES)
            orig = env2.symbol

            def symbol(nm, idx, orig=orig):
                if nm == "p0.stress_stack" and 2 in tuple(idx)[-2:]:
                    old, env2.seed = env2.seed, env2.seed + 55
                    r = orig(nm, idx)
                    env2.seed = old
                    return r
                return orig(nm, idx)
            env2.symbol = symbol
            if e.top:
                ok = None
                break
            ok = X.close(env.ev(e), env2.ev(e), 1e-9)
            if not ok:
                break
        R.ob("out-of-plane stress exerts no nodal force", "%s component %d" % (subj, k), ok, "in-plane nodal force varies with out-of-plane stress" if not ok else "", fo.src)
    R.depends("in-plane stress exerts nodal force", subj, fo, lambda n: n == "p0.stress_stack")


def padding(R, kern):
    """the transfer stencil of a 2D grid has zero third components"""
    S = R.use(Scene(2))
    N = size("N0")
    sm = S.new("ShapeFunctionMapping", kern, 2)
    dom = S.domain(0)
    r = S.call(sm, "compute", sym_arr("p0.position_stack", (N, 2)), origin=S.get(dom, "origin"), grid_size=S.get(dom, "grid_size"), inv_cell_size=pyfloat("ih"))
    for f in ("shape_grads", "rel_dist"):
        v = S.get(r, f)
        if isinstance(v, Top):
            R.ob("padding of the stencil adds zeros", "%s %s" % (kern, f), None, "unknown")
            continue
        v = lift(v)
        i = X.sym("#s")
        R.ob("stencil vectors are three-dimensional", "%s %s" % (kern, f), v.shape[-1] == 3, "shape %s" % (v.shape,))
        R.eq("padding of the stencil adds zeros", "%s %s" % (kern, f), v.at(i, X.C(2)), X.ZERO, loc=v.src)
        for k in range(2):
            R.depends("padding keeps the in-plane part", "%s %s %d" % (kern, f, k), v.at(i, X.C(k)), lambda n: n == "p0.position_stack", loc=v.src,
                      special={"g0.*": lambda env, name, idx: 0.25})


def reset_alone(R, dim):
    S = R.use(Scene(dim))
    for reset in (True, False):
        log = []
        law = S.probe_law(0, log, reset=reset)
        mp = S.body(0, store_F=True)
        mp = obj_with(mp, F_stack=nearI("p0.F_stack")(size("N0"), dim))
        r = S.call(law, "remove_accumulated_shear", mp)
        subj = "%dD reset=%s" % (dim, reset)
        if not reset:
            unchanged(R, "laws without shear reset keep the particles unchanged", subj, r, mp)
            continue
        for f in mp.f:
            if f != "F_stack":
                unchanged(R, "shear reset writes only the deformation gradient", subj + " " + f, r.f[f], mp.f[f])
        J = lambda q: det3(lambda j, k: mp.f["F_stack"].at(q, X.C(j), X.C(k)))
        R.eqa("shear reset spreads the volume change over the dimensions of the simulation", subj, r.f["F_stack"],
              lambda q, j, k: X.ZERO if I(j) != I(k) else (X.ONE if dim == 2 and I(j) == 2 else X.power(J(q), X.div(X.ONE, X.C(dim)))))
