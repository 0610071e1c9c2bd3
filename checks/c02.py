"""C02 particle-to-grid transfer conserves and accumulates over all bodies"""
from .common import *

TOPO = [
    ("one body", [Body(0, 0, 0, 0)]),
    ("two bodies on one grid", [Body(0, 0, 0, 0), Body(1, 0, 1, 1)]),
    ("three bodies on two grids", [Body(1, 1, 0, 0), Body(0, 0, 1, 1), Body(2, 1, 2, 2)]),
    ("rigid body shares the grid", [Body(0, 0, 0, 0, skip=True), Body(1, 0, 0, 0), Body(2, 0, 1, 1)]),
]


def mom_ref(S, scheme, b, k, n):
    def f(q, w):
        v = X.sym("p%d.velocity_stack" % b.p, q, X.C(k))
        if scheme == "USLAFLIP":
            for j in range(S.dim):
                # affine part: velocity at the node = v + B (x_node - x_p); rel is (x_p - x_node)/h; B holds -grad v
                v = X.add(v, X.mul(X.sym("mem%d.Bp_stack" % b.s, q, X.C(k), X.C(j)), X.sym("i%d%d.rel" % (b.p, b.g), q, w, X.C(j)), X.sym("g%d.h" % b.g)))
        return X.mul(X.sym("i%d%d.N" % (b.p, b.g), q, w), X.sym("p%d.mass_stack" % b.p, q), v)
    return scat(b.p, b.g, f, n)


def mass_ref(b, n):
    return scat(b.p, b.g, lambda q, w: X.mul(X.sym("i%d%d.N" % (b.p, b.g), q, w), X.sym("p%d.mass_stack" % b.p, q)), n)


def force_ref(S, b, k, n):
    def f(q, w):
        r = X.mul(X.sym("i%d%d.N" % (b.p, b.g), q, w), X.sym("fext%d" % b.p, q, X.C(k)))
        for j in range(S.dim):
            r = X.add(r, X.mul(X.sym("p%d.volume_stack" % b.p, q), X.sym("p%d.stress_stack" % b.p, q, X.C(k), X.C(j)), X.sym("i%d%d.dN" % (b.p, b.g), q, w, X.C(j))))
        return r
    return scat(b.p, b.g, f, n)


def run(R):
    R.ranges = RANGES
    for scheme in SCHEMES:
        for dim in (3, 2):
            for name, bodies in TOPO:
                if dim == 2 and R.tier != "thorough" and name not in ("two bodies on one grid",):
                    continue
                with R.group("%s %dD: %s" % (scheme, dim, name)):
                    transfer(R, scheme, dim, bodies)
                with R.group("%s %dD integration: %s" % (scheme, dim, name)):
                    integrate(R, scheme, dim, bodies)
    for dim in (3, 2):
        with R.group("generic scatter %dD" % dim):
            scatter(R, dim)


def transfer(R, scheme, dim, bodies):
    S = R.use(Scene(dim))
    subj = R.cur

    def act(h, b):
        if h == "apply_pre_p2g":
            mps = list(S.it.iterate(S.get(b["world"], "material_points")))
            for k, m in enumerate(mps):
                if "force_stack" in m.f:
                    mps[k] = obj_with(m, force_stack=sym_arr("fext%d" % k, m.f["force_stack"].shape))
            return (obj_with(b["world"], material_points=tuple(mps)), b["mechanics"], b["sim_cache"])
    log = []
    st = make(S, scheme, bodies, log=log, forces=(S.probe_force(0, log, act),))
    run_step(S, st)
    ev = hook(st, "apply_grid_forces")
    if not ev:
        R.ob("grid hook reached", subj, False, "no force sees the transferred grids")
        return
    grids = grids_of(S, ev[0][3]["sim_cache"])
    for g in sorted({b.g for b in bodies}):
        mine = [b for b in bodies if b.g == g and not b.skip]
        G = grids[g]
        R.eqa("nodal mass = sum of shape-weighted particle masses", "%s grid %d" % (subj, g), G.f["mass_stack"], lambda n: X.add(*[mass_ref(b, n) for b in mine]))
        R.eqa("nodal momentum = sum of shape-weighted particle momenta", "%s grid %d" % (subj, g), G.f["moment_stack"],
              lambda n, k: X.add(*[mom_ref(S, scheme, b, int(X.cval(k)), n) for b in mine]))
        R.eqa("nodal force = sum of external and internal forces", "%s grid %d" % (subj, g), G.f["force_stack"],
              lambda n, k: X.add(*[force_ref(S, b, int(X.cval(k)), n) for b in mine]))


def integrate(R, scheme, dim, bodies):
    S = R.use(Scene(dim))
    subj = R.cur

    def act(h, b):
        if h == "apply_grid_forces":
            gs = []
            for k, g in enumerate(grids_of(S, b["sim_cache"])):
                gs.append(obj_with(g, mass_stack=sym_arr("gm%d" % k, g.f["mass_stack"].shape), moment_stack=sym_arr("gp%d" % k, g.f["moment_stack"].shape),
                                   force_stack=sym_arr("gf%d" % k, g.f["force_stack"].shape)))
            return (b["world"], b["mechanics"], with_grids(b["sim_cache"], gs))
    log = []
    st = make(S, scheme, bodies, log=log, forces=(S.probe_force(0, log, act),))
    run_step(S, st)
    ev = hook(st, "apply_grid_moments")
    if not ev:
        R.ob("momentum hook reached", subj, False, "no force sees the integrated momenta")
        return
    for g, G in enumerate(grids_of(S, ev[0][3]["sim_cache"])):
        if not any(b.g == g and not b.skip for b in bodies):
            continue
        R.eqa("new momentum = momentum + force * dt, once", "%s grid %d" % (subj, g), G.f["moment_nt_stack"],
              lambda n, k: X.add(X.sym("gp%d" % g, n, k), X.mul(X.sym("dt"), X.sym("gf%d" % g, n, k))))
        R.eqa("integration keeps the old momentum", "%s grid %d" % (subj, g), G.f["moment_stack"], lambda n, k: X.sym("gp%d" % g, n, k))
        R.eqa("integration keeps the mass", "%s grid %d" % (subj, g), G.f["mass_stack"], lambda n: X.sym("gm%d" % g, n))


def run_step(S, st):
    from .common import run as r
    return r(S, st)


def scatter(R, dim):
    S = R.use(Scene(dim))
    subj = R.cur
    N, W = size("N0"), size("W0")
    c = S.coupling(0, 0)
    cache = S.interaction("i00", N, W)
    nc = size("ncells")
    data = sym_arr("data", (N, 2))
    mass = sym_arr("p0.mass_stack", (N,))
    sm = c.f["shape_map"]
    r = S.call(sm, "scatter_to_grid", cache, data, mass, scalar(nc, "i", "int"), normalize=False)
    wsum = lambda n, f: scat(0, 0, lambda q, w: X.mul(X.sym("i00.N", q, w), X.sym("p0.mass_stack", q), f(q)), n)
    R.eqa("plain scatter is the mass-weighted sum", subj, r, lambda n, k: wsum(n, lambda q: X.sym("data", q, k)))
    r = S.call(sm, "scatter_to_grid", cache, data, mass, scalar(nc, "i", "int"), small_mass_cutoff=pyfloat("cut"))
    tot = lambda n: wsum(n, lambda q: X.ONE)
    R.eqa("normalised scatter is the mass-weighted mean where mass is present, else zero", subj, r,
          lambda n, k: X.where(X.gt(tot(n), X.sym("cut")), X.div(wsum(n, lambda q: X.sym("data", q, k)), tot(n)), X.ZERO), ranges={"cut": (0.0, 6.0)})
    R.eqa("scatter covers every grid node", subj + " shape", scalar(dimE(r.shape[0])), lambda: nc)
