"""C20 grid-to-particle transfer: blend, uniform motion, CFL limit, affine memory"""
from .g2p import *


def run(R):
    R.ranges = G2P_RANGES
    for scheme in SCHEMES:
        for name, kw in VARIANTS[scheme]:
            for dim in (3, 2):
                for kernel in (("cubic", "quadratic") if kw.get("use_mls_update") is False else ("cubic",)):
                    with R.group("%s %s %dD %s" % (scheme, name, dim, kernel)):
                        formulas(R, scheme, dim, kw, kernel)
    with R.group("USLAFLIP two bodies, two grids"):
        formulas(R, "USLAFLIP", 3, VARIANTS["USLAFLIP"][0][1], "cubic", bodies=[Body(1, 0, 0, 1), Body(0, 1, 1, 0)])
    for ks in (("cubic", "quadratic"), ("quadratic", "cubic")):
        with R.group("USLAFLIP APIC, kernels %s and %s" % ks):
            formulas(R, "USLAFLIP", 3, VARIANTS["USLAFLIP"][2][1], "cubic", bodies=[Body(0, 0, 0, 0, kernel=ks[0]), Body(1, 1, 1, 1, kernel=ks[1])])
    for scheme in SCHEMES:
        for dim in (3, 2):
            with R.group("%s %dD uniform motion" % (scheme, dim)):
                uniform(R, scheme, dim)
    for dim in (3, 2):
        with R.group("generic gather %dD" % dim):
            gather(R, dim)


def formulas(R, scheme, dim, kw, kernel, bodies=None):
    g = G2P(R, scheme, dim, kw, kernel=kernel, bodies=bodies)
    for b in g.bodies:
        p = b.p
        kernel = b.kernel or kernel
        subj = R.cur + " body %d" % p
        o = g.out(p)
        R.eqa("velocity = new grid velocity + blend * fluctuation, limited", subj, o.f["velocity_stack"], lambda q, k: g.velocity(p, q, I(k)))
        R.eqa("position advances with the transferred velocity", subj, o.f["position_stack"], lambda q, k: g.position(p, q, I(k), kernel), trials=12)
        if scheme == "USLAFLIP":
            R.eqa("stored affine matrix is the one the next transfer expects", subj, g.mem(b.s).f["Bp_stack"], lambda q, j, k: g.Bp(p, q, I(j), I(k), kernel))


class Uni(Scene):
    """scene whose stencils satisfy partition of unity by construction"""

    def interaction(self, tag, n, w, dim=3, mask="one"):
        o = Scene.interaction(self, tag, n, w, dim, mask)
        I_ = X.mul(n, w)

        def ps(i):
            return X.floordiv(i, w), X.mod(i, w)

        def N(i):
            q, s = ps(i)
            v = X.fresh_bv(w)
            return X.div(X.sym(tag + ".N", q, s), X.ssum(v, X.fn("range", w), X.sym(tag + ".N", q, v)))

        def dN(i, j):
            q, s = ps(i)
            v = X.fresh_bv(w)
            e = X.sub(X.sym(tag + ".dN", q, s, j), X.mul(N(i), X.ssum(v, X.fn("range", w), X.sym(tag + ".dN", q, v, j))))
            return e if self.dim == 3 else X.where(X.lt(j, X.C(2)), e, X.ZERO)

        def rel(i, j):
            q, s = ps(i)
            v = X.fresh_bv(w)
            t = X.sub(X.sym(tag + ".rel", q, s, j), X.ssum(v, X.fn("range", w), X.mul(N(X.add(X.mul(q, w), v)), X.sym(tag + ".rel", q, v, j))))
            return t if self.dim == 3 else X.where(X.lt(j, X.C(2)), t, X.ZERO)
        return obj_with(o, shape_vals=Arr((I_,), N, "f"), shape_grads=Arr((I_, 3), dN, "f"), rel_dist=Arr((I_, 3), rel, "f"))


def uniform(R, scheme, dim):
    """every body and every grid node moves with velocity V, no forces: nothing but the position changes"""
    variants = VARIANTS[scheme] if dim == 3 else VARIANTS[scheme][:1]
    for name, kw in variants:
        S = R.use(Uni(dim))
        log = []
        V = lambda k: X.sym("V", k)

        def act(h, b):
            if h == "apply_grid_moments":
                gs = []
                for k, g in enumerate(grids_of(S, b["sim_cache"])):
                    m = sym_arr("gm%d" % k, g.f["mass_stack"].shape)
                    mv = Arr(g.f["moment_stack"].shape, lambda n, j, m=m: X.mul(m.at(n), V(j)), "f")
                    gs.append(obj_with(g, mass_stack=m, moment_stack=mv, moment_nt_stack=mv))
                return (b["world"], b["mechanics"], with_grids(b["sim_cache"], gs))
        p = params(scheme, kw)
        p.pop("cfl_limit", None)
        if scheme == "USLAFLIP":
            p["cfl_limit"] = pyfloat("cfl")
        st = make(S, scheme, [Body(0, 0, 0, 0)], log=log, forces=(S.probe_force(0, log, act),), params=p)
        m = st.mps[0]
        st.mps[0] = obj_with(m, velocity_stack=Arr(m.f["velocity_stack"].shape, lambda q, k: V(k), "f"),
                             F_stack=nearI("p0.F_stack")(size("N0"), dim))
        st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=st.force_states)
        from .common import run as step
        step(S, st)
        o = mp_out(S, st, 0)
        subj = R.cur + " " + name
        rg = {"V": (-0.2, 0.2), "cfl": (5.0, 9.0), "dt": (0.02, 0.2)}
        R.eqa("uniform motion keeps the particle velocity", subj, o.f["velocity_stack"], lambda q, k: V(k), ranges=rg)
        R.eqa("uniform motion advances positions by velocity * dt", subj, o.f["position_stack"],
              lambda q, k: X.add(X.sym("p0.position_stack", q, k), X.mul(X.sym("dt"), V(k))), ranges=rg)
        R.eqa("uniform motion has no velocity gradient", subj, o.f["L_stack"], lambda q, j, k: X.ZERO, ranges=rg)


def gather(R, dim):
    S = R.use(Scene(dim))
    N = size("N0")
    sm = S.new("ShapeFunctionMapping", "linear", dim)
    dom = S.domain(0)
    real = S.call(sm, "compute", sym_arr("p0.position_stack", (N, dim)), origin=S.get(dom, "origin"), grid_size=S.get(dom, "grid_size"), inv_cell_size=pyfloat("ih"))
    W = X.div(dimE(S.get(real, "shape_vals").shape[0]), N)          # stencil width of this mapping
    if not X.isc(W):
        raise Unknown("stencil width not constant")
    cache = S.interaction("i00", N, W)
    nc = size("ncells")
    for tail in ((), (2,), (2, 3)):
        data = sym_arr("data", (nc,) + tail)
        r = S.call(sm, "gather_from_grid", cache, data)
        R.eqa("generic gather is the shape-weighted sum over the stencil", "%s rank %d" % (R.cur, len(tail)), r,
              lambda q, *k: gath(0, lambda w: X.mul(X.sym("i00.N", q, w), X.sym("data", X.sym("#i00.node", q, w), *k)), W))
        R.eqa("generic gather returns one row per particle", "%s rank %d rows" % (R.cur, len(tail)), scalar(dimE(lift(r).shape[0])), lambda: N)
