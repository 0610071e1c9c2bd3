"""Shared scene for the grid-to-particle half of a step: the grid contents and the stencil are opaque symbols."""
from .common import *

G2P_RANGES = {"alpha": (0.05, 0.95), "dt": (0.02, 0.3), "*.h": (0.3, 1.5), "gm*": (0.5, 2.0), "*.mass_stack": (0.5, 2.0), "*.volume_stack": (0.5, 2.0),
              "*.volume0_stack": (0.5, 2.0), "*.N": (0.1, 1.0), "smin": (0.3, 0.9), "smax": (1.2, 3.0), "bmin": (0.0, 0.4), "bmax": (0.5, 1.0),
              "cfl": (0.05, 2.0), "cut": (1e-9, 1e-3)}

VARIANTS = {
    "USLSolver": [("", {})],
    "USLAFLIP": [("dynamic alpha, MLS", dict(use_dynamic_alpha=True, use_mls_update=True)),
                 ("constant alpha, MLS", dict(use_dynamic_alpha=False, use_mls_update=True)),
                 ("dynamic alpha, APIC", dict(use_dynamic_alpha=True, use_mls_update=False)),
                 ("constant alpha, APIC", dict(use_dynamic_alpha=False, use_mls_update=False))],
}
AFLIP_PARAMS = dict(alpha_support_min="smin", alpha_support_max="smax", beta_min="bmin", beta_max="bmax", cfl_limit="cfl", small_mass_cutoff="cut")


def params(scheme, kw):
    d = dict(kw)
    if scheme == "USLAFLIP":
        for k, s in AFLIP_PARAMS.items():
            d[k] = pyfloat(s)
    return d


def nearI(tag):
    """deformation gradient near the identity (so determinants stay positive)"""
    def f(n, dim):
        def at(q, i, j):
            d = X.add(X.where(X.eq(i, j), X.ONE, X.ZERO), X.mul(X.C(1, 5) if False else X.div(X.ONE, X.C(5)), X.sym(tag, q, i, j)))
            if dim == 2:
                ip = X.and_(X.lt(i, X.C(2)), X.lt(j, X.C(2)))
                return X.where(ip, d, X.where(X.and_(X.eq(i, X.C(2)), X.eq(j, X.C(2))), X.ONE, X.ZERO))
            return d
        return Arr((n, 3, 3), at, "f")
    return f


class G2P:
    def __init__(self, R, scheme, dim, kw, bodies=None, store_F=False, reset=False, kernel="cubic", pinned=True, N=None, sdfs=0, mask="one", via="class"):
        S = self.S = R.use(Scene(dim))
        self.scheme, self.dim, self.kw = scheme, dim, kw
        log = self.log = []
        self.bodies = bodies or [Body(0, 0, 0, 0)]

        def act(h, b):
            if h == "apply_grid_moments":
                gs = []
                for k, g in enumerate(grids_of(S, b["sim_cache"])):
                    gs.append(obj_with(g, mass_stack=sym_arr("gm%d" % k, g.f["mass_stack"].shape), moment_stack=sym_arr("gp%d" % k, g.f["moment_stack"].shape),
                                       moment_nt_stack=sym_arr("gn%d" % k, g.f["moment_nt_stack"].shape)))
                return (b["world"], b["mechanics"], with_grids(b["sim_cache"], gs))
        st = self.st = make(S, scheme, self.bodies, log=log, forces=(S.probe_force(0, log, act),), params=params(scheme, kw), store_F=store_F,
                            reset=reset, kernel=kernel, sdfs=sdfs, mask=mask, via=via)
        for p, m in enumerate(st.mps):
            if "F_stack" in m.f:
                n = dimE(m.f["F_stack"].shape[0])
                st.mps[p] = obj_with(m, F_stack=nearI("p%d.F_stack" % p)(n, dim if pinned else 3),
                                     **({"F_store_stack": nearI("p%d.F_store_stack" % p)(n, dim if pinned else 3)} if store_F else {}))
        st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=st.force_states, sdfs=st.sdf_states)
        run(S, st)

    # ------------------------------------------------ what the law is handed / what comes out
    def law_mp(self, p):
        for e in self.log:
            if e[0] == "law" and isinstance(e[2], Obj):
                k = next((b for b in self.bodies if b.c == e[1]), None)
                if k is not None and k.p == p:
                    return e[2]
        return None

    def out(self, p):
        return mp_out(self.S, self.st, p)

    def mem(self, s):
        return self.S.get(self.st.out, "mechanics", "solvers", s)

    # ------------------------------------------------ reference formulas
    def _b(self, p):
        return next(b for b in self.bodies if b.p == p)

    def node(self, p, q, w):
        return X.sym("#i%d%d.node" % (p, self._b(p).g), q, w)

    def cut(self):
        return X.sym("cut") if self.scheme == "USLAFLIP" else X.toE(1e-12)

    def vnode(self, p, q, w, k, new):
        g = self._b(p).g
        n = self.node(p, q, w)
        m = X.sym("gm%d" % g, n)
        return X.where(X.gt(m, self.cut()), X.div(X.sym("g%s%d" % ("n" if new else "p", g), n, X.C(k)), m), X.ZERO)

    def N(self, p, q, w):
        return X.sym("i%d%d.N" % (p, self._b(p).g), q, w)

    def dN(self, p, q, w, j):
        return X.sym("i%d%d.dN" % (p, self._b(p).g), q, w, X.C(j)) if j < self.dim else X.ZERO

    def rel(self, p, q, w, j):
        return X.sym("i%d%d.rel" % (p, self._b(p).g), q, w, X.C(j)) if j < self.dim else X.ZERO

    def h(self, p):
        return X.sym("g%d.h" % self._b(p).g)

    def pv(self, p, q, k, new):
        return gath(p, lambda w: X.mul(self.N(p, q, w), self.vnode(p, q, w, k, new)))

    def vp(self, p, q, k):
        return X.sym("p%d.velocity_stack" % p, q, X.C(k))

    def fluct(self, p, q, k):
        """what PIC would lose: old particle velocity minus interpolated old grid velocity"""
        return X.sub(self.vp(p, q, k), self.pv(p, q, k, False))

    def blend(self, p, q):
        a = X.sym("alpha")
        if self.kw.get("use_dynamic_alpha"):
            g = self._b(p).g
            s = X.div(gath(p, lambda w: X.mul(self.N(p, q, w), X.sym("gm%d" % g, self.node(p, q, w)))), X.sym("p%d.mass_stack" % p, q))
            s = X.div(X.sub(s, X.sym("smin")), X.sub(X.sym("smax"), X.sym("smin")))
            a = X.mul(a, X.clip(s, X.ZERO, X.ONE))
        return a

    def unlimited(self, p, q, k):
        return X.add(self.pv(p, q, k, True), X.mul(self.blend(p, q), self.fluct(p, q, k)))

    def velocity(self, p, q, k):
        v = self.unlimited(p, q, k)
        if self.scheme == "USLAFLIP":
            sp = X.sqrt(X.add(*[X.power(self.unlimited(p, q, j), X.C(2)) for j in range(self.dim)]))
            v = X.mul(v, X.min_(X.ONE, X.div(X.div(X.mul(X.sym("cfl"), self.h(p)), X.sym("dt")), sp)))
        return v

    def Bp(self, p, q, j, k, kernel="cubic"):
        """matrix whose negative action on (x_node - x_p) the next transfer adds to the particle velocity"""
        if j >= self.dim or k >= self.dim:
            return X.ZERO
        if self.scheme != "USLAFLIP" or self.kw.get("use_mls_update"):
            return gath(p, lambda w: X.neg(X.mul(self.vnode(p, q, w, j, True), self.dN(p, q, w, k))))
        D = {"cubic": X.div(X.ONE, X.C(3)), "quadratic": X.div(X.ONE, X.C(4))}[kernel]
        D = X.mul(D, X.power(self.h(p), X.C(2)))
        # rel = (x_p - x_node)/h
        return gath(p, lambda w: X.div(X.mul(self.N(p, q, w), self.vnode(p, q, w, j, True), self.rel(p, q, w, k), self.h(p)), D))

    L = Bp

    def Finc(self, p, q, j, k, kernel="cubic"):
        return X.sub(X.ONE if j == k else X.ZERO, X.mul(X.sym("dt"), self.L(p, q, j, k, kernel)))

    def F0(self, p, q, j, k, name="F_stack"):
        return self.st.mps[p].f[name].at(q, X.C(j), X.C(k))

    def F(self, p, q, j, k, name="F_stack", kernel="cubic"):
        return X.add(*[X.mul(self.Finc(p, q, j, m, kernel), self.F0(p, q, m, k, name)) for m in range(3)])

    def J(self, p, q, kernel="cubic"):
        return det3(lambda j, k: self.F(p, q, j, k, kernel=kernel))

    def position(self, p, q, k, kernel="cubic"):
        x = X.add(X.sym("p%d.position_stack" % p, q, X.C(k)), X.mul(X.sym("dt"), self.pv(p, q, k, True)))
        if self.scheme == "USLAFLIP":
            beta = X.where(X.lt(self.J(p, q, kernel), X.ONE), X.sym("bmin"), X.sym("bmax"))
            x = X.add(x, X.mul(X.sym("dt"), X.sym("alpha"), beta, self.fluct(p, q, k)))
        return x


def det3(f):
    m, a, s = X.mul, X.add, X.sub
    return a(m(f(0, 0), s(m(f(1, 1), f(2, 2)), m(f(1, 2), f(2, 1)))),
             X.neg(m(f(0, 1), s(m(f(1, 0), f(2, 2)), m(f(1, 2), f(2, 0))))),
             m(f(0, 2), s(m(f(1, 0), f(2, 1)), m(f(1, 1), f(2, 0)))))


def I(x):
    return int(X.cval(x))
