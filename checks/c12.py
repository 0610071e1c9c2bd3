"""C12 constant mass; volume follows the deformation gradient; deformation gradient follows the velocity gradient"""
from .g2p import *


def mm(A, B, j, k):
    return X.add(*[X.mul(A(j, m), B(m, k)) for m in range(3)])


def run(R):
    R.ranges = G2P_RANGES
    for scheme in SCHEMES:
        for name, kw in VARIANTS[scheme]:
            for dim in (3, 2):
                for store in (True, False):
                    for reset in (True, False):
                        if R.tier != "thorough" and name not in ("", "dynamic alpha, MLS") and (store is False or reset):
                            continue
                        with R.group("%s %s %dD store=%s reset=%s" % (scheme, name, dim, store, reset)):
                            kinematics(R, scheme, dim, kw, store, reset)
        with R.group("%s two bodies on two grids" % scheme):
            kinematics(R, scheme, 3, VARIANTS[scheme][0][1], True, True, bodies=[Body(1, 0, 0, 0), Body(0, 1, 1, 1)])
        with R.group("%s single particle" % scheme):
            single(R, scheme)
        for dim in (3, 2):
            for reset in (False, True):
                with R.group("%s %dD general deformation gradient reset=%s" % (scheme, dim, reset)):
                    general(R, scheme, dim, reset)
    with R.group("element test driver"):
        driver(R)
    for name in LAWS:
        with R.group("material update %s" % name):
            law_keeps(R, name)


def kinematics(R, scheme, dim, kw, store, reset, bodies=None):
    g = G2P(R, scheme, dim, kw, bodies=bodies, store_F=store, reset=reset)
    for b in g.bodies:
        p = b.p
        subj = R.cur + " body %d" % p
        old, mid, out = g.st.mps[p], g.law_mp(p), g.out(p)
        unchanged(R, "mass is constant", subj, out.f["mass_stack"], old.f["mass_stack"])
        unchanged(R, "reference volume is constant", subj, out.f["volume0_stack"], old.f["volume0_stack"])
        if mid is None:
            R.ob("material update reached", subj, False, "no material update for body %d" % p)
            continue
        at = lambda o, f: (lambda q: (lambda j, k: o.f[f].at(q, X.C(j), X.C(k))))

        def inc(q, L=mid.f["L_stack"]):
            return lambda j, k: X.sub(X.ONE if j == k else X.ZERO, X.mul(X.sym("dt"), L.at(q, X.C(j), X.C(k))))
        R.eqa("deformation gradient advances by the velocity gradient the law receives", subj, mid.f["F_stack"],
              lambda q, j, k: mm(inc(q), at(old, "F_stack")(q), I(j), I(k)))
        R.eqa("velocity gradient kept after the step is the one the law received", subj, out.f["L_stack"], lambda q, j, k: mid.f["L_stack"].at(q, j, k))
        R.eqa("volume seen by the law = det F * reference volume", subj, mid.f["volume_stack"],
              lambda q: X.mul(det3(at(mid, "F_stack")(q)), X.sym("p%d.volume0_stack" % p, q)))
        R.eqa("volume after the step = det F * reference volume", subj, out.f["volume_stack"],
              lambda q: X.mul(det3(at(out, "F_stack")(q)), X.sym("p%d.volume0_stack" % p, q)))
        if not reset:
            R.eqa("deformation gradient kept for laws without reset", subj, out.f["F_stack"], lambda q, j, k: mid.f["F_stack"].at(q, j, k))
        else:
            R.eqa("shear reset keeps the determinant", subj, Arr((out.f["F_stack"].shape[0],), lambda q: det3(at(out, "F_stack")(q)), "f"),
                  lambda q: det3(at(mid, "F_stack")(q)), loc=out.f["F_stack"].src)
            R.eqa("shear reset removes all shear", subj, out.f["F_stack"], lambda q, j, k: out.f["F_stack"].at(q, j, k) if I(j) == I(k) else X.ZERO)
        if store:
            R.eqa("stored deformation gradient accumulates the full history", subj, out.f["F_store_stack"],
                  lambda q, j, k: mm(inc(q), at(old, "F_store_stack")(q), I(j), I(k)))
        else:
            R.ob("nothing is stored unless requested", subj, out.f["F_store_stack"] is None, "F_store_stack appears without being requested")


def general(R, scheme, dim, reset):
    """a stored deformation gradient of any form (also coupled or stretched out of plane): the volume follows what is stored"""
    g = G2P(R, scheme, dim, VARIANTS[scheme][0][1], reset=reset, pinned=False)
    old, mid, out = g.st.mps[0], g.law_mp(0), g.out(0)
    V0 = X.sym("p0.volume0_stack", P)
    at = lambda o: (lambda j, k: o.f["F_stack"].at(P, X.C(j), X.C(k)))
    if mid is None:
        R.ob("material update reached", R.cur, False, "no material update")
        return
    R.eqa("volume seen by the law = det F * reference volume", R.cur, mid.f["volume_stack"], lambda q: X.mul(det3(at(mid)), V0), idx={0: P})
    R.eqa("volume after the step = det F * reference volume", R.cur, out.f["volume_stack"], lambda q: X.mul(det3(at(mid)), V0), idx={0: P})


def single(R, scheme):
    """a body of one particle keeps one volume per particle (concrete particle count 1)"""
    for dim in (3, 2):
        S = R.use(Scene(dim))
        log = []
        st = make(S, scheme, [Body(0, 0, 0, 0)], log=log)
        one = S.sym_obj("MaterialPointState", "p0", {"num_points": 1})
        one.f["F_store_stack"] = None
        ini = S.call(st.solver, "create_state", one)
        st.mem = [S.sym_obj(ini.cls, "mem0", {"num_points": 1})]
        st.state = S.state([one], laws=st.law_states, solvers=st.mem)
        from .common import run as step
        step(S, st)
        o = mp_out(S, st, 0)
        for f, v in one.f.items():
            if isinstance(v, Arr) and f in o.f:
                w = o.f[f]
                if isinstance(w, Top):
                    R.ob("field shapes survive a step", "%s %dD %s" % (R.cur, dim, f), None, "unknown")
                    continue
                w = lift(w)
                ok = len(w.shape) == len(v.shape)
                R.ob("field shapes survive a step", "%s %dD %s" % (R.cur, dim, f), ok, "shape %s becomes %s" % (v.shape, w.shape), w.src)


# ---------------------------------------------------------------- element test driver
def driver(R):
    for store in (False, True):
        S = R.use(Scene(3))
        log = []
        law = S.probe_law(0, log)
        drv = S.new("ElementTestDriver", constitutive_law=law, is_F_linear_approx=True)
        for lin in (True,):
            mp = S.body(0, store_F=store)
            L = sym_arr("Lin", mp.f["L_stack"].shape)
            r = S.call(drv, "step", mp, S.law_state(0), L, pyfloat("dt"), is_F_linear_approx=lin)
            out, _ = r
            subj = "driver store=%s" % store
            for f in ("mass_stack", "volume0_stack"):
                unchanged(R, "element test keeps %s" % f, subj, out.f[f], mp.f[f])
            at = lambda o: (lambda q: (lambda j, k: o.f["F_stack"].at(q, X.C(j), X.C(k))))
            R.eqa("element test volume = det F * reference volume", subj, out.f["volume_stack"], lambda q: X.mul(det3(at(out)(q)), X.sym("p0.volume0_stack", q)))
            mid = next((e[2] for e in log if e[0] == "law"), None)
            if mid is not None:
                R.eqa("element test law sees the volume of its deformation gradient", subj, mid.f["volume_stack"],
                      lambda q: X.mul(det3(at(mid)(q)), X.sym("p0.volume0_stack", q)))
            inc = lambda q: (lambda j, k: X.sub(X.ONE if j == k else X.ZERO, X.mul(X.sym("dt"), X.sym("Lin", q, X.C(j), X.C(k)))))
            R.eqa("element test deformation gradient advances by the imposed gradient", subj, out.f["F_stack"], lambda q, j, k: mm(inc(q), at(mp)(q), I(j), I(k)))


LAWS = ("LinearElasticLaw", "NewtonFluid", "MuI_LC", "DruckerPrager", "ModifiedCamClay")


def law_keeps(R, name):
    """no material law touches mass, volumes or the deformation gradients"""
    from .laws import law_scene
    S, law, mp, ls, res = law_scene(R, name)
    if isinstance(res, Top):
        R.ob("material update analysed", name, None, "unknown")
        return
    out = res[0]
    for f in ("mass_stack", "volume0_stack", "volume_stack", "F_stack", "F_store_stack"):
        unchanged(R, "material update leaves %s alone" % f, name, out.f[f], mp.f[f])
