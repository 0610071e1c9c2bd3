"""C19 element tests

The driver is interpreted with a probe material law; the triaxial control loop is interpreted in full (every load step, every Newton pass and the
derivative it takes) with a law whose stress responds linearly to the rate, so the state each run reports has a closed form."""
from .common import *
from sa.scene import JT

N0 = size("N0")
CONF, STRAIN = "confine", "rate"


def run(R):
    R.ranges = RG
    with R.group("driver"):
        driver(R)
    for mode in ("drained", "constant pressure", "undrained"):
        for rates in ("one rate", "a rate per step"):
            with R.group("triaxial %s, %s" % (mode, rates)):
                triaxial(R, mode, rates)
    with R.group("triaxial snapshots"):
        snapshots(R)
    with R.group("triaxial start"):
        start(R)
    with R.group("axial strain"):
        axial(R)
    with R.group("triaxial with a real law"):
        real(R)


RG = dict(RANGES, **{"kk": (40.0, 90.0), "gg": (10.0, 30.0), "confine": (1.0, 2.0), "rate": (0.05, 0.2), "dts": (0.1, 0.2), "dtt": (0.1, 0.2), "rates": (0.05, 0.2), "dt": (0.1, 0.3),
                     "m.stress": (1.0, 2.0), "ls0": (1, 2)})


# ---------------------------------------------------------------- driver
def driver(R):
    for lin, field, kwarg in (("exponential", False, None), ("exponential", False, False), ("linear", False, True), ("linear", True, True), ("linear", True, None), ("exponential", None, None)):
        subj = "is_F_linear_approx=%s, step argument %s" % (field, kwarg)
        S = R.use(Scene(3))
        log = []
        law = S.probe_law(0, log)
        drv = S.new("ElementTestDriver", **({"constitutive_law": law} if field is None else {"constitutive_law": law, "is_F_linear_approx": field}))
        mp = S.body(0, store_F=True)
        L = sym_arr("Lin", mp.f["L_stack"].shape)
        st = S.law_state(0)
        kw = {} if kwarg is None else {"is_F_linear_approx": kwarg}
        out, hist = S.it.iterate(S.call(drv, "step", mp, st, L, pyfloat("dt"), **kw), 2)
        calls = [e for e in log if e[0] == "law"]
        R.ob("the law is updated once per step", subj, len(calls) == 1, "%d updates" % len(calls), calls[-1][-1] if calls else None)
        if not calls:
            continue
        mid = calls[0][2]
        E = S.it.call(_ext("jax.scipy.linalg.expm"), [Arr((N0, 3, 3), lambda q, j, k: X.neg(X.mul(X.sym("dt"), X.sym("Lin", q, j, k))), "f")], {})

        def inc(q, j, k):
            if lin == "linear":
                return X.sub(X.ONE if j == k else X.ZERO, X.mul(X.sym("dt"), X.sym("Lin", q, X.C(j), X.C(k))))
            return E.at(q, X.C(j), X.C(k))
        want = lambda q, j, k: X.add(*[X.mul(inc(q, int(j.args[0]), m), mp.f["F_stack"].at(q, X.C(m), k)) for m in range(3)])
        special = {"Lin": lambda env, n, i: 0.6 * (2 * X._h(env.seed, n, i) - 1)}
        rule = "the imposed velocity gradient advances the deformation gradient (%s)" % lin
        with R.group("driver", key="driver_kinematics/%s" % subj.replace(" ", "_")):
            R.eqa(rule, subj, out.f["F_stack"], want, special=special)
        if (field, kwarg) != (True, None):
            R.eqa("the law sees the new deformation gradient", subj, mid.f["F_stack"], want, special=special)
        R.eqa("the law sees the imposed velocity gradient", subj, mid.f["L_stack"], lambda q, j, k: X.sym("Lin", q, j, k))
        R.eqa("the imposed velocity gradient is kept", subj, out.f["L_stack"], lambda q, j, k: X.sym("Lin", q, j, k))
        R.eqa("the step returns the law's stress", subj, out.f["stress_stack"], lambda q, j, k: X.sym("law0.stress", q, j, k))
        R.eqa("the step returns the law's history", subj, hist.f["history_stack"], lambda q: X.sym("law0.history_stack'", q))
        R.eq("the law steps by the requested step size", subj, lift(calls[0][4]), X.sym("dt"))
        R.ob("the law sees its own history", subj, calls[0][3] is st or unchanged_obj(calls[0][3], st), "history replaced before the update")
        for f in ("position_stack", "velocity_stack", "mass_stack", "volume0_stack"):
            if f in mp.f:
                unchanged(R, "an element test moves nothing", "%s %s" % (subj, f), out.f[f], mp.f[f])
                unchanged(R, "the law sees the particle unchanged otherwise", "%s %s" % (subj, f), mid.f[f], mp.f[f])
        unchanged(R, "the law starts from the previous stress", subj, mid.f["stress_stack"], mp.f["stress_stack"])


def unchanged_obj(a, b):
    return isinstance(a, Obj) and isinstance(b, Obj) and a.f == b.f


def _ext(n):
    from sa.values import Ext
    return Ext(n)


# ---------------------------------------------------------------- triaxial
def linear_law(S):
    """stress grows by dt*(kk*tr(L)/3 I + 2 gg dev(sym L)); history counts steps"""
    def update(it, a, kw):
        vals = list(a[1:]) + list(kw.values())
        mp = next(v for v in vals if isinstance(v, Obj) and v.cls.issub(S.cls("BaseMaterialPointState")))
        st = next(v for v in vals if isinstance(v, Obj) and v is not mp)
        dt = lift(next(v for v in vals if v is not mp and v is not st)).at()
        L, s0 = mp.f["L_stack"], mp.f["stress_stack"]
        L, s0 = lift(L), lift(s0)
        kk, gg = X.sym("kk"), X.sym("gg")

        def at(q, j, k):
            tr = X.add(*[L.at(q, X.C(m), X.C(m)) for m in range(3)])
            D = X.div(X.add(L.at(q, j, k), L.at(q, k, j)), X.C(2))
            third = X.div(tr, X.C(3))
            dl = X.where(X.eq(j, k), X.ONE, X.ZERO)
            return X.add(s0.at(q, j, k), X.mul(dt, X.add(X.mul(kk, third, dl), X.mul(X.C(2), gg, X.sub(D, X.mul(third, dl))))))
        m2 = obj_with(mp, stress_stack=materialize(Arr(tuple(s0.shape), at, "f")))
        s2 = obj_with(st, history_stack=materialize(Arr(tuple(st.f["history_stack"].shape), lambda q, h=st.f["history_stack"]: X.add(h.at(q), X.ONE), "f")))
        return (m2, s2)
    return S.raw(S.subclass("ConstitutiveLaw", "LinearProbe", {"update": update}), requires_F_reset=False)


def materialize(a):
    import itertools
    vals = {i: a.at(*[X.C(k) for k in i]) for i in itertools.product(*[range(n if isinstance(n, int) else int(n.args[0])) for n in a.shape])}

    def at(*i):
        if all(X.isc(k) for k in i):
            return vals[tuple(int(X.cval(k)) for k in i)]
        return a.at(*i)
    return Arr(a.shape, at, "f")


def point(S):
    """one unconfined particle with a stress state"""
    z = {"num_points": 1, "dim": 3}
    mp = S.sym_obj("MaterialPointState", "m", {"num_points": 1})
    c = lambda n, sh, f: materialize(Arr(sh, f, "f"))
    dl = lambda j, k: X.where(X.eq(j, k), X.ONE, X.ZERO)
    s = c("s", (1, 3, 3), lambda q, j, k: X.mul(dl(j, k), X.sym("m.stress", X.mul(j, X.where(X.eq(j, X.C(2)), X.ONE, X.ZERO)))))
    return obj_with(mp, stress_stack=s, F_stack=c("F", (1, 3, 3), lambda q, j, k: dl(j, k)), L_stack=c("L", (1, 3, 3), lambda q, j, k: X.ZERO),
                    volume_stack=c("V", (1,), lambda q: X.ONE), volume0_stack=c("V0", (1,), lambda q: X.ONE), F_store_stack=None)


def history(S):
    cl = S.subclass("ConstitutiveLawState", "CountState", {}, {"history_stack": JT("Float", "num_points")})
    return S.raw(cl, history_stack=Arr((1,), lambda q: X.sym("ls0"), "f"))


def test(R, mode="drained", steps=2, rates="one rate", law=None, **kw):
    S = R.use(Scene(3))
    S.it.unroll = 64
    drv = S.new("ElementTestDriver", constitutive_law=law(S) if law else linear_law(S))
    rate = pyfloat("rate") if rates == "one rate" else sym_arr("rates", (steps,))
    dt = pyfloat("dts") if rates == "one rate" else sym_arr("dtt", (steps,))
    t = S.new("TriaxialTest", solver=drv, confine=pyfloat("confine"), axial_rate=rate, dt=dt, is_undrained=mode == "undrained", is_p_constant=mode == "constant pressure",
              num_steps=steps, **kw)
    return S, t


def go(S, t, hist=None):
    mp, ls = S.it.iterate(S.call(t, "run", point(S), hist or history(S)), 2)
    return mp, ls


def rate_of(rates, k):
    return X.sym("rate") if rates == "one rate" else X.sym("rates", X.C(k))


def dt_of(rates, k):
    return X.sym("dts") if rates == "one rate" else X.sym("dtt", X.C(k))


def triaxial(R, mode, rates):
    steps = 2
    S, t = test(R, mode, steps, rates)
    mp, ls = go(S, t)
    L, s, F, V = (lift(mp.f[f]) for f in ("L_stack", "stress_stack", "F_stack", "volume_stack"))
    c = X.C
    R.ob("one recorded state per snapshot", R.cur, tuple(L.shape) in ((steps, 3, 3), (c(steps), 3, 3)), "recorded velocity gradients have shape %s" % (L.shape,), L.src)
    for k in range(steps):
        subj = "%s step %d" % (R.cur, k)
        g = lambda i, j: L.at(c(k), c(i), c(j))
        R.eq("the axial component moves at the requested rate, compression positive", subj, g(2, 2), rate_of(rates, k))
        near(R, "lateral components stay equal", subj, g(0, 0), g(1, 1))
        for i in range(3):
            for j in range(3):
                if i != j:
                    R.eq("no shear is imposed", "%s %d%d" % (subj, i, j), g(i, j), X.ZERO)
        if mode == "undrained":
            near(R, "undrained loading keeps the volume", subj, X.add(g(0, 0), g(1, 1), g(2, 2)), X.ZERO)
        elif mode == "drained":
            for i in (0, 1):
                near(R, "drained loading holds the lateral stress at the confinement", "%s %d" % (subj, i), s.at(c(k), c(i), c(i)), X.sym("confine"))
        else:
            near(R, "mean pressure is held at the confinement", subj, X.div(X.add(*[s.at(c(k), c(i), c(i)) for i in range(3)]), c(3)), X.sym("confine"))
        # the recorded stress is the response to the recorded rate, from the previous recorded state with the step's own size
        prev = (lambda i, j: s.at(c(k - 1), c(i), c(j))) if k else (lambda i, j: point(S).f["stress_stack"].at(c(0), c(i), c(j)))
        tr = X.add(*[g(i, i) for i in range(3)])
        for i in range(3):
            near(R, "the recorded stress responds to the recorded rate", "%s %d" % (subj, i), s.at(c(k), c(i), c(i)),
                 X.add(prev(i, i), X.mul(dt_of(rates, k), X.add(X.mul(X.sym("kk"), X.div(tr, c(3))), X.mul(c(2), X.sym("gg"), X.sub(g(i, i), X.div(tr, c(3))))))))
        R.eq("every step updates the history once", subj, lift(ls.f["history_stack"]).at(*([c(k)] + [c(0)] * (len(lift(ls.f["history_stack"]).shape) - 1))), X.add(X.sym("ls0"), c(k + 1)))


def near(R, rule, subject, got, want, tol=1e-5):
    """equal up to the tolerance of the Newton iteration, at every sample"""
    got, want = X.toE(got), X.toE(want)
    if got is want:
        return R.ob(rule, subject, True, "identical value")
    if got.top or want.top:
        return R.ob(rule, subject, None, "unknown value")
    for s in range(1, (20 if R.tier == "thorough" else 5) + 1):
        env = X.Env(s, R.ranges)
        try:
            a, b = env.ev(got), env.ev(want)
        except Unknown as u:
            return R.ob(rule, subject, None, str(u))
        if not abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            return R.ob(rule, subject, False, "%.8g instead of %.8g; value %s" % (a, b, X.show(got, 200)))
    R.ob(rule, subject, True, "equal within %g at all samples" % tol)


def snapshots(R):
    S1, t1 = test(R, "undrained", 4, "a rate per step")
    m1, l1 = go(S1, t1)
    S2, t2 = test(R, "undrained", 4, "a rate per step", stride=2)
    m2, l2 = go(S2, t2)
    c = X.C
    for f in ("stress_stack", "F_stack", "L_stack"):
        a, b = lift(m1.f[f]), lift(m2.f[f])
        R.ob("a stride of n keeps one state in n", f, b.shape[0] in (2, c(2)), "%s states recorded" % (b.shape[0],), b.src)
        for k in range(2):
            for i in range(3):
                near(R, "snapshots are the states after each stride, in order", "%s snapshot %d component %d" % (f, k, i), b.at(c(k), c(i), c(i)), a.at(c(2 * k + 1), c(i), c(i)))


def start(R):
    """a static start records the unchanged initial state first"""
    c = X.C
    S, t = test(R, "undrained", 3, "a rate per step", start_static=True)
    m, ls = go(S, t)
    s = lift(m.f["stress_stack"])
    p = point(S).f["stress_stack"]
    for i in range(3):
        near(R, "a static start leaves the first state unchanged", "stress %d" % i, s.at(c(0), c(i), c(i)), p.at(c(0), c(i), c(i)))
    R.eq("loading follows a static start", "rate", lift(m.f["L_stack"]).at(c(1), c(2), c(2)), X.sym("rates", c(1)))


def axial(R):
    c = X.C
    S, t = test(R, "undrained", 4, "a rate per step")
    e = lift(S.get(t, "axial_strain_stack"))
    for k in range(4):
        R.eq("axial strain accumulates rate times step size, compression positive", "step %d" % k, e.at(c(k)), X.add(*[X.mul(X.sym("rates", c(j)), X.sym("dtt", c(j))) for j in range(k + 1)]))
    R.ob("one axial strain per snapshot", "stride 1", e.shape[0] in (4, c(4)), "%s values" % (e.shape[0],), e.src)
    S, t = test(R, "undrained", 4, "a rate per step", stride=2)
    e = lift(S.get(t, "axial_strain_stack"))
    R.ob("one axial strain per snapshot", "stride 2", _two(e.shape[0]), "%s values" % (e.shape[0],), e.src)
    S, t = test(R, "undrained", 4, "one rate")
    e = lift(S.get(t, "axial_strain_stack"))
    R.ob("one axial strain per snapshot", "constant rate", e.shape[0] in (4, c(4)), "%s values" % (e.shape[0],), e.src)
    R.eq("axial strain ends at rate times duration", "constant rate", e.at(c(3)), X.mul(c(4), X.sym("rate"), X.sym("dts")))


def _two(x):
    if isinstance(x, int):
        return x == 2
    env = X.Env(1, {})
    return env.ev(x) == 2


def real(R):
    """the control works through a law of the library as well"""
    from .laws import law_obj
    c = X.C
    for mode in ("drained", "constant pressure"):
        S, t = test(R, mode, 1, "one rate", law=lambda S: law_obj(S, "LinearElasticLaw"))
        ls = S.sym_obj("LinearElasticLawState", "ls", {"num_points": 1}) if S.has("LinearElasticLawState") else S.sym_obj("ConstitutiveLawState", "ls", {"num_points": 1})
        mp, _ = go(S, t, ls)
        s = lift(mp.f["stress_stack"])
        v = s.at(c(0), c(0), c(0)) if mode == "drained" else X.div(X.add(*[s.at(c(0), c(i), c(i)) for i in range(3)]), c(3))
        near(R, "the controlled stress reaches the confinement", "linear elastic, %s" % mode, v, X.sym("confine"), 1e-4)
