"""C10 obstacles move and are evaluated as rigid bodies"""
import math

from .common import *

N0 = size("N0")
Q = P
PR = {"c": (-2, 2), "x": (-3, 3), "y": (-3, 3), "v": (-2, 2), "w": (-2, 2), "th": (-3, 3), "u": (-1, 1), "a": (-1, 1), "B": (-0.6, 0.6), "k": (-1, 1),
      "dt": (0.01, 0.5), "m": (0.2, 0.9), "ma": (-0.3, 0.3)}
U = {"u": lambda env, name, idx: (0.9, 0.3, -0.5, 0.4)[int(idx[0])] * (0.6 + 0.8 * X._h(env.seed, "u", int(idx[0])))}


def run(R):
    R.ranges = dict(PR)
    for dim in (2, 3):
        with R.group("evaluation frame %dD" % dim):
            frame(R, dim)
        with R.group("motion %dD" % dim):
            motion(R, dim)
        with R.group("initial state %dD" % dim):
            initial(R, dim, lambda S: probe(S, dim))
        if Scene(dim).cls("SDFCollider").lookup("create_state") is not None:
            with R.group("initial state from the contact force %dD" % dim):
                initial(R, dim, lambda S: S.new("SDFCollider"))
        with R.group("particle cloud %dD" % dim):
            cloud(R, dim)
        with R.group("smoothed particle cloud %dD" % dim):
            smooth_cloud(R, dim)
    for name, dim, mk, ref in shapes(R):
        with R.group("%s %dD" % (name, dim), key="completes/%s_%dD" % (name, dim)):
            shape(R, name, dim, mk, ref)
    for dim in (2, 3):
        with R.group("CompositeSDF %dD" % dim):
            composite(R, dim)
        with R.group("DomainSDF %dD" % dim):
            container(R, dim)
    with R.group("GridSDF"):
        gridsdf(R)


# ---------------------------------------------------------------- poses
def pose(S, dim, tag=""):
    """state of a rigid obstacle at an arbitrary pose and motion (unit quaternion in 3D)"""
    vec = lambda n: sym_arr(tag + n, (dim,))
    if dim == 2:
        rot, om = fscalar(tag + "th"), fscalar(tag + "w")
    else:
        nrm = X.sqrt(X.add(*[X.power(X.sym(tag + "u", X.C(k)), X.C(2)) for k in range(4)]))
        rot = Arr((4,), lambda k: X.div(X.sym(tag + "u", k), nrm), "f")
        om = sym_arr(tag + "w", (3,))
    return S.raw("SDFObjectState", center_of_mass=vec("c"), rotation=rot, velocity=vec("v"), angular_velocity=om)


def rmat(dim, rot):
    """rotation matrix (local to world) as expressions, from the state's rotation entry"""
    if dim == 2:
        t = X.toE(lift(rot).at())
        c, s = X.func("cos", t), X.func("sin", t)
        return [[c, X.neg(s)], [s, c]]
    w, x, y, z = [lift(rot).at(X.C(k)) for k in range(4)]
    m, a, s, two = X.mul, X.add, X.sub, X.C(2)
    return [[s(X.ONE, m(two, a(m(y, y), m(z, z)))), m(two, s(m(x, y), m(w, z))), m(two, a(m(x, z), m(w, y)))],
            [m(two, a(m(x, y), m(w, z))), s(X.ONE, m(two, a(m(x, x), m(z, z)))), m(two, s(m(y, z), m(w, x)))],
            [m(two, s(m(x, z), m(w, y))), m(two, a(m(y, z), m(w, x))), s(X.ONE, m(two, a(m(x, x), m(y, y))))]]


def local(dim, st, x):
    """R^T (x - c)"""
    M = rmat(dim, st.f["rotation"])
    d = [X.sub(x[k], st.f["center_of_mass"].at(X.C(k))) for k in range(dim)]
    return [X.add(*[X.mul(M[j][k], d[j]) for j in range(dim)]) for k in range(dim)]


def cross(dim, st, r):
    w = lift(st.f["angular_velocity"])
    if dim == 2:
        o = X.toE(w.at())
        return [X.neg(X.mul(o, r[1])), X.mul(o, r[0])]
    o = [w.at(X.C(k)) for k in range(3)]
    return [X.sub(X.mul(o[(k + 1) % 3], r[(k + 2) % 3]), X.mul(o[(k + 2) % 3], r[(k + 1) % 3])) for k in range(3)]


def phi(p):
    """an arbitrary smooth local distance"""
    d = len(p)
    return X.add(X.sym("k"), *[X.mul(X.sym("a", X.C(i)), p[i]) for i in range(d)], *[X.mul(X.sym("B", X.C(i), X.C(j)), p[i], p[j]) for i in range(d) for j in range(d)])


def mu(p):
    return X.add(X.sym("m"), *[X.mul(X.sym("ma", X.C(i)), p[i]) for i in range(len(p))])


def probe(S, dim):
    def g(f):
        def m(it, a, kw):
            p = lift(a[2] if len(a) > 2 else list(kw.values())[-1])
            return Arr((), lambda: f([p.at(X.C(k)) for k in range(dim)]), "f")
        return m
    return S.raw(S.subclass("SDFObjectBase", "ProbeShape", {"signed_distance_local": g(phi), "get_surface_friction_local": g(mu)}))


def frame(R, dim):
    S = R.use(Scene(dim))
    o, st = probe(S, dim), pose(S, dim)
    xs = [X.sym("x", X.C(k)) for k in range(dim)]
    x = sym_arr("x", (dim,))
    loc = local(dim, st, xs)
    sp = U
    tl = S.call(o, "transform_to_local", st, x)
    R.eqa("query points enter the obstacle's own frame through the inverse of its pose", R.cur, tl, lambda k: loc[int(X.cval(k))], special=sp)
    R.eq("signed distance is evaluated in the obstacle's frame", R.cur, S.call(o, "signed_distance", st, x), phi(loc), special=sp)
    R.eq("friction is evaluated in the obstacle's frame", R.cur, S.call(o, "get_surface_friction", st, x), mu(loc), special=sp)
    # normal: normalised world gradient
    M = rmat(dim, st.f["rotation"])
    gl = [X.add(X.sym("a", X.C(i)), *[X.mul(X.add(X.sym("B", X.C(i), X.C(j)), X.sym("B", X.C(j), X.C(i))), loc[j]) for j in range(dim)]) for i in range(dim)]
    gw = [X.add(*[X.mul(M[k][i], gl[i]) for i in range(dim)]) for k in range(dim)]
    nn = X.sqrt(X.add(*[X.mul(g, g) for g in gw]))
    nrm = S.call(o, "get_normal", st, x)
    R.eqa("normal is the unit gradient of the signed distance", R.cur, nrm, lambda k: X.div(gw[int(X.cval(k))], nn), special=sp, tol=1e-6)
    rel = [X.sub(xs[k], X.sym("c", X.C(k))) for k in range(dim)]
    cr = cross(dim, st, rel)
    vel = S.call(o, "get_velocity", st, x, fscalar("dt"))
    R.eqa("surface velocity = linear velocity + angular velocity x lever arm", R.cur, vel, lambda k: X.add(X.sym("v", k), cr[int(X.cval(k))]), special=sp)
    # batched queries
    Y = sym_arr("y", (N0, dim))
    y = Arr((dim,), lambda k: X.sym("y", Q, k), "f")
    for stk, one, extra in (("get_signed_distance_stack", "signed_distance", ()), ("get_normal_stack", "get_normal", ()),
                            ("get_velocity_stack", "get_velocity", (fscalar("dt"),)), ("get_surface_friction_stack", "get_surface_friction", ())):
        if o.cls.lookup(stk) is None:
            continue
        a, b = S.call(o, stk, st, Y, *extra), lift(S.call(o, one, st, y, *extra))
        R.eqa("batched queries equal single ones row by row", "%s %s" % (R.cur, stk), a, lambda q, *k: b.at(*k), idx={0: Q}, special=sp)


def motion(R, dim):
    S = R.use(Scene(dim))
    o, st = probe(S, dim), pose(S, dim)
    ns = S.call(o, "update_kinematics", st, fscalar("dt"))
    sp = U
    R.eqa("position advances by velocity times step size", R.cur, S.get(ns, "center_of_mass"), lambda k: X.add(X.sym("c", k), X.mul(X.sym("dt"), X.sym("v", k))))
    for f in ("velocity", "angular_velocity"):
        g, w = lift(S.get(ns, f)), lift(st.f[f])
        R.eqa("motion keeps the prescribed velocities", "%s %s" % (R.cur, f), g, lambda *k: w.at(*k))
    rot = lift(S.get(ns, "rotation"))
    if dim == 2:
        R.eq("angle advances by angular velocity times step size", R.cur, rot, X.add(X.sym("th"), X.mul(X.sym("dt"), X.sym("w"))))
    else:
        R.eq("orientation stays a unit quaternion", R.cur, X.add(*[X.power(rot.at(X.C(k)), X.C(2)) for k in range(4)]), X.ONE, special=sp, tol=1e-6)
        # a quaternion that lost its norm is renormalised as well
        st2 = obj_with(st, rotation=Arr((4,), lambda k: X.sym("u", k), "f"))
        r2 = lift(S.get(S.call(o, "update_kinematics", st2, fscalar("dt")), "rotation"))
        R.eq("orientation is normalised when it drifted", R.cur, X.add(*[X.power(r2.at(X.C(k)), X.C(2)) for k in range(4)]), X.ONE, special=sp, tol=1e-6)
        still = obj_with(st, angular_velocity=Arr((3,), lambda k: X.ZERO, "f"))
        r3 = lift(S.get(S.call(o, "update_kinematics", still, fscalar("dt")), "rotation"))
        R.eqa("orientation is kept without rotation", R.cur, r3, lambda k: lift(st.f["rotation"]).at(k), special=sp, tol=1e-6)
    # material points of the obstacle move with the surface velocity
    ell = [X.sym("x", X.C(k)) for k in range(dim)]
    M0, M1 = rmat(dim, st.f["rotation"]), rmat(dim, rot)
    r = [X.add(*[X.mul(M0[k][j], ell[j]) for j in range(dim)]) for k in range(dim)]
    cr = cross(dim, st, r)
    eps = {"dt": (0.9e-5, 1.1e-5)}
    for k in range(dim):
        moved = X.sub(X.add(*[X.mul(X.sub(M1[k][j], M0[k][j]), ell[j]) for j in range(dim)], S.get(ns, "center_of_mass").at(X.C(k))), st.f["center_of_mass"].at(X.C(k)))
        R.eq("material points of the obstacle move with its surface velocity", "%s axis %d" % (R.cur, k), X.div(moved, X.sym("dt")), X.add(X.sym("v", X.C(k)), cr[k]), ranges=eps, special=sp, tol=3e-4)
    # two half steps reach the orientation of one full step
    h1 = S.call(o, "update_kinematics", st, Arr((), lambda: X.mul(X.C(0.5), X.sym("dt")), "f"))
    h2 = S.call(o, "update_kinematics", h1, Arr((), lambda: X.mul(X.C(0.5), X.sym("dt")), "f"))
    rr = lift(S.get(h2, "rotation"))
    R.eqa("successive steps compose", R.cur, rr, lambda *k: rot.at(*k), special=sp, ranges={"dt": (0.9e-3, 1.1e-3)}, tol=1e-5)


def cloud(R, dim):
    """the distance to a particle cloud is the distance to the nearest of discs/balls with the particles' areas/volumes"""
    S = R.use(Scene(dim))
    if not S.has("MaterialPointCloudSDF"):
        return R.ob("particle cloud", R.cur, None, "absent")
    o = S.new("MaterialPointCloudSDF", smooth_k=0.0)
    mp = S.body(0)
    x = sym_arr("x", (dim,))
    q = X.fresh_bv(size("N0"))
    V = X.sym("p0.volume0_stack", q)
    off = [X.sub(X.sym("x", X.C(k)), X.sym("p0.position_stack", q, X.C(k))) for k in range(dim)]
    rad = X.sqrt(X.div(V, X.PI)) if dim == 2 else X.power(X.div(X.mul(X.C(3), V), X.mul(X.C(4), X.PI)), X.div(X.ONE, X.C(3)))
    key = X.sub(X.sqrt(X.add(*[X.mul(t, t) for t in off])), rad)
    rg = {"p0.volume0_stack": (0.05, 2.0), "x": (-3, 3)}
    d = S.call(o, "signed_distance", x, mp)
    R.eq("distance to a particle cloud = distance to its nearest particle's disc or ball", R.cur, d, X.pick("min", q, key, key), ranges=rg, tol=1e-5)
    ln = X.sqrt(X.add(*[X.mul(t, t) for t in off]))
    nv = S.call(o, "get_normal", x, mp)
    R.eqa("normal of a particle cloud points away from its nearest particle", R.cur, nv, lambda k: X.pick("min", q, key, X.div(off[int(X.cval(k))], ln)), ranges=rg, tol=1e-5)
    Y = sym_arr("y", (N0, dim))
    y = Arr((dim,), lambda k: X.sym("y", Q, k), "f")
    for stk, one in (("get_signed_distance_stack", "signed_distance"), ("get_normal_stack", "get_normal")):
        a, b = S.call(o, stk, Y, mp), lift(S.call(o, one, y, mp))
        R.eqa("batched queries equal single ones row by row", "%s %s" % (R.cur, stk), a, lambda q, *k: b.at(*k), idx={0: Q}, ranges=rg)


def smooth_cloud(R, dim):
    """the smoothed union of a particle cloud stays between the exact distance and ln(number of particles)/k below it"""
    S = R.use(Scene(dim))
    if not S.has("MaterialPointCloudSDF"):
        return R.ob("particle cloud", R.cur, None, "absent")
    o = S.new("MaterialPointCloudSDF", smooth_k=2.0)
    for n in (1, 3):
        pts, V = sym_arr("pt", (n, dim)), sym_arr("vol", (n,))
        mp = obj_with(S.body(0), position_stack=pts, volume0_stack=V)
        rg = {"pt": (-1, 1), "vol": (0.02, 0.5), "x": (-3, 3)}

        def exact(env):
            rs = [env.symbol("vol", (k,)) for k in range(n)]
            rs = [math.sqrt(v / math.pi) if dim == 2 else (3 * v / (4 * math.pi)) ** (1 / 3) for v in rs]
            return min(hyp(*[env.symbol("x", (j,)) - env.symbol("pt", (k, j)) for j in range(dim)]) - rs[k] for k in range(n))
        d = R.toE(S.call(o, "signed_distance", sym_arr("x", (dim,)), mp))
        subj = "%s %d particle(s)" % (R.cur, n)
        rule = "a smoothed cloud distance stays within ln(n)/k below the exact one"
        if d is None or d.top:
            R.ob(rule, subj, None, "value unknown")
            continue
        bad = None
        for seed in range(1, 61):
            env = X.Env(seed, dict(R.ranges, **rg))
            v, e = env.ev(d), exact(env)
            if not (e - math.log(n) / 2 - 1e-4 <= v <= e + 1e-4):
                bad = bad or "smoothed distance %.5g, exact %.5g with k = 2 (sample %d)" % (v, e, seed)
        R.ob(rule, subj, bad is None, bad or "60 sampled points")


def initial(R, dim, mk):
    S = R.use(Scene(dim))
    o = mk(S)
    c = sym_arr("c", (dim,))
    st = S.call(o, "create_state", c)
    R.eqa("initial centre is the given one", R.cur, S.get(st, "center_of_mass"), lambda k: X.sym("c", k))
    R.eqa("obstacles rest by default", R.cur + " velocity", S.get(st, "velocity"), lambda k: X.ZERO)
    R.eqa("obstacles rest by default", R.cur + " angular velocity", S.get(st, "angular_velocity"), lambda *k: X.ZERO)
    if dim == 2:
        R.eq("obstacles are unrotated by default", R.cur, S.get(st, "rotation"), X.ZERO)
    else:
        R.eqa("obstacles are unrotated by default", R.cur, S.get(st, "rotation"), lambda k: X.ONE if X.cval(k) == 0 else X.ZERO)
    ref = pose(S, dim)
    st = S.call(o, "create_state", c, velocity=ref.f["velocity"], angular_velocity=ref.f["angular_velocity"], rotation=ref.f["rotation"])
    for f in ("velocity", "angular_velocity", "rotation"):
        w = lift(ref.f[f])
        R.eqa("given motion and pose are stored", "%s %s" % (R.cur, f), S.get(st, f), lambda *k: w.at(*k), special=U)


# ---------------------------------------------------------------- shapes
def hyp(*a):
    return math.sqrt(sum(t * t for t in a))


def boxd(p, h):
    d = [abs(a) - b for a, b in zip(p, h)]
    return hyp(*[max(t, 0.0) for t in d]) + min(max(d), 0.0)


def star(p, n, ro, ri):
    pts = []
    for k in range(n):
        a = 2 * math.pi * k / n
        pts.append((ro * math.sin(a), ro * math.cos(a)))
        b = a + math.pi / n
        pts.append((ri * math.sin(b), ri * math.cos(b)))
    best, inside = 1e9, False
    for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
        ex, ey = x1 - x0, y1 - y0
        t = max(0.0, min(1.0, ((p[0] - x0) * ex + (p[1] - y0) * ey) / (ex * ex + ey * ey)))
        best = min(best, hyp(p[0] - x0 - t * ex, p[1] - y0 - t * ey))
        if (y0 > p[1]) != (y1 > p[1]) and p[0] < (x1 - x0) * (p[1] - y0) / (y1 - y0) + x0:
            inside = not inside
    return -best if inside else best


def cyl(p):
    return hyp(p[0], p[2]) if len(p) == 3 else hyp(*p)


SR = {"x": (-2.2, 2.2), "c": (-0.5, 0.5), "r0": (0.3, 1.2), "R0": (4.5, 6.0), "r1": (0.1, 0.3), "ht": (0.6, 2.0), "s": (0.6, 2.4), "nrm": (0.3, 1.0)}


def shapes(R):
    """(class, dim, constructor, exact distance given numeric local point and parameter lookup)"""
    f = pyfloat
    V = lambda dim: sym_arr("s", (dim,))
    for dim in (2, 3):
        yield "BoxSDF", dim, (lambda S, dim=dim: S.new("BoxSDF", V(dim))), lambda p, g: boxd(p, [g("s", k) / 2 for k in range(len(p))])
        yield "SphereSDF", dim, (lambda S: S.new("SphereSDF", f("r0"))), lambda p, g: hyp(*p) - g("r0")
        yield "PlaneSDF", dim, (lambda S, dim=dim: S.new("PlaneSDF", sym_arr("nrm", (dim,)))), lambda p, g: (lambda n: sum(a * b for a, b in zip(p, n)) / hyp(*n))([g("nrm", k) for k in range(len(p))])
        yield "CapsuleSDF", dim, (lambda S: S.new("CapsuleSDF", f("r0"), f("ht"))), lambda p, g: hyp(p[0], *p[2:], p[1] - max(-g("ht") / 2, min(g("ht") / 2, p[1]))) - g("r0")
    yield "HollowCylinderSDF", 3, (lambda S: S.new("HollowCylinderSDF", f("ht"), f("r0"), f("r1"))), lambda p, g: ring(hyp(p[0], p[2]), abs(p[1]) - g("ht") / 2, g)
    yield "HollowCylinderSDF", 2, (lambda S: S.new("HollowCylinderSDF", f("ht"), f("r0"), f("r1"))), lambda p, g: ring(hyp(*p), -1e9, g)
    yield "HollowCylinderSDF (thick wall)", 2, (lambda S: S.new("HollowCylinderSDF", f("ht"), f("R0"), f("r1"))), lambda p, g: ring(hyp(*p), -1e9, g, "R0")
    yield "HollowCylinderSDF (side view)", 2, (lambda S: S.new("HollowCylinderSDF", f("ht"), f("r0"), f("r1"), is_2d_ring=False)), lambda p, g: ring(abs(p[0]), abs(p[1]) - g("ht") / 2, g)
    yield "CylinderSDF", 3, (lambda S: S.new("CylinderSDF", f("r0"), f("ht"))), lambda p, g: (lambda d: hyp(max(d[0], 0), max(d[1], 0)) + min(max(d), 0.0))((hyp(p[0], p[2]) - g("r0"), abs(p[1]) - g("ht") / 2))
    yield "TorusSDF", 3, (lambda S: S.new("TorusSDF", f("r0"), f("r1"))), lambda p, g: hyp(hyp(p[0], p[2]) - g("r0"), p[1]) - g("r1")
    for n in (5, 6, 3):
        yield "StarSDF (%d points)" % n, 2, (lambda S, n=n: S.new("StarSDF", n, f("r0"), f("r1"))), lambda p, g, n=n: star(p, n, g("r0"), g("r1"))


def ring(r, dy, g, outer="r0"):
    dr = max(r - g(outer), g("r1") - r)
    return hyp(max(dr, 0), max(dy, 0)) + min(max(dr, dy), 0.0)


def par(env):
    def g(name, k=None):
        return env.symbol(name, () if k is None else (k,))
    return g


def near(R, rule, subj, got, ref, n=60, tol=2e-4, ranges=None, special=None, loc=None):
    """sampled comparison of value-graph nodes with a numeric reference (ref returns None where it does not decide)"""
    rg = dict(R.ranges)
    rg.update(ranges or {})
    got = [R.toE(g) if not isinstance(g, X.E) else g for g in got]
    if any(g is None or g.top for g in got):
        return R.ob(rule, subj, None, "value unknown", loc)
    used = 0
    for seed in range(1, n + 1):
        env = X.Env(seed, rg, None, special or {})
        want = ref(env)
        if want is None:
            continue
        vals = [env.ev(g) for g in got]
        used += 1
        for k, (v, w) in enumerate(zip(vals, want)):
            if not (abs(v - w) <= tol * max(1.0, abs(w))):
                return R.ob(rule, subj, False, "component %d: computed %.6g, required %.6g (sample %d); computed value %s" % (k, v, w, seed, X.show(got[k], 200)), loc)
    return R.ob(rule, subj, True if used else None, "%d sampled points" % used, loc)


def fdiff(ref, p, h=1e-5):
    """numeric gradient; None near kinks"""
    g = []
    for k in range(len(p)):
        a, b, c = [list(p) for _ in range(3)]
        a[k] += h
        b[k] -= h
        f0, f1, f2 = ref(p), ref(a), ref(b)
        if abs((f1 - f0) - (f0 - f2)) > 2e-3 * h:
            return None
        g.append((f1 - f2) / (2 * h))
    n = hyp(*g)
    return [t / n for t in g] if n > 0.1 else None


def surface(ref, dim):
    """query points close to the surface, on both sides of it"""
    cache = {}

    def f(env, name, idx):
        if env.seed not in cache:
            if len(cache) > 500:
                cache.clear()
            u = lambda *k: X._h(env.seed, "surf", *k)
            g = par(env)
            try:
                ps = [[4 * (u(t, k) - 0.5) * (0.1 + 0.9 * u(t)) for k in range(dim)] for t in range(40)]
                a = next((p for p in ps if ref(p, g) < 0), None)
                outs = [p for p in ps if ref(p, g) > 0]
                b = min(outs, key=lambda p: hyp(*[q - r for q, r in zip(p, a or p)])) if outs and u("near") < 0.5 else (outs[0] if outs else None)
                if a is None or b is None:
                    p = ps[0]
                else:
                    for _ in range(30):
                        m = [(q + r) / 2 for q, r in zip(a, b)]
                        a, b = (m, b) if ref(m, g) < 0 else (a, m)
                    p = [q + (u("off", k) - 0.5) * (0.4 if u("w") < 0.6 else 0.05) for k, q in enumerate(a)]
            except KeyError:
                p = [0.0] * dim
            cache[env.seed] = p
        return cache[env.seed][int(idx[0])]
    return f


def shape(R, name, dim, mk, ref):
    S = R.use(Scene(dim))
    if not S.has(name.split()[0]):
        return R.ob("shape distance", R.cur, None, "shape absent")
    o, st = mk(S), pose(S, dim)
    x = sym_arr("x", (dim,))
    rg = dict(SR)
    n = 150 if R.tier == "thorough" else 60
    rot = lift(st.f["rotation"])
    M = rmat(dim, rot)

    def world(env, xw):
        """numeric local point of a world point"""
        m = [[env.ev(M[i][j]) for j in range(dim)] for i in range(dim)]
        c = [env.symbol("c", (k,)) for k in range(dim)]
        return [sum(m[j][k] * (xw[j] - c[j]) for j in range(dim)) for k in range(dim)]
    xn = lambda env: [env.symbol("x", (k,)) for k in range(dim)]
    pl = sym_arr("x", (dim,))
    d = S.call(o, "signed_distance_local", st, pl)
    near(R, "the shape's local distance is the exact signed distance", R.cur, [d], lambda env: [ref(xn(env), par(env))], n=n, ranges=rg, special=U, loc=lift(d).src)
    near(R, "the shape's local distance is exact close to its surface", R.cur, [d], lambda env: [ref(xn(env), par(env))], n=2 * n, ranges=rg, special=dict(U, x=surface(ref, dim)), loc=lift(d).src)
    d = S.call(o, "signed_distance", st, x)
    near(R, "the shape's distance at any pose is the exact signed distance", R.cur, [d], lambda env: [ref(world(env, xn(env)), par(env))], n=n, ranges=rg, special=U, loc=lift(d).src)
    nv = lift(S.call(o, "get_normal", st, x))
    near(R, "the shape's normal is the unit gradient of its distance", R.cur, [nv.at(X.C(k)) for k in range(dim)],
         lambda env: fdiff(lambda y: ref(world(env, y), par(env)), xn(env)), n=n, ranges=rg, special=U, tol=2e-3, loc=nv.src)


def composite(R, dim):
    S = R.use(Scene(dim))
    subs = [probe(S, dim) for _ in range(3)]

    def loc(k):
        def m(it, a, kw):
            p = lift(a[2] if len(a) > 2 else list(kw.values())[-1])
            return Arr((), lambda: X.add(X.sym("k%d" % k), *[X.mul(X.sym("a%d" % k, X.C(i)), p.at(X.C(i))) for i in range(dim)]), "f")
        return m
    subs = [S.raw(S.subclass("SDFObjectBase", "Part%d" % k, {"signed_distance_local": loc(k)})) for k in range(3)]
    o = S.new("CompositeSDF", PList(list(subs)), PList([pyfloat("mu%d" % k) for k in range(3)]))
    st = pose(S, dim)
    x = sym_arr("x", (dim,))
    pl = local(dim, st, [X.sym("x", X.C(k)) for k in range(dim)])
    rg = {"k*": (-1, 1), "a*": (-1, 1), "mu*": (0.1, 1.0)}
    parts = lambda env: [env.symbol("k%d" % k, ()) + sum(env.symbol("a%d" % k, (i,)) * env.ev(pl[i]) for i in range(dim)) for k in range(3)]
    near(R, "a composite's distance is that of its nearest part", R.cur, [S.call(o, "signed_distance", st, x)], lambda env: [min(parts(env))], ranges=rg, special=U)

    def fr(env):
        d = parts(env)
        return [env.symbol("mu%d" % d.index(min(d)), ())]
    near(R, "a composite's friction is that of its nearest part", R.cur, [S.call(o, "get_surface_friction", st, x)], fr, ranges=rg, special=U)

    def nr(env):
        d = parts(env)
        k = d.index(min(d))
        M = rmat(dim, st.f["rotation"])
        g = [sum(env.ev(M[i][j]) * env.symbol("a%d" % k, (j,)) for j in range(dim)) for i in range(dim)]
        return [t / hyp(*g) for t in g]
    nv = lift(S.call(o, "get_normal", st, x))
    near(R, "a composite's normal is that of its nearest part", R.cur, [nv.at(X.C(k)) for k in range(dim)], nr, ranges=rg, special=U)


def container(R, dim):
    S = R.use(Scene(dim))
    tup = lambda n: tuple(pyfloat("%s%d" % (n, k)) for k in range(dim))
    rg = {"lo*": (-1.5, -0.5), "hi*": (0.5, 1.5), "x": (-2, 2), "fr*": (0.1, 1.0)}
    for mode in ("uniform friction", "friction per wall"):
        fr = pyfloat("fr") if mode.startswith("uni") else PList([pyfloat("fr%d" % k) for k in range(2 * dim)])
        o = S.new("DomainSDF", origin=tup("lo"), end=tup("hi"), frictions=fr)
        st = pose(S, dim)
        x = sym_arr("x", (dim,))
        xs = lambda env: [env.symbol("x", (k,)) for k in range(dim)]
        walls = lambda env: [xs(env)[k] - env.symbol("lo%d" % k, ()) for k in range(dim)] + [env.symbol("hi%d" % k, ()) - xs(env)[k] for k in range(dim)]
        subj = "%s %s" % (R.cur, mode)
        near(R, "container distance is the distance to the nearest wall, positive inside, whatever its pose", subj, [S.call(o, "signed_distance", st, x)], lambda env: [min(walls(env))], ranges=rg, special=U)

        def nr(env):
            w = walls(env)
            k = w.index(min(w))
            return [(1.0 if k < dim else -1.0) if j == k % dim else 0.0 for j in range(dim)]
        nv = lift(S.call(o, "get_normal", st, x))
        near(R, "container normal points inwards from the nearest wall", subj, [nv.at(X.C(k)) for k in range(dim)], nr, ranges=rg, special=U)

        def fv(env):
            w = walls(env)
            k = w.index(min(w))
            return [env.symbol("fr" if mode.startswith("uni") else "fr%d" % k, ())]
        near(R, "container friction is that of the nearest wall", subj, [S.call(o, "get_surface_friction", st, x)], fv, ranges=rg, special=U)
    st2 = S.call(o, "update_kinematics", st, fscalar("dt"))
    d2 = S.call(o, "signed_distance", st2, x)
    near(R, "a container's walls stay where they are", R.cur, [d2], lambda env: [min(walls(env))], ranges=rg, special=U)


def gridsdf(R):
    S = R.use(Scene(3))
    n = (5, 6, 7)
    o = S.raw("GridSDF", sdf_data=sym_arr("img", n), grid_min=sym_arr("gmin", (3,)), grid_size=sym_arr("gsz", (3,)), thickness=pyfloat("thk"), scale=pyfloat("sc"))
    rg = {"img": (-1, 1), "gmin": (-1, -0.5), "gsz": (1.0, 2.0), "thk": (0.01, 0.1), "sc": (0.5, 2.0), "x": (-2, 2)}

    def ref(env, p):
        sc = env.symbol("sc", ())
        c = [(p[k] / sc - env.symbol("gmin", (k,))) / env.symbol("gsz", (k,)) * (n[k] - 1) for k in range(3)]
        lo = [math.floor(t) for t in c]
        tot = 0.0
        for b in range(8):
            w, ix = 1.0, []
            for k in range(3):
                bit = (b >> k) & 1
                w *= (c[k] - lo[k]) if bit else 1 - (c[k] - lo[k])
                ix.append(max(0, min(n[k] - 1, lo[k] + bit)))
            tot += w * env.symbol("img", tuple(ix))
        return tot * sc - env.symbol("thk", ())
    st = pose(S, 3)
    pl = local(3, st, [X.sym("x", X.C(k)) for k in range(3)])
    x = sym_arr("x", (3,))
    near(R, "tabulated distance is the scaled interpolation of the table minus the thickness", R.cur, [S.call(o, "signed_distance_local", st, x)],
         lambda env: [ref(env, [env.symbol("x", (k,)) for k in range(3)])], ranges=rg, special=U)
    near(R, "tabulated distance is evaluated in the obstacle's frame", R.cur, [S.call(o, "signed_distance", st, x)],
         lambda env: [ref(env, [env.ev(t) for t in pl])], ranges=rg, special=U)
    lo, hi = S.it.iterate(S.call(o, "get_local_bounds"), 2)
    bb = lambda s: (lambda env: [(env.symbol("gmin", (k,)) + (env.symbol("gsz", (k,)) if s > 0 else 0)) * env.symbol("sc", ()) + s * env.symbol("thk", ()) for k in range(3)])
    near(R, "local bounds enclose the scaled table with its thickness", R.cur + " lower", [lift(lo).at(X.C(k)) for k in range(3)], bb(-1), ranges=rg)
    near(R, "local bounds enclose the scaled table with its thickness", R.cur + " upper", [lift(hi).at(X.C(k)) for k in range(3)], bb(1), ranges=rg)
