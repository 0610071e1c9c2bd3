"""C09 contact is non-penetrating, non-adhesive, Coulomb-bounded and local"""
from .common import *
from .common import run as step

n = X.sym("#node")
SLOW = {"gm*": (1e-6, 1e-4), "gn*": (-2e-8, 2e-8), "wallscale": (0.0, 2e-4)}
CR = dict(RANGES)
CR.update({"wallscale": (0.5, 1.5), "gm*": (0.5, 2.0), "fric*": (0.2, 1.5), "*.h": (0.3, 1.0), "g*.origin*": (-1, 0), "g*.end*": (4, 9), "#node": (0, 40), "#num*": (500, 900)})


def geometry(S, k, log):
    """obstacle with uninterpreted geometry of the query point and its own state: unit normals, non-negative friction, distance = base + small variation"""
    dim = S.dim

    def q(it, a, kw):
        st, pts = a[1], a[2] if len(a) > 2 else next(v for v in kw.values() if isinstance(v, Arr))
        pts = lift(pts)
        return lambda nm, i, *j: X.fn("%s%d" % (nm, k), *[pts.at(i, X.C(d)) for d in range(dim)], *[st.f["center_of_mass"].at(X.C(d)) for d in range(dim)], *j), pts

    def dist(it, a, kw):
        f, pts = q(it, a, kw)
        return Arr((pts.shape[0],), lambda i: X.add(X.sym("dist%d" % k), X.mul(X.C(0.01), f("dvar", i))), "f")

    def normal(it, a, kw):
        f, pts = q(it, a, kw)

        def at(i, j):
            c = [f("nrm", i, X.C(d)) for d in range(dim)]
            return X.div(f("nrm", i, j), X.sqrt(X.add(*[X.mul(t, t) for t in c])))
        return Arr((pts.shape[0], dim), at, "f")

    def vel(it, a, kw):
        f, pts = q(it, a, kw)
        return Arr((pts.shape[0], dim), lambda i, j: X.mul(X.sym("wallscale"), f("wv", i, j)), "f")

    def mu(it, a, kw):
        f, pts = q(it, a, kw)
        return Arr((pts.shape[0],), lambda i: X.mul(X.C(0.3), X.power(f("mu", i), X.C(2))), "f")
    ms = {"get_signed_distance_stack": dist, "get_normal_stack": normal, "get_velocity_stack": vel, "get_surface_friction_stack": mu,
          "update_kinematics": lambda it, a, kw: a[1] if len(a) > 1 else kw["sdf_state"]}
    return S.raw(S.subclass("SDFObjectBase", "Geometry%d" % k, ms))


class Ref:
    """reference contact at node n of grid g"""

    def __init__(self, S, st, g, k):
        d = st.domains[g]
        ps = lift(S.get(d, "position_stack"))
        dim = self.dim = S.dim
        x = [ps.at(n, X.C(j)) for j in range(dim)]
        c = [X.sym("sdf%d.center_of_mass" % k, X.C(j)) for j in range(dim)]
        f = lambda nm, *j: X.fn("%s%d" % (nm, k), *x, *c, *j)
        raw = [f("nrm", X.C(j)) for j in range(dim)]
        nn = X.sqrt(X.add(*[X.mul(t, t) for t in raw]))
        self.n = [X.div(t, nn) for t in raw]
        self.w = [X.mul(X.sym("wallscale"), f("wv", X.C(j))) for j in range(dim)]
        self.mu = X.mul(X.C(0.3), X.power(f("mu"), X.C(2)))

    def rel(self, v):
        return [X.sub(a, b) for a, b in zip(v, self.w)]

    def dot(self, a, b):
        return X.add(*[X.mul(p, q) for p, q in zip(a, b)])

    def split(self, v):
        r = self.rel(v)
        vn = self.dot(r, self.n)
        vt = [X.sub(a, X.mul(vn, b)) for a, b in zip(r, self.n)]
        return vn, vt, X.sqrt(X.add(*[X.mul(t, t) for t in vt]))

    def __call__(self, v, base):
        vn, vt, tm = self.split(v)
        push = X.max_(X.ZERO, X.neg(vn))
        lim = X.mul(base, self.mu, push)
        keep = X.sub(X.ONE, X.div(X.min_(tm, lim), tm))
        return [X.add(self.w[j], X.mul(X.max_(vn, X.ZERO), self.n[j]), X.mul(keep, vt[j])) for j in range(self.dim)]


# (colliders as (obstacle, grids), number of grids, number of obstacles)
SCENES = {
    "one obstacle, one grid": ([(0, [0])], 1, 1),
    "second obstacle on second grid": ([(1, [1])], 2, 2),
    "two obstacles on shared and separate grids": ([(1, [2, 0]), (0, [0, 1])], 3, 2),
}


def run(R):
    R.ranges = CR
    for dim in (2, 3):
        for scheme in SCHEMES:
            for nm, spec in SCENES.items():
                with R.group("%s %dD %s" % (scheme, dim, nm)):
                    scene(R, scheme, dim, spec)
            with R.group("%s %dD no obstacle selected" % (scheme, dim)):
                inactive(R, scheme, dim)
            with R.group("%s %dD body contact" % (scheme, dim), key="completes/body_contact"):
                bodies(R, scheme, dim)
            with R.group("%s %dD rigid body contact" % (scheme, dim), key="completes/rigid_body_contact"):
                rigid_bodies(R, scheme, dim)


def build(R, scheme, dim, cols, ngrid, nsdf, forces=None, shared=False):
    S = R.use(Scene(dim))
    if shared:          # the two bodies in contact are on congruent grids, the bystander on another one
        dom = S.domain
        S.domain = lambda g: dom(min(g, 1))
    log = []

    def setg(h, b):
        if h == "apply_grid_moments":
            gs = []
            for k, g in enumerate(grids_of(S, b["sim_cache"])):
                m = g.f["mass_stack"].shape
                v = g.f["moment_stack"].shape
                gs.append(obj_with(g, mass_stack=sym_arr("gm%d" % k, m), moment_stack=sym_arr("gp%d" % k, v), moment_nt_stack=sym_arr("gn%d" % k, v), force_stack=sym_arr("gf%d" % k, v)))
            return (b["world"], b["mechanics"], with_grids(b["sim_cache"], gs))
    first = S.probe_force(0, log, setg)
    last = S.probe_force(1, log)
    fs = forces(S) if forces else [S.new("SDFCollider", sdf_idx=k, g_idx_list=PList(list(gl)), friction=pyfloat("fric%d" % i)) for i, (k, gl) in enumerate(cols)]
    st = make(S, scheme, [Body((i + 1) % ngrid, (i + 2) % ngrid, i, i) for i in range(ngrid)], forces=[first] + fs + [last], log=log)
    st.sdfs = tuple(geometry(S, k, log) for k in range(nsdf))
    st.sdf_states = tuple(S.sym_obj("SDFObjectState", "sdf%d" % k) for k in range(nsdf))
    kw = dict(grid_domains=st.domains, constitutive_laws=st.laws, couplings=st.couplings, forces=st.forces, sdf_logics=st.sdfs, alpha=pyfloat("alpha"))
    st.solver = S.new(scheme, **kw)
    st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=st.force_states, sdfs=st.sdf_states)
    step(S, st)
    b0 = next(e for e in log if e[0] == "hook" and e[1] == 0 and e[2] == "apply_grid_moments")
    b1 = next(e for e in log if e[0] == "hook" and e[1] == 1 and e[2] == "apply_grid_moments")
    return S, st, grids_of(S, b1[3]["sim_cache"]), b0[3], b1[3]


def vel(g, dim):
    return [X.div(X.sym("gn%d" % g, n, X.C(j)), X.sym("gm%d" % g, n)) for j in range(dim)]


def scene(R, scheme, dim, spec):
    cols, ngrid, nsdf = spec
    S, st, out, b0, b1 = build(R, scheme, dim, cols, ngrid, nsdf)
    h = {g: lift(S.get(st.domains[g], "cell_size")).at() for g in range(ngrid)}
    far = {"dist*": (1.6, 9.0)}
    deep = {"dist*": (-0.9, -0.05)}
    for g in range(ngrid):
        subj = "%s grid %d" % (R.cur, g)
        nt = lift(out[g].f["moment_nt_stack"])
        for f, tag in (("mass_stack", "gm"), ("moment_stack", "gp"), ("force_stack", "gf")):
            R.eqa("mass, force and old momentum are untouched by contact", "%s %s" % (subj, f), out[g].f[f], lambda *i: X.sym("%s%d" % (tag, g), *i))
        R.eqa("nodes outside every obstacle keep their momentum", subj, nt, lambda i, j: X.sym("gn%d" % g, i, j), ranges=far, idx={0: n})
        near = dict(CR, **{"dist*": (0.45, 0.9), "*.h": (2.0, 3.0), "g%d.h" % g: (0.2, 0.4)})
        R.eqa("nodes more than a cell of their own grid away keep their momentum", subj, nt, lambda i, j: X.sym("gn%d" % g, i, j), ranges=near, idx={0: n})
        mine = [(i, k) for i, (k, gl) in enumerate(cols) if g in gl]
        if not mine:
            R.eqa("grids without an obstacle keep their momentum", subj, nt, lambda i, j: X.sym("gn%d" % g, i, j), ranges=deep, idx={0: n})
            continue
        v = vel(g, dim)
        for i, k in mine:
            v = Ref(S, st, g, k)(v, X.sym("fric%d" % i))
        R.eqa("contact removes the approach velocity and applies Coulomb friction", subj, nt, lambda a, j: X.mul(X.sym("gm%d" % g, n), v[int(X.cval(j))]), ranges=deep, idx={0: n}, tol=1e-6)
        R.eqa("contact removes the approach velocity and applies Coulomb friction", subj + " light, slow nodes", nt, lambda a, j: X.mul(X.sym("gm%d" % g, n), v[int(X.cval(j))]), ranges=dict(deep, **SLOW), idx={0: n}, tol=1e-6)
        R.eqa("nodes without mass stay without momentum", subj, nt, lambda a, j: X.ZERO, ranges=dict(deep, **{"gm%d" % g: (0.0, 0.0), "gn%d" % g: (0.0, 0.0)}), idx={0: n})
        if len(mine) > 1:
            # only one of the obstacles touches
            for i, k in mine:
                w = Ref(S, st, g, k)(vel(g, dim), X.sym("fric%d" % i))
                rg = dict(far)
                rg["dist%d" % k] = deep["dist*"]
                R.eqa("each obstacle acts with its own geometry, velocity and friction", "%s obstacle %d" % (subj, k), nt, lambda a, j: X.mul(X.sym("gm%d" % g, n), w[int(X.cval(j))]), ranges=rg, idx={0: n}, tol=1e-6)
            continue
        # the inequalities themselves, over many sampled states of the node
        i, k = mine[0]
        ref = Ref(S, st, g, k)
        ov = [X.div(nt.at(n, X.C(j)), X.sym("gm%d" % g, n)) for j in range(dim)]
        vn0, vt0, t0 = ref.split(vel(g, dim))
        vn1, vt1, t1 = ref.split(ov)
        al = ref.dot(vt0, vt1)
        bad = {}
        rg = dict(CR)
        rg.update(deep)
        slow = dict(rg, **SLOW)
        N = 120 if R.tier == "thorough" else 40
        if any(e.top for e in ov):
            R.ob("no velocity into the obstacle remains", subj, None, "value unknown", nt.src)
            continue
        for seed in range(1, N + 1):
            env = X.Env(seed, slow if seed % 4 == 0 else rg)
            a, b, c, d, e, fr = (env.ev(t) for t in (vn0, vn1, t0, t1, al, X.mul(X.sym("fric%d" % i), ref.mu)))
            say = "normal velocity %.4g -> %.4g, slip %.4g -> %.4g, friction %.4g" % (a, b, c, d, fr)
            if b < -1e-6:
                bad["in"] = say
            if a > 0 and (abs(b - a) > 1e-6 or abs(d - c) > 1e-6):
                bad["sep"] = say
            if d > c + 1e-6 or e < -1e-6:
                bad["slip"] = say
            if c - d > fr * max(0.0, b - a) + 1e-6:
                bad["mu"] = say
        for key, rule in (("in", "no velocity into the obstacle remains"), ("sep", "separating nodes are not pulled back"), ("slip", "friction never reverses or amplifies slip"), ("mu", "friction is bounded by the coefficient times the normal correction")):
            R.ob(rule, subj, key not in bad, bad.get(key, "%d sampled node states" % N), nt.src)
    for f in ("world", "mechanics"):
        unchanged(R, "contact changes only grid momentum", "%s %s" % (R.cur, f), b1[f], b0[f])


def inactive(R, scheme, dim):
    S, st, out, b0, b1 = build(R, scheme, dim, None, 1, 1, forces=lambda S: [S.new("SDFCollider", sdf_idx=-1, g_idx_list=PList([0]))])
    R.eqa("a collider without obstacle does nothing", R.cur, out[0].f["moment_nt_stack"], lambda i, j: X.sym("gn0", i, j), ranges={"dist*": (-0.9, -0.05)})


def bodies(R, scheme, dim):
    """two deformable bodies: the momentum one node loses is what the other gains"""
    RG, AG, OG = 2, 1, 0          # grids of the receiver (coupling 0), the actor (coupling 2, body 0) and the bystander
    for react in (True, False):
        S, st, out, b0, b1 = build(R, scheme, dim, None, 3, 0, forces=lambda S: [S.new("GridContact", couple_idx_actor=2, couple_idx_receiver=0, is_reaction=react)], shared=True)
        subj = "%s%s" % (R.cur, "" if react else " without reaction")
        rec, act = lift(out[RG].f["moment_nt_stack"]), lift(out[AG].f["moment_nt_stack"])
        R.eqa("bodies not in contact keep their momentum", subj, out[OG].f["moment_nt_stack"], lambda i, j: X.sym("gn%d" % OG, i, j), idx={0: n})
        for g in range(3):
            for f, tag in (("mass_stack", "gm"), ("moment_stack", "gp"), ("force_stack", "gf")):
                R.eqa("mass, force and old momentum are untouched by contact", "%s grid %d %s" % (subj, g, f), out[g].f[f], lambda *i: X.sym("%s%d" % (tag, g), *i))
        dr = [X.sub(rec.at(n, X.C(j)), X.sym("gn%d" % RG, n, X.C(j))) for j in range(dim)]
        da = [X.sub(act.at(n, X.C(j)), X.sym("gn%d" % AG, n, X.C(j))) for j in range(dim)]
        for tagd, rg in (("touching", {"p0.volume0_stack": (2000.0, 4000.0)}), ("apart", {"p0.volume0_stack": (1e-8, 1e-7)})):
            r2 = dict(rg)
            for j in range(dim):
                if not react:
                    R.eq("one-way contact leaves the actor alone", "%s %s axis %d" % (subj, tagd, j), da[j], X.ZERO, ranges=r2, loc=act.src)
                else:
                    R.eq("contact exchanges equal and opposite momentum", "%s %s axis %d" % (subj, tagd, j), X.add(dr[j], da[j]), X.ZERO, ranges=r2, loc=rec.src, tol=1e-6)
                if tagd == "apart":
                    R.eq("bodies apart keep their momentum", "%s axis %d" % (subj, j), dr[j], X.ZERO, ranges=r2, loc=rec.src)
        if react:
            rg = dict(CR)
            rg["p0.volume0_stack"] = rg["p0.volume_stack"] = (2000.0, 4000.0)
            msgs = []
            dot = X.add(*[X.mul(a, X.sub(X.div(X.sym("gn%d" % RG, n, X.C(j)), X.sym("gm%d" % RG, n)), X.div(X.sym("gn%d" % AG, n, X.C(j)), X.sym("gm%d" % AG, n)))) for j, a in enumerate(dr)])
            after = X.add(*[X.mul(a, X.sub(X.div(rec.at(n, X.C(j)), X.sym("gm%d" % RG, n)), X.div(act.at(n, X.C(j)), X.sym("gm%d" % AG, n)))) for j, a in enumerate(dr)])
            # outward normal of the actor at the node: away from its nearest particle
            q = X.fresh_bv(size("N0"))
            xn = [lift(S.get(st.domains[AG], "position_stack")).at(n, X.C(j)) for j in range(dim)]
            off = [X.sub(xn[j], X.sym("p0.position_stack", q, X.C(j))) for j in range(dim)]
            V = X.sym("p0.volume0_stack", q)
            rad = X.sqrt(X.div(V, X.PI)) if dim == 2 else X.power(X.div(X.mul(X.C(3), V), X.mul(X.C(4), X.PI)), X.div(X.ONE, X.C(3)))
            key = X.sub(X.sqrt(X.add(*[X.mul(t, t) for t in off])), rad)
            nrm = [X.pick("min", q, key, t) for t in off]
            vn = X.add(*[X.mul(t, X.sub(X.div(X.sym("gn%d" % RG, n, X.C(j)), X.sym("gm%d" % RG, n)), X.div(X.sym("gn%d" % AG, n, X.C(j)), X.sym("gm%d" % AG, n)))) for j, t in enumerate(nrm)])
            if dot.top or after.top:
                R.ob("contact removes the approach between bodies", subj, None, "value unknown", rec.src)
                continue
            hits = 0
            slow = dict(rg, **{"gn*": (-4e-4, 4e-4)})
            for seed in range(1, 61):
                env = X.Env(seed, rg if seed <= 40 else slow)
                d, a = env.ev(dot), env.ev(after)
                if abs(d) > 1e-12:
                    hits += 1
                    if d > 1e-9:
                        msgs.append("impulse increases the relative velocity along itself (sample %d)" % seed)
                    if env.ev(vn) > 1e-6:
                        msgs.append("impulse on bodies that are separating (sample %d)" % seed)
                    if a < -1e-6 * abs(d):
                        msgs.append("bodies still approach each other after contact (sample %d: %.4g)" % (seed, a))
                elif env.ev(vn) < -1e-3:
                    # the node lies well inside a particle of the actor
                    msgs.append("a node inside the actor approaching it at %.4g gets no impulse (sample %d)" % (-env.ev(vn), seed))
            R.ob("contact removes the approach between bodies", subj, False if msgs else True if hits else None, msgs[0] if msgs else "%d of 60 sampled node states in contact" % hits, rec.src)


def rigid_bodies(R, scheme, dim):
    build(R, scheme, dim, None, 3, 0, forces=lambda S: [S.new("GridContact", couple_idx_actor=2, couple_idx_receiver=0, is_rigid=True)], shared=True)
    R.ob("completes", R.cur, True, "rigid contact runs")
