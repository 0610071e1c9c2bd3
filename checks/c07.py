"""C07 shape functions: partition of unity, linear reproduction, exact gradients, continuity, support, complete stencil"""
from .kernels import *
from sa.report import indices

KERNS = ("linear", "quadratic", "cubic")
FR = {"linear": ((0.01, 0.99),), "quadratic": ((0.01, 0.49), (0.51, 0.99)), "cubic": ((0.01, 0.99),)}


def run(R):
    R.ranges = dict(KR)
    for kern in KERNS:
        for dim in (2, 3):
            with R.group("%s %dD stencil" % (kern, dim)):
                stencil(R, kern, dim)
            with R.group("%s %dD kernel" % (kern, dim)):
                kernel(R, kern, dim)
    for dim in (2, 3):
        with R.group("cubic %dD face kernels" % dim):
            faces(R, dim)
    with R.group("default interaction"):
        coupled(R)


def total(es):
    t = X.ZERO
    for e in es:
        t = X.add(t, e)
    return t


def stencil(R, kern, dim):
    m = Map(R, kern, dim)
    subj = R.cur
    W = range(m.W)
    fr = FR[kern] if dim == 2 or R.tier == "thorough" else FR[kern][:2]
    # each half of the cell in every direction
    import itertools
    regions = list(itertools.product(fr, repeat=1 if dim == 3 and R.tier != "thorough" else dim))
    for reg in regions:
        reg = reg * dim if len(reg) == 1 else reg

        def rg(env, name, idx, reg=reg):
            from sa.expr import _h
            k = int(idx[-1]) if not isinstance(idx[-1], X.E) else int(X.cval(idx[-1]))
            a, b = reg[k]
            return a + (b - a) * _h(env.seed, name, tuple(idx))
        kw = dict(special={"x": rg})
        nm = "%s %s" % (subj, "x".join("[%g,%g]" % r for r in reg))
        R.eq("shape functions sum to one over the stencil", nm, total(m.n(s) for s in W), X.ONE, loc=m.N.src, **kw)
        for k in range(dim):
            R.eq("shape functions reproduce linear fields", "%s axis %d" % (nm, k), total(X.mul(m.n(s), m.r(s, k)) for s in W), X.ZERO, loc=m.N.src, **kw)
            R.eq("gradients sum to zero over the stencil", "%s axis %d" % (nm, k), total(m.g(s, k) for s in W), X.ZERO, loc=m.dN.src, **kw)
            for j in range(dim):
                # sum dN_j x_node_k = delta ; x_node = x_p - rel h
                R.eq("gradients reproduce the gradient of a linear field", "%s axes %d%d" % (nm, j, k), total(X.neg(X.mul(m.g(s, j), m.r(s, k))) for s in W),
                     X.sym("ih") if j == k else X.ZERO, loc=m.dN.src, **kw)
        neg = None
        for s in W:
            for seed in (1, 2, 3):
                v = X.Env(seed, R.ranges, None, kw["special"]).ev(m.n(s))
                if v < -1e-9:
                    neg = "slot %d has value %.4g" % (s, v)
        R.ob("shape functions are not negative", nm, neg is None, neg or "all values >= 0", m.N.src)
    # exact derivative: d/dx of the value with the stencil fixed
    nodes = {}
    for s in W:
        for k in range(dim):
            d = X.diff(m.n(s), X.sym("x", Q, X.C(k)))
            R.eq("gradient is the derivative of the value", "%s slot %d axis %d" % (subj, s, k), m.g(s, k), X.mul(d, X.sym("ih")), loc=m.dN.src)
        seed = X.Env(3, R.ranges)
        nodes.setdefault(tuple(int(round(8 + seed.ev(X.sym("x", Q, X.C(k))) - seed.ev(m.r(s, k)))) for k in range(dim)), []).append(s)
    dup = [v for v in nodes.values() if len(v) > 1]
    R.ob("no node appears twice in a stencil", subj, not dup, "slots %s are the same node" % dup[:2] if dup else "%d distinct nodes" % len(nodes), m.rel.src)
    for s in W:
        for k in range(dim):
            v = X.sub(X.add(X.C(8), X.sym("x", Q, X.C(k))), m.r(s, k))
            R.eq("relative distance is particle minus node in cell units", "%s slot %d axis %d" % (subj, s, k), X.func("round", v) if False else X.sub(v, X.floor(X.add(v, X.C(0.5)))), X.ZERO, loc=m.rel.src)
    if dim == 2:
        for nm, a in (("gradient", m.dN), ("relative distance", m.rel)):
            R.ob("two-dimensional %s carries three components" % nm, subj, a.shape[1] == 3, "shape %s" % (a.shape,), a.src)
            if a.shape[1] == 3:
                R.eq("out-of-plane %s is zero" % nm, subj, a.at(m.ix(1), X.C(2)), X.ZERO, loc=a.src)


def kernel(R, kern, dim):
    S = R.use(Scene(dim))
    subj = R.cur
    d = sym_arr("d", (dim,))
    for nt in ((0, 1, 2, 3) if kern == "cubic" else (0,)):
        tag = "%s type %d" % (subj, nt)
        N, dN = alone(S, kern, dim, d, node_type=nt)
        N, dN = lift(N), lift(dN)
        br = BREAKS[kern]
        # exact derivative on every smooth piece (one piece per axis, all axes together)
        for a, b in zip(br, br[1:]):
            if nt == 2 and a < -1 or nt == 3 and b > 1:
                continue        # no values beyond the face
            rg = {"d": (a + 0.01, b - 0.01)}
            for k in range(dim):
                R.eq("kernel gradient is the exact spatial derivative", "%s axis %d on (%g,%g)" % (tag, k, a, b), dN.at(X.C(k)),
                     X.mul(X.diff(N.at(), X.sym("d", X.C(k))), X.sym("ih")), ranges=rg, loc=dN.src)
        at = lambda k, v: (lambda env, name, idx: v if int(num(idx[-1])) == k else 0.3)
        if nt:
            # kernels of nodes at or next to the domain face: continuous inside the domain
            for k in range(dim):
                for v in br[1:-1]:
                    if nt == 2 and v <= -1 or nt == 3 and v >= 1 or nt == 2 and v < -1:
                        continue
                    a, b = (X.Env(1, {"ih": (0.5, 2)}, None, {"d": at(k, v + e)}).ev(N.at()) for e in (-1e-7, 1e-7))
                    R.ob("kernel is continuous", "%s axis %d at %g" % (tag, k, v), abs(a - b) < 1e-5, "%.6g | %.6g" % (a, b), N.src)
            continue
        lim = SUPPORT[kern][0]
        for k in range(dim):
            # outside the documented support there is nothing
            for v in (lim + 0.01, lim + 0.7, -lim - 0.01, -lim - 1.3, lim + 3.2):
                env = X.Env(1, {"ih": (0.5, 2)}, None, {"d": at(k, v)})
                z = [env.ev(N.at())] + [env.ev(dN.at(X.C(j))) for j in range(dim)]
                R.ob("kernel vanishes outside its support", "%s axis %d at %g" % (tag, k, v), all(abs(q) < 1e-12 for q in z), "values %s" % z, N.src)
            for v in br:
                a, b = (X.Env(1, {"ih": (0.5, 2)}, None, {"d": at(k, v + e)}).ev(N.at()) for e in (-1e-7, 1e-7))
                c = X.Env(1, {"ih": (0.5, 2)}, None, {"d": at(k, v)}).ev(N.at())
                R.ob("kernel is continuous", "%s axis %d at %g" % (tag, k, v), abs(a - b) < 1e-5 and min(abs(c - a), abs(c)) < 1e-5, "%.6g | %.6g | %.6g" % (a, c, b), N.src)
        # the particle exactly on a node, or on a breakpoint, still sees a partition of unity
        for x0 in (0.0, 0.5, 0.25):
            t = 0.0
            import itertools
            for off in itertools.product(range(-3, 4), repeat=dim):
                env = X.Env(1, {"ih": (0.5, 2)}, None, {"d": lambda env, name, idx, off=off: x0 + off[int(num(idx[-1]))]})
                t += env.ev(N.at())
            R.ob("kernel values over all nodes sum to one", "%s at fraction %g" % (tag, x0), abs(t - 1) < 1e-6, "sum %.9g" % t, N.src)


def faces(R, dim):
    """nodes at, next to and away from a domain face: their kernels sum to one in the cells along the face"""
    import itertools
    S = R.use(Scene(dim))
    d = sym_arr("d", (dim,))
    K = {nt: lift(alone(S, "cubic", dim, d, node_type=nt)[0]) for nt in range(4)}
    for side, types in (("low", {0: 1, 1: 2}), ("high", {0: 1, 1: 3})):
        sg = 1 if side == "low" else -1
        for x in (0.0, 0.2, 0.5, 0.9, 1.0, 1.3, 1.8):
            # along the first axis next to the face, interior along the others
            t = 0.0
            one = lambda nt, v: X.Env(1, {"ih": (0.5, 2)}, None, {"d": lambda env, name, idx: v}).ev(K[nt].at())
            # a product kernel of equal arguments is the dim-th power of the 1D one
            for i in range(6):
                t += max(one(types.get(i, 0), sg * (x - i)), 0.0) ** (1.0 / dim)
            R.ob("kernels of the nodes along a face sum to one", "%s %dD at fraction %g" % (side, dim, x), abs(t - 1) < 1e-6, "sum %.9g" % t, K[0].src)


def num(x):
    return X.cval(x) if isinstance(x, X.E) else x


def coupled(R):
    """every kernel name that the mapping accepts is one of the decided ones, and selects its own function"""
    S = R.use(Scene(2))
    for kern in KERNS:
        m = Map(R, kern, 2)
        d = sym_arr("d", (2,))
        N, _ = alone(m.S, kern, 2, d)
        # the stencil value at slot s equals the kernel at the slot's relative distance
        for s in (0, m.W // 2, m.W - 1):
            e = X.subst(lift(N).at(), {X.sym("d", X.C(k)): m.r(s, k) for k in range(2)})
            R.eq("stencil values are the named kernel's values", "%s slot %d" % (kern, s), m.n(s), e, loc=m.N.src)
