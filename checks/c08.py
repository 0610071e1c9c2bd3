"""C08 node addressing agrees everywhere; nodes outside the grid never take part"""
import itertools

from .kernels import *

KERNS = ("linear", "quadratic", "cubic")
DR = {"#q": (2, 6), "#N0": (8, 9), "d.origin*": (-1.0, 1.0), "d.h": (0.4, 1.5), "x": (0.02, 0.98), "o": (-1, 1), "ih": (0.6, 2.5), "#G0": (12, 14), "#G1": (15, 17), "#G2": (18, 20), "#node": (0, 12 * 15 * 18 - 1), "#node2": (0, 12 * 15 - 1)}


def num(x):
    return X.cval(x) if isinstance(x, X.E) else x


def domain(S, sizes=True, padding=2):
    """grid domain object of symbolic spacing and origin with given node counts"""
    dim = S.dim
    gs = tuple(scalar(X.sym("#G%d" % k), "i", "int") for k in range(dim))
    o = S.raw("GridDomain", origin=tuple(pyfloat("d.origin%d" % k) for k in range(dim)), end=tuple(pyfloat("d.end%d" % k) for k in range(dim)),
              cell_size=pyfloat("d.h"), grid_size=gs, padding=padding)
    for k in S.it.all_fields(o.cls):
        if k not in o.f and "inv" in k:
            o.f[k] = scalar(X.div(X.ONE, X.sym("d.h")), "f", "float")
    return o


def ravel(idx, dim):
    e = X.ZERO
    for k in range(dim):
        e = X.add(X.mul(e, X.sym("#G%d" % k)), idx[k])
    return e


def unravel(n, dim):
    out = []
    for k in reversed(range(dim)):
        g = X.sym("#G%d" % k)
        out.append(X.mod(n, g) if k else n)
        n = X.floordiv(n, g)
    return out[::-1]


def run(R):
    R.ranges = dict(DR)
    for dim in (2, 3):
        for pad in (2, 0, 1, 3):
            with R.group("grid positions %dD" % dim + (" padding %d" % pad if pad != 2 else "")):
                positions(R, dim, pad)
        with R.group("grid bounds %dD" % dim):
            bounds(R, dim)
        for kern in KERNS:
            with R.group("%s %dD interior" % (kern, dim)):
                interior(R, kern, dim)
            with R.group("%s %dD outside" % (kern, dim)):
                outside(R, kern, dim)
        for scheme in SCHEMES:
            with R.group("%s %dD queries" % (scheme, dim)):
                queries(R, scheme, dim)
        with R.group("compute arguments %dD" % dim):
            for scheme in SCHEMES:
                arguments(R, scheme, dim)
        with R.group("transfer helpers %dD" % dim):
            helpers(R, dim)


def positions(R, dim, pad):
    S = R.use(Scene(dim))
    d = domain(S, padding=pad)
    n = X.sym("#node" if dim == 3 else "#node2")
    nc = S.get(d, "num_cells")
    R.eq("node count is the product of the counts per direction", R.cur, lift(nc).at(), X.mul(*[X.sym("#G%d" % k) for k in range(dim)]))
    R.ob("grid dimension follows its bounds", R.cur, native_int(S.get(d, "dim")) == dim, "dim")
    ps = lift(S.get(d, "position_stack"))
    R.eqa("node position = origin + spacing * integer coordinates of the flat index", R.cur, ps,
          lambda q, k: X.add(X.sym("d.origin%d" % int(num(k))), X.mul(X.sym("d.h"), unravel(n, dim)[int(num(k))])), idx={0: n})
    pm = lift(S.get(d, "position_mesh"))
    ij = [X.sym("#m%d" % k) for k in range(dim)]
    R.eqa("node mesh = origin + spacing * integer coordinates", R.cur, pm, lambda *i: X.add(X.sym("d.origin%d" % int(num(i[-1]))), X.mul(X.sym("d.h"), ij[int(num(i[-1]))])),
          idx={k: ij[k] for k in range(dim)}, ranges={"#m*": (0, 11)})
    ga = S.call(S.cls("GridArrays"), "new", d)
    for f, v in ga.f.items():
        if isinstance(v, Arr):
            R.eq("grid arrays hold one row per node", "%s %s" % (R.cur, f), dimE(v.shape[0]), lift(nc).at(), loc=v.src)
            R.eqa("a new grid is empty", "%s %s" % (R.cur, f), v, lambda *i: X.ZERO)


def bounds(R, dim):
    """the grid built from bounds covers them plus the padding on both sides, with the requested spacing"""
    S = R.use(Scene(dim))
    o, e = [X.sym("b.o%d" % k) for k in range(dim)], [X.sym("b.e%d" % k) for k in range(dim)]
    tup = lambda p: tuple(pyfloat("b.%s%d" % (p, k)) for k in range(dim))
    for pad in (None, 0, 1, 4):
        kw = {} if pad is None else {"padding": pad}
        d = S.call(S.cls("GridDomain"), "create", origin=tup("o"), end=tup("e"), cell_size=pyfloat("b.h"), **kw)
        h = X.sym("b.h")
        rg = {"b.o*": (-2, 2), "b.e*": (4, 9), "b.h": (0.1, 0.9)}
        subj = "%s padding %s" % (R.cur, "default" if pad is None else pad)
        R.eq("spacing is the requested one", subj, lift(S.get(d, "cell_size")).at(), h, ranges=rg)
        for k2, v in d.f.items():
            if "inv" in k2:
                R.eq("inverse spacing is one over the spacing", subj, lift(v).at(), X.div(X.ONE, h), ranges=rg)
        org = S.it.iterate(S.get(d, "origin"))
        gs = S.it.iterate(S.get(d, "grid_size"))
        p = X.toE(lift(S.get(d, "padding")).at())
        for k in range(dim):
            a = lift(org[k]).at()
            R.eq("padding extends below the lower bound", "%s axis %d" % (subj, k), a, X.sub(o[k], X.mul(p, h)), ranges=rg)
            last = X.add(a, X.mul(h, X.sub(lift(gs[k]).at(), X.ONE)))
            need = X.add(e[k], X.mul(p, h))
            low = hi = None
            for seed in range(1, 25):
                env = X.Env(seed, rg)
                s = (env.ev(last) - env.ev(need)) / env.ev(h)
                low = s if low is None else min(low, s)
                hi = s if hi is None else max(hi, s)
            R.ob("last node reaches the padded upper bound", "%s axis %d" % (subj, k), low > -1e-3, "last node is %.4g cells past the padded end at least" % low)
            R.ob("grid is not larger than required", "%s axis %d" % (subj, k), hi < 1.5, "last node is at most %.4g cells past the padded end" % hi)
        # bounds on nodes: exactly one node on each end
        for m in (3, 7, 10):
            env = X.Env(5, rg)
            sub = {e[k]: X.add(o[k], X.mul(X.C(m), h)) for k in range(dim)}
            for k in range(dim):
                g = X.subst(lift(gs[k]).at(), sub)
                R.eq("bounds on nodes give one node per cell face", "%s axis %d, %d cells" % (subj, k, m), g, X.add(X.C(m + 1), X.mul(X.C(2), p)), ranges=rg)
    # array bounds give the same domain as tuples
    h = pyfloat("b.h")
    rg = {"b.o*": (-2, 2), "b.e*": (4, 9), "b.h": (0.1, 0.9)}
    arr = lambda v: Arr((dim,), lambda k: v[int(X.cval(k))], "f")
    d = S.call(S.cls("GridDomain"), "create", origin=arr(o), end=arr(e), cell_size=h)
    ref = S.call(S.cls("GridDomain"), "create", origin=tup("o"), end=tup("e"), cell_size=h)
    for f in ("origin", "end", "grid_size"):
        for k, (a, b) in enumerate(zip(S.it.iterate(S.get(d, f)), S.it.iterate(S.get(ref, f)))):
            R.eq("bounds given as arrays and as tuples give the same grid", "%s %s axis %d" % (R.cur, f, k), lift(a).at(), X.toE(lift(b).at()), ranges=rg)


def mapping(R, kern, dim, cells):
    """mapping of a particle at origin + (cells + fraction) spacing on the symbolic domain"""
    S = R.use(Scene(dim))
    d = domain(S)
    sm = S.new("ShapeFunctionMapping", kern, dim)
    h = X.sym("d.h")

    def pos(q, k):
        base = X.ZERO
        for j in range(dim):
            base = X.where(X.eq(k, X.C(j)), X.add(X.sym("d.origin%d" % j), X.mul(h, X.add(X.toE(cells[j]), X.sym("x", q, X.C(j))))), base)
        return base
    c = S.call(sm, "compute", Arr((size("N0"), dim), pos, "f"), origin=S.get(d, "origin"), grid_size=S.get(d, "grid_size"), inv_cell_size=S.get(d, "_inv_cell_size"))
    W = native_int(S.get(sm, "window_size"))
    ix = lambda s: X.add(X.mul(Q, X.C(W)), X.C(s))
    return S, d, sm, c, W, ix


def interior(R, kern, dim):
    S, d, sm, c, W, ix = mapping(R, kern, dim, [5, 6, 7])
    ps = lift(S.get(d, "position_stack"))
    h = X.sym("d.h")
    rel, node = lift(c.f["rel_dist"]), lift(c.f["node_hashes"])
    cells = [5, 6, 7]
    steps = range(W) if dim == 2 or R.tier == "thorough" else range(0, W, 3)
    for s in steps:
        n = node.at(ix(s))
        co = [X.sub(X.add(X.C(cells[k]), X.sym("x", Q, X.C(k))), rel.at(ix(s), X.C(k))) for k in range(dim)]
        R.eq("node index = flat index of the integer coordinates", "%s slot %d" % (R.cur, s), n, ravel([X.floor(X.add(v, X.C(0.5))) for v in co], dim), loc=node.src)
        if s in (0, steps[-1]):
            big = {"#G%d" % k: (40000, 60000) if dim == 2 else (1000, 1500) for k in range(dim)}
            R.eq("node index = flat index of the integer coordinates", "%s slot %d large grid" % (R.cur, s), n, ravel([X.floor(X.add(v, X.C(0.5))) for v in co], dim), loc=node.src, ranges=big)
        for k in range(dim):
            xp = X.add(X.sym("d.origin%d" % k), X.mul(h, X.add(X.C(cells[k]), X.sym("x", Q, X.C(k)))))
            # position of that node according to the grid: evaluated through the grid's own position table
            R.eq("grid position of the stencil node = particle position - relative distance * spacing", "%s slot %d axis %d" % (R.cur, s, k),
                 ps.at(n, X.C(k)), X.sub(xp, X.mul(rel.at(ix(s), X.C(k)), h)), loc=rel.src)
    pid, sid = lift(c.f["point_ids"]), lift(c.f["stencil_ids"])
    for s in (0, W - 1):
        R.eq("interaction knows its particle", "%s slot %d" % (R.cur, s), pid.at(ix(s)), Q, loc=pid.src)
        R.eq("interaction knows its stencil slot", "%s slot %d" % (R.cur, s), sid.at(ix(s)), X.C(s), loc=sid.src)
    big = {"#N0": (2e6, 4e6), "#q": (1e6, 2e6)}
    R.eq("interaction knows its particle", "%s slot 0 many particles" % R.cur, pid.at(ix(0)), Q, loc=pid.src, ranges=big)
    R.eq("one interaction per particle and stencil slot", R.cur, dimE(node.shape[0]), X.mul(size("N0"), X.C(W)), loc=node.src)


def outside(R, kern, dim):
    """near and beyond every face: weights of nodes outside vanish, the others are untouched"""
    G = [X.sym("#G%d" % k) for k in range(dim)]
    low = [[-3, 6, 7], [-1, 6, 7], [0, 6, 7], [5, -1, 7], [5, 0, 7], [5, 6, -1], [5, 6, 0], [0, 0, 0], [-2, -1, -2]]
    high = [[X.sub(G[0], X.C(1)), 6, 7], [X.sub(G[0], X.C(2)), 6, 7], [G[0], 6, 7], [5, X.sub(G[1], X.C(1)), 7], [5, X.add(G[1], X.C(2)), 7],
            [X.sub(G[0], X.C(1)), X.sub(G[1], X.C(1)), 7]]
    if dim == 3:
        high += [[5, 6, X.sub(G[2], X.C(1))], [5, 6, X.add(G[2], X.C(3))], [X.sub(G[0], X.C(1)), X.sub(G[1], X.C(1)), X.sub(G[2], X.C(1))]]
    else:
        low = [c for c in low if c[2] == 7 or c[:2] in ([0, 0], [-2, -1])]
    if dim == 3 and R.tier != "thorough":
        low, high = low[1::2] + low[-2:], high[::2]
    for n, cells in enumerate(low + high):
        S, d, sm, c, W, ix = mapping(R, kern, dim, cells[:dim])
        val, grad, rel, node = (lift(c.f[f]) for f in ("shape_vals", "shape_grads", "rel_dist", "node_hashes"))
        dd = sym_arr("d", (dim,))
        N, dN = alone(S, kern, dim, dd, scalar(X.div(X.ONE, X.sym("d.h")), "f", "float"))
        bad = {}
        for s in range(W):
            for seed in ((1, 2) if R.tier == "thorough" or dim == 2 else (1,)):
                env = X.Env(seed, R.ranges)
                r = [env.ev(rel.at(ix(s), X.C(k))) for k in range(dim)]
                co = [int(round(env.ev(X.toE(cells[k])) + env.ev(X.sym("x", Q, X.C(k))) - r[k])) for k in range(dim)]
                g = [env.ev(q) for q in G]
                inside = all(0 <= a < b for a, b in zip(co, g))
                e2 = X.Env(seed, R.ranges, None, {"d": lambda env, name, idx: r[int(num(idx[-1]))]})
                v = env.ev(val.at(ix(s)))
                gr = [env.ev(grad.at(ix(s), X.C(k))) for k in range(dim)]
                w = e2.ev(lift(N).at()) if inside else 0.0
                wg = [e2.ev(lift(dN).at(X.C(k))) if inside else 0.0 for k in range(dim)]
                nh = env.ev(node.at(ix(s)))
                tot = 1
                for q in g:
                    tot *= q
                if not X.close(v, w, 1e-6):
                    bad["weight"] = "slot %d at coordinates %s (%s): weight %.4g, required %.4g" % (s, co, "inside" if inside else "outside", v, w)
                if not all(X.close(a, b, 1e-6) for a, b in zip(gr, wg)):
                    bad["gradient"] = "slot %d at coordinates %s (%s): gradient %s, required %s" % (s, co, "inside" if inside else "outside", gr, wg)
                if not (0 <= nh < tot):
                    bad["index"] = "slot %d: flat index %s outside the grid of %s nodes" % (s, nh, tot)
                if inside:
                    f = 0
                    for k in range(dim):
                        f = f * g[k] + co[k]
                    if f != nh:
                        bad["index"] = "slot %d: flat index %s for coordinates %s, required %s" % (s, nh, co, f)
        nm = "%s case %d" % (R.cur, n)
        R.ob("weights of outside nodes vanish, inside nodes keep theirs", nm, "weight" not in bad, bad.get("weight", "%d slots" % W), val.src)
        R.ob("gradients of outside nodes vanish, inside nodes keep theirs", nm, "gradient" not in bad, bad.get("gradient", "%d slots" % W), grad.src)
        R.ob("flat indices stay inside the grid", nm, "index" not in bad, bad.get("index", "%d slots" % W), node.src)


def arguments(R, scheme, dim):
    """the solver hands each stencil computation the grid of its coupling"""
    S = R.use(Scene(dim))
    log = []
    st = make(S, scheme, [Body(1, 0, 0, 0), Body(0, 1, 1, 1)], log=log)
    from .common import run as step
    step(S, st)
    seen = [e for e in log if e[0] == "compute"]
    R.ob("a stencil is computed for every coupling", "%s %s" % (R.cur, scheme), {(e[1], e[2]) for e in seen} == {(1, 0), (0, 1)}, "%s" % [(e[1], e[2]) for e in seen])
    f = S.cls("ShapeFunctionMapping").lookup("compute")
    for e in seen:
        b = S.it.bind(f, [None, e[3]] + list(e[4]), {k: v for k, v in e[5].items() if k != "position_stack"})
        d = st.domains[e[2]]
        subj = "%s %s body %d grid %d" % (R.cur, scheme, e[1], e[2])
        R.eqa("stencils start from the particles' positions", subj, b["position_stack"], lambda q, k: X.sym("p%d.position_stack" % e[1], q, k))
        for nm, want in (("origin", S.get(d, "origin")), ("grid_size", S.get(d, "grid_size"))):
            got = b[nm]
            gi = S.it.iterate(got) if not isinstance(got, Arr) else [got.at(X.C(k)) for k in range(dim)]
            for k, (x, w) in enumerate(zip(gi, S.it.iterate(want))):
                R.eq("stencils use their own grid's %s" % nm, "%s axis %d" % (subj, k), X.toE(lift(x).at()) if not isinstance(x, X.E) else x, lift(w).at(), ranges=GR)
        R.eq("stencils use their own grid's spacing", subj, lift(b["inv_cell_size"]).at(), X.div(X.ONE, X.sym("g%d.h" % e[2])), ranges=GR)


GR = {"*.h": (0.3, 1.0), "g0.origin*": (-1, 0), "g1.origin*": (-1, 0), "g0.end*": (4, 9), "g1.end*": (4, 9)}


def queries(R, scheme, dim):
    """obstacles are evaluated exactly at the grid's node positions, at the particles, and halfway between"""
    S = R.use(Scene(dim))
    log = []
    st = make(S, scheme, [Body(0, 0, 0, 0), Body(1, 1, 1, 1)], log=log, sdfs=2)
    from .common import run as step
    step(S, st)
    n = X.sym("#node3")
    rg = dict(GR)
    rg["#node3"] = (0, 20)
    ps = [lift(S.get(d, "position_stack")) for d in st.domains]
    pp = [m.f["position_stack"] for m in st.mps]
    counts = [dimE(p.shape[0]) for p in ps]
    seen = {}
    for e in log:
        if e[0] != "sdf" or not isinstance(e[4], Arr):
            continue
        a = e[4]
        L = dimE(a.shape[0])
        for g, p in enumerate(ps):
            if L is dimE(p.shape[0]):
                seen.setdefault((e[1], e[2], "nodes", g), (a, p, e[5]))
        for q, p in enumerate(pp):
            if L is dimE(p.shape[0]):
                seen.setdefault((e[1], e[2], "particles", q), (a, p, e[5]))
    for k in range(2):
        for what in ("dist", "normal", "vel", "mu"):
            for g in range(2):
                hit = seen.get((k, what, "nodes", g))
                if hit is None:
                    R.ob("obstacles are evaluated at every grid's nodes", "%s obstacle %d %s grid %d" % (R.cur, k, what, g), None, "no such evaluation")
                    continue
                a, p, loc = hit
                R.eqa("obstacles are evaluated at the grid's node positions", "%s obstacle %d %s grid %d" % (R.cur, k, what, g), a, lambda i, j, p=p: p.at(i, j), loc=loc, idx={0: n}, ranges=rg)
            for q in range(2):
                hit = seen.get((k, what, "particles", q))
                if hit is not None:
                    a, p, loc = hit
                    R.eqa("obstacles are evaluated at the particles' positions", "%s obstacle %d %s body %d" % (R.cur, k, what, q), a, lambda i, j, p=p: p.at(i, j), loc=loc)


def helpers(R, dim):
    """the public gather and scatter read and write the nodes of the stencil"""
    S = R.use(Scene(dim))
    c = S.coupling(0, 0)
    cache = S.interaction("i00", size("N0"), size("W0"))
    data = sym_arr("grid", (size("nc"), 2))
    r = S.call(c.f["shape_map"], "gather_from_grid", cache, data)
    w = lambda q, k: gath(0, lambda w: X.mul(X.sym("i00.N", q, w), X.sym("grid", X.sym("#i00.node", q, w), k)))
    R.eqa("gathering reads the stencil's nodes", R.cur, r, w)
