"""C26 generated particles fill the shape at the requested resolution"""
import math

from .common import *
from sa.lib import gauss_legendre

MODES = ("regular", "gauss_legendre")


def run(R):
    R.ranges = {"mn": (-2.0, -0.1), "mx": (0.2, 2.0), "h": (0.25, 0.9), "com": (-1, 1), "rot": (-1, 1)}
    ppcs = {2: (1, 2, 3, 4, 9, 16), 3: (1, 4, 8, 27)}
    if R.tier == "thorough":
        ppcs = {2: tuple(range(1, 26)), 3: tuple(range(1, 28)) + (64,)}
    for dim in (2, 3):
        for mode in MODES:
            for ppc in ppcs[dim]:
                with R.group("%s %dD %d per cell" % (mode, dim, ppc)):
                    lattice(R, mode, dim, ppc)
        for num in (1, 5, None):
            with R.group("random %dD %s candidates" % (dim, num or "N")):
                random(R, dim, num)
        for mode in MODES + ("random",):
            for given in ("state", "centre and rotation", "centre", "nothing"):
                with R.group("%s %dD pose from %s" % (mode, dim, given)):
                    pose(R, mode, dim, given)


def call(S, mode, dim, **kw):
    log = []
    a = dict(sdf_obj=S.probe_sdf(0, log), bounds_min=sym_arr("mn", (dim,)), bounds_max=sym_arr("mx", (dim,)), mode=mode)
    a.update(kw)
    if "sdf_state" not in a:
        a["sdf_state"] = S.sdf_state(0)
    r = S.it.call(S.cls("generate_particles_in_sdf"), [], {k: v for k, v in a.items() if v is not None})
    return r, [e for e in log if e[0] == "sdf" and e[2] == "dist"]


def parts(R, r):
    """(candidates, mask) of the returned selection, or None"""
    if isinstance(r, Arr) and isinstance(r.note, tuple) and r.note[0] == "masked" and r.note[3] == 0:
        return r.note[1], r.note[2]
    R.ob("particles are a selection of the candidates", R.cur, None, "returned value is not a recognised selection")


def selection(R, S, cand, mask, ev, dim):
    """kept exactly when the signed distance at the candidate is negative"""
    i = X.bounded("#ix0", cand.shape[0])
    R.ob("one decision per candidate", R.cur, X.equal(dimE(mask.shape[0]), dimE(cand.shape[0]), ranges=R.ranges), "", cand.src)
    d = X.fn("sdf0.dist@s0", *[cand.at(i, X.C(k)) for k in range(dim)])
    m = mask.at(i)
    bad = []
    hits = {True: 0, False: 0}
    if m.top:
        R.ob("exactly the candidates inside the shape are kept", R.cur, None, "mask unknown", mask.src)
        return
    for seed in range(1, 41):
        env = X.Env(seed, R.ranges)
        inside = env.ev(d) < 0
        keep = bool(env.ev(m))
        hits[inside] += 1
        if keep != inside:
            bad.append("candidate at signed distance %.3g is %s" % (env.ev(d), "kept" if keep else "dropped"))
    R.ob("exactly the candidates inside the shape are kept", R.cur, not bad if hits[True] and hits[False] else None, bad[0] if bad else "%d inside and %d outside samples" % (hits[True], hits[False]), mask.src)
    for val, want in ((0, False), (Fr(1, 10 ** 6), False), (-Fr(1, 10 ** 6), True), (Fr(-1, 10), True), (-5, True)):
        v = X.subst(m, {d: X.C(val)})
        ok = None if v.top or X.depends(v, lambda s: s.startswith("sdf0"), ranges=R.ranges) else bool(X.Env(1, R.ranges).ev(v)) == want
        R.ob("particles lie strictly inside", "%s distance %s" % (R.cur, float(val)), ok, "a candidate at signed distance %g is %s" % (float(val), "dropped" if want else "kept"), mask.src)


from fractions import Fraction as Fr


def lattice(R, mode, dim, ppc):
    S = R.use(Scene(dim))
    r, ev = call(S, mode, dim, cell_size=pyfloat("h"), ppc=ppc)
    pm = parts(R, r)
    if pm is None:
        return
    cand, mask = pm
    selection(R, S, cand, mask, ev, dim)
    m = math.ceil(round(ppc ** (1 / dim), 9))
    frac = [(2 * j + 1) / (2 * m) for j in range(m)] if mode == "regular" else [0.5 * (x + 1) for x in gauss_legendre(m)[0]]
    i = X.bounded("#cand", cand.shape[0])
    iname = i.args[0]
    ce = [cand.at(i, X.C(k)) for k in range(dim)]
    nE = dimE(cand.shape[0])
    if any(e.top for e in ce) or nE.top:
        R.ob("candidates cover the bounds, cell by cell", R.cur, None, "candidate positions unknown", cand.src)
        return
    msg = None
    n = 0
    free = {s for e in ce for s in X.syms(e)} - {"mn", "mx", "h", iname}
    if any(X.depends(e, lambda s: s in free, ranges=R.ranges) for e in ce):
        R.ob("candidates depend on the bounds and the cell size only", R.cur, False, "positions vary with %s" % sorted(free), cand.src)
        return
    for seed in range(1, 6 if R.tier == "quick" else 15):
        special = {}
        if seed % 2 == 0:           # bounds aligned with the cells
            special = {"mn": lambda env, nm, ix: -env.symbol("h", ()) * (1 + int(3 * X._h(env.seed, "a", int(ix[0])))), "mx": lambda env, nm, ix: env.symbol("h", ()) * (1 + int(2 * X._h(env.seed, "b", int(ix[0]))))}
        rg = dict(R.ranges, h=(0.5, 0.5) if seed % 2 == 0 else (0.45, 1.1))
        env = X.Env(seed, rg, special=special)
        h = env.symbol("h", ())
        lo = [env.symbol("mn", (k,)) for k in range(dim)]
        hi = [env.symbol("mx", (k,)) for k in range(dim)]
        axes = [[(c + f) * h for c in range(math.floor(lo[k] / h), math.ceil(hi[k] / h)) for f in frac] for k in range(dim)]
        num = env.ev(nE)
        n = math.prod(len(a) for a in axes)
        where = "(bounds %s to %s, cell size %.3g)" % (lo, hi, h)
        if abs(num - n) > 1e-9:
            msg = "%g candidates where %d are required %s" % (num, n, where)
            break
        seen = set()
        for j in range(n):
            e2 = X.Env(seed, dict(rg, **{iname: (j, j)}), special=special)
            p = [e2.ev(e) for e in ce]
            near = tuple(min(range(len(a)), key=lambda q: abs(a[q] - x)) for a, x in zip(axes, p))
            if any(abs(a[q] - x) > 1e-5 * h for a, q, x in zip(axes, near, p)):
                msg = "candidate %s is none of the required positions %s" % (p, where)
            elif near in seen:
                msg = "candidate %s appears twice %s" % (p, where)
            if msg:
                break
            seen.add(near)
        if msg:
            break
    R.ob("candidates cover the bounds, cell by cell, at the requested number per cell", R.cur, msg is None, msg or "%d candidates, %d per direction and cell" % (n, m), cand.src)


def random(R, dim, num):
    S = R.use(Scene(dim))
    key = Arr((2,), lambda i: X.sym("#key", i), "i", note="key")
    cnt = num if num is not None else scalar(X.sym("#num"), "i", "int")
    r, ev = call(S, "random", dim, num_particles=cnt, key=key)
    pm = parts(R, r)
    if pm is None:
        return
    cand, mask = pm
    selection(R, S, cand, mask, ev, dim)
    R.eq("random sampling draws the requested number of candidates", R.cur, dimE(cand.shape[0]), X.toE(num) if num is not None else X.sym("#num"), cand.src)
    i = X.sym("#ix0")
    us = []
    for k in range(dim):
        e = cand.at(i, X.C(k))
        if e.top:
            R.ob("candidates are uniform in the bounds", R.cur, None, "unknown", cand.src)
            return
        draws = nodes(e, "uniform01")
        lo, hi = X.sym("mn", X.C(k)), X.sym("mx", X.C(k))
        if len(draws) != 1:
            R.ob("candidates are uniform in the bounds", "%s direction %d" % (R.cur, k), None if draws or nodes(e, "normal01") == [] and not draws and X.syms(e) - {"mn", "mx", "#key", "#ix0"} else False, "%d uniform draws in a coordinate" % len(draws), cand.src)
            continue
        u = draws[0]
        us.append(u)
        R.eq("candidates are uniform in the bounds", "%s direction %d" % (R.cur, k), e, X.add(lo, X.mul(u, X.sub(hi, lo))), cand.src)
        R.ob("draws come from the given key", "%s direction %d" % (R.cur, k), "#key" in X.syms(u), "", cand.src)
        if num is None or num > 1:
            R.ob("candidates are drawn independently", "%s direction %d" % (R.cur, k), u is not X.subst(u, {i: X.add(i, X.ONE)}), "the draw does not change from candidate to candidate", cand.src)
    R.ob("coordinates are drawn independently", R.cur, len(set(us)) == len(us), "", cand.src)


def nodes(e, name, seen=None):
    seen = set() if seen is None else seen
    out = []
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "f" and x.args[0] == name:
            out.append(x)
        st.extend(a for a in x.args if isinstance(a, X.E))
        for a in x.args:
            if isinstance(a, tuple):
                st.extend(b for b in a if isinstance(b, X.E))
                for b in a:
                    if isinstance(b, tuple):
                        st.extend(c for c in b if isinstance(c, X.E))
    return out


def pose(R, mode, dim, given):
    """the shape is evaluated at the pose asked for"""
    S = R.use(Scene(dim))
    rot = fscalar("rot") if dim == 2 else sym_arr("rot", (4,))
    log = []
    seen = []
    made = []
    probe = S.probe_sdf(0, log)

    def create(it, a, kw):
        b = it.bind(S.cls("SDFObjectBase").lookup("create_state"), a, kw)
        made.append(b)
        st = S.sdf_state(0)
        st.f["_tag"] = "made"
        return st
    probe.cls.ns["create_state"] = __import__("sa.values", fromlist=["Nat"]).Nat(create, "create_state")
    kw = dict(sdf_obj=probe)
    kw.update(dict(num_particles=4, key=Arr((2,), lambda i: X.sym("#key", i), "i", note="key")) if mode == "random" else dict(cell_size=pyfloat("h"), ppc=4))
    if given == "state":
        st = S.sdf_state(0)
        st.f["_tag"] = "given"
        kw["sdf_state"] = st
    else:
        kw["sdf_state"] = None
        if "centre" in given:
            kw["center_of_mass"] = sym_arr("com", (dim,))
        if "rotation" in given:
            kw["rotation"] = rot
    call(S, mode, dim, **kw)
    ev = [e for e in log if e[0] == "sdf" and e[2] == "dist"]
    R.ob("the shape decides", R.cur, bool(ev), "%d evaluations" % len(ev))
    for e in ev:
        R.ob("the shape is evaluated in the requested state", R.cur, e[3].f.get("_tag") == ("given" if given == "state" else "made"), "state %s" % e[3].f.get("_tag"), e[5])
    if given != "state":
        for b in made:
            c = b.get("center_of_mass")
            want = (lambda k: X.sym("com", k)) if "centre" in given else (lambda k: X.mul(X.C(Fr(1, 2)), X.add(X.sym("mn", k), X.sym("mx", k))))
            R.eqa("the centre is the one given, or the middle of the bounds", R.cur, c, want)
            if "rotation" in given:
                R.eqa("the rotation is the one given", R.cur, b.get("rotation"), lambda *k: X.sym("rot", *k))
            else:
                R.ob("no rotation by default", R.cur, b.get("rotation") is None, "")
