"""C14 unsupported options are rejected and supported ones are all reachable"""
import ast

from .common import *
from .c17 import builder, one
from .c26 import call as generate, parts
from .g2p import G2P, G2P_RANGES, VARIANTS

ACCIDENT = ("AttributeError", "NameError", "UnboundLocalError", "RecursionError")
SCHEME = {"usl": "USLSolver", "usl_aflip": "USLAFLIP"}
KERNEL = {"linear": (2, lambda r: 1 - r), "quadratic": (3, lambda r: 0.75 - r * r), "cubic": (4, lambda r: 2 / 3 - r * r + r ** 3 / 2)}
MODES = ("random", "rejection", "regular", "gauss_legendre")


def strings(S):
    """every string constant of the analysed source that could be an option name, with near misses of each"""
    lits = set()
    for m in S.it.modules.values():
        tree = getattr(m, "tree", None)
        if tree is None:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 24 and "\n" not in n.value:
                lits.add(n.value)
    for f in (SCHEME, KERNEL, MODES):
        lits.update(f)
    out = set(lits)
    opts = set(SCHEME) | set(KERNEL) | set(MODES)
    for s in lits:
        if s in opts or s.replace("_", "").isalnum():
            out.update((s + "x", s[:-1], "x" + s, s[1:], s.upper(), s.capitalize(), s.replace("_", ""), s.replace("_", "-"), " " + s, s + " ", s + "2", s + s))
    out.update(("", "no such option", "default", "none", "usl_apic", "usl-flip", "mls", "tpic", "usl_asflip", "quartic", "spline", "0", "2"))
    return sorted(out)


def canon(s):
    return s.strip().lower()


def run(R):
    R.ranges = dict(RANGES)
    S = Scene(3)
    names = strings(S)
    with R.group("schemes"):
        schemes(R, names)
    for dim in (2, 3):
        with R.group("kernels %dD" % dim):
            kernels(R, dim, names)
        with R.group("sampling modes %dD" % dim):
            modes(R, dim, names)
    with R.group("dimensions"):
        dims(R)
    with R.group("kinds of bodies"):
        bodies(R)
    for scheme in SCHEMES:
        for name, kw in VARIANTS[scheme]:
            with R.group("transfer %s %s" % (scheme, name or "FLIP/PIC")):
                transfer(R, scheme, kw)
    with R.group("transfer default"):
        transfer_default(R)
    with R.group("material law state"):
        law_states(R)
    with R.group("required inputs"):
        missing(R)


def refusal(f):
    """(refused, text, location) of a call that has to be refused"""
    try:
        f()
    except PyErr as e:
        return (e.kind not in ACCIDENT), "%s: %s" % (e.kind, e.msg), e.loc
    return False, "accepted", None


def refused(R, rule, subj, f):
    ok, msg, loc = refusal(f)
    return R.ob(rule, subj, ok, msg if ok or msg == "accepted" else "fails by accident with " + msg, loc)


def unknown(R, what, names, good, f, same_as):
    """every name that is not an option is refused; spelling variants may only mean the option they spell"""
    acc, bad, n = [], [], 0
    loc = None
    for s in names:
        if s in good:
            continue
        n += 1
        try:
            r = f(s)
        except PyErr as e:
            if e.kind in ACCIDENT:
                bad.append("%r fails by accident with %s: %s" % (s, e.kind, e.msg))
                loc = loc or e.loc
            continue
        if canon(s) in good and same_as(r, canon(s)):
            continue
        acc.append("%r is accepted" % s)
    R.ob("any other name is refused at set-up", what, not acc and not bad, "; ".join((bad + acc)[:3]) or "%d names refused" % n, loc)
    R.extra["names_tried"] = max(R.extra.get("names_tried", 0), n)


# ------------------------------------------------------------------ schemes
def schemes(R, names):
    S = R.use(Scene(3))
    B, doms, gid, pos, pid = builder(S, 1, 1)
    S.call(B, "add_constitutive_law", law=S.probe_law(0, []), law_state=S.law_state(0))
    S.call(B, "couple")

    def f(s):
        before = native(S.call(B, "set_solver", scheme=s, alpha=pyfloat("alpha")))
        sv, _ = one(R, S, S.call(B, "build"))
        sv = S.it.iterate(sv)[before] if isinstance(sv, (PList, tuple)) else sv
        return sv.cls
    for s, c in SCHEME.items():
        got = f(s)
        R.ob("each documented scheme selects its own solver", s, got is S.cls(c), "selects %s" % got.name)
    unknown(R, "schemes", names, SCHEME, f, lambda r, s: r is S.cls(SCHEME[s]))


# ------------------------------------------------------------------ kernels
def behaves(R, S, sm, kern, dim, subj):
    """the mapping uses the named kernel: window and weight of a node a quarter cell away"""
    w, fn = KERNEL[kern]
    pos = Arr((1, dim), lambda q, k: X.toE(8.25), "f")
    c = S.call(sm, "compute", pos, tuple(0.0 for _ in range(dim)), tuple(20 for _ in range(dim)), 1.0)
    N, rel = lift(c.f["shape_vals"]), lift(c.f["rel_dist"])
    cnt = native(S.get(sm, "window_size"))
    R.ob("each documented kernel has its own support", subj, cnt == w ** dim, "%s nodes per particle, %d required" % (cnt, w ** dim))
    hit = 0
    for i in range(cnt):
        r = [rel.at(X.C(i), X.C(k)) for k in range(dim)]
        v = N.at(X.C(i))
        if v.top or any(x.top for x in r):
            R.ob("each documented kernel selects its own weights", subj, None, "unknown", N.src)
            return
        r = [abs(X.Env(1, {}).ev(x)) for x in r]
        if all(abs(x - 0.25) < 1e-9 for x in r):
            hit += 1
            got, want = X.Env(1, {}).ev(v), fn(0.25) ** dim
            R.ob("each documented kernel selects its own weights", subj, abs(got - want) < 1e-6, "weight %.6g a quarter cell away, %.6g required" % (got, want), N.src)
    R.ob("each documented kernel selects its own weights", subj + " nodes", hit == 1, "%d nodes a quarter cell away" % hit, N.src)


def kernels(R, dim, names):
    S = R.use(Scene(dim))
    for k in KERNEL:
        with R.group("kernel %s %dD" % (k, dim)):
            behaves(R, S, S.new("ShapeFunctionMapping", shapefunction=k, dim=dim), k, dim, R.cur)
            B, doms, gid, pos, pid = builder(S, 1, 1)
            S.call(B, "add_constitutive_law", law=S.probe_law(0, []), law_state=S.law_state(0))
            i = native(S.call(B, "couple", shapefunction=k))
            S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
            sv, _ = one(R, S, S.call(B, "build"))
            behaves(R, S, S.get(S.it.iterate(S.get(sv, "couplings"))[i], "shape_map"), k, dim, R.cur + " through the builder")
    B, doms, gid, pos, pid = builder(S, 1, 1)
    S.call(B, "add_constitutive_law", law=S.probe_law(0, []), law_state=S.law_state(0))
    S.call(B, "couple")
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    sv, _ = one(R, S, S.call(B, "build"))
    behaves(R, S, S.get(S.it.iterate(S.get(sv, "couplings"))[0], "shape_map"), "cubic", dim, R.cur + " default")
    tab = {k: v[0] ** dim for k, v in KERNEL.items()}
    unknown(R, "kernels %dD" % dim, names, KERNEL, lambda s: native(S.get(S.new("ShapeFunctionMapping", shapefunction=s, dim=dim), "window_size")), lambda r, s: r == tab[s])
    unknown(R, "kernels %dD through the builder" % dim, names, KERNEL, lambda s: S.call(B, "couple", shapefunction=s), lambda r, s: True)


# ------------------------------------------------------------------ sampling
def modes(R, dim, names):
    S = R.use(Scene(dim))
    key = Arr((2,), lambda i: X.sym("#key", i), "i", note="key")
    rnd = dict(num_particles=4, key=key)
    lat = dict(cell_size=pyfloat("h"), ppc=3 ** dim)
    rg = {"mn": (-2.0, -0.1), "mx": (0.2, 2.0), "h": (0.25, 0.9)}

    def first(mode, **kw):
        r, _ = generate(S, mode, dim, **kw)
        pm = parts(R, r)
        return None if pm is None else pm[0]
    cand = {}
    for m in MODES:
        with R.group("mode %s %dD" % (m, dim)):
            cand[m] = first(m, **dict(rnd, **lat))
            if cand[m] is None:
                continue
            c = cand[m].at(X.ZERO, X.ZERO)
            d = X.depends(c, lambda s: s == "#key", ranges=rg)
            R.ob("each documented mode selects its own sampling", R.cur, d is (m in ("random", "rejection")), "candidates %s the random key" % ("depend on" if d else "ignore"), cand[m].src)
    if cand.get("regular") is not None and cand.get("gauss_legendre") is not None:
        eq = X.equal(cand["regular"].at(X.ZERO, X.ZERO), cand["gauss_legendre"].at(X.ZERO, X.ZERO), ranges=rg)
        R.ob("each documented mode selects its own sampling", "regular and gauss_legendre %dD" % dim, None if eq is None else not eq, "same positions" if eq else "different positions", cand["gauss_legendre"].src)
    # the default mode is a valid one
    with R.group("default mode %dD" % dim):
        r = S.it.call(S.cls("generate_particles_in_sdf"), [], dict(sdf_obj=S.probe_sdf(0, []), sdf_state=S.sdf_state(0), bounds_min=sym_arr("mn", (dim,)), bounds_max=sym_arr("mx", (dim,)), **dict(rnd, **lat)))
        pm = parts(R, r)
        if pm is not None:
            R.ob("the default mode is a documented one", R.cur, any(c is not None and same(c, pm[0]) for c in cand.values()), "", pm[0].src)
    ref = {m: (lambda c: None if c is None else c.at(X.ZERO, X.ZERO))(c) for m, c in cand.items()}
    unknown(R, "sampling modes %dD" % dim, names, MODES, lambda s: first(s, **dict(rnd, **lat)), lambda r, s: r is not None and ref[s] is not None and X.equal(r.at(X.ZERO, X.ZERO), ref[s], ranges=rg))
    for m in ("random", "rejection"):
        for drop in ("key", "num_particles"):
            refused(R, "missing inputs are refused", "%s without %s %dD" % (m, drop, dim), lambda: generate(S, m, dim, **{k: v for k, v in rnd.items() if k != drop}))
    for m in ("regular", "gauss_legendre"):
        for drop in ("cell_size", "ppc"):
            refused(R, "missing inputs are refused", "%s without %s %dD" % (m, drop, dim), lambda: generate(S, m, dim, **{k: v for k, v in lat.items() if k != drop}))


# ------------------------------------------------------------------ dimension
def dims(R):
    S = R.use(Scene(3))
    for k in KERNEL:
        for d in (2, 3):
            R.ob("the documented dimensions are supported", "%s %dD" % (k, d), native(S.get(S.new("ShapeFunctionMapping", shapefunction=k, dim=d), "window_size")) == KERNEL[k][0] ** d, "")
        for d in (-1, 0, 1, 4, 5):
            refused(R, "unsupported dimensions are refused at set-up", "%s dim=%d" % (k, d), lambda: S.new("ShapeFunctionMapping", shapefunction=k, dim=d))


# ------------------------------------------------------------------ builder flags
def bodies(R):
    S = R.use(Scene(3))
    B = S.new("SimBuilder")
    kw = dict(position_stack=sym_arr("x", (size("N0"), 3)))
    full = dict(kw, mass_stack=sym_arr("m", (size("N0"),)), volume_stack=sym_arr("v", (size("N0"),)))
    want = []
    for nm, a, cls in (("rigid", dict(kw, is_rigid=True), "RigidMaterialPointState"), ("deformable", dict(full, is_rigid=False), "MaterialPointState"), ("default", full, "MaterialPointState")):
        want.append((nm, native(S.call(B, "add_material_points", **a)), cls))
    S.call(B, "add_grid", grid_domain=S.domain(0))
    S.call(B, "set_solver", scheme="usl", alpha=pyfloat("alpha"))
    _, st = one(R, S, S.call(B, "build"))
    mps = S.it.iterate(S.get(st, "world", "material_points"))
    for nm, i, cls in want:
        R.ob("is_rigid selects the kind of body", nm, mps[i].cls is S.cls(cls), mps[i].cls.name)


# ------------------------------------------------------------------ transfer variants
def transfer(R, scheme, kw):
    """a solver configured through the builder computes what the solver class computes with the same options"""
    rg = dict(G2P_RANGES)
    a = G2P(R, scheme, 3, kw)
    b = G2P(R, scheme, 3, kw, via="builder")
    for f in ("velocity_stack", "position_stack", "L_stack"):
        R.eqa("options given to the builder select the same variant", "%s %s" % (R.cur, f), b.out(0).f[f], a.out(0).f[f], ranges=rg)
    if scheme == "USLAFLIP":
        R.eqa("options given to the builder select the same variant", "%s memory" % R.cur, b.mem(0).f["Bp_stack"], a.mem(0).f["Bp_stack"], ranges=rg)
        for opt, fld in (("use_dynamic_alpha", "velocity_stack"), ("use_mls_update", "L_stack")):
            c = G2P(R, scheme, 3, dict(kw, **{opt: not kw[opt]}))
            x, y = lift(a.out(0).f[fld]), lift(c.out(0).f[fld])
            i = (X.sym("#q"),) + tuple(X.ZERO for _ in x.shape[1:])
            eq = X.equal(x.at(*i), y.at(*i), ranges=rg)
            R.ob("each value of a switch selects its own variant", "%s %s" % (R.cur, opt), None if eq is None else not eq, "both values compute the same" if eq else "", x.src)


def transfer_default(R):
    """left out, a switch takes one of its values"""
    rg = dict(G2P_RANGES)
    full = VARIANTS["USLAFLIP"][0][1]
    for via in ("class", "builder"):
        for opt in ("use_dynamic_alpha", "use_mls_update"):
            kw = {k: v for k, v in full.items() if k != opt}
            d = G2P(R, "USLAFLIP", 3, kw, via=via)
            hits = []
            for val in (True, False):
                e = G2P(R, "USLAFLIP", 3, dict(kw, **{opt: val}), via="class")
                x, y = lift(d.out(0).f["velocity_stack"]), lift(e.out(0).f["velocity_stack"])
                u, v = lift(d.mem(0).f["Bp_stack"]), lift(e.mem(0).f["Bp_stack"])
                q = X.sym("#q")
                hits.append(X.equal(x.at(q, X.ZERO), y.at(q, X.ZERO), ranges=rg) is True and X.equal(u.at(q, X.ZERO, X.ONE), v.at(q, X.ZERO, X.ONE), ranges=rg) is True)
            R.ob("defaults are valid values", "%s via the %s" % (opt, via), any(hits), "")


# ------------------------------------------------------------------ required inputs
def law_states(R):
    from .laws import law_obj
    S = R.use(Scene(3))
    for nm in ("DruckerPrager", "ModifiedCamClay"):
        B = S.new("SimBuilder")
        law = law_obj(S, nm)
        refused(R, "missing inputs are refused", "%s without its state" % nm, lambda: S.call(B, "add_constitutive_law", law=law))
    B = S.new("SimBuilder")
    refused(R, "missing inputs are refused", "a law of the user without its state", lambda: S.call(B, "add_constitutive_law", law=S.probe_law(0, [])))
    for nm in ("DruckerPrager", "ModifiedCamClay"):
        B = S.new("SimBuilder")
        stt = S.law_state(3)
        k = native(S.call(B, "add_constitutive_law", law=law_obj(S, nm), law_state=stt))
        R.ob("a state that is given is accepted", nm, k == 0, "")


def missing(R):
    S = R.use(Scene(3))
    n = size("N0")
    for fn in ("get_scalar_shear_stress", "get_scalar_shear_strain"):
        if S.has(fn):
            refused(R, "missing inputs are refused", "%s without a tensor" % fn, lambda: S.it.call(S.cls(fn), [], {}))
    for dim in (2, 3):
        T = R.use(Scene(dim))
        o, e = sym_arr("o", (dim,)), sym_arr("e", (dim,))
        for cnt in range(0, 2 * dim + 3):
            fr = PList([0.1 * (j + 1) for j in range(cnt)])
            f = lambda: T.new("DomainSDF", origin=o, end=e, frictions=fr)
            if cnt == 2 * dim:
                ok, msg, loc = refusal(f)
                R.ob("one friction per wall is accepted", "%dD" % dim, msg == "accepted", msg, loc)
            else:
                refused(R, "a wrong number of wall frictions is refused", "%dD %d frictions" % (dim, cnt), f)
