"""C04 a step is a pure, trace-safe function of its input state; observers leave the state alone"""
from .c10 import pose
from .c13 import shape_cases
from .c16 import state as io_state
from .c17 import builder, one
from .common import *
from .laws import STATES, law_obj
from sa.values import Cls, Func, Bound, Module_, PSet, Nat, static_fields
from sa.interp import Scope

HOST = ("os.", "sys.", "shutil.", "time.", "datetime.", "random.", "pathlib.", "tempfile.", "logging.", "json.", "pickle.", "subprocess.", "socket.", "secrets.", "uuid.", "threading.",
        "jax.random.", "numpy.random.", "jax.debug.", "jax.experimental.io_callback", "jax.pure_callback", "jax.experimental.host_callback", "jax.config", "pyvista", "rerun", "matplotlib", "builtins.print", "builtins.open",
        "builtins.input", "builtins.globals", "builtins.exec", "builtins.eval")
EFFECT = "a step has no effect outside the state it returns"
INPUT = "a step leaves its inputs as they were"
TRACE = "data-dependent choices use array selection"
CARRY = "the new state has the structure of the old one"
FRESH = "every value of the new state comes from the state and the solver"
OBS = "observing a state never changes it"


def run(R):
    R.ranges = dict(RANGES)
    for dim in (2, 3):
        for scheme in SCHEMES:
            for nm, f in scenes(dim, scheme, R.tier):
                with R.group("%s %dD %s" % (scheme, dim, nm)):
                    stepper(R, dim, scheme, f)
    for dim in (2, 3):
        with R.group("observers %dD" % dim):
            observers(R, dim)


# ------------------------------------------------------------------ worlds
def traced(v, path="s"):
    """the same state with every array leaf an arbitrary traced array"""
    if isinstance(v, tuple):
        return tuple(traced(x, "%s.%d" % (path, k)) for k, x in enumerate(v))
    if isinstance(v, PList):
        return PList([traced(x, "%s.%d" % (path, k)) for k, x in enumerate(v.items)], v.cls)
    if isinstance(v, PDict):
        return PDict({k: traced(x, "%s.%s" % (path, k)) for k, x in v.d.items()})
    if isinstance(v, Obj):
        st = static_fields(v.cls)
        return obj_with(v, **{k: (x if k in st else traced(x, path + "." + k)) for k, x in v.f.items()})
    if isinstance(v, (str, Func, Bound, Cls, Top)) or v is None:
        return v
    a = lift(v)
    if not isinstance(a, Arr):
        return v
    if a.dt == "i":
        X.INTSYM.add(path)
    return sym_arr(path, a.shape, a.dt)


def scenes(dim, scheme, tier):
    """(name, S -> (solver, state)): everything real, built through the builder"""
    def world(laws, nb=None, rigid=(), forces=None, shapes=(), params=None, store_F=False, kernel=None, shared=False):
        def f(S):
            if shared:          # both bodies on congruent grids
                dom = S.domain(0)
                S.domain = lambda g: dom
            n = nb or len(laws)
            B, doms, gid, pos, pid = builder(S, n, 2, rigid)
            k = 0
            for p in range(n):
                if p in rigid:
                    S.call(B, "couple", p_idx=pid[p], g_idx=gid[p % 2], shapefunction=kernel or "cubic")
                    continue
                law, ls = mklaw(S, laws[k], p)
                c = S.call(B, "add_constitutive_law", law=law, law_state=ls)
                S.call(B, "couple", p_idx=pid[p], g_idx=gid[p % 2], c_idx=native(c), shapefunction=kernel or "cubic")
                k += 1
            for nm, kw in shapes:
                S.call(B, "add_sdf_object", sdf_logic=shape(S, nm, kw), center_of_mass=sym_arr("com", (dim,)))
            if forces:
                forces(S, B)
            S.call(B, "set_solver", scheme={"USLSolver": "usl", "USLAFLIP": "usl_aflip"}[scheme], alpha=pyfloat("alpha"), **(params or {}))
            it = S.it.iterate(S.call(B, "build", dt=pyfloat("dt")))
            st = it[1]
            if store_F:
                w = S.get(st, "world")
                mps = [obj_with(m, F_store_stack=m.f["F_stack"]) if "F_store_stack" in m.f else m for m in S.it.iterate(S.get(w, "material_points"))]
                st = obj_with(st, world=obj_with(w, material_points=tuple(mps)))
            sv = it[0]
            if kernel is None:      # stencils by their summary; the kernel scenes compute them
                sv = obj_with(sv, couplings=tuple(summary(S, c) for c in S.it.iterate(S.get(sv, "couplings"))))
            return sv, traced(st)
        return f
    for l in STATES:
        yield "law %s" % l, world([l])
    yield "incremental deformation", world(["LinearElasticLaw"], store_F=True)
    for kern in ("linear", "quadratic", "cubic"):
        yield "kernel %s" % kern, world(["LinearElasticLaw"], kernel=kern)
    if scheme == "USLAFLIP":
        for a in (True, False):
            for b in (True, False):
                yield "dynamic blend %s, MLS %s" % (a, b), world(["LinearElasticLaw"], params=dict(use_dynamic_alpha=a, use_mls_update=b))
    for on in (True, False):
        def fs(S, B, on=on):
            S.call(B, "add_gravity", gravity=sym_arr("g", (dim,)), is_apply_on_grid=on)
            S.call(B, "add_damping", alpha=pyfloat("da"), is_apply_on_grid=on)
        yield "gravity and damping on the %s" % ("grid" if on else "particles"), world(["LinearElasticLaw", "NewtonFluid"], forces=fs)

    def body(S, B):
        S.call(B, "add_body_contact", 0, 1, friction=pyfloat("mu"))
        S.call(B, "add_body_contact", 1, 0, is_reaction=True)
    yield "body contact", world(["LinearElasticLaw", "LinearElasticLaw"], forces=body, shared=True)
    yield "rigid body", world(["LinearElasticLaw"], nb=2, rigid=(0,))
    S0 = Scene(dim)
    for nm, kw, sw in shape_cases(S0, dim):
        if not S0.has(nm):
            continue

        def col(S, B):
            S.call(B, "add_sdf_collider", sdf_idx=0)
        yield "collider %s" % nm, world(["LinearElasticLaw"], forces=col, shapes=[(nm, kw)])


def summary(S, c):
    n = {k: native(S.get(c, k)) for k in ("p_idx", "g_idx", "c_idx", "s_idx", "skip_mpm_logic")}
    return S.coupling(n["p_idx"], n["g_idx"], n["c_idx"], n["s_idx"], n["skip_mpm_logic"])


def shape(S, nm, kw):
    if kw is None:
        return S.raw(nm, sdf_data=sym_arr("img", (4, 5, 6)), grid_min=sym_arr("gmin", (3,)), grid_size=sym_arr("gsz", (3,)), thickness=pyfloat("thickness"), scale=pyfloat("scale"))
    return S.new(nm, **kw)


def mklaw(S, name, p):
    return law_obj(S, name), S.sym_obj(STATES[name], "ls%d" % p, {"num_points": size("N%d" % p)})


# ------------------------------------------------------------------ snapshots
def snap(v, seen, path, out):
    """fingerprint of everything reachable from a value: path -> identity or content"""
    if isinstance(v, (int, float, str, bool, type(None))) or type(v).__name__ == "Fraction":
        out[path] = v
        return
    if id(v) in seen:
        return
    seen[id(v)] = v
    if isinstance(v, tuple):
        for k, x in enumerate(v):
            snap(x, seen, "%s[%d]" % (path, k), out)
    elif isinstance(v, (PList, PSet)):
        out[path] = ("list", tuple(id(x) for x in v.items))
        for k, x in enumerate(v.items):
            snap(x, seen, "%s[%d]" % (path, k), out)
    elif isinstance(v, PDict):
        out[path] = ("dict", tuple((str(k), id(x)) for k, x in v.d.items()))
        for k, x in v.d.items():
            snap(x, seen, "%s[%s]" % (path, k), out)
    elif isinstance(v, Obj):
        out[path] = ("obj", v.cls.name, tuple((k, id(x)) for k, x in v.f.items()))
        for k, x in v.f.items():
            snap(x, seen, path + "." + k, out)
    elif isinstance(v, Cls):
        out[path] = ("class", tuple((k, id(x)) for k, x in v.ns.items()))
        for k, x in v.ns.items():
            snap(x, seen, path + "." + k, out)
    elif isinstance(v, Func):
        ds = list(v.defaults or []) + list((v.kwdefaults or {}).values() if isinstance(v.kwdefaults, dict) else v.kwdefaults or [])
        for k, x in enumerate(ds):
            snap(x, seen, "%s.default%d" % (path, k), out)
        sc = v.closure
        while isinstance(sc, Scope) and id(sc) not in seen:
            seen[id(sc)] = sc
            if sc.parent is not None:       # module scopes are walked separately
                out[path + ".closure"] = tuple((k, id(x)) for k, x in sc.vars.items())
                for k, x in sc.vars.items():
                    snap(x, seen, "%s.closure.%s" % (path, k), out)
            sc = sc.parent
    elif isinstance(v, Bound):
        snap(v.self_, seen, path + ".self", out)
        snap(v.func, seen, path, out)


def globe(S):
    out, seen = {}, {}
    for n, m in sorted(S.it.modules.items()):
        if n == "hydraxmpm":
            continue
        out[n] = ("module", tuple((k, id(x)) for k, x in m.ns.items()))
        for k, x in m.ns.items():
            if not isinstance(x, Module_):
                snap(x, seen, n + "." + k, out)
    return out, seen


def changed(a, b):
    return [k for k in a if k in b and a[k] != b[k]] + [k for k in a if k not in b]


# ------------------------------------------------------------------ the step
def stepper(R, dim, scheme, build):
    S = R.use(Scene(dim))
    it = S.it
    subj = R.cur
    solver, state = build(S)
    before, hold = globe(S)
    ins, hold2 = {}, {}
    snap(solver, hold2, "solver", ins)
    snap(state, hold2, "state", ins)
    n, c, x, m = len(it.effects), len(it.concrete), len(it.extcalls), len(it.lints)
    try:
        out = S.it.call(solver, [state], {})
    finally:
        report_effects(R, S, subj, it.effects[n:], it.extcalls[x:], "the step")
        report_traced(R, S, subj, it.concrete[c:])
    after, _ = globe(S)
    ch = changed(before, {k: after[k] for k in after})
    ch = [k for k in ch if not (isinstance(before[k], tuple) and before[k][0] == "module" and k not in after)]
    R.ob(EFFECT, subj + " module state", not ch, "unchanged" if not ch else "changed: %s" % ch[:4], None, "globals")
    ins2, h3 = {}, {}
    snap(solver, h3, "solver", ins2)
    snap(state, h3, "state", ins2)
    ch = changed(ins, ins2)
    R.ob(INPUT, subj, not ch, "%d values unchanged" % len(ins) if not ch else "changed: %s" % ch[:4], None, "inputs")
    structure(R, subj, state, out, "state", None)
    # the same call again, from the same inputs
    n = len(it.effects)
    again = S.it.call(solver, [state], {})
    d = unlike(out, again, "state")
    R.ob(FRESH, subj + " repeated", not d, "the same call gives the same state" if not d else "a second call on the same state differs in structure: %s" % d, None, "repeat")
    R.extra.setdefault("external functions called during a step", [])
    seen = set(R.extra["external functions called during a step"]) | {nm for nm, _ in it.extcalls[x:]}
    R.extra["external functions called during a step"] = sorted(seen)


def report_effects(R, S, subj, effects, ext, who):
    bad = [e for e in effects if e[0] != "inplace"]
    R.ob(EFFECT, subj, not bad, "no effect recorded in %d library calls" % len(ext) if not bad else "%s has the effect %s %s" % (who, bad[0][0], bad[0][1] if isinstance(bad[0][1], str) else ""),
         bad[0][2] if bad else None, "effect/%s" % (bad[0][0] if bad else ""))
    calls = [e for e in ext if any(e[0] == h.rstrip(".") or e[0].startswith(h) for h in HOST)]
    R.ob(EFFECT, subj + " library calls", not calls, "%d library calls, none with host effects" % len(ext) if not calls else "%s calls %s" % (who, calls[0][0]), calls[0][1] if calls else None,
         "call/%s" % (calls[0][0] if calls else ""))


def depends_on_state(v):
    """structurally: does any component contain a symbol of the traced state"""
    for e in comps_(v):
        if e is None or e.top:
            return None
        if any(s.startswith("s.") or s.startswith("#s.") for s in X.syms(e)):
            return True
    return False


def comps_(v):
    from sa.report import comps
    return comps(v)


def report_traced(R, S, subj, conc):
    hits = []
    for how, v, loc in conc:
        d = depends_on_state(v)
        if d is not False:
            hits.append((how, d, loc))
    sure = [h for h in hits if h[1]]
    R.ob(TRACE, subj, False if sure else None if hits else True, "%d python uses of array values, none of the state" % len(conc) if not hits else "%s of a value computed from the state" % hits[0][0],
         (sure or hits)[0][2] if hits else None, "traced/%s" % ((sure or hits)[0][2][2] if hits else ""))


def kindof(v):
    if isinstance(v, Obj):
        return v.cls.name
    if isinstance(v, PList):
        return "list"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, PDict):
        return "dict"
    if v is None:
        return "None"
    if isinstance(v, str):
        return "str"
    a = lift(v)
    return "array" if isinstance(a, Arr) else type(v).__name__


def structure(R, subj, a, b, path, loc):
    """b can replace a as the state of the next step: same classes, containers, shapes and kinds of numbers"""
    if isinstance(a, Top) or isinstance(b, Top):
        return R.ob(CARRY, "%s %s" % (subj, path), None, "unknown value", loc, "carry/" + path)
    ka, kb = kindof(a), kindof(b)
    if ka != kb:
        return R.ob(CARRY, "%s %s" % (subj, path), False, "%s became %s" % (ka, kb), getattr(b, "src", None) or loc, "carry/" + path)
    if isinstance(a, Obj):
        if set(a.f) != set(b.f):
            return R.ob(CARRY, "%s %s" % (subj, path), False, "fields differ: %s" % sorted(set(a.f) ^ set(b.f)), loc, "carry/" + path)
        st = static_fields(a.cls)
        for k in a.f:
            if k in st:
                R.ob(CARRY, "%s %s.%s" % (subj, path, k), same(a.f[k], b.f[k]) if not isinstance(a.f[k], (Func, Bound, Nat)) else None, "static field unchanged", loc, "static/%s.%s" % (path, k))
            else:
                structure(R, subj, a.f[k], b.f[k], path + "." + k, getattr(b, "src", None) or loc)
        return
    if isinstance(a, (tuple, PList)):
        x, y = (a, b) if isinstance(a, tuple) else (a.items, b.items)
        if len(x) != len(y):
            return R.ob(CARRY, "%s %s" % (subj, path), False, "%d entries became %d" % (len(x), len(y)), loc, "carry/" + path)
        for k, (p, q) in enumerate(zip(x, y)):
            structure(R, subj, p, q, "%s[%d]" % (path, k), loc)
        return
    if a is None or isinstance(a, str):
        return R.ob(CARRY, "%s %s" % (subj, path), a == b, "unchanged", loc, "carry/" + path)
    p, q = lift(a), lift(b)
    if not isinstance(p, Arr):
        return
    src = q.src or loc
    from sa.values import same_dim
    ok = len(p.shape) == len(q.shape) and all(same_dim(m, n) for m, n in zip(p.shape, q.shape))
    sure = len(p.shape) != len(q.shape) or any(isinstance(m, int) and isinstance(n, int) and m != n for m, n in zip(p.shape, q.shape))
    R.ob(CARRY, "%s %s shape" % (subj, path), True if ok else False if sure else None, "shape %s became %s" % (p.shape, q.shape), src, "shape/" + path)
    R.ob(CARRY, "%s %s kind" % (subj, path), p.dt == q.dt, "%s became %s" % (p.dt, q.dt), src, "kind/" + path)


def unlike(a, b, path):
    if type(a) is not type(b):
        return path
    if isinstance(a, Obj):
        if a.cls is not b.cls or set(a.f) != set(b.f):
            return path
        return next((r for k in a.f for r in [unlike(a.f[k], b.f[k], path + "." + k)] if r), None)
    if isinstance(a, (tuple, PList)):
        x, y = (a, b) if isinstance(a, tuple) else (a.items, b.items)
        if len(x) != len(y):
            return path
        return next((r for k, (p, q) in enumerate(zip(x, y)) for r in [unlike(p, q, "%s[%d]" % (path, k))] if r), None)
    if isinstance(a, Arr) and len(a.shape) != len(b.shape):
        return path
    return None


# ------------------------------------------------------------------ observers
def observers(R, dim):
    from . import viz
    S = R.use(Scene(dim))

    def watch(name, val, f):
        with R.group("%s" % name):
            a, h = {}, {}
            snap(val, h, "state", a)
            g = globe(S)[0]
            try:
                f()
            finally:
                b, h2 = {}, {}
                snap(val, h2, "state", b)
                ch = changed(a, b)
                R.ob(OBS, R.cur, not ch, "%d values unchanged" % len(a) if not ch else "changed: %s" % ch[:4], None, "observe/%s" % name)
    for name, obj, f in viz.vtk_cases(S):
        watch("VTK %s" % name, obj, lambda: f(S.new("VTKVisualizer", output_dir="out"), "int"))
    for name, obj, f in viz.rerun_cases(S):
        watch("Rerun %s" % name, obj, f)
    st = io_state(S, scalar(X.sym("#st"), "i"))
    watch("save_step", st, lambda: S.call(S.new("SimIO", output_dir="o"), "save_step", st))
    for law in STATES:
        lo, mp = law_obj(S, law), S.body(0)
        if lo.cls.lookup("get_dt_crit") is not None:
            watch("%s.get_dt_crit" % law, PList([lo, mp]), lambda: S.call(lo, "get_dt_crit", mp, pyfloat("h")))
