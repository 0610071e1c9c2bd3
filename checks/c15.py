"""C15: every member access, call, hook and annotation of the package is consistent, on every path and configuration analysed."""
import concurrent.futures as cf
import importlib
import os

from sa import interp, types
from sa.lints import Lints
from sa.report import Report
from sa.scene import Scene

HERE = os.path.dirname(os.path.abspath(__file__))
STRUCT = {"AttributeError", "NameError", "UnboundLocalError", "TypeError", "ValueError", "KeyError", "RecursionError", "ImportError", "ModuleNotFoundError"}


def scenes(args):
    """run the scenes of another check with annotation checking switched on; returns what was executed and what failed"""
    name, tier = args
    import sys
    sys.setrecursionlimit(100000)
    made = []
    old = interp.Interp.__init__

    def init(self, *a, **k):
        old(self, *a, **k)
        made.append(types.Checker(self))
    interp.Interp.__init__ = init
    R = Report(name.upper(), tier)
    err = ""
    try:
        importlib.import_module("checks." + name).run(R)
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
    finally:
        interp.Interp.__init__ = old
    return (name,) + gathered(made, R) + (err,)


def gathered(made, R):
    bad, funcs, sites = {}, set(), set()
    errors = list(R.errors)
    for c in made:
        for k, v in c.bad.items():
            bad.setdefault(k, v)
        funcs |= c.it.calls
        sites |= c.it.callsites
        errors += [e + ("one arm of a condition",) for e in c.it.swallowed]
    return bad, sum(c.seen for c in made), funcs, len(sites), errors


def surface():
    """public operations no other scene reaches: (name, thunk)"""
    from checks import viz
    from checks.common import make, run as step, Body
    from sa import expr as X
    from sa.scene import fscalar, pyfloat, size
    from sa.values import Arr, PDict, PList, scalar, sym_arr
    for dim in (2, 3):
        S = Scene(dim)
        for name, _, f in viz.vtk_cases(S):
            for st in ("int", "array", "none"):
                yield S, "%dD VTK %s, step %s" % (dim, name, st), lambda f=f, S=S, st=st: f(S.new("VTKVisualizer", output_dir="out"), st)
        for name, _, f in viz.rerun_cases(S):
            yield S, "%dD Rerun %s" % (dim, name), f
        yield S, "%dD recorder" % dim, lambda S=S: recorder(S)
        yield S, "%dD summary" % dim, lambda S=S: summary(S)
        yield S, "%dD collider state" % dim, lambda S=S, dim=dim: S.call(S.raw("SDFCollider"), "create_state", sym_arr("com", (dim,)))
        yield S, "%dD domain box" % dim, lambda S=S, dim=dim: S.call(S.new("DomainSDF", origin=sym_arr("o", (dim,)), end=sym_arr("e", (dim,))), "get_world_aabb")
        yield S, "%dD interaction cache" % dim, lambda S=S: [S.get(S.interaction("i", size("N"), size("W")), k) for k in ("dim", "num_interactions")]
        yield S, "%dD domain wall in a built scene" % dim, lambda S=S, dim=dim: wall(S, dim)
        for cl in ("RigidMaterialPointState", "MaterialPointState"):
            o = S.sym_obj(cl, "mp", {"num_points": size("N")})
            for nm in members(S, cl):
                yield S, "%dD %s.%s" % (dim, cl, nm), lambda S=S, o=o, nm=nm: S.get(o, nm)
        for cl in ("ModifiedCamClayState", "MuIState", "NewtonFluidState", "DruckerPragerState", "LinearElasticState", "SDFObjectState", "GridState"):
            if S.has(cl):
                o = S.sym_obj(cl, "st", {"num_points": size("N"), "num_nodes": size("M")})
                for nm in members(S, cl):
                    yield S, "%dD %s.%s" % (dim, cl, nm), lambda S=S, o=o, nm=nm: S.get(o, nm)
        yield S, "%dD state of a built scene" % dim, lambda S=S, dim=dim: whole(S, dim)
    S = Scene(3)
    for fn, args in (("get_nc_pressure_mcc", ("deps", "cp", "pc")), ("get_v_csl", ("p", "p_ref", "N", "lam", "kap"))):
        m = S.it.module("hydraxmpm.constitutive_laws.modifiedcamclay")
        if fn in m.ns:
            yield S, fn, lambda S=S, f=m.ns[fn], args=args: S.it.call(f, [fscalar(q) for q in args], {})


def members(S, cl):
    """properties of a class"""
    from sa.values import Prop
    c = S.cls(cl)
    return sorted({k for b in c.mro() for k, v in b.ns.items() if isinstance(v, Prop)})


def recorder(S):
    from checks.c16 import state
    from sa import expr as X
    from sa.values import PDict, scalar
    for kw in ({}, {"relative_dir": "/w/run.py"}, {"output_dir": "o", "overwrite": False}):
        io = S.new("SimIO", **kw)
        st = state(S, scalar(X.sym("#st"), "i"))
        so = S.new("USLSolver", grid_domains=(S.domain(0),), constitutive_laws=(), couplings=())
        S.call(io, "save_step", st)
        S.call(io, "save_step", st, verbose=False)
        S.call(io, "save_solver", so)
        S.call(io, "save_solver", so, meta_info=PDict({"a": 1}))
        S.it.call(S.cls("load_simulation"), [], dict(directory="o", solver_skeleton=so, state_skeleton=st, step=3))


def filled(S, dim):
    from sa.scene import pyfloat
    from sa.values import PList, sym_arr
    B = S.new("SimBuilder")
    S.call(B, "add_grid", grid_domain=S.domain(0))
    S.call(B, "add_material_points", position_stack=sym_arr("bx", (5, dim)), mass_stack=sym_arr("bm", (5,)), volume_stack=sym_arr("bv", (5,)))
    S.call(B, "add_constitutive_law", law=S.new("LinearElasticLaw", E=pyfloat("E"), nu=pyfloat("nu")))
    S.call(B, "couple", p_idx=0, g_idx=0, c_idx=0)
    S.call(B, "add_gravity", gravity=sym_arr("g", (dim,)))
    return B


def summary(S):
    from sa.scene import pyfloat
    B = filled(S, S.dim)
    S.call(B, "set_solver", scheme="usl")
    S.call(B, "summary")
    S.call(B, "summary", dt=pyfloat("dt"))


def whole(S, dim):
    """properties of the containers of a built scene"""
    B = filled(S, dim)
    S.call(B, "set_solver", scheme="usl")
    st = S.call(B, "build")[1]
    for o in (st, S.get(st, "world"), S.get(st, "mechanics")):
        for nm in members(S, o.cls.name):
            S.get(o, nm)


def wall(S, dim):
    """a shape that knows its box needs no centre"""
    from sa.values import sym_arr
    B = filled(S, dim)
    S.call(B, "add_sdf_object", sdf_logic=S.new("DomainSDF", origin=sym_arr("o", (dim,)), end=sym_arr("e", (dim,))))
    S.call(B, "set_solver", scheme="usl")
    return S.call(B, "build")


def rest(tier):
    """analyse the surface operations; same result format as scenes()"""
    made = []
    old = interp.Interp.__init__

    def init(self, *a, **k):
        old(self, *a, **k)
        made.append(types.Checker(self))
    interp.Interp.__init__ = init
    R = Report("surface", tier)
    try:
        for S, name, f in surface():
            with R.group(name):
                f()
                R.ob("executes", name, True)
    finally:
        interp.Interp.__init__ = old
    return ("surface",) + gathered(made, R) + ("; ".join("%s: %s" % (o[1], o[3]) for o in R.obs if o[2] is None)[:2000],)


def task(a):
    """one unit of work, with room for deep recursion"""
    import sys
    import threading
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(rest(a[1]) if a[0] == "surface" else scenes(a)))
    t.start()
    t.join()
    return out[0]


def run(R):
    S = R.use(Scene(3))
    lints(R, S)
    names = sorted(f[:-3] for f in os.listdir(HERE) if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py") and f != "c15.py")
    seen, funcs = 0, set()
    with cf.ProcessPoolExecutor(8) as ex:
        for name, bad, n, fs, ns, errors, err in ex.map(task, [(n, R.tier) for n in ["surface"] + names]):
            seen += n
            funcs |= fs
            if err:
                R.ob("analysable", "scenes of " + name, None, err)
            for (q, what), (why, loc) in bad.items():
                R.ob("every value fits its annotation", "%s(%s)" % (short(q), what), False, why, loc)
            for kind, msg, loc, g in errors:
                if kind in STRUCT and loc and loc[0].startswith("hydraxmpm"):
                    R.ob("every executed operation exists", "%s: %s" % (short(loc[2] or loc[0]), msg[:80]), False, "%s: %s (scene %s)" % (kind, msg, g), loc, key="operation/%s:%s" % (kind, msg[:80]))
            R.ob("every value fits its annotation", "scenes of " + name, True if fs else None, "%d annotated values, %d functions, no mismatch" % (n, len(fs)))
    R.extra["annotated_values_checked"] = seen
    allf = set(functions(S))
    R.extra["functions_defined"] = len(allf)
    R.extra["functions_not_executed"] = sorted(allf - funcs)


def short(q):
    return ".".join(q.split(".")[-2:])


def functions(S):
    """every function and method of the package"""
    import ast
    for d, m in sorted(S.it.modules.items()):
        if m.tree is None or not m.path or not d.startswith("hydraxmpm"):
            continue

        def go(body, pre):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    yield pre + "." + n.name
                elif isinstance(n, ast.ClassDef):
                    yield from go(n.body, pre + "." + n.name)
        yield from go(m.tree.body, d)


def lints(R, S):
    L = Lints(S.it).run()
    bad = {(r, s) for r, s, _, _ in L.out}
    for r, s, msg, loc in L.out:
        R.ob(r, s, False, msg, loc)
    for r, n in L.count.items():
        R.ob(r, "whole package", True, "%d constructs, %d distinct violations" % (n, len([1 for q in bad if q[0] == r])))
    R.extra["lint_constructs"] = L.count
