"""Analysis scenes: abstract objects, probe components and symbolic worlds."""
import ast
import glob
import os

from . import expr as X
from .interp import Interp, Scope
from .values import (Arr, Bound, Cls, Cur, Ext, FieldSpec, Func, JT, Nat, Obj, PDict, PList, PyErr, Q, Top, Union_, Unknown,
                     lift, scalar, sym_arr, dimE, native)

DIMWORDS = {"dim"}


def size(name):
    return X.sym("#" + name)


def fscalar(name):
    """symbolic 0-d array"""
    return scalar(X.sym(name), "f")


def pyfloat(name):
    return scalar(X.sym(name), "f", "float")


class Scene:
    def __init__(self, dim=3, repo=None):
        self.it = Interp(repo)
        self.dim = dim
        self._cls = {}
        self.repo = self.it.repo

    # ------------------------------------------------------------- anchors
    def cls(self, name, must=True):
        """resolve a public class or function by name, wherever the package defines it"""
        if name in self._cls:
            return self._cls[name]
        m = self.it.module("hydraxmpm")
        r = None
        try:
            r = self.it.mod_attr(m, name)
        except PyErr:
            r = None
        if r is None or isinstance(r, (Ext, Top)) or not isinstance(r, (Cls, Func, Nat)):
            r = None
            for f in sorted(glob.glob(os.path.join(self.repo, "hydraxmpm", "**", "*.py"), recursive=True)):
                if f.endswith("__init__.py"):
                    continue
                try:
                    t = ast.parse(open(f).read())
                except SyntaxError:
                    continue
                if any(isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == name for n in t.body):
                    d = os.path.relpath(f, self.repo)[:-3].replace(os.sep, ".")
                    r = self.it.module(d).ns.get(name)
                    break
        if r is None and must:
            raise Unknown("anchor %s not found" % name)
        self._cls[name] = r
        return r

    def has(self, name):
        return self.cls(name, must=False) is not None

    # ------------------------------------------------------------- objects
    def subclass(self, base, name, methods=None, fields=None):
        """a probe class deriving from a repository class"""
        base = self.cls(base) if isinstance(base, str) else base
        ns = {k: (Nat(v, k) if callable(v) else v) for k, v in (methods or {}).items()}
        node = ast.parse("class %s: pass" % name).body[0]
        return Cls(name, [base], ns, base.mod, node, dict(fields or {}))

    def raw(self, cls, **f):
        """instance with given field values; remaining fields keep their declared defaults"""
        cls = self.cls(cls) if isinstance(cls, str) else cls
        o = Obj(cls)
        for k in self.it.all_fields(cls):
            if k in f:
                o.f[k] = f.pop(k)
            else:
                sp = self.it.fieldspec(cls, k)
                if sp.has_default:
                    o.f[k] = sp.default
        for k, v in f.items():
            o.f[k] = v
        o.frozen = cls.is_module()
        return o

    def annot(self, cls, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        if isinstance(ann, ast.AST):
            sc = Scope(cls.mod, None, cls.mod.name)
            sc.vars = cls.mod.ns
            try:
                return self.it.ev(ann, sc)
            except (PyErr, Unknown):
                return None
        return ann

    def symval(self, ann, tag, dims):
        if isinstance(ann, Union_):
            alts = [a for a in ann.alts if a is not None and not (isinstance(a, Ext) and a.name.endswith("NoneType"))]
            # prefer an array of known rank
            jts = [a for a in alts if isinstance(a, JT) and "..." not in a.spec]
            if len(jts) > 1:
                for a in jts:
                    if a.spec.strip() in ("3", "4") and self.dim == 3:
                        return self.symval(a, tag, dims)
                    if a.spec.strip() == "" and self.dim == 2:
                        return self.symval(a, tag, dims)
            if self.dim == 2 and any(isinstance(a, Ext) and a.name == "builtins.float" for a in alts) and not any(a.spec.strip() not in ("3", "4", "...") for a in jts):
                return fscalar(tag)
            return self.symval((jts or alts)[0], tag, dims)
        if isinstance(ann, JT):
            shape = []
            for q in ann.spec.split():
                if q.startswith("*") or q == "...":
                    continue
                if q.isdigit():
                    shape.append(int(q))
                else:
                    d = dims.get(q)
                    if d is None:
                        d = self.dim if q in DIMWORDS else size(q + "." + tag)
                    shape.append(d)
            dt = {"Int": "i", "UInt": "i", "Integer": "i", "Bool": "b"}.get(ann.kind, "f")
            return sym_arr(tag, tuple(shape), dt)
        if isinstance(ann, Ext):
            n = ann.name.split(".")[-1]
            if n == "float":
                return pyfloat(tag)
            if n == "int":
                X.INTSYM.add(tag)
                return scalar(X.sym(tag), "i", "int")
            if n == "bool":
                return False
            if n == "str":
                return tag
        return None

    def sym_obj(self, cls, tag, dims=None, **over):
        """instance whose array fields are symbols named tag.field"""
        cls = self.cls(cls) if isinstance(cls, str) else cls
        o = Obj(cls)
        dims = dict(dims or {})
        dims.setdefault("dim", self.dim)
        for k, (c, ann) in self.it.all_fields(cls).items():
            if k in over:
                o.f[k] = over[k]
                continue
            sp = self.it.fieldspec(cls, k)
            v = self.symval(self.annot(c, ann), tag + "." + k, dims)
            if v is None and sp.has_default:
                v = sp.default
            elif isinstance(v, (bool, str)) and sp.has_default:
                v = sp.default
            o.f[k] = v
        o.frozen = cls.is_module()
        return o

    def new(self, cls, *a, **kw):
        cls = self.cls(cls) if isinstance(cls, str) else cls
        return self.it.call(cls, list(a), kw)

    def call(self, o, name, *a, **kw):
        return self.it.call(self.it.getattr(o, name), list(a), kw)

    def get(self, o, *path):
        for p in path:
            o = self.it.getitem(o, p) if isinstance(p, int) or isinstance(p, tuple) else self.it.getattr(o, p)
        return o

    # ------------------------------------------------------------- bodies
    def body(self, p, store_F=False, **over):
        n = size("N%d" % p)
        mp = self.sym_obj("MaterialPointState", "p%d" % p, {"num_points": n}, **over)
        if not store_F and "F_store_stack" in mp.f and "F_store_stack" not in over:
            mp.f["F_store_stack"] = None
        return mp

    def rigid(self, p):
        return self.sym_obj("RigidMaterialPointState", "p%d" % p, {"num_points": size("N%d" % p)})

    def domain(self, g):
        """a grid domain with symbolic bounds and spacing, built by the repository's own constructor"""
        o = tuple(pyfloat("g%d.origin%d" % (g, i)) for i in range(self.dim))
        e = tuple(pyfloat("g%d.end%d" % (g, i)) for i in range(self.dim))
        return self.call(self.cls("GridDomain"), "create", origin=o, end=e, cell_size=pyfloat("g%d.h" % g))

    def num_nodes(self, dom):
        return dimE(native(self.get(dom, "num_cells")))

    # ------------------------------------------------------------- interactions
    def interaction(self, tag, n, w, dim=3, mask="one"):
        """summary of the particle-node interaction list: entry p*w+s belongs to particle p, stencil slot s"""
        I = X.mul(n, w)
        X.SPLIT[I] = (n, w)

        def ps(i):
            return X.floordiv(i, w), X.mod(i, w)

        def arr(name, tail=(), dt="f"):
            pre = "#" if dt == "i" else ""
            return Arr((I,) + tail, lambda i, *r: X.sym(pre + tag + "." + name, *ps(i), *r), dt)
        cls = self.cls("InteractionCache")
        vals = {
            "node_hashes": arr("node", (), "i"),
            "shape_vals": arr("N"),
            "shape_grads": arr("dN", (3,)),
            "rel_dist": arr("rel", (3,)),
            "cpic_mask": arr("mask") if mask != "one" else Arr((I,), lambda i: X.ONE, "f"),
            "point_ids": Arr((I,), lambda i: ps(i)[0], "i"),
            "stencil_ids": Arr((I,), lambda i: ps(i)[1], "i"),
        }
        if self.dim == 2:
            for k, nm in (("shape_grads", "dN"), ("rel_dist", "rel")):
                vals[k] = Arr((I, 3), (lambda nm: lambda i, j: X.where(X.lt(j, X.C(2)), X.sym(tag + "." + nm, *ps(i), j), X.ZERO))(nm), "f")
        o = Obj(cls)
        for k in self.it.all_fields(cls):
            if k in vals:
                o.f[k] = vals[k]
            else:
                sp = self.it.fieldspec(cls, k)
                if sp.has_default:
                    o.f[k] = sp.default
                elif "window" in k:
                    o.f[k] = scalar(w, "i", "int")
                else:
                    raise Unknown("unmodelled interaction field %s" % k)
        o.frozen = True
        return o

    def coupling(self, p, g, c=0, s=0, skip=False, window=None, mask="one", log=None, k=None, kernel="cubic"):
        """body coupling whose stencil computation is replaced by its (separately checked) summary"""
        w = window or size("W%d" % (k if k is not None else p))
        tag = "i%d%d" % (p, g)
        scene = self

        def compute(it, a, kw):
            pos = a[1] if len(a) > 1 else kw.get("position_stack")
            if log is not None:
                log.append(("compute", p, g, pos, list(a[2:]), dict(kw), Cur.loc))
            n = pos.shape[0] if isinstance(pos, Arr) else size("N%d" % p)
            return scene.interaction(tag, dimE(n), w, mask=mask)
        sm = self.subclass("ShapeFunctionMapping", "ProbeMapping", {"compute": compute})
        smo = self.new("ShapeFunctionMapping", kernel, self.dim)
        smo.cls = sm
        kw = dict(shape_map=smo, p_idx=p, g_idx=g, c_idx=None if skip else c, s_idx=None if skip else s, skip_mpm_logic=skip)
        return self.new("BodyCoupling", **kw)

    # ------------------------------------------------------------- probes
    def probe_law(self, c, log, reset=False):
        scene = self

        def update(it, a, kw):
            vals = list(a[1:]) + list(kw.values())
            mp = next((v for v in vals if isinstance(v, Obj) and v.cls.issub(scene.cls("BaseMaterialPointState"))), None)
            st = next((v for v in vals if v is not mp and not isinstance(lift(v) if v is not None and not isinstance(v, Obj) else v, Arr)), None)
            dt = next((v for v in vals if v is not mp and v is not st), None)
            log.append(("law", c, mp, st, dt, Cur.loc))
            if mp is None:
                raise PyErr("AttributeError", "law received no particles", Cur.loc)
            n = dimE(mp.f["stress_stack"].shape[0])
            m2 = Obj(mp.cls)
            m2.f = dict(mp.f)
            m2.frozen = True
            m2.f["stress_stack"] = sym_arr("law%d.stress" % c, (n, 3, 3))
            s2 = st
            if isinstance(st, Obj):
                s2 = Obj(st.cls)
                s2.frozen = True
                s2.f = {k: (sym_arr("law%d.%s'" % (c, k), v.shape) if isinstance(v, Arr) else v) for k, v in st.f.items()}
            return (m2, s2)
        cl = self.subclass("ConstitutiveLaw", "ProbeLaw%d" % c, {"update": update})
        return self.raw(cl, requires_F_reset=reset)

    def law_state(self, c):
        cl = self.subclass("ConstitutiveLawState", "ProbeLawState", {}, {"history_stack": JT("Float", "num_points")})
        return self.raw(cl, history_stack=sym_arr("lawstate%d" % c, (size("NL%d" % c),)))

    def bind_base(self, base, name, a, kw):
        """argument names of a hook call, according to the base class's signature"""
        f = self.cls(base).lookup(name)
        return self.it.bind(f, a, kw)

    def probe_force(self, k, log, act=None, hooks=("apply_kinematics", "apply_pre_p2g", "apply_grid_forces", "apply_grid_moments")):
        """force recording the values every hook receives; act(hook, args) may return replaced results"""
        scene = self
        ms = {}

        def mk(h):
            def hook(it, a, kw):
                b = scene.bind_base("Force", h, a, kw)
                log.append(("hook", k, h, dict(b), Cur.loc))
                r = act(h, b) if act is not None else None
                if r is not None:
                    return r
                if h == "apply_kinematics":
                    return (b["world"], b["mechanics"])
                return (b["world"], b["mechanics"], b["sim_cache"])
            return hook
        for h in hooks:
            ms[h] = mk(h)
        return self.raw(self.subclass("Force", "ProbeForce%d" % k, ms))

    def probe_sdf(self, k, log):
        """obstacle logic with uninterpreted geometry; records the states it is evaluated with"""
        scene = self

        def ev(name, vec):
            def f(it, a, kw):
                st, pts = a[1], a[2] if len(a) > 2 else None
                for key, v in kw.items():
                    if isinstance(v, Obj):
                        st = v
                    elif pts is None:
                        pts = v
                log.append(("sdf", k, name, st, pts, Cur.loc))
                tag = st.f["_tag"] if isinstance(st, Obj) and "_tag" in st.f else "?"
                nd = scene.dim
                nm = "sdf%d.%s@%s" % (k, name, tag)
                if not isinstance(pts, Arr):
                    return Top("sdf")

                def val(*i):
                    # uninterpreted geometry: a function of the query position
                    coords = [pts.at(i[0], X.C(q)) for q in range(nd)]
                    return X.fn(nm, *coords, *i[1:])
                return Arr((pts.shape[0],) + ((nd,) if vec else ()), val, "f")
            return f

        def upd(it, a, kw):
            st = a[1] if len(a) > 1 else kw.get("sdf_state")
            dt = a[2] if len(a) > 2 else kw.get("dt")
            log.append(("sdf_update", k, st, dt, Cur.loc))
            n = Obj(st.cls)
            n.f = dict(st.f)
            n.f["_tag"] = st.f.get("_tag", "?") + "'"
            n.frozen = True
            for q, v in list(n.f.items()):
                if isinstance(v, Arr):
                    n.f[q] = sym_arr("sdfupd%d.%s" % (k, q), v.shape)
            return n
        ms = {"get_signed_distance_stack": ev("dist", False), "get_normal_stack": ev("normal", True),
              "get_velocity_stack": ev("vel", True), "get_surface_friction_stack": ev("mu", False), "update_kinematics": upd}
        return self.raw(self.subclass("SDFObjectBase", "ProbeSDF%d" % k, ms))

    def sdf_state(self, k):
        o = self.sym_obj("SDFObjectState", "sdf%d" % k)
        o.f["_tag"] = "s%d" % k
        return o

    # ------------------------------------------------------------- worlds
    def state(self, mps, laws=(), solvers=(), forces=(), sdfs=(), time="time", step="step", dt="dt"):
        X.INTSYM.add("step")
        w = self.new("WorldState", material_points=tuple(mps), sdfs=tuple(sdfs))
        m = self.new("MechanicsState", constitutive_laws=tuple(laws), solvers=tuple(solvers), forces=tuple(forces))
        return self.new("SimState", world=w, mechanics=m, time=fscalar(time), step=scalar(X.sym(step), "i"), dt=fscalar(dt))
