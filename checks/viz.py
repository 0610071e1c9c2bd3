"""Observers: recorder and visualisers called on symbolic states."""
from sa import expr as X
from sa.scene import Scene, fscalar, pyfloat
from sa.values import Arr, Bound, Ext, Obj, PDict, PList, Unknown, lift, scalar, sym_arr

PROPS = ("velocity_stack", "stress_stack", "mass_stack", "position_stack", "no_such_property", None)


def stepval(kind):
    return {"none": None, "int": scalar(X.sym("#vstep"), "i", "int"), "array": scalar(X.sym("#vstep"), "i")}[kind]


def vtk_cases(S):
    """(name, thunk) for every public use of the VTK visualiser"""
    dim = S.dim
    mp = S.body(0)

    def vis(**kw):
        return S.new("VTKVisualizer", **kw)
    for pn in PROPS:
        yield "particles %s" % pn, mp, lambda v, st, pn=pn: S.call(v, "log_particles", mp, property_name=pn, step=stepval(st))
    yield "particles with time", mp, lambda v, st: S.call(v, "log_particles", mp, label="sand", scale_radius=pyfloat("sr"), time=fscalar("vt"), step=stepval(st))
    yield "domain", None, lambda v, st: S.call(v, "log_static_domain", tuple(pyfloat("o%d" % k) for k in range(dim)), tuple(pyfloat("e%d" % k) for k in range(dim)), pyfloat("h"))
    o, s = shape(S)
    yield "surface", s, lambda v, st: S.call(v, "log_sdf", o, s, [pyfloat("o%d" % k) for k in range(dim)] and tuple(pyfloat("o%d" % k) for k in range(dim)), tuple(pyfloat("e%d" % k) for k in range(dim)), step=stepval(st), time=pyfloat("vt"))


def rerun_cases(S):
    dim = S.dim
    mp = S.body(0)
    v = S.new("RerunVisualizer", mode="none")
    for pn in PROPS[:-1]:
        yield "particles %s" % pn, mp, lambda pn=pn: S.call(v, "log_material_points", mp, property_name=pn)
    yield "particles coloured", mp, lambda: S.call(v, "log_material_points", mp, color=PList([pyfloat("r"), pyfloat("g"), pyfloat("b")]), v_min=pyfloat("vmin"), v_max=pyfloat("vmax"))
    yield "particles range", mp, lambda: S.call(v, "log_material_points", mp, v_min=pyfloat("vmin"), v_max=pyfloat("vmax"), scale_radius=pyfloat("sr"), label="a")
    t = lambda n: tuple(pyfloat("%s%d" % (n, k)) for k in range(dim))
    yield "domain", None, lambda: S.call(v, "log_static_domain", t("o"), t("e"), pyfloat("h"))
    o, s = shape(S)
    yield "surface", s, lambda: S.call(v, "log_sdf", o, s, start=t("o"), end=t("e"))
    yield "static surface", s, lambda: S.call(v, "log_sdf", o, s, start=t("o"), end=t("e"), static=True, resolution=50)
    yield "time", None, lambda: S.call(v, "log_time", stepval("int"), pyfloat("vt"))
    for m in ("spawn", "serve", "save", "none"):
        for d3 in (False, True):
            yield "visualizer %s 3d=%s" % (m, d3), None, lambda m=m, d3=d3: S.new("RerunVisualizer", mode=m, is_3d=d3, recording_id="id")


def shape(S):
    o = S.new("SphereSDF", radius=pyfloat("radius"))
    s = S.sym_obj("SDFObjectState", "obs")
    return o, s
