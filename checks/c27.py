"""C27 exported files and live views show the simulated geometry"""
from sa import strs
from sa.values import ExtObj

from checks import viz
from .common import *

N0, Q, J = size("N0"), X.sym("#q"), X.sym("#j")
PROPS = {"velocity_stack": "vector", "stress_stack": "tensor", "mass_stack": "scalar", "position_stack": "vector"}
OS = lambda dim: [pyfloat("o%d" % k) for k in range(dim)]
ES = lambda dim: [pyfloat("e%d" % k) for k in range(dim)]
RG = {"*.volume0_stack": (0.5, 2.0), "*.mass_stack": (0.5, 2.0), "*.volume_stack": (2.5, 4.0), "sr": (0.5, 2.0), "h": (0.1, 0.5), "#N0": (30, 60), "#q": (0, 25), "#contour*": (3, 4), "#verts": (30, 40), "#faces": (30, 40), "#i*": (0, 4)}


def after(env, name, idx):
    """upper bounds above the lower bounds, whatever their sign"""
    return env.symbol("o" + name[1:], idx) + 0.5 + 3.5 * X._h(env.seed, "extent", name)


SP = {"e0": after, "e1": after, "e2": after}


def run(R):
    R.ranges = dict(RG)
    for dim in (2, 3):
        with R.group("VTK particles %dD" % dim):
            vtk_particles(R, dim)
        with R.group("VTK names %dD" % dim):
            vtk_names(R, dim)
        with R.group("VTK folders %dD" % dim):
            vtk_twice(R, dim)
        with R.group("VTK domain %dD" % dim):
            vtk_domain(R, dim)
        with R.group("VTK surface %dD" % dim):
            vtk_surface(R, dim)
        with R.group("Rerun particles %dD" % dim):
            rr_particles(R, dim)
        with R.group("Rerun domain %dD" % dim):
            rr_domain(R, dim)
        with R.group("Rerun surface %dD" % dim):
            rr_surface(R, dim)
        with R.group("Rerun time %dD" % dim):
            rr_time(R, dim)
    for first in ("spawn", "save", "serve", "none"):
        for second in ("spawn", "save", "serve", "none"):
            with R.group("Rerun %s, then %s" % (first, second)):
                rr_start(R, first, second)


def calls(S, n, last):
    """recorded library calls after the n-th whose dotted name ends with `last`"""
    return [e for e in S.it.extlog[n:] if e[0].split(".")[-1] == last]


def items(o, what):
    """values stored under point_data / field_data of a mesh"""
    out = list(o.attrs[what].items) if what in o.attrs else []
    return out + (list(o.items) if what == "point_data" else [])


def stored(R, S, n, rule, subj, o, what, name):
    """the value stored under a name; None after reporting why there is none"""
    v = [(x, loc) for k, x, loc in items(o, what) if k == name]
    if v:
        return v[-1]
    other = [e[0] for e in S.it.extlog[n:] if e[0].startswith(o.name) and not e[0].endswith(".save")]
    R.ob(rule, subj, None if other else False, "nothing is stored under %r" % name if not other else "stored through %s" % other[:2])
    return None, None


def kwarg(e, k, *names):
    for nm in names:
        if nm in e[2]:
            return e[2][nm]
    return e[1][k] if k is not None and len(e[1]) > k else None


def radius(dim, V):
    """radius of the disc / sphere with the volume of the particle"""
    return X.sqrt(X.div(V, X.PI)) if dim == 2 else X.power(X.div(X.mul(X.C(3), V), X.mul(X.C(4), X.PI)), X.div(X.ONE, X.C(3)))


def the_mesh(R, S, n, subj):
    sv = calls(S, n, "save")
    m = sv[0][3] if len(sv) == 1 else None
    if not isinstance(m, ExtObj):
        R.ob("one mesh is written", subj, False if not sv else None, "%d files written" % len(sv))
        return None, None
    return m, sv[0]


# ---------------------------------------------------------------- VTK
def vtk_particles(R, dim):
    S = R.use(Scene(dim))
    mp = S.body(0)
    names = {}
    for pn in list(PROPS) + ["no_such_property", None]:
        for label in ("a", "b"):
            subj = "%s coloured by %s" % (R.cur, pn)
            v = S.new("VTKVisualizer", output_dir="out")
            n = len(S.it.extlog)
            S.call(v, "log_particles", mp, label=label, property_name=pn, scale_radius=pyfloat("sr"), time=fscalar("vt"), step=viz.stepval("int"))
            m, sv = the_mesh(R, S, n, subj)
            if m is None:
                continue
            names[(pn, label)] = (strs.norm(sv[1][0]), sv[4])
            if label != "a":
                continue
            pts = m.args[0] if m.args else m.kw.get("var_inp", m.kw.get("points"))
            if not isinstance(pts, Arr) or len(pts.shape) != 2:
                R.ob("particles are drawn at their positions", subj, None, "points not understood")
                continue
            R.ob("points have three coordinates", subj, X.isc(X.toE(pts.shape[1])) and X.cval(X.toE(pts.shape[1])) == 3, "shape (%s, %s)" % pts.shape)
            R.eq("every particle is drawn", subj, X.toE(pts.shape[0]), N0)
            for c in range(3):
                R.eq("particles are drawn at their positions", "%s axis %d" % (subj, c), pts.at(Q, X.C(c)), X.sym("p0.position_stack", Q, X.C(c)) if c < dim else X.ZERO, loc=pts.src, key="position/%d" % c)
            rad, loc = stored(R, S, n, "particles are drawn with their size", subj, m, "point_data", "Radius")
            if rad is not None:
                R.eqa("particles are drawn with their size", subj, rows(rad), lambda q: X.mul(X.sym("sr"), radius(dim, X.sym("p0.volume0_stack", Q))), idx={0: Q}, loc=loc)
            t, loc = stored(R, S, n, "the time is stored with the particles", subj, m, "field_data", "TimeValue")
            if t is not None:
                R.eqa("the time is stored with the particles", subj, t, lambda k: X.sym("vt"), loc=loc)
            if pn in PROPS:
                val, loc = stored(R, S, n, "the requested property is stored under its name", subj, m, "point_data", pn)
                if val is None:
                    continue
                kind = PROPS[pn]
                if kind == "scalar":
                    R.eqa("the stored property is the particles' own", subj, val, lambda q: X.sym("p0." + pn, Q), idx={0: Q}, loc=loc)
                elif kind == "vector":
                    R.eqa("the stored property is the particles' own", subj, val, lambda q, j: X.sym("p0." + pn, Q, j) if X.cval(j) < dim else X.ZERO, idx={0: Q}, loc=loc)
                elif isinstance(val, Arr) and len(val.shape) == 3:
                    R.eqa("the stored property is the particles' own", subj, val, lambda q, i, j: X.sym("p0." + pn, Q, i, j), idx={0: Q}, loc=loc)
                elif isinstance(val, Arr) and len(val.shape) == 2:
                    R.eqa("the stored property is the particles' own", subj, val, lambda q, k: X.sym("p0." + pn, Q, X.C(int(X.cval(k)) // 3), X.C(int(X.cval(k)) % 3)), idx={0: Q}, loc=loc)
                else:
                    R.ob("the stored property is the particles' own", subj, None, "not an array", loc)
    for pn in list(PROPS) + [None]:
        a, b = names.get((pn, "a")), names.get((pn, "b"))
        if a and b:
            s = strs.same(a[0], b[0])
            R.ob("bodies with different labels have different files", "%s coloured by %s" % (R.cur, pn), None if s is None and differ(a[0], b[0]) is None else not s, "%s and %s" % (strs.text(a[0]), strs.text(b[0])), b[1])


def vtk_names(R, dim):
    """one file per body and step: the name does not depend on the time, and different steps have different names"""
    S = R.use(Scene(dim))
    mp = S.body(0)
    ob, os_ = probe(S)
    ways = {"particles": lambda v, st, t: S.call(v, "log_particles", mp, label="a", step=st, time=t),
            "surface": lambda v, st, t: S.call(v, "log_sdf", ob, os_, tuple(OS(dim)), tuple(ES(dim)), label="a", step=st, time=t)}
    for nm, f in ways.items():
        got = {}
        for st in (None, 0, 1, 12, 123456, 1234567, "step"):
            for t in (None, "time"):
                v = S.new("VTKVisualizer", output_dir="out")
                n = len(S.it.extlog)
                f(v, viz.stepval("int") if st == "step" else st, pyfloat("vt") if t else None)
                _, sv = the_mesh(R, S, n, "%s %s step %s" % (R.cur, nm, st))
                if sv is not None:
                    got[st, t] = strs.norm(sv[1][0]), sv[4]
        for st in (None, 0, 1, "step"):
            a, b = got.get((st, None)), got.get((st, "time"))
            if a and b:
                s = strs.same(a[0], b[0])
                R.ob("the file of a step does not depend on the time given", "%s %s step %s" % (R.cur, nm, st), s if s is not None or strs.text(a[0]) == strs.text(b[0]) else None, "%s and %s" % (strs.text(a[0]), strs.text(b[0])), b[1])
        num = [k for k in got if isinstance(k[0], int) and k[1] is None]
        for i, k in enumerate(num):
            for l in num[i + 1:]:
                a, b = got[k], got[l]
                R.ob("different steps have different files", "%s %s steps %s and %s" % (R.cur, nm, k[0], l[0]), None if strs.same(a[0], b[0]) is None else not strs.same(a[0], b[0]), "%s and %s" % (strs.text(a[0]), strs.text(b[0])), b[1])


def vtk_twice(R, dim):
    """further steps are written into the folder of the first one"""
    from sa.values import PyErr
    S = R.use(Scene(dim))
    mp = S.body(0)
    ob, os_ = probe(S)
    for nm, f in (("particles", lambda v, k: S.call(v, "log_particles", mp, label="a", step=k)), ("surface", lambda v, k: S.call(v, "log_sdf", ob, os_, tuple(OS(dim)), tuple(ES(dim)), label="a", step=k)),
                  ("domain", lambda v, k: S.call(v, "log_static_domain", tuple(OS(dim)), tuple(ES(dim)), pyfloat("h"), label="a"))):
        S.it.fsstate, S.it.fsdefault, S.it.fslisted = {}, False, True
        v = S.new("VTKVisualizer", output_dir="out")
        end = None
        for k in (1, 2):
            try:
                f(v, k)
            except PyErr as e:
                end = end or "step %d: %s %s" % (k, e.kind, e.msg if hasattr(e, "msg") else "")
        R.ob("further steps can be written into the same folder", "%s %s" % (R.cur, nm), end is None, end or "two steps written")
    S.it.fsstate, S.it.fsdefault, S.it.fslisted = None, None, False


def differ(a, b):
    """texts that differ in their literal parts only"""
    return True if strs.text(a) != strs.text(b) else None


def vtk_domain(R, dim):
    S = R.use(Scene(dim))
    v = S.new("VTKVisualizer", output_dir="out")
    n = len(S.it.extlog)
    S.call(v, "log_static_domain", tuple(OS(dim)), tuple(ES(dim)), pyfloat("h"))
    m, sv = the_mesh(R, S, n, R.cur)
    if m is None:
        return
    b = m.kw.get("bounds", m.args[0] if m.args else None)
    b = b if isinstance(b, Top) or b is None else S.it.iterate(b)
    if not isinstance(b, list) or len(b) != 6 or not m.name.endswith("Box()"):
        return R.ob("the domain box spans the domain", R.cur, None, "box not understood")
    for k in range(dim):
        R.eq("the domain box starts at the origin", "%s axis %d" % (R.cur, k), b[2 * k], X.sym("o%d" % k))
        R.eq("the domain box ends one cell beyond the last node", "%s axis %d" % (R.cur, k), b[2 * k + 1], X.add(X.sym("e%d" % k), X.sym("h")))
    if dim == 2:
        lo, hi = R.toE(b[4]), R.toE(b[5])
        ok = lo is not None and hi is not None and X.isc(lo) and X.isc(hi) and X.cval(lo) <= 0 <= X.cval(hi)
        R.ob("the flat domain lies in the plane of the particles", R.cur, ok or None, "z from %s to %s" % (lo, hi))


def probe(S):
    """obstacle whose distance names the point where it is evaluated"""
    def stack(it, a, kw):
        pts = lift(a[2] if len(a) > 2 else next(v for v in kw.values() if isinstance(v, Arr)))
        return Arr((pts.shape[0],), lambda i: X.fn("where_is", *[pts.at(i, X.C(c)) for c in range(S.dim)]), "f")

    def one(it, a, kw):
        p = lift(a[2] if len(a) > 2 else next(v for v in kw.values() if isinstance(v, Arr)))
        return Arr((), lambda: X.fn("where_is", *[p.at(X.C(c)) for c in range(S.dim)]), "f")
    o = S.raw(S.subclass("SDFObjectBase", "Located", {"get_signed_distance_stack": stack, "signed_distance": one}))
    return o, S.sym_obj("SDFObjectState", "obs")


def sampled(R, S, grid, subj, loc, resolution=100):
    """world coordinates of node (i, j, ..) of the sampled distance: origin and step per axis, None when not understood"""
    dim = S.dim
    if not isinstance(grid, Arr) or len(grid.shape) != dim:
        R.ob("the surface is extracted from distances on a lattice", subj, None, "samples not understood", loc)
        return None
    idx = [X.sym("#i%d" % k) for k in range(dim)]

    def at(*i):
        e = X.toE(grid.at(*i))
        return e.args[1:] if e.op == "f" and e.args and e.args[0] == "where_is" else find(e)

    def find(e):
        if getattr(e, "op", None) in ("fn", "f", "call", "uf") and "where_is" in [a for a in e.args if isinstance(a, str)]:
            return [a for a in e.args if isinstance(a, X.E)]
        return None
    p, z = at(*idx), at(*[X.ZERO] * dim)
    if p is None or z is None or len(p) != dim:
        R.ob("the surface is extracted from distances on a lattice", subj, None, "sample is %s" % X.show(X.toE(grid.at(*idx)), 120), loc)
        return None
    o, h = [], []
    for c in range(dim):
        u = at(*[X.ONE if k == c else X.ZERO for k in range(dim)])
        if u is None:
            return None
        o.append(z[c])
        h.append(X.sub(u[c], z[c]))
    sizes = [X.sub(X.toE(s), X.ONE) for s in grid.shape]
    for c in range(dim):
        R.eq("the distance is sampled on a lattice along the axes", "%s axis %d" % (subj, c), p[c], X.add(o[c], X.mul(idx[c], h[c])), special=SP, loc=loc, key="lattice", tol=1e-6)
        last = X.add(o[c], X.mul(sizes[c], h[c]))
        bad = None
        for seed in range(1, 61):
            env = X.Env(seed, dict(R.ranges), None, SP)
            a, b, lo, hi, st = env.symbol("o%d" % c, ()), env.symbol("e%d" % c, ()), env.ev(o[c]), env.ev(last), env.ev(h[c])
            w = max(1e-3, abs(st))
            if (lo > a + w or hi < b - 2 * w) and bad is None:
                bad = "domain from %.4g to %.4g, sampled from %.4g to %.4g" % (a, b, lo, hi)
        coarse = None
        for seed in range(1, 31):
            env = X.Env(seed, dict(R.ranges), None, SP)
            ext = max(env.symbol("e%d" % k, ()) - env.symbol("o%d" % k, ()) for k in range(dim))
            if env.ev(h[c]) > 1.25 * ext / resolution and coarse is None:
                coarse = "spacing %.4g for an extent of %.4g and resolution %d" % (env.ev(h[c]), ext, resolution)
        R.ob("the surface is sampled with the resolution asked for", "%s axis %d" % (subj, c), coarse is None, coarse or "30 sampled domains", loc, "resolution")
        R.ob("the distance is sampled over the whole domain", "%s axis %d" % (subj, c), bad is None, bad or "60 sampled domains", loc, "coverage")
    return o, h


def level(R, e, subj):
    lv = kwarg(e, 1, "level")
    if lv is None:
        return R.ob("the surface is the zero of the distance", subj, False, "no level given: half way between the extremes", e[4])
    ok = lv is not None and not isinstance(lv, Top) and X.isc(X.toE(lift(lv).at())) and X.cval(X.toE(lift(lv).at())) == 0
    R.ob("the surface is the zero of the distance", subj, ok if lv is not None else None, "level=%s" % (lv,), e[4])


def coord(o, h, c, v):
    return X.add(o[c], X.mul(v, h[c]))


def vtk_surface(R, dim):
    S = R.use(Scene(dim))
    o, s = probe(S)
    v = S.new("VTKVisualizer", output_dir="out")
    n = len(S.it.extlog)
    S.call(v, "log_sdf", o, s, tuple(OS(dim)), tuple(ES(dim)), step=viz.stepval("int"), time=pyfloat("vt"))
    ex = calls(S, n, "find_contours" if dim == 2 else "marching_cubes")
    m, sv = the_mesh(R, S, n, R.cur)
    if m is None or len(ex) != 1:
        return
    level(R, ex[0], R.cur)
    g = sampled(R, S, kwarg(ex[0], 0, "image", "volume"), R.cur, ex[0][4])
    if g is None:
        return
    pts = m.args[0] if m.args else None
    t, loc = stored(R, S, n, "the time is stored with the surface", R.cur, m, "field_data", "TimeValue")
    if t is not None:
        R.eqa("the time is stored with the surface", R.cur, t, lambda k: X.sym("vt"), loc=loc)
    if not isinstance(pts, Arr) or len(pts.shape) != 2:
        return R.ob("the surface is drawn where the distance vanishes", R.cur, None, "points not understood")
    if dim == 2:
        n0, n1 = X.sym("#contour0"), X.sym("#contour1")
        n2, n01 = X.sym("#contour2"), X.add(n0, n1)
        both = lambda c: X.where(X.lt(Q, n0), X.sym("contour0", Q, X.C(c)), X.where(X.lt(Q, n01), X.sym("contour1", X.sub(Q, n0), X.C(c)), X.sym("contour2", X.sub(Q, n01), X.C(c))))
        rg = {"#q": (0, 8)}
        for c in range(3):
            R.eq("the surface is drawn where the distance vanishes", "%s axis %d" % (R.cur, c), pts.at(Q, X.C(c)), coord(*g, c, both(c)) if c < 2 else X.ZERO, loc=pts.src, ranges=rg, special=SP, tol=1e-6)
        ln = m.kw.get("lines")
        if isinstance(ln, Arr) and len(ln.shape) == 1:
            two = X.add(n01, X.C(2))
            want = X.where(X.lt(Q, X.ONE), n0, X.where(X.le(Q, n0), X.sub(Q, X.ONE), X.where(X.le(Q, X.add(n0, X.ONE)), n1, X.where(X.lt(Q, two), X.sub(Q, X.C(2)), X.where(X.le(Q, two), n2, X.sub(Q, X.C(3)))))))
            R.eq("every contour joins its own points", R.cur, ln.at(Q), want, loc=ln.src, ranges={"#q": (0, 11)})
        else:
            R.ob("every contour joins its own points", R.cur, None, "lines not understood")
    else:
        for c in range(3):
            R.eq("the surface is drawn where the distance vanishes", "%s axis %d" % (R.cur, c), pts.at(Q, X.C(c)), coord(*g, c, X.sym("verts", Q, X.C(c))), loc=pts.src, special=SP, tol=1e-6)
        fc = m.args[1] if len(m.args) > 1 else m.kw.get("faces")
        if isinstance(fc, Arr) and len(fc.shape) == 1:
            for r in range(4):
                R.eq("every triangle joins its own corners", "%s entry %d" % (R.cur, r), fc.at(X.add(X.mul(X.C(4), Q), X.C(r))), X.C(3) if r == 0 else X.sym("#faces_", Q, X.C(r - 1)), loc=fc.src)
        else:
            R.ob("every triangle joins its own corners", R.cur, None, "faces not understood")
        nv = [x for x in items(m, "point_data") if x[0] == "normals"]
        if nv:
            normals(R, nv[-1][1], nv[-1][2])


def normals(R, val, loc):
    """normals of the surface: those of the extraction, or exactly reversed"""
    if not isinstance(val, Arr):
        return R.ob("surface normals belong to their corners", R.cur, None, "not an array", loc)
    ok = [[X.equal(X.toE(val.at(Q, X.C(c))), X.mul(X.C(sg), X.sym("vnormals", Q, X.C(c))), ranges=R.ranges) for c in range(3)] for sg in (1, -1)]
    v = True if any(all(t is True for t in r) for r in ok) else None if any(all(t is not False for t in r) for r in ok) else False
    R.ob("surface normals belong to their corners", R.cur, v, "components %s" % [X.show(X.toE(val.at(Q, X.C(c))), 60) for c in range(3)], loc)


# ---------------------------------------------------------------- live view
def logged(R, S, n, subj):
    """the one object sent to the viewer and its path"""
    lg = [e for e in S.it.extlog[n:] if e[0] == "rerun.log"]
    if len(lg) != 1 or len(lg[0][1]) < 2 or not isinstance(lg[0][1][1], ExtObj):
        R.ob("one object is shown", subj, False if not lg else None, "%d objects" % len(lg))
        return None, None
    return lg[0][1][1], lg[0]


def where(R, e, subj, root, label):
    a = strs.norm(e[1][0])
    R.ob("objects appear under their own label", subj, strs.same(a, [root + "/" + label]), "path %s" % strs.text(a), e[4])


def flip(c, v):
    """the viewer's vertical axis points down in 2D"""
    return X.neg(v) if c == 1 else v


def rr_particles(R, dim):
    S = R.use(Scene(dim))
    mp = S.body(0)
    v = S.new("RerunVisualizer", mode="none", root_path="Run7")
    for pn in list(PROPS) + ["no_such_property"]:
        for mode in ("range", "color", "auto"):
            subj = "%s %s, %s" % (R.cur, pn, mode)
            kw = {"range": dict(v_min=pyfloat("vmin"), v_max=pyfloat("vmax")), "color": dict(color=PList([pyfloat("c%d" % k) for k in range(3)])), "auto": {}}[mode]
            n = len(S.it.extlog)
            S.call(v, "log_material_points", mp, label="sand", property_name=pn, scale_radius=pyfloat("sr"), **kw)
            o, e = logged(R, S, n, subj)
            if o is None:
                continue
            where(R, e, subj, "Run7", "sand")
            pos = o.args[0] if o.args else o.kw.get("positions")
            if not isinstance(pos, Arr):
                R.ob("particles are drawn at their positions", subj, None, "positions not understood")
                continue
            R.ob("the view has the dimension of the scene", subj, o.name.endswith("Points%dD()" % dim), o.name, e[4])
            for c in range(dim):
                w = X.sym("p0.position_stack", Q, X.C(c))
                R.eq("particles are drawn at their positions", "%s axis %d" % (subj, c), pos.at(Q, X.C(c)), flip(c, w) if dim == 2 else w, loc=pos.src, key="position/%d" % c)
            rad = o.kw.get("radii")
            R.eqa("particles are drawn with their size", subj, rows(rad), lambda q: X.mul(X.sym("sr"), radius(dim, X.sym("p0.volume0_stack", Q))), idx={0: Q}) if rad is not None else R.ob("particles are drawn with their size", subj, False, "no radii", e[4])
            col = o.kw.get("colors")
            if mode == "color":
                R.eqa("particles have the colour asked for", subj, col, lambda q, j: X.sym("c%d" % int(X.cval(j))), idx={0: Q}) if isinstance(col, Arr) else R.ob("particles have the colour asked for", subj, None, "colours not understood")
            elif pn in PROPS:
                cm = [q for q in S.it.extlog[n:] if q[0].startswith("?matplotlib") and q[1]]
                if len(cm) != 1 or not isinstance(cm[0][1][0], Arr):
                    R.ob("colours show the property", subj, None, "%d colour lookups" % len(cm))
                    continue
                f = norm_of(pn, dim)
                if mode == "range":
                    lo, hi = X.sym("vmin"), X.sym("vmax")
                else:
                    b = X.fresh_bv(N0)
                    fb = X.subst(f, {Q: b}) if hasattr(X, "subst") else None
                    lo, hi = X.amax("min", b, fb), X.amax("max", b, fb)
                R.eqa("colours show the property", subj, rows(cm[0][1][0]), lambda q: X.div(X.sub(f, lo), X.sub(hi, lo)), idx={0: Q}, ranges={"vmin": (-1, 0), "vmax": (3, 5)}, loc=cm[0][4], tol=1e-6)


def rows(v):
    """one value for all particles counts as that value for each"""
    v = v if isinstance(v, (Arr, Top)) else lift(v)
    return Arr((N0,), lambda q: v.at(), v.dt) if isinstance(v, Arr) and not v.shape else v


def norm_of(pn, dim):
    s = lambda *i: X.sym("p0." + pn, Q, *[X.C(k) for k in i])
    if PROPS[pn] == "scalar":
        return s()
    t = [s(i) for i in range(dim)] if PROPS[pn] == "vector" else [s(i, j) for i in range(3) for j in range(3)]
    return X.sqrt(X.add(*[X.mul(a, a) for a in t]))


def rr_domain(R, dim):
    S = R.use(Scene(dim))
    v = S.new("RerunVisualizer", mode="none", root_path="Run7")
    n = len(S.it.extlog)
    S.call(v, "log_static_domain", tuple(OS(dim)), tuple(ES(dim)), pyfloat("h"), label="box")
    o, e = logged(R, S, n, R.cur)
    if o is None:
        return
    where(R, e, R.cur, "Run7", "box")
    one = lambda k: (lambda a: lift(S.it.iterate(a)[0]) if a is not None and not isinstance(a, Top) else None)(o.kw.get(k))
    mins, sizes, half, cen = one("mins"), one("sizes"), one("half_sizes"), one("centers")
    for c in range(dim):
        k = X.C(c)
        if mins is not None and (sizes is not None or half is not None):
            a, w = mins.at(k), sizes.at(k) if sizes is not None else X.mul(X.C(2), half.at(k))
        elif cen is not None and (sizes is not None or half is not None):
            w = sizes.at(k) if sizes is not None else X.mul(X.C(2), half.at(k))
            a = X.sub(cen.at(k), X.div(w, X.C(2)))
        else:
            return R.ob("the domain box spans the domain", R.cur, None, "box not understood")
        lo, hi = X.min_(a, X.add(a, w)), X.max_(a, X.add(a, w))
        x0, x1 = X.sym("o%d" % c), X.add(X.sym("e%d" % c), X.sym("h"))
        if dim == 2 and c == 1:
            x0, x1 = X.neg(x1), X.neg(x0)
        R.eq("the domain box starts at the origin", "%s axis %d" % (R.cur, c), lo, x0, special=SP)
        R.eq("the domain box ends one cell beyond the last node", "%s axis %d" % (R.cur, c), hi, x1, special=SP)
    R.ob("the domain is shown at all times", R.cur, native(e[2].get("static", False)) is True, "static=%s" % e[2].get("static"), e[4])


def rr_surface(R, dim):
    for static in (False, True):
        S = R.use(Scene(dim))
        ob, s = probe(S)
        v = S.new("RerunVisualizer", mode="none", root_path="Run7")
        n = len(S.it.extlog)
        res = 50 if static else 100
        S.call(v, "log_sdf", ob, s, start=tuple(OS(dim)), end=tuple(ES(dim)), static=static, label="wall", **({"resolution": res} if static else {}))
        ex = calls(S, n, "find_contours" if dim == 2 else "marching_cubes")
        o, e = logged(R, S, n, R.cur)
        if o is None or len(ex) != 1:
            continue
        where(R, e, R.cur, "Run7", "wall")
        R.ob("a moving surface is shown at its own time", R.cur, native(e[2].get("static", False)) is static, "static=%s for %s" % (e[2].get("static"), static), e[4])
        level(R, ex[0], R.cur)
        g = sampled(R, S, kwarg(ex[0], 0, "image", "volume"), R.cur, ex[0][4], res)
        if g is None:
            continue
        if dim == 2:
            st = o.args[0] if o.args else o.kw.get("strips")
            st = S.it.iterate(st) if isinstance(st, (PList, tuple)) else None
            if st is None or len(st) != 3 or not all(isinstance(t, Arr) for t in st):
                R.ob("the surface is drawn where the distance vanishes", R.cur, None if st is None or len(st) == 3 else False, "strips not understood" if st is None else "%d strips for 3 contours" % len(st))
                continue
            for k, t in enumerate(st):
                for c in range(2):
                    R.eq("the surface is drawn where the distance vanishes", "%s contour %d axis %d" % (R.cur, k, c), t.at(Q, X.C(c)), flip(c, coord(*g, c, X.sym("contour%d" % k, Q, X.C(c)))), loc=t.src, ranges={"#q": (0, 2)}, special=SP, tol=1e-6)
        else:
            pts = o.kw.get("vertex_positions")
            for c in range(3):
                R.eq("the surface is drawn where the distance vanishes", "%s axis %d" % (R.cur, c), pts.at(Q, X.C(c)) if isinstance(pts, Arr) else Top("positions"), coord(*g, c, X.sym("verts", Q, X.C(c))), loc=e[4], special=SP, tol=1e-6)
            if o.kw.get("vertex_normals") is not None:
                normals(R, o.kw["vertex_normals"], e[4])
            R.eqa("every triangle joins its own corners", R.cur, o.kw.get("triangle_indices"), lambda q, j: X.sym("#faces_", Q, j), idx={0: Q}, loc=e[4])


def rr_start(R, *modes):
    """the viewer asked for is opened, once; every visualiser has a recording of its own unless told otherwise"""
    S = R.use(Scene(2))
    STARTS = ("spawn", "save", "serve")
    opened = False
    for k, mode in enumerate(modes):
        n = len(S.it.extlog)
        S.new("RerunVisualizer", mode=mode, app_name="App%d" % k, **({} if k else {"recording_id": "rec"}))
        log = [e for e in S.it.extlog[n:] if e[0].startswith("rerun.")]
        started = [st for st in STARTS if any(e[0].split(".")[-1].startswith(st) for e in log)]
        want = [mode] if mode == "save" or (mode != "none" and not opened) else []
        opened = opened or mode in ("spawn", "serve")
        other = [e[0] for e in log if e[0].split(".")[-1] not in ("init", "log", "send_blueprint") and not e[0].split(".")[-1].startswith(STARTS)]
        subj = "%s %s visualiser" % (R.cur, ("first", "second")[k])
        R.ob("the viewer asked for is opened once", subj, None if started != want and other else started == want, "started %s, required %s" % (started, want), log[-1][4] if log else None)
        ini = [e for e in log if e[0] == "rerun.init"]
        if len(ini) != 1:
            R.ob("the recording is opened under its name", subj, None, "%d init calls" % len(ini))
            continue
        app, rid = kwarg(ini[0], 0, "application_id"), ini[0][2].get("recording_id")
        R.ob("the recording is opened under its name", subj, app == "App%d" % k if isinstance(app, str) else None, "application %s" % (app,), ini[0][4])
        if k == 0:
            R.ob("the recording asked for is used", subj, None if isinstance(rid, Top) else rid is not None and strs.text(strs.norm(rid)) == "rec", "recording %s" % (rid,), ini[0][4])


def rr_time(R, dim):
    S = R.use(Scene(dim))
    v = S.new("RerunVisualizer", mode="none")
    n = len(S.it.extlog)
    S.call(v, "log_time", viz.stepval("int"), pyfloat("vt"))
    for nm, want in (("step", X.sym("#vstep")), ("sim_time", X.sym("vt"))):
        es = [e for e in S.it.extlog[n:] if e[0].startswith("rerun.set_time") and e[1] and e[1][0] == nm]
        if len(es) != 1:
            R.ob("the view's clock follows the simulation", "%s %s" % (R.cur, nm), False if not es and not any("time" in e[0] for e in S.it.extlog[n:]) else None, "%d calls" % len(es))
            continue
        vals = list(es[0][1][1:]) + list(es[0][2].values())
        if not vals:
            R.ob("the view's clock follows the simulation", "%s %s" % (R.cur, nm), False, "no value given", es[0][4])
            continue
        R.eq("the view's clock follows the simulation", "%s %s" % (R.cur, nm), vals[0] if len(vals) == 1 else Top("time value"), want, loc=es[0][4])
