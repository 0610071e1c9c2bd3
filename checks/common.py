"""Scenes shared by the solver checks."""
from sa import expr as X
from sa.scene import Scene, size, fscalar, pyfloat
from sa.values import (Arr, Obj, PDict, PList, PyErr, Top, Unknown, lift, native, scalar, sym_arr, dimE, tree_map)

P = X.sym("#p")
NN = X.sym("#n")
SCHEMES = ("USLSolver", "USLAFLIP")
RANGES = {"alpha": (0.05, 0.95), "dt": (0.05, 0.5), "*.h": (0.3, 1.5), "*.mass_stack": (0.5, 2.0), "*.volume_stack": (0.5, 2.0),
          "*.volume0_stack": (0.5, 2.0), "*.N": (0.1, 1.0)}


class Body:
    """one coupling: body p on grid g with law c and solver memory s"""

    def __init__(self, p, g=0, c=0, s=0, skip=False, kernel=None):
        self.p, self.g, self.c, self.s, self.skip, self.kernel = p, g, c, s, skip, kernel


class Step:
    pass


def solver_params(scheme, kw):
    return kw


def make(S, scheme, bodies, nbody=None, ngrid=None, nlaw=None, nmem=None, log=None, forces=(), sdfs=0, rigid=(), mask="one",
         params=None, store_F=False, reset=False, kernel="cubic", via="class"):
    """assemble a solver and a symbolic state for a list of couplings"""
    st = Step()
    st.log = log if log is not None else []
    log = st.log
    nbody = nbody or 1 + max([b.p for b in bodies] + list(rigid))
    ngrid = ngrid or 1 + max(b.g for b in bodies)
    nlaw = nlaw or 1 + max([b.c for b in bodies if not b.skip] + [0])
    nmem = nmem or 1 + max([b.s for b in bodies if not b.skip] + [0])
    st.rigid = set(rigid) | {b.p for b in bodies if b.skip}
    st.mps = [S.rigid(p) if p in st.rigid else S.body(p, store_F=store_F) for p in range(nbody)]
    st.domains = tuple(S.domain(g) for g in range(ngrid))
    st.laws = tuple(S.probe_law(c, log, reset=reset) for c in range(nlaw))
    st.law_states = tuple(S.law_state(c) for c in range(nlaw))
    st.couplings = tuple(S.coupling(b.p, b.g, b.c, b.s, b.skip, mask=mask, log=log, kernel=b.kernel or kernel) for b in bodies)
    st.forces = tuple(forces)
    st.sdfs = tuple(S.probe_sdf(k, log) for k in range(sdfs))
    st.sdf_states = tuple(S.sdf_state(k) for k in range(sdfs))
    kw = dict(grid_domains=st.domains, constitutive_laws=st.laws, couplings=st.couplings, forces=st.forces, sdf_logics=st.sdfs,
              alpha=pyfloat("alpha"))
    kw.update(params or {})
    st.solver = S.new(scheme, **kw) if via == "class" else built(S, st, scheme, bodies, kw)
    deform = [m for p, m in enumerate(st.mps) if p not in st.rigid]
    st.mem = []
    for k in range(nmem):
        owner = next((b for b in bodies if b.s == k and not b.skip), None)
        n = size("N%d" % owner.p) if owner is not None else size("NM%d" % k)
        ini = S.call(st.solver, "create_state", deform[0])
        st.mem.append(S.sym_obj(ini.cls, "mem%d" % k, {"num_points": n}) if isinstance(ini, Obj) else ini)
    st.force_states = tuple(S.raw(S.subclass("BaseForceState", "ProbeForceState", {}, {"gain": None}), gain=fscalar("fstate%d" % k)) for k in range(len(st.forces)))
    st.state = S.state(st.mps, laws=st.law_states, solvers=st.mem, forces=st.force_states, sdfs=st.sdf_states)
    return st


def built(S, st, scheme, bodies, kw):
    """the same solver configured through the scene builder (its couplings, forces and obstacles replaced by the probes)"""
    B = S.new("SimBuilder")
    for d in st.domains:
        S.call(B, "add_grid", grid_domain=d)
    for p, m in enumerate(st.mps):
        n, dim = lift(m.f["position_stack"]).shape
        k = {"is_rigid": True} if p in st.rigid else {"mass_stack": sym_arr("bm%d" % p, (n,)), "volume_stack": sym_arr("bv%d" % p, (n,))}
        S.call(B, "add_material_points", position_stack=sym_arr("bx%d" % p, (n, dim)), **k)
    for l, s in zip(st.laws, st.law_states):
        S.call(B, "add_constitutive_law", law=l, law_state=s)
    for b in bodies:
        S.call(B, "couple", p_idx=b.p, g_idx=b.g, **({} if b.skip else {"c_idx": b.c}))
    own = {k: v for k, v in kw.items() if k not in ("grid_domains", "constitutive_laws", "couplings", "forces", "sdf_logics")}
    S.call(B, "set_solver", scheme={"USLSolver": "usl", "USLAFLIP": "usl_aflip"}[scheme], **own)
    solver = S.it.iterate(S.call(B, "build"))[0]
    return obj_with(solver, couplings=kw["couplings"], forces=kw["forces"], sdf_logics=kw["sdf_logics"])


def run(S, st):
    st.out = S.it.call(st.solver, [st.state], {})
    return st


def mp_out(S, st, p):
    return S.get(st.out, "world", "material_points", p)


def hook(st, name, k=None):
    return [e for e in st.log if e[0] == "hook" and e[2] == name and (k is None or e[1] == k)]


def same(a, b):
    """identical abstract values"""
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls is b.cls and set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
        x = a if isinstance(a, tuple) else a.items
        y = b if isinstance(b, tuple) else b.items
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(a, PDict) and isinstance(b, PDict):
        return set(a.d) == set(b.d) and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if a is None or b is None or isinstance(a, (str, Obj)) or isinstance(b, (str, Obj)):
        return type(a) is type(b) and a == b if not isinstance(a, Obj) and not isinstance(b, Obj) else False
    try:
        x, y = lift(a), lift(b)
    except Exception:
        return a == b
    if isinstance(x, Top) or isinstance(y, Top):
        return None
    if not (isinstance(x, Arr) and isinstance(y, Arr)):
        return x is y or x == y
    if len(x.shape) != len(y.shape):
        return False
    from sa.report import indices
    res = True
    for i in indices(x.shape):
        v = X.equal(x.at(*i), y.at(*i), ranges=RANGES, trials=8)
        if v is False:
            return False
        if v is None:
            res = None
    return res


def diffloc(a, b):
    """location of the first array leaf of a that differs from b"""
    if isinstance(a, Obj) and isinstance(b, Obj):
        for k in a.f:
            if k in b.f and same(a.f[k], b.f[k]) is not True:
                return diffloc(a.f[k], b.f[k]) or a.src
        return a.src
    if isinstance(a, Arr):
        return a.src
    return None


def diffname(a, b):
    if isinstance(a, Obj) and isinstance(b, Obj):
        for k in sorted(set(a.f) | set(b.f)):
            if k not in a.f or k not in b.f:
                return k
            if same(a.f[k], b.f[k]) is not True:
                r = diffname(a.f[k], b.f[k])
                return k + ("." + r if r else "")
        return ""
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
        x = a if isinstance(a, tuple) else a.items
        y = b if isinstance(b, tuple) else b.items
        if len(x) != len(y):
            return "length %d vs %d" % (len(x), len(y))
        for k, (p, q) in enumerate(zip(x, y)):
            if same(p, q) is not True:
                r = diffname(p, q)
                return "[%d]%s" % (k, "." + r if r else "")
    return ""


def unchanged(R, rule, subject, got, want, key=None):
    v = same(got, want)
    return R.ob(rule, subject, v, "unchanged" if v else "changed in: %s" % diffname(got, want), diffloc(got, want), key)


# ---------------------------------------------------------------- reference expressions
def scat(p, g, body, n, W=None):
    """sum over particle q of body p and its stencil slot w, with node(q,w) = n, of body(q, w)"""
    W = size("W%d" % p) if W is None else W
    q, w = X.fresh_bv(size("N%d" % p)), X.fresh_bv(W)
    node = X.sym("#i%d%d.node" % (p, g), q, w)
    return X.ssum(w, X.fn("range", W), X.ssum(q, X.fn("hit", node, n), body(q, w)))


def gath(p, body, W=None):
    """sum over the stencil of one particle"""
    W = size("W%d" % p) if W is None else W
    w = X.fresh_bv(W)
    return X.ssum(w, X.fn("range", W), body(w))


def obj_with(o, **f):
    n = Obj(o.cls)
    n.f = dict(o.f)
    n.f.update(f)
    n.frozen = o.frozen
    return n


def with_grids(cache, grids):
    old = cache.f["grids"]
    return obj_with(cache, grids=PList(list(grids)) if isinstance(old, PList) else tuple(grids))


def grids_of(S, cache):
    return S.it.iterate(S.get(cache, "grids"))
