"""C01 every body is advanced with its own state, law, grid and solver memory"""
import re

from .common import *

# name, couplings (body p, grid g, law c, memory s), rigid bodies, extra bodies/laws/memories nobody is coupled to
TOPOLOGIES = [
    ("one body", [Body(0, 0, 0, 0)], (), {}),
    ("two bodies, one grid", [Body(0, 0, 0, 0), Body(1, 0, 1, 1)], (), {}),
    ("two bodies, two grids, crossed indices", [Body(1, 0, 2, 0), Body(0, 1, 1, 2)], (), dict(nlaw=3, nmem=3)),
    ("coupled in reverse order", [Body(2, 1, 0, 1), Body(0, 0, 1, 0)], (), dict(nbody=3)),
    ("rigid body first", [Body(0, 0, 0, 0, skip=True), Body(1, 0, 0, 1), Body(2, 1, 1, 2)], (0,), dict(nmem=3)),
    ("rigid body last, shared law", [Body(1, 0, 0, 1), Body(0, 0, 0, 0), Body(2, 0, 0, 2, skip=True)], (2,), dict(nlaw=2, nmem=3)),
]


def allowed(bodies, b, scheme):
    """symbol name patterns that may influence body b"""
    pats = [r"p%d\." % b.p, r"g%d\." % b.g, r"mem%d\." % b.s, r"alpha$", r"dt$", r"#"]
    for o in bodies:
        if o.g == b.g and not o.skip:
            pats += [r"p%d\." % o.p, r"i%d%d\." % (o.p, o.g), r"mem%d\." % o.s]
    return re.compile("|".join("(?:%s)" % p for p in pats))


def run(R):
    R.ranges = RANGES
    for scheme in SCHEMES:
        variants = [("", {})]
        if scheme == "USLAFLIP":
            variants.append((" static blend", dict(use_dynamic_alpha=False)))
        for vname, params in variants:
            for dim in ((3, 2) if R.tier == "thorough" else (3,)):
                for tname, bodies, rigid, extra in TOPOLOGIES:
                    if vname and tname not in ("two bodies, two grids, crossed indices",):
                        continue
                    with R.group("%s%s: %s (%dD)" % (scheme, vname, tname, dim)):
                        one(R, scheme, params, dim, bodies, rigid, extra)
    with R.group("builder scenes"):
        builder(R)


def one(R, scheme, params, dim, bodies, rigid, extra):
    S = R.use(Scene(dim))
    F = S.probe_force(0, [])
    st = make(S, scheme, bodies, rigid=rigid, forces=(F,), params=params, **extra)
    run_(R, S, st, bodies, "%s: %s" % (R.cur, ""))


def run_(R, S, st, bodies, where):
    subj = R.cur
    run = st.out = S.it.call(st.solver, [st.state], {})
    outs = S.get(run, "world", "material_points")
    laws = S.get(run, "mechanics", "constitutive_laws")
    mem = S.get(run, "mechanics", "solvers")
    if not all(isinstance(x, tuple) for x in (outs, laws, mem)):
        outs, laws, mem = (tuple(S.it.iterate(x)) for x in (outs, laws, mem))
    R.ob("arity", subj, len(outs) == len(st.mps) and len(laws) == len(st.law_states) and len(mem) == len(st.mem),
         "%d bodies, %d laws, %d memories" % (len(outs), len(laws), len(mem)))
    active = {b.p for b in bodies if not b.skip}
    # bodies nobody moves
    for p, m in enumerate(st.mps):
        if p not in active:
            unchanged(R, "untouched body", "%s body %d" % (subj, p), outs[p], m)
    used_c = {b.c for b in bodies if not b.skip}
    for c, l in enumerate(st.law_states):
        if c not in used_c:
            unchanged(R, "untouched law state", "%s law %d" % (subj, c), laws[c], l)
    used_s = {b.s for b in bodies if not b.skip}
    for k, l in enumerate(st.mem):
        if k not in used_s:
            unchanged(R, "untouched solver memory", "%s memory %d" % (subj, k), mem[k], l)
    unchanged(R, "untouched force states", subj, S.get(run, "mechanics", "forces"), st.force_states)
    # law routing
    calls = [e for e in st.log if e[0] == "law"]
    want = [b for b in bodies if not b.skip]
    R.ob("one law call per body", subj, len(calls) == len(want), "%d law updates for %d deformable couplings" % (len(calls), len(want)), calls[0][5] if calls else None)
    left = list(calls)
    for b in want:
        mine = None
        for e in left:
            mp = e[2]
            m = st.mps[b.p].f["mass_stack"]
            if isinstance(mp, Obj) and same(mp.f["mass_stack"], m):
                mine = e
                break
        if mine is None:
            R.ob("law gets the body", "%s body %d" % (subj, b.p), False, "no material update receives body %d" % b.p, calls[0][5] if calls else None)
            continue
        left.remove(mine)
        R.ob("law of the coupling", "%s body %d" % (subj, b.p), mine[1] == b.c, "law %s is used, coupling names law %d" % (mine[1], b.c), mine[5])
        shared = sum(1 for q in want if q.c == b.c)
        if shared == 1:
            unchanged(R, "history of the coupling", "%s body %d" % (subj, b.p), mine[3], st.law_states[b.c])
            hs = laws[b.c].f.get("history_stack") if isinstance(laws[b.c], Obj) else None
            if hs is not None:
                R.eqa("history stored under the coupling's law", "%s body %d" % (subj, b.p), hs, lambda i, c=b.c: X.sym("law%d.history_stack'" % c, i))
        o = outs[b.p]
        if isinstance(o, Obj) and "stress_stack" in o.f:
            R.eqa("stress stored in the body", "%s body %d" % (subj, b.p), o.f["stress_stack"], lambda i, j, k, c=mine[1]: X.sym("law%d.stress" % c, i, j, k))
        # independence from everything the coupling does not name
        pat = allowed(bodies, b, None)
        for f in ("position_stack", "velocity_stack", "L_stack", "F_stack", "volume_stack", "mass_stack"):
            if f not in o.f:
                continue
            bad = None
            for e in __import__("sa.report", fromlist=["comps"]).comps(o.f[f]):
                if e is None:
                    bad = bad or "undecided"
                    continue
                foreign = {s for s in X.syms(e) if not pat.match(s)}
                if foreign and X.depends(e, lambda s: s in foreign, ranges=RANGES):
                    bad = sorted(foreign)
                    break
            R.ob("depends only on its own data", "%s body %d %s" % (subj, b.p, f), None if bad == "undecided" else not bad,
                 "depends on %s" % (bad,) if bad else "only own body, grid, memory and bodies on the same grid", o.f[f].src if isinstance(o.f[f], Arr) else None)
        m = mem[b.s]
        if isinstance(m, Obj) and any(isinstance(v, Arr) for v in m.f.values()):
            mpat = re.compile(allowed(bodies, b, None).pattern)
            for k, v in m.f.items():
                if not isinstance(v, Arr):
                    continue
                R.ob("memory advanced", "%s body %d %s" % (subj, b.p, k), same(v, st.mem[b.s].f[k]) is False or None if same(v, st.mem[b.s].f[k]) is None else same(v, st.mem[b.s].f[k]) is False,
                     "solver memory %d of body %d is written" % (b.s, b.p), v.src)
                deps = set()
                for e in __import__("sa.report", fromlist=["comps"]).comps(v):
                    if e is not None:
                        deps |= {s for s in X.syms(e) if not mpat.match(s)}
                R.ob("memory depends only on its own body", "%s body %d %s" % (subj, b.p, k), not deps, "depends on %s" % sorted(deps), v.src)
                # grid quantities are gathered with the stencil of this very body
                own = set()
                for e in __import__("sa.report", fromlist=["comps"]).comps(v):
                    if e is not None:
                        own |= X.syms(e)
                R.ob("memory gathered with the body's own stencil", "%s body %d %s" % (subj, b.p, k), any(s.startswith("i%d%d." % (b.p, b.g)) for s in own), "", v.src)


def builder(R):
    """the same routing for scenes assembled by the scene builder in several registration orders"""
    for scheme, cls in (("usl", "USLSolver"), ("usl_aflip", "USLAFLIP")):
        for name, order, blist in (("laws registered in coupling order", [(0, 0, 0), (1, 0, 1)], None),
                                   ("crossed bodies, grids and laws", [(1, 0, 1), (0, 1, 0)], None),
                                   ("one body on the second grid with the second law", [(0, 1, 1)], None),
                                   ("two bodies share a law", [(0, 0, 1), (1, 1, 1)], None),
                                   ("rigid body first", [(2, 0, None), (1, 1, 1), (0, 0, 0)], None),
                                   ("solver for the second body only", [(1, 0, 1), (0, 1, 0)], [1])):
            with R.group("builder %s: %s" % (scheme, name)):
                S = R.use(Scene(3))
                log = []
                B = S.new("SimBuilder")
                for g in range(2):
                    S.call(B, "add_grid", origin=tuple(pyfloat("g%d.origin%d" % (g, i)) for i in range(3)),
                           end=tuple(pyfloat("g%d.end%d" % (g, i)) for i in range(3)), cell_size=pyfloat("g%d.h" % g))
                for p in range(3):
                    pos = sym_arr("p%d.position_stack" % p, (size("N%d" % p), 3))
                    if p == 2:
                        S.call(B, "add_material_points", position_stack=pos, is_rigid=True)
                    else:
                        kw = {k: sym_arr("p%d.%s" % (p, k), (size("N%d" % p),)) for k in ("mass_stack", "volume_stack")}
                        S.call(B, "add_material_points", position_stack=pos, **kw)
                for c in range(2):
                    S.call(B, "add_constitutive_law", law=S.probe_law(c, log), law_state=S.law_state(c))
                kk = []
                for p, g, c in order:
                    kw = dict(p_idx=p, g_idx=g)
                    if c is not None:
                        kw["c_idx"] = c
                    kk.append(native(S.call(B, "couple", **kw)))
                kw = {} if blist is None else {"b_idx_list": PList(blist)}
                S.call(B, "set_solver", scheme=scheme, alpha=pyfloat("alpha"), **kw)
                sol, state = S.it.iterate(S.call(B, "build"))
                sel = [k for k in range(len(order)) if blist is None or k in blist]
                cs = S.it.iterate(S.get(sol, "couplings"))
                bodies = []
                for c, k in zip(cs, sel):
                    p, g, l = order[k]
                    probe = S.coupling(p, g, 0, 0, log=log)
                    c.f["shape_map"] = probe.f["shape_map"]
                    bodies.append((p, g, l))
                out = S.it.call(sol, [state], {})
                subj = R.cur
                calls = [e for e in log if e[0] == "law"]
                want = [b for b in bodies if b[2] is not None]
                R.ob("one law call per body", subj, len(calls) == len(want), "%d law updates for %d deformable bodies" % (len(calls), len(want)))
                mps = S.get(state, "world", "material_points")
                mem0 = S.it.iterate(S.get(state, "mechanics", "solvers"))
                mem1 = S.it.iterate(S.get(out, "mechanics", "solvers"))
                ls = S.it.iterate(S.get(state, "mechanics", "constitutive_laws"))
                comps_ = [e for e in log if e[0] == "compute"]
                for p, g, l in want:
                    mine = [e for e in calls if isinstance(e[2], Obj) and same(e[2].f["mass_stack"], mps[p].f["mass_stack"])]
                    R.ob("law gets the body", "%s body %d" % (subj, p), len(mine) == 1, "%d material updates receive body %d" % (len(mine), p))
                    if len(mine) == 1:
                        R.ob("law of the coupling", "%s body %d" % (subj, p), mine[0][1] == l, "law %s used where law %d was registered" % (mine[0][1], l), mine[0][5])
                        if sum(1 for q in want if q[2] == l) == 1:
                            unchanged(R, "history of the coupling", "%s body %d" % (subj, p), mine[0][3], ls[l])
                    # the stencil is computed on the coupled grid
                    mc = [e for e in comps_ if e[1] == p and e[2] == g]
                    R.ob("one stencil per body", "%s body %d" % (subj, p), len(mc) == 1, "%d stencil computations" % len(mc))
                    if mc:
                        o = mc[0][5].get("origin", mc[0][4][0] if mc[0][4] else None)
                        if o is not None:
                            R.depends("stencil on the coupled grid", "%s body %d grid %d" % (subj, p, g), o, lambda s, g=g: s.startswith("g%d." % g), mc[0][6],
                                      "stencil of body %d is computed on another grid than %d" % (p, g))
                # memories: exactly one per deformable coupling in this solver changes, and it is sized for its body
                for k, (p, g, l) in zip(sel, bodies):
                    s_idx = native(S.get(cs[sel.index(k)], "s_idx"))
                    if l is None:
                        R.ob("rigid bodies need no memory", "%s body %d" % (subj, p), s_idx is None, "s_idx=%s" % s_idx)
                        continue
                    ok = isinstance(s_idx, int) and s_idx < len(mem0) and isinstance(mem0[s_idx], Obj)
                    R.ob("memory exists for the body", "%s body %d" % (subj, p), ok, "coupling names memory %s of %d" % (s_idx, len(mem0)))
                    if ok:
                        for f, v in mem0[s_idx].f.items():
                            if isinstance(v, Arr) and v.shape:
                                R.ob("memory sized for the body", "%s body %d %s" % (subj, p, f), dimE(v.shape[0]) is size("N%d" % p), "memory has %s rows" % (v.shape[0],), v.src)
