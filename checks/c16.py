"""C16: saved simulations load back exactly, and only the output directory is touched."""
from sa import expr as X
from sa import strs
from sa.scene import Scene, fscalar
from sa.values import Arr, Obj, PDict, Unknown, lift, scalar

STEP = "save.step"
DIRS = [("relative", "out", None, ["out"]), ("nested", "results/run1", None, ["results/run1"]), ("absolute", "/data/out", None, ["/data/out"]),
        ("beside the script", "out", "/work/scripts/run.py", ["/work/scripts/out"]), ("absolute beside the script", "/data/out", "/work/run.py", ["/data/out"])]
OLD = ["state_00003.eqx", "state_100000.eqx", "solver_config.eqx", "metadata.json", "notes.txt", "frames/old.vtp"]
WRITES = {"fs:write", "fs:mkdir"}
HARM = {"fs:delete", "fs:move", "fs:other"}


def since(S, n):
    return [e for e in S.it.effects[n:] if e[0].startswith("fs:")]


def state(S, step):
    w = S.new("WorldState", material_points=(S.body(0),))
    m = S.new("MechanicsState")
    return S.new("SimState", world=w, mechanics=m, time=fscalar("t"), step=step, dt=fscalar("dt"))


def cmp(R, rule, subj, got, want, loc, msg, key=None):
    v = strs.same(got, want) if got is not None else None
    return R.ob(rule, subj, v, "%s: %s%s" % (msg, strs.text(got) if got is not None else "unknown", "" if v else ", required %s" % strs.text(want)), loc, key)


def within(R, rule, subj, path, base, loc, key=None):
    v = strs.inside(path, base) if path is not None else None
    return R.ob(rule, subj, v, "%s inside %s" % (strs.text(path) if path is not None else "unknown", strs.text(base)), loc, key)


def injective(atoms, sym):
    """distinct values of the integer symbol give distinct strings: True / False (with two values) / None"""
    if any(isinstance(a, (strs.Op, strs.Blob)) for a in atoms):
        return None, ""
    seen = {}
    vals = list(range(0, 400)) + [k * m for m in (100, 250, 1000, 4096, 10000, 99999, 100000, 1000000) for k in range(1, 12)] + [10 ** k + j for k in range(3, 9) for j in (0, 1, 2)]
    for v in sorted(set(vals)):
        env = X.Env(0, fixed={sym: v})
        t = strs.sample(atoms, env)
        if t is None:
            return None, ""
        if t in seen:
            return False, "steps %d and %d both give %s" % (seen[t], v, t)
        seen[t] = v
    for a in atoms:
        if isinstance(a, strs.Field) and a.integral and affine(a.e, sym) and (a.spec == "" or (a.spec[0] == "0" and a.spec[1:].isdigit())):
            return True, ""
    return None, ""


def affine(e, sym):
    s = X.sym(sym)
    if any(n in X.show(e, 4000) for n in ("floor", "mod", "where")):
        return False
    d = X.diff(e, s)
    return X.isc(d) and X.cval(d) != 0


def run(R):
    for dim in (2, 3):
        S = R.use(Scene(dim))
        for nm, out, rel, want in DIRS:
            for over in (True, False):
                for there in (True, False):
                    recorder(R, S, "%s, overwrite=%s, directory %s" % (nm, over, "exists" if there else "missing"), out, rel, want, over, there)
            S.it.fsstate, S.it.fsdefault, S.it.fslisted = None, None, False
        steps(R, S)
        meshes(R, S)
    S = R.use(Scene(3))
    exported(R, S)


def meshes(R, S):
    """files of the VTK visualiser"""
    from checks import viz
    for nm, out, rel, want in DIRS:
        for name, obj, f in viz.vtk_cases(S):
            for st in ("int", "array", "none"):
                subj = "%dD VTK %s, %s, step %s" % (S.dim, nm, name, st)
                with R.group(subj, key="completes/vtk/%s/%s" % (name, st)):
                    n = len(S.it.effects)
                    v = S.new("VTKVisualizer", output_dir=out, relative_dir=rel)
                    R.ob("creating a visualiser deletes nothing", subj, not [e for e in since(S, n) if e[0] in HARM], "no destructive operation", None, "vtk_deletes")
                    f(v, st)
                    ef = since(S, n)
                    bad = [e for e in ef if e[0] in HARM]
                    R.ob("writing meshes deletes nothing", subj, not bad, "no destructive operation", bad[0][2] if bad else None, "vtk_deletes")
                    for e in ef:
                        if e[0] == "fs:mkdir":
                            R.ob("all files are inside the output directory", subj, True if strs.same(e[1][0], want) else strs.inside(e[1][0], want), "mkdir %s" % strs.text(e[1][0]), e[2], "inside/vtk")
                        if e[0] == "fs:write":
                            within(R, "all files are inside the output directory", subj, e[1][0], want, e[2], "inside/vtk")
                            dirs = [q for q in ef if q[0] == "fs:mkdir" and strs.inside(e[1][0], q[1][0])]
                            R.ob("the folder of a file exists", subj, bool(dirs) or None, "makedirs before save", e[2], "vtk_folder")
                    wr = [e for e in ef if e[0] == "fs:write"]
                    R.ob("a mesh is saved to one file", subj, len(wr) == 1 or None, "%d files" % len(wr), None, "vtk_one")
                    if st != "none" and wr and name != "domain":
                        ok, why = injective(wr[0][1][0], "#vstep")
                        R.ob("every step keeps its own file", subj, ok, why or "name %s is injective in the step" % strs.text(wr[0][1][0]), wr[0][2], "injective/vtk")


def recorder(R, S, subj, out, rel, want, over, there):
    with R.group("recorder in directory: " + subj, key="completes/recorder"):
        n = len(S.it.effects)
        w = strs.text(want)
        S.it.fsstate, S.it.fsdefault, S.it.fslisted = {w: there}, False, True
        old = [w + "/" + q for q in OLD] if there else []
        S.it.fsstate.update({q: "file" for q in old})
        if there:
            S.it.fsstate[w + "/frames"] = True
        io = S.new("SimIO", output_dir=out, relative_dir=rel, overwrite=over)
        ef = since(S, n)
        R.ob("the output directory exists after creation", subj, S.it.fsstate.get(w) is True, "mkdir %s" % w, ef[-1][2] if ef else None, "created")
        dele = [k for k, e in enumerate(ef) if e[0] in HARM]
        if not over:
            R.ob("data is kept unless overwriting was requested", subj, not dele, "destructive operations: %s" % [(ef[k][0], strs.text(ef[k][1][0])) for k in dele], ef[dele[0]][2] if dele else None, "kept")
        elif there:
            R.ob("overwriting clears the old data", subj, bool(dele), "delete %s" % strs.text(want), None, "cleared")
            left = [q for q in old if S.it.fsstate.get(q)]
            R.ob("overwriting clears the old data", subj, not left, "left over: %s" % left, None, "cleared/all")
        for k in dele:
            p = ef[k][1][0]
            v = strs.same(p, want) if p is not None else None
            if v is not True and p is not None:
                v = strs.inside(p, want)
            R.ob("only the recorder's own directory is deleted", subj, v, "%s of %s (output directory %s)" % (ef[k][0], strs.text(p) if p is not None else "unknown", strs.text(want)), ef[k][2], "own_directory")
        for e in ef:
            if e[0] == "fs:write":
                within(R, "all files are inside the output directory", subj, e[1][0], want, e[2], "inside/new")
        files(R, S, subj, io, want, over)
        S.it.fsstate, S.it.fsdefault, S.it.fslisted = None, None, False


def files(R, S, subj, io, want, over):
    X.INTSYM.add(STEP)
    stt = state(S, scalar(X.sym(STEP), "i"))
    solver = S.new("USLSolver", grid_domains=(S.domain(0),), constitutive_laws=(), couplings=())
    before = dict(stt.f)
    n = len(S.it.effects)
    S.call(io, "save_step", stt)
    one = since(S, n)
    n = len(S.it.effects)
    S.call(io, "save_step", stt, verbose=False)
    quiet = since(S, n)
    n = len(S.it.effects)
    S.call(io, "save_solver", solver)
    conf = since(S, n)
    n = len(S.it.effects)
    meta = PDict({"description": "test"})
    S.call(io, "save_solver", solver, meta)
    conf2 = since(S, n)
    R.ob("saving leaves the metadata passed in alone", subj, set(meta.d) == {"description"}, "keys %s" % sorted(meta.d), None, "meta_kept")
    R.ob("saving leaves the state alone", subj, all(stt.f[k] is before[k] for k in before), "fields unchanged", None, "state_kept")
    for what, ef in (("save_step", one), ("save_step(verbose=False)", quiet), ("save_solver", conf), ("save_solver(meta_info)", conf2)):
        s2 = subj + ": " + what
        bad = [e for e in ef if e[0] in HARM]
        R.ob("saving deletes nothing", s2, not bad, "no destructive operation", bad[0][2] if bad else None, "saving_deletes")
        for e in ef:
            if e[0] == "fs:mkdir":
                v = True if strs.same(e[1][0], want) else strs.inside(e[1][0], want)
                R.ob("all files are inside the output directory", s2, v, "mkdir %s" % strs.text(e[1][0]), e[2], "inside/" + what)
            elif e[0] == "fs:write":
                within(R, "all files are inside the output directory", s2, e[1][0], want, e[2], "inside/" + what)
    sw = [e for e in one if e[0] == "fs:write" and e[1][-1].get("by") == "eqx"]
    qw = [e for e in quiet if e[0] == "fs:write" and e[1][-1].get("by") == "eqx"]
    cw = [e for e in conf if e[0] == "fs:write" and e[1][-1].get("by") == "eqx"]
    R.ob("a step is saved to one file", subj, len(sw) == 1, "%d serialised trees" % len(sw), None, "one_file")
    R.ob("messages do not change what is saved", subj, len(qw) == len(sw) and all(strs.same(a[1][0], b[1][0]) and a[1][-1]["value"] is b[1][-1]["value"] for a, b in zip(sw, qw)), "same files with verbose=False", None, "verbose")
    R.ob("the solver is saved to one file", subj, len(cw) == 1, "%d serialised trees" % len(cw), None, "one_solver_file")
    if len(sw) != 1 or len(cw) != 1:
        return
    R.ob("saving a step again replaces its file", subj, len(qw) == 1, "%d serialised trees when the file is there" % len(qw), sw[0][2], "again/state")
    cw2 = [e for e in conf2 if e[0] == "fs:write" and e[1][-1].get("by") == "eqx"]
    R.ob("saving the solver again replaces its file", subj, len(cw2) == 1, "%d serialised trees when the file is there" % len(cw2), cw[0][2], "again/solver")
    R.ob("the whole state is saved", subj, True if sw[0][1][-1]["value"] is stt else None if not partial(sw[0][1][-1]["value"], stt) else False, "tree_serialise_leaves receives the state itself", sw[0][2], "whole_state")
    R.ob("the whole solver is saved", subj, True if cw[0][1][-1]["value"] is solver else None if not partial(cw[0][1][-1]["value"], solver) else False, "tree_serialise_leaves receives the solver itself", cw[0][2], "whole_solver")
    v, why = injective(sw[0][1][0], STEP)
    R.ob("every step keeps its own file", subj, v, why or "name %s is injective in the step" % strs.text(sw[0][1][0]), sw[0][2], "injective")
    # other files never coincide with a state file or the solver's
    for e in conf2:
        if e[0] == "fs:write" and e[1][0] is not None and e[1][-1].get("by") != "eqx":
            for nm, o in (("solver", cw[0]), ("state", sw[0])):
                R.ob("files do not overwrite each other", subj, collide(e[1][0], o[1][0]), "%s and %s" % (strs.text(e[1][0]), strs.text(o[1][0])), e[2], "collide/" + nm)
    R.ob("files do not overwrite each other", subj, collide(cw[0][1][0], sw[0][1][0]), "%s and %s" % (strs.text(cw[0][1][0]), strs.text(sw[0][1][0])), cw[0][2], "collide/solver_state")
    # loading
    S.it.fsdefault, S.it.fslisted = None, False
    for kind, val in (("python int", scalar(X.sym(STEP), "i", "int")), ("array", scalar(X.sym(STEP), "i"))):
        s3 = "%s, step given as %s" % (subj, kind)
        sk, ss = S.new("USLSolver", grid_domains=(S.domain(0),), constitutive_laws=(), couplings=()), state(S, scalar(X.sym("skel"), "i"))
        n = len(S.it.effects)
        d = strs.text(want)
        r = S.it.call(S.cls("load_simulation"), [], dict(directory=d, solver_skeleton=sk, state_skeleton=ss, step=val))
        ef = since(S, n)
        bad = [e for e in ef if e[0] in HARM | WRITES]
        R.ob("loading changes no file", s3, not bad, "reads only", bad[0][2] if bad else None, "load_pure")
        r = S.it.iterate(r)
        R.ob("loading returns solver and state", s3, len(r) == 2, "%d values" % len(r), None, "load_arity")
        for nm, got, skel, src in (("solver", r[0], sk, cw[0]), ("state", r[1], ss, sw[0])):
            k = getattr(got, "loaded", None)
            if k is None:
                R.ob("loading reads what was saved", s3 + ": " + nm, False if got is skel else None, "the skeleton is returned" if got is skel else "not a loaded tree", None, "load/" + nm)
                continue
            e = S.it.effects[k]
            R.ob("loading reads what was saved", s3 + ": " + nm, e[1][-1]["value"] is skel, "deserialised into the %s skeleton" % nm, e[2], "skeleton/" + nm)
            cmp(R, "loading finds the saved file", s3 + ": " + nm, e[1][0], src[1][0], e[2], "reads", "names/" + nm)
            R.ob("loading uses the serialisation of saving", s3 + ": " + nm, (e[1][-1].get("spec") is None) == (src[1][-1].get("spec") is None) and (True if e[1][-1].get("spec") is None else None), "default leaf specification on both sides", e[2], "spec/" + nm)
    with R.group(subj + ", loading what is not there", key="missing"):
        missing(R, S, subj, want, sw[0], cw[0])


def missing(R, S, subj, want, sw, cw):
    """a file that is not there is never replaced by another one"""
    from sa.values import PyErr
    d = strs.text(want)
    for what, gone in (("state", sw), ("solver", cw)):
        st = {d: True, d + "/state_00003.eqx": "file", d + "/state_100000.eqx": "file", d + "/metadata.json": "file"}
        for e in (sw, cw):
            if e is not gone:
                st[strs.text(e[1][0])] = "file"
        S.it.fsstate, S.it.fsdefault, S.it.fslisted = st, False, True
        sk, ss = S.new("USLSolver", grid_domains=(S.domain(0),), constitutive_laws=(), couplings=()), state(S, scalar(X.sym("skel"), "i"))
        n = len(S.it.effects)
        s2 = "%s, %s file missing" % (subj, what)
        try:
            S.it.call(S.cls("load_simulation"), [], dict(directory=d, solver_skeleton=sk, state_skeleton=ss, step=scalar(X.sym(STEP), "i", "int")))
            end = "returns"
        except PyErr as ex:
            end = ex.kind
        for e in since(S, n):
            if e[0] in ("fs:read",) and e[1][-1].get("by") == "eqx":
                src = sw if e[1][-1]["value"] is ss else cw
                cmp(R, "only the requested files are loaded", s2, e[1][0], src[1][0], e[2], "reads", "requested/" + what)
        R.ob("loading a missing file fails", s2, end != "returns", "load_simulation %s" % end, gone[2], "missing/" + what)


def partial(v, whole):
    """v is a definite part of the whole"""
    if isinstance(whole, Obj):
        return any(v is x or partial(v, x) for x in whole.f.values() if x is not None and not isinstance(x, (str, bool, int)))
    if isinstance(whole, tuple):
        return any(v is x or partial(v, x) for x in whole)
    return False


def collide(a, b):
    """True: the two names differ for every value; False: equal for some"""
    la = [x for x in a if not isinstance(x, str)]
    lb = [x for x in b if not isinstance(x, str)]
    if any(isinstance(x, (strs.Op, strs.Blob)) for x in la + lb):
        return None
    if strs.same(a, b) is True:
        return False
    if not la and not lb:
        return a != b
    # numbers expand to digits and signs: match the literal skeletons
    import re
    pat = lambda q: "".join(re.escape(x) if isinstance(x, str) else r"[-0-9.e+]+" for x in q)
    if not la:
        return re.fullmatch(pat(b), strs.text(a)) is None
    if not lb:
        return re.fullmatch(pat(a), strs.text(b)) is None
    return None


def steps(R, S):
    """a counter that is an array is saved under its integer value"""
    with R.group("step counter"):
        io = S.new("SimIO", output_dir="out", overwrite=False)
        for k in (0, 7, 99999, 100000, 1234567):
            n = len(S.it.effects)
            S.call(io, "save_step", state(S, scalar(X.C(k), "i")))
            w = [e for e in since(S, n) if e[0] == "fs:write"]
            n = len(S.it.effects)
            S.it.call(S.cls("load_simulation"), ["out", S.new("USLSolver", grid_domains=(S.domain(0),), constitutive_laws=(), couplings=()), state(S, scalar(X.C(0), "i")), k], {})
            r = [e for e in since(S, n) if e[0] == "fs:read"]
            R.ob("loading finds the saved file", "step %d" % k, len(w) == 1 and any(strs.same(w[0][1][0], e[1][0]) for e in r) if w and r else None, "saved as %s" % strs.text(w[0][1][0]), w[0][2], "names/constant")


def exported(R, S):
    """the recorder and the loader are part of the public interface"""
    from sa.values import PyErr
    for nm in ("SimIO", "load_simulation"):
        try:
            S.it.mod_attr(S.it.module("hydraxmpm"), nm)
            ok = True
        except PyErr:
            ok = False
        R.ob("the loader is reachable with the recorder", nm, ok, "hydraxmpm.%s" % nm, ("hydraxmpm/__init__.py", 0, ""), "exported/" + nm)
