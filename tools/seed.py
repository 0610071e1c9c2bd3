#!/usr/bin/env python3
"""tools/seed.py new ID PROP FILE <<< python dict {edits:[(file,old,new)], needs, breaks, demo}   create+validate a planted change
tools/seed.py check [ID...]    validate; tools/seed.py catch [ID...]  run the property's check on each (scratch copies, SA_REPO)"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
ENV = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
STABLE = ["hydraxmpm"]


def sh(cmd, cwd, env=ENV, t=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh("git -C /repo archive HEAD | tar -x -C %s" % d, "/tmp")
    return d


def create(spec):
    i = spec["id"]
    d = os.path.join(SEED, i)
    os.makedirs(d, exist_ok=True)
    w = copy()
    try:
        sh("git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", w)
        for f, old, new in spec["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + spec["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(w)


DEMO = """#!/bin/bash
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""
PRE = """import sys
import jax, jax.numpy as jnp, numpy as np
import equinox as eqx
import hydraxmpm as hdx
def close(a, b, tol=1e-4, what=""):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if not np.allclose(a, b, rtol=tol, atol=tol * (1e-12 + np.abs(b).max(initial=0))):
        print("FAILED", what, a, b)
        sys.exit(1)
def cloud(seed, n=12, dim=3, lo=0.35, hi=0.65):
    return jnp.asarray(np.random.default_rng(seed).uniform(lo, hi, (n, dim)), dtype=jnp.float32)
def rnd(seed, *shape, s=1.0):
    return jnp.asarray(np.random.default_rng(seed).normal(size=shape) * s, dtype=jnp.float32)
"""


def validate(i):
    d = os.path.join(SEED, i)
    w = copy()
    try:
        a = sh("bash %s/demo.sh" % d, w)
        if a.returncode != 0:
            return "demo fails on clean: " + (a.stdout + a.stderr)[-600:]
        p = sh("git apply --unsafe-paths --directory= %s/patch.diff" % d, w) if False else sh("patch -p1 < %s/patch.diff" % d, w)
        if p.returncode:
            return "patch fails: " + p.stdout + p.stderr
        b = sh("bash %s/demo.sh" % d, w)
        if b.returncode == 0:
            return "demo passes with patch"
        t = sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider %s 2>&1 | tail -3" % (w, " ".join(
            json.load(open("/opt/vp/BASELINE.json")).get("x", []) or ["tests"])), w)
        tail = (b.stdout + b.stderr).strip().splitlines()[-1:] 
        ok = stable(w)
        return "ok  (%s)" % (tail[0][:150] if tail else "") if ok else "stable tests fail"
    finally:
        shutil.rmtree(w)


def stable(w):
    names = ["test_linearelastic_mat", "test_material_points", "test_newtonfluid_mat"]
    files = sh("find . -name 'test_*.py'", w).stdout.split()
    files = [f for f in files if any(n in f for n in names)]
    ts = "test_create or test_update_stress_3d or test_create_state or base_state or standard_defaults"
    r = sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider %s -rA 2>&1" % (w, " ".join(files)), w).stdout
    return all(("PASSED" in r) and any(("PASSED" in l and l.rstrip().endswith(x)) for l in r.splitlines()) for x in [
        "test_linearelastic_mat.py::test_create", "test_linearelastic_mat.py::test_update_stress_3d", "test_newtonfluid_mat.py::test_create", "test_newtonfluid_mat.py::test_create_state"]) and r.count("PASSED") >= 6


def catch(i, thorough=False):
    d = os.path.join(SEED, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = copy()
    try:
        sh("patch -p1 < %s/patch.diff" % d, w)
        e = dict(os.environ, SA_REPO=w, SA_EVIDENCE=w + "/ev")
        r = subprocess.run(["python3", "check.py", prop], cwd=ROOT, env=e, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("  [")]
        return "CAUGHT" if r.returncode == 1 else ("missed" if r.returncode == 0 else "ERROR %d" % r.returncode), (v[0][:230] if v else r.stdout.strip().splitlines()[-1:][0] if r.stdout.strip() else r.stderr[-300:])
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    cmd = sys.argv[1]
    if cmd == "create":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        todo = [b for b in ns["BUGS"] if len(sys.argv) < 4 or b["id"] in sys.argv[3:]]
        for b in todo:
            create(b)
        with ThreadPoolExecutor(4) as ex:
            for b, r in zip(todo, ex.map(lambda b: validate(b["id"]), todo)):
                print(b["id"], r)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        f = validate if cmd == "check" else catch
        with ThreadPoolExecutor(6) as ex:
            for i, r in zip(ids, ex.map(f, ids)):
                print(i, r, flush=True)
