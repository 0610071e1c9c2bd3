#!/usr/bin/env python3
"""refall.py SPEC.py...   apply as many refactorings as fit together in one copy, run every check, repeat with the rest.
With KEEP=dir the merged copies are left there."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = []
for f in sys.argv[1:]:
    spec = {}
    exec(open(f).read(), spec)
    todo += spec["M"]
checks = os.environ.get("MUT_CHECKS") or " ".join(sorted(f[:-3].upper() for f in os.listdir(HERE + "/checks") if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py")))
rnd = 0
while todo:
    rnd += 1
    d = tempfile.mkdtemp(prefix="refall")
    shutil.copytree("/repo/hydraxmpm", d + "/hydraxmpm")
    done, rest = [], []
    for m in todo:
        it, files, ok = list(m[2:]), {}, True
        while it:
            f, o, n = it[:3]
            it = it[3:]
            s = files.get(f) or open(d + "/hydraxmpm/" + f).read()
            if s.count(o) < 1:
                ok = False
                break
            files[f] = s.replace(o, n, 1)
        if ok:
            for f, s in files.items():
                open(d + "/hydraxmpm/" + f, "w").write(s)
            done.append(m[0])
        else:
            rest.append(m)
    if not done:
        print("never applied:", [m[0] for m in rest])
        break
    todo = rest
    print("round %d: %d applied: %s" % (rnd, len(done), " ".join(done)), flush=True)

    def one(c):
        e = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")
        r = subprocess.run([sys.executable, HERE + "/check.py", c], env=e, capture_output=True, text=True)
        ls = r.stdout.splitlines()
        return c, r.returncode, ls
    with ThreadPoolExecutor(int(os.environ.get("MUT_J", "7"))) as ex:
        for c, rc, ls in ex.map(one, checks.split()):
            if rc or "undecided=0" not in (ls[-1] if ls else ""):
                print("  %s rc=%d %s" % (c, rc, ls[-1] if ls else ""), flush=True)
                for l in [l for l in ls if l.startswith("  [")][:4]:
                    print("       ", l[:300], flush=True)
    if os.environ.get("KEEP"):
        shutil.move(d, os.environ["KEEP"] + "/round%d" % rnd)
    else:
        shutil.rmtree(d)
