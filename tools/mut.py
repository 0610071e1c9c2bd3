#!/usr/bin/env python3
"""mut.py SPEC.py [filter]   try mutations (id, checks, file, old, new) on a scratch copy and print which checks fire"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
flt = sys.argv[2:] 


def one(m):
    mid, checks, edits = m[0], m[1], m[2:]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/hydraxmpm", d + "/hydraxmpm")
        it = list(edits)
        while it:
            f, o, n = it[:3]
            it = it[3:]
            p = d + "/hydraxmpm/" + f
            s = open(p).read()
            if s.count(o) < 1:
                return mid, "EDIT-NOT-FOUND %s: %s" % (f, o)
            open(p, "w").write(s.replace(o, n, 1))
        out = []
        if checks == "ALL":
            checks = os.environ.get("MUT_CHECKS") or " ".join(sorted(f[:-3].upper() for f in os.listdir(HERE + "/checks") if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py")))
        for c in checks.split():
            e = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev", SA_DEBUG="1" if os.environ.get("MUT_DEBUG") else "")
            r = subprocess.run([sys.executable, HERE + "/check.py", c], env=e, capture_output=True, text=True)
            ls = r.stdout.splitlines()
            if os.environ.get("MUT_QUIET") and r.returncode == 0 and "undecided=0" in (ls[-1] if ls else ""):
                continue
            out.append("%s rc=%d %s" % (c, r.returncode, (next((l for l in ls if l.startswith('  [')), ls[0]) if r.returncode == 1 and ls else ls[-1] if ls else r.stderr[-300:])[:int(os.environ.get("MUT_W", "260"))]))
        return mid, "\n      ".join(out)
    finally:
        shutil.rmtree(d)


surv = []
ms = [m for m in spec["M"] if not flt or any(f in m[0] for f in flt)]
with ThreadPoolExecutor(int(os.environ.get("MUT_J", "6"))) as ex:
    for mid, r in ex.map(one, ms):
        print("%-28s %s" % (mid, r), flush=True)
        if "rc=1" not in r:
            surv.append(mid)
print("SURVIVORS %d: %s" % (len(surv), " ".join(surv)))
