#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the checks present and the reasons below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
 "N01": "energy boundedness over arbitrarily long runs quantifies over runtime magnitudes and accumulated rounding; no static bound in reach (the structural ingredients are decided by C02, C03, C05, C12, C20, C25)",
 "N02": "convergence of a fixed-count Newton iteration depends on the magnitudes of the trial state; a static argument would need numerical bounds on the iteration map (the residual functions and what the result is used for are decided by C11)",
 "N03": "bitwise or to-rounding agreement across devices, precisions and compilation modes is a property of XLA and the hardware, not of this source (the source-side precondition, purity of the step, is decided by C04)",
}
TECH = {}
exec(open(os.path.join(R, "tools", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")) and i in TECH:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique=t, level="other", level_note=note + " " + COMMON))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no sound static decision built for it")))
m = dict(version=1, setup_cmd="python3 -c \"import ast\"", checks=checks, not_applicable=na,
         notes="No hooks: the checks read /repo's source and never import or run it. Genuine defects: known_findings.txt.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
