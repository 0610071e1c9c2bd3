"""Obligations, verdicts, known findings, evidence."""
import contextlib
import json
import os
import re
import sys
import time
import traceback

from . import expr as X
from .values import Arr, PyErr, Top, Unknown, Obj, lift, scalar, same_dim, native

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOFT = {"ShapeError", "Unknown"}
TOPIDX = {}


def locstr(loc):
    if not loc:
        return ""
    return "%s:%s in %s" % (loc[0], loc[1], loc[2].split(".")[-1] if loc[2] else "?")


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []            # (rule, subject, verdict, msg, loc, key)
        self.analysed = set()
        self.samples = []
        self.extra = {}
        self.cur = ""
        self.interps = []
        self.errors = []         # (kind, message, location, scene)
        self.ranges = {}
        self.debug = bool(os.environ.get("SA_DEBUG"))

    # -------------------------------------------------------- recording
    def ob(self, rule, subject, verdict, msg="", loc=None, key=None):
        """verdict: True discharged, False violated, None undecided"""
        key = key or ("%s/%s" % (rule, subject))
        key = re.sub(r"\s+", "_", key)
        self.obs.append((rule, subject, verdict, msg, loc, key))
        if len(self.samples) < 12 and verdict is True and msg and not any(s["rule"] == rule for s in self.samples):
            self.samples.append({"rule": rule, "subject": subject, "decided": msg})
        return verdict

    def eq(self, rule, subject, got, want, loc=None, msg="", ranges=None, key=None, **kw):
        """value-number equality of two scalars"""
        why = []
        got, want = self.toE(got), self.toE(want)
        if got is None or want is None:
            return self.ob(rule, subject, None, "value unknown " + msg, loc, key)
        r = dict(self.ranges)
        r.update(ranges or {})
        v = X.equal(got, want, ranges=r, why=why, **kw)
        m = "= %s" % X.show(want, 160) if v else ("%s computed value %s differs from required %s%s" % (msg, X.show(got, 300), X.show(want, 300), (" (e.g. %s vs %s)" % (why[0][1], why[0][2])) if why else "")).strip()
        return self.ob(rule, subject, v, m, loc, key)

    def toE(self, x):
        if isinstance(x, X.E):
            return x
        if isinstance(x, Top) or x is None:
            return None
        x = lift(x)
        if isinstance(x, Arr):
            return x.at() if not x.shape else None
        return None

    def eqa(self, rule, subject, got, want, loc=None, msg="", ranges=None, idx=None, key=None, **kw):
        """value-number equality of arrays; want is an array or a function of the index"""
        if isinstance(got, Top) or isinstance(want, Top):
            return self.ob(rule, subject, None, "value unknown: %s %s" % (getattr(got, "reason", ""), msg), loc, key)
        if got is None:
            return self.ob(rule, subject, False, "no value (None) where an array is required " + msg, loc, key)
        got = lift(got)
        if isinstance(want, Arr):
            if len(want.shape) != len(got.shape):
                return self.ob(rule, subject, False, "%s rank %d where rank %d is required" % (msg, len(got.shape), len(want.shape)), loc or got.src, key)
            w = lambda *i: want.at(*i)
        else:
            w = want
        loc = loc or got.src
        worst, bad = True, []
        for i in indices(got.shape, idx):
            why = []
            try:
                g, e = got.at(*i), X.toE(w(*i))
            except Unknown as u:
                worst = None if worst is not False else worst
                bad.append("undecided: %s" % u)
                continue
            r = dict(self.ranges)
            r.update(ranges or {})
            v = X.equal(g, e, ranges=r, why=why, **kw)
            if v is False:
                if worst is not False:
                    bad = []
                worst = False
                bad.append("component %s: computed %s, required %s%s" % ([X.show(q) for q in i], X.show(g, 220), X.show(e, 220), " (values %s vs %s)" % (why[0][1], why[0][2]) if why else ""))
            elif v is None and worst is True:
                worst = None
                bad.append("undecided component %s: %s" % ([X.show(q) for q in i], X.show(g, 120)))
        m = msg if worst is not True else (msg or "all components equal")
        if bad:
            m = (m + " " + "; ".join(bad[:2])).strip()
        return self.ob(rule, subject, worst, m, loc, key)

    def depends(self, rule, subject, val, pred, loc=None, msg="", key=None, special=None):
        """some component of val varies with a symbol satisfying pred"""
        und = False
        for e in comps(val):
            if e is None:
                und = True
                continue
            d = X.depends(e, pred, ranges=self.ranges, special=special)
            if d:
                return self.ob(rule, subject, True, "the result varies with it", loc, key)
            if d is None:
                und = True
        return self.ob(rule, subject, None if und else False, msg or "the result does not vary with it", loc, key)

    # -------------------------------------------------------- scoping
    @contextlib.contextmanager
    def group(self, name, definite=True, key=None, interp=None):
        old = self.cur
        self.cur = name
        try:
            yield
        except Unknown as u:
            self.ob("analysable", name, None, "analysis gave up: %s" % u)
            if self.debug:
                traceback.print_exc()
        except PyErr as e:
            if not e.explicit:
                self.errors.append((e.kind, e.msg, e.loc, name))
            if e.kind in SOFT or not definite or not (e.loc and e.loc[0].startswith("hydraxmpm")):
                self.ob("completes", name, None, "%s: %s at %s" % (e.kind, e.msg, locstr(e.loc)), e.loc)
            else:
                self.ob("completes", name, False, "every execution raises %s: %s" % (e.kind, e.msg), e.loc, key or "completes/%s/%s" % (name, e.kind))
            if self.debug:
                traceback.print_exc()
        except RecursionError:
            self.ob("analysable", name, None, "analysis recursion limit")
        except Exception as e:      # machinery defect: never an alarm, recorded as undecided
            self.ob("analysable", name, None, "internal: %s: %s" % (type(e).__name__, e))
            if self.debug:
                traceback.print_exc()
        finally:
            self.cur = old

    def use(self, scene):
        self.interps.append(scene.it)
        return scene

    # -------------------------------------------------------- output
    def finish(self):
        wall = time.time() - self.t0
        known = load_known(self.pid)
        viol, kf = {}, {}
        for rule, subject, v, msg, loc, key in self.obs:
            if v is False:
                if key in known:
                    kf.setdefault(key, (rule, subject, msg, loc))
                else:
                    viol.setdefault(key, (rule, subject, msg, loc))
        funcs = set()
        for it in self.interps:
            funcs |= it.calls
        nd = sum(1 for o in self.obs if o[2] is True)
        nu = [o for o in self.obs if o[2] is None]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Abstract interpretation of the current /repo source (AST, no execution): every function of the scenes is analysed once per "
                               "configuration on symbolic inputs, joins instead of paths; each obligation compares the value numbers of what the code computes "
                               "with what the property requires. See DESIGN.md, property %s." % self.pid,
                "obligations": len(self.obs), "discharged": nd, "undecided": len(nu),
                "violated": len(viol), "known_findings": sorted(kf),
                "functions_analysed": sorted(funcs)[:400], "functions_count": len(funcs),
                "rules": sorted({o[0] for o in self.obs}),
                "subjects": sorted({o[1] for o in self.obs})[:300],
                "undecided_items": ["%s / %s: %s" % (o[0], o[1], o[3][:200]) for o in nu][:60],
                "value_number_decisions": dict(X.STATS),
                "samples": self.samples,
            },
            "wall_s": round(wall, 3),
        }
        ev["coverage"].update(self.extra)
        if viol:
            ev["violations"] = len(viol)
        d = os.environ.get("SA_EVIDENCE") or os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, (rule, subject, msg, loc) in sorted(kf.items()):
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.pid, known[key], key, locstr(loc)))
        if viol:
            rp = os.path.join(d, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                f.write("property %s: %d violated obligations\nre-run: cd /verif && python3 check.py %s\n\n" % (self.pid, len(viol), self.pid))
                for key, (rule, subject, msg, loc) in viol.items():
                    f.write("rule: %s\nsubject: %s\nkey: %s\nat: %s\nwhat: %s\n\n" % (rule, subject, key, locstr(loc), msg))
            for key, (rule, subject, msg, loc) in list(viol.items())[:12]:
                print("  [%s] %s: %s  (%s)  key=%s" % (rule, subject, msg[:600], locstr(loc), key))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s obligations=%d discharged=%d undecided=%d known=%d functions=%d %.1fs" % (self.pid, len(self.obs), nd, len(nu), len(kf), len(funcs), wall))
        if self.debug:
            for o in nu:
                print("   undecided", o[0], o[1], o[3][:300], locstr(o[4]))
        return 0


def indices(shape, idx=None):
    """representative index tuples: all of a concrete axis, one symbol per symbolic axis"""
    out = [()]
    for k, d in enumerate(shape):
        if idx and k in idx:
            vs = [X.toE(idx[k])]
        elif isinstance(d, int):
            vs = [X.C(j) for j in range(d)]
        else:
            vs = [X.bounded("#ix%d" % k, d)]
        out = [o + (v,) for o in out for v in vs]
    return out


def comps(val):
    """scalar components of any value (one symbol per symbolic axis)"""
    if isinstance(val, X.E):
        return [val]
    if isinstance(val, Top):
        return [None]
    if isinstance(val, (tuple, list)):
        return [c for v in val for c in comps(v)]
    if hasattr(val, "items") and not isinstance(val, dict):
        return [c for v in val.items for c in comps(v)]
    if hasattr(val, "d") and isinstance(val.d, dict):
        return [c for v in val.d.values() for c in comps(v)]
    if isinstance(val, Obj):
        return [c for v in val.f.values() for c in comps(v)]
    if isinstance(val, Arr):
        r = []
        for i in indices(val.shape):
            try:
                r.append(val.at(*i))
            except Unknown:
                r.append(None)
        return r
    if val is None or isinstance(val, str):
        return []
    try:
        return [X.toE(val)]
    except Exception:
        return []


def load_known(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
