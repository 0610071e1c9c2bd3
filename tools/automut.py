#!/usr/bin/env python3
"""automut.py N SEED [file-filter...]   random syntax-tree mutants of the package; each is run against the checks that
analyse the mutated function (cheapest first) until one fires; survivors are listed for reading"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.environ.get("AM_EV", "/tmp/evq")
COST = {}
for l in open(os.environ.get("AM_BASE", "/tmp/base.txt")):
    w = l.split()
    if len(w) > 2 and w[1].startswith("property="):
        COST[w[1][9:]] = float(w[-1][:-1])
COVER = {}
for c in COST:
    d = json.load(open("%s/%s.json" % (EV, c)))
    COVER[c] = set(d["coverage"].get("functions_analysed", []))
SKIP = tuple(os.environ.get("AM_SKIP", "element_tests sdfmorph __init__").split())
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
CMP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
ATTR = {"p_idx": "g_idx", "g_idx": "p_idx", "s_idx": "p_idx", "c_idx": "p_idx", "moment_stack": "moment_nt_stack", "moment_nt_stack": "moment_stack",
        "volume_stack": "volume0_stack", "volume0_stack": "volume_stack", "F_stack": "F_store_stack", "F_store_stack": "F_stack", "minimum": "maximum", "maximum": "minimum",
        "velocity_stack": "position_stack", "point_ids": "node_hashes", "node_hashes": "point_ids", "mass_stack": "volume_stack", "zeros": "ones", "ones": "zeros", "floor": "ceil",
        "min": "max", "max": "min", "argmin": "argmax", "sin": "cos", "cos": "sin", "origin": "end", "end": "origin", "beta_min": "beta_max", "rho_0": "rho_p", "lam": "kap", "kap": "lam", "G": "K", "K": "G"}


class Sites(ast.NodeVisitor):
    def __init__(self, mod):
        self.mod, self.st, self.out = mod, [], []

    def visit_FunctionDef(self, n):
        self.st.append(n.name)
        seen = {a.arg for a in n.args.args}
        for x in sorted((x for x in ast.walk(n) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)), key=lambda x: x.lineno):
            x.again = x.targets[0].id in seen
            seen.add(x.targets[0].id)
        # names a load could be confused with: parameters and earlier assignments of the same function
        defs = [(0, a.arg) for a in n.args.args + n.args.kwonlyargs if a.arg not in ("self", "cls")]
        defs += [(x.lineno, x.id) for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in {d for _, d in defs}:
                x.pool = sorted({d for l, d in defs if l < x.lineno and d != x.id})
        for x in n.body:
            self.visit(x)
        for body in bodies(n):
            for a, b in zip(body, body[1:]):
                if isinstance(a, (ast.Assign, ast.Expr, ast.If)) and isinstance(b, (ast.Assign, ast.If)) and not isinstance(getattr(a, "value", None), ast.Constant) and confusable(a, b, defs):
                    b.swap = (body, a)
                    self.out.append((self.mod + "." + ".".join(self.st), b, "swapstmt"))
        self.st.pop()

    def visit_ClassDef(self, n):
        self.st.append(n.name)
        for x in n.body:
            self.visit(x)
        self.st.pop()

    def visit_Raise(self, n):
        pass

    def visit_AnnAssign(self, n):
        pass

    def generic_visit(self, n):
        q = self.mod + "." + ".".join(self.st)
        if len(self.st) and hasattr(n, "lineno"):
            for k in kinds(n):
                self.out.append((q, n, k))
        super().generic_visit(n)


def confusable(a, b, defs):
    """b reads something a redefines (so swapping makes it read the older value)"""
    st = lambda x: {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    ld = lambda x: {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
    old = {d for l, d in defs if l < a.lineno}
    return bool((st(a) & ld(b) & old) | (st(b) & ld(a) & old))


def bodies(n):
    for x in ast.walk(n):
        for f in ("body", "orelse"):
            b = getattr(x, f, None)
            if isinstance(b, list) and len(b) > 1:
                yield b


def kinds(n):
    if isinstance(n, ast.Name) and getattr(n, "pool", None):
        return ["name"]
    if isinstance(n, ast.Call) and n.keywords and n.keywords[0].arg:
        return ["dropkw"]
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.ctx, ast.Load) and ast.dump(n.slice.elts[0]) != ast.dump(n.slice.elts[1]):
        return ["swapidx"]
    if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
        return ["op"]
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
        return ["cmp"]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return ["neg"]
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, str):
        return ["const"]
    if isinstance(n, ast.Attribute) and n.attr in ATTR and isinstance(n.ctx, ast.Load):
        return ["attr"]
    if isinstance(n, ast.Call) and len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
        return ["swapargs"]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "where" and len(n.args) == 3:
        return ["swapwhere"]
    if isinstance(n, (ast.If, ast.IfExp)):
        return ["negif"]
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and getattr(n, 'again', False):
        return ["delassign"]
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        return ["delexpr"]
    return []


def apply(n, k, rnd):
    h = n.lineno * 131 + n.col_offset * 7
    if k == "name":
        # prefer names that look alike
        import difflib as D
        c = sorted(n.pool, key=lambda d: -D.SequenceMatcher(None, d, n.id).ratio())[:4]
        n.id = c[h % len(c)]
    elif k == "dropkw":
        del n.keywords[h % len(n.keywords)]
    elif k == "swapidx":
        n.slice.elts.reverse()
    elif k == "swapstmt":
        body, a = n.swap
        i = body.index(a)
        body[i], body[i + 1] = body[i + 1], body[i]
    if k == "op":
        n.op = SWAP[type(n.op)]()
    elif k == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif k == "neg":
        n.op = ast.UAdd()
    elif k == "const":
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v * 2 if v else 1.0
    elif k == "attr":
        n.attr = ATTR[n.attr]
    elif k == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "swapwhere":
        n.args[1], n.args[2] = n.args[2], n.args[1]
    elif k == "negif":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == "delassign":
        n.value = ast.Name(n.targets[0].id, ast.Load())
    elif k == "delexpr":
        n.value = ast.Constant(None)


def sites():
    out = []
    for root, _, fs in os.walk("/repo/hydraxmpm"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            r = os.path.relpath(p, "/repo/hydraxmpm")
            if not f.endswith(".py") or any(s in r for s in SKIP):
                continue
            if FLT and not any(x in r for x in FLT):
                continue
            t = ast.parse(open(p).read())
            v = Sites("hydraxmpm." + r[:-3].replace("/", "."))
            v.visit(t)
            for i, (q, n, k) in enumerate(v.out):
                out.append((r, q, i, k))
    return out


def mutate(r, i, rnd):
    src = open("/repo/hydraxmpm/" + r).read()
    t = ast.parse(src)
    v = Sites("x")
    v.visit(t)
    q, n, k = v.out[i]
    base = ast.unparse(ast.parse(src)).splitlines()
    apply(n, k, rnd)
    new = ast.unparse(ast.fix_missing_locations(t)).splitlines()
    df = [l for l in difflib.unified_diff(base, new, n=0, lineterm="") if l[:1] in "+-" and l[:3] not in ("+++", "---")]
    return "\n".join(new) + "\n", n.lineno, df


def one(m):
    r, q, i, k = m
    src, line, df = mutate(r, i, None)
    d = tempfile.mkdtemp(prefix="am")
    try:
        shutil.copytree("/repo/hydraxmpm", d + "/hydraxmpm")
        open(d + "/hydraxmpm/" + r, "w").write(src)
        fq = q
        cs = [c for c in COST if any(f == fq or f.startswith(fq + ".") or fq.startswith(f + ".") for f in COVER[c])]
        cs.sort(key=lambda c: COST[c])
        for c in os.environ.get("AM_ALWAYS", "C14 C13 C17 C15").split():
            if c not in cs:
                cs.append(c)
        und = []
        for c in cs:
            e = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")
            x = subprocess.run([sys.executable, HERE + "/check.py", c], env=e, capture_output=True, text=True)
            if x.returncode == 1:
                return m, line, df, c, und
            ls = x.stdout.splitlines()
            if x.returncode or (ls and "undecided=0" not in ls[-1]):
                und.append(c + (":rc%d" % x.returncode if x.returncode else ""))
        return m, line, df, None, und
    finally:
        shutil.rmtree(d)


FLT = sys.argv[3:]
rnd = random.Random(int(sys.argv[2]))
S = sites()
K = os.environ.get("AM_KINDS")
if K:
    S = [x for x in S if x[3] in K.split(",")]
ms = rnd.sample(S, min(int(sys.argv[1]), len(S)))
print("%d sites" % len(S), flush=True)
n = c = 0
with ThreadPoolExecutor(int(os.environ.get("MUT_J", "6"))) as ex:
    for m, line, df, by, und in ex.map(one, ms):
        n += 1
        c += by is not None
        print("%s %s:%d %s %s%s" % (by or "SURVIVED", m[0], line, m[3], m[1].split(".")[-1], " undecided=" + ",".join(und) if und and not by else ""), flush=True)
        if not by:
            for l in df[:6]:
                print("      " + l[:200], flush=True)
print("caught %d of %d" % (c, n))
