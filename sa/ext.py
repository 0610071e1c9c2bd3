"""Names and signatures of installed libraries, read from their source files (never imported).

Only definite answers: a module whose namespace is not fully listed in its source (star imports, dynamic attributes) has no opinion."""
import ast
import functools
import glob
import os

ROOTS = sorted(glob.glob(os.environ.get("SA_SITE", "/opt/venv/lib/python3*/site-packages")))
KNOWN = ("jax", "equinox", "rerun", "pyvista", "skimage", "numpy", "matplotlib")


@functools.lru_cache(None)
def path(dotted):
    for r in ROOTS:
        p = os.path.join(r, *dotted.split("."))
        for q in (p + "/__init__.pyi", p + ".pyi", p + "/__init__.py", p + ".py"):
            if os.path.isfile(q):
                return q
    return None


@functools.lru_cache(None)
def module(dotted):
    """{name: [definition nodes]} of a module, and whether the listing is complete"""
    p = path(dotted)
    if p is None:
        return None
    try:
        t = ast.parse(open(p).read())
    except (SyntaxError, OSError, UnicodeDecodeError):
        return None
    ns, full = {}, True

    def put(n, v):
        ns.setdefault(n, []).append(v)

    def go(body):
        nonlocal full
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if s.name == "__getattr__":
                    names = lazy_names(s)
                    full = full and names is not None
                    for n in names or ():
                        put(n, ("value", n))
                put(s.name, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    put(a.asname or a.name.split(".")[0], ("module", a.name if a.asname else a.name.split(".")[0]))
            elif isinstance(s, ast.ImportFrom):
                base = absolute(dotted, p, s)
                for a in s.names:
                    if a.name == "*":
                        full = False
                    else:
                        put(a.asname or a.name, ("from", base, a.name))
            elif isinstance(s, (ast.If, ast.With, ast.For, ast.While)):
                go(s.body)
                go(getattr(s, "orelse", []))
            elif isinstance(s, ast.Try):
                go(s.body + s.orelse + s.finalbody)
                for h in s.handlers:
                    go(h.body)
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        put(n.id, ("value", n.id))
                        if n.id == "__getattr__":
                            full = full and isinstance(s, ast.Assign) and "deprecation" in ast.unparse(s.value)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and isinstance(s, (ast.Assign, ast.AnnAssign)):
                        put(n.value, ("value", n.value))       # keys of deprecation tables, __all__ and the like
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "setattr", "vars"):
                        full = False
    go(t.body)
    return ns, full


def lazy_names(f):
    """names a module-level __getattr__ answers when it is a list of `if name == "x"` ending in a raise; None otherwise"""
    out = []
    for s in f.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Eq) and isinstance(s.test.left, ast.Name) and isinstance(s.test.comparators[0], ast.Constant):
            out.append(s.test.comparators[0].value)
            continue
        if isinstance(s, ast.Raise) and s is f.body[-1]:
            return out
        return None
    return None


def absolute(dotted, p, s):
    if not s.level:
        return s.module or ""
    base = dotted.split(".")
    if not os.path.basename(p).startswith("__init__"):
        base = base[:-1]
    base = base[:len(base) - (s.level - 1)] if s.level > 1 else base
    return ".".join(base + ([s.module] if s.module else []))


def exists(dotted):
    """True/False/None: does this dotted name exist in the installed library?"""
    if dotted.split(".")[0] not in KNOWN or not ROOTS:
        return None
    parts = dotted.split(".")
    if path(parts[0]) is None:
        return None
    cur = parts[0]
    for k, n in enumerate(parts[1:], 1):
        m = module(cur)
        if m is None:
            return None
        ns, full = m
        if n in ns:
            d = follow(cur, n)
            if d is not None and d[0] == "module":
                cur = d[1]
                continue
            return True if k == len(parts) - 1 else None
        if path(cur + "." + n) is not None or os.path.isdir(os.path.join(os.path.dirname(path(cur)), n)):
            cur = cur + "." + n
            continue
        return False if full and not n.startswith("__") else None
    return True


def follow(mod, name, depth=0):
    """the definition a name of a module stands for: ("module", dotted) | ("def", [nodes]) | None"""
    if depth > 12:
        return None
    m = module(mod)
    if m is None:
        return None
    ds = m[0].get(name)
    if not ds:
        return ("module", mod + "." + name) if path(mod + "." + name) else None
    if all(isinstance(d, ast.FunctionDef) for d in ds):
        return "def", ds
    d = ds[-1]
    if isinstance(d, tuple) and d[0] == "module":
        return "module", d[1]
    if isinstance(d, tuple) and d[0] == "from" and all(e == d or (isinstance(e, tuple) and e[0] == "value") for e in ds):
        if path(d[1] + "." + d[2]) and not (module(d[1]) and d[2] in module(d[1])[0] and d[1] + "." + d[2] != mod + "." + name):
            return "module", d[1] + "." + d[2]
        return follow(d[1], d[2], depth + 1)
    return None


PLAIN = {"jit", "api_boundary", "set_module", "export", "partial", "overload", "wraps", "_wraps", "implements", "staticmethod", "deprecated", "use_cpp_method"}


def signatures(dotted):
    """list of FunctionDef nodes that together describe a library function, or None"""
    if dotted.split(".")[0] not in KNOWN or not ROOTS or path(dotted.split(".")[0]) is None:
        return None
    parts = dotted.split(".")
    cur = parts[0]
    for n in parts[1:-1]:
        d = follow(cur, n)
        if d is None or d[0] != "module":
            return None
        cur = d[1]
    d = follow(cur, parts[-1])
    if d is None or d[0] != "def":
        return None
    for f in d[1]:
        for dec in f.decorator_list:
            nm = ast.unparse(dec).split("(")[0].split(".")[-1]
            if nm not in PLAIN or (nm == "partial" and not any(q in ast.unparse(dec) for q in ("jit", "api_boundary"))):
                return None
    if len(d[1]) > 1 and not all(any("overload" in ast.unparse(x) for x in f.decorator_list) for f in d[1]):
        return None
    return d[1]


@functools.lru_cache(None)
def array_members():
    """attribute names of arrays, or None"""
    m = module("jax._src.basearray")
    if m is None:
        return None
    c = [d for d in m[0].get("Array", []) if isinstance(d, ast.ClassDef)]
    if len(c) != 1:
        return None
    return frozenset(n.name for n in ast.walk(c[0]) if isinstance(n, ast.FunctionDef)) | frozenset(n.target.id for n in ast.walk(c[0]) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name))
