"""Run-time type annotations of the package: its import hook checks every annotated argument and return value, so a value that
definitely violates its annotation makes the operation fail.  Only definite violations are reported."""
import ast

from . import expr as X
from .values import Arr, Bound, Cls, Ext, Func, Nat, Obj, Partial, PDict, PList, Q, Top, dimE, native

KINDS = {"Float": "f", "Float32": "f", "Float64": "f", "Int": "i", "UInt": "i", "Int32": "i", "UInt32": "i", "Integer": "i", "Bool": "b",
         "Inexact": "f", "Num": "fi", "Real": "fi", "Shaped": "fib"}
SEQ = {"list": PList, "List": PList, "tuple": tuple, "Tuple": tuple, "Sequence": (tuple, PList)}


def describe(v):
    if isinstance(v, Arr):
        return ("python %s" % v.py) if v.py else "array of shape (%s) and kind %s" % (",".join(X.show(dimE(d), 30) for d in v.shape), v.dt)
    if isinstance(v, Obj):
        return v.cls.name
    return type(v).__name__ if not isinstance(v, (Q, int, float)) else "number"


class Checker:
    def __init__(self, it):
        self.it = it
        self.bad = {}
        self.seen = 0
        it.typechecker = self

    # value kinds ------------------------------------------------------
    def num(self, v, kind):
        """definite violation of float / int / bool / complex"""
        if isinstance(v, bool):
            return False
        if isinstance(v, (int, float, Q)):
            return kind in ("int", "bool") and Q(v).denominator != 1 if isinstance(v, (int, Q)) else kind in ("int", "bool")
        if isinstance(v, Arr):
            if v.py is None:
                return True
            if kind == "int":
                return v.py == "float"
            if kind == "bool":
                return v.py == "float"
            return False
        return True

    def array(self, ann, v, dims, mod):
        """definite violation of Float[Array, 'spec']"""
        if not isinstance(v, Arr):
            return "%s where an array is required" % describe(v)
        if v.py is not None:
            return "a python number where an array is required"
        kind = ast.unparse(ann.value).split(".")[-1]
        el = ann.slice.elts
        if not ast.unparse(el[0]).split(".")[-1] in ("Array", "ArrayLike", "ndarray"):
            return None
        dk = KINDS.get(kind)
        if dk is not None and v.dt not in dk and v.dt in ("f", "i", "b"):
            return "%s where %s is required" % (describe(v), ast.unparse(ann))
        if len(el) < 2 or not isinstance(el[1], ast.Constant) or not isinstance(el[1].value, str):
            return None
        toks = el[1].value.split()
        var = [k for k, t in enumerate(toks) if t == "..." or t.startswith("*")]
        if len(var) > 1:
            return None
        n = len(v.shape)
        if (not var and n != len(toks)) or (var and n < len(toks) - 1):
            return "rank %d where '%s' is required" % (n, el[1].value)
        if var:
            k = var[0]
            tail = len(toks) - k - 1
            pairs = list(zip(toks[:k], v.shape[:k])) + list(zip(toks[k + 1:], v.shape[n - tail:] if tail else ()))
        else:
            pairs = list(zip(toks, v.shape))
        for t, d in pairs:
            if t.isdigit():
                if differs(int(t), d):
                    return "size %s where %s is required (%s)" % (X.show(dimE(d), 40), t, el[1].value)
            elif t.isidentifier() and not t.startswith("_"):
                if t in dims and differs(dims[t], d):
                    return "size %s for '%s' where another array of the call has %s" % (X.show(dimE(d), 40), t, X.show(dimE(dims[t]), 40))
                dims.setdefault(t, d)
        return None

    # structure --------------------------------------------------------
    def check(self, ann, v, dims, mod):
        """None, or why the value definitely violates the annotation"""
        if ann is None or isinstance(v, Top):
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return None if v is None else "%s where None is required" % describe(v)
            if isinstance(ann.value, str):
                try:
                    return self.check(ast.parse(ann.value, mode="eval").body, v, dims, mod)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.union([ann.left, ann.right], v, dims, mod)
        if isinstance(ann, ast.Subscript):
            head = ast.unparse(ann.value).split(".")[-1]
            if head == "Optional":
                return None if v is None else self.check(ann.slice, v, dims, mod)
            if head == "Union":
                return self.union(ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice], v, dims, mod)
            if isinstance(ann.slice, ast.Tuple) and self.is_jaxtyping(ann.value, mod):
                return self.array(ann, v, dims, mod)
            if head in SEQ:
                if not isinstance(v, SEQ[head]):
                    return "%s where %s is required" % (describe(v), ast.unparse(ann))
                xs = v.items if isinstance(v, PList) else v
                el = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                if head in ("tuple", "Tuple") and not (len(el) == 2 and isinstance(el[1], ast.Constant) and el[1].value is Ellipsis):
                    if len(el) == 1 and isinstance(el[0], ast.Tuple) and not el[0].elts:
                        return None
                    if len(xs) != len(el):
                        return "a tuple of %d where %s is required" % (len(xs), ast.unparse(ann))
                    ps = list(zip(el, xs))
                else:
                    ps = [(el[0], x) for x in xs]
                for a, x in ps:
                    r = self.check(a, x, dims, mod)
                    if r:
                        return r
                return None
            if head in ("Dict", "dict"):
                return None if isinstance(v, PDict) else "%s where a dictionary is required" % describe(v)
            return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            t = self.resolve(ann, mod)
            if isinstance(t, Cls):
                if isinstance(v, Obj):
                    return None if v.cls.issub(t) or self.vague(t) else "%s where %s is required" % (v.cls.name, t.name)
                if isinstance(v, PList):
                    return None
                return None if self.vague(t) or isinstance(v, (Func, Bound, Nat, Partial)) else "%s where %s is required" % (describe(v), t.name)
            if isinstance(t, Ext):
                n = t.name.split(".")[-1]
                if t.name.startswith("builtins."):
                    if n in ("float", "int", "bool"):
                        return "%s where %s is required" % (describe(v), n) if self.num(v, n) else None
                    if n in ("tuple", "list"):
                        return None if isinstance(v, SEQ[n]) else "%s where a %s is required" % (describe(v), n)
                    if n == "str":
                        return "%s where a string is required" % describe(v) if isinstance(v, (Arr, Obj, tuple, PList, Q, int, float)) or v is None else None
                if n == "Array" and t.name.split(".")[0] in ("jax", "jaxtyping"):
                    if isinstance(v, Arr):
                        return "a python number where an array is required" if v.py is not None else None
                    return "%s where an array is required" % describe(v)
            return None
        return None

    def vague(self, t):
        return any(not b.split(".")[-1] in ("Module", "object", "ABC") for b in t.ext_bases())

    def union(self, alts, v, dims, mod):
        why = []
        for a in alts:
            d = dict(dims)
            r = self.check(a, v, d, mod)
            if r is None:
                dims.update(d)
                return None
            why.append(r)
        return " and ".join(sorted(set(why)))

    def resolve(self, node, mod):
        if isinstance(node, ast.Name):
            if node.id in mod.ns:
                return mod.ns[node.id]
            import builtins
            return Ext("builtins." + node.id) if hasattr(builtins, node.id) else None
        b = self.resolve(node.value, mod)
        if isinstance(b, Ext):
            return Ext(b.name + "." + node.attr)
        ns = getattr(b, "ns", None)
        return ns.get(node.attr) if ns else None

    def is_jaxtyping(self, node, mod):
        t = self.resolve(node, mod)
        return isinstance(t, Ext) and t.name.split(".")[0] == "jaxtyping"

    # hooks ------------------------------------------------------------
    def report(self, qual, what, why, loc):
        self.bad.setdefault((qual, what), (why, loc))

    def enter(self, f, bound, loc):
        if not isinstance(f.node, ast.FunctionDef) or not f.mod.name.startswith("hydraxmpm") or f.node.decorator_list and any("no_type_check" in ast.unparse(d) for d in f.node.decorator_list):
            return None
        dims = {}
        a = f.node.args
        none_default = set()
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant) and d.value is None:
                none_default.add(p.arg)
        for p in pos + a.kwonlyargs:
            if p.annotation is None or p.arg not in bound:
                continue
            v = bound[p.arg]
            self.seen += 1
            if v is None and p.arg in none_default:
                continue
            r = self.check(p.annotation, v, dims, f.mod)
            if r:
                self.report(f.qual, p.arg, r, loc)
        return dims

    def leave(self, f, v, dims):
        if dims is None or f.node.returns is None:
            return
        self.seen += 1
        r = self.check(f.node.returns, v, dims, f.mod)
        if r:
            self.report(f.qual, "return", r, (self.it.rel(f.mod.path), f.node.lineno, f.qual))

    def fields(self, cls, o, loc):
        """constructor of a class without its own __init__: arguments are checked against the field annotations"""
        dims = {}
        for k, (c, ann) in self.it.all_fields(cls).items():
            if not isinstance(ann, ast.AST) or k not in o.f:
                continue
            v = o.f[k]
            sp = self.it.fieldspec(cls, k)
            self.seen += 1
            if v is None and sp.has_default and sp.default is None:
                continue
            r = self.check(ann, v, dims, c.mod)
            if r:
                self.report(cls.name, k, r, loc)


def differs(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a != b
    a, b = dimE(a), dimE(b)
    return X.equal(a, b, trials=6) is False
