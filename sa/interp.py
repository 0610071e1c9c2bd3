"""Abstract interpreter for the Python subset the repository is written in.

Trace-time structure (static fields, indices, containers, strings) is followed concretely – this is
binding-time specialisation – while every array or numeric leaf is a value-flow expression.
Conditions on symbolic values never fork the analysis of a whole program: both arms are analysed and
the environments are merged value by value.
"""
import ast, os, operator
from fractions import Fraction as Q
from . import expr as X
from .desugar import desugar
from .expr import E
from .values import *
from . import values as V

REPO = os.environ.get("SA_REPO", "/repo")


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Scope:
    __slots__ = ("vars", "parent", "mod", "glob", "nonl", "qual", "cls", "fn")

    def __init__(self, mod, parent=None, qual="", cls=None):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.glob = set()
        self.nonl = set()
        self.qual = qual
        self.cls = cls
        self.fn = None


PYEXC = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "NotImplementedError",
         "RuntimeError", "AssertionError", "ImportError", "ModuleNotFoundError", "NameError", "ZeroDivisionError",
         "StopIteration", "FileNotFoundError", "OSError", "FileExistsError", "UserWarning", "DeprecationWarning",
         "Warning", "BaseException", "OverflowError", "ArithmeticError", "LookupError", "RecursionError", "UnboundLocalError", "IsADirectoryError", "NotADirectoryError", "PermissionError"}
BUILTINS = {"len", "range", "enumerate", "zip", "tuple", "list", "dict", "set", "frozenset", "isinstance", "issubclass",
            "hasattr", "getattr", "setattr", "print", "sum", "min", "max", "abs", "int", "float", "bool", "str", "repr",
            "type", "sorted", "reversed", "any", "all", "map", "filter", "round", "super", "property", "classmethod",
            "staticmethod", "object", "open", "globals", "callable", "divmod", "pow", "id", "hash", "iter", "next",
            "vars", "dir", "format", "complex", "slice", "bytes", "locals", "input", "exec", "eval", "delattr", "memoryview", "chr", "ord", "ascii", "bin", "hex", "oct", "breakpoint", "compile", "__import__", "bytearray", "help"}
MAXDEPTH = 120


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.effects = []           # (kind, detail, loc)
        self.calls = set()          # qualnames of functions entered
        self.opaque = {}            # qualname -> native replacement f(interp, func, self, args, kw)
        self.depth = 0
        self.hooks = []             # on_call(func, bound) callbacks
        self.steps = 0
        self.maxsteps = 6000000
        self.scans = []
        self.branches = 0
        self.stack = []
        self.merges = []            # (cond, loc) of symbolic conditions
        self.divs = []
        self.lints = []
        self.typechecker = None
        self.swallowed = []          # errors on one arm of a symbolic condition
        self.callsites = set()
        self.concrete = []          # (how, value, loc): array values turned into python values
        self.extcalls = []          # (name, loc) of library calls
        self.extlog = []            # (name, args, kwargs, result or receiver, loc) of calls on unmodelled libraries
        from . import lib
        self.lib = lib

    def conc(self, how, v):
        if isinstance(v, Arr) and v.py is None and not v.np:
            self.concrete.append((how, v, Cur.loc))

    # ------------------------------------------------------------ modules
    def find(self, dotted):
        p = os.path.join(self.repo, *dotted.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p) and dotted.split(".")[0] == "hydraxmpm":
            return None, True
        return None, False

    def module(self, dotted):
        m = self.modules.get(dotted)
        if m is not None:
            return m
        if dotted.startswith("hydraxmpm.") and "hydraxmpm" not in self.modules:
            self.preload()
            if dotted in self.modules:
                return self.modules[dotted]
        path, pkg = self.find(dotted)
        if path is None and not pkg:
            raise PyErr("ModuleNotFoundError", dotted, Cur.loc)
        tree = desugar(ast.parse(open(path).read())) if path else ast.parse("")
        m = Module_(dotted, path, tree, pkg)
        self.modules[dotted] = m
        m.ns["__name__"] = dotted
        m.ns["__file__"] = path
        if dotted == "hydraxmpm":
            # the package initialiser installs import hooks and re-exports; resolve names lazily
            m.lazy = True
            return m
        self.run_module(m)
        return m

    def preload(self):
        """Import the submodules in the order in which the package initialiser names them."""
        m = self.module("hydraxmpm")

        def go(body):
            for st in body:
                if isinstance(st, ast.ImportFrom) and st.level == 1 and st.module:
                    self.module("hydraxmpm." + st.module)
                elif isinstance(st, ast.Try):
                    try:
                        go(st.body)
                    except PyErr:
                        pass
                elif isinstance(st, (ast.With, ast.If)):
                    go(st.body)
        go(m.tree.body)

    def run_module(self, m):
        sc = Scope(m, None, m.name)
        sc.vars = m.ns
        old = Cur.loc
        self.exec_block(m.tree.body, sc)
        Cur.loc = old

    def rel(self, path):
        return os.path.relpath(path, self.repo) if path else "?"

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, sc):
        for k, s in enumerate(stmts):
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unknown("analysis budget exhausted")
            Cur.loc = (self.rel(sc.mod.path), s.lineno, sc.qual)
            if isinstance(s, ast.If):
                c = self.truth(self.ev(s.test, sc))
                if isinstance(c, bool):
                    self.exec_block(s.body if c else s.orelse, sc)
                    continue
                self.sym_if(c, s, stmts[k + 1:], sc)
                return
            self.exec_stmt(s, sc)

    def sym_if(self, c, s, rest, sc):
        """both arms are analysed with the remaining statements, then merged"""
        self.branches += 1
        if self.branches > 400:
            raise Unknown("too many symbolic branches")
        self.merges.append((c, (self.rel(sc.mod.path), s.lineno, sc.qual)))
        conts = self.snapshot(sc)
        outs = []
        for body in (s.body, s.orelse):
            self.restore(conts)
            r = ("fall", None)
            try:
                self.exec_block(body, sc)
            except Ret as x:
                r = ("ret", x.v)
            except Brk:
                r = ("brk", None)
            except Cnt:
                r = ("cnt", None)
            except PyErr as x:
                r = ("err", x)
                if not x.explicit:
                    self.swallowed.append((x.kind, x.msg, x.loc))
            outs.append((r, self.snapshot(sc)))
        (r1, s1), (r2, s2) = outs
        if r1[0] == "err" and r2[0] == "err":
            raise r1[1]
        if r1[0] == "err":          # guarded raise: analysis continues on the other arm
            self.restore(s2)
            return self.finish(r2, rest, sc)
        if r2[0] == "err":
            self.restore(s1)
            return self.finish(r1, rest, sc)
        if r1[0] == "fall" and r2[0] == "fall":
            self.merge_state(c, s1, s2)
            return self.exec_block(rest, sc)
        if r1[0] == r2[0] != "fall":
            self.merge_state(c, s1, s2)
            if r1[0] == "ret":
                raise Ret(self.merge(c, r1[1], r2[1]))
            raise (Brk() if r1[0] == "brk" else Cnt())
        if "ret" in (r1[0], r2[0]) and "fall" in (r1[0], r2[0]):
            fall, snap = (r1, s1) if r1[0] == "fall" else (r2, s2)
            retv = r1[1] if r1[0] == "ret" else r2[1]
            self.restore(snap)
            v = None
            try:
                self.exec_block(rest, sc)
            except Ret as x:
                v = x.v
            raise Ret(self.merge(c, retv, v) if r1[0] == "ret" else self.merge(c, v, retv))
        raise Unknown("break under a symbolic condition")

    def finish(self, r, rest, sc):
        if r[0] == "ret":
            raise Ret(r[1])
        if r[0] == "brk":
            raise Brk()
        if r[0] == "cnt":
            raise Cnt()
        self.exec_block(rest, sc)

    def merge(self, c, a, b):
        def leaf(x, y):
            return ew(lambda p, q, r: X.where(p, q, r), scalar(c), x, y, dt=promote(lift(x), lift(y)))
        if a is b:
            return a
        return tree_merge(leaf, [a, b])

    def containers(self, sc):
        seen = {}

        def go(v, d=0):
            if isinstance(v, (PList, PDict, PSet)) or (isinstance(v, Obj) and not v.frozen):
                if id(v) in seen:
                    return
                seen[id(v)] = v
                for w in (v.items if isinstance(v, (PList, PSet)) else v.d.values() if isinstance(v, PDict) else v.f.values()):
                    go(w)
            elif isinstance(v, tuple):
                for w in v:
                    go(w)
            elif isinstance(v, Obj):
                if id(v) in seen:
                    return
                seen[id(v)] = v
                for w in v.f.values():
                    go(w)
        s = sc
        while s is not None:
            if s.vars is not s.mod.ns:
                for v in list(s.vars.values()):
                    go(v)
            s = s.parent
        return [v for v in seen.values() if not (isinstance(v, Obj) and v.frozen)]

    def snapshot(self, sc):
        conts = []
        for v in self.containers(sc):
            conts.append((v, list(v.items) if isinstance(v, (PList, PSet)) else dict(v.d) if isinstance(v, PDict) else dict(v.f)))
        scopes = []
        s = sc
        while s is not None:
            if s.vars is not s.mod.ns:
                scopes.append((s, dict(s.vars)))
            s = s.parent
        return conts, scopes

    def restore(self, snap):
        for v, st in snap[0]:
            if isinstance(v, (PList, PSet)):
                v.items = list(st)
            elif isinstance(v, PDict):
                v.d = dict(st)
            else:
                v.f = dict(st)
        for s, d in snap[1]:
            s.vars.clear()
            s.vars.update(d)

    def merge_state(self, c, a, b):
        bs = {id(v): st for v, st in b[0]}
        for v, st in a[0]:
            o = bs.get(id(v))
            if o is None:
                continue
            if isinstance(v, (PList, PSet)):
                if len(o) != len(st):
                    raise Unknown("list length depends on a symbolic condition")
                v.items = [self.merge(c, p, q) for p, q in zip(st, o)]
            else:
                d = {}
                for k in list(st) + [k for k in o if k not in st]:
                    if k in st and k in o:
                        d[k] = self.merge(c, st[k], o[k])
                    else:
                        d[k] = st.get(k, o.get(k))
                if isinstance(v, PDict):
                    v.d = d
                else:
                    v.f = d
        for (s, d1), (_, d2) in zip(a[1], b[1]):
            s.vars.clear()
            for k in list(d1) + [k for k in d2 if k not in d1]:
                if k in d1 and k in d2:
                    s.vars[k] = self.merge(c, d1[k], d2[k])
                else:
                    s.vars[k] = Top("assigned on one branch only")

    def exec_stmt(self, s, sc):
        t = type(s)
        if t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, sc)
        elif t is ast.Assign:
            v = self.ev(s.value, sc)
            for tg in s.targets:
                self.assign(tg, v, sc)
        elif t is ast.AnnAssign:
            if isinstance(s.target, ast.Name):
                self.annot(sc, s)
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, sc), sc)
        elif t is ast.AugAssign:
            self.augassign(s, sc)
        elif t is ast.Return:
            raise Ret(self.ev(s.value, sc) if s.value is not None else None)
        elif t is ast.FunctionDef or t is ast.AsyncFunctionDef:
            f = self.mkfunc(s, sc)
            for d in reversed(s.decorator_list):
                f = self.decorate(self.ev(d, sc), f)
            self.setname(s.name, f, sc)
        elif t is ast.ClassDef:
            c = self.mkclass(s, sc)
            for d in reversed(s.decorator_list):
                dv = self.ev(d, sc)
                c = self.decorate(dv, c)
            self.setname(s.name, c, sc)
        elif t is ast.For:
            self.exec_for(s, sc)
        elif t is ast.While:
            n = 0
            while True:
                c = self.truth(self.ev(s.test, sc))
                if not isinstance(c, bool):
                    raise Unknown("while loop on a symbolic condition")
                if not c:
                    self.exec_block(s.orelse, sc)
                    break
                n += 1
                if n > 5000:
                    raise Unknown("while loop bound")
                try:
                    self.exec_block(s.body, sc)
                except Brk:
                    break
                except Cnt:
                    continue
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cnt()
        elif t is ast.Import:
            for a in s.names:
                v = self.import_(a.name)
                if a.asname:
                    self.setname(a.asname, v, sc)
                else:
                    top = a.name.split(".")[0]
                    self.setname(top, self.import_(top), sc)
        elif t is ast.ImportFrom:
            self.import_from(s, sc)
        elif t is ast.Raise:
            self.do_raise(s, sc)
        elif t is ast.Assert:
            c = self.truth(self.ev(s.test, sc))
            if c is False:
                raise PyErr("AssertionError", "", Cur.loc)
        elif t is ast.Try or t.__name__ == "TryStar":
            self.exec_try(s, sc)
        elif t is ast.With:
            for it in s.items:
                v = self.ev(it.context_expr, sc)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, sc)
            self.exec_block(s.body, sc)
        elif t is ast.Global:
            sc.glob |= set(s.names)
        elif t is ast.Nonlocal:
            sc.nonl |= set(s.names)
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    sc.vars.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    o = self.ev(tg.value, sc)
                    k = self.ev(tg.slice, sc)
                    if isinstance(o, PDict):
                        o.d.pop(self.key(k), None)
                    elif isinstance(o, PList):
                        del o.items[native(k)]
                elif isinstance(tg, ast.Attribute):
                    o = self.ev(tg.value, sc)
                    if isinstance(o, Obj):
                        o.f.pop(tg.attr, None)
        elif t is ast.Match:
            raise Unknown("match statement")
        else:
            raise Unknown("statement %s" % t.__name__)

    def annot(self, sc, s):
        if sc.cls is not None and sc.fn is None:
            sc.cls[s.target.id] = s.annotation

    def exec_for(self, s, sc):
        it = self.iterate(self.ev(s.iter, sc))
        brk = False
        for v in it:
            self.assign(s.target, v, sc)
            try:
                self.exec_block(s.body, sc)
            except Brk:
                brk = True
                break
            except Cnt:
                continue
        if not brk:
            self.exec_block(s.orelse, sc)

    def exec_try(self, s, sc):
        try:
            self.exec_block(s.body, sc)
            self.exec_block(s.orelse, sc)
        except PyErr as x:
            for h in s.handlers:
                names = []
                if h.type is None:
                    ok = True
                else:
                    for nn in ast.walk(h.type):
                        if isinstance(nn, ast.Name):
                            names.append(nn.id)
                        elif isinstance(nn, ast.Attribute):
                            names.append(nn.attr)
                    par = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "ModuleNotFoundError": ["ImportError"],
                           "NotImplementedError": ["RuntimeError"], "UnboundLocalError": ["NameError"], "FileNotFoundError": ["OSError"]}
                    kinds = [x.kind] + par.get(x.kind, []) + ["Exception", "BaseException"]
                    ok = any(n in kinds for n in names)
                if ok:
                    if h.name:
                        self.setname(h.name, Top("exception"), sc)
                    self.exec_block(h.body, sc)
                    return
            raise
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, sc)

    def do_raise(self, s, sc):
        try:
            self.raised(s, sc)
        except PyErr as e:
            if e.loc == Cur.loc:
                e.explicit = True
            raise

    def raised(self, s, sc):
        if s.exc is None:
            raise PyErr("Exception", "re-raise", Cur.loc)
        v = self.ev(s.exc, sc)
        if isinstance(v, Obj):
            kind = v.cls.name
            args = ()
            raise PyErr(kind, "", Cur.loc, v)
        if isinstance(v, tuple) and v and v[0] == "exc":
            raise PyErr(v[1], str(v[2][0]) if v[2] else "", Cur.loc, v)
        if isinstance(v, Ext):
            raise PyErr(v.name.split(".")[-1], "", Cur.loc)
        raise PyErr("Exception", "", Cur.loc)

    # ------------------------------------------------------------ assignment
    def setname(self, n, v, sc):
        if n in sc.glob:
            sc.mod.ns[n] = v
            self.effects.append(("global", n, Cur.loc))
        elif n in sc.nonl:
            p = sc.parent
            while p is not None:
                if n in p.vars:
                    p.vars[n] = v
                    return
                p = p.parent
        else:
            sc.vars[n] = v

    def assign(self, tg, v, sc):
        t = type(tg)
        if t is ast.Name:
            self.setname(tg.id, v, sc)
        elif t in (ast.Tuple, ast.List):
            star = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            vs = self.iterate(v, len(tg.elts) if not star else None)
            if star:
                k = star[0]
                after = len(tg.elts) - k - 1
                if len(vs) < len(tg.elts) - 1:
                    raise PyErr("ValueError", "not enough values to unpack", Cur.loc)
                for e, x in zip(tg.elts[:k], vs[:k]):
                    self.assign(e, x, sc)
                self.assign(tg.elts[k].value, PList(vs[k:len(vs) - after]), sc)
                for e, x in zip(tg.elts[k + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, sc)
                return
            if len(vs) != len(tg.elts):
                raise PyErr("ValueError", "unpack %d values into %d targets" % (len(vs), len(tg.elts)), Cur.loc)
            for e, x in zip(tg.elts, vs):
                self.assign(e, x, sc)
        elif t is ast.Attribute:
            self.setattr(self.ev(tg.value, sc), tg.attr, v)
        elif t is ast.Subscript:
            o, k = self.ev(tg.value, sc), self.ev_index(tg.slice, sc)
            if isinstance(o, Arr) and o.py is None:
                self.inplace(o, k, v, sc)
            else:
                self.setitem(o, k, v)
        elif t is ast.Starred:
            self.assign(tg.value, v, sc)
        else:
            raise Unknown("assignment target")

    def inplace(self, o, k, v, sc):
        """element assignment to a numpy array: every visible name of the array is rebound to the updated one"""
        if not o.np:
            if not any(isinstance(x, Ext) and x.name.split(".")[0] == "numpy" for x in sc.mod.ns.values()):
                raise PyErr("TypeError", "jax arrays are immutable: item assignment", Cur.loc)
        new = self.lib.at_method(self, AtRef(o, k if isinstance(k, tuple) else (k,)), "set", [v], {})
        if isinstance(new, Arr):
            new.np = True
        self.effects.append(("inplace", o, Cur.loc))
        s = sc
        while s is not None:
            for q, x in list(s.vars.items()):
                if x is o:
                    s.vars[q] = new
            s = s.parent
        for c in self.containers(sc):
            if isinstance(c, (PList, PSet)):
                c.items = [new if x is o else x for x in c.items]
            elif isinstance(c, PDict):
                c.d = {q: new if x is o else x for q, x in c.d.items()}
            else:
                c.f = {q: new if x is o else x for q, x in c.f.items()}

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if o.frozen and o.cls.is_module():
                raise PyErr("FrozenInstanceError", "assignment to field %s of %s" % (name, o.cls.name), Cur.loc)
            if o.cls.is_module() and name not in self.all_fields(o.cls):
                raise PyErr("AttributeError", "%s has no field %s" % (o.cls.name, name), Cur.loc)
            o.f[name] = v
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            self.effects.append(("classattr", "%s.%s" % (o.name, name), Cur.loc))
            return
        if isinstance(o, Module_):
            o.ns[name] = v
            return
        if isinstance(o, Top):
            return
        if isinstance(o, Ext):
            self.effects.append(("setattr", o.name + "." + name, Cur.loc))
            if isinstance(o, ExtObj):
                o.set[name] = v
            return
        if isinstance(o, Arr):
            raise PyErr("AttributeError", "cannot set attribute of an array", Cur.loc)
        if isinstance(o, Func):
            self.effects.append(("setattr", o.qual + "." + name, Cur.loc))
            return
        raise Unknown("attribute assignment on %s" % type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, PList):
            k = native(k)
            if isinstance(k, Slice):
                o.items[slice(native(k.a), native(k.b), native(k.c))] = self.iterate(v)
                return
            if not isinstance(k, int):
                raise Unknown("symbolic list index")
            if not -len(o.items) <= k < len(o.items):
                raise PyErr("IndexError", "list assignment index out of range", Cur.loc)
            o.items[k] = v
        elif isinstance(o, PDict):
            if o is getattr(self, "environ", None):
                self.effects.append(("environ", k, Cur.loc))
            o.d[self.key(k)] = v
        elif isinstance(o, ExtObj):
            o.items.append((k, v, Cur.loc))
        elif isinstance(o, (Top, Ext)):
            return
        elif isinstance(o, tuple):
            raise PyErr("TypeError", "tuple does not support item assignment", Cur.loc)
        elif isinstance(o, Arr):
            if o.np:
                raise Unknown("in-place numpy assignment")
            raise PyErr("TypeError", "jax arrays are immutable", Cur.loc)
        elif isinstance(o, Obj):
            m = o.cls.lookup("__setitem__")
            if m is None:
                raise PyErr("TypeError", "item assignment on %s" % o.cls.name, Cur.loc)
            self.call(Bound(o, m), [k, v], {})
        else:
            raise Unknown("item assignment on %s" % type(o).__name__)

    def key(self, k):
        k = native(k)
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Arr):
            if k.shape == ():
                return ("sym", k.at().id)
            raise PyErr("TypeError", "unhashable array key", Cur.loc)
        if isinstance(k, (PList, PDict, PSet)):
            raise PyErr("TypeError", "unhashable key", Cur.loc)
        return k

    def augassign(self, s, sc):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, sc)
            v = self.ev(s.value, sc)
            if isinstance(cur, PList) and isinstance(s.op, ast.Add):
                cur.items.extend(self.iterate(v))
                return
            self.setname(tg.id, self.binop(type(s.op), cur, v, s), sc)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, sc)
            cur = self.getattr(o, tg.attr)
            self.setattr(o, tg.attr, self.binop(type(s.op), cur, self.ev(s.value, sc), s))
        else:
            o = self.ev(tg.value, sc)
            k = self.ev_index(tg.slice, sc)
            cur = self.getitem(o, k)
            if isinstance(o, Arr) and o.py is None:
                return self.inplace(o, k, self.binop(type(s.op), cur, self.ev(s.value, sc), s), sc)
            self.setitem(o, k, self.binop(type(s.op), cur, self.ev(s.value, sc), s))

    # ------------------------------------------------------------ functions and classes
    def mkfunc(self, node, sc):
        a = node.args
        defaults = [self.ev(d, sc) for d in a.defaults]
        kwd = {p.arg: self.ev(d, sc) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, "name", "<lambda>")
        return Func(node, sc.mod, sc, (sc.qual + "." if sc.qual else "") + name, defaults, kwd)

    def decorate(self, d, f):
        if isinstance(d, Ext):
            n = d.name
            if n in ("builtins.property", "functools.cached_property"):
                return Prop(f)
            if n == "builtins.classmethod":
                return ClassM(f)
            if n == "builtins.staticmethod":
                return StaticM(f)
            if n in ("typing.overload",):
                return f
            if n.endswith("abstractmethod") or n.endswith("dataclass") or n.endswith("override") or n.endswith("jaxtyped") or n.endswith("final") or n.endswith("named_scope"):
                return f
        return self.call(d, [f], {})

    def mkclass(self, node, sc):
        bases = [self.ev(b, sc) for b in node.bases]
        qual = (sc.qual + "." if sc.qual else "") + node.name
        cs = Scope(sc.mod, sc, qual)
        ann = {}
        cs.cls = ann
        self.exec_block(node.body, cs)
        c = Cls(node.name, bases, cs.vars, sc.mod, node, ann)
        c.qual = qual
        if any(b == "enum.Enum" or b == "enum.StrEnum" or b == "enum.IntEnum" for b in c.ext_bases()):
            c.members, auto = {}, 0
            for k, v in list(cs.vars.items()):
                if isinstance(v, (Func, Prop, ClassM, StaticM, Nat)) or k.startswith("_"):
                    continue
                if isinstance(v, Ext) and v.name.startswith("?enum.auto"):
                    auto += 1
                    v = k.lower() if "enum.StrEnum" in c.ext_bases() else auto
                elif isinstance(v, int):
                    auto = v
                m = Obj(c)
                m.f.update(name=k, value=v, _name_=k, _value_=v)
                m.frozen = True
                c.members[k] = cs.vars[k] = m
        for v in cs.vars.values():
            f = v
            while isinstance(f, (Prop, ClassM, StaticM)):
                f = f.fget if isinstance(f, Prop) else f.func
            if isinstance(f, Func) and f.cls is None:
                f.cls = c
        return c

    def all_fields(self, cls):
        r = {}
        for c in reversed(cls.mro()):
            for k, v in c.ann.items():
                r[k] = (c, v)
        return r

    def fieldspec(self, cls, k):
        for c in cls.mro():
            if k in c.ann:
                v = c.ns.get(k, None)
                if isinstance(v, FieldSpec):
                    return v
                if k in c.ns:
                    return FieldSpec(default=v, has_default=True)
                return FieldSpec()
        return FieldSpec()

    def construct(self, cls, args, kw):
        o = Obj(cls)
        ext = cls.ext_bases()
        if "builtins.list" in ext:
            o = PList([], cls)
            if args:
                o.items = list(self.iterate(args[0]))
            return o
        if any(b.split(".")[-1] in PYEXC for b in ext):
            o.f["args"] = tuple(args)
            return o
        if "typing.NamedTuple" in ext:
            fields = self.all_fields(cls)
            self.auto_init(o, fields, args, kw)
            return NT([o.f[k] for k in fields], cls)
        if any(b.split(".")[0] == "enum" for b in ext):
            if cls.members is not None and len(args) == 1 and not kw:
                for m in cls.members.values():
                    q = self.equals(m.f["value"], args[0])
                    if q is True:
                        return m
                    if q is not False:
                        raise Unknown("enum value")
                raise PyErr("ValueError", "%r is not a valid %s" % (args[0], cls.name), Cur.loc)
            raise Unknown("Enum class")
        init = cls.lookup("__init__")
        if cls.is_module() or self.is_dataclass(cls):
            fields = self.all_fields(cls)
            # an explicit __init__ counts unless a subclass adds fields after it (equinox keeps it too)
            if init is None:
                self.auto_init(o, fields, args, kw)
                if self.typechecker is not None:
                    self.typechecker.fields(cls, o, Cur.loc)
            else:
                self.call(Bound(o, init), args, kw)
                for k in fields:
                    if k not in o.f:
                        sp = self.fieldspec(cls, k)
                        if sp.has_default:
                            o.f[k] = sp.default
                        elif sp.factory is not None:
                            o.f[k] = self.call(sp.factory, [], {})
                        else:
                            raise PyErr("ValueError", "field %s of %s not initialised" % (k, cls.name), Cur.loc)
            for k in fields:
                sp = self.fieldspec(cls, k)
                if sp.converter is not None:
                    o.f[k] = self.call(sp.converter, [o.f[k]], {})
            chk = cls.lookup("__check_init__")
            if chk is not None:
                self.call(Bound(o, chk), [], {})
            if cls.is_module():
                o.frozen = True
            return o
        if init is not None:
            self.call(Bound(o, init), args, kw)
        elif args or kw:
            if not any(b for b in ext if b not in ("builtins.object",)):
                raise PyErr("TypeError", "%s() takes no arguments" % cls.name, Cur.loc)
        return o

    def is_dataclass(self, cls):
        return any("dataclass" in ast.unparse(d) for c in cls.mro() for d in c.node.decorator_list)

    def auto_init(self, o, fields, args, kw):
        names = list(fields)
        cls = o.cls
        if len(args) > len(names):
            raise PyErr("TypeError", "%s() takes %d positional arguments but %d were given" % (cls.name, len(names), len(args)), Cur.loc)
        given = dict(zip(names, args))
        for k, v in kw.items():
            if k not in fields:
                raise PyErr("TypeError", "%s() got an unexpected keyword argument '%s'" % (cls.name, k), Cur.loc)
            if k in given:
                raise PyErr("TypeError", "%s() got multiple values for argument '%s'" % (cls.name, k), Cur.loc)
            given[k] = v
        for k in names:
            if k in given:
                o.f[k] = given[k]
                continue
            sp = self.fieldspec(cls, k)
            if sp.has_default:
                o.f[k] = sp.default
            elif sp.factory is not None:
                o.f[k] = self.call(sp.factory, [], {})
            else:
                raise PyErr("TypeError", "%s() missing required argument '%s'" % (cls.name, k), Cur.loc)

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        name = f.qual
        if len(args) > len(pos) and a.vararg is None:
            raise PyErr("TypeError", "%s() takes %d positional arguments but %d were given" % (name, len(pos), len(args)), Cur.loc)
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        kwo = [p.arg for p in a.kwonlyargs]
        ponly = {p.arg for p in a.posonlyargs}
        extra = {}
        for k, v in kw.items():
            if (k in pos and k not in ponly) or k in kwo:
                if k in out:
                    raise PyErr("TypeError", "%s() got multiple values for argument '%s'" % (name, k), Cur.loc)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyErr("TypeError", "%s() got an unexpected keyword argument '%s'" % (name, k), Cur.loc)
        if a.kwarg is not None:
            out[a.kwarg.arg] = PDict(extra)
        nd = len(f.defaults)
        for k, p in enumerate(pos):
            if p not in out:
                j = k - (len(pos) - nd)
                if j >= 0:
                    out[p] = f.defaults[j]
                else:
                    raise PyErr("TypeError", "%s() missing required argument '%s'" % (name, p), Cur.loc)
        for p in kwo:
            if p not in out:
                if p in f.kwdefaults:
                    out[p] = f.kwdefaults[p]
                else:
                    raise PyErr("TypeError", "%s() missing required keyword-only argument '%s'" % (name, p), Cur.loc)
        return out

    def call_func(self, f, args, kw, self_=None):
        rep = self.opaque.get(f.qual)
        bound = self.bind(f, args, kw)
        if rep is not None:
            return rep(self, f, bound)
        for h in self.hooks:
            h(self, f, bound)
        self.calls.add(f.qual)
        tc = self.typechecker
        dims = tc.enter(f, bound, Cur.loc) if tc is not None else None
        if self.depth > MAXDEPTH:
            raise PyErr("RecursionError", "call depth exceeded in %s" % f.qual, Cur.loc)
        sc = Scope(f.mod, f.closure if f.closure is not None and f.closure.vars is not f.mod.ns else None, f.qual)
        # class scopes are not visible from methods
        p = f.closure
        while p is not None and p.cls is not None and p.fn is None:
            p = p.parent
        sc.parent = p if p is not None and p.vars is not f.mod.ns else None
        sc.fn = f
        sc.vars.update(bound)
        self.depth += 1
        self.stack.append(f.qual)
        old = Cur.loc
        try:
            if isinstance(f.node, ast.Lambda):
                Cur.loc = (self.rel(f.mod.path), f.node.lineno, f.qual)
                return self.ev(f.node.body, sc)
            if is_generator(f.node):
                out = sc.vars["%yield"] = PIter([])
                try:
                    self.exec_block(f.node.body, sc)
                except Ret:
                    pass
                return out
            try:
                self.exec_block(f.node.body, sc)
            except Ret as r:
                if tc is not None:
                    tc.leave(f, r.v, dims)
                return r.v
            if tc is not None:
                tc.leave(f, None, dims)
            return None
        finally:
            self.depth -= 1
            self.stack.pop()
            Cur.loc = old

    def call(self, f, args, kw):
        self.steps += 1
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            fn = f.func
            if isinstance(fn, Func):
                return self.call_func(fn, [f.self_] + list(args), kw, f.self_)
            return self.call(fn, [f.self_] + list(args), kw)
        if isinstance(f, Cls):
            return self.construct(f, list(args), kw)
        if isinstance(f, Nat):
            return f.f(self, list(args), kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.name, list(args), kw, f)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is None:
                raise PyErr("TypeError", "%s object is not callable" % f.cls.name, Cur.loc)
            return self.call(Bound(f, m), args, kw)
        if isinstance(f, StaticM):
            return self.call(f.func, args, kw)
        if isinstance(f, Top):
            return Top("call of unknown: %s" % f.reason)
        if f is None or isinstance(f, (int, float, str, Q, tuple, PList, PDict, Arr, bool)):
            raise PyErr("TypeError", "%s object is not callable" % typename(f), Cur.loc)
        raise Unknown("call of %r" % (f,))

    # ------------------------------------------------------------ names
    def lookup(self, n, sc):
        s = sc
        if n not in sc.glob:
            while s is not None:
                if n in s.vars:
                    return s.vars[n]
                s = s.parent
        if n in sc.mod.ns:
            return sc.mod.ns[n]
        if n in BUILTINS or n in PYEXC:
            return Ext("builtins." + n)
        if n == "__file__":
            return sc.mod.path or ""
        if n in ("NotImplemented",):
            return Top(n)
        kind = "NameError"
        if sc.fn is not None and n in local_names(sc.fn.node):
            kind = "UnboundLocalError"
        raise PyErr(kind, "name '%s' is not defined" % n, Cur.loc)

    def import_(self, dotted):
        if dotted.split(".")[0] == "hydraxmpm":
            return self.module(dotted)
        return self.lib.ext_attr(self, *dotted.rsplit(".", 1)) if "." in dotted else Ext(dotted)

    def import_from(self, s, sc):
        if s.level:
            parts = sc.mod.name.split(".")
            if not sc.mod.pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        if base == "__future__":
            return
        if base.split(".")[0] != "hydraxmpm":
            for a in s.names:
                self.setname(a.asname or a.name, self.lib.ext_attr(self, base, a.name), sc)
            return
        m = self.module(base)
        for a in s.names:
            if a.name == "*":
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.setname(k, v, sc)
                continue
            self.setname(a.asname or a.name, self.mod_attr(m, a.name), sc)

    def mod_attr(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if getattr(m, "lazy", False):
            for st in m.tree.body:
                if isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        if (a.asname or a.name) == name:
                            sc = Scope(m, None, m.name)
                            sc.vars = m.ns
                            one = ast.ImportFrom(module=st.module, names=[a], level=st.level)
                            ast.copy_location(one, st)
                            self.import_from(one, sc)
                            return m.ns[name]
                elif isinstance(st, ast.With):
                    for s2 in st.body:
                        if isinstance(s2, ast.ImportFrom):
                            for a in s2.names:
                                if (a.asname or a.name) == name:
                                    sc = Scope(m, None, m.name)
                                    sc.vars = m.ns
                                    one = ast.ImportFrom(module=s2.module, names=[a], level=s2.level)
                                    ast.copy_location(one, s2)
                                    self.import_from(one, sc)
                                    return m.ns[name]
        p, pkg = self.find(m.name + "." + name)
        if p or pkg:
            return self.module(m.name + "." + name)
        raise PyErr("ImportError", "cannot import name '%s' from '%s'" % (name, m.name), Cur.loc)

    # ------------------------------------------------------------ expressions
    def ev(self, n, sc):
        self.steps += 1
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unknown("expression %s" % type(n).__name__)
        return m(n, sc)

    def ev_Constant(self, n, sc):
        v = n.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            return Q(repr(v))
        return v

    def ev_Name(self, n, sc):
        return self.lookup(n.id, sc)

    def ev_Tuple(self, n, sc):
        return tuple(self.elts(n.elts, sc))

    def ev_List(self, n, sc):
        return PList(self.elts(n.elts, sc))

    def ev_Set(self, n, sc):
        return PSet(self.elts(n.elts, sc))

    def elts(self, es, sc):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.iterate(self.ev(e.value, sc))
            else:
                out.append(self.ev(e, sc))
        return out

    def ev_Dict(self, n, sc):
        d = PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, sc)
                if isinstance(x, PDict):
                    d.d.update(x.d)
                else:
                    raise Unknown("dict unpack")
            else:
                d.d[self.key(self.ev(k, sc))] = self.ev(v, sc)
        return d

    def ev_JoinedStr(self, n, sc):
        out, sym = [], False
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = native(self.ev(v.value, sc))
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev_JoinedStr(v.format_spec, sc)
                    spec = sp if isinstance(sp, str) else ""
                if isinstance(x, (str, int)) and not isinstance(x, bool):
                    try:
                        out.append(format(x, spec))
                    except Exception:
                        raise PyErr("ValueError", "bad format spec", Cur.loc)
                elif isinstance(x, Q):
                    out.append(format(float(x), spec))
                elif x is None:
                    if spec:
                        raise PyErr("TypeError", "unsupported format string passed to NoneType.__format__", Cur.loc)
                    out.append("None")
                elif isinstance(x, Arr) and x.shape == ():
                    from .strs import field
                    out.append(field(x, spec))
                    sym = True
                else:
                    out.append(x)
                    sym = True
        return SymStr(out, "") if sym else "".join(out)

    def ev_FormattedValue(self, n, sc):
        return self.ev(n.value, sc)

    def ev_Lambda(self, n, sc):
        return self.mkfunc(n, sc)

    def ev_IfExp(self, n, sc):
        c = self.truth(self.ev(n.test, sc))
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse, sc)
        return self.merge(c, self.ev(n.body, sc), self.ev(n.orelse, sc))

    def ev_BoolOp(self, n, sc):
        isand = isinstance(n.op, ast.And)
        acc = None
        for k, v in enumerate(n.values):
            x = self.ev(v, sc)
            c = self.truth(x)
            if isinstance(c, bool):
                if acc is None:
                    if c != isand:
                        return x
                    if k == len(n.values) - 1:
                        return x
                    continue
                if c != isand:
                    return not isand
                continue
            acc = c if acc is None else (X.and_(acc, c) if isand else X.or_(acc, c))
        return scalar(acc, "b") if acc is not None else x

    def ev_UnaryOp(self, n, sc):
        v = self.ev(n.operand, sc)
        if isinstance(v, Top):
            return v
        if isinstance(n.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else scalar(X.not_(c), "b")
        if isinstance(n.op, ast.USub):
            if isnum(v):
                return -v
            if isinstance(v, Obj):
                return self.dunder(v, "__neg__")
            return ew(X.neg, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, bool):
                return ~v
            if isinstance(v, int):
                return ~v
            a = lift(v)
            if a.dt != "b":
                raise Unknown("bitwise not")
            return ew(X.not_, a)
        raise Unknown("unary op")

    def dunder(self, o, name, *args):
        m = o.cls.lookup(name)
        if m is None:
            raise PyErr("TypeError", "%s does not support %s" % (o.cls.name, name), Cur.loc)
        return self.call(Bound(o, m), list(args), {})

    def ev_BinOp(self, n, sc):
        return self.binop(type(n.op), self.ev(n.left, sc), self.ev(n.right, sc), n)

    def binop(self, op, a, b, node=None):
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if op is ast.BitOr and (is_typeval(a) or is_typeval(b)):
            return Union_((a.alts if isinstance(a, Union_) else [a]) + (b.alts if isinstance(b, Union_) else [b]))
        a, b = native0(a), native0(b)
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            if op is ast.Add and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op is ast.Mod and isinstance(a, str):
                bs = list(b) if isinstance(b, tuple) else [b]
                if all(isinstance(x, (str, int)) for x in bs):
                    try:
                        return a % tuple(bs)
                    except (TypeError, ValueError) as e:
                        raise PyErr(type(e).__name__, str(e), Cur.loc)
                return SymStr([a] + bs, "printf")
            if op is ast.Mult and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op is ast.Mult and isinstance(b, str) and isinstance(a, int):
                return a * b
            if op is ast.Add and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return SymStr([a, b], "")
            if op is ast.Div and (isinstance(a, SymStr) and a.path or isinstance(b, SymStr) and b.path):
                return SymStr([a, b], "/", True)
            if op is ast.Add or op is ast.Mod:
                return SymStr([a, b], "") if op is ast.Add and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) else Top("string operation")
            raise PyErr("TypeError", "unsupported operand types for %s: %s and %s" % (op.__name__, typename(a), typename(b)), Cur.loc)
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Top("operator on external object")
        if isinstance(a, Obj) or isinstance(b, Obj):
            names = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.MatMult: "__matmul__"}
            nm = names.get(op)
            if isinstance(a, Obj) and nm and a.cls.lookup(nm):
                return self.dunder(a, nm, b)
            if isinstance(b, Obj) and nm and b.cls.lookup("__r" + nm[2:]):
                return self.dunder(b, "__r" + nm[2:], a)
            raise PyErr("TypeError", "unsupported operand types for %s: %s and %s" % (op.__name__, typename(a), typename(b)), Cur.loc)
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
            return a + b
        if isinstance(a, PList) and isinstance(b, PList) and op is ast.Add:
            return PList(a.items + b.items)
        if isinstance(a, PList) and isinstance(b, (int, Arr)) and op is ast.Mult and not isinstance(b, bool) and (isinstance(b, int) or b.py == "int"):
            if not isinstance(b, int):
                return Top("list repetition by a symbolic count")
            return PList(a.items * b)
        if isinstance(a, tuple) and isinstance(b, int) and op is ast.Mult:
            return a * b
        if isinstance(b, (tuple, PList)) and isinstance(a, int) and op is ast.Mult:
            return b * a if isinstance(b, tuple) else PList(b.items * a)
        if isinstance(a, PSet) and isinstance(b, PSet):
            if op is ast.BitOr:
                return PSet(a.items + b.items)
            if op is ast.BitAnd:
                return PSet([x for x in a.items if x in b.items])
            if op is ast.Sub:
                return PSet([x for x in a.items if x not in b.items])
        if isinstance(a, PDict) and isinstance(b, PDict) and op is ast.BitOr:
            d = dict(a.d)
            d.update(b.d)
            return PDict(d)
        if a is None or b is None or isinstance(a, (PDict, PSet, Func, Bound, Cls)) or isinstance(b, (PDict, PSet, Func, Bound, Cls)):
            raise PyErr("TypeError", "unsupported operand types for %s: %s and %s" % (op.__name__, typename(a), typename(b)), Cur.loc)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (tuple, PList)) and not isinstance(y, Arr):
                raise PyErr("TypeError", "unsupported operand types for %s: %s and %s" % (op.__name__, typename(a), typename(b)), Cur.loc)
            if isinstance(x, PList) and isinstance(y, Arr) and y.py is None and not y.np:
                # jax arrays refuse list operands
                raise PyErr("TypeError", "unsupported operand type list for jax array %s" % op.__name__, Cur.loc)
            if isinstance(x, tuple) and isinstance(y, Arr) and y.py is None and not y.np:
                raise PyErr("TypeError", "unsupported operand type tuple for jax array %s" % op.__name__, Cur.loc)
        # numbers
        if isinstance(a, (int, Q, bool)) and isinstance(b, (int, Q, bool)):
            try:
                if op is ast.Add:
                    return a + b
                if op is ast.Sub:
                    return a - b
                if op is ast.Mult:
                    return a * b
                if op is ast.Div:
                    return Q(a) / Q(b)
                if op is ast.FloorDiv:
                    r = a // b
                    return r if isinstance(a, int) and isinstance(b, int) else Q(r)
                if op is ast.Mod:
                    return a % b
                if op is ast.Pow:
                    if isinstance(b, int) or b.denominator == 1:
                        if isinstance(a, int) and isinstance(b, int) and b >= 0:
                            return a ** b
                        return Q(a) ** int(b)
                    e = X.power(X.C(a), X.C(b))
                    return scalar(e, "f", "float") if not X.isc(e) else X.cval(e)
                if op is ast.BitAnd:
                    return a & b
                if op is ast.BitOr:
                    return a | b
                if op is ast.BitXor:
                    return a ^ b
                if op is ast.LShift:
                    return a << b
                if op is ast.RShift:
                    return a >> b
            except ZeroDivisionError:
                raise PyErr("ZeroDivisionError", "division by zero", Cur.loc)
            except TypeError as x:
                raise PyErr("TypeError", str(x), Cur.loc)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float, Q)) and isinstance(b, (int, float, Q)):
                o = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv}.get(op)
                if o:
                    return o(float(a), float(b))
        return self.arr_binop(op, a, b)

    def arr_binop(self, op, a, b):
        a, b = lift(a), lift(b)
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if op is ast.Add:
            if a.dt == "b" and b.dt == "b":
                return ew(X.or_, a, b)
            return ew(X.add, a, b)
        if op is ast.Sub:
            return ew(X.sub, a, b)
        if op is ast.Mult:
            if a.dt == "b" and b.dt == "b":
                return ew(X.and_, a, b)
            return ew(X.mul, a, b)
        if op is ast.Div:
            r = ew(X.div, a, b, dt="f")
            if isinstance(r, Arr):
                if r.py == "int":
                    r.py = "float"
                self.divs.append((a, b, Cur.loc, r))
            return r
        if op is ast.Pow:
            return ew(X.power, a, b)
        if op is ast.FloorDiv:
            return ew(X.floordiv, a, b)
        if op is ast.Mod:
            return ew(X.mod, a, b)
        if op is ast.MatMult:
            return matmul(a, b)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if a.dt == "b" and b.dt == "b":
                if op is ast.BitAnd:
                    return ew(X.and_, a, b)
                if op is ast.BitOr:
                    return ew(X.or_, a, b)
                return ew(lambda p, q: X.or_(X.and_(p, X.not_(q)), X.and_(q, X.not_(p))), a, b)
            if a.dt == "f" or b.dt == "f":
                raise PyErr("TypeError", "bitwise operator on floats", Cur.loc)
            return Top("bitwise")
        return Top("operator %s" % op.__name__)

    def ev_Compare(self, n, sc):
        l = self.ev(n.left, sc)
        res = None
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r, sc)
            v = self.compare(type(op), l, rv)
            if len(n.ops) == 1:
                return v
            c = self.truth(v)
            if c is False:
                return False
            if c is not True:
                res = c if res is None else X.and_(res, c)
            l = rv
        return True if res is None else scalar(res, "b")

    def compare(self, op, a, b):
        a, b = native(a), native(b)
        if op in (ast.Is, ast.IsNot):
            r = None
            if a is None or b is None:
                o = b if a is None else a
                if isinstance(o, Top):
                    return Top("is None of unknown")
                r = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, (Cls, Ext)) or isinstance(b, (Cls, Ext)):
                r = a is b or a == b
            elif isinstance(a, Top) or isinstance(b, Top):
                return Top("is")
            elif isinstance(a, Arr) != isinstance(b, Arr):
                r = False
            else:
                r = a is b
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if op is ast.In else not r
            if isinstance(r, Top):
                return r
            return scalar(r if op is ast.In else X.not_(r), "b")
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if op in (ast.Eq, ast.NotEq):
            r = self.equals(a, b)
            if isinstance(r, bool):
                return r if op is ast.Eq else not r
            if isinstance(r, Top):
                return r
            return r if op is ast.Eq else ew(X.not_, r, dt="b")
        if isinstance(a, (int, float, Q)) and isinstance(b, (int, float, Q)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        if a is None or b is None or isinstance(a, (str, Obj)) or isinstance(b, (str, Obj)):
            raise PyErr("TypeError", "ordering comparison of %s and %s" % (typename(a), typename(b)), Cur.loc)
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Top("comparison with external object")
        f = {ast.Lt: X.lt, ast.LtE: X.le, ast.Gt: X.gt, ast.GtE: X.ge}[op]
        return ew(f, a, b, dt="b")

    def equals(self, a, b):
        a, b = native(a), native(b)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("equality with unknown")
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, (str, Obj, Cls)) or isinstance(b, (str, Obj, Cls)):
                return False
            if isinstance(a, tuple) or isinstance(b, tuple):
                return False
            return ew(X.eq, a, b, dt="b")
        if isinstance(a, (tuple, PList)) and type(a) is type(b):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            if len(xs) != len(ys):
                return False
            acc = X.TRUE
            for x, y in zip(xs, ys):
                r = self.equals(x, y)
                if isinstance(r, Top):
                    return r
                if isinstance(r, Arr):
                    r = r.at()
                acc = X.and_(acc, X.toE(r))
            return native(scalar(acc, "b"))
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return Top("string equality")
        if isinstance(a, PDict) and isinstance(b, PDict):
            return Top("dict equality")
        if isinstance(a, Ext) or isinstance(b, Ext):
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a == b
            return Top("equality with external") if not isinstance(a, (Cls, str)) and not isinstance(b, (Cls, str)) else False
        try:
            return bool(a == b)
        except Exception:
            return Top("equality")

    def contains(self, c, x):
        if isinstance(c, Top):
            return c
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return Top("in string")
        if isinstance(c, PDict):
            return self.key(x) in c.d
        if isinstance(c, Ext):
            return Top("in external")
        acc = X.FALSE
        for y in self.iterate(c):
            r = self.equals(x, y)
            if isinstance(r, Top):
                return r
            if isinstance(r, Arr):
                if r.shape != ():
                    return Top("in")
                r = r.at()
            acc = X.or_(acc, X.toE(r))
        if acc.op == "b":
            return acc.args[0]
        return acc

    def truth(self, v):
        """bool or E"""
        self.conc("python condition", v)
        v = native(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Q, str)):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PIter):
            return True
        if isinstance(v, (PList, PSet)):
            return bool(v.items)
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, Arr):
            if v.shape == () or all(same_dim(d, 1) for d in v.shape):
                e = X.asbool(v.at(*[X.ZERO] * v.ndim))
                if e.op == "b":
                    return e.args[0]
                if e.top:
                    raise Unknown("branch on unknown value: %s" % X.show(e, 80))
                return e
            raise PyErr("ValueError", "truth value of an array is ambiguous", Cur.loc)
        if isinstance(v, Obj):
            m = v.cls.lookup("__bool__") or v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(Bound(v, m), [], {}))
            return True
        if isinstance(v, Top):
            raise Unknown("branch on unknown value: %s" % v.reason)
        if isinstance(v, SymStr):
            return True
        if isinstance(v, Ext) and v.name.startswith("?"):
            raise Unknown("branch on external value")
        return True

    def ev_Call(self, n, sc):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return SuperRef(self.find_cls(sc), sc_self(sc))
        f = self.ev(n.func, sc)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, sc))
            elif isinstance(a, ast.GeneratorExp):
                args.append(PIter(self.comp(a, sc)))
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, sc)
                if isinstance(v, PDict):
                    for kk, vv in v.d.items():
                        if kk in kw:
                            raise PyErr("TypeError", "multiple values for keyword '%s'" % kk, Cur.loc)
                        kw[kk] = vv
                else:
                    raise Unknown("** of unknown mapping")
            else:
                kw[k.arg] = self.ev(k.value, sc)
        old = Cur.loc
        Cur.loc = (self.rel(sc.mod.path), n.lineno, sc.qual)
        self.callsites.add((self.rel(sc.mod.path), n.lineno, n.col_offset))
        if isinstance(f, Ext) and f.name == "builtins.locals":
            return PDict(dict(sc.vars))
        if isinstance(f, Ext) and f.name == "builtins.globals":
            d = PDict()
            d.d = sc.mod.ns
            self.effects.append(("globals", "", Cur.loc))
            return d
        r = self.call(f, args, kw)
        Cur.loc = old
        return r

    def find_cls(self, sc):
        s = sc
        while s is not None:
            if s.fn is not None and s.fn.cls is not None:
                return s.fn.cls
            s = s.parent
        raise Unknown("super() outside class")

    def ev_GeneratorExp(self, n, sc):
        return PIter(self.comp(n, sc))

    def ev_Yield(self, n, sc):
        v = self.ev(n.value, sc) if n.value is not None else None
        self.lookup("%yield", sc).items.append(v)
        return Top("value sent to a generator")

    def ev_YieldFrom(self, n, sc):
        self.lookup("%yield", sc).items.extend(self.iterate(self.ev(n.value, sc)))
        return Top("value of a generator")

    def ev_ListComp(self, n, sc):
        return PList(self.comp(n, sc))

    def ev_SetComp(self, n, sc):
        return PSet(self.comp(n, sc))

    def ev_DictComp(self, n, sc):
        d = PDict()
        s2 = Scope(sc.mod, sc, sc.qual)
        s2.fn = sc.fn

        def go(k):
            if k == len(n.generators):
                d.d[self.key(self.ev(n.key, s2))] = self.ev(n.value, s2)
                return
            g = n.generators[k]
            for v in self.iterate(self.ev(g.iter, s2)):
                self.assign(g.target, v, s2)
                if all(self.ctruth(self.ev(c, s2)) for c in g.ifs):
                    go(k + 1)
        go(0)
        return d

    def ctruth(self, v):
        c = self.truth(v)
        if not isinstance(c, bool):
            raise Unknown("symbolic filter in comprehension")
        return c

    def comp(self, n, sc):
        out = []
        s2 = Scope(sc.mod, sc, sc.qual)
        s2.fn = sc.fn

        def go(k):
            if k == len(n.generators):
                out.append(self.ev(n.elt, s2))
                return
            g = n.generators[k]
            for v in self.iterate(self.ev(g.iter, s2)):
                self.assign(g.target, v, s2)
                if all(self.ctruth(self.ev(c, s2)) for c in g.ifs):
                    go(k + 1)
        go(0)
        return out

    def ev_NamedExpr(self, n, sc):
        v = self.ev(n.value, sc)
        self.setname(n.target.id, v, sc)
        return v

    def ev_Starred(self, n, sc):
        return tuple(self.iterate(self.ev(n.value, sc)))

    def ev_Attribute(self, n, sc):
        v = self.ev(n.value, sc)
        return self.getattr(v, n.attr)

    def ev_index(self, n, sc):
        if isinstance(n, ast.Slice):
            return Slice(*[self.ev(x, sc) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.iterate(self.ev(e.value, sc))
                else:
                    out.append(self.ev_index(e, sc))
            return tuple(out)
        return self.ev(n, sc)

    def ev_Slice(self, n, sc):
        return self.ev_index(n, sc)

    def ev_Subscript(self, n, sc):
        o = self.ev(n.value, sc)
        if is_typeval(o):
            if isinstance(o, Ext) and o.name.split(".")[0] == "jaxtyping":
                sl = n.slice
                spec = ""
                if isinstance(sl, ast.Tuple) and len(sl.elts) == 2 and isinstance(sl.elts[1], ast.Constant):
                    spec = sl.elts[1].value
                return JT(o.name.split(".")[-1], spec)
            if isinstance(o, Ext) and o.name.endswith(".Optional"):
                return Union_([self.ev(n.slice, sc), None])
            if isinstance(o, Ext) and o.name.endswith(".Union"):
                v = self.ev(n.slice, sc)
                return Union_(list(v) if isinstance(v, tuple) else [v])
            if isinstance(o, (Ext, Cls)) and (not isinstance(o, Ext) or o.name.split(".")[0] in ("typing", "typing_extensions", "builtins", "collections", "jaxtyping", "jax")):
                return o
        return self.getitem(o, self.ev_index(n.slice, sc))

    # ------------------------------------------------------------ access
    def getitem(self, o, k):
        if isinstance(o, Top):
            return o
        if isinstance(o, Path):
            return Path(o.base, o.steps + (("i", native(k)),))
        if isinstance(o, PIter):
            raise PyErr("TypeError", "an iterator is not subscriptable", Cur.loc)
        if isinstance(o, (tuple, PList)):
            xs = tuple(o) if isinstance(o, tuple) else o.items
            k = native(k)
            if isinstance(k, Slice):
                a, b, c = native(k.a), native(k.b), native(k.c)
                for x in (a, b, c):
                    self.conc("slice of a sequence", x)
                if not all(x is None or isinstance(x, int) for x in (a, b, c)):
                    raise Unknown("symbolic list slice")
                r = xs[slice(a, b, c)]
                return r if isinstance(o, tuple) else PList(r)
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if not -len(xs) <= k < len(xs):
                    raise PyErr("IndexError", "index %d out of range for sequence of length %d" % (k, len(xs)), Cur.loc)
                return xs[k]
            if isinstance(k, Arr):
                self.conc("index of a sequence", k)
                raise Unknown("sequence indexed by a symbolic value")
            if isinstance(k, Top):
                return Top("unknown index")
            raise PyErr("TypeError", "sequence indices must be integers, not %s" % typename(k), Cur.loc)
        if isinstance(o, PDict):
            k = self.key(k)
            if k in o.d:
                return o.d[k]
            if any(isinstance(q, tuple) and q and q[0] == "sym" for q in o.d) or (isinstance(k, tuple) and k and k[0] == "sym"):
                raise Unknown("symbolic dict key")
            raise PyErr("KeyError", repr(k), Cur.loc)
        if isinstance(o, Arr):
            if o.py is not None:
                raise PyErr("TypeError", "'%s' object is not subscriptable" % o.py, Cur.loc)
            for x in (k if isinstance(k, tuple) else (k,)):
                if isinstance(x, Arr) and x.dt == "b" and x.ndim:
                    self.conc("boolean mask index", x)
                elif isinstance(x, Slice):
                    for y in (x.a, x.b, x.c):
                        self.conc("slice bound", y)
            return getitem(o, k)
        if isinstance(o, str):
            k = native(k)
            if isinstance(k, Slice):
                return o[slice(native(k.a), native(k.b), native(k.c))]
            if isinstance(k, int):
                return o[k]
            raise Unknown("string index")
        if isinstance(o, AtRef) and o.index is None:
            return AtRef(o.arr, (k,))
        if isinstance(o, Ext):
            if o.name.startswith("jax.numpy.") or o.name.startswith("numpy."):
                return self.lib.ext_getitem(self, o.name, k)
            return Ext("?" + o.name + "[]")
        if isinstance(o, Obj):
            m = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(Bound(o, m), [k], {})
            raise PyErr("TypeError", "'%s' object is not subscriptable" % o.cls.name, Cur.loc)
        if o is None or isinstance(o, (int, Q, bool, Func, Bound, PSet, Partial, Nat)):
            raise PyErr("TypeError", "'%s' object is not subscriptable" % typename(o), Cur.loc)
        if isinstance(o, Cls):
            if o.members is not None and isinstance(k, str):
                if k not in o.members:
                    raise PyErr("KeyError", repr(k), Cur.loc)
                return o.members[k]
            return o
        raise Unknown("subscript of %s" % type(o).__name__)

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.f:
                return o.f[name]
            m = o.cls.lookup(name)
            if m is None:
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    d = PDict()
                    d.d = o.f
                    return d
                ga = o.cls.lookup("__getattr__")
                if ga is not None:
                    return self.call(Bound(o, ga), [name], {})
                if name in ("__init__",):
                    return Nat(lambda it, a, k: None, "object.__init__")
                ext = [b for b in o.cls.ext_bases() if not b.endswith("equinox.Module") and b not in ("builtins.object", "abc.ABC")]
                if ext:
                    return Top("attribute %s of external base %s" % (name, ext[0]))
                raise PyErr("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name), Cur.loc)
            if isinstance(m, Func):
                return Bound(o, m)
            if isinstance(m, Prop):
                return self.call(m.fget, [o], {})
            if isinstance(m, ClassM):
                return Bound(o.cls, m.func)
            if isinstance(m, StaticM):
                return m.func
            if isinstance(m, FieldSpec):
                if m.has_default:
                    return m.default
                raise PyErr("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name), Cur.loc)
            if isinstance(m, (Nat, Partial)) or (isinstance(m, Bound)):
                return Bound(o, m) if isinstance(m, Nat) else m
            return m
        if isinstance(o, Path):
            return Path(o.base, o.steps + (("a", name),))
        if isinstance(o, Arr):
            return self.lib.arr_attr(self, o, name)
        if isinstance(o, Module_):
            return self.mod_attr(o, name)
        if isinstance(o, ExtObj):
            if name in o.set:
                return o.set[name]
            if name not in o.attrs:
                o.attrs[name] = ExtObj(o.name + "." + name, parent=o)
            return o.attrs[name]
        if isinstance(o, Ext):
            return self.lib.ext_attr(self, o.name, name)
        if isinstance(o, NT):
            names = list(self.all_fields(o.nt))
            if name in names:
                return o[names.index(name)]
            if name == "_fields":
                return tuple(names)
            if name == "_asdict":
                return Nat(lambda it, a, k: PDict(zip(names, o)), name)
            if name == "_replace":
                def rep(it, a, k):
                    for q in k:
                        if q not in names:
                            raise PyErr("ValueError", "unexpected field name '%s'" % q, Cur.loc)
                    return NT([k.get(q, v) for q, v in zip(names, o)], o.nt)
                return Nat(rep, name)
            m = o.nt.lookup(name)
            if isinstance(m, Func):
                return Bound(o, m)
            if isinstance(m, Prop):
                return self.call(m.fget, [o], {})
            if isinstance(m, ClassM):
                return Bound(o.nt, m.func)
            if isinstance(m, StaticM):
                return m.func
            if name == "__class__":
                return o.nt
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            if "typing.NamedTuple" in o.ext_bases():
                if name == "_fields":
                    return tuple(self.all_fields(o))
                if name == "_make":
                    return Nat(lambda it, a, k: it.construct(o, it.iterate(a[0]), {}), name)
            if name == "__members__" and o.members is not None:
                return PDict(o.members)
            m = o.lookup(name)
            if m is None:
                if hasattr(type, name):
                    return Top("class attribute " + name)
                if [b for b in o.ext_bases() if not b.endswith("equinox.Module") and b not in ("builtins.object", "abc.ABC", "typing.NamedTuple")]:
                    return Top("class attribute " + name)
                if name in ("__new__", "__init__"):
                    return Top(name)
                if name in ("__doc__", "__module__", "__qualname__"):
                    return o.name
                raise PyErr("AttributeError", "class %s has no attribute '%s'" % (o.name, name), Cur.loc)
            if isinstance(m, ClassM):
                return Bound(o, m.func)
            if isinstance(m, StaticM):
                return m.func
            if isinstance(m, FieldSpec) and m.has_default:
                return m.default
            return m
        if isinstance(o, SuperRef):
            return self.super_attr(o, name)
        if isinstance(o, Top):
            return Top("attribute of unknown: %s" % o.reason)
        if isinstance(o, AtRef):
            return Nat(lambda it, a, k: it.lib.at_method(it, o, name, a, k), "at." + name)
        if isinstance(o, (PList, PDict, PSet, tuple, str, SymStr)):
            return self.lib.container_attr(self, o, name)
        if isinstance(o, (int, Q, bool, float)):
            return self.lib.num_attr(self, o, name)
        if isinstance(o, (Func, Bound, Nat, Partial)):
            if name == "__name__":
                f = o.func if isinstance(o, Bound) else o
                return getattr(f, "name", "f")
            if name in ("__doc__", "__wrapped__", "lower", "__qualname__") or hasattr(native0, name) or isinstance(o, (Nat, Partial)):
                return Top(name)
            raise PyErr("AttributeError", "function has no attribute '%s'" % name, Cur.loc)
        if o is None:
            raise PyErr("AttributeError", "'NoneType' object has no attribute '%s'" % name, Cur.loc)
        if isinstance(o, FieldSpec):
            return Top("field spec")
        raise Unknown("attribute %s of %s" % (name, type(o).__name__))

    def super_attr(self, o, name):
        self_ = o.self_
        cls = self_.cls if isinstance(self_, Obj) else self_
        mro = cls.mro()
        k = mro.index(o.cls)
        for c in mro[k + 1:]:
            if name in c.ns:
                m = c.ns[name]
                if isinstance(m, Func):
                    return Bound(self_, m)
                if isinstance(m, Prop):
                    return self.call(m.fget, [self_], {})
                if isinstance(m, ClassM):
                    return Bound(self_ if isinstance(self_, Cls) else self_.cls, m.func)
                if isinstance(m, StaticM):
                    return m.func
                return m
        if name == "__init__":
            # automatic initialiser of the nearest base with fields
            def init(it, a, k2):
                base = mro[k + 1:]
                fields = {}
                for c in reversed(base):
                    for kk, v in c.ann.items():
                        fields[kk] = (c, v)
                if a or k2:
                    it.auto_init(self_, fields, a, k2)
                else:
                    for kk in fields:
                        sp = it.fieldspec(cls, kk)
                        if kk not in self_.f and sp.has_default:
                            self_.f[kk] = sp.default
            return Nat(init, "super.__init__")
        raise PyErr("AttributeError", "super object has no attribute '%s'" % name, Cur.loc)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, n=None):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PIter):
            xs, v.items = v.items, []
            return xs
        if isinstance(v, (PList, PSet)):
            return list(v.items)
        if isinstance(v, PDict):
            return list(v.d.keys())
        if isinstance(v, Cls) and v.members is not None:
            return list(v.members.values())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Arr):
            if not v.shape:
                raise PyErr("TypeError", "iteration over a 0-d array", Cur.loc)
            d = v.shape[0]
            if not isinstance(d, int):
                raise Unknown("iteration over an array of symbolic length")
            return [getitem(v, k) for k in range(d)]
        if isinstance(v, Top):
            if n is not None:
                return [Top(v.reason) for _ in range(n)]
            raise Unknown("iteration over unknown: %s" % v.reason)
        if isinstance(v, Path):
            raise Unknown("iteration over a selected path")
        if isinstance(v, Obj):
            m = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(Bound(v, m), [], {}))
            raise PyErr("TypeError", "'%s' object is not iterable" % v.cls.name, Cur.loc)
        if isinstance(v, Ext):
            if n is not None:
                return [Ext("?" + v.name + "[%d]" % k) for k in range(n)]
            raise Unknown("iteration over external %s" % v.name)
        if v is None or isinstance(v, (int, Q, bool)):
            raise PyErr("TypeError", "'%s' object is not iterable" % typename(v), Cur.loc)
        raise Unknown("iteration over %s" % type(v).__name__)


class SuperRef:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SymStr:
    """string with unknown parts"""

    def __init__(self, parts, spec, path=False):
        self.parts, self.spec, self.path = parts, spec, path

    def __repr__(self):
        from .strs import norm, text
        return "'%s'" % text(norm(self))


def native0(x):
    """constants of python scalars fold to numbers; traced constants stay arrays"""
    if isinstance(x, Arr) and x.py is not None:
        return native(x)
    return x


def sc_self(sc):
    s = sc
    while s is not None:
        if s.fn is not None and s.fn.cls is not None:
            a = s.fn.node.args
            p = (a.posonlyargs + a.args)
            if p:
                return s.vars.get(p[0].arg)
        s = s.parent
    raise Unknown("super() without self")


def is_typeval(v):
    return isinstance(v, (JT, Union_, Cls)) or (isinstance(v, Ext) and (v.name.split(".")[0] in ("jaxtyping", "typing", "typing_extensions")
                     or v.name in ("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.tuple", "builtins.list", "builtins.dict", "builtins.set", "builtins.type", "jax.Array")))


def typename(v):
    if v is None:
        return "NoneType"
    if isinstance(v, Obj):
        return v.cls.name
    if isinstance(v, Arr):
        return v.py or "Array"
    if isinstance(v, Q):
        return "float"
    return {"PList": "list", "PDict": "dict", "PSet": "set", "Func": "function", "Bound": "method"}.get(type(v).__name__, type(v).__name__)


_loc = {}


def local_names(node):
    r = _loc.get(node)
    if r is None:
        r = set()
        if not isinstance(node, ast.Lambda):
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
        _loc[node] = r
    return r


_gen = {}


def is_generator(node):
    r = _gen.get(node)
    if r is None:
        r = False
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            st.extend(ast.iter_child_nodes(n))
        _gen[node] = r
    return r
