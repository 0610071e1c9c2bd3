"""Structural lints over the whole package: name resolution, unbound locals, members of self and of annotated receivers,
call arity against resolved callees, and hook families.  Each rule reports only definite errors."""
import ast
import builtins
import symtable

from . import ext
from .values import Cls, ClassM, Cur, Ext, Func, Prop, PyErr, StaticM, Unknown, Module_, JT, Union_

OBJ = set(dir(object)) | {"__dict__", "__name__", "__qualname__", "__module__", "__annotations__", "__wrapped__", "__self__"}


class Lints:
    def __init__(self, it):
        self.it = it
        self.out = []           # (rule, subject, ok, msg, loc)
        self.count = {}
        for d in self.all_modules():
            self.it.module(d)
        self.mods = {d: m for d, m in it.modules.items() if m.tree is not None and m.path}
        self.classes = []
        for d, m in self.mods.items():
            for v in m.ns.values():
                if isinstance(v, Cls) and v.mod is m and v not in self.classes:
                    self.classes.append(v)

    def all_modules(self):
        import os
        base = self.it.repo
        r = []
        for p, ds, fs in os.walk(os.path.join(base, "hydraxmpm")):
            for f in sorted(fs):
                if f.endswith(".py") and not f.startswith("test_"):
                    d = os.path.relpath(os.path.join(p, f), base)[:-3].replace(os.sep, ".")
                    r.append(d[:-9] if d.endswith(".__init__") else d)
        return sorted(r)

    def ob(self, rule, subj, ok, msg, mod, node, fn=""):
        self.count[rule] = self.count.get(rule, 0) + 1
        if not ok:
            self.out.append((rule, subj, msg, (self.it.rel(mod.path), getattr(node, "lineno", 0), fn)))

    def run(self):
        for d, m in sorted(self.mods.items()):
            if d == "hydraxmpm":
                self.exports(m)
                continue
            self.names(m)
            self.unbound(m)
            self.members(m)
            self.calls(m)
            self.external(m)
        return self

    # ------------------------------------------------------------- exports
    def exports(self, m):
        """every name the package re-exports exists in the module it is taken from"""
        for st in ast.walk(m.tree):
            if isinstance(st, ast.ImportFrom) and st.level == 1 and st.module:
                for a in st.names:
                    if a.name == "*":
                        continue
                    try:
                        self.it.mod_attr(self.it.module("hydraxmpm." + st.module), a.name)
                        ok = True
                    except PyErr as e:
                        ok = False
                    self.ob("exported names exist", "%s.%s" % (st.module, a.name), ok, "cannot be imported", m, st)

    # ------------------------------------------------------------- names
    def module_names(self, m):
        r = set()
        star = False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                r.update(n.names)

        def go(body):
            nonlocal star
            for st in body:
                for n in own(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        r.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        r.add(n.name)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        r.add(n.name)
                    elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        r.add(n.name)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        for a in n.names:
                            if a.name == "*":
                                star = True
                            r.add(a.asname or a.name.split(".")[0])
        go(m.tree.body)
        return (r | set(m.ns)), star and not self.star_resolved(m)

    def star_resolved(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                if not n.level and not (n.module or "").startswith("hydraxmpm"):
                    return False
        return True

    def names(self, m):
        known, star = self.module_names(m)
        if star:
            return
        src = open(m.path).read()
        try:
            top = symtable.symtable(src, m.path, "exec")
        except SyntaxError as e:
            self.ob("module parses", m.name, False, str(e), m, None)
            return
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, []).append(n)
        guarded = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and any(h.type is None or "NameError" in ast.unparse(h.type) or ast.unparse(h.type) in ("Exception", "BaseException") for h in n.handlers):
                for q in n.body:
                    guarded.update(x.id for x in ast.walk(q) if isinstance(x, ast.Name))

        def go(t, path):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                nm = s.get_name()
                g = s.is_global() if t.get_type() != "module" else not (s.is_assigned() or s.is_imported() or s.is_namespace())
                if t.get_type() == "class" and (s.is_local() or nm in ("__module__", "__qualname__")):
                    continue
                if not g:
                    continue
                ok = nm in known or hasattr(builtins, nm) or nm in ("__file__", "__name__", "__doc__", "__class__", "__path__", "__spec__") or nm in guarded
                nd = None
                if not ok:
                    nd = next((n for n in lines.get(nm, []) if n.lineno >= t.get_lineno()), None) or (lines.get(nm) or [None])[0]
                    if nd is None:
                        continue        # only in a string annotation or the like
                self.ob("every name is defined", "%s in %s" % (nm, path), ok, "name '%s' is not defined" % nm, m, nd, path)
            for c in t.get_children():
                go(c, path + "." + c.get_name())
        go(top, m.name.split(".")[-1])

    # ------------------------------------------------------------- unbound locals
    def unbound(self, m):
        for q, fn in functions(m.tree):
            loc = locals_of(fn)
            if not loc:
                continue
            args = fn.args
            bound = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs} | {a.arg for a in (args.vararg, args.kwarg) if a}
            uses = Flow(loc, set(bound)).block(fn.body)
            for nm, nd in uses.bad:
                self.ob("every local is assigned before use", "%s in %s" % (nm, q), False, "local variable '%s' is used before any assignment" % nm, m, nd, q)
            self.ob("every local is assigned before use", q, True, "", m, fn, q)

    # ------------------------------------------------------------- members
    def attrs(self, cls):
        """attribute names an instance of cls (or of a subclass) may have, or None when unknowable"""
        r = set(OBJ)
        fam = [cls] + [c for c in self.classes if c is not cls and c.issub(cls)]
        for k in fam:
            for c in k.mro():
                for b in c.bases:
                    if isinstance(b, Ext):
                        n = b.name.split(".")[-1]
                        if n in ("Module", "ABC", "object", "Generic", "Protocol"):
                            continue
                        if b.name.startswith("builtins.") and hasattr(builtins, n):
                            r |= set(dir(getattr(builtins, n)))
                            continue
                        return None
                    elif not isinstance(b, Cls):
                        return None
                if "__getattr__" in c.ns or "__getattribute__" in c.ns or "__slots__" in c.ns:
                    return None
                r |= set(c.ns) | set(c.ann)
                for f in ast.walk(c.node):
                    if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store):
                        r.add(f.attr)
                    elif isinstance(f, ast.Call) and ast.unparse(f.func) in ("setattr", "object.__setattr__"):
                        return None
        return r

    def ann_class(self, m, node):
        """the repository class an annotation names, if it is exactly one"""
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        v = self.resolve(m, node)
        if isinstance(v, Cls):
            return v
        if isinstance(node, ast.Subscript) and ast.unparse(node.value).split(".")[-1] == "Optional":
            return self.ann_class(m, node.slice)
        return None

    def resolve(self, m, node, shadow=()):
        """abstract value of a dotted expression at module level"""
        if isinstance(node, ast.Name):
            return None if node.id in shadow else m.ns.get(node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve(m, node.value, shadow)
            if isinstance(b, Module_):
                return b.ns.get(node.attr)
            if isinstance(b, Cls):
                return b.lookup(node.attr)
            if isinstance(b, Ext):
                return Ext(b.name + "." + node.attr)
        return None

    def members(self, m):
        for q, fn, cls in methods(m):
            for recv, c, kind in self.receivers(m, fn, cls):
                at = self.attrs(c)
                if at is None:
                    continue
                if rebound(fn, recv):
                    continue
                hasit = {ast.unparse(n.args[1]).strip("'\"") for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1}
                trys = set()
                for n in ast.walk(fn):
                    if isinstance(n, ast.Try):
                        trys |= {id(x) for s in n.body for x in ast.walk(s)}
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == recv and isinstance(n.ctx, ast.Load):
                        ok = n.attr in at or n.attr in hasit or id(n) in trys
                        self.ob("every member exists", "%s.%s" % (c.name, n.attr), ok, "%s has no attribute '%s'" % (c.name, n.attr), m, n, q)

    def receivers(self, m, fn, cls):
        r = []
        args = fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs
        deco = [ast.unparse(d) for d in fn.decorator_list]
        if cls is not None and args and "staticmethod" not in deco:
            r.append((args[0].arg, cls, "cls" if "classmethod" in deco else "self"))
            args = args[1:]
        for a in args:
            c = self.ann_class(m, a.annotation)
            if c is not None:
                r.append((a.arg, c, "arg"))
        return r

    # ------------------------------------------------------------- calls
    def sig(self, f):
        """[(name, required)], keyword-only, *args, **kw of a function value, without self"""
        skip = 0
        if isinstance(f, ClassM):
            f, skip = f.func, 1
        elif isinstance(f, StaticM):
            f = f.func
        if not isinstance(f, Func) or not isinstance(f.node, (ast.FunctionDef, ast.Lambda)):
            return None
        if isinstance(f.node, ast.FunctionDef) and any(ast.unparse(d).split("(")[0].split(".")[-1] not in ("classmethod", "staticmethod", "abstractmethod", "jit", "filter_jit", "property", "checkpoint") for d in f.node.decorator_list):
            return None
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        req = pos[:len(pos) - nd]
        kwo = {x.arg: d is None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        return pos[skip:], set(req) - set(pos[:skip]), kwo, a.vararg is not None, a.kwarg is not None, {x.arg for x in a.posonlyargs}

    def cls_sig(self, c):
        for b in c.ext_bases():
            if b.split(".")[-1] not in ("Module", "ABC", "object", "Generic", "Protocol"):
                return None
        if any(not isinstance(b, (Cls, Ext)) for k in c.mro() for b in k.bases) or any("__new__" in k.ns for k in c.mro()):
            return None
        init = c.lookup("__init__")
        if init is not None:
            s = self.sig(init)
            return None if s is None else (s[0][1:], s[1] - {s[0][0]}) + s[2:] if s[0] else None
        if c.is_module() or self.it.is_dataclass(c):
            fields = [k for k in self.it.all_fields(c)]
            req = set()
            for k in fields:
                sp = self.it.fieldspec(c, k)
                if not (sp.has_default or sp.factory is not None):
                    req.add(k)
            return fields, req, {}, False, False, set()
        return [], set(), {}, False, False, set()

    def fits(self, s, call, bound=0):
        """None when the call is compatible, else the complaint"""
        pos, req, kwo, va, vk, ponly = s
        pos = pos[bound:]
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = len([a for a in call.args if not isinstance(a, ast.Starred)])
        kws = [k.arg for k in call.keywords if k.arg]
        if n > len(pos) and not va:
            return "takes %d positional arguments but %d are given" % (len(pos), n)
        for k in kws:
            if k not in pos and k not in kwo and not vk:
                return "has no parameter '%s'" % k
            if k in pos[:n] and not vk:
                return "gets '%s' twice" % k
        if not star and not dstar:
            for p in pos[n:]:
                if p in req and p not in kws:
                    return "misses the argument '%s'" % p
            for k, r in kwo.items():
                if r and k not in kws:
                    return "misses the keyword argument '%s'" % k
        return None

    def calls(self, m):
        fams = self.families()
        for q, fn, cls in methods(m):
            shadow = locals_of(fn) | {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
            recv = {r: (c, k) for r, c, k in self.receivers(m, fn, cls) if not rebound(fn, r)}
            for call in [n for n in ast.walk(fn) if isinstance(n, ast.Call)]:
                f = call.func
                done = False
                # module-level functions and constructors
                v = self.resolve(m, f, shadow)
                s = None
                if isinstance(v, Cls):
                    s, b, nm = self.cls_sig(v), 0, v.name
                elif isinstance(v, (Func, StaticM, ClassM)):
                    unb = isinstance(f, ast.Attribute) and isinstance(self.resolve(m, f.value, shadow), Cls)
                    s, b, nm = self.sig(v), 0, getattr(getattr(v, "func", v), "qual", "?").split(".")[-1]
                if s is not None:
                    bad = self.fits(s, call, b)
                    self.ob("every resolved call fits its callee", "%s calls %s" % (q, nm), bad is None, "%s %s" % (nm, bad), m, call, q)
                    continue
                if not isinstance(f, ast.Attribute):
                    continue
                # methods of self / annotated receivers: every class the receiver may have
                if isinstance(f.value, ast.Name) and f.value.id in recv:
                    c, kind = recv[f.value.id]
                    if kind == "arg" and narrowed(fn, f.value):
                        continue
                    for k in ([c] + [x for x in self.classes if x is not c and x.issub(c)]) if c.lookup(f.attr) is not None else []:
                        if kind != "arg" and k.lookup(fn.name) is not None and getattr(getattr(k.lookup(fn.name), "func", k.lookup(fn.name)), "node", None) is not fn:
                            continue
                        t = k.lookup(f.attr)
                        s = self.sig(t) if t is not None else None
                        if s is None:
                            continue
                        bad = self.fits(s, call, 0 if isinstance(t, (ClassM, StaticM)) else 1)
                        done = True
                        self.ob("every resolved call fits its callee", "%s calls %s.%s" % (q, k.name, f.attr), bad is None, "%s.%s %s" % (k.name, f.attr, bad), m, call, q)
                    if done:
                        continue
                # hook families: the method exists in one class hierarchy only
                fam = fams.get(f.attr)
                if fam and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
                    root, defs = fam
                    base = self.resolve(m, f.value, shadow)
                    if base is not None or narrowed(fn, f.value):
                        continue
                    res = [(k, self.fits(s, call, 1)) for k, s in defs]
                    if any(b is None for k, b in res):
                        for k, b in res:
                            self.ob("every override accepts its callers", "%s.%s called by %s" % (k.name, f.attr, q), b is None, "%s.%s %s" % (k.name, f.attr, b), m, call, q)

    def external(self, m):
        """names and arguments of library functions, against the source of the installed library"""
        whole = [(q, fn, locals_of(fn) | {a.arg for g in ast.walk(fn) if isinstance(g, (ast.FunctionDef, ast.Lambda)) for a in params(g)} | nested(fn), list(ast.walk(fn))) for q, fn, _ in methods(m)]
        inside = {id(n) for w in whole for n in w[3]}
        whole.append(("module", m.tree, set(), [n for n in ast.walk(m.tree) if id(n) not in inside and not nested_in(m.tree, n)]))
        for q, fn, shadow, nodes in whole:
            trys = {id(x) for n in nodes if isinstance(n, ast.Try) for st in n.body for x in ast.walk(st)}
            has = any(isinstance(n, ast.Name) and n.id in ("hasattr", "getattr") for n in nodes)
            for n in nodes:
                if id(n) in trys:
                    continue
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not has:
                    v = self.resolve(m, n, shadow)
                    if isinstance(v, Ext):
                        r = ext.exists(v.name)
                        if r is not None:
                            self.ob("every library name exists", "%s in %s" % (v.name, q), r, "the installed library has no '%s'" % v.name, m, n, q)
                elif isinstance(n, ast.Call):
                    v = self.resolve(m, n.func, shadow)
                    sg = ext.signatures(v.name) if isinstance(v, Ext) else None
                    if sg:
                        why = [self.fits(libsig(g), n) for g in sg]
                        self.ob("every library call fits its signature", "%s in %s" % (v.name, q), None in why, "%s %s" % (v.name, why[0]), m, n, q)

    def families(self):
        if hasattr(self, "_fam"):
            return self._fam
        defs = {}
        for c in self.classes:
            for k, v in c.ns.items():
                if isinstance(v, Func) and not k.startswith("__"):
                    defs.setdefault(k, []).append((c, v))
        r = {}
        for k, ds in defs.items():
            cs = [c for c, _ in ds]
            root = [c for c in self.classes if all(x.issub(c) for x in cs)]
            if len(ds) < 2 or not root or k in dir(list) + dir(dict) + dir(str):
                continue
            sg = [(c, self.sig(v)) for c, v in ds]
            if all(s is not None for _, s in sg):
                r[k] = (root[0], sg)
        self._fam = r
        return r


# ---------------------------------------------------------------- helpers
def params(g):
    a = g.args
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


def nested(fn):
    """names bound inside nested functions and comprehensions"""
    r = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            r.update(a.asname or a.name.split(".")[0] for a in n.names)
    return r


def nested_in(tree, node):
    """inside a lambda or comprehension at module level (own scope): no opinion"""
    return isinstance(node, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))


def libsig(g):
    a = g.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    req = set(pos[:len(pos) - len(a.defaults)])
    return pos, req, {x.arg: d is None for x, d in zip(a.kwonlyargs, a.kw_defaults)}, a.vararg is not None, a.kwarg is not None, {x.arg for x in a.posonlyargs}


def own(st):
    """nodes of a statement without the bodies of nested functions and classes"""
    todo = [st]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(getattr(n, "decorator_list", []))
            continue
        todo.extend(ast.iter_child_nodes(n))


def functions(tree):
    def go(n, path):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield path + c.name, c
                yield from go(c, path + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                yield from go(c, path + c.name + ".")
            else:
                yield from go(c, path)
    return list(go(tree, ""))


def methods(m):
    """(qualified name, function, class or None) for module-level functions and methods (nested functions belong to their parent)"""
    r = []
    for st in m.tree.body:
        if isinstance(st, ast.FunctionDef):
            r.append((st.name, st, None))
        elif isinstance(st, ast.ClassDef):
            c = m.ns.get(st.name)
            for f in st.body:
                if isinstance(f, ast.FunctionDef):
                    r.append((st.name + "." + f.name, f, c if isinstance(c, Cls) and c.node is st else None))
    return r


def rebound(fn, name):
    """is the parameter assigned again, or shadowed by a nested function?"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            return True
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            a = n.args
            if any(x.arg == name for x in a.posonlyargs + a.args + a.kwonlyargs):
                return True
    return False


def narrowed(fn, recv):
    """does the function test the class of the receiver?"""
    t = ast.unparse(recv)
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "type", "hasattr", "callable") and n.args and ast.unparse(n.args[0]) == t for n in ast.walk(fn))


def locals_of(fn):
    r, g = set(), set()
    for st in fn.body:
        for n in own(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                r.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                r.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                r.update(a.asname or a.name.split(".")[0] for a in n.names)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                g.update(n.names)
    # comprehension variables live in their own scope
    return r - g


class Flow:
    """must-be-unassigned analysis: a use is reported only if no path to it assigns the variable"""

    def __init__(self, loc, may):
        self.loc, self.may, self.bad = loc, may, []

    def use(self, n, hidden=frozenset()):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                self.use(d, hidden)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    self.use(d, hidden)
            self.may.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.use(d, hidden)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = set(hidden)
            for g in n.generators:
                self.use(g.iter, frozenset(h))
                h |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.use(c, frozenset(h))
            for f in ("elt", "key", "value"):
                if hasattr(n, f):
                    self.use(getattr(n, f), frozenset(h))
            return
        if isinstance(n, ast.NamedExpr):
            self.use(n.value, hidden)
            self.may.add(n.target.id)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.loc and n.id not in self.may and n.id not in hidden:
                self.bad.append((n.id, n))
                self.may.add(n.id)
            elif isinstance(n.ctx, ast.Store):
                self.may.add(n.id)
            return
        for c in ast.iter_child_nodes(n):
            self.use(c, hidden)

    def block(self, body):
        for st in body:
            self.stmt(st)
        return self

    def stmt(self, st):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is not None:
                self.use(st.value)
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    self.use(t)
            return
        if isinstance(st, ast.AugAssign):
            self.use(st.value)
            if isinstance(st.target, ast.Name):
                self.use(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target))
            else:
                self.use(st.target)
            return
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            if not isinstance(st, ast.While):
                self.use(st.iter)
            if isinstance(st, ast.While):
                self.use(st.test)
            else:
                self.use(st.target)
            # a use may follow an assignment of the previous iteration
            for s in st.body:
                for n in own(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.may.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        self.may.add(n.name)
            self.block(st.body)
            self.block(st.orelse)
            return
        if isinstance(st, ast.If):
            self.use(st.test)
            a = set(self.may)
            self.block(st.body)
            b = set(self.may)
            self.may = set(a)
            self.block(st.orelse)
            self.may |= b
            return
        if isinstance(st, (ast.Try,)):
            self.block(st.body)
            for h in st.handlers:
                if h.name:
                    self.may.add(h.name)
                self.block(h.body)
            self.block(st.orelse)
            self.block(st.finalbody)
            return
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.use(i.context_expr)
                if i.optional_vars is not None:
                    self.use(i.optional_vars)
            self.block(st.body)
            return
        if isinstance(st, ast.Match):
            self.use(st.subject)
            a, out = set(self.may), set()
            for c in st.cases:
                self.may = set(a)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        self.may.add(n.name)
                self.block(c.body)
                out |= self.may
            self.may = out | a
            return
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            self.may.update(a.asname or a.name.split(".")[0] for a in st.names)
            return
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            return
        self.use(st)

