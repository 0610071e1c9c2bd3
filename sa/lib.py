"""Models of builtins, jax.numpy / numpy, jax and equinox used by the analysed program."""
from fractions import Fraction as Q
import itertools, math
from . import expr as X
from .expr import E
from .values import *
from . import values as V
from . import interp as I

NUM = {}        # jax.numpy name -> f(it, args, kw)
EXT = {}        # dotted name -> f


def reg(*names):
    def d(f):
        for n in names:
            NUM[n] = f
        return f
    return d


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def canon(name):
    for a, b in (("numpy.", "jax.numpy."),):
        if name.startswith(a):
            return b + name[len(a):]
    if name.startswith("jax._src.numpy."):
        return "jax.numpy." + name.rsplit(".", 1)[1]
    return name


DYN = {"nonzero", "flatnonzero", "argwhere", "unique", "compress", "extract", "union1d", "intersect1d", "setdiff1d"}
SHAPED = {"arange", "zeros", "ones", "full", "eye", "linspace", "empty", "identity", "tri", "indices"}


def concretised(it, name, args, kw):
    """library calls that need the values of their array arguments while tracing"""
    root, base = name.split(".")[0], name.split(".")[-1]
    if root in ("math", "numpy"):
        if base in ("float32", "float64", "int32", "int64", "shape", "ndim", "size", "dtype", "isscalar"):
            if base in ("shape", "ndim", "size", "dtype", "isscalar"):
                return
        for v in list(args) + list(kw.values()):
            for x in (it.iterate(v) if isinstance(v, (tuple, PList)) else [v]):
                it.conc("%s.%s of an array" % (root, base), x)
    elif base in DYN or base == "where" and len(args) == 1:
        if "size" not in kw and args:
            it.conc("jnp.%s without a size" % base, args[0])
    elif base in SHAPED:
        for v in (args if base in ("arange", "linspace") else args[:1]):
            for x in (it.iterate(v) if isinstance(v, (tuple, PList)) else [v]):
                if not (base == "linspace" and v in args[:2]):
                    it.conc("size of jnp.%s" % base, x)
    elif base == "repeat" and "total_repeat_length" not in kw and len(args) > 1:
        it.conc("count of jnp.repeat", args[1])


def call_ext(it, name, args, kw, f=None):
    it.extcalls.append((name, Cur.loc))
    me = f.parent if isinstance(f, ExtObj) else None
    concretised(it, name, args, kw)
    if name.startswith("?"):
        if name.split(".")[-1] in ("save", "write", "savefig", "export") and args and name.startswith(("?pyvista", "?matplotlib", "?PIL", "?imageio", "?meshio")):
            fs(it, "write", args[0], by=name)
        it.extlog.append((name, tuple(args), dict(kw), me, Cur.loc))
        return Top("result of external %s" % name[1:])
    f = EXT.get(name)
    if f is None:
        c = canon(name)
        f = EXT.get(c)
        if f is None and c.startswith("jax.numpy."):
            f = NUM.get(c[len("jax.numpy."):])
    if f is None and name.startswith("math."):
        f = NUM.get(name[5:])
        if f:
            r = f(it, args, kw)
            if isinstance(r, Arr):
                r = native(r)
                if isinstance(r, Arr):
                    r.py = "float"
                    if name[5:] in ("ceil", "floor", "trunc"):
                        r.py, r.dt = "int", "i"
                    elif r.dt == "b":
                        r.py = "bool"
            return r
    if f is None:
        root = name.split(".")[0]
        if root == "builtins":
            short = name.split(".")[1]
            if short in I.PYEXC:
                return ("exc", short, tuple(args))
            raise Unknown("builtin %s" % short)
        if root in ("os", "shutil", "json", "sys", "pathlib", "datetime", "tempfile", "pickle", "pyvista", "rerun", "matplotlib", "skimage", "warnings", "time", "logging", "subprocess", "socket", "random", "requests", "urllib"):
            it.effects.append(("call", name, Cur.loc))
        if root in ("numpy", "jax") and not name.startswith("jax.debug"):
            it.lints.append(("unmodelled", name, Cur.loc))
        if name.startswith("jax.debug") or name.startswith("jax.experimental.io_callback") or name.startswith("jax.pure_callback"):
            it.effects.append(("call", name, Cur.loc))
            return None
        if root in ("jax", "numpy", "equinox"):
            for a in args:
                if isinstance(a, (Func, Bound)):
                    raise Unknown("external higher-order function %s" % name)
            return Top("unmodelled %s" % name)
        r = ExtObj("?" + name + "()", args, kw)
        it.extlog.append((name, tuple(args), dict(kw), r, Cur.loc))
        return r
    try:
        r = f(it, args, kw)
    except IndexError:
        # arguments given by keyword that the summary takes by position
        if not kw:
            raise
        ps = positional(name, len(args), kw)
        if ps is None:
            raise
        r = f(it, args + [kw[k] for k in ps], {k: v for k, v in kw.items() if k not in ps})
    if name.startswith(("skimage.", "matplotlib.")):
        it.extlog.append((name, tuple(args), dict(kw), r, Cur.loc))
    if name.startswith("numpy.") and isinstance(r, Arr) and r.py is None:
        r = Arr(r.shape, r.at, r.dt, None, r.note)
        r.np = True
    return r


def positional(name, n, kw):
    """the keywords that continue the n positional arguments of a library function"""
    from . import ext as libs
    for sig in libs.signatures(name) or ():
        a = sig.args if hasattr(sig, "args") and isinstance(sig.args, I.ast.arguments) else sig
        names = [p.arg for p in a.posonlyargs + a.args] if isinstance(a, I.ast.arguments) else None
        if not names:
            continue
        out = []
        for p in names[n:]:
            if p not in kw:
                break
            out.append(p)
        if out:
            return out
    return None


def ext_attr(it, name, attr):
    full = name + "." + attr
    c = canon(full)
    if c in ("jax.numpy.pi", "math.pi"):
        return scalar(X.PI, "f", "float")
    if c in ("jax.numpy.inf", "math.inf"):
        return float("inf")
    if c in ("jax.numpy.nan", "math.nan"):
        return float("nan")
    if c == "math.e" or c == "jax.numpy.e":
        return scalar(X.exp(X.ONE), "f", "float")
    if c == "jax.numpy.newaxis":
        return None
    if full == "os.environ":
        it.extcalls.append((full, Cur.loc))
        if getattr(it, "environ", None) is None:
            it.environ = PDict({"PATH": "/usr/local/bin:/usr/bin", "HOME": "/root"})
        return it.environ
    if full in ("os.pathsep", "os.sep", "sys.prefix", "os.linesep"):
        return {"os.pathsep": ":", "os.sep": "/", "sys.prefix": "/opt/python", "os.linesep": "\n"}[full]
    if c == "typing.TYPE_CHECKING":
        return False
    return Ext(full)


def ext_getitem(it, name, k):
    if canon(name) == "jax.numpy.c_":
        ks = [deep_lift(it, x) for x in (k if isinstance(k, tuple) else (k,))]
        if any(isinstance(x, Top) for x in ks):
            return Top("np.c_")
        return concatenate([expand_dims(x, 1) if x.ndim == 1 else x for x in ks], 1)
    if canon(name) == "jax.numpy.r_":
        ks = [deep_lift(it, x) for x in (k if isinstance(k, tuple) else (k,))]
        if any(not isinstance(x, Arr) or x.ndim > 1 for x in ks):
            return Top("np.r_")
        return concatenate([expand_dims(x, 0) if x.ndim == 0 else x for x in ks], 0)
    return Top("subscript of %s" % name)


def arg(args, kw, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kw.get(name, default)


def L(x):
    return lift(x)


def T(x):
    return isinstance(x, Top)


# ------------------------------------------------------------------ builtins
def b(*names):
    return ext(*["builtins." + n for n in names])


@b("len")
def _len(it, a, kw):
    x = a[0]
    if isinstance(x, (tuple, str)):
        return len(x)
    if isinstance(x, PIter):
        raise PyErr("TypeError", "an iterator has no len()", Cur.loc)
    if isinstance(x, (PList, PSet)):
        return len(x.items)
    if isinstance(x, PDict):
        return len(x.d)
    if isinstance(x, Arr):
        if not x.shape:
            raise PyErr("TypeError", "len() of unsized object", Cur.loc)
        return dimv(x.shape[0])
    if isinstance(x, Obj):
        m = x.cls.lookup("__len__")
        if m is not None:
            return it.call(Bound(x, m), [], {})
        raise PyErr("TypeError", "object of type '%s' has no len()" % x.cls.name, Cur.loc)
    if isinstance(x, (Top, Ext, I.SymStr)):
        return Top("len of unknown")
    raise PyErr("TypeError", "object of type '%s' has no len()" % I.typename(x), Cur.loc)


@b("range")
def _range(it, a, kw):
    for x in a:
        it.conc("range()", x)
    xs = [native(x) for x in a]
    if any(isinstance(x, Top) for x in xs):
        return Top("range")
    if not all(isinstance(x, int) for x in xs):
        if all(isinstance(x, (Arr, int)) for x in xs):
            raise Unknown("range over a symbolic bound")
        raise PyErr("TypeError", "range() needs integers, got %s" % [I.typename(x) for x in xs], Cur.loc)
    r = range(*xs)
    if len(r) > 4000:
        raise Unknown("large range")
    return tuple(r)


@b("enumerate")
def _enum(it, a, kw):
    s = native(arg(a, kw, 1, "start", 0))
    return PIter((k + s, v) for k, v in enumerate(it.iterate(a[0])))


@b("zip")
def _zip(it, a, kw):
    xs = [it.iterate(x) for x in a]
    if native(kw.get("strict", False)) is True and len({len(x) for x in xs}) > 1:
        raise PyErr("ValueError", "zip() arguments of different length", Cur.loc)
    return PIter(zip(*xs))


@b("tuple")
def _tuple(it, a, kw):
    return tuple(it.iterate(a[0])) if a else ()


@b("list")
def _list(it, a, kw):
    return PList(it.iterate(a[0]) if a else [])


@b("set", "frozenset")
def _set(it, a, kw):
    return PSet([native(x) for x in it.iterate(a[0])] if a else [])


@b("dict")
def _dict(it, a, kw):
    d = PDict()
    if a:
        if isinstance(a[0], PDict):
            d.d.update(a[0].d)
        else:
            for p in it.iterate(a[0]):
                k, v = it.iterate(p)
                d.d[it.key(k)] = v
    d.d.update(kw)
    return d


@b("sorted")
def _sorted(it, a, kw):
    xs = [native(x) for x in it.iterate(a[0])]
    ks = xs
    if kw.get("key") is not None:
        ks = [native(it.call(kw["key"], [x], {})) for x in xs]
    if not all(isinstance(x, (int, Q, str, tuple)) for x in ks):
        raise Unknown("sorting symbolic values")
    order = sorted(range(len(xs)), key=lambda k: ks[k], reverse=bool(native(kw.get("reverse", False))))
    return PList([xs[k] for k in order])


@b("reversed")
def _rev(it, a, kw):
    return PIter(reversed(it.iterate(a[0])))


@b("isinstance")
def _isinst(it, a, kw):
    return isinst(it, a[0], a[1])


def isinst(it, x, t):
    x = native(x)
    if isinstance(t, tuple):
        rs = [isinst(it, x, q) for q in t]
        if any(r is True for r in rs):
            return True
        for r in rs:
            if isinstance(r, Top):
                return r
        return False
    if isinstance(t, Union_):
        return isinst(it, x, tuple(t.alts))
    if isinstance(x, Top):
        return Top("isinstance of unknown")
    if t is None:
        return x is None
    if isinstance(t, JT):
        if not isinstance(x, Arr):
            return False
        if x.py is not None:
            return False
        kinds = {"Float": "f", "Int": "i", "UInt": "i", "Integer": "i", "Bool": "b"}
        if t.kind in kinds and kinds[t.kind] != x.dt:
            return False
        toks = t.spec.split()
        if any(q.startswith("*") or q == "..." for q in toks):
            return True
        if len(toks) != len(x.shape):
            return False
        return all(not q.isdigit() or same_dim(int(q), d) or not isinstance(d, int) for q, d in zip(toks, x.shape))
    if isinstance(t, Cls):
        if isinstance(x, Obj):
            return x.cls.issub(t)
        if isinstance(x, NT):
            return x.nt.issub(t)
        if isinstance(x, PList) and x.cls is not None:
            return x.cls.issub(t)
        return False
    if isinstance(t, Ext):
        n = t.name
        if n == "builtins.int":
            return (isinstance(x, int)) or (isinstance(x, Arr) and x.py in ("int", "bool"))
        if n == "builtins.float":
            return isinstance(x, (Q, float)) or (isinstance(x, Arr) and x.py == "float")
        if n == "builtins.bool":
            return isinstance(x, bool) or (isinstance(x, Arr) and x.py == "bool")
        if n == "builtins.str":
            return isinstance(x, (str, I.SymStr))
        if n == "builtins.tuple":
            return isinstance(x, tuple)
        if n == "builtins.list":
            return isinstance(x, PList) and not isinstance(x, PIter)
        if n == "builtins.dict":
            return isinstance(x, PDict)
        if n == "builtins.set":
            return isinstance(x, PSet)
        if n in ("jax.Array", "jax.numpy.ndarray", "jaxtyping.Array", "numpy.ndarray"):
            return isinstance(x, Arr) and x.py is None
        if n in ("typing.Callable", "collections.abc.Callable"):
            return isinstance(x, (Func, Bound, Nat, Partial, Ext, Cls))
        if n == "equinox.Module":
            return isinstance(x, Obj) and x.cls.is_module()
        if n in ("numbers.Number",):
            return isinstance(x, (int, Q)) or (isinstance(x, Arr) and x.py is not None)
        if isinstance(x, (Obj,)):
            return n in x.cls.ext_bases()
        if isinstance(x, Arr) or x is None or isinstance(x, (int, Q, str, tuple, PList, PDict)):
            return False
    return Top("isinstance")


@b("issubclass")
def _issub(it, a, kw):
    if isinstance(a[0], Cls) and isinstance(a[1], Cls):
        return a[0].issub(a[1])
    return Top("issubclass")


@b("hasattr")
def _hasattr(it, a, kw):
    if isinstance(a[0], (Top, Ext)):
        return Top("hasattr of unknown")
    try:
        r = it.getattr(a[0], a[1])
        if isinstance(r, Top) and isinstance(a[0], Obj):
            return True
        return True
    except PyErr as x:
        if x.kind == "AttributeError":
            return False
        raise


@b("getattr")
def _getattr(it, a, kw):
    if not isinstance(a[1], str):
        return Top("getattr with symbolic name")
    try:
        return it.getattr(a[0], a[1])
    except PyErr as x:
        if x.kind == "AttributeError" and len(a) > 2:
            return a[2]
        raise


@b("setattr")
def _setattr(it, a, kw):
    if isinstance(a[1], str):
        it.setattr(a[0], a[1], a[2])
    else:
        raise Unknown("setattr symbolic name")


@ext("object.__setattr__", "builtins.object.__setattr__")
def _osetattr(it, a, kw):
    if isinstance(a[0], Obj):
        a[0].f[a[1]] = a[2]
        it.effects.append(("object.__setattr__", a[1], Cur.loc))


@b("print")
def _print(it, a, kw):
    it.effects.append(("print", "", Cur.loc))


@b("open")
def _open(it, a, kw):
    mode = native(arg(a, kw, 1, "mode", "r"))
    fs(it, "read" if isinstance(mode, str) and not set(mode) & set("wax+") else "write", strish(a[0], "open()"), mode=mode)
    f = ExtObj("?file")
    f.attrs["path"] = a[0]
    f.attrs["mode"] = mode
    f.attrs["at"] = len(it.effects) - 1
    return f


def fs_leaves(it, kind, x, what, **more):
    """access through a path, or through a file opened before (which is the same access)"""
    if isinstance(x, ExtObj) and x.name == "?file":
        k = x.attrs["at"]
        if k < len(it.effects) and it.effects[k][0] == "fs:" + kind:
            e = it.effects[k]
            it.effects[k] = (e[0], e[1][:1] + (dict(e[1][1] if len(e[1]) > 1 else {}, **more),), e[2])
            return
        x = x.attrs["path"]
    fs(it, kind, strish(x, what), **more)


@b("input", "exec", "eval", "breakpoint", "compile", "__import__")
def _badb(it, a, kw):
    it.effects.append(("builtin", "dynamic", Cur.loc))
    return Top("dynamic")


@b("sum")
def _sum(it, a, kw):
    acc = arg(a, kw, 1, "start", 0)
    for x in it.iterate(a[0]):
        acc = it.binop(I.ast.Add, acc, x)
    return acc


def _minmax(it, a, kw, f, g):
    xs = [native(x) for x in (it.iterate(a[0]) if len(a) == 1 else a)]
    if not xs:
        if "default" in kw:
            return kw["default"]
        raise PyErr("ValueError", "empty sequence", Cur.loc)
    if "key" in kw:
        ks = [native(it.call(kw["key"], [x], {})) for x in xs]
        if not all(isinstance(k, (int, Q, str)) for k in ks):
            raise Unknown("min/max key")
        return xs[ks.index(f(ks))]
    if all(isinstance(x, (int, Q, float)) for x in xs):
        return f(xs)
    if all(isinstance(x, str) for x in xs):
        return f(xs)
    for x in xs:
        if isinstance(x, Top):
            return x
    r = ew(g, *xs)
    return r


@b("min")
def _min(it, a, kw):
    return _minmax(it, a, kw, min, X.min_)


@b("max")
def _max(it, a, kw):
    return _minmax(it, a, kw, max, X.max_)


@b("abs")
def _abs(it, a, kw):
    x = native(a[0])
    if isinstance(x, (int, Q)):
        return abs(x)
    return ew(X.abs_, x)


@b("float")
def _float(it, a, kw):
    it.conc("float()", a[0] if a else 0)
    x = native(a[0]) if a else 0
    if isinstance(x, bool):
        return Q(int(x))
    if isinstance(x, int):
        return Q(x)
    if isinstance(x, (Q, float)):
        return x
    if isinstance(x, str):
        return float("inf") if x.strip().lower() in ("inf", "infinity") else Q(x) if x.replace(".", "").isdigit() else float(x)
    if isinstance(x, Arr):
        if all(same_dim(d, 1) for d in x.shape):
            return scalar(x.at(*[X.ZERO] * x.ndim), "f", "float")
        raise PyErr("TypeError", "only size-1 arrays convert to float", Cur.loc)
    if x is None or isinstance(x, (tuple, PList, PDict, Obj)):
        raise PyErr("TypeError", "float() argument must be a number, not %s" % I.typename(x), Cur.loc)
    return Top("float")


@b("int")
def _int(it, a, kw):
    it.conc("int()", a[0] if a else 0)
    x = native(a[0]) if a else 0
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Q):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise PyErr("ValueError", "invalid literal for int()", Cur.loc)
    if isinstance(x, Arr):
        if x.shape and not all(same_dim(d, 1) for d in x.shape):
            raise PyErr("TypeError", "only size-1 arrays convert to int", Cur.loc)
        e = x.at(*[X.ZERO] * x.ndim)
        return scalar(trunc(e), "i", "int")
    if x is None or isinstance(x, (tuple, PList, PDict, Obj)):
        raise PyErr("TypeError", "int() argument must be a number, not %s" % I.typename(x), Cur.loc)
    return Top("int")


def trunc(e):
    if X.is_int(e):
        return e
    if X.isc(e):
        return X.C(int(X.cval(e)))
    return X.fn("trunc", e)


@b("bool")
def _bool(it, a, kw):
    c = it.truth(a[0]) if a else False
    return c if isinstance(c, bool) else scalar(c, "b", "bool")


@b("str", "repr", "format")
def _str(it, a, kw):
    x = native(a[0]) if a else ""
    if isinstance(x, (str, int)) and len(a) < 2:
        return str(x)
    if len(a) > 1 and isinstance(a[1], str):
        if isinstance(x, (str, int)):
            return format(x, a[1])
        from .strs import field
        return I.SymStr([field(x, a[1])], "")
    return I.SymStr([x], "")


@b("type")
def _type(it, a, kw):
    x = native(a[0])
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, PList) and x.cls:
        return x.cls
    m = {int: "int", Q: "float", bool: "bool", str: "str", tuple: "tuple", PList: "list", PDict: "dict"}
    if type(x) in m:
        return Ext("builtins." + m[type(x)])
    if isinstance(x, Arr):
        return Ext("builtins." + x.py) if x.py else Ext("jax.Array")
    return Top("type")


@b("any")
def _any(it, a, kw):
    acc = X.FALSE
    for x in it.iterate(a[0]):
        c = it.truth(x)
        acc = X.or_(acc, X.toE(c))
    return native(scalar(acc, "b", "bool"))


@b("all")
def _all(it, a, kw):
    acc = X.TRUE
    for x in it.iterate(a[0]):
        c = it.truth(x)
        acc = X.and_(acc, X.toE(c))
    return native(scalar(acc, "b", "bool"))


@b("map")
def _map(it, a, kw):
    return PIter(it.call(a[0], list(xs), {}) for xs in zip(*[it.iterate(x) for x in a[1:]]))


@b("filter")
def _filter(it, a, kw):
    return PIter(x for x in it.iterate(a[1]) if it.ctruth(it.call(a[0], [x], {}) if a[0] is not None else x))


@b("round")
def _round(it, a, kw):
    x = native(a[0])
    if isinstance(x, (int, Q)):
        n = native(arg(a, kw, 1, "ndigits"))
        return round(x) if n is None else round(x, n)
    if isinstance(x, Arr):
        return ew(rnd, x) if len(a) < 2 else Top("round")
    return Top("round")


def rnd(e):
    if X.is_int(e):
        return e
    if X.isc(e):
        return X.C(round(X.cval(e)))
    return X.fn("round", e)


@b("callable")
def _callable(it, a, kw):
    x = a[0]
    if isinstance(x, Obj):
        return x.cls.lookup("__call__") is not None
    return isinstance(x, (Func, Bound, Nat, Partial, Ext, Cls))


@b("divmod")
def _divmod(it, a, kw):
    return (it.binop(I.ast.FloorDiv, a[0], a[1]), it.binop(I.ast.Mod, a[0], a[1]))


@b("pow")
def _pow(it, a, kw):
    return it.binop(I.ast.Pow, a[0], a[1])


@b("id", "hash")
def _id(it, a, kw):
    return Top("id")


@b("iter")
def _iter(it, a, kw):
    return a[0] if isinstance(a[0], PIter) else PIter(it.iterate(a[0]))


@b("next")
def _next(it, a, kw):
    if isinstance(a[0], Top):
        return a[0]
    if not isinstance(a[0], PIter):
        raise PyErr("TypeError", "'%s' object is not an iterator" % I.typename(a[0]), Cur.loc)
    if a[0].items:
        return a[0].items.pop(0)
    if len(a) > 1:
        return a[1]
    raise PyErr("StopIteration", "", Cur.loc)


@b("vars")
def _vars(it, a, kw):
    return it.getattr(a[0], "__dict__") if a and isinstance(a[0], Obj) else Top("vars")


@b("slice")
def _slice(it, a, kw):
    a = list(a)
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(*(a + [None] * (3 - len(a))))


@b("object")
def _object(it, a, kw):
    return Top("object")


@b("dir", "locals")
def _dir(it, a, kw):
    return Top("dir")


@b("property")
def _prop(it, a, kw):
    return Prop(a[0])


@b("classmethod")
def _cm(it, a, kw):
    return ClassM(a[0])


@b("staticmethod")
def _sm(it, a, kw):
    return StaticM(a[0])


@ext("functools.partial", "equinox.Partial", "jax.tree_util.Partial")
def _partial(it, a, kw):
    return Partial(a[0], a[1:], kw)


@ext("functools.wraps", "functools.lru_cache", "functools.cache")
def _wraps(it, a, kw):
    if len(a) == 1 and isinstance(a[0], Func) and not kw:
        return Nat(lambda it2, aa, kk: aa[0] if len(aa) == 1 and isinstance(aa[0], Func) else it2.call(a[0], aa, kk), "wraps")
    return Nat(lambda it2, aa, kk: aa[0], "wraps")


@ext("functools.reduce")
def _reduce(it, a, kw):
    xs = it.iterate(a[1])
    acc = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        acc = it.call(a[0], [acc, x], {})
    return acc


@ext("itertools.product")
def _product(it, a, kw):
    r = native(kw.get("repeat", 1))
    return tuple(itertools.product(*[it.iterate(x) for x in a], repeat=r))


@ext("itertools.chain")
def _chain(it, a, kw):
    return tuple(x for y in a for x in it.iterate(y))


@ext("itertools.chain.from_iterable")
def _chain2(it, a, kw):
    return tuple(x for y in it.iterate(a[0]) for x in it.iterate(y))


@ext("operator.itemgetter")
def _ig(it, a, kw):
    return Nat(lambda it2, aa, kk: it2.getitem(aa[0], a[0]) if len(a) == 1 else tuple(it2.getitem(aa[0], q) for q in a), "itemgetter")


@ext("operator.methodcaller")
def _mc(it, a, kw):
    return Nat(lambda it2, aa, kk: it2.call(it2.getattr(aa[0], a[0]), list(a[1:]), dict(kw)), "methodcaller")


@ext("itertools.repeat")
def _repeat(it, a, kw):
    if len(a) < 2:
        raise Unknown("endless iterator")
    return PIter([a[0]] * native(a[1]))


@ext("itertools.starmap")
def _starmap(it, a, kw):
    return PIter(it.call(a[0], it.iterate(xs), {}) for xs in it.iterate(a[1]))


@ext("itertools.accumulate")
def _accumulate(it, a, kw):
    out = []
    f = arg(a, kw, 1, "func")
    for x in it.iterate(a[0]):
        out.append(x if not out else it.call(f, [out[-1], x], {}) if f is not None else it.binop(I.ast.Add, out[-1], x))
    return PIter(out)


@ext("itertools.islice")
def _islice(it, a, kw):
    return PIter(it.iterate(a[0])[slice(*[native(x) for x in a[1:]])])


@ext("itertools.zip_longest")
def _zipl(it, a, kw):
    return PIter(itertools.zip_longest(*[it.iterate(x) for x in a], fillvalue=kw.get("fillvalue")))


@ext("itertools.combinations")
def _comb(it, a, kw):
    return PIter(itertools.combinations(it.iterate(a[0]), native(a[1])))


@ext("collections.namedtuple")
def _ntuple(it, a, kw):
    names = a[1].replace(",", " ").split() if isinstance(a[1], str) else it.iterate(a[1])
    if not all(isinstance(x, str) for x in names):
        raise Unknown("named tuple fields")
    ns = dict(zip(names[len(names) - len(d):], d)) if (d := it.iterate(kw["defaults"]) if kw.get("defaults") is not None else []) else {}
    return Cls(a[0], [Ext("typing.NamedTuple")], ns, None, None, {n: None for n in names})


@ext("operator.attrgetter")
def _ag(it, a, kw):
    def go(it2, aa, kk):
        o = aa[0]
        for p in a[0].split("."):
            o = it2.getattr(o, p)
        return o
    return Nat(go, "attrgetter")


@ext("math.prod")
def _mprod(it, a, kw):
    acc = 1
    for x in it.iterate(a[0]):
        acc = it.binop(I.ast.Mult, acc, x)
    return acc


for _n, _op in (("add", "Add"), ("mul", "Mult"), ("sub", "Sub"), ("truediv", "Div"), ("matmul", "MatMult")):
    EXT["operator." + _n] = lambda it, a, kw, _op=_op: it.binop(getattr(I.ast, _op), a[0], a[1])


@ext("copy.copy", "copy.deepcopy", "dataclasses.replace")
def _copy(it, a, kw):
    x = a[0]
    if kw and isinstance(x, Obj):
        o = Obj(x.cls)
        o.f = dict(x.f)
        for k, v in kw.items():
            if k not in it.all_fields(x.cls):
                raise PyErr("TypeError", "replace: no field %s" % k, Cur.loc)
            o.f[k] = v
        o.frozen = x.frozen
        return o
    if isinstance(x, PList):
        return PList(x.items, x.cls)
    if isinstance(x, PDict):
        return PDict(x.d)
    return x


@ext("warnings.warn", "warnings.filterwarnings", "warnings.simplefilter")
def _warn(it, a, kw):
    it.effects.append(("warn", "", Cur.loc))


# ------------------------------------------------------------------ os / io (recorded, never performed)
def strish(x, what):
    if x is None or isinstance(x, (int, Q, Arr, PList, PDict, Obj, bool)):
        raise PyErr("TypeError", "%s: expected a path, got %s" % (what, I.typename(x)), Cur.loc)
    return x


@ext("os.path.join")
def _join(it, a, kw):
    for x in a:
        if isinstance(x, Top):
            return x
        strish(x, "os.path.join()")
    if all(isinstance(x, str) for x in a):
        import os
        return os.path.join(*a)
    return I.SymStr(list(a), "/")


def _pathop(name):
    def f(it, a, kw):
        x = strish(a[0], "os.path.%s()" % name)
        if isinstance(x, Top):
            return x
        import os
        if isinstance(x, str) and (name in ("dirname", "basename", "normpath", "fspath") or x.startswith("/")):
            return x if name == "fspath" else getattr(os.path, "normpath" if name == "realpath" else name)(x)
        return I.SymStr([x], "abspath" if name in ("realpath",) else name)
    return f


for _n in ("dirname", "abspath", "basename", "realpath", "normpath"):
    EXT["os.path." + _n] = _pathop(_n)
EXT["os.fspath"] = _pathop("fspath")


def fs(it, kind, *paths, **more):
    """file-system access of the analysed program: recorded, never performed"""
    from .strs import norm
    st = getattr(it, "fsstate", None)
    gone = None
    if st is not None and paths and not isinstance(paths[0], Top):
        k = fskey(paths[0])
        if kind == "mkdir":
            if st.get(k) and not more.get("exist_ok"):
                raise PyErr("FileExistsError", k, Cur.loc)
            st[k] = True
        elif kind in ("delete", "move"):
            if st.get(k) is False:
                raise PyErr("FileNotFoundError", k, Cur.loc)
            for q in list(st):
                if q == k or q.startswith(k + "/"):
                    st[q] = False
        elif kind == "write":
            st[k] = "file"
        elif kind == "read" and st.get(k, getattr(it, "fsdefault", None)) is False:
            gone = k
    it.effects.append(("fs:" + kind, tuple(norm(p) if not isinstance(p, Top) else None for p in paths) + ((more,) if more else ()), Cur.loc))
    if gone is not None:
        raise PyErr("FileNotFoundError", gone, Cur.loc)


def fskey(p):
    from .strs import norm, text, Op
    n = list(norm(p))
    while n and isinstance(n[0], Op) and n[0].name == "abspath" and len(n[0].args) == 1:
        n = list(n[0].args[0]) + n[1:]
    k = text(n).rstrip("/")
    while k.startswith("./"):
        k = k[2:]
    return k


@ext("os.path.splitext")
def _splitext(it, a, kw):
    if isinstance(a[0], str):
        import os
        return os.path.splitext(a[0])
    return (I.SymStr([a[0]], "root"), I.SymStr([a[0]], "ext"))


def _statop(kinds):
    def f(it, a, kw):
        fs(it, "stat", strish(a[0], "os.path.exists()"))
        st = getattr(it, "fsstate", None)
        if st is not None and not isinstance(a[0], Top):
            v = st.get(fskey(a[0]), getattr(it, "fsdefault", None))
            if v is not None:
                return bool(v) and (v in kinds if isinstance(v, str) else "dir" in kinds)
        return scalar(X.fn("lt0", X.sym("path_exists")), "b", "bool")
    return f


for _n, _k in (("exists", ("dir", "file")), ("lexists", ("dir", "file")), ("isdir", ("dir",)), ("isfile", ("file",))):
    EXT["os.path." + _n] = _statop(_k)


def children(it, d):
    """names in a directory of the modelled file system; None: unknown"""
    st = getattr(it, "fsstate", None)
    if st is None or isinstance(d, Top):
        return None
    k = fskey(d)
    v = st.get(k, getattr(it, "fsdefault", None))
    if v is False:
        raise PyErr("FileNotFoundError", k, Cur.loc)
    if v is not True or not getattr(it, "fslisted", False):
        return None
    return sorted({q[len(k) + 1:].split("/")[0] for q in st if q.startswith(k + "/") and st[q]})


@ext("os.listdir")
def _listdir(it, a, kw):
    d = a[0] if a else "."
    fs(it, "list", d)
    c = children(it, d)
    return Top("directory listing") if c is None else PList(list(c))


@ext("glob.glob", "glob.iglob")
def _glob(it, a, kw):
    import fnmatch
    fs(it, "list", a[0])
    from .strs import norm
    n = norm(a[0]) if not isinstance(a[0], Top) else []
    if len(n) == 1 and isinstance(n[0], str) and "/" in n[0] and not kw:
        d, pat = n[0].rsplit("/", 1)
        if not any(c in d for c in "*?[") and "**" not in pat:
            c = children(it, d)
            if c is not None:
                return PList([d + "/" + x for x in c if fnmatch.fnmatchcase(x, pat)])
    return Top("directory listing")


@ext("os.scandir", "os.walk", "os.stat", "os.path.getsize", "os.path.getmtime")
def _listing(it, a, kw):
    fs(it, "list", a[0] if a else ".")
    return Top("directory listing")


@ext("os.makedirs", "os.mkdir")
def _mkd(it, a, kw):
    fs(it, "mkdir", strish(a[0], "os.makedirs()"), exist_ok=native(arg(a, kw, 2, "exist_ok", False)))


@ext("shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", "os.removedirs")
def _rmt(it, a, kw):
    if native(arg(a, kw, 1, "ignore_errors", False)) is True:
        st = getattr(it, "fsstate", None)
        if st is not None and not isinstance(a[0], Top) and st.get(fskey(a[0])) is False:
            return None
    fs(it, "delete", strish(arg(a, kw, 0, "path"), "rmtree()"))


@ext("os.rename", "os.replace", "os.renames", "shutil.move")
def _mv(it, a, kw):
    fs(it, "move", strish(a[0], "rename()"), strish(a[1], "rename()"))


@ext("shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree")
def _cp(it, a, kw):
    fs(it, "write", strish(a[1], "copy()"))


@ext("os.chdir", "os.chmod", "os.chown", "os.truncate", "os.system", "os.symlink", "os.link")
def _osx(it, a, kw):
    fs(it, "other", a[0] if a else "")


@ext("os.getcwd")
def _cwd(it, a, kw):
    return I.SymStr(["."], "abspath")


@ext("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def _ppath(it, a, kw):
    if not a:
        return I.SymStr(["."], "", True)
    return I.SymStr(list(a), "/" if len(a) > 1 else "", True)


@ext("pathlib.Path.cwd")
def _pcwd(it, a, kw):
    return I.SymStr(["."], "abspath", True)


def sympath_attr(it, o, name):
    if name in ("parent", "name"):
        return I.SymStr([o], {"parent": "dirname", "name": "basename"}[name], name == "parent")
    if name in ("stem", "suffix", "parts", "parents"):
        return I.SymStr([o], name)

    def m(it2, a, k):
        if name in ("resolve", "absolute", "expanduser"):
            return I.SymStr([o], "abspath", True)
        if name == "joinpath":
            return I.SymStr([o] + list(a), "/", True)
        if name in ("with_suffix", "with_name"):
            return I.SymStr([o] + list(a), name, True)
        if name == "mkdir":
            return fs(it2, "mkdir", o, exist_ok=native(k.get("exist_ok", False)))
        if name in ("exists", "is_dir", "is_file"):
            return EXT["os.path." + {"exists": "exists", "is_dir": "isdir", "is_file": "isfile"}[name]](it2, [o], {})
        if name in ("unlink", "rmdir"):
            return fs(it2, "delete", o)
        if name in ("rename", "replace"):
            return fs(it2, "move", o, a[0])
        if name in ("write_text", "write_bytes", "touch"):
            return fs(it2, "write", o)
        if name == "open":
            return _open(it2, [o] + list(a), k)
        if name in ("iterdir", "glob", "rglob"):
            import fnmatch
            fs(it2, "list", o)
            c = children(it2, o) if name != "rglob" else None
            if c is None or (a and not isinstance(a[0], str)):
                return Top("directory listing")
            return PList([I.SymStr([o, x], "/", True) for x in c if not a or fnmatch.fnmatchcase(x, a[0])])
        if name in ("as_posix", "__str__", "__fspath__"):
            return I.SymStr([o], "")
        raise Unknown("Path.%s" % name)
    return Nat(m, "Path." + name)


@ext("json.dump", "pickle.dump")
def _jdump(it, a, kw):
    it.effects.append(("dump", "", Cur.loc))


# ------------------------------------------------------------------ equinox
@ext("equinox.field")
def _field(it, a, kw):
    st = native(kw.get("static", False))
    return FieldSpec(static=st, default=kw.get("default"), has_default="default" in kw, converter=kw.get("converter"),
                     factory=kw.get("default_factory"))


@ext("dataclasses.field")
def _dfield(it, a, kw):
    return FieldSpec(default=kw.get("default"), has_default="default" in kw, factory=kw.get("default_factory"))


def get_path(it, o, steps):
    for k, s in steps:
        if k == "a":
            o = it.getattr(o, s)
        else:
            o = it.getitem(o, s)
    return o


def set_path(it, o, steps, f):
    if not steps:
        return f(o)
    k, s = steps[0]
    if k == "a":
        if isinstance(o, Top):
            return o
        if isinstance(o, NT):
            it.getattr(o, s)
            return NT([set_path(it, x, steps[1:], f) if q == s else x for q, x in zip(it.all_fields(o.nt), o)], o.nt)
        if not isinstance(o, Obj):
            raise PyErr("AttributeError", "tree_at path .%s on %s" % (s, I.typename(o)), Cur.loc)
        if s not in o.f:
            v = it.getattr(o, s)      # raises AttributeError when missing
            raise PyErr("ValueError", "tree_at: '%s' of %s is not a field" % (s, o.cls.name), Cur.loc)
        n = Obj(o.cls)
        n.f = dict(o.f)
        n.f[s] = set_path(it, o.f[s], steps[1:], f)
        n.frozen = o.frozen
        return n
    if isinstance(o, tuple):
        xs = list(o)
        if not isinstance(s, int):
            raise Unknown("tree_at symbolic index")
        if not -len(xs) <= s < len(xs):
            raise PyErr("IndexError", "tree_at index out of range", Cur.loc)
        xs[s] = set_path(it, xs[s], steps[1:], f)
        return retuple(o, xs)
    if isinstance(o, PList):
        xs = list(o.items)
        xs[s] = set_path(it, xs[s], steps[1:], f)
        return PList(xs, o.cls)
    if isinstance(o, PDict):
        d = PDict(o.d)
        key = it.key(s)
        if key not in d.d:
            raise PyErr("KeyError", repr(s), Cur.loc)
        d.d[key] = set_path(it, d.d[key], steps[1:], f)
        return d
    if isinstance(o, Top):
        return o
    raise PyErr("TypeError", "tree_at cannot select inside %s" % I.typename(o), Cur.loc)


@ext("equinox.tree_at")
def _tree_at(it, a, kw):
    where, tree = a[0], a[1]
    rep = arg(a, kw, 2, "replace", _tree_at)
    rfn = kw.get("replace_fn")
    if isinstance(tree, Top):
        return tree
    sel = it.call(where, [Path(tree)], {})
    if isinstance(sel, Path):
        sels, single = [sel], True
    else:
        sels, single = it.iterate(sel), False
    isleaf = kw.get("is_leaf")
    if rfn is not None:
        for p in sels:
            tree = set_path(it, tree, p.steps, lambda old: it.call(rfn, [old], {}))
        return tree
    if single:
        reps = [rep]
    else:
        if isinstance(rep, Top):
            reps = [rep] * len(sels)
        else:
            reps = it.iterate(rep)
    if len(reps) != len(sels):
        raise PyErr("ValueError", "tree_at: %d nodes selected but %d replacements given" % (len(sels), len(reps)), Cur.loc)
    done = []
    for p, r in zip(sels, reps):
        if not isinstance(p, Path):
            raise Unknown("tree_at selects a computed value")
        if p.steps in done:
            raise PyErr("ValueError", "tree_at: the same node is selected twice", Cur.loc)
        done.append(p.steps)
        old = get_path(it, tree, p.steps)
        if old is None and r is not None and isleaf is None:
            raise PyErr("ValueError", "tree_at: replacing None at %s needs is_leaf" % "".join(str(s[1]) + "." for s in p.steps), Cur.loc)
        tree = set_path(it, tree, p.steps, lambda o, r=r: r)
    return tree


@ext("equinox.filter_jit", "jax.jit", "equinox.filter_checkpoint", "jax.checkpoint", "jax.remat", "jaxtyping.jaxtyped", "typeguard.typechecked", "beartype.beartype")
def _jit(it, a, kw):
    if not a:
        return Nat(lambda it2, aa, kk: aa[0], "jit")
    return a[0]


@ext("equinox.filter_vmap")
def _fvmap(it, a, kw):
    if not a:
        return Nat(lambda it2, aa, kk: _vmap(it2, [aa[0]], kw), "vmap")
    return _vmap(it, a, kw)


@ext("equinox.tree_serialise_leaves")
def _ser(it, a, kw):
    fs_leaves(it, "write", arg(a, kw, 0, "path_or_file"), "tree_serialise_leaves()", value=arg(a, kw, 1, "pytree"), by="eqx", spec=arg(a, kw, 2, "filter_spec"))


@ext("equinox.tree_deserialise_leaves")
def _deser(it, a, kw):
    fs_leaves(it, "read", arg(a, kw, 0, "path_or_file"), "tree_deserialise_leaves()", value=arg(a, kw, 1, "like"), by="eqx", spec=arg(a, kw, 2, "filter_spec"))
    x = arg(a, kw, 1, "like")
    if isinstance(x, Obj):
        o = Obj(x.cls)
        o.f, o.frozen = dict(x.f), x.frozen
        o.loaded = len(it.effects) - 1
        return o
    return x


@ext("equinox.is_array", "equinox.is_inexact_array")
def _isarr(it, a, kw):
    x = a[0]
    if isinstance(x, Top):
        return Top("is_array")
    return isinstance(x, Arr) and x.py is None


@ext("equinox.error_if")
def _errif(it, a, kw):
    return a[0]


# ------------------------------------------------------------------ jax transforms
def slice_leaf(x, axis, v):
    if isinstance(x, Arr):
        if x.py is not None or not x.shape:
            raise PyErr("ValueError", "vmap of a rank-0 argument", Cur.loc)
        k = axis % x.ndim
        return Arr(x.shape[:k] + x.shape[k + 1:], lambda *i: x.at(*i[:k], v, *i[k:]), x.dt)
    if isinstance(x, Top):
        return x
    if isinstance(x, (int, Q, bool)):
        raise PyErr("ValueError", "vmap was requested to map a scalar argument", Cur.loc)
    return x


def axes_like(it, ax, x):
    """map leaves of x with axis spec ax; yields sizes"""
    return ax


def vmap_slice(it, x, ax, v, sizes):
    ax = native(ax) if not isinstance(ax, (tuple, PList, PDict, Obj)) else ax
    if ax is None:
        return x
    if isinstance(ax, int):
        def f(leaf):
            if isinstance(leaf, Arr) and leaf.py is None and leaf.shape:
                sizes.append(leaf.shape[ax % leaf.ndim])
            elif isinstance(leaf, Arr) and leaf.py is None and not leaf.shape:
                raise PyErr("ValueError", "vmap was requested to map its argument along axis %d, but its rank is 0" % ax, Cur.loc)
            return slice_leaf(leaf, ax, v)
        if x is None:
            return None
        return tree_map(f, x)
    if isinstance(ax, (tuple, PList)) and isinstance(x, (tuple, PList)):
        xs = it.iterate(x)
        axs = it.iterate(ax)
        r = [vmap_slice(it, p, q, v, sizes) for p, q in zip(xs, axs)]
        return retuple(x, r) if isinstance(x, tuple) else PList(r)
    raise Unknown("vmap in_axes structure")


@ext("jax.vmap")
def _vmap(it, a, kw):
    if not a:
        return Nat(lambda it2, aa, kk: _vmap(it2, aa, dict(kw)), "vmap")
    fun = a[0]
    in_axes = arg(a, kw, 1, "in_axes", 0)
    out_axes = arg(a, kw, 2, "out_axes", 0)

    def run(it2, args, kws):
        v = X.fresh_bv()
        sizes = []
        ia = in_axes
        if isinstance(ia, PList):
            ia = tuple(ia.items)
        if isinstance(ia, tuple):
            if len(ia) != len(args):
                raise PyErr("ValueError", "vmap in_axes has %d entries but %d arguments were passed" % (len(ia), len(args)), Cur.loc)
            axs = list(ia)
        else:
            axs = [ia] * len(args)
        sl = [vmap_slice(it2, x, ax, v, sizes) for x, ax in zip(args, axs)]
        kk = {k: vmap_slice(it2, x, 0, v, sizes) for k, x in kws.items()}
        if not sizes:
            if any(isinstance(x, Top) for x in args):
                return Top("vmap over unknown")
            raise PyErr("ValueError", "vmap must have at least one non-None value in in_axes", Cur.loc)
        for s in sizes[1:]:
            if not same_dim(s, sizes[0]):
                if isinstance(s, int) and isinstance(sizes[0], int):
                    raise PyErr("ValueError", "vmap got inconsistent sizes %s" % (sizes,), Cur.loc)
                mismatch(s, sizes[0], "vmap got inconsistent sizes %s" % (sizes,))
        n = sizes[0]
        r = it2.call(fun, sl, kk)
        oa = native(out_axes) if not isinstance(out_axes, (tuple, PList)) else out_axes
        if oa is None:
            return r

        def un(leaf, ax=0):
            if isinstance(leaf, Top):
                return leaf
            leaf = lift(leaf)
            k = ax % (leaf.ndim + 1)
            return Arr(leaf.shape[:k] + (n,) + leaf.shape[k:],
                       lambda *i: X.subst(leaf.at(*i[:k], *i[k + 1:]), {v: i[k]}) if i[k] is not v else leaf.at(*i[:k], *i[k + 1:]), leaf.dt)
        if isinstance(oa, (tuple, PList)):
            oas = it2.iterate(oa)
            rs = it2.iterate(r)
            return tuple(tree_map(lambda l, q=q: un(l, native(q)), x) if native(q) is not None else x for x, q in zip(rs, oas))
        return tree_map(lambda l: un(l, oa), r)
    return Nat(run, "vmap")


def bind_name(it, f, a, kw):
    return a


@ext("jax.lax.cond")
def _cond(it, a, kw):
    pred = arg(a, kw, 0, "pred")
    tf = arg(a, kw, 1, "true_fun")
    ff = arg(a, kw, 2, "false_fun")
    ops = list(a[3:])
    if "operand" in kw:
        ops.append(kw["operand"])
    if isinstance(pred, Top):
        raise Unknown("cond on unknown predicate")
    n = len(it.concrete)
    try:
        c = it.truth(pred)
    except Unknown:
        p = lift(pred)
        if not isinstance(p, Arr) or p.shape:
            raise
        c = X.asbool(p.at())
    del it.concrete[n:]
    if c is True:
        return it.call(tf, ops, {})
    if c is False:
        return it.call(ff, ops, {})
    it.merges.append((c, Cur.loc))
    x = it.call(tf, ops, {})
    y = it.call(ff, ops, {})
    check_same_struct(it, x, y)
    return it.merge(c, x, y)


def check_same_struct(it, x, y):
    if isinstance(x, Arr) and isinstance(y, Arr):
        if len(x.shape) != len(y.shape):
            raise PyErr("TypeError", "cond branches return different shapes %s / %s" % (x.shape, y.shape), Cur.loc)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) != len(y):
        raise PyErr("TypeError", "cond branches return different structures", Cur.loc)


@ext("jax.lax.switch")
def _switch(it, a, kw):
    idx = arg(a, kw, 0, "index")
    brs = it.iterate(arg(a, kw, 1, "branches"))
    ops = list(a[2:])
    if "operand" in kw:
        ops.append(kw["operand"])
    k = native(idx)
    if isinstance(k, int):
        k = max(0, min(len(brs) - 1, k))
        return it.call(brs[k], ops, {})
    rs = [it.call(f, ops, {}) for f in brs]
    i = lift(idx).at()
    i = X.clip(i, X.ZERO, X.C(len(brs) - 1))

    def leaf(*xs):
        return ew(lambda *es: X.select(i, es), *xs)
    return tree_merge(leaf, rs)


@ext("jax.lax.select", "jax.lax.select_n")
def _lselect(it, a, kw):
    return NUM["where"](it, a, {})


def havoc(it, x, tag):
    cnt = itertools.count()

    def f(leaf):
        leaf = lift(leaf) if not isinstance(leaf, Top) else leaf
        if isinstance(leaf, Top):
            return leaf
        nm = "%s.%d" % (tag, next(cnt))
        if leaf.dt == "i":
            nm = "#" + nm
        if leaf.dt == "b":
            return Arr(leaf.shape, lambda *i: X.fn("lt0", X.sym(nm, *i)), "b")
        return Arr(leaf.shape, lambda *i: X.sym(nm, *i), leaf.dt)
    return tree_map(f, x)


class Scan:
    def __init__(self, kind, loc, tag, init, carry, x, out_carry, ys, length):
        self.kind, self.loc, self.tag, self.init, self.carry, self.x = kind, loc, tag, init, carry, x
        self.out_carry, self.ys, self.length = out_carry, ys, length


_scn = itertools.count()


@ext("jax.lax.scan")
def _scan(it, a, kw):
    f = arg(a, kw, 0, "f")
    init = arg(a, kw, 1, "init")
    xs = arg(a, kw, 2, "xs")
    length = native(arg(a, kw, 3, "length"))
    loc = Cur.loc
    v = X.fresh_bv()
    sizes = []
    x = vmap_slice(it, xs, 0, v, sizes) if xs is not None else None
    n = sizes[0] if sizes else (length if length is not None else None)
    if n is None:
        raise Unknown("scan without a length")
    if isinstance(n, Arr):
        n = dim_of(n)
    if isinstance(n, int) and n <= getattr(it, "unroll", 4):
        carry, ys = init, []
        for k in range(n):
            xk = vmap_slice(it, xs, 0, X.C(k), []) if xs is not None else None
            r = it.iterate(it.call(f, [carry, xk], {}), 2)
            carry = r[0]
            ys.append(r[1])
        y = tree_merge(lambda *l: stack(list(l), 0), ys) if len(ys) > 1 else (tree_map(lambda l: stack([l], 0), ys[0]) if ys else None)
        return (carry, y)
    tag = "scan%d" % next(_scn)
    carry = havoc(it, init, tag + ".c")
    r = it.iterate(it.call(f, [carry, x], {}), 2)
    out = havoc(it, init, tag + ".out")

    cnt = itertools.count()

    def un(leaf):
        if isinstance(leaf, Top):
            return leaf
        leaf = lift(leaf)
        nm = "%s.y.%d" % (tag, next(cnt))
        return Arr((n,) + leaf.shape, lambda *i: X.sym(nm, *i), leaf.dt)
    ys = tree_map(un, r[1])
    it.scans.append(Scan("scan", loc, tag, init, carry, (x, v), r[0], r[1], n))
    return (out, ys)


@ext("jax.lax.fori_loop")
def _fori(it, a, kw):
    lo, hi, f, init = native(a[0]), native(a[1]), a[2], a[3]
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 4:
        c = init
        for k in range(lo, hi):
            c = it.call(f, [k, c], {})
        return c
    tag = "fori%d" % next(_scn)
    carry = havoc(it, init, tag + ".c")
    i = scalar(X.sym("#" + tag + ".i"), "i")
    out = it.call(f, [i, carry], {})
    it.scans.append(Scan("fori", Cur.loc, tag, init, carry, (i, None), out, None, (lo, hi)))
    return havoc(it, init, tag + ".out")


@ext("jax.lax.while_loop")
def _while(it, a, kw):
    cf, bf, init = arg(a, kw, 0, "cond_fun"), arg(a, kw, 1, "body_fun"), arg(a, kw, 2, "init_val")
    tag = "while%d" % next(_scn)
    carry = havoc(it, init, tag + ".c")
    it.call(cf, [carry], {})
    out = it.call(bf, [carry], {})
    it.scans.append(Scan("while", Cur.loc, tag, init, carry, None, out, None, None))
    return havoc(it, init, tag + ".out")


@ext("jax.lax.stop_gradient")
def _sg(it, a, kw):
    return ew(lambda e: e if X.isc(e) else X.fn("stopgrad", e), a[0]) if not isinstance(a[0], Top) else a[0]


_gn = itertools.count()


def diff_setup(it, fun, args, argnum):
    x = args[argnum]
    if isinstance(x, Top):
        raise Unknown("derivative with respect to unknown")
    if not isinstance(x, (Arr, int, Q)):
        raise Unknown("derivative with respect to a tree")
    x = lift(x)
    if not all(isinstance(d, int) for d in x.shape):
        raise Unknown("derivative with respect to an array of symbolic size")
    tag = "grad%d" % next(_gn)
    idxs = list(itertools.product(*[range(d) for d in x.shape]))
    names = {ix: X.sym("%s_%s" % (tag, "_".join(map(str, ix)))) for ix in idxs}

    def el(*i):
        if all(X.isc(k) for k in i):
            return names[tuple(int(X.cval(k)) for k in i)]

        def go(pre, rest):
            if not rest:
                return names[pre]
            return X.select(rest[0], [go(pre + (k,), rest[1:]) for k in range(x.shape[len(pre)])])
        return go((), tuple(i))
    xv = Arr(x.shape, el, "f")
    back = {names[ix]: x.at(*[X.C(k) for k in ix]) for ix in idxs}
    args = list(args)
    args[argnum] = xv
    return x, args, names, back, tag


def grad_fn(it, a, kw, mode):
    fun = a[0] if a else None
    if fun is None:
        return Nat(lambda it2, aa, kk: grad_fn(it2, aa, kw, mode), mode)
    argnums = native(arg(a, kw, 1, "argnums", 0))
    has_aux = native(kw.get("has_aux", False)) is True

    def run(it2, args, kws):
        ks = argnums if isinstance(argnums, tuple) else (argnums,)
        outs = []
        val = None
        aux = None
        for k in ks:
            k = native(k)
            x, ar, names, back, tag = diff_setup(it2, fun, args, k)
            ns = len(it2.scans)
            r = it2.call(fun, ar, kws)
            if has_aux:
                r, aux = it2.iterate(r, 2)
            if isinstance(r, Top):
                return r
            scanned = {s.tag for s in it2.scans[ns:]}

            def dres(leaf):
                leaf = lift(leaf)
                if isinstance(leaf, Top):
                    return leaf

                def el(*i):
                    oi, xi = i[:leaf.ndim], i[leaf.ndim:]

                    def at(pre, rest):
                        if not rest:
                            e = leaf.at(*oi)
                            if any(s.split(".")[0].lstrip("#") in scanned for s in X.syms(e)):
                                return X.top("derivative through a loop")
                            d = X.diff(e, names[pre])
                            return unstop(X.subst(d, back))
                        if X.isc(rest[0]):
                            return at(pre + (int(X.cval(rest[0])),), rest[1:])
                        return X.select(rest[0], [at(pre + (q,), rest[1:]) for q in range(x.shape[len(pre)])])
                    return at((), tuple(xi))
                return Arr(leaf.shape + x.shape, el, "f")
            if mode in ("grad", "value_and_grad"):
                l = lift(r)
                if isinstance(l, Arr) and l.shape != ():
                    raise PyErr("TypeError", "gradient of a function with non-scalar output %s" % (l.shape,), Cur.loc)
            outs.append(tree_map(dres, r))

            def ub(leaf):
                leaf = lift(leaf)
                if isinstance(leaf, Top):
                    return leaf
                return Arr(leaf.shape, lambda *i: X.subst(leaf.at(*i), back), leaf.dt)
            val = tree_map(ub, r)
            if aux is not None:
                aux = tree_map(ub, aux)
        g = tuple(outs) if isinstance(argnums, tuple) else outs[0]
        if mode == "value_and_grad":
            return ((val, aux), g) if has_aux else (val, g)
        return (g, aux) if has_aux else g
    return Nat(run, mode)


def unstop(e):
    return e


EXT["jax.grad"] = EXT["equinox.filter_grad"] = lambda it, a, kw: grad_fn(it, a, kw, "grad")
EXT["jax.value_and_grad"] = EXT["equinox.filter_value_and_grad"] = lambda it, a, kw: grad_fn(it, a, kw, "value_and_grad")
def jac_each(it, f, primals):
    """value of f at the arguments and its derivative by each of them"""
    val = it.call(f, list(primals), {})
    return val, [it.call(grad_fn(it, [f], {"argnums": k}, "jac"), list(primals), {}) for k in range(len(primals))]


def push(it, js, ts):
    def dot(j, t):
        j, t = lift(j), lift(t)
        if isinstance(j, Top) or isinstance(t, Top):
            return Top("derivative of unknown")
        k = j.ndim - t.ndim
        return Arr(j.shape[:k], lambda *i: X.add(*[X.mul(j.at(*i, *map(X.C, q)), t.at(*map(X.C, q))) for q in itertools.product(*[range(d) for d in t.shape])]), "f")
    out = None
    for j, t in zip(js, ts):
        r = tree_map(lambda l: dot(l, t), j)
        out = r if out is None else tree_merge(lambda x, y: it.binop(I.ast.Add, x, y), [out, r])
    return out


@ext("jax.jvp")
def _jvp(it, a, kw):
    val, js = jac_each(it, a[0], it.iterate(a[1]))
    return (val, push(it, js, it.iterate(a[2])))


@ext("jax.linearize")
def _linearize(it, a, kw):
    if kw:
        raise Unknown("jax.linearize options")
    val, js = jac_each(it, a[0], a[1:])
    return (val, Nat(lambda it2, ts, k: push(it2, js, ts), "linear map"))


@ext("jax.vjp")
def _vjp(it, a, kw):
    if kw:
        raise Unknown("jax.vjp options")
    val, js = jac_each(it, a[0], a[1:])

    def pull(it2, cts, k):
        ct = cts[0]
        if not isinstance(val, Arr) or any(not isinstance(d, int) for d in val.shape):
            raise Unknown("jax.vjp of a structure")
        c = lift(ct)
        out = []
        for j in js:
            j, n = lift(j), val.ndim
            out.append(Arr(j.shape[n:], lambda *i, j=j: X.add(*[X.mul(c.at(*map(X.C, q)), j.at(*map(X.C, q), *i)) for q in itertools.product(*[range(d) for d in val.shape])]), "f"))
        return tuple(out)
    return (val, Nat(pull, "pullback"))


EXT["jax.jacfwd"] = EXT["jax.jacrev"] = EXT["jax.jacobian"] = lambda it, a, kw: grad_fn(it, a, kw, "jac")


@ext("jax.tree.map", "jax.tree_util.tree_map", "jax.tree_map")
def _treemap(it, a, kw):
    f = a[0]
    if len(a) == 2:
        return tree_map(lambda l: it.call(f, [l], {}), a[1])
    return tree_merge(lambda *ls: it.call(f, list(ls), {}), list(a[1:]))


@ext("jax.tree.leaves", "jax.tree_util.tree_leaves")
def _leaves(it, a, kw):
    out = []
    tree_map(lambda l: out.append(l) or l, a[0])
    return PList(out)


@ext("jax.nn.sigmoid")
def _sigmoid(it, a, kw):
    return ew(lambda e: X.fn("sigmoid", e), a[0])


@ext("jax.nn.relu")
def _relu(it, a, kw):
    return ew(lambda e: X.max_(e, X.ZERO), a[0])


@ext("jax.nn.softplus")
def _sp(it, a, kw):
    return ew(lambda e: X.log(X.add(X.ONE, X.exp(e))), a[0])


@ext("jax.nn.one_hot")
def _onehot(it, a, kw):
    x = lift(a[0])
    n = native(arg(a, kw, 1, "num_classes"))
    return Arr(x.shape + (n,), lambda *i: X.where(X.eq(x.at(*i[:-1]), i[-1]), X.ONE, X.ZERO), "f")


@ext("jax.nn.logsumexp", "jax.scipy.special.logsumexp")
def _lse(it, a, kw):
    x = lift(a[0])
    ex = ew(X.exp, x, dt="f")
    return ew(X.log, reduce_sum(ex, arg(a, kw, 1, "axis"), native(kw.get("keepdims", False))), dt="f")


@ext("jax.scipy.linalg.expm")
def _expm(it, a, kw):
    x = lift(a[0])
    if isinstance(x, Top):
        return x
    n = x.shape[-1]

    def fn(*i):
        pre, r, c = i[:-2], i[-2], i[-1]
        ms = [x.at(*pre, X.C(p), X.C(q)) for p in range(n) for q in range(n)]
        return X.fn("expm", r, c, *ms)
    return Arr(x.shape, fn, "f")


@ext("jax.scipy.ndimage.map_coordinates")
def _mapc(it, a, kw):
    img, co = L(arg(a, kw, 0, "input")), L(arg(a, kw, 1, "coordinates"))
    if isinstance(co, Top) or isinstance(img, Top):
        return T("map_coordinates")
    order = native(arg(a, kw, 2, "order"))
    mode = native(arg(a, kw, 3, "mode", "constant"))
    nd = img.ndim
    if not (isinstance(co.shape[0], int) and co.shape[0] == nd):
        raise PyErr("ValueError", "map_coordinates: coordinates must be a sequence of length input.ndim", Cur.loc)
    if order not in (0, 1) or mode not in ("nearest", "constant", "wrap", "mirror", "reflect"):
        raise Unknown("map_coordinates order=%s mode=%s" % (order, mode))

    def mirror(i, n):
        return X.sub(X.sub(n, X.ONE), X.abs_(X.sub(X.mod(i, X.sub(X.mul(X.C(2), n), X.C(2))), X.sub(n, X.ONE))))

    def fold(i, n):
        if mode == "wrap":
            return X.mod(i, n)
        if mode == "mirror":
            return mirror(i, n)
        if mode == "reflect":
            return X.floordiv(mirror(X.add(X.mul(X.C(2), i), X.ONE), X.add(X.mul(X.C(2), n), X.ONE)), X.C(2))
        return X.clip(i, X.ZERO, X.sub(n, X.ONE))
    ns = [dimE(d) for d in img.shape]
    cv = arg(a, kw, 4, "cval", 0.0)
    cv = X.toE(lift(cv).at())

    def node(ix):
        ok = X.and_(*[X.and_(X.ge(i, X.ZERO), X.lt(i, n)) for i, n in zip(ix, ns)])
        v = img.at(*[fold(i, n) for i, n in zip(ix, ns)])
        return v if mode != "constant" else X.where(ok, v, cv)

    def fn(*i):
        c = [co.at(X.C(k), *i) for k in range(nd)]
        if order == 0:
            return node([rnd(x) for x in c])
        lo = [X.floor(x) for x in c]
        out = []
        for bits in itertools.product((0, 1), repeat=nd):
            w = [X.sub(x, l) if b_ else X.sub(X.ONE, X.sub(x, l)) for x, l, b_ in zip(c, lo, bits)]
            out.append(X.mul(*w, node([X.add(l, X.C(b_)) for l, b_ in zip(lo, bits)])))
        return X.add(*out)
    return Arr(co.shape[1:], fn, "f")


@ext("jax.random.PRNGKey", "jax.random.key")
def _key(it, a, kw):
    return Arr((2,), lambda i: X.fn("rngkey", X.toE(native(a[0])) if isnum(native(a[0])) else X.ZERO, i), "i", note="key")


@ext("jax.random.split")
def _split(it, a, kw):
    k = lift(a[0])
    n = native(arg(a, kw, 1, "num", 2))
    return Arr((n, 2), lambda i, j: X.fn("rngsplit", i, k.at(X.ZERO), j), "i", note="key")


@ext("jax.random.uniform")
def _uniform(it, a, kw):
    key = lift(a[0])
    shape = arg(a, kw, 1, "shape", ())
    lo = arg(a, kw, 3, "minval", 0)
    hi = arg(a, kw, 4, "maxval", 1)
    shp = shape_arg(it, shape)
    k0 = key.at(*[X.ZERO] * key.ndim)
    tag = X.fn("rng", k0)
    u = Arr(shp, lambda *i: X.fn("uniform01", k0, *i), "f")
    lo, hi = lift(lo), lift(hi)
    return ew(lambda p, q, r: X.add(p, X.mul(r, X.sub(q, p))), broadcast_to(lo, shp), broadcast_to(hi, shp), u)


@ext("jax.random.normal")
def _normal(it, a, kw):
    key = lift(a[0])
    shp = shape_arg(it, arg(a, kw, 1, "shape", ()))
    k0 = key.at(*[X.ZERO] * key.ndim)
    return Arr(shp, lambda *i: X.fn("normal01", k0, *i), "f")


def gauss_legendre(n):
    """nodes and weights of the n-point rule on [-1, 1]"""
    import math
    xs, ws = [], []
    for k in range(n):
        x = -math.cos(math.pi * (k + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for m in range(2, n + 1):
                p0, p1 = p1, ((2 * m - 1) * x * p1 - (m - 1) * p0) / m
            d = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / d
            x -= dx
            if abs(dx) < 1e-15:
                break
        xs.append(x)
        ws.append(2 / ((1 - x * x) * d * d))
    return xs, ws


@ext("numpy.polynomial.legendre.leggauss")
def _leggauss(it, a, kw):
    n = native(lift(arg(a, kw, 0, "deg")))
    if not isinstance(n, int):
        return Top("leggauss")
    xs, ws = gauss_legendre(n)
    return tuple(Arr((n,), (lambda v: lambda i: X.select(i, [X.C(Q(t)) for t in v]) if not X.isc(i) else X.C(Q(v[int(X.cval(i))])))(v), "f") for v in (xs, ws))


@ext("jax.debug.print", "jax.debug.callback", "jax.debug.breakpoint")
def _dbg(it, a, kw):
    it.effects.append(("call", "jax.debug", Cur.loc))


@ext("jax.device_put", "jax.block_until_ready", "jax.device_get")
def _dp(it, a, kw):
    return a[0]


@ext("jax.config.update", "jax.config.update")
def _cfg(it, a, kw):
    it.effects.append(("config", repr(a), Cur.loc))


@ext("jax.ops.segment_sum")
def _seg(it, a, kw):
    d, ids = lift(a[0]), a[1]
    n = dim_of(arg(a, kw, 2, "num_segments"))
    z = Arr((n,) + d.shape[1:], lambda *i: X.ZERO, d.dt)
    return at_update(z, (ids,), d, "add")


# ------------------------------------------------------------------ array attributes
def at_method(it, o, name, a, kw):
    if name == "get":
        return getitem(o.arr, o.index if len(o.index) != 1 else o.index[0]) if o.index is not None else o.arr
    if name in ("set", "add", "multiply", "mul", "divide", "subtract", "max", "min", "power"):
        ix = o.index
        if ix is None:
            raise PyErr("TypeError", ".at needs an index", Cur.loc)
        ix = ix[0] if len(ix) == 1 else ix
        return at_update(o.arr, ix, a[0] if a else kw.get("values"), "multiply" if name == "mul" else name, kw)
    if name == "apply":
        old = getitem(o.arr, o.index[0])
        return at_update(o.arr, o.index[0], it.call(a[0], [old], {}), "set")
    raise PyErr("AttributeError", "at[].%s" % name, Cur.loc)


ARRM = {"sum", "min", "max", "mean", "prod", "any", "all", "argmin", "argmax", "std", "var", "dot", "clip", "round", "cumsum",
        "repeat", "take", "trace", "conj", "swapaxes", "diagonal", "nonzero", "sort", "argsort", "cumprod"}


def arr_attr(it, o, name):
    if o.py is not None:
        return num_attr(it, o, name)
    r = arr_attr0(it, o, name)
    if o.np:
        if isinstance(r, Arr) and r.py is None and r is not o:
            r.np = True
        elif isinstance(r, Nat):
            def f(it2, a, k, g=r.f):
                v = g(it2, a, k)
                if isinstance(v, Arr) and v.py is None:
                    if v is o:
                        v = Arr(o.shape, o.at, o.dt, None, o.note)
                    v.np = True
                return v
            return Nat(f, r.name)
    return r


def arr_attr0(it, o, name):
    if name == "shape":
        return tuple(dimv(d) for d in o.shape)
    if name == "ndim":
        return o.ndim
    if name == "size":
        return dimv(size_of(o.shape))
    if name == "T" or name == "mT":
        if name == "mT":
            return transpose(o, tuple(range(o.ndim - 2)) + (o.ndim - 1, o.ndim - 2))
        return transpose(o)
    if name == "at":
        return AtRef(o)
    if name == "dtype":
        return Ext("jax.numpy." + {"f": "float32", "i": "int32", "b": "bool_"}[o.dt])
    if name == "real":
        return o
    if name in ("astype", "view"):
        return Nat(lambda it2, a, k: astype(o, a[0] if a else k.get("dtype")), "astype")
    if name == "reshape":
        def rs(it2, a, k):
            shp = a[0] if len(a) == 1 and isinstance(a[0], (tuple, PList)) else tuple(a)
            if not a and "shape" in k:
                shp = k["shape"]
            return reshape(o, it2.iterate(shp))
        return Nat(rs, "reshape")
    if name in ("flatten", "ravel"):
        return Nat(lambda it2, a, k: reshape(o, [-1]), name)
    if name == "squeeze":
        def sq(it2, a, k):
            ax = native(arg(a, k, 0, "axis"))
            return squeeze(o, tuple(it2.iterate(ax)) if isinstance(ax, (tuple, PList)) else ax)
        return Nat(sq, "squeeze")
    if name == "transpose":
        return Nat(lambda it2, a, k: transpose(o, [native(x) for x in (it2.iterate(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PList)) else a)] if a else None), "transpose")
    if name in ("copy", "block_until_ready", "__array__"):
        return Nat(lambda it2, a, k: o, name)
    if name == "tolist":
        def tl(it2, a, k):
            it2.conc("tolist()", o)
            def go(x):
                if not x.shape:
                    v = native(x)
                    if isinstance(v, Arr):
                        v = scalar(x.at(), x.dt, "float" if x.dt == "f" else "int")
                    return v
                return PList([go(y) for y in it2.iterate(x)])
            return go(o)
        return Nat(tl, "tolist")
    if name == "item":
        def item(it2, a, k):
            it2.conc("item()", o)
            return scalar(o.at(*[X.ZERO] * o.ndim), o.dt, "float" if o.dt == "f" else "int")
        return Nat(item, "item")
    if name in ARRM:
        f = NUM.get(name)
        if f is not None:
            return Nat(lambda it2, a, k: f(it2, [o] + list(a), k), name)
        return Nat(lambda it2, a, k: Top("array method " + name), name)
    if name in ("__len__",):
        return Nat(lambda it2, a, k: dimv(o.shape[0]), name)
    if name in ("device", "devices", "sharding", "nbytes", "itemsize", "weak_type", "addressable_shards", "is_deleted", "aval", "on_device_size_in_bytes"):
        return Top(name)
    if name in ("imag", "fill", "partition", "put", "resize", "setflags", "tobytes", "unsafe_buffer_pointer", "view", "flat", "compress", "choose", "searchsorted", "ptp", "itemset"):
        return Top(name)
    if name in ("__getitem__",):
        return Nat(lambda it2, a, k: it2.getitem(o, a[0]), name)
    if name in ARRATTR or (o.np and name in NPATTR) or (name.startswith("__") and hasattr(float, name)) or name in ("__array_priority__", "__jax_array__", "__iter__", "__contains__", "__matmul__", "__rmatmul__"):
        return Top("array attribute " + name)
    raise PyErr("AttributeError", "array has no attribute '%s'" % name, Cur.loc)


# attributes of the installed jax.Array and numpy.ndarray
ARRATTR = set("""T addressable_data addressable_shards all any argmax argmin argpartition argsort astype at aval block_until_ready
byteswap choose clip clone committed compress conj conjugate copy copy_to_host_async cumprod cumsum delete device device_buffer
device_buffers devices diagonal dot dtype flat flatten format global_shards imag is_deleted is_fully_addressable is_fully_replicated
is_ready item itemsize mT max mean min nbytes ndim nonzero on_device_size_in_bytes platform prod ptp ravel real repeat reshape round
searchsorted shape sharding size sort squeeze std sum swapaxes take to_device tobytes tolist trace traceback transpose
unsafe_buffer_pointer unsafe_raw_buffer var view weak_type""".split())
NPATTR = set("base ctypes data dump dumps fill flags getfield partition put resize setfield setflags strides tofile".split())


def num_attr(it, o, name):
    if name in ("real",):
        return o
    if name in ("is_integer", "as_integer_ratio", "conjugate", "imag", "hex", "bit_length", "__class__", "__add__", "__float__", "__int__", "numerator", "denominator", "to_bytes", "__format__"):
        return Top(name)
    if hasattr({"int": int, "bool": bool}.get(I.typename(o), float), name):
        return Top(name)
    raise PyErr("AttributeError", "'%s' object has no attribute '%s'" % (I.typename(o), name), Cur.loc)


def dtype_kind(t):
    if isinstance(t, Ext):
        n = t.name.split(".")[-1]
        if n.startswith("float") or n in ("double", "single", "half", "bfloat16"):
            return "f"
        if n.startswith(("int", "uint")):
            return "i"
        if n.startswith("bool"):
            return "b"
    if isinstance(t, str):
        return "f" if t.startswith("f") else "b" if t.startswith("b") else "i" if t[:1] in "iu" else None
    return None


def astype(o, t):
    if isinstance(o, Top):
        return o
    k = dtype_kind(t)
    if k is None:
        return Arr(o.shape, o.fn, o.dt) if isinstance(t, (Top,)) else o
    nm = (t.name.split(".")[-1] if isinstance(t, Ext) else t) if isinstance(t, (Ext, str)) else ""
    if nm in NARROW:
        return NARROW[nm](wide_astype(o, k))
    return wide_astype(o, k)


def wrapint(bits, signed):
    m = X.C(2 ** bits)
    h = X.C(2 ** (bits - 1))
    f = (lambda e: X.sub(X.mod(X.add(e, h), m), h)) if signed else (lambda e: X.mod(e, m))
    return lambda o: ew(f, o, dt="i")


# element types too narrow for exact node numbers or lengths; 32 bits and more are taken as exact
NARROW = {"int8": wrapint(8, True), "uint8": wrapint(8, False), "int16": wrapint(16, True), "uint16": wrapint(16, False)}
for _h in ("float16", "half", "bfloat16"):
    NARROW[_h] = lambda o, _b=("bf" if _h == "bfloat16" else "half"): ew(lambda e: e if e.op == "c" and e.args[0].denominator == 1 and abs(e.args[0]) < 200 else X.fn(_b + "float", e), o, dt="f")


def wide_astype(o, k):
    if k == o.dt:
        return o
    if k == "i":
        if o.dt == "b":
            return ew(X.num, o, dt="i")
        return ew(trunc_int, o, dt="i")
    if k == "f":
        r = ew(X.num, o, dt="f")
        return r
    return ew(X.asbool, o, dt="b")


def trunc_int(e):
    return trunc(e)


def container_attr(it, o, name):
    if isinstance(o, PList):
        def cal(f):
            return Nat(f, "list." + name)
        if name == "append":
            return cal(lambda it2, a, k: o.items.append(a[0]))
        if name == "extend":
            return cal(lambda it2, a, k: o.items.extend(it2.iterate(a[0])))
        if name == "insert":
            return cal(lambda it2, a, k: o.items.insert(native(a[0]), a[1]))
        if name == "pop":
            def pop(it2, a, k):
                if not o.items:
                    raise PyErr("IndexError", "pop from empty list", Cur.loc)
                return o.items.pop(native(a[0]) if a else -1)
            return cal(pop)
        if name == "copy":
            return cal(lambda it2, a, k: PList(o.items, o.cls))
        if name == "clear":
            return cal(lambda it2, a, k: o.items.clear())
        if name == "reverse":
            return cal(lambda it2, a, k: o.items.reverse())
        if name == "index":
            def index(it2, a, k):
                for j, x in enumerate(o.items):
                    r = it2.equals(x, a[0])
                    if r is True:
                        return j
                    if r is not False:
                        raise Unknown("index of symbolic")
                raise PyErr("ValueError", "not in list", Cur.loc)
            return cal(index)
        if name == "count":
            return cal(lambda it2, a, k: sum(1 for x in o.items if it2.equals(x, a[0]) is True))
        if name == "sort":
            def sort(it2, a, k):
                o.items = EXT["builtins.sorted"](it2, [o], k).items
            return cal(sort)
        if name == "remove":
            def remove(it2, a, k):
                for j, x in enumerate(o.items):
                    if it2.equals(x, a[0]) is True:
                        del o.items[j]
                        return
                raise PyErr("ValueError", "not in list", Cur.loc)
            return cal(remove)
        if o.cls is not None:
            m = o.cls.lookup(name)
            if isinstance(m, Func):
                return Bound(o, m)
            if isinstance(m, Prop):
                return it.call(m.fget, [o], {})
    if isinstance(o, PDict):
        if name == "get":
            return Nat(lambda it2, a, k: o.d.get(it2.key(a[0]), a[1] if len(a) > 1 else k.get("default")), "dict.get")
        if name == "items":
            return Nat(lambda it2, a, k: tuple((kk, v) for kk, v in o.d.items()), "dict.items")
        if name == "keys":
            return Nat(lambda it2, a, k: tuple(o.d.keys()), "dict.keys")
        if name == "values":
            return Nat(lambda it2, a, k: tuple(o.d.values()), "dict.values")
        if name == "copy":
            return Nat(lambda it2, a, k: PDict(o.d), "dict.copy")
        if name == "update":
            def upd(it2, a, k):
                if a:
                    o.d.update(_dict(it2, a, {}).d)
                o.d.update(k)
            return Nat(upd, "dict.update")
        if name == "pop":
            def dpop(it2, a, k):
                kk = it2.key(a[0])
                if kk in o.d:
                    return o.d.pop(kk)
                if len(a) > 1:
                    return a[1]
                raise PyErr("KeyError", repr(kk), Cur.loc)
            return Nat(dpop, "dict.pop")
        if name == "setdefault":
            return Nat(lambda it2, a, k: o.d.setdefault(it2.key(a[0]), a[1] if len(a) > 1 else None), "dict.setdefault")
        if name == "clear":
            return Nat(lambda it2, a, k: o.d.clear(), "dict.clear")
        if name == "popitem":
            def popitem(it2, a, k):
                if not o.d:
                    raise PyErr("KeyError", "popitem(): dictionary is empty", Cur.loc)
                return o.d.popitem()
            return Nat(popitem, "dict.popitem")
    if isinstance(o, PSet):
        if name == "add":
            return Nat(lambda it2, a, k: o.items.append(native(a[0])) if native(a[0]) not in o.items else None, "set.add")
        if name == "union":
            return Nat(lambda it2, a, k: PSet(o.items + [x for y in a for x in it2.iterate(y)]), "set.union")
        if name in ("discard", "remove"):
            def discard(it2, a, k):
                if native(a[0]) in o.items:
                    o.items.remove(native(a[0]))
                elif name == "remove":
                    raise PyErr("KeyError", repr(a[0]), Cur.loc)
            return Nat(discard, "set.discard")
        if name == "copy":
            return Nat(lambda it2, a, k: PSet(o.items), "set.copy")
        if name == "clear":
            return Nat(lambda it2, a, k: o.items.clear(), "set.clear")
        if name in ("issubset", "issuperset", "isdisjoint"):
            def sub(it2, a, k):
                xs = it2.iterate(a[0])
                if name == "issubset":
                    return all(x in xs for x in o.items)
                return all(x in o.items for x in xs) if name == "issuperset" else not any(x in o.items for x in xs)
            return Nat(sub, "set." + name)
        if name == "symmetric_difference":
            return Nat(lambda it2, a, k: PSet([x for x in o.items if x not in it2.iterate(a[0])] + [x for x in it2.iterate(a[0]) if x not in o.items]), "set." + name)
        if name == "update":
            return Nat(lambda it2, a, k: o.items.extend([x for x in it2.iterate(a[0]) if x not in o.items]), "set.update")
        if name == "difference":
            return Nat(lambda it2, a, k: PSet([x for x in o.items if x not in it2.iterate(a[0])]), "set.difference")
        if name == "intersection":
            return Nat(lambda it2, a, k: PSet([x for x in o.items if x in it2.iterate(a[0])]), "set.intersection")
    if isinstance(o, tuple):
        if name == "index":
            return Nat(lambda it2, a, k: list(o).index(native(a[0])), "tuple.index")
        if name == "count":
            return Nat(lambda it2, a, k: sum(1 for x in o if it2.equals(x, a[0]) is True), "tuple.count")
    if isinstance(o, str):
        if hasattr("", name):
            def sm(it2, a, k):
                aa = [native(x) for x in a]
                if name == "join":
                    xs = it2.iterate(aa[0])
                    if all(isinstance(x, str) for x in xs):
                        return o.join(xs)
                    return I.SymStr([o] + xs, "join")
                if name == "format":
                    return I.SymStr([o] + aa + ([{q: native(v) for q, v in k.items()}] if k else []), "format")
                if all(isinstance(x, (str, int, tuple)) for x in aa):
                    r = getattr(o, name)(*aa)
                    return PList(r) if isinstance(r, list) else r
                return Top("str." + name)
            return Nat(sm, "str." + name)
    if isinstance(o, I.SymStr):
        if o.path:
            return sympath_attr(it, o, name)
        if name in ("startswith", "endswith", "isdigit", "isalpha"):
            return Nat(lambda it2, a, k: Top("str." + name), "str." + name)
        if not hasattr("", name):
            raise PyErr("AttributeError", "'str' object has no attribute '%s'" % name, Cur.loc)
        return Nat(lambda it2, a, k: I.SymStr([o] + [native(x) for x in a], name), "str." + name)
    if name == "__getitem__":
        return Nat(lambda it2, a, k: it2.getitem(o, a[0]), name)
    if name == "__setitem__" and not isinstance(o, tuple):
        return Nat(lambda it2, a, k: it2.setitem(o, a[0], a[1]), name)
    if name == "__len__":
        return Nat(lambda it2, a, k: _len(it2, [o], {}), name)
    if name == "__contains__":
        return Nat(lambda it2, a, k: it2.compare(I.ast.In, a[0], o), name)
    if name == "__iter__":
        return Nat(lambda it2, a, k: _iter(it2, [o], {}), name)
    if name == "__next__" and isinstance(o, PIter):
        return Nat(lambda it2, a, k: _next(it2, [o], {}), name)
    if isinstance(o, PIter):
        raise Unknown("attribute %s of an iterator" % name)
    # what Python has and the model has not is unknown, not an error
    if hasattr(list if isinstance(o, PList) else dict if isinstance(o, PDict) else set if isinstance(o, PSet) else tuple, name):
        return Top("%s.%s" % (I.typename(o), name))
    raise PyErr("AttributeError", "'%s' object has no attribute '%s'" % (I.typename(o), name), Cur.loc)


# ------------------------------------------------------------------ jax.numpy
def shape_arg(it, s):
    s = native(s)
    if isinstance(s, (int, Arr)):
        if isinstance(s, Arr) and s.shape:
            if len(s.shape) == 1 and isinstance(s.shape[0], int):
                return tuple(dim_of(native(scalar(s.at(X.C(k)), "i", "int"))) for k in range(s.shape[0]))
            raise Unknown("array as shape")
        return (dim_of(s),)
    if isinstance(s, Q):
        raise PyErr("TypeError", "float shape", Cur.loc)
    out = []
    for d in it.iterate(s):
        d = native(d)
        if isinstance(d, Q):
            raise PyErr("TypeError", "float in shape", Cur.loc)
        out.append(dim_of(d))
    return tuple(out)


def kdt(kw, args, k, default):
    t = kw.get("dtype") if "dtype" in kw else (args[k] if len(args) > k else None)
    return dtype_kind(t) or default


@reg("array", "asarray", "ascontiguousarray")
def _array(it, a, kw):
    x = arg(a, kw, 0, "object", arg(a, kw, 0, "a"))
    if isinstance(x, Top):
        return x
    if isinstance(x, Ext):
        return Top("array of external")
    if isinstance(x, Arr) and x.py is None:
        r = x
    else:
        if isinstance(x, PDict):
            raise PyErr("TypeError", "array from dict", Cur.loc)
        r = deep_lift(it, x)
        if isinstance(r, Top):
            return r
        r = Arr(r.shape, r.fn, r.dt)
    k = kdt(kw, a, 1, None)
    return astype(r, kw.get("dtype", a[1] if len(a) > 1 else None)) if k else r


def deep_lift(it, x):
    if isinstance(x, (PList, tuple)):
        xs = [deep_lift(it, y) for y in it.iterate(x)]
        for y in xs:
            if isinstance(y, Top):
                return y
        return stack(xs, 0) if xs else Arr((0,), lambda i: X.top("empty"), "f")
    return lift(x)


def full_(shape, v, dt):
    return Arr(shape, lambda *i: v, dt)


@reg("zeros")
def _zeros(it, a, kw):
    return full_(shape_arg(it, arg(a, kw, 0, "shape")), X.ZERO, kdt(kw, a, 1, "f"))


@reg("ones")
def _ones(it, a, kw):
    return full_(shape_arg(it, arg(a, kw, 0, "shape")), X.ONE, kdt(kw, a, 1, "f"))


@reg("empty")
def _empty(it, a, kw):
    return full_(shape_arg(it, arg(a, kw, 0, "shape")), X.ZERO, "f")


@reg("full")
def _full(it, a, kw):
    shp = shape_arg(it, arg(a, kw, 0, "shape"))
    v = lift(arg(a, kw, 1, "fill_value"))
    if isinstance(v, Top):
        return v
    return Arr(shp, (lambda *i: v.at()) if not v.shape else broadcast_to(v, shp).at, v.dt)


def like(val):
    def f(it, a, kw):
        x = lift(a[0])
        if isinstance(x, Top):
            return x
        shp = x.shape if kw.get("shape") is None else shape_arg(it, kw["shape"])
        return full_(shp, val, kdt(kw, a, 1, x.dt))
    return f


NUM["zeros_like"] = like(X.ZERO)
NUM["ones_like"] = like(X.ONE)
NUM["empty_like"] = like(X.ZERO)


@reg("full_like")
def _full_like(it, a, kw):
    x, v = lift(a[0]), lift(arg(a, kw, 1, "fill_value"))
    return Arr(x.shape, lambda *i: v.at(), x.dt)


@reg("eye", "identity")
def _eye(it, a, kw):
    n = dim_of(a[0])
    m = dim_of(a[1]) if len(a) > 1 and a[1] is not None else n
    return Arr((n, m), lambda i, j: X.where(X.eq(i, j), X.ONE, X.ZERO), "f")


@reg("arange")
def _arange(it, a, kw):
    xs = [native(x) for x in a if x is not None]
    if any(isinstance(x, Top) for x in xs):
        return Top("arange")
    es = [X.toE(x) if not isinstance(x, Arr) else x.at() for x in xs]
    st, step = X.ZERO, X.ONE
    if len(es) == 1:
        en = es[0]
    else:
        st, en = es[0], es[1]
        if len(es) > 2:
            step = es[2]
    n = X.sub(en, st)
    if step is not X.ONE:
        n = X.neg(X.floordiv(X.neg(n), step))
    isint = all(X.is_int(e) for e in (st, en, step)) and not any(isinstance(x, Q) for x in xs)
    if not isint:
        n = X.neg(X.floor(X.neg(n)))
    n = normdim(n)
    if isinstance(n, int):
        n = max(n, 0)
    return Arr((n,), lambda i: X.add(st, X.mul(i, step)), "i" if isint else "f")


@reg("linspace")
def _linspace(it, a, kw):
    s, e = lift(arg(a, kw, 0, "start")), lift(arg(a, kw, 1, "stop"))
    n = native(arg(a, kw, 2, "num", 50))
    endp = native(kw.get("endpoint", True))
    nE = dimE(dim_of(n))
    den = X.sub(nE, X.ONE) if endp is not False else nE
    if s.shape or e.shape:
        raise Unknown("linspace of arrays")
    return Arr((dim_of(n),), lambda i: X.add(s.at(), X.mul(X.div(i, den), X.sub(e.at(), s.at()))), "f")


def ewf(name, f, dt=None, n=1):
    def g(it, a, kw):
        aa = list(a[:n])
        for x in aa:
            if isinstance(x, Top):
                return x
            if isinstance(x, Ext):
                return Top("external operand")
        r = ew(f, *[deep_lift(it, x) if isinstance(x, (PList, tuple)) else x for x in aa], dt=dt)
        if isinstance(r, Arr) and r.py is not None and not X.isc(r.at()):
            pass
        if isinstance(r, Arr):
            r.py = None
        return r
    for nm in name.split():
        NUM[nm] = g


def pw(a, b):
    return X.power(a, b)


ewf("add", X.add, n=2)
ewf("subtract", X.sub, n=2)
ewf("multiply", X.mul, n=2)


def _divide(it, a, kw):
    r = it.binop(I.ast.Div, a[0], a[1])
    return r


NUM["divide"] = NUM["true_divide"] = _divide
ewf("power float_power pow", pw, n=2)
ewf("floor_divide", X.floordiv, n=2)
ewf("mod remainder fmod", X.mod, n=2)
NUM["divmod"] = lambda it, a, kw: (NUM["floor_divide"](it, a[:2], kw),
                                   NUM["mod"](it, a[:2], kw))
ewf("negative", X.neg)
ewf("abs absolute fabs", X.abs_)
ewf("sign", X.sign)
ewf("sqrt", X.sqrt, "f")
ewf("cbrt", lambda e: X.power(e, Q(1, 3)), "f")
ewf("square", lambda e: X.mul(e, e))
ewf("reciprocal", lambda e: X.div(X.ONE, e), "f")
ewf("exp", X.exp, "f")
ewf("expm1", lambda e: X.sub(X.exp(e), X.ONE), "f")
ewf("log", X.log, "f")
ewf("log1p", lambda e: X.log(X.add(X.ONE, e)), "f")
ewf("log10", lambda e: X.div(X.log(e), X.log(X.C(10))), "f")
ewf("log2", lambda e: X.div(X.log(e), X.log(X.C(2))), "f")
for _t in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "arcsin", "arccos", "arctan"):
    ewf(_t, lambda e, _t=_t: X.func(_t, e), "f")
NUM["asin"], NUM["acos"], NUM["atan"] = NUM["arcsin"], NUM["arccos"], NUM["arctan"]
ewf("arctan2 atan2", lambda p, q: X.fn("arctan2", X.num(p), X.num(q)), "f", 2)
ewf("hypot", lambda p, q: X.sqrt(X.add(X.mul(p, p), X.mul(q, q))), "f", 2)
ewf("radians deg2rad", lambda e: X.mul(e, X.PI, X.C(Q(1, 180))), "f")
ewf("degrees rad2deg", lambda e: X.div(X.mul(e, X.C(180)), X.PI), "f")
ewf("floor", X.floor)
ewf("ceil", lambda e: X.neg(X.floor(X.neg(e))))
ewf("round rint around", rnd)
ewf("trunc fix", trunc)
ewf("maximum fmax", X.max_, n=2)
ewf("minimum fmin", X.min_, n=2)
ewf("isnan", lambda e: X.FALSE if X.isc(e) else X.fn("isnan", e), "b")
ewf("isinf", lambda e: X.FALSE if X.isc(e) else X.fn("isinf", e), "b")
ewf("isfinite", lambda e: X.TRUE if X.isc(e) else X.fn("isfinite", e), "b")
ewf("logical_and", X.and_, "b", 2)
ewf("logical_or", X.or_, "b", 2)
ewf("logical_not", X.not_, "b")
ewf("logical_xor", lambda p, q: X.or_(X.and_(p, X.not_(q)), X.and_(q, X.not_(p))), "b", 2)
ewf("equal", X.eq, "b", 2)
ewf("not_equal", lambda p, q: X.not_(X.eq(p, q)), "b", 2)
ewf("less", X.lt, "b", 2)
ewf("less_equal", X.le, "b", 2)
ewf("greater", X.gt, "b", 2)
ewf("greater_equal", X.ge, "b", 2)
NUM["bitwise_and"], NUM["bitwise_or"], NUM["invert"] = NUM["logical_and"], NUM["logical_or"], NUM["logical_not"]
NUM["heaviside"] = lambda it, a, kw: ew(lambda p, q: X.where(X.lt0(p), X.ZERO, X.where(X.eq0(p), q, X.ONE)), a[0], a[1])


@reg("flatnonzero")
def _flatnonzero(it, a, kw):
    m = lift(a[0])
    if not isinstance(m, Arr) or m.ndim != 1 or kw.get("size") is not None:
        return Top("nonzero")
    from .values import nonzero
    return nonzero(m if m.dt == "b" else ew(lambda e: X.not_(X.eq(e, X.ZERO)), m, dt="b"))


@reg("nonzero")
def _nonzero(it, a, kw):
    r = _flatnonzero(it, a, kw)
    return (r,) if isinstance(r, Arr) else r


@reg("compress")
def _compress(it, a, kw):
    from .values import getitem
    m, x = lift(a[0]), lift(a[1])
    if native(arg(a, kw, 2, "axis", 0)) not in (0, None) or not isinstance(m, Arr) or m.ndim != 1:
        return Top("compress")
    return getitem(x, m)


@reg("where")
def _where(it, a, kw):
    if len(a) == 1:
        return (_flatnonzero(it, a, kw),) if isinstance(_flatnonzero(it, a, kw), Arr) else Top("where with one argument")
    c, x, y = a[0], a[1], a[2]
    for v in (c, x, y):
        if isinstance(v, Top):
            return v
    c, x, y = lift(c), lift(x), lift(y)
    r = ew(lambda p, q, r: X.where(X.asbool(p), q, r), c, x, y, dt=promote(x, y))
    if isinstance(r, Arr):
        r.py = None
    return r


@reg("select")
def _select(it, a, kw):
    cs, vs = it.iterate(arg(a, kw, 0, "condlist")), it.iterate(arg(a, kw, 1, "choicelist"))
    r = arg(a, kw, 2, "default", 0)
    for c, v in reversed(list(zip(cs, vs))):
        r = _where(it, [c, v, r], {})
    return r


@reg("piecewise")
def _piecewise(it, a, kw):
    x = lift(arg(a, kw, 0, "x"))
    cl = arg(a, kw, 1, "condlist")
    fl = it.iterate(arg(a, kw, 2, "funclist"))
    conds = it.iterate(cl)
    vals = [it.call(f, [x] + list(a[3:]), {}) if isinstance(f, (Func, Bound, Nat, Partial)) else f for f in fl]
    r = vals[len(conds)] if len(vals) > len(conds) else 0
    # the last true condition wins in numpy; jax selects the first true one via argmax
    for c, v in reversed(list(zip(conds, vals))):
        r = _where(it, [c, v, r], {})
    return broadcast_to(r, x.shape) if isinstance(r, Arr) else r


@reg("clip")
def _clip(it, a, kw):
    x = a[0]
    lo = arg(a, kw, 1, "min", kw.get("a_min"))
    hi = arg(a, kw, 2, "max", kw.get("a_max"))
    if isinstance(x, Top):
        return x
    r = lift(x)
    if lo is not None:
        r = ew(X.max_, r, lo)
    if hi is not None:
        r = ew(X.min_, r, hi)
    if isinstance(r, Arr):
        r.py = None
    return r


def axkw(it, a, kw, k=1):
    ax = arg(a, kw, k, "axis")
    return ax, native(kw.get("keepdims", False)) is True


@reg("sum", "nansum")
def _nsum(it, a, kw):
    ax, kd = axkw(it, a, kw)
    x = deep_lift(it, a[0])
    if isinstance(x, Top):
        return x
    if kw.get("where") is not None:
        x = _where(it, [kw["where"], x, 0], {})
    return reduce_sum(x, ax, kd)


@reg("mean")
def _mean(it, a, kw):
    ax, kd = axkw(it, a, kw)
    x = deep_lift(it, a[0])
    if isinstance(x, Top):
        return x
    n = X.ONE
    for k in norm_axes(ax, x.ndim):
        n = X.mul(n, dimE(x.shape[k]))
    return ew(lambda e: X.div(e, n), reduce_sum(x, ax, kd), dt="f")


@reg("prod")
def _prod(it, a, kw):
    ax, kd = axkw(it, a, kw)
    x = deep_lift(it, a[0])
    return reduce_fold(x, X.mul, ax, kd)


@reg("max", "amax", "nanmax")
def _nmax(it, a, kw):
    ax, kd = axkw(it, a, kw)
    x = deep_lift(it, a[0])
    r = reduce_fold(x, X.max_, ax, kd, "max")
    if kw.get("initial") is not None:
        r = ew(X.max_, r, kw["initial"])
    return r


@reg("min", "amin", "nanmin")
def _nmin(it, a, kw):
    ax, kd = axkw(it, a, kw)
    x = deep_lift(it, a[0])
    r = reduce_fold(x, X.min_, ax, kd, "min")
    if kw.get("initial") is not None:
        r = ew(X.min_, r, kw["initial"])
    return r


@reg("any")
def _nany(it, a, kw):
    ax, kd = axkw(it, a, kw)
    x = deep_lift(it, a[0])
    return reduce_fold(ew(X.asbool, x, dt="b"), X.or_, ax, kd, "max", "b")


@reg("all")
def _nall(it, a, kw):
    ax, kd = axkw(it, a, kw)
    x = deep_lift(it, a[0])
    return reduce_fold(ew(X.asbool, x, dt="b"), X.and_, ax, kd, "min", "b")


def argfold(kind):
    def f(it, a, kw):
        ax, kd = axkw(it, a, kw)
        x = deep_lift(it, a[0])
        if isinstance(x, Top):
            return x
        if ax is None:
            if x.ndim != 1:
                x = reshape(x, [-1])
            ax = 0
        k = norm_axes(ax, x.ndim)[0]
        d = x.shape[k]

        def el(*i):
            i = list(i)
            if kd:
                i.pop(k)
            if isinstance(d, int):
                if d == 1:
                    return X.ZERO
                return X.fn(kind, *[x.at(*i[:k], X.C(j), *i[k:]) for j in range(d)])
            v = X.fresh_bv()
            return X.pick("max" if kind == "argmax" else "min", v, x.at(*i[:k], v, *i[k:]), v)
        return Arr(red_shape(x.shape, [k], kd), el, "i")
    return f


NUM["argmin"], NUM["argmax"] = argfold("argmin"), argfold("argmax")


@reg("cumsum")
def _cumsum(it, a, kw):
    x = lift(a[0])
    if isinstance(x, Top):
        return x
    if x.ndim != 1:
        raise Unknown("cumsum of matrix")
    d = x.shape[0]
    if isinstance(d, int):
        acc, out = X.ZERO, []
        for k in range(d):
            acc = X.add(acc, x.at(X.C(k)))
            out.append(acc)
        return stack([scalar(e) for e in out], 0)

    def el(i):
        v = X.fresh_bv()
        return X.ssum(v, X.fn("upto", i), x.at(v))
    return Arr(x.shape, el, x.dt)


@reg("stack")
def _stack(it, a, kw):
    if a and T(a[0]):
        return Top("stack of unknown")
    ax = native(arg(a, kw, 1, "axis", 0))
    xs = [deep_lift(it, x) for x in it.iterate(a[0])]
    if not xs:
        raise PyErr("ValueError", "need at least one array to stack", Cur.loc)
    return stack(xs, ax)


@reg("vstack", "row_stack")
def _vstack(it, a, kw):
    if a and T(a[0]):
        return Top("vstack of unknown")
    xs = [deep_lift(it, x) for x in it.iterate(a[0])]
    xs = [expand_dims(x, 0) if x.ndim == 1 else x for x in xs]
    return concatenate(xs, 0)


@reg("hstack")
def _hstack(it, a, kw):
    if a and T(a[0]):
        return Top("hstack of unknown")
    if isinstance(a[0], Arr) and a[0].ndim == 2:      # rows one after the other
        return reshape(a[0], (-1,))
    xs = [deep_lift(it, x) for x in it.iterate(a[0])]
    if any(isinstance(x, Top) for x in xs):
        return Top("hstack")
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@reg("column_stack")
def _cstack(it, a, kw):
    if a and T(a[0]):
        return Top("column_stack of unknown")
    xs = [deep_lift(it, x) for x in it.iterate(a[0])]
    return concatenate([expand_dims(x, 1) if x.ndim == 1 else x for x in xs], 1)


@reg("concatenate", "concat")
def _concat(it, a, kw):
    if a and T(a[0]):
        return Top("concatenate of unknown")
    ax = native(arg(a, kw, 1, "axis", 0))
    xs = [deep_lift(it, x) for x in it.iterate(a[0])]
    return concatenate(xs, ax)


@reg("append")
def _append(it, a, kw):
    return concatenate([reshape(lift(a[0]), [-1]), reshape(deep_lift(it, a[1]), [-1])], 0)


@reg("pad")
def _pad(it, a, kw):
    x = lift(a[0])
    if isinstance(x, Top):
        return x
    pw_ = arg(a, kw, 1, "pad_width")
    mode = arg(a, kw, 2, "mode", "constant")
    cv = lift(kw.get("constant_values", 0)).at() if mode == "constant" else None
    pw_ = native(pw_)
    if isinstance(pw_, int):
        pairs = [(pw_, pw_)] * x.ndim
    else:
        ps = [native(p) for p in it.iterate(pw_)]
        if all(isinstance(p, int) for p in ps):
            if len(ps) == 1:
                ps = ps * 2
            pairs = [tuple(ps)] * x.ndim
        else:
            pairs = []
            for p in ps:
                p = native(p)
                if isinstance(p, int):
                    pairs.append((p, p))
                else:
                    q = [native(z) for z in it.iterate(p)]
                    pairs.append((q[0], q[-1]))
            if len(pairs) == 1:
                pairs = pairs * x.ndim
    if len(pairs) != x.ndim:
        raise PyErr("ValueError", "pad width does not match rank", Cur.loc)
    if not all(isinstance(p, int) for q in pairs for p in q):
        raise Unknown("symbolic padding")
    shp = tuple(normdim(X.add(dimE(d), X.C(p + q))) for d, (p, q) in zip(x.shape, pairs))

    def el(*i):
        cs, src = [], []
        for k, (d, (p, q)) in enumerate(zip(x.shape, pairs)):
            if p == 0 and q == 0:
                src.append(i[k])
                continue
            o = X.sub(i[k], X.C(p))
            if p:
                cs.append(X.ge(o, X.ZERO))
            if q:
                cs.append(X.lt(o, dimE(d)))
            src.append(o)
        c = X.and_(*cs)
        if mode != "constant":
            if c is X.TRUE:
                return x.at(*src)
            src2 = []
            for k, (d, (p, q)) in enumerate(zip(x.shape, pairs)):
                src2.append(src[k] if (p == 0 and q == 0) else X.clip(src[k], X.ZERO, X.sub(dimE(d), X.ONE)))
            if mode == "edge":
                return x.at(*src2)
            return X.top("pad mode")
        if c is X.FALSE:
            return cv
        if c is X.TRUE:
            return x.at(*src)
        return X.where(c, x.at(*src), cv)
    return Arr(shp, el, x.dt)


@reg("tile")
def _tile(it, a, kw):
    x = deep_lift(it, a[0])
    r = native(a[1])
    reps = [r] if isinstance(r, (int, Arr)) else [native(q) for q in it.iterate(r)]
    reps = [dim_of(q) for q in reps]
    if isinstance(x, Top):
        return x
    while len(reps) < x.ndim:
        reps = [1] + reps
    while x.ndim < len(reps):
        x = expand_dims(x, 0)
    shp = tuple(normdim(X.mul(dimE(d), dimE(q))) for d, q in zip(x.shape, reps))
    return Arr(shp, lambda *i: x.at(*[j if same_dim(q, 1) else (X.ZERO if same_dim(d, 1) else X.mod(j, dimE(d))) for j, d, q in zip(i, x.shape, reps)]), x.dt)


@reg("repeat")
def _repeat(it, a, kw):
    x = lift(a[0])
    n = native(arg(a, kw, 1, "repeats"))
    ax = native(arg(a, kw, 2, "axis"))
    if isinstance(x, Top):
        return x
    if isinstance(n, Arr) and n.shape:
        raise Unknown("repeat with counts")
    nE = dimE(dim_of(n))
    if ax is None:
        x = reshape(x, [-1]) if x.ndim != 1 else x
        ax = 0
    ax %= x.ndim
    shp = list(x.shape)
    shp[ax] = normdim(X.mul(dimE(shp[ax]), nE))
    return Arr(shp, lambda *i: x.at(*i[:ax], X.floordiv(i[ax], nE), *i[ax + 1:]), x.dt)


@reg("reshape")
def _reshape(it, a, kw):
    s = arg(a, kw, 1, "shape", kw.get("newshape"))
    s = native(s)
    return reshape(a[0], it.iterate(s) if not isinstance(s, (int, Arr)) else [s])


@reg("ravel")
def _ravel(it, a, kw):
    return reshape(a[0], [-1])


@reg("squeeze")
def _squeeze(it, a, kw):
    ax = native(arg(a, kw, 1, "axis"))
    return squeeze(lift(a[0]), tuple(it.iterate(ax)) if isinstance(ax, (tuple, PList)) else ax)


@reg("expand_dims")
def _expand(it, a, kw):
    ax = native(arg(a, kw, 1, "axis"))
    x = lift(a[0])
    for k in (sorted(it.iterate(ax)) if isinstance(ax, (tuple, PList)) else [ax]):
        x = expand_dims(x, native(k))
    return x


@reg("broadcast_to")
def _bt(it, a, kw):
    return broadcast_to(a[0], shape_arg(it, arg(a, kw, 1, "shape")))


@reg("broadcast_arrays")
def _ba(it, a, kw):
    xs = [lift(x) for x in a]
    s = broadcast_shapes(*[x.shape for x in xs])
    return PList([broadcast_to(x, s) for x in xs])


@reg("atleast_1d")
def _al1(it, a, kw):
    x = deep_lift(it, a[0])
    return x if isinstance(x, Top) or x.ndim else expand_dims(x, 0)


@reg("atleast_2d")
def _al2(it, a, kw):
    x = deep_lift(it, a[0])
    while not isinstance(x, Top) and x.ndim < 2:
        x = expand_dims(x, 0)
    return x


@reg("transpose", "permute_dims")
def _tr(it, a, kw):
    p = arg(a, kw, 1, "axes")
    return transpose(lift(a[0]), [native(x) for x in it.iterate(p)] if p is not None else None)


@reg("matrix_transpose")
def _mt(it, a, kw):
    x = lift(a[0])
    return transpose(x, tuple(range(x.ndim - 2)) + (x.ndim - 1, x.ndim - 2))


@reg("swapaxes")
def _sw(it, a, kw):
    x = lift(a[0])
    if isinstance(x, Top):
        return x
    p = list(range(x.ndim))
    i, j = native(arg(a, kw, 1, "axis1")) % x.ndim, native(arg(a, kw, 2, "axis2")) % x.ndim
    p[i], p[j] = p[j], p[i]
    return transpose(x, p)


@reg("moveaxis")
def _mv(it, a, kw):
    x = lift(a[0])
    if isinstance(x, Top):
        return x
    s, d = native(arg(a, kw, 1, "source")) % x.ndim, native(arg(a, kw, 2, "destination")) % x.ndim
    p = [k for k in range(x.ndim) if k != s]
    p.insert(d, s)
    return transpose(x, p)


@reg("flip", "flipud")
def _flip(it, a, kw):
    x = lift(a[0])
    ax = native(arg(a, kw, 1, "axis", 0))
    axs = norm_axes(ax, x.ndim)
    return Arr(x.shape, lambda *i: x.at(*[X.sub(X.sub(dimE(x.shape[k]), X.ONE), j) if k in axs else j for k, j in enumerate(i)]), x.dt)


@reg("roll")
def _roll(it, a, kw):
    x = lift(a[0])
    s = native(arg(a, kw, 1, "shift"))
    ax = native(arg(a, kw, 2, "axis"))
    if ax is None and x.ndim == 1:
        ax = 0
    if ax is None:
        raise Unknown("roll flattened")
    ax %= x.ndim
    return Arr(x.shape, lambda *i: x.at(*i[:ax], X.mod(X.sub(i[ax], X.toE(s)), dimE(x.shape[ax])), *i[ax + 1:]), x.dt)


@reg("diag", "diagflat")
def _diag(it, a, kw):
    x = deep_lift(it, a[0])
    if isinstance(x, Top):
        return x
    if x.ndim == 1:
        return Arr((x.shape[0], x.shape[0]), lambda i, j: X.where(X.eq(i, j), x.at(i), X.ZERO), x.dt)
    return Arr((x.shape[0],), lambda i: x.at(i, i), x.dt)


@reg("diagonal")
def _diagonal(it, a, kw):
    x = lift(a[0])
    i, j = native(kw.get("axis1", 0)) % x.ndim, native(kw.get("axis2", 1)) % x.ndim
    rest = [k for k in range(x.ndim) if k not in (i, j)]

    def el(*ix):
        full = [None] * x.ndim
        for k, v in zip(rest, ix):
            full[k] = v
        full[i] = full[j] = ix[-1]
        return x.at(*full)
    return Arr(tuple(x.shape[k] for k in rest) + (x.shape[i],), el, x.dt)


@reg("trace")
def _trace(it, a, kw):
    x = deep_lift(it, a[0])
    if isinstance(x, Top):
        return x
    if x.ndim < 2:
        raise PyErr("ValueError", "trace of rank %d" % x.ndim, Cur.loc)
    k2 = dict(kw)
    k2.setdefault("axis1", arg(a, kw, 2, "axis1", 0))
    k2.setdefault("axis2", arg(a, kw, 3, "axis2", 1))
    d = _diagonal(it, [x], k2)
    return reduce_sum(d, -1)


@reg("dot")
def _dot(it, a, kw):
    x, y = deep_lift(it, a[0]), deep_lift(it, a[1])
    if isinstance(x, Top) or isinstance(y, Top):
        return Top("dot")
    if x.ndim == 0 or y.ndim == 0:
        return ew(X.mul, x, y)
    if x.ndim == 1 and y.ndim == 1 and all(isinstance(s, int) for s in x.shape + y.shape) and x.shape != y.shape:
        raise PyErr("TypeError", "dot shapes %s %s" % (x.shape, y.shape), Cur.loc)
    if y.ndim == 1:
        return einsum("...i,i->...", x, y)
    return einsum("...i,ij->...j", x, y)


@reg("vdot", "inner")
def _vdot(it, a, kw):
    return _nsum(it, [ew(X.mul, deep_lift(it, a[0]), deep_lift(it, a[1]))], {})


@reg("vecdot")
def _vecdot(it, a, kw):
    return reduce_sum(ew(X.mul, lift(a[0]), lift(a[1])), -1)


@reg("matmul")
def _mm(it, a, kw):
    return matmul(deep_lift(it, a[0]), deep_lift(it, a[1]))


@reg("outer")
def _outer(it, a, kw):
    return einsum("i,j->ij", deep_lift(it, a[0]), deep_lift(it, a[1]))


@reg("tensordot")
def _td(it, a, kw):
    ax = native(arg(a, kw, 2, "axes", 2))
    x, y = lift(a[0]), lift(a[1])
    if not isinstance(ax, int):
        p, q = [it.iterate(z) if isinstance(z, (tuple, PList)) else [z] for z in it.iterate(ax)]
        p = [native(k) % x.ndim for k in p]
        q = [native(k) % y.ndim for k in q]
    else:
        p = list(range(x.ndim - ax, x.ndim))
        q = list(range(ax))
    ls = iter("abcdefghijklmnopqrstuvw")
    sx = [next(ls) for _ in range(x.ndim)]
    sy = [None] * y.ndim
    for i, j in zip(p, q):
        sy[j] = sx[i]
    for j in range(y.ndim):
        if sy[j] is None:
            sy[j] = next(ls)
    out = [c for k, c in enumerate(sx) if k not in p] + [c for k, c in enumerate(sy) if k not in q]
    return einsum("%s,%s->%s" % ("".join(sx), "".join(sy), "".join(out)), x, y)


@reg("einsum")
def _einsum(it, a, kw):
    if not isinstance(a[0], str):
        raise Unknown("einsum operand form")
    return einsum(a[0], *[deep_lift(it, x) for x in a[1:]])


@reg("kron")
def _kron(it, a, kw):
    return Top("kron")


@reg("cross")
def _cross(it, a, kw):
    x, y = deep_lift(it, a[0]), deep_lift(it, a[1])
    if isinstance(x, Top) or isinstance(y, Top):
        return Top("cross")
    dx, dy = x.shape[-1], y.shape[-1]
    if dx == 2 and dy == 2:
        sh = broadcast_shapes(x.shape[:-1], y.shape[:-1])
        g = lambda z, i, k: z.at(*bidx(Arr(z.shape[:-1], None), i), X.C(k))
        return Arr(sh, lambda *i: X.sub(X.mul(g(x, i, 0), g(y, i, 1)), X.mul(g(x, i, 1), g(y, i, 0))), "f")
    if dx != 3 or dy != 3:
        if isinstance(dx, int) and isinstance(dy, int):
            raise PyErr("ValueError", "cross product of dimensions %s and %s" % (dx, dy), Cur.loc)
        raise Unknown("cross of symbolic size")
    sh = broadcast_shapes(x.shape[:-1], y.shape[:-1])

    def comp(i, k):
        g = lambda z, q: z.at(*bidx(Arr(z.shape[:-1], None), i), X.C(q))
        p, q = [(1, 2), (2, 0), (0, 1)][k]
        return X.sub(X.mul(g(x, p), g(y, q)), X.mul(g(x, q), g(y, p)))

    def el(*i):
        if X.isc(i[-1]):
            return comp(i[:-1], int(X.cval(i[-1])))
        return X.select(i[-1], [comp(i[:-1], k) for k in range(3)])
    return Arr(sh + (3,), el, "f")


@reg("linalg.norm")
def _norm(it, a, kw):
    x = deep_lift(it, a[0])
    if isinstance(x, Top):
        return x
    ordv = native(arg(a, kw, 1, "ord"))
    ax = arg(a, kw, 2, "axis")
    kd = native(arg(a, kw, 3, "keepdims", False)) is True
    if ordv not in (None, 2, "fro"):
        if ordv == 1 and (x.ndim == 1 or ax is not None):
            return reduce_sum(ew(X.abs_, x), ax, kd)
        if ordv == float("inf") and (x.ndim == 1 or ax is not None):
            return reduce_fold(ew(X.abs_, x), X.max_, ax, kd, "max")
        return Top("norm order")
    if ordv == 2 and ax is None and x.ndim == 2:
        return Top("spectral norm")
    return ew(X.sqrt, reduce_sum(ew(lambda e: X.mul(e, e), x), ax, kd), dt="f")


@reg("linalg.det")
def _det(it, a, kw):
    return det(deep_lift(it, a[0]))


@reg("linalg.inv", "linalg.pinv")
def _inv(it, a, kw):
    return inv(deep_lift(it, a[0]))


@reg("linalg.solve")
def _solve(it, a, kw):
    A_, b_ = lift(a[0]), lift(a[1])
    return matmul(inv(A_), b_)


@reg("linalg.svd")
def _svd(it, a, kw):
    x = lift(a[0])
    if isinstance(x, Top):
        return x
    n = x.shape[-1]

    def ms(pre):
        return [x.at(*pre, X.C(p), X.C(q)) for p in range(n) for q in range(n)]
    u = Arr(x.shape, lambda *i: X.fn("svd_u", i[-2], i[-1], *ms(i[:-2])), "f")
    s = Arr(x.shape[:-1], lambda *i: X.fn("svd_s", i[-1], *ms(i[:-1])), "f")
    vh = Arr(x.shape, lambda *i: X.fn("svd_vh", i[-2], i[-1], *ms(i[:-2])), "f")
    if native(kw.get("compute_uv", True)) is False:
        return s
    return (u, s, vh)


@reg("linalg.eigvalsh", "linalg.eigvals")
def _eigv(it, a, kw):
    x = lift(a[0])
    n = x.shape[-1]
    return Arr(x.shape[:-1], lambda *i: X.fn("eigval", i[-1], *[x.at(*i[:-1], X.C(p), X.C(q)) for p in range(n) for q in range(n)]), "f")


@reg("linalg.eigh")
def _eigh(it, a, kw):
    x = lift(a[0])
    n = x.shape[-1]
    w = _eigv(it, a, kw)
    v = Arr(x.shape, lambda *i: X.fn("eigvec", i[-2], i[-1], *[x.at(*i[:-2], X.C(p), X.C(q)) for p in range(n) for q in range(n)]), "f")
    return (w, v)


@reg("meshgrid")
def _mesh(it, a, kw):
    xs = [deep_lift(it, x) for x in a]
    ind = kw.get("indexing", "xy")
    for x in xs:
        if isinstance(x, Top):
            return Top("meshgrid")
    n = len(xs)
    if ind == "ij":
        order = list(range(n))
    elif ind == "xy":
        order = ([1, 0] + list(range(2, n))) if n > 1 else [0]
    else:
        raise PyErr("ValueError", "meshgrid indexing", Cur.loc)
    shp = tuple(xs[order[k]].shape[0] for k in range(n))
    return PList([Arr(shp, (lambda x, pos: lambda *i: x.at(i[pos]))(xs[k], order.index(k)), xs[k].dt) for k in range(n)])


@reg("indices")
def _indices(it, a, kw):
    shp = shape_arg(it, arg(a, kw, 0, "dimensions"))
    n = len(shp)
    return Arr((n,) + shp, lambda *i: i[1 + int(X.cval(i[0]))] if X.isc(i[0]) else X.select(i[0], list(i[1:])), kdt(kw, a, 1, "i"))


@reg("ravel_multi_index")
def _rmi(it, a, kw):
    mi, dims = a[0], [dim_of(d) for d in it.iterate(arg(a, kw, 1, "dims"))]
    mode = arg(a, kw, 2, "mode", "raise")
    order = arg(a, kw, 3, "order", "C")
    xs = it.iterate(mi)
    if len(xs) != len(dims):
        raise PyErr("ValueError", "ravel_multi_index rank", Cur.loc)
    es = [lift(x) for x in xs]
    if mode == "clip":
        es = [ew(lambda e, d=d: X.clip(e, X.ZERO, X.sub(dimE(d), X.ONE)), x) for x, d in zip(es, dims)]
    elif mode == "wrap":
        es = [ew(lambda e, d=d: X.mod(e, dimE(d)), x) for x, d in zip(es, dims)]
    z = list(zip(es, dims))
    if order == "F":
        z = z[::-1]
    r = lift(0)
    for x, d in z:
        r = ew(lambda p, q, d=d: X.add(X.mul(p, dimE(d)), q), r, x, dt="i")
    r.py = None
    return r


@reg("unravel_index")
def _uri(it, a, kw):
    x = lift(a[0])
    dims = [dim_of(d) for d in it.iterate(arg(a, kw, 1, "shape"))]
    out = []
    rem = x
    for k in range(len(dims) - 1, -1, -1):
        d = dims[k]
        if k == 0:
            out.append(rem)
        else:
            out.append(ew(lambda e, d=d: X.mod(e, dimE(d)), rem, dt="i"))
            rem = ew(lambda e, d=d: X.floordiv(e, dimE(d)), rem, dt="i")
    return tuple(reversed(out))


@reg("take")
def _take(it, a, kw):
    x = lift(a[0])
    ix = arg(a, kw, 1, "indices")
    ax = native(arg(a, kw, 2, "axis"))
    if ax is None:
        x, ax = reshape(x, [-1]), 0
    ax %= x.ndim
    return getitem(x, (Slice(None, None, None),) * ax + (lift(ix),))


@reg("take_along_axis")
def _taa(it, a, kw):
    x, ix = lift(a[0]), lift(arg(a, kw, 1, "indices"))
    ax = native(arg(a, kw, 2, "axis"))
    if isinstance(x, Top) or isinstance(ix, Top):
        return Top("take_along_axis")
    if ax is None:
        raise Unknown("take_along_axis flattened")
    ax %= x.ndim
    if x.ndim != ix.ndim:
        raise PyErr("ValueError", "take_along_axis ranks", Cur.loc)
    shp = broadcast_shapes(x.shape[:ax] + (1,) + x.shape[ax + 1:], ix.shape[:ax] + (1,) + ix.shape[ax + 1:])
    shp = shp[:ax] + (ix.shape[ax],) + shp[ax + 1:]

    def el(*i):
        j = ix.at(*[X.ZERO if same_dim(d, 1) else q for d, q in zip(ix.shape, i)])
        src = [X.ZERO if (same_dim(d, 1) and k != ax) else q for k, (d, q) in enumerate(zip(x.shape, i))]
        d = x.shape[ax]
        if isinstance(d, int) and not X.isc(j):
            outs = []
            for q in range(d):
                src[ax] = X.C(q)
                outs.append(x.at(*src))
            return X.select(j, outs)
        src[ax] = j
        return x.at(*src)
    return Arr(shp, el, x.dt)


@reg("gradient")
def _gradient(it, a, kw):
    x = lift(a[0])
    if isinstance(x, Top):
        return x
    sp = [lift(s).at() for s in a[1:]]
    ax = native(kw.get("axis"))
    axs = norm_axes(ax, x.ndim)
    out = []
    for n, k in enumerate(axs):
        h = (sp[n] if len(sp) == len(axs) else sp[0]) if sp else X.ONE
        D = dimE(x.shape[k])

        def el(*i, k=k, D=D, h=h):
            def at(o):
                return x.at(*i[:k], X.add(i[k], X.C(o)), *i[k + 1:])
            mid = X.div(X.sub(at(1), at(-1)), X.mul(X.C(2), h))
            first = X.div(X.sub(at(1), at(0)), h)
            last = X.div(X.sub(at(0), at(-1)), h)
            return X.where(X.eq(i[k], X.ZERO), first, X.where(X.eq(i[k], X.sub(D, X.ONE)), last, mid))
        out.append(Arr(x.shape, el, "f"))
    if ax is not None and not isinstance(ax, (tuple, PList)):
        return out[0]
    return out[0] if x.ndim == 1 else PList(out)


@reg("diff")
def _ndiff(it, a, kw):
    x = lift(a[0])
    if x.ndim != 1:
        raise Unknown("diff of matrix")
    return Arr((normdim(X.sub(dimE(x.shape[0]), X.ONE)),), lambda i: X.sub(x.at(X.add(i, X.ONE)), x.at(i)), x.dt)


@reg("nan_to_num")
def _ntn(it, a, kw):
    return ew(lambda e: X.where(X.fn("isnan", e), X.ZERO, e) if not X.isc(e) else e, a[0])


@reg("isscalar")
def _isscalar(it, a, kw):
    return isnum(native(a[0]))


@reg("ndim")
def _ndim(it, a, kw):
    return deep_lift(it, a[0]).ndim


@reg("shape")
def _shape(it, a, kw):
    return tuple(dimv(d) for d in deep_lift(it, a[0]).shape)


@reg("size")
def _size(it, a, kw):
    return dimv(size_of(deep_lift(it, a[0]).shape))


@reg("allclose", "array_equal", "isclose")
def _allclose(it, a, kw):
    return Top("allclose")


for _d in ("float32", "float64", "float16", "int32", "int64", "uint32", "int8", "uint8", "uint64", "bool_", "int16", "uint16", "float_", "int_"):
    def _mkd(d):
        def f(it, a, kw):
            x = deep_lift(it, a[0])
            return astype(Arr(x.shape, x.fn, x.dt), Ext("jax.numpy." + d)) if isinstance(x, Arr) else x
        return f
    NUM[_d] = _mkd(_d)


@reg("finfo")
def _finfo(it, a, kw):
    return Ext("?finfo")


@reg("result_type", "dtype", "promote_types", "issubdtype")
def _rt(it, a, kw):
    return Top("dtype")


@reg("triu", "tril")
def _tri(it, a, kw):
    return Top("triangular")


@reg("sort", "argsort", "unique", "median", "percentile", "std", "var", "interp", "searchsorted", "histogram", "bincount", "apply_along_axis", "load", "save", "loadtxt", "savetxt", "argwhere", "cumprod", "digitize", "convolve")
def _topf(it, a, kw):
    return Top("unmodelled array function")


@reg("random.default_rng", "random.rand", "random.uniform", "random.seed", "random.randn", "random.normal")
def _nprand(it, a, kw):
    it.effects.append(("call", "numpy.random", Cur.loc))
    return Top("numpy.random")


@ext("skimage.measure.find_contours")
def _fcont(it, a, kw):
    return PList([host(sym_arr("contour%d" % k, (X.sym("#contour%d" % k), 2))) for k in range(3)])


@ext("skimage.measure.marching_cubes")
def _mcubes(it, a, kw):
    nv, nf = X.sym("#verts"), X.sym("#faces")
    return tuple(host(a) for a in (sym_arr("verts", (nv, 3)), sym_arr("#faces_", (nf, 3), "i"), sym_arr("vnormals", (nv, 3)), sym_arr("vvalues", (nv,))))


def host(a):
    """numpy array (results of skimage)"""
    a.np = True
    return a
