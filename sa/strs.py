"""Strings with unknown parts in a normal form: literal text, formatted numbers, and opaque operations."""
import os
import re

from . import expr as X
from .values import Arr, Obj, Q, Top, native


class Field:
    """a number formatted with a specification"""

    def __init__(self, e, spec, integral):
        self.e, self.spec, self.integral = e, spec, integral

    def same(self, o):
        return isinstance(o, Field) and self.spec == o.spec and X.equal(self.e, o.e)

    def __repr__(self):
        return "{%s:%s}" % (X.show(self.e, 40), self.spec)


class Op:
    """opaque operation on strings"""

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def same(self, o):
        if not isinstance(o, Op) or self.name != o.name or len(self.args) != len(o.args):
            return None
        r = True
        for a, b in zip(self.args, o.args):
            v = same(a, b)
            if v is not True:
                r = None
        return r

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(text, self.args)))


class Blob:
    def __init__(self, v):
        self.v = v

    def same(self, o):
        return True if isinstance(o, Blob) and (o.v is self.v or (isinstance(self.v, str) and self.v == o.v)) else None

    def __repr__(self):
        return "<%s>" % (type(self.v).__name__)


def canon_spec(spec, integral):
    if integral and spec.endswith("d"):
        spec = spec[:-1]
    m = re.match(r"^0?>?0?(\d+)$", spec)
    if m and spec[0] == "0" and integral:
        return "0" + str(int(spec.lstrip("0>") or 0))
    return spec


def field(v, spec=""):
    if isinstance(v, Arr) and v.shape == ():
        integral = v.dt in ("i", "b")
        return Field(v.at(), canon_spec(spec, integral), integral)
    return Blob(v)


def printf(fmt, args):
    """'...%05d...' % args as atoms; None when not understood"""
    out, k, pos = [], 0, 0
    for m in re.finditer(r"%([-0 +#]*)(\d*)(?:\.(\d+))?([diufgesr%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        fl, w, pr, c = m.groups()
        if c == "%":
            out.append("%")
            continue
        if k >= len(args):
            return None
        v = args[k]
        k += 1
        if isinstance(v, (int, float, Q, str)) and not isinstance(v, bool):
            try:
                out.append(("%" + fl + w + ("." + pr if pr else "") + c) % (v if not isinstance(v, Q) else float(v)))
                continue
            except TypeError:
                return None
        if c in "diu" and isinstance(v, Arr) and v.shape == ():
            if v.dt != "i":
                e = X.where(X.lt(v.at(), X.ZERO), X.neg(X.floor(X.neg(v.at()))), X.floor(v.at()))
            else:
                e = v.at()
            out.append(Field(e, canon_spec(("0" if "0" in fl else "") + w, True), True))
        elif c in "s" and not fl and not w:
            out += norm(v)
        elif c in "fge" and isinstance(v, Arr):
            out.append(field(v, ("0" if "0" in fl else "") + w + ("." + pr if pr else "") + c))
        else:
            return None
    out.append(fmt[pos:])
    return out if k == len(args) else None


def norm(s):
    """atoms of a string value"""
    from .interp import SymStr
    if isinstance(s, str):
        return [s] if s else []
    if isinstance(s, (int, Q)) and not isinstance(s, bool):
        return [str(s)]
    if isinstance(s, Arr):
        return [field(s)]
    if isinstance(s, (Field, Op, Blob)):
        return [s]
    if isinstance(s, SymStr):
        if s.spec == "":
            out = []
            for p in s.parts:
                out += norm(p)
            return squeeze(out)
        return squeeze(s.spec_norm()) if hasattr(s, "spec_norm") else opnorm(s.spec, s.parts)
    return [Blob(s)]


def squeeze(atoms):
    out = []
    for a in atoms:
        if isinstance(a, str) and out and isinstance(out[-1], str):
            out[-1] += a
        elif a != "":
            out.append(a)
    return out


def opnorm(name, parts):
    if name == "/" :
        return join([norm(p) for p in parts])
    if name == "printf":
        r = printf(parts[0], parts[1:])
        return squeeze(r) if r is not None else [Op("printf", [norm(p) for p in parts])]
    if name == "format":
        r = fmt(parts[0], parts[1:])
        return squeeze(r) if r is not None else [Op("format", [norm(p) for p in parts])]
    if name in ("zfill", "rjust"):
        b = norm(parts[0])
        w = parts[1] if len(parts) > 1 else None
        if isinstance(w, int) and len(b) == 1 and isinstance(b[0], Field) and b[0].spec == "" and b[0].integral and (name == "zfill" or parts[2:] == ["0"]):
            return [Field(b[0].e, "0" + str(w), True)]
    if name in ("dirname", "basename"):
        b = norm(parts[0])
        for k in range(len(b) - 1, -1, -1):
            if isinstance(b[k], str) and "/" in b[k]:
                i = b[k].rindex("/")
                if name == "basename":
                    return squeeze([b[k][i + 1:]] + b[k + 1:])
                head = b[:k] + [b[k][:i].rstrip("/") if (k or b[k][:i].strip("/")) else "/"]
                return squeeze(head)
            if not isinstance(b[k], (str, Field)):
                break
        else:
            return [] if name == "dirname" else b
    if name in ("abspath", "realpath", "normpath", "fspath"):
        b = norm(parts[0])
        if name == "fspath":
            return b
        if b and isinstance(b[0], str) and b[0].startswith("/") and all(isinstance(x, Field) or (isinstance(x, str) and "/." not in x and "//" not in x) for x in b):
            return b
        if b and isinstance(b[0], Op) and b[0].name == "abspath":
            return b
        return [Op("abspath", [b])]
    return [Op(name, [norm(p) for p in parts])]


def fmt(f, args):
    import string
    out, auto = [], 0
    kw = args[-1] if args and isinstance(args[-1], dict) else {}
    pos = [a for a in args if not isinstance(a, dict)]
    try:
        for lit, name, spec, conv in string.Formatter().parse(f):
            out.append(lit)
            if name is None:
                continue
            if conv or "{" in (spec or ""):
                return None
            if name == "":
                v = pos[auto]
                auto += 1
            elif name.isdigit():
                v = pos[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                return None
            if isinstance(v, (str, int)):
                out.append(format(v, spec))
            elif not spec:
                out += norm(v)
            else:
                out.append(field(v, spec))
    except (IndexError, ValueError):
        return None
    return out


def join(parts):
    """os.path.join of normalised parts"""
    acc = parts[0]
    for p in parts[1:]:
        if not p:
            acc = acc + ["/"] if not (acc and isinstance(acc[-1], str) and acc[-1].endswith("/")) else acc
            continue
        if isinstance(p[0], str) and p[0].startswith("/"):
            acc = p
            continue
        if isinstance(p[0], Op) and p[0].name == "abspath":
            acc = p
            continue
        if not isinstance(p[0], (str, Field)):
            return [Op("/", [acc, p])]
        if not acc or (isinstance(acc[-1], str) and acc[-1].endswith("/")):
            acc = acc + p
        else:
            acc = acc + ["/"] + p
    return squeeze(acc)


def same(a, b):
    """True equal, False certainly different for some value of the unknowns, None unknown"""
    a, b = squeeze(list(a)), squeeze(list(b))
    if any(isinstance(x, (Op, Blob)) for x in a + b):
        if len(a) == len(b) and all((x == y) if isinstance(x, str) else isinstance(y, type(x)) and x.same(y) for x, y in zip(a, b)):
            return True
        return None
    if len(a) == len(b) and all((x == y) if isinstance(x, str) or isinstance(y, str) else x.same(y) for x, y in zip(a, b)):
        return True
    # numbers and text only: compare on sample values
    from .expr import Env
    for seed in range(12):
        env = Env(seed)
        x, y = sample(a, env), sample(b, env)
        if x is None or y is None:
            return None
        if x != y:
            return False
    return None


def sample(atoms, env):
    out = ""
    for x in atoms:
        if isinstance(x, str):
            out += x
        elif isinstance(x, Field):
            v = env.ev(x.e)
            if v is None:
                return None
            try:
                out += format(int(round(v)) if x.integral else float(v), x.spec)
            except (ValueError, OverflowError):
                return None
        else:
            return None
    return out


def text(atoms):
    return "".join(a if isinstance(a, str) else repr(a) for a in atoms) if isinstance(atoms, (list, tuple)) else repr(atoms)


def inside(path, base):
    """path is below the directory base: True / False / None"""
    path, base = squeeze(list(path)), squeeze(list(base))
    n = len(base)
    if not base:
        return None
    if len(path) < n:
        return None if any(isinstance(x, (Op, Blob)) for x in path) else False
    for x, y in zip(path[:n - 1], base[:n - 1]):
        if isinstance(x, str) != isinstance(y, str) or (x != y if isinstance(x, str) else x.same(y) is not True):
            return None
    last, p = base[-1], path[n - 1]
    rest = path[n:]
    if isinstance(last, str):
        last = last.rstrip("/")
        if not isinstance(p, str):
            return None
        if not p.startswith(last + "/"):
            return False if n == 1 else None
        tail = [p[len(last):]] + rest
    else:
        if last.same(p) is not True:
            return None
        tail = rest
        if not tail or not isinstance(tail[0], str) or not tail[0].startswith("/"):
            return None
    flat = "".join(t if isinstance(t, str) else "0" for t in tail)
    if any(isinstance(t, (Op, Blob)) for t in tail):
        return None
    if ".." in [c for c in flat.split("/")]:
        return False
    return flat.strip("/") != ""
