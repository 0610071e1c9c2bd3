"""Hash-consed value-flow expressions with an algebraic normal form.

Node kinds (``op``):
  c   rational constant            k   named real constant (pi)
  b   boolean constant             s   symbol (name, index expressions...)
  v   bound index variable         +   sum of (coefficient, term)
  *   product of (base, exponent)  f   function application (name, args...)
  S   sum over an index (bv, guard, body)      M  max/min over an index (kind, bv, body)
  top unknown value
"""
from fractions import Fraction as Q
import struct
import hashlib
import math, math, itertools, sys
sys.setrecursionlimit(20000)


class E:
    __slots__ = ("op", "args", "id", "top", "_syms", "_bvs", "_exp", "_s")
    _tab = {}
    _n = 0

    def __new__(cls, op, args):
        key = (op, args)
        e = cls._tab.get(key)
        if e is None:
            e = object.__new__(cls)
            e.op, e.args = op, args
            E._n += 1
            e.id = E._n
            e._syms = e._bvs = e._exp = e._s = None
            e.top = op == "top" or any(k.top for k in kids_raw(op, args))
            cls._tab[key] = e
        return e

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("truth value of a symbolic expression")

    def __repr__(self):
        return show(self)


def kids_raw(op, args):
    if op in ("c", "k", "b", "v", "top"):
        return ()
    if op == "s":
        return args[1:]
    if op == "+":
        return tuple(t for _, t in args)
    if op == "*":
        return tuple(b for b, _ in args)
    if op == "f":
        return tuple(a for a in args[1:] if isinstance(a, E))
    if op == "S":
        return (args[1], args[2])
    if op == "M":
        return tuple(args[2:])
    raise AssertionError(op)


def kids(e):
    return kids_raw(e.op, e.args)


def C(q):
    if isinstance(q, bool):
        q = int(q)
    if isinstance(q, float):
        if math.isinf(q) or math.isnan(q):
            return E("k", (repr(q),))
        q = Q(repr(q))
    return E("c", (Q(q),))


ZERO, ONE = C(0), C(1)
MONE = C(-1)
TRUE, FALSE = E("b", (True,)), E("b", (False,))
PI = E("k", ("pi",))
_topn = itertools.count()


def top(reason=""):
    return E("top", (str(reason), next(_topn)))


def sym(name, *idx):
    return E("s", (name,) + tuple(toE(i) for i in idx))


def bv(name):
    return E("v", (name,))


_fresh = itertools.count()


def fresh_bv(bound=None):
    v = E("v", ("_%d" % next(_fresh),))
    if bound is not None:
        BOUND[v] = toE(bound)
    return v


def toE(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Q)):
        return C(x)
    return top("not a scalar: %r" % (type(x).__name__,))


def isc(e):
    return e.op == "c"


def cval(e):
    return e.args[0]


def num(e):
    """bool nodes used as numbers"""
    if e.op == "b":
        return ONE if e.args[0] else ZERO
    if is_bool(e):
        return where(e, ONE, ZERO)
    return e


BOOLF = {"lt0", "eq0", "not", "and", "or", "isnan", "isinf", "isfinite", "hit", "anyb", "allb"}


def is_bool(e):
    return e.op == "b" or (e.op == "f" and e.args[0] in BOOLF)


# ---------------------------------------------------------------- sums
def terms(e):
    if e.op == "+":
        return e.args
    if e.op == "c":
        return ((e.args[0], ONE),) if e.args[0] else ()
    return ((Q(1), e),)


def add(*xs):
    acc = {}
    for x in xs:
        for c, t in terms(num(toE(x))):
            acc[t] = acc.get(t, 0) + c
    return _mkadd(acc)


def _mkadd(acc):
    # x mod n + n*(x // n)  ->  x
    mods = [t for t in acc if t.op == "f" and t.args[0] == "mod" and acc[t]]
    for t in mods:
        x, n = t.args[1], t.args[2]
        fd = mul(n, floordiv(x, n))
        ((cc, tt),) = terms(fd) if len(terms(fd)) == 1 else ((None, None),)
        if tt is not None and acc.get(tt, 0) and acc[tt] == cc * acc[t]:
            c = acc.pop(t)
            acc.pop(tt)
            for c2, t2 in terms(x):
                acc[t2] = acc.get(t2, 0) + c * c2
    items = tuple(sorted(((c, t) for t, c in acc.items() if c != 0), key=lambda p: p[1].id))
    if not items:
        return ZERO
    if len(items) == 1:
        c, t = items[0]
        if t is ONE:
            return C(c)
        if c == 1:
            return t
    return E("+", items)


def neg(x):
    return mul(MONE, x)


def sub(a, b):
    return add(a, neg(b))


# ---------------------------------------------------------------- products
def _split(e):
    """-> (coef, term) pulling a rational content out of e"""
    if e.op == "c":
        return e.args[0], ONE
    if e.op == "+":
        c0 = e.args[0][0]
        if len(e.args) == 1:
            return e.args[0]
        if c0 != 1:
            return c0, E("+", tuple((c / c0, t) for c, t in e.args))
    return Q(1), e


def mul(*xs):
    coef = Q(1)
    fac = {}
    only = None
    nonconst = []
    for x in xs:
        x = num(toE(x))
        if x.op == "c":
            coef *= x.args[0]
        else:
            nonconst.append(x)
    if coef == 0:
        return ZERO
    if not nonconst:
        return C(coef)
    if len(nonconst) == 1:
        x = nonconst[0]
        if coef == 1:
            return x
        return _mkadd({t: c * coef for c, t in terms(x)})
    for x in nonconst:
        c, t = _split(x)
        coef *= c
        if t is ONE:
            continue
        if t.op == "*":
            for b, p in t.args:
                fac[b] = fac.get(b, 0) + p
        else:
            fac[t] = fac.get(t, 0) + Q(1)
    return _mkmul(coef, fac)


def _mkmul(coef, fac):
    items = {}
    redo = []
    for b, p in fac.items():
        if p == 0:
            continue
        if b.op == "c":
            v = _cpow(b.args[0], p)
            if v is not None:
                coef *= v
                continue
        if b.op == "*" and p.denominator == 1:
            redo.append((b, p))
            continue
        items[b] = p
    if redo:
        for b, p in redo:
            for b2, p2 in b.args:
                items[b2] = items.get(b2, 0) + p2 * p
        return _mkmul(coef, items)
    if coef == 0:
        return ZERO
    its = tuple(sorted(items.items(), key=lambda z: z[0].id))
    if not its:
        return C(coef)
    if len(its) == 1 and its[0][1] == 1:
        t = its[0][0]
        if coef == 1:
            return t
        return _mkadd({tt: c * coef for c, tt in terms(t)})
    t = E("*", its)
    if coef == 1:
        return t
    return E("+", ((coef, t),))


def _cpow(q, p):
    if p.denominator == 1:
        if q == 0:
            return None if p < 0 else Q(0)
        return q ** int(p)
    if q < 0:
        return None
    if q in (0, 1):
        return q if q or p > 0 else None
    n, d = p.numerator, p.denominator
    a, b = _iroot(q.numerator, d), _iroot(q.denominator, d)
    if a is None or b is None:
        return None
    return Q(a, b) ** n


def _iroot(n, d):
    r = round(n ** (1.0 / d)) if n < 10 ** 15 else None
    if r is None:
        return None
    for k in (r - 1, r, r + 1):
        if k >= 0 and k ** d == n:
            return k
    return None


def power(a, p):
    a = num(toE(a))
    p = toE(p)
    if not isc(p):
        return fn("pow", a, p)
    p = cval(p)
    if p == 0:
        return ONE
    if p == 1:
        return a
    if IEEE and (p < 0 or p.denominator != 1) and a.op not in ("c", "k") and not (p == -1 and is_int(a)):
        return raw("rpow", a, C(p))
    if a.op == "c":
        v = _cpow(a.args[0], p)
        if v is not None:
            return C(v)
        if a.args[0] == 0:
            return fn("div0")
        return E("*", ((a, p),))
    c, t = _split(a)
    if p.denominator == 1:
        if t.op == "*":
            return _mkmul(_cpow(c, p), {b: q * p for b, q in t.args})
        return _mkmul(_cpow(c, p), {t: p})
    if c > 0:
        v = _cpow(c, p)
        if v is not None:
            return _mkmul(v, {t: p})
        return _mkmul(Q(1), {C(c): p, t: p}) if c != 1 else _mkmul(Q(1), {t: p})
    return _mkmul(Q(1), {a: p})


def div(a, b):
    if IEEE and not isc(toE(b)) and toE(b).op != "k" and not (is_int(toE(a)) and is_int(toE(b))):
        return raw("rdiv", toE(a), toE(b))
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- IEEE mode: singular operations stay explicit
IEEE = False
HERE = None         # source position of the operation being built
SITE = {}           # singular operation -> source position


def masked(c, e):
    """derivative through a selection: the inactive branch is multiplied by zero, not skipped"""
    if e is ZERO or c is FALSE:
        return ZERO
    if c is TRUE:
        return e
    if isc(e):
        return where(c, e, ZERO)
    return fn("rmul", where(c, ONE, ZERO), e)


def raw(name, *args):
    e = fn(name, *args)
    if e not in SITE:
        SITE[e] = HERE
    return e


def sqrt(a):
    return power(a, Q(1, 2))


# ---------------------------------------------------------------- functions
def fn(name, *args):
    return E("f", (name,) + tuple(args))


BOUND = {}          # bound variable / symbol -> exclusive upper bound (its lower bound is 0)
_bounded = {}


def bounded(base, bound):
    """an index symbol below the bound; one symbol per (name, bound), the first bound gets the plain name"""
    key = (base, toE(bound))
    if key not in _bounded:
        n = sum(1 for b, _ in _bounded if b == base)
        v = _bounded[key] = sym(base if n == 0 else "%s_%d" % (base, n))
        BOUND[v] = key[1]
    return _bounded[key]


SPLIT = {}          # dimension expression -> (outer, inner) factors of a flattened axis


def _divparts(a, b):
    """a = b*whole + rest with 0 <= rest < b provable, or None"""
    rest, whole = [], []
    for c, t in terms(a):
        if isc(b):
            n = int(cval(b))
            if c.denominator == 1 and is_int(t):
                if t is ONE:
                    whole.append(C(c.numerator // n))
                    rest.append(C(c.numerator % n))
                elif c.numerator % n == 0:
                    whole.append(mul(C(Q(c.numerator // n)), t))
                else:
                    rest.append(mul(C(c), t))
                continue
            return None
        m = mul(C(c), t)
        q = div(m, b)
        if not any(True for bb, pp in (q.args if q.op == "*" else ()) if pp < 0) and is_int(q):
            whole.append(q)
        else:
            rest.append(m)
    r = add(*rest) if rest else ZERO
    if r is ZERO or (r.op == "f" and r.args[0] == "mod" and r.args[2] is b) or BOUND.get(r) is b:
        return add(*whole) if whole else ZERO, r
    if isc(b):
        if isc(r) and 0 <= cval(r) < cval(b):
            return add(*whole) if whole else ZERO, r
        n = BOUND.get(r)
        if n is not None and isc(n) and cval(n) <= cval(b):
            return add(*whole) if whole else ZERO, r
    return None


def floordiv(a, b):
    a, b = toE(a), toE(b)
    if isc(a) and isc(b) and cval(b) != 0:
        return C(cval(a) // cval(b))
    if b is ONE:
        return floor(a)
    if is_int(a) and not (isc(b) and (cval(b).denominator != 1 or cval(b) <= 0)):
        r = _divparts(a, b)
        if r is not None:
            return r[0]
    return fn("floordiv", a, b)


def mod(a, b):
    a, b = toE(a), toE(b)
    if isc(a) and isc(b) and cval(b) != 0:
        return C(cval(a) % cval(b))
    if a.op == "f" and a.args[0] == "mod" and a.args[2] is b:
        return a
    if is_int(a) and not (isc(b) and (cval(b).denominator != 1 or cval(b) <= 0)):
        r = _divparts(a, b)
        if r is not None:
            return r[1]
    return fn("mod", a, b)


def floor(a):
    a = toE(a)
    if isc(a):
        return C(cval(a).__floor__())
    if is_int(a):
        return a
    if not a.top and not syms(a) and not bvs(a):
        try:
            v = Env(1).ev(a)
        except Exception:
            v = None
        if isinstance(v, (int, float)) and abs(v) < 1e9 and abs(v - round(v)) > 1e-9:
            return C(math.floor(v))
    return fn("floor", a)


INTSYM = set()      # names of integer-valued symbols


def is_int(e):
    if e.op == "c":
        return e.args[0].denominator == 1
    if e.op == "v":
        return True
    if e.op == "s":
        return e.args[0] in INTSYM or e.args[0].startswith("#")
    if e.op == "+":
        return all(c.denominator == 1 and is_int(t) for c, t in e.args)
    if e.op == "*":
        return all(p.denominator == 1 and p > 0 and is_int(b) for b, p in e.args)
    if e.op == "M":
        return is_int(e.args[-1])
    if e.op == "f":
        n = e.args[0]
        if n in ("floor", "ceil", "floordiv", "round", "sign", "argmin", "argmax", "rint", "trunc", "argmins", "argmaxs"):
            return True
        if n == "mod":
            return is_int(e.args[1]) and is_int(e.args[2])
        if n in ("max", "min", "abs"):
            return all(is_int(a) for a in e.args[1:])
        if n == "where":
            return is_int(e.args[2]) and is_int(e.args[3])
        if n == "select":
            return all(is_int(a) for a in e.args[2:])
    return False


def lt0(x):
    x = toE(x)
    if isc(x):
        return TRUE if cval(x) < 0 else FALSE
    c, t = _split(x)
    if c > 0:
        x = t
    else:
        x = neg(t)
    return fn("lt0", _whole(x))


def _whole(x):
    """sum scaled to whole coefficients when their denominators are small: keeps comparisons of integers exact"""
    if x.op != "+":
        return x
    d = 1
    for c, _ in x.args:
        d = d * c.denominator // math.gcd(d, c.denominator)
        if d > 1000:
            return x
    return mul(C(d), x) if d > 1 else x


def eq0(x):
    x = toE(x)
    if isc(x):
        return TRUE if cval(x) == 0 else FALSE
    c, t = _split(x)
    return fn("eq0", t)


def lt(a, b):
    return lt0(sub(a, b))


def gt(a, b):
    return lt0(sub(b, a))


def le(a, b):
    return not_(lt0(sub(b, a)))


def ge(a, b):
    return not_(lt0(sub(a, b)))


def eq(a, b):
    a, b = toE(a), toE(b)
    if is_bool(a) and is_bool(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq0(sub(a, b))


def asbool(x):
    x = toE(x)
    if is_bool(x) or x.top:
        return x
    if isc(x):
        return TRUE if cval(x) != 0 else FALSE
    if x.op == "f" and x.args[0] == "where" and isc(x.args[2]) and isc(x.args[3]):
        a, b = asbool(x.args[2]), asbool(x.args[3])
        if a is TRUE and b is FALSE:
            return x.args[1]
        if a is FALSE and b is TRUE:
            return not_(x.args[1])
    if x.op == "*" and all(p > 0 for _, p in x.args):
        return and_(*[asbool(b) for b, _ in x.args])
    return not_(eq0(x))


def not_(x):
    x = toE(x)
    if x.op == "b":
        return FALSE if x.args[0] else TRUE
    if x.op == "f" and x.args[0] == "not":
        return x.args[1]
    if x.op == "f" and x.args[0] == "and":
        return or_(*[not_(a) for a in x.args[1:]])
    if x.op == "f" and x.args[0] == "or":
        return and_(*[not_(a) for a in x.args[1:]])
    return fn("not", x)


def _nary(name, xs, unit, zero):
    out = {}
    for x in xs:
        x = asbool(x)
        if x is zero:
            return zero
        if x is unit:
            continue
        if x.op == "f" and x.args[0] == name:
            for y in x.args[1:]:
                out[y] = 1
        else:
            out[x] = 1
    for y in out:
        if not_(y) in out:
            return zero
    ys = sorted(out, key=lambda z: z.id)
    if not ys:
        return unit
    if len(ys) == 1:
        return ys[0]
    return fn(name, *ys)


def and_(*xs):
    return _nary("and", xs, TRUE, FALSE)


def or_(*xs):
    return _nary("or", xs, FALSE, TRUE)


def where(c, a, b):
    c, a, b = asbool(c), toE(a), toE(b)
    if c.op == "b":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "f" and c.args[0] == "not":
        return where(c.args[1], b, a)
    if is_bool(a) or is_bool(b):
        return or_(and_(c, asbool(a)), and_(not_(c), asbool(b)))
    if a.op == "f" and a.args[0] == "where" and a.args[1] is c:
        a = a.args[2]
    if b.op == "f" and b.args[0] == "where" and b.args[1] is c:
        b = b.args[3]
    if a is b:
        return a
    return fn("where", c, a, b)


def max_(*xs):
    out = {}
    k = None
    for x in xs:
        x = num(toE(x))
        ys = x.args[1:] if x.op == "f" and x.args[0] == "max" else (x,)
        for y in ys:
            if isc(y):
                k = cval(y) if k is None else max(k, cval(y))
            else:
                out[y] = 1
    ys = list(out)
    if k is not None:
        ys.append(C(k))
    ys.sort(key=lambda z: z.id)
    if len(ys) == 1:
        return ys[0]
    return fn("max", *ys)


def min_(*xs):
    return neg(max_(*[neg(num(toE(x))) for x in xs]))


def abs_(x):
    x = num(toE(x))
    if isc(x):
        return C(abs(cval(x)))
    c, t = _split(x)
    if t.op == "f" and t.args[0] == "abs":
        return mul(C(abs(c)), t)
    return mul(C(abs(c)), fn("abs", t))


def sign(x):
    x = num(toE(x))
    if isc(x):
        v = cval(x)
        return C((v > 0) - (v < 0))
    c, t = _split(x)
    return mul(C(1 if c > 0 else -1), fn("sign", t))


def clip(x, lo=None, hi=None):
    if lo is not None:
        x = max_(x, lo)
    if hi is not None:
        x = min_(x, hi)
    return toE(x)


def select(i, xs):
    i = toE(i)
    xs = [toE(x) for x in xs]
    if isc(i):
        k = int(cval(i))
        if -len(xs) <= k < len(xs):
            return xs[k]
        return top("index %d out of range %d" % (k, len(xs)))
    if all(x is xs[0] for x in xs):
        return xs[0]
    return fn("select", i, *xs)


def exp(x):
    x = num(toE(x))
    if x is ZERO:
        return ONE
    if x.op == "f" and x.args[0] == "log":
        return x.args[1]
    return fn("exp", x)


def log(x):
    x = num(toE(x))
    if x is ONE:
        return ZERO
    if x.op == "f" and x.args[0] == "exp":
        return x.args[1]
    return fn("log", x)


def func(name, x):
    x = num(toE(x))
    if isc(x) and cval(x) == 0:
        if name in ("sin", "tan", "arctan", "arcsin", "sinh", "tanh"):
            return ZERO
        if name in ("cos", "cosh"):
            return ONE
    if name in ("sin", "tan", "tanh", "sinh", "arctan", "arcsin"):
        c, t = _split(x)
        if c < 0:
            return neg(fn(name, neg(x)))
    if name == "cos":
        c, t = _split(x)
        if c < 0:
            return fn(name, neg(x))
    return fn(name, x)


# ---------------------------------------------------------------- binders
def depth(e):
    m = 0
    for n in walk(e):
        if n.op in ("S", "M"):
            m = max(m, int(n.args[0 if n.op == "S" else 1].args[0][1:]))
    return m


def ssum(v, guard, body):
    """sum over index v of body where guard holds"""
    body = num(body)
    if body is ZERO or guard is FALSE:
        return ZERO
    out = []
    for c, t in terms(expand_over(body, v)):
        inn, outer = [], [C(c)]
        for b, p in (t.args if t.op == "*" else ((t, Q(1)),)):
            (inn if v in bvs(b) else outer).append(power(b, C(p)))
        bod = mul(*inn) if inn else ONE
        d = max(depth(bod), depth(guard)) + 1
        nv = bv("$%d" % d)
        m = {v: nv}
        out.append(mul(*outer, E("S", (nv, subst(guard, m), subst(bod, m)))))
    return add(*out)


def amax(kind, v, body):
    d = depth(body) + 1
    nv = bv("$%d" % d)
    return E("M", (kind, nv, subst(body, {v: nv})))


def pick(kind, v, key, payload):
    """payload at the index v where key is largest/smallest"""
    key, payload = num(key), num(payload)
    if v not in bvs(payload):
        return payload
    nv = bv("$%d" % (max(depth(key), depth(payload)) + 1))
    return E("M", (kind, nv, subst(key, {v: nv}), subst(payload, {v: nv})))


def expand_over(e, v):
    """distribute products so that factors free of v can be pulled out"""
    if e.op == "+":
        return add(*[mul(C(c), expand_over(t, v)) for c, t in e.args])
    if e.op == "*":
        for b, p in e.args:
            if b.op == "+" and p == 1 and v in bvs(b) and len(b.args) <= 12:
                rest = mul(*[power(bb, C(pp)) for bb, pp in e.args if bb is not b])
                return add(*[expand_over(mul(C(c), t, rest), v) for c, t in b.args])
    return e


# ---------------------------------------------------------------- traversal
def walk(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def syms(e):
    """free symbol names"""
    if e._syms is None:
        r = set()
        if e.op == "s":
            r.add(e.args[0])
        for k in kids(e):
            r |= syms(k)
        e._syms = frozenset(r)
    return e._syms


def bvs(e):
    if e._bvs is None:
        r = set()
        if e.op == "v":
            r.add(e)
        for k in kids(e):
            r |= bvs(k)
        if e.op == "S":
            r.discard(e.args[0])
        if e.op == "M":
            r.discard(e.args[1])
        e._bvs = frozenset(r)
    return e._bvs


def symnodes(e):
    return [n for n in walk(e) if n.op == "s"]


REBUILD = {
    "floordiv": floordiv, "mod": mod, "floor": floor, "lt0": lt0, "eq0": eq0, "not": not_, "and": and_,
    "or": or_, "where": where, "max": max_, "abs": abs_, "sign": sign, "exp": exp, "log": log, "pow": power,
}


def rebuild(e, f):
    """rebuild e with children mapped by f through the smart constructors"""
    op, a = e.op, e.args
    if op in ("c", "k", "b", "v", "top"):
        return e
    if op == "s":
        return E("s", (a[0],) + tuple(f(x) for x in a[1:]))
    if op == "+":
        return add(*[mul(C(c), f(t)) for c, t in a])
    if op == "*":
        return mul(*[power(f(b), C(p)) for b, p in a])
    if op == "f":
        args = [f(x) if isinstance(x, E) else x for x in a[1:]]
        n = a[0]
        if n in REBUILD:
            return REBUILD[n](*args)
        if n == "select":
            return select(args[0], args[1:])
        if n in ("sin", "cos", "tan", "tanh", "sinh", "arctan", "arcsin"):
            return func(n, args[0])
        r = E("f", (n,) + tuple(args))
        if e in SITE and r not in SITE:
            SITE[r] = SITE[e]
        return r
    if op == "S":
        v = fresh_bv()
        g, b = subst(a[1], {a[0]: v}), subst(a[2], {a[0]: v})
        return ssum(v, f(g), f(b))
    if op == "M":
        v = fresh_bv()
        if len(a) == 4:
            return pick(a[0], v, f(subst(a[2], {a[1]: v})), f(subst(a[3], {a[1]: v})))
        return amax(a[0], v, f(subst(a[2], {a[1]: v})))
    raise AssertionError(op)


def subst(e, m, memo=None):
    if not m:
        return e
    if memo is None:
        memo = {}
    keys = set(m)
    kv = {k for k in keys if k.op == "v"}
    only_v = len(kv) == len(keys)
    ks = {k.args[0] for k in keys if k.op == "s"}
    simple = all(k.op in "vs" for k in keys)

    def go(x):
        if x in m:
            return m[x]
        if simple:
            if not (bvs(x) & kv) and not (ks and (syms(x) & ks)):
                return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(e)


def replace_syms(e, fun, memo=None):
    """map symbol nodes through fun(name, idx)->E or None"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "s":
            y = rebuild(x, go)
            r = fun(y.args[0], y.args[1:])
            r = y if r is None else r
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(e)


# ---------------------------------------------------------------- expansion
def expand(e, limit=20000):
    """full distribution; returns None when too large"""
    try:
        return _expand(e, limit)
    except OverflowError:
        return None


def _expand(e, limit):
    if e._exp is not None:
        return e._exp
    if e.op == "+":
        r = add(*[mul(C(c), _expand(t, limit)) for c, t in e.args])
    elif e.op == "*":
        r = ONE
        for b, p in e.args:
            b2 = _expand(b, limit)
            if p.denominator == 1 and p > 0 and b2.op == "+":
                for _ in range(int(p)):
                    r = _dist(r, b2, limit)
            else:
                r = _dist(r, power(b2, C(p)), limit)
    elif e.op in ("c", "k", "b", "v", "s", "top"):
        r = e
    else:
        r = rebuild(e, lambda k: _expand(k, limit))
    e._exp = r
    return r


def _dist(a, b, limit):
    ta, tb = terms(a), terms(b)
    if len(ta) * len(tb) > limit:
        raise OverflowError
    return add(*[mul(C(c1 * c2), t1, t2) for c1, t1 in ta for c2, t2 in tb])


# ---------------------------------------------------------------- derivative
def diff(e, x, memo=None):
    if memo is None:
        memo = {}

    def d(n):
        if n is x:
            return ONE
        if x.op == "s" and x.args[0] not in syms(n):
            return ZERO
        if x.op == "v" and x not in bvs(n):
            return ZERO
        r = memo.get(n)
        if r is None:
            r = memo[n] = _d(n)
        return r

    def _d(n):
        op, a = n.op, n.args
        if op == "s":
            # same array, other element: zero when indices are provably distinct constants
            if len(a) == len(x.args) and any(isc(p) and isc(q) and p is not q for p, q in zip(a[1:], x.args[1:])):
                return ZERO
            return top("d of aliased symbol")
        if op in ("c", "k", "b", "v", "top"):
            return ZERO if op != "top" else n
        if op == "+":
            return add(*[mul(C(c), d(t)) for c, t in a])
        if op == "*":
            out = []
            for b, p in a:
                db = d(b)
                if db is ZERO:
                    continue
                rest = [power(b2, C(p2)) for b2, p2 in a if b2 is not b]
                out.append(mul(C(p), power(b, C(p - 1)), db, *rest))
            return add(*out)
        if op == "f":
            nm = a[0]
            if nm == "rdiv":
                return add(raw("rdiv", d(a[1]), a[2]) if d(a[1]) is not ZERO else ZERO,
                           neg(mul(raw("rdiv", n, a[2]), d(a[2]))) if d(a[2]) is not ZERO else ZERO)
            if nm == "rpow":
                return mul(a[2], power(a[1], C(cval(a[2]) - 1)), d(a[1])) if d(a[1]) is not ZERO else ZERO
            if nm == "rmul":
                return add(fn("rmul", a[1], d(a[2])) if d(a[2]) is not ZERO else ZERO, fn("rmul", d(a[1]), a[2]) if d(a[1]) is not ZERO else ZERO)
            if IEEE and nm == "where":
                return add(masked(a[1], d(a[2])), masked(not_(a[1]), d(a[3])))
            if IEEE and nm == "max":
                out, w = [], TRUE
                for k, y in enumerate(a[1:]):
                    rest = [z for j, z in enumerate(a[1:]) if j != k]
                    out.append(masked(and_(*[not_(lt(y, z)) for z in rest]), d(y)))
                return add(*out)
            if nm == "where":
                return where(a[1], d(a[2]), d(a[3]))
            if nm == "max":
                r = d(a[1])
                cur = a[1]
                for y in a[2:]:
                    r = where(lt(cur, y), d(y), r)
                    cur = max_(cur, y)
                return r
            if nm == "abs":
                return mul(sign(a[1]), d(a[1]))
            if nm in ("sign", "floor", "ceil", "round", "floordiv", "argmin", "argmax", "rint") or nm in BOOLF:
                return ZERO
            if nm == "exp":
                return mul(n, d(a[1]))
            if nm == "log":
                return div(d(a[1]), a[1])
            if nm == "sin":
                return mul(func("cos", a[1]), d(a[1]))
            if nm == "cos":
                return neg(mul(func("sin", a[1]), d(a[1])))
            if nm == "select":
                return select(a[1], [d(y) for y in a[2:]])
            if nm == "sigmoid":
                return mul(n, sub(ONE, n), d(a[1]))
            if nm == "pow":
                b, p = a[1], a[2]
                return add(mul(p, fn("pow", b, sub(p, ONE)), d(b)), mul(n, log(b), d(p)))
            if nm == "stopgrad":
                return ZERO
            if nm == "arctan2":
                y, z = a[1], a[2]
                den = add(mul(y, y), mul(z, z))
                return div(sub(mul(z, d(y)), mul(y, d(z))), den)
            if nm == "mod":
                return d(a[1])
            return top("derivative of %s" % nm)
        if op == "S":
            return ssum(a[0], a[1], d(a[2]))
        if op == "M":
            # envelope: derivative of the attained entry
            v = fresh_bv()
            return pick(a[0], v, subst(a[2], {a[1]: v}), d(subst(a[-1], {a[1]: v})))
        return top("derivative of %s" % op)
    return d(e)


# ---------------------------------------------------------------- random interpretation
def _h(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


class Env:
    """one random assignment of the graph's symbols"""

    def __init__(self, seed, ranges=None, fixed=None, special=None):
        self.seed = seed
        self.ranges = ranges or {}
        self.fixed = fixed or {}
        self.special = special or {}
        self.cache = {}
        self.bound = {}

    def symbol(self, name, idx):
        if (name, idx) in self.fixed:
            return self.fixed[(name, idx)]
        if name in self.fixed:
            return self.fixed[name]
        for pre, f in self.special.items():
            if name == pre or (pre.endswith("*") and name.startswith(pre[:-1])):
                return f(self, name, idx)
        u = _h(self.seed, name, idx)
        if name in INTSYM or name.startswith("#"):
            r = self.rng(name, None) if name.startswith("#") else None
            if r is not None:
                return int(r[0] + (r[1] - r[0] + 0.999999) * u)
            return int(u * 900) + 7
        lo, hi = self.rng(name)
        return lo + (hi - lo) * u

    def rng(self, name, default=(-2.0, 2.0)):
        if name in self.ranges:
            return self.ranges[name]
        best = None
        for k, v in self.ranges.items():
            if k.endswith("*") and name.startswith(k[:-1]):
                if best is None or len(k) > len(best):
                    best = k
            elif k.startswith("*") and name.endswith(k[1:]):
                if best is None or len(k) > len(best):
                    best = k
        if best:
            return self.ranges[best]
        return default

    def ev(self, e):
        if not bvs(e):
            r = self.cache.get(e)
            if r is None:
                r = self._ev(e)
                self.cache[e] = r
            return r
        key = (e, tuple(sorted((v.args[0], self.bound.get(v)) for v in bvs(e))))
        r = self.cache.get(key)
        if r is None:
            r = self._ev(e)
            self.cache[key] = r
        return r

    def _ev(self, e):
        op, a = e.op, e.args
        if op == "c":
            q = a[0]
            return int(q) if q.denominator == 1 else float(q)
        if op == "k":
            return {"pi": math.pi, "inf": math.inf, "-inf": -math.inf, "nan": math.nan}[a[0]]
        if op == "b":
            return a[0]
        if op == "s":
            return self.symbol(a[0], tuple(self.ev(i) for i in a[1:]))
        if op == "v":
            if e in self.bound:
                return self.bound[e]
            return int(_h(self.seed, "bv", a[0]) * 900) + 7
        if op == "top":
            return _h(self.seed, "top", a[1]) * 4 - 2
        if op == "+":
            return math.fsum(float(c) * self.ev(t) for c, t in a) if not is_int(e) else sum(int(c) * self.ev(t) for c, t in a)
        if op == "*":
            r = 1
            for b, p in a:
                v = self.ev(b)
                if p.denominator == 1:
                    p = int(p)
                    if p < 0 and v == 0:
                        return math.inf
                    r = r * v ** p
                else:
                    if v < 0:
                        if p.denominator % 2 == 1:
                            r = r * (-(abs(v) ** float(p)) if p.numerator % 2 else abs(v) ** float(p))
                            continue
                        return math.nan
                    if v == 0 and p < 0:
                        return math.inf
                    r = r * v ** float(p)
            return r
        if op == "S":
            return self._sum(a[0], a[1], a[2])
        if op == "M":
            vals = []
            for k in range(3):
                old = self.bound.get(a[1])
                self.bound[a[1]] = int(_h(self.seed, "tok", k) * 10 ** 6) + 1000
                vals.append((self.ev(a[2]), k))
                self._unbind(a[1], old)
            w = max(vals) if a[0] == "max" else min(vals)
            if len(a) == 4:
                old = self.bound.get(a[1])
                self.bound[a[1]] = int(_h(self.seed, "tok", w[1]) * 10 ** 6) + 1000
                r = self.ev(a[3])
                self._unbind(a[1], old)
                return r
            return w[0]
        if op == "f":
            return self._fn(a[0], a[1:], e)
        raise AssertionError(op)

    def zero(self, e, v):
        """is the value zero, relative to the terms it is made of"""
        if v == 0:
            return True
        if e.op == "*":
            return any(p > 0 and self.zero(b, self.ev(b)) for b, p in e.args)
        if e.op == "+":
            return abs(v) <= 1e-13 * sum(abs(float(c) * self.ev(t)) for c, t in e.args)
        return False

    def _unbind(self, v, old):
        if old is None:
            self.bound.pop(v, None)
        else:
            self.bound[v] = old

    def _sum(self, v, guard, body):
        tot = 0.0
        old = self.bound.get(v)
        for k in range(3):
            self.bound[v] = int(_h(self.seed, "tok", k) * 10 ** 6) + 1000
            w = 1.0
            for g in (guard.args[1:] if guard.op == "f" and guard.args[0] == "and" else (guard,)):
                if g.op == "f" and g.args[0] == "hit":
                    w *= 0.5 + _h(self.seed, "hit", self.ev(g.args[1]), self.ev(g.args[2]))
                elif not self.ev(g):
                    w = 0.0
            tot += w * self.ev(body)
        self._unbind(v, old)
        return tot

    def _fn(self, n, a, e):
        ev = self.ev
        if n == "where":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if n == "and":
            return all(ev(x) for x in a)
        if n == "or":
            return any(ev(x) for x in a)
        if n == "select":
            i = ev(a[0])
            k = len(a) - 1
            i = int(i) % k if not (0 <= i < k) else int(i)
            return ev(a[1 + i])
        v = [ev(x) if isinstance(x, E) else x for x in a]
        try:
            if n == "lt0":
                return v[0] < 0
            if n == "eq0":
                return self.zero(a[0], v[0])
            if n == "not":
                return not v[0]
            if n == "max":
                return max(v)
            if n == "abs":
                return abs(v[0])
            if n == "sign":
                return (v[0] > 0) - (v[0] < 0)
            if n == "floor":
                return math.floor(v[0])
            if n == "ceil":
                return math.ceil(v[0])
            if n == "trunc":
                return math.trunc(v[0])
            if n in ("round", "rint"):
                return round(v[0])
            if n == "floordiv":
                return v[0] // v[1]
            if n == "mod":
                return v[0] % v[1]
            if n == "exp":
                return math.exp(v[0]) if v[0] < 700 else math.inf
            if n == "log":
                return math.log(v[0]) if v[0] > 0 else math.nan
            if n == "pow":
                return v[0] ** v[1] if v[0] > 0 else math.nan
            if n == "sigmoid":
                return 1 / (1 + math.exp(-v[0])) if v[0] > -700 else 0.0
            if n == "arctan2":
                return math.atan2(v[0], v[1])
            if n in ("sin", "cos", "tan", "tanh", "sinh", "cosh"):
                return getattr(math, n)(v[0])
            if n in ("arctan", "arcsin", "arccos"):
                return getattr(math, n.replace("arc", "a"))(v[0])
            if n == "isnan":
                return v[0] != v[0]
            if n == "isinf":
                return v[0] in (math.inf, -math.inf)
            if n == "isfinite":
                return math.isfinite(v[0])
            if n in ("argmin", "argmax"):
                f = min if n == "argmin" else max
                return v.index(f(v))
            if n == "hit":
                return v[0] == v[1]
            if n == "stopgrad":
                return v[0]
            if n == "halffloat":
                return struct.unpack("e", struct.pack("e", v[0]))[0] if abs(v[0]) < 65520 else math.copysign(math.inf, v[0])
            if n == "bffloat":
                m, x = math.frexp(v[0])
                return math.ldexp(round(m * 256) / 256, x)
            if n == "div0":
                return math.inf
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            return math.nan
        if n in ("svd_u", "svd_s", "svd_vh", "eigval", "eigvec"):
            r = _spectral(n, v)
            if r is not None:
                return r
        if n == "expm":
            r = _expm(v)
            if r is not None:
                return r
        # uninterpreted function: random value determined by rounded arguments
        key = tuple(round(x, 7) if isinstance(x, float) and math.isfinite(x) else x for x in v)
        u = _h(self.seed, "uf", n, key)
        if n in BOOLF:
            return u < 0.5
        return u * 4 - 2


_F32 = struct.Struct('f')


class IEnv(Env):
    """evaluation in the machine's arithmetic at a degenerate state: infinities and NaN propagate, magnitudes saturate as in single precision"""

    def __init__(self, seed, ranges=None, fixed=None, special=None, hits=True):
        super().__init__(seed, ranges, fixed, special)
        self.hits = hits
        self.unknown = False

    def symbol(self, name, idx):
        return self.f32(super().symbol(name, idx))

    def f32(self, v):
        """round to single precision, denormals flushed"""
        if isinstance(v, float) and v == v:
            if abs(v) > 3.4028235e38:
                return math.copysign(math.inf, v)
            if abs(v) < 1.1754944e-38:
                return 0.0
            return _F32.unpack(_F32.pack(v))[0]
        return v

    def _ev(self, e):
        op, a = e.op, e.args
        if op == "top":
            self.unknown = True
            return 0.5
        if op == "c":
            q = a[0]
            return int(q) if q.denominator == 1 else self.f32(float(q))
        if op == "+" and not is_int(e):
            r = 0.0
            ts = []
            for c, t in a:
                v = self.ev(t)
                if isinstance(v, bool):
                    v = int(v)
                ts.append(float(c) * v)
            try:
                r = math.fsum(ts)
            except (OverflowError, ValueError):
                r = sum(ts)
            return self.f32(r)
        if op == "*":
            r = 1
            for b, p in a:
                v = self.ev(b)
                r = r * self.pw(v, p)
            return self.f32(r)
        v = super()._ev(e)
        if isinstance(v, float) and op == "f":
            v = self.f32(v)
        return v

    def pw(self, v, p):
        try:
            if p.denominator == 1:
                p = int(p)
                if v == 0 and p < 0:
                    return math.copysign(math.inf, v) if p % 2 else math.inf
                return v ** p
            if v < 0:
                return math.nan
            if v == 0:
                return 0.0 if p > 0 else math.inf
            return float(v) ** float(p)
        except OverflowError:
            return math.inf

    def _sum(self, v, guard, body):
        if not self.hits and any(g.op == "f" and g.args[0] == "hit" for g in (guard.args[1:] if guard.op == "f" and guard.args[0] == "and" else (guard,))):
            return 0.0
        return super()._sum(v, guard, body)

    def zero(self, e, v):
        return v == 0

    def _fn(self, n, a, e):
        if n == "rmul":
            return self.ev(a[0]) * self.ev(a[1])
        if n == "rdiv":
            x, y = self.ev(a[0]), self.ev(a[1])
            if y == 0:
                return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1.0, y)
            try:
                return x / y
            except OverflowError:
                return math.inf
        if n == "rpow":
            return self.pw(self.ev(a[0]), cval(a[1]))
        if n in ("where", "select", "and", "or", "hit", "isnan", "isinf", "isfinite", "stopgrad"):
            return super()._fn(n, a, e)
        v = [self.ev(x) if isinstance(x, E) else x for x in a]
        bad = any(isinstance(x, float) and x != x for x in v)
        if n in ("lt0", "eq0", "not"):
            return False if bad and n != "not" else super()._fn(n, a, e)
        if bad:
            return math.nan
        if n == "log":
            return math.log(v[0]) if 0 < v[0] < math.inf else (-math.inf if v[0] == 0 else math.inf if v[0] > 0 else math.nan)
        if n == "exp":
            return 0.0 if v[0] < -745 else math.exp(v[0]) if v[0] < 700 else math.inf
        if n == "pow":
            if v[0] == 0:
                return 0.0 if v[1] > 0 else 1.0 if v[1] == 0 else math.inf
            return v[0] ** v[1] if v[0] > 0 else math.nan
        if n == "sigmoid":
            return 1 / (1 + math.exp(-v[0])) if v[0] > -700 else 0.0
        if n in ("tanh",):
            return math.tanh(v[0])
        return super()._fn(n, a, e)


def blame(e, env, lim=40000):
    """the innermost singular operation that turns finite operands into a non-finite value on the way to e"""
    seen = set()
    bad = lambda x: isinstance(x, float) and not math.isfinite(x)
    best = None
    stack = [e]
    while stack and len(seen) < lim:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "f" and x.args[0] in ("where", "select"):
            c = env.ev(x.args[1])
            if x.args[0] == "where":
                nxt = [x.args[2] if c else x.args[3]]
            else:
                nxt = list(x.args[2:])
        elif x.op in ("S", "M"):
            nxt = [k for k in kids(x)]
        else:
            nxt = list(kids(x))
        b = []
        for k in nxt:
            try:
                if bad(env.ev(k)):
                    b.append(k)
            except Exception:
                pass
        if not b and x.op == "f" and (best is None or SITE.get(x)):
            best = x
            if SITE.get(x):
                return x
        stack.extend(b)
    return best


def jacobi(A):
    """eigenvalues (descending) and column eigenvectors of a small symmetric matrix"""
    n = len(A)
    A = [list(r) for r in A]
    V = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = max(((abs(A[i][j]), i, j) for i in range(n) for j in range(i + 1, n)), default=(0, 0, 0))
        if off[0] < 1e-15:
            break
        _, p, q = off
        th = 0.5 * math.atan2(2 * A[p][q], A[q][q] - A[p][p])
        c, s = math.cos(th), math.sin(th)
        for k in range(n):
            A[k][p], A[k][q] = c * A[k][p] - s * A[k][q], s * A[k][p] + c * A[k][q]
        for k in range(n):
            A[p][k], A[q][k] = c * A[p][k] - s * A[q][k], s * A[p][k] + c * A[q][k]
        for k in range(n):
            V[k][p], V[k][q] = c * V[k][p] - s * V[k][q], s * V[k][p] + c * V[k][q]
    o = sorted(range(n), key=lambda k: -A[k][k])
    return [A[k][k] for k in o], [[V[i][k] for k in o] for i in range(n)]


_SPEC = {}


def _expm(v):
    """entry (i,j) of the exponential of a small matrix"""
    m = v[2:]
    n = math.isqrt(len(m))
    if n * n != len(m) or not all(isinstance(x, (int, float)) and math.isfinite(x) and abs(x) < 50 for x in m):
        return None
    key = ("expm", tuple(m))
    r = _SPEC.get(key)
    if r is None:
        k = 10
        A = [[m[i * n + j] / 2 ** k for j in range(n)] for i in range(n)]
        mul_ = lambda P, Q: [[sum(P[i][a] * Q[a][j] for a in range(n)) for j in range(n)] for i in range(n)]
        r = [[float(i == j) for j in range(n)] for i in range(n)]
        t = [row[:] for row in r]
        for q in range(1, 14):
            t = [[x / q for x in row] for row in mul_(t, A)]
            r = [[r[i][j] + t[i][j] for j in range(n)] for i in range(n)]
        for _ in range(k):
            r = mul_(r, r)
        _SPEC[key] = r
    return r[int(v[0]) % n][int(v[1]) % n]



def _spectral(name, v):
    """defining semantics of the matrix factorisations at a numeric matrix"""
    ni = 1 if name in ("svd_s", "eigval") else 2
    idx, m = v[:ni], tuple(v[ni:])
    n = math.isqrt(len(m))
    if n * n != len(m) or not all(isinstance(x, (int, float)) and math.isfinite(x) for x in m):
        return None
    key = (name[:3], m)
    r = _SPEC.get(key)
    if r is None:
        A = [[m[i * n + j] for j in range(n)] for i in range(n)]
        if name.startswith("eig"):
            w, V = jacobi([[0.5 * (A[i][j] + A[j][i]) for j in range(n)] for i in range(n)])
            w, V = w[::-1], [row[::-1] for row in V]
            r = (w, V, None)
        else:
            w, V = jacobi([[sum(A[k][i] * A[k][j] for k in range(n)) for j in range(n)] for i in range(n)])
            s = [math.sqrt(max(x, 0.0)) for x in w]
            U = [[(sum(A[i][k] * V[k][j] for k in range(n)) / s[j]) if s[j] > 1e-12 else 0.0 for j in range(n)] for i in range(n)]
            r = (s, U, [[V[j][i] for j in range(n)] for i in range(n)])
        if len(_SPEC) > 5000:
            _SPEC.clear()
        _SPEC[key] = r
    i = int(idx[0]) % n
    if ni == 1:
        return r[0][i]
    j = int(idx[1]) % n
    return (r[2] if name == "svd_vh" else r[1])[i][j]


STATS = {"nf": 0, "expand": 0, "ri": 0, "diff": 0}


def close(x, y, tol=1e-7):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if x != x or y != y:
        return x != x and y != y
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def equal(a, b, ranges=None, special=None, fixed=None, trials=24, tol=1e-7, why=None):
    """True / False / None (undecided because of unknown values)"""
    a, b = toE(a), toE(b)
    if a is b:
        STATS["nf"] += 1
        return True
    if a.top or b.top:
        return None
    if not is_bool(a) and not is_bool(b):
        d = expand(sub(a, b))
        if d is ZERO:
            STATS["expand"] += 1
            return True
    ok = 0
    for s in range(trials):
        env = Env(s + 1, ranges, fixed, special)
        x, y = env.ev(a), env.ev(b)
        if (isinstance(x, float) and not math.isfinite(x)) and (isinstance(y, float) and not math.isfinite(y)):
            continue
        if not close(x, y, tol):
            STATS["diff"] += 1
            if why is not None:
                why.append((s, x, y))
            return False
        ok += 1
    STATS["ri"] += 1
    return True if ok else None


def depends(e, pred, ranges=None, special=None, trials=6):
    """does the value really vary with some symbol whose name satisfies pred?  (None = undecided)"""
    e = toE(e)
    names = [s for s in syms(e) if pred(s)]
    if not names:
        return None if e.top else False
    if e.top:
        return None
    for s in range(trials):
        env = Env(s + 1, ranges, None, special)
        x = env.ev(e)
        for t in range(3):
            e2 = Env(s + 1, ranges, None, dict(special or {}))
            base = e2.symbol

            def symbol(name, idx, base=base, t=t, s=s):
                if pred(name):
                    sv, e2.seed = e2.seed, e2.seed + 7919 * (t + 1)
                    r = base(name, idx)
                    e2.seed = sv
                    return r
                return base(name, idx)
            e2.symbol = symbol
            y = e2.ev(e)
            if not close(x, y, 1e-12):
                return True
    return False


# ---------------------------------------------------------------- display
def show(e, lim=400):
    s = _show(e)
    return s if len(s) <= lim else s[:lim] + "..."


def _show(e):
    if e._s is None:
        e._s = __show(e)
    return e._s


def _cut(s):
    return s if len(s) < 3000 else s[:3000] + "..."


def __show(e):
    op, a = e.op, e.args
    if op == "c":
        return str(a[0])
    if op == "k":
        return a[0]
    if op == "b":
        return str(a[0])
    if op == "s":
        return a[0] + ("[%s]" % ",".join(map(_show, a[1:])) if len(a) > 1 else "")
    if op == "v":
        return a[0]
    if op == "top":
        return "TOP(%s)" % a[0]
    if op == "+":
        return _cut("(" + " + ".join((("%s*" % c if c != 1 else "") + _show(t)) if t is not ONE else str(c) for c, t in a) + ")")
    if op == "*":
        return _cut("*".join(_show(b) + ("^%s" % p if p != 1 else "") for b, p in a))
    if op == "f":
        return _cut("%s(%s)" % (a[0], ", ".join(_show(x) if isinstance(x, E) else repr(x) for x in a[1:])))
    if op == "S":
        return _cut("SUM[%s|%s](%s)" % (_show(a[0]), _show(a[1]), _show(a[2])))
    if op == "M":
        return _cut("%s[%s](%s)" % (a[0], _show(a[1]), ", ".join(_show(x) for x in a[2:])))
    return op
