"""Abstract values: index-functional arrays over value-flow expressions, objects, functions.

An array is a shape (dimensions are integers or symbolic sizes) plus a function giving the
value-flow expression of the element at any index.  Nothing is ever evaluated on data.
"""
from fractions import Fraction as Q
import itertools, math
from . import expr as X
from .expr import E


class Unknown(Exception):
    """the analysis does not model this construct (never a verdict)"""


class PyErr(Exception):
    """a Python exception that the analysed program definitely raises here"""

    def __init__(self, kind, msg="", loc=None, value=None):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg, self.loc, self.value = kind, msg, loc, value
        self.explicit = False        # written as a raise statement


class Cur:
    """current source location (file, line, function) – set by the interpreter"""
    loc = None


class Top:
    """value the analysis knows nothing about"""

    def __init__(self, reason=""):
        self.reason, self.loc = reason, Cur.loc

    def __repr__(self):
        return "Top(%s)" % self.reason


class Arr:
    __slots__ = ("shape", "fn", "dt", "py", "memo", "src", "note", "np")

    def __init__(self, shape, fn, dt="f", py=None, note=None):
        self.np = False
        self.shape = tuple(shape)
        self.fn = fn
        self.dt = dt
        self.py = py
        self.memo = {}
        self.src = Cur.loc
        self.note = note

    def at(self, *idx):
        if len(idx) != len(self.shape):
            raise Unknown("rank mismatch in element access")
        idx = tuple(X.toE(i) for i in idx)
        r = self.memo.get(idx)
        if r is None:
            if X.IEEE:
                old, X.HERE = X.HERE, self.src
                try:
                    r = X.toE(self.fn(*idx))
                finally:
                    X.HERE = old
            else:
                r = X.toE(self.fn(*idx))
            self.memo[idx] = r
        return r

    @property
    def e(self):
        return self.at(*[X.ZERO] * len(self.shape)) if all(d == 1 for d in self.shape) else self.at()

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        try:
            if not self.shape:
                return "Arr(%s)" % X.show(self.e, 120)
        except Exception:
            pass
        return "Arr%s" % (self.shape,)


def scalar(e, dt=None, py=None):
    e = X.toE(e)
    if dt is None:
        dt = "b" if X.is_bool(e) else ("i" if X.is_int(e) and py != "float" else "f")
    a = Arr((), lambda: e, dt, py)
    return a


def isnum(x):
    return isinstance(x, (int, float, Q)) and not isinstance(x, bool)


def native(x):
    """concrete python value of a constant scalar, else the value itself"""
    if isinstance(x, Arr) and x.shape == ():
        e = x.at()
        if e.op == "b":
            return e.args[0]
        if e.op == "c":
            q = e.args[0]
            if q.denominator == 1 and (x.dt == "i" or x.py == "int"):
                return int(q)
            return q
    return x


def dim_of(x):
    """dimension value (int or E) from an interpreter value"""
    x = native(x)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Q) and x.denominator == 1:
        return int(x)
    if isinstance(x, Arr) and x.shape == ():
        return x.at()
    if isinstance(x, E):
        if x.op == "c" and x.args[0].denominator == 1:
            return int(x.args[0])
        return x
    raise Unknown("dimension from %r" % (x,))


def dimv(d):
    """interpreter value of a dimension"""
    if isinstance(d, int):
        return d
    return scalar(d, "i", "int")


def dimE(d):
    return X.C(d) if isinstance(d, int) else d


def normdim(e):
    if isinstance(e, E) and e.op == "c" and e.args[0].denominator == 1:
        return int(e.args[0])
    return e


def same_dim(a, b):
    return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)


def size_of(shape):
    r = X.ONE
    for d in shape:
        r = X.mul(r, dimE(d))
    return normdim(r)


def sym_arr(name, shape, dt="f"):
    if dt == "i" and not name.startswith("#"):
        X.INTSYM.add(name)
    return Arr(shape, lambda *i: X.sym(name, *i), dt)


def const_arr(data, dt=None):
    """nested python lists of numbers"""
    flat = []

    def shp(x):
        if isinstance(x, (list, tuple)):
            s = shp(x[0]) if x else ()
            return (len(x),) + s
        return ()
    shape = shp(data)

    def fn(*idx):
        def go(x, k):
            if k == len(idx):
                return X.toE(x)
            return X.select(idx[k], [go(y, k + 1) for y in x])
        return go(data, 0)
    if dt is None:
        def anyf(x):
            if isinstance(x, (list, tuple)):
                return any(anyf(y) for y in x)
            return isinstance(x, (float, Q))
        dt = "f" if anyf(data) else "i"
    return Arr(shape, fn, dt)


def lift(x):
    """interpreter value -> Arr (or Top)"""
    if isinstance(x, Arr) or isinstance(x, Top):
        return x
    if isinstance(x, bool):
        return scalar(X.TRUE if x else X.FALSE, "b", "bool")
    if isinstance(x, int):
        return scalar(X.C(x), "i", "int")
    if isinstance(x, (float, Q)):
        return scalar(X.C(x), "f", "float")
    if isinstance(x, E):
        return scalar(x)
    if isinstance(x, PList):
        x = x.items
    if isinstance(x, (list, tuple)):
        return stack([lift(y) for y in x], 0) if x else Arr((0,), lambda i: X.top("empty"), "f")
    if x is None:
        raise PyErr("TypeError", "None used as an array", Cur.loc)
    if isinstance(x, Obj):
        raise PyErr("TypeError", "%s object used as an array" % x.cls.name, Cur.loc)
    if isinstance(x, str):
        raise PyErr("TypeError", "string used as an array", Cur.loc)
    return Top("not an array: %s" % type(x).__name__)


def promote(*arrs):
    o = "bif"
    return o[max(o.index(a.dt) for a in arrs)]


def mismatch(a, b, msg):
    """sizes that must be equal: silent when they are, an error of the program when they differ for general sizes"""
    v = X.equal(dimE(a), dimE(b))
    if v is True:
        return
    raise PyErr("TypeError" if v is False else "ShapeError", msg, Cur.loc)


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if same_dim(d, 1):
                continue
            if same_dim(cur, 1):
                cur = d
            elif same_dim(cur, d):
                pass
            elif isinstance(cur, int) and isinstance(d, int):
                raise PyErr("TypeError", "incompatible shapes for broadcasting: %s" % (shapes,), Cur.loc)
            else:
                mismatch(cur, d, "incompatible shapes for broadcasting: %s" % (shapes,))
        out.append(cur)
    return tuple(out)


def bidx(a, idx):
    """index into operand a for broadcast result index idx"""
    k = len(idx) - len(a.shape)
    return tuple(X.ZERO if same_dim(d, 1) else i for d, i in zip(a.shape, idx[k:]))


def ew(f, *vals, dt=None):
    for v in vals:
        if isinstance(v, Top):
            return v
    arrs = [lift(v) for v in vals]
    for v in arrs:
        if isinstance(v, Top):
            return v
    shape = broadcast_shapes(*[a.shape for a in arrs])
    py = None
    if not shape and all(a.py for a in arrs):
        py = "float" if any(a.py == "float" for a in arrs) else "int"
    d = dt or promote(*arrs)
    if d == "b":
        py = "bool" if py else None
    r = Arr(shape, lambda *idx: f(*[a.at(*bidx(a, idx)) for a in arrs]), d, py)
    if py is None and any(a.np for a in arrs) and all(a.np or a.py is not None for a in arrs):
        r.np = True
    return r


def broadcast_to(a, shape):
    a = lift(a)
    if isinstance(a, Top):
        return a
    s = broadcast_shapes(a.shape, shape)
    if len(s) != len(shape) or not all(same_dim(x, y) for x, y in zip(s, shape)):
        raise PyErr("ValueError", "cannot broadcast %s to %s" % (a.shape, shape), Cur.loc)
    return Arr(shape, lambda *idx: a.at(*bidx(a, idx)), a.dt)


def stack(arrs, axis=0):
    arrs = [lift(a) for a in arrs]
    for a in arrs:
        if isinstance(a, Top):
            return a
    s0 = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(s0) or not all(same_dim(x, y) for x, y in zip(a.shape, s0)):
            if all(isinstance(d, int) for d in a.shape + s0):
                raise PyErr("ValueError", "all input arrays must have the same shape: %s %s" % (s0, a.shape), Cur.loc)
            if len(a.shape) != len(s0):
                raise PyErr("ValueError", "all input arrays must have the same rank", Cur.loc)
            broadcast_shapes(a.shape, s0)
    n = len(s0) + 1
    axis = axis % n
    dt = promote(*arrs)

    def fn(*idx):
        r = idx[:axis] + idx[axis + 1:]
        if X.isc(idx[axis]):
            k = int(X.cval(idx[axis]))
            if -len(arrs) <= k < len(arrs):
                return arrs[k].at(*r)
        return X.select(idx[axis], [a.at(*r) for a in arrs])
    return Arr(s0[:axis] + (len(arrs),) + s0[axis:], fn, dt)


def concatenate(arrs, axis=0):
    arrs = [lift(a) for a in arrs]
    for a in arrs:
        if isinstance(a, Top):
            return a
    n = arrs[0].ndim
    if any(a.ndim != n for a in arrs) or n == 0:
        raise PyErr("ValueError", "concatenate: ranks differ", Cur.loc)
    axis = axis % n
    for a in arrs[1:]:
        for k, (x, y) in enumerate(zip(arrs[0].shape, a.shape)):
            if k != axis and not same_dim(x, y):
                text = "concatenate: sizes differ along axis %d: %s and %s" % (k, arrs[0].shape, a.shape)
                if isinstance(x, int) and isinstance(y, int):
                    raise PyErr("ValueError", text, Cur.loc)
                mismatch(x, y, text)
    total = X.ZERO
    offs = []
    for a in arrs:
        offs.append(total)
        total = X.add(total, dimE(a.shape[axis]))
    shape = list(arrs[0].shape)
    shape[axis] = normdim(total)

    def fn(*idx):
        i = idx[axis]
        if X.isc(i) and all(X.isc(o) for o in offs):
            for a, o in reversed(list(zip(arrs, offs))):
                if X.cval(i) >= X.cval(o):
                    return a.at(*idx[:axis], X.sub(i, o), *idx[axis + 1:])
        if all(isinstance(a.shape[axis], int) for a in arrs) and X.isc(total) and X.cval(total) <= 64:
            xs = []
            for a in arrs:
                for k in range(a.shape[axis]):
                    xs.append(a.at(*idx[:axis], X.C(k), *idx[axis + 1:]))
            return X.select(i, xs)
        r = arrs[-1].at(*idx[:axis], X.sub(i, offs[-1]), *idx[axis + 1:])
        for a, o, o2 in reversed(list(zip(arrs[:-1], offs[:-1], offs[1:]))):
            r = X.where(X.lt(i, o2), a.at(*idx[:axis], X.sub(i, o), *idx[axis + 1:]), r)
        return r
    return Arr(shape, fn, promote(*arrs))


def transpose(a, perm=None):
    if isinstance(a, Top):
        return a
    n = a.ndim
    perm = tuple(range(n))[::-1] if perm is None else tuple(p % n for p in perm)
    inv = [perm.index(k) for k in range(n)]
    return Arr(tuple(a.shape[p] for p in perm), lambda *idx: a.at(*[idx[inv[k]] for k in range(n)]), a.dt)


def reshape(a, shape):
    a = lift(a)
    if isinstance(a, Top):
        return a
    shape = [dim_of(s) if not isinstance(s, int) else s for s in shape]
    tot = dimE(size_of(a.shape))
    if any(isinstance(s, int) and s == -1 for s in shape):
        known = X.ONE
        for s in shape:
            if not (isinstance(s, int) and s == -1):
                known = X.mul(known, dimE(s))
        miss = X.floordiv(tot, known) if known is not X.ONE else tot
        if isinstance(normdim(tot), int) and isinstance(normdim(known), int) and X.cval(known) and X.cval(tot) % X.cval(known):
            raise PyErr("TypeError", "cannot reshape %s into %s" % (a.shape, shape), Cur.loc)
        shape = [normdim(miss) if isinstance(s, int) and s == -1 else s for s in shape]
    new = size_of(shape)
    if isinstance(new, int) and isinstance(normdim(tot), int) and new != normdim(tot):
        raise PyErr("TypeError", "cannot reshape %s into %s" % (a.shape, tuple(shape)), Cur.loc)
    if not (isinstance(new, int) and isinstance(normdim(tot), int)):
        mismatch(new, tot, "cannot reshape %s into %s" % (a.shape, tuple(shape)))
    # group matching dimensions from the left, then the right
    old, nw = list(a.shape), list(shape)
    l = 0
    while l < len(old) and l < len(nw) and same_dim(old[l], nw[l]):
        l += 1
    r = 0
    while r < len(old) - l and r < len(nw) - l and same_dim(old[-1 - r], nw[-1 - r]):
        r += 1
    mo, mn = old[l:len(old) - r], nw[l:len(nw) - r]

    def fn(*idx):
        mid = idx[l:len(nw) - r]
        flat = X.ZERO
        for d, i in zip(mn, mid):
            flat = X.add(X.mul(flat, dimE(d)), i)
        out = []
        rem = flat
        nz = [d for d in mo]
        for k in range(len(mo) - 1, -1, -1):
            d = dimE(mo[k])
            if all(same_dim(q, 1) for q in mo[:k]):
                out.append(rem)
                rem = X.ZERO
            elif same_dim(mo[k], 1):
                out.append(X.ZERO)
            else:
                out.append(X.mod(rem, d))
                rem = X.floordiv(rem, d)
        out.reverse()
        tail = idx[len(idx) - r:] if r else ()
        return a.at(*idx[:l], *out, *tail)
    return Arr(tuple(shape), fn, a.dt, None)


def squeeze(a, axis=None):
    if isinstance(a, Top):
        return a
    if axis is None:
        ax = [k for k, d in enumerate(a.shape) if same_dim(d, 1)]
    else:
        axs = axis if isinstance(axis, (tuple, list)) else (axis,)
        ax = []
        for k in axs:
            k = native(k)
            if not -a.ndim <= k < a.ndim:
                raise PyErr("ValueError", "squeeze axis out of range", Cur.loc)
            k %= a.ndim
            if not same_dim(a.shape[k], 1):
                if isinstance(a.shape[k], int):
                    raise PyErr("ValueError", "cannot squeeze axis of size %s" % a.shape[k], Cur.loc)
                raise Unknown("squeeze of symbolic axis")
            ax.append(k)
    keep = [k for k in range(a.ndim) if k not in ax]

    def fn(*idx):
        full = [X.ZERO] * a.ndim
        for k, i in zip(keep, idx):
            full[k] = i
        return a.at(*full)
    return Arr(tuple(a.shape[k] for k in keep), fn, a.dt)


def expand_dims(a, axis):
    n = a.ndim + 1
    axis %= n
    return Arr(a.shape[:axis] + (1,) + a.shape[axis:], lambda *idx: a.at(*idx[:axis], *idx[axis + 1:]), a.dt)


def reduce_sum(a, axis=None, keepdims=False):
    """sum over axes; symbolic axes give bounded-index sums"""
    if isinstance(a, Top):
        return a
    axes = norm_axes(axis, a.ndim)

    def fn(*idx):
        idx = list(idx)
        full = [None] * a.ndim
        it = iter(idx)
        for k in range(a.ndim):
            if k in axes:
                if keepdims:
                    next(it)
            else:
                full[k] = next(it)

        def go(k):
            if k == len(axes):
                return X.num(a.at(*full))
            ax = axes[k]
            d = a.shape[ax]
            if isinstance(d, int):
                out = []
                for j in range(d):
                    full[ax] = X.C(j)
                    out.append(go(k + 1))
                return X.add(*out) if out else X.ZERO
            if d in X.SPLIT:
                o, w = X.SPLIT[d]
                v, u = X.fresh_bv(o), X.fresh_bv(w)
                full[ax] = X.add(X.mul(v, w), u)
                return X.ssum(v, X.fn("range", o), X.ssum(u, X.fn("range", w), go(k + 1)))
            v = X.fresh_bv(d)
            full[ax] = v
            return X.ssum(v, X.fn("range", d), go(k + 1))
        return go(0)
    return Arr(red_shape(a.shape, axes, keepdims), fn, "f" if a.dt == "f" else "i")


def norm_axes(axis, n):
    axis = native(axis)
    if axis is None:
        return list(range(n))
    if isinstance(axis, PList):
        axis = axis.items
    if isinstance(axis, (tuple, list)):
        ax = [native(k) for k in axis]
    else:
        ax = [axis]
    for k in ax:
        if not isinstance(k, int):
            raise Unknown("symbolic axis")
        if not -n <= k < n:
            raise PyErr("ValueError", "axis %d out of bounds for rank %d" % (k, n), Cur.loc)
    return sorted(k % n for k in ax)


def red_shape(shape, axes, keepdims):
    if keepdims:
        return tuple(1 if k in axes else d for k, d in enumerate(shape))
    return tuple(d for k, d in enumerate(shape) if k not in axes)


def reduce_fold(a, comb, axis=None, keepdims=False, symkind=None, dt=None):
    if isinstance(a, Top):
        return a
    axes = norm_axes(axis, a.ndim)

    def fn(*idx):
        full = [None] * a.ndim
        it = iter(idx)
        for k in range(a.ndim):
            if k in axes:
                if keepdims:
                    next(it)
            else:
                full[k] = next(it)

        def go(k):
            if k == len(axes):
                return a.at(*full)
            ax = axes[k]
            d = a.shape[ax]
            if isinstance(d, int):
                out = []
                for j in range(d):
                    full[ax] = X.C(j)
                    out.append(go(k + 1))
                if not out:
                    return X.top("empty reduction")
                return comb(*out)
            v = X.fresh_bv()
            full[ax] = v
            body = go(k + 1)
            if symkind is None:
                return X.top("reduction over symbolic axis")
            if v not in X.bvs(body):
                return body
            return X.amax(symkind, v, body)
        return go(0)
    return Arr(red_shape(a.shape, axes, keepdims), fn, dt or a.dt)


# ---------------------------------------------------------------- indexing
class Slice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Plan:
    """parsed index of an array of a given shape"""

    def __init__(self, shape, index):
        if isinstance(index, PList):
            index = lift(index)
        items = list(index) if isinstance(index, tuple) else [index]
        items = [native(i) for i in items]
        items = [lift(i) if isinstance(i, (PList, list)) else i for i in items]
        ncons = 0
        for i in items:
            if i is None or i is Ellipsis:
                continue
            if isinstance(i, Arr) and i.dt == "b" and i.ndim > 0:
                ncons += i.ndim
            else:
                ncons += 1
        if ncons > len(shape):
            raise PyErr("IndexError", "too many indices: %d for rank %d" % (ncons, len(shape)), Cur.loc)
        if not any(i is Ellipsis for i in items):
            items = items + [Ellipsis]
        out = []
        for i in items:
            if i is Ellipsis:
                out += [Slice(None, None, None)] * (len(shape) - ncons)
            else:
                out.append(i)
        self.shape = shape
        self.dims = []          # per source dim: ('int',E) | ('sl',start,step,len,outpos) | ('adv',arr)
        self.out = []           # result dims: ('new',) | ('sl',k) | ('adv',j)
        self.mask = None
        k = 0
        advpos = []
        outs = []
        for i in out:
            if i is None:
                outs.append(("new", None))
                continue
            d = shape[k]
            if isinstance(i, bool):
                raise Unknown("boolean scalar index")
            if isinstance(i, int):
                if isinstance(d, int):
                    if not -d <= i < d:
                        raise PyErr("IndexError", "index %d out of bounds for size %d" % (i, d), Cur.loc)
                    i = i % d
                    self.dims.append(("int", X.C(i)))
                else:
                    self.dims.append(("int", X.C(i) if i >= 0 else X.add(d, X.C(i))))
            elif isinstance(i, Q):
                raise PyErr("TypeError", "float used as index", Cur.loc)
            elif isinstance(i, Slice):
                st = native(i.c)
                st = 1 if st is None else st
                a, b = native(i.a), native(i.b)
                if not isinstance(st, int) or st == 0:
                    raise Unknown("slice step")
                if a is None and b is None and st == 1:
                    self.dims.append(("sl", X.ZERO, 1, d, len(outs)))
                    outs.append(("d", d))
                elif isinstance(d, int) and all(x is None or isinstance(x, int) for x in (a, b)):
                    s0, s1, s2 = slice(a, b, st).indices(d)
                    n = len(range(s0, s1, s2))
                    self.dims.append(("sl", X.C(s0), s2, n, len(outs)))
                    outs.append(("d", n))
                else:
                    if st < 0:
                        raise Unknown("negative-step slice of symbolic axis")
                    D = dimE(d)

                    def pos(x, dflt):
                        if x is None:
                            return dflt
                        x = dim_of(x) if not isinstance(x, int) else x
                        if isinstance(x, int):
                            return X.C(x) if x >= 0 else X.add(D, X.C(x))
                        return x
                    s0, s1 = pos(a, X.ZERO), pos(b, D)
                    n = X.sub(s1, s0)
                    if st != 1:
                        n = X.floordiv(X.add(n, X.C(st - 1)), X.C(st))
                    n = normdim(n)
                    self.dims.append(("sl", s0, st, n, len(outs)))
                    outs.append(("d", n))
            elif isinstance(i, Arr):
                if i.dt == "b":
                    if i.ndim == 0:
                        raise Unknown("boolean scalar index")
                    if self.mask is not None or len([o for o in out if isinstance(o, Arr)]) > 1:
                        raise Unknown("several boolean masks")
                    self.mask = (i, k)
                    for _ in range(i.ndim):
                        self.dims.append(("mask", i))
                        k += 1
                    outs.append(("mask", i))
                    continue
                if i.dt == "f" and i.py == "float":
                    raise PyErr("TypeError", "float used as index", Cur.loc)
                if i.ndim == 0:
                    e = i.at()
                    if X.isc(e) and isinstance(d, int):
                        e = X.C(int(X.cval(e)) % d) if -d <= X.cval(e) < d else X.C(max(0, min(d - 1, int(X.cval(e)))))
                    self.dims.append(("int", e))
                else:
                    if ("adv", None) not in outs:
                        outs.append(("adv", None))
                    self.dims.append(("adv", i))
                    advpos.append(k)
            elif isinstance(i, Top):
                raise Unknown("index unknown: %s" % i.reason)
            else:
                raise PyErr("TypeError", "unsupported index %r" % (i,), Cur.loc)
            k += 1
        self.advs = [d[1] for d in self.dims if d[0] == "adv"]
        self.advshape = broadcast_shapes(*[a.shape for a in self.advs]) if self.advs else ()
        # non-contiguous advanced indices go first
        if advpos and advpos != list(range(advpos[0], advpos[0] + len(advpos))):
            outs = [("adv", None)] + [o for o in outs if o[0] != "adv"]
        self.res = []
        self.pos = []           # for each outs entry: first result position
        for o in outs:
            self.pos.append(len(self.res))
            if o[0] == "new":
                self.res.append(1)
            elif o[0] == "d":
                self.res.append(o[1])
            elif o[0] == "adv":
                self.advout = len(self.res)
                self.res += list(self.advshape)
            elif o[0] == "mask":
                self.maskout = len(self.res)
                self.res.append(None)
        self.outs = outs
        # recompute slice output positions
        m = 0
        order = [j for j, o in enumerate(outs) if o[0] == "d"]
        nd = []
        it = iter(order)
        for d in self.dims:
            if d[0] == "sl":
                j = next(it)
                nd.append(("sl", d[1], d[2], d[3], self.pos[j]))
            else:
                nd.append(d)
        self.dims = nd

    def src(self, idx):
        """source index for result index"""
        out = []
        if self.advs:
            ai = idx[self.advout:self.advout + len(self.advshape)]
        for d, dim in zip(self.dims, self.shape):
            if d[0] == "int":
                out.append(d[1])
            elif d[0] == "sl":
                i = idx[d[4]]
                out.append(X.add(d[1], X.mul(X.C(d[2]), i)) if not (d[1] is X.ZERO and d[2] == 1) else i)
            elif d[0] == "adv":
                e = d[1].at(*bidx(d[1], ai))
                if X.isc(e) and isinstance(dim, int) and X.cval(e) < 0:
                    e = X.add(e, X.C(dim))
                out.append(e)
        return out


def nonzero(m):
    """positions where a one-dimensional mask holds"""
    n = X.sym("#masked%d" % next(_mk))
    return Arr((n,), lambda i: X.fn("maskpos", n, i), "i", note=("nonzero", m))


def getitem(a, index):
    first = index[0] if isinstance(index, tuple) and len(index) == 1 else index
    if isinstance(first, Arr) and isinstance(first.note, tuple) and first.note[0] == "nonzero":
        return getitem(a, first.note[1])
    p = Plan(a.shape, index)
    if p.mask is not None:
        m, k = p.mask
        if m.ndim != 1:
            raise Unknown("multi-dimensional mask")
        n = X.sym("#masked%d" % next(_mk))
        res = [n if d is None else d for d in p.res]

        def fnm(*idx):
            mi = idx[p.maskout]
            out = []
            for d in p.dims:
                if d[0] == "mask":
                    out.append(X.fn("maskpos", n, mi))
                elif d[0] == "int":
                    out.append(d[1])
                elif d[0] == "sl":
                    out.append(X.add(d[1], X.mul(X.C(d[2]), idx[d[4]])))
            return a.at(*out)
        return Arr(res, fnm, a.dt, note=("masked", a, m, k))
    if not p.dims and not p.res:
        return a
    return Arr(tuple(p.res), lambda *idx: a.at(*p.src(idx)), a.dt)


_mk = itertools.count()


def at_update(a, index, val, mode, opts=None):
    """a.at[index].mode(val)"""
    if isinstance(a, Top):
        return a
    p = Plan(a.shape, index)
    if p.mask is not None:
        m, k = p.mask
        if m.ndim > a.ndim - k or mode not in ("set", "add", "multiply", "mul"):
            raise Unknown("masked update")
        v = lift(val)
        if v.ndim != 0:
            raise Unknown("masked update with array value")

        def fnk(*idx):
            c = m.at(*idx[k:k + m.ndim])
            return X.where(c, upd(a.at(*idx), v.at()), a.at(*idx))

        def upd(o, w):
            return w if mode == "set" else X.add(o, w) if mode == "add" else X.mul(o, w)
        return Arr(a.shape, fnk, a.dt)
    v = lift(val)
    if isinstance(v, Top):
        return v
    # value broadcasts to the result shape of the index
    vb = broadcast_to(v, tuple(p.res)) if tuple(v.shape) != tuple(p.res) else v
    dt = a.dt if a.dt != "i" or v.dt != "f" else "i"

    def comb(o, w):
        if mode == "set":
            return w
        if mode == "add":
            return X.add(o, w)
        if mode in ("multiply", "mul"):
            return X.mul(o, w)
        if mode == "divide":
            return X.div(o, w)
        if mode == "subtract":
            return X.sub(o, w)
        if mode == "max":
            return X.max_(o, w)
        if mode == "min":
            return X.min_(o, w)
        if mode == "power":
            return X.power(o, w)
        raise Unknown("at[].%s" % mode)

    nres = len(p.res)

    def conds(idx, ai):
        """(condition, result index) for target idx with advanced position ai"""
        cs = []
        ridx = [X.ZERO] * nres
        if p.advs:
            for j, i in enumerate(ai):
                ridx[p.advout + j] = i
        for d, i, dim in zip(p.dims, idx, a.shape):
            if d[0] == "int":
                cs.append(X.eq(i, d[1]))
            elif d[0] == "sl":
                if d[1] is X.ZERO and d[2] == 1 and same_dim(d[3], dim):
                    ridx[d[4]] = i
                    continue
                o = X.sub(i, d[1])
                if abs(d[2]) != 1:
                    cs.append(X.eq(X.mod(o, X.C(d[2])), X.ZERO))
                    o = X.floordiv(o, X.C(d[2]))
                elif d[2] == -1:
                    o = X.neg(o)
                cs.append(X.ge(o, X.ZERO))
                cs.append(X.lt(o, dimE(d[3])))
                ridx[d[4]] = o
            elif d[0] == "adv":
                e = d[1].at(*bidx(d[1], ai))
                if X.isc(e) and isinstance(dim, int) and X.cval(e) < 0:
                    e = X.add(e, X.C(dim))
                cs.append((e, i))
        return cs, ridx

    def fn(*idx):
        old = a.at(*idx)
        if not p.advs:
            cs, ridx = conds(idx, ())
            c = X.and_(*cs)
            if c is X.FALSE:
                return old
            if c is X.TRUE:
                return comb(old, vb.at(*ridx))
            return X.where(c, comb(old, vb.at(*ridx)), old)
        n = size_of(p.advshape)
        if isinstance(n, int) and n <= 64:
            r = old
            for ai in itertools.product(*[range(d) for d in p.advshape]):
                cs, ridx = conds(idx, tuple(X.C(j) for j in ai))
                c = X.and_(*[X.eq(q[0], q[1]) if isinstance(q, tuple) else q for q in cs])
                if c is X.FALSE:
                    continue
                r = X.where(c, comb(r, vb.at(*ridx)), r)
            return r
        vs, ai, rng = [], [], {}
        for d in p.advshape:
            if isinstance(d, int) and d == 1:
                ai.append(X.ZERO)
            elif not isinstance(d, int) and d in X.SPLIT:
                o, w = X.SPLIT[d]
                v1, v2 = X.fresh_bv(o), X.fresh_bv(w)
                vs += [v1, v2]
                rng[v1], rng[v2] = o, w
                ai.append(X.add(X.mul(v1, w), v2))
            else:
                v1 = X.fresh_bv(d)
                vs.append(v1)
                rng[v1] = dimE(d)
                ai.append(v1)
        cs, ridx = conds(idx, tuple(ai))
        # identity keys: key(v) == v fixes the summation variable to the target position
        m = {}
        hits, rest = [], []
        for q in cs:
            if not isinstance(q, tuple):
                rest.append(q)
            elif q[0] in vs and q[0] not in m:
                m[q[0]] = q[1]
            else:
                hits.append(q)
        free = [v_ for v_ in vs if v_ not in m]
        w = vb.at(*ridx)
        if m:
            w = X.subst(w, m)
            hits = [(X.subst(a_, m), X.subst(b_, m)) for a_, b_ in hits]
            rest = [X.subst(a_, m) for a_ in rest]
        if not free and not hits:
            return X.where(X.and_(*rest), comb(old, w), old)
        if mode in ("add", "subtract"):
            hg = X.and_(*rest, *[X.fn("hit", q[0], q[1]) for q in hits])
            body = w
            # the innermost variable carries the hit condition, the others only their range
            for k_, v_ in enumerate(free):
                g = X.fn("range", rng[v_])
                if k_ == 0 and hg is not X.TRUE:
                    g = hg
                body = X.ssum(v_, g, body)
            return X.add(old, body) if mode == "add" else X.sub(old, body)
        return X.top("scatter-%s with unknown collisions" % mode)
    r = Arr(a.shape, fn, dt)
    r.note = ("scatter", mode)
    return r


# ---------------------------------------------------------------- einsum / matmul
def einsum(spec, *ops):
    ops = [lift(o) for o in ops]
    for o in ops:
        if isinstance(o, Top):
            return o
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins.replace(",", "").replace("...", "")]
        out = ("..." if "..." in ins else "") + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise PyErr("ValueError", "einsum operand count", Cur.loc)
    # expand ellipsis
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            nell = max(nell, o.ndim - (len(s) - 3))
    full = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - (len(s) - 3)
            lab = ["~%d" % j for j in range(nell - k, nell)]
            i = s.index("...")
            s2 = list(s[:i]) + lab + list(s[i + 3:])
        else:
            s2 = list(s)
        if len(s2) != o.ndim:
            raise PyErr("ValueError", "einsum '%s' does not fit operand of rank %d" % (spec, o.ndim), Cur.loc)
        full.append(s2)
    if "..." in out:
        i = out.index("...")
        outl = list(out[:i]) + ["~%d" % j for j in range(nell)] + list(out[i + 3:])
    else:
        outl = list(out)
    dims = {}
    for s, o in zip(full, ops):
        for c, d in zip(s, o.shape):
            if c in dims and not same_dim(dims[c], d):
                if same_dim(dims[c], 1):
                    dims[c] = d
                elif same_dim(d, 1):
                    pass
                elif isinstance(dims[c], int) and isinstance(d, int):
                    raise PyErr("ValueError", "einsum size mismatch for %s in %s" % (c, spec), Cur.loc)
                else:
                    mismatch(dims[c], d, "einsum size mismatch for %s in %s: %s and %s" % (c, spec, dims[c], d))
            else:
                dims.setdefault(c, d)
    con = [c for c in dims if c not in outl]

    def fn(*idx):
        env = dict(zip(outl, idx))

        def go(k):
            if k == len(con):
                r = X.ONE
                for s, o in zip(full, ops):
                    r = X.mul(r, o.at(*[X.ZERO if same_dim(d, 1) else env[c] for c, d in zip(s, o.shape)]))
                    if r is X.ZERO:
                        return r
                return r
            c = con[k]
            d = dims[c]
            if isinstance(d, int):
                out = []
                for j in range(d):
                    env[c] = X.C(j)
                    out.append(go(k + 1))
                return X.add(*out)
            v = X.fresh_bv(d)
            env[c] = v
            return X.ssum(v, X.fn("range", d), go(k + 1))
        return go(0)
    return Arr(tuple(dims[c] for c in outl), fn, promote(*ops))


def matmul(a, b):
    a, b = lift(a), lift(b)
    for o in (a, b):
        if isinstance(o, Top):
            return o
    if a.ndim == 0 or b.ndim == 0:
        raise PyErr("ValueError", "matmul of a scalar", Cur.loc)
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 1:
        return einsum("i,...ij->...j", a, b)
    if b.ndim == 1:
        return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)


def det_e(m, n):
    if n == 1:
        return m(0, 0)
    if n == 2:
        return X.sub(X.mul(m(0, 0), m(1, 1)), X.mul(m(0, 1), m(1, 0)))
    r = []
    for j in range(n):
        cols = [k for k in range(n) if k != j]
        sub = det_e(lambda a, b, cols=cols: m(a + 1, cols[b]), n - 1)
        r.append(X.mul(X.C((-1) ** j), m(0, j), sub))
    return X.add(*r)


def det(a):
    if isinstance(a, Top):
        return a
    n = a.shape[-1]
    if not isinstance(n, int) or n > 4:
        raise Unknown("det of symbolic size")
    return Arr(a.shape[:-2], lambda *idx: det_e(lambda i, j: a.at(*idx, i, j), n), "f")


def inv(a):
    if isinstance(a, Top):
        return a
    n = a.shape[-1]
    if not isinstance(n, int) or n > 3:
        raise Unknown("inverse of large matrix")

    def fn(*idx):
        b, i, j = idx[:-2], idx[-2], idx[-1]
        m = lambda r, c: a.at(*b, r, c)
        d = det_e(m, n)
        if not (X.isc(i) and X.isc(j)):
            return X.select(i, [X.select(j, [cof(m, r, c, d) for c in range(n)]) for r in range(n)])
        return cof(m, int(X.cval(i)), int(X.cval(j)), d)

    def cof(m, i, j, d):
        if n == 1:
            return X.div(X.ONE, d)
        rows = [r for r in range(n) if r != j]
        cols = [c for c in range(n) if c != i]
        return X.div(X.mul(X.C((-1) ** (i + j)), det_e(lambda p, q: m(rows[p], cols[q]), n - 1)), d)
    return Arr(a.shape, fn, "f")


# ---------------------------------------------------------------- non-array values
class PList:
    """python list (identity matters)"""
    __slots__ = ("items", "cls")

    def __init__(self, items=(), cls=None):
        self.items = list(items)
        self.cls = cls

    def __repr__(self):
        return "PList(%r)" % (self.items,)


class PIter(PList):
    """iterator: yields its items once"""
    __slots__ = ()


class NT(tuple):
    """instance of a named tuple class"""

    def __new__(cls, items, nt):
        o = tuple.__new__(cls, items)
        o.nt = nt
        return o


def retuple(old, items):
    return NT(items, old.nt) if isinstance(old, NT) else tuple(items)


class PDict:
    __slots__ = ("d",)

    def __init__(self, d=()):
        self.d = dict(d)

    def __repr__(self):
        return "PDict(%r)" % (self.d,)


class PSet:
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = []
        for i in items:
            if i not in self.items:
                self.items.append(i)


class Obj:
    """instance of an analysed class"""
    _n = itertools.count()

    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.frozen = False
        self.uid = next(Obj._n)
        self.src = Cur.loc

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, ",".join(self.f))


class Cls:
    members = None      # of an enumeration

    def __init__(self, name, bases, ns, mod, node, ann):
        self.name, self.bases, self.ns, self.mod, self.node, self.ann = name, bases, ns, mod, node, ann

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def ext_bases(self):
        r = set()
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext):
                    r.add(b.name)
        return r

    def is_module(self):
        return any(n.endswith("equinox.Module") or n == "equinox.Module" for n in self.ext_bases())

    def issub(self, o):
        return o in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class Func:
    def __init__(self, node, mod, closure, qual, defaults, kwdefaults, cls=None):
        self.node, self.mod, self.closure, self.qual = node, mod, closure, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    @property
    def name(self):
        return self.qual.split(".")[-1]

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class Prop:
    def __init__(self, fget):
        self.fget = fget


class ClassM:
    def __init__(self, func):
        self.func = func


class StaticM:
    def __init__(self, func):
        self.func = func


class Ext:
    """external function/module/class known by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExtObj(Ext):
    """object made by an external library: its construction, attributes and items are recorded"""

    def __init__(self, name, args=(), kw=None, parent=None):
        Ext.__init__(self, name)
        self.args, self.kw, self.parent, self.attrs, self.items, self.set = tuple(args), dict(kw or {}), parent, {}, [], {}

    def __eq__(self, o):
        return o is self

    def __hash__(self):
        return id(self)


class Nat:
    """native python callable: f(interp, args, kwargs)"""

    def __init__(self, f, name=""):
        self.f, self.name = f, name

    def __repr__(self):
        return "<native %s>" % self.name


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class JT:
    """jaxtyping annotation value"""

    def __init__(self, kind, spec):
        self.kind, self.spec = kind, spec


class Union_:
    def __init__(self, alts):
        self.alts = alts


class Path:
    """proxy recording the field path selected by an eqx.tree_at lambda"""

    def __init__(self, base, steps=()):
        self.base, self.steps = base, steps


class AtRef:
    def __init__(self, arr, index=None):
        self.arr, self.index = arr, index


class FieldSpec:
    def __init__(self, static=False, default=None, has_default=False, converter=None, factory=None):
        self.static, self.default, self.has_default, self.converter, self.factory = static, default, has_default, converter, factory


class Module_:
    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.ns = {}
        self.errors = []

    def __repr__(self):
        return "<module %s>" % self.name


def is_array_leaf(x):
    return isinstance(x, Arr) and x.py is None


def tree_map(f, x):
    """map f over array/number leaves, rebuilding containers"""
    if isinstance(x, NT):
        return NT([tree_map(f, y) for y in x], x.nt)
    if isinstance(x, (tuple, list)):
        return type(x)(tree_map(f, y) for y in x)
    if isinstance(x, PList):
        return PList([tree_map(f, y) for y in x.items], x.cls)
    if isinstance(x, PDict):
        return PDict({k: tree_map(f, v) for k, v in x.d.items()})
    if isinstance(x, Obj):
        o = Obj(x.cls)
        st = static_fields(x.cls)
        for k, v in x.f.items():
            o.f[k] = v if k in st else tree_map(f, v)
        o.frozen = x.frozen
        return o
    if isinstance(x, Arr) or isnum(x) or isinstance(x, (bool, Top)):
        return f(x)
    return x


def static_fields(cls):
    r = cls.__dict__.get("_static")
    if r is None:
        r = set()
        for c in cls.mro():
            for k, v in c.ann.items():
                sp = c.ns.get(k)
                if isinstance(sp, FieldSpec) and sp.static:
                    r.add(k)
        cls.__dict__["_static"] = r
    return r


def tree_merge(f, xs):
    """combine several pytrees of equal structure leaf by leaf"""
    a = xs[0]
    if all(x is a for x in xs):
        return a
    if isinstance(a, tuple) and all(isinstance(x, tuple) and len(x) == len(a) for x in xs):
        return retuple(a, [tree_merge(f, [x[k] for x in xs]) for k in range(len(a))])
    if isinstance(a, PList) and all(isinstance(x, PList) and len(x.items) == len(a.items) for x in xs):
        return PList([tree_merge(f, [x.items[k] for x in xs]) for k in range(len(a.items))], a.cls)
    if isinstance(a, PDict) and all(isinstance(x, PDict) and x.d.keys() == a.d.keys() for x in xs):
        return PDict({k: tree_merge(f, [x.d[k] for x in xs]) for k in a.d})
    if isinstance(a, Obj) and all(isinstance(x, Obj) and x.cls is a.cls and x.f.keys() == a.f.keys() for x in xs):
        o = Obj(a.cls)
        for k in a.f:
            o.f[k] = tree_merge(f, [x.f[k] for x in xs])
        o.frozen = a.frozen
        return o
    if all(isinstance(x, (Arr, int, float, Q, bool, Top, E)) for x in xs):
        return f(*xs)
    try:
        if all(x == a for x in xs):
            return a
    except Exception:
        pass
    return Top("branches of different structure")
