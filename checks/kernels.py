"""The real shape-function mapping on symbolic particles, and the kernel functions alone."""
from .common import *

NAMES = {"linear": "vmap_linear_shapefunction", "quadratic": "vmap_quadratic_shapefunction", "cubic": "vmap_cubic_shapefunction"}
WINDOW = {"linear": 2, "quadratic": 3, "cubic": 4}
SUPPORT = {"linear": (1.0,), "quadratic": (1.5,), "cubic": (2.0,)}
BREAKS = {"linear": (-1, 0, 1), "quadratic": (-1.5, -0.5, 0.5, 1.5), "cubic": (-2, -1, 0, 1, 2)}
Q = X.sym("#q")
# interior: the particle sits several cells away from every face of the grid
KR = {"#q": (2, 6), "x": (0.0, 1.0), "o": (-1.0, 1.0), "ih": (0.6, 2.5), "#G*": (24, 30), "#N0": (8, 9)}


class Map:
    """compute() for symbolic positions; x[q,k] = origin + (cell + fraction)/ih"""

    def __init__(self, R, kern, dim, cell=8, frac=None):
        S = self.S = R.use(Scene(dim))
        self.kern, self.dim = kern, dim
        self.sm = S.new("ShapeFunctionMapping", kern, dim)
        n = size("N0")
        self.ih = pyfloat("ih")
        ih = X.sym("ih")
        self.frac = lambda q, k: X.sym("x", q, k)

        def pos(q, k):
            # cell + fraction in cell units
            return X.add(X.sym("o", k), X.div(X.add(X.C(cell), X.sym("x", q, k)), ih))
        self.pos = pos
        self.origin = sym_arr("o", (dim,))
        gs = tuple(scalar(X.sym("#G%d" % k), "i", "int") for k in range(dim))
        self.gs = [X.sym("#G%d" % k) for k in range(dim)]
        self.cache = S.call(self.sm, "compute", Arr((n, dim), lambda q, k: pos(q, k), "f"), self.origin, gs, self.ih)
        self.W = native_int(S.get(self.sm, "window_size"))
        self.N = lift(self.cache.f["shape_vals"])
        self.dN = lift(self.cache.f["shape_grads"])
        self.rel = lift(self.cache.f["rel_dist"])
        self.node = lift(self.cache.f["node_hashes"])

    def ix(self, s):
        return X.add(X.mul(Q, X.C(self.W)), X.C(s))

    def n(self, s):
        return self.N.at(self.ix(s))

    def g(self, s, k):
        return self.dN.at(self.ix(s), X.C(k))

    def r(self, s, k):
        return self.rel.at(self.ix(s), X.C(k))


def native_int(x):
    return int(X.cval(X.toE(lift(x).at() if isinstance(x, Arr) else x)))


def alone(S, kern, dim, dist, ih=None, node_type=0):
    """kernel function on one relative distance"""
    r = S.new(S.cls(NAMES[kern]), dist, ih or pyfloat("ih"), dim, (0, 3 - dim), intr_node_type=node_type)
    return S.it.iterate(r, 2)
