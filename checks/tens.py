"""3x3 reference tensor algebra over value-graph expressions."""
from sa import expr as X

R3 = range(3)


class T:
    """3x3 matrix of expressions"""

    def __init__(self, f):
        self.m = [[X.toE(f(i, j)) for j in R3] for i in R3]

    def __call__(self, i, j):
        return self.m[i][j]

    def at(self, i, j):
        return self.m[int(X.cval(X.toE(i)))][int(X.cval(X.toE(j)))]

    def __add__(self, o):
        return T(lambda i, j: X.add(self(i, j), o(i, j)))

    def __sub__(self, o):
        return T(lambda i, j: X.sub(self(i, j), o(i, j)))

    def __mul__(self, s):
        return T(lambda i, j: X.mul(s, self(i, j)))

    def __matmul__(self, o):
        return T(lambda i, j: X.add(*[X.mul(self(i, k), o(k, j)) for k in R3]))

    def t(self):
        return T(lambda i, j: self(j, i))

    def tr(self):
        return X.add(*[self(i, i) for i in R3])

    def dd(self, o):
        return X.add(*[X.mul(self(i, j), o(i, j)) for i in R3 for j in R3])

    def sym(self):
        return (self + self.t()) * X.C(0.5)

    def skew(self):
        return (self - self.t()) * X.C(0.5)

    def dev(self):
        m = X.div(self.tr(), X.C(3))
        return T(lambda i, j: X.sub(self(i, j), m) if i == j else self(i, j))

    def where(self, c, o):
        return T(lambda i, j: X.where(c, self(i, j), o(i, j)))


def stack(arr, q):
    """row q of an (n,3,3) array"""
    return T(lambda i, j: arr.at(q, X.C(i), X.C(j)))


EYE = T(lambda i, j: X.ONE if i == j else X.ZERO)
NUL = T(lambda i, j: X.ZERO)


def det(A):
    return X.add(*[X.mul(X.C(s), A(0, a), A(1, b), A(2, c)) for s, a, b, c in
                   ((1, 0, 1, 2), (1, 1, 2, 0), (1, 2, 0, 1), (-1, 2, 1, 0), (-1, 1, 0, 2), (-1, 0, 2, 1))])


def rot(A, W, dt):
    """first order rotation of A with spin W"""
    return A + (W @ A - A @ W) * dt


def val(x):
    return X.toE(x)
