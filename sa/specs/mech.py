"""Textbook rigid-body mechanics over exact rational functions."""
import ring
from ring import var, const, sin, cos

Z = const(0)
ONE = const(1)


def mat(f, n=3):
    return [[f(i, j) for j in range(n)] for i in range(n)]


def mul(a, b):
    return [[sum((x * y for x, y in zip(r, c)), Z) for c in zip(*b)] for r in a]


def T(a):
    return [list(r) for r in zip(*a)]


def add(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def scale(k, a):
    return [[k * x for x in r] for r in a]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), Z)


def point_inertia(m, d):
    """m (d.d I - d d^T)."""
    dd = dot(d, d)
    return mat(lambda i, j: m * ((dd if i == j else Z) - d[i] * d[j]))


def shift(I, m, d):
    return add(I, point_inertia(m, d))


def union(bodies):
    """(mass, mass centre, inertia about it) of rigid bodies (m, r, I)."""
    m = sum((b[0] for b in bodies), Z)
    c = [sum((b[0] * b[1][k] for b in bodies), Z) / m for k in range(3)]
    I = mat(lambda i, j: Z)
    for b in bodies:
        I = add(I, shift(b[2], b[0], [b[1][k] - c[k] for k in range(3)]))
    return m, c, I


def roty(a):
    """Coordinates of a fixed vector in axes turned by +a about y: C v."""
    return [[cos(a), Z, -sin(a)], [Z, ONE, Z], [sin(a), Z, cos(a)]]


def congr(C, I):
    return mul(C, mul(I, T(C)))


def planar(Ixx, Ixz, Iyy, Izz):
    return [[Ixx, Z, Ixz], [Z, Iyy, Z], [Ixz, Z, Izz]]
