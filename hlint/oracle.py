"""Independent definitions the analysed code is compared with.

Everything here works on full 3x3 index notation (object arrays of normal forms) and on
formal differentiation of the defining expressions; nothing is taken from the analysed
package except the documented component order of the reduced storage."""

import itertools
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Poly, topoly

ORDER = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
IDX = np.empty((3, 3), dtype=int)
for _k, (_i, _j) in enumerate(ORDER):
    IDX[_i, _j] = IDX[_j, _i] = _k
R3 = range(3)


def obj(shape):
    a = np.empty(shape, dtype=object)
    a.fill(alg.ZERO)
    return a


def full2(v):
    T = obj((3, 3))
    for i in R3:
        for j in R3:
            T[i, j] = topoly(v[IDX[i, j]])
    return T


def voigt2(T):
    v = obj((6,))
    for k, (i, j) in enumerate(ORDER):
        v[k] = T[i, j]
    return v


def full4(M):
    T = obj((3, 3, 3, 3))
    for i, j, k, l in itertools.product(R3, repeat=4):
        T[i, j, k, l] = topoly(M[IDX[i, j], IDX[k, l]])
    return T


def voigt4(T):
    M = obj((6, 6))
    for a, (i, j) in enumerate(ORDER):
        for b, (k, l) in enumerate(ORDER):
            M[a, b] = T[i, j, k, l]
    return M


def delta(i, j):
    return alg.ONE if i == j else alg.ZERO


def det3(T):
    s = alg.ZERO
    for p in itertools.permutations(R3):
        sign = 1
        for a in R3:
            for b in range(a):
                if p[b] > p[a]:
                    sign = -sign
        s = s + T[0, p[0]] * T[1, p[1]] * T[2, p[2]] * sign
    return s


def adj3(T):
    """Adjugate: T . adj(T) = det(T) 1."""
    A = obj((3, 3))
    for i in R3:
        for j in R3:
            r = [x for x in R3 if x != j]
            c = [x for x in R3 if x != i]
            m = T[r[0], c[0]] * T[r[1], c[1]] - T[r[0], c[1]] * T[r[1], c[0]]
            A[i, j] = m if (i + j) % 2 == 0 else -m
    return A


def inv3(T, det=None):
    d = det3(T) if det is None else det
    A = adj3(T)
    q = d ** -1
    return np.array([[A[i, j] * q for j in R3] for i in R3], dtype=object)


def dot2(A, B):
    C = obj((3, 3))
    for i in R3:
        for j in R3:
            s = alg.ZERO
            for k in R3:
                s = s + A[i, k] * B[k, j]
            C[i, j] = s
    return C


def ddot22(A, B):
    s = alg.ZERO
    for i in R3:
        for j in R3:
            s = s + A[i, j] * B[i, j]
    return s


def tr(A):
    return A[0, 0] + A[1, 1] + A[2, 2]


def cauchy_green(F):
    C = obj((3, 3))
    for i in R3:
        for j in R3:
            s = alg.ZERO
            for k in R3:
                s = s + F[k, i] * F[k, j]
            C[i, j] = s
    return C


def third():
    return Fraction(1, 3)


def sym_d(C, a):
    """Weight of a Voigt component in a contraction."""
    return 1 if a < 3 else 2


def d_voigt(p, Cvars, rules=None):
    """Derivative of a scalar w.r.t. a symmetric tensor given by its six components, as
    the (symmetric) tensor components: shear terms take half the partial derivative."""
    out = obj((6,))
    for a in range(6):
        d = alg.diff(p, Cvars[a], None if rules is None else rules[a])
        out[a] = d if a < 3 else d * Fraction(1, 2)
    return out


assert Poly
