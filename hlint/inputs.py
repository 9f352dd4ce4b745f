"""Generic inputs of the scenarios."""

import numpy as np

from . import oracle as O
from .absval import AArray, Dim, dlen, input_array

n, q, c, m = Dim("n"), Dim("q"), Dim("c"), Dim("m")

# trailing axes: none, one, two of any length; lengths which coincide with tensor sizes
TRAX = [(), (n,), (q, c), (1, 1)]
THREE = (q, c, m)
SIZED = [(3,), (6,), (3, 3), (1, c)]
SIZED_MORE = SIZED + [(1,), (2,), (9,), (6, 6), (3, 6), (2, 3), (c, 3), (6, q)]


def sized(chk):
    """Trailing axes of special lengths."""
    return SIZED_MORE if chk.tier == "thorough" else SIZED
MIXED = [((q, c), (1, 1)), ((1, 1), (q, c)), ((q, c), (1, c)), ((1, c), (q, 1)),
         ((n,), (1,)), ((1, n), (3, n))]
MIXED_MORE = MIXED + [((q, 1), (q, c)), ((6, 1), (1, 6)), ((1, 1, 1), (q, c, m))]


def tname(t):
    return "x".join(str(d) for d in t) if t else "none"


def bdims(*ts):
    out = []
    for ds in zip(*ts):
        d = next((x for x in ds if x != 1), 1)
        out.append(d)
    return tuple(out)


def sym(name, trax):
    """Symmetric tensor in reduced storage."""
    return input_array(name, (6,) + tuple(trax))


def vec(name, lead, trax, pos=()):
    return input_array(name, (lead,) + tuple(trax), pos=pos)


def tensor(name, trax):
    """General second-order tensor."""
    return input_array(name, (3, 3) + tuple(trax))


def symtensor(name, trax):
    """Symmetric tensor in full storage (equal variables at i,j and j,i)."""
    v = sym(name, trax)
    shape = (3, 3) + v.data.shape[1:]
    d = np.empty(shape, dtype=object)
    for i in range(3):
        for j in range(3):
            d[i, j] = v.data[O.IDX[i, j]]
    a = AArray(d, (3, 3) + tuple(trax), v.dtype)
    a.label = name
    return a


def mat(name, trax, major=False):
    """Fourth-order tensor with minor symmetries in reduced storage."""
    nm = None
    if major:
        def nm(idx):
            i, j = sorted(idx[:2])
            return "%s[%d,%d%s]" % (name, i, j, "".join(
                ",%d" % x for x in idx[2:] if any(k > 1 for k in tshape)))
        tshape = tuple(dlen(d) for d in trax)
    return input_array(name, (6, 6) + tuple(trax), names=nm)


def tensor4(name, trax):
    v = mat(name, trax)
    d = np.empty((3, 3, 3, 3) + v.data.shape[2:], dtype=object)
    for i in np.ndindex(3, 3, 3, 3):
        d[i] = v.data[O.IDX[i[0], i[1]], O.IDX[i[2], i[3]]]
    a = AArray(d, (3, 3, 3, 3) + tuple(trax), v.dtype)
    a.label = name
    return a


def at(a, lead, pt):
    """Leading components of an array at a trailing point of the broadcast shape."""
    ts = a.data.shape[lead:]
    pt = pt[len(pt) - len(ts):] if ts else ()
    idx = tuple(0 if s == 1 else p for s, p in zip(ts, pt))
    return a.data[(slice(None),) * lead + idx]
