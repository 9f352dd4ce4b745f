"""Transfer functions for numpy arrays (abstract)."""

import inspect
import json
import os
from fractions import Fraction

import numpy as np

from . import alg
from .absval import (AArray, AbsRaise, ATOM_DIMS, Cond, Dim, HostFunc, HostObj, Top, TypeTok,
                     Unsupported, base_dims, c_all, c_any, c_eq0, c_lt0, c_not, dlen, dpoly,
                     prod_dim, seg_dim, to_dim)
from .alg import Poly, topoly

CUR = None  # the interpreter of the running analysis


# -- dtypes ---------------------------------------------------------------------------------


class Narrow(str):
    """Floating-point kind with fewer digits: compares equal to the kind 'f', values are
    rounded when they are stored."""

    def __new__(cls, name, fmt):
        self = str.__new__(cls, "f")
        self.name, self.fmt = name, fmt
        return self


SINGLE, HALF = Narrow("float32", "f"), Narrow("float16", "e")


def same_kind(a, b):
    return a == b and getattr(a, "name", None) == getattr(b, "name", None)


def rounded(x, kind):
    """A number as it is stored with the digits of the kind."""
    import struct
    x = topoly(x)
    c = x.as_const()
    if c is None:
        if any(alg.ATOMS[i].kind == "f" and alg.ATOMS[i].payload[0] == kind.name
               for i in x.atoms()) and x.is_var() is not None:
            return x
        return alg.app(kind.name, x)
    try:
        v = struct.unpack(kind.fmt, struct.pack(kind.fmt, float(c)))[0]
    except OverflowError:
        return alg.app("const", "inf" if c > 0 else "-inf", pos=c > 0)
    # the decimal text of an inexact constant stands for its value
    return x if float(c) == v else topoly(Fraction(v))


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, DType) and same_kind(o.kind, self.kind)

    def __hash__(self):
        return hash(("dtype", self.kind))

    def __repr__(self):
        if isinstance(self.kind, Narrow):
            return self.kind.name
        return {"f": "float64", "i": "int64", "b": "bool", "c": "complex128",
                "O": "object"}[self.kind]


def dtype_kind(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.kind
    if isinstance(d, TypeTok):
        n = d.name
        if n in ("float", "float64", "double", "longdouble", "float_"):
            return "f"
        if n in ("float32", "single"):
            return SINGLE
        if n in ("float16", "half"):
            return HALF
        if n in ("int", "int64", "int32", "intp", "int_", "integer"):
            return "i"
        if n in ("bool", "bool_"):
            return "b"
    if isinstance(d, str):
        if d in ("float", "float64", "d", "f8"):
            return "f"
        if d in ("float32", "single", "f", "f4", "<f4", "=f4"):
            return SINGLE
        if d in ("float16", "half", "e", "f2"):
            return HALF
        if d in ("int", "int64", "i8", "i"):
            return "i"
        if d in ("bool", "?"):
            return "b"
    raise Unsupported("dtype %r" % (d,))


def dtype_attr(d, name):
    if name == "kind":
        return d.kind
    if name == "name":
        return repr(d)
    if name == "type":
        return d
    if name == "itemsize":
        return {"float32": 4, "float16": 2}.get(getattr(d.kind, "name", None)) or \
            {"f": 8, "i": 8, "b": 1}[d.kind]
    if name == "char":
        if isinstance(d.kind, Narrow):
            return d.kind.fmt
        return {"f": "d", "i": "l", "b": "?"}[d.kind]
    raise Unsupported("dtype.%s" % name)


def cmp_dtype(op, a, b):
    def kind(x):
        try:
            return dtype_kind(x)
        except Unsupported:
            return x
    if isinstance(a, TypeTok) and isinstance(b, TypeTok):
        r = a.name == b.name
    else:
        r = same_kind(kind(a), kind(b)) and kind(a) is not None
    if op in ("Eq", "Is"):
        return r
    if op in ("NotEq", "IsNot"):
        return not r
    raise Unsupported("dtype comparison")


def scalar_dtype(x):
    if isinstance(x, (bool, Cond)):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, Dim):
        return "i"
    if isinstance(x, Poly):
        if x.t and all(alg.ATOMS[i].isint and isinstance(e, int) and e > 0
                       for m in x.t for i, e in m) and x.as_const() is None \
                and all(isinstance(c, int) for c in x.t.values()):
            return "i"
        return "f"
    if isinstance(x, Fraction):
        return "f"
    raise Unsupported("scalar %r" % (x,))


# -- construction -----------------------------------------------------------------------------


def is_scalar(x):
    return isinstance(x, (bool, int, Poly, Fraction, Cond, Dim))


def norm_scalar(x):
    if isinstance(x, Dim):
        return x.poly
    if isinstance(x, Fraction):
        return topoly(x)
    return x


def cast(x, kind):
    """An element as it is stored in an array of the given kind."""
    if isinstance(x, Dim):
        x = x.poly
    if kind == "f":
        if isinstance(kind, Narrow):
            return rounded(cast(x, "f"), kind)
        if isinstance(x, Poly):
            return x
        if isinstance(x, Cond):
            return topoly(1 if CUR.decide(x) else 0)
        return topoly(x)
    if kind == "i":
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Cond):
            return 1 if CUR.decide(x) else 0
        if isinstance(x, Poly):
            if scalar_dtype(x) == "i":
                return x
            c = x.as_const()
            if c is not None:
                return int(c)
            a = x.is_var()
            if a is not None and (a.isint or (a.kind == "f" and a.payload[0] == "trunc")):
                return x
            return alg.app("trunc", x)
        raise Unsupported("cast %r" % (x,))
    if kind == "b":
        if isinstance(x, (bool, Cond)):
            return x
        if isinstance(x, int):
            return x != 0
        return c_not(c_eq0(x))
    if kind == "O":
        return x
    raise Unsupported("cast to %s" % kind)


def obj0(x):
    d = np.empty((), dtype=object)
    d[()] = x
    return d


def fill(dims, x, kind):
    d = np.empty(tuple(dlen(k) for k in dims), dtype=object)
    d.fill(x) if not isinstance(x, (tuple, list)) else None
    return AArray(d, dims, kind)


def wrap(data, dims, kind):
    """Result of a ufunc-like operation: 0-d results become scalars."""
    if not isinstance(data, np.ndarray):
        data = obj0(data)
    if len(dims) == 0:
        return data[()]
    return AArray(data, dims, kind)


def as_arr(x):
    """View any array-like abstract value as an AArray (no copy for arrays)."""
    if isinstance(x, AArray):
        return x
    if isinstance(x, (list, tuple)):
        return from_nested(x)
    if is_scalar(x):
        x = norm_scalar(x)
        return AArray(obj0(x), (), scalar_dtype(x))
    if isinstance(x, HostObj) and "__array__" in x.attrs:
        return x.attrs["__array__"](CUR)
    if isinstance(x, range):
        return from_nested(list(x))
    if isinstance(x, Top):
        raise Unsupported("array from %r" % x)
    if x is None:
        raise AbsRaise("TypeError", "array of None")
    if isinstance(x, str):
        raise AbsRaise("TypeError", "array of str")
    if isinstance(x, (slice, dict, set, frozenset)):
        raise Opaque("array from %r" % (x,))
    raise Unsupported("array from %r" % (x,))


class Opaque(Unsupported):
    """An object which NumPy takes as one item of an array of objects."""


def from_nested(x):
    items = [as_arr(v) for v in x]
    if not items:
        return AArray(np.empty((0,), dtype=object), (0,), "f")
    dims = items[0].dims
    for v in items[1:]:
        if v.dims != dims:
            raise AbsRaise("ValueError", "setting an array element with a sequence "
                           "(inhomogeneous shape)")
    kind = result_kind([v.dtype for v in items])
    data = np.empty((len(items),) + items[0].data.shape, dtype=object)
    for k, v in enumerate(items):
        d = conv(v, kind).data
        data[k] = d if d.ndim else d[()]
    return AArray(data, (len(items),) + dims, kind)


def conv(a, kind):
    if a.dtype == kind and (not isinstance(kind, Narrow) or same_kind(a.dtype, kind)):
        if isinstance(a.dtype, Narrow) and not isinstance(kind, Narrow):
            return AArray(a.data.copy(), a.dims, kind)
        return a
    f = np.frompyfunc(lambda x: cast(x, kind), 1, 1)
    d = f(a.data) if a.data.size else a.data.copy()
    if not isinstance(d, np.ndarray):
        d = obj0(d)
    return AArray(d, a.dims, kind)


def result_kind(kinds):
    if any(isinstance(k, Narrow) for k in kinds):
        kinds = list(kinds)
        if "O" not in kinds and "c" not in kinds:
            narrow = [k for k in kinds if isinstance(k, Narrow)]
            wide = [k for k in kinds if k in ("f", "i") and not isinstance(k, Narrow)]
            return "f" if wide else SINGLE if SINGLE.name in [k.name for k in narrow] else HALF
    for k in ("O", "c", "f", "i"):
        if k in kinds:
            return k
    return "b"


# -- broadcasting -------------------------------------------------------------------------------


def bdim(a, b):
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, Dim) and isinstance(b, Dim):
        if a.poly == b.poly:
            if dlen(a) == dlen(b):
                return a
            raise Unsupported("axis lengths %s and %s are equal but laid out differently"
                              % (a, b))
        if "|[" in a.name and "|[" in b.name:
            raise Unsupported("axes %s and %s" % (a, b))
    raise AbsRaise("ValueError", "operands could not be broadcast together: axis lengths "
                   "%s and %s" % (a, b))


def bdims(*ds):
    n = max((len(d) for d in ds), default=0)
    out = []
    for k in range(n):
        cur = 1
        for d in ds:
            j = k - (n - len(d))
            if j >= 0:
                cur = bdim(cur, d[j])
        out.append(cur)
    return tuple(out)


def elementwise(fn, arrays, dtype=None):
    """Apply an element function to arrays/scalars with numpy broadcasting."""
    arrs = [as_arr(a) for a in arrays]
    dims = bdims(*[a.dims for a in arrs])
    if dtype is None:
        dtype = result_kind([a.dtype for a in arrs])
    shape = tuple(dlen(d) for d in dims)
    if 0 in shape:
        return wrap(np.empty(shape, dtype=object), dims, dtype)
    r = np.frompyfunc(fn, len(arrs), 1)(*[a.data for a in arrs])
    if not isinstance(r, np.ndarray):
        r = obj0(r)
    if r.shape != shape:
        r = np.broadcast_to(r, shape).copy()
    ab = CUR.abbr if CUR is not None else None
    if ab and dtype in ("f", "i"):
        flat = r.ravel()
        out = np.empty(len(flat), dtype=object)
        for k, p in enumerate(flat):
            out[k] = abbrev(p)
        r = out.reshape(r.shape)
    return wrap(r, dims, dtype)


def abbrev(p):
    ab = CUR.abbr
    if ab and isinstance(p, Poly) and len(p.t) >= 1:
        q = ab.get(p)
        if q is not None:
            return q
    return p


# -- scalar arithmetic ------------------------------------------------------------------------------


def _num(x):
    if isinstance(x, Cond):
        return 1 if CUR.decide(x) else 0
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Dim):
        return x.poly
    return x


def s_add(a, b):
    a, b = _num(a), _num(b)
    return a + b


def s_sub(a, b):
    a, b = _num(a), _num(b)
    return a - b


def s_mul(a, b):
    a, b = _num(a), _num(b)
    return a * b


def s_div(a, b):
    a, b = _num(a), _num(b)
    if isinstance(b, int):
        if b == 0:
            if isinstance(a, int):
                raise AbsRaise("ZeroDivisionError", "division by zero")
            return alg.app("nan", "division by zero")
        return topoly(a) * Fraction(1, b)
    if not b.t:
        if not isinstance(a, (int, Fraction)) or a != 0:
            return alg.app("nan", "division by zero", topoly(a))
        return alg.app("nan", "0/0")
    return topoly(a) / b


def np_div(a, b):
    a, b = _num(a), _num(b)
    if (isinstance(b, int) and b == 0) or (isinstance(b, Poly) and not b.t):
        return alg.app("nan", "division by zero", topoly(a))
    return s_div(a, b)


def s_pow(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, int) and isinstance(b, int):
        if b >= 0:
            return a ** b
        if a == 0:
            raise AbsRaise("ZeroDivisionError", "0 to a negative power")
        return topoly(Fraction(a) ** b)
    return topoly(a) ** b


def s_floordiv(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise AbsRaise("ZeroDivisionError", "integer division by zero")
        return a // b
    q = topoly(a) / topoly(b)
    c = q.as_const()
    if c is not None:
        return topoly(Fraction(c).__floor__())
    if scalar_dtype(q) == "i":
        return q
    return alg.app("floor", q)


def s_mod(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise AbsRaise("ZeroDivisionError", "modulo by zero")
        return a % b
    ca, cb = topoly(a).as_const(), topoly(b).as_const()
    if ca is not None and cb is not None and cb != 0:
        return topoly(Fraction(ca) % Fraction(cb))
    return alg.app("mod", topoly(a), topoly(b))


def _b2(f):
    def g(a, b):
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return f(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return {"and": a & b, "or": a | b, "xor": a ^ b}[f.__name__[2:]]
        raise AbsRaise("TypeError", "bitwise operation on floats")
    return g


def b_and(a, b):
    return c_all([a, b])


def b_or(a, b):
    return c_any([a, b])


def b_xor(a, b):
    if isinstance(a, bool):
        return c_not(b) if a else b
    if isinstance(b, bool):
        return c_not(a) if b else a
    return CUR.decide(a) != CUR.decide(b)


SCALAR_OPS = {"Add": s_add, "Sub": s_sub, "Mult": s_mul, "Div": s_div, "Pow": s_pow,
              "FloorDiv": s_floordiv, "Mod": s_mod, "BitAnd": _b2(b_and), "BitOr": _b2(b_or),
              "BitXor": _b2(b_xor)}


def op_kind(op, kinds):
    if op == "Div":
        return "f"
    if op in ("BitAnd", "BitOr", "BitXor"):
        return result_kind(kinds)
    k = result_kind(kinds)
    return "i" if k == "b" else k


def binop(op, a, b):
    if isinstance(a, (Dim,)):
        a = a.poly
    if isinstance(b, (Dim,)):
        b = b.poly
    if op == "MatMult":
        return matmul(a, b)
    if isinstance(a, AArray) or isinstance(b, AArray):
        for x in (a, b):
            if isinstance(x, (HostFunc, TypeTok, HostObj)) or x is None or isinstance(x, str):
                raise AbsRaise("TypeError", "unsupported operand type for %s" % op)
        A, B = as_arr(a), as_arr(b)
        if op == "Sub" and A.dtype == "b" and B.dtype == "b":
            raise AbsRaise("TypeError", "numpy boolean subtract is not supported")
        fn = SCALAR_OPS.get(op)
        if fn is None:
            raise Unsupported("operator %s" % op)
        if op == "Div":
            fn = np_div
        if op == "Pow" and A.dtype == "i" and B.dtype == "i" and any(
                isinstance(x, int) and x < 0 for x in B.data.ravel()):
            raise AbsRaise("ValueError", "integers to negative integer powers")
        if op in ("Add", "Mult") and A.dtype == "b" and B.dtype == "b":
            return elementwise(b_or if op == "Add" else b_and, [A, B], "b")
        kind = op_kind(op, [A.dtype, B.dtype])
        return elementwise(lambda x, y: cast(fn(x, y), kind), [A, B], kind)
    fn = SCALAR_OPS.get(op)
    if fn is None:
        if op in ("LShift", "RShift") and isinstance(a, int) and isinstance(b, int):
            return a << b if op == "LShift" else a >> b
        raise Unsupported("operator %s" % op)
    if not (is_scalar(a) and is_scalar(b)):
        raise AbsRaise("TypeError", "unsupported operand types for %s: %s and %s"
                       % (op, type(a).__name__, type(b).__name__))
    r = fn(norm_scalar(a), norm_scalar(b))
    if isinstance(r, Poly):
        r = abbrev(r)
    return r


def inplace(op, a, b):
    """a op= b for an array a: writes into the existing memory."""
    v = binop(op, a, b)
    return store(a, v, "in-place %s" % op)


def store(out, v, what, casting=True):
    V = as_arr(v)
    if bdims(out.dims, V.dims) != out.dims:
        raise AbsRaise("ValueError", "%s: non-broadcastable output operand with shape %s "
                       "does not match the broadcast shape %s"
                       % (what, out.dims, bdims(out.dims, V.dims)))
    order = "bifc"
    if casting and order.index(V.dtype) > order.index(out.dtype):
        raise AbsRaise("UFuncTypeError", "%s: cannot cast the result (%s) to the dtype of "
                       "the output (%s)" % (what, DType(V.dtype), DType(out.dtype)))
    write(out, Ellipsis, np.broadcast_to(conv(V, out.dtype).data, out.data.shape))
    return out


def write(arr, idx, data):
    """The only place where array memory is written."""
    if arr.readonly:
        raise AbsRaise("ValueError", "assignment destination is read-only")
    if CUR is not None:
        CUR.on_write(arr)
    if arr.data.size == 0 and idx is Ellipsis:
        return
    if isinstance(data, np.ndarray) and np.shares_memory(data, arr.data):
        data = data.copy()
    if isinstance(data, np.ndarray):
        arr.data[idx] = data if data.ndim else data[()]
    else:
        arr.data[idx] = data


# -- comparisons ------------------------------------------------------------------------------------


def _only_dims(p):
    return bool(p.t) and all(alg.ATOMS[i].isint for i in p.atoms())


def tol_cond(diff, ref, rtol, atol):
    """|diff| <= atol + rtol * |ref| at one point."""
    diff, ref = topoly(_num(diff)), topoly(_num(ref))
    rtol, atol = topoly(_num(rtol)), topoly(_num(atol))
    if not diff.t:
        return True
    if _only_dims(diff) or (diff.as_const() is None and all(
            alg.ATOMS[i].isint for i in diff.atoms())):
        return False
    c, r = diff.as_const(), ref.as_const()
    rt, at = rtol.as_const(), atol.as_const()
    if c is not None and r is not None and rt is not None and at is not None:
        return abs(c) <= at + rt * abs(r)
    if any(alg.ATOMS[i].kind == "f" and alg.ATOMS[i].payload[0] == "nan"
           for i in diff.atoms()):
        return False
    lead = diff.t[min(diff.t, key=alg._mkey)]
    if lead < 0:
        diff = -diff
    return Cond("close", (diff, ref, rtol, atol))


def cmp_scalar(op, a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, int) and isinstance(b, int):
        return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b,
                "GtE": a >= b}[op]
    if op in ("Gt", "GtE"):
        return cmp_scalar("Lt" if op == "Gt" else "LtE", b, a)
    a, b = topoly(a), topoly(b)
    d = a - b
    if d.t and all(alg.ATOMS[i].isint for i in d.atoms()) and d.as_const() is None:
        # axis lengths: a symbol stands for any length >= 2
        if op in ("Eq", "NotEq"):
            r = _dim_eq(d)
            return r if op == "Eq" else c_not(r)
        s = _dim_sign(d)
        if s is not None:
            return s < 0
    if op == "Eq":
        return c_eq0(d)
    if op == "NotEq":
        return c_not(c_eq0(d))
    # tolerance tests written with abs()
    va, vb = a.is_var(), b.is_var()
    if va is not None and va.kind == "f" and va.payload[0] == "abs":
        return tol_cond(va.payload[1][0], b, 1, 0) if b.as_const() is None else \
            tol_cond(va.payload[1][0], 0, 0, b)
    if vb is not None and vb.kind == "f" and vb.payload[0] == "abs":
        return c_not(tol_cond(vb.payload[1][0], a, 1, 0) if a.as_const() is None else
                     tol_cond(vb.payload[1][0], 0, 0, a))
    if op == "Lt":
        return c_lt0(d)
    return c_not(c_lt0(-d))


def _dim_eq(d):
    """Equality of two lengths; symbols are >= 2 and pairwise unrelated."""
    s = _dim_sign(d)
    if s is not None:
        return False
    return False


def _dim_sign(d):
    """Sign of a length expression where every symbol is >= 2, if determined."""
    lo = d.t.get((), 0)
    neg = all(c < 0 for m, c in d.t.items() if m)
    pos = all(c > 0 for m, c in d.t.items() if m)
    if pos:
        v = lo + sum(c * 2 ** sum(e for _, e in m) for m, c in d.t.items() if m)
        return 1 if v > 0 else None
    if neg:
        v = lo + sum(c * 2 ** sum(e for _, e in m) for m, c in d.t.items() if m)
        return -1 if v < 0 else None
    return None


def compare(op, a, b):
    return elementwise(lambda x, y: cmp_scalar(op, x, y), [a, b], "b")


# -- indexing ----------------------------------------------------------------------------------------


def _as_index_tuple(i):
    return i if isinstance(i, tuple) else (i,)


class MaskIndex(AArray):
    """The indices at which a symbolic mask is true: selects what the mask selects."""
    __slots__ = ("mask",)


def _norm_index(a, i):
    """Expand an index into a list of items, one per consumed axis group."""
    items = []
    for x in _as_index_tuple(i):
        if isinstance(x, (list, range)):
            x = as_arr(list(x)) if len(x) else AArray(np.empty((0,), dtype=object), (0,), "i")
        elif isinstance(x, tuple):
            x = as_arr(x)
        if type(x) is MaskIndex:
            x = x.mask
        if isinstance(x, AArray) and x.dims == () and x.dtype == "i":
            x = CUR.conc_int(x)
        if isinstance(x, Poly):
            c = x.as_const()
            if c is not None:
                raise AbsRaise("IndexError", "only integers, slices, ... are valid indices")
            raise Unsupported("symbolic index")
        if isinstance(x, AArray) and x.dtype == "f":
            raise AbsRaise("IndexError", "arrays used as indices must be of integer type")
        if isinstance(x, str):
            raise AbsRaise("IndexError", "string index")
        if isinstance(x, Top):
            raise Unsupported("index %r" % x)
        items.append(x)
    used = 0
    for x in items:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, (bool, Cond)):
            continue
        if isinstance(x, AArray) and x.dtype == "b":
            used += len(x.dims)
        else:
            used += 1
    if sum(1 for x in items if x is Ellipsis) > 1:
        raise AbsRaise("IndexError", "an index can only have a single ellipsis")
    if used > a.ndim:
        raise AbsRaise("IndexError", "too many indices for array: array is %d-dimensional, "
                       "but %d were indexed" % (a.ndim, used))
    if not any(x is Ellipsis for x in items):
        items.append(Ellipsis)
    out = []
    for x in items:
        if x is Ellipsis:
            out.extend([slice(None)] * (a.ndim - used))
        else:
            out.append(x)
    return out


def _full(s):
    return isinstance(s, slice) and s.start in (None, 0) and s.stop is None \
        and s.step in (None, 1)


_PR = [1009, 1013, 1019, 1021, 1031, 1033, 1039, 1049, 1051, 1061, 1063, 1069, 1087, 1091]
_PR_SMALL = [37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]


def at_point(p, dim, tag):
    """The element of p at a specific index along dim: atoms that vary along dim are
    replaced by their value at that index."""
    if not isinstance(p, Poly):
        if isinstance(p, Cond):
            return Cond("opaque", (str(p), tag))
        return p
    m = {}
    for i in p.atoms(deep=True):
        a = alg.ATOMS[i]
        if a.kind == "v" and dim in ATOM_DIMS.get(i, ()):
            q = alg.var("%s@%s" % (a.name, tag), pos=a.pos)
            b = q.is_var()
            b.isint = a.isint
            ATOM_DIMS[b.idx] = ATOM_DIMS[i] - {dim}
            m[i] = q
    return alg.subst(p, m, expand=False) if m else p


_SEL = {}


def select_dim(base, what, key):
    """Name of the axis of points selected from `base` by a mask / index / slice."""
    k = (base, what, key)
    if k not in _SEL:
        _SEL[k] = len(_SEL)
    if what == "slice":
        return Dim("%s|[%s]" % (base, key))
    return Dim("%s|%s%d" % (base, what, _SEL[k]))


def _cond_key(x):
    return (x.kind, x.args, x.neg) if isinstance(x, Cond) else x


def _mask_prepare(a, items):
    """Resolve boolean masks.  Concrete masks become integer arrays; returns (items, mask
    position or None)."""
    out, mpos = [], None
    axis = 0
    for x in items:
        if isinstance(x, AArray) and x.dtype == "b":
            k = len(x.dims)
            for d, e in zip(x.dims, a.dims[axis:axis + k]):
                if d != e:
                    if x.label == "nonzero":
                        raise Unsupported("indices of another axis")
                    if not (isinstance(d, Dim) and isinstance(e, Dim) and d.poly == e.poly):
                        raise AbsRaise("IndexError", "boolean index did not match indexed "
                                       "array: axis length %s, mask length %s" % (e, d))
            if all(isinstance(d, int) for d in x.dims):
                vals = np.empty(x.data.shape, dtype=bool)
                for idx in np.ndindex(*x.data.shape):
                    vals[idx] = CUR.decide(x.data[idx])
                if k == 0:
                    out.append(bool(vals[()]))
                else:
                    for n in np.nonzero(vals):
                        o = np.empty(len(n), dtype=object)
                        o[:] = [int(v) for v in n]
                        out.append(AArray(o, (len(n),), "i"))
            else:
                if mpos is not None:
                    raise Unsupported("several symbolic masks in one index")
                mpos = len(out)
                out.append(x)
            axis += k
        elif isinstance(x, (bool, Cond)):
            out.append(CUR.decide(x))
        else:
            out.append(x)
            if x is not None:
                axis += 1
    return out, mpos


def getitem(a, i):
    if isinstance(i, HostObj) and "index" in i.attrs:
        i = i.attrs["index"]
    items = _norm_index(a, i)
    items, mpos = _mask_prepare(a, items)
    if mpos is not None:
        return _get_masked(a, items, mpos)
    if any(isinstance(x, bool) for x in items):
        bools = [x for x in items if isinstance(x, bool)]
        if len(bools) > 1 or any(isinstance(x, AArray) for x in items):
            raise Unsupported("boolean scalar index")
        rest = [x for x in items if not isinstance(x, bool)]
        r = as_arr(getitem(a, tuple(rest)) if rest else a)
        n = 1 if bools[0] else 0
        pos = sum(1 for x in items[:items.index(bools[0])] if not isinstance(x, int))
        d = np.expand_dims(r.data, pos)
        if n == 0:
            d = np.empty(d.shape[:pos] + (0,) + d.shape[pos + 1:], dtype=object)
        return AArray(d.copy(), r.dims[:pos] + (n,) + r.dims[pos:], r.dtype)
    # points / selections along symbolic axes are handled one by one
    axis = 0
    for k, x in enumerate(items):
        if x is None:
            continue
        d = a.dims[axis]
        if isinstance(d, Dim) and not _full(x):
            return _get_symbolic_axis(a, items, k, axis, x)
        axis += 1
    idx, dims, fancy = _concrete_index(a, items)
    d = a.data[idx]
    if not isinstance(d, np.ndarray) or (d.ndim == 0 and not isinstance(d, np.ndarray)):
        return d
    if d.ndim == 0 and not dims and not any(x is Ellipsis for x in _as_index_tuple(i)):
        return d[()]
    r = AArray(d, dims, a.dtype, readonly=a.readonly and not fancy)
    if not dims and not fancy:
        return r
    return r


def _concrete_index(a, items):
    """(index for the stored data, resulting dims, is advanced)."""
    idx, fancy = [], False
    axis = 0
    sur, back = [], {}
    many = sum(isinstance(d, Dim) for d in a.dims) > 2
    for k, d in enumerate(a.dims):
        if isinstance(d, Dim):
            # stand-in lengths which no axis of a known length has
            p = (_PR_SMALL if many else _PR)[k % len(_PR)]
            while p in a.dims or p in back:
                p += 1
            back[p] = d
            sur.append(p)
        else:
            sur.append(d)
    for x in items:
        if x is None:
            idx.append(None)
            continue
        if isinstance(x, AArray):
            o = np.empty(x.data.shape, dtype=int)
            for j in np.ndindex(*x.data.shape):
                o[j] = CUR.conc_int(x.data[j])
            if any(isinstance(d, Dim) for d in x.dims):
                raise Unsupported("index array with a symbolic axis")
            n = a.dims[axis]
            if isinstance(n, int) and o.size and (o.max() >= n or o.min() < -n):
                raise AbsRaise("IndexError", "index out of bounds for axis of length %s" % n)
            idx.append(o)
            fancy = True
        elif isinstance(x, slice):
            s = slice(*[None if v is None else CUR.conc_int(v)
                        for v in (x.start, x.stop, x.step)])
            idx.append(s)
        else:
            j = CUR.conc_int(x)
            n = a.dims[axis]
            if isinstance(n, int) and not -n <= j < n:
                raise AbsRaise("IndexError", "index %d is out of bounds for axis %d with "
                               "size %s" % (j, axis, n))
            idx.append(j)
        axis += 1
    probe = np.lib.stride_tricks.as_strided(np.zeros(1, dtype=np.int8), shape=tuple(sur),
                                            strides=(0,) * len(sur))
    try:
        shape = probe[tuple(idx)].shape
    except IndexError as e:
        raise AbsRaise("IndexError", str(e))
    except ValueError as e:
        raise AbsRaise("ValueError", str(e))
    # axes are told apart by position where lengths coincide
    dims = tuple(back.get(n, n) for n in shape)
    return tuple(idx), dims, fancy


def _prefix(d, x):
    """(number of segments, remainder) of the offset x along an axis of segments."""
    segs = d.segs if d.segs is not None else (d,)
    x = topoly(x)
    acc = alg.ZERO
    for j in range(len(segs) + 1):
        rest = x - acc
        if rest == alg.ZERO:
            return j, segs
        if j < len(segs):
            acc = acc + dpoly(segs[j])
    return None, segs


def _slice_segments(a, axis, d, x):
    """A slice with symbolic bounds which are ends of segments of the axis; otherwise the
    points of an axis whose length is the one of the slice."""
    if x.step not in (None, 1):
        raise Unsupported("symbolic slice")
    tot = dpoly(d)

    def bound(v, default):
        if v is None:
            return default
        v = topoly(v)
        c = v.as_const()
        if c is not None and c < 0 or c is None and all(k < 0 for k in v.t.values()):
            v = tot + v
        return v
    lo, hi = bound(x.start, alg.ZERO), bound(x.stop, tot)
    (i, segs), (j, _) = _prefix(d, lo), _prefix(d, hi)
    if i is not None and j is not None:
        segs_ = segs[i:j] if i < j else ()
        st = sum(dlen(y) for y in segs[:i])
        n = sum(dlen(y) for y in segs_)
        sl = [slice(None)] * a.ndim
        sl[axis] = slice(st, st + n)
        nd = 0 if not segs_ else segs_[0] if len(segs_) == 1 else seg_dim(segs_)
        return AArray(a.data[tuple(sl)], a.dims[:axis] + (nd,) + a.dims[axis + 1:], a.dtype,
                      a.readonly)
    if d.segs is not None:
        b = _slice_ends(a, axis, d, lo, hi, tot)
        if b is not None:
            return b
    if dlen(d) != 1 or d.segs is not None:
        raise Unsupported("slice along a concatenated axis")
    nd = to_dim(hi - lo)
    tag = "%s:%s" % (lo, hi)
    f = np.frompyfunc(lambda p: at_point(p, d, tag), 1, 1)
    data = f(a.data)
    if isinstance(nd, int):
        raise Unsupported("symbolic slice of a known length")
    for q in data.ravel():
        for i2 in q.atoms(deep=True) if isinstance(q, Poly) else ():
            if alg.ATOMS[i2].name.endswith("@" + tag):
                ATOM_DIMS[i2] = ATOM_DIMS[i2] | {nd}
    return AArray(data, a.dims[:axis] + (nd,) + a.dims[axis + 1:], a.dtype)


def _slice_ends(a, axis, d, lo, hi, tot):
    """A slice which leaves out some points at the ends of an axis of segments."""
    i, j = lo.as_const(), (tot - hi).as_const()
    segs = list(d.segs)
    if i is None or j is None or i < 0 or j < 0 or len(segs) < 2:
        return None
    for k, c, key in ((0, i, "%s:" % i), (-1, j, ":-%s" % j)):
        if c:
            if isinstance(segs[k], int) or dlen(segs[k]) != 1 or segs[k].segs is not None:
                return None
            segs[k] = select_dim(segs[k], "slice", key)
    return AArray(a.data, a.dims[:axis] + (seg_dim(tuple(segs)),) + a.dims[axis + 1:], a.dtype,
                  a.readonly)


def _get_symbolic_axis(a, items, k, axis, x):
    d = a.dims[axis]
    if isinstance(x, slice):
        key = ":".join("" if v is None else str(v) for v in (x.start, x.stop, x.step))
        if all(v is None or isinstance(v, int) for v in (x.start, x.stop, x.step)):
            step = x.step or 1
            if step == -1 and x.start is None and x.stop is None:
                nd = d  # reversed: same length, the generic point is mirrored
                data = np.frompyfunc(lambda p: at_point(p, d, "rev"), 1, 1)(a.data)
                b = AArray(data, a.dims, a.dtype)
                for i2 in set().union(*[q.atoms(deep=True) for q in data.ravel()
                                        if isinstance(q, Poly)] or [set()]):
                    if alg.ATOMS[i2].name.endswith("@rev"):
                        ATOM_DIMS[i2] = ATOM_DIMS[i2] | {d}
                items = list(items)
                items[k] = slice(None)
                return getitem(b, tuple(items))
            if d.segs is not None and x.step in (None, 1):
                b = _slice_segments(a, axis, d, x)
                items = list(items)
                items[k] = slice(None)
                return getitem(b, tuple(items))
            nd = select_dim(d, "slice", key)
            data = a.data
            if dlen(d) != 1:
                raise Unsupported("slice along a concatenated axis")
            dims = a.dims[:axis] + (nd,) + a.dims[axis + 1:]
            b = AArray(data, dims, a.dtype, a.readonly)
            items = list(items)
            items[k] = slice(None)
            return getitem(b, tuple(items))
        b = _slice_segments(a, axis, d, x)
        items = list(items)
        items[k] = slice(None)
        return getitem(b, tuple(items))
    if isinstance(x, AArray):
        if x.dtype != "i":
            raise Unsupported("index array")
        if all(isinstance(q, int) for q in x.data.ravel()) and \
                all(isinstance(q, int) for q in x.dims):
            # explicit points
            if len(x.dims) != 1:
                raise Unsupported("index array")
            others = [y for j, y in enumerate(items) if j != k]
            if any(not _full(y) for y in others):
                raise Unsupported("explicit points on a symbolic axis")
            parts = []
            for q in x.data:
                it = [slice(None)] * a.ndim
                it[axis] = int(q)
                parts.append(as_arr(getitem(a, tuple(it))))
            st = np.stack([p.data for p in parts], axis=axis)
            return AArray(st, a.dims[:axis] + (len(parts),) + a.dims[axis + 1:], a.dtype)
        if len(x.dims) != 1 or any(not _full(y) for j, y in enumerate(items) if j != k):
            raise Unsupported("symbolic index array")
        if isinstance(x.label, tuple) and x.label[0] == "perm" and x.dims[0] is d:
            # the same points in another order
            data = np.frompyfunc(lambda p: at_point(p, d, x.label[1]), 1, 1)(a.data)
            for q in data.ravel():
                for i2 in q.atoms(deep=True) if isinstance(q, Poly) else ():
                    if alg.ATOMS[i2].name.endswith("@" + x.label[1]):
                        ATOM_DIMS[i2] = ATOM_DIMS[i2] | {d}
            return AArray(data, a.dims, a.dtype)
        nd = x.dims[0] if isinstance(x.dims[0], Dim) else None
        nd = select_dim(d, "index", (x.label or id(x), nd))
        return AArray(a.data.copy(), a.dims[:axis] + (nd,) + a.dims[axis + 1:], a.dtype)
    j = CUR.conc_int(x)
    if d.segs is not None:
        segs = list(d.segs)
        off = 0
        if j >= 0:
            for s in segs:
                if isinstance(s, Dim):
                    break
                if j < s:
                    data = np.take(a.data, off + j, axis=axis)
                    return _rest(a, items, k, axis, data)
                j -= s
                off += dlen(s)
        raise Unsupported("index into a concatenated axis")
    if d.factors is not None:
        if any(not isinstance(x, Dim) or x.segs is not None or x.factors is not None
               for x in d.factors) or dlen(d) != 1:
            raise Unsupported("index into a flattened axis")

        # the point of which each index is the first (last) one, or an unknown point
        def flat(p):
            for x in d.factors:
                p = at_point(p, x, str(j) if j in (0, -1) else "flat%d" % j)
            return p
        f = np.frompyfunc(flat, 1, 1)
    else:
        f = np.frompyfunc(lambda p: at_point(p, d, str(j)), 1, 1)
    data = f(np.take(a.data, 0, axis=axis))
    if not isinstance(data, np.ndarray):
        data = obj0(data)
    return _rest(a, items, k, axis, data)


def _rest(a, items, k, axis, data):
    dims = a.dims[:axis] + a.dims[axis + 1:]
    if not isinstance(data, np.ndarray):
        data = obj0(data)
    b = AArray(data, dims, a.dtype)
    items = [y for j, y in enumerate(items) if j != k]
    if not items or not dims:
        return b.data[()] if not dims else b
    return getitem(b, tuple(items))


def _masked_parts(a, items, mpos):
    """Split an index with one symbolic mask into (basic view, mask, axis, move-to-front)."""
    mask = items[mpos]
    k = len(mask.dims)
    adv = [j for j, x in enumerate(items) if isinstance(x, (AArray, int)) and
           not isinstance(x, bool)]
    if any(isinstance(items[j], AArray) and j != mpos for j in adv):
        raise Unsupported("mask combined with an index array")
    front = adv and (max(adv) - min(adv) + 1 != len(adv))
    pre = list(items)
    pre[mpos:mpos + 1] = [slice(None)] * k
    view = getitem(a, tuple(pre)) if not all(_full(x) for x in pre) else a
    axis = sum(1 for x in items[:mpos] if not isinstance(x, int))
    return as_arr(view), mask, axis, bool(front)


def _mask_dim(mask):
    reps = [mask.data[i] for i in np.ndindex(*mask.data.shape)]
    base = prod_dim(mask.dims)
    key = tuple(_cond_key(c) for c in reps)
    if len(reps) == 1:
        return select_dim(base, "mask", key)
    return seg_dim([select_dim(base, "mask", (key, n)) for n in range(len(reps))])


def _get_masked(a, items, mpos):
    view, mask, axis, front = _masked_parts(a, items, mpos)
    k = len(mask.dims)
    nd = _mask_dim(mask)
    sh = view.data.shape
    data = view.data.reshape(sh[:axis] + (-1,) + sh[axis + k:]).copy()
    dims = view.dims[:axis] + (nd,) + view.dims[axis + k:]
    r = AArray(data, dims, a.dtype)
    if front and axis:
        r = AArray(np.moveaxis(data, axis, 0), (nd,) + dims[:axis] + dims[axis + 1:], a.dtype)
    return r


def setitem(a, i, v):
    if a.readonly:
        raise AbsRaise("ValueError", "assignment destination is read-only")
    if isinstance(i, HostObj) and "index" in i.attrs:
        i = i.attrs["index"]
    V = as_arr(v)
    items = _norm_index(a, i)
    items, mpos = _mask_prepare(a, items)
    if mpos is not None:
        return _set_masked(a, items, mpos, V)
    if any(isinstance(x, bool) for x in items):
        if not all(x for x in items if isinstance(x, bool)):
            return
        items = [x for x in items if not isinstance(x, bool)]
        if V.dims and V.dims[0] == 1:
            V = AArray(V.data[0] if isinstance(V.data[0], np.ndarray) else obj0(V.data[0]),
                       V.dims[1:], V.dtype)
        setitem(a, tuple(items) if items else Ellipsis, V)
        return
    axis = 0
    for k, x in enumerate(items):
        if x is None:
            continue
        d = a.dims[axis]
        if isinstance(d, Dim) and not _full(x):
            if isinstance(x, (int,)):
                hit = CUR.decide(Cond("opaque", ("generic point of %s is index %s" % (d, x),)))
                it = list(items)
                it[k] = slice(None)
                if hit:
                    if axis < a.ndim - 1 and V.ndim:
                        raise Unsupported("assignment to a point of a symbolic axis")
                    setitem(a, tuple(it), V)
                return
            if isinstance(x, slice):
                hit = CUR.decide(Cond("opaque", ("generic point of %s is in slice %s" % (d, x),)))
                if hit:
                    it = list(items)
                    it[k] = slice(None)
                    setitem(a, tuple(it), AArray(V.data, tuple(
                        d if isinstance(q, Dim) and q.name.startswith(d.name + "|[") else q
                        for q in V.dims), V.dtype))
                return
            raise Unsupported("assignment along a symbolic axis")
        axis += 1
    idx, dims, fancy = _concrete_index(a, items)
    V = _fit(V, dims)
    if isinstance(V.data, np.ndarray) and V.dtype != a.dtype:
        V = conv(V, a.dtype)
    tshape = tuple(dlen(d) for d in dims)
    write(a, idx, np.broadcast_to(V.data, tshape))


def _fit(V, dims):
    """Broadcast a value to the shape of an assignment target."""
    vd = V.dims
    extra = len(vd) - len(dims)
    data = V.data
    while extra > 0 and vd and vd[0] == 1:
        vd = vd[1:]
        data = data[0]
        if not isinstance(data, np.ndarray):
            data = obj0(data)
        extra -= 1
    if extra > 0:
        raise AbsRaise("ValueError", "could not broadcast input array from shape %s into "
                       "shape %s" % (V.dims, dims))
    for x, y in zip(vd[::-1], dims[::-1]):
        if x != y and x != 1:
            if isinstance(x, Dim) and isinstance(y, Dim) and x.poly == y.poly \
                    and dlen(x) == dlen(y):
                continue
            raise AbsRaise("ValueError", "could not broadcast input array from shape %s "
                           "into shape %s" % (V.dims, dims))
    return AArray(data, vd, V.dtype)


def _set_masked(a, items, mpos, V):
    view, mask, axis, front = _masked_parts(a, items, mpos)
    if view.data.size and not np.shares_memory(view.data, a.data):
        raise Unsupported("masked assignment through a copy")
    if front and axis:
        raise Unsupported("masked assignment with separated indices")
    k = len(mask.dims)
    nd = _mask_dim(mask)
    tdims = view.dims[:axis] + (nd,) + view.dims[axis + k:]
    V = conv(_fit(V, tdims), a.dtype)
    sh = view.data.shape
    tshape = sh[:axis] + (mask.data.size,) + sh[axis + k:]
    val = np.broadcast_to(V.data, tshape)
    for n, m in enumerate(np.ndindex(*mask.data.shape)):
        if CUR.decide(mask.data[m]):
            tgt = (slice(None),) * axis + m
            src = (slice(None),) * axis + (n,)
            write(AArray(view.data, view.dims, view.dtype, a.readonly), tgt, val[src])


def scalar_getitem(a, i):
    """Indexing a numpy scalar."""
    if isinstance(a, bool) or (isinstance(a, int) and not isinstance(a, bool)) or \
            (isinstance(a, Poly) and a.as_const() is not None):
        if i == () or i is Ellipsis:
            return a
        if isinstance(a, int):
            raise AbsRaise("TypeError", "scalar is not subscriptable")
    return getitem(as_arr(a), i)


# -- shape manipulation -----------------------------------------------------------------------------------


def _factors(dims):
    out = []
    for d in dims:
        if isinstance(d, Dim) and d.factors is not None:
            out.extend(d.factors)
        elif d != 1:
            out.append(d)
    return out


def total(dims):
    p = alg.ONE
    for d in dims:
        p = p * dpoly(d)
    return p


def reshape(a, shape, order="C"):
    if isinstance(shape, AArray):
        shape = CUR.iterate(shape)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    if order == "F":
        b = transpose(a, None)
        r = reshape(b, tuple(shape)[::-1])
        return transpose(r, None)
    if order not in ("C", "K", "A"):
        raise Unsupported("reshape order %s" % order)
    tgt = [CUR.conc_int(s) if not isinstance(s, (Dim, Poly)) else to_dim(s) for s in shape]
    tot = total(a.dims)
    neg = [k for k, s in enumerate(tgt) if isinstance(s, int) and s == -1]
    if len(neg) > 1:
        raise AbsRaise("ValueError", "can only specify one unknown dimension")
    if neg:
        known = total([s for k, s in enumerate(tgt) if k != neg[0]])
        if not known.t:
            raise AbsRaise("ValueError", "cannot reshape array of shape %s" % (a.dims,))
        q = tot / known
        c = q.as_const()
        if c is not None and not isinstance(c, int):
            raise AbsRaise("ValueError", "cannot reshape array of shape %s into %s"
                           % (a.dims, tuple(tgt)))
        if c is None and any(not isinstance(e, int) or e < 0 or not isinstance(v, int)
                             for m, v in q.t.items() for _, e in m):
            raise AbsRaise("ValueError", "cannot reshape array of shape %s into %s"
                           % (a.dims, tuple(tgt)))
        tgt[neg[0]] = None
    else:
        if total(tgt) != tot:
            raise AbsRaise("ValueError", "cannot reshape array of shape %s into %s"
                           % (a.dims, tuple(tgt)))
    src = _factors(a.dims)
    ok, new = _align(src, tgt)
    if not ok:
        # the elements are rearranged across axes
        dims = []
        for s in tgt:
            if s is None:
                s = to_dim(tot / total([x for x in tgt if x is not None]))
            dims.append(s)
        return scramble(a, tuple(dims))
    shp = tuple(dlen(d) for d in new)
    return AArray(a.data.reshape(shp), new, a.dtype, a.readonly)


def scramble(a, dims):
    bd = frozenset(base_dims(a.dims))
    shp = tuple(dlen(d) for d in dims)
    data = np.empty(shp, dtype=object)
    key = (tuple(map(str, a.dims)), tuple(a.data.ravel()[:4]))
    for i in np.ndindex(*shp):
        p = alg.app("rearranged", str(key[0]) + str(dims) + str(i),
                    *[x for x in key[1] if isinstance(x, Poly)])
        ATOM_DIMS[p.is_var().idx] = bd
        data[i] = p
    r = AArray(data, dims, a.dtype)
    return r


def _align(src, tgt):
    """Match an ordered factor list with target lengths (None = the -1 entry)."""
    src = list(src)
    new = []
    n = len(tgt)

    def take(want, avail):
        """Consume factors from avail that multiply (in order) to want."""
        if isinstance(want, int):
            rest = want
            avail = list(avail)
            while rest != 1:
                if not avail or not isinstance(avail[0], int):
                    return None
                f = avail[0]
                if f == 0 or rest == 0:
                    return None
                if rest % f == 0:
                    rest //= f
                    avail.pop(0)
                elif f % rest == 0:
                    avail[0] = f // rest
                    rest = 1
                else:
                    from math import gcd
                    g = gcd(rest, f)
                    if g == 1:
                        return None
                    return None
            return avail
        want_f = list(want.factors) if want.factors is not None else [want]
        avail = list(avail)
        for w in want_f:
            if isinstance(w, int):
                avail = take(w, avail)
                if avail is None:
                    return None
            elif avail and (avail[0] is w or (isinstance(avail[0], Dim)
                                              and avail[0].poly == w.poly
                                              and dlen(avail[0]) == dlen(w))):
                avail.pop(0)
            else:
                return None
        return avail

    avail = src
    k = 0
    while k < n and tgt[k] is not None:
        if tgt[k] == 0:
            return (0 in src), tuple(t if t is not None else 0 for t in tgt)
        avail = take(tgt[k], avail)
        if avail is None:
            return False, None
        new.append(tgt[k])
        k += 1
    if k < n:
        # match the tail from the right
        tail = []
        rev = list(avail)
        for s in reversed(tgt[k + 1:]):
            r = take_right(s, rev)
            if r is None:
                return False, None
            rev = r
            tail.append(s)
        new.append(prod_dim(rev) if rev else 1)
        new.extend(reversed(tail))
        return True, tuple(new)
    if any(not (isinstance(x, int) and x == 1) for x in avail):
        return False, None
    return True, tuple(new)


def take_right(want, avail):
    avail = list(avail)
    fs = list(want.factors) if isinstance(want, Dim) and want.factors is not None else [want]
    for w in reversed(fs):
        if isinstance(w, int):
            rest = w
            while rest != 1:
                if not avail or not isinstance(avail[-1], int):
                    return None
                f = avail[-1]
                if f == 0 or rest == 0:
                    return None
                if rest % f == 0:
                    rest //= f
                    avail.pop()
                elif f % rest == 0:
                    avail[-1] = f // rest
                    rest = 1
                else:
                    return None
        elif avail and (avail[-1] is w or (isinstance(avail[-1], Dim)
                                           and avail[-1].poly == w.poly)):
            avail.pop()
        else:
            return None
    return avail


def norm_axis(ax, n):
    ax = CUR.conc_int(ax)
    if not -n <= ax < n:
        raise AbsRaise("AxisError", "axis %d is out of bounds for array of dimension %d"
                       % (ax, n))
    return ax % n


def transpose(a, axes=None):
    n = a.ndim
    if axes is None:
        axes = tuple(range(n))[::-1]
    else:
        axes = tuple(norm_axis(x, n) for x in CUR.iterate(axes))
        if sorted(axes) != list(range(n)):
            raise AbsRaise("ValueError", "axes don't match array")
    return AArray(a.data.transpose(axes), [a.dims[k] for k in axes], a.dtype, a.readonly)


def swapaxes(a, i, j):
    n = a.ndim
    i, j = norm_axis(i, n), norm_axis(j, n)
    ax = list(range(n))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(a, ax)


def moveaxis(a, s, d):
    n = a.ndim
    ss = [norm_axis(x, n) for x in (CUR.iterate(s) if isinstance(s, (list, tuple, AArray))
                                    else [s])]
    dd = [norm_axis(x, n) for x in (CUR.iterate(d) if isinstance(d, (list, tuple, AArray))
                                    else [d])]
    order = [k for k in range(n) if k not in ss]
    for x, y in sorted(zip(dd, ss)):
        order.insert(x, y)
    return transpose(a, order)


def expand_dims(a, axis):
    ax = list(axis) if isinstance(axis, (tuple, list)) else [axis]
    n = a.ndim + len(ax)
    ax = sorted(norm_axis(x, n) for x in ax)
    dims, data = list(a.dims), a.data
    for x in ax:
        data = np.expand_dims(data, x)
        dims.insert(x, 1)
    return AArray(data, dims, a.dtype, a.readonly)


def squeeze(a, axis=None):
    if axis is None:
        ax = [k for k, d in enumerate(a.dims) if d == 1 and isinstance(d, int)]
    else:
        ax = list(axis) if isinstance(axis, (tuple, list)) else [axis]
        ax = [norm_axis(x, a.ndim) for x in ax]
        for k in ax:
            if a.dims[k] != 1:
                raise AbsRaise("ValueError", "cannot select an axis to squeeze out which has "
                               "size not equal to one")
    return AArray(np.squeeze(a.data, tuple(ax)),
                  [d for k, d in enumerate(a.dims) if k not in ax], a.dtype, a.readonly)


def broadcast_to(a, dims):
    dims = tuple(dims)
    if len(dims) < a.ndim or bdims(a.dims, dims) != dims:
        raise AbsRaise("ValueError", "operands could not be broadcast together with "
                       "remapped shapes: %s -> %s" % (a.dims, dims))
    return AArray(np.broadcast_to(a.data, tuple(dlen(d) for d in dims)), dims, a.dtype, True)


def shape_arg(s):
    if isinstance(s, AArray):
        s = CUR.iterate(s) if s.dims else [s.data[()]]
    if not isinstance(s, (tuple, list)):
        s = (s,)
    out = []
    for x in s:
        if isinstance(x, AArray) and x.dims == ():
            x = x.data[()]
        if isinstance(x, Poly) and scalar_dtype(x) == "f" and x.as_const() is not None:
            raise AbsRaise("TypeError", "float cannot be interpreted as an integer")
        out.append(to_dim(x))
    for d in out:
        if isinstance(d, int) and d < 0:
            raise AbsRaise("ValueError", "negative dimensions are not allowed")
    return tuple(out)


# -- reductions ---------------------------------------------------------------------------------------------


def sum_over_dim(p, d):
    """Sum of the generic element p along a symbolic axis."""
    if d.segs is not None or d.factors is not None:
        raise Unsupported("sum along a composite axis")
    p = topoly(p)
    base = d.name.split("|")[0]
    out = alg.ZERO
    for m, c in p.t.items():
        dep, ind = [], []
        for i, e in m:
            from .absval import atom_dims, poly_dims
            ds = set(atom_dims(i))
            if isinstance(e, Poly):
                ds |= poly_dims(e)
            if any(q is d or q.name == base or q.name == d.name for q in ds):
                dep.append((i, e))
            else:
                ind.append((i, e))
        ip = Poly({tuple(ind): c})
        if not dep:
            out = out + ip * d.poly
        else:
            q = Poly({tuple(dep): 1})
            s = alg.app("sum", d.name, q, pos=alg._all_positive(q))
            from .absval import poly_dims
            ATOM_DIMS[s.is_var().idx] = frozenset(
                x for x in poly_dims(q) if x is not d and x.name != base)
            out = out + ip * s
    return out


def reduce_axes(a, axis):
    n = a.ndim
    if axis is None:
        return tuple(range(n))
    if isinstance(axis, (tuple, list)):
        return tuple(norm_axis(x, n) for x in axis)
    return (norm_axis(axis, n),)


def _seg_reps(d):
    """Plain dims of the representatives along an axis (None for concrete elements)."""
    if isinstance(d, int):
        return [None] * d
    if d.segs is not None:
        out = []
        for s in d.segs:
            out.extend(_seg_reps(s))
        return out
    if d.factors is not None:
        out = [()]
        for f in d.factors:
            r = _seg_reps(f)
            out = [x + ((y,) if y is not None else ()) for x in out for y in r]
        return [x if x else None for x in out]
    return [d]


def np_sum(a, axis=None, keepdims=False, kind=None):
    a = as_arr(a)
    if a.dtype == "b":
        a = conv(a, "i")
    axes = reduce_axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in axes]
    dims = [a.dims[k] for k in keep]
    data = a.data.transpose(keep + list(axes))
    out = np.empty(tuple(dlen(d) for d in dims), dtype=object)
    reps = [_seg_reps(a.dims[k]) for k in axes]
    zero = 0 if a.dtype == "i" else alg.ZERO
    for i in np.ndindex(*out.shape):
        s = zero
        sub = data[i] if len(axes) else obj0(data[i])
        for j in np.ndindex(*sub.shape):
            p = sub[j]
            for k, jj in enumerate(j):
                d = reps[k][jj]
                for q in (d if isinstance(d, tuple) else (d,)):
                    if q is not None:
                        p = sum_over_dim(p, q)
            s = s + p
        out[i] = abbrev(s) if isinstance(s, Poly) else s
    if keepdims:
        dims = [1 if k in axes else a.dims[k] for k in range(a.ndim)]
        out = out.reshape(tuple(dlen(d) for d in dims))
    return wrap(out, tuple(dims), a.dtype)


def reduce_generic(a, axis, fn, name, kind, keepdims=False):
    """Reduction with a host combiner over concrete axes; symbolic ones get an
    uninterpreted application."""
    a = as_arr(a)
    axes = reduce_axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in axes]
    dims = [a.dims[k] for k in keep]
    data = a.data.transpose(keep + list(axes))
    out = np.empty(tuple(dlen(d) for d in dims), dtype=object)
    sym = [str(a.dims[k]) for k in axes if isinstance(a.dims[k], Dim)]
    for i in np.ndindex(*out.shape):
        sub = data[i] if len(axes) else obj0(data[i])
        vals = [sub[j] for j in np.ndindex(*sub.shape)]
        if sym:
            vals = [over_dim(name, v, sym) for v in vals]
        if not vals:
            raise AbsRaise("ValueError", "zero-size array to reduction %s" % name)
        r = vals[0]
        for v in vals[1:]:
            r = fn(r, v)
        out[i] = r
    if keepdims:
        dims = [1 if k in axes else a.dims[k] for k in range(a.ndim)]
        out = out.reshape(tuple(dlen(d) for d in dims))
    return wrap(out, tuple(dims), kind or a.dtype)


def over_dim(name, v, sym):
    if isinstance(v, bool):
        return v
    if isinstance(v, Cond):
        if name == "any":
            return Cond("exists", (v, tuple(sym)))
        if name == "all":
            return Cond("exists", (v.invert(), tuple(sym)), True)
    if isinstance(v, int):
        return v
    p = topoly(v)
    if p.as_const() is not None and name != "prod":
        return p
    return alg.app(name, ",".join(sym), p, pos=alg._all_positive(p))


def np_any(a, axis=None, keepdims=False):
    a = conv(as_arr(a), "b")
    return reduce_generic(a, axis, lambda x, y: c_any([x, y]), "any", "b", keepdims) \
        if a.data.size else False


def np_all(a, axis=None, keepdims=False):
    a = conv(as_arr(a), "b")
    return reduce_generic(a, axis, lambda x, y: c_all([x, y]), "all", "b", keepdims) \
        if a.data.size else True


# -- products ------------------------------------------------------------------------------------------------


def einsum(sub, ops, out=None, opt_view=True):
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, res = sub.split("->")
    else:
        ins, res = sub, None
    parts = ins.split(",")
    if len(parts) != len(ops):
        raise AbsRaise("ValueError", "einsum: number of operands does not match '%s'" % sub)
    arrs = [as_arr(o) for o in ops]
    ell = []
    labels = []
    for s, a in zip(parts, arrs):
        core = s.replace("...", "")
        if any(not c.isalpha() for c in core):
            raise AbsRaise("ValueError", "einsum: invalid subscript in '%s'" % sub)
        ne = a.ndim - len(core)
        if "..." in s:
            if ne < 0:
                raise AbsRaise("ValueError", "einsum: operand has too few dimensions for '%s'"
                               % s)
            k = s.index("...")
            lab = list(s[:k]) + [("e", ne - 1 - j) for j in range(ne)] + list(s[k + 3:])
            ell.append(ne)
        else:
            if ne != 0:
                raise AbsRaise("ValueError", "einsum: operand has %d dimensions, subscript "
                               "'%s' has %d" % (a.ndim, s, len(core)))
            lab = list(s)
        labels.append(lab)
    nell = max(ell, default=0)
    ellipsis = [("e", nell - 1 - j) for j in range(nell)]
    if res is None:
        alls = [c for lab in labels for c in lab if isinstance(c, str)]
        rl = ellipsis + sorted(c for c in set(alls) if alls.count(c) == 1)
    else:
        core = res.replace("...", "")
        if len(set(core)) != len(core):
            raise AbsRaise("ValueError", "einsum: repeated output subscript in '%s'" % sub)
        if "..." in res:
            k = res.index("...")
            rl = list(res[:k]) + ellipsis + list(res[k + 3:])
        else:
            rl = list(res)
            if nell:
                raise AbsRaise("ValueError", "einsum: output has no ellipsis for broadcast "
                               "dimensions in '%s'" % sub)
    size = {}
    for lab, a in zip(labels, arrs):
        for c, d in zip(lab, a.dims):
            try:
                size[c] = bdim(size.get(c, 1), d)
            except AbsRaise:
                raise AbsRaise("ValueError", "einsum '%s': axis '%s' has lengths %s and %s"
                               % (sub, c, size.get(c), d))
    for c in rl:
        if c not in size:
            raise AbsRaise("ValueError", "einsum '%s': output subscript '%s' not in inputs"
                           % (sub, c))
    kind = result_kind([a.dtype for a in arrs])
    if kind == "b":
        kind = "i"

    # pure views
    if len(arrs) == 1 and out is None and len(set(labels[0])) == len(labels[0]) and \
            set(rl) == set(labels[0]) and opt_view:
        a = arrs[0]
        perm = [labels[0].index(c) for c in rl]
        if all(a.dims[p] == size[c] for p, c in zip(perm, rl)):
            return AArray(a.data.transpose(perm), [a.dims[p] for p in perm], a.dtype,
                          a.readonly)

    if len(arrs) == 1 and out is None and opt_view and set(rl) == set(labels[0]) and all(
            isinstance(size[c], int) for c in set(labels[0]) if labels[0].count(c) > 1):
        # generalised diagonals are views as well
        a, lab = arrs[0], list(labels[0])
        data = a.data
        while len(set(lab)) != len(lab):
            c = next(c for c in lab if lab.count(c) > 1)
            i = lab.index(c)
            j = lab.index(c, i + 1)
            if data.shape[i] != data.shape[j]:
                raise AbsRaise("ValueError", "einsum: diagonal of unequal axes")
            data = np.moveaxis(np.diagonal(data, axis1=i, axis2=j), -1, i)
            data.flags.writeable = True
            lab.pop(j)
        if all(dlen(size[c]) == k for c, k in zip(lab, data.shape)):
            return AArray(data.transpose([lab.index(c) for c in rl]), [size[c] for c in rl],
                          a.dtype, a.readonly)

    cur, curl = None, None
    for n, (lab, a) in enumerate(zip(labels, arrs)):
        data = a.data
        lab = list(lab)
        # diagonals
        while len(set(lab)) != len(lab):
            for c in lab:
                if lab.count(c) > 1:
                    i = lab.index(c)
                    j = lab.index(c, i + 1)
                    if isinstance(size[c], Dim):
                        data = np.take(data, 0, axis=j)
                    else:
                        if data.shape[i] != data.shape[j]:
                            raise AbsRaise("ValueError", "einsum: diagonal of unequal axes")
                        data = np.diagonal(data, axis1=i, axis2=j)
                        data = np.moveaxis(data, -1, i if i < j else j)
                    lab.pop(j)
                    break
        later = set(rl)
        for m in labels[n + 1:]:
            later |= set(m)
        if cur is None:
            cur, curl = data, lab
        else:
            union = list(curl) + [c for c in lab if c not in curl]
            cur, curl = _mulred(cur, curl, data, lab, union, size, later)
            continue
        cur, curl = _reduce(cur, curl, size, later)
    cur, curl = _reduce(cur, curl, size, set(rl))
    perm = [curl.index(c) for c in rl]
    dims = tuple(size[c] for c in rl)
    data = cur.transpose(perm)
    shp = tuple(dlen(d) for d in dims)
    data = np.broadcast_to(data, shp).copy()
    if CUR.abbr:
        flat = data.reshape(-1)
        for k in range(len(flat)):
            flat[k] = abbrev(flat[k])
        data = flat.reshape(shp)
    if out is not None:
        if tuple(out.dims) != dims:
            raise AbsRaise("ValueError", "einsum '%s': operand shape %s does not fit the out= "
                           "array of shape %s" % (sub, dims, out.dims))
        R = AArray(data, dims, kind)
        return store(out, R, "einsum out=")
    if not dims:
        return cast(data[()], kind)
    f = np.frompyfunc(lambda x: cast(x, kind), 1, 1)
    return AArray(f(data) if data.size else data, dims, kind)


def _axes_to(data, lab, union):
    perm = sorted(range(len(lab)), key=lambda k: union.index(lab[k]))
    d = data.transpose(perm)
    order = [lab[k] for k in perm]
    idx = tuple(slice(None) if c in order else None for c in union)
    return d[idx] if union else d


def _mulred(x, lx, y, ly, union, size, later):
    """Multiply two labelled arrays and sum labels that are not needed later."""
    X = _axes_to(x, lx, union)
    Y = _axes_to(y, ly, union)
    shp = np.broadcast_shapes(X.shape, Y.shape)
    X = np.broadcast_to(X, shp)
    Y = np.broadcast_to(Y, shp)
    keep = [c for c in union if c in later]
    drop = [c for c in union if c not in later]
    pk = [union.index(c) for c in keep] + [union.index(c) for c in drop]
    X, Y = X.transpose(pk), Y.transpose(pk)
    nk = len(keep)
    out = np.empty(X.shape[:nk], dtype=object)
    reps = [_label_reps(size[c], X.shape[nk + k]) for k, c in enumerate(drop)]
    for i in np.ndindex(*out.shape):
        xs, ys = X[i], Y[i]
        if not drop:
            out[i] = s_mul(xs, ys)
            continue
        s = None
        for j in np.ndindex(*X.shape[nk:]):
            a, b = xs[j], ys[j]
            if (a.__class__ is Poly and not a.t) or (b.__class__ is Poly and not b.t):
                continue
            v = s_mul(a, b)
            for k, jj in enumerate(j):
                d = reps[k][jj]
                for q in (d if isinstance(d, tuple) else (d,)):
                    if q is not None:
                        v = sum_over_dim(v, q) if isinstance(q, Dim) else v * q
            s = v if s is None else s + v
        out[i] = alg.ZERO if s is None else s
    return out, keep


def _label_reps(d, n):
    r = _seg_reps(d)
    if len(r) == n:
        return r
    # broadcast axis of length one summed over a longer label
    return [len(r)] * n


def _reduce(x, lx, size, later):
    drop = [c for c in lx if c not in later]
    if not drop:
        return x, lx
    one = np.empty((), dtype=object)
    one[()] = alg.ONE
    return _mulred(x, lx, one, [], list(lx), size, later)


def matmul(a, b):
    A, B = as_arr(a), as_arr(b)
    if A.ndim == 0 or B.ndim == 0:
        raise AbsRaise("ValueError", "matmul: input operand does not have enough dimensions")
    if A.ndim == 1 and B.ndim == 1:
        return einsum("i,i->", [A, B])
    if A.ndim == 1:
        return einsum("i,...ij->...j", [A, B])
    if B.ndim == 1:
        return einsum("...ij,j->...i", [A, B])
    return einsum("...ij,...jk->...ik", [A, B])


# -- attributes ------------------------------------------------------------------------------------------------


BOOL_ATTRS = {"shape", "ndim", "size", "dtype", "T", "copy", "any", "all", "astype", "item",
              "sum"}


def meth(fn, name):
    return HostFunc("ndarray." + name, lambda i, a, k: fn(*a, **k))


def array_attr(it, a, name):
    if name == "shape":
        return tuple(a.dims)
    if name == "ndim":
        return a.ndim
    if name == "size":
        p = total(a.dims)
        c = p.as_const()
        return c if c is not None else p
    if name == "T":
        return transpose(a)
    if name == "dtype":
        return DType(a.dtype)
    if name == "flat":
        return [getitem(reshape(a, (-1,)), k) for k in range(a.data.size)]
    if name == "base":
        # whether the caller hands over a view of a larger array is unknown
        label = getattr(a, "label", None)
        if label is not None:
            return HostObj("base of " + str(label)) if it.truth(
                Cond("opaque", ("base", str(label)))) else None
        return None if a.data.base is None else HostObj("base")
    if name == "real":
        return a
    if name == "flags":
        def getf(i, o, n):
            if n == "writeable":
                return not a.readonly
            return Cond("opaque", ("flags." + n,))
        return HostObj("flags", {"__getitem__": HostFunc("flags", lambda i, x, k: not a.readonly
                                                         if x[0] == "WRITEABLE" else True)},
                       getf)
    if name == "mT":
        return swapaxes(a, -1, -2)
    f = METHODS.get(name)
    if f is not None:
        return HostFunc("ndarray." + name, lambda i, x, k: hcall(f, name, [a] + x, k))
    if name == "imag":
        return AArray(fill(a.dims, cast(0, a.dtype), a.dtype).data, a.dims, a.dtype, True)
    if name in ("nbytes", "strides", "ctypes", "data", "itemsize"):
        return Top("ndarray." + name)
    if hasattr(np.ndarray, name):
        def nomodel(i, x, k):
            raise Unsupported("ndarray.%s has no transfer function" % name)
        return HostFunc("ndarray." + name, nomodel)
    raise AbsRaise("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)


def hcall(f, name, a, k):
    try:
        inspect.signature(f).bind(*a, **k)
    except TypeError as e:
        s = real_signature(name)
        if s is not None:
            try:
                s.bind(*a, **k)
            except TypeError as e:
                raise AbsRaise("TypeError", "%s(): %s" % (name, e))
        raise Unsupported("call of %s with %s" % (name, e))
    return f(*a, **k)


def real_signature(name, _c={}):
    """The call signature of the installed numpy's function or array method (recorded in
    npsig.json); None if it is not known."""
    if not _c:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "npsig.json")) as f:
            _c.update(json.load(f))
    r = _c.get(name)
    if r is None:
        r = _c.get("ndarray." + name)
        if r is not None:
            r = r if r and r[0][0] == "self" else [["self", 0, 0]] + r
    if r is None:
        return None
    P = inspect.Parameter
    try:
        return inspect.Signature([P(n, P.POSITIONAL_ONLY if k == 0 else [
            0, P.POSITIONAL_OR_KEYWORD, P.VAR_POSITIONAL, P.KEYWORD_ONLY, P.VAR_KEYWORD][k],
            **({"default": None} if d and k not in (2, 4) else {})) for n, k, d in r])
    except ValueError:
        return None


def array_setattr(it, a, name, v):
    if name == "flat":
        if any(isinstance(d, Dim) for d in a.dims):
            if not is_scalar(v):
                raise Unsupported("setting ndarray.flat")
            write(a, Ellipsis, cast(v, a.dtype))
            return
        w = conv(as_arr(v), a.dtype).data.ravel()
        for n, j in enumerate(np.ndindex(*a.data.shape)):
            write(a, j, w[n % len(w)])
        return
    if name == "shape":
        r = reshape(a, v)
        a.data, a.dims = r.data, r.dims
        return
    raise Unsupported("setting ndarray.%s" % name)


def scalar_attr(it, a, name):
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name in ("T", "real"):
        return a
    if name == "imag":
        return 0
    if name == "dtype":
        return DType(scalar_dtype(a))
    if name == "is_integer":
        return HostFunc("is_integer", lambda i, x, k: isinstance(a, int) or isinstance(
            topoly(a).as_const(), int))
    if name == "__class__":
        return DType(scalar_dtype(a))
    if name in ("reshape", "ravel", "flatten"):
        return array_attr(it, as_arr(a), name)
    if name in ("sum", "mean", "max", "min", "item", "copy", "squeeze", "transpose", "prod"):
        return HostFunc(name, lambda i, x, k: a)
    f = METHODS.get(name)
    if f is not None and not (isinstance(a, int) and not isinstance(a, bool)):
        return HostFunc("scalar." + name, lambda i, x, k: hcall(f, name, [as_arr(a)] + x, k))
    if isinstance(a, int) and hasattr(int, name):
        v = getattr(a, name)
        return HostFunc("int." + name, lambda i, x, k: v(*x, **k)) if callable(v) else v
    if isinstance(a, (Poly, Fraction)) and hasattr(np.float64, name):
        raise Unsupported("attribute %s of a number" % name)
    raise AbsRaise("AttributeError", "scalar has no attribute '%s'" % name)


METHODS = {}
