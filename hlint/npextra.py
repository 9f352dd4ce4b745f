"""Less common parts of the numpy namespace."""

from fractions import Fraction

import numpy as np

from . import alg, npm, nplib
from .absval import (AArray, AbsRaise, c_lt0, Dim, HostFunc, HostObj, TypeTok, Unsupported)
from .alg import topoly
from .npm import as_arr, cast, dtype_kind, elementwise, is_scalar, write
from .nplib import cur, FUNCS, lreg, M, reg, ufunc

_F = lambda kinds: "f"  # noqa: E731

# -- ufuncs -----------------------------------------------------------------------------------


def _const(x):
    return topoly(npm._num(x)).as_const()


def _apply(name, exact=None):
    def f(*args):
        ps = [topoly(npm._num(x)) for x in args]
        if exact is not None:
            cs = [p.as_const() for p in ps]
            if all(c is not None for c in cs):
                r = exact(*cs)
                if r is not None:
                    return topoly(r)
        return alg.app(name, *ps)
    return f


def _floor(c):
    return c.numerator // c.denominator if isinstance(c, Fraction) else c


for _n, _e in (("floor", _floor), ("ceil", lambda c: -_floor(-c)),
               ("trunc", lambda c: _floor(c) if c >= 0 else -_floor(-c)),
               ("rint", lambda c: round(c)), ("fix", None)):
    ufunc(_n, _apply("trunc" if _n == "fix" else _n,
                     _e or (lambda c: _floor(c) if c >= 0 else -_floor(-c))), 1, _F)
ufunc("exp2", lambda x: npm.s_pow(2, topoly(npm._num(x))), 1, _F)
ufunc("deg2rad", lambda x: topoly(npm._num(x)) * alg.var("pi", pos=True) * Fraction(1, 180), 1,
      _F)
ufunc("rad2deg", lambda x: npm.np_div(topoly(npm._num(x)) * 180, alg.var("pi", pos=True)), 1,
      _F)
FUNCS["radians"], FUNCS["degrees"] = FUNCS["deg2rad"], FUNCS["rad2deg"]
for _n in ("arcsinh", "arccosh", "arctanh"):
    ufunc(_n, _apply(_n), 1, _F)
ufunc("arctan2", _apply("arctan2"), 2, _F)
ufunc("logaddexp", lambda a, b: nplib.s_log(nplib.s_exp(a) + nplib.s_exp(b)), 2, _F)
ufunc("copysign", lambda a, b: nplib.s_abs(a) * (-1 if cur().decide(c_lt0(
    topoly(npm._num(b)))) else 1), 2, _F)
ufunc("heaviside", lambda a, h: (lambda s: 0 if s == -1 else h if s == 0 else 1)(
    nplib.s_sign(a)), 2, _F)


def _fmod(a, b):
    x, y = _const(a), _const(b)
    if x is not None and y:
        q = Fraction(x) / Fraction(y)
        return topoly(x - y * (_floor(q) if q >= 0 else -_floor(-q)))
    return alg.app("fmod", topoly(npm._num(a)), topoly(npm._num(b)))


ufunc("fmod", _fmod, 2, nplib._arith)


def _recip(x):
    if isinstance(x, int) and not isinstance(x, bool):
        if x == 0:
            return npm.np_div(1, x)
        return 1 // x if x > 0 else -(1 // -x)
    return npm.np_div(1, x)


class _Reciprocal(nplib.UFunc):
    """Integers stay integers: the result is truncated."""

    def __call__(self, *args, **kw):
        a = as_arr(args[0]) if args else None
        if a is not None and a.dtype == "i" and kw.get("dtype") is None:
            r = elementwise(lambda x: cast(npm.np_div(1, x), "i"), [a], "i")
            out = kw.get("out")
            return r if out is None else npm.store(out, r, "reciprocal out=")
        return super().__call__(*args, **kw)


FUNCS["reciprocal"] = _Reciprocal("reciprocal", lambda x: npm.np_div(1, x), 1, _F)
ufunc("divmod", None, 2, _F)
FUNCS["divmod"] = lambda a, b: (FUNCS["floor_divide"](a, b), FUNCS["remainder"](a, b))
ufunc("gcd", lambda a, b: int(np.gcd(cur().conc_int(a), cur().conc_int(b))), 2, nplib._arith)


@reg()
def real(val):
    return val


@reg("conj", "conjugate")
def conj(x):
    return nplib.array(x) if isinstance(x, AArray) else x


@reg()
def imag(val):
    return FUNCS["zeros_like"](val)


@reg()
def isrealobj(x):
    return True


@reg()
def iscomplexobj(x):
    return False


@reg()
def isreal(x):
    return FUNCS["ones_like"](x, dtype=npm.DType("b"))


@reg()
def iscomplex(x):
    return FUNCS["zeros_like"](x, dtype=npm.DType("b"))


# -- construction and rearrangement -------------------------------------------------------------


@reg()
def diagflat(v, k=0):
    return nplib.diag(npm.reshape(as_arr(v), (-1,)), k)


@reg()
def fromiter(iter, dtype, count=-1):
    it = list(cur().iterate(iter))
    if isinstance(count, int) and count >= 0:
        it = it[:count]
    return nplib.array(it, dtype=dtype) if it else nplib.zeros(0, dtype=dtype)


@reg()
def fromfunction(function, shape, dtype=None, **kw):
    g = nplib.indices(tuple(cur().iterate(shape)))
    k = dtype_kind(dtype) or "f"
    args = [npm.conv(as_arr(npm.getitem(g, j)), k) for j in range(g.dims[0])]
    return cur().call(function, args, kw)


@reg()
def atleast_3d(*arys):
    out = []
    for a in arys:
        a = as_arr(a)
        if a.ndim == 0:
            a = npm.reshape(a, (1, 1, 1))
        elif a.ndim == 1:
            a = npm.expand_dims(npm.expand_dims(a, 0), -1)
        elif a.ndim == 2:
            a = npm.expand_dims(a, -1)
        out.append(a)
    return out[0] if len(out) == 1 else tuple(out)


@reg()
def dstack(tup):
    return nplib._concat([atleast_3d(a) for a in cur().iterate(tup)], 2)


@reg()
def vsplit(ary, n):
    if as_arr(ary).ndim < 2:
        raise AbsRaise("ValueError", "vsplit only works on arrays of 2 or more dimensions")
    return nplib.split(ary, n, 0)


@reg()
def dsplit(ary, n):
    if as_arr(ary).ndim < 3:
        raise AbsRaise("ValueError", "dsplit only works on arrays of 3 or more dimensions")
    return nplib.split(ary, n, 2)


@reg()
def block(arrays):
    def depth(x):
        return 1 + max([depth(y) for y in x], default=0) if isinstance(x, list) else 0
    n = depth(arrays)

    def full(x):
        if isinstance(x, list):
            for y in x:
                yield from full(y)
        else:
            yield as_arr(x)
    leaves = list(full(arrays))
    nd = max([n] + [a.ndim for a in leaves])

    def build(x, level):
        if isinstance(x, list):
            return nplib._concat([build(y, level + 1) for y in x], nd - n + level)
        a = as_arr(x)
        while a.ndim < nd:
            a = npm.expand_dims(a, 0)
        return a
    return nplib.array(build(arrays, 0))


@reg()
def flipud(m):
    return nplib.flip(m, 0)


@reg()
def fliplr(m):
    return nplib.flip(m, 1)


@reg()
def rot90(m, k=1, axes=(0, 1)):
    a = as_arr(m)
    x, y = [npm.norm_axis(q, a.ndim) for q in axes]
    k = cur().conc_int(k) % 4
    if k == 0:
        return nplib.flip(nplib.flip(a, x), x)
    if k == 2:
        return nplib.flip(nplib.flip(a, x), y)
    p = list(range(a.ndim))
    p[x], p[y] = p[y], p[x]
    if k == 1:
        return npm.transpose(nplib.flip(a, y), p)
    return nplib.flip(npm.transpose(a, p), y)


def _keep(n, obj):
    if isinstance(obj, slice):
        drop = list(range(n))[obj]
    else:
        o = as_arr(obj)
        if o.dtype == "b":
            drop = [k for k in range(n) if cur().decide(o.data.ravel()[k])]
        else:
            drop = [cur().conc_int(x) for x in o.data.ravel()]
    for k in drop:
        if not -n <= k < n:
            raise AbsRaise("IndexError", "index %d is out of bounds for axis with size %d"
                           % (k, n))
    drop = {k % n for k in drop}
    return [k for k in range(n) if k not in drop]


@reg()
def delete(arr, obj, axis=None):
    a = as_arr(arr)
    if axis is None:
        a, axis = npm.reshape(a, (-1,)), 0
    axis = npm.norm_axis(axis, a.ndim)
    n = a.dims[axis]
    if isinstance(n, Dim):
        raise Unsupported("delete along a symbolic axis")
    idx = [slice(None)] * a.ndim
    idx[axis] = _keep(n, obj)
    return AArray(a.data[tuple(idx)].copy(), a.dims[:axis] + (len(idx[axis]),)
                  + a.dims[axis + 1:], a.dtype)


@reg()
def insert(arr, obj, values, axis=None):
    a = as_arr(arr)
    if axis is None:
        a, axis = npm.reshape(a, (-1,)), 0
    axis = npm.norm_axis(axis, a.ndim)
    n = a.dims[axis]
    if isinstance(n, Dim) or not is_scalar(obj):
        raise Unsupported("insert along a symbolic axis or at several places")
    k = cur().conc_int(obj)
    if not -n <= k <= n:
        raise AbsRaise("IndexError", "index %d is out of bounds" % k)
    k = k + n if k < 0 else k
    v = npm.conv(as_arr(values), a.dtype)
    if v.ndim >= 1:
        v = npm.moveaxis(v, 0, axis) if v.ndim == a.ndim else v
    one = [v] if v.ndim == a.ndim else None
    dims = a.dims[:axis] + (v.dims[axis] if one else 1,) + a.dims[axis + 1:]
    if one is None and v.ndim == 1 and a.ndim == 1:
        dims = v.dims
    mid = npm.broadcast_to(v, dims)
    lo = [slice(None)] * a.ndim
    hi = list(lo)
    lo[axis], hi[axis] = slice(None, k), slice(k, None)
    return nplib._concat([npm.getitem(a, tuple(lo)), mid, npm.getitem(a, tuple(hi))], axis)


@reg("concat")
def concat(arrays, axis=0, out=None, dtype=None, casting=None):
    return FUNCS["concatenate"](arrays, axis, **({} if out is None else {"out": out}))


@reg()
def unstack(x, axis=0):
    a = npm.moveaxis(as_arr(x), axis, 0)
    if isinstance(a.dims[0], Dim):
        raise Unsupported("unstack along a symbolic axis")
    return tuple(npm.getitem(a, k) for k in range(a.dims[0]))


@reg()
def choose(a, choices, out=None, mode="raise"):
    ch = [as_arr(x) for x in cur().iterate(choices)]
    if mode != "raise":
        raise Unsupported("choose mode")

    def pick(k, *xs):
        k = cur().conc_int(k)
        if not 0 <= k < len(xs):
            raise AbsRaise("ValueError", "invalid entry in choice array")
        return xs[k]
    r = elementwise(pick, [as_arr(a)] + ch, npm.result_kind([c.dtype for c in ch]))
    return r if out is None else npm.store(out, r, "choose out=")


def _known(a, what):
    if any(isinstance(d, Dim) for d in a.dims):
        raise Unsupported("%s of a symbolic axis" % what)


@reg()
def put(a, ind, v, mode="raise"):
    _known(a, "put")
    i = [cur().conc_int(x) for x in as_arr(ind).data.ravel()]
    vals = as_arr(v).data.ravel()
    idx = list(np.ndindex(*a.data.shape))
    for j, k in enumerate(i):
        if not -len(idx) <= k < len(idx):
            raise AbsRaise("IndexError", "index out of bounds")
        write(a, idx[k], cast(vals[j % len(vals)], a.dtype))


def at(f, a, idx, b=None):
    """ufunc.at: unbuffered, repeated indices accumulate."""
    if not isinstance(a, AArray):
        raise AbsRaise("TypeError", "first operand must be array")
    t = idx if isinstance(idx, tuple) else (idx,)
    ks = [as_arr(x) if isinstance(x, (list, AArray)) else x for x in t]
    n = next((x.dims[0] for x in ks if isinstance(x, AArray) and x.ndim == 1), None)
    if any(isinstance(x, AArray) and (x.ndim != 1 or x.dtype == "b" or x.dims[0] != n)
           for x in ks) or isinstance(n, Dim):
        raise Unsupported("%s.at with these indices" % f.name)
    for j in range(1 if n is None else n):
        i = tuple(cur().conc_int(x.data[j]) if isinstance(x, AArray) else x for x in ks)
        y = as_arr(npm.getitem(a, i))
        if b is None:
            r = f(y)
        else:
            B = as_arr(b)
            if n is not None and B.ndim and B.ndim > y.ndim:
                B = as_arr(npm.getitem(B, 0 if B.dims[0] == 1 else j))
            r = f(y, B)
        npm.setitem(a, i, r)


nplib._uat = at


def accumulate(f, a, axis=0, dtype=None, out=None):
    if f.name == "add":
        return nplib.cumsum(a, axis)
    A = as_arr(a)
    axis = npm.norm_axis(axis, A.ndim)
    if isinstance(A.dims[axis], Dim):
        raise Unsupported("%s.accumulate along a symbolic axis" % f.name)
    b = npm.moveaxis(A, axis, 0)
    rows = []
    for k in range(A.dims[axis]):
        x = npm.getitem(b, k)
        rows.append(x if not rows else f(rows[-1], x))
    return npm.moveaxis(nplib.stack(rows), 0, axis)


nplib._uaccumulate = accumulate


@reg()
def cumprod(a, axis=None, dtype=None, out=None):
    a = as_arr(a)
    if axis is None:
        a, axis = npm.reshape(a, (-1,)), 0
    return accumulate(FUNCS["multiply"], a, axis)


@reg()
def ptp(a, axis=None, out=None, keepdims=False):
    return npm.binop("Sub", nplib.max_(a, axis, None, keepdims),
                     nplib.min_(a, axis, None, keepdims))


def _extreme(a, axis, less):
    a = as_arr(a)
    if axis is None:
        a, axis = npm.reshape(a, (-1,)), 0
    b = npm.moveaxis(a, axis, 0)
    if isinstance(b.dims[0], Dim):
        raise Unsupported("argmax along a symbolic axis")
    out = np.empty(b.data.shape[1:], dtype=object)
    for j in np.ndindex(*out.shape):
        col = [topoly(npm._num(b.data[(k,) + j])) for k in range(b.dims[0])]
        best = 0
        for k in range(1, len(col)):
            d = col[k] - col[best] if less else col[best] - col[k]
            if cur().truth(c_lt0(d)):
                best = k
        out[j] = best
    return npm.wrap(out, b.dims[1:], "i")


@reg()
def argmax(a, axis=None, out=None, keepdims=False):
    return _extreme(a, axis, False)


@reg()
def argmin(a, axis=None, out=None, keepdims=False):
    return _extreme(a, axis, True)


@reg()
def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    s = nplib.sort(a, -1 if axis is None else axis)
    s = npm.moveaxis(s, -1 if axis is None else axis, 0)
    n = s.dims[0]
    if isinstance(n, Dim) or axis is None and s.ndim != 1:
        raise Unsupported("median along a symbolic axis")
    if n % 2:
        return npm.binop("Mult", npm.getitem(s, n // 2), Fraction(1))
    return npm.binop("Div", npm.binop("Add", npm.getitem(s, n // 2 - 1),
                                      npm.getitem(s, n // 2)), 2)


@reg()
def polyval(p, x):
    r = 0
    for c in cur().iterate(p):
        r = npm.binop("Add", npm.binop("Mult", r, x), c)
    return r


@reg()
def apply_over_axes(func, a, axes):
    a = as_arr(a)
    for x in (axes if isinstance(axes, (list, tuple)) else [axes]):
        r = as_arr(cur().call(func, [a, x], {}))
        a = r if r.ndim == a.ndim else npm.expand_dims(r, x)
    return a


@reg()
def piecewise(x, condlist, funclist, *args, **kw):
    x = as_arr(x)
    conds = list(condlist) if isinstance(condlist, (list, tuple)) else [condlist]
    funs = list(funclist)
    y = nplib.zeros_like(x)
    if len(funs) == len(conds) + 1:
        rest = FUNCS["logical_not"](conds[0])
        for c in conds[1:]:
            rest = FUNCS["logical_and"](rest, FUNCS["logical_not"](c))
        conds = conds + [rest]
    elif len(funs) != len(conds):
        raise AbsRaise("ValueError", "with %d condition(s), either %d or %d functions are "
                       "expected" % (len(conds), len(conds), len(conds) + 1))
    for c, f in zip(conds, funs):
        if is_scalar(f):
            y = FUNCS["where"](c, npm.conv(as_arr(f), x.dtype), y)
        else:
            y = FUNCS["where"](c, cur().call(f, [x] + list(args), kw), y)
    return y


@reg()
def vander(x, N=None, increasing=False):
    a = as_arr(x)
    n = a.dims[0] if N is None else N
    cols = [npm.binop("Pow", a, k) for k in range(n)]
    if not increasing:
        cols.reverse()
    return nplib.stack(cols, axis=-1)


@reg()
def interp(x, xp, fp, left=None, right=None, period=None):
    raise Unsupported("numpy.interp has no transfer function")


@reg("vecdot")
def vecdot(x1, x2, axis=-1):
    A, B = npm.moveaxis(as_arr(x1), axis, -1), npm.moveaxis(as_arr(x2), axis, -1)
    return npm.einsum("...i,...i->...", [A, B])


@reg("matvec")
def matvec(x1, x2):
    return npm.einsum("...ij,...j->...i", [as_arr(x1), as_arr(x2)])


@reg("vecmat")
def vecmat(x1, x2):
    return npm.einsum("...i,...ij->...j", [as_arr(x1), as_arr(x2)])


@reg("matrix_transpose")
def matrix_transpose(x):
    return npm.swapaxes(as_arr(x), -1, -2)


@reg()
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    A, B = npm.moveaxis(as_arr(a), axisa, 0), npm.moveaxis(as_arr(b), axisb, 0)
    if A.dims[0] != 3 or B.dims[0] != 3:
        if A.dims[0] in (2, 3) and B.dims[0] in (2, 3):
            raise Unsupported("cross product of two-dimensional vectors")
        raise AbsRaise("ValueError", "incompatible dimensions for cross product (dimension "
                       "must be 2 or 3)")
    g = npm.getitem
    m, s = (lambda p, q: npm.binop("Mult", p, q)), (lambda p, q: npm.binop("Sub", p, q))
    r = nplib.stack([s(m(g(A, 1), g(B, 2)), m(g(A, 2), g(B, 1))),
                     s(m(g(A, 2), g(B, 0)), m(g(A, 0), g(B, 2))),
                     s(m(g(A, 0), g(B, 1)), m(g(A, 1), g(B, 0)))])
    return npm.moveaxis(r, 0, axisc)


@reg()
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return nplib.mean(a, axis, **({"keepdims": True} if keepdims else {}))
    A, w = as_arr(a), as_arr(weights)
    if axis is not None and w.ndim == 1 and A.ndim > 1:
        ax = npm.norm_axis(axis, A.ndim)
        if w.dims[0] != A.dims[ax]:
            raise AbsRaise("ValueError", "Length of weights not compatible with specified "
                           "axis.")
        w = npm.reshape(w, w.dims + (1,) * (A.ndim - 1 - ax))
        tot = npm.np_sum(npm.reshape(w, (-1,)))
    else:
        tot = npm.np_sum(w, axis)
    return npm.binop("Div", npm.np_sum(npm.binop("Mult", A, w), axis), tot)


# -- linear algebra ---------------------------------------------------------------------------


@lreg("multi_dot")
def l_multi_dot(arrays, out=None):
    arrs = list(cur().iterate(arrays))
    r = arrs[0]
    for a in arrs[1:]:
        r = nplib.dot(r, a)
    return r


@lreg("matrix_transpose")
def l_mt(x):
    return npm.swapaxes(as_arr(x), -1, -2)


@lreg("trace")
def l_trace(x, offset=0, dtype=None):
    return nplib.trace(x, offset, -2, -1)


@lreg("diagonal")
def l_diagonal(x, offset=0):
    return nplib.diagonal(x, offset, -2, -1)


@lreg("outer")
def l_outer(x1, x2):
    return nplib.outer(x1, x2)


@lreg("cross")
def l_cross(x1, x2, axis=-1):
    return cross(x1, x2, axis=axis)


@lreg("vecdot")
def l_vecdot(x1, x2, axis=-1):
    return vecdot(x1, x2, axis)


@lreg("matmul")
def l_matmul(x1, x2):
    return npm.matmul(x1, x2)


@lreg("tensordot")
def l_tensordot(x1, x2, axes=2):
    return nplib.tensordot(x1, x2, axes)


@lreg("vector_norm")
def l_vnorm(x, axis=None, keepdims=False, ord=2):
    return nplib.l_norm(npm.reshape(as_arr(x), (-1,)) if axis is None else x,
                        None if ord == 2 else ord, axis, keepdims)


@lreg("matrix_norm")
def l_mnorm(x, keepdims=False, ord="fro"):
    if ord != "fro":
        raise Unsupported("matrix norm %r" % ord)
    return nplib.l_norm(x, None, (-2, -1), keepdims)


@lreg("slogdet")
def l_slogdet(a):
    d = nplib.LINALG["det"](a)
    r = (FUNCS["sign"](d), FUNCS["log"](FUNCS["absolute"](d)))
    return HostObj("SlogdetResult", {"sign": r[0], "logabsdet": r[1],
                                     "__iter__": HostFunc("iter", lambda i, x, k: iter(r)),
                                     "__getitem__": HostFunc("item", lambda i, x, k: r[x[0]])})


# -- types --------------------------------------------------------------------------------------


@reg()
def issubdtype(arg1, arg2):
    k = dtype_kind(arg1)
    n = arg2.name if isinstance(arg2, TypeTok) else None
    if n == "generic":
        return True
    if n == "number":
        return k in "if"
    if n in ("floating", "inexact", "float64", "integer", "signedinteger", "int64", "bool_"):
        return k == {"f": "f", "i": "f" if n == "inexact" else "i", "s": "i",
                     "b": "b"}[n[0]]
    return k == dtype_kind(arg2)


@reg()
def can_cast(from_, to, casting="safe"):
    if isinstance(from_, AArray):
        from_ = npm.DType(from_.dtype)
    a, b = dtype_kind(from_), dtype_kind(to)
    if casting == "unsafe":
        return True
    o = "bif"
    if casting in ("no", "equiv"):
        return npm.same_kind(a, b)
    if casting == "safe" and isinstance(b, npm.Narrow):
        return isinstance(a, npm.Narrow) and (a.name == b.name or b is npm.SINGLE) or a == "b"
    return o.index(a) <= o.index(b)


class Grid(HostObj):
    pass


def _grid(sparse):
    def get(i, a, k):
        x = a[0]
        one = not isinstance(x, tuple)
        xs = []
        for s in (x,) if one else x:
            if not isinstance(s, slice) or isinstance(s.step, complex):
                raise Unsupported("mgrid with this index")
            xs.append(nplib.arange(0 if s.start is None else s.start, s.stop,
                                   1 if s.step is None else s.step))
        if one:
            return xs[0]
        g = nplib.meshgrid(*xs, indexing="ij", sparse=sparse)
        return tuple(g) if sparse else nplib.stack(g)
    return HostObj("grid", {"__getitem__": HostFunc("grid", get)})


EXTRA = {"mgrid": lambda: _grid(False), "ogrid": lambda: _grid(True)}

# -- exact evaluation of library functions on numbers ------------------------------------------


def fold(name, a, k):
    """A function without a transfer function, applied to integers, booleans and strings
    only (index computations), is evaluated by numpy itself if the result consists of
    integers or booleans as well."""
    def conc(x):
        if isinstance(x, AArray):
            if x.dtype not in "ib" or any(isinstance(d, Dim) for d in x.dims):
                raise ValueError
            o = [conc(y) for y in x.data.ravel()]
            return np.array(o, dtype=int if x.dtype == "i" else bool).reshape(x.data.shape)
        if isinstance(x, (bool, int, str, type(None))):
            return x
        if isinstance(x, alg.Poly):
            c = x.as_const()
            if isinstance(c, int) and not isinstance(c, bool):
                return c
            raise ValueError
        if isinstance(x, (list, tuple)):
            return type(x)(conc(y) for y in x)
        raise ValueError

    def back(r):
        if isinstance(r, tuple):
            return tuple(back(y) for y in r)
        if isinstance(r, list):
            return [back(y) for y in r]
        if isinstance(r, np.ndarray) and r.dtype.kind in "iub":
            o = np.empty(r.shape, dtype=object)
            for j in np.ndindex(*r.shape):
                o[j] = bool(r[j]) if r.dtype.kind == "b" else int(r[j])
            return AArray(o, r.shape, "b" if r.dtype.kind == "b" else "i")
        if isinstance(r, (bool, np.bool_)):
            return bool(r)
        if isinstance(r, (int, np.integer)):
            return int(r)
        raise ValueError
    try:
        args, kw = conc(tuple(a)), {n: conc(v) for n, v in k.items()}
        f = getattr(np, name)
        if not callable(f) or isinstance(f, type):
            return NotImplemented
        r = f(*args, **kw)
        return back(r)
    except Exception:  # noqa: BLE001
        return NotImplemented


PURE = {"unique", "isin", "in1d", "intersect1d", "union1d", "setdiff1d", "setxor1d",
        "unravel_index", "ravel_multi_index", "searchsorted", "digitize", "lexsort",
        "partition", "argpartition", "bincount", "pad", "resize", "trim_zeros", "ediff1d",
        "convolve", "correlate", "packbits", "flatnonzero", "mask_indices", "tri", "lcm",
        "einsum_path", "base_repr", "binary_repr", "array_equiv", "select", "interp",
        "left_shift", "right_shift", "bitwise_count", "unique_values", "histogram",
        "diag_indices", "apply_over_axes", "median", "percentile", "quantile"}

# -- methods -------------------------------------------------------------------------------------


def _m_sort(a, axis=-1, kind=None, order=None):
    write(a, Ellipsis, np.broadcast_to(nplib.sort(a, axis).data, a.data.shape))


def _m_partition(a, *x, **k):
    raise Unsupported("ndarray.partition")


def _m_put(a, indices, values, mode="raise"):
    put(a, indices, values, mode)


M.update({"sort": _m_sort, "put": _m_put, "cumprod": cumprod, "argmax": argmax,
          "argmin": argmin, "choose": choose, "ptp": None})
del M["ptp"]
assert Grid and _m_partition
