"""The numpy namespace (abstract)."""

from fractions import Fraction

import numpy as np

from . import alg, npm
from .absval import (AArray, AbsRaise, ATOM_DIMS, Cond, Dim, HostFunc, HostObj, Top, TypeTok,
                     Unsupported, base_dims, c_all, c_any, c_eq0, c_lt0, c_not, dlen, dpoly,
                     poly_dims, prod_dim, seg_dim, to_dim)
from .alg import Poly, topoly
from .npm import (DType, as_arr, bdims, cast, conv, dtype_kind, elementwise, from_nested,
                  is_scalar, obj0, result_kind, scalar_dtype, store, wrap, write)

FUNCS = {}


def cur():
    return npm.CUR


def reg(*names):
    def deco(f):
        for n in names or (f.__name__,):
            FUNCS[n] = f
        return f
    return deco


def need_array(x):
    return as_arr(x)


# -- creation ---------------------------------------------------------------------------------


def new(dims, x, kind):
    d = np.empty(tuple(dlen(k) for k in dims), dtype=object)
    d.fill(x)
    return AArray(d, dims, kind)


@reg()
def zeros(shape, dtype=None, order="C"):
    k = dtype_kind(dtype) or "f"
    return new(npm.shape_arg(shape), cast(0, k), k)


@reg()
def ones(shape, dtype=None, order="C"):
    k = dtype_kind(dtype) or "f"
    return new(npm.shape_arg(shape), cast(1, k), k)


_UNINIT = [0]


def _uninit(dims, k):
    d = np.empty(tuple(dlen(q) for q in dims), dtype=object)
    for i in np.ndindex(*d.shape):
        _UNINIT[0] += 1
        d[i] = alg.var("uninitialised#%d" % _UNINIT[0])
    return AArray(d, dims, k)


@reg()
def empty(shape, dtype=None, order="C"):
    return _uninit(npm.shape_arg(shape), dtype_kind(dtype) or "f")


@reg()
def full(shape, fill_value, dtype=None, order="C"):
    dims = npm.shape_arg(shape)
    v = as_arr(fill_value)
    k = dtype_kind(dtype) or v.dtype
    a = new(dims, cast(0, k), k)
    write(a, Ellipsis, np.broadcast_to(conv(v, k).data, a.data.shape))
    return a


def _like(a, shape):
    a = as_arr(a)
    return a, (a.dims if shape is None else npm.shape_arg(shape))


@reg()
def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    a, dims = _like(a, shape)
    k = dtype_kind(dtype) or a.dtype
    return new(dims, cast(0, k), k)


@reg()
def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    a, dims = _like(a, shape)
    k = dtype_kind(dtype) or a.dtype
    return new(dims, cast(1, k), k)


@reg()
def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    a, dims = _like(a, shape)
    return _uninit(dims, dtype_kind(dtype) or a.dtype)


@reg()
def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a, dims = _like(a, shape)
    return full(dims, fill_value, dtype=DType(dtype_kind(dtype) or a.dtype))


@reg("eye")
def eye_(N, M=None, k=0, dtype=None):
    n, m = npm.shape_arg(N)[0], npm.shape_arg(N if M is None else M)[0]
    if not isinstance(n, int) or not isinstance(m, int):
        raise Unsupported("eye of a symbolic size")
    kd = dtype_kind(dtype) or "f"
    a = new((n, m), cast(0, kd), kd)
    for i in range(n):
        if 0 <= i + k < m:
            a.data[i, i + k] = cast(1, kd)
    return a


@reg()
def identity(n, dtype=None):
    return eye_(n, dtype=dtype)


@reg()
def tri(N, M=None, k=0, dtype=None):
    kd = dtype_kind(dtype) or "f"
    m = N if M is None else M
    a = new((N, m), cast(0, kd), kd)
    for i in range(N):
        for j in range(m):
            if j <= i + k:
                a.data[i, j] = cast(1, kd)
    return a


def _has_host_array(x):
    return isinstance(x, HostObj) and "__array__" in x.attrs


@reg()
def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if x is None:
        raise Unsupported("array of None")
    a = as_arr(x)
    k = dtype_kind(dtype) or a.dtype
    r = conv(a, k)
    if r is a or r.data is a.data:
        r = AArray(a.data.copy(), a.dims, k) if copy else AArray(a.data, a.dims, k, a.readonly)
    if r.readonly and copy:
        r = AArray(r.data.copy(), r.dims, k)
    while r.ndim < ndmin:
        r = npm.expand_dims(r, 0)
    return r


@reg()
def ascontiguousarray(a, dtype=None, like=None):
    r = asarray(a, dtype)
    if r.ndim == 0:
        return npm.reshape(r, (1,))
    return r if r.data.flags.c_contiguous else array(r)


@reg("asarray", "asanyarray", "require", "asfortranarray")
def asarray(x, dtype=None, order=None, copy=None, like=None):
    if copy:
        return array(x, dtype)
    if isinstance(x, AArray):
        k = dtype_kind(dtype)
        if k is None or npm.same_kind(k, x.dtype):
            return x
    if x is None:
        raise Unsupported("array of None")
    a = as_arr(x)
    k = dtype_kind(dtype) or a.dtype
    r = conv(a, k)
    return r if r is not x else x


@reg()
def copy(a, order="K", subok=False):
    return array(a)


@reg()
def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    vals = [start, stop, step]
    if all(isinstance(v, int) for v in vals):
        return from_nested(list(range(*vals))) if len(range(*vals)) else \
            AArray(np.empty((0,), dtype=object), (0,), "i")
    cs = [topoly(npm.norm_scalar(v)).as_const() for v in vals]
    if all(c is not None for c in cs):
        out, v = [], Fraction(cs[0])
        while v < cs[1]:
            out.append(topoly(v))
            v += cs[2]
        return from_nested(out)
    raise Unsupported("arange with symbolic bounds")


@reg()
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(num, int) and num <= 12 and not retstep:
        n = num - 1 if endpoint else num
        return from_nested([
            npm.s_add(start, npm.s_mul(npm.s_sub(stop, start), topoly(Fraction(k, n))))
            if n else topoly(start) for k in range(num)])
    d = to_dim(num) if not isinstance(num, int) else Dim("linspace%d" % num)
    p = alg.app("linspace", str(num), topoly(start), topoly(stop))
    ATOM_DIMS[p.is_var().idx] = frozenset([d])
    return AArray(np.array([p], dtype=object), (d,), "f")


@reg()
def triu_indices(n, k=0, m=None):
    return _idx(np.triu_indices(cur().conc_int(n), cur().conc_int(k), m))


@reg()
def tril_indices(n, k=0, m=None):
    return _idx(np.tril_indices(cur().conc_int(n), cur().conc_int(k), m))


@reg()
def diag_indices(n, ndim=2):
    return _idx(np.diag_indices(cur().conc_int(n), ndim))


@reg()
def triu_indices_from(a, k=0):
    return triu_indices(as_arr(a).dims[0], k)


@reg()
def tril_indices_from(a, k=0):
    return tril_indices(as_arr(a).dims[0], k)


def _idx(t):
    out = []
    for a in t:
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = int(a[i])
        out.append(AArray(o, a.shape, "i"))
    return tuple(out)


@reg()
def indices(dimensions, dtype=None, sparse=False):
    a = np.indices(tuple(cur().conc_int(d) for d in dimensions))
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        o[i] = int(a[i])
    return AArray(o, a.shape, "i")


@reg()
def ix_(*args):
    n = len(args)
    out = []
    for k, a in enumerate(args):
        a = as_arr(a)
        out.append(npm.reshape(a, (1,) * k + (a.dims[0],) + (1,) * (n - k - 1)))
    return tuple(out)


@reg()
def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return list(np.ndindex(*[cur().conc_int(s) for s in shape]))


@reg()
def ndenumerate(a):
    a = as_arr(a)
    if any(isinstance(d, Dim) for d in a.dims):
        raise Unsupported("ndenumerate over a symbolic axis")
    return [(i, a.data[i]) for i in np.ndindex(*a.data.shape)]


@reg()
def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    arrs = [npm.reshape(as_arr(x), (-1,)) for x in xs]
    n = len(arrs)
    out = []
    for k, a in enumerate(arrs):
        sh = [1] * n
        sh[k] = a.dims[0]
        out.append(npm.reshape(a, tuple(sh)))
    dims = tuple(a.dims[0] for a in arrs)
    if not sparse:
        out = [array(npm.broadcast_to(a, dims)) for a in out]
    if indexing == "xy" and n > 1:
        out = [npm.swapaxes(a, 0, 1) for a in out]
    return out


@reg()
def diag(v, k=0):
    v = as_arr(v)
    if v.ndim == 1:
        if isinstance(v.dims[0], Dim):
            raise Unsupported("diag of a symbolic axis")
        n = v.dims[0] + abs(k)
        a = new((n, n), cast(0, v.dtype), v.dtype)
        for i in range(v.dims[0]):
            a.data[i + max(-k, 0), i + max(k, 0)] = v.data[i]
        return a
    if v.ndim == 2:
        return diagonal(v, k)
    raise AbsRaise("ValueError", "Input must be 1- or 2-d.")


@reg()
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = as_arr(a)
    ax = [npm.norm_axis(axis1, a.ndim), npm.norm_axis(axis2, a.ndim)]
    d0, d1 = a.dims[ax[0]], a.dims[ax[1]]
    rest = [d for k, d in enumerate(a.dims) if k not in ax]
    if isinstance(d0, Dim) or isinstance(d1, Dim):
        if d0 is d1 and offset == 0 and dlen(d0) == 1:
            data = np.diagonal(a.data, 0, *ax)
            return AArray(data, rest + [d0], a.dtype, True)
        raise Unsupported("diagonal of symbolic axes")
    data = np.diagonal(a.data, offset, *ax)
    return AArray(data, rest + [data.shape[-1]], a.dtype, True)


@reg()
def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    r = npm.np_sum(diagonal(a, offset, axis1, axis2), -1)
    return r if out is None else store(out, r, "trace out=")


@reg()
def fill_diagonal(a, val, wrap=False):
    v = as_arr(val)
    if a.ndim != 2:
        raise Unsupported("fill_diagonal")
    n = min(a.dims)
    vals = [v.data[()]] * n if v.ndim == 0 else [v.data[k % v.dims[0]] for k in range(n)]
    for k in range(n):
        write(a, (k, k), cast(vals[k], a.dtype))


def _tri_mask(m, k, keep):
    m = as_arr(m)
    r = array(m)
    for i in range(m.dims[-2]):
        for j in range(m.dims[-1]):
            if not keep(i, j, k):
                r.data[..., i, j] = cast(0, m.dtype)
    return r


@reg()
def triu(m, k=0):
    return _tri_mask(m, k, lambda i, j, k: j - i >= k)


@reg()
def tril(m, k=0):
    return _tri_mask(m, k, lambda i, j, k: j - i <= k)


# -- shape --------------------------------------------------------------------------------------


@reg()
def reshape(a, newshape=None, order="C", shape=None, copy=None):
    return npm.reshape(as_arr(a), shape if newshape is None else newshape, order)


@reg()
def ravel(a, order="C"):
    return npm.reshape(as_arr(a), (-1,), order)


@reg()
def transpose(a, axes=None):
    return npm.transpose(as_arr(a), axes)


@reg("permute_dims")
def permute_dims(a, axes=None):
    return npm.transpose(as_arr(a), axes)


@reg()
def matrix_transpose(a):
    return npm.swapaxes(as_arr(a), -1, -2)


@reg()
def swapaxes(a, axis1, axis2):
    return npm.swapaxes(as_arr(a), axis1, axis2)


@reg()
def moveaxis(a, source, destination):
    return npm.moveaxis(as_arr(a), source, destination)


@reg()
def rollaxis(a, axis, start=0):
    a = as_arr(a)
    n = a.ndim
    axis = npm.norm_axis(axis, n)
    start = start + n if start < 0 else start
    if axis < start:
        start -= 1
    return npm.moveaxis(a, axis, start)


@reg()
def expand_dims(a, axis):
    return npm.expand_dims(as_arr(a), axis)


@reg()
def squeeze(a, axis=None):
    return npm.squeeze(as_arr(a), axis)


@reg()
def broadcast_to(array, shape, subok=False):
    return npm.broadcast_to(as_arr(array), npm.shape_arg(shape))


@reg()
def broadcast_arrays(*args, subok=False):
    arrs = [as_arr(a) for a in args]
    dims = bdims(*[a.dims for a in arrs])
    return [a if a.dims == dims else AArray(
        np.broadcast_to(a.data, tuple(dlen(d) for d in dims)), dims, a.dtype, True)
        for a in arrs]


@reg()
def broadcast_shapes(*shapes):
    return bdims(*[npm.shape_arg(s) for s in shapes])


@reg("broadcast")
def broadcast(*args):
    dims = bdims(*[as_arr(a).dims for a in args])
    return HostObj("broadcast", {"shape": dims, "ndim": len(dims), "nd": len(dims)})


@reg("atleast_1d")
def atleast_1d(*xs):
    r = [npm.reshape(as_arr(x), (1,)) if as_arr(x).ndim == 0 else as_arr(x) for x in xs]
    return r[0] if len(r) == 1 else r


@reg("atleast_2d")
def atleast_2d(*xs):
    out = []
    for x in xs:
        a = as_arr(x)
        while a.ndim < 2:
            a = npm.expand_dims(a, 0)
        out.append(a)
    return out[0] if len(out) == 1 else out


def _concat(arrs, axis):
    kind = result_kind([a.dtype for a in arrs])
    n = arrs[0].ndim
    if any(a.ndim != n for a in arrs):
        raise AbsRaise("ValueError", "all the input array dimensions must match")
    axis = npm.norm_axis(axis, n)
    for a in arrs[1:]:
        for k in range(n):
            if k != axis and a.dims[k] != arrs[0].dims[k]:
                raise AbsRaise("ValueError", "all the input array dimensions except for the "
                               "concatenation axis must match exactly: %s, %s"
                               % (arrs[0].dims, a.dims))
    dims = list(arrs[0].dims)
    dims[axis] = seg_dim([a.dims[axis] for a in arrs])
    data = np.concatenate([conv(a, kind).data for a in arrs], axis=axis)
    return AArray(data, dims, kind)


@reg("concatenate", "concat")
def concatenate(arrays, axis=0, out=None, dtype=None, casting=None):
    arrs = [as_arr(a) for a in cur().iterate(arrays)]
    if not arrs:
        raise AbsRaise("ValueError", "need at least one array to concatenate")
    if axis is None:
        arrs = [npm.reshape(a, (-1,)) for a in arrs]
        axis = 0
    if any(a.ndim == 0 for a in arrs):
        raise AbsRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
    r = _concat(arrs, axis)
    if dtype is not None:
        r = conv(r, dtype_kind(dtype))
    return r if out is None else store(out, r, "concatenate out=")


@reg()
def stack(arrays, axis=0, out=None, dtype=None, casting=None):
    arrs = [as_arr(a) for a in cur().iterate(arrays)]
    if not arrs:
        raise AbsRaise("ValueError", "need at least one array to stack")
    if any(a.dims != arrs[0].dims for a in arrs):
        raise AbsRaise("ValueError", "all input arrays must have the same shape")
    axis = npm.norm_axis(axis, arrs[0].ndim + 1)
    r = _concat([npm.expand_dims(a, axis) for a in arrs], axis)
    return r if out is None else store(out, r, "stack out=")


@reg()
def hstack(tup):
    arrs = [atleast_1d(a) for a in cur().iterate(tup)]
    return _concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@reg("vstack")
def vstack(tup):
    return _concat([atleast_2d(a) for a in cur().iterate(tup)], 0)


@reg()
def column_stack(tup):
    arrs = [as_arr(a) for a in cur().iterate(tup)]
    return _concat([npm.expand_dims(a, 1) if a.ndim == 1 else a for a in arrs], 1)


@reg()
def append(arr, values, axis=None):
    return concatenate([arr, values], axis)


@reg()
def tile(A, reps):
    a = as_arr(A)
    r = npm.shape_arg(reps)
    n = max(a.ndim, len(r))
    r = (1,) * (n - len(r)) + tuple(r)
    while a.ndim < n:
        a = npm.expand_dims(a, 0)
    for k, m in enumerate(r):
        if m != 1:
            if isinstance(m, Dim):
                if a.dims[k] != 1:
                    raise Unsupported("tile")
                dims = list(a.dims)
                dims[k] = m
                a = array(npm.broadcast_to(a, dims))
            else:
                a = _concat([a] * m, k)
    return array(a)


@reg()
def repeat(a, repeats, axis=None):
    a = as_arr(a)
    if axis is None:
        a = npm.reshape(a, (-1,))
        axis = 0
    axis = npm.norm_axis(axis, a.ndim)
    r = npm.shape_arg(repeats)[0]
    if a.dims[axis] == 1:
        dims = list(a.dims)
        dims[axis] = r
        return array(npm.broadcast_to(a, dims))
    if isinstance(r, int) and isinstance(a.dims[axis], int):
        return AArray(np.repeat(a.data, r, axis), a.dims[:axis] + (a.dims[axis] * r,)
                      + a.dims[axis + 1:], a.dtype)
    raise Unsupported("repeat")


@reg()
def roll(a, shift, axis=None):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll without axis")
        axis = 0
    axs = list(axis) if isinstance(axis, (tuple, list)) else [axis]
    shs = list(shift) if isinstance(shift, (tuple, list)) else [shift] * len(axs)
    d = a.data
    for s, x in zip(shs, axs):
        x = npm.norm_axis(x, a.ndim)
        if isinstance(a.dims[x], Dim):
            raise Unsupported("roll along a symbolic axis")
        d = np.roll(d, cur().conc_int(s), x)
    return AArray(d.copy(), a.dims, a.dtype)


@reg()
def flip(m, axis=None):
    a = as_arr(m)
    axs = range(a.ndim) if axis is None else (
        list(axis) if isinstance(axis, (tuple, list)) else [axis])
    axs = [npm.norm_axis(x, a.ndim) for x in axs]
    idx = [slice(None)] * a.ndim
    for x in axs:
        idx[x] = slice(None, None, -1)
    return npm.getitem(a, tuple(idx))


@reg()
def split(ary, n, axis=0):
    a = as_arr(ary)
    axis = npm.norm_axis(axis, a.ndim)
    L = a.dims[axis]
    if not isinstance(L, int):
        if isinstance(n, int):
            raise Unsupported("split of a symbolic axis")
        cuts = [0, *cur().iterate(n), None]
    elif isinstance(n, int):
        if L % n:
            raise AbsRaise("ValueError", "array split does not result in an equal division")
        cuts = [L // n * k for k in range(n + 1)]
    else:
        cuts = [0] + [cur().conc_int(x) for x in cur().iterate(n)] + [L]
    out = []
    for x, y in zip(cuts, cuts[1:]):
        idx = [slice(None)] * a.ndim
        idx[axis] = slice(x, y)
        out.append(npm.getitem(a, tuple(idx)))
    return out


@reg()
def hsplit(ary, n):
    return split(ary, n, 0 if as_arr(ary).ndim == 1 else 1)


@reg()
def vsplit(ary, n):
    return split(ary, n, 0)


@reg()
def array_split(ary, n, axis=0):
    if isinstance(n, int):
        a = as_arr(ary)
        L = a.dims[npm.norm_axis(axis, a.ndim)]
        if not isinstance(L, int):
            raise Unsupported("split of a symbolic axis")
        k, m = divmod(L, n)
        n = [j * k + min(j, m) for j in range(1, n)]
    return split(ary, n, axis)


@reg()
def take(a, indices, axis=None, out=None, mode=None):
    a = as_arr(a)
    if axis is None:
        a = npm.reshape(a, (-1,))
        axis = 0
    axis = npm.norm_axis(axis, a.ndim)
    idx = [slice(None)] * a.ndim
    idx[axis] = as_arr(indices) if not isinstance(indices, int) else indices
    if mode not in (None, "raise"):
        raise Unsupported("take mode")
    r = npm.getitem(a, tuple(idx))
    if isinstance(r, AArray) and isinstance(indices, int):
        r = array(r)
    return r if out is None else store(out, r, "take out=")


@reg()
def compress(condition, a, axis=None):
    a = as_arr(a)
    c = as_arr(condition)
    if c.ndim != 1:
        raise AbsRaise("ValueError", "condition must be a 1-d array")
    if axis is None and a.ndim != 1:
        a = npm.array_attr(cur(), a, "ravel")()
    if c.dtype != "b":
        c = npm.conv(c, "b")
    ax = 0 if axis is None else npm.norm_axis(axis, a.ndim)
    if isinstance(a.dims[ax], int) and isinstance(c.dims[0], int) and c.dims[0] < a.dims[ax]:
        c = concatenate([c, zeros(a.dims[ax] - c.dims[0], dtype=BOOL_)])
    idx = [slice(None)] * a.ndim
    idx[ax] = c
    return npm.getitem(a, tuple(idx))


@reg()
def extract(condition, arr):
    return compress(ravel(condition), ravel(arr))


@reg()
def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        store(dst, src, "copyto")
        return None
    _masked_store(dst, src, where, "copyto")
    return None


@reg()
def putmask(a, mask, values):
    _masked_store(a, values, mask, "putmask")


@reg()
def place(a, mask, vals):
    _masked_store(a, vals, mask, "place")


def _masked_store(out, v, where, what):
    V, W = as_arr(v), conv(as_arr(where), "b")
    if bdims(out.dims, V.dims, W.dims) != out.dims:
        raise AbsRaise("ValueError", "%s: shapes do not match" % what)
    if "bifc".index(V.dtype) > "bifc".index(out.dtype):
        raise AbsRaise("UFuncTypeError", "%s: cannot cast" % what)
    val = np.broadcast_to(conv(V, out.dtype).data, out.data.shape)
    msk = np.broadcast_to(W.data, out.data.shape)
    res = out.data.copy()
    for i in np.ndindex(*out.data.shape):
        if cur().decide(msk[i]):
            res[i] = val[i]
    write(out, Ellipsis, res)


def _single(a):
    """An object which NumPy takes as one item."""
    if a is None or isinstance(a, str):
        return True
    try:
        as_arr(a)
    except npm.Opaque:
        return True
    return False


@reg()
def shape(a):
    if _single(a):
        return ()
    return tuple(as_arr(a).dims)


@reg()
def ndim(a):
    return 0 if _single(a) else as_arr(a).ndim


@reg()
def size(a, axis=None):
    if _single(a):
        return 1
    a = as_arr(a)
    if axis is not None:
        return a.dims[npm.norm_axis(axis, a.ndim)]
    return npm.array_attr(cur(), a, "size")


@reg()
def isscalar(x):
    return is_scalar(x) or isinstance(x, str)


@reg()
def iterable(x):
    return isinstance(x, (list, tuple, dict)) or (isinstance(x, AArray) and x.ndim > 0)


@reg()
def result_type(*xs):
    return DType(result_kind([x.dtype if isinstance(x, AArray) else (
        scalar_dtype(x) if is_scalar(x) else dtype_kind(x)) for x in xs]))


FUNCS["promote_types"] = result_type


@reg("shares_memory")
def shares_memory(a, b, max_work=None):
    if not (isinstance(a, AArray) and isinstance(b, AArray)):
        return False
    return bool(np.shares_memory(a.data, b.data))


@reg("may_share_memory")
def may_share_memory(a, b, max_work=None):
    if not (isinstance(a, AArray) and isinstance(b, AArray)):
        return False
    return bool(np.may_share_memory(a.data, b.data))


# -- ufuncs ---------------------------------------------------------------------------------------


class UFunc:
    def __init__(self, name, fn, nin, kind):
        self.name, self.fn, self.nin, self.kind = name, fn, nin, kind

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, order=None,
                 subok=None):
        if len(args) == self.nin + 1 and out is None:
            out = args[-1]
            args = args[:-1]
        if len(args) != self.nin:
            raise AbsRaise("TypeError", "%s() takes from %d to %d positional arguments"
                           % (self.name, self.nin, self.nin + 1))
        for a in args:
            if a is None or isinstance(a, str):
                raise AbsRaise("TypeError", "ufunc '%s' not supported for the input types"
                               % self.name)
        if isinstance(out, tuple):
            out = out[0]
        arrs = [as_arr(a) for a in args]
        kind = self.kind([a.dtype for a in arrs]) if callable(self.kind) else self.kind
        if dtype is not None:
            kind = dtype_kind(dtype)
        fn = self.fn
        if where is True:
            r = elementwise(lambda *x: cast(fn(*x), kind) if kind != "b" else fn(*x),
                            arrs, kind)
        else:
            W = conv(as_arr(where), "b")
            dims = bdims(W.dims, *[a.dims for a in arrs])
            base = out if out is not None else _uninit(dims, kind)
            if bdims(base.dims, dims) != base.dims:
                raise AbsRaise("ValueError", "%s: non-broadcastable output" % self.name)
            r = elementwise(lambda o, w, *x: cast(fn(*x), kind) if cur().decide(w) else o,
                            [base, W] + arrs, kind)
        if out is None:
            return r
        return store(out, r, "numpy.%s out=" % self.name, casting != "unsafe")


def ufunc(name, fn, nin, kind):
    u = UFunc(name, fn, nin, kind)
    FUNCS[name] = u
    return u


def _arith(kinds):
    k = result_kind(kinds)
    return "i" if k == "b" else k


_F = lambda kinds: "f"  # noqa: E731
_B = lambda kinds: "b"  # noqa: E731


def _known_sign(x):
    """1 or -1 if the sign of ``x`` follows from what was learned on this path."""
    def known(c):
        return c if isinstance(c, bool) else cur().truth_known(c)
    if known(c_lt0(-x)) is True:
        return 1
    lt = known(c_lt0(x))
    if lt is True:
        return -1
    if lt is False and known(c_eq0(x)) is False:
        return 1
    return None


def s_abs(x):
    x = npm._num(x)
    if isinstance(x, int):
        return abs(x)
    x = topoly(x)
    c = x.as_const()
    if c is not None:
        return topoly(abs(c))
    s = _known_sign(x)
    if s is not None:
        return x if s > 0 else -x
    if alg._all_positive(x):
        return x
    if alg._all_positive(-x):
        return -x
    # pull out positive factors and normalise the sign
    lead = x.t[min(x.t, key=alg._mkey)]
    if lead < 0:
        x = -x
    if len(x.t) == 1:
        (m, c), = x.t.items()
        pos = tuple((i, e) for i, e in m if alg.ATOMS[i].pos or (
            isinstance(e, int) and e % 2 == 0))
        rest = tuple((i, e) for i, e in m if not (alg.ATOMS[i].pos or (
            isinstance(e, int) and e % 2 == 0)))
        if not rest:
            return Poly({m: abs(c)})
        return Poly({pos: abs(c)}) * alg.app("abs", Poly({rest: 1}), pos=False)
    return alg.app("abs", x)


def s_sqrt(x):
    x = topoly(npm._num(x))
    if len(x.t) == 1:
        (m, c), = x.t.items()
        # sqrt(y**2) = |y|
        if c > 0 and m and all(isinstance(e, int) and e % 2 == 0 for _, e in m):
            r = topoly(c) ** Fraction(1, 2)
            for i, e in m:
                y = Poly({((i, e // 2),): 1})
                r = r * (y if alg.ATOMS[i].pos or (e // 2) % 2 == 0 else s_abs(y))
            return r
    return x ** Fraction(1, 2)


def s_exp(x):
    x = topoly(npm._num(x))
    if not x.t:
        return alg.ONE
    v = x.is_var()
    if v is not None and v.kind == "f" and v.payload[0] == "log":
        y = v.payload[1][0]
        if not y.t or cur().zero(y):
            return alg.ZERO
        if _known_sign(y) == 1:
            return y
    return alg.app("exp", x, pos=True)


def s_log(x):
    x = topoly(npm._num(x))
    if x == alg.ONE:
        return alg.ZERO
    v = x.is_var()
    if v is not None and v.kind == "f" and v.payload[0] == "exp":
        return v.payload[1][0]
    return alg.app("log", x)


def s_max(a, b):
    return _pick(a, b, True)


def s_min(a, b):
    return _pick(a, b, False)


def _pick(a, b, mx):
    a, b = npm._num(a), npm._num(b)
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b) if mx else min(a, b)
    d = topoly(a) - topoly(b)
    c = c_lt0(d)
    if isinstance(c, bool):
        less = c
    else:
        less = cur().decide(c)
    if less:
        return b if mx else a
    return a if mx else b


def s_sign(x):
    x = npm._num(x)
    c = topoly(x).as_const()
    if c is not None:
        return (c > 0) - (c < 0)
    if cur().decide(c_lt0(topoly(x))):
        return -1
    return 0 if cur().decide(c_eq0(topoly(x))) else 1


def s_isfinite(x):
    if isinstance(x, Poly) and any(
            alg.ATOMS[i].kind == "f" and alg.ATOMS[i].payload[0] in ("nan", "const")
            for i in x.atoms()):
        return False
    return True


def _trig(n):
    def f(x):
        x = topoly(npm._num(x))
        if not x.t and n in ("sin", "tan", "sinh", "arcsin", "arctan", "tanh", "log1p",
                             "expm1"):
            return alg.ZERO
        if not x.t and n in ("cos", "cosh"):
            return alg.ONE
        if n == "log1p":
            return s_log(x + 1)
        if n == "expm1":
            return s_exp(x) - 1
        if n == "cosh":
            return (s_exp(x) + s_exp(-x)) * Fraction(1, 2)
        if n == "sinh":
            return (s_exp(x) - s_exp(-x)) * Fraction(1, 2)
        return alg.app(n, x)
    return f


ufunc("add", npm.s_add, 2, _arith)
ufunc("subtract", npm.s_sub, 2, _arith)
ufunc("multiply", npm.s_mul, 2, _arith)
ufunc("divide", npm.np_div, 2, _F)
FUNCS["true_divide"] = FUNCS["divide"]
ufunc("power", npm.s_pow, 2, _arith)
ufunc("float_power", npm.s_pow, 2, _F)
ufunc("floor_divide", npm.s_floordiv, 2, _arith)
ufunc("remainder", npm.s_mod, 2, _arith)
FUNCS["mod"] = FUNCS["remainder"]
ufunc("negative", lambda x: -npm._num(x), 1, _arith)
ufunc("positive", lambda x: npm._num(x), 1, _arith)
ufunc("square", lambda x: npm.s_mul(x, x), 1, _arith)
ufunc("reciprocal", lambda x: npm.np_div(1, x), 1, _F)
ufunc("sqrt", s_sqrt, 1, _F)
ufunc("cbrt", lambda x: topoly(npm._num(x)) ** Fraction(1, 3), 1, _F)
ufunc("exp", s_exp, 1, _F)
ufunc("log", s_log, 1, _F)
ufunc("absolute", s_abs, 1, _arith)
FUNCS["abs"] = FUNCS["absolute"]
ufunc("fabs", s_abs, 1, _F)
ufunc("maximum", s_max, 2, _arith)
ufunc("minimum", s_min, 2, _arith)
ufunc("fmax", s_max, 2, _arith)
ufunc("fmin", s_min, 2, _arith)
ufunc("sign", s_sign, 1, _arith)
ufunc("hypot", lambda a, b: s_sqrt(npm.s_mul(a, a) + npm.s_mul(b, b)), 2, _F)
ufunc("isfinite", s_isfinite, 1, _B)
ufunc("isnan", lambda x: not s_isfinite(x), 1, _B)
ufunc("isinf", lambda x: False, 1, _B)
ufunc("logical_and", lambda a, b: c_all([cast(a, "b"), cast(b, "b")]), 2, _B)
ufunc("logical_or", lambda a, b: c_any([cast(a, "b"), cast(b, "b")]), 2, _B)
ufunc("logical_not", lambda a: c_not(cast(a, "b")), 1, _B)
ufunc("logical_xor", lambda a, b: npm.b_xor(cast(a, "b"), cast(b, "b")), 2, _B)
ufunc("invert", c_not, 1, _B)
FUNCS["bitwise_not"] = FUNCS["invert"]
ufunc("bitwise_and", npm.b_and, 2, _B)
ufunc("bitwise_or", npm.b_or, 2, _B)
for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"),
               ("greater", "Gt"), ("greater_equal", "GtE")):
    ufunc(_n, (lambda o: lambda a, b: npm.cmp_scalar(o, a, b))(_o), 2, _B)
for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh",
           "log2", "log10", "log1p", "expm1", "floor", "ceil", "rint", "trunc", "exp2",
           "deg2rad", "rad2deg"):
    ufunc(_n, _trig(_n), 1, _F)


@reg("round", "around", "round_")
def round_(a, decimals=0, out=None):
    r = elementwise(lambda x: topoly(x) if topoly(x).as_const() is not None and
                    isinstance(topoly(x).as_const(), int)
                    else alg.app("round", str(decimals), topoly(x)), [a], "f")
    return r if out is None else store(out, r, "round out=")


@reg()
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = FUNCS["maximum"](r, lo)
    if hi is not None:
        r = FUNCS["minimum"](r, hi)
    return r if out is None else store(out, r, "clip out=")


@reg()
def nan_to_num(x, copy=True, nan=0, posinf=None, neginf=None):
    return elementwise(lambda p: p if s_isfinite(p) else cast(nan, "f"), [x], "f")


@reg()
def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    return elementwise(lambda x, y: npm.tol_cond(npm.s_sub(x, y), y, rtol, atol), [a, b], "b")


@reg()
def allclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    return npm.np_all(isclose(a, b, rtol, atol))


@reg()
def array_equal(a, b, equal_nan=False):
    a, b = as_arr(a), as_arr(b)
    if a.dims != b.dims:
        return False
    return npm.np_all(npm.compare("Eq", a, b))


@reg()
def array_equiv(a, b):
    return npm.np_all(npm.compare("Eq", a, b))


@reg()
def where(cond, x=None, y=None):
    if x is None:
        return nonzero(cond)
    C = conv(as_arr(cond), "b")
    X, Y = as_arr(x), as_arr(y)
    kind = result_kind([X.dtype, Y.dtype])

    def pick(c, p, q):
        if not isinstance(c, Cond):
            return cast(p if c else q, kind)
        if p is q or (isinstance(p, Poly) and p == q):
            return cast(p, kind)
        return cast(p if cur().decide(c) else q, kind)

    r = elementwise(pick, [C, X, Y], kind)
    return r if isinstance(r, AArray) else AArray(obj0(r), (), kind)


@reg()
def select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(cur().iterate(condlist), cur().iterate(choicelist)))[::-1]:
        r = where(c, v, r)
    return r


@reg()
def nonzero(a):
    a = conv(as_arr(a), "b")
    if any(isinstance(d, Dim) for d in a.dims):
        # symbolic: one mask usable as an index
        if a.ndim == 1:
            nd = npm._mask_dim(a)
            d = np.empty(a.data.size, dtype=object)
            for j in range(a.data.size):
                d[j] = alg.app("index", str(nd), str(j))
                ATOM_DIMS[d[j].is_var().idx] = frozenset([nd])
            r = npm.MaskIndex(d, (nd,), "i")
            r.mask = AArray(a.data.copy(), a.dims, "b")
            r.mask.label = "nonzero"
            return (r,)
        raise Unsupported("nonzero of a symbolic axis")
    vals = np.empty(a.data.shape, dtype=bool)
    for i in np.ndindex(*a.data.shape):
        vals[i] = cur().decide(a.data[i])
    return _idx(np.nonzero(vals))


@reg()
def argwhere(a):
    return npm.transpose(stack(list(nonzero(a))))


@reg()
def flatnonzero(a):
    return nonzero(npm.reshape(as_arr(a), (-1,)))[0]


# -- reductions --------------------------------------------------------------------------------------


def _fin(r, out, dtype, what):
    if dtype is not None:
        r = conv(as_arr(r), dtype_kind(dtype))
        r = r if r.ndim else r.data[()]
    return r if out is None else store(out, r, what)


@reg("sum")
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if where is not None and where is not True:
        a = FUNCS["where"](where, a, 0)
    r = npm.np_sum(a, axis, keepdims)
    if initial is not None:
        r = npm.binop("Add", r, initial)
    return _fin(r, out, dtype, "sum out=")


FUNCS["nansum"] = sum_


@reg("prod")
def prod(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, (tuple, list)) and all(isinstance(x, (int, Dim)) for x in a):
        p = alg.ONE
        for x in a:
            p = p * dpoly(x)
        c = p.as_const()
        return p if c is None else c
    return _fin(npm.reduce_generic(a, axis, npm.s_mul, "prod", None, keepdims), out, dtype,
                "prod out=")


@reg()
def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = as_arr(a)
    s = npm.np_sum(a, axis, keepdims)
    n = npm.total([a.dims[k] for k in npm.reduce_axes(a, axis)])
    return _fin(npm.binop("Div", s, n if n.as_const() is None else n.as_const()), out, dtype,
                "mean out=")


FUNCS["nanmean"] = mean


@reg()
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return mean(a, axis)
    w = as_arr(weights)
    return npm.binop("Div", npm.np_sum(npm.binop("Mult", a, w), axis),
                     npm.np_sum(w, axis))


@reg()
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = as_arr(a)
    m = mean(a, axis, keepdims=True)
    d = npm.binop("Sub", a, m)
    s = npm.np_sum(npm.binop("Mult", d, d), axis, keepdims)
    n = npm.total([a.dims[k] for k in npm.reduce_axes(a, axis)])
    return npm.binop("Div", s, n - ddof)


@reg()
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return FUNCS["sqrt"](var(a, axis, ddof=ddof, keepdims=keepdims))


@reg("max", "amax", "nanmax")
def max_(a, axis=None, out=None, keepdims=False, initial=None):
    return _fin(npm.reduce_generic(a, axis, s_max, "max", None, keepdims), out, None, "max")


@reg("min", "amin", "nanmin")
def min_(a, axis=None, out=None, keepdims=False, initial=None):
    return _fin(npm.reduce_generic(a, axis, s_min, "min", None, keepdims), out, None, "min")


@reg("any", "sometrue")
def any_(a, axis=None, out=None, keepdims=False):
    return npm.np_any(a, axis, keepdims)


@reg("all", "alltrue")
def all_(a, axis=None, out=None, keepdims=False):
    return npm.np_all(a, axis, keepdims)


@reg()
def count_nonzero(a, axis=None, keepdims=False):
    a = conv(as_arr(a), "b")
    if any(isinstance(d, Dim) for d in a.dims):
        f = np.frompyfunc(lambda c: topoly(int(c)) if isinstance(c, bool) else
                          alg.app("indicator", str(c)), 1, 1)
        d = f(a.data)
        for q in d.ravel():
            v = q.is_var()
            if v is not None:
                ATOM_DIMS[v.idx] = frozenset(base_dims(a.dims))
        return npm.np_sum(AArray(d, a.dims, "f"), axis)
    return npm.np_sum(conv(a, "i"), axis, keepdims)


@reg()
def cumsum(a, axis=None, dtype=None, out=None):
    a = as_arr(a)
    if axis is None:
        a = npm.reshape(a, (-1,))
        axis = 0
    axis = npm.norm_axis(axis, a.ndim)
    if isinstance(a.dims[axis], Dim):
        raise Unsupported("cumsum along a symbolic axis")
    d = np.moveaxis(a.data.copy(), axis, 0)
    for k in range(1, d.shape[0]):
        d[k] = d[k - 1] + d[k]
    return AArray(np.moveaxis(d, 0, axis), a.dims, a.dtype)


@reg()
def diff(a, n=1, axis=-1):
    a = as_arr(a)
    axis = npm.norm_axis(axis, a.ndim)
    if isinstance(a.dims[axis], Dim):
        raise Unsupported("diff along a symbolic axis")
    i = [slice(None)] * a.ndim
    j = list(i)
    i[axis], j[axis] = slice(1, None), slice(None, -1)
    return npm.binop("Sub", npm.getitem(a, tuple(i)), npm.getitem(a, tuple(j)))


def _order(xs):
    """Ascending order of a few values; undecided comparisons partition the paths."""
    it = cur()
    rank = {}
    for rec in it.eig.values():
        if not rec.get("general"):
            for k, x in enumerate(rec["w"]):
                rank.setdefault(x, (id(rec), k))
    out = []
    for k in range(len(xs)):
        j = len(out)
        while j > 0:
            a, b = xs[k], xs[out[j - 1]]
            ra, rb = (rank.get(x) if isinstance(x, Poly) else None for x in (a, b))
            if ra and rb and ra[0] == rb[0]:
                less = ra[1] < rb[1]
            else:
                less = it.decide(npm.cmp_scalar("Lt", a, b))
            if not less:
                break
            j -= 1
        out.insert(j, k)
    return out


def _permutation(a, axis, what):
    a = as_arr(a)
    if axis is None:
        a, axis = npm.reshape(a, (-1,)), 0
    axis = npm.norm_axis(axis, a.ndim)
    d = a.dims[axis]
    m = np.moveaxis(a.data, axis, -1)
    o = np.empty(m.shape, dtype=object)
    if isinstance(d, Dim):
        return a, axis, None, m
    if m.size > 24:
        raise Unsupported(what + " of many values")
    for i in np.ndindex(*m.shape[:-1]):
        o[i] = _order(list(m[i]))
    return a, axis, o, m


@reg("argsort")
def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a, axis, o, m = _permutation(a, axis, "argsort")
    if o is None:
        if a.ndim != 1 or dlen(a.dims[axis]) != 1:
            raise Unsupported("argsort along a symbolic axis")
        v = alg.app("argsort", a.data[0] if isinstance(a.data[0], Poly) else str(a.data[0]))
        r = AArray(np.array([v], dtype=object), a.dims, "i")
        r.label = ("perm", str(v))
        return r
    return AArray(np.moveaxis(o, -1, axis), a.dims, "i")


@reg("sort")
def sort(a, axis=-1, kind=None, order=None, stable=None):
    a, axis, o, m = _permutation(a, axis, "sort")
    if o is None:
        r = argsort(a, axis)
        return npm.getitem(a, r)
    d = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        for k, j in enumerate(o[i]):
            d[i][k] = m[i][j]
    return AArray(np.moveaxis(d, -1, axis), a.dims, a.dtype)


@reg("unique")
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None,
           equal_nan=True, sorted=True):  # noqa: A002
    a = as_arr(ar)
    if axis is not None and a.ndim != 1:
        raise Unsupported("unique items along an axis")
    if any(isinstance(d, Dim) for d in a.dims) or a.data.size > 8:
        raise Unsupported("unique items of many values")
    xs = list(a.data.ravel())
    first, inv = [], [0] * len(xs)
    for k in _order(xs):
        if not first or not cur().decide(npm.cmp_scalar("Eq", xs[first[-1]], xs[k])):
            first.append(k)
        inv[k] = len(first) - 1

    def ints(v):
        return AArray(np.array(list(v), dtype=object), (len(v),), "i")
    d = np.empty(len(first), dtype=object)
    for j, k in enumerate(first):
        d[j] = xs[k]
    out = [AArray(d, (len(first),), a.dtype)]
    if return_index:
        out.append(ints([min(k for k in range(len(xs)) if inv[k] == j)
                         for j in range(len(first))]))
    if return_inverse:
        out.append(npm.reshape(ints(inv), a.dims))
    if return_counts:
        out.append(ints([inv.count(j) for j in range(len(first))]))
    return tuple(out) if len(out) > 1 else out[0]


@reg("take_along_axis")
def take_along_axis(arr, indices, axis=-1):
    a, x = as_arr(arr), as_arr(indices)
    if axis is None:
        a, axis = npm.reshape(a, (-1,)), 0
    axis = npm.norm_axis(axis, a.ndim)
    if a.ndim != x.ndim:
        raise AbsRaise("ValueError", "`indices` and `arr` must have the same number of "
                       "dimensions")
    if isinstance(a.dims[axis], Dim) or isinstance(x.dims[axis], Dim):
        raise Unsupported("take_along_axis along a symbolic axis")
    ad = list(a.dims)
    xd = list(x.dims)
    ad[axis] = xd[axis] = 1
    dims = list(npm.bdims(ad, xd))
    dims[axis] = x.dims[axis]
    out = np.empty(tuple(dlen(d) for d in dims), dtype=object)
    for i in np.ndindex(*out.shape):
        j = tuple(0 if n == 1 else k for k, n in zip(i, x.data.shape))
        q = [0 if n == 1 else k for k, n in zip(i, a.data.shape)]
        q[axis] = cur().conc_int(x.data[j])
        if not -a.dims[axis] <= q[axis] < a.dims[axis]:
            raise AbsRaise("IndexError", "index %s is out of bounds" % q[axis])
        out[i] = a.data[tuple(q)]
    return AArray(out, tuple(dims), a.dtype)


# -- products --------------------------------------------------------------------------------------------


@reg()
def einsum(sub, *ops, out=None, optimize=False, dtype=None, order=None, casting=None):
    if not isinstance(sub, str):
        # operand form: einsum(a, [0, 1], b, [1, 2], [0, 2])
        args = [sub] + list(ops)
        subs, arrs = [], []
        letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

        def sublist(x):
            if not isinstance(x, (list, tuple)):
                raise AbsRaise("TypeError", "subscripts of the operand form of einsum must be "
                               "lists of integers, not %r" % (x,))
            r = ""
            for y in x:
                if y is Ellipsis:
                    r += "..."
                elif isinstance(y, int) and 0 <= y < len(letters):
                    r += letters[y]
                else:
                    raise AbsRaise("TypeError", "subscript is not within the valid range: %r"
                                   % (y,))
            return r
        while len(args) >= 2:
            arrs.append(args.pop(0))
            subs.append(sublist(args.pop(0)))
        sub = ",".join(subs)
        if args:
            sub += "->" + sublist(args[0])
        ops = arrs
    return npm.einsum(sub, ops, out)


@reg()
def matmul(a, b, out=None):
    r = npm.matmul(a, b)
    return r if out is None else store(out, r, "matmul out=")


@reg()
def dot(a, b, out=None):
    A, B = as_arr(a), as_arr(b)
    if A.ndim == 0 or B.ndim == 0:
        r = npm.binop("Mult", A, B)
    elif B.ndim == 1:
        r = npm.einsum("...i,i->...", [A, B])
    elif A.ndim == 1:
        r = tensordot(A, B, ([0], [B.ndim - 2]))
    else:
        r = tensordot(A, B, ([A.ndim - 1], [B.ndim - 2]))
    return r if out is None else store(out, r, "dot out=")


@reg()
def vdot(a, b):
    return npm.einsum("i,i->", [npm.reshape(as_arr(a), (-1,)), npm.reshape(as_arr(b), (-1,))])


@reg()
def inner(a, b):
    A, B = as_arr(a), as_arr(b)
    if A.ndim == 0 or B.ndim == 0:
        return npm.binop("Mult", A, B)
    return tensordot(A, B, ([A.ndim - 1], [B.ndim - 1]))


@reg()
def outer(a, b, out=None):
    r = npm.einsum("i,j->ij", [npm.reshape(as_arr(a), (-1,)), npm.reshape(as_arr(b), (-1,))])
    return r if out is None else store(out, r, "outer out=")


@reg()
def kron(a, b):
    A, B = as_arr(a), as_arr(b)
    if A.ndim == 2 and B.ndim == 2:
        r = npm.einsum("ij,kl->ikjl", [A, B])
        return npm.reshape(r, (prod_dim([A.dims[0], B.dims[0]]),
                               prod_dim([A.dims[1], B.dims[1]])))
    raise Unsupported("kron")


@reg()
def tensordot(a, b, axes=2):
    A, B = as_arr(a), as_arr(b)
    if isinstance(axes, int):
        x = list(range(A.ndim - axes, A.ndim))
        y = list(range(axes))
    else:
        x, y = axes
        x = list(x) if isinstance(x, (tuple, list)) else [x]
        y = list(y) if isinstance(y, (tuple, list)) else [y]
    x = [npm.norm_axis(k, A.ndim) for k in x]
    y = [npm.norm_axis(k, B.ndim) for k in y]
    L = "abcdefghijklmnopqrstuvwxyz"
    la = list(L[:A.ndim])
    lb = list(L[A.ndim:A.ndim + B.ndim])
    for p, q in zip(x, y):
        if A.dims[p] != B.dims[q]:
            raise AbsRaise("ValueError", "shape-mismatch for sum in tensordot")
        lb[q] = la[p]
    out = [c for k, c in enumerate(la) if k not in x] + [c for k, c in enumerate(lb)
                                                         if k not in y]
    return npm.einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out)), [A, B])


@reg()
def cross(a, b, axis=-1, axisa=None, axisb=None, axisc=None):
    A, B = as_arr(a), as_arr(b)
    A, B = npm.moveaxis(A, axis, 0), npm.moveaxis(B, axis, 0)
    g = npm.getitem
    m, s = (lambda p, q: npm.binop("Mult", p, q)), (lambda p, q: npm.binop("Sub", p, q))
    r = stack([s(m(g(A, 1), g(B, 2)), m(g(A, 2), g(B, 1))),
               s(m(g(A, 2), g(B, 0)), m(g(A, 0), g(B, 2))),
               s(m(g(A, 0), g(B, 1)), m(g(A, 1), g(B, 0)))])
    return npm.moveaxis(r, 0, axis)


# -- linear algebra ---------------------------------------------------------------------------------------

LINALG = {}


def lreg(*names):
    def deco(f):
        for n in names or (f.__name__,):
            LINALG[n] = f
        return f
    return deco


def _square(a, what):
    a = as_arr(a)
    if a.ndim < 2:
        raise AbsRaise("LinAlgError", "%s: array must be at least two-dimensional" % what)
    if a.dims[-1] != a.dims[-2]:
        raise AbsRaise("LinAlgError", "%s: last 2 dimensions of the array must be square: %s"
                       % (what, a.dims))
    if isinstance(a.dims[-1], Dim):
        raise Unsupported("%s of a symbolic size" % what)
    return a


def _det(m):
    n = m.shape[0]
    if n == 0:
        return alg.ONE
    if n == 1:
        return topoly(m[0, 0])
    r = alg.ZERO
    for j in range(n):
        if isinstance(m[0, j], Poly) and not m[0, j].t:
            continue
        sub = np.delete(m[1:], j, axis=1)
        t = topoly(m[0, j]) * _det(sub)
        r = r + t if j % 2 == 0 else r - t
    return r


@lreg("det")
def l_det(a):
    a = _square(a, "det")
    out = np.empty(a.data.shape[:-2], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = npm.abbrev(_det(a.data[i]))
    return wrap(out, a.dims[:-2], "f")


@lreg("inv", "pinv")
def l_inv(a):
    a = _square(a, "inv")
    n = a.dims[-1]
    out = np.empty(a.data.shape, dtype=object)
    for i in np.ndindex(*a.data.shape[:-2]):
        m = a.data[i]
        d = npm.abbrev(_det(m))
        for p in range(n):
            for q in range(n):
                c = _det(np.delete(np.delete(m, q, 0), p, 1))
                out[i][p, q] = npm.abbrev(npm.np_div(c if (p + q) % 2 == 0 else -c, d))
    return AArray(out, a.dims, "f")


@lreg("solve")
def l_solve(a, b):
    A, B = _square(a, "solve"), as_arr(b)
    ai = l_inv(A)
    if B.ndim == 1:
        return npm.einsum("...ij,j->...i", [ai, B])
    return npm.matmul(ai, B)


def _eigh(a, uplo="L", general=False):
    it = cur()
    a = _square(a, "eigh")
    n = a.dims[-1]
    w = np.empty(a.data.shape[:-1], dtype=object)
    v = np.empty(a.data.shape, dtype=object)
    for i in np.ndindex(*a.data.shape[:-2]):
        m = a.data[i]
        tri = []
        for p in range(n):
            for q in range(p + 1):
                x = m[p, q] if uplo == "L" else m[q, p]
                tri.append(topoly(x))
        key = (("general",) + tuple(topoly(x) for x in m.ravel())) if general else tuple(tri)
        sym = all(topoly(m[p, q]) == topoly(m[q, p]) for p in range(n) for q in range(p))
        rec = it.eig.get(key)
        if rec is None:
            k = len(it.eig)
            ds = frozenset().union(*[poly_dims(x) for x in tri])
            pat = getattr(it, "eig_pattern", None) or range(n)
            if general:     # unordered; the vectors need not be orthogonal
                pat = range(n)
            ws = [alg.var("w%d_%d%s" % (k, x, "g" * general), pos=it.eig_pos and not general)
                  for x in pat]
            vs = np.empty((n, n), dtype=object)
            for p in range(n):
                for q in range(n):
                    vs[p, q] = alg.var("v%d_%d%d" % (k, p, q))
            for x in ws + list(vs.ravel()):
                ATOM_DIMS[x.is_var().idx] = ds
            rec = it.eig[key] = {"matrix": m.copy(), "w": ws, "v": vs, "sym": sym,
                                 "dims": a.dims, "site": it.site(),
                                 "general": general}
        w[i] = rec["w"]
        v[i] = rec["v"]
    return AArray(w, a.dims[:-1], "f"), AArray(v, a.dims, "f")


@lreg("eigh")
def l_eigh(a, UPLO="L"):
    w, v = _eigh(a, UPLO)
    return EigResult((w, v))


class EigResult(tuple):
    pass


@lreg("eig")
def l_eig(a):
    w, v = _eigh(a, general=True)
    return (w, v)


@lreg("eigvalsh")
def l_eigvalsh(a, UPLO="L"):
    return _eigh(a, UPLO)[0]


@lreg("eigvals")
def l_eigvals(a):
    return _eigh(a, general=True)[0]


@lreg("norm")
def l_norm(x, ord=None, axis=None, keepdims=False):
    x = as_arr(x)
    if isinstance(ord, str):
        raise Unsupported("norm ord")
    if ord not in (None, 2) and not (isinstance(ord, Poly) and ord == 2):
        if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
            return npm.np_sum(FUNCS["absolute"](x), axis, keepdims)
        return alg.app("norm", str(ord), *[q for q in x.data.ravel() if isinstance(q, Poly)])
    if ord is not None and axis is None and x.ndim == 2:
        raise Unsupported("spectral norm")
    return FUNCS["sqrt"](npm.np_sum(npm.binop("Mult", x, x), axis, keepdims))


@lreg("matrix_power")
def l_mpow(a, n):
    r = as_arr(a)
    if n < 1:
        raise Unsupported("matrix_power")
    for _ in range(n - 1):
        r = npm.matmul(r, a)
    return r


# -- other --------------------------------------------------------------------------------------------------


@reg()
def vectorize(pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
    it = cur()
    if signature is not None:
        raise Unsupported("vectorize signature")
    return HostFunc("vectorized", lambda i, a, k: elementwise(
        lambda *x: it.call(pyfunc, list(x), k), a, "f"))


@reg()
def apply_along_axis(func1d, axis, arr, *args, **kwargs):
    a = as_arr(arr)
    axis = npm.norm_axis(axis, a.ndim)
    b = npm.moveaxis(a, axis, -1)
    out = np.empty(b.data.shape[:-1], dtype=object)
    res, dd = None, ()
    for i in np.ndindex(*out.shape):
        r = as_arr(cur().call(func1d, [AArray(b.data[i], b.dims[-1:], b.dtype)] + list(args),
                              kwargs))
        if res is None:
            res, dd = np.empty(out.shape + r.data.shape, dtype=object), r.dims
        elif r.dims != dd:
            raise AbsRaise("ValueError", "could not broadcast input array")
        res[i] = r.data if r.ndim else r.data[()]
    if res is None:
        raise Unsupported("apply_along_axis without points")
    if not dd:
        return wrap(res, b.dims[:-1], "f")
    # the result's own axes take the place of the axis
    n = b.ndim - 1
    perm = list(range(axis)) + list(range(n, n + len(dd))) + list(range(axis, n))
    dims = b.dims[:-1] + dd
    return AArray(res.transpose(perm), [dims[k] for k in perm], "f")


# -- module assembly -------------------------------------------------------------------------------------------


def host(name, f):
    def call(i, a, k):
        if isinstance(f, UFunc):
            return f(*a, **k)
        return npm.hcall(f, "numpy." + name, a, k)
    h = HostFunc("numpy." + name, call)
    if isinstance(f, UFunc):
        h.attrs["reduce"] = HostFunc(name + ".reduce", lambda i, a, k: _ureduce(f, *a, **k))
        h.attrs["outer"] = HostFunc(name + ".outer", lambda i, a, k: _uouter(f, *a, **k))
        h.attrs["at"] = HostFunc(name + ".at", lambda i, a, k: _uat(f, *a, **k))
        h.attrs["accumulate"] = HostFunc(name + ".accumulate",
                                         lambda i, a, k: _uaccumulate(f, *a, **k))
    return h


def _ureduce(f, a, axis=0, dtype=None, out=None, keepdims=False, initial=None):
    if f.name == "add":
        return sum_(a, axis, dtype, out, keepdims)
    if f.name == "multiply":
        return prod(a, axis, dtype, out, keepdims)
    if f.name == "maximum":
        return max_(a, axis, out, keepdims)
    if f.name == "minimum":
        return min_(a, axis, out, keepdims)
    if f.name in ("logical_or", "logical_and"):
        return (npm.np_any if f.name == "logical_or" else npm.np_all)(a, axis, keepdims)
    raise Unsupported("%s.reduce" % f.name)


def _uouter(f, a, b, **k):
    A, B = as_arr(a), as_arr(b)
    A = npm.reshape(A, A.dims + (1,) * B.ndim)
    return f(A, B, **k)


def _uat(f, a, idx, b=None):
    raise NotImplementedError     # npextra


def _uaccumulate(f, a, axis=0, dtype=None, out=None):
    raise NotImplementedError     # npextra


def dtype_tok(name, kind):
    def call(i, a, k):
        if not a:
            return cast(0, kind)
        x = a[0]
        if isinstance(x, AArray) and x.ndim:
            return conv(x, kind)
        if isinstance(x, AArray):
            x = x.data[()]
        if isinstance(x, str):
            if kind == "f":
                return alg.app("const", x) if x in ("nan", "inf", "-inf") else \
                    alg.const(alg.exact(float(x)))
            return int(x)
        if isinstance(x, (list, tuple)):
            return conv(as_arr(x), kind)
        return cast(x, kind)

    def pred(x):
        if isinstance(x, AArray):
            return False
        if not is_scalar(x) or isinstance(kind, npm.Narrow):
            return False
        return scalar_dtype(x) == kind
    return TypeTok(name, pred, call)


FLOAT64 = dtype_tok("float64", "f")
INT64 = dtype_tok("int64", "i")
BOOL_ = dtype_tok("bool_", "b")


def _nd_new(i, a, k):
    return empty(a[0])


NDARRAY = TypeTok("ndarray", lambda x: isinstance(x, AArray), _nd_new)
GENERIC = TypeTok("generic", lambda x: is_scalar(x) and not isinstance(x, (bool,))
                  and isinstance(x, (Poly, Cond)))


def _event(kind):
    def f(i, a, k):
        i.events.append((kind, a, k, i.site()))
        return {}
    return f


class CtxMgr(HostObj):
    pass


def module(it, Module):
    from . import npextra
    ns = {n: f() for n, f in npextra.EXTRA.items()}
    for n, f in FUNCS.items():
        ns[n] = host(n, f)
    lin = {n: host("linalg." + n, f) for n, f in LINALG.items()}
    linm = Module("numpy.linalg", ns=lin, getter=_missing("numpy.linalg"))
    lin["LinAlgError"] = TypeTok("LinAlgError", lambda x: False)
    ns["linalg"] = linm
    it.modules["numpy.linalg"] = linm
    ns.update({
        "newaxis": None, "pi": alg.var("pi", pos=True), "e": s_exp(1),
        "nan": alg.app("nan", "nan"), "inf": alg.app("const", "inf", pos=True),
        "NaN": alg.app("nan", "nan"),
        "float64": FLOAT64, "double": FLOAT64, "float_": FLOAT64, "longdouble": FLOAT64,
        "float32": dtype_tok("float32", npm.SINGLE), "single": dtype_tok("float32", npm.SINGLE),
        "float16": dtype_tok("float16", npm.HALF), "half": dtype_tok("float16", npm.HALF), "int64": INT64, "int32": INT64,
        "int_": INT64, "intp": INT64, "bool_": BOOL_, "bool": BOOL_, "ndarray": NDARRAY,
        "generic": GENERIC, "floating": FLOAT64, "integer": INT64, "number": GENERIC,
        "dtype": HostFunc("dtype", lambda i, a, k: DType(dtype_kind(a[0]))),
        "seterr": HostFunc("seterr", _event("numpy.seterr")),
        "set_printoptions": HostFunc("set_printoptions", _event("numpy.set_printoptions")),
        "seterrcall": HostFunc("seterrcall", _event("numpy.seterrcall")),
        "setbufsize": HostFunc("setbufsize", _event("numpy.setbufsize")),
        "errstate": HostFunc("errstate", lambda i, a, k: CtxMgr("errstate")),
        "finfo": HostFunc("finfo", lambda i, a, k: HostObj("finfo", {
            "eps": alg.const(Fraction(1, 2**52)), "tiny": alg.const(Fraction(1, 10**307)),
            "max": alg.const(10**308), "resolution": alg.const(Fraction(1, 10**15)),
            "min": alg.const(-10**308), "smallest_normal": alg.const(Fraction(1, 10**307))})),
        "s_": HostObj("index expression", {"__getitem__": HostFunc("s_", lambda i, a, k: a[0])}),
        "index_exp": HostObj("index expression", {"__getitem__": HostFunc(
            "index_exp", lambda i, a, k: a[0] if isinstance(a[0], tuple) else (a[0],))}),
        "random": Module("numpy.random", getter=_random),
        "__version__": "2.0.0",
        "r_": HostObj("r_", {"__getitem__": HostFunc("r_", _r)}),
        "c_": HostObj("c_", {"__getitem__": HostFunc("c_", lambda i, a, k: column_stack(
            list(a[0]) if isinstance(a[0], tuple) else [a[0]]))}),
        "typing": Module("numpy.typing", getter=lambda n: Top("numpy.typing." + n)),
    })
    return Module("numpy", ns=ns, getter=_missing("numpy"))


def _r(i, a, k):
    x = a[0] if isinstance(a[0], tuple) else (a[0],)
    parts = []
    for p in x:
        if isinstance(p, slice):
            parts.append(arange(p.start or 0, p.stop, p.step or 1))
        elif isinstance(p, str):
            raise Unsupported("np.r_ directive")
        else:
            parts.append(atleast_1d(p))
    return _concat(parts, 0)


def _random(name):
    def f(i, a, k):
        i.events.append(("numpy.random." + name, a, k, i.site()))
        return Top("numpy.random." + name)
    return HostFunc("numpy.random." + name, f)


def _missing(mod):
    from . import npextra

    def g(name):
        if hasattr(np.linalg if mod.endswith("linalg") else np, name):
            if not callable(getattr(np.linalg if mod.endswith("linalg") else np, name)):
                return Top("%s.%s" % (mod, name))

            def f(i, a, k):
                if name in npextra.PURE and mod == "numpy":
                    r = npextra.fold(name, a, k)
                    if r is not NotImplemented:
                        return r
                raise Unsupported("%s.%s has no transfer function" % (mod, name))
            return HostFunc(mod + "." + name, f, )
        return None
    return g


# -- methods -----------------------------------------------------------------------------------------------------

M = npm.METHODS


def _m_view(a, dtype=None, type=None):  # noqa: A002
    t = type if type is not None else dtype
    if t is not None and not (isinstance(t, TypeTok) and t.name == "ndarray") and not (
            dtype is not None and type is None and dtype_kind(dtype) == a.dtype
            and not isinstance(a.dtype, npm.Narrow)):
        raise Unsupported("view with another type")
    return AArray(a.data, a.dims, a.dtype, a.readonly)


def _m_reshape(a, *shape, order="C", copy=None):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list, AArray)):
        shape = shape[0]
    return npm.reshape(a, shape, order)


def _m_transpose(a, *axes):
    if not axes or axes[0] is None:
        return npm.transpose(a)
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = axes[0]
    return npm.transpose(a, axes)


def _m_copy(a, order="C"):
    return AArray(a.data.copy(), a.dims, a.dtype)


def _m_astype(a, dtype, order="K", casting="unsafe", subok=True, copy=True):
    k = dtype_kind(dtype)
    r = conv(a, k)
    if r is a:
        return _m_copy(a) if copy else a
    return r


def _m_fill(a, v):
    write(a, Ellipsis, cast(v, a.dtype))


def _m_item(a, *args):
    if args:
        i = args if len(args) > 1 else args[0]
        if isinstance(i, int) and a.ndim != 1:
            return npm.getitem(npm.reshape(a, (-1,)), i)
        return npm.getitem(a, i)
    if a.data.size == 1 and all(d == 1 for d in a.dims):
        return a.data.ravel()[0]
    raise AbsRaise("ValueError", "can only convert an array of size 1 to a Python scalar")


def _m_tolist(a):
    if a.ndim == 0:
        return a.data[()]
    if isinstance(a.dims[0], Dim):
        raise Unsupported("tolist of a symbolic axis")
    return [_m_tolist(as_arr(npm.getitem(a, k))) for k in range(a.dims[0])]


def _m_setflags(a, write=None, align=None, uic=None):
    if write is not None:
        a.readonly = not cur().truth(write)


def _m_flatten(a, order="C"):
    return array(npm.reshape(a, (-1,), order))


M.update({
    "reshape": _m_reshape, "transpose": _m_transpose, "copy": _m_copy, "astype": _m_astype,
    "fill": _m_fill, "item": _m_item, "tolist": _m_tolist, "setflags": _m_setflags,
    "flatten": _m_flatten, "view": _m_view, "ravel": ravel, "swapaxes": swapaxes,
    "squeeze": squeeze, "sum": sum_, "prod": prod, "mean": mean, "max": max_, "min": min_,
    "any": any_, "all": all_, "dot": dot, "diagonal": diagonal, "trace": trace,
    "cumsum": cumsum, "clip": clip, "take": take, "repeat": repeat, "round": round_,
    "nonzero": nonzero, "std": std, "var": var, "conj": lambda a: a,
    "conjugate": lambda a: a, "argsort": argsort, "__len__": lambda a: a.dims[0],
    "__getitem__": npm.getitem, "__setitem__": npm.setitem, "__array__": lambda a, *x: a,
    "compress": lambda a, c, axis=None: compress(c, a, axis),
})
assert dpoly and poly_dims and Top
