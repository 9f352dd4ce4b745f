"""Abstract values: symbolic dimensions, conditions, arrays, opaque objects."""

import contextlib
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Poly, topoly


class Unsupported(Exception):
    """The analysed source uses a construct the analysis has no transfer function for."""


class AbsRaise(Exception):
    """The analysed program raises an exception at this point."""

    def __init__(self, etype, msg="", value=None):
        super().__init__("%s: %s" % (etype, msg))
        self.etype, self.msg, self.value = etype, msg, value
        self.site = None
        self.stack = None


# -- symbolic dimensions --------------------------------------------------------------------


class Dim:
    """A symbolic axis length.  Either a plain symbol (stands for any length >= 2), a
    concatenation (`segs`) or an ordered product (`factors`)."""

    _reg = {}
    __slots__ = ("name", "segs", "factors", "poly")

    def __new__(cls, name, segs=None, factors=None):
        d = cls._reg.get(name)
        if d is None:
            d = object.__new__(cls)
            d.name, d.segs, d.factors = name, segs, factors
            if segs is not None:
                p = alg.ZERO
                for s in segs:
                    p = p + dpoly(s)
            elif factors is not None:
                p = alg.ONE
                for s in factors:
                    p = p * dpoly(s)
            else:
                p = alg.var("dim:" + name, pos=True)
                p.is_var().isint = True
            d.poly = p
            cls._reg[name] = d
        return d

    def __repr__(self):
        return self.name

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def dpoly(d):
    return d.poly if isinstance(d, Dim) else topoly(d)


def seg_dim(segs):
    flat = []
    for s in segs:
        if isinstance(s, Dim) and s.segs is not None:
            flat.extend(s.segs)
        else:
            flat.append(s)
    if all(isinstance(s, int) for s in flat):
        return sum(flat)
    if len(flat) == 1:
        return flat[0]
    return Dim("(" + "+".join(map(str, flat)) + ")", segs=tuple(flat))


def prod_dim(factors):
    flat = []
    for f in factors:
        if isinstance(f, Dim) and f.factors is not None:
            flat.extend(f.factors)
        elif f != 1:
            flat.append(f)
    out = []
    for f in flat:
        if out and isinstance(f, int) and isinstance(out[-1], int):
            out[-1] *= f
        else:
            out.append(f)
    if not out:
        return 1
    if len(out) == 1:
        return out[0]
    return Dim("(" + "*".join(map(str, out)) + ")", factors=tuple(out))


def to_dim(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Dim)):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if isinstance(x, Poly):
        c = x.as_const()
        if c is not None:
            if isinstance(c, int):
                return c
            raise AbsRaise("TypeError", "non-integer length")
        for d in Dim._reg.values():
            if d.poly == x:
                return d
        if len(x.t) == 1:
            (m, c), = x.t.items()
            fs = [c] if c != 1 else []
            for i, e in m:
                d = next((d for d in Dim._reg.values() if d.poly.is_var() is alg.ATOMS[i]),
                         None)
                if d is None or not isinstance(e, int) or e < 0:
                    raise Unsupported("symbolic length %s" % x)
                fs += [d] * e
            return prod_dim(fs)
    raise Unsupported("axis length %r" % (x,))


def dlen(d):
    """Number of stored representatives along an axis."""
    if isinstance(d, int):
        return d
    if d.segs is not None:
        return sum(dlen(s) for s in d.segs)
    if d.factors is not None:
        n = 1
        for f in d.factors:
            n *= dlen(f)
        return n
    return 1


# -- conditions -----------------------------------------------------------------------------


class Cond:
    """An undecided truth value.  `kind`:
    eq0 (arg: Poly) - the element is zero;  lt0 (arg: Poly) - negative;
    close (args: Poly difference, rtol, atol, scale) - tolerance test at this point;
    any / all (args: tuple of truth values);  opaque (args: anything)."""

    __slots__ = ("kind", "args", "neg")

    def __init__(self, kind, args, neg=False):
        self.kind, self.args, self.neg = kind, args, neg

    def key(self):
        return (self.kind, self.args)

    def __hash__(self):
        return hash((self.kind, self.args, self.neg))

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key() == o.key() and self.neg == o.neg

    def invert(self):
        return Cond(self.kind, self.args, not self.neg)

    def __str__(self):
        n = {"eq0": "%s == 0", "lt0": "%s < 0"}.get(self.kind)
        if n:
            s = n % (self.args[0],)
        else:
            s = "%s(%s)" % (self.kind, ", ".join(str(a) for a in self.args))
        if len(s) > 200:
            s = s[:200] + "..."
        return ("not " if self.neg else "") + s

    __repr__ = __str__


def c_not(c):
    if isinstance(c, Cond):
        return c.invert()
    return not c


def numeric(p):
    """Sign of an expression in known constants, or None."""
    inf = 0
    known = True
    for m, c in p.t.items():
        for i, e in m:
            n = alg.ATOMS[i].name
            if n == "const(inf)":
                if len(m) > 1 or e != 1:
                    return None
                inf = 1 if c > 0 else -1
            elif n != "pi":
                known = False
    if inf:
        return inf          # every other value is finite
    if not known:
        return None
    v = sum(float(c) * 3.141592653589793 ** float(sum(e for _, e in m))
            for m, c in p.t.items())
    return None if abs(v) < 1e-9 else (1 if v > 0 else -1)


def c_eq0(p):
    p = topoly(p)
    k = p.as_const()
    if k is not None:
        return k == 0
    if numeric(p) is not None:
        return False
    if len(p.t) == 1:
        (m, _), = p.t.items()
        if all(alg.ATOMS[i].pos for i, _ in m):
            return False
        # drop positive factors: they cannot vanish
        m2 = tuple((i, 1 if isinstance(e, int) and e > 0 else e)
                   for i, e in m if not alg.ATOMS[i].pos)
        p = Poly({m2: 1})
    else:
        if alg._all_positive(p) or alg._all_positive(-p):
            return False
        lead = p.t[min(p.t, key=alg._mkey)]
        if lead != 1:
            p = p * (Fraction(1) / Fraction(lead))
    return Cond("eq0", (p,))


def c_lt0(p):
    p = topoly(p)
    k = p.as_const()
    if k is not None:
        return k < 0
    k = numeric(p)
    if k is not None:
        return k < 0
    if alg._all_positive(p):
        return False
    if alg._all_positive(-p):
        return True
    lead = abs(p.t[min(p.t, key=alg._mkey)])
    if lead != 1:
        p = p * (Fraction(1) / Fraction(lead))
    return Cond("lt0", (p,))


def c_any(cs):
    cs = tuple(cs)
    if any(c is True for c in cs):
        return True
    cs = tuple(dict.fromkeys(c for c in cs if c is not False))
    if not cs:
        return False
    if len(cs) == 1:
        return cs[0]
    return Cond("any", cs)


def c_all(cs):
    return c_not(c_any([c_not(c) for c in cs]))


# -- arrays ---------------------------------------------------------------------------------


class AArray:
    """An abstract numpy array.

    dims : tuple of int | Dim; data : object array, one representative per symbolic axis;
    dtype: 'f', 'i' or 'b'; elements: Poly / int / bool / Cond.
    Views share `data` memory exactly as numpy views do, so that in-place writes and
    aliases are tracked."""

    __slots__ = ("data", "dims", "dtype", "readonly", "site", "label", "torch", "__weakref__")

    def __init__(self, data, dims, dtype="f", readonly=False, site=None):
        self.data, self.dims, self.dtype = data, tuple(dims), dtype
        self.readonly, self.site, self.label, self.torch = readonly, site, None, None
        assert data.shape == tuple(dlen(d) for d in self.dims), (data.shape, self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    def __repr__(self):
        return "AArray%s:%s" % (self.dims, self.dtype)

    def snapshot(self):
        return self.data.copy()


ATOM_DIMS = {}  # atom idx -> frozenset of Dim


def atom_dims(i, _memo={}):
    r = ATOM_DIMS.get(i)
    if r is not None:
        return r
    a = alg.ATOMS[i]
    out = frozenset()
    for q in alg._payload_polys(a):
        out |= poly_dims(q)
    return out


def poly_dims(p):
    out = frozenset()
    for i in p.atoms():
        out |= atom_dims(i)
    return out


def base_dims(dims):
    out = set()
    for d in dims:
        if isinstance(d, Dim):
            if d.segs:
                out |= base_dims(d.segs)
            elif d.factors:
                out |= base_dims(d.factors)
            else:
                out.add(d)
    return out


INTEGERS = [False]      # whether generic inputs are integer-valued arrays


@contextlib.contextmanager
def floating():
    """Floating-point arrays also where generic inputs are integer-valued."""
    keep, INTEGERS[0] = INTEGERS[0], False
    try:
        yield
    finally:
        INTEGERS[0] = keep


def input_array(name, dims, lead=None, pos=(), names=None, sym=None, dtype="f"):
    """A fresh input array with one variable per stored element.

    names: function(index tuple over the leading concrete axes) -> variable name."""
    if INTEGERS[0] and dtype == "f":
        dtype = "i"
    if dtype == "i":
        name = "int:" + name
        if names:
            plain = names
            names = lambda idx: "int:" + plain(idx)  # noqa: E731
    shape = tuple(dlen(d) for d in dims)
    data = np.empty(shape, dtype=object)
    bd = frozenset(base_dims(dims))
    for idx in np.ndindex(*shape):
        nm = names(idx) if names else name + (
            "" if not idx else "[%s]" % ",".join(
                str(i) for i, d in zip(idx, dims) if not isinstance(d, Dim) or d.segs))
        p = alg.var(nm, pos=(pos is True or idx in pos))
        ATOM_DIMS[p.is_var().idx] = bd
        if dtype == "i":
            p.is_var().isint = True
        data[idx] = p
    a = AArray(data, dims, dtype)
    a.label = name
    return a


# -- opaque things ----------------------------------------------------------------------------


class Top:
    """An unknown value."""

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return "Top(%s)" % self.reason


class HostFunc:
    """A function supplied by the analysis (library model or stub)."""

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn, self.attrs = name, fn, attrs or {}

    def __repr__(self):
        return "<host %s>" % self.name


class HostObj:
    """An object supplied by the analysis; attributes live in a dict."""

    def __init__(self, cls, attrs=None, getter=None):
        self.cls, self.attrs, self.getter = cls, dict(attrs or {}), getter

    def __repr__(self):
        return "<host object %s>" % self.cls


class Recorder:
    """An opaque object which records the calls made on it (plots, warnings, ...)."""

    def __init__(self, name, log, result=None):
        self.name, self.log, self.result = name, log, result or {}
        self.sub = {}

    def __repr__(self):
        return "<recorder %s>" % self.name


class TypeTok:
    def __init__(self, name, pred, call=None, attrs=None):
        self.name, self.pred, self.call, self.attrs = name, pred, call, attrs or {}

    def __repr__(self):
        return "<type %s>" % self.name
