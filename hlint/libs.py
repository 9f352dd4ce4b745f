"""Builtins and library models other than numpy."""

import itertools
import sys
from fractions import Fraction

from . import alg, npm, nplib
from .absval import (AArray, AbsRaise, Cond, Dim, HostFunc, HostObj, Recorder, Top, TypeTok,
                     Unsupported, c_any, c_lt0, c_not, dpoly, to_dim)
from .alg import Poly, topoly
from .objects import (AClass, AFunc, AGen, AObj, Bound, Cached, Module, NOTIMPL, OBJECT, Prop, Super,
                      Wrapped)


def _len(it, a, k):
    x = a[0]
    if isinstance(x, AArray):
        if not x.dims:
            raise AbsRaise("TypeError", "len() of unsized object")
        d = x.dims[0]
        return d if isinstance(d, int) else d.poly
    from .interp import PYTYPES
    if isinstance(x, PYTYPES) and not isinstance(x, slice):
        return len(x)
    if isinstance(x, HostObj) and "__len__" in x.attrs:
        return it.call(x.attrs["__len__"], [], {})
    if isinstance(x, AObj):
        return it.dunder(x, "__len__", [])
    if isinstance(x, AClass) and x.lookup("__meta_len__")[1] is not None:
        return it.call(x.lookup("__meta_len__")[0].fn, [x], {})
    if isinstance(x, Top):
        raise Unsupported("len of %r" % x)
    raise AbsRaise("TypeError", "object has no len()")


def _range(it, a, k):
    v = []
    for x in a:
        if isinstance(x, (Dim,)) or (isinstance(x, Poly) and x.as_const() is None):
            raise Unsupported("loop over a symbolic number of points")
        v.append(it.conc_int(x))
    return range(*v)


def lazy(it, kind, host):
    """An iterator object computed on request."""
    f = it.stack[-1][0] if it.stack else AFunc(None, Module("?"), None, (), {}, kind, kind)
    return AGen(it, host, f, kind)


def _zip(it, a, k):
    cols = [it.iter_host(x) for x in a]
    strict = it.truth(k.get("strict", False))
    if "strict" in k:
        it.newer.append(("the argument strict of zip", (3, 10), it.site()))

    def run():
        while cols:
            row = []
            for j, c in enumerate(cols):
                try:
                    row.append(next(c))
                except StopIteration:
                    if strict:
                        if j > 0:
                            raise AbsRaise("ValueError", "zip() arguments differ in length")
                        for c2 in cols[1:]:
                            if next(c2, nplib) is not nplib:
                                raise AbsRaise("ValueError",
                                               "zip() arguments differ in length")
                    return
            yield tuple(row)
    return lazy(it, "zip", run())


def _enumerate(it, a, k):
    s = k.get("start", a[1] if len(a) > 1 else 0)
    return lazy(it, "enumerate", ((j, x) for j, x in enumerate(it.iter_host(a[0]), s)))


def _reversed(it, a, k):
    x = a[0]
    if isinstance(x, AObj):
        m, c = x.cls.lookup("__reversed__")
        if c is not None:
            return it.call(m, [x], {})
        n = it.conc_int(_len(it, [x], {}))
        return lazy(it, "reversed", (it.getitem(x, j) for j in range(n - 1, -1, -1)))
    if isinstance(x, (set, frozenset)) or hasattr(x, "__next__"):
        raise AbsRaise("TypeError", "'%s' object is not reversible" % type(x).__name__)
    return lazy(it, "reversed", (y for y in reversed(it.iterate(x))))


def type_match(it, x, t):
    if isinstance(t, tuple):
        return any([type_match(it, x, y) is True for y in t])
    if t is None:
        return x is None
    if isinstance(t, TypeTok):
        if isinstance(x, AObj):
            if t.name == "object":
                return True
            from .interp import EXC, exc_is
            if t.name in EXC or t.name == "BaseException":
                return exc_is(x.cls.exception(), t.name)
            if any(b is t or isinstance(b, TypeTok) and b.name == t.name
                   for b in x.cls.toks()):
                return True
            if "structural" in t.attrs:
                return t.attrs["structural"](x)
            return False
        if t.name == "type" and isinstance(x, AClass):
            return True
        return t.pred(x)
    if isinstance(t, AClass):
        c = getattr(x, "cls", None)
        if isinstance(x, AObj) and t.lookup("__instancecheck__")[1] is None and t.meta \
                is not None and isinstance(t.meta, AClass) and t.meta.lookup(
                    "__instancecheck__")[1] is not None:
            return it.truth(it.call(t.meta.lookup("__instancecheck__")[0], [t, x], {}))
        if isinstance(c, AClass) and t in c.mro():
            return True
        if isinstance(c, AClass) and t.lookup("__registered__")[1] is not None:
            return any(type_match(it, x, r) for r in t.lookup("__registered__")[0])
        if isinstance(x, AClass) and isinstance(x.meta, AClass):
            return t in x.meta.mro()
        if t.lookup("__registered__")[1] is not None:
            return any(type_match(it, x, r) for r in t.lookup("__registered__")[0])
        return False
    if isinstance(t, HostObj) and "instancecheck" in t.attrs:
        return t.attrs["instancecheck"](x)
    if isinstance(t, Top):
        return it.decide(Cond("opaque", ("isinstance %s" % t.reason, id(x))))
    if isinstance(t, npm.DType):
        return isinstance(x, Poly)
    if isinstance(t, (HostFunc, HostObj, Recorder)):
        raise Unsupported("isinstance of %r" % (t,))
    raise AbsRaise("TypeError", "isinstance() arg 2 must be a type")


def _isinstance(it, a, k):
    if isinstance(a[0], Top):
        return Cond("opaque", ("isinstance(%s)" % a[0].reason,))
    return type_match(it, a[0], a[1])


def _issubclass(it, a, k):
    from .interp import exc_is
    c, t = a
    for x in t if isinstance(t, tuple) else (t,):
        if isinstance(x, Top) or isinstance(c, Top):
            raise Unsupported("issubclass of %r" % (a,))
        if isinstance(x, TypeTok) and x.name == "object" or x is c:
            return True
        if isinstance(c, AClass):
            if x in c.mro() or x in c.toks():
                return True
            if isinstance(x, TypeTok) and exc_is(c.exception(), x.name):
                return True
        elif isinstance(c, TypeTok):
            if isinstance(x, TypeTok) and (exc_is(c.name, x.name) or (
                    c.name, x.name) in (("bool", "int"), ("float64", "float"))):
                return True
        else:
            raise AbsRaise("TypeError", "issubclass() arg 1 must be a class")
    return False


def _hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except AbsRaise as e:
        if e.etype == "AttributeError":
            return False
        raise


def _getattr(it, a, k):
    if len(a) > 2:
        return it.getattr(a[0], a[1], a[2])
    return it.getattr(a[0], a[1])


def _setattr(it, a, k):
    it.setattr(*a)


def _sum(it, a, k):
    r = k.get("start", a[1] if len(a) > 1 else 0)
    for x in it.iterate(a[0]):
        r = it.binop("Add", r, x)
    return r


def _minmax(mx):
    def f(it, a, k):
        vals = it.iterate(a[0]) if len(a) == 1 else list(a)
        if not vals:
            if "default" in k:
                return k["default"]
            raise AbsRaise("ValueError", "arg is an empty sequence")
        key = k.get("key")
        kv = [it.call(key, [v], {}) for v in vals] if key is not None else vals
        best, bk = vals[0], kv[0]
        for v, q in zip(vals[1:], kv[1:]):
            c = it.compare("Gt" if mx else "Lt", q, bk)
            if it.truth(c):
                best, bk = v, q
        return best
    return f


def _map(it, a, k):
    cols = [it.iter_host(x) for x in a[1:]]
    if not cols:
        raise AbsRaise("TypeError", "map() must have at least two arguments.")
    return lazy(it, "map", (it.call(a[0], list(t), {}) for t in zip(*cols)))


def _filter(it, a, k):
    src = it.iter_host(a[1])
    return lazy(it, "filter", (x for x in src if it.truth(
        x if a[0] is None else it.call(a[0], [x], {}))))


def _suppress(it, a, k):
    from .interp import exc_matches

    def leave(i, args, kw):
        if args[0] is None:
            return False
        e = args[1].attrs.get("raised") if isinstance(args[1], HostObj) else AbsRaise(
            args[1].cls.exception(), "", args[1])
        return any(exc_matches(e, t) for t in a)
    return HostObj("suppress", {"__exit__": HostFunc("suppress.__exit__", leave)})


def _contextmanager(it, a, k):
    f = a[0]

    def make(i, x, y):
        g = i.call(f, x, y)
        if not isinstance(g, AGen):
            if isinstance(g, (Top, Recorder)):
                raise Unsupported("context of %r" % (g,))
            raise AbsRaise("AttributeError", "'%s' object has no attribute '__next__'"
                           % type(g).__name__)

        def decorate(i2, fs, _):
            def run(i3, p, q):
                v, leave = i3.enter(make(i3, x, y))
                depth = len(i3.stack)
                try:
                    r = i3.call(fs[0], p, q)
                except AbsRaise as e:
                    del i3.stack[depth:]
                    if not leave(e):
                        raise
                    return None
                leave(None)
                return r
            return HostFunc(getattr(fs[0], "name", "decorated"), run, {"method": True})
        ctx = HostObj("generator context", {
            "gen": lambda: g, "__call__": HostFunc("context decorator", decorate)})
        state = {}

        def enter(i2, p, q):
            v, state["leave"] = i2.enter(ctx)
            return v

        def leave(i2, p, q):
            e = None if p[0] is None else i2.as_raise(p[1] if p[1] is not None else p[0])
            return state["leave"](e)
        ctx.attrs["__enter__"] = HostFunc("__enter__", enter)
        ctx.attrs["__exit__"] = HostFunc("__exit__", leave)
        return ctx
    return HostFunc(getattr(f, "name", "contextmanager"), make,
                    {"method": True, "__wrapped__": f})


def sort(it, xs, k):
    """Stable sorting with the comparisons of the program."""
    import functools
    bad = set(k) - {"key", "reverse"}
    if bad:
        raise AbsRaise("TypeError", "sort() got an unexpected keyword argument %s" % bad)
    key = k.get("key")
    ks = [it.call(key, [x], {}) for x in xs] if key is not None else list(xs)
    rev = it.truth(k.get("reverse", False))
    simple = all(isinstance(x, str) for x in ks) or all(isinstance(x, int) for x in ks)

    def cmp(i, j):
        if it.truth(it.compare("Lt", ks[i], ks[j])):
            return -1
        return 1 if it.truth(it.compare("Lt", ks[j], ks[i])) else 0
    if simple:
        o = sorted(range(len(xs)), key=lambda j: ks[j], reverse=rev)
    else:
        if len(xs) > 6 and any(isinstance(x, (Poly, Cond)) and topoly(x).as_const() is None
                               for x in ks):
            raise Unsupported("sorting of many symbolic values")
        o = sorted(range(len(xs)), key=functools.cmp_to_key(cmp), reverse=rev)
    return [xs[j] for j in o]


def _sorted(it, a, k):
    return sort(it, it.iterate(a[0]), k)


def _abs(it, a, k):
    if isinstance(a[0], AObj):
        return it.dunder(a[0], "__abs__", [])
    return nplib.FUNCS["absolute"](a[0])


def _float(it, a, k):
    x = a[0] if a else 0
    if isinstance(x, str):
        if "{" in x:
            raise Unsupported("number from the text %r" % x[:60])
        try:
            v = float(x)
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))
        if v != v:
            return alg.app("nan", "nan")
        if abs(v) == float("inf"):
            r = alg.app("const", "inf", pos=True)
            return r if v > 0 else -r
        return alg.const(alg.exact(v))
    if isinstance(x, AObj):
        for n in ("__float__", "__index__"):
            m, c = x.cls.lookup(n)
            if c is not None:
                return it.call(m, [x], {})
        raise AbsRaise("TypeError", "float() argument must be a number")
    if x is None or isinstance(x, (list, tuple, dict, set)):
        raise AbsRaise("TypeError", "float() argument must be a string or a real number")
    if isinstance(x, AArray):
        if x.data.size == 1 and all(isinstance(d, int) for d in x.dims):
            return topoly(npm._num(x.data.ravel()[0]))
        raise AbsRaise("TypeError", "only 0-dimensional arrays can be converted to scalars")
    if isinstance(x, (Cond, bool)):
        return topoly(npm._num(x))
    if isinstance(x, Top):
        return x
    p = topoly(x)
    if p is None:
        raise AbsRaise("TypeError", "float() argument must be a number")
    return p


def _int(it, a, k):
    x = a[0] if a else 0
    if isinstance(x, Top):
        return x
    if isinstance(x, (bool, Cond)):
        return npm._num(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Dim):
        return x.poly
    if isinstance(x, Poly):
        c = x.as_const()
        if c is None:
            if all(alg.ATOMS[i].isint for i in x.atoms()):
                return x
            return alg.app("trunc", x)
        return int(c)
    if isinstance(x, str):
        if "{" in x:
            raise Unsupported("number from the text %r" % x[:60])
        try:
            return int(x, *[it.conc_int(v) for v in [k.get("base", a[1] if len(a) > 1
                                                           else 10)]])
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))
    if isinstance(x, AObj):
        for n in ("__int__", "__index__", "__trunc__"):
            m, c = x.cls.lookup(n)
            if c is not None:
                return it.call(m, [x], {})
    if isinstance(x, AArray) and x.data.size == 1:
        return _int(it, [x.data.ravel()[0]], {})
    raise AbsRaise("TypeError", "int() argument")


def _bool(it, a, k):
    x = a[0] if a else False
    if isinstance(x, Cond):
        return x
    return it.truth(x)


def _str(it, a, k):
    from .interp import format_value
    if a and isinstance(a[0], Top):
        return Top("str(%s)" % a[0].reason)
    return format_value(a[0]) if a else ""


def _repr(it, a, k):
    from .interp import repr_value
    if isinstance(a[0], Top):
        return Top("repr(%s)" % a[0].reason)
    return repr_value(a[0])


def _format(it, a, k):
    from .interp import format_value
    return format_value(a[0], a[1] if len(a) > 1 else "")


def _round(it, a, k):
    x = a[0]
    p = topoly(x)
    if p is not None and p.as_const() is not None:
        n = a[1] if len(a) > 1 else None
        r = round(Fraction(p.as_const()), n)
        return r if n is None else alg.const(r)
    return nplib.FUNCS["round"](*a)


def _any(it, a, k):
    vals = []
    for x in it.iterate(a[0]):
        vals.append(x if isinstance(x, (bool, Cond)) else it.truth(x))
    return c_any(vals)


def _all(it, a, k):
    vals = []
    for x in it.iterate(a[0]):
        vals.append(x if isinstance(x, (bool, Cond)) else it.truth(x))
    return c_not(c_any([c_not(v) for v in vals]))


def _print(it, a, k):
    it.events.append(("print", a, k, it.site()))


def _type(it, a, k):
    if len(a) == 3:
        mod = it.stack[-1][0].module if it.stack else None
        return it.build_class(a[0], list(it.iterate(a[1])), dict(a[2]), mod,
                              (mod.name + "." if mod else "") + a[0], None, k)
    x = a[0]
    if isinstance(x, AObj) or isinstance(getattr(x, "cls", None), AClass) and isinstance(
            x, tuple):
        return x.cls
    if isinstance(x, AArray):
        return nplib.NDARRAY
    if isinstance(x, AClass):
        return x.meta if x.meta is not None else BUILT["type"]
    if isinstance(x, HostObj) and x.cls == "exception":
        n = x.attrs["etype"]
        return BUILT.get(n) or TypeTok(n, lambda y: False)
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set", "frozenset",
              "slice", "range", "bytes"):
        if BUILT[n].pred(x):
            return BUILT[n]
    if x is None:
        return BUILT["NoneType"]
    if isinstance(x, AGen):
        return BUILT.get(x.kind) or BUILT["generator"]
    if isinstance(x, AFunc):
        return BUILT["function"]
    if isinstance(x, Bound):
        return BUILT["method"]
    if isinstance(x, Module):
        return BUILT["module"]
    return Top("type")


def _iter(it, a, k):
    v = a[0]
    if len(a) > 1:
        def run():
            for _ in range(100000):
                x = it.call(v, [], {})
                if it.truth(it.compare("Eq", x, a[1])):
                    return
                yield x
            raise Unsupported("iteration without end")
        return lazy(it, "callable_iterator", run())
    if hasattr(v, "__next__"):
        return v
    if isinstance(v, AObj) and v.cls.lookup("__iter__")[1] is not None:
        return it.call(v.cls.lookup("__iter__")[0], [v], {})
    kind = type(v).__name__ + "_iterator" if not isinstance(v, AArray) else "iterator"
    src = it.iter_host(v)
    return lazy(it, kind, (x for x in src))


def _next(it, a, k):
    from .interp import new_exc
    g = a[0]
    depth = len(it.stack)
    try:
        if isinstance(g, AObj):
            return it.dunder(g, "__next__", [])
        if not hasattr(g, "__next__"):
            if isinstance(g, (Top, Recorder, HostObj)):
                raise Unsupported("next of %r" % (g,))
            raise AbsRaise("TypeError", "'%s' object is not an iterator" % type(g).__name__)
        return next(g)
    except StopIteration as e:
        if len(a) > 1:
            return a[1]
        raise AbsRaise("StopIteration", "", new_exc(
            "StopIteration", () if e.value is None else (e.value,)))
    except AbsRaise as e:
        if e.etype == "StopIteration" and len(a) > 1:
            del it.stack[depth:]
            return a[1]
        raise


def _dict(it, a, k):
    from .interp import hashable
    d = {}
    if a:
        x = a[0]
        if isinstance(x, dict) or isinstance(x, HostObj) and "mapping" in x.attrs or isinstance(
                x, AObj) and x.cls.lookup("keys")[1] is not None:
            d.update(it.as_mapping(x))
        else:
            for p in it.iterate(x):
                q = it.iterate(p)
                if len(q) != 2:
                    raise AbsRaise("ValueError", "dictionary update sequence element has "
                                   "length %d; 2 is required" % len(q))
                d[hashable(q[0])] = q[1]
    d.update(k)
    return d


def _slice(it, a, k):
    return slice(*a)


def _callable(it, a, k):
    x = a[0]
    if isinstance(x, AObj):
        return x.cls.lookup("__call__")[1] is not None
    if isinstance(x, HostObj):
        return "__call__" in x.attrs
    return isinstance(x, (AFunc, HostFunc, AClass, Bound, TypeTok, Recorder)) or (
        isinstance(x, Wrapped) and x.kind == "staticmethod")


def _dir(it, a, k):
    if not a:
        raise Unsupported("dir()")
    x = a[0]
    out = set()
    if isinstance(x, AObj):
        out |= set(x.attrs)
    c = x.cls if isinstance(x, AObj) else x
    if isinstance(c, AClass):
        for q in c.mro():
            out |= set(q.ns)
        return sorted(out)
    if isinstance(x, Module) and x.getter is None:
        return sorted(x.ns)
    raise Unsupported("dir of %r" % (x,))


def _hash(it, a, k):
    from .interp import hashable
    return hash(hashable(a[0]))


def _host(f, *types):
    """A builtin of Python applied to constants."""
    def g(it, a, k):
        if not all(isinstance(x, types) for x in a) or k:
            if any(isinstance(x, Top) for x in a):
                return Top("call")
            if any(isinstance(x, (Poly, Cond, AArray, AObj)) for x in a):
                raise Unsupported("%s of %r" % (f.__name__, a))
            raise AbsRaise("TypeError", "bad argument of %s()" % f.__name__)
        try:
            return f(*a)
        except (TypeError, ValueError, OverflowError, ZeroDivisionError) as e:
            raise AbsRaise(type(e).__name__, str(e))
    return g


def _unmodelled(n):
    def g(it, a, k):
        raise Unsupported("%s()" % n)
    return g


def _superf(it, a, k):
    if len(a) != 2 or not isinstance(a[0], AClass):
        raise Unsupported("super of %r" % (a,))
    if isinstance(a[1], AObj) and a[0] not in a[1].cls.mro():
        raise AbsRaise("TypeError", "super(type, obj): obj must be an instance or subtype "
                       "of type")
    return Super(a[0], a[1])


def _property(it, a, k):
    names = ("fget", "fset", "fdel", "doc")
    v = dict(zip(names, a), **k)
    return Prop(v.get("fget"), v.get("fset"), v.get("fdel"))


def _vars(it, a, k):
    return it.getattr(a[0], "__dict__")


def _open(it, a, k):
    it.events.append(("open", a, k, it.site()))
    return Top("file")


def _set(it, a):
    from .interp import make_set
    return make_set(it.iterate(a[0])) if a else set()


class ATuple(tuple):
    """A named tuple: `cls` is its class."""
    __slots__ = ()
    cls = None


def ntuple(cls, vals):
    t = type("ATuple", (ATuple,), {"cls": cls})(vals)
    return t


class ADeque(list):
    maxlen = None


class ADefault(dict):
    factory = None


def _isnum(x):
    return isinstance(x, Poly) or isinstance(x, Fraction)


BUILT = {}


def _t(name, pred, call=None, attrs=None):
    BUILT[name] = TypeTok(name, pred, call, attrs)


_t("list", lambda x: isinstance(x, list) and not isinstance(x, ADeque), lambda i, a, k: list(i.iterate(a[0])) if a else [])
_t("tuple", lambda x: isinstance(x, tuple), lambda i, a, k: tuple(i.iterate(a[0])) if a else ())
_t("set", lambda x: isinstance(x, set), lambda i, a, k: _set(i, a))
_t("frozenset", lambda x: isinstance(x, frozenset), lambda i, a, k: frozenset(_set(i, a)))
_t("dict", lambda x: isinstance(x, dict), _dict, {
    "fromkeys": HostFunc("dict.fromkeys", lambda i, a, k: {
        x: (a[1] if len(a) > 1 else None) for x in i.iterate(a[0])})})
_t("str", lambda x: isinstance(x, str), _str)
_t("bytes", lambda x: isinstance(x, bytes))
_t("bool", lambda x: isinstance(x, (bool, Cond)), _bool)
_t("int", lambda x: isinstance(x, (int, Dim)) or (
    isinstance(x, Poly) and bool(x.t) and x.as_const() is None
    and all(alg.ATOMS[j].isint for j in x.atoms())), _int)
_t("float", lambda x: _isnum(x) and not BUILT["int"].pred(x), _float)
_t("complex", lambda x: False)
_t("object", lambda x: True, lambda i, a, k: HostObj("object"),
   {n: HostFunc("object." + n, f) for n, f in OBJECT.items()})
_t("slice", lambda x: isinstance(x, slice), _slice)
_t("type", lambda x: isinstance(x, (TypeTok, AClass)), _type)
_t("range", lambda x: isinstance(x, range), _range)
_t("NoneType", lambda x: x is None)
_t("property", lambda x: isinstance(x, Prop), _property)
_t("staticmethod", lambda x: isinstance(x, Wrapped) and x.kind == "staticmethod",
   lambda i, a, k: Wrapped("staticmethod", a[0]))
_t("classmethod", lambda x: isinstance(x, Wrapped) and x.kind == "classmethod",
   lambda i, a, k: Wrapped("classmethod", a[0]))
_t("BaseException", lambda x: isinstance(x, HostObj) and x.cls == "exception")
for _n, _f in (("enumerate", _enumerate), ("zip", _zip), ("map", _map), ("filter", _filter),
               ("reversed", _reversed)):
    _t(_n, (lambda n: lambda x: isinstance(x, AGen) and x.kind == n)(_n), _f)
_t("generator", lambda x: isinstance(x, AGen) and x.kind == "generator")
_t("function", lambda x: isinstance(x, AFunc))
_t("method", lambda x: isinstance(x, Bound))
_t("module", lambda x: isinstance(x, Module))
_HIDDEN = ("generator", "function", "method", "module", "NoneType")


def _fill():
    from .interp import EXC
    for n in EXC:
        if n == "LinAlgError":
            continue
        _t(n, (lambda n: lambda x: isinstance(x, HostObj) and x.cls == "exception"
               and __import__("hlint.interp", fromlist=["exc_is"]).exc_is(
                   x.attrs["etype"], n))(n))
    for n, f in {
        "len": _len, "isinstance": _isinstance, "issubclass": _issubclass,
        "hasattr": _hasattr, "getattr": _getattr, "setattr": _setattr, "sum": _sum,
        "min": _minmax(False), "max": _minmax(True), "sorted": _sorted, "abs": _abs,
        "round": _round, "any": _any, "all": _all, "print": _print, "iter": _iter,
        "next": _next, "callable": _callable, "vars": _vars, "open": _open,
        "repr": _repr, "format": _format, "id": lambda i, a, k: id(a[0]),
        "hash": _hash, "super": _superf, "dir": _dir,
        "delattr": lambda i, a, k: i.delattr(a[0], a[1]),
        "ord": _host(ord, str), "chr": _host(chr, int), "hex": _host(hex, int),
        "oct": _host(oct, int), "bin": _host(bin, int), "ascii": _repr,
        "pow": lambda i, a, k: i.binop("Pow", a[0], a[1]) if len(a) < 3 else _host(
            pow, int)(i, a, k),
        "divmod": lambda i, a, k: (i.binop("FloorDiv", *a), i.binop("Mod", *a)),
        "globals": lambda i, a, k: i.stack[-1][0].module.ns,
    }.items():
        BUILT[n] = HostFunc(n, f)


def builtin(n):
    if "len" not in BUILT:
        _fill()
    if n in BUILT and n not in _HIDDEN:
        return BUILT[n]
    if n in ("IOError", "EnvironmentError"):
        return BUILT["OSError"]
    if n == "__name__":
        return "hyperelastic"
    if n == "NotImplemented":
        return NOTIMPL
    if n == "Ellipsis":
        return Ellipsis
    if n == "__debug__":
        return True
    if n in KNOWN:
        return HostFunc(n, _unmodelled(n))
    return None


KNOWN = frozenset(dir(__import__("builtins"))) - {"None", "True", "False", "__doc__"}


# -- library modules ------------------------------------------------------------------------


def _mod(name, fns, getter=None):
    def make(it):
        from .interp import Module
        from .interp import stdlib_attr
        ns = {n: (HostFunc("%s.%s" % (name, n), f) if callable(f) else f)
              for n, f in fns.items()}
        std = name.split(".")[0] in sys.stdlib_module_names
        return Module(name, ns=ns, getter=getter or (
            (lambda a: stdlib_attr(name, a)) if std else None))
    return make


def _partial(it, a, k):
    if not a:
        raise AbsRaise("TypeError", "partial() takes at least one argument")
    f, pre, kk = a[0], list(a[1:]), dict(k)
    if not isinstance(f, Top) and not it.truth(_callable(it, [f], {})):
        raise AbsRaise("TypeError", "the first argument must be callable")
    if isinstance(f, HostFunc) and f.name == "partial":
        pre, kk = list(f.attrs["args"]) + pre, {**f.attrs["keywords"], **kk}
        f = f.attrs["func"]
    return HostFunc("partial", lambda i, x, y: i.call(f, pre + list(x), {**kk, **y}),
                    {"func": f, "args": tuple(pre), "keywords": kk})


def _wraps(it, a, k):
    return HostFunc("wraps", lambda i, x, y: _update_wrapper(i, [x[0], a[0]], {}))


def _update_wrapper(it, a, k):
    w, f = a[0], a[1]
    if isinstance(w, AFunc):
        for n in ("__name__", "__qualname__", "__doc__", "__module__"):
            if isinstance(f, (AFunc, AClass)):
                w.attrs[n] = it.getattr(f, n)
        if isinstance(f, AFunc):
            for n, v in f.attrs.items():
                if not n.startswith("__"):
                    w.attrs.setdefault(n, v)
        w.attrs["__wrapped__"] = f
    return w


def _reduce(it, a, k):
    vals = list(it.iterate(a[1]))
    if len(a) > 2:
        r = a[2]
    else:
        if not vals:
            raise AbsRaise("TypeError", "reduce() of empty sequence")
        r = vals.pop(0)
    for v in vals:
        r = it.call(a[0], [r, v], {})
    return r


def _memoise(it, f):
    """lru_cache & co: results are shared between calls; keyed as Python would."""
    from .interp import hashable, keyof
    cache, n = {}, [0, 0]

    def g(i, a, k):
        kk = (tuple(hashable(x) for x in a), tuple(sorted((m, hashable(v)) for m, v in
                                                          k.items())))
        kk = keyof(kk, cache)
        n[kk not in cache] += 1
        if kk not in cache:
            cache[kk] = i.call(f, a, k)
        return cache[kk]

    def info(i, a, k):
        return ntuple(None, (n[0], n[1], None, len(cache)))
    return HostFunc(getattr(f, "name", "cached"), g, {
        "method": True, "__wrapped__": f,
        "cache_clear": HostFunc("cache_clear", lambda i, a, k: cache.clear()),
        "cache_info": HostFunc("cache_info", info)})


def _lru(it, a, k):
    if a and not isinstance(a[0], int) and a[0] is not None:
        return _memoise(it, a[0])
    return HostFunc("lru_cache", lambda i, x, y: _memoise(i, x[0]))


def _deepcopy(x, memo):
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, AObj):
        m, c = x.cls.lookup("__deepcopy__")
        if c is not None:
            return npm.CUR.call(m, [x, {}], {})
    if isinstance(x, AArray):
        r = AArray(x.data.copy(), x.dims, x.dtype)
    elif isinstance(x, list):
        r = []
        memo[id(x)] = r
        r.extend(_deepcopy(y, memo) for y in x)
    elif isinstance(x, tuple):
        r = tuple(_deepcopy(y, memo) for y in x)
    elif isinstance(x, dict):
        r = {a: _deepcopy(b, memo) for a, b in x.items()}
    elif isinstance(x, AObj):
        r = AObj(x.cls)
        memo[id(x)] = r
        r.attrs = {a: _deepcopy(b, memo) for a, b in x.attrs.items()}
    else:
        r = x
    memo[id(x)] = r
    return r


def _copy(it, a, k):
    x = a[0]
    if isinstance(x, AArray):
        return AArray(x.data.copy(), x.dims, x.dtype)
    if isinstance(x, (ADeque, ADefault)):
        raise Unsupported("copy of %s" % type(x).__name__)
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, set):
        return set(x)
    if isinstance(x, AObj):
        m, c = x.cls.lookup("__copy__")
        if c is not None:
            return it.call(m, [x], {})
        r = AObj(x.cls)
        r.attrs = dict(x.attrs)
        return r
    return x


def _mathf(n):
    def f(it, a, k):
        if any(isinstance(x, Top) for x in a):
            return Top("math." + n)
        xs = [_float(it, [x], {}) if not isinstance(x, str) else _bad("must be real number")
              for x in a]
        if n in ("sqrt", "log", "log2", "log10", "arccos", "arcsin", "log1p"):
            c = topoly(xs[0]).as_const()
            if c is not None and (c < 0 and n in ("sqrt", "log", "log2", "log10")
                                  or c == 0 and n.startswith("log") and n != "log1p"
                                  or n.startswith("arc") and abs(c) > 1
                                  or n == "log1p" and c <= -1):
                raise AbsRaise("ValueError", "math domain error")
        if n == "log" and len(xs) > 1:
            return npm.binop("Div", nplib.FUNCS["log"](xs[0]), nplib.FUNCS["log"](xs[1]))
        return nplib.FUNCS[n](*xs)
    return f


def _bad(msg):
    raise AbsRaise("TypeError", msg)


def _ints(fn):
    """A function of math on integers."""
    def f(it, a, k):
        for x in a:
            if isinstance(x, Poly) and x.as_const() is not None:
                raise AbsRaise("TypeError", "'float' object cannot be interpreted as an "
                               "integer")
            if not isinstance(x, int):
                raise Unsupported("math.%s of %r" % (fn.__name__, x))
        try:
            return fn(*a)
        except (ValueError, TypeError) as e:
            raise AbsRaise(type(e).__name__, str(e))
    return f


def _rounding(kind):
    import math

    def f(it, a, k):
        x = _float(it, [a[0]], {}) if not isinstance(a[0], int) else a[0]
        if isinstance(x, Top):
            return x
        c = x if isinstance(x, int) else x.as_const()
        if c is None:
            return alg.app(kind, x)
        return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[kind](c)
    return f


def _fsum(it, a, k):
    return _float(it, [_sum(it, [a[0]], {})], {})


def _dist(it, a, k):
    r = 0
    for x, y in zip(it.iterate(a[0]), it.iterate(a[1])):
        d = it.binop("Sub", x, y)
        r = it.binop("Add", r, it.binop("Mult", d, d))
    return _mathf("sqrt")(it, [r], {})


def _hypot(it, a, k):
    return _dist(it, [list(a), [0] * len(a)], {})


def _finite(kind):
    def f(it, a, k):
        r = nplib.FUNCS[kind](_float(it, [a[0]], {}))
        return r.data[()] if isinstance(r, AArray) else r
    return f


def _isclose(it, a, k):
    rt = k.get("rel_tol", Fraction(1, 10**9))
    at = k.get("abs_tol", 0)
    return npm.tol_cond(npm.s_sub(a[0], a[1]), a[1], rt, at)


def _op(name):
    return lambda it, a, k: it.binop(name, a[0], a[1])


def _iopf(name):
    return lambda it, a, k: it.iop(name, a[0], a[1])


def _cmpf(name):
    return lambda it, a, k: it.compare(name, a[0], a[1])


def _itemgetter(it, a, k):
    idx = list(a)
    return HostFunc("itemgetter", lambda i, x, y: i.getitem(x[0], idx[0]) if len(idx) == 1
                    else tuple(i.getitem(x[0], j) for j in idx))


def _attrgetter(it, a, k):
    def get(i, o, name):
        for n in name.split("."):
            o = i.getattr(o, n)
        return o
    return HostFunc("attrgetter", lambda i, x, y: get(i, x[0], a[0]) if len(a) == 1 else tuple(
        get(i, x[0], n) for n in a))


def _methodcaller(it, a, k):
    return HostFunc("methodcaller", lambda i, x, y: i.call(i.getattr(x[0], a[0]), list(a[1:]),
                                                           dict(k)))


def _unop(f):
    return lambda it, a, k: f(it, a[0])


def _neg(it, x):
    if isinstance(x, AObj):
        return it.dunder(x, "__neg__", [])
    return it.binop("Mult", -1, x)


def _not(it, x):
    return x.invert() if isinstance(x, Cond) else not it.truth(x)


def _setitem(it, a, k):
    it.setitem(a[0], a[1], a[2])


OPERATOR = {
    "add": _op("Add"), "sub": _op("Sub"), "mul": _op("Mult"), "truediv": _op("Div"),
    "pow": _op("Pow"), "matmul": _op("MatMult"), "floordiv": _op("FloorDiv"),
    "mod": _op("Mod"), "and_": _op("BitAnd"), "or_": _op("BitOr"), "xor": _op("BitXor"),
    "concat": _op("Add"), "itemgetter": _itemgetter, "attrgetter": _attrgetter,
    "methodcaller": _methodcaller, "neg": _unop(_neg),
    "pos": _unop(lambda it, x: x), "abs": _abs,
    "iadd": _iopf("Add"), "isub": _iopf("Sub"), "imul": _iopf("Mult"),
    "itruediv": _iopf("Div"), "ipow": _iopf("Pow"),
    "eq": _cmpf("Eq"), "ne": _cmpf("NotEq"), "lt": _cmpf("Lt"), "gt": _cmpf("Gt"),
    "le": _cmpf("LtE"), "ge": _cmpf("GtE"), "is_": _cmpf("Is"), "is_not": _cmpf("IsNot"),
    "contains": lambda it, a, k: it.compare("In", a[1], a[0]),
    "not_": _unop(_not), "truth": _unop(lambda it, x: it.truth(x)),
    "getitem": lambda it, a, k: it.getitem(a[0], a[1]), "setitem": _setitem,
    "call": lambda it, a, k: it.call(a[0], list(a[1:]), dict(k)),
    "length_hint": _len, "index": lambda it, a, k: it.conc_int(a[0]),
    "countOf": lambda it, a, k: sum(it.truth(it.compare("Eq", x, a[1]))
                                    for x in it.iterate(a[0])),
}


def _warn(it, a, k):
    it.events.append(("warning", a, k, it.site()))


def _setter(kind):
    def f(it, a, k):
        it.events.append((kind, a, k, it.site()))
    return f


def _accumulate(it, a, k):
    f = k.get("func", a[1] if len(a) > 1 else None)
    src = it.iter_host(a[0])

    def run():
        if k.get("initial") is not None:
            r = k["initial"]
        else:
            try:
                r = next(src)
            except StopIteration:
                return
        yield r
        for x in src:
            r = it.binop("Add", r, x) if f is None else it.call(f, [r, x], {})
            yield r
    return lazy(it, "accumulate", run())


def _lz(kind, fn):
    """An iterator of itertools from a generator function of the analysis."""
    return lambda it, a, k: lazy(it, kind, (x for x in fn(it, a, k)))


def _chain(it, xs):
    for x in xs:
        yield from it.iter_host(x)


def _tee(it, a, k):
    n = a[1] if len(a) > 1 else k.get("n", 2)
    return tuple(lazy(it, "tee", (y for y in t))
                 for t in itertools.tee(it.iter_host(a[0]), n))


def _groupby(it, a, k):
    key = k.get("key", a[1] if len(a) > 1 else None)
    groups = []
    for x in it.iterate(a[0]):
        q = x if key is None else it.call(key, [x], {})
        if groups and it.truth(it.compare("Eq", groups[-1][0], q)):
            groups[-1][1].append(x)
        else:
            groups.append((q, [x]))
    return ((q, lazy(it, "_grouper", (y for y in g))) for q, g in groups)


def _takewhile(it, a, k):
    for x in it.iter_host(a[1]):
        if not it.truth(it.call(a[0], [x], {})):
            return
        yield x


def _dropwhile(it, a, k):
    drop = True
    for x in it.iter_host(a[1]):
        if drop and it.truth(it.call(a[0], [x], {})):
            continue
        drop = False
        yield x


def _count(it, a, k):
    v = a[0] if a else k.get("start", 0)
    step = a[1] if len(a) > 1 else k.get("step", 1)
    while True:
        yield v
        v = it.binop("Add", v, step)


def _repeat(it, a, k):
    n = a[1] if len(a) > 1 else k.get("times")
    return itertools.repeat(a[0]) if n is None else itertools.repeat(a[0], it.conc_int(n))


def _islice(it, a, k):
    xs = [None if x is None else it.conc_int(x) for x in a[1:]]
    try:
        return itertools.islice(it.iter_host(a[0]), *xs)
    except ValueError as e:
        raise AbsRaise("ValueError", str(e))


def _batched(it, a, k):
    src, n = it.iter_host(a[0]), a[1]
    while True:
        b = tuple(itertools.islice(src, n))
        if not b:
            return
        yield b


ITERTOOLS = {
    "product": _lz("product", lambda i, a, k: itertools.product(
        *[i.iterate(x) for x in a], repeat=k.get("repeat", 1))),
    "combinations": _lz("combinations", lambda i, a, k: itertools.combinations(
        i.iterate(a[0]), k.get("r", a[1] if len(a) > 1 else None))),
    "combinations_with_replacement": _lz(
        "combinations_with_replacement", lambda i, a, k:
        itertools.combinations_with_replacement(i.iterate(a[0]), k.get(
            "r", a[1] if len(a) > 1 else None))),
    "permutations": _lz("permutations", lambda i, a, k: itertools.permutations(
        i.iterate(a[0]), *a[1:], **k)),
    "repeat": _lz("repeat", _repeat), "count": _lz("count", _count),
    "cycle": _lz("cycle", lambda i, a, k: itertools.cycle(i.iter_host(a[0]))),
    "islice": _lz("islice", _islice), "accumulate": _accumulate, "tee": _tee,
    "zip_longest": _lz("zip_longest", lambda i, a, k: itertools.zip_longest(
        *[i.iter_host(x) for x in a], fillvalue=k.get("fillvalue"))),
    "starmap": _lz("starmap", lambda i, a, k: (i.call(a[0], i.iterate(x), {})
                                               for x in i.iter_host(a[1]))),
    "groupby": _lz("groupby", _groupby), "takewhile": _lz("takewhile", _takewhile),
    "dropwhile": _lz("dropwhile", _dropwhile), "batched": _lz("batched", _batched),
    "filterfalse": _lz("filterfalse", lambda i, a, k: (
        x for x in i.iter_host(a[1]) if not i.truth(
            x if a[0] is None else i.call(a[0], [x], {})))),
    "compress": _lz("compress", lambda i, a, k: (x for x, y in zip(
        i.iter_host(a[0]), i.iter_host(a[1])) if i.truth(y))),
    "pairwise": _lz("pairwise", lambda i, a, k: itertools.pairwise(i.iter_host(a[0]))),
}


def _einsumt(it, a, k):
    it.events.append(("einsumt", a[0], None, it.site()))
    bad = set(k) - {"out", "optimize", "dtype", "order", "casting", "pool", "idx"}
    if bad:
        raise AbsRaise("TypeError", "einsumt() got unexpected keyword %s" % sorted(bad))
    k.pop("pool", None)
    k.pop("idx", None)
    # einsumt derives the number of trailing axes from the operand it saw last; operands
    # with differing numbers of trailing axes are only handled when all agree
    subs = a[0].split("->")[0].replace(" ", "").split(",")
    nd = {npm.as_arr(x).ndim - len(s.replace("...", "")) for s, x in zip(subs, a[1:])
          if "..." in s}
    if len(nd) > 1:
        it.events.append(("einsumt-mixed", a[0], sorted(nd), it.site()))
    return nplib.einsum(*a, **k)


LOGCALLS = ("matplotlib", "matplotlib.pyplot")


def _itertools(it):
    ns = {n: HostFunc("itertools." + n, f) for n, f in ITERTOOLS.items()}
    ns["chain"] = TypeTok("chain", lambda x: isinstance(x, AGen) and x.kind == "chain",
                          lambda i, a, k: lazy(i, "chain", _chain(i, a)), {
                              "from_iterable": HostFunc("chain.from_iterable", lambda i, a, k:
                                                        lazy(i, "chain", _chain(
                                                            i, i.iter_host(a[0]))))})
    return Module("itertools", ns=ns)


def _cmp_to_key(it, a, k):
    def key(i, x, y):
        def cmp(op, p, q):
            r = i.call(a[0], [p.attrs["obj"], q.attrs["obj"]], {})
            return i.compare(op, r, 0)
        return HostObj("key", {"obj": x[0], "compare": cmp})
    return HostFunc("key", key)


MATH = {
    "fabs": _abs, "pow": _op("Pow"), "isclose": _isclose,
    "pi": alg.var("pi", pos=True), "inf": alg.app("const", "inf", pos=True),
    "tau": 2 * alg.var("pi", pos=True), "nan": alg.app("nan", "nan"),
    "prod": lambda i, a, k: _reduce(i, [HostFunc("mul", _op("Mult")),
                                        [k.get("start", 1)] + list(i.iterate(a[0]))], {}),
    "floor": _rounding("floor"), "ceil": _rounding("ceil"), "trunc": _rounding("trunc"),
    "fsum": _fsum, "hypot": _hypot, "dist": _dist, "isnan": _finite("isnan"),
    "isinf": _finite("isinf"), "isfinite": _finite("isfinite"),
}
for _n in ("gcd", "lcm", "comb", "perm", "isqrt", "factorial"):
    MATH[_n] = _ints(getattr(__import__("math"), _n))
for _n, _f in {"sqrt": "sqrt", "exp": "exp", "log": "log", "sin": "sin", "cos": "cos",
               "tan": "tan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh",
               "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2",
               "log2": "log2", "log10": "log10", "log1p": "log1p", "expm1": "expm1",
               "cbrt": "cbrt", "exp2": "exp2", "degrees": "degrees", "radians": "radians",
               "copysign": "copysign", "fmod": "fmod", "asinh": "arcsinh",
               "acosh": "arccosh", "atanh": "arctanh"}.items():
    if _f in nplib.FUNCS:
        MATH[_n] = _mathf(_f)


def default(env=None):
    """Library table: import name -> constructor of its model.  `env` overrides."""
    def numpy_(it):
        from .interp import Module
        return nplib.module(it, Module)

    def plt(it):
        from .interp import Module
        log = it.plotlog = getattr(it, "plotlog", [])
        rec = {}

        def get(n):
            if n not in rec:
                if n == "subplots":
                    def sub(i, a, k):
                        i.plotlog.append(("plt.subplots", a, k, i.site()))
                        f, x = figure(i)
                        return (f, x)
                    rec[n] = HostFunc("plt.subplots", sub)
                elif n == "figure":
                    def new(i, a, k):
                        i.plotlog.append(("plt.figure", a, k, i.site()))
                        return figure(i)[0]
                    rec[n] = HostFunc("plt.figure", new)
                else:
                    rec[n] = Recorder("plt." + n, log)
            return rec[n]
        return Module("matplotlib.pyplot", getter=get)

    def mpl(it):
        from .interp import Module
        return Module("matplotlib", getter=lambda n: it.load("matplotlib.pyplot")
                      if n == "pyplot" else Recorder("matplotlib." + n, it.plotlog)
                      if hasattr(it, "plotlog") else Top("matplotlib." + n))

    t = {
        "numpy": numpy_,
        "functools": _mod("functools", {
            "wraps": _wraps, "partial": _partial, "reduce": _reduce, "lru_cache": _lru,
            "cache": _lru, "update_wrapper": _update_wrapper,
            "cached_property": lambda i, a, k: Cached(a[0]), "cmp_to_key": _cmp_to_key}),
        "itertools": _itertools,
        "operator": _mod("operator", OPERATOR),
        "math": _mod("math", MATH),
        "collections": _mod("collections", {
            "namedtuple": namedtuple,
            "deque": TypeTok("deque", lambda x: isinstance(x, ADeque), _deque),
            "defaultdict": TypeTok("defaultdict", lambda x: isinstance(x, ADefault),
                                   _defaultdict),
            "OrderedDict": TypeTok("OrderedDict", lambda x: isinstance(x, dict), _ordered)}),
        "types": _mod("types", {
            "MethodType": TypeTok("method", lambda x: isinstance(x, Bound),
                                  lambda i, a, k: Bound(a[1], a[0])),
            "FunctionType": BUILT["function"], "LambdaType": BUILT["function"],
            "GeneratorType": BUILT["generator"], "ModuleType": BUILT["module"],
            "NoneType": BUILT["NoneType"],
            "BuiltinFunctionType": TypeTok("builtin_function_or_method",
                                           lambda x: isinstance(x, HostFunc))}),
        "warnings": _mod("warnings", {
            "warn": _warn, "catch_warnings": lambda i, a, k: HostObj("ctx"),
            "simplefilter": _setter("warnings.simplefilter"),
            "filterwarnings": _setter("warnings.filterwarnings")}),
        "copy": _mod("copy", {"copy": _copy,
                              "deepcopy": lambda i, a, k: _deepcopy(a[0], {})}),
        "typing": _mod("typing", {}, getter=lambda n: typing_tok(n)),
        "collections.abc": _mod("collections.abc", {}, getter=lambda n: typing_tok(n)),
        "numbers": _mod("numbers", {
            "Number": TypeTok("Number", lambda x: _isnum(x) or isinstance(x, int)),
            "Real": TypeTok("Real", lambda x: _isnum(x) or isinstance(x, int)),
            "Integral": TypeTok("Integral", lambda x: isinstance(x, int))}),
        "contextlib": _mod("contextlib", {
            "nullcontext": lambda i, a, k: HostObj("nullcontext", {
                "__enter__": HostFunc("__enter__", lambda i, x, y: a[0] if a else k.get(
                    "enter_result")),
                "__exit__": HostFunc("__exit__", lambda i, x, y: None)}),
            "suppress": _suppress, "contextmanager": _contextmanager}),
        "__future__": _mod("__future__", {}, getter=lambda n: None),
        "abc": _mod("abc", {"abstractmethod": _abstract, "ABC": TypeTok("ABC", lambda x: False),
                            "ABCMeta": TypeTok("ABCMeta", lambda x: False)}),
        "matplotlib.pyplot": plt,
        "matplotlib": mpl,
        "einsumt": _mod("einsumt", {"einsumt": _einsumt}),
        "scipy": _mod("scipy", {}),
        "scipy.optimize": _mod("scipy.optimize", {"curve_fit": scipy_curve_fit}),
        "sys": _mod("sys", {"setrecursionlimit": _setter("sys.setrecursionlimit"),
                            "version_info": (3, 12, 3, "final", 0)},
                    getter=lambda n: Top("sys." + n) if n != "maxsize" else 2**63 - 1),
        "os": _mod("os", {"sep": "/", "linesep": "\n"}, getter=lambda n: npm.CUR.load(
            "os.path") if n == "path" else Top("os." + n)),
        "os.path": _mod("os.path", {n: _host(getattr(__import__("posixpath"), n), str)
                                    for n in ("join", "basename", "dirname", "splitext",
                                              "split", "normpath", "isabs")},
                        getter=lambda n: Top("os.path." + n)),
    }
    if env:
        t.update(env)
    return t


def _abstract(it, a, k):
    f = a[0]
    for g in (f, getattr(f, "fn", None), getattr(f, "fget", None)):
        if isinstance(g, AFunc):
            g.attrs["__isabstractmethod__"] = True
    return f


def _has(*names):
    return lambda x: all(x.cls.lookup(n)[1] is not None for n in names)


def typing_tok(n):
    if n == "TYPE_CHECKING":
        return False
    if n == "cast":
        return HostFunc(n, lambda i, a, k: a[1])
    if n in ("overload", "final", "no_type_check", "runtime_checkable", "override",
             "abstractmethod"):
        return HostFunc(n, lambda i, a, k: a[0])
    if n == "NewType":
        return HostFunc(n, lambda i, a, k: HostFunc(a[0], lambda j, x, y: x[0]))
    if n == "NamedTuple":
        return named_tuple_base()
    from .interp import DICTVIEWS
    seqs = (list, tuple, str, range, bytes)
    its = seqs + (dict, set, frozenset) + DICTVIEWS
    pred, st = {
        "Callable": (lambda x: _callable(npm.CUR, [x], {}), _has("__call__")),
        "Iterable": (lambda x: isinstance(x, its + (AArray, AGen)), _has("__iter__")),
        "Iterator": (lambda x: isinstance(x, AGen), _has("__iter__", "__next__")),
        "Generator": (lambda x: isinstance(x, AGen) and x.kind == "generator", None),
        "Sized": (lambda x: isinstance(x, its + (AArray,)), _has("__len__")),
        "Container": (lambda x: isinstance(x, its + (AArray,)), _has("__contains__")),
        "Collection": (lambda x: isinstance(x, its + (AArray,)),
                       _has("__len__", "__iter__", "__contains__")),
        "Sequence": (lambda x: isinstance(x, seqs), None),
        "MutableSequence": (lambda x: isinstance(x, list), None),
        "Mapping": (lambda x: isinstance(x, dict), None),
        "MutableMapping": (lambda x: isinstance(x, dict), None),
        "Set": (lambda x: isinstance(x, (set, frozenset)), None),
        "MutableSet": (lambda x: isinstance(x, set), None),
        "Hashable": (lambda x: not isinstance(x, (list, dict, set, AArray)), _has()),
    }.get(n, (lambda x: False, None))
    attrs = {"__getitem__": None}
    if st is not None:
        attrs["structural"] = st
    return TypeTok(n, pred, lambda i, a, k: Top("typing." + n), attrs)


# -- named tuples -------------------------------------------------------------------------


def nt_class(it, name, fields, defaults, bases=(), ns=None, mod=None, qual=None, node=None):
    """The class of a named tuple."""
    for f in fields:
        if not isinstance(f, str):
            raise AbsRaise("TypeError", "Type names and field names must be strings")
        if not f.isidentifier() or __import__("keyword").iskeyword(f) or f.startswith("_"):
            raise AbsRaise("ValueError", "bad field name %r" % f)
    if len(set(fields)) != len(fields):
        raise AbsRaise("ValueError", "Encountered duplicate field name")

    def new(i, a, k):
        c, a = a[0], list(a[1:])
        if len(a) > len(fields):
            raise AbsRaise("TypeError", "%s.__new__() takes %d positional arguments but %d "
                           "were given" % (name, len(fields) + 1, len(a) + 1))
        v = dict(zip(fields, a))
        for n, x in k.items():
            if n not in fields:
                raise AbsRaise("TypeError", "%s.__new__() got an unexpected keyword argument "
                               "'%s'" % (name, n))
            if n in v:
                raise AbsRaise("TypeError", "%s.__new__() got multiple values for argument "
                               "'%s'" % (name, n))
            v[n] = x
        for f in fields:
            if f not in v:
                if f not in defaults:
                    raise AbsRaise("TypeError", "%s.__new__() missing 1 required positional "
                                   "argument: '%s'" % (name, f))
                v[f] = defaults[f]
        return ntuple(c, [v[f] for f in fields])

    def replace(i, a, k):
        bad = set(k) - set(fields)
        if bad:
            raise AbsRaise("ValueError", "Got unexpected field names: %s" % sorted(bad))
        return ntuple(a[0].cls, [k.get(f, x) for f, x in zip(fields, a[0])])

    d = {"_fields": tuple(fields), "_field_defaults": dict(defaults),
         "__new__": Wrapped("staticmethod", HostFunc("__new__", new)),
         "_replace": HostFunc("_replace", replace, {"method": True}),
         "_asdict": HostFunc("_asdict", lambda i, a, k: dict(zip(fields, a[0])),
                             {"method": True}),
         "_make": Wrapped("classmethod", HostFunc("_make", lambda i, a, k: new(
             i, [a[0]] + i.iterate(a[1]), {})))}
    for j, f in enumerate(fields):
        d[f] = Prop(HostFunc(f, lambda i, a, k, j=j: a[0][j]))
    d.update({a: b for a, b in (ns or {}).items() if a not in fields})
    mod = mod if mod is not None else (it.stack[-1][0].module if it.stack else None)
    return it.build_class(name, list(bases), d, mod, qual or name, node)


def namedtuple(it, a, k):
    fields = a[1] if len(a) > 1 else k["field_names"]
    fields = fields.replace(",", " ").split() if isinstance(fields, str) else it.iterate(fields)
    ds = it.iterate(k["defaults"]) if k.get("defaults") is not None else []
    if len(ds) > len(fields):
        raise AbsRaise("TypeError", "Got more default values than field names")
    if it.truth(k.get("rename", False)):
        raise Unsupported("namedtuple(rename=True)")
    return nt_class(it, a[0], fields, dict(zip(fields[len(fields) - len(ds):], ds)))


def named_tuple_base():
    def make(it, name, bases, ns, mod, qual, node):
        ann = ns.pop("__annotations__", {})
        defaults = {f: ns[f] for f in ann if f in ns}
        return nt_class(it, name, list(ann), defaults, [], ns, mod, qual, node)

    def call(it, a, k):
        return nt_class(it, a[0], [it.iterate(x)[0] for x in it.iterate(a[1])], {})
    return HostObj("NamedTuple", {"classmaker": make, "__call__": HostFunc("NamedTuple", call)})


# -- collections ------------------------------------------------------------------------------


def _deque(it, a, k):
    d = ADeque(it.iterate(a[0]) if a else [])
    d.maxlen = k.get("maxlen", a[1] if len(a) > 1 else None)
    if d.maxlen is not None:
        d[:] = d[max(0, len(d) - d.maxlen):]
    return d


def deque_attr(it, d, n):
    def cut(left=False):
        if d.maxlen is not None and len(d) > d.maxlen:
            if left:
                del d[d.maxlen:]
            else:
                del d[:len(d) - d.maxlen]

    def append(i, a, k):
        list.append(d, a[0])
        cut()

    def appendleft(i, a, k):
        d.insert(0, a[0])
        cut(True)

    def extend(i, a, k):
        list.extend(d, i.iterate(a[0]))
        cut()

    def extendleft(i, a, k):
        for x in i.iterate(a[0]):
            d.insert(0, x)
            cut(True)

    def pop(j):
        def f(i, a, k):
            if not d:
                raise AbsRaise("IndexError", "pop from an empty deque")
            return list.pop(d, j)
        return f

    def rotate(i, a, k):
        n = (a[0] if a else 1) % len(d) if d else 0
        d[:] = d[-n:] + d[:-n] if n else d[:]
    f = {"append": append, "appendleft": appendleft, "extend": extend, "pop": pop(-1),
         "extendleft": extendleft, "popleft": pop(0), "rotate": rotate}.get(n)
    if f is not None:
        return HostFunc("deque." + n, f)
    if n == "maxlen":
        return d.maxlen
    return None


def _defaultdict(it, a, k):
    d = ADefault(_dict(it, a[1:], k))
    d.factory = a[0] if a else None
    return d


class AOrdered(dict):
    pass


def _ordered(it, a, k):
    return AOrdered(_dict(it, a, k))


def ordered_attr(it, d, n):
    def move(i, a, k):
        last = k.get("last", a[1] if len(a) > 1 else True)
        if a[0] not in d:
            raise AbsRaise("KeyError", str(a[0]))
        v = d.pop(a[0])
        rest = [] if last else list(d.items())
        if not last:
            d.clear()
        d[a[0]] = v
        d.update(rest)

    def popitem(i, a, k):
        if not d:
            raise AbsRaise("KeyError", "dictionary is empty")
        q = list(d)[-1 if k.get("last", a[0] if a else True) else 0]
        return (q, d.pop(q))
    f = {"move_to_end": move, "popitem": popitem}.get(n)
    if n == "copy":
        return HostFunc(n, lambda i, a, k: AOrdered(d))
    return None if f is None else HostFunc(n, f)


def figure(it):
    """A fresh figure/axes pair which records the calls made on it."""
    n = getattr(it, "nfig", 0)
    it.nfig = n + 1
    fig = Recorder("fig%d" % n, it.plotlog)
    ax = Recorder("ax%d" % n, it.plotlog)
    ax.result = {"get_figure": lambda i, a, k: fig}
    ax.sub["figure"] = fig
    fig.sub["axes"] = [ax]
    fig.result = {k: lambda i, a, k: ax for k in ("add_subplot", "subplots", "gca",
                                                 "add_axes", "subplot_mosaic")}
    fig.axes = ax
    fig.ax, ax.fig = ax, fig
    return fig, ax


def scipy_curve_fit(it, a, k):
    h = getattr(it, "curve_fit_hook", None)
    if h is None:
        raise Unsupported("scipy.optimize.curve_fit")
    return h(it, a, k)


assert c_lt0 and dpoly and to_dim


# -- primitives of the modules in pylib ---------------------------------------------------------


def _p_store(it, a, k):
    a[0].ns[a[1]] = a[2]


def _p_unstore(it, a, k):
    a[0].ns.pop(a[1], None)


def _p_put(it, a, k):
    a[0].attrs[a[1]] = a[2]


def _p_define(it, a, k):
    import ast
    from .interp import Env
    cls, text, names = a
    node = ast.parse(text).body[0]
    line = cls.node.lineno if cls.node is not None else 1
    for n in ast.walk(node):
        if hasattr(n, "lineno"):
            n.lineno = n.end_lineno = line
    env = Env()
    env.vars = {**names, "__class_qual__": cls.qual}
    f = it.make_func(node, env, cls.module)
    env2 = Env()
    env2.vars = dict(names)
    f.env = env2
    f.cls = cls
    cls.ns[f.name] = f


def _p_annotation(it, a, k):
    x = a[0]
    if isinstance(x, str):
        for n in ("ClassVar", "InitVar"):
            if x.startswith(n) or x.startswith("typing." + n) or x.startswith(
                    "dataclasses." + n):
                return n
    return x.name if isinstance(x, TypeTok) else x.name if isinstance(x, AClass) else ""


def _p_unhashable(it, a, k):
    x = a[0]
    if isinstance(x, AArray):
        return True
    return isinstance(x, AObj) and x.cls.lookup("__hash__") == (None, x.cls)


def _p_descriptor(it, a, k):
    x = a[0]
    if isinstance(x, (AFunc, HostFunc, Prop, Wrapped, Cached)):
        return True
    return isinstance(x, AObj) and x.cls.lookup("__get__")[1] is not None


def _p_unsupported(it, a, k):
    raise Unsupported(a[0])


def _p_leave(it, a, k):
    cm = a[0]
    if isinstance(cm, HostObj) and "__exit__" not in cm.attrs:
        raise Unsupported("context %r" % (cm,))
    if not isinstance(cm, (HostObj, AObj)):
        raise AbsRaise("TypeError", "object does not support the context manager protocol")
    return it.getattr(cm, "__exit__")


PRIMS = {n: HostFunc(n, f) for n, f in {
    "__store__": _p_store, "__unstore__": _p_unstore, "__put__": _p_put,
    "__define__": _p_define, "__annotation__": _p_annotation,
    "__unhashable__": _p_unhashable, "__descriptor__": _p_descriptor,
    "__function__": lambda i, a, k: a[0].fn if isinstance(a[0], Wrapped) else a[0],
    "__defined__": lambda i, a, k: a[0].lookup(a[1])[1] is not None,
    "__unsupported__": _p_unsupported, "__leave__": _p_leave}.items()}
