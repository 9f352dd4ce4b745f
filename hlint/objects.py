"""Classes, objects, exceptions and generators of the analysed program."""

import ast

from . import npm
from .absval import AArray, AbsRaise, HostFunc, HostObj, Top, TypeTok, Unsupported


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


FLOW = (Ret, Brk, Cont)
BUILTIN_BASES = ("list", "tuple", "dict", "set", "frozenset", "str", "bytes", "int", "float",
                 "complex", "ndarray", "range", "bool")


class Module:
    def __init__(self, name, path=None, ns=None, getter=None):
        self.name, self.path, self.ns = name, path, ns if ns is not None else {}
        self.getter = getter
        self.source = None

    def __repr__(self):
        return "<module %s>" % self.name


class AFunc:
    def __init__(self, node, module, env, defaults, kwdefaults, name, qual, cls=None):
        self.node, self.module, self.env = node, module, env
        self.defaults, self.kwdefaults, self.name, self.qual = defaults, kwdefaults, name, qual
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qual


def merge(seqs):
    """C3 linearisation."""
    out = []
    seqs = [list(s) for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise AbsRaise("TypeError", "Cannot create a consistent method resolution order")
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class AClass:
    def __init__(self, name, bases, ns, module, qual, node=None):
        self.name, self.bases, self.ns, self.module, self.qual = name, bases, ns, module, qual
        self.node = node
        self.meta = None
        self.subs = []
        bs = [b for b in bases if isinstance(b, AClass)]
        self._mro = [self] + merge([b.mro() for b in bs] + [bs])

    def mro(self):
        return self._mro

    def lookup(self, name):
        for c in self._mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def toks(self):
        """Base types which are no classes of the analysed program."""
        return [b for c in self._mro for b in c.bases if not isinstance(b, AClass)]

    def opaque(self):
        """A base class about which nothing is known, or None."""
        for b in self.toks():
            if isinstance(b, Top):
                return b
            if isinstance(b, TypeTok) and b.name in BUILTIN_BASES:
                return Top("subclass of %s" % b.name)
            if not isinstance(b, TypeTok):
                return Top("subclass of %r" % (b,))
        return None

    def exception(self):
        """Name of the builtin exception this class is derived from, or None."""
        from .interp import exc_is
        for b in self.toks():
            if isinstance(b, TypeTok) and exc_is(b.name, "BaseException"):
                return b.name
        return None

    def abstract(self):
        done, out = set(), []
        for c in self._mro:
            for k, v in c.ns.items():
                if k in done:
                    continue
                done.add(k)
                fs = [v, getattr(v, "fn", None), getattr(v, "fget", None),
                      getattr(v, "fset", None)]
                if any(isinstance(f, AFunc) and f.attrs.get("__isabstractmethod__")
                       for f in fs):
                    out.append(k)
        return out

    def __repr__(self):
        return "<class %s>" % self.qual


class AObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.writes = []

    def __repr__(self):
        return "<%s object>" % self.cls.name

    # objects as members of sets and keys of dictionaries
    def __hash__(self):
        m, c = self.cls.lookup("__hash__")
        if c is None:
            if self.cls.lookup("__eq__")[1] is not None:
                raise AbsRaise("TypeError", "unhashable type: '%s'" % self.cls.name)
            return id(self)
        if m is None:
            raise AbsRaise("TypeError", "unhashable type: '%s'" % self.cls.name)
        r = npm.CUR.call(m, [self], {})
        return r if isinstance(r, int) else hash(r)

    def __eq__(self, o):
        if self is o:
            return True
        m, c = self.cls.lookup("__eq__")
        if c is None:
            return NotImplemented
        r = npm.CUR.call(m, [self, o], {})
        return npm.CUR.truth(r) if not is_notimpl(r) else NotImplemented


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __repr__(self):
        return "<bound %r>" % self.fn

    def __eq__(self, o):
        return isinstance(o, Bound) and o.obj is self.obj and o.fn is self.fn

    def __hash__(self):
        return hash((id(self.obj), id(self.fn)))


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class Cached:
    """functools.cached_property"""

    def __init__(self, fget):
        self.fget, self.name = fget, None


class Wrapped:  # staticmethod / classmethod
    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class Env:
    __slots__ = ("vars", "parent", "locals", "globals_", "nonlocals", "comp")

    def __init__(self, parent=None, locals_=None, comp=False):
        self.vars = {}
        self.parent = parent
        self.locals = locals_ or frozenset()
        self.globals_ = frozenset()
        self.nonlocals = frozenset()
        self.comp = comp


def is_notimpl(v):
    return isinstance(v, HostObj) and v.cls == "NotImplemented"


# -- generators ---------------------------------------------------------------------------------


class AGen:
    """A generator (or any other iterator): computed on request, exhausted once."""

    def __init__(self, it, host, func, kind="generator"):
        self.it, self.host, self.func, self.kind = it, host, func, kind
        self.done = self.running = self.started = False
        self.base = 0

    def __repr__(self):
        return "<%s>" % self.kind

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume(None)

    def resume(self, value, exc=None):
        it = self.it
        if self.running:
            raise AbsRaise("ValueError", "generator already executing")
        if self.done:
            if exc is not None:
                raise exc
            raise StopIteration
        depth, saved = len(it.stack), it.node
        it.stack.append((self.func, saved))
        self.base = depth + 1
        self.running = True
        try:
            if exc is not None:
                if not self.started:
                    self.done = True
                    raise exc
                return self.host.throw(exc)
            if value is not None and not self.started:
                raise AbsRaise("TypeError", "can't send non-None value to a just-started "
                               "generator")
            self.started = True
            return self.host.send(value)
        except StopIteration:
            self.done = True
            raise
        except AbsRaise as e:
            self.done = True
            if e.site is None:
                e.site = it.site()
                e.stack = [(s[0].qual, getattr(s[1], "lineno", 0)) for s in it.stack]
            if e.etype == "StopIteration" and e is not exc:
                raise AbsRaise("RuntimeError", "generator raised StopIteration")
            raise
        except Unsupported:
            self.done = True
            raise
        finally:
            del it.stack[depth:]
            it.node = saved
            self.running = False

    def send(self, v):
        if self.kind != "generator":
            raise AbsRaise("AttributeError", "'%s' object has no attribute 'send'" % self.kind)
        return self.resume(v)

    def throw(self, e, *a):
        return self.resume(None, self.it.as_raise(e))

    def close(self):
        if self.done:
            return None
        if not self.started:
            self.done = True
            return None
        try:
            self.resume(None, AbsRaise("GeneratorExit"))
        except StopIteration:
            return None
        except AbsRaise as e:
            if e.etype == "GeneratorExit":
                return None
            raise
        raise AbsRaise("RuntimeError", "generator ignored GeneratorExit")


def has_yield(n):
    r = getattr(n, "_yields", None)
    if r is None:
        r = isinstance(n, (ast.Yield, ast.YieldFrom)) or (
            not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                               ast.ClassDef))
            and any(has_yield(c) for c in ast.iter_child_nodes(n)))
        n._yields = r
    return r


def is_gen(node):
    r = getattr(node, "_isgen", None)
    if r is None:
        body = node.body if isinstance(node.body, list) else [node.body]
        r = node._isgen = any(has_yield(c) for c in body)
    return r


class GenMixin:
    """Statements of generator functions, as coroutines of the analysis."""

    def g_body(self, body, env, mod, g):
        for s in body:
            if not has_yield(s):
                self.exec(s, env, mod)
                continue
            self.node = s
            m = getattr(self, "g_" + s.__class__.__name__, None)
            if m is None:
                raise Unsupported("yield in %s" % s.__class__.__name__)
            yield from m(s, env, mod, g)

    def g_run(self, f, env, g):
        try:
            yield from self.g_body(f.node.body, env, f.module, g)
        except Ret as r:
            return r.v
        return None

    def g_value(self, e, env, mod, g):
        if e is None or not has_yield(e):
            return None if e is None else self.ev(e, env, mod)
        if isinstance(e, ast.Yield):
            v = yield from self.g_value(e.value, env, mod, g)
            return (yield v)
        if isinstance(e, ast.YieldFrom):
            src = self.iter_host((yield from self.g_value(e.value, env, mod, g)))
            sent = None
            while True:
                try:
                    x = src.resume(sent) if isinstance(src, AGen) else next(src)
                except StopIteration as st:
                    return st.value
                try:
                    sent = yield x
                except AbsRaise as exc:
                    if not isinstance(src, AGen):
                        raise
                    try:
                        sent = yield src.resume(None, exc)
                    except StopIteration as st:
                        return st.value
        # operands in their order of evaluation; the value is computed from placeholders
        if isinstance(e, (ast.Tuple, ast.List)) and not any(
                isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x in e.elts:
                out.append((yield from self.g_value(x, env, mod, g)))
            return tuple(out) if isinstance(e, ast.Tuple) else out
        if isinstance(e, ast.BinOp):
            a = yield from self.g_value(e.left, env, mod, g)
            b = yield from self.g_value(e.right, env, mod, g)
            self.node = e
            return self.binop(e.op.__class__.__name__, a, b)
        if isinstance(e, ast.Call) and not has_yield(e.func) and not e.keywords and not any(
                isinstance(x, ast.Starred) for x in e.args):
            f = self.ev(e.func, env, mod)
            args = []
            for x in e.args:
                args.append((yield from self.g_value(x, env, mod, g)))
            self.node = e
            return self.call(f, args, {}, e)
        if isinstance(e, ast.NamedExpr):
            v = yield from self.g_value(e.value, env, mod, g)
            self.bind(e.target.id, v, env, mod)
            return v
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a = yield from self.g_value(e.left, env, mod, g)
            b = yield from self.g_value(e.comparators[0], env, mod, g)
            return self.compare(e.ops[0].__class__.__name__, a, b)
        raise Unsupported("yield inside %s" % e.__class__.__name__)

    def g_Expr(self, s, env, mod, g):
        yield from self.g_value(s.value, env, mod, g)

    def g_Assign(self, s, env, mod, g):
        v = yield from self.g_value(s.value, env, mod, g)
        self.node = s
        for t in s.targets:
            self.assign(t, v, env, mod)

    def g_AnnAssign(self, s, env, mod, g):
        self.assign(s.target, (yield from self.g_value(s.value, env, mod, g)), env, mod)

    def g_AugAssign(self, s, env, mod, g):
        if not isinstance(s.target, ast.Name):
            raise Unsupported("yield in an augmented assignment")
        cur = self.load_name(s.target, env, mod)
        v = yield from self.g_value(s.value, env, mod, g)
        self.bind(s.target.id, self.iop(s.op.__class__.__name__, cur, v), env, mod)

    def g_Return(self, s, env, mod, g):
        raise Ret((yield from self.g_value(s.value, env, mod, g)))

    def g_If(self, s, env, mod, g):
        c = self.truth((yield from self.g_value(s.test, env, mod, g)))
        yield from self.g_body(s.body if c else s.orelse, env, mod, g)

    def g_For(self, s, env, mod, g):
        src = self.iter_host((yield from self.g_value(s.iter, env, mod, g)))
        for v in src:
            self.assign(s.target, v, env, mod)
            try:
                yield from self.g_body(s.body, env, mod, g)
            except Brk:
                return
            except Cont:
                continue
        yield from self.g_body(s.orelse, env, mod, g)

    def g_While(self, s, env, mod, g):
        n = 0
        while True:
            self.node = s
            if not self.truth((yield from self.g_value(s.test, env, mod, g))):
                yield from self.g_body(s.orelse, env, mod, g)
                return
            n += 1
            if n > 10000:
                raise Unsupported("while loop bound")
            try:
                yield from self.g_body(s.body, env, mod, g)
            except Brk:
                return
            except Cont:
                continue

    def g_Try(self, s, env, mod, g):
        try:
            try:
                yield from self.g_body(s.body, env, mod, g)
            except AbsRaise as e:
                del self.stack[g.base:]
                h = self.handler(s, e, env, mod)
                if h is None:
                    raise
                prev = self.handling
                self.handling = e
                try:
                    yield from self.g_body(h.body, env, mod, g)
                finally:
                    self.handling = prev
            else:
                yield from self.g_body(s.orelse, env, mod, g)
        except (Unsupported, GeneratorExit):
            raise
        except (AbsRaise,) + FLOW:
            yield from self.g_body(s.finalbody, env, mod, g)
            raise
        else:
            yield from self.g_body(s.finalbody, env, mod, g)

    def g_With(self, s, env, mod, g, k=0):
        if k == len(s.items):
            yield from self.g_body(s.body, env, mod, g)
            return
        i = s.items[k]
        v, leave = self.enter(self.ev(i.context_expr, env, mod))
        try:
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, mod)
            yield from self.g_With(s, env, mod, g, k + 1)
        except (Unsupported, GeneratorExit):
            raise
        except AbsRaise as e:
            del self.stack[g.base:]
            if not leave(e):
                raise
        except FLOW:
            leave(None)
            raise
        else:
            leave(None)

    # comprehensions and generator expressions
    def g_comp(self, gens, k, src, cenv, mod, leaf):
        gen = gens[k]
        for v in src:
            self.assign(gen.target, v, cenv, mod)
            if not all(self.truth(self.ev(c, cenv, mod)) for c in gen.ifs):
                continue
            if k + 1 == len(gens):
                yield leaf(cenv)
            else:
                nxt = self.iter_host(self.ev(gens[k + 1].iter, cenv, mod))
                yield from self.g_comp(gens, k + 1, nxt, cenv, mod, leaf)


# -- classes and attributes -----------------------------------------------------------------


class ClassMixin:

    def build_class(self, name, bases, ns, mod, qual, node=None, kwds=None):
        bases = [b for b in bases if not (isinstance(b, TypeTok) and b.name == "object")]
        kwds = dict(kwds or {})
        meta = kwds.pop("metaclass", None)
        for b in bases:
            if isinstance(b, AClass) and meta is None:
                meta = b.meta
        c = AClass(name, bases, ns, mod, qual, node)
        c.meta = meta
        if isinstance(meta, TypeTok) and meta.name == "ABCMeta":
            pass
        elif meta is not None and not (isinstance(meta, TypeTok) and meta.name == "type"):
            if not isinstance(meta, AClass):
                raise Unsupported("metaclass %r" % (meta,))
            for k in ("__call__", "__prepare__", "__getattr__", "__getattribute__"):
                if meta.lookup(k)[1] is not None:
                    raise Unsupported("metaclass with %s" % k)
        for b in c.bases:
            if isinstance(b, AClass):
                b.subs.append(c)
        for v in list(ns.values()):
            for f in (v, getattr(v, "fn", None), getattr(v, "fget", None),
                      getattr(v, "fset", None), getattr(v, "fdel", None)):
                if isinstance(f, AFunc) and f.cls is None:
                    f.cls = c
        if isinstance(meta, AClass):
            new, k = meta.lookup("__new__")
            if k is not None:
                self.fresh = c
                fn = new.fn if isinstance(new, Wrapped) else new
                r = self.call(fn, [meta, name, tuple(bases), ns], kwds)
                self.fresh = None
                if r is not c:
                    raise Unsupported("metaclass creating other objects")
            init, k = meta.lookup("__init__")
            if k is not None:
                self.call(init, [c, name, tuple(bases), ns], kwds)
        for k, v in list(ns.items()):
            if isinstance(v, Cached):
                v.name = k
            if isinstance(v, AObj):
                m, q = v.cls.lookup("__set_name__")
                if q is not None:
                    self.call(m, [v, c, k], {})
            if isinstance(v, HostObj) and "__set_name__" in v.attrs:
                self.call(v.attrs["__set_name__"], [c, k], {})
        hook = None
        for k in c.mro()[1:]:
            if "__init_subclass__" in k.ns:
                hook = k.ns["__init_subclass__"]
                break
        if hook is not None:
            self.call(hook.fn if isinstance(hook, Wrapped) else hook, [c], kwds)
        elif kwds and c.opaque() is None and not any(
                isinstance(b, TypeTok) for b in c.toks()) and not isinstance(meta, AClass):
            raise AbsRaise("TypeError", "%s.__init_subclass__() takes no keyword arguments"
                           % name)
        return c

    def instantiate(self, c, args, kw, node=None):
        ab = c.abstract()
        if ab and (c.meta is not None or any(isinstance(b, TypeTok) and b.name in (
                "ABC", "Protocol") for b in c.toks())):
            raise AbsRaise("TypeError", "Can't instantiate abstract class %s without an "
                           "implementation for abstract methods %s" % (c.name, ab))
        op = c.opaque()
        if op is not None:
            raise Unsupported("instance of %s" % op.reason)
        hook, k = c.lookup("__meta_call__")
        if k is not None:
            return self.call(hook.fn, [c] + list(args), kw)
        new, k = c.lookup("__new__")
        if k is not None:
            o = self.call(new.fn if isinstance(new, Wrapped) else new, [c] + list(args), kw)
            if not (isinstance(o, AObj) and c in o.cls.mro()):
                return o
        else:
            o = AObj(c)
        init, ki = c.lookup("__init__")
        exc = c.exception()
        if exc:
            o.attrs["args"] = tuple(args)
        if init is not None:
            self.call(init, [o] + list(args), kw, node)
        elif exc is None and (args or kw) and k is None:
            raise AbsRaise("TypeError", "%s() takes no arguments" % c.name)
        return o

    # -- the object protocol --------------------------------------------------------------
    def object_attr(self, o, name):
        """Methods every object has, as functions of the remaining arguments."""
        f = OBJECT.get(name)
        return None if f is None else HostFunc("object." + name,
                                               lambda i, a, k: f(i, [o] + list(a), k))

    def obj_getattr(self, o, name):
        g, c = o.cls.lookup("__getattribute__")
        if c is not None:
            try:
                return self.call(g, [o, name], {})
            except AbsRaise as e:
                if e.etype != "AttributeError":
                    raise
                return self.obj_missing(o, name, e)
        try:
            return self.obj_default(o, name)
        except AbsRaise as e:
            if e.etype != "AttributeError":
                raise
            return self.obj_missing(o, name, e)

    def obj_missing(self, o, name, e):
        g, c = o.cls.lookup("__getattr__")
        if c is not None:
            return self.call(g, [o, name], {})
        raise e

    def obj_default(self, o, name):
        v, c = o.cls.lookup(name)
        data = c is not None and self.is_data(v)
        if not data and name in o.attrs:
            return o.attrs[name]
        if c is not None:
            return self.bind_attr(v, o, o.cls)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return o.attrs
        if name in ("__module__", "__doc__"):
            return self.getattr(o.cls, name)
        exc = o.cls.exception()
        if exc and name in EXCATTRS:
            return o.attrs.setdefault(name, None) if name != "with_traceback" else HostFunc(
                name, lambda i, a, k: o)
        m = self.object_attr(o, name)
        if m is not None:
            return m
        op = o.cls.opaque()
        if op is not None:
            return Top("%s.%s" % (op.reason, name))
        raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'"
                       % (o.cls.name, name))

    def is_data(self, v):
        return isinstance(v, Prop) or (isinstance(v, AObj) and (
            v.cls.lookup("__set__")[1] is not None
            or v.cls.lookup("__delete__")[1] is not None)) or (
            isinstance(v, HostObj) and v.cls == "slot")

    def bind_attr(self, v, obj, cls):
        if isinstance(v, Prop):
            if v.fget is None:
                raise AbsRaise("AttributeError", "property has no getter")
            return self.call(v.fget, [obj], {})
        if isinstance(v, Cached):
            r = obj.attrs[v.name] = self.call(v.fget, [obj], {})
            return r
        if isinstance(v, Wrapped):
            return v.fn if v.kind == "staticmethod" else Bound(cls, v.fn)
        if isinstance(v, AFunc):
            return Bound(obj, v)
        if isinstance(v, HostFunc) and v.attrs.get("method"):
            return Bound(obj, v)
        if isinstance(v, AObj):
            m, c = v.cls.lookup("__get__")
            if c is not None:
                return self.call(m, [v, obj, cls], {})
        if isinstance(v, HostObj) and "__get__" in v.attrs:
            return self.call(v.attrs["__get__"], [obj, cls], {})
        return v

    def class_getattr(self, o, name):
        v, c = o.lookup(name)
        if c is not None:
            if isinstance(v, Wrapped):
                return Bound(o, v.fn) if v.kind == "classmethod" else v.fn
            if isinstance(v, AObj):
                m, q = v.cls.lookup("__get__")
                if q is not None:
                    return self.call(m, [v, None, o], {})
            if isinstance(v, HostObj) and "__get__" in v.attrs:
                return self.call(v.attrs["__get__"], [None, o], {})
            if name in ("__init_subclass__", "__class_getitem__") and isinstance(v, AFunc):
                return Bound(o, v)
            return v
        simple = {"__name__": lambda: o.name, "__qualname__": lambda: o.qual,
                  "__module__": lambda: o.module.name if o.module else None,
                  "__dict__": lambda: dict(o.ns), "__bases__": lambda: tuple(o.bases),
                  "__mro__": lambda: tuple(o.mro()), "__doc__": lambda: ast.get_docstring(
                      o.node, False) if o.node is not None else None,
                  "__annotations__": lambda: {}}.get(name)
        if simple is not None:
            return simple()
        if name == "__subclasses__":
            return HostFunc(name, lambda i, a, k: list(o.subs))
        if name == "mro":
            return HostFunc(name, lambda i, a, k: list(o.mro()))
        if name == "__class__":
            return o.meta if o.meta is not None else self.builtin("type")
        if isinstance(o.meta, AClass):
            v, c = o.meta.lookup(name)
            if c is not None:
                return self.bind_attr(v, o, o.meta)
        f = OBJECT.get(name)
        if f is not None:
            return HostFunc("object." + name, f)
        op = o.opaque()
        if op is not None:
            return Top("%s.%s" % (op.reason, name))
        for b in o.toks():
            if isinstance(b, TypeTok) and name in b.attrs:
                return b.attrs[name]
        raise AbsRaise("AttributeError", "class %s has no attribute %s" % (o.name, name))

    def super_getattr(self, o, name):
        own = o.obj.cls if isinstance(o.obj, AObj) else o.obj
        meta = own if isinstance(own, AClass) and o.cls in own.mro() else None
        if meta is None and isinstance(own, AClass) and isinstance(own.meta, AClass):
            own = own.meta              # super() in a method of a metaclass
        mro = own.mro()
        if o.cls not in mro:
            raise AbsRaise("TypeError", "super(type, obj): obj is not an instance of type")
        for c in mro[mro.index(o.cls) + 1:]:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(o.obj, AClass):
                    if isinstance(v, Wrapped):
                        return Bound(o.obj, v.fn) if v.kind == "classmethod" else v.fn
                    if name in ("__init_subclass__", "__class_getitem__") or meta is None:
                        return Bound(o.obj, v)
                    return v
                return self.bind_attr(v, o.obj, own)
        if name == "__new__":
            if self.fresh is not None:
                return HostFunc("type.__new__", lambda i, a, k: i.fresh)
            return HostFunc("object.__new__", OBJECT["__new__"])
        if name == "__init_subclass__" or (name == "__init__" and meta is None and isinstance(
                o.obj, AClass)):
            return HostFunc(name, lambda i, a, k: None)
        if name == "__init__" and isinstance(o.obj, AObj):
            if own.exception():
                def init(i, a, k):
                    o.obj.attrs["args"] = tuple(a)
                return HostFunc("Exception.__init__", init)

            def oinit(i, a, k):
                if (a or k) and own.opaque() is None:
                    raise AbsRaise("TypeError", "object.__init__() takes exactly one argument")
            return HostFunc("object.__init__", oinit)
        if isinstance(o.obj, AObj) and own.exception() and name in ("__str__", "__repr__"):
            from .interp import exc_text
            return HostFunc(name, lambda i, a, k: exc_text(i, o.obj, True))
        m = self.object_attr(o.obj, name)
        if m is not None:
            return m
        op = own.opaque()
        if op is not None:
            return Top("%s.%s" % (op.reason, name))
        raise AbsRaise("AttributeError", "'super' object has no attribute '%s'" % name)

    def obj_setattr(self, o, name, v):
        m, c = o.cls.lookup("__setattr__")
        if c is not None:
            self.call(m, [o, name, v], {})
            return
        self.obj_store(o, name, v)

    def obj_store(self, o, name, v):
        p, c = o.cls.lookup(name)
        if isinstance(p, Prop):
            if p.fset is None:
                raise AbsRaise("AttributeError", "property '%s' of '%s' object has no setter"
                               % (name, o.cls.name))
            self.call(p.fset, [o, v], {})
            return
        if isinstance(p, AObj):
            m, q = p.cls.lookup("__set__")
            if q is not None:
                self.call(m, [p, o, v], {})
                return
        if name == "__class__":
            if not isinstance(v, AClass):
                raise Unsupported("assignment of __class__")
            o.cls = v
            return
        if name == "__dict__":
            if not isinstance(v, dict):
                raise AbsRaise("TypeError", "__dict__ must be set to a dictionary")
            o.attrs = v
            o.writes.append((name, self.site()))
            return
        if not self.slot_ok(o.cls, name):
            raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'"
                           % (o.cls.name, name))
        o.attrs[name] = v
        o.writes.append((name, self.site()))

    def slot_ok(self, c, name):
        names = set()
        for k in c.mro():
            s = k.ns.get("__slots__")
            if s is None or not isinstance(s, (tuple, list, str)):
                return True
            names |= {s} if isinstance(s, str) else set(s)
        return name in names or "__dict__" in names or bool(c.toks())

    def obj_delattr(self, o, name):
        m, c = o.cls.lookup("__delattr__")
        if c is not None:
            self.call(m, [o, name], {})
            return
        self.obj_remove(o, name)

    def obj_remove(self, o, name):
        p, c = o.cls.lookup(name)
        if isinstance(p, Prop):
            if p.fdel is None:
                raise AbsRaise("AttributeError", "property '%s' has no deleter" % name)
            self.call(p.fdel, [o], {})
            return
        if name not in o.attrs:
            raise AbsRaise("AttributeError", name)
        del o.attrs[name]
        o.writes.append((name, self.site()))


EXCATTRS = ("__cause__", "__context__", "__traceback__", "__suppress_context__",
            "with_traceback", "__notes__")


def _eq(it, a, k):
    return a[0] is a[1] or NOTIMPL


def _orepr(it, a, k):
    o = a[0]
    return "<%s object at 0x%x>" % (o.cls.qual, id(o)) if isinstance(o, AObj) else repr(o)


def _ostr(it, a, k):
    from .interp import repr_value
    return repr_value(a[0])


def _onew(it, a, k):
    if not a or not isinstance(a[0], AClass):
        raise AbsRaise("TypeError", "object.__new__(): not enough arguments")
    ab = a[0].abstract()
    if ab and a[0].meta is not None:
        raise AbsRaise("TypeError", "Can't instantiate abstract class %s" % a[0].name)
    return AObj(a[0])


NOTIMPL = HostObj("NotImplemented")
OBJECT = {
    "__init__": lambda i, a, k: None,
    "__new__": _onew,
    "__setattr__": lambda i, a, k: i.obj_store(a[0], a[1], a[2]),
    "__getattribute__": lambda i, a, k: i.obj_default(a[0], a[1]),
    "__delattr__": lambda i, a, k: i.obj_remove(a[0], a[1]),
    "__eq__": _eq,
    "__ne__": lambda i, a, k: a[0] is not a[1] and NOTIMPL,
    "__hash__": lambda i, a, k: id(a[0]),
    "__repr__": _orepr,
    "__str__": _ostr,
    "__format__": _ostr,
    "__init_subclass__": lambda i, a, k: None,
    "__dir__": lambda i, a, k: sorted(a[0].attrs) if isinstance(a[0], AObj) else [],
    "__reduce__": lambda i, a, k: Top("object.__reduce__"),
    "__sizeof__": lambda i, a, k: Top("object.__sizeof__"),
}
assert AArray
