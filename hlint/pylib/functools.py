"""Model of the standard library module (interpreted, never imported)."""


def total_ordering(cls):
    ops = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if __defined__(cls, n)]
    if not ops:
        raise ValueError("must define at least one ordering operation: < > <= >=")

    def lt(a, b):
        if "__lt__" in ops:
            return a.__lt__(b)
        if "__le__" in ops:
            r = a.__le__(b)
            return r if r is NotImplemented else r and a != b
        if "__gt__" in ops:
            r = a.__gt__(b)
            return r if r is NotImplemented else not r and a != b
        r = a.__ge__(b)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        return lt(self, other)

    def __gt__(self, other):
        r = lt(self, other)
        return r if r is NotImplemented else not r and self != other

    def __le__(self, other):
        r = lt(self, other)
        return r if r is NotImplemented else r or self == other

    def __ge__(self, other):
        r = lt(self, other)
        return r if r is NotImplemented else not r
    for n, f in (("__lt__", __lt__), ("__gt__", __gt__), ("__le__", __le__),
                 ("__ge__", __ge__)):
        if n not in ops:
            __store__(cls, n, f)
    return cls


def singledispatch(func):
    table = {}

    def register(cls, fn=None):
        if fn is None:
            if not isinstance(cls, type):
                __unsupported__("singledispatch by annotation")
            return lambda f: register(cls, f)
        table[cls] = fn
        return fn

    def dispatch(x):
        best = None
        for c, f in table.items():
            if isinstance(x, c) and (best is None or issubclass(c, best[0])):
                best = (c, f)
        return func if best is None else best[1]

    def wrapper(*args, **kwargs):
        if not args:
            raise TypeError("requires at least 1 positional argument")
        return dispatch(args[0])(*args, **kwargs)
    wrapper.register = register
    wrapper.registry = table
    update_wrapper(wrapper, func)
    return wrapper


class singledispatchmethod:
    def __init__(self, func):
        self.func = func
        self.table = {}

    def register(self, cls, method=None):
        if method is None:
            return lambda f: self.register(cls, f)
        self.table[cls] = method
        return method

    def __get__(self, obj, cls=None):
        def call(*args, **kwargs):
            best = None
            for c, f in self.table.items():
                if isinstance(args[0], c) and (best is None or issubclass(c, best[0])):
                    best = (c, f)
            f = self.func if best is None else best[1]
            return f(obj, *args, **kwargs)
        return call


class partialmethod:
    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords

    def __get__(self, obj, cls=None):
        f = self.func
        args = self.args
        keywords = self.keywords
        if obj is None:
            return lambda o, *a, **k: f(o, *args, *a, **{**keywords, **k})
        return lambda *a, **k: f(obj, *args, *a, **{**keywords, **k})
