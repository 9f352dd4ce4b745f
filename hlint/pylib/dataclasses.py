"""Model of the standard library module (interpreted, never imported)."""


class _Missing:
    pass


class FrozenInstanceError(AttributeError):
    pass


class InitVar:
    def __class_getitem__(cls, item):
        return cls


MISSING = _Missing()
KW_ONLY = _Missing()


class Field:
    def __init__(self, default, default_factory, init, repr, hash, compare, metadata, kw_only):
        self.name = None
        self.type = None
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.hash = hash
        self.compare = compare
        self.metadata = {} if metadata is None else metadata
        self.kw_only = kw_only
        self.initvar = False


def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None,
          compare=True, metadata=None, kw_only=MISSING):
    if default is not MISSING and default_factory is not MISSING:
        raise ValueError("cannot specify both default and default_factory")
    return Field(default, default_factory, init, repr, hash, compare, metadata, kw_only)


def fields(obj):
    try:
        fs = getattr(obj, "__dataclass_fields__")
    except AttributeError:
        raise TypeError("must be called with a dataclass type or instance") from None
    return tuple(f for f in fs.values() if not f.initvar)


def is_dataclass(obj):
    return hasattr(obj, "__dataclass_fields__")


def _deep(v):
    if is_dataclass(v) and not isinstance(v, type):
        return asdict(v)
    if isinstance(v, list):
        return [_deep(x) for x in v]
    if isinstance(v, tuple):
        return tuple(_deep(x) for x in v)
    if isinstance(v, dict):
        return {_deep(k): _deep(x) for k, x in v.items()}
    import copy
    return copy.deepcopy(v)


def asdict(obj):
    if not is_dataclass(obj) or isinstance(obj, type):
        raise TypeError("asdict() should be called on dataclass instances")
    return {f.name: _deep(getattr(obj, f.name)) for f in fields(obj)}


def astuple(obj):
    return tuple(_deep(getattr(obj, f.name)) for f in fields(obj))


def replace(obj, **changes):
    if not is_dataclass(obj) or isinstance(obj, type):
        raise TypeError("replace() should be called on dataclass instances")
    for f in obj.__dataclass_fields__.values():
        if f.initvar:
            continue
        if not f.init:
            if f.name in changes:
                raise ValueError("field is declared with init=False")
            continue
        if f.name not in changes:
            changes[f.name] = getattr(obj, f.name)
    return type(obj)(**changes)


def _factory_given():
    pass


def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False,
              frozen=False, match_args=True, kw_only=False, slots=False, weakref_slot=False):
    def wrap(c):
        return _process(c, init, repr, eq, order, unsafe_hash, frozen, kw_only, slots)
    return wrap if cls is None else wrap(cls)


def _process(cls, init, repr_, eq, order, unsafe_hash, frozen, kw_only, slots):
    table = {}
    bases = [b for b in cls.__mro__[1:] if "__dataclass_fields__" in b.__dict__]
    for b in reversed(bases):
        if frozen is not b.__dict__["__dataclass_frozen__"]:
            raise TypeError("cannot mix frozen and non-frozen dataclasses")
        for k, f in b.__dict__["__dataclass_fields__"].items():
            table[k] = f
    ns = cls.__dict__
    kw = kw_only
    own = []
    for name, ann in ns.get("__annotations__", {}).items():
        if ann is KW_ONLY:
            kw = True
            continue
        if __annotation__(ann) == "ClassVar":
            continue
        d = ns.get(name, MISSING)
        f = d if isinstance(d, Field) else field(default=d)
        f.name = name
        f.type = ann
        f.initvar = ann is InitVar or __annotation__(ann) == "InitVar"
        if f.kw_only is MISSING:
            f.kw_only = kw
        if isinstance(f.default, (list, dict, set)) or __unhashable__(f.default):
            raise ValueError("mutable default for field %s is not allowed: use "
                             "default_factory" % name)
        table[name] = f
        own.append(f)
        if isinstance(d, Field):
            if f.default is MISSING:
                __unstore__(cls, name)
            else:
                __store__(cls, name, f.default)
    for name, v in ns.items():
        if isinstance(v, Field) and name not in ns.get("__annotations__", {}):
            raise TypeError("%s is a field but has no type annotation" % name)
    __store__(cls, "__dataclass_fields__", table)
    __store__(cls, "__dataclass_frozen__", frozen)
    __store__(cls, "__match_args__", tuple(f.name for f in table.values() if f.init
                                           and not f.kw_only))
    fs = [f for f in table.values() if not f.initvar]
    if init and "__init__" not in ns:
        env = {"_MISSING": MISSING, "_given": _factory_given, "_object": object}
        pos, kws, body, post = [], [], [], []
        seen = None
        for f in table.values():
            if f.init:
                if f.default is not MISSING:
                    env["_d_" + f.name] = f.default
                    arg = "%s=_d_%s" % (f.name, f.name)
                elif f.default_factory is not MISSING:
                    env["_f_" + f.name] = f.default_factory
                    arg = "%s=_given" % f.name
                else:
                    arg = f.name
                    if not f.kw_only and seen is not None:
                        raise TypeError("non-default argument %r follows default argument %r"
                                        % (f.name, seen))
                if not f.kw_only and arg != f.name:
                    seen = f.name
                (kws if f.kw_only else pos).append(arg)
            if f.initvar:
                post.append(f.name)
                continue
            value = f.name
            if f.default_factory is not MISSING:
                env["_f_" + f.name] = f.default_factory
                value = "_f_%s()" % f.name
                if f.init:
                    value += " if %s is _given else %s" % (f.name, f.name)
            elif not f.init:
                continue
            if frozen:
                body.append("_object.__setattr__(self, '%s', %s)" % (f.name, value))
            else:
                body.append("self.%s = %s" % (f.name, value))
        if hasattr(cls, "__post_init__"):
            body.append("self.__post_init__(%s)" % ", ".join(post))
        sig = ["self"] + pos + (["*"] + kws if kws else [])
        text = "def __init__(%s):\n" % ", ".join(sig)
        for b in body or ["pass"]:
            text += "    " + b + "\n"
        __define__(cls, text, env)
    names = [f.name for f in fs if f.repr]
    if repr_ and "__repr__" not in ns:
        def __repr__(self):
            return type(self).__qualname__.split(".")[-1] + "(" + ", ".join(
                n + "=" + repr(getattr(self, n)) for n in names) + ")"
        __store__(cls, "__repr__", __repr__)
    cmp = [f.name for f in fs if f.compare]
    if eq and "__eq__" not in ns:
        def __eq__(self, other):
            if other.__class__ is not self.__class__:
                return NotImplemented
            return tuple(getattr(self, n) for n in cmp) == tuple(getattr(other, n)
                                                                 for n in cmp)
        __store__(cls, "__eq__", __eq__)
    if order:
        def key(o):
            return tuple(getattr(o, n) for n in cmp)

        def __lt__(self, other):
            return key(self) < key(other) if other.__class__ is self.__class__ \
                else NotImplemented

        def __le__(self, other):
            return key(self) <= key(other) if other.__class__ is self.__class__ \
                else NotImplemented

        def __gt__(self, other):
            return key(self) > key(other) if other.__class__ is self.__class__ \
                else NotImplemented

        def __ge__(self, other):
            return key(self) >= key(other) if other.__class__ is self.__class__ \
                else NotImplemented
        for n, fn in (("__lt__", __lt__), ("__le__", __le__), ("__gt__", __gt__),
                      ("__ge__", __ge__)):
            if n in ns:
                raise TypeError("Cannot overwrite attribute %s" % n)
            __store__(cls, n, fn)
    if frozen:
        names_ = [f.name for f in fs]

        def __setattr__(self, name, value):
            if type(self) is cls or name in names_:
                raise FrozenInstanceError("cannot assign to field '%s'" % name)
            super(cls, self).__setattr__(name, value)

        def __delattr__(self, name):
            if type(self) is cls or name in names_:
                raise FrozenInstanceError("cannot delete field '%s'" % name)
            super(cls, self).__delattr__(name)
        __store__(cls, "__setattr__", __setattr__)
        __store__(cls, "__delattr__", __delattr__)
    if unsafe_hash or (eq and frozen and "__hash__" not in ns):
        hs = [f.name for f in fs if (f.compare if f.hash is None else f.hash)]

        def __hash__(self):
            return hash(tuple(getattr(self, n) for n in hs))
        __store__(cls, "__hash__", __hash__)
    elif eq and "__hash__" not in ns:
        __store__(cls, "__hash__", None)
    if slots:
        __store__(cls, "__slots__", tuple(f.name for f in own))
        for f in own:
            if f.name in cls.__dict__:
                __unstore__(cls, f.name)
    return cls


def make_dataclass(cls_name, fields, *, bases=(), namespace=None, **kwargs):
    ns = {} if namespace is None else dict(namespace)
    ann = {}
    for f in fields:
        if isinstance(f, str):
            ann[f] = object
        elif len(f) == 2:
            ann[f[0]] = f[1]
        else:
            ann[f[0]] = f[1]
            ns[f[0]] = f[2]
    ns["__annotations__"] = ann
    return dataclass(type(cls_name, bases, ns), **kwargs)
