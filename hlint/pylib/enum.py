"""Model of the standard library module (interpreted, never imported)."""


class auto:
    pass


class Enum:
    def __init_subclass__(cls, **kwargs):
        members = {}
        values = []
        last = []
        ns = cls.__dict__
        for k, v in ns.items():
            if k.startswith("_") or __descriptor__(v):
                continue
            if isinstance(v, auto):
                if "_generate_next_value_" in ns:
                    v = __function__(ns["_generate_next_value_"])(k, 1, len(members), list(last))
                else:
                    v = cls.__auto__(k, last)
            last.append(v)
            for w, m in values:
                if type(w) is type(v) and w == v:
                    members[k] = m
                    __store__(cls, k, m)
                    break
            else:
                m = object.__new__(cls)
                __put__(m, "_value_", v)
                __put__(m, "_name_", k)
                __put__(m, "name", k)
                init = cls.__init__
                if hasattr(cls, "__enum_init__") or "__init__" in ns:
                    init(m, *(v if isinstance(v, tuple) else (v,)))
                __put__(m, "value", m._value_)
                members[k] = m
                values.append((m._value_, m))
                __store__(cls, k, m)
        __store__(cls, "__members__", members)
        __store__(cls, "__unique__", [m for w, m in values])

    @staticmethod
    def __auto__(name, last):
        return max(last) + 1 if last else 1

    @classmethod
    def __meta_call__(cls, value):
        for m in cls.__unique__:
            if m is value:
                return m
        for m in cls.__unique__:
            if m._value_ == value:
                return m
        if hasattr(cls, "_missing_"):
            m = cls._missing_(value)
            if m is not None:
                return m
        raise ValueError("%r is not a valid %s" % (value, cls.__name__))

    @classmethod
    def __meta_iter__(cls):
        return iter(list(cls.__unique__))

    @classmethod
    def __meta_len__(cls):
        return len(cls.__unique__)

    @classmethod
    def __meta_contains__(cls, x):
        for m in cls.__unique__:
            if m is x or m._value_ == x:
                return True
        return False

    def __class_getitem__(cls, name):
        return cls.__members__[name]

    def __setattr__(self, name, value):
        if name in ("name", "value"):
            raise AttributeError("property '%s' of enum has no setter" % name)
        object.__setattr__(self, name, value)

    def __repr__(self):
        return "<%s.%s: %r>" % (type(self).__name__, self._name_, self._value_)

    def __str__(self):
        return "%s.%s" % (type(self).__name__, self._name_)

    def __hash__(self):
        return hash(self._name_)


class StrEnum(Enum):
    """Members are texts; only their values are modelled."""

    @staticmethod
    def __auto__(name, last):
        return name.lower()

    def __eq__(self, other):
        return self is other or self._value_ == other

    def __hash__(self):
        return hash(self._value_)

    def __str__(self):
        return self._value_


def unique(cls):
    if len(cls.__members__) != len(cls.__unique__):
        raise ValueError("duplicate values found")
    return cls
