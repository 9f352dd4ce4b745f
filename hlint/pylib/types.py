"""Model of the standard library module (interpreted, never imported)."""


class SimpleNamespace:
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)

    def __repr__(self):
        return "namespace(%s)" % ", ".join("%s=%r" % kv for kv in self.__dict__.items())

    def __eq__(self, other):
        return self.__dict__ == other.__dict__ if isinstance(other, SimpleNamespace) \
            else NotImplemented


class MappingProxyType:
    def __init__(self, mapping):
        object.__setattr__(self, "_m", mapping)

    def __getitem__(self, key):
        return self._m[key]

    def get(self, key, default=None):
        return self._m.get(key, default)

    def keys(self):
        return self._m.keys()

    def values(self):
        return self._m.values()

    def items(self):
        return self._m.items()

    def copy(self):
        return self._m.copy()

    def __iter__(self):
        return iter(self._m)

    def __len__(self):
        return len(self._m)

    def __contains__(self, key):
        return key in self._m

    def __eq__(self, other):
        return self._m == other

    def __or__(self, other):
        return self._m | other
