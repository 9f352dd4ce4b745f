"""Model of the standard library module (interpreted, never imported)."""


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        for m in self.maps:
            if key in m:
                return m[key]
        return default

    def keys(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return d.keys()

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)


class Counter:
    def __init__(self, iterable=None, **kwds):
        self._d = {}
        self.update(iterable, **kwds)

    def update(self, iterable=None, **kwds):
        if isinstance(iterable, (dict, Counter)):
            for k, n in iterable.items():
                self._d[k] = self._d.get(k, 0) + n
        elif iterable is not None:
            for k in iterable:
                self._d[k] = self._d.get(k, 0) + 1
        for k, n in kwds.items():
            self._d[k] = self._d.get(k, 0) + n

    def __getitem__(self, key):
        return self._d.get(key, 0)

    def __setitem__(self, key, n):
        self._d[key] = n

    def get(self, key, default=None):
        return self._d.get(key, default)

    def __contains__(self, key):
        return key in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def elements(self):
        for k, n in self._d.items():
            for _ in range(n):
                yield k

    def most_common(self, n=None):
        r = sorted(self._d.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def total(self):
        return sum(self._d.values())

    def __eq__(self, other):
        return dict(self.items()) == dict(other.items())

    def __add__(self, other):
        r = Counter(self._d)
        r.update(other)
        return r
