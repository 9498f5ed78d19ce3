"""dictionaries and lists that wrap another one"""


class UserDict:
    def __init__(self, other=None, /, **kwargs):
        self.data = {}
        if other is not None:
            self.update(other)
        if kwargs:
            self.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def __eq__(self, other):
        return dict(self.items()) == dict(other.items()) if hasattr(other, "items") else NotImplemented

    __hash__ = None

    def get(self, key, default=None):
        return self[key] if key in self else default

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def items(self):
        return self.data.items()

    def pop(self, key, *default):
        if key in self:
            value = self[key]
            del self[key]
            return value
        if default:
            return default[0]
        raise KeyError(key)

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError("popitem(): dictionary is empty")

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def update(self, other=(), /, **kwargs):
        if hasattr(other, "keys"):
            for k in other.keys():
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def clear(self):
        for k in list(self):
            del self[k]

    def copy(self):
        return self.__class__(self.data)


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        return self.__missing__(key)

    def __missing__(self, key):
        raise KeyError(key)

    def get(self, key, default=None):
        return self[key] if key in self else default

    def _merged(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict(m.items()))
        return d

    def __len__(self):
        return len(self._merged())

    def __iter__(self):
        return iter(self._merged())

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __bool__(self):
        return any(bool(m) for m in self.maps)

    def keys(self):
        return self._merged().keys()

    def values(self):
        return self._merged().values()

    def items(self):
        return self._merged().items()

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def pop(self, key, *args):
        return self.maps[0].pop(key, *args)

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)

    @property
    def parents(self):
        return ChainMap(*self.maps[1:])
