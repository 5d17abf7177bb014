class istr(str):
    pass
class MultiDict:
    def __init__(self, arg=(), /, **kwa):
        self._l = []
        self.extend(arg, **kwa)
    def _id(self, k):
        return k
    def add(self, k, v):
        self._l.append((k, v))
    def extend(self, arg=(), /, **kwa):
        for k, v in (arg.items() if hasattr(arg, "items") else arg):
            self.add(k, v)
        for k, v in kwa.items():
            self.add(k, v)
    def update(self, arg=(), /, **kwa):
        items = list(arg.items() if hasattr(arg, "items") else arg) + list(kwa.items())
        for k, _ in items:
            self._l = [(a, b) for a, b in self._l if self._id(a) != self._id(k)]
        self._l.extend(items)
    def getall(self, k, *d):
        r = [v for a, v in self._l if self._id(a) == self._id(k)]
        if r:
            return r
        if d:
            return d[0]
        raise KeyError(k)
    def getone(self, k, *d):
        for a, v in self._l:
            if self._id(a) == self._id(k):
                return v
        if d:
            return d[0]
        raise KeyError(k)
    def get(self, k, default=None):
        return self.getone(k, default)
    def __getitem__(self, k):
        return self.getone(k)
    def __setitem__(self, k, v):
        for i, (a, _) in enumerate(self._l):
            if self._id(a) == self._id(k):
                self._l[i] = (k, v)
                self._l[i+1:] = [(a, b) for a, b in self._l[i+1:] if self._id(a) != self._id(k)]
                return
        self.add(k, v)
    def __delitem__(self, k):
        n = len(self._l)
        self._l = [(a, b) for a, b in self._l if self._id(a) != self._id(k)]
        if len(self._l) == n:
            raise KeyError(k)
    def pop(self, k, *d):
        try:
            v = self.getone(k)
        except KeyError:
            if d:
                return d[0]
            raise
        for i, (a, _) in enumerate(self._l):
            if self._id(a) == self._id(k):
                del self._l[i]
                break
        return v
    def setdefault(self, k, d=None):
        if k not in self:
            self.add(k, d)
        return self.getone(k)
    def __contains__(self, k):
        return any(self._id(a) == self._id(k) for a, _ in self._l)
    def __len__(self):
        return len(self._l)
    def __iter__(self):
        return iter([a for a, _ in self._l])
    def keys(self):
        return [a for a, _ in self._l]
    def values(self):
        return [v for _, v in self._l]
    def items(self):
        return list(self._l)
    def __eq__(self, other):
        return list(self.items()) == list(other.items()) if hasattr(other, "items") else NotImplemented
    def __repr__(self):
        return f"<{type(self).__name__}({', '.join(f'{k!r}: {v!r}' for k, v in self._l)})>"
    def clear(self):
        self._l.clear()
    def copy(self):
        return type(self)(self._l)
class CIMultiDict(MultiDict):
    def _id(self, k):
        return k.lower() if isinstance(k, str) else k
MutableMultiMapping = MultiMapping = MultiDict
from collections.abc import MutableMapping as _MM
_MM.register(MultiDict)
