from multidict import MultiDict, CIMultiDict, istr
class _Nab:
    def nabone(self, key, *pa, **kwa):
        vals = self.getall(key, None)
        if vals is None or not vals:
            if pa:
                return pa[0]
            if "default" in kwa:
                return kwa["default"]
            raise KeyError(key)
        return vals[-1]
    def nab(self, key, *pa, **kwa):
        if not pa and "default" not in kwa:
            pa = (None,)
        return self.nabone(key, *pa, **kwa)
    def naball(self, key, *pa, **kwa):
        try:
            return list(reversed(self.getall(key)))
        except KeyError:
            if pa:
                return pa[0]
            if "default" in kwa:
                return kwa["default"]
            raise
    def firsts(self):
        keys = []
        for k in self.keys():
            if k not in keys:
                keys.append(k)
        return [(k, self.getone(k)) for k in keys]
    def lasts(self):
        keys = []
        for k in self.keys():
            if k not in keys:
                keys.append(k)
        return [(k, self.nabone(k)) for k in keys]
class Mict(_Nab, MultiDict):
    pass
class Hict(_Nab, CIMultiDict):
    pass
